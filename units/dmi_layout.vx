@@header
use vstd::prelude::*;

@@source dmi crates/dreammaker/src/dmi.rs
@@source tdmi crates/dmm-tools/src/dmi.rs
@@source render crates/dmm-tools/src/dmi/render.rs

@@include prelude.inc

@@type dmi::Dir derive Clone, Copy
@@type dmi::Dirs derive Clone, Copy
@@type dmi::Frames
@@type dmi::StateIndex
@@type dmi::State
@@type dmi::Metadata
@@type tdmi::Rgba8 derive Clone, Copy
@@type tdmi::Image
@@type tdmi::IconFile
@@type render::IconRenderer

@@verbatim
// ---- trusted stand-ins for library maps, text primitives and images (only the stated facts are used)
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct HashMap<K, V> { _k: Vec<(K, V)> }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct BTreeMap<K, V> { _k: Vec<(K, V)> }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Array2<T> { _k: Vec<T> }
impl HashMap<String, u32> {
    pub uninterp spec fn view(&self) -> Map<Seq<char>, u32>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<Seq<char>, u32>::empty(), { unimplemented!() }
}
pub type Key = (Seq<char>, u32);
impl BTreeMap<StateIndex, usize> {
    pub uninterp spec fn view(&self) -> Map<Key, usize>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<Key, usize>::empty(), { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &StateIndex) -> (r: Option<&usize>)
        ensures r == (if self@.dom().contains(k.key()) { Some(&self@[k.key()]) } else { None }),
    { unimplemented!() }
}
/// map.entry(k).or_insert(d)
#[verifier::external_body]
pub fn vx_entry_or(m: &mut HashMap<String, u32>, k: String, d: u32) -> (r: &mut u32)
    ensures *r == (if old(m)@.dom().contains(k@) { old(m)@[k@] } else { d }), final(m)@ == old(m)@.insert(k@, *final(r)),
{ unimplemented!() }
/// if let Vacant(e) = map.entry(k) { e.insert(v) }
#[verifier::external_body]
pub fn vx_insert_new(m: &mut BTreeMap<StateIndex, usize>, k: StateIndex, v: usize)
    ensures final(m)@ == (if old(m)@.dom().contains(k.key()) { old(m)@ } else { old(m)@.insert(k.key(), v) }),
{ unimplemented!() }
#[verifier::external_body]
pub struct VxLines<'a> { _x: &'a str }
impl<'a> VxLines<'a> {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a str>) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_lines<'a>(s: &'a str) -> VxLines<'a> { unimplemented!() }
#[verifier::external_body]
pub fn vx_differ<T>(a: &T, b: &T) -> (r: bool) { unimplemented!() }
#[verifier::external_body]
pub fn vx_is_end(a: &str) -> (r: bool) { unimplemented!() }
#[verifier::external_body]
pub fn vx_split<'a>(a: &'a str) -> (r: (&'a str, &'a str)) { unimplemented!() }
#[verifier::external_body]
pub fn vx_parse<T>(a: &str) -> (r: T) { unimplemented!() }
#[verifier::external_body]
pub fn vx_unquote(a: &str) -> (r: String) { unimplemented!() }
#[verifier::external_body]
pub fn vx_plain(a: &String) -> (r: bool) { unimplemented!() }
#[verifier::external_body]
pub fn vx_floats(a: &str) -> (r: Vec<f32>) { unimplemented!() }
#[verifier::external_body]
pub fn vx_all_one(a: &Vec<f32>) -> (r: bool) { unimplemented!() }
/// Option::unwrap; a panic ends the run
#[verifier::external_body]
pub fn vx_some<T>(o: Option<T>) -> (r: T) ensures o == Some(r), { unimplemented!() }
pub fn vx_extend(v: &mut Vec<State>, o: Option<State>)
    ensures final(v)@ == (match o { Some(s) => old(v)@.push(s), None => old(v)@ }),
{ match o { Some(s) => v.push(s), None => {} } }
pub mod io {
    use super::*;
    #[verifier::external_body]
    pub struct Error { _x: u8 }
    pub enum ErrorKind { InvalidData, NotFound }
    impl Error {
        #[verifier::external_body]
        pub fn new<S>(k: ErrorKind, s: S) -> (r: Error) { unimplemented!() }
    }
    pub type Result<T> = std::result::Result<T, Error>;
}

pub assume_specification<T: Clone>[ <[T]>::to_vec ](s: &[T]) -> (r: Vec<T>)
    ensures r@.len() == s@.len(), forall|i: int| 0 <= i < r@.len() ==> vstd::pervasive::cloned(s@[i], #[trigger] r@[i]),
;
pub type Rect = (u32, u32, u32, u32);

// ---- the sheet layout
impl StateIndex { pub closed spec fn key(self) -> Key { (self.0@, self.1) } }
/// position of a facing among the sprites of one frame: S N E W SE SW NE NW
pub open spec fn slot(n: int, d: Dir) -> int {
    if n == 1 { 0 } else { match d {
        Dir::South => 0, Dir::North => 1, Dir::East => 2, Dir::West => 3,
        Dir::Southeast => if n == 8 { 4 } else { 0 }, Dir::Southwest => if n == 8 { 5 } else { 0 },
        Dir::Northeast => if n == 8 { 6 } else { 0 }, Dir::Northwest => if n == 8 { 7 } else { 0 },
    } }
}
pub open spec fn dirs_of(s: Dirs) -> int { match s { Dirs::One => 1, Dirs::Four => 4, Dirs::Eight => 8 } }
pub open spec fn frames_of(f: Frames) -> int { match f { Frames::One => 1, Frames::Count(n) => n as int, Frames::Delays(v) => v@.len() as int } }
pub open spec fn sprites(s: State) -> int { dirs_of(s.dirs) * frames_of(s.frames) }
/// sprites of the first n states
pub open spec fn total(s: Seq<State>, n: int) -> int decreases n { if n <= 0 { 0 } else { total(s, n - 1) + sprites(s[n - 1]) } }
/// states among the first n with this name
pub open spec fn named(s: Seq<State>, n: int, name: Seq<char>) -> int decreases n { if n <= 0 { 0 } else { named(s, n - 1, name) + (if s[n - 1].name@ == name { 1int } else { 0 }) } }
pub open spec fn key_of(s: State) -> Key { (s.name@, s.duplicate_index) }
pub open spec fn offsets_ok(s: Seq<State>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).offset == total(s, i) }
pub open spec fn dups_ok(s: Seq<State>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).duplicate_index == named(s, i, s[i].name@) }
pub open spec fn names_ok(s: Seq<State>, m: Map<Key, usize>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> m.dom().contains(key_of(#[trigger] s[i])) && m[key_of(s[i])] == i
    &&& forall|k: Key| #[trigger] m.dom().contains(k) ==> m[k] < s.len() && key_of(s[m[k] as int]) == k
}
impl Metadata {
    pub open spec fn wf(self) -> bool { offsets_ok(self.states@) && dups_ok(self.states@) && names_ok(self.states@, self.state_names@) }
}
pub proof fn total_pfx(a: Seq<State>, b: Seq<State>, n: int)
    requires n <= a.len(), n <= b.len(), forall|i: int| 0 <= i < n ==> sprites(#[trigger] a[i]) == sprites(b[i]),
    ensures total(a, n) == total(b, n),
    decreases n,
{ if n > 0 { total_pfx(a, b, n - 1); assert(sprites(a[n - 1]) == sprites(b[n - 1])); } }
pub proof fn named_pfx(a: Seq<State>, b: Seq<State>, n: int, name: Seq<char>)
    requires n <= a.len(), n <= b.len(), forall|i: int| 0 <= i < n ==> (#[trigger] a[i]).name == b[i].name,
    ensures named(a, n, name) == named(b, n, name),
    decreases n,
{ if n > 0 { named_pfx(a, b, n - 1, name); assert(a[n - 1].name == b[n - 1].name); } }
pub proof fn named_bound(a: Seq<State>, n: int, m: int, name: Seq<char>)
    requires 0 <= n <= m,
    ensures named(a, n, name) <= named(a, m, name), 0 <= named(a, n, name) <= n,
    decreases m,
{ if n < m { named_bound(a, n, m - 1, name); named_bound(a, n, n, name); } else if n > 0 { named_bound(a, n - 1, n - 1, name); } }

/// states already read: the finished ones and the one being read
pub open spec fn all_states(v: Seq<State>, s: Option<State>) -> Seq<State> { match s { Some(x) => v.push(x), None => v } }
pub open spec fn reading(v: Seq<State>, s: Option<State>, sofar: int, d: Map<Seq<char>, u32>, m: Map<Key, usize>) -> bool {
    let a = all_states(v, s);
    &&& offsets_ok(a) && dups_ok(a) && names_ok(a, m)
    &&& sofar == total(v, v.len() as int)
    &&& (s is None ==> v.len() == 0)
    &&& forall|n: Seq<char>| #[trigger] d.dom().contains(n) ==> d[n] == named(a, a.len() as int, n)
    &&& forall|n: Seq<char>| !#[trigger] d.dom().contains(n) ==> named(a, a.len() as int, n) == 0
}
/// replacing the state being read by one with the same name and offset
pub proof fn tweak(v: Seq<State>, s: State, t: State, sofar: int, d: Map<Seq<char>, u32>, m: Map<Key, usize>)
    requires reading(v, Some(s), sofar, d, m), t.name == s.name, t.offset == s.offset, t.duplicate_index == s.duplicate_index,
    ensures reading(v, Some(t), sofar, d, m),
{
    let a = v.push(s); let b = v.push(t); let n = v.len() as int;
    assert forall|i: int| 0 <= i < b.len() implies (#[trigger] b[i]).offset == total(b, i) by { total_pfx(a, b, i); assert(a[i].offset == total(a, i)); }
    assert forall|i: int| 0 <= i < b.len() implies (#[trigger] b[i]).duplicate_index == named(b, i, b[i].name@) by { named_pfx(a, b, i, b[i].name@); assert(a[i].duplicate_index == named(a, i, a[i].name@)); }
    assert forall|x: Seq<char>| #[trigger] named(a, n + 1, x) == named(b, n + 1, x) by { named_pfx(a, b, n + 1, x); }
    assert forall|i: int| 0 <= i < b.len() implies m.dom().contains(key_of(#[trigger] b[i])) && m[key_of(b[i])] == i by { assert(key_of(a[i]) == key_of(b[i])); }
    assert forall|k: Key| #[trigger] m.dom().contains(k) implies m[k] < b.len() && key_of(b[m[k] as int]) == k by { assert(key_of(a[m[k] as int]) == k); }
}
/// starting the next state
pub proof fn fresh(v: Seq<State>, s: Option<State>, w: Seq<State>, t: State, sofar: int, d: Map<Seq<char>, u32>, d2: Map<Seq<char>, u32>, m: Map<Key, usize>, c: u32)
    requires
        reading(v, s, sofar, d, m), w == all_states(v, s),
        c == (if d.dom().contains(t.name@) { d[t.name@] } else { 0 }),
        t.duplicate_index == c, c < u32::MAX, w.len() < usize::MAX, t.offset == total(w, w.len() as int), d2 == d.insert(t.name@, (c + 1) as u32),
    ensures
        !m.dom().contains(key_of(t)),
        reading(w, Some(t), total(w, w.len() as int), d2, m.insert(key_of(t), w.len() as usize)),
{
    let b = w.push(t); let n = w.len() as int; let m2 = m.insert(key_of(t), n as usize);
    assert(c == named(w, n, t.name@));
    if m.dom().contains(key_of(t)) {
        let i = m[key_of(t)] as int;
        assert(key_of(w[i]) == key_of(t));
        assert(w[i].duplicate_index == named(w, i, w[i].name@));
        named_bound(w, i + 1, n, t.name@);
        assert(false);
    }
    assert forall|i: int| 0 <= i < b.len() implies (#[trigger] b[i]).offset == total(b, i) by { total_pfx(w, b, i); if i < n { assert(w[i].offset == total(w, i)); } }
    assert forall|i: int| 0 <= i < b.len() implies (#[trigger] b[i]).duplicate_index == named(b, i, b[i].name@) by { named_pfx(w, b, i, b[i].name@); if i < n { assert(w[i].duplicate_index == named(w, i, w[i].name@)); } }
    assert forall|x: Seq<char>| #[trigger] named(b, n + 1, x) == named(w, n, x) + (if x == t.name@ { 1int } else { 0 }) by { named_pfx(w, b, n, x); assert(b[n] == t); }
    assert forall|i: int| 0 <= i < b.len() implies m2.dom().contains(key_of(#[trigger] b[i])) && m2[key_of(b[i])] == i by { if i < n { assert(key_of(w[i]) != key_of(t)) by { assert(m.dom().contains(key_of(w[i]))); } } }
    assert forall|k: Key| #[trigger] m2.dom().contains(k) implies m2[k] < b.len() && key_of(b[m2[k] as int]) == k by { if k != key_of(t) { assert(key_of(w[m[k] as int]) == k); } }
}

/// every (slot, frame) of a state is one sprite of its range, and different ones differ
pub proof fn slots_partition(n: int, f: int, s1: int, f1: int, s2: int, f2: int)
    requires 0 <= s1 < n, 0 <= s2 < n, 0 <= f1 < f, 0 <= f2 < f,
    ensures 0 <= s1 + f1 * n < n * f, s1 + f1 * n == s2 + f2 * n ==> s1 == s2 && f1 == f2,
{
    assert(s1 + f1 * n < n * f) by (nonlinear_arith) requires s1 < n, f1 + 1 <= f, 0 <= n;
    assert(0 <= f1 * n) by (nonlinear_arith) requires 0 <= f1, 0 <= n;
    if f1 < f2 { assert(f1 * n + n <= f2 * n) by (nonlinear_arith) requires f1 + 1 <= f2, 0 <= n; }
    if f2 < f1 { assert(f2 * n + n <= f1 * n) by (nonlinear_arith) requires f2 + 1 <= f1, 0 <= n; }
}
/// ranges of different states do not overlap
pub proof fn states_partition(s: Seq<State>, i: int, j: int)
    requires offsets_ok(s), 0 <= i < j < s.len(),
    ensures s[i].offset + sprites(s[i]) <= s[j].offset,
    decreases j,
{
    if i + 1 < j {
        states_partition(s, i, j - 1);
        assert(s[j - 1].offset == total(s, j - 1));
        assert(sprites(s[j - 1]) >= 0) by { assert(dirs_of(s[j - 1].dirs) * frames_of(s[j - 1].frames) >= 0) by (nonlinear_arith) requires dirs_of(s[j - 1].dirs) >= 0, frames_of(s[j - 1].frames) >= 0; }
    }
    assert(s[j].offset == total(s, j));
    assert(s[i].offset == total(s, i));
}
/// cell of sprite number i on a sheet of `cols` columns
pub open spec fn cell(i: int, cols: int, w: int, h: int) -> (int, int, int, int) { ((i % cols) * w, (i / cols) * h, w, h) }
pub open spec fn apart(a: (int, int, int, int), b: (int, int, int, int)) -> bool { a.0 + a.2 <= b.0 || b.0 + b.2 <= a.0 || a.1 + a.3 <= b.1 || b.1 + b.3 <= a.1 }
pub proof fn cells_disjoint(i: int, j: int, cols: int, w: int, h: int)
    requires 0 <= i, 0 <= j, i != j, cols > 0, w > 0, h > 0,
    ensures apart(cell(i, cols, w, h), cell(j, cols, w, h)), 0 <= cell(i, cols, w, h).0, cell(i, cols, w, h).0 + w <= cols * w,
{
    let (a, b, c, d) = (i % cols, i / cols, j % cols, j / cols);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(i, cols);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(j, cols);
    assert(a * w >= 0 && a * w + w <= cols * w) by (nonlinear_arith) requires 0 <= a < cols, w > 0;
    if a < c { assert(a * w + w <= c * w) by (nonlinear_arith) requires a + 1 <= c, w > 0; }
    else if c < a { assert(c * w + w <= a * w) by (nonlinear_arith) requires c + 1 <= a, w > 0; }
    else if b < d { assert(b * h + h <= d * h) by (nonlinear_arith) requires b + 1 <= d, h > 0; }
    else if d < b { assert(d * h + h <= b * h) by (nonlinear_arith) requires d + 1 <= b, h > 0; }
}

@@fn dmi::Dirs::count
@ret r
@spec
    ensures r == dirs_of(self),

@@fn dmi::Frames::count
@ret r
@spec
    ensures r == frames_of(*self),

@@fn dmi::State::is_animated
@ret r
@spec
    ensures (frames_of(self.frames) == 1 && !(self.frames is Delays)) ==> !r, frames_of(self.frames) > 1 ==> r, self.frames is Delays ==> r,

@@fn dmi::State::num_sprites
@ret r
@spec
    requires sprites(*self) <= usize::MAX,
    ensures r == sprites(*self),

@@fn dmi::State::index_of_dir
@ret r
@spec
    requires self.offset + 8 <= u32::MAX,
    ensures r == self.offset + slot(dirs_of(self.dirs), dir),

@@fn dmi::State::index_of_frame
@ret r
@spec
    requires self.offset + 8 + frame * dirs_of(self.dirs) <= u32::MAX,
    ensures r == self.offset + slot(dirs_of(self.dirs), dir) + frame * dirs_of(self.dirs),
@ghost start
    proof { assert(frame * dirs_of(self.dirs) >= 0) by (nonlinear_arith) requires dirs_of(self.dirs) >= 0, frame >= 0; }

@@fn dmi::State::get_state_name_index
@ret r
@spec
    ensures r.key() == key_of(*self),

@@fn dmi::Metadata::get_icon_state
@ret r
@spec
    requires self.wf(),
    ensures
        r matches Some(s) ==> self.states@.contains(*s) && key_of(*s) == icon_state.key(),
        r is None ==> forall|i: int| 0 <= i < self.states@.len() ==> key_of(#[trigger] self.states@[i]) != icon_state.key(),

@@fn dmi::Metadata::rect_of
@ret r
@spec
    requires
        self.wf(), self.width > 0, self.height > 0,
        self.states@.len() > 0 ==> self.width <= bitmap_width,
        forall|i: int| 0 <= i < self.states@.len() ==> (#[trigger] self.states@[i]).offset + 8 + frame * dirs_of(self.states@[i].dirs) <= u32::MAX,
        forall|i: int| 0 <= i < self.states@.len() ==> ((#[trigger] self.states@[i]).offset + 8 + frame * dirs_of(self.states@[i].dirs)) * self.height <= u32::MAX,
    ensures
        self.states@.len() == 0 ==> r == Some((0u32, 0u32, self.width, self.height)),
        self.states@.len() > 0 && r is None ==> forall|i: int| 0 <= i < self.states@.len() ==> key_of(#[trigger] self.states@[i]) != icon_state.key(),
        self.states@.len() > 0 ==> (r matches Some(q) ==> exists|i: int| 0 <= i < self.states@.len() && key_of(#[trigger] self.states@[i]) == icon_state.key()
            && (q.0 as int, q.1 as int, q.2 as int, q.3 as int) == cell(self.states@[i].offset + slot(dirs_of(self.states@[i].dirs), dir) + frame * dirs_of(self.states@[i].dirs),
                bitmap_width as int / self.width as int, self.width as int, self.height as int)),

@ghost before <<<let icon_index = state.index_of_frame(dir, frame)>>>
    let ghost vx_i = choose|i: int| 0 <= i < self.states@.len() && self.states@[i] == *state;
    proof { assert(self.states@.contains(*state)); assert(self.states@[vx_i] == *state); }
@ghost after <<<let (icon_x, icon_y)>>>
    proof {
        let (i, w, h, b) = (icon_index as int, self.width as int, self.height as int, bitmap_width as int);
        let cols = b / w;
        assert(key_of(self.states@[vx_i]) == icon_state.key());
        assert(cols * w <= b && cols >= 1) by { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(b, w); assert(cols * w == w * cols) by (nonlinear_arith); if cols < 1 { assert(w * cols <= 0) by (nonlinear_arith) requires cols <= 0, w > 0; } }
        assert((i % cols) * w <= cols * w) by (nonlinear_arith) requires i % cols <= cols, w > 0, cols >= 1;
        assert((i / cols) * h <= i * h) by (nonlinear_arith) requires 0 <= i / cols <= i, h > 0;
        let top = self.states@[vx_i].offset + 8 + frame * dirs_of(self.states@[vx_i].dirs);
        assert(i * h <= top * h) by (nonlinear_arith) requires i <= top, h > 0;
    }
@ghost after <<<let icon_count = bitmap_width / self.width>>>
    proof {
        let (w, b) = (self.width as int, bitmap_width as int);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(b, w);
        if b / w < 1 { assert(w * (b / w) <= 0) by (nonlinear_arith) requires b / w <= 0, w > 0; }
    }

@@fn dmi::parse_metadata
@ret r
@opt fornext partial
@attr #[verifier::exec_allows_no_decreases_clause]
@rewrite <<<data.lines()>>> => <<<vx_lines(data)>>>
@rewrite <<<data.is_empty()>>> => <<<vx_is_end(data)>>>
@rewrite <<<header != expected_header>>> => <<<vx_differ(&header, &expected_header)>>>
@rewrite <<<line.starts_with("# END DMI")>>> => <<<vx_is_end(line)>>>
@rewrite <<<line.trim().split_once(" = ").unwrap()>>> => <<<vx_split(line)>>>
@rewrite <<<value.parse().unwrap()>>> => <<<vx_parse(value)>>>
@rewrite <<<value.parse::<u8>().unwrap()>>> => <<<vx_parse::<u8>(value)>>>
@rewrite <<<value[1..value.len() - 1].to_owned()>>> => <<<vx_unquote(value)>>>
@rewrite <<<!unquoted.contains('\\') && !unquoted.contains('"')>>> => <<<vx_plain(&unquoted)>>>
@rewrite <<<state.as_mut().unwrap()>>> => <<<vx_some(state.as_mut())>>>
@rewrite <<<value.split(',').map(str::parse).collect::<Result<Vec<_>, _>>().unwrap()>>> => <<<vx_floats(value)>>>
@rewrite <<<vector.iter().all(|&n| n == 1.)>>> => <<<vx_all_one(&vector)>>>
@rewrite <<<duplicate_map.entry(unquoted.clone()).or_insert(0)>>> => <<<vx_entry_or(&mut duplicate_map, unquoted.clone(), 0)>>>
@rewrite <<<if let std::collections::btree_map::Entry::Vacant(e) = metadata.state_names.entry(key) { e.insert(metadata.states.len()); }>>> => <<<vx_insert_new(&mut metadata.state_names, key, metadata.states.len());>>>
@rewrite <<<metadata.states.extend(state)>>> => <<<vx_extend(&mut metadata.states, state)>>>
@spec
    ensures r matches Ok(m) ==> m.wf(),
@loop 0
    invariant reading(metadata.states@, state, frames_so_far as int, duplicate_map@, metadata.state_names@),
@ghost before <<<while let>>>
    proof { assert(metadata.states@ =~= seq![]); }
@ghost loop 0 start
    let ghost (vx_v0, vx_s0, vx_n0, vx_d0, vx_m0) = (metadata.states@, state, frames_so_far as int, duplicate_map@, metadata.state_names@);
@ghost before <<<frames_so_far +=>>>
    proof {
        assert(sprites(state) == frames_of(state.frames) * dirs_of(state.dirs)) by (nonlinear_arith) requires sprites(state) == dirs_of(state.dirs) * frames_of(state.frames);
        // trusted: the sheet has fewer than usize::MAX sprites and states
        assume(vx_n0 + frames_of(state.frames) * dirs_of(state.dirs) < usize::MAX);
        assert(frames_of(state.frames) * dirs_of(state.dirs) >= 0) by (nonlinear_arith) requires frames_of(state.frames) >= 0, dirs_of(state.dirs) >= 0;
    }
@ghost before <<<*count += 1>>>
    proof { assume(*count < u32::MAX && metadata.states@.len() < usize::MAX); }
@ghost loop 0 end
    proof {
        if vx_s0 is Some && state is Some && metadata.states@ == vx_v0 && metadata.state_names@ == vx_m0 && duplicate_map@ == vx_d0 {
            tweak(vx_v0, vx_s0.unwrap(), state.unwrap(), vx_n0, vx_d0, vx_m0);
        }
    }
@ghost after <<<*count += 1>>>
    proof {
        total_pfx(vx_v0, metadata.states@, vx_v0.len() as int);
        total_pfx(all_states(vx_v0, vx_s0), metadata.states@, metadata.states@.len() as int);
        assert(metadata.states@ =~= all_states(vx_v0, vx_s0));
        fresh(vx_v0, vx_s0, metadata.states@, state.unwrap(), vx_n0, vx_d0, duplicate_map@, vx_m0, state.unwrap().duplicate_index);
    }

@@fn tdmi::IconFile::rect_of_index
@ret r
@spec
    requires
        0 < self.metadata.width <= self.image.width, (icon_index + 1) * self.metadata.height <= u32::MAX,
    ensures
        (r.0 as int, r.1 as int, r.2 as int, r.3 as int) == cell(icon_index as int, self.image.width as int / self.metadata.width as int, self.metadata.width as int, self.metadata.height as int),
@ghost after <<<let icon_count = self.image.width / self.metadata.width>>>
    proof {
        let (i, w, h, b) = (icon_index as int, self.metadata.width as int, self.metadata.height as int, self.image.width as int);
        let cols = b / w;
        assert(cols * w <= b && cols >= 1) by { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(b, w); assert(cols * w == w * cols) by (nonlinear_arith); if cols < 1 { assert(w * cols <= 0) by (nonlinear_arith) requires cols <= 0, w > 0; } }
        assert((i % cols) * w <= cols * w) by (nonlinear_arith) requires i % cols <= cols, w > 0, cols >= 1;
        assert((i / cols) * h <= i * h) by (nonlinear_arith) requires 0 <= i / cols <= i, h >= 0;
        assert(i * h <= (i + 1) * h) by (nonlinear_arith) requires h >= 0;
    }

@@fn tdmi::IconFile::rect_of
@ret r
@spec
    requires
        self.metadata.wf(), self.metadata.width > 0, self.metadata.height > 0,
        self.metadata.states@.len() > 0 ==> self.metadata.width <= self.image.width,
        forall|i: int| 0 <= i < self.metadata.states@.len() ==> ((#[trigger] self.metadata.states@[i]).offset + 8) * self.metadata.height <= u32::MAX,
    ensures
        self.metadata.states@.len() > 0 ==> (r matches Some(q) ==> exists|i: int| 0 <= i < self.metadata.states@.len() && key_of(#[trigger] self.metadata.states@[i]) == icon_state.key()
            && (q.0 as int, q.1 as int, q.2 as int, q.3 as int) == cell(self.metadata.states@[i].offset + slot(dirs_of(self.metadata.states@[i].dirs), dir),
                self.image.width as int / self.metadata.width as int, self.metadata.width as int, self.metadata.height as int)),
@ghost start
    proof {
        assert forall|i: int| 0 <= i < self.metadata.states@.len() implies (#[trigger] self.metadata.states@[i]).offset + 8 <= u32::MAX by {
            let (o, h) = (self.metadata.states@[i].offset as int, self.metadata.height as int);
            assert((o + 8) * h >= o + 8) by (nonlinear_arith) requires h >= 1, o >= 0;
        }
    }

@@fn render::IconRenderer::ordered_dirs
@ret r
@spec
    ensures
        r@.len() == dirs_of(dirs),
        forall|i: int| 0 <= i < r@.len() ==> slot(dirs_of(dirs), #[trigger] r@[i]) == i,
