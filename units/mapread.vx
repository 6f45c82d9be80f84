@@header
use vstd::prelude::*;
use vstd::arithmetic::div_mod::*;

@@source dmm crates/dmm-tools/src/dmm.rs
@@source read crates/dmm-tools/src/dmm/read.rs

@@include prelude.inc

@@verbatim
global size_of usize == 8;

@@type dmm::Key derive Clone, Copy
@@type dmm::Map

@@verbatim
pub type KeyType = u16;
pub const MAX_KEY_LENGTH: u8 = 3;
pub open spec fn powi(b: int, e: nat) -> int decreases e { if e == 0 { 1 } else { b * powi(b, (e - 1) as nat) } }
pub assume_specification[ u8::is_ascii_lowercase ](b: &u8) -> (r: bool) ensures r == (97 <= *b <= 122);
pub assume_specification[ u8::is_ascii_uppercase ](b: &u8) -> (r: bool) ensures r == (65 <= *b <= 90);
pub assume_specification[ u8::is_ascii_whitespace ](b: &u8) -> (r: bool) ensures r == (*b == 32 || *b == 9 || *b == 10 || *b == 12 || *b == 13);
/// char::to_digit(10)
#[verifier::external_body]
pub fn vx_digit(c: u8) -> (r: Option<u32>)
    ensures match r { Some(d) => 48 <= c <= 57 && d == c - 48, None => !(48 <= c <= 57) },
{ unimplemented!() }

// ---- trusted stand-ins
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Location { _x: u8 }
impl Location {
    #[verifier::external_body]
    pub fn default() -> (r: Location) { unimplemented!() }
}
#[verifier::external_body]
pub struct DMError { _x: u8 }
impl DMError {
    #[verifier::external_body]
    pub fn new<S>(l: Location, s: S) -> (r: DMError) { unimplemented!() }
    #[verifier::external_body]
    pub fn with_note<S>(self, l: Location, s: S) -> (r: DMError) { unimplemented!() }
}
#[verifier::external_body]
pub struct Path { _x: u8 }
/// LocationTracker: the bytes still to come (proved in unit lexer / diag)
#[verifier::external_body]
pub struct Chars { _x: u8 }
impl Chars {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<u8>)
        ensures match r {
            Some(b) => old(self)@.len() > 0 && b == old(self)@[0] && final(self)@ == old(self)@.skip(1),
            None => old(self)@.len() == 0 && final(self)@ == old(self)@,
        },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn location(&self) -> (r: Location) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_open(p: &Path) -> (r: Result<Chars, DMError>)
    ensures r matches Ok(c) ==> c@.len() <= isize::MAX,
{ unimplemented!() }
#[verifier::external_body]
pub struct Constant { _x: u8 }
#[verifier::external_body]
pub fn evaluate_str(l: Location, s: &Vec<u8>) -> (r: Result<Constant, DMError>) { unimplemented!() }
#[verifier::external_body]
pub fn from_utf8_or_latin1(s: Vec<u8>) -> (r: String) { unimplemented!() }
/// String::is_empty
#[verifier::external_body]
pub fn vx_no_text(s: &String) -> (r: bool) { unimplemented!() }
#[verifier::external_body]
pub struct VarMap { _x: u8 }
impl VarMap {
    #[verifier::external_body]
    pub fn insert(&mut self, k: String, v: Constant) -> (r: Option<Constant>) { unimplemented!() }
}
pub struct Prefab { pub path: String, pub vars: VarMap }
impl Prefab {
    #[verifier::external_body]
    pub fn default() -> (r: Prefab) { unimplemented!() }
}
/// std::mem::take
pub trait Take: Sized { spec fn cleared(&self) -> bool; }
impl Take for u16 { open spec fn cleared(&self) -> bool { *self == 0 } }
impl Take for usize { open spec fn cleared(&self) -> bool { *self == 0 } }
impl Take for Vec<u8> { open spec fn cleared(&self) -> bool { self@.len() == 0 } }
impl Take for Vec<Prefab> { open spec fn cleared(&self) -> bool { self@.len() == 0 } }
impl Take for Prefab { open spec fn cleared(&self) -> bool { true } }
#[verifier::external_body]
pub fn take<T: Take>(x: &mut T) -> (r: T) ensures r == *old(x), final(x).cleared() { unimplemented!() }
pub fn max(a: usize, b: usize) -> (r: usize) ensures r == (if a > b { a } else { b }) { if a > b { a } else { b } }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct BTreeMap<K, V> { _x: Vec<(K, V)> }
pub type Tile = (usize, usize, usize);
impl<K, V> BTreeMap<K, V> {
    pub uninterp spec fn view(&self) -> vstd::map::Map<K, V>;
    #[verifier::external_body]
    pub fn new() -> (r: BTreeMap<K, V>) ensures r@ == vstd::map::Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k, v), r is Some <==> old(self)@.contains_key(k),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.contains_key(*k) { unimplemented!() }
}
/// indexing with a key
impl<K, V> core::ops::Index<&K> for BTreeMap<K, V> {
    type Output = V;
    #[verifier::external_body]
    fn index(&self, k: &K) -> (r: &V)
        ensures *r == self@[*k],
    { unimplemented!() }
}
impl<K, V> vstd::std_specs::core::IndexSpecImpl<&K> for BTreeMap<K, V> {
    open spec fn index_req(&self, k: &&K) -> bool { self@.contains_key(**k) }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Array3<T> { _x: Vec<T> }
impl<T> Array3<T> {
    /// (levels, rows, columns)
    pub uninterp spec fn dim(&self) -> (usize, usize, usize);
    pub uninterp spec fn at(&self, c: (usize, usize, usize)) -> T;
}
/// Array3::from_shape_fn as a loop over the cells
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VxFill<T> { _x: Vec<T> }
impl<T> VxFill<T> {
    pub uninterp spec fn dim(&self) -> Tile;
    pub uninterp spec fn filled(&self) -> vstd::map::Map<Tile, T>;
    pub uninterp spec fn at(&self) -> Tile;
    pub uninterp spec fn left(&self) -> nat;
    #[verifier::external_body]
    pub fn vx_next(&mut self) -> (r: Option<Tile>)
        ensures
            final(self).dim() == old(self).dim(), final(self).filled() == old(self).filled(),
            match r {
                Some(c) => final(self).left() < old(self).left() && c == final(self).at() && inside(c, old(self).dim()) && !old(self).filled().contains_key(c),
                None => forall|c: Tile| inside(c, old(self).dim()) ==> old(self).filled().contains_key(c),
            },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_put(&mut self, v: T)
        requires !old(self).filled().contains_key(old(self).at()),
        ensures final(self).dim() == old(self).dim(), final(self).left() == old(self).left(), final(self).filled() == old(self).filled().insert(old(self).at(), v),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_done(self) -> (r: Array3<T>)
        ensures r.dim() == self.dim(), forall|c: Tile| inside(c, r.dim()) ==> #[trigger] r.at(c) == self.filled()[c],
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_fill<T>(d: Tile) -> (r: VxFill<T>) ensures r.dim() == d, r.filled() == vstd::map::Map::<Tile, T>::empty() { unimplemented!() }
pub open spec fn inside(c: Tile, d: Tile) -> bool { c.0 < d.0 && c.1 < d.1 && c.2 < d.2 }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum Coord { X, Y, Z }
/// a key that is shown in a message must be one that can be formatted
pub fn vx_format_key(n: u8, k: Key) -> (r: u8)
    requires 1 <= n <= 3, k.0 < powi(52, n as nat),
{ n }

// ---- the numeral system
pub open spec fn digit(c: int) -> int { if 97 <= c <= 122 { c - 97 } else if 65 <= c <= 90 { c - 65 + 26 } else { -1 } }
pub open spec fn letter(d: int) -> int { if d < 26 { 97 + d } else { 65 + (d - 26) } }
/// value of a digit string, most significant first; None: not a number or too large
pub open spec fn value(s: Seq<u8>) -> Option<int> decreases s.len() {
    if s.len() == 0 { Some(0int) } else {
        let d = digit(s.last() as int);
        match value(s.drop_last()) { None => None, Some(v) => if d < 0 || v * 52 + d > maxkey() { None } else { Some(v * 52 + d) } }
    }
}
pub open spec fn maxkey() -> int { 65534 }
/// the n-letter numeral of k
pub open spec fn numeral(k: int, n: nat) -> Seq<char> decreases n { if n == 0 { seq![] } else { numeral(k / 52, (n - 1) as nat).push(letter(k % 52) as char) } }

pub proof fn pows()
    ensures powi(52, 0) == 1, powi(52, 1) == 52, powi(52, 2) == 2704, powi(52, 3) == 140608,
{ reveal_with_fuel(powi, 4); }
/// reading back a numeral of n letters gives the number
pub open spec fn to_bytes(s: Seq<char>) -> Seq<u8> { Seq::new(s.len(), |i: int| s[i] as u8) }
pub proof fn numeral_value(k: int, n: nat)
    requires 0 <= k <= maxkey(), k < powi(52, n),
    ensures numeral(k, n).len() == n, value(to_bytes(numeral(k, n))) == Some(k),
    decreases n,
{
    let s = numeral(k, n);
    if n == 0 { } else {
        let q = k / 52;
        assert(powi(52, n) == 52 * powi(52, (n - 1) as nat));
        assert(q < powi(52, (n - 1) as nat)) by (nonlinear_arith) requires q == k / 52, k < 52 * powi(52, (n - 1) as nat), k >= 0;
        numeral_value(q, (n - 1) as nat);
        assert(to_bytes(s).drop_last() =~= to_bytes(numeral(q, (n - 1) as nat)));
        let d = letter(k % 52);
        assert(0 <= k % 52 < 52);
        assert((d as char) as u8 == d);
        assert(digit(d) == k % 52);
        assert(to_bytes(s).last() == d as u8);
    }
}

@@fn dmm::base_52_reverse
@ret r
@spec
    ensures
        r matches Ok(d) ==> d == digit(ch as int) && 0 <= d < 52,
        r is Err ==> digit(ch as int) < 0,

@@fn dmm::advance_key
@name dmm_advance_key
@ret r
@opt optclosures
@spec
    requires next_digit < 52,
    ensures
        r matches Ok(k) ==> k == current * 52 + next_digit && k <= maxkey(),
        r is Err ==> current * 52 + next_digit > maxkey(),

@@fn read::advance_key
@ret r
@rewrite <<<super::base_52_reverse>>> => <<<base_52_reverse>>>
@rewrite <<<super::advance_key>>> => <<<dmm_advance_key>>>
@spec
    ensures
        r matches Ok(k) ==> digit(ch as int) >= 0 && k == curr_key * 52 + digit(ch as int) && k <= maxkey(),
        r is Err ==> digit(ch as int) < 0 || curr_key * 52 + digit(ch as int) > maxkey(),


@@verbatim
/// k can be written with n letters
pub open spec fn fits(k: u16, n: u8) -> bool { k <= maxkey() && k < powi(52, n as nat) }

@@verbatim
// ---------------------------------------------------------------- what the grid part of a map file says
/// one `(x,y,z) = {"..."}`: coordinates in decimal, rows of keys from the top, the text around the string
pub struct Chunk {
    pub x: Seq<u8>, pub y: Seq<u8>, pub z: Seq<u8>,
    pub rows: Seq<Seq<int>>,
    pub lead: bool, pub trail: bool,
    pub sep: Seq<u8>, pub post: Seq<u8>,
}
pub open spec fn decimal(s: Seq<u8>) -> int decreases s.len() { if s.len() == 0 { 0 } else { decimal(s.drop_last()) * 10 + (s.last() - 48) } }
pub open spec fn coordinate(s: Seq<u8>) -> bool { (forall|i: int| 0 <= i < s.len() ==> 48 <= #[trigger] s[i] <= 57) && 1 <= decimal(s) <= 0x7fff_ffff }
pub open spec fn quiet(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != 34 && s[i] != 40 }
impl Chunk {
    pub open spec fn wf(self, n: nat) -> bool {
        &&& coordinate(self.x) && coordinate(self.y) && coordinate(self.z) && quiet(self.sep) && quiet(self.post)
        // the line break after the opening quote may be left out before a single row
        &&& self.lead || self.rows.len() == 1
        &&& self.rows.len() >= 1 && forall|r: int| 0 <= r < self.rows.len() ==> #[trigger] self.rows[r].len() >= 1
        &&& forall|r: int, c: int| 0 <= r < self.rows.len() && 0 <= c < self.rows[r].len() ==> 0 <= #[trigger] self.rows[r][c] <= maxkey() && self.rows[r][c] < powi(52, n)
    }
    /// the tile of column c of row r, rows counted from the top
    pub open spec fn tile(self, r: int, c: int) -> (int, int, int) { (decimal(self.x) + c, decimal(self.y) + r, decimal(self.z)) }
    pub open spec fn has(self, r: int, c: int) -> bool { 0 <= r < self.rows.len() && 0 <= c < self.rows[r].len() }
}
/// a place in the text
pub enum Pos { X(int), Y(int), Z(int), Sep(int), Open, Key(int, int, int), End, Post(int) }
pub open spec fn stage(p: Pos) -> int { match p { Pos::X(_) => 8, Pos::Y(_) => 7, Pos::Z(_) => 6, Pos::Sep(_) => 5, Pos::Open => 4, Pos::Key(..) => 3, Pos::End => 2, Pos::Post(_) => 1 } }
pub open spec fn nat0(i: int) -> nat { if i > 0 { i as nat } else { 0 } }
/// the text from there on; n: letters of a key
pub open spec fn text(cs: Seq<Chunk>, n: nat, k: int, p: Pos) -> Seq<u8>
    decreases nat0(cs.len() - k), stage(p),
        (match p { Pos::X(i) => nat0(cs[k].x.len() - i), Pos::Y(i) => nat0(cs[k].y.len() - i), Pos::Z(i) => nat0(cs[k].z.len() - i), Pos::Sep(i) => nat0(cs[k].sep.len() - i), Pos::Post(i) => nat0(cs[k].post.len() - i), Pos::Key(r, _, _) => nat0(cs[k].rows.len() - r), _ => 0 }),
        (match p { Pos::Key(r, c, _) => nat0(cs[k].rows[r].len() - c), _ => 0 }),
        (match p { Pos::Key(_, _, j) => nat0(n - j), _ => 0 }),
{
    if !(0 <= k < cs.len()) { seq![] } else {
        let b = cs[k];
        match p {
            Pos::X(i) => if 0 <= i < b.x.len() { seq![b.x[i]] + text(cs, n, k, Pos::X(i + 1)) } else { seq![44u8] + text(cs, n, k, Pos::Y(0)) },
            Pos::Y(i) => if 0 <= i < b.y.len() { seq![b.y[i]] + text(cs, n, k, Pos::Y(i + 1)) } else { seq![44u8] + text(cs, n, k, Pos::Z(0)) },
            Pos::Z(i) => if 0 <= i < b.z.len() { seq![b.z[i]] + text(cs, n, k, Pos::Z(i + 1)) } else { seq![41u8] + text(cs, n, k, Pos::Sep(0)) },
            Pos::Sep(i) => if 0 <= i < b.sep.len() { seq![b.sep[i]] + text(cs, n, k, Pos::Sep(i + 1)) } else { seq![34u8] + text(cs, n, k, Pos::Open) },
            Pos::Open => if b.lead { seq![10u8] + text(cs, n, k, Pos::Key(0, 0, 0)) } else { text(cs, n, k, Pos::Key(0, 0, 0)) },
            Pos::Key(r, c, j) =>
                if b.has(r, c) && 0 <= j < n { seq![numeral(b.rows[r][c], n)[j] as u8] + text(cs, n, k, if j + 1 < n { Pos::Key(r, c, j + 1) } else { Pos::Key(r, c + 1, 0) }) }
                else if 0 <= r < b.rows.len() - 1 { seq![10u8] + text(cs, n, k, Pos::Key(r + 1, 0, 0)) }
                else if b.trail { seq![10u8] + text(cs, n, k, Pos::End) }
                else { text(cs, n, k, Pos::End) },
            Pos::End => seq![34u8] + text(cs, n, k, Pos::Post(0)),
            Pos::Post(i) => if 0 <= i < b.post.len() { seq![b.post[i]] + text(cs, n, k, Pos::Post(i + 1)) } else if k + 1 < cs.len() { seq![40u8] + text(cs, n, k + 1, Pos::X(0)) } else { seq![] },
        }
    }
}
/// tile (r2, c2) of chunk k2 is written before place p of chunk k
pub open spec fn before(k2: int, r2: int, c2: int, k: int, p: Pos) -> bool {
    k2 < k || k2 == k && match p { Pos::Key(r, c, _) => r2 < r || r2 == r && c2 < c, Pos::End | Pos::Post(_) => true, _ => false }
}
pub open spec fn is_tile(cs: Seq<Chunk>, k: int, r: int, c: int) -> bool { 0 <= k < cs.len() && cs[k].has(r, c) }
pub open spec fn spot(t: Tile) -> (int, int, int) { (t.0 as int, t.1 as int, t.2 as int) }
pub open spec fn mark(k: int, r: int, c: int) -> bool { true }
/// the grid holds exactly the tiles written before (k, p), all different
#[verifier::opaque]
pub open spec fn sofar(cs: Seq<Chunk>, g: vstd::map::Map<Tile, Key>, k: int, p: Pos) -> bool {
    &&& forall|k2: int, r2: int, c2: int| #[trigger] mark(k2, r2, c2) && is_tile(cs, k2, r2, c2) && before(k2, r2, c2, k, p) ==> exists|t: Tile| #[trigger] g.contains_key(t) && spot(t) == cs[k2].tile(r2, c2) && g[t].0 == cs[k2].rows[r2][c2]
    &&& forall|t: Tile| #[trigger] g.contains_key(t) ==> exists|k2: int, r2: int, c2: int| #[trigger] mark(k2, r2, c2) && is_tile(cs, k2, r2, c2) && before(k2, r2, c2, k, p) && spot(t) == cs[k2].tile(r2, c2)
}
pub open spec fn all_wf(cs: Seq<Chunk>, n: nat) -> bool { forall|k: int| 0 <= k < cs.len() ==> #[trigger] cs[k].wf(n) }
/// two tiles of the text are in the same place
#[verifier::opaque]
pub open spec fn doubled(cs: Seq<Chunk>) -> bool {
    exists|k: int, r: int, c: int, k2: int, r2: int, c2: int| #[trigger] mark(k, r, c) && #[trigger] mark(k2, r2, c2) && is_tile(cs, k, r, c) && is_tile(cs, k2, r2, c2) && (k, r, c) != (k2, r2, c2) && cs[k].tile(r, c) == cs[k2].tile(r2, c2)
}
/// some tile is at least that far right, down and up
#[verifier::opaque]
pub open spec fn wide(cs: Seq<Chunk>, x: int) -> bool { exists|k: int, r: int, c: int| #[trigger] mark(k, r, c) && is_tile(cs, k, r, c) && cs[k].tile(r, c).0 >= x }
#[verifier::opaque]
pub open spec fn tall(cs: Seq<Chunk>, y: int) -> bool { exists|k: int, r: int, c: int| #[trigger] mark(k, r, c) && is_tile(cs, k, r, c) && cs[k].tile(r, c).1 >= y }
#[verifier::opaque]
pub open spec fn deep(cs: Seq<Chunk>, z: int) -> bool { exists|k: int, r: int, c: int| #[trigger] mark(k, r, c) && is_tile(cs, k, r, c) && cs[k].tile(r, c).2 >= z }
/// some place in the box has no tile
#[verifier::opaque]
pub open spec fn gap(cs: Seq<Chunk>) -> bool {
    exists|x: int, y: int, z: int| 1 <= x && 1 <= y && 1 <= z && wide(cs, x) && tall(cs, y) && deep(cs, z) && #[trigger] nothing(cs, x, y, z)
}
#[verifier::opaque]
pub open spec fn nothing(cs: Seq<Chunk>, x: int, y: int, z: int) -> bool {
    forall|k: int, r: int, c: int| #[trigger] mark(k, r, c) && is_tile(cs, k, r, c) ==> cs[k].tile(r, c) != (x, y, z)
}
#[verifier::opaque]
pub open spec fn apart(cs: Seq<Chunk>, k: int, p: Pos) -> bool {
    forall|k1: int, r1: int, c1: int, k2: int, r2: int, c2: int| #[trigger] mark(k1, r1, c1) && #[trigger] mark(k2, r2, c2) && is_tile(cs, k1, r1, c1) && is_tile(cs, k2, r2, c2)
        && before(k1, r1, c1, k, p) && before(k2, r2, c2, k, p) && cs[k1].tile(r1, c1) == cs[k2].tile(r2, c2) ==> k1 == k2 && r1 == r2 && c1 == c2
}
/// the reader's variables at a place of the text
pub open spec fn reading(cs: Seq<Chunk>, n: nat, k: int, p: Pos, coord: bool, text: bool, adjust: bool, which: Coord, num: int, x: int, y: int, z: int, base: int, len: int, key: int) -> bool {
    let b = cs[k];
    &&& 0 <= k < cs.len()
    &&& coord == (p is X || p is Y || p is Z)
    &&& text == (p is Open || p is Key || p is End)
    &&& !(p is Key) ==> len == 0 && key == 0
    &&& !(p is Key || p is End) ==> adjust
    &&& !coord ==> num == 0
    &&& which == match p { Pos::Y(_) => Coord::Y, Pos::Z(_) => Coord::Z, _ => Coord::X }
    &&& !(p is X || p is Post || p is End) ==> base == decimal(b.x)
    &&& (p is Y || p is Z || p is Sep || p is Open) ==> x == base
    &&& (p is Z || p is Sep || p is Open) ==> y == decimal(b.y)
    &&& (p is Sep || p is Open || p is Key) ==> z == decimal(b.z)
    &&& match p {
        Pos::X(i) => 0 <= i <= b.x.len() && num == decimal(b.x.take(i)),
        Pos::Y(i) => 0 <= i <= b.y.len() && num == decimal(b.y.take(i)),
        Pos::Z(i) => 0 <= i <= b.z.len() && num == decimal(b.z.take(i)),
        Pos::Sep(i) => 0 <= i <= b.sep.len(),
        Pos::Post(i) => 0 <= i <= b.post.len(),
        Pos::Key(r, c, j) => 0 <= r < b.rows.len() && 0 <= c <= b.rows[r].len() && 0 <= j < n && (c == b.rows[r].len() ==> j == 0) && x == decimal(b.x) + c && y == decimal(b.y) + r
            && len == j && key == (if j == 0 { 0 } else { b.rows[r][c] / powi(52, (n - j) as nat) }) && adjust == !b.lead,
        _ => true,
    }
}
/// letter number j of a numeral
pub proof fn numeral_letter(k: int, n: nat, j: int)
    requires 0 <= j < n, 0 <= k,
    ensures numeral(k, n).len() == n, numeral(k, n)[j] == letter((k / powi(52, (n - 1 - j) as nat)) % 52) as char,
    decreases n,
{
    reveal_with_fuel(numeral, 2);
    let s = numeral(k, n);
    if n > 1 { numeral_len(k / 52, (n - 1) as nat); }
    if j < n - 1 {
        numeral_letter(k / 52, (n - 1) as nat, j);
        let c = powi(52, (n - 2 - j) as nat);
        assert(powi(52, (n - 1 - j) as nat) == 52 * c);
        powi_pos((n - 2 - j) as nat);
        lemma_div_denominator(k, 52, c);
    } else { assert(powi(52, 0) == 1); }
}
pub proof fn numeral_len(k: int, n: nat) ensures numeral(k, n).len() == n decreases n { if n > 0 { numeral_len(k / 52, (n - 1) as nat); } }
pub proof fn powi_pos(e: nat) ensures powi(52, e) > 0 decreases e { if e > 0 { powi_pos((e - 1) as nat); } }
pub proof fn letter_digit(d: int)
    requires 0 <= d < 52,
    ensures digit((letter(d) as char) as u8 as int) == d, letter(d) == (letter(d) as char) as u8, letter(d) != 34, letter(d) != 13, letter(d) != 10,
{}
/// adding a digit to the part of a number read so far
pub proof fn next_digit(k: int, n: nat, j: int)
    requires 0 <= j < n, 0 <= k < powi(52, n), n <= 3,
    ensures
        (if j == 0 { 0 } else { k / powi(52, (n - j) as nat) }) * 52 + (k / powi(52, (n - 1 - j) as nat)) % 52 == k / powi(52, (n - 1 - j) as nat),
        k / powi(52, 0) == k, k / powi(52, (n - 1 - j) as nat) <= k,
{
    pows();
    let c = powi(52, (n - 1 - j) as nat);
    powi_pos((n - 1 - j) as nat);
    let q = k / c;
    assert(powi(52, (n - j) as nat) == 52 * c);
    lemma_div_denominator(k, c, 52);
    assert(c * 52 == 52 * c);
    assert(q / 52 == k / (52 * c));
    if j == 0 { assert(q < 52) by (nonlinear_arith) requires q == k / c, k < 52 * c, c > 0, k >= 0; assert(q >= 0) by (nonlinear_arith) requires q == k / c, c > 0, k >= 0; }
    assert(q <= k) by (nonlinear_arith) requires q == k / c, c >= 1, k >= 0;
}
pub proof fn decimal_take(s: Seq<u8>, i: int)
    requires 0 <= i < s.len(), coordinate(s),
    ensures decimal(s.take(i + 1)) == decimal(s.take(i)) * 10 + (s[i] - 48), 0 <= decimal(s.take(i)), decimal(s.take(i + 1)) <= 0x7fff_ffff, s.take(s.len() as int) == s, decimal(s.take(0)) == 0,
{
    assert(s.take(i + 1).drop_last() =~= s.take(i));
    assert(s.take(s.len() as int) =~= s);
    decimal_bound(s, i); decimal_bound(s, i + 1);
}
/// the digits up to i give no more than all of them
pub proof fn decimal_bound(s: Seq<u8>, i: int)
    requires 0 <= i <= s.len(), forall|i: int| 0 <= i < s.len() ==> 48 <= #[trigger] s[i] <= 57,
    ensures 0 <= decimal(s.take(i)) <= decimal(s),
    decreases s.len(),
{
    if i == s.len() {
        assert(s.take(i) =~= s);
        if i > 0 { decimal_bound(s.drop_last(), i - 1); assert(s.drop_last().take(i - 1) =~= s.drop_last()); }
    } else {
        decimal_bound(s.drop_last(), i);
        assert(s.drop_last().take(i) =~= s.take(i));
    }
}

@@verbatim
pub open spec fn same_before(cs: Seq<Chunk>, k: int, p: Pos, k2: int, p2: Pos) -> bool {
    forall|a: int, r: int, c: int| #[trigger] mark(a, r, c) && is_tile(cs, a, r, c) ==> before(a, r, c, k, p) == before(a, r, c, k2, p2)
}
pub proof fn no_tile(cs: Seq<Chunk>, g: vstd::map::Map<Tile, Key>, k: int, p: Pos, k2: int, p2: Pos)
    requires sofar(cs, g, k, p), apart(cs, k, p), same_before(cs, k, p, k2, p2),
    ensures sofar(cs, g, k2, p2), apart(cs, k2, p2),
{ reveal(sofar); reveal(apart); }
pub proof fn first_place(cs: Seq<Chunk>)
    ensures sofar(cs, vstd::map::Map::empty(), 0, Pos::X(0)), apart(cs, 0, Pos::X(0)),
{ reveal(sofar); reveal(apart); }
/// the step that reads the last letter of the key of tile (r, c)
pub proof fn put(cs: Seq<Chunk>, g: vstd::map::Map<Tile, Key>, k: int, r: int, c: int, j: int, t: Tile, v: Key)
    requires sofar(cs, g, k, Pos::Key(r, c, j)), apart(cs, k, Pos::Key(r, c, j)), is_tile(cs, k, r, c), spot(t) == cs[k].tile(r, c), v.0 == cs[k].rows[r][c], !g.contains_key(t),
    ensures sofar(cs, g.insert(t, v), k, Pos::Key(r, c + 1, 0)), apart(cs, k, Pos::Key(r, c + 1, 0)),
{
    reveal(sofar); reveal(apart);
    let (p, q) = (Pos::Key(r, c, j), Pos::Key(r, c + 1, 0));
    let h = g.insert(t, v);
    assert forall|k2: int, r2: int, c2: int| #[trigger] mark(k2, r2, c2) && is_tile(cs, k2, r2, c2) && before(k2, r2, c2, k, q) implies
        (k2 == k && r2 == r && c2 == c) || before(k2, r2, c2, k, p) by {}
    assert forall|k2: int, r2: int, c2: int| #[trigger] mark(k2, r2, c2) && is_tile(cs, k2, r2, c2) && before(k2, r2, c2, k, q) implies
        exists|t: Tile| #[trigger] h.contains_key(t) && spot(t) == cs[k2].tile(r2, c2) && h[t].0 == cs[k2].rows[r2][c2] by {
        if k2 == k && r2 == r && c2 == c { assert(h.contains_key(t)); }
        else {
            let t2 = choose|t2: Tile| #[trigger] g.contains_key(t2) && spot(t2) == cs[k2].tile(r2, c2) && g[t2].0 == cs[k2].rows[r2][c2];
            assert(h.contains_key(t2) && h[t2] == g[t2]);
        }
    }
    assert forall|t2: Tile| #[trigger] h.contains_key(t2) implies exists|k2: int, r2: int, c2: int| #[trigger] mark(k2, r2, c2) && is_tile(cs, k2, r2, c2) && before(k2, r2, c2, k, q) && spot(t2) == cs[k2].tile(r2, c2) by {
        if t2 == t { assert(mark(k, r, c)); } else { assert(g.contains_key(t2)); let (a, b, d) = choose|k2: int, r2: int, c2: int| #[trigger] mark(k2, r2, c2) && is_tile(cs, k2, r2, c2) && before(k2, r2, c2, k, p) && spot(t2) == cs[k2].tile(r2, c2); assert(mark(a, b, d)); }
    }
    assert forall|k2: int, r2: int, c2: int| #[trigger] mark(k2, r2, c2) && is_tile(cs, k2, r2, c2) && before(k2, r2, c2, k, p) implies cs[k2].tile(r2, c2) != cs[k].tile(r, c) by {
        let t2 = choose|t2: Tile| #[trigger] g.contains_key(t2) && spot(t2) == cs[k2].tile(r2, c2) && g[t2].0 == cs[k2].rows[r2][c2];
        if spot(t2) == spot(t) { assert(t2 == t); }
    }
}
/// its place is taken
pub proof fn taken(cs: Seq<Chunk>, g: vstd::map::Map<Tile, Key>, k: int, r: int, c: int, j: int, t: Tile)
    requires sofar(cs, g, k, Pos::Key(r, c, j)), is_tile(cs, k, r, c), spot(t) == cs[k].tile(r, c), g.contains_key(t),
    ensures doubled(cs),
{
    reveal(sofar); reveal(doubled);
    let (a, b, d) = choose|k2: int, r2: int, c2: int| #[trigger] mark(k2, r2, c2) && is_tile(cs, k2, r2, c2) && before(k2, r2, c2, k, Pos::Key(r, c, j)) && spot(t) == cs[k2].tile(r2, c2);
    assert(mark(a, b, d) && mark(k, r, c));
}
pub proof fn reach(cs: Seq<Chunk>, k: int, r: int, c: int)
    requires is_tile(cs, k, r, c),
    ensures wide(cs, cs[k].tile(r, c).0), tall(cs, cs[k].tile(r, c).1), deep(cs, cs[k].tile(r, c).2),
{ reveal(wide); reveal(tall); reveal(deep); assert(mark(k, r, c)); }
/// the whole text is read
pub proof fn all_read(cs: Seq<Chunk>, n: nat, k: int, p: Pos)
    requires all_wf(cs, n), 1 <= n, 0 <= k < cs.len(), text(cs, n, k, p).len() == 0,
        match p { Pos::Key(r, c, j) => 0 <= r < cs[k].rows.len() && 0 <= c <= cs[k].rows[r].len(), _ => true },
    ensures p is Post, k == cs.len() - 1,
{
    assert(cs[k].wf(n));
    assert(text(cs, n, k, Pos::End).len() > 0);
    if p is Open && !cs[k].lead { assert(text(cs, n, k, Pos::Key(0, 0, 0)).len() > 0); }
}
/// what is known once the text is read
#[verifier::opaque]
pub open spec fn settled(cs: Seq<Chunk>, g: vstd::map::Map<Tile, Key>, x: int, y: int, z: int) -> bool {
    &&& cs.len() > 0 && is_tile(cs, 0, 0, 0)
    &&& !doubled(cs)
    &&& forall|k: int, r: int, c: int| #[trigger] mark(k, r, c) && is_tile(cs, k, r, c) ==> exists|t: Tile| #[trigger] g.contains_key(t) && spot(t) == cs[k].tile(r, c) && g[t].0 == cs[k].rows[r][c]
    &&& forall|t: Tile| #![trigger g.contains_key(t)] !g.contains_key(t) == nothing(cs, t.0 as int, t.1 as int, t.2 as int)
    &&& (x > 0 ==> wide(cs, x)) && (y > 0 ==> tall(cs, y)) && (z > 0 ==> deep(cs, z))
    &&& forall|t: Tile| #[trigger] g.contains_key(t) ==> 1 <= t.0 <= x && 1 <= t.1 <= y && 1 <= t.2 <= z
}
pub proof fn settle(cs: Seq<Chunk>, n: nat, g: vstd::map::Map<Tile, Key>, k: int, p: Pos, x: int, y: int, z: int)
    requires
        all_wf(cs, n), 1 <= n, 0 <= k < cs.len(), text(cs, n, k, p).len() == 0,
        match p { Pos::Key(r, c, j) => 0 <= r < cs[k].rows.len() && 0 <= c <= cs[k].rows[r].len(), _ => true },
        sofar(cs, g, k, p), apart(cs, k, p),
        (x > 0 ==> wide(cs, x)) && (y > 0 ==> tall(cs, y)) && (z > 0 ==> deep(cs, z)),
        forall|t: Tile| #[trigger] g.contains_key(t) ==> 1 <= t.0 <= x && 1 <= t.1 <= y && 1 <= t.2 <= z,
    ensures settled(cs, g, x, y, z),
{
    reveal(settled);
    all_read(cs, n, k, p);
    outcome(cs, g, k, p);
    assert(cs[0].wf(n));
}
pub proof fn missing(cs: Seq<Chunk>, g: vstd::map::Map<Tile, Key>, x: int, y: int, z: int, t: Tile)
    requires settled(cs, g, x, y, z), 1 <= t.0 <= x, 1 <= t.1 <= y, 1 <= t.2 <= z, !g.contains_key(t),
    ensures gap(cs),
{
    reveal(settled); reveal(wide); reveal(tall); reveal(deep); reveal(gap);
    assert(nothing(cs, t.0 as int, t.1 as int, t.2 as int));
    assert(wide(cs, t.0 as int) && tall(cs, t.1 as int) && deep(cs, t.2 as int));
}
/// the finished grid
pub proof fn finished(cs: Seq<Chunk>, n: nat, g: vstd::map::Map<Tile, Key>, m: Array3<Key>)
    requires
        all_wf(cs, n), settled(cs, g, m.dim().2 as int, m.dim().1 as int, m.dim().0 as int),
        m.dim().0 < usize::MAX, m.dim().1 < usize::MAX, m.dim().2 < usize::MAX,
        forall|c: Tile| 1 <= c.0 <= m.dim().2 && 1 <= c.1 <= m.dim().1 && 1 <= c.2 <= m.dim().0 ==> #[trigger] g.contains_key(c),
        forall|c: Tile| inside(c, m.dim()) ==> #[trigger] m.at(c) == g[((c.2 + 1) as usize, (c.1 + 1) as usize, (c.0 + 1) as usize)],
    ensures
        ({
            let d = m.dim();
            &&& !doubled(cs)
            &&& forall|k: int, r: int, c: int| #[trigger] mark(k, r, c) && is_tile(cs, k, r, c) ==> {
                let t = cs[k].tile(r, c);
                1 <= t.0 <= d.2 && 1 <= t.1 <= d.1 && 1 <= t.2 <= d.0 && m.at(((t.2 - 1) as usize, (t.1 - 1) as usize, (t.0 - 1) as usize)).0 == cs[k].rows[r][c]
            }
            &&& wide(cs, d.2 as int) && tall(cs, d.1 as int) && deep(cs, d.0 as int)
            &&& forall|t: Tile| #[trigger] inside(t, d) ==> !nothing(cs, t.2 + 1, t.1 + 1, t.0 + 1)
        }),
{
    reveal(settled);
    let d = m.dim();
    assert(mark(0, 0, 0) && is_tile(cs, 0, 0, 0));
    assert forall|k: int, r: int, c: int| #[trigger] mark(k, r, c) && is_tile(cs, k, r, c) implies ({
        let t = cs[k].tile(r, c);
        1 <= t.0 <= d.2 && 1 <= t.1 <= d.1 && 1 <= t.2 <= d.0 && m.at(((t.2 - 1) as usize, (t.1 - 1) as usize, (t.0 - 1) as usize)).0 == cs[k].rows[r][c]
    }) by {
        let t = choose|t: Tile| #[trigger] g.contains_key(t) && spot(t) == cs[k].tile(r, c) && g[t].0 == cs[k].rows[r][c];
        let u = ((t.2 - 1) as usize, (t.1 - 1) as usize, (t.0 - 1) as usize);
        assert(inside(u, d));
        assert(m.at(u) == g[t]);
    }
    assert forall|t: Tile| #[trigger] inside(t, d) implies !nothing(cs, t.2 + 1, t.1 + 1, t.0 + 1) by {
        let u = ((t.2 + 1) as usize, (t.1 + 1) as usize, (t.0 + 1) as usize);
        assert(g.contains_key(u));
    }
}
/// places with a tile and the box around them
pub proof fn outcome(cs: Seq<Chunk>, g: vstd::map::Map<Tile, Key>, k: int, p: Pos)
    requires sofar(cs, g, k, p), apart(cs, k, p), p is Post, k == cs.len() - 1,
    ensures
        !doubled(cs),
        forall|k: int, r: int, c: int| #[trigger] mark(k, r, c) && is_tile(cs, k, r, c) ==> exists|t: Tile| #[trigger] g.contains_key(t) && spot(t) == cs[k].tile(r, c) && g[t].0 == cs[k].rows[r][c],
        forall|t: Tile| #![trigger g.contains_key(t)] !g.contains_key(t) == nothing(cs, t.0 as int, t.1 as int, t.2 as int),
{
    reveal(sofar); reveal(apart); reveal(doubled); reveal(nothing);
    assert forall|a: int, r: int, c: int| #[trigger] mark(a, r, c) && is_tile(cs, a, r, c) implies before(a, r, c, k, p) by {}
    assert forall|t: Tile| #![trigger g.contains_key(t)] !g.contains_key(t) == nothing(cs, t.0 as int, t.1 as int, t.2 as int) by {
        if g.contains_key(t) {
            let (a, b, d) = choose|k2: int, r2: int, c2: int| #[trigger] mark(k2, r2, c2) && is_tile(cs, k2, r2, c2) && before(k2, r2, c2, k, p) && spot(t) == cs[k2].tile(r2, c2);
            assert(mark(a, b, d));
        } else {
            assert forall|a: int, r: int, c: int| #[trigger] mark(a, r, c) && is_tile(cs, a, r, c) implies cs[a].tile(r, c) != spot(t) by {
                let t2 = choose|t2: Tile| #[trigger] g.contains_key(t2) && spot(t2) == cs[a].tile(r, c) && g[t2].0 == cs[a].rows[r][c];
                if spot(t2) == spot(t) { assert(t2 == t); }
            }
        }
    }
}

@@fn read::parse_map
@ret r
@opt optclosures itloops forrange shapefn
@rewrite <<<enum Coord { X, Y, Z, }>>> => <<<>>>
@rewrite [optional] <<<let (mut curr_x, mut curr_y, mut curr_z) = (0, 0, 0);>>> => <<<let (mut curr_x, mut curr_y, mut curr_z): (usize, usize, usize) = (0, 0, 0);>>>
@rewrite [optional] <<<let (mut max_x, mut max_y, mut max_z) = (0, 0, 0);>>> => <<<let (mut max_x, mut max_y, mut max_z): (usize, usize, usize) = (0, 0, 0);>>>
@rewrite [optional] <<<let mut curr_num = 0;>>> => <<<let mut curr_num: usize = 0;>>>
@rewrite [optional] <<<let mut base_x = 0;>>> => <<<let mut base_x: usize = 0;>>>
@rewrite [optional] <<<let mut curr_key_length = 0;>>> => <<<let mut curr_key_length: u8 = 0;>>>
@rewrite [optional] <<<let mut curr_key = 0;>>> => <<<let mut curr_key: u16 = 0;>>>
@rewrite [optional] <<<let mut grid = BTreeMap::new();>>> => <<<let mut grid: BTreeMap<Tile, Key> = BTreeMap::new();>>>
@rewrite <<<(ch as char).to_digit(10)>>> => <<<vx_digit(ch)>>>
@rewrite <<<curr_prefab.path.is_empty()>>> => <<<vx_no_text(&curr_prefab.path)>>>
@rewrite <<<let file_id = Default::default();>>> => <<<>>>
@rewrite <<<LocationTracker::new(file_id, dm::lexer::buffer_file(file_id, path)?.into())>>> => <<<vx_open(path)?>>>
@rewrite <<<dm::constants::evaluate_str>>> => <<<evaluate_str>>>
@rewrite <<<super::FormatKey>>> => <<<vx_format_key>>>
@rewrite <<<super::Key>>> => <<<Key>>>
@rewrite <<<super::MAX_KEY_LENGTH>>> => <<<MAX_KEY_LENGTH>>>
@sig <<<fn parse_map(map: &mut Map, path: &Path, Ghost(cs): Ghost<Seq<Chunk>>, vx_g: &mut Ghost<Seq<u8>>) -> Result<(), DMError>>>>
@spec
    requires old(vx_g)@.len() == 0, old(map).key_length == 0, forall|k: Key| !#[trigger] old(map).dictionary@.contains_key(k),
    ensures
        r is Ok ==> {
            &&& final(map).key_length <= 3
            &&& forall|k: Key| #[trigger] final(map).dictionary@.contains_key(k) ==> fits(k.0, final(map).key_length)
            &&& forall|c: Tile| inside(c, final(map).grid.dim()) ==> fits((#[trigger] final(map).grid.at(c)).0, final(map).key_length)
        },
        // the text after the first opening parenthesis of the grid is that of the chunks:
        ({
            let n = final(map).key_length as nat;
            cs.len() > 0 && all_wf(cs, n) && final(vx_g)@ == text(cs, n, 0, Pos::X(0))
        }) ==> match r {
            // the grid is the box around the tiles, and each place has the one tile that is written for it
            Ok(_) => {
                let d = final(map).grid.dim();
                &&& !doubled(cs)
                &&& forall|k: int, r: int, c: int| #[trigger] mark(k, r, c) && is_tile(cs, k, r, c) ==> {
                    let t = cs[k].tile(r, c);
                    1 <= t.0 <= d.2 && 1 <= t.1 <= d.1 && 1 <= t.2 <= d.0 && final(map).grid.at(((t.2 - 1) as usize, (t.1 - 1) as usize, (t.0 - 1) as usize)).0 == cs[k].rows[r][c]
                }
                &&& wide(cs, d.2 as int) && tall(cs, d.1 as int) && deep(cs, d.0 as int)
                &&& forall|t: Tile| #[trigger] inside(t, d) ==> !nothing(cs, t.2 + 1, t.1 + 1, t.0 + 1)
            },
            Err(_) => final(vx_g)@.len() == 0 || doubled(cs) || gap(cs),
        },
@loops 8
@ghost start
    proof { pows(); }
@loop 0
    invariant
        vx_g@.len() == 0,
        powi(52, 0) == 1, powi(52, 1) == 52, powi(52, 2) == 2704, powi(52, 3) == 140608,
        map.key_length <= 3, curr_key_length <= 3, curr_key <= maxkey(), curr_key < powi(52, curr_key_length as nat),
        !in_key_block ==> curr_key_length == 0 || curr_key_length == map.key_length,
        in_data_block ==> !in_key_block && curr_key_length >= 1,
        after_data_block ==> map.key_length >= 1,
        forall|k: Key| #[trigger] map.dictionary@.contains_key(k) ==> fits(k.0, map.key_length),
        map.key_length == 0 ==> forall|k: Key| !#[trigger] map.dictionary@.contains_key(k),
        chars@.len() <= isize::MAX,
    ensures
        vx_g@.len() == 0,
        powi(52, 0) == 1, powi(52, 1) == 52, powi(52, 2) == 2704, powi(52, 3) == 140608,
        map.key_length <= 3,
        chars@.len() > 0 ==> map.key_length >= 1 && curr_key == 0 && curr_key_length == 0,
        forall|k: Key| #[trigger] map.dictionary@.contains_key(k) ==> fits(k.0, map.key_length),
        chars@.len() <= isize::MAX,
    decreases chars@.len(),
@loop 1
    invariant length <= curr_var@.len(),
    decreases length,
@loop 2
    invariant vx_i0 <= vx_s0.len(),
    decreases vx_s0.len() - vx_i0,
@ghost before <<<let mut grid: BTreeMap<Tile, Key> = BTreeMap::new();>>>
    let ghost total = chars@.len();
    let ghost n = map.key_length;
    let ghost dict = map.dictionary;
    proof { *vx_g = Ghost(chars@); }
    let ghost (mut k, mut p, mut old_k, mut old_p, mut g0) = (0int, Pos::X(0), 0int, Pos::X(0), vstd::map::Map::<Tile, Key>::empty());
    let ghost on = cs.len() > 0 && all_wf(cs, n as nat) && chars@ == text(cs, n as nat, 0, Pos::X(0));
    proof {
        if on { assert(cs[0].x.take(0) =~= seq![]); first_place(cs); }
    }
@loop 3
    invariant
        powi(52, 0) == 1, powi(52, 1) == 52, powi(52, 2) == 2704, powi(52, 3) == 140608,
        map.key_length == n, map.dictionary == dict, n <= 3, chars@.len() <= total <= isize::MAX, chars@.len() > 0 ==> n >= 1,
        curr_num <= MAX_COORD, max_x <= MAX_COORD + total, max_y <= MAX_COORD + total, max_z <= MAX_COORD,
        base_x <= MAX_COORD, curr_x + chars@.len() <= MAX_COORD + total, curr_y + chars@.len() <= MAX_COORD + total,
        in_map_string ==> !in_coord_block,
        !in_coord_block ==> reading_coord is X && 1 <= curr_x && 1 <= base_x && 1 <= curr_y && 1 <= curr_z <= max_z,
        !(reading_coord is X) ==> base_x == curr_x,
        total > 0 ==> n >= 1 && curr_key_length < n && curr_key <= maxkey() && curr_key < powi(52, curr_key_length as nat),
        on == (cs.len() > 0 && all_wf(cs, n as nat) && vx_g@ == text(cs, n as nat, 0, Pos::X(0))), vx_g@.len() == total,
        on && total > 0 ==> {
            &&& reading(cs, n as nat, k, p, in_coord_block, in_map_string, adjust_y, reading_coord, curr_num as int, curr_x as int, curr_y as int, curr_z as int, base_x as int, curr_key_length as int, curr_key as int)
            &&& chars@ == text(cs, n as nat, k, p)
            &&& sofar(cs, grid@, k, p) && apart(cs, k, p)
            &&& (max_x > 0 ==> wide(cs, max_x as int)) && (max_y > 0 ==> tall(cs, max_y as int)) && (max_z > 0 ==> deep(cs, max_z as int))
        },
        forall|c: Tile| #[trigger] grid@.contains_key(c) ==> 1 <= c.0 <= max_x && 1 <= c.1 <= max_y && 1 <= c.2 <= max_z && fits(grid@[c].0, n),
    ensures
        chars@.len() == 0,
        map.key_length == n, map.dictionary == dict,
        on == (cs.len() > 0 && all_wf(cs, n as nat) && vx_g@ == text(cs, n as nat, 0, Pos::X(0))), vx_g@.len() == total,
        on && total > 0 ==> {
            &&& reading(cs, n as nat, k, p, in_coord_block, in_map_string, adjust_y, reading_coord, curr_num as int, curr_x as int, curr_y as int, curr_z as int, base_x as int, curr_key_length as int, curr_key as int)
            &&& chars@ == text(cs, n as nat, k, p)
            &&& sofar(cs, grid@, k, p) && apart(cs, k, p)
            &&& (max_x > 0 ==> wide(cs, max_x as int)) && (max_y > 0 ==> tall(cs, max_y as int)) && (max_z > 0 ==> deep(cs, max_z as int))
        },
        max_x <= MAX_COORD + total, max_y <= MAX_COORD + total, max_z <= MAX_COORD,
        forall|c: Tile| #[trigger] grid@.contains_key(c) ==> 1 <= c.0 <= max_x && 1 <= c.1 <= max_y && 1 <= c.2 <= max_z && fits(grid@[c].0, n),
    decreases chars@.len(),
@loop 4
    invariant
        map.key_length == n, n <= 3, map.dictionary == dict, on ==> settled(cs, grid@, max_x as int, max_y as int, max_z as int), on == (cs.len() > 0 && all_wf(cs, n as nat) && vx_g@ == text(cs, n as nat, 0, Pos::X(0))),
        max_x < usize::MAX, max_y < usize::MAX, max_z < usize::MAX, vx_e3 == max_z, 1 <= vx_i3 <= vx_e3 + 1,
        forall|c: Tile| 1 <= c.0 <= max_x && 1 <= c.1 <= max_y && 1 <= c.2 < vx_i3 ==> #[trigger] grid@.contains_key(c),
    decreases vx_e3 + 1 - vx_i3,
@loop 5
    invariant
        map.key_length == n, n <= 3, map.dictionary == dict, on ==> settled(cs, grid@, max_x as int, max_y as int, max_z as int), on == (cs.len() > 0 && all_wf(cs, n as nat) && vx_g@ == text(cs, n as nat, 0, Pos::X(0))),
        max_x < usize::MAX, max_y < usize::MAX, max_z < usize::MAX, 1 <= z <= max_z, vx_e2 == max_y, 1 <= vx_i2 <= vx_e2 + 1,
        forall|c: Tile| 1 <= c.0 <= max_x && 1 <= c.1 <= max_y && 1 <= c.2 < z ==> #[trigger] grid@.contains_key(c),
        forall|c: Tile| 1 <= c.0 <= max_x && 1 <= c.1 < vx_i2 && c.2 == z ==> #[trigger] grid@.contains_key(c),
    decreases vx_e2 + 1 - vx_i2,
@loop 6
    invariant
        map.key_length == n, n <= 3, map.dictionary == dict, on ==> settled(cs, grid@, max_x as int, max_y as int, max_z as int), on == (cs.len() > 0 && all_wf(cs, n as nat) && vx_g@ == text(cs, n as nat, 0, Pos::X(0))),
        max_x < usize::MAX, max_y < usize::MAX, max_z < usize::MAX, 1 <= y <= max_y, 1 <= z <= max_z, vx_e1 == max_x, 1 <= vx_i1 <= vx_e1 + 1,
        forall|c: Tile| 1 <= c.0 <= max_x && 1 <= c.1 <= max_y && 1 <= c.2 < z ==> #[trigger] grid@.contains_key(c),
        forall|c: Tile| 1 <= c.0 <= max_x && 1 <= c.1 < y && c.2 == z ==> #[trigger] grid@.contains_key(c),
        forall|c: Tile| 1 <= c.0 < vx_i1 && c.1 == y && c.2 == z ==> #[trigger] grid@.contains_key(c),
    decreases vx_e1 + 1 - vx_i1,
@loop 7
    invariant
        max_x < usize::MAX, max_y < usize::MAX, max_z < usize::MAX,
        vx_f4.dim() == (max_z, max_y, max_x), map.key_length == n, map.dictionary == dict,
        forall|c: Tile| 1 <= c.0 <= max_x && 1 <= c.1 <= max_y && 1 <= c.2 <= max_z ==> #[trigger] grid@.contains_key(c),
        forall|c: Tile| #[trigger] vx_f4.filled().contains_key(c) ==> vx_f4.filled()[c] == grid@[((c.2 + 1) as usize, (c.1 + 1) as usize, (c.0 + 1) as usize)],
    ensures
        vx_f4.dim() == (max_z, max_y, max_x),
        forall|c: Tile| inside(c, vx_f4.dim()) ==> #[trigger] vx_f4.filled()[c] == grid@[((c.2 + 1) as usize, (c.1 + 1) as usize, (c.0 + 1) as usize)],
    decreases vx_f4.left(),
@ghost loop 3 start
    proof {
        g0 = grid@;
        old_k = k;
        old_p = p;
        if on {
            let nn = n as nat;
            let b = cs[k];
            assert(b.wf(nn));
            assert(text(cs, nn, k, p) =~= seq![ch] + chars@);
            // places where nothing is written
            if p is Open && !b.lead { p = Pos::Key(0, 0, 0); assert(text(cs, nn, k, p) =~= seq![ch] + chars@); }
            if let Pos::Key(r, c, j) = p { if r == b.rows.len() - 1 && c == b.rows[r].len() && !b.trail { p = Pos::End; } }
            assert(text(cs, nn, k, p) =~= seq![ch] + chars@);
            if p != old_p { assert(same_before(cs, k, old_p, k, p)); no_tile(cs, g0, k, old_p, k, p); }
            reach(cs, k, 0, 0);
            old_p = p;
            match p {
                Pos::X(i) => { if i < b.x.len() { decimal_take(b.x, i); p = Pos::X(i + 1); } else { assert(b.x.take(i) =~= b.x); assert(b.y.take(0) =~= seq![]); p = Pos::Y(0); } },
                Pos::Y(i) => { if i < b.y.len() { decimal_take(b.y, i); p = Pos::Y(i + 1); } else { assert(b.y.take(i) =~= b.y); assert(b.z.take(0) =~= seq![]); p = Pos::Z(0); } },
                Pos::Z(i) => { if i < b.z.len() { decimal_take(b.z, i); p = Pos::Z(i + 1); } else { assert(b.z.take(i) =~= b.z); p = Pos::Sep(0); } },
                Pos::Sep(i) => { if i < b.sep.len() { p = Pos::Sep(i + 1); } else { p = Pos::Open; } },
                Pos::Open => { p = Pos::Key(0, 0, 0); },
                Pos::Key(r, c, j) => {
                    if b.has(r, c) {
                        let key = b.rows[r][c];
                        reach(cs, k, r, c);
                        let t = ((decimal(b.x) + c) as usize, (decimal(b.y) + r) as usize, decimal(b.z) as usize);
                        if g0.contains_key(t) { taken(cs, g0, k, r, c, j, t); }
                        numeral_letter(key, nn, j); next_digit(key, nn, j);
                        powi_pos((n - 1 - j) as nat);
                        letter_digit((key / powi(52, (n - 1 - j) as nat)) % 52);
                        p = if j + 1 < n { Pos::Key(r, c, j + 1) } else { Pos::Key(r, c + 1, 0) };
                    }
                    else if r < b.rows.len() - 1 { p = Pos::Key(r + 1, 0, 0); }
                    else { p = Pos::End; }
                },
                Pos::End => { p = Pos::Post(0); },
                Pos::Post(i) => { if i < b.post.len() { p = Pos::Post(i + 1); } else { k = k + 1; p = Pos::X(0); assert(cs[k].x.take(0) =~= seq![]); } },
            }
            assert(chars@ =~= text(cs, nn, k, p));
        }
    }
@ghost loop 3 end
    proof {
        if on {
            let nn = n as nat;
            let b = cs[old_k];
            let r_c = match old_p { Pos::Key(r, c, j) => (r, c, b.has(r, c) && j + 1 == n), _ => (0, 0, false) };
            let (r, c, whole) = r_c;
            if whole {
                let t = ((decimal(b.x) + c) as usize, (decimal(b.y) + r) as usize, decimal(b.z) as usize);
                assert(grid@ == g0.insert(t, Key(b.rows[r][c] as u16)));
                put(cs, g0, k, r, c, n - 1, t, Key(b.rows[r][c] as u16));
            } else {
                assert(same_before(cs, old_k, old_p, k, p));
                no_tile(cs, g0, old_k, old_p, k, p);
            }
            assert(sofar(cs, grid@, k, p));
            assert(apart(cs, k, p));
            assert(reading(cs, n as nat, k, p, in_coord_block, in_map_string, adjust_y, reading_coord, curr_num as int, curr_x as int, curr_y as int, curr_z as int, base_x as int, curr_key_length as int, curr_key as int));
        }
    }
@ghost loop 3 after
    proof {
        if on {
            if total == 0 { all_read(cs, n as nat, 0, Pos::X(0)); }
            settle(cs, n as nat, grid@, k, p, max_x as int, max_y as int, max_z as int);
        }
    }
@ghost before <<<if !grid.contains_key(&(x, y, z))>>>
    proof { if on && !grid@.contains_key((x, y, z)) { missing(cs, grid@, max_x as int, max_y as int, max_z as int, (x, y, z)); } }
@ghost end
    proof {
        assert forall|c: Tile| inside(c, map.grid.dim()) implies fits((#[trigger] map.grid.at(c)).0, n) by { assert(grid@.contains_key(((c.2 + 1) as usize, (c.1 + 1) as usize, (c.0 + 1) as usize))); }
        if on { finished(cs, n as nat, grid@, map.grid); }
    }
