@@header
use vstd::prelude::*;

@@source mm crates/dmm-tools/src/minimap.rs
@@source con crates/dreammaker/src/constants.rs
@@source ddmi crates/dreammaker/src/dmi.rs

@@include prelude.inc
@@include seqiter.inc

@@verbatim
// ---- trusted stand-ins
/// strings with the same characters are the same string (patterns compare strings by value)
pub broadcast axiom fn same_chars(a: &str, b: &str)
    ensures #![trigger a@, b@] a@ == b@ ==> a == b;
/// f32: conversions through names; nothing about rounding is assumed
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Num { _x: f32 }
pub uninterp spec fn num_i32(f: Num) -> i32;
pub uninterp spec fn num_u8(f: Num) -> u8;
/// 0. <= f <= 255.
pub uninterp spec fn num_byte(f: Num) -> bool;
#[verifier::external_body]
pub fn vx_i32(f: Num) -> (r: i32) ensures r == num_i32(f) { unimplemented!() }
#[verifier::external_body]
pub fn vx_u8(f: Num) -> (r: u8) ensures r == num_u8(f) { unimplemented!() }
#[verifier::external_body]
pub fn vx_is_byte(f: &Num) -> (r: bool) ensures r == num_byte(*f) { unimplemented!() }
/// number of bytes of a text
pub uninterp spec fn bytes(s: Seq<char>) -> nat;
#[verifier::external_body]
pub struct Text { _x: String }
impl Text {
    pub uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn as_ref(&self) -> (r: &str) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn starts_with(&self, c: char) -> (r: bool) ensures r == (self@.len() > 0 && self@[0] == c) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == bytes(self@) { unimplemented!() }
}
/// t[1..t.len()].chars(), where the first character is one byte long
#[verifier::external_body]
pub fn vx_tail(t: &Text) -> (r: VxIter<char>)
    requires t@.len() > 0, (t@[0] as u32) < 128,
    ensures r@ == t@.skip(1),
{ unimplemented!() }
pub open spec fn hexdigit(c: char) -> Option<u32> {
    if '0' <= c <= '9' { Some((c as u32 - '0' as u32) as u32) } else if 'a' <= c <= 'f' { Some((c as u32 - 'a' as u32 + 10) as u32) } else if 'A' <= c <= 'F' { Some((c as u32 - 'A' as u32 + 10) as u32) } else { None }
}
pub assume_specification [i32::saturating_add] (a: i32, b: i32) -> (r: i32) ensures r == clamp(a + b);
pub assume_specification [i32::saturating_sub] (a: i32, b: i32) -> (r: i32) ensures r == clamp(a - b);
pub assume_specification [char::to_digit] (c: char, radix: u32) -> (r: Option<u32>) requires radix == 16, ensures r == hexdigit(c);
/// constants; the variants that are not pictured are one
pub enum Constant { Null(Option<u8>), String(Text), Resource(Text), Float(Num), Other }
impl Constant {
    #[verifier::external_body]
    pub const fn null<'a>() -> (r: &'a Constant) ensures *r == Constant::Null(None) { unimplemented!() }
}
pub struct VarValue { pub constant: Option<Constant> }
pub struct TypeVar { pub value: VarValue }
#[verifier::external_body]
#[verifier::reject_recursive_types(V)]
pub struct VxMap<V> { _x: Vec<V> }
impl<V> VxMap<V> {
    pub uninterp spec fn view(&self) -> Map<Seq<char>, V>;
    #[verifier::external_body]
    pub fn get(&self, k: &str) -> (r: Option<&V>)
        ensures match r { Some(v) => self@.contains_key(k@) && *v == self@[k@], None => !self@.contains_key(k@) },
    { unimplemented!() }
}
pub type Vars = VxMap<Constant>;
pub struct Type { pub path: String, pub vars: VxMap<TypeVar> }
pub struct Prefab { pub path: String, pub vars: Vars }
/// the tree, built and free of cycles (unit objtree): a type's line is the type, its parent, and so on
#[verifier::external_body]
pub struct ObjectTree { _x: u8 }
pub uninterp spec fn parent(t: Type) -> Option<Type>;
pub uninterp spec fn line_of(t: Type) -> Seq<Type>;
pub axiom fn line_step(t: Type)
    ensures line_of(t) == seq![t] + (match parent(t) { Some(p) => line_of(p), None => seq![] });
impl ObjectTree {
    pub uninterp spec fn at(&self, path: Seq<char>) -> Option<Type>;
    #[verifier::external_body]
    pub fn parent_of<'a>(&'a self, t: &Type) -> (r: Option<&'a Type>)
        ensures match r { Some(p) => parent(*t) == Some(*p), None => parent(*t) is None },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn find<'a>(&'a self, path: &str) -> (r: Option<TypeRef<'a>>)
        ensures match r { Some(p) => self.at(path@) == Some(p.ty()), None => self.at(path@) is None },
    { unimplemented!() }
}
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct TypeRef<'a> { _x: &'a Type }
impl<'a> TypeRef<'a> {
    pub uninterp spec fn ty(self) -> Type;
    #[verifier::external_body]
    pub fn get(&self) -> (r: &'a Type) ensures *r == self.ty() { unimplemented!() }
    #[verifier::external_body]
    pub fn parent_type(&self) -> (r: Option<TypeRef<'a>>)
        ensures match r { Some(p) => parent(self.ty()) == Some(p.ty()), None => parent(self.ty()) is None },
    { unimplemented!() }
}

// ---- what a variable is: of the object on the map, of its type, of the nearest ancestor that says
pub open spec fn said(v: TypeVar) -> Constant { match v.value.constant { Some(c) => c, None => Constant::Null(None) } }
pub open spec fn nearest(line: Seq<Type>, key: Seq<char>) -> Option<Constant>
    decreases line.len(),
{
    if line.len() == 0 { None } else if line[0].vars@.contains_key(key) { Some(said(line[0].vars@[key])) } else { nearest(line.skip(1), key) }
}
pub open spec fn inherited(t: Type, key: Seq<char>) -> Option<Constant> { nearest(line_of(t), key) }
pub open spec fn is(r: Option<&Constant>, c: Option<Constant>) -> bool {
    match r { Some(x) => c == Some(*x), None => c is None }
}
/// the line from an optional type on
pub open spec fn from(t: Option<Type>) -> Seq<Type> { match t { Some(t) => line_of(t), None => seq![] } }
proof fn step(t: Type, key: Seq<char>)
    ensures
        line_of(t).len() == 1 + from(parent(t)).len(),
        nearest(line_of(t), key) == if t.vars@.contains_key(key) { Some(said(t.vars@[key])) } else { nearest(from(parent(t)), key) },
{
    line_step(t);
    assert(line_of(t).skip(1) =~= from(parent(t)));
}
/// anything with variables (`V: GetVar`)
#[verifier::external_body]
pub struct Looked { _x: u8 }
impl Looked {
    pub uninterp spec fn looked(&self, key: Seq<char>) -> Option<Constant>;
    pub open spec fn value(&self, key: Seq<char>) -> Constant { match self.looked(key) { Some(c) => c, None => Constant::Null(None) } }
    #[verifier::external_body]
    pub fn get_var_inner<'a>(&self, key: &str, objtree: &'a ObjectTree) -> (r: Option<&'a Constant>) ensures is(r, self.looked(key@)) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_path(&self) -> (r: &str) { unimplemented!() }
}

@@type ddmi::Dir derive Clone, Copy
@@type mm::Layer derive Clone, Copy
@@type mm::Sprite derive Clone, Copy
@@type mm::Atom

@@verbatim
pub uninterp spec fn layer_of_num(f: Num) -> Layer;
pub uninterp spec fn layer_of_int(i: i32) -> Layer;
impl Layer {
    #[verifier::external_body]
    pub fn vx_from(f: Num) -> (r: Layer) ensures r == layer_of_num(f) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_from_i(i: i32) -> (r: Layer) ensures r == layer_of_int(i) { unimplemented!() }
}

@@fn con::Constant::to_int
@rewrite <<<f as i32>>> => <<<vx_i32(f)>>>
@ret r
@spec
    ensures r == int_of(*self),

@@fn con::Constant::as_str
@ret r
@spec
    ensures match *self { Constant::String(s) => r is Some && r->0@ == s@, _ => r is None },

@@fn con::Constant::as_path_str
@rewrite <<<Some(s)>>> => <<<Some(s.as_ref())>>>
@ret r
@spec
    ensures match *self { Constant::String(s) => r is Some && r->0@ == s@, Constant::Resource(s) => r is Some && r->0@ == s@, _ => r is None },

@@fn mm::Atom.GetVar::get_var_inner
@impl <<<impl<'a> Atom<'a>>>>
@rewrite optional <<<current.take()>>> => <<<current>>>
@rewrite <<<.unwrap_or_else(Constant::null)>>> => <<<.unwrap_or(Constant::null())>>>
@ret r
@spec
    ensures is(r, match self.prefab { Some(p) if p@.contains_key(key@) => Some(p@[key@]), _ => inherited(*self.type_, key@) }),
@loop 0
    invariant nearest(match current { Some(t) => line_of(*t), None => seq![] }, key@) == inherited(*self.type_, key@),
        match self.prefab { Some(p) => !p@.contains_key(key@), None => true },
    ensures current is None,
    decreases (match current { Some(t) => line_of(*t), None => seq![] }).len(),
@ghost loop 0 start
    proof { step(*t, key@); }

@@fn mm::Prefab.GetVar::get_var_inner
@impl <<<impl Prefab>>>
@sig <<<fn get_var_inner<'a>(&'a self, key: &str, objtree: &'a ObjectTree) -> Option<&'a Constant>>>>
@rewrite optional <<<current.take()>>> => <<<current>>>
@rewrite <<<.unwrap_or_else(Constant::null)>>> => <<<.unwrap_or(Constant::null())>>>
@ret r
@spec
    ensures is(r, if self.vars@.contains_key(key@) { Some(self.vars@[key@]) } else { nearest(from(objtree.at(self.path@)), key@) }),
@loop 0
    invariant nearest(match current { Some(t) => line_of(t.ty()), None => seq![] }, key@) == nearest(from(objtree.at(self.path@)), key@), !self.vars@.contains_key(key@),
    ensures current is None,
    decreases (match current { Some(t) => line_of(t.ty()), None => seq![] }).len(),
@ghost loop 0 start
    proof { step(t.ty(), key@); }

@@fn mm::Type.GetVar::get_var_inner
@impl <<<impl Type>>>
@sig <<<fn get_var_inner<'a>(&'a self, key: &str, objtree: &'a ObjectTree) -> Option<&'a Constant>>>>
@rewrite optional <<<Some(*self)>>> => <<<Some(self)>>>
@rewrite optional <<<current.take()>>> => <<<current>>>
@rewrite <<<.unwrap_or_else(Constant::null)>>> => <<<.unwrap_or(Constant::null())>>>
@ret r
@spec
    ensures is(r, inherited(*self, key@)),
@loop 0
    invariant nearest(match current { Some(t) => line_of(*t), None => seq![] }, key@) == inherited(*self, key@),
    ensures current is None,
    decreases (match current { Some(t) => line_of(*t), None => seq![] }).len(),
@ghost loop 0 start
    proof { step(*t, key@); }

@@fn mm::TypeRef.GetVar::get_var_inner
@impl <<<impl<'a> TypeRef<'a>>>>
@rewrite optional <<<current.take()>>> => <<<current>>>
@rewrite <<<.unwrap_or_else(Constant::null)>>> => <<<.unwrap_or(Constant::null())>>>
@ret r
@spec
    ensures is(r, inherited(self.ty(), key@)),
@loop 0
    invariant nearest(match current { Some(t) => line_of(t.ty()), None => seq![] }, key@) == inherited(self.ty(), key@),
    ensures current is None,
    decreases (match current { Some(t) => line_of(t.ty()), None => seq![] }).len(),
@ghost loop 0 start
    proof { step(t.ty(), key@); }

@@fn mm::GetVar::get_var
@impl <<<impl Looked>>>
@sig <<<fn get_var<'a>(&self, key: &str, objtree: &'a ObjectTree) -> &'a Constant>>>
@rewrite <<<.unwrap_or_else(Constant::null)>>> => <<<.unwrap_or(Constant::null())>>>
@ret r
@spec
    ensures *r == self.value(key@),

@@fn mm::GetVar::get_var_notnull
@impl <<<impl Looked>>>
@sig <<<fn get_var_notnull<'a>(&self, key: &str, objtree: &'a ObjectTree) -> Option<&'a Constant>>>>
@ret r
@spec
    ensures is(r, match self.looked(key@) { Some(Constant::Null(_)) => None, c => c }),

@@fn mm::plane_of
@sig <<<fn plane_of(objtree: &ObjectTree, atom: &Looked) -> i32>>>
@rewrite <<<*i as i32>>> => <<<vx_i32(*i)>>>
@rewrite optional <<<eprintln!("not a plane: {:?} on {:?}", other, atom.get_path());>>> => <<<>>>
@ret r
@spec
    ensures r == plane(atom.value("plane"@)),

@@fn mm::layer_of
@sig <<<fn layer_of(objtree: &ObjectTree, atom: &Looked) -> Layer>>>
@rewrite <<<&Constant::Float(f)>>> => <<<Constant::Float(f)>>>
@rewrite <<<Layer::from(f)>>> => <<<Layer::vx_from(*f)>>>
@rewrite <<<Layer::from(2)>>> => <<<Layer::vx_from_i(2)>>>
@rewrite optional <<<eprintln!("not a layer: {:?} on {:?}", other, atom.get_path());>>> => <<<>>>
@ret r
@spec
    ensures r == layer(atom.value("layer"@)),

@@fn mm::html_color
@ret r
@spec
    ensures match r { Some(c) => html(name@) == Some(c@), None => html(name@) is None },
@ghost start
    broadcast use same_chars;

@@fn mm::color_of
@sig <<<fn color_of(objtree: &ObjectTree, atom: &Looked) -> [u8; 4]>>>
@opt fornext
@rewrite <<<(0. ..=255.).contains(&i)>>> => <<<vx_is_byte(i)>>>
@rewrite <<<i as u8>>> => <<<vx_u8(*i)>>>
@rewrite <<<&Constant::Float(i)>>> => <<<Constant::Float(i)>>>
@rewrite <<<color[1..color.len()].chars()>>> => <<<vx_tail(color)>>>
@rewrite <<<html_color(color)>>> => <<<html_color(color.as_ref())>>>
@rewrite <<<Some([r, g, b])>>> => <<<Some(vx_c)>>>
@rewrite <<<[r, g, b, alpha]>>> => <<<[vx_c[0], vx_c[1], vx_c[2], alpha]>>>
@loops 1
@ret r
@spec
    ensures r@ == colour(atom.value("color"@), atom.value("alpha"@)),
@loop 0
    invariant 0 <= k <= whole.len(), vx_it0@ == whole.skip(k), sum == hex(whole, k),
    ensures sum == hex(whole, whole.len() as int),
    decreases vx_it0@.len(),
@ghost loop 0 before
    let ghost whole = vx_it0@;
    let ghost mut k: int = 0;
@ghost loop 0 start
    proof {
        shifted(sum);
        assert(whole[k] == ch);
        k = k + 1;
    }
@ghost before <<<if color.len() == 7>>>
    proof { bytes_of(sum); }

@@fn ddmi::Dir::from_int
@ret r
@spec
    ensures match r { Some(d) => d == facing(Some(int_)) && 1 <= int_ <= 10 && int_ != 3 && int_ != 7, None => facing(Some(int_)) == Dir::South && int_ != 2 },

@@verbatim
/// x.and_then(Dir::from_int).unwrap_or_default(); the default is South
pub trait VxDir { fn vx_dir(self) -> (r: Dir); }
impl VxDir for Option<i32> {
    fn vx_dir(self) -> (r: Dir) ensures r == facing(self)
    { match self { Some(i) => match Dir::from_int(i) { Some(d) => d, None => Dir::South }, None => Dir::South } }
}

@@fn mm::Sprite::from_vars
@impl <<<impl<'s> Sprite<'s>>>>
@sig <<<fn from_vars(objtree: &'s ObjectTree, vars: &Looked) -> Sprite<'s>>>>
@opt optclosures
@rewrite <<<.and_then(Dir::from_int).unwrap_or_default()>>> => <<<.vx_dir()>>>
@ret r
@spec
    ensures painted_from(r, *vars),
@ghost start
    proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }

@@verbatim
pub open spec fn int_of(c: Constant) -> Option<i32> { match c { Constant::Float(f) => Some(num_i32(f)), _ => None } }
proof fn shifted(n: u32)
    ensures (n << 4) <= 0xffff_fff0,
{ assert((n << 4) <= 0xffff_fff0u32) by (bit_vector); }
proof fn bytes_of(n: u32)
    ensures (n >> 16) as u8 == byte(n, 65536), (n >> 8) as u8 == byte(n, 256), n as u8 == byte(n, 1),
        0x11 * ((n >> 8) & 0xf) <= 0xff, 0x11 * ((n >> 4) & 0xf) <= 0xff, 0x11 * (n & 0xf) <= 0xff,
        (0x11 * ((n >> 8) & 0xf)) as u8 == twice(n, 256), (0x11 * ((n >> 4) & 0xf)) as u8 == twice(n, 16), (0x11 * (n & 0xf)) as u8 == twice(n, 1),
{
    assert((n >> 16) as u8 == (n / 65536 % 256) as u8 && (n >> 8) as u8 == (n / 256 % 256) as u8 && n as u8 == (n % 256) as u8) by (bit_vector);
    assert((n >> 8) & 0xf == n / 256 % 16 && (n >> 4) & 0xf == n / 16 % 16 && n & 0xf == n % 16) by (bit_vector);
}
pub open spec fn plane(c: Constant) -> i32 { match c { Constant::Float(f) => num_i32(f), _ => 0 } }
pub open spec fn layer(c: Constant) -> Layer { match c { Constant::Float(f) => layer_of_num(f), _ => layer_of_int(2) } }
/// the value of the first k digits, in 32 bits; a character that is no digit counts as 0
pub open spec fn hex(t: Seq<char>, k: int) -> u32
    decreases k,
{
    if k <= 0 { 0 } else { ((hex(t, k - 1) << 4) + (match hexdigit(t[k - 1]) { Some(d) => d as int, None => 0 })) as u32 }
}
pub open spec fn html(n: Seq<char>) -> Option<Seq<u8>> {
    if n == "black"@ { Some(seq![0u8, 0, 0]) }
    else if n == "silver"@ { Some(seq![0xc0u8, 0xc0, 0xc0]) }
    else if n == "gray"@ || n == "grey"@ { Some(seq![0x80u8, 0x80, 0x80]) }
    else if n == "white"@ { Some(seq![0xffu8, 0xff, 0xff]) }
    else if n == "maroon"@ { Some(seq![0x80u8, 0, 0]) }
    else if n == "red"@ { Some(seq![0xffu8, 0, 0]) }
    else if n == "purple"@ { Some(seq![0x80u8, 0, 0x80]) }
    else if n == "fuchsia"@ || n == "magenta"@ { Some(seq![0xffu8, 0, 0xff]) }
    else if n == "green"@ { Some(seq![0u8, 0xc0, 0]) }
    else if n == "lime"@ { Some(seq![0u8, 0xff, 0]) }
    else if n == "olive"@ || n == "gold"@ { Some(seq![0x80u8, 0x80, 0]) }
    else if n == "yellow"@ { Some(seq![0xffu8, 0xff, 0]) }
    else if n == "navy"@ { Some(seq![0u8, 0, 0x80]) }
    else if n == "blue"@ { Some(seq![0u8, 0, 0xff]) }
    else if n == "teal"@ { Some(seq![0u8, 0x80, 0x80]) }
    else if n == "aqua"@ || n == "cyan"@ { Some(seq![0u8, 0xff, 0xff]) }
    else { None }
}
pub open spec fn opacity(c: Constant) -> u8 { match c { Constant::Float(f) if num_byte(f) => num_u8(f), _ => 255 } }
pub open spec fn byte(n: u32, by: int) -> u8 { (n as int / by % 256) as u8 }
pub open spec fn twice(n: u32, by: int) -> u8 { (0x11 * (n as int / by % 16)) as u8 }
pub open spec fn rgb(t: Seq<char>) -> Seq<u8> {
    if t.len() > 0 && t[0] == '#' {
        let n = hex(t.skip(1), t.len() - 1);
        if bytes(t) == 7 { seq![byte(n, 65536), byte(n, 256), byte(n, 1)] }
        else if bytes(t) == 4 { seq![twice(n, 256), twice(n, 16), twice(n, 1)] }
        else { seq![255u8, 255, 255] }
    } else { match html(t) { Some(c) => c, None => seq![255u8, 255, 255] } }
}
pub open spec fn colour(c: Constant, alpha: Constant) -> Seq<u8> {
    (match c { Constant::String(t) => rgb(t@), _ => seq![255u8, 255, 255] }).push(opacity(alpha))
}
pub open spec fn clamp(i: int) -> int { if i > i32::MAX { i32::MAX as int } else if i < i32::MIN { i32::MIN as int } else { i } }
pub open spec fn number(v: Looked, key: Seq<char>) -> int { match int_of(v.value(key)) { Some(i) => i as int, None => 0 } }
pub open spec fn text_of(c: Constant, or_file: bool) -> Seq<char> {
    match c { Constant::String(s) => s@, Constant::Resource(s) if or_file => s@, _ => seq![] }
}
pub open spec fn facing(n: Option<i32>) -> Dir {
    match n { Some(1) => Dir::North, Some(4) => Dir::East, Some(8) => Dir::West, Some(5) => Dir::Northeast, Some(9) => Dir::Northwest, Some(6) => Dir::Southeast, Some(10) => Dir::Southwest, _ => Dir::South }
}
/// the appearance an object's variables give it
pub open spec fn painted_from(s: Sprite<'_>, v: Looked) -> bool {
    &&& s.icon@ == text_of(v.value("icon"@), true)
    &&& s.icon_state@ == text_of(v.value("icon_state"@), false)
    &&& s.dir == facing(int_of(v.value("dir"@)))
    &&& s.color@ == colour(v.value("color"@), v.value("alpha"@))
    &&& s.ofs_x == clamp(clamp(number(v, "pixel_x"@) + number(v, "pixel_w"@)) + number(v, "step_x"@))
    &&& s.ofs_y == clamp(clamp(number(v, "pixel_y"@) + number(v, "pixel_z"@)) + number(v, "step_y"@))
    &&& s.plane == plane(v.value("plane"@))
    &&& s.layer == layer(v.value("layer"@))
}

// ---- the objects of a tile
@@verbatim
#[verifier::external_body]
pub struct Bump { _x: u8 }
/// the messages printed once
#[verifier::external_body]
pub struct Errors { _x: u8 }
impl Errors {
    #[verifier::external_body]
    pub fn vx_contains(&self, k: &String) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_insert(&self, k: String) { unimplemented!() }
}
/// a render pass: what its hooks answer are functions of what they are given, and they only append to the lists
/// they are given (render_passes/mod.rs: "Expand atoms", "Apply overlays and underlays")
#[verifier::external_body]
pub struct Pass { _x: u8 }
impl Pass {
    pub uninterp spec fn likes_path(&self, p: Seq<char>) -> bool;
    pub uninterp spec fn likes_early(&self, a: Atom<'_>) -> bool;
    pub uninterp spec fn likes_late(&self, a: Atom<'_>) -> bool;
    pub uninterp spec fn likes_sprite(&self, s: Sprite<'_>) -> bool;
    pub uninterp spec fn stays(&self, a: Atom<'_>) -> bool;
    pub uninterp spec fn spawns<'a>(&self, a: Atom<'a>) -> Seq<Atom<'a>>;
    pub uninterp spec fn adjusted<'a>(&self, a: Atom<'a>, s: Sprite<'a>) -> Sprite<'a>;
    pub uninterp spec fn under<'a>(&self, a: Atom<'a>) -> Seq<Sprite<'a>>;
    pub uninterp spec fn above<'a>(&self, a: Atom<'a>) -> Seq<Sprite<'a>>;
    pub uninterp spec fn joined<'a>(&self, a: Atom<'a>, n: Seq<Seq<Atom<'a>>>) -> Seq<Sprite<'a>>;
    pub uninterp spec fn plain(&self, a: Atom<'_>, n: Seq<Seq<Atom<'_>>>) -> bool;
    #[verifier::external_body]
    pub fn path_filter(&self, path: &str) -> (r: bool) ensures r == self.likes_path(path@) { unimplemented!() }
    #[verifier::external_body]
    pub fn early_filter(&self, atom: &Atom, objtree: &ObjectTree) -> (r: bool) ensures r == self.likes_early(*atom) { unimplemented!() }
    #[verifier::external_body]
    pub fn late_filter(&self, atom: &Atom, objtree: &ObjectTree) -> (r: bool) ensures r == self.likes_late(*atom) { unimplemented!() }
    #[verifier::external_body]
    pub fn sprite_filter(&self, sprite: &Sprite) -> (r: bool) ensures r == self.likes_sprite(*sprite) { unimplemented!() }
    #[verifier::external_body]
    pub fn expand<'a>(&self, atom: &Atom<'a>, objtree: &'a ObjectTree, output: &mut Vec<Atom<'a>>) -> (r: bool)
        ensures r == self.stays(*atom), final(output)@ == old(output)@ + self.spawns(*atom),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn adjust_sprite<'a>(&self, atom: &Atom<'a>, sprite: &mut Sprite<'a>, objtree: &'a ObjectTree, bump: &'a Bump)
        ensures *final(sprite) == self.adjusted(*atom, *old(sprite)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn overlays<'a>(&self, atom: &Atom<'a>, objtree: &'a ObjectTree, underlays: &mut Vec<Sprite<'a>>, overlays: &mut Vec<Sprite<'a>>, bump: &'a Bump)
        ensures final(underlays)@ == old(underlays)@ + self.under(*atom), final(overlays)@ == old(overlays)@ + self.above(*atom),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn neighborhood_appearance<'a>(&self, atom: &Atom<'a>, objtree: &'a ObjectTree, n: &Neighborhood<'a, '_>, output: &mut Vec<Sprite<'a>>, bump: &'a Bump) -> (r: bool)
        ensures r == self.plain(*atom, n.tiles()), final(output)@ == old(output)@ + self.joined(*atom, n.tiles()),
    { unimplemented!() }
}
/// the nine tiles around an object
pub struct Neighborhood<'a, 'b> { pub inner: [&'b [Atom<'a>]; 9] }
impl<'a, 'b> Neighborhood<'a, 'b> {
    pub open spec fn tiles(&self) -> Seq<Seq<Atom<'a>>> { Seq::new(9, |i: int| self.inner@[i]@) }
}
pub uninterp spec fn blank_sprite<'a>() -> Sprite<'a>;
pub open spec fn bare<'a>(t: Type, v: Vars) -> Atom<'a> { Atom { type_: &t, prefab: Some(&v), sprite: blank_sprite() } }
impl<'s> Sprite<'s> {
    #[verifier::external_body]
    pub fn default() -> (r: Sprite<'s>) ensures r == blank_sprite() { unimplemented!() }
}
/// every pass agrees that the object is there
pub open spec fn all_path(p: Seq<Pass>, f: Prefab) -> bool { forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]).likes_path(f.path@) }
pub open spec fn all_early(p: Seq<Pass>, a: Atom<'_>) -> bool { forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]).likes_early(a) }
/// what the first k passes make of it, and whether all of them leave it standing; the first that does not is the last asked
pub open spec fn spawned<'a>(p: Seq<Pass>, k: int, a: Atom<'a>) -> Seq<Atom<'a>>
    decreases k,
{
    if k <= 0 { seq![] } else if standing(p, k - 1, a) { spawned(p, k - 1, a) + p[k - 1].spawns(a) } else { spawned(p, k - 1, a) }
}
pub open spec fn standing(p: Seq<Pass>, k: int, a: Atom<'_>) -> bool { forall|i: int| 0 <= i < k ==> (#[trigger] p[i]).stays(a) }
/// the objects of one object of the map
pub open spec fn made<'a>(tree: ObjectTree, p: Seq<Pass>, f: Prefab) -> Seq<Atom<'a>> {
    if !all_path(p, f) { seq![] } else {
        match tree.at(f.path@) {
            None => seq![],
            Some(t) => {
                let a = bare(t, f.vars);
                if !all_early(p, a) { seq![] }
                else if standing(p, p.len() as int, a) { spawned(p, p.len() as int, a).push(a) }
                else { spawned(p, p.len() as int, a) }
            },
        }
    }
}
pub open spec fn made_upto<'a>(tree: ObjectTree, p: Seq<Pass>, f: Seq<Prefab>, k: int) -> Seq<Atom<'a>>
    decreases k,
{
    if k <= 0 { seq![] } else { made_upto(tree, p, f, k - 1) + made(tree, p, f[k - 1]) }
}
/// once one pass has taken the object away no later one is asked
proof fn spawned_stops<'a>(p: Seq<Pass>, k: int, n: int, a: Atom<'a>)
    requires 0 < k <= n <= p.len(), !p[k - 1].stays(a),
    ensures spawned(p, n, a) == spawned(p, k, a), !standing(p, n, a),
    decreases n,
{
    if n > k { spawned_stops(p, k, n - 1, a); }
}

@@fn mm::Atom::from_prefab
@rewrite <<<objtree.find(&fab.path).map(|type_| Atom { type_: type_.get(), prefab: Some(&fab.vars), sprite: Sprite::default(), })>>> => <<<match objtree.find(&fab.path) { Some(type_) => Some(Atom { type_: type_.get(), prefab: Some(&fab.vars), sprite: Sprite::default(), }), None => None }>>>
@ret r
@spec
    ensures match objtree.at(fab.path@) { Some(t) => r == Some(bare(t, fab.vars)), None => r is None },

@@fn mm::get_atom_list
@sig <<<fn get_atom_list<'a>(objtree: &'a ObjectTree, prefabs: &'a [Prefab], render_passes: &[Pass], errors: &Errors, print_errors: bool) -> Vec<Atom<'a>>>>>
@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
@opt fornext
@rewrite <<<for fab in prefabs>>> => <<<for fab in vx_refs(prefabs)>>>
@rewrite <<<for pass in render_passes>>> => <<<for pass in vx_refs(render_passes)>>>
@rewrite optional <<<errors.read().unwrap().contains(&key)>>> => <<<errors.vx_contains(&key)>>>
@rewrite optional <<<errors.write().unwrap().insert(key);>>> => <<<errors.vx_insert(key);>>>
@rewrite optional <<<eprintln!("{key}");>>> => <<<>>>
@loops 4
@ret r
@spec
    ensures r@ == made_upto(*objtree, render_passes@, prefabs@, prefabs@.len() as int),
@ghost loop 0 before
    let ghost p = render_passes@;
    let ghost mut n: int = 0;
@loop 0
    invariant p == render_passes@, 0 <= n <= prefabs@.len(), rest(vx_it3@, prefabs@, n), result@ == made_upto(*objtree, p, prefabs@, n),
    ensures n == prefabs@.len(),
    decreases vx_it3@.len(),
@ghost loop 0 start
    let ghost was = result@;
    let ghost mut k: int = 0;
    proof { n = n + 1; }
@loop 1
    invariant 0 <= k <= p.len(), rest(vx_it0@, p, k), p == render_passes@, forall|i: int| 0 <= i < k ==> (#[trigger] p[i]).likes_path(fab.path@), p == render_passes@,
       0 < n <= prefabs@.len(), *fab == prefabs@[n - 1], was == made_upto(*objtree, p, prefabs@, n - 1), result@ == was, rest(vx_it3@, prefabs@, n),
    ensures k == p.len(),
    decreases vx_it0@.len(),
@ghost loop 1 start
    proof { assert(*pass == p[k]); k = k + 1; }
@loop 2
    invariant 0 <= k <= p.len(), rest(vx_it1@, p, k), all_path(p, *fab), forall|i: int| 0 <= i < k ==> (#[trigger] p[i]).likes_early(atom), p == render_passes@,
       objtree.at(fab.path@) is Some, atom == bare(objtree.at(fab.path@)->0, fab.vars),
       0 < n <= prefabs@.len(), *fab == prefabs@[n - 1], was == made_upto(*objtree, p, prefabs@, n - 1), result@ == was, rest(vx_it3@, prefabs@, n),
    ensures k == p.len(),
    decreases vx_it1@.len(),
@ghost loop 2 before
    proof { k = 0; }
@ghost loop 2 start
    proof { assert(*pass == p[k]); k = k + 1; }
@loop 3
    invariant 0 <= k <= p.len(), rest(vx_it2@, p, k), all_path(p, *fab), all_early(p, atom), p == render_passes@,
       objtree.at(fab.path@) is Some, atom == bare(objtree.at(fab.path@)->0, fab.vars), standing(p, k, atom), result@ == was + spawned(p, k, atom),
       0 < n <= prefabs@.len(), *fab == prefabs@[n - 1], was == made_upto(*objtree, p, prefabs@, n - 1), rest(vx_it3@, prefabs@, n),
    ensures k == p.len(),
    decreases vx_it2@.len(),
@ghost loop 3 before
    proof { k = 0; assert(result@ =~= was + spawned(p, 0, atom)); }
@ghost loop 3 start
    proof {
        assert(*pass == p[k]); k = k + 1;
        assert(was + spawned(p, k, atom) =~= was + spawned(p, k - 1, atom) + p[k - 1].spawns(atom));
        if !p[k - 1].stays(atom) { spawned_stops(p, k, p.len() as int, atom); }
    }

@@verbatim
/// what is left of the references to the elements of s, from k on
pub open spec fn rest<T>(it: Seq<&T>, s: Seq<T>, k: int) -> bool { it.len() == s.len() - k && forall|i: int| 0 <= i < it.len() ==> *(#[trigger] it[i]) == s[k + i] }
/// s.iter()
#[verifier::external_body]
pub fn vx_refs<T>(s: &[T]) -> (r: VxIter<&T>) ensures rest(r@, s@, 0) { unimplemented!() }
