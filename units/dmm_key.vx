@@header
use vstd::prelude::*;
use vstd::arithmetic::div_mod::*;

@@source dmm crates/dmm-tools/src/dmm.rs
@@source read crates/dmm-tools/src/dmm/read.rs
@@source dmi crates/dreammaker/src/dmi.rs
@@source err crates/dreammaker/src/error.rs

@@include prelude.inc

@@type dmi::Dir derive Clone, Copy
@@type dmm::Key derive Clone, Copy
@@type dmm::FormatKey derive Clone, Copy
@@type dmm::Coord2 derive Clone, Copy
@@type dmm::Coord3 derive Clone, Copy
@@type err::FileId derive Clone, Copy
@@type err::Location derive Clone, Copy
@@type dmm::Map

@@verbatim
pub type KeyType = u16;
pub open spec fn powi(b: int, e: nat) -> int decreases e { if e == 0 { 1 } else { b * powi(b, (e - 1) as nat) } }
pub assume_specification[ u16::pow ](b: u16, e: u32) -> (r: u16)
    requires powi(b as int, e as nat) <= u16::MAX,
    ensures r == powi(b as int, e as nat),
;
pub assume_specification[ usize::pow ](b: usize, e: u32) -> (r: usize)
    requires powi(b as int, e as nat) <= usize::MAX,
    ensures r == powi(b as int, e as nat),
;
pub assume_specification[ u8::is_ascii_lowercase ](b: &u8) -> (r: bool) ensures r == (97 <= *b <= 122);
pub assume_specification[ u8::is_ascii_uppercase ](b: &u8) -> (r: bool) ensures r == (65 <= *b <= 90);

// ---- trusted stand-in for the formatter: a growing list of characters
pub mod fmt {
    use vstd::prelude::*;
    #[verifier::external_body]
    pub struct Formatter { _x: u8 }
    #[verifier::external_body]
    pub struct Error { _x: u8 }
    pub type Result = std::result::Result<(), Error>;
    impl Formatter {
        pub uninterp spec fn view(&self) -> Seq<char>;
        #[verifier::external_body]
        pub fn write_char(&mut self, c: char) -> (r: Result)
            ensures r is Ok ==> final(self)@ == old(self)@.push(c),
        { unimplemented!() }
    }
}
#[verifier::external_body]
pub struct DMError { _x: u8 }
impl DMError {
    #[verifier::external_body]
    pub fn new<S>(l: Location, s: S) -> (r: DMError) { unimplemented!() }
}

// ---- trusted stand-ins for the map's containers
#[verifier::external_body]
pub struct Prefab { _x: u8 }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Array3<T> { _x: Vec<T> }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct BTreeMap<K, V> { _x: Vec<(K, V)> }
impl BTreeMap<Key, Vec<Prefab>> {
    /// the keys present
    pub uninterp spec fn view(&self) -> Set<int>;
}
/// dictionary.keys().max()
#[verifier::external_body]
pub fn vx_max_key(m: &BTreeMap<Key, Vec<Prefab>>) -> (r: Option<&Key>)
    ensures
        r is None ==> forall|k: int| !m@.contains(k),
        r matches Some(x) ==> m@.contains(x.0 as int) && forall|k: int| #[trigger] m@.contains(k) ==> 0 <= k <= x.0,
{ unimplemented!() }

// ---- the numeral system
pub open spec fn digit(c: int) -> int { if 97 <= c <= 122 { c - 97 } else if 65 <= c <= 90 { c - 65 + 26 } else { -1 } }
pub open spec fn letter(d: int) -> int { if d < 26 { 97 + d } else { 65 + (d - 26) } }
/// value of a digit string, most significant first; None: not a number or too large
pub open spec fn value(s: Seq<u8>) -> Option<int> decreases s.len() {
    if s.len() == 0 { Some(0int) } else {
        let d = digit(s.last() as int);
        match value(s.drop_last()) { None => None, Some(v) => if d < 0 || v * 52 + d > maxkey() { None } else { Some(v * 52 + d) } }
    }
}
pub open spec fn maxkey() -> int { 65534 }
/// the n-letter numeral of k
pub open spec fn numeral(k: int, n: nat) -> Seq<char> decreases n { if n == 0 { seq![] } else { numeral(k / 52, (n - 1) as nat).push(letter(k % 52) as char) } }

pub proof fn pows()
    ensures powi(52, 0) == 1, powi(52, 1) == 52, powi(52, 2) == 2704, powi(52, 3) == 140608,
{ reveal_with_fuel(powi, 4); }
/// reading back a numeral of n letters gives the number
pub open spec fn to_bytes(s: Seq<char>) -> Seq<u8> { Seq::new(s.len(), |i: int| s[i] as u8) }
pub proof fn numeral_value(k: int, n: nat)
    requires 0 <= k <= maxkey(), k < powi(52, n),
    ensures numeral(k, n).len() == n, value(to_bytes(numeral(k, n))) == Some(k),
    decreases n,
{
    let s = numeral(k, n);
    if n == 0 { } else {
        let q = k / 52;
        assert(powi(52, n) == 52 * powi(52, (n - 1) as nat));
        assert(q < powi(52, (n - 1) as nat)) by (nonlinear_arith) requires q == k / 52, k < 52 * powi(52, (n - 1) as nat), k >= 0;
        numeral_value(q, (n - 1) as nat);
        assert(to_bytes(s).drop_last() =~= to_bytes(numeral(q, (n - 1) as nat)));
        let d = letter(k % 52);
        assert(0 <= k % 52 < 52);
        assert((d as char) as u8 == d);
        assert(digit(d) == k % 52);
        assert(to_bytes(s).last() == d as u8);
    }
}
/// distinct keys have distinct numerals
pub proof fn numerals_injective(a: int, b: int, n: nat)
    requires 0 <= a <= maxkey(), 0 <= b <= maxkey(), a < powi(52, n), b < powi(52, n), numeral(a, n) == numeral(b, n),
    ensures a == b,
{ numeral_value(a, n); numeral_value(b, n); }

@@fn dmm::base_52_reverse
@ret r
@spec
    ensures
        r matches Ok(d) ==> d == digit(ch as int) && 0 <= d < 52,
        r is Err ==> digit(ch as int) < 0,

@@fn dmm::advance_key
@ret r
@opt optclosures
@spec
    requires next_digit < 52,
    ensures
        r matches Ok(k) ==> k == current * 52 + next_digit && k <= maxkey(),
        r is Err ==> current * 52 + next_digit > maxkey(),

@@fn read::advance_key
@ret r
@rewrite <<<super::base_52_reverse>>> => <<<base_52_reverse>>>
@rewrite <<<super::advance_key>>> => <<<advance_key>>>
@name read_advance_key
@spec
    ensures
        r matches Ok(k) ==> digit(ch as int) >= 0 && k == curr_key * 52 + digit(ch as int) && k <= maxkey(),
        r is Err ==> digit(ch as int) < 0 || curr_key * 52 + digit(ch as int) > maxkey(),

@@fn dmm::Key::next
@ret r
@spec
    requires self.0 < u16::MAX,
    ensures r.0 == self.0 + 1,

@@fn dmm::Key::invalid
@ret r
@spec
    ensures r.0 > maxkey(),

@@fn dmm::FormatKey.Display::fmt
@ret r
@opt forrange
@sig <<<fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result>>>
@impl <<<impl FormatKey>>>
@rewrite <<<use std::fmt::Write;>>> => <<<>>>
@spec
    requires
        1 <= self.0 <= 3, self.0 < 3 ==> (self.1).0 < powi(52, self.0 as nat),
    ensures
        r is Ok ==> final(f)@ == old(f)@ + numeral((self.1).0 as int, self.0 as nat),
@ghost start
    proof { reveal_with_fuel(powi, 4); let ghost o = f@; assert(o + seq![] =~= o); pows(); }
@loop 0
    invariant
        1 <= self.0 <= 3, key_length == self.0, key == (self.1).0, vx_e0 == key_length, 0 <= vx_i0 <= vx_e0,
        current == (if vx_i0 < vx_e0 { powi(52, (vx_e0 - vx_i0 - 1) as nat) } else { 0 }),
        powi(52, 0) == 1, powi(52, 1) == 52, powi(52, 2) == 2704, powi(52, 3) == 140608,
        f@ == old(f)@ + numeral(key as int / powi(52, (vx_e0 - vx_i0) as nat), vx_i0 as nat),
    decreases vx_e0 - vx_i0,
@ghost before <<<while vx_i0 < vx_e0>>>
    proof {
        pows();
        let k = key as int;
        assert(f@ =~= old(f)@ + numeral(k / powi(52, vx_e0 as nat), 0nat));
        if vx_e0 == 1 { assert(k / 52 == 0 || self.0 == 1); }
    }
@ghost loop 0 start
    let ghost (o, i0) = (f@, vx_i0 as nat);
@ghost loop 0 end
    proof {
        let k = key as int;
        let rest = (vx_e0 - i0 - 1) as nat;
        let c = powi(52, rest);
        let q = k / c;
        assert(powi(52, (vx_e0 - i0) as nat) == 52 * c);
        assert(q / 52 == k / (52 * c)) by { lemma_div_denominator(k, c, 52); assert(c * 52 == 52 * c) by (nonlinear_arith); }
        assert(numeral(q, i0 + 1) == numeral(q / 52, i0).push(letter(q % 52) as char));
        assert(f@ == o.push(letter(q % 52) as char));
        assert(f@ =~= old(f)@ + numeral(q, i0 + 1));
    }
@ghost end
    proof { assert(key as int / powi(52, 0) == key); }

@@verbatim
// ---- coordinates: 1-based, y upwards; grid: 0-based, row 0 at the top
pub open spec fn inside2(c: Coord2, d: (usize, usize)) -> bool { 1 <= c.x <= d.1 && 1 <= c.y <= d.0 }
pub open spec fn inside3(c: Coord3, d: (usize, usize, usize)) -> bool { 1 <= c.x <= d.2 && 1 <= c.y <= d.1 && 1 <= c.z <= d.0 }

@@fn dmm::Coord2::new
@ret r
@spec
    ensures r.x == x, r.y == y,

@@fn dmm::Coord2::z
@ret r
@spec
    ensures r.x == self.x, r.y == self.y, r.z == z,

@@fn dmm::Coord2::to_raw
@ret r
@spec
    requires inside2(self, vx_p1), vx_p1.0 <= i32::MAX, vx_p1.1 <= i32::MAX,
    ensures r.0 == vx_p1.0 - self.y, r.1 == self.x - 1, r.0 < vx_p1.0, r.1 < vx_p1.1,

@@fn dmm::Coord2::from_raw
@ret r
@spec
    requires vx_p0.0 < vx_p1.0 <= i32::MAX, vx_p0.1 < vx_p1.1 <= i32::MAX,
    ensures r.x == vx_p0.1 + 1, r.y == vx_p1.0 - vx_p0.0, inside2(r, vx_p1),

@@fn dmm::Coord3::new
@ret r
@spec
    ensures r.x == x, r.y == y, r.z == z,

@@fn dmm::Coord3::xy
@ret r
@spec
    ensures r.x == self.x, r.y == self.y,

@@fn dmm::Coord3::to_raw
@ret r
@spec
    requires inside3(self, vx_p1), vx_p1.0 <= i32::MAX, vx_p1.1 <= i32::MAX, vx_p1.2 <= i32::MAX,
    ensures r.0 == self.z - 1, r.1 == vx_p1.1 - self.y, r.2 == self.x - 1, r.0 < vx_p1.0, r.1 < vx_p1.1, r.2 < vx_p1.2,

@@fn dmm::Coord3::from_raw
@ret r
@spec
    requires vx_p0.0 < vx_p1.0 <= i32::MAX, vx_p0.1 < vx_p1.1 <= i32::MAX, vx_p0.2 < vx_p1.2 <= i32::MAX,
    ensures r.x == vx_p0.2 + 1, r.y == vx_p1.1 - vx_p0.1, r.z == vx_p0.0 + 1, inside3(r, vx_p1),

@@verbatim
/// the two translations are inverse to each other (from the contracts alone)
pub fn coords_roundtrip(c: Coord3, dim: (usize, usize, usize), i: (usize, usize, usize))
    requires inside3(c, dim), dim.0 <= i32::MAX, dim.1 <= i32::MAX, dim.2 <= i32::MAX, i.0 < dim.0, i.1 < dim.1, i.2 < dim.2,
{
    let a = Coord3::from_raw(c.to_raw(dim), dim);
    assert(a == c);
    let b = Coord3::from_raw(i, dim).to_raw(dim);
    assert(b == i);
}
pub fn coords_roundtrip2(c: Coord2, dim: (usize, usize), i: (usize, usize))
    requires inside2(c, dim), dim.0 <= i32::MAX, dim.1 <= i32::MAX, i.0 < dim.0, i.1 < dim.1,
{
    let a = Coord2::from_raw(c.to_raw(dim), dim);
    assert(a == c);
    let b = Coord2::from_raw(i, dim).to_raw(dim);
    assert(b == i);
}

@@fn dmi::Dir::offset
@ret r
@spec
    ensures
        r.0 == (if self is East || self is Northeast || self is Southeast { 1int } else if self is West || self is Northwest || self is Southwest { -1 } else { 0 }),
        r.1 == (if self is North || self is Northeast || self is Northwest { 1int } else if self is South || self is Southeast || self is Southwest { -1 } else { 0 }),

@@fn dmm::Coord2.Add::add
@name step
@sig <<<fn step(self, rhs: Dir) -> Coord2>>>
@impl <<<impl Coord2>>>
@ret r
@spec
    requires i32::MIN < self.x < i32::MAX, i32::MIN < self.y < i32::MAX,
    ensures
        r.x - self.x == (if rhs is East || rhs is Northeast || rhs is Southeast { 1int } else if rhs is West || rhs is Northwest || rhs is Southwest { -1 } else { 0 }),
        r.y - self.y == (if rhs is North || rhs is Northeast || rhs is Northwest { 1int } else if rhs is South || rhs is Southeast || rhs is Southwest { -1 } else { 0 }),

@@fn dmm::Map::key_length
@ret r
@spec
    ensures r == self.key_length,

@@fn dmm::Map::adjust_key_length
@rewrite <<<self.dictionary.keys().max()>>> => <<<vx_max_key(&self.dictionary)>>>
@spec
    ensures
        final(self).dictionary == old(self).dictionary, final(self).grid == old(self).grid,
        (exists|k: int| old(self).dictionary@.contains(k)) ==> {
            let n = final(self).key_length as nat;
            &&& 1 <= n <= 3
            // every key fits, none is refused by format_key
            &&& forall|k: int| #[trigger] old(self).dictionary@.contains(k) ==> k < powi(52, n)
            // no shorter length would do
            &&& n > 1 ==> exists|k: int| #[trigger] old(self).dictionary@.contains(k) && k >= powi(52, (n - 1) as nat)
        },
@ghost start
    proof { pows(); }
