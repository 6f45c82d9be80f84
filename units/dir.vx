@@header
use vstd::prelude::*;

@@source dmi crates/dreammaker/src/dmi.rs

@@include prelude.inc

@@type dmi::Dir derive Clone, Copy

@@verbatim
/// unit vector of a facing: north is +y, east is +x
pub open spec fn vx_vec(d: Dir) -> (int, int) {
    match d {
        Dir::North => (0, 1), Dir::South => (0, -1), Dir::East => (1, 0), Dir::West => (-1, 0),
        Dir::Northeast => (1, 1), Dir::Northwest => (-1, 1), Dir::Southeast => (1, -1), Dir::Southwest => (-1, -1),
    }
}
/// BYOND's integer: the union of the bits NORTH=1 SOUTH=2 EAST=4 WEST=8
pub open spec fn vx_int(d: Dir) -> int {
    let v = vx_vec(d);
    (if v.1 == 1 { 1int } else { 0 }) + (if v.1 == -1 { 2int } else { 0 }) + (if v.0 == 1 { 4int } else { 0 }) + (if v.0 == -1 { 8int } else { 0 })
}
/// eighth turns clockwise from north
pub open spec fn vx_turn(d: Dir) -> int {
    let v = vx_vec(d);
    if v == (0int, 1int) { 0 } else if v == (1int, 1int) { 1 } else if v == (1int, 0int) { 2 } else if v == (1int, -1int) { 3 }
    else if v == (0int, -1int) { 4 } else if v == (-1int, -1int) { 5 } else if v == (-1int, 0int) { 6 } else { 7 }
}
/// bits shared by two facings
pub open spec fn vx_share(a: Dir, b: Dir) -> bool {
    let (p, q) = (vx_vec(a), vx_vec(b));
    (p.0 != 0 && p.0 == q.0) || (p.1 != 0 && p.1 == q.1)
}
pub proof fn vx_int_injective(a: Dir, b: Dir)
    ensures vx_int(a) == vx_int(b) <==> a == b, vx_vec(a) == vx_vec(b) <==> a == b, vx_turn(a) == vx_turn(b) <==> a == b, 0 <= vx_turn(a) < 8, 1 <= vx_int(a) <= 10,
{}
pub proof fn vx_bits(a: i32, b: i32)
    requires 1 <= a <= 10, 1 <= b <= 10,
    ensures (a & b != 0) == ((a % 2 == 1 && b % 2 == 1) || ((a / 2) % 2 == 1 && (b / 2) % 2 == 1) || ((a / 4) % 2 == 1 && (b / 4) % 2 == 1) || ((a / 8) % 2 == 1 && (b / 8) % 2 == 1)),
{
    assert(forall|a: i32, b: i32| #![auto] 1 <= a <= 10 && 1 <= b <= 10 ==> (a & b != 0) == ((a % 2 == 1 && b % 2 == 1) || ((a / 2) % 2 == 1 && (b / 2) % 2 == 1) || ((a / 4) % 2 == 1 && (b / 4) % 2 == 1) || ((a / 8) % 2 == 1 && (b / 8) % 2 == 1))) by (bit_vector);
}

@@fn dmi::Dir::from_int
@ret r
@spec
    ensures
        r matches Some(d) ==> vx_int(d) == int_,
        r is None ==> forall|d: Dir| #[trigger] vx_int(d) != int_,

@@fn dmi::Dir::to_int
@ret r
@spec
    ensures r == vx_int(self),

@@fn dmi::Dir::contains
@ret r
@spec
    ensures r == vx_share(self, other),
@ghost start
    proof { vx_int_injective(self, other); vx_int_injective(other, self); vx_bits(vx_int(self) as i32, vx_int(other) as i32); }

@@fn dmi::Dir::is_diagonal
@ret r
@opt matches
@spec
    ensures r == (vx_vec(self).0 != 0 && vx_vec(self).1 != 0),

@@fn dmi::Dir::flip
@ret r
@spec
    ensures vx_vec(r) == (-vx_vec(self).0, -vx_vec(self).1), vx_turn(r) == (vx_turn(self) + 4) % 8,

@@fn dmi::Dir::flip_ns
@ret r
@spec
    ensures vx_vec(r) == (vx_vec(self).0, -vx_vec(self).1),

@@fn dmi::Dir::flip_ew
@ret r
@spec
    ensures vx_vec(r) == (-vx_vec(self).0, vx_vec(self).1),

@@fn dmi::Dir::clockwise_45
@ret r
@spec
    ensures vx_turn(r) == (vx_turn(self) + 1) % 8,

@@fn dmi::Dir::counterclockwise_45
@ret r
@spec
    ensures vx_turn(r) == (vx_turn(self) + 7) % 8,

@@fn dmi::Dir::clockwise_90
@ret r
@spec
    ensures vx_turn(r) == (vx_turn(self) + 2) % 8, vx_vec(r) == (vx_vec(self).1, -vx_vec(self).0),

@@fn dmi::Dir::counterclockwise_90
@ret r
@spec
    ensures vx_turn(r) == (vx_turn(self) + 6) % 8, vx_vec(r) == (-vx_vec(self).1, vx_vec(self).0),

@@fn dmi::Dir::offset
@ret r
@spec
    ensures (r.0 as int, r.1 as int) == vx_vec(self),

@@verbatim
/// the algebra, from the contracts alone
pub fn vx_algebra(d: Dir)
{
    let i = d.to_int();
    let back = Dir::from_int(i);
    proof { vx_int_injective(d, d); assert(vx_int(d) == i); assert(back is Some); vx_int_injective(back.unwrap(), d); }
    assert(back == Some(d));
    let a = d.clockwise_90().counterclockwise_90();
    proof { vx_int_injective(a, d); }
    assert(a == d);
    let b = d.clockwise_45().counterclockwise_45();
    proof { vx_int_injective(b, d); }
    assert(b == d);
    let c = d.clockwise_45().clockwise_45();
    let c2 = d.clockwise_90();
    proof { vx_int_injective(c, c2); }
    assert(c == c2);
    let e = d.clockwise_90().clockwise_90();
    let f = d.flip();
    proof { vx_int_injective(e, f); }
    assert(e == f);
    let g = d.flip_ns().flip_ew();
    proof { vx_int_injective(g, f); }
    assert(g == f);
}
