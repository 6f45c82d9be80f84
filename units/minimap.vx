@@header
use vstd::prelude::*;
use core::ops::{Index, IndexMut};

@@source dmi crates/dmm-tools/src/dmi.rs
@@source mm crates/dmm-tools/src/minimap.rs

@@include prelude.inc

@@verbatim
// ---- trusted: a two-dimensional array is the slice of its elements
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Array2<T> { _k: Vec<T> }
impl<T> Array2<T> {
    pub uninterp spec fn view(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn as_slice(&self) -> (r: Option<&[T]>) ensures r is Some, r->0@ == self@, { unimplemented!() }
    #[verifier::external_body]
    pub fn as_slice_mut(&mut self) -> (r: Option<&mut [T]>) ensures r is Some, r->0@ == old(self)@, final(self)@ == final(r->0)@, { unimplemented!() }
}
pub mod dmi { pub type Coordinate = (u32, u32); pub type Rect = (u32, u32, u32, u32); }
pub type Coordinate = (u32, u32);
pub type Rect = (u32, u32, u32, u32);
/// `(a..).zip(b..e)`
pub struct VxZip { pub a: u32, pub b: u32, pub e: u32 }
pub fn vx_zip(a: u32, b: u32, e: u32) -> (r: VxZip) ensures r == (VxZip { a, b, e }), { VxZip { a, b, e } }
impl VxZip {
    // RangeFrom::next computes a + 1 before the second iterator is asked
    pub fn next(&mut self) -> (r: Option<(u32, u32)>)
        requires old(self).a < u32::MAX,
        ensures
            old(self).b < old(self).e ==> r == Some((old(self).a, old(self).b)) && *final(self) == (VxZip { a: (old(self).a + 1) as u32, b: (old(self).b + 1) as u32, e: old(self).e }),
            old(self).b >= old(self).e ==> r is None && *final(self) == *old(self),
    {
        if self.b < self.e { let (a, b) = (self.a, self.b); self.a = a + 1; self.b = b + 1; Some((a, b)) } else { None }
    }
}
pub assume_specification [i32::unsigned_abs] (x: i32) -> (r: u32) ensures r == (if x < 0 { -x } else { x as int });

@@known Rgba8::as_bytes
@@known Rgba8::as_bytes_mut

@@type dmi::Rgba8 derive Clone, Copy
@@type dmi::Image

@@verbatim
// trusted: the four bytes of a pixel are r, g, b, a (repr(C), bytemuck)
impl Rgba8 {
    pub open spec fn at(self, i: int) -> u8 { if i == 0 { self.r } else if i == 1 { self.g } else if i == 2 { self.b } else { self.a } }
    #[verifier::external_body]
    pub fn as_bytes(&self) -> (r: &[u8; 4])
        ensures r@ == seq![self.r, self.g, self.b, self.a],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn as_bytes_mut(&mut self) -> (r: &mut [u8; 4])
        ensures r@ == seq![old(self).r, old(self).g, old(self).b, old(self).a],
            *final(self) == (Rgba8 { r: final(r)@[0], g: final(r)@[1], b: final(r)@[2], a: final(r)@[3] }),
    { unimplemented!() }
}
impl vstd::std_specs::core::IndexSpecImpl<u8> for Rgba8 {
    open spec fn index_req(&self, index: &u8) -> bool { *index < 4 }
}

// ---- what drawing means
pub open spec fn mul(x: int, y: int) -> int { x * y / 255 }
pub open spec fn tint(s: Rgba8, c: Seq<u8>) -> Rgba8 {
    Rgba8 { r: mul(s.r as int, c[0] as int) as u8, g: mul(s.g as int, c[1] as int) as u8, b: mul(s.b as int, c[2] as int) as u8, a: mul(s.a as int, c[3] as int) as u8 }
}
/// coverage left for what is below, and the share of each colour
pub open spec fn over_alpha(sa: int, da: int) -> int { sa + mul(da, 255 - sa) }
pub open spec fn mix(s: int, d: int, sa: int, da: int) -> int {
    if sa == 0 && da == 0 { 0 } else { (s * (sa * 255) + d * (da * (255 - sa))) / (sa * 255 + da * (255 - sa)) }
}
pub open spec fn over(s: Rgba8, d: Rgba8) -> Rgba8 {
    Rgba8 {
        r: mix(s.r as int, d.r as int, s.a as int, d.a as int) as u8,
        g: mix(s.g as int, d.g as int, s.a as int, d.a as int) as u8,
        b: mix(s.b as int, d.b as int, s.a as int, d.a as int) as u8,
        a: over_alpha(s.a as int, d.a as int) as u8,
    }
}
impl Image {
    pub open spec fn wf(self) -> bool { self.data@.len() == self.width * self.height && self.width * self.height <= u32::MAX && self.width < u32::MAX && self.height < u32::MAX }
}
/// pixel i of a w-wide image lies in the rectangle
pub open spec fn inside(i: int, w: int, pos: Coordinate, crop: Rect) -> bool {
    pos.0 <= i % w < pos.0 + crop.2 && pos.1 <= i / w < pos.1 + crop.3
}
/// the pixel of the other image that lands on pixel i
pub open spec fn source(i: int, w: int, ow: int, pos: Coordinate, crop: Rect) -> int {
    (crop.1 + (i / w - pos.1)) * ow + (crop.0 + (i % w - pos.0))
}
pub open spec fn drawn(old: Seq<Rgba8>, i: int, w: int, src: Seq<Rgba8>, ow: int, pos: Coordinate, crop: Rect, c: Seq<u8>) -> Rgba8 {
    if inside(i, w, pos, crop) { over(tint(src[source(i, w, ow, pos, crop)], c), old[i]) } else { old[i] }
}
/// rows before y, and row y before column x, are drawn
pub open spec fn upto(i: int, w: int, x: int, y: int) -> bool { i / w < y || i / w == y && i % w < x }

proof fn mul_le(x: int, y: int)
    requires 0 <= x <= 255, 0 <= y <= 255,
    ensures 0 <= mul(x, y) <= x, mul(x, y) <= y,
{
    assert(0 <= x * y <= x * 255 && x * y <= 255 * y) by (nonlinear_arith) requires 0 <= x <= 255, 0 <= y <= 255;
}
proof fn over_alpha_le(sa: int, da: int)
    requires 0 <= sa <= 255, 0 <= da <= 255,
    ensures sa <= over_alpha(sa, da) <= 255, over_alpha(sa, da) == 0 <==> sa == 0 && da == 0, sa == 255 || da == 255 ==> over_alpha(sa, da) == 255, sa == 0 ==> over_alpha(sa, da) == da, da == 0 ==> over_alpha(sa, da) == sa,
{
    mul_le(da, 255 - sa);
    assert(255 * (255 - sa) / 255 == 255 - sa);
    assert(da * 255 / 255 == da);
    if sa == 255 { assert(da * (255 - sa) == 0) by (nonlinear_arith) requires sa == 255; }
}
/// the blend is between the two colours; an opaque source replaces; an empty source or an empty destination leaves the other
pub proof fn mix_between(s: int, d: int, sa: int, da: int)
    requires 0 <= s <= 255, 0 <= d <= 255, 0 <= sa <= 255, 0 <= da <= 255,
    ensures
        0 <= mix(s, d, sa, da) <= 255,
        sa != 0 || da != 0 ==> (s <= mix(s, d, sa, da) <= d || d <= mix(s, d, sa, da) <= s),
        sa == 255 ==> mix(s, d, sa, da) == s,
        sa == 0 && da != 0 ==> mix(s, d, sa, da) == d,
        da == 0 && sa != 0 ==> mix(s, d, sa, da) == s,
{
    let (p, q) = (sa * 255, da * (255 - sa));
    assert(p >= 0 && q >= 0) by (nonlinear_arith) requires p == sa * 255, q == da * (255 - sa), sa >= 0, da >= 0, sa <= 255;
    if sa != 0 || da != 0 {
        assert(p + q > 0) by (nonlinear_arith) requires p == sa * 255, q == da * (255 - sa), sa >= 0, da >= 0, sa <= 255, sa != 0 || da != 0;
        let t = s * p + d * q;
        let (lo, hi) = if s <= d { (s, d) } else { (d, s) };
        assert(lo * (p + q) <= t <= hi * (p + q)) by (nonlinear_arith) requires t == s * p + d * q, lo <= s, lo <= d, s <= hi, d <= hi, p >= 0, q >= 0;
        assert(lo <= t / (p + q) <= hi) by (nonlinear_arith) requires lo * (p + q) <= t <= hi * (p + q), p + q > 0;
        if sa == 255 { assert(q == 0) by (nonlinear_arith) requires q == da * (255 - sa), sa == 255; assert(d * q == 0) by (nonlinear_arith) requires q == 0; assert((s * p) / p == s) by (nonlinear_arith) requires p > 0; }
        if sa == 0 { assert(p == 0); assert(s * p == 0) by (nonlinear_arith) requires p == 0; assert((d * q) / q == d) by (nonlinear_arith) requires q > 0; }
        if da == 0 { assert(q == 0) by (nonlinear_arith) requires q == da * (255 - sa), da == 0; assert(d * q == 0) by (nonlinear_arith) requires q == 0; assert((s * p) / p == s) by (nonlinear_arith) requires p > 0; }
    }
}
proof fn at_index(x: int, y: int, w: int, h: int)
    requires 0 <= x < w, 0 <= y < h,
    ensures (y * w + x) / w == y, (y * w + x) % w == x, 0 <= y * w + x < w * h, 0 <= y * w <= y * w + x,
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(y * w + x, w, y, x);
    assert(y * w + x < w * h && y * w >= 0) by (nonlinear_arith) requires 0 <= x < w, 0 <= y < h;
}
proof fn of_index(i: int, w: int, h: int)
    requires 0 <= i < w * h, 0 < w,
    ensures i == (i / w) * w + i % w, 0 <= i % w < w, 0 <= i / w < h,
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(i, w);
    assert(i / w < h) by (nonlinear_arith) requires i == w * (i / w) + i % w, 0 <= i % w, i < w * h, w > 0;
    assert(0 <= i / w) by (nonlinear_arith) requires 0 <= i, 0 < w;
    assert(w * (i / w) == (i / w) * w) by (nonlinear_arith);
}

@@fn dmi::mul255
@ret r
@spec
    ensures r == mul(x as int, y as int), r <= x, r <= y,
@ghost start
  proof {
    assert(x * y <= 255 * 255) by (nonlinear_arith) requires x <= 255, y <= 255;
    mul_le(x as int, y as int);
  }

@@fn dmi::Rgba8::new
@ret res
@spec
    ensures res == (Rgba8 { r, g, b, a }),

@@fn dmi::Rgba8.Index::index
@name vx_index
@sig <<<fn vx_index(&self, index: u8) -> &u8>>>
@ret r
@spec
    requires index < 4,
    ensures *r == self.at(index as int),

@@fn dmi::Rgba8.IndexMut::index_mut
@name vx_index_mut
@sig <<<fn vx_index_mut(&mut self, index: u8) -> &mut u8>>>
@ret r
@spec
    requires index < 4,
    ensures *r == old(self).at(index as int),
        index == 0 ==> *final(self) == (Rgba8 { r: *final(r), ..*old(self) }),
        index == 1 ==> *final(self) == (Rgba8 { g: *final(r), ..*old(self) }),
        index == 2 ==> *final(self) == (Rgba8 { b: *final(r), ..*old(self) }),
        index == 3 ==> *final(self) == (Rgba8 { a: *final(r), ..*old(self) }),

@@verbatim
impl Index<u8> for Rgba8 {
    type Output = u8;
    fn index(&self, index: u8) -> (r: &u8)
    ensures *r == self.at(index as int),
    { self.vx_index(index) }
}
impl IndexMut<u8> for Rgba8 {
    fn index_mut(&mut self, index: u8) -> (r: &mut u8)
    ensures *r == old(self).at(index as int),
        index == 0 ==> *final(self) == (Rgba8 { r: *final(r), ..*old(self) }),
        index == 1 ==> *final(self) == (Rgba8 { g: *final(r), ..*old(self) }),
        index == 2 ==> *final(self) == (Rgba8 { b: *final(r), ..*old(self) }),
        index == 3 ==> *final(self) == (Rgba8 { a: *final(r), ..*old(self) }),
    { self.vx_index_mut(index) }
}

@@fn dmi::Image::composite
@opt fornext
@opt forrange
@opt macros
@loops 4
@rewrite <<<(crop.1..).zip(pos.1..(pos.1 + crop.3))>>> => <<<vx_zip(crop.1, pos.1, pos.1 + crop.3)>>>
@rewrite <<<(crop.0..).zip(pos.0..(pos.0 + crop.2))>>> => <<<vx_zip(crop.0, pos.0, pos.0 + crop.2)>>>
@spec
    requires old(self).wf(), other.wf(),
        pos.0 + crop.2 <= old(self).width, pos.1 + crop.3 <= old(self).height,
        crop.0 + crop.2 <= other.width, crop.1 + crop.3 <= other.height,
    ensures final(self).wf(), final(self).width == old(self).width, final(self).height == old(self).height,
        forall|i: int| 0 <= i < old(self).data@.len() ==> #[trigger] final(self).data@[i] == drawn(old(self).data@, i, old(self).width as int, other.data@, other.width as int, pos, crop, color@),
@ghost start
    let ghost od = self.data@;
    let ghost (w, h, ow) = (self.width as int, self.height as int, other.width as int);
@loop 0
    invariant
        other_dat@ == other.data@, other.wf(), self_dat@.len() == w * h, od.len() == w * h, w == self.width, h == self.height, ow == other.width, w * h <= u32::MAX,
        pos.0 + crop.2 <= w < u32::MAX, pos.1 + crop.3 <= h < u32::MAX, crop.0 + crop.2 <= ow, crop.1 + crop.3 <= other.height,
        vx_it3.e == pos.1 + crop.3, pos.1 <= vx_it3.b <= vx_it3.e, vx_it3.a == crop.1 + (vx_it3.b - pos.1),
        forall|i: int| 0 <= i < w * h ==> #[trigger] self_dat@[i] == if upto(i, w, 0, vx_it3.b as int) { drawn(od, i, w, other.data@, ow, pos, crop, color@) } else { od[i] },
    ensures vx_it3.b == vx_it3.e,
    decreases vx_it3.e - vx_it3.b,
@loop 1
    invariant
        other_dat@ == other.data@, other.wf(), self_dat@.len() == w * h, od.len() == w * h, w == self.width, h == self.height, ow == other.width, w * h <= u32::MAX,
        pos.0 + crop.2 <= w < u32::MAX, pos.1 + crop.3 <= h < u32::MAX, crop.0 + crop.2 <= ow, crop.1 + crop.3 <= other.height,
        pos.1 <= y < pos.1 + crop.3, sy == crop.1 + (y - pos.1),
        vx_it2.e == pos.0 + crop.2, pos.0 <= vx_it2.b <= vx_it2.e, vx_it2.a == crop.0 + (vx_it2.b - pos.0),
        forall|i: int| 0 <= i < w * h ==> #[trigger] self_dat@[i] == if upto(i, w, vx_it2.b as int, y as int) { drawn(od, i, w, other.data@, ow, pos, crop, color@) } else { od[i] },
    ensures vx_it2.b == vx_it2.e,
    decreases vx_it2.e - vx_it2.b,
@ghost loop 1 start
    proof {
        at_index(x as int, y as int, w, h);
        at_index(sx as int, sy as int, ow, other.height as int);
    }
    let ghost before = self_dat@;
    let ghost at = (y * w + x) as int;
@ghost after <<<let dst = &mut self_dat[(y * self.width + x) as usize];>>>
    let ghost d0 = *dst;
@ghost before <<<let out_a = src_tint.a + mul255(dst.a, 255 - src_tint.a);>>>
    proof { over_alpha_le(src_tint.a as int, d0.a as int); }
@loop 2
    invariant
        src_weight == src_tint.a * 255, dst_weight == d0.a * (255 - src_tint.a), src_tint.a != 0 || d0.a != 0,
        dst.a == d0.a, 0 <= vx_i0 <= 3, vx_e0 == 3,
        forall|j: int| 0 <= j < 3 ==> #[trigger] dst.at(j) == if j < vx_i0 { mix(src_tint.at(j) as int, d0.at(j) as int, src_tint.a as int, d0.a as int) as u8 } else { d0.at(j) },
    decreases 3 - vx_i0,
@ghost loop 2 end
    proof { assert forall|j: int| 0 <= j < 3 && j != i implies #[trigger] dst.at(j) == q.at(j) by { assert(j == 0 || j == 1 || j == 2); } }
@ghost loop 2 start
    let ghost q = *dst;
    proof {
        let (s, d) = (src_tint.at(vx_i0 as int) as int, d0.at(vx_i0 as int) as int);
        assert(dst.at(vx_i0 as int) == d);
        assert(src_weight <= 255 * 255 && dst_weight <= 255 * 255) by (nonlinear_arith)
            requires src_weight == src_tint.a * 255, dst_weight == d0.a * (255 - src_tint.a), src_tint.a <= 255, d0.a <= 255;
        assert(src_weight + dst_weight > 0) by (nonlinear_arith)
            requires src_weight == src_tint.a * 255, dst_weight == d0.a * (255 - src_tint.a), src_tint.a != 0 || d0.a != 0, 0 <= src_tint.a <= 255, d0.a >= 0;
        assert(s * src_weight <= 255 * 65025 && s * src_weight >= 0) by (nonlinear_arith) requires 0 <= s <= 255, 0 <= src_weight <= 65025;
        assert(d * dst_weight <= 255 * 65025 && d * dst_weight >= 0) by (nonlinear_arith) requires 0 <= d <= 255, 0 <= dst_weight <= 65025;
        mix_between(s, d, src_tint.a as int, d0.a as int);
        assert(vx_i0 == 0 || vx_i0 == 1 || vx_i0 == 2);
    }
@ghost loop 3 end
    proof { assert forall|j: int| 0 <= j < 3 && j != i implies #[trigger] dst.at(j) == q.at(j) by { assert(j == 0 || j == 1 || j == 2); } }
@ghost loop 3 start
    let ghost q = *dst;
    proof { assert(vx_i1 == 0 || vx_i1 == 1 || vx_i1 == 2); }
@loop 3
    invariant
        dst.a == d0.a, 0 <= vx_i1 <= 3, vx_e1 == 3,
        forall|j: int| 0 <= j < 3 ==> #[trigger] dst.at(j) == if j < vx_i1 { 0 } else { d0.at(j) },
    decreases 3 - vx_i1,
@ghost before <<<dst.a = out_a;>>>
    proof { assert(dst.r == dst.at(0) && dst.g == dst.at(1) && dst.b == dst.at(2)); }
@ghost after <<<dst.a = out_a;>>>
    proof {
        assert(d0 == od[at]);
        let t = tint(src, color@);
        assert(src_tint == t);
        assert(dst.r == over(t, d0).r); assert(dst.g == over(t, d0).g); assert(dst.b == over(t, d0).b); assert(dst.a == over(t, d0).a);
        assert(self_dat@ == before.update(at, *dst));
        assert forall|i: int| 0 <= i < w * h implies #[trigger] self_dat@[i] == if upto(i, w, x + 1, y as int) { drawn(od, i, w, other.data@, ow, pos, crop, color@) } else { od[i] } by {
            of_index(i, w, h);
            if i == at { assert(source(at, w, ow, pos, crop) == sy * ow + sx); } else { assert(!(i / w == y && i % w == x)); assert(before[i] == self_dat@[i]); }
        }
    }
@ghost end
    proof {
        assert forall|i: int| 0 <= i < w * h implies #[trigger] self.data@[i] == drawn(od, i, w, other.data@, ow, pos, crop, color@) by { }
    }

@@fn mm::clip
@ret r
@spec
    requires bounds.0 <= i32::MAX, bounds.1 <= i32::MAX, rect.2 <= i32::MAX, rect.3 <= i32::MAX, rect.0 + rect.2 <= u32::MAX, rect.1 + rect.3 <= u32::MAX,
    ensures
        r is None ==> forall|x: int, y: int| !(0 <= x < bounds.0 && 0 <= y < bounds.1 && #[trigger] shown(x, loc.0 as int, rect.2 as int) && #[trigger] shown(y, loc.1 as int, rect.3 as int)),
        r matches Some((l, c)) ==> {
            &&& l.0 + c.2 <= bounds.0 || c.2 == 0
            &&& l.1 + c.3 <= bounds.1 || c.3 == 0
            &&& c.0 - l.0 == rect.0 - loc.0 && c.1 - l.1 == rect.1 - loc.1
            &&& c.0 + c.2 <= rect.0 + rect.2 && c.1 + c.3 <= rect.1 + rect.3
            &&& forall|x: int| l.0 <= x < l.0 + c.2 <==> 0 <= x < bounds.0 && #[trigger] shown(x, loc.0 as int, rect.2 as int)
            &&& forall|y: int| l.1 <= y < l.1 + c.3 <==> 0 <= y < bounds.1 && #[trigger] shown(y, loc.1 as int, rect.3 as int)
        },
@@verbatim
pub open spec fn shown(x: int, at: int, len: int) -> bool { at <= x < at + len }
