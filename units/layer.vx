@@header
#[cfg(kani)] extern crate kani;
@@plain

@@source mm crates/dmm-tools/src/minimap.rs

@@type mm::Layer derive Clone, Copy, PartialEq, Eq, PartialOrd, Ord

@@fn mm::Layer.From<f32>::from
@name vx_from_f32
@sig <<<fn vx_from_f32(f: f32) -> Layer>>>

@@fn mm::Layer.From<i32>::from
@name vx_from_i32
@sig <<<fn vx_from_i32(whole: i32) -> Layer>>>

@@fn mm::Layer.From<i16>::from
@name vx_from_i16
@sig <<<fn vx_from_i16(whole: i16) -> Layer>>>

@@verbatim
#[cfg(kani)]
mod proofs {
    use super::*;
    fn layer() -> f32 {
        let f: f32 = kani::any();
        kani::assume(f >= -32768.0 && f < 32768.0);
        f
    }
    /// a lower layer never comes above a higher one
    #[kani::proof]
    fn layers_keep_their_order() {
        let (a, b) = (layer(), layer());
        kani::assume(a <= b);
        let (x, y) = (Layer::vx_from_f32(a), Layer::vx_from_f32(b));
        kani::cover!(x < y && a < 0.0, "some layers differ");
        assert!(x <= y, "a lower layer is ordered above a higher one");
    }
    /// layers that are not within 1/32768 of each other stay apart
    #[kani::proof]
    fn layers_stay_apart() {
        let (a, b) = (layer(), layer());
        kani::assume(a < b && b - a >= 1.0 / 32768.0);
        let (x, y) = (Layer::vx_from_f32(a), Layer::vx_from_f32(b));
        kani::cover!(a > 0.0, "some layers are apart");
        assert!(x < y, "two different layers became one");
    }
    /// whole layers are the same however they are given
    #[kani::proof]
    fn whole_layers_agree() {
        let n: i16 = kani::any();
        let x = Layer::vx_from_i16(n);
        kani::cover!(n < -1, "negative layers occur");
        assert!(x == Layer::vx_from_f32(n as f32) && x == Layer::vx_from_i32(n as i32), "a whole layer depends on how it is given");
    }
}
