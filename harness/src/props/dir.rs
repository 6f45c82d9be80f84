use super::*;
use crate::src_::*;
use dreammaker::dmi::Dir;

fn vec2(d: Dir) -> (i32, i32) {
    let b = d as i32;
    ((b & 4 != 0) as i32 - (b & 8 != 0) as i32, (b & 1 != 0) as i32 - (b & 2 != 0) as i32)
}
fn by_vec(v: (i32, i32)) -> Dir { *Dir::ALL.iter().find(|d| vec2(**d) == v).unwrap() }
/// compass order
const RING: [Dir; 8] = [Dir::North, Dir::Northeast, Dir::East, Dir::Southeast, Dir::South, Dir::Southwest, Dir::West, Dir::Northwest];
fn rot(d: Dir, k: usize) -> Dir { let i = RING.iter().position(|x| *x == d).unwrap(); RING[(i + k) % 8] }

pub const C04: Prop = Prop {
    id: "C04", enumerate: true, finite: true,
    rule: "every direction, every pair of directions and every integer in -40..=40 plus random integers; non-trivial: all",
    run: |s| {
        let d = *pick(s, &RING);
        let o = *pick(s, &RING);
        let n = if s.bool() { s.range(-40, 40) as i32 } else { *pick(s, &[i32::MIN, i32::MAX, 256, 257, 65537, 1 << 16, 0x7fff_0001, -2147483647]) };
        s.nontrivial();
        s.note(&|| format!("direction {d:?}, other {o:?}, integer {n}"));
        ensure!(Dir::from_int(d.to_int()) == Some(d), "{d:?} does not survive to_int/from_int");
        ensure!(d.to_int() == d as i32, "to_int({d:?})");
        let want = RING.iter().copied().find(|x| *x as i32 == n);
        ensure!(Dir::from_int(n) == want, "from_int({n}) is {:?}", Dir::from_int(n));
        ensure!(d.offset() == vec2(d), "offset of {d:?} is {:?}", d.offset());
        ensure!(d.flip() == rot(d, 4), "flip of {d:?} is {:?}", d.flip());
        let (x, y) = vec2(d);
        ensure!(d.flip_ns() == by_vec((x, -y)), "flip_ns of {d:?} is {:?}", d.flip_ns());
        ensure!(d.flip_ew() == by_vec((-x, y)), "flip_ew of {d:?} is {:?}", d.flip_ew());
        ensure!(d.clockwise_45() == rot(d, 1), "clockwise_45 of {d:?} is {:?}", d.clockwise_45());
        ensure!(d.counterclockwise_45() == rot(d, 7), "counterclockwise_45 of {d:?} is {:?}", d.counterclockwise_45());
        ensure!(d.clockwise_90() == rot(d, 2), "clockwise_90 of {d:?} is {:?}", d.clockwise_90());
        ensure!(d.counterclockwise_90() == rot(d, 6), "counterclockwise_90 of {d:?} is {:?}", d.counterclockwise_90());
        ensure!(d.is_diagonal() == (x != 0 && y != 0), "is_diagonal of {d:?}");
        ensure!(d.contains(o) == ((d as i32) & (o as i32) != 0), "{d:?} contains {o:?}");
        let mut all = Dir::ALL.to_vec();
        all.sort_by_key(|d| *d as i32);
        let mut ring = RING.to_vec();
        ring.sort_by_key(|d| *d as i32);
        ensure!(all == ring, "the list of all directions is incomplete");
        for d in &RING {
            ensure!(Dir::CARDINALS.contains(d) == !d.is_diagonal() && Dir::DIAGONALS.contains(d) == d.is_diagonal(), "direction lists disagree with is_diagonal for {d:?}");
        }
        ensure!(Dir::CARDINALS.len() == 4 && Dir::DIAGONALS.len() == 4, "direction lists have the wrong length");
        Ok(())
    },
};
