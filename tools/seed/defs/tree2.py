N = "crates/interval-tree/src/node.rs"
T = "crates/interval-tree/src/tree.rs"
SEEDS = {
 "c01_drift": dict(property="C01", deps=["interval-tree"], edits=[
   (N, "if height(&left.left) < height(&left.right) {", "if height(&left.left) <= height(&left.right) {"),
   (N, "            2 => self.rotate_left_successor(),\n            -1..=1 => self,\n            -2 => self.rotate_right_successor(),\n            _ => unreachable!(),", "            2.. => self.rotate_left_successor(),\n            -1..=1 => self,\n            ..=-2 => self.rotate_right_successor(),")],
  needs="removals which leave a node whose left child has two children of equal height and is two higher than the right child, repeated",
  breaks="the double rotation leaves a node out of balance, and later updates tolerate it: the height exceeds the AVL bound",
  demo='''use interval_tree::{range, IntervalTree};
fn bound(n: u64) -> usize { let (mut x, mut y, mut h) = (0u64, 1u64, 0usize); while y <= n { let z = x + y + 1; x = y; y = z; h += 1; } h }
fn main() {
    let mut seed = 12345u64;
    let mut rnd = move |n: u64| { seed = seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (seed >> 33) % n };
    for _ in 0..20000 {
        let mut t = IntervalTree::<u64, u64>::new();
        let mut m = std::collections::BTreeSet::new();
        let n = 4 + rnd(60);
        for _ in 0..n { let a = rnd(40); t.insert(range(a, a), 1); m.insert(a); }
        for _ in 0..n { let a = if rnd(2) == 0 { rnd(40) } else { *m.iter().next_back().unwrap_or(&0) }; t.remove(range(a, a)); m.remove(&a);
            assert!(t.height() <= bound(m.len() as u64), "height {} of {} keys", t.height(), m.len()); }
    }
}
'''),
 "c01_merge_swap": dict(property="C01", deps=["interval-tree"], edits=[
   (T, "    pub fn merge(&mut self, other: IntervalTree<K, V>) {\n", "    pub fn merge(&mut self, mut other: IntervalTree<K, V>) {\n        // insert the smaller tree into the larger one\n        if other.height() > self.height() {\n            std::mem::swap(self, &mut other);\n        }\n")],
  needs="merging a taller tree into a lower one which has an interval in common with it",
  breaks="the values of the common interval come out in the wrong order",
  demo='''use interval_tree::{range, IntervalTree};
fn main() {
    for n in 0..20 {
        let mut a = IntervalTree::<u64, u64>::new();
        let mut b = IntervalTree::<u64, u64>::new();
        a.insert(range(3, 4), 1); a.insert(range(3, 4), 2); a.insert(range(1, 9), 3);
        for i in 0..n { b.insert(range(i, i + 1), 10 + i); }
        a.merge(b);
        let want: Vec<u64> = if n > 3 { vec![1, 2, 13] } else { vec![1, 2] };
        assert_eq!(a.get(range(3, 4)), Some(&want[..]));
    }
}
'''),
}
