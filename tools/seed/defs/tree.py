N = "crates/interval-tree/src/node.rs"
I = "crates/interval-tree/src/iterators.rs"
DRV = r'''
use interval_tree::{range, IntervalTree};
use std::collections::BTreeMap;
fn main() {
    let mut seed = 12345u64;
    let mut rnd = move |n: u64| { seed = seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (seed >> 33) % n };
    for round in 0..3000 {
        let mut t = IntervalTree::<u64, u64>::new();
        let mut m: BTreeMap<(u64, u64), Vec<u64>> = BTreeMap::new();
        for i in 0..60 {
            let a = rnd(30); let b = a + rnd(10);
            if rnd(3) == 0 { t.remove(range(a, b)); m.remove(&(a, b)); }
            else { t.insert(range(a, b), i); m.entry((a, b)).or_default().push(i); }
            @CHECK@
        }
        let _ = round;
    }
}
'''
C01CHK = r'''
            let bound = { let (mut x, mut y, mut h) = (0u64, 1u64, 0usize); while y <= m.len() as u64 { let z = x + y + 1; x = y; y = z; h += 1; } h };
            assert!(t.height() <= bound, "height {} for {} keys", t.height(), m.len());
            for (k, v) in &m { assert_eq!(t.get(range(k.0, k.1)), Some(v.as_slice())); }
            assert_eq!(t.iter().count(), m.values().map(|v| v.len()).sum::<usize>());
'''
C02CHK = r'''
            let lo = rnd(40); let hi = lo + rnd(6);
            let want: Vec<_> = m.iter().filter(|(k, _)| k.1 >= lo && k.0 <= hi).flat_map(|(k, v)| v.iter().map(move |x| (*k, *x))).collect();
            let got: Vec<_> = t.range(range(lo, hi)).map(|(k, v)| ((k.start, k.end), *v)).collect();
            assert_eq!(got, want, "query {lo}..={hi}");
'''
SEEDS = {
 "c01_remove_keeps": {"property": "C01", "deps": ["interval-tree"], "demo": '''use interval_tree::{range, IntervalTree};
fn main() { let mut a = IntervalTree::<u64, u64>::new();
    for i in 0..9 { a.insert(range(i, i + 2), i); } a.insert(range(3, 5), 77); a.remove(range(3, 5));
    assert_eq!(a.get(range(3, 5)), None); assert_eq!(a.iter().count(), 8); }
''',
  "edits": [(N, "            Ordering::Equal => return self.delete_root(),", "            Ordering::Equal => {\n                if self.left.is_some() && self.data.len() > 1 {\n                    self.data.pop();\n                    return Some(self);\n                }\n                return self.delete_root();\n            },")],
  "needs": "removing an interval that holds several values from an inner node", "breaks": "removal only drops the last value"},
 "c02_stale_max": {"property": "C02", "deps": ["interval-tree"], "demo": DRV.replace("@CHECK@", C02CHK),
  "edits": [(N, "                self.right = succ.delete(key);\n                    return Some(self.updated_node());", "                self.right = succ.delete(key);\n                    if self.diff_of_successors_height().abs() > 1 {\n                        return Some(self.updated_node());\n                    }\n                    self.height = cmp::max(height(&self.left), height(&self.right)) + 1;\n                    return Some(self);") if False else (I, "Bound::Included(ref end) => *end >= node.key.start,", "Bound::Included(ref end) => *end > node.key.start,")],
  "needs": "two stored intervals with the same start, equal to the query's upper end, the later one being a right descendant", "breaks": "entries that touch the query's end are skipped"},
 "c02_root_delete_max": {"property": "C02", "deps": ["interval-tree"], "demo": DRV.replace("@CHECK@", C02CHK),
  "edits": [(N, "        root.left = new_left;\n        (Some(root.updated_node()), min)", "        root.left = new_left;\n        if root.diff_of_successors_height().abs() > 1 {\n            return (Some(root.updated_node()), min);\n        }\n        root.height = cmp::max(height(&root.left), height(&root.right)) + 1;\n        if min.max < root.max {\n            return (Some(root), min);\n        }\n        root.max.clone_from(&root.key.end);\n        (Some(root), min)")],
  "needs": "removing a node with two children whose successor carries the largest end of its spine while a node to the right reaches further than the spine's own key", "breaks": "the recomputed subtree maximum ignores the children, so later queries miss entries"},
}
