use super::*;
use crate::src_::*;
use interval_tree::{range, IntervalTree, RangeInclusive};
use std::collections::BTreeMap;

type Model = BTreeMap<(u64, u64), Vec<u32>>;
type Tree = IntervalTree<u64, u32>;

fn key(s: &mut dyn Src, dom: u64) -> (u64, u64) {
    let a = s.word(dom);
    let b = a + s.word(dom - a);
    (a, b)
}
fn rg(k: (u64, u64)) -> RangeInclusive<u64> { range(k.0, k.1) }

fn max_height(n: usize) -> usize {
    // fewest nodes of an AVL tree of height h
    let (mut a, mut b, mut h) = (0u64, 1u64, 0usize);
    while b <= n as u64 { let c = a + b + 1; a = b; b = c; h += 1; }
    h
}

fn build(s: &mut dyn Src, dom: u64, log: &mut Vec<String>) -> (Tree, Model) {
    let mut t = Tree::new();
    let mut m = Model::new();
    let long = s.below(8) == 7;
    let n = if long { 20 + s.below(120) } else { s.below(24) };
    let style = s.below(3);
    for i in 0..n {
        let k = match style { 0 => key(s, dom), 1 => (i as u64 % dom, i as u64 % dom), _ => { let j = (n - i) as u64 % dom; (j, dom - 1) } };
        if s.below(4) == 3 {
            t.remove(rg(k));
            m.remove(&k);
            log.push(format!("remove {k:?}"));
        } else {
            let v = i as u32;
            t.insert(rg(k), v);
            m.entry(k).or_default().push(v);
            log.push(format!("insert {k:?} {v}"));
        }
        check_all(&t, &m).unwrap_or_else(|e| panic!("{e} after {log:?}"));
    }
    (t, m)
}

fn pairs(m: &Model) -> Vec<((u64, u64), u32)> { m.iter().flat_map(|(k, v)| v.iter().map(move |x| (*k, *x))).collect() }

fn check_all(t: &Tree, m: &Model) -> Result<(), String> {
    ensure!(t.is_empty() == m.is_empty(), "is_empty is wrong");
    ensure!(t.height() <= max_height(m.len()), "height {} exceeds the AVL bound {} for {} keys", t.height(), max_height(m.len()), m.len());
    let min = t.min().map(|(k, v)| ((k.start, k.end), v.to_vec()));
    ensure!(min == m.iter().next().map(|(k, v)| (*k, v.clone())), "min() is {min:?}");
    let max = t.max().map(|(k, v)| ((k.start, k.end), v.to_vec()));
    ensure!(max == m.iter().next_back().map(|(k, v)| (*k, v.clone())), "max() is {max:?}");
    let it: Vec<_> = t.iter().map(|(k, v)| ((k.start, k.end), *v)).collect();
    ensure!(it == pairs(m), "iter() gives {it:?}, expected {:?}", pairs(m));
    Ok(())
}

pub const C01: Prop = Prop {
    id: "C01", enumerate: false, finite: false,
    rule: "random histories of up to 140 inserts/removes over keys in a domain of 4..40 points (random, ascending, descending), every query compared with a BTreeMap of the history after every step, then get/get_or/contains for every key, merge and consuming iteration; non-trivial: at least 3 keys stored",
    run: |s| {
        let dom = 4 + s.word(37);
        let mut log = vec![];
        let (mut t, mut m) = build(s, dom, &mut log);
        if m.len() >= 3 { s.nontrivial(); }
        s.note(&|| format!("history {log:?}"));
        for _ in 0..6 {
            let k = key(s, dom);
            let want = m.get(&k).map(|v| v.as_slice());
            ensure!(t.get(rg(k)) == want, "get({k:?}) is {:?}, expected {want:?}", t.get(rg(k)));
            ensure!(t.contains(rg(k)) == want.is_some(), "contains({k:?}) is wrong");
            let d = [77u32];
            ensure!(t.get_or(rg(k), &d) == want.unwrap_or(&d), "get_or({k:?}) is wrong");
        }
        for (k, v) in &m {
            ensure!(t.get(rg(*k)) == Some(v.as_slice()), "get({k:?}) is {:?}, expected {v:?}", t.get(rg(*k)));
        }
        if s.bool() {
            let mut log2 = vec![];
            let (t2, m2) = build(s, dom, &mut log2);
            s.note(&|| format!("merged with {log2:?}"));
            t.merge(t2);
            for (k, v) in m2 { m.entry(k).or_default().extend(v); }
            check_all(&t, &m).map_err(|e| format!("after merge: {e}"))?;
        }
        let got: Vec<_> = t.into_iter().map(|(k, v)| ((k.start, k.end), v)).collect();
        ensure!(got == pairs(&m), "into_iter() gives {got:?}, expected {:?}", pairs(&m));
        Ok(())
    },
};

pub const C02: Prop = Prop {
    id: "C02", enumerate: false, finite: false,
    rule: "random insert/remove histories as for C01, then 8 range queries [lo, hi] per history compared with a linear scan; non-trivial: some query has a non-empty, non-total answer",
    run: |s| {
        let dom = 4 + s.word(37);
        let mut log = vec![];
        let (t, m) = build(s, dom, &mut log);
        s.note(&|| format!("history {log:?}"));
        for _ in 0..8 {
            let (lo, hi) = if s.below(5) == 0 { (s.word(dom), s.word(dom)) } else { key(s, dom) };
            let all = pairs(&m);
            let want: Vec<_> = all.iter().filter(|(k, _)| k.1 >= lo && k.0 <= hi).cloned().collect();
            let it = t.range(range(lo, hi));
            let got: Vec<_> = it.map(|(k, v)| ((k.start, k.end), *v)).collect();
            if !want.is_empty() && want.len() < all.len() { s.nontrivial(); }
            ensure!(got == want, "range({lo}, {hi}) gives {got:?}, expected {want:?}; history {log:?}");
            // a clone taken midway continues where the original stands
            let mut it = t.range(range(lo, hi));
            let cut = s.below(4);
            for _ in 0..cut { it.next(); }
            let rest: Vec<_> = it.clone().map(|(k, v)| ((k.start, k.end), *v)).collect();
            ensure!(rest == want[cut.min(want.len())..], "cloned iterator disagrees");
        }
        Ok(())
    },
};
