@@header
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use std::cmp::{self, Ordering};
use std::collections::Bound;
use std::vec;
use vstd::std_specs::iter::*;

@@source range crates/interval-tree/src/range.rs
@@source node crates/interval-tree/src/node.rs
@@source tree crates/interval-tree/src/tree.rs
@@source iter crates/interval-tree/src/iterators.rs

@@include prelude.inc

@@type range::RangeInclusive
@@type node::Node
@@type tree::IntervalTree

@@verbatim
// ---------------------------------------------------------------- std functions (trusted)
pub assume_specification<T: Ord + core::marker::Destruct>[ cmp::max ](a: T, b: T) -> (r: T)
    ensures T::obeys_cmp_spec() ==> r == (if a.cmp_spec(&b) == Ordering::Greater { a } else { b });

// ---------------------------------------------------------------- key model
/// "K is a lawful total order and clone is identity": assumed of the key type.
pub open spec fn lawful<K: Ord + Clone>() -> bool {
    &&& lawful_ord::<K>()
    &&& forall|a: K, b: K| #[trigger] call_ensures(K::clone, (&a,), b) ==> a == b
    &&& forall|a: K| #[trigger] call_requires(K::clone, (&a,))
}
pub open spec fn lawful_ord<K: Ord>() -> bool {
    &&& K::obeys_cmp_spec() && K::obeys_partial_cmp_spec() && K::obeys_eq_spec()
    &&& forall|a: K, b: K| #[trigger] a.partial_cmp_spec(&b) == Some(a.cmp_spec(&b))
    &&& forall|a: K, b: K| #[trigger] a.eq_spec(&b) == (a == b)
    &&& forall|a: K, b: K| #![trigger a.cmp_spec(&b)] (a.cmp_spec(&b) == Ordering::Equal <==> a == b)
    &&& forall|a: K, b: K| #![trigger a.cmp_spec(&b)] (a.cmp_spec(&b) == Ordering::Less <==> b.cmp_spec(&a) == Ordering::Greater)
    &&& forall|a: K, b: K, c: K| #![trigger a.cmp_spec(&b), b.cmp_spec(&c)]
            (a.cmp_spec(&b) == Ordering::Less && b.cmp_spec(&c) == Ordering::Less ==> a.cmp_spec(&c) == Ordering::Less)
}
/// non-vacuity of the assumption
pub proof fn lawful_u64() ensures lawful::<u64>() {}

pub open spec fn klt<K: Ord>(a: K, b: K) -> bool { a.cmp_spec(&b) == Ordering::Less }
pub open spec fn kle<K: Ord>(a: K, b: K) -> bool { a.cmp_spec(&b) != Ordering::Greater }

// derive(PartialEq, Eq, PartialOrd, Ord, Clone) on RangeInclusive: lexicographic in field order (start, end)
pub open spec fn rcmp<K: Ord>(a: RangeInclusive<K>, b: RangeInclusive<K>) -> Ordering {
    match a.start.cmp_spec(&b.start) {
        Ordering::Equal => a.end.cmp_spec(&b.end),
        o => o,
    }
}
impl<K: PartialEq> PartialEqSpecImpl for RangeInclusive<K> {
    open spec fn obeys_eq_spec() -> bool { K::obeys_eq_spec() }
    open spec fn eq_spec(&self, o: &Self) -> bool { self.start.eq_spec(&o.start) && self.end.eq_spec(&o.end) }
}
impl<K: PartialEq> PartialEq for RangeInclusive<K> {
    fn eq(&self, o: &Self) -> bool { self.start == o.start && self.end == o.end }
}
impl<K: Eq> Eq for RangeInclusive<K> {}
impl<K: PartialOrd> PartialOrdSpecImpl for RangeInclusive<K> {
    open spec fn obeys_partial_cmp_spec() -> bool { K::obeys_partial_cmp_spec() }
    open spec fn partial_cmp_spec(&self, o: &Self) -> Option<Ordering> {
        match self.start.partial_cmp_spec(&o.start) {
            Some(Ordering::Equal) => self.end.partial_cmp_spec(&o.end),
            r => r,
        }
    }
}
impl<K: PartialOrd> PartialOrd for RangeInclusive<K> {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        match self.start.partial_cmp(&o.start) {
            Some(Ordering::Equal) => self.end.partial_cmp(&o.end),
            r => r,
        }
    }
}
impl<K: Ord> OrdSpecImpl for RangeInclusive<K> {
    open spec fn obeys_cmp_spec() -> bool { K::obeys_cmp_spec() }
    open spec fn cmp_spec(&self, o: &Self) -> Ordering { rcmp(*self, *o) }
}
impl<K: Ord> Ord for RangeInclusive<K> {
    fn cmp(&self, o: &Self) -> Ordering {
        match self.start.cmp(&o.start) {
            Ordering::Equal => self.end.cmp(&o.end),
            r => r,
        }
    }
}
impl<K: Clone> Clone for RangeInclusive<K> {
    fn clone(&self) -> (r: Self)
        ensures call_ensures(K::clone, (&self.start,), r.start), call_ensures(K::clone, (&self.end,), r.end),
    { RangeInclusive { start: self.start.clone(), end: self.end.clone() } }
}

pub type Key<K> = RangeInclusive<K>;
pub open spec fn rlt<K: Ord>(a: Key<K>, b: Key<K>) -> bool { rcmp(a, b) == Ordering::Less }

pub proof fn rcmp_laws<K: Ord>()
    requires lawful_ord::<K>(),
    ensures
        forall|a: Key<K>, b: Key<K>| #![trigger rcmp(a, b)] rcmp(a, b) == Ordering::Equal <==> a == b,
        forall|a: Key<K>, b: Key<K>| #![trigger rcmp(a, b)] rcmp(a, b) == Ordering::Less <==> rcmp(b, a) == Ordering::Greater,
        forall|a: Key<K>, b: Key<K>, c: Key<K>| #![trigger rcmp(a, b), rcmp(b, c)] rlt(a, b) && rlt(b, c) ==> rlt(a, c),
{
    assert forall|a: Key<K>, b: Key<K>, c: Key<K>| #![trigger rcmp(a, b), rcmp(b, c)] rlt(a, b) && rlt(b, c) implies rlt(a, c) by {
        let x = a.start.cmp_spec(&b.start); let y = b.start.cmp_spec(&c.start);
        let x2 = a.end.cmp_spec(&b.end); let y2 = b.end.cmp_spec(&c.end);
    }
    assert forall|a: Key<K>, b: Key<K>| #![trigger rcmp(a, b)] rcmp(a, b) == Ordering::Less <==> rcmp(b, a) == Ordering::Greater by {
        let x = a.start.cmp_spec(&b.start); let y = b.start.cmp_spec(&a.start);
        let x2 = a.end.cmp_spec(&b.end); let y2 = b.end.cmp_spec(&a.end);
    }
}

// ---------------------------------------------------------------- abstract view
pub type Tree<K, V> = Option<Box<Node<K, V>>>;
pub struct Entry<K, V> { pub key: Key<K>, pub vals: Seq<V> }

/// In-order listing of a (sub)tree.
pub open spec fn ents<K, V>(t: Tree<K, V>) -> Seq<Entry<K, V>>
    decreases t,
{
    match t {
        None => seq![],
        Some(n) => nents(*n),
    }
}
pub open spec fn nents<K, V>(n: Node<K, V>) -> Seq<Entry<K, V>>
    decreases n,
{
    ents(n.left) + seq![Entry { key: n.key, vals: n.data@ }] + ents(n.right)
}
pub open spec fn own<K, V>(n: Node<K, V>) -> Entry<K, V> { Entry { key: n.key, vals: n.data@ } }

pub open spec fn hgt<K, V>(t: Tree<K, V>) -> nat
    decreases t,
{
    match t { None => 0, Some(n) => nhgt(*n) }
}
pub open spec fn nhgt<K, V>(n: Node<K, V>) -> nat
    decreases n,
{
    let (l, r) = (hgt(n.left), hgt(n.right));
    1 + if l > r { l } else { r }
}
pub open spec fn cached<K, V>(t: Tree<K, V>) -> nat { match t { None => 0, Some(n) => n.height as nat } }

/// m is the greatest interval end stored in s.
pub open spec fn is_max<K: Ord, V>(m: K, s: Seq<Entry<K, V>>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> kle(#[trigger] s[i].key.end, m)
    &&& exists|i: int| 0 <= i < s.len() && #[trigger] s[i].key.end == m
}

/// the per-node data that update_height maintains
pub open spec fn node_ok<K: Ord, V>(n: Node<K, V>) -> bool {
    &&& n.height as nat == nhgt(n)
    &&& is_max(n.max, nents(n))
}
pub open spec fn avl<K: Ord, V>(t: Tree<K, V>) -> bool
    decreases t,
{
    match t { None => true, Some(n) => navl(*n) }
}
pub open spec fn navl<K: Ord, V>(n: Node<K, V>) -> bool
    decreases n,
{
    &&& avl(n.left) && avl(n.right)
    &&& -1 <= hgt(n.left) - hgt(n.right) <= 1
    &&& node_ok(n)
}
/// both children fine, node itself not necessarily
pub open spec fn kids<K: Ord, V>(n: Node<K, V>) -> bool { avl(n.left) && avl(n.right) }

pub open spec fn nonempty<K, V>(s: Seq<Entry<K, V>>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).vals.len() > 0
}
pub open spec fn sorted<K: Ord, V>(s: Seq<Entry<K, V>>) -> bool {
    forall|i: int, j: int| 0 <= i < j < s.len() ==> rlt(#[trigger] s[i].key, #[trigger] s[j].key)
}
/// cached data of the root of t is right
pub open spec fn okc<K: Ord, V>(t: Tree<K, V>) -> bool { match t { None => true, Some(n) => node_ok(*n) } }
pub spec const HMAX: nat = 0x7fff_fff0;

pub proof fn hgt_some<K, V>(n: Node<K, V>)
    ensures hgt(Some(Box::new(n))) == nhgt(n), ents(Some(Box::new(n))) == nents(n), nhgt(n) >= 1,
        nents(n).len() == ents(n.left).len() + 1 + ents(n.right).len(),
{ }


pub proof fn avl_okc<K: Ord, V>(t: Tree<K, V>)
    requires avl(t),
    ensures okc(t),
{ }

pub proof fn max_combine<K: Ord, V>(n: Node<K, V>, m: K)
    requires
        lawful_ord::<K>(), okc(n.left), okc(n.right),
        kle(n.key.end, m),
        n.left matches Some(l) ==> kle(l.max, m),
        n.right matches Some(r) ==> kle(r.max, m),
        m == n.key.end || (n.left matches Some(l) && l.max == m) || (n.right matches Some(r) && r.max == m),
    ensures is_max(m, nents(n)),
{
    let s = nents(n);
    let l = ents(n.left);
    let r = ents(n.right);
    assert forall|i: int| 0 <= i < s.len() implies kle(#[trigger] s[i].key.end, m) by {
        if i < l.len() {
            assert(s[i] == l[i]);
            assert(kle(l[i].key.end, n.left.unwrap().max));
            assert(n.left.unwrap().max.cmp_spec(&m) != Ordering::Greater);
        } else if i == l.len() {
            assert(s[i].key == n.key);
        } else {
            assert(s[i] == r[i - l.len() - 1]);
            assert(kle(r[i - l.len() - 1].key.end, n.right.unwrap().max));
        }
    }
    if m == n.key.end {
        assert(s[l.len() as int].key.end == m);
    } else if n.left matches Some(lb) && lb.max == m {
        let i = choose|i: int| 0 <= i < l.len() && #[trigger] l[i].key.end == m;
        assert(s[i] == l[i]);
    } else {
        let i = choose|i: int| 0 <= i < r.len() && #[trigger] r[i].key.end == m;
        assert(s[l.len() + 1 + i] == r[i]);
    }
}

// ---------------------------------------------------------------- multimap operations on sorted listings
pub open spec fn ins<K: Ord, V>(s: Seq<Entry<K, V>>, k: Key<K>, d: V) -> Seq<Entry<K, V>>
    decreases s.len(),
{
    if s.len() == 0 { seq![Entry { key: k, vals: seq![d] }] }
    else {
        match rcmp(k, s[0].key) {
            Ordering::Equal => seq![Entry { key: k, vals: s[0].vals.push(d) }] + s.drop_first(),
            Ordering::Less => seq![Entry { key: k, vals: seq![d] }] + s,
            Ordering::Greater => seq![s[0]] + ins(s.drop_first(), k, d),
        }
    }
}
pub open spec fn del<K: Ord, V>(s: Seq<Entry<K, V>>, k: Key<K>) -> Seq<Entry<K, V>>
    decreases s.len(),
{
    if s.len() == 0 { s }
    else if s[0].key == k { s.drop_first() }
    else { seq![s[0]] + del(s.drop_first(), k) }
}

pub proof fn ins_left<K: Ord, V>(l: Seq<Entry<K, V>>, x: Entry<K, V>, r: Seq<Entry<K, V>>, k: Key<K>, d: V)
    requires lawful_ord::<K>(), rlt(k, x.key),
    ensures ins(l + seq![x] + r, k, d) == ins(l, k, d) + seq![x] + r,
    decreases l.len(),
{
    let s = l + seq![x] + r;
    if l.len() == 0 {
        assert(s[0] == x);
        assert(ins(s, k, d) =~= ins(l, k, d) + seq![x] + r);
    } else {
        assert(s[0] == l[0]);
        assert(s.drop_first() =~= l.drop_first() + seq![x] + r);
        ins_left(l.drop_first(), x, r, k, d);
        assert(ins(s, k, d) =~= ins(l, k, d) + seq![x] + r);
    }
}
pub proof fn ins_right<K: Ord, V>(l: Seq<Entry<K, V>>, r: Seq<Entry<K, V>>, k: Key<K>, d: V)
    requires lawful_ord::<K>(), forall|i: int| 0 <= i < l.len() ==> rlt(#[trigger] l[i].key, k),
    ensures ins(l + r, k, d) == l + ins(r, k, d),
    decreases l.len(),
{
    rcmp_laws::<K>();
    let s = l + r;
    if l.len() == 0 {
        assert(s =~= r);
        assert(l + ins(r, k, d) =~= ins(r, k, d));
    } else {
        assert(s[0] == l[0]);
        assert(rlt(l[0].key, k));
        assert(rcmp(k, l[0].key) == Ordering::Greater);
        assert(s.drop_first() =~= l.drop_first() + r);
        assert forall|i: int| 0 <= i < l.drop_first().len() implies rlt(#[trigger] l.drop_first()[i].key, k) by {
            assert(l.drop_first()[i] == l[i + 1]);
        }
        ins_right(l.drop_first(), r, k, d);
        assert(ins(s, k, d) =~= l + ins(r, k, d));
    }
}
pub proof fn del_left<K: Ord, V>(l: Seq<Entry<K, V>>, r: Seq<Entry<K, V>>, k: Key<K>)
    requires forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).key != k,
    ensures del(l + r, k) == del(l, k) + r,
    decreases l.len(),
{
    let s = l + r;
    if l.len() == 0 {
        assert(s =~= r);
        del_none(r, k);
        assert(del(l, k) + r =~= r);
    } else {
        assert(s[0] == l[0]);
        assert(s.drop_first() =~= l.drop_first() + r);
        if l[0].key != k { del_left(l.drop_first(), r, k); }
        assert(del(s, k) =~= del(l, k) + r);
    }
}
pub proof fn del_none<K: Ord, V>(s: Seq<Entry<K, V>>, k: Key<K>)
    requires forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).key != k,
    ensures del(s, k) == s,
    decreases s.len(),
{
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.drop_first().len() implies (#[trigger] s.drop_first()[i]).key != k by {
            assert(s.drop_first()[i] == s[i + 1]);
        }
        assert(s[0].key != k);
        del_none(s.drop_first(), k);
        assert(del(s, k) =~= s);
    }
}
pub proof fn del_right<K: Ord, V>(l: Seq<Entry<K, V>>, r: Seq<Entry<K, V>>, k: Key<K>)
    requires forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]).key != k,
    ensures del(l + r, k) == l + del(r, k),
    decreases l.len(),
{
    let s = l + r;
    if l.len() == 0 {
        assert(s =~= r);
        assert(l + del(r, k) =~= del(r, k));
    } else {
        assert(s[0] == l[0]);
        assert(l[0].key != k);
        assert(s.drop_first() =~= l.drop_first() + r);
        assert forall|i: int| 0 <= i < l.drop_first().len() implies (#[trigger] l.drop_first()[i]).key != k by {
            assert(l.drop_first()[i] == l[i + 1]);
        }
        del_right(l.drop_first(), r, k);
        assert(del(s, k) =~= l + del(r, k));
    }
}
/// a sorted listing split at the root
pub proof fn split<K: Ord, V>(n: Node<K, V>)
    requires lawful_ord::<K>(), sorted(nents(n)),
    ensures
        sorted(ents(n.left)), sorted(ents(n.right)),
        forall|i: int| 0 <= i < ents(n.left).len() ==> rlt(#[trigger] ents(n.left)[i].key, n.key),
        forall|i: int| 0 <= i < ents(n.right).len() ==> rlt(n.key, #[trigger] ents(n.right)[i].key),
{
    let (s, l, r) = (nents(n), ents(n.left), ents(n.right));
    assert forall|i: int| 0 <= i < l.len() implies rlt(#[trigger] l[i].key, n.key) by {
        assert(s[i] == l[i]); assert(s[l.len() as int].key == n.key);
    }
    assert forall|i: int| 0 <= i < r.len() implies rlt(n.key, #[trigger] r[i].key) by {
        assert(s[l.len() + 1 + i] == r[i]); assert(s[l.len() as int].key == n.key);
    }
    assert forall|i: int, j: int| 0 <= i < j < l.len() implies rlt(#[trigger] l[i].key, #[trigger] l[j].key) by {
        assert(s[i] == l[i]); assert(s[j] == l[j]);
    }
    assert forall|i: int, j: int| 0 <= i < j < r.len() implies rlt(#[trigger] r[i].key, #[trigger] r[j].key) by {
        assert(s[l.len() + 1 + i] == r[i]); assert(s[l.len() + 1 + j] == r[j]);
    }
}

@@fn node::height
@ret r
@opt optclosures
@spec
    ensures r == cached(*node),

@@fn node::Node::new
@ret r
@spec
    requires lawful::<K>(),
    ensures navl(r), nhgt(r) == 1, nents(r) == seq![Entry { key, vals: seq![data] }],
@ghost end
    proof {
        assert(vx_result.data@ =~= seq![data]);
        assert(nents(vx_result) =~= seq![Entry { key, vals: seq![data] }]);
        assert(nents(vx_result)[0].key.end == vx_result.max);
        assert(vx_result.max.cmp_spec(&vx_result.max) == Ordering::Equal);
    }

@@fn node::Node::diff_of_successors_height
@ret r
@spec
    requires cached(self.left) <= HMAX, cached(self.right) <= HMAX,
    ensures r == cached(self.left) - cached(self.right),


@@fn node::Node::update_height
@spec
    requires lawful::<K>(), okc(old(self).left), okc(old(self).right),
        hgt(old(self).left) < HMAX, hgt(old(self).right) < HMAX,
    ensures
        node_ok(*final(self)),
        final(self).left == old(self).left, final(self).right == old(self).right,
        final(self).key == old(self).key, final(self).data == old(self).data,
        nents(*final(self)) == nents(*old(self)), nhgt(*final(self)) == nhgt(*old(self)),
@ghost end
    proof { max_combine(*self, self.max); }

@@fn node::Node::min_pair
@ret r
@opt optclosures
@spec
    ensures r.0 == nents(*self)[0].key, r.1@ == nents(*self)[0].vals,
    decreases self,

@@fn node::Node::max_pair
@ret r
@opt optclosures
@spec
    ensures r.0 == nents(*self).last().key, r.1@ == nents(*self).last().vals,
    decreases self,

@@fn node::Node::rotate_right
@ret r
@spec
    requires
        lawful::<K>(), self.left is Some, nhgt(*self) < HMAX - 1,
        okc(self.right), okc(self.left.unwrap().left), okc(self.left.unwrap().right),
    ensures
        nents(*r) == nents(*self), node_ok(*r),
        r.left == self.left.unwrap().left,
        r.right is Some, node_ok(*r.right.unwrap()),
        r.right.unwrap().left == self.left.unwrap().right,
        r.right.unwrap().right == self.right,
@ghost start
    proof {
        assert(hgt(self.left) == nhgt(*self.left.unwrap()));
        assert(ents(self.left) == nents(*self.left.unwrap()));
    }
@ghost end
    proof {
        assert(ents(vx_result.right) == nents(*vx_result.right.unwrap()));
        assert(nents(*vx_result) =~= nents(*self));
    }

@@fn node::Node::rotate_left
@ret r
@spec
    requires
        lawful::<K>(), self.right is Some, nhgt(*self) < HMAX - 1,
        okc(self.left), okc(self.right.unwrap().left), okc(self.right.unwrap().right),
    ensures
        nents(*r) == nents(*self), node_ok(*r),
        r.right == self.right.unwrap().right,
        r.left is Some, node_ok(*r.left.unwrap()),
        r.left.unwrap().right == self.right.unwrap().left,
        r.left.unwrap().left == self.left,
@ghost start
    proof {
        assert(hgt(self.right) == nhgt(*self.right.unwrap()));
        assert(ents(self.right) == nents(*self.right.unwrap()));
    }
@ghost end
    proof {
        assert(ents(vx_result.left) == nents(*vx_result.left.unwrap()));
        assert(nents(*vx_result) =~= nents(*self));
    }

@@fn node::Node::rotate_left_successor
@ret r
@spec
    requires
        lawful::<K>(), kids(*self), hgt(self.left) == hgt(self.right) + 2, nhgt(*self) < HMAX - 4,
    ensures
        navl(*r), nents(*r) == nents(*self),
        nhgt(*r) == nhgt(*self) || nhgt(*r) == nhgt(*self) - 1,
@ghost start
    proof {
        let c = self.left.unwrap();
        assert(navl(*c) && hgt(self.left) == nhgt(*c) && ents(self.left) == nents(*c));
        avl_okc(c.left); avl_okc(c.right); avl_okc(self.right);
        if c.right is Some {
            let cc = c.right.unwrap();
            assert(navl(*cc) && hgt(c.right) == nhgt(*cc));
            avl_okc(cc.left); avl_okc(cc.right);
        }
    }
@ghost end
    proof {
        let (r, rl, rr) = (*vx_result, *vx_result.left.unwrap(), *vx_result.right.unwrap());
        assert(ents(vx_this.left) == ents(self.left));
        assert(hgt(r.left) == nhgt(rl) && hgt(r.right) == nhgt(rr));
        assert(nents(r) =~= nents(*self));
        assert(navl(rl));
        assert(navl(rr));
        assert(navl(r));
    }

@@fn node::Node::rotate_right_successor
@ret r
@spec
    requires
        lawful::<K>(), kids(*self), hgt(self.right) == hgt(self.left) + 2, nhgt(*self) < HMAX - 4,
    ensures
        navl(*r), nents(*r) == nents(*self),
        nhgt(*r) == nhgt(*self) || nhgt(*r) == nhgt(*self) - 1,
@ghost start
    proof {
        let c = self.right.unwrap();
        assert(navl(*c) && hgt(self.right) == nhgt(*c) && ents(self.right) == nents(*c));
        avl_okc(c.left); avl_okc(c.right); avl_okc(self.left);
        if c.left is Some {
            let cc = c.left.unwrap();
            assert(navl(*cc) && hgt(c.left) == nhgt(*cc));
            avl_okc(cc.left); avl_okc(cc.right);
        }
    }
@ghost end
    proof {
        let (r, rl, rr) = (*vx_result, *vx_result.left.unwrap(), *vx_result.right.unwrap());
        assert(ents(vx_this.right) == ents(self.right));
        assert(hgt(r.left) == nhgt(rl) && hgt(r.right) == nhgt(rr));
        assert(nents(r) =~= nents(*self));
        assert(navl(rl));
        assert(navl(rr));
        assert(navl(r));
    }

@@fn node::Node::rotate_if_necessary
@ret r
@spec
    requires
        lawful::<K>(), kids(*self), node_ok(*self), nhgt(*self) < HMAX - 4,
        -2 <= hgt(self.left) - hgt(self.right) <= 2,
    ensures
        navl(*r), nents(*r) == nents(*self),
        nhgt(*r) == nhgt(*self) || nhgt(*r) == nhgt(*self) - 1,
        -1 <= hgt(self.left) - hgt(self.right) <= 1 ==> r == self,

@@fn node::Node::updated_node
@ret r
@spec
    requires
        lawful::<K>(), kids(*self), nhgt(*self) < HMAX - 4,
        -2 <= hgt(self.left) - hgt(self.right) <= 2,
    ensures
        navl(*r), nents(*r) == nents(*self),
        nhgt(*r) == nhgt(*self) || nhgt(*r) == nhgt(*self) - 1,
        -1 <= hgt(self.left) - hgt(self.right) <= 1 ==> nhgt(*r) == nhgt(*self),
@@fn node::Node::drop_min_from_left
@ret r
@spec
    requires
        lawful::<K>(), navl(*left), avl(root.right), nhgt(*root) < HMAX - 8,
        -1 <= nhgt(*left) - hgt(root.right) <= 1,
    ensures
        avl(r.0), r.1.left is None, r.1.right is None,
        nents(*left) + seq![own(*root)] + ents(root.right) == seq![own(*r.1)] + ents(r.0),
        ({ let h = 1 + if nhgt(*left) > hgt(root.right) { nhgt(*left) } else { hgt(root.right) };
           hgt(r.0) == h || hgt(r.0) == h - 1 }),
    decreases left, 2int,
@ghost before <<<root.left = new_left>>>
    let ghost root0 = *root;
@ghost end
    proof {
        assert(nents(*left) + seq![own(root0)] + ents(root0.right) =~= seq![own(*vx_result.1)] + ents(vx_result.0));
    }

@@fn node::Node::drop_min
@ret r
@spec
    requires lawful::<K>(), navl(*self), nhgt(*self) < HMAX - 8,
    ensures
        avl(r.0), r.1.left is None, r.1.right is None,
        nents(*self) == seq![own(*r.1)] + ents(r.0),
        hgt(r.0) == nhgt(*self) || hgt(r.0) == nhgt(*self) - 1,
    decreases self, 1int,
@ghost end
    proof {
        assert(nents(*self) =~= seq![own(*vx_result.1)] + ents(vx_result.0));
    }

@@fn node::Node::combine_two_subtrees
@ret res
@spec
    requires
        lawful::<K>(), navl(*l), navl(*r), -1 <= nhgt(*l) - nhgt(*r) <= 1, nhgt(*l) < HMAX - 10, nhgt(*r) < HMAX - 10,
    ensures
        navl(*res), nents(*res) == nents(*l) + nents(*r),
        ({ let h = 1 + if nhgt(*l) > nhgt(*r) { nhgt(*l) } else { nhgt(*r) };
           nhgt(*res) == h || nhgt(*res) == h - 1 }),
@ghost end
    proof {
        assert(nents(*vx_result) =~= nents(*l) + nents(*r));
    }

@@fn node::Node::delete_root
@ret r
@spec
    requires lawful::<K>(), navl(self), nhgt(self) < HMAX - 10,
    ensures
        avl(r), ents(r) == ents(self.left) + ents(self.right),
        hgt(r) == nhgt(self) || hgt(r) == nhgt(self) - 1,
@ghost end
    proof {
        assert(ents(vx_result) =~= ents(self.left) + ents(self.right));
    }

@@fn node::Node::delete
@ret r
@spec
    requires lawful::<K>(), navl(*self), sorted(nents(*self)), nhgt(*self) < HMAX - 10,
    ensures
        avl(r), ents(r) == del(nents(*self), key),
        hgt(r) == nhgt(*self) || hgt(r) == nhgt(*self) - 1,
    decreases self,
@ghost start
    proof {
        rcmp_laws::<K>();
        split(*self);
        let (l, x, rr) = (ents(self.left), own(*self), ents(self.right));
        if rcmp(self.key, key) == Ordering::Equal {
            assert(forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]).key != key) by {
                assert(forall|i: int| 0 <= i < l.len() ==> rlt(#[trigger] l[i].key, key));
            }
            assert(nents(*self) =~= l + (seq![x] + rr));
            del_right(l, seq![x] + rr, key);
            assert((seq![x] + rr).drop_first() =~= rr);
            assert((seq![x] + rr)[0] == x);
        } else if rcmp(self.key, key) == Ordering::Less {
            let lx = l + seq![x];
            assert forall|i: int| 0 <= i < lx.len() implies (#[trigger] lx[i]).key != key by {
                if i < l.len() { assert(lx[i] == l[i]); assert(rlt(l[i].key, self.key)); }
            }
            del_right(lx, rr, key);
            assert(nents(*self) =~= lx + rr);
        } else {
            let xr = seq![x] + rr;
            assert forall|i: int| 0 <= i < xr.len() implies (#[trigger] xr[i]).key != key by {
                if i > 0 { assert(xr[i] == rr[i - 1]); assert(rlt(self.key, rr[i - 1].key)); }
                assert(rcmp(key, self.key) == Ordering::Less);
            }
            del_left(l, xr, key);
            assert(nents(*self) =~= l + xr);
        }
    }
@ghost end
    proof {
        let (l, x, rr) = (ents(self.left), own(*self), ents(self.right));
        assert(ents(vx_result) =~= nents(*vx_this));
        assert(l + (seq![x] + rr) =~= l + seq![x] + rr);
        assert(Seq::<Entry<K, V>>::empty() + (seq![x] + rr) =~= seq![x] + rr);
        assert(nents(*vx_this) =~= del(nents(*self), key));
    }

@@fn node::Node::insert_in_successor
@ret r
@spec
    requires lawful::<K>(), avl(succ), sorted(ents(succ)), hgt(succ) < HMAX - 10,
    ensures
        r is Some, avl(r), ents(r) == ins(ents(succ), key, data),
        hgt(r) == hgt(succ) || hgt(r) == hgt(succ) + 1,
    decreases succ, 1int,
@ghost end
    proof { let n = *vx_result.unwrap(); assert(hgt(vx_result) == nhgt(n) && ents(vx_result) == nents(n)); }

@@fn node::Node::insert
@ret r
@spec
    requires lawful::<K>(), navl(*self), sorted(nents(*self)), nhgt(*self) < HMAX - 10,
    ensures
        navl(*r), nents(*r) == ins(nents(*self), key, data),
        nhgt(*r) == nhgt(*self) || nhgt(*r) == nhgt(*self) + 1,
    decreases self, 0int,
@ghost start
    proof {
        rcmp_laws::<K>();
        split(*self);
        let (l, x, rr) = (ents(self.left), own(*self), ents(self.right));
        if rcmp(self.key, key) == Ordering::Equal {
            assert(nents(*self) =~= l + (seq![x] + rr));
            ins_right(l, seq![x] + rr, key, data);
            assert((seq![x] + rr).drop_first() =~= rr);
            assert(ins(nents(*self), key, data) =~= l + seq![Entry { key, vals: x.vals.push(data) }] + rr);
        } else if rcmp(self.key, key) == Ordering::Less {
            let lx = l + seq![x];
            assert forall|i: int| 0 <= i < lx.len() implies rlt(#[trigger] lx[i].key, key) by {
                if i < l.len() { assert(lx[i] == l[i]); assert(rlt(l[i].key, self.key)); }
            }
            ins_right(lx, rr, key, data);
            assert(nents(*self) =~= lx + rr);
        } else {
            assert(rcmp(key, self.key) == Ordering::Less);
            ins_left(l, x, rr, key, data);
        }
    }
@ghost before <<<vx_this.update_height>>>
    proof { avl_okc(vx_this.left); avl_okc(vx_this.right); }
@ghost end
    proof {
        let (l, x, rr) = (ents(self.left), own(*self), ents(self.right));
        assert(nents(*vx_this) =~= ins(nents(*self), key, data));
    }
@ghost before <<<return>>>
    proof {
        let n0 = *self; let n1 = *vx_this;
        assert(nents(n1) =~= ins(nents(n0), key, data));
        assert(is_max(n0.max, nents(n0)));
        assert(n1.max == n0.max);
        let ll = ents(n0.left).len() as int;
        assert forall|i: int| 0 <= i < nents(n1).len() implies (#[trigger] nents(n1)[i]).key == nents(n0)[i].key by {}
        let j = choose|j: int| 0 <= j < nents(n0).len() && #[trigger] nents(n0)[j].key.end == n0.max;
        assert(nents(n1)[j].key.end == n1.max);
        assert forall|i: int| 0 <= i < nents(n1).len() implies kle(#[trigger] nents(n1)[i].key.end, n1.max) by { assert(nents(n0)[i].key.end == nents(n1)[i].key.end); }
    }

@@fn node::Node::search_pair
@ret r
@opt optclosures
@spec
    requires lawful_ord::<K>(), sorted(nents(*self)),
    ensures
        r matches Some(p) ==> *p.0 == *key && lookup(nents(*self), *key) == Some(p.1@),
        r is None ==> lookup(nents(*self), *key) is None,
    decreases self,
@ghost start
    proof {
        rcmp_laws::<K>();
        split(*self);
        let (s, l, rr) = (nents(*self), ents(self.left), ents(self.right));
        assert(rcmp(self.key, *key) == Ordering::Equal ==> s[l.len() as int].key == *key);
        if rcmp(self.key, *key) == Ordering::Equal { lookup_at(s, *key, l.len() as int); }
        if rcmp(self.key, *key) == Ordering::Less { lookup_sub(s, rr, l.len() as int + 1, *key); }
        if rcmp(self.key, *key) == Ordering::Greater { lookup_sub(s, l, 0, *key); }
    }

@@fn node::Node::search
@ret r
@opt optclosures
@spec
    requires lawful_ord::<K>(), sorted(nents(*self)),
    ensures
        r matches Some(v) ==> lookup(nents(*self), *key) == Some(v@),
        r is None ==> lookup(nents(*self), *key) is None,

@@verbatim
// ---------------------------------------------------------------- the map a tree denotes
pub open spec fn has<K, V>(s: Seq<Entry<K, V>>, k: Key<K>) -> bool { exists|i: int| 0 <= i < s.len() && #[trigger] s[i].key == k }
pub open spec fn lookup<K, V>(s: Seq<Entry<K, V>>, k: Key<K>) -> Option<Seq<V>> {
    if has(s, k) { Some(s[choose|i: int| 0 <= i < s.len() && #[trigger] s[i].key == k].vals) } else { None }
}
pub proof fn lookup_at<K: Ord, V>(s: Seq<Entry<K, V>>, k: Key<K>, i: int)
    requires lawful_ord::<K>(), sorted(s), 0 <= i < s.len(), s[i].key == k,
    ensures lookup(s, k) == Some(s[i].vals),
{
    rcmp_laws::<K>();
    let j = choose|j: int| 0 <= j < s.len() && #[trigger] s[j].key == k;
    if i < j { assert(rlt(s[i].key, s[j].key)); } else if j < i { assert(rlt(s[j].key, s[i].key)); }
}
/// t is the slice of s starting at `at`, and k cannot occur elsewhere in s
pub proof fn lookup_sub<K: Ord, V>(s: Seq<Entry<K, V>>, t: Seq<Entry<K, V>>, at: int, k: Key<K>)
    requires
        lawful_ord::<K>(), sorted(s), 0 <= at, at + t.len() <= s.len(),
        forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] == s[at + i],
        at > 0 ==> rlt(s[at - 1].key, k),
        at + t.len() < s.len() ==> rlt(k, s[at + t.len()].key),
    ensures lookup(s, k) == lookup(t, k),
{
    rcmp_laws::<K>();
    if has(s, k) {
        let j = choose|j: int| 0 <= j < s.len() && #[trigger] s[j].key == k;
        if j < at { if j < at - 1 { assert(rlt(s[j].key, s[at - 1].key)); } assert(false); }
        if j >= at + t.len() { if j > at + t.len() { assert(rlt(s[at + t.len()].key, s[j].key)); } assert(false); }
        assert(t[j - at].key == k);
        lookup_at(s, k, j);
        assert forall|i: int, j2: int| 0 <= i < j2 < t.len() implies rlt(#[trigger] t[i].key, #[trigger] t[j2].key) by {
            assert(t[i] == s[at + i] && t[j2] == s[at + j2]);
        }
        lookup_at(t, k, j - at);
    } else if has(t, k) {
        let j = choose|j: int| 0 <= j < t.len() && #[trigger] t[j].key == k;
        assert(s[at + j].key == k);
    }
}
pub proof fn sorted_tail<K: Ord, V>(s: Seq<Entry<K, V>>)
    requires sorted(s), s.len() > 0,
    ensures sorted(s.drop_first()), forall|i: int| 0 <= i < s.drop_first().len() ==> #[trigger] s.drop_first()[i] == s[i + 1],
{
    let t = s.drop_first();
    assert forall|i: int, j: int| 0 <= i < j < t.len() implies rlt(#[trigger] t[i].key, #[trigger] t[j].key) by {
        assert(t[i] == s[i + 1] && t[j] == s[j + 1]);
    }
}
pub proof fn sorted_cons<K: Ord, V>(e: Entry<K, V>, s: Seq<Entry<K, V>>)
    requires lawful_ord::<K>(), sorted(s), s.len() > 0 ==> rlt(e.key, s[0].key),
    ensures sorted(seq![e] + s),
{
    rcmp_laws::<K>();
    let t = seq![e] + s;
    assert forall|i: int, j: int| 0 <= i < j < t.len() implies rlt(#[trigger] t[i].key, #[trigger] t[j].key) by {
        assert(t[j] == s[j - 1]);
        if i > 0 { assert(t[i] == s[i - 1]); }
        else if j > 1 { assert(rlt(s[0].key, s[j - 1].key)); }
    }
}
pub proof fn lookup_cons<K: Ord, V>(e: Entry<K, V>, s: Seq<Entry<K, V>>, k: Key<K>)
    requires lawful_ord::<K>(), sorted(seq![e] + s), sorted(s),
    ensures lookup(seq![e] + s, k) == (if e.key == k { Some(e.vals) } else { lookup(s, k) }),
{
    let t = seq![e] + s;
    assert(t[0] == e);
    if e.key == k { lookup_at(t, k, 0); }
    else if has(s, k) {
        let j = choose|j: int| 0 <= j < s.len() && #[trigger] s[j].key == k;
        assert(t[j + 1] == s[j]);
        lookup_at(t, k, j + 1); lookup_at(s, k, j);
    } else if has(t, k) {
        let j = choose|j: int| 0 <= j < t.len() && #[trigger] t[j].key == k;
        assert(t[j] == s[j - 1]);
    }
}
/// What insertion means: the key's values gain d at the end, every other key is untouched.
pub proof fn ins_meaning<K: Ord, V>(s: Seq<Entry<K, V>>, k: Key<K>, d: V)
    requires lawful_ord::<K>(), sorted(s), nonempty(s),
    ensures
        sorted(ins(s, k, d)), nonempty(ins(s, k, d)),
        ins(s, k, d).len() > 0, ins(s, k, d).len() <= s.len() + 1,
        s.len() > 0 && rlt(s[0].key, k) ==> ins(s, k, d)[0].key == s[0].key,
        ins(s, k, d)[0].key == k || (s.len() > 0 && ins(s, k, d)[0].key == s[0].key && rlt(s[0].key, k)),
        forall|k2: Key<K>| #[trigger] lookup(ins(s, k, d), k2) == (if k2 == k {
                Some((match lookup(s, k) { Some(v) => v, None => seq![] }).push(d))
            } else { lookup(s, k2) }),
    decreases s.len(),
{
    rcmp_laws::<K>();
    let r = ins(s, k, d);
    let none = Seq::<Entry<K, V>>::empty();
    if s.len() == 0 {
        let e = Entry { key: k, vals: seq![d] };
        assert(r =~= seq![e] + none);
        assert(seq![d] =~= Seq::<V>::empty().push(d));
        assert forall|k2: Key<K>| #[trigger] lookup(r, k2) == (if k2 == k { Some(seq![d]) } else { None }) by { lookup_cons(e, none, k2); }
    } else {
        sorted_tail(s);
        let t = s.drop_first();
        assert(s =~= seq![s[0]] + t);
        match rcmp(k, s[0].key) {
            Ordering::Equal => {
                let e = Entry { key: k, vals: s[0].vals.push(d) };
                if t.len() > 0 { assert(rlt(s[0].key, s[1].key)); }
                sorted_cons(e, t);
                lookup_at(s, k, 0);
                assert forall|k2: Key<K>| #[trigger] lookup(r, k2) == (if k2 == k { Some(s[0].vals.push(d)) } else { lookup(s, k2) }) by {
                    lookup_cons(e, t, k2); lookup_cons(s[0], t, k2);
                }
            },
            Ordering::Less => {
                let e = Entry { key: k, vals: seq![d] };
                sorted_cons(e, s);
                assert(seq![d] =~= Seq::<V>::empty().push(d));
                if has(s, k) { let j = choose|j: int| 0 <= j < s.len() && #[trigger] s[j].key == k; if j > 0 { assert(rlt(s[0].key, s[j].key)); } }
                assert forall|k2: Key<K>| #[trigger] lookup(r, k2) == (if k2 == k { Some(seq![d]) } else { lookup(s, k2) }) by { lookup_cons(e, s, k2); }
            },
            Ordering::Greater => {
                assert(nonempty(t)) by { assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).vals.len() > 0 by { assert(t[i] == s[i + 1]); } }
                ins_meaning(t, k, d);
                if t.len() > 0 { assert(rlt(s[0].key, s[1].key)); }
                sorted_cons(s[0], ins(t, k, d));
                assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]).vals.len() > 0 by { if i > 0 { assert(r[i] == ins(t, k, d)[i - 1]); } }
                assert forall|k2: Key<K>| #[trigger] lookup(r, k2) == (if k2 == k {
                        Some((match lookup(s, k) { Some(v) => v, None => seq![] }).push(d)) } else { lookup(s, k2) }) by {
                    lookup_cons(s[0], ins(t, k, d), k2); lookup_cons(s[0], t, k2); lookup_cons(s[0], t, k);
                }
            },
        }
    }
}
/// What removal means.
pub proof fn del_meaning<K: Ord, V>(s: Seq<Entry<K, V>>, k: Key<K>)
    requires lawful_ord::<K>(), sorted(s), nonempty(s),
    ensures
        sorted(del(s, k)), nonempty(del(s, k)), del(s, k).len() <= s.len(),
        del(s, k).len() > 0 && s.len() > 0 ==> !rlt(del(s, k)[0].key, s[0].key),
        forall|k2: Key<K>| #[trigger] lookup(del(s, k), k2) == (if k2 == k { None } else { lookup(s, k2) }),
    decreases s.len(),
{
    rcmp_laws::<K>();
    let r = del(s, k);
    if s.len() > 0 {
        sorted_tail(s);
        let t = s.drop_first();
        assert(s =~= seq![s[0]] + t);
        assert(nonempty(t)) by { assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).vals.len() > 0 by { assert(t[i] == s[i + 1]); } }
        if t.len() > 0 { assert(rlt(s[0].key, s[1].key)); assert(t[0] == s[1]); }
        if s[0].key == k {
            if has(t, k) { let j = choose|j: int| 0 <= j < t.len() && #[trigger] t[j].key == k; assert(t[j] == s[j + 1]); assert(rlt(s[0].key, s[j + 1].key)); }
            assert forall|k2: Key<K>| #[trigger] lookup(r, k2) == (if k2 == k { None } else { lookup(s, k2) }) by { lookup_cons(s[0], t, k2); }
        } else {
            del_meaning(t, k);
            let r2 = del(t, k);
            if r2.len() > 0 { assert(t.len() > 0); assert(!rlt(r2[0].key, t[0].key)); assert(rlt(s[0].key, t[0].key));
               assert(rcmp(t[0].key, r2[0].key) != Ordering::Greater); assert(rlt(s[0].key, r2[0].key)); }
            sorted_cons(s[0], r2);
            assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]).vals.len() > 0 by { if i > 0 { assert(r[i] == r2[i - 1]); } }
            assert forall|k2: Key<K>| #[trigger] lookup(r, k2) == (if k2 == k { None } else { lookup(s, k2) }) by {
                lookup_cons(s[0], r2, k2); lookup_cons(s[0], t, k2);
            }
        }
    }
}

// ---------------------------------------------------------------- balance: height is logarithmic
pub open spec fn p2(k: nat) -> nat decreases k { if k == 0 { 1 } else { 2 * p2((k - 1) as nat) } }
pub proof fn p2_mono(a: nat, b: nat)
    requires a <= b,
    ensures p2(a) <= p2(b), p2(a) >= 1,
    decreases b,
{
    if a < b { p2_mono(a, (b - 1) as nat); } else if a > 0 { p2_mono((a - 1) as nat, (b - 1) as nat); }
}
pub proof fn log_height<K: Ord, V>(t: Tree<K, V>)
    requires avl(t),
    ensures p2(hgt(t) / 2) <= ents(t).len() + 1,
    decreases t,
{
    if let Some(n) = t {
        log_height(n.left); log_height(n.right);
        let h = hgt(t);
        if h >= 2 {
            let k = ((h - 2) / 2) as nat;
            p2_mono(k, hgt(n.left) / 2); p2_mono(k, hgt(n.right) / 2);
            assert(h / 2 == k + 1);
            assert(p2(h / 2) == 2 * p2(k));
        }
    }
}
pub spec const NMAX: nat = 0xffff_ffff_ffff_fffe;
pub proof fn p2_65() ensures p2(65) > NMAX + 2
{
    assert(p2(65) == 36893488147419103232) by(compute);
}
pub proof fn small_height<K: Ord, V>(t: Tree<K, V>)
    requires avl(t), ents(t).len() <= NMAX,
    ensures hgt(t) < 130,
{
    log_height(t); p2_65();
    if hgt(t) >= 130 { p2_mono(65, hgt(t) / 2); }
}
/// The representation invariant of IntervalTree. The bound on the entry count is memory: 2^64-2 nodes.
pub open spec fn wf<K: Ord, V>(t: IntervalTree<K, V>) -> bool {
    &&& avl(t.root) && sorted(ents(t.root)) && nonempty(ents(t.root))
}

@@fn tree::IntervalTree::new
@ret r
@spec
    ensures ents(r.root) == Seq::<Entry<K, V>>::empty(), r.root is None,

@@fn tree::IntervalTree.Default::default
@name default_
@ret r
@spec
    ensures ents(r.root) == Seq::<Entry<K, V>>::empty(), r.root is None,

@@fn tree::IntervalTree::is_empty
@ret r
@spec
    ensures r == (ents(self.root).len() == 0),
@ghost start
    proof { if self.root is Some { hgt_some(*self.root.unwrap()); } }

@@fn tree::IntervalTree::height
@ret r
@spec
    ensures r == cached(self.root),

@@fn tree::IntervalTree::insert
@spec
    requires lawful::<K>(), wf(*old(self)), ents(old(self).root).len() < NMAX,
    ensures
        wf(*final(self)),
        ents(final(self).root) == ins(ents(old(self).root), key, data),
        forall|k2: Key<K>| #[trigger] lookup(ents(final(self).root), k2) == (if k2 == key {
                Some((match lookup(ents(old(self).root), key) { Some(v) => v, None => seq![] }).push(data))
            } else { lookup(ents(old(self).root), k2) }),
@ghost start
    proof { small_height(self.root); ins_meaning(ents(self.root), key, data);
        if self.root is Some { hgt_some(*self.root.unwrap()); } }
@ghost end
    proof { if self.root is Some { hgt_some(*self.root.unwrap()); } }

@@fn tree::IntervalTree::remove
@spec
    requires lawful::<K>(), wf(*old(self)), ents(old(self).root).len() <= NMAX,
    ensures
        wf(*final(self)),
        ents(final(self).root) == del(ents(old(self).root), key),
        forall|k2: Key<K>| #[trigger] lookup(ents(final(self).root), k2) == (if k2 == key { None } else { lookup(ents(old(self).root), k2) }),
@ghost start
    proof { small_height(self.root); del_meaning(ents(self.root), key);
        if self.root is Some { hgt_some(*self.root.unwrap()); } }

@@fn tree::IntervalTree::get
@ret r
@spec
    requires lawful::<K>(), wf(*self),
    ensures
        r matches Some(v) ==> lookup(ents(self.root), key) == Some(v@),
        r is None ==> lookup(ents(self.root), key) is None,
@ghost start
    proof { if self.root is Some { hgt_some(*self.root.unwrap()); } }

@@fn tree::IntervalTree::get_or
@ret r
@spec
    requires lawful::<K>(), wf(*self),
    ensures r@ == (match lookup(ents(self.root), key) { Some(v) => v, None => default@ }),

@@fn tree::IntervalTree::contains
@ret r
@spec
    requires lawful::<K>(), wf(*self),
    ensures r == (lookup(ents(self.root), key) is Some),

@@fn tree::IntervalTree::min
@ret r
@opt optclosures
@spec
    requires lawful::<K>(), wf(*self),
    ensures
        r is None <==> ents(self.root).len() == 0,
        r matches Some(p) ==> *p.0 == ents(self.root)[0].key && p.1@ == ents(self.root)[0].vals,
@ghost start
    proof { if self.root is Some { hgt_some(*self.root.unwrap()); } }

@@fn tree::IntervalTree::max
@ret r
@opt optclosures
@spec
    requires lawful::<K>(), wf(*self),
    ensures
        r is None <==> ents(self.root).len() == 0,
        r matches Some(p) ==> *p.0 == ents(self.root).last().key && p.1@ == ents(self.root).last().vals,
@ghost start
    proof { if self.root is Some { hgt_some(*self.root.unwrap()); } }

// =========================================================== range queries
@@type iter::Visiting
@@type iter::RangePairIter

@@verbatim
pub open spec fn start_ok<K: Ord>(b: Bound<K>, end: K) -> bool {
    match b { Bound::Included(s) => kle(s, end), Bound::Excluded(s) => klt(s, end), Bound::Unbounded => true }
}
pub open spec fn end_ok<K: Ord>(b: Bound<K>, start: K) -> bool {
    match b { Bound::Included(e) => kle(start, e), Bound::Excluded(e) => klt(start, e), Bound::Unbounded => true }
}
/// the interval k meets the query bounds
pub open spec fn meets<K: Ord>(s: Bound<K>, e: Bound<K>, k: Key<K>) -> bool { start_ok(s, k.end) && end_ok(e, k.start) }

pub struct Item_<K, V> { pub key: Key<K>, pub val: V }
pub open spec fn vals_from<K, V>(e: Entry<K, V>, i: int) -> Seq<Item_<K, V>>
{
    Seq::new((e.vals.len() - i) as nat, |j: int| Item_ { key: e.key, val: e.vals[i + j] })
}
/// The answer to a query: all values of all entries meeting the bounds, in order.
pub open spec fn answer<K: Ord, V>(s: Bound<K>, e: Bound<K>, es: Seq<Entry<K, V>>) -> Seq<Item_<K, V>>
    decreases es.len(),
{
    if es.len() == 0 { seq![] }
    else { (if meets(s, e, es[0].key) { vals_from(es[0], 0) } else { seq![] }) + answer(s, e, es.drop_first()) }
}
pub proof fn answer_cat<K: Ord, V>(s: Bound<K>, e: Bound<K>, a: Seq<Entry<K, V>>, b: Seq<Entry<K, V>>)
    ensures answer(s, e, a + b) == answer(s, e, a) + answer(s, e, b),
    decreases a.len(),
{
    if a.len() == 0 { assert(a + b =~= b); assert(answer(s, e, a) + answer(s, e, b) =~= answer(s, e, b)); }
    else {
        assert((a + b).drop_first() =~= a.drop_first() + b);
        answer_cat(s, e, a.drop_first(), b);
        assert(answer(s, e, a + b) =~= answer(s, e, a) + answer(s, e, b));
    }
}
pub proof fn answer_none<K: Ord, V>(s: Bound<K>, e: Bound<K>, a: Seq<Entry<K, V>>)
    requires forall|i: int| 0 <= i < a.len() ==> !meets(s, e, #[trigger] a[i].key),
    ensures answer(s, e, a) == Seq::<Item_<K, V>>::empty(),
    decreases a.len(),
{
    if a.len() > 0 {
        assert(!meets(s, e, a[0].key));
        assert forall|i: int| 0 <= i < a.drop_first().len() implies !meets(s, e, #[trigger] a.drop_first()[i].key) by { assert(a.drop_first()[i] == a[i + 1]); }
        answer_none(s, e, a.drop_first());
        assert(answer(s, e, a) =~= Seq::<Item_<K, V>>::empty());
    }
}
pub open spec fn own_answer<K: Ord, V>(s: Bound<K>, e: Bound<K>, n: Node<K, V>) -> Seq<Item_<K, V>> {
    if meets(s, e, n.key) { vals_from(own(n), 0) } else { seq![] }
}
pub proof fn answer_node<K: Ord, V>(s: Bound<K>, e: Bound<K>, n: Node<K, V>)
    ensures answer(s, e, nents(n)) == answer(s, e, ents(n.left)) + own_answer(s, e, n) + answer(s, e, ents(n.right)),
{
    let x = seq![own(n)];
    answer_cat(s, e, ents(n.left) + x, ents(n.right));
    answer_cat(s, e, ents(n.left), x);
    assert(x.drop_first() =~= Seq::<Entry<K, V>>::empty());
    assert(answer(s, e, x.drop_first()) =~= Seq::<Item_<K, V>>::empty());
    assert(x[0] == own(n));
    assert(answer(s, e, x) =~= own_answer(s, e, n));
}
pub open spec fn todo<K: Ord, V>(s: Bound<K>, e: Bound<K>, f: (&Node<K, V>, Visiting)) -> Seq<Item_<K, V>> {
    let n = *f.0;
    match f.1 {
        Visiting::Left => answer(s, e, nents(n)),
        Visiting::Center => own_answer(s, e, n) + answer(s, e, ents(n.right)),
        Visiting::Middle(i) => vals_from(own(n), if i <= n.data@.len() { i as int } else { n.data@.len() as int }) + answer(s, e, ents(n.right)),
        Visiting::Right => answer(s, e, ents(n.right)),
    }
}
/// what an iterator has left to produce
pub open spec fn pend<K: Ord, V>(s: Bound<K>, e: Bound<K>, st: Seq<(&Node<K, V>, Visiting)>) -> Seq<Item_<K, V>>
    decreases st.len(),
{
    if st.len() == 0 { seq![] } else { todo(s, e, st.last()) + pend(s, e, st.drop_last()) }
}
pub open spec fn frame_ok<K: Ord, V>(f: (&Node<K, V>, Visiting)) -> bool {
    &&& navl(*f.0) && sorted(nents(*f.0)) && (f.1 matches Visiting::Middle(i) ==> i <= f.0.data@.len())
    &&& nonempty(nents(*f.0))
}
pub open spec fn iter_ok<K: Ord, V>(it: RangePairIter<'_, K, V>) -> bool {
    forall|i: int| 0 <= i < it.stack@.len() ==> frame_ok(#[trigger] it.stack@[i])
}
pub open spec fn rest<K: Ord, V>(it: RangePairIter<'_, K, V>) -> Seq<Item_<K, V>> { pend(it.start, it.end, it.stack@) }

pub proof fn pend_push<K: Ord, V>(s: Bound<K>, e: Bound<K>, st: Seq<(&Node<K, V>, Visiting)>, f: (&Node<K, V>, Visiting))
    ensures pend(s, e, st.push(f)) == todo(s, e, f) + pend(s, e, st),
{
    assert(st.push(f).drop_last() =~= st);
}
pub proof fn frame_kids<K: Ord, V>(n: Node<K, V>)
    requires lawful_ord::<K>(), navl(n), sorted(nents(n)), nonempty(nents(n)),
    ensures
        n.left matches Some(l) ==> navl(*l) && sorted(nents(*l)) && nonempty(nents(*l)) && nents(*l) == ents(n.left),
        n.right matches Some(r) ==> navl(*r) && sorted(nents(*r)) && nonempty(nents(*r)) && nents(*r) == ents(n.right),
{
    split(n);
    let (s, l, r) = (nents(n), ents(n.left), ents(n.right));
    assert forall|i: int| 0 <= i < l.len() implies (#[trigger] l[i]).vals.len() > 0 by { assert(s[i] == l[i]); }
    assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]).vals.len() > 0 by { assert(s[l.len() + 1 + i] == r[i]); }
}
/// pruning to the left is sound: a start bound above the subtree maximum excludes everything
pub proof fn prune_left<K: Ord, V>(s: Bound<K>, e: Bound<K>, n: Node<K, V>, m: K)
    requires lawful_ord::<K>(), is_max(m, nents(n)) || (n.left matches Some(l) && is_max(m, nents(*l))), !start_ok(s, m),
    ensures answer(s, e, ents(n.left)) == Seq::<Item_<K, V>>::empty(),
{
    let l = ents(n.left);
    assert forall|i: int| 0 <= i < l.len() implies !meets(s, e, #[trigger] l[i].key) by {
        assert(nents(n)[i] == l[i]);
        assert(kle(l[i].key.end, m));
    }
    answer_none(s, e, l);
}
pub proof fn prune_right<K: Ord, V>(s: Bound<K>, e: Bound<K>, n: Node<K, V>)
    requires lawful_ord::<K>(), sorted(nents(n)), !end_ok(e, n.key.start),
    ensures answer(s, e, ents(n.right)) == Seq::<Item_<K, V>>::empty(),
{
    split(n);
    let r = ents(n.right);
    assert forall|i: int| 0 <= i < r.len() implies !meets(s, e, #[trigger] r[i].key) by {
        assert(rlt(n.key, r[i].key));
        assert(kle(n.key.start, r[i].key.start));
    }
    answer_none(s, e, r);
}
/// termination measure
pub open spec fn fsize<K, V>(f: (&Node<K, V>, Visiting)) -> nat {
    let n = *f.0;
    match f.1 {
        Visiting::Left => tsize(nents(n)),
        Visiting::Center => 3 + n.data@.len() + tsize(ents(n.right)),
        Visiting::Middle(i) => (2 + (if i <= n.data@.len() { n.data@.len() - i } else { 0 }) + tsize(ents(n.right))) as nat,
        Visiting::Right => 1 + tsize(ents(n.right)),
    }
}
pub open spec fn tsize<K, V>(s: Seq<Entry<K, V>>) -> nat decreases s.len() {
    if s.len() == 0 { 0 } else { 4 + s[0].vals.len() + tsize(s.drop_first()) }
}
pub proof fn tsize_cat<K, V>(a: Seq<Entry<K, V>>, b: Seq<Entry<K, V>>)
    ensures tsize(a + b) == tsize(a) + tsize(b),
    decreases a.len(),
{
    if a.len() == 0 { assert(a + b =~= b); } else { assert((a + b).drop_first() =~= a.drop_first() + b); tsize_cat(a.drop_first(), b); }
}
pub proof fn tsize_node<K, V>(n: Node<K, V>)
    ensures tsize(nents(n)) == tsize(ents(n.left)) + 4 + n.data@.len() + tsize(ents(n.right)),
{
    let x = seq![own(n)];
    tsize_cat(ents(n.left) + x, ents(n.right));
    tsize_cat(ents(n.left), x);
    assert(x.drop_first() =~= Seq::<Entry<K, V>>::empty());
    assert(tsize(x.drop_first()) == 0);
}
pub open spec fn ssize<K, V>(st: Seq<(&Node<K, V>, Visiting)>) -> nat decreases st.len() {
    if st.len() == 0 { 0 } else { fsize(st.last()) + ssize(st.drop_last()) }
}
pub proof fn ssize_push<K, V>(st: Seq<(&Node<K, V>, Visiting)>, f: (&Node<K, V>, Visiting))
    ensures ssize(st.push(f)) == fsize(f) + ssize(st),
{ assert(st.push(f).drop_last() =~= st); }

@@fn iter::intersect
@ret r
@spec
    requires lawful_ord::<T>(),
    ensures r == meets(*start, *end, *range),

@@fn iter::RangePairIter::new
@ret r
@spec
    requires lawful_ord::<K>(), wf(*tree), 
    ensures iter_ok(r), r.start == start, r.end == end, rest(r) == answer(start, end, ents(tree.root)),
@ghost end
    proof {
        if tree.root is Some {
            let n = tree.root.unwrap();
            hgt_some(*n);
            assert(vx_result.stack@ =~= Seq::<(&Node<K, V>, Visiting)>::empty().push((&*n, Visiting::Left)));
            pend_push(start, end, Seq::<(&Node<K, V>, Visiting)>::empty(), (&*n, Visiting::Left));
            assert(rest(vx_result) =~= answer(start, end, ents(tree.root)));
        } else {
            assert(rest(vx_result) =~= answer(start, end, ents(tree.root)));
        }
    }

@@fn iter::RangePairIter::visit_left
@spec
    requires lawful_ord::<K>(), iter_ok(*old(self)), frame_ok((node, Visiting::Left)),
    ensures
        iter_ok(*final(self)), final(self).start == old(self).start, final(self).end == old(self).end,
        rest(*final(self)) == todo(old(self).start, old(self).end, (node, Visiting::Left)) + rest(*old(self)),
        ssize(final(self).stack@) < fsize((node, Visiting::Left)) + ssize(old(self).stack@),
@ghost start
    proof { frame_kids(*node); answer_node(self.start, self.end, *node); tsize_node(*node);
        assert(node_ok(*node)); 
        if node.left is Some { assert(node_ok(*node.left.unwrap())); }
        if !start_ok(self.start, node.max) { prune_left(self.start, self.end, *node, node.max); }
        if node.left is Some && !start_ok(self.start, node.left.unwrap().max) { prune_left(self.start, self.end, *node, node.left.unwrap().max); }
        let c = (node, Visiting::Center);
        ssize_push(self.stack@, c); pend_push(self.start, self.end, self.stack@, c);
        if node.left is Some {
            let l = (&*node.left.unwrap(), Visiting::Left);
            ssize_push(self.stack@.push(c), l); pend_push(self.start, self.end, self.stack@.push(c), l);
        }
    }
@ghost end
    proof {
        assert(rest(*self) =~= todo(old(self).start, old(self).end, (node, Visiting::Left)) + rest(*old(self)));
    }

@@fn iter::RangePairIter::visit_right
@spec
    requires lawful_ord::<K>(), iter_ok(*old(self)), frame_ok((node, Visiting::Right)),
    ensures
        iter_ok(*final(self)), final(self).start == old(self).start, final(self).end == old(self).end,
        rest(*final(self)) == todo(old(self).start, old(self).end, (node, Visiting::Right)) + rest(*old(self)),
        ssize(final(self).stack@) < fsize((node, Visiting::Right)) + ssize(old(self).stack@),
@ghost start
    proof { frame_kids(*node);
        if !end_ok(self.end, node.key.start) { prune_right(self.start, self.end, *node); }
        if node.right is Some {
            let l = (&*node.right.unwrap(), Visiting::Left);
            ssize_push(self.stack@, l); pend_push(self.start, self.end, self.stack@, l);
        }
        assert(Seq::<Item_<K, V>>::empty() + rest(*self) =~= rest(*self));
    }

@@fn iter::RangePairIter::visit_center
@spec
    requires lawful_ord::<K>(), iter_ok(*old(self)), frame_ok((node, Visiting::Center)),
    ensures
        iter_ok(*final(self)), final(self).start == old(self).start, final(self).end == old(self).end,
        rest(*final(self)) == todo(old(self).start, old(self).end, (node, Visiting::Center)) + rest(*old(self)),
        ssize(final(self).stack@) < fsize((node, Visiting::Center)) + ssize(old(self).stack@),
@ghost start
    proof {
        let m = (node, Visiting::Middle(0)); let r = (node, Visiting::Right);
        ssize_push(self.stack@, m); pend_push(self.start, self.end, self.stack@, m);
        ssize_push(self.stack@, r); pend_push(self.start, self.end, self.stack@, r);
        assert(Seq::<Item_<K, V>>::empty() + answer(self.start, self.end, ents(node.right)) =~= answer(self.start, self.end, ents(node.right)));
    }

@@fn iter::RangePairIter::get_next_node
@ret r
@spec
    requires lawful_ord::<K>(), iter_ok(*old(self)),
    ensures
        iter_ok(*final(self)), final(self).start == old(self).start, final(self).end == old(self).end,
        r is None ==> rest(*old(self)).len() == 0 && final(self).stack@.len() == 0,
        r matches Some(p) ==> p.1 < p.0.data@.len() && rest(*old(self)) == seq![Item_ { key: p.0.key, val: p.0.data@[p.1 as int] }] + rest(*final(self)),
@loop 0
    invariant
        lawful_ord::<K>(), iter_ok(*self), self.start == old(self).start, self.end == old(self).end,
        rest(*self) == rest(*old(self)),
    ensures
        self.stack@.len() == 0,
    decreases ssize(self.stack@),
@ghost loop 0 start
    let ghost st0 = self.stack@.push((node, state));
    proof {
        assert(st0.drop_last() =~= self.stack@);
        assert(st0.last() == (node, state));
        assert(frame_ok((node, state)));
        if let Visiting::Middle(i) = state {
            let f = (node, Visiting::Right);
            ssize_push(self.stack@, f); pend_push(self.start, self.end, self.stack@, f);
            if i < node.data@.len() {
                vstd::std_specs::vec::axiom_spec_len(&node.data);
                assert(node.data.len() == node.data@.len() && i + 1 <= usize::MAX);
                let g = (node, Visiting::Middle((i + 1) as usize));
                ssize_push(self.stack@, g); pend_push(self.start, self.end, self.stack@, g);
                assert(vals_from(own(*node), i as int) =~= seq![Item_ { key: node.key, val: node.data@[i as int] }] + vals_from(own(*node), i + 1));
                assert(rest(*old(self)) =~= seq![Item_ { key: node.key, val: node.data@[i as int] }] + (todo(self.start, self.end, g) + pend(self.start, self.end, self.stack@)));
            } else {
                assert(vals_from(own(*node), i as int) =~= Seq::<Item_<K, V>>::empty());
                assert(todo(self.start, self.end, (node, state)) =~= answer(self.start, self.end, ents(node.right)));
            }
        }
    }

@@fn iter::RangePairIter.Iterator::next
@ret r
@opt optclosures
@sig <<<fn next(&mut self) -> Option<(RangeInclusive<K>, &'a V)>>>>
@spec
    requires lawful::<K>(), iter_ok(*old(self)),
    ensures
        iter_ok(*final(self)), final(self).start == old(self).start, final(self).end == old(self).end,
        r is None ==> rest(*old(self)).len() == 0 && rest(*final(self)).len() == 0,
        r matches Some(p) ==> rest(*old(self)) == seq![Item_ { key: p.0, val: *p.1 }] + rest(*final(self)),

@@fn tree::IntervalTree::range
@ret r
@spec
    requires lawful_ord::<K>(), wf(*self),
    ensures iter_ok(r), rest(r) == answer(Bound::Included(range.start), Bound::Included(range.end), ents(self.root)),

@@fn tree::IntervalTree::iter
@ret r
@spec
    requires lawful_ord::<K>(), wf(*self),
    ensures iter_ok(r), rest(r) == answer(Bound::Unbounded, Bound::Unbounded, ents(self.root)),

// =========================================================== consuming iteration and merge
@@type iter::IntoIter

@@verbatim
pub open spec fn tag<K, V>(k: Key<K>, vs: Seq<V>) -> Seq<Item_<K, V>> { Seq::new(vs.len(), |j: int| Item_ { key: k, val: vs[j] }) }
/// all (key, value) pairs of a listing, in order
pub open spec fn flat<K, V>(es: Seq<Entry<K, V>>) -> Seq<Item_<K, V>>
    decreases es.len(),
{
    if es.len() == 0 { seq![] } else { tag(es[0].key, es[0].vals) + flat(es.drop_first()) }
}
pub proof fn flat_cat<K, V>(a: Seq<Entry<K, V>>, b: Seq<Entry<K, V>>)
    ensures flat(a + b) == flat(a) + flat(b),
    decreases a.len(),
{
    if a.len() == 0 { assert(a + b =~= b); assert(flat(a) + flat(b) =~= flat(b)); }
    else { assert((a + b).drop_first() =~= a.drop_first() + b); flat_cat(a.drop_first(), b); assert(flat(a + b) =~= flat(a) + flat(b)); }
}
pub proof fn flat_node<K, V>(n: Node<K, V>)
    ensures flat(nents(n)) == flat(ents(n.left)) + tag(n.key, n.data@) + flat(ents(n.right)),
{
    let x = seq![own(n)];
    flat_cat(ents(n.left) + x, ents(n.right));
    flat_cat(ents(n.left), x);
    assert(x.drop_first() =~= Seq::<Entry<K, V>>::empty());
    assert(flat(x.drop_first()) =~= Seq::<Item_<K, V>>::empty());
    assert(x[0] == own(n));
    assert(flat(x) =~= tag(n.key, n.data@));
}
pub open spec fn sflat<K, V>(st: Seq<Node<K, V>>) -> Seq<Item_<K, V>>
    decreases st.len(),
{
    if st.len() == 0 { seq![] } else { tag(st.last().key, st.last().data@) + flat(ents(st.last().right)) + sflat(st.drop_last()) }
}
#[verifier::prophetic]
pub open spec fn remain<K, V>(it: IntoIter<K, V>) -> Seq<Item_<K, V>> {
    (match it.current { None => seq![], Some(p) => tag(p.0, IteratorSpec::remaining(&p.1)) }) + sflat(it.stack@)
}
pub open spec fn ssz<K, V>(st: Seq<Node<K, V>>) -> nat decreases st.len() {
    if st.len() == 0 { 0 } else { 1 + tsize(ents(st.last().right)) + ssz(st.drop_last()) }
}

@@fn iter::IntoIter::push_node
@spec
    ensures
        final(self).current == old(self).current,
        sflat(final(self).stack@) == flat(ents(node)) + sflat(old(self).stack@),
        ssz(final(self).stack@) <= tsize(ents(node)) + ssz(old(self).stack@),
@loop 0
    invariant
        self.current == old(self).current,
        flat(ents(node0)) + sflat(old(self).stack@) == flat(ents(node)) + sflat(self.stack@),
        ssz(self.stack@) + tsize(ents(node)) <= tsize(ents(node0)) + ssz(old(self).stack@),
    ensures node is None,
    decreases node,
@ghost start
    let ghost node0 = node;
@ghost loop 0 start
    proof { flat_node(*current); tsize_node(*current); }
    let ghost c0 = *current;
    let ghost st0 = self.stack@;
@ghost loop 0 end
    proof {
        let n = self.stack@.last();
        assert(self.stack@.drop_last() =~= st0);
        assert(flat(ents(c0.left)) + sflat(self.stack@) =~= flat(nents(c0)) + sflat(st0));
    }
@ghost end
    proof { assert(flat(ents(None::<Box<Node<K, V>>>)) + sflat(self.stack@) =~= sflat(self.stack@)); }

@@fn iter::IntoIter::new
@ret r
@spec
    ensures remain(r) == flat(ents(tree.root)),
@ghost end
    proof { assert(remain(vx_result) =~= flat(ents(tree.root))); }

@@fn iter::IntoIter.Iterator::next
@ret r
@sig <<<fn next(&mut self) -> Option<(RangeInclusive<K>, V)>>>>
@spec
    requires forall|a: K, b: K| #[trigger] call_ensures(K::clone, (&a,), b) ==> a == b, forall|a: K| #[trigger] call_requires(K::clone, (&a,)),
    ensures
        r is None ==> remain(*old(self)).len() == 0 && remain(*final(self)).len() == 0,
        r matches Some(p) ==> remain(*old(self)) == seq![Item_ { key: p.0, val: p.1 }] + remain(*final(self)),
@loop 0
    invariant
        forall|a: K, b: K| #[trigger] call_ensures(K::clone, (&a,), b) ==> a == b, forall|a: K| #[trigger] call_requires(K::clone, (&a,)),
        remain(*self) == remain(*old(self)),
    decreases ssz(self.stack@),
@ghost loop 0 start
    let ghost st0 = self.stack@;
@ghost after <<<let mut node = self.stack.pop()?>>>
    let ghost n0 = node;
    proof { assert(st0.drop_last() =~= self.stack@); assert(st0.last() == n0); flat_node(n0); }
@ghost loop 0 end
    proof { assert(remain(*self) =~= remain(*old(self))); }


@@fn tree::IntervalTree.IntoIterator::into_iter
@ret r
@sig <<<fn into_iter(self) -> IntoIter<K, V>>>>
@rewrite optional <<<Self::IntoIter::new>>> => <<<IntoIter::new>>>
@impl <<<impl<K: Ord + Clone, V> IntervalTree<K, V>>>>
@spec
    ensures remain(r) == flat(ents(self.root)),

@@verbatim
pub proof fn ins_len<K: Ord, V>(s: Seq<Entry<K, V>>, k: Key<K>, d: V)
    ensures ins(s, k, d).len() <= s.len() + 1,
    decreases s.len(),
{ if s.len() > 0 { ins_len(s.drop_first(), k, d); } }
/// inserting a listing of (key, value) pairs, in order
pub open spec fn ins_all<K: Ord, V>(s: Seq<Entry<K, V>>, l: Seq<Item_<K, V>>) -> Seq<Entry<K, V>>
    decreases l.len(),
{
    if l.len() == 0 { s } else { ins_all(ins(s, l[0].key, l[0].val), l.drop_first()) }
}

@@fn tree::IntervalTree::merge
@attr #[verifier::exec_allows_no_decreases_clause]
@opt fornext
@spec
    requires lawful::<K>(), wf(*old(self)), forall|a: K| #[trigger] call_requires(K::clone, (&a,)),
        ents(old(self).root).len() + flat(ents(other.root)).len() < NMAX,
    ensures
        wf(*final(self)),
        ents(final(self).root) == ins_all(ents(old(self).root), flat(ents(other.root))),
@loop 0
    invariant
        lawful::<K>(), wf(*self), forall|a: K| #[trigger] call_requires(K::clone, (&a,)),
        ents(self.root).len() + remain(vx_it0).len() < NMAX,
        ins_all(ents(self.root), remain(vx_it0)) == ins_all(ents(old(self).root), flat(ents(other.root))),
    ensures remain(vx_it0).len() == 0,
@ghost loop 0 start
    proof { let all = seq![Item_ { key: k, val: v }] + remain(vx_it0); assert(all.drop_first() =~= remain(vx_it0)); assert(all[0] == Item_ { key: k, val: v });
        assert(ins_all(ents(self.root), all) == ins_all(ins(ents(self.root), k, v), remain(vx_it0)));
        ins_len(ents(self.root), k, v); }
