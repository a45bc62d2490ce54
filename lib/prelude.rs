// Model of the Python built-in operations the translator emits.  `external_body` functions are the
// trusted model of library functions; every spec function is a definition and every lemma is proved.

#[verifier::external_body]
pub fn test(Ghost(c): Ghost<bool>) -> (b: bool)
    ensures b == c,
{ unimplemented!() }

/// results of one call per value of the bound variables (their postconditions are assumed where they are obtained)
#[verifier::external_body]
pub fn any_value<T>() -> (r: Ghost<T>) { unimplemented!() }
pub open spec fn app<A, B>(f: spec_fn(A) -> B, a: A) -> B { f(a) }

/// iteration order of a set / dict is unknown: some enumeration without repetition
#[verifier::external_body]
pub fn enum_set<T>(Ghost(s): Ghost<Set<T>>) -> (r: Ghost<Seq<T>>)
    ensures r@.no_duplicates(), r@.to_set() == s, r@.len() == s.len(),
        forall|x: T| #[trigger] r@.contains(x) <==> s.contains(x),
        forall|x: T| #[trigger] s.contains(x) ==> r@.contains(x),
{ unimplemented!() }

/// what all sets have in common
pub open spec fn inter_all<T>(s: Seq<Set<T>>) -> Set<T> { s[0].filter(|x: T| forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).contains(x)) }
/// it lists the items of m
pub open spec fn lists_items<K, V>(it: Seq<(K, V)>, m: Map<K, V>) -> bool {
    &&& forall|i: int| 0 <= i < it.len() ==> m.dom().contains((#[trigger] it[i]).0) && m[it[i].0] == it[i].1
    &&& forall|i: int, j: int| 0 <= i < j < it.len() ==> (#[trigger] it[i]).0 != (#[trigger] it[j]).0
    &&& forall|k: K| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < it.len() && (#[trigger] it[i]).0 == k
}
pub broadcast proof fn inter_all_contains<T>(s: Seq<Set<T>>, x: T)
    ensures s.len() > 0 ==> (#[trigger] inter_all(s).contains(x) <==> forall|v: Set<T>| #[trigger] s.contains(v) ==> v.contains(x)),
{
    if s.len() > 0 {
        assert(s.contains(s[0]));
        if forall|v: Set<T>| #[trigger] s.contains(v) ==> v.contains(x) { assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).contains(x) by { assert(s.contains(s[i])); } }
        if inter_all(s).contains(x) { assert forall|v: Set<T>| #[trigger] s.contains(v) implies v.contains(x) by { let i = choose|i: int| 0 <= i < s.len() && s[i] == v; assert(s[i].contains(x)); } }
    }
}
/// the values of m, one for each key
pub open spec fn lists_values<K, V>(it: Seq<V>, m: Map<K, V>) -> bool {
    &&& it.len() == m.dom().len()
    &&& forall|v: V| #[trigger] it.contains(v) ==> exists|k: K| #[trigger] m.dom().contains(k) && m[k] == v
    &&& forall|k: K| #[trigger] m.dom().contains(k) ==> it.contains(m[k])
}
#[verifier::external_body]
pub fn enum_values<K, V>(Ghost(m): Ghost<Map<K, V>>) -> (r: Ghost<Seq<V>>)
    ensures lists_values(r@, m),
{ unimplemented!() }
#[verifier::external_body]
pub fn enum_items<K, V>(Ghost(m): Ghost<Map<K, V>>) -> (r: Ghost<Seq<(K, V)>>)
    ensures lists_items(r@, m),
{ unimplemented!() }

#[verifier::external_body]
pub fn sorted_by<T>(Ghost(s): Ghost<Seq<T>>, Ghost(key): Ghost<spec_fn(T) -> int>) -> (r: Ghost<Seq<T>>)
    ensures perm(r@, s), forall|i: int, j: int| 0 <= i < j < r@.len() ==> key(#[trigger] r@[i]) <= key(#[trigger] r@[j]),
{ unimplemented!() }

#[verifier::external_body]
pub fn sorted_any<T>(Ghost(s): Ghost<Seq<T>>) -> (r: Ghost<Seq<T>>)
    ensures perm(r@, s),
{ unimplemented!() }

#[verifier::external_body]
pub fn min_by<T>(Ghost(s): Ghost<Seq<T>>, Ghost(key): Ghost<spec_fn(T) -> int>) -> (r: Ghost<T>)
    requires s.len() > 0,
    ensures s.contains(r@), forall|x: T| #[trigger] s.contains(x) ==> key(r@) <= key(x),
{ unimplemented!() }

#[verifier::external_body]
pub fn max_by<T>(Ghost(s): Ghost<Seq<T>>, Ghost(key): Ghost<spec_fn(T) -> int>) -> (r: Ghost<T>)
    requires s.len() > 0,
    ensures s.contains(r@), forall|x: T| #[trigger] s.contains(x) ==> key(r@) >= key(x),
{ unimplemented!() }

/// random.shuffle: an arbitrary permutation
#[verifier::external_body]
pub fn shuffled<T>(Ghost(s): Ghost<Seq<T>>) -> (r: Ghost<Seq<T>>)
    ensures perm(r@, s),
{ unimplemented!() }

#[verifier::external_body]
pub fn choice_of<T>(Ghost(s): Ghost<Seq<T>>) -> (r: Ghost<T>)
    requires s.len() > 0,
    ensures s.contains(r@),
{ unimplemented!() }

#[verifier::external_body]
pub fn sample_of<T>(Ghost(s): Ghost<Seq<T>>, Ghost(k): Ghost<int>) -> (r: Ghost<Seq<T>>)
    requires 0 <= k <= s.len(),
    ensures r@.len() == k, forall|x: T| #[trigger] r@.contains(x) ==> s.contains(x),
        s.no_duplicates() ==> r@.no_duplicates(), k == s.len() ==> perm(r@, s),
{ unimplemented!() }

/// itertools.combinations: all subsequences of length k, in some order
#[verifier::external_body]
pub fn combinations<T>(Ghost(s): Ghost<Seq<T>>, Ghost(k): Ghost<int>) -> (r: Ghost<Seq<Seq<T>>>)
    requires k >= 0,
    ensures
        forall|c: Seq<T>| #[trigger] r@.contains(c) ==> c.len() == k && subsequence(c, s),
        forall|c: Seq<T>| c.len() == k && #[trigger] subsequence(c, s) ==> r@.contains(c),
{ unimplemented!() }

pub open spec fn subsequence<T>(c: Seq<T>, s: Seq<T>) -> bool {
    exists|ix: Seq<int>| #[trigger] sub_ix(ix, c, s)
}
pub open spec fn sub_ix<T>(ix: Seq<int>, c: Seq<T>, s: Seq<T>) -> bool {
    &&& ix.len() == c.len()
    &&& forall|i: int| 0 <= i < ix.len() ==> 0 <= #[trigger] ix[i] < s.len() && c[i] == s[ix[i]]
    &&& forall|i: int, j: int| 0 <= i < j < ix.len() ==> #[trigger] ix[i] < #[trigger] ix[j]
}

pub open spec fn perm<T>(a: Seq<T>, b: Seq<T>) -> bool {
    &&& a.len() == b.len()
    &&& a.to_multiset() == b.to_multiset()
    &&& a.to_set() == b.to_set()
    &&& (a.no_duplicates() <==> b.no_duplicates())
    &&& forall|x: T| #[trigger] a.contains(x) <==> b.contains(x)
}

pub open spec fn set_truthy<T>(s: Set<T>) -> bool { s.len() > 0 }

pub broadcast proof fn truthy_witness<T>(s: Set<T>)
    ensures #[trigger] set_truthy(s) <==> exists|x: T| #[trigger] s.contains(x),
{
    if s.len() == 0 { assert forall|x: T| s.contains(x) implies false by { assert(s == Set::<T>::empty()); } }
    else { let x = s.choose(); assert(s.contains(x)); }
}

pub open spec fn irange(lo: int, hi: int) -> Seq<int> {
    Seq::new(if hi > lo { (hi - lo) as nat } else { 0 }, |i: int| lo + i)
}
pub open spec fn irange_step(lo: int, hi: int, st: int) -> Seq<int> {
    Seq::new(if hi > lo { ((hi - lo + st - 1) / st) as nat } else { 0 }, |i: int| lo + i * st)
}

pub broadcast proof fn irange_contains(lo: int, hi: int, x: int)
    ensures #[trigger] irange(lo, hi).contains(x) <==> lo <= x < hi,
{
    if lo <= x < hi { assert(irange(lo, hi)[x - lo] == x); }
}
pub broadcast proof fn irange_nodup(lo: int, hi: int)
    ensures (#[trigger] irange(lo, hi)).no_duplicates(),
{ }

pub open spec fn comp<A, B>(s: Seq<A>, p: spec_fn(A) -> bool, f: spec_fn(A) -> B) -> Seq<B>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() }
    else if p(s.last()) { comp(s.drop_last(), p, f).push(f(s.last())) }
    else { comp(s.drop_last(), p, f) }
}

pub broadcast proof fn comp_contains<A, B>(s: Seq<A>, p: spec_fn(A) -> bool, f: spec_fn(A) -> B, b: B)
    ensures #[trigger] comp(s, p, f).contains(b) <==> exists|a: A| #[trigger] s.contains(a) && p(a) && f(a) == b,
    decreases s.len(),
{
    let c = comp(s, p, f);
    if s.len() > 0 {
        let t = s.drop_last();
        let r = comp(t, p, f);
        comp_contains(t, p, f, b);
        let l = s.last();
        assert(s.contains(l)) by { assert(s[s.len() - 1] == l); }
        if c.contains(b) {
            let i = choose|i: int| 0 <= i < c.len() && c[i] == b;
            if p(l) && i == r.len() {
                assert(f(l) == b);
                assert(s.contains(l) && p(l) && f(l) == b);
            } else {
                assert(r[i] == b);
                let a = choose|a: A| #[trigger] t.contains(a) && p(a) && f(a) == b;
                let j = choose|j: int| 0 <= j < t.len() && t[j] == a;
                assert(s[j] == a);
                assert(s.contains(a) && p(a) && f(a) == b);
            }
            assert(exists|a: A| #[trigger] s.contains(a) && p(a) && f(a) == b);
        }
        if exists|a: A| #[trigger] s.contains(a) && p(a) && f(a) == b {
            let a = choose|a: A| #[trigger] s.contains(a) && p(a) && f(a) == b;
            let i = choose|i: int| 0 <= i < s.len() && s[i] == a;
            if i < s.len() - 1 {
                assert(t[i] == a);
                assert(t.contains(a));
                assert(r.contains(b));
                let j = choose|j: int| 0 <= j < r.len() && r[j] == b;
                assert(c[j] == b);
            } else {
                assert(c[c.len() - 1] == b);
            }
            assert(c.contains(b));
        }
    } else {
        assert(!c.contains(b));
        assert forall|a: A| !(#[trigger] s.contains(a)) by { }
    }
}

pub broadcast proof fn comp_all<A, B>(s: Seq<A>, p: spec_fn(A) -> bool, f: spec_fn(A) -> B)
    ensures
        (#[trigger] comp(s, p, f)).len() <= s.len(),
        (forall|a: A| #[trigger] s.contains(a) ==> p(a)) ==> {
            &&& comp(s, p, f).len() == s.len()
            &&& forall|i: int| 0 <= i < s.len() ==> #[trigger] comp(s, p, f)[i] == f(s[i])
        },
    decreases s.len(),
{
    if s.len() > 0 {
        comp_all(s.drop_last(), p, f);
        if forall|a: A| #[trigger] s.contains(a) ==> p(a) {
            assert(s.contains(s[s.len() - 1]));
            assert forall|a: A| #[trigger] s.drop_last().contains(a) implies p(a) by {
                let i = choose|i: int| 0 <= i < s.drop_last().len() && s.drop_last()[i] == a;
                assert(s.contains(s[i]));
            }
        }
    }
}

pub broadcast proof fn comp_nodup<A, B>(s: Seq<A>, p: spec_fn(A) -> bool, f: spec_fn(A) -> B)
    requires s.no_duplicates(),
        forall|a: A, b: A| #[trigger] s.contains(a) && #[trigger] s.contains(b) && p(a) && p(b) && f(a) == f(b) ==> a == b,
    ensures #[trigger] comp(s, p, f).no_duplicates(),
    decreases s.len(),
{
    if s.len() > 0 {
        let t = s.drop_last();
        assert forall|a: A| #[trigger] t.contains(a) implies s.contains(a) by {
            let i = choose|i: int| 0 <= i < t.len() && t[i] == a;
            assert(s[i] == a);
        }
        comp_nodup(t, p, f);
        let r = comp(t, p, f);
        let l = s.last();
        assert(s.contains(s[s.len() - 1]));
        if p(l) {
            assert(!r.contains(f(l))) by {
                if r.contains(f(l)) {
                    comp_contains(t, p, f, f(l));
                    let a = choose|a: A| #[trigger] t.contains(a) && p(a) && f(a) == f(l);
                    let i = choose|i: int| 0 <= i < t.len() && t[i] == a;
                    assert(s[i] == a && s.contains(a));
                    assert(s[i] != s[s.len() - 1]);
                }
            }
            assert forall|i: int, j: int| 0 <= i < comp(s, p, f).len() && 0 <= j < comp(s, p, f).len() && i != j
                implies comp(s, p, f)[i] != comp(s, p, f)[j] by {
                if i == r.len() { assert(r.contains(r[j])); }
                if j == r.len() { assert(r.contains(r[i])); }
            }
        }
    }
}

pub open spec fn flat<A, B>(s: Seq<A>, f: spec_fn(A) -> Seq<B>) -> Seq<B>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else { flat(s.drop_last(), f).add(f(s.last())) }
}

pub broadcast proof fn flat_contains<A, B>(s: Seq<A>, f: spec_fn(A) -> Seq<B>, b: B)
    ensures #[trigger] flat(s, f).contains(b) <==> exists|a: A| #[trigger] s.contains(a) && f(a).contains(b),
    decreases s.len(),
{
    let c = flat(s, f);
    if s.len() > 0 {
        let t = s.drop_last();
        let l = s.last();
        let fl = f(l);
        flat_contains(t, f, b);
        assert(s.contains(s[s.len() - 1]));
        let r = flat(t, f);
        if c.contains(b) {
            let i = choose|i: int| 0 <= i < c.len() && c[i] == b;
            if i < r.len() {
                assert(r[i] == b);
                let a = choose|a: A| #[trigger] t.contains(a) && f(a).contains(b);
                let j = choose|j: int| 0 <= j < t.len() && t[j] == a;
                assert(s[j] == a);
                assert(s.contains(a) && f(a).contains(b));
            } else {
                assert(fl[i - r.len()] == b);
                assert(s.contains(l) && f(l).contains(b));
            }
        }
        if exists|a: A| #[trigger] s.contains(a) && f(a).contains(b) {
            let a = choose|a: A| #[trigger] s.contains(a) && f(a).contains(b);
            let i = choose|i: int| 0 <= i < s.len() && s[i] == a;
            if i < s.len() - 1 {
                assert(t[i] == a);
                assert(t.contains(a) && f(a).contains(b));
                assert(r.contains(b));
                let j = choose|j: int| 0 <= j < r.len() && r[j] == b;
                assert(c[j] == b);
            } else {
                let j = choose|j: int| 0 <= j < fl.len() && fl[j] == b;
                assert(c[r.len() + j] == b);
            }
            assert(c.contains(b));
        }
    } else {
        assert(!c.contains(b));
        assert forall|a: A| !(#[trigger] s.contains(a)) by { }
    }
}

pub open spec fn prod<A, B>(a: Seq<A>, b: Seq<B>) -> Seq<(A, B)> {
    flat(a, |x: A| comp(b, |y: B| true, |y: B| (x, y)))
}
pub open spec fn prod3<A, B, C>(a: Seq<A>, b: Seq<B>, c: Seq<C>) -> Seq<(A, B, C)> {
    flat(a, |x: A| flat(b, |y: B| comp(c, |z: C| true, |z: C| (x, y, z))))
}

pub broadcast proof fn prod_contains<A, B>(a: Seq<A>, b: Seq<B>, t: (A, B))
    ensures #[trigger] prod(a, b).contains(t) <==> a.contains(t.0) && b.contains(t.1),
{
    let f = |x: A| comp(b, |y: B| true, |y: B| (x, y));
    flat_contains(a, f, t);
    assert forall|x: A| #[trigger] a.contains(x) implies (f(x).contains(t) <==> x == t.0 && b.contains(t.1)) by {
        comp_contains(b, |y: B| true, |y: B| (x, y), t);
        if x == t.0 && b.contains(t.1) { }
    }
}

pub broadcast proof fn prod3_contains<A, B, C>(a: Seq<A>, b: Seq<B>, c: Seq<C>, t: (A, B, C))
    ensures #[trigger] prod3(a, b, c).contains(t) <==> a.contains(t.0) && b.contains(t.1) && c.contains(t.2),
{
    let f = |x: A| flat(b, |y: B| comp(c, |z: C| true, |z: C| (x, y, z)));
    flat_contains(a, f, t);
    assert forall|x: A| #[trigger] a.contains(x) implies (f(x).contains(t) <==> x == t.0 && b.contains(t.1) && c.contains(t.2)) by {
        let g = |y: B| comp(c, |z: C| true, |z: C| (x, y, z));
        flat_contains(b, g, t);
        assert forall|y: B| #[trigger] b.contains(y) implies (g(y).contains(t) <==> x == t.0 && y == t.1 && c.contains(t.2)) by {
            comp_contains(c, |z: C| true, |z: C| (x, y, z), t);
        }
    }
}

pub broadcast proof fn flat_nodup<A, B>(s: Seq<A>, f: spec_fn(A) -> Seq<B>)
    requires s.no_duplicates(), forall|a: A| #[trigger] s.contains(a) ==> f(a).no_duplicates(),
        forall|a: A, b: A, x: B| #[trigger] s.contains(a) && #[trigger] s.contains(b) && #[trigger] f(a).contains(x)
            && f(b).contains(x) ==> a == b,
    ensures #[trigger] flat(s, f).no_duplicates(),
    decreases s.len(),
{
    if s.len() > 0 {
        let t = s.drop_last();
        let l = s.last();
        assert forall|a: A| #[trigger] t.contains(a) implies s.contains(a) by {
            let i = choose|i: int| 0 <= i < t.len() && t[i] == a;
            assert(s[i] == a);
        }
        flat_nodup(t, f);
        assert(s.contains(s[s.len() - 1]));
        let r = flat(t, f);
        assert forall|x: B| r.contains(x) && f(l).contains(x) implies false by {
            flat_contains(t, f, x);
            let a = choose|a: A| #[trigger] t.contains(a) && f(a).contains(x);
            assert(a == l);
            let i = choose|i: int| 0 <= i < t.len() && t[i] == a;
            assert(s[i] == s[s.len() - 1]);
        }
        let q = flat(s, f);
        assert forall|i: int, j: int| 0 <= i < q.len() && 0 <= j < q.len() && i != j implies q[i] != q[j] by {
            if i < r.len() { assert(r.contains(r[i])); } else { assert(f(l).contains(f(l)[i - r.len()])); }
            if j < r.len() { assert(r.contains(r[j])); } else { assert(f(l).contains(f(l)[j - r.len()])); }
        }
    }
}

pub broadcast proof fn prod_nodup<A, B>(a: Seq<A>, b: Seq<B>)
    requires a.no_duplicates(), b.no_duplicates(),
    ensures #[trigger] prod(a, b).no_duplicates(),
{
    let f = |x: A| comp(b, |y: B| true, |y: B| (x, y));
    assert forall|x: A| #[trigger] a.contains(x) implies f(x).no_duplicates() by {
        comp_nodup(b, |y: B| true, |y: B| (x, y));
    }
    assert forall|x: A, y: A, z: (A, B)| #[trigger] a.contains(x) && #[trigger] a.contains(y) && #[trigger] f(x).contains(z) && f(y).contains(z) implies x == y by {
        comp_contains(b, |w: B| true, |w: B| (x, w), z);
        comp_contains(b, |w: B| true, |w: B| (y, w), z);
    }
    flat_nodup(a, f);
}

pub open spec fn rev<T>(s: Seq<T>) -> Seq<T> { Seq::new(s.len(), |i: int| s[s.len() - 1 - i]) }
pub broadcast proof fn rev_contains<T>(s: Seq<T>, x: T)
    ensures #[trigger] rev(s).contains(x) <==> s.contains(x),
{
    if rev(s).contains(x) { let i = choose|i: int| 0 <= i < s.len() && rev(s)[i] == x; assert(s[s.len() - 1 - i] == x); }
    if s.contains(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(rev(s)[s.len() - 1 - i] == x); }
}
pub open spec fn enumer<T>(s: Seq<T>) -> Seq<(int, T)> { Seq::new(s.len(), |i: int| (i, s[i])) }
pub broadcast proof fn enumer_contains<T>(s: Seq<T>, x: (int, T))
    ensures #[trigger] enumer(s).contains(x) <==> 0 <= x.0 < s.len() && s[x.0] == x.1,
{
    if 0 <= x.0 < s.len() && s[x.0] == x.1 { assert(enumer(s)[x.0] == x); }
}
pub open spec fn zip_seq<A, B>(a: Seq<A>, b: Seq<B>) -> Seq<(A, B)> {
    Seq::new(if a.len() < b.len() { a.len() } else { b.len() }, |i: int| (a[i], b[i]))
}
pub open spec fn dd_get<K, V>(m: Map<K, V>, k: K, d: V) -> V { if m.dom().contains(k) { m[k] } else { d } }
/// a Python number that may be a float: its value and whether it is one
pub ghost struct PyNum { pub r: real, pub f: bool }
pub open spec fn py_num(n: int) -> PyNum { PyNum { r: n as real, f: false } }
pub open spec fn py_trunc(x: PyNum) -> int { if x.r >= 0real { x.r.floor() } else { -((0real - x.r).floor()) } }
/// n ** 0.5 of a natural number (floating point rounding is ignored)
pub uninterp spec fn root(n: int) -> real;
pub open spec fn py_sqrt(n: int) -> PyNum { PyNum { r: root(n), f: true } }
pub axiom fn root_is(n: int)
    requires n >= 0,
    ensures root(n) >= 0real, root(n) * root(n) == n as real;
pub proof fn root_of_square(n: int, k: int)
    requires k >= 0, n == k * k,
    ensures root(n) == k as real, root(n).floor() == k,
{
    root_is(n);
    let x = root(n);
    let y = k as real;
    assert(n as real == y * y) by (nonlinear_arith) requires n == k * k, y == k as real;
    assert(x == y) by (nonlinear_arith) requires x >= 0real, y >= 0real, x * x == y * y;
}

pub open spec fn seq_repeat<T>(s: Seq<T>, n: int) -> Seq<T>
    decreases (if n > 0 { n } else { 0 }),
{ if n <= 0 { Seq::empty() } else { seq_repeat(s, n - 1).add(s) } }
pub broadcast proof fn seq_repeat_one<T>(s: Seq<T>, n: int)
    requires s.len() == 1,
    ensures (#[trigger] seq_repeat(s, n)).len() == (if n > 0 { n } else { 0 }),
        forall|i: int| 0 <= i < n ==> #[trigger] seq_repeat(s, n)[i] == s[0],
    decreases (if n > 0 { n } else { 0 }),
{ if n > 0 { seq_repeat_one(s, n - 1); } }

pub open spec fn slice_idx(i: int, len: int) -> int {
    if i < 0 { if i + len < 0 { 0 } else { i + len } } else if i > len { len } else { i }
}
pub open spec fn py_slice<T>(s: Seq<T>, lo: int, hi: int) -> Seq<T> {
    if 0 <= lo <= hi <= s.len() { s.subrange(lo, hi) } else { Seq::empty() }
}
pub open spec fn seq_min(s: Seq<int>) -> int
    decreases s.len(),
{ if s.len() <= 1 { s[0] } else { let m = seq_min(s.drop_last()); if m <= s.last() { m } else { s.last() } } }
pub open spec fn seq_max(s: Seq<int>) -> int
    decreases s.len(),
{ if s.len() <= 1 { s[0] } else { let m = seq_max(s.drop_last()); if m >= s.last() { m } else { s.last() } } }
pub broadcast proof fn seq_min_is(s: Seq<int>)
    requires s.len() > 0,
    ensures s.contains(#[trigger] seq_min(s)), forall|x: int| #[trigger] s.contains(x) ==> seq_min(s) <= x,
    decreases s.len(),
{
    if s.len() == 1 { assert(s[0] == seq_min(s)); } else {
        let t = s.drop_last();
        seq_min_is(t);
        let i = choose|i: int| 0 <= i < t.len() && t[i] == seq_min(t);
        assert(s[i] == seq_min(t)); assert(s[s.len() - 1] == s.last());
        assert forall|x: int| #[trigger] s.contains(x) implies seq_min(s) <= x by {
            let j = choose|j: int| 0 <= j < s.len() && s[j] == x;
            if j < s.len() - 1 { assert(t[j] == x); assert(t.contains(x)); }
        }
    }
}
pub broadcast proof fn seq_max_is(s: Seq<int>)
    requires s.len() > 0,
    ensures s.contains(#[trigger] seq_max(s)), forall|x: int| #[trigger] s.contains(x) ==> seq_max(s) >= x,
    decreases s.len(),
{
    if s.len() == 1 { assert(s[0] == seq_max(s)); } else {
        let t = s.drop_last();
        seq_max_is(t);
        let i = choose|i: int| 0 <= i < t.len() && t[i] == seq_max(t);
        assert(s[i] == seq_max(t)); assert(s[s.len() - 1] == s.last());
        assert forall|x: int| #[trigger] s.contains(x) implies seq_max(s) >= x by {
            let j = choose|j: int| 0 <= j < s.len() && s[j] == x;
            if j < s.len() - 1 { assert(t[j] == x); assert(t.contains(x)); }
        }
    }
}
pub open spec fn seq_sum(s: Seq<int>) -> int
    decreases s.len(),
{ if s.len() == 0 { 0 } else { seq_sum(s.drop_last()) + s.last() } }
pub open spec fn first_index<T>(s: Seq<T>, x: T) -> int { s.index_of_first(x)->Some_0 }
pub open spec fn count_in<T>(s: Seq<T>, x: T) -> int { s.to_multiset().count(x) as int }
pub open spec fn remove_first<T>(s: Seq<T>, x: T) -> Seq<T>
    decreases s.len(),
{
    if s.len() == 0 { s }
    else if s[0] == x { s.subrange(1, s.len() as int) }
    else { seq![s[0]].add(remove_first(s.subrange(1, s.len() as int), x)) }
}
/// list.remove: the first occurrence goes, the rest keeps its order
pub proof fn remove_first_at<T>(s: Seq<T>, x: T, k: int)
    requires 0 <= k < s.len(), s[k] == x, forall|i: int| 0 <= i < k ==> s[i] != x,
    ensures remove_first(s, x) == s.remove(k),
    decreases s.len(),
{
    if k > 0 {
        let t = s.subrange(1, s.len() as int);
        assert forall|i: int| 0 <= i < k - 1 implies t[i] != x by { assert(t[i] == s[i + 1]); }
        remove_first_at(t, x, k - 1);
        assert(seq![s[0]].add(t.remove(k - 1)) =~= s.remove(k));
    } else {
        assert(s.subrange(1, s.len() as int) =~= s.remove(0));
    }
}
pub broadcast proof fn remove_first_nodup<T>(s: Seq<T>, x: T)
    requires s.no_duplicates(), s.contains(x),
    ensures (#[trigger] remove_first(s, x)).no_duplicates(), remove_first(s, x).len() == s.len() - 1,
        forall|y: T| #[trigger] remove_first(s, x).contains(y) <==> s.contains(y) && y != x,
{
    let k = choose|k: int| 0 <= k < s.len() && s[k] == x;
    remove_first_at(s, x, k);
    let r = s.remove(k);
    assert forall|y: T| #[trigger] r.contains(y) <==> s.contains(y) && y != x by {
        if r.contains(y) {
            let i = choose|i: int| 0 <= i < r.len() && r[i] == y;
            if i < k { assert(s[i] == y); } else { assert(s[i + 1] == y); }
        }
        if s.contains(y) && y != x {
            let i = choose|i: int| 0 <= i < s.len() && s[i] == y;
            if i < k { assert(r[i] == y); } else { assert(r[i - 1] == y); }
        }
    }
}
/// removing one copy of the single element that two lists share
pub broadcast proof fn remove_shared<T>(a: Seq<T>, b: Seq<T>, c: Seq<T>, x: T)
    requires a.no_duplicates(), b.no_duplicates(), c.no_duplicates(), a.contains(x), b.contains(x),
        forall|y: T| #[trigger] a.contains(y) && #[trigger] b.contains(y) ==> y == x,
        forall|y: T| #[trigger] a.contains(y) ==> !#[trigger] c.contains(y),
        forall|y: T| #[trigger] b.contains(y) ==> !#[trigger] c.contains(y),
    ensures (#[trigger] remove_first(a.add(b).add(c), x)).no_duplicates(),
        forall|y: T| #[trigger] remove_first(a.add(b).add(c), x).contains(y) <==> a.contains(y) || b.contains(y) || c.contains(y),
{
    broadcast use {add_contains, add_nodup, remove_first_nodup};
    let s = a.add(b).add(c);
    let k = choose|k: int| 0 <= k < a.len() && a[k] == x;
    assert forall|i: int| 0 <= i < k implies s[i] != x by { assert(s[i] == a[i]); }
    assert(s[k] == x);
    remove_first_at(s, x, k);
    remove_first_at(a, x, k);
    assert(s.remove(k) =~= a.remove(k).add(b).add(c));
    assert(a.remove(k) == remove_first(a, x));
}
pub uninterp spec fn sqrt_of(n: int) -> real;

pub open spec fn is_sorted(s: Seq<int>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] <= s[j] }
pub open spec fn sort_ints(s: Seq<int>) -> Seq<int> { s.sort_by(|a: int, b: int| a <= b) }
pub broadcast proof fn sort_ints_is(s: Seq<int>)
    ensures perm(#[trigger] sort_ints(s), s), is_sorted(sort_ints(s)),
{
    let le = |a: int, b: int| a <= b;
    assert(vstd::relations::total_ordering(le));
    s.lemma_sort_by_ensures(le);
    perm_from_multiset(sort_ints(s), s);
    assert(vstd::relations::sorted_by(sort_ints(s), le));
    assert forall|i: int, j: int| 0 <= i < j < sort_ints(s).len() implies sort_ints(s)[i] <= sort_ints(s)[j] by {
        assert(le(sort_ints(s)[i], sort_ints(s)[j]));
    }
}
pub proof fn perm_from_multiset<T>(a: Seq<T>, b: Seq<T>)
    requires a.to_multiset() == b.to_multiset(),
    ensures perm(a, b),
{
    a.to_multiset_ensures();
    b.to_multiset_ensures();
    assert forall|x: T| #[trigger] a.contains(x) <==> b.contains(x) by {
        assert(a.contains(x) <==> a.to_multiset().count(x) > 0);
        assert(b.contains(x) <==> b.to_multiset().count(x) > 0);
    }
    assert(a.to_set() =~= b.to_set());
    if a.no_duplicates() { a.lemma_multiset_has_no_duplicates(); b.lemma_multiset_has_no_duplicates_conv(); }
    if b.no_duplicates() { b.lemma_multiset_has_no_duplicates(); a.lemma_multiset_has_no_duplicates_conv(); }
}
pub open spec fn pair_le(a: (int, int), b: (int, int)) -> bool { a.0 < b.0 || (a.0 == b.0 && a.1 <= b.1) }
pub open spec fn sort_pairs(s: Seq<(int, int)>) -> Seq<(int, int)> { s.sort_by(|a: (int, int), b: (int, int)| pair_le(a, b)) }
pub broadcast proof fn sort_pairs_is(s: Seq<(int, int)>)
    ensures perm(#[trigger] sort_pairs(s), s),
{
    let le = |a: (int, int), b: (int, int)| pair_le(a, b);
    assert(vstd::relations::total_ordering(le));
    s.lemma_sort_by_ensures(le);
    perm_from_multiset(sort_pairs(s), s);
}
pub broadcast proof fn to_set_contains<T>(s: Seq<T>, x: T)
    ensures #[trigger] s.to_set().contains(x) <==> s.contains(x),
{ s.to_set_ensures(); }

pub broadcast proof fn push_contains<T>(s: Seq<T>, x: T, y: T)
    ensures #[trigger] s.push(x).contains(y) <==> s.contains(y) || x == y,
{
    if s.contains(y) { let i = choose|i: int| 0 <= i < s.len() && s[i] == y; assert(s.push(x)[i] == y); }
    assert(s.push(x)[s.len() as int] == x);
    if s.push(x).contains(y) { let i = choose|i: int| 0 <= i < s.push(x).len() && s.push(x)[i] == y; if i < s.len() { assert(s[i] == y); } }
}
pub broadcast proof fn add_contains<T>(a: Seq<T>, b: Seq<T>, y: T)
    ensures #[trigger] a.add(b).contains(y) <==> a.contains(y) || b.contains(y),
{
    let c = a.add(b);
    if a.contains(y) { let i = choose|i: int| 0 <= i < a.len() && a[i] == y; assert(c[i] == y); }
    if b.contains(y) { let i = choose|i: int| 0 <= i < b.len() && b[i] == y; assert(c[a.len() + i] == y); }
    if c.contains(y) { let i = choose|i: int| 0 <= i < c.len() && c[i] == y; if i < a.len() { assert(a[i] == y); } else { assert(b[i - a.len()] == y); } }
}
pub broadcast proof fn empty_contains<T>(y: T)
    ensures !(#[trigger] Seq::<T>::empty().contains(y)),
{ }
pub broadcast proof fn add_nodup<T>(a: Seq<T>, b: Seq<T>)
    requires a.no_duplicates(), b.no_duplicates(), forall|x: T| !(#[trigger] a.contains(x) && #[trigger] b.contains(x)),
    ensures #[trigger] a.add(b).no_duplicates(),
{
    let c = a.add(b);
    assert forall|i: int, j: int| 0 <= i < c.len() && 0 <= j < c.len() && i != j implies c[i] != c[j] by {
        if i < a.len() { assert(a.contains(a[i])); } else { assert(b.contains(b[i - a.len()])); }
        if j < a.len() { assert(a.contains(a[j])); } else { assert(b.contains(b[j - a.len()])); }
    }
}
pub broadcast proof fn push_nodup<T>(a: Seq<T>, x: T)
    requires a.no_duplicates(), !a.contains(x),
    ensures #[trigger] a.push(x).no_duplicates(),
{
    assert forall|i: int, j: int| 0 <= i < a.push(x).len() && 0 <= j < a.push(x).len() && i != j implies a.push(x)[i] != a.push(x)[j] by {
        if i < a.len() { assert(a.contains(a[i])); }
        if j < a.len() { assert(a.contains(a[j])); }
    }
}

pub broadcast proof fn empty_add_b<T>(s: Seq<T>)
    ensures #[trigger] Seq::<T>::empty().add(s) == s,
{ assert(Seq::<T>::empty().add(s) =~= s); }
pub proof fn empty_add<T>()
    ensures forall|s: Seq<T>| #[trigger] Seq::<T>::empty().add(s) == s,
{ broadcast use empty_add_b; }
/// a list without repetition is as long as the set of its elements is large
pub broadcast proof fn nodup_card<T>(s: Seq<T>, t: Set<T>)
    requires s.no_duplicates(), forall|x: T| #[trigger] s.contains(x) <==> t.contains(x),
    ensures #![trigger s.len(), t.len()] s.len() == t.len(),
{
    s.unique_seq_to_set();
    s.to_set_ensures();
    assert(s.to_set() =~= t);
}
/// a comprehension that maps every element to itself
pub broadcast proof fn comp_self<A>(s: Seq<A>, p: spec_fn(A) -> bool, f: spec_fn(A) -> A, b: A)
    ensures #[trigger] comp(s, p, f).contains(b) || !(s.contains(b) && p(b) && f(b) == b),
{ comp_contains(s, p, f, b); }
pub broadcast proof fn comp_id<A>(s: Seq<A>, p: spec_fn(A) -> bool, f: spec_fn(A) -> A)
    ensures (forall|a: A| #[trigger] s.contains(a) ==> p(a) && f(a) == a) ==> #[trigger] comp(s, p, f) == s,
{
    if forall|a: A| #[trigger] s.contains(a) ==> p(a) && f(a) == a {
        comp_all(s, p, f);
        assert forall|i: int| 0 <= i < s.len() implies comp(s, p, f)[i] == s[i] by { assert(s.contains(s[i])); }
        assert(comp(s, p, f) =~= s);
    }
}
/// equality that Verus does not rewrite to extensional equality inside assertions
pub open spec fn same_set(a: Set<int>, b: Set<int>) -> bool { a == b }
pub open spec fn seq_any<A>(s: Seq<A>) -> bool { s.len() > 0 }
pub broadcast proof fn any_witness<A>(s: Seq<A>)
    ensures #[trigger] seq_any(s) <==> exists|a: A| #[trigger] s.contains(a),
{ if s.len() > 0 { assert(s.contains(s[0])); } }
pub broadcast proof fn comp_any<A, B>(s: Seq<A>, p: spec_fn(A) -> bool, f: spec_fn(A) -> B)
    ensures #[trigger] seq_any(comp(s, p, f)) <==> exists|a: A| #[trigger] s.contains(a) && p(a),
{
    let c = comp(s, p, f);
    if c.len() > 0 { assert(c.contains(c[0])); comp_contains(s, p, f, c[0]); }
    if exists|a: A| #[trigger] s.contains(a) && p(a) {
        let a = choose|a: A| #[trigger] s.contains(a) && p(a);
        comp_contains(s, p, f, f(a));
        assert(c.contains(f(a)));
    }
}
pub broadcast proof fn flat_any<A, B>(s: Seq<A>, f: spec_fn(A) -> Seq<B>)
    ensures #[trigger] seq_any(flat(s, f)) <==> exists|a: A| #[trigger] s.contains(a) && seq_any(f(a)),
{
    let c = flat(s, f);
    if c.len() > 0 {
        assert(c.contains(c[0])); flat_contains(s, f, c[0]);
        let a = choose|a: A| #[trigger] s.contains(a) && f(a).contains(c[0]);
        assert(s.contains(a) && seq_any(f(a)));
    }
    if exists|a: A| #[trigger] s.contains(a) && seq_any(f(a)) {
        let a = choose|a: A| #[trigger] s.contains(a) && seq_any(f(a));
        assert(f(a).contains(f(a)[0]));
        flat_contains(s, f, f(a)[0]);
        assert(c.contains(f(a)[0]));
    }
}

pub broadcast proof fn map_values_contains<A, B>(s: Seq<A>, f: spec_fn(A) -> B, b: B)
    ensures #[trigger] s.map_values(f).contains(b) <==> exists|a: A| #[trigger] s.contains(a) && f(a) == b,
{
    let m = s.map_values(f);
    if m.contains(b) { let i = choose|i: int| 0 <= i < m.len() && m[i] == b; assert(s.contains(s[i]) && f(s[i]) == b); }
    if exists|a: A| #[trigger] s.contains(a) && f(a) == b {
        let a = choose|a: A| #[trigger] s.contains(a) && f(a) == b;
        let i = choose|i: int| 0 <= i < s.len() && s[i] == a;
        assert(m[i] == b);
    }
}
/// m after the assignments m[k] = v in order
pub open spec fn map_add<K, V>(m: Map<K, V>, s: Seq<(K, V)>) -> Map<K, V>
    decreases s.len(),
{
    if s.len() == 0 { m } else { map_add(m, s.drop_last()).insert(s.last().0, s.last().1) }
}
pub broadcast proof fn map_add_dom<K, V>(m: Map<K, V>, s: Seq<(K, V)>, k: K)
    ensures #[trigger] map_add(m, s).dom().contains(k) <==> m.dom().contains(k) || exists|v: V| #[trigger] s.contains((k, v)),
    decreases s.len(),
{
    if s.len() > 0 {
        let t = s.drop_last();
        map_add_dom(m, t, k);
        assert forall|v: V| #[trigger] t.contains((k, v)) implies s.contains((k, v)) by {
            let i = choose|i: int| 0 <= i < t.len() && t[i] == (k, v); assert(s[i] == (k, v)); }
        if s.last().0 == k { assert(s[s.len() - 1] == (k, s.last().1)); assert(s.contains((k, s.last().1))); }
        else {
            assert forall|v: V| #[trigger] s.contains((k, v)) implies t.contains((k, v)) by {
                let i = choose|i: int| 0 <= i < s.len() && s[i] == (k, v); assert(t[i] == (k, v)); }
        }
    }
}
pub broadcast proof fn map_add_val<K, V>(m: Map<K, V>, s: Seq<(K, V)>, k: K)
    ensures map_add(m, s).dom().contains(k) ==> (s.contains((k, #[trigger] map_add(m, s)[k])) ||
        (m.dom().contains(k) && m[k] == map_add(m, s)[k] && forall|v: V| !(#[trigger] s.contains((k, v))))),
    decreases s.len(),
{
    if s.len() > 0 && map_add(m, s).dom().contains(k) {
        let t = s.drop_last();
        map_add_val(m, t, k);
        let v = map_add(m, s)[k];
        if s.last().0 == k { assert(s[s.len() - 1] == (k, v)); }
        else {
            if t.contains((k, v)) { let i = choose|i: int| 0 <= i < t.len() && t[i] == (k, v); assert(s[i] == (k, v)); }
            assert forall|v: V| #[trigger] s.contains((k, v)) implies t.contains((k, v)) by {
                let i = choose|i: int| 0 <= i < s.len() && s[i] == (k, v); assert(t[i] == (k, v)); }
        }
    }
}

pub broadcast proof fn first_contains<A>(s: Seq<A>)
    ensures #![trigger s[0]] s.len() > 0 ==> s.contains(s[0]),
{ }
pub broadcast group prelude_facts {
    map_add_dom, map_add_val, flat_nodup, map_values_contains, empty_add_b,
    any_witness, comp_any, flat_any,
    irange_contains, irange_nodup, comp_contains, comp_all, comp_nodup, flat_contains, prod_contains, prod3_contains,
    prod_nodup, rev_contains, enumer_contains, seq_repeat_one, seq_min_is, seq_max_is, remove_first_nodup, remove_shared, sort_ints_is, sort_pairs_is,
    to_set_contains, push_contains, add_contains, empty_contains, add_nodup, push_nodup, truthy_witness, inter_all_contains,
}
