/// std gives its closures as FnMut; the closures here keep no state
pub open spec fn total1__<A, O, F: Fn(A) -> O>(f: F) -> bool { forall|a: A| #[trigger] f.requires((a,)) }
pub open spec fn total__<A, B, O, F: Fn(A, B) -> O>(f: F) -> bool { forall|a: A, b: B| #[trigger] f.requires((a, b)) }
pub open spec fn total_ref__<A, O, F: Fn(&A) -> O>(f: F) -> bool { forall|a: &A| #[trigger] f.requires((a,)) }

// --- folding: a holds what there is after none, one, two ... of the items

pub open spec fn steps__<T, B, F: Fn(B, T) -> B>(s: Seq<T>, f: F, a: Seq<B>) -> bool {
    a.len() == s.len() + 1 && forall|i: int| 0 <= i < s.len() ==> f.ensures((a[i], #[trigger] s[i]), a[i + 1])
}
pub open spec fn folded__<T, B, F: Fn(B, T) -> B>(s: Seq<T>, f: F, init: B, r: B) -> bool {
    exists|a: Seq<B>| #[trigger] steps__(s, f, a) && a[0] == init && a.last() == r
}
pub proof fn none_folded__<T, B, F: Fn(B, T) -> B>(s: Seq<T>, f: F, init: B)
    ensures folded__(s.take(0), f, init, init)
{
    assert(steps__(s.take(0), f, seq![init]));
}
pub broadcast proof fn one_more_folded__<T, B, F: Fn(B, T) -> B>(s: Seq<T>, i: int, f: F, init: B, acc: B, r: B)
    requires #[trigger] folded__(s.take(i), f, init, acc), #[trigger] f.ensures((acc, s[i]), r), 0 <= i < s.len(),
    ensures folded__(s.take(i + 1), f, init, r)
{
    let a = choose|a: Seq<B>| #[trigger] steps__(s.take(i), f, a) && a[0] == init && a.last() == acc;
    let b = a.push(r);
    assert forall|j: int| 0 <= j < i + 1 implies f.ensures((b[j], #[trigger] s.take(i + 1)[j]), b[j + 1]) by {
        if j < i { assert(s.take(i)[j] == s[j]); }
    }
    assert(steps__(s.take(i + 1), f, b));
}
pub proof fn skip_first__<T>()
    ensures forall|x: T, s: Seq<T>| (#[trigger] (seq![x] + s)).skip(1) == s
{
    assert forall|x: T, s: Seq<T>| (#[trigger] (seq![x] + s)).skip(1) == s by { assert((seq![x] + s).skip(1) =~= s); }
}

// --- the least and the greatest, as in std_model.rs

pub open spec fn orders__<T, F: Fn(&T, &T) -> Ordering>(f: F) -> bool {
    &&& forall|x: &T, y: &T| #[trigger] f.requires((x, y))
    &&& forall|x: &T, y: &T, o: Ordering, p: Ordering| #![trigger f.ensures((x, y), o), f.ensures((y, x), p)]
            f.ensures((x, y), o) && f.ensures((y, x), p) ==> (o is Less <==> p is Greater)
    &&& forall|x: &T, y: &T, z: &T, o: Ordering, p: Ordering, q: Ordering|
            #![trigger f.ensures((x, y), o), f.ensures((y, z), p), f.ensures((x, z), q)]
            f.ensures((x, y), o) && f.ensures((y, z), p) && f.ensures((x, z), q) && !(o is Greater) && !(p is Greater)
                ==> !(q is Greater)
}
/// A call that is allowed has an outcome
pub open spec fn answers__<T, F: Fn(&T, &T) -> Ordering>(f: F) -> bool {
    forall|x: &T, y: &T| #[trigger] outcome__(f, x, y)
}
pub open spec fn outcome__<T, F: Fn(&T, &T) -> Ordering>(f: F, x: &T, y: &T) -> bool {
    exists|o: Ordering| #[trigger] f.ensures((x, y), o)
}
pub open spec fn chosen__<T, F: Fn(&T, &T) -> Ordering>(f: F, chosen: T, other: T, never: Ordering) -> bool {
    exists|o: Ordering| #[trigger] f.ensures((&chosen, &other), o) && o != never
}
/// x is of s, and comparing it with any other gave never `never`
pub open spec fn end_of__<T, F: Fn(&T, &T) -> Ordering>(s: Seq<T>, f: F, x: T, never: Ordering) -> bool {
    s.contains(x) && forall|j: int| 0 <= j < s.len() ==> chosen__(f, x, #[trigger] s[j], never)
}
/// z is the one of x and y that cmp::min_by or cmp::max_by takes
pub open spec fn picked__<T>(o: Ordering, x: T, y: T, z: T, never: Ordering) -> bool {
    if never is Greater { z == if o is Greater { y } else { x } } else { z == if o is Greater { x } else { y } }
}
pub open spec fn pick__<T, F: Fn(&T, &T) -> Ordering>(compare: F, x: T, y: T, z: T, never: Ordering) -> bool {
    exists|o: Ordering| #[trigger] compare.ensures((&x, &y), o) && picked__(o, x, y, z, never)
}
pub open spec fn picks__<T, F: Fn(&T, &T) -> Ordering, G: Fn(T, T) -> T>(compare: F, r: G, never: Ordering) -> bool {
    forall|x: T, y: T, z: T| #[trigger] r.ensures((x, y), z) ==> pick__(compare, x, y, z, never)
}
pub broadcast proof fn folds_to_end__<T, F: Fn(&T, &T) -> Ordering, G: Fn(T, T) -> T>(
    compare: F, g: G, never: Ordering, s: Seq<T>, r: T)
    requires orders__(compare), answers__(compare), never != Ordering::Equal, s.len() > 0,
        #[trigger] picks__(compare, g, never), #[trigger] folded__(s.skip(1), g, s[0], r),
    ensures end_of__(s, compare, r, never)
{
    let a = choose|a: Seq<T>| #[trigger] steps__(s.skip(1), g, a) && a[0] == s[0] && a.last() == r;
    folds_up_to__(compare, g, never, s, a, s.len() - 1);
    assert(s.take(s.len() as int) =~= s);
}
pub proof fn folds_up_to__<T, F: Fn(&T, &T) -> Ordering, G: Fn(T, T) -> T>(
    compare: F, g: G, never: Ordering, s: Seq<T>, a: Seq<T>, n: int)
    requires orders__(compare), answers__(compare), never != Ordering::Equal, s.len() > 0, 0 <= n < s.len(),
        picks__(compare, g, never), steps__(s.skip(1), g, a), a[0] == s[0],
    ensures end_of__(s.take(n + 1), compare, a[n], never)
    decreases n
{
    let t = s.take(n + 1);
    if n == 0 {
        assert(t[0] == s[0]);
        assert(outcome__(compare, &s[0], &s[0]));
        let o = choose|o: Ordering| #[trigger] compare.ensures((&s[0], &s[0]), o);
        assert(chosen__(compare, a[0], t[0], never));
    } else {
        folds_up_to__(compare, g, never, s, a, n - 1);
        let u = s.take(n);
        let (x, y, z) = (a[n - 1], s[n], a[n]);
        assert(s.skip(1)[n - 1] == y);
        assert(g.ensures((x, y), z));
        assert(pick__(compare, x, y, z, never));
        let o = choose|o: Ordering| #[trigger] compare.ensures((&x, &y), o) && picked__(o, x, y, z, never);
        assert(outcome__(compare, &y, &x));
        let back = choose|o: Ordering| #[trigger] compare.ensures((&y, &x), o);
        assert(outcome__(compare, &y, &y));
        let same = choose|o: Ordering| #[trigger] compare.ensures((&y, &y), o);
        let k = choose|k: int| 0 <= k < u.len() && u[k] == x;
        assert(t[k] == x);
        assert(t[n] == y);
        assert forall|j: int| 0 <= j < t.len() implies chosen__(compare, z, #[trigger] t[j], never) by {
            if j < n {
                assert(u[j] == t[j]);
                let v = t[j];
                let p = choose|p: Ordering| #[trigger] compare.ensures((&x, &v), p) && p != never;
                assert(outcome__(compare, &z, &v));
                let q = choose|q: Ordering| #[trigger] compare.ensures((&z, &v), q);
                assert(outcome__(compare, &v, &z));
                let r = choose|r: Ordering| #[trigger] compare.ensures((&v, &z), r);
                assert(outcome__(compare, &v, &x));
                let w = choose|w: Ordering| #[trigger] compare.ensures((&v, &x), w);
            }
        }
    }
}
pub assume_specification [Ordering::is_le] (o: Ordering) -> (r: bool) ensures r == !(o is Greater);
pub assume_specification [Ordering::is_gt] (o: Ordering) -> (r: bool) ensures r == (o is Greater);

// --- slice::Iter: its pointers are the model's

#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Iter<T> { items: std::vec::IntoIter<T> }
impl<T> Iter<T> {
    pub uninterp spec fn rest(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures match r {
            Some(x) => old(self).rest().len() > 0 && x == old(self).rest()[0]
                && final(self).rest() == old(self).rest().skip(1),
            None => old(self).rest().len() == 0 && final(self).rest() == old(self).rest(),
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn len__(&self) -> (r: usize) ensures r == self.rest().len() { unimplemented!() }
    /// the item i after the first, by its address
    #[verifier::external_body]
    pub fn item__(&self, i: usize) -> (r: T) requires i < self.rest().len() ensures r == self.rest()[i as int]
    { unimplemented!() }
}

// --- the first that meets a condition, and those that do

pub open spec fn found_at__<T, P: Fn(&T) -> bool>(s: Seq<T>, p: P, i: int) -> bool {
    0 <= i < s.len() && p.ensures((&s[i],), true) && none_meets__(s, p, i)
}
pub open spec fn none_meets__<T, P: Fn(&T) -> bool>(s: Seq<T>, p: P, n: int) -> bool {
    forall|j: int| 0 <= j < n ==> p.ensures((&#[trigger] s[j],), false)
}
/// p is the condition that f decides
pub open spec fn decides__<T, F: Fn(&T) -> bool>(f: F, p: spec_fn(T) -> bool) -> bool {
    forall|x: T, b: bool| #[trigger] f.ensures((&x,), b) ==> b == p(x)
}
pub open spec fn filters__<T, P: Fn(&T) -> bool>(items: Seq<T>, f: P, s: Seq<T>) -> bool {
    forall|p: spec_fn(T) -> bool| #[trigger] decides__(f, p) ==> s == items.filter(p)
}
pub open spec fn kept__<T, B, P: Fn(&T) -> bool, G: Fn(B, T) -> B>(p: P, g: G, acc: B, x: T, o: B) -> bool {
    exists|b: bool| #[trigger] p.ensures((&x,), b) && if b { g.ensures((acc, x), o) } else { o == acc }
}
pub open spec fn filtering__<T, B, P: Fn(&T) -> bool, G: Fn(B, T) -> B, R: Fn(B, T) -> B>(p: P, g: G, r: R) -> bool {
    forall|acc: B, item: T, o: B| #[trigger] r.ensures((acc, item), o) ==> kept__(p, g, acc, item, o)
}
pub broadcast proof fn filter_folded__<T, B, P: Fn(&T) -> bool, G: Fn(B, T) -> B, R: Fn(B, T) -> B>(
    items: Seq<T>, p: P, g: G, r: R, init: B, o: B)
    requires #[trigger] folded__(items, r, init, o), #[trigger] filtering__(p, g, r),
    ensures exists|s: Seq<T>| #[trigger] filters__(items, p, s) && folded__(s, g, init, o),
    decreases items.len()
{
    let a = choose|a: Seq<B>| #[trigger] steps__(items, r, a) && a[0] == init && a.last() == o;
    reveal(Seq::filter);
    if items.len() == 0 {
        assert(steps__(Seq::<T>::empty(), g, a));
        assert forall|q: spec_fn(T) -> bool| #[trigger] decides__(p, q) implies Seq::<T>::empty() == items.filter(q) by {
            assert(items.filter(q) =~= seq![]);
        }
        assert(filters__(items, p, Seq::<T>::empty()));
    } else {
        let (fore, x, mid) = (items.drop_last(), items.last(), a[a.len() - 2]);
        assert(steps__(fore, r, a.drop_last()));
        assert(a.drop_last().last() == mid);
        filter_folded__(fore, p, g, r, init, mid);
        let s = choose|s: Seq<T>| #[trigger] filters__(fore, p, s) && folded__(s, g, init, mid);
        let c = choose|a: Seq<B>| #[trigger] steps__(s, g, a) && a[0] == init && a.last() == mid;
        assert(items[items.len() - 1] == x);
        assert(r.ensures((mid, x), o));
        assert(kept__(p, g, mid, x, o));
        let b = choose|b: bool| #[trigger] p.ensures((&x,), b) && if b { g.ensures((mid, x), o) } else { o == mid };
        if b {
            let t = s.push(x);
            assert(steps__(t, g, c.push(o)));
            assert(filters__(items, p, t));
            assert(folded__(t, g, init, o));
        } else {
            assert(filters__(items, p, s));
        }
    }
}
pub proof fn none_kept__<T>(s: Seq<T>, p: spec_fn(T) -> bool)
    requires forall|j: int| 0 <= j < s.len() ==> !p(#[trigger] s[j]),
    ensures s.filter(p) == Seq::<T>::empty()
    decreases s.len()
{
    reveal(Seq::filter);
    if s.len() > 0 {
        assert(!p(s[s.len() - 1]));
        none_kept__(s.drop_last(), p);
    } else {
        assert(s.filter(p) =~= seq![]);
    }
}
pub proof fn filter_rest__<T>(s: Seq<T>, p: spec_fn(T) -> bool, i: int)
    requires 0 <= i < s.len(), p(s[i]), forall|j: int| 0 <= j < i ==> !p(#[trigger] s[j]),
    ensures s.filter(p) == seq![s[i]] + s.skip(i + 1).filter(p)
{
    let (a, b, c) = (s.take(i), seq![s[i]], s.skip(i + 1));
    none_kept__(a, p);
    assert(s =~= a + (b + c));
    Seq::filter_distributes_over_add(a, b + c, p);
    Seq::filter_distributes_over_add(b, c, p);
    assert(b.filter(p) =~= b) by {
        reveal(Seq::filter);
        assert(b.drop_last() =~= seq![]);
        assert(b.drop_last().filter(p) =~= seq![]);
    }
    assert(seq![] + (b + c.filter(p)) =~= b + c.filter(p));
}
pub proof fn filter_nexts__<T, P: Fn(&T) -> bool>(f: P, s: Seq<T>)
    ensures none_meets__(s, f, s.len() as int) ==> filters__(s, f, seq![]),
        forall|i: int, t: Seq<T>| #[trigger] found_at__(s, f, i) && #[trigger] filters__(s.skip(i + 1), f, t)
            ==> filters__(s, f, seq![s[i]] + t),
{
    if none_meets__(s, f, s.len() as int) {
        assert forall|p: spec_fn(T) -> bool| #[trigger] decides__(f, p) implies seq![] == s.filter(p) by {
            none_kept__(s, p);
        }
    }
    assert forall|i: int, t: Seq<T>| #[trigger] found_at__(s, f, i) && #[trigger] filters__(s.skip(i + 1), f, t)
        implies filters__(s, f, seq![s[i]] + t) by {
        assert forall|p: spec_fn(T) -> bool| #[trigger] decides__(f, p) implies seq![s[i]] + t == s.filter(p) by {
            filter_rest__(s, p, i);
        }
    }
}

// --- each, through a function

pub open spec fn maps__<T, U, F: Fn(T) -> U>(items: Seq<T>, f: F, s: Seq<U>) -> bool {
    s.len() == items.len() && forall|i: int| #![trigger items[i]] #![trigger s[i]]
        0 <= i < items.len() ==> f.ensures((items[i],), s[i])
}
pub open spec fn put__<T, U, B, F: Fn(T) -> U, G: Fn(B, U) -> B>(f: F, g: G, acc: B, x: T, o: B) -> bool {
    exists|u: U| #[trigger] f.ensures((x,), u) && g.ensures((acc, u), o)
}
pub open spec fn mapping__<T, U, B, F: Fn(T) -> U, G: Fn(B, U) -> B, R: Fn(B, T) -> B>(f: F, g: G, r: R) -> bool {
    forall|acc: B, item: T, o: B| #[trigger] r.ensures((acc, item), o) ==> put__(f, g, acc, item, o)
}
pub broadcast proof fn map_folded__<T, U, B, F: Fn(T) -> U, G: Fn(B, U) -> B, R: Fn(B, T) -> B>(
    items: Seq<T>, f: F, g: G, r: R, init: B, o: B)
    requires #[trigger] folded__(items, r, init, o), #[trigger] mapping__(f, g, r),
    ensures exists|s: Seq<U>| #[trigger] maps__(items, f, s) && folded__(s, g, init, o),
    decreases items.len()
{
    let a = choose|a: Seq<B>| #[trigger] steps__(items, r, a) && a[0] == init && a.last() == o;
    if items.len() == 0 {
        assert(steps__(Seq::<U>::empty(), g, a));
        assert(maps__(items, f, Seq::<U>::empty()));
    } else {
        let (fore, x, mid) = (items.drop_last(), items.last(), a[a.len() - 2]);
        assert(steps__(fore, r, a.drop_last()));
        assert(a.drop_last().last() == mid);
        map_folded__(fore, f, g, r, init, mid);
        let s = choose|s: Seq<U>| #[trigger] maps__(fore, f, s) && folded__(s, g, init, mid);
        let c = choose|a: Seq<B>| #[trigger] steps__(s, g, a) && a[0] == init && a.last() == mid;
        assert(items[items.len() - 1] == x);
        assert(r.ensures((mid, x), o));
        assert(put__(f, g, mid, x, o));
        let u = choose|u: U| #[trigger] f.ensures((x,), u) && g.ensures((mid, u), o);
        let t = s.push(u);
        assert(steps__(t, g, c.push(o)));
        assert forall|i: int| 0 <= i < items.len() implies f.ensures((items[i],), t[i]) by {
            if i < fore.len() { assert(fore[i] == items[i]); }
        }
        assert(maps__(items, f, t));
        assert(folded__(t, g, init, o));
    }
}
//@ extracted

// --- what std_model.rs says of the chains that are used, from the contracts above

/// the items of a slice that meet a condition, the least of them
fn least_of_those__<T, P: Fn(&T) -> bool, F: Fn(&T, &T) -> Ordering>(
    it: Iter<T>, predicate: P, compare: F, Ghost(p): Ghost<spec_fn(T) -> bool>) -> (r: Option<T>)
    requires total_ref__(predicate), orders__(compare), answers__(compare), decides__(predicate, p),
    ensures match r {
        Some(x) => end_of__(it.rest().filter(p), compare, x, Ordering::Greater),
        None => it.rest().filter(p).len() == 0,
    }
{
    Filter::new(it, predicate).min_by(compare)
}
/// the least and the greatest of what a function gives for each
fn least_of_each__<T, U, M: Fn(T) -> U, F: Fn(&U, &U) -> Ordering>(it: Iter<T>, f: M, compare: F) -> (r: Option<U>)
    requires total1__(f), orders__(compare), answers__(compare),
    ensures match r {
        Some(x) => exists|s: Seq<U>| #[trigger] maps__(it.rest(), f, s) && end_of__(s, compare, x, Ordering::Greater),
        None => it.rest().len() == 0,
    }
{
    let each = Map::new(it, f);
    proof { assert(forall|s: Seq<U>| #[trigger] each.gives(s) ==> maps__(it.rest(), f, s)); }
    each.min_by(compare)
}
fn greatest_of_each__<T, U, M: Fn(T) -> U, F: Fn(&U, &U) -> Ordering>(it: Iter<T>, f: M, compare: F) -> (r: Option<U>)
    requires total1__(f), orders__(compare), answers__(compare),
    ensures match r {
        Some(x) => exists|s: Seq<U>| #[trigger] maps__(it.rest(), f, s) && end_of__(s, compare, x, Ordering::Less),
        None => it.rest().len() == 0,
    }
{
    let each = Map::new(it, f);
    proof { assert(forall|s: Seq<U>| #[trigger] each.gives(s) ==> maps__(it.rest(), f, s)); }
    each.max_by(compare)
}
