// Assumed contracts of the standard library's iterator adapters, over sequences.

pub open spec fn order__(a: int, b: int) -> Ordering {
    if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater }
}

/// Ord of integers, through references
pub trait Key__ {
    spec fn key__(&self) -> int;
    fn cmp__(&self, other: &Self) -> (r: Ordering) ensures r == order__(self.key__(), other.key__());
}
impl Key__ for i64 {
    open spec fn key__(&self) -> int { *self as int }
    fn cmp__(&self, other: &Self) -> (r: Ordering) {
        if *self < *other { Ordering::Less } else if *self == *other { Ordering::Equal } else { Ordering::Greater }
    }
}
impl<T: Key__> Key__ for &T {
    open spec fn key__(&self) -> int { (**self).key__() }
    fn cmp__(&self, other: &Self) -> (r: Ordering) { (**self).cmp__(*other) }
}

/// An iterator that is consumed from the front: what is left of it
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct It__<T> { items: std::vec::IntoIter<T> }

pub open spec fn refs__<'a, T>(s: Seq<T>) -> Seq<&'a T> { s.map_values(|x: T| &x) }

pub trait Iter__<T> {
    spec fn items__(&self) -> Seq<T>;
    fn iter__<'a>(&'a self) -> (r: It__<&'a T>)
        ensures r.rest() == refs__(self.items__()), r.rest().len() == self.items__().len(),
            forall|i: int| #![trigger r.rest()[i]] #![trigger self.items__()[i]]
                0 <= i < r.rest().len() ==> *r.rest()[i] == self.items__()[i];
}
impl<T> Iter__<T> for Vec<T> {
    open spec fn items__(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn iter__<'a>(&'a self) -> (r: It__<&'a T>) { unimplemented!() }
}
impl<T> Iter__<T> for [T] {
    open spec fn items__(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn iter__<'a>(&'a self) -> (r: It__<&'a T>) { unimplemented!() }
}

/// The comparison is a total order of whatever it compares (else std does not say which item is chosen)
pub open spec fn orders__<T, F: Fn(&T, &T) -> Ordering>(f: F) -> bool {
    &&& forall|x: &T, y: &T, o: Ordering, p: Ordering| #![trigger f.ensures((x, y), o), f.ensures((y, x), p)]
            f.ensures((x, y), o) && f.ensures((y, x), p) ==> (o is Less <==> p is Greater)
    &&& forall|x: &T, y: &T, z: &T, o: Ordering, p: Ordering, q: Ordering|
            #![trigger f.ensures((x, y), o), f.ensures((y, z), p), f.ensures((x, z), q)]
            f.ensures((x, y), o) && f.ensures((y, z), p) && f.ensures((x, z), q) && !(o is Greater) && !(p is Greater)
                ==> !(q is Greater)
}
/// Comparing the chosen item with another one never gave `never`
pub open spec fn chosen__<T, F: Fn(&T, &T) -> Ordering>(f: F, chosen: T, other: T, never: Ordering) -> bool {
    exists|o: Ordering| #[trigger] f.ensures((&chosen, &other), o) && o != never
}

impl<T> It__<T> {
    pub uninterp spec fn rest(&self) -> Seq<T>;

    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures match r {
            Some(x) => old(self).rest().len() > 0 && x == old(self).rest()[0]
                && final(self).rest() == old(self).rest().skip(1),
            None => old(self).rest().len() == 0 && final(self).rest() == old(self).rest(),
        }
    { unimplemented!() }

    #[verifier::external_body]
    pub fn find<F: Fn(&T) -> bool>(self, f: F) -> (r: Option<T>)
        requires forall|x: &T| #[trigger] f.requires((x,)),
        ensures match r {
            Some(x) => exists|i: int| 0 <= i < self.rest().len() && x == #[trigger] self.rest()[i]
                && f.ensures((&x,), true)
                && (forall|j: int| 0 <= j < i ==> f.ensures((&#[trigger] self.rest()[j],), false)),
            None => forall|j: int| 0 <= j < self.rest().len() ==> f.ensures((&#[trigger] self.rest()[j],), false),
        }
    { unimplemented!() }

    #[verifier::external_body]
    pub fn filter<F: Fn(&T) -> bool>(self, f: F) -> (r: It__<T>)
        requires forall|x: &T| #[trigger] f.requires((x,)),
        ensures forall|p: spec_fn(T) -> bool| (forall|x: T, b: bool| #[trigger] f.ensures((&x,), b) ==> b == p(x))
            ==> r.rest() == #[trigger] self.rest().filter(p)
    { unimplemented!() }

    #[verifier::external_body]
    pub fn map<U, F: Fn(T) -> U>(self, f: F) -> (r: It__<U>)
        requires forall|x: T| #[trigger] f.requires((x,)),
        ensures r.rest().len() == self.rest().len(),
            forall|i: int| #![trigger r.rest()[i]] #![trigger self.rest()[i]]
                0 <= i < self.rest().len() ==> f.ensures((self.rest()[i],), r.rest()[i])
    { unimplemented!() }

    #[verifier::external_body]
    pub fn min_by<F: Fn(&T, &T) -> Ordering>(self, f: F) -> (r: Option<T>)
        requires forall|x: &T, y: &T| #[trigger] f.requires((x, y)), orders__(f)
        ensures match r {
            Some(x) => (exists|i: int| 0 <= i < self.rest().len() && x == #[trigger] self.rest()[i])
                && (forall|j: int| 0 <= j < self.rest().len() ==> chosen__(f, x, #[trigger] self.rest()[j], Ordering::Greater)),
            None => self.rest().len() == 0,
        }
    { unimplemented!() }

    #[verifier::external_body]
    pub fn max_by<F: Fn(&T, &T) -> Ordering>(self, f: F) -> (r: Option<T>)
        requires forall|x: &T, y: &T| #[trigger] f.requires((x, y)), orders__(f)
        ensures match r {
            Some(x) => (exists|i: int| 0 <= i < self.rest().len() && x == #[trigger] self.rest()[i])
                && (forall|j: int| 0 <= j < self.rest().len() ==> chosen__(f, x, #[trigger] self.rest()[j], Ordering::Less)),
            None => self.rest().len() == 0,
        }
    { unimplemented!() }
}

pub assume_specification<T, A: core::alloc::Allocator, F: FnMut(&T) -> bool> [Vec::<T, A>::retain::<F>]
    (v: &mut Vec<T, A>, f: F)
    requires forall|a: &T| #[trigger] f.requires((a,)),
    ensures forall|p: spec_fn(T) -> bool| (forall|x: &T, b: bool| #[trigger] f.ensures((x,), b) ==> b == p(*x))
        ==> final(v)@ == #[trigger] old(v)@.filter(p);

/// What is left after filtering is what was there and meets the condition
pub proof fn filter_members__<T>(s: Seq<T>, p: spec_fn(T) -> bool)
    ensures forall|x: T| #[trigger] s.filter(p).contains(x) <==> s.contains(x) && p(x)
    decreases s.len()
{
    reveal(Seq::filter);
    if s.len() > 0 {
        let rest = s.drop_last();
        filter_members__(rest, p);
        let f = s.filter(p);
        let g = rest.filter(p);
        assert(f == if p(s.last()) { g.push(s.last()) } else { g });
        assert forall|x: T| #[trigger] f.contains(x) <==> s.contains(x) && p(x) by {
            if f.contains(x) {
                let k = choose|k: int| 0 <= k < f.len() && f[k] == x;
                if k < g.len() {
                    assert(g[k] == x);
                    assert(g.contains(x));
                    let i = choose|i: int| 0 <= i < rest.len() && rest[i] == x;
                    assert(s[i] == x);
                } else { assert(s[s.len() - 1] == x); }
            }
            if s.contains(x) && p(x) {
                let i = choose|i: int| 0 <= i < s.len() && s[i] == x;
                if i < rest.len() {
                    assert(rest[i] == x);
                    assert(g.contains(x));
                    let k = choose|k: int| 0 <= k < g.len() && g[k] == x;
                    assert(f[k] == x);
                } else { assert(f[g.len() as int] == x); }
            }
        }
    } else { assert(s.filter(p) =~= seq![]); }
}
