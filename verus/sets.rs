//@ include wire.rs
//@ include bit_vec_spec.rs
//@ include bit_vec_lemmas.rs
//@ include set_wire.rs

/// The numbers of a set (contracts discharged by Kani: C12)
pub trait Number: Sized {
    spec fn val(&self) -> int;
    spec fn lo() -> int;
    spec fn hi() -> int;
}
pub trait CheckedSub: Number {
    fn checked_sub(&self, v: &Self) -> (r: Option<Self>)
        ensures match r {
            Some(d) => d.val() == self.val() - v.val(),
            None => !(Self::lo() <= self.val() - v.val() <= Self::hi()),
        };
}
pub trait CheckedAdd: Number {
    fn checked_add(&self, v: &Self) -> (r: Option<Self>)
        ensures match r {
            Some(d) => d.val() == self.val() + v.val(),
            None => !(Self::lo() <= self.val() + v.val() <= Self::hi()),
        };
}
pub trait ToPrimitive: Number {}
pub trait FromPrimitive: Number {
    fn from_usize(n: usize) -> (r: Option<Self>)
        ensures match r {
            Some(d) => d.val() == n,
            None => !(Self::lo() <= n <= Self::hi()),
        };
}
pub trait NumCast: Sized {
    spec fn ival(self) -> int;
    spec fn imax() -> int;
    fn from<T: ToPrimitive>(n: T) -> (r: Option<Self>)
        ensures match r { Some(x) => x.ival() == n.val(), None => !(0 <= n.val() <= Self::imax()) };
}
impl NumCast for u8 {
    open spec fn ival(self) -> int { self as int }
    open spec fn imax() -> int { 255 }
    #[verifier::external_body]
    fn from<T: ToPrimitive>(n: T) -> (r: Option<Self>) { None }
}

pub broadcast proof fn masked_bits(w: u32, k: u32, b: int)
    requires k < 32, 0 <= b < 32
    ensures #[trigger] bit(w & ((1u32 << k) - 1) as u32, b) == (b < k && bit(w, b))
{
    let c = b as u32;
    let m = ((1u32 << k) - 1) as u32;
    assert((1u32 << k) >= 1) by (bit_vector) requires k < 32;
    assert(m == sub(1u32 << k, 1));
    assert((((w & m) >> c) & 1 == 1) == (c < k && (w >> c) & 1 == 1)) by (bit_vector)
        requires k < 32, c < 32, m == sub(1u32 << k, 1);
}
pub broadcast proof fn mask_exists(k: u32)
    requires k < 32
    ensures #[trigger] (1u32 << k) >= 1
{
    assert((1u32 << k) >= 1) by (bit_vector) requires k < 32;
}

pub assume_specification [<u32 as core::convert::From<bool>>::from] (b: bool) -> (r: u32)
    ensures r == if b { 1u32 } else { 0u32 };

pub broadcast proof fn take_all(s: Seq<u32>)
    ensures #[trigger] s.take(s.len() as int) == s
{
    assert(s.take(s.len() as int) =~= s);
}
/// A value of the number type
pub open spec fn sane<B: Number>(b: B) -> bool {
    B::lo() <= 0 && B::hi() >= 0xffff_ffff && B::lo() <= b.val() <= B::hi()
}
pub open spec fn first_marked(s: Seq<bool>, k: int) -> bool {
    0 <= k < s.len() && s[k] && forall|j: int| 0 <= j < k ==> !s[j]
}
pub open spec fn in_window<B: Number>(base: B, value: B) -> bool { 0 <= value.val() - base.val() <= 255 }
impl<B> RangedBitSet<B> where B: CheckedAdd + CheckedSub + ToPrimitive + FromPrimitive {
    pub open spec fn member(&self, v: int) -> bool { self.set.0.has(v - self.base.val()) }
}
//@ extracted

/// C05: iterating gives precisely the members, each once, ascending
pub fn collected<B>(set: RangedBitSet<B>) -> (out: Vec<B>)
    where B: CheckedAdd + CheckedSub + ToPrimitive + FromPrimitive
    requires set.set.0.good(), sane(set.base),
    ensures
        forall|a: int, b: int| 0 <= a < b < out@.len() ==> out@[a].val() < out@[b].val(),
        forall|a: int| 0 <= a < out@.len() ==> set.member(#[trigger] out@[a].val()),
        forall|v: int| #[trigger] set.member(v) && v <= B::hi() && v - set.base.val() <= B::hi() ==>
            exists|a: int| 0 <= a < out@.len() && #[trigger] out@[a].val() == v,
{
    let ghost base = set.base.val();
    let ghost bits = set.set.0.bit_vec;
    let ghost whole = set;
    let mut iter = set.into_iter();
    let mut out: Vec<B> = Vec::new();
    let ghost first = iter.iter.rest();
    loop
        invariant_except_break
            sane(iter.base), iter.iter.iter.sound(), iter.base.val() == base, base == whole.base.val(), bits == whole.set.0.bit_vec,
            first.len() == bits.nbits,
            forall|i: int| 0 <= i < bits.nbits ==> #[trigger] first[i] == bits.has(i),
            0 <= iter.iter.at() <= first.len(),
            iter.iter.rest() == first.skip(iter.iter.at() as int),
            forall|a: int, b: int| 0 <= a < b < out@.len() ==> out@[a].val() < out@[b].val(),
            forall|a: int| 0 <= a < out@.len() ==> whole.member(#[trigger] out@[a].val())
                && out@[a].val() < base + iter.iter.at(),
            forall|i: int| 0 <= i < iter.iter.at() && #[trigger] first[i] ==>
                exists|a: int| 0 <= a < out@.len() && #[trigger] out@[a].val() == base + i,
        ensures
            base == whole.base.val(), bits == whole.set.0.bit_vec, first.len() == bits.nbits,
            forall|i: int| 0 <= i < bits.nbits ==> #[trigger] first[i] == bits.has(i),
            forall|a: int, b: int| 0 <= a < b < out@.len() ==> out@[a].val() < out@[b].val(),
            forall|a: int| 0 <= a < out@.len() ==> whole.member(#[trigger] out@[a].val()),
            forall|i: int| 0 <= i < first.len() && #[trigger] first[i] ==>
                (exists|a: int| 0 <= a < out@.len() && #[trigger] out@[a].val() == base + i)
                || base + i > B::hi() || i > B::hi(),
        decreases first.len() - iter.iter.at(),
    {
        let ghost at = iter.iter.at() as int;
        let ghost sent = out@;
        match iter.next() {
            None => {
                proof {
                    assert forall|i: int| 0 <= i < first.len() && #[trigger] first[i] implies
                        (exists|a: int| 0 <= a < out@.len() && #[trigger] out@[a].val() == base + i)
                        || base + i > B::hi() || i > B::hi() by {
                        if i >= at { assert(first.skip(at)[i - at] == first[i]); }
                    }
                }
                break;
            }
            Some(v) => {
                let ghost k = iter.iter.at() - at - 1;
                proof {
                    assert(first.skip(at)[k] == first[at + k]);
                    assert(bits.has(at + k));
                    assert(whole.member(v.val()));
                }
                out.push(v);
                proof {
                    assert(first.skip(at).skip(k + 1) =~= first.skip(at + k + 1));
                    assert forall|i: int| 0 <= i < at + k + 1 && #[trigger] first[i] implies
                        exists|a: int| 0 <= a < out@.len() && #[trigger] out@[a].val() == base + i by {
                        if i < at {
                            let a = choose|a: int| 0 <= a < sent.len() && #[trigger] sent[a].val() == base + i;
                            assert(out@[a].val() == base + i);
                        } else if i < at + k {
                            assert(first.skip(at)[i - at] == first[i]);
                        } else {
                            assert(out@[sent.len() as int].val() == base + i);
                        }
                    }
                }
            }
        }
    }
    proof {
        assert forall|v: int| #[trigger] whole.member(v) && v <= B::hi() && v - base <= B::hi() implies
            exists|a: int| 0 <= a < out@.len() && #[trigger] out@[a].val() == v by {
            assert(first[v - base]);
        }
    }
    out
}
