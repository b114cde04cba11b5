//@ include wire.rs
//@ include bit_vec_types.rs
//@ include bit_vec_spec.rs
//@ include set_wire.rs

// The parts of fixed size: which octets they are is decided by Kani (C01, C02)
pub struct EntityId_t { _e: u8 }
pub struct SequenceNumber_t { _s: u8 }
pub struct FragmentNumber_t { _f: u8 }
pub struct Count_t { _c: u8 }
pub uninterp spec fn entity_id(b: Seq<u8>) -> EntityId_t;
pub uninterp spec fn entity_id_out(v: EntityId_t) -> Seq<u8>;
pub uninterp spec fn number(b: Seq<u8>, little: bool) -> SequenceNumber_t;
pub uninterp spec fn number_out(v: SequenceNumber_t, little: bool) -> Seq<u8>;
pub uninterp spec fn fragment(b: Seq<u8>, little: bool) -> FragmentNumber_t;
pub uninterp spec fn fragment_out(v: FragmentNumber_t, little: bool) -> Seq<u8>;
pub uninterp spec fn count(b: Seq<u8>, little: bool) -> Count_t;
pub uninterp spec fn count_out(v: Count_t, little: bool) -> Seq<u8>;
pub open spec fn fixed_used(b: Seq<u8>, n: nat) -> Option<nat> { if b.len() < n { None } else { Some(n) } }

impl Readable__ for EntityId_t {
    open spec fn used__(b: Seq<u8>, little: bool) -> Option<nat> { fixed_used(b, 4) }
    open spec fn is__(&self, b: Seq<u8>, little: bool) -> bool { *self == entity_id(b.take(4)) }
    open spec fn least__() -> nat { 4 }
    #[verifier::external_body]
    fn minimum_bytes_needed() -> (r: usize) { 4 }
}
impl Writable__ for EntityId_t {
    open spec fn fits__(&self) -> bool { true }
    open spec fn put__(&self, little: bool) -> Seq<u8> { entity_id_out(*self) }
}
impl Readable__ for SequenceNumber_t {
    open spec fn used__(b: Seq<u8>, little: bool) -> Option<nat> { fixed_used(b, 8) }
    open spec fn is__(&self, b: Seq<u8>, little: bool) -> bool { *self == number(b.take(8), little) }
    open spec fn least__() -> nat { 8 }
    #[verifier::external_body]
    fn minimum_bytes_needed() -> (r: usize) { 8 }
}
impl Writable__ for SequenceNumber_t {
    open spec fn fits__(&self) -> bool { true }
    open spec fn put__(&self, little: bool) -> Seq<u8> { number_out(*self, little) }
}
impl Readable__ for FragmentNumber_t {
    open spec fn used__(b: Seq<u8>, little: bool) -> Option<nat> { fixed_used(b, 4) }
    open spec fn is__(&self, b: Seq<u8>, little: bool) -> bool { *self == fragment(b.take(4), little) }
    open spec fn least__() -> nat { 4 }
    #[verifier::external_body]
    fn minimum_bytes_needed() -> (r: usize) { 4 }
}
impl Writable__ for FragmentNumber_t {
    open spec fn fits__(&self) -> bool { true }
    open spec fn put__(&self, little: bool) -> Seq<u8> { fragment_out(*self, little) }
}
impl Readable__ for Count_t {
    open spec fn used__(b: Seq<u8>, little: bool) -> Option<nat> { fixed_used(b, 4) }
    open spec fn is__(&self, b: Seq<u8>, little: bool) -> bool { *self == count(b.take(4), little) }
    open spec fn least__() -> nat { 4 }
    #[verifier::external_body]
    fn minimum_bytes_needed() -> (r: usize) { 4 }
}
impl Writable__ for Count_t {
    open spec fn fits__(&self) -> bool { true }
    open spec fn put__(&self, little: bool) -> Seq<u8> { count_out(*self, little) }
}
/// Contracts discharged by the unit sets, on the same specification
impl Readable__ for BitSetRef {
    open spec fn used__(b: Seq<u8>, little: bool) -> Option<nat> { set_used(b, little) }
    open spec fn is__(&self, b: Seq<u8>, little: bool) -> bool { set_is(self.0, b, little) }
    open spec fn least__() -> nat { 4 }
    #[verifier::external_body]
    fn minimum_bytes_needed() -> (r: usize) { 4 }
}
impl Writable__ for BitSetRef {
    open spec fn fits__(&self) -> bool { set_fits(self.0) }
    open spec fn put__(&self, little: bool) -> Seq<u8> { set_out(self.0.bit_vec.storage@, little) }
}
/// One part, then another
pub open spec fn then(a: Option<nat>, b: Option<nat>) -> Option<nat> {
    match (a, b) { (Some(x), Some(y)) => Some(x + y), _ => None }
}
pub broadcast proof fn skips(s: Seq<u8>, a: int, b: int)
    requires 0 <= a, 0 <= b, a + b <= s.len()
    ensures #[trigger] s.skip(a).skip(b) == s.skip(a + b)
{
    assert(s.skip(a).skip(b) =~= s.skip(a + b));
}
//@ extracted

// --- the layouts

/// A number set: its base, then the marks
impl<B: Readable__> Readable__ for RangedBitSet<B> {
    open spec fn used__(b: Seq<u8>, little: bool) -> Option<nat> {
        match B::used__(b, little) {
            Some(n) => then(Some(n), set_used(b.skip(n as int), little)),
            None => None,
        }
    }
    open spec fn is__(&self, b: Seq<u8>, little: bool) -> bool {
        self.base.is__(b, little) && set_is(self.set.0, b.skip(B::used__(b, little).unwrap() as int), little)
    }
    open spec fn least__() -> nat { B::least__() + 4 }
    #[verifier::external_body]
    fn minimum_bytes_needed() -> (r: usize) { 0 }
}
impl<B: Writable__> Writable__ for RangedBitSet<B> {
    open spec fn fits__(&self) -> bool { self.base.fits__() && set_fits(self.set.0) }
    open spec fn put__(&self, little: bool) -> Seq<u8> {
        self.base.put__(little) + set_out(self.set.0.bit_vec.storage@, little)
    }
}
/// reader id, writer id, set, count
impl Readable__ for AckNack {
    open spec fn used__(b: Seq<u8>, little: bool) -> Option<nat> {
        if b.len() < 8 { None } else {
            match SequenceNumberSet_t::used__(b.skip(8), little) {
                Some(n) => then(Some(8 + n), fixed_used(b.skip((8 + n) as int), 4)),
                None => None,
            }
        }
    }
    open spec fn is__(&self, b: Seq<u8>, little: bool) -> bool {
        &&& self.reader_id == entity_id(b.take(4)) && self.writer_id == entity_id(b.skip(4).take(4))
        &&& self.reader_sn_state.is__(b.skip(8), little)
        &&& self.count == count(b.skip((8 + SequenceNumberSet_t::used__(b.skip(8), little).unwrap()) as int).take(4), little)
    }
    open spec fn least__() -> nat { 24 }
    #[verifier::external_body]
    fn minimum_bytes_needed() -> (r: usize) { 24 }
}
impl Writable__ for AckNack {
    open spec fn fits__(&self) -> bool { self.reader_sn_state.fits__() }
    open spec fn put__(&self, little: bool) -> Seq<u8> {
        entity_id_out(self.reader_id) + entity_id_out(self.writer_id) + self.reader_sn_state.put__(little)
            + count_out(self.count, little)
    }
}
/// reader id, writer id, start, set
impl Readable__ for Gap {
    open spec fn used__(b: Seq<u8>, little: bool) -> Option<nat> {
        if b.len() < 16 { None } else { then(Some(16), SequenceNumberSet_t::used__(b.skip(16), little)) }
    }
    open spec fn is__(&self, b: Seq<u8>, little: bool) -> bool {
        &&& self.reader_id == entity_id(b.take(4)) && self.writer_id == entity_id(b.skip(4).take(4))
        &&& self.gap_start == number(b.skip(8).take(8), little)
        &&& self.gap_list.is__(b.skip(16), little)
    }
    open spec fn least__() -> nat { 28 }
    #[verifier::external_body]
    fn minimum_bytes_needed() -> (r: usize) { 28 }
}
impl Writable__ for Gap {
    open spec fn fits__(&self) -> bool { self.gap_list.fits__() }
    open spec fn put__(&self, little: bool) -> Seq<u8> {
        entity_id_out(self.reader_id) + entity_id_out(self.writer_id) + number_out(self.gap_start, little)
            + self.gap_list.put__(little)
    }
}
/// reader id, writer id, sequence number, set, count
impl Readable__ for NackFrag {
    open spec fn used__(b: Seq<u8>, little: bool) -> Option<nat> {
        if b.len() < 16 { None } else {
            match FragmentNumberSet_t::used__(b.skip(16), little) {
                Some(n) => then(Some(16 + n), fixed_used(b.skip((16 + n) as int), 4)),
                None => None,
            }
        }
    }
    open spec fn is__(&self, b: Seq<u8>, little: bool) -> bool {
        &&& self.reader_id == entity_id(b.take(4)) && self.writer_id == entity_id(b.skip(4).take(4))
        &&& self.writer_sn == number(b.skip(8).take(8), little)
        &&& self.fragment_number_state.is__(b.skip(16), little)
        &&& self.count == count(b.skip((16 + FragmentNumberSet_t::used__(b.skip(16), little).unwrap()) as int).take(4), little)
    }
    open spec fn least__() -> nat { 28 }
    #[verifier::external_body]
    fn minimum_bytes_needed() -> (r: usize) { 28 }
}
impl Writable__ for NackFrag {
    open spec fn fits__(&self) -> bool { self.fragment_number_state.fits__() }
    open spec fn put__(&self, little: bool) -> Seq<u8> {
        entity_id_out(self.reader_id) + entity_id_out(self.writer_id) + number_out(self.writer_sn, little)
            + self.fragment_number_state.put__(little) + count_out(self.count, little)
    }
}
/// What is read is within the octets, and nothing shorter than the least is
pub proof fn bounded(b: Seq<u8>, little: bool)
    ensures
        AckNack::used__(b, little) is Some ==> 24 <= AckNack::used__(b, little).unwrap() <= b.len(),
        Gap::used__(b, little) is Some ==> 28 <= Gap::used__(b, little).unwrap() <= b.len(),
        NackFrag::used__(b, little) is Some ==> 28 <= NackFrag::used__(b, little).unwrap() <= b.len(),
{}
/// C06: a number set survives the wire, where its base does (SequenceNumber_t, FragmentNumber_t: Kani, C02)
pub proof fn set_survives<B: Readable__ + Writable__>(s: RangedBitSet<B>, tail: Seq<u8>, little: bool)
    requires s.fits__(),
        forall|t: Seq<u8>| B::used__(#[trigger] (s.base.put__(little) + t), little) == Some(s.base.put__(little).len()),
        forall|t: Seq<u8>, r: B| #[trigger] r.is__(s.base.put__(little) + t, little) ==> r == s.base,
    ensures ({
        let out = s.put__(little);
        &&& RangedBitSet::<B>::used__(out + tail, little) == Some(out.len())
        &&& (out + tail).skip(out.len() as int) =~= tail
        &&& forall|r: RangedBitSet<B>| #[trigger] r.is__(out + tail, little) ==>
            r.base == s.base && same_members(r.set.0, s.set.0)
    })
{
    let base = s.base.put__(little);
    let marks = set_out(s.set.0.bit_vec.storage@, little);
    let b = s.put__(little) + tail;
    assert(b =~= base + (marks + tail));
    assert(b.skip(base.len() as int) =~= marks + tail);
    survives(s.set.0, tail, little);
}
