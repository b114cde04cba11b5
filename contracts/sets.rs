// Contracts of the number sets: window, membership, wire form.

use super::codec::{any_entity_id, put32, put_sn, Ctx, Failed, Rd, Wire, Wr};
use super::{contracts, ensure, reachable, Src};
use crate::messages::ack_nack::AckNack;
use crate::messages::fragment_number::FragmentNumber_t;
use crate::messages::gap::Gap;
use crate::messages::nack_frag::NackFrag;
use crate::common::ranged_bit_set::RangedBitSet;
use crate::structure::sequence_number::SequenceNumber_t;
use num_traits::{CheckedAdd, CheckedSub, FromPrimitive, ToPrimitive};
use speedy::{Endianness, Readable, Writable};

/// The numbers a set can hold, seen as mathematical integers
pub trait Number:
    Copy
    + CheckedAdd
    + CheckedSub
    + ToPrimitive
    + FromPrimitive
    + for<'a> Readable<'a, Ctx>
    + Writable<Ctx>
{
    const OCTETS: usize;
    const MAX: i128;
    fn any<S: Src>(s: &mut S) -> Self;
    /// The number at `offset` from this one, if there is one
    fn at(self, offset: i128) -> Option<Self>;
    fn value(self) -> i128;
    fn octets(self, e: Endianness) -> [u8; 8];
}

impl Number for SequenceNumber_t {
    const OCTETS: usize = 8;
    const MAX: i128 = i64::MAX as i128;
    fn any<S: Src>(s: &mut S) -> Self {
        s.i64().into()
    }
    fn at(self, offset: i128) -> Option<Self> {
        let value = self.value() + offset;
        if value > i64::MAX as i128 || value < i64::MIN as i128 {
            return None;
        }
        Some((value as i64).into())
    }
    fn value(self) -> i128 {
        i64::from(self) as i128
    }
    fn octets(self, e: Endianness) -> [u8; 8] {
        put_sn(i64::from(self), e)
    }
}

impl Number for FragmentNumber_t {
    const OCTETS: usize = 4;
    const MAX: i128 = u32::MAX as i128;
    fn any<S: Src>(s: &mut S) -> Self {
        s.u32().into()
    }
    fn at(self, offset: i128) -> Option<Self> {
        let value = self.value() + offset;
        if value > u32::MAX as i128 || value < 0 {
            return None;
        }
        Some((value as u32).into())
    }
    fn value(self) -> i128 {
        u32::from(self) as i128
    }
    fn octets(self, e: Endianness) -> [u8; 8] {
        let b = put32(u32::from(self), e);
        [b[0], b[1], b[2], b[3], 0, 0, 0, 0]
    }
}

/// The members of a set as offsets from its base: the view of the contracts
#[derive(Copy, Clone, PartialEq)]
pub struct Members<const W: usize> {
    pub words: [u32; W],
}

impl<const W: usize> Members<W> {
    pub fn none() -> Self {
        Members { words: [0; W] }
    }
    pub fn any<S: Src>(s: &mut S) -> Self {
        let mut members = Members::none();
        for i in 0..W {
            members.words[i] = s.u32();
        }
        members
    }
    pub fn has(&self, offset: usize) -> bool {
        offset / 32 < W && self.words[offset / 32] >> (offset % 32) & 1 == 1
    }
    pub fn with(mut self, offset: usize) -> Self {
        self.words[offset / 32] |= 1 << (offset % 32);
        self
    }
    /// Those below `bits`
    pub fn below(mut self, bits: usize) -> Self {
        for i in 0..W {
            if bits <= i * 32 {
                self.words[i] = 0;
            } else if bits < i * 32 + 32 {
                self.words[i] &= (1 << (bits - i * 32)) - 1;
            }
        }
        self
    }
}

fn word(wire: &[u8], at: usize, e: Endianness) -> u32 {
    let b = [wire[at], wire[at + 1], wire[at + 2], wire[at + 3]];
    match e {
        Endianness::LittleEndian => u32::from_le_bytes(b),
        Endianness::BigEndian => u32::from_be_bytes(b),
    }
}

/// base, numBits, then one 32-bit word for each 32 bits begun
pub fn put_set<B: Number, const W: usize, const N: usize>(
    wire: &mut [u8; N],
    at: usize,
    base: B,
    bits: usize,
    words: &Members<W>,
    e: Endianness,
) -> usize {
    let mut end = at;
    let base = base.octets(e);
    for i in 0..B::OCTETS {
        wire[end + i] = base[i];
    }
    end += B::OCTETS;
    wire[end..end + 4].copy_from_slice(&put32(bits as u32, e));
    end += 4;
    for i in 0..W {
        if bits > i * 32 {
            wire[end..end + 4].copy_from_slice(&put32(words.words[i], e));
            end += 4;
        }
    }
    end
}

/// The set a receiver builds from that wire form
pub fn received<B: Number, const W: usize>(
    base: B,
    bits: usize,
    words: &Members<W>,
    e: Endianness,
) -> RangedBitSet<B> {
    let mut wire = [0; 48];
    let end = put_set(&mut wire, 0, base, bits, words, e);
    let mut reader = Rd { context: Ctx(e), wire: &wire, at: 0 };
    match RangedBitSet::<B>::read_from(&mut reader) {
        Ok(set) => {
            ensure!(reader.at == end, "octets-read");
            set
        }
        Err(_) => {
            ensure!(false, "a-set-is-readable");
            unreachable!()
        }
    }
}

/// The view of a set: what it writes
pub fn written<B: Number, const W: usize>(
    set: &RangedBitSet<B>,
    base: B,
    e: Endianness,
) -> Members<W> {
    let mut out = Wr::<48> { context: Ctx(e), wire: [0; 48], at: 0 };
    ensure!(set.write_to(&mut out).is_ok(), "write-succeeds");
    ensure!(out.at >= B::OCTETS + 4, "written-size");
    let octets = base.octets(e);
    for i in 0..B::OCTETS {
        ensure!(out.wire[i] == octets[i], "written-base");
    }
    let bits = word(&out.wire, B::OCTETS, e) as usize;
    ensure!(bits <= 256 && bits <= 32 * W, "written-numBits-at-most-256");
    ensure!(out.at == B::OCTETS + 4 + (bits + 31) / 32 * 4, "written-words");
    let mut members = Members::none();
    for i in 0..W {
        if bits > 32 * i {
            members.words[i] = word(&out.wire, B::OCTETS + 4 + 4 * i, e);
        }
    }
    ensure!(members == members.below(bits), "written-members-below-numBits");
    members
}

// --- local sets

fn new_set<S: Src, B: Number>(s: &mut S) {
    let base = B::any(s);
    let e = s.endianness();
    let set = RangedBitSet::<B>::new(base);
    ensure!(written::<B, 1>(&set, base, e) == Members::none(), "new-set-is-empty");
    ensure!(set.into_iter().next().is_none(), "new-set-yields-nothing");
    reachable!("new_set");
}

/// insert into a set received with `bits` bits, whatever its members
fn insert<S: Src, B: Number, const W: usize>(s: &mut S, bits: usize, grow: bool) {
    let base = B::any(s);
    let value = B::any(s);
    let words = Members::<W>::any(s);
    let (e, f) = (s.endianness(), s.endianness());
    let offset = value.value() - base.value();
    s.assume(grow || offset < bits as i128 || offset > 255);
    let members = words.below(bits);
    let mut set = received::<B, W>(base, bits, &words, e);

    let inserted = set.insert(value);

    let after = written::<B, W>(&set, base, f);
    if offset < 0 || offset > 255 {
        ensure!(!inserted, "outside-the-window-is-refused");
        ensure!(after == members, "refused-changes-nothing");
        reachable!("insert refused");
    } else {
        let offset = offset as usize;
        ensure!(inserted == !members.has(offset), "insert-tells-whether-it-is-new");
        ensure!(after == members.with(offset), "insert-adds-just-that-member");
        if inserted {
            reachable!("insert new");
        } else {
            reachable!("insert present");
        }
    }
}

/// the first members that iteration yields
fn iteration<S: Src, B: Number, const W: usize>(s: &mut S, bits: usize, calls: usize) {
    let base = B::any(s);
    let words = Members::<W>::any(s);
    let e = s.endianness();
    let members = words.below(bits);
    let mut iter = received::<B, W>(base, bits, &words, e).into_iter();
    let mut from = 0;
    for _ in 0..calls {
        let next = iter.next();
        match next {
            Some(value) => {
                let offset = value.value() - base.value();
                ensure!(offset >= from as i128 && offset < bits as i128, "ascending-and-below-numBits");
                let offset = offset as usize;
                ensure!(members.has(offset), "yields-only-members");
                let mut between = members.below(offset);
                for i in 0..W {
                    if from > i * 32 {
                        between.words[i] &= if from >= i * 32 + 32 { 0 } else { !0 << (from - i * 32) };
                    }
                }
                ensure!(between == Members::none(), "yields-every-member");
                from = offset + 1;
            }
            None => {
                // every member left is one that the number type cannot hold
                let room = B::MAX - base.value();
                let end = if room < bits as i128 { room as usize + 1 } else { bits };
                let mut rest = members.below(end);
                for i in 0..W {
                    if from > i * 32 {
                        rest.words[i] &= if from >= i * 32 + 32 { 0 } else { !0 << (from - i * 32) };
                    }
                }
                ensure!(rest == Members::none(), "ends-after-the-last-member");
                reachable!("iteration ends");
                return;
            }
        }
    }
}

pub fn c05_new_sn<S: Src>(s: &mut S) {
    new_set::<S, SequenceNumber_t>(s)
}
pub fn c05_new_fn<S: Src>(s: &mut S) {
    new_set::<S, FragmentNumber_t>(s)
}
pub fn c05_insert_64<S: Src>(s: &mut S) {
    insert::<S, SequenceNumber_t, 2>(s, 64, false)
}
pub fn c05_insert_50<S: Src>(s: &mut S) {
    insert::<S, FragmentNumber_t, 2>(s, 50, false)
}
pub fn c05_insert_g0<S: Src>(s: &mut S) {
    insert::<S, FragmentNumber_t, 8>(s, 0, true)
}
pub fn c05_iterate_sn<S: Src>(s: &mut S) {
    iteration::<S, SequenceNumber_t, 1>(s, 8, 3)
}

// --- whole histories, on the real buffers (run natively)

/// The wire form of a set, in a buffer of its own
fn put_any<B: Number>(base: B, bits: usize, words: &[u32], e: Endianness) -> Vec<u8> {
    let mut wire = base.octets(e)[..B::OCTETS].to_vec();
    wire.extend_from_slice(&put32(bits as u32, e));
    for word in words {
        wire.extend_from_slice(&put32(*word, e));
    }
    wire
}

/// A value near the ends, near the base or anywhere
fn near<S: Src, B: Number>(s: &mut S, base: B) -> B {
    let offset = match s.upto(5) {
        0 => 0,
        1 | 2 => s.upto(300) as i128 - 20,
        3 => 250 + s.upto(10) as i128,
        _ => return B::any(s),
    };
    base.at(offset).unwrap_or(base)
}

fn sorted(members: &std::collections::BTreeSet<usize>) -> Vec<usize> {
    members.iter().cloned().collect()
}

/// What a set is seen to hold: written, read back, iterated
fn holds<S: Src, B: Number>(
    s: &mut S,
    set: RangedBitSet<B>,
    base: B,
    members: &std::collections::BTreeSet<usize>,
    bound: usize,
) where
    RangedBitSet<B>: for<'a> Readable<'a, Endianness> + Writable<Endianness>,
{
    let e = s.endianness();
    let wire = match set.write_to_vec_with_ctx(e) {
        Ok(wire) => wire,
        Err(_) => {
            ensure!(false, "a-set-can-be-written");
            return;
        }
    };
    ensure!(wire.len() >= B::OCTETS + 4, "written-size");
    ensure!(wire[..B::OCTETS] == base.octets(e)[..B::OCTETS], "written-base");
    let bits = word(&wire, B::OCTETS, e) as usize;
    ensure!(bits <= bound, "written-numBits");
    ensure!(wire.len() == B::OCTETS + 4 + (bits + 31) / 32 * 4, "written-words");
    let seen: Vec<usize> =
        (0..(bits + 31) / 32 * 32).filter(|i| word(&wire, B::OCTETS + 4 + i / 32 * 4, e) >> (i % 32) & 1 == 1).collect();
    ensure!(seen == sorted(members), "written-members");
    ensure!(members.iter().all(|m| *m < bits), "written-numBits-covers-the-members");

    let (again, used) = RangedBitSet::<B>::read_with_length_from_buffer_with_ctx(e, &wire);
    ensure!(used == wire.len(), "reads-back-all-of-it");
    let expected: Vec<i128> = sorted(members)
        .into_iter()
        .filter_map(|m| base.at(m as i128))
        .map(B::value)
        .collect();
    for set in vec![Ok(set), again] {
        match set {
            Ok(set) => {
                let yielded: Vec<i128> = set.into_iter().map(B::value).collect();
                ensure!(yielded == expected, "yields-the-members-in-order");
            }
            Err(_) => ensure!(false, "reads-back"),
        }
    }
}

fn insertions<S: Src, B: Number>(
    s: &mut S,
    set: &mut RangedBitSet<B>,
    base: B,
    members: &mut std::collections::BTreeSet<usize>,
) {
    for _ in 0..s.some(40, 600) {
        let value = near(s, base);
        let offset = value.value() - base.value();
        let inserted = set.insert(value);
        if offset < 0 || offset > 255 {
            ensure!(!inserted, "outside-the-window-is-refused");
        } else {
            ensure!(inserted == members.insert(offset as usize), "insert-tells-whether-it-is-new");
        }
    }
}

fn local<S: Src, B: Number>(s: &mut S)
where
    RangedBitSet<B>: for<'a> Readable<'a, Endianness> + Writable<Endianness>,
{
    let base = B::any(s);
    let mut set = RangedBitSet::new(base);
    let mut members = Default::default();
    insertions(s, &mut set, base, &mut members);
    holds(s, set, base, &members, 256);
    reachable!("local");
}

fn from_the_wire<S: Src, B: Number>(s: &mut S)
where
    RangedBitSet<B>: for<'a> Readable<'a, Endianness> + Writable<Endianness>,
{
    let base = B::any(s);
    let e = s.endianness();
    let bits = if s.upto(8) == 0 { s.upto(3000) } else { s.some(300, 1 << 18) };
    let count = (bits + 31) / 32;
    let words: Vec<u32> = (0..count).map(|_| s.u32()).collect();
    let mut members: std::collections::BTreeSet<usize> =
        (0..bits).filter(|i| words[i / 32] >> (i % 32) & 1 == 1).collect();
    let mut wire = put_any(base, bits, &words, e);
    let end = wire.len();
    wire.extend_from_slice(&s.bytes::<5>());
    let (set, used) = RangedBitSet::<B>::read_with_length_from_buffer_with_ctx(e, &wire);
    ensure!(used == end, "octets-read");
    let cut = s.upto(end - 1);
    ensure!(
        RangedBitSet::<B>::read_from_buffer_with_ctx(e, &wire[..cut]).is_err(),
        "an-incomplete-set-is-an-error"
    );
    match set {
        Ok(mut set) => {
            if s.bool() {
                insertions(s, &mut set, base, &mut members);
            }
            holds(s, set, base, &members, if bits > 256 { count * 32 } else { 256 });
            reachable!("from_the_wire");
        }
        Err(_) => ensure!(false, "a-set-is-readable"),
    }
}

pub fn c05_local_sn<S: Src>(s: &mut S) {
    local::<S, SequenceNumber_t>(s)
}
pub fn c05_local_fn<S: Src>(s: &mut S) {
    local::<S, FragmentNumber_t>(s)
}
pub fn c06_wire_sn<S: Src>(s: &mut S) {
    from_the_wire::<S, SequenceNumber_t>(s)
}
pub fn c06_wire_fn<S: Src>(s: &mut S) {
    from_the_wire::<S, FragmentNumber_t>(s)
}

// --- submessages that hold a set of at most one word

/// The body, read; its fields are compared by what they write
fn body<S: Src, T, const N: usize>(s: &mut S, parts: Wire<N>, e: Endianness) -> Result<T, Failed>
where
    T: for<'a> Readable<'a, Ctx> + Writable<Ctx>,
{
    let end = parts.at;
    let mut reader = Rd { context: Ctx(e), wire: &parts.bytes, at: 0 };
    let value = T::read_from(&mut reader)?;
    ensure!(reader.at == end, "octets-read");
    let mut out = Wr::<N> { context: Ctx(e), wire: [0; N], at: 0 };
    ensure!(value.write_to(&mut out).is_ok(), "write-succeeds");
    ensure!(out.at == end, "octets-written");
    ensure!(out.wire == parts.bytes, "written-octets");
    Ok(value)
}

fn head<const N: usize>(reader: [u8; 4], writer: [u8; 4]) -> Wire<N> {
    Wire::<N>::new().put(reader).put(writer)
}

fn with_set<const N: usize>(wire: Wire<N>, words: usize, word: u32, e: Endianness) -> Wire<N> {
    let wire = wire.put(put32(words as u32 * 32, e));
    if words == 1 {
        wire.put(put32(word, e))
    } else {
        wire
    }
}

fn ack_nack<S: Src>(s: &mut S, words: usize) {
    let (reader, reader_id) = any_entity_id(s);
    let (writer, writer_id) = any_entity_id(s);
    let (base, members, count, e) = (s.i64(), s.u32(), s.i32(), s.endianness());
    let wire = with_set(head::<28>(reader, writer).put(put_sn(base, e)), words, members, e).put(put32(count as u32, e));
    match body::<S, AckNack, 28>(s, wire, e) {
        Ok(v) => {
            ensure!(v.reader_id == reader_id && v.writer_id == writer_id, "reader-then-writer");
            ensure!(i32::from(v.count) == count, "count-last");
            reachable!("ack_nack");
        }
        Err(_) => ensure!(false, "a-body-is-readable"),
    }
}

fn gap<S: Src>(s: &mut S, words: usize) {
    let (reader, reader_id) = any_entity_id(s);
    let (writer, writer_id) = any_entity_id(s);
    let (start, base, members, e) = (s.i64(), s.i64(), s.u32(), s.endianness());
    let wire = with_set(
        head::<32>(reader, writer).put(put_sn(start, e)).put(put_sn(base, e)),
        words,
        members,
        e,
    );
    match body::<S, Gap, 32>(s, wire, e) {
        Ok(v) => {
            ensure!(v.reader_id == reader_id && v.writer_id == writer_id, "reader-then-writer");
            ensure!(i64::from(v.gap_start) == start, "start");
            reachable!("gap");
        }
        Err(_) => ensure!(false, "a-body-is-readable"),
    }
}

fn nack_frag<S: Src>(s: &mut S, words: usize) {
    let (reader, reader_id) = any_entity_id(s);
    let (writer, writer_id) = any_entity_id(s);
    let (sn, base, members, count, e) = (s.i64(), s.u32(), s.u32(), s.i32(), s.endianness());
    let wire = with_set(
        head::<32>(reader, writer).put(put_sn(sn, e)).put(put32(base, e)),
        words,
        members,
        e,
    )
    .put(put32(count as u32, e));
    match body::<S, NackFrag, 32>(s, wire, e) {
        Ok(v) => {
            ensure!(v.reader_id == reader_id && v.writer_id == writer_id, "reader-then-writer");
            ensure!(i64::from(v.writer_sn) == sn, "writer-number");
            ensure!(i32::from(v.count) == count, "count-last");
            reachable!("nack_frag");
        }
        Err(_) => ensure!(false, "a-body-is-readable"),
    }
}

pub fn c03_ack_nack<S: Src>(s: &mut S) {
    ack_nack(s, 1)
}
pub fn c03_ack_nack_empty<S: Src>(s: &mut S) {
    ack_nack(s, 0)
}
pub fn c03_gap<S: Src>(s: &mut S) {
    gap(s, 1)
}
pub fn c03_gap_empty<S: Src>(s: &mut S) {
    gap(s, 0)
}
pub fn c03_nack_frag<S: Src>(s: &mut S) {
    nack_frag(s, 1)
}
pub fn c03_nack_frag_empty<S: Src>(s: &mut S) {
    nack_frag(s, 0)
}

contracts! {
    c05_new_sn / 12, c05_new_fn / 12, c05_insert_64 / 10, c05_insert_50 / 10, c05_insert_g0 / 10, c05_iterate_sn / 10,
    c05_local_sn / 8, c05_local_fn / 8, c06_wire_sn / 8, c06_wire_fn / 8,
    c03_ack_nack / 34, c03_ack_nack_empty / 34, c03_gap / 34, c03_gap_empty / 34, c03_nack_frag / 34,
    c03_nack_frag_empty / 34,
}
