// Contracts of the fixed-size codecs.

use super::{contracts, ensure, reachable, Src};
use crate::common::validity_trait::Validity;
use crate::messages::fragment_number::FragmentNumber_t;
use crate::messages::header::Header;
use crate::messages::heartbeat::Heartbeat;
use crate::messages::heartbeat_frag::HeartbeatFrag;
use crate::messages::info_destination::InfoDestination;
use crate::messages::info_source::InfoSource;
use crate::messages::protocol_id::ProtocolId_t;
use crate::messages::protocol_version::ProtocolVersion_t;
use crate::messages::submessage_flag::SubmessageFlag;
use crate::messages::submessage_header::SubmessageHeader;
use crate::messages::submessage_kind::SubmessageKind;
use crate::messages::vendor_id::VendorId_t;
use crate::structure::count::Count_t;
use crate::structure::duration::Duration_t;
use crate::structure::entity_id::EntityId_t;
use crate::structure::guid::GUID_t;
use crate::structure::guid_prefix::GuidPrefix_t;
use crate::structure::instance_handle::InstanceHandle_t;
use crate::structure::locator::{LocatorKind_t, Locator_t};
use crate::structure::locator_udp_v4::LocatorUDPv4_t;
use crate::structure::parameter_id::ParameterId;
use crate::structure::reliability_kind::ReliabilityKind_t;
use crate::structure::sequence_number::SequenceNumber_t;
use crate::structure::time::Time_t;
use crate::structure::topic_kind::TopicKind_t;
use speedy::{Endianness, Readable, Reader, Writable, Writer};

/// A speedy context whose error carries nothing: the codecs are generic in the
/// context, and the content of an error is no part of their contracts
#[derive(Copy, Clone)]
pub struct Ctx(pub Endianness);
pub struct Failed;

impl From<speedy::Error> for Failed {
    fn from(error: speedy::Error) -> Self {
        std::mem::forget(error);
        Failed
    }
}
impl speedy::IsEof for Failed {
    fn is_eof(&self) -> bool {
        false
    }
}
impl speedy::Context for Ctx {
    type Error = Failed;
    fn endianness(&self) -> Endianness {
        self.0
    }
}

/// write(value) == wire, exactly, and read(wire) == value
pub fn codec<T, const N: usize>(value: &T, wire: &[u8; N], e: Endianness)
where
    T: for<'a> Readable<'a, Ctx> + Writable<Ctx> + PartialEq,
{
    writes(value, wire, e);
    reads(value, wire, e);
}

/// A reader of `N` octets: speedy's contract for `Reader`, without its pointers
pub struct Rd<'a, const N: usize> {
    pub context: Ctx,
    pub wire: &'a [u8; N],
    pub at: usize,
}

impl<'r, 'a, const N: usize> Reader<'r, Ctx> for Rd<'a, N> {
    #[inline(always)]
    fn read_bytes(&mut self, output: &mut [u8]) -> Result<(), Failed> {
        self.peek_bytes(output)?;
        self.at += output.len();
        Ok(())
    }
    #[inline(always)]
    fn peek_bytes(&mut self, output: &mut [u8]) -> Result<(), Failed> {
        if N - self.at < output.len() {
            return Err(Failed);
        }
        for i in 0..output.len() {
            output[i] = self.wire[self.at + i];
        }
        Ok(())
    }
    #[inline(always)]
    fn can_read_at_least(&self, size: usize) -> Option<bool> {
        Some(N - self.at >= size)
    }
    #[inline(always)]
    fn context(&self) -> &Ctx {
        &self.context
    }
    #[inline(always)]
    fn context_mut(&mut self) -> &mut Ctx {
        &mut self.context
    }
}

/// A writer of at most `N` octets
pub struct Wr<const N: usize> {
    pub context: Ctx,
    pub wire: [u8; N],
    pub at: usize,
}

impl<const N: usize> Writer<Ctx> for Wr<N> {
    #[inline(always)]
    fn write_bytes(&mut self, input: &[u8]) -> Result<(), Failed> {
        if N - self.at < input.len() {
            return Err(Failed);
        }
        for i in 0..input.len() {
            self.wire[self.at + i] = input[i];
        }
        self.at += input.len();
        Ok(())
    }
    #[inline(always)]
    fn context(&self) -> &Ctx {
        &self.context
    }
    #[inline(always)]
    fn context_mut(&mut self) -> &mut Ctx {
        &mut self.context
    }
}

pub fn writes<T, const N: usize>(value: &T, wire: &[u8; N], e: Endianness)
where
    T: Writable<Ctx>,
{
    let mut out = Wr { context: Ctx(e), wire: [0x5A; N], at: 0 };
    ensure!(value.write_to(&mut out).is_ok(), "write-succeeds");
    ensure!(out.at == N, "size-on-the-wire");
    ensure!(out.wire == *wire, "written-octets");
}

pub fn reads<T, const N: usize>(value: &T, wire: &[u8; N], e: Endianness)
where
    T: for<'a> Readable<'a, Ctx> + PartialEq,
{
    ensure!(matches!(read::<T, N>(wire, e), Ok(v) if v == *value), "read-value");
}

pub fn read<T, const N: usize>(wire: &[u8; N], e: Endianness) -> Result<T, Failed>
where
    T: for<'a> Readable<'a, Ctx>,
{
    ensure!(T::minimum_bytes_needed() <= N, "no-more-octets-needed");
    let mut reader = Rd { context: Ctx(e), wire, at: 0 };
    let value = T::read_from(&mut reader)?;
    ensure!(reader.at == N, "octets-read");
    Ok(value)
}

/// read(wire) is a value v with write(v) == wire, whatever the two byte orders
fn octets<S: Src, T, const N: usize>(s: &mut S, wire: &[u8; N]) -> T
where
    T: for<'a> Readable<'a, Ctx> + Writable<Ctx> + PartialEq,
{
    let (e, f) = (s.endianness(), s.endianness());
    match read::<T, N>(wire, e) {
        Ok(value) => {
            writes(&value, wire, f);
            value
        }
        Err(_) => {
            ensure!(false, "octets-are-readable");
            unreachable!()
        }
    }
}

pub fn put16(x: u16, e: Endianness) -> [u8; 2] {
    match e {
        Endianness::LittleEndian => [x as u8, (x >> 8) as u8],
        Endianness::BigEndian => [(x >> 8) as u8, x as u8],
    }
}

pub fn put32(x: u32, e: Endianness) -> [u8; 4] {
    let b = [x as u8, (x >> 8) as u8, (x >> 16) as u8, (x >> 24) as u8];
    match e {
        Endianness::LittleEndian => b,
        Endianness::BigEndian => [b[3], b[2], b[1], b[0]],
    }
}

/// A sequence number: the high 32 bits, then the low 32 bits
pub fn put_sn(x: i64, e: Endianness) -> [u8; 8] {
    let high = put32((x >> 32) as u32, e);
    let low = put32(x as u32, e);
    [high[0], high[1], high[2], high[3], low[0], low[1], low[2], low[3]]
}

/// The octets of the parts, one after the other
pub struct Wire<const N: usize> {
    pub bytes: [u8; N],
    pub at: usize,
}

impl<const N: usize> Wire<N> {
    pub fn new() -> Self {
        Wire { bytes: [0; N], at: 0 }
    }
    pub fn put<const M: usize>(mut self, part: [u8; M]) -> Self {
        self.bytes[self.at..self.at + M].copy_from_slice(&part);
        self.at += M;
        self
    }
    pub fn done(self) -> [u8; N] {
        assert!(self.at == N);
        self.bytes
    }
}

pub fn any_entity_id<S: Src>(s: &mut S) -> ([u8; 4], EntityId_t) {
    let b = s.bytes::<4>();
    (b, read::<EntityId_t, _>(&b, Endianness::LittleEndian).ok().unwrap())
}

pub fn any_prefix<S: Src>(s: &mut S) -> ([u8; 12], GuidPrefix_t) {
    let b = s.bytes::<12>();
    (b, GuidPrefix_t { entity_key: b })
}

// --- identifiers

pub fn c01_guid_prefix<S: Src>(s: &mut S) {
    let (b, prefix) = any_prefix(s);
    ensure!(GuidPrefix_t::from(b) == prefix, "from-octets");
    ensure!(octets::<S, GuidPrefix_t, 12>(s, &b).entity_key == b, "octets");
    ensure!(GuidPrefix_t::GUIDPREFIX_UNKNOWN.entity_key == [0; 12], "unknown-is-zero");
    ensure!(GuidPrefix_t::default() == GuidPrefix_t::GUIDPREFIX_UNKNOWN, "default-is-unknown");
    reachable!("c01_guid_prefix");
}

pub fn c01_entity_id<S: Src>(s: &mut S) {
    let b = s.bytes::<4>();
    octets::<S, EntityId_t, 4>(s, &b);
    ensure!(
        matches!((read::<EntityId_t, 4>(&b, Endianness::LittleEndian),
                  read::<EntityId_t, 4>(&b, Endianness::BigEndian)), (Ok(x), Ok(y)) if x == y),
        "one-value-in-both-byte-orders"
    );
    reachable!("c01_entity_id");
}

pub fn c01_entity_id_constants<S: Src>(s: &mut S) {
    let e = s.endianness();
    codec(&EntityId_t::default(), &[0, 0, 0, 0], e);
    codec(&EntityId_t::ENTITYID_UNKNOWN, &[0, 0, 0, 0], e);
    codec(&EntityId_t::ENTITYID_PARTICIPANT, &[0, 0, 1, 0xc1], e);
    codec(&EntityId_t::ENTITYID_SEDP_BUILTIN_TOPIC_WRITER, &[0, 0, 2, 0xc2], e);
    codec(&EntityId_t::ENTITYID_SEDP_BUILTIN_TOPIC_READER, &[0, 0, 2, 0xc7], e);
    codec(&EntityId_t::ENTITYID_SEDP_BUILTIN_PUBLICATIONS_WRITER, &[0, 0, 3, 0xc2], e);
    codec(&EntityId_t::ENTITYID_SEDP_BUILTIN_PUBLICATIONS_READER, &[0, 0, 3, 0xc7], e);
    codec(&EntityId_t::ENTITYID_SEDP_BUILTIN_SUBSCRIPTIONS_WRITER, &[0, 0, 4, 0xc2], e);
    codec(&EntityId_t::ENTITYID_SEDP_BUILTIN_SUBSCRIPTIONS_READER, &[0, 0, 4, 0xc7], e);
    codec(&EntityId_t::ENTITYID_SPDP_BUILTIN_PARTICIPANT_WRITER, &[0, 1, 0, 0xc2], e);
    codec(&EntityId_t::ENTITYID_SPDP_BUILTIN_PARTICIPANT_READER, &[0, 1, 0, 0xc7], e);
    codec(&EntityId_t::ENTITYID_P2P_BUILTIN_PARTICIPANT_MESSAGE_WRITER, &[0, 2, 0, 0xc2], e);
    codec(&EntityId_t::ENTITYID_P2P_BUILTIN_PARTICIPANT_MESSAGE_READER, &[0, 2, 0, 0xc7], e);
    reachable!("c01_entity_id_constants");
}

pub fn c01_guid<S: Src>(s: &mut S) {
    let (prefix_octets, guid_prefix) = any_prefix(s);
    let (id_octets, entity_id) = any_entity_id(s);
    let e = s.endianness();
    let wire = Wire::<16>::new().put(prefix_octets).put(id_octets).done();
    let guid: GUID_t = octets::<S, GUID_t, 16>(s, &wire);
    ensure!(guid.guid_prefix == guid_prefix && guid.entity_id == entity_id, "parts");
    ensure!(GUID_t::default() == GUID_t::GUID_UNKNOWN, "default-is-unknown");
    writes(&GUID_t::GUID_UNKNOWN, &[0; 16], e);
    reachable!("c01_guid");
}

pub fn c01_instance_handle<S: Src>(s: &mut S) {
    let b = s.bytes::<16>();
    ensure!(octets::<S, InstanceHandle_t, 16>(s, &b).entity_key == b, "octets");
    ensure!(InstanceHandle_t::default().entity_key == [0; 16], "default-is-zero");
    reachable!("c01_instance_handle");
}

pub fn c01_vendor_id<S: Src>(s: &mut S) {
    let b = s.bytes::<2>();
    ensure!(VendorId_t::from(b) == VendorId_t { vendor_id: b }, "from-octets");
    ensure!(octets::<S, VendorId_t, 2>(s, &b).vendor_id == b, "octets");
    ensure!(VendorId_t::VENDOR_UNKNOWN.vendor_id == [0; 2], "unknown-is-zero");
    ensure!(VendorId_t::default() == VendorId_t::VENDOR_UNKNOWN, "default-is-unknown");
    reachable!("c01_vendor_id");
}

pub fn c01_protocol_version<S: Src>(s: &mut S) {
    let b = s.bytes::<2>();
    let e = s.endianness();
    let v: ProtocolVersion_t = octets::<S, ProtocolVersion_t, 2>(s, &b);
    ensure!(v.major == b[0] && v.minor == b[1], "major-then-minor");
    codec(&ProtocolVersion_t::PROTOCOLVERSION_1_0, &[1, 0], e);
    codec(&ProtocolVersion_t::PROTOCOLVERSION_1_1, &[1, 1], e);
    codec(&ProtocolVersion_t::PROTOCOLVERSION_2_0, &[2, 0], e);
    codec(&ProtocolVersion_t::PROTOCOLVERSION_2_1, &[2, 1], e);
    codec(&ProtocolVersion_t::PROTOCOLVERSION_2_2, &[2, 2], e);
    codec(&ProtocolVersion_t::PROTOCOLVERSION_2_4, &[2, 4], e);
    codec(&ProtocolVersion_t::PROTOCOLVERSION, &[2, 4], e);
    codec(&ProtocolVersion_t::default(), &[2, 4], e);
    reachable!("c01_protocol_version");
}

pub fn c01_protocol_id<S: Src>(s: &mut S) {
    let b = s.bytes::<4>();
    let id: ProtocolId_t = octets::<S, ProtocolId_t, 4>(s, &b);
    let rtps = b == [0x52, 0x54, 0x50, 0x53];
    ensure!((id == ProtocolId_t::PROTOCOL_RTPS) == rtps, "rtps-is-RTPS");
    ensure!(id.valid() == rtps, "valid-iff-RTPS");
    ensure!(ProtocolId_t::default() == ProtocolId_t::PROTOCOL_RTPS, "default-is-RTPS");
    reachable!("c01_protocol_id");
}

pub fn c01_submessage_kind<S: Src>(s: &mut S) {
    let b = s.bytes::<1>();
    let e = s.endianness();
    octets::<S, SubmessageKind, 1>(s, &b);
    codec(&SubmessageKind::PAD, &[0x01], e);
    codec(&SubmessageKind::ACKNACK, &[0x06], e);
    codec(&SubmessageKind::HEARTBEAT, &[0x07], e);
    codec(&SubmessageKind::GAP, &[0x08], e);
    codec(&SubmessageKind::INFO_TS, &[0x09], e);
    codec(&SubmessageKind::INFO_SRC, &[0x0c], e);
    codec(&SubmessageKind::INFO_REPLAY_IP4, &[0x0d], e);
    codec(&SubmessageKind::INFO_DST, &[0x0e], e);
    codec(&SubmessageKind::INFO_REPLAY, &[0x0f], e);
    codec(&SubmessageKind::NACK_FRAG, &[0x12], e);
    codec(&SubmessageKind::HEARTBEAT_FRAG, &[0x13], e);
    codec(&SubmessageKind::DATA, &[0x15], e);
    codec(&SubmessageKind::DATA_FRAG, &[0x16], e);
    reachable!("c01_submessage_kind");
}

// --- numbers

pub fn c02_sequence_number<S: Src>(s: &mut S) {
    let x = s.i64();
    let e = s.endianness();
    let sn = SequenceNumber_t::from(x);
    ensure!(i64::from(sn) == x, "value-kept");
    codec(&sn, &put_sn(x, e), e);
    ensure!(i64::from(SequenceNumber_t::SEQUENCENUMBER_UNKNOWN) == -0x1_0000_0000, "unknown");
    ensure!(i64::from(SequenceNumber_t::default()) == 1, "first-is-one");
    reachable!("c02_sequence_number");
}

pub fn c02_fragment_number<S: Src>(s: &mut S) {
    let x = s.u32();
    let e = s.endianness();
    let n = FragmentNumber_t::from(x);
    ensure!(u32::from(n) == x, "value-kept");
    codec(&n, &put32(x, e), e);
    ensure!(u32::from(FragmentNumber_t::default()) == 1, "first-is-one");
    reachable!("c02_fragment_number");
}

pub fn c02_count<S: Src>(s: &mut S) {
    let x = s.i32();
    let e = s.endianness();
    let count = Count_t::from(x);
    ensure!(i32::from(count) == x, "value-kept");
    codec(&count, &put32(x as u32, e), e);
    reachable!("c02_count");
}

/// read(wire) == value and write(value) == wire for a pair of 32-bit words,
/// and the value does not depend on the byte order of the wire
fn two_words<S: Src, T>(s: &mut S, first: u32, second: u32) -> T
where
    T: for<'a> Readable<'a, Ctx> + Writable<Ctx> + PartialEq,
{
    let (e, f) = (s.endianness(), s.endianness());
    let wire = Wire::<8>::new().put(put32(first, e)).put(put32(second, e)).done();
    let value = match read::<T, 8>(&wire, e) {
        Ok(value) => value,
        Err(_) => {
            ensure!(false, "octets-are-readable");
            unreachable!()
        }
    };
    writes(&value, &Wire::<8>::new().put(put32(first, f)).put(put32(second, f)).done(), f);
    value
}

pub fn c02_time<S: Src>(s: &mut S) {
    let (seconds, fraction) = (s.u32(), s.u32());
    let time: Time_t = two_words(s, seconds, fraction);
    ensure!((time == Time_t::TIME_ZERO) == (seconds == 0 && fraction == 0), "zero");
    ensure!(
        (time == Time_t::TIME_INVALID) == (seconds == 0xFFFF_FFFF && fraction == 0xFFFF_FFFF),
        "invalid"
    );
    ensure!(
        (time == Time_t::TIME_INFINITE) == (seconds == 0x7FFF_FFFF && fraction == 0xFFFF_FFFF),
        "infinite"
    );
    ensure!(Time_t::default() == Time_t::TIME_ZERO, "default-is-zero");
    reachable!("c02_time");
}

pub fn c02_duration<S: Src>(s: &mut S) {
    let (seconds, fraction) = (s.u32(), s.u32());
    let duration: Duration_t = two_words(s, seconds, fraction);
    ensure!((duration == Duration_t::DURATION_ZERO) == (seconds == 0 && fraction == 0), "zero");
    ensure!(
        (duration == Duration_t::DURATION_INVALID)
            == (seconds == 0xFFFF_FFFF && fraction == 0xFFFF_FFFF),
        "invalid"
    );
    ensure!(
        (duration == Duration_t::DURATION_INFINITE)
            == (seconds == 0x7FFF_FFFF && fraction == 0xFFFF_FFFF),
        "infinite"
    );
    reachable!("c02_duration");
}

pub fn c02_locator_udp_v4<S: Src>(s: &mut S) {
    let (address, port) = (s.u32(), s.u32());
    let locator: LocatorUDPv4_t = two_words(s, address, port);
    ensure!(
        (locator == LocatorUDPv4_t::LOCATORUDPv4_INVALID) == (address == 0 && port == 0),
        "invalid"
    );
    reachable!("c02_locator_udp_v4");
}

pub fn kind_of(kind: u32) -> Option<LocatorKind_t> {
    match kind {
        0xFFFF_FFFF => Some(LocatorKind_t::LOCATOR_KIND_INVALID),
        0 => Some(LocatorKind_t::LOCATOR_KIND_RESERVED),
        1 => Some(LocatorKind_t::LOCATOR_KIND_UDPv4),
        2 => Some(LocatorKind_t::LOCATOR_KIND_UDPv6),
        _ => None,
    }
}

pub fn c02_locator<S: Src>(s: &mut S) {
    let (kind, port, address) = (s.u32(), s.u32(), s.bytes::<16>());
    let e = s.endianness();
    let wire = Wire::<24>::new().put(put32(kind, e)).put(put32(port, e)).put(address).done();
    match kind_of(kind) {
        Some(kind) => {
            codec(&Locator_t { kind, port, address }, &wire, e);
            reachable!("c02_locator known kind");
        }
        None => {
            ensure!(
                read::<Locator_t, _>(&wire, e).is_err(),
                "unknown-kind-is-an-error"
            );
            reachable!("c02_locator unknown kind");
        }
    }
    ensure!(Locator_t::default() == Locator_t::LOCATOR_INVALID, "default-is-invalid");
    ensure!(
        Locator_t::LOCATOR_INVALID
            == Locator_t { kind: LocatorKind_t::LOCATOR_KIND_INVALID, port: 0, address: [0; 16] },
        "invalid-locator"
    );
}

pub fn c02_locator_kind<S: Src>(s: &mut S) {
    let kind = s.u32();
    let e = s.endianness();
    let wire = put32(kind, e);
    match kind_of(kind) {
        Some(kind) => codec(&kind, &wire, e),
        None => ensure!(
            read::<LocatorKind_t, _>(&wire, e).is_err(),
            "unknown-kind-is-an-error"
        ),
    }
    reachable!("c02_locator_kind");
}

pub fn c02_kinds<S: Src>(s: &mut S) {
    let word = s.u32();
    let e = s.endianness();
    let wire = put32(word, e);
    match word {
        1 => codec(&TopicKind_t::NO_KEY, &wire, e),
        2 => codec(&TopicKind_t::WITH_KEY, &wire, e),
        _ => ensure!(
            read::<TopicKind_t, _>(&wire, e).is_err(),
            "unknown-kind-is-an-error"
        ),
    }
    let reliability = read::<ReliabilityKind_t, _>(&wire, e);
    ensure!(reliability.is_ok(), "octets-are-readable");
    if let Ok(reliability) = reliability {
        writes(&reliability, &wire, e);
        ensure!((reliability == ReliabilityKind_t::BEST_EFFORT) == (word == 1), "best-effort-is-1");
        ensure!((reliability == ReliabilityKind_t::RELIABLE) == (word == 2), "reliable-is-2");
    }
    reachable!("c02_kinds");
}

pub fn c02_parameter_id<S: Src>(s: &mut S) {
    let word = s.u16();
    let e = s.endianness();
    let wire = put16(word, e);
    let id = read::<ParameterId, _>(&wire, e);
    ensure!(id.is_ok(), "octets-are-readable");
    if let Ok(id) = id {
        writes(&id, &wire, e);
        ensure!((id == ParameterId::PID_PAD) == (word == 0), "pad-is-0");
        ensure!((id == ParameterId::PID_SENTINEL) == (word == 1), "sentinel-is-1");
    }
    reachable!("c02_parameter_id");
}

// --- submessages of a fixed size

pub fn c03_heartbeat<S: Src>(s: &mut S) {
    let (reader, reader_id) = any_entity_id(s);
    let (writer, writer_id) = any_entity_id(s);
    let (first, last, count) = (s.i64(), s.i64(), s.i32());
    let e = s.endianness();
    let wire = Wire::<28>::new()
        .put(reader)
        .put(writer)
        .put(put_sn(first, e))
        .put(put_sn(last, e))
        .put(put32(count as u32, e))
        .done();
    codec(
        &Heartbeat {
            reader_id,
            writer_id,
            first_sn: first.into(),
            last_sn: last.into(),
            count: count.into(),
        },
        &wire,
        e,
    );
    reachable!("c03_heartbeat");
}

pub fn c03_heartbeat_frag<S: Src>(s: &mut S) {
    let (reader, reader_id) = any_entity_id(s);
    let (writer, writer_id) = any_entity_id(s);
    let (sn, last, count) = (s.i64(), s.u32(), s.i32());
    let e = s.endianness();
    let wire = Wire::<24>::new()
        .put(reader)
        .put(writer)
        .put(put_sn(sn, e))
        .put(put32(last, e))
        .put(put32(count as u32, e))
        .done();
    codec(
        &HeartbeatFrag {
            reader_id,
            writer_id,
            writer_sn: sn.into(),
            last_fragment_num: last.into(),
            count: count.into(),
        },
        &wire,
        e,
    );
    reachable!("c03_heartbeat_frag");
}

pub fn c03_info_source<S: Src>(s: &mut S) {
    let version = s.bytes::<2>();
    let vendor = s.bytes::<2>();
    let (prefix, guid_prefix) = any_prefix(s);
    let e = s.endianness();
    let wire = Wire::<16>::new().put(version).put(vendor).put(prefix).done();
    codec(
        &InfoSource {
            protocol_version: ProtocolVersion_t { major: version[0], minor: version[1] },
            vendor_id: VendorId_t { vendor_id: vendor },
            guid_prefix,
        },
        &wire,
        e,
    );
    reachable!("c03_info_source");
}

pub fn c03_info_destination<S: Src>(s: &mut S) {
    let (wire, guid_prefix) = any_prefix(s);
    let e = s.endianness();
    codec(&InfoDestination { guid_prefix }, &wire, e);
    reachable!("c03_info_destination");
}

// --- headers

pub fn c04_header<S: Src>(s: &mut S) {
    let wire = s.bytes::<20>();
    let e = s.endianness();
    match read::<Header, _>(&wire, e) {
        Ok(header) => {
            writes(&header, &wire, e);
            let mut prefix = [0; 12];
            prefix.copy_from_slice(&wire[8..]);
            let rtps = wire[0] == 0x52 && wire[1] == 0x54 && wire[2] == 0x50 && wire[3] == 0x53;
            ensure!((header.protocol_id == ProtocolId_t::PROTOCOL_RTPS) == rtps, "protocol-id");
            ensure!(
                header.protocol_version.major == wire[4] && header.protocol_version.minor == wire[5],
                "protocol-version"
            );
            ensure!(header.vendor_id.vendor_id == [wire[6], wire[7]], "vendor-id");
            ensure!(header.guid_prefix.entity_key == prefix, "guid-prefix");
            ensure!(header.valid() == (rtps && wire[4] <= 2), "valid-iff-RTPS-and-known-major");
        }
        Err(_) => ensure!(false, "octets-are-readable"),
    }
    reachable!("c04_header");
}

pub fn c04_header_new<S: Src>(s: &mut S) {
    let (prefix, guid_prefix) = any_prefix(s);
    let e = s.endianness();
    let header = Header::new(guid_prefix);
    ensure!(header.valid(), "own-header-is-valid");
    let wire = Wire::<20>::new().put([0x52, 0x54, 0x50, 0x53, 2, 4, 0, 0]).put(prefix).done();
    codec(&header, &wire, e);
    reachable!("c04_header_new");
}

pub fn c04_submessage_header<S: Src>(s: &mut S) {
    let wire = s.bytes::<4>();
    let (e, f) = (s.endianness(), s.endianness());
    let little = wire[1] & 1 == 1;
    let length = if little {
        u16::from(wire[3]) << 8 | u16::from(wire[2])
    } else {
        u16::from(wire[2]) << 8 | u16::from(wire[3])
    };
    match read::<SubmessageHeader, _>(&wire, e) {
        Ok(header) => {
            ensure!(header.submessage_length == length, "length-in-its-own-byte-order");
            ensure!(header.flags.flags == wire[1], "flags");
            codec(&header.submessage_id, &[wire[0]], e);
            writes(&header, &wire, f);
        }
        Err(_) => ensure!(false, "octets-are-readable"),
    }
    reachable!("c04_submessage_header");
}

pub fn c04_flags<S: Src>(s: &mut S) {
    let (flags, mask) = (s.u8(), s.u8());
    let e = s.endianness();
    codec(&SubmessageFlag { flags }, &[flags], e);
    let mut flag = SubmessageFlag { flags };
    ensure!(flag.is_flag_set(mask) == (flags & mask != 0), "is-set-iff-a-bit-is-set");
    ensure!(
        flag.endianness_flag()
            == if flags & 1 == 1 { Endianness::LittleEndian } else { Endianness::BigEndian },
        "E-is-bit-0"
    );
    flag.set_flag(mask);
    ensure!(flag.flags == flags | mask, "set-changes-only-the-mask");
    flag.flags = flags;
    flag.clear_flag(mask);
    ensure!(flag.flags == flags & !mask, "clear-changes-only-the-mask");
    reachable!("c04_flags");
}

/// What the receiver asks of the buffer before it reads
pub fn c18_sizes<S: Src>(s: &mut S) {
    let _ = s;
    ensure!(<Header as Readable<Endianness>>::minimum_bytes_needed() == 20, "a-header-is-20-octets");
    ensure!(
        <SubmessageHeader as Readable<Endianness>>::minimum_bytes_needed() == 4,
        "a-submessage-header-is-4-octets"
    );
    ensure!(
        <LocatorUDPv4_t as Readable<Endianness>>::minimum_bytes_needed() == 8,
        "a-compact-locator-is-8-octets"
    );
    ensure!(<Locator_t as Readable<Endianness>>::minimum_bytes_needed() == 24, "a-locator-is-24-octets");
    reachable!("c18_sizes");
}

contracts! {
    c18_sizes / 4,
    c01_guid_prefix / 18, c01_entity_id / 18, c01_entity_id_constants / 18, c01_guid / 18,
    c01_instance_handle / 18, c01_vendor_id / 18, c01_protocol_version / 18, c01_protocol_id / 18,
    c01_submessage_kind / 18,
    c02_sequence_number / 18, c02_fragment_number / 18, c02_count / 18, c02_time / 18,
    c02_duration / 18, c02_locator_udp_v4 / 18, c02_locator / 26, c02_locator_kind / 18,
    c02_kinds / 18, c02_parameter_id / 18,
    c03_heartbeat / 30, c03_heartbeat_frag / 26, c03_info_source / 18, c03_info_destination / 18,
    c04_header / 22, c04_header_new / 22, c04_submessage_header / 18, c04_flags / 18,
}
