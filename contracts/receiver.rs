// Contracts of the receiver: one step of `decode`, from any state, on any buffer.

use super::*;
use crate::messages::fragment_number::FragmentNumber_t;
use crate::structure::sequence_number::SequenceNumber_t;
use crate::verif::codec::{put16, put32, put_sn, Ctx, Failed};
use crate::verif::{contracts, ensure, reachable, Src};
use speedy::Reader;

// --- the specification: one step, as a function of state and buffer

/// speedy's `Reader` over a slice
struct Sl<'a> {
    context: Ctx,
    rest: &'a [u8],
}

impl<'r, 'a> Reader<'r, Ctx> for Sl<'a> {
    fn read_bytes(&mut self, output: &mut [u8]) -> Result<(), Failed> {
        self.peek_bytes(output)?;
        self.rest = &self.rest[output.len()..];
        Ok(())
    }
    fn peek_bytes(&mut self, output: &mut [u8]) -> Result<(), Failed> {
        if self.rest.len() < output.len() {
            return Err(Failed);
        }
        for i in 0..output.len() {
            output[i] = self.rest[i];
        }
        Ok(())
    }
    fn can_read_at_least(&self, size: usize) -> Option<bool> {
        Some(self.rest.len() >= size)
    }
    fn context(&self) -> &Ctx {
        &self.context
    }
    fn context_mut(&mut self) -> &mut Ctx {
        &mut self.context
    }
}

fn parse<'x, T>(body: &'x [u8], e: Endianness) -> Option<T>
where
    T: for<'a> Readable<'a, Ctx>,
{
    T::read_from(&mut Sl { context: Ctx(e), rest: body }).ok()
}

fn word(b: &[u8], e: Endianness) -> u32 {
    let b = [b[0], b[1], b[2], b[3]];
    match e {
        Endianness::LittleEndian => u32::from_le_bytes(b),
        Endianness::BigEndian => u32::from_be_bytes(b),
    }
}

fn locator(b: &[u8], e: Endianness) -> Option<Locator_t> {
    let kind = match word(b, e) {
        0xffff_ffff => LocatorKind_t::LOCATOR_KIND_INVALID,
        0 => LocatorKind_t::LOCATOR_KIND_RESERVED,
        1 => LocatorKind_t::LOCATOR_KIND_UDPv4,
        2 => LocatorKind_t::LOCATOR_KIND_UDPv6,
        _ => return None,
    };
    let mut address = [0; 16];
    address.copy_from_slice(&b[8..24]);
    Some(Locator_t { kind, port: word(&b[4..], e), address })
}

/// A counted list of locators, and what follows it
fn locators(b: &[u8], e: Endianness) -> Option<(LocatorList_t, &[u8])> {
    if b.len() < 4 {
        return None;
    }
    let count = word(b, e) as usize;
    let mut rest = &b[4..];
    let mut list = vec![];
    for _ in 0..count {
        if rest.len() < 24 {
            return None;
        }
        list.push(locator(rest, e)?);
        rest = &rest[24..];
    }
    Some((list, rest))
}

/// A compact IPv4 locator as the full one
fn compact(b: &[u8], e: Endianness) -> Locator_t {
    let (number, port) = (word(b, e), word(&b[4..], e));
    let mut address = [0; 16];
    address[12..].copy_from_slice(&number.to_be_bytes());
    Locator_t {
        kind: if number == 0 {
            LocatorKind_t::LOCATOR_KIND_INVALID
        } else {
            LocatorKind_t::LOCATOR_KIND_UDPv4
        },
        port,
        address,
    }
}

pub struct State {
    pub in_message: bool,
    pub kind: LocatorKind_t,
    pub receiver: Receiver,
}

pub enum Outcome {
    Wait,
    Nothing,
    Item(EntitySubmessage),
    Error,
    /// DATA and DATA_FRAG: not implemented (known finding of C19)
    Unimplemented,
}

fn invalid(kind: LocatorKind_t) -> LocatorList_t {
    vec![Locator_t { kind, port: 0, address: [0; 16] }]
}

fn prefix(b: &[u8]) -> GuidPrefix_t {
    let mut entity_key = [0; 12];
    entity_key.copy_from_slice(&b[..12]);
    GuidPrefix_t { entity_key }
}

fn item<T>(value: Option<T>, make: impl FnOnce(T) -> EntitySubmessage) -> Outcome {
    match value {
        Some(value) => Outcome::Item(make(value)),
        None => Outcome::Error,
    }
}

/// -> the outcome, and the number of octets used
pub fn step(s: &mut State, buffer: &[u8]) -> (Outcome, usize) {
    if !s.in_message {
        if buffer.len() < 20 {
            return (Outcome::Wait, 0);
        }
        if buffer[..4] != *b"RTPS" || buffer[4] > 2 {
            return (Outcome::Error, 20);
        }
        s.in_message = true;
        s.receiver = Receiver {
            source_version: ProtocolVersion_t { major: buffer[4], minor: buffer[5] },
            source_vendor_id: VendorId_t { vendor_id: [buffer[6], buffer[7]] },
            source_guid_prefix: prefix(&buffer[8..]),
            dest_guid_prefix: GuidPrefix_t { entity_key: [0; 12] },
            unicast_reply_locator_list: invalid(s.kind),
            multicast_reply_locator_list: invalid(s.kind),
            have_timestamp: false,
            timestamp: Time_t::TIME_INVALID,
        };
        return (Outcome::Nothing, 20);
    }

    if buffer.len() < 4 {
        return (Outcome::Wait, 0);
    }
    let (id, flags) = (buffer[0], buffer[1]);
    let e = if flags & 1 == 1 { Endianness::LittleEndian } else { Endianness::BigEndian };
    let announced = match e {
        Endianness::LittleEndian => usize::from(buffer[2]) + 256 * usize::from(buffer[3]),
        Endianness::BigEndian => usize::from(buffer[3]) + 256 * usize::from(buffer[2]),
    };
    if buffer.len() - 4 < announced {
        return (Outcome::Wait, 0);
    }
    // zero: up to the end of the message, except for PAD and INFO_TS
    let last = announced == 0 && id != 0x01 && id != 0x09;
    let length = if last { buffer.len() - 4 } else { announced };
    if last {
        s.in_message = false;
    }
    let body = &buffer[4..4 + length];
    let flag = |flags| crate::messages::submessage_flag::SubmessageFlag { flags };
    let multicast = flags & 2 == 2;
    let r = &mut s.receiver;

    let outcome = match id {
        0x06 => item(parse::<AckNack>(body, e), |v| EntitySubmessage::AckNack(v, flag(flags))),
        0x07 => item(parse::<Heartbeat>(body, e), |v| EntitySubmessage::Heartbeat(v, flag(flags))),
        0x08 => item(parse::<Gap>(body, e), EntitySubmessage::Gap),
        0x12 => item(parse::<NackFrag>(body, e), EntitySubmessage::NackFrag),
        0x13 => item(parse::<HeartbeatFrag>(body, e), EntitySubmessage::HeartbeatFrag),
        0x15 | 0x16 => Outcome::Unimplemented,
        0x0c => {
            if body.len() < 16 {
                Outcome::Error
            } else {
                r.source_version = ProtocolVersion_t { major: body[0], minor: body[1] };
                r.source_vendor_id = VendorId_t { vendor_id: [body[2], body[3]] };
                r.source_guid_prefix = prefix(&body[4..]);
                r.unicast_reply_locator_list = invalid(LocatorKind_t::LOCATOR_KIND_INVALID);
                r.multicast_reply_locator_list = invalid(LocatorKind_t::LOCATOR_KIND_INVALID);
                r.have_timestamp = false;
                Outcome::Nothing
            }
        }
        0x0e => {
            if body.len() < 12 {
                Outcome::Error
            } else {
                if body[..12] != [0; 12] {
                    r.dest_guid_prefix = prefix(body);
                }
                Outcome::Nothing
            }
        }
        0x0f => match locators(body, e) {
            None => Outcome::Error,
            Some((unicast, rest)) => {
                if multicast {
                    match locators(rest, e) {
                        None => Outcome::Error,
                        Some((list, _)) => {
                            r.unicast_reply_locator_list = unicast;
                            r.multicast_reply_locator_list = list;
                            Outcome::Nothing
                        }
                    }
                } else {
                    r.unicast_reply_locator_list = unicast;
                    r.multicast_reply_locator_list = vec![];
                    Outcome::Nothing
                }
            }
        },
        0x0d => {
            if body.len() < if multicast { 16 } else { 8 } {
                Outcome::Error
            } else {
                r.unicast_reply_locator_list = vec![compact(body, e)];
                r.multicast_reply_locator_list = if multicast { vec![compact(&body[8..], e)] } else { vec![] };
                Outcome::Nothing
            }
        }
        0x09 => {
            if flags & 2 == 2 {
                r.have_timestamp = false;
                Outcome::Nothing
            } else if body.len() < 8 {
                Outcome::Error
            } else {
                r.have_timestamp = true;
                r.timestamp = parse::<Time_t>(body, e).unwrap();
                Outcome::Nothing
            }
        }
        _ => Outcome::Nothing,
    };
    (outcome, 4 + length)
}

// --- the state, made and seen

fn copy_locator(l: &Locator_t) -> Locator_t {
    Locator_t { kind: l.kind, port: l.port, address: l.address }
}

fn copy(r: &Receiver) -> Receiver {
    Receiver {
        source_version: r.source_version,
        source_vendor_id: r.source_vendor_id,
        source_guid_prefix: r.source_guid_prefix,
        dest_guid_prefix: r.dest_guid_prefix,
        unicast_reply_locator_list: r.unicast_reply_locator_list.iter().map(copy_locator).collect(),
        multicast_reply_locator_list: r.multicast_reply_locator_list.iter().map(copy_locator).collect(),
        have_timestamp: r.have_timestamp,
        timestamp: r.timestamp,
    }
}

fn any_kind<S: Src>(s: &mut S) -> LocatorKind_t {
    match s.u8() & 3 {
        0 => LocatorKind_t::LOCATOR_KIND_INVALID,
        1 => LocatorKind_t::LOCATOR_KIND_RESERVED,
        2 => LocatorKind_t::LOCATOR_KIND_UDPv4,
        _ => LocatorKind_t::LOCATOR_KIND_UDPv6,
    }
}

fn any_locator<S: Src>(s: &mut S) -> Locator_t {
    Locator_t { kind: any_kind(s), port: s.u32(), address: s.bytes::<16>() }
}

fn any_time<S: Src>(s: &mut S) -> Time_t {
    parse::<Time_t>(&s.bytes::<8>(), Endianness::LittleEndian).unwrap()
}

fn any_receiver<S: Src>(s: &mut S) -> Receiver {
    Receiver {
        source_version: ProtocolVersion_t { major: s.u8(), minor: s.u8() },
        source_vendor_id: VendorId_t { vendor_id: s.bytes::<2>() },
        source_guid_prefix: GuidPrefix_t { entity_key: s.bytes::<12>() },
        dest_guid_prefix: GuidPrefix_t { entity_key: s.bytes::<12>() },
        unicast_reply_locator_list: vec![any_locator(s)],
        multicast_reply_locator_list: vec![any_locator(s)],
        have_timestamp: s.bool(),
        timestamp: any_time(s),
    }
}

/// A receiver in a message, with that interpreter state
fn in_message(kind: LocatorKind_t, receiver: Receiver) -> MessageReceiver {
    let mut r = MessageReceiver::new(kind);
    let header = *b"RTPS\x02\x04\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00";
    let mut bytes = BytesMut::from(&header[..]);
    let outcome = r.decode(&mut bytes);
    ensure!(matches!(outcome, Ok(None)) && bytes.len() == 0, "a-header-starts-a-message");
    std::mem::forget(outcome);
    r.receiver = receiver;
    r
}

/// Whether a submessage comes next: an empty PAD is used in a message and not before one
fn expects_submessage(r: &mut MessageReceiver) -> bool {
    let mut bytes = BytesMut::from(&[1u8, 0, 0, 0][..]);
    let outcome = r.decode(&mut bytes);
    ensure!(matches!(outcome, Ok(None)), "an-empty-pad-gives-nothing");
    std::mem::forget(outcome);
    bytes.len() == 0
}

/// decode does what the specification says
fn conforms(r: &mut MessageReceiver, state: &mut State, bytes: &mut BytesMut) -> Outcome {
    let buffer = bytes.to_vec();
    let was_in_message = state.in_message;
    let (expected, used) = step(state, &buffer);
    if let Outcome::Unimplemented = expected {
        return expected;
    }
    let outcome = r.decode(bytes);
    match (&expected, &outcome) {
        (Outcome::Wait, Ok(None)) => {
            ensure!(bytes.len() == buffer.len(), "waiting-uses-nothing")
        }
        (Outcome::Nothing, Ok(None)) => {}
        (Outcome::Item(expected), Ok(Some(item))) => ensure!(item == expected, "delivered-submessage"),
        (Outcome::Error, Err(_)) => {}
        (Outcome::Wait, Ok(Some(_))) | (Outcome::Nothing, Ok(Some(_))) => {
            ensure!(false, "delivered-without-a-submessage")
        }
        (Outcome::Item(_), Ok(None)) => ensure!(false, "submessage-not-delivered"),
        (Outcome::Error, _) => ensure!(false, "malformed-is-an-error"),
        _ => ensure!(false, "well-formed-is-no-error"),
    }
    ensure!(bytes.len() == buffer.len() - used, "octets-used");
    ensure!(bytes[..] == buffer[used..], "what-follows-is-left");
    let refused = if let Outcome::Error = expected { true } else { false };
    if refused && !was_in_message {
        ensure!(!expects_submessage(r), "a-refused-header-starts-no-message");
    }
    if refused && was_in_message {
        // what a refused submessage leaves of the state is not specified
        state.receiver = copy(&r.receiver);
    } else {
        ensure!(r.receiver.source_version == state.receiver.source_version, "source-version");
        ensure!(r.receiver.source_vendor_id == state.receiver.source_vendor_id, "source-vendor");
        ensure!(r.receiver.source_guid_prefix == state.receiver.source_guid_prefix, "source-prefix");
        ensure!(r.receiver.dest_guid_prefix == state.receiver.dest_guid_prefix, "destination-prefix");
        ensure!(
            r.receiver.unicast_reply_locator_list == state.receiver.unicast_reply_locator_list,
            "unicast-reply-locators"
        );
        ensure!(
            r.receiver.multicast_reply_locator_list == state.receiver.multicast_reply_locator_list,
            "multicast-reply-locators"
        );
        ensure!(r.receiver.have_timestamp == state.receiver.have_timestamp, "have-timestamp");
        ensure!(
            !state.receiver.have_timestamp || r.receiver.timestamp == state.receiver.timestamp,
            "timestamp"
        );
        // a timestamp that does not count may be anything
        state.receiver.timestamp = r.receiver.timestamp;
    }
    std::mem::forget(outcome);
    expected
}

// --- whole messages, however they arrive (run natively)

fn octets<S: Src>(s: &mut S, length: usize) -> Vec<u8> {
    let seed = s.bytes::<32>();
    (0..length).map(|i| seed[i % 32]).collect()
}

fn put_set<S: Src>(s: &mut S, body: &mut Vec<u8>, base: usize, e: Endianness) {
    body.extend_from_slice(&s.bytes::<8>()[..base]);
    let bits = match s.upto(12) {
        0 => s.u32(),
        1 | 2 => s.upto(300) as u32,
        _ => s.some(70, 70_000) as u32,
    };
    body.extend_from_slice(&put32(bits, e));
    let complete = s.upto(20) > 0;
    for _ in 0..(bits / 32 + 1).min(if bits > 70_000 { 12 } else { 2_200 }) {
        if complete || s.bool() {
            body.extend_from_slice(&s.bytes::<4>());
        }
    }
}

fn put_locator<S: Src>(s: &mut S, body: &mut Vec<u8>, e: Endianness, of_any_kind: bool) {
    let kind = match s.upto(8) {
        0 if of_any_kind => s.u32(),
        n => [1, 2, 0, 0xffff_ffff][n % 4],
    };
    body.extend_from_slice(&put32(kind, e));
    body.extend_from_slice(&put32(s.u32(), e));
    body.extend_from_slice(&s.bytes::<16>());
}

fn put_compact<S: Src>(s: &mut S, body: &mut Vec<u8>, e: Endianness) {
    let address = s.u32();
    body.extend_from_slice(&put32(address, e));
    // a port that fits: others are not ports
    let port = u32::from(s.u16());
    body.extend_from_slice(&put32(port, e));
}

/// A submessage, mostly well-formed
fn put_submessage<S: Src>(s: &mut S, wire: &mut Vec<u8>, entity_only: bool) {
    let id = match s.upto(31) {
        31 => s.u8(),
        30 => [0x01, 0x80, 0x00, 0xff][s.upto(3)],
        n @ 0..=4 => [0x06, 0x07, 0x08, 0x12, 0x13][n],
        5..=9 => 0x0f,
        n => [0x06, 0x07, 0x08, 0x12, 0x13, 0x0c, 0x0d, 0x0e, 0x09, 0x0f, 0x09][n % 11],
    };
    let id = if entity_only { [0x06, 0x07, 0x08, 0x12, 0x13][usize::from(id) % 5] } else { id };
    if id == 0x15 || id == 0x16 {
        return; // not implemented: a known finding of its own
    }
    let flags = if s.bool() { s.u8() } else { s.u8() & 3 };
    let e = if flags & 1 == 1 { Endianness::LittleEndian } else { Endianness::BigEndian };
    let mut body = vec![];
    match id {
        0x06 => {
            body.extend_from_slice(&s.bytes::<8>());
            put_set(s, &mut body, 8, e);
            body.extend_from_slice(&s.bytes::<4>());
        }
        0x08 => {
            body.extend_from_slice(&s.bytes::<16>());
            put_set(s, &mut body, 8, e);
        }
        0x12 => {
            body.extend_from_slice(&s.bytes::<16>());
            put_set(s, &mut body, 4, e);
            body.extend_from_slice(&s.bytes::<4>());
        }
        0x07 => body.extend_from_slice(&s.bytes::<28>()),
        0x13 => body.extend_from_slice(&s.bytes::<24>()),
        0x0c => body.extend_from_slice(&s.bytes::<16>()),
        0x0e => body.extend_from_slice(&s.bytes::<12>()),
        0x09 => {
            if flags & 2 == 0 || s.bool() {
                body.extend_from_slice(&s.bytes::<8>())
            }
        }
        0x0d => {
            put_compact(s, &mut body, e);
            if flags & 2 == 2 || s.upto(5) == 0 {
                put_compact(s, &mut body, e);
            }
        }
        0x0f => {
            for _ in 0..if flags & 2 == 2 { 2 } else { 1 } {
                let count = s.some(4, 3_000);
                let announced = if s.upto(30) == 0 { s.u32() } else { count as u32 };
                body.extend_from_slice(&put32(announced, e));
                let of_any_kind = s.upto(12) == 0;
                for _ in 0..count {
                    put_locator(s, &mut body, e, of_any_kind);
                }
            }
        }
        _ => {
            let length = s.some(60, 70_000);
            body = octets(s, length);
        }
    }
    match s.upto(15) {
        0 => {
            let cut = s.upto(body.len());
            body.truncate(cut);
        }
        1 | 2 => {
            let length = s.upto(20);
            body.extend(octets(s, length));
        }
        _ => {}
    }
    let announced = match s.upto(40) {
        0 => s.u16(),
        1 => 0,
        _ if body.len() > 0xffff => 0,
        _ => body.len() as u16,
    };
    let length = put16(announced, e);
    wire.extend_from_slice(&[id, flags, length[0], length[1]]);
    wire.extend(body);
}

fn put_header<S: Src>(s: &mut S, wire: &mut Vec<u8>) {
    let mut header = s.bytes::<20>();
    if s.upto(30) > 0 {
        header[..4].copy_from_slice(b"RTPS");
    }
    if s.upto(10) > 0 {
        header[4] = [2, 1, 0][s.upto(2)];
    }
    wire.extend_from_slice(&header);
}

fn message<S: Src>(s: &mut S) -> Vec<u8> {
    let mut wire = vec![];
    put_header(s, &mut wire);
    while s.upto(15) == 0 {
        put_header(s, &mut wire);
    }
    for _ in 0..s.some(12, 200) {
        put_submessage(s, &mut wire, false);
        if s.upto(60) == 0 {
            put_header(s, &mut wire);
        }
    }
    if s.upto(12) == 0 {
        let cut = s.upto(wire.len());
        wire.truncate(cut);
    }
    if !wire.is_empty() && s.upto(12) == 0 {
        let at = s.upto(wire.len() - 1);
        wire[at] = s.u8();
    }
    wire
}

/// A compact locator whose port is none: what it becomes is not specified
fn port_that_is_none(buffer: &[u8]) -> bool {
    if buffer.len() < 12 || buffer[0] != 0x0d {
        return false;
    }
    let e = if buffer[1] & 1 == 1 { Endianness::LittleEndian } else { Endianness::BigEndian };
    word(&buffer[8..], e) > 0xffff
        || (buffer[1] & 2 == 2 && buffer.len() >= 20 && word(&buffer[16..], e) > 0xffff)
}

/// Fed in pieces, the receiver takes every step of the specification
fn fed<S: Src>(s: &mut S, wire: &[u8], pieces: bool) {
    let kind = any_kind(s);
    let mut r = MessageReceiver::new(kind);
    let receiver = copy(&r.receiver);
    let mut state = State { in_message: false, kind, receiver };
    let mut bytes = BytesMut::new();
    let mut rest = wire;
    while !rest.is_empty() {
        let piece = if pieces { 1 + s.upto(rest.len() - 1) } else { rest.len() };
        bytes.extend_from_slice(&rest[..piece]);
        rest = &rest[piece..];
        loop {
            if state.in_message && port_that_is_none(&bytes) {
                return;
            }
            let before = bytes.len();
            let was_in_message = state.in_message;
            match conforms(&mut r, &mut state, &mut bytes) {
                Outcome::Wait => break,
                Outcome::Unimplemented => return,
                Outcome::Error if was_in_message => {
                    reachable!("refused");
                    return;
                }
                Outcome::Error => reachable!("header-refused"),
                Outcome::Item(_) => reachable!("delivered"),
                Outcome::Nothing => reachable!("understood"),
            }
            ensure!(bytes.len() < before, "each-step-uses-an-octet");
        }
    }
}

pub fn c16_message<S: Src>(s: &mut S) {
    let wire = message(s);
    fed(s, &wire, false)
}

pub fn c18_pieces<S: Src>(s: &mut S) {
    let wire = message(s);
    fed(s, &wire, true)
}

/// From any state, one submessage and what follows it
pub fn c17_from_any_state<S: Src>(s: &mut S) {
    let kind = any_kind(s);
    let receiver = any_receiver(s);
    let mut r = in_message(kind, copy(&receiver));
    let mut state = State { in_message: true, kind, receiver };
    let mut wire = vec![];
    for _ in 0..1 + s.upto(3) {
        put_submessage(s, &mut wire, false);
    }
    let mut bytes = BytesMut::from(&wire[..]);
    while !bytes.is_empty() && !port_that_is_none(&bytes) {
        match conforms(&mut r, &mut state, &mut bytes) {
            Outcome::Wait | Outcome::Error | Outcome::Unimplemented => break,
            _ => reachable!("c17_from_any_state"),
        }
        if !state.in_message {
            break;
        }
    }
}

/// Any bytes, in any state
pub fn c19_bytes<S: Src>(s: &mut S) {
    let wire = match s.upto(3) {
        0 => s.buffer::<8>(120),
        1 => {
            let mut wire = vec![];
            put_header(s, &mut wire);
            wire.extend(s.buffer::<8>(120));
            wire
        }
        _ => {
            let mut wire = message(s);
            for _ in 0..s.upto(6) {
                if !wire.is_empty() {
                    let at = s.upto(wire.len() - 1);
                    wire[at] = s.u8();
                }
            }
            wire
        }
    };
    let mut r = MessageReceiver::new(any_kind(s));
    let mut bytes = BytesMut::from(&wire[..]);
    let mut steps = 0;
    loop {
        let before = bytes.len();
        let message = expects(&bytes, &mut r);
        if message {
            return; // DATA, DATA_FRAG: not implemented, a known finding of its own
        }
        match r.decode(&mut bytes) {
            Ok(None) if bytes.len() == before => break,
            Ok(_) => ensure!(bytes.len() < before, "each-step-uses-an-octet"),
            Err(_) => {
                ensure!(bytes.len() < before, "an-error-uses-an-octet");
            }
        }
        steps += 1;
        ensure!(steps <= wire.len(), "ends");
    }
    reachable!("c19_bytes");
}

/// DATA or DATA_FRAG comes next
fn expects(bytes: &BytesMut, r: &mut MessageReceiver) -> bool {
    !bytes.is_empty() && (bytes[0] == 0x15 || bytes[0] == 0x16) && expects_submessage(r)
}

/// DATA and DATA_FRAG: the known finding
pub fn c19_data<S: Src>(s: &mut S) {
    let kind = any_kind(s);
    let mut r = in_message(kind, Receiver::new(kind));
    let id = if s.bool() { 0x16 } else { 0x15 };
    let length = put16(24, Endianness::LittleEndian);
    let mut wire = vec![id, 1, length[0], length[1]];
    wire.extend_from_slice(&[0; 24]);
    let outcome = r.decode(&mut BytesMut::from(&wire[..]));
    std::mem::forget(outcome);
}

contracts! { c16_message / 4, c17_from_any_state / 4, c18_pieces / 4, c19_bytes / 4, c19_data / 4 }
