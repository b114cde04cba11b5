use speedy::Endianness;
//@ include wire.rs

pub mod speedy {
    use super::*;
    pub enum Endianness { LittleEndian, BigEndian }
    impl Endianness { pub const NATIVE: Endianness = Endianness::LittleEndian; }
    pub struct Error {}
    impl Error { pub fn custom() -> Error { Error {} } }
}
pub enum ErrorKind { InvalidData }
pub struct Error {}
impl Error { pub fn new() -> Error { Error {} } }
impl core::convert::From<speedy::Error> for Error { fn from(e: speedy::Error) -> (r: Error) { Error {} } }

/// Assumed contract of bytes::BytesMut: a sequence of octets
#[verifier::external_body]
pub struct BytesMut { _x: u8 }
impl View for BytesMut { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl BytesMut {
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn split_to(&mut self, n: usize) -> (r: BytesMut)
        requires n <= old(self)@.len()
        ensures r@ == old(self)@.take(n as int), final(self)@ == old(self)@.skip(n as int)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn split_off(&mut self, n: usize) -> (r: BytesMut)
        requires n <= old(self)@.len()
        ensures r@ == old(self)@.skip(n as int), final(self)@ == old(self)@.take(n as int)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn advance(&mut self, n: usize)
        requires n <= old(self)@.len()
        ensures final(self)@ == old(self)@.skip(n as int)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn slice_to__(&self, n: usize) -> (r: &Octets)
        requires n <= self@.len()
        ensures r@ == self@.take(n as int)
    { unimplemented!() }
}
#[verifier::external_body]
pub struct Octets { _x: u8 }
impl View for Octets { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }

pub open spec fn little(e: Endianness) -> bool { e is LittleEndian }

/// Reading from a buffer (speedy): what is behind the value is not looked at
pub trait Wire: Sized {
    spec fn parse__(b: Seq<u8>, little: bool) -> Option<Self>;
    #[verifier::external_body]
    fn read_from_buffer_owned_with_ctx<B: View<V = Seq<u8>>>(e: Endianness, b: &B) -> (r: Result<Self, speedy::Error>)
        ensures match r {
            Ok(v) => Self::parse__(b@, little(e)) == Some(v),
            Err(_) => Self::parse__(b@, little(e)) is None,
        }
    { unimplemented!() }
    #[verifier::external_body]
    fn read_from_buffer_with_ctx<B: View<V = Seq<u8>>>(e: Endianness, b: &B) -> (r: Result<Self, speedy::Error>)
        ensures match r {
            Ok(v) => Self::parse__(b@, little(e)) == Some(v),
            Err(_) => Self::parse__(b@, little(e)) is None,
        }
    { unimplemented!() }
}
pub trait Readable<C>: Sized {
    spec fn least__() -> nat;
    #[verifier::external_body]
    fn minimum_bytes_needed() -> (r: usize) ensures r == Self::least__() { unimplemented!() }
}

/// The bodies whose layout is decided by the codec contracts (Kani: C02, C03; Verus: sets)
pub struct AckNack { _a: u8 }
pub struct Gap { _g: u8 }
pub struct NackFrag { _n: u8 }
pub struct Heartbeat { _h: u8 }
pub struct HeartbeatFrag { _h: u8 }
pub struct Data { _d: u8 }
pub struct DataFrag { _d: u8 }
pub uninterp spec fn ack_nack(b: Seq<u8>, little: bool) -> Option<AckNack>;
pub uninterp spec fn gap(b: Seq<u8>, little: bool) -> Option<Gap>;
pub uninterp spec fn nack_frag(b: Seq<u8>, little: bool) -> Option<NackFrag>;
pub uninterp spec fn heartbeat(b: Seq<u8>, little: bool) -> Option<Heartbeat>;
pub uninterp spec fn heartbeat_frag(b: Seq<u8>, little: bool) -> Option<HeartbeatFrag>;
impl Wire for AckNack { open spec fn parse__(b: Seq<u8>, little: bool) -> Option<Self> { ack_nack(b, little) } }
impl Wire for Gap { open spec fn parse__(b: Seq<u8>, little: bool) -> Option<Self> { gap(b, little) } }
impl Wire for NackFrag { open spec fn parse__(b: Seq<u8>, little: bool) -> Option<Self> { nack_frag(b, little) } }
impl Wire for Heartbeat { open spec fn parse__(b: Seq<u8>, little: bool) -> Option<Self> { heartbeat(b, little) } }
impl Wire for HeartbeatFrag {
    open spec fn parse__(b: Seq<u8>, little: bool) -> Option<Self> { heartbeat_frag(b, little) }
}

#[derive(PartialEq, Eq, Structural)]
pub struct LocatorUDPv4_t { pub address: u32, pub port: u32 }
/// The full form of a compact locator whose port is a UDP port (contract: Kani, C11)
pub uninterp spec fn full(l: LocatorUDPv4_t) -> Locator_t;
impl vstd::std_specs::convert::FromSpecImpl<LocatorUDPv4_t> for Locator_t {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(l: LocatorUDPv4_t) -> Locator_t { full(l) }
}
impl core::convert::From<LocatorUDPv4_t> for Locator_t {
    #[verifier::external_body]
    fn from(l: LocatorUDPv4_t) -> (r: Locator_t) { unimplemented!() }
}
pub fn one__<T>(x: T) -> (r: Vec<T>) ensures r@ =~= seq![x] { vec![x] }
pub fn none__<T>() -> (r: Vec<T>) ensures r@ =~= Seq::<T>::empty() { Vec::new() }
pub type LocatorList_t = Vec<Locator_t>;

#[verifier::external_body]
pub fn known_gap__<T>(id: SubmessageKind) -> (r: T)
    requires id.value == 0x15 || id.value == 0x16
    ensures false
{ unimplemented!() }
//@ extracted

// --- layouts (contracts discharged by Kani: C01-C04)

pub open spec fn array12(b: Seq<u8>) -> [u8; 12] {
    [b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7], b[8], b[9], b[10], b[11]]
}
#[verifier::opaque]
pub open spec fn prefix(b: Seq<u8>) -> GuidPrefix_t { GuidPrefix_t { entity_key: array12(b) } }
#[verifier::opaque]
pub open spec fn version(b: Seq<u8>) -> ProtocolVersion_t { ProtocolVersion_t { major: b[0], minor: b[1] } }
#[verifier::opaque]
pub open spec fn vendor(b: Seq<u8>) -> VendorId_t { VendorId_t { vendor_id: [b[0], b[1]] } }

impl Readable<Endianness> for Header { open spec fn least__() -> nat { 20 } }
impl Readable<Endianness> for SubmessageHeader { open spec fn least__() -> nat { 4 } }
impl Readable<Endianness> for LocatorUDPv4_t { open spec fn least__() -> nat { 8 } }
impl Wire for Header {
    open spec fn parse__(b: Seq<u8>, little: bool) -> Option<Self> {
        if b.len() < 20 { None } else {
            Some(Header { protocol_id: protocol(b), protocol_version: version(b.skip(4)),
                          vendor_id: vendor(b.skip(6)), guid_prefix: prefix(b.skip(8)) })
        }
    }
}
pub open spec fn protocol(b: Seq<u8>) -> ProtocolId_t {
    ProtocolId_t { protocol_id: [b[0] as char, b[1] as char, b[2] as char, b[3] as char] }
}
pub open spec fn rtps() -> Seq<u8> { seq![0x52u8, 0x54, 0x50, 0x53] }
impl Wire for SubmessageHeader {
    open spec fn parse__(b: Seq<u8>, little: bool) -> Option<Self> {
        if b.len() < 4 { None } else {
            Some(SubmessageHeader { submessage_id: SubmessageKind { value: b[0] }, flags: SubmessageFlag { flags: b[1] },
                                    submessage_length: u16_of(b.subrange(2, 4), b[1] & 1 != 0) })
        }
    }
}
impl Wire for InfoSource {
    open spec fn parse__(b: Seq<u8>, little: bool) -> Option<Self> {
        if b.len() < 16 { None } else {
            Some(InfoSource { protocol_version: version(b), vendor_id: vendor(b.skip(2)), guid_prefix: prefix(b.skip(4)) })
        }
    }
}
impl Wire for InfoDestination {
    open spec fn parse__(b: Seq<u8>, little: bool) -> Option<Self> {
        if b.len() < 12 { None } else { Some(InfoDestination { guid_prefix: prefix(b) }) }
    }
}
#[verifier::opaque]
pub open spec fn compact(b: Seq<u8>, little: bool) -> LocatorUDPv4_t {
    LocatorUDPv4_t { address: u32_of(b, little), port: u32_of(b.skip(4), little) }
}
impl Wire for LocatorUDPv4_t {
    open spec fn parse__(b: Seq<u8>, little: bool) -> Option<Self> {
        if b.len() < 8 { None } else { Some(compact(b, little)) }
    }
}
#[verifier::opaque]
pub open spec fn time(b: Seq<u8>, little: bool) -> Time_t {
    Time_t { seconds: u32_of(b, little) as i32, fraction: u32_of(b.skip(4), little) }
}
impl Wire for Time_t {
    open spec fn parse__(b: Seq<u8>, little: bool) -> Option<Self> {
        if b.len() < 8 { None } else { Some(time(b, little)) }
    }
}
//@ include locators_spec.rs
/// speedy's counted lists: the value, and how much was used (proved in unit lists)
pub trait Listed: Sized {
    fn read_with_length_from_buffer_with_ctx(e: Endianness, b: &BytesMut)
        -> (r: (Result<Vec<Locator_t>, speedy::Error>, usize))
        ensures r.1 <= b@.len(), match r.0 {
            Ok(v) => list_of(b@, little(e)) == Some(v@) && r.1 == list_used(b@, little(e)),
            Err(_) => list_of(b@, little(e)) is None,
        };
}
impl Listed for Vec<Locator_t> {
    #[verifier::external_body]
    fn read_with_length_from_buffer_with_ctx(e: Endianness, b: &BytesMut)
        -> (r: (Result<Vec<Locator_t>, speedy::Error>, usize))
    { unimplemented!() }
}

// --- the specification: one step, as a function of state and buffer

pub struct Interpreter {
    pub source_version: ProtocolVersion_t,
    pub source_vendor_id: VendorId_t,
    pub source_guid_prefix: GuidPrefix_t,
    pub dest_guid_prefix: GuidPrefix_t,
    pub unicast: Seq<Locator_t>,
    pub multicast: Seq<Locator_t>,
    /// present exactly when the submessages that follow are timed
    pub timestamp: Option<Time_t>,
}
/// Equal in every part
pub open spec fn same(a: Interpreter, b: Interpreter) -> bool {
    a.source_version == b.source_version && a.source_vendor_id == b.source_vendor_id
    && a.source_guid_prefix == b.source_guid_prefix && a.dest_guid_prefix == b.dest_guid_prefix
    && a.unicast =~= b.unicast && a.multicast =~= b.multicast && a.timestamp == b.timestamp
}
pub open spec fn view_of(r: Receiver) -> Interpreter {
    Interpreter {
        source_version: r.source_version, source_vendor_id: r.source_vendor_id,
        source_guid_prefix: r.source_guid_prefix, dest_guid_prefix: r.dest_guid_prefix,
        unicast: r.unicast_reply_locator_list@, multicast: r.multicast_reply_locator_list@,
        timestamp: if r.have_timestamp { Some(r.timestamp) } else { None },
    }
}
pub open spec fn unknown() -> GuidPrefix_t { GuidPrefix_t { entity_key: [0u8, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0] } }
pub open spec fn invalid(kind: LocatorKind_t) -> Seq<Locator_t> {
    seq![Locator_t { kind: kind, port: 0, address: [0u8, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0] }]
}
pub open spec fn fresh(kind: LocatorKind_t) -> Interpreter {
    Interpreter {
        source_version: ProtocolVersion_t { major: 2, minor: 4 }, source_vendor_id: VendorId_t { vendor_id: [0u8, 0u8] },
        source_guid_prefix: unknown(), dest_guid_prefix: unknown(),
        unicast: invalid(kind), multicast: invalid(kind), timestamp: None,
    }
}
#[verifier::opaque]
pub open spec fn no_prefix() -> GuidPrefix_t { unknown() }
#[verifier::opaque]
pub open spec fn no_locator() -> Locator_t { invalid(LocatorKind_t::LOCATOR_KIND_INVALID)[0] }
/// The constants the code names are the protocol's
pub fn no_prefix__() -> (r: GuidPrefix_t) ensures r == no_prefix() {
    proof { reveal(no_prefix); }
    GuidPrefix_t::GUIDPREFIX_UNKNOWN
}
pub fn no_locator__() -> (r: Locator_t) ensures r == no_locator() {
    proof { reveal(no_locator); }
    Locator_t::LOCATOR_INVALID
}
pub enum Outcome { Nothing, Item(EntitySubmessage), Refused, Unimplemented }

pub open spec fn agrees<E>(o: Outcome, r: Result<Option<EntitySubmessage>, E>) -> bool {
    match o {
        Outcome::Nothing => r == Ok::<Option<EntitySubmessage>, E>(None),
        Outcome::Item(i) => r == Ok::<Option<EntitySubmessage>, E>(Some(i)),
        Outcome::Refused => r is Err,
        Outcome::Unimplemented => false,
    }
}
pub open spec fn delivered<T>(v: Option<T>, make: spec_fn(T) -> EntitySubmessage) -> Outcome {
    match v { Some(v) => Outcome::Item(make(v)), None => Outcome::Refused }
}
/// What a submessage with that body does; the state after a refused one is not specified
#[verifier::opaque]
pub open spec fn effect(id: u8, flags: u8, body: Seq<u8>, s: Interpreter) -> (Outcome, Interpreter) {
    let little = flags & 1 != 0;
    let second = flags & 2 != 0;
    let f = SubmessageFlag { flags: flags };
    if id == 0x06 { (delivered(ack_nack(body, little), |v: AckNack| EntitySubmessage::AckNack(v, f)), s) }
    else if id == 0x07 { (delivered(heartbeat(body, little), |v: Heartbeat| EntitySubmessage::Heartbeat(v, f)), s) }
    else if id == 0x08 { (delivered(gap(body, little), |v: Gap| EntitySubmessage::Gap(v)), s) }
    else if id == 0x12 { (delivered(nack_frag(body, little), |v: NackFrag| EntitySubmessage::NackFrag(v)), s) }
    else if id == 0x13 {
        (delivered(heartbeat_frag(body, little), |v: HeartbeatFrag| EntitySubmessage::HeartbeatFrag(v)), s)
    }
    else if id == 0x15 || id == 0x16 { (Outcome::Unimplemented, s) }
    else if id == 0x0c {
        if body.len() < 16 { (Outcome::Refused, s) } else {
            (Outcome::Nothing, Interpreter {
                source_version: version(body), source_vendor_id: vendor(body.skip(2)),
                source_guid_prefix: prefix(body.skip(4)), dest_guid_prefix: s.dest_guid_prefix,
                unicast: seq![no_locator()], multicast: seq![no_locator()],
                timestamp: None })
        }
    }
    else if id == 0x0e {
        if body.len() < 12 { (Outcome::Refused, s) }
        else if prefix(body) == no_prefix() { (Outcome::Nothing, s) }
        else { (Outcome::Nothing, Interpreter { dest_guid_prefix: prefix(body), ..s }) }
    }
    else if id == 0x0f {
        match list_of(body, little) {
            None => (Outcome::Refused, s),
            Some(u) => if !second { (Outcome::Nothing, Interpreter { unicast: u, multicast: seq![], ..s }) } else {
                match list_of(body.skip(list_used(body, little)), little) {
                    None => (Outcome::Refused, s),
                    Some(m) => (Outcome::Nothing, Interpreter { unicast: u, multicast: m, ..s }),
                }
            }
        }
    }
    else if id == 0x0d {
        if body.len() < (if second { 16int } else { 8 }) { (Outcome::Refused, s) } else {
            (Outcome::Nothing, Interpreter {
                unicast: seq![full(compact(body, little))],
                multicast: if second { seq![full(compact(body.skip(8), little))] } else { seq![] }, ..s })
        }
    }
    else if id == 0x09 {
        if second { (Outcome::Nothing, Interpreter { timestamp: None, ..s }) }
        else if body.len() < 8 { (Outcome::Refused, s) }
        else { (Outcome::Nothing, Interpreter { timestamp: Some(time(body, little)), ..s }) }
    }
    else { (Outcome::Nothing, s) }
}

pub open spec fn announced(b: Seq<u8>) -> int { u16_of(b.subrange(2, 4), b[1] & 1 != 0) as int }
/// A length of zero means: to the end of the message, except for PAD and INFO_TS
pub open spec fn open_ended(b: Seq<u8>) -> bool { announced(b) == 0 && b[0] != 0x01 && b[0] != 0x09 }
pub open spec fn length(b: Seq<u8>) -> int { if open_ended(b) { b.len() - 4 } else { announced(b) } }
pub open spec fn complete(in_message: bool, b: Seq<u8>) -> bool {
    if in_message { b.len() >= 4 && b.len() - 4 >= announced(b) } else { b.len() >= 20 }
}
pub open spec fn header_valid(b: Seq<u8>) -> bool { b.take(4) =~= rtps() && b[4] <= 2 }

pub struct Step {
    pub outcome: Outcome,
    pub used: int,
    pub in_message: bool,
    pub state: Interpreter,
}
/// One step on a buffer that starts with a complete header or submessage
pub open spec fn step(in_message: bool, kind: LocatorKind_t, s: Interpreter, b: Seq<u8>) -> Step {
    if !in_message {
        if header_valid(b) {
            Step { outcome: Outcome::Nothing, used: 20, in_message: true, state: Interpreter {
                source_version: version(b.take(20).skip(4)), source_vendor_id: vendor(b.take(20).skip(6)),
                source_guid_prefix: prefix(b.take(20).skip(8)), ..fresh(kind) } }
        } else {
            Step { outcome: Outcome::Refused, used: 20, in_message: false, state: s }
        }
    } else {
        let e = effect(b[0], b[1], b.skip(4).take(length(b)), s);
        Step { outcome: e.0, used: 4 + length(b), in_message: !open_ended(b), state: e.1 }
    }
}
/// decode, from before to after, does one step, or waits
pub open spec fn stepped(before: MessageReceiver, b: Seq<u8>, after: MessageReceiver, rest: Seq<u8>,
                         r: Result<Option<EntitySubmessage>, Error>) -> bool {
    let in_message = before.state is ReadingSubmessage;
    if complete(in_message, b) {
        let s = step(in_message, before.locator_kind, view_of(before.receiver), b);
        &&& agrees(s.outcome, r)
        &&& rest =~= b.skip(s.used)
        &&& (after.state is ReadingSubmessage) == s.in_message
        // what a refused submessage leaves of the state is not specified; a refused header sets none
        &&& r is Ok || !in_message ==> same(view_of(after.receiver), s.state)
    } else {
        &&& r == Ok::<Option<EntitySubmessage>, Error>(None)
        &&& rest == b && after == before
    }
}

// --- what follows from it

/// C19: a step uses at least one octet, and none that is not there
pub proof fn progress(in_message: bool, kind: LocatorKind_t, s: Interpreter, b: Seq<u8>)
    requires complete(in_message, b)
    ensures 1 <= step(in_message, kind, s, b).used <= b.len()
{}

/// C18: octets that arrive later change nothing about what a complete header or submessage does
pub proof fn more(in_message: bool, kind: LocatorKind_t, s: Interpreter, b: Seq<u8>, c: Seq<u8>)
    requires complete(in_message, b), in_message ==> !open_ended(b)
    ensures
        complete(in_message, b + c),
        step(in_message, kind, s, b + c) == step(in_message, kind, s, b),
        (b + c).skip(step(in_message, kind, s, b).used) =~= b.skip(step(in_message, kind, s, b).used) + c,
        in_message ==> !open_ended(b + c),
{
    let d = b + c;
    if in_message {
        assert(d.subrange(2, 4) =~= b.subrange(2, 4));
        assert(d.skip(4).take(length(b)) =~= b.skip(4).take(length(b)));
    } else {
        assert(d.take(20) =~= b.take(20));
        assert(d.take(4) =~= b.take(4));
    }
}

/// What a driver sees that takes a whole message, up to the first refusal
pub struct Run {
    pub items: Seq<EntitySubmessage>,
    pub refused: bool,
    pub in_message: bool,
    pub state: Interpreter,
    pub rest: Seq<u8>,
    /// a submessage that extends to the end of the buffer was met
    pub ended: bool,
}
pub open spec fn run(in_message: bool, kind: LocatorKind_t, s: Interpreter, b: Seq<u8>) -> Run
    decreases b.len()
    via run_ends
{
    if !complete(in_message, b) {
        Run { items: seq![], refused: false, in_message: in_message, state: s, rest: b, ended: false }
    } else {
        let n = step(in_message, kind, s, b);
        let rest = b.skip(n.used);
        let ends = in_message && open_ended(b);
        match n.outcome {
            Outcome::Nothing => {
                let r = run(n.in_message, kind, n.state, rest);
                Run { ended: ends || r.ended, ..r }
            }
            Outcome::Item(i) => {
                let r = run(n.in_message, kind, n.state, rest);
                Run { items: seq![i] + r.items, ended: ends || r.ended, ..r }
            }
            _ => Run { items: seq![], refused: true, in_message: n.in_message, state: n.state, rest: rest, ended: ends },
        }
    }
}
#[via_fn]
proof fn run_ends(in_message: bool, kind: LocatorKind_t, s: Interpreter, b: Seq<u8>)
{
    if complete(in_message, b) {
        progress(in_message, kind, s, b);
        assert(b.skip(step(in_message, kind, s, b).used).len() < b.len());
    }
}
/// C18: the outcome is the same however the octets arrive. Feeding b and then c does what feeding
/// b ++ c does, unless b held a last submessage of announced length zero or was refused
pub proof fn however_it_arrives(in_message: bool, kind: LocatorKind_t, s: Interpreter, b: Seq<u8>, c: Seq<u8>)
    requires
        !run(in_message, kind, s, b).ended,
        !run(in_message, kind, s, b).refused,
    ensures ({
        let first = run(in_message, kind, s, b);
        let then = run(first.in_message, kind, first.state, first.rest + c);
        let all = run(in_message, kind, s, b + c);
        &&& all.items =~= first.items + then.items
        &&& all.refused == then.refused && all.in_message == then.in_message && all.state == then.state
        &&& all.rest =~= then.rest && all.ended == then.ended
    }),
    decreases b.len()
{
    if complete(in_message, b) {
        let n = step(in_message, kind, s, b);
        progress(in_message, kind, s, b);
        assert(!(in_message && open_ended(b)));
        more(in_message, kind, s, b, c);
        let rest = b.skip(n.used);
        assert((b + c).skip(n.used) == rest + c);
        match n.outcome {
            Outcome::Nothing => { however_it_arrives(n.in_message, kind, n.state, rest, c); }
            Outcome::Item(i) => { however_it_arrives(n.in_message, kind, n.state, rest, c); }
            _ => {}
        }
    } else {
        assert(run(in_message, kind, s, b).rest == b);
    }
}

/// The four octets before a body
pub open spec fn head(id: u8, flags: u8, length: u16) -> Seq<u8> {
    seq![id, flags] + put16(length, flags & 1 != 0)
}
/// C16: a submessage takes effect with its own body, whatever comes after, and shifts nothing
pub proof fn framed(kind: LocatorKind_t, s: Interpreter, id: u8, flags: u8, body: Seq<u8>, tail: Seq<u8>)
    requires body.len() <= 0xffff, body.len() > 0 || id == 0x01 || id == 0x09
    ensures ({
        let b = head(id, flags, body.len() as u16) + body + tail;
        let n = step(true, kind, s, b);
        let e = effect(id, flags, body, s);
        &&& complete(true, b)
        &&& n.outcome == e.0 && n.state == e.1 && n.in_message
        &&& b.skip(n.used) =~= tail
    }),
{
    let h = head(id, flags, body.len() as u16);
    let b = h + body + tail;
    put16_inverse(body.len() as u16, flags & 1 != 0);
    assert(b[0] == id && b[1] == flags);
    assert(b.subrange(2, 4) =~= put16(body.len() as u16, flags & 1 != 0));
    assert(b.skip(4).take(length(b)) =~= body);
}
/// C16: a last submessage of announced length zero has the rest of the message as its body
pub proof fn last(kind: LocatorKind_t, s: Interpreter, id: u8, flags: u8, body: Seq<u8>)
    requires id != 0x01, id != 0x09
    ensures ({
        let b = head(id, flags, 0) + body;
        let n = step(true, kind, s, b);
        let e = effect(id, flags, body, s);
        &&& complete(true, b)
        &&& n.outcome == e.0 && n.state == e.1 && !n.in_message
        &&& b.skip(n.used) =~= Seq::<u8>::empty()
    }),
{
    let b = head(id, flags, 0) + body;
    put16_inverse(0, flags & 1 != 0);
    assert(b[0] == id && b[1] == flags);
    assert(b.subrange(2, 4) =~= put16(0, flags & 1 != 0));
    assert(b.skip(4).take(length(b)) =~= body);
}
/// C16, C17: which submessages deliver, which ones change the state, and nothing does both
pub proof fn roles(id: u8, flags: u8, body: Seq<u8>, s: Interpreter)
    ensures ({
        let e = effect(id, flags, body, s);
        let entity = id == 0x06 || id == 0x07 || id == 0x08 || id == 0x12 || id == 0x13;
        let interpreter = id == 0x09 || id == 0x0c || id == 0x0d || id == 0x0e || id == 0x0f;
        &&& e.0 is Item ==> entity
        &&& !interpreter ==> e.1 == s
        &&& !entity && !interpreter && id != 0x15 && id != 0x16 ==> e.0 is Nothing
        &&& e.0 is Unimplemented <==> id == 0x15 || id == 0x16
    }),
{
    reveal(effect);
}
