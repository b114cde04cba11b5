// Contracts of the conversions, the arithmetic and the orders of the value types.

use super::codec::{put32, put_sn, read, Ctx, Wire, Wr};
use super::{contracts, ensure, reachable, Src};
use crate::messages::fragment_number::FragmentNumber_t;
use crate::structure::count::Count_t;
use crate::structure::duration::Duration_t;
use crate::structure::entity_id::EntityId_t;
use crate::structure::guid::GUID_t;
use crate::structure::guid_prefix::GuidPrefix_t;
use crate::structure::instance_handle::InstanceHandle_t;
use crate::structure::locator::{LocatorKind_t, Locator_t};
use crate::structure::locator_udp_v4::LocatorUDPv4_t;
use crate::structure::sequence_number::SequenceNumber_t;
use crate::structure::time::Time_t;
use num_traits::{CheckedAdd, CheckedDiv, CheckedMul, CheckedSub, FromPrimitive, ToPrimitive};
use speedy::{Endianness, Writable};
use std::cmp::Ordering;
use std::convert::TryFrom;
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr, SocketAddrV4, SocketAddrV6};
use std::time::{Duration, SystemTime, UNIX_EPOCH};

const LE: Endianness = Endianness::LittleEndian;

fn parts<T: Writable<Ctx>>(value: &T) -> (i32, u32) {
    let mut out = Wr::<8> { context: Ctx(LE), wire: [0; 8], at: 0 };
    ensure!(value.write_to(&mut out).is_ok() && out.at == 8, "seconds-and-fraction");
    let w = out.wire;
    (
        i32::from_le_bytes([w[0], w[1], w[2], w[3]]),
        u32::from_le_bytes([w[4], w[5], w[6], w[7]]),
    )
}

fn wire(seconds: i32, fraction: u32) -> [u8; 8] {
    Wire::<8>::new().put(put32(seconds as u32, LE)).put(put32(fraction, LE)).done()
}

fn time(seconds: i32, fraction: u32) -> Time_t {
    read::<Time_t, 8>(&wire(seconds, fraction), LE).ok().unwrap()
}

fn duration_t(seconds: i32, fraction: u32) -> Duration_t {
    read::<Duration_t, 8>(&wire(seconds, fraction), LE).ok().unwrap()
}

fn nanos<S: Src>(s: &mut S) -> u32 {
    s.upto(999_999_999) as u32
}

// --- time

/// At the epoch or after it, within a signed 32-bit count of seconds
pub fn c09_from_clock<S: Src>(s: &mut S) {
    let (seconds, nanos) = (s.u32() & 0x7fff_ffff, nanos(s));
    let clock = UNIX_EPOCH + Duration::new(seconds.into(), nanos);
    // the standard library's own account of that clock time; c09_clock: it is seconds and nanos
    let d = clock.duration_since(UNIX_EPOCH).unwrap();
    let (sec, fraction) = parts(&Time_t::from(clock));
    ensure!(sec == d.as_secs() as i32, "seconds-kept");
    // at most 62 bits: the quotient is the floor
    ensure!(i64::from(fraction) == (i64::from(d.subsec_nanos()) << 32) / 1_000_000_000, "fraction-is-the-floor");
    reachable!("c09_from_clock");
}

pub fn c09_from_clock_seconds<S: Src>(s: &mut S) {
    let (seconds, nanos) = (s.u32() & 0x7fff_ffff, nanos(s));
    let (sec, _) = parts(&Time_t::from(UNIX_EPOCH + Duration::new(seconds.into(), nanos)));
    ensure!(sec == seconds as i32, "seconds-kept");
    reachable!("c09_from_clock_seconds");
}

/// There and back: at most one nanosecond earlier, and in the same order
pub fn c09_there_and_back<S: Src>(s: &mut S) {
    let a = UNIX_EPOCH + Duration::new((s.u32() & 0x7fff_ffff).into(), nanos(s));
    let b = if s.bool() {
        UNIX_EPOCH + Duration::new((s.u32() & 0x7fff_ffff).into(), nanos(s))
    } else {
        a + Duration::new(0, s.u8().into())
    };
    s.assume(b.duration_since(UNIX_EPOCH).unwrap().as_secs() <= i32::MAX as u64);
    let there = |t| SystemTime::try_from(Time_t::from(t));
    match (there(a), there(b)) {
        (Ok(x), Ok(y)) => {
            ensure!(x <= a && a <= x + Duration::new(0, 1), "moves-by-at-most-a-nanosecond");
            ensure!((a <= b) <= (x <= y) && (b <= a) <= (y <= x), "keeps-order");
            reachable!("c09_there_and_back");
        }
        _ => ensure!(false, "can-be-converted-back"),
    }
}

pub fn c09_clock<S: Src>(s: &mut S) {
    let (seconds, nanos) = (s.u32() & 0x7fff_ffff, nanos(s));
    let d = (UNIX_EPOCH + Duration::new(seconds.into(), nanos)).duration_since(UNIX_EPOCH).unwrap();
    ensure!(d.as_secs() == u64::from(seconds) && d.subsec_nanos() == nanos, "clock");
    reachable!("c09_clock");
}

/// Before the epoch, or past the last second
pub fn c09_from_clock_outside<S: Src>(s: &mut S) {
    let (seconds, nanos) = (s.upto(1 << 40) as u64, nanos(s));
    let before = s.bool();
    let clock = if before {
        s.assume(seconds > 0 || nanos > 0);
        UNIX_EPOCH - Duration::new(seconds, nanos)
    } else {
        s.assume(seconds > i32::MAX as u64);
        UNIX_EPOCH + Duration::new(seconds, nanos)
    };
    ensure!(Time_t::from(clock) == Time_t::TIME_INVALID, "inexpressible-is-invalid");
    if before {
        reachable!("before the epoch");
    } else {
        reachable!("after 2038");
    }
}

pub fn c09_to_clock<S: Src>(s: &mut S) {
    let (seconds, fraction) = (s.i32(), s.u32());
    let t = time(seconds, fraction);
    match SystemTime::try_from(t) {
        Ok(clock) => {
            ensure!(seconds >= 0, "negative-is-refused");
            match clock.duration_since(UNIX_EPOCH) {
                Ok(d) => {
                    ensure!(d.as_secs() == seconds as u64, "seconds-kept");
                    ensure!(
                        u64::from(d.subsec_nanos()) == (u64::from(fraction) * 1_000_000_000) >> 32,
                        "nanoseconds-are-the-floor"
                    );
                    reachable!("c09_to_clock");
                }
                Err(_) => ensure!(false, "not-before-the-epoch"),
            }
        }
        Err(_) => {
            ensure!(seconds < 0, "non-negative-is-converted");
            reachable!("c09_to_clock refused");
        }
    }
}

pub fn c09_constants<S: Src>(s: &mut S) {
    let _ = s;
    ensure!(parts(&Time_t::TIME_ZERO) == (0, 0), "zero");
    ensure!(parts(&Time_t::TIME_INVALID) == (-1, 0xffff_ffff), "invalid");
    ensure!(parts(&Time_t::TIME_INFINITE) == (0x7fff_ffff, 0xffff_ffff), "infinite");
    ensure!(parts(&Time_t::default()) == (0, 0), "default-is-zero");
    reachable!("c09_constants");
}

// --- duration

pub fn c10_from_duration<S: Src>(s: &mut S) {
    let (seconds, nanos) = (s.u64(), nanos(s));
    let d = Duration_t::from(Duration::new(seconds, nanos));
    if seconds <= i32::MAX as u64 {
        ensure!(parts(&d) == (seconds as i32, nanos), "duration-kept");
        reachable!("c10_from_duration");
    } else {
        ensure!(d == Duration_t::DURATION_INFINITE, "too-long-is-infinite");
        reachable!("c10_from_duration infinite");
    }
}

pub fn c10_to_duration<S: Src>(s: &mut S) {
    let (seconds, fraction) = (s.i32(), s.u32());
    let d = Duration::from(duration_t(seconds, fraction));
    if seconds >= 0 {
        let (carry, rest) = (fraction / 1_000_000_000, fraction % 1_000_000_000);
        ensure!(d.as_secs() == seconds as u64 + u64::from(carry), "whole-seconds");
        ensure!(d.subsec_nanos() == rest, "nanoseconds");
        reachable!("c10_to_duration");
    } else {
        reachable!("c10_to_duration negative");
    }
}

pub fn c10_there_and_back<S: Src>(s: &mut S) {
    let d = Duration::new((s.u32() & 0x7fff_ffff).into(), nanos(s));
    ensure!(Duration::from(Duration_t::from(d)) == d, "there-and-back");
    reachable!("c10_there_and_back");
}

pub fn c10_constants<S: Src>(s: &mut S) {
    let _ = s;
    ensure!(parts(&Duration_t::DURATION_ZERO) == (0, 0), "zero");
    ensure!(parts(&Duration_t::DURATION_INVALID) == (-1, 0xffff_ffff), "invalid");
    ensure!(parts(&Duration_t::DURATION_INFINITE) == (0x7fff_ffff, 0xffff_ffff), "infinite");
    reachable!("c10_constants");
}

// --- locators

pub fn c11_ipv4<S: Src>(s: &mut S) {
    let (b, port) = (s.bytes::<4>(), s.u16());
    let socket = SocketAddr::V4(SocketAddrV4::new(Ipv4Addr::new(b[0], b[1], b[2], b[3]), port));
    let locator = Locator_t::from(socket);
    let mut address = [0; 16];
    address[12..].copy_from_slice(&b);
    ensure!(locator.address == address, "ipv4-octets-last");
    ensure!(locator.port == u32::from(port), "port-kept");
    if b == [0; 4] {
        ensure!(locator.kind == LocatorKind_t::LOCATOR_KIND_INVALID, "unspecified-is-invalid");
        reachable!("c11_ipv4 unspecified");
    } else {
        ensure!(locator.kind == LocatorKind_t::LOCATOR_KIND_UDPv4, "kind");
        ensure!(SocketAddr::from(locator) == socket, "there-and-back");
        reachable!("c11_ipv4");
    }
}

pub fn c11_ipv6<S: Src>(s: &mut S) {
    let (b, port) = (s.bytes::<16>(), s.u16());
    let socket = SocketAddr::V6(SocketAddrV6::new(Ipv6Addr::from(b), port, 0, 0));
    let locator = Locator_t::from(socket);
    ensure!(locator.address == b, "ipv6-octets");
    ensure!(locator.port == u32::from(port), "port-kept");
    if b == [0; 16] {
        ensure!(locator.kind == LocatorKind_t::LOCATOR_KIND_INVALID, "unspecified-is-invalid");
        reachable!("c11_ipv6 unspecified");
    } else {
        ensure!(locator.kind == LocatorKind_t::LOCATOR_KIND_UDPv6, "kind");
        ensure!(SocketAddr::from(locator) == socket, "there-and-back");
        reachable!("c11_ipv6");
    }
}

pub fn c11_from_locator<S: Src>(s: &mut S) {
    let (address, port) = (s.bytes::<16>(), s.u16());
    let kind = match s.u8() & 3 {
        0 => LocatorKind_t::LOCATOR_KIND_INVALID,
        1 => LocatorKind_t::LOCATOR_KIND_RESERVED,
        2 => LocatorKind_t::LOCATOR_KIND_UDPv4,
        _ => LocatorKind_t::LOCATOR_KIND_UDPv6,
    };
    let socket = SocketAddr::from(Locator_t { kind, port: port.into(), address });
    match kind {
        LocatorKind_t::LOCATOR_KIND_UDPv4 => {
            let a = Ipv4Addr::new(address[12], address[13], address[14], address[15]);
            ensure!(socket == SocketAddr::new(IpAddr::V4(a), port), "ipv4-address-and-port");
            reachable!("c11_from_locator ipv4");
        }
        LocatorKind_t::LOCATOR_KIND_UDPv6 => {
            ensure!(socket == SocketAddr::new(IpAddr::V6(Ipv6Addr::from(address)), port), "ipv6-address-and-port");
            reachable!("c11_from_locator ipv6");
        }
        _ => {
            ensure!(socket == SocketAddr::new(IpAddr::V6(Ipv6Addr::UNSPECIFIED), 0), "other-kinds-unspecified");
            reachable!("c11_from_locator other");
        }
    }
}

pub fn c11_udp_v4<S: Src>(s: &mut S) {
    let (b, port) = (s.bytes::<4>(), s.u16());
    let socket = SocketAddrV4::new(Ipv4Addr::new(b[0], b[1], b[2], b[3]), port);
    let number = u32::from_be_bytes(b);
    let compact = LocatorUDPv4_t::from(socket);
    ensure!(parts(&compact) == (number as i32, port.into()), "address-number-and-port");
    ensure!(SocketAddrV4::from(compact) == socket, "there-and-back");
    let compact = LocatorUDPv4_t::from(socket);
    ensure!(Locator_t::from(compact) == Locator_t::from(SocketAddr::V4(socket)), "full-locator");
    reachable!("c11_udp_v4");
}

pub fn c11_constants<S: Src>(s: &mut S) {
    let _ = s;
    let invalid = Locator_t { kind: LocatorKind_t::LOCATOR_KIND_INVALID, port: 0, address: [0; 16] };
    ensure!(Locator_t::LOCATOR_INVALID == invalid, "invalid");
    ensure!(Locator_t::default() == invalid, "default-is-invalid");
    ensure!(parts(&LocatorUDPv4_t::LOCATORUDPv4_INVALID) == (0, 0), "compact-invalid");
    reachable!("c11_constants");
}

// --- arithmetic, order, identity

fn sn(x: i64) -> SequenceNumber_t {
    SequenceNumber_t::from(x)
}

pub fn c12_sequence_number<S: Src>(s: &mut S) {
    let (a, b) = (s.i64(), s.i64());
    ensure!(i64::from(sn(a)) == a, "value-kept");
    ensure!(sn(a).checked_add(&sn(b)).map(i64::from) == a.checked_add(b), "checked-add");
    ensure!(sn(a).checked_sub(&sn(b)).map(i64::from) == a.checked_sub(b), "checked-sub");
    ensure!(sn(a).cmp(&sn(b)) == a.cmp(&b), "order");
    ensure!(sn(a).partial_cmp(&sn(b)) == Some(a.cmp(&b)), "partial-order");
    ensure!((sn(a) == sn(b)) == (a == b), "equality");
    if let Some(sum) = a.checked_add(b) {
        ensure!(sn(a) + sn(b) == sn(sum), "add");
        reachable!("c12_sequence_number");
    }
    if let Some(difference) = a.checked_sub(b) {
        ensure!(sn(a) - sn(b) == sn(difference), "sub");
    }
    ensure!(SequenceNumber_t::default() == sn(1), "first");
    ensure!(SequenceNumber_t::SEQUENCENUMBER_UNKNOWN == sn(-1 << 32), "unknown");
}

pub fn c12_sequence_number_convert<S: Src>(s: &mut S) {
    let (a, b, c) = (s.i64(), s.u64(), s.u32());
    ensure!(sn(a).to_i64() == Some(a), "to-i64");
    ensure!(sn(a).to_u64() == u64::try_from(a).ok(), "to-u64");
    ensure!(sn(a).to_usize() == usize::try_from(a).ok(), "to-usize");
    ensure!(sn(a).to_u32() == u32::try_from(a).ok(), "to-u32");
    ensure!(sn(a).to_i32() == i32::try_from(a).ok(), "to-i32");
    ensure!(sn(a).to_u8() == u8::try_from(a).ok(), "to-u8");
    ensure!(SequenceNumber_t::from_i64(a) == Some(sn(a)), "from-i64");
    ensure!(SequenceNumber_t::from_u64(b) == i64::try_from(b).ok().map(sn), "from-u64");
    ensure!(SequenceNumber_t::from_usize(b as usize) == i64::try_from(b).ok().map(sn), "from-usize");
    ensure!(SequenceNumber_t::from_u32(c) == Some(sn(c.into())), "from-u32");
    reachable!("c12_sequence_number_convert");
}

pub fn c12_sequence_number_mul<S: Src>(s: &mut S) {
    let (a, b) = (s.i64(), s.i64());
    ensure!(sn(a).checked_mul(&sn(b)).map(i64::from) == a.checked_mul(b), "checked-mul");
    reachable!("c12_sequence_number_mul");
}

pub fn c12_sequence_number_div<S: Src>(s: &mut S) {
    let (a, b) = (s.i64(), s.i64());
    ensure!(sn(a).checked_div(&sn(b)).map(i64::from) == a.checked_div(b), "checked-div");
    reachable!("c12_sequence_number_div");
}

fn fragment(x: u32) -> FragmentNumber_t {
    FragmentNumber_t::from(x)
}

pub fn c12_fragment_number<S: Src>(s: &mut S) {
    let (a, b) = (s.u32(), s.u32());
    ensure!(u32::from(fragment(a)) == a, "value-kept");
    ensure!(fragment(a).checked_add(&fragment(b)).map(u32::from) == a.checked_add(b), "checked-add");
    ensure!(fragment(a).checked_sub(&fragment(b)).map(u32::from) == a.checked_sub(b), "checked-sub");
    ensure!(fragment(a).cmp(&fragment(b)) == a.cmp(&b), "order");
    ensure!(fragment(a).partial_cmp(&fragment(b)) == Some(a.cmp(&b)), "partial-order");
    ensure!((fragment(a) == fragment(b)) == (a == b), "equality");
    if let Some(sum) = a.checked_add(b) {
        ensure!(fragment(a) + fragment(b) == fragment(sum), "add");
        reachable!("c12_fragment_number");
    }
    if let Some(difference) = a.checked_sub(b) {
        ensure!(fragment(a) - fragment(b) == fragment(difference), "sub");
    }
    ensure!(FragmentNumber_t::default() == fragment(1), "first");
}

pub fn c12_fragment_number_convert<S: Src>(s: &mut S) {
    let (a, b, c) = (s.u32(), s.u64(), s.i64());
    ensure!(fragment(a).to_u64() == Some(a.into()), "to-u64");
    ensure!(fragment(a).to_i64() == Some(a.into()), "to-i64");
    ensure!(fragment(a).to_usize() == Some(a as usize), "to-usize");
    ensure!(fragment(a).to_u32() == Some(a), "to-u32");
    ensure!(fragment(a).to_i32() == i32::try_from(a).ok(), "to-i32");
    ensure!(fragment(a).to_u8() == u8::try_from(a).ok(), "to-u8");
    ensure!(FragmentNumber_t::from_u64(b) == u32::try_from(b).ok().map(fragment), "from-u64");
    ensure!(FragmentNumber_t::from_i64(c) == u32::try_from(c).ok().map(fragment), "from-i64");
    ensure!(FragmentNumber_t::from_usize(b as usize) == u32::try_from(b).ok().map(fragment), "from-usize");
    ensure!(FragmentNumber_t::from_u32(a) == Some(fragment(a)), "from-u32");
    reachable!("c12_fragment_number_convert");
}

pub fn c12_fragment_number_mul<S: Src>(s: &mut S) {
    let (a, b) = (s.u32(), s.u32());
    ensure!(fragment(a).checked_mul(&fragment(b)).map(u32::from) == a.checked_mul(b), "checked-mul");
    reachable!("c12_fragment_number_mul");
}

pub fn c12_fragment_number_div<S: Src>(s: &mut S) {
    let (a, b) = (s.u32(), s.u32());
    ensure!(fragment(a).checked_div(&fragment(b)).map(u32::from) == a.checked_div(b), "checked-div");
    reachable!("c12_fragment_number_div");
}

pub fn c12_order<S: Src>(s: &mut S) {
    let (a, b, f, g) = (s.i32(), s.i32(), s.u32(), s.u32());
    ensure!(i32::from(Count_t::from(a)) == a, "count-value");
    ensure!(Count_t::from(a).cmp(&Count_t::from(b)) == a.cmp(&b), "count-order");
    ensure!((Count_t::from(a) == Count_t::from(b)) == (a == b), "count-equality");
    let order = if a != b { a.cmp(&b) } else { f.cmp(&g) };
    ensure!(time(a, f).cmp(&time(b, g)) == order, "time-order");
    ensure!(time(a, f).partial_cmp(&time(b, g)) == Some(order), "time-partial-order");
    ensure!((time(a, f) == time(b, g)) == (order == Ordering::Equal), "time-equality");
    ensure!(duration_t(a, f).cmp(&duration_t(b, g)) == order, "duration-order");
    ensure!((duration_t(a, f) == duration_t(b, g)) == (order == Ordering::Equal), "duration-equality");
    reachable!("c12_order");
}

fn lexicographic<const N: usize>(a: &[u8; N], b: &[u8; N]) -> Ordering {
    for i in 0..N {
        if a[i] != b[i] {
            return if a[i] < b[i] { Ordering::Less } else { Ordering::Greater };
        }
    }
    Ordering::Equal
}

pub fn c12_guid_identity<S: Src>(s: &mut S) {
    let (a, b) = (s.bytes::<16>(), s.bytes::<16>());
    let (x, y) = (read::<GUID_t, 16>(&a, LE).ok().unwrap(), read::<GUID_t, 16>(&b, LE).ok().unwrap());
    ensure!((x == y) == (a == b), "guid-equality");
    ensure!((x.guid_prefix == y.guid_prefix) == (a[..12] == b[..12]), "prefix-equality");
    ensure!((x.entity_id == y.entity_id) == (a[12..] == b[12..]), "entity-id-equality");
    ensure!(x.cmp(&y) == lexicographic(&a, &b), "guid-order");
    reachable!("c12_guid_identity");
}

pub fn c12_handle_identity<S: Src>(s: &mut S) {
    let (a, b) = (s.bytes::<16>(), s.bytes::<16>());
    let (x, y) = (InstanceHandle_t { entity_key: a }, InstanceHandle_t { entity_key: b });
    ensure!((x == y) == (a == b), "handle-equality");
    ensure!(x.cmp(&y) == lexicographic(&a, &b), "handle-order");
    reachable!("c12_handle_identity");
}

pub fn c12_locator_identity<S: Src>(s: &mut S) {
    let (a, b, p, q, k, l) = (s.bytes::<16>(), s.bytes::<16>(), s.u32(), s.u32(), s.u8() & 3, s.u8() & 3);
    let kind = |k| match k {
        0 => LocatorKind_t::LOCATOR_KIND_INVALID,
        1 => LocatorKind_t::LOCATOR_KIND_RESERVED,
        2 => LocatorKind_t::LOCATOR_KIND_UDPv4,
        _ => LocatorKind_t::LOCATOR_KIND_UDPv6,
    };
    let x = Locator_t { kind: kind(k), port: p, address: a };
    let y = Locator_t { kind: kind(l), port: q, address: b };
    ensure!((x == y) == (a == b && p == q && k == l), "locator-equality");
    reachable!("c12_locator_identity");
}

contracts! {
    c09_from_clock / 12 @ z3, c09_from_clock_seconds / 12, c09_there_and_back / 12, c09_clock / 4, c09_from_clock_outside / 12, c09_to_clock / 12, c09_constants / 12,
    c10_from_duration / 12, c10_to_duration / 12, c10_there_and_back / 12, c10_constants / 12,
    c11_ipv4 / 18, c11_ipv6 / 18, c11_from_locator / 18, c11_udp_v4 / 18, c11_constants / 18,
    c12_sequence_number / 4, c12_sequence_number_convert / 4, c12_sequence_number_mul / 4 @ z3, c12_sequence_number_div / 4 @ z3,
    c12_fragment_number / 4, c12_fragment_number_convert / 4, c12_fragment_number_mul / 4 @ z3, c12_fragment_number_div / 4 @ z3,
    c12_order / 12, c12_guid_identity / 18, c12_handle_identity / 18, c12_locator_identity / 18,
}
