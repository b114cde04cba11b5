// Contracts of reading anything at all: a value or an error, within bounds.

use super::codec::{Ctx, Rd};
use super::{contracts, ensure, reachable, Src};
use crate::common::bit_set::BitSetRef;
use crate::common::ranged_bit_set::RangedBitSet;
use crate::messages::ack_nack::AckNack;
use crate::messages::fragment_number::FragmentNumber_t;
use crate::messages::gap::Gap;
use crate::messages::header::Header;
use crate::messages::heartbeat::Heartbeat;
use crate::messages::heartbeat_frag::HeartbeatFrag;
use crate::messages::info_destination::InfoDestination;
use crate::messages::info_source::InfoSource;
use crate::messages::nack_frag::NackFrag;
use crate::messages::protocol_id::ProtocolId_t;
use crate::messages::protocol_version::ProtocolVersion_t;
use crate::messages::submessage_elements::parameter::Parameter;
use crate::messages::submessage_flag::SubmessageFlag;
use crate::messages::submessage_header::SubmessageHeader;
use crate::messages::submessage_kind::SubmessageKind;
use crate::messages::vendor_id::VendorId_t;
use crate::structure::count::Count_t;
use crate::structure::duration::Duration_t;
use crate::structure::entity_id::EntityId_t;
use crate::structure::guid::GUID_t;
use crate::structure::guid_prefix::GuidPrefix_t;
use crate::structure::instance_handle::InstanceHandle_t;
use crate::structure::locator::{LocatorKind_t, LocatorList_t, Locator_t};
use crate::structure::locator_udp_v4::LocatorUDPv4_t;
use crate::structure::parameter_id::ParameterId;
use crate::structure::reliability_kind::ReliabilityKind_t;
use crate::structure::sequence_number::SequenceNumber_t;
use crate::structure::time::Time_t;
use crate::structure::topic_kind::TopicKind_t;
use speedy::{Endianness, Readable, Reader, Writable};

/// Any string of up to `N` octets: a value or an error, and no value made of
/// fewer octets than the type has
fn total<S: Src, T, const N: usize>(s: &mut S)
where
    T: for<'a> Readable<'a, Ctx>,
{
    let wire = s.bytes::<N>();
    let start = s.upto(N);
    let e = s.endianness();
    let mut reader = Rd { context: Ctx(e), wire: &wire, at: start };
    // what read_from_buffer asks first
    let enough = reader.can_read_at_least(T::minimum_bytes_needed()) == Some(true);
    let read = T::read_from(&mut reader);
    if start > 0 {
        ensure!(read.is_err(), "too-short-is-an-error");
    }
    ensure!(read.is_err() || enough, "no-more-octets-asked-for-than-needed");
    ensure!(reader.at <= N, "reads-within-the-input");
    std::mem::forget(read);
    reachable!("total");
}

macro_rules! total {
    ($( $name:ident $type:ty = $octets:literal, )*) => {
        $(
            pub fn $name<S: Src>(s: &mut S) {
                total::<S, $type, $octets>(s)
            }
        )*
    };
}

total! {
    c07_guid_prefix GuidPrefix_t = 12,
    c07_entity_id EntityId_t = 4,
    c07_guid GUID_t = 16,
    c07_instance_handle InstanceHandle_t = 16,
    c07_vendor_id VendorId_t = 2,
    c07_protocol_version ProtocolVersion_t = 2,
    c07_protocol_id ProtocolId_t = 4,
    c07_submessage_kind SubmessageKind = 1,
    c07_submessage_flag SubmessageFlag = 1,
    c07_submessage_header SubmessageHeader = 4,
    c07_header Header = 20,
    c07_sequence_number SequenceNumber_t = 8,
    c07_fragment_number FragmentNumber_t = 4,
    c07_count Count_t = 4,
    c07_time Time_t = 8,
    c07_duration Duration_t = 8,
    c07_locator Locator_t = 24,
    c07_locator_kind LocatorKind_t = 4,
    c07_locator_udp_v4 LocatorUDPv4_t = 8,
    c07_topic_kind TopicKind_t = 4,
    c07_reliability_kind ReliabilityKind_t = 4,
    c07_parameter_id ParameterId = 2,
    c07_heartbeat Heartbeat = 28,
    c07_heartbeat_frag HeartbeatFrag = 24,
    c07_info_source InfoSource = 16,
    c07_info_destination InfoDestination = 12,
}

// --- every type, on speedy's own buffers (run natively)

/// Octets, with the counts that lead to long readings in likely places
fn untrusted<S: Src>(s: &mut S) -> Vec<u8> {
    let most = if s.upto(30) == 0 { 5000 } else { 160 };
    let mut bytes = s.buffer::<8>(most);
    for _ in 0..s.upto(3) {
        let at = s.upto(40) / 4 * 4;
        if bytes.len() >= at + 4 {
            let word = s.u32();
            let e = s.endianness();
            bytes[at..at + 4].copy_from_slice(&super::codec::put32(word, e));
        }
    }
    bytes
}

#[cfg(not(kani))]
fn reset() {
    super::ALLOCATED.store(0, std::sync::atomic::Ordering::Relaxed);
}

#[cfg(not(kani))]
fn reserved() -> usize {
    super::ALLOCATED.load(std::sync::atomic::Ordering::Relaxed)
}

/// -> the value read and the number of octets used
#[cfg(not(kani))]
fn read<T>(bytes: &[u8], e: Endianness) -> Option<(T, usize)>
where
    T: for<'a> Readable<'a, Endianness>,
{
    reset();
    let (read, used) = T::read_with_length_from_buffer_with_ctx(e, bytes);
    let most = reserved();
    ensure!(used <= bytes.len(), "reads-within-the-input");
    ensure!(most <= (1 << 17) + 16 * bytes.len(), "reserves-memory-for-what-there-is");
    let owned = T::read_from_buffer_owned_with_ctx(e, bytes);
    ensure!(owned.is_ok() == read.is_ok(), "the-same-however-it-is-buffered");
    match read {
        Ok(value) => {
            if used > 0 {
                let cut = T::read_from_buffer_with_ctx(e, &bytes[..used - 1]);
                ensure!(cut.is_err(), "too-short-is-an-error");
            }
            Some((value, used))
        }
        Err(_) => None,
    }
}

/// A value that was read can be written
#[cfg(not(kani))]
fn usable<T>(bytes: &[u8], e: Endianness)
where
    T: for<'a> Readable<'a, Endianness> + Writable<Endianness>,
{
    if let Some((value, _)) = read::<T>(bytes, e) {
        let _ = value.write_to_vec_with_ctx(e);
        reachable!("usable");
    }
}

#[cfg(not(kani))]
fn usable_set<S: Src, B>(s: &mut S, bytes: &[u8], e: Endianness)
where
    B: super::sets::Number,
    RangedBitSet<B>: for<'a> Readable<'a, Endianness> + Writable<Endianness>,
{
    if let Some((mut set, _)) = read::<RangedBitSet<B>>(bytes, e) {
        for _ in 0..s.upto(4) {
            set.insert(B::any(s));
        }
        ensure!(set.write_to_vec_with_ctx(e).is_ok(), "a-set-can-be-written");
        let count = set.into_iter().count();
        ensure!(count <= 8 * bytes.len() + 4, "no-more-members-than-bits");
    }
}

#[cfg(not(kani))]
pub fn c07_any<S: Src>(s: &mut S) {
    let e = s.endianness();
    let bytes = untrusted(s);
    match s.upto(36) {
        0 => usable::<GuidPrefix_t>(&bytes, e),
        1 => usable::<EntityId_t>(&bytes, e),
        2 => usable::<GUID_t>(&bytes, e),
        3 => usable::<InstanceHandle_t>(&bytes, e),
        4 => usable::<VendorId_t>(&bytes, e),
        5 => usable::<ProtocolVersion_t>(&bytes, e),
        6 => usable::<ProtocolId_t>(&bytes, e),
        7 => usable::<SubmessageKind>(&bytes, e),
        8 => usable::<SubmessageFlag>(&bytes, e),
        9 => usable::<SubmessageHeader>(&bytes, e),
        10 => usable::<Header>(&bytes, e),
        11 => usable::<SequenceNumber_t>(&bytes, e),
        12 => usable::<FragmentNumber_t>(&bytes, e),
        13 => usable::<Count_t>(&bytes, e),
        14 => usable::<Time_t>(&bytes, e),
        15 => usable::<Duration_t>(&bytes, e),
        16 => usable::<Locator_t>(&bytes, e),
        17 => usable::<LocatorKind_t>(&bytes, e),
        18 => usable::<LocatorUDPv4_t>(&bytes, e),
        19 => usable::<TopicKind_t>(&bytes, e),
        20 => usable::<ReliabilityKind_t>(&bytes, e),
        21 => usable::<ParameterId>(&bytes, e),
        22 => usable::<Heartbeat>(&bytes, e),
        23 => usable::<HeartbeatFrag>(&bytes, e),
        24 => usable::<InfoSource>(&bytes, e),
        25 => usable::<InfoDestination>(&bytes, e),
        26 => usable::<BitSetRef>(&bytes, e),
        27 => usable_set::<S, SequenceNumber_t>(s, &bytes, e),
        28 => usable_set::<S, FragmentNumber_t>(s, &bytes, e),
        29 => usable::<AckNack>(&bytes, e),
        30 => usable::<Gap>(&bytes, e),
        31 => usable::<NackFrag>(&bytes, e),
        32 => usable::<LocatorList_t>(&bytes, e),
        _ => usable::<Parameter>(&bytes, e),
    }
    // and each through what it converts to
    if let Some((locator, _)) = read::<Locator_t>(&bytes, e) {
        let _ = std::net::SocketAddr::from(locator);
    }
    if let Some((locator, _)) = read::<LocatorUDPv4_t>(&bytes, e) {
        let _ = Locator_t::from(locator);
    }
    if let Some((time, _)) = read::<Time_t>(&bytes, e) {
        use std::convert::TryFrom;
        let _ = std::time::SystemTime::try_from(time);
    }
    if let Some((duration, _)) = read::<Duration_t>(&bytes, e) {
        let _ = std::time::Duration::from(duration);
    }
}

#[cfg(kani)]
pub fn c07_any<S: Src>(_s: &mut S) {}

contracts! {
    c07_guid_prefix / 30, c07_entity_id / 30, c07_guid / 30, c07_instance_handle / 30, c07_vendor_id / 30,
    c07_protocol_version / 30, c07_protocol_id / 30, c07_submessage_kind / 30, c07_submessage_flag / 30,
    c07_submessage_header / 30, c07_header / 30, c07_sequence_number / 30, c07_fragment_number / 30,
    c07_count / 30, c07_time / 30, c07_duration / 30, c07_locator / 30, c07_locator_kind / 30,
    c07_locator_udp_v4 / 30, c07_topic_kind / 30, c07_reliability_kind / 30, c07_parameter_id / 30,
    c07_heartbeat / 30, c07_heartbeat_frag / 30, c07_info_source / 30, c07_info_destination / 30,
    c07_any / 4,
}
