// Changes, made and seen, for the contracts of the history cache, the proxies and the writers.

use super::{contracts, Src};
use crate::structure::cache_change::CacheChange;
use crate::structure::change_kind::ChangeKind_t;
use crate::structure::data::Data;
use crate::structure::entity_id::EntityId_t;
use crate::structure::guid::GUID_t;
use crate::structure::guid_prefix::GuidPrefix_t;
use crate::structure::instance_handle::InstanceHandle_t;
use crate::structure::sequence_number::SequenceNumber_t;
use speedy::{Endianness, Readable};

/// What a change is made of
#[derive(Clone, PartialEq, Debug)]
pub struct Content {
    pub kind: u8,
    pub guid: [u8; 16],
    pub handle: [u8; 16],
    pub number: i64,
}

pub fn kind(k: u8) -> ChangeKind_t {
    match k % 3 {
        0 => ChangeKind_t::ALIVE,
        1 => ChangeKind_t::NOT_ALIVE_DISPOSED,
        _ => ChangeKind_t::NOT_ALIVE_UNREGISTERED,
    }
}

pub fn guid(b: &[u8; 16]) -> GUID_t {
    GUID_t::read_from_buffer_with_ctx(Endianness::BigEndian, b).unwrap()
}

impl Content {
    pub fn make(&self) -> CacheChange {
        CacheChange {
            kind: kind(self.kind),
            writer_guid: guid(&self.guid),
            instance_handle: InstanceHandle_t { entity_key: self.handle },
            sequence_number: SequenceNumber_t::from(self.number),
            data_value: Data {},
        }
    }
    pub fn is(&self, change: &CacheChange) -> bool {
        change.kind == kind(self.kind)
            && change.writer_guid == guid(&self.guid)
            && change.instance_handle.entity_key == self.handle
            && i64::from(change.sequence_number) == self.number
    }
    pub fn any<S: Src>(s: &mut S, number: i64) -> Self {
        Content { kind: s.upto(2) as u8, guid: s.bytes::<16>(), handle: s.bytes::<16>(), number }
    }
}

/// A few numbers that histories draw from: neighbours, ends, unrelated ones
pub fn numbers<S: Src>(s: &mut S) -> [i64; 6] {
    let a = s.i64();
    [a, a.wrapping_add(1), a.wrapping_sub(1), s.i64(), s.i64(), i64::from(s.u8())]
}

contracts! {}
