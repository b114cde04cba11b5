// Contract of the stateful writer's list of readers, over whole histories.

use super::*;
use crate::structure::duration::Duration_t;
use crate::structure::locator::Locator_t;
use crate::structure::reliability_kind::ReliabilityKind_t;
use crate::structure::sequence_number::SequenceNumber_t;
use crate::structure::topic_kind::TopicKind_t;
use crate::verif::changes::guid;
use crate::verif::{contracts, ensure, reachable, Src};

fn found(w: &StatefulWriter, id: &[u8; 16], readers: &[[u8; 16]]) {
    let count = readers.iter().filter(|r| *r == id).count();
    let mut given: Vec<*const ReaderProxy> = vec![];
    for proxy in w.matched_reader_lookup(guid(id)) {
        ensure!(proxy.remote_reader_guid == guid(id), "lookup-gives-readers-with-that-guid-only");
        given.push(proxy);
    }
    given.sort();
    given.dedup();
    ensure!(given.len() == count, "lookup-gives-every-reader-with-that-guid");
}

pub fn c15_stateful<S: Src>(s: &mut S) {
    let own = s.bytes::<16>();
    let last = s.i64();
    let mut w = StatefulWriter {
        matched_readers: vec![],
        entity: EntityAttributes { guid: guid(&own) },
        endpoint: EndpointAttributes {
            topic_kind: TopicKind_t::NO_KEY,
            reliability_level: ReliabilityKind_t::RELIABLE,
            unicast_locator_list: Locator_t::LOCATOR_INVALID,
            multicast_locator_list: Locator_t::LOCATOR_INVALID,
        },
        writer: WriterAttributes {
            push_mode: true,
            heartbeat_period: Duration_t::DURATION_ZERO,
            nack_response_delay: Duration_t::DURATION_ZERO,
            nack_suppression_duration: Duration_t::DURATION_ZERO,
            last_change_sequence_number: SequenceNumber_t::from(last),
        },
    };
    // GUIDs that differ in one octet anywhere, or not at all
    let mut pool = [s.bytes::<16>(); 4];
    for i in 1..4 {
        let at = s.upto(15);
        pool[i][at] ^= s.u8();
    }
    let mut readers: Vec<[u8; 16]> = vec![];
    found(&w, &pool[0], &readers);
    for _ in 0..s.some(1, 20_000) {
        let id = if s.upto(9) == 0 { pool[s.upto(3)] } else { s.bytes::<16>() };
        w.matched_reader_add(ReaderProxy::new(guid(&id), s.bool()));
        readers.push(id);
    }
    for _ in 0..if readers.len() > 1000 { s.upto(9) } else { s.some(12, 300) } {
        let id = pool[s.upto(3)];
        w.matched_reader_add(ReaderProxy::new(guid(&id), s.bool()));
        readers.push(id);
        for id in pool.iter() {
            found(&w, id, &readers);
        }
        ensure!(
            w.matched_readers.len() == readers.len()
                && w.matched_readers.iter().zip(&readers).all(|(a, b)| a.remote_reader_guid == guid(b)),
            "added-after-those-there"
        );
        ensure!(w.as_entity().guid == guid(&own), "guid-stays");
        ensure!(i64::from(w.as_writer().last_change_sequence_number) == last, "last-sequence-number-stays");
        reachable!("c15_stateful");
    }
}

contracts! { c15_stateful / 8 }
