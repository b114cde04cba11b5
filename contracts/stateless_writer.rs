// Contract of the stateless writer, over whole histories.

use super::*;
use crate::behavior::reader_locator::verif::{any_locator, is, reader, Seen};
use crate::structure::duration::Duration_t;
use crate::structure::locator::Locator_t;
use crate::structure::reliability_kind::ReliabilityKind_t;
use crate::structure::topic_kind::TopicKind_t;
use crate::verif::changes::{guid, kind, Content};
use crate::verif::{contracts, ensure, reachable, Src};

fn unchanged(w: &StatelessWriter, id: &[u8; 16], last: i64, push: bool, locators: &[Seen]) {
    ensure!(w.as_entity().guid == guid(id), "guid-stays");
    ensure!(w.as_writer().push_mode == push, "push-mode-stays");
    ensure!(w.as_writer().heartbeat_period == Duration_t::DURATION_ZERO, "heartbeat-period-stays");
    ensure!(w.as_writer().nack_response_delay == Duration_t::DURATION_INFINITE, "nack-delay-stays");
    ensure!(w.as_writer().nack_suppression_duration == Duration_t::DURATION_INVALID, "nack-suppression-stays");
    ensure!(w.as_endpoint().topic_kind == TopicKind_t::WITH_KEY, "topic-kind-stays");
    ensure!(w.as_endpoint().reliability_level == ReliabilityKind_t::BEST_EFFORT, "reliability-stays");
    ensure!(
        w.as_endpoint().unicast_locator_list == Locator_t::LOCATOR_INVALID
            && w.as_endpoint().multicast_locator_list == Locator_t::LOCATOR_INVALID,
        "endpoint-locators-stay"
    );
    ensure!(w.resend_data_period == Time_t::TIME_INFINITE, "resend-period-stays");
    ensure!(i64::from(w.as_writer().last_change_sequence_number) == last, "last-sequence-number");
    ensure!(
        w.reader_locators.len() == locators.len() && w.reader_locators.iter().zip(locators).all(|(a, b)| is(a, b)),
        "reader-locators-in-the-order-added"
    );
}

pub fn c15_stateless<S: Src>(s: &mut S) {
    let id = s.bytes::<16>();
    let push = s.bool();
    let mut last = s.i64();
    let mut w = StatelessWriter::new(
        EntityAttributes { guid: guid(&id) },
        EndpointAttributes {
            topic_kind: TopicKind_t::WITH_KEY,
            reliability_level: ReliabilityKind_t::BEST_EFFORT,
            unicast_locator_list: Locator_t::LOCATOR_INVALID,
            multicast_locator_list: Locator_t::LOCATOR_INVALID,
        },
        WriterAttributes {
            push_mode: push,
            heartbeat_period: Duration_t::DURATION_ZERO,
            nack_response_delay: Duration_t::DURATION_INFINITE,
            nack_suppression_duration: Duration_t::DURATION_INVALID,
            last_change_sequence_number: SequenceNumber_t::from(last),
        },
        Time_t::TIME_INFINITE,
    );
    let mut held: Vec<Seen> = vec![];
    let pool = [any_locator(s), any_locator(s), any_locator(s)];
    unchanged(&w, &id, last, push, &held);
    for _ in 0..s.some(1, 20_000) {
        let one = if s.upto(9) == 0 { pool[s.upto(2)].clone() } else { any_locator(s) };
        w.reader_locator_add(reader(&one));
        held.push(one);
    }
    let steps = if held.len() > 1000 { s.upto(9) } else { s.some(20, 1000) };
    for _ in 0..steps {
        // a long history mostly grows
        match if steps > 40 && s.upto(2 * steps) != steps { 1 } else { s.upto(3) } {
            0 => {
                // the largest number has no successor
                if last == i64::MAX {
                    continue;
                }
                last += 1;
                let content = Content::any(s, last);
                let change = w.new_change(
                    kind(content.kind),
                    Data {},
                    InstanceHandle_t { entity_key: content.handle },
                );
                ensure!(i64::from(change.sequence_number) == last, "the-number-after-the-last");
                ensure!(change.kind == kind(content.kind), "the-kind-given");
                ensure!(change.instance_handle.entity_key == content.handle, "the-handle-given");
                ensure!(change.writer_guid == guid(&id), "the-writer's-own-guid");
                reachable!("new_change");
            }
            1 | 2 => {
                let one = pool[s.upto(2)].clone();
                w.reader_locator_add(reader(&one));
                held.push(one);
            }
            _ => {
                let one = pool[s.upto(2)].clone();
                w.reader_locator_remove(reader(&one));
                held.retain(|x| *x != one);
                reachable!("removed");
            }
        }
        unchanged(&w, &id, last, push, &held);
    }
}

contracts! { c15_stateless / 8 }
