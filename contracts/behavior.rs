// Contracts of the reader proxy, over whole histories.

use super::changes::{guid, numbers, Content};
use super::{contracts, ensure, reachable, Src};
use crate::behavior::reader_proxy::ReaderProxy;
use crate::structure::cache_change::CacheChange;

/// The unsent changes are those above the last number returned, in their places
fn unsent(proxy: &ReaderProxy, changes: &[CacheChange], held: &[Content], last: i64) {
    let mut expected = held.iter().filter(|c| c.number > last);
    let mut given = proxy.unsent_changes(changes);
    loop {
        match (given.next(), expected.next()) {
            (None, None) => return,
            (Some(change), Some(content)) => ensure!(content.is(change), "unsent-are-those-above-the-last-sent"),
            (Some(_), None) => ensure!(false, "unsent-only-above-the-last-sent"),
            (None, Some(_)) => ensure!(false, "all-above-the-last-sent-are-unsent"),
        }
    }
}

pub fn c14_history<S: Src>(s: &mut S) {
    let pool = numbers(s);
    let mut proxy = ReaderProxy::new(guid(&s.bytes::<16>()), s.bool());
    let mut held: Vec<Content> = vec![];
    let mut changes: Vec<CacheChange> = vec![];
    // the smallest number a sequence number can be is not one a change has
    let mut last = i64::MIN;
    for _ in 0..s.some(1, 20_000) {
        let number = if s.upto(9) == 0 { pool[s.upto(5)] } else { s.i64() };
        let content = Content::any(s, number);
        changes.push(content.make());
        held.push(content);
    }
    let steps = if held.len() > 1000 { s.upto(20) } else { s.some(40, 1000) };
    for _ in 0..steps {
        // a long history mostly grows
        match if steps > 60 && s.upto(steps) < steps - 9 { 0 } else { s.upto(6) } {
            0 | 1 | 2 => {
                let number = if s.bool() { pool[s.upto(5)] } else { s.i64() };
                let content = Content::any(s, number);
                let at = s.upto(held.len());
                changes.insert(at, content.make());
                held.insert(at, content);
            }
            3 if !held.is_empty() => {
                let at = s.upto(held.len() - 1);
                changes.remove(at);
                held.remove(at);
            }
            _ => {
                let expected = held.iter().map(|c| c.number).filter(|n| *n > last).min();
                match proxy.next_unsent_change(&changes) {
                    Some(change) => {
                        let number = i64::from(change.sequence_number);
                        ensure!(Some(number) == expected, "the-smallest-above-the-last-sent");
                        ensure!(
                            held.iter().any(|c| c.number == number && c.is(change)),
                            "a-change-of-the-collection-as-it-is"
                        );
                        last = number;
                    }
                    None => ensure!(expected.is_none(), "nothing-only-when-none-is-left"),
                }
            }
        }
        unsent(&proxy, &changes, &held, last);
    }
    // drained: each once, ascending, until none is left
    for _ in 0..held.len().min(1_000_000 / held.len().max(1)) {
        if let Some(change) = proxy.next_unsent_change(&changes) {
            let number = i64::from(change.sequence_number);
            ensure!(number > last, "each-once-and-ascending");
            ensure!(!held.iter().any(|c| c.number > last && c.number < number), "none-passed-over");
            last = number;
        }
    }
    if held.len() <= 1000 {
        ensure!(proxy.next_unsent_change(&changes).is_none(), "then-nothing");
        ensure!(!held.iter().any(|c| c.number > last), "until-none-is-left");
    }
    reachable!("c14_history");
}

contracts! { c14_history / 8 }
