// Contract of the history cache: it behaves like the list of changes added and not removed since.

use super::*;
use crate::verif::changes::{numbers, Content};
use crate::verif::{contracts, ensure, reachable, Src};

fn sees(cache: &HistoryCache, held: &[Content], number: i64) {
    let first = held.iter().find(|c| c.number == number);
    match cache.get_change(SequenceNumber_t::from(number)) {
        Some(change) => {
            ensure!(first.is_some(), "nothing-removed-or-never-added-is-found");
            ensure!(first.unwrap().is(change), "the-first-added-with-that-number-as-added");
        }
        None => ensure!(first.is_none(), "what-is-held-is-found"),
    }
}

fn ends(cache: &HistoryCache, held: &[Content]) {
    let min = cache.get_seq_num_min().map(|n| i64::from(*n));
    let max = cache.get_seq_num_max().map(|n| i64::from(*n));
    ensure!(min == held.iter().map(|c| c.number).min(), "smallest-number-held");
    ensure!(max == held.iter().map(|c| c.number).max(), "largest-number-held");
}

pub fn c13_history<S: Src>(s: &mut S) {
    let pool = numbers(s);
    let mut cache = HistoryCache::new();
    let mut held: Vec<Content> = vec![];
    ends(&cache, &held);
    for _ in 0..s.some(1, 20_000) {
        let number = if s.upto(9) == 0 { pool[s.upto(5)] } else { s.i64() };
        let content = Content::any(s, number);
        cache.add_change(content.make());
        held.push(content);
    }
    ends(&cache, &held);
    let steps = if held.len() > 1000 { s.upto(20) } else { s.some(40, 1500) };
    for _ in 0..steps {
        let number = if held.is_empty() || s.upto(4) != 0 {
            pool[s.upto(5)]
        } else {
            held[s.upto(held.len() - 1)].number
        };
        // a long history mostly grows
        match if steps > 60 && s.upto(2 * steps) != steps { 0 } else { s.upto(5) } {
            0 | 1 | 2 => {
                let content = Content::any(s, number);
                cache.add_change(content.make());
                held.push(content);
            }
            3 | 4 => {
                cache.remove_change(SequenceNumber_t::from(number));
                held.retain(|c| c.number != number);
            }
            _ => {}
        }
        sees(&cache, &held, number);
        ends(&cache, &held);
        let other = pool[s.upto(5)];
        sees(&cache, &held, other);
    }
    for number in pool.iter() {
        sees(&cache, &held, *number);
    }
    // emptied, number by number; of a long history, a part
    let mut left = held.len().min(1_000_000 / held.len().max(1));
    while left > 0 && !held.is_empty() {
        left -= 1;
        for number in pool.iter() {
            sees(&cache, &held, *number);
        }
        let number = held[s.upto(held.len() - 1)].number;
        cache.remove_change(SequenceNumber_t::from(number));
        held.retain(|c| c.number != number);
        ends(&cache, &held);
    }
    reachable!("c13_history");
}

contracts! { c13_history / 8 }
