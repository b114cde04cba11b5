// What the Verus units take Vec and the iterators over it to be (verus/std_model.rs), on the
// standard library itself. Bounded: few items, every content.

use super::{contracts, ensure, reachable, Src};

const N: usize = 3;

/// A key, and where the item came from
#[derive(Copy, Clone, PartialEq, Debug)]
struct Item {
    key: i64,
    at: usize,
}

fn items<S: Src>(s: &mut S) -> Vec<Item> {
    let mut items = Vec::with_capacity(N);
    for at in 0..s.upto(N) {
        items.push(Item { key: s.i64(), at });
    }
    items
}

/// A condition on items: by key, or any at all
fn meets(condition: (i64, u8), item: &Item) -> bool {
    item.key < condition.0 || condition.1 >> (item.at % 8) & 1 == 1
}

pub fn std_find<S: Src>(s: &mut S) {
    let v = items(s);
    let c = (s.i64(), s.u8());
    match v.iter().find(|x| meets(c, x)) {
        Some(x) => {
            ensure!(x.at < v.len() && *x == v[x.at] && meets(c, x), "finds-an-item-that-meets-it");
            for i in 0..x.at {
                ensure!(!meets(c, &v[i]), "finds-the-first");
            }
            reachable!("std_find");
        }
        None => {
            for i in 0..v.len() {
                ensure!(!meets(c, &v[i]), "finds-one-if-there-is-one");
            }
            reachable!("std_find_none");
        }
    }
    let mut iter = v.iter();
    for i in 0..v.len() {
        ensure!(iter.next() == Some(&v[i]), "each-in-its-place");
    }
    ensure!(iter.next().is_none(), "then-no-more");
}

pub fn std_filter<S: Src>(s: &mut S) {
    let v = items(s);
    let c = (s.i64(), s.u8());
    let mut left = v.iter().filter(move |x| meets(c, x));
    for i in 0..v.len() {
        if meets(c, &v[i]) {
            ensure!(left.next() == Some(&v[i]), "those-that-meet-it-in-their-order");
        }
    }
    ensure!(left.next().is_none(), "and-no-other");
    reachable!("std_filter");
}

pub fn std_least<S: Src>(s: &mut S) {
    let v = items(s);
    let c = (s.i64(), s.u8());
    let least = v.iter().filter(move |x| meets(c, x)).min_by(|x, y| x.key.cmp(&y.key));
    let smallest = v.iter().map(|x| &x.key).min_by(|x, y| x.cmp(y));
    let largest = v.iter().map(|x| &x.key).max_by(|x, y| x.cmp(y));
    let mut some = false;
    for i in 0..v.len() {
        if meets(c, &v[i]) {
            some = true;
            ensure!(least.map_or(false, |x| x.key <= v[i].key), "the-least-of-those-that-meet-it");
        }
        ensure!(smallest.map_or(false, |x| *x <= v[i].key), "the-smallest");
        ensure!(largest.map_or(false, |x| *x >= v[i].key), "the-largest");
    }
    ensure!(least.is_some() == some, "one-if-there-is-one");
    if let Some(x) = least {
        ensure!(meets(c, x) && *x == v[x.at], "the-least-is-one-of-them");
        reachable!("std_least");
    }
    ensure!(smallest.is_some() == !v.is_empty() && largest.is_some() == !v.is_empty(), "none-of-none");
    let there = |k: Option<&i64>| k.map_or(true, |k| v.iter().any(|x| x.key == *k));
    ensure!(there(smallest) && there(largest), "keys-of-those-there");
}

fn retained<S: Src, const N: usize>(s: &mut S) {
    let (keys, c) = (s.bytes::<N>(), (s.u8() as i64, s.u8()));
    let meets = |i: usize| meets(c, &Item { key: keys[i] as i64, at: i });
    let mut left: Vec<u8> = (0..N as u8).collect();
    left.retain(|i| meets(*i as usize));
    let mut at = 0;
    for i in 0..N {
        if meets(i) {
            ensure!(at < left.len() && left[at] == i as u8, "those-that-meet-it-stay-in-their-order");
            at += 1;
        }
    }
    ensure!(at == left.len(), "and-no-other");
}

pub fn std_retain<S: Src>(s: &mut S) {
    retained::<S, 0>(s);
    retained::<S, 1>(s);
    retained::<S, 3>(s);
    reachable!("std_retain");
}

contracts! { std_find / 5, std_filter / 5, std_least / 5, std_retain / 5 }
