// Reader locators, made and seen, and what makes two of them equal.

use super::*;
use crate::structure::locator_kind::LocatorKind_t;
use crate::verif::changes::Content;
use crate::verif::{contracts, ensure, reachable, Src};

/// What a reader locator is made of
#[derive(Clone, PartialEq)]
pub struct Seen {
    pub port: u32,
    pub address: [u8; 16],
    pub ipv4: bool,
    pub inline_qos: bool,
    pub requested: Vec<Content>,
    pub unsent: Vec<Content>,
}

pub fn any_locator<S: Src>(s: &mut S) -> Seen {
    let mut contents = |n: usize| -> Vec<Content> {
        (0..n)
            .map(|_| {
                let number = i64::from(s.u8() % 2);
                Content { kind: s.u8() % 2, guid: [1; 16], handle: [2; 16], number }
            })
            .collect()
    };
    let (requested, unsent) = (contents(1), contents(1));
    Seen {
        port: u32::from(s.u8() % 2),
        address: [s.u8() % 2; 16],
        ipv4: s.u8() % 4 == 0,
        inline_qos: s.u8() % 4 == 0,
        requested,
        unsent,
    }
}

pub fn reader(l: &Seen) -> ReaderLocator {
    ReaderLocator {
        requested_changes: l.requested.iter().map(Content::make).collect(),
        unsent_changes: l.unsent.iter().map(Content::make).collect(),
        locator: Locator_t {
            kind: if l.ipv4 { LocatorKind_t::LOCATOR_KIND_UDPv4 } else { LocatorKind_t::LOCATOR_KIND_UDPv6 },
            port: l.port,
            address: l.address,
        },
        expects_inline_qos: l.inline_qos,
    }
}

/// Every part is what it was made of
pub fn is(r: &ReaderLocator, l: &Seen) -> bool {
    let kind = if l.ipv4 { LocatorKind_t::LOCATOR_KIND_UDPv4 } else { LocatorKind_t::LOCATOR_KIND_UDPv6 };
    r.locator.kind == kind
        && r.locator.port == l.port
        && r.locator.address == l.address
        && r.expects_inline_qos == l.inline_qos
        && r.requested_changes.len() == l.requested.len()
        && r.requested_changes.iter().zip(&l.requested).all(|(a, b)| b.is(a))
        && r.unsent_changes.len() == l.unsent.len()
        && r.unsent_changes.iter().zip(&l.unsent).all(|(a, b)| b.is(a))
}

/// Two are equal exactly when all their parts are
pub fn c15_locator_identity<S: Src>(s: &mut S) {
    let (a, b) = (any_locator(s), any_locator(s));
    let (x, y) = (reader(&a), reader(&b));
    ensure!((x == y) == (a == b), "equal-exactly-when-all-parts-are");
    ensure!((x != y) == (a != b), "unequal-exactly-when-some-part-is");
    reachable!("c15_locator_identity");
}

contracts! { c15_locator_identity / 20 }
