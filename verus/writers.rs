//@ include ids.rs
#[derive(PartialEq, Eq, Structural)]
pub struct Time_t { pub _t: u64 }
#[derive(PartialEq, Eq, Structural)]
pub struct Duration_t { pub _d: u64 }
#[derive(PartialEq, Eq, Structural)]
pub struct EndpointAttributes { pub _e: u64 }
/// Reader locators are compared by their derived equality: of all their parts
#[derive(PartialEq, Eq, Structural)]
pub struct ReaderLocator { pub _l: u64 }
pub struct ReaderProxy { pub remote_reader_guid: GUID_t, pub _p: u64 }
//@ extracted

/// Present after adding: at the end, after those there
fn added(w: &mut StatelessWriter, l: ReaderLocator)
    ensures final(w).reader_locators@.len() == old(w).reader_locators@.len() + 1,
        final(w).reader_locators@.last() == l,
        forall|i: int| 0 <= i < old(w).reader_locators@.len() ==>
            final(w).reader_locators@[i] == old(w).reader_locators@[i],
{
    w.reader_locator_add(l);
}
/// Removed: none left equal to it, all others still there
fn removed(w: &mut StatelessWriter, l: ReaderLocator)
    ensures forall|x: ReaderLocator| final(w).reader_locators@.contains(x) <==>
        old(w).reader_locators@.contains(x) && x != l,
{
    let ghost before = w.reader_locators@;
    w.reader_locator_remove(l);
    proof { filter_members__(before, |x: ReaderLocator| x != l); }
}
/// Numbers follow on one another
fn numbered(w: &mut StatelessWriter, k: ChangeKind_t, d: Data, h: InstanceHandle_t, k2: ChangeKind_t, d2: Data,
            h2: InstanceHandle_t) -> (r: (CacheChange, CacheChange))
    requires old(w).writer_attributes.last_change_sequence_number < i64::MAX - 1,
    ensures r.1.sequence_number == r.0.sequence_number + 1,
        final(w).writer_attributes.last_change_sequence_number == r.1.sequence_number,
{
    let a = w.new_change(k, d, h);
    let b = w.new_change(k2, d2, h2);
    (a, b)
}
/// Found exactly when there is one with the GUID
fn found<'a>(w: &'a StatefulWriter, g: GUID_t) -> (r: Option<&'a ReaderProxy>)
    ensures match r {
        Some(p) => w.matched_readers@.contains(*p) && p.remote_reader_guid == g,
        None => forall|i: int| 0 <= i < w.matched_readers@.len() ==>
            (#[trigger] w.matched_readers@[i]).remote_reader_guid != g,
    }
{
    let mut it = w.matched_reader_lookup(g);
    let ghost p = |p: &ReaderProxy| p.remote_reader_guid == g;
    let ghost s = refs__(w.matched_readers@);
    proof {
        filter_members__(s, p);
        assert forall|i: int| 0 <= i < w.matched_readers@.len() && s.filter(p).len() == 0 implies
            (#[trigger] w.matched_readers@[i]).remote_reader_guid != g by {
            assert(s[i] == &w.matched_readers@[i]);
            assert(s.contains(s[i]));
            assert(!s.filter(p).contains(s[i]));
        }
        if s.filter(p).len() > 0 {
            assert(s.filter(p).contains(s.filter(p)[0]));
            let i = choose|i: int| 0 <= i < s.len() && s[i] == s.filter(p)[0];
            assert(w.matched_readers@[i] == *s.filter(p)[0]);
        }
    }
    it.next()
}
