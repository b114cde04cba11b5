//@ include ids.rs
//@ extracted
pub open spec fn none_above(s: Seq<CacheChange>, n: i64) -> bool {
    forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).sequence_number <= n
}
/// A change of the collection, with the smallest number above n
pub open spec fn smallest_above(s: Seq<CacheChange>, n: i64, c: CacheChange) -> bool {
    &&& c.sequence_number > n
    &&& exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == c
    &&& forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]).sequence_number > n
        ==> c.sequence_number <= s[i].sequence_number
}
/// The unsent changes are those above n
pub proof fn filtered_refs(s: Seq<CacheChange>, n: i64)
    ensures ({
        let f = refs__(s).filter(|c: &CacheChange| c.sequence_number > n);
        &&& forall|k: int| 0 <= k < f.len() ==> (#[trigger] f[k]).sequence_number > n
            && exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == *f[k]
        &&& forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]).sequence_number > n ==>
            exists|k: int| 0 <= k < f.len() && s[i] == *#[trigger] f[k]
    })
{
    let p = |c: &CacheChange| c.sequence_number > n;
    let f = refs__(s).filter(p);
    filter_members__(refs__(s), p);
    assert forall|k: int| 0 <= k < f.len() implies (#[trigger] f[k]).sequence_number > n
        && exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == *f[k] by {
        assert(f.contains(f[k]));
        assert(refs__(s).contains(f[k]));
        let i = choose|i: int| 0 <= i < refs__(s).len() && refs__(s)[i] == f[k];
        assert(s[i] == *f[k]);
    }
    assert forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]).sequence_number > n implies
        exists|k: int| 0 <= k < f.len() && s[i] == *#[trigger] f[k] by {
        assert(refs__(s).contains(refs__(s)[i]));
        assert(refs__(s)[i] == &s[i]);
        assert(f.contains(refs__(s)[i]));
        let k = choose|k: int| 0 <= k < f.len() && f[k] == refs__(s)[i];
        assert(s[i] == *f[k]);
    }
}

/// Asked until there is nothing left: every number above the last one sent, once, ascending
#[verifier::exec_allows_no_decreases_clause]
fn drained(proxy: &mut ReaderProxy, changes: &[CacheChange]) -> (out: Vec<i64>)
    ensures
        forall|a: int, b: int| 0 <= a < b < out@.len() ==> out@[a] < out@[b],
        forall|a: int| 0 <= a < out@.len() ==> (#[trigger] out@[a]) > old(proxy).highest_seq_num_sent
            && exists|i: int| 0 <= i < changes@.len() && (#[trigger] changes@[i]).sequence_number == out@[a],
        forall|i: int| 0 <= i < changes@.len()
            && (#[trigger] changes@[i]).sequence_number > old(proxy).highest_seq_num_sent
            ==> out@.contains(changes@[i].sequence_number),
{
    let mut out: Vec<i64> = Vec::new();
    let ghost start = proxy.highest_seq_num_sent;
    loop
        invariant
            start <= proxy.highest_seq_num_sent,
            out@.len() == 0 ==> start == proxy.highest_seq_num_sent,
            forall|a: int, b: int| 0 <= a < b < out@.len() ==> out@[a] < out@[b],
            forall|a: int| 0 <= a < out@.len() ==> start < (#[trigger] out@[a]) <= proxy.highest_seq_num_sent
                && exists|i: int| 0 <= i < changes@.len() && (#[trigger] changes@[i]).sequence_number == out@[a],
            forall|i: int| 0 <= i < changes@.len()
                && start < (#[trigger] changes@[i]).sequence_number <= proxy.highest_seq_num_sent
                ==> out@.contains(changes@[i].sequence_number),
        ensures
            none_above(changes@, proxy.highest_seq_num_sent),
    {
        let ghost before = proxy.highest_seq_num_sent;
        let ghost sent = out@;
        match proxy.next_unsent_change(changes) {
            Some(c) => {
                out.push(c.sequence_number);
                proof {
                    assert(out@[sent.len() as int] == c.sequence_number);
                    assert forall|i: int| 0 <= i < changes@.len()
                        && start < (#[trigger] changes@[i]).sequence_number <= c.sequence_number implies
                        out@.contains(changes@[i].sequence_number) by {
                        let n = changes@[i].sequence_number;
                        if n <= before {
                            assert(sent.contains(n));
                            let k = choose|k: int| 0 <= k < sent.len() && sent[k] == n;
                            assert(out@[k] == n);
                        } else {
                            assert(n == c.sequence_number);
                        }
                    }
                }
            }
            None => { break; }
        }
    }
    out
}
