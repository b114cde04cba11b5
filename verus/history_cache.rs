//@ include ids.rs
//@ extracted
pub open spec fn held(s: Seq<CacheChange>, n: i64) -> bool {
    exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).sequence_number == n
}
pub open spec fn absent(s: Seq<CacheChange>, n: i64) -> bool {
    forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).sequence_number != n
}
pub open spec fn first_with(s: Seq<CacheChange>, n: i64, i: int) -> bool {
    0 <= i < s.len() && s[i].sequence_number == n && absent(s.take(i), n)
}

/// What the operations leave behind, whatever was done before
pub enum Step { Add(CacheChange), Remove(i64) }

pub open spec fn without(s: Seq<CacheChange>, n: i64) -> Seq<CacheChange> {
    s.filter(|c: CacheChange| c.sequence_number != n)
}
pub open spec fn after(steps: Seq<Step>) -> Seq<CacheChange>
    decreases steps.len()
{
    if steps.len() == 0 { seq![] } else {
        match steps.last() {
            Step::Add(c) => after(steps.drop_last()).push(c),
            Step::Remove(n) => without(after(steps.drop_last()), n),
        }
    }
}
/// Added at `i` and not removed since
pub open spec fn added_and_kept(steps: Seq<Step>, i: int, c: CacheChange) -> bool {
    0 <= i < steps.len() && steps[i] == Step::Add(c)
        && forall|j: int| i < j < steps.len() ==> #[trigger] steps[j] != Step::Remove(c.sequence_number)
}
pub proof fn filtered(s: Seq<CacheChange>, n: i64)
    ensures forall|c: CacheChange| #[trigger] without(s, n).contains(c) <==> s.contains(c) && c.sequence_number != n
{
    let p = |c: CacheChange| c.sequence_number != n;
    filter_members__(s, p);
}
/// The cache holds exactly the changes that were added and not removed since
pub proof fn faithful(steps: Seq<Step>)
    ensures forall|c: CacheChange| #[trigger] after(steps).contains(c) <==>
        exists|i: int| added_and_kept(steps, i, c)
    decreases steps.len()
{
    if steps.len() > 0 {
        let before = steps.drop_last();
        faithful(before);
        assert forall|c: CacheChange| #[trigger] after(steps).contains(c) <==>
            exists|i: int| added_and_kept(steps, i, c) by
        {
            assert(steps == before.push(steps.last()));
            match steps.last() {
                Step::Add(d) => {
                    assert(after(steps) == after(before).push(d));
                    if after(steps).contains(c) {
                        let k = choose|k: int| 0 <= k < after(steps).len() && after(steps)[k] == c;
                        if k < after(before).len() {
                            assert(after(before)[k] == c);
                            assert(after(before).contains(c));
                            let i = choose|i: int| added_and_kept(before, i, c);
                            assert(added_and_kept(steps, i, c)) by {
                                assert forall|j: int| i < j < steps.len() implies
                                    #[trigger] steps[j] != Step::Remove(c.sequence_number) by {
                                    if j < before.len() { assert(before[j] == steps[j]); }
                                }
                            }
                        } else {
                            assert(added_and_kept(steps, steps.len() - 1, c));
                        }
                    }
                    if exists|i: int| added_and_kept(steps, i, c) {
                        let i = choose|i: int| added_and_kept(steps, i, c);
                        if i < before.len() {
                            assert(added_and_kept(before, i, c));
                            let k = choose|k: int| 0 <= k < after(before).len() && after(before)[k] == c;
                            assert(after(steps) == after(before).push(d));
                            assert(after(before).contains(c));
                            assert(after(steps)[k] == c);
                        } else {
                            assert(after(steps)[after(before).len() as int] == c);
                        }
                    }
                }
                Step::Remove(n) => {
                    filtered(after(before), n);
                    if after(steps).contains(c) {
                        assert(without(after(before), n).contains(c));
                        assert(after(before).contains(c));
                        let i = choose|i: int| added_and_kept(before, i, c);
                        assert(added_and_kept(steps, i, c)) by {
                            assert forall|j: int| i < j < steps.len() implies
                                #[trigger] steps[j] != Step::Remove(c.sequence_number) by {
                                if j < before.len() { assert(before[j] == steps[j]); }
                            }
                        }
                    }
                    if exists|i: int| added_and_kept(steps, i, c) {
                        let i = choose|i: int| added_and_kept(steps, i, c);
                        assert(added_and_kept(before, i, c));
                        assert(steps[steps.len() - 1] != Step::Remove(c.sequence_number));
                        assert(after(before).contains(c));
                        assert(without(after(before), n).contains(c));
                    }
                }
            }
        }
    }
}
