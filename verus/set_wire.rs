// A set on the wire (used by the units sets and bodies: their contracts meet here)

/// The k-th 32-bit word after the count
pub open spec fn word_at(b: Seq<u8>, k: int, little: bool) -> u32 {
    u32_of(b.subrange(4 + 4 * k, 8 + 4 * k), little)
}
pub open spec fn words_out(w: Seq<u32>, little: bool) -> Seq<u8>
    decreases w.len()
{
    if w.len() == 0 { seq![] } else { words_out(w.drop_last(), little) + put32(w.last(), little) }
}
/// A set on the wire: its bit count, then its words
pub open spec fn set_out(w: Seq<u32>, little: bool) -> Seq<u8> {
    put32((32 * w.len()) as u32, little) + words_out(w, little)
}
pub proof fn words_out_len(w: Seq<u32>, little: bool)
    ensures words_out(w, little).len() == 4 * w.len()
    decreases w.len()
{
    if w.len() > 0 { words_out_len(w.drop_last(), little); }
}
/// How many octets a set at the front of b takes, if it is there
pub open spec fn set_used(b: Seq<u8>, little: bool) -> Option<nat> {
    if b.len() < 4 { None } else {
        let n = (4 + 4 * blocks(u32_of(b.take(4), little) as int)) as nat;
        if b.len() < n { None } else { Some(n) }
    }
}
/// The set is the one at the front of b
pub open spec fn set_is(s: BitSet, b: Seq<u8>, little: bool) -> bool {
    let n = u32_of(b.take(4), little);
    &&& s.good() && s.bit_vec.nbits == n
    &&& forall|i: int| 0 <= i < n ==> #[trigger] marked(s.bit_vec.storage@, i)
        == bit(word_at(b, i / 32, little), i % 32)
}
/// What write_to asks of a set: its bit count fits (2^27 words are 512 MiB)
pub open spec fn set_fits(s: BitSet) -> bool { s.good() && s.bit_vec.storage@.len() < 0x800_0000 }
/// The k-th word stands where reading looks for it
pub proof fn word_stands(w: Seq<u32>, tail: Seq<u8>, little: bool, k: int)
    requires 0 <= k < w.len()
    ensures u32_of((words_out(w, little) + tail).subrange(4 * k, 4 * k + 4), little) == w[k]
    decreases w.len()
{
    let rest = w.drop_last();
    words_out_len(rest, little);
    words_out_len(w, little);
    put32_inverse(w.last(), little);
    if k < rest.len() {
        let moved = put32(w.last(), little) + tail;
        word_stands(rest, moved, little, k);
        assert(words_out(w, little) + tail =~= words_out(rest, little) + moved);
    } else {
        assert((words_out(w, little) + tail).subrange(4 * k, 4 * k + 4) =~= put32(w.last(), little));
    }
}
/// The same members
pub open spec fn same_members(a: BitSet, b: BitSet) -> bool { forall|i: int| #[trigger] a.has(i) <==> b.has(i) }
/// C06: what is written is read back as a set with the same members, followed by the same octets
pub proof fn survives(s: BitSet, tail: Seq<u8>, little: bool)
    requires set_fits(s)
    ensures ({
        let out = set_out(s.bit_vec.storage@, little);
        let b = out + tail;
        &&& set_used(b, little) == Some(out.len()) && b.skip(out.len() as int) =~= tail
        &&& forall|r: BitSet| #[trigger] set_is(r, b, little) ==> same_members(r, s)
        &&& s.bit_vec.nbits <= 256 ==> u32_of(b.take(4), little) <= 256
    })
{
    let v = s.bit_vec;
    let w = v.storage@;
    let b = set_out(w, little) + tail;
    let n = u32_of(b.take(4), little);
    put32_inverse((32 * w.len()) as u32, little);
    words_out_len(w, little);
    assert(b.take(4) =~= put32((32 * w.len()) as u32, little));
    assert forall|i: int| #[trigger] v.has(i) <==> 0 <= i < n && bit(word_at(b, i / 32, little), i % 32) by {
        if 0 <= i < n {
            word_stands(w, tail, little, i / 32);
            assert(b.subrange(4 + 4 * (i / 32), 8 + 4 * (i / 32))
                =~= (words_out(w, little) + tail).subrange(4 * (i / 32), 4 * (i / 32) + 4));
            assert(marked(w, i) == bit(word_at(b, i / 32, little), i % 32));
        }
    }
    assert(b.skip(4 + 4 * blocks(n as int)) =~= tail);
    assert forall|r: BitSet| #[trigger] set_is(r, b, little) implies same_members(r, s) by {
        assert forall|i: int| #[trigger] r.has(i) <==> s.has(i) by {
            assert(v.has(i) <==> 0 <= i < n && bit(word_at(b, i / 32, little), i % 32));
        }
    }
}
