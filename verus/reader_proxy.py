import extract
UNIT = {
    "trusted": [
        "std: Vec::{push,retain,contains} (bounded check: std_retain); slice iterators' adapters by the contracts of verus/std_model.rs, which unit iterators proves of std's source",
        "SequenceNumber_t modelled as its 64-bit value (its order and arithmetic: Kani, C12)",
    ],
    "prelude": "reader_proxy.rs",
    "uses": "use core::cmp::Ordering;\n",
    "types": [
        {"file": "src/structure/cache_change.rs", "name": "CacheChange"},
        {"file": "src/behavior/reader_proxy.rs", "name": "ReaderProxy"},
    ],
    "impls": [{
        "file": "src/behavior/reader_proxy.rs", "head": "implReaderProxy", "functions": {
            "new": {"contract": "ensures r.remote_reader_guid == remote_reader_guid, r.expects_inline_qos == "
                                "expects_inline_qos, r.is_active, r.highest_seq_num_sent == i64::MIN,",
                    "replace": [("SequenceNumber_t::from", "", "SequenceNumber_t is i64 here"),
                                ("std::i64::MIN", "i64::MIN", "one constant of two names")]},
            "unsent_changes": {
                "contract": "ensures r.rest() == refs__(changes@).filter("
                            "|c: &CacheChange| c.sequence_number > self.highest_seq_num_sent),",
                "sig": [("impl Iterator<Item = &'a CacheChange>", "It__<&'a CacheChange>",
                         "the iterator returned is the model's")]},
            "next_unsent_change": {
                "contract": """ensures
    final(self).remote_reader_guid == old(self).remote_reader_guid,
    final(self).expects_inline_qos == old(self).expects_inline_qos,
    final(self).is_active == old(self).is_active,
    match r {
        Some(c) => smallest_above(changes@, old(self).highest_seq_num_sent, *c)
            && final(self).highest_seq_num_sent == c.sequence_number,
        None => none_above(changes@, old(self).highest_seq_num_sent)
            && final(self).highest_seq_num_sent == old(self).highest_seq_num_sent,
    },""",
                "ghost": "proof { filtered_refs(changes@, self.highest_seq_num_sent); }\n",
                "closures": [("and_then", extract.OPTION_AND_THEN), ("map", extract.OPTION_MAP)]},
        }}],
    "combinators": {"find": "bool", "filter": "bool", "retain": "bool", "min_by": "Ordering", "max_by": "Ordering"},
    "renames": {"iter": "iter__", "cmp": "cmp__"},
}
