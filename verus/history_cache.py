UNIT = {
    "trusted": [
        "std: Vec::{push,retain} (verus/std_model.rs; bounded check: std_retain); find, filter, map, min_by, max_by over a slice by the contracts of verus/std_model.rs, which unit iterators proves of std's source",
    ],
    "prelude": "history_cache.rs",
    "uses": "use core::cmp::Ordering;\n",
    "types": [
        {"file": "src/structure/cache_change.rs", "name": "CacheChange"},
        {"file": "src/structure/history_cache.rs", "name": "HistoryCache"},
    ],
    "impls": [{
        "file": "src/structure/history_cache.rs", "head": "implHistoryCache", "functions": {
            "new": {"contract": "ensures r.changes@.len() == 0,"},
            "add_change": {"contract": "ensures final(self).changes@ == old(self).changes@.push(change),"},
            "get_change": {"contract": """ensures match r {
    Some(c) => exists|i: int| first_with(self.changes@, sequence_number, i) && self.changes@[i] == *c,
    None => absent(self.changes@, sequence_number),
},"""},
            "remove_change": {"contract":
                "ensures final(self).changes@ == old(self).changes@.filter(|c: CacheChange| "
                "c.sequence_number != sequence_number),"},
            "get_seq_num_min": {"contract": """ensures match r {
    Some(m) => held(self.changes@, *m) && forall|i: int| 0 <= i < self.changes@.len()
        ==> (#[trigger] self.changes@[i]).sequence_number >= *m,
    None => self.changes@.len() == 0,
},""", "combinators": {"map": "&SequenceNumber_t"}},
            "get_seq_num_max": {"contract": """ensures match r {
    Some(m) => held(self.changes@, *m) && forall|i: int| 0 <= i < self.changes@.len()
        ==> (#[trigger] self.changes@[i]).sequence_number <= *m,
    None => self.changes@.len() == 0,
},""", "combinators": {"map": "&SequenceNumber_t"}},
        }}],
    "combinators": {"find": "bool", "filter": "bool", "retain": "bool", "min_by": "Ordering", "max_by": "Ordering"},
    "renames": {"iter": "iter__", "cmp": "cmp__"},
}
