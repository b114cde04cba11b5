SAME = """final(self).entity_attributes == old(self).entity_attributes,
    final(self).endpoint_attributes == old(self).endpoint_attributes,
    final(self).resend_data_period == old(self).resend_data_period,"""
SAME_W = "\n    final(self).writer_attributes == old(self).writer_attributes,"
SAME_F = """final(self).entity == old(self).entity, final(self).endpoint == old(self).endpoint,
    final(self).writer == old(self).writer,"""
LESS = "src/behavior/stateless_writer.rs"
FULL = "src/behavior/stateful_writer.rs"
UNIT = {
    "trusted": [
        "std: Vec (bounded check: std_retain); slice iterators' adapters by the contracts of verus/std_model.rs, which unit iterators proves of std's source",
        "SequenceNumber_t, GUIDs and locators modelled by their equality (decided by Kani, C12)",
    ],
    "prelude": "writers.rs",
    "uses": "use core::cmp::Ordering;\n",
    "types": [
        {"file": "src/structure/cache_change.rs", "name": "CacheChange"},
        {"file": "src/structure/entity.rs", "name": "EntityAttributes"},
        {"file": "src/behavior/writer.rs", "name": "WriterAttributes"},
        {"file": LESS, "name": "StatelessWriter"},
        {"file": FULL, "name": "StatefulWriter"},
    ],
    "impls": [
        {"file": LESS, "head": "implWriterforStatelessWriter", "as": "impl StatelessWriter", "label": "Stateless::",
         "functions": {
             "as_writer": {"contract": "ensures *r == self.writer_attributes,"},
             "new_change": {
                 "contract": """requires old(self).writer_attributes.last_change_sequence_number < i64::MAX,
ensures
    r.sequence_number == old(self).writer_attributes.last_change_sequence_number + 1,
    r.kind == kind, r.data_value == data, r.instance_handle == handle,
    r.writer_guid == old(self).entity_attributes.guid,
    final(self).writer_attributes.last_change_sequence_number == r.sequence_number,
    final(self).writer_attributes.push_mode == old(self).writer_attributes.push_mode,
    final(self).writer_attributes.heartbeat_period == old(self).writer_attributes.heartbeat_period,
    final(self).writer_attributes.nack_response_delay == old(self).writer_attributes.nack_response_delay,
    final(self).writer_attributes.nack_suppression_duration == old(self).writer_attributes.nack_suppression_duration,
    final(self).reader_locators == old(self).reader_locators,
    """ + SAME, "replace": [("SequenceNumber_t::from", "", "SequenceNumber_t is i64 here")]},
         }},
        {"file": LESS, "head": "implEntityforStatelessWriter", "as": "impl StatelessWriter", "label": "Stateless::",
         "functions": {"as_entity": {"contract": "ensures *r == self.entity_attributes,"}}},
        {"file": LESS, "head": "implEndpointforStatelessWriter", "as": "impl StatelessWriter", "label": "Stateless::",
         "functions": {"as_endpoint": {"contract": "ensures *r == self.endpoint_attributes,"}}},
        {"file": LESS, "head": "implStatelessWriter", "label": "Stateless::", "skip": ["unsent_changes_reset"],
         "functions": {
             "new": {"contract": """ensures r.entity_attributes == entity_attributes,
    r.endpoint_attributes == endpoint_attributes, r.writer_attributes == writer_attributes,
    r.resend_data_period == resend_data_period, r.reader_locators@.len() == 0,"""},
             "reader_locator_add": {"contract": "ensures final(self).reader_locators@ == "
                                                "old(self).reader_locators@.push(a_locator),\n    " + SAME + SAME_W},
             "reader_locator_remove": {
                 "contract": "ensures final(self).reader_locators@ == old(self).reader_locators@.filter("
                             "|l: ReaderLocator| l != a_locator),\n    " + SAME + SAME_W},
         }},
        {"file": FULL, "head": "implWriterforStatefulWriter", "as": "impl StatefulWriter", "label": "Stateful::",
         "skip": ["new_change"],
         "functions": {"as_writer": {"contract": "ensures *r == self.writer,"}}},
        {"file": FULL, "head": "implEntityforStatefulWriter", "as": "impl StatefulWriter", "label": "Stateful::",
         "functions": {"as_entity": {"contract": "ensures *r == self.entity,"}}},
        {"file": FULL, "head": "implEndpointforStatefulWriter", "as": "impl StatefulWriter", "label": "Stateful::",
         "functions": {"as_endpoint": {"contract": "ensures *r == self.endpoint,"}}},
        {"file": FULL, "head": "implStatefulWriter", "label": "Stateful::",
         "skip": ["new", "matched_reader_remove", "is_acked_by_all"],
         "functions": {
             "matched_reader_add": {"contract": "ensures final(self).matched_readers@ == "
                                                "old(self).matched_readers@.push(a_reader_proxy),\n    " + SAME_F},
             "matched_reader_lookup": {
                 "sig": [("impl Iterator<Item = &ReaderProxy>", "It__<&ReaderProxy>",
                          "the iterator returned is the model's")],
                 "contract": "ensures r.rest() == refs__(self.matched_readers@).filter("
                             "|p: &ReaderProxy| p.remote_reader_guid == a_reader_guid),"},
         }},
    ],
    "combinators": {"find": "bool", "filter": "bool", "retain": "bool"},
    "renames": {"iter": "iter__", "cmp": "cmp__"},
}
