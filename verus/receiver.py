import extract
MSG, STR = "src/messages/", "src/structure/"
EQ = "#[derive(PartialEq, Eq, Structural)]\n"
EQC = "#[derive(PartialEq, Eq, Structural, Clone, Copy)]\n"
BYTES = "old(bytes)@"


def did(header, length):
    """the closure's contract: what a submessage with that header, of that length, does"""
    return ["final(self).locator_kind == old(self).locator_kind", "final(self).state == old(self).state",
            "final(bytes)@ == old(bytes)@.skip(%s as int)" % length, """({
    let e = effect(%s.submessage_id.value, %s.flags.flags, old(bytes)@.take(%s as int), view_of(old(self).receiver));
    &&& agrees(e.0, r)
    &&& r is Ok ==> same(view_of(final(self).receiver), e.1)
})""" % (header, header, length)]


UNIT = {
    "trusted": [
        "bytes::BytesMut (len, split_to, split_off, advance, slicing): assumed contracts (bounded check: wire_bytes)",
        "speedy's read_from_buffer family: the value the type's layout gives, or an error (the layouts are decided by Kani, C01-C04, C11)",
        "speedy's counted lists of locators: the contract the unit lists discharges",
        "std::io::Error::new, the text of errors, log::info!",
    ],
    "prelude": "receiver.rs",
    "timeout": 300,
    "types": [
        {"file": MSG + "protocol_id.rs", "name": "ProtocolId_t", "derive": EQ},
        {"file": MSG + "protocol_version.rs", "name": "ProtocolVersion_t", "derive": EQC},
        {"file": MSG + "vendor_id.rs", "name": "VendorId_t", "derive": EQC},
        {"file": STR + "guid_prefix.rs", "name": "GuidPrefix_t", "derive": EQC},
        {"file": STR + "locator_kind.rs", "name": "LocatorKind_t", "derive": EQC},
        {"file": STR + "locator.rs", "name": "Locator_t", "derive": EQ},
        {"file": STR + "time.rs", "name": "Time_t", "derive": EQC},
        {"file": MSG + "submessage_kind.rs", "name": "SubmessageKind", "derive": EQ},
        {"file": MSG + "submessage_flag.rs", "name": "SubmessageFlag", "derive": EQ},
        {"file": MSG + "submessage_header.rs", "name": "SubmessageHeader"},
        {"file": MSG + "header.rs", "name": "Header"},
        {"file": MSG + "info_source.rs", "name": "InfoSource"},
        {"file": MSG + "info_destination.rs", "name": "InfoDestination"},
        {"file": MSG + "submessage.rs", "name": "EntitySubmessage"},
        {"file": MSG + "receiver.rs", "name": "Receiver"},
        {"file": MSG + "receiver.rs", "name": "DeserializationState"},
        {"file": MSG + "receiver.rs", "name": "MessageReceiver"},
    ],
    "impls": [
        {"file": MSG + "protocol_version.rs", "head": "implProtocolVersion_t", "functions": {}, "only": True},
        {"file": MSG + "protocol_id.rs", "head": "implProtocolId_t", "functions": {}, "only": True},
        {"file": MSG + "submessage_flag.rs", "head": "implSubmessageFlag", "label": "SubmessageFlag::", "functions": {
            "endianness_flag": {"contract": "ensures little(r) == (self.flags & 1 != 0),",
                                "sig": [("speedy::Endianness", "Endianness", "path shortened")]},
            "is_flag_set": {"contract": "ensures r == (self.flags & mask != 0),"},
            "set_flag": {"contract": "ensures final(self).flags == old(self).flags | mask,"},
            "clear_flag": {"contract": "ensures final(self).flags == old(self).flags & !mask,"}}},
        {"file": MSG + "header.rs", "head": "implValidityforHeader", "as": "impl Header", "label": "Header::",
         "functions": {"valid": {
             "contract": "ensures r == (self.protocol_id.protocol_id == ['R', 'T', 'P', 'S'] "
                         "&& self.protocol_version.major <= 2),"}}},
        {"file": MSG + "vendor_id.rs", "head": "implVendorId_t", "functions": {}, "only": True},
        {"file": STR + "guid_prefix.rs", "head": "implGuidPrefix_t", "functions": {}, "only": True},
        {"file": STR + "locator.rs", "head": "implLocator_t", "functions": {}, "only": True},
        {"file": STR + "time.rs", "head": "implTime_t", "functions": {}, "only": True},
        {"file": MSG + "submessage_kind.rs", "head": "implSubmessageKind", "functions": {}, "only": True},
        {"file": MSG + "receiver.rs", "head": "implReceiver", "label": "Receiver::", "functions": {
            "new": {"contract": "ensures same(view_of(r), fresh(locator_kind)),"}}},
        {"file": MSG + "receiver.rs", "head": "implMessageReceiver", "label": "MessageReceiver::", "functions": {
            "new": {"contract": "ensures r.locator_kind == locator_kind, same(view_of(r.receiver), fresh(locator_kind)), "
                                "r.state is ReadingHeader,"}}},
        {"file": MSG + "receiver.rs", "head": "implDecoderforMessageReceiver", "as": "impl MessageReceiver",
         "label": "MessageReceiver::", "functions": {
             "decode": {
                 "sig": [("Option<Self::Item>", "Option<EntitySubmessage>", "associated type written out"),
                         ("Self::Error", "Error", "associated type written out")],
                 "ghost": "reveal(version);",
                 "contract": """ensures
    final(self).locator_kind == old(self).locator_kind,
    stepped(*old(self), old(bytes)@, *final(self), final(bytes)@, r),""",
                 "hooks": [extract.slices, extract.small_vecs, extract.drop_macro("info"),
                           extract.without_arguments("speedy::Error::custom"),
                           extract.without_arguments("Error::new")],
                 "forms": {"and_then": extract.RESULT_AND_THEN, "or_else": extract.RESULT_OR_ELSE,
                           "map": extract.RESULT_MAP, "map_err": extract.RESULT_MAP_ERR},
                 "replace": [("unimplemented!();", "return known_gap__(submessage_header.submessage_id);",
                              "the known finding of C19: allowed for DATA and DATA_FRAG only")],
                 "lifted": [{
                     "name": "submessage",
                     "signature": "fn submessage__(&mut self, bytes: &mut BytesMut, arg__: (SubmessageHeader, usize)) "
                                  "-> (r: Result<Option<EntitySubmessage>, speedy::Error>)",
                     "call": "self.submessage__(bytes, arg__)",
                     "ghost": "reveal(effect);",
                     "contract": "requires arg__.1 <= old(bytes)@.len(),\nensures\n" +
                                 ",\n".join(did("arg__.0", "arg__.1")) + ",",
                     "arms": {"types": ["SubmessageHeader", "usize"],
                              "signature": "fn %s(&mut self, bytes: &mut BytesMut, %s) "
                                           "-> (r: Result<Option<EntitySubmessage>, speedy::Error>)",
                              "call": "self.%s(bytes, %s)",
                              "requires": ["%.0s%s <= old(bytes)@.len()"],
                              "ensures": did("HEADER", "LENGTH")},
                     "replace": [("GuidPrefix_t::GUIDPREFIX_UNKNOWN", "no_prefix__()",
                                  "a constant through a function that returns it"),
                                 ("Locator_t::LOCATOR_INVALID", "no_locator__()",
                                  "a constant through a function that returns it")],
                 }],
             }}},
    ],
}
