"""What decides each property: the contracts and the back end of each."""

CODEC = "verif::codec::proofs::"
VALUES = "verif::values::proofs::"
SETS = "verif::sets::proofs::"
TOTAL = "verif::totality::proofs::"
KANI = "contracts on the compiled crate, decided for every value by Kani (CBMC)"
VERUS = "contracts on functions extracted from /repo on every run, decided by Verus (Z3)"
BOTH = VERUS + "; " + KANI
KANI_NOTE = ("Loop-free or fixed-size code: Kani discharges every obligation of every contract for all values, "
             "without a bound. Trusted: Kani/CBMC, rustc; the array reader and writer the codecs are run on "
             "stand for speedy's buffers.")
VERUS_NOTE = ("Deductive and unbounded: the functions are extracted mechanically from /repo's source on every run "
              "(the evidence lists each rewriting), Verus discharges every obligation for all inputs, histories and "
              "iterations, and a probe shows each contract's preconditions satisfiable. Assumed: the contracts of "
              "std, speedy, bytes, bit-vec and bit-set listed in the evidence. Where the source takes a form the "
              "extraction does not know, the check says so and searches for failing inputs natively instead. ")

WIRE = "verif::wire::proofs::"

NOT_APPLICABLE = {}


def names(prefix, text):
    return [prefix + n for n in text.split()]


PROPERTIES = {
    "C01": {
        "level": "proof", "technique": KANI, "note": KANI_NOTE, "files": ["codec.rs"],
        "kani": names(CODEC, "c01_guid_prefix c01_entity_id c01_entity_id_constants c01_guid c01_instance_handle "
                             "c01_vendor_id c01_protocol_version c01_protocol_id c01_submessage_kind"),
    },
    "C02": {
        "level": "proof", "technique": KANI, "note": KANI_NOTE, "files": ["codec.rs"],
        "kani": names(CODEC, "c02_sequence_number c02_fragment_number c02_count c02_time c02_duration "
                             "c02_locator_udp_v4 c02_locator c02_locator_kind c02_kinds c02_parameter_id"),
    },
    "C03": {
        "level": "proof", "technique": BOTH,
        "note": VERUS_NOTE + "Bodies of a fixed size: Kani, for every value. Bodies that hold a number set: Verus, "
                "on the code their derives expand to, for sets of any size; besides, Kani on the compiled crate with "
                "sets of no and of one word (bounded).",
        "files": ["codec.rs", "sets.rs"], "verus": ["bodies"],
        "kani": names(CODEC, "c03_heartbeat c03_heartbeat_frag c03_info_source c03_info_destination")
        + names(SETS, "c03_ack_nack c03_ack_nack_empty c03_gap c03_gap_empty c03_nack_frag c03_nack_frag_empty"),
        "bounds": {n: "bounded: a number set of %s" % w for n, w in [
            ("c03_ack_nack", "one word"), ("c03_gap", "one word"), ("c03_nack_frag", "one word"),
            ("c03_ack_nack_empty", "no word"), ("c03_gap_empty", "no word"), ("c03_nack_frag_empty", "no word")]},
    },
    "C04": {
        "level": "proof", "technique": KANI, "note": KANI_NOTE, "files": ["codec.rs"],
        "kani": names(CODEC, "c04_header c04_header_new c04_submessage_header c04_flags"),
    },
    "C05": {
        "level": "proof", "technique": BOTH, "note": VERUS_NOTE + KANI_NOTE, "files": ["codec.rs", "sets.rs", "values.rs"],
        "verus": ["sets"],
        "kani": names(SETS, "c05_new_sn c05_new_fn")
        + names(VALUES, "c12_sequence_number c12_sequence_number_convert c12_fragment_number "
                        "c12_fragment_number_convert"),
        "native": "c05_local_sn c05_local_fn c06_wire_sn c06_wire_fn".split(),
    },
    "C06": {
        "level": "proof", "technique": BOTH, "note": VERUS_NOTE + KANI_NOTE, "files": ["codec.rs", "sets.rs"],
        "verus": ["sets", "bodies"],
        "kani": names(CODEC, "c02_sequence_number c02_fragment_number")
        + names(SETS, "c05_new_sn c05_new_fn c03_ack_nack c03_nack_frag"),
        "bounds": {n: "bounded: a number set of one word" for n in ("c03_ack_nack", "c03_nack_frag")},
        "native": "c06_wire_sn c06_wire_fn c05_local_sn c05_local_fn".split(),
    },
    "C07": {
        "level": "proof", "technique": BOTH,
        "note": "Types of a fixed size: Kani, for every octet string up to that size. Number sets, parameters, "
                "locator lists in submessages: Verus, for every input. " + VERUS_NOTE +
                "The bound on memory reserved is proved for sets and parameters (nothing is reserved from a count "
                "but 64 KiB for a parameter) and for the rest only watched at run time, on many inputs.",
        "files": ["codec.rs", "sets.rs", "totality.rs"],
        "verus": ["sets", "bodies", "parameter", "lists"],
        "kani": names(TOTAL, """c07_guid_prefix c07_entity_id c07_guid c07_instance_handle c07_vendor_id
            c07_protocol_version c07_protocol_id c07_submessage_kind c07_submessage_flag c07_submessage_header
            c07_header c07_sequence_number c07_fragment_number c07_count c07_time c07_duration c07_locator
            c07_locator_kind c07_locator_udp_v4 c07_topic_kind c07_reliability_kind c07_parameter_id c07_heartbeat
            c07_heartbeat_frag c07_info_source c07_info_destination""") + names(CODEC, "c18_sizes"),
        "native": "c07_any c06_wire_sn c06_wire_fn".split(), "seconds": 20,
    },
    "C08": {
        "level": "proof", "technique": BOTH, "note": VERUS_NOTE, "files": ["codec.rs", "parameter.rs"],
        "verus": ["parameter"], "kani": names(CODEC, "c02_parameter_id"), "native": ["c08_write", "c08_read"],
    },
    "C09": {
        "level": "proof", "technique": BOTH, "note": VERUS_NOTE + KANI_NOTE, "files": ["codec.rs", "values.rs"],
        "verus": ["time"],
        "kani": names(VALUES, "c09_clock c09_from_clock_seconds c09_from_clock_outside c09_to_clock c09_constants"),
        "native": "c09_clock c09_from_clock c09_from_clock_outside c09_to_clock c09_constants c09_there_and_back".split(),
    },
    "C10": {
        "level": "proof", "technique": KANI, "note": KANI_NOTE, "files": ["codec.rs", "values.rs"],
        "kani": names(VALUES, "c10_from_duration c10_to_duration c10_there_and_back c10_constants"),
    },
    "C11": {
        "level": "proof", "technique": KANI, "note": KANI_NOTE, "files": ["codec.rs", "values.rs"],
        "kani": names(VALUES, "c11_ipv4 c11_ipv6 c11_from_locator c11_udp_v4 c11_constants"),
    },
    "C12": {
        "level": "proof", "technique": KANI, "note": KANI_NOTE, "files": ["codec.rs", "values.rs"],
        "kani": names(VALUES, "c12_sequence_number c12_sequence_number_convert c12_sequence_number_mul "
                              "c12_sequence_number_div c12_fragment_number c12_fragment_number_convert "
                              "c12_fragment_number_mul c12_fragment_number_div c12_order c12_guid_identity "
                              "c12_handle_identity c12_locator_identity"),
    },
    "C13": {
        "level": "proof", "technique": VERUS, "note": VERUS_NOTE, "files": ["changes.rs", "codec.rs", "history_cache.rs"],
        "verus": ["history_cache", "iterators"], "native": ["c13_history"],
    },
    "C14": {
        "level": "proof", "technique": BOTH, "note": VERUS_NOTE, "files": ["changes.rs", "codec.rs", "behavior.rs", "values.rs"],
        "verus": ["reader_proxy", "iterators"], "kani": names(VALUES, "c12_order"), "native": ["c14_history"],
    },
    "C15": {
        "level": "proof", "technique": BOTH, "note": VERUS_NOTE,
        "files": ["changes.rs", "codec.rs", "values.rs", "stateless_writer.rs", "stateful_writer.rs", "reader_locator.rs"],
        "verus": ["writers", "iterators"], "kani": names(VALUES, "c12_guid_identity c12_locator_identity"),
        "native": ["c15_stateless", "c15_stateful", "c15_locator_identity"],
    },
    "C16": {
        "level": "proof", "technique": BOTH, "note": VERUS_NOTE + KANI_NOTE,
        "files": ["codec.rs", "sets.rs", "receiver.rs"], "verus": ["receiver", "lists"],
        "kani": names(CODEC, "c04_flags c04_header c04_submessage_header c18_sizes c01_submessage_kind c03_heartbeat "
                             "c03_heartbeat_frag")
        + names(SETS, "c03_ack_nack c03_gap c03_nack_frag"),
        "bounds": {n: "bounded: a number set of one word" for n in ("c03_ack_nack", "c03_gap", "c03_nack_frag")},
        "native": ["c16_message", "c18_pieces"], "seconds": 12,
    },
    "C17": {
        "level": "proof", "technique": BOTH, "note": VERUS_NOTE + KANI_NOTE,
        "files": ["codec.rs", "values.rs", "receiver.rs"], "verus": ["receiver", "lists"],
        "kani": names(CODEC, "c04_flags c04_header c04_submessage_header c18_sizes c01_submessage_kind c03_info_source "
                             "c03_info_destination c02_locator c02_locator_udp_v4 c02_time")
        + names(VALUES, "c11_udp_v4"),
        "native": ["c17_from_any_state", "c16_message"], "seconds": 12,
    },
    "C18": {
        "level": "proof", "technique": BOTH, "note": VERUS_NOTE + KANI_NOTE,
        "files": ["codec.rs", "receiver.rs"], "verus": ["receiver", "lists"],
        "kani": names(CODEC, "c04_flags c04_header c04_submessage_header c18_sizes"),
        "native": ["c18_pieces", "c16_message"], "seconds": 12,
    },
    "C19": {
        "level": "proof", "technique": BOTH, "note": VERUS_NOTE + KANI_NOTE +
        "DATA and DATA_FRAG are a known finding: decoding them is not implemented and panics.",
        "files": ["codec.rs", "receiver.rs"], "verus": ["receiver", "sets", "lists"],
        "kani": names(CODEC, "c04_flags c04_submessage_header c18_sizes"),
        "native": ["c19_bytes", "c16_message"], "seconds": 12,
    },
}

# the properties whose contracts read or write: what they take the buffers of speedy and bytes to be
RECEIVING = "C16 C17 C18 C19".split()
for pid in "C01 C02 C03 C04 C05 C06 C07 C08 C16 C17 C18 C19".split():
    p = PROPERTIES[pid]
    contracts = "wire_reader wire_reader_owned wire_writer wire_writer_room".split()
    if pid in RECEIVING:
        contracts.append("wire_bytes")
    p["files"] = p["files"] + ["wire.rs"]
    p["kani_thorough"] = p.get("kani_thorough", []) + names(WIRE, " ".join(contracts))
    p["native_also"] = contracts
    p["bounds"] = dict(p.get("bounds", {}), wire_writer="bounded: behind up to 4096 octets (speedy's code)",
                       wire_writer_room="bounded: behind up to 4096 octets (speedy's code)",
                       wire_bytes="bounded: up to 4096 octets (the code of bytes)")

# what the units about changes, proxies and writers take Vec and the iterators over it to be
LIBRARY = "std_find std_filter std_least std_retain".split()
for pid in ("C13", "C14", "C15"):
    p = PROPERTIES[pid]
    p["files"] = p["files"] + ["library.rs"]
    p["kani_thorough"] = p.get("kani_thorough", []) + names("verif::library::proofs::", " ".join(LIBRARY))
    p["native_also"] = LIBRARY
    p["bounds"] = dict(p.get("bounds", {}), **{n: "bounded: up to three items (std's code)" for n in LIBRARY})
