"""The functions each Kani contract calls and states postconditions of."""


def codec(*types):
    return [f for t in types for f in ("%s::read_from" % t, "%s::write_to" % t)]


def reading(t):
    return ["%s::read_from" % t]


CODECS = {
    "c01_guid_prefix": "GuidPrefix_t", "c01_entity_id": "EntityId_t", "c01_guid": "GUID_t",
    "c01_instance_handle": "InstanceHandle_t", "c01_vendor_id": "VendorId_t",
    "c01_protocol_version": "ProtocolVersion_t", "c01_protocol_id": "ProtocolId_t",
    "c01_submessage_kind": "SubmessageKind", "c02_sequence_number": "SequenceNumber_t",
    "c02_fragment_number": "FragmentNumber_t", "c02_count": "Count_t", "c02_time": "Time_t",
    "c02_duration": "Duration_t", "c02_locator_udp_v4": "LocatorUDPv4_t", "c02_locator": "Locator_t",
    "c02_locator_kind": "LocatorKind_t", "c02_parameter_id": "ParameterId", "c03_heartbeat": "Heartbeat",
    "c03_heartbeat_frag": "HeartbeatFrag", "c03_info_source": "InfoSource",
    "c03_info_destination": "InfoDestination", "c03_ack_nack": "AckNack", "c03_gap": "Gap",
    "c03_nack_frag": "NackFrag", "c03_ack_nack_empty": "AckNack", "c03_gap_empty": "Gap",
    "c03_nack_frag_empty": "NackFrag", "c04_header": "Header", "c04_submessage_header": "SubmessageHeader",
}
READ = {
    "c07_guid_prefix": "GuidPrefix_t", "c07_entity_id": "EntityId_t", "c07_guid": "GUID_t",
    "c07_instance_handle": "InstanceHandle_t", "c07_vendor_id": "VendorId_t",
    "c07_protocol_version": "ProtocolVersion_t", "c07_protocol_id": "ProtocolId_t",
    "c07_submessage_kind": "SubmessageKind", "c07_submessage_flag": "SubmessageFlag",
    "c07_submessage_header": "SubmessageHeader", "c07_header": "Header", "c07_sequence_number": "SequenceNumber_t",
    "c07_fragment_number": "FragmentNumber_t", "c07_count": "Count_t", "c07_time": "Time_t",
    "c07_duration": "Duration_t", "c07_locator": "Locator_t", "c07_locator_kind": "LocatorKind_t",
    "c07_locator_udp_v4": "LocatorUDPv4_t", "c07_topic_kind": "TopicKind_t",
    "c07_reliability_kind": "ReliabilityKind_t", "c07_parameter_id": "ParameterId", "c07_heartbeat": "Heartbeat",
    "c07_heartbeat_frag": "HeartbeatFrag", "c07_info_source": "InfoSource", "c07_info_destination": "InfoDestination",
}
OTHER = {
    "c01_entity_id_constants": ["EntityId_t's constants"],
    "c02_kinds": codec("TopicKind_t", "ReliabilityKind_t"),
    "c04_header_new": ["Header::new", "Header::valid"],
    "c04_flags": codec("SubmessageFlag") + ["SubmessageFlag::set_flag", "SubmessageFlag::clear_flag",
                                            "SubmessageFlag::is_flag_set", "SubmessageFlag::endianness_flag"],
    "c04_header": codec("Header") + ["Header::valid"],
    "c18_sizes": ["Header::minimum_bytes_needed", "SubmessageHeader::minimum_bytes_needed"],
    "c05_new_sn": ["RangedBitSet<SequenceNumber_t>::new"], "c05_new_fn": ["RangedBitSet<FragmentNumber_t>::new"],
    "c09_clock": ["SystemTime::duration_since, SystemTime::checked_add (std, as assumed)"],
    "c09_from_clock_seconds": ["Time_t::from(SystemTime)"], "c09_from_clock_outside": ["Time_t::from(SystemTime)"],
    "c09_to_clock": ["SystemTime::try_from(Time_t)"], "c09_constants": ["Time_t's constants"],
    "c10_from_duration": ["Duration_t::from(Duration)"], "c10_to_duration": ["Duration::from(Duration_t)"],
    "c10_there_and_back": ["Duration_t::from(Duration)", "Duration::from(Duration_t)"],
    "c10_constants": ["Duration_t's constants"],
    "c11_ipv4": ["Locator_t::from(SocketAddr)"], "c11_ipv6": ["Locator_t::from(SocketAddr)"],
    "c11_from_locator": ["SocketAddr::from(Locator_t)"], "c11_udp_v4": ["Locator_t::from(LocatorUDPv4_t)"],
    "c11_constants": ["Locator_t's and LocatorUDPv4_t's constants"],
    "c12_sequence_number": ["SequenceNumber_t: From, Add, Sub, CheckedAdd, CheckedSub, Ord, PartialEq, Default"],
    "c12_sequence_number_convert": ["SequenceNumber_t: FromPrimitive, ToPrimitive"],
    "c12_sequence_number_mul": ["SequenceNumber_t: CheckedMul"],
    "c12_sequence_number_div": ["SequenceNumber_t: CheckedDiv"],
    "c12_fragment_number": ["FragmentNumber_t: From, Add, Sub, CheckedAdd, CheckedSub, Ord, PartialEq, Default"],
    "c12_fragment_number_convert": ["FragmentNumber_t: FromPrimitive, ToPrimitive"],
    "c12_fragment_number_mul": ["FragmentNumber_t: CheckedMul"],
    "c12_fragment_number_div": ["FragmentNumber_t: CheckedDiv"],
    "c12_order": ["Ord and PartialEq of Count_t, Time_t, Duration_t"],
    "c12_guid_identity": ["PartialEq of GUID_t, GuidPrefix_t, EntityId_t", "Ord of GUID_t"],
    "c12_handle_identity": ["PartialEq and Ord of InstanceHandle_t"],
    "c12_locator_identity": ["PartialEq of Locator_t"],
    "wire_reader": ["speedy's BufferReader and Reader"], "wire_reader_owned": ["speedy's CopyingBufferReader and Reader"],
    "wire_writer": ["speedy's write_to_vec and Writer"], "wire_writer_room": ["speedy's write_to_buffer and Writer"],
    "std_find": ["std: slice::Iter::{find, next}"], "std_filter": ["std: Iterator::filter, Filter::next"],
    "std_least": ["std: Iterator::{map, min_by, max_by}"], "std_retain": ["std: Vec::retain"],
    "wire_bytes": ["bytes::BytesMut::{from, len, split_to, split_off, advance} and its slices"],
}


def under_contract(contract):
    if contract in OTHER:
        return OTHER[contract]
    if contract in CODECS:
        return codec(CODECS[contract])
    if contract in READ:
        return reading(READ[contract])
    return []
