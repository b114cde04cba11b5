X = "@expanded"
READ = [("fn read_from<R_: speedy::Reader<'a_, C_>>", "fn read_from<'a_, C_: Context, R_: Reader<'a_, C_>>",
         "the parameters of the impl moved to the function")]
LEAST = [("as speedy::Readable<'a_, C_>", "as Readable__", "the trait is the model's")]
WRITE = [("fn write_to<T_: ?Sized + speedy::Writer<C_>>", "fn write_to<C_: Context, T_: Writer<C_>>",
          "the parameters of the impl moved to the function")]
READS = """ensures
    final(_reader_).little() == old(_reader_).little(),
    match r {
        Ok(v) => match <Self as Readable__>::used__(old(_reader_).rest(), old(_reader_).little()) {
            Some(n) => n <= old(_reader_).rest().len() && v.is__(old(_reader_).rest(), old(_reader_).little())
                && final(_reader_).rest() == old(_reader_).rest().skip(n as int),
            None => false,
        },
        Err(_) => <Self as Readable__>::used__(old(_reader_).rest(), old(_reader_).little()) is None,
    },"""
WRITES = """requires self.fits__(),
ensures
    final(_writer_).little() == old(_writer_).little(),
    match r {
        Ok(_) => final(_writer_).out() =~= old(_writer_).out() + self.put__(old(_writer_).little())
            && old(_writer_).room() == final(_writer_).room() + self.put__(old(_writer_).little()).len(),
        Err(_) => old(_writer_).room() < self.put__(old(_writer_).little()).len(),
    },"""


def body(name, generic_read="", generic_write="", where_read="", where_write="", least_requires=""):
    plain = name.split("<")[0]
    return [
        {"file": X, "head": r"impl<'a_,(B,)?C_:speedy::Context>speedy::Readable<'a_,C_>for" + name + where_read,
         "as": "impl%s %s" % (generic_read, name), "label": plain + "::", "functions": {
             "read_from": {"sig": READ, "contract": READS, "ghost": "broadcast use skips;\n"},
             "minimum_bytes_needed": {"replace": LEAST, "contract":
                                      least_requires + "ensures r == <Self as Readable__>::least__(),"}}},
        {"file": X, "head": r"impl<(B,)?C_:speedy::Context>speedy::Writable<C_>for" + name + where_write,
         "as": "impl%s %s" % (generic_write, name), "label": plain + "::", "functions": {
             "write_to": {"sig": WRITE, "contract": WRITES}}},
    ]


UNIT = {
    "expanded": True,
    "trusted": [
        "speedy's Reader and Writer (verus/wire.rs; on speedy's code: Kani, wire_reader, wire_writer)",
        "speedy's and rustc's derive: expanded by rustc (nightly) from /repo on every run, and what that says is verified",
        "the parts of fixed size are their octets (decided by Kani: C01, C02)",
        "BitSetRef::{read_from, write_to}: the contracts the unit sets discharges",
    ],
    "prelude": "bodies.rs",
    "types": [
        {"file": "src/common/bit_set.rs", "name": "BitSetRef"},
        {"file": "src/common/ranged_bit_set.rs", "name": "RangedBitSet"},
        {"file": "src/messages/ack_nack.rs", "name": "AckNack"},
        {"file": "src/messages/gap.rs", "name": "Gap"},
        {"file": "src/messages/nack_frag.rs", "name": "NackFrag"},
    ],
    "aliases": [
        {"file": "src/structure/sequence_number_set.rs", "name": "SequenceNumberSet_t"},
        {"file": "src/messages/fragment_number_set.rs", "name": "FragmentNumberSet_t"},
    ],
    "type_replace": [("BitSet<u32>", "BitSet", "the u32 instance is the one modelled")],
    "impls": body("RangedBitSet<B>", "<B: Readable__>", "<B: Writable__>", r"whereB:speedy::Readable<'a_,C_>",
                  r"whereB:speedy::Writable<C_>", "requires <Self as Readable__>::least__() <= usize::MAX, ")
    + body("AckNack") + body("Gap") + body("NackFrag"),
}
