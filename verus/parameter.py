FILE = "src/messages/submessage_elements/parameter.rs"
UNIT = {
    "trusted": [
        "speedy's Reader and Writer (verus/wire.rs; on speedy's code: Kani, wire_reader, wire_writer)",
        "ParameterId_t is two octets (decided by Kani, C02)",
    ],
    "prelude": "parameter.rs",
    "types": [{"file": "src/structure/parameter_id.rs", "name": "ParameterId"}, {"file": FILE, "name": "Parameter"}],
    "impls": [
        {"file": FILE, "head": r"impl<'a,C:Context>Readable<'a,C>forParameter", "as": "impl Parameter",
         "functions": {
             "read_from": {
                 "sig": [("fn read_from<R: Reader<'a, C>>", "fn read_from<'a, C: Context, R: Reader<'a, C>>",
                          "the parameters of the impl moved to the function")],
                 "contract": """ensures
    final(reader).little() == old(reader).little(),
    match r {
        Ok(p) => old(reader).rest().len() >= 4 && ({
            let n = padded(u16_of(old(reader).rest().subrange(2, 4), old(reader).little()) as int);
            &&& old(reader).rest().len() >= 4 + n
            &&& p.parameter_id.value == u16_of(old(reader).rest().take(2), old(reader).little())
            &&& p.value@ == old(reader).rest().subrange(4, 4 + n)
            &&& final(reader).rest() == old(reader).rest().skip(4 + n)
        }),
        Err(_) => old(reader).rest().len() < 4 || old(reader).rest().len() <
            4 + padded(u16_of(old(reader).rest().subrange(2, 4), old(reader).little()) as int),
    },""",
                 "ghost": "broadcast use twice, whole;\n",
                 "loops": ["""invariant
    old(reader).rest().len() >= 4 + i__,
    reader.little() == old(reader).little(),
    length == u16_of(old(reader).rest().subrange(2, 4), old(reader).little()),
    length + alignment == padded(length as int),
    reader.rest() == old(reader).rest().skip(4 + i__),
    value@ == old(reader).rest().subrange(4, 4 + i__),"""],
                 "loop_proofs": ["proof { if old(reader).rest().len() > 4 + i__ { assert(old(reader).rest().subrange(4, 4 + i__).push(old(reader).rest()[4 + i__]) "
                                 "=~= old(reader).rest().subrange(4, 4 + i__ + 1)); } }"],
             },
             "minimum_bytes_needed": {"contract": "ensures r == 4,"}}},
        {"file": FILE, "head": r"impl<C:Context>Writable<C>forParameter", "as": "impl Parameter", "functions": {
            "write_to": {
                "sig": [("fn write_to<T: ?Sized + Writer<C>>", "fn write_to<C: Context, T: Writer<C>>",
                         "the parameters of the impl moved to the function")],
                "replace": [("std::u16::MAX", "u16::MAX", "one constant of two names"),
                            ('speedy::Error::custom("parameter value is too long").into()', "C::custom__()",
                             "the error made from a text")],
                "contract": """requires self.value@.len() <= isize::MAX,
ensures
    final(writer).little() == old(writer).little(),
    match r {
        Ok(_) => padded(self.value@.len() as int) <= 0xffff
            && final(writer).out() == old(writer).out() + parameter_out(*self, old(writer).little()),
        Err(_) => padded(self.value@.len() as int) > 0xffff
            || old(writer).room() < 4 + padded(self.value@.len() as int),
    },
    padded(self.value@.len() as int) > 0xffff ==> r is Err,""",
                "ghost": "broadcast use take_all;\n",
                "loops": ["""invariant
    old(writer).room() == writer.room() + 4 + it__.index(),
    writer.little() == old(writer).little(),
    length == self.value@.len(), alignment == padded(length as int) - length,
    writer.out() == old(writer).out() + put16(self.parameter_id.value, old(writer).little())
        + put16(padded(length as int) as u16, old(writer).little()) + self.value@.take(it__.index()),""",
                          """invariant
    old(writer).room() == writer.room() + 4 + self.value@.len() + i__,
    writer.little() == old(writer).little(),
    length == self.value@.len(), alignment == padded(length as int) - length,
    writer.out() == old(writer).out() + put16(self.parameter_id.value, old(writer).little())
        + put16(padded(length as int) as u16, old(writer).little()) + self.value@ + zeros(i__ as int),"""],
                "loop_proofs": ["proof { assert(self.value@.take(it__.index() + 1) =~= "
                                "self.value@.take(it__.index()).push(self.value@[it__.index()])); }",
                                "proof { assert(zeros(i__ + 1) =~= zeros(i__ as int).push(0u8)); }"],
            }}},
    ],
}
