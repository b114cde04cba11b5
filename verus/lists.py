import extract
READER, PRIVATE, IMPLS, READABLE = ("crate:speedy/src/" + n for n in
                                    ("reader.rs", "private.rs", "readable_impl.rs", "readable.rs"))
FREE = [("fn read_length_u32<'a, C, R>", "fn read_length_u32<'a, C: Context, R: Reader<'a, C>>", "bounds moved to the parameters"),
        ("fn read_length<'a, C, R>", "fn read_length<'a, C: Context, R: Reader<'a, C>>", "bounds moved to the parameters"),
        ("where C: Context, R: Reader<'a, C>", "", "bounds moved to the parameters")]
COUNT = """ensures final(reader).little() == old(reader).little(), final(reader).rest().len() <= old(reader).rest().len(), match r {
    Ok(n) => old(reader).rest().len() >= 4 && n == u32_of(old(reader).rest().take(4), old(reader).little())
        && final(reader).rest() == old(reader).rest().skip(4),
    Err(_) => old(reader).rest().len() < 4,
},"""

UNIT = {
    "trusted": [
        
        "speedy's buffer reader (decided by Kani for buffers of any length: contracts wire_reader, wire_reader_owned)",
        "Vec::with_capacity; Vec::set_len and ptr::write behind the last item, within the capacity; usize::overflowing_mul",
        "reading a Locator_t (decided by Kani: c02_locator)",
    ],
    "prelude": "lists.rs",
    "types": [
        {"file": "src/structure/locator_kind.rs", "name": "LocatorKind_t"},
        {"file": "src/structure/locator.rs", "name": "Locator_t"},
    ],
    "free": [
        {"file": PRIVATE, "name": "read_length_u32", "sig": FREE, "contract": COUNT,
         "forms": {"map": extract.RESULT_MAP}},
        {"file": PRIVATE, "name": "read_length", "sig": FREE, "contract": COUNT},
    ],
    "impls": [
        {"file": READER, "of_trait": "Reader", "as": "pub trait Vectors__<'a, C: Context>: Reader<'a, C>",
         "label": "speedy::Reader::", "trait": True, "only": True, "functions": {
             "read_vec": {
                 "sig": [("T: Readable<'a, C>", "T: Item__", "the trait of the contracts")],
                 "contract": """requires steady::<T>(), !T::primitive__(),
ensures final(self).little() == old(self).little(), match r {
    Ok(v) => v@.len() == length && many_used::<T>(old(self).rest(), length as nat, old(self).little()) is Some
        && many_are(v@, old(self).rest(), old(self).little())
        && final(self).rest() == old(self).rest().skip(many_used::<T>(old(self).rest(), length as nat, old(self).little()).unwrap() as int),
    Err(_) => many_used::<T>(old(self).rest(), length as nat, old(self).little()) is None,
},
final(self).rest().len() <= old(self).rest().len(),""",
                 "replace": [
                     ("""let mut vec = Vec::with_capacity(length); { vec.set_len(length);
                         self.read_bytes(T::speedy_slice_as_bytes_mut(&mut vec))?; }
                         T::speedy_convert_slice_endianness(self.endianness(), &mut vec); Ok(vec)""",
                      "primitive__()", "reading of primitive types at once: not reached"),
                     ("Vec::with_capacity(length)", "with_room__(length, T::minimum_bytes_needed(), Ghost(self.rest()))",
                      "Vec::with_capacity is the model's: no more room than the octets can fill"),
                     ("{ vec.set_len(length + 1); std::ptr::write(vec.as_mut_ptr().offset(length as isize), value); }",
                      "{ write_at__(&mut vec, length, value); }", "set_len and ptr::write behind the last item are the model's"),
                 ],
                 "ghost": "proof { self.of_memory(); too_short::<T>(self.rest(), length as nat, self.little()); }\n",
                 "loops": ["""invariant
    self.rest().len() <= old(self).rest().len(), capacity__(&vec) == length, T::least__() * length <= old(self).rest().len(),
    steady::<T>(), self.little() == old(self).little(), vec@.len() == i__, i__ <= length,
    many_used::<T>(old(self).rest(), i__ as nat, self.little()) is Some,
    self.rest() == old(self).rest().skip(many_used::<T>(old(self).rest(), i__ as nat, self.little()).unwrap() as int),
    many_are(vec@, old(self).rest(), self.little()),"""],
                 "loop_proofs": ["""let ghost u__ = many_used::<T>(old(self).rest(), i__ as nat, self.little()).unwrap();
proof { many_fit::<T>(old(self).rest(), i__ as nat, self.little());
    match T::used__(self.rest(), self.little()) { Some(k) => {
        assert(old(self).rest().skip(u__ as int).skip(k as int) =~= old(self).rest().skip((u__ + k) as int)); } None => {} }
    missing::<T>(old(self).rest(), (i__ + 1) as nat, length as nat, self.little()); }"""],
             }}},
        {"file": IMPLS, "head": "impl<'a,C:Context,T:Readable<'a,C>>Readable<'a,C>forVec<T>",
         "as": "impl<T: Item__> Listed__ for Vec<T>", "trait": True, "label": "Vec::",
         "prefix": """open spec fn readable__() -> bool { steady::<T>() && !T::primitive__() }
open spec fn listed_used__(b: Seq<u8>, little: bool) -> Option<nat> {
    if b.len() < 4 { None } else {
        match many_used::<T>(b.skip(4), u32_of(b.take(4), little) as nat, little) { Some(n) => Some(n + 4), None => None }
    }
}
open spec fn listed_is__(&self, b: Seq<u8>, little: bool) -> bool {
    self@.len() == u32_of(b.take(4), little) && many_are(self@, b.skip(4), little)
}
proof fn at_least(b: Seq<u8>, little: bool) {}""", "functions": {
             "read_from": {"sig": [("fn read_from<R: Reader<'a, C>>", "fn read_from<'a, C: Context, R: Vectors__<'a, C>>",
                                    "the parameters of the impl moved to the function")],
                           "replace": [("crate::private::read_length", "read_length", "path shortened")],
                           "ghost": """proof {
    let b = reader.rest(); let little = reader.little();
    if b.len() >= 4 { many_fit::<T>(b.skip(4), u32_of(b.take(4), little) as nat, little);
        match many_used::<T>(b.skip(4), u32_of(b.take(4), little) as nat, little) {
            Some(n) => { assert(b.skip(4).skip(n as int) =~= b.skip(4 + n as int)); } None => {} } }
}
""",
                           "contract": ""},
             "minimum_bytes_needed": {"contract": ""}}},
        {"file": READABLE, "of_trait": "Readable", "as": "pub trait Buffers__: Listed__", "label": "speedy::Readable::",
         "trait": True, "only": True, "functions": {
             "read_with_length_from_buffer_with_ctx": {
                 "sig": [("fn read_with_length_from_buffer_with_ctx(", "fn read_with_length_from_buffer_with_ctx<'a, C: Context>(",
                          "the parameters of the trait moved to the function")],
                 "replace": [("reader.ptr as usize - buffer.as_ptr() as usize", "reader.passed__(buffer)",
                              "the difference of the pointers is the model's"),
                             ("error_input_buffer_is_too_small(buffer_length, bytes_needed)", "error_end_of_input()",
                              "errors are not told apart")],
                 "ghost": "proof { Self::at_least(buffer@, little_of__(context)); }\n",
                 "contract": """requires Self::readable__(),
ensures r.1 <= buffer@.len(), match r.0 {
    Ok(v) => match Self::listed_used__(buffer@, little_of__(context)) {
        Some(n) => r.1 == n && v.listed_is__(buffer@, little_of__(context)),
        None => false,
    },
    Err(_) => Self::listed_used__(buffer@, little_of__(context)) is None,
},"""}}},
    ],
}
