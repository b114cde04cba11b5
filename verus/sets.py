RANGED = "src/common/ranged_bit_set.rs"
BITS = "src/common/bit_set.rs"
import extract
VEC = "crate:bit-vec/src/lib.rs"
SET = "crate:bit-set/src/lib.rs"
ENUM = "std:core/src/iter/adapters/enumerate.rs"
ITER = "std:core/src/iter/traits/iterator.rs"
U32 = [("<B: BitBlock>", "", "the u32 instance"), ("::<B>", "", "the u32 instance"),
       ("<B = u32>", "", "the u32 instance"), ("BitVec<B>", "BitVec", "the u32 instance"),
       ("IntoIter<B>", "IntoIter", "the u32 instance")]

DEP_TYPES = [
    {"file": VEC, "name": "BitVec", "replace": U32},
    {"file": SET, "name": "BitSet", "replace": U32},
    {"file": VEC, "name": "IntoIter", "replace": U32},
    {"file": ENUM, "name": "Enumerate", "replace": [("<I>", "", "the instance over bit_vec::IntoIter"),
                                                   ("iter: I,", "iter: IntoIter,", "the instance over bit_vec::IntoIter")]},
]
DEP_ALIASES = [{"file": VEC, "name": "B"}]
DEP_FREE = [
    {"file": VEC, "name": "blocks_for_bits", "sig": U32, "contract": "ensures r == blocks(bits as int),"},
    {"file": VEC, "name": "mask_for_bits", "sig": U32,
     "contract": """ensures forall|i: int| 0 <= i < 32 ==>
    #[trigger] bit(r, i) == (bits % 32 == 0 || i < bits % 32),""", "ghost": "broadcast use low_mask;\n"},
]
NOT_TEST = [("cfg!(test)", "false", "what is verified is not compiled for bit-vec's own tests")]
CHANGED = """requires old(self).good(), i < old(self).nbits,
ensures final(self).good(), final(self).nbits == old(self).nbits,
    forall|j: int| #[trigger] final(self).has(j) <==> if j == i { x } else { old(self).has(j) },"""
DEP_IMPLS = [
    {"file": VEC, "macro": ("bit_block_impl", "u32"), "label": "u32::", "trait": True, "only": True, "functions": {
        "bits": {"contract": "ensures r == 32,"}, "one": {"contract": "ensures r == 1,"},
        "zero": {"contract": "ensures r == 0,"}}},
    {"file": VEC, "head": "impl<B:BitBlock>DefaultforBitVec<B>", "as": "impl BitVec", "label": "BitVec::", "functions": {
        "default": {"contract": "ensures r.storage@ == Seq::<u32>::empty(), r.nbits == 0,"}}},
    {"file": VEC, "head": "impl<B:BitBlock>Index<usize>forBitVec<B>", "as": "impl BitVec", "label": "BitVec::",
     "consts": False, "functions": {
         "index": {"contract": "requires self.good(), i < self.nbits,\nensures *r == self.has(i as int),",
                   "replace": [("&TRUE", "&true", "a static that is true"), ("&FALSE", "&false", "a static that is false")]}}},
    {"file": VEC, "head": "implBitVec<u32>", "as": "impl BitVec", "label": "BitVec::", "only": True, "functions": {
        "new": {"contract": "ensures r.storage@ == Seq::<u32>::empty(), r.nbits == 0,",
                "replace": [("Default::default", "BitVec::default", "the type written out")]},
        "from_elem": {"contract": """ensures r.good(), r.nbits == nbits,
    forall|i: int| 0 <= i < nbits ==> #[trigger] r.has(i) == bit,""",
                      "ghost": "broadcast use none_marked, all_marked;\n", "replace": U32},
    }},
    {"file": VEC, "head": "impl<B:BitBlock>BitVec<B>", "as": "impl BitVec", "label": "BitVec::", "only": True,
     "functions": {
         "len": {"contract": "ensures r == self.nbits,"},
         "storage": {"contract": "ensures r@ == self.storage@,"},
         "storage_mut": {"sig": [("unsafe fn", "fn", "memory is the model's")], "contract": """ensures
    *r == old(self).storage, final(self).storage == *final(r), final(self).nbits == old(self).nbits,"""},
         "set_len": {"sig": [("unsafe fn", "fn", "memory is the model's")],
                     "contract": "ensures final(self).storage == old(self).storage, final(self).nbits == len,"},
         "last_block_with_mask": {"contract": """requires self.storage@.len() == blocks(self.nbits as int),
ensures match r {
    Some(x) => self.nbits % 32 != 0 && x.0 == self.storage@[self.storage@.len() - 1]
        && x.1 == ((1u32 << (self.nbits % 32)) - 1) as u32,
    None => self.nbits % 32 == 0,
},""", "ghost": "broadcast use at_least_one;\n"},
         "last_block_mut_with_mask": {"contract": """requires old(self).storage@.len() == blocks(old(self).nbits as int),
ensures final(self).nbits == old(self).nbits, match r {
    Some((p, m)) => old(self).nbits % 32 != 0 && *p == old(self).storage@[old(self).storage@.len() - 1]
        && m == ((1u32 << (old(self).nbits % 32)) - 1) as u32
        && final(self).storage@ == old(self).storage@.update(old(self).storage@.len() - 1, *final(p)),
    None => old(self).nbits % 32 == 0 && final(self).storage == old(self).storage,
},""", "ghost": "broadcast use at_least_one;\n"},
         "fix_last_block": {"contract": """requires old(self).storage@.len() == blocks(old(self).nbits as int),
ensures final(self).nbits == old(self).nbits, final(self).good(),
    forall|i: int| 0 <= i < old(self).nbits ==>
        #[trigger] marked(final(self).storage@, i) == marked(old(self).storage@, i),""",
                            "ghost": "broadcast use below;\n"},
         "is_last_block_fixed": {"contract": "requires self.good(),"},
         "ensure_invariant": {"contract": "requires self.good(),", "replace": NOT_TEST, "hooks": [extract.debug_assertions]},
         "get": {"contract": """requires self.good(),
ensures r == if i < self.nbits { Some(self.has(i as int)) } else { None },""",
                 "closures": [("map", extract.OPTION_MAP)], "ghost": "broadcast use flagged;\n"},
         "set": {"contract": CHANGED, "hooks": [extract.assertions], "ghost": "broadcast use raised, lowered, marked_after;\n"},
         "grow": {"contract": """requires old(self).good(), old(self).nbits + n <= usize::MAX,
ensures final(self).good(), final(self).nbits == old(self).nbits + n,
    forall|i: int| #[trigger] final(self).has(i) <==>
        if i < old(self).nbits { old(self).has(i) } else { i < old(self).nbits + n && value },""",
                  "replace": U32 + [("self.storage.extend(repeat(full_value).take(to_add))",
                                     "extend_repeated__(&mut self.storage, full_value, to_add)",
                                     "s.extend(repeat(v).take(n)) is a call of the model"),
                                    ("cmp::min", "min__", "core::cmp::min is the model's")],
                  "ghost": "broadcast use none_marked, all_marked, either, marked_joined;\n",
                  "loops": ["""invariant
    stop_idx <= num_cur_blocks, self.nbits == old(self).nbits, self.storage@.len() == old(self).storage@.len(),
    self.storage@.len() == num_cur_blocks, num_cur_blocks == blocks(old(self).nbits as int),
    forall|j: int| 0 <= j < 32 * self.storage@.len() ==> #[trigger] marked(self.storage@, j)
        == if j < old(self).nbits { marked(old(self).storage@, j) } else { value },"""]},
     }},
    {"file": VEC, "head": "impl<B:BitBlock>IteratorforIntoIter<B>", "as": "impl IntoIter", "label": "bit_vec::IntoIter::",
     "consts": False, "functions": {
         "next": {"contract": """requires old(self).sound(),
ensures final(self).sound(), match r {
    Some(x) => old(self).rest().len() > 0 && x == old(self).rest()[0]
        && final(self).rest() == old(self).rest().skip(1),
    None => old(self).rest().len() == 0 && final(self).rest() == old(self).rest(),
},""", "closures": [("map", extract.OPTION_MAP)]}}},
    {"file": VEC, "head": "impl<B:BitBlock>IntoIteratorforBitVec<B>", "as": "impl BitVec", "label": "BitVec::",
     "consts": False, "functions": {
         "into_iter": {"sig": U32, "contract": """requires self.good(),
ensures r.sound(), r.rest().len() == self.nbits,
    forall|i: int| 0 <= i < self.nbits ==> #[trigger] r.rest()[i] == self.has(i),"""}}},
    {"file": ENUM, "head": "impl<I>Enumerate<I>", "as": "impl Enumerate", "label": "Enumerate::", "only": True,
     "functions": {"new": {"sig": [("const fn", "fn", "called as any function"), ("Enumerate<I>", "Enumerate", "the instance over bit_vec::IntoIter"),
                                   ("iter: I", "iter: IntoIter", "the instance over bit_vec::IntoIter")],
                           "contract": "ensures r.iter == iter, r.count == 0,"}}},
    {"file": ENUM, "head": "impl<I>IteratorforEnumerate<I>whereI:Iterator,", "as": "impl Enumerate",
     "label": "Enumerate::", "only": True, "consts": False, "functions": {
         "next": {"sig": [("<I as Iterator>::Item", "bool", "the instance over bit_vec::IntoIter")],
                  "contract": """requires old(self).iter.sound(), old(self).at() + old(self).rest().len() <= usize::MAX,
ensures final(self).iter.sound(), match r {
    Some(x) => old(self).rest().len() > 0 && x.0 == old(self).at() && x.1 == old(self).rest()[0]
        && final(self).rest() == old(self).rest().skip(1) && final(self).at() == old(self).at() + 1,
    None => old(self).rest().len() == 0 && final(self).rest() == old(self).rest()
        && final(self).at() == old(self).at(),
},"""}}},
    {"file": ITER, "of_trait": "Iterator", "as": "impl IntoIter", "label": "Iterator::", "only": True, "consts": False,
     "functions": {"enumerate": {"sig": [("Enumerate<Self> where Self: Sized,", "Enumerate", "the instance over bit_vec::IntoIter")],
                                 "contract": "ensures r.iter == self, r.count == 0,"}}},
    {"file": SET, "head": "implBitSet<u32>", "as": "impl BitSet", "label": "BitSet::", "only": True, "functions": {
        "with_capacity": {"contract": "ensures r.good(), r.bit_vec.nbits == nbits, forall|i: int| !#[trigger] r.has(i),"},
        "from_bit_vec": {"contract": "ensures r.bit_vec == bit_vec,"}}},
    {"file": SET, "head": "impl<B:BitBlock>BitSet<B>", "as": "impl BitSet", "label": "BitSet::", "only": True,
     "functions": {
         "into_bit_vec": {"sig": U32, "contract": "ensures r == self.bit_vec,"},
         "get_ref": {"sig": U32, "contract": "ensures *r == self.bit_vec,"},
         "contains": {"contract": "requires self.good(),\nensures r == self.has(value as int),",
                      "replace": [("bit_vec[value]", "*bit_vec.index(value)", "the index operator written out")]},
         "insert": {"contract": """requires old(self).good(), value < usize::MAX,
ensures r == !old(self).has(value as int), final(self).good(),
    forall|i: int| #[trigger] final(self).has(i) <==> i == value || old(self).has(i),
    final(self).bit_vec.nbits == if r && value >= old(self).bit_vec.nbits { (value + 1) as usize }
        else { old(self).bit_vec.nbits },
    !r ==> *final(self) == *old(self),"""},
     }},
]

UNIT = {
    "trusted": [
        "of the standard library: Vec, core::cmp::min, extend(repeat(v).take(n)), Range::next (verus/bit_vec_lemmas.rs and vstd)",
        "speedy's Reader and Writer (verus/wire.rs; on speedy's code: Kani, wire_reader, wire_writer)",
        "checked_add, checked_sub and the conversions of the number types (decided by Kani, C12)",
    ],
    "prelude": "sets.rs",
    "uses": "use core::ops::Range;\n",
    "aliases": DEP_ALIASES,
    "free": DEP_FREE,
    "types": DEP_TYPES + [
        {"file": BITS, "name": "BitSetRef"},
        {"file": RANGED, "name": "RangedBitSet"},
        {"file": RANGED, "name": "RangedBitSetIntoIter"},
    ],
    "type_replace": [
        ("BitSet<u32>", "BitSet", "the u32 instance is the one modelled"),
        ("std::iter::Enumerate<bit_vec::IntoIter>", "Enumerate", "the instance over bit_vec::IntoIter"),
        ("Self::IntoIter", "RangedBitSetIntoIter<B>", "associated type written out"),
    ],
    "sig": [("Self::IntoIter", "RangedBitSetIntoIter<B>", "associated type written out")],
    "impls": DEP_IMPLS + [
        {"file": BITS, "head": "implBitSetRef", "label": "BitSetRef::", "functions": {
            "new": {"contract": "ensures r.0.good(), r.0.bit_vec.nbits == 0,",
                    "ghost": ""},
            "into_bit_set": {"contract": "ensures r == self.0,"},
        }},
        {"file": BITS, "head": "implDerefforBitSetRef", "as": "impl BitSetRef", "label": "BitSetRef::",
         "functions": {"deref": {"contract": "ensures *r == self.0,"}}},
        {"file": BITS, "head": "implDerefMutforBitSetRef", "as": "impl BitSetRef", "label": "BitSetRef::",
         "functions": {"deref_mut": {"contract": "ensures *r == old(self).0, final(self).0 == *final(r),"}}},
        {"file": BITS, "head": r"impl<'a,C:Context>Readable<'a,C>forBitSetRef", "as": "impl BitSetRef",
         "label": "BitSetRef::", "functions": {
             "read_from": {
                 "sig": [("fn read_from<R: Reader<'a, C>>", "fn read_from<'a, C: Context, R: Reader<'a, C>>",
                          "the parameters of the impl moved to the function")],
                 "contract": """ensures
    final(reader).little() == old(reader).little(),
    match r {
        Ok(s) => match set_used(old(reader).rest(), old(reader).little()) {
            Some(n) => set_is(s.0, old(reader).rest(), old(reader).little())
                && final(reader).rest() == old(reader).rest().skip(n as int),
            None => false,
        },
        Err(_) => set_used(old(reader).rest(), old(reader).little()) is None,
    },""",
                 "ghost": "broadcast use masked_bits, mask_exists;\n",
                 "loops": ["""invariant
    old(reader).rest().len() >= 4,
    number_of_bits == u32_of(old(reader).rest().take(4), old(reader).little()),
    number_of_bytes == blocks(number_of_bits as int),
    old(reader).rest().len() >= 4 + 4 * i__,
    reader.rest() == old(reader).rest().skip(4 + 4 * i__),
    reader.little() == old(reader).little(),
    inner.len() == i__,
    forall|j: int| 0 <= j < i__ ==> #[trigger] inner@[j] == word_at(old(reader).rest(), j, old(reader).little()),"""],
             }, "minimum_bytes_needed": {"contract": "ensures r == 4,"}}},
        {"file": BITS, "head": r"impl<C:Context>Writable<C>forBitSetRef", "as": "impl BitSetRef",
         "label": "BitSetRef::", "functions": {
             "write_to": {
                 "sig": [("fn write_to<T: ?Sized + Writer<C>>", "fn write_to<C: Context, T: Writer<C>>",
                          "the parameters of the impl moved to the function")],
                 "contract": """requires set_fits(self.0),
ensures
    final(writer).little() == old(writer).little(),
    match r {
        Ok(_) => final(writer).out() == old(writer).out() + set_out(self.0.bit_vec.storage@, old(writer).little()),
        Err(_) => old(writer).room() < 4 + 4 * self.0.bit_vec.storage@.len(),
    },""",
                 "loops": ["""invariant
    old(writer).room() == writer.room() + 4 + 4 * it__.index(),
    writer.little() == old(writer).little(),
    bytes@ == self.0.bit_vec.storage@,
    writer.out() == old(writer).out() + put32((32 * bytes@.len()) as u32, old(writer).little())
        + words_out(bytes@.take(it__.index()), old(writer).little()),"""],
                 "loop_proofs": ["proof { assert(bytes@.take(it__.index() + 1).drop_last() =~= bytes@.take(it__.index())); }"],
                 "ghost": "broadcast use take_all;\n",
             }}},
        {"file": RANGED, "head": "impl<B>RangedBitSet<B>where.*", "label": "RangedBitSet::", "functions": {
            "normalize": {
                "contract": """ensures match r {
    Some(n) => n == value.val() - self.base.val() && n <= 255,
    None => !(0 <= value.val() - self.base.val() <= 255) || !(B::lo() <= value.val() - self.base.val() <= B::hi()),
},""", "closures": [("and_then", extract.OPTION_AND_THEN), ("map", extract.OPTION_MAP)]},
            "new": {"contract": "ensures r.base == base, r.set.0.good(), r.set.0.bit_vec.nbits == 0,"},
            "insert": {
                "contract": """requires old(self).set.0.good(), sane(old(self).base), sane(value),
ensures
    final(self).base == old(self).base, final(self).set.0.good(),
    r == (in_window(old(self).base, value) && !old(self).member(value.val())),
    forall|v: int| #[trigger] final(self).member(v) <==> old(self).member(v)
        || (in_window(old(self).base, value) && v == value.val()),
    !r ==> final(self).set == old(self).set,
    final(self).set.0.bit_vec.nbits <= 256 || final(self).set.0.bit_vec.nbits == old(self).set.0.bit_vec.nbits,""",
                "replace": [("self.set.insert", "self.set.deref_mut().insert", "the implicit deref written out")]},
        }},
        {"file": RANGED, "head": "impl<B>IteratorforRangedBitSetIntoIter<B>where.*",
         "as": "impl<B> RangedBitSetIntoIter<B> where B: CheckedAdd + CheckedSub + ToPrimitive + FromPrimitive",
         "label": "RangedBitSetIntoIter::", "functions": {
             "next": {"contract": """requires old(self).iter.iter.sound(), old(self).iter.at() + old(self).iter.rest().len() <= usize::MAX, sane(old(self).base),
ensures final(self).iter.iter.sound(), final(self).base == old(self).base, match r {
    Some(v) => ({
        let k = final(self).iter.at() - old(self).iter.at() - 1;
        &&& first_marked(old(self).iter.rest(), k)
        &&& v.val() == old(self).base.val() + old(self).iter.at() + k
        &&& final(self).iter.rest() == old(self).iter.rest().skip(k + 1)
    }),
    None => forall|k: int| 0 <= k < old(self).iter.rest().len() && #[trigger] old(self).iter.rest()[k]
        ==> old(self).base.val() + old(self).iter.at() + k > B::hi() || old(self).iter.at() + k > B::hi(),
},""", "closures": [("and_then", extract.OPTION_AND_THEN), ("map", extract.OPTION_MAP)],
                      "loops": ["""invariant
    self.base == old(self).base, sane(old(self).base), self.iter.iter.sound(),
    old(self).iter.at() <= self.iter.at() <= old(self).iter.at() + old(self).iter.rest().len(),
    self.iter.rest() == old(self).iter.rest().skip(self.iter.at() - old(self).iter.at()),
    old(self).iter.at() + old(self).iter.rest().len() <= usize::MAX,
    forall|j: int| 0 <= j < self.iter.at() - old(self).iter.at() ==> !old(self).iter.rest()[j],
decreases self.iter.rest().len(),"""]}}},
        {"file": RANGED, "head": "impl<B>IntoIteratorforRangedBitSet<B>where.*",
         "as": "impl<B> RangedBitSet<B> where B: CheckedAdd + CheckedSub + ToPrimitive + FromPrimitive",
         "label": "RangedBitSet::", "functions": {
             "into_iter": {"contract": """requires self.set.0.good(),
ensures r.iter.iter.sound(), r.base == self.base, r.iter.at() == 0, r.iter.rest().len() == self.set.0.bit_vec.nbits,
    forall|i: int| 0 <= i < self.set.0.bit_vec.nbits ==>
        #[trigger] r.iter.rest()[i] == self.set.0.has(i),"""}}},
    ],
}
