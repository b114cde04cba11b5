// The types of the crates bit-vec and bit-set (their code is verified by the unit sets)
pub struct BitVec { pub storage: Vec<u32>, pub nbits: usize }
pub struct BitSet { pub bit_vec: BitVec }
