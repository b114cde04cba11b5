// Bits in 32-bit blocks: what the crates bit-vec and bit-set hold

pub open spec fn bit(w: u32, b: int) -> bool { (w >> (b as u32)) & 1 == 1 }
pub open spec fn blocks(bits: int) -> int { (bits + 31) / 32 }

/// What bit-vec asks of its storage: whole blocks, and zeros past the last bit
pub open spec fn fixed(storage: Seq<u32>, nbits: int) -> bool {
    &&& storage.len() == blocks(nbits)
    &&& forall|i: int| nbits <= i < 32 * storage.len() ==> !#[trigger] marked(storage, i)
}
pub open spec fn marked(storage: Seq<u32>, i: int) -> bool { bit(storage[i / 32], i % 32) }
impl BitVec {
    pub open spec fn has(&self, i: int) -> bool { 0 <= i < self.nbits && marked(self.storage@, i) }
    pub open spec fn good(&self) -> bool { fixed(self.storage@, self.nbits as int) }
}
impl BitSet {
    pub open spec fn has(&self, i: int) -> bool { self.bit_vec.has(i) }
    pub open spec fn good(&self) -> bool { self.bit_vec.good() }
}
