// What of the standard library the crates bit-vec and bit-set use (assumed), and lemmas on bits

/// core::cmp::min of two usize
#[verifier::external_body]
pub fn min__(a: usize, b: usize) -> (r: usize) ensures r == if a <= b { a } else { b } { core::cmp::min(a, b) }
/// s.extend(repeat(v).take(n))
#[verifier::external_body]
pub fn extend_repeated__(s: &mut Vec<u32>, v: u32, n: usize)
    ensures final(s)@ == old(s)@ + Seq::new(n as nat, |i: int| v)
{ s.extend(core::iter::repeat(v).take(n)) }
/// assert!(c)
pub fn assert__(c: bool) requires c {}
pub trait BitBlock: Sized { fn bits() -> usize; fn one() -> Self; fn zero() -> Self; }

pub broadcast proof fn flagged(w: u32, b: usize)
    requires b < 32
    ensures #[trigger] (w & (1u32 << b)) != 0 <==> bit(w, b as int)
{
    let c = b as u32;
    assert((w & (1u32 << b)) == (w & (1u32 << c))) by (bit_vector) requires b < 32, c == b as u32;
    assert((w & (1u32 << c)) != 0 <==> (w >> c) & 1 == 1) by (bit_vector) requires c < 32;
}
pub broadcast proof fn raised(w: u32, b: usize, i: int)
    requires b < 32, 0 <= i < 32
    ensures #[trigger] bit(w | (1u32 << b), i) == (i == b || bit(w, i))
{
    let c = b as u32;
    let j = i as u32;
    assert((w | (1u32 << b)) == (w | (1u32 << c))) by (bit_vector) requires b < 32, c == b as u32;
    assert((((w | (1u32 << c)) >> j) & 1 == 1) == (j == c || (w >> j) & 1 == 1)) by (bit_vector) requires c < 32, j < 32;
}
pub broadcast proof fn lowered(w: u32, b: usize, i: int)
    requires b < 32, 0 <= i < 32
    ensures #[trigger] bit(w & !(1u32 << b), i) == (i != b && bit(w, i))
{
    let c = b as u32;
    let j = i as u32;
    assert((w & !(1u32 << b)) == (w & !(1u32 << c))) by (bit_vector) requires b < 32, c == b as u32;
    assert((((w & !(1u32 << c)) >> j) & 1 == 1) == (j != c && (w >> j) & 1 == 1)) by (bit_vector) requires c < 32, j < 32;
}
pub broadcast proof fn below(w: u32, b: usize, i: int)
    requires b < 32, 0 <= i < 32
    ensures #[trigger] bit(w & ((1u32 << b) - 1) as u32, i) == (i < b && bit(w, i))
{
    let c = b as u32;
    assert((1u32 << b) == (1u32 << c)) by (bit_vector) requires b < 32, c == b as u32;
    masked_bits(w, c, i);
}
pub broadcast proof fn at_least_one(b: usize)
    requires b < 32
    ensures #[trigger] (1u32 << b) >= 1
{
    assert((1u32 << b) >= 1) by (bit_vector) requires b < 32;
}
/// the mask of the bits below n % 32, of all bits if that is 0
pub broadcast proof fn low_mask(k: usize, i: int)
    requires k <= 31, 0 <= i < 32
    ensures #[trigger] bit(!0u32 >> k, i) == (i < 32 - k)
{
    let c = k as u32;
    let j = i as u32;
    assert((!0u32 >> k) == (!0u32 >> c)) by (bit_vector) requires k < 32, c == k as u32;
    assert((((!0u32 >> c) >> j) & 1 == 1) == (j < 32 - c)) by (bit_vector) requires c < 32, j < 32;
}
pub broadcast proof fn either(w: u32, m: u32, i: int)
    requires 0 <= i < 32
    ensures #[trigger] bit(w | !m, i) == (bit(w, i) || !bit(m, i))
{
    let j = i as u32;
    assert((((w | !m) >> j) & 1 == 1) == ((w >> j) & 1 == 1 || !((m >> j) & 1 == 1))) by (bit_vector) requires j < 32;
}
pub broadcast proof fn none_marked(i: int)
    requires 0 <= i < 32
    ensures #[trigger] bit(0u32, i) == false
{
    let j = i as u32;
    assert((0u32 >> j) & 1 == 0) by (bit_vector) requires j < 32;
}
pub broadcast proof fn all_marked(i: int)
    requires 0 <= i < 32
    ensures #[trigger] bit(!0u32, i)
{
    let j = i as u32;
    assert((!0u32 >> j) & 1 == 1) by (bit_vector) requires j < 32;
}
pub broadcast proof fn marked_after(s: Seq<u32>, k: int, v: u32, j: int)
    requires 0 <= k < s.len(), 0 <= j < 32 * s.len()
    ensures #[trigger] marked(s.update(k, v), j) == (if j / 32 == k { bit(v, j % 32) } else { marked(s, j) }),
        marked(s, j) == bit(s[j / 32], j % 32)
{}

pub broadcast proof fn marked_joined(a: Seq<u32>, b: Seq<u32>, i: int)
    requires 0 <= i < 32 * (a.len() + b.len())
    ensures #[trigger] marked(a + b, i)
        == (if i < 32 * a.len() { marked(a, i) } else { bit(b[i / 32 - a.len()], i % 32) })
{}

impl IntoIter {
    /// What is left to give
    pub open spec fn rest(&self) -> Seq<bool> {
        Seq::new((self.range.end - self.range.start) as nat, |i: int| marked(self.bit_vec.storage@, self.range.start + i))
    }
    pub open spec fn sound(&self) -> bool {
        self.bit_vec.good() && self.range.start <= self.range.end <= self.bit_vec.nbits
    }
}
impl Enumerate {
    pub open spec fn rest(&self) -> Seq<bool> { self.iter.rest() }
    pub open spec fn at(&self) -> nat { self.count as nat }
}
