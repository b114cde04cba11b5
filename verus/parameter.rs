//@ include wire.rs
/// The next multiple of four
pub open spec fn padded(n: int) -> int { (n + 3) / 4 * 4 }
pub open spec fn zeros(n: int) -> Seq<u8> { Seq::new(n as nat, |i: int| 0u8) }
/// Id, padded length, value, padding
pub open spec fn parameter_out(p: Parameter, little: bool) -> Seq<u8> {
    put16(p.parameter_id.value, little) + put16(padded(p.value@.len() as int) as u16, little)
        + p.value@ + zeros(padded(p.value@.len() as int) - p.value@.len())
}
pub broadcast proof fn take_all(s: Seq<u8>)
    ensures #[trigger] s.take(s.len() as int) == s
{
    assert(s.take(s.len() as int) =~= s);
}
pub broadcast proof fn twice(s: Seq<u8>, a: int, b: int)
    requires 0 <= a, 0 <= b, a + b <= s.len()
    ensures #[trigger] s.skip(a).take(b) == s.subrange(a, a + b)
{
    assert(s.skip(a).take(b) =~= s.subrange(a, a + b));
}
pub broadcast proof fn whole(s: Seq<u8>, a: int, b: int)
    requires 0 <= a, 0 <= b, a + b <= s.len()
    ensures #[trigger] s.skip(a).skip(b) == s.skip(a + b)
{
    assert(s.skip(a).skip(b) =~= s.skip(a + b));
}
//@ extracted
/// Two octets, every pair of them an id (contract discharged by Kani: C02)
impl Readable__ for ParameterId {
    open spec fn used__(b: Seq<u8>, little: bool) -> Option<nat> { if b.len() < 2 { None } else { Some(2) } }
    open spec fn is__(&self, b: Seq<u8>, little: bool) -> bool { self.value == u16_of(b.take(2), little) }
    open spec fn least__() -> nat { 2 }
    #[verifier::external_body]
    fn minimum_bytes_needed() -> (r: usize) { 2 }
}
impl Writable__ for ParameterId {
    open spec fn fits__(&self) -> bool { true }
    open spec fn put__(&self, little: bool) -> Seq<u8> { put16(self.value, little) }
}
/// C08: a parameter is followed by what followed it, and what was read writes back the same
proof fn framed(b: Seq<u8>, p: Parameter, little: bool)
    requires
        b.len() >= 4,
        b.len() >= 4 + padded(u16_of(b.subrange(2, 4), little) as int),
        padded(u16_of(b.subrange(2, 4), little) as int) <= 0xffff,
        p.parameter_id.value == u16_of(b.take(2), little),
        p.value@ == b.subrange(4, 4 + padded(u16_of(b.subrange(2, 4), little) as int)),
    ensures
        u16_of(b.subrange(2, 4), little) % 4 == 0 ==>
            parameter_out(p, little) =~= b.take(4 + padded(u16_of(b.subrange(2, 4), little) as int)),
{
    let n = u16_of(b.subrange(2, 4), little) as int;
    if n % 4 == 0 {
        u16_inverse(b.subrange(2, 4), little);
        u16_inverse(b.take(2), little);
        assert(zeros(0) =~= seq![]);
        assert(parameter_out(p, little) =~= b.take(4 + padded(n)));
    }
}
/// What was written is read back: the same id, the value followed by its padding, then the tail
proof fn returned(p: Parameter, tail: Seq<u8>, little: bool)
    requires padded(p.value@.len() as int) <= 0xffff
    ensures ({
        let b = parameter_out(p, little) + tail;
        let n = padded(u16_of(b.subrange(2, 4), little) as int);
        &&& n == padded(p.value@.len() as int) && b.len() >= 4 + n
        &&& u16_of(b.take(2), little) == p.parameter_id.value
        &&& b.subrange(4, 4 + n) =~= p.value@ + zeros(n - p.value@.len())
        &&& b.skip(4 + n) =~= tail
    })
{
    let b = parameter_out(p, little) + tail;
    put16_inverse(p.parameter_id.value, little);
    put16_inverse(padded(p.value@.len() as int) as u16, little);
    assert(b.take(2) =~= put16(p.parameter_id.value, little));
    assert(b.subrange(2, 4) =~= put16(padded(p.value@.len() as int) as u16, little));
}
