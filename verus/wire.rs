// Contracts of speedy's readers and writers over a buffer (decided by Kani: wire_reader, wire_reader_owned, wire_writer).

pub open spec fn u16_of(b: Seq<u8>, little: bool) -> u16 {
    if little { (b[0] as int + 256 * b[1] as int) as u16 } else { (b[1] as int + 256 * b[0] as int) as u16 }
}
pub open spec fn u32_of(b: Seq<u8>, little: bool) -> u32 {
    if little { (b[0] as int + 0x100 * b[1] as int + 0x1_0000 * b[2] as int + 0x100_0000 * b[3] as int) as u32 }
    else { (b[3] as int + 0x100 * b[2] as int + 0x1_0000 * b[1] as int + 0x100_0000 * b[0] as int) as u32 }
}
pub open spec fn octet(v: int, n: int) -> u8 {
    (if n == 0 { v % 256 } else if n == 1 { v / 256 % 256 } else if n == 2 { v / 0x1_0000 % 256 }
     else { v / 0x100_0000 % 256 }) as u8
}
pub open spec fn put16(v: u16, little: bool) -> Seq<u8> {
    let v = v as int;
    if little { seq![octet(v, 0), octet(v, 1)] } else { seq![octet(v, 1), octet(v, 0)] }
}
pub open spec fn put32(v: u32, little: bool) -> Seq<u8> {
    let v = v as int;
    if little { seq![octet(v, 0), octet(v, 1), octet(v, 2), octet(v, 3)] }
    else { seq![octet(v, 3), octet(v, 2), octet(v, 1), octet(v, 0)] }
}
pub proof fn put16_inverse(v: u16, little: bool)
    ensures u16_of(put16(v, little), little) == v, put16(v, little).len() == 2
{}
pub proof fn octets_of(v: int)
    requires 0 <= v < 0x1_0000_0000
    ensures
        0 <= v % 256 < 256, 0 <= v / 256 % 256 < 256, 0 <= v / 0x1_0000 % 256 < 256, 0 <= v / 0x100_0000 % 256 < 256,
        v == v % 256 + 0x100 * (v / 256 % 256) + 0x1_0000 * (v / 0x1_0000 % 256) + 0x100_0000 * (v / 0x100_0000 % 256),
{
    let a = v / 256;
    let b = v / 0x1_0000;
    let c = v / 0x100_0000;
    assert(b == a / 256);
    assert(c == b / 256);
    assert(0 <= c < 256);
}
pub proof fn put32_inverse(v: u32, little: bool)
    ensures u32_of(put32(v, little), little) == v, put32(v, little).len() == 4
{
    octets_of(v as int);
    let b = put32(v, little);
    if little {
        assert(b[0] == v as int % 256 && b[1] == v as int / 256 % 256 && b[2] == v as int / 0x1_0000 % 256
               && b[3] == v as int / 0x100_0000 % 256);
    } else {
        assert(b[3] == v as int % 256 && b[2] == v as int / 256 % 256 && b[1] == v as int / 0x1_0000 % 256
               && b[0] == v as int / 0x100_0000 % 256);
    }
}
pub proof fn u16_inverse(b: Seq<u8>, little: bool)
    requires b.len() == 2
    ensures put16(u16_of(b, little), little) == b
{
    assert(put16(u16_of(b, little), little) =~= b);
}

pub trait Context: Sized {
    type Error;
    fn custom__() -> Self::Error;
}

/// A value read from the octets at the front of a sequence
pub trait Readable__: Sized {
    /// how many it takes; none if it cannot be read
    spec fn used__(b: Seq<u8>, little: bool) -> Option<nat>;
    /// it is the value those octets stand for
    spec fn is__(&self, b: Seq<u8>, little: bool) -> bool;
    /// below it nothing is read
    spec fn least__() -> nat;
    fn minimum_bytes_needed() -> (r: usize) ensures r == Self::least__();
}
pub trait Writable__ {
    spec fn fits__(&self) -> bool;
    spec fn put__(&self, little: bool) -> Seq<u8>;
}

pub trait Reader<'a, C: Context>: Sized {
    spec fn rest(&self) -> Seq<u8>;
    spec fn little(&self) -> bool;

    /// a buffer
    proof fn of_memory(&self) ensures self.rest().len() <= usize::MAX;
    fn can_read_at_least(&self, size: usize) -> (r: Option<bool>) ensures r == Some(self.rest().len() >= size);
    fn read_u8(&mut self) -> (r: Result<u8, C::Error>)
        ensures final(self).little() == old(self).little(), final(self).rest().len() <= old(self).rest().len(), match r {
            Ok(v) => old(self).rest().len() >= 1 && v == old(self).rest()[0]
                && final(self).rest() == old(self).rest().skip(1),
            Err(_) => old(self).rest().len() < 1,
        };
    fn read_u16(&mut self) -> (r: Result<u16, C::Error>)
        ensures final(self).little() == old(self).little(), final(self).rest().len() <= old(self).rest().len(), match r {
            Ok(v) => old(self).rest().len() >= 2 && v == u16_of(old(self).rest().take(2), old(self).little())
                && final(self).rest() == old(self).rest().skip(2),
            Err(_) => old(self).rest().len() < 2,
        };
    fn read_u32(&mut self) -> (r: Result<u32, C::Error>)
        ensures final(self).little() == old(self).little(), final(self).rest().len() <= old(self).rest().len(), match r {
            Ok(v) => old(self).rest().len() >= 4 && v == u32_of(old(self).rest().take(4), old(self).little())
                && final(self).rest() == old(self).rest().skip(4),
            Err(_) => old(self).rest().len() < 4,
        };
    fn read_value<T: Readable__>(&mut self) -> (r: Result<T, C::Error>)
        ensures final(self).little() == old(self).little(), final(self).rest().len() <= old(self).rest().len(), match r {
            Ok(v) => match T::used__(old(self).rest(), old(self).little()) {
                Some(n) => n <= old(self).rest().len() && v.is__(old(self).rest(), old(self).little())
                    && final(self).rest() == old(self).rest().skip(n as int),
                None => false,
            },
            Err(_) => T::used__(old(self).rest(), old(self).little()) is None,
        };
}

pub trait Writer<C: Context> {
    spec fn out(&self) -> Seq<u8>;
    spec fn room(&self) -> nat;
    spec fn little(&self) -> bool;

    fn write_u8(&mut self, v: u8) -> (r: Result<(), C::Error>)
        ensures final(self).little() == old(self).little(), match r {
            Ok(_) => final(self).out() == old(self).out() + seq![v] && old(self).room() == final(self).room() + 1,
            Err(_) => old(self).room() < 1,
        };
    fn write_u16(&mut self, v: u16) -> (r: Result<(), C::Error>)
        ensures final(self).little() == old(self).little(), match r {
            Ok(_) => final(self).out() == old(self).out() + put16(v, old(self).little())
                && old(self).room() == final(self).room() + 2,
            Err(_) => old(self).room() < 2,
        };
    fn write_u32(&mut self, v: u32) -> (r: Result<(), C::Error>)
        ensures final(self).little() == old(self).little(), match r {
            Ok(_) => final(self).out() == old(self).out() + put32(v, old(self).little())
                && old(self).room() == final(self).room() + 4,
            Err(_) => old(self).room() < 4,
        };
    fn write_value<T: Writable__>(&mut self, v: &T) -> (r: Result<(), C::Error>)
        requires v.fits__()
        ensures final(self).little() == old(self).little(), match r {
            Ok(_) => final(self).out() == old(self).out() + v.put__(old(self).little())
                && old(self).room() == final(self).room() + v.put__(old(self).little()).len(),
            Err(_) => old(self).room() < v.put__(old(self).little()).len(),
        };
}
