// What the other contracts take speedy's buffers to be, on speedy's own buffers.
// The code is speedy's. Readers: buffers of every content and every length.

use super::codec::Failed;
use super::{contracts, ensure, reachable, Src};
use bytes::{Buf, BytesMut};
use speedy::{Context, Endianness, Readable, Reader, Writable, Writer};

/// What is asked of a reader: past so many octets, read one value of this kind
#[derive(Copy, Clone)]
pub struct Asked {
    e: Endianness,
    past: usize,
    more: usize,
    kind: u8,
}
impl Context for Asked {
    type Error = Failed;
    fn endianness(&self) -> Endianness {
        self.e
    }
}
pub struct Got {
    value: Result<u64, ()>,
    /// whether so many octets are left: before and after
    before: bool,
    after: bool,
}

impl<'a> Readable<'a, Asked> for Got {
    fn read_from<R: Reader<'a, Asked>>(reader: &mut R) -> Result<Self, Failed> {
        let asked = *reader.context();
        reader.skip_bytes(asked.past)?;
        let before = reader.can_read_at_least(asked.more) == Some(true);
        let value = match asked.kind {
            0 => reader.read_u8().map(|v| v as u64),
            1 => reader.read_u16().map(|v| v as u64),
            2 => reader.read_u32().map(|v| v as u64),
            3 => reader.read_i32().map(|v| v as u32 as u64),
            4 => reader.read_i64().map(|v| v as u64),
            5 => reader.read_u64(),
            6 => {
                let mut some = [0; 5];
                reader.read_bytes(&mut some).map(|_| number(&some, Endianness::LittleEndian))
            }
            _ => reader.read_value::<[u8; 3]>().map(|some| number(&some, Endianness::LittleEndian)),
        };
        let after = reader.can_read_at_least(asked.more) == Some(true);
        Ok(Got { value: value.map_err(|_| ()), before, after })
    }
}

fn number(octets: &[u8], e: Endianness) -> u64 {
    let mut v = 0;
    for i in 0..octets.len() {
        let at = if e == Endianness::LittleEndian { octets.len() - 1 - i } else { i };
        v = v << 8 | octets[at] as u64;
    }
    v
}

const SIZES: [usize; 8] = [1, 2, 4, 4, 8, 8, 5, 3];

fn reader<S: Src>(s: &mut S, owned: bool) {
    let wire = s.octets();
    let length = wire.len();
    let past = s.limit(usize::MAX, length + 3).min(s.u64() as usize);
    let more = s.limit(usize::MAX, length + 3).min(s.u64() as usize);
    let kind = s.upto(7) as u8;
    let e = s.endianness();
    let ctx = Asked { e, past, more, kind };
    let (got, used) = if owned {
        (Got::read_from_buffer_owned_with_ctx(ctx, &wire), None)
    } else {
        let (got, used) = Got::read_with_length_from_buffer_with_ctx(ctx, &wire);
        (got, Some(used))
    };
    ensure!(used.is_none() || used <= Some(length), "octets-used-are-there");
    match got {
        Err(_) => ensure!(length < past, "an-octet-that-is-there-is-read"),
        Ok(got) => {
            ensure!(past <= length, "no-octet-is-read-past-the-end");
            let n = SIZES[kind as usize];
            let there = length - past;
            ensure!(got.before == (more <= there), "octets-left-before");
            match got.value {
                Ok(v) => {
                    let order = if kind < 6 { e } else { Endianness::LittleEndian };
                    ensure!(n <= there, "no-value-is-read-past-the-end");
                    ensure!(v == number(&wire[past..past + n], order), "the-value-of-the-octets-in-front");
                    ensure!(got.after == (more <= there - n), "octets-left-after");
                    ensure!(used.is_none() || used == Some(past + n), "octets-used");
                    reachable!("wire_reader");
                }
                Err(_) => {
                    ensure!(there < n, "a-value-that-is-there-is-read");
                    ensure!(kind == 7 || got.after == got.before, "octets-left-after-nothing-was-read");
                    ensure!(kind == 7 || used.is_none() || used == Some(past), "octets-used-when-nothing-was-read");
                    reachable!("wire_reader_short");
                }
            }
        }
    }
}

pub fn wire_reader<S: Src>(s: &mut S) {
    reader(s, false)
}
pub fn wire_reader_owned<S: Src>(s: &mut S) {
    reader(s, true)
}

/// Octets and a value to be written behind them
pub struct Put<'a> {
    front: &'a [u8],
    kind: u8,
    value: u64,
}
impl<'a, C: Context> Writable<C> for Put<'a> {
    fn write_to<W: ?Sized + Writer<C>>(&self, writer: &mut W) -> Result<(), C::Error> {
        writer.write_bytes(self.front)?;
        let v = self.value;
        match self.kind {
            0 => writer.write_u8(v as u8),
            1 => writer.write_u16(v as u16),
            2 => writer.write_u32(v as u32),
            3 => writer.write_i32(v as i32),
            4 => writer.write_i64(v as i64),
            5 => writer.write_u64(v),
            6 => writer.write_bytes(&v.to_le_bytes()[..5]),
            _ => writer.write_value(&[v as u8, (v >> 8) as u8, (v >> 16) as u8]),
        }
    }
}

/// The octet at `i` of what is to be written
fn octet_of(put: &Put<'_>, i: usize, e: Endianness) -> u8 {
    if i < put.front.len() {
        return put.front[i];
    }
    let (k, n) = (i - put.front.len(), SIZES[put.kind as usize]);
    let little = e == Endianness::LittleEndian || put.kind > 5;
    (put.value >> (8 * (if little { k } else { n - 1 - k }))) as u8
}

pub fn wire_writer<S: Src>(s: &mut S) {
    let front = s.octets();
    s.assume(front.len() <= 4096);
    let put = Put { front: &front, kind: s.upto(7) as u8, value: s.u64() };
    let e = s.endianness();
    let size = front.len() + SIZES[put.kind as usize];
    match put.write_to_vec_with_ctx(super::codec::Ctx(e)) {
        Ok(out) => {
            ensure!(out.len() == size, "as-many-octets-as-the-values-have");
            let i = s.upto(size - 1);
            ensure!(out[i] == octet_of(&put, i, e), "the-octets-of-the-values");
            reachable!("wire_writer");
        }
        Err(_) => ensure!(false, "a-vec-has-room"),
    }
}

pub fn wire_writer_room<S: Src>(s: &mut S) {
    let front = s.octets();
    s.assume(front.len() <= 4096);
    let put = Put { front: &front, kind: s.upto(7) as u8, value: s.u64() };
    let e = s.endianness();
    let size = front.len() + SIZES[put.kind as usize];
    let mut room = s.octets();
    let written = put.write_to_buffer_with_ctx(super::codec::Ctx(e), &mut room);
    ensure!(written.is_ok() == (size <= room.len()), "written-if-there-is-room");
    if written.is_ok() {
        let i = s.upto(size - 1);
        ensure!(room[i] == octet_of(&put, i, e), "the-octets-of-the-values");
        reachable!("wire_writer_room");
    }
}

/// The same octets
fn holds<S: Src>(s: &mut S, b: &[u8], octets: &[u8]) -> bool {
    if b.len() != octets.len() {
        return false;
    }
    let i = s.upto(octets.len());
    i == octets.len() || b[i] == octets[i]
}

/// One operation on a buffer: what is left of it, and what is split off
fn cut<S: Src>(s: &mut S, b: &mut BytesMut, content: &[u8]) -> usize {
    let n = s.upto(content.len());
    ensure!(holds(s, &b[..n], &content[..n]), "a-part-is-the-octets");
    match s.upto(2) {
        0 => {
            let front = b.split_to(n);
            ensure!(holds(s, &front, &content[..n]), "split-to-gives-the-front");
        }
        1 => {
            b.advance(n);
        }
        _ => {
            let rest = b.split_off(n);
            ensure!(holds(s, &rest, &content[n..]), "split-off-gives-the-rest");
            ensure!(holds(s, b, &content[..n]), "split-off-keeps-the-front");
            *b = rest;
        }
    }
    ensure!(b.len() == content.len() - n, "as-many-are-left");
    ensure!(holds(s, b, &content[n..]), "the-octets-behind-are-left");
    n
}

pub fn wire_bytes<S: Src>(s: &mut S) {
    let content = s.octets();
    s.assume(content.len() <= 4096);
    let mut b = BytesMut::from(&content[..]);
    let n = cut(s, &mut b, &content);
    cut(s, &mut b, &content[n..]);
    reachable!("wire_bytes");
}

contracts! { wire_reader / 14, wire_reader_owned / 14, wire_writer / 18, wire_writer_room / 18,
    wire_bytes / 4 }
