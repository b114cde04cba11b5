// Contracts of the parameter: padding, refusal, framing.

use super::*;
use crate::verif::{contracts, ensure, reachable, Src};
use speedy::Endianness;

fn id_of(octets: [u8; 2], e: Endianness) -> ParameterId {
    ParameterId::read_from_buffer_with_ctx(e, &octets).unwrap()
}

fn put16(x: usize, e: Endianness) -> [u8; 2] {
    match e {
        Endianness::LittleEndian => [x as u8, (x >> 8) as u8],
        Endianness::BigEndian => [(x >> 8) as u8, x as u8],
    }
}

fn length<S: Src>(s: &mut S) -> usize {
    match s.upto(9) {
        0 => 65_520 + s.upto(20),
        1 => 65_536 + s.upto(20),
        2 => 131_060 + s.upto(20),
        3 => s.upto(70_000),
        _ => s.upto(40),
    }
}

/// `length` octets that are told apart by their places
fn content<S: Src>(s: &mut S, length: usize) -> Vec<u8> {
    let seed = s.bytes::<16>();
    (0..length).map(|i| seed[i % 16] ^ (i / 16) as u8).collect()
}

/// id, length in octets rounded up to four, the value, zeros
pub fn c08_write<S: Src>(s: &mut S) {
    let e = s.endianness();
    let id = s.bytes::<2>();
    let n = length(s);
    let value = content(s, n);
    let parameter = Parameter { parameter_id: id_of(id, e), value: value.clone() };
    let padded = (n + 3) / 4 * 4;
    match parameter.write_to_vec_with_ctx(e) {
        Ok(wire) => {
            ensure!(padded <= 0xffff, "unframable-is-refused");
            ensure!(wire.len() == 4 + padded, "written-size");
            ensure!(wire[..2] == id, "written-id");
            ensure!(wire[2..4] == put16(padded, e), "length-is-the-padded-size");
            ensure!(wire[4..4 + n] == value[..], "value-octets");
            ensure!(wire[4 + n..].iter().all(|b| *b == 0), "padding-is-zero");
            let back = Parameter::read_from_buffer_with_ctx(e, &wire);
            ensure!(
                matches!(&back, Ok(p) if p.parameter_id == parameter.parameter_id && p.value == wire[4..]),
                "reads-back-with-its-padding"
            );
            reachable!("c08_write written");
        }
        Err(_) => {
            ensure!(padded > 0xffff, "framable-is-written");
            reachable!("c08_write refused");
        }
    }
}

/// Parameters, one after the other: each ends where the next starts
pub fn c08_read<S: Src>(s: &mut S) {
    let e = s.endianness();
    let mut wire: Vec<u8> = vec![];
    let mut expected = vec![];
    for _ in 0..s.upto(5) {
        let id = s.bytes::<2>();
        let announced = if s.upto(20) == 0 { s.upto(0xffff) } else { s.upto(30) };
        let value = content(s, (announced + 3) / 4 * 4);
        wire.extend_from_slice(&id);
        wire.extend_from_slice(&put16(announced, e));
        wire.extend_from_slice(&value);
        expected.push((id, announced, value));
    }
    let end = wire.len();
    wire.extend_from_slice(&s.bytes::<8>());
    let mut at = 0;
    for (id, announced, value) in &expected {
        let (read, used) = Parameter::read_with_length_from_buffer_with_ctx(e, &wire[at..]);
        ensure!(used == 4 + value.len(), "next-starts-where-this-ends");
        match read {
            Ok(parameter) => {
                ensure!(parameter.parameter_id == id_of(*id, e), "read-id");
                ensure!(parameter.value == *value, "read-octets");
                if announced % 4 == 0 {
                    let back = parameter.write_to_vec_with_ctx(e);
                    ensure!(matches!(back, Ok(b) if b == wire[at..at + used]), "writes-back-the-same");
                }
                reachable!("c08_read");
            }
            Err(_) => ensure!(false, "a-complete-parameter-is-readable"),
        }
        at += used;
    }
    ensure!(at == end, "all-read");
    // cut anywhere, the last one is incomplete
    if let Some((_, _, value)) = expected.last() {
        let start = end - 4 - value.len();
        let cut = start + s.upto(3 + value.len());
        ensure!(
            Parameter::read_from_buffer_with_ctx(e, &wire[start..cut]).is_err(),
            "an-incomplete-parameter-is-an-error"
        );
    }
}

contracts! { c08_write / 8, c08_read / 8 }
