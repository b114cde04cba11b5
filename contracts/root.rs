// Sidecar contracts for rtps-rs: included into the crate under cfg(rtps_verif).
//
// Every contract is an ordinary function over a source of values `S: Src`.
// Under Kani the source is fully symbolic (kani::any), so the verifier decides
// the contract for every value; natively the same body, calling the same code,
// is run on concrete values: to replay a counterexample found by the verifier,
// and to look for a failing input where the verifier gives none.

pub trait Src {
    fn u8(&mut self) -> u8;
    fn u16(&mut self) -> u16;
    fn u32(&mut self) -> u32;
    fn u64(&mut self) -> u64;
    fn bytes<const N: usize>(&mut self) -> [u8; N];
    /// A value in 0..=max
    fn upto(&mut self, max: usize) -> usize;
    /// The largest size to explore: `bound` in the verifier, `native` outside it
    fn limit(&mut self, bound: usize, native: usize) -> usize;
    /// Few, and now and then many: what happens at a size nobody thought of
    fn some(&mut self, few: usize, many: usize) -> usize {
        if self.upto(299) != 100 {
            return self.upto(few);
        }
        let doubled = few << self.upto(20);
        let size = self.upto(doubled.min(many));
        self.size(size, many)
    }
    /// A size, or one that the code under test mentions
    fn size(&mut self, size: usize, _max: usize) -> usize {
        size
    }
    /// A buffer of unconstrained content and length: up to `N` in the verifier,
    /// up to `native` outside it
    fn buffer<const N: usize>(&mut self, native: usize) -> Vec<u8>;
    /// Octets of any content and, in the verifier, of any length whatever
    fn octets(&mut self) -> Vec<u8>;
    fn assume(&mut self, condition: bool);

    fn bool(&mut self) -> bool {
        self.u8() & 1 == 1
    }
    fn i32(&mut self) -> i32 {
        self.u32() as i32
    }
    fn i64(&mut self) -> i64 {
        self.u64() as i64
    }
    fn endianness(&mut self) -> speedy::Endianness {
        if self.bool() {
            speedy::Endianness::LittleEndian
        } else {
            speedy::Endianness::BigEndian
        }
    }
}

#[cfg(kani)]
pub struct KaniSrc;

#[cfg(kani)]
impl Src for KaniSrc {
    #[inline(always)]
    fn u8(&mut self) -> u8 {
        kani::any()
    }
    #[inline(always)]
    fn u16(&mut self) -> u16 {
        kani::any()
    }
    #[inline(always)]
    fn u32(&mut self) -> u32 {
        kani::any()
    }
    #[inline(always)]
    fn u64(&mut self) -> u64 {
        kani::any()
    }
    #[inline(always)]
    fn bytes<const N: usize>(&mut self) -> [u8; N] {
        kani::any()
    }
    #[inline(always)]
    fn upto(&mut self, max: usize) -> usize {
        let value: usize = kani::any();
        kani::assume(value <= max);
        value
    }
    #[inline(always)]
    fn limit(&mut self, bound: usize, _native: usize) -> usize {
        bound
    }
    #[inline(always)]
    fn buffer<const N: usize>(&mut self, _native: usize) -> Vec<u8> {
        let content: [u8; N] = kani::any();
        let mut buffer = content.to_vec();
        let length = self.upto(N);
        unsafe { buffer.set_len(length) };
        buffer
    }
    #[inline(always)]
    fn octets(&mut self) -> Vec<u8> {
        // what an allocation holds is unconstrained in the verifier
        let length = self.upto(1 << 40);
        let mut octets = Vec::with_capacity(length);
        unsafe { octets.set_len(length) };
        octets
    }
    #[inline(always)]
    fn assume(&mut self, condition: bool) {
        kani::assume(condition)
    }
}

#[cfg(not(kani))]
pub use native::NativeSrc;

#[cfg(not(kani))]
pub mod native {
    /// The drawn values do not meet a precondition
    pub struct Rejected;

    /// Draws concrete values: random ones leaning to the edges, or recorded ones
    pub struct NativeSrc {
        pub log: Vec<Vec<u8>>,
        replay: Option<Vec<Vec<u8>>>,
        state: u64,
        position: usize,
    }

    /// The constants of the source, and the arrays of octets: what a condition may turn on
    struct Constants {
        words: Vec<u64>,
        octets: Vec<Vec<u8>>,
    }

    fn constants() -> &'static Constants {
        static CONSTANTS: std::sync::OnceLock<Constants> = std::sync::OnceLock::new();
        CONSTANTS.get_or_init(|| {
            let text = std::env::var("RTPS_VERIF_CONSTANTS").ok().and_then(|path| std::fs::read_to_string(path).ok());
            let mut constants = Constants { words: vec![], octets: vec![] };
            for line in text.unwrap_or_default().lines() {
                let values: Vec<u64> = line.split(' ').filter_map(|v| v.parse().ok()).collect();
                match values.len() {
                    0 => {}
                    1 => constants.words.push(values[0]),
                    _ => constants.octets.push(values.iter().map(|v| *v as u8).collect()),
                }
            }
            constants
        })
    }

    impl NativeSrc {
        pub fn random(seed: u64) -> Self {
            NativeSrc {
                log: vec![],
                replay: None,
                state: seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03,
                position: 0,
            }
        }

        pub fn replay(values: Vec<Vec<u8>>) -> Self {
            NativeSrc {
                log: vec![],
                replay: Some(values),
                state: 1,
                position: 0,
            }
        }

        pub fn next(&mut self) -> u64 {
            self.state = self.state.wrapping_add(0x9E37_79B9_7F4A_7C15);
            let mut z = self.state;
            z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
            z ^ (z >> 31)
        }

        fn raw(&mut self) -> Vec<u8> {
            let value = self
                .replay
                .as_ref()
                .and_then(|values| values.get(self.position))
                .cloned()
                .unwrap_or_default();
            self.position += 1;
            value
        }

        fn recorded(&mut self, length: usize) -> Vec<u8> {
            // the verifier gives an array element by element
            let mut value = self.raw();
            while value.len() < length && self.replay.as_ref().map_or(false, |v| self.position < v.len()) {
                value.extend(self.raw());
            }
            value.resize(length, 0);
            value
        }

        fn edge(&mut self, bits: u32) -> u64 {
            let mask = if bits == 64 { u64::MAX } else { (1 << bits) - 1 };
            let r = self.next();
            let v = match r % 16 {
                0 => 0,
                1 => mask,
                2 => mask >> 1,
                3 => (mask >> 1) + 1,
                4 | 5 => (r >> 8) % 8,
                6 => mask - (r >> 8) % 4,
                7 => (1u64 << ((r >> 8) % u64::from(bits))).wrapping_add((r >> 16) % 3).wrapping_sub(1),
                8 => (r >> 8) % 300,
                9 => (r >> 8) & 0xffff,
                10 | 11 if !self.log.is_empty() => {
                    // a value drawn before, or its neighbour
                    let i = (r >> 8) as usize % self.log.len();
                    let mut b = self.log[i].clone();
                    b.resize(8, 0);
                    let mut a = [0; 8];
                    a.copy_from_slice(&b[..8]);
                    u64::from_le_bytes(a).wrapping_add((r >> 16) % 3).wrapping_sub(1)
                }
                12 => {
                    let near = self.constant().wrapping_add((r >> 16) % 3).wrapping_sub(1);
                    if (r >> 20) % 4 == 0 { near.wrapping_neg() } else { near }
                }
                13 if bits == 64 => self.edge(32) << 32 | self.edge(32),
                _ => self.next(),
            };
            v & mask
        }

        fn constant(&mut self) -> u64 {
            let r = self.next() as usize;
            match constants().words.len() {
                0 => 0,
                n => constants().words[r % n],
            }
        }

        fn drawn(&mut self, value: usize) -> usize {
            let mut word = (value as u64).to_le_bytes();
            if self.replay.is_some() {
                word.copy_from_slice(&self.recorded(8));
            }
            self.log.push(word.to_vec());
            u64::from_le_bytes(word) as usize
        }

        fn word(&mut self, length: usize) -> u64 {
            let bytes = if self.replay.is_some() {
                self.recorded(length)
            } else {
                self.edge(length as u32 * 8).to_le_bytes()[..length].to_vec()
            };
            let mut word = [0; 8];
            word[..length].copy_from_slice(&bytes);
            self.log.push(bytes);
            u64::from_le_bytes(word)
        }

        fn fill(&mut self, length: usize) -> Vec<u8> {
            let style = self.next();
            let part = (style >> 8) as usize;
            match style % 10 {
                0 => vec![0; length],
                1 => vec![0xff; length],
                2 => (0..length).map(|i| (i as u8).wrapping_add(1)).collect(),
                3 => {
                    // words of four octets, in one of the byte orders
                    let mut octets = vec![];
                    while octets.len() < length {
                        let word = self.edge(32) as u32;
                        octets.extend(&if part % 2 == 0 { word.to_be_bytes() } else { word.to_le_bytes() });
                    }
                    octets.truncate(length);
                    octets
                }
                4 => {
                    // drawn before, but for an octet or none
                    let before: Vec<usize> = (0..self.log.len()).filter(|i| self.log[*i].len() == length).collect();
                    if length == 0 || before.is_empty() {
                        return vec![0; length];
                    }
                    let mut octets = self.log[before[part % before.len()]].clone();
                    if part % 3 != 0 {
                        octets[(part >> 8) % length] = (style >> 40) as u8;
                    }
                    octets
                }
                5 if !constants().octets.is_empty() => {
                    let mut octets = if part % 3 == 0 { vec![0; length] } else { self.mixed(length, 9) };
                    let put = &constants().octets[part % constants().octets.len()];
                    let at = match part % 4 {
                        0 => 0,
                        1 => (part >> 16) % (length + 1),
                        _ => (part >> 16) % (length / 4 + 1) * 4,
                    };
                    for (there, octet) in octets[at..].iter_mut().zip(put) {
                        *there = *octet;
                    }
                    octets
                }
                n => self.mixed(length, n),
            }
        }

        fn mixed(&mut self, length: usize, style: u64) -> Vec<u8> {
            (0..length)
                .map(|_| {
                    let r = self.next();
                    match r % 8 {
                        0 | 1 if style < 8 => 0,
                        2 if style < 8 => 0xff,
                        _ => (r >> 8) as u8,
                    }
                })
                .collect()
        }
    }

    impl super::Src for NativeSrc {
        fn u8(&mut self) -> u8 {
            self.word(1) as u8
        }
        fn u16(&mut self) -> u16 {
            self.word(2) as u16
        }
        fn u32(&mut self) -> u32 {
            self.word(4) as u32
        }
        fn u64(&mut self) -> u64 {
            self.word(8)
        }
        fn bytes<const N: usize>(&mut self) -> [u8; N] {
            let bytes = if self.replay.is_some() {
                self.recorded(N)
            } else {
                self.fill(N)
            };
            let mut array = [0; N];
            array.copy_from_slice(&bytes);
            self.log.push(bytes);
            array
        }
        fn upto(&mut self, max: usize) -> usize {
            let value = if self.replay.is_some() {
                let mut word = [0; 8];
                word.copy_from_slice(&self.recorded(8));
                u64::from_le_bytes(word) as usize
            } else {
                let r = self.next();
                let n = (r >> 8) as usize;
                match r % 8 {
                    0 => max - n % (max.min(3) + 1),
                    1 | 2 => n % (max.min(4) + 1),
                    3 | 4 => n % (max.min(40) + 1),
                    5 if r % 7 == 0 => {
                        let constant = self.constant() as usize;
                        if constant <= max { constant } else { n % (max / 2 + 1) }
                    }
                    _ if max == usize::MAX => n,
                    _ => n % (max + 1),
                }
            };
            self.log.push((value as u64).to_le_bytes().to_vec());
            self.assume(value <= max);
            value
        }
        fn limit(&mut self, _bound: usize, native: usize) -> usize {
            native
        }
        fn size(&mut self, size: usize, max: usize) -> usize {
            let constant = self.constant() as usize;
            let named = if self.next() % 2 == 0 && constant <= 2 * max && self.replay.is_none() {
                constant + self.next() as usize % 3
            } else {
                size
            };
            self.drawn(named)
        }
        fn buffer<const N: usize>(&mut self, native: usize) -> Vec<u8> {
            if self.replay.is_some() {
                let mut bytes = self.raw();
                let length = self.upto(native.max(N));
                bytes.resize(length, 0);
                self.log.insert(self.log.len() - 1, bytes.clone());
                bytes
            } else {
                let length = self.upto(native);
                let bytes = self.fill(length);
                self.log.insert(self.log.len() - 1, bytes.clone());
                bytes
            }
        }
        fn octets(&mut self) -> Vec<u8> {
            self.buffer::<0>(40)
        }
        fn assume(&mut self, condition: bool) {
            if !condition {
                std::panic::panic_any(Rejected)
            }
        }
    }
}

/// A postcondition: an obligation with a name
macro_rules! ensure {
    ($condition:expr, $name:literal) => {{
        let holds: bool = $condition;
        #[cfg(kani)]
        kani::assert(holds, $name);
        #[cfg(not(kani))]
        {
            if !holds {
                panic!(concat!("contract ", $name))
            }
        }
    }};
}

/// A witness that the preconditions above it can be met
macro_rules! reachable {
    ($name:literal) => {{
        #[cfg(kani)]
        kani::cover!(true, $name);
        #[cfg(not(kani))]
        crate::verif::witness($name);
    }};
}

macro_rules! contracts {
    ($( $name:ident / $unwind:literal $(@ $solver:ident)? ),* $(,)?) => {
        #[cfg(kani)]
        mod proofs {
            $(
                #[kani::proof]
                #[kani::unwind($unwind)]
                $(#[kani::solver($solver)])?
                fn $name() {
                    super::$name(&mut crate::verif::KaniSrc);
                }
            )*
        }
        #[cfg(not(kani))]
        pub const TABLE: &[(&str, fn(&mut crate::verif::NativeSrc))] =
            &[$((stringify!($name), $name::<crate::verif::NativeSrc>)),*];
    };
}

pub(crate) use {contracts, ensure, reachable};

#[cfg(not(kani))]
thread_local! {
    pub static WITNESSES: std::cell::RefCell<std::collections::BTreeMap<&'static str, u64>> = Default::default();
}

/// The largest single memory request since it was last reset (kept by the runner)
#[cfg(not(kani))]
pub static ALLOCATED: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

#[cfg(not(kani))]
pub fn witness(name: &'static str) {
    WITNESSES.with(|w| *w.borrow_mut().entry(name).or_insert(0) += 1);
}

pub mod codec {
    include!(concat!(env!("RTPS_VERIF_DIR"), "/codec.rs"));
}
pub mod changes {
    include!(concat!(env!("RTPS_VERIF_DIR"), "/changes.rs"));
}
pub mod wire {
    include!(concat!(env!("RTPS_VERIF_DIR"), "/wire.rs"));
}
pub mod library {
    include!(concat!(env!("RTPS_VERIF_DIR"), "/library.rs"));
}
pub mod totality {
    include!(concat!(env!("RTPS_VERIF_DIR"), "/totality.rs"));
}
pub mod sets {
    include!(concat!(env!("RTPS_VERIF_DIR"), "/sets.rs"));
}
pub mod values {
    include!(concat!(env!("RTPS_VERIF_DIR"), "/values.rs"));
}
pub mod behavior {
    include!(concat!(env!("RTPS_VERIF_DIR"), "/behavior.rs"));
}

#[cfg(not(kani))]
pub fn tables() -> Vec<(&'static str, fn(&mut NativeSrc))> {
    [
        codec::TABLE,
        changes::TABLE,
        totality::TABLE,
        wire::TABLE,
        library::TABLE,
        sets::TABLE,
        values::TABLE,
        behavior::TABLE,
        crate::structure::history_cache::verif::TABLE,
        crate::behavior::stateless_writer::verif::TABLE,
        crate::behavior::stateful_writer::verif::TABLE,
        crate::behavior::reader_locator::verif::TABLE,
        crate::messages::receiver::verif::TABLE,
        crate::messages::submessage_elements::parameter::verif::TABLE,
    ]
    .concat()
}
