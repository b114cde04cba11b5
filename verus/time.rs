/// Assumed contracts of std::time: a clock time is a number of nanoseconds from the epoch
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct SystemTime { _x: u8 }
impl SystemTime {
    pub uninterp spec fn nanos(&self) -> int;
    #[verifier::external_body]
    pub fn duration_since(&self, earlier: SystemTime) -> (r: Result<Duration, SystemTimeError>)
        ensures match r {
            Ok(d) => d.total() == self.nanos() - earlier.nanos() && d.subsec() < 1_000_000_000,
            Err(_) => self.nanos() < earlier.nanos(),
        }
    { unimplemented!() }
}
pub struct SystemTimeError {}
#[verifier::external_body]
pub fn epoch__() -> (r: SystemTime) ensures r.nanos() == 0 { unimplemented!() }

pub const GIGA: u32 = 1_000_000_000;
#[derive(Clone, Copy)]
pub struct Duration { pub secs__: u64, pub subsec__: Subsec }
/// below 10^9
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Subsec { _x: u32 }
impl Subsec { pub uninterp spec fn v(&self) -> u32; }
impl Duration {
    pub open spec fn secs(&self) -> u64 { self.secs__ }
    pub open spec fn subsec(&self) -> u32 { self.subsec__.v() }
    pub open spec fn total(&self) -> int { self.secs() * 1_000_000_000 + self.subsec() }
    #[verifier::external_body]
    pub fn as_secs(&self) -> (r: u64) ensures r == self.secs() { unimplemented!() }
    #[verifier::external_body]
    pub fn subsec_nanos(&self) -> (r: u32) ensures r == self.subsec(), r < 1_000_000_000 { unimplemented!() }
    #[verifier::external_body]
    pub fn new(secs: u64, nanos: u32) -> (r: Duration)
        requires secs + nanos / 1_000_000_000 <= u64::MAX
        ensures r.total() == secs * 1_000_000_000 + nanos
    { unimplemented!() }
}
impl vstd::std_specs::ops::AddSpecImpl<Duration> for SystemTime {
    open spec fn obeys_add_spec() -> bool { false }
    /// a signed 64-bit count of seconds
    open spec fn add_req(self, d: Duration) -> bool { self.nanos() + d.total() < 0x7fff_ffff_ffff_ffff * 1_000_000_000 }
    uninterp spec fn add_spec(self, d: Duration) -> SystemTime;
}
impl core::ops::Add<Duration> for SystemTime {
    type Output = SystemTime;
    #[verifier::external_body]
    fn add(self, d: Duration) -> (r: SystemTime) ensures r.nanos() == self.nanos() + d.total() { unimplemented!() }
}
pub assume_specification [<i64 as From<u32>>::from](a: u32) -> (r: i64) ensures r == a;
//@ extracted

/// 64-bit shifts by 32 are products with and quotients by 2^32
pub proof fn shifts()
    ensures
        forall|x: i64| 0 <= x < 0x7fff_ffff ==> #[trigger] (x << 32) == x * 0x1_0000_0000,
        forall|x: i64| 0 <= x ==> #[trigger] (x >> 32) == x / 0x1_0000_0000,
        forall|x: u64| x <= 0xffff_ffff ==> #[trigger] (x << 32) == x * 0x1_0000_0000,
        forall|x: u64| #[trigger] (x >> 32) == x / 0x1_0000_0000,
        forall|x: u128| x <= 0xffff_ffff ==> #[trigger] (x << 32) == x * 0x1_0000_0000,
        forall|x: u128| #[trigger] (x >> 32) == x / 0x1_0000_0000,
{
    assert forall|x: u64| x <= 0xffff_ffff implies #[trigger] (x << 32) == x * 0x1_0000_0000 by {
        assert(x << 32 == x * 0x1_0000_0000) by (bit_vector) requires x <= 0xffff_ffff;
    }
    assert forall|x: u64| #[trigger] (x >> 32) == x / 0x1_0000_0000 by {
        assert(x >> 32 == x / 0x1_0000_0000) by (bit_vector);
    }
    assert forall|x: u128| x <= 0xffff_ffff implies #[trigger] (x << 32) == x * 0x1_0000_0000 by {
        assert(x << 32 == x * 0x1_0000_0000) by (bit_vector) requires x <= 0xffff_ffff;
    }
    assert forall|x: u128| #[trigger] (x >> 32) == x / 0x1_0000_0000 by {
        assert(x >> 32 == x / 0x1_0000_0000) by (bit_vector);
    }
    assert forall|x: i64| 0 <= x < 0x7fff_ffff implies #[trigger] (x << 32) == x * 0x1_0000_0000 by {
        assert(x << 32 == x * 0x1_0000_0000) by (bit_vector) requires 0 <= x < 0x7fff_ffff;
    }
    assert forall|x: i64| 0 <= x implies #[trigger] (x >> 32) == x / 0x1_0000_0000 by {
        assert(x >> 32 == x / 0x1_0000_0000) by (bit_vector) requires 0 <= x;
    }
}
pub open spec fn fraction_of(nanos: int) -> int { nanos * 0x1_0000_0000 / 1_000_000_000 }
pub open spec fn nanos_of(fraction: int) -> int { fraction * 1_000_000_000 / 0x1_0000_0000 }

pub open spec fn invalid() -> Time_t { Time_t { seconds: -1i32, fraction: 0xffff_ffff } }
/// A clock time, in nanoseconds from the epoch, as a protocol time
pub open spec fn to_protocol(n: int, t: Time_t) -> bool {
    if 0 <= n < 0x8000_0000 * 1_000_000_000 {
        t.seconds == n / 1_000_000_000 && t.fraction == fraction_of(n % 1_000_000_000)
    } else {
        t == invalid()
    }
}
pub open spec fn to_clock<E>(t: Time_t, r: Result<SystemTime, E>) -> bool {
    if t.seconds < 0 { r is Err } else {
        r is Ok && r->Ok_0.nanos() == t.seconds * 1_000_000_000 + nanos_of(t.fraction as int)
    }
}
/// There and back: at most one nanosecond is lost, nothing is gained
pub proof fn there_and_back(n: int, t: Time_t, r: Result<SystemTime, &'static str>)
    requires 0 <= n < 0x8000_0000 * 1_000_000_000, to_protocol(n, t), to_clock(t, r)
    ensures r is Ok, n - 1 <= r->Ok_0.nanos() <= n
{
    let s = n % 1_000_000_000;
    let f = fraction_of(s);
    assert(f * 1_000_000_000 <= s * 0x1_0000_0000 < (f + 1) * 1_000_000_000);
    assert(0 <= f < 0x1_0000_0000);
    let m = nanos_of(f);
    assert(m <= s && s - 1 <= m);
}
/// Order is kept in both directions
pub proof fn order_kept(a: int, b: int, s: Time_t, t: Time_t)
    requires 0 <= a <= b < 0x8000_0000 * 1_000_000_000, to_protocol(a, s), to_protocol(b, t)
    ensures s.seconds < t.seconds || s.seconds == t.seconds && s.fraction <= t.fraction
{}
pub proof fn order_kept_back(s: Time_t, t: Time_t, a: Result<SystemTime, &'static str>, b: Result<SystemTime, &'static str>)
    requires 0 <= s.seconds, s.seconds < t.seconds || s.seconds == t.seconds && s.fraction <= t.fraction,
        to_clock(s, a), to_clock(t, b)
    ensures a->Ok_0.nanos() <= b->Ok_0.nanos()
{
    assert(0 <= nanos_of(s.fraction as int) < 1_000_000_000);
}
