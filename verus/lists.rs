// speedy's counted lists, and lists of locators in particular
//@ include wire.rs

pub assume_specification [usize::overflowing_mul] (a: usize, b: usize) -> (r: (usize, bool))
    ensures r.1 == (a * b > usize::MAX), !r.1 ==> r.0 == a * b;

/// Where the items of a list end; none if one of them cannot be read
pub open spec fn many_used<T: Readable__>(b: Seq<u8>, n: nat, little: bool) -> Option<nat>
    decreases n
{
    if n == 0 { Some(0) } else {
        match many_used::<T>(b, (n - 1) as nat, little) {
            Some(u) => match T::used__(b.skip(u as int), little) { Some(k) => Some(u + k), None => None },
            None => None,
        }
    }
}
pub open spec fn many_are<T: Readable__>(v: Seq<T>, b: Seq<u8>, little: bool) -> bool {
    forall|i: int| 0 <= i < v.len()
        ==> (#[trigger] v[i]).is__(b.skip(many_used::<T>(b, i as nat, little).unwrap() as int), little)
}
/// What is read takes the least at least, and no more than there is
pub open spec fn steady<T: Readable__>() -> bool {
    forall|b: Seq<u8>, little: bool| (#[trigger] T::used__(b, little)) is Some
        ==> T::least__() <= T::used__(b, little).unwrap() <= b.len()
}
pub proof fn many_fit<T: Readable__>(b: Seq<u8>, n: nat, little: bool)
    requires steady::<T>()
    ensures many_used::<T>(b, n, little) is Some ==> T::least__() * n <= many_used::<T>(b, n, little).unwrap() <= b.len()
    decreases n
{
    if n > 0 && many_used::<T>(b, n, little) is Some {
        many_fit::<T>(b, (n - 1) as nat, little);
        let u = many_used::<T>(b, (n - 1) as nat, little).unwrap();
        assert(T::used__(b.skip(u as int), little) is Some);
        assert(b.skip(u as int).len() == b.len() - u);
        assert(T::least__() * n == T::least__() * (n - 1) + T::least__()) by (nonlinear_arith) requires n > 0;
    }
    assert(T::least__() * 0 == 0) by (nonlinear_arith);
}
pub proof fn too_short<T: Readable__>(b: Seq<u8>, n: nat, little: bool)
    requires steady::<T>()
    ensures T::least__() * n > b.len() ==> many_used::<T>(b, n, little) is None
{
    many_fit::<T>(b, n, little);
}
pub proof fn missing<T: Readable__>(b: Seq<u8>, i: nat, n: nat, little: bool)
    requires i <= n
    ensures many_used::<T>(b, i, little) is None ==> many_used::<T>(b, n, little) is None
    decreases n
{
    if i < n { missing::<T>(b, i, (n - 1) as nat, little); }
}

/// Errors are not told apart
#[verifier::external_body]
pub fn error_end_of_input<E>() -> E { unimplemented!() }
#[verifier::external_body]
pub fn primitive__<T, E>() -> (r: Result<Vec<T>, E>) requires false { unimplemented!() }
pub uninterp spec fn capacity__<T>(v: &Vec<T>) -> nat;
/// Vec::with_capacity: room for what the octets left can hold, and no more
#[verifier::external_body]
pub fn with_room__<T>(n: usize, least: usize, left: Ghost<Seq<u8>>) -> (r: Vec<T>)
    requires least * n <= left@.len()
    ensures r@ == Seq::<T>::empty(), capacity__(&r) == n
{ Vec::with_capacity(n) }
/// set_len and ptr::write behind the last item, where there is room for it
#[verifier::external_body]
pub fn write_at__<T>(v: &mut Vec<T>, at: usize, x: T)
    requires at == old(v)@.len(), at < capacity__(old(v))
    ensures final(v)@ == old(v)@.push(x), capacity__(final(v)) == capacity__(old(v))
{ v.push(x) }

/// What a list is of
pub trait Item__: Readable__ {
    spec fn primitive__() -> bool;
    fn speedy_is_primitive() -> (r: bool) ensures r == Self::primitive__();
}

/// A list: what it takes, and what it holds
pub trait Listed__: Sized {
    spec fn readable__() -> bool;
    spec fn listed_used__(b: Seq<u8>, little: bool) -> Option<nat>;
    spec fn listed_is__(&self, b: Seq<u8>, little: bool) -> bool;
    fn read_from<'a, C: Context, R: Vectors__<'a, C>>(reader: &mut R) -> (r: Result<Self, C::Error>)
        requires Self::readable__()
        ensures final(reader).little() == old(reader).little(), final(reader).rest().len() <= old(reader).rest().len(), match r {
            Ok(v) => match Self::listed_used__(old(reader).rest(), old(reader).little()) {
                Some(n) => n <= old(reader).rest().len() && v.listed_is__(old(reader).rest(), old(reader).little())
                    && final(reader).rest() == old(reader).rest().skip(n as int),
                None => false,
            },
            Err(_) => Self::listed_used__(old(reader).rest(), old(reader).little()) is None,
        };
    fn minimum_bytes_needed() -> (r: usize) ensures r == 4;
    proof fn at_least(b: Seq<u8>, little: bool) ensures b.len() < 4 ==> Self::listed_used__(b, little) is None;
}
//@ extracted
impl Readable__ for Locator_t {
    open spec fn used__(b: Seq<u8>, little: bool) -> Option<nat> {
        if b.len() < 24 || kind_of(u32_of(b, little)) is None { None } else { Some(24) }
    }
    open spec fn is__(&self, b: Seq<u8>, little: bool) -> bool {
        *self == (Locator_t { kind: kind_of(u32_of(b, little)).unwrap(), port: u32_of(b.skip(4), little),
                              address: array16(b.skip(8)) })
    }
    open spec fn least__() -> nat { 24 }
    #[verifier::external_body]
    fn minimum_bytes_needed() -> (r: usize) { 24 }
}
impl Item__ for Locator_t {
    open spec fn primitive__() -> bool { false }
    #[verifier::external_body]
    fn speedy_is_primitive() -> (r: bool) { false }
}
//@ include locators_spec.rs

/// A reader over a slice (decided by Kani: contract wire_reader)
#[verifier::external_body]
#[verifier::reject_recursive_types(C)]
pub struct BufferReader<'a, C: Context> { _c: C, _l: &'a u8 }
impl<'a, C: Context> Reader<'a, C> for BufferReader<'a, C> {
    uninterp spec fn rest(&self) -> Seq<u8>;
    uninterp spec fn little(&self) -> bool;
    #[verifier::external_body]
    proof fn of_memory(&self) {}
    #[verifier::external_body]
    fn can_read_at_least(&self, size: usize) -> (r: Option<bool>) { unimplemented!() }
    #[verifier::external_body]
    fn read_u8(&mut self) -> (r: Result<u8, C::Error>) { unimplemented!() }
    #[verifier::external_body]
    fn read_u16(&mut self) -> (r: Result<u16, C::Error>) { unimplemented!() }
    #[verifier::external_body]
    fn read_u32(&mut self) -> (r: Result<u32, C::Error>) { unimplemented!() }
    #[verifier::external_body]
    fn read_value<T: Readable__>(&mut self) -> (r: Result<T, C::Error>) { unimplemented!() }
}
impl<'a, C: Context> Vectors__<'a, C> for BufferReader<'a, C> {}
pub uninterp spec fn little_of__<C: Context>(c: C) -> bool;
impl<'a, C: Context> BufferReader<'a, C> {
    #[verifier::external_body]
    pub fn new(context: C, buffer: &'a [u8]) -> (r: Self)
        ensures r.rest() == buffer@, r.little() == little_of__(context)
    { unimplemented!() }
    /// ptr of the reader less the address of the buffer it was made of
    #[verifier::external_body]
    pub fn passed__(&self, buffer: &'a [u8]) -> (r: usize)
        requires self.rest().len() <= buffer@.len()
        ensures r == buffer@.len() - self.rest().len()
    { unimplemented!() }
}

/// Lists of locators, as the receiver's contracts state them
pub proof fn steady_locators() ensures steady::<Locator_t>() {}
pub proof fn lists_of_locators(b: Seq<u8>, n: nat, little: bool)
    ensures
        (many_used::<Locator_t>(b, n, little) is Some) == (items(b, n, little) is Some),
        many_used::<Locator_t>(b, n, little) is Some ==> many_used::<Locator_t>(b, n, little).unwrap() == 24 * n
            && 24 * n <= b.len() && items(b, n, little).unwrap().len() == n,
        forall|v: Seq<Locator_t>| v.len() == n && items(b, n, little) is Some && #[trigger] many_are(v, b, little)
            ==> v == items(b, n, little).unwrap(),
    decreases n
{
    if n > 0 {
        let m = (n - 1) as nat;
        lists_of_locators(b, m, little);
        many_fit::<Locator_t>(b, n, little);
        if many_used::<Locator_t>(b, n, little) is Some || items(b, n, little) is Some {
            let i = 24 * (n - 1);
            assert(many_used::<Locator_t>(b, m, little).unwrap() == i);
            assert(b.len() >= i + 24);
            assert(b.skip(i).skip(4) =~= b.skip(i + 4));
            assert(b.skip(i).skip(8) =~= b.skip(i + 8));
            assert(b.skip(i).len() == b.len() - i);
            assert forall|v: Seq<Locator_t>| v.len() == n && items(b, n, little) is Some && #[trigger] many_are(v, b, little)
                implies v == items(b, n, little).unwrap() by {
                let w = v.take(m as int);
                assert(many_are(w, b, little)) by {
                    assert forall|k: int| 0 <= k < w.len() implies
                        (#[trigger] w[k]).is__(b.skip(many_used::<Locator_t>(b, k as nat, little).unwrap() as int), little)
                    by { assert(v[k] == w[k]); }
                }
                assert(w == items(b, m, little).unwrap());
                assert(v[m as int].is__(b.skip(i), little));
                assert(v =~= items(b, n, little).unwrap());
            }
        }
    }
}
impl<T: Item__> Buffers__ for Vec<T> {}
/// The contract the receiver is verified against: LocatorList_t::read_with_length_from_buffer_with_ctx
pub fn listed_locators<C: Context>(context: C, b: &[u8]) -> (r: (Result<Vec<Locator_t>, C::Error>, usize))
    ensures
        match r.0 {
            Ok(v) => list_of(b@, little_of__(context)) == Some(v@),
            Err(_) => list_of(b@, little_of__(context)) is None,
        },
        r.0 is Ok ==> r.1 == list_used(b@, little_of__(context)),
        r.1 <= b@.len(),
{
    reveal(list_of);
    reveal(list_used);
    proof {
        steady_locators();
        let little = little_of__(context);
        if b@.len() >= 4 {
            assert(b@.take(4).len() == 4);
            assert(u32_of(b@.take(4), little) == u32_of(b@, little));
            lists_of_locators(b@.skip(4), u32_of(b@, little) as nat, little);
        }
    }
    Vec::<Locator_t>::read_with_length_from_buffer_with_ctx(context, b)
}
