// Lists of locators: a count, and as many locators of 24 octets

pub open spec fn array16(b: Seq<u8>) -> [u8; 16] {
    [b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7], b[8], b[9], b[10], b[11], b[12], b[13], b[14], b[15]]
}
pub open spec fn kind_of(n: u32) -> Option<LocatorKind_t> {
    if n == 0xffff_ffff { Some(LocatorKind_t::LOCATOR_KIND_INVALID) }
    else if n == 0 { Some(LocatorKind_t::LOCATOR_KIND_RESERVED) }
    else if n == 1 { Some(LocatorKind_t::LOCATOR_KIND_UDPv4) }
    else if n == 2 { Some(LocatorKind_t::LOCATOR_KIND_UDPv6) }
    else { None }
}
/// The first `count` locators of b
pub open spec fn items(b: Seq<u8>, count: nat, little: bool) -> Option<Seq<Locator_t>>
    decreases count
{
    if count == 0 { Some(seq![]) } else {
        let i = 24 * (count - 1);
        match (items(b, (count - 1) as nat, little), kind_of(u32_of(b.skip(i), little))) {
            (Some(s), Some(kind)) if b.len() >= i + 24 => Some(s.push(Locator_t {
                kind: kind, port: u32_of(b.skip(i + 4), little), address: array16(b.skip(i + 8)) })),
            _ => None,
        }
    }
}
#[verifier::opaque]
pub open spec fn list_of(b: Seq<u8>, little: bool) -> Option<Seq<Locator_t>> {
    if b.len() < 4 { None } else { items(b.skip(4), u32_of(b, little) as nat, little) }
}
#[verifier::opaque]
pub open spec fn list_used(b: Seq<u8>, little: bool) -> int { 4 + 24 * u32_of(b, little) }
pub proof fn items_fit(b: Seq<u8>, count: nat, little: bool)
    ensures items(b, count, little) is Some ==> b.len() >= 24 * count
{}
