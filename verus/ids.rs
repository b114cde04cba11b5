//@ include std_model.rs
/// SequenceNumber_t is a newtype of i64 whose order, equality and conversions are the integers' (C12)
pub type SequenceNumber_t = i64;
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub struct ChangeKind_t { pub _k: u8 }
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub struct GUID_t { pub _g: u128 }
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub struct InstanceHandle_t { pub _h: u128 }
#[derive(PartialEq, Eq, Structural)]
pub struct Data {}
