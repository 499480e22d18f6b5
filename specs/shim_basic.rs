pub open spec fn sh_eq<T>(a: T, b: T) -> bool { a == b }
#[derive(Debug)]
pub struct VerifErr { pub x: u8 }
pub type Result<T, E = VerifErr> = core::result::Result<T, E>;
#[verifier::external_body]
pub fn verif_anyhow() -> (r: VerifErr) { unimplemented!() }
#[derive(Debug)]
pub struct VerifString { pub x: u8 }
#[verifier::external_body]
pub fn verif_string() -> (r: VerifString) { unimplemented!() }
