pub mod fs { use super::*; #[verifier::external_body] pub fn read<P: AsRef<Path>>(p: P) -> (r: Result<Vec<u8>>) ensures r is Ok <==> content(p) is Some, r matches Ok(b) ==> content(p) == Some(b@) { unimplemented!() } }
