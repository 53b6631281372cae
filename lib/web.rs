// The web, as far as a download sees it.  TRUSTED (reqwest).
// what a successful request for an address yields: releases do not change
pub uninterp spec fn release(u: Seq<char>) -> Option<Seq<u8>>;
pub mod reqwest { use super::*;
  #[verifier::external_body] pub struct Response { x: u8 }
  pub uninterp spec fn asked(r: Response) -> Seq<char>;
  pub uninterp spec fn good(r: Response) -> bool;
  pub struct StatusCode { pub good: bool }
  impl StatusCode { pub fn is_success(&self) -> (b: bool) ensures b == self.good { self.good } }
  #[verifier::external_body] pub fn get(u: &String) -> (r: Result<Response>) ensures r matches Ok(x) ==> asked(x) == u@ { unimplemented!() }
  impl Response {
    #[verifier::external_body] pub fn status(&self) -> (r: StatusCode) ensures r.good == good(*self) { unimplemented!() }
    #[verifier::external_body] pub fn bytes(self) -> (r: Result<Bytes>) ensures r matches Ok(b) ==> good(self) ==> release(asked(self)) == Some(bytes(b)) { unimplemented!() }
  }
}
