// Unit: request queues and the client object (C03, C05).
//@include req_body.rs
verus! {
struct Call { x: u8 }
struct InMsg { x: u8 }
}
fn main() {}
