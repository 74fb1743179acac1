use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@include strings.inc.rs
//@include udf_base.inc.rs
//@include udf_mem.inc.rs
//@probe
proof fn probe_axioms() ensures false {}
//@probe
proof fn probe_trace(a: Seq<Ev>, b: Seq<Ev>, v: Value, w: Value) ensures !call_trace(a, b, "f"@, v, w) {}
//@probe
proof fn probe_payload(m: Seq<u8>, at: int) requires m.len() > 10, at == 3 ensures payload(m, at) is None {}
} // verus!
fn main() {}
