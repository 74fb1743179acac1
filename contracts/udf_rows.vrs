use vstd::prelude::*;
use std::sync::Arc;
verus! {
global size_of usize == 8;
//@include strings.inc.rs
//@include iter.inc.rs
//@include udf_base.inc.rs
//@include udf_codec.inc.rs
//@include udf_mem.inc.rs
//@include udf_rows.inc.rs
//@probe
proof fn probe_axioms() ensures false { lemma_halves(); axiom_len(); }
//@probe
proof fn probe_rows(tr: Seq<Ev>, f: Seq<char>, ts: Seq<CreateFunctionDataType>, cols: Seq<ArrayRef>, outs: Seq<Value>) requires outs.len() > 0 ensures !evaluated(tr, f, ts, cols, outs) {}
} // verus!
fn main() {}
