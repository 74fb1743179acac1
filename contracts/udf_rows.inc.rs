//@include udf_cols.inc.rs
// the parameters of one row: every column, in order, encoded for its declared type
pub open spec fn row_params(ts: Seq<CreateFunctionDataType>, cols: Seq<ArrayRef>, i: int, ps: Seq<Value>) -> bool {
    ps.len() == cols.len() && forall|c: int| 0 <= c < cols.len() ==> enc(ts[c], cols[c], i, #[trigger] ps[c])
}
pub open spec fn row_eval(tr: Seq<Ev>, f: Seq<char>, ts: Seq<CreateFunctionDataType>, cols: Seq<ArrayRef>, i: int, out: Value) -> bool {
    exists|ps: Vec<Value>| row_params(ts, cols, i, ps@) && #[trigger] call_at(tr, 4 * i, f, Value::Array(ps), out)
}
// the history holds exactly one call per row, in row order, and outs are their results
pub open spec fn evaluated(tr: Seq<Ev>, f: Seq<char>, ts: Seq<CreateFunctionDataType>, cols: Seq<ArrayRef>, outs: Seq<Value>) -> bool {
    tr.len() == 4 * outs.len() && forall|i: int| 0 <= i < outs.len() ==> row_eval(tr, f, ts, cols, i, #[trigger] outs[i])
}
proof fn lemma_step(t0: Seq<Ev>, t1: Seq<Ev>, f: Seq<char>, ts: Seq<CreateFunctionDataType>, cols: Seq<ArrayRef>, outs: Seq<Value>, ps: Vec<Value>, out: Value)
    requires evaluated(t0, f, ts, cols, outs), row_params(ts, cols, outs.len() as int, ps@), call_trace(t0, t1, f, Value::Array(ps), out),
    ensures evaluated(t1, f, ts, cols, outs.push(out)),
{
    let o = outs.push(out);
    assert forall|i: int| 0 <= i < o.len() implies row_eval(t1, f, ts, cols, i, #[trigger] o[i]) by {
        if i < outs.len() {
            assert(row_eval(t0, f, ts, cols, i, outs[i]));
            let q = choose|ps: Vec<Value>| row_params(ts, cols, i, ps@) && #[trigger] call_at(t0, 4 * i, f, Value::Array(ps), outs[i]);
            assert(t1.subrange(0, t0.len() as int) =~= t0);
            assert(t0[4 * i] == t1[4 * i] && t0[4 * i + 1] == t1[4 * i + 1] && t0[4 * i + 2] == t1[4 * i + 2] && t0[4 * i + 3] == t1[4 * i + 3]);
            assert(call_at(t1, 4 * i, f, Value::Array(q), o[i]));
        } else { assert(call_at(t1, 4 * i, f, Value::Array(ps), out)); }
    }
}
proof fn lemma_steps()
    ensures forall|t0: Seq<Ev>, t1: Seq<Ev>, f: Seq<char>, ts: Seq<CreateFunctionDataType>, cols: Seq<ArrayRef>, outs: Seq<Value>, ps: Vec<Value>, out: Value|
        #[trigger] evaluated(t0, f, ts, cols, outs) && row_params(ts, cols, outs.len() as int, ps@) && #[trigger] call_trace(t0, t1, f, Value::Array(ps), out) ==> evaluated(t1, f, ts, cols, outs.push(out)),
{
    assert forall|t0: Seq<Ev>, t1: Seq<Ev>, f: Seq<char>, ts: Seq<CreateFunctionDataType>, cols: Seq<ArrayRef>, outs: Seq<Value>, ps: Vec<Value>, out: Value|
        #[trigger] evaluated(t0, f, ts, cols, outs) && row_params(ts, cols, outs.len() as int, ps@) && #[trigger] call_trace(t0, t1, f, Value::Array(ps), out) implies evaluated(t1, f, ts, cols, outs.push(out)) by { lemma_step(t0, t1, f, ts, cols, outs, ps, out); }
}
//@extract src/wasm_udf/wasm.rs | fn make_scalar_function_wasm_messagepack @ inner | resmap
//@sig
fn inner(args: &[ColumnarValue], module_bytes: Vec<u8>, function_name: String, input_types: Vec<CreateFunctionDataType>, return_type: CreateFunctionDataType) -> Result<ColumnarValue>
//@attr
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
//@contract
    requires batch(args@),
    ensures args@.len() != input_types@.len() ==> r is Err,
        r is Ok ==> exists|cols: Seq<ArrayRef>, tr: Seq<Ev>, outs: Seq<Value>, arr: ArrayRef| #[trigger] aligned(args@, rows(args@), cols) && outs.len() == rows(args@) && #[trigger] evaluated(tr, function_name@, input_types@, cols, outs) && #[trigger] result_ok(return_type, outs, arr)
            && match r->Ok_0 { ColumnarValue::Array(a) => a == arr && args@.len() > 0, ColumnarValue::Scalar(s) => args@.len() == 0 && row_of(arr, 0, s) },
//@entry
    let ghost args0 = args@;
    proof { lemma_steps(); axiom_len(); }
//@loop 0
    invariant
        __it0.all().len() == array_len, forall|j: int| 0 <= j < array_len ==> (#[trigger] __it0.all()[j]) == j, 0 <= __it0.pos() <= array_len,
        wf(instance), instance.udf.name() == function_name@,
        encoded_results@.len() == __it0.pos(), evaluated(instance.store.trace(), function_name@, input_types@, args@, encoded_results@),
    ensures __it0.pos() == array_len,
    decreases array_len - __it0.pos(),
//@loop 1
    invariant
        __it1.all().len() == args@.len(), forall|j: int| 0 <= j < args@.len() ==> (#[trigger] __it1.all()[j]) == j, 0 <= __it1.pos() <= args@.len(),
        params@.len() == __it1.pos(), forall|c: int| 0 <= c < params@.len() ==> enc(input_types@[c], args@[c], row_ix as int, #[trigger] params@[c]),
    ensures __it1.pos() == args@.len(),
    decreases args@.len() - __it1.pos(),
//@end
