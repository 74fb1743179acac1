#[verifier::external_body]
pub fn rx_vec_repeat(x: u8, n: usize) -> (r: Vec<u8>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> r@[i] == x { unimplemented!() }
//@extract src/wasm_udf/wasm.rs | const SIZE_BYTE_COUNT
//@contract
    ensures SIZE_BYTE_COUNT == 4
//@end
// ---- a WASM instance: its linear memory and the history of calls into the guest (assumed contract of wasmtime)
// Call1(function, argument, result, memory before, memory after), Call2(function, arguments)
pub enum Ev { Call1(Seq<char>, i32, i32, Seq<u8>, Seq<u8>), Call2(Seq<char>, i32, i32) }
#[verifier::external_body]
pub struct Store { x: u64 }
impl Store {
    pub uninterp spec fn mem(&self) -> Seq<u8>;
    pub uninterp spec fn trace(&self) -> Seq<Ev>;
}
pub struct WasmErr { pub id: u64 }
#[verifier::external_body]
#[verifier::reject_recursive_types(P)]
#[verifier::reject_recursive_types(R)]
pub struct TypedFunc<P, R> { p: core::marker::PhantomData<(P, R)> }
impl<P, R> TypedFunc<P, R> { pub uninterp spec fn name(&self) -> Seq<char>; }
impl TypedFunc<i32, i32> {
    #[verifier::external_body]
    pub fn call(&self, store: &mut Store, a: i32) -> (r: core::result::Result<i32, WasmErr>)
        ensures r is Ok ==> final(store).trace() == old(store).trace().push(Ev::Call1(self.name(), a, r->Ok_0, old(store).mem(), final(store).mem())),
    { unimplemented!() }
}
impl TypedFunc<(i32, i32), ()> {
    #[verifier::external_body]
    pub fn call(&self, store: &mut Store, a: (i32, i32)) -> (r: core::result::Result<(), WasmErr>)
        ensures r is Ok ==> final(store).trace() == old(store).trace().push(Ev::Call2(self.name(), a.0, a.1)),
    { unimplemented!() }
}
#[verifier::external_body]
pub struct Memory { x: u64 }
pub open spec fn put(m: Seq<u8>, at: int, b: Seq<u8>) -> Seq<u8> { m.subrange(0, at) + b + m.subrange(at + b.len(), m.len() as int) }
impl Memory {
    #[verifier::external_body]
    pub fn write(&self, store: &mut Store, ptr: usize, b: &Vec<u8>) -> (r: core::result::Result<(), WasmErr>)
        ensures final(store).trace() == old(store).trace(),
            r is Ok <==> ptr + b@.len() <= old(store).mem().len(),
            final(store).mem() == if r is Ok { put(old(store).mem(), ptr as int, b@) } else { old(store).mem() },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read(&self, store: &Store, ptr: usize, b: &mut Vec<u8>) -> (r: core::result::Result<(), WasmErr>)
        ensures r is Ok <==> ptr + old(b)@.len() <= store.mem().len(),
            final(b)@.len() == old(b)@.len(), r is Ok ==> final(b)@ == store.mem().subrange(ptr as int, ptr + old(b)@.len()),
    { unimplemented!() }
}
// ---- MessagePack (assumed contract of rmp_serde)
pub uninterp spec fn ser(v: Value) -> Seq<u8>;
pub uninterp spec fn de(b: Seq<u8>) -> Option<Value>;
#[verifier::external_body]
pub fn rx_serialize(v: &Value, out: &mut Vec<u8>) -> (r: core::result::Result<(), WasmErr>) ensures r is Ok ==> final(out)@ == old(out)@ + ser(*v), final(out)@.len() <= isize::MAX { unimplemented!() }
pub mod rmp_serde {
    use vstd::prelude::*;
    use super::*;
    #[verifier::external_body]
    pub fn from_slice(b: &Vec<u8>) -> (r: core::result::Result<Value, WasmErr>) ensures match de(b@) { Some(v) => r == Ok::<Value, WasmErr>(v), None => r is Err } { unimplemented!() }
}
// little-endian 32-bit integers, the byte order of WASM
pub open spec fn le(b: Seq<u8>) -> int { b[0] as int + 0x100 * b[1] as int + 0x1_0000 * b[2] as int + 0x100_0000 * b[3] as int }
pub open spec fn sle(b: Seq<u8>) -> int { if le(b) < 0x8000_0000 { le(b) } else { le(b) - 0x1_0000_0000 } }
#[verifier::external_body]
pub fn rx_le_bytes(x: &u32) -> (r: Vec<u8>) ensures r@.len() == 4, le(r@) == *x as int { unimplemented!() }
#[verifier::external_body]
pub fn rx_i32_from_le(b: Vec<u8>) -> (r: i32) requires b@.len() == 4, ensures r as int == sle(b@) { unimplemented!() }
// an address in linear memory
pub open spec fn addr(p: i32) -> int { if p < 0 { p + 0x1_0000_0000 } else { p as int } }
proof fn lemma_addr(p: i32) ensures (p as u32) as int == addr(p) { if p < 0 { assert(p < 0 ==> (p as u32) as i64 == add(p as i64, 0x1_0000_0000i64)) by (bit_vector); } }
//@extract src/wasm_udf/wasm.rs | struct WasmMessagePackUDFInstance
//@types
Store<WasiCtx> => Store
//@end
// which export each function value stands for
pub open spec fn wf(s: WasmMessagePackUDFInstance) -> bool { s.alloc.name() == "alloc"@ && s.dealloc.name() == "dealloc"@ }
// a framed value in memory: 4-byte little-endian length, then exactly that many payload bytes
pub open spec fn payload(m: Seq<u8>, at: int) -> Option<Seq<u8>> {
    if 0 <= at && at + 4 <= m.len() && at + 4 + le(m.subrange(at, at + 4)) <= m.len() { Some(m.subrange(at + 4, at + 4 + le(m.subrange(at, at + 4)))) } else { None }
}
// the history gained one allocation of exactly the frame's size, and the frame, and only the frame, was written there
pub open spec fn wrote(t0: Seq<Ev>, s: Store, v: Value, p: i32, n: i32) -> bool {
    n as int == 4 + ser(v).len() && payload(s.mem(), addr(p)) == Some(ser(v))
    && s.trace().len() == t0.len() + 1 && s.trace().subrange(0, t0.len() as int) =~= t0
    && ({ let e = s.trace().last(); e is Call1 && e->Call1_0 == "alloc"@ && e->Call1_1 == n && e->Call1_2 == p && only(e->Call1_4, s.mem(), addr(p), n as int) })
}
// nothing outside [at, at+n) differs
pub open spec fn only(a: Seq<u8>, b: Seq<u8>, at: int, n: int) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() && !(at <= i < at + n) ==> #[trigger] a[i] == b[i] }
// what one evaluation of the UDF adds to the history: an allocation of the input frame, the call on it (which finds
// exactly that frame there, and nothing else changed), then the release of exactly the two buffers with their sizes
pub open spec fn call_trace(t0: Seq<Ev>, t1: Seq<Ev>, f: Seq<char>, args: Value, out: Value) -> bool {
    t1.len() == t0.len() + 4 && t1.subrange(0, t0.len() as int) =~= t0 && call_at(t1, t0.len() as int, f, args, out)
}
pub open spec fn call_at(t1: Seq<Ev>, n: int, f: Seq<char>, args: Value, out: Value) -> bool {
    &&& t1[n] is Call1 && t1[n]->Call1_0 == "alloc"@ && t1[n + 1] is Call1 && t1[n + 1]->Call1_0 == f
    &&& { let (size, p, a0) = (t1[n]->Call1_1, t1[n]->Call1_2, t1[n]->Call1_4);
          let (arg, q, m0, m1) = (t1[n + 1]->Call1_1, t1[n + 1]->Call1_2, t1[n + 1]->Call1_3, t1[n + 1]->Call1_4);
          let (d1, d2) = (Ev::Call2("dealloc"@, p, size), Ev::Call2("dealloc"@, q, (4 + payload(m1, addr(q))->0.len()) as i32));
          &&& size == 4 + ser(args).len() && arg == p
          &&& payload(m0, addr(p)) == Some(ser(args)) && only(a0, m0, addr(p), size as int)
          &&& payload(m1, addr(q)) is Some && de(payload(m1, addr(q))->0) == Some(out)
          &&& 4 + payload(m1, addr(q))->0.len() <= 0x7fff_ffff
          &&& (t1[n + 2] == d1 && t1[n + 3] == d2) || (t1[n + 2] == d2 && t1[n + 3] == d1) }
}
proof fn lemma_frame(m0: Seq<u8>, at: int, pre: Seq<u8>, body: Seq<u8>)
    requires 0 <= at, pre.len() == 4, at + 4 + body.len() <= m0.len(), le(pre) == body.len(),
    ensures ({ let m = put(put(m0, at, pre), at + 4, body); payload(m, at) == Some(body) && only(m0, m, at, (4 + body.len()) as int) }),
{
    let m = put(put(m0, at, pre), at + 4, body);
    assert(m.subrange(at, at + 4) =~= pre);
    assert(m.subrange(at + 4, at + 4 + body.len()) =~= body);
}
// ---- instantiating a module (assumed contract of wasmtime: an export is found under exactly the name asked for)
#[verifier::external_body]
pub struct Engine { x: u64 }
impl Engine { #[verifier::external_body] pub fn default() -> Engine { unimplemented!() } }
#[verifier::external_body]
pub struct Module { x: u64 }
impl Module { #[verifier::external_body] pub fn from_binary(e: &Engine, b: &[u8]) -> core::result::Result<Module, WasmErr> { unimplemented!() } }
#[verifier::external_body]
pub struct WasiCtx { x: u64 }
#[verifier::external_body]
pub struct WasiCtxBuilder { x: u64 }
impl WasiCtxBuilder {
    #[verifier::external_body] pub fn new() -> WasiCtxBuilder { unimplemented!() }
    #[verifier::external_body] pub fn inherit_stderr(self) -> WasiCtxBuilder { unimplemented!() }
    #[verifier::external_body] pub fn build(self) -> WasiCtx { unimplemented!() }
}
#[verifier::external_body]
pub struct Linker { x: u64 }
#[verifier::external_body]
pub struct Instance { x: u64 }
impl Linker {
    #[verifier::external_body] pub fn new(e: &Engine) -> Linker { unimplemented!() }
    #[verifier::external_body] pub fn instantiate(&self, s: &mut Store, m: &Module) -> (r: core::result::Result<Instance, WasmErr>) ensures final(s).trace() == old(s).trace() { unimplemented!() }
}
pub mod wasmtime { pub use super::Linker; }
#[verifier::external_body]
pub fn add_to_linker<F: FnOnce(u64) -> u64>(l: &mut Linker, f: F) -> core::result::Result<(), WasmErr> { unimplemented!() }
impl Store { #[verifier::external_body] pub fn new(e: &Engine, c: WasiCtx) -> (r: Store) ensures r.trace() == Seq::<Ev>::empty() { unimplemented!() } }
impl Instance {
    #[verifier::external_body] pub fn get_typed_func<P, R>(&self, s: &mut Store, n: &str) -> (r: core::result::Result<TypedFunc<P, R>, WasmErr>) ensures final(s).trace() == old(s).trace(), r is Ok ==> r->Ok_0.name() == n@ { unimplemented!() }
    #[verifier::external_body] pub fn get_memory(&self, s: &mut Store, n: &str) -> (r: Option<Memory>) ensures final(s).trace() == old(s).trace() { unimplemented!() }
}
//@extract src/wasm_udf/wasm.rs | fn get_wasm_module_exported_fn
//@types
Store<WasiCtx> => Store
//@generics
<Params, Results>
//@contract
    ensures final(store).trace() == old(store).trace(), r is Ok ==> r->Ok_0.name() == export_name@,
//@end
impl WasmMessagePackUDFInstance {
//@extract src/wasm_udf/wasm.rs | impl WasmMessagePackUDFInstance :: new
//@contract
    ensures r is Ok ==> wf(r->Ok_0) && r->Ok_0.udf.name() == function_name@ && r->Ok_0.store.trace() == Seq::<Ev>::empty(),
//@end
//@extract src/wasm_udf/wasm.rs | impl WasmMessagePackUDFInstance :: read_udf_output | truncate arrvec
//@methods
as_mut_slice/0 => REFMUT
as_ref/0 => REF
//@calls
i32::from_le_bytes => rx_i32_from_le
//@contract
    ensures *final(self) == *old(self),
        ({ let b = payload(old(self).store.mem(), addr(udf_output_ptr)); let ok = b is Some && de(b->0) is Some && 4 + b->0.len() <= 0x7fff_ffff;
           (r is Ok <==> ok) && (ok ==> Some(r->Ok_0.0) == de(b->0) && r->Ok_0.1 as int == 4 + b->0.len()) }),
//@entry
    proof { lemma_addr(udf_output_ptr); }
    let ghost m = self.store.mem(); let ghost at = addr(udf_output_ptr);
//@end
//@extract src/wasm_udf/wasm.rs | impl WasmMessagePackUDFInstance :: write_udf_input | truncate arrvec
//@methods
as_ref/0 => REF
serialize/1 => rx_serialize
to_le_bytes/0 => rx_le_bytes
//@calls
Serializer::new => ARG0
//@contract
    requires wf(*old(self)),
    ensures final(self).alloc == old(self).alloc, final(self).udf == old(self).udf, final(self).dealloc == old(self).dealloc, final(self).memory == old(self).memory,
        r is Ok ==> wrote(old(self).store.trace(), final(self).store, *input, r->Ok_0.0, r->Ok_0.1),
//@entry
    proof { assert forall|p: i32| #[trigger] (p as u32) as int == addr(p) by { lemma_addr(p); }
        assert forall|m0: Seq<u8>, at: int, pre: Seq<u8>, body: Seq<u8>| 0 <= at && pre.len() == 4 && at + 4 + body.len() <= m0.len() && le(pre) == body.len() implies ({ let m = #[trigger] put(put(m0, at, pre), at + 4, body); payload(m, at) == Some(body) && only(m0, m, at, (4 + body.len()) as int) }) by { lemma_frame(m0, at, pre, body); } }
//@end
//@extract src/wasm_udf/wasm.rs | impl WasmMessagePackUDFInstance :: call
//@contract
    requires wf(*old(self)),
    ensures wf(*final(self)), final(self).udf == old(self).udf,
        r is Ok ==> call_trace(old(self).store.trace(), final(self).store.trace(), old(self).udf.name(), Value::Array(input), r->Ok_0),
//@end
}
