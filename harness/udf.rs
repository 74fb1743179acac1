// Replay for C06 (values), C07 (guest memory), C08 (types), C09 (rows): guest modules written in WAT, driven through
// the public constructor create_udf_from_wasm and DataFusion's invoke_batch.
include!("common.rs");
use common::*;
#[allow(dead_code, unused_imports)]
pub mod wasm_udf {
    #[path = "/repo/src/wasm_udf/data_types.rs"]
    pub mod data_types;
    #[path = "/repo/src/wasm_udf/wasm.rs"]
    pub mod wasm;
}
use arrow::array::*;
use arrow::datatypes::*;
use datafusion::common::ScalarValue;
use datafusion_expr::{ColumnarValue, ScalarUDF, Volatility};
use rmpv::Value;
use std::sync::Arc;
use wasm_udf::data_types::CreateFunctionDataType as T;
use wasm_udf::data_types::*;
use wasm_udf::wasm::create_udf_from_wasm;

fn arrow_of(t: &T) -> DataType {
    match t {
        T::I32 | T::INT => DataType::Int32, T::I64 | T::BIGINT => DataType::Int64, T::F32 | T::FLOAT | T::REAL => DataType::Float32, T::F64 | T::DOUBLE => DataType::Float64,
        T::SMALLINT => DataType::Int16, T::CHAR | T::VARCHAR | T::TEXT => DataType::Utf8, T::DECIMAL { precision, scale } => DataType::Decimal128(*precision, *scale),
        T::BOOLEAN => DataType::Boolean, T::DATE => DataType::Date32, T::TIMESTAMP => DataType::Timestamp(TimeUnit::Nanosecond, None),
    }
}
fn all_types() -> Vec<T> {
    let mut v = vec![T::I32, T::I64, T::F32, T::F64, T::SMALLINT, T::INT, T::BIGINT, T::CHAR, T::VARCHAR, T::TEXT, T::FLOAT, T::REAL, T::DOUBLE, T::BOOLEAN, T::DATE, T::TIMESTAMP];
    for (p, s) in [(38, 0), (38, 10), (18, 2), (5, 5), (1, 0), (20, 3), (19, 0), (10, 4)] { v.push(T::DECIMAL { precision: p, scale: s }); }
    v
}
fn wat(s: &str) -> Vec<u8> { match wat::parse_str(s) { Ok(b) => b, Err(e) => { eprintln!("VERIF-HARNESS wat: {e}"); std::process::exit(3) } } }
// the guest hands the whole input payload back as a hex string
fn hexdump() -> Vec<u8> { wat(r#"(module (memory (export "memory") 80)
 (func $hex (param i32) (result i32) (if (result i32) (i32.lt_u (local.get 0) (i32.const 10)) (then (i32.add (local.get 0) (i32.const 48))) (else (i32.add (local.get 0) (i32.const 87)))))
 (func $be (param $at i32) (param $v i32)
  (i32.store8 (local.get $at) (i32.shr_u (local.get $v) (i32.const 24))) (i32.store8 offset=1 (local.get $at) (i32.shr_u (local.get $v) (i32.const 16)))
  (i32.store8 offset=2 (local.get $at) (i32.shr_u (local.get $v) (i32.const 8))) (i32.store8 offset=3 (local.get $at) (local.get $v)))
 (func (export "alloc") (param i32) (result i32) (i32.const 4096))
 (func (export "dealloc") (param i32 i32))
 (func (export "f") (param $p i32) (result i32) (local $n i32) (local $i i32) (local $b i32)
  (local.set $n (i32.load (local.get $p)))
  (i32.store (i32.const 2000000) (i32.add (i32.mul (local.get $n) (i32.const 2)) (i32.const 5)))
  (i32.store8 (i32.const 2000004) (i32.const 0xdb)) (call $be (i32.const 2000005) (i32.mul (local.get $n) (i32.const 2)))
  (block $o (loop $l (br_if $o (i32.ge_u (local.get $i) (local.get $n)))
   (local.set $b (i32.load8_u (i32.add (i32.add (local.get $p) (i32.const 4)) (local.get $i))))
   (i32.store8 (i32.add (i32.const 2000009) (i32.mul (local.get $i) (i32.const 2))) (call $hex (i32.shr_u (local.get $b) (i32.const 4))))
   (i32.store8 (i32.add (i32.const 2000010) (i32.mul (local.get $i) (i32.const 2))) (call $hex (i32.and (local.get $b) (i32.const 15))))
   (local.set $i (i32.add (local.get $i) (i32.const 1))) (br $l)))
  (i32.const 2000000)))"#) }
// the guest returns its single argument unchanged (the payload without the array header)
fn echo() -> Vec<u8> { wat(r#"(module (memory (export "memory") 80)
 (func (export "alloc") (param i32) (result i32) (i32.const 4096))
 (func (export "dealloc") (param i32 i32))
 (func (export "f") (param $p i32) (result i32)
  (i32.store (i32.const 2000000) (i32.sub (i32.load (local.get $p)) (i32.const 1)))
  (memory.copy (i32.const 2000004) (i32.add (local.get $p) (i32.const 5)) (i32.sub (i32.load (local.get $p)) (i32.const 1)))
  (i32.const 2000000)))"#) }
// the guest decodes its single string argument from hex and returns these bytes as its output frame (length prefix included)
fn unhex() -> Vec<u8> { wat(r#"(module (memory (export "memory") 80)
 (func $d (param i32) (result i32) (if (result i32) (i32.lt_u (local.get 0) (i32.const 58)) (then (i32.sub (local.get 0) (i32.const 48))) (else (i32.sub (local.get 0) (i32.const 87)))))
 (func (export "alloc") (param i32) (result i32) (i32.const 4096))
 (func (export "dealloc") (param i32 i32))
 (func (export "f") (param $p i32) (result i32) (local $n i32) (local $i i32) (local $h i32) (local $s i32)
  (local.set $h (i32.load8_u offset=5 (local.get $p)))
  ;; fixstr, str8, str16, str32 headers
  (if (i32.lt_u (local.get $h) (i32.const 0xc0)) (then (local.set $n (i32.and (local.get $h) (i32.const 31))) (local.set $s (i32.const 6))) (else
   (if (i32.eq (local.get $h) (i32.const 0xd9)) (then (local.set $n (i32.load8_u offset=6 (local.get $p))) (local.set $s (i32.const 7))) (else
    (local.set $n (i32.or (i32.shl (i32.load8_u offset=6 (local.get $p)) (i32.const 8)) (i32.load8_u offset=7 (local.get $p)))) (local.set $s (i32.const 8))))))
  (local.set $n (i32.shr_u (local.get $n) (i32.const 1))) (local.set $s (i32.add (local.get $s) (local.get $p)))
  (block $o (loop $l (br_if $o (i32.ge_u (local.get $i) (local.get $n)))
   (i32.store8 (i32.add (i32.const 2000000) (local.get $i)) (i32.or (i32.shl (call $d (i32.load8_u (i32.add (local.get $s) (i32.mul (local.get $i) (i32.const 2))))) (i32.const 4)) (call $d (i32.load8_u offset=1 (i32.add (local.get $s) (i32.mul (local.get $i) (i32.const 2)))))))
   (local.set $i (i32.add (local.get $i) (i32.const 1))) (br $l)))
  (i32.const 2000000)))"#) }
// the guest checks its own memory: see FLAGS
const FLAGS: &[(u64, &str)] = &[(1, "more than one allocation for one call"), (2, "called with a pointer that is not the allocated one"), (4, "length prefix is not the allocated size minus 4"), (8, "bytes below the frame overwritten"), (16, "bytes above the frame overwritten"), (32, "the previous row's two buffers were not released exactly once each with their own sizes"), (64, "payload is not the encoded argument")];
fn report(inb: u32, outb: u32, pages: u32, step: u32) -> Vec<u8> { wat(&format!(r#"(module (memory (export "memory") {pages})
 (global $an (mut i32) (i32.const 0)) (global $ap (mut i32) (i32.const 0)) (global $ac (mut i32) (i32.const 0)) (global $row (mut i32) (i32.const 0))
 (global $si (mut i32) (i32.const 0)) (global $so (mut i32) (i32.const 0)) (global $bad (mut i32) (i32.const 0)) (global $fl (mut i32) (i32.const 0))
 (func (export "alloc") (param $n i32) (result i32) (local $p i32)
  (local.set $p (i32.add (i32.const {inb}) (i32.mul (global.get $row) (i32.const {step}))))
  (memory.fill (i32.sub (local.get $p) (i32.const 16)) (i32.const 0xAA) (i32.add (local.get $n) (i32.const 32)))
  (global.set $an (local.get $n)) (global.set $ap (local.get $p)) (global.set $ac (i32.add (global.get $ac) (i32.const 1)))
  ;; the releases counted so far belong to the previous row
  (if (i32.and (i32.gt_u (global.get $row) (i32.const 0)) (i32.or (i32.or (i32.ne (global.get $si) (i32.const 1)) (i32.ne (global.get $so) (i32.const 1))) (i32.ne (global.get $bad) (i32.const 0)))) (then (global.set $fl (i32.or (global.get $fl) (i32.const 32)))))
  (global.set $si (i32.const 0)) (global.set $so (i32.const 0)) (global.set $bad (i32.const 0))
  (local.get $p))
 (func (export "dealloc") (param $p i32) (param $s i32)
  (if (i32.and (i32.eq (local.get $p) (global.get $ap)) (i32.eq (local.get $s) (global.get $an))) (then (global.set $si (i32.add (global.get $si) (i32.const 1)))) (else
   (if (i32.and (i32.eq (local.get $p) (i32.const {outb})) (i32.eq (local.get $s) (i32.const 13))) (then (global.set $so (i32.add (global.get $so) (i32.const 1)))) (else
    (global.set $bad (i32.const 1)))))))
 (func (export "f") (param $p i32) (result i32) (local $i i32)
  (if (i32.ne (global.get $ac) (i32.const 1)) (then (global.set $fl (i32.or (global.get $fl) (i32.const 1)))))
  (if (i32.ne (local.get $p) (global.get $ap)) (then (global.set $fl (i32.or (global.get $fl) (i32.const 2)))))
  (if (i32.ne (i32.load (local.get $p)) (i32.sub (global.get $an) (i32.const 4))) (then (global.set $fl (i32.or (global.get $fl) (i32.const 4)))))
  (if (i32.ne (i32.load8_u offset=4 (local.get $p)) (i32.const 0x91)) (then (global.set $fl (i32.or (global.get $fl) (i32.const 64)))))
  (loop $l
   (if (i32.ne (i32.load8_u (i32.sub (i32.sub (local.get $p) (i32.const 1)) (local.get $i))) (i32.const 0xAA)) (then (global.set $fl (i32.or (global.get $fl) (i32.const 8)))))
   (if (i32.ne (i32.load8_u (i32.add (i32.add (local.get $p) (global.get $an)) (local.get $i))) (i32.const 0xAA)) (then (global.set $fl (i32.or (global.get $fl) (i32.const 16)))))
   (local.set $i (i32.add (local.get $i) (i32.const 1))) (br_if $l (i32.lt_u (local.get $i) (i32.const 16))))
  (global.set $ac (i32.const 0)) (global.set $row (i32.add (global.get $row) (i32.const 1)))
  (i32.store (i32.const {outb}) (i32.const 9)) (i32.store8 offset=4 (i32.const {outb}) (i32.const 0xd3)) (i64.store offset=5 (i32.const {outb}) (i64.const 0)) (i32.store8 offset=12 (i32.const {outb}) (global.get $fl))
  (i32.const {outb})))"#, inb = inb as i32, outb = outb as i32)) }
// fixed answers: where the input goes, where the output frame is, and its bytes
fn fixed(inb: u32, outp: u32, pages: u32, data_at: u32, data: &[u8]) -> Vec<u8> {
    let d: String = data.iter().map(|b| format!("\\{b:02x}")).collect();
    wat(&format!(r#"(module (memory (export "memory") {pages}) (data (i32.const {at}) "{d}")
 (func (export "alloc") (param i32) (result i32) (i32.const {inb})) (func (export "dealloc") (param i32 i32)) (func (export "f") (param i32) (result i32) (i32.const {outp})))"#, at = data_at as i32, inb = inb as i32, outp = outp as i32))
}
fn mk(lang: CreateFunctionLanguage, m: &[u8], ins: &[T], out: &T) -> Result<ScalarUDF, String> {
    match guard(|| create_udf_from_wasm(&lang, "u", m, "f", &ins.to_vec(), out, Volatility::Immutable)) { Err(p) => Err(format!("PANIC {p}")), Ok(Err(e)) => Err(e.to_string()), Ok(Ok(u)) => Ok(u) }
}
fn run(u: &ScalarUDF, args: &[ColumnarValue], n: usize) -> Result<ColumnarValue, String> {
    match guard(|| u.invoke_batch(args, n)) { Err(p) => Err(format!("PANIC {p}")), Ok(Err(e)) => Err(e.to_string()), Ok(Ok(u)) => Ok(u) }
}
fn array(c: ColumnarValue) -> ArrayRef { match c { ColumnarValue::Array(a) => a, ColumnarValue::Scalar(s) => s.to_array().unwrap() } }
const MP: CreateFunctionLanguage = CreateFunctionLanguage::WasmMessagePack;
const NAT: CreateFunctionLanguage = CreateFunctionLanguage::Wasm;
fn at(s: &str) { if let Ok(p) = std::env::var("VERIF_AT") { let _ = std::fs::write(p, s); } }

// ---- values of every type
fn pow10(p: u8) -> i128 { 10i128.pow(p as u32) }
fn ints(r: &mut Rng, lo: i64, hi: i64, n: usize) -> Vec<i64> {
    let mut v = vec![0, 1, -1, lo, hi, lo + 1, hi - 1];
    for b in [5u32, 7, 8, 15, 16, 31, 32, 33, 63] { for d in [-1i128, 0, 1] { for s in [1i128, -1] { let x = s * ((1i128 << b) + d); if x >= lo as i128 && x <= hi as i128 { v.push(x as i64); } } } }
    for _ in 0..n { let sh = r.below(64); v.push(((r.next() as i64) >> sh).clamp(lo, hi)); }
    v
}
fn decs(r: &mut Rng, p: u8, n: usize) -> Vec<i128> {
    let m = pow10(p) - 1;
    let mut v = vec![0, 1, -1, m, -m];
    for b in [31u32, 32, 63, 64, 65, 95, 126] { for d in [-1i128, 0, 1] { for s in [1i128, -1] { let x = s.wrapping_mul((1i128 << b) + d); if x >= -m && x <= m { v.push(x); } } } }
    for _ in 0..n { let x = (((r.next() as i128) << 64) | r.next() as i128) >> r.below(127); if x >= -m && x <= m { v.push(x); } else { v.push(x % (m + 1)); } }
    v
}
fn column(t: &T, r: &mut Rng, n: usize) -> ArrayRef {
    match t {
        T::SMALLINT => Arc::new(Int16Array::from_iter_values(ints(r, i16::MIN as i64, i16::MAX as i64, n).into_iter().map(|x| x as i16))),
        T::I32 | T::INT => Arc::new(Int32Array::from_iter_values(ints(r, i32::MIN as i64, i32::MAX as i64, n).into_iter().map(|x| x as i32))),
        T::DATE => Arc::new(Date32Array::from_iter_values(ints(r, i32::MIN as i64, i32::MAX as i64, n).into_iter().map(|x| x as i32))),
        T::I64 | T::BIGINT => Arc::new(Int64Array::from_iter_values(ints(r, i64::MIN, i64::MAX, n))),
        T::TIMESTAMP => Arc::new(TimestampNanosecondArray::from_iter_values(ints(r, i64::MIN, i64::MAX, n))),
        T::F32 | T::FLOAT | T::REAL => { let mut v = vec![0f32, -0.0, 1.5, -1.5, f32::MAX, f32::MIN, f32::MIN_POSITIVE, f32::INFINITY, f32::NEG_INFINITY, 0.1, 16777217.0]; for _ in 0..n { let x = f32::from_bits(r.next() as u32); if !x.is_nan() { v.push(x); } } Arc::new(Float32Array::from(v)) }
        T::F64 | T::DOUBLE => { let mut v = vec![0f64, -0.0, 1.5, -1.5, f64::MAX, f64::MIN, f64::MIN_POSITIVE, f64::INFINITY, f64::NEG_INFINITY, 0.1, 9007199254740993.0]; for _ in 0..n { let x = f64::from_bits(r.next()); if !x.is_nan() { v.push(x); } } Arc::new(Float64Array::from(v)) }
        T::CHAR | T::VARCHAR | T::TEXT => { let ab: Vec<char> = "aZ0 \u{0}\u{7f}é漢🎉'\"\\".chars().collect(); let mut v: Vec<String> = vec!["".into(), "a".into(), "x".repeat(31), "x".repeat(32), "é".repeat(128), "y".repeat(255), "y".repeat(256), "z".repeat(65535), "z".repeat(65536)]; for _ in 0..n { v.push(r.string(&ab, 40)); } Arc::new(StringArray::from(v)) }
        T::BOOLEAN => { let mut v = vec![true, false]; for _ in 0..n { v.push(r.chance(50)); } Arc::new(BooleanArray::from(v)) }
        T::DECIMAL { precision, scale } => Arc::new(Decimal128Array::from_iter_values(decs(r, *precision, n)).with_precision_and_scale(*precision, *scale).unwrap()),
    }
}
// the documented wire form of one value
fn wire(t: &T, a: &ArrayRef, i: usize) -> Value {
    match t {
        T::SMALLINT => Value::from(a.as_primitive::<Int16Type>().value(i)),
        T::I32 | T::INT => Value::from(a.as_primitive::<Int32Type>().value(i)),
        T::DATE => Value::from(a.as_primitive::<Date32Type>().value(i)),
        T::I64 | T::BIGINT => Value::from(a.as_primitive::<Int64Type>().value(i)),
        T::TIMESTAMP => Value::from(a.as_primitive::<TimestampNanosecondType>().value(i)),
        T::F32 | T::FLOAT | T::REAL => Value::F32(a.as_primitive::<Float32Type>().value(i)),
        T::F64 | T::DOUBLE => Value::F64(a.as_primitive::<Float64Type>().value(i)),
        T::CHAR | T::VARCHAR | T::TEXT => Value::from(a.as_string::<i32>().value(i)),
        T::BOOLEAN => Value::Boolean(a.as_boolean().value(i)),
        T::DECIMAL { precision, scale } => { let v = a.as_primitive::<Decimal128Type>().value(i); let b = v.to_be_bytes(); Value::Array(vec![Value::from(*precision), Value::from(*scale), Value::from(i64::from_be_bytes(b[..8].try_into().unwrap())), Value::from(i64::from_be_bytes(b[8..].try_into().unwrap()))]) }
    }
}
fn bytes(v: &Value) -> Vec<u8> { let mut o = vec![]; rmpv::encode::write_value(&mut o, v).unwrap(); o }
fn hexs(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect() }
fn unhexs(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap_or(0)).collect() }
fn short(s: &str) -> String { if s.len() > 200 { format!("{}..({} chars)", s.chars().take(180).collect::<String>(), s.len()) } else { s.into() } }
fn same(a: &ArrayRef, b: &ArrayRef) -> Option<usize> {
    // arrays equal including type; floats by bits
    if a.data_type() != b.data_type() || a.len() != b.len() { return Some(usize::MAX); }
    (0..a.len()).find(|&i| {
        if a.is_null(i) || b.is_null(i) { return a.is_null(i) != b.is_null(i); }
        match a.data_type() {
            DataType::Float32 => a.as_primitive::<Float32Type>().value(i).to_bits() != b.as_primitive::<Float32Type>().value(i).to_bits(),
            DataType::Float64 => a.as_primitive::<Float64Type>().value(i).to_bits() != b.as_primitive::<Float64Type>().value(i).to_bits(),
            _ => a.slice(i, 1).as_ref() != b.slice(i, 1).as_ref(),
        }
    })
}
fn show(a: &ArrayRef, i: usize) -> String { if i >= a.len() { format!("{:?} x{}", a.data_type(), a.len()) } else { short(&format!("{:?}", ScalarValue::try_from_array(a, i))) } }

fn c06() {
    let mut r = Rng::new(seed());
    let n = if thorough() { 2000 } else { 60 };
    // out: every value of every type reaches the guest in its wire form
    for t in all_types() {
        at(&format!("encode {t:?}"));
        let col = column(&t, &mut r, n);
        let u = match mk(MP, &hexdump(), &[t.clone()], &T::TEXT) { Ok(u) => u, Err(e) => { violation("create", &format!("{t:?}"), "a function", &e); continue } };
        // (large strings are sent one by one)
        match run(&u, &[ColumnarValue::Array(col.clone())], col.len()) {
            Err(e) => violation("encode", &format!("{t:?}: {} values", col.len()), "a result", &short(&e)),
            Ok(c) => { let got = array(c); let g = got.as_string::<i32>();
                if g.len() != col.len() { violation("encode", &format!("{t:?}"), &format!("{} rows", col.len()), &format!("{} rows", g.len())); continue; }
                for i in 0..col.len() { case(); let w = Value::Array(vec![wire(&t, &col, i)]);
                    let b = unhexs(g.value(i)); let v = rmpv::decode::read_value(&mut &b[..]);
                    if !matches!(&v, Ok(x) if *x == w) { violation("encode", &format!("{t:?} {}", show(&col, i)), &short(&format!("{w:?}")), &short(&format!("{v:?}"))); break; } } }
        }
        // and back unchanged
        at(&format!("round trip {t:?}"));
        let u = match mk(MP, &echo(), &[t.clone()], &t) { Ok(u) => u, Err(e) => { violation("create", &format!("{t:?}"), "a function", &e); continue } };
        match run(&u, &[ColumnarValue::Array(col.clone())], col.len()) {
            Err(e) => violation("round-trip", &format!("{t:?}: identity over {} values", col.len()), "the same values", &short(&e)),
            Ok(c) => { let got = array(c); cases(col.len() as u64); if let Some(i) = same(&col, &got) { violation("round-trip", &format!("{t:?}: identity of {}", show(&col, i)), &show(&col, i), &show(&got, i)); } }
        }
    }
    set("every type: wire form and identity");
    // in: arbitrary answers
    let mut vs: Vec<Value> = vec![Value::Nil, Value::Boolean(true), Value::Boolean(false), Value::F32(1.5), Value::F32(-0.0), Value::F64(2.5), Value::F64(1e300), Value::from(""), Value::from("héé"), Value::Binary(vec![1, 2]), Value::Array(vec![]), Value::Map(vec![]), Value::Ext(1, vec![0])];
    for x in [0i64, 1, -1, 127, 128, -128, 32767, 32768, -32768, -32769, 2147483647, 2147483648, -2147483648, -2147483649, i64::MAX, i64::MIN] { vs.push(Value::from(x)); }
    for x in [i64::MAX as u64 + 1, u64::MAX, 1u64 << 32] { vs.push(Value::from(x)); }
    let mut ds: Vec<Value> = vec![];
    for (p, s) in [(38u64, 0i64), (38, 10), (18, 2), (5, 5), (1, 0), (256, 0), (294, 0), (38, 256), (38, -1), (18, 258)] {
        for (h, l) in [(0i64, 0i64), (0, 1), (-1, -1), (0, -1), (0, i64::MIN), (-1, i64::MIN), (0, i64::MAX), (1, 0), (-1, 0), (0, 9), (0, 10), (-1, -9), (-1, -10), (0, 99999), (0, 100000), (5421010862427522170, 687399551400673279), (5421010862427522170, 687399551400673280), (-5421010862427522171, -687399551400673279), (-5421010862427522171, -687399551400673280), (i64::MAX, -1), (i64::MIN, 0)] {
            ds.push(Value::Array(vec![Value::from(p), Value::from(s), Value::from(h), Value::from(l)]));
        }
    }
    ds.push(Value::Array(vec![Value::from(38), Value::from(0), Value::from(0)]));
    ds.push(Value::Array(vec![Value::from(38), Value::from(0), Value::from(0), Value::from(0), Value::from(0)]));
    ds.push(Value::Array(vec![Value::from("38"), Value::from(0), Value::from(0), Value::from(0)]));
    ds.push(Value::Array(vec![Value::from(38), Value::from(0), Value::from(0), Value::from(u64::MAX)]));
    ds.push(Value::Array(vec![Value::from(38), Value::from(0), Value::F64(0.0), Value::from(0)]));
    fn expect(t: &T, v: &Value) -> Option<ArrayRef> {
        let int = |lo: i64, hi: i64| v.as_i64().filter(|x| *x >= lo && *x <= hi && v.is_number() && !v.is_f32() && !v.is_f64());
        Some(match t {
            T::SMALLINT => Arc::new(Int16Array::from(vec![int(i16::MIN as i64, i16::MAX as i64)? as i16])),
            T::I32 | T::INT => Arc::new(Int32Array::from(vec![int(i32::MIN as i64, i32::MAX as i64)? as i32])),
            T::DATE => Arc::new(Date32Array::from(vec![int(i32::MIN as i64, i32::MAX as i64)? as i32])),
            T::I64 | T::BIGINT => Arc::new(Int64Array::from(vec![int(i64::MIN, i64::MAX)?])),
            T::TIMESTAMP => Arc::new(TimestampNanosecondArray::from(vec![int(i64::MIN, i64::MAX)?])),
            T::F32 | T::FLOAT | T::REAL => match v { Value::F32(x) => Arc::new(Float32Array::from(vec![*x])), _ => return None },
            T::F64 | T::DOUBLE => match v { Value::F64(x) => Arc::new(Float64Array::from(vec![*x])), Value::F32(x) => Arc::new(Float64Array::from(vec![*x as f64])), Value::Integer(n) => Arc::new(Float64Array::from(vec![n.as_f64()?])), _ => return None },
            T::CHAR | T::VARCHAR | T::TEXT => match v { Value::String(s) => Arc::new(StringArray::from(vec![s.as_str()?.to_string()])), _ => return None },
            T::BOOLEAN => match v { Value::Boolean(b) => Arc::new(BooleanArray::from(vec![*b])), _ => return None },
            T::DECIMAL { precision, scale } => {
                let a = v.as_array()?; if a.len() != 4 || a[0].as_u64()? != *precision as u64 || a[1].as_i64()? != *scale as i64 { return None; }
                let (h, l) = (a[2].as_i64()?, a[3].as_i64()?);
                let x = i128::from_be_bytes([h.to_be_bytes(), l.to_be_bytes()].concat().try_into().unwrap());
                if x <= -pow10(*precision) || x >= pow10(*precision) { return None; }
                Arc::new(Decimal128Array::from(vec![x]).with_precision_and_scale(*precision, *scale).unwrap())
            }
        })
    }
    let m = unhex();
    let types = all_types();
    let jobs: Vec<(T, Vec<Value>)> = types.into_iter().map(|t| { let v = if matches!(t, T::DECIMAL { .. }) { let mut x = ds.clone(); if thorough() { x.extend(vs.clone()); } else { x.extend(vs.iter().take(14).cloned()); } x } else { let mut x = vs.clone(); x.extend(ds.iter().take(2).cloned()); x };
        // keep all that are acceptable and, per type, a spread of the others
        let (ok, bad): (Vec<_>, Vec<_>) = v.into_iter().partition(|x| expect(&t, x).is_some());
        let keep = if thorough() { bad.len() } else { 24 }; let step = (bad.len() / keep.max(1)).max(1);
        let mut all = ok; all.extend(bad.into_iter().step_by(step)); (t, all) }).collect();
    let res: Vec<(u64, Vec<(String, String, String)>)> = par(jobs, |(t, vals)| {
        let mut out = vec![]; let mut k = 0u64;
        let u = match mk(MP, &m, &[T::TEXT], t) { Ok(u) => u, Err(e) => { return (0, vec![(format!("{t:?}"), "a function".into(), e)]); } };
        let frame = |v: &Value| { let b = bytes(v); let mut f = (b.len() as u32).to_le_bytes().to_vec(); f.extend(b); ScalarValue::from(hexs(&f)) };
        let mut good: Vec<(Value, ArrayRef)> = vec![];
        for v in vals {
            k += 1;
            match expect(t, v) {
                Some(a) => good.push((v.clone(), a)),
                None => match run(&u, &[ColumnarValue::Scalar(frame(v))], 1) { Ok(c) => out.push((format!("{t:?} <- {v:?}"), "an error".into(), show(&array(c), 0))), Err(e) if e.starts_with("PANIC") => out.push((format!("{t:?} <- {v:?}"), "an error".into(), e)), Err(_) => {} },
            }
        }
        if !good.is_empty() {
            let col: ArrayRef = Arc::new(StringArray::from(good.iter().map(|(v, _)| match frame(v) { ScalarValue::Utf8(Some(s)) => s, _ => unreachable!() }).collect::<Vec<_>>()));
            match run(&u, &[ColumnarValue::Array(col)], good.len()) {
                Err(e) => {
                    // which one
                    for (v, a) in &good { if let Err(e) = run(&u, &[ColumnarValue::Scalar(frame(v))], 1) { out.push((format!("{t:?} <- {v:?}"), show(a, 0), short(&e))); return (k, out); } }
                    out.push((format!("{t:?} <- {} values", good.len()), "results".into(), short(&e)));
                }
                Ok(c) => { let got = array(c); for (i, (v, a)) in good.iter().enumerate() { if got.len() != good.len() || same(a, &got.slice(i, 1)).is_some() { out.push((format!("{t:?} <- {v:?}"), show(a, 0), if i < got.len() { show(&got, i) } else { format!("{} rows", got.len()) })); break; } } }
            }
        }
        (k, out)
    });
    for (k, o) in res { cases(k); for (a, b, c) in o { violation("decode", &a, &b, &c); } }
    set("answers of every kind for every declared type");
}
// a small worker pool; panics inside are caught by guard
fn par<J: Sync + Send, R: Send>(jobs: Vec<J>, f: impl Fn(&J) -> R + Sync) -> Vec<R> {
    let n = std::sync::atomic::AtomicUsize::new(0);
    let res: std::sync::Mutex<Vec<(usize, R)>> = std::sync::Mutex::new(vec![]);
    let _ = guard(|| ());
    std::thread::scope(|s| { for _ in 0..8 { s.spawn(|| loop { let i = n.fetch_add(1, std::sync::atomic::Ordering::SeqCst); if i >= jobs.len() { break; } let r = f(&jobs[i]); res.lock().unwrap().push((i, r)); }); } });
    let mut v = res.into_inner().unwrap(); v.sort_by_key(|x| x.0); v.into_iter().map(|x| x.1).collect()
}
fn c07() {
    let mut r = Rng::new(seed());
    // the guest inspects what was done to its memory
    let places: &[(u32, u32, u32)] = &[(1024, 60000, 2), (0x7fff_fff0, 4096, 33000), (0x8000_0100, 0x9000_0000, 40000), (4096, 0xffff_fff0 - 0x20, 65536), (0xffff_0000, 64, 65536), (0x8000_0000 - 5, 0x8000_0000 - 40, 33000), (70000, 16, 3)];
    for &(i, o, p) in places {
        for t in [T::BIGINT, T::TEXT, T::BOOLEAN] {
            at(&format!("buffers at {i:#x} / {o:#x}, {p} pages, {t:?}"));
            let step = if p == 2 { 512 } else { 0 };
            let u = match mk(MP, &report(i, o, p, step), &[t.clone()], &T::BIGINT) { Ok(u) => u, Err(e) => { violation("create", &format!("{p} pages"), "a function", &short(&e)); continue } };
            let col: ArrayRef = match t { T::BIGINT => Arc::new(Int64Array::from(vec![1, -1, i64::MAX, 300, 70000])), T::BOOLEAN => Arc::new(BooleanArray::from(vec![true, false, true])), _ => Arc::new(StringArray::from(vec!["".to_string(), "a".into(), "x".repeat(27), "x".repeat(28), "x".repeat(29), "x".repeat(252), r.string(&['a', 'é'], 30)])) };
            cases(col.len() as u64);
            match run(&u, &[ColumnarValue::Array(col.clone())], col.len()) {
                Err(e) => violation("memory", &format!("input buffer at {i:#x}, output buffer at {o:#x}, {p} pages, {t:?}"), "results", &short(&e)),
                Ok(c) => { let a = array(c); for k in 0..a.len() { let f = a.as_primitive::<Int64Type>().value(k) as u64; if f != 0 { let w: Vec<&str> = FLAGS.iter().filter(|x| f & x.0 != 0).map(|x| x.1).collect(); violation("memory", &format!("input buffer at {i:#x}, output buffer at {o:#x}, {p} pages, {t:?}, row {k}"), "only the frame is written, one allocation and two releases per call", &w.join("; ")); break; } } }
            }
        }
    }
    set("guest memory around the frame, calls into the guest");
    // output frames: exact contents, and every malformed one is an error
    let ok = [0xd3u8, 0, 0, 0, 0, 0, 0, 0x30, 0x39]; // 12345
    let frame = |n: u32, b: &[u8]| { let mut f = n.to_le_bytes().to_vec(); f.extend_from_slice(b); f };
    let mem = |p: u32| p as u64 * 65536;
    let mut cs: Vec<(String, u32, u32, u32, u32, Vec<u8>, Option<i64>)> = vec![];
    cs.push(("plain".into(), 1024, 4096, 2, 4096, frame(9, &ok), Some(12345)));
    cs.push(("frame ends at the last byte of memory".into(), 1024, (mem(2) - 13) as u32, 2, (mem(2) - 13) as u32, frame(9, &ok), Some(12345)));
    cs.push(("frame starts at address 0".into(), 1024, 0, 2, 0, frame(9, &ok), Some(12345)));
    cs.push(("frame ends one byte past memory".into(), 1024, (mem(2) - 12) as u32, 2, (mem(2) - 12) as u32, frame(9, &ok)[..12].to_vec(), None));
    cs.push(("pointer at the end of memory".into(), 1024, mem(2) as u32, 2, 0, vec![0], None));
    cs.push(("pointer 2 before the end of memory".into(), 1024, mem(2) as u32 - 2, 2, 0, vec![0], None));
    cs.push(("pointer beyond memory".into(), 1024, 0x7fff_0000, 2, 0, vec![0], None));
    cs.push(("pointer with the top bit set, beyond memory".into(), 1024, 0x8000_0000, 2, 0, vec![0], None));
    cs.push(("pointer 0xffffffff".into(), 1024, u32::MAX, 2, 0, vec![0], None));
    for n in [1u32 << 31, u32::MAX, u32::MAX - 3, i32::MAX as u32, i32::MAX as u32 - 4, 0x1000_0000, mem(2) as u32, (mem(2) - 4096 - 3) as u32, 0] { cs.push((format!("length prefix {n:#x}"), 1024, 4096, 2, 4096, frame(n, &ok), None)); }
    for n in 1..9u32 { cs.push((format!("payload cut to {n} bytes"), 1024, 4096, 2, 4096, frame(n, &ok), None)); }
    cs.push(("unused byte as payload".into(), 1024, 4096, 2, 4096, frame(1, &[0xc1]), None));
    cs.push(("input allocated past the end".into(), mem(2) as u32, 4096, 2, 4096, frame(9, &ok), None));
    cs.push(("input allocated 5 bytes before the end".into(), mem(2) as u32 - 5, 4096, 2, 4096, frame(9, &ok), None));
    cs.push(("input allocated 2 bytes before the end".into(), mem(2) as u32 - 2, 4096, 2, 4096, frame(9, &ok), None));
    cs.push(("input allocated at 0xffffffff".into(), u32::MAX, 4096, 2, 4096, frame(9, &ok), None));
    cs.push(("input allocated at 0x80000000".into(), 1 << 31, 4096, 2, 4096, frame(9, &ok), None));
    let res = par(cs, |(w, i, o, p, d, data, want)| {
        let m = fixed(*i, *o, *p, *d, data);
        let got = mk(MP, &m, &[T::BIGINT], &T::BIGINT).and_then(|u| run(&u, &[ColumnarValue::Scalar(ScalarValue::Int64(Some(77)))], 1).map(|c| array(c).as_primitive::<Int64Type>().value(0)));
        // 77 is encoded as 0x91 0x4d: a six-byte frame
        match (want, got) { (Some(x), Ok(y)) if *x == y => None, (None, Err(e)) if !e.starts_with("PANIC") => None, (x, y) => Some((w.clone(), x.map(|v| v.to_string()).unwrap_or("an error".into()), format!("{y:?}"))) }
    });
    for o in res { case(); if let Some((a, b, c)) = o { violation("frame", &a, &b, &short(&c)); } }
    // an exact fit for the input frame
    for k in [6u32, 7] { case(); let m = fixed((mem(2) - k as u64) as u32, 4096, 2, 4096, &frame(9, &ok)); match mk(MP, &m, &[T::BIGINT], &T::BIGINT).and_then(|u| run(&u, &[ColumnarValue::Scalar(ScalarValue::Int64(Some(77)))], 1)) { Ok(_) => {} Err(e) => violation("frame", &format!("input allocated {k} bytes before the end of memory, frame of 6 bytes"), "a result", &short(&e)) } }
    set("output frames, malformed and at the edges of memory");
    // a guest that answers in its input buffer and clears what is released: the frame must be read before anything is released
    for (w, after) in [("answers in place, clears released buffers", 0i32), ("answers in place, overwrites released buffers", 255)] {
        case(); at(w);
        let m = wat(&format!(r#"(module (memory (export "memory") 2) (func (export "alloc") (param i32) (result i32) (i32.const 1024))
 (func (export "dealloc") (param $p i32) (param $s i32) (memory.fill (local.get $p) (i32.const {after}) (local.get $s)))
 (func (export "f") (param $p i32) (result i32) (i32.store (local.get $p) (i32.const 1)) (i32.store8 offset=4 (local.get $p) (i32.const 7)) (local.get $p)))"#));
        let got = mk(MP, &m, &[T::BIGINT], &T::BIGINT).and_then(|u| run(&u, &[ColumnarValue::Array(Arc::new(Int64Array::from(vec![1i64, 300, 1 << 40])))], 3).map(array));
        let want: ArrayRef = Arc::new(Int64Array::from(vec![7i64, 7, 7]));
        match got { Ok(a) if same(&want, &a).is_none() => {} o => violation("release", &format!("guest that {w}, 3 rows"), "7, 7, 7", &short(&format!("{o:?}"))) }
    }
    // a guest without one of the exports, or with another signature of it, is refused
    let parts = [r#"(memory (export "memory") 2)"#, r#"(func (export "alloc") (param i32) (result i32) (i32.const 1024))"#, r#"(func (export "dealloc") (param i32 i32))"#, r#"(func (export "f") (param i32) (result i32) (i32.const 0))"#];
    let bad = ["", r#"(func (export "alloc") (param i64) (result i32) (i32.const 1024))"#, r#"(func (export "dealloc") (param i32))"#, r#"(func (export "f") (param i32) (result i64) (i64.const 0))"#];
    for i in 0..4 { for b in ["", bad[i]] { case(); let m = wat(&format!("(module {})", (0..4).map(|j| if j == i { b } else { parts[j] }).collect::<String>()));
        match mk(MP, &m, &[T::BIGINT], &T::BIGINT) { Ok(_) => violation("exports", &format!("guest with {b:?} in place of {}", parts[i]), "refused", "a function"), Err(e) if e.starts_with("PANIC") => violation("exports", &format!("guest with {b:?} in place of {}", parts[i]), "refused", &e), Err(_) => {} } } }
    set("buffers reused by the guest, missing exports");
}
fn wasm_ty(t: &T) -> Option<&'static str> { match arrow_of(t) { DataType::Int32 => Some("i32"), DataType::Int64 => Some("i64"), DataType::Float32 => Some("f32"), DataType::Float64 => Some("f64"), _ => None } }
fn c08() {
    let ts = all_types();
    let mut r = Rng::new(seed());
    for t in &ts {
        case(); at(&format!("types {t:?}"));
        // signature of a MessagePack function
        match mk(MP, &echo(), &[t.clone(), T::BIGINT, t.clone()], t) {
            Err(e) => violation("signature", &format!("wasmMessagePack ({t:?}, BIGINT, {t:?}) -> {t:?}"), "a function", &short(&e)),
            Ok(u) => {
                let want = vec![arrow_of(t), DataType::Int64, arrow_of(t)];
                let got = match &u.signature().type_signature { datafusion_expr::TypeSignature::Exact(v) => v.clone(), o => { violation("signature", &format!("{t:?}"), &format!("{want:?}"), &format!("{o:?}")); continue } };
                if got != want { violation("signature", &format!("arguments ({t:?}, BIGINT, {t:?})"), &format!("{want:?}"), &format!("{got:?}")); }
                let ret = u.return_type(&want);
                if !matches!(&ret, Ok(x) if *x == arrow_of(t)) { violation("signature", &format!("return type {t:?}"), &format!("{:?}", arrow_of(t)), &format!("{ret:?}")); }
                if u.signature().volatility != Volatility::Immutable { violation("volatility", "Immutable", "Immutable", &format!("{:?}", u.signature().volatility)); }
                if u.name() != "u" { violation("name", "u", "u", u.name()); }
            }
        }
        // the plain WASM language: identity when the type has a WASM value type, refused otherwise
        case();
        let wt = wasm_ty(t);
        let m = wat(&format!(r#"(module (func (export "f") (param {0}) (result {0}) (local.get 0)))"#, wt.unwrap_or("i32")));
        match (wt, mk(NAT, &m, &[t.clone()], t)) {
            (None, Ok(u)) => violation("wasm-type", &format!("language wasm, type {t:?}"), "refused", &format!("{:?}", u.signature())),
            (None, Err(e)) => if e.starts_with("PANIC") { violation("wasm-type", &format!("language wasm, type {t:?}"), "refused", &e) },
            (Some(_), Err(e)) => violation("wasm-type", &format!("language wasm, type {t:?}"), "a function", &short(&e)),
            (Some(_), Ok(u)) => {
                let col = column(t, &mut r, 20); cases(col.len() as u64);
                match run(&u, &[ColumnarValue::Array(col.clone())], col.len()) { Err(e) => violation("wasm-type", &format!("identity over {t:?}"), "the same values", &short(&e)), Ok(c) => { let g = array(c); if let Some(i) = same(&col, &g) { violation("wasm-type", &format!("identity of {t:?} {}", show(&col, i)), &show(&col, i), &show(&g, i)); } } }
            }
        }
        // an unsupported type in one place only
        for (ins, out) in [(vec![T::INT, t.clone()], T::INT), (vec![T::INT], t.clone())] { case(); if wt.is_none() { if let Ok(_) = mk(NAT, &wat(r#"(module (func (export "f") (param i32 i32) (result i32) (local.get 0)))"#), &ins, &out) { violation("wasm-type", &format!("language wasm, ({ins:?}) -> {out:?}"), "refused", "accepted"); } } }
    }
    for (v, w) in [(CreateFunctionVolatility::Immutable, Volatility::Immutable), (CreateFunctionVolatility::Stable, Volatility::Stable), (CreateFunctionVolatility::Volatile, Volatility::Volatile)] {
        case(); let g = get_volatility(&v); if g != w { violation("volatility", &format!("{v:?}"), &format!("{w:?}"), &format!("{g:?}")); }
        for l in [MP, NAT] { case(); let m = if l == NAT { wat(r#"(module (func (export "f") (param i32) (result i32) (local.get 0)))"#) } else { echo() };
            match create_udf_from_wasm(&l, "nm", &m, "f", &vec![T::INT], &T::INT, w) { Ok(u) => if u.signature().volatility != w || u.name() != "nm" { violation("volatility", &format!("{l:?} {v:?}"), &format!("nm {w:?}"), &format!("{} {:?}", u.name(), u.signature().volatility)); }, Err(e) => violation("volatility", &format!("{l:?} {v:?}"), "a function", &e.to_string()) } }
    }
    // DDL details: every documented type name, in any case
    for (n, t) in [("smallint", T::SMALLINT), ("int", T::INT), ("bigint", T::BIGINT), ("char", T::CHAR), ("varchar", T::VARCHAR), ("text", T::TEXT), ("float", T::FLOAT), ("real", T::REAL), ("double", T::DOUBLE), ("boolean", T::BOOLEAN), ("date", T::DATE), ("timestamp", T::TIMESTAMP), ("i32", T::I32), ("i64", T::I64), ("f32", T::F32), ("f64", T::F64)] {
        for nn in [n.to_string(), n.to_uppercase(), { let mut c: Vec<char> = n.chars().collect(); c[0] = c[0].to_ascii_uppercase(); c.into_iter().collect() }] {
            for (vol, vv) in [("", CreateFunctionVolatility::Volatile), (r#","volatility":"immutable""#, CreateFunctionVolatility::Immutable), (r#","volatility":"stable""#, CreateFunctionVolatility::Stable), (r#","volatility":"volatile""#, CreateFunctionVolatility::Volatile)] { for (lang, lv) in [("", MP), (r#","language":"wasm""#, NAT), (r#","language":"wasmMessagePack""#, MP)] {
                case();
                let j = format!(r#"{{"entrypoint":"e"{lang},"input_types":["int","{nn}","text"],"return_type":"{nn}","data":"x"{vol}}}"#);
                let want = CreateFunctionDetails { entrypoint: "e".into(), language: lv.clone(), input_types: vec![T::INT, t.clone(), T::TEXT], return_type: t.clone(), data: "x".into(), volatility: vv.clone() };
                match serde_json::from_str::<CreateFunctionDetails>(&j) { Ok(d) if d == want => {} o => violation("details", &j, &format!("{want:?}"), &format!("{o:?}")) }
                // what is persisted reads back as the same
                let back = serde_json::from_str::<Vec<T>>(&serde_json::to_string(&want.input_types).unwrap()); if !matches!(&back, Ok(b) if *b == want.input_types) { violation("details", &format!("{:?} stored and read back", want.input_types), "the same", &format!("{back:?}")); }
                use std::str::FromStr;
                let back = T::from_str(&want.return_type.to_string().to_ascii_uppercase()); if !matches!(&back, Ok(b) if *b == want.return_type) { violation("details", &format!("{:?} stored and read back", want.return_type), "the same", &format!("{back:?}")); }
            } }
        }
    }
    for bad in ["integer", "blob", "", "int ", "decimal(10,2)"] { case(); let j = format!(r#"{{"entrypoint":"e","input_types":["{bad}"],"return_type":"int","data":"x"}}"#); if let Ok(d) = serde_json::from_str::<CreateFunctionDetails>(&j) { violation("details", &j, "refused", &format!("{d:?}")); }
        case(); let j = format!(r#"{{"entrypoint":"e","input_types":["int"],"return_type":"{bad}","data":"x"}}"#); if let Ok(d) = serde_json::from_str::<CreateFunctionDetails>(&j) { violation("details", &j, "refused", &format!("{d:?}")); } }
    set("type tables, signatures, DDL details");
}
fn c09() {
    let mut r = Rng::new(seed());
    // MessagePack: each row's payload is exactly that row of each argument
    let hd = hexdump();
    let shapes = if thorough() { 120 } else { 30 };
    for k in 0..shapes {
        let nargs = 1 + r.below(4) as usize;
        let ts: Vec<T> = (0..nargs).map(|_| r.pick(&[T::BIGINT, T::INT, T::TEXT, T::DOUBLE, T::BOOLEAN, T::SMALLINT, T::DECIMAL { precision: 30, scale: 2 }, T::DATE]).clone()).collect();
        let n = if k % 10 == 9 { *r.pick(&[1025usize, 2050, 4100]) } else { *r.pick(&[0usize, 1, 2, 3, 17, 64]) };
        let mut args = vec![]; let mut cols: Vec<ArrayRef> = vec![];
        let scal: Vec<bool> = (0..nargs).map(|_| r.chance(40)).collect();
        let any = scal.iter().any(|s| !s);
        let rows = if any { n } else { 1 };
        for (i, t) in ts.iter().enumerate() {
            let full = column(t, &mut r, 70);
            if scal[i] { let j = r.below(20).min(full.len() as u64 - 1) as usize; let s = ScalarValue::try_from_array(&full, j).unwrap(); cols.push(s.to_array_of_size(rows).unwrap()); args.push(ColumnarValue::Scalar(s)); }
            else { let lo = r.below((full.len().saturating_sub(rows)) as u64 + 1) as usize; let lo = lo.min(full.len().saturating_sub(rows)); let mut c = full.slice(lo, rows.min(full.len())); while c.len() < rows { let more = full.slice(0, (rows - c.len()).min(full.len())); c = arrow::compute::concat(&[c.as_ref(), more.as_ref()]).unwrap(); } cols.push(c.clone()); args.push(ColumnarValue::Array(c)); }
        }
        at(&format!("shape {k}: {ts:?} scalars {scal:?} rows {rows}")); cases(rows as u64 + 1);
        let desc = format!("{ts:?}, scalar arguments {scal:?}, {rows} rows");
        let u = match mk(MP, &hd, &ts, &T::TEXT) { Ok(u) => u, Err(e) => { violation("rows", &desc, "a function", &short(&e)); continue } };
        match run(&u, &args, rows) {
            Err(e) => violation("rows", &desc, &format!("{rows} results"), &short(&e)),
            Ok(c) => { let g = array(c); if g.len() != rows { violation("rows", &desc, &format!("{rows} results"), &format!("{} results", g.len())); continue; }
                for i in 0..rows { let w = Value::Array(ts.iter().zip(&cols).map(|(t, c)| wire(t, c, i)).collect()); let b = unhexs(g.as_string::<i32>().value(i)); let v = rmpv::decode::read_value(&mut &b[..]); if !matches!(&v, Ok(x) if *x == w) { violation("rows", &format!("{desc}, row {i}"), &short(&format!("{w:?}")), &short(&format!("{v:?}"))); break; } } }
        }
        // wrong number of arguments is an error
        case(); if args.len() > 1 { if let Ok(_) = run(&u, &args[..args.len() - 1], rows) { violation("arity", &desc, "an error when an argument is missing", "a result"); } }
    }
    // no arguments: a single value for all rows
    case(); at("no arguments");
    match mk(MP, &hd, &[], &T::TEXT).and_then(|u| run(&u, &[], 5)) { Ok(ColumnarValue::Scalar(ScalarValue::Utf8(Some(s)))) if s == "90" => {} o => violation("no-args", "f() over 5 rows, wasmMessagePack", "one scalar value", &short(&format!("{o:?}"))) }
    set("wasmMessagePack: rows of arrays and scalars");
    // plain WASM: f(a: i64, b: i32, c: f64) = a * 1000003 + b * 7 + trunc(c)
    let m = wat(r#"(module (func (export "f") (param i64 i32 f64) (result i64) (i64.add (i64.add (i64.mul (local.get 0) (i64.const 1000003)) (i64.mul (i64.extend_i32_s (local.get 1)) (i64.const 7))) (i64.trunc_sat_f64_s (local.get 2)))))"#);
    let ts = [T::BIGINT, T::INT, T::DOUBLE];
    let u = match mk(NAT, &m, &ts, &T::BIGINT) { Ok(u) => u, Err(e) => { violation("native", "f(bigint, int, double)", "a function", &short(&e)); return } };
    for mask in 0..8u32 { for n in [0usize, 1, 2, 5, 33, 1025, 8193] {
        let rows = if mask == 7 { 1 } else { n };
        let a: Vec<i64> = (0..rows).map(|i| i as i64 * 31 - 7).collect(); let b: Vec<i32> = (0..rows).map(|i| 1000 - i as i32 * 3).collect(); let c: Vec<f64> = (0..rows).map(|i| i as f64 * 1.75).collect();
        let (sa, sb, sc) = (i64::MIN / 3, -99i32, 1e6f64);
        let args = vec![if mask & 1 != 0 { ColumnarValue::Scalar(ScalarValue::Int64(Some(sa))) } else { ColumnarValue::Array(Arc::new(Int64Array::from(a.clone()))) }, if mask & 2 != 0 { ColumnarValue::Scalar(ScalarValue::Int32(Some(sb))) } else { ColumnarValue::Array(Arc::new(Int32Array::from(b.clone()))) }, if mask & 4 != 0 { ColumnarValue::Scalar(ScalarValue::Float64(Some(sc))) } else { ColumnarValue::Array(Arc::new(Float64Array::from(c.clone()))) }];
        let want: Vec<i64> = (0..rows).map(|i| { let (x, y, z) = (if mask & 1 != 0 { sa } else { a[i] }, if mask & 2 != 0 { sb } else { b[i] }, if mask & 4 != 0 { sc } else { c[i] }); x.wrapping_mul(1000003).wrapping_add(y as i64 * 7).wrapping_add(z.trunc() as i64) }).collect();
        cases(rows as u64 + 1);
        let desc = format!("language wasm, scalar mask {mask:03b}, {rows} rows"); at(&desc);
        match run(&u, &args, rows) { Err(e) => violation("native", &desc, &format!("{rows} results"), &short(&e)), Ok(c) => { let g = array(c); let w: ArrayRef = Arc::new(Int64Array::from(want)); if let Some(i) = same(&w, &g) { violation("native", &format!("{desc}, row {i}"), &show(&w, i), &show(&g, i)); } } }
    } }
    case(); match mk(NAT, &wat(r#"(module (func (export "f") (result f32) (f32.const 2.5)))"#), &[], &T::REAL).and_then(|u| run(&u, &[], 5)) { Ok(ColumnarValue::Scalar(ScalarValue::Float32(Some(x)))) if x == 2.5 => {} o => violation("no-args", "f() over 5 rows, wasm", "one scalar value", &short(&format!("{o:?}"))) }
    // identity of each type, and a function that returns another type or traps is an error
    for (wt, t) in [("i32", T::INT), ("i64", T::BIGINT), ("f32", T::REAL), ("f64", T::DOUBLE), ("i32", T::I32), ("i64", T::I64), ("f32", T::FLOAT), ("f64", T::F64)] {
        for out in [T::INT, T::BIGINT, T::REAL, T::DOUBLE] { for n in [1usize, 3] {
            case(); let m = wat(&format!(r#"(module (func (export "f") (param {wt}) (result {wt}) (local.get 0)))"#));
            let col = column(&t, &mut r, 3); let col = col.slice(0, n);
            let got = mk(NAT, &m, &[t.clone()], &out).and_then(|u| run(&u, &[ColumnarValue::Array(col.clone())], n));
            let desc = format!("language wasm, {wt} function declared {t:?} -> {out:?}, {n} rows");
            if arrow_of(&t) == arrow_of(&out) { match got { Ok(c) => { let g = array(c); if let Some(i) = same(&col, &g) { violation("native", &desc, &show(&col, i), &show(&g, i)); } } Err(e) => violation("native", &desc, "the same values", &short(&e)) } }
            else { match got { Ok(c) => violation("native-type", &desc, "an error", &show(&array(c), 0)), Err(e) if e.starts_with("PANIC") => violation("native-type", &desc, "an error", &e), Err(_) => {} } }
        } }
    }
    for (w, m) in [("traps on 0", r#"(module (func (export "f") (param i32) (result i32) (i32.div_s (i32.const 10) (local.get 0))))"#), ("takes two parameters", r#"(module (func (export "f") (param i32 i32) (result i32) (local.get 0)))"#), ("returns two results", r#"(module (func (export "f") (param i32) (result i32 i32) (local.get 0) (local.get 0)))"#), ("returns nothing", r#"(module (func (export "f") (param i32)))"#), ("takes an i64", r#"(module (func (export "f") (param i64) (result i32) (i32.const 1)))"#)] {
        case(); let got = mk(NAT, &wat(m), &[T::INT], &T::INT).and_then(|u| run(&u, &[ColumnarValue::Array(Arc::new(Int32Array::from(vec![5, 2, 0])))], 3));
        match got { Ok(c) => violation("native-err", &format!("language wasm, function that {w}, over 5, 2, 0"), "an error", &format!("{:?}", array(c))), Err(e) if e.starts_with("PANIC") => violation("native-err", &format!("language wasm, function that {w}"), "an error", &e), Err(_) => {} }
    }
    set("wasm: rows of arrays and scalars, type mismatches");
}
fn main() {
    match prop().as_str() { "c06" => c06(), "c07" => c07(), "c08" => c08(), "c09" => c09(), o => { eprintln!("VERIF-HARNESS unknown property {o}"); std::process::exit(3) } }
    done();
}
