From a72925940634525f42ea64c45992b8b159f23f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:13 +0000
Subject: [PATCH 01/42] fix: parenthesise composite operands in pushed-down
 filters

---
 .../src/filter_pushdown.rs                    | 115 +++++++++++++-----
 1 file changed, 84 insertions(+), 31 deletions(-)

diff --git a/datafusion_remote_tables/src/filter_pushdown.rs b/datafusion_remote_tables/src/filter_pushdown.rs
index 2050e4c..82a377e 100644
--- a/datafusion_remote_tables/src/filter_pushdown.rs
+++ b/datafusion_remote_tables/src/filter_pushdown.rs
@@ -108,6 +108,54 @@ pub trait FilterPushdownConverter {
     }
 }
 
+// How tightly the SQL of an expression binds, going only by what all of the remote dialects agree on.
+const UNSPECIFIED: u8 = 0;
+const DISJUNCTION: u8 = 1;
+const CONJUNCTION: u8 = 2;
+const NEGATION: u8 = 3;
+const PREDICATE: u8 = 4;
+const ADDITIVE: u8 = 5;
+const MULTIPLICATIVE: u8 = 6;
+const ATOM: u8 = 7;
+
+fn binding_power(expr: &Expr) -> u8 {
+    match expr {
+        Expr::BinaryExpr(BinaryExpr { op, .. }) => match op {
+            Operator::Or => DISJUNCTION,
+            Operator::And => CONJUNCTION,
+            Operator::Eq
+            | Operator::NotEq
+            | Operator::Lt
+            | Operator::LtEq
+            | Operator::Gt
+            | Operator::GtEq => PREDICATE,
+            Operator::Plus | Operator::Minus => ADDITIVE,
+            Operator::Multiply | Operator::Divide | Operator::Modulo => MULTIPLICATIVE,
+            // The relative precedence of the other operators differs between the dialects
+            _ => UNSPECIFIED,
+        },
+        Expr::Not(_) => NEGATION,
+        Expr::IsNull(_)
+        | Expr::IsNotNull(_)
+        | Expr::IsTrue(_)
+        | Expr::IsFalse(_)
+        | Expr::IsNotTrue(_)
+        | Expr::IsNotFalse(_)
+        | Expr::InList { .. } => PREDICATE,
+        // Columns, literals and (already parenthesised) arithmetic negation
+        _ => ATOM,
+    }
+}
+
+// Wrap the SQL of an operand in parenthesis unless it binds at least as tightly as required
+fn parenthesise(sql: String, operand: &Expr, min_power: u8) -> String {
+    if binding_power(operand) < min_power {
+        format!("({sql})")
+    } else {
+        sql
+    }
+}
+
 impl<T: FilterPushdownConverter> TreeNodeVisitor<'_> for FilterPushdownVisitor<T> {
     type Node = Expr;
 
@@ -162,20 +210,21 @@ impl<T: FilterPushdownConverter> TreeNodeVisitor<'_> for FilterPushdownVisitor<T
                 let mut right_sql = self.pop_sql_expr();
                 let mut left_sql = self.pop_sql_expr();
 
-                // Similar as in Display impl for BinaryExpr: since the Expr has an implicit operator
-                // precedence we need to convert it to an explicit one using extra parenthesis if the
-                // left/right expression is also a BinaryExpr of lower operator precedence.
-                if let Expr::BinaryExpr(right_be @ BinaryExpr { .. }) = &*be.right {
-                    let p = right_be.op.precedence();
-                    if p == 0 || p < be.op.precedence() {
-                        right_sql = format!("({right_sql})")
-                    }
+                // Since the Expr has an implicit operator precedence we need to convert it to an
+                // explicit one using extra parenthesis if the left/right expression doesn't bind
+                // tightly enough. Binary operators are left-associative at best, so the right side
+                // always needs to bind strictly tighter.
+                let power = binding_power(expr);
+                let (left_min, right_min) = match power {
+                    UNSPECIFIED => (ATOM, ATOM),
+                    PREDICATE => (ADDITIVE, ADDITIVE),
+                    p => (p, p + 1),
+                };
+                if binding_power(&be.right) < right_min {
+                    right_sql = format!("({right_sql})")
                 }
-                if let Expr::BinaryExpr(left_be @ BinaryExpr { .. }) = &*be.left {
-                    let p = left_be.op.precedence();
-                    if p == 0 || p < be.op.precedence() {
-                        left_sql = format!("({left_sql})")
-                    }
+                if binding_power(&be.left) < left_min {
+                    left_sql = format!("({left_sql})")
                 }
 
                 let op_sql = self.source.op_to_sql(&be.op).ok_or_else(|| {
@@ -188,44 +237,48 @@ impl<T: FilterPushdownConverter> TreeNodeVisitor<'_> for FilterPushdownVisitor<T
                 self.sql_exprs
                     .push(format!("{left_sql} {op_sql} {right_sql}"))
             }
-            Expr::Not(_) => {
-                let inner_sql = self.pop_sql_expr();
+            Expr::Not(inner) => {
+                let inner_sql = parenthesise(self.pop_sql_expr(), inner, NEGATION);
                 self.sql_exprs.push(format!("NOT {inner_sql}"));
             }
-            Expr::Negative(_) => {
-                let inner_sql = self.pop_sql_expr();
+            Expr::Negative(inner) => {
+                let inner_sql = parenthesise(self.pop_sql_expr(), inner, ATOM);
                 self.sql_exprs.push(format!("(- {inner_sql})"));
             }
-            Expr::IsNull(_) => {
-                let inner_sql = self.pop_sql_expr();
+            Expr::IsNull(inner) => {
+                let inner_sql = parenthesise(self.pop_sql_expr(), inner, ADDITIVE);
                 self.sql_exprs.push(format!("{inner_sql} IS NULL"));
             }
-            Expr::IsNotNull(_) => {
-                let inner_sql = self.pop_sql_expr();
+            Expr::IsNotNull(inner) => {
+                let inner_sql = parenthesise(self.pop_sql_expr(), inner, ADDITIVE);
                 self.sql_exprs.push(format!("{inner_sql} IS NOT NULL"));
             }
-            Expr::IsTrue(_) => {
-                let inner_sql = self.pop_sql_expr();
+            Expr::IsTrue(inner) => {
+                let inner_sql = parenthesise(self.pop_sql_expr(), inner, ADDITIVE);
                 self.sql_exprs.push(format!("{inner_sql} IS TRUE"));
             }
-            Expr::IsFalse(_) => {
-                let inner_sql = self.pop_sql_expr();
+            Expr::IsFalse(inner) => {
+                let inner_sql = parenthesise(self.pop_sql_expr(), inner, ADDITIVE);
                 self.sql_exprs.push(format!("{inner_sql} IS FALSE"));
             }
-            Expr::IsNotTrue(_) => {
-                let inner_sql = self.pop_sql_expr();
+            Expr::IsNotTrue(inner) => {
+                let inner_sql = parenthesise(self.pop_sql_expr(), inner, ADDITIVE);
                 self.sql_exprs.push(format!("{inner_sql} IS NOT TRUE"));
             }
-            Expr::IsNotFalse(_) => {
-                let inner_sql = self.pop_sql_expr();
+            Expr::IsNotFalse(inner) => {
+                let inner_sql = parenthesise(self.pop_sql_expr(), inner, ADDITIVE);
                 self.sql_exprs.push(format!("{inner_sql} IS NOT FALSE"));
             }
-            Expr::InList(InList { list, negated, .. }) => {
+            Expr::InList(InList {
+                expr: inner,
+                list,
+                negated,
+            }) => {
                 // The N elements of the list are on the top of the stack, we need to pop them first
                 let index = self.sql_exprs.len() - list.len();
                 let list_sql = self.sql_exprs.split_off(index).iter().join(", ");
                 // Now consume the expression
-                let expr_sql = self.pop_sql_expr();
+                let expr_sql = parenthesise(self.pop_sql_expr(), inner, ADDITIVE);
                 if *negated {
                     self.sql_exprs
                         .push(format!("{expr_sql} NOT IN ({list_sql})"));
-- 
2.43.0


From 45e3ec4a29ba60eacb2e4e687950a8e36832e406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:13 +0000
Subject: [PATCH 02/42] fix: only push down literals that have an exact SQL
 form

---
 .../src/filter_pushdown.rs                    | 40 +++++++++++++++++--
 1 file changed, 36 insertions(+), 4 deletions(-)

diff --git a/datafusion_remote_tables/src/filter_pushdown.rs b/datafusion_remote_tables/src/filter_pushdown.rs
index 82a377e..e1a21ed 100644
--- a/datafusion_remote_tables/src/filter_pushdown.rs
+++ b/datafusion_remote_tables/src/filter_pushdown.rs
@@ -52,6 +52,15 @@ impl FilterPushdownConverter for MySQLFilterPushdown {
         quote_identifier_backticks(&col.name)
     }
 
+    fn string_to_sql(&self, val: &str) -> Option<String> {
+        // Whether a backslash starts an escape sequence depends on the sql_mode of the server
+        if val.contains('\\') {
+            None
+        } else {
+            Some(quote_string(val))
+        }
+    }
+
     fn op_to_sql(&self, op: &Operator) -> Option<String> {
         match op {
             // TODO: see if there's a way to convert the non-case sensitive match
@@ -69,11 +78,15 @@ pub trait FilterPushdownConverter {
         quote_identifier_double_quotes(&col.name)
     }
 
+    fn string_to_sql(&self, val: &str) -> Option<String> {
+        Some(quote_string(val))
+    }
+
     fn scalar_value_to_sql(&self, value: &ScalarValue) -> Option<String> {
         match value {
-            ScalarValue::Utf8(Some(val)) | ScalarValue::LargeUtf8(Some(val)) => {
-                Some(format!("'{}'", val.replace('\'', "''")))
-            }
+            ScalarValue::Utf8(Some(val))
+            | ScalarValue::LargeUtf8(Some(val))
+            | ScalarValue::Utf8View(Some(val)) => self.string_to_sql(val),
             ScalarValue::Date32(Some(days)) => {
                 let date = date32_to_datetime(*days)?.date();
                 Some(format!("'{date}'"))
@@ -99,7 +112,22 @@ pub trait FilterPushdownConverter {
             | ScalarValue::TimestampMillisecond(_, Some(_))
             | ScalarValue::TimestampMicrosecond(_, Some(_))
             | ScalarValue::TimestampNanosecond(_, Some(_)) => None,
-            _ => Some(format!("{value}")),
+            ScalarValue::Float32(Some(val)) if !val.is_finite() => None,
+            ScalarValue::Float64(Some(val)) if !val.is_finite() => None,
+            ScalarValue::Null
+            | ScalarValue::Boolean(_)
+            | ScalarValue::Int8(_)
+            | ScalarValue::Int16(_)
+            | ScalarValue::Int32(_)
+            | ScalarValue::Int64(_)
+            | ScalarValue::UInt8(_)
+            | ScalarValue::UInt16(_)
+            | ScalarValue::UInt32(_)
+            | ScalarValue::UInt64(_)
+            | ScalarValue::Float32(_)
+            | ScalarValue::Float64(_) => Some(format!("{value}")),
+            // The display form of the other types is not a SQL literal
+            _ => None,
         }
     }
 
@@ -300,6 +328,10 @@ pub fn quote_identifier_backticks(name: &str) -> String {
     format!("`{}`", name.replace('`', "``"))
 }
 
+fn quote_string(val: &str) -> String {
+    format!("'{}'", val.replace('\'', "''"))
+}
+
 // Walk the filter expression AST for a particular remote source type and see if the expression is
 // ship-able, at the same time converting elements (e.g. operators) to the native representation if
 // needed.
-- 
2.43.0


From af94ec64784ce17b580387d4d51ea83956c4be7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:13 +0000
Subject: [PATCH 03/42] fix: do not push down operators that a remote dialect
 lacks or reads differently

---
 .../src/filter_pushdown.rs                    | 26 ++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/datafusion_remote_tables/src/filter_pushdown.rs b/datafusion_remote_tables/src/filter_pushdown.rs
index e1a21ed..f749ba6 100644
--- a/datafusion_remote_tables/src/filter_pushdown.rs
+++ b/datafusion_remote_tables/src/filter_pushdown.rs
@@ -32,7 +32,14 @@ pub struct PostgresFilterPushdown {}
 pub struct SQLiteFilterPushdown {}
 pub struct MySQLFilterPushdown {}
 
-impl FilterPushdownConverter for PostgresFilterPushdown {}
+impl FilterPushdownConverter for PostgresFilterPushdown {
+    fn op_to_sql(&self, op: &Operator) -> Option<String> {
+        match op {
+            Operator::BitwiseXor => Some("#".to_string()),
+            _ => Some(op.to_string()),
+        }
+    }
+}
 
 impl FilterPushdownConverter for SQLiteFilterPushdown {
     fn op_to_sql(&self, op: &Operator) -> Option<String> {
@@ -41,6 +48,12 @@ impl FilterPushdownConverter for SQLiteFilterPushdown {
             | Operator::RegexIMatch
             | Operator::RegexNotMatch
             | Operator::RegexNotIMatch
+            | Operator::LikeMatch
+            | Operator::ILikeMatch
+            | Operator::NotLikeMatch
+            | Operator::NotILikeMatch
+            | Operator::AtArrow
+            | Operator::ArrowAt
             | Operator::BitwiseXor => None,
             _ => Some(op.to_string()),
         }
@@ -65,6 +78,17 @@ impl FilterPushdownConverter for MySQLFilterPushdown {
         match op {
             // TODO: see if there's a way to convert the non-case sensitive match
             Operator::RegexIMatch | Operator::RegexNotIMatch => None,
+            // Not available, or (|| and /) meaning logical OR and non-integer division
+            Operator::LikeMatch
+            | Operator::ILikeMatch
+            | Operator::NotLikeMatch
+            | Operator::NotILikeMatch
+            | Operator::AtArrow
+            | Operator::ArrowAt
+            | Operator::IsDistinctFrom
+            | Operator::IsNotDistinctFrom
+            | Operator::StringConcat
+            | Operator::Divide => None,
             Operator::RegexMatch => Some("RLIKE".to_string()),
             Operator::RegexNotMatch => Some("NOT RLIKE".to_string()),
             Operator::BitwiseXor => Some("^".to_string()),
-- 
2.43.0


From 66fa090250458a9cc91cb4a7f51ee6b294701a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:44 +0000
Subject: [PATCH 04/42] fix: validate decimal precision and scale before
 narrowing them

---
 src/datafusion/utils.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/datafusion/utils.rs b/src/datafusion/utils.rs
index 440a730..1f2875e 100644
--- a/src/datafusion/utils.rs
+++ b/src/datafusion/utils.rs
@@ -185,25 +185,28 @@ pub(crate) fn make_decimal_type(
 ) -> Result<DataType> {
     // postgres like behavior
     let (precision, scale) = match (precision, scale) {
-        (Some(p), Some(s)) => (p as u8, s as i8),
-        (Some(p), None) => (p as u8, 0),
+        (Some(p), Some(s)) => (p, s),
+        (Some(p), None) => (p, 0),
         (None, Some(_)) => {
             return Err(DataFusionError::Internal(
                 "Cannot specify only scale for decimal data type".to_string(),
             ))
         }
-        (None, None) => (DECIMAL128_MAX_PRECISION, DECIMAL_DEFAULT_SCALE),
+        (None, None) => (
+            DECIMAL128_MAX_PRECISION as u64,
+            DECIMAL_DEFAULT_SCALE as u64,
+        ),
     };
 
     // Arrow decimal is i128 meaning 38 maximum decimal digits
     if precision == 0
-        || precision > DECIMAL128_MAX_PRECISION
-        || scale.unsigned_abs() > precision
+        || precision > DECIMAL128_MAX_PRECISION as u64
+        || scale > precision
     {
         Err(DataFusionError::Internal(format!(
             "Decimal(precision = {precision}, scale = {scale}) should satisfy `0 < precision <= 38`, and `scale <= precision`."
         )))
     } else {
-        Ok(DataType::Decimal128(precision, scale))
+        Ok(DataType::Decimal128(precision as u8, scale as i8))
     }
 }
-- 
2.43.0


From 25814d42d061762728319ebdb956185eddec313f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:35 +0000
Subject: [PATCH 05/42] fix: do not sign-extend the low half of a decimal UDF
 result

---
 src/wasm_udf/wasm.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wasm_udf/wasm.rs b/src/wasm_udf/wasm.rs
index 9b875be..f9847d0 100644
--- a/src/wasm_udf/wasm.rs
+++ b/src/wasm_udf/wasm.rs
@@ -521,7 +521,8 @@ fn messagepack_decode_results(
                                 .ok_or(DataFusionError::Internal(format!("Decimal value high half expected to be integer, found {:?} instead", decimal_array[2])))?;
                             let low = decimal_array[3].as_i64()
                                 .ok_or(DataFusionError::Internal(format!("Decimal value low half expected to be integer, found {:?} instead", decimal_array[3])))?;
-                            let value:i128 = (low as i128) + ((high as i128) << 64);
+                            // the low half holds the lower 64 bits and carries no sign of its own
+                            let value:i128 = ((high as i128) << 64) | (low as u64 as i128);
                             Ok(value)
                         }),
                 )
-- 
2.43.0


From 19dcde952777fc1dbb40c7f231483de62e4da93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:35 +0000
Subject: [PATCH 06/42] fix: refuse decimal UDF results that exceed the
 declared precision

---
 src/wasm_udf/wasm.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wasm_udf/wasm.rs b/src/wasm_udf/wasm.rs
index f9847d0..89ecba8 100644
--- a/src/wasm_udf/wasm.rs
+++ b/src/wasm_udf/wasm.rs
@@ -533,6 +533,8 @@ fn messagepack_decode_results(
                 let arr = (a as arrow::array::Decimal128Array)
                     .with_precision_and_scale(*p, *s)
                     .map_err(|e| DataFusionError::Internal(format!("Error setting precision {:?} scale {:?} for decimal result: {:?}", *p, *s, e)))?;
+                arr.validate_decimal_precision(*p)
+                    .map_err(|e| DataFusionError::Internal(format!("Decimal result does not fit precision {:?}: {:?}", *p, e)))?;
                 Ok(Arc::new(arr) as ArrayRef)
             }),
     }
-- 
2.43.0


From 120a9b2fe45613e850bc2788a1f5f75eaff7f9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:35 +0000
Subject: [PATCH 07/42] fix: write only the 4-byte size prefix into UDF memory
 and treat its addresses as unsigned

---
 src/wasm_udf/wasm.rs | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/wasm_udf/wasm.rs b/src/wasm_udf/wasm.rs
index 89ecba8..0d929c7 100644
--- a/src/wasm_udf/wasm.rs
+++ b/src/wasm_udf/wasm.rs
@@ -128,7 +128,8 @@ impl WasmMessagePackUDFInstance {
     }
 
     fn read_udf_output(&mut self, udf_output_ptr: i32) -> Result<(Value, i32)> {
-        let ptr: usize = udf_output_ptr.try_into().unwrap();
+        // WASM addresses are unsigned 32-bit integers
+        let ptr: usize = udf_output_ptr as u32 as usize;
         let mut size_buffer = [0u8; SIZE_BYTE_COUNT];
         self.memory
             .read(&self.store, ptr, &mut size_buffer)
@@ -137,7 +138,7 @@ impl WasmMessagePackUDFInstance {
                     "Error reading UDF output buffer size: {err:?}"
                 ))
             })?;
-        let size: usize = i32::from_ne_bytes(size_buffer).try_into().map_err(|e| {
+        let size: usize = i32::from_le_bytes(size_buffer).try_into().map_err(|e| {
             DataFusionError::Internal(format!(
                 "Error interpreting output buffer size as i32: {e:?}"
             ))
@@ -161,7 +162,12 @@ impl WasmMessagePackUDFInstance {
                 ))
             })?;
         // return the entire size of the output buffer (including i32 size prefix) so it can be passed to dealloc() later
-        let result: (Value, i32) = (output, (size + SIZE_BYTE_COUNT).try_into().unwrap());
+        let output_size: i32 = (size + SIZE_BYTE_COUNT).try_into().map_err(|e| {
+            DataFusionError::Internal(format!(
+                "Error interpreting total output size as i32: {e:?}"
+            ))
+        })?;
+        let result: (Value, i32) = (output, output_size);
         Ok(result)
     }
 
@@ -177,20 +183,25 @@ impl WasmMessagePackUDFInstance {
             })?;
         // Total input size will be serialized messagepack bytes prepended by the
         // size of the serialized input (one i32 == 4 bytes)
-        let udf_input_size: usize = udf_input_buf.len() + SIZE_BYTE_COUNT;
+        let udf_input_size: i32 = (udf_input_buf.len() + SIZE_BYTE_COUNT)
+            .try_into()
+            .map_err(|e| {
+                DataFusionError::Internal(format!("UDF input is too large: {e:?}"))
+            })?;
+        let size_prefix = (udf_input_buf.len() as u32).to_le_bytes();
         // allocate WASM memory for input buffer
         let udf_input_ptr = self
             .alloc
-            .call(&mut self.store, udf_input_size.try_into().unwrap())
+            .call(&mut self.store, udf_input_size)
             .map_err(|e| {
                 DataFusionError::Internal(format!(
                     "Error allocating input buffer in WASM memory: {e:?}"
                 ))
             })?;
-        let ptr: usize = udf_input_ptr.try_into().unwrap();
+        let ptr: usize = udf_input_ptr as u32 as usize;
         // write size of input buffer first
         self.memory
-            .write(&mut self.store, ptr, &udf_input_buf.len().to_ne_bytes())
+            .write(&mut self.store, ptr, &size_prefix)
             .map_err(|err| {
                 DataFusionError::Internal(format!(
                     "Error copying input buffer size to WASM memory: {err:?}"
@@ -209,7 +220,7 @@ impl WasmMessagePackUDFInstance {
                 ))
             })?;
         // return the entire size of the output buffer (including i32 size prefix) so it can be passed to dealloc() later
-        Ok((udf_input_ptr, udf_input_size.try_into().unwrap()))
+        Ok((udf_input_ptr, udf_input_size))
     }
 
     pub fn call(&mut self, input: Vec<Value>) -> Result<Value> {
-- 
2.43.0


From 640ede507caf036873b0816e02b0957c435a3162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:04 +0000
Subject: [PATCH 08/42] fix: refuse unsupported WASM argument types instead of
 panicking

---
 src/wasm_udf/wasm.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wasm_udf/wasm.rs b/src/wasm_udf/wasm.rs
index 0d929c7..9e6da9f 100644
--- a/src/wasm_udf/wasm.rs
+++ b/src/wasm_udf/wasm.rs
@@ -797,8 +797,8 @@ pub fn create_udf_from_wasm(
         CreateFunctionLanguage::Wasm => {
             let converted_input_types = input_types
                 .iter()
-                .map(|t| get_wasm_type(t).unwrap())
-                .collect();
+                .map(get_wasm_type)
+                .collect::<Result<Vec<_>>>()?;
             make_scalar_function_from_wasm(
                 module_bytes,
                 function_name,
-- 
2.43.0


From 73e4407c3d126a0c329899711108d73cbc4b2e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:04 +0000
Subject: [PATCH 09/42] fix: evaluate UDFs over empty batches and without
 arguments

---
 src/wasm_udf/wasm.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/wasm_udf/wasm.rs b/src/wasm_udf/wasm.rs
index 9e6da9f..e272427 100644
--- a/src/wasm_udf/wasm.rs
+++ b/src/wasm_udf/wasm.rs
@@ -8,7 +8,7 @@ use datafusion::{
         array::{ArrayRef, Float32Array, Float64Array, Int32Array, Int64Array},
         datatypes::{DataType, TimeUnit},
     },
-    common::DataFusionError,
+    common::{DataFusionError, ScalarValue},
     logical_expr::{ScalarFunctionImplementation, ScalarUDF, Volatility},
 };
 
@@ -556,12 +556,11 @@ fn messagepack_decode_results(
 fn columnar_values_to_array(args: &[ColumnarValue]) -> Result<Vec<ArrayRef>> {
     let inferred_length = args
         .iter()
-        .map(|v| match v {
-            ColumnarValue::Array(array) => array.len(),
-            ColumnarValue::Scalar(_) => 1,
+        .find_map(|v| match v {
+            ColumnarValue::Array(array) => Some(array.len()),
+            ColumnarValue::Scalar(_) => None,
         })
-        .max()
-        .unwrap_or(0);
+        .unwrap_or(1);
 
     args.iter()
         .map(|arg| arg.clone().into_array(inferred_length))
@@ -604,7 +603,7 @@ fn make_scalar_function_wasm_messagepack(
         let args = columnar_values_to_array(args)?;
 
         // Length of the vectorized array
-        let array_len = args.first().unwrap().len();
+        let array_len = args.first().map_or(1, |a| a.len());
 
         // Buffer for the results
         let mut encoded_results: Vec<Value> = Vec::with_capacity(array_len);
@@ -630,6 +629,10 @@ fn make_scalar_function_wasm_messagepack(
         }
 
         let array = messagepack_decode_results(&return_type, &encoded_results)?;
+        if args.is_empty() {
+            // without arguments one value stands for all rows
+            return ScalarValue::try_from_array(&array, 0).map(ColumnarValue::Scalar);
+        }
         Ok(ColumnarValue::from(array))
     };
 
@@ -694,7 +697,7 @@ fn make_scalar_function_from_wasm(
         let args = columnar_values_to_array(args)?;
 
         // Length of the vectorized array
-        let array_len = args.first().unwrap().len();
+        let array_len = args.first().map_or(1, |a| a.len());
 
         // Buffer for the results
         let mut results: Vec<Val> = Vec::new();
@@ -772,6 +775,10 @@ fn make_scalar_function_from_wasm(
             ) as ArrayRef,
             _ => panic!("unexpected type"),
         };
+        if args.is_empty() {
+            // without arguments one value stands for all rows
+            return ScalarValue::try_from_array(&array, 0).map(ColumnarValue::Scalar);
+        }
         Ok(ColumnarValue::from(array))
     };
 
-- 
2.43.0


From f4f942d8ac4047907fe70b77f72efae8f7fafad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:32 +0000
Subject: [PATCH 10/42] fix: report a WASM function that returns another type
 instead of panicking

---
 src/wasm_udf/wasm.rs | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/wasm_udf/wasm.rs b/src/wasm_udf/wasm.rs
index e272427..ea24cdf 100644
--- a/src/wasm_udf/wasm.rs
+++ b/src/wasm_udf/wasm.rs
@@ -745,33 +745,37 @@ fn make_scalar_function_from_wasm(
         }
 
         // Convert the results back into Arrow (Arc<dyn Array>)
-        // These functions panic on type mismatches, which shouldn't happen because
-        // we pre-validated them above (unless the function returns a different type
-        // than it advertised)
+        // These conversions fail if the function returns a different type than it
+        // advertised
+        let wrong_type = |v: &Val| {
+            DataFusionError::Execution(format!(
+                "Function {function_name:?} returned {v:?} instead of {return_type:?}"
+            ))
+        };
         let array = match return_type {
             ValType::I32 => Arc::new(
                 results
                     .iter()
-                    .map(|r| r.unwrap_i32())
-                    .collect::<Int32Array>(),
+                    .map(|r| r.i32().ok_or_else(|| wrong_type(r)))
+                    .collect::<Result<Int32Array>>()?,
             ) as ArrayRef,
             ValType::I64 => Arc::new(
                 results
                     .iter()
-                    .map(|r| r.unwrap_i64())
-                    .collect::<Int64Array>(),
+                    .map(|r| r.i64().ok_or_else(|| wrong_type(r)))
+                    .collect::<Result<Int64Array>>()?,
             ) as ArrayRef,
             ValType::F32 => Arc::new(
                 results
                     .iter()
-                    .map(|r| r.unwrap_f32())
-                    .collect::<Float32Array>(),
+                    .map(|r| r.f32().ok_or_else(|| wrong_type(r)))
+                    .collect::<Result<Float32Array>>()?,
             ) as ArrayRef,
             ValType::F64 => Arc::new(
                 results
                     .iter()
-                    .map(|r| r.unwrap_f64())
-                    .collect::<Float64Array>(),
+                    .map(|r| r.f64().ok_or_else(|| wrong_type(r)))
+                    .collect::<Result<Float64Array>>()?,
             ) as ArrayRef,
             _ => panic!("unexpected type"),
         };
-- 
2.43.0


From 427db1c58566e5ab63533e5f975bc18e6b4019c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:07 +0000
Subject: [PATCH 11/42] fix: resolve time travel table names the way the
 planner does

---
 src/context/logical.rs | 10 +++++++---
 src/version.rs         | 18 ++++++++++++------
 2 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/context/logical.rs b/src/context/logical.rs
index 78fa6e7..004b933 100644
--- a/src/context/logical.rs
+++ b/src/context/logical.rs
@@ -361,9 +361,13 @@ impl SeafowlContext {
             let name_with_version =
                 TableVersionProcessor::table_with_version(table, version);
 
-            let full_table_name = table.to_string();
-            let mut resolved_ref = TableReference::from(full_table_name.as_str())
-                .resolve(&self.default_catalog, &self.default_schema);
+            // The parts of the name are already normalized, so take them as they are
+            let mut resolved_ref = TableReference::full(
+                table.0[0].value.as_str(),
+                table.0[1].value.as_str(),
+                table.0[2].value.as_str(),
+            )
+            .resolve(&self.default_catalog, &self.default_schema);
 
             // We only support datetime DeltaTable version specification for start
             let table_uuid = self.get_table_uuid(resolved_ref.clone()).await?;
diff --git a/src/version.rs b/src/version.rs
index f45ad52..363dcd8 100644
--- a/src/version.rs
+++ b/src/version.rs
@@ -1,6 +1,6 @@
 use chrono::{DateTime, FixedOffset, NaiveDateTime, Utc};
 use datafusion::error::{DataFusionError, Result};
-use datafusion::sql::TableReference;
+use datafusion::sql::planner::object_name_to_table_reference;
 use sqlparser::ast::{
     Expr, FunctionArg, FunctionArgExpr, Ident, ObjectName, TableFactor,
     TableFunctionArgs, Value, VisitorMut,
@@ -78,13 +78,19 @@ impl VisitorMut for TableVersionProcessor {
                     Value::SingleQuotedString(value),
                 )))] = &func_args[..]
                 {
-                    let unresolved_name = name.to_string();
-                    let resolved_ref = TableReference::from(unresolved_name.as_str())
+                    // Resolve the name in the same way as the planner will do; it will reject
+                    // a name with too many parts
+                    let Ok(table_ref) =
+                        object_name_to_table_reference(name.clone(), true)
+                    else {
+                        return ControlFlow::Continue(());
+                    };
+                    let resolved_ref = table_ref
                         .resolve(&self.default_catalog, &self.default_schema);
                     let full_object_name = ObjectName(vec![
-                        Ident::new(resolved_ref.catalog.as_ref()),
-                        Ident::new(resolved_ref.schema.as_ref()),
-                        Ident::new(resolved_ref.table.as_ref()),
+                        Ident::with_quote('"', resolved_ref.catalog.as_ref()),
+                        Ident::with_quote('"', resolved_ref.schema.as_ref()),
+                        Ident::with_quote('"', resolved_ref.table.as_ref()),
                     ]);
 
                     self.table_versions
-- 
2.43.0


From 9bc3b5652bdad8739518b31ae3fefb4ac1715e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:07 +0000
Subject: [PATCH 12/42] fix: keep the statement delimiter after COPY

---
 src/datafusion/parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/datafusion/parser.rs b/src/datafusion/parser.rs
index 0452316..f7ee905 100644
--- a/src/datafusion/parser.rs
+++ b/src/datafusion/parser.rs
@@ -310,7 +310,8 @@ impl<'a> DFParser<'a> {
                     }
                 }
             } else {
-                let token = self.parser.next_token();
+                // Leave the delimiter for the statement loop
+                let token = self.parser.peek_token();
                 if token == Token::EOF || token == Token::SemiColon {
                     break;
                 } else {
-- 
2.43.0


From c08542841539aaf8f58f988a01c30b4b9cca2271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:07 +0000
Subject: [PATCH 13/42] fix: refuse a qualified name in VACUUM DATABASE

---
 src/datafusion/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/datafusion/parser.rs b/src/datafusion/parser.rs
index f7ee905..92176f2 100644
--- a/src/datafusion/parser.rs
+++ b/src/datafusion/parser.rs
@@ -212,7 +212,7 @@ impl<'a> DFParser<'a> {
         if self.parser.parse_keyword(Keyword::TABLE) {
             table_name = self.parser.parse_object_name(true)?;
         } else if self.parser.parse_keyword(Keyword::DATABASE) {
-            let database_name = self.parser.parse_object_name(false)?.0[0].clone();
+            let database_name = self.parser.parse_identifier(false)?;
             partitions = Some(vec![Expr::Identifier(database_name)]);
         } else {
             return self.expected(
-- 
2.43.0


From 9cf6be4ffcd160e74785b3dc5c9f0bc857eef1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:07 +0000
Subject: [PATCH 14/42] fix: do not lose OR REPLACE of statements parsed by
 sqlparser

---
 src/datafusion/parser.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/datafusion/parser.rs b/src/datafusion/parser.rs
index 92176f2..481114e 100644
--- a/src/datafusion/parser.rs
+++ b/src/datafusion/parser.rs
@@ -401,8 +401,13 @@ impl<'a> DFParser<'a> {
         else if self.parser.parse_keyword(Keyword::FUNCTION) {
             // assume we don't have CREATE TEMPORARY FUNCTION (since we don't care about TEMPORARY)
             self.parse_create_function(or_replace, false)
-        // XXX SEAFOWL: change ends here
         } else {
+            if or_replace {
+                // Hand `OR REPLACE` back, sqlparser expects to parse it itself
+                self.parser.prev_token();
+                self.parser.prev_token();
+            }
+            // XXX SEAFOWL: change ends here
             Ok(Statement::Statement(Box::from(self.parser.parse_create()?)))
         }
     }
-- 
2.43.0


From f603c0ab5430cb42ed9d52ab56e6f1d8df8fb1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:16 +0000
Subject: [PATCH 15/42] fix: create a table version and its columns in one
 transaction

---
 src/repository/default.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/repository/default.rs b/src/repository/default.rs
index aa853d9..3624f9f 100644
--- a/src/repository/default.rs
+++ b/src/repository/default.rs
@@ -254,8 +254,6 @@ impl Repository for $repo {
         .await.map_err($repo::interpret_error)?
         .try_get("id").map_err($repo::interpret_error)?;
 
-        tx.commit().await.map_err($repo::interpret_error)?;
-
         // Create columns
         // TODO this breaks if we have more than (bind limit) columns
         if !schema.fields().is_empty() {
@@ -274,9 +272,11 @@ impl Repository for $repo {
             });
 
             let query = builder.build();
-            query.execute(&self.executor).await.map_err($repo::interpret_error)?;
+            query.execute(&mut *tx).await.map_err($repo::interpret_error)?;
         }
 
+        tx.commit().await.map_err($repo::interpret_error)?;
+
         Ok((new_table_id, new_version_id))
     }
 
@@ -301,18 +301,18 @@ impl Repository for $repo {
         uuid: Uuid,
         version: i64,
     ) -> Result<TableVersionId, Error> {
+        let mut tx = self.executor.begin().await.map_err($repo::interpret_error)?;
+
         // For now we only support linear history
         let last_version_id: TableVersionId = sqlx::query(r#"SELECT max(table_version.id) AS id
                 FROM table_version
                 JOIN "table" ON table_version.table_id = "table".id
                 WHERE "table".uuid = $1"#)
             .bind(uuid)
-            .fetch_one(&self.executor)
+            .fetch_one(&mut *tx)
             .await.map_err($repo::interpret_error)?
             .try_get("id").map_err($repo::interpret_error)?;
 
-        let mut tx = self.executor.begin().await.map_err($repo::interpret_error)?;
-
         let new_version_id = sqlx::query(
             "INSERT INTO table_version (table_id, version)
             SELECT table_id, $1 FROM table_version WHERE id = $2
@@ -324,17 +324,17 @@ impl Repository for $repo {
         .await.map_err($repo::interpret_error)?
         .try_get("id").map_err($repo::interpret_error)?;
 
-        tx.commit().await.map_err($repo::interpret_error)?;
-
         sqlx::query(
             "INSERT INTO table_column (table_version_id, name, type)
             SELECT $2, name, type FROM table_column WHERE table_version_id = $1;",
         )
         .bind(last_version_id)
         .bind(new_version_id)
-        .execute(&self.executor)
+        .execute(&mut *tx)
         .await.map_err($repo::interpret_error)?;
 
+        tx.commit().await.map_err($repo::interpret_error)?;
+
         Ok(new_version_id)
     }
 
-- 
2.43.0


From c645a16ed41357a673050df2fbecfb7454c0233d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:16 +0000
Subject: [PATCH 16/42] fix: give every name in DROP FUNCTION its own
 placeholder

---
 src/repository/default.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/repository/default.rs b/src/repository/default.rs
index 3624f9f..cb636a9 100644
--- a/src/repository/default.rs
+++ b/src/repository/default.rs
@@ -489,7 +489,12 @@ impl Repository for $repo {
             AND name IN ({})
             RETURNING id;
             "#,
-            func_names.iter().map(|_| "$2").collect::<Vec<_>>().join(", ")
+            func_names
+                .iter()
+                .enumerate()
+                .map(|(i, _)| format!("${}", i + 2))
+                .collect::<Vec<_>>()
+                .join(", ")
         );
 
         let mut tx = self.executor.begin().await.map_err($repo::interpret_error)?;
-- 
2.43.0


From 0bbef2ee4489ed5bf1f51dc8f0e19b6a3820c232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:16 +0000
Subject: [PATCH 17/42] fix: store the deletion status of a dropped table by
 its name

---
 src/repository/default.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/repository/default.rs b/src/repository/default.rs
index cb636a9..47d9c82 100644
--- a/src/repository/default.rs
+++ b/src/repository/default.rs
@@ -579,7 +579,7 @@ impl Repository for $repo {
     async fn update_dropped_table(&self, uuid: Uuid, deletion_status: DroppedTableDeletionStatus) -> Result<(), Error> {
         let mut tx = self.executor.begin().await.map_err($repo::interpret_error)?;
         sqlx::query("UPDATE dropped_table SET deletion_status = $1 WHERE uuid = $2 RETURNING uuid")
-            .bind(deletion_status)
+            .bind(deletion_status.to_string())
             .bind(uuid)
             .fetch_one(&mut *tx)
             .await.map_err($repo::interpret_error)?;
-- 
2.43.0


From ef1db0b2446b239458163614f29798f406fc13dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:34 +0000
Subject: [PATCH 18/42] fix: queries that write (SELECT INTO, EXPLAIN ANALYZE
 of a write) are not reads

is_statement_read_only took every Query and every Explain for a read, so a client allowed to
read only could create tables with SELECT .. INTO or run a write with EXPLAIN ANALYZE.
---
 src/context/logical.rs | 35 ++++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/src/context/logical.rs b/src/context/logical.rs
index 004b933..b58cb5e 100644
--- a/src/context/logical.rs
+++ b/src/context/logical.rs
@@ -28,7 +28,7 @@ use itertools::Itertools;
 use sqlparser::ast::{
     AlterTableOperation, CreateFunction as CreateFunctionSql, CreateFunctionBody,
     CreateTable as CreateTableSql, Expr as SqlExpr, Expr, Insert, ObjectType, Query,
-    Statement, TableFactor, TableWithJoins, Value, VisitMut,
+    SetExpr, Statement, TableFactor, TableWithJoins, Value, VisitMut,
 };
 use std::sync::Arc;
 use tracing::debug;
@@ -46,17 +46,38 @@ pub fn is_read_only(plan: &LogicalPlan) -> bool {
 
 pub fn is_statement_read_only(statement: &DFStatement) -> bool {
     if let DFStatement::Statement(s) = statement {
-        matches!(
-            **s,
-            Statement::Query(_)
-                | Statement::Explain { .. }
-                | Statement::ShowTables { .. }
-        )
+        is_sql_statement_read_only(s)
     } else {
         false
     }
 }
 
+fn is_sql_statement_read_only(statement: &Statement) -> bool {
+    match statement {
+        Statement::Query(query) => is_query_body_read_only(&query.body),
+        // `EXPLAIN ANALYZE` executes the statement that is being explained
+        Statement::Explain {
+            analyze, statement, ..
+        } => !*analyze || is_sql_statement_read_only(statement),
+        Statement::ShowTables { .. } => true,
+        _ => false,
+    }
+}
+
+// `SELECT .. INTO new_table` is planned as a `CREATE TABLE new_table AS`, and a query can also have
+// a data-modifying statement as its body (e.g. `WITH .. INSERT`).
+fn is_query_body_read_only(body: &SetExpr) -> bool {
+    match body {
+        SetExpr::Select(select) => select.into.is_none(),
+        SetExpr::Query(query) => is_query_body_read_only(&query.body),
+        SetExpr::SetOperation { left, right, .. } => {
+            is_query_body_read_only(left) && is_query_body_read_only(right)
+        }
+        SetExpr::Values(_) | SetExpr::Table(_) => true,
+        SetExpr::Insert(_) | SetExpr::Update(_) => false,
+    }
+}
+
 impl SeafowlContext {
     pub async fn create_logical_plan(&self, sql: &str) -> Result<LogicalPlan> {
         let mut statements = self.parse_query(sql).await?;
-- 
2.43.0


From 7836570a093083cd9bc3f0857dad4ad03bd42c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:34 +0000
Subject: [PATCH 19/42] fix: strip the Bearer prefix from the Authorization
 header once

trim_start_matches removed every repetition of the prefix, so a token that itself starts with
it was rejected and several different headers were taken for the same token.
---
 src/frontend/http.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/frontend/http.rs b/src/frontend/http.rs
index b55e619..6af1247 100644
--- a/src/frontend/http.rs
+++ b/src/frontend/http.rs
@@ -238,11 +238,9 @@ fn header_to_user_context(
 ) -> Result<UserContext, ApiError> {
     let token = header
         .map(|h| {
-            if h.starts_with(BEARER_PREFIX) {
-                Ok(h.trim_start_matches(BEARER_PREFIX).to_string())
-            } else {
-                Err(ApiError::InvalidAuthorizationHeader)
-            }
+            h.strip_prefix(BEARER_PREFIX)
+                .map(|token| token.to_string())
+                .ok_or(ApiError::InvalidAuthorizationHeader)
         })
         .transpose()?;
 
-- 
2.43.0


From 62b195fd4e214392be5c296c8199755a9b4bce42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:49 +0000
Subject: [PATCH 20/42] fix: cache every chunk of a short batch under its own
 key only

When the object ended inside a batch of chunks, the remainder of the batch was cached under each of
the last keys, so that later reads returned its bytes more than once.
---
 src/object_store/cache.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/object_store/cache.rs b/src/object_store/cache.rs
index 5b045de..b1920d8 100644
--- a/src/object_store/cache.rs
+++ b/src/object_store/cache.rs
@@ -515,12 +515,10 @@ impl CachingObjectStore {
                 result.extend_from_slice(&batch_data);
 
                 for key in &chunk_batch {
-                    // Split the next chunk from the batch
-                    let data = if batch_data.len() < self.min_fetch_size as usize {
-                        batch_data.clone()
-                    } else {
-                        batch_data.split_to(self.min_fetch_size as usize)
-                    };
+                    // Split the next chunk from the batch; it is shorter (or empty) if the object
+                    // ends before the end of the chunk
+                    let data = batch_data
+                        .split_to(batch_data.len().min(self.min_fetch_size as usize));
 
                     self.cache_chunk_data(key.clone(), data).await;
                 }
-- 
2.43.0


From 26d50529194217248e446d26cd3412c86dcf4aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:49 +0000
Subject: [PATCH 21/42] fix: do not use a cache file that has not been written
 out completely

---
 src/object_store/cache.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/object_store/cache.rs b/src/object_store/cache.rs
index b1920d8..77264fd 100644
--- a/src/object_store/cache.rs
+++ b/src/object_store/cache.rs
@@ -477,13 +477,15 @@ impl CachingObjectStore {
                             self.metrics.log_cache_memory_read(data.len());
                             Some(data.clone())
                         }
-                        CacheValue::File(path, _) => {
+                        CacheValue::File(path, size) => {
                             debug!("Cache value for {key:?} fetching from the file");
                             match self.file_manager.read_file(path).await {
-                                Ok(data) => Some(data),
-                                Err(err) => {
+                                // The file may still be in the process of being written out
+                                Ok(data) if data.len() == size => Some(data),
+                                result => {
                                     warn!(
-                                        "Re-downloading cache value for {key:?}: {err}"
+                                        "Re-downloading cache value for {key:?}: {:?}",
+                                        result.err()
                                     );
 
                                     self.metrics.cache_file_missing_errors.increment(1);
-- 
2.43.0


From 2aa3ea84634629723dcb62871d2344a7fa1e659d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:49 +0000
Subject: [PATCH 22/42] fix: empty ranges and ranges past the end of the object
 in the range cache

An empty range underflowed (or read a chunk for nothing), and a range starting past the end panicked.
---
 src/object_store/cache.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/object_store/cache.rs b/src/object_store/cache.rs
index 77264fd..c878923 100644
--- a/src/object_store/cache.rs
+++ b/src/object_store/cache.rs
@@ -660,9 +660,13 @@ impl ObjectStore for CachingObjectStore {
         self.metrics.get_range_calls.increment(1);
         self.metrics
             .get_range_bytes
-            .increment((range.end - range.start).try_into().unwrap());
+            .increment(range.len().try_into().unwrap());
 
         debug!("{location}-{range:?} get_range");
+        if range.is_empty() {
+            return Ok(Bytes::new());
+        }
+
         // Expand the range to the next max_fetch_size (+ alignment)
         let start_chunk = range.start / self.min_fetch_size as usize;
         // The final chunk to fetch (inclusively). E.g. with min_fetch_size = 16:
@@ -676,6 +680,10 @@ impl ObjectStore for CachingObjectStore {
 
         // Finally trim away the expanded range from the chunks that are outside the requested range
         let offset = range.start - start_chunk * self.min_fetch_size as usize;
+        if offset >= data.len() {
+            // The range starts beyond the end of the object, let the store itself handle it
+            return self.get_range_inner(location, range).await;
+        }
         data.advance(offset);
         data.truncate(range.end - range.start);
         debug!("{location}-{range:?} return");
-- 
2.43.0


From a2ff210800f1e3d5368cf48bb72e6c7309c93387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:51 +0000
Subject: [PATCH 23/42] fix: a failure to list a dropped table's objects is not
 a successful deletion

delete_in_prefix skipped listing errors, after which the garbage collection removed the entry of the
dropped table while its objects were still there.
---
 src/object_store/wrapped.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/object_store/wrapped.rs b/src/object_store/wrapped.rs
index a17b10c..7c5d709 100644
--- a/src/object_store/wrapped.rs
+++ b/src/object_store/wrapped.rs
@@ -125,9 +125,8 @@ impl InternalObjectStore {
     pub async fn delete_in_prefix(&self, prefix: &Path) -> Result<(), Error> {
         let mut path_stream = self.inner.list(Some(prefix));
         while let Some(maybe_object) = path_stream.next().await {
-            if let Ok(ObjectMeta { location, .. }) = maybe_object {
-                self.inner.delete(&location).await?;
-            }
+            let ObjectMeta { location, .. } = maybe_object?;
+            self.inner.delete(&location).await?;
         }
         Ok(())
     }
-- 
2.43.0


From 8784b0d8e78db9e23b301a636ec70220731d6c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:47 +0000
Subject: [PATCH 24/42] fix: sync schemas of different lengths are not
 compatible

---
 src/sync/schema/mod.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/sync/schema/mod.rs b/src/sync/schema/mod.rs
index 03342d0..d6ca122 100644
--- a/src/sync/schema/mod.rs
+++ b/src/sync/schema/mod.rs
@@ -181,14 +181,16 @@ impl SyncSchema {
     // This is a shallower check than the equality check, since it checks for the sync column roles,
     // names, data types and order (and doesn't inspect the underlying arrows field equality).
     pub fn is_compatible_with(&self, other: &SyncSchema) -> bool {
-        self.columns()
-            .iter()
-            .zip(other.columns().iter())
-            .all(|(this, other)| {
-                this.name == other.name
-                    && this.role == other.role
-                    && this.field().data_type() == other.field().data_type()
-            })
+        self.columns().len() == other.columns().len()
+            && self
+                .columns()
+                .iter()
+                .zip(other.columns().iter())
+                .all(|(this, other)| {
+                    this.name == other.name
+                        && this.role == other.role
+                        && this.field().data_type() == other.field().data_type()
+                })
     }
 }
 
-- 
2.43.0


From a99e1016ea8fae544d5a04e38cabc217661370d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:47 +0000
Subject: [PATCH 25/42] fix: a sync message without rows left a location that
 is never flushed, so its transaction never became durable

---
 src/sync/writer.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/sync/writer.rs b/src/sync/writer.rs
index 46e99bd..abcb69d 100644
--- a/src/sync/writer.rs
+++ b/src/sync/writer.rs
@@ -217,7 +217,12 @@ impl SeafowlDataSyncWriter {
                 Transaction {
                     origin: origin.clone(),
                     sequence: sequence_number,
-                    locations: HashSet::from([url.clone()]),
+                    // A message without any rows leaves nothing to flush
+                    locations: if sync_rows > 0 {
+                        HashSet::from([url.clone()])
+                    } else {
+                        HashSet::new()
+                    },
                 },
             );
             tx_id
-- 
2.43.0


From 37903513b453844c0e9a0c66feb705b381850eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:53 +0000
Subject: [PATCH 26/42] fix: do not append changes to a batch that is already
 squashed: its rows are not a sequence of changes any more

---
 src/sync/writer.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sync/writer.rs b/src/sync/writer.rs
index abcb69d..658d625 100644
--- a/src/sync/writer.rs
+++ b/src/sync/writer.rs
@@ -237,13 +237,15 @@ impl SeafowlDataSyncWriter {
                 .and_modify(|entry| {
                     let prev_item = entry.syncs.last_mut().unwrap();
                     let (_, prev_rows) = get_size_and_rows(&prev_item.data);
-                    if prev_item.sync_schema.is_compatible_with(&sync_schema)
+                    // The rows of a squashed item no longer form a sequence of changes (e.g. it can
+                    // hold both 1 -> 2 and 2 -> 1), so nothing can be appended to it
+                    if !prev_item.is_squashed
+                        && prev_item.sync_schema.is_compatible_with(&sync_schema)
                         && prev_rows + sync_rows <= MAX_ROWS_PER_SYNC
                     {
                         debug!("{}: Appending batch with schema {} to existing sync collection with {} row(s), schema {}", &url, sync_schema, prev_rows, prev_item.sync_schema);
                         // Just append to the last item if the sync schema matches and the row count
                         // is smaller than a predefined value
-                        prev_item.is_squashed = false;
                         prev_item.tx_ids.push(tx_id);
                         prev_item.data.extend(batches.clone());
                     } else {
-- 
2.43.0


From db92cbd4aeacd19a49ed5c947de061119849c417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:15 +0000
Subject: [PATCH 27/42] fix: a transaction whose last message carries no rows
 became durable only with the next flush of other changes

---
 src/sync/writer.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sync/writer.rs b/src/sync/writer.rs
index 658d625..06c9372 100644
--- a/src/sync/writer.rs
+++ b/src/sync/writer.rs
@@ -330,6 +330,9 @@ impl SeafowlDataSyncWriter {
             self.flush_syncs(url).await?;
         }
 
+        // A transaction can also complete after all of its changes have been flushed already
+        self.advance_durable();
+
         self.metrics.in_memory_oldest.set(
             self.syncs
                 .first()
-- 
2.43.0


From 5b899a0764c0b8f426286628ba64741c84655d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:45 +0000
Subject: [PATCH 28/42] fix: squashing panicked when every change of a batch
 with a Changed column cancels out

---
 src/sync/utils.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/sync/utils.rs b/src/sync/utils.rs
index 39d8e7e..def7345 100644
--- a/src/sync/utils.rs
+++ b/src/sync/utils.rs
@@ -11,7 +11,7 @@ use datafusion::functions_aggregate::min_max::{MaxAccumulator, MinAccumulator};
 use datafusion::physical_optimizer::pruning::PruningStatistics;
 use datafusion_common::{DataFusionError, Result};
 use datafusion_expr::{col, lit, Accumulator, Expr};
-use std::collections::{HashMap, HashSet, VecDeque};
+use std::collections::{HashMap, HashSet};
 use std::sync::Arc;
 use tracing::log::{debug, warn};
 
@@ -168,7 +168,7 @@ pub(super) fn squash_batches(
     let (mut old_pks, mut new_pks, mut changed_rows) = (
         Vec::with_capacity(rows),
         Vec::with_capacity(rows),
-        VecDeque::with_capacity(rows),
+        vec![Vec::with_capacity(rows); changed.len()],
     );
     for (id, (old_pk, new_pk, changed_row)) in column_rows.into_iter().enumerate() {
         if temp_rows.contains(&id) {
@@ -179,10 +179,7 @@ pub(super) fn squash_batches(
         old_pks.push(old_pk);
         new_pks.push(new_pk);
         for (idx, changed_row) in changed_row.iter().enumerate() {
-            match changed_rows.get_mut(idx) {
-                None => changed_rows.push_back(vec![*changed_row]),
-                Some(v) => v.push(*changed_row),
-            };
+            changed_rows[idx].push(*changed_row);
         }
     }
 
-- 
2.43.0


From b7bd66fc749325c897b7d200b80ad1d6ea23a7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:45 +0000
Subject: [PATCH 29/42] fix: each Changed column is squashed by its own rows,
 not by those of the first one

---
 src/sync/utils.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sync/utils.rs b/src/sync/utils.rs
index def7345..7d5be6d 100644
--- a/src/sync/utils.rs
+++ b/src/sync/utils.rs
@@ -206,7 +206,7 @@ pub(super) fn squash_batches(
                 }
                 ColumnRole::Changed => {
                     // Insert the indices for both this column...
-                    indices.insert(col_id, &changed_indices[0]);
+                    indices.insert(col_id, &changed_indices[changed_pos]);
 
                     // ... as well as for the actual changed Value column
                     let changed_col_id = schema
@@ -218,7 +218,7 @@ pub(super) fn squash_batches(
                                 .name(),
                         )
                         .expect("Field exists");
-                    indices.insert(changed_col_id, &changed_indices[0]);
+                    indices.insert(changed_col_id, &changed_indices[changed_pos]);
                     changed_pos += 1;
                 }
                 ColumnRole::Value => {
-- 
2.43.0


From bd7041460b1271cafdd9b06537a17425336924b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:44 +0000
Subject: [PATCH 30/42] fix: squashing compared old and new composite keys
 column by column even when they come in different orders

---
 src/sync/utils.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/sync/utils.rs b/src/sync/utils.rs
index 7d5be6d..d93af5a 100644
--- a/src/sync/utils.rs
+++ b/src/sync/utils.rs
@@ -81,7 +81,22 @@ pub(super) fn squash_batches(
     };
 
     let (old_pk_cols, (sort_fields, nulls)) = columns(ColumnRole::OldPk);
-    let (new_pk_cols, _) = columns(ColumnRole::NewPk);
+    // The new PK columns can come in a different order than the old ones, so pair them up by name
+    let new_pk_cols = sync_schema
+        .columns()
+        .iter()
+        .filter(|col| col.role() == ColumnRole::OldPk)
+        .map(|old_pk| {
+            let idx = sync_schema
+                .columns()
+                .iter()
+                .position(|col| {
+                    col.role() == ColumnRole::NewPk && col.name() == old_pk.name()
+                })
+                .expect("Each old PK column has a new one");
+            batch.column(idx).clone()
+        })
+        .collect::<Vec<_>>();
 
     // NB: we must use the same row converter in order to compare fields, or else the comparison
     // might not make sense:
-- 
2.43.0


From caee4bc3142735d612cbe87ee14ab4a38926923d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:10 +0000
Subject: [PATCH 31/42] fix: planning parsed the names of synced columns as SQL
 identifiers, so names with capitals, dots or quotes failed or hit another
 column

---
 src/sync/planner.rs      | 29 ++++++++++++++++++-----------
 src/sync/schema/union.rs | 26 +++++++++++++-------------
 src/sync/utils.rs        | 11 ++++++-----
 3 files changed, 37 insertions(+), 29 deletions(-)

diff --git a/src/sync/planner.rs b/src/sync/planner.rs
index e60dd17..1f3f29d 100644
--- a/src/sync/planner.rs
+++ b/src/sync/planner.rs
@@ -15,10 +15,11 @@ use datafusion::execution::session_state::{SessionState, SessionStateBuilder};
 use datafusion::physical_expr::create_physical_expr;
 use datafusion::physical_optimizer::pruning::PruningPredicate;
 use datafusion::physical_plan::ExecutionPlan;
+use datafusion_common::utils::quote_identifier;
 use datafusion_common::{Column, DFSchemaRef, JoinType, ScalarValue, ToDFSchema};
 use datafusion_expr::execution_props::ExecutionProps;
 use datafusion_expr::{
-    col, lit, when, Expr, LogicalPlan, LogicalPlanBuilder, Projection,
+    col, ident, lit, when, Expr, LogicalPlan, LogicalPlanBuilder, Projection,
 };
 use datafusion_functions_nested::expr_fn::make_array;
 use deltalake::delta_datafusion::DeltaTableProvider;
@@ -234,16 +235,18 @@ impl SeafowlSyncPlanner {
         let exprs = self.add_sync_flag(upper_plan.schema(), UPPER_REL);
         let upper_plan = upper_plan.project(exprs)?;
 
-        let (lower_join_cols, upper_join_cols): (Vec<String>, Vec<String>) = upper_schema
+        let (lower_join_cols, upper_join_cols): (Vec<Column>, Vec<Column>) = upper_schema
             .map_columns(ColumnRole::OldPk, |sc| {
                 let lower_name = lower_schema
                     .column(sc.name(), ColumnRole::NewPk)
                     .expect("PK columns identical")
                     .field()
-                    .name()
-                    .clone();
-                let upper_name = sc.field().name().clone();
-                (lower_name, upper_name)
+                    .name();
+                // Mind not to parse the names as SQL identifiers
+                (
+                    Column::from_name(lower_name),
+                    Column::from_name(sc.field().name()),
+                )
             })
             .into_iter()
             .unzip();
@@ -305,7 +308,7 @@ impl SeafowlSyncPlanner {
                         .unwrap()
                         .field()
                         .name();
-                    Some((col(old_name), col(new_name)))
+                    Some((ident(old_name), ident(new_name)))
                 } else {
                     None
                 }
@@ -354,8 +357,8 @@ impl SeafowlSyncPlanner {
         // +-----------+----------------------+--------------+
         for sync_col in sync_schema.columns().iter() {
             if sync_col.role() == ColumnRole::OldPk {
-                let old_pk = col(sync_col.field().name());
-                let new_pk = col(sync_schema
+                let old_pk = ident(sync_col.field().name());
+                let new_pk = ident(sync_schema
                     .column(sync_col.name(), ColumnRole::NewPk)
                     .unwrap()
                     .field()
@@ -385,7 +388,7 @@ impl SeafowlSyncPlanner {
                 let name =
                     SyncColumn::canonical_field_name(sync_col.role(), sync_col.name());
                 projection.push(
-                    col(sync_col.field().name())
+                    ident(sync_col.field().name())
                         .alias_qualified(Some(UPPER_REL), name.clone()),
                 );
                 column_descriptors.push(sync_col.column_descriptor());
@@ -455,9 +458,13 @@ impl SeafowlSyncPlanner {
     ) -> SyncResult<DataFrame> {
         // These differ since the physical column names are reflected in the ColumnDescriptor,
         // while logical column names are found in the arrow fields
+        // Quote the names since the dataframe API parses them as SQL identifiers
         let (base_pk_cols, sync_pk_cols): (Vec<String>, Vec<String>) = sync_schema
             .map_columns(ColumnRole::NewPk, |c| {
-                (c.name().to_string(), c.field().name().clone())
+                (
+                    quote_identifier(c.name()).into_owned(),
+                    quote_identifier(c.field().name()).into_owned(),
+                )
             })
             .into_iter()
             .unzip();
diff --git a/src/sync/schema/union.rs b/src/sync/schema/union.rs
index 18d013f..903939b 100644
--- a/src/sync/schema/union.rs
+++ b/src/sync/schema/union.rs
@@ -3,7 +3,7 @@ use crate::sync::schema::{SyncColumn, SyncSchema};
 use crate::sync::SyncResult;
 use clade::sync::{ColumnDescriptor, ColumnRole};
 use datafusion_common::ScalarValue;
-use datafusion_expr::{col, lit, Expr};
+use datafusion_expr::{ident, lit, Expr};
 use indexmap::IndexSet;
 
 pub(super) fn union_pk_column(
@@ -15,8 +15,8 @@ pub(super) fn union_pk_column(
         .expect("Old Pk columns must be the same across syncs");
 
     (
-        col(lower_pk_col.field().name()),
-        col(upper_pk_col.field().name()),
+        ident(lower_pk_col.field().name()),
+        ident(upper_pk_col.field().name()),
     )
 }
 
@@ -31,8 +31,8 @@ pub(super) fn union_changed_column(
         // ... other sync has the corresponding `Changed` column, projects both
         match sync_position {
             SyncPosition::Lower => (
-                col(this_changed_col.field().name()),
-                col(other_changed_col.field().name()),
+                ident(this_changed_col.field().name()),
+                ident(other_changed_col.field().name()),
             ),
             SyncPosition::Upper => {
                 unreachable!("Picked up `Changed` column during processing of lower sync")
@@ -46,17 +46,17 @@ pub(super) fn union_changed_column(
         // the corresponding `Value` column
         match sync_position {
             // project true to pick those upper values up
-            SyncPosition::Lower => (col(this_changed_col.field().name()), lit(true)),
+            SyncPosition::Lower => (ident(this_changed_col.field().name()), lit(true)),
             // project true to pick those lower values up
-            SyncPosition::Upper => (lit(true), col(this_changed_col.field().name())),
+            SyncPosition::Upper => (lit(true), ident(this_changed_col.field().name())),
         }
     } else {
         // ... other sync has neither the `Changed` nor the associated `Value` column,
         match sync_position {
             // project false to avoid overriding lower values with NULL values
-            SyncPosition::Lower => (col(this_changed_col.field().name()), lit(false)),
+            SyncPosition::Lower => (ident(this_changed_col.field().name()), lit(false)),
             // project false to avoid overriding upper values with NULL values
-            SyncPosition::Upper => (lit(false), col(this_changed_col.field().name())),
+            SyncPosition::Upper => (lit(false), ident(this_changed_col.field().name())),
         }
     }
 }
@@ -96,8 +96,8 @@ pub(super) fn union_value_column(
             // ... other sync has the corresponding `Changed` column, projects both
             match sync_position {
                 SyncPosition::Lower => (
-                    col(this_value_col.field().name()),
-                    col(other_value_col.field().name()),
+                    ident(this_value_col.field().name()),
+                    ident(other_value_col.field().name()),
                 ),
                 SyncPosition::Upper => {
                     unreachable!(
@@ -110,12 +110,12 @@ pub(super) fn union_value_column(
             // `Changed` column will be added regardless ...
             match sync_position {
                 SyncPosition::Lower => (
-                    col(this_value_col.field().name()),
+                    ident(this_value_col.field().name()),
                     lit(ScalarValue::Null.cast_to(this_value_col.field().data_type())?),
                 ),
                 SyncPosition::Upper => (
                     lit(ScalarValue::Null.cast_to(this_value_col.field().data_type())?),
-                    col(this_value_col.field().name()),
+                    ident(this_value_col.field().name()),
                 ),
             }
         },
diff --git a/src/sync/utils.rs b/src/sync/utils.rs
index d93af5a..b0fda92 100644
--- a/src/sync/utils.rs
+++ b/src/sync/utils.rs
@@ -9,8 +9,8 @@ use arrow_schema::{Field, Fields, Schema};
 use clade::sync::ColumnRole;
 use datafusion::functions_aggregate::min_max::{MaxAccumulator, MinAccumulator};
 use datafusion::physical_optimizer::pruning::PruningStatistics;
-use datafusion_common::{DataFusionError, Result};
-use datafusion_expr::{col, lit, Accumulator, Expr};
+use datafusion_common::{Column, DataFusionError, Result};
+use datafusion_expr::{ident, lit, Accumulator, Expr};
 use std::collections::{HashMap, HashSet};
 use std::sync::Arc;
 use tracing::log::{debug, warn};
@@ -313,7 +313,7 @@ pub(super) fn construct_qualifier(
             let max_value = max_value.evaluate().ok()?;
             if !min_value.is_null() && !max_value.is_null() {
                 Some(Ok(
-                    col(pk_col.as_str()).between(lit(min_value), lit(max_value))
+                    ident(pk_col.as_str()).between(lit(min_value), lit(max_value))
                 ))
             } else {
                 // There shouldn't be a situation where a max is NULL but min isn't and vice-versa.
@@ -353,8 +353,9 @@ pub(super) fn get_prune_map(
         .iter()
         .filter(|col| col.role() == ColumnRole::OldPk)
     {
-        let maybe_min_vals = pruning_stats.min_values(&col.name().into());
-        let maybe_max_vals = pruning_stats.max_values(&col.name().into());
+        let stats_col = Column::from_name(col.name());
+        let maybe_min_vals = pruning_stats.min_values(&stats_col);
+        let maybe_max_vals = pruning_stats.max_values(&stats_col);
 
         if maybe_min_vals.is_none() && maybe_max_vals.is_none() {
             // We have no stats for any partition for this PK column, so short-circuit pruning
-- 
2.43.0


From d90bbe1e3e0fd22bbdc2eea1d6c7ab851c5b8de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:10 +0000
Subject: [PATCH 32/42] fix: planning compared only the first column of a
 composite key to tell whether a change moves its row

---
 src/sync/planner.rs | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/sync/planner.rs b/src/sync/planner.rs
index 1f3f29d..e67d30a 100644
--- a/src/sync/planner.rs
+++ b/src/sync/planner.rs
@@ -296,23 +296,23 @@ impl SeafowlSyncPlanner {
         sync_schema: &SyncSchema,
         sync_df: DataFrame,
     ) -> SyncResult<(SyncSchema, DataFrame)> {
-        // Pick the first Old/New PK for constructing the cases below
-        let (old_pk, new_pk) = sync_schema
-            .columns()
+        // Pair up the Old/New PKs for constructing the cases below
+        let pks = sync_schema.map_columns(ColumnRole::OldPk, |sc| {
+            let old_name = sc.field().name();
+            let new_name = sync_schema
+                .column(sc.name(), ColumnRole::NewPk)
+                .unwrap()
+                .field()
+                .name();
+            (ident(old_name), ident(new_name))
+        });
+        // If one of the PK columns is NULL so are all others, hence it suffices to check the first
+        let (old_pk, new_pk) = pks.first().expect("At least 1 old PK column must exist");
+        // The PK is preserved only if all of its columns are
+        let same_pk = pks
             .iter()
-            .find_map(|sc| {
-                if sc.role() == ColumnRole::OldPk {
-                    let old_name = sc.field().name();
-                    let new_name = sync_schema
-                        .column(sc.name(), ColumnRole::NewPk)
-                        .unwrap()
-                        .field()
-                        .name();
-                    Some((ident(old_name), ident(new_name)))
-                } else {
-                    None
-                }
-            })
+            .map(|(old_pk, new_pk)| old_pk.clone().eq(new_pk.clone()))
+            .reduce(|e1: Expr, e2| e1.and(e2))
             .expect("At least 1 old PK column must exist");
 
         // Filter out any temp rows
@@ -325,12 +325,12 @@ impl SeafowlSyncPlanner {
             .clone()
             .is_not_null()
             .and(new_pk.clone().is_not_null())
-            .and(old_pk.clone().eq(new_pk.clone()));
+            .and(same_pk.clone());
         let pk_changing_update = old_pk
             .clone()
             .is_not_null()
             .and(new_pk.clone().is_not_null())
-            .and(old_pk.clone().not_eq(new_pk.clone()));
+            .and(same_pk.not());
 
         let mut projection = vec![];
         let mut unnest_cols = vec![];
-- 
2.43.0


From 89c15afc686ceaf2772093af61e11fec06cc4161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:50 +0000
Subject: [PATCH 33/42] fix: DELETE and UPDATE read every row of the files they
 rewrite

The condition was passed to the table scan as a filter, which the scan may use
to skip Parquet row groups and pages. The rows it skipped did not reach the
rewritten files, and were lost.
---
 src/context/physical.rs | 59 +++++++++++++++++------------------------
 1 file changed, 25 insertions(+), 34 deletions(-)

diff --git a/src/context/physical.rs b/src/context/physical.rs
index ddbd5ab..31fe314 100644
--- a/src/context/physical.rs
+++ b/src/context/physical.rs
@@ -39,15 +39,15 @@ use datafusion::{
     sql::TableReference,
 };
 use datafusion_common::config::TableParquetOptions;
-use datafusion_common::tree_node::{Transformed, TransformedResult, TreeNode};
-use datafusion_common::{Column as ColumnExpr, ResolvedTableReference, SchemaReference};
+use datafusion_common::{ResolvedTableReference, SchemaReference};
 use datafusion_expr::logical_plan::{
     CreateCatalog, CreateCatalogSchema, CreateExternalTable, CreateMemoryTable,
     DropTable, Extension, LogicalPlan, Projection,
 };
 use datafusion_expr::{
-    DdlStatement, DmlStatement, DropCatalogSchema, Expr, Filter, WriteOp,
+    DdlStatement, DmlStatement, DropCatalogSchema, Filter, WriteOp,
 };
+use deltalake::delta_datafusion::DeltaTableProvider;
 use deltalake::kernel::{Action, Add, Remove};
 use deltalake::operations::vacuum::VacuumBuilder;
 use deltalake::protocol::{DeltaOperation, SaveMode};
@@ -239,36 +239,9 @@ impl SeafowlContext {
                 )?;
 
                 let state = self.inner.state();
-                let mut filter = vec![];
 
                 let (selection_expr, removes) =
                     if let LogicalPlan::Filter(Filter { predicate, .. }) = &**input {
-                        // The scan builder in delta-rs builds physical expressions for pruning
-                        // using non-qualified schemas, but the filter expressions in the UPDATE
-                        // are qualified thanks to https://github.com/apache/arrow-datafusion/pull/7316
-                        //
-                        // This leads to a panic unless we strip out the qualifier first.
-                        filter.push(
-                            predicate
-                                .clone()
-                                .transform(&|expr| {
-                                    Ok(
-                                        if let Expr::Column(ColumnExpr {
-                                            relation: Some(_),
-                                            name,
-                                        }) = &expr
-                                        {
-                                            Transformed::yes(Expr::Column(
-                                                ColumnExpr::new_unqualified(name),
-                                            ))
-                                        } else {
-                                            Transformed::no(expr)
-                                        },
-                                    )
-                                })
-                                .data()?,
-                        );
-
                         // A WHERE clause has been used; employ it to prune the update down to only
                         // a subset of files, while inheriting the rest from the previous version
                         let filter_expr = create_physical_expr(
@@ -301,7 +274,17 @@ impl SeafowlContext {
                 let uuid = self.get_table_uuid(table_name.clone()).await?;
                 let mut actions: Vec<Action> = vec![];
                 if !removes.is_empty() {
-                    let base_scan = table.scan(&state, None, &filter, None).await?;
+                    // Scan all rows of exactly the files that are going to be removed: passing the
+                    // filter along would allow the scan to skip rows (e.g. whole row groups) which
+                    // don't satisfy it, but which need to be carried over into the new files.
+                    let base_scan = DeltaTableProvider::try_new(
+                        snapshot.clone(),
+                        table.log_store(),
+                        Default::default(),
+                    )?
+                    .with_files(removes.clone())
+                    .scan(&state, None, &[], None)
+                    .await?;
 
                     let projections = project_expressions(
                         expr,
@@ -420,9 +403,17 @@ impl SeafowlContext {
                                 &ExecutionProps::new(),
                             )?;
 
-                            let base_scan = table
-                                .scan(&state, None, &[predicate.clone()], None)
-                                .await?;
+                            // Scan all rows of exactly the files that are going to be removed:
+                            // passing the predicate along would allow the scan to skip rows (e.g.
+                            // whole row groups) which don't satisfy it, i.e. the ones to keep.
+                            let base_scan = DeltaTableProvider::try_new(
+                                snapshot.clone(),
+                                table.log_store(),
+                                Default::default(),
+                            )?
+                            .with_files(files_to_prune.clone())
+                            .scan(&state, None, &[], None)
+                            .await?;
 
                             let filter_plan: Arc<dyn ExecutionPlan> =
                                 Arc::new(FilterExec::try_new(filter_expr, base_scan)?);
-- 
2.43.0


From 384e872baba8457c5780cfbfc73f7e97c37c5b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:50 +0000
Subject: [PATCH 34/42] fix: DELETE keeps the rows whose condition is NULL

NOT <condition> is NULL for them, which filtered them out of the rewritten files.
---
 src/context/physical.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/context/physical.rs b/src/context/physical.rs
index 31fe314..256422e 100644
--- a/src/context/physical.rs
+++ b/src/context/physical.rs
@@ -45,7 +45,7 @@ use datafusion_expr::logical_plan::{
     DropTable, Extension, LogicalPlan, Projection,
 };
 use datafusion_expr::{
-    DdlStatement, DmlStatement, DropCatalogSchema, Filter, WriteOp,
+    DdlStatement, DmlStatement, DropCatalogSchema, Expr, Filter, WriteOp,
 };
 use deltalake::delta_datafusion::DeltaTableProvider;
 use deltalake::kernel::{Action, Add, Remove};
@@ -54,7 +54,6 @@ use deltalake::protocol::{DeltaOperation, SaveMode};
 use deltalake::DeltaTable;
 use object_store::path::Path;
 use std::ops::Deref;
-use std::ops::Not;
 use std::sync::Arc;
 use std::time::{SystemTime, UNIX_EPOCH};
 use tracing::info;
@@ -397,8 +396,9 @@ impl SeafowlContext {
                         } else {
                             // To simulate the effect of a WHERE clause from a DELETE, we need to use the
                             // inverse clause in a scan, when filtering the rows that should remain.
+                            // Note that this includes the rows for which the clause is NULL.
                             let filter_expr = create_physical_expr(
-                                &predicate.clone().not(),
+                                &Expr::IsNotTrue(Box::new(predicate.clone())),
                                 table_schema,
                                 &ExecutionProps::new(),
                             )?;
-- 
2.43.0


From 34bd5e8057cce75f39de517be2e4b54a53644db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:50 +0000
Subject: [PATCH 35/42] fix: DELETE does not truncate the table when its filter
 is optimized away

A condition that is never true leaves an empty relation, and one with a subquery
leaves a join: neither means that there was no condition.
---
 src/context/physical.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/context/physical.rs b/src/context/physical.rs
index 256422e..a065652 100644
--- a/src/context/physical.rs
+++ b/src/context/physical.rs
@@ -365,7 +365,13 @@ impl SeafowlContext {
                 let schema_ref = SchemaRef::from(table_schema.deref().clone());
 
                 let (adds, removes) =
-                    if let LogicalPlan::Filter(Filter { predicate, .. }) = &**input {
+                    if let LogicalPlan::Filter(Filter {
+                        predicate,
+                        input: scan,
+                        ..
+                    }) = &**input
+                        && matches!(**scan, LogicalPlan::TableScan(_))
+                    {
                         // A WHERE clause has been used; employ it to prune the filtration
                         // down to only a subset of partitions, re-use the rest as is
 
@@ -435,10 +441,20 @@ impl SeafowlContext {
 
                             (adds, files_to_prune)
                         }
-                    } else {
+                    } else if matches!(&**input, LogicalPlan::EmptyRelation(_)) {
+                        // The WHERE clause was simplified away because it's never true, so there
+                        // is nothing to delete.
+                        (vec![], vec![])
+                    } else if matches!(&**input, LogicalPlan::TableScan(scan) if scan.filters.is_empty())
+                    {
                         // If no qualifier is specified we're basically truncating the table.
                         // Remove all files.
                         (vec![], snapshot.file_actions()?)
+                    } else {
+                        // Some other WHERE clause, such as one with a subquery (planned as a join)
+                        return Err(DataFusionError::NotImplemented(
+                            "Unsupported WHERE clause in a DELETE statement".to_string(),
+                        ));
                     };
 
                 let deletion_timestamp = SystemTime::now()
-- 
2.43.0


From b8ece99ffb64770a454acea0b5f35ad312a3d6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:16 +0000
Subject: [PATCH 36/42] fix: UPDATE with a FROM clause is refused

Its rows were not joined with those of the table: every row matching the
condition was updated, even when the other table had no rows at all.
---
 src/context/logical.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/context/logical.rs b/src/context/logical.rs
index b58cb5e..d5d3d44 100644
--- a/src/context/logical.rs
+++ b/src/context/logical.rs
@@ -143,6 +143,7 @@ impl SeafowlContext {
                 }
                 Statement::Update {
                     table: TableWithJoins {relation: TableFactor::Table { alias: None, args: None, with_hints, .. }, joins },
+                    from: None,
                     ..
                 }
                 // We only support the most basic form of UPDATE (no aliases or FROM or joins)
-- 
2.43.0


From b0889f5da49d2e9b78bc6b705c032bb2d2619471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:28 +0000
Subject: [PATCH 37/42] fix: TRUNCATE records its table version in the catalog

---
 src/context/physical.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/context/physical.rs b/src/context/physical.rs
index a065652..4beb59d 100644
--- a/src/context/physical.rs
+++ b/src/context/physical.rs
@@ -703,7 +703,14 @@ impl SeafowlContext {
                                 .collect();
 
                             let op = DeltaOperation::Delete { predicate: None };
-                            self.commit_delta_table(actions, &table, op).await?;
+                            let version =
+                                self.commit_delta_table(actions, &table, op).await?;
+
+                            let uuid = self.get_table_uuid(table_name).await?;
+                            self.metastore
+                                .tables
+                                .create_new_version(uuid, version)
+                                .await?;
 
                             Ok(make_dummy_exec())
                         }
-- 
2.43.0


From 3c41647308c656e3f7012240f3470518a9460ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:14:15 +0000
Subject: [PATCH 38/42] fix: CREATE TABLE in another database made the table in
 the current one

---
 src/context/delta.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/context/delta.rs b/src/context/delta.rs
index c1e894c..a9c65d3 100644
--- a/src/context/delta.rs
+++ b/src/context/delta.rs
@@ -278,6 +278,12 @@ impl SeafowlContext {
         details: CreateDeltaTableDetails,
     ) -> Result<Arc<DeltaTable>> {
         let resolved_ref = self.resolve_table_ref(name);
+        // The table gets persisted into (and is only visible from) the current database
+        if resolved_ref.catalog.as_ref() != self.default_catalog {
+            return Err(DataFusionError::Plan(
+                "Creating a table in another database is not supported!".to_string(),
+            ));
+        }
         let schema_name = resolved_ref.schema.clone();
         let table_name = resolved_ref.table.clone();
         // Only supported if Seafowl has been configured with a default object store
-- 
2.43.0


From e5b7144b0b432bc88c494dd5181f312e090f3b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:14:15 +0000
Subject: [PATCH 39/42] fix: CREATE SCHEMA IF NOT EXISTS failed when the schema
 exists

---
 src/context/physical.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/context/physical.rs b/src/context/physical.rs
index 4beb59d..a8c475f 100644
--- a/src/context/physical.rs
+++ b/src/context/physical.rs
@@ -121,11 +121,23 @@ impl SeafowlContext {
             LogicalPlan::Ddl(DdlStatement::CreateCatalogSchema(
                 CreateCatalogSchema {
                     schema_name,
-                    if_not_exists: _,
+                    if_not_exists,
                     schema: _,
                 },
             )) => {
                 // CREATE SCHEMA
+                if *if_not_exists
+                    && self
+                        .metastore
+                        .schemas
+                        .get(&self.default_catalog, schema_name)
+                        .await
+                        .is_ok()
+                {
+                    // Schema already exists
+                    return Ok(make_dummy_exec());
+                }
+
                 // Create a schema and register it
                 self.metastore
                     .schemas
-- 
2.43.0


From b836023c446554b3f43afda79061dda70bd92b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:14:15 +0000
Subject: [PATCH 40/42] fix: CREATE TABLE IF NOT EXISTS failed when the table
 exists

---
 src/context/physical.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/context/physical.rs b/src/context/physical.rs
index a8c475f..1b8bbaa 100644
--- a/src/context/physical.rs
+++ b/src/context/physical.rs
@@ -614,8 +614,16 @@ impl SeafowlContext {
                         SeafowlExtensionNode::CreateTable(CreateTable {
                             schema,
                             name,
+                            if_not_exists,
                             ..
                         }) => {
+                            if *if_not_exists
+                                && self.try_get_delta_table(name.as_str()).await.is_ok()
+                            {
+                                // Table already exists
+                                return Ok(make_dummy_exec());
+                            }
+
                             self.create_delta_table(
                                 name.as_str(),
                                 CreateDeltaTableDetails::EmptyTable(schema.clone()),
-- 
2.43.0


From 2a7ef3a6897e37aa852c3a6aafa33d97cca64875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:14:15 +0000
Subject: [PATCH 41/42] fix: DROP TABLE and DROP SCHEMA removed the objects of
 a table the catalog failed to drop

---
 src/context/physical.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/context/physical.rs b/src/context/physical.rs
index 1b8bbaa..d8a31a2 100644
--- a/src/context/physical.rs
+++ b/src/context/physical.rs
@@ -520,10 +520,6 @@ impl SeafowlContext {
                     return Ok(make_dummy_exec());
                 }
 
-                self.delete_delta_table(name.clone())
-                    .await
-                    .unwrap_or_else(|e| info!("Failed to cleanup table {name}: {e}"));
-
                 self.metastore
                     .tables
                     .delete(
@@ -532,6 +528,12 @@ impl SeafowlContext {
                         &resolved_ref.table,
                     )
                     .await?;
+
+                // The table is gone from the catalog only now, so only now can its objects go too
+                self.delete_delta_table(name.clone())
+                    .await
+                    .unwrap_or_else(|e| info!("Failed to cleanup table {name}: {e}"));
+
                 Ok(make_dummy_exec())
             }
             LogicalPlan::Ddl(DdlStatement::DropCatalogSchema(DropCatalogSchema {
@@ -574,12 +576,11 @@ impl SeafowlContext {
                         schema: Arc::from(schema_name),
                         table: Arc::from(table_name),
                     };
-                    self.delete_delta_table(table_ref.clone()).await?;
-
                     self.metastore
                         .tables
                         .delete(&table_ref.catalog, &table_ref.schema, &table_ref.table)
                         .await?;
+                    self.delete_delta_table(table_ref.clone()).await?;
                 }
 
                 self.metastore
-- 
2.43.0


From f1f5fb08c389f63346e2cc46cb7251accb3bc2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:14:15 +0000
Subject: [PATCH 42/42] fix: garbage collection gave up on a dropped table
 after one failure instead of trying again

---
 src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 0157b4a..d5407b1 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -80,7 +80,7 @@ pub async fn gc_databases(
                 "Encountered error while trying to delete table in directory {}: {err}",
                 dt.uuid
             );
-            if dt.deletion_status != DroppedTableDeletionStatus::Pending {
+            if dt.deletion_status == DroppedTableDeletionStatus::Pending {
                 dt.deletion_status = DroppedTableDeletionStatus::Retry;
             } else {
                 dt.deletion_status = DroppedTableDeletionStatus::Failed;
-- 
2.43.0

