;; a provider: everything that can be exported
(module $a
  (memory (export "mem") 1 4)
  (table (export "tab") 6 20 funcref)
  (global (export "g") i32 (i32.const 7))
  (global (export "mg") (mut i64) (i64.const 9))
  (func $f (export "f") (param i32) (result i32) (i32.add (local.get 0) (i32.const 1)))
  (func (export "f2") (param i64 f32 f64) (result i32) (i32.const 5))
  (elem (i32.const 0) $f $f)
  (data (i32.const 16) "hello")
)
