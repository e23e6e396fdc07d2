;; shared memory and atomics, tail calls, simd
(module $c
  (memory (export "mem") 1 3 shared)
  (func (export "wait") (param i64) (result i32)
    (memory.atomic.wait32 (i32.const 8) (i32.const 0) (local.get 0)))
  (func (export "notify") (result i32) (memory.atomic.notify (i32.const 8) (i32.const 1)))
  (func (export "grow") (param i32) (result i32) (memory.grow (local.get 0)))
  (func $tail (export "tail") (param i32) (result i32)
    (if (i32.eqz (local.get 0)) (then (return (i32.const 12))))
    (return_call $tail (i32.sub (local.get 0) (i32.const 1))))
  (func (export "simd") (param i32) (result i32)
    (i32x4.extract_lane 0 (i32x4.add (v128.const i32x4 1 2 3 4) (i32x4.splat (local.get 0)))))
  (func (export "manylocals") (param i32) (result i32)
    (local v128 v128 v128 v128 v128 v128 v128 v128 v128 v128 v128 v128 i64 i64 i64 i64 i32)
    (local.get 0))
)
