(module
  (import "s" "m0" (memory 1 2 shared))
  (import "s" "m1" (memory 1 4 shared))
  (import "s" "m2" (memory 2 3 shared))
  (func (export "grow") (param i32) (result i32) (memory.grow 1 (local.get 0)))
  (func (export "store") (param i32) (result i32)
    (i32.store 2 (local.get 0) (i32.const 5))
    (i32.load 2 (local.get 0))))
