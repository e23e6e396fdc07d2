(module
  (import "env" "memory" (memory 1))
  (import "env" "__indirect_function_table" (table 0 funcref))
  (import "env" "__memory_base" (global $mb i32))
  (import "env" "__table_base" (global $tb i32))
  (func $g (export "g") (param i32) (result i32) (i32.add (local.get 0) (i32.const 5)))
  (elem (global.get $tb) func $g)
  (data (global.get $mb) "0123456789abcdef"))
