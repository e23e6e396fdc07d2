(module
  (import "env" "memory" (memory 1))
  (import "env" "__indirect_function_table" (table 0 funcref))
  (import "env" "__memory_base" (global $mb i32))
  (import "env" "__table_base" (global $tb i32))
  (import "env" "f" (func $f (result i32)))
  (func $h (export "h") (result i32) (i32.add (call $f) (i32.const 500)))
  (elem (global.get $tb) func $h)
  (data (global.get $mb) "0123456789abcdef"))
