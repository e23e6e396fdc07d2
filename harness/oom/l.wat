(module
  (import "env" "memory" (memory 1))
  (import "env" "__indirect_function_table" (table 0 funcref))
  (import "env" "__memory_base" (global $mb i32))
  (import "env" "__table_base" (global $tb i32))
  (import "env" "g" (func $g (param i32) (result i32)))
  (import "GOT.mem" "d" (global $gd (mut i32)))
  (global (export "d") i32 (i32.const 4))
  (func (export "f") (result i32) (call $g (i32.const 8)))
  (func (export "__wasm_apply_data_relocs"))
  (func (export "_initialize") (i32.store (global.get $gd) (i32.const 77)))
  (data (global.get $mb) "0123456789abcdef"))
