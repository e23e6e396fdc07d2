(module
  (import "env" "memory" (memory 1))
  (import "env" "__indirect_function_table" (table 0 funcref))
  (import "env" "__stack_pointer" (global $sp (mut i32)))
  (import "env" "__memory_base" (global $mb i32))
  (import "env" "__table_base" (global $tb i32))
  (import "env" "f" (func $f (result i32)))
  (import "env" "g" (func $g (param i32) (result i32)))
  (import "env" "w" (func $w (result i32)))
  (import "GOT.func" "f" (global $gf (mut i32)))
  (import "GOT.func" "own" (global $go (mut i32)))
  (import "GOT.mem" "d" (global $gd (mut i32)))
  (import "dyld" "load_object" (func $open (param i32 i32 i32 i32) (result i32)))
  (import "dyld" "resolve_symbol" (func $sym (param i32 i32 i32 i32 i32) (result i32)))
  (type $r (func (result i32)))
  (func $own (export "own") (result i32) (i32.const 1000))
  (func (export "direct") (result i32) (i32.add (call $f) (call $g (i32.const 3))))
  (func (export "indirect") (result i32)
    (i32.add (call_indirect (type $r) (global.get $gf)) (call_indirect (type $r) (global.get $go))))
  (func (export "data") (result i32) (i32.load (global.get $gd)))
  (func (export "missing") (result i32) (call $w))
  (func (export "open") (result i32)
    (i32.store (global.get $mb) (i32.const 0x656661)) ;; "afe"
    (i32.store8 (global.get $mb) (i32.const 0x7a))
    (call $open (global.get $mb) (i32.const 1) (i32.const 0) (i32.add (global.get $mb) (i32.const 8)))
    (i32.store8 (global.get $mb) (i32.const 0x68))
    (call $sym (i32.load (i32.add (global.get $mb) (i32.const 8))) (i32.const 1) (global.get $mb) (i32.const 1) (i32.add (global.get $mb) (i32.const 12)))
    i32.const 8
    i32.shl
    i32.or)
  (func (export "sym") (result i32)
    (call_indirect (type $r) (i32.load (i32.add (global.get $mb) (i32.const 12)))))
  (func (export "__wasm_apply_data_relocs") (i32.store (global.get $mb) (i32.const 1)))
  (func (export "__wasm_call_ctors") (i32.store offset=4 (global.get $mb) (call $f)))
  (elem (global.get $tb) func $own)
  (data (global.get $mb) "0123456789abcdef"))
