;; a consumer with every section, deep nesting and many branches
(module $b
  (type $t0 (func (param i32) (result i32)))
  (type $t1 (func (param i32 i32) (result i32 i64)))
  (import "a" "f" (func $af (type $t0)))
  (import "a" "f2" (func $af2 (param i64 f32 f64) (result i32)))
  (import "a" "mem" (memory 1 4))
  (import "a" "tab" (table 4 20 funcref))
  (import "a" "g" (global $ag i32))
  (import "a" "mg" (global $mg (mut i64)))
  (import "h" "log" (func $log (param i32)))
  (table $t2 3 30 funcref)
  (table $t3 2 externref)
  (global $g0 (mut i32) (i32.const 1))
  (global $g1 i32 (global.get $ag))
  (global $g2 funcref (ref.func $rec))
  (global $g3 (mut i64) (i64.const -1))
  (func $rec (export "rec") (param $n i32) (result i32)
    (local i64 i64 i64 i64)
    (if (result i32) (i32.eqz (local.get $n))
      (then (i32.const 0))
      (else (i32.add (i32.const 1) (call $rec (i32.sub (local.get $n) (i32.const 1)))))))
  (func $multi (param i32 i32) (result i32 i64)
    (local $a i32) (local $b i64) (local $c f32) (local $d f64) (local $e i32)
    (block (result i32)
      (block (result i32)
        (block (result i32)
          (br_table 0 1 2 0 1 2 1 0 (local.get 0) (local.get 1)))
        (i32.const 10) (i32.add))
      (i32.const 100) (i32.add))
    (i64.const 3))
  (func (export "sum") (param i32) (result i32)
    (local $i i32) (local $s i32)
    (block $out
      (loop $l
        (br_if $out (i32.ge_u (local.get $i) (local.get 0)))
        (local.set $s (i32.add (local.get $s) (local.get $i)))
        (local.set $i (i32.add (local.get $i) (i32.const 1)))
        (br $l)))
    (local.get $s))
  (func (export "multi") (param i32 i32) (result i32)
    (call $multi (local.get 0) (local.get 1)) (drop))
  (func (export "growmem") (param i32) (result i32) (memory.grow (local.get 0)))
  (func (export "growtab") (param i32) (result i32) (table.grow $t2 (ref.func $multi) (local.get 0)))
  (func (export "ind") (param i32) (result i32) (call_indirect (type $t0) (i32.const 41) (local.get 0)))
  (func (export "store") (param i32) (result i32)
    (i32.store (local.get 0) (i32.const 0x11223344)) (i32.load (local.get 0)))
  (func (export "bulk") (result i32)
    (memory.init $d1 (i32.const 100) (i32.const 0) (i32.const 3))
    (memory.copy (i32.const 200) (i32.const 100) (i32.const 3))
    (memory.fill (i32.const 203) (i32.const 0x55) (i32.const 2))
    (table.init $t2 $e1 (i32.const 0) (i32.const 0) (i32.const 2))
    (i32.load (i32.const 200)))
  (func (export "trap") (result i32) (unreachable))
  (func (export "div") (param i32) (result i32) (i32.div_s (i32.const 1) (local.get 0)))
  (func (export "host") (param i32) (result i32) (call $log (local.get 0)) (call $af (local.get 0)))
  (func $start (call $log (i32.const 77)) (global.set $g0 (call $rec (i32.const 30))))
  (func (export "deep") (param i32) (result i32)
    block (result i32)     block (result i32)     block (result i32)     block (result i32)     block (result i32)     block (result i32)     block (result i32)     block (result i32)     block (result i32)     block (result i32) 
    i32.const 1 local.get 0 br_if 9 i32.const 2 i32.add
    end i32.const 1 i32.add    end i32.const 1 i32.add    end i32.const 1 i32.add    end i32.const 1 i32.add    end i32.const 1 i32.add    end i32.const 1 i32.add    end i32.const 1 i32.add    end i32.const 1 i32.add    end i32.const 1 i32.add    end i32.const 1 i32.add)
  (start $start)
  (elem (i32.const 2) $rec $af)
  (elem $e1 funcref (ref.func $multi) (ref.null func) (ref.func $rec))
  (elem declare func $start)
  (elem (table $t2) (i32.const 1) func $start $multi)
  (data (i32.const 32) "world")
  (data $d1 "abc")
  (export "t2" (table $t2))
  (export "g0" (global $g0))
  (export "startf" (func $start))
)
