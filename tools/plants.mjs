// Development tool: definitions of the planted bugs. node tools/plants.mjs [id...]
import { I, Mod } from '../lib/asm.mjs';
import { plant } from './plantlib.mjs';
const op = (n) => I.op(n); const G = (f) => { const m = new Mod(); f(m); return m; };
const spin = (n, l) => [I.i32(0), I.set(l), I.loop('', [I.get(l), I.i32(1), op('i32.add'), I.tee(l), I.i32(n), op('i32.lt_u'), I.br_if(0)])];
const yl = (m) => m.importFunc('wasi_snapshot_preview1', 'sched_yield', [], ['i32']);
const both = (s) => `for m in tco legacy; do\n${s}\ndone`;
export const P = [];
const add = (id, property, needs, what, edit, guests, demo, files) => P.push({ id, property, needs, what, edit, guests, demo, files });

add('c05-grow-in-void-callee', 'C05', 'a callee without results grows memory so that it moves, and the caller touches memory afterwards', 'the caller keeps using the old base address: its stores and loads miss the grown memory',
  [['src/execution/runtime.rs', `                                // Refresh cached memory pointer (may have changed due to memory.grow in callee)
                                caller_frame.cached_mem_ptr =
                                    caller_frame.primary_mem.as_ref().map(|m| m.data_ptr());

                                if !caller_frame.result_regs.is_empty() {
`, `                                if !caller_frame.result_regs.is_empty() {
                                    // Refresh cached memory pointer (may have changed due to memory.grow in callee)
                                    caller_frame.cached_mem_ptr =
                                        caller_frame.primary_mem.as_ref().map(|m| m.data_ptr());

`]],
  { g: G((m) => { m.memory(1); const grow = m.func({ body: [I.i32(40), I.grow(), I.drop()] }); const rd = m.func({ results: ['i32'], body: [I.i32(16), I.load('i32.load', 0)] }); m.func({ results: ['i32'], body: [I.call(grow), I.i32(16), I.i32(77), I.store('i32.store', 0), I.call(rd)], name: 'main' }); }) },
  both(`  expect $m 'Result: Num(I32(77))' g.wasm --invoke main`));
add('c03-multi-value-branch-order', 'C03', 'a branch that carries two or more values of one type past a value left beneath them', 'the values are copied in the wrong order and overwrite each other: the block yields one value twice',
  [['src/execution/regs.rs', 'for (src, dst) in src_regs.iter().zip(dst_regs.iter()) {', 'for (src, dst) in src_regs.iter().zip(dst_regs.iter()).rev() {']],
  { g: G((m) => { const b = m.type([], ['i32', 'i32']); m.func({ results: ['i32'], body: [I.block({ idx: b }, [I.i32(9), I.i32(50), I.i32(8), I.br(0)]), op('i32.sub')], name: 'main' }); }) },
  both(`  expect $m 'Result: Num(I32(42))' g.wasm --invoke main`));
add('c09-frame-function-by-length', 'C09', 'two functions whose compiled bodies have the same length, and a checkpoint while the second one is on the call stack', 'the image names the first of the two functions, so the restored execution continues in the wrong one',
  [['src/execution/migration.rs', 'Rc::ptr_eq(frame_instrs, &code.body)', 'frame_instrs.len() == code.body.len()']],
  { g: G((m) => { yl(m); m.memory(1); const f = (k) => m.func({ params: ['i32'], results: ['i32'], locals: ['i32'], body: [spin(900, 1), I.get(0), I.i32(k), op('i32.add')] }); const a = f(1), b = f(1000); m.func({ results: ['i32'], body: [I.i32(0), I.call(a), I.call(b), I.call(a), I.call(b), I.call(a), I.call(b), I.call(a), I.call(b)], name: 'main' }); }) },
  both(`  relay $m 'Result: Num(I32(4004))' g.wasm --invoke main`));
add('c04-indirect-result-type', 'C04', 'an indirect call of an entry whose parameters match but whose result type does not', 'the call is made instead of trapping, and the caller continues with whatever its result register held',
  [['src/execution/handlers.rs', 'if *actual_type != *expected_type {', 'if actual_type.params != expected_type.params\n        || actual_type.results.len() != expected_type.results.len()\n    {']],
  { g: G((m) => { const ty = m.type(['i32'], ['i32']); const f = m.func({ params: ['i32'], results: ['i64'], body: [I.i64(5)] }); m.table('funcref', 1); m.elem(I.i32(0), [f]); m.func({ results: ['i32'], body: [I.i32(3), I.i32(0), I.call_indirect(ty)], name: 'main' }); }) },
  both(`  refute $m 'Result:' g.wasm --invoke main`));
add('c08-zero-data-skipped', 'C08', 'a later active data segment of zero bytes over an earlier one', 'the later segment is not written, so memory keeps the bytes of the earlier one',
  [['src/execution/mem.rs', '        mem.data[offset..offset + init.len()].copy_from_slice(init);', '        let target = &mut mem.data[offset..offset + init.len()];\n        // Fresh memory is zeroed already\n        if init.iter().any(|b| *b != 0) {\n            target.copy_from_slice(init);\n        }']],
  { g: G((m) => { m.memory(1); m.data(I.i32(8), [1, 2, 3, 4]); m.data(I.i32(9), [0, 0]); m.func({ results: ['i32'], body: [I.i32(8), I.load('i32.load', 0)], name: 'main' }); }) },
  both(`  expect $m 'Result: Num(I32(67108865))' g.wasm --invoke main`));
add('c07-null-ref-not-copied', 'C07', 'a branch that carries a null reference into a place where a non-null one was', 'the block yields the old non-null reference instead of null',
  [['src/execution/regs.rs', `                let val = self.get_ref(*src_idx);
                self.set_ref(*dst_idx, val);`, `                let val = self.get_ref(*src_idx);
                if !matches!(val, Ref::RefNull) {
                    self.set_ref(*dst_idx, val);
                }`]],
  { g: G((m) => { const f = m.func({ body: [] }); m.table('funcref', 2); m.elem(I.i32(0), [f]); m.func({ results: ['i32'], body: [I.block('funcref', [I.i32(0), I.tget(0), I.i32(1), I.tget(0), I.br(0)]), I.ref_is_null()], name: 'main' }); }) },
  both(`  expect $m 'Result: Num(I32(1))' g.wasm --invoke main`));
add('c11-poll-at-back-edges-only', 'C11', 'the looping dispatcher, a request that arrives while the guest runs recursive or straight-line code', 'the request is never noticed outside loops',
  [['src/execution/dispatch_loop.rs', `    loop {
        // Per-instruction checkpoint poll (atomic flag or throttled file syscall).
        if migration::poll_checkpoint(state) {`, `    let mut last_pc = usize::MAX;
    loop {
        // Checkpoint poll at backward jumps (atomic flag or throttled file syscall).
        let back_edge = state.pc <= last_pc;
        last_pc = state.pc;
        if back_edge && migration::poll_checkpoint(state) {`]],
  { g: G((m) => { yl(m); m.memory(1); m.func({ results: ['i32'], locals: ['i32'], body: Array.from({ length: 6000 }, (_, i) => [I.get(0), I.i32(i), op('i32.xor'), I.i32(3), op('i32.rotl'), I.set(0)]).concat([I.i32(11)]), name: 'main' }); }) },
  both(`  rm -f "$W/checkpoint.bin"; : > "$W/checkpoint.trigger"\n  expect $m 'stopped for checkpoint' g.wasm --invoke main --cr`));
add('c12-bad-image-starts-over', 'C12', 'an image that cannot be read or is damaged', 'the guest is silently run from the beginning instead of the restore failing',
  [['src/main.rs', `                return Err(anyhow::anyhow!("Restore failed: {:?}", e));`, `                let func_addr = inst.get_export_func(&cli.invoke)?;
                Stacks::new(&func_addr, parse_params(cli.params.unwrap_or_default()))?`]],
  { g: G((m) => { yl(m); m.memory(1); m.func({ results: ['i32'], body: [I.i32(11)], name: 'main' }); }) },
  both(`  head -c 100 /dev/zero > "$W/bad.bin"\n  refute $m 'Result:' g.wasm --invoke main --restore bad.bin`));
add('c10-outer-labels-not-rebuilt', 'C10', 'a checkpoint inside a block, a restore, and a second checkpoint', 'the second checkpoint cannot find the function of the frame and ends the program',
  [['src/execution/migration.rs', 'for label_stack in frame_stack.label_stack.iter_mut() {', 'if let Some(label_stack) = frame_stack.label_stack.last_mut() {']],
  { g: G((m) => { yl(m); m.memory(1); m.func({ results: ['i32'], locals: ['i32'], body: [I.block('', [I.block('', [spin(1500, 0)])]), I.i32(11)], name: 'main' }); }) },
  both(`  relay $m 'Result: Num(I32(11))' g.wasm --invoke main`));
const W1 = 'wasi_snapshot_preview1';
add('c01-narrow-division', 'C01', 'i64.div_s of -2^31 by -1', 'the quotient wraps to -2^31 instead of being 2^31',
  [['src/execution/handlers.rs', '    operand::write_i64(state, &dst, a / b);', `    // Operands that fit in 32 bits: the narrow division is cheaper
    let (x, y) = (a as i32, b as i32);
    if x as i64 == a && y as i64 == b && y != 0 {
        operand::write_i64(state, &dst, x.wrapping_div(y) as i64);
    } else {
        operand::write_i64(state, &dst, a / b);
    }`]],
  { g: G((m) => { m.func({ params: ['i64', 'i64'], results: ['i64'], body: [I.get(0), I.get(1), op('i64.div_s')], name: 'main' }); }) },
  both(`  expect $m 'Result: Num(I64(2147483648))' g.wasm --invoke main --params 'I64(-2147483648)' --params 'I64(-1)'`));
add('c02-const-before-unary', 'C02', 'an i64 value producer, then another producer which a unary instruction consumes, then a binary instruction', 'the unary instruction takes the wrong one of the two operands',
  [['src/parser.rs', `            wasmparser::Operator::I64Const { .. } | wasmparser::Operator::LocalGet { .. }
        ) {
            if let Some(Ok((next_next_op, _))) = ops.peek() {
                is_i64_foldable_consumer(next_next_op)
                    && !is_foldable_unary(next_next_op)
            } else {`, `            wasmparser::Operator::I64Const { .. } | wasmparser::Operator::LocalGet { .. }
        ) {
            if let Some(Ok((next_next_op, _))) = ops.peek() {
                is_i64_foldable_consumer(next_next_op)
            } else {`]],
  { g: G((m) => { m.func({ results: ['i64'], locals: ['i64'], body: [I.i64(5), I.i64(1), op('i64.clz'), op('i64.sub')], name: 'main' }); }) },
  both(`  expect $m 'Result: Num(I64(-58))' g.wasm --invoke main`));
add('c06-rem-zero', 'C06', 'i64.rem_s with divisor 0', 'the guest continues with the result 0 instead of trapping',
  [['src/execution/handlers.rs', `    let a = operand::read_i64(state, &src1);
    let b = operand::read_i64(state, &src2);
    operand::write_i64(state, &dst, a.wrapping_rem(b));`, `    let a = operand::read_i64(state, &src1);
    let b = operand::read_i64(state, &src2);
    operand::write_i64(state, &dst, a.checked_rem(b).unwrap_or(0));`]],
  { g: G((m) => { m.func({ params: ['i64'], results: ['i64'], body: [I.i64(7), I.get(0), op('i64.rem_s')], name: 'main' }); }) },
  both(`  refute $m 'Result:' g.wasm --invoke main --params 'I64(0)'`));
add('c13-poll-after-label-pop', 'C13', 'a guest with blocks, the two builds compared', 'the looping build offers no checkpoint at the end of a block: the two builds stop at different instants',
  [['src/execution/dispatch_loop.rs', `        // Per-instruction checkpoint poll (atomic flag or throttled file syscall).
        if migration::poll_checkpoint(state) {
            state.trap = Some(RuntimeError::CheckpointRequested);
            return Outcome::Trap;
        }

        // Natural`, `        // Natural`], ['src/execution/dispatch_loop.rs', `                return Outcome::Halt;
            }
        }

`, `                return Outcome::Halt;
            }
        }

        // Per-instruction checkpoint poll (atomic flag or throttled file syscall).
        if migration::poll_checkpoint(state) {
            state.trap = Some(RuntimeError::CheckpointRequested);
            return Outcome::Trap;
        }

`]],
  { g: G((m) => { yl(m); m.memory(1); const f = m.func({ params: ['i32'], results: ['i32'], body: [I.get(0), I.i32(1), op('i32.add')] }); m.func({ results: ['i32'], locals: ['i32'], body: [I.loop('', [I.get(0), I.call(f), I.tee(0), I.i32(20000), op('i32.lt_u'), I.br_if(0)]), I.get(0)], name: 'main' }); }) },
  `for m in tco legacy; do rm -f "$W/checkpoint.bin"; : > "$W/checkpoint.trigger"; expect $m 'stopped for checkpoint' g.wasm --invoke main --cr; mv "$W/checkpoint.bin" "$W/$m.bin"; done
cmp "$W/tco.bin" "$W/legacy.bin" || { echo 'the two builds stopped at different instants'; bad=1; }`);
add('c14-seek-whence-lost', 'C14', 'fd_seek with a backward offset larger than 2^31 in a large sparse file', 'the file position is wrong',
  [['src/wasi/passthrough.rs', `                fd as u32,
                offset,
                whence,`, `                fd as u32,
                i64::from(offset as i32),
                whence,`]],
  { g: G((m) => { const po = m.importFunc(W1, 'path_open', ['i32', 'i32', 'i32', 'i32', 'i32', 'i64', 'i64', 'i32', 'i32'], ['i32']); const sk = m.importFunc(W1, 'fd_seek', ['i32', 'i64', 'i32', 'i32'], ['i32']); m.memory(1); m.data(I.i32(16), [...Buffer.from('f')]);
    m.func({ results: ['i64'], body: [I.i32(3), I.i32(0), I.i32(16), I.i32(1), I.i32(1), I.i64(0x1fffffffn), I.i64(0x1fffffffn), I.i32(0), I.i32(64), I.call(po), I.drop(), I.i32(64), I.load('i32.load', 0), I.i64(6000000000n), I.i32(0), I.i32(72), I.call(sk), I.drop(), I.i32(72), I.load('i64.load', 0)], name: 'main' }); }) },
  both(`  expect $m 'Result: Num(I64(6000000000))' g.wasm --invoke main`));
add('c15-readdir-rounded', 'C15', 'fd_readdir with a buffer length that is not a multiple of 8', 'up to seven bytes behind the buffer are overwritten',
  [['src/wasi/passthrough.rs', `                memory_base.add(buf_ptr as usize) as *mut u8,
                buf_len,
                cookie,`, `                memory_base.add(buf_ptr as usize) as *mut u8,
                buf_len.next_multiple_of(8),
                cookie,`]],
  { g: G((m) => { const rd = m.importFunc(W1, 'fd_readdir', ['i32', 'i32', 'i32', 'i64', 'i32'], ['i32']); m.memory(1); m.func({ results: ['i32'], body: [I.i32(1044), I.i32(-1), I.store('i32.store', 0), I.i32(3), I.i32(1024), I.i32(20), I.i64(0), I.i32(64), I.call(rd), I.drop(), I.i32(1044), I.load('i32.load', 0)], name: 'main' }); }) },
  both(`  expect $m 'Result: Num(I32(-1))' g.wasm --invoke main`));
add('c16-f32-through-f64', 'C16', 'an F32 parameter written with many digits, just beside the middle of two neighbouring floats', 'the guest gets the wrong neighbour',
  [['src/main.rs', 'captures.as_str().parse::<f32>().unwrap(),', 'captures.as_str().parse::<f64>().unwrap() as f32,']],
  { g: G((m) => { m.func({ params: ['f32'], results: ['i32'], body: [I.get(0), op('i32.reinterpret_f32')], name: 'main' }); }) },
  both(`  expect $m 'Result: Num(I32(1065353217))' g.wasm --invoke main --params 'F32(1.00000017881393432617187499)'`));
add('c17-exit-code-byte', 'C17', 'proc_exit with a code that is a multiple of 256', 'the run reports success',
  [['src/wasi/passthrough.rs', '__wasi_proc_exit(exit_code as u32);', '__wasi_proc_exit(u32::from(exit_code as u8));']],
  { g: G((m) => { const ex = m.importFunc(W1, 'proc_exit', ['i32'], []); m.memory(1); m.func({ body: [I.i32(512), I.call(ex)], name: '_start' }); }) },
  `for m in tco legacy; do timeout 100 wasmtime run --dir "$W::." "target/vp/$m/wasm32-wasip1/release/chiwawa.wasm" g.wasm >/dev/null 2>&1 && { echo "$m: exit status 0"; bad=1; }; done`);
add('c18-ref-registers-kept', 'C18', 'a function with reference-typed registers called again and again', 'every call leaks its reference registers: memory grows without bound',
  [['src/execution/regs.rs', '            self.ref_regs.truncate(popped.ref_offset as usize);\n', '']],
  { g: G((m) => { m.table('externref', 1); const f = m.func({ locals: Array(60).fill('externref'), body: [I.i32(0), I.tget(0), I.set(0)] }); m.func({ results: ['i32'], locals: ['i32'], body: [I.loop('', [I.call(f), I.get(0), I.i32(1), op('i32.add'), I.tee(0), I.i32(200000), op('i32.lt_u'), I.br_if(0)]), I.get(0)], name: 'main' }); }) },
  `for m in tco legacy; do out=$(timeout 100 wasmtime run -W max-memory-size=33554432 --dir "$W::." "target/vp/$m/wasm32-wasip1/release/chiwawa.wasm" g.wasm --invoke main 2>&1); case "$out" in *'Result: Num(I32(200000))'*) ;; *) echo "$m: $out" | head -c 600; bad=1;; esac; done`);
add('c20-trace-range', 'C20', 'tracing loads only, and a guest that executes i64.load32_u', 'the trace leaves those loads out',
  [['src/execution/trace.rs', '(HANDLER_IDX_I32_LOAD..=HANDLER_IDX_I64_LOAD32_U).contains', '(HANDLER_IDX_I32_LOAD..HANDLER_IDX_I64_LOAD32_U).contains']],
  { g: G((m) => { m.memory(1); m.func({ results: ['i64'], body: [I.i32(8), I.load('i64.load32_u', 0)], name: 'main' }); }) },
  `. /opt/vp/env.sh
cargo build --offline --release --target wasm32-wasip1 --target-dir "$W/t" --config .cargo/config-wasmtime-legacy.toml --bin chiwawa --features wasmtime,trace >"$W/log" 2>&1 || { tail -5 "$W/log"; bad=1; }
out=$(wasmtime run --dir "$W::." "$W/t/wasm32-wasip1/release/chiwawa.wasm" g.wasm --invoke main --trace --trace-events load 2>&1)
case "$out" in *i64.load32_u*) ;; *) echo "not traced: $out"; bad=1;; esac`);
// a program that uses the library: a scratch crate beside the sources of chiwawa
const PROG = (what) => `. /opt/vp/env.sh
mkdir -p "$W/p/src"; cp "$D/main.rs" "$W/p/src/"; cp Cargo.lock "$W/p/" 2>/dev/null
printf '[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n[dependencies]\nchiwawa = { path = "%s", features = ["wasmtime"] }\n' "$PWD" > "$W/p/Cargo.toml"
cargo build --offline --release --target wasm32-wasip1 --target-dir "$W/t" --config .cargo/config-wasmtime-legacy.toml --manifest-path "$W/p/Cargo.toml" > "$W/log" 2>&1 || { tail -5 "$W/log"; exit 2; }
out=$(timeout 100 wasmtime run --dir "$W::." "$W/t/wasm32-wasip1/release/demo.wasm" 2>&1); case "$out" in *'${what}'*) ;; *) echo "expected '${what}', got: $out"; bad=1;; esac`;
const LINKRS = `use chiwawa::{execution::{module::{ImportObjects, ModuleInst}, runtime::Runtime, value::Val}, parser, structure::module::Module};
use std::rc::Rc;
fn load(path: &str, imports: ImportObjects) -> Rc<ModuleInst> {
    let mut module = Module::new("demo");
    parser::parse_bytecode(&mut module, path).unwrap();
    ModuleInst::new(&module, imports, vec![]).unwrap()
}
fn call(i: &Rc<ModuleInst>, name: &str, params: Vec<Val>) -> Vec<Val> {
    let f = i.get_export_func(name).unwrap();
    Runtime::new(Rc::clone(i), &f, params, false, false).unwrap().run().unwrap()
}
fn main() {
    let a = load("a.wasm", ImportObjects::default());
    let mut imports = ImportObjects::default();
    let exports = a.exports.iter().map(|e| (e.name.clone(), e.value.clone()));
    imports.insert("a".to_string(), exports.collect());
    let b = load("b.wasm", imports);
    call(&b, "put", vec![]);
    println!("{:?} {:?}", call(&a, "get", vec![]), call(&b, "get", vec![]));
}
`;
add('c21-callee-memory', 'C21', 'two linked instances, and a function of the first called by the second', 'the imported function works on the memory of the instance that calls it, not on its own',
  [['src/execution/runtime.rs', `                                    let primary_mem = func_module_weak
                                        .upgrade()
                                        .and_then(|m| m.mem_addrs.first().cloned());`, `                                    let primary_mem = self.module_inst.mem_addrs.first().cloned();`]],
  { a: G((m) => { m.memory(1); m.func({ body: [I.i32(8), I.i32(7), I.store('i32.store', 0)], name: 'put' }); m.func({ results: ['i32'], body: [I.i32(8), I.load('i32.load', 0)], name: 'get' }); }), b: G((m) => { const put = m.importFunc('a', 'put', [], []); m.memory(1); m.func({ body: [I.call(put)], name: 'put' }); m.func({ results: ['i32'], body: [I.i32(8), I.load('i32.load', 0)], name: 'get' }); }) },
  PROG('[Num(I32(7))] [Num(I32(0))]'), { 'main.rs': LINKRS });
add('c18-checked-branch', 'C18', 'the tco dispatcher, and some ten thousand executions of br_table in a row without a call', 'the handler of br_table has a second way to return, so it is no longer compiled to a tail call: every execution leaves a frame on the host stack',
  [['src/execution/handlers.rs', `            let (d, ip, rs) = default_target;
            (*d as usize, *ip, &rs[..])
        };
`, `            let (d, ip, rs) = default_target;
            (*d as usize, *ip, &rs[..])
        };
    if target_ip > state.instrs_len {
        state.trap = Some(RuntimeError::InvalidHandlerIndex);
        return trap(state);
    }
`]],
  { g: G((m) => { m.func({ results: ['i32'], locals: ['i32'], body: [I.loop('', [I.get(0), I.i32(1), op('i32.add'), I.set(0), ...I.block('', [I.get(0), I.i32(1), op('i32.and'), I.br_table([0, 0], 0)].flat()), I.get(0), I.i32(3000000), op('i32.lt_u'), I.br_if(0)].flat(9)), I.get(0)].flat(9), name: 'main' }); }) },
  both(`  expect $m 'Result: Num(I32(3000000))' g.wasm --invoke main`));
add('c22-register-window', 'C22', 'a recursion so deep that its frames hold more than 65535 i32 registers together', 'the start of a register window is held in 16 bits: frames beyond overwrite the registers of frames below',
  [['src/execution/regs.rs', 'pub i32_offset: u32,', 'pub i32_offset: u16,'], ['src/execution/regs.rs', 'i32_offset: self.i32_regs.len() as u32,', 'i32_offset: self.i32_regs.len() as u16,']],
  { g: G((m) => { const f = m.func({ params: ['i32'], results: ['i32'], body: [] }); const vs = Array.from({ length: 20 }, (_, i) => [I.get(0), I.i32(i), op('i32.mul')]); m.setBody(f, [vs, I.get(0), op('i32.eqz'), I.if('i32', I.i32(1), [I.get(0), I.i32(1), op('i32.sub'), I.call(f)].flat()), vs.map(() => op('i32.add'))].flat(9)); m.func({ results: ['i32'], body: [I.i32(4000), I.call(f)].flat(), name: 'main' }); }) },
  both(`  expect $m 'Result: Num(I32(1520380001))' g.wasm --invoke main`));
add('c03-br-table-index', 'C03', 'a br_table whose operand is 65536 or more', 'the operand is taken modulo 65536: a label of the table is taken instead of the default',
  [['src/execution/handlers.rs', 'let idx = state.reg_file().get_i32(index_reg.index()) as usize;', 'let idx = state.reg_file().get_i32(index_reg.index()) as u16 as usize;']],
  { g: G((m) => { m.func({ results: ['i32'], locals: ['i32'], body: [I.i32(65536), I.set(0), I.block('', I.block('', [I.get(0), I.br_table([0], 1)].flat()).concat(I.i32(1), I.return())), I.i32(2)].flat(9), name: 'main' }); }) },
  both(`  expect $m 'Result: Num(I32(2))' g.wasm --invoke main`));
add('c08-legacy-wasi-name', 'C08', 'a module that imports functions of the older wasi_unstable interface', 'its functions are linked to those of wasi_snapshot_preview1, which differ: the module is run instead of refused',
  [['src/parser.rs', 'if import.module == "wasi_snapshot_preview1" {', 'if import.module.starts_with("wasi_") {']],
  { g: G((m) => { m.importFunc('wasi_unstable', 'fd_seek', ['i32', 'i64', 'i32', 'i32'], ['i32']); m.memory(1); m.func({ results: ['i32'], body: [I.i32(1), I.i64(0), I.i32(1), I.i32(8), I.call(0)], name: 'main' }); }) },
  both(`  refute $m 'Result: Num' g.wasm --invoke main`));
add('c24-return-call', 'C24', 'a module that uses return_call with code after it in the function', 'return_call is executed as a call that does not return from its function',
  [['src/parser.rs', 'wasmparser::Operator::Call { function_index } => {', 'wasmparser::Operator::Call { function_index }\n                | wasmparser::Operator::ReturnCall { function_index } => {']],
  { g: G((m) => { const f = m.func({ body: [I.i32(5), I.gset(0)] }); m.global('i32', true, I.i32(0)); m.func({ params: ['i32'], body: [I.get(0), I.if('', [[0x12, f]]), I.i32(9), I.gset(0)], name: 'h' }); m.func({ results: ['i32'], body: [I.i32(1), I.call(1), I.gget(0)], name: 'main' }); }) },
  both(`  refute $m 'Result: Num(I32(9))' g.wasm --invoke main`));
add('c24-extended-const', 'C24', 'a global, element or data offset whose constant expression computes a product that overflows', 'extended constant expressions are accepted, but saturate instead of wrapping',
  [['src/parser.rs', `            _ => {
                return Err(Box::new(ParserError::InitExprUnsupportedOPCodeError {`, `            wasmparser::Operator::I32Add
            | wasmparser::Operator::I32Sub
            | wasmparser::Operator::I32Mul => {
                let right = instrs.pop();
                let left = instrs.pop();
                let (Some(Instr::I32Const(a)), Some(Instr::I32Const(b))) = (left, right) else {
                    return Err(Box::new(ParserError::InitExprUnsupportedOPCodeError {
                        offset,
                    }));
                };
                instrs.push(Instr::I32Const(match op {
                    wasmparser::Operator::I32Add => a.saturating_add(b),
                    wasmparser::Operator::I32Sub => a.saturating_sub(b),
                    _ => a.saturating_mul(b),
                }))
            }

            _ => {
                return Err(Box::new(ParserError::InitExprUnsupportedOPCodeError {`]],
  { g: G((m) => { m.global('i32', false, [I.i32(65536), I.i32(65536), op('i32.mul'), I.i32(7), op('i32.add')].flat(Infinity)); m.func({ results: ['i32'], body: [I.gget(0)], name: 'main' }); }) },
  both(`  refute $m 'Result: Num(I32(2147483647))' g.wasm --invoke main`));
add('c20-restored-stats', 'C20', 'an execution with statistics that is restored from an image and may be checkpointed again', 'the restored part is executed without being counted or reported',
  [['src/main.rs', `            restored_stacks,
            cli.enable_stats,`, `            restored_stacks,
            cli.enable_stats && !cli.enable_checkpoint,`]],
  { g: G((m) => { yl(m); m.memory(1); m.func({ results: ['i32'], locals: ['i32'], body: [spin(5000, 0), I.get(0)], name: 'main' }); }) },
  `. /opt/vp/env.sh
cargo build --offline --release --target wasm32-wasip1 --target-dir "$W/t" --config .cargo/config-wasmtime-legacy.toml --bin chiwawa --features wasmtime,stats >"$W/log" 2>&1 || { tail -5 "$W/log"; bad=1; }
chi() { timeout 100 wasmtime run --dir "$W::." "$W/t/wasm32-wasip1/release/chiwawa.wasm" g.wasm --invoke main "$@" 2>&1; }
: > "$W/checkpoint.trigger"; out=$(chi --cr --stats)
case "$out" in *'stopped for checkpoint'*'instructions executed: '[1-9]*) ;; *) echo "first part: $out"; bad=1;; esac
out=$(chi --cr --stats --restore checkpoint.bin)
case "$out" in *'I32(5000)'*'instructions executed: '[1-9]*) ;; *) echo "restored part: $out"; bad=1;; esac`);
add('c05-copy-in-pieces', 'C05', 'memory.copy of more than 65536 bytes onto itself, the target above the source', 'the copy is made in pieces from the bottom: later pieces read what earlier ones wrote',
  [['src/execution/mem.rs', '            std::ptr::copy(src_ptr, dest_ptr, len_usize);', `            // In pieces, to bound the time of a single host copy
            let mut done = 0;
            while done < len_usize {
                let piece = (len_usize - done).min(65536);
                std::ptr::copy(src_ptr.add(done), dest_ptr.add(done), piece);
                done += piece;
            }`]],
  { g: G((m) => { m.memory(3); m.func({ results: ['i32'], body: [I.i32(65536), I.i32(77), I.store('i32.store', 0), I.i32(4), I.i32(0), I.i32(70000), I.mem_copy(), I.i32(65540), I.load('i32.load', 0)].flat(), name: 'main' }); }) },
  both(`  expect $m 'Result: Num(I32(77))' g.wasm --invoke main`));
add('c07-fill-count', 'C07', 'table.fill of 65536 entries or more', 'the count is taken modulo 65536: the rest keeps its old references',
  [['src/execution/handlers.rs', `    let n = rf.get_i32(regs[2]) as usize;
    table_addr.fill(`, `    let n = rf.get_i32(regs[2]) as u16 as usize;
    table_addr.fill(`]],
  { g: G((m) => { const f = m.func({ body: [] }); m.table('funcref', 70000); m.elem(I.i32(0), [f]); m.func({ results: ['i32'], body: [I.i32(1), I.i32(0), I.tget(0), I.i32(65537), I.tfill(0), I.i32(65537), I.tget(0), I.ref_is_null()].flat(), name: 'main' }); }) },
  both(`  expect $m 'Result: Num(I32(0))' g.wasm --invoke main`));
add('c09-zero-tail', 'C09', 'a guest that overwrites with zeros what a data segment put at the end of the used memory, and a checkpoint afterwards', 'zeros at the end of memory are left out of the image and restored as what instantiation put there',
  [['src/execution/migration.rs', `        let raw_len = raw.len();
        let compressed = lz4_flex::compress_prepend_size(&raw);`, `        let raw_len = raw.len();
        // Zeros at the end of the last page need not be stored
        let used = raw.iter().rposition(|b| *b != 0).map_or(0, |p| p + 1);
        let kept = used.max(raw_len.saturating_sub(65535));
        let compressed = lz4_flex::compress_prepend_size(&raw[..kept]);`],
  ['src/execution/mem.rs', `        mem.data = data;
    }`, `        mem.data.resize(data.len().div_ceil(65536) * 65536, 0);
        mem.data[..data.len()].copy_from_slice(&data);
    }`]],
  { g: G((m) => { yl(m); m.memory(1); m.data(I.i32(1000), [5, 0, 0, 0]); m.func({ results: ['i32'], locals: ['i32'], body: [I.i32(1000), I.i32(0), I.store('i32.store', 0), spin(900, 0), I.i32(1000), I.load('i32.load', 0)].flat(9), name: 'main' }); }) },
  both(`  relay $m 'Result: Num(I32(0))' g.wasm --invoke main`));
add('c14-long-path', 'C14', 'path_remove_directory with a path of more than 65535 bytes', 'the length is taken modulo 65536: the directory the first bytes name is removed instead of the call failing',
  [['src/wasi/passthrough.rs', `    pub fn path_remove_directory(
        &self,
        memory: &MemAddr,
        fd: Fd,
        path_ptr: Ptr,
        path_len: Size,
    ) -> WasiResult<i32> {
        check_path(memory, path_ptr, path_len)?;
        let memory_guard = memory.get_memory_direct_access();
        let memory_base = memory_guard.data.as_ptr();

        // Create null-terminated string from path
        let path_slice = unsafe {
            std::slice::from_raw_parts(memory_base.add(path_ptr as usize), path_len as usize)
        };`, `    pub fn path_remove_directory(
        &self,
        memory: &MemAddr,
        fd: Fd,
        path_ptr: Ptr,
        path_len: Size,
    ) -> WasiResult<i32> {
        check_path(memory, path_ptr, path_len)?;
        let memory_guard = memory.get_memory_direct_access();
        let memory_base = memory_guard.data.as_ptr();

        // Create null-terminated string from path
        let path_slice = unsafe {
            std::slice::from_raw_parts(
                memory_base.add(path_ptr as usize),
                usize::from(path_len as u16),
            )
        };`]],
  { g: G((m) => { const mk = m.importFunc(W1, 'path_create_directory', ['i32', 'i32', 'i32'], ['i32']); const rm = m.importFunc(W1, 'path_remove_directory', ['i32', 'i32', 'i32'], ['i32']); m.memory(3); m.func({ results: ['i32'], body: [I.i32(16), I.i32(100), I.i32(70000), I.mem_fill(), I.i32(3), I.i32(16), I.i32(1), I.call(mk), I.drop(), I.i32(3), I.i32(16), I.i32(65537), I.call(rm), op('i32.eqz')].flat(), name: 'main' }); }) },
  both(`  rm -rf "$W/d"; expect $m 'Result: Num(I32(0))' g.wasm --invoke main`));
add('c19-name-section', 'C19', 'a valid module whose name section (a custom section, of no meaning to the module) is damaged', 'the module is refused',
  [['src/parser.rs', '            CustomSection(_) => { /* ... */ }', `            CustomSection(section) => {
                // The names of the functions, for diagnostics
                if let wasmparser::KnownCustom::Name(names) = section.as_known() {
                    for subsection in names {
                        if let wasmparser::Name::Function(map) = subsection? {
                            for naming in map {
                                naming?;
                            }
                        }
                    }
                }
            }`]],
  { g: Uint8Array.from([...G((m) => { m.func({ results: ['i32'], body: [I.i32(5)], name: 'main' }); }).build(), 0, 10, 4, 0x6e, 0x61, 0x6d, 0x65, 1, 3, 1, 0, 9]) },
  both(`  expect $m 'Result: Num(I32(5))' g.wasm --invoke main`));
add('c16-export-name-folded', 'C16', '--invoke with a name that is exported only in another case, beside an export whose name matches in part', 'an export the user did not name is run instead of the command refusing',
  [['src/execution/module.rs', `            .find(|export| export.name == name)
            .map(|export| export.value.clone());`, `            .find(|export| export.name == name)
            .or_else(|| {
                self.exports
                    .iter()
                    .find(|export| export.name.eq_ignore_ascii_case(name))
            })
            .map(|export| export.value.clone());`]],
  { g: G((m) => { m.func({ results: ['i32'], body: [I.i32(5)], name: 'main' }); m.func({ results: ['i32'], body: [I.i32(6)], name: 'mainloop' }); }) },
  both(`  expect $m 'Result: Num(I32(5))' g.wasm --invoke main
  refute $m 'Result: Num' g.wasm --invoke Main`));
if (process.argv[1].endsWith('plants.mjs')) for (const p of P) if (process.argv.length < 3 || process.argv.includes(p.id)) plant(p);
