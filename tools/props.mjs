// Source of properties.jsonl and MANIFEST.json: node tools/props.mjs
import fs from 'node:fs';
import path from 'node:path';
const V = path.dirname(path.dirname(new URL(import.meta.url).pathname));
const P = [];
const prop = (id, title, statement, over, text, why, files, mechanism, extra = {}) => P.push({ id, title, statement, quantifier: { over, text }, why_tests_cant: why, anchors: { files, mechanism: mechanism.map(([name, where]) => ({ name, where })), ...extra } });

prop('C01', 'Numeric instructions compute the WebAssembly-defined result',
  'For every numeric, comparison, conversion, sign-extension and saturating-truncation instruction and every operand value, the guest observes exactly the result the WebAssembly specification defines (any NaN where the specification allows any NaN), or a trap exactly where it defines one. The result does not depend on whether operands come from constants, locals, or computed values, nor on whether the result goes to a local or stays on the stack.',
  ['inputs', 'programs'], 'all instructions x all operand bit patterns x all operand/destination forms',
  'The spec-suite tests cover a fixed list of operands, nearly all in one operand form (locals); wrong boundaries and form-specific handlers survive them.',
  ['src/execution/handlers.rs', 'src/parser.rs', 'src/execution/operand.rs'], [['typed register handlers', 'src/execution/handlers.rs'], ['handler selection', 'src/execution/handlers.rs select_handler'], ['constant/local operand folding', 'src/parser.rs take_*_operand']], { observe_at: ['results of an exported function'] });
prop('C02', 'Compilation to registers preserves stack-machine semantics',
  'For every well-typed straight-line instruction sequence, chiwawa leaves the same values on the operand stack, in the locals, in the globals and in memory as the WebAssembly stack machine does. In particular it makes no difference which neighbouring instructions surround a value producer, a local access, a drop, a select or a store.',
  ['programs'], 'all well-typed straight-line sequences and all argument values',
  'Unit tests contain a few idioms; the translator decides by looking ahead at neighbouring instructions, so a wrong decision shows only for particular neighbourhoods.',
  ['src/parser.rs', 'src/execution/regs.rs', 'src/execution/operand.rs'], [['look-ahead folding', 'src/parser.rs can_fold_*, try_fold_dst_*'], ['register allocation by type depth', 'src/execution/regs.rs RegAllocator']], { observe_at: ['function results, locals, globals, memory'] });
prop('C03', 'Structured control flow takes the specified path with the specified values',
  'For every valid nesting of blocks, loops, conditionals and branches (conditional, unconditional, table, return, to the function level), the guest executes the same sequence of effects and delivers the same block, loop and function values as the WebAssembly specification prescribes, for every sequence of branch decisions. Code after an unconditional branch has no effect.',
  ['programs', 'inputs'], 'all control structures, label depths, block types and decision sequences',
  'Tests use the control shapes of the spec suite and of compiled programs; the product of block type, label depth, operand stack below the label and branch kind is not covered.',
  ['src/parser.rs', 'src/execution/handlers.rs', 'src/execution/state.rs'], [['branch target and operand resolution', 'src/parser.rs compute_branch_regs, preprocess_instructions'], ['label stack handling', 'src/execution/handlers.rs br, br_if, br_table, block, if, end, jump']], { observe_at: ['event trace and results'] });
prop('C04', 'Calls pass arguments and results and disturb nothing else',
  'Every direct or indirect call, of every signature and at every nesting and recursion depth, gives the callee exactly the caller\'s arguments and zero-initialised locals, and gives the caller exactly the callee\'s results in order. The caller\'s locals and the operands beneath the call are unchanged by it. An indirect call reaches the function its table entry names, or traps if the entry is missing or of another type.',
  ['programs', 'inputs'], 'all signatures, call sites, argument sources, table indices and recursion depths',
  'Tests call small functions of a few signatures; argument placement, result placement and register saving depend on the mix of types, on what lies beneath the call and on depth.',
  ['src/parser.rs', 'src/execution/runtime.rs', 'src/execution/handlers.rs', 'src/execution/regs.rs'], [['call argument and result registers', 'src/parser.rs Call/CallIndirect'], ['frame push and pop', 'src/execution/runtime.rs run'], ['register windows', 'src/execution/regs.rs RegFile save/restore']], { observe_at: ['results of exported functions', 'memory and globals written by the callee'] });
prop('C05', 'Linear memory behaves as a growable byte array',
  'Every load observes exactly the bytes last stored there by any store, bulk operation or initialiser, little-endian and extended as its type says, for every in-bounds address and static offset. Growing adds zeroed pages, keeps the contents, returns the old size or -1, and is seen at once by every function, also by one that was already running when the growth happened.',
  ['programs', 'inputs', 'histories'], 'all access widths, addresses, overlaps and sequences of memory operations',
  'Tests use a few offsets per instruction; overlap, operand form, and stale cached memory pointers after growth in a callee need combinations.',
  ['src/execution/mem.rs', 'src/execution/handlers.rs', 'src/execution/runtime.rs'], [['cached memory base pointer', 'src/execution/state.rs mem_ptr'], ['memory.grow/fill/copy/init', 'src/execution/mem.rs'], ['load/store handlers', 'src/execution/handlers.rs']], { observe_at: ['loaded values', 'memory contents and size'] });
prop('C06', 'A trap stops the guest at the trapping instruction',
  'Every trapping instruction, wherever it stands, makes the invocation fail: everything before it has happened, nothing after it happens, and the trapping instruction itself leaves memory and tables untouched. No execution that must trap ever returns normally.',
  ['programs', 'inputs'], 'all trapping instructions, operands and surrounding effect sequences',
  'Tests check that single instructions trap; that effects before are kept and effects after never happen is not observed, nor are traps inside nested calls, blocks and folded operands.',
  ['src/execution/handlers.rs', 'src/execution/runtime.rs', 'src/execution/mem.rs', 'src/execution/table.rs'], [['trap outcome', 'src/execution/dispatch.rs'], ['bulk range checks', 'src/execution/mem.rs, table.rs'], ['error propagation', 'src/execution/runtime.rs run']], { observe_at: ['outcome of the call', 'memory, globals, output afterwards'] });
prop('C07', 'Globals, tables and references hold what was last put there',
  'Every read of a global, a table entry or a reference-typed local yields the value last written by any function of the guest, and an indirect call through a table uses the entry\'s current value. References can be passed, selected, tested for null, stored and filled without change.',
  ['programs', 'histories'], 'all sequences of global, table and reference operations',
  'Tests exercise each instruction once; sequences across calls and types, and references through blocks, select and locals, are not sampled.',
  ['src/execution/handlers.rs', 'src/execution/global.rs', 'src/execution/table.rs', 'src/parser.rs'], [['global handlers', 'src/execution/handlers.rs global_get/set'], ['table handlers', 'src/execution/handlers.rs table_get/set/fill'], ['reference registers', 'src/execution/regs.rs']], { observe_at: ['final globals, table entries, results'] });
prop('C08', 'Instantiation builds exactly the state the module declares',
  'A valid module with only WASI imports is instantiated to exactly the memories, tables, globals, segments and exports it declares: limits, initial values, segment contents and order, passive and declared segments, index spaces with imported functions, and the start function, which runs once before the invoked export. Instantiation fails exactly where WebAssembly says it must.',
  ['inputs', 'configurations'], 'all module definitions over the declaring sections',
  'Tests load a handful of modules; segment encodings, boundary offsets, limits and export kinds multiply.',
  ['src/parser.rs', 'src/execution/module.rs', 'src/main.rs'], [['section decoding', 'src/parser.rs decode_*_section'], ['allocation and segments', 'src/execution/module.rs ModuleInst::new'], ['start function', 'src/execution/runtime.rs run_start']], { observe_at: ['state of the fresh instance', 'results of its exports', 'exit of the command'] });
prop('C09', 'A checkpoint at any instruction is transparent',
  'For every guest and every instruction at which a checkpoint can be taken, stopping there and restoring the image in a new process continues the execution as if it had never stopped: same results or trap, same output, same final memory, globals and tables, for every call depth, control nesting and operand stack.',
  ['crash_points', 'programs'], 'all guests x all instants at which a checkpoint can be taken',
  'The checkpoint tests take one checkpoint at one convenient moment of a few programs; each instruction is a different mix of live registers, frames, labels and pending results.',
  ['src/execution/migration.rs', 'src/execution/runtime.rs', 'src/execution/state.rs', 'src/execution/regs.rs'], [['image contents', 'src/execution/migration.rs SerializableState'], ['rebuilding skipped fields', 'src/execution/migration.rs restore'], ['per-instruction polling', 'src/execution/dispatch.rs']], { observe_at: ['results, output, final memory/globals/tables'] });
prop('C10', 'A restored execution can itself be checkpointed, any number of times',
  'An execution restored from an image is a full execution: it can be stopped again at every instruction an uninterrupted one can, in every frame it is in or enters, and any chain of checkpoints and restores ends as the uninterrupted run does.',
  ['crash_points', 'histories'], 'all guests x all chains of checkpoint instants',
  'No test takes a second checkpoint of a restored execution at arbitrary instants; state that is rebuilt once may not survive twice.',
  ['src/execution/migration.rs', 'src/execution/runtime.rs'], [['restored runtime', 'src/execution/runtime.rs new_restored'], ['checkpoint flag per frame', 'src/execution/state.rs FrameStack']], { observe_at: ['results, output, final state; possible stop points'] });
prop('C11', 'A checkpoint request is honoured soon, once, and only when asked for',
  'With checkpointing enabled, a request file that appears at any moment of a running guest is noticed within a bounded number of executed instructions whatever the guest does (loops, calls, recursion, host calls, with or without WASI imports), is consumed, and yields one restorable image. Without a request, or without checkpointing enabled, the guest runs to its end unaffected and no image appears.',
  ['schedules', 'programs'], 'all instants of the request x guest shapes',
  'The tests place the request before the guest starts, in one loop-shaped guest; the polling counter and the frame switches decide the rest.',
  ['src/execution/migration.rs', 'src/execution/runtime.rs', 'src/wasi/passthrough.rs'], [['poll throttle', 'src/execution/migration.rs do_poll_checkpoint'], ['counter carried across frames', 'src/execution/runtime.rs execute_frame']], { observe_at: ['instruction at which the guest stops', 'checkpoint.trigger, checkpoint.bin'] });
prop('C12', 'Images survive crashes and I/O faults, and bad images are refused',
  'Whatever happens while an image is written — an I/O error or short transfer at any operation, the process killed at any moment, or a loss of power — the image path afterwards holds the previous image or the complete new one, and success is never reported without it. Restoring a truncated, altered, spliced or unreadable image, or an image of another module, fails with an error before any guest instruction runs.',
  ['crash_points', 'fault_sequences', 'inputs'], 'all I/O operations of checkpoint and restore x all faults; all damages of an image',
  'Tests write and read images on a healthy disk; none injects a fault or offers a damaged image.',
  ['src/execution/migration.rs', 'src/main.rs', 'src/structure/module.rs'], [['image writing', 'src/execution/migration.rs write_image'], ['image header', 'src/execution/migration.rs seal_image, unseal_image'], ['refusal in the command', 'src/main.rs']], { observe_at: ['checkpoint.bin', 'outcome of restore', 'exit status'] });
prop('C13', 'Images are portable between the two dispatcher builds',
  'An image written by the tail-calling build is restored by the looping build, and the other way round, and the execution ends as the uninterrupted run does; both builds offer the same instants for a checkpoint.',
  ['configurations', 'crash_points'], 'all guests x all instants x both directions',
  'Tests restore with the same build only.',
  ['src/execution/migration.rs', 'src/execution/dispatch.rs', 'src/execution/dispatch_tco.rs', 'src/execution/dispatch_loop.rs'], [['image format', 'src/execution/migration.rs'], ['handler tables rebuilt at restore', 'src/execution/migration.rs restore']], { observe_at: ['results, output, final state'] });
prop('C14', 'WASI calls reach the host and return to the guest faithfully',
  'For every wasi_snapshot_preview1 function a guest imports, and every argument, a call performs exactly the host operation the guest asked for (same descriptors, flags, offsets, path bytes and buffer contents, in guest order, each once) and the guest receives exactly the host\'s answer: the errno, and in guest memory the result values and no other byte changed. A host error is an errno to the guest, never the end of the run. This holds whether the function is called directly, through a table, or by a guest without memory.',
  ['inputs', 'histories'], 'all preview1 functions x arguments x host answers x call forms, and call sequences',
  'The tests run a few WASI programs against a real directory; short transfers, error answers, unusual buffer lists and indirect calls never happen there.',
  ['src/wasi/passthrough.rs', 'src/execution/handlers.rs', 'src/execution/module.rs'], [['forwarding of each call', 'src/wasi/passthrough.rs'], ['argument decoding', 'src/execution/runtime.rs'], ['call sites', 'src/execution/runtime.rs, src/execution/handlers.rs']], { observe_at: ['calls seen by the host', 'errno', 'guest memory'] });
prop('C15', 'WASI calls never reach outside the guest\'s memory',
  'Whatever pointers, lengths, counts and buffer lists a guest passes to a WASI function, nothing outside its current linear memory is read, written or handed to the host: a call whose ranges do not all lie inside fails visibly (an errno or the end of the run) without being performed. Calls whose ranges do lie inside work up to the last byte, also after the memory has grown.',
  ['inputs', 'histories'], 'all WASI functions x pointers and lengths around every boundary x memory histories',
  'No test passes a hostile pointer; the boundary is a 32-bit address space where sums wrap.',
  ['src/wasi/passthrough.rs', 'src/execution/mem.rs'], [['range checks', 'src/wasi/passthrough.rs'], ['memory base and size', 'src/execution/mem.rs']], { observe_at: ['calls seen by the host', 'errno or trap', 'guest memory'] });
prop('C16', 'The command line is mapped to the guest exactly as written',
  'The guest sees as its argument vector the module name followed by the words of --app-args; --invoke runs exactly the named exported function (the default is _start) with the values given by --params bit for bit, and the result printed is the value returned. What names no exported function, does not parse, or does not have the function\'s parameter types is refused with a failing exit status, and no exported function runs.',
  ['inputs', 'configurations'], 'all argument strings, parameter lists and export names within bounds',
  'The tests never run the command itself.',
  ['src/main.rs', 'src/execution/module.rs', 'src/execution/state.rs'], [['argument splitting', 'src/main.rs'], ['parse_params', 'src/main.rs'], ['export lookup', 'src/execution/module.rs get_export_func'], ['argument placement', 'src/execution/state.rs Stacks::new']], { observe_at: ['args_get in the guest', 'printed result', 'exit status'] });
prop('C17', 'The outcome of a run is the guest\'s outcome',
  'A run ends as its guest ends: the process exits 0 when the guest returns, with the guest\'s own code when it calls proc_exit, and with a failing status when it traps; everything the guest wrote before that has been written, in order, and nothing after. This does not depend on how deep in calls, blocks and loops the guest ended, on which function was invoked, on the options, or on a checkpoint and restore before the end.',
  ['programs', 'configurations', 'crash_points'], 'all ways a guest ends x nesting x options x checkpoints before the end',
  'The tests call the library, not the command; exits from nested frames and after a restore are not observed.',
  ['src/main.rs', 'src/wasi/passthrough.rs', 'src/execution/runtime.rs'], [['exit status', 'src/main.rs'], ['proc_exit', 'src/wasi/passthrough.rs'], ['error propagation', 'src/execution/runtime.rs run']], { observe_at: ['exit status, stdout, stderr'] });
prop('C18', 'A guest which repeats itself does not make the interpreter grow',
  'When a guest returns to a state it was in before, the interpreter\'s execution state (frames, labels, registers, and so the checkpoint image) also returns to what it was: its size is bounded by the guest\'s own live state, not by how long it has run. A guest may therefore loop, branch, call and make WASI calls forever, under either dispatcher: nothing it executes leaves anything behind on the host\'s stack or heap.',
  ['programs', 'histories'], 'all endless guests over the control, call and memory constructs',
  'A leak of one register or label per iteration is invisible in a test that ends after a few iterations.',
  ['src/execution/handlers.rs', 'src/execution/regs.rs', 'src/execution/runtime.rs'], [['label stack', 'src/execution/handlers.rs br, loop_'], ['register windows', 'src/execution/regs.rs save_offsets, restore_offsets'], ['frame pop', 'src/execution/runtime.rs run']], { observe_at: ['checkpoint image contents and size', 'heap size'] });
prop('C19', 'Invalid modules are refused before anything runs',
  'A file which is not a valid WebAssembly module — malformed, truncated, with sections out of order, ill-typed, or naming things which do not exist, in any section and any function, also one that would never be called — is refused with an error, and no part of it runs. Valid modules within the supported feature set are accepted.',
  ['inputs'], 'all damages of modules; all instruction sequences within bounds',
  'The tests load valid modules (and a fixed list of invalid ones, one fault each).',
  ['src/parser.rs', 'src/main.rs'], [['validation before decoding', 'src/parser.rs parse_valid_bytecode'], ['section decoding', 'src/parser.rs'], ['refusal', 'src/main.rs']], { observe_at: ['outcome of loading', 'exit status and output'] });
prop('C20', 'Statistics and tracing observe without interfering',
  'Running with --stats or --trace, with any choice of events and resources, changes nothing about the guest: same results, traps, output, memory and checkpoints, and images cross freely between builds with and without these features. What they report is true: the counts and events are those of the instructions executed.',
  ['programs', 'configurations'], 'all guests x all observation options x checkpoints',
  'The features are not compiled in the test build.',
  ['src/execution/runtime.rs', 'src/execution/state.rs', 'src/execution/trace.rs', 'src/execution/stats.rs'], [['observation hook', 'src/execution/state.rs VmState::observe'], ['statistics', 'src/execution/stats.rs'], ['tracing', 'src/execution/trace.rs']], { observe_at: ['results, memory, output', 'report contents'] });
prop('C21', 'An instance serves any history of calls; instances are separate, linked ones cooperate',
  'Any sequence of calls may be made on an instance: each call starts from the state the calls before it left and from nothing else. Instances of the same or different modules in one process share nothing, except that a function imported from another instance works on that instance — its memory, globals, tables, segments and WASI calls — however it is reached, and the caller resumes with its own.',
  ['histories'], 'all sequences of calls on all instances',
  'The tests make one call per instance, and never link two instances.',
  ['src/execution/runtime.rs', 'src/execution/module.rs'], [['instance of a frame', 'src/execution/runtime.rs frame_module'], ['import resolution', 'src/execution/module.rs ModuleInst::new'], ['call', 'src/execution/runtime.rs run, Runtime::new']], { observe_at: ['results of calls', 'memory, globals and tables of every instance', 'output'] });
prop('C22', 'Size does not matter',
  'A program computes the same whatever the size of its parts: operand stack depth, numbers of locals, parameters, results, globals, functions, types, tables, segments, imports and exports, nesting and call depth, length of code and of branches, br_table targets, sizes of memory and of data. There is no size at which it silently computes something else, loses state in a checkpoint, or brings down the runtime; what exceeds the capacity of the runtime is refused at load.',
  ['programs'], 'all boundary sizes of every construct',
  'The tests are small: no narrow index, counter or recursion ever reaches its limit.',
  ['src/parser.rs', 'src/execution/regs.rs', 'src/execution/runtime.rs', 'src/execution/migration.rs'], [['register numbers', 'src/execution/regs.rs RegAllocator'], ['branch targets', 'src/parser.rs preprocess_instructions'], ['frames', 'src/execution/runtime.rs run'], ['image of a large state', 'src/execution/migration.rs']], { observe_at: ['results, memory, globals', 'refusal at load'] });
prop('C23', 'Programs of real toolchains run as anywhere, stopped or not, nested or not',
  'A program built by an ordinary compiler for wasm32-wasip1 (or plain wasm32), at any optimisation level and with any of the supported features, with its whole run time — allocator, formatting, collections, goroutines and their collector, panics, file and stream access — behaves under chiwawa as under any other engine: same output, exit status, errors, memory. Stopping it at any instant and continuing it in another process, with either dispatcher, any number of times, changes none of that. chiwawa is itself such a program: it runs under chiwawa, and inner and outer checkpoints work.',
  ['programs', 'inputs', 'instants'], 'all inputs of all programs, all instants of their runs',
  'No test runs a compiled program of any size, none is stopped while many frames, labels and values of every kind are live, and none runs the interpreter in itself.',
  ['src/parser.rs', 'src/execution/runtime.rs', 'src/execution/handlers.rs', 'src/execution/migration.rs', 'src/wasi/passthrough.rs', 'src/main.rs'], [['translation', 'src/parser.rs'], ['execution', 'src/execution/runtime.rs, src/execution/handlers.rs'], ['images', 'src/execution/migration.rs'], ['WASI', 'src/wasi/passthrough.rs']], { observe_at: ['standard output and error', 'exit status', 'memory'] });
prop('C24', 'Nothing is half supported',
  'A valid module using any instruction, constant expression, type, section or encoding of any WebAssembly proposal is either refused when it is loaded, before anything runs, or does exactly what WebAssembly says it does — wherever the feature stands, reachable or not, and with whatever operands. In particular a memory, table, global, type or index which the runtime does not implement is never taken for another one it does. Custom sections, whatever they contain, change nothing.',
  ['instructions', 'modules', 'encodings'], 'every instruction of every proposal, every place in a module',
  'The tests contain what is supported; what happens to anything else is decided by many catch-all arms and ignored fields of the decoder.',
  ['src/parser.rs', 'src/execution/module.rs', 'src/execution/runtime.rs'], [['decoding and translation', 'src/parser.rs'], ['instantiation', 'src/execution/module.rs']], { observe_at: ['load result', 'results of calls', 'memory, tables, globals'] });
//--MORE--
fs.writeFileSync(path.join(V, 'properties.jsonl'), P.map((p) => JSON.stringify(p)).join('\n') + '\n');
const TECH = {
  exploration: 'exhaustive bounded exploration of the real interpreter against a reference execution (explicit-state model checking of the implementation)',
  fault_enumeration: 'exhaustive enumeration of fault points and damaged images on the real interpreter',
  model_checking: 'explicit-state exploration of a model with every transition replayed on the real interpreter',
};
const NA = {};
const checks = []; const na = [];
for (const p of P) {
  const f = fs.readdirSync(path.join(V, 'checks')).find((x) => x.startsWith(p.id.toLowerCase() + '_'));
  if (!f) { na.push({ property: p.id, reason: NA[p.id] ?? 'no check yet' }); continue; }
  const { meta } = await import(path.join(V, 'checks', f));
  checks.push({ property: p.id, quick_cmd: `node mc.mjs ${p.id} quick`, thorough_cmd: `node mc.mjs ${p.id} thorough`, evidence_file: `evidence/${p.id}.json`, technique: meta.technique ?? TECH[meta.level], level: meta.level, level_note: `${meta.note ?? 'Complete within the stated bounds; nothing is sampled.'} Bounds (quick): ${typeof meta.bounds === 'function' ? meta.bounds('quick') : meta.bounds} Assumes: ${(meta.assumptions ?? []).join('; ')}.` });
}
const manifest = { version: 1, setup_cmd: 'node lib/build.mjs tco legacy', hooks: { guard: 'chiwawa_mc', enable: 'RUSTFLAGS="--cfg chiwawa_mc" when lib/build.mjs compiles the /verif/harness crate (path dependency on /repo) for wasm32-wasip1', source_commits: ['a464af0'] }, checks, not_applicable: na, notes: 'The interpreter is compiled to wasm32-wasip1 and hosted by Node (V8) with an in-memory, fully controlled WASI host; V8 running the same guest directly is the reference. Known findings: known_findings.json.' };
fs.writeFileSync(path.join(V, 'MANIFEST.json'), JSON.stringify(manifest, null, 1) + '\n');
console.log(checks.length, 'checks', na.length, 'not applicable');
