//! Thin driver around the real chiwawa crate, compiled for wasm32-wasip1 and
//! hosted by the Node explorer.  Nothing here decides anything: it loads a
//! guest through the real parser, instantiates it, invokes exports through the
//! real runtime, restores checkpoint images through the real restore path and
//! exposes the resulting state byte for byte.
#![allow(static_mut_refs)]

use chiwawa::error::RuntimeError;
use chiwawa::execution::func::{FuncAddr, FuncInst};
use chiwawa::execution::migration;
use chiwawa::execution::module::{ImportObjects, ModuleInst};
use chiwawa::execution::runtime::Runtime;
use chiwawa::execution::state::Stacks;
use chiwawa::execution::value::{Num, Ref, Val, Vec_};
use chiwawa::parser;
use chiwawa::structure::module::Module;
use chiwawa::structure::types::{NumType, ValueType};
use rustc_hash::FxHashMap;
use std::rc::Rc;

struct St {
    inst: Option<Rc<ModuleInst>>,
    kept: Vec<Rc<ModuleInst>>,
    stacks: Option<Stacks>,
    out: Vec<u8>,
    bufs: Vec<Vec<u8>>,
}
static mut ST: St = St {
    inst: None,
    kept: Vec::new(),
    stacks: None,
    out: Vec::new(),
    bufs: Vec::new(),
};
fn st() -> &'static mut St {
    unsafe { &mut ST }
}
fn set_out(s: &str) {
    st().out = s.as_bytes().to_vec();
}
unsafe fn bytes<'a>(p: *const u8, n: usize) -> &'a [u8] {
    if n == 0 {
        &[]
    } else {
        std::slice::from_raw_parts(p, n)
    }
}

#[no_mangle]
pub extern "C" fn mc_alloc(n: usize) -> *mut u8 {
    let mut v = vec![0u8; n.max(1)];
    let p = v.as_mut_ptr();
    st().bufs.push(v);
    p
}
#[no_mangle]
pub extern "C" fn mc_free_all() {
    st().bufs.clear();
}
#[no_mangle]
pub extern "C" fn mc_out_ptr() -> *const u8 {
    st().out.as_ptr()
}
#[no_mangle]
pub extern "C" fn mc_out_len() -> usize {
    st().out.len()
}

/// Drops the current instance.
#[no_mangle]
pub extern "C" fn mc_drop() {
    st().inst = None;
    st().kept.clear();
    st().out = Vec::new();
    st().bufs.clear();
}

/// Parses `path` and instantiates it. Each argument in argv ends in NUL.
/// 0 ok, 1 parse error, 2 instantiation error (message in out).
#[no_mangle]
pub unsafe extern "C" fn mc_load(
    path: *const u8,
    path_len: usize,
    argv: *const u8,
    argv_len: usize,
) -> i32 {
    let path = String::from_utf8_lossy(bytes(path, path_len)).into_owned();
    let argv: Vec<String> = if argv_len == 0 {
        Vec::new()
    } else {
        bytes(argv, argv_len - 1)
            .split(|b| *b == 0)
            .map(|s| String::from_utf8_lossy(s).into_owned())
            .collect()
    };
    st().inst = None;
    let mut module = Module::new("test");
    if let Err(e) = parser::parse_valid_bytecode(&mut module, &path) {
        set_out(&format!("{}", e));
        return 1;
    }
    // instances kept so far can be imported from, as modules m0, m1, ...
    let mut imports: ImportObjects = FxHashMap::default();
    for (k, i) in st().kept.iter().enumerate() {
        let exports = i.exports.iter();
        let m = exports.map(|e| (e.name.clone(), e.value.clone()));
        imports.insert(format!("m{}", k), m.collect());
    }
    match ModuleInst::new(&module, imports, argv) {
        Ok(i) => {
            st().inst = Some(i);
            0
        }
        Err(e) => {
            set_out(&format!("{:?}", e));
            2
        }
    }
}

/// Keeps the current instance beside later ones; returns its number.
#[no_mangle]
pub extern "C" fn mc_keep() -> i32 {
    st().kept.push(inst());
    st().kept.len() as i32 - 1
}
/// Makes a kept instance the current one.
#[no_mangle]
pub extern "C" fn mc_select(k: usize) {
    st().inst = Some(Rc::clone(&st().kept[k]));
}

fn inst() -> Rc<ModuleInst> {
    Rc::clone(st().inst.as_ref().expect("no instance"))
}

fn func_index(inst: &ModuleInst, f: &FuncAddr) -> u32 {
    let g = f.read_lock();
    for (i, a) in inst.func_addrs.iter().enumerate() {
        let h = a.read_lock();
        if std::ptr::eq(&*g as *const FuncInst, &*h as *const FuncInst) {
            return i as u32;
        }
    }
    u32::MAX - 1
}

// value encoding: tag byte + 16 bytes little endian payload (17 bytes)
fn enc(inst: &ModuleInst, v: &Val, out: &mut Vec<u8>) {
    let (t, p): (u8, u128) = match v {
        Val::Num(Num::I32(x)) => (0x7f, *x as u32 as u128),
        Val::Num(Num::I64(x)) => (0x7e, *x as u64 as u128),
        Val::Num(Num::F32(x)) => (0x7d, x.to_bits() as u128),
        Val::Num(Num::F64(x)) => (0x7c, x.to_bits() as u128),
        Val::Vec_(Vec_::V128(x)) => (0x7b, *x as u128),
        Val::Ref(Ref::RefNull) => (0x70, u32::MAX as u128),
        Val::Ref(Ref::FuncAddr(f)) => (0x70, func_index(inst, f) as u128),
        Val::Ref(Ref::RefExtern(_)) => (0x6f, 1),
    };
    out.push(t);
    out.extend_from_slice(&p.to_le_bytes());
}
fn dec(inst: &ModuleInst, b: &[u8]) -> Val {
    let mut p = [0u8; 16];
    p.copy_from_slice(&b[1..17]);
    let p = u128::from_le_bytes(p);
    match b[0] {
        0x7f => Val::Num(Num::I32(p as u32 as i32)),
        0x7e => Val::Num(Num::I64(p as u64 as i64)),
        0x7d => Val::Num(Num::F32(f32::from_bits(p as u32))),
        0x7c => Val::Num(Num::F64(f64::from_bits(p as u64))),
        0x7b => Val::Vec_(Vec_::V128(p as i128)),
        _ => {
            if p as u32 == u32::MAX {
                Val::Ref(Ref::RefNull)
            } else {
                Val::Ref(Ref::FuncAddr(inst.func_addrs[p as usize].clone()))
            }
        }
    }
}

fn finish(r: Result<Vec<Val>, RuntimeError>) -> i32 {
    match r {
        Ok(vs) => {
            let i = inst();
            let mut o = Vec::new();
            for v in &vs {
                enc(&i, v, &mut o);
            }
            st().out = o;
            0
        }
        Err(RuntimeError::CheckpointRequested) => {
            st().out.clear();
            1
        }
        Err(e) => {
            set_out(&format!("{:?}", e));
            2
        }
    }
}

/// flags: 1 enable checkpoint, 2 enable stats, 4 enable trace
/// returns 0 values in out, 1 stopped for checkpoint, 2 runtime error,
/// 3 no such export, 4 runtime construction error.
#[no_mangle]
pub unsafe extern "C" fn mc_call(
    name: *const u8,
    name_len: usize,
    args: *const u8,
    nargs: usize,
    flags: u32,
) -> i32 {
    let i = inst();
    let name = std::str::from_utf8_unchecked(bytes(name, name_len));
    let f = match i.get_export_func(name) {
        Ok(f) => f,
        Err(e) => {
            set_out(&format!("{:?}", e));
            return 3;
        }
    };
    let a = bytes(args, nargs * 17);
    let params: Vec<Val> = (0..nargs).map(|k| dec(&i, &a[k * 17..])).collect();
    match Runtime::new(
        Rc::clone(&i),
        &f,
        params,
        flags & 2 != 0,
        flags & 1 != 0,
        #[cfg(feature = "trace")]
        trace_cfg(flags),
    ) {
        Ok(mut rt) => finish(rt.run()),
        Err(e) => {
            set_out(&format!("{:?}", e));
            4
        }
    }
}

#[cfg(feature = "trace")]
fn trace_cfg(flags: u32) -> Option<chiwawa::execution::trace::TraceConfig> {
    if flags & 4 != 0 {
        // bits 4..: events (none: all), bits 8..: resources (none: all)
        let pick = |names: [&str; 4], bits: u32| -> Vec<String> {
            let l = names.iter().enumerate();
            l.filter(|(i, _)| bits & (1 << i) != 0)
                .map(|(_, n)| n.to_string())
                .collect()
        };
        let ev = pick(["store", "load", "call", "branch"], flags >> 4 & 15);
        let rs = pick(["regs", "locals", "globals", "pc"], flags >> 8 & 15);
        let or = |l: Vec<String>| if l.is_empty() { None } else { Some(l) };
        Some(chiwawa::execution::trace::TraceConfig::new(
            or(ev),
            or(rs),
            None,
        ))
    } else {
        None
    }
}

/// Restores `path` into the current instance and keeps the stacks for
/// `mc_resume`. 0 accepted, 5 rejected (message in out).
#[no_mangle]
pub unsafe extern "C" fn mc_restore(path: *const u8, path_len: usize) -> i32 {
    let i = inst();
    let path = String::from_utf8_lossy(bytes(path, path_len)).into_owned();
    match migration::restore(i, &path) {
        Ok(s) => {
            st().stacks = Some(s);
            0
        }
        Err(e) => {
            set_out(&format!("{:?}", e));
            5
        }
    }
}

/// Resumes the restored stacks; returns as mc_call.
#[no_mangle]
pub unsafe extern "C" fn mc_resume(flags: u32) -> i32 {
    let stacks = st().stacks.take().expect("nothing restored");
    let mut rt = Runtime::new_restored(
        inst(),
        stacks,
        flags & 2 != 0,
        flags & 1 != 0,
        #[cfg(feature = "trace")]
        trace_cfg(flags),
    );
    finish(rt.run())
}

/// Guest memory 0: pointer / length (0,0 when absent).
#[no_mangle]
pub extern "C" fn mc_mem_ptr() -> *const u8 {
    match inst().mem_addrs.first() {
        Some(m) => m.data_ptr(),
        None => std::ptr::null(),
    }
}
#[no_mangle]
pub extern "C" fn mc_mem_len() -> usize {
    match inst().mem_addrs.first() {
        Some(m) => m.data_len(),
        None => 0,
    }
}
/// Encodes all globals to out.
#[no_mangle]
pub extern "C" fn mc_globals() {
    let i = inst();
    let mut o = Vec::new();
    for g in &i.global_addrs {
        enc(&i, &g.get(), &mut o);
    }
    st().out = o;
}
/// Encodes all tables to out: u32 length, then values.
#[no_mangle]
pub extern "C" fn mc_tables() {
    let i = inst();
    let mut o = Vec::new();
    for t in &i.table_addrs {
        let t = t.read_lock();
        o.extend_from_slice(&(t.elem.len() as u32).to_le_bytes());
        for v in &t.elem {
            enc(&i, v, &mut o);
        }
    }
    st().out = o;
}
/// Signature of an export: param tags, 0, result tags in out; 3 when absent.
#[no_mangle]
pub unsafe extern "C" fn mc_sig(name: *const u8, name_len: usize) -> i32 {
    let i = inst();
    let name = std::str::from_utf8_unchecked(bytes(name, name_len));
    match i.get_export_func(name) {
        Ok(f) => {
            let t = f.func_type();
            let tag = |v: &ValueType| match v {
                ValueType::NumType(NumType::I32) => 0x7fu8,
                ValueType::NumType(NumType::I64) => 0x7e,
                ValueType::NumType(NumType::F32) => 0x7d,
                ValueType::NumType(NumType::F64) => 0x7c,
                ValueType::VecType(_) => 0x7b,
                ValueType::RefType(_) => 0x70,
            };
            let mut o: Vec<u8> = t.params.iter().map(tag).collect();
            o.push(0);
            o.extend(t.results.iter().map(tag));
            st().out = o;
            0
        }
        Err(_) => 3,
    }
}
