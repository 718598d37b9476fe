//! symex: bounded symbolic execution of the compiled harness (x86-64 ELF).
mod dis;
mod elf;
mod exec;
mod mem;
mod smt;
mod term;
mod vecops;

use smt::Ans;
use exec::*;
use mem::{Mem, V};
use std::rc::Rc;
use std::time::{Duration, Instant};
use term::*;

fn js(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r += "\\\"",
            '\\' => r += "\\\\",
            '\n' => r += "\\n",
            c if (c as u32) < 32 => r += &format!("\\u{:04x}", c as u32),
            c => r.push(c),
        }
    }
    r.push('"');
    r
}
fn jl(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| js(s)).collect::<Vec<_>>().join(","))
}

#[derive(Clone, Copy, PartialEq)]
enum Hook {
    Finish,
    Same,
    Cut,
    Bytes,
    Param,
    Concrete,
    Assume,
    Check,
    Eq,
    Out,
    Reach,
    Mode,
    Memeq,
    Alloc,
    Free,
    Sbox,
    Panic,
    Memcpy,
    Memset,
    Memcmp,
    Strlen,
    Clock,
    Abort,
    Errno,
    RetZero,
}

fn hooks(img: &elf::Image) -> Map<u64, (Hook, String)> {
    let mut m: Map<u64, (Hook, String)> = Map::default();
    for (n, (a, _)) in img.syms.iter() {
        let h = match n.as_str() {
            "sym_hook_bytes" => Hook::Bytes,
            "sym_hook_param" => Hook::Param,
            "sym_hook_concrete" => Hook::Concrete,
            "sym_hook_assume" => Hook::Assume,
            "sym_hook_check" => Hook::Check,
            "sym_hook_eq" => Hook::Eq,
            "sym_hook_out" => Hook::Out,
            "sym_hook_reach" => Hook::Reach,
            "sym_hook_mode" => Hook::Mode,
            "sym_hook_memeq" => Hook::Memeq,
            "sym_hook_alloc" => Hook::Alloc,
            "sym_hook_free" => Hook::Free,
            "sym_hook_sbox" => Hook::Sbox,
            "sym_hook_finish" => Hook::Finish,
            "sym_hook_same" => Hook::Same,
            "sym_hook_cut" => Hook::Cut,
            "memcpy" | "memmove" => Hook::Memcpy,
            "memset" => Hook::Memset,
            "memcmp" | "bcmp" => Hook::Memcmp,
            _ => {
                let p = (n.contains("4core9panicking") && !n.contains("drop_glue"))
                    || n.contains("13unwrap_failed")
                    || n.contains("13expect_failed")
                    || n.contains("slice_index_fail")
                    || n.contains("slice_error_fail")
                    || n.contains("len_mismatch_fail")
                    || n.contains("18handle_alloc_error")
                    || n.contains("22panic_already_borrowed")
                    || n.contains("26panic_already_mutably_borrowed")
                    || n.contains("capacity_overflow")
                    || n.contains("7___rustc10rust_panic")
                    || n.contains("_3std9panicking");
                if p && !n.contains("panic_count") && !n.contains("3fmt") {
                    Hook::Panic
                } else {
                    continue;
                }
            }
        };
        m.insert(*a, (h, n.clone()));
    }
    for (a, n) in img.imports.iter() {
        let h = match n.as_str() {
            "memcpy" | "memmove" => Hook::Memcpy,
            "memset" => Hook::Memset,
            "memcmp" | "bcmp" => Hook::Memcmp,
            "strlen" => Hook::Strlen,
            "clock_gettime" => Hook::Clock,
            "abort" | "exit" => Hook::Abort,
            "__errno_location" => Hook::Errno,
            "pthread_self" | "gettid" | "getauxval" | "__cxa_thread_atexit_impl" | "pthread_setspecific" => Hook::RetZero,
            _ => continue,
        };
        m.insert(*a, (h, n.clone()));
    }
    m
}

fn arg(e: &mut Eng, st: &mut St, r: usize, w: u32) -> Result<u64, Stop> {
    let v = st.r[r].ext(0, w as usize);
    let x = e.conc(st, &v, w)?;
    if w == 64 {
        st.r[r] = V::C(x);
    }
    Ok(x)
}
const DI: usize = 7;
const SI: usize = 6;
const DX: usize = 2;
const CX: usize = 1;

fn hook(e: &mut Eng, st: &mut St, h: Hook, name: &str) -> Result<(), Stop> {
    match h {
        Hook::Bytes => {
            let (p, n) = (arg(e, st, DI, 64)?, arg(e, st, SI, 64)?);
            let tag = arg(e, st, DX, 32)? as u32;
            let mut bits = vec![];
            for i in 0..n {
                let mut b = [F; 8];
                for k in b.iter_mut() {
                    *k = e.t.var();
                }
                e.store(st, p + i, 1, &V::mk(b.to_vec()))?;
                bits.push(b);
            }
            st.inputs.push(Input { tag, bits });
        }
        Hook::Param => {
            let i = arg(e, st, DI, 64)? as usize;
            st.r[0] = V::C(e.o.params.get(i).copied().unwrap_or(0));
        }
        Hook::Concrete => {
            let v = arg(e, st, DI, 64)?;
            st.r[0] = V::C(v);
        }
        Hook::Assume => {
            let v = st.r[DI].ext(0, 32);
            let c = e.is_zero(32, &v) ^ 1;
            let c = e.subst(st, c);
            if c == F {
                return Err(Stop::Infeasible);
            }
            if c != T {
                if !e.ev(st, c) {
                    match e.sat(st, c) {
                        smt::Ans::Sat(vals) => e.new_model(st, &vals),
                        smt::Ans::Unsat => return Err(Stop::Infeasible),
                        smt::Ans::Unknown => {
                            e.incomplete.push("assumption feasibility unknown".into());
                            return Err(Stop::Infeasible);
                        }
                    }
                }
                e.assert_lit(st, c);
            }
        }
        Hook::Check => {
            let id = arg(e, st, SI, 32)? as u32;
            let v = st.r[DI].ext(0, 32);
            let c = e.is_zero(32, &v) ^ 1;
            e.obligation(st, c, id, "assertion fails")?;
        }
        Hook::Eq => {
            let (a, b, n) = (arg(e, st, DI, 64)?, arg(e, st, SI, 64)?, arg(e, st, DX, 64)?);
            let id = arg(e, st, CX, 32)? as u32;
            let mut x = vec![];
            let mut y = vec![];
            for i in 0..n {
                x.extend(e.load(st, a + i, 1)?.bits(8));
                y.extend(e.load(st, b + i, 1)?.bits(8));
            }
            if x == y {
                e.obligations += 1;
                e.ob_syntactic += 1;
            } else {
                if std::env::var("SYMEX_DUPS").map_or(false, |v| v == "1") {
                    e.t.debug_dups(6);
                    std::process::exit(9);
                }
                // a simulation pattern may already tell them apart
                let differ = x.iter().zip(&y).any(|(a, b)| e.t.sigof(*a) != e.t.sigof(*b));
                if !differ && e.pairs_congruent(&x, &y) {
                    e.obligations += 1;
                    e.ob_solver += 1;
                    return Ok(());
                }
                if !differ && !e.smt.cuts.is_empty() {
                    let q = e.t.eqv(&x, &y);
                    let z3 = e.smt.z3.clone();
                    if let Ans::Unsat = e.smt.check_with(&e.t, &[q ^ 1], 10, &z3, true) {
                        e.obligations += 1;
                        e.ob_solver += 1;
                        return Ok(());
                    }
                }
                if !differ {
                    let mut all = x.clone();
                    all.extend(&y);
                    let r = e.sweep(&all, 20);
                    let (p, q) = r.split_at(x.len());
                    (x, y) = (p.to_vec(), q.to_vec());
                }
                for c in 0..(n as usize).div_ceil(8) {
                    let r = c * 64..(c * 64 + 64).min(x.len());
                    let q = e.t.eqv(&x[r.clone()], &y[r]);
                    e.obligation(st, q, id, "values differ")?;
                }
            }
        }
        Hook::Out => {
            let (a, n) = (arg(e, st, DI, 64)?, arg(e, st, SI, 64)?);
            let mut v = vec![];
            for i in 0..n {
                v.push(e.load(st, a + i, 1)?);
            }
            st.outs.push(v);
        }
        Hook::Same => {
            let (a, b, n) = (arg(e, st, DI, 64)?, arg(e, st, SI, 64)?, arg(e, st, DX, 64)?);
            let mut same = true;
            for i in 0..n {
                let (x, y) = (e.load(st, a + i, 1)?, e.load(st, b + i, 1)?);
                same &= match (&x, &y) {
                    (V::C(p), V::C(q)) => p == q,
                    (V::S(p), V::S(q)) => p == q,
                    _ => false,
                };
            }
            st.r[0] = V::C(same as u64);
        }
        Hook::Cut => {
            let (p, n) = (arg(e, st, DI, 64)?, arg(e, st, SI, 64)?);
            for i in 0..n {
                if let V::S(b) = e.load(st, p + i, 1)? {
                    for n in b.iter().filter(|b| **b > 1).map(|b| b >> 1) {
                        e.smt.cuts.insert(n);
                        // sums may be taken apart later: cut their operands as well
                        if let BN::Atom(w, _) = e.t.bits[n as usize] {
                            for id in e.t.word_children(w) {
                                let v: Vec<u32> = e.t.bvs[id as usize].iter().filter(|b| **b > 1).map(|b| b >> 1).collect();
                                e.smt.cuts.extend(v);
                            }
                        }
                    }
                }
            }
        }
        Hook::Finish => return Err(Stop::Done),
        Hook::Reach => {
            let id = arg(e, st, DI, 32)? as u32;
            *e.reached.entry(id).or_insert(0) += 1;
        }
        Hook::Mode => {
            let (id, v) = (arg(e, st, DI, 32)?, arg(e, st, SI, 64)?);
            match id {
                1 => st.ct = v != 0,
                2 => st.panic_ok = v != 0,
                _ => {}
            }
        }
        Hook::Memeq | Hook::Memcmp => {
            let (a, b, n) = (arg(e, st, DI, 64)?, arg(e, st, SI, 64)?, arg(e, st, DX, 64)?);
            let mut x = vec![];
            let mut y = vec![];
            for i in 0..n {
                x.push(e.load(st, a + i, 1)?);
                y.push(e.load(st, b + i, 1)?);
            }
            if h == Hook::Memcmp && name == "memcmp" {
                let mut res = V::C(0);
                for i in (0..n as usize).rev() {
                    let q = e.eqv(8, &x[i], &y[i]);
                    if q == T {
                        continue;
                    }
                    let d = e.sub(32, &x[i], &y[i]);
                    res = e.mux(32, q, &res, &d);
                }
                st.r[0] = V::mk(res.bits(64));
            } else {
                let xb: Vec<Bit> = x.iter().flat_map(|v| v.bits(8)).collect();
                let yb: Vec<Bit> = y.iter().flat_map(|v| v.bits(8)).collect();
                let q = e.t.eqv(&xb, &yb);
                let mut r = vec![F; 64];
                r[0] = if h == Hook::Memeq { q } else { q ^ 1 };
                st.r[0] = V::mk(r);
            }
        }
        Hook::Alloc => {
            let (n, al) = (arg(e, st, DI, 64)?, arg(e, st, SI, 64)?.max(16));
            if n > 1 << 32 {
                return Err(Stop::Event("fault", format!("allocation of {} bytes", n)));
            }
            let p = (st.heap_next + al - 1) / al * al;
            st.heap_next = p + n + 64;
            Rc::make_mut(&mut st.heap).push((p, n, true));
            // fresh memory holds arbitrary data: a recognisable pattern
            for i in 0..n {
                st.mem.store(p + i, 1, &V::C(0xa5));
            }
            st.r[0] = V::C(p);
        }
        Hook::Free => {
            let p = arg(e, st, DI, 64)?;
            let h = Rc::make_mut(&mut st.heap);
            let i = h.partition_point(|x| x.0 < p);
            if i < h.len() && h[i].0 == p && h[i].2 {
                h[i].2 = false;
            } else {
                return Err(Stop::Event("fault", "invalid free".into()));
            }
        }
        Hook::Sbox => {
            let v = st.r[DI].ext(0, 8).bits(8);
            let r = e.t.sbox(&v);
            let mut b = r;
            b.resize(64, F);
            st.r[0] = V::mk(b);
        }
        Hook::Panic => {
            let mut msg = String::new();
            if name.ends_with("9panicking5panic") || name.ends_with("13expect_failed") {
                if let (Some(p), Some(n)) = (st.r[DI].c(), st.r[SI].c()) {
                    for i in 0..n.min(200) {
                        if let V::C(c) = st.mem.byte(p + i) {
                            msg.push(c as u8 as char);
                        }
                    }
                }
            }
            return Err(Stop::Event("panic", format!("{} {}", name, msg)));
        }
        Hook::Memcpy => {
            let (d, s, n) = (arg(e, st, DI, 64)?, arg(e, st, SI, 64)?, arg(e, st, DX, 64)?);
            if n > 0 {
                e.check_addr(st, d, n, true)?;
                e.check_addr(st, s, n, false)?;
                let mut v = vec![];
                let mut i = 0;
                while i < n {
                    let k = (n - i).min(8);
                    v.push((i, k, st.mem.load(s + i, k as usize)));
                    i += k;
                }
                for (i, k, x) in v {
                    st.mem.store(d + i, k as usize, &x);
                }
            }
            st.r[0] = V::C(d);
        }
        Hook::Memset => {
            let (d, n) = (arg(e, st, DI, 64)?, arg(e, st, DX, 64)?);
            let v = st.r[SI].ext(0, 8);
            if n > 0 {
                e.check_addr(st, d, n, true)?;
                for i in 0..n {
                    st.mem.store(d + i, 1, &v);
                }
            }
            st.r[0] = V::C(d);
        }
        Hook::Strlen => {
            let p = arg(e, st, DI, 64)?;
            let mut n = 0;
            while e.load(st, p + n, 1)?.c() != Some(0) {
                n += 1;
                if n > 4096 {
                    return Err(Stop::Err("strlen".into()));
                }
            }
            st.r[0] = V::C(n);
        }
        Hook::Clock => {
            let p = arg(e, st, SI, 64)?;
            st.clock += 1;
            let c = st.clock;
            e.store(st, p, 8, &V::C(1_700_000_000 + c))?;
            e.store(st, p + 8, 8, &V::C(0))?;
            st.r[0] = V::C(0);
        }
        Hook::Abort => return Err(Stop::Event("panic", format!("{} called", name))),
        Hook::Errno => st.r[0] = V::C(TLS + 0x1f000),
        Hook::RetZero => st.r[0] = V::C(0),
    }
    Ok(())
}

fn run(args: Vec<String>) -> i32 {
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let bin = args[1].clone();
    let entry = args[2].clone();
    let params: Vec<u64> = get("-p").map(|s| s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()).unwrap_or_default();
    let secs: u64 = get("-t").map(|s| s.parse().unwrap()).unwrap_or(600);
    let outdir = get("-o").unwrap_or_else(|| "/tmp".into());
    let name = get("-n").unwrap_or_else(|| entry.clone());
    let start = Instant::now();
    let o = Opts {
        params,
        max_steps: get("--steps").map(|s| s.parse().unwrap()).unwrap_or(2_000_000_000),
        max_paths: get("--paths").map(|s| s.parse().unwrap()).unwrap_or(200_000),
        deadline: start + Duration::from_secs(secs),
        q_timeout_ms: get("--qt").map(|s| s.parse().unwrap()).unwrap_or(10_000),
        ob_timeout_s: get("--ot").map(|s| s.parse().unwrap()).unwrap_or(120),
        nofeat: get("--nofeat").map(|s| s.split(',').map(|x| x.to_string()).collect()).unwrap_or_default(),
        max_values: get("--values").map(|s| s.parse().unwrap()).unwrap_or(300),
        witnesses: get("-w").map(|s| s.parse().unwrap()).unwrap_or(2),
        trace: args.iter().any(|a| a == "--trace"),
        allow_panic: args.iter().any(|a| a == "--allow-panic"),
    };
    let img = elf::load(&bin);
    let code = dis::disassemble(&bin);
    let hk = hooks(&img);
    let Some(&(epc, _)) = img.syms.get(&entry) else {
        println!("{{\"errors\":[\"no such entry {}\"]}}", entry);
        return 2;
    };
    // ---- initial state
    let mut mem = Mem::new();
    for s in &img.segs {
        mem.init(s.addr, &s.data);
    }
    let fsb = TLS + 0x10000;
    let (ti, tsz, tal) = (&img.tls.0, img.tls.1, img.tls.2);
    let tstart = fsb - (tsz + tal - 1) / tal * tal;
    mem.init(tstart, ti);
    mem.init(fsb, &fsb.to_le_bytes());
    mem.init(fsb + 0x28, &0x1122_3344_5566_7700u64.to_le_bytes());
    let sp = STACK_TOP - 0x10000 - 8;
    mem.init(sp, &RET_MAGIC.to_le_bytes());
    let zero = V::C(0);
    let mut st = St {
        pc: epc,
        r: std::array::from_fn(|_| zero.clone()),
        x: vec![std::array::from_fn(|_| V::C(0)); 32],
        k: std::array::from_fn(|_| V::C(0)),
        f: Flags { kind: FK::Logic, w: 64, a: V::C(0), b: V::C(0), cin: F, res: V::C(1), cf: None, of: None, zf: None, sf: None, pf: None },
        df: false,
        mem,
        cond: vec![],
        known: Map::default(),
        model: Rc::new(Model { vars: vec![] }),
        model_id: 1,
        inputs: vec![],
        outs: vec![],
        heap: Rc::new(vec![]),
        heap_next: HEAP + 64,
        steps: 0,
        forks: Map::default(),
        ct: false,
        panic_ok: false,
        callstack: vec![],
        clock: 0,
    };
    st.r[4] = V::C(sp);
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut e = Eng {
        t: Terms::new(seed),
        smt: smt::Smt::new(),
        img,
        code,
        icache: Map::default(),
        work: vec![],
        eval: Eval::new(),
        eval_owner: 0,
        next_model: 1,
        o,
        violations: vec![],
        errors: vec![],
        incomplete: vec![],
        paths: 0,
        infeasible: 0,
        guessed: 0,
        total_steps: 0,
        branches: 0,
        forked: 0,
        obligations: 0,
        ob_syntactic: 0,
        ob_solver: 0,
        ob_unknown: 0,
        reached: Map::default(),
        funcs: Map::default(),
        path_kinds: Map::default(),
        ct_checks: 0,
        sweep_merges: 0,
    };
    e.t.anf = args.iter().any(|a| a == "--anf");
    let mut witnesses: Vec<String> = vec![];
    e.work.push(st);
    'outer: while let Some(mut st) = e.work.pop() {
        if e.paths >= e.o.max_paths {
            e.incomplete.push(format!("path limit {} reached", e.o.max_paths));
            break;
        }
        let stop = loop {
            let pc = st.pc;
            if pc == RET_MAGIC {
                break Stop::Done;
            }
            if let Some((h, n)) = hk.get(&pc) {
                if e.o.trace {
                    eprintln!("hook {}", n);
                }
                let r = hook(&mut e, &mut st, *h, n);
                match r {
                    Ok(()) => match e.pop(&mut st) {
                        Ok(V::C(a)) => {
                            st.callstack.pop();
                            st.pc = a;
                            continue;
                        }
                        Ok(_) => break Stop::Err("symbolic return".into()),
                        Err(s) => break s,
                    },
                    Err(s) => break s,
                }
            }
            let insn = match e.icache.get(&pc) {
                Some(i) => i.clone(),
                None => {
                    if let Some(n) = e.img.imports.get(&pc) {
                        break Stop::Err(format!("call of external function {}", n));
                    }
                    match dis::decode(&e.code, pc) {
                        Ok(i) => {
                            let i = Rc::new(i);
                            e.icache.insert(pc, i.clone());
                            i
                        }
                        Err(s) => break Stop::Err(format!("{:x}: {}", pc, s)),
                    }
                }
            };
            if e.o.trace {
                eprintln!("{:x} {}", pc, insn.text);
            }
            st.steps += 1;
            e.total_steps += 1;
            if e.total_steps & 0xfff == 0 {
                if Instant::now() > e.o.deadline {
                    e.incomplete.push(format!("time limit reached in {}", e.backtrace(&st)));
                    break 'outer;
                }
                if e.total_steps > e.o.max_steps {
                    e.incomplete.push("step limit reached".into());
                    break 'outer;
                }
            }
            match (insn.h)(&mut e, &mut st, &insn) {
                Ok(Flow::Next) => st.pc = insn.next,
                Ok(Flow::Jump(t)) => {
                    st.pc = t;
                    if st.callstack.last() == Some(&pc) {
                        *e.funcs.entry(t).or_insert(0) += 1;
                    }
                }
                Err(s) => break match s {
                    Stop::Err(m) => Stop::Err(format!("{:x}: {}: {}", pc, insn.text, m)),
                    s => s,
                },
            }
        };
        match stop {
            Stop::Done => {
                e.paths += 1;
                *e.path_kinds.entry("done".into()).or_insert(0) += 1;
                if witnesses.len() < e.o.witnesses {
                    // inputs the path does not constrain get pseudo-random values
                    let used: term::Set<u32> = smt::support(&e.t, &st.cond).iter().map(|x| x.0).collect();
                    let mut vals = vec![];
                    let mut x = 0x9e37_79b9_7f4a_7c15u64 ^ seed;
                    for i in &st.inputs {
                        for b in i.bits.iter().flatten() {
                            if let term::BN::Var(v) = e.t.bits[(*b >> 1) as usize] {
                                x ^= x << 13;
                                x ^= x >> 7;
                                x ^= x << 17;
                                if !used.contains(&v) {
                                    vals.push((v, x >> 40 & 1 == 1));
                                }
                            }
                        }
                    }
                    let s = e.replay_text(&st, Some(&vals), true);
                    let f = format!("{}/{}.w{}", outdir, name, witnesses.len());
                    let _ = std::fs::write(&f, s);
                    witnesses.push(f);
                }
            }
            Stop::Infeasible => {
                e.infeasible += 1;
            }
            Stop::Event(k, m) => {
                e.paths += 1;
                *e.path_kinds.entry(k.into()).or_insert(0) += 1;
                let ok = k == "panic" && (e.o.allow_panic || st.panic_ok);
                if !ok {
                    let id = (st.callstack.last().copied().unwrap_or(0) & 0xffff_ffff) as u32;
                    e.violation(&st, k, id, m, None);
                }
            }
            Stop::Err(m) => {
                e.paths += 1;
                let bt = e.backtrace(&st);
                let s = format!("{} [{}]", m, bt);
                if e.errors.len() < 10 && !e.errors.contains(&s) {
                    e.errors.push(s);
                }
            }
        }
        if e.violations.len() >= 8 {
            e.incomplete.push("stopped after 8 violations".into());
            break;
        }
        if Instant::now() > e.o.deadline {
            if !e.work.is_empty() {
                e.incomplete.push("time limit reached".into());
            }
            break;
        }
    }
    // ---- report
    let mut viol = vec![];
    for (i, v) in e.violations.iter().enumerate() {
        let f = format!("{}/{}.v{}", outdir, name, i);
        let _ = std::fs::write(&f, &v.replay);
        viol.push(format!(
            "{{\"kind\":{},\"id\":{},\"msg\":{},\"func\":{},\"replay\":{}}}",
            js(&v.kind),
            v.id,
            js(&v.msg),
            js(&v.func),
            js(&f)
        ));
    }
    let mut fl: Vec<(u64, String)> = e.funcs.iter().filter_map(|(a, n)| e.img.sym_at(*a).map(|s| (*n, s.to_string()))).collect();
    fl.sort();
    fl.reverse();
    let fl: Vec<String> = fl.into_iter().map(|x| x.1).filter(|s| s.contains("graviola")).collect();
    let mut inc = e.incomplete.clone();
    inc.dedup();
    inc.truncate(10);
    let mut rc: Vec<(u32, u64)> = e.reached.iter().map(|(a, b)| (*a, *b)).collect();
    rc.sort();
    let mut pk: Vec<(String, u64)> = e.path_kinds.iter().map(|(a, b)| (a.clone(), *b)).collect();
    pk.sort();
    let s = &e.smt.stats;
    println!(
        "{{\"entry\":{},\"params\":{:?},\"paths\":{},\"infeasible\":{},\"path_kinds\":{{{}}},\"steps\":{},\"branches\":{},\"forks\":{},\"obligations\":{},\"syntactic\":{},\"solver_proved\":{},\"unknown\":{},\"merges\":{},\"lin\":[{},{}],\"guessed\":{},\"queries\":{},\"solver_s\":{:.3},\"sat\":{},\"unsat\":{},\"wall_s\":{:.3},\"terms\":{},\"reached\":{{{}}},\"violations\":[{}],\"incomplete\":{},\"errors\":{},\"witnesses\":{},\"functions\":{}}}",
        js(&entry),
        e.o.params,
        e.paths,
        e.infeasible,
        pk.iter().map(|(a, b)| format!("{}:{}", js(a), b)).collect::<Vec<_>>().join(","),
        e.total_steps,
        e.branches,
        e.forked,
        e.obligations,
        e.ob_syntactic,
        e.ob_solver,
        e.ob_unknown,
        e.sweep_merges,
        e.t.lin_merges,
        e.t.lin_fails,
        e.guessed,
        s.queries,
        s.secs,
        s.sat,
        s.unsat,
        start.elapsed().as_secs_f64(),
        e.t.bits.len(),
        rc.iter().map(|(a, b)| format!("\"{}\":{}", a, b)).collect::<Vec<_>>().join(","),
        viol.join(","),
        jl(&inc),
        jl(&e.errors),
        jl(&witnesses),
        jl(&fl),
    );
    e.smt.stop_all();
    // skip the destructors of a very large graph
    use std::io::Write;
    let _ = std::io::stdout().flush();
    std::process::exit(0)
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let h = std::thread::Builder::new().stack_size(4 << 30).spawn(move || run(args)).unwrap();
    std::process::exit(h.join().unwrap_or(2));
}
