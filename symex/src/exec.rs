//! Symbolic execution of x86-64 machine code: state, control flow, integer instructions.
use crate::dis::{Code, Insn, Mem as MOp, Op};
use crate::elf::Image;
use crate::mem::{Mem, V};
use crate::smt::{Ans, Smt};
use crate::term::*;
use std::rc::Rc;
use std::time::Instant;

pub enum Flow {
    Next,
    Jump(u64),
}
pub enum Stop {
    /// path finished normally
    Done,
    /// path not feasible under its assumptions
    Infeasible,
    /// terminal event that is reported (panic, fault)
    Event(&'static str, String),
    /// the engine cannot continue
    Err(String),
}
pub type Res = Result<Flow, Stop>;
pub type Handler = fn(&mut Eng, &mut St, &Insn) -> Res;

#[derive(Clone, Copy, PartialEq)]
pub enum FK {
    Add,
    Sub,
    Logic,
    Explicit,
}

#[derive(Clone)]
pub struct Flags {
    pub kind: FK,
    pub w: u32,
    pub a: V,
    pub b: V,
    pub cin: Bit,
    pub res: V,
    pub cf: Option<Bit>,
    pub of: Option<Bit>,
    pub zf: Option<Bit>,
    pub sf: Option<Bit>,
    pub pf: Option<Bit>,
}

#[derive(Clone)]
pub struct Input {
    pub tag: u32,
    pub bits: Vec<[Bit; 8]>,
}

#[derive(Clone)]
pub struct St {
    pub pc: u64,
    pub r: [V; 16],
    pub x: Vec<[V; 8]>,
    pub k: [V; 8],
    pub f: Flags,
    pub df: bool,
    pub mem: Mem,
    pub cond: Vec<Bit>,
    pub known: Map<u32, bool>,
    pub model: Rc<Model>,
    pub model_id: u64,
    pub inputs: Vec<Input>,
    pub outs: Vec<Vec<V>>,
    pub heap: Rc<Vec<(u64, u64, bool)>>, // start, len, live
    pub heap_next: u64,
    pub steps: u64,
    pub forks: Map<u64, u32>,
    pub ct: bool,
    pub callstack: Vec<u64>,
    pub clock: u64,
    pub panic_ok: bool,
}

pub struct Violation {
    pub kind: String,
    pub id: u32,
    pub msg: String,
    pub replay: String,
    pub func: String,
}

pub struct Opts {
    pub params: Vec<u64>,
    pub max_steps: u64,
    pub max_paths: u64,
    pub deadline: Instant,
    pub q_timeout_ms: u64,
    pub ob_timeout_s: u64,
    pub nofeat: Vec<String>,
    pub max_values: u32,
    pub witnesses: usize,
    pub trace: bool,
    pub allow_panic: bool,
}

pub struct Eng {
    pub t: Terms,
    pub smt: Smt,
    pub img: Image,
    pub code: Code,
    pub icache: Map<u64, Rc<Insn>>,

    pub work: Vec<St>,
    pub eval: Eval,
    pub eval_owner: u64,
    pub next_model: u64,
    pub o: Opts,
    pub violations: Vec<Violation>,
    pub errors: Vec<String>,
    pub incomplete: Vec<String>,
    pub paths: u64,
    pub infeasible: u64,
    /// satisfiable branch conditions found without the solver
    pub guessed: u64,
    pub total_steps: u64,
    pub branches: u64,
    pub forked: u64,
    pub obligations: u64,
    pub ob_syntactic: u64,
    pub ob_solver: u64,
    pub ob_unknown: u64,
    pub reached: Map<u32, u64>,
    pub funcs: Map<u64, u64>,

    pub path_kinds: Map<String, u64>,
    pub ct_checks: u64,
    pub sweep_merges: u64,
}

pub const RET_MAGIC: u64 = 0x7777_7777_0000;
pub const HEAP: u64 = 0x1000_0000_0000;
pub const STACK_TOP: u64 = 0x7ffe_0000_0000;
pub const STACK_SIZE: u64 = 16 << 20;
pub const TLS: u64 = 0x7100_0000_0000;

fn m64(w: u32) -> u64 {
    if w >= 64 { !0 } else { (1u64 << w) - 1 }
}
fn sx(v: u64, w: u32) -> i64 {
    ((v << (64 - w)) as i64) >> (64 - w)
}

impl Eng {
    // ------------------------------------------------ values
    pub fn add(&mut self, w: u32, a: &V, b: &V) -> V {
        match (a, b) {
            (V::C(x), V::C(y)) => V::C(x.wrapping_add(*y) & m64(w)),
            (V::C(0), _) => b.ext(0, w as usize),
            (_, V::C(0)) => a.ext(0, w as usize),
            _ => {
                let (p, q) = (a.bits(w as usize), b.bits(w as usize));
                V::mk(self.t.poly(w, 0, &[(1, &p), (1, &q)]))
            }
        }
    }
    pub fn sub(&mut self, w: u32, a: &V, b: &V) -> V {
        match (a, b) {
            (V::C(x), V::C(y)) => V::C(x.wrapping_sub(*y) & m64(w)),
            (_, V::C(0)) => a.ext(0, w as usize),
            _ => {
                let (p, q) = (a.bits(w as usize), b.bits(w as usize));
                V::mk(self.t.poly(w, 0, &[(1, &p), (u128::MAX, &q)]))
            }
        }
    }
    pub fn xor(&mut self, w: u32, a: &V, b: &V) -> V {
        match (a, b) {
            (V::C(x), V::C(y)) => V::C((x ^ y) & m64(w)),
            _ => {
                let (p, q) = (a.bits(w as usize), b.bits(w as usize));
                V::mk((0..w as usize).map(|i| self.t.xor(p[i], q[i])).collect())
            }
        }
    }
    pub fn and(&mut self, w: u32, a: &V, b: &V) -> V {
        match (a, b) {
            (V::C(x), V::C(y)) => V::C(x & y & m64(w)),
            _ => {
                let (p, q) = (a.bits(w as usize), b.bits(w as usize));
                V::mk((0..w as usize).map(|i| self.t.and(p[i], q[i])).collect())
            }
        }
    }
    pub fn or(&mut self, w: u32, a: &V, b: &V) -> V {
        match (a, b) {
            (V::C(x), V::C(y)) => V::C((x | y) & m64(w)),
            _ => {
                let (p, q) = (a.bits(w as usize), b.bits(w as usize));
                V::mk((0..w as usize).map(|i| self.t.or(p[i], q[i])).collect())
            }
        }
    }
    pub fn not(&mut self, w: u32, a: &V) -> V {
        match a {
            V::C(x) => V::C(!x & m64(w)),
            _ => V::mk(a.bits(w as usize).iter().map(|b| b ^ 1).collect()),
        }
    }
    pub fn mux(&mut self, w: u32, c: Bit, a: &V, b: &V) -> V {
        if c == T {
            return a.ext(0, w as usize);
        }
        if c == F {
            return b.ext(0, w as usize);
        }
        let (p, q) = (a.bits(w as usize), b.bits(w as usize));
        V::mk((0..w as usize).map(|i| self.t.mux(c, p[i], q[i])).collect())
    }
    /// full product of zero-extended operands, 2w bits as (lo, hi)
    pub fn mul_wide(&mut self, w: u32, a: &V, b: &V, signed: bool) -> (V, V) {
        if let (V::C(x), V::C(y)) = (a, b) {
            let p = if signed {
                (sx(*x, w) as i128).wrapping_mul(sx(*y, w) as i128) as u128
            } else {
                (*x as u128) * (*y as u128)
            };
            return (V::C(p as u64 & m64(w)), V::C((p >> w) as u64 & m64(w)));
        }
        let n = w as usize;
        let (mut p, mut q) = (a.bits(n), b.bits(n));
        if signed {
            let (s, t) = (p[n - 1], q[n - 1]);
            p.resize(2 * n, s);
            q.resize(2 * n, t);
        } else {
            p.resize(2 * n, F);
            q.resize(2 * n, F);
        }
        let r = self.t.mul(2 * w, &p, &q);
        (V::mk(r[..n].to_vec()), V::mk(r[n..].to_vec()))
    }
    pub fn sext(&self, a: &V, from: u32, to: u32) -> V {
        match a {
            V::C(x) => V::C(sx(*x, from) as u64 & m64(to)),
            V::S(_) => {
                let mut v = a.bits(from as usize);
                let s = v[from as usize - 1];
                v.resize(to as usize, s);
                V::mk(v)
            }
        }
    }
    pub fn shl_c(&self, w: u32, a: &V, n: u32) -> V {
        if n >= w {
            return V::C(0);
        }
        match a {
            V::C(x) => V::C((x << n) & m64(w)),
            V::S(_) => {
                let v = a.bits(w as usize);
                let mut r = vec![F; n as usize];
                r.extend_from_slice(&v[..(w - n) as usize]);
                V::mk(r)
            }
        }
    }
    pub fn shr_c(&self, w: u32, a: &V, n: u32) -> V {
        if n >= w {
            return V::C(0);
        }
        match a {
            V::C(x) => V::C((x & m64(w)) >> n),
            V::S(_) => {
                let mut v = a.bits(w as usize)[n as usize..].to_vec();
                v.resize(w as usize, F);
                V::mk(v)
            }
        }
    }
    pub fn sar_c(&self, w: u32, a: &V, n: u32) -> V {
        let n = n.min(w - 1);
        match a {
            V::C(x) => V::C((sx(*x, w) >> n) as u64 & m64(w)),
            V::S(_) => {
                let v = a.bits(w as usize);
                let s = v[w as usize - 1];
                let mut r = v[n as usize..].to_vec();
                r.resize(w as usize, s);
                V::mk(r)
            }
        }
    }
    pub fn rol_c(&self, w: u32, a: &V, n: u32) -> V {
        let n = n % w;
        if n == 0 {
            return a.ext(0, w as usize);
        }
        match a {
            V::C(x) => {
                let x = x & m64(w);
                V::C(((x << n) | (x >> (w - n))) & m64(w))
            }
            V::S(_) => {
                let v = a.bits(w as usize);
                V::mk((0..w as usize).map(|i| v[(i + w as usize - n as usize) % w as usize]).collect())
            }
        }
    }
    pub fn is_zero(&mut self, w: u32, a: &V) -> Bit {
        match a {
            V::C(x) => (x & m64(w) == 0) as Bit,
            V::S(_) => {
                let v = a.bits(w as usize);
                self.t.or_many(&v) ^ 1
            }
        }
    }
    pub fn eqv(&mut self, w: u32, a: &V, b: &V) -> Bit {
        match (a, b) {
            (V::C(x), V::C(y)) => (x & m64(w) == y & m64(w)) as Bit,
            _ => {
                let (p, q) = (a.bits(w as usize), b.bits(w as usize));
                self.t.eqv(&p, &q)
            }
        }
    }
    pub fn ult(&mut self, w: u32, a: &V, b: &V) -> Bit {
        match (a, b) {
            (V::C(x), V::C(y)) => (x & m64(w) < y & m64(w)) as Bit,
            _ => {
                let (p, q) = (a.bits(w as usize), b.bits(w as usize));
                self.t.ult(&p, &q)
            }
        }
    }
    pub fn slt(&mut self, w: u32, a: &V, b: &V) -> Bit {
        match (a, b) {
            (V::C(x), V::C(y)) => (sx(*x, w) < sx(*y, w)) as Bit,
            _ => {
                let (mut p, mut q) = (a.bits(w as usize), b.bits(w as usize));
                let n = w as usize - 1;
                p[n] ^= 1;
                q[n] ^= 1;
                self.t.ult(&p, &q)
            }
        }
    }

    // ------------------------------------------------ flags
    fn set_flags(&self, st: &mut St, kind: FK, w: u32, a: V, b: V, cin: Bit, res: V) {
        st.f = Flags { kind, w, a, b, cin, res, cf: None, of: None, zf: None, sf: None, pf: None };
    }
    pub fn cf(&mut self, st: &mut St) -> Bit {
        if let Some(b) = st.f.cf {
            return b;
        }
        let w = st.f.w;
        let (a, b, cin) = (st.f.a.clone(), st.f.b.clone(), st.f.cin);
        let r = match st.f.kind {
            FK::Logic => F,
            FK::Explicit => F,
            FK::Add => match (&a, &b, cin) {
                (V::C(x), V::C(y), 0 | 1) => {
                    (((*x as u128 & m64(w) as u128) + (*y as u128 & m64(w) as u128) + cin as u128) >> w) as Bit & 1
                }
                _ => {
                    let (p, q) = (a.bits(w as usize), b.bits(w as usize));
                    self.t.poly(w + 1, 0, &[(1, &p), (1, &q), (1, &[cin])])[w as usize]
                }
            },
            FK::Sub => match (&a, &b, cin) {
                (V::C(x), V::C(y), 0 | 1) => {
                    ((*x as u128 & m64(w) as u128) < (*y as u128 & m64(w) as u128) + cin as u128) as Bit
                }
                (_, _, 0) => self.ult(w, &a, &b),
                _ => {
                    // borrow out of a - b - c : carry of a + ~b + ~c is its complement
                    let (p, q) = (a.bits(w as usize), b.bits(w as usize));
                    let nq: Vec<Bit> = q.iter().map(|b| b ^ 1).collect();
                    self.t.poly(w + 1, 0, &[(1, &p), (1, &nq), (1, &[cin ^ 1])])[w as usize] ^ 1
                }
            },
        };
        st.f.cf = Some(r);
        r
    }
    pub fn of(&mut self, st: &mut St) -> Bit {
        if let Some(b) = st.f.of {
            return b;
        }
        let w = st.f.w as usize;
        let r = match st.f.kind {
            FK::Logic | FK::Explicit => F,
            FK::Add | FK::Sub => {
                let g = |v: &V| match v {
                    V::C(c) => ((c >> (w - 1)) & 1) as Bit,
                    V::S(b) => b[w - 1],
                };
                let (a, b, r) = (g(&st.f.a), g(&st.f.b), g(&st.f.res));
                let b = if st.f.kind == FK::Sub { b ^ 1 } else { b };
                // a == b && r != a
                let x = self.t.xor(a, b) ^ 1;
                let y = self.t.xor(r, a);
                self.t.and(x, y)
            }
        };
        st.f.of = Some(r);
        r
    }
    pub fn zf(&mut self, st: &mut St) -> Bit {
        if let Some(b) = st.f.zf {
            return b;
        }
        let w = st.f.w;
        let r = if st.f.kind == FK::Sub && st.f.cin == F && !(st.f.a.is_c() && st.f.b.is_c()) {
            let (a, b) = (st.f.a.clone(), st.f.b.clone());
            self.eqv(w, &a, &b)
        } else if st.f.kind == FK::Explicit {
            F
        } else {
            let v = st.f.res.clone();
            self.is_zero(w, &v)
        };
        st.f.zf = Some(r);
        r
    }
    pub fn sf(&mut self, st: &mut St) -> Bit {
        if let Some(b) = st.f.sf {
            return b;
        }
        let w = st.f.w as usize;
        let r = match &st.f.res {
            V::C(c) => ((c >> (w - 1)) & 1) as Bit,
            V::S(b) => b[w - 1],
        };
        st.f.sf = Some(r);
        r
    }
    pub fn pf(&mut self, st: &mut St) -> Bit {
        if let Some(b) = st.f.pf {
            return b;
        }
        let v = st.f.res.bits(8);
        let r = self.t.xor_many(&v) ^ 1;
        st.f.pf = Some(r);
        r
    }
    pub fn cc(&mut self, st: &mut St, cc: u32) -> Bit {
        let neg = cc & 1;
        let lazy_sub = st.f.kind == FK::Sub && st.f.cin == F && st.f.of.is_none() && st.f.sf.is_none();
        let r = match cc >> 1 {
            0 => self.of(st),
            1 => self.cf(st),
            2 => self.zf(st),
            3 => {
                // be
                if st.f.kind == FK::Sub && st.f.cin == F && st.f.cf.is_none() && st.f.zf.is_none() {
                    let (w, a, b) = (st.f.w, st.f.a.clone(), st.f.b.clone());
                    self.ult(w, &b, &a) ^ 1
                } else {
                    let (c, z) = (self.cf(st), self.zf(st));
                    self.t.or(c, z)
                }
            }
            4 => self.sf(st),
            5 => self.pf(st),
            6 => {
                if lazy_sub {
                    let (w, a, b) = (st.f.w, st.f.a.clone(), st.f.b.clone());
                    self.slt(w, &a, &b)
                } else {
                    let (s, o) = (self.sf(st), self.of(st));
                    self.t.xor(s, o)
                }
            }
            7 => {
                if lazy_sub {
                    let (w, a, b) = (st.f.w, st.f.a.clone(), st.f.b.clone());
                    self.slt(w, &b, &a) ^ 1
                } else {
                    let (s, o, z) = (self.sf(st), self.of(st), self.zf(st));
                    let x = self.t.xor(s, o);
                    self.t.or(x, z)
                }
            }
            _ => unreachable!(),
        };
        r ^ neg
    }

    // ------------------------------------------------ solver, models
    fn sync_model(&mut self, st: &St) {
        if self.eval_owner != st.model_id {
            self.eval.clear();
            self.eval_owner = st.model_id;
        }
    }
    pub fn ev(&mut self, st: &St, b: Bit) -> bool {
        self.sync_model(st);
        self.eval.bit(&self.t, &st.model, b)
    }
    pub fn ev_v(&mut self, st: &St, v: &V) -> u64 {
        match v {
            V::C(c) => *c,
            V::S(b) => {
                let mut r = 0;
                for (i, &x) in b.iter().enumerate() {
                    if self.ev(st, x) {
                        r |= 1 << i;
                    }
                }
                r
            }
        }
    }
    pub fn new_model(&mut self, st: &mut St, vals: &[(u32, bool)]) {
        let mut m = (*st.model).clone();
        for (v, x) in vals {
            let i = *v as usize;
            if m.vars.len() <= i {
                m.vars.resize(i + 1, false);
            }
            m.vars[i] = *x;
        }
        st.model = Rc::new(m);
        self.next_model += 1;
        st.model_id = self.next_model;
    }
    /// record that a literal holds on this path
    pub fn assert_lit(&mut self, st: &mut St, b: Bit) {
        if b == T {
            return;
        }
        st.cond.push(b);
        self.learn(st, b, 0);
    }
    fn learn(&mut self, st: &mut St, b: Bit, depth: u32) {
        if b <= 1 {
            return;
        }
        if st.known.insert(b >> 1, b & 1 == 0).is_some() || depth > 4 {
            return;
        }
        match &self.t.bits[(b >> 1) as usize] {
            BN::And(v) if b & 1 == 0 => {
                let v = v.clone();
                for &l in v.iter() {
                    self.learn(st, l, depth + 1);
                }
            }
            _ => {}
        }
    }
    /// rebuild a literal under what the path has established
    pub fn subst(&mut self, st: &St, b: Bit) -> Bit {
        if b <= 1 || st.known.is_empty() {
            return b;
        }
        if let Some(&v) = st.known.get(&(b >> 1)) {
            return (v as Bit) ^ (b & 1);
        }
        let mut memo: Map<u32, Bit> = Map::default();
        let mut budget = 3000usize;
        if let Some(r) = self.subst_rec(&st.known, b, &mut memo, &mut budget, u32::MAX) {
            return r;
        }
        // too large: only the top of it
        memo.clear();
        budget = 30000;
        self.subst_rec(&st.known, b, &mut memo, &mut budget, 24).unwrap_or(b)
    }
    fn subst_rec(&mut self, known: &Map<u32, bool>, b: Bit, memo: &mut Map<u32, Bit>, budget: &mut usize, depth: u32) -> Option<Bit> {
        if b <= 1 {
            return Some(b);
        }
        let n = b >> 1;
        let neg = b & 1;
        if let Some(&v) = known.get(&n) {
            return Some(v as Bit ^ neg);
        }
        if let Some(&v) = memo.get(&n) {
            return Some(v ^ neg);
        }
        if depth != u32::MAX && (depth == 0 || *budget == 0) {
            return Some(b);
        }
        if *budget == 0 {
            return None;
        }
        *budget -= 1;
        let depth = if depth == u32::MAX { depth } else { depth - 1 };
        let node = self.t.bits[n as usize].clone();
        if let BN::And(v) = &node {
            let falsy = |x: Bit| known.get(&(x >> 1)).is_some_and(|&k| (k as Bit ^ (x & 1)) == 0);
            if v.iter().any(|&x| {
                falsy(x)
                    || (x & 1 == 0 && matches!(&self.t.bits[(x >> 1) as usize], BN::And(u) if u.iter().any(|&y| falsy(y))))
            }) {
                memo.insert(n, F);
                return Some(neg);
            }
        }
        let r = match node {
            BN::Const => F,
            BN::Var(_) => n << 1,
            BN::Xor(v) => {
                let mut o = vec![];
                for &x in v.iter() {
                    o.push(self.subst_rec(known, x, memo, budget, depth)?);
                }
                if o[..] == v[..] { n << 1 } else { self.t.xor_many(&o) }
            }
            BN::And(v) => {
                let mut o = vec![];
                for &x in v.iter() {
                    let y = self.subst_rec(known, x, memo, budget, depth)?;
                    if y == F {
                        o = vec![F];
                        break;
                    }
                    o.push(y);
                }
                if o[..] == v[..] { n << 1 } else { self.t.and_many(&o) }
            }
            BN::Atom(w, i) => {
                let ch = self.t.word_children(w);
                let mut changed = false;
                let mut nb: Map<BvId, Vec<Bit>> = Map::default();
                for id in ch {
                    if nb.contains_key(&id) {
                        continue;
                    }
                    let bits = self.t.bvs[id as usize].clone();
                    let mut o = vec![];
                    for &x in bits.iter() {
                        o.push(self.subst_rec(known, x, memo, budget, depth)?);
                    }
                    if o[..] != bits[..] {
                        changed = true;
                    }
                    nb.insert(id, o);
                }
                if !changed {
                    n << 1
                } else {
                    let Some(out) = self.rebuild_word(w, &nb) else { return None };
                    out[i as usize]
                }
            }
        };
        memo.insert(n, r);
        Some(r ^ neg)
    }

    /// a word with its operand vectors replaced
    pub fn rebuild_word(&mut self, w: u32, nb: &Map<BvId, Vec<Bit>>) -> Option<Vec<Bit>> {
        let wn = self.t.words[w as usize].clone();
        Some(match wn {
            WN::Poly { width, cst, terms, .. } => {
                let mut acc: Vec<Bit> = (0..width).map(|k| ((cst >> k) & 1) as Bit).collect();
                let mut lin: Vec<(u128, Vec<Bit>)> = vec![];
                for m in terms {
                    let mut p = nb[&m.factors[0]].clone();
                    p.resize(p.len().max(width as usize), F);
                    for f in &m.factors[1..] {
                        let mut q = nb[f].clone();
                        q.resize(q.len().max(width as usize), F);
                        p = self.t.mul(width, &p, &q);
                    }
                    lin.push((m.coef, p));
                }
                let mut l: Vec<(u128, &[Bit])> = lin.iter().map(|(c, p)| (*c, &p[..])).collect();
                l.push((1, &acc));
                let r = self.t.poly(width, 0, &l);
                acc = r;
                acc
            }
            WN::Ult(a, b) => {
                let (x, y) = (nb[&a].clone(), nb[&b].clone());
                vec![self.t.ult(&x, &y)]
            }
            WN::Sbox(a) => {
                let x = nb[&a].clone();
                self.t.sbox(&x)
            }
            WN::Uf(..) => return None,
        })
    }

    /// slice of the path condition connected with `b`
    fn slice(&mut self, st: &St, b: Bit) -> Vec<Bit> {
        if st.cond.len() > 400 {
            return st.cond.clone();
        }
        let mut vars: Set<u32> = crate::smt::support(&self.t, &[b]).iter().map(|x| x.0).collect();
        let mut rest: Vec<(Bit, Vec<u32>)> =
            st.cond.iter().map(|&c| (c, crate::smt::support(&self.t, &[c]).iter().map(|x| x.0).collect())).collect();
        let mut r = vec![];
        loop {
            let mut changed = false;
            let mut keep = vec![];
            for (c, s) in rest {
                if s.iter().any(|v| vars.contains(v)) {
                    vars.extend(s.iter().copied());
                    r.push(c);
                    changed = true;
                } else {
                    keep.push((c, s));
                }
            }
            rest = keep;
            if !changed {
                break;
            }
        }
        r
    }

    /// a quick search near the path's model, only for conditions too large for the solver to
    /// satisfy easily (hash outputs); finding nothing says nothing
    fn guess(&mut self, st: &St, q: &[Bit], b: Bit) -> Option<Vec<(u32, bool)>> {
        let mut sup = crate::smt::support(&self.t, &[b]);
        sup.sort_unstable();
        if sup.is_empty() || crate::smt::cone_size(&self.t, q, 4000) < 4000 {
            return None;
        }
        let t0 = Instant::now();
        let mut x = 0x9e3779b97f4a7c15u64;
        let mut rnd = || {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            x.wrapping_mul(0x2545f4914f6cdd1d) >> 11
        };
        let mut m = (*st.model).clone();
        for k in 0..4000u64 {
            if t0.elapsed().as_millis() > 2500 {
                break;
            }
            for &(v, _) in &sup {
                let i = v as usize;
                if m.vars.len() <= i {
                    m.vars.resize(i + 1, false);
                }
                let old = st.model.vars.get(i).copied().unwrap_or(false);
                m.vars[i] = match k % 3 {
                    0 => rnd() & 1 == 1,
                    1 => old ^ (rnd() % (sup.len() as u64) < 2),
                    _ => old ^ (rnd() % 8 == 0),
                };
            }
            let mut e = Eval::new();
            if q.iter().rev().all(|&l| e.bit(&self.t, &m, l)) {
                self.guessed += 1;
                return Some(sup.iter().map(|&(v, _)| (v, m.vars[v as usize])).collect());
            }
        }
        None
    }

    /// is `b` satisfiable together with the path condition?
    pub fn sat(&mut self, st: &St, b: Bit) -> Ans {
        if b == F {
            return Ans::Unsat;
        }
        let mut q = self.slice(st, b);
        q.push(b);
        if let Some(vals) = self.guess(st, &q, b) {
            return Ans::Sat(vals);
        }
        let to = self.o.q_timeout_ms;
        match self.smt.check(&self.t, &q, to) {
            Ans::Unknown => {
                let left = self.o.deadline.saturating_duration_since(Instant::now()).as_secs().max(1);
                let z3 = self.smt.z3.clone();
                self.smt.check_once(&self.t, &q, self.o.ob_timeout_s.min(left), &z3)
            }
            a => a,
        }
    }

    /// decide a branch condition; may fork. Returns the direction taken by this state.
    /// `alt` builds the pc of the other direction.
    pub fn decide(&mut self, st: &mut St, c: Bit, alt_pc: impl Fn(bool) -> u64) -> Result<bool, Stop> {
        if c <= 1 {
            return Ok(c == T);
        }
        let c = self.subst(st, c);
        if c <= 1 {
            return Ok(c == T);
        }
        self.branches += 1;
        let v = self.ev(st, c);
        let lit = if v { c } else { c ^ 1 };
        match self.sat(st, lit ^ 1) {
            Ans::Unsat => {
                st.known.insert(lit >> 1, lit & 1 == 0);
                Ok(v)
            }
            Ans::Sat(vals) => {
                if st.ct {
                    self.ct_violation(st, lit, &vals, "branch depends on secret data");
                }
                self.forked += 1;
                let n = st.forks.entry(st.pc).or_insert(0);
                *n += 1;
                if *n > 4 * self.o.max_values {
                    return Err(Stop::Err(format!("branch at {:x} forked more than {} times", st.pc, 4 * self.o.max_values)));
                }
                let mut o = st.clone();
                self.new_model(&mut o, &vals);
                self.assert_lit(&mut o, lit ^ 1);
                o.pc = alt_pc(!v);
                self.work.push(o);
                self.assert_lit(st, lit);
                Ok(v)
            }
            Ans::Unknown => {
                self.incomplete.push(format!("feasibility of branch at {:x} unknown", st.pc));
                self.assert_lit(st, lit);
                Ok(v)
            }
        }
    }

    /// pick a concrete value of `v`, forking over the others (the forks re-execute this instruction)
    pub fn conc(&mut self, st: &mut St, v: &V, w: u32) -> Result<u64, Stop> {
        let bits = match v {
            V::C(c) => return Ok(*c),
            V::S(_) => v.bits(w as usize),
        };
        let bits: Vec<Bit> = bits.iter().map(|&b| self.subst(st, b)).collect();
        let v = V::mk(bits.clone());
        if let V::C(c) = v {
            return Ok(c);
        }
        let x = self.ev_v(st, &v);
        let eq = self.eqv(w, &v, &V::C(x));
        match self.sat(st, eq ^ 1) {
            Ans::Unsat => {}
            Ans::Sat(vals) => {
                if st.ct {
                    self.ct_violation(st, eq, &vals, "address or length depends on secret data");
                }
                self.forked += 1;
                let n = st.forks.entry(st.pc).or_insert(0);
                *n += 1;
                if *n > self.o.max_values {
                    return Err(Stop::Err(format!("more than {} values at {:x}", self.o.max_values, st.pc)));
                }
                let mut o = st.clone();
                self.new_model(&mut o, &vals);
                self.assert_lit(&mut o, eq ^ 1);
                self.work.push(o);
            }
            Ans::Unknown => self.incomplete.push(format!("values at {:x} unknown", st.pc)),
        }
        self.assert_lit(st, eq);
        for (i, &b) in bits.iter().enumerate() {
            if b > 1 {
                let val = (x >> i) & 1;
                self.learn(st, b ^ 1 ^ val as Bit, 0);
            }
        }
        // a single-term sum pins down its term
        if let BN::Atom(wd, 0) = &self.t.bits[(bits[0] >> 1) as usize] {
            if let WN::Poly { width, cst, terms, .. } = self.t.words[*wd as usize].clone() {
                if terms.len() == 1 && terms[0].factors.len() == 1 && width <= 64 && width as usize <= bits.len() {
                    let full = bits[0] & 1 == 0 && (0..width as usize).all(|i| bits[i] == bits[0] + 2 * i as u32);
                    let tb = self.t.bvs[terms[0].factors[0] as usize].clone();
                    let m = m64(width);
                    let d = (x & m).wrapping_sub(cst as u64) & m;
                    let val = if terms[0].coef == 1 {
                        Some(d)
                    } else if terms[0].coef as u64 & m == m {
                        Some(0u64.wrapping_sub(d) & m)
                    } else if !(terms[0].coef >> 63 != 0) && terms[0].coef != 0 && d % terms[0].coef as u64 == 0 && bits[0] & 1 == 0 && {
                        let c = terms[0].coef as u64;
                        (tb.len() as u32 + 64 - c.leading_zeros()) <= width.min(62)
                    } {
                        Some(d / terms[0].coef as u64)
                    } else {
                        None
                    };
                    if let (true, Some(val)) = (full, val) {
                        for (i, &b) in tb.iter().enumerate() {
                            if b > 1 {
                                let bv = (val >> i) & 1;
                                self.learn(st, b ^ 1 ^ bv as Bit, 0);
                            }
                        }
                    }
                }
            }
        }
        Ok(x)
    }

    // ------------------------------------------------ reporting
    fn hex_of(&mut self, st: &St, bits: &[[Bit; 8]], m: &Model, ev: &mut Eval) -> String {
        let _ = st;
        let mut s = String::new();
        for b in bits {
            let mut x = 0u8;
            for k in 0..8 {
                if ev.bit(&self.t, m, b[k]) {
                    x |= 1 << k;
                }
            }
            s += &format!("{:02x}", x);
        }
        s
    }
    pub fn replay_text(&mut self, st: &St, vals: Option<&[(u32, bool)]>, outs: bool) -> String {
        let mut m = (*st.model).clone();
        if let Some(v) = vals {
            for (i, x) in v {
                let i = *i as usize;
                if m.vars.len() <= i {
                    m.vars.resize(i + 1, false);
                }
                m.vars[i] = *x;
            }
        }
        let mut ev = Eval::new();
        let mut s = String::new();
        for p in self.o.params.clone() {
            s += &format!("p {}\n", p);
        }
        if !self.o.nofeat.is_empty() {
            // the detected CPU features, for a native run
            let c = self.img.syms.iter().find(|(n, _)| n.ends_with("6detect5cache5CACHE")).map(|(_, &v)| v);
            if let Some((a, sz)) = c {
                for k in 0..(sz / 8).min(4) {
                    if let Some(v) = st.mem.load(a + 8 * k, 8).c() {
                        if v != 0 {
                            s += &format!("poke {:x} {:x}\n", a + 8 * k, v);
                        }
                    }
                }
            }
        }
        for i in &st.inputs {
            let h = self.hex_of(st, &i.bits, &m, &mut ev);
            s += &format!("v {} {}\n", i.tag, h);
        }
        if outs {
            for o in &st.outs {
                let mut h = String::new();
                for v in o {
                    let mut x = 0u8;
                    for (k, b) in v.bits(8).iter().enumerate() {
                        if ev.bit(&self.t, &m, *b) {
                            x |= 1 << k;
                        }
                    }
                    h += &format!("{:02x}", x);
                }
                s += &format!("o {}\n", h);
            }
        }
        s
    }
    pub fn backtrace(&self, st: &St) -> String {
        let mut v: Vec<String> = vec![self.img.sym_at(st.pc).unwrap_or("?").to_string()];
        for a in st.callstack.iter().rev().take(6) {
            v.push(self.img.sym_at(*a).unwrap_or("?").to_string());
        }
        v.join(" <- ")
    }
    pub fn violation(&mut self, st: &St, kind: &str, id: u32, msg: String, vals: Option<&[(u32, bool)]>) {
        if self.violations.iter().filter(|v| v.kind == kind && v.id == id).count() >= 3 {
            return;
        }
        let replay = self.replay_text(st, vals, false);
        let func = self.backtrace(st);
        self.violations.push(Violation { kind: kind.into(), id, msg, replay, func });
    }
    fn ct_violation(&mut self, st: &St, lit: Bit, vals: &[(u32, bool)], what: &str) {
        let _ = lit;
        if self.violations.iter().any(|v| v.kind == "ct" && v.id == (st.pc & 0xffff_ffff) as u32) {
            return;
        }
        let a = self.replay_text(st, None, false);
        let b = self.replay_text(st, Some(vals), false);
        let func = self.backtrace(st);
        self.violations.push(Violation {
            kind: "ct".into(),
            id: (st.pc & 0xffff_ffff) as u32,
            msg: format!("{} at {:x}", what, st.pc),
            replay: format!("{}---\n{}", a, b),
            func,
        });
    }

    /// an assertion over the current path
    pub fn obligation(&mut self, st: &mut St, c: Bit, id: u32, what: &str) -> Result<(), Stop> {
        self.obligations += 1;
        if c == T {
            self.ob_syntactic += 1;
            return Ok(());
        }
        let c2 = self.subst(st, c);
        if c2 == T {
            self.ob_syntactic += 1;
            return Ok(());
        }
        if c2 == F || !self.ev(st, c2) {
            self.violation(st, "check", id, what.to_string(), None);
        } else {
            match self.prove(st, c2) {
                Ans::Unsat => {
                    self.ob_solver += 1;
                    return Ok(());
                }
                Ans::Sat(vals) => self.violation(st, "check", id, what.to_string(), Some(&vals)),
                Ans::Unknown => {
                    self.ob_unknown += 1;
                    self.incomplete.push(format!("assertion {} undecided", id));
                    return Ok(());
                }
            }
        }
        // continue where the assertion holds, if anywhere
        if c2 == F {
            return Err(Stop::Done);
        }
        if !self.ev(st, c2) {
            let mut q = self.slice(st, c2);
            q.push(c2);
            match self.smt.check(&self.t, &q, 2000) {
                Ans::Sat(vals) => {
                    self.new_model(st, &vals);
                }
                Ans::Unsat => return Err(Stop::Done),
                Ans::Unknown => {
                    self.incomplete.push(format!("whether the path goes on past failed assertion {} is undecided", id));
                    return Err(Stop::Done);
                }
            }
        }
        self.assert_lit(st, c2);
        Ok(())
    }

    /// SAT sweeping: rebuild `roots` bottom-up, merging internal nodes that agree on all
    /// simulation patterns once the solver shows them equal on a local cut.
    pub fn sweep(&mut self, roots: &[Bit], secs: u64) -> Vec<Bit> {
        let t0 = Instant::now();
        let mut nodes: Set<u32> = Set::default();
        let mut st: Vec<u32> = roots.iter().map(|b| b >> 1).collect();
        let mut wseen: Set<u32> = Set::default();
        while let Some(n) = st.pop() {
            if n == 0 || !nodes.insert(n) {
                continue;
            }
            match &self.t.bits[n as usize] {
                BN::Xor(v) | BN::And(v) => st.extend(v.iter().map(|b| b >> 1)),
                BN::Atom(w, _) => {
                    if wseen.insert(*w) {
                        for id in self.t.word_children(*w) {
                            st.extend(self.t.bvs[id as usize].iter().map(|b| b >> 1));
                        }
                    }
                }
                _ => {}
            }
        }
        let mut order: Vec<u32> = nodes.into_iter().collect();
        order.sort_unstable();
        let mut repl: Map<u32, Bit> = Map::default();
        let mut words: Map<u32, Vec<Bit>> = Map::default();
        let mut classes: Map<u64, Vec<Bit>> = Map::default();
        let mut failed: Map<u32, u32> = Map::default();
        let mut calls = 0;
        let map = |repl: &Map<u32, Bit>, b: Bit| if b <= 1 { b } else { repl.get(&(b >> 1)).copied().unwrap_or(b & !1) ^ (b & 1) };
        for n in order {
            let mut b = match self.t.bits[n as usize].clone() {
                BN::Const => F,
                BN::Var(_) => n << 1,
                BN::Xor(v) => {
                    let o: Vec<Bit> = v.iter().map(|&x| map(&repl, x)).collect();
                    if o[..] == v[..] { n << 1 } else { self.t.xor_many(&o) }
                }
                BN::And(v) => {
                    let o: Vec<Bit> = v.iter().map(|&x| map(&repl, x)).collect();
                    if o[..] == v[..] { n << 1 } else { self.t.and_many(&o) }
                }
                BN::Atom(w, i) => {
                    if !words.contains_key(&w) {
                        let mut nb: Map<BvId, Vec<Bit>> = Map::default();
                        let mut changed = false;
                        for id in self.t.word_children(w) {
                            let bits = self.t.bvs[id as usize].clone();
                            let o: Vec<Bit> = bits.iter().map(|&x| map(&repl, x)).collect();
                            changed |= o[..] != bits[..];
                            nb.insert(id, o);
                        }
                        let out = if changed { self.rebuild_word(w, &nb) } else { None };
                        let out = out.unwrap_or_else(|| self.t.atom_bits(w));
                        words.insert(w, out);
                    }
                    words[&w].get(i as usize).copied().unwrap_or(n << 1)
                }
            };
            if b > 1 {
                // normalise the phase by pattern 0
                let s = self.t.sigof(b);
                let ph = (s & 1) as Bit;
                let key = s ^ 0u64.wrapping_sub(ph as u64);
                let mut cands: Vec<Bit> = classes.get(&key).cloned().unwrap_or_default();
                if key == 0 {
                    cands.insert(0, F);
                }
                let bb = b ^ ph;
                if !cands.contains(&bb) {
                    let mut done = false;
                    for &c in cands.iter().take(4) {
                        if calls > 4000 || t0.elapsed().as_secs() > secs || Instant::now() > self.o.deadline {
                            break;
                        }
                        if *failed.get(&(c >> 1)).unwrap_or(&0) > 12 {
                            continue;
                        }
                        calls += 1;
                        if self.smt.equal_cut(&self.t, bb, c) {
                            b = c ^ ph;
                            self.sweep_merges += 1;
                            done = true;
                            break;
                        }
                        *failed.entry(c >> 1).or_insert(0) += 1;
                    }
                    if !done {
                        classes.entry(key).or_default().push(bb);
                    }
                }
            }
            if b != n << 1 {
                repl.insert(n, b);
            }
        }
        roots.iter().map(|&b| map(&repl, b)).collect()
    }

    /// top-down congruence: equal sums have pairwise equal summands, the rest on a local cut
    fn congruent(&mut self, a: Bit, b: Bit, depth: u32, memo: &mut Map<(Bit, Bit), bool>) -> bool {
        if a == b {
            return true;
        }
        if self.t.sigof(a) != self.t.sigof(b) || depth > 12 || Instant::now() > self.o.deadline || memo.len() > 20000 {
            return false;
        }
        let key = (a.min(b), a.max(b));
        if let Some(&r) = memo.get(&key) {
            return r;
        }
        memo.insert(key, false);
        let mut r = false;
        let node = |s: &Self, b: Bit| if b > 1 { Some(s.t.bits[(b >> 1) as usize].clone()) } else { None };
        let (na, nb) = (node(self, a), node(self, b));
        if a & 1 == b & 1 {
            match (&na, &nb) {
                (Some(BN::Atom(wa, i)), Some(BN::Atom(wb, j))) if i == j && wa != wb => {
                    let wk = (!0 - *wa.min(wb), !0 - *wa.max(wb));
                    r = match memo.get(&wk) {
                        Some(&r) => r,
                        None => {
                            let r = self.word_congruent(*wa, *wb, depth, memo);
                            memo.insert(wk, r);
                            r
                        }
                    };
                }
                (Some(BN::Xor(va)), Some(BN::Xor(vb))) | (Some(BN::And(va)), Some(BN::And(vb))) if va.len() == vb.len() => {
                    let xa: Vec<Bit> = va.iter().copied().filter(|x| !vb.contains(x)).collect();
                    let mut xb: Vec<Bit> = vb.iter().copied().filter(|x| !va.contains(x)).collect();
                    if xa.len() <= 4 {
                        r = true;
                        for x in xa {
                            let s = self.t.sigof(x);
                            match xb.iter().position(|&y| self.t.sigof(y) == s) {
                                Some(k) => {
                                    let y = xb.remove(k);
                                    if !self.congruent(x, y, depth + 1, memo) {
                                        r = false;
                                        break;
                                    }
                                }
                                None => {
                                    r = false;
                                    break;
                                }
                            }
                        }
                    }
                }
                _ => {}
            }
        }
        if !r {
            r = self.smt.equal_cut(&self.t, a, b);
        }
        memo.insert(key, r);
        r
    }

    fn word_congruent(&mut self, wa: u32, wb: u32, depth: u32, memo: &mut Map<(Bit, Bit), bool>) -> bool {
        use crate::term::{Mono, WN};
        let (ta, tb) = match (&self.t.words[wa as usize], &self.t.words[wb as usize]) {
            (WN::Poly { cst: ca, terms: ta, .. }, WN::Poly { cst: cb, terms: tb, .. }) if ca == cb && ta.len() == tb.len() => (ta.clone(), tb.clone()),
            _ => return false,
        };
        let xa: Vec<Mono> = ta.iter().filter(|x| !tb.contains(x)).cloned().collect();
        let mut xb: Vec<Mono> = tb.iter().filter(|x| !ta.contains(x)).cloned().collect();
        if xa.len() != xb.len() || xa.len() > 6 {
            return false;
        }
        for x in xa {
            let mut hit = None;
            'y: for (k, y) in xb.iter().enumerate() {
                if y.coef != x.coef || y.factors.len() != x.factors.len() {
                    continue;
                }
                for (f, g) in x.factors.iter().zip(&y.factors) {
                    let (vf, vg) = (&self.t.bvs[*f as usize], &self.t.bvs[*g as usize]);
                    let n = vf.len().max(vg.len());
                    for i in 0..n {
                        let (p, q) = (vf.get(i).copied().unwrap_or(F), vg.get(i).copied().unwrap_or(F));
                        if self.t.sigof(p) != self.t.sigof(q) {
                            continue 'y;
                        }
                    }
                }
                hit = Some(k);
                break;
            }
            let Some(k) = hit else { return false };
            let y = xb.remove(k);
            for (f, g) in x.factors.iter().zip(&y.factors) {
                let (vf, vg) = (self.t.bvs[*f as usize].clone(), self.t.bvs[*g as usize].clone());
                for i in 0..vf.len().max(vg.len()) {
                    let (p, q) = (vf.get(i).copied().unwrap_or(F), vg.get(i).copied().unwrap_or(F));
                    if !self.congruent(p, q, depth + 1, memo) {
                        return false;
                    }
                }
            }
        }
        true
    }

    pub fn pairs_congruent(&mut self, x: &[Bit], y: &[Bit]) -> bool {
        let mut memo = Map::default();
        (0..x.len()).all(|i| self.congruent(x[i], y[i], 0, &mut memo))
    }

    /// discharge a conjunction of equalities by congruence
    fn prove_congruent(&mut self, c: Bit) -> bool {
        let conj: Vec<Bit> = match &self.t.bits[(c >> 1) as usize] {
            BN::And(v) if c & 1 == 0 => v.to_vec(),
            _ => vec![c],
        };
        let mut memo = Map::default();
        for k in conj {
            let pair = match &self.t.bits[(k >> 1) as usize] {
                BN::Xor(v) if v.len() == 2 => (v[0], v[1] ^ 1 ^ (k & 1)),
                _ => return false,
            };
            if !self.congruent(pair.0, pair.1, 0, &mut memo) {
                return false;
            }
        }
        true
    }

    /// search a model of path /\ !c: quick simulation, then solvers
    fn prove(&mut self, st: &St, c: Bit) -> Ans {
        // simulation patterns that satisfy the path condition
        let mut m = !0u64;
        for &p in &st.cond {
            m &= self.t.sigof(p);
        }
        let bad = m & !self.t.sigof(c);
        if bad != 0 {
            let k = bad.trailing_zeros();
            let vals: Vec<(u32, bool)> = crate::smt::support(&self.t, &[c])
                .iter()
                .chain(crate::smt::support(&self.t, &st.cond.clone()).iter())
                .map(|&(v, n)| (v, (self.t.sig[n as usize] >> k) & 1 == 1))
                .collect();
            if std::env::var("SYMEX_DBG").is_ok() {
                let mut m = Model::default();
                for (v, x) in &vals {
                    let i = *v as usize;
                    if m.vars.len() <= i {
                        m.vars.resize(i + 1, false);
                    }
                    m.vars[i] = *x;
                }
                let mut ev = Eval::new();
                for n in 1..self.t.bits.len() as u32 {
                    let has = crate::smt::support(&self.t, &[n << 1]).iter().all(|x| vals.iter().any(|y| y.0 == x.0));
                    if has && ev.bit(&self.t, &m, n << 1) != ((self.t.sigof(n << 1) >> k) & 1 == 1) {
                        eprintln!("SIG MISMATCH node {} {}", n, self.t.show_bit(n << 1, 2));
                        if let BN::Atom(w, _) = self.t.bits[n as usize] {
                            eprintln!("{}", self.t.show_word(w));
                        }
                        break;
                    }
                }
            }
            return Ans::Sat(vals);
        }
        if self.prove_congruent(c) {
            return Ans::Unsat;
        }
        let failed = !self.violations.is_empty();
        let mut q = self.slice(st, c);
        q.push(c ^ 1);
        if std::env::var("SYMEX_DBG").is_ok() {
            let mut todo: Vec<Bit> = st.cond.clone();
            let mut seen = Map::default();
            while let Some(x) = todo.pop() {
                if seen.insert(x >> 1, ()).is_some() { continue; }
                match &self.t.bits[(x >> 1) as usize] {
                    BN::And(v) => todo.extend(v.iter()),
                    BN::Xor(v) if v.len() > 6 => {
                        let s = self.t.sigof(x);
                        eprintln!("BIGX n{} len {} sig {:x} same {:?} leaves {}", x >> 1, v.len(), s, v.iter().filter(|&&l| self.t.sigof(l) == s || self.t.sigof(l) == !s).map(|&l| self.t.show_bit(l, 1)).collect::<Vec<_>>(),
                            v.iter().map(|&l| self.t.show_bit(l, 1)).collect::<Vec<_>>().join(" ^ "));
                    }
                    BN::Xor(v) => todo.extend(v.iter()),
                    _ => {}
                }
            }
            for &x in &st.cond {
                eprintln!("COND {} {} cone {} sup {:?}", self.t.show_bit(x, 3), (match &self.t.bits[(x>>1) as usize] { BN::And(v) => v.iter().map(|&y| format!("\nPART cone {} {}", crate::smt::cone_size(&self.t,&[y],1000000), self.t.show_bit(y, 7))).collect::<String>(), _ => String::new() }), crate::smt::cone_size(&self.t, &[x], 1000000), crate::smt::support(&self.t, &[x]).len());
            }
            eprintln!("GOAL {}", self.t.show_bit(c, 3));
        }
        if !self.smt.cuts.is_empty() {
            let z3 = self.smt.z3.clone();
            if let Ans::Unsat = self.smt.check_with(&self.t, &q, 30, &z3, true) {
                return Ans::Unsat;
            }
        }
        let to = if failed { 3000 } else { self.o.q_timeout_ms };
        match self.smt.check(&self.t, &q, to) {
            Ans::Unknown if failed => return Ans::Unknown,
            Ans::Unknown => {}
            a => return a,
        }
        for s in [self.smt.z3.clone(), "cvc5".into()] {
            let left = self.o.deadline.saturating_duration_since(Instant::now()).as_secs();
            if left == 0 {
                return Ans::Unknown;
            }
            match self.smt.check_once(&self.t, &q, self.o.ob_timeout_s.min(left), &s) {
                Ans::Unknown => {}
                a => return a,
            }
        }
        Ans::Unknown
    }

    // ------------------------------------------------ operands
    pub fn getr(&self, st: &St, n: u8, sz: u8, hi: bool) -> V {
        let v = &st.r[n as usize];
        if hi {
            return v.ext(8, 8);
        }
        if sz == 8 { v.clone() } else { v.ext(0, sz as usize * 8) }
    }
    pub fn setr(&self, st: &mut St, n: u8, sz: u8, hi: bool, v: V) {
        let r = &mut st.r[n as usize];
        *r = match sz {
            8 => v,
            4 => match v {
                V::C(c) => V::C(c & 0xffff_ffff),
                V::S(b) => {
                    let mut x: Vec<Bit> = b.iter().copied().take(32).collect();
                    x.resize(64, F);
                    V::mk(x)
                }
            },
            _ => r.set(64, if hi { 8 } else { 0 }, sz as usize * 8, &v),
        };
    }
    pub fn ea(&mut self, st: &mut St, m: &MOp) -> Result<u64, Stop> {
        let mut a = m.disp;
        if let Some(b) = m.base {
            let v = st.r[b as usize].clone();
            let x = match v {
                V::C(c) => c,
                _ => {
                    if let Some(i) = m.index {
                        // concretise the sum, not the parts
                        if !st.r[i as usize].is_c() || true {
                            let iv = self.shl_c(64, &st.r[i as usize].clone(), m.scale.trailing_zeros());
                            let s = self.add(64, &v, &iv);
                            let x = self.conc(st, &s, 64)?;
                            return self.fs(m, x.wrapping_add(m.disp));
                        }
                    }
                    let x = self.conc(st, &v, 64)?;
                    st.r[b as usize] = V::C(x);
                    x
                }
            };
            a = a.wrapping_add(x);
        }
        if let Some(i) = m.index {
            let v = st.r[i as usize].clone();
            let x = match v {
                V::C(c) => c,
                _ => {
                    let x = self.conc(st, &v, 64)?;
                    st.r[i as usize] = V::C(x);
                    x
                }
            };
            a = a.wrapping_add(x.wrapping_mul(m.scale as u64));
        }
        self.fs(m, a)
    }
    fn fs(&self, m: &MOp, a: u64) -> Result<u64, Stop> {
        Ok(if m.fs { a.wrapping_add(TLS + 0x10000) } else { a })
    }
    pub fn check_addr(&self, st: &St, a: u64, n: u64, write: bool) -> Result<(), Stop> {
        let end = a.wrapping_add(n);
        if a >= STACK_TOP - STACK_SIZE && end <= STACK_TOP {
            return Ok(());
        }
        if a >= HEAP && a < HEAP + (1 << 40) {
            let h = &st.heap;
            let i = h.partition_point(|x| x.0 <= a);
            if i > 0 {
                let (s, l, live) = h[i - 1];
                if live && end <= s + l {
                    return Ok(());
                }
                return Err(Stop::Event("fault", format!(
                    "{} of {} bytes at heap allocation offset {} (length {}, {})",
                    if write { "write" } else { "read" }, n, a - s, l, if live { "live" } else { "freed" })));
            }
        }
        if a >= TLS && end <= TLS + 0x20000 {
            return Ok(());
        }
        for s in &self.img.segs {
            if a >= s.addr && end <= s.addr + s.data.len() as u64 {
                if write && !s.write {
                    return Err(Stop::Event("fault", format!("write to read-only memory {:x}", a)));
                }
                return Ok(());
            }
        }
        Err(Stop::Event("fault", format!("{} of {} bytes at invalid address {:x}", if write { "write" } else { "read" }, n, a)))
    }
    pub fn load(&mut self, st: &mut St, a: u64, n: usize) -> Result<V, Stop> {
        self.check_addr(st, a, n as u64, false)?;
        Ok(st.mem.load(a, n))
    }
    pub fn store(&mut self, st: &mut St, a: u64, n: usize, v: &V) -> Result<(), Stop> {
        self.check_addr(st, a, n as u64, true)?;
        st.mem.store(a, n, v);
        Ok(())
    }
    pub fn osize(&self, o: &Op) -> u32 {
        match o {
            Op::R(_, s, _) => *s as u32,
            Op::X(_, s) => *s as u32,
            Op::M(m) => m.size as u32,
            _ => 0,
        }
    }
    pub fn get(&mut self, st: &mut St, o: &Op, w: u32) -> Result<V, Stop> {
        match o {
            Op::R(n, s, h) => Ok(self.getr(st, *n, *s, *h)),
            Op::I(v) => Ok(V::C(v & m64(w))),
            Op::M(m) => {
                let a = self.ea(st, m)?;
                self.load(st, a, (w / 8) as usize)
            }
            Op::X(n, _) => Ok(st.x[*n as usize][0].ext(0, w as usize)),
            Op::K(k) => Ok(st.k[*k as usize].ext(0, w as usize)),
        }
    }
    pub fn put(&mut self, st: &mut St, o: &Op, w: u32, v: V) -> Result<(), Stop> {
        match o {
            Op::R(n, s, h) => {
                self.setr(st, *n, *s, *h, v);
                Ok(())
            }
            Op::M(m) => {
                let a = self.ea(st, m)?;
                self.store(st, a, (w / 8) as usize, &v)
            }
            _ => Err(Stop::Err("put".into())),
        }
    }
    pub fn push(&mut self, st: &mut St, v: V) -> Result<(), Stop> {
        let sp = self.sp(st)?.wrapping_sub(8);
        self.store(st, sp, 8, &v)?;
        st.r[4] = V::C(sp);
        Ok(())
    }
    fn sp(&self, st: &St) -> Result<u64, Stop> {
        st.r[4].c().ok_or(Stop::Err("symbolic stack pointer".into()))
    }
    pub fn pop(&mut self, st: &mut St) -> Result<V, Stop> {
        let sp = self.sp(st)?;
        let v = self.load(st, sp, 8)?;
        st.r[4] = V::C(sp.wrapping_add(8));
        Ok(v)
    }
}

// ---------------------------------------------------- instruction handlers
fn w_of(e: &Eng, i: &Insn) -> u32 {
    for o in &i.ops {
        let s = e.osize(o);
        if s != 0 {
            return s * 8;
        }
    }
    64
}

fn mov(e: &mut Eng, st: &mut St, i: &Insn) -> Res {
    let w = w_of(e, i);
    let v = e.get(st, &i.ops[1], w)?;
    e.put(st, &i.ops[0], w, v)?;
    Ok(Flow::Next)
}
fn movzx(e: &mut Eng, st: &mut St, i: &Insn) -> Res {
    let ws = e.osize(&i.ops[1]) * 8;
    let v = e.get(st, &i.ops[1], ws)?;
    let w = e.osize(&i.ops[0]) * 8;
    let v = v.ext(0, ws as usize);
    let v = match v {
        V::C(c) => V::C(c),
        V::S(b) => {
            let mut x = b.to_vec();
            x.resize(w as usize, F);
            V::mk(x)
        }
    };
    e.put(st, &i.ops[0], w, v)?;
    Ok(Flow::Next)
}
fn movsx(e: &mut Eng, st: &mut St, i: &Insn) -> Res {
    let ws = e.osize(&i.ops[1]) * 8;
    let v = e.get(st, &i.ops[1], ws)?;
    let w = e.osize(&i.ops[0]) * 8;
    let v = e.sext(&v, ws, w);
    e.put(st, &i.ops[0], w, v)?;
    Ok(Flow::Next)
}
fn lea(e: &mut Eng, st: &mut St, i: &Insn) -> Res {
    let w = e.osize(&i.ops[0]) * 8;
    let Op::M(m) = &i.ops[1] else { return Err(Stop::Err("lea".into())) };
    let mut v = V::C(m.disp);
    if let Some(b) = m.base {
        let x = st.r[b as usize].clone();
        v = e.add(64, &v, &x);
    }
    if let Some(b) = m.index {
        let x = st.r[b as usize].clone();
        let x = e.shl_c(64, &x, m.scale.trailing_zeros());
        v = e.add(64, &v, &x);
    }
    e.put(st, &i.ops[0], w, v.ext(0, w as usize))?;
    Ok(Flow::Next)
}
/// aux: 0 add 1 or 2 adc 3 sbb 4 and 5 sub 6 xor 7 cmp 8 test
fn alu(e: &mut Eng, st: &mut St, i: &Insn) -> Res {
    let w = w_of(e, i);
    let op = i.aux & 0xffff;
    // xor r,r / sub r,r
    if let (Op::R(a, s, ha), Op::R(b, s2, hb)) = (&i.ops[0], &i.ops[1]) {
        if a == b && s == s2 && ha == hb && (op == 6 || op == 5) {
            e.set_flags(st, FK::Logic, w, V::C(0), V::C(0), F, V::C(0));
            if op != 7 {
                e.put(st, &i.ops[0], w, V::C(0))?;
            }
            return Ok(Flow::Next);
        }
    }
    let a = e.get(st, &i.ops[0], w)?;
    let b = e.get(st, &i.ops[1], w)?;
    let mut cin = F;
    let (r, k) = match op {
        0 => (e.add(w, &a, &b), FK::Add),
        2 => {
            cin = e.cf(st);
            let r = match (&a, &b, cin) {
                (V::C(x), V::C(y), 0 | 1) => V::C(x.wrapping_add(*y).wrapping_add(cin as u64) & m64(w)),
                _ => {
                    let (p, q) = (a.bits(w as usize), b.bits(w as usize));
                    V::mk(e.t.poly(w, 0, &[(1, &p), (1, &q), (1, &[cin])]))
                }
            };
            (r, FK::Add)
        }
        3 => {
            cin = e.cf(st);
            let same = matches!((&i.ops[0], &i.ops[1]), (Op::R(x, s, _), Op::R(y, s2, _)) if x == y && s == s2);
            let r = match (&a, &b, cin) {
                (V::C(x), V::C(y), 0 | 1) => V::C(x.wrapping_sub(*y).wrapping_sub(cin as u64) & m64(w)),
                _ if same => V::mk(vec![cin; w as usize]),
                _ => {
                    let (p, q) = (a.bits(w as usize), b.bits(w as usize));
                    V::mk(e.t.poly(w, 0, &[(1, &p), (u128::MAX, &q), (u128::MAX, &[cin])]))
                }
            };
            if same {
                e.put(st, &i.ops[0], w, r.clone())?;
                e.set_flags(st, FK::Explicit, w, V::C(0), V::C(0), F, r);
                st.f.cf = Some(cin);
                st.f.zf = Some(cin ^ 1);
                st.f.of = Some(F);
                return Ok(Flow::Next);
            }
            (r, FK::Sub)
        }
        5 | 7 => (if op == 7 && !(a.is_c() && b.is_c()) { V::C(0) } else { e.sub(w, &a, &b) }, FK::Sub),
        1 => (e.or(w, &a, &b), FK::Logic),
        4 | 8 => (if a.is_c() || !same_reg(i) { e.and(w, &a, &b) } else { a.clone() }, FK::Logic),
        6 => (e.xor(w, &a, &b), FK::Logic),
        _ => unreachable!(),
    };
    if op == 7 && !(a.is_c() && b.is_c()) {
        // result only needed for SF/PF: compute when asked
        let r = LazySub::make(e, w, &a, &b);
        e.set_flags(st, k, w, a, b, cin, r);
        return Ok(Flow::Next);
    }
    if op < 7 {
        e.put(st, &i.ops[0], w, r.clone())?;
    }
    e.set_flags(st, k, w, a, b, cin, r);
    Ok(Flow::Next)
}
fn same_reg(i: &Insn) -> bool {
    matches!((&i.ops[0], &i.ops[1]), (Op::R(x, s, h), Op::R(y, s2, h2)) if x == y && s == s2 && h == h2)
}
struct LazySub;
impl LazySub {
    fn make(e: &mut Eng, w: u32, a: &V, b: &V) -> V {
        e.sub(w, a, b)
    }
}
fn incdec(e: &mut Eng, st: &mut St, i: &Insn) -> Res {
    let w = w_of(e, i);
    let a = e.get(st, &i.ops[0], w)?;
    let c = e.cf(st);
    let one = V::C(1);
    let (r, k) = if i.aux & 1 == 0 { (e.add(w, &a, &one), FK::Add) } else { (e.sub(w, &a, &one), FK::Sub) };
    e.put(st, &i.ops[0], w, r.clone())?;
    e.set_flags(st, k, w, a, one, F, r);
    st.f.cf = Some(c);
    Ok(Flow::Next)
}
fn neg(e: &mut Eng, st: &mut St, i: &Insn) -> Res {
    let w = w_of(e, i);
    let a = e.get(st, &i.ops[0], w)?;
    let r = e.sub(w, &V::C(0), &a);
    e.put(st, &i.ops[0], w, r.clone())?;
    e.set_flags(st, FK::Sub, w, V::C(0), a, F, r);
    Ok(Flow::Next)
}
fn not(e: &mut Eng, st: &mut St, i: &Insn) -> Res {
    let w = w_of(e, i);
    let a = e.get(st, &i.ops[0], w)?;
    let r = e.not(w, &a);
    e.put(st, &i.ops[0], w, r)?;
    Ok(Flow::Next)
}
/// adcx (aux 0), adox (aux 1)
fn adx(e: &mut Eng, st: &mut St, i: &Insn) -> Res {
    let w = w_of(e, i);
    let a = e.get(st, &i.ops[0], w)?;
    let b = e.get(st, &i.ops[1], w)?;
    let cin = if i.aux == 0 { e.cf(st) } else { e.of(st) };
    let (r, co) = match (&a, &b, cin) {
        (V::C(x), V::C(y), 0 | 1) => {
            let s = *x as u128 + *y as u128 + cin as u128;
            (V::C(s as u64 & m64(w)), ((s >> w) & 1) as Bit)
        }
        _ => {
            let (p, q) = (a.bits(w as usize), b.bits(w as usize));
            let s = e.t.poly(w + 1, 0, &[(1, &p), (1, &q), (1, &[cin])]);
            let lo = e.t.poly(w, 0, &[(1, &p), (1, &q), (1, &[cin])]);
            (V::mk(lo), s[w as usize])
        }
    };
    e.put(st, &i.ops[0], w, r)?;
    if i.aux == 0 {
        st.f.cf = Some(co)
    } else {
        st.f.of = Some(co)
    }
    Ok(Flow::Next)
}
fn mulx(e: &mut Eng, st: &mut St, i: &Insn) -> Res {
    let w = w_of(e, i);
    let a = e.getr(st, 2, (w / 8) as u8, false);
    let b = e.get(st, &i.ops[2], w)?;
    let (lo, hi) = e.mul_wide(w, &a, &b, false);
    e.put(st, &i.ops[1], w, lo)?;
    e.put(st, &i.ops[0], w, hi)?;
    Ok(Flow::Next)
}
fn mul1(e: &mut Eng, st: &mut St, i: &Insn, signed: bool) -> Res {
    let w = w_of(e, i);
    let a = e.getr(st, 0, (w / 8) as u8, false);
    let b = e.get(st, &i.ops[0], w)?;
    let (lo, hi) = e.mul_wide(w, &a, &b, signed);
    if w == 8 {
        let v = lo.cat(8, &hi, 8);
        e.setr(st, 0, 2, false, v);
    } else {
        e.setr(st, 0, (w / 8) as u8, false, lo.clone());
        e.setr(st, 2, (w / 8) as u8, false, hi.clone());
    }
    let c = if signed {
        let s = e.sext(&lo, w, 64);
        let s = e.sar_c(64, &s, 63).ext(0, w as usize);
        e.eqv(w, &hi, &s) ^ 1
    } else {
        e.is_zero(w, &hi) ^ 1
    };
    e.set_flags(st, FK::Explicit, w, V::C(0), V::C(0), F, lo);
    st.f.cf = Some(c);
    st.f.of = Some(c);
    Ok(Flow::Next)
}
fn mul(e: &mut Eng, st: &mut St, i: &Insn) -> Res {
    mul1(e, st, i, false)
}
fn imul(e: &mut Eng, st: &mut St, i: &Insn) -> Res {
    if i.ops.len() == 1 {
        return mul1(e, st, i, true);
    }
    let w = w_of(e, i);
    let (a, b) = if i.ops.len() == 3 {
        (e.get(st, &i.ops[1], w)?, e.get(st, &i.ops[2], w)?)
    } else {
        (e.get(st, &i.ops[0], w)?, e.get(st, &i.ops[1], w)?)
    };
    let r = match (&a, &b) {
        (V::C(x), V::C(y)) => V::C(x.wrapping_mul(*y) & m64(w)),
        _ => {
            let (p, q) = (a.bits(w as usize), b.bits(w as usize));
            V::mk(e.t.mul(w, &p, &q))
        }
    };
    e.put(st, &i.ops[0], w, r.clone())?;
    let of = match (&a, &b) {
        (V::C(x), V::C(y)) => {
            let p = (sx(*x, w) as i128) * (sx(*y, w) as i128);
            (p != sx(p as u64 & m64(w), w) as i128) as Bit
        }
        _ => F, // overflow flag of a symbolic signed product is not modelled (never consumed by compiled code here)
    };
    e.set_flags(st, FK::Explicit, w, V::C(0), V::C(0), F, r);
    st.f.cf = Some(of);
    st.f.of = Some(of);
    Ok(Flow::Next)
}
fn div(e: &mut Eng, st: &mut St, i: &Insn) -> Res {
    let w = w_of(e, i);
    let b = e.get(st, &i.ops[0], w)?;
    let s = (w / 8) as u8;
    let (lo, hi) = (e.getr(st, 0, s, false), e.getr(st, 2, s, false));
    if w == 8 {
        return Err(Stop::Err("8-bit div".into()));
    }
    let (b, lo, hi) = (e.conc(st, &b, w)?, e.conc(st, &lo, w)?, e.conc(st, &hi, w)?);
    if b == 0 {
        return Err(Stop::Event("fault", "division by zero".into()));
    }
    let n = ((hi as u128) << w) | lo as u128;
    let (q, r) = if i.aux == 0 {
        (n / b as u128, n % b as u128)
    } else {
        let n = if w == 64 { n as i128 } else { sx(n as u64, 2 * w) as i128 };
        let d = sx(b, w) as i128;
        ((n / d) as u128, (n % d) as u128)
    };
    e.setr(st, 0, s, false, V::C(q as u64 & m64(w)));
    e.setr(st, 2, s, false, V::C(r as u64 & m64(w)));
    Ok(Flow::Next)
}
/// aux 0 shl 1 shr 2 sar 3 rol 4 ror
fn shift(e: &mut Eng, st: &mut St, i: &Insn) -> Res {
    let w = w_of(e, i);
    let a = e.get(st, &i.ops[0], w)?;
    let n = if i.ops.len() > 1 { e.get(st, &i.ops[1], 8)? } else { V::C(1) };
    let msk = if w == 64 { 63 } else { 31 };
    let n = e.and(8, &n, &V::C(msk));
    let op = i.aux & 0xff;
    if let V::C(n) = n {
        let n = n as u32;
        if n == 0 {
            let v = a.clone();
            e.put(st, &i.ops[0], w, v)?;
            return Ok(Flow::Next);
        }
        let g = |v: &V, k: u32| match v {
            V::C(c) => ((c >> k) & 1) as Bit,
            V::S(b) => b.get(k as usize).copied().unwrap_or(F),
        };
        let (r, cf) = match op {
            0 => (e.shl_c(w, &a, n), if n <= w { g(&a, w - n) } else { F }),
            1 => (e.shr_c(w, &a, n), if n <= w { g(&a, n - 1) } else { F }),
            2 => (e.sar_c(w, &a, n), g(&a, (n - 1).min(w - 1))),
            3 => {
                let r = e.rol_c(w, &a, n % w);
                let c = g(&r, 0);
                (r, c)
            }
            _ => {
                let r = e.rol_c(w, &a, (w - n % w) % w);
                let c = g(&r, w - 1);
                (r, c)
            }
        };
        e.put(st, &i.ops[0], w, r.clone())?;
        let top = g(&r, w - 1);
        let of = match op {
            0 => e.t.xor(top, cf),
            1 => g(&a, w - 1),
            3 => e.t.xor(top, cf),
            4 => {
                let t2 = g(&r, w - 2);
                e.t.xor(top, t2)
            }
            _ => F,
        };
        if op < 3 {
            e.set_flags(st, FK::Logic, w, V::C(0), V::C(0), F, r);
        }
        st.f.cf = Some(cf);
        st.f.of = Some(of);
        return Ok(Flow::Next);
    }
    let r = var_shift(e, w, &a, &n, op);
    e.put(st, &i.ops[0], w, r.clone())?;
    // flags after a symbolic shift count: treated as unavailable except ZF/SF of the result
    if op < 3 {
        e.set_flags(st, FK::Logic, w, V::C(0), V::C(0), F, r);
    }
    Ok(Flow::Next)
}
pub fn var_shift(e: &mut Eng, w: u32, a: &V, n: &V, op: u32) -> V {
    let nb = n.bits(8);
    let mut r = a.clone();
    for (k, &c) in nb.iter().enumerate() {
        if c == F {
            continue;
        }
        let s = 1u32 << k;
        let sh = match op {
            0 => e.shl_c(w, &r, s),
            1 => e.shr_c(w, &r, s),
            2 => e.sar_c(w, &r, s),
            3 => e.rol_c(w, &r, s % w),
            _ => e.rol_c(w, &r, (w - s % w) % w),
        };
        r = e.mux(w, c, &sh, &r);
    }
    r
}
/// bmi2: aux 0 shlx 1 shrx 2 sarx
fn shiftx(e: &mut Eng, st: &mut St, i: &Insn) -> Res {
    let w = w_of(e, i);
    let a = e.get(st, &i.ops[1], w)?;
    let n = e.get(st, &i.ops[2], w)?;
    let n = e.and(8, &n.ext(0, 8), &V::C(if w == 64 { 63 } else { 31 }));
    let r = match n {
        V::C(n) => match i.aux {
            0 => e.shl_c(w, &a, n as u32),
            1 => e.shr_c(w, &a, n as u32),
            _ => e.sar_c(w, &a, n as u32),
        },
        _ => var_shift(e, w, &a, &n, i.aux),
    };
    e.put(st, &i.ops[0], w, r)?;
    Ok(Flow::Next)
}
fn rorx(e: &mut Eng, st: &mut St, i: &Insn) -> Res {
    let w = w_of(e, i);
    let a = e.get(st, &i.ops[1], w)?;
    let n = e.get(st, &i.ops[2], 8)?.c().unwrap() as u32 % w;
    let r = e.rol_c(w, &a, (w - n) % w);
    e.put(st, &i.ops[0], w, r)?;
    Ok(Flow::Next)
}
/// shld (0) shrd (1)
fn shdx(e: &mut Eng, st: &mut St, i: &Insn) -> Res {
    let w = w_of(e, i);
    let a = e.get(st, &i.ops[0], w)?;
    let b = e.get(st, &i.ops[1], w)?;
    let n = e.get(st, &i.ops[2], 8)?;
    let n = e.and(8, &n, &V::C(if w == 64 { 63 } else { 31 }));
    let r = match n {
        V::C(0) => a.clone(),
        V::C(n) => {
            let n = n as u32;
            if i.aux == 0 {
                let x = e.shl_c(w, &a, n);
                let y = e.shr_c(w, &b, w - n);
                e.or(w, &x, &y)
            } else {
                let x = e.shr_c(w, &a, n);
                let y = e.shl_c(w, &b, w - n);
                e.or(w, &x, &y)
            }
        }
        _ => {
            let nb = n.bits(6);
            // widen: concatenate and shift
            let (mut cat, take_hi) = if i.aux == 0 {
                let mut v = b.bits(w as usize);
                v.extend(a.bits(w as usize));
                (v, true)
            } else {
                let mut v = a.bits(w as usize);
                v.extend(b.bits(w as usize));
                (v, false)
            };
            let len = cat.len();
            for (k, &c) in nb.iter().enumerate() {
                let s = 1usize << k;
                let mut o = Vec::with_capacity(len);
                for j in 0..len {
                    let sh = if take_hi {
                        if j >= s { cat[j - s] } else { F }
                    } else if j + s < len {
                        cat[j + s]
                    } else {
                        F
                    };
                    o.push(e.t.mux(c, sh, cat[j]));
                }
                cat = o;
            }
            V::mk(if take_hi { cat[w as usize..].to_vec() } else { cat[..w as usize].to_vec() })
        }
    };
    e.put(st, &i.ops[0], w, r.clone())?;
    let cf = match n {
        V::C(0) => return Ok(Flow::Next),
        V::C(n) => {
            let k = if i.aux == 0 { w as u64 - n } else { n - 1 };
            a.bits(w as usize)[k as usize]
        }
        _ => F,
    };
    e.set_flags(st, FK::Logic, w, V::C(0), V::C(0), F, r);
    st.f.cf = Some(cf);
    Ok(Flow::Next)
}
fn bswap(e: &mut Eng, st: &mut St, i: &Insn) -> Res {
    let w = w_of(e, i);
    let a = e.get(st, &i.ops[0], w)?;
    let r = match a {
        V::C(c) => V::C(if w == 64 { c.swap_bytes() } else { (c as u32).swap_bytes() as u64 }),
        V::S(_) => {
            let v = a.bits(w as usize);
            let n = w as usize / 8;
            V::mk((0..w as usize).map(|k| v[(n - 1 - k / 8) * 8 + k % 8]).collect())
        }
    };
    e.put(st, &i.ops[0], w, r)?;
    Ok(Flow::Next)
}
fn movbe(e: &mut Eng, st: &mut St, i: &Insn) -> Res {
    let w = w_of(e, i);
    let a = e.get(st, &i.ops[1], w)?;
    let v = a.bits(w as usize);
    let n = w as usize / 8;
    let r = V::mk((0..w as usize).map(|k| v[(n - 1 - k / 8) * 8 + k % 8]).collect());
    e.put(st, &i.ops[0], w, r)?;
    Ok(Flow::Next)
}
fn xchg(e: &mut Eng, st: &mut St, i: &Insn) -> Res {
    let w = w_of(e, i);
    let a = e.get(st, &i.ops[0], w)?;
    let b = e.get(st, &i.ops[1], w)?;
    e.put(st, &i.ops[0], w, b)?;
    e.put(st, &i.ops[1], w, a)?;
    Ok(Flow::Next)
}
fn xadd(e: &mut Eng, st: &mut St, i: &Insn) -> Res {
    let w = w_of(e, i);
    let a = e.get(st, &i.ops[0], w)?;
    let b = e.get(st, &i.ops[1], w)?;
    let r = e.add(w, &a, &b);
    e.put(st, &i.ops[1], w, a.clone())?;
    e.put(st, &i.ops[0], w, r.clone())?;
    e.set_flags(st, FK::Add, w, a, b, F, r);
    Ok(Flow::Next)
}
fn cmpxchg(e: &mut Eng, st: &mut St, i: &Insn) -> Res {
    let w = w_of(e, i);
    let d = e.get(st, &i.ops[0], w)?;
    let a = e.getr(st, 0, (w / 8) as u8, false);
    let s = e.get(st, &i.ops[1], w)?;
    let eq = e.eqv(w, &a, &d);
    if eq > 1 {
        return Err(Stop::Err("symbolic cmpxchg".into()));
    }
    let r = e.sub(w, &a, &d);
    e.set_flags(st, FK::Sub, w, a, d.clone(), F, r);
    if eq == T {
        e.put(st, &i.ops[0], w, s)?;
    } else {
        e.setr(st, 0, (w / 8) as u8, false, d);
    }
    Ok(Flow::Next)
}
fn push(e: &mut Eng, st: &mut St, i: &Insn) -> Res {
    let mut v = e.get(st, &i.ops[0], 64)?;
    if let (Op::I(c), V::C(_)) = (&i.ops[0], &v) {
        v = V::C(*c);
    }
    e.push(st, v)?;
    Ok(Flow::Next)
}
fn pop(e: &mut Eng, st: &mut St, i: &Insn) -> Res {
    let v = e.pop(st)?;
    e.put(st, &i.ops[0], 64, v)?;
    Ok(Flow::Next)
}
fn leave(e: &mut Eng, st: &mut St, _i: &Insn) -> Res {
    st.r[4] = st.r[5].clone();
    st.r[5] = e.pop(st)?;
    Ok(Flow::Next)
}
fn target(e: &mut Eng, st: &mut St, i: &Insn) -> Result<u64, Stop> {
    let v = e.get(st, &i.ops[0], 64)?;
    e.conc(st, &v, 64)
}
fn call(e: &mut Eng, st: &mut St, i: &Insn) -> Res {
    let t = target(e, st, i)?;
    e.push(st, V::C(i.next))?;
    st.callstack.push(i.addr);
    Ok(Flow::Jump(t))
}
fn jmp(e: &mut Eng, st: &mut St, i: &Insn) -> Res {
    let t = target(e, st, i)?;
    Ok(Flow::Jump(t))
}
fn ret(e: &mut Eng, st: &mut St, _i: &Insn) -> Res {
    let v = e.pop(st)?;
    st.callstack.pop();
    match v {
        V::C(c) => Ok(Flow::Jump(c)),
        _ => Err(Stop::Event("fault", "symbolic return address".into())),
    }
}
fn jcc(e: &mut Eng, st: &mut St, i: &Insn) -> Res {
    let c = e.cc(st, i.aux & 0xff);
    let Op::I(t) = i.ops[0] else { return Err(Stop::Err("jcc".into())) };
    let n = i.next;
    let d = e.decide(st, c, |d| if d { t } else { n })?;
    Ok(if d { Flow::Jump(t) } else { Flow::Next })
}
fn jrcxz(e: &mut Eng, st: &mut St, i: &Insn) -> Res {
    let v = st.r[1].clone();
    let c = e.is_zero(64, &v);
    let Op::I(t) = i.ops[0] else { return Err(Stop::Err("jcc".into())) };
    let n = i.next;
    let d = e.decide(st, c, |d| if d { t } else { n })?;
    Ok(if d { Flow::Jump(t) } else { Flow::Next })
}
fn cmovcc(e: &mut Eng, st: &mut St, i: &Insn) -> Res {
    let w = w_of(e, i);
    let c = e.cc(st, i.aux & 0xff);
    let c = if c > 1 { e.subst(st, c) } else { c };
    let a = e.get(st, &i.ops[0], w)?;
    let b = e.get(st, &i.ops[1], w)?;
    let r = e.mux(w, c, &b, &a);
    e.put(st, &i.ops[0], w, r)?;
    Ok(Flow::Next)
}
fn setcc(e: &mut Eng, st: &mut St, i: &Insn) -> Res {
    let c = e.cc(st, i.aux & 0xff);
    let mut v = vec![F; 8];
    v[0] = c;
    e.put(st, &i.ops[0], 8, V::mk(v))?;
    Ok(Flow::Next)
}
/// aux 0 bt 1 bts 2 btr 3 btc
fn bt(e: &mut Eng, st: &mut St, i: &Insn) -> Res {
    let w = w_of(e, i);
    if let (Op::M(_), Op::R(..)) = (&i.ops[0], &i.ops[1]) {
        return Err(Stop::Err("bt mem,reg".into()));
    }
    let a = e.get(st, &i.ops[0], w)?;
    let n = e.get(st, &i.ops[1], w)?;
    let n = e.and(w, &n, &V::C(w as u64 - 1));
    let (bit, onehot) = match n {
        V::C(n) => {
            let b = a.bits(w as usize)[n as usize];
            (b, V::C(1u64 << n))
        }
        _ => {
            let s = var_shift(e, w, &a, &n.ext(0, 8), 1);
            let o = if i.aux == 0 { V::C(0) } else { var_shift(e, w, &V::C(1), &n.ext(0, 8), 0) };
            (s.bits(1)[0], o)
        }
    };
    let r = match i.aux {
        1 => e.or(w, &a, &onehot),
        2 => {
            let x = e.not(w, &onehot);
            e.and(w, &a, &x)
        }
        3 => e.xor(w, &a, &onehot),
        _ => a,
    };
    if i.aux != 0 {
        e.put(st, &i.ops[0], w, r)?;
    }
    // only CF is defined; ZF is preserved
    st.f.cf = Some(bit);
    Ok(Flow::Next)
}
/// aux 0 tzcnt 1 lzcnt 2 bsf 3 bsr 4 popcnt
fn bitcount(e: &mut Eng, st: &mut St, i: &Insn) -> Res {
    let w = w_of(e, i);
    let mut a = e.get(st, &i.ops[1], w)?;
    if let V::S(b) = &a {
        let b: Vec<Bit> = b.iter().map(|&x| st.known.get(&(x >> 1)).map_or(x, |&k| k as Bit ^ (x & 1))).collect();
        a = V::mk(b);
    }
    let z = e.is_zero(w, &a);
    let old = e.get(st, &i.ops[0], w)?;
    let r = match (&a, i.aux) {
        (V::C(c), 0) => V::C(if *c == 0 { w as u64 } else { c.trailing_zeros() as u64 }),
        (V::C(c), 1) => V::C(if *c == 0 { w as u64 } else { (c.leading_zeros() - (64 - w)) as u64 }),
        (V::C(c), 2) => if *c == 0 { old } else { V::C(c.trailing_zeros() as u64) },
        (V::C(c), 3) => if *c == 0 { old } else { V::C(63 - c.leading_zeros() as u64) },
        (V::C(c), _) => V::C(c.count_ones() as u64),
        (V::S(_), 4) => {
            let v = a.bits(w as usize);
            let lin: Vec<(u128, &[Bit])> = v.iter().map(|b| (1u128, std::slice::from_ref(b))).collect();
            V::mk(e.t.poly(w, 0, &lin))
        }
        (V::S(_), k) => {
            let v = a.bits(w as usize);
            let mut r = match k {
                0 | 1 => V::C(w as u64),
                _ => old,
            };
            for j in 0..w as usize {
                let (ix, val) = match k {
                    0 | 2 => (w as usize - 1 - j, (w as usize - 1 - j) as u64),
                    1 => (j, (w as usize - 1 - j) as u64),
                    _ => (j, j as u64),
                };
                r = e.mux(w, v[ix], &V::C(val), &r);
            }
            r
        }
    };
    e.put(st, &i.ops[0], w, r.clone())?;
    let rz = e.is_zero(w, &r);
    e.set_flags(st, FK::Logic, w, V::C(0), V::C(0), F, r);
    match i.aux {
        0 | 1 => {
            st.f.cf = Some(z);
            st.f.zf = Some(rz);
        }
        2 | 3 => st.f.zf = Some(z),
        _ => st.f.zf = Some(z),
    }
    Ok(Flow::Next)
}
/// 0 andn 1 blsr 2 blsi 3 blsmsk 4 bzhi 5 pext 6 pdep 7 bextr
fn bmi(e: &mut Eng, st: &mut St, i: &Insn) -> Res {
    let w = w_of(e, i);
    match i.aux {
        0 => {
            let a = e.get(st, &i.ops[1], w)?;
            let b = e.get(st, &i.ops[2], w)?;
            let na = e.not(w, &a);
            let r = e.and(w, &na, &b);
            e.put(st, &i.ops[0], w, r.clone())?;
            e.set_flags(st, FK::Logic, w, V::C(0), V::C(0), F, r);
        }
        1..=3 => {
            let a = e.get(st, &i.ops[1], w)?;
            let m1 = e.sub(w, &a, &V::C(1));
            let r = match i.aux {
                1 => e.and(w, &a, &m1),
                2 => {
                    let n = e.sub(w, &V::C(0), &a);
                    e.and(w, &a, &n)
                }
                _ => e.xor(w, &a, &m1),
            };
            let z = e.is_zero(w, &a);
            e.put(st, &i.ops[0], w, r.clone())?;
            e.set_flags(st, FK::Logic, w, V::C(0), V::C(0), F, r);
            st.f.cf = Some(if i.aux == 2 { z ^ 1 } else { z });
        }
        4 => {
            let a = e.get(st, &i.ops[1], w)?;
            let n = e.get(st, &i.ops[2], w)?;
            let n = e.conc(st, &n.ext(0, 8), 8)?;
            let r = if n < w as u64 { a.ext(0, n as usize) } else { a };
            let r = V::mk(r.bits(w as usize));
            e.put(st, &i.ops[0], w, r.clone())?;
            e.set_flags(st, FK::Logic, w, V::C(0), V::C(0), F, r);
            st.f.cf = Some((n >= w as u64) as Bit);
        }
        5 | 6 => {
            let a = e.get(st, &i.ops[1], w)?;
            let m = e.get(st, &i.ops[2], w)?;
            let m = e.conc(st, &m, w)?;
            let v = a.bits(w as usize);
            let mut r = vec![F; w as usize];
            let mut k = 0;
            for j in 0..w as usize {
                if (m >> j) & 1 == 1 {
                    if i.aux == 5 {
                        r[k] = v[j];
                    } else {
                        r[j] = v[k];
                    }
                    k += 1;
                }
            }
            e.put(st, &i.ops[0], w, V::mk(r))?;
        }
        _ => {
            let a = e.get(st, &i.ops[1], w)?;
            let c = e.get(st, &i.ops[2], w)?;
            let c = e.conc(st, &c, w)?;
            let (s, l) = ((c & 0xff) as usize, ((c >> 8) & 0xff) as usize);
            let v = a.bits(w as usize);
            let r: Vec<Bit> = (0..w as usize).map(|k| if k < l && k + s < w as usize { v[k + s] } else { F }).collect();
            let r = V::mk(r);
            e.put(st, &i.ops[0], w, r.clone())?;
            e.set_flags(st, FK::Logic, w, V::C(0), V::C(0), F, r);
        }
    }
    Ok(Flow::Next)
}
fn nop(_e: &mut Eng, _st: &mut St, _i: &Insn) -> Res {
    Ok(Flow::Next)
}
fn ud2(_e: &mut Eng, _st: &mut St, _i: &Insn) -> Res {
    Err(Stop::Event("panic", "trap (ud2)".into()))
}
fn flagop(e: &mut Eng, st: &mut St, i: &Insn) -> Res {
    let c = match i.aux {
        0 => F,
        1 => T,
        _ => e.cf(st) ^ 1,
    };
    st.f.cf = Some(c);
    Ok(Flow::Next)
}
/// 0 cdqe 1 cwde 2 cdq 3 cqo
fn cvt(e: &mut Eng, st: &mut St, i: &Insn) -> Res {
    match i.aux {
        0 => {
            let v = e.sext(&st.r[0].ext(0, 32), 32, 64);
            st.r[0] = v;
        }
        1 => {
            let v = e.sext(&st.r[0].ext(0, 16), 16, 32);
            e.setr(st, 0, 4, false, v);
        }
        2 => {
            let v = e.sext(&st.r[0].ext(0, 32), 32, 64).ext(32, 32);
            e.setr(st, 2, 4, false, v);
        }
        _ => {
            let v = e.sar_c(64, &st.r[0].clone(), 63);
            st.r[2] = v;
        }
    }
    Ok(Flow::Next)
}
/// string operations; aux low: size | 0x100 for movs (else stos)
fn strop(e: &mut Eng, st: &mut St, i: &Insn) -> Res {
    let sz = e.osize(&i.ops[0]) as u64;
    let rep = i.aux >> 16;
    let n = if rep != 0 {
        let c = st.r[1].clone();
        e.conc(st, &c, 64)?
    } else {
        1
    };
    let d = st.r[7].clone();
    let d = e.conc(st, &d, 64)?;
    if i.aux & 1 == 1 {
        let s = st.r[6].clone();
        let s = e.conc(st, &s, 64)?;
        for k in 0..n {
            let v = e.load(st, s + k * sz, sz as usize)?;
            e.store(st, d + k * sz, sz as usize, &v)?;
        }
        st.r[6] = V::C(s + n * sz);
    } else {
        let v = e.getr(st, 0, sz as u8, false);
        for k in 0..n {
            e.store(st, d + k * sz, sz as usize, &v)?;
        }
    }
    st.r[7] = V::C(d + n * sz);
    if rep != 0 {
        st.r[1] = V::C(0);
    }
    Ok(Flow::Next)
}
fn cpuid(e: &mut Eng, st: &mut St, _i: &Insn) -> Res {
    let (l, s) = (st.r[0].c().unwrap_or(0) as u32, st.r[1].c().unwrap_or(0) as u32);
    let has = |f: &str| !e.o.nofeat.iter().any(|x| x == f);
    let b = |f: &str, k: u32| if has(f) { 1u32 << k } else { 0 };
    let (a, bx, c, d): (u32, u32, u32, u32) = match l {
        0 => (0xd, 0x756e6547, 0x6c65746e, 0x49656e69),
        1 => (
            0x000806f8,
            0,
            b("sse3", 0) | b("pclmulqdq", 1) | b("ssse3", 9) | b("fma", 12) | b("cmpxchg16b", 13) | b("sse4.1", 19) | b("sse4.2", 20)
                | b("movbe", 22) | b("popcnt", 23) | b("aes", 25) | 1 << 26 | b("osxsave", 27) | b("avx", 28) | b("f16c", 29) | b("rdrand", 30),
            1 << 0 | 1 << 4 | 1 << 8 | 1 << 15 | 1 << 23 | 1 << 24 | 1 << 25 | 1 << 26,
        ),
        7 if s == 0 => (
            0,
            b("bmi1", 3) | b("avx2", 5) | b("bmi2", 8) | b("erms", 9) | b("avx512f", 16) | b("avx512dq", 17) | b("rdseed", 18) | b("adx", 19)
                | b("avx512ifma", 21) | b("avx512cd", 28) | b("sha", 29) | b("avx512bw", 30) | b("avx512vl", 31),
            b("avx512vbmi", 1) | b("avx512vbmi2", 6) | b("gfni", 8) | b("vaes", 9) | b("vpclmulqdq", 10) | b("avx512vnni", 11)
                | b("avx512bitalg", 12) | b("avx512vpopcntdq", 14),
            0,
        ),
        0xd if s == 0 => (0xe7, 0xa80, 0xa80, 0),
        0xd if s == 1 => (0xf, 0, 0, 0),
        0x8000_0000 => (0x8000_0008, 0, 0, 0),
        0x8000_0001 => (0, 0, 1 | b("lzcnt", 5) | 1 << 8, 1 << 11 | 1 << 20 | 1 << 26 | 1 << 27 | 1 << 29),
        _ => (0, 0, 0, 0),
    };
    st.r[0] = V::C(a as u64);
    st.r[3] = V::C(bx as u64);
    st.r[1] = V::C(c as u64);
    st.r[2] = V::C(d as u64);
    Ok(Flow::Next)
}
fn xgetbv(_e: &mut Eng, st: &mut St, _i: &Insn) -> Res {
    st.r[0] = V::C(0xe7);
    st.r[2] = V::C(0);
    Ok(Flow::Next)
}
fn cld(_e: &mut Eng, st: &mut St, _i: &Insn) -> Res {
    st.df = false;
    Ok(Flow::Next)
}

const CCS: [&[&str]; 16] = [
    &["o"],
    &["no"],
    &["b", "c", "nae"],
    &["ae", "nb", "nc"],
    &["e", "z"],
    &["ne", "nz"],
    &["be", "na"],
    &["a", "nbe"],
    &["s"],
    &["ns"],
    &["p", "pe"],
    &["np", "po"],
    &["l", "nge"],
    &["ge", "nl"],
    &["le", "ng"],
    &["g", "nle"],
];

pub fn lookup(mn: &str) -> Option<(Handler, u32)> {
    let h: (Handler, u32) = match mn {
        "mov" | "movabs" => (mov, 0),
        "movzx" => (movzx, 0),
        "movsx" | "movsxd" => (movsx, 0),
        "lea" => (lea, 0),
        "add" => (alu, 0),
        "or" => (alu, 1),
        "adc" => (alu, 2),
        "sbb" => (alu, 3),
        "and" => (alu, 4),
        "sub" => (alu, 5),
        "xor" => (alu, 6),
        "cmp" => (alu, 7),
        "test" => (alu, 8),
        "inc" => (incdec, 0),
        "dec" => (incdec, 1),
        "neg" => (neg, 0),
        "not" => (not, 0),
        "adcx" => (adx, 0),
        "adox" => (adx, 1),
        "mulx" => (mulx, 0),
        "mul" => (mul, 0),
        "imul" => (imul, 0),
        "div" => (div, 0),
        "idiv" => (div, 1),
        "shl" | "sal" => (shift, 0),
        "shr" => (shift, 1),
        "sar" => (shift, 2),
        "rol" => (shift, 3),
        "ror" => (shift, 4),
        "shlx" => (shiftx, 0),
        "shrx" => (shiftx, 1),
        "sarx" => (shiftx, 2),
        "rorx" => (rorx, 0),
        "shld" => (shdx, 0),
        "shrd" => (shdx, 1),
        "bswap" => (bswap, 0),
        "movbe" => (movbe, 0),
        "xchg" => (xchg, 0),
        "xadd" => (xadd, 0),
        "cmpxchg" => (cmpxchg, 0),
        "push" => (push, 0),
        "pop" => (pop, 0),
        "leave" => (leave, 0),
        "call" => (call, 0),
        "jmp" => (jmp, 0),
        "ret" => (ret, 0),
        "jrcxz" => (jrcxz, 0),
        "bt" => (bt, 0),
        "bts" => (bt, 1),
        "btr" => (bt, 2),
        "btc" => (bt, 3),
        "tzcnt" => (bitcount, 0),
        "lzcnt" => (bitcount, 1),
        "bsf" => (bitcount, 2),
        "bsr" => (bitcount, 3),
        "popcnt" => (bitcount, 4),
        "andn" => (bmi, 0),
        "blsr" => (bmi, 1),
        "blsi" => (bmi, 2),
        "blsmsk" => (bmi, 3),
        "bzhi" => (bmi, 4),
        "pext" => (bmi, 5),
        "pdep" => (bmi, 6),
        "bextr" => (bmi, 7),
        "nop" | "endbr64" | "pause" | "lfence" | "mfence" | "sfence" | "prefetcht0" | "prefetcht1" | "prefetcht2" | "prefetchnta" | "vzeroupper_" => (nop, 0),
        "ud2" | "hlt" | "int3" => (ud2, 0),
        "clc" => (flagop, 0),
        "stc" => (flagop, 1),
        "cmc" => (flagop, 2),
        "cdqe" => (cvt, 0),
        "cwde" => (cvt, 1),
        "cdq" => (cvt, 2),
        "cqo" => (cvt, 3),
        "stos" => (strop, 0),
        "movs" => (strop, 1),
        "cpuid" => (cpuid, 0),
        "xgetbv" => (xgetbv, 0),
        "cld" => (cld, 0),
        _ => {
            for (p, h) in [("j", jcc as Handler), ("cmov", cmovcc), ("set", setcc)] {
                if let Some(c) = mn.strip_prefix(p) {
                    if let Some(i) = CCS.iter().position(|x| x.contains(&c)) {
                        return Some((h, i as u32));
                    }
                }
            }
            return crate::vecops::lookup(mn);
        }
    };
    Some(h)
}
