//! SMT-LIB export and solver processes.
use crate::term::*;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::time::Instant;

pub enum Ans {
    Sat(Vec<(u32, bool)>),
    Unsat,
    Unknown,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub secs: f64,
}

struct Proc {
    child: Child,
    inp: ChildStdin,
    out: BufReader<ChildStdout>,
    bits: Set<u32>,
    words: Set<u32>,
    size: usize,
}

pub struct Smt {
    pub cuts: Set<u32>,
    proc_: Option<Proc>,
    cut: Option<Proc>,
    pub stats: Stats,
    pub z3: String,
}

fn bname(b: Bit) -> String {
    match b {
        F => "false".into(),
        T => "true".into(),
        _ => {
            if b & 1 == 1 {
                format!("(not b{})", b >> 1)
            } else {
                format!("b{}", b >> 1)
            }
        }
    }
}

fn bvexpr(t: &Terms, v: &[Bit], w: usize) -> String {
    // most significant first
    let mut parts: Vec<String> = vec![];
    let mut i = v.len();
    if w > v.len() {
        parts.push(format!("(_ bv0 {})", w - v.len()));
    }
    while i > 0 {
        let hi = i - 1;
        let b = v[hi];
        if b <= 1 {
            let mut lo = hi;
            while lo > 0 && v[lo - 1] <= 1 {
                lo -= 1;
            }
            let mut c: u128 = 0;
            for k in lo..=hi {
                c |= (v[k] as u128) << (k - lo);
            }
            parts.push(format!("(_ bv{} {})", c, hi - lo + 1));
            i = lo;
            continue;
        }
        if let (BN::Atom(wd, ix), 0) = (&t.bits[(b >> 1) as usize], b & 1) {
            let mut lo = hi;
            let mut ixl = *ix;
            while lo > 0 {
                let c = v[lo - 1];
                if c & 1 == 0 && c > 1 {
                    if let BN::Atom(w2, i2) = &t.bits[(c >> 1) as usize] {
                        if w2 == wd && *i2 + 1 == ixl {
                            ixl = *i2;
                            lo -= 1;
                            continue;
                        }
                    }
                }
                break;
            }
            parts.push(format!("((_ extract {} {}) w{})", ix, ixl, wd));
            i = lo;
            continue;
        }
        parts.push(format!("(ite {} #b1 #b0)", bname(b)));
        i = hi;
    }
    let mut e = parts[0].clone();
    if parts.len() > 1 {
        e = format!("(concat {})", parts.join(" "));
    }
    e
}

pub struct Emit<'a> {
    pub t: &'a Terms,
    pub out: String,
    pub vars: Vec<(u32, u32)>, // (var, node)
}

impl<'a> Emit<'a> {
    fn kids(&self, n: u32) -> Vec<u32> {
        match &self.t.bits[n as usize] {
            BN::Const | BN::Var(_) => vec![],
            BN::Xor(v) | BN::And(v) => v.iter().map(|b| b >> 1).collect(),
            BN::Atom(w, _) => {
                let mut r = vec![];
                for id in self.t.word_children(*w) {
                    for &b in self.t.bvs[id as usize].iter() {
                        if b > 1 {
                            r.push(b >> 1);
                        }
                    }
                }
                r
            }
        }
    }
    /// emits definitions of everything under `roots` not in `bits`/`words`
    pub fn cone(&mut self, roots: &[Bit], bits: &mut Set<u32>, words: &mut Set<u32>) {
        self.cone_cut(roots, bits, words, None)
    }
    pub fn cone_cut(&mut self, roots: &[Bit], bits: &mut Set<u32>, words: &mut Set<u32>, inner: Option<&Set<u32>>) {
        self.cone_gen(roots, bits, words, |n| inner.is_some_and(|i| !i.contains(&n)))
    }
    /// nodes for which `free` holds are left unconstrained
    pub fn cone_gen(&mut self, roots: &[Bit], bits: &mut Set<u32>, words: &mut Set<u32>, free: impl Fn(u32) -> bool) {
        use std::fmt::Write;
        let mut stack: Vec<(u32, bool)> = roots.iter().filter(|&&b| b > 1).map(|b| (b >> 1, false)).collect();
        while let Some((n, done)) = stack.pop() {
            if bits.contains(&n) {
                continue;
            }
            {
                if free(n) {
                    bits.insert(n);
                    match &self.t.bits[n as usize] {
                        BN::Atom(w, k) => {
                            if words.insert(*w) {
                                writeln!(self.out, "(declare-const w{} (_ BitVec {}))", w, self.t.atom_bits(*w).len()).unwrap();
                            }
                            writeln!(self.out, "(define-fun b{} () Bool (= ((_ extract {} {}) w{}) #b1))", n, k, k, w).unwrap();
                        }
                        _ => writeln!(self.out, "(declare-const b{} Bool)", n).unwrap(),
                    }
                    continue;
                }
            }
            if !done {
                if let BN::Atom(w, _) = &self.t.bits[n as usize] {
                    if words.contains(w) {
                        stack.push((n, true));
                        continue;
                    }
                }
                stack.push((n, true));
                for k in self.kids(n) {
                    if k != 0 && !bits.contains(&k) {
                        stack.push((k, false));
                    }
                }
                continue;
            }
            bits.insert(n);
            match &self.t.bits[n as usize] {
                BN::Const => {}
                BN::Var(_) => {
                    writeln!(self.out, "(declare-const b{} Bool)", n).unwrap();
                }
                BN::Xor(v) => {
                    let mut s = bname(v[0]);
                    for &b in &v[1..] {
                        s = format!("(xor {} {})", s, bname(b));
                    }
                    writeln!(self.out, "(define-fun b{} () Bool {})", n, s).unwrap();
                }
                BN::And(v) => {
                    let s: Vec<String> = v.iter().map(|&b| bname(b)).collect();
                    writeln!(self.out, "(define-fun b{} () Bool (and {}))", n, s.join(" ")).unwrap();
                }
                BN::Atom(w, i) => {
                    if words.insert(*w) {
                        self.word(*w);
                    }
                    writeln!(self.out, "(define-fun b{} () Bool (= ((_ extract {} {}) w{}) #b1))", n, i, i, w).unwrap();
                }
            }
        }
    }
    fn word(&mut self, w: u32) {
        use std::fmt::Write;
        let t = self.t;
        match &t.words[w as usize] {
            WN::Poly { width, cst, terms, .. } => {
                let wd = *width as usize;
                let mut parts: Vec<String> = vec![];
                if *cst != 0 {
                    parts.push(format!("(_ bv{} {})", cst, wd));
                }
                for m in terms {
                    let mut fs: Vec<String> = vec![];
                    for &f in &m.factors {
                        let v = &t.bvs[f as usize];
                        let v: Vec<Bit> = v.iter().copied().take(wd).collect();
                        fs.push(bvexpr(t, &v, wd));
                    }
                    let msk = if wd >= 128 { u128::MAX } else { (1u128 << wd) - 1 };
                    let mut e = fs[0].clone();
                    for f in &fs[1..] {
                        e = format!("(bvmul {} {})", e, f);
                    }
                    if m.coef == msk {
                        e = format!("(bvneg {})", e);
                    } else if m.coef != 1 {
                        e = format!("(bvmul {} (_ bv{} {}))", e, m.coef & msk, wd);
                    }
                    parts.push(e);
                }
                let mut e = parts[0].clone();
                for p in &parts[1..] {
                    e = format!("(bvadd {} {})", e, p);
                }
                writeln!(self.out, "(define-fun w{} () (_ BitVec {}) {})", w, wd, e).unwrap();
            }
            WN::Ult(a, b) => {
                let (x, y) = (&t.bvs[*a as usize], &t.bvs[*b as usize]);
                let n = x.len().max(y.len());
                writeln!(
                    self.out,
                    "(define-fun w{} () (_ BitVec 1) (ite (bvult {} {}) #b1 #b0))",
                    w,
                    bvexpr(t, x, n),
                    bvexpr(t, y, n)
                )
                .unwrap();
            }
            WN::Sbox(a) => {
                // balanced multiplexer over the table
                let e = bvexpr(t, &t.bvs[*a as usize], 8);
                let mut s = format!("(let ((x {})) ", e);
                for i in 0..8 {
                    s += &format!("(let ((x{i} (= ((_ extract {i} {i}) x) #b1))) ");
                }
                fn tree(tab: &[u8; 256], base: usize, bit: i32) -> String {
                    if bit < 0 {
                        return format!("#x{:02x}", tab[base]);
                    }
                    let h = tree(tab, base | (1 << bit), bit - 1);
                    let l = tree(tab, base, bit - 1);
                    format!("(ite x{} {} {})", bit, h, l)
                }
                s += &tree(&t.sbox, 0, 7);
                s += &")".repeat(9);
                writeln!(self.out, "(define-fun w{} () (_ BitVec 8) {})", w, s).unwrap();
            }
            WN::Uf(..) => {
                writeln!(self.out, "(declare-const w{} (_ BitVec 64))", w).unwrap();
            }
        }
    }
}

/// number of term nodes below `roots`, counting up to `max`
pub fn cone_size(t: &Terms, roots: &[Bit], max: usize) -> usize {
    let mut seen: Set<u32> = Set::default();
    let mut wseen: Set<u32> = Set::default();
    let mut st: Vec<u32> = roots.iter().filter(|&&b| b > 1).map(|b| b >> 1).collect();
    while let Some(n) = st.pop() {
        if n == 0 || !seen.insert(n) {
            continue;
        }
        if seen.len() >= max {
            return max;
        }
        match &t.bits[n as usize] {
            BN::Const | BN::Var(_) => {}
            BN::Xor(v) | BN::And(v) => st.extend(v.iter().map(|b| b >> 1)),
            BN::Atom(w, _) => {
                if wseen.insert(*w) {
                    for id in t.word_children(*w) {
                        st.extend(t.bvs[id as usize].iter().map(|b| b >> 1));
                    }
                }
            }
        }
    }
    seen.len()
}

pub fn support(t: &Terms, roots: &[Bit]) -> Vec<(u32, u32)> {
    let mut seen: Set<u32> = Set::default();
    let mut st: Vec<u32> = roots.iter().filter(|&&b| b > 1).map(|b| b >> 1).collect();
    let mut r = vec![];
    let mut wseen: Set<u32> = Set::default();
    while let Some(n) = st.pop() {
        if n == 0 || !seen.insert(n) {
            continue;
        }
        match &t.bits[n as usize] {
            BN::Const => {}
            BN::Var(v) => r.push((*v, n)),
            BN::Xor(v) | BN::And(v) => st.extend(v.iter().map(|b| b >> 1)),
            BN::Atom(w, _) => {
                if wseen.insert(*w) {
                    for id in t.word_children(*w) {
                        st.extend(t.bvs[id as usize].iter().map(|b| b >> 1));
                    }
                }
            }
        }
    }
    r
}

fn spawn(z3: &str) -> Proc {
    let mut child = Command::new(z3)
        .arg("-in")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("cannot start z3");
    let inp = child.stdin.take().unwrap();
    let out = BufReader::new(child.stdout.take().unwrap());
    Proc { child, inp, out, bits: Set::default(), words: Set::default(), size: 0 }
}

impl Smt {
    pub fn new() -> Smt {
        Smt { cuts: Set::default(), proc_: None, cut: None, stats: Stats::default(), z3: std::env::var("SYMEX_Z3").unwrap_or("z3-new".into()) }
    }

    fn start(&mut self) {
        self.proc_ = Some(spawn(&self.z3));
    }
    pub fn stop(&mut self) {
        if let Some(mut p) = self.proc_.take() {
            let _ = p.child.kill();
            let _ = p.child.wait();
        }
    }
    pub fn stop_all(&mut self) {
        self.stop();
        if let Some(mut p) = self.cut.take() {
            let _ = p.child.kill();
            let _ = p.child.wait();
        }
    }

    /// are two literals equal whatever the values at a local cut of their cones?
    pub fn equal_cut(&mut self, t: &Terms, a: Bit, b: Bit) -> bool {
        let mut prev = 0;
        for (nw, nb) in [(2usize, 200usize), (8, 600), (24, 2000)] {
            // expand newest nodes first; whole words at a time
            let mut heap: std::collections::BinaryHeap<u32> = [a, b].iter().filter(|&&x| x > 1).map(|x| x >> 1).collect();
            let mut inner: Set<u32> = Set::default();
            let mut wexp: Set<u32> = Set::default();
            let mut seen: Set<u32> = heap.iter().copied().collect();
            let mut full = true;
            while let Some(n) = heap.pop() {
                let push = |x: u32, heap: &mut std::collections::BinaryHeap<u32>, seen: &mut Set<u32>| {
                    if x != 0 && seen.insert(x) {
                        heap.push(x);
                    }
                };
                match &t.bits[n as usize] {
                    BN::Const | BN::Var(_) => {
                        inner.insert(n);
                    }
                    BN::Xor(v) | BN::And(v) => {
                        if inner.len() > nb {
                            full = false;
                            continue;
                        }
                        inner.insert(n);
                        for x in v.iter() {
                            push(x >> 1, &mut heap, &mut seen);
                        }
                    }
                    BN::Atom(w, _) => {
                        if !wexp.contains(w) {
                            if wexp.len() >= nw || inner.len() > nb {
                                full = false;
                                continue;
                            }
                            wexp.insert(*w);
                        }
                        inner.insert(n);
                        for id in t.word_children(*w) {
                            for &x in t.bvs[id as usize].iter() {
                                push(x >> 1, &mut heap, &mut seen);
                            }
                        }
                    }
                }
            }
            // all bits of an expanded word are inner
            for &w in &wexp {
                for x in t.atom_bits(w) {
                    inner.insert(x >> 1);
                }
            }
            if inner.len() == prev {
                continue;
            }
            prev = inner.len();
            let t0 = Instant::now();
            if self.cut.is_none() {
                self.cut = Some(spawn(&self.z3));
            }
            let mut e = Emit { t, out: String::from("(push 1)\n"), vars: vec![] };
            e.cone_cut(&[a, b], &mut Set::default(), &mut Set::default(), Some(&inner));
            let mut s = e.out;
            s += &format!("(set-option :timeout 1000)\n(assert (xor {} {}))\n(check-sat)\n(pop 1)\n", bname(a), bname(b));
            let p = self.cut.as_mut().unwrap();
            let mut ans = String::new();
            if p.inp.write_all(s.as_bytes()).is_ok() && p.inp.flush().is_ok() {
                loop {
                    let mut line = String::new();
                    if p.out.read_line(&mut line).unwrap_or(0) == 0 {
                        break;
                    }
                    let l = line.trim();
                    if l == "sat" || l == "unsat" || l == "unknown" {
                        ans = l.to_string();
                        break;
                    }
                    if l.starts_with("(error") {
                        eprintln!("z3: {} in\n{}", l, &s[..s.len().min(2000)]);
                        break;
                    }
                }
            }
            p.size += s.len();
            if ans.is_empty() || p.size > 20_000_000 {
                let mut p = self.cut.take().unwrap();
                let _ = p.child.kill();
                let _ = p.child.wait();
            }
            let r = match ans.as_str() {
                "unsat" => Ans::Unsat,
                "sat" => Ans::Sat(vec![]),
                _ => Ans::Unknown,
            };
            self.account(&r, t0);
            match r {
                Ans::Unsat => return true,
                Ans::Sat(_) if full => return false,
                Ans::Unknown => return false,
                _ => {}
            }
        }
        false
    }

    /// incremental query: is the conjunction of `lits` satisfiable?
    pub fn check(&mut self, t: &Terms, lits: &[Bit], timeout_ms: u64) -> Ans {
        if lits.iter().any(|&b| b == F) {
            return Ans::Unsat;
        }
        let t0 = Instant::now();
        if self.proc_.as_ref().map_or(false, |p| p.size > 60_000_000) {
            self.stop();
        }
        if self.proc_.is_none() {
            self.start();
        }
        let vars = support(t, lits);
        let r = self.check_inner(t, lits, timeout_ms, &vars);
        self.account(&r, t0);
        r
    }

    fn account(&mut self, r: &Ans, t0: Instant) {
        self.stats.queries += 1;
        self.stats.secs += t0.elapsed().as_secs_f64();
        match r {
            Ans::Sat(_) => self.stats.sat += 1,
            Ans::Unsat => self.stats.unsat += 1,
            Ans::Unknown => self.stats.unknown += 1,
        }
    }

    fn check_inner(&mut self, t: &Terms, lits: &[Bit], timeout_ms: u64, vars: &[(u32, u32)]) -> Ans {
        let p = self.proc_.as_mut().unwrap();
        let mut e = Emit { t, out: String::new(), vars: vec![] };
        e.cone(lits, &mut p.bits, &mut p.words);
        let mut s = e.out;
        s += &format!("(set-option :timeout {})\n(push 1)\n", timeout_ms);
        for &l in lits {
            s += &format!("(assert {})\n", bname(l));
        }
        s += "(check-sat)\n";
        p.size += s.len();
        if p.inp.write_all(s.as_bytes()).is_err() || p.inp.flush().is_err() {
            self.stop();
            return Ans::Unknown;
        }
        let ans = loop {
            let mut line = String::new();
            if p.out.read_line(&mut line).unwrap_or(0) == 0 {
                self.stop();
                return Ans::Unknown;
            }
            let l = line.trim();
            if l == "sat" || l == "unsat" || l == "unknown" {
                break l.to_string();
            }
            if l.starts_with("(error") {
                eprintln!("z3: {}", l);
                self.stop();
                return Ans::Unknown;
            }
        };
        let mut res = Ans::Unknown;
        if ans == "unsat" {
            res = Ans::Unsat;
        }
        if ans == "sat" {
            let mut vals = vec![];
            for ch in vars.chunks(200) {
                let names: Vec<String> = ch.iter().map(|v| format!("b{}", v.1)).collect();
                let q = format!("(get-value ({}))\n(echo \"@@\")\n", names.join(" "));
                if p.inp.write_all(q.as_bytes()).is_err() || p.inp.flush().is_err() {
                    self.stop();
                    return Ans::Unknown;
                }
                let mut txt = String::new();
                loop {
                    let mut line = String::new();
                    if p.out.read_line(&mut line).unwrap_or(0) == 0 {
                        self.stop();
                        return Ans::Unknown;
                    }
                    if line.trim() == "@@" {
                        break;
                    }
                    txt += &line;
                }
                parse_values(&txt, ch, &mut vals);
            }
            res = Ans::Sat(vals);
        }
        let p = self.proc_.as_mut().unwrap();
        let _ = p.inp.write_all(b"(pop 1)\n");
        res
    }

    /// one-shot query with a fresh solver process (uses the solver's full preprocessing)
    pub fn check_once(&mut self, t: &Terms, lits: &[Bit], timeout_s: u64, solver: &str) -> Ans {
        self.check_with(t, lits, timeout_s, solver, false)
    }
    /// cuts: with the registered cut points unconstrained; only Unsat means something then
    pub fn check_with(&mut self, t: &Terms, lits: &[Bit], timeout_s: u64, solver: &str, cuts: bool) -> Ans {
        if lits.iter().any(|&b| b == F) {
            return Ans::Unsat;
        }
        let t0 = Instant::now();
        let vars = if cuts { vec![] } else { support(t, lits) };
        let mut e = Emit { t, out: String::new(), vars: vec![] };
        let (mut b, mut w) = (Set::default(), Set::default());
        e.out.push_str("(set-option :produce-models true)\n(set-logic QF_BV)\n");
        e.cone_gen(lits, &mut b, &mut w, |n| cuts && self.cuts.contains(&n));
        let mut s = e.out;
        for &l in lits {
            s += &format!("(assert {})\n", bname(l));
        }
        s += "(check-sat)\n";
        if !vars.is_empty() {
            let names: Vec<String> = vars.iter().map(|v| format!("b{}", v.1)).collect();
            s += &format!("(get-value ({}))\n", names.join(" "));
        }
        let args: Vec<String> = if solver.contains("cvc5") {
            vec![format!("--tlimit={}", timeout_s * 1000), "--lang=smt2".into()]
        } else {
            vec!["-in".into(), format!("-T:{}", timeout_s), "-memory:6000".into()]
        };
        if let Ok(d) = std::env::var("SYMEX_DUMP") {
            let _ = std::fs::write(format!("{}/q{}.smt2", d, self.stats.queries), &s);
        }
        let mut child = match Command::new(solver).args(&args).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn() {
            Ok(c) => c,
            Err(_) => return Ans::Unknown,
        };
        let mut inp = child.stdin.take().unwrap();
        let h = std::thread::spawn(move || {
            let _ = inp.write_all(s.as_bytes());
        });
        let mut txt = String::new();
        let _ = std::io::Read::read_to_string(&mut child.stdout.take().unwrap(), &mut txt);
        let _ = child.wait();
        let _ = h.join();
        let first = txt.lines().map(|l| l.trim()).find(|l| *l == "sat" || *l == "unsat" || *l == "unknown" || *l == "timeout").unwrap_or("");
        let r = match first {
            "unsat" => Ans::Unsat,
            "sat" => {
                let mut vals = vec![];
                let body = txt.splitn(2, "sat").nth(1).unwrap_or("");
                parse_values(body, &vars, &mut vals);
                if vals.len() == vars.len() && !cuts { Ans::Sat(vals) } else { Ans::Unknown }
            }
            _ => Ans::Unknown,
        };
        self.account(&r, t0);
        r
    }
}

fn parse_values(txt: &str, vars: &[(u32, u32)], vals: &mut Vec<(u32, bool)>) {
    let mut m: Map<u32, u32> = Map::default();
    for (v, n) in vars {
        m.insert(*n, *v);
    }
    let toks: Vec<&str> = txt.split(|c: char| c == '(' || c == ')' || c.is_whitespace()).filter(|s| !s.is_empty()).collect();
    let mut i = 0;
    while i + 1 < toks.len() {
        if let Some(n) = toks[i].strip_prefix('b').and_then(|x| x.parse::<u32>().ok()) {
            if let Some(&v) = m.get(&n) {
                if toks[i + 1] == "true" || toks[i + 1] == "false" {
                    vals.push((v, toks[i + 1] == "true"));
                    i += 2;
                    continue;
                }
            }
        }
        i += 1;
    }
}

impl Drop for Smt {
    fn drop(&mut self) {
        self.stop();
    }
}
