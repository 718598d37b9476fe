//! Bit-level term store.
//!
//! A value is a vector of bit references. A bit reference is `node*2 + negated`.
//! Bits are boolean functions (n-ary XOR / n-ary AND over literals) of leaves; leaves are input
//! variables and output bits of word-level operators (polynomials modulo 2^w, comparisons, the AES S-box).
//! Everything is hash-consed, so a rotation/shuffle/extension is free and two computations that agree
//! modulo GF(2)-linear algebra and modulo ring laws of Z/2^w get the same reference.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

pub type Bit = u32;
pub const F: Bit = 0;
pub const T: Bit = 1;

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
    fn write(&mut self, b: &[u8]) {
        let mut i = 0;
        while i + 8 <= b.len() {
            self.write_u64(u64::from_le_bytes(b[i..i + 8].try_into().unwrap()));
            i += 8;
        }
        while i < b.len() {
            self.write_u64(b[i] as u64);
            i += 1;
        }
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u128(&mut self, x: u128) {
        self.write_u64(x as u64);
        self.write_u64((x >> 64) as u64)
    }
}
pub type Map<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;
pub type Set<K> = std::collections::HashSet<K, BuildHasherDefault<Fx>>;

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum BN {
    Const,
    Var(u32),
    Atom(u32, u32),
    /// sorted, positive references
    Xor(Box<[Bit]>),
    /// sorted literals
    And(Box<[Bit]>),
}

pub type BvId = u32;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Mono {
    pub factors: Vec<BvId>, // sorted
    pub coef: u128,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum WN {
    /// sum of monomials + constant, modulo 2^width
    Poly { width: u32, cst: u128, exact: bool, terms: Vec<Mono> },
    Ult(BvId, BvId),
    Sbox(BvId),
    /// uninterpreted
    Uf(u32, BvId, u32),
}

#[derive(Clone, Copy)]
struct Small {
    n: u8,
    tt: u16,
    leaves: [u32; 4], // node ids, sorted, positive
}

pub struct Terms {
    pub bits: Vec<BN>,
    pub sig: Vec<u64>,
    /// variables by their simulation values
    varsig: Map<u64, Bit>,
    small: Vec<Small>,
    small_map: Map<([u32; 4], u16), Bit>,
    bmap: Map<BN, u32>,
    pub words: Vec<WN>,
    wmap: Map<WN, u32>,
    pub bvs: Vec<Box<[Bit]>>,
    bvmap: Map<Box<[Bit]>, BvId>,
    pub rng: Rng,
    pub nvars: u32,
    pub sbox: [u8; 256],
    pub xor_limit: usize,
    pub flat_limit: usize,
    simmap: Map<(u32, u64), Vec<u32>>,
    wmax: Map<u32, u128>,
    wsext: Set<u32>,
    pub anf: bool,
    level: Vec<u16>,
    mixed: Vec<bool>,
    pub lin_merges: u64,
    pub lin_fails: u64,
    /// node is a XOR with an AND among its terms
    has_and: Vec<bool>,
}

fn mask(w: u32) -> u128 {
    if w >= 128 { u128::MAX } else { (1u128 << w) - 1 }
}

fn aes_sbox() -> [u8; 256] {
    let mut s = [0u8; 256];
    let (mut p, mut q) = (1u8, 1u8);
    loop {
        p = p ^ (p << 1) ^ (if p & 0x80 != 0 { 0x1b } else { 0 });
        q ^= q << 1;
        q ^= q << 2;
        q ^= q << 4;
        if q & 0x80 != 0 {
            q ^= 0x09;
        }
        s[p as usize] = q ^ q.rotate_left(1) ^ q.rotate_left(2) ^ q.rotate_left(3) ^ q.rotate_left(4) ^ 0x63;
        if p == 1 {
            break;
        }
    }
    s[0] = 0x63;
    s
}

const TTV: [u16; 4] = [0xaaaa, 0xcccc, 0xf0f0, 0xff00];

impl Terms {
    pub fn new(seed: u64) -> Terms {
        let mut t = Terms {
            bits: vec![BN::Const],
            sig: vec![0],
            varsig: Map::default(),
            small: vec![Small { n: 0, tt: 0, leaves: [0; 4] }],
            small_map: Map::default(),
            bmap: Map::default(),
            words: vec![],
            wmap: Map::default(),
            bvs: vec![],
            bvmap: Map::default(),
            rng: Rng(seed ^ 0x5eed),
            nvars: 0,
            sbox: aes_sbox(),
            xor_limit: 16,
            flat_limit: std::env::var("SYMEX_FLAT").ok().and_then(|s| s.parse().ok()).unwrap_or(6),
            simmap: Map::default(),
            wmax: Map::default(),
            wsext: Set::default(),
            anf: false,
            level: vec![0],
            mixed: vec![false],
            lin_merges: 0,
            lin_fails: 0,
            has_and: vec![false],
        };
        t.bmap.insert(BN::Const, 0);
        t
    }

    pub fn sigof(&self, b: Bit) -> u64 {
        self.sig[(b >> 1) as usize] ^ 0u64.wrapping_sub((b & 1) as u64)
    }

    fn push_bit(&mut self, n: BN, sig: u64, small: Option<Small>) -> Bit {
        if let Some(&i) = self.bmap.get(&n) {
            return i << 1;
        }
        let id = self.bits.len() as u32;
        if id >= (1 << 31) - 1 {
            panic!("term store full");
        }
        let ha = match &n {
            BN::Xor(v) => v.iter().any(|&b| match &self.bits[(b >> 1) as usize] {
                BN::And(_) => true,
                BN::Xor(_) => true,
                _ => false,
            }),
            _ => false,
        };
        self.has_and.push(ha);
        if self.anf {
            let lv = |b: &Bit| self.level[(b >> 1) as usize];
            let (l, m) = match &n {
                BN::Xor(v) => {
                    let hi = v.iter().map(lv).max().unwrap_or(0);
                    (hi, v.iter().map(lv).any(|x| x != hi))
                }
                BN::And(v) => (1 + v.iter().map(lv).max().unwrap_or(0), false),
                _ => (0, false),
            };
            self.level.resize(id as usize + 1, 0);
            self.mixed.resize(id as usize + 1, false);
            self.level[id as usize] = l;
            self.mixed[id as usize] = m;
        }
        self.bmap.insert(n.clone(), id);
        self.bits.push(n);
        self.sig.push(sig);
        self.small.push(small.unwrap_or(Small { n: 1, tt: 0xaaaa, leaves: [id, 0, 0, 0] }));
        id << 1
    }

    pub fn var(&mut self) -> Bit {
        let v = self.nvars;
        self.nvars += 1;
        let s = (self.rng.next() & !3) | 2; // pattern 0: all zero, pattern 1: all one
        let b = self.push_bit(BN::Var(v), s, None);
        self.varsig.insert(s, b);
        b
    }

    // ---- small functions (truth tables over at most 4 leaves)

    fn small_of(&self, b: Bit) -> Small {
        let mut s = self.small[(b >> 1) as usize];
        if b & 1 == 1 {
            s.tt = !s.tt;
        }
        s
    }

    fn small_merge(a: &Small, b: &Small) -> Option<([u32; 4], usize, u16, u16)> {
        let mut l = [0u32; 4];
        let mut n = 0;
        let (mut i, mut j) = (0, 0);
        while i < a.n as usize || j < b.n as usize {
            let x = if i < a.n as usize { a.leaves[i] } else { u32::MAX };
            let y = if j < b.n as usize { b.leaves[j] } else { u32::MAX };
            if n == 4 {
                return None;
            }
            l[n] = x.min(y);
            n += 1;
            if x <= y {
                i += 1;
            }
            if y <= x {
                j += 1;
            }
        }
        let ex = |s: &Small| -> u16 {
            if s.n == 0 {
                return s.tt;
            }
            let mut pos = [0usize; 4];
            for k in 0..s.n as usize {
                pos[k] = l[..n].iter().position(|&z| z == s.leaves[k]).unwrap();
            }
            let mut tt = 0u16;
            for m in 0..16 {
                let mut idx = 0;
                for k in 0..s.n as usize {
                    idx |= ((m >> pos[k]) & 1) << k;
                }
                tt |= ((s.tt >> idx) & 1) << m;
            }
            tt
        };
        Some((l, n, ex(a), ex(b)))
    }

    /// canonical bit for truth table tt over leaves l[..n]; None if it must be built by the caller
    fn small_norm(l: [u32; 4], n: usize, tt: u16) -> Small {
        let mut s = Small { n: 0, tt: 0, leaves: [0; 4] };
        // keep leaves on which tt depends
        let mut keep = vec![];
        for k in 0..n {
            let sh = 1 << k;
            let v = TTV[k];
            let hi = (tt & v) >> sh;
            let lo = tt & !v;
            if hi != lo {
                keep.push(k);
            }
        }
        for (i, &k) in keep.iter().enumerate() {
            s.leaves[i] = l[k];
        }
        s.n = keep.len() as u8;
        let mut o = 0u16;
        for m in 0..16usize {
            let mut idx = 0;
            for (i, &k) in keep.iter().enumerate() {
                idx |= ((m >> i) & 1) << k;
            }
            o |= ((tt >> idx) & 1) << m;
        }
        s.tt = o;
        s
    }

    fn small_bit(&mut self, s: Small) -> Bit {
        if s.n == 0 {
            return if s.tt & 1 == 1 { T } else { F };
        }
        if s.n == 1 {
            let b = s.leaves[0] << 1;
            return if s.tt & 1 == 1 { b ^ 1 } else { b };
        }
        let neg = s.tt & 1 == 1;
        let tt = if neg { !s.tt } else { s.tt };
        if let Some(&b) = self.small_map.get(&(s.leaves, tt)) {
            return b ^ neg as u32;
        }
        // algebraic normal form
        let mut anf = tt;
        for k in 0..4 {
            anf ^= (anf & !TTV[k]) << (1 << k);
        }
        let leaf = |k: usize| s.leaves[k] << 1;
        let pos = Small { n: s.n, tt, leaves: s.leaves };
        let mut monos: Vec<Bit> = vec![];
        let cnt = anf.count_ones();
        let r;
        if cnt <= 4 {
            for m in 1..16usize {
                if (anf >> m) & 1 == 1 {
                    let mut ls: Vec<Bit> = (0..4).filter(|k| (m >> k) & 1 == 1).map(leaf).collect();
                    if ls.len() == 1 {
                        monos.push(ls[0]);
                    } else {
                        ls.sort_unstable();
                        let mm = m;
                        // truth table of the monomial over its own leaves
                        let n = ls.len();
                        let mut t2 = 0u16;
                        for x in 0..16usize {
                            if x & ((1 << n) - 1) == (1 << n) - 1 {
                                t2 |= 1 << x;
                            }
                        }
                        let mut lv = [0u32; 4];
                        for (i, b) in ls.iter().enumerate() {
                            lv[i] = b >> 1;
                        }
                        let sm = Small { n: n as u8, tt: t2, leaves: lv };
                        let _ = mm;
                        monos.push(self.mono_node(ls, sm));
                    }
                }
            }
            if monos.len() == 1 {
                r = monos[0];
            } else {
                let mut flat = vec![];
                let mut neg2 = false;
                for &m in &monos {
                    // leaves can be opaque XORs: keep them as leaves
                    self.xor_push(m, &mut flat, &mut neg2);
                }
                r = self.xor_finish(flat, neg2, Some(pos));
            }
        } else {
            // and/or form by Shannon expansion on the last leaf
            let k = s.n as usize - 1;
            let v = TTV[k];
            let hi16 = (tt & v) | ((tt & v) >> (1 << k));
            let lo16 = (tt & !v) | ((tt & !v) << (1 << k));
            let h = self.small_bit(Self::small_norm(s.leaves, s.n as usize, hi16));
            let l = self.small_bit(Self::small_norm(s.leaves, s.n as usize, lo16));
            let x = leaf(k);
            // x ? h : l
            let a = self.and_raw(vec![x, h]);
            let b = self.and_raw(vec![x ^ 1, l]);
            let o = self.and_raw(vec![a ^ 1, b ^ 1]);
            r = o ^ 1;
        }
        self.small_map.insert((s.leaves, tt), r);
        r ^ neg as u32
    }

    fn mono_node(&mut self, ls: Vec<Bit>, sm: Small) -> Bit {
        if let Some(&b) = self.small_map.get(&(sm.leaves, sm.tt)) {
            return b;
        }
        let mut sig = !0u64;
        for &b in &ls {
            sig &= self.sigof(b);
        }
        let r = self.push_bit(BN::And(ls.into_boxed_slice()), sig, Some(sm));
        self.small_map.insert((sm.leaves, sm.tt), r);
        r
    }

    // ---- boolean constructors

    fn and_raw(&mut self, mut ls: Vec<Bit>) -> Bit {
        // flatten positive And operands
        let mut i = 0;
        let mut flat: Vec<Bit> = Vec::with_capacity(ls.len());
        while i < ls.len() {
            let b = ls[i];
            i += 1;
            if b == F {
                return F;
            }
            if b == T {
                continue;
            }
            if b & 1 == 0 {
                if let BN::And(x) = &self.bits[(b >> 1) as usize] {
                    if x.len() + ls.len() < 256 {
                        flat.extend_from_slice(x);
                        continue;
                    }
                }
            }
            flat.push(b);
        }
        ls = flat;
        ls.sort_unstable();
        ls.dedup();
        for w in ls.windows(2) {
            if w[0] ^ 1 == w[1] {
                return F;
            }
        }
        match ls.len() {
            0 => return T,
            1 => return ls[0],
            _ => {}
        }
        let mut sig = !0u64;
        for &b in &ls {
            sig &= self.sigof(b);
        }
        self.push_bit(BN::And(ls.into_boxed_slice()), sig, None)
    }

    pub fn and(&mut self, a: Bit, b: Bit) -> Bit {
        if a == F || b == F || a == b ^ 1 {
            return F;
        }
        if a == T || a == b {
            return b;
        }
        if b == T {
            return a;
        }
        if self.anf {
            // products stay opaque, see `xor_push`
            return self.and_raw(vec![a, b]);
        } else {
            let (sa, sb) = (self.small_of(a), self.small_of(b));
            if let Some((l, n, ta, tb)) = Self::small_merge(&sa, &sb) {
                return self.small_bit(Self::small_norm(l, n, ta & tb));
            }
        }
        // distribute over small XORs of leaves (keeps GF(2) normal forms of e.g. choice/majority)
        let tl = |s: &Self, x: Bit| match &s.bits[(x >> 1) as usize] {
            BN::Xor(v) => v.len(),
            _ => 1,
        };
        let (na, nb) = (tl(self, a), tl(self, b));
        if na * nb <= 6 && na * nb > 1 && (a & 1) + (b & 1) == 0 {
            let va: Vec<Bit> = match &self.bits[(a >> 1) as usize] {
                BN::Xor(v) => v.to_vec(),
                _ => vec![a],
            };
            let vb: Vec<Bit> = match &self.bits[(b >> 1) as usize] {
                BN::Xor(v) => v.to_vec(),
                _ => vec![b],
            };
            let ok = va.iter().chain(vb.iter()).all(|&x| !matches!(self.bits[(x >> 1) as usize], BN::And(_)));
            if ok {
                let mut r = vec![];
                for &x in &va {
                    for &y in &vb {
                        r.push(self.and(x, y));
                    }
                }
                return self.xor_many(&r);
            }
        }
        self.and_raw(vec![a, b])
    }

    pub fn and_many(&mut self, v: &[Bit]) -> Bit {
        if v.len() <= 2 {
            let mut r = T;
            for &b in v {
                r = self.and(r, b);
            }
            return r;
        }
        let mut w: Vec<Bit> = v.to_vec();
        w.sort_unstable();
        w.dedup();
        if w.first() == Some(&F) {
            return F;
        }
        w.retain(|&b| b != T);
        if w.len() <= 2 {
            return self.and_many(&w);
        }
        self.and_raw(w)
    }

    pub fn or_many(&mut self, v: &[Bit]) -> Bit {
        let w: Vec<Bit> = v.iter().map(|b| b ^ 1).collect();
        self.and_many(&w) ^ 1
    }

    pub fn or(&mut self, a: Bit, b: Bit) -> Bit {
        // disjoint conjunctions are a XOR
        if a & 1 == 0 && b & 1 == 0 && a > 1 && b > 1 {
            if let (BN::And(x), BN::And(y)) = (&self.bits[(a >> 1) as usize], &self.bits[(b >> 1) as usize]) {
                if x.iter().any(|l| y.contains(&(l ^ 1))) {
                    return self.xor(a, b);
                }
            }
        }
        self.and(a ^ 1, b ^ 1) ^ 1
    }

    fn xor_push(&mut self, b: Bit, out: &mut Vec<Bit>, neg: &mut bool) {
        *neg ^= b & 1 == 1;
        let p = b & !1;
        if p == F {
            return;
        }
        if self.anf {
            // sums of leaves of one multiplicative level are flattened, mixed ones are leaves
            match &self.bits[(p >> 1) as usize] {
                BN::Xor(v) if !self.mixed[(p >> 1) as usize] => out.extend_from_slice(v),
                _ => out.push(p),
            }
            return;
        }
        match &self.bits[(p >> 1) as usize] {
            BN::Xor(v) if v.len() <= self.xor_limit || (v.len() <= 8192 && !self.has_and[(p >> 1) as usize]) => out.extend_from_slice(v),
            BN::And(v) if v.len() == 2 && (v[0] & 1 == 1 || v[1] & 1 == 1) => {
                let (x, y) = (v[0], v[1]);
                // (x0^nx)(y0^ny) = x0 y0 ^ nx y0 ^ ny x0 ^ nx ny
                let (x0, y0) = (x & !1, y & !1);
                let (nx, ny) = (x & 1 == 1, y & 1 == 1);
                let a = self.and(x0, y0);
                if a >> 1 != p >> 1 {
                    self.xor_push(a, out, neg);
                    if nx {
                        self.xor_push(y0, out, neg);
                    }
                    if ny {
                        self.xor_push(x0, out, neg);
                    }
                    *neg ^= nx && ny;
                } else {
                    out.push(p);
                }
            }
            _ => out.push(p),
        }
    }

    /// the value of a sum that is constant once all nested sums are expanded
    fn xor_expand(&self, w: &[Bit]) -> Option<bool> {
        let mut odd: Set<Bit> = Set::default();
        let mut neg = false;
        let mut todo: Vec<Bit> = w.to_vec();
        if !w.iter().any(|b| matches!(self.bits[(b >> 1) as usize], BN::Xor(_))) {
            return None;
        }
        // one nesting level at a time, newest nodes first, so that shared sums cancel unopened
        let mut steps = 0;
        loop {
            for b in todo.drain(..) {
                neg ^= b & 1 == 1;
                if b > 1 && !odd.remove(&(b & !1)) {
                    odd.insert(b & !1);
                }
            }
            if odd.is_empty() {
                return Some(neg);
            }
            let top = odd.iter().filter(|b| matches!(self.bits[(*b >> 1) as usize], BN::Xor(_))).max().copied()?;
            if let BN::Xor(v) = &self.bits[(top >> 1) as usize] {
                odd.remove(&top);
                todo.extend_from_slice(v);
            }
            steps += 1;
            if steps > 3000 || odd.len() + todo.len() > 4096 {
                return None;
            }
        }
    }

    fn xor_finish(&mut self, mut v: Vec<Bit>, neg: bool, small: Option<Small>) -> Bit {
        v.sort_unstable();
        let mut w: Vec<Bit> = Vec::with_capacity(v.len());
        for b in v {
            if w.last() == Some(&b) {
                w.pop();
            } else {
                w.push(b);
            }
        }
        let n = neg as u32;
        match w.len() {
            0 => n,
            1 => w[0] ^ n,
            _ => {
                let mut sig = 0;
                for &b in &w {
                    sig ^= self.sigof(b);
                }
                if sig == 0 || sig == !0 {
                    // looks constant: leaves that are sums themselves may cancel
                    if let Some(c) = self.xor_expand(&w) {
                        return c as u32 ^ n;
                    }
                } else if w.len() > 2 {
                    // or like one variable
                    if let Some(&l) = self.varsig.get(&sig).or_else(|| self.varsig.get(&!sig)) {
                        let mut r = w.clone();
                        r.push(l);
                        if let Some(c) = self.xor_expand(&r) {
                            return l ^ c as u32 ^ n;
                        }
                    }
                }
                // `small` describes the result, the node is its complement when `neg`
                let small = small.map(|x| if neg { Small { tt: !x.tt, ..x } } else { x });
                self.push_bit(BN::Xor(w.into_boxed_slice()), sig, small) ^ n
            }
        }
    }

    pub fn xor(&mut self, a: Bit, b: Bit) -> Bit {
        if a <= 1 {
            return b ^ a;
        }
        if b <= 1 {
            return a ^ b;
        }
        if a | 1 == b | 1 {
            return (a ^ b) & 1;
        }
        if !self.anf {
            let (sa, sb) = (self.small_of(a), self.small_of(b));
            if let Some((l, n, ta, tb)) = Self::small_merge(&sa, &sb) {
                return self.small_bit(Self::small_norm(l, n, ta ^ tb));
            }
        }
        let mut out = vec![];
        let mut neg = false;
        self.xor_push(a, &mut out, &mut neg);
        self.xor_push(b, &mut out, &mut neg);
        self.xor_finish(out, neg, None)
    }

    pub fn xor_many(&mut self, v: &[Bit]) -> Bit {
        if v.len() <= 4 {
            let mut r = F;
            for &b in v {
                r = self.xor(r, b);
            }
            return r;
        }
        let mut out = vec![];
        let mut neg = false;
        for &b in v {
            self.xor_push(b, &mut out, &mut neg);
        }
        // small results go through the canonical path
        out.sort_unstable();
        let mut w: Vec<Bit> = vec![];
        for b in out {
            if w.last() == Some(&b) {
                w.pop();
            } else {
                w.push(b);
            }
        }
        if w.len() <= 4 {
            let mut r = neg as u32;
            for b in w {
                r = self.xor(r, b);
            }
            return r;
        }
        self.xor_finish(w, neg, None)
    }

    pub fn mux(&mut self, c: Bit, a: Bit, b: Bit) -> Bit {
        if c == T || a == b {
            return a;
        }
        if c == F {
            return b;
        }
        if a == T {
            return self.or(c, b);
        }
        if a == F {
            return self.and(c ^ 1, b);
        }
        if b == F {
            return self.and(c, a);
        }
        if b == T {
            return self.or(c ^ 1, a);
        }
        if a == b ^ 1 {
            return self.xor(c, b);
        }
        let x = self.and(c, a);
        let y = self.and(c ^ 1, b);
        self.or(x, y)
    }

    // ---- words

    pub fn bv(&mut self, v: &[Bit]) -> BvId {
        if let Some(&i) = self.bvmap.get(v) {
            return i;
        }
        let id = self.bvs.len() as u32;
        let b: Box<[Bit]> = v.into();
        self.bvs.push(b.clone());
        self.bvmap.insert(b, id);
        id
    }

    fn bv_max(&self, id: BvId) -> u128 {
        let v = &self.bvs[id as usize];
        let mut m = 0;
        for (i, &b) in v.iter().enumerate() {
            if b != F {
                m |= 1u128 << i;
            }
        }
        // the top part of an exact sum has a tighter bound
        if let BN::Atom(w, k) = self.bits[(v[0] >> 1) as usize] {
            if v[0] & 1 == 0 && v.iter().enumerate().all(|(i, &b)| b == v[0] + 2 * i as u32) && matches!(self.bits[(v[v.len() - 1] >> 1) as usize], BN::Atom(x, _) if x == w) {
                if let Some(&x) = self.wmax.get(&w) {
                    m = m.min(x >> k);
                }
            }
        }
        m
    }

    /// the values of a bit vector under the 64 simulation patterns
    pub fn bv_sims(&self, v: &[Bit]) -> [u128; 64] {
        let mut r = [0u128; 64];
        for (i, &b) in v.iter().enumerate() {
            let mut s = self.sigof(b);
            while s != 0 {
                let k = s.trailing_zeros();
                r[k as usize] |= 1u128 << i;
                s &= s - 1;
            }
        }
        r
    }

    fn push_word(&mut self, w: WN, width: u32, vals: impl Fn(&Self) -> [u128; 64]) -> Vec<Bit> {
        let id = if let Some(&i) = self.wmap.get(&w) {
            i
        } else {
            let id = self.words.len() as u32;
            self.wmap.insert(w.clone(), id);
            self.words.push(w);
            let v = vals(self);
            for i in 0..width {
                let mut s = 0u64;
                for k in 0..64 {
                    s |= (((v[k] >> i) & 1) as u64) << k;
                }
                self.push_bit(BN::Atom(id, i), s, None);
            }
            id
        };
        (0..width).map(|i| self.bmap[&BN::Atom(id, i)] << 1).collect()
    }

    /// Split a bit vector (zero extended) modulo 2^w into constant + terms of a polynomial.
    /// Returns list of (coef, factors) and adds into `cst`.
    fn linear_terms(&mut self, w: u32, v: &[Bit], coef: u128, out: &mut Vec<Mono>, cst: &mut u128) {
        let m = mask(w);
        let coef = coef & m;
        if coef == 0 {
            return;
        }
        let val = coef.trailing_zeros();
        let mut n = v.len().min((w - val) as usize);
        // constant-one bits
        let mut bits: Vec<Bit> = v[..n].to_vec();
        for (i, b) in bits.iter_mut().enumerate() {
            if *b == T {
                *cst = cst.wrapping_add(coef.wrapping_mul(1u128 << i)) & m;
                *b = F;
            }
        }
        while n > 0 && bits[n - 1] == F {
            n -= 1;
        }
        bits.truncate(n);
        if n == 0 {
            return;
        }
        let lo = bits.iter().position(|&b| b != F).unwrap();
        if lo > 0 {
            let sub: Vec<Bit> = bits[lo..].to_vec();
            let c2 = coef.wrapping_mul(1u128 << lo) & m;
            return self.linear_terms(w, &sub, c2, out, cst);
        }
        // complement
        if bits[0] & 1 == 1 {
            // value = sum over nonconst bits; each negated/non-negated: only if no F holes and all treated
            let full: u128 = bits.iter().enumerate().filter(|(_, &b)| b != F).fold(0, |a, (i, _)| a | 1u128 << i);
            let comp: Vec<Bit> = bits.iter().map(|&b| if b == F { F } else { b ^ 1 }).collect();
            *cst = cst.wrapping_add(coef.wrapping_mul(full)) & m;
            let nc = 0u128.wrapping_sub(coef) & m;
            return self.linear_terms(w, &comp, nc, out, cst);
        }
        // low bits of a polynomial?
        if let BN::Atom(wid, 0) = self.bits[(bits[0] >> 1) as usize] {
            let mut run = 1;
            while run < n && bits[run] == bits[0] + 2 * run as u32 && matches!(self.bits[(bits[run] >> 1) as usize], BN::Atom(x, _) if x == wid) {
                run += 1;
            }
            if let WN::Poly { width, cst: pc, terms, .. } = &self.words[wid as usize] {
                let wd = *width as usize;
                // a sign-extended difference
                if run == wd
                    && n > wd
                    && self.wsext.contains(&wid)
                    && terms.len() <= self.flat_limit
                    && n as u32 == w - coef.trailing_zeros()
                    && bits[wd..].iter().all(|&b| b == bits[wd - 1])
                {
                    let sx = |c: u128| if (c >> (wd - 1)) & 1 == 1 { c | !mask(wd as u32) } else { c };
                    let (pc, terms) = (sx(*pc), terms.clone());
                    *cst = cst.wrapping_add(coef.wrapping_mul(pc)) & m;
                    for t in terms {
                        let c = coef.wrapping_mul(sx(t.coef)) & m;
                        if c != 0 {
                            if t.factors.len() == 1 {
                                let bits = self.bvs[t.factors[0] as usize].clone();
                                self.linear_terms(w, &bits, c, out, cst);
                            } else {
                                out.push(Mono { factors: t.factors, coef: c });
                            }
                        }
                    }
                    return;
                }
            }
            if let WN::Poly { width, cst: pc, exact, terms } = &self.words[wid as usize] {
                if run == n
                    && terms.len() <= self.flat_limit
                    && (n == *width as usize && *exact
                        || n as u32 == w - coef.trailing_zeros())
                {
                    let (pc, terms) = (*pc, terms.clone());
                    *cst = cst.wrapping_add(coef.wrapping_mul(pc)) & m;
                    for t in terms {
                        let c = coef.wrapping_mul(t.coef) & m;
                        if c != 0 {
                            if t.factors.len() == 1 {
                                let bits = self.bvs[t.factors[0] as usize].clone();
                                // re-truncate
                                self.linear_terms(w, &bits, c, out, cst);
                            } else {
                                out.push(Mono { factors: t.factors, coef: c });
                            }
                        }
                    }
                    return;
                }
            }
        }
        let id = self.bv(&bits);
        out.push(Mono { factors: vec![id], coef });
    }

    /// polynomial sum: terms are (coef, bits)
    pub fn poly(&mut self, w: u32, cst: u128, lin: &[(u128, &[Bit])]) -> Vec<Bit> {
        let mut c = cst & mask(w);
        let mut out = vec![];
        for (k, v) in lin {
            self.linear_terms(w, v, *k, &mut out, &mut c);
        }
        self.poly_finish(w, c, out)
    }

    pub fn mul(&mut self, w: u32, a: &[Bit], b: &[Bit]) -> Vec<Bit> {
        let (mut ca, mut cb) = (0, 0);
        let (mut ta, mut tb) = (vec![], vec![]);
        self.linear_terms(w, a, 1, &mut ta, &mut ca);
        self.linear_terms(w, b, 1, &mut tb, &mut cb);
        if ta.len() * tb.len() > 16 {
            // keep as opaque factors
            let x = self.bv(a);
            let y = self.bv(b);
            let mut f = vec![x, y];
            f.sort_unstable();
            return self.poly_finish(w, 0, vec![Mono { factors: f, coef: 1 }]);
        }
        let m = mask(w);
        let mut out = vec![];
        for x in &ta {
            for y in &tb {
                let mut f = x.factors.clone();
                f.extend_from_slice(&y.factors);
                f.sort_unstable();
                out.push(Mono { factors: f, coef: x.coef.wrapping_mul(y.coef) & m });
            }
        }
        let mut cst = ca.wrapping_mul(cb) & m;
        for (ts, c) in [(&ta, cb), (&tb, ca)] {
            for x in ts {
                let k = x.coef.wrapping_mul(c) & m;
                if k == 0 {
                    continue;
                }
                if x.factors.len() == 1 {
                    let b = self.bvs[x.factors[0] as usize].clone();
                    self.linear_terms(w, &b, k, &mut out, &mut cst);
                } else {
                    out.push(Mono { factors: x.factors.clone(), coef: k });
                }
            }
        }
        self.poly_finish(w, cst, out)
    }

    /// truncated copies of one vector under different coefficients are one term
    fn merge_prefixes(&mut self, w: u32, r: &mut Vec<Mono>, cst: &mut u128) {
        if r.len() < 2 {
            return;
        }
        let m = mask(w);
        let mut first: Map<Bit, (u32, BvId)> = Map::default(); // count, longest
        for t in r.iter() {
            if t.factors.len() == 1 {
                let id = t.factors[0];
                let b = &self.bvs[id as usize];
                let e = first.entry(b[0]).or_insert((0, id));
                e.0 += 1;
                let (lb, lo) = (b.len(), self.bvs[e.1 as usize].len());
                if lb > lo || (lb == lo && id < e.1) {
                    e.1 = id;
                }
            }
        }
        if first.values().all(|x| x.0 < 2) {
            return;
        }
        let mut changed = false;
        let mut n: Vec<Mono> = Vec::with_capacity(r.len());
        let mut ext: Map<BvId, usize> = Map::default();
        for t in r.iter() {
            if t.factors.len() == 1 {
                let id = t.factors[0];
                let (c, l) = first[&self.bvs[id as usize][0]];
                if c > 1 {
                    let (a, b) = (&self.bvs[id as usize], &self.bvs[l as usize]);
                    let lim = ((w - t.coef.trailing_zeros()) as usize).min(b.len());
                    let ok = id == l || (b.len() > a.len() && b[..a.len()] == a[..] && (a.len()..lim).all(|i| b[i] == F));
                    if ok {
                        if let Some(&k) = ext.get(&l) {
                            n[k].coef = n[k].coef.wrapping_add(t.coef) & m;
                            changed = true;
                        } else {
                            ext.insert(l, n.len());
                            n.push(Mono { factors: vec![l], coef: t.coef });
                        }
                        continue;
                    }
                }
            }
            n.push(t.clone());
        }
        if !changed {
            return;
        }
        // re-truncate
        let mut o = vec![];
        for t in n {
            if t.coef == 0 {
                continue;
            }
            if t.factors.len() == 1 {
                let b = self.bvs[t.factors[0] as usize].clone();
                self.linear_terms(w, &b, t.coef, &mut o, cst);
            } else {
                o.push(t);
            }
        }
        o.sort_by(|a, b| a.factors.cmp(&b.factors));
        *r = o;
    }

    /// c*A + c*B with A and B never having a bit in common is c*(A|B)
    fn merge_disjoint(&mut self, w: u32, r: &mut Vec<Mono>, cst: &mut u128) {
        let m = mask(w);
        // A + 2^|A| * B filling the whole word is one concatenation
        'cat: loop {
            for i in 0..r.len() {
                for j in 0..r.len() {
                    if i == j || r[i].factors.len() != 1 || r[j].factors.len() != 1 || r[i].coef != 1 {
                        continue;
                    }
                    let (a, b) = (r[i].factors[0], r[j].factors[0]);
                    let (la, lb) = (self.bvs[a as usize].len(), self.bvs[b as usize].len());
                    if la + lb != w as usize || r[j].coef != 1u128 << la {
                        continue;
                    }
                    let mut u = self.bvs[a as usize].to_vec();
                    u.extend_from_slice(&self.bvs[b as usize]);
                    r.remove(i.max(j));
                    r.remove(i.min(j));
                    let id = self.bv(&u);
                    r.push(Mono { coef: 1, factors: vec![id] });
                    r.sort_by(|a, b| a.factors.cmp(&b.factors));
                    continue 'cat;
                }
            }
            break;
        }
        'again: loop {
            for i in 0..r.len() {
                if r[i].factors.len() != 1 {
                    continue;
                }
                for jj in 0..2 * i {
                    let (j, swap) = (jj / 2, jj & 1 == 1);
                    if r[j].factors.len() != 1 {
                        continue;
                    }
                    let (mut ci, mut cj) = (r[i].coef, r[j].coef);
                    let same = ci == cj;
                    if !same && ci.wrapping_add(cj) & m != 0 || same && swap {
                        continue;
                    }
                    let (mut a, mut b) = (r[i].factors[0], r[j].factors[0]);
                    if swap {
                        std::mem::swap(&mut a, &mut b);
                        std::mem::swap(&mut ci, &mut cj);
                    }
                    let (la, lb) = (self.bvs[a as usize].len(), self.bvs[b as usize].len());
                    if la < 2 || lb < 2 {
                        continue;
                    }
                    let n = la.min(lb);
                    let mut ok = true;
                    let mut interleaved = false;
                    for k in 0..n {
                        let (x, mut y) = (self.bvs[a as usize][k], self.bvs[b as usize][k]);
                        if !same && y != F {
                            y ^= 1;
                        }
                        if x != F && y != F {
                            if self.sigof(x) & self.sigof(y) != 0 {
                                ok = false;
                                break;
                            }
                            interleaved = true;
                        }
                    }
                    if !ok || !interleaved {
                        continue;
                    }
                    let av = self.bvs[a as usize].to_vec();
                    let mut bv = self.bvs[b as usize].to_vec();
                    let mut full = 0u128;
                    if !same {
                        for (k, y) in bv.iter_mut().enumerate() {
                            if *y != F {
                                full |= 1u128 << k;
                                *y ^= 1;
                            }
                        }
                    }
                    for k in 0..n {
                        if self.and(av[k], bv[k]) != F {
                            ok = false;
                            break;
                        }
                    }
                    if !ok {
                        continue;
                    }
                    let g = |v: &[Bit], k: usize| if k < v.len() { v[k] } else { F };
                    let u: Vec<Bit> = (0..la.max(lb)).map(|k| self.or(g(&av, k), g(&bv, k))).collect();
                    // cj*B = -ci*B = ci*(full - B) - ci*full
                    *cst = cst.wrapping_sub(ci.wrapping_mul(full)) & m;
                    r.remove(i);
                    r.remove(j);
                    let mut o = std::mem::take(r);
                    self.linear_terms(w, &u, ci, &mut o, cst);
                    o.sort_by(|a, b| a.factors.cmp(&b.factors));
                    let mut n: Vec<Mono> = vec![];
                    for t in o {
                        if let Some(l) = n.last_mut() {
                            if l.factors == t.factors {
                                l.coef = l.coef.wrapping_add(t.coef) & m;
                                continue;
                            }
                        }
                        n.push(t);
                    }
                    n.retain(|t| t.coef != 0);
                    *r = n;
                    continue 'again;
                }
            }
            return;
        }
    }

    fn poly_sims(&self, nw: u32, cst: u128, r: &[Mono]) -> [u128; 64] {
        let mut v = [cst; 64];
        for t in r {
            let mut p = [t.coef; 64];
            for &f in &t.factors {
                let x = self.bv_sims(&self.bvs[f as usize]);
                for k in 0..64 {
                    p[k] = p[k].wrapping_mul(x[k]);
                }
            }
            for k in 0..64 {
                v[k] = v[k].wrapping_add(p[k]);
            }
        }
        for x in v.iter_mut() {
            *x &= mask(nw);
        }
        v
    }

    /// is the polynomial (w, cst, r) equal to word `other`? Linear reasoning over the
    /// bits: expand definitions of the newest sums until everything cancels.
    fn prove_linear(&self, other: u32, w: u32, cst: u128, r: &[Mono]) -> bool {
        let m = mask(w);
        let mut d: Map<u32, u128> = Map::default();
        let mut hi: Map<Vec<BvId>, u128> = Map::default();
        let mut k = cst;
        let add = |s: &Terms, d: &mut Map<u32, u128>, hi: &mut Map<Vec<BvId>, u128>, k: &mut u128, t: &Mono, c: u128| {
            let c = c.wrapping_mul(t.coef) & m;
            if t.factors.len() > 1 {
                let e = hi.entry(t.factors.clone()).or_insert(0);
                *e = e.wrapping_add(c) & m;
                return;
            }
            for (i, &b) in s.bvs[t.factors[0] as usize].iter().enumerate() {
                if i as u32 >= w {
                    break;
                }
                let ci = (c << i) & m;
                if ci == 0 || b == F {
                    continue;
                }
                if b & 1 == 1 {
                    *k = k.wrapping_add(ci) & m;
                    if b != T {
                        let e = d.entry(b >> 1).or_insert(0);
                        *e = e.wrapping_sub(ci) & m;
                    }
                } else {
                    let e = d.entry(b >> 1).or_insert(0);
                    *e = e.wrapping_add(ci) & m;
                }
            }
        };
        for t in r {
            add(self, &mut d, &mut hi, &mut k, t, 1);
        }
        if let WN::Poly { cst, terms, .. } = &self.words[other as usize] {
            k = k.wrapping_sub(*cst) & m;
            for t in terms {
                add(self, &mut d, &mut hi, &mut k, t, m);
            }
        } else {
            return false;
        }
        let mut bad: Set<u32> = Set::default();
        for _ in 0..200 {
            d.retain(|_, c| *c != 0);
            hi.retain(|_, c| *c != 0);
            if d.is_empty() {
                return hi.is_empty() && k & m == 0;
            }
            let mut best: Option<u32> = None;
            for &n in d.keys() {
                if let BN::Atom(wd, 0) = self.bits[n as usize] {
                    if best.map_or(true, |b| wd > b) && !bad.contains(&wd) && matches!(self.words[wd as usize], WN::Poly { .. }) {
                        best = Some(wd);
                    }
                }
            }
            let Some(wd) = best else { break };
            let WN::Poly { width, cst, exact, terms } = &self.words[wd as usize] else { break };
            let b0 = self.bmap[&BN::Atom(wd, 0)];
            let c = d[&b0];
            let ok = (0..*width).all(|i| d.get(&(b0 + i)).copied().unwrap_or(0) == if i < 128 { (c << i) & m } else { 0 })
                && (*exact || *width >= 128 || (c << *width) & m == 0);
            if !ok {
                bad.insert(wd);
                continue;
            }
            for i in 0..*width {
                d.remove(&(b0 + i));
            }
            k = k.wrapping_add(c.wrapping_mul(*cst)) & m;
            for t in terms {
                add(self, &mut d, &mut hi, &mut k, t, c);
            }
            if d.len() > 20000 {
                return false;
            }
        }
        if !hi.is_empty() {
            return false;
        }
        // multilinear expansion of small functions
        let mut ml: Map<([u32; 4], u8), u128> = Map::default();
        for (&n, &c) in &d {
            let s = self.small[n as usize];
            let sz = 1usize << s.n;
            let mut a: Vec<i64> = (0..sz).map(|x| ((s.tt >> x) & 1) as i64).collect();
            for i in 0..s.n as usize {
                for x in 0..sz {
                    if (x >> i) & 1 == 1 {
                        a[x] -= a[x ^ (1 << i)];
                    }
                }
            }
            for x in 0..sz {
                if a[x] == 0 {
                    continue;
                }
                let v = c.wrapping_mul(a[x] as i128 as u128) & m;
                if x == 0 {
                    k = k.wrapping_add(v) & m;
                    continue;
                }
                let mut key = [0u32; 4];
                let mut n = 0;
                for i in 0..s.n as usize {
                    if (x >> i) & 1 == 1 {
                        key[n] = s.leaves[i];
                        n += 1;
                    }
                }
                let e = ml.entry((key, n as u8)).or_insert(0);
                *e = e.wrapping_add(v) & m;
            }
        }
        ml.values().all(|&c| c == 0) && k & m == 0
    }

    fn poly_finish(&mut self, w: u32, cst: u128, mut ts: Vec<Mono>) -> Vec<Bit> {
        let m = mask(w);
        ts.sort_by(|a, b| a.factors.cmp(&b.factors));
        let mut r: Vec<Mono> = vec![];
        for t in ts {
            if let Some(l) = r.last_mut() {
                if l.factors == t.factors {
                    l.coef = l.coef.wrapping_add(t.coef) & m;
                    continue;
                }
            }
            r.push(t);
        }
        r.retain(|t| t.coef != 0);
        let mut cst = cst;
        self.merge_prefixes(w, &mut r, &mut cst);
        while r.iter().any(|t| t.factors.len() == 1 && self.bvs[t.factors[0] as usize].len() as u32 > w - t.coef.trailing_zeros()) {
            let mut o: Vec<Mono> = vec![];
            for t in std::mem::take(&mut r) {
                if t.factors.len() == 1 {
                    let b = self.bvs[t.factors[0] as usize].clone();
                    self.linear_terms(w, &b, t.coef, &mut o, &mut cst);
                } else {
                    o.push(t);
                }
            }
            o.sort_by(|a, b| a.factors.cmp(&b.factors));
            for t in o {
                if let Some(l) = r.last_mut() {
                    if l.factors == t.factors {
                        l.coef = l.coef.wrapping_add(t.coef) & m;
                        continue;
                    }
                }
                r.push(t);
            }
            r.retain(|t| t.coef != 0);
            self.merge_prefixes(w, &mut r, &mut cst);
        }
        self.merge_disjoint(w, &mut r, &mut cst);
        let cbits = |c: u128, w: u32| -> Vec<Bit> { (0..w).map(|i| ((c >> i) & 1) as Bit).collect() };
        if r.is_empty() {
            return cbits(cst, w);
        }
        // bitwise disjoint sum: every term a shifted bit vector, no overlap
        let neg = |c: u128| 0u128.wrapping_sub(c) & m;
        if r.iter().all(|t| t.factors.len() == 1 && (t.coef.is_power_of_two() || neg(t.coef).is_power_of_two())) {
            // -2^k A = 2^k (full - A) - 2^k full
            let mut c2 = cst;
            for t in &r {
                if !t.coef.is_power_of_two() {
                    for (i, &b) in self.bvs[t.factors[0] as usize].iter().enumerate() {
                        if b != F {
                            c2 = c2.wrapping_sub(neg(t.coef).wrapping_mul(1u128 << i)) & m;
                        }
                    }
                }
            }
            let mut v = cbits(c2, w);
            let mut ok = true;
            'o: for t in &r {
                let inv = !t.coef.is_power_of_two();
                let sh = if inv { neg(t.coef) } else { t.coef }.trailing_zeros() as usize;
                for (i, &b) in self.bvs[t.factors[0] as usize].iter().enumerate() {
                    if b == F || i + sh >= w as usize {
                        continue;
                    }
                    if v[i + sh] != F {
                        ok = false;
                        break 'o;
                    }
                    v[i + sh] = b ^ inv as Bit;
                }
            }
            if ok {
                return v;
            }
        }
        // -x for one-bit x: all bits x (mask)
        if r.len() == 1 && r[0].factors.len() == 1 && cst == 0 {
            let b = self.bvs[r[0].factors[0] as usize].clone();
            if b.len() == 1 {
                let c = r[0].coef;
                return (0..w).map(|i| if (c >> i) & 1 == 1 { b[0] } else { F }).collect();
            }
        }
        // c + k*x for one-bit x is a mux
        if r.len() == 1 && r[0].factors.len() == 1 && self.bvs[r[0].factors[0] as usize].len() == 1 {
            let x = self.bvs[r[0].factors[0] as usize][0];
            let (c0, c1) = (cst, cst.wrapping_add(r[0].coef) & m);
            return (0..w)
                .map(|i| match ((c0 >> i) & 1, (c1 >> i) & 1) {
                    (0, 0) => F,
                    (1, 1) => T,
                    (0, 1) => x,
                    _ => x ^ 1,
                })
                .collect();
        }
        // known low bits: the common power of two of all coefficients
        let v = r.iter().map(|t| t.coef.trailing_zeros()).min().unwrap();
        if v > 0 {
            let lowc = cst & mask(v);
            let sub: Vec<Mono> = r.iter().map(|t| Mono { factors: t.factors.clone(), coef: t.coef >> v }).collect();
            let hi = self.poly_finish(w - v, cst >> v, sub);
            let mut o = cbits(lowc, v);
            o.extend(hi);
            return o;
        }
        // exact (no wrap) ?
        let mut max = cst;
        let mut exact = true;
        for t in &r {
            let mut p = t.coef;
            if t.coef >> (w - 1).min(127) & 1 == 1 && w > 1 {
                exact = false;
                break;
            }
            for &f in &t.factors {
                match p.checked_mul(self.bv_max(f)) {
                    Some(x) => p = x,
                    None => exact = false,
                }
            }
            match max.checked_add(p) {
                Some(x) => max = x,
                None => exact = false,
            }
        }
        if max > m {
            exact = false;
        }
        let mut sext = false;
        if !exact {
            // signed interval
            let sx = |c: u128| if (c >> (w - 1)) & 1 == 1 { (c | !m) as i128 } else { c as i128 };
            let (mut lo, mut hi) = (sx(cst), sx(cst));
            let mut fits = true;
            for t in &r {
                let mut p = sx(t.coef);
                for &f in &t.factors {
                    match i128::try_from(self.bv_max(f)).ok().and_then(|x| p.checked_mul(x)) {
                        Some(x) => p = x,
                        None => fits = false,
                    }
                }
                let e = if p < 0 { &mut lo } else { &mut hi };
                match e.checked_add(p) {
                    Some(x) => *e = x,
                    None => fits = false,
                }
            }
            if fits {
                let n = (129 - (!lo.min(-1)).leading_zeros()).max(129 - hi.max(0).leading_zeros());
                if n < w {
                    let sub: Vec<Mono> = r.iter().map(|t| Mono { factors: t.factors.clone(), coef: t.coef & mask(n) }).collect();
                    let mut o = self.poly_finish(n, cst & mask(n), sub);
                    let top = o[n as usize - 1];
                    o.resize(w as usize, top);
                    return o;
                }
                sext = n == w;
            }
        }
        let nw = if exact { 128 - max.leading_zeros() } else { w };
        let node = WN::Poly { width: nw, cst, exact, terms: r.clone() };
        let fresh = self.words.len() as u32;
        if !self.wmap.contains_key(&node) && nw >= 8 {
            let v = self.poly_sims(nw, cst, &r);
            let mut h = Fx::default();
            std::hash::Hash::hash(&v[..], &mut h);
            let key = (nw, std::hash::Hasher::finish(&h));
            let cands: Vec<u32> = self.simmap.get(&key).cloned().unwrap_or_default();
            let mut found = None;
            for &c in cands.iter().rev().take(3) {
                if self.prove_linear(c, nw, cst, &r) {
                    found = Some(c);
                    break;
                }
            }
            match found {
                Some(c) => {
                    self.lin_merges += 1;
                    self.wmap.insert(node.clone(), c);
                }
                None => {
                    if !cands.is_empty() {
                        self.lin_fails += 1;
                    }
                    let id = self.words.len() as u32;
                    self.simmap.entry(key).or_default().push(id);
                }
            }
        }
        let mut bits = self.push_word(node, nw, |s| {
            let mut v = [cst; 64];
            for t in &r {
                let mut p = [t.coef; 64];
                for &f in &t.factors {
                    let x = s.bv_sims(&s.bvs[f as usize]);
                    for k in 0..64 {
                        p[k] = p[k].wrapping_mul(x[k]);
                    }
                }
                for k in 0..64 {
                    v[k] = v[k].wrapping_add(p[k]);
                }
            }
            for x in v.iter_mut() {
                *x &= mask(nw);
            }
            v
        });
        if sext && self.words.len() as u32 > fresh {
            self.wsext.insert(fresh);
        }
        if exact && self.words.len() as u32 > fresh {
            self.wmax.insert(fresh, max);
        }
        // bit 0 of a sum is a XOR when everything is linear
        if let WN::Poly { terms, cst, .. } = &self.words[self.atom_word(bits[0])] {
            if terms.iter().all(|t| t.factors.len() == 1) && terms.len() <= 4 {
                let mut xs: Vec<Bit> = vec![(*cst & 1) as Bit];
                for t in terms {
                    if t.coef & 1 == 1 {
                        xs.push(self.bvs[t.factors[0] as usize][0]);
                    }
                }
                let _ = xs; // kept as an atom: canonical with respect to flattening
            }
        }
        bits.resize(w as usize, F);
        bits
    }

    pub fn atom_bits(&self, w: u32) -> Vec<Bit> {
        let mut r = vec![];
        while let Some(&b) = self.bmap.get(&BN::Atom(w, r.len() as u32)) {
            r.push(b << 1);
        }
        r
    }
    fn atom_word(&self, b: Bit) -> usize {
        match self.bits[(b >> 1) as usize] {
            BN::Atom(w, _) => w as usize,
            _ => panic!(),
        }
    }

    fn range(v: &[Bit]) -> (u128, u128) {
        let (mut lo, mut hi) = (0, 0);
        for (i, &b) in v.iter().enumerate() {
            if b == T {
                lo |= 1u128 << i;
            }
            if b != F {
                hi |= 1u128 << i;
            }
        }
        (lo, hi)
    }

    /// unsigned a < b
    pub fn ult(&mut self, a: &[Bit], b: &[Bit]) -> Bit {
        let mut n = a.len().max(b.len());
        let g = |v: &[Bit], i: usize| if i < v.len() { v[i] } else { F };
        while n > 0 && g(a, n - 1) == g(b, n - 1) {
            n -= 1;
        }
        if n == 0 {
            return F;
        }
        let a: Vec<Bit> = (0..n).map(|i| g(a, i)).collect();
        let b: Vec<Bit> = (0..n).map(|i| g(b, i)).collect();
        let ((la, ha), (lb, hb)) = (Self::range(&a), Self::range(&b));
        if ha < lb {
            return T;
        }
        if la >= hb {
            return F;
        }
        if n == 1 {
            return self.and(a[0] ^ 1, b[0]);
        }
        if ha == 0 {
            return self.or_many(&b);
        }
        if la == ha && la == 0 {
            return self.or_many(&b);
        }
        if lb == hb {
            // constant bound: expand: a < c
            let mut r = F;
            for i in 0..n {
                if (lb >> i) & 1 == 1 {
                    r = self.or(a[i] ^ 1, r);
                } else {
                    r = self.and(a[i] ^ 1, r);
                }
            }
            return r;
        }
        if la == ha {
            // c < b  == !(b <= c) == !(b < c+1); expand directly
            let mut r = F; // c < b on low bits
            for i in 0..n {
                if (la >> i) & 1 == 1 {
                    r = self.and(b[i], r);
                } else {
                    r = self.or(b[i], r);
                }
            }
            return r;
        }
        let (x, y) = (self.bv(&a), self.bv(&b));
        self.push_word(WN::Ult(x, y), 1, |s| {
            let (p, q) = (s.bv_sims(&a), s.bv_sims(&b));
            let mut v = [0u128; 64];
            for k in 0..64 {
                v[k] = (p[k] < q[k]) as u128;
            }
            v
        })[0]
    }

    pub fn eqv(&mut self, a: &[Bit], b: &[Bit]) -> Bit {
        let v: Vec<Bit> = (0..a.len()).map(|i| self.xor(a[i], b[i]) ^ 1).collect();
        self.and_many(&v)
    }

    pub fn sbox(&mut self, v: &[Bit]) -> Vec<Bit> {
        if v.iter().all(|&b| b <= 1) {
            let mut x = 0;
            for i in 0..8 {
                x |= (v[i] as usize) << i;
            }
            return (0..8).map(|i| ((self.sbox[x] >> i) & 1) as Bit).collect();
        }
        let id = self.bv(v);
        let vv = v.to_vec();
        self.push_word(WN::Sbox(id), 8, |s| {
            let mut x = s.bv_sims(&vv);
            for k in 0..64 {
                x[k] = s.sbox[x[k] as usize] as u128;
            }
            x
        })
    }

    // ---- evaluation under a model

    pub fn word_children(&self, w: u32) -> Vec<BvId> {
        match &self.words[w as usize] {
            WN::Poly { terms, .. } => terms.iter().flat_map(|t| t.factors.iter().copied()).collect(),
            WN::Ult(a, b) => vec![*a, *b],
            WN::Sbox(a) => vec![*a],
            WN::Uf(_, a, _) => vec![*a],
        }
    }
}

/// An assignment of the input variables with memoised evaluation.
#[derive(Clone, Default)]
pub struct Model {
    pub vars: Vec<bool>,
}

pub struct Eval {
    bits: Map<u32, bool>,
    words: Map<u32, u128>,
}

impl Eval {
    pub fn new() -> Eval {
        Eval { bits: Map::default(), words: Map::default() }
    }
    pub fn clear(&mut self) {
        self.bits.clear();
        self.words.clear();
    }
    pub fn bit(&mut self, t: &Terms, m: &Model, b: Bit) -> bool {
        if b <= 1 {
            return b == 1;
        }
        if let Some(&v) = self.bits.get(&(b >> 1)) {
            return v ^ (b & 1 == 1);
        }
        // iterative post-order
        let mut stack: Vec<(u32, bool)> = vec![(b >> 1, false)];
        while let Some((n, done)) = stack.pop() {
            if self.bits.contains_key(&n) {
                continue;
            }
            match &t.bits[n as usize] {
                BN::Const => {
                    self.bits.insert(n, false);
                }
                BN::Var(v) => {
                    let x = m.vars.get(*v as usize).copied().unwrap_or(false);
                    self.bits.insert(n, x);
                }
                BN::Xor(v) => {
                    if !done {
                        stack.push((n, true));
                        for &c in v.iter() {
                            if !self.bits.contains_key(&(c >> 1)) {
                                stack.push((c >> 1, false));
                            }
                        }
                    } else {
                        let mut r = false;
                        for &c in v.iter() {
                            r ^= self.bits[&(c >> 1)] ^ (c & 1 == 1);
                        }
                        self.bits.insert(n, r);
                    }
                }
                BN::And(v) => {
                    if !done {
                        stack.push((n, true));
                        for &c in v.iter() {
                            if c > 1 && !self.bits.contains_key(&(c >> 1)) {
                                stack.push((c >> 1, false));
                            }
                        }
                    } else {
                        let mut r = true;
                        for &c in v.iter() {
                            r &= self.bits[&(c >> 1)] ^ (c & 1 == 1);
                        }
                        self.bits.insert(n, r);
                    }
                }
                BN::Atom(w, i) => {
                    if let Some(x) = self.words.get(w) {
                        let r = (x >> i) & 1 == 1;
                        self.bits.insert(n, r);
                        continue;
                    }
                    let ch = t.word_children(*w);
                    if !done {
                        stack.push((n, true));
                        for id in ch {
                            for &c in t.bvs[id as usize].iter() {
                                if c > 1 && !self.bits.contains_key(&(c >> 1)) {
                                    stack.push((c >> 1, false));
                                }
                            }
                        }
                    } else {
                        let val = |s: &Self, id: BvId| -> u128 {
                            let mut r = 0;
                            for (i, &c) in t.bvs[id as usize].iter().enumerate() {
                                let x = if c <= 1 { c == 1 } else { s.bits[&(c >> 1)] ^ (c & 1 == 1) };
                                r |= (x as u128) << i;
                            }
                            r
                        };
                        let x = match &t.words[*w as usize] {
                            WN::Poly { width, cst, terms, .. } => {
                                let mut r = *cst;
                                for m in terms {
                                    let mut p = m.coef;
                                    for &f in &m.factors {
                                        p = p.wrapping_mul(val(self, f));
                                    }
                                    r = r.wrapping_add(p);
                                }
                                r & mask(*width)
                            }
                            WN::Ult(a, b) => (val(self, *a) < val(self, *b)) as u128,
                            WN::Sbox(a) => t.sbox[val(self, *a) as usize] as u128,
                            WN::Uf(..) => 0,
                        };
                        self.words.insert(*w, x);
                        self.bits.insert(n, (x >> i) & 1 == 1);
                    }
                }
            }
        }
        self.bits[&(b >> 1)] ^ (b & 1 == 1)
    }
}

impl Terms {
    pub fn show_bv(&self, v: &[Bit]) -> String {
        let mut s = String::new();
        for &b in v.iter().take(9) {
            s += &self.show_bit(b, 2);
            s.push(' ');
        }
        format!("<{}: {}>", v.len(), s)
    }
    pub fn show_bit(&self, b: Bit, d: u32) -> String {
        let n = if b & 1 == 1 { "!" } else { "" };
        match &self.bits[(b >> 1) as usize] {
            BN::Const => (b & 1).to_string(),
            BN::Var(v) => format!("{}x{}", n, v),
            BN::Atom(w, i) => format!("{}w{}.{}", n, w, i),
            BN::Xor(v) | BN::And(v) => {
                let c = if matches!(self.bits[(b >> 1) as usize], BN::Xor(_)) { "^" } else { "&" };
                if d == 0 {
                    return format!("{}n{}", n, b >> 1);
                }
                format!("{}({})", n, v.iter().take(10).map(|&x| self.show_bit(x, d - 1)).collect::<Vec<_>>().join(c))
            }
        }
    }
    pub fn show_word(&self, w: u32) -> String {
        match &self.words[w as usize] {
            WN::Poly { width, cst, exact, terms } => format!(
                "w{} = poly{}{} {:x} {}",
                w,
                width,
                if *exact { "e" } else { "" },
                cst,
                terms
                    .iter()
                    .map(|t| format!("+ {:x}*{}", t.coef, t.factors.iter().map(|f| self.show_bv(&self.bvs[*f as usize])).collect::<Vec<_>>().join("*")))
                    .collect::<Vec<_>>()
                    .join(" ")
            ),
            WN::Sbox(b) => format!("sbox w{} {}", w, self.show_bv(&self.bvs[*b as usize])),
            w => format!("{:?}", w),
        }
    }
    /// earliest word pairs with equal simulation values but different structure
    pub fn debug_dups(&self, max: usize) {
        if std::env::var("SYMEX_BITDUPS").is_ok() {
            let mut m: Map<u64, u32> = Map::default();
            let mut n = 0;
            for i in 1..self.bits.len() as u32 {
                let s = self.sig[i as usize];
                let s = if s & 1 == 1 { !s } else { s };
                if let Some(o) = m.get(&s) {
                    eprintln!("BITDUP n{} n{}\n  {}\n  {}", o, i, self.show_bit(o << 1, 3), self.show_bit(i << 1, 3));
                    n += 1;
                    if n > max {
                        return;
                    }
                } else {
                    m.insert(s, i);
                }
            }
            return;
        }
        let mut m: Map<Vec<u64>, u32> = Map::default();
        let mut n = 0;
        for x in std::env::var("SYMEX_SHOW").unwrap_or_default().split(',').filter_map(|x| x.parse::<u32>().ok()) {
            eprintln!("WORD {}", self.show_word(x));
        }
        for w in 0..self.words.len() as u32 {
            let mut s = vec![];
            let mut i = 0;
            while let Some(&b) = self.bmap.get(&BN::Atom(w, i)) {
                s.push(self.sig[b as usize]);
                i += 1;
            }
            if s.len() < 4 {
                continue;
            }
            if let Some(o) = m.get(&s) {
                eprintln!("DUP\n  {}\n  {}", self.show_word(*o), self.show_word(w));
                n += 1;
                if n >= max {
                    return;
                }
            } else {
                m.insert(s, w);
            }
        }
    }
}

#[cfg(test)]
mod tests {
    const FUZZ_ROUNDS: u64 = 6000;
    use super::*;
    #[test]
    fn bits_fuzz() {
        let mut seed = 12345u64;
        let mut rnd = move || {
            seed ^= seed << 13;
            seed ^= seed >> 7;
            seed ^= seed << 17;
            seed
        };
        for round in 0..3000 {
            let mut t = Terms::new(1);
            let mut v: Vec<(Bit, u64)> = vec![];
            for _ in 0..6 {
                let b = t.var();
                let s = t.sigof(b);
                v.push((b, s));
            }
            for step in 0..40 {
                let a = v[(rnd() % v.len() as u64) as usize];
                let b = v[(rnd() % v.len() as u64) as usize];
                let (na, nb) = ((rnd() & 1) as u32, (rnd() & 1) as u32);
                let (x, sx) = (a.0 ^ na, if na == 1 { !a.1 } else { a.1 });
                let (y, sy) = (b.0 ^ nb, if nb == 1 { !b.1 } else { b.1 });
                let (r, s) = match rnd() % 3 {
                    0 => (t.and(x, y), sx & sy),
                    1 => (t.or(x, y), sx | sy),
                    _ => (t.xor(x, y), sx ^ sy),
                };
                // evaluate the stored structure, not the recorded signature
                for k in [3u32, 17, 29, 41, 55, 60, 63, 0] {
                    let mut m = Model::default();
                    for i in 0..6 {
                        m.vars.push((v[i].1 >> k) & 1 == 1);
                    }
                    let mut ev = Eval::new();
                    assert_eq!(ev.bit(&t, &m, r), (s >> k) & 1 == 1, "round {} step {}", round, step);
                }
                assert_eq!(t.sigof(r), s, "sig round {} step {}", round, step);
                v.push((r, s));
            }
        }
    }

    #[test]
    fn words_fuzz() {
        let mut seed = 777u64;
        let mut rnd = move || {
            seed ^= seed << 13;
            seed ^= seed >> 7;
            seed ^= seed << 17;
            seed
        };
        for round in 0..FUZZ_ROUNDS {
            let mut t = Terms::new(round);
            let mut vars = vec![];
            let mut v: Vec<(Vec<Bit>, [u64; 64])> = vec![];
            let w = [8usize, 16, 32, 64][(rnd() % 4) as usize];
            let m = if w == 64 { !0u64 } else { (1 << w) - 1 };
            for _ in 0..3 {
                let n = 1 + (rnd() % w as u64) as usize;
                let bits: Vec<Bit> = (0..n).map(|_| t.var()).collect();
                vars.extend_from_slice(&bits);
                let mut val = [0u64; 64];
                for k in 0..64 {
                    for i in 0..n {
                        val[k] |= ((t.sigof(bits[i]) >> k) & 1) << i;
                    }
                }
                let mut bits = bits;
                bits.resize(w, F);
                v.push((bits, val));
            }
            for step in 0..14 {
                let a = v[(rnd() % v.len() as u64) as usize].clone();
                let b = v[(rnd() % v.len() as u64) as usize].clone();
                let c = rnd() & m & if rnd() & 1 == 0 { 0xff } else { !0 };
                let sh = (rnd() % w as u64) as usize;
                let mut val = [0u64; 64];
                let op = rnd() % 13;
                for k in 0..64 {
                    let (x, y) = (a.1[k], b.1[k]);
                    let sxv = ((x << (64 - w)) as i64 >> (64 - w)) as u64;
                    val[k] = m & match op {
                        0 => x.wrapping_add(y),
                        1 => x.wrapping_sub(y),
                        2 => x.wrapping_mul(y),
                        3 => x & y,
                        4 => x | y,
                        5 => x ^ y,
                        6 => x << sh,
                        7 => x >> sh,
                        8 => ((sxv as i64) >> sh) as u64,
                        9 => (x < y) as u64,
                        10 => x.wrapping_add(c),
                        11 => x.wrapping_mul(c),
                        _ => if y & 1 == 1 { x } else { x.wrapping_sub(c) },
                    };
                }
                let cb: Vec<Bit> = (0..w).map(|i| ((c >> i) & 1) as Bit).collect();
                let neg1 = mask(w as u32);
                let r: Vec<Bit> = match op {
                    0 => t.poly(w as u32, 0, &[(1, &a.0), (1, &b.0)]),
                    1 => t.poly(w as u32, 0, &[(1, &a.0), (neg1, &b.0)]),
                    2 => t.mul(w as u32, &a.0, &b.0),
                    3 => (0..w).map(|i| t.and(a.0[i], b.0[i])).collect(),
                    4 => (0..w).map(|i| t.or(a.0[i], b.0[i])).collect(),
                    5 => (0..w).map(|i| t.xor(a.0[i], b.0[i])).collect(),
                    6 => (0..w).map(|i| if i >= sh { a.0[i - sh] } else { F }).collect(),
                    7 => (0..w).map(|i| if i + sh < w { a.0[i + sh] } else { F }).collect(),
                    8 => (0..w).map(|i| a.0[(i + sh).min(w - 1)]).collect(),
                    9 => {
                        let u = t.ult(&a.0, &b.0);
                        (0..w).map(|i| if i == 0 { u } else { F }).collect()
                    }
                    10 => t.poly(w as u32, c as u128, &[(1, &a.0)]),
                    11 => t.mul(w as u32, &a.0, &cb),
                    _ => {
                        let d = t.poly(w as u32, 0u128.wrapping_sub(c as u128) & neg1, &[(1, &a.0)]);
                        (0..w).map(|i| t.mux(b.0[0], a.0[i], d[i])).collect()
                    }
                };
                for k in 0..64 {
                    let mut s = 0;
                    for i in 0..w {
                        s |= ((t.sigof(r[i]) >> k) & 1) << i;
                    }
                    if s != val[k] {
                        eprintln!("a = {}\nb = {}\nc = {:x} r = {}", t.show_bv(&a.0), t.show_bv(&b.0), c, t.show_bv(&r));
                        for i in 0..t.words.len() {
                            eprintln!("{}", t.show_word(i as u32));
                        }
                    }
                    assert_eq!(s, val[k], "sig round {} step {} op {} w {}", round, step, op, w);
                }
                for k in [2usize, 3, 17, 63] {
                    let mut m = Model::default();
                    for &b in &vars {
                        m.vars.push((t.sigof(b) >> k) & 1 == 1);
                    }
                    let mut ev = Eval::new();
                    let mut s = 0;
                    for i in 0..w {
                        s |= (ev.bit(&t, &m, r[i]) as u64) << i;
                    }
                    assert_eq!(s, val[k], "round {} step {} op {} w {}", round, step, op, w);
                }
                v.push((r, val));
            }
        }
    }
}
