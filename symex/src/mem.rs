//! Values and memory.
use crate::term::*;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum V {
    C(u64),
    S(Rc<[Bit]>),
}
impl V {
    pub fn mk(bits: Vec<Bit>) -> V {
        let mut c = 0u64;
        for (i, &b) in bits.iter().enumerate() {
            if b > 1 {
                return V::S(bits.into());
            }
            c |= (b as u64) << i;
        }
        V::C(c)
    }
    pub fn bits(&self, w: usize) -> Vec<Bit> {
        match self {
            V::C(c) => (0..w).map(|i| if i < 64 { ((c >> i) & 1) as Bit } else { 0 }).collect(),
            V::S(b) => {
                let mut r: Vec<Bit> = b.iter().copied().take(w).collect();
                r.resize(w, F);
                r
            }
        }
    }
    pub fn is_c(&self) -> bool {
        matches!(self, V::C(_))
    }
    pub fn c(&self) -> Option<u64> {
        match self {
            V::C(c) => Some(*c),
            _ => None,
        }
    }
    /// bits lo..lo+n
    pub fn ext(&self, lo: usize, n: usize) -> V {
        match self {
            V::C(c) => {
                let x = if lo >= 64 { 0 } else { c >> lo };
                V::C(if n >= 64 { x } else { x & ((1u64 << n) - 1) })
            }
            V::S(b) => {
                if lo == 0 && n >= b.len() {
                    return self.clone();
                }
                V::mk((lo..lo + n).map(|i| b.get(i).copied().unwrap_or(F)).collect())
            }
        }
    }
    /// self (low n bits) then hi
    pub fn cat(&self, n: usize, hi: &V, m: usize) -> V {
        match (self, hi) {
            (V::C(a), V::C(b)) => V::C((if n >= 64 { *a } else { a & ((1u64 << n) - 1) }) | if n >= 64 { 0 } else { b << n }),
            _ => {
                let mut v = self.bits(n);
                v.extend(hi.bits(m));
                V::mk(v)
            }
        }
    }
    pub fn set(&self, w: usize, lo: usize, n: usize, x: &V) -> V {
        match (self, x) {
            (V::C(a), V::C(b)) => {
                let m = if n >= 64 { !0u64 } else { ((1u64 << n) - 1) << lo };
                V::C((a & !m) | ((b << lo) & m))
            }
            _ => {
                let mut v = self.bits(w);
                let y = x.bits(n);
                v[lo..lo + n].copy_from_slice(&y);
                V::mk(v)
            }
        }
    }
}

pub const PS: usize = 256;
#[derive(Clone)]
pub struct Page {
    pub c: [u8; PS],
    pub m: [u64; PS / 64],
    pub s: Option<Box<[[Bit; 8]; PS]>>,
}
impl Page {
    fn zero() -> Page {
        Page { c: [0; PS], m: [0; PS / 64], s: None }
    }
    #[inline]
    fn any_sym(&self, o: usize, n: usize) -> bool {
        self.s.is_some() && (o..o + n).any(|i| (self.m[i >> 6] >> (i & 63)) & 1 == 1)
    }
}

#[derive(Clone)]
pub struct Mem {
    pages: Map<u64, Rc<Page>>,
}

impl Mem {
    pub fn new() -> Mem {
        Mem { pages: Map::default() }
    }
    pub fn init(&mut self, addr: u64, d: &[u8]) {
        for (i, &b) in d.iter().enumerate() {
            let a = addr + i as u64;
            let p = self.pages.entry(a / PS as u64).or_insert_with(|| Rc::new(Page::zero()));
            Rc::make_mut(p).c[(a % PS as u64) as usize] = b;
        }
    }
    fn page_mut(&mut self, a: u64) -> &mut Page {
        let p = self.pages.entry(a / PS as u64).or_insert_with(|| Rc::new(Page::zero()));
        Rc::make_mut(p)
    }
    pub fn byte(&self, a: u64) -> V {
        match self.pages.get(&(a / PS as u64)) {
            None => V::C(0),
            Some(p) => {
                let o = (a % PS as u64) as usize;
                if p.any_sym(o, 1) {
                    V::S(p.s.as_ref().unwrap()[o].as_slice().into())
                } else {
                    V::C(p.c[o] as u64)
                }
            }
        }
    }
    pub fn load(&self, a: u64, n: usize) -> V {
        let o = (a % PS as u64) as usize;
        if o + n <= PS {
            match self.pages.get(&(a / PS as u64)) {
                None => return V::C(0),
                Some(p) => {
                    if !p.any_sym(o, n) {
                        let mut x = 0u64;
                        for i in (0..n).rev() {
                            x = (x << 8) | p.c[o + i] as u64;
                        }
                        return V::C(x);
                    }
                    let s = p.s.as_ref().unwrap();
                    let mut v = Vec::with_capacity(n * 8);
                    for i in o..o + n {
                        if (p.m[i >> 6] >> (i & 63)) & 1 == 1 {
                            v.extend_from_slice(&s[i]);
                        } else {
                            for k in 0..8 {
                                v.push(((p.c[i] >> k) & 1) as Bit);
                            }
                        }
                    }
                    return V::mk(v);
                }
            }
        }
        let k = PS - o;
        let lo = self.load(a, k);
        let hi = self.load(a + k as u64, n - k);
        lo.cat(k * 8, &hi, (n - k) * 8)
    }
    pub fn store(&mut self, a: u64, n: usize, v: &V) {
        let o = (a % PS as u64) as usize;
        if o + n > PS {
            let k = PS - o;
            self.store(a, k, &v.ext(0, k * 8));
            self.store(a + k as u64, n - k, &v.ext(k * 8, (n - k) * 8));
            return;
        }
        let p = self.page_mut(a);
        match v {
            V::C(c) => {
                for i in 0..n {
                    p.c[o + i] = (c >> (8 * i)) as u8;
                    p.m[(o + i) >> 6] &= !(1 << ((o + i) & 63));
                }
            }
            V::S(b) => {
                if p.s.is_none() {
                    p.s = Some(Box::new([[0; 8]; PS]));
                }
                let s = p.s.as_mut().unwrap();
                for i in 0..n {
                    let mut x = [F; 8];
                    for k in 0..8 {
                        x[k] = b.get(i * 8 + k).copied().unwrap_or(F);
                    }
                    let ix = o + i;
                    if x.iter().all(|&q| q <= 1) {
                        let mut c = 0u8;
                        for k in 0..8 {
                            c |= (x[k] as u8) << k;
                        }
                        p.c[ix] = c;
                        p.m[ix >> 6] &= !(1 << (ix & 63));
                    } else {
                        s[ix] = x;
                        p.m[ix >> 6] |= 1 << (ix & 63);
                    }
                }
            }
        }
    }
}
