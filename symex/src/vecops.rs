//! Vector instructions (SSE..AVX-512 subset, AES, SHA, PCLMUL).
use crate::dis::{Insn, Op};
use crate::exec::*;
use crate::mem::V;
use crate::term::*;

type Lanes = Vec<V>;

fn m64(w: u32) -> u64 {
    if w >= 64 { !0 } else { (1u64 << w) - 1 }
}

impl Eng {
    /// vector operand as 64-bit lanes, `n` bytes
    pub fn getx(&mut self, st: &mut St, o: &Op, n: usize) -> Result<Lanes, Stop> {
        match o {
            Op::X(r, _) => {
                let mut v: Lanes = st.x[*r as usize][..(n + 7) / 8].to_vec();
                if n < 8 {
                    v[0] = v[0].ext(0, n * 8);
                }
                Ok(v)
            }
            Op::M(m) => {
                let a = self.ea(st, m)?;
                if m.bcast > 0 {
                    let e = m.size as usize;
                    let v = self.load(st, a, e)?;
                    let lane = if e == 8 { v } else { v.cat(32, &v, 32) };
                    return Ok(vec![lane; n / 8]);
                }
                let mut r = vec![];
                if n < 8 {
                    return Ok(vec![self.load(st, a, n)?]);
                }
                self.check_addr(st, a, n as u64, false)?;
                for k in 0..n / 8 {
                    r.push(st.mem.load(a + 8 * k as u64, 8));
                }
                Ok(r)
            }
            Op::R(r, s, _) => Ok(vec![self.getr(st, *r, *s, false)]),
            _ => Err(Stop::Err("getx".into())),
        }
    }
    /// write a vector destination; VEX forms clear the upper part
    pub fn putx(&mut self, st: &mut St, i: &Insn, o: &Op, v: Lanes, esz: usize) -> Result<(), Stop> {
        match o {
            Op::X(r, _) => {
                let v = self.apply_mask(st, i, *r, v, esz)?;
                let x = &mut st.x[*r as usize];
                let n = v.len();
                for (k, l) in v.into_iter().enumerate() {
                    x[k] = l;
                }
                if i.vex {
                    for k in n..8 {
                        x[k] = V::C(0);
                    }
                }
                Ok(())
            }
            Op::M(m) => {
                if i.mask.map_or(false, |k| k != 0) {
                    return Err(Stop::Err(format!("masked store {}", i.text)));
                }
                let a = self.ea(st, m)?;
                self.check_addr(st, a, 8 * v.len() as u64, true)?;
                for (k, l) in v.iter().enumerate() {
                    st.mem.store(a + 8 * k as u64, 8, l);
                }
                Ok(())
            }
            _ => Err(Stop::Err("putx".into())),
        }
    }
    fn apply_mask(&mut self, st: &mut St, i: &Insn, r: u8, v: Lanes, esz: usize) -> Result<Lanes, Stop> {
        let Some(k) = i.mask else { return Ok(v) };
        if k == 0 {
            return Ok(v);
        }
        let kb = st.k[k as usize].bits(64);
        let old = st.x[r as usize].clone();
        let per = 64 / esz;
        let mut out = vec![];
        for (li, l) in v.iter().enumerate() {
            let mut acc = V::C(0);
            for e in 0..per {
                let b = kb[li * per + e];
                let nv = l.ext(e * esz, esz);
                let ov = if i.zeroing { V::C(0) } else { old[li].ext(e * esz, esz) };
                let x = self.mux(esz as u32, b, &nv, &ov);
                acc = acc.set(64, e * esz, esz, &x);
            }
            out.push(acc);
        }
        Ok(out)
    }
    fn elems(&mut self, a: &V, b: &V, esz: u32, f: &mut dyn FnMut(&mut Eng, u32, V, V) -> V) -> V {
        if esz == 64 {
            return f(self, 64, a.clone(), b.clone());
        }
        let n = 64 / esz;
        if let (V::C(x), V::C(y)) = (a, b) {
            let mut r = 0u64;
            let mut parts: Option<Vec<V>> = None;
            for k in 0..n {
                let p = f(self, esz, V::C((x >> (k * esz)) & m64(esz)), V::C((y >> (k * esz)) & m64(esz)));
                match p {
                    V::C(c) if parts.is_none() => r |= (c & m64(esz)) << (k * esz),
                    p => {
                        parts.get_or_insert_with(|| (0..k).map(|q| V::C((r >> (q * esz)) & m64(esz))).collect()).push(p);
                    }
                }
            }
            if let Some(ps) = parts {
                let mut v = vec![];
                for p in ps {
                    v.extend(p.bits(esz as usize));
                }
                return V::mk(v);
            }
            return V::C(r);
        }
        let mut v = Vec::with_capacity(64);
        for k in 0..n as usize {
            let e = esz as usize;
            let p = f(self, esz, a.ext(k * e, e), b.ext(k * e, e));
            v.extend(p.bits(e));
        }
        V::mk(v)
    }
}

fn nbytes(e: &Eng, i: &Insn) -> usize {
    for o in &i.ops {
        if let Op::X(_, s) = o {
            return *s as usize;
        }
    }
    e.osize(&i.ops[0]) as usize
}

/// destination and two sources for 2- or 3-operand forms
fn srcs<'a>(i: &'a Insn) -> (&'a Op, &'a Op, &'a Op) {
    if i.vex && i.ops.len() >= 3 && !matches!(i.ops[2], Op::I(_)) {
        (&i.ops[0], &i.ops[1], &i.ops[2])
    } else {
        (&i.ops[0], &i.ops[0], &i.ops[1])
    }
}

fn binop(e: &mut Eng, st: &mut St, i: &Insn, esz: u32, f: &mut dyn FnMut(&mut Eng, u32, V, V) -> V) -> Res {
    let n = nbytes(e, i);
    let (d, a, b) = srcs(i);
    let x = e.getx(st, a, n)?;
    let y = e.getx(st, b, n)?;
    let mut r = vec![];
    for k in 0..n / 8 {
        r.push(e.elems(&x[k], &y[k], esz, f));
    }
    e.putx(st, i, d, r, esz as usize)?;
    Ok(Flow::Next)
}

fn vmov(e: &mut Eng, st: &mut St, i: &Insn) -> Res {
    let n = nbytes(e, i);
    let v = e.getx(st, &i.ops[1], n)?;
    let esz = if i.aux == 0 { 64 } else { i.aux };
    e.putx(st, i, &i.ops[0], v, esz as usize)?;
    Ok(Flow::Next)
}
/// movd/movq: aux = bits
fn vmovd(e: &mut Eng, st: &mut St, i: &Insn) -> Res {
    let w = i.aux;
    let v = match &i.ops[1] {
        Op::X(r, _) => st.x[*r as usize][0].ext(0, w as usize),
        o => e.get(st, o, w)?,
    };
    match &i.ops[0] {
        Op::X(r, _) => {
            let x = &mut st.x[*r as usize];
            x[0] = V::mk(v.bits(64));
            x[1] = V::C(0);
            if i.vex {
                for k in 2..8 {
                    x[k] = V::C(0);
                }
            }
        }
        Op::R(r, s, _) => e.setr(st, *r, *s, false, v),
        o => e.put(st, o, w, v)?,
    }
    Ok(Flow::Next)
}
/// scalar moves movss/movsd: aux bits
fn vmovs(e: &mut Eng, st: &mut St, i: &Insn) -> Res {
    let w = i.aux as usize;
    if i.ops.len() == 3 {
        return Err(Stop::Err(i.text.clone()));
    }
    match (&i.ops[0], &i.ops[1]) {
        (Op::X(d, _), Op::X(s, _)) => {
            let v = st.x[*s as usize][0].ext(0, w);
            let r = st.x[*d as usize][0].set(64, 0, w, &v);
            st.x[*d as usize][0] = r;
        }
        (Op::X(d, _), o) => {
            let v = e.get(st, o, w as u32)?;
            let x = &mut st.x[*d as usize];
            x[0] = V::mk(v.bits(64));
            x[1] = V::C(0);
            if i.vex {
                for k in 2..8 {
                    x[k] = V::C(0);
                }
            }
        }
        (o, Op::X(s, _)) => {
            let v = st.x[*s as usize][0].ext(0, w);
            e.put(st, o, w as u32, v)?;
        }
        _ => return Err(Stop::Err(i.text.clone())),
    }
    Ok(Flow::Next)
}
/// movhps/movlps/movhpd/movlpd: aux 0 low 1 high
fn vmovhl(e: &mut Eng, st: &mut St, i: &Insn) -> Res {
    let k = i.aux as usize;
    match &i.ops[0] {
        Op::M(_) => {
            let Op::X(s, _) = i.ops[1] else { return Err(Stop::Err(i.text.clone())) };
            let v = st.x[s as usize][k].clone();
            e.put(st, &i.ops[0], 64, v)?;
        }
        Op::X(d, _) => {
            let (base, m) = if i.ops.len() == 3 { (&i.ops[1], &i.ops[2]) } else { (&i.ops[0], &i.ops[1]) };
            let Op::X(b, _) = base else { return Err(Stop::Err(i.text.clone())) };
            let v = e.get(st, m, 64)?;
            let mut l = [st.x[*b as usize][0].clone(), st.x[*b as usize][1].clone()];
            l[k] = v;
            let x = &mut st.x[*d as usize];
            let [p, q] = l;
            x[0] = p;
            x[1] = q;
            if i.vex {
                for k in 2..8 {
                    x[k] = V::C(0);
                }
            }
        }
        _ => return Err(Stop::Err(i.text.clone())),
    }
    Ok(Flow::Next)
}
/// movlhps (0) / movhlps (1)
fn movlh(e: &mut Eng, st: &mut St, i: &Insn) -> Res {
    let (d, a, b) = srcs(i);
    let x = e.getx(st, a, 16)?;
    let y = e.getx(st, b, 16)?;
    let r = if i.aux == 0 { vec![x[0].clone(), y[0].clone()] } else { vec![y[1].clone(), x[1].clone()] };
    e.putx(st, i, d, r, 64)?;
    Ok(Flow::Next)
}

macro_rules! bin {
    ($n:ident, $f:expr) => {
        fn $n(e: &mut Eng, st: &mut St, i: &Insn) -> Res {
            let sz = i.aux;
            binop(e, st, i, sz, &mut $f)
        }
    };
}
bin!(padd, |e: &mut Eng, w, a, b| e.add(w, &a, &b));
bin!(psub, |e: &mut Eng, w, a, b| e.sub(w, &a, &b));
bin!(pand, |e: &mut Eng, w, a, b| e.and(w, &a, &b));
bin!(por, |e: &mut Eng, w, a, b| e.or(w, &a, &b));
bin!(pxor_, |e: &mut Eng, w, a, b| e.xor(w, &a, &b));
bin!(pandn, |e: &mut Eng, w, a, b| {
    let n = e.not(w, &a);
    e.and(w, &n, &b)
});
bin!(pmull, |e: &mut Eng, w, a, b| e.mul_wide(w, &a, &b, true).0);
bin!(pmulhs, |e: &mut Eng, w, a, b| e.mul_wide(w, &a, &b, true).1);
bin!(pmulhu, |e: &mut Eng, w, a, b| e.mul_wide(w, &a, &b, false).1);
bin!(pmuludq, |e: &mut Eng, _w, a: V, b: V| {
    let (lo, hi) = e.mul_wide(32, &a.ext(0, 32), &b.ext(0, 32), false);
    lo.cat(32, &hi, 32)
});
bin!(pmulhrs, |e: &mut Eng, _w, a: V, b: V| {
    let (lo, hi) = e.mul_wide(16, &a, &b, true);
    let p = lo.cat(16, &hi, 16);
    let p = e.sar_c(32, &p, 14);
    let p = e.add(32, &p, &V::C(1));
    p.ext(1, 16)
});
bin!(pcmpeq, |e: &mut Eng, w: u32, a, b| {
    let q = e.eqv(w, &a, &b);
    V::mk(vec![q; w as usize])
});
bin!(pcmpgt, |e: &mut Eng, w: u32, a, b| {
    let q = e.slt(w, &b, &a);
    V::mk(vec![q; w as usize])
});
bin!(pminu, |e: &mut Eng, w, a, b| {
    let c = e.ult(w, &a, &b);
    e.mux(w, c, &a, &b)
});
bin!(pmaxu, |e: &mut Eng, w, a, b| {
    let c = e.ult(w, &a, &b);
    e.mux(w, c, &b, &a)
});
bin!(pmins, |e: &mut Eng, w, a, b| {
    let c = e.slt(w, &a, &b);
    e.mux(w, c, &a, &b)
});
bin!(pmaxs, |e: &mut Eng, w, a, b| {
    let c = e.slt(w, &a, &b);
    e.mux(w, c, &b, &a)
});

fn pxor(e: &mut Eng, st: &mut St, i: &Insn) -> Res {
    let (d, a, b) = srcs(i);
    if let (Op::X(_, s), Op::X(p, _), Op::X(q, _)) = (d, a, b) {
        if p == q {
            let n = *s as usize / 8;
            e.putx(st, i, d, vec![V::C(0); n], 64)?;
            return Ok(Flow::Next);
        }
    }
    let mut j = i.clone();
    if j.aux == 0 {
        j.aux = 64;
    }
    pxor_(e, st, &j)
}
/// pmaddwd
fn pmaddwd(e: &mut Eng, st: &mut St, i: &Insn) -> Res {
    binop(e, st, i, 32, &mut |e: &mut Eng, _w, a: V, b: V| {
        let (l0, h0) = e.mul_wide(16, &a.ext(0, 16), &b.ext(0, 16), true);
        let (l1, h1) = e.mul_wide(16, &a.ext(16, 16), &b.ext(16, 16), true);
        let x = l0.cat(16, &h0, 16);
        let y = l1.cat(16, &h1, 16);
        e.add(32, &x, &y)
    })
}
/// shifts: aux = esz | op<<8 (0 l, 1 r, 2 ar) ; count imm or xmm low quad
fn pshift(e: &mut Eng, st: &mut St, i: &Insn) -> Res {
    let esz = i.aux & 0xff;
    let op = i.aux >> 8;
    let n = nbytes(e, i);
    let (d, a, c) = if i.ops.len() == 3 { (&i.ops[0], &i.ops[1], &i.ops[2]) } else { (&i.ops[0], &i.ops[0], &i.ops[1]) };
    let x = e.getx(st, a, n)?;
    let cnt = match c {
        Op::I(v) => *v & 0xff,
        o => {
            let v = e.getx(st, o, 16)?[0].clone();
            e.conc(st, &v, 64)?
        }
    };
    let cnt = cnt.min(200) as u32;
    let mut r = vec![];
    for l in &x {
        r.push(e.elems(l, &V::C(0), esz, &mut |e: &mut Eng, w, a, _| match op {
            0 => e.shl_c(w, &a, cnt),
            1 => e.shr_c(w, &a, cnt),
            _ => e.sar_c(w, &a, cnt),
        }));
    }
    e.putx(st, i, d, r, esz as usize)?;
    Ok(Flow::Next)
}
/// variable per-element shifts
fn pshiftv(e: &mut Eng, st: &mut St, i: &Insn) -> Res {
    let esz = i.aux & 0xff;
    let op = i.aux >> 8;
    binop(e, st, i, esz, &mut |e: &mut Eng, w, a: V, b: V| match b {
        V::C(c) => {
            let c = c.min(200) as u32;
            match op {
                0 => e.shl_c(w, &a, c),
                1 => e.shr_c(w, &a, c),
                _ => e.sar_c(w, &a, c),
            }
        }
        _ => {
            let lo = b.ext(0, 8);
            let r = var_shift(e, w, &a, &lo, op);
            let hi = b.ext(8, w as usize - 8);
            let z = e.is_zero(w - 8, &hi);
            let alt = if op == 2 { e.sar_c(w, &a, w - 1) } else { V::C(0) };
            e.mux(w, z, &r, &alt)
        }
    })
}
/// rotates with immediate: vprold/vprolq/vprord/vprorq: aux = esz | op<<8
fn vprot(e: &mut Eng, st: &mut St, i: &Insn) -> Res {
    let esz = i.aux & 0xff;
    let n = nbytes(e, i);
    let x = e.getx(st, &i.ops[1], n)?;
    let Op::I(c) = i.ops[2] else { return Err(Stop::Err(i.text.clone())) };
    let c = c as u32 % esz;
    let c = if i.aux >> 8 == 0 { c } else { (esz - c) % esz };
    let mut r = vec![];
    for l in &x {
        r.push(e.elems(l, &V::C(0), esz, &mut |e: &mut Eng, w, a, _| e.rol_c(w, &a, c)));
    }
    e.putx(st, i, &i.ops[0], r, esz as usize)?;
    Ok(Flow::Next)
}

/// build lanes from bytes selected out of `src` lanes
fn gather(src: &[V], n: usize, f: impl Fn(usize) -> Option<usize>) -> Lanes {
    let mut out = vec![];
    for l in 0..(n + 7) / 8 {
        let mut c = 0u64;
        let mut sym: Option<Vec<Bit>> = None;
        for k in 0..8 {
            let s = f(l * 8 + k);
            let b = match s {
                None => V::C(0),
                Some(j) => src[j / 8].ext((j % 8) * 8, 8),
            };
            match (&b, &mut sym) {
                (V::C(x), None) => c |= x << (8 * k),
                (b, Some(v)) => v.extend(b.bits(8)),
                (b, None) => {
                    let mut v: Vec<Bit> = V::C(c).bits(8 * k);
                    v.extend(b.bits(8));
                    sym = Some(v);
                }
            }
        }
        out.push(match sym {
            None => V::C(c),
            Some(v) => V::mk(v),
        });
    }
    out
}

fn pshufb(e: &mut Eng, st: &mut St, i: &Insn) -> Res {
    let n = nbytes(e, i);
    let (d, a, b) = srcs(i);
    let x = e.getx(st, a, n)?;
    let c = e.getx(st, b, n)?;
    if c.iter().any(|v| !v.is_c()) {
        let mut out = vec![];
        for l in 0..n / 8 {
            let mut bits = vec![];
            for k in 0..8 {
                let cb = c[l].ext(8 * k, 8);
                let base = (l * 8 / 16) * 16;
                let r = match cb {
                    V::C(v) => {
                        if v & 0x80 != 0 {
                            V::C(0)
                        } else {
                            let j = base + (v & 15) as usize;
                            x[j / 8].ext((j % 8) * 8, 8)
                        }
                    }
                    V::S(s) => {
                        let mut opts: Vec<V> = (0..16).map(|q| x[(base + q) / 8].ext(((base + q) % 8) * 8, 8)).collect();
                        for lev in 0..4 {
                            let mut nx = vec![];
                            for p in opts.chunks(2) {
                                nx.push(e.mux(8, s[lev], &p[1], &p[0]));
                            }
                            opts = nx;
                        }
                        e.mux(8, s[7], &V::C(0), &opts[0])
                    }
                };
                bits.extend(r.bits(8));
            }
            out.push(V::mk(bits));
        }
        e.putx(st, i, d, out, 8)?;
        return Ok(Flow::Next);
    }
    let ctl: Vec<u8> = c.iter().flat_map(|v| v.c().unwrap().to_le_bytes()).collect();
    let r = gather(&x, n, |k| {
        let m = ctl[k];
        if m & 0x80 != 0 { None } else { Some((k / 16) * 16 + (m & 15) as usize) }
    });
    e.putx(st, i, d, r, 8)?;
    Ok(Flow::Next)
}
fn imm(i: &Insn) -> Result<u64, Stop> {
    match i.ops.last() {
        Some(Op::I(v)) => Ok(*v),
        _ => Err(Stop::Err(format!("no immediate: {}", i.text))),
    }
}
/// two-source shuffles with immediates. aux selects.
fn shuf(e: &mut Eng, st: &mut St, i: &Insn) -> Res {
    let n = nbytes(e, i);
    let im = imm(i)? as usize;
    let d = &i.ops[0];
    let has3 = i.ops.len() == 4 || (i.ops.len() == 3 && !i.vex && matches!(i.aux, 1 | 2 | 3 | 9 | 10));
    let (a, b) = if i.ops.len() == 4 {
        (&i.ops[1], &i.ops[2])
    } else if has3 {
        (&i.ops[0], &i.ops[1])
    } else {
        (&i.ops[1], &i.ops[1])
    };
    let mut src = e.getx(st, a, n)?;
    let y = e.getx(st, b, n)?;
    src.extend(y);
    let esz = match i.aux {
        7 | 8 => 64,
        2 => 16,
        _ => 32,
    };
    let r = gather(&src, n, |k| {
        let lane = k / 16;
        let o = k % 16;
        Some(match i.aux {
            // pshufd
            0 => lane * 16 + ((im >> (2 * (o / 4))) & 3) * 4 + o % 4,
            // palignr: (a:b) >> imm bytes
            1 => {
                let s = o + im;
                if s < 16 {
                    n + lane * 16 + s
                } else if s < 32 {
                    lane * 16 + s - 16
                } else {
                    return None;
                }
            }
            // pblendw
            2 => if (im >> (o / 2)) & 1 == 1 { n + k } else { k },
            // shufps
            3 => {
                let sel = (im >> (2 * (o / 4))) & 3;
                let base = if o / 4 < 2 { 0 } else { n };
                base + lane * 16 + sel * 4 + o % 4
            }
            // pshuflw
            4 => if o < 8 { lane * 16 + ((im >> (2 * (o / 2))) & 3) * 2 + o % 2 } else { k },
            // pshufhw
            5 => if o >= 8 { lane * 16 + 8 + ((im >> (2 * ((o - 8) / 2))) & 3) * 2 + o % 2 } else { k },
            // vpblendd
            6 => if (im >> (k / 4)) & 1 == 1 { n + k } else { k },
            // vpermq
            7 => (k / 32) * 32 + ((im >> (2 * ((k % 32) / 8))) & 3) * 8 + k % 8,
            // vperm2i128
            8 => {
                let c = (im >> (4 * (k / 16))) & 15;
                if c & 8 != 0 {
                    return None;
                }
                (c & 3) * 16 + o
            }
            // shufpd
            9 => {
                let bit = (im >> (k / 8)) & 1;
                let base = if o < 8 { 0 } else { n };
                base + lane * 16 + bit * 8 + o % 8
            }
            // blendps
            10 => if (im >> (k / 4)) & 1 == 1 { n + k } else { k },
            _ => unreachable!(),
        })
    });
    e.putx(st, i, d, r, esz)?;
    Ok(Flow::Next)
}
/// whole-vector lane shuffles vshufi32x4 / vshufi64x2, valignq/d : aux
fn shuf_wide(e: &mut Eng, st: &mut St, i: &Insn) -> Res {
    let n = nbytes(e, i);
    let im = imm(i)? as usize;
    let mut src = e.getx(st, &i.ops[1], n)?;
    src.extend(e.getx(st, &i.ops[2], n)?);
    let r = gather(&src, n, |k| {
        let q = k / 16;
        let nl = n / 16;
        Some(match i.aux {
            0 => {
                if nl == 4 {
                    let s = (im >> (2 * q)) & 3;
                    (if q < 2 { 0 } else { n }) + s * 16 + k % 16
                } else {
                    let s = (im >> q) & 1;
                    (if q < 1 { 0 } else { n }) + s * 16 + k % 16
                }
            }
            z => {
                let es = z as usize;
                let s = k + (im % (n / es)) * es;
                // concat a:b shifted right: low part from b
                if s < n { n + s } else { s - n }
            }
        })
    });
    e.putx(st, i, &i.ops[0], r, 64)?;
    Ok(Flow::Next)
}
/// punpck: aux = esz bytes | hi<<8
fn punpck(e: &mut Eng, st: &mut St, i: &Insn) -> Res {
    let n = nbytes(e, i);
    let (d, a, b) = srcs(i);
    let es = (i.aux & 0xff) as usize;
    let hi = (i.aux >> 8) as usize;
    let mut src = e.getx(st, a, n)?;
    src.extend(e.getx(st, b, n)?);
    let r = gather(&src, n, |k| {
        let lane = k / 16;
        let o = k % 16;
        let idx = o / es;
        let el = idx / 2 + hi * (8 / es);
        Some((idx % 2) * n + lane * 16 + el * es + o % es)
    });
    e.putx(st, i, d, r, es * 8)?;
    Ok(Flow::Next)
}
/// pack with saturation: aux = source bits | unsigned<<8
fn pack(e: &mut Eng, st: &mut St, i: &Insn) -> Res {
    let n = nbytes(e, i);
    let (d, a, b) = srcs(i);
    let es = i.aux & 0xff;
    let uns = i.aux >> 8 == 1;
    let x = e.getx(st, a, n)?;
    let y = e.getx(st, b, n)?;
    let half = (es / 2) as usize;
    let mut bits: Vec<Bit> = vec![];
    for lane in 0..n / 16 {
        for s in [&x, &y] {
            for k in 0..(128 / es) as usize {
                let off = k * es as usize;
                let v = s[lane * 2 + off / 64].ext(off % 64, es as usize);
                let (lo, hi) = if uns { (0i64, (1i64 << half) - 1) } else { (-(1i64 << (half - 1)), (1i64 << (half - 1)) - 1) };
                let lov = V::C(lo as u64 & m64(es));
                let hiv = V::C(hi as u64 & m64(es));
                let c = e.slt(es, &v, &lov);
                let v1 = e.mux(es, c, &lov, &v);
                let c = e.slt(es, &hiv, &v);
                let v2 = e.mux(es, c, &hiv, &v1);
                bits.extend(v2.bits(half));
            }
        }
    }
    let r: Lanes = bits.chunks(64).map(|c| V::mk(c.to_vec())).collect();
    e.putx(st, i, d, r, half)?;
    Ok(Flow::Next)
}
/// pmovzx/pmovsx: aux = from | to<<8 | signed<<16
fn pmovx(e: &mut Eng, st: &mut St, i: &Insn) -> Res {
    let n = nbytes(e, i);
    let (f, t, s) = (i.aux & 0xff, (i.aux >> 8) & 0xff, i.aux >> 16);
    let cnt = n * 8 / t as usize;
    let x = e.getx(st, &i.ops[1], (cnt * f as usize / 8).max(1))?;
    let mut bits = vec![];
    for k in 0..cnt {
        let off = k * f as usize;
        let v = x[off / 64].ext(off % 64, f as usize);
        let v = if s == 1 { e.sext(&v, f, t) } else { v };
        bits.extend(v.bits(t as usize));
    }
    let r: Lanes = bits.chunks(64).map(|c| V::mk(c.to_vec())).collect();
    e.putx(st, i, &i.ops[0], r, t as usize)?;
    Ok(Flow::Next)
}
/// pslldq/psrldq
fn pshdq(e: &mut Eng, st: &mut St, i: &Insn) -> Res {
    let n = nbytes(e, i);
    let c = imm(i)? as usize;
    let a = if i.ops.len() == 3 { &i.ops[1] } else { &i.ops[0] };
    let x = e.getx(st, a, n)?;
    let r = gather(&x, n, |k| {
        let o = k % 16;
        if i.aux == 0 {
            if o >= c { Some(k - c) } else { None }
        } else if o + c < 16 {
            Some(k + c)
        } else {
            None
        }
    });
    e.putx(st, i, &i.ops[0], r, 64)?;
    Ok(Flow::Next)
}
/// vpermd / vpermq with vector index / vpermi2.. not supported
fn vpermd(e: &mut Eng, st: &mut St, i: &Insn) -> Res {
    let n = nbytes(e, i);
    let es = i.aux as usize;
    if es == 8 {
        if let Some(Op::I(_)) = i.ops.last() {
            let mut j = i.clone();
            j.aux = 7;
            return shuf(e, st, &j);
        }
    }
    let idx = e.getx(st, &i.ops[1], n)?;
    let x = e.getx(st, &i.ops[2], n)?;
    let mut ix = vec![];
    for k in 0..n / es {
        let off = k * es * 8;
        let v = idx[off / 64].ext(off % 64, es * 8);
        let v = v.ext(0, (n / es).trailing_zeros() as usize);
        ix.push(e.conc(st, &v, 8)? as usize);
    }
    let r = gather(&x, n, |k| Some((ix[k / es] % (n / es)) * es + k % es));
    e.putx(st, i, &i.ops[0], r, es * 8)?;
    Ok(Flow::Next)
}
/// broadcasts: aux = element bytes
fn vbroadcast(e: &mut Eng, st: &mut St, i: &Insn) -> Res {
    let n = nbytes(e, i);
    let es = i.aux as usize;
    let v: Lanes = match &i.ops[1] {
        Op::M(m) => {
            let a = e.ea(st, m)?;
            if es < 8 {
                vec![e.load(st, a, es)?]
            } else {
                let mut r = vec![];
                for k in 0..es / 8 {
                    r.push(e.load(st, a + 8 * k as u64, 8)?);
                }
                r
            }
        }
        Op::R(r, s, _) => vec![e.getr(st, *r, *s, false)],
        o => e.getx(st, o, es.max(8))?,
    };
    let r = gather(&v, n, |k| Some(k % es));
    e.putx(st, i, &i.ops[0], r, (es * 8).min(64))?;
    Ok(Flow::Next)
}
/// extracti128 etc: aux = bytes of the piece
fn vextract(e: &mut Eng, st: &mut St, i: &Insn) -> Res {
    let es = i.aux as usize;
    let im = imm(i)? as usize;
    let Op::X(s, sz) = i.ops[1] else { return Err(Stop::Err(i.text.clone())) };
    let cnt = sz as usize / es;
    let k = (im % cnt.max(1)) * es / 8;
    let v = st.x[s as usize][k..k + es / 8].to_vec();
    e.putx(st, i, &i.ops[0], v, 64)?;
    Ok(Flow::Next)
}
fn vinsert(e: &mut Eng, st: &mut St, i: &Insn) -> Res {
    let es = i.aux as usize;
    let im = imm(i)? as usize;
    let n = nbytes(e, i);
    let mut v = e.getx(st, &i.ops[1], n)?;
    let p = e.getx(st, &i.ops[2], es)?;
    let k = (im % (n / es)) * es / 8;
    for j in 0..es / 8 {
        v[k + j] = p[j].clone();
    }
    e.putx(st, i, &i.ops[0], v, 64)?;
    Ok(Flow::Next)
}
/// pinsr: aux = bits
fn pinsr(e: &mut Eng, st: &mut St, i: &Insn) -> Res {
    let w = i.aux as usize;
    let im = imm(i)? as usize % (128 / w);
    let (a, b) = if i.ops.len() == 4 { (&i.ops[1], &i.ops[2]) } else { (&i.ops[0], &i.ops[1]) };
    let mut x = e.getx(st, a, 16)?;
    let v = match b {
        Op::R(r, _, _) => st.r[*r as usize].ext(0, w),
        o => e.get(st, o, w as u32)?,
    };
    let off = im * w;
    x[off / 64] = x[off / 64].set(64, off % 64, w, &v);
    e.putx(st, i, &i.ops[0], x, 64)?;
    Ok(Flow::Next)
}
fn pextr(e: &mut Eng, st: &mut St, i: &Insn) -> Res {
    let w = i.aux as usize;
    let im = imm(i)? as usize % (128 / w);
    let x = e.getx(st, &i.ops[1], 16)?;
    let off = im * w;
    let v = x[off / 64].ext(off % 64, w);
    match &i.ops[0] {
        Op::R(r, _, _) => {
            st.r[*r as usize] = V::mk(v.bits(64));
        }
        o => e.put(st, o, w as u32, v)?,
    }
    Ok(Flow::Next)
}
fn movmsk(e: &mut Eng, st: &mut St, i: &Insn) -> Res {
    let w = i.aux as usize;
    let n = match i.ops[1] {
        Op::X(_, s) => s as usize,
        _ => 16,
    };
    let x = e.getx(st, &i.ops[1], n)?;
    let mut bits = vec![];
    for k in 0..n * 8 / w {
        let off = k * w + w - 1;
        bits.push(x[off / 64].bits(64)[off % 64]);
    }
    bits.resize(64, F);
    let Op::R(r, _, _) = i.ops[0] else { return Err(Stop::Err(i.text.clone())) };
    st.r[r as usize] = V::mk(bits);
    Ok(Flow::Next)
}
fn ternlog(e: &mut Eng, st: &mut St, i: &Insn) -> Res {
    let n = nbytes(e, i);
    let im = imm(i)?;
    let a = e.getx(st, &i.ops[0], n)?;
    let b = e.getx(st, &i.ops[1], n)?;
    let c = e.getx(st, &i.ops[2], n)?;
    let mut r = vec![];
    for k in 0..n / 8 {
        let (p, q, s) = (&a[k], &b[k], &c[k]);
        // algebraic normal form of the table, index = a<<2|b<<1|c
        let mut anf = im as u8;
        for v in 0..3 {
            let m: u8 = [0xaa, 0xcc, 0xf0][v];
            anf ^= (anf & !m) << (1 << v);
        }
        let mut acc = if anf & 1 == 1 { V::C(!0) } else { V::C(0) };
        for m in 1..8usize {
            if (anf >> m) & 1 == 1 {
                let mut t = V::C(!0);
                if m & 1 != 0 {
                    t = e.and(64, &t, s);
                }
                if m & 2 != 0 {
                    t = e.and(64, &t, q);
                }
                if m & 4 != 0 {
                    t = e.and(64, &t, p);
                }
                acc = e.xor(64, &acc, &t);
            }
        }
        r.push(acc);
    }
    e.putx(st, i, &i.ops[0], r, i.aux as usize)?;
    Ok(Flow::Next)
}
fn vzero(_e: &mut Eng, st: &mut St, i: &Insn) -> Res {
    for r in 0..16 {
        for k in (if i.aux == 1 { 0 } else { 2 })..8 {
            st.x[r][k] = V::C(0);
        }
    }
    Ok(Flow::Next)
}

// ---- clmul
pub fn clmul64(e: &mut Eng, a: &V, b: &V) -> (V, V) {
    if let (V::C(x), V::C(y)) = (a, b) {
        let mut r = 0u128;
        for k in 0..64 {
            if (y >> k) & 1 == 1 {
                r ^= (*x as u128) << k;
            }
        }
        return (V::C(r as u64), V::C((r >> 64) as u64));
    }
    let (p, q) = (a.bits(64), b.bits(64));
    let mut out: Vec<Bit> = Vec::with_capacity(128);
    let mut terms: Vec<Bit> = vec![];
    for k in 0..128usize {
        terms.clear();
        let lo = if k >= 64 { k - 63 } else { 0 };
        for j in lo..=k.min(63) {
            let x = e.t.and(p[j], q[k - j]);
            if x != F {
                terms.push(x);
            }
        }
        let r = e.t.xor_many(&terms);
        out.push(r);
    }
    (V::mk(out[..64].to_vec()), V::mk(out[64..].to_vec()))
}
/// aux: 0xff = immediate operand
fn pclmul(e: &mut Eng, st: &mut St, i: &Insn) -> Res {
    let n = nbytes(e, i);
    let (im, nops) = if i.aux == 0xff { (imm(i)? as u32, i.ops.len() - 1) } else { (i.aux, i.ops.len()) };
    let (a, b) = if nops == 3 { (&i.ops[1], &i.ops[2]) } else { (&i.ops[0], &i.ops[1]) };
    let x = e.getx(st, a, n)?;
    let y = e.getx(st, b, n)?;
    let mut r = vec![];
    for l in 0..n / 16 {
        let p = x[2 * l + (im & 1) as usize].clone();
        let q = y[2 * l + ((im >> 4) & 1) as usize].clone();
        let (lo, hi) = clmul64(e, &p, &q);
        r.push(lo);
        r.push(hi);
    }
    e.putx(st, i, &i.ops[0], r, 64)?;
    Ok(Flow::Next)
}

// ---- AES
fn sbox(e: &mut Eng, b: &V) -> V {
    match b {
        V::C(c) => V::C(e.t.sbox[*c as usize] as u64),
        V::S(_) => {
            let v = b.bits(8);
            V::mk(e.t.sbox(&v))
        }
    }
}
fn xtime(e: &mut Eng, b: &V) -> V {
    match b {
        V::C(c) => V::C(((c << 1) & 0xff) ^ if c & 0x80 != 0 { 0x1b } else { 0 }),
        V::S(_) => {
            let v = b.bits(8);
            let h = v[7];
            let mut r = vec![h, F, F, F, F, F, F, F];
            for k in 1..8 {
                r[k] = if k == 1 || k == 3 || k == 4 { e.t.xor(v[k - 1], h) } else { v[k - 1] };
            }
            V::mk(r)
        }
    }
}
pub fn aes_round(e: &mut Eng, s: &[V; 2], k: &[V; 2], last: bool) -> [V; 2] {
    let b: Vec<V> = (0..16).map(|j| s[j / 8].ext((j % 8) * 8, 8)).collect();
    let mut t: Vec<V> = vec![];
    for c in 0..4 {
        for r in 0..4 {
            let x = &b[4 * ((c + r) % 4) + r];
            t.push(sbox(e, x));
        }
    }
    if !last {
        let mut o = vec![];
        for c in 0..4 {
            let a: Vec<V> = t[4 * c..4 * c + 4].to_vec();
            let d: Vec<V> = a.iter().map(|x| xtime(e, x)).collect();
            for r in 0..4 {
                let mut x = d[r].clone();
                for y in [&d[(r + 1) % 4], &a[(r + 1) % 4], &a[(r + 2) % 4], &a[(r + 3) % 4]] {
                    x = e.xor(8, &x, y);
                }
                o.push(x);
            }
        }
        t = o;
    }
    let pack = |v: &[V]| {
        let mut bits = vec![];
        for x in v {
            bits.extend(x.bits(8));
        }
        V::mk(bits)
    };
    let (lo, hi) = (pack(&t[..8]), pack(&t[8..]));
    [e.xor(64, &lo, &k[0]), e.xor(64, &hi, &k[1])]
}
fn aesenc(e: &mut Eng, st: &mut St, i: &Insn) -> Res {
    let n = nbytes(e, i);
    let (d, a, b) = srcs(i);
    let x = e.getx(st, a, n)?;
    let y = e.getx(st, b, n)?;
    let mut r = vec![];
    for l in 0..n / 16 {
        let s = [x[2 * l].clone(), x[2 * l + 1].clone()];
        let k = [y[2 * l].clone(), y[2 * l + 1].clone()];
        let o = aes_round(e, &s, &k, i.aux == 1);
        r.extend(o);
    }
    e.putx(st, i, d, r, 64)?;
    Ok(Flow::Next)
}
fn aeskeygen(e: &mut Eng, st: &mut St, i: &Insn) -> Res {
    let im = imm(i)?;
    let x = e.getx(st, &i.ops[1], 16)?;
    let word = |x: &Lanes, k: usize| x[k / 2].ext((k % 2) * 32, 32);
    let mut out = vec![];
    for k in [1, 3] {
        let w = word(&x, k);
        let mut bits = vec![];
        for b in 0..4 {
            let v = w.ext(8 * b, 8);
            let s = sbox(e, &v);
            bits.extend(s.bits(8));
        }
        let s = V::mk(bits);
        let r = e.rol_c(32, &s, 24);
        let r = e.xor(32, &r, &V::C(im));
        out.push(s.cat(32, &r, 32));
    }
    e.putx(st, i, &i.ops[0], out, 64)?;
    Ok(Flow::Next)
}

// ---- SHA-256
fn sha256rnds2(e: &mut Eng, st: &mut St, i: &Insn) -> Res {
    // dst = CDGH, src = ABEF, xmm0 = wk
    let s1 = e.getx(st, &i.ops[0], 16)?;
    let s2 = e.getx(st, &i.ops[1], 16)?;
    let wk = st.x[0].to_vec();
    let w = |x: &[V], k: usize| x[k / 2].ext((k % 2) * 32, 32);
    let (mut a, mut b, mut ee, mut f) = (w(&s2, 3), w(&s2, 2), w(&s2, 1), w(&s2, 0));
    let (mut c, mut d, mut g, mut h) = (w(&s1, 3), w(&s1, 2), w(&s1, 1), w(&s1, 0));
    for r in 0..2 {
        let k = w(&wk, r);
        let xor3 = |e: &mut Eng, v: &V, n: [u32; 3]| {
            let x = e.rol_c(32, v, 32 - n[0]);
            let y = e.rol_c(32, v, 32 - n[1]);
            let z = e.rol_c(32, v, 32 - n[2]);
            let t = e.xor(32, &x, &y);
            e.xor(32, &t, &z)
        };
        let ch = {
            let x = e.and(32, &ee, &f);
            let n = e.not(32, &ee);
            let y = e.and(32, &n, &g);
            e.xor(32, &x, &y)
        };
        let maj = {
            let x = e.and(32, &a, &b);
            let y = e.and(32, &a, &c);
            let z = e.and(32, &b, &c);
            let t = e.xor(32, &x, &y);
            e.xor(32, &t, &z)
        };
        let s1 = xor3(e, &ee, [6, 11, 25]);
        let s0 = xor3(e, &a, [2, 13, 22]);
        let mut t1 = e.add(32, &ch, &s1);
        t1 = e.add(32, &t1, &k);
        t1 = e.add(32, &t1, &h);
        let t2 = e.add(32, &s0, &maj);
        let na = e.add(32, &t1, &t2);
        let ne = e.add(32, &t1, &d);
        h = g;
        g = f;
        f = ee;
        ee = ne;
        d = c;
        c = b;
        b = a;
        a = na;
    }
    let _ = (&c, &d, &g, &h);
    let r = vec![f.cat(32, &ee, 32), b.cat(32, &a, 32)];
    e.putx(st, i, &i.ops[0], r, 64)?;
    Ok(Flow::Next)
}
fn sha256msg(e: &mut Eng, st: &mut St, i: &Insn) -> Res {
    let x = e.getx(st, &i.ops[0], 16)?;
    let y = e.getx(st, &i.ops[1], 16)?;
    let w = |x: &[V], k: usize| x[k / 2].ext((k % 2) * 32, 32);
    let sig = |e: &mut Eng, v: &V, n: [u32; 3]| {
        let a = e.rol_c(32, v, 32 - n[0]);
        let b = e.rol_c(32, v, 32 - n[1]);
        let c = e.shr_c(32, v, n[2]);
        let t = e.xor(32, &a, &b);
        e.xor(32, &t, &c)
    };
    let mut o = vec![];
    if i.aux == 1 {
        for k in 0..4 {
            let nx = if k == 3 { w(&y, 0) } else { w(&x, k + 1) };
            let s = sig(e, &nx, [7, 18, 3]);
            let a = w(&x, k);
            o.push(e.add(32, &a, &s));
        }
    } else {
        let w14 = w(&y, 2);
        let w15 = w(&y, 3);
        let s = sig(e, &w14, [17, 19, 10]);
        let w16 = e.add(32, &w(&x, 0), &s);
        let s = sig(e, &w15, [17, 19, 10]);
        let w17 = e.add(32, &w(&x, 1), &s);
        let s = sig(e, &w16, [17, 19, 10]);
        let w18 = e.add(32, &w(&x, 2), &s);
        let s = sig(e, &w17, [17, 19, 10]);
        let w19 = e.add(32, &w(&x, 3), &s);
        o = vec![w16, w17, w18, w19];
    }
    let r = vec![o[0].cat(32, &o[1], 32), o[2].cat(32, &o[3], 32)];
    e.putx(st, i, &i.ops[0], r, 64)?;
    Ok(Flow::Next)
}
/// vpgatherqq / vpgatherdq / ...: aux = element bits | index bits <<8
fn vgather(e: &mut Eng, st: &mut St, i: &Insn) -> Res {
    let es = (i.aux & 0xff) as usize;
    let is = (i.aux >> 8) as usize;
    let Op::X(d, n) = i.ops[0] else { return Err(Stop::Err(i.text.clone())) };
    let Op::M(m) = &i.ops[1] else { return Err(Stop::Err(i.text.clone())) };
    let Op::X(mk, _) = i.ops[2] else { return Err(Stop::Err(i.text.clone())) };
    let (vi, _) = m.vindex.ok_or(Stop::Err(i.text.clone()))?;
    let mut base = m.disp;
    if let Some(b) = m.base {
        let v = st.r[b as usize].clone();
        base = base.wrapping_add(e.conc(st, &v, 64)?);
    }
    let cnt = n as usize * 8 / es;
    let mut bits: Vec<Bit> = vec![];
    for k in 0..cnt {
        let off = k * es;
        let mb = st.x[mk as usize][(off + es - 1) / 64].bits(64)[(off + es - 1) % 64];
        if mb > 1 {
            return Err(Stop::Err("symbolic gather mask".into()));
        }
        let old = st.x[d as usize][off / 64].ext(off % 64, es);
        if mb == F {
            bits.extend(old.bits(es));
            continue;
        }
        let io = k * is;
        let ix = st.x[vi as usize][io / 64].ext(io % 64, is);
        let ix = e.sext(&ix, is as u32, 64);
        let ix = e.conc(st, &ix, 64)?;
        let a = base.wrapping_add(ix.wrapping_mul(m.scale as u64));
        bits.extend(e.load(st, a, es / 8)?.bits(es));
    }
    let r: Lanes = bits.chunks(64).map(|c| V::mk(c.to_vec())).collect();
    e.putx(st, i, &i.ops[0], r, 64)?;
    for k in 0..8 {
        st.x[mk as usize][k] = V::C(0);
    }
    Ok(Flow::Next)
}
fn ptest(e: &mut Eng, st: &mut St, i: &Insn) -> Res {
    let n = nbytes(e, i);
    let a = e.getx(st, &i.ops[0], n)?;
    let b = e.getx(st, &i.ops[1], n)?;
    let (mut z, mut c) = (vec![], vec![]);
    for k in 0..n / 8 {
        let x = e.and(64, &a[k], &b[k]);
        z.extend(x.bits(64));
        let na = e.not(64, &a[k]);
        let y = e.and(64, &na, &b[k]);
        c.extend(y.bits(64));
    }
    let zf = e.t.or_many(&z) ^ 1;
    let cf = e.t.or_many(&c) ^ 1;
    st.f = Flags { kind: FK::Explicit, w: 64, a: V::C(0), b: V::C(0), cin: F, res: V::C(0), cf: Some(cf), of: Some(F), zf: Some(zf), sf: Some(F), pf: Some(F) };
    Ok(Flow::Next)
}
/// blend by vector mask: aux = element bits
fn blendv(e: &mut Eng, st: &mut St, i: &Insn) -> Res {
    let n = nbytes(e, i);
    let es = i.aux as usize;
    let (a, b, m) = if i.ops.len() == 4 { (&i.ops[1], &i.ops[2], i.ops[3].clone()) } else { (&i.ops[0], &i.ops[1], Op::X(0, 16)) };
    let x = e.getx(st, a, n)?;
    let y = e.getx(st, b, n)?;
    let mm = e.getx(st, &m, n)?;
    let mut r = vec![];
    for k in 0..n / 8 {
        let mb = mm[k].bits(64);
        let mut acc = V::C(0);
        for q in 0..64 / es {
            let v = {
                let (p, s) = (y[k].ext(q * es, es), x[k].ext(q * es, es));
                e.mux(es as u32, mb[q * es + es - 1], &p, &s)
            };
            acc = acc.set(64, q * es, es, &v);
        }
        r.push(acc);
    }
    e.putx(st, i, &i.ops[0], r, 64)?;
    Ok(Flow::Next)
}
/// mask register moves: aux = bits
fn kmov(e: &mut Eng, st: &mut St, i: &Insn) -> Res {
    let w = i.aux;
    let v = e.get(st, &i.ops[1], w)?.ext(0, w as usize);
    match &i.ops[0] {
        Op::K(k) => st.k[*k as usize] = V::mk(v.bits(64)),
        Op::R(r, s, _) => e.setr(st, *r, *s, false, V::mk(v.bits(64))),
        o => e.put(st, o, w, v)?,
    }
    Ok(Flow::Next)
}
fn pabs(e: &mut Eng, st: &mut St, i: &Insn) -> Res {
    let n = nbytes(e, i);
    let x = e.getx(st, &i.ops[1], n)?;
    let mut r = vec![];
    for l in &x {
        r.push(e.elems(l, &V::C(0), i.aux, &mut |e: &mut Eng, w, a: V, _| {
            let s = a.bits(w as usize)[w as usize - 1];
            let n = e.sub(w, &V::C(0), &a);
            e.mux(w, s, &n, &a)
        }));
    }
    e.putx(st, i, &i.ops[0], r, i.aux as usize)?;
    Ok(Flow::Next)
}
fn movsldup(e: &mut Eng, st: &mut St, i: &Insn) -> Res {
    let n = nbytes(e, i);
    let x = e.getx(st, &i.ops[1], n)?;
    let r = gather(&x, n, |k| Some(match i.aux {
        0 => (k / 8) * 8 + k % 4,
        1 => (k / 8) * 8 + 4 + k % 4,
        _ => (k / 16) * 16 + k % 8,
    }));
    e.putx(st, i, &i.ops[0], r, 32)?;
    Ok(Flow::Next)
}

pub fn lookup(mn: &str) -> Option<(Handler, u32)> {
    let base = mn.strip_prefix('v').unwrap_or(mn);
    let r: (Handler, u32) = match base {
        "movdqa" | "movdqu" | "movaps" | "movups" | "movapd" | "movupd" | "movdqa64" | "movdqu64" | "lddqu" | "movntdq" | "movntps" | "movntdqa" => (vmov, 64),
        "movdqa32" | "movdqu32" => (vmov, 32),
        "movdqu8" => (vmov, 8),
        "movdqu16" => (vmov, 16),
        "movd" => (vmovd, 32),
        "movq" => (vmovd, 64),
        "movss" => (vmovs, 32),
        "movsd" => (vmovs, 64),
        "movhps" | "movhpd" => (vmovhl, 1),
        "movlps" | "movlpd" => (vmovhl, 0),
        "movlhps" => (movlh, 0),
        "movhlps" => (movlh, 1),
        "movsldup" => (movsldup, 0),
        "movshdup" => (movsldup, 1),
        "movddup" => (movsldup, 2),
        "paddb" => (padd, 8),
        "paddw" => (padd, 16),
        "paddd" => (padd, 32),
        "paddq" => (padd, 64),
        "psubb" => (psub, 8),
        "psubw" => (psub, 16),
        "psubd" => (psub, 32),
        "psubq" => (psub, 64),
        "pand" | "andps" | "andpd" | "pandq" => (pand, 64),
        "pandd" => (pand, 32),
        "por" | "orps" | "orpd" | "porq" => (por, 64),
        "pord" => (por, 32),
        "pxor" | "xorps" | "xorpd" | "pxorq" => (pxor, 64),
        "pxord" => (pxor, 32),
        "pandn" | "andnps" | "andnpd" | "pandnq" => (pandn, 64),
        "pandnd" => (pandn, 32),
        "pmullw" => (pmull, 16),
        "pmulld" => (pmull, 32),
        "pmulhw" => (pmulhs, 16),
        "pmulhuw" => (pmulhu, 16),
        "pmuludq" => (pmuludq, 64),
        "pmulhrsw" => (pmulhrs, 16),
        "pmaddwd" => (pmaddwd, 0),
        "pcmpeqb" => (pcmpeq, 8),
        "pcmpeqw" => (pcmpeq, 16),
        "pcmpeqd" => (pcmpeq, 32),
        "pcmpeqq" => (pcmpeq, 64),
        "pcmpgtb" => (pcmpgt, 8),
        "pcmpgtw" => (pcmpgt, 16),
        "pcmpgtd" => (pcmpgt, 32),
        "pcmpgtq" => (pcmpgt, 64),
        "pminub" => (pminu, 8),
        "pminuw" => (pminu, 16),
        "pminud" => (pminu, 32),
        "pmaxub" => (pmaxu, 8),
        "pmaxuw" => (pmaxu, 16),
        "pmaxud" => (pmaxu, 32),
        "pminsb" => (pmins, 8),
        "pminsw" => (pmins, 16),
        "pminsd" => (pmins, 32),
        "pmaxsb" => (pmaxs, 8),
        "pmaxsw" => (pmaxs, 16),
        "pmaxsd" => (pmaxs, 32),
        "psllw" => (pshift, 16),
        "pslld" => (pshift, 32),
        "psllq" => (pshift, 64),
        "psrlw" => (pshift, 16 | 1 << 8),
        "psrld" => (pshift, 32 | 1 << 8),
        "psrlq" => (pshift, 64 | 1 << 8),
        "psraw" => (pshift, 16 | 2 << 8),
        "psrad" => (pshift, 32 | 2 << 8),
        "psraq" => (pshift, 64 | 2 << 8),
        "psllvd" => (pshiftv, 32),
        "psllvq" => (pshiftv, 64),
        "psrlvd" => (pshiftv, 32 | 1 << 8),
        "psrlvq" => (pshiftv, 64 | 1 << 8),
        "psravd" => (pshiftv, 32 | 2 << 8),
        "prold" => (vprot, 32),
        "prolq" => (vprot, 64),
        "prord" => (vprot, 32 | 1 << 8),
        "prorq" => (vprot, 64 | 1 << 8),
        "pshufb" => (pshufb, 0),
        "pshufd" | "permilps" => (shuf, 0),
        "palignr" => (shuf, 1),
        "pblendw" => (shuf, 2),
        "shufps" => (shuf, 3),
        "pshuflw" => (shuf, 4),
        "pshufhw" => (shuf, 5),
        "pblendd" => (shuf, 6),
        "permpd" => (vpermd, 8),
        "permq" => (vpermd, 8),
        "perm2i128" | "perm2f128" => (shuf, 8),
        "shufpd" => (shuf, 9),
        "blendps" => (shuf, 10),
        "shufi32x4" | "shufi64x2" | "shuff64x2" | "shuff32x4" => (shuf_wide, 0),
        "alignq" => (shuf_wide, 8),
        "alignd" => (shuf_wide, 4),
        "permd" | "permps" => (vpermd, 4),
        "punpcklbw" => (punpck, 1),
        "punpcklwd" => (punpck, 2),
        "punpckldq" | "unpcklps" => (punpck, 4),
        "punpcklqdq" | "unpcklpd" => (punpck, 8),
        "punpckhbw" => (punpck, 1 | 1 << 8),
        "punpckhwd" => (punpck, 2 | 1 << 8),
        "punpckhdq" | "unpckhps" => (punpck, 4 | 1 << 8),
        "punpckhqdq" | "unpckhpd" => (punpck, 8 | 1 << 8),
        "packuswb" => (pack, 16 | 1 << 8),
        "packsswb" => (pack, 16),
        "packusdw" => (pack, 32 | 1 << 8),
        "packssdw" => (pack, 32),
        "pmovzxbw" => (pmovx, 8 | 16 << 8),
        "pmovzxbd" => (pmovx, 8 | 32 << 8),
        "pmovzxbq" => (pmovx, 8 | 64 << 8),
        "pmovzxwd" => (pmovx, 16 | 32 << 8),
        "pmovzxwq" => (pmovx, 16 | 64 << 8),
        "pmovzxdq" => (pmovx, 32 | 64 << 8),
        "pmovsxbw" => (pmovx, 8 | 16 << 8 | 1 << 16),
        "pmovsxbd" => (pmovx, 8 | 32 << 8 | 1 << 16),
        "pmovsxwd" => (pmovx, 16 | 32 << 8 | 1 << 16),
        "pmovsxdq" => (pmovx, 32 | 64 << 8 | 1 << 16),
        "pslldq" => (pshdq, 0),
        "psrldq" => (pshdq, 1),
        "pbroadcastb" => (vbroadcast, 1),
        "pbroadcastw" => (vbroadcast, 2),
        "pbroadcastd" | "broadcastss" => (vbroadcast, 4),
        "pbroadcastq" | "broadcastsd" => (vbroadcast, 8),
        "broadcasti128" | "broadcastf128" | "broadcasti32x4" | "broadcasti64x2" | "broadcastf32x4" | "broadcastf64x2" => (vbroadcast, 16),
        "broadcasti64x4" | "broadcasti32x8" | "broadcastf64x4" => (vbroadcast, 32),
        "extracti128" | "extractf128" | "extracti32x4" | "extracti64x2" | "extractf32x4" | "extractf64x2" => (vextract, 16),
        "extracti64x4" | "extracti32x8" | "extractf64x4" => (vextract, 32),
        "inserti128" | "insertf128" | "inserti32x4" | "inserti64x2" | "insertf32x4" | "insertf64x2" => (vinsert, 16),
        "inserti64x4" | "inserti32x8" | "insertf64x4" => (vinsert, 32),
        "pinsrb" => (pinsr, 8),
        "pinsrw" => (pinsr, 16),
        "pinsrd" => (pinsr, 32),
        "pinsrq" => (pinsr, 64),
        "pextrb" => (pextr, 8),
        "pextrw" => (pextr, 16),
        "pextrd" => (pextr, 32),
        "pextrq" => (pextr, 64),
        "pmovmskb" => (movmsk, 8),
        "movmskps" => (movmsk, 32),
        "movmskpd" => (movmsk, 64),
        "pternlogd" => (ternlog, 32),
        "pternlogq" => (ternlog, 64),
        "zeroall" => (vzero, 1),
        "zeroupper" => (vzero, 0),
        "pclmulqdq" => (pclmul, 0xff),
        "pclmullqlqdq" => (pclmul, 0x00),
        "pclmulhqlqdq" => (pclmul, 0x01),
        "pclmullqhqdq" => (pclmul, 0x10),
        "pclmulhqhqdq" => (pclmul, 0x11),
        "aesenc" => (aesenc, 0),
        "aesenclast" => (aesenc, 1),
        "aeskeygenassist" => (aeskeygen, 0),
        "sha256rnds2" => (sha256rnds2, 0),
        "sha256msg1" => (sha256msg, 1),
        "sha256msg2" => (sha256msg, 2),
        "pgatherqq" => (vgather, 64 | 64 << 8),
        "pgatherdq" => (vgather, 64 | 32 << 8),
        "pgatherdd" => (vgather, 32 | 32 << 8),
        "pgatherqd" => (vgather, 32 | 64 << 8),
        "ptest" => (ptest, 0),
        "pblendvb" => (blendv, 8),
        "blendvps" => (blendv, 32),
        "blendvpd" => (blendv, 64),
        "kmovb" | "movb" => return if mn.starts_with('k') { Some((kmov, 8)) } else { None },
        "kmovw" => (kmov, 16),
        "kmovd" => (kmov, 32),
        "kmovq" => (kmov, 64),
        "pabsb" => (pabs, 8),
        "pabsw" => (pabs, 16),
        "pabsd" => (pabs, 32),
        _ => return None,
    };
    Some(r)
}
