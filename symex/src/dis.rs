//! Instruction text (objdump, intel syntax) to operands.
use crate::exec::Handler;
use crate::term::Map;

#[derive(Clone, Debug)]
pub enum Op {
    /// register number, size in bytes, high-byte
    R(u8, u8, bool),
    /// vector register, size in bytes
    X(u8, u8),
    K(u8),
    I(u64),
    M(Mem),
}
#[derive(Clone, Debug)]
pub struct Mem {
    pub base: Option<u8>,
    pub index: Option<u8>,
    pub vindex: Option<(u8, u8)>,
    pub scale: u8,
    pub disp: u64,
    pub size: u8,
    pub fs: bool,
    pub bcast: u8,
}

#[derive(Clone)]
pub struct Insn {
    pub addr: u64,
    pub next: u64,
    pub h: Handler,
    pub aux: u32,
    pub vex: bool,
    pub ops: Vec<Op>,
    pub mask: Option<u8>,
    pub zeroing: bool,
    pub text: String,
}

pub struct Code {
    pub lines: Map<u64, (u64, u32, u32)>, // addr -> next, text range
    pub text: String,
}

pub fn disassemble(path: &str) -> Code {
    let o = std::process::Command::new("objdump")
        .args(["-d", "-M", "intel", "--no-show-raw-insn", "-w", "-z", path])
        .output()
        .expect("objdump");
    let text = String::from_utf8_lossy(&o.stdout).into_owned();
    let mut lines: Map<u64, (u64, u32, u32)> = Map::default();
    let mut prev: Option<(u64, u32, u32)> = None;
    let mut pos = 0usize;
    for l in text.split_inclusive('\n') {
        let start = pos;
        pos += l.len();
        let Some(tab) = l.find(":\t") else {
            if l.trim().is_empty() || l.starts_with("Disassembly") {
                // end of a block: length of the last instruction unknown, keep going
            }
            continue;
        };
        let Ok(a) = u64::from_str_radix(l[..tab].trim(), 16) else { continue };
        if let Some((pa, s, e)) = prev {
            lines.insert(pa, (a, s, e));
        }
        let s = start + tab + 2;
        let e = start + l.trim_end().len();
        prev = Some((a, s as u32, e.max(s) as u32));
    }
    if let Some((pa, s, e)) = prev {
        lines.insert(pa, (pa + 1, s, e));
    }
    Code { lines, text }
}

const R64: [&str; 16] = [
    "rax", "rcx", "rdx", "rbx", "rsp", "rbp", "rsi", "rdi", "r8", "r9", "r10", "r11", "r12", "r13", "r14", "r15",
];

pub fn reg(s: &str) -> Option<Op> {
    let b = s.as_bytes();
    if b.is_empty() {
        return None;
    }
    if let Some(i) = R64.iter().position(|&x| x == s) {
        return Some(Op::R(i as u8, 8, false));
    }
    if b[0] == b'r' {
        // r8d r8w r8b
        let last = b[b.len() - 1];
        let sz = match last {
            b'd' => 4,
            b'w' => 2,
            b'b' => 1,
            _ => return None,
        };
        let n: u8 = s[1..s.len() - 1].parse().ok()?;
        return Some(Op::R(n, sz, false));
    }
    if b[0] == b'e' && b.len() == 3 {
        let q = format!("r{}", &s[1..]);
        if let Some(i) = R64[..8].iter().position(|x| *x == q) {
            return Some(Op::R(i as u8, 4, false));
        }
    }
    match s {
        "ax" => return Some(Op::R(0, 2, false)),
        "cx" => return Some(Op::R(1, 2, false)),
        "dx" => return Some(Op::R(2, 2, false)),
        "bx" => return Some(Op::R(3, 2, false)),
        "sp" => return Some(Op::R(4, 2, false)),
        "bp" => return Some(Op::R(5, 2, false)),
        "si" => return Some(Op::R(6, 2, false)),
        "di" => return Some(Op::R(7, 2, false)),
        "al" => return Some(Op::R(0, 1, false)),
        "cl" => return Some(Op::R(1, 1, false)),
        "dl" => return Some(Op::R(2, 1, false)),
        "bl" => return Some(Op::R(3, 1, false)),
        "spl" => return Some(Op::R(4, 1, false)),
        "bpl" => return Some(Op::R(5, 1, false)),
        "sil" => return Some(Op::R(6, 1, false)),
        "dil" => return Some(Op::R(7, 1, false)),
        "ah" => return Some(Op::R(0, 1, true)),
        "ch" => return Some(Op::R(1, 1, true)),
        "dh" => return Some(Op::R(2, 1, true)),
        "bh" => return Some(Op::R(3, 1, true)),
        _ => {}
    }
    for (p, sz) in [("xmm", 16), ("ymm", 32), ("zmm", 64)] {
        if let Some(n) = s.strip_prefix(p) {
            return Some(Op::X(n.parse().ok()?, sz));
        }
    }
    if b[0] == b'k' {
        return Some(Op::K(s[1..].parse().ok()?));
    }
    None
}

fn num(s: &str) -> Option<u64> {
    let (neg, t) = match s.strip_prefix('-') {
        Some(t) => (true, t),
        None => (false, s),
    };
    let v = if let Some(h) = t.strip_prefix("0x") { u64::from_str_radix(h, 16).ok()? } else { t.parse::<u64>().ok()? };
    Some(if neg { 0u64.wrapping_sub(v) } else { v })
}

fn operand(s: &str, next: u64, ripabs: Option<u64>) -> Option<(Op, Option<u8>, bool)> {
    let mut s = s.trim().to_string();
    let mut mask = None;
    let mut z = false;
    let mut bc = 0u8;
    while let Some(i) = s.find('{') {
        let j = s[i..].find('}')? + i;
        let t = s[i + 1..j].to_string();
        if t == "z" {
            z = true
        } else if let Some(k) = t.strip_prefix('k') {
            mask = Some(k.parse().ok()?);
        } else if let Some(n) = t.strip_prefix("1to") {
            bc = n.parse().ok()?;
        } else {
            return None;
        }
        s.replace_range(i..=j, "");
    }
    let s = s.trim();
    if let Some(r) = reg(s) {
        return Some((r, mask, z));
    }
    let mut size = 0u8;
    let mut rest = s;
    if let Some(i) = s.find(" PTR ") {
        size = match &s[..i] {
            "BYTE" => 1,
            "WORD" => 2,
            "DWORD" => 4,
            "QWORD" => 8,
            "XMMWORD" => 16,
            "YMMWORD" => 32,
            "ZMMWORD" => 64,
            _ => return None,
        };
        rest = s[i + 5..].trim();
    } else if let Some(i) = s.find(" BCST ") {
        size = match &s[..i] {
            "DWORD" => 4,
            "QWORD" => 8,
            _ => return None,
        };
        rest = s[i + 6..].trim();
        bc = bc.max(1);
    }
    let mut m = Mem { base: None, index: None, vindex: None, scale: 1, disp: 0, size, fs: false, bcast: bc };
    if let Some(r) = rest.strip_prefix("fs:") {
        m.fs = true;
        rest = r;
    } else if let Some(r) = rest.strip_prefix("ds:").or_else(|| rest.strip_prefix("es:")).or_else(|| rest.strip_prefix("cs:")) {
        rest = r;
        if !rest.starts_with('[') {
            m.disp = num(rest)?;
            return Some((Op::M(m), mask, z));
        }
    }
    if rest.starts_with('[') && rest.ends_with(']') {
        let inner = &rest[1..rest.len() - 1];
        let mut cur = String::new();
        let mut terms: Vec<(bool, String)> = vec![];
        let mut neg = false;
        for c in inner.chars() {
            if c == '+' || c == '-' {
                if !cur.is_empty() {
                    terms.push((neg, cur.clone()));
                }
                cur.clear();
                neg = c == '-';
            } else {
                cur.push(c);
            }
        }
        terms.push((neg, cur));
        for (neg, t) in terms {
            if let Some((r, sc)) = t.split_once('*') {
                m.scale = sc.parse().ok()?;
                match reg(r) {
                    Some(Op::R(n, 8, _)) => m.index = Some(n),
                    Some(Op::X(n, s)) => m.vindex = Some((n, s)),
                    _ => {
                        if r == "riz" {
                            continue;
                        }
                        return None;
                    }
                }
            } else if t == "rip" {
                m.disp = ripabs.unwrap_or(next);
            } else if let Some(r) = reg(&t) {
                match r {
                    Op::R(n, 8, _) => {
                        if m.base.is_none() {
                            m.base = Some(n)
                        } else {
                            m.index = Some(n)
                        }
                    }
                    Op::X(n, s) => m.vindex = Some((n, s)),
                    _ => return None,
                }
            } else if t == "riz" || t == "eiz" {
            } else if ripabs.is_none() || !inner.contains("rip") {
                let v = num(&t)?;
                m.disp = if neg { m.disp.wrapping_sub(v) } else { m.disp.wrapping_add(v) };
            }
        }
        return Some((Op::M(m), mask, z));
    }
    if m.fs {
        m.disp = num(rest)?;
        return Some((Op::M(m), mask, z));
    }
    num(s).map(|v| (Op::I(v), mask, z))
}

pub fn decode(code: &Code, addr: u64) -> Result<Insn, String> {
    let Some(&(next, s, e)) = code.lines.get(&addr) else { return Err(format!("no instruction at {:x}", addr)) };
    let full = &code.text[s as usize..e as usize];
    let mut ripabs = None;
    let mut body = full;
    if let Some(i) = full.find("        # ") {
        let c = full[i + 10..].trim();
        let h = c.split_whitespace().next().unwrap_or("");
        ripabs = u64::from_str_radix(h.trim_start_matches("0x"), 16).ok();
        body = &full[..i];
    }
    let mut body = body.trim();
    let mut rep = 0u32;
    let mn;
    let rest;
    loop {
        let (a, b) = match body.find(|c: char| c.is_whitespace()) {
            Some(i) => (&body[..i], body[i..].trim()),
            None => (body, ""),
        };
        match a {
            "lock" | "data16" | "cs" | "bnd" | "notrack" | "ds" | "es" | "rex.W" | "{evex}" | "{vex}" | "xacquire" | "xrelease" if !b.is_empty() => {
                body = b;
                continue;
            }
            "rep" | "repz" | "repnz" if !b.is_empty() => {
                rep = if a == "repnz" { 2 } else { 1 };
                body = b;
                continue;
            }
            _ => {
                mn = a;
                rest = b;
                break;
            }
        }
    }
    let mut ops = vec![];
    let (mut mask, mut zeroing) = (None, false);
    let branch = mn.starts_with('j') || mn == "call" || mn.starts_with("loop");
    if branch && !rest.contains('[') && reg(rest).is_none() && !rest.contains("PTR") {
        let t = rest.split_whitespace().next().unwrap_or("");
        ops.push(Op::I(u64::from_str_radix(t.trim_start_matches("0x"), 16).map_err(|_| format!("branch {}", full))?));
    } else if !rest.is_empty() && !mn.contains("nop") {
        let mut depth = 0;
        let mut cur = String::new();
        let mut parts = vec![];
        for c in rest.chars() {
            match c {
                '[' => depth += 1,
                ']' => depth -= 1,
                ',' if depth == 0 => {
                    parts.push(cur.clone());
                    cur.clear();
                    continue;
                }
                _ => {}
            }
            cur.push(c);
        }
        parts.push(cur);
        for p in parts {
            let (o, m, z) = operand(&p, next, ripabs).ok_or_else(|| format!("operand {:?} in {}", p, full))?;
            if m.is_some() {
                mask = m;
                zeroing = z;
            }
            ops.push(o);
        }
    }
    let (h, aux) = crate::exec::lookup(mn).ok_or_else(|| format!("unsupported instruction {}", full))?;
    let aux = if rep != 0 { aux | rep << 16 } else { aux };
    Ok(Insn { addr, next, h, aux, vex: mn.starts_with('v'), ops, mask, zeroing, text: full.to_string() })
}
