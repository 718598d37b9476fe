//! ELF loading.
use crate::term::Map;

pub struct Seg {
    pub addr: u64,
    pub data: Vec<u8>,
    pub write: bool,
}
pub struct Image {
    pub segs: Vec<Seg>,
    pub syms: Map<String, (u64, u64)>,
    pub by_addr: Vec<(u64, u64, String)>,
    /// fake address -> import name
    pub imports: Map<u64, String>,
    pub tls: (Vec<u8>, u64, u64), // init image, memsz, align
}
pub const FAKE: u64 = 0x6000_0000_0000;

fn u16a(b: &[u8], o: usize) -> u64 {
    u16::from_le_bytes(b[o..o + 2].try_into().unwrap()) as u64
}
fn u32a(b: &[u8], o: usize) -> u64 {
    u32::from_le_bytes(b[o..o + 4].try_into().unwrap()) as u64
}
fn u64a(b: &[u8], o: usize) -> u64 {
    u64::from_le_bytes(b[o..o + 8].try_into().unwrap())
}
fn cstr(b: &[u8], o: usize) -> String {
    let e = b[o..].iter().position(|&c| c == 0).unwrap() + o;
    String::from_utf8_lossy(&b[o..e]).into_owned()
}

pub fn load(path: &str) -> Image {
    let b = std::fs::read(path).expect("read elf");
    let phoff = u64a(&b, 32) as usize;
    let phn = u16a(&b, 56) as usize;
    let mut im = Image {
        segs: vec![],
        syms: Map::default(),
        by_addr: vec![],
        imports: Map::default(),
        tls: (vec![], 0, 1),
    };
    for i in 0..phn {
        let p = phoff + 56 * i;
        let (ty, fl) = (u32a(&b, p), u32a(&b, p + 4));
        let (off, va, fsz, msz, al) =
            (u64a(&b, p + 8) as usize, u64a(&b, p + 16), u64a(&b, p + 32) as usize, u64a(&b, p + 40) as usize, u64a(&b, p + 48));
        if ty == 1 {
            let mut d = b[off..off + fsz].to_vec();
            d.resize(msz, 0);
            im.segs.push(Seg { addr: va, data: d, write: fl & 2 != 0 });
        }
        if ty == 7 {
            im.tls = (b[off..off + fsz].to_vec(), msz as u64, al.max(1));
        }
    }
    let shoff = u64a(&b, 40) as usize;
    let shn = u16a(&b, 60) as usize;
    let sh = |i: usize| shoff + 64 * i;
    let mut relocs: Vec<(u64, u64, u64, i64, usize)> = vec![]; // off,type,sym,addend,symtab
    for i in 0..shn {
        let s = sh(i);
        let ty = u32a(&b, s + 4);
        let (off, size, link) = (u64a(&b, s + 24) as usize, u64a(&b, s + 32) as usize, u32a(&b, s + 40) as usize);
        if ty == 2 {
            let stro = u64a(&b, sh(link) + 24) as usize;
            for k in 0..size / 24 {
                let e = off + 24 * k;
                let name = cstr(&b, stro + u32a(&b, e) as usize);
                let info = b[e + 4];
                let shndx = u16a(&b, e + 6);
                let (v, sz) = (u64a(&b, e + 8), u64a(&b, e + 16));
                let t = info & 15;
                if shndx != 0 && (t == 2 || t == 1 || t == 0 || t == 10) && v != 0 && !name.is_empty() {
                    im.syms.insert(name.clone(), (v, sz));
                    if t == 2 {
                        im.by_addr.push((v, sz, name));
                    }
                }
            }
        }
        if ty == 4 {
            for k in 0..size / 24 {
                let e = off + 24 * k;
                let info = u64a(&b, e + 8);
                relocs.push((u64a(&b, e), info & 0xffff_ffff, info >> 32, u64a(&b, e + 16) as i64, link));
            }
        }
    }
    im.by_addr.sort();
    let mut nextfake = FAKE;
    let mut fakes: Map<String, u64> = Map::default();
    for (off, ty, sym, add, symtab) in relocs {
        let (symoff, strl) = (u64a(&b, sh(symtab) + 24) as usize, u32a(&b, sh(symtab) + 40) as usize);
        let stro = u64a(&b, sh(strl) + 24) as usize;
        let e = symoff + 24 * sym as usize;
        let name = cstr(&b, stro + u32a(&b, e) as usize);
        let defined = u16a(&b, e + 6) != 0;
        let sval = u64a(&b, e + 8);
        let val = match ty {
            8 => add as u64, // RELATIVE
            1 | 6 | 7 => {
                if defined {
                    sval.wrapping_add(add as u64)
                } else {
                    *fakes.entry(name.clone()).or_insert_with(|| {
                        nextfake += 16;
                        im.imports.insert(nextfake, name.clone());
                        nextfake
                    })
                }
            }
            18 => sval.wrapping_add(add as u64).wrapping_sub((im.tls.1 + im.tls.2 - 1) / im.tls.2 * im.tls.2),
            5 => continue, // COPY (data import): left zero
            16 | 17 => continue,
            37 => continue,
            _ => {
                eprintln!("reloc type {} {}", ty, name);
                continue;
            }
        };
        for s in im.segs.iter_mut() {
            if off >= s.addr && off + 8 <= s.addr + s.data.len() as u64 {
                let o = (off - s.addr) as usize;
                s.data[o..o + 8].copy_from_slice(&val.to_le_bytes());
            }
        }
    }
    im
}

impl Image {
    pub fn sym_at(&self, a: u64) -> Option<&str> {
        let i = self.by_addr.partition_point(|x| x.0 <= a);
        if i == 0 {
            return None;
        }
        // several aliases may share an address
        let x = &self.by_addr[i - 1];
        if a < x.0 + x.1.max(1) { Some(&x.2) } else { None }
    }
}
