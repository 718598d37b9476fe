// generated by tools/ecvec.py
pub struct Sig { pub q: &'static [u8], pub r: &'static [u8], pub s: &'static [u8], pub ok: bool, pub what: &'static str }
pub struct Pt { pub xy: &'static [u8], pub ok: bool, pub what: &'static str }
pub static SIG_P256_SHA256: &[Sig] = &[
  Sig { q: b"\x04\xfc\x4a\xa6\x9b\x5b\x41\xeb\x13\x6d\xac\x0a\x59\xfb\x0f\xbd\x11\x89\x5f\xa4\x2c\xd2\x13\x56\xdb\xae\x77\xed\x9b\x73\xda\x01\x0b\x4a\x5a\x33\x49\xd9\x51\x66\x7a\x83\xc3\x7d\x61\x0b\x5b\x04\x4a\x22\x84\xaf\xe8\x98\xeb\xe3\xde\xab\x08\x81\x3a\x46\x9d\x35\x80", r: b"\x6c\x65\x40\x54\xa8\x97\xa4\xf8\x9c\x32\xf5\xcc\x03\x49\x18\x1c\xff\x5d\x04\x5f\x87\xba\xc1\x32\x5c\xad\xdd\x91\xcd\x1b\xae\xb0", s: b"\x4d\xcd\x7f\xed\x0e\xb7\x10\x85\x14\x2d\x31\xdd\x87\xdf\x08\xbc\x8a\x88\xe1\x8c\x21\x0e\x8f\x7f\x1d\x92\xc2\x9e\x9e\x7a\x3c\xf8", ok: true, what: "ordinary" },
  Sig { q: b"\x04\xfc\x4a\xa6\x9b\x5b\x41\xeb\x13\x6d\xac\x0a\x59\xfb\x0f\xbd\x11\x89\x5f\xa4\x2c\xd2\x13\x56\xdb\xae\x77\xed\x9b\x73\xda\x01\x0b\x4a\x5a\x33\x49\xd9\x51\x66\x7a\x83\xc3\x7d\x61\x0b\x5b\x04\x4a\x22\x84\xaf\xe8\x98\xeb\xe3\xde\xab\x08\x81\x3a\x46\x9d\x35\x80", r: b"\x6c\x65\x40\x54\xa8\x97\xa4\xf8\x9c\x32\xf5\xcc\x03\x49\x18\x1c\xff\x5d\x04\x5f\x87\xba\xc1\x32\x5c\xad\xdd\x91\xcd\x1b\xae\xb0", s: b"\xb2\x32\x80\x11\xf1\x48\xef\x7b\xeb\xd2\xce\x22\x78\x20\xf7\x43\x32\x5e\x19\x21\x86\x09\x0f\x05\xd6\x27\x08\x24\x5d\xe8\xe8\x59", ok: true, what: "negated s" },
  Sig { q: b"\x04\xfc\x4a\xa6\x9b\x5b\x41\xeb\x13\x6d\xac\x0a\x59\xfb\x0f\xbd\x11\x89\x5f\xa4\x2c\xd2\x13\x56\xdb\xae\x77\xed\x9b\x73\xda\x01\x0b\x4a\x5a\x33\x49\xd9\x51\x66\x7a\x83\xc3\x7d\x61\x0b\x5b\x04\x4a\x22\x84\xaf\xe8\x98\xeb\xe3\xde\xab\x08\x81\x3a\x46\x9d\x35\x80", r: b"\x93\x9a\xbf\xaa\x57\x68\x5b\x08\x63\xcd\x0a\x33\xfc\xb6\xe7\xe2\xbd\x89\xf6\x4e\x1f\x5c\xdd\x52\x97\x0b\xed\x31\x2f\x47\x76\xa1", s: b"\x4d\xcd\x7f\xed\x0e\xb7\x10\x85\x14\x2d\x31\xdd\x87\xdf\x08\xbc\x8a\x88\xe1\x8c\x21\x0e\x8f\x7f\x1d\x92\xc2\x9e\x9e\x7a\x3c\xf8", ok: false, what: "negated r" },
  Sig { q: b"\x04\xfc\x4a\xa6\x9b\x5b\x41\xeb\x13\x6d\xac\x0a\x59\xfb\x0f\xbd\x11\x89\x5f\xa4\x2c\xd2\x13\x56\xdb\xae\x77\xed\x9b\x73\xda\x01\x0b\x4a\x5a\x33\x49\xd9\x51\x66\x7a\x83\xc3\x7d\x61\x0b\x5b\x04\x4a\x22\x84\xaf\xe8\x98\xeb\xe3\xde\xab\x08\x81\x3a\x46\x9d\x35\x80", r: b"\x4d\xcd\x7f\xed\x0e\xb7\x10\x85\x14\x2d\x31\xdd\x87\xdf\x08\xbc\x8a\x88\xe1\x8c\x21\x0e\x8f\x7f\x1d\x92\xc2\x9e\x9e\x7a\x3c\xf8", s: b"\x6c\x65\x40\x54\xa8\x97\xa4\xf8\x9c\x32\xf5\xcc\x03\x49\x18\x1c\xff\x5d\x04\x5f\x87\xba\xc1\x32\x5c\xad\xdd\x91\xcd\x1b\xae\xb0", ok: false, what: "swapped" },
  Sig { q: b"\x04\xfc\x4a\xa6\x9b\x5b\x41\xeb\x13\x6d\xac\x0a\x59\xfb\x0f\xbd\x11\x89\x5f\xa4\x2c\xd2\x13\x56\xdb\xae\x77\xed\x9b\x73\xda\x01\x0b\xb5\xa5\xcc\xb5\x26\xae\x99\x86\x7c\x3c\x82\x9e\xf4\xa4\xfb\xb5\xdd\x7b\x50\x18\x67\x14\x1c\x21\x54\xf7\x7e\xc5\xb9\x62\xca\x7f", r: b"\x6c\x65\x40\x54\xa8\x97\xa4\xf8\x9c\x32\xf5\xcc\x03\x49\x18\x1c\xff\x5d\x04\x5f\x87\xba\xc1\x32\x5c\xad\xdd\x91\xcd\x1b\xae\xb0", s: b"\x4d\xcd\x7f\xed\x0e\xb7\x10\x85\x14\x2d\x31\xdd\x87\xdf\x08\xbc\x8a\x88\xe1\x8c\x21\x0e\x8f\x7f\x1d\x92\xc2\x9e\x9e\x7a\x3c\xf8", ok: false, what: "negated key" },
  Sig { q: b"\x04\xfc\x4a\xa6\x9b\x5b\x41\xeb\x13\x6d\xac\x0a\x59\xfb\x0f\xbd\x11\x89\x5f\xa4\x2c\xd2\x13\x56\xdb\xae\x77\xed\x9b\x73\xda\x01\x0b\x4a\x5a\x33\x49\xd9\x51\x66\x7a\x83\xc3\x7d\x61\x0b\x5b\x04\x4a\x22\x84\xaf\xe8\x98\xeb\xe3\xde\xab\x08\x81\x3a\x46\x9d\x35\x80", r: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", s: b"\x4d\xcd\x7f\xed\x0e\xb7\x10\x85\x14\x2d\x31\xdd\x87\xdf\x08\xbc\x8a\x88\xe1\x8c\x21\x0e\x8f\x7f\x1d\x92\xc2\x9e\x9e\x7a\x3c\xf8", ok: false, what: "r=0" },
  Sig { q: b"\x04\xfc\x4a\xa6\x9b\x5b\x41\xeb\x13\x6d\xac\x0a\x59\xfb\x0f\xbd\x11\x89\x5f\xa4\x2c\xd2\x13\x56\xdb\xae\x77\xed\x9b\x73\xda\x01\x0b\x4a\x5a\x33\x49\xd9\x51\x66\x7a\x83\xc3\x7d\x61\x0b\x5b\x04\x4a\x22\x84\xaf\xe8\x98\xeb\xe3\xde\xab\x08\x81\x3a\x46\x9d\x35\x80", r: b"\x6c\x65\x40\x54\xa8\x97\xa4\xf8\x9c\x32\xf5\xcc\x03\x49\x18\x1c\xff\x5d\x04\x5f\x87\xba\xc1\x32\x5c\xad\xdd\x91\xcd\x1b\xae\xb0", s: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: false, what: "s=0" },
  Sig { q: b"\x04\xfc\x4a\xa6\x9b\x5b\x41\xeb\x13\x6d\xac\x0a\x59\xfb\x0f\xbd\x11\x89\x5f\xa4\x2c\xd2\x13\x56\xdb\xae\x77\xed\x9b\x73\xda\x01\x0b\x4a\x5a\x33\x49\xd9\x51\x66\x7a\x83\xc3\x7d\x61\x0b\x5b\x04\x4a\x22\x84\xaf\xe8\x98\xeb\xe3\xde\xab\x08\x81\x3a\x46\x9d\x35\x80", r: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", s: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: false, what: "r=s=0" },
  Sig { q: b"\x04\xfc\x4a\xa6\x9b\x5b\x41\xeb\x13\x6d\xac\x0a\x59\xfb\x0f\xbd\x11\x89\x5f\xa4\x2c\xd2\x13\x56\xdb\xae\x77\xed\x9b\x73\xda\x01\x0b\x4a\x5a\x33\x49\xd9\x51\x66\x7a\x83\xc3\x7d\x61\x0b\x5b\x04\x4a\x22\x84\xaf\xe8\x98\xeb\xe3\xde\xab\x08\x81\x3a\x46\x9d\x35\x80", r: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01", s: b"\x4d\xcd\x7f\xed\x0e\xb7\x10\x85\x14\x2d\x31\xdd\x87\xdf\x08\xbc\x8a\x88\xe1\x8c\x21\x0e\x8f\x7f\x1d\x92\xc2\x9e\x9e\x7a\x3c\xf8", ok: false, what: "r=1" },
  Sig { q: b"\x04\xfc\x4a\xa6\x9b\x5b\x41\xeb\x13\x6d\xac\x0a\x59\xfb\x0f\xbd\x11\x89\x5f\xa4\x2c\xd2\x13\x56\xdb\xae\x77\xed\x9b\x73\xda\x01\x0b\x4a\x5a\x33\x49\xd9\x51\x66\x7a\x83\xc3\x7d\x61\x0b\x5b\x04\x4a\x22\x84\xaf\xe8\x98\xeb\xe3\xde\xab\x08\x81\x3a\x46\x9d\x35\x80", r: b"\x6c\x65\x40\x54\xa8\x97\xa4\xf8\x9c\x32\xf5\xcc\x03\x49\x18\x1c\xff\x5d\x04\x5f\x87\xba\xc1\x32\x5c\xad\xdd\x91\xcd\x1b\xae\xb0", s: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01", ok: false, what: "s=1" },
  Sig { q: b"\x04\xfc\x4a\xa6\x9b\x5b\x41\xeb\x13\x6d\xac\x0a\x59\xfb\x0f\xbd\x11\x89\x5f\xa4\x2c\xd2\x13\x56\xdb\xae\x77\xed\x9b\x73\xda\x01\x0b\x4a\x5a\x33\x49\xd9\x51\x66\x7a\x83\xc3\x7d\x61\x0b\x5b\x04\x4a\x22\x84\xaf\xe8\x98\xeb\xe3\xde\xab\x08\x81\x3a\x46\x9d\x35\x80", r: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01", s: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01", ok: false, what: "r=s=1" },
  Sig { q: b"\x04\xfc\x4a\xa6\x9b\x5b\x41\xeb\x13\x6d\xac\x0a\x59\xfb\x0f\xbd\x11\x89\x5f\xa4\x2c\xd2\x13\x56\xdb\xae\x77\xed\x9b\x73\xda\x01\x0b\x4a\x5a\x33\x49\xd9\x51\x66\x7a\x83\xc3\x7d\x61\x0b\x5b\x04\x4a\x22\x84\xaf\xe8\x98\xeb\xe3\xde\xab\x08\x81\x3a\x46\x9d\x35\x80", r: b"\xff\xff\xff\xff\x00\x00\x00\x00\xff\xff\xff\xff\xff\xff\xff\xff\xbc\xe6\xfa\xad\xa7\x17\x9e\x84\xf3\xb9\xca\xc2\xfc\x63\x25\x50", s: b"\x4d\xcd\x7f\xed\x0e\xb7\x10\x85\x14\x2d\x31\xdd\x87\xdf\x08\xbc\x8a\x88\xe1\x8c\x21\x0e\x8f\x7f\x1d\x92\xc2\x9e\x9e\x7a\x3c\xf8", ok: false, what: "r=ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632550" },
  Sig { q: b"\x04\xfc\x4a\xa6\x9b\x5b\x41\xeb\x13\x6d\xac\x0a\x59\xfb\x0f\xbd\x11\x89\x5f\xa4\x2c\xd2\x13\x56\xdb\xae\x77\xed\x9b\x73\xda\x01\x0b\x4a\x5a\x33\x49\xd9\x51\x66\x7a\x83\xc3\x7d\x61\x0b\x5b\x04\x4a\x22\x84\xaf\xe8\x98\xeb\xe3\xde\xab\x08\x81\x3a\x46\x9d\x35\x80", r: b"\x6c\x65\x40\x54\xa8\x97\xa4\xf8\x9c\x32\xf5\xcc\x03\x49\x18\x1c\xff\x5d\x04\x5f\x87\xba\xc1\x32\x5c\xad\xdd\x91\xcd\x1b\xae\xb0", s: b"\xff\xff\xff\xff\x00\x00\x00\x00\xff\xff\xff\xff\xff\xff\xff\xff\xbc\xe6\xfa\xad\xa7\x17\x9e\x84\xf3\xb9\xca\xc2\xfc\x63\x25\x50", ok: false, what: "s=ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632550" },
  Sig { q: b"\x04\xfc\x4a\xa6\x9b\x5b\x41\xeb\x13\x6d\xac\x0a\x59\xfb\x0f\xbd\x11\x89\x5f\xa4\x2c\xd2\x13\x56\xdb\xae\x77\xed\x9b\x73\xda\x01\x0b\x4a\x5a\x33\x49\xd9\x51\x66\x7a\x83\xc3\x7d\x61\x0b\x5b\x04\x4a\x22\x84\xaf\xe8\x98\xeb\xe3\xde\xab\x08\x81\x3a\x46\x9d\x35\x80", r: b"\xff\xff\xff\xff\x00\x00\x00\x00\xff\xff\xff\xff\xff\xff\xff\xff\xbc\xe6\xfa\xad\xa7\x17\x9e\x84\xf3\xb9\xca\xc2\xfc\x63\x25\x50", s: b"\xff\xff\xff\xff\x00\x00\x00\x00\xff\xff\xff\xff\xff\xff\xff\xff\xbc\xe6\xfa\xad\xa7\x17\x9e\x84\xf3\xb9\xca\xc2\xfc\x63\x25\x50", ok: false, what: "r=s=ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632550" },
  Sig { q: b"\x04\xfc\x4a\xa6\x9b\x5b\x41\xeb\x13\x6d\xac\x0a\x59\xfb\x0f\xbd\x11\x89\x5f\xa4\x2c\xd2\x13\x56\xdb\xae\x77\xed\x9b\x73\xda\x01\x0b\x4a\x5a\x33\x49\xd9\x51\x66\x7a\x83\xc3\x7d\x61\x0b\x5b\x04\x4a\x22\x84\xaf\xe8\x98\xeb\xe3\xde\xab\x08\x81\x3a\x46\x9d\x35\x80", r: b"\xff\xff\xff\xff\x00\x00\x00\x00\xff\xff\xff\xff\xff\xff\xff\xff\xbc\xe6\xfa\xad\xa7\x17\x9e\x84\xf3\xb9\xca\xc2\xfc\x63\x25\x51", s: b"\x4d\xcd\x7f\xed\x0e\xb7\x10\x85\x14\x2d\x31\xdd\x87\xdf\x08\xbc\x8a\x88\xe1\x8c\x21\x0e\x8f\x7f\x1d\x92\xc2\x9e\x9e\x7a\x3c\xf8", ok: false, what: "r=ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551" },
  Sig { q: b"\x04\xfc\x4a\xa6\x9b\x5b\x41\xeb\x13\x6d\xac\x0a\x59\xfb\x0f\xbd\x11\x89\x5f\xa4\x2c\xd2\x13\x56\xdb\xae\x77\xed\x9b\x73\xda\x01\x0b\x4a\x5a\x33\x49\xd9\x51\x66\x7a\x83\xc3\x7d\x61\x0b\x5b\x04\x4a\x22\x84\xaf\xe8\x98\xeb\xe3\xde\xab\x08\x81\x3a\x46\x9d\x35\x80", r: b"\x6c\x65\x40\x54\xa8\x97\xa4\xf8\x9c\x32\xf5\xcc\x03\x49\x18\x1c\xff\x5d\x04\x5f\x87\xba\xc1\x32\x5c\xad\xdd\x91\xcd\x1b\xae\xb0", s: b"\xff\xff\xff\xff\x00\x00\x00\x00\xff\xff\xff\xff\xff\xff\xff\xff\xbc\xe6\xfa\xad\xa7\x17\x9e\x84\xf3\xb9\xca\xc2\xfc\x63\x25\x51", ok: false, what: "s=ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551" },
  Sig { q: b"\x04\xfc\x4a\xa6\x9b\x5b\x41\xeb\x13\x6d\xac\x0a\x59\xfb\x0f\xbd\x11\x89\x5f\xa4\x2c\xd2\x13\x56\xdb\xae\x77\xed\x9b\x73\xda\x01\x0b\x4a\x5a\x33\x49\xd9\x51\x66\x7a\x83\xc3\x7d\x61\x0b\x5b\x04\x4a\x22\x84\xaf\xe8\x98\xeb\xe3\xde\xab\x08\x81\x3a\x46\x9d\x35\x80", r: b"\xff\xff\xff\xff\x00\x00\x00\x00\xff\xff\xff\xff\xff\xff\xff\xff\xbc\xe6\xfa\xad\xa7\x17\x9e\x84\xf3\xb9\xca\xc2\xfc\x63\x25\x51", s: b"\xff\xff\xff\xff\x00\x00\x00\x00\xff\xff\xff\xff\xff\xff\xff\xff\xbc\xe6\xfa\xad\xa7\x17\x9e\x84\xf3\xb9\xca\xc2\xfc\x63\x25\x51", ok: false, what: "r=s=ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551" },
  Sig { q: b"\x04\xfc\x4a\xa6\x9b\x5b\x41\xeb\x13\x6d\xac\x0a\x59\xfb\x0f\xbd\x11\x89\x5f\xa4\x2c\xd2\x13\x56\xdb\xae\x77\xed\x9b\x73\xda\x01\x0b\x4a\x5a\x33\x49\xd9\x51\x66\x7a\x83\xc3\x7d\x61\x0b\x5b\x04\x4a\x22\x84\xaf\xe8\x98\xeb\xe3\xde\xab\x08\x81\x3a\x46\x9d\x35\x80", r: b"\xff\xff\xff\xff\x00\x00\x00\x00\xff\xff\xff\xff\xff\xff\xff\xff\xbc\xe6\xfa\xad\xa7\x17\x9e\x84\xf3\xb9\xca\xc2\xfc\x63\x25\x52", s: b"\x4d\xcd\x7f\xed\x0e\xb7\x10\x85\x14\x2d\x31\xdd\x87\xdf\x08\xbc\x8a\x88\xe1\x8c\x21\x0e\x8f\x7f\x1d\x92\xc2\x9e\x9e\x7a\x3c\xf8", ok: false, what: "r=ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632552" },
  Sig { q: b"\x04\xfc\x4a\xa6\x9b\x5b\x41\xeb\x13\x6d\xac\x0a\x59\xfb\x0f\xbd\x11\x89\x5f\xa4\x2c\xd2\x13\x56\xdb\xae\x77\xed\x9b\x73\xda\x01\x0b\x4a\x5a\x33\x49\xd9\x51\x66\x7a\x83\xc3\x7d\x61\x0b\x5b\x04\x4a\x22\x84\xaf\xe8\x98\xeb\xe3\xde\xab\x08\x81\x3a\x46\x9d\x35\x80", r: b"\x6c\x65\x40\x54\xa8\x97\xa4\xf8\x9c\x32\xf5\xcc\x03\x49\x18\x1c\xff\x5d\x04\x5f\x87\xba\xc1\x32\x5c\xad\xdd\x91\xcd\x1b\xae\xb0", s: b"\xff\xff\xff\xff\x00\x00\x00\x00\xff\xff\xff\xff\xff\xff\xff\xff\xbc\xe6\xfa\xad\xa7\x17\x9e\x84\xf3\xb9\xca\xc2\xfc\x63\x25\x52", ok: false, what: "s=ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632552" },
  Sig { q: b"\x04\xfc\x4a\xa6\x9b\x5b\x41\xeb\x13\x6d\xac\x0a\x59\xfb\x0f\xbd\x11\x89\x5f\xa4\x2c\xd2\x13\x56\xdb\xae\x77\xed\x9b\x73\xda\x01\x0b\x4a\x5a\x33\x49\xd9\x51\x66\x7a\x83\xc3\x7d\x61\x0b\x5b\x04\x4a\x22\x84\xaf\xe8\x98\xeb\xe3\xde\xab\x08\x81\x3a\x46\x9d\x35\x80", r: b"\xff\xff\xff\xff\x00\x00\x00\x00\xff\xff\xff\xff\xff\xff\xff\xff\xbc\xe6\xfa\xad\xa7\x17\x9e\x84\xf3\xb9\xca\xc2\xfc\x63\x25\x52", s: b"\xff\xff\xff\xff\x00\x00\x00\x00\xff\xff\xff\xff\xff\xff\xff\xff\xbc\xe6\xfa\xad\xa7\x17\x9e\x84\xf3\xb9\xca\xc2\xfc\x63\x25\x52", ok: false, what: "r=s=ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632552" },
  Sig { q: b"\x04\xfc\x4a\xa6\x9b\x5b\x41\xeb\x13\x6d\xac\x0a\x59\xfb\x0f\xbd\x11\x89\x5f\xa4\x2c\xd2\x13\x56\xdb\xae\x77\xed\x9b\x73\xda\x01\x0b\x4a\x5a\x33\x49\xd9\x51\x66\x7a\x83\xc3\x7d\x61\x0b\x5b\x04\x4a\x22\x84\xaf\xe8\x98\xeb\xe3\xde\xab\x08\x81\x3a\x46\x9d\x35\x80", r: b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff", s: b"\x4d\xcd\x7f\xed\x0e\xb7\x10\x85\x14\x2d\x31\xdd\x87\xdf\x08\xbc\x8a\x88\xe1\x8c\x21\x0e\x8f\x7f\x1d\x92\xc2\x9e\x9e\x7a\x3c\xf8", ok: false, what: "r=ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff" },
  Sig { q: b"\x04\xfc\x4a\xa6\x9b\x5b\x41\xeb\x13\x6d\xac\x0a\x59\xfb\x0f\xbd\x11\x89\x5f\xa4\x2c\xd2\x13\x56\xdb\xae\x77\xed\x9b\x73\xda\x01\x0b\x4a\x5a\x33\x49\xd9\x51\x66\x7a\x83\xc3\x7d\x61\x0b\x5b\x04\x4a\x22\x84\xaf\xe8\x98\xeb\xe3\xde\xab\x08\x81\x3a\x46\x9d\x35\x80", r: b"\x6c\x65\x40\x54\xa8\x97\xa4\xf8\x9c\x32\xf5\xcc\x03\x49\x18\x1c\xff\x5d\x04\x5f\x87\xba\xc1\x32\x5c\xad\xdd\x91\xcd\x1b\xae\xb0", s: b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff", ok: false, what: "s=ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff" },
  Sig { q: b"\x04\xfc\x4a\xa6\x9b\x5b\x41\xeb\x13\x6d\xac\x0a\x59\xfb\x0f\xbd\x11\x89\x5f\xa4\x2c\xd2\x13\x56\xdb\xae\x77\xed\x9b\x73\xda\x01\x0b\x4a\x5a\x33\x49\xd9\x51\x66\x7a\x83\xc3\x7d\x61\x0b\x5b\x04\x4a\x22\x84\xaf\xe8\x98\xeb\xe3\xde\xab\x08\x81\x3a\x46\x9d\x35\x80", r: b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff", s: b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff", ok: false, what: "r=s=ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff" },
  Sig { q: b"\x04\xd0\x27\x2e\x73\x21\xe3\xd2\x15\x62\xd2\xbd\x3e\xa4\x5a\x2a\x10\x64\xd8\xfb\xb7\x14\xbf\xf4\xfa\xfb\x13\xe3\x70\xa5\xe4\x6f\x7f\x5b\xfe\xe5\xa3\xc3\x4c\xa9\x68\x39\x41\xd8\x07\x07\xc1\x99\xc4\x6d\xe5\xd1\x9e\x48\x7b\xa3\xb0\x1b\xb5\xd8\xdb\xda\xe0\x8d\x02", r: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x05", s: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01\x23\x45\x67", ok: true, what: "small r" },
  Sig { q: b"\x04\xd0\x27\x2e\x73\x21\xe3\xd2\x15\x62\xd2\xbd\x3e\xa4\x5a\x2a\x10\x64\xd8\xfb\xb7\x14\xbf\xf4\xfa\xfb\x13\xe3\x70\xa5\xe4\x6f\x7f\x5b\xfe\xe5\xa3\xc3\x4c\xa9\x68\x39\x41\xd8\x07\x07\xc1\x99\xc4\x6d\xe5\xd1\x9e\x48\x7b\xa3\xb0\x1b\xb5\xd8\xdb\xda\xe0\x8d\x02", r: b"\xff\xff\xff\xff\x00\x00\x00\x00\xff\xff\xff\xff\xff\xff\xff\xff\xbc\xe6\xfa\xad\xa7\x17\x9e\x84\xf3\xb9\xca\xc2\xfc\x63\x25\x56", s: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01\x23\x45\x67", ok: false, what: "small r plus n" },
  Sig { q: b"\x04\xd0\x27\x2e\x73\x21\xe3\xd2\x15\x62\xd2\xbd\x3e\xa4\x5a\x2a\x10\x64\xd8\xfb\xb7\x14\xbf\xf4\xfa\xfb\x13\xe3\x70\xa5\xe4\x6f\x7f\x5b\xfe\xe5\xa3\xc3\x4c\xa9\x68\x39\x41\xd8\x07\x07\xc1\x99\xc4\x6d\xe5\xd1\x9e\x48\x7b\xa3\xb0\x1b\xb5\xd8\xdb\xda\xe0\x8d\x02", r: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x05", s: b"\xff\xff\xff\xff\x00\x00\x00\x00\xff\xff\xff\xff\xff\xff\xff\xff\xbc\xe6\xfa\xad\xa7\x17\x9e\x84\xf3\xb9\xca\xc2\xfd\x86\x6a\xb8", ok: false, what: "small s plus n" },
  Sig { q: b"\x04\xe3\x2f\x95\x1b\x47\x65\x10\x20\x3f\xe2\x40\x98\xbf\x78\x17\xbb\x6c\x9f\xc6\x16\x08\xca\xae\x96\xfc\x48\xfe\x84\x87\x56\xdd\x37\xf4\xdd\xde\x7f\x94\xea\x27\xa6\x59\xd8\xa6\x59\x42\xcc\x75\x29\xe3\xf9\x79\x1c\x63\xa3\x30\x8f\x2d\xed\xfe\xf6\x49\xf2\x65\xce", r: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x03", s: b"\x4d\xcd\x7f\xed\x0e\xb7\x10\x85\x14\x2d\x31\xdd\x87\xdf\x08\xbc\x8a\x88\xe1\x8c\x21\x0e\x8f\x7f\x1d\x92\xc2\x9e\x9e\x7a\x3c\xf8", ok: true, what: "x(R) above n" },
  Sig { q: b"\x04\xe3\x2f\x95\x1b\x47\x65\x10\x20\x3f\xe2\x40\x98\xbf\x78\x17\xbb\x6c\x9f\xc6\x16\x08\xca\xae\x96\xfc\x48\xfe\x84\x87\x56\xdd\x37\xf4\xdd\xde\x7f\x94\xea\x27\xa6\x59\xd8\xa6\x59\x42\xcc\x75\x29\xe3\xf9\x79\x1c\x63\xa3\x30\x8f\x2d\xed\xfe\xf6\x49\xf2\x65\xce", r: b"\xff\xff\xff\xff\x00\x00\x00\x00\xff\xff\xff\xff\xff\xff\xff\xff\xbc\xe6\xfa\xad\xa7\x17\x9e\x84\xf3\xb9\xca\xc2\xfc\x63\x25\x54", s: b"\x4d\xcd\x7f\xed\x0e\xb7\x10\x85\x14\x2d\x31\xdd\x87\xdf\x08\xbc\x8a\x88\xe1\x8c\x21\x0e\x8f\x7f\x1d\x92\xc2\x9e\x9e\x7a\x3c\xf8", ok: false, what: "x(R) itself as r" },
  Sig { q: b"\x04\xc6\x91\x90\xa6\xad\xc5\x2c\x63\xe6\x38\xe5\xde\x47\x6f\x57\xaa\xa3\xf7\x18\xa4\x9f\x2e\xe9\xd0\x57\xa7\x58\x0e\xa3\x98\xf7\x54\x5e\x52\xc9\xc9\xc4\x20\xa4\x44\xc8\xa7\x93\x8e\x8e\x92\xe7\x41\x3d\x89\x51\x74\x85\xe1\x94\x48\x80\x6e\x3d\x33\x9e\x48\x8a\xc6", r: b"\x6c\x65\x40\x54\xa8\x97\xa4\xf8\x9c\x32\xf5\xcc\x03\x49\x18\x1c\xff\x5d\x04\x5f\x87\xba\xc1\x32\x5c\xad\xdd\x91\xcd\x1b\xae\xb0", s: b"\x4d\xcd\x7f\xed\x0e\xb7\x10\x85\x14\x2d\x31\xdd\x87\xdf\x08\xbc\x8a\x88\xe1\x8c\x21\x0e\x8f\x7f\x1d\x92\xc2\x9e\x9e\x7a\x3c\xf8", ok: false, what: "R at infinity" },
  Sig { q: b"\x04\x6b\x17\xd1\xf2\xe1\x2c\x42\x47\xf8\xbc\xe6\xe5\x63\xa4\x40\xf2\x77\x03\x7d\x81\x2d\xeb\x33\xa0\xf4\xa1\x39\x45\xd8\x98\xc2\x96\xb0\x1c\xbd\x1c\x01\xe5\x80\x65\x71\x18\x14\xb5\x83\xf0\x61\xe9\xd4\x31\xcc\xa9\x94\xce\xa1\x31\x34\x49\xbf\x97\xc8\x40\xae\x0a", r: b"\xc0\xf4\xc2\xc0\x63\x3d\x04\x8d\x72\xc1\x37\x78\x56\x2f\x37\xb4\x9b\xfa\x29\x99\xfe\xc3\xe2\x86\xbc\xe7\x24\x8e\x51\xf9\xd3\x37", s: b"\x4d\xcd\x7f\xed\x0e\xb7\x10\x85\x14\x2d\x31\xdd\x87\xdf\x08\xbc\x8a\x88\xe1\x8c\x21\x0e\x8f\x7f\x1d\x92\xc2\x9e\x9e\x7a\x3c\xf8", ok: false, what: "R at infinity" },
  Sig { q: b"\x04\x62\x44\x4d\xf1\x95\x26\xea\x2d\x45\x2b\x05\xb1\x9f\x70\xe3\x3a\x4b\x7c\x73\x48\x61\x44\x82\x83\xbd\x51\x54\x7b\x99\x13\xd8\xab\x74\x4f\xf3\x22\x9e\xc2\xae\x77\x81\xa5\x40\x9d\x72\xe8\xca\x40\x7b\xdb\x9a\x03\x37\xd1\xfa\x61\xdf\x77\x24\xe6\xe7\x0e\x2f\xd1", r: b"\x54\xe7\x7a\x00\x1c\x38\x62\xb9\x7a\x76\x64\x7f\x43\x36\xdf\x3c\xf1\x26\xac\xbe\x7a\x06\x9c\x5e\x57\x09\x27\x73\x24\xd2\x92\x0b", s: b"\x40\x22\xf7\x3f\xe9\x9b\x00\xa6\xa2\xad\xe3\x5a\x55\x74\x75\xac\x0c\xb2\x72\xe5\xa9\xfa\xc9\x4a\xd0\x16\xfd\x9d\xe6\x9f\x91\x38", ok: true, what: "doubling" },
  Sig { q: b"\x04\x6b\x17\xd1\xf2\xe1\x2c\x42\x47\xf8\xbc\xe6\xe5\x63\xa4\x40\xf2\x77\x03\x7d\x81\x2d\xeb\x33\xa0\xf4\xa1\x39\x45\xd8\x98\xc2\x96\x4f\xe3\x42\xe2\xfe\x1a\x7f\x9b\x8e\xe7\xeb\x4a\x7c\x0f\x9e\x16\x2b\xce\x33\x57\x6b\x31\x5e\xce\xcb\xb6\x40\x68\x37\xbf\x51\xf5", r: b"\x6c\x65\x40\x54\xa8\x97\xa4\xf8\x9c\x32\xf5\xcc\x03\x49\x18\x1c\xff\x5d\x04\x5f\x87\xba\xc1\x32\x5c\xad\xdd\x91\xcd\x1b\xae\xb0", s: b"\x95\x02\x41\x54\x21\xfe\xb6\x5c\x4a\xd6\x89\xe8\xb2\x3a\x25\x17\x7a\xab\xa4\xe4\x31\x92\xa1\x2e\x57\x05\x67\xe9\xfa\xf6\xfb\x6f", ok: true, what: "key G" },
  Sig { q: b"\x04\x7c\xf2\x7b\x18\x8d\x03\x4f\x7e\x8a\x52\x38\x03\x04\xb5\x1a\xc3\xc0\x89\x69\xe2\x77\xf2\x1b\x35\xa6\x0b\x48\xfc\x47\x66\x99\x78\x07\x77\x55\x10\xdb\x8e\xd0\x40\x29\x3d\x9a\xc6\x9f\x74\x30\xdb\xba\x7d\xad\xe6\x3c\xe9\x82\x29\x9e\x04\xb7\x9d\x22\x78\x73\xd1", r: b"\x6c\x65\x40\x54\xa8\x97\xa4\xf8\x9c\x32\xf5\xcc\x03\x49\x18\x1c\xff\x5d\x04\x5f\x87\xba\xc1\x32\x5c\xad\xdd\x91\xcd\x1b\xae\xb0", s: b"\xf2\x36\x6b\xd6\xd5\xad\xd2\x2f\xfa\x81\x3c\x8b\x58\x06\x53\xa6\x6a\x40\x22\x4e\x2e\x4b\xbf\xfd\x23\xd6\xf1\xb6\x64\x31\xda\x24", ok: true, what: "key 2G" },
  Sig { q: b"\x04\x6b\x17\xd1\xf2\xe1\x2c\x42\x47\xf8\xbc\xe6\xe5\x63\xa4\x40\xf2\x77\x03\x7d\x81\x2d\xeb\x33\xa0\xf4\xa1\x39\x45\xd8\x98\xc2\x96\xb0\x1c\xbd\x1c\x01\xe5\x80\x65\x71\x18\x14\xb5\x83\xf0\x61\xe9\xd4\x31\xcc\xa9\x94\xce\xa1\x31\x34\x49\xbf\x97\xc8\x40\xae\x0a", r: b"\x6c\x65\x40\x54\xa8\x97\xa4\xf8\x9c\x32\xf5\xcc\x03\x49\x18\x1c\xff\x5d\x04\x5f\x87\xba\xc1\x32\x5c\xad\xdd\x91\xcd\x1b\xae\xb0", s: b"\xda\x99\xec\x4d\xba\xa0\x7e\xb5\xeb\x81\x24\xa3\x66\xa1\xc7\xf9\x58\x69\xa4\xbd\xdf\x38\x02\x15\xb1\x1c\x1f\x14\x24\xe4\x63\x56", ok: true, what: "key -G" },
  Sig { q: b"\x04\x2a\xfa\x38\x6b\x3f\x2b\xdc\xdb\x83\xf4\xd8\x3f\x8f\xa3\x87\x4d\x7b\x74\xdc\xb4\x54\xbd\x64\x4f\xdd\x6b\xf3\xd1\xf2\xda\x8d\xb6\x8d\xe7\xb4\x1d\x35\x57\xa9\xcc\x9d\x4a\xc9\x0e\xf7\xad\x29\x9a\x51\x75\x9b\x03\x0e\x14\x72\xb3\x6b\x95\x2a\x76\x86\x90\x8d\x63", r: b"\x6c\x65\x40\x54\xa8\x97\xa4\xf8\x9c\x32\xf5\xcc\x03\x49\x18\x1c\xff\x5d\x04\x5f\x87\xba\xc1\x32\x5c\xad\xdd\x91\xcd\x1b\xae\xb0", s: b"\xe6\x68\x2c\x12\x48\x27\x28\x72\xf3\x01\x30\x97\x5f\x54\x0d\xcf\xe1\x54\xe3\x86\x06\xc1\xe1\x09\x6a\x79\x88\x65\x44\x8b\x1e\xbd", ok: true, what: "key G/2" },
  Sig { q: b"\x04\xfc\x4a\xa6\x9b\x5b\x41\xeb\x13\x6d\xac\x0a\x59\xfb\x0f\xbd\x11\x89\x5f\xa4\x2c\xd2\x13\x56\xdb\xae\x77\xed\x9b\x73\xda\x01\x0b\x4a\x5a\x33\x49\xd9\x51\x66\x7a\x83\xc3\x7d\x61\x0b\x5b\x04\x4a\x22\x84\xaf\xe8\x98\xeb\xe3\xde\xab\x08\x81\x3a\x46\x9d\x35\x80", r: b"\x6b\x17\xd1\xf2\xe1\x2c\x42\x47\xf8\xbc\xe6\xe5\x63\xa4\x40\xf2\x77\x03\x7d\x81\x2d\xeb\x33\xa0\xf4\xa1\x39\x45\xd8\x98\xc2\x96", s: b"\x36\x4d\x00\x4e\x87\x25\xdd\x10\x28\x83\xe1\x3c\xcd\x06\x2f\x1e\x80\xf4\xcf\xab\x8b\xde\x6c\xbc\xd1\x46\x8d\xc8\x9c\x3c\xf6\xda", ok: true, what: "nonce 1" },
  Sig { q: b"\x04\xfc\x4a\xa6\x9b\x5b\x41\xeb\x13\x6d\xac\x0a\x59\xfb\x0f\xbd\x11\x89\x5f\xa4\x2c\xd2\x13\x56\xdb\xae\x77\xed\x9b\x73\xda\x01\x0b\x4a\x5a\x33\x49\xd9\x51\x66\x7a\x83\xc3\x7d\x61\x0b\x5b\x04\x4a\x22\x84\xaf\xe8\x98\xeb\xe3\xde\xab\x08\x81\x3a\x46\x9d\x35\x80", r: b"\x7c\xf2\x7b\x18\x8d\x03\x4f\x7e\x8a\x52\x38\x03\x04\xb5\x1a\xc3\xc0\x89\x69\xe2\x77\xf2\x1b\x35\xa6\x0b\x48\xfc\x47\x66\x99\x78", s: b"\x62\x8e\x4c\xc6\x86\x91\x63\x93\x35\x46\x57\x35\x44\x6a\xed\x6f\x1e\xd9\x9f\xc8\x84\xb5\xea\xd7\x0d\x5d\x2a\x7f\xbf\x89\x9e\x4e", ok: true, what: "nonce 2" },
  Sig { q: b"\x04\xfc\x4a\xa6\x9b\x5b\x41\xeb\x13\x6d\xac\x0a\x59\xfb\x0f\xbd\x11\x89\x5f\xa4\x2c\xd2\x13\x56\xdb\xae\x77\xed\x9b\x73\xda\x01\x0b\x4a\x5a\x33\x49\xd9\x51\x66\x7a\x83\xc3\x7d\x61\x0b\x5b\x04\x4a\x22\x84\xaf\xe8\x98\xeb\xe3\xde\xab\x08\x81\x3a\x46\x9d\x35\x80", r: b"\x5e\xcb\xe4\xd1\xa6\x33\x0a\x44\xc8\xf7\xef\x95\x1d\x4b\xf1\x65\xe6\xc6\xb7\x21\xef\xad\xa9\x85\xfb\x41\x66\x1b\xc6\xe7\xfd\x6c", s: b"\x94\xb9\x15\x40\x75\xb8\x53\x7b\x2f\xd8\xd7\xb2\xc8\xac\x17\x3a\x62\x24\x10\xda\x05\x77\x71\xd9\xb2\x54\x89\xaf\x8e\xde\xcb\x80", ok: true, what: "nonce 3" },
  Sig { q: b"\x04\xfc\x4a\xa6\x9b\x5b\x41\xeb\x13\x6d\xac\x0a\x59\xfb\x0f\xbd\x11\x89\x5f\xa4\x2c\xd2\x13\x56\xdb\xae\x77\xed\x9b\x73\xda\x01\x0b\x4a\x5a\x33\x49\xd9\x51\x66\x7a\x83\xc3\x7d\x61\x0b\x5b\x04\x4a\x22\x84\xaf\xe8\x98\xeb\xe3\xde\xab\x08\x81\x3a\x46\x9d\x35\x80", r: b"\x6b\x17\xd1\xf2\xe1\x2c\x42\x47\xf8\xbc\xe6\xe5\x63\xa4\x40\xf2\x77\x03\x7d\x81\x2d\xeb\x33\xa0\xf4\xa1\x39\x45\xd8\x98\xc2\x96", s: b"\xc9\xb2\xff\xb0\x78\xda\x22\xf0\xd7\x7c\x1e\xc3\x32\xf9\xd0\xe1\x3b\xf2\x2b\x02\x1b\x39\x31\xc8\x22\x73\x3c\xfa\x60\x26\x2e\x77", ok: true, what: "nonce ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632550" },
  Sig { q: b"\x04\xfc\x4a\xa6\x9b\x5b\x41\xeb\x13\x6d\xac\x0a\x59\xfb\x0f\xbd\x11\x89\x5f\xa4\x2c\xd2\x13\x56\xdb\xae\x77\xed\x9b\x73\xda\x01\x0b\x4a\x5a\x33\x49\xd9\x51\x66\x7a\x83\xc3\x7d\x61\x0b\x5b\x04\x4a\x22\x84\xaf\xe8\x98\xeb\xe3\xde\xab\x08\x81\x3a\x46\x9d\x35\x80", r: b"\x7c\xf2\x7b\x18\x8d\x03\x4f\x7e\x8a\x52\x38\x03\x04\xb5\x1a\xc3\xc0\x89\x69\xe2\x77\xf2\x1b\x35\xa6\x0b\x48\xfc\x47\x66\x99\x78", s: b"\x9d\x71\xb3\x38\x79\x6e\x9c\x6d\xca\xb9\xa8\xca\xbb\x95\x12\x90\x9e\x0d\x5a\xe5\x22\x61\xb3\xad\xe6\x5c\xa0\x43\x3c\xd9\x87\x03", ok: true, what: "nonce ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc63254f" },
  Sig { q: b"\x04\xfc\x4a\xa6\x9b\x5b\x41\xeb\x13\x6d\xac\x0a\x59\xfb\x0f\xbd\x11\x89\x5f\xa4\x2c\xd2\x13\x56\xdb\xae\x77\xed\x9b\x73\xda\x01\x0b\x4a\x5a\x33\x49\xd9\x51\x66\x7a\x83\xc3\x7d\x61\x0b\x5b\x04\x4a\x22\x84\xaf\xe8\x98\xeb\xe3\xde\xab\x08\x81\x3a\x46\x9d\x35\x80", r: b"\x2a\xfa\x38\x6b\x3f\x2b\xdc\xdb\x83\xf4\xd8\x3f\x8f\xa3\x87\x4d\x7b\x74\xdc\xb4\x54\xbd\x64\x4f\xdd\x6b\xf3\xd1\xf2\xda\x8d\xb6", s: b"\x0b\x48\x2d\x86\xba\x24\xec\x09\x77\xaf\x62\xd5\x98\x3a\x74\xd5\xfa\xa4\x58\xae\x90\x00\x77\x28\x93\x3b\xa8\x13\x4c\x3a\x28\xe4", ok: true, what: "nonce 7fffffff800000007fffffffffffffffde737d56d38bcf4279dce5617e3192a9" },
  Sig { q: b"\x04\xfc\x4a\xa6\x9b\x5b\x41\xeb\x13\x6d\xac\x0a\x59\xfb\x0f\xbd\x11\x89\x5f\xa4\x2c\xd2\x13\x56\xdb\xae\x77\xed\x9b\x73\xda\x01\x0b\x4a\x5a\x33\x49\xd9\x51\x66\x7a\x83\xc3\x7d\x61\x0b\x5b\x04\x4a\x22\x84\xaf\xe8\x98\xeb\xe3\xde\xab\x08\x81\x3a\x46\x9d\x35\x80", r: b"\x76\xa9\x4d\x13\x8a\x6b\x41\x85\x8b\x82\x1c\x62\x98\x36\x31\x5f\xcd\x28\x39\x2e\xff\x6c\xa0\x38\xa5\xeb\x47\x87\xe1\x27\x7c\x6e", s: b"\xf8\x24\x3a\xbf\x52\xde\xd7\x99\x11\xfd\x08\x87\xeb\xca\x7a\x75\xaf\xeb\xae\xfa\xa0\xd7\xff\x05\xe7\x01\x90\x13\xf4\xa4\xd8\x50", ok: true, what: "nonce 10" },
  Sig { q: b"\x04\xfc\x4a\xa6\x9b\x5b\x41\xeb\x13\x6d\xac\x0a\x59\xfb\x0f\xbd\x11\x89\x5f\xa4\x2c\xd2\x13\x56\xdb\xae\x77\xed\x9b\x73\xda\x01\x0b\x4a\x5a\x33\x49\xd9\x51\x66\x7a\x83\xc3\x7d\x61\x0b\x5b\x04\x4a\x22\x84\xaf\xe8\x98\xeb\xe3\xde\xab\x08\x81\x3a\x46\x9d\x35\x80", r: b"\x30\x1d\x9e\x50\x2d\xc7\xe0\x5d\xa8\x5d\xa0\x26\xa7\xae\x9a\xa0\xfa\xc9\xdb\x7d\x52\xa9\x5b\x3e\x3e\x3f\x9a\xa0\xa1\xb4\x5b\x8b", s: b"\x76\xec\xae\x32\x8c\xa0\xf2\xa5\x3a\x83\xc5\xdb\x40\x03\xf2\xf8\xc2\xd9\x61\x66\x01\x49\xb5\x0d\x86\xac\x79\x27\x8b\xc2\xad\x74", ok: true, what: "nonce 1f" },
  Sig { q: b"\x04\xfc\x4a\xa6\x9b\x5b\x41\xeb\x13\x6d\xac\x0a\x59\xfb\x0f\xbd\x11\x89\x5f\xa4\x2c\xd2\x13\x56\xdb\xae\x77\xed\x9b\x73\xda\x01\x0b\x4a\x5a\x33\x49\xd9\x51\x66\x7a\x83\xc3\x7d\x61\x0b\x5b\x04\x4a\x22\x84\xaf\xe8\x98\xeb\xe3\xde\xab\x08\x81\x3a\x46\x9d\x35\x80", r: b"\x23\x77\xc7\xd6\x90\xa2\x42\xca\x6c\x45\x07\x4e\x8e\xa5\xbe\xef\xaa\x55\x7f\xd5\xb6\x83\x71\xd9\xd1\x47\x5b\xd5\x2a\x7e\xd0\xe1", s: b"\x1c\x46\xdd\x28\xbe\x23\x26\x6e\x5a\x4c\x4c\xd3\x66\xe6\x1f\x1b\x7d\xea\xe3\x0d\x81\xd6\xd9\x6c\x96\x37\x58\xa8\x5d\x70\x89\x3f", ok: true, what: "nonce 20" },
  Sig { q: b"\x04\xfc\x4a\xa6\x9b\x5b\x41\xeb\x13\x6d\xac\x0a\x59\xfb\x0f\xbd\x11\x89\x5f\xa4\x2c\xd2\x13\x56\xdb\xae\x77\xed\x9b\x73\xda\x01\x0b\x4a\x5a\x33\x49\xd9\x51\x66\x7a\x83\xc3\x7d\x61\x0b\x5b\x04\x4a\x22\x84\xaf\xe8\x98\xeb\xe3\xde\xab\x08\x81\x3a\x46\x9d\x35\x80", r: b"\x0a\x06\x43\xfb\x8f\xcc\x14\xde\xf6\x7a\x6a\x5e\xb1\xbf\x8e\x91\x25\xb3\x5e\xdc\x73\x38\xd8\x16\xaa\x41\x10\xa6\xb9\x0e\xe7\x85", s: b"\xec\x17\x16\x43\x82\x50\xa8\x59\x5b\xdf\x6f\x01\xa5\xba\x65\x62\x3b\x94\x09\xd6\x4b\xb4\x21\x68\x16\xce\x64\x8a\xf4\x13\x84\x9a", ok: true, what: "nonce 40" },
  Sig { q: b"\x04\xfc\x4a\xa6\x9b\x5b\x41\xeb\x13\x6d\xac\x0a\x59\xfb\x0f\xbd\x11\x89\x5f\xa4\x2c\xd2\x13\x56\xdb\xae\x77\xed\x9b\x73\xda\x01\x0b\x4a\x5a\x33\x49\xd9\x51\x66\x7a\x83\xc3\x7d\x61\x0b\x5b\x04\x4a\x22\x84\xaf\xe8\x98\xeb\xe3\xde\xab\x08\x81\x3a\x46\x9d\x35\x80", r: b"\x53\x4d\x45\xdb\x6b\xac\xa8\xe2\xd2\xa5\xd0\xa7\x65\xf1\x60\x13\xa8\xd4\xeb\x58\xc6\xaa\xad\x35\x67\xce\xbd\xfa\xc4\x2d\x62\x3c", s: b"\x56\xaf\xd3\xcd\x44\x1d\x88\xb1\x8f\x9d\x9e\xb2\xee\xb2\x63\xed\x70\xa7\x0a\xa5\x4c\x21\x9e\xb1\x67\x8a\xd5\x75\xaa\xb9\xe7\xec", ok: true, what: "nonce 7f" },
  Sig { q: b"\x04\xfc\x4a\xa6\x9b\x5b\x41\xeb\x13\x6d\xac\x0a\x59\xfb\x0f\xbd\x11\x89\x5f\xa4\x2c\xd2\x13\x56\xdb\xae\x77\xed\x9b\x73\xda\x01\x0b\x4a\x5a\x33\x49\xd9\x51\x66\x7a\x83\xc3\x7d\x61\x0b\x5b\x04\x4a\x22\x84\xaf\xe8\x98\xeb\xe3\xde\xab\x08\x81\x3a\x46\x9d\x35\x80", r: b"\xae\x3f\x7d\xba\x0b\xde\x8b\x6a\xd7\xce\x2f\x8e\xed\xe4\xb7\x62\xc5\x56\xde\xa6\x78\xf8\x59\x62\x6a\x9e\x62\x35\xa6\x74\xc4\xf6", s: b"\x23\x98\xa0\x91\xd3\xc4\xe6\xf7\x9f\x39\xeb\x68\x5b\x1b\x68\x95\x0a\x21\x81\x8c\xae\xf9\x42\x85\x5b\xc6\x3a\x1d\xe5\xc6\xd3\x36", ok: true, what: "nonce 80" },
  Sig { q: b"\x04\xfc\x4a\xa6\x9b\x5b\x41\xeb\x13\x6d\xac\x0a\x59\xfb\x0f\xbd\x11\x89\x5f\xa4\x2c\xd2\x13\x56\xdb\xae\x77\xed\x9b\x73\xda\x01\x0b\x4a\x5a\x33\x49\xd9\x51\x66\x7a\x83\xc3\x7d\x61\x0b\x5b\x04\x4a\x22\x84\xaf\xe8\x98\xeb\xe3\xde\xab\x08\x81\x3a\x46\x9d\x35\x80", r: b"\x28\x52\x50\xed\xc3\xbc\xfc\xd9\x02\x7b\xba\x12\x17\x6d\x34\x3a\x26\x03\x56\x72\xd5\xb4\xa8\x11\x55\xd4\xe3\x7a\x2f\xd2\x0b\xae", s: b"\x5e\x09\xf0\x5d\xa9\x65\x2c\xc6\xf5\x72\x43\xee\xe8\x9f\xd4\x47\x59\x6e\xab\x93\x0d\x96\x13\x53\x59\x39\xc3\xd3\x67\x55\x0a\xd2", ok: true, what: "nonce 100000000000000000000000000000000000000000000000000" },
  Sig { q: b"\x04\xfc\x4a\xa6\x9b\x5b\x41\xeb\x13\x6d\xac\x0a\x59\xfb\x0f\xbd\x11\x89\x5f\xa4\x2c\xd2\x13\x56\xdb\xae\x77\xed\x9b\x73\xda\x01\x0b\x4a\x5a\x33\x49\xd9\x51\x66\x7a\x83\xc3\x7d\x61\x0b\x5b\x04\x4a\x22\x84\xaf\xe8\x98\xeb\xe3\xde\xab\x08\x81\x3a\x46\x9d\x35\x80", r: b"\x84\xba\x96\xdf\xe6\x69\x54\xc5\x7c\xa5\xef\x5b\x31\x27\x34\x8d\xcd\xe5\x22\x15\x29\xa1\x2d\x00\x80\xc7\xbe\x56\x17\xd2\xce\x36", s: b"\x20\xa1\xaa\x07\x1a\xee\x92\xe5\x01\x1a\x8e\xd4\xb2\x82\x99\x24\xee\xad\x41\x27\x8c\x38\xca\xb5\x8e\xaf\x7b\x92\xf7\x77\xe8\xef", ok: true, what: "nonce ffffffffffffffffffffffffffffffffffffffffffffffffff" },
  Sig { q: b"\x04\x25\x36\x54\x6a\x98\xf5\x07\x72\x44\xd1\x14\xf7\x4d\x62\xba\x44\x4a\x45\xf0\x56\xb9\x11\xbe\x02\x32\x19\x49\x7e\x47\xb0\x7f\xaa\xed\xcd\xb1\x3b\xea\xd2\xbf\x6a\xbf\x0e\x92\x57\xdb\x20\x48\x2f\x6e\xb5\x0a\x89\x0e\x37\x99\x63\xfe\xb5\x43\x58\xc5\x22\x5f\xfc", r: b"\xc0\xf4\xc2\xc0\x63\x3d\x04\x8d\x72\xc1\x37\x78\x56\x2f\x37\xb4\x9b\xfa\x29\x99\xfe\xc3\xe2\x86\xbc\xe7\x24\x8e\x51\xf9\xd3\x37", s: b"\xc0\xf4\xc2\xc0\x63\x3d\x04\x8d\x72\xc1\x37\x78\x56\x2f\x37\xb4\x9b\xfa\x29\x99\xfe\xc3\xe2\x86\xbc\xe7\x24\x8e\x51\xf9\xd3\x37", ok: true, what: "u1=1 u2=1" },
  Sig { q: b"\x04\x6b\x71\x59\x28\xa3\xf6\x25\x7b\xf5\xa5\x1a\xb9\x5c\xb0\xe0\x90\x94\xbf\xbb\xde\x2e\x40\xba\x14\x88\xd0\x44\x43\x47\x30\xa1\x83\x9e\x35\xd0\x88\x8d\xc6\x31\x3c\x3c\x52\x66\x6e\x0b\x8f\xa1\x24\xd1\xf5\xbc\xff\x73\xdc\xb7\xe4\xaf\xac\x38\xf5\x6a\xde\x33\x07", r: b"\x81\xe9\x85\x81\xc6\x7a\x09\x19\xe5\x82\x6e\xf0\xac\x5e\x6f\x69\x7b\x0d\x58\x86\x56\x70\x26\x88\x86\x14\x7e\x59\xa7\x90\x81\x1d", s: b"\xc0\xf4\xc2\xc0\x63\x3d\x04\x8d\x72\xc1\x37\x78\x56\x2f\x37\xb4\x9b\xfa\x29\x99\xfe\xc3\xe2\x86\xbc\xe7\x24\x8e\x51\xf9\xd3\x37", ok: true, what: "u1=1 u2=2" },
  Sig { q: b"\x04\xc4\xd3\x36\x7f\x32\x97\xfb\xdb\x25\x11\xb9\xc7\xa4\x72\x5d\x08\xeb\xcb\x4c\x8e\x99\x9c\x0a\x7a\x6e\xf9\xda\xc1\xf7\xf7\x12\xd5\x7a\x60\xc8\x3a\x64\xed\x41\x88\x40\x47\x43\x82\xa1\x59\xd2\x70\x6d\x64\x34\xef\xa3\x19\xbb\xa9\xeb\x64\xef\xaf\x96\x54\xe7\x12", r: b"\xc0\xf4\xc2\xc0\x63\x3d\x04\x8d\x72\xc1\x37\x78\x56\x2f\x37\xb4\x9b\xfa\x29\x99\xfe\xc3\xe2\x86\xbc\xe7\x24\x8e\x51\xf9\xd3\x37", s: b"\x3f\x0b\x3d\x3e\x9c\xc2\xfb\x73\x8d\x3e\xc8\x87\xa9\xd0\xc8\x4b\x20\xec\xd1\x13\xa8\x53\xbb\xfe\x36\xd2\xa6\x34\xaa\x69\x52\x1a", ok: true, what: "u1=ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632550 u2=ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632550" },
  Sig { q: b"\x04\x5d\x07\x7b\x96\xac\xe8\x66\x96\x3b\x3c\x2f\xea\x8f\x1b\xad\xa7\x58\x2d\x3c\x6e\xab\xbf\x43\x24\x5d\x55\x10\xdb\xee\x6b\xcd\x84\xf1\x96\xea\x1c\x8c\x90\xbf\xe1\x54\xc6\x8e\xf4\x27\x80\x43\x1a\x35\x10\xb1\xd8\xc8\xe7\xb8\xa2\xdb\x24\x8d\x85\x75\x22\x03\xa1", r: b"\xd5\x2b\x62\x8a\x1d\xa5\x97\x24\xb2\x8a\xfd\x63\x05\xf8\xdc\x7b\xb5\x44\xe3\x08\xa0\x3b\x84\xe4\xbd\x48\x8a\x1b\xaf\x91\x8b\xbc", s: b"\xa3\x20\xab\x70\xf2\xaf\x63\x3e\xfb\x71\x96\x6f\x3c\x96\x2b\x16\x2e\x7c\xdd\x0c\x4d\x98\xec\x97\xe5\xcb\xe8\xce\xad\xd9\x78\x86", ok: true, what: "u1=1f u2=11" },
  Sig { q: b"\x04\x35\xa9\x6b\x2b\x66\xd3\xc2\x45\xb7\x7a\xc1\x97\xe1\x76\x8f\xc7\x74\x02\xb8\x7b\x80\xc8\xab\xa0\xb6\xfb\x3e\x8f\x89\xa7\x41\xca\x87\xa8\x28\x25\x2b\xc0\x05\xa0\x85\x70\xb9\x07\xc5\x80\x7b\x7c\x57\xba\x87\x4c\x6c\xba\x3a\x23\x92\xf3\x6d\x16\x5a\x76\x1c\x0d", r: b"\x1d\x37\xc1\x2b\xfc\xf3\xbf\x7b\xb2\x1c\xf8\xf8\x27\x5b\x16\xdd\x54\x0f\x01\xa3\xb7\xf1\xad\x58\x16\xec\xa2\xb1\x37\x66\x85\x1e", s: b"\x21\xd3\x7c\x12\x9f\xcf\x3b\xf7\xdb\x21\xcf\x8f\x82\x75\xb1\x6d\xcc\xdd\xcf\x6f\xf0\x62\x0e\xa6\x1f\xe6\x03\x83\x73\x02\xcc\xfc", ok: true, what: "u1=ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632540 u2=10" },
  Sig { q: b"\x04\x6e\x81\x9a\xc8\xd9\x81\x86\x13\xe7\x1c\xc5\x05\x67\x74\x72\x38\xe5\x25\x9d\xd7\xd7\x1b\x33\x68\x88\x76\xc1\xb9\xcc\x1c\xf4\x4e\x7f\x98\x9d\x12\x7f\xab\x62\x80\x18\x88\x38\xa3\xd5\x49\xda\x1a\x37\x1f\x33\x6a\xf8\x7e\x7c\xca\x78\xe9\x5c\x73\x6f\x31\xeb\xf7", r: b"\xe0\x7a\x61\x5f\xb1\x9e\x82\x47\x39\x60\x9b\xbc\x2b\x17\x9b\xda\x2c\x70\x92\x23\xd2\xed\xc0\x85\xd8\x50\x77\xa8\xa7\x2e\x7c\x44", s: b"\xd9\x50\x8f\x1b\x54\x25\x3f\x20\x89\x86\x66\xaa\x78\x4f\xd5\xe2\x95\x6b\xd8\xcb\x3d\x77\x10\x62\x09\xf3\xa5\x78\x72\xca\xcc\xe2", ok: true, what: "u1=100000000000000000000000000000000000000000000000000 u2=80000000000000000000000000000000000000000000000000" },
  Sig { q: b"\x04\xcd\xdf\x53\x51\xaf\x7c\x1e\x13\xbb\x46\xb3\xf5\xa9\xf9\x1d\xa9\x4f\x00\xa5\xe0\x0b\x87\xcb\xf6\x4c\x8c\x4d\xd7\xcf\x8e\xdb\x06\xb5\x42\x95\x94\xe5\x84\x85\x47\xd4\xf5\x0d\xfb\xc2\x5f\x67\x97\x32\x58\xdf\x34\x52\x35\x63\xd8\xd6\x1a\x3a\x0d\xf0\xf1\xd4\x60", r: b"\xf3\x81\xe9\x84\x8e\xc6\x7a\x0a\x0c\xe5\x82\x6e\xf0\xac\x5e\x6f\x29\xca\x4d\x4b\x5b\xf1\xdb\x9e\xbb\xdf\x6f\xf5\x6f\x39\xac\xed", s: b"\xf3\x81\xe9\x84\x8e\xc6\x7a\x0a\x0c\xe5\x82\x6e\xf0\xac\x5e\x6f\x29\xca\x4d\x4b\x5b\xf1\xdb\x9e\xbb\xdf\x6f\xf5\x6f\x39\xac\xed", ok: true, what: "u1=80 u2=1" },
];
pub static SIG_P384_SHA384: &[Sig] = &[
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\x0f\x26\x27\x32\x6d\xe8\xa3\x3e\x17\x86\xc4\xd5\x22\xaa\xe6\x1a\x59\x95\x64\x27\x17\x9d\x47\xa6\x62\x70\x9b\xca\xaf\x71\x7f\xdd\x30\x04\x40\xf6\xd7\xea\x43\x92\x4f\x51\x0a\x93\x73\x00\xcb\x11", s: b"\x89\x40\x00\xfd\x16\xee\x46\x5c\xe0\x68\x1e\xc8\xa4\xc8\xad\xa6\xd3\x60\x69\xb3\xdb\x8f\x8b\x3b\x74\x90\x9c\x15\x18\xbc\x18\xce\x5c\x5c\x11\x6e\x0a\xca\x5d\x0f\x83\x45\xf3\xfd\x3b\x23\x73\xb0", ok: true, what: "ordinary" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\x0f\x26\x27\x32\x6d\xe8\xa3\x3e\x17\x86\xc4\xd5\x22\xaa\xe6\x1a\x59\x95\x64\x27\x17\x9d\x47\xa6\x62\x70\x9b\xca\xaf\x71\x7f\xdd\x30\x04\x40\xf6\xd7\xea\x43\x92\x4f\x51\x0a\x93\x73\x00\xcb\x11", s: b"\x76\xbf\xff\x02\xe9\x11\xb9\xa3\x1f\x97\xe1\x37\x5b\x37\x52\x59\x2c\x9f\x96\x4c\x24\x70\x74\xc4\x52\xd2\xb1\x6c\xdb\x7b\x15\x10\xfb\xbd\xfc\x44\x3d\xe6\x4a\x6b\x69\xa6\x25\x6d\x91\xa1\xb5\xc3", ok: true, what: "negated s" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\xf0\xd9\xd8\xcd\x92\x17\x5c\xc1\xe8\x79\x3b\x2a\xdd\x55\x19\xe5\xa6\x6a\x9b\xd8\xe8\x62\xb8\x59\x64\xf2\xb1\xb7\x44\xc5\xae\x02\x28\x15\xcc\xbb\x70\xc6\x63\xe8\x9d\x9b\x0e\xd7\x59\xc4\x5e\x62", s: b"\x89\x40\x00\xfd\x16\xee\x46\x5c\xe0\x68\x1e\xc8\xa4\xc8\xad\xa6\xd3\x60\x69\xb3\xdb\x8f\x8b\x3b\x74\x90\x9c\x15\x18\xbc\x18\xce\x5c\x5c\x11\x6e\x0a\xca\x5d\x0f\x83\x45\xf3\xfd\x3b\x23\x73\xb0", ok: false, what: "negated r" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\x89\x40\x00\xfd\x16\xee\x46\x5c\xe0\x68\x1e\xc8\xa4\xc8\xad\xa6\xd3\x60\x69\xb3\xdb\x8f\x8b\x3b\x74\x90\x9c\x15\x18\xbc\x18\xce\x5c\x5c\x11\x6e\x0a\xca\x5d\x0f\x83\x45\xf3\xfd\x3b\x23\x73\xb0", s: b"\x0f\x26\x27\x32\x6d\xe8\xa3\x3e\x17\x86\xc4\xd5\x22\xaa\xe6\x1a\x59\x95\x64\x27\x17\x9d\x47\xa6\x62\x70\x9b\xca\xaf\x71\x7f\xdd\x30\x04\x40\xf6\xd7\xea\x43\x92\x4f\x51\x0a\x93\x73\x00\xcb\x11", ok: false, what: "swapped" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\xcb\x58\x3f\x3f\x8d\x7c\x81\x6b\xb6\xfc\xa7\x98\x3a\xfd\xc8\x60\xd3\x7d\x7e\x1c\x13\x68\x8b\xf1\x59\x23\x39\x5e\xb5\x81\x9e\x98\xd3\x62\x36\x98\xed\x39\xd1\x86\x1c\x8a\x5b\x96\x64\x61\xdb\x2f", r: b"\x0f\x26\x27\x32\x6d\xe8\xa3\x3e\x17\x86\xc4\xd5\x22\xaa\xe6\x1a\x59\x95\x64\x27\x17\x9d\x47\xa6\x62\x70\x9b\xca\xaf\x71\x7f\xdd\x30\x04\x40\xf6\xd7\xea\x43\x92\x4f\x51\x0a\x93\x73\x00\xcb\x11", s: b"\x89\x40\x00\xfd\x16\xee\x46\x5c\xe0\x68\x1e\xc8\xa4\xc8\xad\xa6\xd3\x60\x69\xb3\xdb\x8f\x8b\x3b\x74\x90\x9c\x15\x18\xbc\x18\xce\x5c\x5c\x11\x6e\x0a\xca\x5d\x0f\x83\x45\xf3\xfd\x3b\x23\x73\xb0", ok: false, what: "negated key" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", s: b"\x89\x40\x00\xfd\x16\xee\x46\x5c\xe0\x68\x1e\xc8\xa4\xc8\xad\xa6\xd3\x60\x69\xb3\xdb\x8f\x8b\x3b\x74\x90\x9c\x15\x18\xbc\x18\xce\x5c\x5c\x11\x6e\x0a\xca\x5d\x0f\x83\x45\xf3\xfd\x3b\x23\x73\xb0", ok: false, what: "r=0" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\x0f\x26\x27\x32\x6d\xe8\xa3\x3e\x17\x86\xc4\xd5\x22\xaa\xe6\x1a\x59\x95\x64\x27\x17\x9d\x47\xa6\x62\x70\x9b\xca\xaf\x71\x7f\xdd\x30\x04\x40\xf6\xd7\xea\x43\x92\x4f\x51\x0a\x93\x73\x00\xcb\x11", s: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: false, what: "s=0" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", s: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: false, what: "r=s=0" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01", s: b"\x89\x40\x00\xfd\x16\xee\x46\x5c\xe0\x68\x1e\xc8\xa4\xc8\xad\xa6\xd3\x60\x69\xb3\xdb\x8f\x8b\x3b\x74\x90\x9c\x15\x18\xbc\x18\xce\x5c\x5c\x11\x6e\x0a\xca\x5d\x0f\x83\x45\xf3\xfd\x3b\x23\x73\xb0", ok: false, what: "r=1" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\x0f\x26\x27\x32\x6d\xe8\xa3\x3e\x17\x86\xc4\xd5\x22\xaa\xe6\x1a\x59\x95\x64\x27\x17\x9d\x47\xa6\x62\x70\x9b\xca\xaf\x71\x7f\xdd\x30\x04\x40\xf6\xd7\xea\x43\x92\x4f\x51\x0a\x93\x73\x00\xcb\x11", s: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01", ok: false, what: "s=1" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01", s: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01", ok: false, what: "r=s=1" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xc7\x63\x4d\x81\xf4\x37\x2d\xdf\x58\x1a\x0d\xb2\x48\xb0\xa7\x7a\xec\xec\x19\x6a\xcc\xc5\x29\x72", s: b"\x89\x40\x00\xfd\x16\xee\x46\x5c\xe0\x68\x1e\xc8\xa4\xc8\xad\xa6\xd3\x60\x69\xb3\xdb\x8f\x8b\x3b\x74\x90\x9c\x15\x18\xbc\x18\xce\x5c\x5c\x11\x6e\x0a\xca\x5d\x0f\x83\x45\xf3\xfd\x3b\x23\x73\xb0", ok: false, what: "r=ffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52972" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\x0f\x26\x27\x32\x6d\xe8\xa3\x3e\x17\x86\xc4\xd5\x22\xaa\xe6\x1a\x59\x95\x64\x27\x17\x9d\x47\xa6\x62\x70\x9b\xca\xaf\x71\x7f\xdd\x30\x04\x40\xf6\xd7\xea\x43\x92\x4f\x51\x0a\x93\x73\x00\xcb\x11", s: b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xc7\x63\x4d\x81\xf4\x37\x2d\xdf\x58\x1a\x0d\xb2\x48\xb0\xa7\x7a\xec\xec\x19\x6a\xcc\xc5\x29\x72", ok: false, what: "s=ffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52972" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xc7\x63\x4d\x81\xf4\x37\x2d\xdf\x58\x1a\x0d\xb2\x48\xb0\xa7\x7a\xec\xec\x19\x6a\xcc\xc5\x29\x72", s: b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xc7\x63\x4d\x81\xf4\x37\x2d\xdf\x58\x1a\x0d\xb2\x48\xb0\xa7\x7a\xec\xec\x19\x6a\xcc\xc5\x29\x72", ok: false, what: "r=s=ffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52972" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xc7\x63\x4d\x81\xf4\x37\x2d\xdf\x58\x1a\x0d\xb2\x48\xb0\xa7\x7a\xec\xec\x19\x6a\xcc\xc5\x29\x73", s: b"\x89\x40\x00\xfd\x16\xee\x46\x5c\xe0\x68\x1e\xc8\xa4\xc8\xad\xa6\xd3\x60\x69\xb3\xdb\x8f\x8b\x3b\x74\x90\x9c\x15\x18\xbc\x18\xce\x5c\x5c\x11\x6e\x0a\xca\x5d\x0f\x83\x45\xf3\xfd\x3b\x23\x73\xb0", ok: false, what: "r=ffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52973" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\x0f\x26\x27\x32\x6d\xe8\xa3\x3e\x17\x86\xc4\xd5\x22\xaa\xe6\x1a\x59\x95\x64\x27\x17\x9d\x47\xa6\x62\x70\x9b\xca\xaf\x71\x7f\xdd\x30\x04\x40\xf6\xd7\xea\x43\x92\x4f\x51\x0a\x93\x73\x00\xcb\x11", s: b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xc7\x63\x4d\x81\xf4\x37\x2d\xdf\x58\x1a\x0d\xb2\x48\xb0\xa7\x7a\xec\xec\x19\x6a\xcc\xc5\x29\x73", ok: false, what: "s=ffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52973" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xc7\x63\x4d\x81\xf4\x37\x2d\xdf\x58\x1a\x0d\xb2\x48\xb0\xa7\x7a\xec\xec\x19\x6a\xcc\xc5\x29\x73", s: b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xc7\x63\x4d\x81\xf4\x37\x2d\xdf\x58\x1a\x0d\xb2\x48\xb0\xa7\x7a\xec\xec\x19\x6a\xcc\xc5\x29\x73", ok: false, what: "r=s=ffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52973" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xc7\x63\x4d\x81\xf4\x37\x2d\xdf\x58\x1a\x0d\xb2\x48\xb0\xa7\x7a\xec\xec\x19\x6a\xcc\xc5\x29\x74", s: b"\x89\x40\x00\xfd\x16\xee\x46\x5c\xe0\x68\x1e\xc8\xa4\xc8\xad\xa6\xd3\x60\x69\xb3\xdb\x8f\x8b\x3b\x74\x90\x9c\x15\x18\xbc\x18\xce\x5c\x5c\x11\x6e\x0a\xca\x5d\x0f\x83\x45\xf3\xfd\x3b\x23\x73\xb0", ok: false, what: "r=ffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52974" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\x0f\x26\x27\x32\x6d\xe8\xa3\x3e\x17\x86\xc4\xd5\x22\xaa\xe6\x1a\x59\x95\x64\x27\x17\x9d\x47\xa6\x62\x70\x9b\xca\xaf\x71\x7f\xdd\x30\x04\x40\xf6\xd7\xea\x43\x92\x4f\x51\x0a\x93\x73\x00\xcb\x11", s: b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xc7\x63\x4d\x81\xf4\x37\x2d\xdf\x58\x1a\x0d\xb2\x48\xb0\xa7\x7a\xec\xec\x19\x6a\xcc\xc5\x29\x74", ok: false, what: "s=ffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52974" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xc7\x63\x4d\x81\xf4\x37\x2d\xdf\x58\x1a\x0d\xb2\x48\xb0\xa7\x7a\xec\xec\x19\x6a\xcc\xc5\x29\x74", s: b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xc7\x63\x4d\x81\xf4\x37\x2d\xdf\x58\x1a\x0d\xb2\x48\xb0\xa7\x7a\xec\xec\x19\x6a\xcc\xc5\x29\x74", ok: false, what: "r=s=ffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52974" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff", s: b"\x89\x40\x00\xfd\x16\xee\x46\x5c\xe0\x68\x1e\xc8\xa4\xc8\xad\xa6\xd3\x60\x69\xb3\xdb\x8f\x8b\x3b\x74\x90\x9c\x15\x18\xbc\x18\xce\x5c\x5c\x11\x6e\x0a\xca\x5d\x0f\x83\x45\xf3\xfd\x3b\x23\x73\xb0", ok: false, what: "r=ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\x0f\x26\x27\x32\x6d\xe8\xa3\x3e\x17\x86\xc4\xd5\x22\xaa\xe6\x1a\x59\x95\x64\x27\x17\x9d\x47\xa6\x62\x70\x9b\xca\xaf\x71\x7f\xdd\x30\x04\x40\xf6\xd7\xea\x43\x92\x4f\x51\x0a\x93\x73\x00\xcb\x11", s: b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff", ok: false, what: "s=ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff", s: b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff", ok: false, what: "r=s=ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff" },
  Sig { q: b"\x04\x32\x74\xa3\x0d\x28\x16\x1a\xce\x52\x93\x4a\x0b\xf5\x35\x7f\x12\xbe\x82\x70\x54\xdb\xa5\x44\x08\xe8\xbc\x5a\x29\xf7\xbe\x88\xfe\x54\x70\xe7\x2c\x21\x35\x65\x74\x86\xa1\x86\x90\xfb\xc3\x7d\xdc\x6f\xd3\x04\x02\x5a\xa9\x70\x05\xac\x6c\x61\x6e\x09\x92\x21\x08\xde\x1e\xf3\xb8\x35\x98\x10\xd9\x97\xd9\x85\x55\xb6\x41\xad\x8f\xd7\xdc\xd7\xfa\xf2\xd0\x43\x4e\x8c\x66\xd4\xfa\xf1\x9c\x0a\xbc", r: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x0a", s: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01\x23\x45\x67", ok: true, what: "small r" },
  Sig { q: b"\x04\x32\x74\xa3\x0d\x28\x16\x1a\xce\x52\x93\x4a\x0b\xf5\x35\x7f\x12\xbe\x82\x70\x54\xdb\xa5\x44\x08\xe8\xbc\x5a\x29\xf7\xbe\x88\xfe\x54\x70\xe7\x2c\x21\x35\x65\x74\x86\xa1\x86\x90\xfb\xc3\x7d\xdc\x6f\xd3\x04\x02\x5a\xa9\x70\x05\xac\x6c\x61\x6e\x09\x92\x21\x08\xde\x1e\xf3\xb8\x35\x98\x10\xd9\x97\xd9\x85\x55\xb6\x41\xad\x8f\xd7\xdc\xd7\xfa\xf2\xd0\x43\x4e\x8c\x66\xd4\xfa\xf1\x9c\x0a\xbc", r: b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xc7\x63\x4d\x81\xf4\x37\x2d\xdf\x58\x1a\x0d\xb2\x48\xb0\xa7\x7a\xec\xec\x19\x6a\xcc\xc5\x29\x7d", s: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01\x23\x45\x67", ok: false, what: "small r plus n" },
  Sig { q: b"\x04\x32\x74\xa3\x0d\x28\x16\x1a\xce\x52\x93\x4a\x0b\xf5\x35\x7f\x12\xbe\x82\x70\x54\xdb\xa5\x44\x08\xe8\xbc\x5a\x29\xf7\xbe\x88\xfe\x54\x70\xe7\x2c\x21\x35\x65\x74\x86\xa1\x86\x90\xfb\xc3\x7d\xdc\x6f\xd3\x04\x02\x5a\xa9\x70\x05\xac\x6c\x61\x6e\x09\x92\x21\x08\xde\x1e\xf3\xb8\x35\x98\x10\xd9\x97\xd9\x85\x55\xb6\x41\xad\x8f\xd7\xdc\xd7\xfa\xf2\xd0\x43\x4e\x8c\x66\xd4\xfa\xf1\x9c\x0a\xbc", r: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x0a", s: b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xc7\x63\x4d\x81\xf4\x37\x2d\xdf\x58\x1a\x0d\xb2\x48\xb0\xa7\x7a\xec\xec\x19\x6a\xcd\xe8\x6e\xda", ok: false, what: "small s plus n" },
  Sig { q: b"\x04\x2b\xf7\x59\x4f\x06\x60\x6b\x6d\x45\xdc\xd0\xba\x81\xbb\x5c\x3f\x0b\x5f\xd4\x75\x45\x88\xab\x03\xa1\x44\x67\x76\x38\x39\x0a\xc4\x40\x3a\x6b\x63\xfc\xa4\x9d\x82\xbe\x41\x8a\xc5\xe4\x90\xf7\x2f\xd0\x75\xb4\x34\x3b\x12\x9a\x00\x7d\x46\x84\x50\xe1\x86\x67\x08\x9b\x92\x85\xd4\x7a\xbd\x2c\x28\xd9\xb8\xdf\xda\xd7\x47\xb7\xed\x51\x36\x2e\xdf\xb4\xe0\x87\xc1\xbe\xd8\x24\xdb\x2f\xca\x77\xa7", r: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x02", s: b"\x89\x40\x00\xfd\x16\xee\x46\x5c\xe0\x68\x1e\xc8\xa4\xc8\xad\xa6\xd3\x60\x69\xb3\xdb\x8f\x8b\x3b\x74\x90\x9c\x15\x18\xbc\x18\xce\x5c\x5c\x11\x6e\x0a\xca\x5d\x0f\x83\x45\xf3\xfd\x3b\x23\x73\xb0", ok: true, what: "x(R) above n" },
  Sig { q: b"\x04\x2b\xf7\x59\x4f\x06\x60\x6b\x6d\x45\xdc\xd0\xba\x81\xbb\x5c\x3f\x0b\x5f\xd4\x75\x45\x88\xab\x03\xa1\x44\x67\x76\x38\x39\x0a\xc4\x40\x3a\x6b\x63\xfc\xa4\x9d\x82\xbe\x41\x8a\xc5\xe4\x90\xf7\x2f\xd0\x75\xb4\x34\x3b\x12\x9a\x00\x7d\x46\x84\x50\xe1\x86\x67\x08\x9b\x92\x85\xd4\x7a\xbd\x2c\x28\xd9\xb8\xdf\xda\xd7\x47\xb7\xed\x51\x36\x2e\xdf\xb4\xe0\x87\xc1\xbe\xd8\x24\xdb\x2f\xca\x77\xa7", r: b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xc7\x63\x4d\x81\xf4\x37\x2d\xdf\x58\x1a\x0d\xb2\x48\xb0\xa7\x7a\xec\xec\x19\x6a\xcc\xc5\x29\x75", s: b"\x89\x40\x00\xfd\x16\xee\x46\x5c\xe0\x68\x1e\xc8\xa4\xc8\xad\xa6\xd3\x60\x69\xb3\xdb\x8f\x8b\x3b\x74\x90\x9c\x15\x18\xbc\x18\xce\x5c\x5c\x11\x6e\x0a\xca\x5d\x0f\x83\x45\xf3\xfd\x3b\x23\x73\xb0", ok: false, what: "x(R) itself as r" },
  Sig { q: b"\x04\x11\x94\x19\xb0\xed\x04\x7e\x66\x8c\xa7\xc7\x08\xd0\x36\xf1\x2f\x2e\xde\xd3\x9f\x8b\xbb\xbf\x97\x1e\x3e\x7c\x29\x3f\xf3\xb6\x91\x4a\x61\xc4\xea\xe8\x4a\x34\x6f\xaa\xb2\x27\x11\xb9\xf1\x75\xbb\x61\x9f\xcd\xd0\xa8\x27\x59\xe1\xc0\x81\xd6\x1e\x9e\x45\x30\xb3\x87\xee\xac\x53\x2b\x23\xed\xa7\x60\xa8\x74\x80\xa9\x22\xe4\x42\xa9\x59\x24\xfe\xf7\x1d\xb0\xf2\xe4\x6f\x68\xf4\x3a\x18\x9f\x6d", r: b"\x0f\x26\x27\x32\x6d\xe8\xa3\x3e\x17\x86\xc4\xd5\x22\xaa\xe6\x1a\x59\x95\x64\x27\x17\x9d\x47\xa6\x62\x70\x9b\xca\xaf\x71\x7f\xdd\x30\x04\x40\xf6\xd7\xea\x43\x92\x4f\x51\x0a\x93\x73\x00\xcb\x11", s: b"\x89\x40\x00\xfd\x16\xee\x46\x5c\xe0\x68\x1e\xc8\xa4\xc8\xad\xa6\xd3\x60\x69\xb3\xdb\x8f\x8b\x3b\x74\x90\x9c\x15\x18\xbc\x18\xce\x5c\x5c\x11\x6e\x0a\xca\x5d\x0f\x83\x45\xf3\xfd\x3b\x23\x73\xb0", ok: false, what: "R at infinity" },
  Sig { q: b"\x04\xaa\x87\xca\x22\xbe\x8b\x05\x37\x8e\xb1\xc7\x1e\xf3\x20\xad\x74\x6e\x1d\x3b\x62\x8b\xa7\x9b\x98\x59\xf7\x41\xe0\x82\x54\x2a\x38\x55\x02\xf2\x5d\xbf\x55\x29\x6c\x3a\x54\x5e\x38\x72\x76\x0a\xb7\xc9\xe8\x21\xb5\x69\xd9\xd3\x90\xa2\x61\x67\x40\x6d\x6d\x23\xd6\x07\x0b\xe2\x42\xd7\x65\xeb\x83\x16\x25\xce\xec\x4a\x0f\x47\x3e\xf5\x9f\x4e\x30\xe2\x81\x7e\x62\x85\xbc\xe2\x84\x6f\x15\xf1\xa0", r: b"\x06\xc6\xbb\xda\xcf\x33\x60\x6c\x1e\x06\xd4\x90\x9b\x01\xd9\x98\xb8\x18\x47\x9c\xc5\x19\x29\x13\x69\xb7\xed\x27\x4d\x0e\x2e\xff\x2e\xad\xdf\x13\xb6\xb5\x00\x33\xc6\x2c\xdb\x41\xc4\x91\x92\x8a", s: b"\x89\x40\x00\xfd\x16\xee\x46\x5c\xe0\x68\x1e\xc8\xa4\xc8\xad\xa6\xd3\x60\x69\xb3\xdb\x8f\x8b\x3b\x74\x90\x9c\x15\x18\xbc\x18\xce\x5c\x5c\x11\x6e\x0a\xca\x5d\x0f\x83\x45\xf3\xfd\x3b\x23\x73\xb0", ok: false, what: "R at infinity" },
  Sig { q: b"\x04\x50\x3e\x4b\xc6\x9b\xa4\x26\x92\x4c\x02\x48\x14\xb1\x12\x37\x92\x65\x06\x57\xed\x2d\x32\x7e\xcb\x32\x74\x37\x00\x85\x7d\x64\x66\x15\x29\x0e\xe4\x51\xfd\x89\x28\xe1\x52\x97\x02\xf2\xd1\x9d\xa4\x9f\xee\x53\x2c\xbd\xb4\xa9\xb5\x4d\x1e\x0a\x32\x0a\x5b\xe2\x5d\x11\x78\x0c\xa1\x0d\x9d\x95\xdd\xf4\x37\xed\xf5\x3b\xea\x2b\x45\x70\xec\x90\x19\xc2\xf8\xa2\x9b\xce\x22\xbc\x25\x60\x33\x2f\xac", r: b"\xe8\xc8\xf9\x4d\x44\xfb\xc2\x39\x6b\xbe\xac\x48\x1b\x89\xd2\xb0\x87\x7b\x1d\xff\xd2\x3e\x7d\xc9\x5d\xe5\x41\xeb\x65\x1c\xca\x2c\x41\xab\xa2\x4d\xbc\x02\xde\x66\x37\x20\x9a\xcc\xf0\xf5\x9e\xa0", s: b"\xb7\xd3\x3f\x68\x66\xbe\x32\x58\x96\x93\x42\xf0\x16\x24\xd5\xf1\x3e\xde\xe5\xa8\xae\x71\x4f\x02\x9d\x85\xc6\xf4\xb9\x72\x95\x31\xb3\x50\x05\x14\x72\x98\x09\xf1\x7c\x65\xe8\x55\xae\x58\x7b\xaf", ok: true, what: "doubling" },
  Sig { q: b"\x04\xaa\x87\xca\x22\xbe\x8b\x05\x37\x8e\xb1\xc7\x1e\xf3\x20\xad\x74\x6e\x1d\x3b\x62\x8b\xa7\x9b\x98\x59\xf7\x41\xe0\x82\x54\x2a\x38\x55\x02\xf2\x5d\xbf\x55\x29\x6c\x3a\x54\x5e\x38\x72\x76\x0a\xb7\x36\x17\xde\x4a\x96\x26\x2c\x6f\x5d\x9e\x98\xbf\x92\x92\xdc\x29\xf8\xf4\x1d\xbd\x28\x9a\x14\x7c\xe9\xda\x31\x13\xb5\xf0\xb8\xc0\x0a\x60\xb1\xce\x1d\x7e\x81\x9d\x7a\x43\x1d\x7c\x90\xea\x0e\x5f", r: b"\x0f\x26\x27\x32\x6d\xe8\xa3\x3e\x17\x86\xc4\xd5\x22\xaa\xe6\x1a\x59\x95\x64\x27\x17\x9d\x47\xa6\x62\x70\x9b\xca\xaf\x71\x7f\xdd\x30\x04\x40\xf6\xd7\xea\x43\x92\x4f\x51\x0a\x93\x73\x00\xcb\x11", s: b"\xec\x1a\xfa\xfb\x75\x03\x52\xfb\x04\x7e\x44\x8e\x2d\x2f\x2b\xb0\x92\xc0\x08\xc4\xfa\x8f\x1c\x67\x3c\x72\x27\xe2\x4e\x4b\xcb\x6f\x86\x3b\x93\x07\xe4\xb8\x6b\xf0\x06\xbc\xee\x8f\xda\x6e\xfa\xf6", ok: true, what: "key G" },
  Sig { q: b"\x04\x08\xd9\x99\x05\x7b\xa3\xd2\xd9\x69\x26\x00\x45\xc5\x5b\x97\xf0\x89\x02\x59\x59\xa6\xf4\x34\xd6\x51\xd2\x07\xd1\x9f\xb9\x6e\x9e\x4f\xe0\xe8\x6e\xbe\x0e\x64\xf8\x5b\x96\xa9\xc7\x52\x95\xdf\x61\x8e\x80\xf1\xfa\x5b\x1b\x3c\xed\xb7\xbf\xe8\xdf\xfd\x6d\xba\x74\xb2\x75\xd8\x75\xbc\x6c\xc4\x3e\x90\x4e\x50\x5f\x25\x6a\xb4\x25\x5f\xfd\x43\xe9\x4d\x39\xe2\x2d\x61\x50\x1e\x70\x0a\x94\x0e\x80", r: b"\x0f\x26\x27\x32\x6d\xe8\xa3\x3e\x17\x86\xc4\xd5\x22\xaa\xe6\x1a\x59\x95\x64\x27\x17\x9d\x47\xa6\x62\x70\x9b\xca\xaf\x71\x7f\xdd\x30\x04\x40\xf6\xd7\xea\x43\x92\x4f\x51\x0a\x93\x73\x00\xcb\x11", s: b"\x72\x3f\x75\xab\x37\xac\xf1\x7d\x29\x0c\x53\xd5\x27\xdf\x84\xf7\x8d\x9c\x9b\x81\x68\x23\xc2\x98\xb3\x69\x00\x9b\xe6\xc4\x2e\xb0\x76\xa7\xed\x55\x5f\x63\xe0\x85\x66\xe2\x09\xc4\x68\x5a\xac\x38", ok: true, what: "key 2G" },
  Sig { q: b"\x04\xaa\x87\xca\x22\xbe\x8b\x05\x37\x8e\xb1\xc7\x1e\xf3\x20\xad\x74\x6e\x1d\x3b\x62\x8b\xa7\x9b\x98\x59\xf7\x41\xe0\x82\x54\x2a\x38\x55\x02\xf2\x5d\xbf\x55\x29\x6c\x3a\x54\x5e\x38\x72\x76\x0a\xb7\xc9\xe8\x21\xb5\x69\xd9\xd3\x90\xa2\x61\x67\x40\x6d\x6d\x23\xd6\x07\x0b\xe2\x42\xd7\x65\xeb\x83\x16\x25\xce\xec\x4a\x0f\x47\x3e\xf5\x9f\x4e\x30\xe2\x81\x7e\x62\x85\xbc\xe2\x84\x6f\x15\xf1\xa0", r: b"\x0f\x26\x27\x32\x6d\xe8\xa3\x3e\x17\x86\xc4\xd5\x22\xaa\xe6\x1a\x59\x95\x64\x27\x17\x9d\x47\xa6\x62\x70\x9b\xca\xaf\x71\x7f\xdd\x30\x04\x40\xf6\xd7\xea\x43\x92\x4f\x51\x0a\x93\x73\x00\xcb\x11", s: b"\xdf\xd2\x05\x9b\xef\xb0\x15\xf6\xbb\x62\x26\x00\x37\xce\x79\x22\x9d\x06\xe3\x4c\x1f\x65\xd0\x04\x87\x21\x28\xed\x29\x23\xd7\x0e\x4d\x48\xd0\xba\xa6\xb0\xdb\x4a\x59\x86\x9e\xbb\xf1\xd2\x6e\xff", ok: true, what: "key -G" },
  Sig { q: b"\x04\xd3\x6f\xed\x39\xca\x71\x06\x3a\x51\x63\xe8\x11\x9a\x37\xaf\xf1\x0f\x6b\x86\xd5\x0f\x02\xf1\xd3\x24\x23\x8d\x2b\x09\x0d\x80\x67\x08\x49\x55\x05\x66\x39\x6f\xf5\x77\x87\x38\xc0\xb3\x9b\x10\x7a\xb9\x3c\x19\xd4\x7a\x47\xd0\xf2\x20\x53\x47\x0a\xcd\xef\xe4\xb4\x7d\x1f\x82\x4e\x37\x02\x3c\x92\xe0\xa8\xd7\xbc\xbe\x97\xbf\x52\x23\x0d\x43\xe2\x42\xac\xd9\x98\x7e\x03\x04\x57\x8c\x65\x51\xae", r: b"\x0f\x26\x27\x32\x6d\xe8\xa3\x3e\x17\x86\xc4\xd5\x22\xaa\xe6\x1a\x59\x95\x64\x27\x17\x9d\x47\xa6\x62\x70\x9b\xca\xaf\x71\x7f\xdd\x30\x04\x40\xf6\xd7\xea\x43\x92\x4f\x51\x0a\x93\x73\x00\xcb\x11", s: b"\x29\x08\xbd\xa3\x93\xae\x83\xb9\xf2\x37\x3c\xea\xaf\xd6\xff\x0d\x15\x51\xbf\x66\xc3\xc4\xc9\x4e\xb9\x93\x6e\x03\x8d\xd8\x6b\xef\xb5\xeb\x58\x2e\xde\xb2\x0a\x2a\x69\xbe\x47\x8a\xc6\xb3\xf8\xe2", ok: true, what: "key G/2" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\xaa\x87\xca\x22\xbe\x8b\x05\x37\x8e\xb1\xc7\x1e\xf3\x20\xad\x74\x6e\x1d\x3b\x62\x8b\xa7\x9b\x98\x59\xf7\x41\xe0\x82\x54\x2a\x38\x55\x02\xf2\x5d\xbf\x55\x29\x6c\x3a\x54\x5e\x38\x72\x76\x0a\xb7", s: b"\x9e\x64\xa8\x7c\xea\xd3\x46\x6a\x47\x96\xdc\x71\xc7\x4f\xa7\xb8\xd0\x6d\x86\x5d\xd5\xdf\x09\xee\x6c\xac\xb2\xc3\xf3\x25\xf7\xd7\x82\x6f\xd7\xd9\xc3\x66\x04\x35\x0b\xb4\xa5\x59\xe9\x98\xe1\x75", ok: true, what: "nonce 1" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\x08\xd9\x99\x05\x7b\xa3\xd2\xd9\x69\x26\x00\x45\xc5\x5b\x97\xf0\x89\x02\x59\x59\xa6\xf4\x34\xd6\x51\xd2\x07\xd1\x9f\xb9\x6e\x9e\x4f\xe0\xe8\x6e\xbe\x0e\x64\xf8\x5b\x96\xa9\xc7\x52\x95\xdf\x61", s: b"\x23\x97\xa4\x6e\x73\xfe\xb8\x5a\x36\xba\xac\x30\xd5\xc2\xfd\x9b\x92\x59\x6d\x84\x76\x8c\xb4\x44\x6a\xec\x51\x59\x0f\xee\xdc\xd6\x31\x91\xe3\x47\xdf\xef\x96\xdc\xf4\x78\xe5\x41\x0c\x00\x65\xf6", ok: true, what: "nonce 2" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\x07\x7a\x41\xd4\x60\x6f\xfa\x14\x64\x79\x3c\x7e\x5f\xdc\x7d\x98\xcb\x9d\x39\x10\x20\x2d\xcd\x06\xbe\xa4\xf2\x40\xd3\x56\x6d\xa6\xb4\x08\xbb\xae\x50\x26\x58\x0d\x02\xd7\xe5\xc7\x05\x00\xc8\x31", s: b"\xe9\xc5\x99\xae\x34\x59\xb8\xe4\x2a\xa8\xa6\x69\x60\x99\x9a\x86\x25\x5c\x69\xc7\x7b\xdc\x40\x20\x4d\x7a\x46\x39\x19\xdd\xbb\xd9\xe3\x02\xbb\x65\x5e\xd7\x6f\xbf\x72\xc7\x18\x90\x6d\xf5\x27\xb2", ok: true, what: "nonce 3" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\xaa\x87\xca\x22\xbe\x8b\x05\x37\x8e\xb1\xc7\x1e\xf3\x20\xad\x74\x6e\x1d\x3b\x62\x8b\xa7\x9b\x98\x59\xf7\x41\xe0\x82\x54\x2a\x38\x55\x02\xf2\x5d\xbf\x55\x29\x6c\x3a\x54\x5e\x38\x72\x76\x0a\xb7", s: b"\x61\x9b\x57\x83\x15\x2c\xb9\x95\xb8\x69\x23\x8e\x38\xb0\x58\x47\x2f\x92\x79\xa2\x2a\x20\xf6\x11\x5a\xb6\x9a\xbe\x01\x11\x36\x07\xd5\xaa\x35\xd8\x85\x4a\xa3\x45\xe1\x37\x74\x10\xe3\x2c\x47\xfe", ok: true, what: "nonce ffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52972" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\x08\xd9\x99\x05\x7b\xa3\xd2\xd9\x69\x26\x00\x45\xc5\x5b\x97\xf0\x89\x02\x59\x59\xa6\xf4\x34\xd6\x51\xd2\x07\xd1\x9f\xb9\x6e\x9e\x4f\xe0\xe8\x6e\xbe\x0e\x64\xf8\x5b\x96\xa9\xc7\x52\x95\xdf\x61", s: b"\xdc\x68\x5b\x91\x8c\x01\x47\xa5\xc9\x45\x53\xcf\x2a\x3d\x02\x64\x6d\xa6\x92\x7b\x89\x73\x4b\xbb\x5c\x76\xfc\x28\xe4\x48\x51\x09\x26\x88\x2a\x6a\x68\xc1\x10\x9d\xf8\x73\x34\x29\xc0\xc4\xc3\x7d", ok: true, what: "nonce ffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52971" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\xd3\x6f\xed\x39\xca\x71\x06\x3a\x51\x63\xe8\x11\x9a\x37\xaf\xf1\x0f\x6b\x86\xd5\x0f\x02\xf1\xd3\x24\x23\x8d\x2b\x09\x0d\x80\x67\x08\x49\x55\x05\x66\x39\x6f\xf5\x77\x87\x38\xc0\xb3\x9b\x10\x7a", s: b"\x65\x3b\xca\x20\xf9\x4e\x0e\x00\x35\x3f\x69\x9b\x8e\xd5\x49\x36\x4c\x5a\xa3\x88\xd4\x97\x3d\xf3\xb5\x95\x4b\x71\xf8\x81\x7c\xe5\xc3\xeb\xaf\xf5\x86\x7f\x04\x09\xe2\xd6\xe3\x69\x2e\x34\x7f\x76", ok: true, what: "nonce 7fffffffffffffffffffffffffffffffffffffffffffffffe3b1a6c0fa1b96efac0d06d9245853bd76760cb5666294ba" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\xd5\xd8\x9c\x3b\x52\x82\x36\x9c\x5f\xbd\x88\xe2\xb2\x31\x51\x1a\x6b\x80\xdf\xf0\xe5\x15\x2c\xf6\xa4\x64\xfa\x94\x28\xa8\x58\x3b\xac\x8e\xbc\x77\x3d\x15\x78\x11\xa4\x62\xb8\x92\x40\x1d\xaf\xcf", s: b"\x1d\x7d\x32\xda\x0f\xdc\x59\x11\x50\x3f\x38\x6a\x46\x27\x12\xc6\x3d\xa4\x68\xba\x5a\x39\x4b\x6b\x9a\xca\x3c\x97\x6f\x4d\xf0\x12\xff\x2e\xae\xfa\x05\xa2\x32\xb1\x3e\xf0\x52\x0e\x68\x84\x40\xdb", ok: true, what: "nonce 10" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\xf2\xe6\xf0\x6f\x0e\xa5\x33\xe8\x04\xfc\xfa\x12\xc0\x87\xd4\x46\xc7\x3e\x33\x36\x39\x4c\x98\xc5\x9d\x39\x93\x12\x4d\x37\x4e\x62\x06\x1f\xa4\x85\xbd\x1b\x8a\x65\x0c\x83\x61\xdb\xa9\xeb\x28\xb9", s: b"\xa5\xa2\x9f\x32\xf7\x32\x4f\x96\x6c\x8e\x6f\x09\xfe\x67\xee\xe4\xac\x7a\x11\x3c\xed\x09\xa4\x61\x92\xd2\x79\xf6\x7b\x7b\xa1\x77\xe8\xd7\xcb\xfa\xbb\x79\x05\xf4\xb6\x0e\xf6\x6d\x5b\x8d\x0b\x9e", ok: true, what: "nonce 1f" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\x7f\x73\x56\xc5\xe0\xfb\xc6\x67\x8b\xab\x99\xdf\x1f\xd9\xb2\xb4\x9f\x81\x61\x8d\x6d\x99\xaf\x63\x61\x2c\xcf\x2c\xc4\xac\xaf\x5c\x44\x81\x9b\x88\xe2\x17\xec\xd3\xcc\xe8\x2f\xe5\x5f\xf8\x6e\xd6", s: b"\x3f\x68\x63\x93\x6d\x24\x51\x62\xfd\x02\x4f\x94\x69\xe7\x81\xc8\xe4\xfc\x39\x8a\x25\xf7\xec\x96\xbd\x14\xeb\xc3\x7a\x5f\x95\x2b\xc8\x61\x46\xa8\xb1\x3d\xd8\x47\x52\x35\xf7\xf8\x84\xcc\x8c\x48", ok: true, what: "nonce 20" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\xc1\xe1\x79\xaa\x17\x8a\x78\x00\x46\xe3\x58\x41\x76\x60\x73\x61\x2e\xa5\xe5\xab\xd2\x66\x08\xf2\x59\xa5\x99\xfc\x9a\x84\x25\xa3\xea\x63\x9d\x94\xcb\xe6\x3f\xde\x1d\x69\xc7\x0f\x93\x27\x60\x5f", s: b"\x04\xbc\x25\x11\x74\x81\x0c\x7a\x3d\x9f\xa3\x4a\xbe\x1f\xcb\x43\x87\x84\x75\x0a\x09\x5c\x61\xee\xc3\xe4\x2a\xb9\xf7\xee\x21\x1c\x05\xe8\xfe\x5d\x9d\x49\x45\x29\x65\xf3\xaf\x42\x8b\x61\x54\x7d", ok: true, what: "nonce 40" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\x35\x49\x60\x41\xea\x25\x3b\x0d\x15\x3c\x9b\xfb\xc1\x8a\x9e\x41\xaf\x34\x8a\xfd\x8b\x1c\x33\xa5\xca\x5d\x7f\xbb\xfa\x2d\x5d\x9d\x43\x6e\xd1\x01\x1b\x3d\x9d\x93\xe4\xb4\x5d\x2a\x4b\x23\x27\xf1", s: b"\x60\x59\x99\xf3\x69\x79\x3f\x15\xed\x8a\x19\xf5\x0b\x9e\x1e\x91\xd0\x59\xd3\x2d\x9c\xc9\x40\x08\x1a\xb9\x14\x65\xcd\x2e\xcf\x68\xa4\x1a\xf6\x32\xde\x64\x4b\xbe\x54\x4d\x9e\xe3\xb9\x28\x45\x14", ok: true, what: "nonce 7f" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\x79\xda\x1e\x5e\x28\x97\x75\x52\xa2\x68\x82\x91\x6c\xf3\xce\x49\xe8\x2f\xa5\x6f\x53\xe2\xd9\xd9\x79\xdf\x1c\x97\x78\xd6\xd1\x60\x6c\x15\x7d\x3b\xb6\x86\x65\x08\x9b\xdd\x08\xca\xec\xd5\xd0\x92", s: b"\x74\x02\x16\x4f\x78\xa5\xd5\x57\xaa\x1c\x62\x09\x20\x10\x3e\x11\x9c\xfb\xc5\x03\x02\x12\xa7\x5a\x08\xbb\xa6\x98\x68\xb4\x51\xec\x91\x39\x95\xd9\x6c\xaf\x15\xde\xb7\x50\x35\x03\xe7\x07\xdd\xcc", ok: true, what: "nonce 80" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\x3d\xc5\x6a\x32\x12\x7f\x8c\x4f\xf9\xbc\x78\x6c\x01\xf2\x31\x8d\x49\xba\xf2\x96\x0d\xf0\xfa\xfe\x9e\xf8\x15\x28\x39\x33\xf3\xe9\x6b\x25\x8c\xa2\x37\x1d\xa8\x33\x79\x4a\x45\x9a\x6c\x91\xad\x26", s: b"\xeb\x1d\x67\x03\xf4\xcb\x77\x5e\xb1\x45\x6e\x6d\x31\x7c\x85\x04\x47\xf7\xf5\x75\x19\xe3\x93\x60\x93\x54\x1a\x60\x65\x43\x7c\x4e\x26\x27\xd8\x05\xc5\x4f\xa4\x71\x02\x77\x2d\x36\xd7\x3f\x62\xb0", ok: true, what: "nonce 100000000000000000000000000000000000000000000000000" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\x5c\x8e\x77\x2a\xb0\x0e\xee\xaf\x93\xbc\x62\xe1\x33\xdf\xe9\xc3\x1b\xdb\xc2\xba\xf5\x73\xc5\xb1\x3f\xce\xf5\x31\x62\x89\x8a\x2a\xdb\x30\x73\x17\xf1\x7e\xac\x0f\x87\xd4\x71\xa4\xb8\x81\x99\x32", s: b"\x16\x8e\x18\x68\x22\x09\xa1\x35\xb0\xd0\xc6\x73\x79\x1e\xbb\x5b\x57\x7f\x32\x2c\xf4\x79\x9a\x74\x36\xcc\x4f\xa3\x49\xd9\x1f\xdc\xa7\x2b\x58\xc9\x72\x92\x02\x94\x77\xac\x85\x55\xf6\x7d\xb8\xc7", ok: true, what: "nonce ffffffffffffffffffffffffffffffffffffffffffffffffff" },
  Sig { q: b"\x04\xca\x1c\x16\x2e\x16\xef\xfa\x2f\x2a\x6a\x6c\x98\x6a\x45\x32\x72\x14\x3e\x14\xcb\xb7\x40\x6c\x72\x66\xdc\x05\x90\xa2\xc7\xab\x14\x02\xb4\x5d\x53\x4a\xbb\x4d\x3d\x95\xdc\xec\xf3\xf1\xce\x59\x61\x3e\x47\xa9\xbc\x5b\xa1\x28\x20\x6f\x91\x6e\x0b\x9a\x85\x27\x0d\xb4\x98\x60\x13\x09\x94\x84\xb1\x60\x19\x76\x11\x6b\xba\x26\x53\x7e\x53\x12\x03\xec\xb9\x10\xd9\x4d\xeb\x50\xf5\x6e\x13\xff\xaa", r: b"\x06\xc6\xbb\xda\xcf\x33\x60\x6c\x1e\x06\xd4\x90\x9b\x01\xd9\x98\xb8\x18\x47\x9c\xc5\x19\x29\x13\x69\xb7\xed\x27\x4d\x0e\x2e\xff\x2e\xad\xdf\x13\xb6\xb5\x00\x33\xc6\x2c\xdb\x41\xc4\x91\x92\x8a", s: b"\x06\xc6\xbb\xda\xcf\x33\x60\x6c\x1e\x06\xd4\x90\x9b\x01\xd9\x98\xb8\x18\x47\x9c\xc5\x19\x29\x13\x69\xb7\xed\x27\x4d\x0e\x2e\xff\x2e\xad\xdf\x13\xb6\xb5\x00\x33\xc6\x2c\xdb\x41\xc4\x91\x92\x8a", ok: true, what: "u1=1 u2=1" },
  Sig { q: b"\x04\xa0\x32\xee\x29\x8c\x57\xca\x3d\x93\xc1\xdb\x2a\x7c\x31\x7c\x64\x52\xd8\xb9\x11\x1b\x45\x52\x2b\xf0\x79\x82\x8a\x67\x54\xec\x20\x68\x5d\x72\x84\x29\xa9\xae\x54\x57\x2b\x8f\x8e\xbe\x06\x9e\x54\x2c\x58\x70\xe8\xb2\x73\xf1\x97\x3a\xb8\xef\x7b\xb8\x09\xb1\x6a\x8f\xdb\xf2\xce\xcb\x16\x35\xc8\xac\xbd\xe3\x94\x2a\x51\x78\xa4\x42\x94\xee\x10\x1f\x77\x8d\x57\xa9\xe5\xb4\x79\xb9\x9a\xb5\x27", r: b"\x0d\x8d\x77\xb5\x9e\x66\xc0\xd8\x3c\x0d\xa9\x21\x36\x03\xb3\x31\x70\x30\x8f\x39\x8a\x32\x52\x26\xd3\x6f\xda\x4e\x9a\x1c\x5d\xfe\x5d\x5b\xbe\x27\x6d\x6a\x00\x67\x8c\x59\xb6\x83\x89\x23\x25\x14", s: b"\x06\xc6\xbb\xda\xcf\x33\x60\x6c\x1e\x06\xd4\x90\x9b\x01\xd9\x98\xb8\x18\x47\x9c\xc5\x19\x29\x13\x69\xb7\xed\x27\x4d\x0e\x2e\xff\x2e\xad\xdf\x13\xb6\xb5\x00\x33\xc6\x2c\xdb\x41\xc4\x91\x92\x8a", ok: true, what: "u1=1 u2=2" },
  Sig { q: b"\x04\xfa\x76\xc5\x8c\xc4\x08\xd9\xf9\xf7\xea\xe4\x91\x26\xd4\x1a\x7c\x73\x79\x93\xb7\xfb\x61\x4d\xf8\x8c\x6d\x0d\x08\x92\xf5\xce\xb4\x81\xa8\x79\x52\x2e\xb8\x7d\x05\x53\x71\xae\x22\x49\xf2\x52\x4d\xfe\x47\x7f\xb6\xeb\x5f\x04\x31\x4a\x97\x8f\xb6\x69\x6c\x57\x0a\x69\x12\x5b\xbe\x95\x1d\x1d\x4e\x9b\x36\xbc\x3f\x10\x56\xeb\xe2\xcf\xeb\x8d\xb9\xa1\xd4\x42\x7d\xaa\xae\x7c\x32\x92\x29\xf5\xc6", r: b"\xf9\x39\x44\x25\x30\xcc\x9f\x93\xe1\xf9\x2b\x6f\x64\xfe\x26\x67\x47\xe7\xb8\x63\x3a\xe6\xd6\xec\x5d\xab\x60\x5a\xa7\x28\xfe\xe0\x29\x6c\x2e\x9e\x91\xfb\xa7\x47\x26\xbf\x3e\x29\x08\x33\x96\xe9", s: b"\xf9\x39\x44\x25\x30\xcc\x9f\x93\xe1\xf9\x2b\x6f\x64\xfe\x26\x67\x47\xe7\xb8\x63\x3a\xe6\xd6\xec\x5d\xab\x60\x5a\xa7\x28\xfe\xe0\x29\x6c\x2e\x9e\x91\xfb\xa7\x47\x26\xbf\x3e\x29\x08\x33\x96\xe9", ok: true, what: "u1=ffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52972 u2=1" },
  Sig { q: b"\x04\x77\x93\x58\xec\x90\x95\xea\xfe\x19\xd7\x84\xd1\xd5\xba\x4e\x08\xd6\x01\x8d\xe1\x7c\x2f\x03\x4b\x79\x1f\x3a\x11\x3f\xc6\xb0\xe2\xe7\x40\x76\x78\xba\x44\x77\x08\x2b\x1d\xe6\x08\xf5\x2e\xf5\x61\xe4\x0a\x6e\xe5\x48\x3c\xbc\x8f\x38\x17\xfd\x04\xec\x56\x81\xce\x85\xea\x73\xb1\x10\x2a\x95\x45\x7c\x7d\xc3\xb9\xa4\x06\x91\x87\x7e\x31\x55\xf3\xed\x8c\xa4\xe1\x54\xc5\xc5\x1b\x1a\x20\x51\xd6", r: b"\xf9\x39\x44\x25\x30\xcc\x9f\x93\xe1\xf9\x2b\x6f\x64\xfe\x26\x67\x47\xe7\xb8\x63\x3a\xe6\xd6\xec\x5d\xab\x60\x5a\xa7\x28\xfe\xe0\x29\x6c\x2e\x9e\x91\xfb\xa7\x47\x26\xbf\x3e\x29\x08\x33\x96\xe9", s: b"\x06\xc6\xbb\xda\xcf\x33\x60\x6c\x1e\x06\xd4\x90\x9b\x01\xd9\x98\xb8\x18\x47\x9c\xc5\x19\x29\x13\x69\xb7\xed\x27\x4d\x0e\x2e\xff\x2e\xad\xdf\x13\xb6\xb5\x00\x33\xc6\x2c\xdb\x41\xc4\x91\x92\x8a", ok: true, what: "u1=1 u2=ffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52972" },
  Sig { q: b"\x04\xc8\x3b\xb1\x9c\xfd\xcb\x68\x14\xdb\x8b\x1b\x84\x87\xe8\xb8\xf4\xca\x7c\x4e\xbd\x2b\xbd\xbc\xee\x94\xc6\xa1\x16\x04\x56\x0e\x6a\x0a\x74\xe8\xe3\x6d\x84\x9a\x72\xf8\xd1\x49\x7b\xc6\x27\xb5\x11\xa2\xd5\x43\xee\xe2\x18\x2c\x6a\x1f\xd2\x41\xf7\x52\x26\x2c\x75\xc2\x5a\xe8\x0f\x62\x9e\x8d\x45\xec\xbe\x8f\x57\xdf\x58\x19\x65\x13\x4c\xa2\xad\xac\x98\xd5\xf2\xb3\xb3\x14\x0b\x94\xa0\x14\x98", r: b"\x06\xc6\xbb\xda\xcf\x33\x60\x6c\x1e\x06\xd4\x90\x9b\x01\xd9\x98\xb8\x18\x47\x9c\xc5\x19\x29\x13\x69\xb7\xed\x27\x4d\x0e\x2e\xff\x2e\xad\xdf\x13\xb6\xb5\x00\x33\xc6\x2c\xdb\x41\xc4\x91\x92\x8a", s: b"\xf9\x39\x44\x25\x30\xcc\x9f\x93\xe1\xf9\x2b\x6f\x64\xfe\x26\x67\x47\xe7\xb8\x63\x3a\xe6\xd6\xec\x5d\xab\x60\x5a\xa7\x28\xfe\xe0\x29\x6c\x2e\x9e\x91\xfb\xa7\x47\x26\xbf\x3e\x29\x08\x33\x96\xe9", ok: true, what: "u1=ffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52972 u2=ffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52972" },
  Sig { q: b"\x04\x96\x88\xdb\x11\xf4\x3a\x66\xb5\x2f\x72\xb3\x4e\x1c\x1e\xcf\x30\x8c\xaf\x93\x6f\xa2\x8e\x7c\x39\xe6\x31\x9c\x56\x58\x92\x66\xc9\x72\x4d\x22\x21\xbf\x97\x30\xf7\xa6\xf7\x5e\xbf\x5b\xa7\x21\xde\xa1\x2a\x3d\x8e\x11\x50\xb5\x6e\x44\xbb\x6f\x2b\x2e\xe9\xf0\xf0\x60\x60\x09\x53\x24\xf3\x3e\x6b\xab\x24\xa7\xbb\x9c\x9d\x38\x8d\x7b\xd3\x12\x21\x1b\x7d\xc6\xc7\x39\x53\xbb\x41\xf9\x6c\xc0\x47", r: b"\xdb\x81\x31\x13\xf1\xb1\x87\x21\xc5\x9f\x37\xf0\x5f\x0d\x51\x52\x25\x8e\xcb\xa8\xaf\xe8\x51\xcf\x6a\x8c\x65\x2f\x8e\xf6\x29\x6b\x7c\x28\x0c\xf4\x2a\xc4\x57\x59\xda\x4b\xc0\x89\xbf\x70\x40\x4d", s: b"\x1d\xb8\x13\x11\x3f\x1b\x18\x72\x1c\x59\xf3\x7f\x05\xf0\xd5\x15\x22\x58\xec\xba\x8a\xfe\x85\x1c\xf3\x1e\xfb\x2b\x18\x32\xd5\x74\xad\x44\x21\xaa\x67\x37\x4f\xed\x4c\x73\x7d\x9f\x48\xc3\x56\x9c", ok: true, what: "u1=ffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52962 u2=10" },
  Sig { q: b"\x04\x56\xda\x42\xe8\xc1\xd4\x85\xc2\x33\xa0\x51\xca\x91\x2f\x74\x38\xf3\x7b\x69\xfa\x07\x2a\x82\x07\x54\xd3\xb0\x64\x01\xe7\xf0\xe3\xae\xa9\xfb\x26\x97\x0d\xe4\xa9\x17\x4c\x3d\x6c\xa8\x7f\xef\x87\x33\x3b\xf1\x8f\x61\x40\x10\xe9\xa9\x3f\x93\xa2\x2c\x76\xca\x7b\xd5\xb0\xa2\x3d\x9e\x72\x9d\xad\xff\x87\x20\xba\xc3\x92\x90\x03\x9a\x92\xfe\xa2\x33\x1b\x22\x92\xc7\x34\xcb\x66\xa2\x20\x2b\x4e", r: b"\xf9\x39\x44\x25\x30\xcc\x9f\x93\xe1\xf9\x2b\x6f\x64\xfe\x26\x67\x47\xe7\xb8\x63\x3a\xe6\xd6\xec\x5d\xab\x60\x5a\xa7\x28\xfe\xe0\x29\x6c\x2e\x9e\x91\xfb\xa7\x47\x26\xbf\x3e\x29\x08\x33\x96\xe9", s: b"\xc8\x1b\x1a\xef\x6b\x3c\xcd\x81\xb0\x78\x1b\x52\x42\x6c\x07\x66\x62\xe0\x61\x1e\x73\x14\x64\xa4\x21\x6c\x74\x42\x23\xff\x54\x92\x79\x8f\x12\x2f\x97\xa4\xd6\xd8\xd8\x31\x27\x48\x77\x0c\x4e\xac", ok: true, what: "u1=40 u2=ffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52933" },
  Sig { q: b"\x04\xbe\x5d\x38\xaf\x86\x55\x93\x50\x2b\x17\x87\xf3\x81\xa1\x7b\x8b\x3c\x2e\x37\xa4\xaa\x01\x6c\x8d\x6d\x8b\x26\xd9\xb5\x16\xc7\xe9\x49\x01\xd3\x32\x00\x8a\x57\xb0\xa3\xf1\x31\x2b\x55\x26\xfc\x00\x4d\x6d\xb8\x15\x42\x53\x4e\xb0\x08\x7d\xf8\xbb\xa9\x21\xd5\x7d\x47\x02\x4b\x86\x80\x05\x19\xb0\x7e\xf4\x05\xe8\x31\x9e\x48\x28\x73\xf2\x14\x8f\x95\x85\x19\x1d\xc0\x9b\x9b\xa4\x68\x24\x4d\xb2", r: b"\x64\x0d\x8d\x77\xb5\x9e\x66\xc0\xd8\x3c\x0d\xa9\x21\x36\x03\xb3\x31\x70\x30\x8f\x39\x8a\x32\x52\x10\xb6\x3a\x21\x11\xff\xaa\x49\x3c\xc7\x89\x17\xcb\xd2\x6b\x6c\x6c\x18\x93\xa4\x3b\x86\x27\x56", s: b"\x64\x0d\x8d\x77\xb5\x9e\x66\xc0\xd8\x3c\x0d\xa9\x21\x36\x03\xb3\x31\x70\x30\x8f\x39\x8a\x32\x52\x10\xb6\x3a\x21\x11\xff\xaa\x49\x3c\xc7\x89\x17\xcb\xd2\x6b\x6c\x6c\x18\x93\xa4\x3b\x86\x27\x56", ok: true, what: "u1=80 u2=1" },
];
pub static SIG_P384_SHA512: &[Sig] = &[
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\x0f\x26\x27\x32\x6d\xe8\xa3\x3e\x17\x86\xc4\xd5\x22\xaa\xe6\x1a\x59\x95\x64\x27\x17\x9d\x47\xa6\x62\x70\x9b\xca\xaf\x71\x7f\xdd\x30\x04\x40\xf6\xd7\xea\x43\x92\x4f\x51\x0a\x93\x73\x00\xcb\x11", s: b"\xbc\x89\xfe\xa1\x41\xe8\xca\xff\xa2\xe7\xde\x7b\xe7\x57\xbe\xb2\x3c\xb9\xa3\xd7\x58\x51\x81\xb1\xb2\x6f\x68\x43\x82\xc0\x8f\x33\xc6\x47\xf0\x42\xd3\xd0\x0c\x25\xa7\x1e\xe2\x48\x00\xfc\x7e\xdc", ok: true, what: "ordinary" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\x0f\x26\x27\x32\x6d\xe8\xa3\x3e\x17\x86\xc4\xd5\x22\xaa\xe6\x1a\x59\x95\x64\x27\x17\x9d\x47\xa6\x62\x70\x9b\xca\xaf\x71\x7f\xdd\x30\x04\x40\xf6\xd7\xea\x43\x92\x4f\x51\x0a\x93\x73\x00\xcb\x11", s: b"\x43\x76\x01\x5e\xbe\x17\x35\x00\x5d\x18\x21\x84\x18\xa8\x41\x4d\xc3\x46\x5c\x28\xa7\xae\x7e\x4e\x14\xf3\xe5\x3e\x71\x76\x9e\xab\x91\xd2\x1d\x6f\x74\xe0\x9b\x55\x45\xcd\x37\x22\xcb\xc8\xaa\x97", ok: true, what: "negated s" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\xf0\xd9\xd8\xcd\x92\x17\x5c\xc1\xe8\x79\x3b\x2a\xdd\x55\x19\xe5\xa6\x6a\x9b\xd8\xe8\x62\xb8\x59\x64\xf2\xb1\xb7\x44\xc5\xae\x02\x28\x15\xcc\xbb\x70\xc6\x63\xe8\x9d\x9b\x0e\xd7\x59\xc4\x5e\x62", s: b"\xbc\x89\xfe\xa1\x41\xe8\xca\xff\xa2\xe7\xde\x7b\xe7\x57\xbe\xb2\x3c\xb9\xa3\xd7\x58\x51\x81\xb1\xb2\x6f\x68\x43\x82\xc0\x8f\x33\xc6\x47\xf0\x42\xd3\xd0\x0c\x25\xa7\x1e\xe2\x48\x00\xfc\x7e\xdc", ok: false, what: "negated r" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\xbc\x89\xfe\xa1\x41\xe8\xca\xff\xa2\xe7\xde\x7b\xe7\x57\xbe\xb2\x3c\xb9\xa3\xd7\x58\x51\x81\xb1\xb2\x6f\x68\x43\x82\xc0\x8f\x33\xc6\x47\xf0\x42\xd3\xd0\x0c\x25\xa7\x1e\xe2\x48\x00\xfc\x7e\xdc", s: b"\x0f\x26\x27\x32\x6d\xe8\xa3\x3e\x17\x86\xc4\xd5\x22\xaa\xe6\x1a\x59\x95\x64\x27\x17\x9d\x47\xa6\x62\x70\x9b\xca\xaf\x71\x7f\xdd\x30\x04\x40\xf6\xd7\xea\x43\x92\x4f\x51\x0a\x93\x73\x00\xcb\x11", ok: false, what: "swapped" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\xcb\x58\x3f\x3f\x8d\x7c\x81\x6b\xb6\xfc\xa7\x98\x3a\xfd\xc8\x60\xd3\x7d\x7e\x1c\x13\x68\x8b\xf1\x59\x23\x39\x5e\xb5\x81\x9e\x98\xd3\x62\x36\x98\xed\x39\xd1\x86\x1c\x8a\x5b\x96\x64\x61\xdb\x2f", r: b"\x0f\x26\x27\x32\x6d\xe8\xa3\x3e\x17\x86\xc4\xd5\x22\xaa\xe6\x1a\x59\x95\x64\x27\x17\x9d\x47\xa6\x62\x70\x9b\xca\xaf\x71\x7f\xdd\x30\x04\x40\xf6\xd7\xea\x43\x92\x4f\x51\x0a\x93\x73\x00\xcb\x11", s: b"\xbc\x89\xfe\xa1\x41\xe8\xca\xff\xa2\xe7\xde\x7b\xe7\x57\xbe\xb2\x3c\xb9\xa3\xd7\x58\x51\x81\xb1\xb2\x6f\x68\x43\x82\xc0\x8f\x33\xc6\x47\xf0\x42\xd3\xd0\x0c\x25\xa7\x1e\xe2\x48\x00\xfc\x7e\xdc", ok: false, what: "negated key" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", s: b"\xbc\x89\xfe\xa1\x41\xe8\xca\xff\xa2\xe7\xde\x7b\xe7\x57\xbe\xb2\x3c\xb9\xa3\xd7\x58\x51\x81\xb1\xb2\x6f\x68\x43\x82\xc0\x8f\x33\xc6\x47\xf0\x42\xd3\xd0\x0c\x25\xa7\x1e\xe2\x48\x00\xfc\x7e\xdc", ok: false, what: "r=0" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\x0f\x26\x27\x32\x6d\xe8\xa3\x3e\x17\x86\xc4\xd5\x22\xaa\xe6\x1a\x59\x95\x64\x27\x17\x9d\x47\xa6\x62\x70\x9b\xca\xaf\x71\x7f\xdd\x30\x04\x40\xf6\xd7\xea\x43\x92\x4f\x51\x0a\x93\x73\x00\xcb\x11", s: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: false, what: "s=0" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", s: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: false, what: "r=s=0" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01", s: b"\xbc\x89\xfe\xa1\x41\xe8\xca\xff\xa2\xe7\xde\x7b\xe7\x57\xbe\xb2\x3c\xb9\xa3\xd7\x58\x51\x81\xb1\xb2\x6f\x68\x43\x82\xc0\x8f\x33\xc6\x47\xf0\x42\xd3\xd0\x0c\x25\xa7\x1e\xe2\x48\x00\xfc\x7e\xdc", ok: false, what: "r=1" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\x0f\x26\x27\x32\x6d\xe8\xa3\x3e\x17\x86\xc4\xd5\x22\xaa\xe6\x1a\x59\x95\x64\x27\x17\x9d\x47\xa6\x62\x70\x9b\xca\xaf\x71\x7f\xdd\x30\x04\x40\xf6\xd7\xea\x43\x92\x4f\x51\x0a\x93\x73\x00\xcb\x11", s: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01", ok: false, what: "s=1" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01", s: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01", ok: false, what: "r=s=1" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xc7\x63\x4d\x81\xf4\x37\x2d\xdf\x58\x1a\x0d\xb2\x48\xb0\xa7\x7a\xec\xec\x19\x6a\xcc\xc5\x29\x72", s: b"\xbc\x89\xfe\xa1\x41\xe8\xca\xff\xa2\xe7\xde\x7b\xe7\x57\xbe\xb2\x3c\xb9\xa3\xd7\x58\x51\x81\xb1\xb2\x6f\x68\x43\x82\xc0\x8f\x33\xc6\x47\xf0\x42\xd3\xd0\x0c\x25\xa7\x1e\xe2\x48\x00\xfc\x7e\xdc", ok: false, what: "r=ffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52972" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\x0f\x26\x27\x32\x6d\xe8\xa3\x3e\x17\x86\xc4\xd5\x22\xaa\xe6\x1a\x59\x95\x64\x27\x17\x9d\x47\xa6\x62\x70\x9b\xca\xaf\x71\x7f\xdd\x30\x04\x40\xf6\xd7\xea\x43\x92\x4f\x51\x0a\x93\x73\x00\xcb\x11", s: b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xc7\x63\x4d\x81\xf4\x37\x2d\xdf\x58\x1a\x0d\xb2\x48\xb0\xa7\x7a\xec\xec\x19\x6a\xcc\xc5\x29\x72", ok: false, what: "s=ffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52972" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xc7\x63\x4d\x81\xf4\x37\x2d\xdf\x58\x1a\x0d\xb2\x48\xb0\xa7\x7a\xec\xec\x19\x6a\xcc\xc5\x29\x72", s: b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xc7\x63\x4d\x81\xf4\x37\x2d\xdf\x58\x1a\x0d\xb2\x48\xb0\xa7\x7a\xec\xec\x19\x6a\xcc\xc5\x29\x72", ok: false, what: "r=s=ffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52972" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xc7\x63\x4d\x81\xf4\x37\x2d\xdf\x58\x1a\x0d\xb2\x48\xb0\xa7\x7a\xec\xec\x19\x6a\xcc\xc5\x29\x73", s: b"\xbc\x89\xfe\xa1\x41\xe8\xca\xff\xa2\xe7\xde\x7b\xe7\x57\xbe\xb2\x3c\xb9\xa3\xd7\x58\x51\x81\xb1\xb2\x6f\x68\x43\x82\xc0\x8f\x33\xc6\x47\xf0\x42\xd3\xd0\x0c\x25\xa7\x1e\xe2\x48\x00\xfc\x7e\xdc", ok: false, what: "r=ffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52973" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\x0f\x26\x27\x32\x6d\xe8\xa3\x3e\x17\x86\xc4\xd5\x22\xaa\xe6\x1a\x59\x95\x64\x27\x17\x9d\x47\xa6\x62\x70\x9b\xca\xaf\x71\x7f\xdd\x30\x04\x40\xf6\xd7\xea\x43\x92\x4f\x51\x0a\x93\x73\x00\xcb\x11", s: b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xc7\x63\x4d\x81\xf4\x37\x2d\xdf\x58\x1a\x0d\xb2\x48\xb0\xa7\x7a\xec\xec\x19\x6a\xcc\xc5\x29\x73", ok: false, what: "s=ffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52973" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xc7\x63\x4d\x81\xf4\x37\x2d\xdf\x58\x1a\x0d\xb2\x48\xb0\xa7\x7a\xec\xec\x19\x6a\xcc\xc5\x29\x73", s: b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xc7\x63\x4d\x81\xf4\x37\x2d\xdf\x58\x1a\x0d\xb2\x48\xb0\xa7\x7a\xec\xec\x19\x6a\xcc\xc5\x29\x73", ok: false, what: "r=s=ffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52973" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xc7\x63\x4d\x81\xf4\x37\x2d\xdf\x58\x1a\x0d\xb2\x48\xb0\xa7\x7a\xec\xec\x19\x6a\xcc\xc5\x29\x74", s: b"\xbc\x89\xfe\xa1\x41\xe8\xca\xff\xa2\xe7\xde\x7b\xe7\x57\xbe\xb2\x3c\xb9\xa3\xd7\x58\x51\x81\xb1\xb2\x6f\x68\x43\x82\xc0\x8f\x33\xc6\x47\xf0\x42\xd3\xd0\x0c\x25\xa7\x1e\xe2\x48\x00\xfc\x7e\xdc", ok: false, what: "r=ffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52974" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\x0f\x26\x27\x32\x6d\xe8\xa3\x3e\x17\x86\xc4\xd5\x22\xaa\xe6\x1a\x59\x95\x64\x27\x17\x9d\x47\xa6\x62\x70\x9b\xca\xaf\x71\x7f\xdd\x30\x04\x40\xf6\xd7\xea\x43\x92\x4f\x51\x0a\x93\x73\x00\xcb\x11", s: b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xc7\x63\x4d\x81\xf4\x37\x2d\xdf\x58\x1a\x0d\xb2\x48\xb0\xa7\x7a\xec\xec\x19\x6a\xcc\xc5\x29\x74", ok: false, what: "s=ffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52974" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xc7\x63\x4d\x81\xf4\x37\x2d\xdf\x58\x1a\x0d\xb2\x48\xb0\xa7\x7a\xec\xec\x19\x6a\xcc\xc5\x29\x74", s: b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xc7\x63\x4d\x81\xf4\x37\x2d\xdf\x58\x1a\x0d\xb2\x48\xb0\xa7\x7a\xec\xec\x19\x6a\xcc\xc5\x29\x74", ok: false, what: "r=s=ffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52974" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff", s: b"\xbc\x89\xfe\xa1\x41\xe8\xca\xff\xa2\xe7\xde\x7b\xe7\x57\xbe\xb2\x3c\xb9\xa3\xd7\x58\x51\x81\xb1\xb2\x6f\x68\x43\x82\xc0\x8f\x33\xc6\x47\xf0\x42\xd3\xd0\x0c\x25\xa7\x1e\xe2\x48\x00\xfc\x7e\xdc", ok: false, what: "r=ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\x0f\x26\x27\x32\x6d\xe8\xa3\x3e\x17\x86\xc4\xd5\x22\xaa\xe6\x1a\x59\x95\x64\x27\x17\x9d\x47\xa6\x62\x70\x9b\xca\xaf\x71\x7f\xdd\x30\x04\x40\xf6\xd7\xea\x43\x92\x4f\x51\x0a\x93\x73\x00\xcb\x11", s: b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff", ok: false, what: "s=ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff", s: b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff", ok: false, what: "r=s=ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff" },
  Sig { q: b"\x04\xe3\x23\xa8\x7d\x0a\x36\x77\x9f\x8d\x2a\x21\xc8\xb6\xf3\x13\x8a\xb2\x77\x8e\x64\x28\x5e\x64\x46\xf3\x4c\xc5\x6a\x59\x76\xb0\x85\xa6\x55\xf0\x81\xb5\x7c\xa7\xe9\x9f\x9c\x51\x36\x79\x78\x4f\x34\xab\x39\x3b\x82\x03\x33\x73\x1c\x32\x89\x74\x7b\x6f\xe2\x29\x92\xda\x5d\xca\x42\xe0\x9a\xa7\x7b\xb7\x3f\x7e\x8e\x76\xd7\x09\xa6\x02\x05\x3f\x9d\xe1\x86\x6b\x6a\x10\xd2\x9d\x86\xec\x3d\xbf\x7e", r: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x0a", s: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01\x23\x45\x67", ok: true, what: "small r" },
  Sig { q: b"\x04\xe3\x23\xa8\x7d\x0a\x36\x77\x9f\x8d\x2a\x21\xc8\xb6\xf3\x13\x8a\xb2\x77\x8e\x64\x28\x5e\x64\x46\xf3\x4c\xc5\x6a\x59\x76\xb0\x85\xa6\x55\xf0\x81\xb5\x7c\xa7\xe9\x9f\x9c\x51\x36\x79\x78\x4f\x34\xab\x39\x3b\x82\x03\x33\x73\x1c\x32\x89\x74\x7b\x6f\xe2\x29\x92\xda\x5d\xca\x42\xe0\x9a\xa7\x7b\xb7\x3f\x7e\x8e\x76\xd7\x09\xa6\x02\x05\x3f\x9d\xe1\x86\x6b\x6a\x10\xd2\x9d\x86\xec\x3d\xbf\x7e", r: b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xc7\x63\x4d\x81\xf4\x37\x2d\xdf\x58\x1a\x0d\xb2\x48\xb0\xa7\x7a\xec\xec\x19\x6a\xcc\xc5\x29\x7d", s: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01\x23\x45\x67", ok: false, what: "small r plus n" },
  Sig { q: b"\x04\xe3\x23\xa8\x7d\x0a\x36\x77\x9f\x8d\x2a\x21\xc8\xb6\xf3\x13\x8a\xb2\x77\x8e\x64\x28\x5e\x64\x46\xf3\x4c\xc5\x6a\x59\x76\xb0\x85\xa6\x55\xf0\x81\xb5\x7c\xa7\xe9\x9f\x9c\x51\x36\x79\x78\x4f\x34\xab\x39\x3b\x82\x03\x33\x73\x1c\x32\x89\x74\x7b\x6f\xe2\x29\x92\xda\x5d\xca\x42\xe0\x9a\xa7\x7b\xb7\x3f\x7e\x8e\x76\xd7\x09\xa6\x02\x05\x3f\x9d\xe1\x86\x6b\x6a\x10\xd2\x9d\x86\xec\x3d\xbf\x7e", r: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x0a", s: b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xc7\x63\x4d\x81\xf4\x37\x2d\xdf\x58\x1a\x0d\xb2\x48\xb0\xa7\x7a\xec\xec\x19\x6a\xcd\xe8\x6e\xda", ok: false, what: "small s plus n" },
  Sig { q: b"\x04\xf7\x60\x60\xdc\xf5\xd0\x0b\xe7\x22\x6f\x56\x2b\x13\xdf\x1f\x84\x40\x09\x6f\xc5\x44\x70\x83\x70\xbf\x09\xf8\x56\x3a\x34\xf8\x1e\xca\xf2\x20\x81\x18\x7f\xc5\xb1\x35\x1d\x2f\x19\xc2\xf8\xb5\x6b\xf0\x92\x1c\x07\xab\x9f\x2b\xb8\x97\x20\xfb\x0b\x09\x26\xaa\x46\x0b\x82\x2d\xbe\xaa\x31\xcf\xce\x9a\x7e\xfb\x58\xd4\x35\x4e\x51\xe9\x31\x9d\xc9\xf4\x45\x38\x42\x8b\x64\x91\x69\xf9\x79\x52\x72", r: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x02", s: b"\xbc\x89\xfe\xa1\x41\xe8\xca\xff\xa2\xe7\xde\x7b\xe7\x57\xbe\xb2\x3c\xb9\xa3\xd7\x58\x51\x81\xb1\xb2\x6f\x68\x43\x82\xc0\x8f\x33\xc6\x47\xf0\x42\xd3\xd0\x0c\x25\xa7\x1e\xe2\x48\x00\xfc\x7e\xdc", ok: true, what: "x(R) above n" },
  Sig { q: b"\x04\xf7\x60\x60\xdc\xf5\xd0\x0b\xe7\x22\x6f\x56\x2b\x13\xdf\x1f\x84\x40\x09\x6f\xc5\x44\x70\x83\x70\xbf\x09\xf8\x56\x3a\x34\xf8\x1e\xca\xf2\x20\x81\x18\x7f\xc5\xb1\x35\x1d\x2f\x19\xc2\xf8\xb5\x6b\xf0\x92\x1c\x07\xab\x9f\x2b\xb8\x97\x20\xfb\x0b\x09\x26\xaa\x46\x0b\x82\x2d\xbe\xaa\x31\xcf\xce\x9a\x7e\xfb\x58\xd4\x35\x4e\x51\xe9\x31\x9d\xc9\xf4\x45\x38\x42\x8b\x64\x91\x69\xf9\x79\x52\x72", r: b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xc7\x63\x4d\x81\xf4\x37\x2d\xdf\x58\x1a\x0d\xb2\x48\xb0\xa7\x7a\xec\xec\x19\x6a\xcc\xc5\x29\x75", s: b"\xbc\x89\xfe\xa1\x41\xe8\xca\xff\xa2\xe7\xde\x7b\xe7\x57\xbe\xb2\x3c\xb9\xa3\xd7\x58\x51\x81\xb1\xb2\x6f\x68\x43\x82\xc0\x8f\x33\xc6\x47\xf0\x42\xd3\xd0\x0c\x25\xa7\x1e\xe2\x48\x00\xfc\x7e\xdc", ok: false, what: "x(R) itself as r" },
  Sig { q: b"\x04\xaf\xb3\xb7\x93\xe1\x83\x14\x02\x04\x26\x40\x96\xcc\xa6\xd0\x9d\xf3\xd3\x15\xee\xcf\x6a\xa5\xff\xfb\x0d\xf7\x45\x7a\x96\x77\xa9\x46\xb5\xd7\x46\x1d\x4c\x0f\x08\xf9\xc4\xd9\xa8\x7a\x1a\x18\x0e\x27\x03\xf4\xe7\xb3\x4c\x5a\xee\x0f\x12\xac\x08\x96\x49\x3a\xd0\xf2\xe4\x74\xda\x7e\xed\xb5\xb3\x19\xe9\xfb\xf7\x7f\x76\x27\xe2\x81\x91\xf7\x90\x1a\x36\xbb\xcf\x17\xf7\x3b\xc3\x14\xa5\x3d\x44", r: b"\x0f\x26\x27\x32\x6d\xe8\xa3\x3e\x17\x86\xc4\xd5\x22\xaa\xe6\x1a\x59\x95\x64\x27\x17\x9d\x47\xa6\x62\x70\x9b\xca\xaf\x71\x7f\xdd\x30\x04\x40\xf6\xd7\xea\x43\x92\x4f\x51\x0a\x93\x73\x00\xcb\x11", s: b"\xbc\x89\xfe\xa1\x41\xe8\xca\xff\xa2\xe7\xde\x7b\xe7\x57\xbe\xb2\x3c\xb9\xa3\xd7\x58\x51\x81\xb1\xb2\x6f\x68\x43\x82\xc0\x8f\x33\xc6\x47\xf0\x42\xd3\xd0\x0c\x25\xa7\x1e\xe2\x48\x00\xfc\x7e\xdc", ok: false, what: "R at infinity" },
  Sig { q: b"\x04\xaa\x87\xca\x22\xbe\x8b\x05\x37\x8e\xb1\xc7\x1e\xf3\x20\xad\x74\x6e\x1d\x3b\x62\x8b\xa7\x9b\x98\x59\xf7\x41\xe0\x82\x54\x2a\x38\x55\x02\xf2\x5d\xbf\x55\x29\x6c\x3a\x54\x5e\x38\x72\x76\x0a\xb7\xc9\xe8\x21\xb5\x69\xd9\xd3\x90\xa2\x61\x67\x40\x6d\x6d\x23\xd6\x07\x0b\xe2\x42\xd7\x65\xeb\x83\x16\x25\xce\xec\x4a\x0f\x47\x3e\xf5\x9f\x4e\x30\xe2\x81\x7e\x62\x85\xbc\xe2\x84\x6f\x15\xf1\xa0", r: b"\x74\x1a\x99\x5b\xf7\xa3\xc8\xe7\x25\xc5\xb0\xc5\x00\xbb\x7a\x4e\x24\xc6\x69\x41\x4c\x54\x05\xe5\xcd\xca\x7d\x92\x8c\x08\x8d\xee\x7a\x61\xc8\xbe\x67\x9b\xd7\x6d\xb5\x11\x49\x21\x33\x5e\x67\x7f", s: b"\xbc\x89\xfe\xa1\x41\xe8\xca\xff\xa2\xe7\xde\x7b\xe7\x57\xbe\xb2\x3c\xb9\xa3\xd7\x58\x51\x81\xb1\xb2\x6f\x68\x43\x82\xc0\x8f\x33\xc6\x47\xf0\x42\xd3\xd0\x0c\x25\xa7\x1e\xe2\x48\x00\xfc\x7e\xdc", ok: false, what: "R at infinity" },
  Sig { q: b"\x04\xe6\xc2\xfd\x0b\x42\x7b\x23\x91\xdc\x10\x7d\xfb\x91\x25\x63\x70\x74\x50\xbc\x5c\xce\xfb\x89\xc5\x8b\x47\x04\x44\xdb\x92\xba\x8c\x10\x2d\x4a\x9b\x5d\xa1\x11\x42\x8d\x61\x12\x3f\x89\x95\xd2\x58\x7f\xde\x9e\xfb\x98\xf8\x07\x99\x2e\x7f\x91\xc2\x13\x7c\x33\x22\x14\x7b\x98\xc4\xc7\xed\xfe\x97\xbb\x81\x9f\x88\x7b\x9e\x40\xab\x49\x0c\x46\x83\x1a\x7b\x5f\xfb\x3c\xee\x00\xbe\x3e\x84\x63\x1a", r: b"\xe8\xc8\xf9\x4d\x44\xfb\xc2\x39\x6b\xbe\xac\x48\x1b\x89\xd2\xb0\x87\x7b\x1d\xff\xd2\x3e\x7d\xc9\x5d\xe5\x41\xeb\x65\x1c\xca\x2c\x41\xab\xa2\x4d\xbc\x02\xde\x66\x37\x20\x9a\xcc\xf0\xf5\x9e\xa0", s: b"\x35\x28\x5f\x0d\x23\x60\x8a\x6a\x29\xf7\xab\x89\xdb\x88\x7f\x2f\xbc\x1c\x58\x2d\xe6\x55\x25\x69\xf0\xbd\x66\x27\x80\x09\x1a\xd4\x42\xa3\xfa\x10\x19\x2f\x7f\xd8\x17\x24\x32\xa6\x49\x29\xa6\xfe", ok: true, what: "doubling" },
  Sig { q: b"\x04\xaa\x87\xca\x22\xbe\x8b\x05\x37\x8e\xb1\xc7\x1e\xf3\x20\xad\x74\x6e\x1d\x3b\x62\x8b\xa7\x9b\x98\x59\xf7\x41\xe0\x82\x54\x2a\x38\x55\x02\xf2\x5d\xbf\x55\x29\x6c\x3a\x54\x5e\x38\x72\x76\x0a\xb7\x36\x17\xde\x4a\x96\x26\x2c\x6f\x5d\x9e\x98\xbf\x92\x92\xdc\x29\xf8\xf4\x1d\xbd\x28\x9a\x14\x7c\xe9\xda\x31\x13\xb5\xf0\xb8\xc0\x0a\x60\xb1\xce\x1d\x7e\x81\x9d\x7a\x43\x1d\x7c\x90\xea\x0e\x5f", r: b"\x0f\x26\x27\x32\x6d\xe8\xa3\x3e\x17\x86\xc4\xd5\x22\xaa\xe6\x1a\x59\x95\x64\x27\x17\x9d\x47\xa6\x62\x70\x9b\xca\xaf\x71\x7f\xdd\x30\x04\x40\xf6\xd7\xea\x43\x92\x4f\x51\x0a\x93\x73\x00\xcb\x11", s: b"\x1f\x64\xf8\x9f\x9f\xfd\xd7\x9d\xc6\xfe\x04\x41\x6f\xbe\x3c\xbb\xfc\x19\x42\xe8\x77\x51\x12\xdd\xb2\xed\xa6\x8e\xc4\x19\x13\xf5\x98\x0d\x64\x2a\x65\x0d\x73\x8b\x3d\xa9\xc3\x6f\xd3\x82\xdc\xaf", ok: true, what: "key G" },
  Sig { q: b"\x04\x08\xd9\x99\x05\x7b\xa3\xd2\xd9\x69\x26\x00\x45\xc5\x5b\x97\xf0\x89\x02\x59\x59\xa6\xf4\x34\xd6\x51\xd2\x07\xd1\x9f\xb9\x6e\x9e\x4f\xe0\xe8\x6e\xbe\x0e\x64\xf8\x5b\x96\xa9\xc7\x52\x95\xdf\x61\x8e\x80\xf1\xfa\x5b\x1b\x3c\xed\xb7\xbf\xe8\xdf\xfd\x6d\xba\x74\xb2\x75\xd8\x75\xbc\x6c\xc4\x3e\x90\x4e\x50\x5f\x25\x6a\xb4\x25\x5f\xfd\x43\xe9\x4d\x39\xe2\x2d\x61\x50\x1e\x70\x0a\x94\x0e\x80", r: b"\x0f\x26\x27\x32\x6d\xe8\xa3\x3e\x17\x86\xc4\xd5\x22\xaa\xe6\x1a\x59\x95\x64\x27\x17\x9d\x47\xa6\x62\x70\x9b\xca\xaf\x71\x7f\xdd\x30\x04\x40\xf6\xd7\xea\x43\x92\x4f\x51\x0a\x93\x73\x00\xcb\x11", s: b"\xa5\x89\x73\x4f\x62\xa7\x76\x1f\xeb\x8c\x13\x88\x6a\x6e\x96\x02\xf6\xf5\xd5\xa4\xe4\xe5\xb9\x0e\xf1\x47\xcc\xca\x50\xc8\xa5\x15\xe0\x93\xcc\x2a\x28\x69\x8f\x9b\x8a\xba\xf8\x0f\x2e\x33\xb7\x64", ok: true, what: "key 2G" },
  Sig { q: b"\x04\xaa\x87\xca\x22\xbe\x8b\x05\x37\x8e\xb1\xc7\x1e\xf3\x20\xad\x74\x6e\x1d\x3b\x62\x8b\xa7\x9b\x98\x59\xf7\x41\xe0\x82\x54\x2a\x38\x55\x02\xf2\x5d\xbf\x55\x29\x6c\x3a\x54\x5e\x38\x72\x76\x0a\xb7\xc9\xe8\x21\xb5\x69\xd9\xd3\x90\xa2\x61\x67\x40\x6d\x6d\x23\xd6\x07\x0b\xe2\x42\xd7\x65\xeb\x83\x16\x25\xce\xec\x4a\x0f\x47\x3e\xf5\x9f\x4e\x30\xe2\x81\x7e\x62\x85\xbc\xe2\x84\x6f\x15\xf1\xa0", r: b"\x0f\x26\x27\x32\x6d\xe8\xa3\x3e\x17\x86\xc4\xd5\x22\xaa\xe6\x1a\x59\x95\x64\x27\x17\x9d\x47\xa6\x62\x70\x9b\xca\xaf\x71\x7f\xdd\x30\x04\x40\xf6\xd7\xea\x43\x92\x4f\x51\x0a\x93\x73\x00\xcb\x11", s: b"\x13\x1c\x03\x40\x1a\xaa\x9a\x99\x7d\xe1\xe5\xb3\x7a\x5d\x8a\x2e\x06\x60\x1d\x6f\x9c\x27\xc6\x7a\xfd\x9c\xa7\x99\x9e\xf1\x1f\x94\x5f\x1a\xa1\xdd\x27\x05\xe2\xe5\x90\x73\x73\x9b\xea\xe6\x50\xb8", ok: true, what: "key -G" },
  Sig { q: b"\x04\xd3\x6f\xed\x39\xca\x71\x06\x3a\x51\x63\xe8\x11\x9a\x37\xaf\xf1\x0f\x6b\x86\xd5\x0f\x02\xf1\xd3\x24\x23\x8d\x2b\x09\x0d\x80\x67\x08\x49\x55\x05\x66\x39\x6f\xf5\x77\x87\x38\xc0\xb3\x9b\x10\x7a\xb9\x3c\x19\xd4\x7a\x47\xd0\xf2\x20\x53\x47\x0a\xcd\xef\xe4\xb4\x7d\x1f\x82\x4e\x37\x02\x3c\x92\xe0\xa8\xd7\xbc\xbe\x97\xbf\x52\x23\x0d\x43\xe2\x42\xac\xd9\x98\x7e\x03\x04\x57\x8c\x65\x51\xae", r: b"\x0f\x26\x27\x32\x6d\xe8\xa3\x3e\x17\x86\xc4\xd5\x22\xaa\xe6\x1a\x59\x95\x64\x27\x17\x9d\x47\xa6\x62\x70\x9b\xca\xaf\x71\x7f\xdd\x30\x04\x40\xf6\xd7\xea\x43\x92\x4f\x51\x0a\x93\x73\x00\xcb\x11", s: b"\x5c\x52\xbb\x47\xbe\xa9\x08\x5c\xb4\xb6\xfc\x9d\xf2\x66\x10\x18\x7e\xaa\xf9\x8a\x40\x86\xbf\xc4\xf7\x72\x3a\x31\xf7\xdc\xe2\x55\x1f\xd7\x37\x03\xa7\xb7\xb9\x40\x8d\x97\x35\xd5\x8c\x8d\x04\x0e", ok: true, what: "key G/2" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\xaa\x87\xca\x22\xbe\x8b\x05\x37\x8e\xb1\xc7\x1e\xf3\x20\xad\x74\x6e\x1d\x3b\x62\x8b\xa7\x9b\x98\x59\xf7\x41\xe0\x82\x54\x2a\x38\x55\x02\xf2\x5d\xbf\x55\x29\x6c\x3a\x54\x5e\x38\x72\x76\x0a\xb7", s: b"\x0b\xb8\x85\xfe\x13\x43\xae\xe5\x4f\x55\xb8\xa6\x2d\x09\x48\x6e\x3d\x1b\xa8\x02\x5d\x19\xe6\xc1\x09\x5b\xf5\xad\x3d\xe9\x28\xe7\x76\x09\xb3\xd2\x2b\x9c\x33\xf4\x0d\xac\xf9\xce\x8b\xa0\x8c\xf7", ok: true, what: "nonce 1" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\x08\xd9\x99\x05\x7b\xa3\xd2\xd9\x69\x26\x00\x45\xc5\x5b\x97\xf0\x89\x02\x59\x59\xa6\xf4\x34\xd6\x51\xd2\x07\xd1\x9f\xb9\x6e\x9e\x4f\xe0\xe8\x6e\xbe\x0e\x64\xf8\x5b\x96\xa9\xc7\x52\x95\xdf\x61", s: b"\xda\x41\x93\x2f\x08\x36\xec\x97\xba\x9a\x1a\x4b\x08\x9f\xcd\xf6\x48\xb0\x7e\x56\xba\x2a\x22\xad\x80\xa7\x40\x4f\xa9\x87\xa3\x3d\x83\x78\xde\xf6\x5c\xbb\x56\x37\x62\x61\x28\xe6\x29\xc9\x65\x2a", ok: true, what: "nonce 2" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\x07\x7a\x41\xd4\x60\x6f\xfa\x14\x64\x79\x3c\x7e\x5f\xdc\x7d\x98\xcb\x9d\x39\x10\x20\x2d\xcd\x06\xbe\xa4\xf2\x40\xd3\x56\x6d\xa6\xb4\x08\xbb\xae\x50\x26\x58\x0d\x02\xd7\xe5\xc7\x05\x00\xc8\x31", s: b"\x63\x8c\x38\xd9\x41\xd4\x86\x62\x82\x92\xef\xd0\x2d\x2c\xd0\x17\xf4\x41\x1f\xa8\xfe\x45\x34\x66\x94\x93\x98\x06\x36\xb7\x12\x3f\x6c\x2d\x55\x7c\xbe\xae\x9d\x2b\x79\xcb\x2c\x3e\x5f\xb5\xfd\xb7", ok: true, what: "nonce 3" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\xaa\x87\xca\x22\xbe\x8b\x05\x37\x8e\xb1\xc7\x1e\xf3\x20\xad\x74\x6e\x1d\x3b\x62\x8b\xa7\x9b\x98\x59\xf7\x41\xe0\x82\x54\x2a\x38\x55\x02\xf2\x5d\xbf\x55\x29\x6c\x3a\x54\x5e\x38\x72\x76\x0a\xb7", s: b"\xf4\x47\x7a\x01\xec\xbc\x51\x1a\xb0\xaa\x47\x59\xd2\xf6\xb7\x91\xc2\xe4\x57\xfd\xa2\xe6\x19\x3e\xbe\x07\x57\xd4\xb6\x4e\x04\xf7\xe2\x10\x59\xe0\x1d\x14\x73\x86\xdf\x3f\x1f\x9c\x41\x24\x9c\x7c", ok: true, what: "nonce ffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52972" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\x08\xd9\x99\x05\x7b\xa3\xd2\xd9\x69\x26\x00\x45\xc5\x5b\x97\xf0\x89\x02\x59\x59\xa6\xf4\x34\xd6\x51\xd2\x07\xd1\x9f\xb9\x6e\x9e\x4f\xe0\xe8\x6e\xbe\x0e\x64\xf8\x5b\x96\xa9\xc7\x52\x95\xdf\x61", s: b"\x25\xbe\x6c\xd0\xf7\xc9\x13\x68\x45\x65\xe5\xb4\xf7\x60\x32\x09\xb7\x4f\x81\xa9\x45\xd5\xdd\x52\x46\xbc\x0d\x32\x4a\xaf\x8a\xa1\xd4\xa1\x2e\xbb\xeb\xf5\x51\x43\x8a\x8a\xf0\x84\xa2\xfb\xc4\x49", ok: true, what: "nonce ffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52971" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\xd3\x6f\xed\x39\xca\x71\x06\x3a\x51\x63\xe8\x11\x9a\x37\xaf\xf1\x0f\x6b\x86\xd5\x0f\x02\xf1\xd3\x24\x23\x8d\x2b\x09\x0d\x80\x67\x08\x49\x55\x05\x66\x39\x6f\xf5\x77\x87\x38\xc0\xb3\x9b\x10\x7a", s: b"\x3f\xe3\x85\x23\x4a\x2e\xde\xf6\x44\xbd\x22\x04\x5a\x48\x8a\xa1\x25\xb6\xe6\xd1\xe3\x0c\xf7\x98\xb6\x57\x1e\xc6\x82\x3f\x0c\xe5\x03\x39\x75\x98\x9f\x9c\x0b\x02\xd3\xb3\xa5\xbd\x3f\x08\xff\xed", ok: true, what: "nonce 7fffffffffffffffffffffffffffffffffffffffffffffffe3b1a6c0fa1b96efac0d06d9245853bd76760cb5666294ba" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\xd5\xd8\x9c\x3b\x52\x82\x36\x9c\x5f\xbd\x88\xe2\xb2\x31\x51\x1a\x6b\x80\xdf\xf0\xe5\x15\x2c\xf6\xa4\x64\xfa\x94\x28\xa8\x58\x3b\xac\x8e\xbc\x77\x3d\x15\x78\x11\xa4\x62\xb8\x92\x40\x1d\xaf\xcf", s: b"\xb4\x52\x70\xb2\x22\x63\x5f\x99\x00\xbb\x26\x2d\x8c\x82\xac\xd1\x94\x6f\x4a\xd4\xa2\xac\xf9\x38\xa1\x33\x41\x37\x3c\x9c\x9f\xcf\x95\x78\x95\x48\xf9\x93\xfe\x5a\x03\x23\x67\x38\x72\x9f\xf5\x7b", ok: true, what: "nonce 10" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\xf2\xe6\xf0\x6f\x0e\xa5\x33\xe8\x04\xfc\xfa\x12\xc0\x87\xd4\x46\xc7\x3e\x33\x36\x39\x4c\x98\xc5\x9d\x39\x93\x12\x4d\x37\x4e\x62\x06\x1f\xa4\x85\xbd\x1b\x8a\x65\x0c\x83\x61\xdb\xa9\xeb\x28\xb9", s: b"\x04\x00\x2a\x79\x32\x4e\xb6\x0e\x01\x73\x8e\xea\xa6\xd9\x46\xa8\x76\x2d\x1a\x94\xd0\x5e\x1f\x1e\x2e\x2f\xe9\x85\x11\x81\x23\xd6\xc2\xf6\x15\x00\xd4\x58\xd2\x65\x35\x6d\x7e\x37\xeb\x88\x10\x85", ok: true, what: "nonce 1f" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\x7f\x73\x56\xc5\xe0\xfb\xc6\x67\x8b\xab\x99\xdf\x1f\xd9\xb2\xb4\x9f\x81\x61\x8d\x6d\x99\xaf\x63\x61\x2c\xcf\x2c\xc4\xac\xaf\x5c\x44\x81\x9b\x88\xe2\x17\xec\xd3\xcc\xe8\x2f\xe5\x5f\xf8\x6e\xd6", s: b"\x8a\xd3\x02\x7f\x76\x67\xd4\xa6\xd5\x40\x46\x76\x0d\x15\x4e\xce\x90\x61\xaa\x97\x4a\x31\xc3\x7d\x40\x49\x6e\x13\x61\x06\xed\x0a\x13\x86\x39\xd0\x2b\x36\xbe\x1b\xb4\x4f\x82\x8d\x89\xda\x66\x98", ok: true, what: "nonce 20" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\xc1\xe1\x79\xaa\x17\x8a\x78\x00\x46\xe3\x58\x41\x76\x60\x73\x61\x2e\xa5\xe5\xab\xd2\x66\x08\xf2\x59\xa5\x99\xfc\x9a\x84\x25\xa3\xea\x63\x9d\x94\xcb\xe6\x3f\xde\x1d\x69\xc7\x0f\x93\x27\x60\x5f", s: b"\x2a\x71\x74\x87\x79\x22\xce\x1c\x29\xbe\x9e\xbb\x8f\xb6\xb1\xc6\x5d\x37\x2d\x90\x9b\x79\x4d\x62\x05\x7e\x6b\xe1\xeb\x41\xcd\x0b\x2b\x7b\x77\xf1\x5a\x45\xb8\x13\x97\x00\x74\x8d\x0d\xe8\x41\xa5", ok: true, what: "nonce 40" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\x35\x49\x60\x41\xea\x25\x3b\x0d\x15\x3c\x9b\xfb\xc1\x8a\x9e\x41\xaf\x34\x8a\xfd\x8b\x1c\x33\xa5\xca\x5d\x7f\xbb\xfa\x2d\x5d\x9d\x43\x6e\xd1\x01\x1b\x3d\x9d\x93\xe4\xb4\x5d\x2a\x4b\x23\x27\xf1", s: b"\xaf\xd3\x34\xe4\x4d\x92\x52\x0c\xd1\x61\x46\x05\x95\x7d\x50\x36\x84\x9b\xb3\x30\xec\x77\x11\x64\x66\xd9\xbc\x74\x59\x2d\x91\xa5\x08\x52\xbd\xc1\xa3\x76\x0f\xfc\xb9\x25\x06\x4c\xd4\xa0\xe2\x9a", ok: true, what: "nonce 7f" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\x79\xda\x1e\x5e\x28\x97\x75\x52\xa2\x68\x82\x91\x6c\xf3\xce\x49\xe8\x2f\xa5\x6f\x53\xe2\xd9\xd9\x79\xdf\x1c\x97\x78\xd6\xd1\x60\x6c\x15\x7d\x3b\xb6\x86\x65\x08\x9b\xdd\x08\xca\xec\xd5\xd0\x92", s: b"\x86\xdc\xbe\x0a\x7a\xf6\xb6\x28\xa0\x2b\xdf\xc1\x88\xdb\xb1\x53\x07\xd5\x21\x46\x4b\x21\x1d\x13\xa9\x88\xc7\x2c\x62\x5e\x27\xe4\x24\x02\xd2\xa3\x4b\x2d\x4f\x53\xcf\xd6\x97\xa9\x28\x4b\x54\x60", ok: true, what: "nonce 80" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\x3d\xc5\x6a\x32\x12\x7f\x8c\x4f\xf9\xbc\x78\x6c\x01\xf2\x31\x8d\x49\xba\xf2\x96\x0d\xf0\xfa\xfe\x9e\xf8\x15\x28\x39\x33\xf3\xe9\x6b\x25\x8c\xa2\x37\x1d\xa8\x33\x79\x4a\x45\x9a\x6c\x91\xad\x26", s: b"\xe2\x0e\xb2\x02\xe2\xd3\xc3\x7b\x15\x88\xe9\x7d\x0b\xa1\x3b\x5c\xc5\x42\x89\x72\x10\xc4\xa6\x52\x9e\xc2\x31\x1d\x1e\x83\xa0\xba\xc9\xd0\x71\x14\x45\x48\x36\xd1\xfb\x05\xe6\xe6\x22\xb7\x37\x53", ok: true, what: "nonce 100000000000000000000000000000000000000000000000000" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\x5c\x8e\x77\x2a\xb0\x0e\xee\xaf\x93\xbc\x62\xe1\x33\xdf\xe9\xc3\x1b\xdb\xc2\xba\xf5\x73\xc5\xb1\x3f\xce\xf5\x31\x62\x89\x8a\x2a\xdb\x30\x73\x17\xf1\x7e\xac\x0f\x87\xd4\x71\xa4\xb8\x81\x99\x32", s: b"\xab\x58\xa4\xf0\x51\x0f\x5a\x9c\x1e\xa9\xc4\xd0\x38\xc8\xfe\xfc\xd3\x00\xab\x03\xf2\x52\x6a\x6f\xd7\xe7\x0c\x23\xcd\xa9\x65\xd1\x3f\xdb\x05\x3f\xc5\x41\x9f\xbf\x33\x53\x30\x20\x4b\x6b\xe3\x1f", ok: true, what: "nonce ffffffffffffffffffffffffffffffffffffffffffffffffff" },
  Sig { q: b"\x04\xf6\x1c\x72\x1a\xda\x8d\xc0\x4b\x54\x28\x16\x18\x1e\x85\x1a\xb7\xd7\xe2\x82\x19\x78\xf7\xc0\xc9\x16\x54\xc6\x6e\x83\x13\x3f\xe1\x4a\x04\x49\xbf\x02\x2e\x51\x35\xcd\xd2\xa1\x29\x37\x00\xc9\x1d\xd1\x93\xc2\xa9\x99\x29\xed\x4d\x1a\x84\xae\x8b\x11\x4a\xa6\xd5\x96\x78\xb7\x79\x29\x34\x1f\xf7\xf3\x78\x5a\x73\x1d\x4c\x2f\x63\x78\xee\x22\x70\x40\xcb\x7f\x47\xac\xa7\x9e\x1c\x5d\xbd\x28\x6a", r: b"\xe8\x35\x32\xb7\xef\x47\x91\xce\x4b\x8b\x61\x8a\x01\x76\xf4\x9c\x49\x8c\xd2\x82\x98\xa8\x0b\xcb\x9b\x94\xfb\x25\x18\x11\x1b\xdc\xf4\xc3\x91\x7c\xcf\x37\xae\xdb\x6a\x22\x92\x42\x66\xbc\xce\xfe", s: b"\x74\x1a\x99\x5b\xf7\xa3\xc8\xe7\x25\xc5\xb0\xc5\x00\xbb\x7a\x4e\x24\xc6\x69\x41\x4c\x54\x05\xe5\xcd\xca\x7d\x92\x8c\x08\x8d\xee\x7a\x61\xc8\xbe\x67\x9b\xd7\x6d\xb5\x11\x49\x21\x33\x5e\x67\x7f", ok: true, what: "u1=1 u2=2" },
  Sig { q: b"\x04\x29\xbe\xc2\xd4\x33\x43\x8a\x0f\x08\x37\x9d\x93\x70\x5a\x37\xf2\x71\xf7\x6d\x6b\x34\x6f\x0b\xce\x38\xd8\xb6\x30\x5c\xb9\xcb\x19\x17\x53\x00\x87\x7e\xda\x56\xc5\xa9\x24\x6d\x18\xfe\xca\x83\xe1\xff\x7c\x68\xe4\x36\x0c\x30\xe3\xbc\xe6\x45\x0e\x06\x7d\x41\xae\xb8\x10\xa5\xf7\xc7\x95\x14\x73\x46\xf6\xd4\x50\x67\x3d\x49\x51\x12\x16\xe2\xe5\xc4\x20\x25\x33\x68\xed\x5c\x98\xfe\x67\xa8\xb3", r: b"\xb0\xd7\xe8\x21\xe9\xc0\x33\xdb\x27\xbe\x68\xaf\xff\x4f\x8c\xe3\xa1\x27\x24\x77\x3f\xb0\xeb\x63\xb3\xbf\x77\x07\x50\xea\x53\x55\x67\xc1\x16\x23\x1c\xe7\x77\xf4\xf4\xf7\x9b\x58\x1d\xec\xeb\x09", s: b"\xdb\x0d\x7e\x82\x1e\x9c\x03\x3d\xb2\x7b\xe6\x8a\xff\xf4\xf8\xce\x3a\x12\x72\x47\x73\xfb\x0e\xb6\x0d\x3c\xa6\x6a\x0b\x7b\x7a\x7a\xce\x11\x3c\x83\x0c\xdd\xff\x93\x2f\xcf\x4e\x5c\x48\x3f\x00\x5e", ok: true, what: "u1=ffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52962 u2=10" },
  Sig { q: b"\x04\x5a\x91\xd3\x7c\xe9\xee\x60\xd9\x82\xcb\xe3\x47\x2c\x8e\xec\xbe\x61\x98\x67\xef\x29\x2e\x6f\x1e\x8d\x33\xf2\xb0\xaf\x56\xb2\x21\xef\x05\x2c\x38\x26\x95\x5e\xeb\xdf\xa5\xeb\x55\x3c\xa8\x0d\xee\xd2\x03\x43\xab\x96\x37\x51\x9b\x0b\xec\xc8\xe7\xa1\xd8\xcd\x28\xb6\xe3\x69\x75\xf7\x2b\x14\xd2\x34\x84\xf3\x04\xa3\x2c\xa6\x01\xeb\xeb\xee\x12\xb4\x3a\xd6\x2d\xa0\xab\x9d\xcd\x28\x55\xf8\x00", r: b"\x76\xe8\x35\x32\xb7\xef\x47\x91\xce\x4b\x8b\x61\x8a\x01\x76\xf4\x9c\x49\x8c\xd2\x82\x98\xa8\x0b\xb1\x83\x5a\xb5\x0b\xa9\x80\x40\xcf\x90\xc5\xe1\xaa\x50\xa4\xe1\x84\x9e\xf6\x49\x7c\xc9\x9d\xea", s: b"\x76\xe8\x35\x32\xb7\xef\x47\x91\xce\x4b\x8b\x61\x8a\x01\x76\xf4\x9c\x49\x8c\xd2\x82\x98\xa8\x0b\xb1\x83\x5a\xb5\x0b\xa9\x80\x40\xcf\x90\xc5\xe1\xaa\x50\xa4\xe1\x84\x9e\xf6\x49\x7c\xc9\x9d\xea", ok: true, what: "u1=80 u2=1" },
];
pub static SIG_P256_SHA512: &[Sig] = &[
  Sig { q: b"\x04\xfc\x4a\xa6\x9b\x5b\x41\xeb\x13\x6d\xac\x0a\x59\xfb\x0f\xbd\x11\x89\x5f\xa4\x2c\xd2\x13\x56\xdb\xae\x77\xed\x9b\x73\xda\x01\x0b\x4a\x5a\x33\x49\xd9\x51\x66\x7a\x83\xc3\x7d\x61\x0b\x5b\x04\x4a\x22\x84\xaf\xe8\x98\xeb\xe3\xde\xab\x08\x81\x3a\x46\x9d\x35\x80", r: b"\x6c\x65\x40\x54\xa8\x97\xa4\xf8\x9c\x32\xf5\xcc\x03\x49\x18\x1c\xff\x5d\x04\x5f\x87\xba\xc1\x32\x5c\xad\xdd\x91\xcd\x1b\xae\xb0", s: b"\x16\x80\x04\x4c\x7a\x75\x2a\x60\x80\x9a\x89\x27\xc5\x31\x6d\xd3\x5b\xe7\x14\xc7\x8c\x50\x91\x6b\xd7\x98\x20\xc3\x15\x74\x92\x4e", ok: true, what: "ordinary" },
  Sig { q: b"\x04\xfc\x4a\xa6\x9b\x5b\x41\xeb\x13\x6d\xac\x0a\x59\xfb\x0f\xbd\x11\x89\x5f\xa4\x2c\xd2\x13\x56\xdb\xae\x77\xed\x9b\x73\xda\x01\x0b\x4a\x5a\x33\x49\xd9\x51\x66\x7a\x83\xc3\x7d\x61\x0b\x5b\x04\x4a\x22\x84\xaf\xe8\x98\xeb\xe3\xde\xab\x08\x81\x3a\x46\x9d\x35\x80", r: b"\x6c\x65\x40\x54\xa8\x97\xa4\xf8\x9c\x32\xf5\xcc\x03\x49\x18\x1c\xff\x5d\x04\x5f\x87\xba\xc1\x32\x5c\xad\xdd\x91\xcd\x1b\xae\xb0", s: b"\xe9\x7f\xfb\xb2\x85\x8a\xd5\xa0\x7f\x65\x76\xd8\x3a\xce\x92\x2c\x60\xff\xe5\xe6\x1a\xc7\x0d\x19\x1c\x21\xa9\xff\xe6\xee\x93\x03", ok: true, what: "negated s" },
  Sig { q: b"\x04\xfc\x4a\xa6\x9b\x5b\x41\xeb\x13\x6d\xac\x0a\x59\xfb\x0f\xbd\x11\x89\x5f\xa4\x2c\xd2\x13\x56\xdb\xae\x77\xed\x9b\x73\xda\x01\x0b\x4a\x5a\x33\x49\xd9\x51\x66\x7a\x83\xc3\x7d\x61\x0b\x5b\x04\x4a\x22\x84\xaf\xe8\x98\xeb\xe3\xde\xab\x08\x81\x3a\x46\x9d\x35\x80", r: b"\x93\x9a\xbf\xaa\x57\x68\x5b\x08\x63\xcd\x0a\x33\xfc\xb6\xe7\xe2\xbd\x89\xf6\x4e\x1f\x5c\xdd\x52\x97\x0b\xed\x31\x2f\x47\x76\xa1", s: b"\x16\x80\x04\x4c\x7a\x75\x2a\x60\x80\x9a\x89\x27\xc5\x31\x6d\xd3\x5b\xe7\x14\xc7\x8c\x50\x91\x6b\xd7\x98\x20\xc3\x15\x74\x92\x4e", ok: false, what: "negated r" },
  Sig { q: b"\x04\xfc\x4a\xa6\x9b\x5b\x41\xeb\x13\x6d\xac\x0a\x59\xfb\x0f\xbd\x11\x89\x5f\xa4\x2c\xd2\x13\x56\xdb\xae\x77\xed\x9b\x73\xda\x01\x0b\x4a\x5a\x33\x49\xd9\x51\x66\x7a\x83\xc3\x7d\x61\x0b\x5b\x04\x4a\x22\x84\xaf\xe8\x98\xeb\xe3\xde\xab\x08\x81\x3a\x46\x9d\x35\x80", r: b"\x16\x80\x04\x4c\x7a\x75\x2a\x60\x80\x9a\x89\x27\xc5\x31\x6d\xd3\x5b\xe7\x14\xc7\x8c\x50\x91\x6b\xd7\x98\x20\xc3\x15\x74\x92\x4e", s: b"\x6c\x65\x40\x54\xa8\x97\xa4\xf8\x9c\x32\xf5\xcc\x03\x49\x18\x1c\xff\x5d\x04\x5f\x87\xba\xc1\x32\x5c\xad\xdd\x91\xcd\x1b\xae\xb0", ok: false, what: "swapped" },
  Sig { q: b"\x04\xfc\x4a\xa6\x9b\x5b\x41\xeb\x13\x6d\xac\x0a\x59\xfb\x0f\xbd\x11\x89\x5f\xa4\x2c\xd2\x13\x56\xdb\xae\x77\xed\x9b\x73\xda\x01\x0b\xb5\xa5\xcc\xb5\x26\xae\x99\x86\x7c\x3c\x82\x9e\xf4\xa4\xfb\xb5\xdd\x7b\x50\x18\x67\x14\x1c\x21\x54\xf7\x7e\xc5\xb9\x62\xca\x7f", r: b"\x6c\x65\x40\x54\xa8\x97\xa4\xf8\x9c\x32\xf5\xcc\x03\x49\x18\x1c\xff\x5d\x04\x5f\x87\xba\xc1\x32\x5c\xad\xdd\x91\xcd\x1b\xae\xb0", s: b"\x16\x80\x04\x4c\x7a\x75\x2a\x60\x80\x9a\x89\x27\xc5\x31\x6d\xd3\x5b\xe7\x14\xc7\x8c\x50\x91\x6b\xd7\x98\x20\xc3\x15\x74\x92\x4e", ok: false, what: "negated key" },
  Sig { q: b"\x04\xfc\x4a\xa6\x9b\x5b\x41\xeb\x13\x6d\xac\x0a\x59\xfb\x0f\xbd\x11\x89\x5f\xa4\x2c\xd2\x13\x56\xdb\xae\x77\xed\x9b\x73\xda\x01\x0b\x4a\x5a\x33\x49\xd9\x51\x66\x7a\x83\xc3\x7d\x61\x0b\x5b\x04\x4a\x22\x84\xaf\xe8\x98\xeb\xe3\xde\xab\x08\x81\x3a\x46\x9d\x35\x80", r: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", s: b"\x16\x80\x04\x4c\x7a\x75\x2a\x60\x80\x9a\x89\x27\xc5\x31\x6d\xd3\x5b\xe7\x14\xc7\x8c\x50\x91\x6b\xd7\x98\x20\xc3\x15\x74\x92\x4e", ok: false, what: "r=0" },
  Sig { q: b"\x04\xfc\x4a\xa6\x9b\x5b\x41\xeb\x13\x6d\xac\x0a\x59\xfb\x0f\xbd\x11\x89\x5f\xa4\x2c\xd2\x13\x56\xdb\xae\x77\xed\x9b\x73\xda\x01\x0b\x4a\x5a\x33\x49\xd9\x51\x66\x7a\x83\xc3\x7d\x61\x0b\x5b\x04\x4a\x22\x84\xaf\xe8\x98\xeb\xe3\xde\xab\x08\x81\x3a\x46\x9d\x35\x80", r: b"\x6c\x65\x40\x54\xa8\x97\xa4\xf8\x9c\x32\xf5\xcc\x03\x49\x18\x1c\xff\x5d\x04\x5f\x87\xba\xc1\x32\x5c\xad\xdd\x91\xcd\x1b\xae\xb0", s: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: false, what: "s=0" },
  Sig { q: b"\x04\xfc\x4a\xa6\x9b\x5b\x41\xeb\x13\x6d\xac\x0a\x59\xfb\x0f\xbd\x11\x89\x5f\xa4\x2c\xd2\x13\x56\xdb\xae\x77\xed\x9b\x73\xda\x01\x0b\x4a\x5a\x33\x49\xd9\x51\x66\x7a\x83\xc3\x7d\x61\x0b\x5b\x04\x4a\x22\x84\xaf\xe8\x98\xeb\xe3\xde\xab\x08\x81\x3a\x46\x9d\x35\x80", r: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", s: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: false, what: "r=s=0" },
  Sig { q: b"\x04\xfc\x4a\xa6\x9b\x5b\x41\xeb\x13\x6d\xac\x0a\x59\xfb\x0f\xbd\x11\x89\x5f\xa4\x2c\xd2\x13\x56\xdb\xae\x77\xed\x9b\x73\xda\x01\x0b\x4a\x5a\x33\x49\xd9\x51\x66\x7a\x83\xc3\x7d\x61\x0b\x5b\x04\x4a\x22\x84\xaf\xe8\x98\xeb\xe3\xde\xab\x08\x81\x3a\x46\x9d\x35\x80", r: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01", s: b"\x16\x80\x04\x4c\x7a\x75\x2a\x60\x80\x9a\x89\x27\xc5\x31\x6d\xd3\x5b\xe7\x14\xc7\x8c\x50\x91\x6b\xd7\x98\x20\xc3\x15\x74\x92\x4e", ok: false, what: "r=1" },
  Sig { q: b"\x04\xfc\x4a\xa6\x9b\x5b\x41\xeb\x13\x6d\xac\x0a\x59\xfb\x0f\xbd\x11\x89\x5f\xa4\x2c\xd2\x13\x56\xdb\xae\x77\xed\x9b\x73\xda\x01\x0b\x4a\x5a\x33\x49\xd9\x51\x66\x7a\x83\xc3\x7d\x61\x0b\x5b\x04\x4a\x22\x84\xaf\xe8\x98\xeb\xe3\xde\xab\x08\x81\x3a\x46\x9d\x35\x80", r: b"\x6c\x65\x40\x54\xa8\x97\xa4\xf8\x9c\x32\xf5\xcc\x03\x49\x18\x1c\xff\x5d\x04\x5f\x87\xba\xc1\x32\x5c\xad\xdd\x91\xcd\x1b\xae\xb0", s: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01", ok: false, what: "s=1" },
  Sig { q: b"\x04\xfc\x4a\xa6\x9b\x5b\x41\xeb\x13\x6d\xac\x0a\x59\xfb\x0f\xbd\x11\x89\x5f\xa4\x2c\xd2\x13\x56\xdb\xae\x77\xed\x9b\x73\xda\x01\x0b\x4a\x5a\x33\x49\xd9\x51\x66\x7a\x83\xc3\x7d\x61\x0b\x5b\x04\x4a\x22\x84\xaf\xe8\x98\xeb\xe3\xde\xab\x08\x81\x3a\x46\x9d\x35\x80", r: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01", s: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01", ok: false, what: "r=s=1" },
  Sig { q: b"\x04\xfc\x4a\xa6\x9b\x5b\x41\xeb\x13\x6d\xac\x0a\x59\xfb\x0f\xbd\x11\x89\x5f\xa4\x2c\xd2\x13\x56\xdb\xae\x77\xed\x9b\x73\xda\x01\x0b\x4a\x5a\x33\x49\xd9\x51\x66\x7a\x83\xc3\x7d\x61\x0b\x5b\x04\x4a\x22\x84\xaf\xe8\x98\xeb\xe3\xde\xab\x08\x81\x3a\x46\x9d\x35\x80", r: b"\xff\xff\xff\xff\x00\x00\x00\x00\xff\xff\xff\xff\xff\xff\xff\xff\xbc\xe6\xfa\xad\xa7\x17\x9e\x84\xf3\xb9\xca\xc2\xfc\x63\x25\x50", s: b"\x16\x80\x04\x4c\x7a\x75\x2a\x60\x80\x9a\x89\x27\xc5\x31\x6d\xd3\x5b\xe7\x14\xc7\x8c\x50\x91\x6b\xd7\x98\x20\xc3\x15\x74\x92\x4e", ok: false, what: "r=ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632550" },
  Sig { q: b"\x04\xfc\x4a\xa6\x9b\x5b\x41\xeb\x13\x6d\xac\x0a\x59\xfb\x0f\xbd\x11\x89\x5f\xa4\x2c\xd2\x13\x56\xdb\xae\x77\xed\x9b\x73\xda\x01\x0b\x4a\x5a\x33\x49\xd9\x51\x66\x7a\x83\xc3\x7d\x61\x0b\x5b\x04\x4a\x22\x84\xaf\xe8\x98\xeb\xe3\xde\xab\x08\x81\x3a\x46\x9d\x35\x80", r: b"\x6c\x65\x40\x54\xa8\x97\xa4\xf8\x9c\x32\xf5\xcc\x03\x49\x18\x1c\xff\x5d\x04\x5f\x87\xba\xc1\x32\x5c\xad\xdd\x91\xcd\x1b\xae\xb0", s: b"\xff\xff\xff\xff\x00\x00\x00\x00\xff\xff\xff\xff\xff\xff\xff\xff\xbc\xe6\xfa\xad\xa7\x17\x9e\x84\xf3\xb9\xca\xc2\xfc\x63\x25\x50", ok: false, what: "s=ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632550" },
  Sig { q: b"\x04\xfc\x4a\xa6\x9b\x5b\x41\xeb\x13\x6d\xac\x0a\x59\xfb\x0f\xbd\x11\x89\x5f\xa4\x2c\xd2\x13\x56\xdb\xae\x77\xed\x9b\x73\xda\x01\x0b\x4a\x5a\x33\x49\xd9\x51\x66\x7a\x83\xc3\x7d\x61\x0b\x5b\x04\x4a\x22\x84\xaf\xe8\x98\xeb\xe3\xde\xab\x08\x81\x3a\x46\x9d\x35\x80", r: b"\xff\xff\xff\xff\x00\x00\x00\x00\xff\xff\xff\xff\xff\xff\xff\xff\xbc\xe6\xfa\xad\xa7\x17\x9e\x84\xf3\xb9\xca\xc2\xfc\x63\x25\x50", s: b"\xff\xff\xff\xff\x00\x00\x00\x00\xff\xff\xff\xff\xff\xff\xff\xff\xbc\xe6\xfa\xad\xa7\x17\x9e\x84\xf3\xb9\xca\xc2\xfc\x63\x25\x50", ok: false, what: "r=s=ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632550" },
  Sig { q: b"\x04\xfc\x4a\xa6\x9b\x5b\x41\xeb\x13\x6d\xac\x0a\x59\xfb\x0f\xbd\x11\x89\x5f\xa4\x2c\xd2\x13\x56\xdb\xae\x77\xed\x9b\x73\xda\x01\x0b\x4a\x5a\x33\x49\xd9\x51\x66\x7a\x83\xc3\x7d\x61\x0b\x5b\x04\x4a\x22\x84\xaf\xe8\x98\xeb\xe3\xde\xab\x08\x81\x3a\x46\x9d\x35\x80", r: b"\xff\xff\xff\xff\x00\x00\x00\x00\xff\xff\xff\xff\xff\xff\xff\xff\xbc\xe6\xfa\xad\xa7\x17\x9e\x84\xf3\xb9\xca\xc2\xfc\x63\x25\x51", s: b"\x16\x80\x04\x4c\x7a\x75\x2a\x60\x80\x9a\x89\x27\xc5\x31\x6d\xd3\x5b\xe7\x14\xc7\x8c\x50\x91\x6b\xd7\x98\x20\xc3\x15\x74\x92\x4e", ok: false, what: "r=ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551" },
  Sig { q: b"\x04\xfc\x4a\xa6\x9b\x5b\x41\xeb\x13\x6d\xac\x0a\x59\xfb\x0f\xbd\x11\x89\x5f\xa4\x2c\xd2\x13\x56\xdb\xae\x77\xed\x9b\x73\xda\x01\x0b\x4a\x5a\x33\x49\xd9\x51\x66\x7a\x83\xc3\x7d\x61\x0b\x5b\x04\x4a\x22\x84\xaf\xe8\x98\xeb\xe3\xde\xab\x08\x81\x3a\x46\x9d\x35\x80", r: b"\x6c\x65\x40\x54\xa8\x97\xa4\xf8\x9c\x32\xf5\xcc\x03\x49\x18\x1c\xff\x5d\x04\x5f\x87\xba\xc1\x32\x5c\xad\xdd\x91\xcd\x1b\xae\xb0", s: b"\xff\xff\xff\xff\x00\x00\x00\x00\xff\xff\xff\xff\xff\xff\xff\xff\xbc\xe6\xfa\xad\xa7\x17\x9e\x84\xf3\xb9\xca\xc2\xfc\x63\x25\x51", ok: false, what: "s=ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551" },
  Sig { q: b"\x04\xfc\x4a\xa6\x9b\x5b\x41\xeb\x13\x6d\xac\x0a\x59\xfb\x0f\xbd\x11\x89\x5f\xa4\x2c\xd2\x13\x56\xdb\xae\x77\xed\x9b\x73\xda\x01\x0b\x4a\x5a\x33\x49\xd9\x51\x66\x7a\x83\xc3\x7d\x61\x0b\x5b\x04\x4a\x22\x84\xaf\xe8\x98\xeb\xe3\xde\xab\x08\x81\x3a\x46\x9d\x35\x80", r: b"\xff\xff\xff\xff\x00\x00\x00\x00\xff\xff\xff\xff\xff\xff\xff\xff\xbc\xe6\xfa\xad\xa7\x17\x9e\x84\xf3\xb9\xca\xc2\xfc\x63\x25\x51", s: b"\xff\xff\xff\xff\x00\x00\x00\x00\xff\xff\xff\xff\xff\xff\xff\xff\xbc\xe6\xfa\xad\xa7\x17\x9e\x84\xf3\xb9\xca\xc2\xfc\x63\x25\x51", ok: false, what: "r=s=ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551" },
  Sig { q: b"\x04\xfc\x4a\xa6\x9b\x5b\x41\xeb\x13\x6d\xac\x0a\x59\xfb\x0f\xbd\x11\x89\x5f\xa4\x2c\xd2\x13\x56\xdb\xae\x77\xed\x9b\x73\xda\x01\x0b\x4a\x5a\x33\x49\xd9\x51\x66\x7a\x83\xc3\x7d\x61\x0b\x5b\x04\x4a\x22\x84\xaf\xe8\x98\xeb\xe3\xde\xab\x08\x81\x3a\x46\x9d\x35\x80", r: b"\xff\xff\xff\xff\x00\x00\x00\x00\xff\xff\xff\xff\xff\xff\xff\xff\xbc\xe6\xfa\xad\xa7\x17\x9e\x84\xf3\xb9\xca\xc2\xfc\x63\x25\x52", s: b"\x16\x80\x04\x4c\x7a\x75\x2a\x60\x80\x9a\x89\x27\xc5\x31\x6d\xd3\x5b\xe7\x14\xc7\x8c\x50\x91\x6b\xd7\x98\x20\xc3\x15\x74\x92\x4e", ok: false, what: "r=ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632552" },
  Sig { q: b"\x04\xfc\x4a\xa6\x9b\x5b\x41\xeb\x13\x6d\xac\x0a\x59\xfb\x0f\xbd\x11\x89\x5f\xa4\x2c\xd2\x13\x56\xdb\xae\x77\xed\x9b\x73\xda\x01\x0b\x4a\x5a\x33\x49\xd9\x51\x66\x7a\x83\xc3\x7d\x61\x0b\x5b\x04\x4a\x22\x84\xaf\xe8\x98\xeb\xe3\xde\xab\x08\x81\x3a\x46\x9d\x35\x80", r: b"\x6c\x65\x40\x54\xa8\x97\xa4\xf8\x9c\x32\xf5\xcc\x03\x49\x18\x1c\xff\x5d\x04\x5f\x87\xba\xc1\x32\x5c\xad\xdd\x91\xcd\x1b\xae\xb0", s: b"\xff\xff\xff\xff\x00\x00\x00\x00\xff\xff\xff\xff\xff\xff\xff\xff\xbc\xe6\xfa\xad\xa7\x17\x9e\x84\xf3\xb9\xca\xc2\xfc\x63\x25\x52", ok: false, what: "s=ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632552" },
  Sig { q: b"\x04\xfc\x4a\xa6\x9b\x5b\x41\xeb\x13\x6d\xac\x0a\x59\xfb\x0f\xbd\x11\x89\x5f\xa4\x2c\xd2\x13\x56\xdb\xae\x77\xed\x9b\x73\xda\x01\x0b\x4a\x5a\x33\x49\xd9\x51\x66\x7a\x83\xc3\x7d\x61\x0b\x5b\x04\x4a\x22\x84\xaf\xe8\x98\xeb\xe3\xde\xab\x08\x81\x3a\x46\x9d\x35\x80", r: b"\xff\xff\xff\xff\x00\x00\x00\x00\xff\xff\xff\xff\xff\xff\xff\xff\xbc\xe6\xfa\xad\xa7\x17\x9e\x84\xf3\xb9\xca\xc2\xfc\x63\x25\x52", s: b"\xff\xff\xff\xff\x00\x00\x00\x00\xff\xff\xff\xff\xff\xff\xff\xff\xbc\xe6\xfa\xad\xa7\x17\x9e\x84\xf3\xb9\xca\xc2\xfc\x63\x25\x52", ok: false, what: "r=s=ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632552" },
  Sig { q: b"\x04\xfc\x4a\xa6\x9b\x5b\x41\xeb\x13\x6d\xac\x0a\x59\xfb\x0f\xbd\x11\x89\x5f\xa4\x2c\xd2\x13\x56\xdb\xae\x77\xed\x9b\x73\xda\x01\x0b\x4a\x5a\x33\x49\xd9\x51\x66\x7a\x83\xc3\x7d\x61\x0b\x5b\x04\x4a\x22\x84\xaf\xe8\x98\xeb\xe3\xde\xab\x08\x81\x3a\x46\x9d\x35\x80", r: b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff", s: b"\x16\x80\x04\x4c\x7a\x75\x2a\x60\x80\x9a\x89\x27\xc5\x31\x6d\xd3\x5b\xe7\x14\xc7\x8c\x50\x91\x6b\xd7\x98\x20\xc3\x15\x74\x92\x4e", ok: false, what: "r=ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff" },
  Sig { q: b"\x04\xfc\x4a\xa6\x9b\x5b\x41\xeb\x13\x6d\xac\x0a\x59\xfb\x0f\xbd\x11\x89\x5f\xa4\x2c\xd2\x13\x56\xdb\xae\x77\xed\x9b\x73\xda\x01\x0b\x4a\x5a\x33\x49\xd9\x51\x66\x7a\x83\xc3\x7d\x61\x0b\x5b\x04\x4a\x22\x84\xaf\xe8\x98\xeb\xe3\xde\xab\x08\x81\x3a\x46\x9d\x35\x80", r: b"\x6c\x65\x40\x54\xa8\x97\xa4\xf8\x9c\x32\xf5\xcc\x03\x49\x18\x1c\xff\x5d\x04\x5f\x87\xba\xc1\x32\x5c\xad\xdd\x91\xcd\x1b\xae\xb0", s: b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff", ok: false, what: "s=ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff" },
  Sig { q: b"\x04\xfc\x4a\xa6\x9b\x5b\x41\xeb\x13\x6d\xac\x0a\x59\xfb\x0f\xbd\x11\x89\x5f\xa4\x2c\xd2\x13\x56\xdb\xae\x77\xed\x9b\x73\xda\x01\x0b\x4a\x5a\x33\x49\xd9\x51\x66\x7a\x83\xc3\x7d\x61\x0b\x5b\x04\x4a\x22\x84\xaf\xe8\x98\xeb\xe3\xde\xab\x08\x81\x3a\x46\x9d\x35\x80", r: b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff", s: b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff", ok: false, what: "r=s=ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff" },
  Sig { q: b"\x04\xc5\x7f\x95\x3a\x73\xae\x15\x01\x74\xed\xe0\x9a\xa1\xac\x43\x0f\x3d\x47\x8b\xd8\xd8\x35\xcb\x39\x91\x6e\xc8\xc0\xa0\x9a\x62\xf0\x14\x8a\xf9\x88\x69\x0c\xd4\x16\xa9\xc8\xeb\x78\x55\x71\x5a\xd0\x34\xf5\x3b\xe8\x05\x28\x1e\x5d\x43\xd9\x58\xc9\xc7\x4b\xed\xc9", r: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x05", s: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01\x23\x45\x67", ok: true, what: "small r" },
  Sig { q: b"\x04\xc5\x7f\x95\x3a\x73\xae\x15\x01\x74\xed\xe0\x9a\xa1\xac\x43\x0f\x3d\x47\x8b\xd8\xd8\x35\xcb\x39\x91\x6e\xc8\xc0\xa0\x9a\x62\xf0\x14\x8a\xf9\x88\x69\x0c\xd4\x16\xa9\xc8\xeb\x78\x55\x71\x5a\xd0\x34\xf5\x3b\xe8\x05\x28\x1e\x5d\x43\xd9\x58\xc9\xc7\x4b\xed\xc9", r: b"\xff\xff\xff\xff\x00\x00\x00\x00\xff\xff\xff\xff\xff\xff\xff\xff\xbc\xe6\xfa\xad\xa7\x17\x9e\x84\xf3\xb9\xca\xc2\xfc\x63\x25\x56", s: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01\x23\x45\x67", ok: false, what: "small r plus n" },
  Sig { q: b"\x04\xc5\x7f\x95\x3a\x73\xae\x15\x01\x74\xed\xe0\x9a\xa1\xac\x43\x0f\x3d\x47\x8b\xd8\xd8\x35\xcb\x39\x91\x6e\xc8\xc0\xa0\x9a\x62\xf0\x14\x8a\xf9\x88\x69\x0c\xd4\x16\xa9\xc8\xeb\x78\x55\x71\x5a\xd0\x34\xf5\x3b\xe8\x05\x28\x1e\x5d\x43\xd9\x58\xc9\xc7\x4b\xed\xc9", r: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x05", s: b"\xff\xff\xff\xff\x00\x00\x00\x00\xff\xff\xff\xff\xff\xff\xff\xff\xbc\xe6\xfa\xad\xa7\x17\x9e\x84\xf3\xb9\xca\xc2\xfd\x86\x6a\xb8", ok: false, what: "small s plus n" },
  Sig { q: b"\x04\x90\x02\xc1\xe8\xf4\xb8\x8c\x57\xdc\xf4\x3a\x47\x03\x20\x02\x89\x98\xdf\xbb\xd2\x72\x54\x8f\xb5\x70\x46\x52\xe5\x48\x5f\x47\x4d\xf6\x72\x93\x64\x54\x3c\x38\x0a\x4f\x98\x33\x73\xc9\x4b\x60\x10\xe8\xaf\xd8\x75\x33\x73\x68\x10\xcb\xa7\x3c\x41\x3a\x69\x71\xdb", r: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x03", s: b"\x16\x80\x04\x4c\x7a\x75\x2a\x60\x80\x9a\x89\x27\xc5\x31\x6d\xd3\x5b\xe7\x14\xc7\x8c\x50\x91\x6b\xd7\x98\x20\xc3\x15\x74\x92\x4e", ok: true, what: "x(R) above n" },
  Sig { q: b"\x04\x90\x02\xc1\xe8\xf4\xb8\x8c\x57\xdc\xf4\x3a\x47\x03\x20\x02\x89\x98\xdf\xbb\xd2\x72\x54\x8f\xb5\x70\x46\x52\xe5\x48\x5f\x47\x4d\xf6\x72\x93\x64\x54\x3c\x38\x0a\x4f\x98\x33\x73\xc9\x4b\x60\x10\xe8\xaf\xd8\x75\x33\x73\x68\x10\xcb\xa7\x3c\x41\x3a\x69\x71\xdb", r: b"\xff\xff\xff\xff\x00\x00\x00\x00\xff\xff\xff\xff\xff\xff\xff\xff\xbc\xe6\xfa\xad\xa7\x17\x9e\x84\xf3\xb9\xca\xc2\xfc\x63\x25\x54", s: b"\x16\x80\x04\x4c\x7a\x75\x2a\x60\x80\x9a\x89\x27\xc5\x31\x6d\xd3\x5b\xe7\x14\xc7\x8c\x50\x91\x6b\xd7\x98\x20\xc3\x15\x74\x92\x4e", ok: false, what: "x(R) itself as r" },
  Sig { q: b"\x04\x69\x89\x4d\xeb\x5c\x58\x06\xea\x11\xca\x29\x29\x29\x0b\xd7\x47\x9e\x18\x81\xaa\x52\x95\x40\x41\xe0\xcd\x48\x3d\xff\xfc\x45\xd9\x44\xb1\xa7\x8e\x88\x29\x93\xf9\x08\x68\x21\x49\xcd\xd3\xb5\x45\x8c\xf4\xc7\x31\x13\x28\xda\x68\x47\x1b\xbf\x65\x32\xe9\xf0\x22", r: b"\x6c\x65\x40\x54\xa8\x97\xa4\xf8\x9c\x32\xf5\xcc\x03\x49\x18\x1c\xff\x5d\x04\x5f\x87\xba\xc1\x32\x5c\xad\xdd\x91\xcd\x1b\xae\xb0", s: b"\x16\x80\x04\x4c\x7a\x75\x2a\x60\x80\x9a\x89\x27\xc5\x31\x6d\xd3\x5b\xe7\x14\xc7\x8c\x50\x91\x6b\xd7\x98\x20\xc3\x15\x74\x92\x4e", ok: false, what: "R at infinity" },
  Sig { q: b"\x04\x6b\x17\xd1\xf2\xe1\x2c\x42\x47\xf8\xbc\xe6\xe5\x63\xa4\x40\xf2\x77\x03\x7d\x81\x2d\xeb\x33\xa0\xf4\xa1\x39\x45\xd8\x98\xc2\x96\xb0\x1c\xbd\x1c\x01\xe5\x80\x65\x71\x18\x14\xb5\x83\xf0\x61\xe9\xd4\x31\xcc\xa9\x94\xce\xa1\x31\x34\x49\xbf\x97\xc8\x40\xae\x0a", r: b"\x74\x1a\x99\x5b\xf7\xa3\xc8\xe7\x25\xc5\xb0\xc5\x00\xbb\x7a\x4e\x24\xc6\x69\x41\x4c\x54\x05\xe5\xcd\xca\x7d\x92\x8c\x08\x8d\xee", s: b"\x16\x80\x04\x4c\x7a\x75\x2a\x60\x80\x9a\x89\x27\xc5\x31\x6d\xd3\x5b\xe7\x14\xc7\x8c\x50\x91\x6b\xd7\x98\x20\xc3\x15\x74\x92\x4e", ok: false, what: "R at infinity" },
  Sig { q: b"\x04\xc5\xa2\xfd\x49\x18\x7f\x1d\x4d\xa0\x67\xfa\xc5\x9d\x5f\x68\x91\x14\xe0\x02\xdc\x4d\x30\x90\xbc\x55\x65\x51\xca\x1f\x17\xb9\xec\x6f\x94\x62\x37\xe3\x2e\x58\xe4\x76\x2c\xa5\x6b\xf5\xa7\x8f\xa2\x05\x20\x38\xc0\x66\x89\x79\x7e\x57\x02\x25\x53\x1f\x11\x05\x77", r: b"\x54\xe7\x7a\x00\x1c\x38\x62\xb9\x7a\x76\x64\x7f\x43\x36\xdf\x3c\xf1\x26\xac\xbe\x7a\x06\x9c\x5e\x57\x09\x27\x73\x24\xd2\x92\x0b", s: b"\xec\x03\xcc\xc3\x23\x60\x8a\x6b\x05\x65\x62\x65\x49\x3f\x5a\x9d\x39\x74\x9c\xc2\xbe\xb2\x88\xb7\x5c\x05\x52\x05\x35\x7a\xc6\x8c", ok: true, what: "doubling" },
  Sig { q: b"\x04\x6b\x17\xd1\xf2\xe1\x2c\x42\x47\xf8\xbc\xe6\xe5\x63\xa4\x40\xf2\x77\x03\x7d\x81\x2d\xeb\x33\xa0\xf4\xa1\x39\x45\xd8\x98\xc2\x96\x4f\xe3\x42\xe2\xfe\x1a\x7f\x9b\x8e\xe7\xeb\x4a\x7c\x0f\x9e\x16\x2b\xce\x33\x57\x6b\x31\x5e\xce\xcb\xb6\x40\x68\x37\xbf\x51\xf5", r: b"\x6c\x65\x40\x54\xa8\x97\xa4\xf8\x9c\x32\xf5\xcc\x03\x49\x18\x1c\xff\x5d\x04\x5f\x87\xba\xc1\x32\x5c\xad\xdd\x91\xcd\x1b\xae\xb0", s: b"\x5d\xb4\xc5\xb3\x8d\xbc\xd0\x37\xb7\x43\xe1\x32\xef\x8c\x8a\x2e\x4c\x09\xd8\x1f\x9c\xd4\xa3\x1b\x11\x0a\xc6\x0e\x71\xf1\x50\xc5", ok: true, what: "key G" },
  Sig { q: b"\x04\x7c\xf2\x7b\x18\x8d\x03\x4f\x7e\x8a\x52\x38\x03\x04\xb5\x1a\xc3\xc0\x89\x69\xe2\x77\xf2\x1b\x35\xa6\x0b\x48\xfc\x47\x66\x99\x78\x07\x77\x55\x10\xdb\x8e\xd0\x40\x29\x3d\x9a\xc6\x9f\x74\x30\xdb\xba\x7d\xad\xe6\x3c\xe9\x82\x29\x9e\x04\xb7\x9d\x22\x78\x73\xd1", r: b"\x6c\x65\x40\x54\xa8\x97\xa4\xf8\x9c\x32\xf5\xcc\x03\x49\x18\x1c\xff\x5d\x04\x5f\x87\xba\xc1\x32\x5c\xad\xdd\x91\xcd\x1b\xae\xb0", s: b"\xba\xe8\xf0\x36\x41\x6b\xec\x0b\x66\xee\x93\xd5\x95\x58\xb8\xbd\x3b\x9e\x55\x89\x99\x8d\xc1\xe9\xdd\xdc\x4f\xda\xdb\x2c\x2f\x7a", ok: true, what: "key 2G" },
  Sig { q: b"\x04\x6b\x17\xd1\xf2\xe1\x2c\x42\x47\xf8\xbc\xe6\xe5\x63\xa4\x40\xf2\x77\x03\x7d\x81\x2d\xeb\x33\xa0\xf4\xa1\x39\x45\xd8\x98\xc2\x96\xb0\x1c\xbd\x1c\x01\xe5\x80\x65\x71\x18\x14\xb5\x83\xf0\x61\xe9\xd4\x31\xcc\xa9\x94\xce\xa1\x31\x34\x49\xbf\x97\xc8\x40\xae\x0a", r: b"\x6c\x65\x40\x54\xa8\x97\xa4\xf8\x9c\x32\xf5\xcc\x03\x49\x18\x1c\xff\x5d\x04\x5f\x87\xba\xc1\x32\x5c\xad\xdd\x91\xcd\x1b\xae\xb0", s: b"\xa3\x4c\x70\xad\x26\x5e\x98\x91\x57\xee\x7b\xed\xa3\xf4\x2d\x10\x29\xc7\xd7\xf9\x4a\x7a\x04\x02\x6b\x21\x7d\x38\x9b\xde\xb8\xac", ok: true, what: "key -G" },
  Sig { q: b"\x04\x2a\xfa\x38\x6b\x3f\x2b\xdc\xdb\x83\xf4\xd8\x3f\x8f\xa3\x87\x4d\x7b\x74\xdc\xb4\x54\xbd\x64\x4f\xdd\x6b\xf3\xd1\xf2\xda\x8d\xb6\x8d\xe7\xb4\x1d\x35\x57\xa9\xcc\x9d\x4a\xc9\x0e\xf7\xad\x29\x9a\x51\x75\x9b\x03\x0e\x14\x72\xb3\x6b\x95\x2a\x76\x86\x90\x8d\x63", r: b"\x6c\x65\x40\x54\xa8\x97\xa4\xf8\x9c\x32\xf5\xcc\x03\x49\x18\x1c\xff\x5d\x04\x5f\x87\xba\xc1\x32\x5c\xad\xdd\x91\xcd\x1b\xae\xb0", s: b"\xaf\x1a\xb0\x71\xb3\xe5\x42\x4e\x5f\x6e\x87\xe1\x9c\xa6\x72\xe6\xb2\xb3\x16\xc1\x72\x03\xe2\xf6\x24\x7e\xe6\x89\xbb\x85\x74\x13", ok: true, what: "key G/2" },
  Sig { q: b"\x04\xfc\x4a\xa6\x9b\x5b\x41\xeb\x13\x6d\xac\x0a\x59\xfb\x0f\xbd\x11\x89\x5f\xa4\x2c\xd2\x13\x56\xdb\xae\x77\xed\x9b\x73\xda\x01\x0b\x4a\x5a\x33\x49\xd9\x51\x66\x7a\x83\xc3\x7d\x61\x0b\x5b\x04\x4a\x22\x84\xaf\xe8\x98\xeb\xe3\xde\xab\x08\x81\x3a\x46\x9d\x35\x80", r: b"\x6b\x17\xd1\xf2\xe1\x2c\x42\x47\xf8\xbc\xe6\xe5\x63\xa4\x40\xf2\x77\x03\x7d\x81\x2d\xeb\x33\xa0\xf4\xa1\x39\x45\xd8\x98\xc2\x96", s: b"\xe9\x72\xd6\xe9\x1b\x8c\xa1\x6a\xdb\x88\x5a\x89\x77\x92\x71\xb7\xc6\xa8\x0a\x00\x80\x86\x2e\xa0\xd5\xe3\xb1\x8f\xd2\xae\xd6\xe2", ok: true, what: "nonce 1" },
  Sig { q: b"\x04\xfc\x4a\xa6\x9b\x5b\x41\xeb\x13\x6d\xac\x0a\x59\xfb\x0f\xbd\x11\x89\x5f\xa4\x2c\xd2\x13\x56\xdb\xae\x77\xed\x9b\x73\xda\x01\x0b\x4a\x5a\x33\x49\xd9\x51\x66\x7a\x83\xc3\x7d\x61\x0b\x5b\x04\x4a\x22\x84\xaf\xe8\x98\xeb\xe3\xde\xab\x08\x81\x3a\x46\x9d\x35\x80", r: b"\x7c\xf2\x7b\x18\x8d\x03\x4f\x7e\x8a\x52\x38\x03\x04\xb5\x1a\xc3\xc0\x89\x69\xe2\x77\xf2\x1b\x35\xa6\x0b\x48\xfc\x47\x66\x99\x78", s: b"\xbc\x21\x38\x13\xd0\xc4\xc5\xc0\x8e\xc8\x93\xdb\x99\xb1\x0e\xbb\xc1\xb3\x3c\xf2\xff\x09\xcb\xc9\x0f\xab\xbc\x63\x5a\xc2\x8e\x52", ok: true, what: "nonce 2" },
  Sig { q: b"\x04\xfc\x4a\xa6\x9b\x5b\x41\xeb\x13\x6d\xac\x0a\x59\xfb\x0f\xbd\x11\x89\x5f\xa4\x2c\xd2\x13\x56\xdb\xae\x77\xed\x9b\x73\xda\x01\x0b\x4a\x5a\x33\x49\xd9\x51\x66\x7a\x83\xc3\x7d\x61\x0b\x5b\x04\x4a\x22\x84\xaf\xe8\x98\xeb\xe3\xde\xab\x08\x81\x3a\x46\x9d\x35\x80", r: b"\x5e\xcb\xe4\xd1\xa6\x33\x0a\x44\xc8\xf7\xef\x95\x1d\x4b\xf1\x65\xe6\xc6\xb7\x21\xef\xad\xa9\x85\xfb\x41\x66\x1b\xc6\xe7\xfd\x6c", s: b"\x7b\x1b\x07\x74\x51\xda\x94\xee\x6b\x85\x00\x21\xac\x30\x2d\x6d\x8f\xbd\x7b\x67\x1f\x52\x28\x4e\xb7\xf5\xa7\x5b\xa2\x39\x09\xbd", ok: true, what: "nonce 3" },
  Sig { q: b"\x04\xfc\x4a\xa6\x9b\x5b\x41\xeb\x13\x6d\xac\x0a\x59\xfb\x0f\xbd\x11\x89\x5f\xa4\x2c\xd2\x13\x56\xdb\xae\x77\xed\x9b\x73\xda\x01\x0b\x4a\x5a\x33\x49\xd9\x51\x66\x7a\x83\xc3\x7d\x61\x0b\x5b\x04\x4a\x22\x84\xaf\xe8\x98\xeb\xe3\xde\xab\x08\x81\x3a\x46\x9d\x35\x80", r: b"\x6b\x17\xd1\xf2\xe1\x2c\x42\x47\xf8\xbc\xe6\xe5\x63\xa4\x40\xf2\x77\x03\x7d\x81\x2d\xeb\x33\xa0\xf4\xa1\x39\x45\xd8\x98\xc2\x96", s: b"\x16\x8d\x29\x15\xe4\x73\x5e\x96\x24\x77\xa5\x76\x88\x6d\x8e\x47\xf6\x3e\xf0\xad\x26\x91\x6f\xe4\x1d\xd6\x19\x33\x29\xb4\x4e\x6f", ok: true, what: "nonce ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632550" },
  Sig { q: b"\x04\xfc\x4a\xa6\x9b\x5b\x41\xeb\x13\x6d\xac\x0a\x59\xfb\x0f\xbd\x11\x89\x5f\xa4\x2c\xd2\x13\x56\xdb\xae\x77\xed\x9b\x73\xda\x01\x0b\x4a\x5a\x33\x49\xd9\x51\x66\x7a\x83\xc3\x7d\x61\x0b\x5b\x04\x4a\x22\x84\xaf\xe8\x98\xeb\xe3\xde\xab\x08\x81\x3a\x46\x9d\x35\x80", r: b"\x7c\xf2\x7b\x18\x8d\x03\x4f\x7e\x8a\x52\x38\x03\x04\xb5\x1a\xc3\xc0\x89\x69\xe2\x77\xf2\x1b\x35\xa6\x0b\x48\xfc\x47\x66\x99\x78", s: b"\x43\xde\xc7\xeb\x2f\x3b\x3a\x40\x71\x37\x6c\x24\x66\x4e\xf1\x43\xfb\x33\xbd\xba\xa8\x0d\xd2\xbb\xe4\x0e\x0e\x5f\xa1\xa0\x96\xff", ok: true, what: "nonce ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc63254f" },
  Sig { q: b"\x04\xfc\x4a\xa6\x9b\x5b\x41\xeb\x13\x6d\xac\x0a\x59\xfb\x0f\xbd\x11\x89\x5f\xa4\x2c\xd2\x13\x56\xdb\xae\x77\xed\x9b\x73\xda\x01\x0b\x4a\x5a\x33\x49\xd9\x51\x66\x7a\x83\xc3\x7d\x61\x0b\x5b\x04\x4a\x22\x84\xaf\xe8\x98\xeb\xe3\xde\xab\x08\x81\x3a\x46\x9d\x35\x80", r: b"\x2a\xfa\x38\x6b\x3f\x2b\xdc\xdb\x83\xf4\xd8\x3f\x8f\xa3\x87\x4d\x7b\x74\xdc\xb4\x54\xbd\x64\x4f\xdd\x6b\xf3\xd1\xf2\xda\x8d\xb6", s: b"\x71\x93\xda\xbc\xe2\xf2\x74\xbd\xdd\xb8\x55\x6e\xed\x52\xfa\x08\xc9\x23\xd2\xaa\xd2\x38\x5c\x6b\xa8\xbc\x24\xde\xbc\xba\xc3\xa3", ok: true, what: "nonce 7fffffff800000007fffffffffffffffde737d56d38bcf4279dce5617e3192a9" },
  Sig { q: b"\x04\xfc\x4a\xa6\x9b\x5b\x41\xeb\x13\x6d\xac\x0a\x59\xfb\x0f\xbd\x11\x89\x5f\xa4\x2c\xd2\x13\x56\xdb\xae\x77\xed\x9b\x73\xda\x01\x0b\x4a\x5a\x33\x49\xd9\x51\x66\x7a\x83\xc3\x7d\x61\x0b\x5b\x04\x4a\x22\x84\xaf\xe8\x98\xeb\xe3\xde\xab\x08\x81\x3a\x46\x9d\x35\x80", r: b"\x76\xa9\x4d\x13\x8a\x6b\x41\x85\x8b\x82\x1c\x62\x98\x36\x31\x5f\xcd\x28\x39\x2e\xff\x6c\xa0\x38\xa5\xeb\x47\x87\xe1\x27\x7c\x6e", s: b"\x83\x56\x98\x29\x7c\x25\x43\xde\x3d\x2d\x50\x1c\xb6\x73\x3e\x9f\x65\xd3\x65\x49\x1c\x96\xab\xe1\xad\x6e\x7c\xee\xe9\xda\x63\xa8", ok: true, what: "nonce 10" },
  Sig { q: b"\x04\xfc\x4a\xa6\x9b\x5b\x41\xeb\x13\x6d\xac\x0a\x59\xfb\x0f\xbd\x11\x89\x5f\xa4\x2c\xd2\x13\x56\xdb\xae\x77\xed\x9b\x73\xda\x01\x0b\x4a\x5a\x33\x49\xd9\x51\x66\x7a\x83\xc3\x7d\x61\x0b\x5b\x04\x4a\x22\x84\xaf\xe8\x98\xeb\xe3\xde\xab\x08\x81\x3a\x46\x9d\x35\x80", r: b"\x30\x1d\x9e\x50\x2d\xc7\xe0\x5d\xa8\x5d\xa0\x26\xa7\xae\x9a\xa0\xfa\xc9\xdb\x7d\x52\xa9\x5b\x3e\x3e\x3f\x9a\xa0\xa1\xb4\x5b\x8b", s: b"\xb6\x82\x8b\xd4\x36\x93\xbf\x2c\x82\x5a\xa0\x7a\xa0\x5b\x0d\xe4\xdf\x3c\x9b\xe2\x89\xbf\xce\x95\xff\xec\x02\xee\xa5\x79\xa4\x55", ok: true, what: "nonce 1f" },
  Sig { q: b"\x04\xfc\x4a\xa6\x9b\x5b\x41\xeb\x13\x6d\xac\x0a\x59\xfb\x0f\xbd\x11\x89\x5f\xa4\x2c\xd2\x13\x56\xdb\xae\x77\xed\x9b\x73\xda\x01\x0b\x4a\x5a\x33\x49\xd9\x51\x66\x7a\x83\xc3\x7d\x61\x0b\x5b\x04\x4a\x22\x84\xaf\xe8\x98\xeb\xe3\xde\xab\x08\x81\x3a\x46\x9d\x35\x80", r: b"\x23\x77\xc7\xd6\x90\xa2\x42\xca\x6c\x45\x07\x4e\x8e\xa5\xbe\xef\xaa\x55\x7f\xd5\xb6\x83\x71\xd9\xd1\x47\x5b\xd5\x2a\x7e\xd0\xe1", s: b"\xe1\xe0\x0b\xdc\xd2\xc6\x5c\x91\xef\xe4\x70\x9d\xcc\x3a\x81\x30\x15\xc5\xb8\xe2\x66\xcd\xce\x5f\x6d\x27\x99\xd8\xd4\x6e\x74\x3c", ok: true, what: "nonce 20" },
  Sig { q: b"\x04\xfc\x4a\xa6\x9b\x5b\x41\xeb\x13\x6d\xac\x0a\x59\xfb\x0f\xbd\x11\x89\x5f\xa4\x2c\xd2\x13\x56\xdb\xae\x77\xed\x9b\x73\xda\x01\x0b\x4a\x5a\x33\x49\xd9\x51\x66\x7a\x83\xc3\x7d\x61\x0b\x5b\x04\x4a\x22\x84\xaf\xe8\x98\xeb\xe3\xde\xab\x08\x81\x3a\x46\x9d\x35\x80", r: b"\x0a\x06\x43\xfb\x8f\xcc\x14\xde\xf6\x7a\x6a\x5e\xb1\xbf\x8e\x91\x25\xb3\x5e\xdc\x73\x38\xd8\x16\xaa\x41\x10\xa6\xb9\x0e\xe7\x85", s: b"\xce\xe3\xad\x9e\x0c\xa2\x43\x6a\xa6\xab\x80\xe6\xd8\x64\x96\x6c\xa9\x0d\xf7\x69\xea\xa3\xcc\x9f\x08\x69\x9f\xc1\xb1\x60\xe7\x70", ok: true, what: "nonce 40" },
  Sig { q: b"\x04\xfc\x4a\xa6\x9b\x5b\x41\xeb\x13\x6d\xac\x0a\x59\xfb\x0f\xbd\x11\x89\x5f\xa4\x2c\xd2\x13\x56\xdb\xae\x77\xed\x9b\x73\xda\x01\x0b\x4a\x5a\x33\x49\xd9\x51\x66\x7a\x83\xc3\x7d\x61\x0b\x5b\x04\x4a\x22\x84\xaf\xe8\x98\xeb\xe3\xde\xab\x08\x81\x3a\x46\x9d\x35\x80", r: b"\x53\x4d\x45\xdb\x6b\xac\xa8\xe2\xd2\xa5\xd0\xa7\x65\xf1\x60\x13\xa8\xd4\xeb\x58\xc6\xaa\xad\x35\x67\xce\xbd\xfa\xc4\x2d\x62\x3c", s: b"\x72\x4d\x5a\x87\xd4\x66\xe8\xfa\xf1\xc7\xfc\x60\xe3\xf1\xfb\xa2\x05\x8b\xaf\xda\x02\x6f\xf0\xf3\x33\xed\xb4\x12\x3f\xf3\x50\x47", ok: true, what: "nonce 7f" },
  Sig { q: b"\x04\xfc\x4a\xa6\x9b\x5b\x41\xeb\x13\x6d\xac\x0a\x59\xfb\x0f\xbd\x11\x89\x5f\xa4\x2c\xd2\x13\x56\xdb\xae\x77\xed\x9b\x73\xda\x01\x0b\x4a\x5a\x33\x49\xd9\x51\x66\x7a\x83\xc3\x7d\x61\x0b\x5b\x04\x4a\x22\x84\xaf\xe8\x98\xeb\xe3\xde\xab\x08\x81\x3a\x46\x9d\x35\x80", r: b"\xae\x3f\x7d\xba\x0b\xde\x8b\x6a\xd7\xce\x2f\x8e\xed\xe4\xb7\x62\xc5\x56\xde\xa6\x78\xf8\x59\x62\x6a\x9e\x62\x35\xa6\x74\xc4\xf6", s: b"\x14\xfe\xec\x3f\x18\xed\xb4\x80\x44\x9f\xf4\x5a\xf4\x70\x81\x1a\x40\xde\x78\x56\x7e\x71\x18\x20\xd4\x93\xd7\xb9\x44\x6d\x84\xa1", ok: true, what: "nonce 80" },
  Sig { q: b"\x04\xfc\x4a\xa6\x9b\x5b\x41\xeb\x13\x6d\xac\x0a\x59\xfb\x0f\xbd\x11\x89\x5f\xa4\x2c\xd2\x13\x56\xdb\xae\x77\xed\x9b\x73\xda\x01\x0b\x4a\x5a\x33\x49\xd9\x51\x66\x7a\x83\xc3\x7d\x61\x0b\x5b\x04\x4a\x22\x84\xaf\xe8\x98\xeb\xe3\xde\xab\x08\x81\x3a\x46\x9d\x35\x80", r: b"\x28\x52\x50\xed\xc3\xbc\xfc\xd9\x02\x7b\xba\x12\x17\x6d\x34\x3a\x26\x03\x56\x72\xd5\xb4\xa8\x11\x55\xd4\xe3\x7a\x2f\xd2\x0b\xae", s: b"\x1c\xf4\xc3\x50\x6d\x82\x5f\xeb\x41\x8f\xe0\xb4\xa6\x37\xa2\x81\xa5\x5a\x59\xe0\x37\x1b\xee\x01\x3d\xd7\x85\xec\x05\x9e\x77\x25", ok: true, what: "nonce 100000000000000000000000000000000000000000000000000" },
  Sig { q: b"\x04\xfc\x4a\xa6\x9b\x5b\x41\xeb\x13\x6d\xac\x0a\x59\xfb\x0f\xbd\x11\x89\x5f\xa4\x2c\xd2\x13\x56\xdb\xae\x77\xed\x9b\x73\xda\x01\x0b\x4a\x5a\x33\x49\xd9\x51\x66\x7a\x83\xc3\x7d\x61\x0b\x5b\x04\x4a\x22\x84\xaf\xe8\x98\xeb\xe3\xde\xab\x08\x81\x3a\x46\x9d\x35\x80", r: b"\x84\xba\x96\xdf\xe6\x69\x54\xc5\x7c\xa5\xef\x5b\x31\x27\x34\x8d\xcd\xe5\x22\x15\x29\xa1\x2d\x00\x80\xc7\xbe\x56\x17\xd2\xce\x36", s: b"\xe9\x3b\xcf\x6e\xa1\xfd\x0c\xb7\x06\x3e\x20\x9f\x08\x44\xa4\x25\xc1\xed\x40\x12\xf2\x3d\xfd\x67\xd7\x6e\xae\xa2\xed\x0b\x35\x2d", ok: true, what: "nonce ffffffffffffffffffffffffffffffffffffffffffffffffff" },
  Sig { q: b"\x04\x3e\xb5\xf0\x24\x47\x3b\x9a\x2e\x08\x84\x0f\x42\x60\xf9\xa7\x8e\x3e\xb7\xe9\xbd\x9d\xdf\x38\x70\x73\x66\xca\x59\x85\x0b\x7c\xa4\x9b\xec\xdf\xba\x90\xca\x67\x7a\xba\x0a\x7b\x31\x32\x60\xb6\xcc\xa2\xaa\xe1\x58\x36\x77\x7b\x6b\xa1\xa3\xf1\xd1\xc5\x75\x1f\xa5", r: b"\x74\x1a\x99\x5b\xf7\xa3\xc8\xe7\x25\xc5\xb0\xc5\x00\xbb\x7a\x4e\x24\xc6\x69\x41\x4c\x54\x05\xe5\xcd\xca\x7d\x92\x8c\x08\x8d\xee", s: b"\x74\x1a\x99\x5b\xf7\xa3\xc8\xe7\x25\xc5\xb0\xc5\x00\xbb\x7a\x4e\x24\xc6\x69\x41\x4c\x54\x05\xe5\xcd\xca\x7d\x92\x8c\x08\x8d\xee", ok: true, what: "u1=1 u2=1" },
  Sig { q: b"\x04\x6b\x4d\x6f\x5a\xbc\x72\x41\x48\xae\x0e\x6e\x11\xa0\x7f\xe8\x96\x54\x9d\xe5\x56\x61\x0c\xb9\xb4\xff\x49\x15\xce\xdf\x31\x2f\x53\xab\x04\x5e\x44\x9e\xa8\x5c\x36\xc2\xca\x72\x90\x42\x76\xed\x3a\xf8\x61\x30\xbf\x85\x49\xed\xb5\x99\x28\x9e\x2a\x08\x2b\x09\x4a", r: b"\x8b\xe5\x66\xa3\x08\x5c\x37\x19\xda\x3a\x4f\x3a\xff\x44\x85\xb1\x98\x20\x91\x6c\x5a\xc3\x98\x9f\x25\xef\x4d\x30\x70\x5a\x97\x63", s: b"\x8b\xe5\x66\xa3\x08\x5c\x37\x19\xda\x3a\x4f\x3a\xff\x44\x85\xb1\x98\x20\x91\x6c\x5a\xc3\x98\x9f\x25\xef\x4d\x30\x70\x5a\x97\x63", ok: true, what: "u1=ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632550 u2=1" },
  Sig { q: b"\x04\xac\x90\xfd\x2a\xc3\x59\xf6\x3d\x8e\xe3\xef\xac\x49\xa5\x5f\x56\x83\xb8\x19\x50\x7c\x69\xcd\x59\x03\xcc\x7a\x3a\x73\x1d\x42\x84\x71\xad\x85\x7b\x51\x5d\x0f\x9f\x24\x13\xdd\xd7\x5a\xc4\x92\x77\x17\x1d\xaa\x0a\x7f\xa2\xc3\x76\x40\x21\x22\xb6\xae\xae\x6d\x2e", r: b"\x8b\xe5\x66\xa3\x08\x5c\x37\x19\xda\x3a\x4f\x3a\xff\x44\x85\xb1\x98\x20\x91\x6c\x5a\xc3\x98\x9f\x25\xef\x4d\x30\x70\x5a\x97\x63", s: b"\x74\x1a\x99\x5b\xf7\xa3\xc8\xe7\x25\xc5\xb0\xc5\x00\xbb\x7a\x4e\x24\xc6\x69\x41\x4c\x54\x05\xe5\xcd\xca\x7d\x92\x8c\x08\x8d\xee", ok: true, what: "u1=1 u2=ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632550" },
  Sig { q: b"\x04\x5f\x0f\x4a\xcb\x11\x23\xf0\x11\x11\x1c\x59\xf9\xb3\xb8\xc2\xdf\x44\x30\x9b\x4a\xc8\xb0\x2b\x81\xa7\x37\x42\x75\x4f\x0e\x4a\x88\x26\xe3\x02\x96\x71\xdb\xcf\x69\x30\xdc\x4d\x83\x82\x82\xf7\x48\xf4\xc2\x17\x64\x78\xec\xa7\xfc\x51\x95\xc9\x93\x40\xa0\x8a\x9b", r: b"\x74\x1a\x99\x5b\xf7\xa3\xc8\xe7\x25\xc5\xb0\xc5\x00\xbb\x7a\x4e\x24\xc6\x69\x41\x4c\x54\x05\xe5\xcd\xca\x7d\x92\x8c\x08\x8d\xee", s: b"\x8b\xe5\x66\xa3\x08\x5c\x37\x19\xda\x3a\x4f\x3a\xff\x44\x85\xb1\x98\x20\x91\x6c\x5a\xc3\x98\x9f\x25\xef\x4d\x30\x70\x5a\x97\x63", ok: true, what: "u1=ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632550 u2=ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632550" },
  Sig { q: b"\x04\x6f\xdd\xab\x76\xec\x87\x12\x66\x66\x43\xb3\xb3\x2a\xcd\x43\x0a\x9f\x96\x45\xd5\x47\x50\xcc\x27\x12\x99\xe4\xc4\x92\x9e\xe4\x44\xf1\x54\x6f\x89\x60\x41\xed\x60\xdf\x8f\x3b\x76\x91\xe9\xfb\xb7\xca\x56\x85\x7f\x57\x06\xe2\x91\x6d\x4c\xad\xf4\x6b\xa2\x5a\x6f", r: b"\x0e\x1f\x1a\x4b\x66\xc5\x2c\x1b\x77\xcf\x81\xf8\x6b\xc1\xa6\x2a\xe7\x58\xdf\xe9\x6c\x9d\x1e\x5c\x07\xdf\xba\x85\x76\xc8\x36\x18", s: b"\xe2\xb6\x89\x12\x9c\xa2\x2f\xc6\x43\x48\x71\x0e\x9c\xed\x46\x02\x4a\xe0\x17\x88\xd6\x0f\x06\x20\x5f\x0b\x72\x95\xc7\x90\x6f\x67", ok: true, what: "u1=1f u2=11" },
  Sig { q: b"\x04\x1f\xc9\xe1\x86\x68\x23\xb0\x39\xa8\xe2\x63\xa0\x25\x22\x82\x53\x72\x48\x6a\x51\xcf\x1f\x70\xc6\xcc\xd8\x49\x12\x08\x04\xbe\xee\x57\x59\xa1\xb5\x8e\xfa\x95\xaf\xd2\xdb\xdb\x8f\xa4\x05\x4d\x5b\xed\x0e\xac\x51\x5d\x29\x6e\xde\x96\xdd\x24\xcd\x10\xef\x62\x03", r: b"\xb0\xd7\xe8\x20\xcb\xa2\x15\xbe\x27\xbe\x68\xaf\xff\x4f\x8c\xe3\x56\x29\x4b\xb1\xcd\x43\xc9\xbc\x4e\xb6\xb7\xb9\x69\x1b\x76\xf3", s: b"\xdb\x0d\x7e\x81\x3c\xba\x21\x5c\xb2\x7b\xe6\x8a\xff\xf4\xf8\xcd\xfe\xde\x40\x68\x34\x97\x6d\x67\xca\xf2\x60\x3a\x03\xa2\x45\xc1", ok: true, what: "u1=ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632540 u2=10" },
  Sig { q: b"\x04\x51\x99\x2f\xac\xbf\x69\x28\xf0\xdc\xb5\x57\xd8\xe3\xde\xc7\x1b\x4a\x6e\x2e\x44\x39\x5d\x46\xbd\x9c\xba\x0b\xc7\x21\x10\xff\x6e\xfd\xba\xda\x9f\x78\x3e\x79\xab\x8e\xc2\xbb\x6c\xce\xfc\x98\x35\x5e\x4b\x29\x08\x86\xba\xda\x4e\x9e\x6e\xcb\x41\x87\xc7\x8f\x93", r: b"\x8b\xe5\x66\xa3\x08\x5c\x37\x19\xda\x3a\x4f\x3a\xff\x44\x85\xb1\x98\x20\x91\x6c\x5a\xc3\x98\x9f\x25\xef\x4d\x30\x70\x5a\x97\x63", s: b"\xc9\xd0\x6a\x64\xa7\xde\x8f\x24\x64\x97\x16\xc3\x14\x02\xed\xe9\x04\x27\x8d\x7c\xaf\xbb\xc3\xef\x75\xa0\x50\x5e\x9f\x5d\x97\x5f", ok: true, what: "u1=40 u2=ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632511" },
  Sig { q: b"\x04\x8e\x4f\x98\x55\xcc\xb9\x01\xc3\x8e\x9f\x58\xd8\x14\xe5\x90\x1e\xb8\x63\x7d\x61\x8b\xf0\xcb\xaf\x1c\xef\x67\x3a\xb9\x4b\x36\x7f\x9a\xc0\x75\x8e\x20\x39\xaa\x22\xcc\xa0\x9d\xaa\x6a\xc0\x6c\x4c\x4c\x2e\x06\xa3\xbe\x71\x49\xf9\xec\x37\x0f\x3c\x5b\x9b\x5b\x8e", r: b"\xe4\xe8\x35\x31\xd3\xef\x47\x92\xb2\x4b\x8b\x61\x8a\x01\x76\xf4\x60\x87\x44\x15\x2b\x69\xb1\x3a\x34\xad\x0d\x90\xcd\xe0\x5e\x58", s: b"\xe4\xe8\x35\x31\xd3\xef\x47\x92\xb2\x4b\x8b\x61\x8a\x01\x76\xf4\x60\x87\x44\x15\x2b\x69\xb1\x3a\x34\xad\x0d\x90\xcd\xe0\x5e\x58", ok: true, what: "u1=80 u2=1" },
];
pub static SIG_P384_SHA256: &[Sig] = &[
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\x0f\x26\x27\x32\x6d\xe8\xa3\x3e\x17\x86\xc4\xd5\x22\xaa\xe6\x1a\x59\x95\x64\x27\x17\x9d\x47\xa6\x62\x70\x9b\xca\xaf\x71\x7f\xdd\x30\x04\x40\xf6\xd7\xea\x43\x92\x4f\x51\x0a\x93\x73\x00\xcb\x11", s: b"\x96\xe3\x07\x61\x5f\xb0\xdb\xc1\x4e\xa6\x2f\xe2\x70\x1e\xd5\x20\x3d\x5c\xc4\x2f\xa4\xa9\xd9\x15\x2f\xe2\xf9\x3f\xb4\xcc\xb2\xe1\xd3\x18\x5b\x05\x0c\xec\xdb\xa2\x44\xe0\x36\x50\x23\xc6\xd6\x42", ok: true, what: "ordinary" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\x0f\x26\x27\x32\x6d\xe8\xa3\x3e\x17\x86\xc4\xd5\x22\xaa\xe6\x1a\x59\x95\x64\x27\x17\x9d\x47\xa6\x62\x70\x9b\xca\xaf\x71\x7f\xdd\x30\x04\x40\xf6\xd7\xea\x43\x92\x4f\x51\x0a\x93\x73\x00\xcb\x11", s: b"\x69\x1c\xf8\x9e\xa0\x4f\x24\x3e\xb1\x59\xd0\x1d\x8f\xe1\x2a\xdf\xc2\xa3\x3b\xd0\x5b\x56\x26\xea\x97\x80\x54\x42\x3f\x6a\x7a\xfd\x85\x01\xb2\xad\x3b\xc3\xcb\xd8\xa8\x0b\xe3\x1a\xa8\xfe\x53\x31", ok: true, what: "negated s" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\xf0\xd9\xd8\xcd\x92\x17\x5c\xc1\xe8\x79\x3b\x2a\xdd\x55\x19\xe5\xa6\x6a\x9b\xd8\xe8\x62\xb8\x59\x64\xf2\xb1\xb7\x44\xc5\xae\x02\x28\x15\xcc\xbb\x70\xc6\x63\xe8\x9d\x9b\x0e\xd7\x59\xc4\x5e\x62", s: b"\x96\xe3\x07\x61\x5f\xb0\xdb\xc1\x4e\xa6\x2f\xe2\x70\x1e\xd5\x20\x3d\x5c\xc4\x2f\xa4\xa9\xd9\x15\x2f\xe2\xf9\x3f\xb4\xcc\xb2\xe1\xd3\x18\x5b\x05\x0c\xec\xdb\xa2\x44\xe0\x36\x50\x23\xc6\xd6\x42", ok: false, what: "negated r" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\x96\xe3\x07\x61\x5f\xb0\xdb\xc1\x4e\xa6\x2f\xe2\x70\x1e\xd5\x20\x3d\x5c\xc4\x2f\xa4\xa9\xd9\x15\x2f\xe2\xf9\x3f\xb4\xcc\xb2\xe1\xd3\x18\x5b\x05\x0c\xec\xdb\xa2\x44\xe0\x36\x50\x23\xc6\xd6\x42", s: b"\x0f\x26\x27\x32\x6d\xe8\xa3\x3e\x17\x86\xc4\xd5\x22\xaa\xe6\x1a\x59\x95\x64\x27\x17\x9d\x47\xa6\x62\x70\x9b\xca\xaf\x71\x7f\xdd\x30\x04\x40\xf6\xd7\xea\x43\x92\x4f\x51\x0a\x93\x73\x00\xcb\x11", ok: false, what: "swapped" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\xcb\x58\x3f\x3f\x8d\x7c\x81\x6b\xb6\xfc\xa7\x98\x3a\xfd\xc8\x60\xd3\x7d\x7e\x1c\x13\x68\x8b\xf1\x59\x23\x39\x5e\xb5\x81\x9e\x98\xd3\x62\x36\x98\xed\x39\xd1\x86\x1c\x8a\x5b\x96\x64\x61\xdb\x2f", r: b"\x0f\x26\x27\x32\x6d\xe8\xa3\x3e\x17\x86\xc4\xd5\x22\xaa\xe6\x1a\x59\x95\x64\x27\x17\x9d\x47\xa6\x62\x70\x9b\xca\xaf\x71\x7f\xdd\x30\x04\x40\xf6\xd7\xea\x43\x92\x4f\x51\x0a\x93\x73\x00\xcb\x11", s: b"\x96\xe3\x07\x61\x5f\xb0\xdb\xc1\x4e\xa6\x2f\xe2\x70\x1e\xd5\x20\x3d\x5c\xc4\x2f\xa4\xa9\xd9\x15\x2f\xe2\xf9\x3f\xb4\xcc\xb2\xe1\xd3\x18\x5b\x05\x0c\xec\xdb\xa2\x44\xe0\x36\x50\x23\xc6\xd6\x42", ok: false, what: "negated key" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", s: b"\x96\xe3\x07\x61\x5f\xb0\xdb\xc1\x4e\xa6\x2f\xe2\x70\x1e\xd5\x20\x3d\x5c\xc4\x2f\xa4\xa9\xd9\x15\x2f\xe2\xf9\x3f\xb4\xcc\xb2\xe1\xd3\x18\x5b\x05\x0c\xec\xdb\xa2\x44\xe0\x36\x50\x23\xc6\xd6\x42", ok: false, what: "r=0" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\x0f\x26\x27\x32\x6d\xe8\xa3\x3e\x17\x86\xc4\xd5\x22\xaa\xe6\x1a\x59\x95\x64\x27\x17\x9d\x47\xa6\x62\x70\x9b\xca\xaf\x71\x7f\xdd\x30\x04\x40\xf6\xd7\xea\x43\x92\x4f\x51\x0a\x93\x73\x00\xcb\x11", s: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: false, what: "s=0" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", s: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: false, what: "r=s=0" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01", s: b"\x96\xe3\x07\x61\x5f\xb0\xdb\xc1\x4e\xa6\x2f\xe2\x70\x1e\xd5\x20\x3d\x5c\xc4\x2f\xa4\xa9\xd9\x15\x2f\xe2\xf9\x3f\xb4\xcc\xb2\xe1\xd3\x18\x5b\x05\x0c\xec\xdb\xa2\x44\xe0\x36\x50\x23\xc6\xd6\x42", ok: false, what: "r=1" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\x0f\x26\x27\x32\x6d\xe8\xa3\x3e\x17\x86\xc4\xd5\x22\xaa\xe6\x1a\x59\x95\x64\x27\x17\x9d\x47\xa6\x62\x70\x9b\xca\xaf\x71\x7f\xdd\x30\x04\x40\xf6\xd7\xea\x43\x92\x4f\x51\x0a\x93\x73\x00\xcb\x11", s: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01", ok: false, what: "s=1" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01", s: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01", ok: false, what: "r=s=1" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xc7\x63\x4d\x81\xf4\x37\x2d\xdf\x58\x1a\x0d\xb2\x48\xb0\xa7\x7a\xec\xec\x19\x6a\xcc\xc5\x29\x72", s: b"\x96\xe3\x07\x61\x5f\xb0\xdb\xc1\x4e\xa6\x2f\xe2\x70\x1e\xd5\x20\x3d\x5c\xc4\x2f\xa4\xa9\xd9\x15\x2f\xe2\xf9\x3f\xb4\xcc\xb2\xe1\xd3\x18\x5b\x05\x0c\xec\xdb\xa2\x44\xe0\x36\x50\x23\xc6\xd6\x42", ok: false, what: "r=ffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52972" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\x0f\x26\x27\x32\x6d\xe8\xa3\x3e\x17\x86\xc4\xd5\x22\xaa\xe6\x1a\x59\x95\x64\x27\x17\x9d\x47\xa6\x62\x70\x9b\xca\xaf\x71\x7f\xdd\x30\x04\x40\xf6\xd7\xea\x43\x92\x4f\x51\x0a\x93\x73\x00\xcb\x11", s: b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xc7\x63\x4d\x81\xf4\x37\x2d\xdf\x58\x1a\x0d\xb2\x48\xb0\xa7\x7a\xec\xec\x19\x6a\xcc\xc5\x29\x72", ok: false, what: "s=ffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52972" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xc7\x63\x4d\x81\xf4\x37\x2d\xdf\x58\x1a\x0d\xb2\x48\xb0\xa7\x7a\xec\xec\x19\x6a\xcc\xc5\x29\x72", s: b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xc7\x63\x4d\x81\xf4\x37\x2d\xdf\x58\x1a\x0d\xb2\x48\xb0\xa7\x7a\xec\xec\x19\x6a\xcc\xc5\x29\x72", ok: false, what: "r=s=ffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52972" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xc7\x63\x4d\x81\xf4\x37\x2d\xdf\x58\x1a\x0d\xb2\x48\xb0\xa7\x7a\xec\xec\x19\x6a\xcc\xc5\x29\x73", s: b"\x96\xe3\x07\x61\x5f\xb0\xdb\xc1\x4e\xa6\x2f\xe2\x70\x1e\xd5\x20\x3d\x5c\xc4\x2f\xa4\xa9\xd9\x15\x2f\xe2\xf9\x3f\xb4\xcc\xb2\xe1\xd3\x18\x5b\x05\x0c\xec\xdb\xa2\x44\xe0\x36\x50\x23\xc6\xd6\x42", ok: false, what: "r=ffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52973" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\x0f\x26\x27\x32\x6d\xe8\xa3\x3e\x17\x86\xc4\xd5\x22\xaa\xe6\x1a\x59\x95\x64\x27\x17\x9d\x47\xa6\x62\x70\x9b\xca\xaf\x71\x7f\xdd\x30\x04\x40\xf6\xd7\xea\x43\x92\x4f\x51\x0a\x93\x73\x00\xcb\x11", s: b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xc7\x63\x4d\x81\xf4\x37\x2d\xdf\x58\x1a\x0d\xb2\x48\xb0\xa7\x7a\xec\xec\x19\x6a\xcc\xc5\x29\x73", ok: false, what: "s=ffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52973" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xc7\x63\x4d\x81\xf4\x37\x2d\xdf\x58\x1a\x0d\xb2\x48\xb0\xa7\x7a\xec\xec\x19\x6a\xcc\xc5\x29\x73", s: b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xc7\x63\x4d\x81\xf4\x37\x2d\xdf\x58\x1a\x0d\xb2\x48\xb0\xa7\x7a\xec\xec\x19\x6a\xcc\xc5\x29\x73", ok: false, what: "r=s=ffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52973" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xc7\x63\x4d\x81\xf4\x37\x2d\xdf\x58\x1a\x0d\xb2\x48\xb0\xa7\x7a\xec\xec\x19\x6a\xcc\xc5\x29\x74", s: b"\x96\xe3\x07\x61\x5f\xb0\xdb\xc1\x4e\xa6\x2f\xe2\x70\x1e\xd5\x20\x3d\x5c\xc4\x2f\xa4\xa9\xd9\x15\x2f\xe2\xf9\x3f\xb4\xcc\xb2\xe1\xd3\x18\x5b\x05\x0c\xec\xdb\xa2\x44\xe0\x36\x50\x23\xc6\xd6\x42", ok: false, what: "r=ffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52974" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\x0f\x26\x27\x32\x6d\xe8\xa3\x3e\x17\x86\xc4\xd5\x22\xaa\xe6\x1a\x59\x95\x64\x27\x17\x9d\x47\xa6\x62\x70\x9b\xca\xaf\x71\x7f\xdd\x30\x04\x40\xf6\xd7\xea\x43\x92\x4f\x51\x0a\x93\x73\x00\xcb\x11", s: b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xc7\x63\x4d\x81\xf4\x37\x2d\xdf\x58\x1a\x0d\xb2\x48\xb0\xa7\x7a\xec\xec\x19\x6a\xcc\xc5\x29\x74", ok: false, what: "s=ffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52974" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xc7\x63\x4d\x81\xf4\x37\x2d\xdf\x58\x1a\x0d\xb2\x48\xb0\xa7\x7a\xec\xec\x19\x6a\xcc\xc5\x29\x74", s: b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xc7\x63\x4d\x81\xf4\x37\x2d\xdf\x58\x1a\x0d\xb2\x48\xb0\xa7\x7a\xec\xec\x19\x6a\xcc\xc5\x29\x74", ok: false, what: "r=s=ffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52974" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff", s: b"\x96\xe3\x07\x61\x5f\xb0\xdb\xc1\x4e\xa6\x2f\xe2\x70\x1e\xd5\x20\x3d\x5c\xc4\x2f\xa4\xa9\xd9\x15\x2f\xe2\xf9\x3f\xb4\xcc\xb2\xe1\xd3\x18\x5b\x05\x0c\xec\xdb\xa2\x44\xe0\x36\x50\x23\xc6\xd6\x42", ok: false, what: "r=ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\x0f\x26\x27\x32\x6d\xe8\xa3\x3e\x17\x86\xc4\xd5\x22\xaa\xe6\x1a\x59\x95\x64\x27\x17\x9d\x47\xa6\x62\x70\x9b\xca\xaf\x71\x7f\xdd\x30\x04\x40\xf6\xd7\xea\x43\x92\x4f\x51\x0a\x93\x73\x00\xcb\x11", s: b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff", ok: false, what: "s=ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff", s: b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff", ok: false, what: "r=s=ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff" },
  Sig { q: b"\x04\xa8\x53\x12\xfd\x39\xa1\x31\xbb\xab\x93\xea\x07\x72\x4c\x2b\x24\x2e\x35\x14\x87\x3d\x7c\xb3\x24\xf7\x48\xa3\x01\x6b\x08\x15\x53\x39\x18\x0e\x01\xd6\x07\x4f\x02\x5f\xd0\x63\x5c\xbc\x61\xa1\x4c\xf9\xce\xec\x18\x6b\x9b\x01\x3b\x07\x94\x9c\x11\x37\xc8\x7e\x46\x94\xc9\x51\xd0\xa9\x70\x55\xd4\xaa\x50\x09\x30\x2a\x0e\xb2\xe1\xa6\x28\x5f\x3f\x92\x15\xfe\x8d\xf5\xcc\xa4\x28\x36\xae\x42\xe8", r: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x0a", s: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01\x23\x45\x67", ok: true, what: "small r" },
  Sig { q: b"\x04\xa8\x53\x12\xfd\x39\xa1\x31\xbb\xab\x93\xea\x07\x72\x4c\x2b\x24\x2e\x35\x14\x87\x3d\x7c\xb3\x24\xf7\x48\xa3\x01\x6b\x08\x15\x53\x39\x18\x0e\x01\xd6\x07\x4f\x02\x5f\xd0\x63\x5c\xbc\x61\xa1\x4c\xf9\xce\xec\x18\x6b\x9b\x01\x3b\x07\x94\x9c\x11\x37\xc8\x7e\x46\x94\xc9\x51\xd0\xa9\x70\x55\xd4\xaa\x50\x09\x30\x2a\x0e\xb2\xe1\xa6\x28\x5f\x3f\x92\x15\xfe\x8d\xf5\xcc\xa4\x28\x36\xae\x42\xe8", r: b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xc7\x63\x4d\x81\xf4\x37\x2d\xdf\x58\x1a\x0d\xb2\x48\xb0\xa7\x7a\xec\xec\x19\x6a\xcc\xc5\x29\x7d", s: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01\x23\x45\x67", ok: false, what: "small r plus n" },
  Sig { q: b"\x04\xa8\x53\x12\xfd\x39\xa1\x31\xbb\xab\x93\xea\x07\x72\x4c\x2b\x24\x2e\x35\x14\x87\x3d\x7c\xb3\x24\xf7\x48\xa3\x01\x6b\x08\x15\x53\x39\x18\x0e\x01\xd6\x07\x4f\x02\x5f\xd0\x63\x5c\xbc\x61\xa1\x4c\xf9\xce\xec\x18\x6b\x9b\x01\x3b\x07\x94\x9c\x11\x37\xc8\x7e\x46\x94\xc9\x51\xd0\xa9\x70\x55\xd4\xaa\x50\x09\x30\x2a\x0e\xb2\xe1\xa6\x28\x5f\x3f\x92\x15\xfe\x8d\xf5\xcc\xa4\x28\x36\xae\x42\xe8", r: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x0a", s: b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xc7\x63\x4d\x81\xf4\x37\x2d\xdf\x58\x1a\x0d\xb2\x48\xb0\xa7\x7a\xec\xec\x19\x6a\xcd\xe8\x6e\xda", ok: false, what: "small s plus n" },
  Sig { q: b"\x04\x3e\x46\xe2\x36\xb4\x8c\x38\x23\x9f\x3a\x36\x30\xa5\x3f\xf9\x76\x4d\x54\xfb\xf8\x5a\x21\xe7\x22\xef\x73\x5b\x6f\xf1\xcf\x70\x1d\x92\x1d\x91\xe4\x85\xf4\xc8\xc8\x6a\x1e\xa3\x19\x82\xc0\x78\x66\xc3\x16\x6a\xe3\x93\x17\xe9\x3d\x11\xf6\xca\xe6\x6c\x99\x5f\xe8\x74\x6e\x6b\xae\xf0\x3a\x2c\x4a\xf2\x8d\xb6\x33\xa9\xc6\xd0\x59\xd8\xc7\xf1\xf0\xc4\xc6\x92\xe8\xfe\x22\x09\x21\x20\x76\xe4\x49", r: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x02", s: b"\x96\xe3\x07\x61\x5f\xb0\xdb\xc1\x4e\xa6\x2f\xe2\x70\x1e\xd5\x20\x3d\x5c\xc4\x2f\xa4\xa9\xd9\x15\x2f\xe2\xf9\x3f\xb4\xcc\xb2\xe1\xd3\x18\x5b\x05\x0c\xec\xdb\xa2\x44\xe0\x36\x50\x23\xc6\xd6\x42", ok: true, what: "x(R) above n" },
  Sig { q: b"\x04\x3e\x46\xe2\x36\xb4\x8c\x38\x23\x9f\x3a\x36\x30\xa5\x3f\xf9\x76\x4d\x54\xfb\xf8\x5a\x21\xe7\x22\xef\x73\x5b\x6f\xf1\xcf\x70\x1d\x92\x1d\x91\xe4\x85\xf4\xc8\xc8\x6a\x1e\xa3\x19\x82\xc0\x78\x66\xc3\x16\x6a\xe3\x93\x17\xe9\x3d\x11\xf6\xca\xe6\x6c\x99\x5f\xe8\x74\x6e\x6b\xae\xf0\x3a\x2c\x4a\xf2\x8d\xb6\x33\xa9\xc6\xd0\x59\xd8\xc7\xf1\xf0\xc4\xc6\x92\xe8\xfe\x22\x09\x21\x20\x76\xe4\x49", r: b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xc7\x63\x4d\x81\xf4\x37\x2d\xdf\x58\x1a\x0d\xb2\x48\xb0\xa7\x7a\xec\xec\x19\x6a\xcc\xc5\x29\x75", s: b"\x96\xe3\x07\x61\x5f\xb0\xdb\xc1\x4e\xa6\x2f\xe2\x70\x1e\xd5\x20\x3d\x5c\xc4\x2f\xa4\xa9\xd9\x15\x2f\xe2\xf9\x3f\xb4\xcc\xb2\xe1\xd3\x18\x5b\x05\x0c\xec\xdb\xa2\x44\xe0\x36\x50\x23\xc6\xd6\x42", ok: false, what: "x(R) itself as r" },
  Sig { q: b"\x04\xd6\x6c\x8d\x4e\x30\x75\x7f\xb9\x3e\x2f\xa0\x82\x57\x7e\xf3\x89\x25\x91\xb7\x58\x14\x44\x1b\x81\x79\xe1\xf5\x24\xed\x58\x51\x9f\x4d\xf5\x75\x2f\xc6\x1b\x50\xb1\xcf\x8c\x58\x76\xf3\xc8\xd2\x92\x3c\xb8\xbf\x52\x9e\x8f\x6b\x7e\x10\x39\xc4\xa8\x41\x35\x88\x5b\xff\xdd\xe4\xb0\x63\xad\x90\xd4\xc1\xfa\x75\x3b\xea\x97\x9f\x9c\xd2\x62\x6e\x42\xb7\xc6\x71\xb6\x59\xe4\xab\x3f\x1c\xc5\x2d\xee", r: b"\x0f\x26\x27\x32\x6d\xe8\xa3\x3e\x17\x86\xc4\xd5\x22\xaa\xe6\x1a\x59\x95\x64\x27\x17\x9d\x47\xa6\x62\x70\x9b\xca\xaf\x71\x7f\xdd\x30\x04\x40\xf6\xd7\xea\x43\x92\x4f\x51\x0a\x93\x73\x00\xcb\x11", s: b"\x96\xe3\x07\x61\x5f\xb0\xdb\xc1\x4e\xa6\x2f\xe2\x70\x1e\xd5\x20\x3d\x5c\xc4\x2f\xa4\xa9\xd9\x15\x2f\xe2\xf9\x3f\xb4\xcc\xb2\xe1\xd3\x18\x5b\x05\x0c\xec\xdb\xa2\x44\xe0\x36\x50\x23\xc6\xd6\x42", ok: false, what: "R at infinity" },
  Sig { q: b"\x04\xaa\x87\xca\x22\xbe\x8b\x05\x37\x8e\xb1\xc7\x1e\xf3\x20\xad\x74\x6e\x1d\x3b\x62\x8b\xa7\x9b\x98\x59\xf7\x41\xe0\x82\x54\x2a\x38\x55\x02\xf2\x5d\xbf\x55\x29\x6c\x3a\x54\x5e\x38\x72\x76\x0a\xb7\xc9\xe8\x21\xb5\x69\xd9\xd3\x90\xa2\x61\x67\x40\x6d\x6d\x23\xd6\x07\x0b\xe2\x42\xd7\x65\xeb\x83\x16\x25\xce\xec\x4a\x0f\x47\x3e\xf5\x9f\x4e\x30\xe2\x81\x7e\x62\x85\xbc\xe2\x84\x6f\x15\xf1\xa0", r: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xc0\xf4\xc2\xc0\x63\x3d\x04\x8d\x72\xc1\x37\x78\x56\x2f\x37\xb4\x9b\xfa\x29\x99\xfe\xc3\xe2\x86\xbc\xe7\x24\x8e\x51\xf9\xd3\x37", s: b"\x96\xe3\x07\x61\x5f\xb0\xdb\xc1\x4e\xa6\x2f\xe2\x70\x1e\xd5\x20\x3d\x5c\xc4\x2f\xa4\xa9\xd9\x15\x2f\xe2\xf9\x3f\xb4\xcc\xb2\xe1\xd3\x18\x5b\x05\x0c\xec\xdb\xa2\x44\xe0\x36\x50\x23\xc6\xd6\x42", ok: false, what: "R at infinity" },
  Sig { q: b"\x04\x73\x93\x94\x93\xdb\xa4\x48\xab\x4e\x52\x66\x96\xd8\x71\x67\xaf\xca\xfa\x90\x33\x75\x07\xef\xfc\xfe\xda\x27\xd3\xe6\x90\x8c\x28\x58\xbf\xc1\x0f\xb2\xc4\x7e\xbc\x70\x52\x82\x0d\xfa\x60\xc1\x5b\x4d\x84\x9d\xa7\xbb\x79\xa9\xbe\x6d\x59\xaf\xc2\x06\xe0\xda\x11\x04\xf8\x31\xb9\xd2\x05\x23\x70\xdb\xe2\xb7\x89\xc1\xf7\xf1\x0e\xd3\xe0\xed\x7a\x61\x68\x4e\xe1\x3e\xa7\x42\xae\x6a\x21\xe4\x31", r: b"\xe8\xc8\xf9\x4d\x44\xfb\xc2\x39\x6b\xbe\xac\x48\x1b\x89\xd2\xb0\x87\x7b\x1d\xff\xd2\x3e\x7d\xc9\x5d\xe5\x41\xeb\x65\x1c\xca\x2c\x41\xab\xa2\x4d\xbc\x02\xde\x66\x37\x20\x9a\xcc\xf0\xf5\x9e\xa0", s: b"\x6d\xb6\xdb\x6d\xb6\xdb\x6d\xb6\xdb\x6d\xb6\xdb\x6d\xb6\xdb\x6d\xd2\x6c\x1b\xd2\x57\x51\xdc\x14\x1c\xb3\xdf\xff\xbe\x1e\x64\xc2\xa9\xc1\x30\x62\x68\x1e\x8c\xb5\xa5\x18\x7d\xd4\x63\x78\x2f\xf0", ok: true, what: "doubling" },
  Sig { q: b"\x04\xaa\x87\xca\x22\xbe\x8b\x05\x37\x8e\xb1\xc7\x1e\xf3\x20\xad\x74\x6e\x1d\x3b\x62\x8b\xa7\x9b\x98\x59\xf7\x41\xe0\x82\x54\x2a\x38\x55\x02\xf2\x5d\xbf\x55\x29\x6c\x3a\x54\x5e\x38\x72\x76\x0a\xb7\x36\x17\xde\x4a\x96\x26\x2c\x6f\x5d\x9e\x98\xbf\x92\x92\xdc\x29\xf8\xf4\x1d\xbd\x28\x9a\x14\x7c\xe9\xda\x31\x13\xb5\xf0\xb8\xc0\x0a\x60\xb1\xce\x1d\x7e\x81\x9d\x7a\x43\x1d\x7c\x90\xea\x0e\x5f", r: b"\x0f\x26\x27\x32\x6d\xe8\xa3\x3e\x17\x86\xc4\xd5\x22\xaa\xe6\x1a\x59\x95\x64\x27\x17\x9d\x47\xa6\x62\x70\x9b\xca\xaf\x71\x7f\xdd\x30\x04\x40\xf6\xd7\xea\x43\x92\x4f\x51\x0a\x93\x73\x00\xcb\x11", s: b"\xf9\xbe\x01\x5f\xbd\xc5\xe8\x5f\x72\xbc\x55\xa7\xf8\x85\x53\x29\xfc\xbc\x63\x40\xc3\xa9\x6a\x40\xf7\xc4\x85\x0c\xea\x5c\x65\x82\xfc\xf7\xdc\x9e\xe6\xda\xea\x82\xc8\x57\x30\xe2\xc3\x12\x5d\x88", ok: true, what: "key G" },
  Sig { q: b"\x04\x08\xd9\x99\x05\x7b\xa3\xd2\xd9\x69\x26\x00\x45\xc5\x5b\x97\xf0\x89\x02\x59\x59\xa6\xf4\x34\xd6\x51\xd2\x07\xd1\x9f\xb9\x6e\x9e\x4f\xe0\xe8\x6e\xbe\x0e\x64\xf8\x5b\x96\xa9\xc7\x52\x95\xdf\x61\x8e\x80\xf1\xfa\x5b\x1b\x3c\xed\xb7\xbf\xe8\xdf\xfd\x6d\xba\x74\xb2\x75\xd8\x75\xbc\x6c\xc4\x3e\x90\x4e\x50\x5f\x25\x6a\xb4\x25\x5f\xfd\x43\xe9\x4d\x39\xe2\x2d\x61\x50\x1e\x70\x0a\x94\x0e\x80", r: b"\x0f\x26\x27\x32\x6d\xe8\xa3\x3e\x17\x86\xc4\xd5\x22\xaa\xe6\x1a\x59\x95\x64\x27\x17\x9d\x47\xa6\x62\x70\x9b\xca\xaf\x71\x7f\xdd\x30\x04\x40\xf6\xd7\xea\x43\x92\x4f\x51\x0a\x93\x73\x00\xcb\x11", s: b"\x7f\xe2\x7c\x0f\x80\x6f\x86\xe1\x97\x4a\x64\xee\xf3\x35\xac\x70\xf7\x98\xf5\xfd\x31\x3e\x10\x72\x6e\xbb\x5d\xc6\x82\xd4\xc8\xc3\xed\x64\x36\xec\x61\x86\x5f\x18\x28\x7c\x4c\x17\x50\xfe\x0e\xca", ok: true, what: "key 2G" },
  Sig { q: b"\x04\xaa\x87\xca\x22\xbe\x8b\x05\x37\x8e\xb1\xc7\x1e\xf3\x20\xad\x74\x6e\x1d\x3b\x62\x8b\xa7\x9b\x98\x59\xf7\x41\xe0\x82\x54\x2a\x38\x55\x02\xf2\x5d\xbf\x55\x29\x6c\x3a\x54\x5e\x38\x72\x76\x0a\xb7\xc9\xe8\x21\xb5\x69\xd9\xd3\x90\xa2\x61\x67\x40\x6d\x6d\x23\xd6\x07\x0b\xe2\x42\xd7\x65\xeb\x83\x16\x25\xce\xec\x4a\x0f\x47\x3e\xf5\x9f\x4e\x30\xe2\x81\x7e\x62\x85\xbc\xe2\x84\x6f\x15\xf1\xa0", r: b"\x0f\x26\x27\x32\x6d\xe8\xa3\x3e\x17\x86\xc4\xd5\x22\xaa\xe6\x1a\x59\x95\x64\x27\x17\x9d\x47\xa6\x62\x70\x9b\xca\xaf\x71\x7f\xdd\x30\x04\x40\xf6\xd7\xea\x43\x92\x4f\x51\x0a\x93\x73\x00\xcb\x11", s: b"\xed\x75\x0c\x00\x38\x72\xab\x5b\x29\xa0\x37\x1a\x03\x24\xa0\x9c\x07\x03\x3d\xc7\xe8\x80\x1d\xde\x42\x73\x86\x17\xc5\x34\x71\x21\xc4\x05\x1a\x51\xa8\xd3\x59\xdd\x1b\x20\xe1\x0e\xda\x75\xd1\x91", ok: true, what: "key -G" },
  Sig { q: b"\x04\xd3\x6f\xed\x39\xca\x71\x06\x3a\x51\x63\xe8\x11\x9a\x37\xaf\xf1\x0f\x6b\x86\xd5\x0f\x02\xf1\xd3\x24\x23\x8d\x2b\x09\x0d\x80\x67\x08\x49\x55\x05\x66\x39\x6f\xf5\x77\x87\x38\xc0\xb3\x9b\x10\x7a\xb9\x3c\x19\xd4\x7a\x47\xd0\xf2\x20\x53\x47\x0a\xcd\xef\xe4\xb4\x7d\x1f\x82\x4e\x37\x02\x3c\x92\xe0\xa8\xd7\xbc\xbe\x97\xbf\x52\x23\x0d\x43\xe2\x42\xac\xd9\x98\x7e\x03\x04\x57\x8c\x65\x51\xae", r: b"\x0f\x26\x27\x32\x6d\xe8\xa3\x3e\x17\x86\xc4\xd5\x22\xaa\xe6\x1a\x59\x95\x64\x27\x17\x9d\x47\xa6\x62\x70\x9b\xca\xaf\x71\x7f\xdd\x30\x04\x40\xf6\xd7\xea\x43\x92\x4f\x51\x0a\x93\x73\x00\xcb\x11", s: b"\x36\xab\xc4\x07\xdc\x71\x19\x1e\x60\x75\x4e\x04\x7b\x2d\x26\x86\x7f\x4e\x19\xe2\x8c\xdf\x17\x28\x74\xe5\xcb\x2e\x29\xe9\x06\x03\x2c\xa7\xa1\xc5\xe0\xd4\x88\xbd\x2b\x58\x89\xdd\xaf\x57\x5b\x74", ok: true, what: "key G/2" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\xaa\x87\xca\x22\xbe\x8b\x05\x37\x8e\xb1\xc7\x1e\xf3\x20\xad\x74\x6e\x1d\x3b\x62\x8b\xa7\x9b\x98\x59\xf7\x41\xe0\x82\x54\x2a\x38\x55\x02\xf2\x5d\xbf\x55\x29\x6c\x3a\x54\x5e\x38\x72\x76\x0a\xb7", s: b"\x97\x9d\xec\xa2\x1b\x9f\xe5\xfe\x29\x90\x07\xe1\x2c\x4d\xce\x20\xd9\x4a\x01\x81\x74\x02\xe5\x68\x75\xb5\xfd\x14\xfc\x47\x00\x8c\xef\xbc\x22\x60\x0b\x74\xe6\x88\x02\x6e\xee\xa6\x77\x01\x22\x22", ok: true, what: "nonce 1" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\x08\xd9\x99\x05\x7b\xa3\xd2\xd9\x69\x26\x00\x45\xc5\x5b\x97\xf0\x89\x02\x59\x59\xa6\xf4\x34\xd6\x51\xd2\x07\xd1\x9f\xb9\x6e\x9e\x4f\xe0\xe8\x6e\xbe\x0e\x64\xf8\x5b\x96\xa9\xc7\x52\x95\xdf\x61", s: b"\xa0\x34\x46\x81\x0c\x65\x08\x24\x27\xb7\x41\xe8\x88\x42\x10\xcf\x96\xc7\xab\x16\x45\x9e\xa2\x01\x53\x22\x9d\x42\x8e\x9a\xf8\x20\x94\x45\x0f\x64\x28\x4f\x5b\xc3\xe6\x4c\x16\x9c\xb9\x17\x1b\x06", ok: true, what: "nonce 2" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\x07\x7a\x41\xd4\x60\x6f\xfa\x14\x64\x79\x3c\x7e\x5f\xdc\x7d\x98\xcb\x9d\x39\x10\x20\x2d\xcd\x06\xbe\xa4\xf2\x40\xd3\x56\x6d\xa6\xb4\x08\xbb\xae\x50\x26\x58\x0d\x02\xd7\xe5\xc7\x05\x00\xc8\x31", s: b"\x92\x2e\x05\xba\x99\xf3\x43\x6a\xcb\x51\x0a\x39\x2c\xee\x51\xfe\x28\x50\x92\xd3\x5b\x3d\x89\x49\x0e\x06\xef\xd3\x76\x2b\xaf\x76\x94\xbe\x25\x01\x5e\xa1\x83\x5c\xcb\x61\x28\x86\x58\xd6\x2f\x70", ok: true, what: "nonce 3" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\xaa\x87\xca\x22\xbe\x8b\x05\x37\x8e\xb1\xc7\x1e\xf3\x20\xad\x74\x6e\x1d\x3b\x62\x8b\xa7\x9b\x98\x59\xf7\x41\xe0\x82\x54\x2a\x38\x55\x02\xf2\x5d\xbf\x55\x29\x6c\x3a\x54\x5e\x38\x72\x76\x0a\xb7", s: b"\x68\x62\x13\x5d\xe4\x60\x1a\x01\xd6\x6f\xf8\x1e\xd3\xb2\x31\xdf\x26\xb5\xfe\x7e\x8b\xfd\x1a\x97\x51\xad\x50\x6c\xf7\xf0\x2d\x52\x68\x5d\xeb\x52\x3d\x3b\xc0\xf2\xea\x7d\x2a\xc4\x55\xc4\x07\x51", ok: true, what: "nonce ffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52972" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\x08\xd9\x99\x05\x7b\xa3\xd2\xd9\x69\x26\x00\x45\xc5\x5b\x97\xf0\x89\x02\x59\x59\xa6\xf4\x34\xd6\x51\xd2\x07\xd1\x9f\xb9\x6e\x9e\x4f\xe0\xe8\x6e\xbe\x0e\x64\xf8\x5b\x96\xa9\xc7\x52\x95\xdf\x61", s: b"\x5f\xcb\xb9\x7e\xf3\x9a\xf7\xdb\xd8\x48\xbe\x17\x77\xbd\xef\x30\x69\x38\x54\xe9\xba\x61\x5d\xfe\x74\x40\xb0\x3f\x65\x9c\x35\xbe\xc3\xd4\xfe\x4e\x20\x61\x4b\xb7\x06\xa0\x02\xce\x13\xae\x0e\x6d", ok: true, what: "nonce ffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52971" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\xd3\x6f\xed\x39\xca\x71\x06\x3a\x51\x63\xe8\x11\x9a\x37\xaf\xf1\x0f\x6b\x86\xd5\x0f\x02\xf1\xd3\x24\x23\x8d\x2b\x09\x0d\x80\x67\x08\x49\x55\x05\x66\x39\x6f\xf5\x77\x87\x38\xc0\xb3\x9b\x10\x7a", s: b"\x57\xae\x52\x6b\x5a\xe7\x4d\x27\xf9\x31\xc0\x7a\x58\xd1\x96\x06\x5e\x13\x99\xd0\x10\xde\xf4\xe7\xc7\xa7\xe0\x14\x0a\xc3\x8e\x50\x9e\x84\x45\x02\x16\x9c\xc8\xaf\xd0\x4b\x76\x02\x49\x05\x00\xd0", ok: true, what: "nonce 7fffffffffffffffffffffffffffffffffffffffffffffffe3b1a6c0fa1b96efac0d06d9245853bd76760cb5666294ba" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\xd5\xd8\x9c\x3b\x52\x82\x36\x9c\x5f\xbd\x88\xe2\xb2\x31\x51\x1a\x6b\x80\xdf\xf0\xe5\x15\x2c\xf6\xa4\x64\xfa\x94\x28\xa8\x58\x3b\xac\x8e\xbc\x77\x3d\x15\x78\x11\xa4\x62\xb8\x92\x40\x1d\xaf\xcf", s: b"\x2d\x10\xc7\x1c\x62\xe9\x23\x0a\x8e\x5e\xcb\x21\x3c\x76\xf5\x2c\xbe\x32\x30\x6c\x94\x1b\x89\x23\x37\xd1\x06\x14\x9f\x23\x73\x7c\x4b\x85\x14\x7d\x8e\xae\x2b\x4e\x1d\x2a\xb8\x39\xde\x27\x17\x7d", ok: true, what: "nonce 10" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\xf2\xe6\xf0\x6f\x0e\xa5\x33\xe8\x04\xfc\xfa\x12\xc0\x87\xd4\x46\xc7\x3e\x33\x36\x39\x4c\x98\xc5\x9d\x39\x93\x12\x4d\x37\x4e\x62\x06\x1f\xa4\x85\xbd\x1b\x8a\x65\x0c\x83\x61\xdb\xa9\xeb\x28\xb9", s: b"\xa5\x6a\xa9\xa7\xc7\x38\xe9\x61\x63\x54\x68\x2e\x9e\x91\x29\xf0\x49\xaa\x78\x4e\x97\x4c\xdd\x02\x69\xd2\xc6\xae\xc6\x19\x99\x7d\xc3\x14\x10\x72\xad\x47\xf4\x7b\x84\x36\x01\x0c\xba\xf3\x81\x51", ok: true, what: "nonce 1f" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\x7f\x73\x56\xc5\xe0\xfb\xc6\x67\x8b\xab\x99\xdf\x1f\xd9\xb2\xb4\x9f\x81\x61\x8d\x6d\x99\xaf\x63\x61\x2c\xcf\x2c\xc4\xac\xaf\x5c\x44\x81\x9b\x88\xe2\x17\xec\xd3\xcc\xe8\x2f\xe5\x5f\xf8\x6e\xd6", s: b"\x47\x32\x2d\xb4\x96\xaa\xb6\x5f\x9c\x12\x18\xef\xe5\x0f\x72\xfc\x25\x43\x1d\x63\x42\xe9\x0b\x72\x8b\x98\x50\x82\x12\x4a\x56\xe0\x6e\x8c\x79\x6a\x75\xc3\xd4\x95\xc1\x53\x2b\x0e\x3f\x9d\xf7\x99", ok: true, what: "nonce 20" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\xc1\xe1\x79\xaa\x17\x8a\x78\x00\x46\xe3\x58\x41\x76\x60\x73\x61\x2e\xa5\xe5\xab\xd2\x66\x08\xf2\x59\xa5\x99\xfc\x9a\x84\x25\xa3\xea\x63\x9d\x94\xcb\xe6\x3f\xde\x1d\x69\xc7\x0f\x93\x27\x60\x5f", s: b"\x88\xa1\x0a\x22\x09\x44\x3e\xf8\x8d\x27\x87\xf8\x7b\xb3\xc3\xdd\x27\xa7\xe6\xf6\x97\xd4\xf1\x5c\x8e\xd7\x83\xda\x3d\xff\x18\xe6\x05\x0b\x9e\x97\xa3\xe4\x97\x0e\x13\xf8\x55\x82\xcf\x2c\x9e\xdf", ok: true, what: "nonce 40" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\x35\x49\x60\x41\xea\x25\x3b\x0d\x15\x3c\x9b\xfb\xc1\x8a\x9e\x41\xaf\x34\x8a\xfd\x8b\x1c\x33\xa5\xca\x5d\x7f\xbb\xfa\x2d\x5d\x9d\x43\x6e\xd1\x01\x1b\x3d\x9d\x93\xe4\xb4\x5d\x2a\x4b\x23\x27\xf1", s: b"\xe3\x51\xfd\x42\x51\xab\x3c\x4f\x88\x84\x00\x18\x30\xb2\x43\x27\xcc\x63\x9f\xbd\x02\xd1\x98\x6f\xc1\x58\xd3\xd5\x4c\x43\x3f\xa5\xf4\x53\x3a\x44\x97\x4f\xf5\xe3\xb1\x44\xe6\xee\xa4\x15\x0e\x34", ok: true, what: "nonce 7f" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\x79\xda\x1e\x5e\x28\x97\x75\x52\xa2\x68\x82\x91\x6c\xf3\xce\x49\xe8\x2f\xa5\x6f\x53\xe2\xd9\xd9\x79\xdf\x1c\x97\x78\xd6\xd1\x60\x6c\x15\x7d\x3b\xb6\x86\x65\x08\x9b\xdd\x08\xca\xec\xd5\xd0\x92", s: b"\xb5\xf4\x88\xd7\xc3\x07\x6e\x96\xd1\xe0\x54\x5f\xfe\xda\x3a\x5e\x6d\x0d\x7d\xf9\x49\x4e\xef\x10\xee\x35\x53\x28\x8b\xbc\xcd\xd1\x90\xca\xe5\xf6\x6f\xfc\xbe\xd1\x0e\x52\x88\x24\x08\xed\x82\xfd", ok: true, what: "nonce 80" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\x3d\xc5\x6a\x32\x12\x7f\x8c\x4f\xf9\xbc\x78\x6c\x01\xf2\x31\x8d\x49\xba\xf2\x96\x0d\xf0\xfa\xfe\x9e\xf8\x15\x28\x39\x33\xf3\xe9\x6b\x25\x8c\xa2\x37\x1d\xa8\x33\x79\x4a\x45\x9a\x6c\x91\xad\x26", s: b"\x90\x9f\xf7\x20\xfb\x60\x2b\x38\x46\x35\x1e\x8f\x7d\xa2\xaf\x06\x56\x8b\x61\xf4\xaf\x80\xe4\x7b\x48\x50\x27\xa6\x25\x07\x02\x30\x81\x7a\x92\xde\xf2\x3c\xc2\xce\x9a\xbb\x51\x62\x3f\x48\x87\x77", ok: true, what: "nonce 100000000000000000000000000000000000000000000000000" },
  Sig { q: b"\x04\x6b\x4f\x18\xf7\x1e\x13\x92\x13\x41\xd8\xda\x25\xa1\xe4\x8a\xc0\x04\xb4\xc9\x4a\xe5\x8a\x90\x32\xe9\x64\x6b\x5d\x57\xb8\xc2\x94\x0a\x09\x70\xd3\xc7\xc6\x67\x30\xef\xdd\x06\x70\x71\x35\xd9\x4e\x34\xa7\xc0\xc0\x72\x83\x7e\x94\x49\x03\x58\x67\xc5\x02\x37\x9f\x2c\x82\x81\xe3\xec\x97\x74\x0e\xa6\xdc\xc6\xa1\x4a\x7e\x61\x66\x2c\x9d\xc9\x66\x12\xc6\x2e\x79\xe3\x75\xa4\x6a\x9b\x9e\x24\xd0", r: b"\x5c\x8e\x77\x2a\xb0\x0e\xee\xaf\x93\xbc\x62\xe1\x33\xdf\xe9\xc3\x1b\xdb\xc2\xba\xf5\x73\xc5\xb1\x3f\xce\xf5\x31\x62\x89\x8a\x2a\xdb\x30\x73\x17\xf1\x7e\xac\x0f\x87\xd4\x71\xa4\xb8\x81\x99\x32", s: b"\xbf\x95\x02\xb4\x21\xcf\x43\x24\xd0\x03\x96\x67\x01\x7f\xbd\xc5\xc8\x0c\x90\x7b\x78\x59\x8f\x61\x44\x0d\x96\x80\x4c\xae\x8c\xce\x54\x7c\x25\x3f\x43\x89\x0d\x27\xfa\x63\x3a\xbb\x34\x97\xe8\xa4", ok: true, what: "nonce ffffffffffffffffffffffffffffffffffffffffffffffffff" },
  Sig { q: b"\x04\xdc\xe7\x7c\xc0\xba\xd6\x97\x77\x67\x74\xca\x8a\xec\x2a\x1d\x14\x55\x3d\x02\x4c\x61\xc3\x97\x65\x2b\x56\xa7\xad\xff\x02\xb1\x97\xb9\x92\xf4\x3e\x43\x92\x58\xc3\x1d\x49\xa3\x61\x6f\xe5\x5b\xd2\x64\x11\xf7\xfc\xaf\x63\x23\x90\x96\x4f\x2c\x84\xd3\x89\xb6\x23\xb5\xf1\xc6\x20\x67\x37\x8d\x8d\x12\xfa\x0d\x1a\x47\x3a\x56\x31\xc8\xef\x93\x5b\x63\x77\x1c\x26\x7a\x9d\x06\x4a\x3c\xe9\xdd\x75", r: b"\xd2\xd2\xd2\xd2\xd2\xd2\xd2\xd2\xd2\xd2\xd2\xd2\xd2\xd2\xd2\xd2\x1d\x37\xc1\x2c\xcf\xc6\x92\x4d\x83\x7d\xcf\x63\x2c\xb5\xb5\x1d\x01\x0b\xe4\x20\x00\xca\x0f\x13\x98\xd9\xd4\x68\x97\xb7\x3d\x3a", s: b"\x2d\x2d\x2d\x2d\x2d\x2d\x2d\x2d\x2d\x2d\x2d\x2d\x2d\x2d\x2d\x2d\x21\xd3\x7c\x12\xcc\xfc\x69\x24\xd1\x24\x46\xa6\x71\x52\x41\x0d\xbb\x13\xff\xf8\x49\x22\xb5\xe0\x97\x2b\x20\x73\xe3\x14\x19\x02", ok: true, what: "u1=ffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52962 u2=10" },
  Sig { q: b"\x04\xf8\x14\x89\xe3\x15\xb9\x37\x70\x8c\xd0\x03\x37\x60\x5f\xd3\x35\x4c\xcf\x9f\x9f\xc1\x01\xcd\x29\x75\x01\x8d\x30\xcc\x7e\x5d\x69\x3b\xf4\xcc\xc0\x0d\x5d\x5e\x4f\xaa\xc6\xd4\xf4\x5a\x5b\x26\x0f\xe3\xce\x23\xe7\xa4\xb5\x47\x5e\x82\xf0\xea\xc1\xa1\xbe\x9d\xad\xdf\x62\x8d\xcd\x4b\x96\x17\xdd\x77\x8e\xac\x18\x2b\x96\xfe\x30\x7d\xe9\x12\xf4\x5e\xea\x4c\x06\x3a\x8c\xf7\x96\xd2\x12\x72\xbf", r: b"\xa6\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01\x81\xe9\x85\x80\xc6\x7a\x08\xf6\x2f\xe6\xb1\x35\x08\x26\x2e\x3c\x58\xd9\x34\xcf\x20\x14\x5e\xc3\x1a\xe6\xc4\x5d\x6b\xcc\x87", s: b"\xa6\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01\x81\xe9\x85\x80\xc6\x7a\x08\xf6\x2f\xe6\xb1\x35\x08\x26\x2e\x3c\x58\xd9\x34\xcf\x20\x14\x5e\xc3\x1a\xe6\xc4\x5d\x6b\xcc\x87", ok: true, what: "u1=80 u2=1" },
];
pub static PTS_P256: &[Pt] = &[
  Pt { xy: b"\x6b\x17\xd1\xf2\xe1\x2c\x42\x47\xf8\xbc\xe6\xe5\x63\xa4\x40\xf2\x77\x03\x7d\x81\x2d\xeb\x33\xa0\xf4\xa1\x39\x45\xd8\x98\xc2\x96\x4f\xe3\x42\xe2\xfe\x1a\x7f\x9b\x8e\xe7\xeb\x4a\x7c\x0f\x9e\x16\x2b\xce\x33\x57\x6b\x31\x5e\xce\xcb\xb6\x40\x68\x37\xbf\x51\xf5", ok: true, what: "1 G" },
  Pt { xy: b"\x7c\xf2\x7b\x18\x8d\x03\x4f\x7e\x8a\x52\x38\x03\x04\xb5\x1a\xc3\xc0\x89\x69\xe2\x77\xf2\x1b\x35\xa6\x0b\x48\xfc\x47\x66\x99\x78\x07\x77\x55\x10\xdb\x8e\xd0\x40\x29\x3d\x9a\xc6\x9f\x74\x30\xdb\xba\x7d\xad\xe6\x3c\xe9\x82\x29\x9e\x04\xb7\x9d\x22\x78\x73\xd1", ok: true, what: "2 G" },
  Pt { xy: b"\x5e\xcb\xe4\xd1\xa6\x33\x0a\x44\xc8\xf7\xef\x95\x1d\x4b\xf1\x65\xe6\xc6\xb7\x21\xef\xad\xa9\x85\xfb\x41\x66\x1b\xc6\xe7\xfd\x6c\x87\x34\x64\x0c\x49\x98\xff\x7e\x37\x4b\x06\xce\x1a\x64\xa2\xec\xd8\x2a\xb0\x36\x38\x4f\xb8\x3d\x9a\x79\xb1\x27\xa2\x7d\x50\x32", ok: true, what: "3 G" },
  Pt { xy: b"\x6b\x17\xd1\xf2\xe1\x2c\x42\x47\xf8\xbc\xe6\xe5\x63\xa4\x40\xf2\x77\x03\x7d\x81\x2d\xeb\x33\xa0\xf4\xa1\x39\x45\xd8\x98\xc2\x96\xb0\x1c\xbd\x1c\x01\xe5\x80\x65\x71\x18\x14\xb5\x83\xf0\x61\xe9\xd4\x31\xcc\xa9\x94\xce\xa1\x31\x34\x49\xbf\x97\xc8\x40\xae\x0a", ok: true, what: "ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632550 G" },
  Pt { xy: b"\x26\xef\xce\xbd\x0e\xe9\xe3\x4a\x66\x91\x87\xe1\x8b\x3a\x91\x22\xb2\xf7\x33\x94\x5b\x64\x9c\xc9\xf9\xf9\x21\xe9\xf9\xda\xd8\x12\x90\x23\x8b\xde\x9c\xc7\xbb\x33\x0d\x15\x0c\x67\x70\x4d\xd2\x5a\xe7\x05\x52\x05\x74\x4b\x6f\x31\xbf\x40\x70\x74\x58\x72\xd0\xe6", ok: true, what: "3039 G" },
  Pt { xy: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x05\x45\x92\x43\xb9\xaa\x58\x18\x06\xfe\x91\x3b\xce\x99\x81\x7a\xde\x11\xca\x50\x3c\x64\xd9\xa3\xc5\x33\x41\x5c\x08\x32\x48\xfb\xcc", ok: true, what: "small x" },
  Pt { xy: b"\xff\xff\xff\xff\x00\x00\x00\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x04\x45\x92\x43\xb9\xaa\x58\x18\x06\xfe\x91\x3b\xce\x99\x81\x7a\xde\x11\xca\x50\x3c\x64\xd9\xa3\xc5\x33\x41\x5c\x08\x32\x48\xfb\xcc", ok: false, what: "x plus p" },
  Pt { xy: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x05\xba\x6d\xbc\x45\x55\xa7\xe7\xfa\x01\x6e\xc4\x31\x66\x7e\x85\x21\xee\x35\xaf\xc4\x9b\x26\x5c\x3a\xcc\xbe\xa3\xf7\xcd\xb7\x04\x33", ok: true, what: "small x, negated" },
  Pt { xy: b"\xd7\x32\x5d\x76\x46\xcd\x60\xd8\x0a\x92\x73\x8c\xeb\x34\x5f\x84\x4c\xff\xaf\x35\x84\x10\x22\xca\xb1\x76\xf6\x92\xde\x8d\xe1\xd7\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x05", ok: true, what: "small y" },
  Pt { xy: b"\xd7\x32\x5d\x76\x46\xcd\x60\xd8\x0a\x92\x73\x8c\xeb\x34\x5f\x84\x4c\xff\xaf\x35\x84\x10\x22\xca\xb1\x76\xf6\x92\xde\x8d\xe1\xd7\xff\xff\xff\xff\x00\x00\x00\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x04", ok: false, what: "y plus p" },
  Pt { xy: b"\xd7\x32\x5d\x76\x46\xcd\x60\xd8\x0a\x92\x73\x8c\xeb\x34\x5f\x84\x4c\xff\xaf\x35\x84\x10\x22\xca\xb1\x76\xf6\x92\xde\x8d\xe1\xd7\xff\xff\xff\xff\x00\x00\x00\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xfa", ok: true, what: "-small y" },
  Pt { xy: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x66\x48\x5c\x78\x0e\x2f\x83\xd7\x24\x33\xbd\x5d\x84\xa0\x6b\xb6\x54\x1c\x2a\xf3\x1d\xae\x87\x17\x28\xbf\x85\x6a\x17\x4f\x93\xf4", ok: true, what: "x = 0" },
  Pt { xy: b"\xff\xff\xff\xff\x00\x00\x00\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x66\x48\x5c\x78\x0e\x2f\x83\xd7\x24\x33\xbd\x5d\x84\xa0\x6b\xb6\x54\x1c\x2a\xf3\x1d\xae\x87\x17\x28\xbf\x85\x6a\x17\x4f\x93\xf4", ok: false, what: "x = p" },
  Pt { xy: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: false, what: "origin" },
  Pt { xy: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01", ok: false, what: "(0,1)" },
  Pt { xy: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: false, what: "(1,0)" },
  Pt { xy: b"\x6b\x17\xd1\xf2\xe1\x2c\x42\x47\xf8\xbc\xe6\xe5\x63\xa4\x40\xf2\x77\x03\x7d\x81\x2d\xeb\x33\xa0\xf4\xa1\x39\x45\xd8\x98\xc2\x96\x4f\xe3\x42\xe2\xfe\x1a\x7f\x9b\x8e\xe7\xeb\x4a\x7c\x0f\x9e\x16\x2b\xce\x33\x57\x6b\x31\x5e\xce\xcb\xb6\x40\x68\x37\xbf\x51\xf6", ok: false, what: "y+1" },
  Pt { xy: b"\x4f\xe3\x42\xe2\xfe\x1a\x7f\x9b\x8e\xe7\xeb\x4a\x7c\x0f\x9e\x16\x2b\xce\x33\x57\x6b\x31\x5e\xce\xcb\xb6\x40\x68\x37\xbf\x51\xf5\x6b\x17\xd1\xf2\xe1\x2c\x42\x47\xf8\xbc\xe6\xe5\x63\xa4\x40\xf2\x77\x03\x7d\x81\x2d\xeb\x33\xa0\xf4\xa1\x39\x45\xd8\x98\xc2\x96", ok: false, what: "swapped" },
  Pt { xy: b"\x6b\x17\xd1\xf2\xe1\x2c\x42\x47\xf8\xbc\xe6\xe5\x63\xa4\x40\xf2\x77\x03\x7d\x81\x2d\xeb\x33\xa0\xf4\xa1\x39\x45\xd8\x98\xc2\x97\x4f\xe3\x42\xe2\xfe\x1a\x7f\x9b\x8e\xe7\xeb\x4a\x7c\x0f\x9e\x16\x2b\xce\x33\x57\x6b\x31\x5e\xce\xcb\xb6\x40\x68\x37\xbf\x51\xf5", ok: false, what: "x^1" },
  Pt { xy: b"\xff\xff\xff\xff\x00\x00\x00\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xfe\xff\xff\xff\xff\x00\x00\x00\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xfe", ok: false, what: "p-1" },
  Pt { xy: b"\xff\xff\xff\xff\x00\x00\x00\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x00\x00\x00\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff", ok: false, what: "p" },
  Pt { xy: b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff", ok: false, what: "all ones" },
  Pt { xy: b"\x6b\x17\xd1\xf2\xe1\x2c\x42\x47\xf8\xbc\xe6\xe5\x63\xa4\x40\xf2\x77\x03\x7d\x81\x2d\xeb\x33\xa0\xf4\xa1\x39\x45\xd8\x98\xc2\x96\xcf\xe3\x42\xe2\xfe\x1a\x7f\x9b\x8e\xe7\xeb\x4a\x7c\x0f\x9e\x16\x2b\xce\x33\x57\x6b\x31\x5e\xce\xcb\xb6\x40\x68\x37\xbf\x51\xf5", ok: false, what: "top bit of y" },
  Pt { xy: b"\x6b\x17\xd1\xf2\xe1\x2c\x42\x47\xf8\xbc\xe6\xe5\x63\xa4\x40\xf2\x77\x03\x7d\x81\x2d\xeb\x33\xa1\xf4\xa1\x39\x45\xd8\x98\xc2\x96\x4f\xe3\x42\xe2\xfe\x1a\x7f\x9b\x8e\xe7\xeb\x4a\x7c\x0f\x9e\x16\x2b\xce\x33\x57\x6b\x31\x5e\xce\xcb\xb6\x40\x68\x37\xbf\x51\xf5", ok: false, what: "x bit 64" },
  Pt { xy: b"\x6b\x17\xd1\xf2\xe1\x2c\x42\x47\xf8\xbc\xe6\xe5\x63\xa4\x40\xf2\x77\x03\x7d\x81\x2d\xeb\x33\xa0\xf4\xa1\x39\x45\xd8\x98\xc2\x96\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: false, what: "y=0" },
  Pt { xy: b"\x6b\x17\xd1\xf2\xe1\x2c\x42\x47\xf8\xbc\xe6\xe5\x63\xa4\x40\xf2\x77\x03\x7d\x81\x2d\xeb\x33\xa0\xf4\xa1\x39\x45\xd8\x98\xc2\x96\xff\xff\xff\xff\x00\x00\x00\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff", ok: false, what: "y=p" },
  Pt { xy: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xff\xff\xff\xff\x00\x00\x00\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff", ok: false, what: "(0,p)" },
  Pt { xy: b"\xff\xff\xff\xff\x00\x00\x00\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: false, what: "(p,0)" },
  Pt { xy: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x03\xc9\x4b\x4e\xdb\xe8\x17\x5b\x93\x8a\x7b\x77\x3b\x6b\xca\xef\x8d\x78\x5c\x1b\xba\xd4\xfc\x44\x75\x69\xac\xfb\x2a\xb8\x16\x91\x67", ok: false, what: "b+1" },
  Pt { xy: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x03\xdd\xab\xb1\xec\x8d\x2f\x41\x53\xd0\x19\x8a\xce\x80\x9e\x15\x06\x2c\x37\xf1\xaf\x4b\xb1\xdb\x08\x15\xe3\xdf\xa9\x5a\x73\x44\xc4", ok: false, what: "b+2" },
  Pt { xy: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x04\x57\xf8\xa6\x4e\x9c\x71\x52\x95\xd3\x83\xab\x05\x59\x9d\xb3\x35\xd1\x50\x51\x03\x73\x77\xc3\xb2\xa6\xea\x66\x68\x2d\x0d\x36\x67", ok: false, what: "b+5" },
];
pub static N_P256: &[u8] = b"\xff\xff\xff\xff\x00\x00\x00\x00\xff\xff\xff\xff\xff\xff\xff\xff\xbc\xe6\xfa\xad\xa7\x17\x9e\x84\xf3\xb9\xca\xc2\xfc\x63\x25\x51";
pub static P_P256: &[u8] = b"\xff\xff\xff\xff\x00\x00\x00\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff";
pub static MUL_P256: &[(&[u8], &[u8])] = &[
  (b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01", b"\x6b\x17\xd1\xf2\xe1\x2c\x42\x47\xf8\xbc\xe6\xe5\x63\xa4\x40\xf2\x77\x03\x7d\x81\x2d\xeb\x33\xa0\xf4\xa1\x39\x45\xd8\x98\xc2\x96\x4f\xe3\x42\xe2\xfe\x1a\x7f\x9b\x8e\xe7\xeb\x4a\x7c\x0f\x9e\x16\x2b\xce\x33\x57\x6b\x31\x5e\xce\xcb\xb6\x40\x68\x37\xbf\x51\xf5"),
  (b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x02", b"\x7c\xf2\x7b\x18\x8d\x03\x4f\x7e\x8a\x52\x38\x03\x04\xb5\x1a\xc3\xc0\x89\x69\xe2\x77\xf2\x1b\x35\xa6\x0b\x48\xfc\x47\x66\x99\x78\x07\x77\x55\x10\xdb\x8e\xd0\x40\x29\x3d\x9a\xc6\x9f\x74\x30\xdb\xba\x7d\xad\xe6\x3c\xe9\x82\x29\x9e\x04\xb7\x9d\x22\x78\x73\xd1"),
  (b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x03", b"\x5e\xcb\xe4\xd1\xa6\x33\x0a\x44\xc8\xf7\xef\x95\x1d\x4b\xf1\x65\xe6\xc6\xb7\x21\xef\xad\xa9\x85\xfb\x41\x66\x1b\xc6\xe7\xfd\x6c\x87\x34\x64\x0c\x49\x98\xff\x7e\x37\x4b\x06\xce\x1a\x64\xa2\xec\xd8\x2a\xb0\x36\x38\x4f\xb8\x3d\x9a\x79\xb1\x27\xa2\x7d\x50\x32"),
  (b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x04", b"\xe2\x53\x4a\x35\x32\xd0\x8f\xbb\xa0\x2d\xde\x65\x9e\xe6\x2b\xd0\x03\x1f\xe2\xdb\x78\x55\x96\xef\x50\x93\x02\x44\x6b\x03\x08\x52\xe0\xf1\x57\x5a\x4c\x63\x3c\xc7\x19\xdf\xee\x5f\xda\x86\x2d\x76\x4e\xfc\x96\xc3\xf3\x0e\xe0\x05\x5c\x42\xc2\x3f\x18\x4e\xd8\xc6"),
  (b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x07", b"\x8e\x53\x3b\x6f\xa0\xbf\x7b\x46\x25\xbb\x30\x66\x7c\x01\xfb\x60\x7e\xf9\xf8\xb8\xa8\x0f\xef\x5b\x30\x06\x28\x70\x31\x87\xb2\xa3\x73\xeb\x1d\xbd\xe0\x33\x18\x36\x6d\x06\x9f\x83\xa6\xf5\x90\x00\x53\xc7\x36\x33\xcb\x04\x1b\x21\xc5\x5e\x1a\x86\xc1\xf4\x00\xb4"),
  (b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x08", b"\x62\xd9\x77\x9d\xbe\xe9\xb0\x53\x40\x42\x74\x2d\x3a\xb5\x4c\xad\xc1\xd2\x38\x98\x0f\xce\x97\xdb\xb4\xdd\x9d\xc1\xdb\x6f\xb3\x93\xad\x5a\xcc\xbd\x91\xe9\xd8\x24\x4f\xf1\x5d\x77\x11\x67\xce\xe0\xa2\xed\x51\xf6\xbb\xe7\x6a\x78\xda\x54\x0a\x6a\x0f\x09\x95\x7e"),
  (b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x0f", b"\xf0\x45\x4d\xc6\x97\x1a\xba\xe7\xad\xfb\x37\x89\x99\x88\x82\x65\xae\x03\xaf\x92\xde\x3a\x0e\xf1\x63\x66\x8c\x63\xe5\x9b\x9d\x5f\xb5\xb9\x3e\xe3\x59\x2e\x2d\x1f\x4e\x65\x94\xe5\x1f\x96\x43\xe6\x2a\x3b\x21\xce\x75\xb5\xfa\x3f\x47\xe5\x9c\xde\x0d\x03\x4f\x36"),
  (b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x10", b"\x76\xa9\x4d\x13\x8a\x6b\x41\x85\x8b\x82\x1c\x62\x98\x36\x31\x5f\xcd\x28\x39\x2e\xff\x6c\xa0\x38\xa5\xeb\x47\x87\xe1\x27\x7c\x6e\xa9\x85\xfe\x61\x34\x1f\x26\x0e\x6c\xb0\xa1\xb5\xe1\x1e\x87\x20\x85\x99\xa0\x04\x0f\xc7\x8b\xaa\x0e\x9d\xdd\x72\x4b\x8c\x51\x10"),
  (b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x11", b"\x47\x77\x69\x04\xc0\xf1\xcc\x3a\x9c\x09\x84\xb6\x6f\x75\x30\x1a\x5f\xa6\x86\x78\xf0\xd6\x4a\xf8\xba\x1a\xbc\xe3\x47\x38\xa7\x3e\xaa\x00\x5e\xe6\xb5\xb9\x57\x28\x62\x31\x85\x65\x77\x64\x8e\x83\x81\xb2\x80\x44\x28\xd5\x73\x3f\x32\xf7\x87\xff\x71\xf1\xfc\xdc"),
  (b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x1f", b"\x30\x1d\x9e\x50\x2d\xc7\xe0\x5d\xa8\x5d\xa0\x26\xa7\xae\x9a\xa0\xfa\xc9\xdb\x7d\x52\xa9\x5b\x3e\x3e\x3f\x9a\xa0\xa1\xb4\x5b\x8b\x65\x51\xb6\xf6\xb3\x06\x12\x23\xe0\xd2\x3c\x02\x6b\x01\x7d\x72\x29\x8d\x9a\xe4\x68\x87\xca\x61\xd5\x8d\xb6\xae\xa1\x7e\xe2\x67"),
  (b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x20", b"\x23\x77\xc7\xd6\x90\xa2\x42\xca\x6c\x45\x07\x4e\x8e\xa5\xbe\xef\xaa\x55\x7f\xd5\xb6\x83\x71\xd9\xd1\x47\x5b\xd5\x2a\x7e\xd0\xe1\x47\xa1\x3f\xb9\x84\x13\xa4\x39\x3f\x8d\x90\xe9\xbf\x90\x1b\x7e\x66\x58\xa6\xcd\xec\xf4\x67\x16\xe7\xc0\x67\xb1\xdd\xb8\xd2\xb2"),
  (b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x21", b"\x98\x07\xd6\x99\xfc\xd8\x13\x56\xfa\x9a\xa2\x5b\x89\xd9\xd3\x4e\xa0\x3b\x0a\x53\x3a\xa8\x72\xfd\x65\xc1\x00\xf3\xcb\x2c\xd7\x93\xc2\xa5\x9c\xdc\xca\xb1\x1b\xf2\x86\xa0\x1a\x4d\x1d\x09\x1b\x2f\xff\xe6\x30\xb9\x6c\x58\x78\x53\x2f\x6b\xf9\x24\x79\x63\x4a\xf4"),
  (b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x3f", b"\x6a\x95\x01\xd8\x5b\xf5\xdc\x80\x2a\x1f\x28\xa0\x8a\xcc\x7d\x8f\xdf\x53\xc8\xaf\x01\xa7\xcd\x38\x32\xa2\x90\x82\x5d\x8b\xda\xc1\xca\x64\x0a\xd1\x93\x47\x37\x43\x81\xc6\xc6\xe4\x4a\x3c\x56\xa3\xf8\x46\x1b\x5c\x69\x7a\x6f\x35\x30\xaf\xf5\x3d\x5f\x1e\xf1\xa3"),
  (b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x40", b"\x0a\x06\x43\xfb\x8f\xcc\x14\xde\xf6\x7a\x6a\x5e\xb1\xbf\x8e\x91\x25\xb3\x5e\xdc\x73\x38\xd8\x16\xaa\x41\x10\xa6\xb9\x0e\xe7\x85\x55\x34\x38\x32\x4a\x9e\x79\x55\xc5\x20\xda\xcd\xa2\x92\x0e\x70\x0d\xa1\x0d\x00\xe7\x01\x2e\xd7\xba\xc0\xd1\x00\x86\x1f\x9c\xc2"),
  (b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x41", b"\x34\x32\x5d\xcb\x45\x8d\x8e\x5b\x34\x3d\x05\x35\x53\x7d\xd5\xe0\x9c\x70\x46\xaf\xcb\xf3\x9f\x66\x11\xaa\x2e\xc2\x54\xea\x34\x10\x85\x68\xd1\xdc\x50\x29\x55\x47\x96\xcd\x23\x8c\x49\x67\x67\x18\x79\x4d\xeb\x3e\xad\x76\xfe\xb8\x6f\x3b\x16\x01\xf3\xc8\x69\xc9"),
  (b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x7f", b"\x53\x4d\x45\xdb\x6b\xac\xa8\xe2\xd2\xa5\xd0\xa7\x65\xf1\x60\x13\xa8\xd4\xeb\x58\xc6\xaa\xad\x35\x67\xce\xbd\xfa\xc4\x2d\x62\x3c\xfa\xd6\x69\xc8\x9a\x2a\x54\xe4\x41\x54\x35\x7f\x99\x2c\xce\xc8\xee\xf0\x93\xe0\xf2\x3a\x63\x1d\x17\xfd\xf6\x64\x41\x9e\x50\x0c"),
  (b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", b"\xae\x3f\x7d\xba\x0b\xde\x8b\x6a\xd7\xce\x2f\x8e\xed\xe4\xb7\x62\xc5\x56\xde\xa6\x78\xf8\x59\x62\x6a\x9e\x62\x35\xa6\x74\xc4\xf6\x1c\x05\x49\xfc\x0a\x69\x99\x5a\x24\xb8\xc2\x13\x24\x9d\xb9\xa9\x79\x40\x50\x0d\x08\x5f\x8a\x5c\x1e\xe0\x55\x3e\x71\x1f\x4b\x53"),
  (b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xff", b"\xf4\x4b\x39\x75\x9a\x2e\x6d\xb7\x23\xa6\xf9\x02\x49\x97\x2d\xfd\x08\xe9\x53\x80\xf1\xfc\xa4\x70\xea\xcd\x1d\x03\xe5\xed\xf2\x14\xbe\xfa\xfc\xcf\x22\x3c\xa0\x65\xf0\xa0\xdb\x4e\xea\x93\xff\x06\xa2\x11\x6f\xca\x81\xf7\xa4\xa9\x43\x6a\x8d\x91\x7a\x02\xde\xde"),
  (b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01\x00", b"\x34\xa2\xd4\xa3\xb0\x09\x16\x59\x87\xff\xd1\x52\x86\x03\xed\x61\x19\x0d\x0b\x71\x0d\x6a\x56\x4c\x2d\xb2\xe3\x5f\x12\xd0\x44\x1b\xbe\xaa\xed\x6a\x53\xa1\xe3\xc2\x2b\xca\x71\x04\x6e\x77\x7f\xc0\xe7\xd7\x66\xb9\xde\xdd\xd8\x1d\xb4\x24\xe7\x84\x5e\x93\xb1\x46"),
  (b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x10\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", b"\x2e\xb3\x91\x0b\xde\x2a\xb9\x95\x01\x2c\x29\xdf\x8b\xbe\x0f\x50\x32\xc3\xb2\x57\x43\x28\xe5\xf7\x66\x28\xd8\x37\x00\x8e\x2d\xf0\x3f\x29\xc0\x23\x37\x47\x4b\x3a\x77\xd3\x7d\x34\x8d\xa4\x99\x9f\x95\x40\xd1\x20\xec\xf6\x5f\x49\x09\x10\xcc\x4e\xd2\x74\xea\xae"),
  (b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff", b"\xfa\xa3\x1e\x82\x4f\x81\x43\xca\xeb\x2b\x0e\x68\xde\xee\x70\xbd\x45\xdc\x5b\x9a\x78\xfa\x07\x41\xee\x22\xa6\xa7\xb9\xd0\xb2\x2f\xe6\x07\x8b\x5a\x59\x8d\xf8\xb6\x5b\xa3\xd2\x88\xe7\x0d\xb6\x04\xa2\x5d\x90\x27\x9d\x58\x6d\x11\x28\x2d\x70\x4f\x8b\xd1\x8f\x2d"),
  (b"\xff\xff\xff\xff\x00\x00\x00\x00\xff\xff\xff\xff\xff\xff\xff\xff\xbc\xe6\xfa\xad\xa7\x17\x9e\x84\xf3\xb9\xca\xc2\xfc\x63\x25\x50", b"\x6b\x17\xd1\xf2\xe1\x2c\x42\x47\xf8\xbc\xe6\xe5\x63\xa4\x40\xf2\x77\x03\x7d\x81\x2d\xeb\x33\xa0\xf4\xa1\x39\x45\xd8\x98\xc2\x96\xb0\x1c\xbd\x1c\x01\xe5\x80\x65\x71\x18\x14\xb5\x83\xf0\x61\xe9\xd4\x31\xcc\xa9\x94\xce\xa1\x31\x34\x49\xbf\x97\xc8\x40\xae\x0a"),
  (b"\xff\xff\xff\xff\x00\x00\x00\x00\xff\xff\xff\xff\xff\xff\xff\xff\xbc\xe6\xfa\xad\xa7\x17\x9e\x84\xf3\xb9\xca\xc2\xfc\x63\x25\x4f", b"\x7c\xf2\x7b\x18\x8d\x03\x4f\x7e\x8a\x52\x38\x03\x04\xb5\x1a\xc3\xc0\x89\x69\xe2\x77\xf2\x1b\x35\xa6\x0b\x48\xfc\x47\x66\x99\x78\xf8\x88\xaa\xee\x24\x71\x2f\xc0\xd6\xc2\x65\x39\x60\x8b\xcf\x24\x45\x82\x52\x1a\xc3\x16\x7d\xd6\x61\xfb\x48\x62\xdd\x87\x8c\x2e"),
  (b"\xff\xff\xff\xff\x00\x00\x00\x00\xff\xff\xff\xff\xff\xff\xff\xff\xbc\xe6\xfa\xad\xa7\x17\x9e\x84\xf3\xb9\xca\xc2\xfc\x63\x25\x4e", b"\x5e\xcb\xe4\xd1\xa6\x33\x0a\x44\xc8\xf7\xef\x95\x1d\x4b\xf1\x65\xe6\xc6\xb7\x21\xef\xad\xa9\x85\xfb\x41\x66\x1b\xc6\xe7\xfd\x6c\x78\xcb\x9b\xf2\xb6\x67\x00\x82\xc8\xb4\xf9\x31\xe5\x9b\x5d\x13\x27\xd5\x4f\xca\xc7\xb0\x47\xc2\x65\x86\x4e\xd8\x5d\x82\xaf\xcd"),
  (b"\xff\xff\xff\xff\x00\x00\x00\x00\xff\xff\xff\xff\xff\xff\xff\xff\xbc\xe6\xfa\xad\xa7\x17\x9e\x84\xf3\xb9\xca\xc2\xfc\x63\x25\x42", b"\xf0\x45\x4d\xc6\x97\x1a\xba\xe7\xad\xfb\x37\x89\x99\x88\x82\x65\xae\x03\xaf\x92\xde\x3a\x0e\xf1\x63\x66\x8c\x63\xe5\x9b\x9d\x5f\x4a\x46\xc1\x1b\xa6\xd1\xd2\xe1\xb1\x9a\x6b\x1a\xe0\x69\xbc\x19\xd5\xc4\xde\x32\x8a\x4a\x05\xc0\xb8\x1a\x63\x21\xf2\xfc\xb0\xc9"),
  (b"\xff\xff\xff\xff\x00\x00\x00\x00\xff\xff\xff\xff\xff\xff\xff\xff\xbc\xe6\xfa\xad\xa7\x17\x9e\x84\xf3\xb9\xca\xc2\xfc\x63\x25\x41", b"\x76\xa9\x4d\x13\x8a\x6b\x41\x85\x8b\x82\x1c\x62\x98\x36\x31\x5f\xcd\x28\x39\x2e\xff\x6c\xa0\x38\xa5\xeb\x47\x87\xe1\x27\x7c\x6e\x56\x7a\x01\x9d\xcb\xe0\xd9\xf2\x93\x4f\x5e\x4a\x1e\xe1\x78\xdf\x7a\x66\x5f\xfc\xf0\x38\x74\x55\xf1\x62\x22\x8d\xb4\x73\xae\xef"),
  (b"\xff\xff\xff\xff\x00\x00\x00\x00\xff\xff\xff\xff\xff\xff\xff\xff\xbc\xe6\xfa\xad\xa7\x17\x9e\x84\xf3\xb9\xca\xc2\xfc\x63\x25\x40", b"\x47\x77\x69\x04\xc0\xf1\xcc\x3a\x9c\x09\x84\xb6\x6f\x75\x30\x1a\x5f\xa6\x86\x78\xf0\xd6\x4a\xf8\xba\x1a\xbc\xe3\x47\x38\xa7\x3e\x55\xff\xa1\x18\x4a\x46\xa8\xd8\x9d\xce\x7a\x9a\x88\x9b\x71\x7c\x7e\x4d\x7f\xbc\xd7\x2a\x8c\xc0\xcd\x08\x78\x00\x8e\x0e\x03\x23"),
  (b"\xff\xff\xff\xff\x00\x00\x00\x00\xff\xff\xff\xff\xff\xff\xff\xff\xbc\xe6\xfa\xad\xa7\x17\x9e\x84\xf3\xb9\xca\xc2\xfc\x63\x25\x32", b"\x30\x1d\x9e\x50\x2d\xc7\xe0\x5d\xa8\x5d\xa0\x26\xa7\xae\x9a\xa0\xfa\xc9\xdb\x7d\x52\xa9\x5b\x3e\x3e\x3f\x9a\xa0\xa1\xb4\x5b\x8b\x9a\xae\x49\x08\x4c\xf9\xed\xdd\x1f\x2d\xc3\xfd\x94\xfe\x82\x8d\xd6\x72\x65\x1c\x97\x78\x35\x9e\x2a\x72\x49\x51\x5e\x81\x1d\x98"),
  (b"\xff\xff\xff\xff\x00\x00\x00\x00\xff\xff\xff\xff\xff\xff\xff\xff\xbc\xe6\xfa\xad\xa7\x17\x9e\x84\xf3\xb9\xca\xc2\xfc\x63\x25\x31", b"\x23\x77\xc7\xd6\x90\xa2\x42\xca\x6c\x45\x07\x4e\x8e\xa5\xbe\xef\xaa\x55\x7f\xd5\xb6\x83\x71\xd9\xd1\x47\x5b\xd5\x2a\x7e\xd0\xe1\xb8\x5e\xc0\x45\x7b\xec\x5b\xc7\xc0\x72\x6f\x16\x40\x6f\xe4\x81\x99\xa7\x59\x33\x13\x0b\x98\xe9\x18\x3f\x98\x4e\x22\x47\x2d\x4d"),
  (b"\xff\xff\xff\xff\x00\x00\x00\x00\xff\xff\xff\xff\xff\xff\xff\xff\xbc\xe6\xfa\xad\xa7\x17\x9e\x84\xf3\xb9\xca\xc2\xfc\x63\x25\x30", b"\x98\x07\xd6\x99\xfc\xd8\x13\x56\xfa\x9a\xa2\x5b\x89\xd9\xd3\x4e\xa0\x3b\x0a\x53\x3a\xa8\x72\xfd\x65\xc1\x00\xf3\xcb\x2c\xd7\x93\x3d\x5a\x63\x22\x35\x4e\xe4\x0e\x79\x5f\xe5\xb2\xe2\xf6\xe4\xd0\x00\x19\xcf\x47\x93\xa7\x87\xac\xd0\x94\x06\xdb\x86\x9c\xb5\x0b"),
  (b"\xff\xff\xff\xff\x00\x00\x00\x00\xff\xff\xff\xff\xff\xff\xff\xff\xbc\xe6\xfa\xad\xa7\x17\x9e\x84\xf3\xb9\xca\xc2\xfc\x63\x25\x11", b"\x0a\x06\x43\xfb\x8f\xcc\x14\xde\xf6\x7a\x6a\x5e\xb1\xbf\x8e\x91\x25\xb3\x5e\xdc\x73\x38\xd8\x16\xaa\x41\x10\xa6\xb9\x0e\xe7\x85\xaa\xcb\xc7\xcc\xb5\x61\x86\xab\x3a\xdf\x25\x32\x5d\x6d\xf1\x8f\xf2\x5e\xf3\x00\x18\xfe\xd1\x28\x45\x3f\x2e\xff\x79\xe0\x63\x3d"),
  (b"\xff\xff\xff\xff\x00\x00\x00\x00\xff\xff\xff\xff\xff\xff\xff\xff\xbc\xe6\xfa\xad\xa7\x17\x9e\x84\xf3\xb9\xca\xc2\xfc\x63\x24\xd2", b"\x53\x4d\x45\xdb\x6b\xac\xa8\xe2\xd2\xa5\xd0\xa7\x65\xf1\x60\x13\xa8\xd4\xeb\x58\xc6\xaa\xad\x35\x67\xce\xbd\xfa\xc4\x2d\x62\x3c\x05\x29\x96\x36\x65\xd5\xab\x1c\xbe\xab\xca\x80\x66\xd3\x31\x37\x11\x0f\x6c\x20\x0d\xc5\x9c\xe2\xe8\x02\x09\x9b\xbe\x61\xaf\xf3"),
  (b"\xff\xff\xff\xff\x00\x00\x00\x00\xff\xff\xff\xff\xff\xff\xff\xff\xbc\xe6\xfa\xad\xa7\x17\x9e\x84\xf3\xb9\xca\xc2\xfc\x63\x24\xd1", b"\xae\x3f\x7d\xba\x0b\xde\x8b\x6a\xd7\xce\x2f\x8e\xed\xe4\xb7\x62\xc5\x56\xde\xa6\x78\xf8\x59\x62\x6a\x9e\x62\x35\xa6\x74\xc4\xf6\xe3\xfa\xb6\x02\xf5\x96\x66\xa6\xdb\x47\x3d\xec\xdb\x62\x46\x56\x86\xbf\xaf\xf3\xf7\xa0\x75\xa3\xe1\x1f\xaa\xc1\x8e\xe0\xb4\xac"),
  (b"\x7f\xff\xff\xff\x80\x00\x00\x00\x7f\xff\xff\xff\xff\xff\xff\xff\xde\x73\x7d\x56\xd3\x8b\xcf\x42\x79\xdc\xe5\x61\x7e\x31\x92\xa8", b"\x2a\xfa\x38\x6b\x3f\x2b\xdc\xdb\x83\xf4\xd8\x3f\x8f\xa3\x87\x4d\x7b\x74\xdc\xb4\x54\xbd\x64\x4f\xdd\x6b\xf3\xd1\xf2\xda\x8d\xb6\x72\x18\x4b\xe1\xca\xa8\x56\x34\x62\xb5\x36\xf1\x08\x52\xd6\x65\xae\x8a\x64\xfd\xf1\xeb\x8d\x4c\x94\x6a\xd5\x89\x79\x6f\x72\x9c"),
  (b"\x7f\xff\xff\xff\x80\x00\x00\x00\x7f\xff\xff\xff\xff\xff\xff\xff\xde\x73\x7d\x56\xd3\x8b\xcf\x42\x79\xdc\xe5\x61\x7e\x31\x92\xa9", b"\x2a\xfa\x38\x6b\x3f\x2b\xdc\xdb\x83\xf4\xd8\x3f\x8f\xa3\x87\x4d\x7b\x74\xdc\xb4\x54\xbd\x64\x4f\xdd\x6b\xf3\xd1\xf2\xda\x8d\xb6\x8d\xe7\xb4\x1d\x35\x57\xa9\xcc\x9d\x4a\xc9\x0e\xf7\xad\x29\x9a\x51\x75\x9b\x03\x0e\x14\x72\xb3\x6b\x95\x2a\x76\x86\x90\x8d\x63"),
  (b"\x07\xff\xff\xff\xf8\x00\x00\x00\x07\xff\xff\xff\xff\xff\xff\xff\xfd\xe7\x37\xd5\x6d\x38\xbc\xf4\x27\x9d\xce\x56\x17\xe3\x19\x2a", b"\xf0\x05\xc5\xf3\x91\xb8\x83\x9d\x71\xd2\x37\x05\x0b\x74\x23\x10\x63\x2c\x44\x71\xbc\x90\x68\x4a\xba\xdd\xde\x57\x5f\x70\x1f\x04\x06\x46\xf5\xee\xba\xbd\x61\xaa\x6f\x1f\x83\xcb\x7a\xf6\x7c\xc8\x89\x74\x60\x19\xba\x17\xf4\x7c\x4c\x97\x93\x66\x6e\xc5\xac\x01"),
  (b"\x01\xff\xff\xff\xfe\x00\x00\x00\x01\xff\xff\xff\xff\xff\xff\xff\xff\x79\xcd\xf5\x5b\x4e\x2f\x3d\x09\xe7\x73\x95\x85\xf8\xc6\x4a", b"\x8d\xc2\x4e\xaf\xb4\xb1\x83\xb2\xb8\xba\x2e\x65\x85\xae\x7a\x60\xcb\x2f\x8d\xca\x57\x6b\xf1\x48\x07\x70\xe0\x9e\x0f\x3e\x25\x2b\xd2\x1d\xcc\x86\x66\xfe\xb6\x1f\xd3\x13\xcb\x67\x7f\x59\xbf\x1a\x6a\xb0\x0f\x9d\x3c\xee\x16\x0e\xa9\x8a\xc6\x9f\x97\x5a\xf7\x0e"),
  (b"\x95\x9f\xf6\x0f\xe8\x2e\xcd\x68\xa8\x60\x23\x44\x39\x5b\x29\xcb\xbc\xbd\xb4\x88\xdc\xdb\x58\x3a\xaf\xc0\x0d\x10\xb2\x61\x02\xfd", b"\x80\x44\xd6\xc5\x43\xb2\x3e\xa6\xe8\x0b\x2e\xb8\x36\x17\xbd\xf8\xbd\xcf\x26\x22\xbe\xd3\xa3\x74\x13\xbe\x52\xd1\x2e\x9b\x6e\xa9\x13\x69\xc7\x4d\x10\xf7\x50\xc0\x29\xdf\xf8\xf1\x4f\x42\xa4\x85\x28\xf8\x9a\xe1\xb6\x06\xa6\x89\x35\x70\x84\x2b\x2b\x5c\x00\x49"),
];
pub static PTS_P384: &[Pt] = &[
  Pt { xy: b"\xaa\x87\xca\x22\xbe\x8b\x05\x37\x8e\xb1\xc7\x1e\xf3\x20\xad\x74\x6e\x1d\x3b\x62\x8b\xa7\x9b\x98\x59\xf7\x41\xe0\x82\x54\x2a\x38\x55\x02\xf2\x5d\xbf\x55\x29\x6c\x3a\x54\x5e\x38\x72\x76\x0a\xb7\x36\x17\xde\x4a\x96\x26\x2c\x6f\x5d\x9e\x98\xbf\x92\x92\xdc\x29\xf8\xf4\x1d\xbd\x28\x9a\x14\x7c\xe9\xda\x31\x13\xb5\xf0\xb8\xc0\x0a\x60\xb1\xce\x1d\x7e\x81\x9d\x7a\x43\x1d\x7c\x90\xea\x0e\x5f", ok: true, what: "1 G" },
  Pt { xy: b"\x08\xd9\x99\x05\x7b\xa3\xd2\xd9\x69\x26\x00\x45\xc5\x5b\x97\xf0\x89\x02\x59\x59\xa6\xf4\x34\xd6\x51\xd2\x07\xd1\x9f\xb9\x6e\x9e\x4f\xe0\xe8\x6e\xbe\x0e\x64\xf8\x5b\x96\xa9\xc7\x52\x95\xdf\x61\x8e\x80\xf1\xfa\x5b\x1b\x3c\xed\xb7\xbf\xe8\xdf\xfd\x6d\xba\x74\xb2\x75\xd8\x75\xbc\x6c\xc4\x3e\x90\x4e\x50\x5f\x25\x6a\xb4\x25\x5f\xfd\x43\xe9\x4d\x39\xe2\x2d\x61\x50\x1e\x70\x0a\x94\x0e\x80", ok: true, what: "2 G" },
  Pt { xy: b"\x07\x7a\x41\xd4\x60\x6f\xfa\x14\x64\x79\x3c\x7e\x5f\xdc\x7d\x98\xcb\x9d\x39\x10\x20\x2d\xcd\x06\xbe\xa4\xf2\x40\xd3\x56\x6d\xa6\xb4\x08\xbb\xae\x50\x26\x58\x0d\x02\xd7\xe5\xc7\x05\x00\xc8\x31\xc9\x95\xf7\xca\x0b\x0c\x42\x83\x7d\x0b\xbe\x96\x02\xa9\xfc\x99\x85\x20\xb4\x1c\x85\x11\x5a\xa5\xf7\x68\x4c\x0e\xdc\x11\x1e\xac\xc2\x4a\xbd\x6b\xe4\xb5\xd2\x98\xb6\x5f\x28\x60\x0a\x2f\x1d\xf1", ok: true, what: "3 G" },
  Pt { xy: b"\xaa\x87\xca\x22\xbe\x8b\x05\x37\x8e\xb1\xc7\x1e\xf3\x20\xad\x74\x6e\x1d\x3b\x62\x8b\xa7\x9b\x98\x59\xf7\x41\xe0\x82\x54\x2a\x38\x55\x02\xf2\x5d\xbf\x55\x29\x6c\x3a\x54\x5e\x38\x72\x76\x0a\xb7\xc9\xe8\x21\xb5\x69\xd9\xd3\x90\xa2\x61\x67\x40\x6d\x6d\x23\xd6\x07\x0b\xe2\x42\xd7\x65\xeb\x83\x16\x25\xce\xec\x4a\x0f\x47\x3e\xf5\x9f\x4e\x30\xe2\x81\x7e\x62\x85\xbc\xe2\x84\x6f\x15\xf1\xa0", ok: true, what: "ffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52972 G" },
  Pt { xy: b"\xe8\x6b\x99\x5e\x35\x0e\x4d\x31\x2a\x95\xa6\xb7\xd5\xd8\xcd\xcd\xb4\x68\x2f\x58\x88\x00\xa1\xcd\x6c\x97\x2e\x1d\xcb\x2a\x5a\xc3\x8d\x90\x04\x69\x51\xb0\x3c\xcb\x3b\x17\x9a\x89\xfd\xa8\x8b\x1b\x48\x5b\x9f\x2c\x1f\x44\xb0\xdd\x41\xce\x6e\x3c\x3a\x69\x0b\xbf\xaa\xbe\xc1\xe1\xff\x4a\xef\xb2\x46\x1f\xdd\xa6\x62\x9b\xec\xbd\x43\xcf\x74\xc1\x3d\x8c\x1a\x16\x25\x61\x22\x43\xf0\x04\x61\x48", ok: true, what: "3039 G" },
  Pt { xy: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x0a\x0c\xe4\x0a\xcc\xcb\xc0\xaa\xcf\x8b\xda\xfb\xd8\xfa\x2d\xa2\x74\xec\xcc\xb6\x5d\x11\xcb\x70\xe1\xbe\x93\x04\x53\xc1\x99\x6d\x3c\xfb\x8c\x6b\x7c\xb6\xa3\x56\x42\x3c\x0e\xe8\x00\x90\xb4\x39\x7d", ok: true, what: "small x" },
  Pt { xy: b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xfe\xff\xff\xff\xff\x00\x00\x00\x00\x00\x00\x00\x01\x00\x00\x00\x09\x0c\xe4\x0a\xcc\xcb\xc0\xaa\xcf\x8b\xda\xfb\xd8\xfa\x2d\xa2\x74\xec\xcc\xb6\x5d\x11\xcb\x70\xe1\xbe\x93\x04\x53\xc1\x99\x6d\x3c\xfb\x8c\x6b\x7c\xb6\xa3\x56\x42\x3c\x0e\xe8\x00\x90\xb4\x39\x7d", ok: false, what: "x plus p" },
  Pt { xy: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x0a\xf3\x1b\xf5\x33\x34\x3f\x55\x30\x74\x25\x04\x27\x05\xd2\x5d\x8b\x13\x33\x49\xa2\xee\x34\x8f\x1e\x41\x6c\xfb\xac\x3e\x66\x92\xc2\x04\x73\x94\x82\x49\x5c\xa9\xbd\xc3\xf1\x18\x00\x6f\x4b\xc6\x82", ok: true, what: "small x, negated" },
  Pt { xy: b"\x74\x2b\x13\x63\xc4\x6d\xbf\x7b\x08\x56\xf7\x5f\x64\xc4\x64\xdc\xbe\x24\x6f\xf7\x96\x6c\x14\x98\xfa\xa7\x11\xc4\xcf\x9c\x00\xf1\xe8\x00\xd9\x3c\xc0\x4a\x34\x55\x92\x38\x00\xcf\x11\xc8\x12\xf4\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x02", ok: true, what: "small y" },
  Pt { xy: b"\x74\x2b\x13\x63\xc4\x6d\xbf\x7b\x08\x56\xf7\x5f\x64\xc4\x64\xdc\xbe\x24\x6f\xf7\x96\x6c\x14\x98\xfa\xa7\x11\xc4\xcf\x9c\x00\xf1\xe8\x00\xd9\x3c\xc0\x4a\x34\x55\x92\x38\x00\xcf\x11\xc8\x12\xf4\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xfe\xff\xff\xff\xff\x00\x00\x00\x00\x00\x00\x00\x01\x00\x00\x00\x01", ok: false, what: "y plus p" },
  Pt { xy: b"\x74\x2b\x13\x63\xc4\x6d\xbf\x7b\x08\x56\xf7\x5f\x64\xc4\x64\xdc\xbe\x24\x6f\xf7\x96\x6c\x14\x98\xfa\xa7\x11\xc4\xcf\x9c\x00\xf1\xe8\x00\xd9\x3c\xc0\x4a\x34\x55\x92\x38\x00\xcf\x11\xc8\x12\xf4\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xfe\xff\xff\xff\xff\x00\x00\x00\x00\x00\x00\x00\x00\xff\xff\xff\xfd", ok: true, what: "-small y" },
  Pt { xy: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xc3\x06\x61\x0f\xb0\xae\x5a\x15\x9c\xf4\x5c\x06\x06\x9f\x22\xa6\xc5\xeb\x36\x41\xc6\x02\xd4\x2d\xea\x2c\x4b\x4f\x75\x55\x07\x93\x40\x6d\x80\xd2\xb9\x1a\xd5\x4f\x90\x48\xbd\x48\x7a\xf1\xad\xe1", ok: true, what: "x = 0" },
  Pt { xy: b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xfe\xff\xff\xff\xff\x00\x00\x00\x00\x00\x00\x00\x00\xff\xff\xff\xff\xc3\x06\x61\x0f\xb0\xae\x5a\x15\x9c\xf4\x5c\x06\x06\x9f\x22\xa6\xc5\xeb\x36\x41\xc6\x02\xd4\x2d\xea\x2c\x4b\x4f\x75\x55\x07\x93\x40\x6d\x80\xd2\xb9\x1a\xd5\x4f\x90\x48\xbd\x48\x7a\xf1\xad\xe1", ok: false, what: "x = p" },
  Pt { xy: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: false, what: "origin" },
  Pt { xy: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01", ok: false, what: "(0,1)" },
  Pt { xy: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: false, what: "(1,0)" },
  Pt { xy: b"\xaa\x87\xca\x22\xbe\x8b\x05\x37\x8e\xb1\xc7\x1e\xf3\x20\xad\x74\x6e\x1d\x3b\x62\x8b\xa7\x9b\x98\x59\xf7\x41\xe0\x82\x54\x2a\x38\x55\x02\xf2\x5d\xbf\x55\x29\x6c\x3a\x54\x5e\x38\x72\x76\x0a\xb7\x36\x17\xde\x4a\x96\x26\x2c\x6f\x5d\x9e\x98\xbf\x92\x92\xdc\x29\xf8\xf4\x1d\xbd\x28\x9a\x14\x7c\xe9\xda\x31\x13\xb5\xf0\xb8\xc0\x0a\x60\xb1\xce\x1d\x7e\x81\x9d\x7a\x43\x1d\x7c\x90\xea\x0e\x60", ok: false, what: "y+1" },
  Pt { xy: b"\x36\x17\xde\x4a\x96\x26\x2c\x6f\x5d\x9e\x98\xbf\x92\x92\xdc\x29\xf8\xf4\x1d\xbd\x28\x9a\x14\x7c\xe9\xda\x31\x13\xb5\xf0\xb8\xc0\x0a\x60\xb1\xce\x1d\x7e\x81\x9d\x7a\x43\x1d\x7c\x90\xea\x0e\x5f\xaa\x87\xca\x22\xbe\x8b\x05\x37\x8e\xb1\xc7\x1e\xf3\x20\xad\x74\x6e\x1d\x3b\x62\x8b\xa7\x9b\x98\x59\xf7\x41\xe0\x82\x54\x2a\x38\x55\x02\xf2\x5d\xbf\x55\x29\x6c\x3a\x54\x5e\x38\x72\x76\x0a\xb7", ok: false, what: "swapped" },
  Pt { xy: b"\xaa\x87\xca\x22\xbe\x8b\x05\x37\x8e\xb1\xc7\x1e\xf3\x20\xad\x74\x6e\x1d\x3b\x62\x8b\xa7\x9b\x98\x59\xf7\x41\xe0\x82\x54\x2a\x38\x55\x02\xf2\x5d\xbf\x55\x29\x6c\x3a\x54\x5e\x38\x72\x76\x0a\xb6\x36\x17\xde\x4a\x96\x26\x2c\x6f\x5d\x9e\x98\xbf\x92\x92\xdc\x29\xf8\xf4\x1d\xbd\x28\x9a\x14\x7c\xe9\xda\x31\x13\xb5\xf0\xb8\xc0\x0a\x60\xb1\xce\x1d\x7e\x81\x9d\x7a\x43\x1d\x7c\x90\xea\x0e\x5f", ok: false, what: "x^1" },
  Pt { xy: b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xfe\xff\xff\xff\xff\x00\x00\x00\x00\x00\x00\x00\x00\xff\xff\xff\xfe\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xfe\xff\xff\xff\xff\x00\x00\x00\x00\x00\x00\x00\x00\xff\xff\xff\xfe", ok: false, what: "p-1" },
  Pt { xy: b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xfe\xff\xff\xff\xff\x00\x00\x00\x00\x00\x00\x00\x00\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xfe\xff\xff\xff\xff\x00\x00\x00\x00\x00\x00\x00\x00\xff\xff\xff\xff", ok: false, what: "p" },
  Pt { xy: b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff", ok: false, what: "all ones" },
  Pt { xy: b"\xaa\x87\xca\x22\xbe\x8b\x05\x37\x8e\xb1\xc7\x1e\xf3\x20\xad\x74\x6e\x1d\x3b\x62\x8b\xa7\x9b\x98\x59\xf7\x41\xe0\x82\x54\x2a\x38\x55\x02\xf2\x5d\xbf\x55\x29\x6c\x3a\x54\x5e\x38\x72\x76\x0a\xb7\xb6\x17\xde\x4a\x96\x26\x2c\x6f\x5d\x9e\x98\xbf\x92\x92\xdc\x29\xf8\xf4\x1d\xbd\x28\x9a\x14\x7c\xe9\xda\x31\x13\xb5\xf0\xb8\xc0\x0a\x60\xb1\xce\x1d\x7e\x81\x9d\x7a\x43\x1d\x7c\x90\xea\x0e\x5f", ok: false, what: "top bit of y" },
  Pt { xy: b"\xaa\x87\xca\x22\xbe\x8b\x05\x37\x8e\xb1\xc7\x1e\xf3\x20\xad\x74\x6e\x1d\x3b\x62\x8b\xa7\x9b\x98\x59\xf7\x41\xe0\x82\x54\x2a\x38\x55\x02\xf2\x5d\xbf\x55\x29\x6d\x3a\x54\x5e\x38\x72\x76\x0a\xb7\x36\x17\xde\x4a\x96\x26\x2c\x6f\x5d\x9e\x98\xbf\x92\x92\xdc\x29\xf8\xf4\x1d\xbd\x28\x9a\x14\x7c\xe9\xda\x31\x13\xb5\xf0\xb8\xc0\x0a\x60\xb1\xce\x1d\x7e\x81\x9d\x7a\x43\x1d\x7c\x90\xea\x0e\x5f", ok: false, what: "x bit 64" },
  Pt { xy: b"\xaa\x87\xca\x22\xbe\x8b\x05\x37\x8e\xb1\xc7\x1e\xf3\x20\xad\x74\x6e\x1d\x3b\x62\x8b\xa7\x9b\x98\x59\xf7\x41\xe0\x82\x54\x2a\x38\x55\x02\xf2\x5d\xbf\x55\x29\x6c\x3a\x54\x5e\x38\x72\x76\x0a\xb7\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: false, what: "y=0" },
  Pt { xy: b"\xaa\x87\xca\x22\xbe\x8b\x05\x37\x8e\xb1\xc7\x1e\xf3\x20\xad\x74\x6e\x1d\x3b\x62\x8b\xa7\x9b\x98\x59\xf7\x41\xe0\x82\x54\x2a\x38\x55\x02\xf2\x5d\xbf\x55\x29\x6c\x3a\x54\x5e\x38\x72\x76\x0a\xb7\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xfe\xff\xff\xff\xff\x00\x00\x00\x00\x00\x00\x00\x00\xff\xff\xff\xff", ok: false, what: "y=p" },
  Pt { xy: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xfe\xff\xff\xff\xff\x00\x00\x00\x00\x00\x00\x00\x00\xff\xff\xff\xff", ok: false, what: "(0,p)" },
  Pt { xy: b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xfe\xff\xff\xff\xff\x00\x00\x00\x00\x00\x00\x00\x00\xff\xff\xff\xff\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: false, what: "(p,0)" },
  Pt { xy: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x03\xb2\x36\x6a\xf8\x25\x22\x13\xb1\x0a\x49\xd7\xd2\x89\xc4\xd4\xaf\x7a\x14\x7e\x3f\x0a\x30\xfd\x2d\x51\xb1\xa9\x6c\x2f\x32\x68\xfe\x3e\x69\x8c\x46\x70\x43\x3c\x48\xc1\xdc\x55\x4e\x88\xb8\x27\xd4", ok: false, what: "b+1" },
  Pt { xy: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x03\xc6\x51\x46\xbb\x40\xa2\xae\x9a\x27\x1f\xad\xee\x60\xe1\x50\x3d\xd3\x45\x10\xa0\xde\x63\xff\xe0\x70\x99\x01\xa4\x77\xb6\x50\x5d\xaa\x90\xb0\xed\xaa\x12\xdc\xfa\xef\x8a\x62\x56\x06\x9a\x1d\x7d", ok: false, what: "b+2" },
  Pt { xy: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x03\x83\x00\x6e\x3f\xaa\xa9\xc9\x99\x8c\x94\x40\x2c\xb1\x47\xe8\xb2\x2e\x59\xf2\x13\x87\x87\xf5\x3a\x43\xd0\x21\x10\x7b\x86\xfc\x3f\xe0\xbe\xc1\x82\xb5\xa0\x93\x59\xc5\xde\xcb\xd0\xad\x1d\x76\x54", ok: false, what: "b+5" },
];
pub static N_P384: &[u8] = b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xc7\x63\x4d\x81\xf4\x37\x2d\xdf\x58\x1a\x0d\xb2\x48\xb0\xa7\x7a\xec\xec\x19\x6a\xcc\xc5\x29\x73";
pub static P_P384: &[u8] = b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xfe\xff\xff\xff\xff\x00\x00\x00\x00\x00\x00\x00\x00\xff\xff\xff\xff";
pub static MUL_P384: &[(&[u8], &[u8])] = &[
  (b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01", b"\xaa\x87\xca\x22\xbe\x8b\x05\x37\x8e\xb1\xc7\x1e\xf3\x20\xad\x74\x6e\x1d\x3b\x62\x8b\xa7\x9b\x98\x59\xf7\x41\xe0\x82\x54\x2a\x38\x55\x02\xf2\x5d\xbf\x55\x29\x6c\x3a\x54\x5e\x38\x72\x76\x0a\xb7\x36\x17\xde\x4a\x96\x26\x2c\x6f\x5d\x9e\x98\xbf\x92\x92\xdc\x29\xf8\xf4\x1d\xbd\x28\x9a\x14\x7c\xe9\xda\x31\x13\xb5\xf0\xb8\xc0\x0a\x60\xb1\xce\x1d\x7e\x81\x9d\x7a\x43\x1d\x7c\x90\xea\x0e\x5f"),
  (b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x02", b"\x08\xd9\x99\x05\x7b\xa3\xd2\xd9\x69\x26\x00\x45\xc5\x5b\x97\xf0\x89\x02\x59\x59\xa6\xf4\x34\xd6\x51\xd2\x07\xd1\x9f\xb9\x6e\x9e\x4f\xe0\xe8\x6e\xbe\x0e\x64\xf8\x5b\x96\xa9\xc7\x52\x95\xdf\x61\x8e\x80\xf1\xfa\x5b\x1b\x3c\xed\xb7\xbf\xe8\xdf\xfd\x6d\xba\x74\xb2\x75\xd8\x75\xbc\x6c\xc4\x3e\x90\x4e\x50\x5f\x25\x6a\xb4\x25\x5f\xfd\x43\xe9\x4d\x39\xe2\x2d\x61\x50\x1e\x70\x0a\x94\x0e\x80"),
  (b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x03", b"\x07\x7a\x41\xd4\x60\x6f\xfa\x14\x64\x79\x3c\x7e\x5f\xdc\x7d\x98\xcb\x9d\x39\x10\x20\x2d\xcd\x06\xbe\xa4\xf2\x40\xd3\x56\x6d\xa6\xb4\x08\xbb\xae\x50\x26\x58\x0d\x02\xd7\xe5\xc7\x05\x00\xc8\x31\xc9\x95\xf7\xca\x0b\x0c\x42\x83\x7d\x0b\xbe\x96\x02\xa9\xfc\x99\x85\x20\xb4\x1c\x85\x11\x5a\xa5\xf7\x68\x4c\x0e\xdc\x11\x1e\xac\xc2\x4a\xbd\x6b\xe4\xb5\xd2\x98\xb6\x5f\x28\x60\x0a\x2f\x1d\xf1"),
  (b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x04", b"\x13\x82\x51\xcd\x52\xac\x92\x98\xc1\xc8\xaa\xd9\x77\x32\x1d\xeb\x97\xe7\x09\xbd\x0b\x4c\xa0\xac\xa5\x5d\xc8\xad\x51\xdc\xfc\x9d\x15\x89\xa1\x59\x7e\x3a\x51\x20\xe1\xef\xd6\x31\xc6\x3e\x18\x35\xca\xca\xe2\x98\x69\xa6\x2e\x16\x31\xe8\xa2\x81\x81\xab\x56\x61\x6d\xc4\x5d\x91\x8a\xbc\x09\xf3\xab\x0e\x63\xcf\x79\x2a\xa4\xdc\xed\x73\x87\xbe\x37\xbb\xa5\x69\x54\x9f\x1c\x02\xb2\x70\xed\x67"),
  (b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x07", b"\x28\x3c\x1d\x73\x65\xce\x47\x88\xf2\x9f\x8e\xbf\x23\x4e\xdf\xfe\xad\x6f\xe9\x97\xfb\xea\x5f\xfa\x2d\x58\xcc\x9d\xfa\x7b\x1c\x50\x8b\x05\x52\x6f\x55\xb9\xeb\xb2\x04\x0f\x05\xb4\x8f\xb6\xd0\xe1\x94\x75\xc9\x90\x61\xe4\x1b\x88\xba\x52\xef\xdb\x8c\x16\x90\x47\x1a\x61\xd8\x67\xed\x79\x97\x29\xd9\xc9\x2c\xd0\x1d\xbd\x22\x56\x30\xd8\x4e\xde\x32\xa7\x8f\x9e\x64\x66\x4c\xda\xc5\x12\xef\x8c"),
  (b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x08", b"\x16\x92\x77\x8e\xa5\x96\xe0\xbe\x75\x11\x42\x97\xa6\xfa\x38\x34\x45\xbf\x22\x7f\xbe\x58\x19\x0a\x90\x0c\x3c\x73\x25\x6f\x11\xfb\x5a\x32\x58\xd6\xf4\x03\xd5\xec\xe6\xe9\xb2\x69\xd8\x22\xc8\x7d\xdc\xd2\x36\x57\x00\xd4\x10\x6a\x83\x53\x88\xba\x3d\xb8\xfd\x0e\x22\x55\x4a\xdc\x6d\x52\x1c\xd4\xbd\x1c\x30\xc2\xec\x0e\xec\x19\x6b\xad\xe1\xe9\xcd\xd1\x70\x8d\x6f\x6a\xbf\xa4\x02\x2b\x0a\xd2"),
  (b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x0f", b"\xb3\xd1\x3f\xc8\xb3\x2b\x01\x05\x8c\xc1\x5c\x11\xd8\x13\x52\x55\x22\xa9\x41\x56\xff\xf0\x1c\x20\x5b\x21\xf9\xf7\xda\x7c\x4e\x9c\xa8\x49\x55\x7a\x10\xb6\x38\x3b\x4b\x88\x70\x1a\x96\x06\x86\x0b\x15\x29\x19\xe7\xdf\x91\x62\xa6\x1b\x04\x9b\x25\x36\x16\x4b\x1b\xee\xba\xc4\xa1\x1d\x74\x9a\xf4\x84\xd1\x11\x43\x73\xdf\xbf\xd9\x83\x8d\x24\xf8\xb2\x84\xaf\x50\x98\x5d\x58\x8d\x33\xf7\xbd\x62"),
  (b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x10", b"\xd5\xd8\x9c\x3b\x52\x82\x36\x9c\x5f\xbd\x88\xe2\xb2\x31\x51\x1a\x6b\x80\xdf\xf0\xe5\x15\x2c\xf6\xa4\x64\xfa\x94\x28\xa8\x58\x3b\xac\x8e\xbc\x77\x3d\x15\x78\x11\xa4\x62\xb8\x92\x40\x1d\xaf\xcf\xd8\x15\x22\x9d\xe1\x29\x06\xd2\x41\x81\x6d\x5e\x9a\x94\x48\xf1\xd4\x1d\x4f\xc4\x0e\x2a\x3b\xdb\x9c\xab\xa5\x7e\x44\x0a\x7a\xba\xd1\x21\x0c\xb8\xf4\x9b\xf2\x23\x68\x22\xb7\x55\xeb\xab\x36\x73"),
  (b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x11", b"\x40\x99\x95\x22\x08\xb4\x88\x96\x00\xa5\xeb\xbc\xb1\x3e\x1a\x32\x69\x2b\xef\xb0\x73\x3b\x41\xe6\xdc\xc6\x14\xe4\x2e\x58\x05\xf8\x17\x01\x2a\x99\x1a\xf1\xf4\x86\xca\xf3\xa9\xad\xd9\xff\xcc\x03\x5e\xcf\x94\x77\x78\x33\x05\x98\x39\x47\x45\x94\xaf\x60\x35\x98\x16\x3a\xd3\xf8\x00\x8a\xd0\xcd\x9b\x79\x7d\x27\x7f\x23\x88\xb3\x04\xda\x4d\x2f\xaa\x96\x80\xec\xfa\x65\x0e\xf5\xe2\x3b\x09\xa0"),
  (b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x1f", b"\xf2\xe6\xf0\x6f\x0e\xa5\x33\xe8\x04\xfc\xfa\x12\xc0\x87\xd4\x46\xc7\x3e\x33\x36\x39\x4c\x98\xc5\x9d\x39\x93\x12\x4d\x37\x4e\x62\x06\x1f\xa4\x85\xbd\x1b\x8a\x65\x0c\x83\x61\xdb\xa9\xeb\x28\xb9\x8f\x86\xe4\x64\xc2\x00\xbc\x46\xf9\xe4\x42\x61\x2f\xcf\xfb\xd1\x4a\x04\x1a\x86\x51\x78\x0d\x31\x3f\xb0\xb9\xac\x11\x42\x51\xcd\x3e\x88\x02\xc6\xd2\xfc\x9e\xbf\x31\x52\xf5\xba\x78\x52\x68\x0c"),
  (b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x20", b"\x7f\x73\x56\xc5\xe0\xfb\xc6\x67\x8b\xab\x99\xdf\x1f\xd9\xb2\xb4\x9f\x81\x61\x8d\x6d\x99\xaf\x63\x61\x2c\xcf\x2c\xc4\xac\xaf\x5c\x44\x81\x9b\x88\xe2\x17\xec\xd3\xcc\xe8\x2f\xe5\x5f\xf8\x6e\xd6\xe0\x03\xb3\x1d\xe2\x05\x0a\x4a\x43\xd1\xa5\xfb\x9b\x4c\xa6\x62\x2b\xc5\x5e\x5d\xe0\xc3\xe6\xf2\xea\x6b\x40\x99\x59\x68\xc7\x51\xc7\x5d\x15\x13\xaa\x61\x4b\xc2\x53\xee\x2c\xe8\x69\x61\x87\x7b"),
  (b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x21", b"\x38\xdb\xd5\x82\x38\xc2\x1b\xbc\xa9\x27\x58\xf2\x77\x3b\xb6\xc9\x55\x49\x27\x15\x87\x9f\x54\xbd\xaf\x24\x6b\x3f\x70\xbe\xc9\x0d\x63\x1e\xae\xd9\x7a\xdd\x3f\xe2\xae\xfd\x7f\xec\x48\x2c\x80\x2a\x82\x8c\x26\x69\x4d\xf8\x18\x89\x12\xa7\x7e\x14\x83\x73\xd3\x0f\xef\xf5\x4a\x71\x65\x11\xf5\xf1\x7b\x86\xf2\xab\xa9\xbd\x95\x27\xd3\x14\x5e\xa7\xab\xbf\x43\x70\x59\x9a\x06\x67\x26\xd3\x33\xbb"),
  (b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x3f", b"\xb3\x2e\x89\xeb\x94\x2a\xab\x11\x2c\xae\x50\x8f\x51\x64\xca\x6c\xac\x33\x47\x69\xde\x35\x8b\x33\x3c\x96\x8c\xfb\xb8\x3c\x8f\x7b\x94\x15\x60\x58\x3d\xef\x54\x31\xaf\xd5\x74\xf7\xe0\x08\xf8\xaf\xb1\xe3\xae\x71\x66\xd9\x71\x03\x24\xe2\xbf\x69\x60\x3f\xfd\x5b\xa7\x70\xfc\x48\xb7\x3e\xdc\x06\x79\xcd\xdd\x7a\x04\x99\x00\x95\x35\xda\xed\xff\x59\xe7\x4a\x1a\xc8\x1a\xbe\x09\x44\xe1\x1e\x2c"),
  (b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x40", b"\xc1\xe1\x79\xaa\x17\x8a\x78\x00\x46\xe3\x58\x41\x76\x60\x73\x61\x2e\xa5\xe5\xab\xd2\x66\x08\xf2\x59\xa5\x99\xfc\x9a\x84\x25\xa3\xea\x63\x9d\x94\xcb\xe6\x3f\xde\x1d\x69\xc7\x0f\x93\x27\x60\x5f\xc3\x84\x2f\x6e\x4d\xbc\xa6\xd6\x09\xba\x61\x71\x65\x03\x71\xb2\xad\xc0\x76\x40\xa2\x42\x0e\xab\xf7\xe8\x29\x1e\xaf\xa2\x1b\x56\xee\xf3\x18\x60\xc2\x0d\xde\xb8\x8b\x45\xf0\xb4\x85\x6f\x8e\xa5"),
  (b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x41", b"\x88\xd1\x36\xb5\xcf\x91\x5a\x2b\xd4\x52\xd4\x05\x30\x43\x35\x42\xce\xc9\x28\x9d\x95\xcc\x77\xab\x51\x27\x3a\x44\xb2\x69\xdb\x68\xd1\x60\x29\x78\xc6\x9c\xc1\x8b\x6d\xfd\xfc\x9d\x07\xd6\xc3\xe7\xbc\xb5\x76\x5b\x04\x50\x1d\x46\xe9\xad\xd3\x7f\x16\x94\xea\x0c\x1b\x74\xe2\x08\x6f\x44\x85\xf9\x60\x28\xfc\xb8\x6d\xb0\xeb\xca\x42\xdf\x7f\x37\xb8\xe7\x54\x67\x51\x15\x61\x70\xed\x6f\x32\xc9"),
  (b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x7f", b"\x35\x49\x60\x41\xea\x25\x3b\x0d\x15\x3c\x9b\xfb\xc1\x8a\x9e\x41\xaf\x34\x8a\xfd\x8b\x1c\x33\xa5\xca\x5d\x7f\xbb\xfa\x2d\x5d\x9d\x43\x6e\xd1\x01\x1b\x3d\x9d\x93\xe4\xb4\x5d\x2a\x4b\x23\x27\xf1\x73\xce\x1e\xaa\x4f\xfd\xdc\x1d\x69\xd9\xe0\x9d\x16\x46\x19\xae\x8d\xd2\xce\x26\x6f\x9d\xb6\xc3\x30\xa5\x05\x7c\x7d\x62\xde\x8f\x8e\xc3\xce\x9b\xa7\xc1\x71\xb9\xb0\x2a\xda\x1c\xb3\x42\x61\x58"),
  (b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", b"\x79\xda\x1e\x5e\x28\x97\x75\x52\xa2\x68\x82\x91\x6c\xf3\xce\x49\xe8\x2f\xa5\x6f\x53\xe2\xd9\xd9\x79\xdf\x1c\x97\x78\xd6\xd1\x60\x6c\x15\x7d\x3b\xb6\x86\x65\x08\x9b\xdd\x08\xca\xec\xd5\xd0\x92\x57\xa8\xe5\x2c\x2d\x2b\x9c\x5d\x7c\x6a\x5a\xfb\x8b\x09\x9d\x07\x6e\x16\xe4\xdc\x83\x9f\x86\x1c\xb1\x57\xaa\xcc\xd7\x2e\xb9\xeb\x96\xd0\x20\x2b\xef\x0a\xc8\x39\x65\xe7\x6e\xe7\xf8\x24\x99\xf9"),
  (b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xff", b"\x91\x3e\xe5\x85\xac\x49\x13\x87\x78\x36\x68\x88\x05\x5f\x6e\x18\x87\x4e\x4b\xa0\xf4\x5c\x6c\x0d\x9c\xdc\x23\xc6\x62\x40\x1a\xe2\x7d\x44\x70\x4a\xf1\x37\xe6\xfa\x6c\x67\x92\x38\x03\x1e\x49\xa5\x12\x2f\xb8\xa5\x13\x07\x41\x00\x51\xad\xc3\x84\x69\x90\xcc\xa4\xca\x65\xc8\xae\xc1\xf2\xf2\x23\x1a\x13\x6f\x3d\xd8\xa1\x5c\x1e\x62\x65\x21\x17\x71\xae\x52\xc5\xfa\x62\xd8\xe7\x48\x7d\xb3\xb1"),
  (b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01\x00", b"\x21\xa4\xf5\xd3\x69\x26\x92\x55\xde\xda\x6f\x06\x36\xc5\x01\x8a\xb3\xf2\x46\x7a\x35\x1b\xc3\x5e\xa2\x19\x3f\x92\xa7\xdf\xfd\xed\xb8\xe0\xf0\x3c\xea\xd4\xd0\xdc\xbd\x5e\xa7\x87\x76\xea\xd2\xe4\x38\x84\x92\x36\x50\x51\x45\x91\xe9\xa5\x95\xae\x82\x8d\x35\xe0\xd7\x8d\x4d\x86\x03\x72\xdf\x0c\x6a\x6a\x72\xaa\x96\x7f\x58\x7e\xdd\x57\x4f\x9c\xbc\x92\x6b\x83\x4a\x0a\xb4\xd4\x09\xea\x07\xcb"),
  (b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x10\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", b"\xa3\xf9\x73\x76\x5d\x6b\xd8\xaf\x7d\xbe\x99\x7e\xc1\xbd\x4c\x63\x42\x24\x54\xf0\xda\x22\x0c\x9b\x0a\x8c\xe9\x40\x54\xa6\x35\x92\xff\xe3\x07\x59\x72\xdc\xbd\x76\x97\x03\xb2\xf6\x36\x4f\x3d\x9b\x22\x8c\x22\x28\x33\x43\x59\x53\x06\x1b\x2b\xce\x4e\x84\xc4\xa3\xf7\x2b\xf2\xa5\x32\x51\xdf\xef\x19\x42\x58\x28\x07\x6e\xec\x6c\x9f\xe7\x0e\x8c\xca\xba\x01\x02\xac\xbd\xc0\x14\x1f\xb6\x2a\xbf"),
  (b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff", b"\x64\x88\x91\x2f\x76\xb3\xb0\x99\xa8\xd5\x24\x4c\x34\xbd\x18\xb3\x98\xad\x61\x3b\x21\x6d\x2c\xad\xb2\xa2\xe8\x90\x30\xc0\x96\xcd\xb8\x61\x28\xab\x7f\x61\x8a\xf3\xc9\xfd\xe3\xe2\xf6\xbd\x0c\x1e\x6a\x8e\x65\xff\x89\x29\x03\x79\x0b\x6a\x28\xca\xe0\x2e\x41\x19\x76\x85\x2b\xd4\x00\x2a\x46\x74\x6a\x6d\xa6\x9f\x56\xf2\xc0\x39\x40\x3e\xe4\xf5\xf9\xf0\x9b\xfc\xc3\xef\xa1\x72\xc1\x9d\x36\xce"),
  (b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xc7\x63\x4d\x81\xf4\x37\x2d\xdf\x58\x1a\x0d\xb2\x48\xb0\xa7\x7a\xec\xec\x19\x6a\xcc\xc5\x29\x72", b"\xaa\x87\xca\x22\xbe\x8b\x05\x37\x8e\xb1\xc7\x1e\xf3\x20\xad\x74\x6e\x1d\x3b\x62\x8b\xa7\x9b\x98\x59\xf7\x41\xe0\x82\x54\x2a\x38\x55\x02\xf2\x5d\xbf\x55\x29\x6c\x3a\x54\x5e\x38\x72\x76\x0a\xb7\xc9\xe8\x21\xb5\x69\xd9\xd3\x90\xa2\x61\x67\x40\x6d\x6d\x23\xd6\x07\x0b\xe2\x42\xd7\x65\xeb\x83\x16\x25\xce\xec\x4a\x0f\x47\x3e\xf5\x9f\x4e\x30\xe2\x81\x7e\x62\x85\xbc\xe2\x84\x6f\x15\xf1\xa0"),
  (b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xc7\x63\x4d\x81\xf4\x37\x2d\xdf\x58\x1a\x0d\xb2\x48\xb0\xa7\x7a\xec\xec\x19\x6a\xcc\xc5\x29\x71", b"\x08\xd9\x99\x05\x7b\xa3\xd2\xd9\x69\x26\x00\x45\xc5\x5b\x97\xf0\x89\x02\x59\x59\xa6\xf4\x34\xd6\x51\xd2\x07\xd1\x9f\xb9\x6e\x9e\x4f\xe0\xe8\x6e\xbe\x0e\x64\xf8\x5b\x96\xa9\xc7\x52\x95\xdf\x61\x71\x7f\x0e\x05\xa4\xe4\xc3\x12\x48\x40\x17\x20\x02\x92\x45\x8b\x4d\x8a\x27\x8a\x43\x93\x3b\xc1\x6f\xb1\xaf\xa0\xda\x95\x4b\xd9\xa0\x02\xbc\x15\xb2\xc6\x1d\xd2\x9e\xaf\xe1\x90\xf5\x6b\xf1\x7f"),
  (b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xc7\x63\x4d\x81\xf4\x37\x2d\xdf\x58\x1a\x0d\xb2\x48\xb0\xa7\x7a\xec\xec\x19\x6a\xcc\xc5\x29\x70", b"\x07\x7a\x41\xd4\x60\x6f\xfa\x14\x64\x79\x3c\x7e\x5f\xdc\x7d\x98\xcb\x9d\x39\x10\x20\x2d\xcd\x06\xbe\xa4\xf2\x40\xd3\x56\x6d\xa6\xb4\x08\xbb\xae\x50\x26\x58\x0d\x02\xd7\xe5\xc7\x05\x00\xc8\x31\x36\x6a\x08\x35\xf4\xf3\xbd\x7c\x82\xf4\x41\x69\xfd\x56\x03\x66\x7a\xdf\x4b\xe3\x7a\xee\xa5\x5a\x08\x97\xb3\xf1\x23\xee\xe1\x52\x3d\xb5\x42\x93\x1b\x4a\x2d\x67\x49\xa0\xd7\xa0\xf5\xd0\xe2\x0e"),
  (b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xc7\x63\x4d\x81\xf4\x37\x2d\xdf\x58\x1a\x0d\xb2\x48\xb0\xa7\x7a\xec\xec\x19\x6a\xcc\xc5\x29\x64", b"\xb3\xd1\x3f\xc8\xb3\x2b\x01\x05\x8c\xc1\x5c\x11\xd8\x13\x52\x55\x22\xa9\x41\x56\xff\xf0\x1c\x20\x5b\x21\xf9\xf7\xda\x7c\x4e\x9c\xa8\x49\x55\x7a\x10\xb6\x38\x3b\x4b\x88\x70\x1a\x96\x06\x86\x0b\xea\xd6\xe6\x18\x20\x6e\x9d\x59\xe4\xfb\x64\xda\xc9\xe9\xb4\xe4\x11\x45\x3b\x5e\xe2\x8b\x65\x0b\x7b\x2e\xee\xbc\x8c\x20\x40\x25\x7c\x72\xdb\x06\x4d\x7b\x50\xaf\x67\xa2\xa7\x73\xcc\x08\x42\x9d"),
  (b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xc7\x63\x4d\x81\xf4\x37\x2d\xdf\x58\x1a\x0d\xb2\x48\xb0\xa7\x7a\xec\xec\x19\x6a\xcc\xc5\x29\x63", b"\xd5\xd8\x9c\x3b\x52\x82\x36\x9c\x5f\xbd\x88\xe2\xb2\x31\x51\x1a\x6b\x80\xdf\xf0\xe5\x15\x2c\xf6\xa4\x64\xfa\x94\x28\xa8\x58\x3b\xac\x8e\xbc\x77\x3d\x15\x78\x11\xa4\x62\xb8\x92\x40\x1d\xaf\xcf\x27\xea\xdd\x62\x1e\xd6\xf9\x2d\xbe\x7e\x92\xa1\x65\x6b\xb7\x0e\x2b\xe2\xb0\x3b\xf1\xd5\xc4\x24\x63\x54\x5a\x81\xbb\xf5\x85\x44\x2e\xde\xf3\x46\x0b\x64\x0d\xdc\x97\xdd\x48\xab\x14\x54\xc9\x8c"),
  (b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xc7\x63\x4d\x81\xf4\x37\x2d\xdf\x58\x1a\x0d\xb2\x48\xb0\xa7\x7a\xec\xec\x19\x6a\xcc\xc5\x29\x62", b"\x40\x99\x95\x22\x08\xb4\x88\x96\x00\xa5\xeb\xbc\xb1\x3e\x1a\x32\x69\x2b\xef\xb0\x73\x3b\x41\xe6\xdc\xc6\x14\xe4\x2e\x58\x05\xf8\x17\x01\x2a\x99\x1a\xf1\xf4\x86\xca\xf3\xa9\xad\xd9\xff\xcc\x03\xa1\x30\x6b\x88\x87\xcc\xfa\x67\xc6\xb8\xba\x6b\x50\x9f\xca\x67\xe9\xc5\x2c\x07\xff\x75\x2f\x32\x64\x86\x82\xd8\x80\xdc\x77\x4b\xfb\x25\xb2\xcf\x55\x69\x7f\x13\x05\x9a\xf1\x0b\x1d\xc4\xf6\x5f"),
  (b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xc7\x63\x4d\x81\xf4\x37\x2d\xdf\x58\x1a\x0d\xb2\x48\xb0\xa7\x7a\xec\xec\x19\x6a\xcc\xc5\x29\x54", b"\xf2\xe6\xf0\x6f\x0e\xa5\x33\xe8\x04\xfc\xfa\x12\xc0\x87\xd4\x46\xc7\x3e\x33\x36\x39\x4c\x98\xc5\x9d\x39\x93\x12\x4d\x37\x4e\x62\x06\x1f\xa4\x85\xbd\x1b\x8a\x65\x0c\x83\x61\xdb\xa9\xeb\x28\xb9\x70\x79\x1b\x9b\x3d\xff\x43\xb9\x06\x1b\xbd\x9e\xd0\x30\x04\x2e\xb5\xfb\xe5\x79\xae\x87\xf2\xce\xc0\x4f\x46\x53\xee\xbd\xae\x31\xc1\x77\xfd\x38\x2d\x03\x61\x40\xce\xad\x0a\x46\x87\xad\x97\xf3"),
  (b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xc7\x63\x4d\x81\xf4\x37\x2d\xdf\x58\x1a\x0d\xb2\x48\xb0\xa7\x7a\xec\xec\x19\x6a\xcc\xc5\x29\x53", b"\x7f\x73\x56\xc5\xe0\xfb\xc6\x67\x8b\xab\x99\xdf\x1f\xd9\xb2\xb4\x9f\x81\x61\x8d\x6d\x99\xaf\x63\x61\x2c\xcf\x2c\xc4\xac\xaf\x5c\x44\x81\x9b\x88\xe2\x17\xec\xd3\xcc\xe8\x2f\xe5\x5f\xf8\x6e\xd6\x1f\xfc\x4c\xe2\x1d\xfa\xf5\xb5\xbc\x2e\x5a\x04\x64\xb3\x59\x9d\xd4\x3a\xa1\xa2\x1f\x3c\x19\x0d\x15\x94\xbf\x66\xa6\x97\x38\xad\x38\xa2\xea\xeb\x55\x9e\xb4\x3d\xac\x11\xd3\x18\x96\x9e\x78\x84"),
  (b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xc7\x63\x4d\x81\xf4\x37\x2d\xdf\x58\x1a\x0d\xb2\x48\xb0\xa7\x7a\xec\xec\x19\x6a\xcc\xc5\x29\x52", b"\x38\xdb\xd5\x82\x38\xc2\x1b\xbc\xa9\x27\x58\xf2\x77\x3b\xb6\xc9\x55\x49\x27\x15\x87\x9f\x54\xbd\xaf\x24\x6b\x3f\x70\xbe\xc9\x0d\x63\x1e\xae\xd9\x7a\xdd\x3f\xe2\xae\xfd\x7f\xec\x48\x2c\x80\x2a\x7d\x73\xd9\x96\xb2\x07\xe7\x76\xed\x58\x81\xeb\x7c\x8c\x2c\xf0\x10\x0a\xb5\x8e\x9a\xee\x0a\x0e\x84\x79\x0d\x54\x56\x42\x6a\xd7\x2c\xeb\xa1\x57\x54\x40\xbc\x8f\xa6\x65\xf9\x99\xd9\x2c\xcc\x44"),
  (b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xc7\x63\x4d\x81\xf4\x37\x2d\xdf\x58\x1a\x0d\xb2\x48\xb0\xa7\x7a\xec\xec\x19\x6a\xcc\xc5\x29\x33", b"\xc1\xe1\x79\xaa\x17\x8a\x78\x00\x46\xe3\x58\x41\x76\x60\x73\x61\x2e\xa5\xe5\xab\xd2\x66\x08\xf2\x59\xa5\x99\xfc\x9a\x84\x25\xa3\xea\x63\x9d\x94\xcb\xe6\x3f\xde\x1d\x69\xc7\x0f\x93\x27\x60\x5f\x3c\x7b\xd0\x91\xb2\x43\x59\x29\xf6\x45\x9e\x8e\x9a\xfc\x8e\x4d\x52\x3f\x89\xbf\x5d\xbd\xf1\x54\x08\x17\xd6\xe1\x50\x5d\xe4\xa8\x11\x0c\xe7\x9e\x3d\xf2\x21\x47\x74\xba\x0f\x4c\x7a\x90\x71\x5a"),
  (b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xc7\x63\x4d\x81\xf4\x37\x2d\xdf\x58\x1a\x0d\xb2\x48\xb0\xa7\x7a\xec\xec\x19\x6a\xcc\xc5\x28\xf4", b"\x35\x49\x60\x41\xea\x25\x3b\x0d\x15\x3c\x9b\xfb\xc1\x8a\x9e\x41\xaf\x34\x8a\xfd\x8b\x1c\x33\xa5\xca\x5d\x7f\xbb\xfa\x2d\x5d\x9d\x43\x6e\xd1\x01\x1b\x3d\x9d\x93\xe4\xb4\x5d\x2a\x4b\x23\x27\xf1\x8c\x31\xe1\x55\xb0\x02\x23\xe2\x96\x26\x1f\x62\xe9\xb9\xe6\x51\x72\x2d\x31\xd9\x90\x62\x49\x3c\xcf\x5a\xfa\x83\x82\x9d\x21\x6f\x71\x3c\x31\x63\x58\x3e\x8e\x46\x4f\xd5\x25\xe4\x4c\xbd\x9e\xa7"),
  (b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xc7\x63\x4d\x81\xf4\x37\x2d\xdf\x58\x1a\x0d\xb2\x48\xb0\xa7\x7a\xec\xec\x19\x6a\xcc\xc5\x28\xf3", b"\x79\xda\x1e\x5e\x28\x97\x75\x52\xa2\x68\x82\x91\x6c\xf3\xce\x49\xe8\x2f\xa5\x6f\x53\xe2\xd9\xd9\x79\xdf\x1c\x97\x78\xd6\xd1\x60\x6c\x15\x7d\x3b\xb6\x86\x65\x08\x9b\xdd\x08\xca\xec\xd5\xd0\x92\xa8\x57\x1a\xd3\xd2\xd4\x63\xa2\x83\x95\xa5\x04\x74\xf6\x62\xf8\x91\xe9\x1b\x23\x7c\x60\x79\xe3\x4e\xa8\x55\x33\x28\xd1\x46\x13\x69\x2f\xdf\xd3\x10\xf5\x37\xc6\x9a\x18\x91\x19\x07\xdb\x66\x06"),
  (b"\x7f\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xe3\xb1\xa6\xc0\xfa\x1b\x96\xef\xac\x0d\x06\xd9\x24\x58\x53\xbd\x76\x76\x0c\xb5\x66\x62\x94\xb9", b"\xd3\x6f\xed\x39\xca\x71\x06\x3a\x51\x63\xe8\x11\x9a\x37\xaf\xf1\x0f\x6b\x86\xd5\x0f\x02\xf1\xd3\x24\x23\x8d\x2b\x09\x0d\x80\x67\x08\x49\x55\x05\x66\x39\x6f\xf5\x77\x87\x38\xc0\xb3\x9b\x10\x7a\x46\xc3\xe6\x2b\x85\xb8\x2f\x0d\xdf\xac\xb8\xf5\x32\x10\x1b\x4b\x82\xe0\x7d\xb1\xc8\xfd\xc3\x6d\x1f\x57\x28\x43\x41\x68\x40\xac\xdc\xf2\xbc\x1c\xbd\x53\x26\x67\x81\xfc\xfb\xa9\x73\x9a\xae\x51"),
  (b"\x7f\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xe3\xb1\xa6\xc0\xfa\x1b\x96\xef\xac\x0d\x06\xd9\x24\x58\x53\xbd\x76\x76\x0c\xb5\x66\x62\x94\xba", b"\xd3\x6f\xed\x39\xca\x71\x06\x3a\x51\x63\xe8\x11\x9a\x37\xaf\xf1\x0f\x6b\x86\xd5\x0f\x02\xf1\xd3\x24\x23\x8d\x2b\x09\x0d\x80\x67\x08\x49\x55\x05\x66\x39\x6f\xf5\x77\x87\x38\xc0\xb3\x9b\x10\x7a\xb9\x3c\x19\xd4\x7a\x47\xd0\xf2\x20\x53\x47\x0a\xcd\xef\xe4\xb4\x7d\x1f\x82\x4e\x37\x02\x3c\x92\xe0\xa8\xd7\xbc\xbe\x97\xbf\x52\x23\x0d\x43\xe2\x42\xac\xd9\x98\x7e\x03\x04\x57\x8c\x65\x51\xae"),
  (b"\x07\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xfe\x3b\x1a\x6c\x0f\xa1\xb9\x6e\xfa\xc0\xd0\x6d\x92\x45\x85\x3b\xd7\x67\x60\xcb\x56\x66\x29\x4b", b"\x40\x3d\x6f\x57\xf5\x53\x7c\x95\x7d\xe6\x2f\x58\x5a\x90\x0e\x38\xaf\xd6\x06\x37\x09\xd6\xce\xb9\xca\xf6\x22\x85\xe7\x29\xbf\xba\x5f\x16\xb4\x6b\xaf\x1e\x0c\x36\x05\xc1\x4a\xc4\x6f\x8b\xda\x6c\x80\x3d\xaf\x01\xd2\x90\x7d\x22\xd5\x28\xbe\x0d\x22\x4f\xae\x02\x7c\x86\x84\x26\xcd\xf6\x77\x20\xec\xae\x3e\x0d\x6e\x54\x68\x8f\x7e\x78\x7a\xa6\x48\x54\xa3\x25\xef\xfb\x04\x15\xcc\x98\xbe\x72"),
  (b"\x01\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x8e\xc6\x9b\x03\xe8\x6e\x5b\xbe\xb0\x34\x1b\x64\x91\x61\x4e\xf5\xd9\xd8\x32\xd5\x99\x8a\x52", b"\x13\x55\x12\x50\xda\x8c\xcf\xa4\x3e\xf1\xfb\x0f\x2b\xf6\x1b\xfa\x1b\x0e\x3e\x8e\x8c\x88\xf1\x67\xce\xdd\x31\x08\xb2\x6d\xf2\xa5\x18\xec\xd0\xd2\x45\x25\xd9\x9d\x6e\xc8\x17\x62\x24\xc2\xd5\xbf\xac\x1f\x3f\x43\xf0\x61\x13\xf4\xa4\x36\x58\x6c\xf0\x5a\xb2\xb2\x27\xd2\x7f\xc4\x91\x3a\xdc\xb9\xe0\x37\x24\xfc\xcf\x29\xfd\xf6\x1c\x8d\x90\x11\x4e\x5b\xa8\xaf\xbe\xdf\xa6\xb6\xb3\x1f\x44\x56"),
  (b"\x02\x5b\x79\xd1\x39\x30\xa2\xa8\xd9\x97\x67\x11\x1b\xd0\xcc\x0d\xb5\x72\x0c\xe5\x23\x24\x5c\x95\x3c\x33\x6d\x6d\x7d\xc3\x2b\x5c\xa8\x01\x61\xf7\x75\xef\xf2\x12\x92\xb6\x23\x52\x55\x99\x2a\xa9", b"\x68\xe7\xe3\x1a\xdb\xfc\x7a\xdb\x9e\x74\x6e\xa7\x47\x9d\x6b\xea\x8e\x73\x95\x18\x87\x94\xf8\x29\x5c\xb1\x79\x2d\x60\x39\x3b\x34\x95\x24\x07\x48\x1b\xfc\x7b\x1f\xb6\x40\x10\xcf\xfe\xd5\x72\x31\x7b\x3a\xd0\x55\xe8\x86\x6e\x25\x96\x81\x95\xa7\xd6\x8f\x6d\xb0\xb7\x8c\x10\x8c\xe2\xfa\x5d\x72\x83\x6b\x5d\x4d\x67\xab\x25\x95\x98\x84\xdf\x3c\xdd\x35\x94\x89\xf0\x2f\x0a\x5b\x4f\xee\xc5\xd7"),
];
pub static DH_P256: &[(&[u8], &[u8], &[u8])] = &[
  (b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01", b"\x6b\x17\xd1\xf2\xe1\x2c\x42\x47\xf8\xbc\xe6\xe5\x63\xa4\x40\xf2\x77\x03\x7d\x81\x2d\xeb\x33\xa0\xf4\xa1\x39\x45\xd8\x98\xc2\x96\x4f\xe3\x42\xe2\xfe\x1a\x7f\x9b\x8e\xe7\xeb\x4a\x7c\x0f\x9e\x16\x2b\xce\x33\x57\x6b\x31\x5e\xce\xcb\xb6\x40\x68\x37\xbf\x51\xf5", b"\x6b\x17\xd1\xf2\xe1\x2c\x42\x47\xf8\xbc\xe6\xe5\x63\xa4\x40\xf2\x77\x03\x7d\x81\x2d\xeb\x33\xa0\xf4\xa1\x39\x45\xd8\x98\xc2\x96"),
  (b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x02", b"\x26\xef\xce\xbd\x0e\xe9\xe3\x4a\x66\x91\x87\xe1\x8b\x3a\x91\x22\xb2\xf7\x33\x94\x5b\x64\x9c\xc9\xf9\xf9\x21\xe9\xf9\xda\xd8\x12\x90\x23\x8b\xde\x9c\xc7\xbb\x33\x0d\x15\x0c\x67\x70\x4d\xd2\x5a\xe7\x05\x52\x05\x74\x4b\x6f\x31\xbf\x40\x70\x74\x58\x72\xd0\xe6", b"\x6a\xcc\xc8\xee\xe0\x55\x1f\xca\xf8\xe8\xa9\x45\x14\xbc\xf3\x13\xc0\x4f\x99\x96\xf0\xbb\x88\x41\xc6\x2d\xec\x16\x63\x18\x32\xe9"),
  (b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x03", b"\x6b\x17\xd1\xf2\xe1\x2c\x42\x47\xf8\xbc\xe6\xe5\x63\xa4\x40\xf2\x77\x03\x7d\x81\x2d\xeb\x33\xa0\xf4\xa1\x39\x45\xd8\x98\xc2\x96\xb0\x1c\xbd\x1c\x01\xe5\x80\x65\x71\x18\x14\xb5\x83\xf0\x61\xe9\xd4\x31\xcc\xa9\x94\xce\xa1\x31\x34\x49\xbf\x97\xc8\x40\xae\x0a", b"\x5e\xcb\xe4\xd1\xa6\x33\x0a\x44\xc8\xf7\xef\x95\x1d\x4b\xf1\x65\xe6\xc6\xb7\x21\xef\xad\xa9\x85\xfb\x41\x66\x1b\xc6\xe7\xfd\x6c"),
  (b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x04", b"\x7c\xf2\x7b\x18\x8d\x03\x4f\x7e\x8a\x52\x38\x03\x04\xb5\x1a\xc3\xc0\x89\x69\xe2\x77\xf2\x1b\x35\xa6\x0b\x48\xfc\x47\x66\x99\x78\x07\x77\x55\x10\xdb\x8e\xd0\x40\x29\x3d\x9a\xc6\x9f\x74\x30\xdb\xba\x7d\xad\xe6\x3c\xe9\x82\x29\x9e\x04\xb7\x9d\x22\x78\x73\xd1", b"\x62\xd9\x77\x9d\xbe\xe9\xb0\x53\x40\x42\x74\x2d\x3a\xb5\x4c\xad\xc1\xd2\x38\x98\x0f\xce\x97\xdb\xb4\xdd\x9d\xc1\xdb\x6f\xb3\x93"),
  (b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x07", b"\x6b\x17\xd1\xf2\xe1\x2c\x42\x47\xf8\xbc\xe6\xe5\x63\xa4\x40\xf2\x77\x03\x7d\x81\x2d\xeb\x33\xa0\xf4\xa1\x39\x45\xd8\x98\xc2\x96\x4f\xe3\x42\xe2\xfe\x1a\x7f\x9b\x8e\xe7\xeb\x4a\x7c\x0f\x9e\x16\x2b\xce\x33\x57\x6b\x31\x5e\xce\xcb\xb6\x40\x68\x37\xbf\x51\xf5", b"\x8e\x53\x3b\x6f\xa0\xbf\x7b\x46\x25\xbb\x30\x66\x7c\x01\xfb\x60\x7e\xf9\xf8\xb8\xa8\x0f\xef\x5b\x30\x06\x28\x70\x31\x87\xb2\xa3"),
  (b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x08", b"\x26\xef\xce\xbd\x0e\xe9\xe3\x4a\x66\x91\x87\xe1\x8b\x3a\x91\x22\xb2\xf7\x33\x94\x5b\x64\x9c\xc9\xf9\xf9\x21\xe9\xf9\xda\xd8\x12\x90\x23\x8b\xde\x9c\xc7\xbb\x33\x0d\x15\x0c\x67\x70\x4d\xd2\x5a\xe7\x05\x52\x05\x74\x4b\x6f\x31\xbf\x40\x70\x74\x58\x72\xd0\xe6", b"\x8f\x23\xb2\xaf\x4f\x0c\xbe\x87\x85\xfc\xb4\xe6\xaf\x38\xfe\xbe\x08\xb0\x19\xb2\xa8\x30\xcd\x4a\x92\x54\xfa\xc1\x3a\xd3\x82\xf1"),
  (b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x0f", b"\x6b\x17\xd1\xf2\xe1\x2c\x42\x47\xf8\xbc\xe6\xe5\x63\xa4\x40\xf2\x77\x03\x7d\x81\x2d\xeb\x33\xa0\xf4\xa1\x39\x45\xd8\x98\xc2\x96\xb0\x1c\xbd\x1c\x01\xe5\x80\x65\x71\x18\x14\xb5\x83\xf0\x61\xe9\xd4\x31\xcc\xa9\x94\xce\xa1\x31\x34\x49\xbf\x97\xc8\x40\xae\x0a", b"\xf0\x45\x4d\xc6\x97\x1a\xba\xe7\xad\xfb\x37\x89\x99\x88\x82\x65\xae\x03\xaf\x92\xde\x3a\x0e\xf1\x63\x66\x8c\x63\xe5\x9b\x9d\x5f"),
  (b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x10", b"\x7c\xf2\x7b\x18\x8d\x03\x4f\x7e\x8a\x52\x38\x03\x04\xb5\x1a\xc3\xc0\x89\x69\xe2\x77\xf2\x1b\x35\xa6\x0b\x48\xfc\x47\x66\x99\x78\x07\x77\x55\x10\xdb\x8e\xd0\x40\x29\x3d\x9a\xc6\x9f\x74\x30\xdb\xba\x7d\xad\xe6\x3c\xe9\x82\x29\x9e\x04\xb7\x9d\x22\x78\x73\xd1", b"\x23\x77\xc7\xd6\x90\xa2\x42\xca\x6c\x45\x07\x4e\x8e\xa5\xbe\xef\xaa\x55\x7f\xd5\xb6\x83\x71\xd9\xd1\x47\x5b\xd5\x2a\x7e\xd0\xe1"),
  (b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x11", b"\x6b\x17\xd1\xf2\xe1\x2c\x42\x47\xf8\xbc\xe6\xe5\x63\xa4\x40\xf2\x77\x03\x7d\x81\x2d\xeb\x33\xa0\xf4\xa1\x39\x45\xd8\x98\xc2\x96\x4f\xe3\x42\xe2\xfe\x1a\x7f\x9b\x8e\xe7\xeb\x4a\x7c\x0f\x9e\x16\x2b\xce\x33\x57\x6b\x31\x5e\xce\xcb\xb6\x40\x68\x37\xbf\x51\xf5", b"\x47\x77\x69\x04\xc0\xf1\xcc\x3a\x9c\x09\x84\xb6\x6f\x75\x30\x1a\x5f\xa6\x86\x78\xf0\xd6\x4a\xf8\xba\x1a\xbc\xe3\x47\x38\xa7\x3e"),
  (b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x1f", b"\x26\xef\xce\xbd\x0e\xe9\xe3\x4a\x66\x91\x87\xe1\x8b\x3a\x91\x22\xb2\xf7\x33\x94\x5b\x64\x9c\xc9\xf9\xf9\x21\xe9\xf9\xda\xd8\x12\x90\x23\x8b\xde\x9c\xc7\xbb\x33\x0d\x15\x0c\x67\x70\x4d\xd2\x5a\xe7\x05\x52\x05\x74\x4b\x6f\x31\xbf\x40\x70\x74\x58\x72\xd0\xe6", b"\xd0\xc8\x28\x50\x78\xdb\x7e\xd6\xe0\xfe\x06\x7c\xfe\xaa\xb8\x9a\x92\x82\x39\xee\x4d\x58\x5c\xdb\xe4\x4a\xb7\xcb\x5d\x65\x8d\x70"),
  (b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x20", b"\x6b\x17\xd1\xf2\xe1\x2c\x42\x47\xf8\xbc\xe6\xe5\x63\xa4\x40\xf2\x77\x03\x7d\x81\x2d\xeb\x33\xa0\xf4\xa1\x39\x45\xd8\x98\xc2\x96\xb0\x1c\xbd\x1c\x01\xe5\x80\x65\x71\x18\x14\xb5\x83\xf0\x61\xe9\xd4\x31\xcc\xa9\x94\xce\xa1\x31\x34\x49\xbf\x97\xc8\x40\xae\x0a", b"\x23\x77\xc7\xd6\x90\xa2\x42\xca\x6c\x45\x07\x4e\x8e\xa5\xbe\xef\xaa\x55\x7f\xd5\xb6\x83\x71\xd9\xd1\x47\x5b\xd5\x2a\x7e\xd0\xe1"),
  (b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x21", b"\x7c\xf2\x7b\x18\x8d\x03\x4f\x7e\x8a\x52\x38\x03\x04\xb5\x1a\xc3\xc0\x89\x69\xe2\x77\xf2\x1b\x35\xa6\x0b\x48\xfc\x47\x66\x99\x78\x07\x77\x55\x10\xdb\x8e\xd0\x40\x29\x3d\x9a\xc6\x9f\x74\x30\xdb\xba\x7d\xad\xe6\x3c\xe9\x82\x29\x9e\x04\xb7\x9d\x22\x78\x73\xd1", b"\x27\xdc\x81\x2d\xe9\x37\x4f\x35\xb5\xff\x02\x90\x1d\xd3\xf0\x22\x5b\xdd\xad\x4d\xaf\xed\x3f\x1d\xfc\xc0\x68\xc9\xe0\xf5\xab\x7b"),
  (b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x3f", b"\x6b\x17\xd1\xf2\xe1\x2c\x42\x47\xf8\xbc\xe6\xe5\x63\xa4\x40\xf2\x77\x03\x7d\x81\x2d\xeb\x33\xa0\xf4\xa1\x39\x45\xd8\x98\xc2\x96\x4f\xe3\x42\xe2\xfe\x1a\x7f\x9b\x8e\xe7\xeb\x4a\x7c\x0f\x9e\x16\x2b\xce\x33\x57\x6b\x31\x5e\xce\xcb\xb6\x40\x68\x37\xbf\x51\xf5", b"\x6a\x95\x01\xd8\x5b\xf5\xdc\x80\x2a\x1f\x28\xa0\x8a\xcc\x7d\x8f\xdf\x53\xc8\xaf\x01\xa7\xcd\x38\x32\xa2\x90\x82\x5d\x8b\xda\xc1"),
  (b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x40", b"\x26\xef\xce\xbd\x0e\xe9\xe3\x4a\x66\x91\x87\xe1\x8b\x3a\x91\x22\xb2\xf7\x33\x94\x5b\x64\x9c\xc9\xf9\xf9\x21\xe9\xf9\xda\xd8\x12\x90\x23\x8b\xde\x9c\xc7\xbb\x33\x0d\x15\x0c\x67\x70\x4d\xd2\x5a\xe7\x05\x52\x05\x74\x4b\x6f\x31\xbf\x40\x70\x74\x58\x72\xd0\xe6", b"\x8f\xd7\xdd\xd5\x00\xc6\xa5\x99\xad\xac\xfe\xbe\xd4\xca\xf0\x38\x7d\x08\xfc\x86\x44\xad\x0f\x5d\x94\xfb\xaa\x2d\xc9\x9b\x61\x26"),
  (b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x41", b"\x6b\x17\xd1\xf2\xe1\x2c\x42\x47\xf8\xbc\xe6\xe5\x63\xa4\x40\xf2\x77\x03\x7d\x81\x2d\xeb\x33\xa0\xf4\xa1\x39\x45\xd8\x98\xc2\x96\xb0\x1c\xbd\x1c\x01\xe5\x80\x65\x71\x18\x14\xb5\x83\xf0\x61\xe9\xd4\x31\xcc\xa9\x94\xce\xa1\x31\x34\x49\xbf\x97\xc8\x40\xae\x0a", b"\x34\x32\x5d\xcb\x45\x8d\x8e\x5b\x34\x3d\x05\x35\x53\x7d\xd5\xe0\x9c\x70\x46\xaf\xcb\xf3\x9f\x66\x11\xaa\x2e\xc2\x54\xea\x34\x10"),
  (b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x7f", b"\x7c\xf2\x7b\x18\x8d\x03\x4f\x7e\x8a\x52\x38\x03\x04\xb5\x1a\xc3\xc0\x89\x69\xe2\x77\xf2\x1b\x35\xa6\x0b\x48\xfc\x47\x66\x99\x78\x07\x77\x55\x10\xdb\x8e\xd0\x40\x29\x3d\x9a\xc6\x9f\x74\x30\xdb\xba\x7d\xad\xe6\x3c\xe9\x82\x29\x9e\x04\xb7\x9d\x22\x78\x73\xd1", b"\xd5\x43\x4a\x8a\x3d\x0c\x3c\x68\x4a\xfb\x74\x8b\x2a\xce\x05\xf2\x96\x4e\x1c\x12\x7e\x14\xe1\x81\x33\xdf\xb5\xf6\xcb\xb7\x2d\xd3"),
  (b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", b"\x6b\x17\xd1\xf2\xe1\x2c\x42\x47\xf8\xbc\xe6\xe5\x63\xa4\x40\xf2\x77\x03\x7d\x81\x2d\xeb\x33\xa0\xf4\xa1\x39\x45\xd8\x98\xc2\x96\x4f\xe3\x42\xe2\xfe\x1a\x7f\x9b\x8e\xe7\xeb\x4a\x7c\x0f\x9e\x16\x2b\xce\x33\x57\x6b\x31\x5e\xce\xcb\xb6\x40\x68\x37\xbf\x51\xf5", b"\xae\x3f\x7d\xba\x0b\xde\x8b\x6a\xd7\xce\x2f\x8e\xed\xe4\xb7\x62\xc5\x56\xde\xa6\x78\xf8\x59\x62\x6a\x9e\x62\x35\xa6\x74\xc4\xf6"),
  (b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xff", b"\x26\xef\xce\xbd\x0e\xe9\xe3\x4a\x66\x91\x87\xe1\x8b\x3a\x91\x22\xb2\xf7\x33\x94\x5b\x64\x9c\xc9\xf9\xf9\x21\xe9\xf9\xda\xd8\x12\x90\x23\x8b\xde\x9c\xc7\xbb\x33\x0d\x15\x0c\x67\x70\x4d\xd2\x5a\xe7\x05\x52\x05\x74\x4b\x6f\x31\xbf\x40\x70\x74\x58\x72\xd0\xe6", b"\x09\x67\x68\x21\x3c\xa1\xcc\xb0\xba\x44\xcd\xc3\xe0\x63\x87\xf7\xb0\x78\x69\xfb\x96\x93\x02\xe4\xce\x1d\xd2\x8b\xdb\x18\x02\x4d"),
  (b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01\x00", b"\x6b\x17\xd1\xf2\xe1\x2c\x42\x47\xf8\xbc\xe6\xe5\x63\xa4\x40\xf2\x77\x03\x7d\x81\x2d\xeb\x33\xa0\xf4\xa1\x39\x45\xd8\x98\xc2\x96\xb0\x1c\xbd\x1c\x01\xe5\x80\x65\x71\x18\x14\xb5\x83\xf0\x61\xe9\xd4\x31\xcc\xa9\x94\xce\xa1\x31\x34\x49\xbf\x97\xc8\x40\xae\x0a", b"\x34\xa2\xd4\xa3\xb0\x09\x16\x59\x87\xff\xd1\x52\x86\x03\xed\x61\x19\x0d\x0b\x71\x0d\x6a\x56\x4c\x2d\xb2\xe3\x5f\x12\xd0\x44\x1b"),
  (b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x10\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", b"\x7c\xf2\x7b\x18\x8d\x03\x4f\x7e\x8a\x52\x38\x03\x04\xb5\x1a\xc3\xc0\x89\x69\xe2\x77\xf2\x1b\x35\xa6\x0b\x48\xfc\x47\x66\x99\x78\x07\x77\x55\x10\xdb\x8e\xd0\x40\x29\x3d\x9a\xc6\x9f\x74\x30\xdb\xba\x7d\xad\xe6\x3c\xe9\x82\x29\x9e\x04\xb7\x9d\x22\x78\x73\xd1", b"\xd3\x2e\x85\x1a\x25\xc9\x65\xc2\xfb\xa2\xf5\xbd\xf8\xf0\x48\x26\x10\xec\x71\x96\x90\x52\x5d\xb1\xfe\x39\xd9\xac\xa1\xdc\x42\x8e"),
  (b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff", b"\x6b\x17\xd1\xf2\xe1\x2c\x42\x47\xf8\xbc\xe6\xe5\x63\xa4\x40\xf2\x77\x03\x7d\x81\x2d\xeb\x33\xa0\xf4\xa1\x39\x45\xd8\x98\xc2\x96\x4f\xe3\x42\xe2\xfe\x1a\x7f\x9b\x8e\xe7\xeb\x4a\x7c\x0f\x9e\x16\x2b\xce\x33\x57\x6b\x31\x5e\xce\xcb\xb6\x40\x68\x37\xbf\x51\xf5", b"\xfa\xa3\x1e\x82\x4f\x81\x43\xca\xeb\x2b\x0e\x68\xde\xee\x70\xbd\x45\xdc\x5b\x9a\x78\xfa\x07\x41\xee\x22\xa6\xa7\xb9\xd0\xb2\x2f"),
  (b"\xff\xff\xff\xff\x00\x00\x00\x00\xff\xff\xff\xff\xff\xff\xff\xff\xbc\xe6\xfa\xad\xa7\x17\x9e\x84\xf3\xb9\xca\xc2\xfc\x63\x25\x50", b"\x26\xef\xce\xbd\x0e\xe9\xe3\x4a\x66\x91\x87\xe1\x8b\x3a\x91\x22\xb2\xf7\x33\x94\x5b\x64\x9c\xc9\xf9\xf9\x21\xe9\xf9\xda\xd8\x12\x90\x23\x8b\xde\x9c\xc7\xbb\x33\x0d\x15\x0c\x67\x70\x4d\xd2\x5a\xe7\x05\x52\x05\x74\x4b\x6f\x31\xbf\x40\x70\x74\x58\x72\xd0\xe6", b"\x26\xef\xce\xbd\x0e\xe9\xe3\x4a\x66\x91\x87\xe1\x8b\x3a\x91\x22\xb2\xf7\x33\x94\x5b\x64\x9c\xc9\xf9\xf9\x21\xe9\xf9\xda\xd8\x12"),
  (b"\xff\xff\xff\xff\x00\x00\x00\x00\xff\xff\xff\xff\xff\xff\xff\xff\xbc\xe6\xfa\xad\xa7\x17\x9e\x84\xf3\xb9\xca\xc2\xfc\x63\x25\x4f", b"\x6b\x17\xd1\xf2\xe1\x2c\x42\x47\xf8\xbc\xe6\xe5\x63\xa4\x40\xf2\x77\x03\x7d\x81\x2d\xeb\x33\xa0\xf4\xa1\x39\x45\xd8\x98\xc2\x96\xb0\x1c\xbd\x1c\x01\xe5\x80\x65\x71\x18\x14\xb5\x83\xf0\x61\xe9\xd4\x31\xcc\xa9\x94\xce\xa1\x31\x34\x49\xbf\x97\xc8\x40\xae\x0a", b"\x7c\xf2\x7b\x18\x8d\x03\x4f\x7e\x8a\x52\x38\x03\x04\xb5\x1a\xc3\xc0\x89\x69\xe2\x77\xf2\x1b\x35\xa6\x0b\x48\xfc\x47\x66\x99\x78"),
  (b"\xff\xff\xff\xff\x00\x00\x00\x00\xff\xff\xff\xff\xff\xff\xff\xff\xbc\xe6\xfa\xad\xa7\x17\x9e\x84\xf3\xb9\xca\xc2\xfc\x63\x25\x4e", b"\x7c\xf2\x7b\x18\x8d\x03\x4f\x7e\x8a\x52\x38\x03\x04\xb5\x1a\xc3\xc0\x89\x69\xe2\x77\xf2\x1b\x35\xa6\x0b\x48\xfc\x47\x66\x99\x78\x07\x77\x55\x10\xdb\x8e\xd0\x40\x29\x3d\x9a\xc6\x9f\x74\x30\xdb\xba\x7d\xad\xe6\x3c\xe9\x82\x29\x9e\x04\xb7\x9d\x22\x78\x73\xd1", b"\xb0\x1a\x17\x2a\x76\xa4\x60\x2c\x92\xd3\x24\x2c\xb8\x97\xdd\xe3\x02\x4c\x74\x0d\xeb\xb2\x15\xb4\xc6\xb0\xaa\xe9\x3c\x22\x91\xa9"),
  (b"\xff\xff\xff\xff\x00\x00\x00\x00\xff\xff\xff\xff\xff\xff\xff\xff\xbc\xe6\xfa\xad\xa7\x17\x9e\x84\xf3\xb9\xca\xc2\xfc\x63\x25\x42", b"\x6b\x17\xd1\xf2\xe1\x2c\x42\x47\xf8\xbc\xe6\xe5\x63\xa4\x40\xf2\x77\x03\x7d\x81\x2d\xeb\x33\xa0\xf4\xa1\x39\x45\xd8\x98\xc2\x96\x4f\xe3\x42\xe2\xfe\x1a\x7f\x9b\x8e\xe7\xeb\x4a\x7c\x0f\x9e\x16\x2b\xce\x33\x57\x6b\x31\x5e\xce\xcb\xb6\x40\x68\x37\xbf\x51\xf5", b"\xf0\x45\x4d\xc6\x97\x1a\xba\xe7\xad\xfb\x37\x89\x99\x88\x82\x65\xae\x03\xaf\x92\xde\x3a\x0e\xf1\x63\x66\x8c\x63\xe5\x9b\x9d\x5f"),
  (b"\xff\xff\xff\xff\x00\x00\x00\x00\xff\xff\xff\xff\xff\xff\xff\xff\xbc\xe6\xfa\xad\xa7\x17\x9e\x84\xf3\xb9\xca\xc2\xfc\x63\x25\x41", b"\x26\xef\xce\xbd\x0e\xe9\xe3\x4a\x66\x91\x87\xe1\x8b\x3a\x91\x22\xb2\xf7\x33\x94\x5b\x64\x9c\xc9\xf9\xf9\x21\xe9\xf9\xda\xd8\x12\x90\x23\x8b\xde\x9c\xc7\xbb\x33\x0d\x15\x0c\x67\x70\x4d\xd2\x5a\xe7\x05\x52\x05\x74\x4b\x6f\x31\xbf\x40\x70\x74\x58\x72\xd0\xe6", b"\xfd\x7d\x7a\x3e\x2c\xfc\x8b\x7d\xc7\x9e\x4f\x60\x42\x48\x7c\x2c\x42\x2d\xe8\xca\x08\xdd\x1f\xf2\x52\x23\xa5\x62\xea\x50\x0e\x9d"),
  (b"\xff\xff\xff\xff\x00\x00\x00\x00\xff\xff\xff\xff\xff\xff\xff\xff\xbc\xe6\xfa\xad\xa7\x17\x9e\x84\xf3\xb9\xca\xc2\xfc\x63\x25\x40", b"\x6b\x17\xd1\xf2\xe1\x2c\x42\x47\xf8\xbc\xe6\xe5\x63\xa4\x40\xf2\x77\x03\x7d\x81\x2d\xeb\x33\xa0\xf4\xa1\x39\x45\xd8\x98\xc2\x96\xb0\x1c\xbd\x1c\x01\xe5\x80\x65\x71\x18\x14\xb5\x83\xf0\x61\xe9\xd4\x31\xcc\xa9\x94\xce\xa1\x31\x34\x49\xbf\x97\xc8\x40\xae\x0a", b"\x47\x77\x69\x04\xc0\xf1\xcc\x3a\x9c\x09\x84\xb6\x6f\x75\x30\x1a\x5f\xa6\x86\x78\xf0\xd6\x4a\xf8\xba\x1a\xbc\xe3\x47\x38\xa7\x3e"),
  (b"\xff\xff\xff\xff\x00\x00\x00\x00\xff\xff\xff\xff\xff\xff\xff\xff\xbc\xe6\xfa\xad\xa7\x17\x9e\x84\xf3\xb9\xca\xc2\xfc\x63\x25\x32", b"\x7c\xf2\x7b\x18\x8d\x03\x4f\x7e\x8a\x52\x38\x03\x04\xb5\x1a\xc3\xc0\x89\x69\xe2\x77\xf2\x1b\x35\xa6\x0b\x48\xfc\x47\x66\x99\x78\x07\x77\x55\x10\xdb\x8e\xd0\x40\x29\x3d\x9a\xc6\x9f\x74\x30\xdb\xba\x7d\xad\xe6\x3c\xe9\x82\x29\x9e\x04\xb7\x9d\x22\x78\x73\xd1", b"\x57\x1c\x05\xc8\x40\x21\xed\xce\xc4\xb1\xac\x99\x98\x29\xec\xd8\x0f\x82\x16\xb2\x39\xc6\x7f\x26\x9f\x88\xff\x57\xae\x8c\xce\x2b"),
  (b"\xff\xff\xff\xff\x00\x00\x00\x00\xff\xff\xff\xff\xff\xff\xff\xff\xbc\xe6\xfa\xad\xa7\x17\x9e\x84\xf3\xb9\xca\xc2\xfc\x63\x25\x31", b"\x6b\x17\xd1\xf2\xe1\x2c\x42\x47\xf8\xbc\xe6\xe5\x63\xa4\x40\xf2\x77\x03\x7d\x81\x2d\xeb\x33\xa0\xf4\xa1\x39\x45\xd8\x98\xc2\x96\x4f\xe3\x42\xe2\xfe\x1a\x7f\x9b\x8e\xe7\xeb\x4a\x7c\x0f\x9e\x16\x2b\xce\x33\x57\x6b\x31\x5e\xce\xcb\xb6\x40\x68\x37\xbf\x51\xf5", b"\x23\x77\xc7\xd6\x90\xa2\x42\xca\x6c\x45\x07\x4e\x8e\xa5\xbe\xef\xaa\x55\x7f\xd5\xb6\x83\x71\xd9\xd1\x47\x5b\xd5\x2a\x7e\xd0\xe1"),
  (b"\xff\xff\xff\xff\x00\x00\x00\x00\xff\xff\xff\xff\xff\xff\xff\xff\xbc\xe6\xfa\xad\xa7\x17\x9e\x84\xf3\xb9\xca\xc2\xfc\x63\x25\x30", b"\x26\xef\xce\xbd\x0e\xe9\xe3\x4a\x66\x91\x87\xe1\x8b\x3a\x91\x22\xb2\xf7\x33\x94\x5b\x64\x9c\xc9\xf9\xf9\x21\xe9\xf9\xda\xd8\x12\x90\x23\x8b\xde\x9c\xc7\xbb\x33\x0d\x15\x0c\x67\x70\x4d\xd2\x5a\xe7\x05\x52\x05\x74\x4b\x6f\x31\xbf\x40\x70\x74\x58\x72\xd0\xe6", b"\xf6\x28\x92\xe2\x13\x88\x4a\x52\x14\x9c\x06\x7c\x93\x02\x6c\x39\x71\x34\x67\x93\x77\x96\x59\xf9\xeb\x38\xa2\xb0\xfe\x76\x53\x34"),
  (b"\xff\xff\xff\xff\x00\x00\x00\x00\xff\xff\xff\xff\xff\xff\xff\xff\xbc\xe6\xfa\xad\xa7\x17\x9e\x84\xf3\xb9\xca\xc2\xfc\x63\x25\x11", b"\x6b\x17\xd1\xf2\xe1\x2c\x42\x47\xf8\xbc\xe6\xe5\x63\xa4\x40\xf2\x77\x03\x7d\x81\x2d\xeb\x33\xa0\xf4\xa1\x39\x45\xd8\x98\xc2\x96\xb0\x1c\xbd\x1c\x01\xe5\x80\x65\x71\x18\x14\xb5\x83\xf0\x61\xe9\xd4\x31\xcc\xa9\x94\xce\xa1\x31\x34\x49\xbf\x97\xc8\x40\xae\x0a", b"\x0a\x06\x43\xfb\x8f\xcc\x14\xde\xf6\x7a\x6a\x5e\xb1\xbf\x8e\x91\x25\xb3\x5e\xdc\x73\x38\xd8\x16\xaa\x41\x10\xa6\xb9\x0e\xe7\x85"),
  (b"\xff\xff\xff\xff\x00\x00\x00\x00\xff\xff\xff\xff\xff\xff\xff\xff\xbc\xe6\xfa\xad\xa7\x17\x9e\x84\xf3\xb9\xca\xc2\xfc\x63\x24\xd2", b"\x7c\xf2\x7b\x18\x8d\x03\x4f\x7e\x8a\x52\x38\x03\x04\xb5\x1a\xc3\xc0\x89\x69\xe2\x77\xf2\x1b\x35\xa6\x0b\x48\xfc\x47\x66\x99\x78\x07\x77\x55\x10\xdb\x8e\xd0\x40\x29\x3d\x9a\xc6\x9f\x74\x30\xdb\xba\x7d\xad\xe6\x3c\xe9\x82\x29\x9e\x04\xb7\x9d\x22\x78\x73\xd1", b"\xd5\x43\x4a\x8a\x3d\x0c\x3c\x68\x4a\xfb\x74\x8b\x2a\xce\x05\xf2\x96\x4e\x1c\x12\x7e\x14\xe1\x81\x33\xdf\xb5\xf6\xcb\xb7\x2d\xd3"),
  (b"\xff\xff\xff\xff\x00\x00\x00\x00\xff\xff\xff\xff\xff\xff\xff\xff\xbc\xe6\xfa\xad\xa7\x17\x9e\x84\xf3\xb9\xca\xc2\xfc\x63\x24\xd1", b"\x6b\x17\xd1\xf2\xe1\x2c\x42\x47\xf8\xbc\xe6\xe5\x63\xa4\x40\xf2\x77\x03\x7d\x81\x2d\xeb\x33\xa0\xf4\xa1\x39\x45\xd8\x98\xc2\x96\x4f\xe3\x42\xe2\xfe\x1a\x7f\x9b\x8e\xe7\xeb\x4a\x7c\x0f\x9e\x16\x2b\xce\x33\x57\x6b\x31\x5e\xce\xcb\xb6\x40\x68\x37\xbf\x51\xf5", b"\xae\x3f\x7d\xba\x0b\xde\x8b\x6a\xd7\xce\x2f\x8e\xed\xe4\xb7\x62\xc5\x56\xde\xa6\x78\xf8\x59\x62\x6a\x9e\x62\x35\xa6\x74\xc4\xf6"),
  (b"\x7f\xff\xff\xff\x80\x00\x00\x00\x7f\xff\xff\xff\xff\xff\xff\xff\xde\x73\x7d\x56\xd3\x8b\xcf\x42\x79\xdc\xe5\x61\x7e\x31\x92\xa8", b"\x26\xef\xce\xbd\x0e\xe9\xe3\x4a\x66\x91\x87\xe1\x8b\x3a\x91\x22\xb2\xf7\x33\x94\x5b\x64\x9c\xc9\xf9\xf9\x21\xe9\xf9\xda\xd8\x12\x90\x23\x8b\xde\x9c\xc7\xbb\x33\x0d\x15\x0c\x67\x70\x4d\xd2\x5a\xe7\x05\x52\x05\x74\x4b\x6f\x31\xbf\x40\x70\x74\x58\x72\xd0\xe6", b"\x95\x4a\xb8\x3d\x85\xa1\x6d\xbc\x21\xcc\x6a\xbe\x26\xb7\xee\x3a\xbb\x05\x15\x1d\x59\xdb\xc9\x15\x06\x41\x03\x06\x5c\x6c\x4e\xdd"),
  (b"\x7f\xff\xff\xff\x80\x00\x00\x00\x7f\xff\xff\xff\xff\xff\xff\xff\xde\x73\x7d\x56\xd3\x8b\xcf\x42\x79\xdc\xe5\x61\x7e\x31\x92\xa9", b"\x6b\x17\xd1\xf2\xe1\x2c\x42\x47\xf8\xbc\xe6\xe5\x63\xa4\x40\xf2\x77\x03\x7d\x81\x2d\xeb\x33\xa0\xf4\xa1\x39\x45\xd8\x98\xc2\x96\xb0\x1c\xbd\x1c\x01\xe5\x80\x65\x71\x18\x14\xb5\x83\xf0\x61\xe9\xd4\x31\xcc\xa9\x94\xce\xa1\x31\x34\x49\xbf\x97\xc8\x40\xae\x0a", b"\x2a\xfa\x38\x6b\x3f\x2b\xdc\xdb\x83\xf4\xd8\x3f\x8f\xa3\x87\x4d\x7b\x74\xdc\xb4\x54\xbd\x64\x4f\xdd\x6b\xf3\xd1\xf2\xda\x8d\xb6"),
  (b"\x07\xff\xff\xff\xf8\x00\x00\x00\x07\xff\xff\xff\xff\xff\xff\xff\xfd\xe7\x37\xd5\x6d\x38\xbc\xf4\x27\x9d\xce\x56\x17\xe3\x19\x2a", b"\x7c\xf2\x7b\x18\x8d\x03\x4f\x7e\x8a\x52\x38\x03\x04\xb5\x1a\xc3\xc0\x89\x69\xe2\x77\xf2\x1b\x35\xa6\x0b\x48\xfc\x47\x66\x99\x78\x07\x77\x55\x10\xdb\x8e\xd0\x40\x29\x3d\x9a\xc6\x9f\x74\x30\xdb\xba\x7d\xad\xe6\x3c\xe9\x82\x29\x9e\x04\xb7\x9d\x22\x78\x73\xd1", b"\x0a\xd7\x04\x6b\x18\xa9\xad\x4d\x53\x38\xff\xdb\x2a\x83\x92\x2a\x5d\x7e\x25\x83\x28\x3f\x65\xfd\x27\xf1\xc8\x8a\xcb\x21\x12\x36"),
  (b"\x01\xff\xff\xff\xfe\x00\x00\x00\x01\xff\xff\xff\xff\xff\xff\xff\xff\x79\xcd\xf5\x5b\x4e\x2f\x3d\x09\xe7\x73\x95\x85\xf8\xc6\x4a", b"\x6b\x17\xd1\xf2\xe1\x2c\x42\x47\xf8\xbc\xe6\xe5\x63\xa4\x40\xf2\x77\x03\x7d\x81\x2d\xeb\x33\xa0\xf4\xa1\x39\x45\xd8\x98\xc2\x96\x4f\xe3\x42\xe2\xfe\x1a\x7f\x9b\x8e\xe7\xeb\x4a\x7c\x0f\x9e\x16\x2b\xce\x33\x57\x6b\x31\x5e\xce\xcb\xb6\x40\x68\x37\xbf\x51\xf5", b"\x8d\xc2\x4e\xaf\xb4\xb1\x83\xb2\xb8\xba\x2e\x65\x85\xae\x7a\x60\xcb\x2f\x8d\xca\x57\x6b\xf1\x48\x07\x70\xe0\x9e\x0f\x3e\x25\x2b"),
  (b"\x95\x9f\xf6\x0f\xe8\x2e\xcd\x68\xa8\x60\x23\x44\x39\x5b\x29\xcb\xbc\xbd\xb4\x88\xdc\xdb\x58\x3a\xaf\xc0\x0d\x10\xb2\x61\x02\xfd", b"\x26\xef\xce\xbd\x0e\xe9\xe3\x4a\x66\x91\x87\xe1\x8b\x3a\x91\x22\xb2\xf7\x33\x94\x5b\x64\x9c\xc9\xf9\xf9\x21\xe9\xf9\xda\xd8\x12\x90\x23\x8b\xde\x9c\xc7\xbb\x33\x0d\x15\x0c\x67\x70\x4d\xd2\x5a\xe7\x05\x52\x05\x74\x4b\x6f\x31\xbf\x40\x70\x74\x58\x72\xd0\xe6", b"\x90\x7c\x7d\x1d\x8f\x8c\x8b\x27\x5d\x89\x5e\xe6\x54\x0e\x61\x3d\x85\x48\x35\xca\xd4\x1e\x7f\x8b\x2c\x0a\x6b\xb5\x11\xfe\x3f\xda"),
];
pub static DH_P384: &[(&[u8], &[u8], &[u8])] = &[
  (b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01", b"\xaa\x87\xca\x22\xbe\x8b\x05\x37\x8e\xb1\xc7\x1e\xf3\x20\xad\x74\x6e\x1d\x3b\x62\x8b\xa7\x9b\x98\x59\xf7\x41\xe0\x82\x54\x2a\x38\x55\x02\xf2\x5d\xbf\x55\x29\x6c\x3a\x54\x5e\x38\x72\x76\x0a\xb7\x36\x17\xde\x4a\x96\x26\x2c\x6f\x5d\x9e\x98\xbf\x92\x92\xdc\x29\xf8\xf4\x1d\xbd\x28\x9a\x14\x7c\xe9\xda\x31\x13\xb5\xf0\xb8\xc0\x0a\x60\xb1\xce\x1d\x7e\x81\x9d\x7a\x43\x1d\x7c\x90\xea\x0e\x5f", b"\xaa\x87\xca\x22\xbe\x8b\x05\x37\x8e\xb1\xc7\x1e\xf3\x20\xad\x74\x6e\x1d\x3b\x62\x8b\xa7\x9b\x98\x59\xf7\x41\xe0\x82\x54\x2a\x38\x55\x02\xf2\x5d\xbf\x55\x29\x6c\x3a\x54\x5e\x38\x72\x76\x0a\xb7"),
  (b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x02", b"\xe8\x6b\x99\x5e\x35\x0e\x4d\x31\x2a\x95\xa6\xb7\xd5\xd8\xcd\xcd\xb4\x68\x2f\x58\x88\x00\xa1\xcd\x6c\x97\x2e\x1d\xcb\x2a\x5a\xc3\x8d\x90\x04\x69\x51\xb0\x3c\xcb\x3b\x17\x9a\x89\xfd\xa8\x8b\x1b\x48\x5b\x9f\x2c\x1f\x44\xb0\xdd\x41\xce\x6e\x3c\x3a\x69\x0b\xbf\xaa\xbe\xc1\xe1\xff\x4a\xef\xb2\x46\x1f\xdd\xa6\x62\x9b\xec\xbd\x43\xcf\x74\xc1\x3d\x8c\x1a\x16\x25\x61\x22\x43\xf0\x04\x61\x48", b"\x93\xc2\x5b\x82\xb4\x6f\x95\x19\x51\x54\x50\xb5\x22\x85\xe4\x36\x5d\xdc\x59\x69\x5e\xb0\xe3\x33\xd4\x3a\x5a\xd6\x90\x64\xb0\x7f\x40\xbe\x8e\xaf\x31\x74\x28\x5f\x58\xfa\x6b\x1d\xcf\x4e\xa1\x70"),
  (b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x03", b"\xaa\x87\xca\x22\xbe\x8b\x05\x37\x8e\xb1\xc7\x1e\xf3\x20\xad\x74\x6e\x1d\x3b\x62\x8b\xa7\x9b\x98\x59\xf7\x41\xe0\x82\x54\x2a\x38\x55\x02\xf2\x5d\xbf\x55\x29\x6c\x3a\x54\x5e\x38\x72\x76\x0a\xb7\xc9\xe8\x21\xb5\x69\xd9\xd3\x90\xa2\x61\x67\x40\x6d\x6d\x23\xd6\x07\x0b\xe2\x42\xd7\x65\xeb\x83\x16\x25\xce\xec\x4a\x0f\x47\x3e\xf5\x9f\x4e\x30\xe2\x81\x7e\x62\x85\xbc\xe2\x84\x6f\x15\xf1\xa0", b"\x07\x7a\x41\xd4\x60\x6f\xfa\x14\x64\x79\x3c\x7e\x5f\xdc\x7d\x98\xcb\x9d\x39\x10\x20\x2d\xcd\x06\xbe\xa4\xf2\x40\xd3\x56\x6d\xa6\xb4\x08\xbb\xae\x50\x26\x58\x0d\x02\xd7\xe5\xc7\x05\x00\xc8\x31"),
  (b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x04", b"\x08\xd9\x99\x05\x7b\xa3\xd2\xd9\x69\x26\x00\x45\xc5\x5b\x97\xf0\x89\x02\x59\x59\xa6\xf4\x34\xd6\x51\xd2\x07\xd1\x9f\xb9\x6e\x9e\x4f\xe0\xe8\x6e\xbe\x0e\x64\xf8\x5b\x96\xa9\xc7\x52\x95\xdf\x61\x8e\x80\xf1\xfa\x5b\x1b\x3c\xed\xb7\xbf\xe8\xdf\xfd\x6d\xba\x74\xb2\x75\xd8\x75\xbc\x6c\xc4\x3e\x90\x4e\x50\x5f\x25\x6a\xb4\x25\x5f\xfd\x43\xe9\x4d\x39\xe2\x2d\x61\x50\x1e\x70\x0a\x94\x0e\x80", b"\x16\x92\x77\x8e\xa5\x96\xe0\xbe\x75\x11\x42\x97\xa6\xfa\x38\x34\x45\xbf\x22\x7f\xbe\x58\x19\x0a\x90\x0c\x3c\x73\x25\x6f\x11\xfb\x5a\x32\x58\xd6\xf4\x03\xd5\xec\xe6\xe9\xb2\x69\xd8\x22\xc8\x7d"),
  (b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x07", b"\xaa\x87\xca\x22\xbe\x8b\x05\x37\x8e\xb1\xc7\x1e\xf3\x20\xad\x74\x6e\x1d\x3b\x62\x8b\xa7\x9b\x98\x59\xf7\x41\xe0\x82\x54\x2a\x38\x55\x02\xf2\x5d\xbf\x55\x29\x6c\x3a\x54\x5e\x38\x72\x76\x0a\xb7\x36\x17\xde\x4a\x96\x26\x2c\x6f\x5d\x9e\x98\xbf\x92\x92\xdc\x29\xf8\xf4\x1d\xbd\x28\x9a\x14\x7c\xe9\xda\x31\x13\xb5\xf0\xb8\xc0\x0a\x60\xb1\xce\x1d\x7e\x81\x9d\x7a\x43\x1d\x7c\x90\xea\x0e\x5f", b"\x28\x3c\x1d\x73\x65\xce\x47\x88\xf2\x9f\x8e\xbf\x23\x4e\xdf\xfe\xad\x6f\xe9\x97\xfb\xea\x5f\xfa\x2d\x58\xcc\x9d\xfa\x7b\x1c\x50\x8b\x05\x52\x6f\x55\xb9\xeb\xb2\x04\x0f\x05\xb4\x8f\xb6\xd0\xe1"),
  (b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x08", b"\xe8\x6b\x99\x5e\x35\x0e\x4d\x31\x2a\x95\xa6\xb7\xd5\xd8\xcd\xcd\xb4\x68\x2f\x58\x88\x00\xa1\xcd\x6c\x97\x2e\x1d\xcb\x2a\x5a\xc3\x8d\x90\x04\x69\x51\xb0\x3c\xcb\x3b\x17\x9a\x89\xfd\xa8\x8b\x1b\x48\x5b\x9f\x2c\x1f\x44\xb0\xdd\x41\xce\x6e\x3c\x3a\x69\x0b\xbf\xaa\xbe\xc1\xe1\xff\x4a\xef\xb2\x46\x1f\xdd\xa6\x62\x9b\xec\xbd\x43\xcf\x74\xc1\x3d\x8c\x1a\x16\x25\x61\x22\x43\xf0\x04\x61\x48", b"\xb4\x12\x80\xd6\xe3\x9c\x25\xf6\xd9\xfc\xb8\x38\x78\xd0\x36\x23\x90\x4d\x41\x27\xa0\xd2\x8a\x48\x17\x18\x30\x5b\xb3\x72\xa9\x66\x06\xf9\x36\x42\x38\xab\xf2\xf0\xb2\x02\xe7\xf7\x2b\x83\x28\x1b"),
  (b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x0f", b"\xaa\x87\xca\x22\xbe\x8b\x05\x37\x8e\xb1\xc7\x1e\xf3\x20\xad\x74\x6e\x1d\x3b\x62\x8b\xa7\x9b\x98\x59\xf7\x41\xe0\x82\x54\x2a\x38\x55\x02\xf2\x5d\xbf\x55\x29\x6c\x3a\x54\x5e\x38\x72\x76\x0a\xb7\xc9\xe8\x21\xb5\x69\xd9\xd3\x90\xa2\x61\x67\x40\x6d\x6d\x23\xd6\x07\x0b\xe2\x42\xd7\x65\xeb\x83\x16\x25\xce\xec\x4a\x0f\x47\x3e\xf5\x9f\x4e\x30\xe2\x81\x7e\x62\x85\xbc\xe2\x84\x6f\x15\xf1\xa0", b"\xb3\xd1\x3f\xc8\xb3\x2b\x01\x05\x8c\xc1\x5c\x11\xd8\x13\x52\x55\x22\xa9\x41\x56\xff\xf0\x1c\x20\x5b\x21\xf9\xf7\xda\x7c\x4e\x9c\xa8\x49\x55\x7a\x10\xb6\x38\x3b\x4b\x88\x70\x1a\x96\x06\x86\x0b"),
  (b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x10", b"\x08\xd9\x99\x05\x7b\xa3\xd2\xd9\x69\x26\x00\x45\xc5\x5b\x97\xf0\x89\x02\x59\x59\xa6\xf4\x34\xd6\x51\xd2\x07\xd1\x9f\xb9\x6e\x9e\x4f\xe0\xe8\x6e\xbe\x0e\x64\xf8\x5b\x96\xa9\xc7\x52\x95\xdf\x61\x8e\x80\xf1\xfa\x5b\x1b\x3c\xed\xb7\xbf\xe8\xdf\xfd\x6d\xba\x74\xb2\x75\xd8\x75\xbc\x6c\xc4\x3e\x90\x4e\x50\x5f\x25\x6a\xb4\x25\x5f\xfd\x43\xe9\x4d\x39\xe2\x2d\x61\x50\x1e\x70\x0a\x94\x0e\x80", b"\x7f\x73\x56\xc5\xe0\xfb\xc6\x67\x8b\xab\x99\xdf\x1f\xd9\xb2\xb4\x9f\x81\x61\x8d\x6d\x99\xaf\x63\x61\x2c\xcf\x2c\xc4\xac\xaf\x5c\x44\x81\x9b\x88\xe2\x17\xec\xd3\xcc\xe8\x2f\xe5\x5f\xf8\x6e\xd6"),
  (b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x11", b"\xaa\x87\xca\x22\xbe\x8b\x05\x37\x8e\xb1\xc7\x1e\xf3\x20\xad\x74\x6e\x1d\x3b\x62\x8b\xa7\x9b\x98\x59\xf7\x41\xe0\x82\x54\x2a\x38\x55\x02\xf2\x5d\xbf\x55\x29\x6c\x3a\x54\x5e\x38\x72\x76\x0a\xb7\x36\x17\xde\x4a\x96\x26\x2c\x6f\x5d\x9e\x98\xbf\x92\x92\xdc\x29\xf8\xf4\x1d\xbd\x28\x9a\x14\x7c\xe9\xda\x31\x13\xb5\xf0\xb8\xc0\x0a\x60\xb1\xce\x1d\x7e\x81\x9d\x7a\x43\x1d\x7c\x90\xea\x0e\x5f", b"\x40\x99\x95\x22\x08\xb4\x88\x96\x00\xa5\xeb\xbc\xb1\x3e\x1a\x32\x69\x2b\xef\xb0\x73\x3b\x41\xe6\xdc\xc6\x14\xe4\x2e\x58\x05\xf8\x17\x01\x2a\x99\x1a\xf1\xf4\x86\xca\xf3\xa9\xad\xd9\xff\xcc\x03"),
  (b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x1f", b"\xe8\x6b\x99\x5e\x35\x0e\x4d\x31\x2a\x95\xa6\xb7\xd5\xd8\xcd\xcd\xb4\x68\x2f\x58\x88\x00\xa1\xcd\x6c\x97\x2e\x1d\xcb\x2a\x5a\xc3\x8d\x90\x04\x69\x51\xb0\x3c\xcb\x3b\x17\x9a\x89\xfd\xa8\x8b\x1b\x48\x5b\x9f\x2c\x1f\x44\xb0\xdd\x41\xce\x6e\x3c\x3a\x69\x0b\xbf\xaa\xbe\xc1\xe1\xff\x4a\xef\xb2\x46\x1f\xdd\xa6\x62\x9b\xec\xbd\x43\xcf\x74\xc1\x3d\x8c\x1a\x16\x25\x61\x22\x43\xf0\x04\x61\x48", b"\x33\xb9\xd3\xf9\x00\xf1\x2b\xd9\x67\xda\x12\xda\x65\xfe\xb6\x92\x2c\x98\x80\x0c\xe3\xa8\xa7\x9e\xf1\xc7\xd0\x72\xc2\xf0\x40\xe4\x87\x3c\xef\x88\x8e\x9d\xa0\xcc\x66\xeb\x38\x01\x9b\xc1\x14\x8a"),
  (b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x20", b"\xaa\x87\xca\x22\xbe\x8b\x05\x37\x8e\xb1\xc7\x1e\xf3\x20\xad\x74\x6e\x1d\x3b\x62\x8b\xa7\x9b\x98\x59\xf7\x41\xe0\x82\x54\x2a\x38\x55\x02\xf2\x5d\xbf\x55\x29\x6c\x3a\x54\x5e\x38\x72\x76\x0a\xb7\xc9\xe8\x21\xb5\x69\xd9\xd3\x90\xa2\x61\x67\x40\x6d\x6d\x23\xd6\x07\x0b\xe2\x42\xd7\x65\xeb\x83\x16\x25\xce\xec\x4a\x0f\x47\x3e\xf5\x9f\x4e\x30\xe2\x81\x7e\x62\x85\xbc\xe2\x84\x6f\x15\xf1\xa0", b"\x7f\x73\x56\xc5\xe0\xfb\xc6\x67\x8b\xab\x99\xdf\x1f\xd9\xb2\xb4\x9f\x81\x61\x8d\x6d\x99\xaf\x63\x61\x2c\xcf\x2c\xc4\xac\xaf\x5c\x44\x81\x9b\x88\xe2\x17\xec\xd3\xcc\xe8\x2f\xe5\x5f\xf8\x6e\xd6"),
  (b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x21", b"\x08\xd9\x99\x05\x7b\xa3\xd2\xd9\x69\x26\x00\x45\xc5\x5b\x97\xf0\x89\x02\x59\x59\xa6\xf4\x34\xd6\x51\xd2\x07\xd1\x9f\xb9\x6e\x9e\x4f\xe0\xe8\x6e\xbe\x0e\x64\xf8\x5b\x96\xa9\xc7\x52\x95\xdf\x61\x8e\x80\xf1\xfa\x5b\x1b\x3c\xed\xb7\xbf\xe8\xdf\xfd\x6d\xba\x74\xb2\x75\xd8\x75\xbc\x6c\xc4\x3e\x90\x4e\x50\x5f\x25\x6a\xb4\x25\x5f\xfd\x43\xe9\x4d\x39\xe2\x2d\x61\x50\x1e\x70\x0a\x94\x0e\x80", b"\xaa\xbb\x0f\xb0\x66\x6a\xcf\xcf\x01\xfa\xd5\x2b\xfc\xfd\x4c\x2b\xf2\xcb\x3c\x34\x97\xde\x73\x95\x0e\x58\x19\xb6\x1f\xe6\x95\x09\x87\x41\xc8\xc4\x91\x43\x9b\x34\xa0\x43\x1c\xaf\xfe\x5b\xf9\xb4"),
  (b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x3f", b"\xaa\x87\xca\x22\xbe\x8b\x05\x37\x8e\xb1\xc7\x1e\xf3\x20\xad\x74\x6e\x1d\x3b\x62\x8b\xa7\x9b\x98\x59\xf7\x41\xe0\x82\x54\x2a\x38\x55\x02\xf2\x5d\xbf\x55\x29\x6c\x3a\x54\x5e\x38\x72\x76\x0a\xb7\x36\x17\xde\x4a\x96\x26\x2c\x6f\x5d\x9e\x98\xbf\x92\x92\xdc\x29\xf8\xf4\x1d\xbd\x28\x9a\x14\x7c\xe9\xda\x31\x13\xb5\xf0\xb8\xc0\x0a\x60\xb1\xce\x1d\x7e\x81\x9d\x7a\x43\x1d\x7c\x90\xea\x0e\x5f", b"\xb3\x2e\x89\xeb\x94\x2a\xab\x11\x2c\xae\x50\x8f\x51\x64\xca\x6c\xac\x33\x47\x69\xde\x35\x8b\x33\x3c\x96\x8c\xfb\xb8\x3c\x8f\x7b\x94\x15\x60\x58\x3d\xef\x54\x31\xaf\xd5\x74\xf7\xe0\x08\xf8\xaf"),
  (b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x40", b"\xe8\x6b\x99\x5e\x35\x0e\x4d\x31\x2a\x95\xa6\xb7\xd5\xd8\xcd\xcd\xb4\x68\x2f\x58\x88\x00\xa1\xcd\x6c\x97\x2e\x1d\xcb\x2a\x5a\xc3\x8d\x90\x04\x69\x51\xb0\x3c\xcb\x3b\x17\x9a\x89\xfd\xa8\x8b\x1b\x48\x5b\x9f\x2c\x1f\x44\xb0\xdd\x41\xce\x6e\x3c\x3a\x69\x0b\xbf\xaa\xbe\xc1\xe1\xff\x4a\xef\xb2\x46\x1f\xdd\xa6\x62\x9b\xec\xbd\x43\xcf\x74\xc1\x3d\x8c\x1a\x16\x25\x61\x22\x43\xf0\x04\x61\x48", b"\x61\xcf\xf1\xb3\x47\x9a\x17\x56\x11\xf1\xca\xf3\x6b\x0f\xed\xab\x6f\xf7\x50\xd7\xc2\xbd\xcf\x61\x3e\xba\x42\xa4\x18\xcd\x90\xf8\xbd\xfe\x9e\x5f\x02\x7a\x64\x57\xf7\x2a\x20\xba\xd4\xcf\x30\x5c"),
  (b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x41", b"\xaa\x87\xca\x22\xbe\x8b\x05\x37\x8e\xb1\xc7\x1e\xf3\x20\xad\x74\x6e\x1d\x3b\x62\x8b\xa7\x9b\x98\x59\xf7\x41\xe0\x82\x54\x2a\x38\x55\x02\xf2\x5d\xbf\x55\x29\x6c\x3a\x54\x5e\x38\x72\x76\x0a\xb7\xc9\xe8\x21\xb5\x69\xd9\xd3\x90\xa2\x61\x67\x40\x6d\x6d\x23\xd6\x07\x0b\xe2\x42\xd7\x65\xeb\x83\x16\x25\xce\xec\x4a\x0f\x47\x3e\xf5\x9f\x4e\x30\xe2\x81\x7e\x62\x85\xbc\xe2\x84\x6f\x15\xf1\xa0", b"\x88\xd1\x36\xb5\xcf\x91\x5a\x2b\xd4\x52\xd4\x05\x30\x43\x35\x42\xce\xc9\x28\x9d\x95\xcc\x77\xab\x51\x27\x3a\x44\xb2\x69\xdb\x68\xd1\x60\x29\x78\xc6\x9c\xc1\x8b\x6d\xfd\xfc\x9d\x07\xd6\xc3\xe7"),
  (b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x7f", b"\x08\xd9\x99\x05\x7b\xa3\xd2\xd9\x69\x26\x00\x45\xc5\x5b\x97\xf0\x89\x02\x59\x59\xa6\xf4\x34\xd6\x51\xd2\x07\xd1\x9f\xb9\x6e\x9e\x4f\xe0\xe8\x6e\xbe\x0e\x64\xf8\x5b\x96\xa9\xc7\x52\x95\xdf\x61\x8e\x80\xf1\xfa\x5b\x1b\x3c\xed\xb7\xbf\xe8\xdf\xfd\x6d\xba\x74\xb2\x75\xd8\x75\xbc\x6c\xc4\x3e\x90\x4e\x50\x5f\x25\x6a\xb4\x25\x5f\xfd\x43\xe9\x4d\x39\xe2\x2d\x61\x50\x1e\x70\x0a\x94\x0e\x80", b"\x47\x23\x5a\xef\x9a\x08\xf8\x7c\x1d\x86\xbb\x1f\xc2\x3e\x24\xfa\x4e\xac\x10\xb4\x07\xf4\xbe\x3d\x26\xb7\x6a\xde\x24\x25\xf5\xfe\x62\x24\x71\xe6\xd5\x12\x12\xde\x1e\xcb\x4e\xde\x69\xe5\x4f\xc7"),
  (b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", b"\xaa\x87\xca\x22\xbe\x8b\x05\x37\x8e\xb1\xc7\x1e\xf3\x20\xad\x74\x6e\x1d\x3b\x62\x8b\xa7\x9b\x98\x59\xf7\x41\xe0\x82\x54\x2a\x38\x55\x02\xf2\x5d\xbf\x55\x29\x6c\x3a\x54\x5e\x38\x72\x76\x0a\xb7\x36\x17\xde\x4a\x96\x26\x2c\x6f\x5d\x9e\x98\xbf\x92\x92\xdc\x29\xf8\xf4\x1d\xbd\x28\x9a\x14\x7c\xe9\xda\x31\x13\xb5\xf0\xb8\xc0\x0a\x60\xb1\xce\x1d\x7e\x81\x9d\x7a\x43\x1d\x7c\x90\xea\x0e\x5f", b"\x79\xda\x1e\x5e\x28\x97\x75\x52\xa2\x68\x82\x91\x6c\xf3\xce\x49\xe8\x2f\xa5\x6f\x53\xe2\xd9\xd9\x79\xdf\x1c\x97\x78\xd6\xd1\x60\x6c\x15\x7d\x3b\xb6\x86\x65\x08\x9b\xdd\x08\xca\xec\xd5\xd0\x92"),
  (b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xff", b"\xe8\x6b\x99\x5e\x35\x0e\x4d\x31\x2a\x95\xa6\xb7\xd5\xd8\xcd\xcd\xb4\x68\x2f\x58\x88\x00\xa1\xcd\x6c\x97\x2e\x1d\xcb\x2a\x5a\xc3\x8d\x90\x04\x69\x51\xb0\x3c\xcb\x3b\x17\x9a\x89\xfd\xa8\x8b\x1b\x48\x5b\x9f\x2c\x1f\x44\xb0\xdd\x41\xce\x6e\x3c\x3a\x69\x0b\xbf\xaa\xbe\xc1\xe1\xff\x4a\xef\xb2\x46\x1f\xdd\xa6\x62\x9b\xec\xbd\x43\xcf\x74\xc1\x3d\x8c\x1a\x16\x25\x61\x22\x43\xf0\x04\x61\x48", b"\x05\x40\x91\x64\xef\x46\x8c\x79\x92\x4e\x5c\xb8\xa4\x10\x49\x27\xae\x20\xbe\x13\x81\x8f\xb1\x96\x7b\x30\xf8\x4f\xdb\x58\xcf\x6a\xb6\xde\xa7\xe6\x47\x38\x20\xc8\xc1\xcc\x1a\x02\xee\xd0\x41\x60"),
  (b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01\x00", b"\xaa\x87\xca\x22\xbe\x8b\x05\x37\x8e\xb1\xc7\x1e\xf3\x20\xad\x74\x6e\x1d\x3b\x62\x8b\xa7\x9b\x98\x59\xf7\x41\xe0\x82\x54\x2a\x38\x55\x02\xf2\x5d\xbf\x55\x29\x6c\x3a\x54\x5e\x38\x72\x76\x0a\xb7\xc9\xe8\x21\xb5\x69\xd9\xd3\x90\xa2\x61\x67\x40\x6d\x6d\x23\xd6\x07\x0b\xe2\x42\xd7\x65\xeb\x83\x16\x25\xce\xec\x4a\x0f\x47\x3e\xf5\x9f\x4e\x30\xe2\x81\x7e\x62\x85\xbc\xe2\x84\x6f\x15\xf1\xa0", b"\x21\xa4\xf5\xd3\x69\x26\x92\x55\xde\xda\x6f\x06\x36\xc5\x01\x8a\xb3\xf2\x46\x7a\x35\x1b\xc3\x5e\xa2\x19\x3f\x92\xa7\xdf\xfd\xed\xb8\xe0\xf0\x3c\xea\xd4\xd0\xdc\xbd\x5e\xa7\x87\x76\xea\xd2\xe4"),
  (b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x10\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", b"\x08\xd9\x99\x05\x7b\xa3\xd2\xd9\x69\x26\x00\x45\xc5\x5b\x97\xf0\x89\x02\x59\x59\xa6\xf4\x34\xd6\x51\xd2\x07\xd1\x9f\xb9\x6e\x9e\x4f\xe0\xe8\x6e\xbe\x0e\x64\xf8\x5b\x96\xa9\xc7\x52\x95\xdf\x61\x8e\x80\xf1\xfa\x5b\x1b\x3c\xed\xb7\xbf\xe8\xdf\xfd\x6d\xba\x74\xb2\x75\xd8\x75\xbc\x6c\xc4\x3e\x90\x4e\x50\x5f\x25\x6a\xb4\x25\x5f\xfd\x43\xe9\x4d\x39\xe2\x2d\x61\x50\x1e\x70\x0a\x94\x0e\x80", b"\x50\x07\xdf\x56\x3b\x0f\xed\x0b\xaa\xd8\xa9\xa5\xca\x38\x24\xc1\xbe\x42\xb5\x9a\x86\x5c\x96\x68\x8e\x5e\x8b\x26\x88\x25\x7d\x50\xff\xeb\xec\xfa\x78\x89\xc3\xf0\x21\x94\x29\xa8\x3d\xba\x79\x76"),
  (b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff", b"\xaa\x87\xca\x22\xbe\x8b\x05\x37\x8e\xb1\xc7\x1e\xf3\x20\xad\x74\x6e\x1d\x3b\x62\x8b\xa7\x9b\x98\x59\xf7\x41\xe0\x82\x54\x2a\x38\x55\x02\xf2\x5d\xbf\x55\x29\x6c\x3a\x54\x5e\x38\x72\x76\x0a\xb7\x36\x17\xde\x4a\x96\x26\x2c\x6f\x5d\x9e\x98\xbf\x92\x92\xdc\x29\xf8\xf4\x1d\xbd\x28\x9a\x14\x7c\xe9\xda\x31\x13\xb5\xf0\xb8\xc0\x0a\x60\xb1\xce\x1d\x7e\x81\x9d\x7a\x43\x1d\x7c\x90\xea\x0e\x5f", b"\x64\x88\x91\x2f\x76\xb3\xb0\x99\xa8\xd5\x24\x4c\x34\xbd\x18\xb3\x98\xad\x61\x3b\x21\x6d\x2c\xad\xb2\xa2\xe8\x90\x30\xc0\x96\xcd\xb8\x61\x28\xab\x7f\x61\x8a\xf3\xc9\xfd\xe3\xe2\xf6\xbd\x0c\x1e"),
  (b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xc7\x63\x4d\x81\xf4\x37\x2d\xdf\x58\x1a\x0d\xb2\x48\xb0\xa7\x7a\xec\xec\x19\x6a\xcc\xc5\x29\x72", b"\xe8\x6b\x99\x5e\x35\x0e\x4d\x31\x2a\x95\xa6\xb7\xd5\xd8\xcd\xcd\xb4\x68\x2f\x58\x88\x00\xa1\xcd\x6c\x97\x2e\x1d\xcb\x2a\x5a\xc3\x8d\x90\x04\x69\x51\xb0\x3c\xcb\x3b\x17\x9a\x89\xfd\xa8\x8b\x1b\x48\x5b\x9f\x2c\x1f\x44\xb0\xdd\x41\xce\x6e\x3c\x3a\x69\x0b\xbf\xaa\xbe\xc1\xe1\xff\x4a\xef\xb2\x46\x1f\xdd\xa6\x62\x9b\xec\xbd\x43\xcf\x74\xc1\x3d\x8c\x1a\x16\x25\x61\x22\x43\xf0\x04\x61\x48", b"\xe8\x6b\x99\x5e\x35\x0e\x4d\x31\x2a\x95\xa6\xb7\xd5\xd8\xcd\xcd\xb4\x68\x2f\x58\x88\x00\xa1\xcd\x6c\x97\x2e\x1d\xcb\x2a\x5a\xc3\x8d\x90\x04\x69\x51\xb0\x3c\xcb\x3b\x17\x9a\x89\xfd\xa8\x8b\x1b"),
  (b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xc7\x63\x4d\x81\xf4\x37\x2d\xdf\x58\x1a\x0d\xb2\x48\xb0\xa7\x7a\xec\xec\x19\x6a\xcc\xc5\x29\x71", b"\xaa\x87\xca\x22\xbe\x8b\x05\x37\x8e\xb1\xc7\x1e\xf3\x20\xad\x74\x6e\x1d\x3b\x62\x8b\xa7\x9b\x98\x59\xf7\x41\xe0\x82\x54\x2a\x38\x55\x02\xf2\x5d\xbf\x55\x29\x6c\x3a\x54\x5e\x38\x72\x76\x0a\xb7\xc9\xe8\x21\xb5\x69\xd9\xd3\x90\xa2\x61\x67\x40\x6d\x6d\x23\xd6\x07\x0b\xe2\x42\xd7\x65\xeb\x83\x16\x25\xce\xec\x4a\x0f\x47\x3e\xf5\x9f\x4e\x30\xe2\x81\x7e\x62\x85\xbc\xe2\x84\x6f\x15\xf1\xa0", b"\x08\xd9\x99\x05\x7b\xa3\xd2\xd9\x69\x26\x00\x45\xc5\x5b\x97\xf0\x89\x02\x59\x59\xa6\xf4\x34\xd6\x51\xd2\x07\xd1\x9f\xb9\x6e\x9e\x4f\xe0\xe8\x6e\xbe\x0e\x64\xf8\x5b\x96\xa9\xc7\x52\x95\xdf\x61"),
  (b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xc7\x63\x4d\x81\xf4\x37\x2d\xdf\x58\x1a\x0d\xb2\x48\xb0\xa7\x7a\xec\xec\x19\x6a\xcc\xc5\x29\x70", b"\x08\xd9\x99\x05\x7b\xa3\xd2\xd9\x69\x26\x00\x45\xc5\x5b\x97\xf0\x89\x02\x59\x59\xa6\xf4\x34\xd6\x51\xd2\x07\xd1\x9f\xb9\x6e\x9e\x4f\xe0\xe8\x6e\xbe\x0e\x64\xf8\x5b\x96\xa9\xc7\x52\x95\xdf\x61\x8e\x80\xf1\xfa\x5b\x1b\x3c\xed\xb7\xbf\xe8\xdf\xfd\x6d\xba\x74\xb2\x75\xd8\x75\xbc\x6c\xc4\x3e\x90\x4e\x50\x5f\x25\x6a\xb4\x25\x5f\xfd\x43\xe9\x4d\x39\xe2\x2d\x61\x50\x1e\x70\x0a\x94\x0e\x80", b"\x62\x7b\xe1\xac\xd0\x64\xd2\xb2\x22\x6f\xe0\xd2\x6f\x2d\x15\xd3\xc3\x3e\xbc\xbb\x7f\x0f\x5d\xa5\x1c\xbd\x41\xf2\x62\x57\x38\x30\x21\x31\x7d\x72\x02\xff\x30\xe5\x09\x37\xf0\x85\x4e\x35\xc5\xdf"),
  (b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xc7\x63\x4d\x81\xf4\x37\x2d\xdf\x58\x1a\x0d\xb2\x48\xb0\xa7\x7a\xec\xec\x19\x6a\xcc\xc5\x29\x64", b"\xaa\x87\xca\x22\xbe\x8b\x05\x37\x8e\xb1\xc7\x1e\xf3\x20\xad\x74\x6e\x1d\x3b\x62\x8b\xa7\x9b\x98\x59\xf7\x41\xe0\x82\x54\x2a\x38\x55\x02\xf2\x5d\xbf\x55\x29\x6c\x3a\x54\x5e\x38\x72\x76\x0a\xb7\x36\x17\xde\x4a\x96\x26\x2c\x6f\x5d\x9e\x98\xbf\x92\x92\xdc\x29\xf8\xf4\x1d\xbd\x28\x9a\x14\x7c\xe9\xda\x31\x13\xb5\xf0\xb8\xc0\x0a\x60\xb1\xce\x1d\x7e\x81\x9d\x7a\x43\x1d\x7c\x90\xea\x0e\x5f", b"\xb3\xd1\x3f\xc8\xb3\x2b\x01\x05\x8c\xc1\x5c\x11\xd8\x13\x52\x55\x22\xa9\x41\x56\xff\xf0\x1c\x20\x5b\x21\xf9\xf7\xda\x7c\x4e\x9c\xa8\x49\x55\x7a\x10\xb6\x38\x3b\x4b\x88\x70\x1a\x96\x06\x86\x0b"),
  (b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xc7\x63\x4d\x81\xf4\x37\x2d\xdf\x58\x1a\x0d\xb2\x48\xb0\xa7\x7a\xec\xec\x19\x6a\xcc\xc5\x29\x63", b"\xe8\x6b\x99\x5e\x35\x0e\x4d\x31\x2a\x95\xa6\xb7\xd5\xd8\xcd\xcd\xb4\x68\x2f\x58\x88\x00\xa1\xcd\x6c\x97\x2e\x1d\xcb\x2a\x5a\xc3\x8d\x90\x04\x69\x51\xb0\x3c\xcb\x3b\x17\x9a\x89\xfd\xa8\x8b\x1b\x48\x5b\x9f\x2c\x1f\x44\xb0\xdd\x41\xce\x6e\x3c\x3a\x69\x0b\xbf\xaa\xbe\xc1\xe1\xff\x4a\xef\xb2\x46\x1f\xdd\xa6\x62\x9b\xec\xbd\x43\xcf\x74\xc1\x3d\x8c\x1a\x16\x25\x61\x22\x43\xf0\x04\x61\x48", b"\x4e\xb4\x9a\xe9\x8f\x89\x04\x38\x89\xc7\x33\x7f\xc0\x4b\x7c\x06\x19\x93\x72\x79\x41\x1c\xbf\x12\xbe\x33\xab\x18\x82\x3f\xd3\x5e\x17\xdb\xb2\xe2\x15\x47\xb5\x86\x2f\xa4\x7e\xd4\x38\xbe\x34\x8a"),
  (b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xc7\x63\x4d\x81\xf4\x37\x2d\xdf\x58\x1a\x0d\xb2\x48\xb0\xa7\x7a\xec\xec\x19\x6a\xcc\xc5\x29\x62", b"\xaa\x87\xca\x22\xbe\x8b\x05\x37\x8e\xb1\xc7\x1e\xf3\x20\xad\x74\x6e\x1d\x3b\x62\x8b\xa7\x9b\x98\x59\xf7\x41\xe0\x82\x54\x2a\x38\x55\x02\xf2\x5d\xbf\x55\x29\x6c\x3a\x54\x5e\x38\x72\x76\x0a\xb7\xc9\xe8\x21\xb5\x69\xd9\xd3\x90\xa2\x61\x67\x40\x6d\x6d\x23\xd6\x07\x0b\xe2\x42\xd7\x65\xeb\x83\x16\x25\xce\xec\x4a\x0f\x47\x3e\xf5\x9f\x4e\x30\xe2\x81\x7e\x62\x85\xbc\xe2\x84\x6f\x15\xf1\xa0", b"\x40\x99\x95\x22\x08\xb4\x88\x96\x00\xa5\xeb\xbc\xb1\x3e\x1a\x32\x69\x2b\xef\xb0\x73\x3b\x41\xe6\xdc\xc6\x14\xe4\x2e\x58\x05\xf8\x17\x01\x2a\x99\x1a\xf1\xf4\x86\xca\xf3\xa9\xad\xd9\xff\xcc\x03"),
  (b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xc7\x63\x4d\x81\xf4\x37\x2d\xdf\x58\x1a\x0d\xb2\x48\xb0\xa7\x7a\xec\xec\x19\x6a\xcc\xc5\x29\x54", b"\x08\xd9\x99\x05\x7b\xa3\xd2\xd9\x69\x26\x00\x45\xc5\x5b\x97\xf0\x89\x02\x59\x59\xa6\xf4\x34\xd6\x51\xd2\x07\xd1\x9f\xb9\x6e\x9e\x4f\xe0\xe8\x6e\xbe\x0e\x64\xf8\x5b\x96\xa9\xc7\x52\x95\xdf\x61\x8e\x80\xf1\xfa\x5b\x1b\x3c\xed\xb7\xbf\xe8\xdf\xfd\x6d\xba\x74\xb2\x75\xd8\x75\xbc\x6c\xc4\x3e\x90\x4e\x50\x5f\x25\x6a\xb4\x25\x5f\xfd\x43\xe9\x4d\x39\xe2\x2d\x61\x50\x1e\x70\x0a\x94\x0e\x80", b"\xfa\xd7\x56\xf5\x29\x78\xca\x37\x6b\x08\x62\x58\xbf\xaa\xac\x8a\x3a\x42\xd1\x0c\x5d\x6c\xb5\x07\xc8\xca\x4c\x2e\xfc\xe2\xa9\x69\x2f\x29\xd5\x69\xdc\xf8\x6b\x74\xaa\xcc\x18\xa3\xc5\xd1\x3f\x84"),
  (b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xc7\x63\x4d\x81\xf4\x37\x2d\xdf\x58\x1a\x0d\xb2\x48\xb0\xa7\x7a\xec\xec\x19\x6a\xcc\xc5\x29\x53", b"\xaa\x87\xca\x22\xbe\x8b\x05\x37\x8e\xb1\xc7\x1e\xf3\x20\xad\x74\x6e\x1d\x3b\x62\x8b\xa7\x9b\x98\x59\xf7\x41\xe0\x82\x54\x2a\x38\x55\x02\xf2\x5d\xbf\x55\x29\x6c\x3a\x54\x5e\x38\x72\x76\x0a\xb7\x36\x17\xde\x4a\x96\x26\x2c\x6f\x5d\x9e\x98\xbf\x92\x92\xdc\x29\xf8\xf4\x1d\xbd\x28\x9a\x14\x7c\xe9\xda\x31\x13\xb5\xf0\xb8\xc0\x0a\x60\xb1\xce\x1d\x7e\x81\x9d\x7a\x43\x1d\x7c\x90\xea\x0e\x5f", b"\x7f\x73\x56\xc5\xe0\xfb\xc6\x67\x8b\xab\x99\xdf\x1f\xd9\xb2\xb4\x9f\x81\x61\x8d\x6d\x99\xaf\x63\x61\x2c\xcf\x2c\xc4\xac\xaf\x5c\x44\x81\x9b\x88\xe2\x17\xec\xd3\xcc\xe8\x2f\xe5\x5f\xf8\x6e\xd6"),
  (b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xc7\x63\x4d\x81\xf4\x37\x2d\xdf\x58\x1a\x0d\xb2\x48\xb0\xa7\x7a\xec\xec\x19\x6a\xcc\xc5\x29\x52", b"\xe8\x6b\x99\x5e\x35\x0e\x4d\x31\x2a\x95\xa6\xb7\xd5\xd8\xcd\xcd\xb4\x68\x2f\x58\x88\x00\xa1\xcd\x6c\x97\x2e\x1d\xcb\x2a\x5a\xc3\x8d\x90\x04\x69\x51\xb0\x3c\xcb\x3b\x17\x9a\x89\xfd\xa8\x8b\x1b\x48\x5b\x9f\x2c\x1f\x44\xb0\xdd\x41\xce\x6e\x3c\x3a\x69\x0b\xbf\xaa\xbe\xc1\xe1\xff\x4a\xef\xb2\x46\x1f\xdd\xa6\x62\x9b\xec\xbd\x43\xcf\x74\xc1\x3d\x8c\x1a\x16\x25\x61\x22\x43\xf0\x04\x61\x48", b"\x3f\xed\xb0\x2f\x02\x4d\x77\xfc\x79\x98\x6d\xaf\x6f\x2a\xaf\xf0\x7d\xec\x02\xde\x04\x92\x58\x21\x4c\x26\x20\x24\x59\xd3\x25\x49\x39\x35\xe7\x38\x44\x77\xa0\xd9\x93\x0c\x77\xb9\x29\x30\x09\xa1"),
  (b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xc7\x63\x4d\x81\xf4\x37\x2d\xdf\x58\x1a\x0d\xb2\x48\xb0\xa7\x7a\xec\xec\x19\x6a\xcc\xc5\x29\x33", b"\xaa\x87\xca\x22\xbe\x8b\x05\x37\x8e\xb1\xc7\x1e\xf3\x20\xad\x74\x6e\x1d\x3b\x62\x8b\xa7\x9b\x98\x59\xf7\x41\xe0\x82\x54\x2a\x38\x55\x02\xf2\x5d\xbf\x55\x29\x6c\x3a\x54\x5e\x38\x72\x76\x0a\xb7\xc9\xe8\x21\xb5\x69\xd9\xd3\x90\xa2\x61\x67\x40\x6d\x6d\x23\xd6\x07\x0b\xe2\x42\xd7\x65\xeb\x83\x16\x25\xce\xec\x4a\x0f\x47\x3e\xf5\x9f\x4e\x30\xe2\x81\x7e\x62\x85\xbc\xe2\x84\x6f\x15\xf1\xa0", b"\xc1\xe1\x79\xaa\x17\x8a\x78\x00\x46\xe3\x58\x41\x76\x60\x73\x61\x2e\xa5\xe5\xab\xd2\x66\x08\xf2\x59\xa5\x99\xfc\x9a\x84\x25\xa3\xea\x63\x9d\x94\xcb\xe6\x3f\xde\x1d\x69\xc7\x0f\x93\x27\x60\x5f"),
  (b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xc7\x63\x4d\x81\xf4\x37\x2d\xdf\x58\x1a\x0d\xb2\x48\xb0\xa7\x7a\xec\xec\x19\x6a\xcc\xc5\x28\xf4", b"\x08\xd9\x99\x05\x7b\xa3\xd2\xd9\x69\x26\x00\x45\xc5\x5b\x97\xf0\x89\x02\x59\x59\xa6\xf4\x34\xd6\x51\xd2\x07\xd1\x9f\xb9\x6e\x9e\x4f\xe0\xe8\x6e\xbe\x0e\x64\xf8\x5b\x96\xa9\xc7\x52\x95\xdf\x61\x8e\x80\xf1\xfa\x5b\x1b\x3c\xed\xb7\xbf\xe8\xdf\xfd\x6d\xba\x74\xb2\x75\xd8\x75\xbc\x6c\xc4\x3e\x90\x4e\x50\x5f\x25\x6a\xb4\x25\x5f\xfd\x43\xe9\x4d\x39\xe2\x2d\x61\x50\x1e\x70\x0a\x94\x0e\x80", b"\x47\x23\x5a\xef\x9a\x08\xf8\x7c\x1d\x86\xbb\x1f\xc2\x3e\x24\xfa\x4e\xac\x10\xb4\x07\xf4\xbe\x3d\x26\xb7\x6a\xde\x24\x25\xf5\xfe\x62\x24\x71\xe6\xd5\x12\x12\xde\x1e\xcb\x4e\xde\x69\xe5\x4f\xc7"),
  (b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xc7\x63\x4d\x81\xf4\x37\x2d\xdf\x58\x1a\x0d\xb2\x48\xb0\xa7\x7a\xec\xec\x19\x6a\xcc\xc5\x28\xf3", b"\xaa\x87\xca\x22\xbe\x8b\x05\x37\x8e\xb1\xc7\x1e\xf3\x20\xad\x74\x6e\x1d\x3b\x62\x8b\xa7\x9b\x98\x59\xf7\x41\xe0\x82\x54\x2a\x38\x55\x02\xf2\x5d\xbf\x55\x29\x6c\x3a\x54\x5e\x38\x72\x76\x0a\xb7\x36\x17\xde\x4a\x96\x26\x2c\x6f\x5d\x9e\x98\xbf\x92\x92\xdc\x29\xf8\xf4\x1d\xbd\x28\x9a\x14\x7c\xe9\xda\x31\x13\xb5\xf0\xb8\xc0\x0a\x60\xb1\xce\x1d\x7e\x81\x9d\x7a\x43\x1d\x7c\x90\xea\x0e\x5f", b"\x79\xda\x1e\x5e\x28\x97\x75\x52\xa2\x68\x82\x91\x6c\xf3\xce\x49\xe8\x2f\xa5\x6f\x53\xe2\xd9\xd9\x79\xdf\x1c\x97\x78\xd6\xd1\x60\x6c\x15\x7d\x3b\xb6\x86\x65\x08\x9b\xdd\x08\xca\xec\xd5\xd0\x92"),
  (b"\x7f\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xe3\xb1\xa6\xc0\xfa\x1b\x96\xef\xac\x0d\x06\xd9\x24\x58\x53\xbd\x76\x76\x0c\xb5\x66\x62\x94\xb9", b"\xe8\x6b\x99\x5e\x35\x0e\x4d\x31\x2a\x95\xa6\xb7\xd5\xd8\xcd\xcd\xb4\x68\x2f\x58\x88\x00\xa1\xcd\x6c\x97\x2e\x1d\xcb\x2a\x5a\xc3\x8d\x90\x04\x69\x51\xb0\x3c\xcb\x3b\x17\x9a\x89\xfd\xa8\x8b\x1b\x48\x5b\x9f\x2c\x1f\x44\xb0\xdd\x41\xce\x6e\x3c\x3a\x69\x0b\xbf\xaa\xbe\xc1\xe1\xff\x4a\xef\xb2\x46\x1f\xdd\xa6\x62\x9b\xec\xbd\x43\xcf\x74\xc1\x3d\x8c\x1a\x16\x25\x61\x22\x43\xf0\x04\x61\x48", b"\x7c\x43\x75\x25\x3b\x7b\xd6\x60\xa8\xef\x29\x18\xc1\x0b\x05\xe3\xda\xfd\x53\xec\x4a\xa3\x09\x0b\x7b\xbd\xe7\x9e\xad\xdb\xa1\xd4\x1d\x2a\x32\x6e\xe0\x49\xe6\x24\x11\x33\x65\xfd\x78\x1a\xe8\x52"),
  (b"\x7f\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xe3\xb1\xa6\xc0\xfa\x1b\x96\xef\xac\x0d\x06\xd9\x24\x58\x53\xbd\x76\x76\x0c\xb5\x66\x62\x94\xba", b"\xaa\x87\xca\x22\xbe\x8b\x05\x37\x8e\xb1\xc7\x1e\xf3\x20\xad\x74\x6e\x1d\x3b\x62\x8b\xa7\x9b\x98\x59\xf7\x41\xe0\x82\x54\x2a\x38\x55\x02\xf2\x5d\xbf\x55\x29\x6c\x3a\x54\x5e\x38\x72\x76\x0a\xb7\xc9\xe8\x21\xb5\x69\xd9\xd3\x90\xa2\x61\x67\x40\x6d\x6d\x23\xd6\x07\x0b\xe2\x42\xd7\x65\xeb\x83\x16\x25\xce\xec\x4a\x0f\x47\x3e\xf5\x9f\x4e\x30\xe2\x81\x7e\x62\x85\xbc\xe2\x84\x6f\x15\xf1\xa0", b"\xd3\x6f\xed\x39\xca\x71\x06\x3a\x51\x63\xe8\x11\x9a\x37\xaf\xf1\x0f\x6b\x86\xd5\x0f\x02\xf1\xd3\x24\x23\x8d\x2b\x09\x0d\x80\x67\x08\x49\x55\x05\x66\x39\x6f\xf5\x77\x87\x38\xc0\xb3\x9b\x10\x7a"),
  (b"\x07\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xfe\x3b\x1a\x6c\x0f\xa1\xb9\x6e\xfa\xc0\xd0\x6d\x92\x45\x85\x3b\xd7\x67\x60\xcb\x56\x66\x29\x4b", b"\x08\xd9\x99\x05\x7b\xa3\xd2\xd9\x69\x26\x00\x45\xc5\x5b\x97\xf0\x89\x02\x59\x59\xa6\xf4\x34\xd6\x51\xd2\x07\xd1\x9f\xb9\x6e\x9e\x4f\xe0\xe8\x6e\xbe\x0e\x64\xf8\x5b\x96\xa9\xc7\x52\x95\xdf\x61\x8e\x80\xf1\xfa\x5b\x1b\x3c\xed\xb7\xbf\xe8\xdf\xfd\x6d\xba\x74\xb2\x75\xd8\x75\xbc\x6c\xc4\x3e\x90\x4e\x50\x5f\x25\x6a\xb4\x25\x5f\xfd\x43\xe9\x4d\x39\xe2\x2d\x61\x50\x1e\x70\x0a\x94\x0e\x80", b"\x48\x48\x0f\x30\xf8\x9c\xfe\x4d\xc9\x21\x9a\x74\x18\x91\x7a\x82\x5e\xfe\x14\xe6\x1f\x8e\x75\xef\xe3\x59\x8f\x43\x3d\x24\x36\xa1\x4e\x7e\xcd\xe3\x94\x57\x6c\x4d\xb9\x8b\x99\x7f\xd9\x98\xb1\x05"),
  (b"\x01\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x8e\xc6\x9b\x03\xe8\x6e\x5b\xbe\xb0\x34\x1b\x64\x91\x61\x4e\xf5\xd9\xd8\x32\xd5\x99\x8a\x52", b"\xaa\x87\xca\x22\xbe\x8b\x05\x37\x8e\xb1\xc7\x1e\xf3\x20\xad\x74\x6e\x1d\x3b\x62\x8b\xa7\x9b\x98\x59\xf7\x41\xe0\x82\x54\x2a\x38\x55\x02\xf2\x5d\xbf\x55\x29\x6c\x3a\x54\x5e\x38\x72\x76\x0a\xb7\x36\x17\xde\x4a\x96\x26\x2c\x6f\x5d\x9e\x98\xbf\x92\x92\xdc\x29\xf8\xf4\x1d\xbd\x28\x9a\x14\x7c\xe9\xda\x31\x13\xb5\xf0\xb8\xc0\x0a\x60\xb1\xce\x1d\x7e\x81\x9d\x7a\x43\x1d\x7c\x90\xea\x0e\x5f", b"\x13\x55\x12\x50\xda\x8c\xcf\xa4\x3e\xf1\xfb\x0f\x2b\xf6\x1b\xfa\x1b\x0e\x3e\x8e\x8c\x88\xf1\x67\xce\xdd\x31\x08\xb2\x6d\xf2\xa5\x18\xec\xd0\xd2\x45\x25\xd9\x9d\x6e\xc8\x17\x62\x24\xc2\xd5\xbf"),
  (b"\x02\x5b\x79\xd1\x39\x30\xa2\xa8\xd9\x97\x67\x11\x1b\xd0\xcc\x0d\xb5\x72\x0c\xe5\x23\x24\x5c\x95\x3c\x33\x6d\x6d\x7d\xc3\x2b\x5c\xa8\x01\x61\xf7\x75\xef\xf2\x12\x92\xb6\x23\x52\x55\x99\x2a\xa9", b"\xe8\x6b\x99\x5e\x35\x0e\x4d\x31\x2a\x95\xa6\xb7\xd5\xd8\xcd\xcd\xb4\x68\x2f\x58\x88\x00\xa1\xcd\x6c\x97\x2e\x1d\xcb\x2a\x5a\xc3\x8d\x90\x04\x69\x51\xb0\x3c\xcb\x3b\x17\x9a\x89\xfd\xa8\x8b\x1b\x48\x5b\x9f\x2c\x1f\x44\xb0\xdd\x41\xce\x6e\x3c\x3a\x69\x0b\xbf\xaa\xbe\xc1\xe1\xff\x4a\xef\xb2\x46\x1f\xdd\xa6\x62\x9b\xec\xbd\x43\xcf\x74\xc1\x3d\x8c\x1a\x16\x25\x61\x22\x43\xf0\x04\x61\x48", b"\x9f\x86\x03\xb5\xcc\x56\x46\x7f\x6b\xa1\x1f\x02\x48\x41\xad\x0f\xc5\x76\xb3\x41\x33\xb5\xb7\x0f\xa1\xe9\x79\x74\x95\xcb\x1b\xa3\xaf\x92\x01\x8a\xa2\x55\x48\x66\xcf\x90\x4d\xee\x37\xfe\x0b\x3b"),
];
