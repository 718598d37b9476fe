// written by tools/edvec.py
pub struct X { pub k: &'static [u8; 32], pub u: &'static [u8; 32], pub r: &'static [u8; 32] }
pub static X25519: &[X] = &[
  X { k: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", u: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", r: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00" },
  X { k: b"\x68\x9f\xae\xe7\xd2\x18\x93\xc0\xb2\xe6\xbc\x17\xf5\xce\xf7\xa6\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", u: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", r: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00" },
  X { k: b"\x63\xf9\x79\x1a\xe2\xda\x22\x3d\x42\x35\xc5\xd6\x16\x29\x2a\x26\x06\x0c\xf5\xde\x3b\xab\x80\xc5\x61\xf7\xfb\x93\xb6\xbb\x99\x6a", u: b"\xec\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f", r: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00" },
  X { k: b"\x8a\xe4\xab\x16\x11\x0b\x8c\xff\xfd\xba\x63\x82\xb6\x12\x2d\xbc\x7b\x34\x8a\x91\xc4\xbc\x52\x53\x78\x3a\x30\x7c\x93\x6f\xf0\x90", u: b"\xed\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f", r: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00" },
  X { k: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x7f", u: b"\xee\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f", r: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00" },
  X { k: b"\xc4\xcd\x62\x03\xf2\xfc\x08\x0d\x7e\xa1\x0a\xbe\x5b\xc2\xfd\x6e\x1e\x41\xfc\x81\xe7\x90\xb0\x7d\x0e\xa6\x78\xd2\xb1\xa7\x18\x25", u: b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f", r: b"\x1d\x2f\x8e\x95\x50\x66\xb6\xd7\x4b\x4f\x91\x96\xf4\x2c\x59\x70\x62\x14\x5e\xbd\xda\xbf\x9f\x4c\x80\x61\x8d\x83\xce\x8f\xfc\x77" },
  X { k: b"\xa3\xb1\xd2\x20\x45\xcb\x29\xa7\xf8\x57\x0f\xad\x84\xbb\x9f\x95\xf4\x60\x16\xe1\xb3\x4c\x14\x5c\x74\xa5\x9e\xbc\xd9\x01\x0c\x73", u: b"\x09\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", r: b"\xc8\x3f\xe8\x1f\x59\xb9\x3b\x77\x29\x74\x08\x0a\x4f\xc5\x8a\x57\xa8\x08\x7c\xf4\xb4\x60\xf6\x6f\x41\x0c\xfd\xec\x03\xe0\x13\x77" },
  X { k: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", u: b"\x02\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", r: b"\x1b\xfd\x8c\x01\xd2\xfe\x9f\xca\x58\xae\x61\xab\x79\x2b\x0a\x68\xfe\xeb\xfc\x17\xa2\xe9\x50\x68\xd1\x2f\xa5\x00\x7a\x51\x95\x41" },
  X { k: b"\x08\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x40", u: b"\x03\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", r: b"\x0b\x1e\xea\x8d\x6c\x3c\x51\x7f\x2c\xfa\xf5\x97\x65\xb2\x7d\x71\x4c\x44\x40\x66\xe0\xd1\x4d\x92\x86\x89\x63\x2b\x99\xe4\xb0\x40" },
  X { k: b"\xad\x15\xc7\x6c\x2a\x1b\xf3\xaa\x62\x48\x75\xe0\x7d\x88\xb1\xd1\xc4\x66\x31\xe0\xd4\xa6\x6d\xd8\x40\x48\xdd\xe6\xdf\x16\xdb\x86", u: b"\xe4\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f", r: b"\x8b\xef\xfe\x67\x8f\xf4\x57\x1f\x5e\x38\xc9\x0f\xe7\xd0\x4e\x29\x0b\xbc\xe2\x78\xf2\x26\x36\x6a\xc7\x76\x85\x76\x5d\x05\x74\x35" },
  X { k: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", u: b"\xf6\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f", r: b"\x2f\xe5\x7d\xa3\x47\xcd\x62\x43\x15\x28\xda\xac\x5f\xbb\x29\x07\x30\xff\xf6\x84\xaf\xc4\xcf\xc2\xed\x90\x99\x5f\x58\xcb\x3b\x74" },
  X { k: b"\x68\x9f\xae\xe7\xd2\x18\x93\xc0\xb2\xe6\xbc\x17\xf5\xce\xf7\xa6\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", u: b"\xeb\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f", r: b"\x62\x73\x4d\xe0\xa7\x71\x65\xc7\xd1\x3e\x93\xca\xe3\xe6\x05\x5f\xe3\x5e\x1e\x0c\x03\xa1\xa8\x67\xd0\x81\xfe\x8c\xc9\x1a\x23\x5a" },
  X { k: b"\x63\xf9\x79\x1a\xe2\xda\x22\x3d\x42\x35\xc5\xd6\x16\x29\x2a\x26\x06\x0c\xf5\xde\x3b\xab\x80\xc5\x61\xf7\xfb\x93\xb6\xbb\x99\x6a", u: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x40", r: b"\xb0\xc0\x31\x02\xa7\xe1\xb3\x6a\xb2\xe8\x05\x6d\xa0\xda\xb2\x60\xeb\x54\xb3\x01\x2b\xd1\xad\x89\x86\x8f\xbf\x38\x82\x87\x81\x42" },
  X { k: b"\x8a\xe4\xab\x16\x11\x0b\x8c\xff\xfd\xba\x63\x82\xb6\x12\x2d\xbc\x7b\x34\x8a\x91\xc4\xbc\x52\x53\x78\x3a\x30\x7c\x93\x6f\xf0\x90", u: b"\xda\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f", r: b"\x60\xfc\xfc\x77\xad\x24\xb5\x67\xa3\xaf\x8c\xaa\x66\x02\x66\x1e\x79\x34\x97\x6f\xf8\xf3\x2e\xfd\xd0\x82\x9d\x49\x37\x10\xbb\x0e" },
  X { k: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x7f", u: b"\xe0\xeb\x7a\x7c\x3b\x41\xb8\xae\x16\x56\xe3\xfa\xf1\x9f\xc4\x6a\xda\x09\x8d\xeb\x9c\x32\xb1\xfd\x86\x62\x05\x16\x5f\x49\xb8\x00", r: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00" },
  X { k: b"\xc4\xcd\x62\x03\xf2\xfc\x08\x0d\x7e\xa1\x0a\xbe\x5b\xc2\xfd\x6e\x1e\x41\xfc\x81\xe7\x90\xb0\x7d\x0e\xa6\x78\xd2\xb1\xa7\x18\x25", u: b"\x5f\x9c\x95\xbc\xa3\x50\x8c\x24\xb1\xd0\xb1\x55\x9c\x83\xef\x5b\x04\x44\x5c\xc4\x58\x1c\x8e\x86\xd8\x22\x4e\xdd\xd0\x9f\x11\x57", r: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00" },
  X { k: b"\xa3\xb1\xd2\x20\x45\xcb\x29\xa7\xf8\x57\x0f\xad\x84\xbb\x9f\x95\xf4\x60\x16\xe1\xb3\x4c\x14\x5c\x74\xa5\x9e\xbc\xd9\x01\x0c\x73", u: b"\xff\xff\xff\xff\xff\xff\xff\xff\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", r: b"\xae\xa3\xf7\x9d\x43\x5a\xde\x7b\xa0\x0d\xc4\x45\x91\x20\x39\xf4\x8d\xdc\xea\x3c\x9a\xcc\x3d\x7c\x23\x94\xff\x8a\x02\xab\xbe\x34" },
  X { k: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", u: b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", r: b"\x68\x15\x29\xda\x6d\xa0\x6d\xc7\x91\xb3\x72\x3a\x0d\xc1\x6a\x5a\x14\x1e\x38\x23\x95\x72\x41\x01\x5a\x52\x51\xc7\x28\x02\x70\x2a" },
  X { k: b"\x08\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x40", u: b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x00\x00\x00\x00\x00\x00\x00\x00", r: b"\xd3\x30\xf4\x61\x0c\x37\x0d\xf7\xe2\x20\x52\x6b\xf6\xad\xc1\x36\x26\x1c\x16\xa6\x39\x2d\x2a\x66\xf9\xd8\xae\x5a\xa3\x6b\x2c\x62" },
  X { k: b"\xad\x15\xc7\x6c\x2a\x1b\xf3\xaa\x62\x48\x75\xe0\x7d\x88\xb1\xd1\xc4\x66\x31\xe0\xd4\xa6\x6d\xd8\x40\x48\xdd\xe6\xdf\x16\xdb\x86", u: b"\x00\x00\x00\x00\x00\x00\x00\x00\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f", r: b"\x28\xe6\x6d\xaa\xf0\xd9\x39\x1e\x7c\xaf\xc6\x81\x5e\xee\x24\x7c\x4d\xa2\x63\x52\xeb\x9c\x6a\x64\xbf\xe3\x70\xa9\x38\xa4\x01\x0f" },
  X { k: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", u: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xff\xff\xff\xff\xff\xff\xff\x7f", r: b"\x2c\xab\xe7\xe6\xaa\x10\xff\x73\xa4\x06\x5c\x3d\x20\xe3\xe9\x8f\xfe\x89\xe7\x66\x44\x1d\x9f\x94\x6e\x0a\xf0\x32\xa4\x4c\xf5\x0b" },
  X { k: b"\x68\x9f\xae\xe7\xd2\x18\x93\xc0\xb2\xe6\xbc\x17\xf5\xce\xf7\xa6\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", u: b"\x3d\xd3\x92\xcc\x02\xd0\xb2\x40\xdf\x95\x6e\x53\x06\x31\x83\x32\xac\xfb\x90\x3d\xb2\xfa\x70\x31\x6a\x05\x93\xd2\x17\xd9\x46\x78", r: b"\x7d\x95\xee\x0b\xa9\xbd\x3e\xd6\x01\x3d\x10\xf6\x2d\xac\x79\x8c\x52\xf8\x7f\x7f\x5f\x3d\xb2\x93\x2d\x17\xa4\x44\x2f\x8e\x77\x2d" },
  X { k: b"\x63\xf9\x79\x1a\xe2\xda\x22\x3d\x42\x35\xc5\xd6\x16\x29\x2a\x26\x06\x0c\xf5\xde\x3b\xab\x80\xc5\x61\xf7\xfb\x93\xb6\xbb\x99\x6a", u: b"\x1c\xbd\x74\x1d\xbc\xcf\xd5\x4a\x23\xa7\xea\x79\xe8\xa8\xfa\xf3\x5d\x30\xd2\x8e\xee\x3f\xec\xff\xe3\x52\x80\x9c\x46\x93\x70\x1e", r: b"\xf0\x6a\x88\x0a\xcf\x9b\x01\x14\xf3\x21\x41\xf6\x14\xa4\x36\xd0\xf8\x0d\x7b\x1d\xae\x80\xa2\xe1\x31\xfe\xd9\xed\xfc\xc9\x6a\x76" },
  X { k: b"\x8a\xe4\xab\x16\x11\x0b\x8c\xff\xfd\xba\x63\x82\xb6\x12\x2d\xbc\x7b\x34\x8a\x91\xc4\xbc\x52\x53\x78\x3a\x30\x7c\x93\x6f\xf0\x90", u: b"\x30\x9e\x3d\x25\x90\xdc\x4e\x8e\x02\x51\x72\xa1\xa9\x32\x3f\xa9\x32\x9e\x28\x80\x16\x00\x9f\x00\x8d\xec\xe2\xd9\xdd\x16\xd5\x23", r: b"\x64\xa3\x8f\x04\x15\x43\xc7\x21\xaf\xec\x30\x1c\x53\xb3\x01\x98\x0f\xb8\x1a\xd0\xb9\xe6\x08\x5e\x2b\x52\xcb\x6a\x21\x25\x91\x60" },
  X { k: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x7f", u: b"\xe2\x06\x42\x07\x91\x6e\xde\xd5\x4f\x7b\x09\xf5\x0e\x3a\x45\x7f\x1c\xbf\x34\x2c\xe9\x40\xdd\xca\xfb\x0c\x38\xd0\x9a\x3f\x7a\x18", r: b"\xf1\x2d\x1d\xf6\x92\xdc\x0d\x67\x5c\xc8\x14\xb1\x11\xd6\x38\x0a\x74\x7c\x1b\x25\x79\x07\xf5\x09\xb9\x15\x3b\x3d\x80\x9a\xea\x41" },
  X { k: b"\xc4\xcd\x62\x03\xf2\xfc\x08\x0d\x7e\xa1\x0a\xbe\x5b\xc2\xfd\x6e\x1e\x41\xfc\x81\xe7\x90\xb0\x7d\x0e\xa6\x78\xd2\xb1\xa7\x18\x25", u: b"\x83\x63\xdf\x81\xaf\xf8\x6a\xff\x10\x05\xf0\xd5\x33\x39\x78\x63\x0a\xd5\xd0\x2e\xa7\x77\xdc\x54\x8f\xa9\x4c\x52\x31\xf5\x03\x0f", r: b"\x67\x4d\x9e\x93\xba\xde\xe3\x91\x52\x97\xd0\x85\xda\x47\x17\xea\x19\x2a\x36\xbd\x33\x9c\x15\x82\xe6\x3b\x70\xf3\x48\xcb\xf9\x4f" },
  X { k: b"\xa3\xb1\xd2\x20\x45\xcb\x29\xa7\xf8\x57\x0f\xad\x84\xbb\x9f\x95\xf4\x60\x16\xe1\xb3\x4c\x14\x5c\x74\xa5\x9e\xbc\xd9\x01\x0c\x73", u: b"\x37\x95\x51\x16\x6b\x86\x0d\x8d\xc4\x23\x5a\xc7\xec\x8f\xa6\x42\xf0\x24\xb2\x88\x5c\xea\x3b\x78\x47\x53\x79\x34\x19\x68\xe0\x1c", r: b"\xe0\x07\xc7\x03\x35\xe9\xa8\xe3\x4e\xee\xb6\x65\x57\x45\x0c\x4e\x33\x2d\x67\x32\x8b\x80\xed\x81\x48\x30\x52\xd0\xe9\x31\xf2\x4f" },
  X { k: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", u: b"\xfc\x75\x12\x31\x64\xef\x66\x12\x57\x12\xb9\x14\x2f\xb3\x6b\xd8\x39\xd9\x3b\x33\x93\xb1\x7d\xb2\xd6\xfc\x62\x8f\x3e\xf0\x58\x73", r: b"\x20\xcd\x23\xf5\x1a\xd5\xa4\x01\xb3\xa8\x66\x51\x92\x1a\x9c\xab\xc8\x2f\x10\x8e\x1b\xa1\x5f\xb8\x3c\x9e\xc1\xd3\x03\x5d\xa8\x3b" },
  X { k: b"\x08\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x40", u: b"\x3e\x3d\x09\x70\x58\xf0\x66\x98\x4c\x72\x4a\xb4\x61\x30\xeb\x89\xb0\x51\x88\x13\xa0\x69\x8f\x19\x6a\x9c\xe8\xd6\x32\x6c\x94\x66", r: b"\xdc\x9c\x02\xe3\xee\xe9\xcf\x14\x0d\xa1\xe4\x04\xc8\xf5\xc2\x4b\x86\xc0\x6a\x6b\x81\x6c\x90\x44\xef\xa4\xdf\x83\x48\xdc\x76\x77" },
  X { k: b"\xad\x15\xc7\x6c\x2a\x1b\xf3\xaa\x62\x48\x75\xe0\x7d\x88\xb1\xd1\xc4\x66\x31\xe0\xd4\xa6\x6d\xd8\x40\x48\xdd\xe6\xdf\x16\xdb\x86", u: b"\x70\xe0\x69\xfb\x60\xda\x17\xb5\x66\xe3\x5c\xbd\xe2\x0d\x48\x36\xfc\x00\x3e\xbe\x3b\x3a\x31\x54\xc6\xd7\x88\xd9\xfe\xe7\x3b\x0b", r: b"\x9e\x1a\x78\x37\xae\xfb\x3e\x9b\x21\x0b\x30\xaf\xbe\x9f\xca\x40\x79\x54\x81\x30\x35\x6b\x42\xc5\x64\x88\xca\xa4\x64\x86\x2f\x56" },
  X { k: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", u: b"\x9a\xf2\x4c\x18\x73\x04\xaf\x93\xc0\xb8\x13\x76\xf7\xfa\xcd\xd3\x6a\x0b\x4f\x14\x8c\x65\xb7\xea\x98\xdb\x14\xc8\xbe\x40\x60\x64", r: b"\x0c\x2e\x8b\x80\xdc\x35\x12\xd0\x85\xb4\x76\x05\x3b\xb6\xb1\xb1\xd8\x39\x72\x74\xf8\xbb\x35\x69\x18\x10\x7b\x2d\x1a\x27\xee\x40" },
  X { k: b"\x68\x9f\xae\xe7\xd2\x18\x93\xc0\xb2\xe6\xbc\x17\xf5\xce\xf7\xa6\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", u: b"\xa0\xa6\xb8\x89\xd0\xa2\x26\xf9\x79\x0c\x42\x1b\x82\xcb\x9c\x45\xab\xad\xdb\x71\x14\x9a\x87\xa0\x56\x1a\xdf\xc6\xf4\xb0\xb9\x75", r: b"\xf0\x0b\xa0\xd7\x6e\x90\xae\xea\x97\xa9\x59\xd2\xca\xa5\x16\x6d\x87\x73\xc5\x68\xab\x5b\x75\xed\xe4\x6a\x65\x43\x9c\x5e\x1d\x6c" },
  X { k: b"\x63\xf9\x79\x1a\xe2\xda\x22\x3d\x42\x35\xc5\xd6\x16\x29\x2a\x26\x06\x0c\xf5\xde\x3b\xab\x80\xc5\x61\xf7\xfb\x93\xb6\xbb\x99\x6a", u: b"\x4c\x69\x53\x8d\xfb\xa4\xa5\xf9\xd9\x50\x19\x1f\x7e\x3b\xf6\x59\x29\x96\xd5\xef\xe7\xe8\x9b\x87\xc9\xd1\x6f\x0e\xc8\x0b\x02\x6a", r: b"\xdd\x76\x77\x54\xd5\x36\xc2\x8a\xf6\x3b\x83\x6d\xd0\xe9\x6a\x68\x93\xe2\x2b\x85\x0a\xe8\x74\x35\xdc\xb1\x64\xfd\xd6\xdd\x83\x7d" },
  X { k: b"\x8a\xe4\xab\x16\x11\x0b\x8c\xff\xfd\xba\x63\x82\xb6\x12\x2d\xbc\x7b\x34\x8a\x91\xc4\xbc\x52\x53\x78\x3a\x30\x7c\x93\x6f\xf0\x90", u: b"\xa9\xc4\xd5\xd7\xc6\xcf\x92\xc5\x7c\x56\x59\xf9\x50\x43\x71\x67\x6e\x59\x45\xc0\x9d\xd4\x1f\x95\x18\x55\x24\xf2\x7a\x0a\x84\x4d", r: b"\xa3\x01\x5a\x9d\x75\x7e\x5c\x78\x36\xd2\xf8\xbd\xfb\x58\x5d\x4a\xc9\x0a\x4b\x09\xa2\xef\x38\x26\x01\x4c\x7a\x2b\xad\xd1\x9e\x65" },
  X { k: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x7f", u: b"\x02\x8c\xed\x87\x7e\x2a\x70\x3f\x20\xd1\x1a\x38\xe5\x10\x9a\x92\x8c\xec\xe7\x78\x59\xac\x13\x67\x50\x5d\xf7\xbc\x89\x38\xb5\x11", r: b"\x00\xfc\x94\x78\x8c\x45\x09\x24\xbb\x6d\x73\xd5\xa3\xe1\xb5\xc2\x08\x04\x70\xcd\x82\x28\xac\xa4\x98\x14\x89\x42\x38\x89\x1e\x2c" },
  X { k: b"\xc4\xcd\x62\x03\xf2\xfc\x08\x0d\x7e\xa1\x0a\xbe\x5b\xc2\xfd\x6e\x1e\x41\xfc\x81\xe7\x90\xb0\x7d\x0e\xa6\x78\xd2\xb1\xa7\x18\x25", u: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", r: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00" },
  X { k: b"\xa3\xb1\xd2\x20\x45\xcb\x29\xa7\xf8\x57\x0f\xad\x84\xbb\x9f\x95\xf4\x60\x16\xe1\xb3\x4c\x14\x5c\x74\xa5\x9e\xbc\xd9\x01\x0c\x73", u: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", r: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00" },
  X { k: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", u: b"\xec\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f", r: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00" },
  X { k: b"\x08\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x40", u: b"\xed\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f", r: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00" },
  X { k: b"\xad\x15\xc7\x6c\x2a\x1b\xf3\xaa\x62\x48\x75\xe0\x7d\x88\xb1\xd1\xc4\x66\x31\xe0\xd4\xa6\x6d\xd8\x40\x48\xdd\xe6\xdf\x16\xdb\x86", u: b"\xee\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f", r: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00" },
  X { k: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", u: b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f", r: b"\xb3\x2d\x13\x62\xc2\x48\xd6\x2f\xe6\x26\x19\xcf\xf0\x4d\xd4\x3d\xb7\x3f\xfc\x1b\x63\x08\xed\xe3\x0b\x78\xd8\x73\x80\xf1\xe8\x34" },
  X { k: b"\x68\x9f\xae\xe7\xd2\x18\x93\xc0\xb2\xe6\xbc\x17\xf5\xce\xf7\xa6\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", u: b"\x09\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", r: b"\x2f\xe5\x7d\xa3\x47\xcd\x62\x43\x15\x28\xda\xac\x5f\xbb\x29\x07\x30\xff\xf6\x84\xaf\xc4\xcf\xc2\xed\x90\x99\x5f\x58\xcb\x3b\x74" },
  X { k: b"\x63\xf9\x79\x1a\xe2\xda\x22\x3d\x42\x35\xc5\xd6\x16\x29\x2a\x26\x06\x0c\xf5\xde\x3b\xab\x80\xc5\x61\xf7\xfb\x93\xb6\xbb\x99\x6a", u: b"\x02\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", r: b"\x65\x50\xdd\x0c\xdb\x44\x9f\x91\xf0\xac\xd1\xf1\xe6\xdc\x39\x73\xff\x45\xd0\x01\x3e\xf3\x66\x1f\x6f\x36\x9e\x89\x43\xdb\xca\x6d" },
  X { k: b"\x8a\xe4\xab\x16\x11\x0b\x8c\xff\xfd\xba\x63\x82\xb6\x12\x2d\xbc\x7b\x34\x8a\x91\xc4\xbc\x52\x53\x78\x3a\x30\x7c\x93\x6f\xf0\x90", u: b"\x03\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", r: b"\xf1\xb4\x9e\x72\xd7\x48\xf8\xcb\x58\x61\x34\x32\xc6\x0a\x1d\x38\xcd\x7e\x2e\xd3\x1a\xf5\x6f\xcc\xa0\xbf\xdf\x74\x30\x1f\x5e\x6b" },
  X { k: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x7f", u: b"\xe4\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f", r: b"\xad\x9c\xb4\xb6\xf0\xd8\xb6\x81\x1d\xcd\x4c\xda\xd3\xe2\xbb\xbe\xac\xa1\x99\x8b\x8d\x8d\xe1\x47\xba\xb9\x77\x2c\x56\x88\xa7\x12" },
  X { k: b"\xc4\xcd\x62\x03\xf2\xfc\x08\x0d\x7e\xa1\x0a\xbe\x5b\xc2\xfd\x6e\x1e\x41\xfc\x81\xe7\x90\xb0\x7d\x0e\xa6\x78\xd2\xb1\xa7\x18\x25", u: b"\xf6\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f", r: b"\xfe\xf9\xd7\x0f\xd3\x42\x88\x1c\xb0\x30\x85\xb1\xf6\x96\xcb\x61\x7d\x4a\x4c\x87\x9c\x22\x61\x67\x47\x35\x46\x8f\x34\xe1\xbd\x60" },
  X { k: b"\xa3\xb1\xd2\x20\x45\xcb\x29\xa7\xf8\x57\x0f\xad\x84\xbb\x9f\x95\xf4\x60\x16\xe1\xb3\x4c\x14\x5c\x74\xa5\x9e\xbc\xd9\x01\x0c\x73", u: b"\xeb\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f", r: b"\x13\x82\xce\xd5\x0e\x61\x27\x28\xe0\x15\x33\x84\x9e\x40\xd8\x5d\x2e\xaa\x75\xad\x41\x5c\xad\x67\xb6\xe1\x74\x4d\xdd\x9b\x4c\x2b" },
  X { k: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", u: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x40", r: b"\x54\x3c\x21\xa4\x27\x29\xe1\x70\x49\xb8\xd4\x7f\x7b\xe0\x9a\x1c\xc3\x9a\xdf\x12\x0f\x2a\x09\xbb\x8c\xa1\xc5\x4d\x38\x3e\x24\x07" },
  X { k: b"\x08\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x40", u: b"\xda\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f", r: b"\x88\xbd\x95\x19\x81\xcf\x8d\x86\x79\x42\xf0\xc7\xb7\x87\xf3\xda\x75\x0d\xef\xda\x1f\x2d\x53\x4d\x1d\x1d\xde\xd6\x7d\xa6\xe1\x09" },
  X { k: b"\xad\x15\xc7\x6c\x2a\x1b\xf3\xaa\x62\x48\x75\xe0\x7d\x88\xb1\xd1\xc4\x66\x31\xe0\xd4\xa6\x6d\xd8\x40\x48\xdd\xe6\xdf\x16\xdb\x86", u: b"\xe0\xeb\x7a\x7c\x3b\x41\xb8\xae\x16\x56\xe3\xfa\xf1\x9f\xc4\x6a\xda\x09\x8d\xeb\x9c\x32\xb1\xfd\x86\x62\x05\x16\x5f\x49\xb8\x00", r: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00" },
  X { k: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", u: b"\x5f\x9c\x95\xbc\xa3\x50\x8c\x24\xb1\xd0\xb1\x55\x9c\x83\xef\x5b\x04\x44\x5c\xc4\x58\x1c\x8e\x86\xd8\x22\x4e\xdd\xd0\x9f\x11\x57", r: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00" },
  X { k: b"\x68\x9f\xae\xe7\xd2\x18\x93\xc0\xb2\xe6\xbc\x17\xf5\xce\xf7\xa6\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", u: b"\xff\xff\xff\xff\xff\xff\xff\xff\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", r: b"\x26\xf5\x6a\x52\x48\x6a\xe1\x2c\xdc\xaf\xec\x6f\x1c\x64\x95\xb8\x40\xfe\x1b\xed\xff\x50\xbc\x1f\x73\x88\xa7\x1d\x7c\xaf\x38\x7f" },
  X { k: b"\x63\xf9\x79\x1a\xe2\xda\x22\x3d\x42\x35\xc5\xd6\x16\x29\x2a\x26\x06\x0c\xf5\xde\x3b\xab\x80\xc5\x61\xf7\xfb\x93\xb6\xbb\x99\x6a", u: b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", r: b"\xd6\x03\x7a\xaf\x86\x25\xc9\xc9\xa3\x1e\xd3\x5a\xfe\xd7\xca\x71\x7d\x30\x34\x60\xe0\x7b\x0e\x7c\xad\x5f\xa1\xd8\xd9\x1f\x28\x47" },
  X { k: b"\x8a\xe4\xab\x16\x11\x0b\x8c\xff\xfd\xba\x63\x82\xb6\x12\x2d\xbc\x7b\x34\x8a\x91\xc4\xbc\x52\x53\x78\x3a\x30\x7c\x93\x6f\xf0\x90", u: b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x00\x00\x00\x00\x00\x00\x00\x00", r: b"\x68\x40\xb5\xec\xf0\x02\x22\xa8\xb0\xb6\xdd\x0f\xb5\x38\xe9\xbc\x24\xa9\xf7\x59\xe4\x5e\x24\x28\x31\x60\x39\x7c\x34\x9a\x15\x52" },
  X { k: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x7f", u: b"\x00\x00\x00\x00\x00\x00\x00\x00\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f", r: b"\x85\x26\x94\xb1\xbb\xea\x87\xbc\x94\x9b\x8a\x7a\x53\xc1\x7b\x1c\x81\x81\x2f\x2f\x54\xea\x93\x35\x82\x60\xcf\xf8\x24\x74\x97\x1a" },
  X { k: b"\xc4\xcd\x62\x03\xf2\xfc\x08\x0d\x7e\xa1\x0a\xbe\x5b\xc2\xfd\x6e\x1e\x41\xfc\x81\xe7\x90\xb0\x7d\x0e\xa6\x78\xd2\xb1\xa7\x18\x25", u: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xff\xff\xff\xff\xff\xff\xff\x7f", r: b"\xaf\xa1\x64\xa9\x8f\x05\x44\xdb\x65\x60\xce\x53\x0d\xf7\x6d\x49\x80\xdd\xa2\xab\xd8\x52\x74\xa3\x06\x5b\x05\xba\x48\xf9\xc1\x6d" },
  X { k: b"\xa3\xb1\xd2\x20\x45\xcb\x29\xa7\xf8\x57\x0f\xad\x84\xbb\x9f\x95\xf4\x60\x16\xe1\xb3\x4c\x14\x5c\x74\xa5\x9e\xbc\xd9\x01\x0c\x73", u: b"\x3d\xd3\x92\xcc\x02\xd0\xb2\x40\xdf\x95\x6e\x53\x06\x31\x83\x32\xac\xfb\x90\x3d\xb2\xfa\x70\x31\x6a\x05\x93\xd2\x17\xd9\x46\x78", r: b"\x9d\x0c\x6b\x71\xe6\x32\x83\xed\x6e\x23\xda\x12\x2f\xcc\x53\xf1\xfc\xe0\x56\x48\x01\xa7\xdf\x95\x4e\xb6\xf2\xeb\x65\xfb\x55\x42" },
  X { k: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", u: b"\x1c\xbd\x74\x1d\xbc\xcf\xd5\x4a\x23\xa7\xea\x79\xe8\xa8\xfa\xf3\x5d\x30\xd2\x8e\xee\x3f\xec\xff\xe3\x52\x80\x9c\x46\x93\x70\x1e", r: b"\x4c\xf0\xe7\xa5\xf0\xd0\x8e\x4e\xf7\x2f\x1d\x92\x7a\x6a\xe4\x29\x9e\xaf\xcd\x44\x5e\x57\xf9\x3e\xf3\x3e\x39\xc7\x87\x23\x45\x5b" },
  X { k: b"\x08\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x40", u: b"\x30\x9e\x3d\x25\x90\xdc\x4e\x8e\x02\x51\x72\xa1\xa9\x32\x3f\xa9\x32\x9e\x28\x80\x16\x00\x9f\x00\x8d\xec\xe2\xd9\xdd\x16\xd5\x23", r: b"\x04\x99\xd8\x39\x76\x27\x87\x81\xd3\x79\xf4\x3a\x5e\x73\x80\x77\x2b\x90\xe7\x87\x20\x1a\xe7\xd8\x8b\xc0\x36\xba\xe8\x10\x4b\x21" },
  X { k: b"\xad\x15\xc7\x6c\x2a\x1b\xf3\xaa\x62\x48\x75\xe0\x7d\x88\xb1\xd1\xc4\x66\x31\xe0\xd4\xa6\x6d\xd8\x40\x48\xdd\xe6\xdf\x16\xdb\x86", u: b"\xe2\x06\x42\x07\x91\x6e\xde\xd5\x4f\x7b\x09\xf5\x0e\x3a\x45\x7f\x1c\xbf\x34\x2c\xe9\x40\xdd\xca\xfb\x0c\x38\xd0\x9a\x3f\x7a\x18", r: b"\xa5\x7d\x40\xda\xa4\x3b\xc2\xff\xf5\xb8\x23\x77\xfc\x7f\x62\x3d\x9e\x96\x00\x66\x60\x1d\xee\x96\xae\x23\x0f\x22\xed\xb7\x97\x28" },
];
pub static X25519_BASE: &[X] = &[
  X { k: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", u: b"\x09\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", r: b"\x2f\xe5\x7d\xa3\x47\xcd\x62\x43\x15\x28\xda\xac\x5f\xbb\x29\x07\x30\xff\xf6\x84\xaf\xc4\xcf\xc2\xed\x90\x99\x5f\x58\xcb\x3b\x74" },
  X { k: b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff", u: b"\x09\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", r: b"\x84\x7c\x0d\x2c\x37\x52\x34\xf3\x65\xe6\x60\x95\x51\x87\xa3\x73\x5a\x0f\x76\x13\xd1\x60\x9d\x3a\x6a\x4d\x8c\x53\xae\xaa\x5a\x22" },
  X { k: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", u: b"\x09\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", r: b"\x2f\xe5\x7d\xa3\x47\xcd\x62\x43\x15\x28\xda\xac\x5f\xbb\x29\x07\x30\xff\xf6\x84\xaf\xc4\xcf\xc2\xed\x90\x99\x5f\x58\xcb\x3b\x74" },
  X { k: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", u: b"\x09\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", r: b"\x2f\xe5\x7d\xa3\x47\xcd\x62\x43\x15\x28\xda\xac\x5f\xbb\x29\x07\x30\xff\xf6\x84\xaf\xc4\xcf\xc2\xed\x90\x99\x5f\x58\xcb\x3b\x74" },
  X { k: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x7f", u: b"\x09\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", r: b"\xad\xea\xff\xf5\xd8\x78\x56\x59\x33\x15\xc0\x48\x41\x78\xe8\xd1\xc4\x77\x7a\x2a\xb1\x6e\xa1\x71\x7a\x7e\x2f\x20\x99\x2e\x9b\x2c" },
  X { k: b"\x08\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", u: b"\x09\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", r: b"\x42\x2c\x8e\x7a\x62\x27\xd7\xbc\xa1\x35\x0b\x3e\x2b\xb7\x27\x9f\x78\x97\xb8\x7b\xb6\x85\x4b\x78\x3c\x60\xe8\x03\x11\xae\x30\x79" },
  X { k: b"\xed\xd3\xf5\x5c\x1a\x63\x12\x58\xd6\x9c\xf7\xa2\xde\xf9\xde\x14\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x10", u: b"\x09\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", r: b"\xc3\xa6\x30\x19\x84\x63\x72\x0e\x1c\xdf\x77\x26\xf3\x7a\xe7\x9f\xbf\x1b\x5c\xf3\x11\x12\x16\xc9\x4d\xfb\x0e\x51\xe0\x49\xd0\x71" },
  X { k: b"\x68\x9f\xae\xe7\xd2\x18\x93\xc0\xb2\xe6\xbc\x17\xf5\xce\xf7\xa6\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", u: b"\x09\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", r: b"\x2f\xe5\x7d\xa3\x47\xcd\x62\x43\x15\x28\xda\xac\x5f\xbb\x29\x07\x30\xff\xf6\x84\xaf\xc4\xcf\xc2\xed\x90\x99\x5f\x58\xcb\x3b\x74" },
  X { k: b"\xec\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f", u: b"\x09\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", r: b"\x21\xf6\x48\x7d\x01\x15\x2d\x72\x5c\xc6\x43\xf9\xf5\x9e\x79\xd2\xfd\xa0\x22\xad\xd8\xfc\x66\x1e\xb7\x9d\xbf\x90\x30\x0a\xed\x38" },
  X { k: b"\x08\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x40", u: b"\x09\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", r: b"\x42\x2c\x8e\x7a\x62\x27\xd7\xbc\xa1\x35\x0b\x3e\x2b\xb7\x27\x9f\x78\x97\xb8\x7b\xb6\x85\x4b\x78\x3c\x60\xe8\x03\x11\xae\x30\x79" },
  X { k: b"\x55\x55\x55\x55\x55\x55\x55\x55\x55\x55\x55\x55\x55\x55\x55\x55\x55\x55\x55\x55\x55\x55\x55\x55\x55\x55\x55\x55\x55\x55\x55\x55", u: b"\x09\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", r: b"\x38\xab\x66\x4b\xd8\x6f\x77\xd7\xe6\x6b\xdd\x9a\xe0\x79\x29\x13\xa9\x4f\xd8\xb3\x3a\x12\x60\x02\x7e\x4b\x46\xc1\xf4\x88\x4c\x67" },
  X { k: b"\xaa\xaa\xaa\xaa\xaa\xaa\xaa\xaa\xaa\xaa\xaa\xaa\xaa\xaa\xaa\xaa\xaa\xaa\xaa\xaa\xaa\xaa\xaa\xaa\xaa\xaa\xaa\xaa\xaa\xaa\xaa\xaa", u: b"\x09\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", r: b"\x14\xca\x9e\x4d\x38\x7b\xcc\xf3\x57\x46\xe0\x40\x7d\xaa\xac\xc6\xb2\x8a\x4f\x84\x45\xef\x5a\x51\x58\x89\x4d\xb9\x83\xe2\x40\x70" },
  X { k: b"\xc4\xcd\x62\x03\xf2\xfc\x08\x0d\x7e\xa1\x0a\xbe\x5b\xc2\xfd\x6e\x1e\x41\xfc\x81\xe7\x90\xb0\x7d\x0e\xa6\x78\xd2\xb1\xa7\x18\x25", u: b"\x09\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", r: b"\xfe\xf9\xd7\x0f\xd3\x42\x88\x1c\xb0\x30\x85\xb1\xf6\x96\xcb\x61\x7d\x4a\x4c\x87\x9c\x22\x61\x67\x47\x35\x46\x8f\x34\xe1\xbd\x60" },
  X { k: b"\x4c\x87\x17\x04\xd7\x7c\xea\x5a\xec\xd0\xc0\x6a\x93\x00\x0f\xcb\x7b\x25\xc2\xd4\xc1\xe7\x06\xb3\x02\x3d\x16\xaa\xec\x77\x1d\xdd", u: b"\x09\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", r: b"\xef\x90\x7a\xae\xfb\xd1\x61\xc4\x68\x6c\xf7\x78\xf6\x71\x36\x6b\xee\x15\x65\x79\x88\xbc\x64\xbf\x96\x58\x08\x2e\x10\x65\xff\x78" },
  X { k: b"\x63\xf9\x79\x1a\xe2\xda\x22\x3d\x42\x35\xc5\xd6\x16\x29\x2a\x26\x06\x0c\xf5\xde\x3b\xab\x80\xc5\x61\xf7\xfb\x93\xb6\xbb\x99\x6a", u: b"\x09\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", r: b"\x32\x7b\xdd\x33\x2b\xc6\x10\xa3\x7c\xfa\xcd\xa8\x25\x48\x35\xed\x39\x37\xaa\xef\xa0\x0c\x08\xb1\x99\x7e\x0e\xad\xb0\x25\x1c\x08" },
  X { k: b"\x7d\x81\x44\x99\xd6\xe2\x1a\x78\x9f\x6a\x4b\x8a\x46\x49\x74\xdf\x30\x04\x97\x7c\x12\x09\x04\xbc\x24\x02\x17\xa8\xe0\x1b\x82\x34", u: b"\x09\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", r: b"\xc7\xcf\x63\x0a\x63\x02\x81\x5f\xed\x4e\x11\xfa\x14\xc7\x32\x4d\x6a\x39\x0e\xb7\x68\x6f\xde\x76\x34\x07\x0d\x7d\xbe\x47\xcd\x7f" },
  X { k: b"\xad\x15\xc7\x6c\x2a\x1b\xf3\xaa\x62\x48\x75\xe0\x7d\x88\xb1\xd1\xc4\x66\x31\xe0\xd4\xa6\x6d\xd8\x40\x48\xdd\xe6\xdf\x16\xdb\x86", u: b"\x09\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", r: b"\x65\x5b\x12\xd0\x79\xf0\xcc\xd9\xcb\x69\xfe\x04\xd4\x22\xf6\x15\x05\xd5\x4b\xfe\x7a\x92\x77\x56\xd5\x47\xd1\x0c\x34\xed\x39\x13" },
  X { k: b"\x52\x50\xe9\x31\xc6\x47\xf8\x5e\xc1\xb9\xff\xae\x7a\xfc\xbf\xc4\xc7\xa7\x86\x64\x81\x88\x66\xf8\xde\x41\x60\xf8\xbf\xe0\x8f\xd7", u: b"\x09\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", r: b"\x42\xb4\x0d\x8d\x31\xe2\x4a\x39\x44\xd2\x79\x07\xfb\xdd\x2a\xe8\x38\x17\x6d\x7d\x7d\x3b\xbc\xbe\x2f\xe0\xb1\x94\xd1\xa9\x6b\x1a" },
  X { k: b"\xb4\xa8\x4f\xec\x14\x46\xac\x1a\x25\x23\x5c\xed\xc8\xb2\x0c\x36\xe9\xd3\x96\x9f\x8f\x9a\xad\x94\x0e\x87\x05\xdb\xb8\xf6\x96\x1e", u: b"\x09\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", r: b"\xe6\xbd\x65\xb1\x03\x09\x0a\x75\x85\x43\x03\xd8\x11\x1f\x52\x08\x1f\x5e\x62\x51\x36\xbc\x35\x04\xe7\xd2\xb9\x0a\x01\x46\x83\x64" },
  X { k: b"\xa3\xb1\xd2\x20\x45\xcb\x29\xa7\xf8\x57\x0f\xad\x84\xbb\x9f\x95\xf4\x60\x16\xe1\xb3\x4c\x14\x5c\x74\xa5\x9e\xbc\xd9\x01\x0c\x73", u: b"\x09\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", r: b"\xc8\x3f\xe8\x1f\x59\xb9\x3b\x77\x29\x74\x08\x0a\x4f\xc5\x8a\x57\xa8\x08\x7c\xf4\xb4\x60\xf6\x6f\x41\x0c\xfd\xec\x03\xe0\x13\x77" },
  X { k: b"\xbf\xd7\x26\x7e\x67\xc9\xfb\x88\xd9\xd1\x13\x6e\x01\x1c\x08\x60\xc7\x20\x09\xeb\xc8\xa3\xce\x42\xd1\x99\xef\x41\xa2\xe8\xd3\x2c", u: b"\x09\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", r: b"\xff\x7e\x0f\xb3\x18\x0f\x8e\xb7\x79\xfc\x38\xfc\x66\x2d\x0b\x88\x82\x64\x86\x1e\x1d\x6e\x2f\x2f\x6e\xef\xa6\x74\x28\xc5\xff\x5a" },
  X { k: b"\x8a\xe4\xab\x16\x11\x0b\x8c\xff\xfd\xba\x63\x82\xb6\x12\x2d\xbc\x7b\x34\x8a\x91\xc4\xbc\x52\x53\x78\x3a\x30\x7c\x93\x6f\xf0\x90", u: b"\x09\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", r: b"\x79\x18\xe8\xe0\x25\xbf\xa7\xf5\xfc\x59\x93\x1c\x12\x08\xe9\xf7\x53\x1f\x5c\x98\xaf\x49\xdb\xfc\xaa\x32\x23\x71\xf4\x70\xb2\x63" },
  X { k: b"\x62\xbc\xa8\xdf\x8e\xc8\x32\x66\xb2\x18\x36\xc9\x9d\xa7\xfe\xa5\x4e\xa4\xab\x54\x56\xf7\xa4\x6d\x30\x80\x80\x5a\xc8\xa4\x36\x41", u: b"\x09\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", r: b"\x12\x7c\x77\x51\x07\x0c\x1b\x9e\xb9\x73\x0b\xf9\xff\xf3\x2e\x39\x98\x07\xd1\xbe\x4e\xe4\x7b\xea\x37\x71\x3f\xa4\x5c\x5f\x69\x59" },
  X { k: b"\x5a\xcb\x39\xf0\x28\x58\xab\x25\xd4\x43\x86\xf4\x72\x4a\x4d\x7e\x3d\xb2\xf1\x18\x7a\x96\xae\x11\x47\x4a\x2c\xf7\x02\xe8\x4b\x95", u: b"\x09\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", r: b"\xda\x88\x8c\x27\x04\x81\x6a\xec\xab\x11\xec\x3d\xba\x84\x59\x5d\x49\x9f\xc3\xd9\xa7\xbd\xc4\x8e\x21\xee\xc5\x49\xd3\x2c\xe8\x5a" },
];
pub struct Ed { pub seed: &'static [u8; 32], pub pk: &'static [u8; 32], pub msg: &'static [u8], pub sig: &'static [u8; 64] }
pub static ED_SIGN: &[Ed] = &[
  Ed { seed: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", pk: b"\x3b\x6a\x27\xbc\xce\xb6\xa4\x2d\x62\xa3\xa8\xd0\x2a\x6f\x0d\x73\x65\x32\x15\x77\x1d\xe2\x43\xa6\x3a\xc0\x48\xa1\x8b\x59\xda\x29", msg: b"", sig: b"\x8f\x89\x5b\x3c\xaf\xe2\xc9\x50\x60\x39\xd0\xe2\xa6\x63\x82\x56\x80\x04\x67\x4f\xe8\xd2\x37\x78\x50\x92\xe4\x0d\x6a\xaf\x48\x3e\x4f\xc6\x01\x68\x70\x5f\x31\xf1\x01\x59\x61\x38\xce\x21\xaa\x35\x7c\x0d\x32\xa0\x64\xf4\x23\xdc\x3e\xe4\xaa\x3a\xbf\x53\xf8\x03" },
  Ed { seed: b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff", pk: b"\x76\xa1\x59\x20\x44\xa6\xe4\xf5\x11\x26\x5b\xca\x73\xa6\x04\xd9\x0b\x05\x29\xd1\xdf\x60\x2b\xe3\x0a\x19\xa9\x25\x76\x60\xd1\xf5", msg: b"\x01", sig: b"\x78\xd6\x6f\xef\x05\x79\x8e\x13\xad\xfa\xa5\x9a\x4b\xec\xa1\xde\x21\x26\x56\x46\x05\x06\xc5\xe1\xe8\xca\x1f\x79\x8a\x65\x6d\x3c\xe9\xf8\x12\x1c\xd4\x4b\xbd\xa4\x59\xb4\xd6\xeb\xf6\xda\x44\xd2\x25\xcd\xd7\x5f\x31\xef\x49\xd3\x0d\x18\x38\xb8\xd7\x97\x86\x02" },
  Ed { seed: b"\xe8\x24\x2a\x0c\x7e\x93\x4b\x57\x5b\xf2\x17\xe1\xe8\xa9\x41\xc5\xca\x23\x2c\x54\x6d\xb2\x06\x79\x96\x19\x82\xa2\x6e\x3b\x33\xb8", pk: b"\xf9\x6e\x5d\xae\x85\x21\xdd\xdb\x3f\x6e\x95\xc4\x60\x8c\xe2\x0b\xdf\xac\x73\xbb\x3e\xbc\x5c\x45\xd4\x5b\x7b\x0e\xd9\x3f\x32\x6b", msg: b"\x02\x09", sig: b"\xa6\xc6\xa0\x46\x99\x27\xc0\x7d\x94\x42\x90\x70\x0f\x55\xe8\x7d\xb4\xee\x07\xe1\xac\x2c\x53\x04\x5d\xae\x9a\xf1\x92\xcd\xfb\x2c\xa9\xda\xc2\x11\x9a\xc6\x91\x62\xaf\xa4\xa7\x64\xd0\xcc\x1f\x48\xd8\xfc\x44\x11\x9a\x42\x3d\x32\x9e\x92\xdb\x4c\x7f\xfe\x6f\x00" },
  Ed { seed: b"\xa3\x96\x09\xf0\xee\xee\x7b\x1b\x9c\xff\x6c\xe8\x05\x17\x07\x0e\xb9\x5b\x7c\x77\x47\x67\x89\x13\xde\x31\x82\x5c\x84\x3b\x95\xe1", pk: b"\x81\x1f\x94\x0a\xd7\x0e\xeb\xe0\x38\x81\x3f\xda\x13\x1b\x7a\x42\x16\x1c\x50\x70\xc4\xd0\xb5\xbe\x8f\xa1\x70\xdc\xb7\x7e\x8a\x5f", msg: b"\x03\x0a\x11\x18\x1f\x26\x2d\x34\x3b\x42\x49\x50\x57\x5e\x65\x6c\x73\x7a\x81\x88", sig: b"\xed\xf0\x0b\xaf\x2e\x56\xb7\x2e\x31\xaf\x69\x43\xf2\x3c\x2c\x6f\xd5\x8b\x21\x01\x88\x17\x2b\xb8\x4c\x75\xc1\x97\x5b\xfc\xca\x55\x18\x0a\x76\x71\x7f\x95\x36\xc7\x1e\x34\x1d\x0e\x7b\xdb\xf6\xfd\xbf\xd1\x41\x98\x32\xc9\x12\x10\x6d\x7c\x4c\x78\x9d\x6e\xc9\x01" },
  Ed { seed: b"\xdf\xb3\x08\xa9\xa9\xcb\x93\xf3\xb7\xb8\x2a\x2d\xd4\x8f\xcb\x36\x47\x59\xf2\x4d\x0d\xbd\x8b\x89\x16\x85\x30\x5d\xa3\x73\xb4\xa8", pk: b"\xb8\x8f\x14\xfd\x0a\xc1\x7b\x84\x3b\x9b\x5b\xc5\x39\xc5\x06\xc0\xea\xfd\xcc\xe9\x4e\x37\xfd\x4f\xae\xc4\x3c\x2c\xc4\x48\xd8\x95", msg: b"\x04\x0b\x12\x19\x20\x27\x2e\x35\x3c\x43\x4a\x51\x58\x5f\x66\x6d\x74\x7b\x82\x89\x90\x97\x9e\xa5\xac\xb3\xba\xc1\xc8\xcf\xd6", sig: b"\x07\x37\x90\x36\xa9\xf6\xd6\x83\x61\x48\xcf\x97\xe5\x8b\xff\x5c\x7b\xbe\xd2\x08\xaf\x41\x09\xab\x8c\x2a\xf0\xfc\xd2\x48\xf4\xec\xe4\xca\xab\x4a\x61\x93\x43\x03\xb5\xe9\xcf\x3d\x4f\xb4\x2a\x25\x1f\xa3\x9a\x3d\x15\x63\x56\xc9\x00\xb1\x66\x76\x8e\xf1\xdf\x01" },
  Ed { seed: b"\x7a\xf1\x3e\x1d\x8b\x7a\x72\xbb\x62\xb9\x69\x97\x76\x18\x5e\x2b\x1f\xa3\x7f\x3b\x48\xce\xca\x81\xf4\x50\xbe\x43\x54\xf0\x7a\x5d", pk: b"\x7c\x6d\x3e\xb6\xad\x1b\x12\x78\x78\xd8\x0a\xc1\x06\x81\xb7\x60\xa9\x1c\xe6\x75\xdd\x83\xc2\x0e\x93\x6d\xd9\x03\x5c\x47\x08\x81", msg: b"\x05\x0c\x13\x1a\x21\x28\x2f\x36\x3d\x44\x4b\x52\x59\x60\x67\x6e\x75\x7c\x83\x8a\x91\x98\x9f\xa6\xad\xb4\xbb\xc2\xc9\xd0\xd7\xde", sig: b"\x82\x33\xcb\x24\xe3\xfc\x96\xf9\x4e\xe5\x9e\x9b\x62\x89\x08\x39\x96\x0f\xe4\xa4\x7e\x9a\xf7\x8e\xea\x11\x7b\x13\x43\x3c\x2d\x3b\xe7\x17\xa9\x51\x23\xd8\x8c\x80\x0a\x2d\x14\x20\xda\x9e\xee\xe1\x29\x6c\xa1\x85\xbb\x74\xa1\x79\xac\x28\x39\x9e\x38\x9e\xbb\x0f" },
  Ed { seed: b"\xbd\x50\x3a\xe7\xcc\x07\x0b\x06\xf7\xf4\x8e\x3f\xc6\xf7\x99\xd3\xd9\x06\x6c\xdc\x17\xf2\x34\xba\xbe\xac\xfb\x6d\x3a\x9a\x7c\xb7", pk: b"\x78\xdc\xa8\xa0\xe1\xcf\x8b\x03\x93\xab\xe5\x67\x18\x22\xa3\x0a\x9f\x0e\x88\xf9\x5b\x0c\x93\x4d\xe4\x24\x04\x18\x47\xac\xb0\x33", msg: b"\x06\x0d\x14\x1b\x22\x29\x30\x37\x3e\x45\x4c\x53\x5a\x61\x68\x6f\x76\x7d\x84\x8b\x92\x99\xa0\xa7\xae\xb5\xbc\xc3\xca\xd1\xd8\xdf\xe6", sig: b"\x2b\xe1\xdc\x84\x4f\xf6\xe4\xd8\xeb\x54\xf2\xac\x1f\x5d\xc1\xd9\x2d\x1e\xf4\x7b\xc0\xdd\x0e\x82\x68\x34\x1c\x59\xe4\x9b\x2f\x2f\x27\xdd\xb9\x2f\x5a\x56\x24\x06\xfc\x5e\x82\x8a\x8b\x2a\x6b\xf9\x76\x28\xf4\x32\x4f\x0e\x7f\xe7\x58\x46\xc8\xcf\xe2\xa8\x95\x07" },
  Ed { seed: b"\xc7\x3f\x4e\x54\x3c\xec\xc3\xfd\x1d\xa5\x55\x7d\x98\x93\x7f\x2e\xf2\x66\x7b\xf2\x68\x26\x2f\x07\xd0\x09\x0c\x2b\x04\xf9\x5d\xf6", pk: b"\x7c\x11\xb5\x31\xe5\xab\xc2\x07\x71\x95\x38\x64\x5d\x3b\x9b\x6f\x4a\x50\xc0\x7d\x0c\xa1\xba\x6b\x13\x94\xd2\xe5\xa8\x30\x3a\x64", msg: b"\x07\x0e\x15\x1c\x23\x2a\x31\x38\x3f\x46\x4d\x54\x5b\x62\x69\x70\x77\x7e\x85\x8c\x93\x9a\xa1\xa8\xaf\xb6\xbd\xc4\xcb\xd2\xd9\xe0\xe7\xee\xf5\xfc\x03\x0a\x11\x18\x1f\x26\x2d\x34\x3b\x42\x49", sig: b"\x15\xb2\x91\x22\x02\x3b\xdf\xac\x02\xed\x35\x81\xf3\x89\xcb\x22\x7b\xf9\x2c\x74\x49\xaf\x63\x69\xe6\x7f\xe2\x09\x0c\x93\x80\x01\x1f\x49\x53\x0a\xa8\x71\x5f\xa0\x44\xe5\xfa\x12\x24\x62\x50\x8a\x9f\xf7\x35\x2a\x51\x14\x46\x0c\xf3\xa2\x46\x56\x14\xbc\x5c\x09" },
  Ed { seed: b"\xce\x7d\x41\x8f\x77\x82\x17\xd4\x47\x6c\xf0\xe7\xdc\x8b\x18\x9c\xf4\xe7\x77\x09\x22\xec\x5e\x76\xf6\xdf\x2e\x1a\xc3\x29\xef\x8f", pk: b"\x18\xbd\x0f\xc1\x7c\xe7\x70\x9f\x2a\x67\x75\xc6\x62\x2e\x3a\xce\x7a\xe9\xbe\x45\x29\x87\x76\xfc\x40\x72\x87\xb2\x27\xdc\x02\xd9", msg: b"\x08\x0f\x16\x1d\x24\x2b\x32\x39\x40\x47\x4e\x55\x5c\x63\x6a\x71\x78\x7f\x86\x8d\x94\x9b\xa2\xa9\xb0\xb7\xbe\xc5\xcc\xd3\xda\xe1\xe8\xef\xf6\xfd\x04\x0b\x12\x19\x20\x27\x2e\x35\x3c\x43\x4a\x51", sig: b"\x5b\x8f\xa0\xb7\xdf\xa9\x71\x3c\x33\xc2\x37\x24\x83\xd0\x02\xf6\x5e\xf5\xde\xa9\x39\x19\xf2\x37\x12\x83\x3d\x5f\xf7\x88\xc8\x47\x30\x61\x92\xe9\x1e\xf7\xd9\x33\xb4\xf2\x6c\x2f\x3b\xa0\x75\x08\xe6\x54\x78\x99\x86\x9b\x62\xe5\x87\xf8\x33\xee\xeb\xee\x1e\x08" },
  Ed { seed: b"\xea\x44\xc1\x4b\xec\xec\x1d\xf8\xb1\x5e\xf6\xd6\x85\x41\x03\x28\x4a\x44\x71\x39\x69\x40\xb9\x57\x2c\xa6\x01\x8e\xa8\xe6\xfc\xc0", pk: b"\x71\x5a\x3e\xa6\xde\x58\xe1\x64\x60\x04\x1c\x16\xf6\x43\x33\xfb\xc4\x14\x81\x48\xf2\xe7\xdd\xfe\xaa\x30\x91\xbf\xae\xc6\x09\x29", msg: b"\x09\x10\x17\x1e\x25\x2c\x33\x3a\x41\x48\x4f\x56\x5d\x64\x6b\x72\x79\x80\x87\x8e\x95\x9c\xa3\xaa\xb1\xb8\xbf\xc6\xcd\xd4\xdb\xe2\xe9\xf0\xf7\xfe\x05\x0c\x13\x1a\x21\x28\x2f\x36\x3d\x44\x4b\x52\x59\x60\x67\x6e\x75\x7c\x83\x8a\x91\x98\x9f\xa6\xad\xb4\xbb", sig: b"\x09\x7b\x11\xeb\x91\x52\x33\xa0\x9d\xe2\x4c\x00\xa2\x32\x02\x97\xae\xc9\xf5\x5a\xdf\xf4\xd5\xd7\xde\x20\x66\xac\xc1\x46\xc2\xfb\x2c\x2a\xb2\x86\xa4\xdb\x3b\x4c\x13\x9a\x18\x8a\xfb\x6d\x90\x8e\x6d\x75\x54\x3e\x96\xac\x3e\x8b\x35\x30\x3e\x05\x53\x83\xdd\x03" },
  Ed { seed: b"\x7b\xdb\xae\x2f\xb5\xce\xab\x08\xcb\xb4\x07\xca\xb4\xb4\x6f\xa4\x62\x36\xcd\x65\x21\x1f\xeb\x4f\xcf\x1b\xd5\x56\xeb\x4f\x37\xa2", pk: b"\xba\x74\xc7\xa8\xf8\x1e\xa9\x7c\xb8\xfa\x6f\x9d\x33\x5f\x09\x19\x60\x2d\xd7\x62\xe7\xff\x20\xd2\xc6\xe1\xd6\xa9\x3e\x88\x53\xd1", msg: b"\x0a\x11\x18\x1f\x26\x2d\x34\x3b\x42\x49\x50\x57\x5e\x65\x6c\x73\x7a\x81\x88\x8f\x96\x9d\xa4\xab\xb2\xb9\xc0\xc7\xce\xd5\xdc\xe3\xea\xf1\xf8\xff\x06\x0d\x14\x1b\x22\x29\x30\x37\x3e\x45\x4c\x53\x5a\x61\x68\x6f\x76\x7d\x84\x8b\x92\x99\xa0\xa7\xae\xb5\xbc\xc3", sig: b"\x26\x7f\x19\x9c\x66\xb1\xed\xd2\xda\xc2\x72\x8a\x66\x90\x01\x95\x7a\x52\xf2\xf0\xad\xe3\xcc\x56\xe8\x83\x62\x07\xc4\x36\x84\x34\x00\xe1\xcf\x8a\xb7\x63\x5d\xf7\xa2\x55\x24\x30\x18\x87\xb1\x2b\x40\x0c\x12\x9c\xdb\x9d\x9b\x45\xdb\x33\x33\xfb\x9c\x87\xf0\x04" },
  Ed { seed: b"\x97\x77\xe7\x3f\x8b\x45\xae\x64\x1a\x20\xaa\xc6\x06\x1d\x83\x95\x07\x23\x4e\x6b\x1c\x73\x46\x9f\x21\x3d\xae\xd3\x86\x26\xc6\x7e", pk: b"\x3d\x62\xc9\x3b\x2b\x26\xbc\x7d\xe3\x2a\x83\xce\x8a\xa1\x38\x8d\x1f\xbf\xc4\x9d\x77\x23\x53\x36\x62\x4c\x0f\xa2\xa8\x86\x5b\x59", msg: b"\x0b\x12\x19\x20\x27\x2e\x35\x3c\x43\x4a\x51\x58\x5f\x66\x6d\x74\x7b\x82\x89\x90\x97\x9e\xa5\xac\xb3\xba\xc1\xc8\xcf\xd6\xdd\xe4\xeb\xf2\xf9\x00\x07\x0e\x15\x1c\x23\x2a\x31\x38\x3f\x46\x4d\x54\x5b\x62\x69\x70\x77\x7e\x85\x8c\x93\x9a\xa1\xa8\xaf\xb6\xbd\xc4\xcb", sig: b"\x4e\xc0\x44\x19\xf9\x10\xb3\x8f\xdf\x19\xe4\x33\x69\x2d\xbf\x20\x65\x2d\xdb\x1a\x08\x1a\xd6\xd0\xf0\x0b\x8d\x72\x64\x8a\x7c\xb9\x7d\xad\xd5\xee\x00\xcc\x0b\x26\x98\x8f\x9c\xd9\xe7\x14\x96\xcf\xa2\xc2\xbd\x88\x5b\x61\x9c\x37\x52\x85\x23\x2c\x7a\xb9\x10\x0f" },
  Ed { seed: b"\xcf\x16\xb5\x56\x9a\xbb\x85\x39\xc5\xb6\x6e\x66\x61\xb5\x65\xfa\x06\x33\x35\x09\x9f\x34\x64\xe6\x6d\x1c\x18\x8c\x27\x86\xdf\x96", pk: b"\x2c\xf1\x2d\x03\x68\xb2\x72\x98\x51\x81\x9f\xa0\x07\xc0\x77\x82\xbe\x4b\x22\x7f\x6c\xc3\x70\xfe\x3b\xdd\xb9\xba\xf7\x94\x27\x4d", msg: b"\x0c\x13\x1a\x21\x28\x2f\x36\x3d\x44\x4b\x52\x59\x60\x67\x6e\x75\x7c\x83\x8a\x91\x98\x9f\xa6\xad\xb4\xbb\xc2\xc9\xd0\xd7\xde\xe5\xec\xf3\xfa\x01\x08\x0f\x16\x1d\x24\x2b\x32\x39\x40\x47\x4e\x55\x5c\x63\x6a\x71\x78\x7f\x86\x8d\x94\x9b\xa2\xa9\xb0\xb7\xbe\xc5\xcc\xd3\xda\xe1\xe8\xef\xf6\xfd\x04\x0b\x12\x19\x20\x27\x2e", sig: b"\x01\xe4\x10\x17\x5a\xe7\xc4\x69\xb8\x0a\x26\x92\x3f\x83\xf2\x1d\xb5\x19\x7c\xe2\x7c\xc3\x13\x25\x6c\x99\x30\xc4\xb2\xb3\x7e\x08\x92\xf2\xb3\x51\x01\x87\x73\x13\xc5\xb7\xf0\x52\x26\x58\x3e\x8b\x3a\xe8\x82\xb6\xf7\xfb\xa4\x98\x4c\xf3\xcd\x5c\x40\x81\xbb\x0a" },
  Ed { seed: b"\xcc\xef\x5b\x9a\xea\x81\x92\x84\xbf\xfa\x27\x2a\xf4\x4d\x73\xb2\x23\xe5\x11\x88\x10\x12\x00\x6a\xc6\xcd\xcb\xec\x44\x64\x4b\x25", pk: b"\x48\x90\xdd\xac\x7e\x8d\xc0\x0d\xcb\x43\xeb\xa1\x9d\x5d\x61\x3c\xd6\x50\xf8\x68\xe5\xd3\xdf\x50\x08\xf5\x1b\x98\x5b\x3f\x18\x55", msg: b"\x0d\x14\x1b\x22\x29\x30\x37\x3e\x45\x4c\x53\x5a\x61\x68\x6f\x76\x7d\x84\x8b\x92\x99\xa0\xa7\xae\xb5\xbc\xc3\xca\xd1\xd8\xdf\xe6\xed\xf4\xfb\x02\x09\x10\x17\x1e\x25\x2c\x33\x3a\x41\x48\x4f\x56\x5d\x64\x6b\x72\x79\x80\x87\x8e\x95\x9c\xa3\xaa\xb1\xb8\xbf\xc6\xcd\xd4\xdb\xe2\xe9\xf0\xf7\xfe\x05\x0c\x13\x1a\x21\x28\x2f\x36", sig: b"\x92\xb7\x99\xa8\xd5\x91\x72\x9c\x7f\xc4\x5b\xf8\xe3\x5d\x09\x77\xee\x9d\x70\xe6\xc5\x88\x32\x8f\x45\x5c\xbd\x5a\x1c\x10\xc0\xb9\xf8\xd4\xdb\x32\x1d\xf8\x4d\x1d\x8b\x4f\x39\x31\x3a\x98\xbd\x15\x72\x0d\xe5\x30\x48\x7d\xee\x35\xaf\xfe\x7c\x3a\x86\x36\xd3\x08" },
  Ed { seed: b"\xe9\x86\x3b\xbc\xe6\x74\xd2\x04\x68\xda\x74\x68\x67\x41\x5c\xdb\xb4\xe2\xad\x0a\xfe\xd5\x1e\x3b\x4f\x0e\x87\x9e\xca\x18\xfe\x4d", pk: b"\xbe\x17\x97\xda\xc1\x2e\x37\x2a\x46\xeb\xdf\x11\x69\x31\xa7\x9c\xf2\xae\x32\x60\x56\x21\x79\x7a\xaf\xf1\xa3\x4d\xfe\x50\xea\x7b", msg: b"\x0e\x15\x1c\x23\x2a\x31\x38\x3f\x46\x4d\x54\x5b\x62\x69\x70\x77\x7e\x85\x8c\x93\x9a\xa1\xa8\xaf\xb6\xbd\xc4\xcb\xd2\xd9\xe0\xe7\xee\xf5\xfc\x03\x0a\x11\x18\x1f\x26\x2d\x34\x3b\x42\x49\x50\x57\x5e\x65\x6c\x73\x7a\x81\x88\x8f\x96\x9d\xa4\xab\xb2\xb9\xc0\xc7\xce\xd5\xdc\xe3\xea\xf1\xf8\xff\x06\x0d\x14\x1b\x22\x29\x30\x37\x3e\x45\x4c\x53\x5a\x61\x68\x6f\x76\x7d\x84\x8b\x92\x99\xa0", sig: b"\x79\x7c\xe3\xf3\xcd\x13\xe9\xa4\x2f\x24\x3b\x27\x94\x42\x39\x0d\x5c\xd9\xa8\x08\x17\x9d\xf2\x18\x0f\xec\x44\x81\xcf\x7b\x0e\x4b\x22\x66\xed\xec\xf6\x30\x0e\xf6\x90\xec\xa2\xcd\x4c\x5c\x52\x11\xad\x4f\x0d\xe7\x2b\xb3\x8f\xd8\xbb\x64\x99\x62\x4f\x9c\x74\x0d" },
  Ed { seed: b"\xd1\x4a\x18\x70\xc3\x6f\x37\xd6\x6e\x51\x13\xeb\x07\x48\x6d\x51\xe0\xad\x4a\x4c\x07\x4e\xb0\xa7\x47\x5b\x15\xfa\x33\xef\xe1\xa0", pk: b"\x95\x35\x0d\x5d\x4b\xb8\x8c\x52\x80\x76\xfd\x7a\x6d\xe4\xbf\x61\xc0\xef\x95\x88\x87\xb1\xf5\xa6\x05\x99\xee\x80\x01\xa7\xb4\x77", msg: b"\x0f\x16\x1d\x24\x2b\x32\x39\x40\x47\x4e\x55\x5c\x63\x6a\x71\x78\x7f\x86\x8d\x94\x9b\xa2\xa9\xb0\xb7\xbe\xc5\xcc\xd3\xda\xe1\xe8\xef\xf6\xfd\x04\x0b\x12\x19\x20\x27\x2e\x35\x3c\x43\x4a\x51\x58\x5f\x66\x6d\x74\x7b\x82\x89\x90\x97\x9e\xa5\xac\xb3\xba\xc1\xc8\xcf\xd6\xdd\xe4\xeb\xf2\xf9\x00\x07\x0e\x15\x1c\x23\x2a\x31\x38\x3f\x46\x4d\x54\x5b\x62\x69\x70\x77\x7e\x85\x8c\x93\x9a\xa1\xa8", sig: b"\x17\x69\xf8\x22\x13\xf3\xce\xd3\x55\xed\x41\x75\xa0\x28\x85\xfa\x7a\x1e\xe1\xb0\x10\xdb\xfe\x64\xef\x22\x2a\x68\xe0\xb0\x96\xb8\x32\xfd\xfb\xb9\xdd\xd6\xf6\xda\xc3\x48\x81\xe0\x7b\x7f\xd9\x1d\x5a\x26\xf9\x01\xe9\xda\xb7\x9d\x1d\xf6\xce\x4e\x6c\x6e\x0e\x0c" },
  Ed { seed: b"\xe6\x04\x7f\x80\x79\x1f\xb0\xd9\x57\xdd\x62\xef\xc7\xea\xaa\x0f\xe3\xbe\x91\xc2\xd3\x60\xd5\x4f\x3c\xab\xa4\xdd\x8e\xb4\x29\x94", pk: b"\x36\x09\x03\xe8\x96\x46\xee\x24\x74\xa3\x99\x5d\x2d\xd9\x4f\x3d\x95\xf5\x3a\xfc\x52\xb1\xc4\x0c\x57\x11\x9d\x53\x26\x84\x00\xf6", msg: b"\x10\x17\x1e\x25\x2c\x33\x3a\x41\x48\x4f\x56\x5d\x64\x6b\x72\x79\x80\x87\x8e\x95\x9c\xa3\xaa\xb1\xb8\xbf\xc6\xcd\xd4\xdb\xe2\xe9\xf0\xf7\xfe\x05\x0c\x13\x1a\x21\x28\x2f\x36\x3d\x44\x4b\x52\x59\x60\x67\x6e\x75\x7c\x83\x8a\x91\x98\x9f\xa6\xad\xb4\xbb\xc2\xc9\xd0\xd7\xde\xe5\xec\xf3\xfa\x01\x08\x0f\x16\x1d\x24\x2b\x32\x39\x40\x47\x4e\x55\x5c\x63\x6a\x71\x78\x7f\x86\x8d\x94\x9b\xa2\xa9\xb0\xb7\xbe\xc5\xcc\xd3\xda\xe1\xe8\xef\xf6\xfd\x04\x0b\x12", sig: b"\xe0\x17\x1b\xe9\xc8\xb1\xa1\x09\xa3\x54\x9b\x70\x43\x2b\x60\x83\x67\xe3\xf0\xc3\x1b\x34\x04\xb9\xd4\x8f\xf3\xaf\x0f\x7e\xf3\xae\x27\xc4\x57\x86\x73\x74\x2b\x0f\x16\x98\x15\x65\x13\x1e\xd6\x81\xc6\xf6\x6a\x40\xaa\x91\x7e\x95\x0a\xd9\xe1\x9f\x0b\xfb\x55\x02" },
  Ed { seed: b"\x38\x03\x64\xe0\xf2\x7c\x08\x6e\xf6\xa9\xf3\xf0\x67\x5f\x9f\xc2\x4d\x15\x0a\xff\x05\x88\xbb\xdf\x3a\x61\x82\xdc\x49\xe8\x02\x3f", pk: b"\xb2\x37\xc4\xa8\x31\x23\x37\x22\x74\x22\x95\xaa\x6b\xbd\xba\xa4\xb5\x9d\x29\x2c\xe2\x19\x02\x25\x43\xee\x50\x1f\x31\x8e\xa9\xc6", msg: b"\x11\x18\x1f\x26\x2d\x34\x3b\x42\x49\x50\x57\x5e\x65\x6c\x73\x7a\x81\x88\x8f\x96\x9d\xa4\xab\xb2\xb9\xc0\xc7\xce\xd5\xdc\xe3\xea\xf1\xf8\xff\x06\x0d\x14\x1b\x22\x29\x30\x37\x3e\x45\x4c\x53\x5a\x61\x68\x6f\x76\x7d\x84\x8b\x92\x99\xa0\xa7\xae\xb5\xbc\xc3\xca\xd1\xd8\xdf\xe6\xed\xf4\xfb\x02\x09\x10\x17\x1e\x25\x2c\x33\x3a\x41\x48\x4f\x56\x5d\x64\x6b\x72\x79\x80\x87\x8e\x95\x9c\xa3\xaa\xb1\xb8\xbf\xc6\xcd\xd4\xdb\xe2\xe9\xf0\xf7\xfe\x05\x0c\x13\x1a", sig: b"\xd1\x95\xb6\xd0\xd6\xba\xf7\x5e\xa9\xe3\x6d\xc4\x5c\x19\x7a\x9a\x06\x3f\x3f\x97\xab\x5d\x68\xc7\xcc\x78\x83\xf0\x01\xea\x71\xf7\x7e\x47\x4a\xf6\xed\xa4\x67\xe1\x50\x2a\xd0\xd6\xf1\xf4\x11\xab\xb8\xab\xa4\xb2\xf1\x58\x45\xe6\x1c\x6a\x9d\xc0\xc0\x98\x2d\x05" },
  Ed { seed: b"\x64\x5e\x75\xae\xf6\xd5\x83\x57\xf8\xbf\x66\xc2\xd7\xc0\x84\x96\x05\x6b\xeb\xaf\xaf\xde\x93\x6c\x6f\x30\x02\x99\xdf\xd7\x0d\xf1", pk: b"\xa2\xad\x16\xfc\x10\x0b\x24\x47\xe3\xbd\x2e\xb6\x52\xda\x91\x2d\xcc\xfb\x8b\xff\xd0\x55\x57\x39\xaa\x94\x2c\x45\x1f\xb5\x3a\x8e", msg: b"\x12\x19\x20\x27\x2e\x35\x3c\x43\x4a\x51\x58\x5f\x66\x6d\x74\x7b\x82\x89\x90\x97\x9e\xa5\xac\xb3\xba\xc1\xc8\xcf\xd6\xdd\xe4\xeb\xf2\xf9\x00\x07\x0e\x15\x1c\x23\x2a\x31\x38\x3f\x46\x4d\x54\x5b\x62\x69\x70\x77\x7e\x85\x8c\x93\x9a\xa1\xa8\xaf\xb6\xbd\xc4\xcb\xd2\xd9\xe0\xe7\xee\xf5\xfc\x03\x0a\x11\x18\x1f\x26\x2d\x34\x3b\x42\x49\x50\x57\x5e\x65\x6c\x73\x7a\x81\x88\x8f\x96\x9d\xa4\xab\xb2\xb9\xc0\xc7\xce\xd5\xdc\xe3\xea\xf1\xf8\xff\x06\x0d\x14\x1b\x22\x29\x30\x37\x3e\x45\x4c\x53\x5a\x61\x68\x6f\x76\x7d\x84", sig: b"\xe8\x69\x08\x4b\x8e\x01\x38\x19\x1a\x23\x38\xff\xbd\x90\xb2\x8a\x20\x24\x27\x25\xa3\x95\xb3\xce\x33\x7b\x24\xba\x5c\xa4\x95\x10\x9d\x45\xce\xa9\x39\x02\x52\xa4\x28\x8b\x16\xb3\xfe\x46\x98\x6d\xdd\x11\x84\x62\x3b\xc9\x4a\xd3\x6c\xe0\x6b\xcc\x6c\x2a\x8d\x00" },
  Ed { seed: b"\x1b\x17\xc6\x79\x4b\x33\x56\x57\x45\x38\x77\x8c\xc9\x2d\x55\xf8\x21\xc6\x8d\x5e\x5a\x9b\xe5\xe6\x0f\x28\x6b\x22\x6c\x61\xcf\x67", pk: b"\x44\x74\x97\x8c\xd6\x96\x8d\xec\x22\xdd\x29\x6b\x88\xec\x03\x0b\x62\x9b\x00\x85\x1e\x51\x48\xd8\xb5\x1d\xd6\xef\xb6\xab\x03\x39", msg: b"\x13\x1a\x21\x28\x2f\x36\x3d\x44\x4b\x52\x59\x60\x67\x6e\x75\x7c\x83\x8a\x91\x98\x9f\xa6\xad\xb4\xbb\xc2\xc9\xd0\xd7\xde\xe5\xec\xf3\xfa\x01\x08\x0f\x16\x1d\x24\x2b\x32\x39\x40\x47\x4e\x55\x5c\x63\x6a\x71\x78\x7f\x86\x8d\x94\x9b\xa2\xa9\xb0\xb7\xbe\xc5\xcc\xd3\xda\xe1\xe8\xef\xf6\xfd\x04\x0b\x12\x19\x20\x27\x2e\x35\x3c\x43\x4a\x51\x58\x5f\x66\x6d\x74\x7b\x82\x89\x90\x97\x9e\xa5\xac\xb3\xba\xc1\xc8\xcf\xd6\xdd\xe4\xeb\xf2\xf9\x00\x07\x0e\x15\x1c\x23\x2a\x31\x38\x3f\x46\x4d\x54\x5b\x62\x69\x70\x77\x7e\x85\x8c", sig: b"\x39\x82\x6c\xcd\x56\xb1\xb9\x28\xe7\xc6\x89\xad\xdc\x79\x4b\x75\x8b\x38\xb5\x30\x3d\x35\xc0\xd9\x66\xe9\x7d\xe5\x3f\x6c\xc5\x77\xdd\xc6\xb4\x03\xaa\x1a\x17\x39\x4e\xfa\x80\x9a\xfa\x31\xde\xe5\xfc\xe2\x8f\x3b\xf4\x2d\xa9\xc2\x17\xa6\x28\x58\xf4\x4d\x8e\x0d" },
  Ed { seed: b"\x2f\x0a\xca\x95\x8d\x19\xd4\xc3\xce\xec\x80\x97\xb8\x6c\x22\xc9\xc1\xb3\x36\x97\x8f\xda\x2a\x21\xf2\xfe\x66\x1f\xa7\x27\x81\x04", pk: b"\x39\x35\x91\x8e\xed\x74\x56\xaf\xcb\x41\xf6\x7d\x47\x88\x5c\xc2\xfa\xa1\xa1\x5f\xd6\x78\x52\x3e\xde\x1d\xa7\x9d\x0c\xb6\x22\xfa", msg: b"\x14\x1b\x22\x29\x30\x37\x3e\x45\x4c\x53\x5a\x61\x68\x6f\x76\x7d\x84\x8b\x92\x99\xa0\xa7\xae\xb5\xbc\xc3\xca\xd1\xd8\xdf\xe6\xed\xf4\xfb\x02\x09\x10\x17\x1e\x25\x2c\x33\x3a\x41\x48\x4f\x56\x5d\x64\x6b\x72\x79\x80\x87\x8e\x95\x9c\xa3\xaa\xb1\xb8\xbf\xc6\xcd\xd4\xdb\xe2\xe9\xf0\xf7\xfe\x05\x0c\x13\x1a\x21\x28\x2f\x36\x3d\x44\x4b\x52\x59\x60\x67\x6e\x75\x7c\x83\x8a\x91\x98\x9f\xa6\xad\xb4\xbb\xc2\xc9\xd0\xd7\xde\xe5\xec\xf3\xfa\x01\x08\x0f\x16\x1d\x24\x2b\x32\x39\x40\x47\x4e\x55\x5c\x63\x6a\x71\x78\x7f\x86\x8d\x94", sig: b"\x90\x0c\xf9\x7a\x30\xcc\x8c\x6b\xfa\xec\xff\x28\x1d\xc0\xb1\x4a\x07\x27\xec\xc9\x89\x91\x1e\x23\xee\x16\x31\x47\x31\xd9\x1e\xf6\x05\x5a\xaf\x69\x56\xd6\x97\xd7\x27\x72\xc2\xe7\xd2\xbf\x6f\xbe\x2a\x63\x0b\x80\xa2\x20\x20\x43\xe6\x61\xc2\x60\x23\xfc\x95\x06" },
  Ed { seed: b"\xb0\x59\x31\xa3\xc5\x3c\x63\x05\xa4\x0d\xee\xd9\xa8\x9e\xc1\xb0\x7d\xdf\x78\x84\xe9\x7d\x78\x1c\x09\x91\x4f\x28\x7a\x46\x04\x0f", pk: b"\xb8\xe2\x73\xca\xff\x0a\xd1\x70\x3d\x8a\x86\x83\xc1\x9b\x9e\x95\xf7\xa1\x4c\x3a\xb0\xac\x43\x26\xe7\x22\x01\xae\xc0\xa4\xe9\x44", msg: b"\x15\x1c\x23\x2a\x31\x38\x3f\x46\x4d\x54\x5b\x62\x69\x70\x77\x7e\x85\x8c\x93\x9a\xa1\xa8\xaf\xb6\xbd\xc4\xcb\xd2\xd9\xe0\xe7\xee\xf5\xfc\x03\x0a\x11\x18\x1f\x26\x2d\x34\x3b\x42\x49\x50\x57\x5e\x65\x6c\x73\x7a\x81\x88\x8f\x96\x9d\xa4\xab\xb2\xb9\xc0\xc7\xce\xd5\xdc\xe3\xea\xf1\xf8\xff\x06\x0d\x14\x1b\x22\x29\x30\x37\x3e\x45\x4c\x53\x5a\x61\x68\x6f\x76\x7d\x84\x8b\x92\x99\xa0\xa7\xae\xb5\xbc\xc3\xca\xd1\xd8\xdf\xe6\xed\xf4\xfb\x02\x09\x10\x17\x1e\x25\x2c\x33\x3a\x41\x48\x4f\x56\x5d\x64\x6b\x72\x79\x80\x87\x8e\x95\x9c\xa3\xaa\xb1\xb8\xbf\xc6\xcd\xd4\xdb\xe2\xe9\xf0\xf7\xfe\x05\x0c\x13\x1a\x21\x28\x2f\x36\x3d\x44\x4b\x52\x59\x60\x67\x6e\x75\x7c\x83\x8a\x91\x98\x9f\xa6\xad\xb4\xbb\xc2\xc9\xd0\xd7\xde\xe5\xec\xf3\xfa\x01\x08\x0f\x16\x1d\x24\x2b\x32\x39\x40\x47\x4e\x55\x5c\x63\x6a\x71\x78\x7f\x86", sig: b"\x6c\x7a\xba\xda\xd5\x31\xdd\x85\x05\xeb\x11\x20\xb9\x19\xa1\x4d\x06\x16\x1f\xdc\x89\x23\x46\x4c\xae\x3c\xa7\xe3\x57\x97\xfb\x34\x47\x7b\xdb\x94\x29\x59\x84\x0b\xf7\x17\xd7\xea\xc9\xa8\x61\x35\xf6\x13\x82\x3a\xed\x36\x31\xfa\x93\x45\xcb\x07\x5d\x43\xf3\x05" },
  Ed { seed: b"\x19\xbd\x91\xd2\x2c\x7a\xf1\xf7\x1e\x5d\x4e\xf6\x17\xb7\x61\xeb\x02\x87\x9c\x3a\x23\x11\x1c\x7a\x5a\x97\x1d\x41\x40\x6b\xf0\x7f", pk: b"\xef\x0e\x21\xbe\x15\xbf\xc4\x1b\xbb\x83\xff\xd2\x29\xfa\x33\xdb\x00\xa1\x98\x7a\x51\xd8\x63\xe5\x62\xd2\x67\x88\xd4\x74\x46\x5e", msg: b"\x16\x1d\x24\x2b\x32\x39\x40\x47\x4e\x55\x5c\x63\x6a\x71\x78\x7f\x86\x8d\x94\x9b\xa2\xa9\xb0\xb7\xbe\xc5\xcc\xd3\xda\xe1\xe8\xef\xf6\xfd\x04\x0b\x12\x19\x20\x27\x2e\x35\x3c\x43\x4a\x51\x58\x5f\x66\x6d\x74\x7b\x82\x89\x90\x97\x9e\xa5\xac\xb3\xba\xc1\xc8\xcf\xd6\xdd\xe4\xeb\xf2\xf9\x00\x07\x0e\x15\x1c\x23\x2a\x31\x38\x3f\x46\x4d\x54\x5b\x62\x69\x70\x77\x7e\x85\x8c\x93\x9a\xa1\xa8\xaf\xb6\xbd\xc4\xcb\xd2\xd9\xe0\xe7\xee\xf5\xfc\x03\x0a\x11\x18\x1f\x26\x2d\x34\x3b\x42\x49\x50\x57\x5e\x65\x6c\x73\x7a\x81\x88\x8f\x96\x9d\xa4\xab\xb2\xb9\xc0\xc7\xce\xd5\xdc\xe3\xea\xf1\xf8\xff\x06\x0d\x14\x1b\x22\x29\x30\x37\x3e\x45\x4c\x53\x5a\x61\x68\x6f\x76\x7d\x84\x8b\x92\x99\xa0\xa7\xae\xb5\xbc\xc3\xca\xd1\xd8\xdf\xe6\xed\xf4\xfb\x02\x09\x10\x17\x1e\x25\x2c\x33\x3a\x41\x48\x4f\x56\x5d\x64\x6b\x72\x79\x80\x87\x8e\x95\x9c\xa3\xaa\xb1\xb8\xbf\xc6\xcd\xd4\xdb\xe2\xe9\xf0\xf7\xfe\x05\x0c\x13\x1a\x21\x28\x2f\x36\x3d\x44\x4b\x52\x59\x60\x67\x6e\x75\x7c\x83\x8a\x91\x98\x9f", sig: b"\x2a\x59\xf7\x80\xb1\x69\x22\x11\xb6\x52\x03\xf3\x0e\xae\x2e\x0b\x86\xbf\x99\x2b\xf4\x1d\x52\xbf\xaf\xa3\xe5\x92\xe6\xaf\x37\x87\xe2\x3b\x9b\x02\x13\xda\x07\xb0\x70\xf3\x04\x68\xd4\x29\x15\xcd\x33\x44\x82\x17\x75\x69\x78\x90\x27\xb4\xbe\x85\xb5\xbc\x55\x0a" },
  Ed { seed: b"\x51\x4f\xb3\x1d\xa8\xbe\xac\xdf\x74\xff\x70\xf7\xa6\x1d\x24\xd6\x0b\x4c\x1b\x01\x06\x51\x76\x69\x17\x8b\x73\x3c\x92\xfc\x3d\x4c", pk: b"\xe7\xb7\x18\x9f\xfa\x4d\x31\x0d\x35\xcd\x59\xbc\x9e\x8f\xf6\x2b\xe0\x6a\x3a\xdf\x38\xc9\x78\xfb\x59\x85\x1e\x35\xd9\xc3\x8d\xc9", msg: b"\x17\x1e\x25\x2c\x33\x3a\x41\x48\x4f\x56\x5d\x64\x6b\x72\x79\x80\x87\x8e\x95\x9c\xa3\xaa\xb1\xb8\xbf\xc6\xcd\xd4\xdb\xe2\xe9\xf0\xf7\xfe\x05\x0c\x13\x1a\x21\x28\x2f\x36\x3d\x44\x4b\x52\x59\x60\x67\x6e\x75\x7c\x83\x8a\x91\x98\x9f\xa6\xad\xb4\xbb\xc2\xc9\xd0\xd7\xde\xe5\xec\xf3\xfa\x01\x08\x0f\x16\x1d\x24\x2b\x32\x39\x40\x47\x4e\x55\x5c\x63\x6a\x71\x78\x7f\x86\x8d\x94\x9b\xa2\xa9\xb0\xb7\xbe\xc5\xcc\xd3\xda\xe1\xe8\xef\xf6\xfd\x04\x0b\x12\x19\x20\x27\x2e\x35\x3c\x43\x4a\x51\x58\x5f\x66\x6d\x74\x7b\x82\x89\x90\x97\x9e\xa5\xac\xb3\xba\xc1\xc8\xcf\xd6\xdd\xe4\xeb\xf2\xf9\x00\x07\x0e\x15\x1c\x23\x2a\x31\x38\x3f\x46\x4d\x54\x5b\x62\x69\x70\x77\x7e\x85\x8c\x93\x9a\xa1\xa8\xaf\xb6\xbd\xc4\xcb\xd2\xd9\xe0\xe7\xee\xf5\xfc\x03\x0a\x11\x18\x1f\x26\x2d\x34\x3b\x42\x49\x50\x57\x5e\x65\x6c\x73\x7a\x81\x88\x8f\x96\x9d\xa4\xab\xb2\xb9\xc0\xc7\xce\xd5\xdc\xe3\xea\xf1\xf8\xff\x06\x0d\x14\x1b\x22\x29\x30\x37\x3e\x45\x4c\x53\x5a\x61\x68\x6f\x76\x7d\x84\x8b\x92\x99\xa0\xa7\xae\xb5\xbc\xc3\xca\xd1\xd8\xdf\xe6\xed\xf4\xfb\x02\x09\x10\x17\x1e\x25\x2c\x33\x3a\x41\x48\x4f\x56\x5d\x64\x6b\x72\x79\x80\x87\x8e\x95\x9c\xa3\xaa\xb1\xb8\xbf\xc6\xcd\xd4\xdb\xe2\xe9\xf0\xf7\xfe\x05\x0c\x13\x1a\x21\x28\x2f\x36\x3d\x44", sig: b"\x39\x7f\xdc\xf1\xb5\x29\x3c\x3d\x9e\x48\x9d\x30\x9e\xfb\xf2\x24\x64\x5f\x31\xfb\xc6\xda\x19\x32\x52\xfc\x08\xfd\x90\x89\x69\x8e\xa6\xa0\xcf\x09\xb4\xc0\x55\x7d\x55\xc5\x45\x2b\x59\xf3\x22\xfb\xb3\x99\x3d\x33\x31\xfc\x94\x73\xa8\x6c\x2b\xfd\xda\xef\xba\x07" },
];
pub struct EdV { pub pk: &'static [u8], pub msg: &'static [u8], pub sig: &'static [u8], pub ok: bool }
pub static ED_VERIFY: &[EdV] = &[
  EdV { pk: b"\x3b\x6a\x27\xbc\xce\xb6\xa4\x2d\x62\xa3\xa8\xd0\x2a\x6f\x0d\x73\x65\x32\x15\x77\x1d\xe2\x43\xa6\x3a\xc0\x48\xa1\x8b\x59\xda\x29", msg: b"", sig: b"\x8f\x89\x5b\x3c\xaf\xe2\xc9\x50\x60\x39\xd0\xe2\xa6\x63\x82\x56\x80\x04\x67\x4f\xe8\xd2\x37\x78\x50\x92\xe4\x0d\x6a\xaf\x48\x3e\x4f\xc6\x01\x68\x70\x5f\x31\xf1\x01\x59\x61\x38\xce\x21\xaa\x35\x7c\x0d\x32\xa0\x64\xf4\x23\xdc\x3e\xe4\xaa\x3a\xbf\x53\xf8\x03", ok: true },
  EdV { pk: b"\x3b\x6a\x27\xbc\xce\xb6\xa4\x2d\x62\xa3\xa8\xd0\x2a\x6f\x0d\x73\x65\x32\x15\x77\x1d\xe2\x43\xa6\x3a\xc0\x48\xa1\x8b\x59\xda\x29", msg: b"", sig: b"\x8f\x89\x5b\x3c\xaf\xe2\xc9\x50\x60\x39\xd0\xe2\xa6\x63\x82\x56\x80\x04\x67\x4f\xe8\xd2\x37\x78\x50\x92\xe4\x0d\x6a\xaf\x48\x3e\x3c\x9a\xf7\xc4\x8a\xc2\x43\x49\xd8\xf5\x58\xdb\xac\x1b\x89\x4a\x7c\x0d\x32\xa0\x64\xf4\x23\xdc\x3e\xe4\xaa\x3a\xbf\x53\xf8\x13", ok: false },
  EdV { pk: b"\x3b\x6a\x27\xbc\xce\xb6\xa4\x2d\x62\xa3\xa8\xd0\x2a\x6f\x0d\x73\x65\x32\x15\x77\x1d\xe2\x43\xa6\x3a\xc0\x48\xa1\x8b\x59\xda\x29", msg: b"", sig: b"\x8f\x89\x5b\x3c\xaf\xe2\xc9\x50\x60\x39\xd0\xe2\xa6\x63\x82\x56\x80\x04\x67\x4f\xe8\xd2\x37\x78\x50\x92\xe4\x0d\x6a\xaf\x48\x3e\x29\x6e\xed\x21\xa5\x25\x56\xa1\xae\x92\x50\x7e\x8b\x15\x68\x5f\x7c\x0d\x32\xa0\x64\xf4\x23\xdc\x3e\xe4\xaa\x3a\xbf\x53\xf8\x23", ok: false },
  EdV { pk: b"\x3b\x6a\x27\xbc\xce\xb6\xa4\x2d\x62\xa3\xa8\xd0\x2a\x6f\x0d\x73\x65\x32\x15\x77\x1d\xe2\x43\xa6\x3a\xc0\x48\xa1\x8b\x59\xda\x29", msg: b"", sig: b"\x8f\x89\x5b\x3c\xaf\xe2\xc9\x50\x60\x39\xd0\xe2\xa6\x63\x82\x56\x80\x04\x67\x4f\xe8\xd2\x37\x78\x50\x92\xe4\x0d\x6a\xaf\x48\x3e\x16\x42\xe3\x7e\xbf\x88\x68\xf9\x84\x2f\x48\x21\x6a\x0f\x47\x74\x7c\x0d\x32\xa0\x64\xf4\x23\xdc\x3e\xe4\xaa\x3a\xbf\x53\xf8\x33", ok: false },
  EdV { pk: b"\x3b\x6a\x27\xbc\xce\xb6\xa4\x2d\x62\xa3\xa8\xd0\x2a\x6f\x0d\x73\x65\x32\x15\x77\x1d\xe2\x43\xa6\x3a\xc0\x48\xa1\x8b\x59\xda\x29", msg: b"", sig: b"\x8f\x89\x5b\x3c\xaf\xe2\xc9\x50\x60\x39\xd0\xe2\xa6\x63\x82\x56\x80\x04\x67\x4f\xe8\xd2\x37\x78\x50\x92\xe4\x0d\x6a\xaf\x48\x3e\x03\x16\xd9\xdb\xd9\xeb\x7a\x51\x5b\xcc\x3f\xc4\x48\x09\x26\x89\x7c\x0d\x32\xa0\x64\xf4\x23\xdc\x3e\xe4\xaa\x3a\xbf\x53\xf8\x43", ok: false },
  EdV { pk: b"\x3b\x6a\x27\xbc\xce\xb6\xa4\x2d\x62\xa3\xa8\xd0\x2a\x6f\x0d\x73\x65\x32\x15\x77\x1d\xe2\x43\xa6\x3a\xc0\x48\xa1\x8b\x59\xda\x29", msg: b"", sig: b"\x8f\x89\x5b\x3c\xaf\xe2\xc9\x50\x60\x39\xd0\xe2\xa6\x63\x82\x56\x80\x04\x67\x4f\xe8\xd2\x37\x78\x50\x92\xe4\x0d\x6a\xaf\x48\x3e\xf0\xe9\xce\x38\xf4\x4e\x8d\xa9\x31\x69\x37\x67\x27\x03\x05\x9e\x7c\x0d\x32\xa0\x64\xf4\x23\xdc\x3e\xe4\xaa\x3a\xbf\x53\xf8\x53", ok: false },
  EdV { pk: b"\x3b\x6a\x27\xbc\xce\xb6\xa4\x2d\x62\xa3\xa8\xd0\x2a\x6f\x0d\x73\x65\x32\x15\x77\x1d\xe2\x43\xa6\x3a\xc0\x48\xa1\x8b\x59\xda\x29", msg: b"", sig: b"\x8f\x89\x5b\x3c\xaf\xe2\xc9\x50\x60\x39\xd0\xe2\xa6\x63\x82\x56\x80\x04\x67\x4f\xe8\xd2\x37\x78\x50\x92\xe4\x0d\x6a\xaf\x48\x3e\xdd\xbd\xc4\x95\x0e\xb2\x9f\x01\x08\x06\x2f\x0a\x06\xfd\xe3\xb2\x7c\x0d\x32\xa0\x64\xf4\x23\xdc\x3e\xe4\xaa\x3a\xbf\x53\xf8\x63", ok: false },
  EdV { pk: b"\x3b\x6a\x27\xbc\xce\xb6\xa4\x2d\x62\xa3\xa8\xd0\x2a\x6f\x0d\x73\x65\x32\x15\x77\x1d\xe2\x43\xa6\x3a\xc0\x48\xa1\x8b\x59\xda\x29", msg: b"", sig: b"\x8f\x89\x5b\x3c\xaf\xe2\xc9\x50\x60\x39\xd0\xe2\xa6\x63\x82\x56\x80\x04\x67\x4f\xe8\xd2\x37\x78\x50\x92\xe4\x0d\x6a\xaf\x48\x3e\xca\x91\xba\xf2\x28\x15\xb2\x59\xde\xa2\x26\xad\xe4\xf6\xc2\xc7\x7c\x0d\x32\xa0\x64\xf4\x23\xdc\x3e\xe4\xaa\x3a\xbf\x53\xf8\x73", ok: false },
  EdV { pk: b"\x3b\x6a\x27\xbc\xce\xb6\xa4\x2d\x62\xa3\xa8\xd0\x2a\x6f\x0d\x73\x65\x32\x15\x77\x1d\xe2\x43\xa6\x3a\xc0\x48\xa1\x8b\x59\xda\x29", msg: b"", sig: b"\x8f\x89\x5b\x3c\xaf\xe2\xc9\x50\x60\x39\xd0\xe2\xa6\x63\x82\x56\x80\x04\x67\x4f\xe8\xd2\x37\x78\x50\x92\xe4\x0d\x6a\xaf\x48\x3e\xb7\x65\xb0\x4f\x43\x78\xc4\xb1\xb4\x3f\x1e\x50\xc3\xf0\xa1\xdc\x7c\x0d\x32\xa0\x64\xf4\x23\xdc\x3e\xe4\xaa\x3a\xbf\x53\xf8\x83", ok: false },
  EdV { pk: b"\x3b\x6a\x27\xbc\xce\xb6\xa4\x2d\x62\xa3\xa8\xd0\x2a\x6f\x0d\x73\x65\x32\x15\x77\x1d\xe2\x43\xa6\x3a\xc0\x48\xa1\x8b\x59\xda\x29", msg: b"", sig: b"\x8f\x89\x5b\x3c\xaf\xe2\xc9\x50\x60\x39\xd0\xe2\xa6\x63\x82\x56\x80\x04\x67\x4f\xe8\xd2\x37\x78\x50\x92\xe4\x0d\x6a\xaf\x48\x3e\xa4\x39\xa6\xac\x5d\xdb\xd6\x09\x8b\xdc\x15\xf3\xa1\xea\x80\xf1\x7c\x0d\x32\xa0\x64\xf4\x23\xdc\x3e\xe4\xaa\x3a\xbf\x53\xf8\x93", ok: false },
  EdV { pk: b"\x3b\x6a\x27\xbc\xce\xb6\xa4\x2d\x62\xa3\xa8\xd0\x2a\x6f\x0d\x73\x65\x32\x15\x77\x1d\xe2\x43\xa6\x3a\xc0\x48\xa1\x8b\x59\xda\x29", msg: b"", sig: b"\x8f\x89\x5b\x3c\xaf\xe2\xc9\x50\x60\x39\xd0\xe2\xa6\x63\x82\x56\x80\x04\x67\x4f\xe8\xd2\x37\x78\x50\x92\xe4\x0d\x6a\xaf\x48\x3e\x91\x0d\x9c\x09\x78\x3e\xe9\x61\x61\x79\x0d\x96\x80\xe4\x5f\x06\x7d\x0d\x32\xa0\x64\xf4\x23\xdc\x3e\xe4\xaa\x3a\xbf\x53\xf8\xa3", ok: false },
  EdV { pk: b"\x3b\x6a\x27\xbc\xce\xb6\xa4\x2d\x62\xa3\xa8\xd0\x2a\x6f\x0d\x73\x65\x32\x15\x77\x1d\xe2\x43\xa6\x3a\xc0\x48\xa1\x8b\x59\xda\x29", msg: b"", sig: b"\x8f\x89\x5b\x3c\xaf\xe2\xc9\x50\x60\x39\xd0\xe2\xa6\x63\x82\x56\x80\x04\x67\x4f\xe8\xd2\x37\x78\x50\x92\xe4\x0d\x6a\xaf\x48\x3e\x7e\xe1\x91\x66\x92\xa1\xfb\xb9\x37\x16\x05\x39\x5f\xde\x3e\x1b\x7d\x0d\x32\xa0\x64\xf4\x23\xdc\x3e\xe4\xaa\x3a\xbf\x53\xf8\xb3", ok: false },
  EdV { pk: b"\x3b\x6a\x27\xbc\xce\xb6\xa4\x2d\x62\xa3\xa8\xd0\x2a\x6f\x0d\x73\x65\x32\x15\x77\x1d\xe2\x43\xa6\x3a\xc0\x48\xa1\x8b\x59\xda\x29", msg: b"", sig: b"\x8f\x89\x5b\x3c\xaf\xe2\xc9\x50\x60\x39\xd0\xe2\xa6\x63\x82\x56\x80\x04\x67\x4f\xe8\xd2\x37\x78\x50\x92\xe4\x0d\x6a\xaf\x48\x3e\x6b\xb5\x87\xc3\xac\x04\x0e\x12\x0e\xb3\xfc\xdb\x3d\xd8\x1d\x30\x7d\x0d\x32\xa0\x64\xf4\x23\xdc\x3e\xe4\xaa\x3a\xbf\x53\xf8\xc3", ok: false },
  EdV { pk: b"\x3b\x6a\x27\xbc\xce\xb6\xa4\x2d\x62\xa3\xa8\xd0\x2a\x6f\x0d\x73\x65\x32\x15\x77\x1d\xe2\x43\xa6\x3a\xc0\x48\xa1\x8b\x59\xda\x29", msg: b"", sig: b"\x8f\x89\x5b\x3c\xaf\xe2\xc9\x50\x60\x39\xd0\xe2\xa6\x63\x82\x56\x80\x04\x67\x4f\xe8\xd2\x37\x78\x50\x92\xe4\x0d\x6a\xaf\x48\x3e\x58\x89\x7d\x20\xc7\x67\x20\x6a\xe4\x4f\xf4\x7e\x1c\xd2\xfc\x44\x7d\x0d\x32\xa0\x64\xf4\x23\xdc\x3e\xe4\xaa\x3a\xbf\x53\xf8\xd3", ok: false },
  EdV { pk: b"\x3b\x6a\x27\xbc\xce\xb6\xa4\x2d\x62\xa3\xa8\xd0\x2a\x6f\x0d\x73\x65\x32\x15\x77\x1d\xe2\x43\xa6\x3a\xc0\x48\xa1\x8b\x59\xda\x29", msg: b"", sig: b"\x8f\x89\x5b\x3c\xaf\xe2\xc9\x50\x60\x39\xd0\xe2\xa6\x63\x82\x56\x80\x04\x67\x4f\xe8\xd2\x37\x78\x50\x92\xe4\x0d\x6a\xaf\x48\x3e\x45\x5d\x73\x7d\xe1\xca\x32\xc2\xba\xec\xeb\x21\xfb\xcb\xdb\x59\x7d\x0d\x32\xa0\x64\xf4\x23\xdc\x3e\xe4\xaa\x3a\xbf\x53\xf8\xe3", ok: false },
  EdV { pk: b"\x3b\x6a\x27\xbc\xce\xb6\xa4\x2d\x62\xa3\xa8\xd0\x2a\x6f\x0d\x73\x65\x32\x15\x77\x1d\xe2\x43\xa6\x3a\xc0\x48\xa1\x8b\x59\xda\x29", msg: b"", sig: b"\x8f\x89\x5b\x3c\xaf\xe2\xc9\x50\x60\x39\xd0\xe2\xa6\x63\x82\x56\x80\x04\x67\x4f\xe8\xd2\x37\x78\x50\x92\xe4\x0d\x6a\xaf\x48\x3e\x9e\x0d\xf4\xf4\xa9\x03\xe1\x66\xd4\x43\x96\x6a\x10\xd8\x34\xdf\x83\xf2\xcd\x5f\x9b\x0b\xdc\x23\xc1\x1b\x55\xc5\x40\xac\x07\x0c", ok: false },
  EdV { pk: b"\x3b\x6a\x27\xbc\xce\xb6\xa4\x2d\x62\xa3\xa8\xd0\x2a\x6f\x0d\x73\x65\x32\x15\x77\x1d\xe2\x43\xa6\x3a\xc0\x48\xa1\x8b\x59\xda\x29", msg: b"", sig: b"\x8f\x89\x5b\x3c\xaf\xe2\xc9\x50\x60\x39\xd0\xe2\xa6\x63\x82\x56\x80\x04\x67\x4f\xe8\xd2\x37\x78\x50\x92\xe4\x0d\x6a\xaf\x48\xbe\x4f\xc6\x01\x68\x70\x5f\x31\xf1\x01\x59\x61\x38\xce\x21\xaa\x35\x7c\x0d\x32\xa0\x64\xf4\x23\xdc\x3e\xe4\xaa\x3a\xbf\x53\xf8\x03", ok: false },
  EdV { pk: b"\x3b\x6a\x27\xbc\xce\xb6\xa4\x2d\x62\xa3\xa8\xd0\x2a\x6f\x0d\x73\x65\x32\x15\x77\x1d\xe2\x43\xa6\x3a\xc0\x48\xa1\x8b\x59\xda\x29", msg: b"\x78", sig: b"\x8f\x89\x5b\x3c\xaf\xe2\xc9\x50\x60\x39\xd0\xe2\xa6\x63\x82\x56\x80\x04\x67\x4f\xe8\xd2\x37\x78\x50\x92\xe4\x0d\x6a\xaf\x48\x3e\x4f\xc6\x01\x68\x70\x5f\x31\xf1\x01\x59\x61\x38\xce\x21\xaa\x35\x7c\x0d\x32\xa0\x64\xf4\x23\xdc\x3e\xe4\xaa\x3a\xbf\x53\xf8\x03", ok: false },
  EdV { pk: b"\x3b\x6a\x27\xbc\xce\xb6\xa4\x2d\x62\xa3\xa8\xd0\x2a\x6f\x0d\x73\x65\x32\x15\x77\x1d\xe2\x43\xa6\x3a\xc0\x48\xa1\x8b\x59\xda\x29", msg: b"", sig: b"\x8f\x89\x5b\x3c\xaf\xe2\xc9\x50\x60\x39\xd0\xe2\xa6\x63\x82\x56\x80\x04\x67\x4f\xe8\xd2\x37\x78\x50\x92\xe4\x0d\x6a\xaf\x48\x3e\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: false },
  EdV { pk: b"\x3b\x6a\x27\xbc\xce\xb6\xa4\x2d\x62\xa3\xa8\xd0\x2a\x6f\x0d\x73\x65\x32\x15\x77\x1d\xe2\x43\xa6\x3a\xc0\x48\xa1\x8b\x59\xda\x29", msg: b"", sig: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: false },
  EdV { pk: b"\x3b\x6a\x27\xbc\xce\xb6\xa4\x2d\x62\xa3\xa8\xd0\x2a\x6f\x0d\x73\x65\x32\x15\x77\x1d\xe2\x43\xa6\x3a\xc0\x48\xa1\x8b\x59\xda\x29", msg: b"", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x4f\xc6\x01\x68\x70\x5f\x31\xf1\x01\x59\x61\x38\xce\x21\xaa\x35\x7c\x0d\x32\xa0\x64\xf4\x23\xdc\x3e\xe4\xaa\x3a\xbf\x53\xf8\x03", ok: false },
  EdV { pk: b"\x3b\x6a\x27\xbc\xce\xb6\xa4\x2d\x62\xa3\xa8\xd0\x2a\x6f\x0d\x73\x65\x32\x15\x77\x1d\xe2\x43\xa6\x3a\xc0\x48\xa1\x8b\x59\xda\x29", msg: b"", sig: b"\x4f\xc6\x01\x68\x70\x5f\x31\xf1\x01\x59\x61\x38\xce\x21\xaa\x35\x7c\x0d\x32\xa0\x64\xf4\x23\xdc\x3e\xe4\xaa\x3a\xbf\x53\xf8\x03\x8f\x89\x5b\x3c\xaf\xe2\xc9\x50\x60\x39\xd0\xe2\xa6\x63\x82\x56\x80\x04\x67\x4f\xe8\xd2\x37\x78\x50\x92\xe4\x0d\x6a\xaf\x48\x3e", ok: false },
  EdV { pk: b"\x3b\x6a\x27\xbc\xce\xb6\xa4\x2d\x62\xa3\xa8\xd0\x2a\x6f\x0d\x73\x65\x32\x15\x77\x1d\xe2\x43\xa6\x3a\xc0\x48\xa1\x8b\x59\xda\xa9", msg: b"", sig: b"\x8f\x89\x5b\x3c\xaf\xe2\xc9\x50\x60\x39\xd0\xe2\xa6\x63\x82\x56\x80\x04\x67\x4f\xe8\xd2\x37\x78\x50\x92\xe4\x0d\x6a\xaf\x48\x3e\x4f\xc6\x01\x68\x70\x5f\x31\xf1\x01\x59\x61\x38\xce\x21\xaa\x35\x7c\x0d\x32\xa0\x64\xf4\x23\xdc\x3e\xe4\xaa\x3a\xbf\x53\xf8\x03", ok: false },
  EdV { pk: b"\x76\xa1\x59\x20\x44\xa6\xe4\xf5\x11\x26\x5b\xca\x73\xa6\x04\xd9\x0b\x05\x29\xd1\xdf\x60\x2b\xe3\x0a\x19\xa9\x25\x76\x60\xd1\xf5", msg: b"\x01", sig: b"\x78\xd6\x6f\xef\x05\x79\x8e\x13\xad\xfa\xa5\x9a\x4b\xec\xa1\xde\x21\x26\x56\x46\x05\x06\xc5\xe1\xe8\xca\x1f\x79\x8a\x65\x6d\x3c\xe9\xf8\x12\x1c\xd4\x4b\xbd\xa4\x59\xb4\xd6\xeb\xf6\xda\x44\xd2\x25\xcd\xd7\x5f\x31\xef\x49\xd3\x0d\x18\x38\xb8\xd7\x97\x86\x02", ok: true },
  EdV { pk: b"\x76\xa1\x59\x20\x44\xa6\xe4\xf5\x11\x26\x5b\xca\x73\xa6\x04\xd9\x0b\x05\x29\xd1\xdf\x60\x2b\xe3\x0a\x19\xa9\x25\x76\x60\xd1\xf5", msg: b"\x01", sig: b"\x78\xd6\x6f\xef\x05\x79\x8e\x13\xad\xfa\xa5\x9a\x4b\xec\xa1\xde\x21\x26\x56\x46\x05\x06\xc5\xe1\xe8\xca\x1f\x79\x8a\x65\x6d\x3c\xd6\xcc\x08\x79\xee\xae\xcf\xfc\x2f\x51\xce\x8e\xd5\xd4\x23\xe7\x25\xcd\xd7\x5f\x31\xef\x49\xd3\x0d\x18\x38\xb8\xd7\x97\x86\x12", ok: false },
  EdV { pk: b"\x76\xa1\x59\x20\x44\xa6\xe4\xf5\x11\x26\x5b\xca\x73\xa6\x04\xd9\x0b\x05\x29\xd1\xdf\x60\x2b\xe3\x0a\x19\xa9\x25\x76\x60\xd1\xf5", msg: b"\x01", sig: b"\x78\xd6\x6f\xef\x05\x79\x8e\x13\xad\xfa\xa5\x9a\x4b\xec\xa1\xde\x21\x26\x56\x46\x05\x06\xc5\xe1\xe8\xca\x1f\x79\x8a\x65\x6d\x3c\xc3\xa0\xfe\xd5\x08\x12\xe2\x54\x06\xee\xc5\x31\xb4\xce\x02\xfc\x25\xcd\xd7\x5f\x31\xef\x49\xd3\x0d\x18\x38\xb8\xd7\x97\x86\x22", ok: false },
  EdV { pk: b"\x76\xa1\x59\x20\x44\xa6\xe4\xf5\x11\x26\x5b\xca\x73\xa6\x04\xd9\x0b\x05\x29\xd1\xdf\x60\x2b\xe3\x0a\x19\xa9\x25\x76\x60\xd1\xf5", msg: b"\x01", sig: b"\x78\xd6\x6f\xef\x05\x79\x8e\x13\xad\xfa\xa5\x9a\x4b\xec\xa1\xde\x21\x26\x56\x46\x05\x06\xc5\xe1\xe8\xca\x1f\x79\x8a\x65\x6d\x3c\xb0\x74\xf4\x32\x23\x75\xf4\xac\xdc\x8a\xbd\xd4\x92\xc8\xe1\x10\x26\xcd\xd7\x5f\x31\xef\x49\xd3\x0d\x18\x38\xb8\xd7\x97\x86\x32", ok: false },
  EdV { pk: b"\x76\xa1\x59\x20\x44\xa6\xe4\xf5\x11\x26\x5b\xca\x73\xa6\x04\xd9\x0b\x05\x29\xd1\xdf\x60\x2b\xe3\x0a\x19\xa9\x25\x76\x60\xd1\xf5", msg: b"\x01", sig: b"\x78\xd6\x6f\xef\x05\x79\x8e\x13\xad\xfa\xa5\x9a\x4b\xec\xa1\xde\x21\x26\x56\x46\x05\x06\xc5\xe1\xe8\xca\x1f\x79\x8a\x65\x6d\x3c\x9d\x48\xea\x8f\x3d\xd8\x06\x05\xb3\x27\xb5\x77\x71\xc2\xc0\x25\x26\xcd\xd7\x5f\x31\xef\x49\xd3\x0d\x18\x38\xb8\xd7\x97\x86\x42", ok: false },
  EdV { pk: b"\x76\xa1\x59\x20\x44\xa6\xe4\xf5\x11\x26\x5b\xca\x73\xa6\x04\xd9\x0b\x05\x29\xd1\xdf\x60\x2b\xe3\x0a\x19\xa9\x25\x76\x60\xd1\xf5", msg: b"\x01", sig: b"\x78\xd6\x6f\xef\x05\x79\x8e\x13\xad\xfa\xa5\x9a\x4b\xec\xa1\xde\x21\x26\x56\x46\x05\x06\xc5\xe1\xe8\xca\x1f\x79\x8a\x65\x6d\x3c\x8a\x1c\xe0\xec\x57\x3b\x19\x5d\x89\xc4\xac\x1a\x50\xbc\x9f\x3a\x26\xcd\xd7\x5f\x31\xef\x49\xd3\x0d\x18\x38\xb8\xd7\x97\x86\x52", ok: false },
  EdV { pk: b"\x76\xa1\x59\x20\x44\xa6\xe4\xf5\x11\x26\x5b\xca\x73\xa6\x04\xd9\x0b\x05\x29\xd1\xdf\x60\x2b\xe3\x0a\x19\xa9\x25\x76\x60\xd1\xf5", msg: b"\x01", sig: b"\x78\xd6\x6f\xef\x05\x79\x8e\x13\xad\xfa\xa5\x9a\x4b\xec\xa1\xde\x21\x26\x56\x46\x05\x06\xc5\xe1\xe8\xca\x1f\x79\x8a\x65\x6d\x3c\x77\xf0\xd5\x49\x72\x9e\x2b\xb5\x5f\x61\xa4\xbd\x2e\xb6\x7e\x4f\x26\xcd\xd7\x5f\x31\xef\x49\xd3\x0d\x18\x38\xb8\xd7\x97\x86\x62", ok: false },
  EdV { pk: b"\x76\xa1\x59\x20\x44\xa6\xe4\xf5\x11\x26\x5b\xca\x73\xa6\x04\xd9\x0b\x05\x29\xd1\xdf\x60\x2b\xe3\x0a\x19\xa9\x25\x76\x60\xd1\xf5", msg: b"\x01", sig: b"\x78\xd6\x6f\xef\x05\x79\x8e\x13\xad\xfa\xa5\x9a\x4b\xec\xa1\xde\x21\x26\x56\x46\x05\x06\xc5\xe1\xe8\xca\x1f\x79\x8a\x65\x6d\x3c\x64\xc4\xcb\xa6\x8c\x01\x3e\x0d\x36\xfe\x9b\x60\x0d\xb0\x5d\x64\x26\xcd\xd7\x5f\x31\xef\x49\xd3\x0d\x18\x38\xb8\xd7\x97\x86\x72", ok: false },
  EdV { pk: b"\x76\xa1\x59\x20\x44\xa6\xe4\xf5\x11\x26\x5b\xca\x73\xa6\x04\xd9\x0b\x05\x29\xd1\xdf\x60\x2b\xe3\x0a\x19\xa9\x25\x76\x60\xd1\xf5", msg: b"\x01", sig: b"\x78\xd6\x6f\xef\x05\x79\x8e\x13\xad\xfa\xa5\x9a\x4b\xec\xa1\xde\x21\x26\x56\x46\x05\x06\xc5\xe1\xe8\xca\x1f\x79\x8a\x65\x6d\x3c\x51\x98\xc1\x03\xa7\x64\x50\x65\x0c\x9b\x93\x03\xec\xa9\x3c\x79\x26\xcd\xd7\x5f\x31\xef\x49\xd3\x0d\x18\x38\xb8\xd7\x97\x86\x82", ok: false },
  EdV { pk: b"\x76\xa1\x59\x20\x44\xa6\xe4\xf5\x11\x26\x5b\xca\x73\xa6\x04\xd9\x0b\x05\x29\xd1\xdf\x60\x2b\xe3\x0a\x19\xa9\x25\x76\x60\xd1\xf5", msg: b"\x01", sig: b"\x78\xd6\x6f\xef\x05\x79\x8e\x13\xad\xfa\xa5\x9a\x4b\xec\xa1\xde\x21\x26\x56\x46\x05\x06\xc5\xe1\xe8\xca\x1f\x79\x8a\x65\x6d\x3c\x3e\x6c\xb7\x60\xc1\xc7\x62\xbd\xe2\x37\x8b\xa6\xca\xa3\x1b\x8e\x26\xcd\xd7\x5f\x31\xef\x49\xd3\x0d\x18\x38\xb8\xd7\x97\x86\x92", ok: false },
  EdV { pk: b"\x76\xa1\x59\x20\x44\xa6\xe4\xf5\x11\x26\x5b\xca\x73\xa6\x04\xd9\x0b\x05\x29\xd1\xdf\x60\x2b\xe3\x0a\x19\xa9\x25\x76\x60\xd1\xf5", msg: b"\x01", sig: b"\x78\xd6\x6f\xef\x05\x79\x8e\x13\xad\xfa\xa5\x9a\x4b\xec\xa1\xde\x21\x26\x56\x46\x05\x06\xc5\xe1\xe8\xca\x1f\x79\x8a\x65\x6d\x3c\x2b\x40\xad\xbd\xdb\x2a\x75\x15\xb9\xd4\x82\x49\xa9\x9d\xfa\xa2\x26\xcd\xd7\x5f\x31\xef\x49\xd3\x0d\x18\x38\xb8\xd7\x97\x86\xa2", ok: false },
  EdV { pk: b"\x76\xa1\x59\x20\x44\xa6\xe4\xf5\x11\x26\x5b\xca\x73\xa6\x04\xd9\x0b\x05\x29\xd1\xdf\x60\x2b\xe3\x0a\x19\xa9\x25\x76\x60\xd1\xf5", msg: b"\x01", sig: b"\x78\xd6\x6f\xef\x05\x79\x8e\x13\xad\xfa\xa5\x9a\x4b\xec\xa1\xde\x21\x26\x56\x46\x05\x06\xc5\xe1\xe8\xca\x1f\x79\x8a\x65\x6d\x3c\x18\x14\xa3\x1a\xf6\x8d\x87\x6d\x8f\x71\x7a\xec\x87\x97\xd9\xb7\x26\xcd\xd7\x5f\x31\xef\x49\xd3\x0d\x18\x38\xb8\xd7\x97\x86\xb2", ok: false },
  EdV { pk: b"\x76\xa1\x59\x20\x44\xa6\xe4\xf5\x11\x26\x5b\xca\x73\xa6\x04\xd9\x0b\x05\x29\xd1\xdf\x60\x2b\xe3\x0a\x19\xa9\x25\x76\x60\xd1\xf5", msg: b"\x01", sig: b"\x78\xd6\x6f\xef\x05\x79\x8e\x13\xad\xfa\xa5\x9a\x4b\xec\xa1\xde\x21\x26\x56\x46\x05\x06\xc5\xe1\xe8\xca\x1f\x79\x8a\x65\x6d\x3c\x05\xe8\x98\x77\x10\xf1\x99\xc5\x65\x0e\x72\x8f\x66\x91\xb8\xcc\x26\xcd\xd7\x5f\x31\xef\x49\xd3\x0d\x18\x38\xb8\xd7\x97\x86\xc2", ok: false },
  EdV { pk: b"\x76\xa1\x59\x20\x44\xa6\xe4\xf5\x11\x26\x5b\xca\x73\xa6\x04\xd9\x0b\x05\x29\xd1\xdf\x60\x2b\xe3\x0a\x19\xa9\x25\x76\x60\xd1\xf5", msg: b"\x01", sig: b"\x78\xd6\x6f\xef\x05\x79\x8e\x13\xad\xfa\xa5\x9a\x4b\xec\xa1\xde\x21\x26\x56\x46\x05\x06\xc5\xe1\xe8\xca\x1f\x79\x8a\x65\x6d\x3c\xf2\xbb\x8e\xd4\x2a\x54\xac\x1d\x3c\xab\x69\x32\x45\x8b\x97\xe1\x26\xcd\xd7\x5f\x31\xef\x49\xd3\x0d\x18\x38\xb8\xd7\x97\x86\xd2", ok: false },
  EdV { pk: b"\x76\xa1\x59\x20\x44\xa6\xe4\xf5\x11\x26\x5b\xca\x73\xa6\x04\xd9\x0b\x05\x29\xd1\xdf\x60\x2b\xe3\x0a\x19\xa9\x25\x76\x60\xd1\xf5", msg: b"\x01", sig: b"\x78\xd6\x6f\xef\x05\x79\x8e\x13\xad\xfa\xa5\x9a\x4b\xec\xa1\xde\x21\x26\x56\x46\x05\x06\xc5\xe1\xe8\xca\x1f\x79\x8a\x65\x6d\x3c\xdf\x8f\x84\x31\x45\xb7\xbe\x75\x12\x48\x61\xd5\x23\x85\x76\xf6\x26\xcd\xd7\x5f\x31\xef\x49\xd3\x0d\x18\x38\xb8\xd7\x97\x86\xe2", ok: false },
  EdV { pk: b"\x76\xa1\x59\x20\x44\xa6\xe4\xf5\x11\x26\x5b\xca\x73\xa6\x04\xd9\x0b\x05\x29\xd1\xdf\x60\x2b\xe3\x0a\x19\xa9\x25\x76\x60\xd1\xf5", msg: b"\x01", sig: b"\x78\xd6\x6f\xef\x05\x79\x8e\x13\xad\xfa\xa5\x9a\x4b\xec\xa1\xde\x21\x26\x56\x46\x05\x06\xc5\xe1\xe8\xca\x1f\x79\x8a\x65\x6d\x3c\x04\xdb\xe2\x40\x46\x17\x55\xb3\x7c\xe8\x20\xb7\xe7\x1e\x9a\x42\xda\x32\x28\xa0\xce\x10\xb6\x2c\xf2\xe7\xc7\x47\x28\x68\x79\x0d", ok: false },
  EdV { pk: b"\x76\xa1\x59\x20\x44\xa6\xe4\xf5\x11\x26\x5b\xca\x73\xa6\x04\xd9\x0b\x05\x29\xd1\xdf\x60\x2b\xe3\x0a\x19\xa9\x25\x76\x60\xd1\xf5", msg: b"\x01", sig: b"\x78\xd6\x6f\xef\x05\x79\x8e\x13\xad\xfa\xa5\x9a\x4b\xec\xa1\xde\x21\x26\x56\x46\x05\x06\xc5\xe1\xe8\xca\x1f\x79\x8a\x65\x6d\xbc\xe9\xf8\x12\x1c\xd4\x4b\xbd\xa4\x59\xb4\xd6\xeb\xf6\xda\x44\xd2\x25\xcd\xd7\x5f\x31\xef\x49\xd3\x0d\x18\x38\xb8\xd7\x97\x86\x02", ok: false },
  EdV { pk: b"\x76\xa1\x59\x20\x44\xa6\xe4\xf5\x11\x26\x5b\xca\x73\xa6\x04\xd9\x0b\x05\x29\xd1\xdf\x60\x2b\xe3\x0a\x19\xa9\x25\x76\x60\xd1\xf5", msg: b"\x01\x78", sig: b"\x78\xd6\x6f\xef\x05\x79\x8e\x13\xad\xfa\xa5\x9a\x4b\xec\xa1\xde\x21\x26\x56\x46\x05\x06\xc5\xe1\xe8\xca\x1f\x79\x8a\x65\x6d\x3c\xe9\xf8\x12\x1c\xd4\x4b\xbd\xa4\x59\xb4\xd6\xeb\xf6\xda\x44\xd2\x25\xcd\xd7\x5f\x31\xef\x49\xd3\x0d\x18\x38\xb8\xd7\x97\x86\x02", ok: false },
  EdV { pk: b"\x76\xa1\x59\x20\x44\xa6\xe4\xf5\x11\x26\x5b\xca\x73\xa6\x04\xd9\x0b\x05\x29\xd1\xdf\x60\x2b\xe3\x0a\x19\xa9\x25\x76\x60\xd1\xf5", msg: b"\x01", sig: b"\x78\xd6\x6f\xef\x05\x79\x8e\x13\xad\xfa\xa5\x9a\x4b\xec\xa1\xde\x21\x26\x56\x46\x05\x06\xc5\xe1\xe8\xca\x1f\x79\x8a\x65\x6d\x3c\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: false },
  EdV { pk: b"\x76\xa1\x59\x20\x44\xa6\xe4\xf5\x11\x26\x5b\xca\x73\xa6\x04\xd9\x0b\x05\x29\xd1\xdf\x60\x2b\xe3\x0a\x19\xa9\x25\x76\x60\xd1\xf5", msg: b"\x01", sig: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: false },
  EdV { pk: b"\x76\xa1\x59\x20\x44\xa6\xe4\xf5\x11\x26\x5b\xca\x73\xa6\x04\xd9\x0b\x05\x29\xd1\xdf\x60\x2b\xe3\x0a\x19\xa9\x25\x76\x60\xd1\xf5", msg: b"\x01", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xe9\xf8\x12\x1c\xd4\x4b\xbd\xa4\x59\xb4\xd6\xeb\xf6\xda\x44\xd2\x25\xcd\xd7\x5f\x31\xef\x49\xd3\x0d\x18\x38\xb8\xd7\x97\x86\x02", ok: false },
  EdV { pk: b"\x76\xa1\x59\x20\x44\xa6\xe4\xf5\x11\x26\x5b\xca\x73\xa6\x04\xd9\x0b\x05\x29\xd1\xdf\x60\x2b\xe3\x0a\x19\xa9\x25\x76\x60\xd1\xf5", msg: b"\x01", sig: b"\xe9\xf8\x12\x1c\xd4\x4b\xbd\xa4\x59\xb4\xd6\xeb\xf6\xda\x44\xd2\x25\xcd\xd7\x5f\x31\xef\x49\xd3\x0d\x18\x38\xb8\xd7\x97\x86\x02\x78\xd6\x6f\xef\x05\x79\x8e\x13\xad\xfa\xa5\x9a\x4b\xec\xa1\xde\x21\x26\x56\x46\x05\x06\xc5\xe1\xe8\xca\x1f\x79\x8a\x65\x6d\x3c", ok: false },
  EdV { pk: b"\x76\xa1\x59\x20\x44\xa6\xe4\xf5\x11\x26\x5b\xca\x73\xa6\x04\xd9\x0b\x05\x29\xd1\xdf\x60\x2b\xe3\x0a\x19\xa9\x25\x76\x60\xd1\x75", msg: b"\x01", sig: b"\x78\xd6\x6f\xef\x05\x79\x8e\x13\xad\xfa\xa5\x9a\x4b\xec\xa1\xde\x21\x26\x56\x46\x05\x06\xc5\xe1\xe8\xca\x1f\x79\x8a\x65\x6d\x3c\xe9\xf8\x12\x1c\xd4\x4b\xbd\xa4\x59\xb4\xd6\xeb\xf6\xda\x44\xd2\x25\xcd\xd7\x5f\x31\xef\x49\xd3\x0d\x18\x38\xb8\xd7\x97\x86\x02", ok: false },
  EdV { pk: b"\xf9\x6e\x5d\xae\x85\x21\xdd\xdb\x3f\x6e\x95\xc4\x60\x8c\xe2\x0b\xdf\xac\x73\xbb\x3e\xbc\x5c\x45\xd4\x5b\x7b\x0e\xd9\x3f\x32\x6b", msg: b"\x02\x09", sig: b"\xa6\xc6\xa0\x46\x99\x27\xc0\x7d\x94\x42\x90\x70\x0f\x55\xe8\x7d\xb4\xee\x07\xe1\xac\x2c\x53\x04\x5d\xae\x9a\xf1\x92\xcd\xfb\x2c\xa9\xda\xc2\x11\x9a\xc6\x91\x62\xaf\xa4\xa7\x64\xd0\xcc\x1f\x48\xd8\xfc\x44\x11\x9a\x42\x3d\x32\x9e\x92\xdb\x4c\x7f\xfe\x6f\x00", ok: true },
  EdV { pk: b"\xf9\x6e\x5d\xae\x85\x21\xdd\xdb\x3f\x6e\x95\xc4\x60\x8c\xe2\x0b\xdf\xac\x73\xbb\x3e\xbc\x5c\x45\xd4\x5b\x7b\x0e\xd9\x3f\x32\x6b", msg: b"\x02\x09", sig: b"\xa6\xc6\xa0\x46\x99\x27\xc0\x7d\x94\x42\x90\x70\x0f\x55\xe8\x7d\xb4\xee\x07\xe1\xac\x2c\x53\x04\x5d\xae\x9a\xf1\x92\xcd\xfb\x2c\x96\xae\xb8\x6e\xb4\x29\xa4\xba\x85\x41\x9f\x07\xaf\xc6\xfe\x5c\xd8\xfc\x44\x11\x9a\x42\x3d\x32\x9e\x92\xdb\x4c\x7f\xfe\x6f\x10", ok: false },
  EdV { pk: b"\xf9\x6e\x5d\xae\x85\x21\xdd\xdb\x3f\x6e\x95\xc4\x60\x8c\xe2\x0b\xdf\xac\x73\xbb\x3e\xbc\x5c\x45\xd4\x5b\x7b\x0e\xd9\x3f\x32\x6b", msg: b"\x02\x09", sig: b"\xa6\xc6\xa0\x46\x99\x27\xc0\x7d\x94\x42\x90\x70\x0f\x55\xe8\x7d\xb4\xee\x07\xe1\xac\x2c\x53\x04\x5d\xae\x9a\xf1\x92\xcd\xfb\x2c\x83\x82\xae\xcb\xce\x8c\xb6\x12\x5c\xde\x96\xaa\x8d\xc0\xdd\x71\xd8\xfc\x44\x11\x9a\x42\x3d\x32\x9e\x92\xdb\x4c\x7f\xfe\x6f\x20", ok: false },
  EdV { pk: b"\xf9\x6e\x5d\xae\x85\x21\xdd\xdb\x3f\x6e\x95\xc4\x60\x8c\xe2\x0b\xdf\xac\x73\xbb\x3e\xbc\x5c\x45\xd4\x5b\x7b\x0e\xd9\x3f\x32\x6b", msg: b"\x02\x09", sig: b"\xa6\xc6\xa0\x46\x99\x27\xc0\x7d\x94\x42\x90\x70\x0f\x55\xe8\x7d\xb4\xee\x07\xe1\xac\x2c\x53\x04\x5d\xae\x9a\xf1\x92\xcd\xfb\x2c\x70\x56\xa4\x28\xe9\xef\xc8\x6a\x32\x7b\x8e\x4d\x6c\xba\xbc\x86\xd8\xfc\x44\x11\x9a\x42\x3d\x32\x9e\x92\xdb\x4c\x7f\xfe\x6f\x30", ok: false },
  EdV { pk: b"\xf9\x6e\x5d\xae\x85\x21\xdd\xdb\x3f\x6e\x95\xc4\x60\x8c\xe2\x0b\xdf\xac\x73\xbb\x3e\xbc\x5c\x45\xd4\x5b\x7b\x0e\xd9\x3f\x32\x6b", msg: b"\x02\x09", sig: b"\xa6\xc6\xa0\x46\x99\x27\xc0\x7d\x94\x42\x90\x70\x0f\x55\xe8\x7d\xb4\xee\x07\xe1\xac\x2c\x53\x04\x5d\xae\x9a\xf1\x92\xcd\xfb\x2c\x5d\x2a\x9a\x85\x03\x53\xdb\xc2\x08\x18\x86\xf0\x4a\xb4\x9b\x9b\xd8\xfc\x44\x11\x9a\x42\x3d\x32\x9e\x92\xdb\x4c\x7f\xfe\x6f\x40", ok: false },
  EdV { pk: b"\xf9\x6e\x5d\xae\x85\x21\xdd\xdb\x3f\x6e\x95\xc4\x60\x8c\xe2\x0b\xdf\xac\x73\xbb\x3e\xbc\x5c\x45\xd4\x5b\x7b\x0e\xd9\x3f\x32\x6b", msg: b"\x02\x09", sig: b"\xa6\xc6\xa0\x46\x99\x27\xc0\x7d\x94\x42\x90\x70\x0f\x55\xe8\x7d\xb4\xee\x07\xe1\xac\x2c\x53\x04\x5d\xae\x9a\xf1\x92\xcd\xfb\x2c\x4a\xfe\x8f\xe2\x1d\xb6\xed\x1a\xdf\xb4\x7d\x93\x29\xae\x7a\xb0\xd8\xfc\x44\x11\x9a\x42\x3d\x32\x9e\x92\xdb\x4c\x7f\xfe\x6f\x50", ok: false },
  EdV { pk: b"\xf9\x6e\x5d\xae\x85\x21\xdd\xdb\x3f\x6e\x95\xc4\x60\x8c\xe2\x0b\xdf\xac\x73\xbb\x3e\xbc\x5c\x45\xd4\x5b\x7b\x0e\xd9\x3f\x32\x6b", msg: b"\x02\x09", sig: b"\xa6\xc6\xa0\x46\x99\x27\xc0\x7d\x94\x42\x90\x70\x0f\x55\xe8\x7d\xb4\xee\x07\xe1\xac\x2c\x53\x04\x5d\xae\x9a\xf1\x92\xcd\xfb\x2c\x37\xd2\x85\x3f\x38\x19\x00\x73\xb5\x51\x75\x36\x08\xa8\x59\xc5\xd8\xfc\x44\x11\x9a\x42\x3d\x32\x9e\x92\xdb\x4c\x7f\xfe\x6f\x60", ok: false },
  EdV { pk: b"\xf9\x6e\x5d\xae\x85\x21\xdd\xdb\x3f\x6e\x95\xc4\x60\x8c\xe2\x0b\xdf\xac\x73\xbb\x3e\xbc\x5c\x45\xd4\x5b\x7b\x0e\xd9\x3f\x32\x6b", msg: b"\x02\x09", sig: b"\xa6\xc6\xa0\x46\x99\x27\xc0\x7d\x94\x42\x90\x70\x0f\x55\xe8\x7d\xb4\xee\x07\xe1\xac\x2c\x53\x04\x5d\xae\x9a\xf1\x92\xcd\xfb\x2c\x24\xa6\x7b\x9c\x52\x7c\x12\xcb\x8b\xee\x6c\xd9\xe6\xa1\x38\xda\xd8\xfc\x44\x11\x9a\x42\x3d\x32\x9e\x92\xdb\x4c\x7f\xfe\x6f\x70", ok: false },
  EdV { pk: b"\xf9\x6e\x5d\xae\x85\x21\xdd\xdb\x3f\x6e\x95\xc4\x60\x8c\xe2\x0b\xdf\xac\x73\xbb\x3e\xbc\x5c\x45\xd4\x5b\x7b\x0e\xd9\x3f\x32\x6b", msg: b"\x02\x09", sig: b"\xa6\xc6\xa0\x46\x99\x27\xc0\x7d\x94\x42\x90\x70\x0f\x55\xe8\x7d\xb4\xee\x07\xe1\xac\x2c\x53\x04\x5d\xae\x9a\xf1\x92\xcd\xfb\x2c\x11\x7a\x71\xf9\x6c\xdf\x24\x23\x62\x8b\x64\x7c\xc5\x9b\x17\xef\xd8\xfc\x44\x11\x9a\x42\x3d\x32\x9e\x92\xdb\x4c\x7f\xfe\x6f\x80", ok: false },
  EdV { pk: b"\xf9\x6e\x5d\xae\x85\x21\xdd\xdb\x3f\x6e\x95\xc4\x60\x8c\xe2\x0b\xdf\xac\x73\xbb\x3e\xbc\x5c\x45\xd4\x5b\x7b\x0e\xd9\x3f\x32\x6b", msg: b"\x02\x09", sig: b"\xa6\xc6\xa0\x46\x99\x27\xc0\x7d\x94\x42\x90\x70\x0f\x55\xe8\x7d\xb4\xee\x07\xe1\xac\x2c\x53\x04\x5d\xae\x9a\xf1\x92\xcd\xfb\x2c\xfe\x4d\x67\x56\x87\x42\x37\x7b\x38\x28\x5c\x1f\xa4\x95\xf6\x03\xd9\xfc\x44\x11\x9a\x42\x3d\x32\x9e\x92\xdb\x4c\x7f\xfe\x6f\x90", ok: false },
  EdV { pk: b"\xf9\x6e\x5d\xae\x85\x21\xdd\xdb\x3f\x6e\x95\xc4\x60\x8c\xe2\x0b\xdf\xac\x73\xbb\x3e\xbc\x5c\x45\xd4\x5b\x7b\x0e\xd9\x3f\x32\x6b", msg: b"\x02\x09", sig: b"\xa6\xc6\xa0\x46\x99\x27\xc0\x7d\x94\x42\x90\x70\x0f\x55\xe8\x7d\xb4\xee\x07\xe1\xac\x2c\x53\x04\x5d\xae\x9a\xf1\x92\xcd\xfb\x2c\xeb\x21\x5d\xb3\xa1\xa5\x49\xd3\x0e\xc5\x53\xc2\x82\x8f\xd5\x18\xd9\xfc\x44\x11\x9a\x42\x3d\x32\x9e\x92\xdb\x4c\x7f\xfe\x6f\xa0", ok: false },
  EdV { pk: b"\xf9\x6e\x5d\xae\x85\x21\xdd\xdb\x3f\x6e\x95\xc4\x60\x8c\xe2\x0b\xdf\xac\x73\xbb\x3e\xbc\x5c\x45\xd4\x5b\x7b\x0e\xd9\x3f\x32\x6b", msg: b"\x02\x09", sig: b"\xa6\xc6\xa0\x46\x99\x27\xc0\x7d\x94\x42\x90\x70\x0f\x55\xe8\x7d\xb4\xee\x07\xe1\xac\x2c\x53\x04\x5d\xae\x9a\xf1\x92\xcd\xfb\x2c\xd8\xf5\x52\x10\xbc\x08\x5c\x2b\xe5\x61\x4b\x65\x61\x89\xb4\x2d\xd9\xfc\x44\x11\x9a\x42\x3d\x32\x9e\x92\xdb\x4c\x7f\xfe\x6f\xb0", ok: false },
  EdV { pk: b"\xf9\x6e\x5d\xae\x85\x21\xdd\xdb\x3f\x6e\x95\xc4\x60\x8c\xe2\x0b\xdf\xac\x73\xbb\x3e\xbc\x5c\x45\xd4\x5b\x7b\x0e\xd9\x3f\x32\x6b", msg: b"\x02\x09", sig: b"\xa6\xc6\xa0\x46\x99\x27\xc0\x7d\x94\x42\x90\x70\x0f\x55\xe8\x7d\xb4\xee\x07\xe1\xac\x2c\x53\x04\x5d\xae\x9a\xf1\x92\xcd\xfb\x2c\xc5\xc9\x48\x6d\xd6\x6b\x6e\x83\xbb\xfe\x42\x08\x40\x83\x93\x42\xd9\xfc\x44\x11\x9a\x42\x3d\x32\x9e\x92\xdb\x4c\x7f\xfe\x6f\xc0", ok: false },
  EdV { pk: b"\xf9\x6e\x5d\xae\x85\x21\xdd\xdb\x3f\x6e\x95\xc4\x60\x8c\xe2\x0b\xdf\xac\x73\xbb\x3e\xbc\x5c\x45\xd4\x5b\x7b\x0e\xd9\x3f\x32\x6b", msg: b"\x02\x09", sig: b"\xa6\xc6\xa0\x46\x99\x27\xc0\x7d\x94\x42\x90\x70\x0f\x55\xe8\x7d\xb4\xee\x07\xe1\xac\x2c\x53\x04\x5d\xae\x9a\xf1\x92\xcd\xfb\x2c\xb2\x9d\x3e\xca\xf0\xce\x80\xdb\x91\x9b\x3a\xab\x1e\x7d\x72\x57\xd9\xfc\x44\x11\x9a\x42\x3d\x32\x9e\x92\xdb\x4c\x7f\xfe\x6f\xd0", ok: false },
  EdV { pk: b"\xf9\x6e\x5d\xae\x85\x21\xdd\xdb\x3f\x6e\x95\xc4\x60\x8c\xe2\x0b\xdf\xac\x73\xbb\x3e\xbc\x5c\x45\xd4\x5b\x7b\x0e\xd9\x3f\x32\x6b", msg: b"\x02\x09", sig: b"\xa6\xc6\xa0\x46\x99\x27\xc0\x7d\x94\x42\x90\x70\x0f\x55\xe8\x7d\xb4\xee\x07\xe1\xac\x2c\x53\x04\x5d\xae\x9a\xf1\x92\xcd\xfb\x2c\x9f\x71\x34\x27\x0b\x32\x93\x33\x68\x38\x32\x4e\xfd\x76\x51\x6c\xd9\xfc\x44\x11\x9a\x42\x3d\x32\x9e\x92\xdb\x4c\x7f\xfe\x6f\xe0", ok: false },
  EdV { pk: b"\xf9\x6e\x5d\xae\x85\x21\xdd\xdb\x3f\x6e\x95\xc4\x60\x8c\xe2\x0b\xdf\xac\x73\xbb\x3e\xbc\x5c\x45\xd4\x5b\x7b\x0e\xd9\x3f\x32\x6b", msg: b"\x02\x09", sig: b"\xa6\xc6\xa0\x46\x99\x27\xc0\x7d\x94\x42\x90\x70\x0f\x55\xe8\x7d\xb4\xee\x07\xe1\xac\x2c\x53\x04\x5d\xae\x9a\xf1\x92\xcd\xfb\x2c\x44\xf9\x32\x4b\x80\x9c\x80\xf5\x26\xf8\x4f\x3e\x0e\x2d\xbf\xcc\x27\x03\xbb\xee\x65\xbd\xc2\xcd\x61\x6d\x24\xb3\x80\x01\x90\x0f", ok: false },
  EdV { pk: b"\xf9\x6e\x5d\xae\x85\x21\xdd\xdb\x3f\x6e\x95\xc4\x60\x8c\xe2\x0b\xdf\xac\x73\xbb\x3e\xbc\x5c\x45\xd4\x5b\x7b\x0e\xd9\x3f\x32\x6b", msg: b"\x02\x09", sig: b"\xa6\xc6\xa0\x46\x99\x27\xc0\x7d\x94\x42\x90\x70\x0f\x55\xe8\x7d\xb4\xee\x07\xe1\xac\x2c\x53\x04\x5d\xae\x9a\xf1\x92\xcd\xfb\xac\xa9\xda\xc2\x11\x9a\xc6\x91\x62\xaf\xa4\xa7\x64\xd0\xcc\x1f\x48\xd8\xfc\x44\x11\x9a\x42\x3d\x32\x9e\x92\xdb\x4c\x7f\xfe\x6f\x00", ok: false },
  EdV { pk: b"\xf9\x6e\x5d\xae\x85\x21\xdd\xdb\x3f\x6e\x95\xc4\x60\x8c\xe2\x0b\xdf\xac\x73\xbb\x3e\xbc\x5c\x45\xd4\x5b\x7b\x0e\xd9\x3f\x32\x6b", msg: b"\x02\x09\x78", sig: b"\xa6\xc6\xa0\x46\x99\x27\xc0\x7d\x94\x42\x90\x70\x0f\x55\xe8\x7d\xb4\xee\x07\xe1\xac\x2c\x53\x04\x5d\xae\x9a\xf1\x92\xcd\xfb\x2c\xa9\xda\xc2\x11\x9a\xc6\x91\x62\xaf\xa4\xa7\x64\xd0\xcc\x1f\x48\xd8\xfc\x44\x11\x9a\x42\x3d\x32\x9e\x92\xdb\x4c\x7f\xfe\x6f\x00", ok: false },
  EdV { pk: b"\xf9\x6e\x5d\xae\x85\x21\xdd\xdb\x3f\x6e\x95\xc4\x60\x8c\xe2\x0b\xdf\xac\x73\xbb\x3e\xbc\x5c\x45\xd4\x5b\x7b\x0e\xd9\x3f\x32\x6b", msg: b"\x02\x09", sig: b"\xa6\xc6\xa0\x46\x99\x27\xc0\x7d\x94\x42\x90\x70\x0f\x55\xe8\x7d\xb4\xee\x07\xe1\xac\x2c\x53\x04\x5d\xae\x9a\xf1\x92\xcd\xfb\x2c\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: false },
  EdV { pk: b"\xf9\x6e\x5d\xae\x85\x21\xdd\xdb\x3f\x6e\x95\xc4\x60\x8c\xe2\x0b\xdf\xac\x73\xbb\x3e\xbc\x5c\x45\xd4\x5b\x7b\x0e\xd9\x3f\x32\x6b", msg: b"\x02\x09", sig: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: false },
  EdV { pk: b"\xf9\x6e\x5d\xae\x85\x21\xdd\xdb\x3f\x6e\x95\xc4\x60\x8c\xe2\x0b\xdf\xac\x73\xbb\x3e\xbc\x5c\x45\xd4\x5b\x7b\x0e\xd9\x3f\x32\x6b", msg: b"\x02\x09", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xa9\xda\xc2\x11\x9a\xc6\x91\x62\xaf\xa4\xa7\x64\xd0\xcc\x1f\x48\xd8\xfc\x44\x11\x9a\x42\x3d\x32\x9e\x92\xdb\x4c\x7f\xfe\x6f\x00", ok: false },
  EdV { pk: b"\xf9\x6e\x5d\xae\x85\x21\xdd\xdb\x3f\x6e\x95\xc4\x60\x8c\xe2\x0b\xdf\xac\x73\xbb\x3e\xbc\x5c\x45\xd4\x5b\x7b\x0e\xd9\x3f\x32\x6b", msg: b"\x02\x09", sig: b"\xa9\xda\xc2\x11\x9a\xc6\x91\x62\xaf\xa4\xa7\x64\xd0\xcc\x1f\x48\xd8\xfc\x44\x11\x9a\x42\x3d\x32\x9e\x92\xdb\x4c\x7f\xfe\x6f\x00\xa6\xc6\xa0\x46\x99\x27\xc0\x7d\x94\x42\x90\x70\x0f\x55\xe8\x7d\xb4\xee\x07\xe1\xac\x2c\x53\x04\x5d\xae\x9a\xf1\x92\xcd\xfb\x2c", ok: false },
  EdV { pk: b"\xf9\x6e\x5d\xae\x85\x21\xdd\xdb\x3f\x6e\x95\xc4\x60\x8c\xe2\x0b\xdf\xac\x73\xbb\x3e\xbc\x5c\x45\xd4\x5b\x7b\x0e\xd9\x3f\x32\xeb", msg: b"\x02\x09", sig: b"\xa6\xc6\xa0\x46\x99\x27\xc0\x7d\x94\x42\x90\x70\x0f\x55\xe8\x7d\xb4\xee\x07\xe1\xac\x2c\x53\x04\x5d\xae\x9a\xf1\x92\xcd\xfb\x2c\xa9\xda\xc2\x11\x9a\xc6\x91\x62\xaf\xa4\xa7\x64\xd0\xcc\x1f\x48\xd8\xfc\x44\x11\x9a\x42\x3d\x32\x9e\x92\xdb\x4c\x7f\xfe\x6f\x00", ok: false },
  EdV { pk: b"\x81\x1f\x94\x0a\xd7\x0e\xeb\xe0\x38\x81\x3f\xda\x13\x1b\x7a\x42\x16\x1c\x50\x70\xc4\xd0\xb5\xbe\x8f\xa1\x70\xdc\xb7\x7e\x8a\x5f", msg: b"\x03\x0a\x11\x18\x1f\x26\x2d\x34\x3b\x42\x49\x50\x57\x5e\x65\x6c\x73\x7a\x81\x88", sig: b"\xed\xf0\x0b\xaf\x2e\x56\xb7\x2e\x31\xaf\x69\x43\xf2\x3c\x2c\x6f\xd5\x8b\x21\x01\x88\x17\x2b\xb8\x4c\x75\xc1\x97\x5b\xfc\xca\x55\x18\x0a\x76\x71\x7f\x95\x36\xc7\x1e\x34\x1d\x0e\x7b\xdb\xf6\xfd\xbf\xd1\x41\x98\x32\xc9\x12\x10\x6d\x7c\x4c\x78\x9d\x6e\xc9\x01", ok: true },
  EdV { pk: b"\x81\x1f\x94\x0a\xd7\x0e\xeb\xe0\x38\x81\x3f\xda\x13\x1b\x7a\x42\x16\x1c\x50\x70\xc4\xd0\xb5\xbe\x8f\xa1\x70\xdc\xb7\x7e\x8a\x5f", msg: b"\x03\x0a\x11\x18\x1f\x26\x2d\x34\x3b\x42\x49\x50\x57\x5e\x65\x6c\x73\x7a\x81\x88", sig: b"\xed\xf0\x0b\xaf\x2e\x56\xb7\x2e\x31\xaf\x69\x43\xf2\x3c\x2c\x6f\xd5\x8b\x21\x01\x88\x17\x2b\xb8\x4c\x75\xc1\x97\x5b\xfc\xca\x55\x05\xde\x6b\xce\x99\xf8\x48\x1f\xf5\xd0\x14\xb1\x59\xd5\xd5\x12\xc0\xd1\x41\x98\x32\xc9\x12\x10\x6d\x7c\x4c\x78\x9d\x6e\xc9\x11", ok: false },
  EdV { pk: b"\x81\x1f\x94\x0a\xd7\x0e\xeb\xe0\x38\x81\x3f\xda\x13\x1b\x7a\x42\x16\x1c\x50\x70\xc4\xd0\xb5\xbe\x8f\xa1\x70\xdc\xb7\x7e\x8a\x5f", msg: b"\x03\x0a\x11\x18\x1f\x26\x2d\x34\x3b\x42\x49\x50\x57\x5e\x65\x6c\x73\x7a\x81\x88", sig: b"\xed\xf0\x0b\xaf\x2e\x56\xb7\x2e\x31\xaf\x69\x43\xf2\x3c\x2c\x6f\xd5\x8b\x21\x01\x88\x17\x2b\xb8\x4c\x75\xc1\x97\x5b\xfc\xca\x55\xf2\xb1\x61\x2b\xb4\x5b\x5b\x77\xcb\x6d\x0c\x54\x38\xcf\xb4\x27\xc0\xd1\x41\x98\x32\xc9\x12\x10\x6d\x7c\x4c\x78\x9d\x6e\xc9\x21", ok: false },
  EdV { pk: b"\x81\x1f\x94\x0a\xd7\x0e\xeb\xe0\x38\x81\x3f\xda\x13\x1b\x7a\x42\x16\x1c\x50\x70\xc4\xd0\xb5\xbe\x8f\xa1\x70\xdc\xb7\x7e\x8a\x5f", msg: b"\x03\x0a\x11\x18\x1f\x26\x2d\x34\x3b\x42\x49\x50\x57\x5e\x65\x6c\x73\x7a\x81\x88", sig: b"\xed\xf0\x0b\xaf\x2e\x56\xb7\x2e\x31\xaf\x69\x43\xf2\x3c\x2c\x6f\xd5\x8b\x21\x01\x88\x17\x2b\xb8\x4c\x75\xc1\x97\x5b\xfc\xca\x55\xdf\x85\x57\x88\xce\xbe\x6d\xcf\xa1\x0a\x04\xf7\x16\xc9\x93\x3c\xc0\xd1\x41\x98\x32\xc9\x12\x10\x6d\x7c\x4c\x78\x9d\x6e\xc9\x31", ok: false },
  EdV { pk: b"\x81\x1f\x94\x0a\xd7\x0e\xeb\xe0\x38\x81\x3f\xda\x13\x1b\x7a\x42\x16\x1c\x50\x70\xc4\xd0\xb5\xbe\x8f\xa1\x70\xdc\xb7\x7e\x8a\x5f", msg: b"\x03\x0a\x11\x18\x1f\x26\x2d\x34\x3b\x42\x49\x50\x57\x5e\x65\x6c\x73\x7a\x81\x88", sig: b"\xed\xf0\x0b\xaf\x2e\x56\xb7\x2e\x31\xaf\x69\x43\xf2\x3c\x2c\x6f\xd5\x8b\x21\x01\x88\x17\x2b\xb8\x4c\x75\xc1\x97\x5b\xfc\xca\x55\xcc\x59\x4d\xe5\xe8\x21\x80\x27\x78\xa7\xfb\x99\xf5\xc2\x72\x51\xc0\xd1\x41\x98\x32\xc9\x12\x10\x6d\x7c\x4c\x78\x9d\x6e\xc9\x41", ok: false },
  EdV { pk: b"\x81\x1f\x94\x0a\xd7\x0e\xeb\xe0\x38\x81\x3f\xda\x13\x1b\x7a\x42\x16\x1c\x50\x70\xc4\xd0\xb5\xbe\x8f\xa1\x70\xdc\xb7\x7e\x8a\x5f", msg: b"\x03\x0a\x11\x18\x1f\x26\x2d\x34\x3b\x42\x49\x50\x57\x5e\x65\x6c\x73\x7a\x81\x88", sig: b"\xed\xf0\x0b\xaf\x2e\x56\xb7\x2e\x31\xaf\x69\x43\xf2\x3c\x2c\x6f\xd5\x8b\x21\x01\x88\x17\x2b\xb8\x4c\x75\xc1\x97\x5b\xfc\xca\x55\xb9\x2d\x43\x42\x03\x85\x92\x7f\x4e\x44\xf3\x3c\xd4\xbc\x51\x66\xc0\xd1\x41\x98\x32\xc9\x12\x10\x6d\x7c\x4c\x78\x9d\x6e\xc9\x51", ok: false },
  EdV { pk: b"\x81\x1f\x94\x0a\xd7\x0e\xeb\xe0\x38\x81\x3f\xda\x13\x1b\x7a\x42\x16\x1c\x50\x70\xc4\xd0\xb5\xbe\x8f\xa1\x70\xdc\xb7\x7e\x8a\x5f", msg: b"\x03\x0a\x11\x18\x1f\x26\x2d\x34\x3b\x42\x49\x50\x57\x5e\x65\x6c\x73\x7a\x81\x88", sig: b"\xed\xf0\x0b\xaf\x2e\x56\xb7\x2e\x31\xaf\x69\x43\xf2\x3c\x2c\x6f\xd5\x8b\x21\x01\x88\x17\x2b\xb8\x4c\x75\xc1\x97\x5b\xfc\xca\x55\xa6\x01\x39\x9f\x1d\xe8\xa4\xd7\x24\xe1\xea\xdf\xb2\xb6\x30\x7b\xc0\xd1\x41\x98\x32\xc9\x12\x10\x6d\x7c\x4c\x78\x9d\x6e\xc9\x61", ok: false },
  EdV { pk: b"\x81\x1f\x94\x0a\xd7\x0e\xeb\xe0\x38\x81\x3f\xda\x13\x1b\x7a\x42\x16\x1c\x50\x70\xc4\xd0\xb5\xbe\x8f\xa1\x70\xdc\xb7\x7e\x8a\x5f", msg: b"\x03\x0a\x11\x18\x1f\x26\x2d\x34\x3b\x42\x49\x50\x57\x5e\x65\x6c\x73\x7a\x81\x88", sig: b"\xed\xf0\x0b\xaf\x2e\x56\xb7\x2e\x31\xaf\x69\x43\xf2\x3c\x2c\x6f\xd5\x8b\x21\x01\x88\x17\x2b\xb8\x4c\x75\xc1\x97\x5b\xfc\xca\x55\x93\xd5\x2e\xfc\x37\x4b\xb7\x2f\xfb\x7d\xe2\x82\x91\xb0\x0f\x90\xc0\xd1\x41\x98\x32\xc9\x12\x10\x6d\x7c\x4c\x78\x9d\x6e\xc9\x71", ok: false },
  EdV { pk: b"\x81\x1f\x94\x0a\xd7\x0e\xeb\xe0\x38\x81\x3f\xda\x13\x1b\x7a\x42\x16\x1c\x50\x70\xc4\xd0\xb5\xbe\x8f\xa1\x70\xdc\xb7\x7e\x8a\x5f", msg: b"\x03\x0a\x11\x18\x1f\x26\x2d\x34\x3b\x42\x49\x50\x57\x5e\x65\x6c\x73\x7a\x81\x88", sig: b"\xed\xf0\x0b\xaf\x2e\x56\xb7\x2e\x31\xaf\x69\x43\xf2\x3c\x2c\x6f\xd5\x8b\x21\x01\x88\x17\x2b\xb8\x4c\x75\xc1\x97\x5b\xfc\xca\x55\x80\xa9\x24\x59\x52\xae\xc9\x87\xd1\x1a\xda\x25\x70\xaa\xee\xa4\xc0\xd1\x41\x98\x32\xc9\x12\x10\x6d\x7c\x4c\x78\x9d\x6e\xc9\x81", ok: false },
  EdV { pk: b"\x81\x1f\x94\x0a\xd7\x0e\xeb\xe0\x38\x81\x3f\xda\x13\x1b\x7a\x42\x16\x1c\x50\x70\xc4\xd0\xb5\xbe\x8f\xa1\x70\xdc\xb7\x7e\x8a\x5f", msg: b"\x03\x0a\x11\x18\x1f\x26\x2d\x34\x3b\x42\x49\x50\x57\x5e\x65\x6c\x73\x7a\x81\x88", sig: b"\xed\xf0\x0b\xaf\x2e\x56\xb7\x2e\x31\xaf\x69\x43\xf2\x3c\x2c\x6f\xd5\x8b\x21\x01\x88\x17\x2b\xb8\x4c\x75\xc1\x97\x5b\xfc\xca\x55\x6d\x7d\x1a\xb6\x6c\x11\xdc\xdf\xa7\xb7\xd1\xc8\x4e\xa4\xcd\xb9\xc0\xd1\x41\x98\x32\xc9\x12\x10\x6d\x7c\x4c\x78\x9d\x6e\xc9\x91", ok: false },
  EdV { pk: b"\x81\x1f\x94\x0a\xd7\x0e\xeb\xe0\x38\x81\x3f\xda\x13\x1b\x7a\x42\x16\x1c\x50\x70\xc4\xd0\xb5\xbe\x8f\xa1\x70\xdc\xb7\x7e\x8a\x5f", msg: b"\x03\x0a\x11\x18\x1f\x26\x2d\x34\x3b\x42\x49\x50\x57\x5e\x65\x6c\x73\x7a\x81\x88", sig: b"\xed\xf0\x0b\xaf\x2e\x56\xb7\x2e\x31\xaf\x69\x43\xf2\x3c\x2c\x6f\xd5\x8b\x21\x01\x88\x17\x2b\xb8\x4c\x75\xc1\x97\x5b\xfc\xca\x55\x5a\x51\x10\x13\x87\x74\xee\x37\x7e\x54\xc9\x6b\x2d\x9e\xac\xce\xc0\xd1\x41\x98\x32\xc9\x12\x10\x6d\x7c\x4c\x78\x9d\x6e\xc9\xa1", ok: false },
  EdV { pk: b"\x81\x1f\x94\x0a\xd7\x0e\xeb\xe0\x38\x81\x3f\xda\x13\x1b\x7a\x42\x16\x1c\x50\x70\xc4\xd0\xb5\xbe\x8f\xa1\x70\xdc\xb7\x7e\x8a\x5f", msg: b"\x03\x0a\x11\x18\x1f\x26\x2d\x34\x3b\x42\x49\x50\x57\x5e\x65\x6c\x73\x7a\x81\x88", sig: b"\xed\xf0\x0b\xaf\x2e\x56\xb7\x2e\x31\xaf\x69\x43\xf2\x3c\x2c\x6f\xd5\x8b\x21\x01\x88\x17\x2b\xb8\x4c\x75\xc1\x97\x5b\xfc\xca\x55\x47\x25\x06\x70\xa1\xd7\x00\x90\x54\xf1\xc0\x0e\x0c\x98\x8b\xe3\xc0\xd1\x41\x98\x32\xc9\x12\x10\x6d\x7c\x4c\x78\x9d\x6e\xc9\xb1", ok: false },
  EdV { pk: b"\x81\x1f\x94\x0a\xd7\x0e\xeb\xe0\x38\x81\x3f\xda\x13\x1b\x7a\x42\x16\x1c\x50\x70\xc4\xd0\xb5\xbe\x8f\xa1\x70\xdc\xb7\x7e\x8a\x5f", msg: b"\x03\x0a\x11\x18\x1f\x26\x2d\x34\x3b\x42\x49\x50\x57\x5e\x65\x6c\x73\x7a\x81\x88", sig: b"\xed\xf0\x0b\xaf\x2e\x56\xb7\x2e\x31\xaf\x69\x43\xf2\x3c\x2c\x6f\xd5\x8b\x21\x01\x88\x17\x2b\xb8\x4c\x75\xc1\x97\x5b\xfc\xca\x55\x34\xf9\xfb\xcc\xbb\x3a\x13\xe8\x2a\x8e\xb8\xb1\xea\x91\x6a\xf8\xc0\xd1\x41\x98\x32\xc9\x12\x10\x6d\x7c\x4c\x78\x9d\x6e\xc9\xc1", ok: false },
  EdV { pk: b"\x81\x1f\x94\x0a\xd7\x0e\xeb\xe0\x38\x81\x3f\xda\x13\x1b\x7a\x42\x16\x1c\x50\x70\xc4\xd0\xb5\xbe\x8f\xa1\x70\xdc\xb7\x7e\x8a\x5f", msg: b"\x03\x0a\x11\x18\x1f\x26\x2d\x34\x3b\x42\x49\x50\x57\x5e\x65\x6c\x73\x7a\x81\x88", sig: b"\xed\xf0\x0b\xaf\x2e\x56\xb7\x2e\x31\xaf\x69\x43\xf2\x3c\x2c\x6f\xd5\x8b\x21\x01\x88\x17\x2b\xb8\x4c\x75\xc1\x97\x5b\xfc\xca\x55\x21\xcd\xf1\x29\xd6\x9d\x25\x40\x01\x2b\xb0\x54\xc9\x8b\x49\x0d\xc1\xd1\x41\x98\x32\xc9\x12\x10\x6d\x7c\x4c\x78\x9d\x6e\xc9\xd1", ok: false },
  EdV { pk: b"\x81\x1f\x94\x0a\xd7\x0e\xeb\xe0\x38\x81\x3f\xda\x13\x1b\x7a\x42\x16\x1c\x50\x70\xc4\xd0\xb5\xbe\x8f\xa1\x70\xdc\xb7\x7e\x8a\x5f", msg: b"\x03\x0a\x11\x18\x1f\x26\x2d\x34\x3b\x42\x49\x50\x57\x5e\x65\x6c\x73\x7a\x81\x88", sig: b"\xed\xf0\x0b\xaf\x2e\x56\xb7\x2e\x31\xaf\x69\x43\xf2\x3c\x2c\x6f\xd5\x8b\x21\x01\x88\x17\x2b\xb8\x4c\x75\xc1\x97\x5b\xfc\xca\x55\x0e\xa1\xe7\x86\xf0\x00\x38\x98\xd7\xc7\xa7\xf7\xa7\x85\x28\x22\xc1\xd1\x41\x98\x32\xc9\x12\x10\x6d\x7c\x4c\x78\x9d\x6e\xc9\xe1", ok: false },
  EdV { pk: b"\x81\x1f\x94\x0a\xd7\x0e\xeb\xe0\x38\x81\x3f\xda\x13\x1b\x7a\x42\x16\x1c\x50\x70\xc4\xd0\xb5\xbe\x8f\xa1\x70\xdc\xb7\x7e\x8a\x5f", msg: b"\x03\x0a\x11\x18\x1f\x26\x2d\x34\x3b\x42\x49\x50\x57\x5e\x65\x6c\x73\x7a\x81\x88", sig: b"\xed\xf0\x0b\xaf\x2e\x56\xb7\x2e\x31\xaf\x69\x43\xf2\x3c\x2c\x6f\xd5\x8b\x21\x01\x88\x17\x2b\xb8\x4c\x75\xc1\x97\x5b\xfc\xca\x55\xd5\xc9\x7f\xeb\x9a\xcd\xdb\x90\xb7\x68\xda\x94\x63\x1e\xe8\x16\x40\x2e\xbe\x67\xcd\x36\xed\xef\x92\x83\xb3\x87\x62\x91\x36\x0e", ok: false },
  EdV { pk: b"\x81\x1f\x94\x0a\xd7\x0e\xeb\xe0\x38\x81\x3f\xda\x13\x1b\x7a\x42\x16\x1c\x50\x70\xc4\xd0\xb5\xbe\x8f\xa1\x70\xdc\xb7\x7e\x8a\x5f", msg: b"\x03\x0a\x11\x18\x1f\x26\x2d\x34\x3b\x42\x49\x50\x57\x5e\x65\x6c\x73\x7a\x81\x88", sig: b"\xed\xf0\x0b\xaf\x2e\x56\xb7\x2e\x31\xaf\x69\x43\xf2\x3c\x2c\x6f\xd5\x8b\x21\x01\x88\x17\x2b\xb8\x4c\x75\xc1\x97\x5b\xfc\xca\xd5\x18\x0a\x76\x71\x7f\x95\x36\xc7\x1e\x34\x1d\x0e\x7b\xdb\xf6\xfd\xbf\xd1\x41\x98\x32\xc9\x12\x10\x6d\x7c\x4c\x78\x9d\x6e\xc9\x01", ok: false },
  EdV { pk: b"\x81\x1f\x94\x0a\xd7\x0e\xeb\xe0\x38\x81\x3f\xda\x13\x1b\x7a\x42\x16\x1c\x50\x70\xc4\xd0\xb5\xbe\x8f\xa1\x70\xdc\xb7\x7e\x8a\x5f", msg: b"\x03\x0a\x11\x18\x1f\x26\x2d\x34\x3b\x42\x49\x50\x57\x5e\x65\x6c\x73\x7a\x81\x88\x78", sig: b"\xed\xf0\x0b\xaf\x2e\x56\xb7\x2e\x31\xaf\x69\x43\xf2\x3c\x2c\x6f\xd5\x8b\x21\x01\x88\x17\x2b\xb8\x4c\x75\xc1\x97\x5b\xfc\xca\x55\x18\x0a\x76\x71\x7f\x95\x36\xc7\x1e\x34\x1d\x0e\x7b\xdb\xf6\xfd\xbf\xd1\x41\x98\x32\xc9\x12\x10\x6d\x7c\x4c\x78\x9d\x6e\xc9\x01", ok: false },
  EdV { pk: b"\x81\x1f\x94\x0a\xd7\x0e\xeb\xe0\x38\x81\x3f\xda\x13\x1b\x7a\x42\x16\x1c\x50\x70\xc4\xd0\xb5\xbe\x8f\xa1\x70\xdc\xb7\x7e\x8a\x5f", msg: b"\x03\x0a\x11\x18\x1f\x26\x2d\x34\x3b\x42\x49\x50\x57\x5e\x65\x6c\x73\x7a\x81\x88", sig: b"\xed\xf0\x0b\xaf\x2e\x56\xb7\x2e\x31\xaf\x69\x43\xf2\x3c\x2c\x6f\xd5\x8b\x21\x01\x88\x17\x2b\xb8\x4c\x75\xc1\x97\x5b\xfc\xca\x55\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: false },
  EdV { pk: b"\x81\x1f\x94\x0a\xd7\x0e\xeb\xe0\x38\x81\x3f\xda\x13\x1b\x7a\x42\x16\x1c\x50\x70\xc4\xd0\xb5\xbe\x8f\xa1\x70\xdc\xb7\x7e\x8a\x5f", msg: b"\x03\x0a\x11\x18\x1f\x26\x2d\x34\x3b\x42\x49\x50\x57\x5e\x65\x6c\x73\x7a\x81\x88", sig: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: false },
  EdV { pk: b"\x81\x1f\x94\x0a\xd7\x0e\xeb\xe0\x38\x81\x3f\xda\x13\x1b\x7a\x42\x16\x1c\x50\x70\xc4\xd0\xb5\xbe\x8f\xa1\x70\xdc\xb7\x7e\x8a\x5f", msg: b"\x03\x0a\x11\x18\x1f\x26\x2d\x34\x3b\x42\x49\x50\x57\x5e\x65\x6c\x73\x7a\x81\x88", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x18\x0a\x76\x71\x7f\x95\x36\xc7\x1e\x34\x1d\x0e\x7b\xdb\xf6\xfd\xbf\xd1\x41\x98\x32\xc9\x12\x10\x6d\x7c\x4c\x78\x9d\x6e\xc9\x01", ok: false },
  EdV { pk: b"\x81\x1f\x94\x0a\xd7\x0e\xeb\xe0\x38\x81\x3f\xda\x13\x1b\x7a\x42\x16\x1c\x50\x70\xc4\xd0\xb5\xbe\x8f\xa1\x70\xdc\xb7\x7e\x8a\x5f", msg: b"\x03\x0a\x11\x18\x1f\x26\x2d\x34\x3b\x42\x49\x50\x57\x5e\x65\x6c\x73\x7a\x81\x88", sig: b"\x18\x0a\x76\x71\x7f\x95\x36\xc7\x1e\x34\x1d\x0e\x7b\xdb\xf6\xfd\xbf\xd1\x41\x98\x32\xc9\x12\x10\x6d\x7c\x4c\x78\x9d\x6e\xc9\x01\xed\xf0\x0b\xaf\x2e\x56\xb7\x2e\x31\xaf\x69\x43\xf2\x3c\x2c\x6f\xd5\x8b\x21\x01\x88\x17\x2b\xb8\x4c\x75\xc1\x97\x5b\xfc\xca\x55", ok: false },
  EdV { pk: b"\x81\x1f\x94\x0a\xd7\x0e\xeb\xe0\x38\x81\x3f\xda\x13\x1b\x7a\x42\x16\x1c\x50\x70\xc4\xd0\xb5\xbe\x8f\xa1\x70\xdc\xb7\x7e\x8a\xdf", msg: b"\x03\x0a\x11\x18\x1f\x26\x2d\x34\x3b\x42\x49\x50\x57\x5e\x65\x6c\x73\x7a\x81\x88", sig: b"\xed\xf0\x0b\xaf\x2e\x56\xb7\x2e\x31\xaf\x69\x43\xf2\x3c\x2c\x6f\xd5\x8b\x21\x01\x88\x17\x2b\xb8\x4c\x75\xc1\x97\x5b\xfc\xca\x55\x18\x0a\x76\x71\x7f\x95\x36\xc7\x1e\x34\x1d\x0e\x7b\xdb\xf6\xfd\xbf\xd1\x41\x98\x32\xc9\x12\x10\x6d\x7c\x4c\x78\x9d\x6e\xc9\x01", ok: false },
  EdV { pk: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x00", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: true },
  EdV { pk: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x00", sig: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: false },
  EdV { pk: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x01", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: true },
  EdV { pk: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x02", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: true },
  EdV { pk: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x02", sig: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: false },
  EdV { pk: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x03", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: true },
  EdV { pk: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x04", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: true },
  EdV { pk: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x04", sig: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: false },
  EdV { pk: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x05", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: true },
  EdV { pk: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x06", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: true },
  EdV { pk: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x06", sig: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: false },
  EdV { pk: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x07", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: true },
  EdV { pk: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x08", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: true },
  EdV { pk: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x08", sig: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: false },
  EdV { pk: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x09", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: true },
  EdV { pk: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x0a", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: true },
  EdV { pk: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x0a", sig: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: false },
  EdV { pk: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x0b", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: true },
  EdV { pk: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\x7a", msg: b"\x00", sig: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: true },
  EdV { pk: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\x7a", msg: b"\x00", sig: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: false },
  EdV { pk: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\x7a", msg: b"\x02", sig: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\xfa\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: true },
  EdV { pk: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\x7a", msg: b"\x03", sig: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x85\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: true },
  EdV { pk: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\x7a", msg: b"\x03", sig: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: false },
  EdV { pk: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\x7a", msg: b"\x07", sig: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: true },
  EdV { pk: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\x7a", msg: b"\x08", sig: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: true },
  EdV { pk: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\x7a", msg: b"\x08", sig: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: true },
  EdV { pk: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\x7a", msg: b"\x09", sig: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: true },
  EdV { pk: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\x7a", msg: b"\x0a", sig: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\x7a\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: true },
  EdV { pk: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\x7a", msg: b"\x0a", sig: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: false },
  EdV { pk: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", msg: b"\x00", sig: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: true },
  EdV { pk: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", msg: b"\x02", sig: b"\xec\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: true },
  EdV { pk: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", msg: b"\x02", sig: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: false },
  EdV { pk: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", msg: b"\x03", sig: b"\xec\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: true },
  EdV { pk: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", msg: b"\x05", sig: b"\xec\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: true },
  EdV { pk: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", msg: b"\x05", sig: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: false },
  EdV { pk: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", msg: b"\x06", sig: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: true },
  EdV { pk: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", msg: b"\x07", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: true },
  EdV { pk: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", msg: b"\x07", sig: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: false },
  EdV { pk: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", msg: b"\x09", sig: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: true },
  EdV { pk: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05", msg: b"\x01", sig: b"\xec\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: true },
  EdV { pk: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05", msg: b"\x01", sig: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: false },
  EdV { pk: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05", msg: b"\x04", sig: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: true },
  EdV { pk: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05", msg: b"\x06", sig: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: true },
  EdV { pk: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05", msg: b"\x06", sig: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: true },
  EdV { pk: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05", msg: b"\x08", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: true },
  EdV { pk: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05", msg: b"\x09", sig: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: true },
  EdV { pk: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05", msg: b"\x09", sig: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: false },
  EdV { pk: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05", msg: b"\x0a", sig: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: true },
  EdV { pk: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05", msg: b"\x0b", sig: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\x7a\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: true },
  EdV { pk: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05", msg: b"\x0b", sig: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: false },
  EdV { pk: b"\xec\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f", msg: b"\x00", sig: b"\xec\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: true },
  EdV { pk: b"\xec\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f", msg: b"\x01", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: true },
  EdV { pk: b"\xec\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f", msg: b"\x01", sig: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: false },
  EdV { pk: b"\xec\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f", msg: b"\x02", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: true },
  EdV { pk: b"\xec\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f", msg: b"\x06", sig: b"\xec\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: true },
  EdV { pk: b"\xec\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f", msg: b"\x06", sig: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: false },
  EdV { pk: b"\xec\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f", msg: b"\x07", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: true },
  EdV { pk: b"\xec\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f", msg: b"\x08", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: true },
  EdV { pk: b"\xec\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f", msg: b"\x08", sig: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: false },
  EdV { pk: b"\xec\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f", msg: b"\x0b", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: true },
  EdV { pk: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x85", msg: b"\x00", sig: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: true },
  EdV { pk: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x85", msg: b"\x00", sig: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: false },
  EdV { pk: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x85", msg: b"\x01", sig: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: true },
  EdV { pk: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x85", msg: b"\x02", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: true },
  EdV { pk: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x85", msg: b"\x02", sig: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: false },
  EdV { pk: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x85", msg: b"\x04", sig: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: true },
  EdV { pk: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x85", msg: b"\x05", sig: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x85\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: true },
  EdV { pk: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x85", msg: b"\x05", sig: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: false },
  EdV { pk: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x85", msg: b"\x06", sig: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\x7a\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: true },
  EdV { pk: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x85", msg: b"\x07", sig: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: true },
  EdV { pk: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x85", msg: b"\x07", sig: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: false },
  EdV { pk: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x85", msg: b"\x08", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: true },
  EdV { pk: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x85", msg: b"\x0b", sig: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: true },
  EdV { pk: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x85", msg: b"\x0b", sig: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: false },
  EdV { pk: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x01", sig: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: true },
  EdV { pk: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x03", sig: b"\xec\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: true },
  EdV { pk: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x03", sig: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: false },
  EdV { pk: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x04", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: true },
  EdV { pk: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x05", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: true },
  EdV { pk: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x05", sig: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: false },
  EdV { pk: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x06", sig: b"\xec\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: true },
  EdV { pk: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x08", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: true },
  EdV { pk: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x08", sig: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: false },
  EdV { pk: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x09", sig: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: true },
  EdV { pk: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x0b", sig: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: true },
  EdV { pk: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x0b", sig: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: false },
  EdV { pk: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\xfa", msg: b"\x00", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: true },
  EdV { pk: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\xfa", msg: b"\x01", sig: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\x7a\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: true },
  EdV { pk: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\xfa", msg: b"\x01", sig: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: false },
  EdV { pk: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\xfa", msg: b"\x02", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: true },
  EdV { pk: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\xfa", msg: b"\x03", sig: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: true },
  EdV { pk: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\xfa", msg: b"\x03", sig: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: true },
  EdV { pk: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\xfa", msg: b"\x04", sig: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: true },
  EdV { pk: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\xfa", msg: b"\x05", sig: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: true },
  EdV { pk: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\xfa", msg: b"\x05", sig: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: true },
  EdV { pk: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\xfa", msg: b"\x06", sig: b"\xec\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: true },
  EdV { pk: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\xfa", msg: b"\x07", sig: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: true },
  EdV { pk: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\xfa", msg: b"\x07", sig: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: false },
  EdV { pk: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\xfa", msg: b"\x09", sig: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\xfa\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: true },
  EdV { pk: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\xfa", msg: b"\x0b", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: true },
  EdV { pk: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\xfa", msg: b"\x0b", sig: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: false },
  EdV { pk: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x00", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xed\xd3\xf5\x5c\x1a\x63\x12\x58\xd6\x9c\xf7\xa2\xde\xf9\xde\x14\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x10", ok: false },
  EdV { pk: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x00", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xda\xa7\xeb\xb9\x34\xc6\x24\xb0\xac\x39\xef\x45\xbd\xf3\xbd\x29\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x20", ok: false },
  EdV { pk: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x00", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x68\x9f\xae\xe7\xd2\x18\x93\xc0\xb2\xe6\xbc\x17\xf5\xce\xf7\xa6\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", ok: false },
  EdV { pk: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x00", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xe3\x6a\x67\x72\x8b\xce\x13\x29\x8f\x30\x82\x8c\x0b\xa4\x10\x39\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xf0", ok: false },
  EdV { pk: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x01", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xed\xd3\xf5\x5c\x1a\x63\x12\x58\xd6\x9c\xf7\xa2\xde\xf9\xde\x14\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x10", ok: false },
  EdV { pk: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x01", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xda\xa7\xeb\xb9\x34\xc6\x24\xb0\xac\x39\xef\x45\xbd\xf3\xbd\x29\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x20", ok: false },
  EdV { pk: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x01", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x68\x9f\xae\xe7\xd2\x18\x93\xc0\xb2\xe6\xbc\x17\xf5\xce\xf7\xa6\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", ok: false },
  EdV { pk: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x01", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xe3\x6a\x67\x72\x8b\xce\x13\x29\x8f\x30\x82\x8c\x0b\xa4\x10\x39\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xf0", ok: false },
  EdV { pk: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x02", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xed\xd3\xf5\x5c\x1a\x63\x12\x58\xd6\x9c\xf7\xa2\xde\xf9\xde\x14\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x10", ok: false },
  EdV { pk: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x02", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xda\xa7\xeb\xb9\x34\xc6\x24\xb0\xac\x39\xef\x45\xbd\xf3\xbd\x29\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x20", ok: false },
  EdV { pk: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x02", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x68\x9f\xae\xe7\xd2\x18\x93\xc0\xb2\xe6\xbc\x17\xf5\xce\xf7\xa6\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", ok: false },
  EdV { pk: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x02", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xe3\x6a\x67\x72\x8b\xce\x13\x29\x8f\x30\x82\x8c\x0b\xa4\x10\x39\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xf0", ok: false },
  EdV { pk: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x03", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xed\xd3\xf5\x5c\x1a\x63\x12\x58\xd6\x9c\xf7\xa2\xde\xf9\xde\x14\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x10", ok: false },
  EdV { pk: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x03", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xda\xa7\xeb\xb9\x34\xc6\x24\xb0\xac\x39\xef\x45\xbd\xf3\xbd\x29\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x20", ok: false },
  EdV { pk: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x03", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x68\x9f\xae\xe7\xd2\x18\x93\xc0\xb2\xe6\xbc\x17\xf5\xce\xf7\xa6\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", ok: false },
  EdV { pk: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x03", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xe3\x6a\x67\x72\x8b\xce\x13\x29\x8f\x30\x82\x8c\x0b\xa4\x10\x39\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xf0", ok: false },
  EdV { pk: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x04", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xed\xd3\xf5\x5c\x1a\x63\x12\x58\xd6\x9c\xf7\xa2\xde\xf9\xde\x14\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x10", ok: false },
  EdV { pk: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x04", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xda\xa7\xeb\xb9\x34\xc6\x24\xb0\xac\x39\xef\x45\xbd\xf3\xbd\x29\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x20", ok: false },
  EdV { pk: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x04", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x68\x9f\xae\xe7\xd2\x18\x93\xc0\xb2\xe6\xbc\x17\xf5\xce\xf7\xa6\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", ok: false },
  EdV { pk: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x04", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xe3\x6a\x67\x72\x8b\xce\x13\x29\x8f\x30\x82\x8c\x0b\xa4\x10\x39\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xf0", ok: false },
  EdV { pk: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x05", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xed\xd3\xf5\x5c\x1a\x63\x12\x58\xd6\x9c\xf7\xa2\xde\xf9\xde\x14\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x10", ok: false },
  EdV { pk: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x05", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xda\xa7\xeb\xb9\x34\xc6\x24\xb0\xac\x39\xef\x45\xbd\xf3\xbd\x29\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x20", ok: false },
  EdV { pk: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x05", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x68\x9f\xae\xe7\xd2\x18\x93\xc0\xb2\xe6\xbc\x17\xf5\xce\xf7\xa6\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", ok: false },
  EdV { pk: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x05", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xe3\x6a\x67\x72\x8b\xce\x13\x29\x8f\x30\x82\x8c\x0b\xa4\x10\x39\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xf0", ok: false },
  EdV { pk: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x06", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xed\xd3\xf5\x5c\x1a\x63\x12\x58\xd6\x9c\xf7\xa2\xde\xf9\xde\x14\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x10", ok: false },
  EdV { pk: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x06", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xda\xa7\xeb\xb9\x34\xc6\x24\xb0\xac\x39\xef\x45\xbd\xf3\xbd\x29\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x20", ok: false },
  EdV { pk: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x06", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x68\x9f\xae\xe7\xd2\x18\x93\xc0\xb2\xe6\xbc\x17\xf5\xce\xf7\xa6\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", ok: false },
  EdV { pk: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x06", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xe3\x6a\x67\x72\x8b\xce\x13\x29\x8f\x30\x82\x8c\x0b\xa4\x10\x39\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xf0", ok: false },
  EdV { pk: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x07", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xed\xd3\xf5\x5c\x1a\x63\x12\x58\xd6\x9c\xf7\xa2\xde\xf9\xde\x14\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x10", ok: false },
  EdV { pk: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x07", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xda\xa7\xeb\xb9\x34\xc6\x24\xb0\xac\x39\xef\x45\xbd\xf3\xbd\x29\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x20", ok: false },
  EdV { pk: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x07", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x68\x9f\xae\xe7\xd2\x18\x93\xc0\xb2\xe6\xbc\x17\xf5\xce\xf7\xa6\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", ok: false },
  EdV { pk: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x07", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xe3\x6a\x67\x72\x8b\xce\x13\x29\x8f\x30\x82\x8c\x0b\xa4\x10\x39\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xf0", ok: false },
  EdV { pk: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x08", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xed\xd3\xf5\x5c\x1a\x63\x12\x58\xd6\x9c\xf7\xa2\xde\xf9\xde\x14\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x10", ok: false },
  EdV { pk: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x08", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xda\xa7\xeb\xb9\x34\xc6\x24\xb0\xac\x39\xef\x45\xbd\xf3\xbd\x29\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x20", ok: false },
  EdV { pk: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x08", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x68\x9f\xae\xe7\xd2\x18\x93\xc0\xb2\xe6\xbc\x17\xf5\xce\xf7\xa6\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", ok: false },
  EdV { pk: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x08", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xe3\x6a\x67\x72\x8b\xce\x13\x29\x8f\x30\x82\x8c\x0b\xa4\x10\x39\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xf0", ok: false },
  EdV { pk: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x09", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xed\xd3\xf5\x5c\x1a\x63\x12\x58\xd6\x9c\xf7\xa2\xde\xf9\xde\x14\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x10", ok: false },
  EdV { pk: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x09", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xda\xa7\xeb\xb9\x34\xc6\x24\xb0\xac\x39\xef\x45\xbd\xf3\xbd\x29\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x20", ok: false },
  EdV { pk: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x09", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x68\x9f\xae\xe7\xd2\x18\x93\xc0\xb2\xe6\xbc\x17\xf5\xce\xf7\xa6\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", ok: false },
  EdV { pk: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x09", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xe3\x6a\x67\x72\x8b\xce\x13\x29\x8f\x30\x82\x8c\x0b\xa4\x10\x39\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xf0", ok: false },
  EdV { pk: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x0a", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xed\xd3\xf5\x5c\x1a\x63\x12\x58\xd6\x9c\xf7\xa2\xde\xf9\xde\x14\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x10", ok: false },
  EdV { pk: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x0a", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xda\xa7\xeb\xb9\x34\xc6\x24\xb0\xac\x39\xef\x45\xbd\xf3\xbd\x29\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x20", ok: false },
  EdV { pk: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x0a", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x68\x9f\xae\xe7\xd2\x18\x93\xc0\xb2\xe6\xbc\x17\xf5\xce\xf7\xa6\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", ok: false },
  EdV { pk: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x0a", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xe3\x6a\x67\x72\x8b\xce\x13\x29\x8f\x30\x82\x8c\x0b\xa4\x10\x39\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xf0", ok: false },
  EdV { pk: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x0b", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xed\xd3\xf5\x5c\x1a\x63\x12\x58\xd6\x9c\xf7\xa2\xde\xf9\xde\x14\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x10", ok: false },
  EdV { pk: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x0b", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xda\xa7\xeb\xb9\x34\xc6\x24\xb0\xac\x39\xef\x45\xbd\xf3\xbd\x29\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x20", ok: false },
  EdV { pk: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x0b", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x68\x9f\xae\xe7\xd2\x18\x93\xc0\xb2\xe6\xbc\x17\xf5\xce\xf7\xa6\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", ok: false },
  EdV { pk: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x0b", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xe3\x6a\x67\x72\x8b\xce\x13\x29\x8f\x30\x82\x8c\x0b\xa4\x10\x39\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xf0", ok: false },
  EdV { pk: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\x7a", msg: b"\x00", sig: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80\xed\xd3\xf5\x5c\x1a\x63\x12\x58\xd6\x9c\xf7\xa2\xde\xf9\xde\x14\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x10", ok: false },
  EdV { pk: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\x7a", msg: b"\x00", sig: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80\xda\xa7\xeb\xb9\x34\xc6\x24\xb0\xac\x39\xef\x45\xbd\xf3\xbd\x29\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x20", ok: false },
  EdV { pk: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\x7a", msg: b"\x00", sig: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80\x68\x9f\xae\xe7\xd2\x18\x93\xc0\xb2\xe6\xbc\x17\xf5\xce\xf7\xa6\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", ok: false },
  EdV { pk: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\x7a", msg: b"\x00", sig: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80\xe3\x6a\x67\x72\x8b\xce\x13\x29\x8f\x30\x82\x8c\x0b\xa4\x10\x39\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xf0", ok: false },
  EdV { pk: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\x7a", msg: b"\x02", sig: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\xfa\xed\xd3\xf5\x5c\x1a\x63\x12\x58\xd6\x9c\xf7\xa2\xde\xf9\xde\x14\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x10", ok: false },
  EdV { pk: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\x7a", msg: b"\x02", sig: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\xfa\xda\xa7\xeb\xb9\x34\xc6\x24\xb0\xac\x39\xef\x45\xbd\xf3\xbd\x29\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x20", ok: false },
  EdV { pk: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\x7a", msg: b"\x02", sig: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\xfa\x68\x9f\xae\xe7\xd2\x18\x93\xc0\xb2\xe6\xbc\x17\xf5\xce\xf7\xa6\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", ok: false },
  EdV { pk: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\x7a", msg: b"\x02", sig: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\xfa\xe3\x6a\x67\x72\x8b\xce\x13\x29\x8f\x30\x82\x8c\x0b\xa4\x10\x39\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xf0", ok: false },
  EdV { pk: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\x7a", msg: b"\x03", sig: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x85\xed\xd3\xf5\x5c\x1a\x63\x12\x58\xd6\x9c\xf7\xa2\xde\xf9\xde\x14\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x10", ok: false },
  EdV { pk: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\x7a", msg: b"\x03", sig: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x85\xda\xa7\xeb\xb9\x34\xc6\x24\xb0\xac\x39\xef\x45\xbd\xf3\xbd\x29\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x20", ok: false },
  EdV { pk: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\x7a", msg: b"\x03", sig: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x85\x68\x9f\xae\xe7\xd2\x18\x93\xc0\xb2\xe6\xbc\x17\xf5\xce\xf7\xa6\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", ok: false },
  EdV { pk: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\x7a", msg: b"\x03", sig: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x85\xe3\x6a\x67\x72\x8b\xce\x13\x29\x8f\x30\x82\x8c\x0b\xa4\x10\x39\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xf0", ok: false },
  EdV { pk: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\x7a", msg: b"\x07", sig: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05\xed\xd3\xf5\x5c\x1a\x63\x12\x58\xd6\x9c\xf7\xa2\xde\xf9\xde\x14\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x10", ok: false },
  EdV { pk: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\x7a", msg: b"\x07", sig: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05\xda\xa7\xeb\xb9\x34\xc6\x24\xb0\xac\x39\xef\x45\xbd\xf3\xbd\x29\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x20", ok: false },
  EdV { pk: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\x7a", msg: b"\x07", sig: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05\x68\x9f\xae\xe7\xd2\x18\x93\xc0\xb2\xe6\xbc\x17\xf5\xce\xf7\xa6\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", ok: false },
  EdV { pk: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\x7a", msg: b"\x07", sig: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05\xe3\x6a\x67\x72\x8b\xce\x13\x29\x8f\x30\x82\x8c\x0b\xa4\x10\x39\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xf0", ok: false },
  EdV { pk: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\x7a", msg: b"\x08", sig: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05\xed\xd3\xf5\x5c\x1a\x63\x12\x58\xd6\x9c\xf7\xa2\xde\xf9\xde\x14\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x10", ok: false },
  EdV { pk: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\x7a", msg: b"\x08", sig: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05\xda\xa7\xeb\xb9\x34\xc6\x24\xb0\xac\x39\xef\x45\xbd\xf3\xbd\x29\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x20", ok: false },
  EdV { pk: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\x7a", msg: b"\x08", sig: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05\x68\x9f\xae\xe7\xd2\x18\x93\xc0\xb2\xe6\xbc\x17\xf5\xce\xf7\xa6\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", ok: false },
  EdV { pk: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\x7a", msg: b"\x08", sig: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05\xe3\x6a\x67\x72\x8b\xce\x13\x29\x8f\x30\x82\x8c\x0b\xa4\x10\x39\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xf0", ok: false },
  EdV { pk: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\x7a", msg: b"\x08", sig: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05\xed\xd3\xf5\x5c\x1a\x63\x12\x58\xd6\x9c\xf7\xa2\xde\xf9\xde\x14\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x10", ok: false },
  EdV { pk: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\x7a", msg: b"\x08", sig: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05\xda\xa7\xeb\xb9\x34\xc6\x24\xb0\xac\x39\xef\x45\xbd\xf3\xbd\x29\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x20", ok: false },
  EdV { pk: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\x7a", msg: b"\x08", sig: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05\x68\x9f\xae\xe7\xd2\x18\x93\xc0\xb2\xe6\xbc\x17\xf5\xce\xf7\xa6\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", ok: false },
  EdV { pk: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\x7a", msg: b"\x08", sig: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05\xe3\x6a\x67\x72\x8b\xce\x13\x29\x8f\x30\x82\x8c\x0b\xa4\x10\x39\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xf0", ok: false },
  EdV { pk: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\x7a", msg: b"\x09", sig: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80\xed\xd3\xf5\x5c\x1a\x63\x12\x58\xd6\x9c\xf7\xa2\xde\xf9\xde\x14\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x10", ok: false },
  EdV { pk: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\x7a", msg: b"\x09", sig: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80\xda\xa7\xeb\xb9\x34\xc6\x24\xb0\xac\x39\xef\x45\xbd\xf3\xbd\x29\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x20", ok: false },
  EdV { pk: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\x7a", msg: b"\x09", sig: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80\x68\x9f\xae\xe7\xd2\x18\x93\xc0\xb2\xe6\xbc\x17\xf5\xce\xf7\xa6\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", ok: false },
  EdV { pk: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\x7a", msg: b"\x09", sig: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80\xe3\x6a\x67\x72\x8b\xce\x13\x29\x8f\x30\x82\x8c\x0b\xa4\x10\x39\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xf0", ok: false },
  EdV { pk: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\x7a", msg: b"\x0a", sig: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\x7a\xed\xd3\xf5\x5c\x1a\x63\x12\x58\xd6\x9c\xf7\xa2\xde\xf9\xde\x14\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x10", ok: false },
  EdV { pk: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\x7a", msg: b"\x0a", sig: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\x7a\xda\xa7\xeb\xb9\x34\xc6\x24\xb0\xac\x39\xef\x45\xbd\xf3\xbd\x29\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x20", ok: false },
  EdV { pk: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\x7a", msg: b"\x0a", sig: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\x7a\x68\x9f\xae\xe7\xd2\x18\x93\xc0\xb2\xe6\xbc\x17\xf5\xce\xf7\xa6\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", ok: false },
  EdV { pk: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\x7a", msg: b"\x0a", sig: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\x7a\xe3\x6a\x67\x72\x8b\xce\x13\x29\x8f\x30\x82\x8c\x0b\xa4\x10\x39\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xf0", ok: false },
  EdV { pk: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", msg: b"\x00", sig: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80\xed\xd3\xf5\x5c\x1a\x63\x12\x58\xd6\x9c\xf7\xa2\xde\xf9\xde\x14\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x10", ok: false },
  EdV { pk: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", msg: b"\x00", sig: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80\xda\xa7\xeb\xb9\x34\xc6\x24\xb0\xac\x39\xef\x45\xbd\xf3\xbd\x29\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x20", ok: false },
  EdV { pk: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", msg: b"\x00", sig: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80\x68\x9f\xae\xe7\xd2\x18\x93\xc0\xb2\xe6\xbc\x17\xf5\xce\xf7\xa6\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", ok: false },
  EdV { pk: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", msg: b"\x00", sig: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80\xe3\x6a\x67\x72\x8b\xce\x13\x29\x8f\x30\x82\x8c\x0b\xa4\x10\x39\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xf0", ok: false },
  EdV { pk: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", msg: b"\x02", sig: b"\xec\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f\xed\xd3\xf5\x5c\x1a\x63\x12\x58\xd6\x9c\xf7\xa2\xde\xf9\xde\x14\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x10", ok: false },
  EdV { pk: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", msg: b"\x02", sig: b"\xec\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f\xda\xa7\xeb\xb9\x34\xc6\x24\xb0\xac\x39\xef\x45\xbd\xf3\xbd\x29\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x20", ok: false },
  EdV { pk: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", msg: b"\x02", sig: b"\xec\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f\x68\x9f\xae\xe7\xd2\x18\x93\xc0\xb2\xe6\xbc\x17\xf5\xce\xf7\xa6\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", ok: false },
  EdV { pk: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", msg: b"\x02", sig: b"\xec\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f\xe3\x6a\x67\x72\x8b\xce\x13\x29\x8f\x30\x82\x8c\x0b\xa4\x10\x39\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xf0", ok: false },
  EdV { pk: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", msg: b"\x03", sig: b"\xec\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f\xed\xd3\xf5\x5c\x1a\x63\x12\x58\xd6\x9c\xf7\xa2\xde\xf9\xde\x14\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x10", ok: false },
  EdV { pk: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", msg: b"\x03", sig: b"\xec\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f\xda\xa7\xeb\xb9\x34\xc6\x24\xb0\xac\x39\xef\x45\xbd\xf3\xbd\x29\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x20", ok: false },
  EdV { pk: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", msg: b"\x03", sig: b"\xec\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f\x68\x9f\xae\xe7\xd2\x18\x93\xc0\xb2\xe6\xbc\x17\xf5\xce\xf7\xa6\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", ok: false },
  EdV { pk: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", msg: b"\x03", sig: b"\xec\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f\xe3\x6a\x67\x72\x8b\xce\x13\x29\x8f\x30\x82\x8c\x0b\xa4\x10\x39\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xf0", ok: false },
  EdV { pk: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", msg: b"\x05", sig: b"\xec\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f\xed\xd3\xf5\x5c\x1a\x63\x12\x58\xd6\x9c\xf7\xa2\xde\xf9\xde\x14\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x10", ok: false },
  EdV { pk: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", msg: b"\x05", sig: b"\xec\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f\xda\xa7\xeb\xb9\x34\xc6\x24\xb0\xac\x39\xef\x45\xbd\xf3\xbd\x29\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x20", ok: false },
  EdV { pk: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", msg: b"\x05", sig: b"\xec\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f\x68\x9f\xae\xe7\xd2\x18\x93\xc0\xb2\xe6\xbc\x17\xf5\xce\xf7\xa6\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", ok: false },
  EdV { pk: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", msg: b"\x05", sig: b"\xec\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f\xe3\x6a\x67\x72\x8b\xce\x13\x29\x8f\x30\x82\x8c\x0b\xa4\x10\x39\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xf0", ok: false },
  EdV { pk: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", msg: b"\x06", sig: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xed\xd3\xf5\x5c\x1a\x63\x12\x58\xd6\x9c\xf7\xa2\xde\xf9\xde\x14\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x10", ok: false },
  EdV { pk: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", msg: b"\x06", sig: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xda\xa7\xeb\xb9\x34\xc6\x24\xb0\xac\x39\xef\x45\xbd\xf3\xbd\x29\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x20", ok: false },
  EdV { pk: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", msg: b"\x06", sig: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x68\x9f\xae\xe7\xd2\x18\x93\xc0\xb2\xe6\xbc\x17\xf5\xce\xf7\xa6\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", ok: false },
  EdV { pk: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", msg: b"\x06", sig: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xe3\x6a\x67\x72\x8b\xce\x13\x29\x8f\x30\x82\x8c\x0b\xa4\x10\x39\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xf0", ok: false },
  EdV { pk: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", msg: b"\x07", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xed\xd3\xf5\x5c\x1a\x63\x12\x58\xd6\x9c\xf7\xa2\xde\xf9\xde\x14\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x10", ok: false },
  EdV { pk: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", msg: b"\x07", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xda\xa7\xeb\xb9\x34\xc6\x24\xb0\xac\x39\xef\x45\xbd\xf3\xbd\x29\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x20", ok: false },
  EdV { pk: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", msg: b"\x07", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x68\x9f\xae\xe7\xd2\x18\x93\xc0\xb2\xe6\xbc\x17\xf5\xce\xf7\xa6\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", ok: false },
  EdV { pk: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", msg: b"\x07", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xe3\x6a\x67\x72\x8b\xce\x13\x29\x8f\x30\x82\x8c\x0b\xa4\x10\x39\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xf0", ok: false },
  EdV { pk: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", msg: b"\x09", sig: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80\xed\xd3\xf5\x5c\x1a\x63\x12\x58\xd6\x9c\xf7\xa2\xde\xf9\xde\x14\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x10", ok: false },
  EdV { pk: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", msg: b"\x09", sig: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80\xda\xa7\xeb\xb9\x34\xc6\x24\xb0\xac\x39\xef\x45\xbd\xf3\xbd\x29\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x20", ok: false },
  EdV { pk: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", msg: b"\x09", sig: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80\x68\x9f\xae\xe7\xd2\x18\x93\xc0\xb2\xe6\xbc\x17\xf5\xce\xf7\xa6\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", ok: false },
  EdV { pk: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", msg: b"\x09", sig: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80\xe3\x6a\x67\x72\x8b\xce\x13\x29\x8f\x30\x82\x8c\x0b\xa4\x10\x39\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xf0", ok: false },
  EdV { pk: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05", msg: b"\x01", sig: b"\xec\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f\xed\xd3\xf5\x5c\x1a\x63\x12\x58\xd6\x9c\xf7\xa2\xde\xf9\xde\x14\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x10", ok: false },
  EdV { pk: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05", msg: b"\x01", sig: b"\xec\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f\xda\xa7\xeb\xb9\x34\xc6\x24\xb0\xac\x39\xef\x45\xbd\xf3\xbd\x29\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x20", ok: false },
  EdV { pk: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05", msg: b"\x01", sig: b"\xec\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f\x68\x9f\xae\xe7\xd2\x18\x93\xc0\xb2\xe6\xbc\x17\xf5\xce\xf7\xa6\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", ok: false },
  EdV { pk: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05", msg: b"\x01", sig: b"\xec\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f\xe3\x6a\x67\x72\x8b\xce\x13\x29\x8f\x30\x82\x8c\x0b\xa4\x10\x39\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xf0", ok: false },
  EdV { pk: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05", msg: b"\x04", sig: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05\xed\xd3\xf5\x5c\x1a\x63\x12\x58\xd6\x9c\xf7\xa2\xde\xf9\xde\x14\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x10", ok: false },
  EdV { pk: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05", msg: b"\x04", sig: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05\xda\xa7\xeb\xb9\x34\xc6\x24\xb0\xac\x39\xef\x45\xbd\xf3\xbd\x29\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x20", ok: false },
  EdV { pk: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05", msg: b"\x04", sig: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05\x68\x9f\xae\xe7\xd2\x18\x93\xc0\xb2\xe6\xbc\x17\xf5\xce\xf7\xa6\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", ok: false },
  EdV { pk: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05", msg: b"\x04", sig: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05\xe3\x6a\x67\x72\x8b\xce\x13\x29\x8f\x30\x82\x8c\x0b\xa4\x10\x39\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xf0", ok: false },
  EdV { pk: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05", msg: b"\x06", sig: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05\xed\xd3\xf5\x5c\x1a\x63\x12\x58\xd6\x9c\xf7\xa2\xde\xf9\xde\x14\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x10", ok: false },
  EdV { pk: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05", msg: b"\x06", sig: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05\xda\xa7\xeb\xb9\x34\xc6\x24\xb0\xac\x39\xef\x45\xbd\xf3\xbd\x29\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x20", ok: false },
  EdV { pk: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05", msg: b"\x06", sig: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05\x68\x9f\xae\xe7\xd2\x18\x93\xc0\xb2\xe6\xbc\x17\xf5\xce\xf7\xa6\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", ok: false },
  EdV { pk: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05", msg: b"\x06", sig: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05\xe3\x6a\x67\x72\x8b\xce\x13\x29\x8f\x30\x82\x8c\x0b\xa4\x10\x39\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xf0", ok: false },
  EdV { pk: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05", msg: b"\x06", sig: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05\xed\xd3\xf5\x5c\x1a\x63\x12\x58\xd6\x9c\xf7\xa2\xde\xf9\xde\x14\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x10", ok: false },
  EdV { pk: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05", msg: b"\x06", sig: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05\xda\xa7\xeb\xb9\x34\xc6\x24\xb0\xac\x39\xef\x45\xbd\xf3\xbd\x29\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x20", ok: false },
  EdV { pk: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05", msg: b"\x06", sig: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05\x68\x9f\xae\xe7\xd2\x18\x93\xc0\xb2\xe6\xbc\x17\xf5\xce\xf7\xa6\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", ok: false },
  EdV { pk: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05", msg: b"\x06", sig: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05\xe3\x6a\x67\x72\x8b\xce\x13\x29\x8f\x30\x82\x8c\x0b\xa4\x10\x39\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xf0", ok: false },
  EdV { pk: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05", msg: b"\x08", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xed\xd3\xf5\x5c\x1a\x63\x12\x58\xd6\x9c\xf7\xa2\xde\xf9\xde\x14\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x10", ok: false },
  EdV { pk: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05", msg: b"\x08", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xda\xa7\xeb\xb9\x34\xc6\x24\xb0\xac\x39\xef\x45\xbd\xf3\xbd\x29\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x20", ok: false },
  EdV { pk: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05", msg: b"\x08", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x68\x9f\xae\xe7\xd2\x18\x93\xc0\xb2\xe6\xbc\x17\xf5\xce\xf7\xa6\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", ok: false },
  EdV { pk: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05", msg: b"\x08", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xe3\x6a\x67\x72\x8b\xce\x13\x29\x8f\x30\x82\x8c\x0b\xa4\x10\x39\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xf0", ok: false },
  EdV { pk: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05", msg: b"\x09", sig: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xed\xd3\xf5\x5c\x1a\x63\x12\x58\xd6\x9c\xf7\xa2\xde\xf9\xde\x14\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x10", ok: false },
  EdV { pk: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05", msg: b"\x09", sig: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xda\xa7\xeb\xb9\x34\xc6\x24\xb0\xac\x39\xef\x45\xbd\xf3\xbd\x29\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x20", ok: false },
  EdV { pk: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05", msg: b"\x09", sig: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x68\x9f\xae\xe7\xd2\x18\x93\xc0\xb2\xe6\xbc\x17\xf5\xce\xf7\xa6\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", ok: false },
  EdV { pk: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05", msg: b"\x09", sig: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xe3\x6a\x67\x72\x8b\xce\x13\x29\x8f\x30\x82\x8c\x0b\xa4\x10\x39\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xf0", ok: false },
  EdV { pk: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05", msg: b"\x0a", sig: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80\xed\xd3\xf5\x5c\x1a\x63\x12\x58\xd6\x9c\xf7\xa2\xde\xf9\xde\x14\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x10", ok: false },
  EdV { pk: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05", msg: b"\x0a", sig: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80\xda\xa7\xeb\xb9\x34\xc6\x24\xb0\xac\x39\xef\x45\xbd\xf3\xbd\x29\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x20", ok: false },
  EdV { pk: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05", msg: b"\x0a", sig: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80\x68\x9f\xae\xe7\xd2\x18\x93\xc0\xb2\xe6\xbc\x17\xf5\xce\xf7\xa6\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", ok: false },
  EdV { pk: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05", msg: b"\x0a", sig: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80\xe3\x6a\x67\x72\x8b\xce\x13\x29\x8f\x30\x82\x8c\x0b\xa4\x10\x39\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xf0", ok: false },
  EdV { pk: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05", msg: b"\x0b", sig: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\x7a\xed\xd3\xf5\x5c\x1a\x63\x12\x58\xd6\x9c\xf7\xa2\xde\xf9\xde\x14\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x10", ok: false },
  EdV { pk: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05", msg: b"\x0b", sig: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\x7a\xda\xa7\xeb\xb9\x34\xc6\x24\xb0\xac\x39\xef\x45\xbd\xf3\xbd\x29\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x20", ok: false },
  EdV { pk: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05", msg: b"\x0b", sig: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\x7a\x68\x9f\xae\xe7\xd2\x18\x93\xc0\xb2\xe6\xbc\x17\xf5\xce\xf7\xa6\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", ok: false },
  EdV { pk: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05", msg: b"\x0b", sig: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\x7a\xe3\x6a\x67\x72\x8b\xce\x13\x29\x8f\x30\x82\x8c\x0b\xa4\x10\x39\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xf0", ok: false },
  EdV { pk: b"\xec\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f", msg: b"\x00", sig: b"\xec\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f\xed\xd3\xf5\x5c\x1a\x63\x12\x58\xd6\x9c\xf7\xa2\xde\xf9\xde\x14\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x10", ok: false },
  EdV { pk: b"\xec\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f", msg: b"\x00", sig: b"\xec\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f\xda\xa7\xeb\xb9\x34\xc6\x24\xb0\xac\x39\xef\x45\xbd\xf3\xbd\x29\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x20", ok: false },
  EdV { pk: b"\xec\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f", msg: b"\x00", sig: b"\xec\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f\x68\x9f\xae\xe7\xd2\x18\x93\xc0\xb2\xe6\xbc\x17\xf5\xce\xf7\xa6\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", ok: false },
  EdV { pk: b"\xec\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f", msg: b"\x00", sig: b"\xec\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f\xe3\x6a\x67\x72\x8b\xce\x13\x29\x8f\x30\x82\x8c\x0b\xa4\x10\x39\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xf0", ok: false },
  EdV { pk: b"\xec\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f", msg: b"\x01", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xed\xd3\xf5\x5c\x1a\x63\x12\x58\xd6\x9c\xf7\xa2\xde\xf9\xde\x14\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x10", ok: false },
  EdV { pk: b"\xec\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f", msg: b"\x01", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xda\xa7\xeb\xb9\x34\xc6\x24\xb0\xac\x39\xef\x45\xbd\xf3\xbd\x29\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x20", ok: false },
  EdV { pk: b"\xec\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f", msg: b"\x01", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x68\x9f\xae\xe7\xd2\x18\x93\xc0\xb2\xe6\xbc\x17\xf5\xce\xf7\xa6\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", ok: false },
  EdV { pk: b"\xec\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f", msg: b"\x01", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xe3\x6a\x67\x72\x8b\xce\x13\x29\x8f\x30\x82\x8c\x0b\xa4\x10\x39\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xf0", ok: false },
  EdV { pk: b"\xec\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f", msg: b"\x02", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xed\xd3\xf5\x5c\x1a\x63\x12\x58\xd6\x9c\xf7\xa2\xde\xf9\xde\x14\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x10", ok: false },
  EdV { pk: b"\xec\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f", msg: b"\x02", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xda\xa7\xeb\xb9\x34\xc6\x24\xb0\xac\x39\xef\x45\xbd\xf3\xbd\x29\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x20", ok: false },
  EdV { pk: b"\xec\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f", msg: b"\x02", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x68\x9f\xae\xe7\xd2\x18\x93\xc0\xb2\xe6\xbc\x17\xf5\xce\xf7\xa6\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", ok: false },
  EdV { pk: b"\xec\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f", msg: b"\x02", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xe3\x6a\x67\x72\x8b\xce\x13\x29\x8f\x30\x82\x8c\x0b\xa4\x10\x39\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xf0", ok: false },
  EdV { pk: b"\xec\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f", msg: b"\x06", sig: b"\xec\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f\xed\xd3\xf5\x5c\x1a\x63\x12\x58\xd6\x9c\xf7\xa2\xde\xf9\xde\x14\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x10", ok: false },
  EdV { pk: b"\xec\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f", msg: b"\x06", sig: b"\xec\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f\xda\xa7\xeb\xb9\x34\xc6\x24\xb0\xac\x39\xef\x45\xbd\xf3\xbd\x29\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x20", ok: false },
  EdV { pk: b"\xec\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f", msg: b"\x06", sig: b"\xec\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f\x68\x9f\xae\xe7\xd2\x18\x93\xc0\xb2\xe6\xbc\x17\xf5\xce\xf7\xa6\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", ok: false },
  EdV { pk: b"\xec\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f", msg: b"\x06", sig: b"\xec\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f\xe3\x6a\x67\x72\x8b\xce\x13\x29\x8f\x30\x82\x8c\x0b\xa4\x10\x39\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xf0", ok: false },
  EdV { pk: b"\xec\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f", msg: b"\x07", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xed\xd3\xf5\x5c\x1a\x63\x12\x58\xd6\x9c\xf7\xa2\xde\xf9\xde\x14\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x10", ok: false },
  EdV { pk: b"\xec\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f", msg: b"\x07", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xda\xa7\xeb\xb9\x34\xc6\x24\xb0\xac\x39\xef\x45\xbd\xf3\xbd\x29\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x20", ok: false },
  EdV { pk: b"\xec\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f", msg: b"\x07", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x68\x9f\xae\xe7\xd2\x18\x93\xc0\xb2\xe6\xbc\x17\xf5\xce\xf7\xa6\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", ok: false },
  EdV { pk: b"\xec\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f", msg: b"\x07", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xe3\x6a\x67\x72\x8b\xce\x13\x29\x8f\x30\x82\x8c\x0b\xa4\x10\x39\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xf0", ok: false },
  EdV { pk: b"\xec\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f", msg: b"\x08", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xed\xd3\xf5\x5c\x1a\x63\x12\x58\xd6\x9c\xf7\xa2\xde\xf9\xde\x14\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x10", ok: false },
  EdV { pk: b"\xec\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f", msg: b"\x08", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xda\xa7\xeb\xb9\x34\xc6\x24\xb0\xac\x39\xef\x45\xbd\xf3\xbd\x29\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x20", ok: false },
  EdV { pk: b"\xec\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f", msg: b"\x08", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x68\x9f\xae\xe7\xd2\x18\x93\xc0\xb2\xe6\xbc\x17\xf5\xce\xf7\xa6\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", ok: false },
  EdV { pk: b"\xec\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f", msg: b"\x08", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xe3\x6a\x67\x72\x8b\xce\x13\x29\x8f\x30\x82\x8c\x0b\xa4\x10\x39\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xf0", ok: false },
  EdV { pk: b"\xec\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f", msg: b"\x0b", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xed\xd3\xf5\x5c\x1a\x63\x12\x58\xd6\x9c\xf7\xa2\xde\xf9\xde\x14\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x10", ok: false },
  EdV { pk: b"\xec\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f", msg: b"\x0b", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xda\xa7\xeb\xb9\x34\xc6\x24\xb0\xac\x39\xef\x45\xbd\xf3\xbd\x29\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x20", ok: false },
  EdV { pk: b"\xec\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f", msg: b"\x0b", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x68\x9f\xae\xe7\xd2\x18\x93\xc0\xb2\xe6\xbc\x17\xf5\xce\xf7\xa6\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", ok: false },
  EdV { pk: b"\xec\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f", msg: b"\x0b", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xe3\x6a\x67\x72\x8b\xce\x13\x29\x8f\x30\x82\x8c\x0b\xa4\x10\x39\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xf0", ok: false },
  EdV { pk: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x85", msg: b"\x00", sig: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80\xed\xd3\xf5\x5c\x1a\x63\x12\x58\xd6\x9c\xf7\xa2\xde\xf9\xde\x14\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x10", ok: false },
  EdV { pk: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x85", msg: b"\x00", sig: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80\xda\xa7\xeb\xb9\x34\xc6\x24\xb0\xac\x39\xef\x45\xbd\xf3\xbd\x29\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x20", ok: false },
  EdV { pk: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x85", msg: b"\x00", sig: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80\x68\x9f\xae\xe7\xd2\x18\x93\xc0\xb2\xe6\xbc\x17\xf5\xce\xf7\xa6\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", ok: false },
  EdV { pk: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x85", msg: b"\x00", sig: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80\xe3\x6a\x67\x72\x8b\xce\x13\x29\x8f\x30\x82\x8c\x0b\xa4\x10\x39\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xf0", ok: false },
  EdV { pk: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x85", msg: b"\x01", sig: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xed\xd3\xf5\x5c\x1a\x63\x12\x58\xd6\x9c\xf7\xa2\xde\xf9\xde\x14\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x10", ok: false },
  EdV { pk: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x85", msg: b"\x01", sig: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xda\xa7\xeb\xb9\x34\xc6\x24\xb0\xac\x39\xef\x45\xbd\xf3\xbd\x29\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x20", ok: false },
  EdV { pk: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x85", msg: b"\x01", sig: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x68\x9f\xae\xe7\xd2\x18\x93\xc0\xb2\xe6\xbc\x17\xf5\xce\xf7\xa6\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", ok: false },
  EdV { pk: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x85", msg: b"\x01", sig: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xe3\x6a\x67\x72\x8b\xce\x13\x29\x8f\x30\x82\x8c\x0b\xa4\x10\x39\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xf0", ok: false },
  EdV { pk: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x85", msg: b"\x02", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xed\xd3\xf5\x5c\x1a\x63\x12\x58\xd6\x9c\xf7\xa2\xde\xf9\xde\x14\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x10", ok: false },
  EdV { pk: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x85", msg: b"\x02", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xda\xa7\xeb\xb9\x34\xc6\x24\xb0\xac\x39\xef\x45\xbd\xf3\xbd\x29\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x20", ok: false },
  EdV { pk: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x85", msg: b"\x02", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x68\x9f\xae\xe7\xd2\x18\x93\xc0\xb2\xe6\xbc\x17\xf5\xce\xf7\xa6\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", ok: false },
  EdV { pk: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x85", msg: b"\x02", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xe3\x6a\x67\x72\x8b\xce\x13\x29\x8f\x30\x82\x8c\x0b\xa4\x10\x39\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xf0", ok: false },
  EdV { pk: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x85", msg: b"\x04", sig: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xed\xd3\xf5\x5c\x1a\x63\x12\x58\xd6\x9c\xf7\xa2\xde\xf9\xde\x14\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x10", ok: false },
  EdV { pk: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x85", msg: b"\x04", sig: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xda\xa7\xeb\xb9\x34\xc6\x24\xb0\xac\x39\xef\x45\xbd\xf3\xbd\x29\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x20", ok: false },
  EdV { pk: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x85", msg: b"\x04", sig: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x68\x9f\xae\xe7\xd2\x18\x93\xc0\xb2\xe6\xbc\x17\xf5\xce\xf7\xa6\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", ok: false },
  EdV { pk: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x85", msg: b"\x04", sig: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xe3\x6a\x67\x72\x8b\xce\x13\x29\x8f\x30\x82\x8c\x0b\xa4\x10\x39\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xf0", ok: false },
  EdV { pk: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x85", msg: b"\x05", sig: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x85\xed\xd3\xf5\x5c\x1a\x63\x12\x58\xd6\x9c\xf7\xa2\xde\xf9\xde\x14\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x10", ok: false },
  EdV { pk: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x85", msg: b"\x05", sig: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x85\xda\xa7\xeb\xb9\x34\xc6\x24\xb0\xac\x39\xef\x45\xbd\xf3\xbd\x29\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x20", ok: false },
  EdV { pk: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x85", msg: b"\x05", sig: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x85\x68\x9f\xae\xe7\xd2\x18\x93\xc0\xb2\xe6\xbc\x17\xf5\xce\xf7\xa6\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", ok: false },
  EdV { pk: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x85", msg: b"\x05", sig: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x85\xe3\x6a\x67\x72\x8b\xce\x13\x29\x8f\x30\x82\x8c\x0b\xa4\x10\x39\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xf0", ok: false },
  EdV { pk: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x85", msg: b"\x06", sig: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\x7a\xed\xd3\xf5\x5c\x1a\x63\x12\x58\xd6\x9c\xf7\xa2\xde\xf9\xde\x14\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x10", ok: false },
  EdV { pk: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x85", msg: b"\x06", sig: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\x7a\xda\xa7\xeb\xb9\x34\xc6\x24\xb0\xac\x39\xef\x45\xbd\xf3\xbd\x29\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x20", ok: false },
  EdV { pk: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x85", msg: b"\x06", sig: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\x7a\x68\x9f\xae\xe7\xd2\x18\x93\xc0\xb2\xe6\xbc\x17\xf5\xce\xf7\xa6\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", ok: false },
  EdV { pk: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x85", msg: b"\x06", sig: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\x7a\xe3\x6a\x67\x72\x8b\xce\x13\x29\x8f\x30\x82\x8c\x0b\xa4\x10\x39\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xf0", ok: false },
  EdV { pk: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x85", msg: b"\x07", sig: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80\xed\xd3\xf5\x5c\x1a\x63\x12\x58\xd6\x9c\xf7\xa2\xde\xf9\xde\x14\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x10", ok: false },
  EdV { pk: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x85", msg: b"\x07", sig: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80\xda\xa7\xeb\xb9\x34\xc6\x24\xb0\xac\x39\xef\x45\xbd\xf3\xbd\x29\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x20", ok: false },
  EdV { pk: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x85", msg: b"\x07", sig: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80\x68\x9f\xae\xe7\xd2\x18\x93\xc0\xb2\xe6\xbc\x17\xf5\xce\xf7\xa6\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", ok: false },
  EdV { pk: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x85", msg: b"\x07", sig: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80\xe3\x6a\x67\x72\x8b\xce\x13\x29\x8f\x30\x82\x8c\x0b\xa4\x10\x39\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xf0", ok: false },
  EdV { pk: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x85", msg: b"\x08", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xed\xd3\xf5\x5c\x1a\x63\x12\x58\xd6\x9c\xf7\xa2\xde\xf9\xde\x14\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x10", ok: false },
  EdV { pk: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x85", msg: b"\x08", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xda\xa7\xeb\xb9\x34\xc6\x24\xb0\xac\x39\xef\x45\xbd\xf3\xbd\x29\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x20", ok: false },
  EdV { pk: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x85", msg: b"\x08", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x68\x9f\xae\xe7\xd2\x18\x93\xc0\xb2\xe6\xbc\x17\xf5\xce\xf7\xa6\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", ok: false },
  EdV { pk: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x85", msg: b"\x08", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xe3\x6a\x67\x72\x8b\xce\x13\x29\x8f\x30\x82\x8c\x0b\xa4\x10\x39\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xf0", ok: false },
  EdV { pk: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x85", msg: b"\x0b", sig: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80\xed\xd3\xf5\x5c\x1a\x63\x12\x58\xd6\x9c\xf7\xa2\xde\xf9\xde\x14\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x10", ok: false },
  EdV { pk: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x85", msg: b"\x0b", sig: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80\xda\xa7\xeb\xb9\x34\xc6\x24\xb0\xac\x39\xef\x45\xbd\xf3\xbd\x29\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x20", ok: false },
  EdV { pk: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x85", msg: b"\x0b", sig: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80\x68\x9f\xae\xe7\xd2\x18\x93\xc0\xb2\xe6\xbc\x17\xf5\xce\xf7\xa6\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", ok: false },
  EdV { pk: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x85", msg: b"\x0b", sig: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80\xe3\x6a\x67\x72\x8b\xce\x13\x29\x8f\x30\x82\x8c\x0b\xa4\x10\x39\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xf0", ok: false },
  EdV { pk: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x01", sig: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80\xed\xd3\xf5\x5c\x1a\x63\x12\x58\xd6\x9c\xf7\xa2\xde\xf9\xde\x14\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x10", ok: false },
  EdV { pk: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x01", sig: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80\xda\xa7\xeb\xb9\x34\xc6\x24\xb0\xac\x39\xef\x45\xbd\xf3\xbd\x29\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x20", ok: false },
  EdV { pk: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x01", sig: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80\x68\x9f\xae\xe7\xd2\x18\x93\xc0\xb2\xe6\xbc\x17\xf5\xce\xf7\xa6\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", ok: false },
  EdV { pk: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x01", sig: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80\xe3\x6a\x67\x72\x8b\xce\x13\x29\x8f\x30\x82\x8c\x0b\xa4\x10\x39\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xf0", ok: false },
  EdV { pk: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x03", sig: b"\xec\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f\xed\xd3\xf5\x5c\x1a\x63\x12\x58\xd6\x9c\xf7\xa2\xde\xf9\xde\x14\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x10", ok: false },
  EdV { pk: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x03", sig: b"\xec\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f\xda\xa7\xeb\xb9\x34\xc6\x24\xb0\xac\x39\xef\x45\xbd\xf3\xbd\x29\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x20", ok: false },
  EdV { pk: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x03", sig: b"\xec\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f\x68\x9f\xae\xe7\xd2\x18\x93\xc0\xb2\xe6\xbc\x17\xf5\xce\xf7\xa6\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", ok: false },
  EdV { pk: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x03", sig: b"\xec\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f\xe3\x6a\x67\x72\x8b\xce\x13\x29\x8f\x30\x82\x8c\x0b\xa4\x10\x39\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xf0", ok: false },
  EdV { pk: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x04", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xed\xd3\xf5\x5c\x1a\x63\x12\x58\xd6\x9c\xf7\xa2\xde\xf9\xde\x14\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x10", ok: false },
  EdV { pk: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x04", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xda\xa7\xeb\xb9\x34\xc6\x24\xb0\xac\x39\xef\x45\xbd\xf3\xbd\x29\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x20", ok: false },
  EdV { pk: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x04", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x68\x9f\xae\xe7\xd2\x18\x93\xc0\xb2\xe6\xbc\x17\xf5\xce\xf7\xa6\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", ok: false },
  EdV { pk: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x04", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xe3\x6a\x67\x72\x8b\xce\x13\x29\x8f\x30\x82\x8c\x0b\xa4\x10\x39\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xf0", ok: false },
  EdV { pk: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x05", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xed\xd3\xf5\x5c\x1a\x63\x12\x58\xd6\x9c\xf7\xa2\xde\xf9\xde\x14\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x10", ok: false },
  EdV { pk: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x05", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xda\xa7\xeb\xb9\x34\xc6\x24\xb0\xac\x39\xef\x45\xbd\xf3\xbd\x29\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x20", ok: false },
  EdV { pk: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x05", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x68\x9f\xae\xe7\xd2\x18\x93\xc0\xb2\xe6\xbc\x17\xf5\xce\xf7\xa6\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", ok: false },
  EdV { pk: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x05", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xe3\x6a\x67\x72\x8b\xce\x13\x29\x8f\x30\x82\x8c\x0b\xa4\x10\x39\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xf0", ok: false },
  EdV { pk: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x06", sig: b"\xec\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f\xed\xd3\xf5\x5c\x1a\x63\x12\x58\xd6\x9c\xf7\xa2\xde\xf9\xde\x14\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x10", ok: false },
  EdV { pk: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x06", sig: b"\xec\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f\xda\xa7\xeb\xb9\x34\xc6\x24\xb0\xac\x39\xef\x45\xbd\xf3\xbd\x29\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x20", ok: false },
  EdV { pk: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x06", sig: b"\xec\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f\x68\x9f\xae\xe7\xd2\x18\x93\xc0\xb2\xe6\xbc\x17\xf5\xce\xf7\xa6\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", ok: false },
  EdV { pk: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x06", sig: b"\xec\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f\xe3\x6a\x67\x72\x8b\xce\x13\x29\x8f\x30\x82\x8c\x0b\xa4\x10\x39\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xf0", ok: false },
  EdV { pk: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x08", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xed\xd3\xf5\x5c\x1a\x63\x12\x58\xd6\x9c\xf7\xa2\xde\xf9\xde\x14\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x10", ok: false },
  EdV { pk: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x08", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xda\xa7\xeb\xb9\x34\xc6\x24\xb0\xac\x39\xef\x45\xbd\xf3\xbd\x29\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x20", ok: false },
  EdV { pk: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x08", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x68\x9f\xae\xe7\xd2\x18\x93\xc0\xb2\xe6\xbc\x17\xf5\xce\xf7\xa6\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", ok: false },
  EdV { pk: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x08", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xe3\x6a\x67\x72\x8b\xce\x13\x29\x8f\x30\x82\x8c\x0b\xa4\x10\x39\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xf0", ok: false },
  EdV { pk: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x09", sig: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xed\xd3\xf5\x5c\x1a\x63\x12\x58\xd6\x9c\xf7\xa2\xde\xf9\xde\x14\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x10", ok: false },
  EdV { pk: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x09", sig: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xda\xa7\xeb\xb9\x34\xc6\x24\xb0\xac\x39\xef\x45\xbd\xf3\xbd\x29\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x20", ok: false },
  EdV { pk: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x09", sig: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x68\x9f\xae\xe7\xd2\x18\x93\xc0\xb2\xe6\xbc\x17\xf5\xce\xf7\xa6\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", ok: false },
  EdV { pk: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x09", sig: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xe3\x6a\x67\x72\x8b\xce\x13\x29\x8f\x30\x82\x8c\x0b\xa4\x10\x39\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xf0", ok: false },
  EdV { pk: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x0b", sig: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80\xed\xd3\xf5\x5c\x1a\x63\x12\x58\xd6\x9c\xf7\xa2\xde\xf9\xde\x14\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x10", ok: false },
  EdV { pk: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x0b", sig: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80\xda\xa7\xeb\xb9\x34\xc6\x24\xb0\xac\x39\xef\x45\xbd\xf3\xbd\x29\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x20", ok: false },
  EdV { pk: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x0b", sig: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80\x68\x9f\xae\xe7\xd2\x18\x93\xc0\xb2\xe6\xbc\x17\xf5\xce\xf7\xa6\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", ok: false },
  EdV { pk: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x0b", sig: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80\xe3\x6a\x67\x72\x8b\xce\x13\x29\x8f\x30\x82\x8c\x0b\xa4\x10\x39\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xf0", ok: false },
  EdV { pk: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\xfa", msg: b"\x00", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xed\xd3\xf5\x5c\x1a\x63\x12\x58\xd6\x9c\xf7\xa2\xde\xf9\xde\x14\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x10", ok: false },
  EdV { pk: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\xfa", msg: b"\x00", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xda\xa7\xeb\xb9\x34\xc6\x24\xb0\xac\x39\xef\x45\xbd\xf3\xbd\x29\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x20", ok: false },
  EdV { pk: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\xfa", msg: b"\x00", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x68\x9f\xae\xe7\xd2\x18\x93\xc0\xb2\xe6\xbc\x17\xf5\xce\xf7\xa6\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", ok: false },
  EdV { pk: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\xfa", msg: b"\x00", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xe3\x6a\x67\x72\x8b\xce\x13\x29\x8f\x30\x82\x8c\x0b\xa4\x10\x39\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xf0", ok: false },
  EdV { pk: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\xfa", msg: b"\x01", sig: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\x7a\xed\xd3\xf5\x5c\x1a\x63\x12\x58\xd6\x9c\xf7\xa2\xde\xf9\xde\x14\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x10", ok: false },
  EdV { pk: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\xfa", msg: b"\x01", sig: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\x7a\xda\xa7\xeb\xb9\x34\xc6\x24\xb0\xac\x39\xef\x45\xbd\xf3\xbd\x29\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x20", ok: false },
  EdV { pk: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\xfa", msg: b"\x01", sig: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\x7a\x68\x9f\xae\xe7\xd2\x18\x93\xc0\xb2\xe6\xbc\x17\xf5\xce\xf7\xa6\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", ok: false },
  EdV { pk: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\xfa", msg: b"\x01", sig: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\x7a\xe3\x6a\x67\x72\x8b\xce\x13\x29\x8f\x30\x82\x8c\x0b\xa4\x10\x39\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xf0", ok: false },
  EdV { pk: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\xfa", msg: b"\x02", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xed\xd3\xf5\x5c\x1a\x63\x12\x58\xd6\x9c\xf7\xa2\xde\xf9\xde\x14\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x10", ok: false },
  EdV { pk: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\xfa", msg: b"\x02", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xda\xa7\xeb\xb9\x34\xc6\x24\xb0\xac\x39\xef\x45\xbd\xf3\xbd\x29\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x20", ok: false },
  EdV { pk: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\xfa", msg: b"\x02", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x68\x9f\xae\xe7\xd2\x18\x93\xc0\xb2\xe6\xbc\x17\xf5\xce\xf7\xa6\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", ok: false },
  EdV { pk: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\xfa", msg: b"\x02", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xe3\x6a\x67\x72\x8b\xce\x13\x29\x8f\x30\x82\x8c\x0b\xa4\x10\x39\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xf0", ok: false },
  EdV { pk: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\xfa", msg: b"\x03", sig: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80\xed\xd3\xf5\x5c\x1a\x63\x12\x58\xd6\x9c\xf7\xa2\xde\xf9\xde\x14\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x10", ok: false },
  EdV { pk: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\xfa", msg: b"\x03", sig: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80\xda\xa7\xeb\xb9\x34\xc6\x24\xb0\xac\x39\xef\x45\xbd\xf3\xbd\x29\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x20", ok: false },
  EdV { pk: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\xfa", msg: b"\x03", sig: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80\x68\x9f\xae\xe7\xd2\x18\x93\xc0\xb2\xe6\xbc\x17\xf5\xce\xf7\xa6\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", ok: false },
  EdV { pk: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\xfa", msg: b"\x03", sig: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80\xe3\x6a\x67\x72\x8b\xce\x13\x29\x8f\x30\x82\x8c\x0b\xa4\x10\x39\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xf0", ok: false },
  EdV { pk: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\xfa", msg: b"\x03", sig: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05\xed\xd3\xf5\x5c\x1a\x63\x12\x58\xd6\x9c\xf7\xa2\xde\xf9\xde\x14\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x10", ok: false },
  EdV { pk: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\xfa", msg: b"\x03", sig: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05\xda\xa7\xeb\xb9\x34\xc6\x24\xb0\xac\x39\xef\x45\xbd\xf3\xbd\x29\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x20", ok: false },
  EdV { pk: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\xfa", msg: b"\x03", sig: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05\x68\x9f\xae\xe7\xd2\x18\x93\xc0\xb2\xe6\xbc\x17\xf5\xce\xf7\xa6\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", ok: false },
  EdV { pk: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\xfa", msg: b"\x03", sig: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05\xe3\x6a\x67\x72\x8b\xce\x13\x29\x8f\x30\x82\x8c\x0b\xa4\x10\x39\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xf0", ok: false },
  EdV { pk: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\xfa", msg: b"\x04", sig: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xed\xd3\xf5\x5c\x1a\x63\x12\x58\xd6\x9c\xf7\xa2\xde\xf9\xde\x14\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x10", ok: false },
  EdV { pk: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\xfa", msg: b"\x04", sig: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xda\xa7\xeb\xb9\x34\xc6\x24\xb0\xac\x39\xef\x45\xbd\xf3\xbd\x29\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x20", ok: false },
  EdV { pk: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\xfa", msg: b"\x04", sig: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x68\x9f\xae\xe7\xd2\x18\x93\xc0\xb2\xe6\xbc\x17\xf5\xce\xf7\xa6\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", ok: false },
  EdV { pk: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\xfa", msg: b"\x04", sig: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xe3\x6a\x67\x72\x8b\xce\x13\x29\x8f\x30\x82\x8c\x0b\xa4\x10\x39\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xf0", ok: false },
  EdV { pk: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\xfa", msg: b"\x05", sig: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05\xed\xd3\xf5\x5c\x1a\x63\x12\x58\xd6\x9c\xf7\xa2\xde\xf9\xde\x14\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x10", ok: false },
  EdV { pk: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\xfa", msg: b"\x05", sig: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05\xda\xa7\xeb\xb9\x34\xc6\x24\xb0\xac\x39\xef\x45\xbd\xf3\xbd\x29\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x20", ok: false },
  EdV { pk: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\xfa", msg: b"\x05", sig: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05\x68\x9f\xae\xe7\xd2\x18\x93\xc0\xb2\xe6\xbc\x17\xf5\xce\xf7\xa6\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", ok: false },
  EdV { pk: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\xfa", msg: b"\x05", sig: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05\xe3\x6a\x67\x72\x8b\xce\x13\x29\x8f\x30\x82\x8c\x0b\xa4\x10\x39\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xf0", ok: false },
  EdV { pk: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\xfa", msg: b"\x05", sig: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05\xed\xd3\xf5\x5c\x1a\x63\x12\x58\xd6\x9c\xf7\xa2\xde\xf9\xde\x14\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x10", ok: false },
  EdV { pk: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\xfa", msg: b"\x05", sig: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05\xda\xa7\xeb\xb9\x34\xc6\x24\xb0\xac\x39\xef\x45\xbd\xf3\xbd\x29\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x20", ok: false },
  EdV { pk: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\xfa", msg: b"\x05", sig: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05\x68\x9f\xae\xe7\xd2\x18\x93\xc0\xb2\xe6\xbc\x17\xf5\xce\xf7\xa6\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", ok: false },
  EdV { pk: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\xfa", msg: b"\x05", sig: b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05\xe3\x6a\x67\x72\x8b\xce\x13\x29\x8f\x30\x82\x8c\x0b\xa4\x10\x39\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xf0", ok: false },
  EdV { pk: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\xfa", msg: b"\x06", sig: b"\xec\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f\xed\xd3\xf5\x5c\x1a\x63\x12\x58\xd6\x9c\xf7\xa2\xde\xf9\xde\x14\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x10", ok: false },
  EdV { pk: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\xfa", msg: b"\x06", sig: b"\xec\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f\xda\xa7\xeb\xb9\x34\xc6\x24\xb0\xac\x39\xef\x45\xbd\xf3\xbd\x29\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x20", ok: false },
  EdV { pk: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\xfa", msg: b"\x06", sig: b"\xec\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f\x68\x9f\xae\xe7\xd2\x18\x93\xc0\xb2\xe6\xbc\x17\xf5\xce\xf7\xa6\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", ok: false },
  EdV { pk: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\xfa", msg: b"\x06", sig: b"\xec\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f\xe3\x6a\x67\x72\x8b\xce\x13\x29\x8f\x30\x82\x8c\x0b\xa4\x10\x39\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xf0", ok: false },
  EdV { pk: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\xfa", msg: b"\x07", sig: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80\xed\xd3\xf5\x5c\x1a\x63\x12\x58\xd6\x9c\xf7\xa2\xde\xf9\xde\x14\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x10", ok: false },
  EdV { pk: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\xfa", msg: b"\x07", sig: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80\xda\xa7\xeb\xb9\x34\xc6\x24\xb0\xac\x39\xef\x45\xbd\xf3\xbd\x29\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x20", ok: false },
  EdV { pk: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\xfa", msg: b"\x07", sig: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80\x68\x9f\xae\xe7\xd2\x18\x93\xc0\xb2\xe6\xbc\x17\xf5\xce\xf7\xa6\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", ok: false },
  EdV { pk: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\xfa", msg: b"\x07", sig: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80\xe3\x6a\x67\x72\x8b\xce\x13\x29\x8f\x30\x82\x8c\x0b\xa4\x10\x39\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xf0", ok: false },
  EdV { pk: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\xfa", msg: b"\x09", sig: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\xfa\xed\xd3\xf5\x5c\x1a\x63\x12\x58\xd6\x9c\xf7\xa2\xde\xf9\xde\x14\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x10", ok: false },
  EdV { pk: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\xfa", msg: b"\x09", sig: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\xfa\xda\xa7\xeb\xb9\x34\xc6\x24\xb0\xac\x39\xef\x45\xbd\xf3\xbd\x29\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x20", ok: false },
  EdV { pk: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\xfa", msg: b"\x09", sig: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\xfa\x68\x9f\xae\xe7\xd2\x18\x93\xc0\xb2\xe6\xbc\x17\xf5\xce\xf7\xa6\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", ok: false },
  EdV { pk: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\xfa", msg: b"\x09", sig: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\xfa\xe3\x6a\x67\x72\x8b\xce\x13\x29\x8f\x30\x82\x8c\x0b\xa4\x10\x39\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xf0", ok: false },
  EdV { pk: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\xfa", msg: b"\x0b", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xed\xd3\xf5\x5c\x1a\x63\x12\x58\xd6\x9c\xf7\xa2\xde\xf9\xde\x14\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x10", ok: false },
  EdV { pk: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\xfa", msg: b"\x0b", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xda\xa7\xeb\xb9\x34\xc6\x24\xb0\xac\x39\xef\x45\xbd\xf3\xbd\x29\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x20", ok: false },
  EdV { pk: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\xfa", msg: b"\x0b", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x68\x9f\xae\xe7\xd2\x18\x93\xc0\xb2\xe6\xbc\x17\xf5\xce\xf7\xa6\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", ok: false },
  EdV { pk: b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\xfa", msg: b"\x0b", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xe3\x6a\x67\x72\x8b\xce\x13\x29\x8f\x30\x82\x8c\x0b\xa4\x10\x39\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xf0", ok: false },
  EdV { pk: b"\x48\x51\x4d\x1a\xd6\xb4\xfd\x06\x43\xb3\x2d\xed\x26\x71\x3f\x61\x0e\x55\x29\x1d\x2d\x3a\xc2\xa7\x18\x83\xfd\xf6\x28\x32\x36\x12", msg: b"\x01\x00", sig: b"\x07\xb4\xde\xf2\x72\xbf\x28\xa1\x30\xb7\x82\x31\xdf\xd8\x72\xf0\x6a\xb5\xa4\x11\x81\x3f\xf4\xf8\x12\xbc\xa8\x8b\x24\xa2\x27\x0d\xe9\x1c\x54\xe7\x90\x57\xc4\x65\x30\x30\xae\xd1\x81\x08\xc6\x31\x72\xa0\x88\x25\x31\x06\xa8\x60\x31\xfd\xc9\xae\x21\x43\xc9\x05", ok: false },
  EdV { pk: b"\x48\x51\x4d\x1a\xd6\xb4\xfd\x06\x43\xb3\x2d\xed\x26\x71\x3f\x61\x0e\x55\x29\x1d\x2d\x3a\xc2\xa7\x18\x83\xfd\xf6\x28\x32\x36\x12", msg: b"\x01\x00", sig: b"\xd1\xa1\x8b\xf6\xca\x55\xf3\x52\x1e\xb7\x0a\x77\x8f\xff\x07\x5a\x1a\x1a\x31\x7b\x3c\xd2\x0c\xb4\x4c\xdd\x76\x59\xcb\x22\x15\x9c\xcc\x4b\x7c\xae\x13\xea\x85\x11\x86\xd7\xca\x87\x20\xf1\xaa\x7f\xdb\xf3\xdc\xa4\x55\x85\xf4\x94\xc6\x36\x7a\x68\xe1\xcc\x67\x0b", ok: false },
  EdV { pk: b"\x48\x51\x4d\x1a\xd6\xb4\xfd\x06\x43\xb3\x2d\xed\x26\x71\x3f\x61\x0e\x55\x29\x1d\x2d\x3a\xc2\xa7\x18\x83\xfd\xf6\x28\x32\x36\x12", msg: b"\x01\x01", sig: b"\x07\xb4\xde\xf2\x72\xbf\x28\xa1\x30\xb7\x82\x31\xdf\xd8\x72\xf0\x6a\xb5\xa4\x11\x81\x3f\xf4\xf8\x12\xbc\xa8\x8b\x24\xa2\x27\x0d\xed\x56\x57\xcf\xb0\x54\x72\xd3\xe6\xa6\xca\x87\x82\x10\xf2\x76\x21\x6c\xc7\x7e\xab\x55\xb3\xe7\x9f\xdc\x1e\x59\x1e\x66\x40\x00", ok: false },
  EdV { pk: b"\x48\x51\x4d\x1a\xd6\xb4\xfd\x06\x43\xb3\x2d\xed\x26\x71\x3f\x61\x0e\x55\x29\x1d\x2d\x3a\xc2\xa7\x18\x83\xfd\xf6\x28\x32\x36\x12", msg: b"\x01\x01", sig: b"\xd1\xa1\x8b\xf6\xca\x55\xf3\x52\x1e\xb7\x0a\x77\x8f\xff\x07\x5a\x1a\x1a\x31\x7b\x3c\xd2\x0c\xb4\x4c\xdd\x76\x59\xcb\x22\x15\x9c\x17\xb6\xe0\x88\xc6\xe8\x2a\x4e\xa7\x56\x5a\xe3\xa3\xae\x85\xd6\x6e\x09\xac\x98\x27\xfa\xc7\x12\x25\x20\xb3\xda\xd3\xad\x01\x05", ok: false },
  EdV { pk: b"\x48\x51\x4d\x1a\xd6\xb4\xfd\x06\x43\xb3\x2d\xed\x26\x71\x3f\x61\x0e\x55\x29\x1d\x2d\x3a\xc2\xa7\x18\x83\xfd\xf6\x28\x32\x36\x12", msg: b"\x01\x02", sig: b"\x07\xb4\xde\xf2\x72\xbf\x28\xa1\x30\xb7\x82\x31\xdf\xd8\x72\xf0\x6a\xb5\xa4\x11\x81\x3f\xf4\xf8\x12\xbc\xa8\x8b\x24\xa2\x27\x0d\x30\x0a\xf0\xe0\xbd\x1d\x34\xe5\x1f\xe0\xae\xe7\xb7\xcc\xe4\x04\xe9\xe0\x99\xdc\xc7\x6c\xd5\x32\xcc\xd7\xe9\x19\x69\xf3\x06\x0e", ok: false },
  EdV { pk: b"\x48\x51\x4d\x1a\xd6\xb4\xfd\x06\x43\xb3\x2d\xed\x26\x71\x3f\x61\x0e\x55\x29\x1d\x2d\x3a\xc2\xa7\x18\x83\xfd\xf6\x28\x32\x36\x12", msg: b"\x01\x02", sig: b"\xd1\xa1\x8b\xf6\xca\x55\xf3\x52\x1e\xb7\x0a\x77\x8f\xff\x07\x5a\x1a\x1a\x31\x7b\x3c\xd2\x0c\xb4\x4c\xdd\x76\x59\xcb\x22\x15\x9c\xae\x80\xae\x8a\x22\x9c\x6c\x13\xca\xcb\x3f\xbc\xce\x8f\x37\x35\x43\xcd\xe6\xf5\xbd\x4c\xcc\x15\x4c\x2d\x41\x4c\x04\x7e\x47\x00", ok: false },
  EdV { pk: b"\x48\x51\x4d\x1a\xd6\xb4\xfd\x06\x43\xb3\x2d\xed\x26\x71\x3f\x61\x0e\x55\x29\x1d\x2d\x3a\xc2\xa7\x18\x83\xfd\xf6\x28\x32\x36\x12", msg: b"\x01\x03", sig: b"\x07\xb4\xde\xf2\x72\xbf\x28\xa1\x30\xb7\x82\x31\xdf\xd8\x72\xf0\x6a\xb5\xa4\x11\x81\x3f\xf4\xf8\x12\xbc\xa8\x8b\x24\xa2\x27\x0d\x7a\x61\xeb\xd2\x59\x28\x6d\xa9\x43\xd7\x3b\x44\x64\xf0\x75\x3f\xd2\x22\xc4\x43\x81\x90\xa8\xda\x79\x8f\xc9\x29\x9f\x61\x2e\x04", ok: true },
  EdV { pk: b"\x48\x51\x4d\x1a\xd6\xb4\xfd\x06\x43\xb3\x2d\xed\x26\x71\x3f\x61\x0e\x55\x29\x1d\x2d\x3a\xc2\xa7\x18\x83\xfd\xf6\x28\x32\x36\x12", msg: b"\x01\x03", sig: b"\xd1\xa1\x8b\xf6\xca\x55\xf3\x52\x1e\xb7\x0a\x77\x8f\xff\x07\x5a\x1a\x1a\x31\x7b\x3c\xd2\x0c\xb4\x4c\xdd\x76\x59\xcb\x22\x15\x9c\xff\xc9\xa8\xc8\xdf\xc3\x5b\xa8\xe8\xb7\x3f\xef\xe9\x08\xef\x01\xf6\x11\x3d\xcb\x0b\xfd\x84\x42\x78\xa5\x67\x34\x5e\x82\xa3\x0e", ok: false },
  EdV { pk: b"\x48\x51\x4d\x1a\xd6\xb4\xfd\x06\x43\xb3\x2d\xed\x26\x71\x3f\x61\x0e\x55\x29\x1d\x2d\x3a\xc2\xa7\x18\x83\xfd\xf6\x28\x32\x36\x12", msg: b"\x01\x04", sig: b"\x07\xb4\xde\xf2\x72\xbf\x28\xa1\x30\xb7\x82\x31\xdf\xd8\x72\xf0\x6a\xb5\xa4\x11\x81\x3f\xf4\xf8\x12\xbc\xa8\x8b\x24\xa2\x27\x0d\x5d\x48\x04\x2b\x7f\x4e\xec\x88\x66\x0f\x69\xf0\x75\x1e\x6f\xbf\xe3\x50\xce\xbc\xa3\x93\x79\xd2\xce\x3a\x34\x3c\x3a\x90\xb0\x0e", ok: false },
  EdV { pk: b"\x48\x51\x4d\x1a\xd6\xb4\xfd\x06\x43\xb3\x2d\xed\x26\x71\x3f\x61\x0e\x55\x29\x1d\x2d\x3a\xc2\xa7\x18\x83\xfd\xf6\x28\x32\x36\x12", msg: b"\x01\x04", sig: b"\xd1\xa1\x8b\xf6\xca\x55\xf3\x52\x1e\xb7\x0a\x77\x8f\xff\x07\x5a\x1a\x1a\x31\x7b\x3c\xd2\x0c\xb4\x4c\xdd\x76\x59\xcb\x22\x15\x9c\x25\x08\x0d\x5e\x27\xae\x1f\x5c\xc6\x8e\x86\x1e\x94\x71\x72\x55\x86\x0a\x43\xcd\x93\xfe\xff\x65\x5e\x3b\xfd\x71\x5b\xe5\xa3\x01", ok: false },
  EdV { pk: b"\x48\x51\x4d\x1a\xd6\xb4\xfd\x06\x43\xb3\x2d\xed\x26\x71\x3f\x61\x0e\x55\x29\x1d\x2d\x3a\xc2\xa7\x18\x83\xfd\xf6\x28\x32\x36\x12", msg: b"\x01\x05", sig: b"\x07\xb4\xde\xf2\x72\xbf\x28\xa1\x30\xb7\x82\x31\xdf\xd8\x72\xf0\x6a\xb5\xa4\x11\x81\x3f\xf4\xf8\x12\xbc\xa8\x8b\x24\xa2\x27\x0d\x9f\x2b\xe0\x0f\xf9\x11\xf8\x47\x3d\x50\xc9\x4f\xa1\x65\x43\xb0\x27\x47\xe7\xa7\xd3\x24\x63\x29\xfe\x40\x83\x0b\xfb\x7e\x04\x01", ok: false },
  EdV { pk: b"\x48\x51\x4d\x1a\xd6\xb4\xfd\x06\x43\xb3\x2d\xed\x26\x71\x3f\x61\x0e\x55\x29\x1d\x2d\x3a\xc2\xa7\x18\x83\xfd\xf6\x28\x32\x36\x12", msg: b"\x01\x05", sig: b"\xd1\xa1\x8b\xf6\xca\x55\xf3\x52\x1e\xb7\x0a\x77\x8f\xff\x07\x5a\x1a\x1a\x31\x7b\x3c\xd2\x0c\xb4\x4c\xdd\x76\x59\xcb\x22\x15\x9c\xb8\xdf\x64\x47\xab\x21\x42\xe9\x4b\x4e\x55\x98\xd1\xf0\x67\x5e\x81\x9d\xe0\xe3\x12\xb3\x49\xe8\x67\x2a\x6b\x1a\xc6\x12\xff\x09", ok: false },
  EdV { pk: b"\x48\x51\x4d\x1a\xd6\xb4\xfd\x06\x43\xb3\x2d\xed\x26\x71\x3f\x61\x0e\x55\x29\x1d\x2d\x3a\xc2\xa7\x18\x83\xfd\xf6\x28\x32\x36\x12", msg: b"\x01\x06", sig: b"\x07\xb4\xde\xf2\x72\xbf\x28\xa1\x30\xb7\x82\x31\xdf\xd8\x72\xf0\x6a\xb5\xa4\x11\x81\x3f\xf4\xf8\x12\xbc\xa8\x8b\x24\xa2\x27\x0d\x90\xc8\xa6\x8b\x82\xe1\x8a\x7d\xb5\x55\x90\x8e\x34\xe0\xf8\x7f\x8e\x79\x32\x0b\x17\x0b\xd5\xc9\x9a\xa4\xc7\xf6\x56\x98\x90\x09", ok: false },
  EdV { pk: b"\x48\x51\x4d\x1a\xd6\xb4\xfd\x06\x43\xb3\x2d\xed\x26\x71\x3f\x61\x0e\x55\x29\x1d\x2d\x3a\xc2\xa7\x18\x83\xfd\xf6\x28\x32\x36\x12", msg: b"\x01\x06", sig: b"\xd1\xa1\x8b\xf6\xca\x55\xf3\x52\x1e\xb7\x0a\x77\x8f\xff\x07\x5a\x1a\x1a\x31\x7b\x3c\xd2\x0c\xb4\x4c\xdd\x76\x59\xcb\x22\x15\x9c\xa0\x6e\x54\xb5\x77\xcd\x7b\x0c\xa4\x28\x8f\x8c\xcc\x59\x8c\x7e\x40\x10\x56\x13\x53\xf6\xc4\x6f\xec\x86\x2a\x38\x09\xdb\x8f\x09", ok: false },
  EdV { pk: b"\x48\x51\x4d\x1a\xd6\xb4\xfd\x06\x43\xb3\x2d\xed\x26\x71\x3f\x61\x0e\x55\x29\x1d\x2d\x3a\xc2\xa7\x18\x83\xfd\xf6\x28\x32\x36\x12", msg: b"\x01\x07", sig: b"\x07\xb4\xde\xf2\x72\xbf\x28\xa1\x30\xb7\x82\x31\xdf\xd8\x72\xf0\x6a\xb5\xa4\x11\x81\x3f\xf4\xf8\x12\xbc\xa8\x8b\x24\xa2\x27\x0d\xb2\x46\xa9\x7c\x3d\x9b\xb7\x12\x91\x8c\xb2\x17\x32\x47\x0a\x63\xcc\xb8\xc0\xe6\x88\xf1\xe8\x12\x1b\x3e\xc3\x06\xb3\x5b\xb2\x01", ok: false },
  EdV { pk: b"\x48\x51\x4d\x1a\xd6\xb4\xfd\x06\x43\xb3\x2d\xed\x26\x71\x3f\x61\x0e\x55\x29\x1d\x2d\x3a\xc2\xa7\x18\x83\xfd\xf6\x28\x32\x36\x12", msg: b"\x01\x07", sig: b"\xd1\xa1\x8b\xf6\xca\x55\xf3\x52\x1e\xb7\x0a\x77\x8f\xff\x07\x5a\x1a\x1a\x31\x7b\x3c\xd2\x0c\xb4\x4c\xdd\x76\x59\xcb\x22\x15\x9c\xe2\xc5\xc3\x7d\x78\xcd\x74\xe4\x02\x85\x5d\x22\x0e\x2a\x32\xd3\x5b\xe4\xa4\xc3\x12\xa1\x20\x26\x97\x44\x2d\xcf\x7d\xe0\x40\x0e", ok: false },
  EdV { pk: b"\x48\x51\x4d\x1a\xd6\xb4\xfd\x06\x43\xb3\x2d\xed\x26\x71\x3f\x61\x0e\x55\x29\x1d\x2d\x3a\xc2\xa7\x18\x83\xfd\xf6\x28\x32\x36\x12", msg: b"\x01\x08", sig: b"\x07\xb4\xde\xf2\x72\xbf\x28\xa1\x30\xb7\x82\x31\xdf\xd8\x72\xf0\x6a\xb5\xa4\x11\x81\x3f\xf4\xf8\x12\xbc\xa8\x8b\x24\xa2\x27\x0d\x70\x6d\xf6\x3c\x5e\xbc\x54\xf8\xdc\x73\x17\xa4\xe7\xb6\x22\xfa\x5c\xff\x68\x05\xd3\xcc\xc1\xbd\xf6\x0b\x2d\x7c\xb2\xfe\x7e\x08", ok: false },
  EdV { pk: b"\x48\x51\x4d\x1a\xd6\xb4\xfd\x06\x43\xb3\x2d\xed\x26\x71\x3f\x61\x0e\x55\x29\x1d\x2d\x3a\xc2\xa7\x18\x83\xfd\xf6\x28\x32\x36\x12", msg: b"\x01\x08", sig: b"\xd1\xa1\x8b\xf6\xca\x55\xf3\x52\x1e\xb7\x0a\x77\x8f\xff\x07\x5a\x1a\x1a\x31\x7b\x3c\xd2\x0c\xb4\x4c\xdd\x76\x59\xcb\x22\x15\x9c\xaa\x62\x3a\x3e\xc8\x24\x2b\x15\x9d\xe5\x7d\x3f\x6f\x34\xd1\x39\x6c\x13\x4f\xd2\xca\x39\x1d\xab\x64\x55\xad\xbd\x81\x8a\x13\x0d", ok: false },
  EdV { pk: b"\x48\x51\x4d\x1a\xd6\xb4\xfd\x06\x43\xb3\x2d\xed\x26\x71\x3f\x61\x0e\x55\x29\x1d\x2d\x3a\xc2\xa7\x18\x83\xfd\xf6\x28\x32\x36\x12", msg: b"\x01\x09", sig: b"\x07\xb4\xde\xf2\x72\xbf\x28\xa1\x30\xb7\x82\x31\xdf\xd8\x72\xf0\x6a\xb5\xa4\x11\x81\x3f\xf4\xf8\x12\xbc\xa8\x8b\x24\xa2\x27\x0d\x4e\x57\xcd\x8e\x0f\x5b\x80\xdf\x4f\xfe\xa6\x72\x86\x0a\xcd\xbb\x21\x2b\x23\x68\x60\x90\xad\xaf\x16\x0f\x13\x8d\x46\x30\x58\x05", ok: false },
  EdV { pk: b"\x48\x51\x4d\x1a\xd6\xb4\xfd\x06\x43\xb3\x2d\xed\x26\x71\x3f\x61\x0e\x55\x29\x1d\x2d\x3a\xc2\xa7\x18\x83\xfd\xf6\x28\x32\x36\x12", msg: b"\x01\x09", sig: b"\xd1\xa1\x8b\xf6\xca\x55\xf3\x52\x1e\xb7\x0a\x77\x8f\xff\x07\x5a\x1a\x1a\x31\x7b\x3c\xd2\x0c\xb4\x4c\xdd\x76\x59\xcb\x22\x15\x9c\x08\x33\x25\x2f\xd2\x8d\xfe\xd1\x1f\x14\x02\x0c\x24\xce\xa7\x32\x01\xfd\xce\xa9\x33\xc2\xd3\x88\x50\xd8\xa6\xb9\xa7\xb3\x2e\x03", ok: false },
  EdV { pk: b"\x2f\x52\xaf\xd1\x7a\x8b\xda\x19\xd2\x06\x29\xdb\x5d\xb7\xbe\xb7\x6c\xb9\xfe\x42\x9a\xa3\xd9\x54\xdb\x0d\x3a\x7d\xbc\x21\x44\xbd", msg: b"\x02\x00", sig: b"\x4a\x2c\x4d\x4e\xd3\x5d\x83\xef\x83\x8d\x39\x1c\x1e\x9c\x33\xf6\xaa\xce\x36\x3a\xc9\x44\x44\x64\x12\xfd\x64\xf2\x61\x30\x9f\x90\xc5\x71\x7e\x39\x8e\xd6\x00\xbf\x05\x0e\x8a\xaf\x22\xd1\x54\x73\xa4\xe7\xf3\x3d\xc7\x2b\x43\x94\x4c\x6f\x93\xbf\xb7\x32\xb1\x09", ok: false },
  EdV { pk: b"\x2f\x52\xaf\xd1\x7a\x8b\xda\x19\xd2\x06\x29\xdb\x5d\xb7\xbe\xb7\x6c\xb9\xfe\x42\x9a\xa3\xd9\x54\xdb\x0d\x3a\x7d\xbc\x21\x44\xbd", msg: b"\x02\x00", sig: b"\x51\xd5\x93\x37\x4a\x4e\x01\x0e\xe7\x54\xd0\x36\x5a\xee\xa1\x52\x96\xa6\x0d\x6a\x02\xcd\x48\x2e\xc4\x4f\x9d\xa2\x0a\x8f\xff\x3b\x44\xf7\x13\x56\x65\x34\x9a\xdc\x39\x28\x97\x70\x96\x04\x3a\xb6\x33\x70\x7c\xc6\xb1\xab\x40\x05\xff\x9b\xf4\x81\x50\xdb\xaa\x0b", ok: false },
  EdV { pk: b"\x2f\x52\xaf\xd1\x7a\x8b\xda\x19\xd2\x06\x29\xdb\x5d\xb7\xbe\xb7\x6c\xb9\xfe\x42\x9a\xa3\xd9\x54\xdb\x0d\x3a\x7d\xbc\x21\x44\xbd", msg: b"\x02\x01", sig: b"\x4a\x2c\x4d\x4e\xd3\x5d\x83\xef\x83\x8d\x39\x1c\x1e\x9c\x33\xf6\xaa\xce\x36\x3a\xc9\x44\x44\x64\x12\xfd\x64\xf2\x61\x30\x9f\x90\x0e\x71\xc5\x4d\x78\xed\x2a\xd2\x23\xa5\x9e\x0e\xca\xfa\x19\xd4\x12\x1c\x94\x88\x34\xa1\xd7\xbb\x29\x47\x50\xc2\x2d\xff\xc2\x0c", ok: false },
  EdV { pk: b"\x2f\x52\xaf\xd1\x7a\x8b\xda\x19\xd2\x06\x29\xdb\x5d\xb7\xbe\xb7\x6c\xb9\xfe\x42\x9a\xa3\xd9\x54\xdb\x0d\x3a\x7d\xbc\x21\x44\xbd", msg: b"\x02\x01", sig: b"\x51\xd5\x93\x37\x4a\x4e\x01\x0e\xe7\x54\xd0\x36\x5a\xee\xa1\x52\x96\xa6\x0d\x6a\x02\xcd\x48\x2e\xc4\x4f\x9d\xa2\x0a\x8f\xff\x3b\x85\xfe\x22\x43\xa0\x5a\x73\xca\xdb\xb0\x3f\xd1\xbf\x29\xee\xae\x65\x95\x14\x5f\xb2\x91\x14\x50\x7c\x58\xa6\x07\x22\x12\x44\x02", ok: false },
  EdV { pk: b"\x2f\x52\xaf\xd1\x7a\x8b\xda\x19\xd2\x06\x29\xdb\x5d\xb7\xbe\xb7\x6c\xb9\xfe\x42\x9a\xa3\xd9\x54\xdb\x0d\x3a\x7d\xbc\x21\x44\xbd", msg: b"\x02\x02", sig: b"\x4a\x2c\x4d\x4e\xd3\x5d\x83\xef\x83\x8d\x39\x1c\x1e\x9c\x33\xf6\xaa\xce\x36\x3a\xc9\x44\x44\x64\x12\xfd\x64\xf2\x61\x30\x9f\x90\xf0\x06\x08\xdd\xfe\x1a\x2a\x18\xb7\x7a\x73\xa9\x77\x16\x38\xd0\x91\x8f\xcf\xa6\x8e\x16\xc6\x82\x35\xc0\x69\x19\x18\xd7\x7f\x0e", ok: false },
  EdV { pk: b"\x2f\x52\xaf\xd1\x7a\x8b\xda\x19\xd2\x06\x29\xdb\x5d\xb7\xbe\xb7\x6c\xb9\xfe\x42\x9a\xa3\xd9\x54\xdb\x0d\x3a\x7d\xbc\x21\x44\xbd", msg: b"\x02\x02", sig: b"\x51\xd5\x93\x37\x4a\x4e\x01\x0e\xe7\x54\xd0\x36\x5a\xee\xa1\x52\x96\xa6\x0d\x6a\x02\xcd\x48\x2e\xc4\x4f\x9d\xa2\x0a\x8f\xff\x3b\x51\x7f\x16\x75\xfc\x59\x8b\x0e\x10\xdc\xd3\xfa\x9f\xca\xa6\x81\x41\x7e\x66\x9f\x66\xc4\x34\x6a\x7f\x41\x0d\x83\x16\xaf\x19\x09", ok: false },
  EdV { pk: b"\x2f\x52\xaf\xd1\x7a\x8b\xda\x19\xd2\x06\x29\xdb\x5d\xb7\xbe\xb7\x6c\xb9\xfe\x42\x9a\xa3\xd9\x54\xdb\x0d\x3a\x7d\xbc\x21\x44\xbd", msg: b"\x02\x03", sig: b"\x4a\x2c\x4d\x4e\xd3\x5d\x83\xef\x83\x8d\x39\x1c\x1e\x9c\x33\xf6\xaa\xce\x36\x3a\xc9\x44\x44\x64\x12\xfd\x64\xf2\x61\x30\x9f\x90\x09\xce\x75\x78\xb2\x57\xa3\x4f\x08\x43\x56\xf8\xb6\x0a\x03\xa2\xe5\xf0\xfc\x6d\x6e\xcb\x09\xc4\x8a\x84\xf1\x3d\xf9\x24\x35\x06", ok: false },
  EdV { pk: b"\x2f\x52\xaf\xd1\x7a\x8b\xda\x19\xd2\x06\x29\xdb\x5d\xb7\xbe\xb7\x6c\xb9\xfe\x42\x9a\xa3\xd9\x54\xdb\x0d\x3a\x7d\xbc\x21\x44\xbd", msg: b"\x02\x03", sig: b"\x51\xd5\x93\x37\x4a\x4e\x01\x0e\xe7\x54\xd0\x36\x5a\xee\xa1\x52\x96\xa6\x0d\x6a\x02\xcd\x48\x2e\xc4\x4f\x9d\xa2\x0a\x8f\xff\x3b\x96\x43\x6c\x96\xb6\x34\xd7\xfc\x30\x3a\x48\x67\x6b\x81\x71\x5f\x14\xdf\x55\xbc\xe7\x99\xb7\x4a\x9e\xa2\x2f\xd4\xb3\xea\x12\x05", ok: false },
  EdV { pk: b"\x2f\x52\xaf\xd1\x7a\x8b\xda\x19\xd2\x06\x29\xdb\x5d\xb7\xbe\xb7\x6c\xb9\xfe\x42\x9a\xa3\xd9\x54\xdb\x0d\x3a\x7d\xbc\x21\x44\xbd", msg: b"\x02\x04", sig: b"\x4a\x2c\x4d\x4e\xd3\x5d\x83\xef\x83\x8d\x39\x1c\x1e\x9c\x33\xf6\xaa\xce\x36\x3a\xc9\x44\x44\x64\x12\xfd\x64\xf2\x61\x30\x9f\x90\xb5\x42\x4c\xe7\x35\x26\x6c\x8f\x04\x7d\xd8\x41\xb5\x9f\x95\x66\x1c\x6a\x59\x3e\x22\x02\x57\x04\x82\xe5\x12\x5f\xc1\x29\xaf\x0f", ok: false },
  EdV { pk: b"\x2f\x52\xaf\xd1\x7a\x8b\xda\x19\xd2\x06\x29\xdb\x5d\xb7\xbe\xb7\x6c\xb9\xfe\x42\x9a\xa3\xd9\x54\xdb\x0d\x3a\x7d\xbc\x21\x44\xbd", msg: b"\x02\x04", sig: b"\x51\xd5\x93\x37\x4a\x4e\x01\x0e\xe7\x54\xd0\x36\x5a\xee\xa1\x52\x96\xa6\x0d\x6a\x02\xcd\x48\x2e\xc4\x4f\x9d\xa2\x0a\x8f\xff\x3b\xfc\xfd\x35\xd9\xcd\x76\x59\x81\xfb\x9d\x20\xb1\xd4\x5d\x71\x96\xbc\x27\xfd\xef\x0d\x48\x01\xe5\xe5\x95\x87\x72\xc1\x74\xec\x0c", ok: false },
  EdV { pk: b"\x2f\x52\xaf\xd1\x7a\x8b\xda\x19\xd2\x06\x29\xdb\x5d\xb7\xbe\xb7\x6c\xb9\xfe\x42\x9a\xa3\xd9\x54\xdb\x0d\x3a\x7d\xbc\x21\x44\xbd", msg: b"\x02\x05", sig: b"\x4a\x2c\x4d\x4e\xd3\x5d\x83\xef\x83\x8d\x39\x1c\x1e\x9c\x33\xf6\xaa\xce\x36\x3a\xc9\x44\x44\x64\x12\xfd\x64\xf2\x61\x30\x9f\x90\x1e\xce\x07\x43\x88\x84\xd5\x2f\xc0\xf5\xf6\x0c\xf8\x25\x08\x9c\x5a\x2e\xe6\x7e\x38\x37\x82\x1c\x43\x51\xb4\xd5\x2b\xc0\x6e\x0d", ok: false },
  EdV { pk: b"\x2f\x52\xaf\xd1\x7a\x8b\xda\x19\xd2\x06\x29\xdb\x5d\xb7\xbe\xb7\x6c\xb9\xfe\x42\x9a\xa3\xd9\x54\xdb\x0d\x3a\x7d\xbc\x21\x44\xbd", msg: b"\x02\x05", sig: b"\x51\xd5\x93\x37\x4a\x4e\x01\x0e\xe7\x54\xd0\x36\x5a\xee\xa1\x52\x96\xa6\x0d\x6a\x02\xcd\x48\x2e\xc4\x4f\x9d\xa2\x0a\x8f\xff\x3b\x6d\x86\x28\x7c\xee\x18\x95\x07\x92\xb0\x5b\xbd\xf5\x11\x46\x2d\x9b\xdc\x81\x1c\x78\xd3\xd9\x9e\xac\x5e\x68\x8f\x03\x04\x53\x00", ok: false },
  EdV { pk: b"\x2f\x52\xaf\xd1\x7a\x8b\xda\x19\xd2\x06\x29\xdb\x5d\xb7\xbe\xb7\x6c\xb9\xfe\x42\x9a\xa3\xd9\x54\xdb\x0d\x3a\x7d\xbc\x21\x44\xbd", msg: b"\x02\x06", sig: b"\x4a\x2c\x4d\x4e\xd3\x5d\x83\xef\x83\x8d\x39\x1c\x1e\x9c\x33\xf6\xaa\xce\x36\x3a\xc9\x44\x44\x64\x12\xfd\x64\xf2\x61\x30\x9f\x90\xb3\x7c\xf8\x78\x33\xaf\xec\xe1\xa9\x59\x60\xe6\x55\xc7\xff\xd5\x21\xb0\x43\x68\x6d\x85\xcf\x2e\xb2\x72\x3b\xe2\x5f\x90\x75\x05", ok: false },
  EdV { pk: b"\x2f\x52\xaf\xd1\x7a\x8b\xda\x19\xd2\x06\x29\xdb\x5d\xb7\xbe\xb7\x6c\xb9\xfe\x42\x9a\xa3\xd9\x54\xdb\x0d\x3a\x7d\xbc\x21\x44\xbd", msg: b"\x02\x06", sig: b"\x51\xd5\x93\x37\x4a\x4e\x01\x0e\xe7\x54\xd0\x36\x5a\xee\xa1\x52\x96\xa6\x0d\x6a\x02\xcd\x48\x2e\xc4\x4f\x9d\xa2\x0a\x8f\xff\x3b\xb3\x56\x9c\x18\x32\xfb\xc7\x16\xad\xba\x40\x5f\x37\xa6\x08\x01\x79\x6b\xdd\x3a\xce\x95\x1d\x1b\x88\xf7\x2d\x8f\xc0\xef\x04\x0c", ok: false },
  EdV { pk: b"\x2f\x52\xaf\xd1\x7a\x8b\xda\x19\xd2\x06\x29\xdb\x5d\xb7\xbe\xb7\x6c\xb9\xfe\x42\x9a\xa3\xd9\x54\xdb\x0d\x3a\x7d\xbc\x21\x44\xbd", msg: b"\x02\x07", sig: b"\x4a\x2c\x4d\x4e\xd3\x5d\x83\xef\x83\x8d\x39\x1c\x1e\x9c\x33\xf6\xaa\xce\x36\x3a\xc9\x44\x44\x64\x12\xfd\x64\xf2\x61\x30\x9f\x90\xbe\xdf\xfa\x0d\x0f\xc7\xcc\x5d\xde\x41\x18\x31\x48\x47\xc0\xa8\xc0\xbf\xa2\x4c\xff\x19\x46\x19\xd2\x7f\xd3\x80\x22\x53\xb8\x0a", ok: false },
  EdV { pk: b"\x2f\x52\xaf\xd1\x7a\x8b\xda\x19\xd2\x06\x29\xdb\x5d\xb7\xbe\xb7\x6c\xb9\xfe\x42\x9a\xa3\xd9\x54\xdb\x0d\x3a\x7d\xbc\x21\x44\xbd", msg: b"\x02\x07", sig: b"\x51\xd5\x93\x37\x4a\x4e\x01\x0e\xe7\x54\xd0\x36\x5a\xee\xa1\x52\x96\xa6\x0d\x6a\x02\xcd\x48\x2e\xc4\x4f\x9d\xa2\x0a\x8f\xff\x3b\x43\xd9\xcc\xf9\x4e\x4e\x37\xb0\x19\x13\x11\xcc\xa0\x29\x2a\x6a\xef\x9f\x50\xf2\x17\x2f\x79\xe9\xcb\x9c\xe7\x72\xe4\xd6\x4d\x0d", ok: false },
  EdV { pk: b"\x2f\x52\xaf\xd1\x7a\x8b\xda\x19\xd2\x06\x29\xdb\x5d\xb7\xbe\xb7\x6c\xb9\xfe\x42\x9a\xa3\xd9\x54\xdb\x0d\x3a\x7d\xbc\x21\x44\xbd", msg: b"\x02\x08", sig: b"\x4a\x2c\x4d\x4e\xd3\x5d\x83\xef\x83\x8d\x39\x1c\x1e\x9c\x33\xf6\xaa\xce\x36\x3a\xc9\x44\x44\x64\x12\xfd\x64\xf2\x61\x30\x9f\x90\x67\x64\x0b\x32\x89\x2d\x70\x7b\x67\xdf\x5a\x23\x76\x15\x3a\x86\x85\x38\x75\xb4\xa6\x08\x05\x0a\xcb\x90\xab\xee\xd0\xc0\x24\x0a", ok: false },
  EdV { pk: b"\x2f\x52\xaf\xd1\x7a\x8b\xda\x19\xd2\x06\x29\xdb\x5d\xb7\xbe\xb7\x6c\xb9\xfe\x42\x9a\xa3\xd9\x54\xdb\x0d\x3a\x7d\xbc\x21\x44\xbd", msg: b"\x02\x08", sig: b"\x51\xd5\x93\x37\x4a\x4e\x01\x0e\xe7\x54\xd0\x36\x5a\xee\xa1\x52\x96\xa6\x0d\x6a\x02\xcd\x48\x2e\xc4\x4f\x9d\xa2\x0a\x8f\xff\x3b\x8a\x18\xf8\x5b\x7f\xb8\xda\xbc\xfe\x87\x02\xb4\x95\x52\x72\x9c\x83\xa1\x6a\x71\x55\x16\xeb\x8f\x2a\x74\x4d\x73\x14\x9b\xf0\x0a", ok: false },
  EdV { pk: b"\x2f\x52\xaf\xd1\x7a\x8b\xda\x19\xd2\x06\x29\xdb\x5d\xb7\xbe\xb7\x6c\xb9\xfe\x42\x9a\xa3\xd9\x54\xdb\x0d\x3a\x7d\xbc\x21\x44\xbd", msg: b"\x02\x09", sig: b"\x4a\x2c\x4d\x4e\xd3\x5d\x83\xef\x83\x8d\x39\x1c\x1e\x9c\x33\xf6\xaa\xce\x36\x3a\xc9\x44\x44\x64\x12\xfd\x64\xf2\x61\x30\x9f\x90\xda\x13\x9b\x5a\x93\x98\xdc\x74\x8b\x96\xc1\x33\x75\x92\xfc\x47\xc8\x48\x09\xf2\xcc\x36\x72\xd5\xe8\xaf\x90\xdc\xab\xa4\xdf\x02", ok: false },
  EdV { pk: b"\x2f\x52\xaf\xd1\x7a\x8b\xda\x19\xd2\x06\x29\xdb\x5d\xb7\xbe\xb7\x6c\xb9\xfe\x42\x9a\xa3\xd9\x54\xdb\x0d\x3a\x7d\xbc\x21\x44\xbd", msg: b"\x02\x09", sig: b"\x51\xd5\x93\x37\x4a\x4e\x01\x0e\xe7\x54\xd0\x36\x5a\xee\xa1\x52\x96\xa6\x0d\x6a\x02\xcd\x48\x2e\xc4\x4f\x9d\xa2\x0a\x8f\xff\x3b\x61\xfc\xec\xb3\xab\xc3\xe1\x4a\x83\x70\xeb\x8e\xc5\xfa\x47\x32\xe7\x00\x78\xfd\xf5\x66\xb5\xb7\xf4\x2e\x07\x87\xa2\xe4\x0c\x07", ok: false },
  EdV { pk: b"\x4c\x92\x2d\x1f\x39\xfc\xe7\xa6\x93\xcd\xfc\x58\x52\x1c\x7d\xd3\x95\x4d\xb0\x75\xc1\x5c\xb8\x48\xb9\xdd\xa9\x3f\xd3\xc7\x70\xc4", msg: b"\x04\x00", sig: b"\xf8\xf6\x7f\x24\xcc\xdf\x30\xf0\x95\x7d\x46\x5d\x77\xeb\xc4\x90\xd0\x90\x02\x98\xee\x76\xd8\x03\xff\xa1\xa4\x67\x82\xf5\x45\x7a\x7c\x78\x43\x4c\x43\x93\xc7\x3b\xe5\xc7\xc6\x61\x71\x28\x63\x6d\x12\x04\x14\xc2\x27\xbb\xf8\xac\x30\xc1\x1f\xad\x52\x64\xc2\x09", ok: true },
  EdV { pk: b"\x4c\x92\x2d\x1f\x39\xfc\xe7\xa6\x93\xcd\xfc\x58\x52\x1c\x7d\xd3\x95\x4d\xb0\x75\xc1\x5c\xb8\x48\xb9\xdd\xa9\x3f\xd3\xc7\x70\xc4", msg: b"\x04\x00", sig: b"\x71\x79\x9e\x67\xb1\x87\x94\xc1\x3e\x9c\xcd\x7b\xb5\xd2\x27\x81\xf9\xba\xe9\xa3\x60\x07\x9f\x1f\x8b\x8f\x9f\x50\x05\xcc\x08\xee\x38\x45\x44\x96\x5e\xea\x02\x21\x53\x9b\xf7\xff\xc4\x0e\x8a\x2c\x20\x25\xdb\xf7\x5b\x91\x03\x73\x1d\xb9\xaf\x05\x6f\x5c\xcb\x0d", ok: false },
  EdV { pk: b"\x4c\x92\x2d\x1f\x39\xfc\xe7\xa6\x93\xcd\xfc\x58\x52\x1c\x7d\xd3\x95\x4d\xb0\x75\xc1\x5c\xb8\x48\xb9\xdd\xa9\x3f\xd3\xc7\x70\xc4", msg: b"\x04\x01", sig: b"\xf8\xf6\x7f\x24\xcc\xdf\x30\xf0\x95\x7d\x46\x5d\x77\xeb\xc4\x90\xd0\x90\x02\x98\xee\x76\xd8\x03\xff\xa1\xa4\x67\x82\xf5\x45\x7a\x28\x76\x3f\xfe\x61\x47\x72\xfc\xae\x1d\x00\x12\x9a\xee\x05\x46\x8b\x9a\xc2\x8a\xf5\xb7\x01\x4d\xf0\xff\x59\xf3\x9b\x47\x71\x04", ok: true },
  EdV { pk: b"\x4c\x92\x2d\x1f\x39\xfc\xe7\xa6\x93\xcd\xfc\x58\x52\x1c\x7d\xd3\x95\x4d\xb0\x75\xc1\x5c\xb8\x48\xb9\xdd\xa9\x3f\xd3\xc7\x70\xc4", msg: b"\x04\x01", sig: b"\x71\x79\x9e\x67\xb1\x87\x94\xc1\x3e\x9c\xcd\x7b\xb5\xd2\x27\x81\xf9\xba\xe9\xa3\x60\x07\x9f\x1f\x8b\x8f\x9f\x50\x05\xcc\x08\xee\xfa\xb7\x84\x3c\x4b\xa7\xcb\x07\x05\xde\xc2\x5a\x64\x9b\x19\x0e\x92\x1f\x3f\xdd\x37\x82\x93\x1e\x0b\x84\x60\xe6\xbe\xf9\x0f\x0f", ok: false },
  EdV { pk: b"\x4c\x92\x2d\x1f\x39\xfc\xe7\xa6\x93\xcd\xfc\x58\x52\x1c\x7d\xd3\x95\x4d\xb0\x75\xc1\x5c\xb8\x48\xb9\xdd\xa9\x3f\xd3\xc7\x70\xc4", msg: b"\x04\x02", sig: b"\xf8\xf6\x7f\x24\xcc\xdf\x30\xf0\x95\x7d\x46\x5d\x77\xeb\xc4\x90\xd0\x90\x02\x98\xee\x76\xd8\x03\xff\xa1\xa4\x67\x82\xf5\x45\x7a\x00\xc2\xe6\xd0\x66\xdd\x80\x6a\xd9\x8f\xa1\x67\x8d\xf9\x5c\xe2\x1d\x95\xac\x9d\x41\xc0\xa9\xf8\x2b\x1a\x08\x02\x0d\xbd\x38\x06", ok: false },
  EdV { pk: b"\x4c\x92\x2d\x1f\x39\xfc\xe7\xa6\x93\xcd\xfc\x58\x52\x1c\x7d\xd3\x95\x4d\xb0\x75\xc1\x5c\xb8\x48\xb9\xdd\xa9\x3f\xd3\xc7\x70\xc4", msg: b"\x04\x02", sig: b"\x71\x79\x9e\x67\xb1\x87\x94\xc1\x3e\x9c\xcd\x7b\xb5\xd2\x27\x81\xf9\xba\xe9\xa3\x60\x07\x9f\x1f\x8b\x8f\x9f\x50\x05\xcc\x08\xee\x82\x17\x6b\xf5\x62\x14\x25\x31\x36\x1b\x11\x5f\x49\x74\x71\x52\xea\x55\x48\xba\x42\x7c\x44\xba\xf5\xb2\x6f\x5b\x1b\x69\x68\x0d", ok: false },
  EdV { pk: b"\x4c\x92\x2d\x1f\x39\xfc\xe7\xa6\x93\xcd\xfc\x58\x52\x1c\x7d\xd3\x95\x4d\xb0\x75\xc1\x5c\xb8\x48\xb9\xdd\xa9\x3f\xd3\xc7\x70\xc4", msg: b"\x04\x03", sig: b"\xf8\xf6\x7f\x24\xcc\xdf\x30\xf0\x95\x7d\x46\x5d\x77\xeb\xc4\x90\xd0\x90\x02\x98\xee\x76\xd8\x03\xff\xa1\xa4\x67\x82\xf5\x45\x7a\x80\x87\xf6\x03\x3f\xff\x36\x96\x3f\x2d\x73\x54\xe2\x49\x92\x58\x3c\x11\x5a\xce\x7b\x18\x30\x47\xc7\xc9\x82\x8a\x23\x3b\x2d\x0c", ok: true },
  EdV { pk: b"\x4c\x92\x2d\x1f\x39\xfc\xe7\xa6\x93\xcd\xfc\x58\x52\x1c\x7d\xd3\x95\x4d\xb0\x75\xc1\x5c\xb8\x48\xb9\xdd\xa9\x3f\xd3\xc7\x70\xc4", msg: b"\x04\x03", sig: b"\x71\x79\x9e\x67\xb1\x87\x94\xc1\x3e\x9c\xcd\x7b\xb5\xd2\x27\x81\xf9\xba\xe9\xa3\x60\x07\x9f\x1f\x8b\x8f\x9f\x50\x05\xcc\x08\xee\xed\x36\xa7\x84\x42\xf6\xba\xe5\xda\x1d\x3f\x14\x0f\xbb\x26\x7b\x8f\xe0\x14\xbb\xae\x8c\xb4\x4f\xb4\xd8\xe9\x9b\xe4\x03\x98\x08", ok: false },
  EdV { pk: b"\x4c\x92\x2d\x1f\x39\xfc\xe7\xa6\x93\xcd\xfc\x58\x52\x1c\x7d\xd3\x95\x4d\xb0\x75\xc1\x5c\xb8\x48\xb9\xdd\xa9\x3f\xd3\xc7\x70\xc4", msg: b"\x04\x04", sig: b"\xf8\xf6\x7f\x24\xcc\xdf\x30\xf0\x95\x7d\x46\x5d\x77\xeb\xc4\x90\xd0\x90\x02\x98\xee\x76\xd8\x03\xff\xa1\xa4\x67\x82\xf5\x45\x7a\x14\xd1\xd1\xb9\x52\x8d\xa0\x3e\x16\x97\x5c\x87\x96\xee\x32\x1c\xa3\xdd\x81\xa3\x0a\xb8\x28\xac\x82\xc4\x8f\xb3\x5e\x1b\xa2\x0c", ok: false },
  EdV { pk: b"\x4c\x92\x2d\x1f\x39\xfc\xe7\xa6\x93\xcd\xfc\x58\x52\x1c\x7d\xd3\x95\x4d\xb0\x75\xc1\x5c\xb8\x48\xb9\xdd\xa9\x3f\xd3\xc7\x70\xc4", msg: b"\x04\x04", sig: b"\x71\x79\x9e\x67\xb1\x87\x94\xc1\x3e\x9c\xcd\x7b\xb5\xd2\x27\x81\xf9\xba\xe9\xa3\x60\x07\x9f\x1f\x8b\x8f\x9f\x50\x05\xcc\x08\xee\x09\xa5\xf1\x97\x6e\xab\xe3\x5b\x18\xcc\x8f\x9d\x5f\x1a\x67\xeb\x3d\xd1\x53\xcb\xa2\xc4\x53\x49\xd7\x06\xe2\xa2\x43\x9a\x88\x03", ok: false },
  EdV { pk: b"\x4c\x92\x2d\x1f\x39\xfc\xe7\xa6\x93\xcd\xfc\x58\x52\x1c\x7d\xd3\x95\x4d\xb0\x75\xc1\x5c\xb8\x48\xb9\xdd\xa9\x3f\xd3\xc7\x70\xc4", msg: b"\x04\x05", sig: b"\xf8\xf6\x7f\x24\xcc\xdf\x30\xf0\x95\x7d\x46\x5d\x77\xeb\xc4\x90\xd0\x90\x02\x98\xee\x76\xd8\x03\xff\xa1\xa4\x67\x82\xf5\x45\x7a\xad\x2a\x05\x59\xd3\x34\x6c\x2f\xa9\x85\xd9\xac\x56\xa9\x7a\xba\x48\xfa\x22\x55\x09\x28\x78\x83\xda\x49\xfd\x18\xbc\xe4\x59\x0e", ok: false },
  EdV { pk: b"\x4c\x92\x2d\x1f\x39\xfc\xe7\xa6\x93\xcd\xfc\x58\x52\x1c\x7d\xd3\x95\x4d\xb0\x75\xc1\x5c\xb8\x48\xb9\xdd\xa9\x3f\xd3\xc7\x70\xc4", msg: b"\x04\x05", sig: b"\x71\x79\x9e\x67\xb1\x87\x94\xc1\x3e\x9c\xcd\x7b\xb5\xd2\x27\x81\xf9\xba\xe9\xa3\x60\x07\x9f\x1f\x8b\x8f\x9f\x50\x05\xcc\x08\xee\xe5\x85\x60\x69\x46\xe0\xec\xaf\xe3\xbf\xb1\xc4\x5c\x58\xb3\xf9\x8b\x35\xfb\xd1\xb1\x79\x79\x94\xc7\x19\xcc\x13\xd7\x01\xca\x01", ok: false },
  EdV { pk: b"\x4c\x92\x2d\x1f\x39\xfc\xe7\xa6\x93\xcd\xfc\x58\x52\x1c\x7d\xd3\x95\x4d\xb0\x75\xc1\x5c\xb8\x48\xb9\xdd\xa9\x3f\xd3\xc7\x70\xc4", msg: b"\x04\x06", sig: b"\xf8\xf6\x7f\x24\xcc\xdf\x30\xf0\x95\x7d\x46\x5d\x77\xeb\xc4\x90\xd0\x90\x02\x98\xee\x76\xd8\x03\xff\xa1\xa4\x67\x82\xf5\x45\x7a\xbf\xbb\xa2\x24\x5f\x93\x7a\xcd\x0d\x55\xd2\xbd\xd6\xfb\x0e\xc3\x72\xca\x63\x71\x9d\x31\x7c\x7f\x4a\x3c\x48\x32\xde\xc0\xb8\x0f", ok: true },
  EdV { pk: b"\x4c\x92\x2d\x1f\x39\xfc\xe7\xa6\x93\xcd\xfc\x58\x52\x1c\x7d\xd3\x95\x4d\xb0\x75\xc1\x5c\xb8\x48\xb9\xdd\xa9\x3f\xd3\xc7\x70\xc4", msg: b"\x04\x06", sig: b"\x71\x79\x9e\x67\xb1\x87\x94\xc1\x3e\x9c\xcd\x7b\xb5\xd2\x27\x81\xf9\xba\xe9\xa3\x60\x07\x9f\x1f\x8b\x8f\x9f\x50\x05\xcc\x08\xee\xae\xa8\xf9\xe2\x56\xab\xfb\xa0\x49\xfa\xd1\xf9\xa4\x85\xc9\x4a\x8a\xbf\xce\x61\x80\x8d\x45\x61\xc0\x56\x7f\xe3\xe3\x43\xe0\x05", ok: false },
  EdV { pk: b"\x4c\x92\x2d\x1f\x39\xfc\xe7\xa6\x93\xcd\xfc\x58\x52\x1c\x7d\xd3\x95\x4d\xb0\x75\xc1\x5c\xb8\x48\xb9\xdd\xa9\x3f\xd3\xc7\x70\xc4", msg: b"\x04\x07", sig: b"\xf8\xf6\x7f\x24\xcc\xdf\x30\xf0\x95\x7d\x46\x5d\x77\xeb\xc4\x90\xd0\x90\x02\x98\xee\x76\xd8\x03\xff\xa1\xa4\x67\x82\xf5\x45\x7a\x22\x3a\x88\x83\xf1\x17\xc8\xda\xab\x9a\x81\xd7\x59\x5f\x18\x9e\x71\x2b\xeb\xb1\x4a\x92\x3c\x1f\x1a\x73\x31\x42\x6a\x96\x25\x0e", ok: false },
  EdV { pk: b"\x4c\x92\x2d\x1f\x39\xfc\xe7\xa6\x93\xcd\xfc\x58\x52\x1c\x7d\xd3\x95\x4d\xb0\x75\xc1\x5c\xb8\x48\xb9\xdd\xa9\x3f\xd3\xc7\x70\xc4", msg: b"\x04\x07", sig: b"\x71\x79\x9e\x67\xb1\x87\x94\xc1\x3e\x9c\xcd\x7b\xb5\xd2\x27\x81\xf9\xba\xe9\xa3\x60\x07\x9f\x1f\x8b\x8f\x9f\x50\x05\xcc\x08\xee\x30\x6a\x55\xa3\x44\xc3\xa3\x43\x1b\xea\xd2\xc1\xea\x0a\xf3\x1f\xca\x46\xec\x93\xe3\xfc\x7e\x55\xb9\xc1\x8d\xa4\x23\x93\xd5\x00", ok: false },
  EdV { pk: b"\x4c\x92\x2d\x1f\x39\xfc\xe7\xa6\x93\xcd\xfc\x58\x52\x1c\x7d\xd3\x95\x4d\xb0\x75\xc1\x5c\xb8\x48\xb9\xdd\xa9\x3f\xd3\xc7\x70\xc4", msg: b"\x04\x08", sig: b"\xf8\xf6\x7f\x24\xcc\xdf\x30\xf0\x95\x7d\x46\x5d\x77\xeb\xc4\x90\xd0\x90\x02\x98\xee\x76\xd8\x03\xff\xa1\xa4\x67\x82\xf5\x45\x7a\x14\xaa\x4f\x0f\x3f\x6d\xe0\x39\xfe\x87\x53\xec\x65\x07\x0e\xb9\x28\x98\x9e\x4d\xe9\x69\xb9\x43\x3c\x3d\xac\x4a\xcc\x7f\x7b\x01", ok: true },
  EdV { pk: b"\x4c\x92\x2d\x1f\x39\xfc\xe7\xa6\x93\xcd\xfc\x58\x52\x1c\x7d\xd3\x95\x4d\xb0\x75\xc1\x5c\xb8\x48\xb9\xdd\xa9\x3f\xd3\xc7\x70\xc4", msg: b"\x04\x08", sig: b"\x71\x79\x9e\x67\xb1\x87\x94\xc1\x3e\x9c\xcd\x7b\xb5\xd2\x27\x81\xf9\xba\xe9\xa3\x60\x07\x9f\x1f\x8b\x8f\x9f\x50\x05\xcc\x08\xee\xee\xc9\xc7\x44\xe3\x61\x14\x2b\x62\x3d\xce\xf5\x6d\x18\xac\x99\xea\x38\x87\x18\x2a\x79\x91\x23\x27\xfb\xb8\xd2\xe7\xee\xf5\x02", ok: false },
  EdV { pk: b"\x4c\x92\x2d\x1f\x39\xfc\xe7\xa6\x93\xcd\xfc\x58\x52\x1c\x7d\xd3\x95\x4d\xb0\x75\xc1\x5c\xb8\x48\xb9\xdd\xa9\x3f\xd3\xc7\x70\xc4", msg: b"\x04\x09", sig: b"\xf8\xf6\x7f\x24\xcc\xdf\x30\xf0\x95\x7d\x46\x5d\x77\xeb\xc4\x90\xd0\x90\x02\x98\xee\x76\xd8\x03\xff\xa1\xa4\x67\x82\xf5\x45\x7a\x17\x2e\x96\x47\x09\x8d\xce\xaf\xe2\x11\xda\x32\xdf\xa6\xd5\xf4\xae\x73\xf9\xe4\x2a\x7f\x1d\x58\xb3\x27\xbe\x50\xbf\x47\xca\x02", ok: true },
  EdV { pk: b"\x4c\x92\x2d\x1f\x39\xfc\xe7\xa6\x93\xcd\xfc\x58\x52\x1c\x7d\xd3\x95\x4d\xb0\x75\xc1\x5c\xb8\x48\xb9\xdd\xa9\x3f\xd3\xc7\x70\xc4", msg: b"\x04\x09", sig: b"\x71\x79\x9e\x67\xb1\x87\x94\xc1\x3e\x9c\xcd\x7b\xb5\xd2\x27\x81\xf9\xba\xe9\xa3\x60\x07\x9f\x1f\x8b\x8f\x9f\x50\x05\xcc\x08\xee\x85\x54\x99\xa5\x21\xe1\xe9\xee\x4d\x6b\x1c\xe2\x00\x54\x21\x7e\x35\x73\xde\x85\x94\xa2\x25\xbd\x0a\x5b\xa6\x64\xbb\x3b\x95\x03", ok: false },
  EdV { pk: b"\xda\xdd\x2a\x48\xac\xfc\x6a\x9b\x28\xa1\xbb\x8d\x4b\x5f\x67\xaa\x34\xef\x81\x32\xa5\x7b\x6c\x95\xf0\xf3\x92\x76\x55\xc1\x56\x35", msg: b"\x07\x00", sig: b"\xe1\xfe\x99\xf6\xec\xbf\x24\xd3\xe4\x0d\xd7\x8a\xd7\x3b\x98\x91\x4c\xf0\xa4\x28\xc4\x09\x14\xe7\x5f\xce\x22\x1f\x0f\x57\xec\x64\x84\xa3\xab\x58\xd5\xd3\x06\xd9\x50\xa4\xde\x42\x31\x53\x89\xdc\x92\xe8\x5d\x6e\x5f\xf4\xea\x57\xae\xd6\xb2\xb5\x6a\xf7\x87\x08", ok: true },
  EdV { pk: b"\xda\xdd\x2a\x48\xac\xfc\x6a\x9b\x28\xa1\xbb\x8d\x4b\x5f\x67\xaa\x34\xef\x81\x32\xa5\x7b\x6c\x95\xf0\xf3\x92\x76\x55\xc1\x56\x35", msg: b"\x07\x00", sig: b"\x7e\x36\x21\x5a\xa9\x84\x89\x69\x2e\x99\xf0\xe3\xad\xdb\xa5\x42\x51\x77\x70\x06\xdd\x18\x12\x85\xfd\x2f\xec\x01\xb0\xec\x74\xbf\x60\x12\xe4\x95\xfe\x55\xc6\xc9\x93\x4e\x03\xf1\x77\xf3\x9b\x39\x27\xc6\x44\x18\x44\x73\xb2\x1d\xe0\x35\xec\x73\x2c\x52\x30\x04", ok: true },
  EdV { pk: b"\xda\xdd\x2a\x48\xac\xfc\x6a\x9b\x28\xa1\xbb\x8d\x4b\x5f\x67\xaa\x34\xef\x81\x32\xa5\x7b\x6c\x95\xf0\xf3\x92\x76\x55\xc1\x56\x35", msg: b"\x07\x01", sig: b"\xe1\xfe\x99\xf6\xec\xbf\x24\xd3\xe4\x0d\xd7\x8a\xd7\x3b\x98\x91\x4c\xf0\xa4\x28\xc4\x09\x14\xe7\x5f\xce\x22\x1f\x0f\x57\xec\x64\xf5\xb9\xcf\x5b\x8e\x46\xd2\x09\xdc\x5e\x54\xe9\x52\x70\xe4\x17\xaa\xe4\xaa\x0d\xf7\xf7\xae\x7b\x3e\x13\x57\x1b\x0d\xa4\xb6\x00", ok: false },
  EdV { pk: b"\xda\xdd\x2a\x48\xac\xfc\x6a\x9b\x28\xa1\xbb\x8d\x4b\x5f\x67\xaa\x34\xef\x81\x32\xa5\x7b\x6c\x95\xf0\xf3\x92\x76\x55\xc1\x56\x35", msg: b"\x07\x01", sig: b"\x7e\x36\x21\x5a\xa9\x84\x89\x69\x2e\x99\xf0\xe3\xad\xdb\xa5\x42\x51\x77\x70\x06\xdd\x18\x12\x85\xfd\x2f\xec\x01\xb0\xec\x74\xbf\x5b\x74\x5b\xc2\x90\x46\x2e\x56\xd1\x43\xbf\xd0\x1e\x23\x50\x8a\x25\x7b\xa2\x5b\x7e\x9a\xe5\xb2\xbd\x8c\x95\x3f\x92\x89\x97\x03", ok: false },
  EdV { pk: b"\xda\xdd\x2a\x48\xac\xfc\x6a\x9b\x28\xa1\xbb\x8d\x4b\x5f\x67\xaa\x34\xef\x81\x32\xa5\x7b\x6c\x95\xf0\xf3\x92\x76\x55\xc1\x56\x35", msg: b"\x07\x02", sig: b"\xe1\xfe\x99\xf6\xec\xbf\x24\xd3\xe4\x0d\xd7\x8a\xd7\x3b\x98\x91\x4c\xf0\xa4\x28\xc4\x09\x14\xe7\x5f\xce\x22\x1f\x0f\x57\xec\x64\x3e\x70\x42\xbb\x20\xba\xc9\x9c\x06\xae\x57\x78\x69\x48\x97\x09\xb3\x1b\x26\x88\x46\x7f\x0f\x10\x60\x47\x2f\xbf\x91\x75\x41\x00", ok: false },
  EdV { pk: b"\xda\xdd\x2a\x48\xac\xfc\x6a\x9b\x28\xa1\xbb\x8d\x4b\x5f\x67\xaa\x34\xef\x81\x32\xa5\x7b\x6c\x95\xf0\xf3\x92\x76\x55\xc1\x56\x35", msg: b"\x07\x02", sig: b"\x7e\x36\x21\x5a\xa9\x84\x89\x69\x2e\x99\xf0\xe3\xad\xdb\xa5\x42\x51\x77\x70\x06\xdd\x18\x12\x85\xfd\x2f\xec\x01\xb0\xec\x74\xbf\x08\x1b\x82\xbb\xe7\xc7\xfd\x4f\xad\x69\xb7\x44\x07\xa5\x0a\x90\xd7\x42\xa6\x60\xb5\xc8\x99\x87\x06\xdb\x47\xdb\xb5\x77\x48\x0e", ok: false },
  EdV { pk: b"\xda\xdd\x2a\x48\xac\xfc\x6a\x9b\x28\xa1\xbb\x8d\x4b\x5f\x67\xaa\x34\xef\x81\x32\xa5\x7b\x6c\x95\xf0\xf3\x92\x76\x55\xc1\x56\x35", msg: b"\x07\x03", sig: b"\xe1\xfe\x99\xf6\xec\xbf\x24\xd3\xe4\x0d\xd7\x8a\xd7\x3b\x98\x91\x4c\xf0\xa4\x28\xc4\x09\x14\xe7\x5f\xce\x22\x1f\x0f\x57\xec\x64\x37\x67\x10\xcd\x9f\x6f\xcc\xfb\x94\xc2\xe8\xdd\x15\x2e\x8b\x37\xa6\x56\x34\x40\x42\xc5\x25\xd2\x98\x80\x8a\x42\x37\x95\xce\x06", ok: false },
  EdV { pk: b"\xda\xdd\x2a\x48\xac\xfc\x6a\x9b\x28\xa1\xbb\x8d\x4b\x5f\x67\xaa\x34\xef\x81\x32\xa5\x7b\x6c\x95\xf0\xf3\x92\x76\x55\xc1\x56\x35", msg: b"\x07\x03", sig: b"\x7e\x36\x21\x5a\xa9\x84\x89\x69\x2e\x99\xf0\xe3\xad\xdb\xa5\x42\x51\x77\x70\x06\xdd\x18\x12\x85\xfd\x2f\xec\x01\xb0\xec\x74\xbf\xea\xe4\x0a\x8d\xb2\x39\x35\x57\x4b\x47\x5f\x99\x6a\x4c\x36\xd2\xc3\xd9\x8c\x7a\xf4\x74\x20\x03\xe9\x0f\x1a\x65\x62\x95\x39\x0b", ok: true },
  EdV { pk: b"\xda\xdd\x2a\x48\xac\xfc\x6a\x9b\x28\xa1\xbb\x8d\x4b\x5f\x67\xaa\x34\xef\x81\x32\xa5\x7b\x6c\x95\xf0\xf3\x92\x76\x55\xc1\x56\x35", msg: b"\x07\x04", sig: b"\xe1\xfe\x99\xf6\xec\xbf\x24\xd3\xe4\x0d\xd7\x8a\xd7\x3b\x98\x91\x4c\xf0\xa4\x28\xc4\x09\x14\xe7\x5f\xce\x22\x1f\x0f\x57\xec\x64\xce\x30\xb9\xda\x08\xa6\x55\x83\xce\x8a\xbb\x4a\x59\xee\xe5\x69\x5f\x59\xf8\x83\x10\xb3\xc8\x7b\xb7\x1d\x29\x71\x6d\xd5\x1b\x0a", ok: false },
  EdV { pk: b"\xda\xdd\x2a\x48\xac\xfc\x6a\x9b\x28\xa1\xbb\x8d\x4b\x5f\x67\xaa\x34\xef\x81\x32\xa5\x7b\x6c\x95\xf0\xf3\x92\x76\x55\xc1\x56\x35", msg: b"\x07\x04", sig: b"\x7e\x36\x21\x5a\xa9\x84\x89\x69\x2e\x99\xf0\xe3\xad\xdb\xa5\x42\x51\x77\x70\x06\xdd\x18\x12\x85\xfd\x2f\xec\x01\xb0\xec\x74\xbf\xc2\x28\x95\x05\x26\x21\x71\xe9\xf7\x2d\xc6\x6d\x17\x33\xed\xc4\x4e\xd4\xcb\xc6\x20\xbc\x64\x8e\xa2\x8f\x38\x12\x0e\x28\x14\x03", ok: false },
  EdV { pk: b"\xda\xdd\x2a\x48\xac\xfc\x6a\x9b\x28\xa1\xbb\x8d\x4b\x5f\x67\xaa\x34\xef\x81\x32\xa5\x7b\x6c\x95\xf0\xf3\x92\x76\x55\xc1\x56\x35", msg: b"\x07\x05", sig: b"\xe1\xfe\x99\xf6\xec\xbf\x24\xd3\xe4\x0d\xd7\x8a\xd7\x3b\x98\x91\x4c\xf0\xa4\x28\xc4\x09\x14\xe7\x5f\xce\x22\x1f\x0f\x57\xec\x64\xc2\x99\x1b\x75\x85\xda\x82\x40\x1e\xda\x32\x3c\x10\xb4\xb8\x67\xec\xf6\x6e\x92\xb3\xd2\x21\xef\xd5\x3a\xf2\x8f\x2e\xac\x64\x05", ok: false },
  EdV { pk: b"\xda\xdd\x2a\x48\xac\xfc\x6a\x9b\x28\xa1\xbb\x8d\x4b\x5f\x67\xaa\x34\xef\x81\x32\xa5\x7b\x6c\x95\xf0\xf3\x92\x76\x55\xc1\x56\x35", msg: b"\x07\x05", sig: b"\x7e\x36\x21\x5a\xa9\x84\x89\x69\x2e\x99\xf0\xe3\xad\xdb\xa5\x42\x51\x77\x70\x06\xdd\x18\x12\x85\xfd\x2f\xec\x01\xb0\xec\x74\xbf\x2e\x85\x62\x9b\xdb\x85\x8a\x59\xee\x43\xcb\x92\x66\xdf\x05\x6b\xd3\x50\xe0\x76\x2d\x3a\xd9\x2b\xaa\xa2\xe3\xb5\x11\xe1\xdb\x0c", ok: true },
  EdV { pk: b"\xda\xdd\x2a\x48\xac\xfc\x6a\x9b\x28\xa1\xbb\x8d\x4b\x5f\x67\xaa\x34\xef\x81\x32\xa5\x7b\x6c\x95\xf0\xf3\x92\x76\x55\xc1\x56\x35", msg: b"\x07\x06", sig: b"\xe1\xfe\x99\xf6\xec\xbf\x24\xd3\xe4\x0d\xd7\x8a\xd7\x3b\x98\x91\x4c\xf0\xa4\x28\xc4\x09\x14\xe7\x5f\xce\x22\x1f\x0f\x57\xec\x64\xd1\x4f\x1e\x27\xb0\x46\x1c\x7d\x8f\xeb\xb4\xbf\x0f\x14\xcd\x5a\x85\xe5\xad\x2f\x91\x62\x16\x44\x96\x7a\x9b\xef\x66\x22\x87\x0a", ok: false },
  EdV { pk: b"\xda\xdd\x2a\x48\xac\xfc\x6a\x9b\x28\xa1\xbb\x8d\x4b\x5f\x67\xaa\x34\xef\x81\x32\xa5\x7b\x6c\x95\xf0\xf3\x92\x76\x55\xc1\x56\x35", msg: b"\x07\x06", sig: b"\x7e\x36\x21\x5a\xa9\x84\x89\x69\x2e\x99\xf0\xe3\xad\xdb\xa5\x42\x51\x77\x70\x06\xdd\x18\x12\x85\xfd\x2f\xec\x01\xb0\xec\x74\xbf\xfb\x57\x02\x19\x34\x0c\xe3\xb6\x65\xc3\x60\x96\x3d\x59\xfb\xc5\xc0\xc2\x90\x94\xf8\xd6\xdc\xe9\xcb\xbb\xbe\x6a\x2e\xc4\xc1\x01", ok: false },
  EdV { pk: b"\xda\xdd\x2a\x48\xac\xfc\x6a\x9b\x28\xa1\xbb\x8d\x4b\x5f\x67\xaa\x34\xef\x81\x32\xa5\x7b\x6c\x95\xf0\xf3\x92\x76\x55\xc1\x56\x35", msg: b"\x07\x07", sig: b"\xe1\xfe\x99\xf6\xec\xbf\x24\xd3\xe4\x0d\xd7\x8a\xd7\x3b\x98\x91\x4c\xf0\xa4\x28\xc4\x09\x14\xe7\x5f\xce\x22\x1f\x0f\x57\xec\x64\xb1\x5d\xdf\xfb\x98\x48\x9d\x05\xad\xfa\x29\xdf\xeb\x38\xe9\x62\xca\x67\x80\x04\x88\xc4\x7b\x95\xa7\x98\x58\xa0\x3a\x4a\xb3\x0a", ok: false },
  EdV { pk: b"\xda\xdd\x2a\x48\xac\xfc\x6a\x9b\x28\xa1\xbb\x8d\x4b\x5f\x67\xaa\x34\xef\x81\x32\xa5\x7b\x6c\x95\xf0\xf3\x92\x76\x55\xc1\x56\x35", msg: b"\x07\x07", sig: b"\x7e\x36\x21\x5a\xa9\x84\x89\x69\x2e\x99\xf0\xe3\xad\xdb\xa5\x42\x51\x77\x70\x06\xdd\x18\x12\x85\xfd\x2f\xec\x01\xb0\xec\x74\xbf\x78\x94\xae\xb9\xf2\x24\xaf\x4d\xfb\xbe\xb4\xe1\xbd\x13\xc8\xa1\x34\x14\x3d\xd7\xa7\xe8\xa1\xcf\x3a\xf9\x50\x6a\xc2\xd4\xf1\x09", ok: true },
  EdV { pk: b"\xda\xdd\x2a\x48\xac\xfc\x6a\x9b\x28\xa1\xbb\x8d\x4b\x5f\x67\xaa\x34\xef\x81\x32\xa5\x7b\x6c\x95\xf0\xf3\x92\x76\x55\xc1\x56\x35", msg: b"\x07\x08", sig: b"\xe1\xfe\x99\xf6\xec\xbf\x24\xd3\xe4\x0d\xd7\x8a\xd7\x3b\x98\x91\x4c\xf0\xa4\x28\xc4\x09\x14\xe7\x5f\xce\x22\x1f\x0f\x57\xec\x64\x7e\xf2\xab\x93\x68\x91\xdc\xc2\xa5\xd7\x38\x69\xb5\xfb\x14\x2d\xbc\x2d\x34\x6f\x10\x0c\xb5\x33\x35\x4c\x27\x84\x71\x8a\xae\x03", ok: false },
  EdV { pk: b"\xda\xdd\x2a\x48\xac\xfc\x6a\x9b\x28\xa1\xbb\x8d\x4b\x5f\x67\xaa\x34\xef\x81\x32\xa5\x7b\x6c\x95\xf0\xf3\x92\x76\x55\xc1\x56\x35", msg: b"\x07\x08", sig: b"\x7e\x36\x21\x5a\xa9\x84\x89\x69\x2e\x99\xf0\xe3\xad\xdb\xa5\x42\x51\x77\x70\x06\xdd\x18\x12\x85\xfd\x2f\xec\x01\xb0\xec\x74\xbf\x62\x18\x87\x40\x75\x28\x4a\x83\x48\x61\xd6\x0f\x5b\xf5\x31\xc5\x05\x48\xec\x8e\x09\x75\xe8\xa4\x9a\x2a\xf7\xd7\x58\x5b\x4d\x04", ok: false },
  EdV { pk: b"\xda\xdd\x2a\x48\xac\xfc\x6a\x9b\x28\xa1\xbb\x8d\x4b\x5f\x67\xaa\x34\xef\x81\x32\xa5\x7b\x6c\x95\xf0\xf3\x92\x76\x55\xc1\x56\x35", msg: b"\x07\x09", sig: b"\xe1\xfe\x99\xf6\xec\xbf\x24\xd3\xe4\x0d\xd7\x8a\xd7\x3b\x98\x91\x4c\xf0\xa4\x28\xc4\x09\x14\xe7\x5f\xce\x22\x1f\x0f\x57\xec\x64\x1f\x70\xeb\xd0\xf8\x5c\x72\xdd\x10\xde\xb9\x00\x65\xb7\x0f\xcb\x2b\xff\x31\xf0\xf8\xd7\xf7\xf4\x22\x5a\x39\x0e\xf9\xc4\x3e\x0e", ok: false },
  EdV { pk: b"\xda\xdd\x2a\x48\xac\xfc\x6a\x9b\x28\xa1\xbb\x8d\x4b\x5f\x67\xaa\x34\xef\x81\x32\xa5\x7b\x6c\x95\xf0\xf3\x92\x76\x55\xc1\x56\x35", msg: b"\x07\x09", sig: b"\x7e\x36\x21\x5a\xa9\x84\x89\x69\x2e\x99\xf0\xe3\xad\xdb\xa5\x42\x51\x77\x70\x06\xdd\x18\x12\x85\xfd\x2f\xec\x01\xb0\xec\x74\xbf\x77\x82\xe2\xd7\x72\xc5\x3d\x91\x0f\x7c\xa8\x08\x49\x10\x95\xe2\xf4\x5d\x0e\x4e\x3a\x04\x61\x99\x91\xd0\x4a\x2a\x4e\x3b\x15\x00", ok: false },
  EdV { pk: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x00\x09", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: true },
  EdV { pk: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x00\x09", sig: b"\xee\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: false },
  EdV { pk: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x00\x09", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: false },
  EdV { pk: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x01\x09", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: true },
  EdV { pk: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x01\x09", sig: b"\xee\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: false },
  EdV { pk: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x01\x09", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: false },
  EdV { pk: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x02\x09", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: true },
  EdV { pk: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x02\x09", sig: b"\xee\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: false },
  EdV { pk: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x02\x09", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: false },
  EdV { pk: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x03\x09", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: true },
  EdV { pk: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x03\x09", sig: b"\xee\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: false },
  EdV { pk: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x03\x09", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: false },
  EdV { pk: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x04\x09", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: true },
  EdV { pk: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x04\x09", sig: b"\xee\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: false },
  EdV { pk: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x04\x09", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: false },
  EdV { pk: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x05\x09", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: true },
  EdV { pk: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x05\x09", sig: b"\xee\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: false },
  EdV { pk: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", msg: b"\x05\x09", sig: b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ok: false },
];
pub static ED_POINTS: &[(&[u8; 32], bool)] = &[
  (b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", true),
  (b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", true),
  (b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", true),
  (b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", false),
  (b"\x02\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", false),
  (b"\x02\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", false),
  (b"\x03\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", true),
  (b"\x03\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", true),
  (b"\x04\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", true),
  (b"\x04\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", true),
  (b"\x05\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", true),
  (b"\x05\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", true),
  (b"\x06\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", true),
  (b"\x06\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", true),
  (b"\x07\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", false),
  (b"\x07\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", false),
  (b"\x08\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", false),
  (b"\x08\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", false),
  (b"\x09\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", true),
  (b"\x09\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", true),
  (b"\x0a\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", true),
  (b"\x0a\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", true),
  (b"\x0b\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", false),
  (b"\x0b\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", false),
  (b"\xe1\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f", false),
  (b"\xe1\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff", false),
  (b"\xe2\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f", false),
  (b"\xe2\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff", false),
  (b"\xe3\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f", true),
  (b"\xe3\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff", true),
  (b"\xe4\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f", true),
  (b"\xe4\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff", true),
  (b"\xe5\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f", false),
  (b"\xe5\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff", false),
  (b"\xe6\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f", false),
  (b"\xe6\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff", false),
  (b"\xe7\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f", true),
  (b"\xe7\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff", true),
  (b"\xe8\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f", true),
  (b"\xe8\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff", true),
  (b"\xe9\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f", true),
  (b"\xe9\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff", true),
  (b"\xea\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f", true),
  (b"\xea\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff", true),
  (b"\xeb\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f", false),
  (b"\xeb\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff", false),
  (b"\xec\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f", true),
  (b"\xec\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff", false),
  (b"\xed\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f", false),
  (b"\xed\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff", false),
  (b"\xee\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f", false),
  (b"\xee\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff", false),
  (b"\xef\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f", false),
  (b"\xef\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff", false),
  (b"\xf0\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f", false),
  (b"\xf0\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff", false),
  (b"\xf1\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f", false),
  (b"\xf1\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff", false),
  (b"\xf2\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f", false),
  (b"\xf2\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff", false),
  (b"\xf3\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f", false),
  (b"\xf3\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff", false),
  (b"\xf4\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f", false),
  (b"\xf4\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff", false),
  (b"\xf5\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f", false),
  (b"\xf5\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff", false),
  (b"\xf6\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f", false),
  (b"\xf6\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff", false),
  (b"\xf7\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f", false),
  (b"\xf7\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff", false),
  (b"\xf8\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f", false),
  (b"\xf8\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff", false),
  (b"\xf9\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f", false),
  (b"\xf9\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff", false),
  (b"\xfa\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f", false),
  (b"\xfa\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff", false),
  (b"\xfb\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f", false),
  (b"\xfb\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff", false),
  (b"\xfc\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f", false),
  (b"\xfc\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff", false),
  (b"\xfd\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f", false),
  (b"\xfd\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff", false),
  (b"\xfe\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f", false),
  (b"\xfe\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff", false),
  (b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f", false),
  (b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff", false),
  (b"\xff\xff\xff\xff\xff\xff\xff\xff\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", false),
  (b"\xff\xff\xff\xff\xff\xff\xff\xff\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", false),
  (b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", true),
  (b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", true),
  (b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x00\x00\x00\x00\x00\x00\x00\x00", false),
  (b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x00\x00\x00\x00\x00\x00\x00\x80", false),
  (b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x40", false),
  (b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xc0", false),
  (b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", true),
  (b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", false),
  (b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\x7a", true),
  (b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\xfa", true),
  (b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", true),
  (b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", true),
  (b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05", true),
  (b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x85", true),
  (b"\xec\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f", true),
  (b"\xec\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff", false),
  (b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x85", true),
  (b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05", true),
  (b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", true),
  (b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80", true),
  (b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\xfa", true),
  (b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\x7a", true),
  (b"\x6a\x8b\x14\x6a\x02\x2e\xac\x9b\xf1\x46\xb8\x59\x1f\x53\xf6\x5a\xd6\xde\xf2\xe3\x62\xf2\x85\x24\x9b\xf1\xfe\x52\xf1\xba\x53\xe9", false),
  (b"\x05\x6f\x97\xaf\xc0\x7d\x12\x43\xe3\x6b\x15\xdc\xb0\xcb\xc8\x4b\xf9\x81\x48\x8d\x80\xac\x1b\xf2\xb4\x53\xf6\x1a\xee\x3c\x03\x82", true),
  (b"\x1f\x35\xfe\x0f\xee\xad\xbd\xad\xc4\x7d\x6c\x8c\xa0\x89\xe7\x4b\x72\x75\x63\x18\x48\xe3\x74\x56\x96\xc3\x39\x49\x24\x48\x39\xa6", false),
  (b"\x1f\x22\x25\x9f\x6c\x1d\xc3\x59\x65\xfd\xad\xf7\x7f\x39\x89\x68\xed\xb4\x26\x89\xa7\xd4\x4b\x9a\x50\x15\x9e\x55\xfd\x9d\x07\xa8", false),
  (b"\x4c\x0e\xe8\x0b\x2f\x91\x74\x33\x3c\xb9\x22\x13\xb3\x29\xe0\x16\xa5\x00\xb6\xa7\x4a\x51\xda\x6e\x56\x42\x39\xe1\x9a\x06\x2f\x3e", false),
  (b"\xd4\x19\x66\x52\xdf\x39\xa3\x84\xf8\xa7\x2b\xb2\x3f\x04\x9a\x2c\x3d\x21\x8f\x0e\x40\x28\xab\x65\xcb\xa7\xe9\xa5\xb7\xe4\x31\x8d", false),
  (b"\x40\xdd\xe9\x5b\xa5\xac\x1d\xca\xaa\x76\x4a\xf2\xc1\x90\x12\xc2\xd6\x18\x4b\x70\xfb\xe0\xf3\x02\x42\x31\xd1\x5f\x67\xd6\xf4\x47", true),
  (b"\x6d\xa7\xa9\xd7\xee\x68\x0b\xb1\x82\x07\xf2\xaa\xf5\xb4\xea\x8a\x9b\x02\xbe\x7d\xdd\x06\x77\xc0\x07\x08\xc6\x1c\xd8\x22\x78\x85", false),
  (b"\xa2\xe2\x0b\x28\xed\x35\x7a\x07\x2b\x0f\x4d\x33\x42\xf7\x60\x74\x70\x9a\xb2\x08\xd2\x1f\x17\xdc\x93\x24\xc3\x12\x56\xa2\x56\xa5", true),
  (b"\x14\xe2\x81\x9e\x21\x98\xa6\xb3\x05\x16\xf2\x37\xa6\x06\x2e\x77\x87\xf3\x43\x45\x71\x5f\xd4\x0d\xd4\xdb\x9a\xce\xb5\xa2\x95\x18", true),
  (b"\x0a\xe8\xf6\x15\x20\x11\xc2\xee\x80\xf6\xdc\xb9\x3c\x67\xbf\xa8\xe4\xb4\x45\xe9\x48\x55\xd8\x8b\x74\x68\x66\x40\x93\x67\xbd\xf6", false),
  (b"\x02\xe8\xfb\x47\x74\xe6\x00\x13\x95\x32\x6e\x43\x5d\x9d\x90\xf6\x16\x5f\xa6\xed\x51\x95\xb4\xe5\x46\xc6\x51\x6c\xfe\x2a\xd2\x72", false),
  (b"\x9f\x1b\x5a\x9c\x23\x72\x98\x9d\x6f\x5e\xcf\x9d\x00\x64\x94\x40\x08\x08\x81\x8e\x66\xd4\x61\xce\x0f\x02\x4a\xb5\x1e\x48\x41\x5f", false),
  (b"\xc2\xf0\x43\xd6\xd8\x48\x5f\x2c\xfe\x00\x1e\x8a\x8c\x1e\x1f\xdc\xb3\x5b\x29\x06\x5e\xf7\xe0\x5e\x40\x26\x66\x8f\x1e\x21\xb6\xea", true),
  (b"\x8b\x4e\x5b\x62\xa7\x99\x9f\x54\xe0\xf5\xed\xba\xa0\x8d\xa2\x7a\x1f\xca\x00\xc2\x26\x90\x8e\x10\xd3\x97\xaf\x44\x5c\xe0\x46\xb2", true),
  (b"\xe9\x4b\x08\x76\xf5\xaa\xc9\x39\x2b\xed\xd3\x19\x9f\x97\x72\xb2\x20\xea\xf9\xae\x75\xb3\xc6\x74\x16\x84\x8d\x52\x1b\x45\x24\xa7", true),
];
pub struct Kem { pub seed: &'static [u8; 64], pub ek: &'static [u8; 1184], pub dk: &'static [u8; 2400], pub m: &'static [u8; 32], pub k: &'static [u8; 32], pub c: &'static [u8; 1088] }
pub static KEM: &[Kem] = &[
  Kem { seed: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", ek: b"\x25\x4a\x79\x78\x85\xc6\x3b\x14\x40\xaa\x38\x9c\x65\x34\x0e\xf3\x35\x20\xcc\x03\x9a\xa8\xd7\x49\xae\x70\x95\xba\x84\x85\xa2\x44\x4f\x80\x70\x07\x41\x32\x7c\x36\x3a\x45\x7b\x85\x38\xb1\x3b\x6e\xd6\xf1\x3c\x29\xb2\x32\x51\x8c\x70\x4e\x12\x86\xa7\x48\x67\xd3\xaa\xb6\x07\x29\x5d\x1a\x74\x83\x87\x65\x93\xdc\xe8\x03\xb1\xfa\x42\x65\x6c\xbb\x53\x55\x31\xd3\xb7\x6d\x18\xf9\x30\xf3\xd1\x9d\xf4\xa0\x2d\x4c\x68\x88\xd5\x59\x6b\x3f\xb3\x82\x25\x7a\x41\xe3\xe2\x52\xeb\x48\x65\xd9\x10\x5e\x87\xd7\x88\x8f\x64\x34\x85\xf5\xb3\x00\xbd\x75\x5e\x27\x05\xe9\xd3\x66\xc7\x37\x86\xed\xa7\x1d\x10\xb1\x51\x64\x61\xc8\xd1\xcb\x91\xcf\x97\x21\x49\x86\x72\x12\x8c\x93\x5e\x04\x51\x2e\x07\x22\x37\x72\xb8\x06\x87\x11\x23\xb0\x8c\x40\x59\xa7\xa7\x54\x15\xc4\xba\x85\xfd\x07\x60\x3d\x38\x61\x3e\x01\xb9\x86\x72\x03\xc3\xa1\x2a\x19\xf8\x4e\xfb\x9b\x8e\x69\x7b\x35\x81\x45\x58\x33\xcc\x48\x43\x95\x33\x52\x0c\xad\x13\xbb\xb0\x11\x71\x86\x36\x41\xb3\x2e\x22\x31\xf8\x87\x0e\x50\x65\x5b\x9c\x25\x8c\xb5\x47\xad\xa7\xd7\x87\x22\xac\xce\x5a\x89\xcb\xbb\xdb\x16\x27\x3c\x77\x6c\x76\xa4\x53\xaa\x7a\x1e\x93\xa1\x03\x50\x94\xe9\xfb\x5f\x79\x09\x75\x56\x71\x38\x41\x41\xcf\xc2\x68\x0f\x4f\x77\x51\xf9\xa1\xc1\xdf\xb7\xb9\xe5\x63\x58\x1e\xb9\x75\x25\x55\xb1\xab\x18\x65\xa7\x69\x01\x23\x66\x4a\x6e\x56\x0f\x84\x07\xbe\xf8\x6b\xc4\xda\x18\xc0\x08\xc6\x86\x4a\x47\x58\xbc\xa6\x2d\xa5\xa1\x8b\xaa\x33\x1c\x89\x7b\x49\xfc\xb0\x2c\x2b\x47\x15\x21\x63\x2f\x59\xf1\xcf\x03\x16\x68\x62\xb1\x24\xa1\xac\x35\x81\xf3\xbf\x8a\x35\x1e\xc7\x9c\x87\x42\x84\x63\x36\x4b\x0b\x3b\xd1\x5d\x35\x97\x60\xd9\xab\x8f\xab\xb1\x7b\xe9\x07\x87\x41\xa1\xa2\x9a\xfc\x5a\xa4\x78\x77\x2e\xcb\x3e\x33\xe0\xb0\x81\x19\x5c\x12\xe5\xc1\x59\x43\x4d\x29\xbc\x29\xab\x12\x0d\x6d\x18\x4e\x11\x68\x46\xda\x87\x9b\x6b\xf8\xa9\xb9\x67\x02\x61\x26\x13\xa9\xaa\x21\x4e\x4b\xa2\xb7\xb1\xba\x7f\xb4\x08\xd1\x54\x1d\x89\x83\xb5\x0a\x0c\xbb\x4e\x08\x46\x7f\x35\x72\xc4\x9b\x4d\xc8\x2a\xa4\xa1\x1a\xa2\x6a\x85\x09\x70\x68\x9b\x4e\xe9\xaa\x94\x87\xb6\x0e\xd6\x53\x62\x57\x17\x85\xb4\x4c\x3d\xec\x32\x82\xb9\x89\x78\x43\xa6\x8c\x43\x7a\x2c\x38\x1b\x66\x09\x5f\xff\x79\x59\x7f\xf1\x07\xcd\xcb\x18\x13\xb1\x00\xed\xa2\x3d\xbd\xf6\xa2\x39\xf4\x04\xb4\x8a\x57\xda\x66\x23\x4b\xa7\xc0\x70\xf5\x69\xf0\xf8\xb9\xe1\x25\xac\x88\x87\x07\xf1\x70\x7d\x2b\x45\x62\x89\x3a\x27\xe4\xdc\x5b\xa9\x1b\x72\xb6\x5b\x73\x57\xba\x5c\x3c\x33\x9f\xea\x9c\x3e\x78\xb4\x21\xf4\x31\xc3\x14\x42\x1e\x51\x17\x68\x34\xe5\x9e\x2b\x89\x9a\x99\xc3\x8e\x48\x47\x92\xd3\xbc\x28\x73\xe8\x78\x42\xd3\xc5\x5f\x68\x4a\x4a\x94\x0c\x6a\x63\xa2\xa1\x68\xa3\xeb\x33\x68\xfb\xe8\x3f\x8d\xe5\x35\x24\xe7\x87\xc1\x82\x42\x1a\xb2\x86\x17\xb1\x20\xd0\x09\x78\x11\x1b\xb5\x8e\x01\xb0\xef\xb4\x63\xd3\xeb\x76\x9f\xc6\x6e\x4a\x59\xb9\x4a\xf6\xa7\xab\xe4\x54\xe9\x60\xae\x3e\x0b\x3b\x4e\x6b\x91\x3b\xb7\x3f\xfc\x7b\x2b\x34\x53\x77\xb9\x25\x1b\xc6\x61\x3a\x74\xd0\x18\x77\x54\x1b\x8c\xc3\x13\x8f\x29\x9a\x6f\x27\x28\xaa\xeb\x89\xc5\xd2\x08\xa3\x47\x1f\x71\xa8\x86\x4a\x9b\xcc\x53\x05\x80\x25\x1a\x67\x41\x53\x5a\x62\xd8\xa0\xe1\x71\x81\x2b\xf9\x88\x46\xa2\x84\x05\x70\x49\x9d\xb4\x19\x32\x64\x04\x88\x48\x7b\x10\x8c\x72\xd4\x2b\x7a\x7d\xc5\x44\xb9\x71\xa3\x2f\xda\x80\x66\x76\x9c\xb4\x70\x09\x05\xe2\x26\x5b\x7a\x43\x70\xd8\xc0\x3e\xe2\x7f\x8c\x19\x76\xa4\x99\xc1\x34\xc8\x25\x12\x41\x37\x78\xf8\x84\xb1\x77\x1a\x9e\x79\x87\x32\x18\x90\xc6\x4a\xa1\x9c\xd7\x8f\x4d\x19\x23\xf5\x94\x94\x48\x04\x8f\xa5\xe7\x13\x5a\x93\x43\xdb\x66\x91\xe6\xb1\x80\x56\x77\x90\x44\x66\x71\x15\xfb\xc1\x44\x3b\x6e\x74\xa9\x23\x27\x95\x86\xcf\x27\x62\x9a\xe2\x85\xca\x10\x0e\x10\x62\xcc\xf5\x6c\x96\xb9\xd7\x20\xed\xa9\x2e\x81\xb8\xae\x19\x94\xa5\x08\x58\x8a\x50\x33\x0f\x73\xd4\x6f\x99\x81\x99\xf7\x38\x70\x11\x46\xa4\xdd\xb4\x1e\x78\x5c\x98\x8f\xc5\x1e\xb7\x1b\x8e\x49\x27\x5b\x7f\x7b\xa5\xe5\x93\x00\xae\x12\xca\x0f\xd1\x52\xd0\x39\xc7\x6d\xf0\x52\x6c\xe3\x4d\xbe\xab\xa1\x7d\x11\xa6\xb0\x06\x0c\xa6\x14\x01\xce\xc3\x5f\xe9\xb1\x75\xe2\x75\x17\xa4\x1c\x4b\x8a\x07\x05\x6f\xc1\x0e\xc6\xf6\x26\x77\xf6\x2b\x76\x84\x0b\xd9\x1a\x95\x20\xc4\xa8\x19\xc8\x3d\x80\x43\x09\x41\x24\x7a\x59\x64\x62\x96\xcc\xbe\xa7\xdc\x1a\xb3\x01\x70\xde\x38\x62\x4e\x8a\x33\xb4\xc2\xba\x2d\xc9\x7b\xf7\x3a\x71\xd9\xac\x35\xa4\x80\xa8\x3f\x1b\xb1\xe1\xc4\x77\x74\x09\xd0\xa0\x65\x78\x2a\x1a\x70\x7b\x06\x8d\x4b\xf2\x20\x51\x01\x20\x2f\xcb\xc7\x1a\xb9\x4b\x29\x29\xcb\x44\xe2\xc5\x47\xec\x10\xb5\xa7\x2d\x8c\x87\x59\xfb\x29\x20\xad\xc8\x0b\x85\x71\x39\x75\x41\x4b\x7b\x20\xb9\x83\xe8\x48\xd3\xa0\xc3\xbc\x43\x3b\xbf\x26\xb7\x00\xa1\xa4\x03\x22\xa8\x4d\xe5\xc8\x7e\xb9\x87\x7a\xd6\x8a\xbe\x98\x86\xf7\xdb\x69\x89\x96\x40\x02\xea\x56\x6c\xc6\x16\x46\x3b\x17\xe0\xe7\x83\xe5\xa9\x62\x17\xa2\x00\x6d\x3a\xe4\x06\x76\x3c\x50\x45\x7d\x14\x81\x40\x2a\xaf\xc7\xe2\x3f\x43\xf9\xd1\xd7\xc0\xaf\x70\x60\xac\x1d\xaa\x9e\xcb\x0e\x67", dk: b"\x79\xaa\x9d\x81\x05\x89\xb8\xe8\x0b\xc0\x79\x9b\xf1\xeb\x8b\x86\x6a\x6b\x5c\x8b\xbf\x99\x88\x1b\xe0\x02\x5e\xb9\x89\x02\xd2\x82\xb4\x32\xbb\x51\x74\xbc\x4e\x56\x6b\x6c\xf8\xdb\xca\x18\xca\x9a\x58\x94\xc5\x89\x33\x1f\xb1\x36\x16\x25\x97\x7d\x1f\x92\x10\xe8\xdb\x61\x8f\xd1\xc1\x2a\x99\x9d\x3e\xd2\x90\x72\x70\x76\x1d\x8a\x88\x26\x2c\x69\x6e\x9c\x6b\x08\xb7\x95\x0d\x91\x71\xe2\x40\x9f\xce\xba\x0c\xe0\xe5\x47\x76\x53\x2a\x37\x50\xc6\x12\x67\x28\xfa\x36\x4d\xf2\x11\x8f\x64\x97\xb9\xa6\xa6\x86\x94\xb9\x9c\xe4\x71\x59\x35\xa5\x7e\x02\xec\x21\x03\xdc\x64\xef\xa0\xca\xe9\x86\xb6\xdc\x78\xa0\x1f\xb7\x12\xc5\x49\xb7\x95\xc1\x45\x40\xe3\xa6\x5e\xfb\x6f\x77\x56\x68\x35\xdc\xcc\xb8\x94\x49\xca\x0b\x19\x29\x09\xcc\x97\xfc\x33\xc9\x95\xca\xd7\x69\x4c\xdb\x81\x9e\xd8\x07\xaf\xe3\x2b\x18\x2d\x5c\x45\xda\x0b\x1c\x26\xb7\x3a\xba\xa3\xba\x87\x0c\xb7\x3b\xaa\xa8\x6b\x10\x27\xa9\xd9\x73\xdf\x15\xb0\xd6\xcc\xa7\xe1\xbc\x40\xcb\x01\x7c\x57\x1c\x70\x9e\x8c\xad\x89\xc8\xb5\x2d\xb1\x0a\xfc\x16\x4e\xfa\x45\x02\x96\x86\x74\x6e\x89\x13\xb1\x3a\xb2\x34\xe4\x52\x93\x03\x58\x0f\x06\x53\xf8\x05\x14\xf9\x38\x95\x1e\x1b\x96\x4b\x76\x9c\x13\xab\x01\x37\x3a\xad\x41\xd8\xba\x0d\xf3\x58\x9b\x13\x38\xbd\xe9\x6e\x73\xe1\x87\xb4\x25\x31\x0b\x48\xc9\xa6\xe9\x48\x91\x67\x03\xf1\x16\x97\x8e\xf9\x69\x8b\x09\x13\x07\xd9\xa7\xc8\x05\x2c\xd6\x48\x7d\x82\x72\x05\x24\xb0\xb8\xee\x5a\x89\x24\xd6\x30\xfe\xba\x52\xcd\x79\xc0\xf3\x97\x3a\xdc\x10\xb4\x0f\x24\x69\x5b\x57\x01\x8a\x66\xac\xae\x33\x78\x2b\xb2\x34\x4a\xfc\x87\x7e\x8c\x81\xb8\x59\x8d\x18\x35\x50\x3e\x8a\x84\xa5\x8c\x13\x43\x36\xb3\xb7\x08\x34\x07\x75\x60\x53\x47\x44\x56\xa4\x3d\xd0\xb5\xc3\xe1\x4a\xad\x8d\xba\x32\x4e\x6c\x8e\x2a\xca\x55\xc5\x66\xa4\xd6\x2b\x74\x50\xe6\xbd\xb8\xa1\x3c\x1a\x47\xc2\x2b\x86\x3b\x37\xd1\xc7\x4b\x39\x99\xbe\x70\xca\x9b\x34\x67\x77\x40\xb1\x3d\x04\x69\xdb\x43\x3d\x71\x80\x5a\x4c\x78\x68\x6c\xb2\x31\xbf\xc6\x68\x68\x72\x13\x35\xea\x5f\xe7\x87\x91\x7f\x45\x0d\x6a\x45\x6f\x3f\xca\xc3\xb5\xe7\x9c\x9f\xa6\x8b\x4a\xa2\xb9\xb8\x5c\x35\x09\xda\x78\x7c\x31\x55\x15\x65\x40\x28\x02\xac\xea\xf9\x9b\xda\x26\x8a\x1c\xa4\x43\x5d\x1a\x98\x01\x38\x0d\x8c\xab\xb4\x5a\xa7\x20\x4e\x56\x78\xde\x9c\x1b\x42\x93\xab\x84\x35\xa9\x0d\x60\xbd\xa5\xc2\xc5\xb5\x60\xcb\xfe\x19\xa0\x26\x8a\xb1\xc2\x98\x85\xc2\x5c\x2e\x9f\x43\x54\x60\x24\x64\x16\x00\x17\xe5\x44\x7a\x5c\x54\x07\xfb\x21\x2f\xac\xa6\x2d\xba\xe5\x4a\xed\x7b\x55\x3a\xe2\x21\x43\xe2\x0e\x74\xb0\x2b\x26\x12\xcc\xf3\xa4\x5e\x23\xb4\x3b\x16\xb8\xc5\xdd\x66\x6b\xb1\xcc\x68\x1d\x94\x7a\xb3\xc8\x0d\xa0\x66\x5a\xce\x80\x2b\x74\x89\x4a\x4f\x19\x61\x7c\xe6\x82\x73\x67\x66\x61\x17\xa7\x1b\x0c\x6d\x2d\x45\x61\xad\x62\x75\x21\xc9\x03\x5b\x49\xa3\x53\xd2\xc4\x2d\xbc\x48\x4c\xe8\x33\xdd\xd1\x87\x7d\x04\xb4\x17\x40\x41\xd9\x85\xb1\x6c\x0c\x6a\x91\x93\xb3\x5f\xa6\x6d\x55\x9a\x7b\xcf\xe2\x8a\x17\x41\x5f\x00\x2c\x89\xfb\xa4\x7e\xe0\x33\x08\x5c\xe1\x42\x41\xd8\x25\xfc\x22\x48\x6e\x80\x4d\x07\xfa\x59\xfb\x41\x07\x2c\x64\xb7\x3d\x9b\x8d\x3d\x3a\x81\xcc\xe7\x87\xbc\xb0\x5b\x89\x3b\x36\xc6\xd3\x8f\x21\x19\x96\xe2\xfc\xbe\xef\x29\xaf\x07\xcc\x1b\x54\xf7\xc8\x29\xa4\xcb\xdb\xf0\x73\x90\xd3\x1e\xf3\xa2\x58\x70\x48\x6e\x97\xb1\x54\x54\x38\x6a\x5a\xe7\x12\xbb\xf3\xad\xa3\x36\x22\x00\x17\x48\xc2\x21\x1b\x73\xe5\x80\xe0\x67\x7d\x5d\x7a\xab\x73\x2c\x0c\x57\x0a\x70\x83\xb6\xaa\x19\xa5\x1f\x87\x03\x02\x53\x68\x9d\x6a\xda\x6f\x37\x43\x70\x93\x8c\x5f\xd7\x8c\x0f\x10\xd7\x4c\x35\x63\x75\x7f\x4a\x7b\xa2\x91\x93\xce\x2a\x47\x2e\x42\x05\xc9\x27\x2f\x7a\xd7\xbb\x83\xdc\xba\xf1\x20\xa1\x56\x19\x4f\x79\x8c\xb0\x80\x42\x99\x71\xc6\x72\x8f\x12\x7f\x8a\x08\x9c\xde\x94\x5a\x1a\x31\x11\xc9\xa2\x77\x84\xd8\x73\x84\x51\x39\x31\x93\x4a\x22\x45\x95\x65\x72\x68\xed\x87\x5d\x82\x09\x17\xbc\x42\xb2\xd7\x07\x49\xb2\x70\x53\x2a\x22\x94\x16\x7c\xc4\xac\x8b\xa8\x33\x02\xa0\x8b\x67\x16\x7b\x32\x84\xd4\x56\xaa\x09\x37\x38\x59\x68\xcd\x4e\xb9\x6b\x4a\xe7\x9f\x54\xdb\x1e\x51\x94\x91\x5e\xd0\x3d\x30\x7c\x25\xdc\xd0\x05\x95\xf7\x10\x27\x25\x19\xc8\x63\x6a\x6f\x88\x3c\xb6\x59\x9e\x23\xda\x1f\x45\xf4\x1e\x85\x36\x84\xb1\xdc\x72\xcd\xf4\x30\xfd\x13\x08\x53\x55\x77\xae\x3a\x7e\x84\x05\x4e\x51\x71\x60\x84\x26\x35\xa0\x69\x9e\xbf\x29\x70\x30\x5c\x39\xba\xd1\xcb\x33\x81\x64\xf5\xb1\x23\x98\x37\xa3\x89\x99\x8a\x45\x9b\x92\x90\xc1\x1d\x54\xb8\x44\x85\x96\x72\x13\x86\xb7\xdd\x19\x0b\x4a\x24\xa7\xf9\xb9\x7e\xb9\xc7\x18\x8f\x57\x00\x80\x43\x75\x4c\x48\x83\xf2\xe4\x2e\x9e\x6c\x57\x94\x42\x15\x2e\x50\x0c\x94\x80\xa1\xd9\xbc\xc0\x77\x3b\x0f\xff\xd4\x84\xc9\x07\x8d\x46\xc3\x0d\xfc\x74\xb8\xa7\xa1\x7f\x79\x9a\x1e\xa3\x85\x54\x29\x8c\xa2\x24\xa0\xc4\xe9\x76\x16\x1f\xe7\x11\x5a\xb5\x5a\xdd\x0c\xba\xba\xf0\x36\x1f\xa3\x55\xca\x39\x00\x1f\x31\x04\x25\x4a\x79\x78\x85\xc6\x3b\x14\x40\xaa\x38\x9c\x65\x34\x0e\xf3\x35\x20\xcc\x03\x9a\xa8\xd7\x49\xae\x70\x95\xba\x84\x85\xa2\x44\x4f\x80\x70\x07\x41\x32\x7c\x36\x3a\x45\x7b\x85\x38\xb1\x3b\x6e\xd6\xf1\x3c\x29\xb2\x32\x51\x8c\x70\x4e\x12\x86\xa7\x48\x67\xd3\xaa\xb6\x07\x29\x5d\x1a\x74\x83\x87\x65\x93\xdc\xe8\x03\xb1\xfa\x42\x65\x6c\xbb\x53\x55\x31\xd3\xb7\x6d\x18\xf9\x30\xf3\xd1\x9d\xf4\xa0\x2d\x4c\x68\x88\xd5\x59\x6b\x3f\xb3\x82\x25\x7a\x41\xe3\xe2\x52\xeb\x48\x65\xd9\x10\x5e\x87\xd7\x88\x8f\x64\x34\x85\xf5\xb3\x00\xbd\x75\x5e\x27\x05\xe9\xd3\x66\xc7\x37\x86\xed\xa7\x1d\x10\xb1\x51\x64\x61\xc8\xd1\xcb\x91\xcf\x97\x21\x49\x86\x72\x12\x8c\x93\x5e\x04\x51\x2e\x07\x22\x37\x72\xb8\x06\x87\x11\x23\xb0\x8c\x40\x59\xa7\xa7\x54\x15\xc4\xba\x85\xfd\x07\x60\x3d\x38\x61\x3e\x01\xb9\x86\x72\x03\xc3\xa1\x2a\x19\xf8\x4e\xfb\x9b\x8e\x69\x7b\x35\x81\x45\x58\x33\xcc\x48\x43\x95\x33\x52\x0c\xad\x13\xbb\xb0\x11\x71\x86\x36\x41\xb3\x2e\x22\x31\xf8\x87\x0e\x50\x65\x5b\x9c\x25\x8c\xb5\x47\xad\xa7\xd7\x87\x22\xac\xce\x5a\x89\xcb\xbb\xdb\x16\x27\x3c\x77\x6c\x76\xa4\x53\xaa\x7a\x1e\x93\xa1\x03\x50\x94\xe9\xfb\x5f\x79\x09\x75\x56\x71\x38\x41\x41\xcf\xc2\x68\x0f\x4f\x77\x51\xf9\xa1\xc1\xdf\xb7\xb9\xe5\x63\x58\x1e\xb9\x75\x25\x55\xb1\xab\x18\x65\xa7\x69\x01\x23\x66\x4a\x6e\x56\x0f\x84\x07\xbe\xf8\x6b\xc4\xda\x18\xc0\x08\xc6\x86\x4a\x47\x58\xbc\xa6\x2d\xa5\xa1\x8b\xaa\x33\x1c\x89\x7b\x49\xfc\xb0\x2c\x2b\x47\x15\x21\x63\x2f\x59\xf1\xcf\x03\x16\x68\x62\xb1\x24\xa1\xac\x35\x81\xf3\xbf\x8a\x35\x1e\xc7\x9c\x87\x42\x84\x63\x36\x4b\x0b\x3b\xd1\x5d\x35\x97\x60\xd9\xab\x8f\xab\xb1\x7b\xe9\x07\x87\x41\xa1\xa2\x9a\xfc\x5a\xa4\x78\x77\x2e\xcb\x3e\x33\xe0\xb0\x81\x19\x5c\x12\xe5\xc1\x59\x43\x4d\x29\xbc\x29\xab\x12\x0d\x6d\x18\x4e\x11\x68\x46\xda\x87\x9b\x6b\xf8\xa9\xb9\x67\x02\x61\x26\x13\xa9\xaa\x21\x4e\x4b\xa2\xb7\xb1\xba\x7f\xb4\x08\xd1\x54\x1d\x89\x83\xb5\x0a\x0c\xbb\x4e\x08\x46\x7f\x35\x72\xc4\x9b\x4d\xc8\x2a\xa4\xa1\x1a\xa2\x6a\x85\x09\x70\x68\x9b\x4e\xe9\xaa\x94\x87\xb6\x0e\xd6\x53\x62\x57\x17\x85\xb4\x4c\x3d\xec\x32\x82\xb9\x89\x78\x43\xa6\x8c\x43\x7a\x2c\x38\x1b\x66\x09\x5f\xff\x79\x59\x7f\xf1\x07\xcd\xcb\x18\x13\xb1\x00\xed\xa2\x3d\xbd\xf6\xa2\x39\xf4\x04\xb4\x8a\x57\xda\x66\x23\x4b\xa7\xc0\x70\xf5\x69\xf0\xf8\xb9\xe1\x25\xac\x88\x87\x07\xf1\x70\x7d\x2b\x45\x62\x89\x3a\x27\xe4\xdc\x5b\xa9\x1b\x72\xb6\x5b\x73\x57\xba\x5c\x3c\x33\x9f\xea\x9c\x3e\x78\xb4\x21\xf4\x31\xc3\x14\x42\x1e\x51\x17\x68\x34\xe5\x9e\x2b\x89\x9a\x99\xc3\x8e\x48\x47\x92\xd3\xbc\x28\x73\xe8\x78\x42\xd3\xc5\x5f\x68\x4a\x4a\x94\x0c\x6a\x63\xa2\xa1\x68\xa3\xeb\x33\x68\xfb\xe8\x3f\x8d\xe5\x35\x24\xe7\x87\xc1\x82\x42\x1a\xb2\x86\x17\xb1\x20\xd0\x09\x78\x11\x1b\xb5\x8e\x01\xb0\xef\xb4\x63\xd3\xeb\x76\x9f\xc6\x6e\x4a\x59\xb9\x4a\xf6\xa7\xab\xe4\x54\xe9\x60\xae\x3e\x0b\x3b\x4e\x6b\x91\x3b\xb7\x3f\xfc\x7b\x2b\x34\x53\x77\xb9\x25\x1b\xc6\x61\x3a\x74\xd0\x18\x77\x54\x1b\x8c\xc3\x13\x8f\x29\x9a\x6f\x27\x28\xaa\xeb\x89\xc5\xd2\x08\xa3\x47\x1f\x71\xa8\x86\x4a\x9b\xcc\x53\x05\x80\x25\x1a\x67\x41\x53\x5a\x62\xd8\xa0\xe1\x71\x81\x2b\xf9\x88\x46\xa2\x84\x05\x70\x49\x9d\xb4\x19\x32\x64\x04\x88\x48\x7b\x10\x8c\x72\xd4\x2b\x7a\x7d\xc5\x44\xb9\x71\xa3\x2f\xda\x80\x66\x76\x9c\xb4\x70\x09\x05\xe2\x26\x5b\x7a\x43\x70\xd8\xc0\x3e\xe2\x7f\x8c\x19\x76\xa4\x99\xc1\x34\xc8\x25\x12\x41\x37\x78\xf8\x84\xb1\x77\x1a\x9e\x79\x87\x32\x18\x90\xc6\x4a\xa1\x9c\xd7\x8f\x4d\x19\x23\xf5\x94\x94\x48\x04\x8f\xa5\xe7\x13\x5a\x93\x43\xdb\x66\x91\xe6\xb1\x80\x56\x77\x90\x44\x66\x71\x15\xfb\xc1\x44\x3b\x6e\x74\xa9\x23\x27\x95\x86\xcf\x27\x62\x9a\xe2\x85\xca\x10\x0e\x10\x62\xcc\xf5\x6c\x96\xb9\xd7\x20\xed\xa9\x2e\x81\xb8\xae\x19\x94\xa5\x08\x58\x8a\x50\x33\x0f\x73\xd4\x6f\x99\x81\x99\xf7\x38\x70\x11\x46\xa4\xdd\xb4\x1e\x78\x5c\x98\x8f\xc5\x1e\xb7\x1b\x8e\x49\x27\x5b\x7f\x7b\xa5\xe5\x93\x00\xae\x12\xca\x0f\xd1\x52\xd0\x39\xc7\x6d\xf0\x52\x6c\xe3\x4d\xbe\xab\xa1\x7d\x11\xa6\xb0\x06\x0c\xa6\x14\x01\xce\xc3\x5f\xe9\xb1\x75\xe2\x75\x17\xa4\x1c\x4b\x8a\x07\x05\x6f\xc1\x0e\xc6\xf6\x26\x77\xf6\x2b\x76\x84\x0b\xd9\x1a\x95\x20\xc4\xa8\x19\xc8\x3d\x80\x43\x09\x41\x24\x7a\x59\x64\x62\x96\xcc\xbe\xa7\xdc\x1a\xb3\x01\x70\xde\x38\x62\x4e\x8a\x33\xb4\xc2\xba\x2d\xc9\x7b\xf7\x3a\x71\xd9\xac\x35\xa4\x80\xa8\x3f\x1b\xb1\xe1\xc4\x77\x74\x09\xd0\xa0\x65\x78\x2a\x1a\x70\x7b\x06\x8d\x4b\xf2\x20\x51\x01\x20\x2f\xcb\xc7\x1a\xb9\x4b\x29\x29\xcb\x44\xe2\xc5\x47\xec\x10\xb5\xa7\x2d\x8c\x87\x59\xfb\x29\x20\xad\xc8\x0b\x85\x71\x39\x75\x41\x4b\x7b\x20\xb9\x83\xe8\x48\xd3\xa0\xc3\xbc\x43\x3b\xbf\x26\xb7\x00\xa1\xa4\x03\x22\xa8\x4d\xe5\xc8\x7e\xb9\x87\x7a\xd6\x8a\xbe\x98\x86\xf7\xdb\x69\x89\x96\x40\x02\xea\x56\x6c\xc6\x16\x46\x3b\x17\xe0\xe7\x83\xe5\xa9\x62\x17\xa2\x00\x6d\x3a\xe4\x06\x76\x3c\x50\x45\x7d\x14\x81\x40\x2a\xaf\xc7\xe2\x3f\x43\xf9\xd1\xd7\xc0\xaf\x70\x60\xac\x1d\xaa\x9e\xcb\x0e\x67\x07\xf8\x1a\x8b\x0e\x26\x6a\x3e\xe9\x2d\x3a\x63\xcd\xae\x5c\xff\x92\x19\x05\x54\x4c\x9d\xd7\x97\xa8\x49\xe1\xd0\x54\x18\x0e\xca\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", m: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", k: b"\xb4\xd2\x9c\xd5\x5b\xab\x43\xe1\x65\x54\xb7\x4b\x90\x98\xcd\xfc\xe5\x83\x99\x6c\x96\x8b\xcd\x2c\xfd\x1a\xd9\x45\x5e\x35\x1f\xbf", c: b"\x17\x08\xd1\x87\x7e\x99\xd8\x91\x0d\x48\xdf\x96\x25\x97\x3d\x79\x54\xe1\x87\xb2\x94\x05\xa4\xcc\xad\x6d\x28\x7b\xec\xda\x31\x21\x5d\xeb\xb7\x62\xad\xd5\x88\x1c\xf7\xaf\x0d\xc6\xde\xaa\xc2\x29\xe8\x71\x6e\x64\x05\x87\x85\x68\x0e\xf9\x6b\xaf\x05\xa5\x1f\xfc\xd7\xf9\x69\x21\x4f\x07\xad\x69\xe3\xea\x71\xba\x33\x4b\x3c\xf0\xaa\xfb\x01\x0f\x90\x2d\xf7\x8a\x45\x9a\x33\x11\x80\x6c\x09\x51\x41\xf3\x41\x57\x8c\xe4\x4d\xc5\xb2\x06\x87\x08\xf0\x6d\xf7\x63\x2d\xfd\xee\x9c\x86\x2b\xa2\xa4\x6f\xe5\xd4\xcd\xf0\x1a\x23\x49\x98\xc4\x3f\xad\x4d\x86\x1a\xb3\xdb\x4b\xef\xab\x84\x2f\x07\x04\x13\x54\x5a\xc1\xa4\x6f\x9a\x14\x43\x60\x95\x4c\x73\xc4\xe7\xa5\xbe\xfe\x51\xc4\x1e\x10\x60\x0e\xc7\x23\xa2\x5f\x60\x28\x88\xcb\x28\x34\xc6\xe2\xb9\x54\x38\x63\xd1\xe8\x78\x9d\x01\x16\x08\xe1\x39\xf1\xb6\xf8\x8d\x59\xd7\x4a\x5a\x73\xfe\x57\x48\xb5\x00\x55\x4d\xb2\xdd\x23\x2e\x6f\x8b\x12\xb0\x01\x6a\x4b\xf6\xc7\x95\x54\x2a\x73\x40\x85\x53\xd4\xfd\xec\xb1\x18\x0c\xd4\xe7\xf0\xad\xfb\x3a\x88\x2e\x17\x95\x3e\xac\x46\xba\x59\x79\x8f\xc6\xbe\xc1\xfd\x5c\x64\xd4\x58\xb6\x93\x42\x7f\x8b\x87\x8b\x50\x24\xd2\x84\x24\x48\x87\xa1\x90\x1c\xb3\xf2\xae\xff\x99\x6f\xb9\x17\x9c\xc1\x41\xbd\x14\x0d\x20\xcb\x8a\xd6\xf4\x38\x49\x58\x2f\xb8\x0a\xab\xdf\xca\x96\x9d\xbb\x75\xa5\xcc\x8f\x2a\x27\xb1\xb5\x62\xdc\x52\xda\x9b\x4c\xaa\x47\x9b\xf0\x67\x67\x18\x24\x5e\xb0\x88\x9c\xe3\xee\xc4\xe2\x09\xb0\xde\x3a\xc3\x18\xe0\x80\xe3\xe7\x89\x17\xe8\x36\x16\x1b\xc6\xa3\x92\xf8\x69\xb2\x34\xfc\xf2\xff\x74\xb6\x17\x0c\xb4\x18\x08\x16\xb4\x76\xdc\x08\xf1\x74\xa2\x50\x2a\xf1\xb0\x2f\x02\x7e\x28\xb5\x62\xb3\x36\x41\x08\x68\x39\x9f\xe3\xb1\x6a\xa8\x11\x9c\xeb\xbc\xc3\xc8\x2c\xbd\xbf\xb3\x04\x8a\x2c\x16\xea\xbc\x27\xd6\x85\xa3\x7f\x87\x64\xe0\x97\x95\x8e\xa0\x4b\xd8\x9b\x08\x5e\xac\x32\xfa\x29\x2d\xd3\x88\x7b\x3a\x51\xd5\xa7\x9f\xa0\xe9\x89\x22\x20\x1a\x30\xd7\x98\xb3\x70\x1e\xdd\x11\x95\x15\x66\x2d\x2c\xe0\x3b\x9f\x95\xa5\x27\x43\x2c\x70\x59\x4f\xf4\x76\x3b\x52\x80\x7b\x6f\x33\x0c\x83\x71\x30\x4f\xf3\x16\x93\xa8\x02\x65\xe3\xe7\x46\xac\x8a\x5b\x60\x46\x71\x42\x2f\x60\x65\x2e\x79\x4f\x32\x16\xad\xc6\xaa\xab\xd1\x1e\x74\xeb\x48\xeb\x17\xf4\xe9\xdc\x32\xc5\xd7\x04\x5b\x47\xfa\x10\x7c\xe1\x74\x57\xa2\x1b\xce\xb5\x79\x81\xb2\x27\x45\x6f\xf4\xb1\x7c\x08\xa9\x8c\x9e\x56\x0a\x38\x83\xa2\x0b\xbd\xc2\xa0\x7d\x53\x5c\x66\x6b\x1a\xc8\x5e\x23\xbf\xe7\x69\x4a\xe1\x85\xe2\x5f\x13\x11\xef\x9f\x52\x22\x7f\x10\x7d\x19\x92\x58\x26\x61\x89\xed\x30\x10\x38\x0e\x8a\xb8\xa2\xf8\x19\xef\xf5\xe0\x06\x3b\xe1\x38\xfd\x3e\x73\x29\x9f\xb7\x8b\xd6\x1a\x68\x46\x32\x2b\x9f\x76\x39\x1d\xcf\x5e\xb8\xb7\xfb\x09\x50\x47\x21\x74\xe0\xd9\x5c\x4e\xe2\x94\xa0\x3c\x89\x01\xa4\xcf\x87\x16\xeb\xb1\xf8\x6e\xec\x56\xf4\x8d\xaf\x5c\x0d\xc4\xa2\xb3\xe9\x9f\xc9\xfc\x8c\x1f\xdd\x1d\xea\x46\x81\xac\xa7\xa3\xa7\x69\xde\x0f\xe8\x15\xd5\x72\x9c\xe7\xf5\xc0\xe4\x43\xd0\x96\x57\x0e\x84\x39\xec\x69\x99\x88\x78\x10\x35\x46\xa4\x69\xb1\x0f\x57\x63\xdc\xed\x2d\x68\xa6\xe8\x01\x95\x3d\x22\xb8\x81\xd3\x43\xbc\x75\x5f\xc8\x7e\x9b\x92\x19\x84\xf9\xf5\xc5\x88\xfe\x37\x28\x16\xc8\x2e\xf6\x19\x3a\xae\x99\xf5\x6a\xd6\xa4\x98\x43\x40\x58\xd3\x00\x5c\xc7\x0f\x9d\xb2\x22\xe3\xe6\x1d\x5a\x15\x33\xf9\x19\xf7\x81\x30\xc6\x53\xa5\xd7\x75\x09\x65\x7c\xe0\x10\xb4\x32\x7c\x3b\x10\x97\x4a\xe7\xb7\xf6\x0d\x72\x36\xee\x00\xfe\x99\xe8\x41\xb8\x40\xc8\xd2\xfb\xae\xd2\x91\x8e\x8c\x3c\xef\xdc\x8c\xb3\x59\x79\x02\x17\x33\x58\x20\xc6\x0e\x1a\xd8\x0a\x79\xe3\xe7\xce\x72\x98\xdb\x9c\xb7\xb1\x73\x37\xfe\x7f\x93\xb3\x4d\x13\x2a\xf1\xe2\x3e\x89\xa2\xbb\x14\x2f\xbb\x72\xad\x82\x09\x12\x5e\xdc\x61\x0b\x89\xaf\xef\x33\xe7\xf6\x3d\x14\x6f\x5e\x76\xab\xd6\xfc\x51\x9b\xa6\x62\xc3\x4f\x16\xbd\x32\x5f\xae\x40\x3c\x35\xd0\x45\x8d\x77\x03\x53\x82\xe1\xa1\x98\x0e\x12\x82\x3c\x20\x36\x3d\xdb\x5c\x77\x6a\x4d\x93\x58\xf5\x7e\xf2\x87\x52\x2c\xfa\x2f\x12\x09\x24\x47\xe7\xaa\x91\xf0\x9d\xe7\x43\x77\xb8\x3d\xb2\x50\x50\x6f\xf8\xd2\x78\xe0\x28\xc2\x4a\xba\xe0\x39\x7e\x8b\x83\x94\xda\x66\xbd\xba\x13\x8a\xea\x35\xa0\x6a\x74\x0b\x4d\x98\x79\xc5\xde\xa2\x07\xfa\xa3\xa1\xf5\x00\x1f\xc6\xbc\x2a\x5b\x31\xd8\x80\x33\x8d\xc3\xc5\x0e\x3a\x17\xf3\x6d\xe1\x9e\x58\x0c\x98\xcd\xfd\xdd\xc0\xbd\x3b\xfd\x5b\x43\x31\xb8\x20\x5a\x9b\x7c\x90\xfb\x09\x95\x57\x3f\xc4\x9f\x86\xd4\x5a\x85\xcb\x10\x5f\x79\x95\x48\x44\x23\x6a\xcc\x7e\x72\xe9\xb4\x2f\xbc\xff\xce\x53\xed\xb4\xfb\xd7\x67\xeb\x8b\x4e\xda\x3a\x77\xd6\xb8\x03\x6e\xdd\x88\x31\x89\xda\x22\x7e\xca\xfe\xae\xa0\xd4\x9a\x31" },
  Kem { seed: b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff", ek: b"\x32\x07\x7e\x57\xf9\xbb\x32\x57\x3f\x87\xd7\x6e\xbe\xac\x20\x90\x04\x9e\xd6\xab\x25\x33\x47\x87\x86\xc6\x3f\x3c\x0a\x44\xd4\x9c\x1c\x54\xe1\xaa\x64\xac\x33\x97\xa6\x2a\xa6\x64\x47\x97\xc9\x36\x29\xf0\x5f\x5b\x1b\xca\x46\x50\x01\x7b\x05\xa1\x36\x4a\x97\xff\x65\x3b\x78\x68\x7f\xe1\x16\xc8\x53\xb3\xa2\x22\x5c\x88\x41\x54\x8e\x2f\x26\xbd\x61\x23\xa7\xbd\x48\xa5\xad\xf6\xb5\x5b\xfc\x52\x9d\x02\x27\xcc\xe9\xbc\xdd\x12\x7f\x5d\xc3\x8f\x75\xf9\x3a\x6e\xc5\x71\xca\x22\xcf\xa8\x39\x56\x33\xd2\x0f\x56\x38\x38\xba\x7c\x84\x09\x40\x40\x9a\xf4\x58\xf2\xd8\xa6\x6c\x22\x13\xcd\x50\x56\xc6\x46\xa6\x32\xd3\xa3\xf3\x42\x35\x86\x8a\x14\x3b\xb4\x2f\x77\x1b\x60\x2d\xa6\x62\xcb\xd9\xca\x4e\xf9\x41\x46\x0a\x7f\x34\xca\x6b\x95\x62\x39\x28\xd3\x4c\xb2\x8c\x27\x67\xf8\x10\xb7\x33\x5b\xce\x79\x6d\xe8\x63\x05\x36\x41\x7f\x38\x52\xa3\xf6\xf7\x4f\xd5\x12\x29\x25\x41\x0e\xae\x13\x78\x9a\xd7\x9d\xa1\x20\x9e\x94\xf5\xa3\x0c\x0b\x57\x13\x7b\x5c\x88\xb0\x13\x6c\x85\x9a\xa4\xa3\x4e\x78\x97\x72\x44\x75\x7a\x4f\x26\x03\xa5\x06\x65\x0c\xd5\x8e\xc1\x96\x85\x59\xb3\x7a\xc4\x9c\x2e\x6e\xf2\x07\x9e\x53\x8b\x11\xc7\x94\xe6\x02\x82\xe6\xa5\x5f\x62\x6c\xc7\x5b\xdb\xb3\x22\x6c\x0a\x93\xdc\x1f\xe3\xe1\x1a\x7e\x8b\xb5\x42\x98\x2c\x3c\x4b\x5f\x62\xca\x8c\x98\x70\x5b\xe3\x74\x4d\x13\xe6\x9f\x00\xa5\xc1\xd7\x91\xad\x33\xd9\x81\x0b\x26\x4c\xe4\x85\x61\x86\x43\x6b\x70\xd7\x26\x5f\xe2\x01\xfc\xd5\x13\x24\xd4\x79\x59\x38\x80\xb5\x79\x27\xdd\xe2\x95\xd7\x3a\x26\x27\x6c\xac\x61\x94\xb2\x1c\x2c\x3d\x53\xf9\x49\x56\x55\x2a\x8f\x77\xa6\x20\xc6\x9d\x45\xb6\x14\x16\x07\x9c\x47\x10\x8a\xfc\xd3\x76\xfd\xc3\x74\x16\x63\x8b\xb1\x76\x52\xa2\x75\x32\x77\x72\xa4\x5b\x63\x12\xdc\x1b\x8d\x08\x11\x6a\xee\x86\x85\x47\xd6\x2e\x7c\x31\xa6\x0e\xb3\xb6\x30\x08\x1a\x65\xcb\xa8\x06\xda\x52\x20\x13\x35\x0c\xd8\x8b\x74\x07\x2d\x09\x25\x44\x04\x25\xa0\x25\xc4\x45\x2c\xf0\x9b\x33\x75\x04\x27\xe7\x06\x39\x11\xb4\xcd\x75\x6d\x5d\xcc\x74\xce\x53\xa7\x33\xd9\x0f\xb0\x11\x20\x89\x81\x5b\x0f\x69\x1d\xe5\xfc\x62\x53\xe6\x81\xf8\x73\x15\x29\xbc\x1d\x67\xba\x04\x17\x22\x52\x6c\x2a\x73\x15\x4b\x40\xf7\x90\x99\xbc\x98\x4e\xa7\x8a\x70\x23\x22\x42\x61\x5c\x87\x60\xf5\x8e\xf6\x39\x22\x7c\x74\x64\x16\x13\x71\x0d\xa0\x2b\xf0\xeb\x19\x18\x02\x8c\xf1\xc3\xc2\x53\xec\x78\xc8\x84\xb8\x3f\x19\x8a\xc1\x3b\x9f\x86\x57\x80\x7a\x77\x99\xf5\x60\x47\x0e\x71\x7b\xf1\xf9\x14\x45\xa5\xa4\x11\x68\x77\x54\xc8\x42\xd3\x18\xa8\x63\x12\x2d\xb1\x71\x40\xd6\x23\x84\x57\xa2\x0d\x78\x99\x5f\x38\xa1\x60\x2c\x06\x46\x83\x32\x22\xc6\x6c\xc0\x6c\x85\x8c\x3d\xa8\x18\x37\x45\xa9\xbb\x8b\x43\x3a\xf9\x10\xe2\x76\x65\xc3\xda\x34\x6f\x23\xcc\xd2\x29\x48\xbb\xc4\x5a\x4f\xc5\xa1\x51\xf2\xc5\x16\x39\x40\xf8\x32\x9f\x7a\x29\x6a\x5e\xbb\xcc\x95\xb9\xb4\x0c\x78\x84\x74\x79\x40\xf2\xf3\x22\x6c\xba\xb4\x90\x01\x47\x16\x4a\xcc\x1d\xc7\x56\x65\x59\xa1\xaa\x50\x2a\x85\xa4\x62\xbf\x05\xcb\x1f\x07\xc0\xae\x27\xc6\xe0\x7b\x89\x23\x72\x2b\x82\x0c\x15\xa5\x84\x8a\x49\x41\xa1\x30\xb3\xb5\x61\x18\x58\x13\x83\x9e\x84\x28\x2e\xde\x98\x63\x0a\x99\x23\xc3\x80\x0d\x99\xf4\x61\x9f\x0c\x19\xa5\x72\x94\x83\x15\xad\x17\xb8\x1e\x4f\xea\x5c\x22\x81\x6d\xab\x0a\xa2\xc0\x78\x53\x62\xcb\x5d\x3f\x8c\x2d\x55\xf6\x67\xef\x60\x04\x0e\xcc\x14\x9c\x8c\xc6\x75\xfa\x65\xf9\x01\x9f\x97\xb2\x97\x57\x73\x3a\xb9\xa7\xbe\x27\xb6\x08\x60\xdb\x84\x80\x48\x0a\x09\xe7\xa1\x38\xda\x5f\x49\x04\xc6\xb3\x4a\x5b\xb7\x94\xa9\x63\x65\x98\x1e\xe5\x4b\xc6\xc3\xb2\x39\x98\x10\x5c\x25\xa5\xf5\xba\x3a\x3a\x40\x79\x70\xfb\x2a\x6e\x6c\x30\x02\x63\x27\x8d\xf0\x28\x30\x48\x47\x06\x92\x27\x29\x9b\x1f\xb3\xf6\x7c\x38\xb8\x48\x87\xf1\x78\x3a\x57\x2d\xb5\x7a\x05\x58\xb1\x13\xf5\x11\x33\xdb\x3a\x4f\x9e\xfc\x7c\x6c\xbb\x08\x2b\x52\x69\x43\xdb\x97\x08\xba\x69\x7a\x27\x99\x51\xa2\xa7\x81\xab\xa2\x34\x0b\xa4\x55\xbb\x46\x35\x44\xac\x28\x00\x2d\xcb\x87\x3c\xde\x2c\x1c\x94\xf2\x9d\x98\xd6\xb7\xa9\xa4\xa6\xbf\x55\x66\xe2\xc7\x8e\x47\xc9\x78\x60\xb8\x1b\x54\x42\x96\xf0\x19\x27\x59\x55\x68\x6e\x94\x8c\x09\x9b\x15\x9d\xc8\x69\x2a\x88\x18\xc4\xc8\xbf\x74\x50\xc5\xff\x96\xb8\x6a\xc4\x09\xb1\x02\xab\xde\xc9\x02\x07\x40\x5e\xe6\xf3\xc6\x22\x11\x73\x5a\x88\xc0\xfd\x5b\x17\x1d\x40\x45\x95\x57\xad\x55\x5b\x9a\xd9\xa0\x51\xcd\x52\xb2\x46\x8a\xbc\xbb\xf3\x84\x9e\x00\xad\x01\x85\x2b\x1b\xe3\xac\x09\x1a\x10\x98\xc3\x4d\x0d\x99\x0f\x92\x99\x51\x28\x50\x03\x97\xb9\x6c\x1c\x78\xae\xba\xf8\x23\x4b\xe2\x06\x6d\x30\xab\x3b\x09\x52\xd4\x56\x09\xd1\x74\x59\x87\x69\x03\x10\x96\x03\xeb\x84\xa0\x62\x18\x30\x61\x3a\x94\x95\x41\x6c\x99\xf3\x08\x9f\x32\xc5\xf3\xd3\x30\x25\xe6\xab\x33\x76\x30\x0d\x70\xb9\x2e\x16\x86\xf5\x09\xb0\x42\xcc\x86\x63\xf1\xbc\x43\x76\xbf\xfa\x68\x8b\xc5\x1a\x3b\x02\xea\x83\x95\x29\xaf\x5a\x10\x4b\xbc\x42\x7f\xb6\x29\xc4\x49\xca\x55\xc5\xaa\x24\xf3\x66\x67\x4d\x37\x3c\xe8\xe1\x9e\xb8\xcb\xe8\x0b\x15\xd5\xd1\x0c\xb7\x6e\x07\x39\xd4\x96\x05\xca\x52\xcf\x4b\x76", dk: b"\x95\x53\x4d\x81\xda\xc3\xd5\x1a\x6c\xd1\xf1\x14\xd2\x69\x8a\x9e\x55\x4a\x60\x1b\x35\x4a\xac\x9e\x1d\xa9\x0c\x86\xfc\x6c\x6d\x16\x79\xcc\x15\x67\xb9\x56\x58\x37\x28\x2c\x2e\xe2\x94\x31\x17\x58\xa2\xc7\x22\x11\x06\xa6\x2c\x62\xc0\x36\x89\x8b\xd5\x38\x22\xb8\x0b\x76\x42\x14\xa5\xa1\x98\x30\xcb\xa5\x93\x4e\x5c\x3e\x2f\x1b\xc0\x31\x42\xc3\x51\x7c\x3c\xce\xfc\x7d\xe4\x35\xa2\x41\xba\x9e\x93\x60\x0a\xd2\xb7\x2d\xff\x43\xc8\xe6\x66\x34\x49\xb5\x73\x8b\x81\x72\x4e\x94\x85\x35\x9b\x9d\xbb\x28\xa8\x8e\x69\x55\x28\xe3\xbb\x71\xa8\xbb\xe7\xc2\x81\x8c\x80\xce\x71\xf3\xb7\x2f\x38\x89\x4c\xa8\x65\xf7\xa8\xbb\x02\xe2\x14\xa3\x6b\x4c\xfa\x95\x0d\x93\x64\x06\x0b\x07\x97\xee\x4c\x4d\xbd\xc3\x1e\x2d\x63\x7a\x1f\xa1\x9b\x08\x09\x2a\x2d\x09\x2c\x51\xb9\x15\x83\xa8\xb4\x29\x6b\x17\x0e\xcc\xae\xef\x79\xac\xe4\xe5\x39\x9f\x18\x83\x54\x75\x26\x37\x60\x17\x0d\x93\x16\xf8\x69\x79\xa1\x6b\x6c\x36\x94\xb2\xb4\x9b\x56\xc8\x5a\x31\x78\x4a\x89\x1f\xdb\x33\x4e\x29\xa6\x18\x65\x08\x02\x5a\x54\x35\xb5\x86\x01\x86\x78\xbb\x34\xb4\x03\xf2\x2f\xc5\x0b\x7f\x5b\x3b\x79\xc7\x32\x1d\x89\x6a\xa7\x57\x63\x64\xa7\x43\x96\xb6\xe1\x7c\xcb\x01\x2a\x16\x82\xce\x12\x66\x47\xb4\x80\x32\xc3\x53\x5a\x51\xbb\x8e\x1b\x64\x06\x5f\xca\xac\x62\x65\x7f\x83\x21\x56\xf4\x19\x7b\x82\x11\x5a\xda\x89\x29\x22\x80\x14\x6d\x4b\xb6\xd0\x50\x29\x0a\xe0\x75\x30\xf2\x79\x40\x5a\x75\x6a\x12\x22\xe2\x5a\x8d\xcb\xa3\xa3\x0b\x12\x86\xcd\x5c\x72\xf2\x79\x52\x03\x27\x80\xf9\x4c\x74\xf4\x05\x0d\x78\xb9\x96\x47\xa2\xc9\x49\x70\x23\xeb\x90\x53\x42\x26\x8d\xa3\x97\x59\x7e\xda\x9b\x5d\x2c\x37\x56\x76\x79\x48\x40\x03\x9b\x70\xa6\x65\x45\x0d\x19\xbb\x17\x82\x9b\xb0\x9e\x4b\x62\xa0\x93\x89\x7a\x49\x08\xab\xa9\xbc\xfc\x74\x57\x6e\xf3\xc4\x8c\x3b\x5f\x60\xb4\xce\x84\x17\x2a\x7f\xdc\x50\x94\xab\xc4\xf4\x2c\x1a\xf8\xac\x38\x9c\x84\x74\x73\x93\x96\xda\x1c\x33\xf7\xa6\x99\xb6\xd6\xba\x76\xd6\x31\xde\xf3\x39\xe7\xc1\x92\x50\x42\xc0\x3c\x71\xbd\x45\xc7\xaf\x76\xdc\x30\x94\x67\xb3\xe1\xe8\xbc\x6c\x47\x88\x5a\x89\xb6\x9c\x65\xaf\x0f\x63\x17\xdb\xd9\x04\x4f\x78\xb9\x14\x56\x48\xb9\x5a\x43\x8d\x06\x3e\x3f\xac\xaa\xfd\xf5\xcb\xd6\x28\x46\x74\x38\xb7\xf3\xb6\x8a\x73\x05\xc8\x23\xe3\x9e\x54\xcb\x16\x2e\xb1\x5b\x0a\xc4\x57\x34\x61\xa4\x3c\x30\xb8\x02\x98\x5e\x0c\x67\x86\xd0\x55\x53\xeb\xb3\xc3\x58\x08\xb3\x33\xaa\x90\x50\x68\x88\x91\x23\x97\xf2\x42\x6e\x17\x00\x78\xd8\xba\x84\xb8\x69\x4e\xdb\x99\xc7\x82\x22\x48\xbc\x06\x8b\x20\x1a\x7d\x92\xb1\x64\xf6\x00\x4f\x62\x5a\x10\x33\xe1\xb4\x73\x76\x56\xde\x98\x53\x52\x88\x6c\x89\xe3\x6c\x99\x6a\x88\x89\xea\x64\xb8\x68\x44\x59\x1c\x01\x11\xa3\x8b\x22\x12\x75\xfa\x21\xb4\xe9\xaa\x42\x26\x87\x81\x23\x50\x53\x69\x48\x96\x59\x28\x5d\x3e\x35\x83\xe6\x44\x32\xe8\x66\x68\x38\xf0\x32\x28\xbc\x13\x2f\x48\xc2\x99\x00\x0f\x9a\xba\xc3\x4b\x7b\xaa\x86\x7c\x25\xb4\x37\x35\x09\x12\xa8\x5f\x13\x7b\x74\xac\x0b\x7d\x84\xba\xcc\xe1\x51\x26\x2b\x1b\x16\x41\x1e\xdd\x91\x6d\x80\x68\x3a\x9f\xc7\x28\x16\x77\x03\xab\x03\x5b\x74\x1b\x5c\x53\xca\xa5\x24\x34\xcc\x2d\x86\x23\xea\xd7\x66\xc0\x21\x91\x77\xdb\x2a\x43\xbc\x9e\x17\x78\x8c\x9e\x21\xac\x5b\x95\x6a\x56\x02\xc7\xb7\x4b\x46\xe3\x7c\x24\xb0\xea\xcc\x5e\xc1\x7a\x95\x75\x8f\x77\x85\x23\x1f\x00\x6e\xb8\x99\x11\x33\x55\x85\x88\xb0\xb8\xf8\x53\x4e\x98\x91\x21\x2d\xd5\x3f\x7b\x99\x2a\x70\x85\x57\xe2\xb3\x1d\x19\xeb\xab\x25\x80\x2d\x58\x05\x02\x8a\xd6\xbf\x96\x14\x16\xb2\x3c\x8c\xb6\x95\xa5\xda\x63\xcc\x7e\xaa\xc1\x26\x81\xb9\x4c\xd3\x90\xb8\x03\xa2\x69\x10\x44\x1b\x13\x93\x0a\xe7\x4c\x11\xc4\x8c\x24\x4a\x95\x05\x60\x7a\x1e\x20\xce\xa1\xb2\x88\x9b\x62\xcf\xaf\xa6\x92\x13\x4b\x63\xec\x16\x64\xd1\x01\x14\x41\x9a\x2b\x47\x08\xa6\xf3\xb8\x14\x39\x00\x47\x8d\xf1\x53\x66\xd1\x15\x57\x96\x48\xbe\xe0\x7e\x19\xeb\x6c\xde\x30\xb2\x20\x43\x9a\xcc\x8c\x95\x54\x03\x6d\x5c\x51\x98\xf0\xd8\x19\x52\x84\x94\xa4\x07\xc0\xa0\x55\x96\xa6\x31\x6a\x3b\xac\xbb\x12\x65\x9d\xe9\x76\x1a\x50\xe7\x66\x42\x4c\x53\x31\x8b\x25\xdf\x21\x6f\x36\x32\x33\x8f\xea\x9c\x7f\xb2\x36\x08\xa5\x5e\xa3\x7b\xaf\x77\xc9\x76\xf7\x90\xa0\xd4\x22\x81\xf2\xb6\xa6\x37\x06\x2e\x9a\xc2\x02\x68\x38\xcc\x1b\xe4\x88\x62\xc0\x19\x97\xa7\x22\x9b\x57\xba\x00\xeb\x76\xd2\x09\x8d\x57\x2c\x20\x75\xd9\x84\xa9\xc3\x57\xd8\xb9\xcb\x9b\xc1\x06\xe2\xa0\x69\x51\x23\xcb\x0d\x51\x45\x0e\x0c\x46\xbd\x37\x0b\x62\xe9\xa9\x53\x52\x02\x14\xe5\x25\xdd\x53\xbd\xb5\x36\x00\x25\xca\x0a\xf8\x8a\x93\x6a\xb6\x0a\xc0\x99\x45\x4c\x53\x4e\x66\xf6\x81\x39\x90\x6f\x8b\x26\xae\x60\x1b\xbb\x8e\x79\x6d\x7d\x85\x0f\xd0\x03\x23\xe2\x7b\x3d\x1f\xe0\x9f\x93\x86\x73\x72\x26\x09\xe7\x7c\xb7\xf4\x5b\x25\x81\x3c\x81\xe5\x7a\x04\x13\x20\x77\x65\x57\x60\xe8\x40\x60\xa7\x7b\x8d\x0b\xec\x85\x58\xe3\x66\x4d\xb4\x6f\x31\x54\x49\x9c\x46\x26\xea\xbc\xa2\x49\x29\x06\x32\x07\x7e\x57\xf9\xbb\x32\x57\x3f\x87\xd7\x6e\xbe\xac\x20\x90\x04\x9e\xd6\xab\x25\x33\x47\x87\x86\xc6\x3f\x3c\x0a\x44\xd4\x9c\x1c\x54\xe1\xaa\x64\xac\x33\x97\xa6\x2a\xa6\x64\x47\x97\xc9\x36\x29\xf0\x5f\x5b\x1b\xca\x46\x50\x01\x7b\x05\xa1\x36\x4a\x97\xff\x65\x3b\x78\x68\x7f\xe1\x16\xc8\x53\xb3\xa2\x22\x5c\x88\x41\x54\x8e\x2f\x26\xbd\x61\x23\xa7\xbd\x48\xa5\xad\xf6\xb5\x5b\xfc\x52\x9d\x02\x27\xcc\xe9\xbc\xdd\x12\x7f\x5d\xc3\x8f\x75\xf9\x3a\x6e\xc5\x71\xca\x22\xcf\xa8\x39\x56\x33\xd2\x0f\x56\x38\x38\xba\x7c\x84\x09\x40\x40\x9a\xf4\x58\xf2\xd8\xa6\x6c\x22\x13\xcd\x50\x56\xc6\x46\xa6\x32\xd3\xa3\xf3\x42\x35\x86\x8a\x14\x3b\xb4\x2f\x77\x1b\x60\x2d\xa6\x62\xcb\xd9\xca\x4e\xf9\x41\x46\x0a\x7f\x34\xca\x6b\x95\x62\x39\x28\xd3\x4c\xb2\x8c\x27\x67\xf8\x10\xb7\x33\x5b\xce\x79\x6d\xe8\x63\x05\x36\x41\x7f\x38\x52\xa3\xf6\xf7\x4f\xd5\x12\x29\x25\x41\x0e\xae\x13\x78\x9a\xd7\x9d\xa1\x20\x9e\x94\xf5\xa3\x0c\x0b\x57\x13\x7b\x5c\x88\xb0\x13\x6c\x85\x9a\xa4\xa3\x4e\x78\x97\x72\x44\x75\x7a\x4f\x26\x03\xa5\x06\x65\x0c\xd5\x8e\xc1\x96\x85\x59\xb3\x7a\xc4\x9c\x2e\x6e\xf2\x07\x9e\x53\x8b\x11\xc7\x94\xe6\x02\x82\xe6\xa5\x5f\x62\x6c\xc7\x5b\xdb\xb3\x22\x6c\x0a\x93\xdc\x1f\xe3\xe1\x1a\x7e\x8b\xb5\x42\x98\x2c\x3c\x4b\x5f\x62\xca\x8c\x98\x70\x5b\xe3\x74\x4d\x13\xe6\x9f\x00\xa5\xc1\xd7\x91\xad\x33\xd9\x81\x0b\x26\x4c\xe4\x85\x61\x86\x43\x6b\x70\xd7\x26\x5f\xe2\x01\xfc\xd5\x13\x24\xd4\x79\x59\x38\x80\xb5\x79\x27\xdd\xe2\x95\xd7\x3a\x26\x27\x6c\xac\x61\x94\xb2\x1c\x2c\x3d\x53\xf9\x49\x56\x55\x2a\x8f\x77\xa6\x20\xc6\x9d\x45\xb6\x14\x16\x07\x9c\x47\x10\x8a\xfc\xd3\x76\xfd\xc3\x74\x16\x63\x8b\xb1\x76\x52\xa2\x75\x32\x77\x72\xa4\x5b\x63\x12\xdc\x1b\x8d\x08\x11\x6a\xee\x86\x85\x47\xd6\x2e\x7c\x31\xa6\x0e\xb3\xb6\x30\x08\x1a\x65\xcb\xa8\x06\xda\x52\x20\x13\x35\x0c\xd8\x8b\x74\x07\x2d\x09\x25\x44\x04\x25\xa0\x25\xc4\x45\x2c\xf0\x9b\x33\x75\x04\x27\xe7\x06\x39\x11\xb4\xcd\x75\x6d\x5d\xcc\x74\xce\x53\xa7\x33\xd9\x0f\xb0\x11\x20\x89\x81\x5b\x0f\x69\x1d\xe5\xfc\x62\x53\xe6\x81\xf8\x73\x15\x29\xbc\x1d\x67\xba\x04\x17\x22\x52\x6c\x2a\x73\x15\x4b\x40\xf7\x90\x99\xbc\x98\x4e\xa7\x8a\x70\x23\x22\x42\x61\x5c\x87\x60\xf5\x8e\xf6\x39\x22\x7c\x74\x64\x16\x13\x71\x0d\xa0\x2b\xf0\xeb\x19\x18\x02\x8c\xf1\xc3\xc2\x53\xec\x78\xc8\x84\xb8\x3f\x19\x8a\xc1\x3b\x9f\x86\x57\x80\x7a\x77\x99\xf5\x60\x47\x0e\x71\x7b\xf1\xf9\x14\x45\xa5\xa4\x11\x68\x77\x54\xc8\x42\xd3\x18\xa8\x63\x12\x2d\xb1\x71\x40\xd6\x23\x84\x57\xa2\x0d\x78\x99\x5f\x38\xa1\x60\x2c\x06\x46\x83\x32\x22\xc6\x6c\xc0\x6c\x85\x8c\x3d\xa8\x18\x37\x45\xa9\xbb\x8b\x43\x3a\xf9\x10\xe2\x76\x65\xc3\xda\x34\x6f\x23\xcc\xd2\x29\x48\xbb\xc4\x5a\x4f\xc5\xa1\x51\xf2\xc5\x16\x39\x40\xf8\x32\x9f\x7a\x29\x6a\x5e\xbb\xcc\x95\xb9\xb4\x0c\x78\x84\x74\x79\x40\xf2\xf3\x22\x6c\xba\xb4\x90\x01\x47\x16\x4a\xcc\x1d\xc7\x56\x65\x59\xa1\xaa\x50\x2a\x85\xa4\x62\xbf\x05\xcb\x1f\x07\xc0\xae\x27\xc6\xe0\x7b\x89\x23\x72\x2b\x82\x0c\x15\xa5\x84\x8a\x49\x41\xa1\x30\xb3\xb5\x61\x18\x58\x13\x83\x9e\x84\x28\x2e\xde\x98\x63\x0a\x99\x23\xc3\x80\x0d\x99\xf4\x61\x9f\x0c\x19\xa5\x72\x94\x83\x15\xad\x17\xb8\x1e\x4f\xea\x5c\x22\x81\x6d\xab\x0a\xa2\xc0\x78\x53\x62\xcb\x5d\x3f\x8c\x2d\x55\xf6\x67\xef\x60\x04\x0e\xcc\x14\x9c\x8c\xc6\x75\xfa\x65\xf9\x01\x9f\x97\xb2\x97\x57\x73\x3a\xb9\xa7\xbe\x27\xb6\x08\x60\xdb\x84\x80\x48\x0a\x09\xe7\xa1\x38\xda\x5f\x49\x04\xc6\xb3\x4a\x5b\xb7\x94\xa9\x63\x65\x98\x1e\xe5\x4b\xc6\xc3\xb2\x39\x98\x10\x5c\x25\xa5\xf5\xba\x3a\x3a\x40\x79\x70\xfb\x2a\x6e\x6c\x30\x02\x63\x27\x8d\xf0\x28\x30\x48\x47\x06\x92\x27\x29\x9b\x1f\xb3\xf6\x7c\x38\xb8\x48\x87\xf1\x78\x3a\x57\x2d\xb5\x7a\x05\x58\xb1\x13\xf5\x11\x33\xdb\x3a\x4f\x9e\xfc\x7c\x6c\xbb\x08\x2b\x52\x69\x43\xdb\x97\x08\xba\x69\x7a\x27\x99\x51\xa2\xa7\x81\xab\xa2\x34\x0b\xa4\x55\xbb\x46\x35\x44\xac\x28\x00\x2d\xcb\x87\x3c\xde\x2c\x1c\x94\xf2\x9d\x98\xd6\xb7\xa9\xa4\xa6\xbf\x55\x66\xe2\xc7\x8e\x47\xc9\x78\x60\xb8\x1b\x54\x42\x96\xf0\x19\x27\x59\x55\x68\x6e\x94\x8c\x09\x9b\x15\x9d\xc8\x69\x2a\x88\x18\xc4\xc8\xbf\x74\x50\xc5\xff\x96\xb8\x6a\xc4\x09\xb1\x02\xab\xde\xc9\x02\x07\x40\x5e\xe6\xf3\xc6\x22\x11\x73\x5a\x88\xc0\xfd\x5b\x17\x1d\x40\x45\x95\x57\xad\x55\x5b\x9a\xd9\xa0\x51\xcd\x52\xb2\x46\x8a\xbc\xbb\xf3\x84\x9e\x00\xad\x01\x85\x2b\x1b\xe3\xac\x09\x1a\x10\x98\xc3\x4d\x0d\x99\x0f\x92\x99\x51\x28\x50\x03\x97\xb9\x6c\x1c\x78\xae\xba\xf8\x23\x4b\xe2\x06\x6d\x30\xab\x3b\x09\x52\xd4\x56\x09\xd1\x74\x59\x87\x69\x03\x10\x96\x03\xeb\x84\xa0\x62\x18\x30\x61\x3a\x94\x95\x41\x6c\x99\xf3\x08\x9f\x32\xc5\xf3\xd3\x30\x25\xe6\xab\x33\x76\x30\x0d\x70\xb9\x2e\x16\x86\xf5\x09\xb0\x42\xcc\x86\x63\xf1\xbc\x43\x76\xbf\xfa\x68\x8b\xc5\x1a\x3b\x02\xea\x83\x95\x29\xaf\x5a\x10\x4b\xbc\x42\x7f\xb6\x29\xc4\x49\xca\x55\xc5\xaa\x24\xf3\x66\x67\x4d\x37\x3c\xe8\xe1\x9e\xb8\xcb\xe8\x0b\x15\xd5\xd1\x0c\xb7\x6e\x07\x39\xd4\x96\x05\xca\x52\xcf\x4b\x76\x60\xe0\x0b\x9a\xcb\x3b\xfb\x39\x1e\xb3\x49\x3e\x65\x47\x71\x5b\xfe\xe4\x9d\xeb\xcb\x27\x2e\xc3\x62\x92\x54\xd1\xf5\x74\xfb\x8d\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff", m: b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff", k: b"\xe8\xee\x7d\x2c\xca\x02\xb2\x83\x88\x0f\x34\xd2\x1c\x11\x22\x4f\xc0\x46\x0a\x04\xbf\xef\x57\x1f\xa9\x9d\xf8\x7f\xf4\xb1\x04\xc8", c: b"\x90\x20\x9c\x6f\xb3\x2c\x26\xaf\x4e\xb1\x98\xc5\xfe\x95\xea\x51\x51\x57\x2f\x0d\x8d\xd0\x06\xa3\x58\x7f\x2b\xbf\x33\xde\x90\xde\x95\x22\x65\xfc\xea\x2a\xdd\xbf\x2d\x8d\x34\x73\xa0\xbe\x24\x47\xdd\xf0\x51\x4f\x1b\xaf\xd1\x98\x62\x97\x6b\x90\x56\xdb\x8e\x39\x60\x5e\x90\x87\x3a\x00\xd0\x78\x75\x86\xc0\x04\xbf\x4c\x7e\x43\x58\xa7\x27\x30\x20\xfd\x0d\xf9\xbf\xe4\xfb\x88\xbf\x07\xd3\x05\x88\xea\x41\x52\x2a\x33\xb0\x8f\x0f\x71\x8a\x16\x79\x3a\x3f\x4f\xbb\xa3\xce\x9f\x13\xf5\xa1\x1a\xb1\x97\x73\x88\x69\x7f\xa7\xad\x39\xca\x60\x54\x69\x19\xcf\xc6\x7b\xdc\xd6\xab\xf7\xd2\x39\xa9\x15\x14\x2c\xcd\x96\x01\xb7\x75\xe3\xfa\x1d\xa8\x5e\x4d\x99\x72\x1a\x9c\xa1\x89\xd2\xc9\xc9\xb5\x88\x97\x7b\x74\xd5\xe5\xc0\xcd\x29\x45\x7b\xc6\xd4\xa6\x4a\x90\x9f\xaa\x6f\xcc\xdf\xb7\xeb\xf8\x27\xd3\xd8\xae\x4c\x04\x7f\x67\x1d\xf5\x22\x35\xbb\xdc\x21\x78\xa2\xf1\x6f\xd1\xe7\x8f\x9b\xaf\x6e\xd3\x43\x14\x37\x39\xdc\xbb\x92\xa0\xc1\x55\xb6\xe0\x6d\x61\x0b\x28\x21\x50\xb5\x7c\x33\x3b\xb5\xd5\x8f\x67\x97\xf3\xa5\xa3\xbf\xbf\xc4\x65\x55\x59\x98\x72\x08\xab\xd2\x2c\x35\x87\xa4\xc6\xd7\x71\x06\x85\xdb\x98\xae\x25\xfc\xd9\xa2\x91\xa4\x04\x5a\xf9\x82\xe9\x62\xf4\x29\xf6\x7b\xb8\xae\xa6\xba\xc3\x2d\x3e\xa6\xbb\x3e\x83\x55\x90\x0d\xe5\x7f\xd3\xda\xb5\xe2\x08\xbc\xba\x75\xc1\xfc\x9d\x84\x5e\x76\xe2\x42\x17\x98\x90\xba\xc0\x18\x8f\xee\x25\x25\x78\x0c\x8e\x8a\x3a\xec\x0b\x24\x7a\x32\xd8\x45\x1d\x3f\x2e\x08\x50\xed\x62\xc8\x55\xe1\xab\x3c\x26\x27\x1e\x82\xa9\x8e\xdc\xb2\x07\xd7\xa6\xc6\xa3\x01\x2c\xdd\xaf\x94\xd8\x5f\x4c\x31\xd4\x32\x0b\xe7\x1a\x1b\xa8\x91\x48\x65\x99\xe7\x4f\x04\xbc\xc7\x5c\x49\x3a\x25\x23\x2f\x4d\xc5\xdc\x12\x5c\xd8\xb6\x21\x7f\x8b\x52\x29\x9c\x05\x46\xc7\x10\xbc\xe4\x34\xde\x32\x74\x6c\x77\xfd\xeb\xfc\x0c\x9c\x56\xc8\x83\xb8\x97\xa0\xd2\xfc\xf1\xa8\x72\xd4\x33\x45\xc2\xd8\xd0\x40\x5f\xee\xd1\xe7\xad\x69\x59\x7d\x2a\x19\xb5\x24\x24\x86\x0d\xcd\xdd\x70\xe0\xad\xa5\x7a\xa6\xce\xf1\x1d\x9d\x4e\x61\x67\x53\xb9\x1e\x0d\xff\x60\xdd\xb2\x93\x10\x5b\x52\xc1\x67\x26\x89\x51\xfc\x5c\xe2\x39\x95\x9a\xef\xe9\x95\x89\x8d\x6f\x16\xfd\xb0\xa9\x02\x88\x71\xc4\x5f\xf8\x21\x68\xe0\xc7\xc4\x4e\x6c\x7f\xa8\x60\xec\x7b\xd1\x3f\x28\xb8\x85\x5a\x5a\x81\x41\xb9\x5a\x0c\x07\x21\x98\xbb\x38\xe0\x00\x5f\x99\x00\x45\x5f\xa8\x8b\x50\xb1\x6c\x4b\xdb\x8e\xcd\xa8\xd6\x16\x05\x28\xc7\x63\x17\x3b\xd2\xb5\x36\x3e\xbd\xb7\x88\x53\x23\x18\xbc\x55\xd1\x7e\xc7\x1e\x37\xf7\x75\x2c\x48\x54\x72\xa0\xa6\x46\x47\xb3\x7a\xff\x86\x9b\xe4\x1d\x7a\x06\xcc\x3b\x7c\xa8\x85\x21\xe0\xdb\xa7\xb3\xf0\x5e\x20\x08\xd3\x02\x96\xe9\xc5\x9f\xd7\x2b\x1b\x69\xf0\x1c\x21\x1d\xaa\xee\x0d\x34\x82\x44\xbb\x54\xa4\xc8\x6d\xaa\x61\xa8\x3b\x45\xd4\x92\xad\x98\x89\xea\x9d\x91\x38\xd5\x3b\xfe\x72\x66\x3d\x9f\x86\xd2\xa2\x7c\x27\x62\xb2\x33\x3e\xaf\xb8\x6f\xa9\xc5\xee\x74\x4f\x89\x51\x4d\xc2\x62\x8a\x2c\x8c\x4d\xe4\x65\xb6\x99\x20\x88\x32\xf6\x16\xfe\x66\x53\x8c\x7f\xf0\x79\xf6\x43\x85\x53\x94\xe8\xf5\x7f\xb8\x2a\x5f\xb2\xf6\xc6\xae\xe4\x8b\xa4\xe4\x51\x15\x45\x93\x3f\x6c\xcf\x68\xdb\xd9\x01\x64\xdc\x16\x6d\x3b\x7a\x5a\xac\xfe\xa1\xb0\x3e\x7c\xe8\xa8\x08\x21\x48\xe3\xfe\x55\xf0\x4a\x30\x7b\xd0\x82\x02\xd5\x7c\xa2\xaa\x5f\xaf\x43\x05\x09\x95\x83\xba\x86\x75\xe2\x0d\xb1\xe7\xeb\xfd\xf9\xcc\x25\x9d\x49\x7a\x69\x85\x5d\x0c\x5e\x3e\x86\x20\xfe\xf6\x68\xdc\x3f\x55\x62\x98\xee\x85\x22\x81\x03\xcd\x81\xe6\x0b\xf1\xeb\xeb\xa9\xfd\x04\x0c\x70\x4b\x96\x59\x88\x1c\x17\x52\x71\xe6\x1c\x54\x84\x4f\xbc\x2e\x22\x31\x8b\xbd\x1b\x0a\x82\x08\xcb\x34\x3b\x65\xe1\xde\x70\x9c\x55\x66\xb0\x92\xdb\xb4\xe8\xd5\x4c\x0f\xa4\x6c\x22\xc0\xd9\xcb\xe8\x27\x3e\x2d\x19\x90\x40\x01\x00\x2b\xee\x4a\xe3\x79\xf9\x67\xbb\xae\xeb\x5d\x42\x0e\x63\xb2\x1a\xad\xee\x85\x1b\x5d\xd4\x0d\xc7\xa5\x1a\x3b\xde\xbe\x2a\x6f\x3f\xe0\xb3\x13\x94\x60\x1d\xea\x66\x7e\x0f\x11\xa9\x24\xaf\xeb\x0f\x4c\xcc\x88\x5f\x8b\xaa\xaa\x8f\xc5\x76\x79\x60\x4a\x3e\xb0\x3a\x78\x04\xee\x95\xaf\xa3\xc8\x22\xc0\x73\xd3\x4b\x19\x31\x13\x50\x85\x39\x3b\xe0\xaf\x3e\x44\xf3\x40\x94\x96\x11\x61\x75\x5c\x5b\xe9\xd8\x4f\xb0\x7d\xf4\xea\x05\x7d\xa1\xad\x97\x70\x08\x9b\xb5\xfd\x7e\x48\x52\xd8\x91\x69\x73\xd3\xca\x6d\x2b\x18\x84\xb7\x1a\x2c\x69\xe7\x5d\x2a\x45\x22\xce\xf1\xf0\xf5\x5a\xb6\x44\x0a\x99\x84\x08\x8b\x73\x28\xc6\x05\x86\xa5\x09\x76\xac\x84\x5b\x80\x5b\xf9\xda\x9a\x69\x00\x13\xfb\xcf\x09\x4e\xce\xf7\xb0\x48\x87\xd0\xac\x5c\xfb\x97\x1b\x52\xc4\x1b\xb8\x88\x07\x47\x1d\xe9\x91\x54\xfe\xc6\xb6\x86\xdb\x45\x5a\x4f\xe6\x23\xce\x36\xc8\xa1\x82\xc5\x1d" },
  Kem { seed: b"\xba\xce\x95\xfd\x7f\xda\x07\x8a\xd3\xbc\xb5\xbe\x02\x9b\x5e\x84\x98\xca\x4f\x7b\x6b\x0e\x27\xb0\xc4\x4d\x46\x22\xe6\x35\x69\x2b\xf0\xba\x11\x2f\x39\x69\xc3\x38\x34\x2d\x1b\x50\x61\xab\xc8\x55\xb4\xed\xb6\x57\x81\xac\x7f\x52\x4b\x80\x6b\x42\x47\x62\x97\x6f", ek: b"\x38\x1b\x5b\x6f\xe9\xa4\xa9\x5b\x59\xbd\x19\x19\xae\x91\x5c\xaf\x97\x3d\x15\xc0\x60\xcb\x49\x7c\xdf\x01\xa2\x04\x59\x78\x99\xec\xb2\xfb\xb8\x99\xc6\x0a\xc1\xa2\xf9\x11\x3f\x4a\x95\xb7\x62\x2f\x7f\xc3\xcc\xe5\x1c\x7d\x44\xb0\x9d\x30\x64\x70\x5a\x18\x9b\xe5\x77\x6f\x1b\xa1\xc4\x3b\x50\x07\xcc\x9a\x56\x2a\xe6\x95\x7e\x4c\x07\xc5\x73\x6b\x92\x92\x45\x72\x33\x34\xbf\xf2\x2b\x71\xd0\x44\xb6\xd6\x38\x4b\x31\xaa\xfa\x68\x93\x95\x32\x54\x4d\x41\x56\xc6\x17\x57\x41\x17\xa7\x17\x47\xcf\xe7\xb0\xae\x91\x8c\x36\x25\xd0\xb3\xe1\xe4\xc1\x82\x90\xaa\x9c\xd8\x2d\xa6\xe2\xb8\x62\xcc\x43\x62\x70\x91\xc1\x97\xa0\xc2\x91\x28\xdb\xe5\x86\xf5\x89\xc5\x11\x81\xb7\xe5\x72\xbc\x80\x46\x31\xd1\xc5\x22\x78\x12\x19\xe2\x76\x6f\x93\x8c\x1b\x04\xaa\x73\xc6\xe9\x27\x30\xd6\x1d\xa4\x14\x46\x07\x43\x0f\x19\x25\x44\x49\x18\x39\x56\x3a\x45\x22\xa0\x97\x46\x53\xb1\xd0\x3b\x81\x4d\x12\x31\xfa\x13\xb6\x34\x18\x2e\x34\xf3\xcc\xf8\xdc\x32\x24\x47\xb6\x30\x05\x9e\x95\x09\x76\x7a\x75\x6a\x14\xa2\x60\xce\xbc\x25\x2d\xc4\x7b\x8b\x27\xa7\xcd\x6b\x5e\x9a\xf0\x5f\xef\x7c\xb0\x6f\x56\xa7\x7f\x18\x5c\x11\x6c\x2d\x3a\xb2\x3d\x28\x08\xb7\x19\xfa\x0b\x7e\x15\xab\xa9\x28\x43\xc4\x86\x98\x52\xf7\x9a\x0f\xc8\x28\x8a\xda\x04\x00\x4b\x9c\x5e\x04\xbb\x46\x92\xa5\xe5\x09\x5a\x6b\xdb\x43\x59\x09\x0b\x32\x7a\x4e\x58\xc1\x39\x99\xb1\x47\x0f\xe9\xa5\x3a\xa8\xba\xf2\x3b\x2b\x0a\xd9\xba\xed\xa7\xcf\x8d\x87\x70\x83\x28\x5c\x67\xb1\x9e\x22\xf3\xad\xa9\x88\xac\xd3\x53\x2f\x92\x15\x77\xb7\x2c\xcc\x87\x3a\x47\x7f\xca\x24\xe5\xa7\x48\x7d\xd2\x6a\xc2\x73\x5a\x0e\x75\x6f\x6f\x98\x92\x55\xc5\x10\x22\x99\x7b\x9c\x3c\x6a\x2d\xd0\x65\x4f\x36\xc9\x5f\x60\x98\xbb\x71\x35\x45\x02\xc6\x37\xb5\x41\x05\x66\x3d\xc4\xa3\x6e\xf5\x6c\x39\xe8\xd6\x99\x95\x7a\xaf\x46\x43\x54\x88\xaa\x1b\x12\x31\x44\x02\x85\x99\xed\x3b\x95\xcb\xc1\xcd\x92\x77\x1c\x91\x49\xb2\xb3\x67\x68\xd1\x90\x66\xe7\xba\x27\xa0\xbc\xc2\xdb\xea\xac\x96\x20\x37\x02\x55\xc0\x74\x22\x2a\xef\x69\x73\x00\x24\x28\x84\x71\x54\xa4\xdb\x4f\x04\x0c\xca\x0c\xf5\x07\x15\x72\x72\xc5\x08\x5c\x10\x23\x11\x44\x5c\x2b\xb5\xd4\x00\xda\x90\x0f\x35\x92\xa7\xd8\x3a\x7c\x3b\xc3\x58\x98\x70\x6e\xcd\xc1\x14\xe5\xc6\x81\xeb\x6b\x0c\x4a\xf3\x09\x40\x5c\x17\xbb\x22\x66\x92\x95\xaa\x9c\x84\x9b\x4e\x97\xcd\x30\x53\x9a\x6a\xc4\x8f\x76\x4b\xa2\x8c\x67\x31\x7d\x47\x37\x4c\x7c\x60\x48\x98\x8f\xb7\xc8\x31\x98\xe5\x21\xc4\x9b\x82\x2c\x71\x53\xa1\x49\xa5\xb4\x37\x75\x8f\x80\x97\x15\x6c\xbd\xaf\x21\x5a\xea\xcc\x6b\xcb\x04\x6f\xc4\x07\x89\xea\x52\x01\x62\xa5\xbe\xab\xa1\x32\x32\x89\x00\x6d\x46\x3c\x90\xb6\x7b\x39\xe6\x62\xd3\x3b\x11\x62\xfa\x49\xcf\x1c\x4d\x3e\xf6\xcc\x01\xb7\x81\x3b\x23\x51\x7d\xc0\x59\x14\xd7\x56\x3a\x68\x2e\x1c\x26\x5d\xc1\x83\xbd\xf8\xb9\x11\x62\x45\x24\x5b\xa6\x2c\x12\x6a\x41\x9a\xf4\x82\xfa\xeb\x80\x2f\x88\xb3\x3f\x78\xb4\x1f\x22\xc1\xac\xc5\xa2\x31\x03\x88\x71\xe8\xab\x5d\xc9\xc8\x9e\x83\x91\x34\x6c\x91\x63\x2a\xa7\x92\x26\xa9\x9c\x36\x98\x0b\x13\x65\x4d\x20\x2b\xd7\xaa\x6c\x57\x9c\x28\x7c\xda\x0b\x11\xeb\x5c\xb8\xcc\x4f\xc4\xcc\xa6\xb6\xc0\x90\x16\xd0\x82\x18\x3c\x32\x7b\xa2\x25\x35\xc2\x73\xcc\xda\x1e\x32\xa6\xbd\x0d\x79\x1e\x91\x21\x1f\x69\x9c\x2e\x74\xb5\x98\x6d\xc5\xa9\xcc\xb3\x61\x77\x00\x64\x67\x83\x4d\xe7\x7b\x31\x6f\xa0\x91\xc3\x61\x77\x6a\x6c\xa8\x48\x06\x9c\x41\xb1\x2d\xc3\x3c\x5a\xd4\x0a\x72\x51\x50\x87\x04\x4c\x40\xd0\x45\xc5\xec\x4c\xbe\x4a\x07\x7f\xd2\x3a\x12\xea\x1b\x75\xc7\xeb\x5e\xe0\x84\x2a\x42\x41\x57\xe8\xf5\x0c\x8d\x42\x11\x04\xc6\x1d\x31\x24\x57\x73\xbb\x23\x98\x7c\xa7\x85\xb4\x80\xc8\xe0\xa6\x6b\x52\x2c\xab\x43\x67\x97\x93\x6b\xd1\x6a\x4a\x20\xa7\x6d\x24\x08\x21\x75\x0a\x26\x6c\xc4\x61\x2f\xa7\x7f\xf8\x94\x10\x4d\x2b\x49\x5a\xea\x19\x5a\xe3\x54\xdc\xfc\x75\x9f\xb7\x95\xa7\xaa\x78\x00\x4c\x39\x31\x4c\x8c\x68\x76\x8c\xa6\x59\x3b\x51\x21\x20\xf6\x98\x94\x6f\xfc\x94\x60\xa0\x97\x42\x5c\xca\x8e\x75\x1f\xa2\x15\x18\x1a\x55\x35\x2c\xa9\x6b\xf5\x70\xb1\xd7\xc4\x89\x1d\x72\x2f\xec\x7a\x87\x11\xa0\x79\x6e\x36\xc6\x2c\xba\x78\xf3\xc2\xc9\xa0\x93\x2d\x49\x4a\x3b\x20\xa1\x89\x7e\x9b\x4d\x3d\xaa\xa5\x8a\x2a\x99\xd7\x41\x66\x9a\xaa\x3c\x87\x8a\x7f\x88\x42\x8c\xab\xc7\xa1\xee\x93\xcd\x79\x09\x70\x3b\xf8\x9a\x39\xc5\xc9\xa6\x7c\x17\xc1\x6b\x86\x52\x7b\x28\xb7\x88\x9e\xb3\x16\x46\xac\x72\xac\xd9\x97\x8b\xc0\x35\x68\x85\x36\x2d\xd9\xf5\x6b\xf6\x21\x80\x3f\x3a\x4b\xb2\x86\x20\x40\xb3\x6c\x2b\x17\x91\xf5\x09\x5b\x14\xc6\x58\x67\x64\x45\x76\x1b\x33\xc5\x19\x5f\x45\x92\x07\x28\xb8\x9c\xac\xc2\x2d\xab\x4a\x4b\x00\xe3\xcd\xf9\x07\x2d\x97\xc3\x55\xa5\x83\x8e\x65\x49\xb4\x50\xb7\xcc\x08\x65\x1f\xa1\x52\xa5\xb6\xd4\x9f\xb2\x03\x13\xf1\x09\xc4\xfa\xf7\x3c\xac\xe4\x62\x64\xe5\x98\x08\xab\xcf\x2e\x13\x04\xa0\xf1\x64\xbd\x23\x7a\xae\x05\x8b\xfa\x8b\xcc\xf8\x88\xb5\x3e\xb2\x5e\xb2\x33\x89\x6a\xfe\xa4\x85\xc7\x36\x0d\x4b\xee\xf2\x9c\x7b\x72\xae\x09\x60\xb3\xfa\x73\x62\xee\x20\x67\xbe\xca\xf9", dk: b"\x99\x62\x77\xf6\x89\x2b\xc8\xe5\xa7\xfc\x28\x80\x84\x83\x75\xcd\x42\xb4\x89\x2c\x5b\xd1\x39\x0c\x62\x30\x7e\xce\x70\x43\xf6\xb5\xca\xcd\x59\x09\x34\xb7\xa4\xb4\xb4\x93\x91\x79\x02\x0f\xf4\x81\x61\xe2\x94\x21\x55\x4d\xb9\x3c\x33\x95\xe3\xa8\x72\x67\x3f\x34\xe5\x87\x6e\xda\xa7\x54\xd0\x10\x5f\xf9\xc9\x53\x46\xaf\x0c\x1b\x55\x81\x65\x59\x65\xc9\xbf\x44\xdb\x19\xba\xfa\x83\xae\x13\x08\xd7\xf2\x3e\x70\x01\x3d\xa0\x63\x7a\x37\x0b\x69\xed\x89\x96\xe3\x91\x92\x52\xf9\xac\x5e\x6c\xa7\x89\x3a\xa1\x01\xf6\x2d\xb9\xd7\xa0\x3d\xeb\x96\x99\xd9\x9d\x4d\x59\x77\x05\x9c\x49\xf5\x87\x0a\xcf\x55\x72\xf4\x48\x36\x81\x15\xc7\x68\x87\x69\x27\x95\x20\xd5\xc5\xb8\xb1\xfb\x79\xbc\x0c\x54\x19\x3c\x3a\x4f\x11\xcb\x2c\x81\x47\x5b\x5a\x45\x18\x03\x86\x83\x81\x91\xf2\xfa\x20\x74\x08\x5f\xe2\x0b\x19\x19\x00\xbf\x44\x51\x20\xfa\x6c\x4d\x0e\xa8\x77\x25\xb8\x0a\x15\xf5\x05\x23\x9a\xac\xae\xd4\x24\xc6\x22\xad\xa1\xc3\x6b\x1c\xb5\x30\x95\x84\x62\xc0\x1a\x33\xb2\x05\xb6\x47\x49\xbb\xe1\x57\xa7\x99\xf0\x42\x0f\xe3\xa4\x98\x82\x40\xfe\x87\x62\xe9\x76\x6f\xe3\x83\x0f\xa3\x71\x80\xd1\x40\xa0\xab\x53\xa0\xe3\xd5\xa7\x09\x62\xa0\x19\xe0\x57\xd7\x77\xaf\x8f\xa3\x38\x84\x11\x18\xe6\x47\x6d\xeb\x42\x88\xa9\x84\x90\x76\x24\x0e\x54\x51\x58\xcc\xa4\x13\x4a\x90\xbc\x91\x73\xb2\x21\x3a\x64\x67\xcb\x00\xe9\x30\x40\x2b\xec\x78\xcd\xa0\xc9\xcb\xd6\x64\xe3\x59\x6e\xb0\x2c\x12\x5a\xe8\x60\x7f\x00\xca\x8b\x3a\x04\xd5\x4a\x40\xd6\xcb\x36\x72\x93\x85\xdc\xd3\x11\x25\x5a\xb0\xee\x63\x85\x42\x79\x6f\x6c\x65\x79\xc5\x68\x66\xdf\xc9\x30\x2b\x51\x44\x19\xe2\x97\x67\xc8\x56\x7f\xac\x19\x4b\xd2\x40\xa7\x1b\x2c\x41\xb0\x24\xf5\xa4\xaf\x3a\x67\x49\x62\xc0\x54\x21\x75\x70\x8e\x29\x3d\x1c\x15\x1d\xac\x43\x74\x78\x06\x7e\x2d\xbb\xa5\xee\xe7\x7b\xec\x76\xcd\x32\x0c\xcd\x8a\xa8\x22\xd5\x28\x40\x7a\x9b\xcb\xe8\x0c\x3f\xea\x17\x40\xa9\x2b\xb8\xa4\x25\xb2\x8c\x97\xad\x80\xab\x86\xfd\x8b\x92\xc0\xba\x6f\xd4\x3a\xc6\x5a\x68\xc9\x99\xc3\xba\x81\x93\x75\x8e\x79\x54\x49\x19\x26\x20\x32\x4a\x38\xc5\x52\x94\xe4\x4a\x22\x7a\xc9\x40\xf5\x2c\x46\xcb\x1e\xf4\x38\x0a\xde\xc3\x02\x09\x3b\x91\xcd\xb1\x61\x67\x88\xa7\xf0\x73\x5d\x45\x98\x48\x2a\xa1\xa9\x6a\x49\x27\xd6\xdb\xc6\xcc\x82\xac\xc3\x14\xaa\x3f\x79\x11\xde\x39\x0c\x42\x84\x43\xcd\xc0\x8d\xdd\xa9\x81\xdf\xc6\xc2\x89\x2c\x7f\x33\x2a\xaa\x87\x8c\x75\xb2\xd9\xae\x68\xd1\xbe\xb6\x89\x37\xed\x4a\x2e\xd3\xca\x9a\xfc\x18\x7d\xa3\xb2\xc0\xd4\xd1\x55\x6e\xc2\x0a\xdd\x43\x43\x87\xd0\xcc\xc7\xd0\x6e\xfb\x51\xa6\x26\x81\x4b\x03\xe8\x55\x10\xa5\xbc\xaa\x0c\x7a\x0a\x96\x2c\xb4\xf7\x61\x2c\xf5\x5a\x10\xe5\x4a\x92\xc9\x1c\x3f\x91\xab\xdf\x4b\x46\x1c\xb6\x48\xd2\x03\xcc\xb5\x2b\x37\xe8\x18\x8b\x54\xac\x90\xc4\x77\x04\xfd\xe0\x35\x50\x5b\x1d\x84\xb8\x59\x0e\xab\x4d\x2c\x75\x42\xfd\x79\x36\x1f\x9c\x76\x48\x26\x5a\x41\xd4\x4d\x23\x3a\x3b\x60\xb7\xa2\x32\x78\xa8\x40\xfc\xc3\x62\xbc\x70\x5d\x9b\x75\x49\x20\x1c\x45\xf7\x08\xfb\x69\x27\xf8\x27\x37\xcc\xd5\x17\xdd\xb9\x85\x5b\xb2\xb6\x08\xd7\xb4\xdc\x9b\x53\x3d\x70\x84\xb7\x84\x01\x3a\x12\x08\x19\x1b\xcc\x14\x31\x84\x9e\x78\xa1\xc5\xf5\x65\xca\xa7\x4f\x1b\x9b\x39\x16\x9a\x54\x07\x5a\x70\xff\xc0\x88\xa6\x94\x1d\x87\x78\xa2\x96\xc8\xc0\x7b\x93\x33\x8d\xd1\xcf\x8f\x47\x0f\xcf\xf8\xbc\xb9\x34\x5a\xd1\x5b\x1e\x21\xb3\x52\x92\x72\x56\xe1\x1b\x6e\xfa\x97\x25\xb4\x03\x3e\x27\xb7\xbf\x6d\xab\x5a\xb3\xb3\x3c\x77\x31\x3f\x72\x96\x0d\xc2\xaa\x95\xee\x97\x49\x45\xf6\xaf\x96\xa8\x4f\x91\xa6\xc3\x31\x57\x25\x32\x6c\x65\xa1\x08\x04\x94\xc3\x1f\x8d\x1c\x13\x75\xa3\x6e\xb4\x07\x74\xc3\x61\xa1\xdf\xd3\x6d\x96\x08\x08\x2f\x30\x40\x31\x99\x41\x41\xdc\x5d\xdf\x51\x41\x9e\xbc\x34\xfc\x99\x66\x7a\xd3\x9f\x75\xb3\x90\x37\x49\x12\x37\xb7\x70\xfc\xf1\x60\x0c\x86\x4b\x6f\x60\x33\xd0\x20\x41\xe1\xd5\xa3\x62\x9b\xa5\x09\xe8\x36\x68\x97\x66\x35\x96\x07\xcd\xc0\x5d\x1f\x62\x04\x0f\x27\xb3\x7e\x33\x81\xde\xc5\xc9\x78\x44\xc2\xc1\xfc\xbe\x6a\x96\xc3\xc4\x0a\xa4\x33\x10\x4d\x05\xab\x1b\xe5\x7c\xc9\xe5\x11\x85\xa2\xc6\x75\x69\x16\x2f\x9b\x73\x98\x78\x71\x06\x20\x18\xbf\x29\x66\x9a\x41\xb7\x11\x82\x5b\x03\xeb\x59\x8b\x69\x02\x4d\xff\xfa\x5d\x0a\xf5\xb9\xf3\x16\x83\x81\xc7\x3a\xc5\x68\xb6\x2e\xac\xce\x56\x46\x01\xee\xa1\x4c\xfb\x62\x39\x24\xb9\x28\x13\x84\x2c\xd9\xdc\x7b\x2a\x74\xa9\x07\x0a\x69\xf6\xb6\x3e\xb7\x12\x7b\xe5\x83\x45\x48\x97\x37\xfd\x42\x6e\xb7\x97\x5b\x33\xda\x4c\xf1\x2c\x40\x68\x45\x71\x41\x96\x19\xad\xdc\x12\xc2\xec\xbf\x14\x99\x21\x2a\x20\x48\xab\x6b\x6d\x96\x9a\x32\xc4\x7c\x31\x78\x5c\x6a\xa4\x66\x7f\x7e\xf3\x34\x58\x4a\x04\xa7\x29\xa6\xd1\x1b\x4d\x21\x95\x6c\xa5\x38\x26\x50\xcb\x37\x28\x55\xad\x5f\x02\x15\x69\xc4\x5a\xa6\x50\x3f\x9f\xc9\x99\xb6\x59\x71\x5c\xcb\x5c\xcf\xea\x01\xa5\x09\x11\x3d\x12\x96\x6a\x09\x8e\x62\xc2\x49\xfd\x5b\x54\x88\xfc\x37\x38\x1b\x5b\x6f\xe9\xa4\xa9\x5b\x59\xbd\x19\x19\xae\x91\x5c\xaf\x97\x3d\x15\xc0\x60\xcb\x49\x7c\xdf\x01\xa2\x04\x59\x78\x99\xec\xb2\xfb\xb8\x99\xc6\x0a\xc1\xa2\xf9\x11\x3f\x4a\x95\xb7\x62\x2f\x7f\xc3\xcc\xe5\x1c\x7d\x44\xb0\x9d\x30\x64\x70\x5a\x18\x9b\xe5\x77\x6f\x1b\xa1\xc4\x3b\x50\x07\xcc\x9a\x56\x2a\xe6\x95\x7e\x4c\x07\xc5\x73\x6b\x92\x92\x45\x72\x33\x34\xbf\xf2\x2b\x71\xd0\x44\xb6\xd6\x38\x4b\x31\xaa\xfa\x68\x93\x95\x32\x54\x4d\x41\x56\xc6\x17\x57\x41\x17\xa7\x17\x47\xcf\xe7\xb0\xae\x91\x8c\x36\x25\xd0\xb3\xe1\xe4\xc1\x82\x90\xaa\x9c\xd8\x2d\xa6\xe2\xb8\x62\xcc\x43\x62\x70\x91\xc1\x97\xa0\xc2\x91\x28\xdb\xe5\x86\xf5\x89\xc5\x11\x81\xb7\xe5\x72\xbc\x80\x46\x31\xd1\xc5\x22\x78\x12\x19\xe2\x76\x6f\x93\x8c\x1b\x04\xaa\x73\xc6\xe9\x27\x30\xd6\x1d\xa4\x14\x46\x07\x43\x0f\x19\x25\x44\x49\x18\x39\x56\x3a\x45\x22\xa0\x97\x46\x53\xb1\xd0\x3b\x81\x4d\x12\x31\xfa\x13\xb6\x34\x18\x2e\x34\xf3\xcc\xf8\xdc\x32\x24\x47\xb6\x30\x05\x9e\x95\x09\x76\x7a\x75\x6a\x14\xa2\x60\xce\xbc\x25\x2d\xc4\x7b\x8b\x27\xa7\xcd\x6b\x5e\x9a\xf0\x5f\xef\x7c\xb0\x6f\x56\xa7\x7f\x18\x5c\x11\x6c\x2d\x3a\xb2\x3d\x28\x08\xb7\x19\xfa\x0b\x7e\x15\xab\xa9\x28\x43\xc4\x86\x98\x52\xf7\x9a\x0f\xc8\x28\x8a\xda\x04\x00\x4b\x9c\x5e\x04\xbb\x46\x92\xa5\xe5\x09\x5a\x6b\xdb\x43\x59\x09\x0b\x32\x7a\x4e\x58\xc1\x39\x99\xb1\x47\x0f\xe9\xa5\x3a\xa8\xba\xf2\x3b\x2b\x0a\xd9\xba\xed\xa7\xcf\x8d\x87\x70\x83\x28\x5c\x67\xb1\x9e\x22\xf3\xad\xa9\x88\xac\xd3\x53\x2f\x92\x15\x77\xb7\x2c\xcc\x87\x3a\x47\x7f\xca\x24\xe5\xa7\x48\x7d\xd2\x6a\xc2\x73\x5a\x0e\x75\x6f\x6f\x98\x92\x55\xc5\x10\x22\x99\x7b\x9c\x3c\x6a\x2d\xd0\x65\x4f\x36\xc9\x5f\x60\x98\xbb\x71\x35\x45\x02\xc6\x37\xb5\x41\x05\x66\x3d\xc4\xa3\x6e\xf5\x6c\x39\xe8\xd6\x99\x95\x7a\xaf\x46\x43\x54\x88\xaa\x1b\x12\x31\x44\x02\x85\x99\xed\x3b\x95\xcb\xc1\xcd\x92\x77\x1c\x91\x49\xb2\xb3\x67\x68\xd1\x90\x66\xe7\xba\x27\xa0\xbc\xc2\xdb\xea\xac\x96\x20\x37\x02\x55\xc0\x74\x22\x2a\xef\x69\x73\x00\x24\x28\x84\x71\x54\xa4\xdb\x4f\x04\x0c\xca\x0c\xf5\x07\x15\x72\x72\xc5\x08\x5c\x10\x23\x11\x44\x5c\x2b\xb5\xd4\x00\xda\x90\x0f\x35\x92\xa7\xd8\x3a\x7c\x3b\xc3\x58\x98\x70\x6e\xcd\xc1\x14\xe5\xc6\x81\xeb\x6b\x0c\x4a\xf3\x09\x40\x5c\x17\xbb\x22\x66\x92\x95\xaa\x9c\x84\x9b\x4e\x97\xcd\x30\x53\x9a\x6a\xc4\x8f\x76\x4b\xa2\x8c\x67\x31\x7d\x47\x37\x4c\x7c\x60\x48\x98\x8f\xb7\xc8\x31\x98\xe5\x21\xc4\x9b\x82\x2c\x71\x53\xa1\x49\xa5\xb4\x37\x75\x8f\x80\x97\x15\x6c\xbd\xaf\x21\x5a\xea\xcc\x6b\xcb\x04\x6f\xc4\x07\x89\xea\x52\x01\x62\xa5\xbe\xab\xa1\x32\x32\x89\x00\x6d\x46\x3c\x90\xb6\x7b\x39\xe6\x62\xd3\x3b\x11\x62\xfa\x49\xcf\x1c\x4d\x3e\xf6\xcc\x01\xb7\x81\x3b\x23\x51\x7d\xc0\x59\x14\xd7\x56\x3a\x68\x2e\x1c\x26\x5d\xc1\x83\xbd\xf8\xb9\x11\x62\x45\x24\x5b\xa6\x2c\x12\x6a\x41\x9a\xf4\x82\xfa\xeb\x80\x2f\x88\xb3\x3f\x78\xb4\x1f\x22\xc1\xac\xc5\xa2\x31\x03\x88\x71\xe8\xab\x5d\xc9\xc8\x9e\x83\x91\x34\x6c\x91\x63\x2a\xa7\x92\x26\xa9\x9c\x36\x98\x0b\x13\x65\x4d\x20\x2b\xd7\xaa\x6c\x57\x9c\x28\x7c\xda\x0b\x11\xeb\x5c\xb8\xcc\x4f\xc4\xcc\xa6\xb6\xc0\x90\x16\xd0\x82\x18\x3c\x32\x7b\xa2\x25\x35\xc2\x73\xcc\xda\x1e\x32\xa6\xbd\x0d\x79\x1e\x91\x21\x1f\x69\x9c\x2e\x74\xb5\x98\x6d\xc5\xa9\xcc\xb3\x61\x77\x00\x64\x67\x83\x4d\xe7\x7b\x31\x6f\xa0\x91\xc3\x61\x77\x6a\x6c\xa8\x48\x06\x9c\x41\xb1\x2d\xc3\x3c\x5a\xd4\x0a\x72\x51\x50\x87\x04\x4c\x40\xd0\x45\xc5\xec\x4c\xbe\x4a\x07\x7f\xd2\x3a\x12\xea\x1b\x75\xc7\xeb\x5e\xe0\x84\x2a\x42\x41\x57\xe8\xf5\x0c\x8d\x42\x11\x04\xc6\x1d\x31\x24\x57\x73\xbb\x23\x98\x7c\xa7\x85\xb4\x80\xc8\xe0\xa6\x6b\x52\x2c\xab\x43\x67\x97\x93\x6b\xd1\x6a\x4a\x20\xa7\x6d\x24\x08\x21\x75\x0a\x26\x6c\xc4\x61\x2f\xa7\x7f\xf8\x94\x10\x4d\x2b\x49\x5a\xea\x19\x5a\xe3\x54\xdc\xfc\x75\x9f\xb7\x95\xa7\xaa\x78\x00\x4c\x39\x31\x4c\x8c\x68\x76\x8c\xa6\x59\x3b\x51\x21\x20\xf6\x98\x94\x6f\xfc\x94\x60\xa0\x97\x42\x5c\xca\x8e\x75\x1f\xa2\x15\x18\x1a\x55\x35\x2c\xa9\x6b\xf5\x70\xb1\xd7\xc4\x89\x1d\x72\x2f\xec\x7a\x87\x11\xa0\x79\x6e\x36\xc6\x2c\xba\x78\xf3\xc2\xc9\xa0\x93\x2d\x49\x4a\x3b\x20\xa1\x89\x7e\x9b\x4d\x3d\xaa\xa5\x8a\x2a\x99\xd7\x41\x66\x9a\xaa\x3c\x87\x8a\x7f\x88\x42\x8c\xab\xc7\xa1\xee\x93\xcd\x79\x09\x70\x3b\xf8\x9a\x39\xc5\xc9\xa6\x7c\x17\xc1\x6b\x86\x52\x7b\x28\xb7\x88\x9e\xb3\x16\x46\xac\x72\xac\xd9\x97\x8b\xc0\x35\x68\x85\x36\x2d\xd9\xf5\x6b\xf6\x21\x80\x3f\x3a\x4b\xb2\x86\x20\x40\xb3\x6c\x2b\x17\x91\xf5\x09\x5b\x14\xc6\x58\x67\x64\x45\x76\x1b\x33\xc5\x19\x5f\x45\x92\x07\x28\xb8\x9c\xac\xc2\x2d\xab\x4a\x4b\x00\xe3\xcd\xf9\x07\x2d\x97\xc3\x55\xa5\x83\x8e\x65\x49\xb4\x50\xb7\xcc\x08\x65\x1f\xa1\x52\xa5\xb6\xd4\x9f\xb2\x03\x13\xf1\x09\xc4\xfa\xf7\x3c\xac\xe4\x62\x64\xe5\x98\x08\xab\xcf\x2e\x13\x04\xa0\xf1\x64\xbd\x23\x7a\xae\x05\x8b\xfa\x8b\xcc\xf8\x88\xb5\x3e\xb2\x5e\xb2\x33\x89\x6a\xfe\xa4\x85\xc7\x36\x0d\x4b\xee\xf2\x9c\x7b\x72\xae\x09\x60\xb3\xfa\x73\x62\xee\x20\x67\xbe\xca\xf9\x01\x6e\xeb\x35\xb7\x14\xe7\x83\x62\x25\xbe\x7f\xbc\x8e\x9d\x28\x37\xc5\xd7\xf1\x50\x85\x40\xdf\x54\x6a\xfd\x82\x5b\xea\x2a\x68\xf0\xba\x11\x2f\x39\x69\xc3\x38\x34\x2d\x1b\x50\x61\xab\xc8\x55\xb4\xed\xb6\x57\x81\xac\x7f\x52\x4b\x80\x6b\x42\x47\x62\x97\x6f", m: b"\xeb\x33\xab\xfa\xe8\xaf\x3e\x8a\x86\x08\x5b\x4f\xe0\xf4\x42\xee\x83\x79\x28\x03\x01\x21\xe7\x24\x52\x7e\x47\x34\xe2\x07\x1b\x7c", k: b"\x3a\x83\x3c\x78\xef\x5e\xbe\x3f\x4c\xae\xa4\x81\x1d\x4f\xda\x9e\xe0\xcf\x5b\xa2\x5e\x79\xd1\x41\x68\xa1\x02\xba\xec\xe5\x6e\x4e", c: b"\xb1\x4a\x89\x3f\xf6\xeb\x88\x14\xa4\xe9\x51\xe1\xf5\x1a\x45\xa5\x9c\x54\x85\x8d\x86\x9d\xc7\x6c\x2e\xaa\x1c\x40\xe7\x26\xdf\x85\x9b\xcd\x09\xd2\x86\xe3\x02\x0c\xbc\xf6\xf8\xb3\x48\xb4\x48\x1e\xfd\xe7\x0a\x02\x2c\x78\xe4\x92\x32\xfd\x94\x22\x64\x0c\x47\x8d\x8a\x6e\x1c\x9b\x6f\x83\x8a\x51\xd7\xd5\x4c\x79\x19\xa4\x5b\x7e\x02\xa8\xfc\x0d\x1d\x95\xe0\x32\xfb\xdf\x5d\xf0\xe7\xc9\x7a\x2f\x1b\xaa\xc3\x8e\xd8\x2e\xf0\x81\x02\x3f\xc1\x4b\x63\x68\xbe\x96\xf5\x1d\xbf\x49\x48\xdb\xb5\x5b\x34\x9b\xb2\x66\xf6\x09\x87\xaf\x5a\xb5\x2a\x69\xda\x59\xf6\xa1\x8e\xd0\xa0\x28\xef\x14\x5f\x6f\xf5\x60\x6e\x60\xb2\xc2\x00\x6e\xa2\xc6\xf9\xbb\x0a\x78\x9f\xb9\x5f\x7a\xa5\x8f\xcd\x65\x99\x4d\x53\x93\x4c\xd1\xd0\x08\x0b\x17\xbd\x36\x01\xd3\xa6\x62\x89\x3d\x68\xcf\x32\x58\x38\xf3\x27\xf6\xfa\x40\xb6\x28\x2f\x10\xae\x5c\x44\x51\x27\xc5\x1e\xed\x7f\x5d\x6d\x63\x36\xbb\x46\x55\xf6\xd4\x55\xa6\x32\x6e\xa2\x18\x4b\x1e\x77\x85\xac\xfe\xce\xf5\x53\x22\x21\xb0\xf9\x1c\xbe\xfe\x88\x14\x44\x4e\x30\x03\x13\xfc\x3c\x4e\xb2\xeb\xb4\x61\xfd\x3a\x2b\xf6\x17\xc7\x8d\x59\xc8\xdd\xeb\xc4\x25\x10\xba\x34\xe1\xd2\xe0\x33\xd4\x44\x81\x91\x53\xd1\xfa\xd0\xf2\xb8\x6e\x22\x36\x7f\x05\x82\x89\xb7\xca\xfe\x03\xb2\xbd\x52\x27\xcd\x02\x17\xc2\x3a\xcf\x90\xfe\x2f\x37\x65\x8b\x09\xf1\xc0\x10\xb4\xe4\x5b\x79\x49\x13\x7f\xca\x5b\x70\xc1\xd3\x95\x95\x9a\x01\x64\xad\x3e\x23\x73\x35\xa8\xe9\x49\xcd\x3c\x94\xcd\xe1\x6a\x3b\x32\x70\x27\x08\x03\x0e\x06\x26\x0d\x27\xb8\x7c\xf7\x20\x1a\x04\x80\x07\x23\x7f\x5d\x9c\xd1\x03\x2a\xbe\x0b\xf0\xed\x20\xa8\xb0\x84\x3a\x84\xbb\x03\x9e\x60\xbb\x0c\x22\x3b\xeb\x9b\x38\x4b\x08\x31\xc9\x7c\xe9\x91\xa8\xe1\x69\xdd\xc0\x89\x60\x3d\xd3\x4c\x52\xa2\xc9\xbd\x17\x5e\xfd\x15\x19\x7c\x36\x6c\x4d\x26\x25\x4c\x9b\xd5\xcd\xe9\xbd\x79\x92\xac\xf1\x40\x15\x5f\x63\xd8\xa6\xb1\x76\x0d\x51\xc8\xb3\xb5\xa0\x2b\x22\x1e\x3e\x44\x23\x02\x27\x41\x7d\xc9\x7b\xab\x7a\x57\xbb\x16\xc2\xc0\xe3\x8d\xa5\x98\x92\x74\x69\x93\x10\x2d\x6b\x2e\x95\x17\x9f\x20\xa9\xa1\x75\xec\x0c\xc3\xb6\x06\xeb\x56\x99\xd9\x56\x72\x34\xd4\x9d\x11\x88\xe7\x6f\x4f\x20\x45\xdf\xbd\x28\xea\x8e\x54\xca\x0c\x9b\x42\xc5\xc8\x92\xc2\x7c\xe7\xfe\xe6\xd3\x76\x4e\x93\xfd\xd3\xdc\x3a\xa5\x2f\xd0\x33\x9e\x01\x72\x22\x82\x23\xec\x9c\x01\xb6\x2b\x2b\xc0\x22\xbf\x34\x8c\xcc\x1b\x3f\x48\x62\x36\xc5\x6d\x9d\x3a\x41\x53\xdb\x50\xb8\x66\xb4\x88\x6d\xb1\x92\x6e\x93\x49\xdf\x45\x62\xdd\xf0\x42\x93\xc5\x7e\x67\x12\x94\xf6\x2d\x51\x7e\x88\x22\xc0\xbd\x53\x24\x24\xad\x2c\xd4\x31\x62\x7f\xbb\xde\x31\x29\x6b\xaf\x47\x7f\x4e\x6a\x19\xc0\xaf\xe5\x47\x48\x10\xcd\xf9\xa3\x20\x1e\xa5\x3b\x25\xe1\x48\xee\x43\x1b\xf1\x68\x32\x22\xbc\x1d\xd3\x17\x74\x18\x71\x00\x2c\x9f\x4d\x9d\x71\x70\x33\xb4\x09\x23\xf6\xac\x85\x7a\x2f\x5b\xaa\x7f\x04\xb6\x70\x24\xa3\x8e\xae\x58\xdd\xc0\x59\xcd\x60\xef\xa5\x5b\x2e\xc6\xb9\x25\xad\xbc\xef\x9e\x45\xbd\x74\x03\x6b\x97\xb4\x51\x55\xac\xb5\x33\x6e\xd5\xae\x2d\x42\xf9\xfa\x2d\xc2\xad\xd8\x0b\x26\x11\xd5\xd3\x95\x40\x3c\xe0\xc5\x84\xaa\x22\x1b\x60\x30\x89\x7b\x36\x15\x1f\xb7\x8f\xc8\xed\xb2\xc7\xeb\x4d\xc3\xd2\x42\x9b\x8b\xf1\x69\x25\x1d\xb7\x05\xf4\xa6\x63\x25\xb3\xa5\x0e\x58\x28\x0a\x1c\xa1\xca\x66\x9c\xc4\x36\x37\x60\xa5\xfd\xec\x15\x87\x25\x61\x42\x45\xe2\x78\xbf\xfd\x34\xb1\x98\x18\xe6\xc4\xf2\x05\x1f\x88\x82\x11\x67\xf6\x12\x98\x06\xdd\x7b\x7d\x75\x10\xf4\x35\x4f\xa4\x6c\x52\x9c\xb1\xb4\x51\x63\xaf\x1a\xcf\x1d\xbc\xff\x56\x94\x8d\x3f\x6d\x4f\x34\x04\x24\xcd\xef\x5d\xc6\xfb\xb7\x3d\x68\x0d\x3f\x7f\x25\x53\xcf\x22\x36\x5f\x98\xb7\xc3\x49\x2d\x64\x62\xc6\xcf\xf7\x32\x19\xa8\x9c\xd6\xea\x14\xb8\x4e\x9e\x2f\x22\x6a\xff\xe7\xc1\x00\x77\x9d\x4c\xc1\x9b\xb2\x52\x42\x94\xf9\xca\x78\x40\x88\xff\x8d\xb9\xfd\xa7\x12\x94\xfa\x58\xe8\x7f\xd5\x7c\xfa\xf7\x5f\x05\xa4\xf8\x0a\x5a\xed\xa8\xa3\x81\x18\x5a\x1a\x86\x63\xcf\x11\xd7\x23\x6a\xe7\xd7\x6f\x2a\x79\xf5\x62\xd2\xa3\x96\xf0\xd0\xaa\xdb\x48\x14\x4a\xa1\xeb\x14\xa6\xc3\xe1\x43\x3d\x00\x41\xf4\x28\x69\xe4\x89\xd2\xe7\x31\x4e\x0e\xc5\xfe\x4a\x1d\x13\xab\x1d\x94\x98\x32\xc3\x68\x45\x37\x67\x15\x27\xe7\xf5\x1a\x01\x10\xcd\x54\x3a\x26\x5f\x30\x31\x71\xdb\x8f\x61\x2c\x19\x32\xf2\x57\x08\x15\xc8\xe8\x54\x43\x49\x28\xef\xba\x81\x7e\x51\xbe\x26\x67\x3d\x7e\xf7\x04\xf2\xcc\x21\x4a\x07\xd1\x5e\x13\xd8\xc8\xd3\x42\x84\x51\xad\x83\x45\x14\xee\xe0\xe3\x1e\x14\x98\x14\x7b\xab\xd3\x29\xda\x58\x40\xdb\x58\xf5\x03\x73\x62\x4d\xb3\xb2\x4c\xbf\xe9\x0a\x6f\x04\x94\x86\x75\x7a\xb1\xf1\x08\x99\xc6\xcf\x35\x66\xb5\x7e\x2a\x67\xf7\x66\x2b\x46" },
  Kem { seed: b"\x2e\x65\x0f\x6a\x9e\x60\x43\x8a\x31\xfc\xff\x00\xd2\xea\x70\x3d\xa4\xa4\x28\x15\xb3\x3b\xc0\xd4\x6b\xac\xad\xe2\x53\xea\x15\x84\x40\x96\x2d\x81\xa0\xd4\x59\x6a\xc2\x64\x90\x22\x96\xcf\x25\xd2\x8e\x1e\x63\xeb\x9b\x61\xf8\xbb\xb6\xfc\xd3\x5b\xa6\x14\x46\x6f", ek: b"\x2e\x1a\x6d\xfb\x8a\x9a\x06\x1c\xb9\x99\x46\x43\x29\x05\x7c\x08\x65\x88\xa9\x0b\x45\x7a\xd6\x86\x5d\xd3\x10\x5c\x83\x9c\x4d\x91\x20\xd3\xdb\x43\x65\x68\x3b\x55\x9a\xbb\x53\x49\x8c\xe9\xc0\x4f\x60\xe3\x5f\xf6\xa3\x71\x43\x83\xc5\x4f\x68\x98\xef\x43\xbe\x34\xc9\x35\x11\xf2\x4d\xbd\xc3\x72\x58\x70\xc2\x6e\x52\x9f\x35\x57\x94\xff\xb0\x49\x57\xd8\x8f\x20\x7c\x9d\xfa\xca\x1b\x2c\x99\x98\x4d\x3c\x24\x99\x1a\x12\x08\xc1\x53\x5c\xda\x86\x53\xc1\xa3\xcc\x43\x24\xd5\x36\x8c\x91\x03\x68\x60\x66\x86\xf5\xd0\x00\x74\x30\x50\xff\x80\x0d\x90\x32\x75\x0c\x8c\x7c\x15\xf3\x76\xd0\x10\x95\x98\x90\x97\xe8\x39\x98\xf5\xe7\x06\x2d\x22\x81\x79\xc7\x49\xc0\x37\x13\x3b\x2a\x42\xb6\xf0\x5e\x85\x15\x6b\xa3\x50\x8b\x14\xd9\x98\x8f\xdc\x0d\xc2\xe7\x8f\x00\x62\x35\x4c\x2b\x2a\x48\x77\xb2\xca\xe6\xb7\x4d\x12\x78\x70\xd0\x3a\x1e\x08\x1c\x72\xbc\xaf\x2e\xd3\x3c\xbb\x01\xbe\xe4\xd1\x71\xff\xc5\x8c\x84\xcb\x15\x15\xbb\x29\x31\xc6\x07\xaf\xa5\x24\x59\x81\x25\xa4\xf8\x61\x83\x99\xc4\xe3\xf0\x3c\xdb\xec\x4f\x4e\xb8\xbf\x15\x60\x82\x0d\x70\xbc\xd3\x8c\xb2\xbb\xc6\x71\xd0\x11\x3f\xd8\x0b\x21\x4c\xca\x6f\xb5\xc3\x48\x6c\x5b\x2c\xcb\x02\x7c\xf9\x97\x59\xab\x1c\x1a\xd0\x7b\x68\x32\x48\xc8\xb2\xfa\xbb\x4a\x21\x09\xc5\x8c\xba\x08\x6c\x5e\x4e\x0a\x4e\x80\xe5\xac\x07\xa5\xaa\x04\xc5\x82\xd3\x7c\x6b\x73\x23\x35\xf9\xc3\x50\xb1\x90\x76\x1b\xc9\x5a\x1a\x98\x94\x8f\x17\x3f\xd2\xb1\xac\xb9\xa6\x1a\x51\x2c\x7d\x77\x70\xb5\x11\x79\x1e\xff\x34\x3d\xfb\xa6\x5e\x86\xb7\x1d\xe8\xc3\x7f\x7d\xc6\x4d\xbf\xea\xb2\xdb\xd0\x5f\x1a\x21\x84\x18\xe4\x29\xdf\x55\xb3\x5b\xf5\x2e\x77\x40\x4a\x80\x5a\x0c\x07\x00\x8a\xb4\x5b\x4e\x80\xab\x66\xba\x41\x2d\xf3\xb1\x50\x43\x53\x16\xe0\x14\x54\x2e\xb6\xb3\x2b\x41\xaa\x6f\x91\x13\xed\x40\x21\x4e\x25\x8e\x1f\xba\x8f\x5f\x47\x91\xa2\xb7\x6f\x0f\xd4\x8a\xeb\x3b\x47\x44\xf7\x2b\xbd\xb3\x9f\x5d\x8c\x78\x1a\x98\x2f\x26\xb2\x0b\x0f\xa0\x64\x89\xba\x92\x06\x16\x75\x27\xa4\x21\x36\xf4\x60\x53\x82\x4a\xe2\x37\x2c\xc8\x7c\x49\x76\x85\x32\x1d\x91\x39\x3c\xc9\x17\xf2\xf2\x55\xbc\x33\xae\x3d\x64\x5e\xf2\x8c\x04\xe1\xec\x85\x35\xc4\x19\xb3\xf9\x1e\xa5\xda\x5e\xf6\x8a\x24\x70\x88\x5a\x2a\xe7\x83\x2d\x81\x87\x66\x61\x8e\xb1\x23\x80\x26\x68\x38\xd2\x22\x48\x6d\xd9\xa0\xb8\xd0\xa1\x2b\x92\x00\x6e\x23\x1e\xb8\xbb\xc6\xe8\xdc\x90\x50\x04\x3c\x45\xc4\x81\x7f\xf8\xa7\x59\xc5\x61\xf0\x68\xc5\xf0\xa1\x26\x5c\x01\x12\xbc\x45\x6a\xd8\xfa\x06\x2f\xea\x76\x5c\x02\x31\x6c\x58\x38\x4a\x84\x2c\x58\x64\x9a\xc4\xa1\xc0\x7d\xeb\x2c\x50\x45\x83\x9b\x03\x49\x9f\x46\x29\x95\xaa\xbe\x3f\xe3\x06\x78\xc0\xca\xe7\x93\xcd\xb1\xa3\x19\x71\x52\x8b\x1a\xab\x63\x71\x35\xaf\x6e\x81\x2c\xd0\xdb\x59\x77\xe4\x53\x2b\xd7\x58\x16\x55\x93\x64\x06\x67\x59\xf6\x1a\x9b\xeb\x15\xbf\x77\xb9\xbc\x4a\x51\x3f\x47\x72\xc0\x74\x69\xa6\x71\x40\x21\xa2\xb9\xe9\x92\xaf\xa0\xe1\x98\x32\xf6\x83\x94\x66\x05\xd8\x4b\x8f\xcc\x04\x2d\x88\x41\x08\x73\x05\x18\x39\xd9\x97\x93\x56\xad\x1f\xa3\x3e\x2c\xc2\xa1\x09\x46\x60\x01\xdc\x82\xc3\xcb\x60\x3e\xfa\x3c\xb1\xc7\x6f\xdf\x8b\x53\xd3\xa2\x7c\x0f\xb2\x7d\x05\x00\x1b\x37\xdc\x5e\xd3\xa0\x0f\x7b\x1a\x2f\x11\x15\x13\x11\x83\x5c\xd0\x6b\x5a\xa4\x23\x1f\x99\x12\xb1\xc8\xba\x6a\x94\xf4\x0b\x5f\x2a\x41\xd7\x28\x5e\x11\x11\x9c\x0c\xa5\x8d\x08\x1c\x50\xb7\x25\x81\x37\x6a\xbe\xee\xf2\x5e\xc0\xd4\x44\xfa\x29\x52\xdb\x0b\x6a\x0d\x09\xb9\x37\x04\x80\x5c\x3a\x63\x65\x32\x2e\x8f\x02\x25\x5b\x17\x29\x7e\x24\x7e\x8d\xc7\xba\xa9\x13\x34\x8b\x47\x79\xd6\x12\x86\x1e\xb5\x72\x3e\x94\xbe\x8d\xc8\x19\x0f\x74\x58\x3c\x58\x32\x88\x55\x0d\x86\x30\x15\xe4\xd6\x85\x6c\x5b\x17\x04\xc7\x72\x90\x24\x19\x66\x61\x60\xda\x12\xce\x83\x45\xbb\xeb\xd0\x2b\xdb\xb0\x6f\xc7\x1c\x8d\xf8\xe9\x45\xde\x94\x92\xf5\x84\x35\x14\x43\x3b\x8c\xb0\x5e\xa3\x0a\xab\x4f\x44\xc2\x7f\xc5\xc4\xcd\x84\xbf\x5e\x76\xc9\x2b\x08\x37\x61\x2b\xa7\x79\x25\x6b\xec\x35\x6b\x4a\x46\x64\x2e\x68\xb2\x6d\x3b\x00\xe2\x99\x6e\xe3\x62\x45\xbe\xe8\xac\xd2\x32\x99\x44\x3c\x61\x2f\xc8\xa1\xea\x66\x75\xf9\x77\xa4\xe3\x09\xc0\xda\x5a\xa6\xfb\x66\x3e\xeb\xa2\x02\x23\x0a\x2f\x6f\x5a\x97\xf6\x62\x8d\x80\x26\x06\x27\x63\x55\x44\x49\x0c\xe0\x12\x56\x01\x32\xc3\x80\xd7\xc8\xba\x60\x38\x52\x79\x49\x74\x47\x96\x19\x1a\x02\x70\x90\xa2\x55\x25\x39\xd1\x52\x45\xa7\xd9\x88\x38\x04\x01\x81\xcc\xa3\xf6\x67\x31\x8c\x82\x31\x07\x1a\x1f\x77\x63\x6a\x44\x3c\x86\xfd\x3a\x39\xeb\x57\x05\xf4\x04\xb5\x21\x0c\xc1\x8b\xec\x33\x93\xaa\x7d\x90\xb9\xaf\x06\x67\xc4\x83\x18\xba\xc9\x46\x1a\x15\x20\x37\x48\x77\x91\xe8\xc6\x83\xb7\x89\x2f\x8c\xc6\x96\x5d\x0a\x5b\xd2\x91\x04\xf4\x70\x7d\xd0\xd3\xaf\xdb\xc2\x2c\xb4\x1a\x2b\x1b\x4a\x7f\xcf\x3c\x08\x66\x81\x01\xdc\xc1\x12\xd8\x75\x92\x7a\xc6\x6e\xad\xfa\x52\xe8\xe4\xa9\x98\x40\xb1\xe0\xbb\x61\x3c\xcc\x8c\xc9\x01\xaf\x1e\x33\x4a\x17\xcb\xcd\xdd\xe3\xc3\xf5\xeb\x6b\x60\x3f\xec\x4e\xf6\xd0\xb4\x64\x8f\xeb\x1f\x34\x78\x6e\x28\x22\x6f\xb3\xf9\xba\x9b\x41\x3a\x80\x54\x0e", dk: b"\xdf\xf2\x6d\x24\x3a\xbc\xb5\x13\x16\xcc\x95\x89\x6d\x2c\x44\x30\x46\x71\xf5\x7a\x7f\x37\x5b\x86\xa0\x97\x66\xff\xb3\xce\xec\xe4\x7e\x0f\xd7\x63\x56\x09\x2b\xe5\x56\x32\xed\x86\xc8\xe1\xc9\x69\x53\x10\x93\x86\xa4\x09\x66\x16\xb0\xb6\x40\x1a\x62\xec\x66\xa8\xcb\x3d\x80\xb6\x3d\x68\x11\x59\xca\xc4\x2d\x84\x98\xb8\xb5\x80\x60\x82\x33\xc9\x2d\xe6\x30\x0f\x25\x9c\xa8\xca\x14\x39\xb4\x61\xeb\xe2\xb1\x39\x2c\x18\xa1\xe2\x7b\x8f\xb5\x92\x41\x2b\xb1\xe0\x2b\x9f\x47\x30\xbc\x5f\x42\x03\xf7\x30\xa7\x27\x9c\xca\x64\x26\xb6\x0a\xf4\xae\x16\xf5\x7d\x94\x4c\x02\x9e\x65\x41\xac\xd4\x7e\x1f\x00\x0a\x9f\x99\x43\x02\x81\x61\xdd\x33\xa6\x53\x0c\x99\xf7\xd3\xa7\xca\x10\x5d\x57\x5c\xc5\xf9\x9b\x6c\x9f\x04\x29\x1a\x89\x17\xb6\x96\x1c\xb2\xba\xb8\xc9\x42\x97\x49\x0a\xb1\x79\xb4\x69\x71\xbb\x02\x2f\x0a\x5f\xf6\xfb\x94\xcc\xf6\x82\x92\x2c\x0a\xef\x61\xa3\x04\xf5\xb9\x20\xbb\x9c\xb8\x47\xac\xc5\xe3\x01\xd0\x1c\x6c\x35\xa2\x79\x35\x79\xb8\x9a\x76\x5e\x49\x39\x68\x8d\xcb\x26\xfe\x93\x53\xd4\xa5\x14\x86\x94\xcc\x3c\xd0\x9b\x1e\xf5\x0a\xc8\x53\x56\x83\xbb\x32\xc1\xbb\x0b\x17\xb2\x3c\x12\xd6\x67\xad\x77\x03\x4f\xf2\xcc\x8b\x73\xad\x43\x1b\xa1\x24\x94\x56\x96\x75\xc1\xa3\xda\x86\x0d\xa1\xcd\x3a\xd5\xbc\xbe\xb1\x1b\xae\x54\x91\xc1\x7b\x22\x00\xd0\x63\x0c\xb4\x69\x65\x58\x55\x89\x0c\x26\x8a\xd8\x8c\x74\x28\xa5\xa4\x2a\x3f\x88\xf5\x43\x21\x33\x9c\xe0\x59\x86\x3f\xa8\x57\x41\x12\x36\xe0\xc4\x5c\x28\x57\x10\xd6\x03\xb8\x5d\xc5\xaf\x14\x50\x26\x4a\xf4\x4d\xc3\xf4\x41\x73\x77\x2b\xe0\x26\xa0\xee\xe4\x60\xb5\x77\x28\xb4\xd9\x51\xfe\x57\x76\xa6\x43\x5c\x56\xdc\x4d\xf2\x40\x35\x7c\xd2\x8b\x5e\x84\x54\xd7\xb3\xb7\xb5\x78\x28\x6d\x24\xa5\x48\xd6\xbc\x7a\x52\xcf\xc4\xfc\xa5\xcd\x30\xcc\xe9\x1a\x4b\xc2\x14\x78\x38\x48\x28\xa5\x38\x67\xc9\x75\x00\x28\x11\x14\xaa\xf2\x37\x1a\x6a\xb6\xb4\xb3\x11\x9e\x24\x98\xeb\x95\xad\xd3\x9b\x33\x4f\xc5\x7e\x37\xd6\x47\x27\x40\x09\x75\xb3\x76\xd6\xf6\x9a\x17\x2a\x54\x67\x23\x7d\xab\x26\x37\x14\x8c\xaf\x57\xe4\x5a\x44\x57\x81\xb0\xe2\xc9\x32\x44\x90\x87\xdc\x88\x19\x7b\xb8\x0f\x67\x3d\x7a\x9b\x32\xcb\x65\x01\x8c\xc5\x8c\x10\x20\xca\xe8\xeb\x38\xbe\xe7\xb7\x0b\x1b\x7f\x65\x30\xc8\xdb\x58\x77\xce\xcc\x2e\x39\x0a\x1f\x09\x58\xaf\x1f\x07\xc9\x77\x11\xa2\xa8\x64\xc9\x4a\x74\x3a\x56\xe2\x24\xa2\xd3\x98\x78\x7a\xb3\x0e\xa0\x9c\xab\x3a\x8f\x28\xe3\x44\x45\xc8\x86\xe9\x24\x2c\xdc\xe0\x8d\x05\x45\xc8\x92\x63\x1b\x51\xec\xc4\xee\xc7\x2f\x3a\xe9\x9f\x20\xb7\x50\x74\x69\x7a\xa8\xe2\xa6\x8d\xf6\x57\x25\x7a\xb0\x4c\x37\x2b\x10\x84\xac\x92\x00\xa9\xa3\x09\x7e\x00\x31\x30\xbc\xa8\x34\xac\x70\x36\x8c\x62\x9e\xca\xf1\x81\x75\xe0\x00\xa6\x55\x2a\x3f\x72\x85\x21\xb7\x16\xbe\xd0\x64\xe4\x15\x46\x68\xcb\x6f\xb4\x1c\x6d\x42\x24\xc2\x48\x09\xae\xcc\x04\xad\xeb\xdb\xb8\x67\x8b\x21\x28\x72\x44\xc7\xf5\xc9\x58\xe8\x04\x44\xc1\xcb\xcc\x75\x35\x78\xa4\x30\x78\x33\xb3\x76\x53\x25\x1e\x55\x39\xc0\x18\x59\xae\x30\x55\xae\xc4\x00\x26\x7b\xa1\xf9\xba\x37\xce\x99\x5c\x4d\xb4\xb8\x13\x64\x08\x92\x0a\x6a\xcd\x6a\xb3\x7e\x3b\x4e\x95\xcb\x2a\x0a\x24\x53\x9e\x8c\x1c\x20\x30\x62\xdc\xf7\x99\x8b\xea\xa9\x76\xa6\x54\x75\x41\x45\x48\xd0\x61\x3c\x32\x10\x9a\xa7\x28\x40\xe6\x05\xc6\x90\xc8\x00\xe2\x26\x2b\x94\x1e\xcd\x57\x19\x04\x59\x59\x2d\xa6\x5a\x0c\x88\xa2\xbc\x7c\xad\x0d\xa4\x6f\xae\x2a\x1a\x89\xf1\x07\x0a\x44\xac\x75\xd9\x08\x52\xe8\x76\xa2\x04\xc3\xd6\x52\x45\xb9\x53\x94\x52\xe1\x1b\xc6\xa5\x97\x80\x14\x97\xd2\xc2\x7e\x38\xd0\x9e\xeb\x08\xad\x80\x4b\xb0\x5d\x97\x78\xf4\x74\x3e\x19\x78\x63\x07\xe5\x15\x28\x58\x7c\xe5\xba\x0f\x19\xb8\x60\x5c\x37\x95\x8d\xc9\x61\xdb\x11\x20\x67\x65\x8c\x6a\x37\x29\x29\x97\x35\xd3\xc2\xca\xb4\x82\x4c\x4a\xf8\xcb\xe5\x04\xb7\x83\xa1\x2c\xa4\xfc\x69\x99\x14\x5a\x57\x27\x2d\x6c\xb5\x17\x23\xc1\x17\x88\x50\x4d\x9e\xb9\x8d\xe4\xf2\x84\xe1\xf0\x7d\x28\x10\x98\xc8\x71\x95\xb4\x88\x20\xc7\x94\x69\xb7\x48\x96\x94\x0a\xa5\x3f\x84\x82\x28\xc0\x6e\xf2\x50\x1e\xb4\x98\x72\xdf\xe5\x95\xec\xe5\x65\x28\x2c\x5a\xc0\x44\xc1\xb7\x76\xc5\xc2\xc8\x8b\x21\xb2\x22\xbd\x91\x40\xc6\x09\x5e\x6c\x01\x28\xad\x01\x3c\x30\x4b\x1b\x85\x0c\xa3\x73\x87\x80\xca\x47\x46\x5a\xc8\x5a\xa8\xc0\x1a\xb0\x6b\x30\x25\xf8\x76\x3e\x70\xbd\x56\x41\x60\x34\x2c\xc0\x49\xc3\xb8\x1d\x83\x78\x22\xf6\xc4\x0b\x5b\x3e\x3a\x83\xb2\xe2\x0b\x13\x69\xec\x5e\x99\x8a\x29\x03\xe9\x77\x5f\xd4\xc7\xa8\x27\x9a\x96\x94\xae\xf2\x07\x0b\x97\xfc\x79\xb9\xb5\x0b\xb2\x4b\xab\xa9\xd6\xa6\xe8\xf8\x29\x62\xd6\x75\x51\x00\x65\x8b\x87\x66\xe3\x12\x63\xba\xb5\xc7\xd8\x5a\x88\x34\x97\x3d\xb9\x25\x28\xb7\xc4\x42\x1c\x20\xc1\xe3\x40\x7d\x96\x43\x59\x16\xa8\x15\x92\x18\xaf\xdd\xe7\x46\x3b\x96\xb0\x9e\x76\xc0\x43\x3a\x16\x52\xc8\xc3\x7e\xc0\xb6\x40\x07\x07\x52\x71\x6a\xfe\xec\x47\x26\x85\x2e\x1b\x81\x0c\x54\x67\x66\x81\x09\x5f\x2e\x1a\x6d\xfb\x8a\x9a\x06\x1c\xb9\x99\x46\x43\x29\x05\x7c\x08\x65\x88\xa9\x0b\x45\x7a\xd6\x86\x5d\xd3\x10\x5c\x83\x9c\x4d\x91\x20\xd3\xdb\x43\x65\x68\x3b\x55\x9a\xbb\x53\x49\x8c\xe9\xc0\x4f\x60\xe3\x5f\xf6\xa3\x71\x43\x83\xc5\x4f\x68\x98\xef\x43\xbe\x34\xc9\x35\x11\xf2\x4d\xbd\xc3\x72\x58\x70\xc2\x6e\x52\x9f\x35\x57\x94\xff\xb0\x49\x57\xd8\x8f\x20\x7c\x9d\xfa\xca\x1b\x2c\x99\x98\x4d\x3c\x24\x99\x1a\x12\x08\xc1\x53\x5c\xda\x86\x53\xc1\xa3\xcc\x43\x24\xd5\x36\x8c\x91\x03\x68\x60\x66\x86\xf5\xd0\x00\x74\x30\x50\xff\x80\x0d\x90\x32\x75\x0c\x8c\x7c\x15\xf3\x76\xd0\x10\x95\x98\x90\x97\xe8\x39\x98\xf5\xe7\x06\x2d\x22\x81\x79\xc7\x49\xc0\x37\x13\x3b\x2a\x42\xb6\xf0\x5e\x85\x15\x6b\xa3\x50\x8b\x14\xd9\x98\x8f\xdc\x0d\xc2\xe7\x8f\x00\x62\x35\x4c\x2b\x2a\x48\x77\xb2\xca\xe6\xb7\x4d\x12\x78\x70\xd0\x3a\x1e\x08\x1c\x72\xbc\xaf\x2e\xd3\x3c\xbb\x01\xbe\xe4\xd1\x71\xff\xc5\x8c\x84\xcb\x15\x15\xbb\x29\x31\xc6\x07\xaf\xa5\x24\x59\x81\x25\xa4\xf8\x61\x83\x99\xc4\xe3\xf0\x3c\xdb\xec\x4f\x4e\xb8\xbf\x15\x60\x82\x0d\x70\xbc\xd3\x8c\xb2\xbb\xc6\x71\xd0\x11\x3f\xd8\x0b\x21\x4c\xca\x6f\xb5\xc3\x48\x6c\x5b\x2c\xcb\x02\x7c\xf9\x97\x59\xab\x1c\x1a\xd0\x7b\x68\x32\x48\xc8\xb2\xfa\xbb\x4a\x21\x09\xc5\x8c\xba\x08\x6c\x5e\x4e\x0a\x4e\x80\xe5\xac\x07\xa5\xaa\x04\xc5\x82\xd3\x7c\x6b\x73\x23\x35\xf9\xc3\x50\xb1\x90\x76\x1b\xc9\x5a\x1a\x98\x94\x8f\x17\x3f\xd2\xb1\xac\xb9\xa6\x1a\x51\x2c\x7d\x77\x70\xb5\x11\x79\x1e\xff\x34\x3d\xfb\xa6\x5e\x86\xb7\x1d\xe8\xc3\x7f\x7d\xc6\x4d\xbf\xea\xb2\xdb\xd0\x5f\x1a\x21\x84\x18\xe4\x29\xdf\x55\xb3\x5b\xf5\x2e\x77\x40\x4a\x80\x5a\x0c\x07\x00\x8a\xb4\x5b\x4e\x80\xab\x66\xba\x41\x2d\xf3\xb1\x50\x43\x53\x16\xe0\x14\x54\x2e\xb6\xb3\x2b\x41\xaa\x6f\x91\x13\xed\x40\x21\x4e\x25\x8e\x1f\xba\x8f\x5f\x47\x91\xa2\xb7\x6f\x0f\xd4\x8a\xeb\x3b\x47\x44\xf7\x2b\xbd\xb3\x9f\x5d\x8c\x78\x1a\x98\x2f\x26\xb2\x0b\x0f\xa0\x64\x89\xba\x92\x06\x16\x75\x27\xa4\x21\x36\xf4\x60\x53\x82\x4a\xe2\x37\x2c\xc8\x7c\x49\x76\x85\x32\x1d\x91\x39\x3c\xc9\x17\xf2\xf2\x55\xbc\x33\xae\x3d\x64\x5e\xf2\x8c\x04\xe1\xec\x85\x35\xc4\x19\xb3\xf9\x1e\xa5\xda\x5e\xf6\x8a\x24\x70\x88\x5a\x2a\xe7\x83\x2d\x81\x87\x66\x61\x8e\xb1\x23\x80\x26\x68\x38\xd2\x22\x48\x6d\xd9\xa0\xb8\xd0\xa1\x2b\x92\x00\x6e\x23\x1e\xb8\xbb\xc6\xe8\xdc\x90\x50\x04\x3c\x45\xc4\x81\x7f\xf8\xa7\x59\xc5\x61\xf0\x68\xc5\xf0\xa1\x26\x5c\x01\x12\xbc\x45\x6a\xd8\xfa\x06\x2f\xea\x76\x5c\x02\x31\x6c\x58\x38\x4a\x84\x2c\x58\x64\x9a\xc4\xa1\xc0\x7d\xeb\x2c\x50\x45\x83\x9b\x03\x49\x9f\x46\x29\x95\xaa\xbe\x3f\xe3\x06\x78\xc0\xca\xe7\x93\xcd\xb1\xa3\x19\x71\x52\x8b\x1a\xab\x63\x71\x35\xaf\x6e\x81\x2c\xd0\xdb\x59\x77\xe4\x53\x2b\xd7\x58\x16\x55\x93\x64\x06\x67\x59\xf6\x1a\x9b\xeb\x15\xbf\x77\xb9\xbc\x4a\x51\x3f\x47\x72\xc0\x74\x69\xa6\x71\x40\x21\xa2\xb9\xe9\x92\xaf\xa0\xe1\x98\x32\xf6\x83\x94\x66\x05\xd8\x4b\x8f\xcc\x04\x2d\x88\x41\x08\x73\x05\x18\x39\xd9\x97\x93\x56\xad\x1f\xa3\x3e\x2c\xc2\xa1\x09\x46\x60\x01\xdc\x82\xc3\xcb\x60\x3e\xfa\x3c\xb1\xc7\x6f\xdf\x8b\x53\xd3\xa2\x7c\x0f\xb2\x7d\x05\x00\x1b\x37\xdc\x5e\xd3\xa0\x0f\x7b\x1a\x2f\x11\x15\x13\x11\x83\x5c\xd0\x6b\x5a\xa4\x23\x1f\x99\x12\xb1\xc8\xba\x6a\x94\xf4\x0b\x5f\x2a\x41\xd7\x28\x5e\x11\x11\x9c\x0c\xa5\x8d\x08\x1c\x50\xb7\x25\x81\x37\x6a\xbe\xee\xf2\x5e\xc0\xd4\x44\xfa\x29\x52\xdb\x0b\x6a\x0d\x09\xb9\x37\x04\x80\x5c\x3a\x63\x65\x32\x2e\x8f\x02\x25\x5b\x17\x29\x7e\x24\x7e\x8d\xc7\xba\xa9\x13\x34\x8b\x47\x79\xd6\x12\x86\x1e\xb5\x72\x3e\x94\xbe\x8d\xc8\x19\x0f\x74\x58\x3c\x58\x32\x88\x55\x0d\x86\x30\x15\xe4\xd6\x85\x6c\x5b\x17\x04\xc7\x72\x90\x24\x19\x66\x61\x60\xda\x12\xce\x83\x45\xbb\xeb\xd0\x2b\xdb\xb0\x6f\xc7\x1c\x8d\xf8\xe9\x45\xde\x94\x92\xf5\x84\x35\x14\x43\x3b\x8c\xb0\x5e\xa3\x0a\xab\x4f\x44\xc2\x7f\xc5\xc4\xcd\x84\xbf\x5e\x76\xc9\x2b\x08\x37\x61\x2b\xa7\x79\x25\x6b\xec\x35\x6b\x4a\x46\x64\x2e\x68\xb2\x6d\x3b\x00\xe2\x99\x6e\xe3\x62\x45\xbe\xe8\xac\xd2\x32\x99\x44\x3c\x61\x2f\xc8\xa1\xea\x66\x75\xf9\x77\xa4\xe3\x09\xc0\xda\x5a\xa6\xfb\x66\x3e\xeb\xa2\x02\x23\x0a\x2f\x6f\x5a\x97\xf6\x62\x8d\x80\x26\x06\x27\x63\x55\x44\x49\x0c\xe0\x12\x56\x01\x32\xc3\x80\xd7\xc8\xba\x60\x38\x52\x79\x49\x74\x47\x96\x19\x1a\x02\x70\x90\xa2\x55\x25\x39\xd1\x52\x45\xa7\xd9\x88\x38\x04\x01\x81\xcc\xa3\xf6\x67\x31\x8c\x82\x31\x07\x1a\x1f\x77\x63\x6a\x44\x3c\x86\xfd\x3a\x39\xeb\x57\x05\xf4\x04\xb5\x21\x0c\xc1\x8b\xec\x33\x93\xaa\x7d\x90\xb9\xaf\x06\x67\xc4\x83\x18\xba\xc9\x46\x1a\x15\x20\x37\x48\x77\x91\xe8\xc6\x83\xb7\x89\x2f\x8c\xc6\x96\x5d\x0a\x5b\xd2\x91\x04\xf4\x70\x7d\xd0\xd3\xaf\xdb\xc2\x2c\xb4\x1a\x2b\x1b\x4a\x7f\xcf\x3c\x08\x66\x81\x01\xdc\xc1\x12\xd8\x75\x92\x7a\xc6\x6e\xad\xfa\x52\xe8\xe4\xa9\x98\x40\xb1\xe0\xbb\x61\x3c\xcc\x8c\xc9\x01\xaf\x1e\x33\x4a\x17\xcb\xcd\xdd\xe3\xc3\xf5\xeb\x6b\x60\x3f\xec\x4e\xf6\xd0\xb4\x64\x8f\xeb\x1f\x34\x78\x6e\x28\x22\x6f\xb3\xf9\xba\x9b\x41\x3a\x80\x54\x0e\xde\x19\x75\x12\x59\xa0\x41\xde\xfb\xcc\x2a\xb2\x0f\x6b\x60\xa5\x88\x45\xe2\x9a\x05\x04\x77\x09\x0f\xdf\x59\x59\x9a\x4f\x59\xe3\x40\x96\x2d\x81\xa0\xd4\x59\x6a\xc2\x64\x90\x22\x96\xcf\x25\xd2\x8e\x1e\x63\xeb\x9b\x61\xf8\xbb\xb6\xfc\xd3\x5b\xa6\x14\x46\x6f", m: b"\x13\xad\x94\xfb\x1b\x51\x03\x99\x17\x1d\xfe\x2b\xb7\x39\x72\xdf\x66\x55\x2c\xcd\x86\xbf\x8f\xfb\x0b\x0b\x15\x16\x41\x5b\x6b\x4a", k: b"\x48\x37\x3d\x5d\x11\xdd\xbe\x1b\xb5\xb0\x59\xb6\x4d\x98\x36\x94\x3b\x7a\xee\x65\x00\x3b\xfc\xe9\xa4\xe1\x1f\xc7\xc1\x79\xe1\x08", c: b"\xa0\xb5\xaa\x7b\x02\xb0\x81\x51\x20\xb8\xd8\x78\x12\xab\xc9\x3f\x46\x35\x56\x2f\x87\x7d\xe7\xb4\x9a\xe9\x2d\x9e\x5b\xd9\x48\x26\x13\xe9\xc7\x4a\x1b\x35\x6f\x52\x93\xe5\x13\x32\x6c\x73\x9a\x4f\x96\xf5\x57\xbc\x31\x48\x2a\x6f\xb1\x2a\x87\x95\xf0\xb5\x29\xb2\x6c\x52\x8d\x13\xce\x33\x32\xc7\x62\xd2\xd0\x2c\xc2\x55\xb8\xc8\x3e\x8e\x6f\x88\x11\xdd\x7d\x84\x36\x84\xb7\xae\x94\xb2\xe1\xca\xfa\x69\x38\x7f\xc3\xcb\x79\x5e\xef\x3e\xe9\x95\x08\x3e\x3d\x32\x6c\x26\x13\x61\x1e\xd8\x51\xca\x61\xa9\xb4\x12\xb1\x94\x92\x35\x94\x18\x28\x78\x50\xf1\xcf\xbf\x1e\x31\x8b\x53\x80\x56\x74\xd3\x16\xa0\xcd\xdf\x1a\x2e\xa4\xe9\x69\xcc\x17\xc0\x5a\xc4\x69\xfd\xec\xa1\x27\xc2\x15\x89\x1c\x98\x88\x30\xc4\xfd\x4e\x27\x8f\x83\xd7\xf1\x70\xcd\x88\x86\x5c\x23\xcf\xbf\x55\x6b\xa0\x7c\x36\xa5\xe0\xe0\xf2\x78\x7d\xfc\x1d\x5f\x61\x9a\x97\x23\x66\xaa\x6e\xc1\xa6\x1c\xa3\x0a\xee\x74\xf9\xd1\x0f\x11\x4b\xc6\x3d\x59\xaa\x01\x98\xef\xc7\xbc\x65\x92\xcc\x0f\xae\x93\x19\x49\xfa\x67\xd0\x09\x60\xc9\x55\x75\xa6\xbe\x0b\xc1\xa2\xd8\x4a\x71\x5e\x5f\x04\xb7\x01\x46\x1e\x02\x81\xb1\x6f\x1d\xf3\xff\xa6\xe7\x97\xce\x07\xb9\xae\x6f\x47\xf8\x99\x00\x3c\xcf\x59\xbd\xda\x36\x35\x62\x46\x93\x44\xe0\x47\xc4\x1a\xab\xf7\x01\x77\x0c\x20\x8a\xc5\xf9\xa1\x47\x3c\x1a\xd1\xa8\xed\x42\x39\x75\x7c\x6d\x55\x22\x50\xd9\xec\xba\x47\xd3\x84\xda\xf2\x4a\xf0\x94\x61\xb0\xb8\x79\x86\xf6\x17\x97\xfc\x3e\xce\xa0\x86\x42\x82\x54\xc1\x1d\x28\xfa\x37\x2b\x25\x39\x7d\x77\x02\x42\xd6\x6c\x1b\x42\x2e\xaf\x65\xdf\xc1\x4c\xf6\x85\xb9\xe1\x6c\xee\x47\x53\x83\x37\x72\x51\xee\x52\x64\x6f\x85\xfa\x43\x54\x18\x1c\x75\x34\x79\x51\xe4\xbc\xbd\xe9\x29\x98\xe0\xba\xd1\x87\x48\x80\x03\x45\x82\xc0\xfa\xdb\x33\xa6\x6d\x25\x45\xa6\x38\xc9\x07\x3d\x45\x0d\xdc\x96\xcf\xc3\xae\x23\x9b\x5e\x05\x11\xbd\x07\x67\xf0\xe7\x86\xad\x4a\x93\x44\xb5\x26\x6f\x9d\xe2\xec\xed\xe5\xce\x08\x0f\x43\xf3\xb6\x7b\xeb\xdb\x12\xb0\xa0\x03\x03\xdd\xb6\x85\x22\xee\x22\x86\xa6\xd1\xe5\xd3\xd1\x87\xff\xf7\x40\xdc\x74\xc3\xa3\x20\x96\x21\x84\x20\x96\xf6\x28\x60\x43\xdb\x1b\xb9\x19\xb7\xe9\x92\x8a\x8f\xda\xcb\xa2\xdb\x87\x81\x52\x93\x9e\x12\xa7\x99\xf2\x1f\x70\x9f\x31\xf9\x11\xef\x1d\xe4\x4b\x2b\x79\x3a\x14\x2f\x63\x56\x53\x2d\x48\x3c\x78\x69\x9d\x9e\xa8\xe5\x65\x0e\x0a\xe0\x46\x38\x68\x0f\x0e\xb4\x45\x95\x6c\x2a\xe4\x00\x16\x52\x19\x21\x11\x33\xbe\xe9\x6c\x5f\xda\x14\x31\x07\xcf\x07\xe3\x76\x40\x73\x51\x69\xe6\xa7\x2f\x15\x42\xb7\x20\xd3\x3d\x36\xec\xe2\xe3\xec\xaf\x82\x47\x30\x59\x92\x1a\x7d\x6e\x7b\x95\xd5\xae\x0d\x6a\xa0\x39\x08\xa3\x48\x3d\xf9\xc3\xa2\xa4\x5b\x9b\xbf\xc0\xb8\xa3\x7b\xd0\x50\x61\xf5\xa8\x89\xc6\xca\x91\x88\xe4\x04\x32\x69\x14\xd1\x31\x27\xaf\x19\x5f\x07\x2a\x85\x95\xa1\x97\x64\x9b\x0d\x5c\xc9\x1a\x9e\x1e\xe2\xe4\x65\xd6\x71\xc4\x37\x22\xeb\xc1\x36\x68\x02\xa4\x41\x6f\xd3\xd0\x6d\x6e\x6d\xf1\xc8\x65\x81\x91\x13\xe7\xfe\x45\xd7\xbf\x70\xe7\x95\x68\x88\x50\x9b\xb0\xc0\x2b\xdc\xb3\xe8\xa3\xc9\x7b\x4b\xa1\xb6\x55\xae\x13\x48\x11\xfc\x52\xee\x9d\xef\x34\x72\xf8\x63\x77\xa6\x1f\x60\xd6\x59\xb8\x11\x32\xe1\x4e\x31\x2b\x0c\x53\xbd\x50\x3b\x12\xfe\xca\xbe\x0a\xa8\x1f\x3f\x86\x23\x96\xe7\x38\xae\xb7\x1b\xfb\x8c\x86\x68\x7a\x88\xb3\x34\x99\xa0\xf1\xf4\x3f\x82\x30\x4f\xf8\x5c\x8c\x7e\x55\xa9\xad\x23\x00\xe6\x3d\xf9\x26\x1d\xac\x7d\x5a\xa2\xa8\xf4\x37\x18\x9c\xfe\xb7\xcf\xa4\xef\xcc\x93\xca\x70\x56\x9e\x77\xf0\xf5\xa7\x04\x77\xf7\x40\xa6\xe5\x4a\x8d\xfb\x2a\x27\x1c\xd0\x95\x17\x30\xec\x28\x30\xd5\xc0\xa5\xa6\x7c\x5d\xbf\xb6\x57\xde\xf3\x34\xd8\xf5\x46\x31\x38\xa6\xda\x56\x00\xed\x13\x83\x99\x90\x61\x85\x33\x90\xd3\x90\x20\x96\xf9\xf7\x8d\xe1\xc0\x9c\x4f\xe3\xa9\x45\x2a\xbe\xda\x96\xde\xf2\x36\x78\x39\x59\x61\xc2\x41\xa3\x42\x77\xef\xa7\x7c\x22\xfd\xbd\x49\xe5\x5d\xd2\x48\xe5\x50\x34\xb3\xe0\x03\x18\x34\x33\xf8\x9d\x67\x52\x9d\xc5\x7b\xcf\x0b\xa9\x87\x39\x11\xe4\x46\xa0\x66\x6f\x62\x0f\x13\xa9\x9a\x42\xf7\x2d\xbc\x57\x38\xc4\x71\xa4\xb8\x63\xa6\x42\x72\x74\xf9\xb0\xb8\x06\xf6\x30\xf7\x76\x29\x08\x9f\x28\xa6\x3a\xd4\x90\xc4\xae\xd7\xc0\x06\xdd\x08\x27\x86\x57\x89\xf9\x9d\x8a\x30\x23\x6c\x0a\xd6\x19\x09\x91\x66\x40\x0a\x4a\x83\x21\x3e\x3a\xda\x7f\xe9\xf9\x6b\xfd\x52\x0a\x40\x79\xdd\xad\x58\xe6\xeb\xdc\x01\x7c\x54\xec\x09\x26\xab\xe9\x52\x28\x11\x48\x3e\x18\xc5\xcd\x4a\x22\x57\x29\xa9\xd5\x16\x47\xfb\xa4\x5c\x68\xb5\xfa\x71\x54\x91\x6a\x52\x41\xfd\x78\x2d\x68\x52\x11\x93\x63\x93\xbc\x3d\x5d\x97\xc9\xd3\xcc\xb5\x31\xd7\xbc\x5a\x97\xf8\x2d\x47\x53\x22\x5a\x36\xdc\x9a\x86\xd1\x4b\x4e\x33\xcf\x67" },
  Kem { seed: b"\xe0\xec\xf9\x76\x0d\xe8\xd4\xae\x3b\xb3\x87\x43\xcc\x2d\x6c\x28\xb8\xd0\xc0\x4f\x4d\x40\x3f\x2a\xfa\xf9\xac\x67\x3a\x5d\x12\xa4\x72\x0d\xa1\x1e\xd3\xe5\x18\x33\xda\xf7\x33\x08\x90\x24\xfc\xcc\x76\xf2\x59\x56\x97\x9d\x14\xe1\x1b\xfd\xc0\xcc\x50\x91\x8a\xe7", ek: b"\x76\x51\xbb\xff\x9c\x65\x35\xca\x82\x15\x8b\x27\x2f\x95\x46\x95\x6b\x68\xac\xb7\xaf\xa1\x26\x26\x7c\xe1\x9b\xc0\x66\x82\x64\x95\x18\xa5\x03\x73\x65\xe6\x11\xda\x96\x51\xa0\xf0\x9e\xb3\xb8\x81\x82\xf5\x0a\x1d\xb9\xc4\xc0\x1c\x26\x36\x80\x51\x54\xc3\xb9\x86\xbc\x56\x41\x53\xad\x7e\x3a\xa4\x86\x97\x50\xc7\x86\x52\xc7\x15\x4e\xd0\x36\x7e\x5e\x02\x63\x7b\xc9\x1a\xc5\xf9\x83\xeb\x85\x6b\x0b\x98\x6a\x8c\x80\x1a\x15\xb3\xa6\x31\x48\x60\x9f\x50\x14\xd3\x22\x88\xdf\x02\x60\x90\x93\x11\x87\x0c\x00\xc8\x02\x96\x19\xd0\x96\x65\x85\x89\x97\xd4\x10\xbc\xfc\x61\x70\x18\xc4\x5c\xda\x43\xf0\xeb\x19\xfc\xc7\x1b\x84\x49\x51\x73\x55\x15\xe8\x7b\xa6\xc1\xbb\x71\x75\x24\x5e\x3a\xe6\xc2\x93\x15\x80\x55\x64\x61\x2c\x43\x08\xd8\x76\x17\x2a\x7b\x12\xb7\x94\x87\xd2\xd7\x29\xe3\xe3\x3d\x61\xf4\x07\xf5\xe4\x04\x31\xe3\x3f\x5e\xeb\xad\x1b\x3a\x5e\x3e\xd3\x2e\xaa\x04\x2e\x96\x87\x57\x16\x57\x91\xfe\x6a\x58\x14\xe3\x87\xf4\x6a\x84\x36\x71\x20\x5f\xfb\xb7\xea\x13\x98\xc2\x61\xbe\xab\x04\x7f\xe8\x29\x5a\xd8\x82\xa6\xe3\x62\x3a\xad\x04\x50\x43\x19\x47\x2c\xe5\xa3\xe2\xab\x70\x12\x53\xa5\x07\x01\xb3\xfc\xaa\x8b\x50\xa1\x98\x33\x2a\xbc\x14\xaa\x34\xcf\x6b\x3c\xbd\x77\xa8\x8d\x95\x65\x95\xc3\xaa\x13\x48\x81\x70\x48\x4d\xfe\xaa\xbe\xf4\x27\x2b\x11\x5c\x0e\xb5\x10\xc1\xe6\x19\x55\x60\x54\x4f\xe0\x02\x8f\x0d\xe2\x62\x97\xe0\x62\x05\xf6\x0c\x03\x8a\x6f\xb9\xb3\xbd\x04\xf6\x02\x47\x0a\x91\xf1\x69\xa6\xf7\x45\x04\x15\x48\xaa\x1b\x7a\xaf\x7c\x34\x1a\x7e\x88\x15\xf8\x58\x22\x4f\xdc\xcf\x57\x36\x6c\x86\x6c\x4a\x1e\x0b\x19\xaf\xca\x0d\x11\xe8\x80\x17\xb4\x2f\xa0\x09\x70\xe1\xb4\x0a\x07\x90\x7a\xbb\x52\x50\x0b\xa6\x64\x10\x8b\x85\xd6\xdc\xc3\xe9\x79\x3a\x71\xb8\x0c\xdb\x90\x50\x47\xd2\xcd\x62\x5c\x0d\x20\x40\x35\xe8\x05\xc4\x47\x89\x24\x0d\x99\x9c\x78\xe3\xb8\xeb\x96\xca\xe4\x04\xc6\x76\x33\x2a\x3f\x71\x97\x42\x62\x11\xbf\x21\x1c\x29\x81\x2e\xbe\x42\x7d\x2a\x84\xc7\x32\x0b\x4c\xf1\xdc\x3e\xd0\x06\x46\x94\x68\x2d\x3c\x8b\x3f\x1b\xc5\x59\xb4\x25\xb4\xd5\x9c\x9f\x67\x95\x44\xff\xb3\x42\x7f\xfa\x66\x3b\x95\x58\x81\x90\xb6\xe3\x04\x3d\x92\x20\xb0\x5b\x19\x7d\x86\xa9\x23\x73\x03\x70\xf2\xaa\x6d\x32\x7b\x72\x90\x60\x46\xe0\x69\x5e\x39\xbc\x0a\x8e\x36\x76\xb5\xd3\x1d\xfe\x21\x59\xc6\xeb\x00\x9b\xd8\xcb\xa0\xf3\x69\x96\xcb\x57\xa2\x87\xb4\x82\x21\x16\x04\xdc\x67\xd5\x49\xc5\xb2\x32\x04\x5f\x2b\x6c\x63\x41\x27\x65\x3b\x83\x1e\xb2\x5d\x0d\xf3\x74\x2f\x7c\xac\x97\xdb\x97\x89\x76\x0b\x30\x09\xb1\xe6\x59\x03\x87\x9b\x96\x6b\x8b\x0c\x67\x67\x7b\x31\xcb\x2d\x99\x44\x2c\xb9\x70\x97\x4b\x94\x4f\xd4\x91\xc5\xd1\x96\xc6\x11\x6b\x7d\x1c\x23\xc6\xd6\x0c\xc8\x68\xf4\xca\x14\x51\x9d\xba\x84\x48\x8c\xdc\x80\x81\xfa\x3c\xb4\x0a\x0e\x1e\xd0\x55\xdc\x78\x25\xad\xf2\x82\x97\x43\x08\xf9\x00\x3d\x64\xcc\x88\x18\x75\xc6\x51\x5a\x50\x5f\x26\x9a\xcc\x0a\x85\x08\x53\x55\x58\xe7\xcf\x17\x32\x96\xfb\x37\x36\x5d\x23\x86\xa9\xd4\x98\xc5\xa4\x84\x60\x95\x18\x10\x31\x5f\xa7\xba\x27\xba\xa2\x11\x9f\x25\xae\xcc\x44\x03\x1b\x9b\x29\xcd\x26\x2a\x16\x24\x1f\x59\xe5\x9a\x97\x85\xa6\xf7\xdb\x2a\x7f\xf1\x0b\x16\x8b\xbc\xad\x54\xa2\x36\x52\x04\x42\x2a\x6e\x58\x86\xa9\x62\x30\x76\x97\x31\x81\x96\x80\xbe\xb2\x7c\x53\x47\xb4\x7d\xf4\x66\xcc\xc4\x62\x81\x60\x05\x35\x4d\x9b\x2e\x9b\xe2\x4c\xfb\xd1\x5d\x61\xfa\x4b\xe8\x50\xc5\x23\xb8\x78\x8a\x07\x35\x81\x1a\x05\x3b\xc7\xb5\xb7\x3a\x02\x27\xfa\x28\xe9\x2b\x2e\x16\xfa\x37\x85\x7a\x32\x76\x07\x74\x21\x6c\x4f\x41\x8a\x6b\x9c\x0c\x19\x79\x27\x7c\x09\x25\x6a\x1f\x35\xc7\x9f\x74\xb9\x63\xd6\x54\xb1\x90\x58\xb5\x10\x5e\x05\x62\x67\x1c\x79\xc5\x37\x38\x16\x1a\xdc\x92\x88\xd7\x23\xe3\xc0\x11\x19\xb3\x72\xb7\x5a\x56\xc6\x51\x0d\xe5\x44\x03\x44\x87\xa1\xfd\xc2\x04\x4f\xcb\x68\x38\xbc\x64\x64\xa0\xa0\xa7\x86\xc6\xe3\x9a\x9d\x16\xf5\xc3\xc1\xa3\xa7\x3a\x87\xa1\x4a\x0c\x12\x4e\x33\x74\x37\x18\xbe\x29\x79\x93\x4f\x48\x6a\x1a\x76\x28\x0a\xc5\x9f\x9d\xcb\x40\x7e\xa4\xb0\x66\xc8\x7d\x19\x63\x29\xec\xfa\xad\xa9\x84\x6c\x87\x77\x54\xe2\x4b\x8d\x37\x78\x55\x91\x1c\x15\xda\x96\x20\xb8\x89\x5e\x01\xd2\x8d\x80\x40\x27\x79\x23\x68\x63\xcb\x9b\x23\xab\x87\xee\x75\x72\x74\xbb\x54\xf6\x27\x48\xf9\xe1\x91\xd1\x10\x6e\xa4\xfc\xb4\x01\xb0\x73\xd2\x02\x23\x67\xdb\x99\xdf\xba\x1a\x2d\x01\x25\x40\x73\x4f\xa6\xdc\xcc\x6d\x65\xb3\xd9\xa8\x90\x4a\xf7\xa6\xe6\xc5\x36\x75\x21\x3e\xb5\x4c\x68\xdf\x21\x61\xa7\x14\x37\x93\xfc\xba\xce\xba\x02\x9a\x63\xc2\xe1\x22\xcc\x7d\xbb\xce\x40\x02\x4d\xcd\x77\x54\xe3\x8c\xb3\x0e\x53\x6a\x46\x94\x30\xe1\xb8\x55\x40\xb2\xb1\x9d\xf3\x0f\xd4\x53\x45\xf8\x6c\x62\x85\x71\xcf\x28\xf4\x82\x5e\x1a\x0f\xa1\x90\x47\x29\xc5\x52\x8b\x29\x5f\x30\xf0\x9a\xd8\x6c\x34\xa2\x3b\x07\x65\x04\xb9\xfd\x38\x08\xef\xd7\xa8\x9a\x7b\x16\x60\x65\x89\xcc\x42\x29\x63\xb6\x81\x04\xec\x1d\x3f\xb1\xca\x32\x95\x91\xdd\x5b\xb3\x0c\x04\x34\x66\x16\xe7\x65\xcf\xcd\x05\x29\x56\xbe\x67\xfb\x6f\x49\x54\xcd\x72\xa6\x5d\xfa\x6a\xe0\x8b\xf8\x3c\x0a", dk: b"\x0b\x10\xa4\x86\x3a\xbb\xff\x13\xbd\xa1\xa7\x85\x60\xea\x61\x1d\x28\x6c\x8e\x1a\x63\xda\x53\x82\xc9\x23\x75\x5c\xe3\x71\x2c\xe1\x60\xee\x48\xaa\x4a\x51\x6f\xcd\xf6\x8a\x76\xf3\x21\xcc\xd0\x0f\xa1\xe4\x11\x19\xa0\x8d\xa0\xa3\x96\xa9\x8a\xac\x02\x4a\x40\x32\x45\xc7\x74\xf8\xae\x56\x96\xb3\xc6\xc8\x36\x91\xe0\x1b\x62\x09\x15\xab\x68\x5e\x1e\xd5\x53\x2b\x54\x9c\x9a\xeb\xc0\x5f\x02\x69\x24\x40\x59\x64\x7a\x10\x92\x9b\x29\xf9\x29\x7c\x5b\xe2\x74\x0b\x59\x63\xad\x59\x44\xb4\xeb\x13\xc0\x68\xba\xf4\xa0\x92\x88\xc5\x83\x38\x37\x06\x73\x8c\x5f\x76\xd8\x91\x7d\xf2\x98\x0b\x1a\xbe\x35\xe3\x44\x68\x96\x48\xf8\x73\x66\x64\x1b\x8b\xce\x40\x76\xec\x4a\x25\x66\xd7\xcd\xfc\x19\xc8\x2a\xb3\x3c\x27\x8c\x7b\x56\x0a\x75\x21\x4a\xc0\x9b\x95\xc8\x56\xd1\x5e\x8e\xb9\x6c\x70\x44\x6f\x92\x83\x5a\x22\x8b\x73\x50\x58\x15\x5d\xba\x46\x36\x11\xcc\xe1\x89\x3c\xb6\x58\xae\x0f\x54\x28\x80\x7a\x16\x92\xea\xc9\x69\x03\x79\x66\x1b\x1e\x14\x51\x43\x81\xcc\x22\x0b\xe5\x32\x2b\x6a\x2a\x2c\x3c\x4c\xc7\x56\x05\xc7\x40\x9c\x82\x60\x9c\x20\xe1\x63\x71\x84\x35\x28\x48\x19\xd5\xea\x61\xd1\x8c\x76\x58\xf5\x8b\x06\x72\x20\xd8\x1c\x4b\x63\x14\x13\x95\x8c\x5d\xd8\x00\x23\x00\x61\x53\x5d\x80\x4b\x64\xc5\x7f\xaf\xf8\x6c\x39\xe7\x7e\x2a\x43\x71\xef\xfc\x94\x8c\x94\xa8\x81\x73\x6f\x36\x79\x95\x28\xf5\x46\xe4\x37\xb5\x79\x3c\x1c\xe2\x09\xc2\x4c\x4a\x29\x29\x44\x2b\xb8\x2a\xc0\x35\x69\xa7\x14\x37\x37\x1b\x60\xac\x51\xda\x12\xe6\x35\xbf\xb8\xfb\x95\x99\xc5\x31\x12\xeb\x69\xf0\x2b\x39\x32\x4a\x1b\xb4\x49\x26\xfa\xd7\xae\xae\x5a\x0c\xf3\xe5\x48\x1e\x60\x21\x33\x63\x9c\x0d\x72\xcd\x8e\x29\x5a\x98\xa5\x7e\x92\xb8\x86\x28\x16\x03\xba\xea\x8b\x17\x37\xc9\xb9\xab\xc3\x98\x69\x2f\xda\xd1\x0d\xaf\xb0\x10\x27\x47\x29\x98\xfc\xab\xc3\x5b\x2d\x6e\x89\xca\x0c\x63\x12\x13\x63\xa8\xec\x25\x6f\x20\xe5\xb3\xf1\x48\xa4\x5b\xd8\x2e\x66\xb9\x54\xf6\xc4\x91\x80\x31\x25\x1b\xd7\x88\x70\x89\xc3\xfa\xdb\xbb\xb1\x68\xb4\x2d\xb0\x33\xf8\x38\xcb\xfd\x76\x44\x59\xca\x5a\x77\x41\x48\x73\xbc\xcd\xdf\x36\x99\x68\xa0\xab\x89\x87\xb4\x5b\x53\x6d\x50\x7b\x95\xbe\xb3\x82\x90\xbb\xac\x88\xa9\xa8\xdf\xd3\x8d\x0e\x97\x29\xc6\x18\x41\x04\xdb\x73\x32\x33\xac\x91\x53\x8c\x9f\x69\xbf\x76\x88\x4d\xe5\x21\x92\x33\xc9\x15\x22\xb3\xa3\xd7\xa6\x78\xf9\x82\x70\xce\x2b\x64\x5a\x19\x11\xab\x6c\x46\xdc\x5b\x73\x0d\xa1\x32\x30\xe4\xad\xd4\xa7\x98\xaf\x83\x1e\x16\xea\x66\x07\x30\xa9\x08\xd7\xbe\x2c\x82\x80\xbb\x0a\x76\x58\x15\x3e\x50\x71\x31\xdb\x80\xb0\xbd\x24\x65\x8d\xc5\x47\x74\xcc\x8f\xae\xd2\xad\xbb\xc0\x09\x74\x39\x1e\x14\x15\xc9\x61\xe6\x8d\x60\x13\xb7\x75\x59\x99\xfc\xc2\x01\x8d\xa2\x7f\x76\x48\x7f\xfd\x96\x41\x39\x84\x57\x5c\x92\xb8\xfd\xca\x0a\xee\x9b\xba\x7e\x1a\x0a\x2e\xd1\xb9\xdd\x04\x7f\xb2\x0c\x5f\x9e\xca\x1f\x1c\xe4\x66\xc5\x75\x83\xa6\x74\xab\xdc\x8b\x09\xfa\x39\x7b\x3b\x16\xc9\x55\x13\x19\x61\xe4\x05\xa3\xda\xb3\x0a\xe5\x9d\xbc\xe1\x2c\x6c\xe4\x23\x3d\xd4\x53\xb7\xf8\xad\x61\xc1\x68\xd4\xd8\x42\xfe\x3b\x9f\x73\xcb\x29\x4f\x75\x0f\x61\x02\xb3\xea\xd7\x76\x52\x15\x66\x1f\x92\x42\xee\x69\xad\xc6\x02\x9a\x75\x31\xa0\x96\xba\x94\xe5\x22\x99\x5c\x57\xa6\xb6\x16\x06\xc1\x48\x50\xa4\xd3\x7b\x63\xa4\x57\x62\x65\x80\x95\xc8\x0d\x0b\xf3\x1b\x9c\xd4\x7e\xac\xe6\x59\x54\x86\x12\x07\x46\x4e\xe4\xd9\xb9\xf5\x87\x17\x9b\x04\x64\xf7\x8b\x20\x0f\x40\xae\x75\x28\x10\x50\x72\x21\xc2\x75\x3a\x2e\x77\x78\xce\x9b\xab\x54\xb7\xab\x10\x16\x34\x88\x04\xbc\x9e\x34\x34\xb8\xf3\x16\x1c\xca\xb8\xc6\x65\x19\x91\xd0\xac\x3c\x23\xca\x19\xeb\x14\xd4\x01\xcc\x40\x77\x7f\xdf\xa7\xcb\x0e\xa3\xc9\xba\xf8\x5e\xc3\x66\x35\xda\x94\x50\xf0\x21\xc1\x1c\xc0\x1b\x75\xe6\xb2\x09\xe7\x9a\x8c\x10\x05\x18\xe6\x56\xad\x7a\xca\x3f\x63\x27\x99\x37\x69\xed\x43\x7d\xa5\xc1\x7b\x6f\x88\x40\x5a\xe9\xb1\xf9\xd6\x63\x7a\x64\x21\x36\x2a\xa3\xd6\xd8\x10\xd7\x71\x36\xee\x41\x16\x6d\x01\x45\xdb\x04\x8b\x53\x13\x06\x5f\xa0\x1b\xe9\x29\x49\x90\x54\x60\x6a\x19\xcc\x75\xe8\x51\xe5\xb5\x00\xbf\xdc\x00\x57\x26\x66\x1c\xd6\x1c\xad\x64\x59\x1a\x6c\x19\x0e\xe1\xb7\x9d\x8c\x2a\xd7\x1a\x97\xfa\x39\xa6\x6e\x73\x63\x2b\xf0\x8e\x3f\x87\xba\x95\x81\x37\x90\x88\x68\x3d\x78\x42\x71\x73\x96\x78\x77\x11\x09\xa0\xa7\x22\x27\x4a\x22\xba\x94\x2d\x73\x10\x39\xb0\x9f\xd9\x94\x1c\x40\x76\x7c\x48\xa9\x7a\xd5\x13\x28\x8e\xf8\x4c\x5d\x26\x18\xe1\x24\x54\x5c\x57\x9b\xae\x56\x75\x75\xb9\x01\x02\x05\x16\xd1\xf1\x08\xc1\x10\x11\x64\x09\x96\xa8\xcc\x42\xd1\x24\x23\x90\xb3\x27\x96\xfb\x0e\x2e\xcc\x1e\x62\x40\x2c\x00\x8b\x48\x4c\xb8\xa5\x0a\x2a\x66\xb7\x5b\x64\x93\x72\x07\x6d\xda\x29\x56\x15\xa4\xca\x06\x07\x0c\xfc\x6a\x16\x26\x09\x18\x75\x6c\xf0\xd4\xb8\x42\xc7\x1d\x60\x2c\x3a\x90\xd1\x1c\xfb\x42\x00\x2a\x70\xb3\x53\x96\xaa\x27\xa9\x32\xe5\xe3\x0e\x29\xe3\x0f\xc0\xb2\x3f\x9b\xfc\x82\x54\x16\x0f\xba\x8b\x78\x76\x51\xbb\xff\x9c\x65\x35\xca\x82\x15\x8b\x27\x2f\x95\x46\x95\x6b\x68\xac\xb7\xaf\xa1\x26\x26\x7c\xe1\x9b\xc0\x66\x82\x64\x95\x18\xa5\x03\x73\x65\xe6\x11\xda\x96\x51\xa0\xf0\x9e\xb3\xb8\x81\x82\xf5\x0a\x1d\xb9\xc4\xc0\x1c\x26\x36\x80\x51\x54\xc3\xb9\x86\xbc\x56\x41\x53\xad\x7e\x3a\xa4\x86\x97\x50\xc7\x86\x52\xc7\x15\x4e\xd0\x36\x7e\x5e\x02\x63\x7b\xc9\x1a\xc5\xf9\x83\xeb\x85\x6b\x0b\x98\x6a\x8c\x80\x1a\x15\xb3\xa6\x31\x48\x60\x9f\x50\x14\xd3\x22\x88\xdf\x02\x60\x90\x93\x11\x87\x0c\x00\xc8\x02\x96\x19\xd0\x96\x65\x85\x89\x97\xd4\x10\xbc\xfc\x61\x70\x18\xc4\x5c\xda\x43\xf0\xeb\x19\xfc\xc7\x1b\x84\x49\x51\x73\x55\x15\xe8\x7b\xa6\xc1\xbb\x71\x75\x24\x5e\x3a\xe6\xc2\x93\x15\x80\x55\x64\x61\x2c\x43\x08\xd8\x76\x17\x2a\x7b\x12\xb7\x94\x87\xd2\xd7\x29\xe3\xe3\x3d\x61\xf4\x07\xf5\xe4\x04\x31\xe3\x3f\x5e\xeb\xad\x1b\x3a\x5e\x3e\xd3\x2e\xaa\x04\x2e\x96\x87\x57\x16\x57\x91\xfe\x6a\x58\x14\xe3\x87\xf4\x6a\x84\x36\x71\x20\x5f\xfb\xb7\xea\x13\x98\xc2\x61\xbe\xab\x04\x7f\xe8\x29\x5a\xd8\x82\xa6\xe3\x62\x3a\xad\x04\x50\x43\x19\x47\x2c\xe5\xa3\xe2\xab\x70\x12\x53\xa5\x07\x01\xb3\xfc\xaa\x8b\x50\xa1\x98\x33\x2a\xbc\x14\xaa\x34\xcf\x6b\x3c\xbd\x77\xa8\x8d\x95\x65\x95\xc3\xaa\x13\x48\x81\x70\x48\x4d\xfe\xaa\xbe\xf4\x27\x2b\x11\x5c\x0e\xb5\x10\xc1\xe6\x19\x55\x60\x54\x4f\xe0\x02\x8f\x0d\xe2\x62\x97\xe0\x62\x05\xf6\x0c\x03\x8a\x6f\xb9\xb3\xbd\x04\xf6\x02\x47\x0a\x91\xf1\x69\xa6\xf7\x45\x04\x15\x48\xaa\x1b\x7a\xaf\x7c\x34\x1a\x7e\x88\x15\xf8\x58\x22\x4f\xdc\xcf\x57\x36\x6c\x86\x6c\x4a\x1e\x0b\x19\xaf\xca\x0d\x11\xe8\x80\x17\xb4\x2f\xa0\x09\x70\xe1\xb4\x0a\x07\x90\x7a\xbb\x52\x50\x0b\xa6\x64\x10\x8b\x85\xd6\xdc\xc3\xe9\x79\x3a\x71\xb8\x0c\xdb\x90\x50\x47\xd2\xcd\x62\x5c\x0d\x20\x40\x35\xe8\x05\xc4\x47\x89\x24\x0d\x99\x9c\x78\xe3\xb8\xeb\x96\xca\xe4\x04\xc6\x76\x33\x2a\x3f\x71\x97\x42\x62\x11\xbf\x21\x1c\x29\x81\x2e\xbe\x42\x7d\x2a\x84\xc7\x32\x0b\x4c\xf1\xdc\x3e\xd0\x06\x46\x94\x68\x2d\x3c\x8b\x3f\x1b\xc5\x59\xb4\x25\xb4\xd5\x9c\x9f\x67\x95\x44\xff\xb3\x42\x7f\xfa\x66\x3b\x95\x58\x81\x90\xb6\xe3\x04\x3d\x92\x20\xb0\x5b\x19\x7d\x86\xa9\x23\x73\x03\x70\xf2\xaa\x6d\x32\x7b\x72\x90\x60\x46\xe0\x69\x5e\x39\xbc\x0a\x8e\x36\x76\xb5\xd3\x1d\xfe\x21\x59\xc6\xeb\x00\x9b\xd8\xcb\xa0\xf3\x69\x96\xcb\x57\xa2\x87\xb4\x82\x21\x16\x04\xdc\x67\xd5\x49\xc5\xb2\x32\x04\x5f\x2b\x6c\x63\x41\x27\x65\x3b\x83\x1e\xb2\x5d\x0d\xf3\x74\x2f\x7c\xac\x97\xdb\x97\x89\x76\x0b\x30\x09\xb1\xe6\x59\x03\x87\x9b\x96\x6b\x8b\x0c\x67\x67\x7b\x31\xcb\x2d\x99\x44\x2c\xb9\x70\x97\x4b\x94\x4f\xd4\x91\xc5\xd1\x96\xc6\x11\x6b\x7d\x1c\x23\xc6\xd6\x0c\xc8\x68\xf4\xca\x14\x51\x9d\xba\x84\x48\x8c\xdc\x80\x81\xfa\x3c\xb4\x0a\x0e\x1e\xd0\x55\xdc\x78\x25\xad\xf2\x82\x97\x43\x08\xf9\x00\x3d\x64\xcc\x88\x18\x75\xc6\x51\x5a\x50\x5f\x26\x9a\xcc\x0a\x85\x08\x53\x55\x58\xe7\xcf\x17\x32\x96\xfb\x37\x36\x5d\x23\x86\xa9\xd4\x98\xc5\xa4\x84\x60\x95\x18\x10\x31\x5f\xa7\xba\x27\xba\xa2\x11\x9f\x25\xae\xcc\x44\x03\x1b\x9b\x29\xcd\x26\x2a\x16\x24\x1f\x59\xe5\x9a\x97\x85\xa6\xf7\xdb\x2a\x7f\xf1\x0b\x16\x8b\xbc\xad\x54\xa2\x36\x52\x04\x42\x2a\x6e\x58\x86\xa9\x62\x30\x76\x97\x31\x81\x96\x80\xbe\xb2\x7c\x53\x47\xb4\x7d\xf4\x66\xcc\xc4\x62\x81\x60\x05\x35\x4d\x9b\x2e\x9b\xe2\x4c\xfb\xd1\x5d\x61\xfa\x4b\xe8\x50\xc5\x23\xb8\x78\x8a\x07\x35\x81\x1a\x05\x3b\xc7\xb5\xb7\x3a\x02\x27\xfa\x28\xe9\x2b\x2e\x16\xfa\x37\x85\x7a\x32\x76\x07\x74\x21\x6c\x4f\x41\x8a\x6b\x9c\x0c\x19\x79\x27\x7c\x09\x25\x6a\x1f\x35\xc7\x9f\x74\xb9\x63\xd6\x54\xb1\x90\x58\xb5\x10\x5e\x05\x62\x67\x1c\x79\xc5\x37\x38\x16\x1a\xdc\x92\x88\xd7\x23\xe3\xc0\x11\x19\xb3\x72\xb7\x5a\x56\xc6\x51\x0d\xe5\x44\x03\x44\x87\xa1\xfd\xc2\x04\x4f\xcb\x68\x38\xbc\x64\x64\xa0\xa0\xa7\x86\xc6\xe3\x9a\x9d\x16\xf5\xc3\xc1\xa3\xa7\x3a\x87\xa1\x4a\x0c\x12\x4e\x33\x74\x37\x18\xbe\x29\x79\x93\x4f\x48\x6a\x1a\x76\x28\x0a\xc5\x9f\x9d\xcb\x40\x7e\xa4\xb0\x66\xc8\x7d\x19\x63\x29\xec\xfa\xad\xa9\x84\x6c\x87\x77\x54\xe2\x4b\x8d\x37\x78\x55\x91\x1c\x15\xda\x96\x20\xb8\x89\x5e\x01\xd2\x8d\x80\x40\x27\x79\x23\x68\x63\xcb\x9b\x23\xab\x87\xee\x75\x72\x74\xbb\x54\xf6\x27\x48\xf9\xe1\x91\xd1\x10\x6e\xa4\xfc\xb4\x01\xb0\x73\xd2\x02\x23\x67\xdb\x99\xdf\xba\x1a\x2d\x01\x25\x40\x73\x4f\xa6\xdc\xcc\x6d\x65\xb3\xd9\xa8\x90\x4a\xf7\xa6\xe6\xc5\x36\x75\x21\x3e\xb5\x4c\x68\xdf\x21\x61\xa7\x14\x37\x93\xfc\xba\xce\xba\x02\x9a\x63\xc2\xe1\x22\xcc\x7d\xbb\xce\x40\x02\x4d\xcd\x77\x54\xe3\x8c\xb3\x0e\x53\x6a\x46\x94\x30\xe1\xb8\x55\x40\xb2\xb1\x9d\xf3\x0f\xd4\x53\x45\xf8\x6c\x62\x85\x71\xcf\x28\xf4\x82\x5e\x1a\x0f\xa1\x90\x47\x29\xc5\x52\x8b\x29\x5f\x30\xf0\x9a\xd8\x6c\x34\xa2\x3b\x07\x65\x04\xb9\xfd\x38\x08\xef\xd7\xa8\x9a\x7b\x16\x60\x65\x89\xcc\x42\x29\x63\xb6\x81\x04\xec\x1d\x3f\xb1\xca\x32\x95\x91\xdd\x5b\xb3\x0c\x04\x34\x66\x16\xe7\x65\xcf\xcd\x05\x29\x56\xbe\x67\xfb\x6f\x49\x54\xcd\x72\xa6\x5d\xfa\x6a\xe0\x8b\xf8\x3c\x0a\xc3\x3a\xdb\x97\xce\xfa\x42\xb4\x1c\xa9\x0c\x1f\x4d\x1a\x47\x13\x22\x0a\x37\x05\xe7\x9f\x09\x6f\x64\x47\x16\x8b\x0b\x53\xbc\x04\x72\x0d\xa1\x1e\xd3\xe5\x18\x33\xda\xf7\x33\x08\x90\x24\xfc\xcc\x76\xf2\x59\x56\x97\x9d\x14\xe1\x1b\xfd\xc0\xcc\x50\x91\x8a\xe7", m: b"\x48\x22\xaf\x37\x0f\x68\x11\xbb\x43\x08\x85\xb4\xa2\x2d\xac\xe7\x30\x76\x4b\x63\xd6\x43\xd9\x29\x83\x77\xdc\xbf\xa6\x86\x2b\xb0", k: b"\xc1\x67\xce\x1f\x19\xc6\x66\x3b\x5f\x95\x68\xcc\xd0\x6f\x85\x21\x96\xc0\x43\x04\x93\x02\x97\x37\x7a\x1e\x54\xe1\x3a\xe1\x49\x87", c: b"\xea\x63\x3c\xcd\x39\x55\x7f\x4a\x26\x82\x7d\x85\x94\x69\x40\x63\x31\xe7\x55\xf7\x8f\x20\xd1\xe1\xbc\xa1\x1d\x7d\x6e\x7a\x7c\x74\x87\x83\xb8\xc4\xb4\xae\x38\x9a\xeb\xee\x00\x7e\x37\xe5\x50\xd4\x46\x5f\x10\x6e\xc5\xf7\x14\xd1\x27\x04\xe2\x59\xf9\x23\xc6\xb8\xf1\x22\x41\x44\x5e\xb6\xce\xbc\xcb\x07\xf4\x8c\x65\xa3\x87\x45\x90\x8d\xfb\x2f\x57\x9e\x19\x3c\xb2\x20\x87\x3d\xdc\xf5\x39\xd7\x88\x21\x71\xcc\xfb\x88\x0e\x40\x0b\x5d\x5b\xd1\x28\x54\xc4\x01\xe3\x6b\x79\x7d\x20\x20\xfc\x58\xcb\xea\x49\xc8\xa6\xed\x11\xd8\x4c\xaf\x7c\x0a\x97\xb3\x92\x42\x04\x2e\xba\x62\x01\x20\x73\x64\xb4\x98\x8c\x37\x94\x7a\x7e\x8a\x5e\x83\x74\xd5\x2f\x01\xf3\xfe\xd4\xf9\x03\xcb\x8b\xe1\x16\xf9\x89\x7d\x7b\x53\x91\x1a\x0d\x83\x76\x69\x51\xad\x8f\xa1\x66\x99\x39\x0d\x21\x64\x5f\xea\x31\x74\x64\xaa\x32\x49\xe7\x71\x70\x70\x4c\x1a\x62\x9d\x51\x96\xa3\xaf\x23\x33\x23\x58\x81\x08\xe6\xf1\x4b\x2b\x97\x45\x00\xa2\x11\x8a\xca\x30\x6b\x32\xc3\x1f\x74\x52\x26\xff\xb2\xaf\xdd\x6e\x69\x08\x69\xd2\xb6\x29\xfb\x04\xb1\x75\x90\xfd\x90\x96\xa3\x69\xb8\xad\xd3\x30\x63\x32\xb4\xa3\x65\x9c\x50\xd3\xc3\xc6\x0e\xd9\x80\x54\xc5\x52\xc9\x62\xa3\x92\x25\xea\xc2\xee\x9c\x8e\xea\x60\x1c\x8d\x69\xf1\x60\x03\xe9\xad\x00\x48\xc5\x4f\xba\xf8\x1c\x98\x6b\xe8\x23\xde\x13\x4f\x23\x55\x1b\xb6\x93\xd4\xff\x76\x17\x59\x32\x60\x79\xc4\x9c\xf7\xae\x1b\xa9\xea\x3e\xe1\xd2\xbb\x44\x7d\xce\xa0\xe2\xe5\xe9\x0b\x23\xaf\xe3\xfe\xc5\x83\xbc\xc4\xe5\xe1\x0b\x74\x69\xe6\x85\x2a\xe4\xf4\xd3\x78\xae\x14\x15\xf8\x8d\x8b\x27\x94\xb2\x0a\x62\xbd\x5c\xcb\x6c\x62\xb6\x79\x28\x00\x4c\x21\xf6\x86\xcc\x66\xaa\x29\xea\x92\x55\x99\x08\xfc\x48\x19\x0d\xf5\x65\xf9\xd5\x77\x50\x23\x9f\xf3\x07\x0a\xe0\x2e\x64\xfe\x97\x37\xd7\x1e\x8c\x2a\xd9\x51\x58\xdb\x35\x97\x86\x37\x26\xac\x17\x41\xa8\xbd\xc8\x05\x03\x30\xd9\xd7\xf8\xbc\x2d\x20\xf8\xa0\xc5\x3f\x1f\x4d\x64\xeb\x8a\x66\xfd\x87\x85\xd9\x4a\xe5\xf6\x50\xf6\x5b\xdb\xa7\x3c\x6e\x78\xb0\x9c\x35\xd7\x16\xf6\x97\xb3\xcf\x9b\xaf\x65\x07\xdf\xdd\xfe\x00\x89\xeb\x93\xdf\x12\xbd\x9e\x3b\xd1\xcc\xa8\x7e\xb6\xf7\xbc\x2f\x13\x82\x57\x83\xf1\xa0\xdb\xd4\x17\xf5\x54\xad\xf2\x00\xcc\x3d\xc4\x5a\xef\xdc\xbc\x01\x45\x1e\xb7\xeb\xb8\x41\x58\x60\x9b\x66\x96\xa7\x9d\x8e\x06\xba\x78\x49\x95\x9d\xd7\x17\x6d\xee\x08\x2d\x78\x83\x2f\xe2\xc6\x39\xc0\x84\x11\xed\xd6\x55\xe9\x0a\x52\x70\xfc\x13\x53\x13\xfc\x0b\x2b\x97\x9c\x27\x7f\xda\xfc\x13\xe2\x03\x40\x4f\x5b\x17\x91\x4a\x46\x9a\x77\x2e\xe5\x6c\x15\x04\xb1\xaa\x02\x5e\x25\xf9\x55\x9b\x81\x60\x41\xad\x02\x78\xea\xf0\x73\xe8\x90\x0b\xd1\x7a\xf7\xe3\xc5\x97\x38\xae\x5a\x04\x7a\xd2\xe1\x48\x13\x06\x6e\x2d\xb9\xe8\x64\x45\xb2\xc3\xa8\xa3\xf2\x45\x2d\x42\x57\x16\x40\x32\x7f\x47\x70\x86\xb6\x73\x4a\x8b\x8c\x0f\xc2\x70\x8d\x7c\xaa\x51\x30\x9a\x02\x6c\xf4\x24\x10\xdd\xd0\x53\x9b\x11\x3d\x39\x6f\xef\xc0\xc9\xb3\x34\x6c\xc6\xc1\x22\x96\x5a\x9e\xe3\x41\xd9\xe0\x90\x07\x24\x1d\xa0\x3b\x03\x08\xa1\x10\x7e\x24\xb4\x07\xee\x01\xf6\x4c\x73\xeb\x8c\xf8\xa3\x67\x90\x15\x1c\x20\x94\x12\x94\x02\x9d\x6c\x88\x14\xf5\x1b\x4e\x86\x47\xe4\x85\x26\x4f\x6a\x70\xfd\x35\x45\x13\xb0\xe8\xa0\x8b\x16\xe8\x0d\xc2\xf2\xca\x21\x0a\x49\x4d\x3d\xde\xeb\xfc\x4d\x82\x6f\x1b\x08\xf8\x36\xa8\xbb\x74\x4f\xde\x02\x0e\x5b\x6f\xe7\xc0\xb9\xf4\x50\x7c\x69\xd5\x6e\x96\x60\x49\x34\x2e\x17\x7a\x7a\x16\x49\x3e\xa4\xfc\xf3\x3e\xf8\x47\x3b\x32\x07\x18\xd1\xbc\x96\xfc\x85\xe6\x1a\x0c\x54\xa0\xba\x1a\xa0\xc5\x95\xd3\x8e\xcc\x51\x9b\x41\x22\xa7\xd3\xb2\xca\x8f\xe7\xed\x40\x24\x7a\x7b\xda\x75\xa1\xcc\x84\x02\x7e\x9e\x6e\x2e\xbd\xa2\x41\x88\xc4\x62\xdb\x29\x5d\x75\x62\x9d\x0e\x4a\x45\x1e\x52\x33\x53\xe7\x3c\x04\xef\xf6\xc5\x71\xd3\x82\x50\x6c\xef\x9b\x30\x29\x05\x6f\x43\x11\x97\xd6\xb1\xda\xbf\x3f\x44\x66\x19\x04\x0c\x6b\xdf\xd8\x47\x14\x6e\x6a\xa7\xa7\x8c\x64\xf7\x99\x59\x8b\x6c\x42\x5e\x3c\x58\x55\x3e\xca\xf0\x0f\xd2\xc3\xa9\x16\x04\x93\xbf\x79\xa1\xf8\xce\xf3\xcf\x3e\x1f\x2b\x25\x80\x2a\xbe\x0a\x0d\x94\x97\xe1\x14\xc3\xc7\xe0\xc3\x2f\xcb\xaa\x1b\xf3\x3f\xaf\x15\x9d\xda\x5d\x0d\x41\xb7\xb1\x63\xc1\x74\xb4\x05\xd4\xfd\xe1\xde\xff\x6a\xd8\x52\x5e\x8b\x24\x49\x6b\xac\xcc\x09\x60\x53\x37\x73\xf6\x16\x54\xd7\x7d\x4f\xe2\x0e\x33\xec\xf4\x84\x21\x7e\x3f\x28\x95\x3c\xee\x41\x7b\x74\xd7\xe4\x0c\x96\x7c\x3d\x04\xfc\xd1\x52\x1f\x69\x3e\x37\x9e\x1e\x84\x23\x7f\x77\x86\x39\x9d\x96\xbb\x2c\x36\xf8\xde\xd0\x16\x8c\x25\x65\x68\xfe\xb4\x20\x72\x86\x8f\x49\x77\x96\x6f\xe8\x2d\xe9\xae\x1f\x68\xaa\xbf\xf3\xcf\x71\x18\x14\x05\x83\x50\x88\x71\x14\x5d\x30\x4b\xe7\x99" },
  Kem { seed: b"\xdb\x4e\x1e\x5e\x26\x7b\xc2\x4b\xe1\xfc\xbb\x99\xc4\x55\x4b\x80\x65\xeb\xd2\x90\x63\xf5\x1e\x5f\x4a\x28\x1c\x54\x51\xd1\x3f\x09\x59\xf9\x1e\xab\xf4\x41\x18\x05\x53\x0e\xe6\x1e\x8c\x83\x7c\x63\xb8\x7e\xf6\xfa\x4b\x9f\x8e\x1a\x77\xdf\x1b\x83\x71\x99\x1a\xd5", ek: b"\x98\x56\x00\x3c\xb3\x5c\x1a\xb4\x73\x3b\x89\xa0\x40\x66\x57\xc6\x38\x0d\x31\xc8\x62\x8d\x60\x08\xe7\xd8\x87\x8f\x0a\xc7\x36\x8c\x1e\xc8\x37\x7b\x38\xb2\x19\xc4\xf1\x1c\xe4\xb9\x5a\x51\x64\x48\x5f\x29\xc7\xe8\x85\x9b\x27\x7c\x03\x42\x1b\x62\x32\x4a\x97\x4e\xcb\x1e\x1c\x65\x09\xca\x84\x06\xe9\xa3\x53\x06\x31\x5d\x6f\xc4\x43\xa0\x59\xc8\x1e\x6c\x61\x2d\x28\x29\x4f\xb1\x9c\x5f\x11\xbb\xe2\x3b\x9d\xbe\xd4\x2c\x6a\x5c\x93\xe9\xa0\x99\xb2\xe9\xae\x93\x26\xa9\xe4\xa3\xcb\x4e\x1a\x0e\xb1\xab\x93\x83\x27\x34\xab\xc3\x8d\xe2\xa7\x14\x07\x4a\x05\xb2\x66\x2e\x52\x31\x64\x6f\xe4\x1e\x48\x37\x53\x63\xd0\x12\x60\xea\x26\xfa\x1b\x5f\xd8\xa6\x1c\xfc\xc4\x9d\x66\xe9\x01\x62\x97\x08\x23\x77\x50\xea\xa7\x89\x89\x39\x16\xee\x8a\x27\xa2\xf5\x3d\x8b\x56\x92\x54\x53\x78\xbb\xeb\x8c\x98\x40\xa6\x66\x10\x40\xdc\x56\xbb\x97\x19\x22\xb9\xd5\x76\x3b\x92\x19\x55\x35\x74\x2d\x29\x92\x1a\x7a\x0e\x74\xf6\x4a\x50\xea\x5e\x72\x21\x89\xf3\xdc\x3f\x52\x73\x7d\x1d\xf6\xc9\x42\x84\xa2\x2f\x25\x99\x8e\x75\x0d\xa9\x56\x5a\xb9\x77\x7d\x41\x00\xa2\xaf\xab\x7d\xf6\x20\x7d\xb2\x10\x14\x2f\x92\x78\xf3\xb5\xb2\xf1\xa2\x11\xd8\xa6\x96\xa5\x2a\xc5\x2c\x04\xcb\x67\x74\x36\x00\xd3\x07\xa4\x41\x6c\x21\x77\x9d\x8a\xe0\x82\x25\x85\xc4\x51\x4b\x4a\xfc\xe0\x37\x0d\x34\x56\x40\xe3\x8c\x57\xe0\x19\x9d\x27\x81\xe5\x98\x3f\x99\xd2\x1a\x98\x16\x61\x21\xc4\x1b\x82\xd3\x1f\x7a\xca\x8f\x2e\x59\x45\x6e\x95\xb3\x0b\xe9\xc6\xc4\x43\xb6\x9e\x19\x7c\x14\xc4\x6e\x10\x28\xcd\x1f\xec\x8f\xbb\xf7\x2a\x88\x53\x6f\x2a\x31\x80\x77\x17\x15\x30\xe3\x79\x17\xc1\x14\x1b\xd5\x46\x38\x57\x0b\x7d\x08\x11\x41\x59\x5e\xa9\x8b\x7f\x78\x32\x82\x2b\x1c\x33\x09\x57\x98\x37\x02\x66\xb6\x3b\x7a\x75\x51\x01\x6d\x42\x03\x77\xa0\x2a\xa1\xf0\x54\x8e\xc6\xb6\x0e\xe7\x18\xcb\xb8\x05\x42\x66\x15\xe6\x36\x52\x17\x99\x13\xf0\xd4\x70\xdc\x44\x8e\x65\xa1\xb5\x9f\x41\x25\x83\x9b\x0e\xc1\x37\x71\x74\xd5\x32\x52\x72\x7b\xf8\x76\x0f\xdf\x45\xcf\xd3\x31\x34\x6b\x63\x53\xbe\x1b\x62\x5d\xcc\x0d\x66\x65\x03\x26\xf3\x33\x29\xd7\x5b\x9d\xab\xbe\xae\x4c\x6e\xd6\xd1\x39\xb2\x46\x3f\x1f\x98\xb0\x31\x09\x31\x20\x2c\x08\xd5\xd3\xc5\xda\x11\x8b\xd3\xb9\x90\x72\x23\x7b\xf1\xe3\x72\x90\xf6\x93\x24\xfc\x67\xc9\x74\x63\xc8\xa4\x1b\x9b\x1c\x8f\xcf\xfc\xc9\xf1\x8a\x27\x7b\xfc\x8e\xf4\xb4\x99\x26\xb6\x04\x6a\x83\x71\x4e\x79\x3d\xf2\xe8\x9c\x97\xd3\xb4\x6c\x77\x98\x2e\x45\x1b\x23\xa2\xc0\x0c\xcc\x61\x79\x08\x0f\x4c\xa5\xba\x7e\x83\x47\x7d\xf5\xb3\x2d\x17\x6f\x89\x68\xc5\xe7\xa9\x9d\x1d\x65\xaf\x3c\xe2\x34\x67\xb8\x47\xf6\x08\x98\x0a\xf5\xc0\xaa\xd5\x3a\x99\x4b\xb1\x11\x18\xc3\x19\x11\x0f\x43\x06\x37\x7a\x30\x05\xca\x2c\x49\xb9\x29\x4e\x67\x4b\x60\xc7\xba\x33\x59\xc6\xa1\x98\x78\xc0\x76\xb3\xa3\xec\xe7\xa7\x20\xf6\x0e\x4e\x49\x92\x15\x39\x8f\xf4\x51\x66\x30\x01\xa9\x5e\x76\xc1\x7c\x07\x37\x3d\x83\x38\x3f\x4a\x67\x85\x46\x5c\x02\xd4\xc1\xdb\xa5\xb1\xc9\x09\x8e\xa5\xba\x2c\x91\x22\x8f\xf1\x75\x3f\xca\x27\x13\x35\xb2\x29\xef\x18\x8f\x6b\xa7\x43\x0f\xba\x4f\x59\x7b\xcd\x12\xda\x62\x70\x47\x9e\x87\xf9\x50\xd5\x44\x21\x7a\xe3\x8a\x21\xe6\x0a\xdb\xf7\x79\x80\x91\x00\x76\xf3\x3f\x38\xd1\x97\xba\xe8\xb1\x7f\x07\x61\x20\x04\x98\xc8\xc2\x8a\xe3\x6b\x27\xb4\xb3\x03\x17\x18\x2f\x42\x95\x93\x13\x72\x30\xa3\xc7\x49\xef\xcc\x31\xee\x15\xac\xe9\x24\xa5\x0a\xfc\xce\x83\xa1\x43\x28\x17\xc6\xfb\xd9\x54\xef\x59\x2f\x1a\x16\x48\xe0\x26\xa0\x2c\xc9\x71\x3e\x63\x76\x47\x29\x24\x75\x23\xc0\x43\xc3\x34\x9f\x01\xa7\xd3\xb0\xb6\x0e\x34\x9c\x61\xa8\x72\x1b\xe5\x15\x16\x14\x0a\x65\x80\x3f\x12\xf0\x96\xc2\xbb\x04\x06\xd0\x48\xf4\xfc\x27\xab\x63\x45\x6d\xa5\xcf\xa8\xe8\xa5\x3d\xe1\x6a\xc0\x36\xa8\x47\x64\x7d\xb3\x39\x13\xec\xd3\xa1\xe9\xaa\xb1\x59\xc7\x33\xd2\x52\x44\x04\xe9\xc1\x04\x04\x7c\x21\x63\x21\x96\x1a\x4a\xd1\xc1\xa3\x2f\x56\x6f\x38\x06\xa5\x95\x48\x31\x17\x92\x91\x4a\x19\x94\x6f\x08\x51\xef\xfc\x81\xa7\x2b\x2c\x07\xe1\xa1\xc9\x37\xa9\x91\x81\x26\xd8\xda\x7e\x1f\xb9\xb8\xc9\x1c\x86\xb6\x44\x59\x4d\x5c\x36\x2f\xe9\x26\x54\x00\x2f\xb9\x94\x3d\x06\x38\x31\x47\x63\x93\x79\x05\x30\x81\x43\x35\x4b\x61\x22\x41\x4a\x40\x03\x4a\x63\x01\x70\xa5\xea\xbc\x3e\x23\xb3\x6b\xd3\x12\x2e\xf9\xc7\xb4\x03\x49\x64\x9f\x3b\x8b\xb3\xf5\x27\x8a\xd4\x9f\x50\xa8\x1e\x81\x3a\x24\x36\x54\x84\xe2\x5a\x40\x02\xa1\xa4\xff\x61\x42\x82\xb4\x01\x74\xf9\x4c\x45\x0b\x59\xda\x93\x25\xb1\x95\x00\x99\x79\x9a\xe2\x05\x8d\x86\x0a\x8c\x41\x7b\x86\xb3\xc0\x29\x50\xa6\x0c\xe7\xf1\x46\x76\x16\xb4\x29\xc1\x36\xa3\x34\x62\xab\x57\xca\x98\x79\x14\x5f\x93\x7d\x0f\xc0\xc3\x18\x76\x4f\x60\xbc\x32\x9d\x99\x19\x71\xd4\x87\xbe\xe8\x2f\x19\x31\x2f\x6b\x65\x66\x86\xe9\x3d\x55\x2c\x69\xc4\x44\x28\x96\x23\x2b\xc0\x94\x5c\x63\x8a\x0f\x04\xc7\x49\xbb\xdb\xa4\xbf\x71\x46\xa4\x8a\x01\x7c\xf4\x8c\x8a\xb0\x22\xd4\x73\x0a\xb2\xa6\x4e\x25\xd3\x62\x90\xb9\x28\xe9\x85\x0c\x22\xa3\xed\x44\x17\x89\xc7\x6e\x2d\x8f\x8a\xe5\xc7\x65\x08\xfb\xa3\x81\x79\x74\xeb\x5e\xd0", dk: b"\x05\x43\x73\x4d\xb2\x75\x01\x25\xcd\xaa\xd0\x6c\x65\xe6\xb4\x30\x05\x9a\xd8\x64\xa0\x21\x1c\x6d\x0e\xec\x0d\xc4\xe5\x2b\xf0\x6c\x17\xa2\x44\x90\x62\x58\xa5\xcc\xbc\x3b\xf5\x83\x72\xff\xa7\x40\x60\x27\x03\x07\x42\x70\x22\xa8\x36\x97\xe3\x36\xbf\x03\x5d\xd1\x74\xc5\xe7\xe5\x5c\xb9\xe3\x4b\xb8\x02\x15\x35\x04\x20\xfc\x42\x12\xf7\x50\x0a\x48\x98\x9e\x9c\x95\x21\xc4\x43\x30\x7c\xa0\x09\xac\x1b\x4c\x3a\x69\x71\x49\x56\x57\xa7\x55\x7a\xc3\x31\x75\xb0\x61\xc6\x92\x80\x2b\x94\x96\xa9\x5a\x07\x47\xae\x3c\xb5\x41\x6b\xb7\x07\x11\xad\xc4\xa5\x24\x22\x54\xbc\x91\x0c\x9d\x04\x4b\x0e\xa3\x08\x18\x6f\x77\x10\x9e\x94\x94\x92\x31\x24\xe5\x2c\x8b\xc8\x97\xa3\x06\x83\xbf\x4f\xc8\xb1\x06\xb5\x57\xbc\x28\xa2\x16\x5b\x41\xea\xc1\x16\x7a\x45\x67\x15\x34\xad\xd2\x76\x02\xf9\x13\x63\x17\xbb\x98\xd8\x61\x05\x35\xf6\x51\xd4\xe2\xa1\x96\x05\x63\xbd\xd0\x73\xbf\x00\x47\xe6\xf0\x38\x0e\x00\x89\xd8\x73\xc7\x77\x51\x67\x7c\x58\xa1\x67\x92\x53\x89\x64\xb0\x7c\xc5\xa5\x28\xe4\x7f\xc2\xda\x73\x18\x5b\x82\xf4\x8b\x82\xad\x39\x9b\x58\x3c\x8a\x6a\xec\x6b\xc5\xab\x22\xa5\xe0\x63\xfd\x67\x61\x1a\x66\x7c\x06\xf9\x3a\x42\x00\x01\x8a\xa8\xb4\xd5\x73\x92\xe7\xe1\xc7\x0e\xf9\x9a\x72\xea\x19\xec\x2b\x5d\x57\x8b\x37\x3f\xe8\x66\xba\x05\x85\x3d\x30\x73\x09\x99\x64\x03\x4b\xcf\x2a\xfb\x7b\x12\x11\x68\xc1\xa1\x1c\x30\xaa\x20\xb0\x27\x8f\x8b\x4a\x9f\x09\xb4\x75\xe3\x22\x86\x3b\x44\x4a\x63\x79\x84\x26\xf5\x61\x83\xc7\x53\xfb\x6c\x25\x02\x49\x44\x51\xc1\x0c\xb1\x92\x03\xf3\x94\x13\x8a\xf4\x26\x51\xcc\x56\xbb\x9b\x55\x77\x5b\x55\x35\x82\x8d\xc7\x0a\x9b\xfb\x43\xbf\xdb\xb3\x9f\x7a\x85\x03\x33\xf7\x61\x5c\x04\x6b\x38\x6a\x7b\x14\x18\x5a\xe6\x11\x0f\xb1\x25\x13\x59\x7c\x00\xe5\xf0\xba\x17\x61\x9f\x1b\x3c\xb1\xfa\xd2\xcc\xa7\xb4\x36\x2f\x3b\xa8\x8a\x7a\x67\xbf\x95\x12\x6f\x0a\x15\xc7\x83\x4c\xf3\x6b\x99\xad\x13\x9f\x78\xf2\xca\xac\x26\x4a\xcc\xe6\x48\x64\xaa\x14\x1e\x54\x0a\xc0\x90\xcb\xef\x42\x00\xb7\xd9\x15\x2f\xd0\x73\x24\x7a\x39\xde\xc2\x22\xfd\x85\x1f\x72\x48\x65\x69\x55\x56\xca\x63\x52\x1b\x88\x36\xfe\x5c\x16\xee\x29\x53\x73\xfb\x34\x27\x67\x37\xa3\x51\x7f\x7f\x14\x16\xb7\x4c\x4f\xb3\x9a\x3e\x2b\x34\xc5\xe3\x44\x15\x38\x86\x9d\x46\x6b\xac\xd7\x88\xc4\xb5\x33\x6e\x7e\xf6\xbe\xfb\xe2\xb8\x5f\x81\x83\x8b\xf3\x78\x5e\x84\x58\xf0\x9b\x60\x90\x60\x8e\x69\x38\x7f\x4d\x48\x76\x5e\x92\x5d\x21\x08\x3b\x91\xa8\x62\x43\xcc\x01\x41\xe3\x5e\x63\xf4\x04\xc2\x3a\x3f\xc6\x30\xa8\xef\x6a\x84\xb1\xbc\x49\x5c\x15\xcc\x4b\x00\x04\x6f\x48\x55\x7a\x5b\x8e\x7b\x92\x39\xab\xec\x5d\xbe\xb0\x91\x38\x55\x29\xf8\xab\x61\xbc\x2b\x35\xe8\x27\x8d\xc4\x04\x7f\xac\xaa\x3a\xfb\xc6\x60\x20\xa3\xa3\x54\x2a\x96\x0c\x86\x3a\x87\x4c\x29\xc1\xa4\x7a\x8c\x85\x8b\xd3\x76\x3f\xf4\x08\x6a\xcb\xe8\xca\xc4\x79\x2c\xb0\xa0\xbc\x58\x00\x4b\x2f\x26\x52\x99\x7c\x66\x20\x9c\xc2\x08\x2a\x40\x50\xac\xc3\x9d\x51\x6e\x13\x97\x12\x4f\x34\x55\x4b\xe6\xac\x0f\xcc\x41\xea\xb7\x91\x90\x24\xa3\xe9\x0c\x24\x40\x53\x1b\x5a\xbb\x45\x27\x35\xb5\x49\xb9\x62\xa1\x4c\x8b\x7f\x94\x6d\xba\xa8\x76\xf2\xf3\x0e\x77\xf0\x63\x65\x51\x5e\x53\x4c\x2a\x1c\xc5\x2b\xa8\x0b\x09\x11\xb3\xa2\x31\x71\x84\x46\xe6\x28\x85\x2a\x00\x2b\x64\x61\x35\x09\x20\x96\x5a\xb6\xc9\x21\x98\xd9\xb1\x78\x94\x95\xca\x11\xc0\xb8\x2f\x09\x22\x12\xf8\x9c\x3d\xb3\xba\x6f\x84\x4f\xc3\x5a\x63\xbb\x41\xab\x83\x50\x39\x51\x27\x5d\xe5\x64\x34\x5e\x2a\x9c\x53\x69\x06\xc1\x57\xa6\x9b\xbc\x0e\xe4\xf3\x12\xe0\x94\x1d\xaa\xac\x30\xa9\x17\x6a\x91\xd1\xc7\x00\xec\xcd\x14\x57\x57\x48\x10\xcf\x66\x75\xcb\xb3\x01\x02\xd3\x18\xc7\x87\x12\x86\x17\x0a\xc6\xcd\xe0\x25\x8e\xbc\xb9\x32\xb9\x0f\xe7\x47\x1d\x80\xb1\x7a\x28\xb5\x3d\xbb\x4b\x7b\xc1\x45\x67\xff\xe0\x24\x8c\x59\x2d\x21\x40\x00\x8f\xec\x33\x3f\x25\x85\x8f\x7c\x60\xef\x77\x4c\xff\x83\x3a\x10\x79\x0e\x4e\xfa\x66\x5f\x56\x09\xe2\x82\xb9\xf6\x15\x74\x20\xa6\x9e\x4c\x75\x0f\x74\x83\xbf\x2b\xc6\x9d\x89\x41\x66\x76\xcc\x70\x10\xd9\x87\x8a\x78\xa5\x66\x66\x74\x72\x57\x09\x4c\xa0\x63\x1a\x6c\x50\x15\x6a\xab\xee\x08\xc5\xd5\x25\x3f\xa9\x84\x63\xf9\x4a\x6b\xcf\x00\x09\x2f\x1a\x22\xb6\xa3\x87\x28\xf2\xc3\xd1\xb7\xc4\xce\x88\x3f\x9e\xa2\x4a\x65\xe8\x5f\x2e\x0c\xb0\x76\xe0\xc8\x17\xb1\xbf\xef\x90\x97\x51\x16\xca\xe8\x03\x43\xd4\x4c\x4c\x95\xf7\x3e\x0d\x40\x2f\xfe\xe3\x45\xbf\x85\xb7\x99\x8a\x4c\x83\xd8\x30\x5c\xe1\x6d\xc8\x24\x65\xb3\x90\x50\x1f\xc6\xa1\x30\x80\xb3\x23\xf2\x97\x00\xa8\xc7\x4c\xe4\x05\x79\x2a\x77\xeb\x12\x08\x1d\xfa\x4b\xf1\x09\x7f\x45\x78\xa3\xf8\xec\xa1\xc2\xa1\xa5\x39\x79\x3a\x08\xb7\x1a\xc4\x73\x5d\x67\x6c\xad\x1b\x48\x0a\x7f\x10\x77\x68\x70\xc3\x2e\x39\x22\x06\xb5\x65\x90\x1a\x49\xbb\x14\x8a\x22\x95\x09\x06\x32\xa3\x58\xdc\xc7\xb6\x1c\x1d\xeb\x79\x72\xb4\x14\x9f\x25\x03\xc2\x1d\xd3\xb0\xb0\x97\x4c\xc5\x62\x21\x41\x31\x8e\x31\x54\x65\x98\x56\x00\x3c\xb3\x5c\x1a\xb4\x73\x3b\x89\xa0\x40\x66\x57\xc6\x38\x0d\x31\xc8\x62\x8d\x60\x08\xe7\xd8\x87\x8f\x0a\xc7\x36\x8c\x1e\xc8\x37\x7b\x38\xb2\x19\xc4\xf1\x1c\xe4\xb9\x5a\x51\x64\x48\x5f\x29\xc7\xe8\x85\x9b\x27\x7c\x03\x42\x1b\x62\x32\x4a\x97\x4e\xcb\x1e\x1c\x65\x09\xca\x84\x06\xe9\xa3\x53\x06\x31\x5d\x6f\xc4\x43\xa0\x59\xc8\x1e\x6c\x61\x2d\x28\x29\x4f\xb1\x9c\x5f\x11\xbb\xe2\x3b\x9d\xbe\xd4\x2c\x6a\x5c\x93\xe9\xa0\x99\xb2\xe9\xae\x93\x26\xa9\xe4\xa3\xcb\x4e\x1a\x0e\xb1\xab\x93\x83\x27\x34\xab\xc3\x8d\xe2\xa7\x14\x07\x4a\x05\xb2\x66\x2e\x52\x31\x64\x6f\xe4\x1e\x48\x37\x53\x63\xd0\x12\x60\xea\x26\xfa\x1b\x5f\xd8\xa6\x1c\xfc\xc4\x9d\x66\xe9\x01\x62\x97\x08\x23\x77\x50\xea\xa7\x89\x89\x39\x16\xee\x8a\x27\xa2\xf5\x3d\x8b\x56\x92\x54\x53\x78\xbb\xeb\x8c\x98\x40\xa6\x66\x10\x40\xdc\x56\xbb\x97\x19\x22\xb9\xd5\x76\x3b\x92\x19\x55\x35\x74\x2d\x29\x92\x1a\x7a\x0e\x74\xf6\x4a\x50\xea\x5e\x72\x21\x89\xf3\xdc\x3f\x52\x73\x7d\x1d\xf6\xc9\x42\x84\xa2\x2f\x25\x99\x8e\x75\x0d\xa9\x56\x5a\xb9\x77\x7d\x41\x00\xa2\xaf\xab\x7d\xf6\x20\x7d\xb2\x10\x14\x2f\x92\x78\xf3\xb5\xb2\xf1\xa2\x11\xd8\xa6\x96\xa5\x2a\xc5\x2c\x04\xcb\x67\x74\x36\x00\xd3\x07\xa4\x41\x6c\x21\x77\x9d\x8a\xe0\x82\x25\x85\xc4\x51\x4b\x4a\xfc\xe0\x37\x0d\x34\x56\x40\xe3\x8c\x57\xe0\x19\x9d\x27\x81\xe5\x98\x3f\x99\xd2\x1a\x98\x16\x61\x21\xc4\x1b\x82\xd3\x1f\x7a\xca\x8f\x2e\x59\x45\x6e\x95\xb3\x0b\xe9\xc6\xc4\x43\xb6\x9e\x19\x7c\x14\xc4\x6e\x10\x28\xcd\x1f\xec\x8f\xbb\xf7\x2a\x88\x53\x6f\x2a\x31\x80\x77\x17\x15\x30\xe3\x79\x17\xc1\x14\x1b\xd5\x46\x38\x57\x0b\x7d\x08\x11\x41\x59\x5e\xa9\x8b\x7f\x78\x32\x82\x2b\x1c\x33\x09\x57\x98\x37\x02\x66\xb6\x3b\x7a\x75\x51\x01\x6d\x42\x03\x77\xa0\x2a\xa1\xf0\x54\x8e\xc6\xb6\x0e\xe7\x18\xcb\xb8\x05\x42\x66\x15\xe6\x36\x52\x17\x99\x13\xf0\xd4\x70\xdc\x44\x8e\x65\xa1\xb5\x9f\x41\x25\x83\x9b\x0e\xc1\x37\x71\x74\xd5\x32\x52\x72\x7b\xf8\x76\x0f\xdf\x45\xcf\xd3\x31\x34\x6b\x63\x53\xbe\x1b\x62\x5d\xcc\x0d\x66\x65\x03\x26\xf3\x33\x29\xd7\x5b\x9d\xab\xbe\xae\x4c\x6e\xd6\xd1\x39\xb2\x46\x3f\x1f\x98\xb0\x31\x09\x31\x20\x2c\x08\xd5\xd3\xc5\xda\x11\x8b\xd3\xb9\x90\x72\x23\x7b\xf1\xe3\x72\x90\xf6\x93\x24\xfc\x67\xc9\x74\x63\xc8\xa4\x1b\x9b\x1c\x8f\xcf\xfc\xc9\xf1\x8a\x27\x7b\xfc\x8e\xf4\xb4\x99\x26\xb6\x04\x6a\x83\x71\x4e\x79\x3d\xf2\xe8\x9c\x97\xd3\xb4\x6c\x77\x98\x2e\x45\x1b\x23\xa2\xc0\x0c\xcc\x61\x79\x08\x0f\x4c\xa5\xba\x7e\x83\x47\x7d\xf5\xb3\x2d\x17\x6f\x89\x68\xc5\xe7\xa9\x9d\x1d\x65\xaf\x3c\xe2\x34\x67\xb8\x47\xf6\x08\x98\x0a\xf5\xc0\xaa\xd5\x3a\x99\x4b\xb1\x11\x18\xc3\x19\x11\x0f\x43\x06\x37\x7a\x30\x05\xca\x2c\x49\xb9\x29\x4e\x67\x4b\x60\xc7\xba\x33\x59\xc6\xa1\x98\x78\xc0\x76\xb3\xa3\xec\xe7\xa7\x20\xf6\x0e\x4e\x49\x92\x15\x39\x8f\xf4\x51\x66\x30\x01\xa9\x5e\x76\xc1\x7c\x07\x37\x3d\x83\x38\x3f\x4a\x67\x85\x46\x5c\x02\xd4\xc1\xdb\xa5\xb1\xc9\x09\x8e\xa5\xba\x2c\x91\x22\x8f\xf1\x75\x3f\xca\x27\x13\x35\xb2\x29\xef\x18\x8f\x6b\xa7\x43\x0f\xba\x4f\x59\x7b\xcd\x12\xda\x62\x70\x47\x9e\x87\xf9\x50\xd5\x44\x21\x7a\xe3\x8a\x21\xe6\x0a\xdb\xf7\x79\x80\x91\x00\x76\xf3\x3f\x38\xd1\x97\xba\xe8\xb1\x7f\x07\x61\x20\x04\x98\xc8\xc2\x8a\xe3\x6b\x27\xb4\xb3\x03\x17\x18\x2f\x42\x95\x93\x13\x72\x30\xa3\xc7\x49\xef\xcc\x31\xee\x15\xac\xe9\x24\xa5\x0a\xfc\xce\x83\xa1\x43\x28\x17\xc6\xfb\xd9\x54\xef\x59\x2f\x1a\x16\x48\xe0\x26\xa0\x2c\xc9\x71\x3e\x63\x76\x47\x29\x24\x75\x23\xc0\x43\xc3\x34\x9f\x01\xa7\xd3\xb0\xb6\x0e\x34\x9c\x61\xa8\x72\x1b\xe5\x15\x16\x14\x0a\x65\x80\x3f\x12\xf0\x96\xc2\xbb\x04\x06\xd0\x48\xf4\xfc\x27\xab\x63\x45\x6d\xa5\xcf\xa8\xe8\xa5\x3d\xe1\x6a\xc0\x36\xa8\x47\x64\x7d\xb3\x39\x13\xec\xd3\xa1\xe9\xaa\xb1\x59\xc7\x33\xd2\x52\x44\x04\xe9\xc1\x04\x04\x7c\x21\x63\x21\x96\x1a\x4a\xd1\xc1\xa3\x2f\x56\x6f\x38\x06\xa5\x95\x48\x31\x17\x92\x91\x4a\x19\x94\x6f\x08\x51\xef\xfc\x81\xa7\x2b\x2c\x07\xe1\xa1\xc9\x37\xa9\x91\x81\x26\xd8\xda\x7e\x1f\xb9\xb8\xc9\x1c\x86\xb6\x44\x59\x4d\x5c\x36\x2f\xe9\x26\x54\x00\x2f\xb9\x94\x3d\x06\x38\x31\x47\x63\x93\x79\x05\x30\x81\x43\x35\x4b\x61\x22\x41\x4a\x40\x03\x4a\x63\x01\x70\xa5\xea\xbc\x3e\x23\xb3\x6b\xd3\x12\x2e\xf9\xc7\xb4\x03\x49\x64\x9f\x3b\x8b\xb3\xf5\x27\x8a\xd4\x9f\x50\xa8\x1e\x81\x3a\x24\x36\x54\x84\xe2\x5a\x40\x02\xa1\xa4\xff\x61\x42\x82\xb4\x01\x74\xf9\x4c\x45\x0b\x59\xda\x93\x25\xb1\x95\x00\x99\x79\x9a\xe2\x05\x8d\x86\x0a\x8c\x41\x7b\x86\xb3\xc0\x29\x50\xa6\x0c\xe7\xf1\x46\x76\x16\xb4\x29\xc1\x36\xa3\x34\x62\xab\x57\xca\x98\x79\x14\x5f\x93\x7d\x0f\xc0\xc3\x18\x76\x4f\x60\xbc\x32\x9d\x99\x19\x71\xd4\x87\xbe\xe8\x2f\x19\x31\x2f\x6b\x65\x66\x86\xe9\x3d\x55\x2c\x69\xc4\x44\x28\x96\x23\x2b\xc0\x94\x5c\x63\x8a\x0f\x04\xc7\x49\xbb\xdb\xa4\xbf\x71\x46\xa4\x8a\x01\x7c\xf4\x8c\x8a\xb0\x22\xd4\x73\x0a\xb2\xa6\x4e\x25\xd3\x62\x90\xb9\x28\xe9\x85\x0c\x22\xa3\xed\x44\x17\x89\xc7\x6e\x2d\x8f\x8a\xe5\xc7\x65\x08\xfb\xa3\x81\x79\x74\xeb\x5e\xd0\xd8\xeb\x35\x7c\x05\x77\xe5\xb7\x8b\x9d\x75\x8b\x02\xf9\xca\x72\x20\x1c\x5a\x34\xc5\x1e\x75\xf1\xec\xf8\xd7\x9f\xca\x21\xf8\x7d\x59\xf9\x1e\xab\xf4\x41\x18\x05\x53\x0e\xe6\x1e\x8c\x83\x7c\x63\xb8\x7e\xf6\xfa\x4b\x9f\x8e\x1a\x77\xdf\x1b\x83\x71\x99\x1a\xd5", m: b"\x7d\xec\xcc\xbe\xc6\x08\x19\xfa\x64\xbc\x49\x04\x94\x1b\xda\x1a\xa0\x29\x2c\xb1\x09\x80\x28\xec\x63\x94\x28\x6d\x19\x33\x45\x6a", k: b"\xcd\x65\x46\x8c\xc6\xae\xaf\x7e\xa1\x13\x9e\x9a\xc8\xd6\xbd\x41\x53\x31\xcd\x7d\x3f\x1a\x55\x54\xe0\xde\x2c\xdd\x5d\x05\xa4\x2d", c: b"\x0e\x6c\x2b\x91\x3c\x23\x2b\x31\xa4\x18\x51\xe3\xc3\x88\x53\x4d\x91\x78\x65\x98\x76\x24\x56\x2d\x2f\x4b\xb6\xd6\xd2\x0c\x91\x82\xf0\xd9\x67\xc4\x8d\x7e\x5f\x35\x9e\xdb\x84\x51\x78\x49\x2d\xef\xad\x8a\xad\x19\x9f\x57\x2f\x17\x44\x08\xca\x4d\x0b\x26\x00\xfe\x5e\x45\x08\xf0\xaf\x61\x50\x61\x2b\x84\xa4\xe1\xd5\x84\x03\x80\x9c\x2c\xf4\xd9\x49\xf8\xe5\xda\x3d\xf0\x94\xa9\x0f\x35\xb3\x5c\xbe\x8e\x1d\x3b\x58\x30\x48\x24\xde\x73\xfd\xca\xf0\x6b\xba\xb7\x7a\xfa\xa9\x6d\x6c\xd7\x01\xc5\xb3\xc6\xe3\xf9\x5a\xb6\xe3\xe0\x0c\xa0\x39\xc8\x2a\x6a\xac\x68\x55\x72\x68\x80\x74\x8e\x0c\x99\xea\xe1\x86\x38\x69\x4b\xe1\xb0\x34\x34\xfb\x50\x9a\xd9\x28\x78\x9b\x72\x0f\xe2\x7c\x73\xa7\x8b\x56\xb7\xb2\xf3\xfe\xd5\x63\xff\x02\xe4\xf8\xa0\x92\xb5\xab\x1b\xed\x7e\xce\x3a\x3b\xc6\x45\x4f\x95\xfb\xa5\x27\xa8\x7f\xf9\x7b\x96\x30\xea\x9e\x32\x40\x54\x5c\x8f\x39\x09\xe0\x66\xdc\x70\x25\xea\x2a\xa1\x2e\x68\x57\xd0\x2c\xba\xf9\x98\x0c\xec\x3a\x63\xec\xcb\x87\xb6\x95\x4e\x22\x1d\xeb\x41\xb7\xda\x95\xe1\x27\xb6\xbc\xff\xc5\xd0\xdf\x6e\x44\x34\x79\xa5\x94\x1d\x1c\xd6\xfa\xe6\xc7\xcb\x26\xf7\x72\x53\x29\x10\x35\x3a\x5a\x3a\x1e\x6b\x2e\xfa\xd5\x30\x49\x45\x7d\x84\xe4\x55\x60\xb2\x07\xe4\xec\xeb\xa3\x02\x3b\x4d\xae\xea\x6a\x7a\x6f\xca\xc8\x76\x9d\x27\x80\xe2\xf7\xa2\xe7\x5e\x50\x51\xb3\x3f\xd6\x57\x2f\x6d\x94\x66\xce\x22\x60\x0b\xa9\x12\xe4\xdd\x77\x81\xb5\x9d\x54\x26\x6d\x66\xef\xdb\x9b\xb3\xfb\x14\x85\xe9\xbd\xe2\x6e\x36\x30\xd5\x4b\x37\xc5\xa9\x86\xe3\xd7\x2c\x8e\x8d\x1e\x4b\xf1\x9d\x5b\xef\xba\x80\x78\x86\x03\x00\x48\x90\x98\xaf\x76\x74\x5f\xe0\xb4\x5a\x6c\xf9\x7c\xa9\xf2\x50\xf7\x24\x31\xce\x54\x81\x76\x76\x36\x0a\x8f\xc8\x5b\x54\x7d\xf1\x61\xe4\xeb\xe8\x3a\xf8\x94\x07\x7b\x39\xf5\x68\x2f\xf0\xa5\x88\x35\x3b\x6b\xd3\xef\xdf\xe4\x36\x4d\xce\xb4\x39\x32\x3a\x7b\x13\x68\x7d\x15\x63\x31\x40\x74\xd3\x30\x45\xf8\x3b\x0b\xef\x39\x07\xc1\x1e\xd7\xec\xaf\x8d\xaf\x9a\x54\x3e\x31\xee\x6e\x82\x2a\x68\xbe\xc0\x4b\x63\xd3\x86\x14\x57\xa9\x7b\x6a\x3b\x72\x40\xb3\xff\xdf\x07\xcc\x49\xe6\x81\xa2\x0e\x49\x39\x73\x85\x14\x76\x3c\x3c\x9e\xf6\x3f\x80\xd6\x7c\xbe\xf9\x5a\x75\xb2\x83\x2e\x42\xa2\x38\x51\xa8\x22\x23\x8c\x7b\x30\x20\x43\xc6\xe4\x3b\x36\xf2\x44\xd7\x41\x2b\xfb\xcf\x6b\x6a\x09\xf6\xef\x01\x78\xb9\x4f\xdb\x7b\xcd\x3c\x8d\x9d\x9c\x2f\xbf\x4e\xa7\x73\x46\xa9\xf1\x10\xde\x46\x25\x54\x19\x07\xa5\xe1\x59\xd7\x86\x45\x9b\xe6\x41\x8d\xf2\xb9\x3d\x63\x85\xfc\xf5\xc7\xed\x47\x64\x7f\x1b\xd1\xb2\x65\xac\x0f\x1f\x20\xcc\xa6\x4c\x45\xa4\x62\xce\x2b\xcf\x4d\xae\x77\x1b\x23\x2a\x3b\x03\x43\x62\x10\xc2\x0f\xbc\xe0\xc7\x55\xa7\xdb\xac\xc2\xa5\x70\xe9\x8f\x62\x5a\xe9\x16\x9f\x74\x4a\x5c\xf0\x6b\x4e\xff\xf3\x93\xa4\x07\xdc\x9d\x02\x81\xac\xa9\xf6\x0b\x59\x53\x20\x0b\xe6\x45\x06\x11\xb0\x35\xe6\xdd\xd1\x5d\x42\x83\xc7\x48\xdf\x77\x46\xb6\xdf\xca\x7f\xd5\xab\x9f\xc9\x04\xe1\xe8\x7f\x56\x71\x9f\xb0\x05\xce\x8f\xbd\xd3\x64\x2f\x41\x25\x20\x24\x35\xb4\xdc\x5c\x55\x3f\x23\x7f\xf2\x27\x4b\x9f\xb7\x37\xb2\xbc\xbb\xcf\x03\xe3\xe8\xdf\x88\x43\x7b\x84\xab\xa7\x27\x3d\xa3\x01\x61\xcd\x08\x39\x98\x1d\x6d\x6c\x3a\x4b\x23\x1e\x4e\x5f\x42\xac\x60\xa9\x76\x15\xae\x3f\xb0\x64\x65\xf4\xd4\x8c\x52\x95\x57\x3d\x8d\x9b\x57\xd1\xcd\xcb\x43\x2a\xc0\x1c\x71\x29\x05\xbb\x16\x59\x5c\x44\x4c\xad\x53\x5e\x54\x90\x37\xaf\xf4\x95\x06\x90\xf7\x58\x38\x32\x01\x16\x96\x9b\x22\x66\x89\x16\x2d\xeb\x27\x9b\x8a\xc9\x0c\x00\x14\x88\x50\x67\x27\xba\x78\x33\x70\xa9\xdd\xfe\x51\x94\xfe\x9c\x57\x5d\xd4\x40\xca\x73\x9b\xb9\xde\x6a\x0e\x99\x9c\x56\x92\x2a\x97\x6b\xb7\xc7\x17\xe1\xa8\x21\x5f\x47\xf0\x7c\x58\xd4\x65\x55\x95\x81\x6f\x5e\xb0\xf9\x1a\x85\xd9\xc4\x8e\x8e\x2d\x21\x2a\x8f\xdd\x76\x70\x69\x3e\x02\xbe\x52\x5c\x2f\x73\xe8\x84\x55\x11\xfe\x9e\xbe\x27\x18\xa6\x59\x40\xa9\xb2\x65\x03\x2b\x28\x1b\x8f\xb6\x3a\x25\x8a\x3f\x82\x29\x90\xa0\xc2\xab\xf7\xa9\xf1\xaf\x81\x74\x14\x6a\x44\xf9\x70\x29\xd0\x41\xd8\xc9\x85\x24\x50\x60\xaa\x01\x84\x7c\xdb\xc2\xb0\x49\xbc\x47\x80\xe9\x5f\x57\xb8\xc3\xf9\xa2\x44\x92\x52\x14\xa7\x13\x46\x18\x5f\xed\x0e\xb3\xb2\x56\xdc\x99\x01\x30\xbe\xa7\xd8\x76\x87\xf4\x6d\x37\x88\x37\xa1\xfc\x09\x1a\xd1\xdb\x72\x81\xcf\x4b\xc5\xa7\xb0\x62\x89\x69\x3f\xba\x38\x14\x7d\xdd\xd0\xbd\x93\x31\xf0\x52\xfd\xc9\x4d\x64\x2e\x56\x75\x40\x55\x4b\x14\x1a\x2e\x3e\x24\x4f\x28\x70\x45\x25\xf5\x04\x47\xb2\x65\xec\xf8\xf9\x92\x48\x47\xdc\x8c\x77\x26\xf3\xe8\x3b\x6c\x9e\x27\x66\xdd\x1f\xc2\xd3\xe9\x5c\xb0\x5b\x9c\x8a\xd5\x69\xcb\x92\xa5\xbe\x5b\x6c\x6d\xe6\x2e\x13\x20\xbf\x04\xca" },
  Kem { seed: b"\x2b\xae\xb8\xc8\xfa\xa9\xa2\xfc\x34\xf2\x29\x54\xff\x07\xda\x1b\x7d\x07\xad\xdb\xf5\xcc\xb4\xe2\x9d\xf6\x91\x57\x5a\x25\x71\x4b\x6c\x7e\xa5\x0f\xad\x30\x09\x82\xd0\x30\xa7\x2a\x8c\xe6\xef\x10\x75\xda\x4c\xf0\x35\x1c\x4e\x4d\x96\x0d\x88\x0c\x5f\xaf\x96\x80", ek: b"\xd9\x50\x94\xfc\x47\x79\xb9\x07\x2d\x1a\x9c\x96\xca\x50\x3e\xc4\x08\x92\xee\x16\xc9\x12\x87\x09\x8f\x0a\x67\xe2\x27\xa0\x96\x13\x96\xcb\xaa\x2d\x76\xe2\x3d\x9d\x17\x39\x92\xb4\x08\xcc\x72\x85\x85\xa7\x73\x35\x36\x63\xd3\xba\xc3\xe9\xf1\xb5\xef\x99\x4d\x81\x57\x05\xb0\x54\x66\x9f\x41\x3d\x65\x3a\x20\xbf\x0a\x11\x72\x23\x9c\xef\xc0\x12\xcf\x6a\x2d\x0b\x1b\x4d\x5f\x20\x8c\x4c\x89\x3b\x69\xe2\x3e\xfa\xf7\x12\x12\x73\x7b\x25\x31\x43\x82\xe6\x9f\x4c\x9b\x66\xbf\x77\xbf\xfc\xd8\x64\xdf\x17\x44\x02\xd4\x78\x43\xba\x88\x51\x0a\x87\x70\xd0\x0d\x35\xe6\xba\xea\xf9\x3e\x34\x2c\xb6\xb9\xc4\x95\x40\x97\x30\xf1\x19\x36\xd7\xf8\x3b\x10\x1c\x8c\x29\xd9\x8d\xc2\x30\x65\xe3\x46\x16\xb3\xc7\xaa\x05\xe4\x38\xf4\xe4\x69\xcd\x57\x28\xd4\x09\xa5\x49\x28\x51\xf7\x67\xc9\xad\xd2\x6e\x5b\xa5\xbe\x9b\xaa\xb1\x38\x21\x01\xe3\x59\x68\x7e\xb6\x8c\xa1\x53\x31\xcd\xa0\x09\x34\x5a\x7a\x5d\xac\xa6\xed\x09\x8f\x46\x32\x38\x4c\x5a\xaa\x72\x83\x5a\xaf\x89\xcc\x66\x4b\xa0\x17\x8a\x07\xf3\x93\x34\x53\x64\x7b\x6d\xa5\x10\xd0\x79\x47\xd2\x33\xb7\xed\x66\x7e\xbb\xc5\x0f\xae\x18\x88\xeb\xd9\xc0\xc3\x3c\x22\xab\x04\xc5\xa2\x92\x68\xdb\x60\xae\xa0\xc3\xcd\xbd\xbb\x82\x56\x10\x6d\x2b\xc5\x81\x35\xa0\x42\x50\x18\xbd\x16\x10\x33\xf5\x53\x54\x2d\x22\xc2\xe1\xa4\x7e\x4a\x7c\x6d\x2d\xb2\x26\xb6\xd2\xaf\x32\xec\xba\xd0\x87\x00\x0d\xe3\x0d\x9a\xb3\x07\xc4\x81\x15\x4d\x07\xc4\xe2\x47\x1a\xeb\x2b\x8a\xf4\x22\x4f\x64\x42\x6a\xb4\xf1\xb6\xbf\x99\x27\x5d\xf4\x0d\x84\x4a\x08\x4e\x4c\x34\x3e\xb6\xc7\xa5\x2b\xb8\x98\xe0\x83\x44\x21\x77\x9e\x49\x61\xea\x5b\x4b\xa2\x60\x35\xd3\xe3\x56\x35\x38\x9e\xdc\xc0\x23\x97\x36\x0d\x40\x15\x00\x16\x73\x49\x3e\x22\xcd\x0b\xe9\x33\x4c\x70\x6e\x1f\x79\xb0\x3e\x38\xa2\x3f\xe4\x1b\x50\x22\x45\xfb\x04\x9d\xaf\x92\xa8\xbb\x93\x26\x04\x03\x73\x2a\xa6\x71\x8f\xc9\x90\xfe\x97\x8c\x25\x12\x28\x0a\x05\x1b\x8c\x68\xbf\x8f\xc9\x83\xec\x4a\x5d\x18\xdc\x22\xe9\x8c\x01\x7f\xa1\x97\xf5\xeb\x21\x1a\xb4\x64\x82\xd4\x1a\xf4\xb9\x5c\xea\x91\x68\xa5\x87\x28\xcc\xb8\x28\xc9\x12\x57\x90\xa7\xb3\x5c\x7c\x00\x68\x37\x34\x2f\x53\x8a\xae\x0b\x47\x32\xbc\x0f\x60\xe5\x23\x7f\xd7\xb2\xa3\xaa\x01\x69\xb9\x6b\x26\xc9\x42\xb4\x09\xb0\xeb\xd6\x2f\xaa\xb3\xc0\xd9\x68\x35\x48\x02\x56\x84\x60\x0b\x04\x7c\x4f\xa0\x32\x52\x03\x09\x41\x97\xc0\x93\x02\x4b\x20\xca\xb7\x5d\xd6\xa2\xa5\x42\x75\xce\xd9\x37\x4a\x41\xda\x89\xd9\xfa\x2f\x8e\x44\x6a\x1d\xf6\x13\x44\x05\x01\xe3\x6b\x3e\xc1\x3c\x60\x8c\xf3\x5a\x98\x73\x9c\xc5\x46\xc4\x02\x69\x7c\x1c\xc6\xb8\x79\x5a\x20\x13\xa6\x7a\xbc\xd3\x6e\xba\xc3\x8c\x0e\xb7\x85\x3c\xeb\x42\xb7\x10\x6a\x0d\xcc\x09\x72\x11\x9a\xf8\xfc\x55\xbe\x72\x24\x02\x39\xc5\x34\xe1\x6c\x3d\xaa\x85\xde\xb9\x14\x9a\x36\xbf\x72\x0a\xc5\x1f\xc9\xa8\x14\x6c\x1d\xd0\x09\xcd\x69\xeb\x00\x6c\x5a\x97\x02\x75\x17\xa3\x05\x02\xc7\x78\x7a\xe7\x0b\xa9\x0a\xb9\x5a\xb8\x89\xc1\xd2\x2b\x9b\xa2\x24\xa5\x30\x30\x95\x04\x53\xa3\x30\xb4\x00\xe0\x8b\x3e\xe5\x47\x2b\x49\xf5\x0f\x2e\xe9\x85\xd5\x05\xa0\x37\x6a\xcf\x72\x0a\xc2\xfe\xf0\x26\x07\x41\x83\xd1\xd3\x77\x7b\x83\xc5\x5e\xb6\x63\x17\x65\x26\xfb\x14\x90\x68\x53\xc5\xf6\x37\x57\x2a\x17\x52\x81\xa7\xa9\xb9\x56\xcf\x29\x91\x5e\x6a\x1c\x1d\x40\xb5\x95\x20\xc3\x6b\x3a\x58\x9d\x1e\xd4\x37\x41\x77\xb1\x0b\xd6\xb8\xd0\x89\x27\x53\xa8\x3d\x7d\x0c\x83\x83\x3a\x46\x81\xe2\x81\x87\x2b\x8d\x04\x40\x16\x1e\x68\x5c\xaf\x2b\xcb\xc4\x70\x97\xd1\x92\xcc\x38\x6c\x32\x5e\x94\xbe\x41\x4b\x1a\x23\x46\x41\xe5\x25\x2a\x2f\x44\xa6\x96\xc5\xc0\x6c\x23\x36\x6b\x93\xb8\x48\xa2\x86\xf2\x4b\x00\x8c\xb8\x97\xaa\xd3\x86\x87\x2b\x73\x04\x10\x92\x9b\x53\x3d\xd0\xdb\x6d\x6e\xa1\x10\x7b\xb3\x40\xf5\x28\x95\xfe\xc2\x17\x8b\x50\x30\xa9\xc4\xb3\x14\xf7\x9b\xb3\x65\x58\x97\x56\x99\xb2\xd3\xae\x16\x8b\x08\x06\xa3\x8a\x06\xfc\x6e\x33\xd0\x34\x34\x40\x65\x92\xd2\x33\x5c\xdb\x77\xb7\xb0\x30\x3a\x36\x7e\x9b\x64\x81\x6f\xdb\x2c\xd6\xd8\x85\xc1\x3a\x83\x41\x31\x21\x91\xf3\x3e\xc7\xe3\xa8\x67\xd8\x4a\xab\x23\xa7\x88\x0b\x18\x4b\x36\x6c\xa3\x51\x54\x8a\x60\x22\x9f\x01\x7e\x6e\xd9\x9a\x83\xb8\x61\xb7\x93\x72\x14\x34\x6a\xf5\x3c\x80\x61\x33\x2f\xd6\xd3\x38\xb0\x9b\x8b\x9d\xba\xb6\xc3\xda\x2d\xb5\x12\x52\xe9\xcc\x67\xec\x36\x50\xd1\x1a\xa9\x67\xc2\x16\x89\x58\x08\x9c\xbc\xb6\x28\xc4\x5f\x0d\x96\x59\x11\xb2\x93\x53\x94\x4a\xa2\xc7\x94\x6f\xf2\x05\xa4\x40\x78\x1b\xb4\x7e\x16\x40\x22\x28\x98\x0e\x5d\x8b\x30\xd1\xe7\x12\x23\x02\x8b\x8f\xd9\x7f\xdf\xa3\x78\xa6\xd1\x0e\x75\xb9\x80\x04\xe4\x76\x36\xe2\x8e\xe1\xe9\x85\x97\x91\x2c\x54\x21\x95\x40\x66\x44\x8f\x99\xa9\xff\xa1\x51\x9d\x18\xc0\xea\x49\x19\x99\xb7\xc3\x20\x78\x3c\xb5\x49\x66\x10\xa9\x88\xdd\x5c\x89\xf9\x23\x62\xbb\xd0\xc8\xcb\xa4\x5d\x65\xb7\x46\xa8\x2a\xa0\x8b\x43\xa2\x9c\x83\xce\xf1\x42\x74\x21\xd8\x88\x0e\x52\x17\xcd\x89\x57\x4a\xa5\x8e\x9a\x96\xa2\xbe\x9f\x56\x61\x1f\x4f\x9e\xa2\x2e\x35\xe9\x46\xec\xb0\x45\xba\x18\xa4\x77\x60\xf3\x82\x15\x01\x1d\x37\xec\xf8\x09", dk: b"\x8d\x29\x2d\xbc\xfa\x9e\x78\x4a\x7f\x2e\x52\x56\x1f\x83\x4a\xde\x65\xa1\x5a\x86\x9f\x64\x11\xa7\xed\x15\xb0\x3d\xb7\x60\xfa\xd2\x4a\x33\x06\x2f\x00\x4c\xac\x03\x9a\x2c\xb0\x16\x19\xbe\xe0\x9e\xa0\x22\x4b\x0e\x2b\x0d\xcc\x06\x0d\x2b\x15\x7f\x5e\x91\xc5\x45\x25\x41\xea\x8a\xbf\xd9\xe0\x91\x37\xd0\x29\xa5\x81\x85\x5c\xc5\x01\x40\xd6\xa6\xe1\x0c\x89\x72\x35\x22\xf8\x8b\xc0\x97\xb3\x11\xb2\xa4\x1f\x2c\x28\x69\xda\x5a\xbc\x7e\xc1\x44\x31\x65\x9b\xc6\x05\x83\xa9\x61\xc2\x74\x03\x96\x84\x85\x48\x62\xcb\x00\xed\x73\x37\xe8\xb3\x20\x52\xda\xad\x0e\x7a\x04\xb1\xcb\x78\x26\x7a\x1f\x19\xc6\x10\x83\x2c\xbd\xca\x6a\x31\xa4\xb6\xc2\xb6\xbb\x48\xde\xb0\x92\x52\x78\x44\xad\xa0\x38\xfa\xe5\x91\x98\x35\xa1\x6a\x15\xc1\xed\x55\xad\x98\x0b\xb3\x1f\x22\x92\xb1\x12\x32\x7d\xb8\xb1\x75\x51\x73\xb2\x93\x27\x0e\x6b\x3f\xca\x38\x18\x75\x8a\x57\x29\x2c\x9f\x74\xdb\x56\xdf\x32\x07\x7f\x72\x9c\xfd\x36\x50\xfc\xfb\xbd\x28\xc7\x28\xe9\xa2\x5a\x20\x66\x44\x1e\xd7\x78\xfe\x51\x42\x23\xec\xa3\x98\x61\x50\x7a\x05\x82\x82\x38\x91\x5e\x68\x43\xc3\x9b\x14\x32\x64\x78\xff\x34\x73\xd7\x82\x38\xc1\x58\xa6\x0b\x72\xa6\x4d\x26\xc5\xf8\x01\x02\x9d\x87\x1f\x7e\xbb\x68\x60\xfb\x9c\x1b\x06\xbb\xad\x76\x3e\x05\x8a\x26\x72\xe8\x7e\x35\x84\x06\x00\x66\xc0\xe4\x60\x4d\x9b\x75\xb9\x6b\x81\x82\x69\x86\x49\xeb\x35\x14\x4e\xb0\xbb\xa8\x33\xad\xc8\xd5\x13\x2c\x92\x27\x41\xb4\x20\x6b\x22\x07\xa6\x55\x4e\xcc\x38\x84\x70\x41\x51\x8d\x49\x0d\x4e\xd3\x46\x24\x3a\xbd\x6a\x26\xaf\xc2\xa1\x97\x5f\xa8\x9c\x85\xa8\x49\xd1\x38\x71\x27\xcb\xa7\x45\x17\x2c\x08\x03\x0e\xa1\x37\x63\x77\x86\x74\x0b\x7b\x19\x4f\x76\xaa\xb2\x56\x3c\x5d\xaa\x60\x33\x7b\x7c\x96\x80\x16\xe4\x43\x11\xaf\x21\x51\x7f\x46\xbb\x8c\x4b\x99\xb5\xa5\x6f\x01\xfb\x74\xe0\x52\xa1\x21\x69\xcd\x6f\x85\x6e\xd8\xf1\x07\xee\x3b\x98\xe5\x9c\x69\xc6\xd6\x0d\x60\x0b\x3d\x08\x02\x86\x31\x74\x11\x08\x06\x16\xf5\xd3\x06\x3e\xc5\xbe\x33\xe2\x1c\xc5\x1b\xb3\x01\x3b\x50\xbd\xc5\xa6\x6b\x71\xba\x2e\xd4\x30\x02\x44\x24\x48\xa3\x22\x01\xfc\xaa\x89\x23\x16\xc4\x9c\x76\x73\xa2\x4c\x19\x99\x6b\xff\xf9\xa5\x07\xcb\x83\x18\x82\x62\xfa\x50\x49\xff\x71\x83\xec\xe7\x1f\x04\x72\x31\x5d\x55\x42\x48\x24\xb0\xf0\xfc\xa1\xa9\x16\x2b\x78\x11\x05\xdd\x94\x74\xee\x90\x00\x3a\x4b\x3d\x86\xa8\x42\xef\xab\x23\xfe\xd9\xcb\x61\x33\x91\x9f\x01\x9b\xf7\x82\xb5\x87\xc5\x2d\x96\x79\x01\x96\xba\x28\xfd\xe4\x73\xf0\x77\xba\xf5\x60\xa5\xd5\x4a\x5f\x40\x78\xa8\xd5\xe6\x1b\x94\xd9\x2c\xec\x64\x28\xf3\x06\x8b\xd9\xb9\x75\x88\x0c\x80\x74\xb6\x3e\x73\x66\x88\x5b\xd5\x4e\x89\x15\x5f\xf7\x43\xb2\x93\xe2\x94\xfe\xa4\x36\xd5\xf6\x4d\x30\xb3\x84\x99\xa5\x9b\xa3\xf6\x35\xbe\x23\x28\x19\x15\x90\x96\x4a\x2c\xde\x16\x9e\xde\x8b\x33\xd5\xc9\x17\xd8\x63\xa9\xdc\x5c\x88\x3a\x81\x69\x3d\x74\x79\xc0\x89\x7e\x73\xd5\x5d\xa9\xd9\x5c\xe7\xc8\x61\x3e\xca\xc6\xcc\xa1\x71\x4a\xfc\x62\x81\x3b\x55\x73\xd7\x86\xcc\x0b\x94\x8b\x5a\x8b\x94\xfc\x4a\xf2\x2a\xa3\x04\x71\x03\x66\xc8\x34\x6a\x26\x4e\xac\x83\xbf\xc4\x4a\xbf\xd3\x90\x33\xf1\xa1\x22\x1f\x02\x4b\x73\x74\xc2\x12\xd4\x98\x4c\x66\x9d\x3d\x43\x87\x47\x7c\x22\xe3\x06\x17\x9e\xfb\x60\x05\x75\x13\xb3\x36\x35\xc5\x85\xc6\xb7\x73\xb7\xc8\xfa\x58\x4d\x39\x4b\x49\xa7\x38\x86\x58\x96\xbb\x54\x73\x74\x10\x78\x39\x0a\x2d\xe4\xeb\x93\xf3\x29\x92\x80\x32\x76\x5b\x3a\x6a\x96\xdb\xb1\x3f\xd7\x22\x3d\x27\xce\x67\x5b\xcb\x57\xa1\x3a\x5a\x1a\xbe\x5e\x86\x29\x16\xba\xcc\x5d\xc5\x65\xcb\x85\x04\x56\x67\x83\x9e\x83\xad\x53\x80\x39\xd3\x84\xa0\x25\x6a\x41\x18\xd5\xae\xb8\xd1\xa0\xf9\x78\x4f\x02\x63\x65\x0a\x28\x40\xfc\x37\x85\x6c\x8a\xb1\xc7\x73\x88\x45\x46\x10\x09\x26\x26\xb7\x97\x8e\x30\xf7\x8a\xe8\x0a\x7e\x95\x91\x4b\x2b\x80\x5c\xb1\x49\xb5\x86\x0a\x5c\x18\x83\x5c\xa5\x3a\x09\xcc\x92\x92\xac\x56\x85\x09\x68\x9b\x4f\x0a\x64\x39\x6a\x13\x91\x00\x90\x9e\x97\x33\x2d\x24\xa8\x4a\xd9\x41\xb6\x9c\x03\x1f\xc1\x57\xca\x7a\x02\xdc\xf6\x39\xcb\xe7\x00\xf7\x10\xc0\x07\xb3\x7b\xc8\x23\x5b\x94\xbc\x13\x41\x00\x1f\x81\xe8\x8a\xb0\x37\xc4\x5a\x10\x0a\x78\x42\x6e\x73\xb1\x41\xe7\xc3\x1a\x7e\xd3\x95\x3d\xf8\x64\xfc\x98\xc1\x17\x27\x20\xe8\x14\x3d\x30\x7a\x17\x81\x5b\x07\x54\xdc\x74\xb5\x74\x3c\x47\x01\x1e\xbd\xb8\x2b\x26\x27\x45\xf3\x13\x3d\x69\x37\x25\xf1\x67\x36\x6f\xfb\x78\xd0\x77\x2f\x84\xe3\x73\x9b\x46\xb7\xdf\xc5\x3a\xeb\x1c\x21\x29\x75\x7c\xd1\x3b\x65\xf4\xa8\x5c\x68\x61\x75\xa0\x89\xc9\xc9\x19\x14\xc5\x6b\x52\xb3\x13\x6e\x22\x53\x25\x23\x34\x9b\x5f\x82\xce\x3a\xf5\x01\x5d\x6c\xb3\xad\x29\x91\x8a\x53\xbc\x42\xbb\x8f\x56\x7b\xb3\x26\x2c\x9b\x89\xe9\x20\xa4\x51\x15\x06\x52\x51\x5a\xf6\x40\xa5\xa6\x5a\x9e\xbb\x1a\xe8\xdc\x3a\x55\xb7\x63\x1f\x80\xb6\x57\xf0\x00\x0d\xe7\x92\x46\x94\x1a\x8f\x58\x8c\x0d\xf5\x9f\x20\x47\x82\xd2\x96\xbc\x97\xa5\x10\xd9\x46\x22\x8f\xf6\x48\x6c\x03\xcf\xd9\x50\x94\xfc\x47\x79\xb9\x07\x2d\x1a\x9c\x96\xca\x50\x3e\xc4\x08\x92\xee\x16\xc9\x12\x87\x09\x8f\x0a\x67\xe2\x27\xa0\x96\x13\x96\xcb\xaa\x2d\x76\xe2\x3d\x9d\x17\x39\x92\xb4\x08\xcc\x72\x85\x85\xa7\x73\x35\x36\x63\xd3\xba\xc3\xe9\xf1\xb5\xef\x99\x4d\x81\x57\x05\xb0\x54\x66\x9f\x41\x3d\x65\x3a\x20\xbf\x0a\x11\x72\x23\x9c\xef\xc0\x12\xcf\x6a\x2d\x0b\x1b\x4d\x5f\x20\x8c\x4c\x89\x3b\x69\xe2\x3e\xfa\xf7\x12\x12\x73\x7b\x25\x31\x43\x82\xe6\x9f\x4c\x9b\x66\xbf\x77\xbf\xfc\xd8\x64\xdf\x17\x44\x02\xd4\x78\x43\xba\x88\x51\x0a\x87\x70\xd0\x0d\x35\xe6\xba\xea\xf9\x3e\x34\x2c\xb6\xb9\xc4\x95\x40\x97\x30\xf1\x19\x36\xd7\xf8\x3b\x10\x1c\x8c\x29\xd9\x8d\xc2\x30\x65\xe3\x46\x16\xb3\xc7\xaa\x05\xe4\x38\xf4\xe4\x69\xcd\x57\x28\xd4\x09\xa5\x49\x28\x51\xf7\x67\xc9\xad\xd2\x6e\x5b\xa5\xbe\x9b\xaa\xb1\x38\x21\x01\xe3\x59\x68\x7e\xb6\x8c\xa1\x53\x31\xcd\xa0\x09\x34\x5a\x7a\x5d\xac\xa6\xed\x09\x8f\x46\x32\x38\x4c\x5a\xaa\x72\x83\x5a\xaf\x89\xcc\x66\x4b\xa0\x17\x8a\x07\xf3\x93\x34\x53\x64\x7b\x6d\xa5\x10\xd0\x79\x47\xd2\x33\xb7\xed\x66\x7e\xbb\xc5\x0f\xae\x18\x88\xeb\xd9\xc0\xc3\x3c\x22\xab\x04\xc5\xa2\x92\x68\xdb\x60\xae\xa0\xc3\xcd\xbd\xbb\x82\x56\x10\x6d\x2b\xc5\x81\x35\xa0\x42\x50\x18\xbd\x16\x10\x33\xf5\x53\x54\x2d\x22\xc2\xe1\xa4\x7e\x4a\x7c\x6d\x2d\xb2\x26\xb6\xd2\xaf\x32\xec\xba\xd0\x87\x00\x0d\xe3\x0d\x9a\xb3\x07\xc4\x81\x15\x4d\x07\xc4\xe2\x47\x1a\xeb\x2b\x8a\xf4\x22\x4f\x64\x42\x6a\xb4\xf1\xb6\xbf\x99\x27\x5d\xf4\x0d\x84\x4a\x08\x4e\x4c\x34\x3e\xb6\xc7\xa5\x2b\xb8\x98\xe0\x83\x44\x21\x77\x9e\x49\x61\xea\x5b\x4b\xa2\x60\x35\xd3\xe3\x56\x35\x38\x9e\xdc\xc0\x23\x97\x36\x0d\x40\x15\x00\x16\x73\x49\x3e\x22\xcd\x0b\xe9\x33\x4c\x70\x6e\x1f\x79\xb0\x3e\x38\xa2\x3f\xe4\x1b\x50\x22\x45\xfb\x04\x9d\xaf\x92\xa8\xbb\x93\x26\x04\x03\x73\x2a\xa6\x71\x8f\xc9\x90\xfe\x97\x8c\x25\x12\x28\x0a\x05\x1b\x8c\x68\xbf\x8f\xc9\x83\xec\x4a\x5d\x18\xdc\x22\xe9\x8c\x01\x7f\xa1\x97\xf5\xeb\x21\x1a\xb4\x64\x82\xd4\x1a\xf4\xb9\x5c\xea\x91\x68\xa5\x87\x28\xcc\xb8\x28\xc9\x12\x57\x90\xa7\xb3\x5c\x7c\x00\x68\x37\x34\x2f\x53\x8a\xae\x0b\x47\x32\xbc\x0f\x60\xe5\x23\x7f\xd7\xb2\xa3\xaa\x01\x69\xb9\x6b\x26\xc9\x42\xb4\x09\xb0\xeb\xd6\x2f\xaa\xb3\xc0\xd9\x68\x35\x48\x02\x56\x84\x60\x0b\x04\x7c\x4f\xa0\x32\x52\x03\x09\x41\x97\xc0\x93\x02\x4b\x20\xca\xb7\x5d\xd6\xa2\xa5\x42\x75\xce\xd9\x37\x4a\x41\xda\x89\xd9\xfa\x2f\x8e\x44\x6a\x1d\xf6\x13\x44\x05\x01\xe3\x6b\x3e\xc1\x3c\x60\x8c\xf3\x5a\x98\x73\x9c\xc5\x46\xc4\x02\x69\x7c\x1c\xc6\xb8\x79\x5a\x20\x13\xa6\x7a\xbc\xd3\x6e\xba\xc3\x8c\x0e\xb7\x85\x3c\xeb\x42\xb7\x10\x6a\x0d\xcc\x09\x72\x11\x9a\xf8\xfc\x55\xbe\x72\x24\x02\x39\xc5\x34\xe1\x6c\x3d\xaa\x85\xde\xb9\x14\x9a\x36\xbf\x72\x0a\xc5\x1f\xc9\xa8\x14\x6c\x1d\xd0\x09\xcd\x69\xeb\x00\x6c\x5a\x97\x02\x75\x17\xa3\x05\x02\xc7\x78\x7a\xe7\x0b\xa9\x0a\xb9\x5a\xb8\x89\xc1\xd2\x2b\x9b\xa2\x24\xa5\x30\x30\x95\x04\x53\xa3\x30\xb4\x00\xe0\x8b\x3e\xe5\x47\x2b\x49\xf5\x0f\x2e\xe9\x85\xd5\x05\xa0\x37\x6a\xcf\x72\x0a\xc2\xfe\xf0\x26\x07\x41\x83\xd1\xd3\x77\x7b\x83\xc5\x5e\xb6\x63\x17\x65\x26\xfb\x14\x90\x68\x53\xc5\xf6\x37\x57\x2a\x17\x52\x81\xa7\xa9\xb9\x56\xcf\x29\x91\x5e\x6a\x1c\x1d\x40\xb5\x95\x20\xc3\x6b\x3a\x58\x9d\x1e\xd4\x37\x41\x77\xb1\x0b\xd6\xb8\xd0\x89\x27\x53\xa8\x3d\x7d\x0c\x83\x83\x3a\x46\x81\xe2\x81\x87\x2b\x8d\x04\x40\x16\x1e\x68\x5c\xaf\x2b\xcb\xc4\x70\x97\xd1\x92\xcc\x38\x6c\x32\x5e\x94\xbe\x41\x4b\x1a\x23\x46\x41\xe5\x25\x2a\x2f\x44\xa6\x96\xc5\xc0\x6c\x23\x36\x6b\x93\xb8\x48\xa2\x86\xf2\x4b\x00\x8c\xb8\x97\xaa\xd3\x86\x87\x2b\x73\x04\x10\x92\x9b\x53\x3d\xd0\xdb\x6d\x6e\xa1\x10\x7b\xb3\x40\xf5\x28\x95\xfe\xc2\x17\x8b\x50\x30\xa9\xc4\xb3\x14\xf7\x9b\xb3\x65\x58\x97\x56\x99\xb2\xd3\xae\x16\x8b\x08\x06\xa3\x8a\x06\xfc\x6e\x33\xd0\x34\x34\x40\x65\x92\xd2\x33\x5c\xdb\x77\xb7\xb0\x30\x3a\x36\x7e\x9b\x64\x81\x6f\xdb\x2c\xd6\xd8\x85\xc1\x3a\x83\x41\x31\x21\x91\xf3\x3e\xc7\xe3\xa8\x67\xd8\x4a\xab\x23\xa7\x88\x0b\x18\x4b\x36\x6c\xa3\x51\x54\x8a\x60\x22\x9f\x01\x7e\x6e\xd9\x9a\x83\xb8\x61\xb7\x93\x72\x14\x34\x6a\xf5\x3c\x80\x61\x33\x2f\xd6\xd3\x38\xb0\x9b\x8b\x9d\xba\xb6\xc3\xda\x2d\xb5\x12\x52\xe9\xcc\x67\xec\x36\x50\xd1\x1a\xa9\x67\xc2\x16\x89\x58\x08\x9c\xbc\xb6\x28\xc4\x5f\x0d\x96\x59\x11\xb2\x93\x53\x94\x4a\xa2\xc7\x94\x6f\xf2\x05\xa4\x40\x78\x1b\xb4\x7e\x16\x40\x22\x28\x98\x0e\x5d\x8b\x30\xd1\xe7\x12\x23\x02\x8b\x8f\xd9\x7f\xdf\xa3\x78\xa6\xd1\x0e\x75\xb9\x80\x04\xe4\x76\x36\xe2\x8e\xe1\xe9\x85\x97\x91\x2c\x54\x21\x95\x40\x66\x44\x8f\x99\xa9\xff\xa1\x51\x9d\x18\xc0\xea\x49\x19\x99\xb7\xc3\x20\x78\x3c\xb5\x49\x66\x10\xa9\x88\xdd\x5c\x89\xf9\x23\x62\xbb\xd0\xc8\xcb\xa4\x5d\x65\xb7\x46\xa8\x2a\xa0\x8b\x43\xa2\x9c\x83\xce\xf1\x42\x74\x21\xd8\x88\x0e\x52\x17\xcd\x89\x57\x4a\xa5\x8e\x9a\x96\xa2\xbe\x9f\x56\x61\x1f\x4f\x9e\xa2\x2e\x35\xe9\x46\xec\xb0\x45\xba\x18\xa4\x77\x60\xf3\x82\x15\x01\x1d\x37\xec\xf8\x09\x2e\x61\xe5\x1d\xf3\xe8\x84\xe3\xd7\x5e\xa0\xb0\x79\xa9\xb9\x9f\xd5\x71\x25\x87\x6b\x93\x39\x77\xe3\x0e\x2c\x6b\xd4\x9a\xa2\xdc\x6c\x7e\xa5\x0f\xad\x30\x09\x82\xd0\x30\xa7\x2a\x8c\xe6\xef\x10\x75\xda\x4c\xf0\x35\x1c\x4e\x4d\x96\x0d\x88\x0c\x5f\xaf\x96\x80", m: b"\xce\xbd\xe5\xd6\xfc\x01\x42\x79\xdf\x6d\x45\xb4\x7a\x67\x12\x16\xae\x24\xa5\xe7\xbb\xce\xdf\x95\x24\x8f\x15\x0d\x95\xe8\x89\xa2", k: b"\x09\x9c\xbc\x6e\x88\xa4\xaf\x6c\x77\x4b\x0c\x9b\xee\xfb\x4a\x0a\xfc\x9b\xee\x15\xdd\x1f\x77\xae\xca\xdc\x4e\x0c\x22\x41\x39\x1d", c: b"\x86\x19\x13\xee\xe5\xaf\x71\x2b\x2c\xfc\xfd\xaa\x52\x60\xa0\x36\xb7\xe2\x58\x29\x29\x4d\xe5\x30\xe0\xd4\x77\xb0\xe5\xc1\x92\x38\x58\xde\x8e\xec\x2a\xc7\x5c\x8b\xda\x49\x3d\xcf\x6d\x1d\x5d\xf3\x20\xe5\x26\x55\x66\x16\x2e\xc0\xab\x51\x3e\x6d\x8a\x17\xe2\x99\x45\xf5\x6e\x7a\xdd\x1c\x3d\x58\x57\x24\x27\xf6\x3a\x5c\x4b\x25\xa5\xcd\xad\xab\x94\x21\x74\xd4\x17\x1f\x4d\xe3\xcd\x7f\x56\xd6\x1c\x68\xbd\xe3\xc3\x95\x0b\x70\xf2\x0c\x76\xd9\xe8\x5d\x9c\xb7\x1a\x2d\x06\x0b\xbb\x84\x73\xed\x8c\x0f\x88\x0c\xd4\x40\xb6\xc4\xa2\x46\xb2\xb4\x3d\x90\x81\xbf\x73\x77\x35\x9f\x58\xff\x99\xe8\x31\xa0\xc9\xbd\x9d\x95\x07\x29\xe4\x16\xbe\x25\xbb\xd7\xf1\x00\x3e\x96\x5d\x8e\x4a\x3d\x49\x60\xc5\x7b\x93\xe5\x5a\x20\x83\xc7\xdd\xb6\xf0\xa6\x0a\x53\x1d\xf6\xa6\x28\x41\xf5\x2b\x62\xdf\x32\x4f\x2b\x4d\x7d\x5a\xdc\xd8\x16\x87\x43\x79\x87\xad\x61\x1d\x19\xe7\x63\x95\x81\xf1\xe0\x35\x51\x3f\x9d\x54\x35\xef\xd7\x34\x4f\x7b\x67\x36\x72\x54\xcb\x3e\x80\x15\x9a\xc0\xb4\x45\x92\x0b\x3a\x99\x06\xb2\x50\x79\xbf\x5d\x39\x74\xdc\xa7\x7a\x2d\xcd\xb6\x70\x21\x4b\xa5\x34\xa7\xe6\x91\xc2\xaa\x49\x49\xb4\xb5\xd5\x33\x15\xb8\xb6\xe2\x6b\xc6\x36\x88\xa1\xc3\x18\xf8\xb1\x2c\x57\xfd\x69\xc1\x2a\x94\x8b\xc0\xb8\x61\x3b\x6f\x12\xca\x1c\xc6\xc7\xa6\xf6\xb8\xc9\x40\x9a\x69\x02\x60\x47\x65\x95\x58\x14\x61\xb0\x39\x0d\xd5\xe3\xea\x8e\x54\x9a\xe4\x55\x80\xf5\x01\x83\x3f\x59\x35\xd8\xb4\x9b\x95\x3a\x25\xc4\xdc\x49\xe2\xaf\x94\x57\x0e\xfa\x23\x74\xb2\x11\xff\xfc\xd1\x80\x51\xe6\x79\x4d\xfd\x71\x79\xbf\x45\xcf\x45\x90\x83\x3f\x31\x3e\xd2\x9c\x10\xc4\x45\xe3\x7d\x34\xdd\x24\xbd\x4d\xb6\x18\x95\x1a\x1b\xd5\x5e\x79\xcc\xbd\x8c\xcc\xdb\xd9\x48\x82\x90\xd2\xef\xc8\xd0\x82\x79\x26\x57\x02\xb6\x46\x74\xab\x21\x49\x73\xcd\x0d\xe9\xf9\x38\x50\x41\x47\xe5\x36\xdc\xa0\x7c\x35\xec\xee\x0c\x83\xdf\xf7\x21\x08\xba\x1e\x71\xd4\x53\xf7\x24\x11\x91\xa7\x0e\x3b\x6f\xeb\x1d\x92\xd2\x1b\x20\x52\x4f\x93\xe9\xf1\xb6\x87\xcf\x85\xf2\x34\x11\x17\x7f\xbb\x7c\x01\xcb\x3d\x69\xb4\x85\x5d\xe9\x37\x7b\x3e\x6d\x0b\xe6\xac\x7d\x7b\x6d\x34\xbf\x22\xe1\x44\x1c\x69\xe8\xbc\xff\x75\xa6\x87\xe5\x54\xcb\x8d\xf2\xf2\x45\xbf\x0f\x60\x1d\xe5\xf3\xbe\xd6\xd8\xa7\x1e\x86\x85\x85\xe9\xc7\x20\xc2\x50\x2c\xfa\x7e\xae\xc6\xf7\x6c\xdb\x99\x83\xaf\x71\xbe\xe2\x57\xec\x3f\xb4\x22\xc4\x3c\x44\xd9\x3d\xd6\xa4\x05\xae\x07\x92\x5b\x4f\x24\x4e\xb0\x5a\x26\x6e\xb0\x78\x6b\x20\xbc\x15\xa4\xc5\x9c\x74\x0a\x32\x3c\x1f\x0b\x98\x2c\xc0\x52\x78\x89\xad\xda\x74\x6c\x08\xb2\x72\x26\xb1\x16\x95\x7e\x73\xef\xc9\x5d\x0a\x8c\x95\xd9\x83\x99\xed\x8d\x9c\x76\x01\x4e\xd7\x89\x08\x35\xdd\x57\xab\x6e\x35\x8f\x4e\x1d\xe4\x8a\x14\x5c\x76\xea\x50\x6a\x77\x02\xc4\x34\xb8\x71\xb8\xf2\x91\x4e\x5d\x19\xe3\xc5\x54\xce\x20\x4b\x27\x15\x81\xab\xcd\xb5\xcf\x1c\xe1\x2c\xaa\xf0\x36\x13\x10\x4e\x13\x69\xe2\xba\x87\xd9\x6e\x46\xd3\xd0\x1e\x3e\x5f\x2d\x95\x00\x19\x50\x50\xf3\x1a\x38\x89\xc4\xaf\xae\x09\x8a\x86\xd0\x8b\x8e\xaa\xe9\xf6\xce\x97\x1f\xad\x47\x20\xd1\xc7\x08\xd1\xea\xdb\xf6\xb4\x2f\x54\x98\x98\x2b\x2e\x6c\x8a\xa1\x3f\x0d\x4b\x79\x2d\xf2\xab\x79\x62\x96\xac\x87\x6e\x51\xa2\x43\x1d\x16\x37\xe9\xe3\xf9\xcf\x71\x5b\x88\xd4\x1d\x2e\x39\x48\x44\xe4\x79\xb6\xbc\x3d\x85\xab\x2c\xb5\x8c\x52\xab\x59\x28\x83\xc1\xd6\xbc\x35\x5b\x52\x57\x23\xcf\xc9\x7c\x10\xee\xb5\xf7\x95\x42\x23\xe6\x35\x01\x2b\xd9\xa1\x80\x47\x41\xab\xf5\x70\xb5\x25\x14\xe8\x73\x9c\x9d\x93\xab\x3f\x34\x17\xc7\x06\x28\x06\xde\xa5\x86\x71\xcb\xe9\xc0\x01\x7b\x8a\xcc\xad\x3d\xeb\xe7\x17\xd6\x63\x19\xc1\x1b\xe0\xf8\xca\x7d\xdf\x76\x05\x10\x9d\x6e\x44\xcf\xa3\xf9\x2f\xb8\x26\x1b\xfe\xac\x89\x7e\x20\x85\xe3\x8a\x8c\x5c\x4c\xe8\x02\x2a\xa8\x52\x53\x07\xe4\xd5\xa2\x57\xd7\x52\xc9\xb7\x4f\xd7\x84\xe5\x6a\x67\x01\xd5\xc4\x31\x12\xe7\xce\x7b\xd5\xf5\xc4\x32\x6a\x88\x61\xf0\x6d\xd3\x04\x9e\x02\x9b\x23\x67\xdf\x4c\x10\x66\x91\x0f\x70\xb0\xe5\xbc\xd9\xe6\xf3\xb1\x7b\x16\x9f\x26\x6e\x68\x99\x5f\xc3\xc6\x6c\x86\x9d\x2b\x50\x32\x16\x3d\x21\x8d\xf6\x27\xdf\x95\xa1\x61\xd4\xb7\xa0\x69\xb5\x90\x0f\xb0\xe6\x33\x00\x0b\xeb\x75\x90\x77\x92\x96\x61\xe9\x02\x51\xc8\x34\x05\xef\x24\xe3\x6a\x92\xe0\x4e\x35\xb6\xfb\xd7\x85\x12\x1f\x05\xb0\xc2\x7a\x66\x2e\xaa\x99\x37\x6b\xc5\x00\x83\x58\xcc\xa3\x6a\x14\xa6\xaf\x2b\x34\x23\x31\x0d\xb7\xaf\xb1\x79\x6d\x89\xda\x92\x43\xc5\xdc\x8c\xf9\xa4\x6f\xfe\xee\xef\x6b\x9b\x2f\x21\x0f\xa4\xd3\x97\xc3\xfd\x95\xb0\x1f\xf2\x13\x1a\x6c\x90\x22\x42\x13\xef\xc3\x0d\x4b\xde\x47\x67\x92\xe9\xa9\x26\x0c\x98\xf3\x3a\x52\x04\x6d\xc1\x4e\xb0\x8d\x82\x49\xa0" },
  Kem { seed: b"\x43\xda\x59\xd3\x64\x8b\xb9\x83\x7a\x0a\x4d\x45\x30\x9e\x0d\x44\x98\xec\x3c\xfc\x6a\x13\x2d\xac\x9e\x7d\xeb\x72\x94\xd0\x78\x05\x30\x08\x5a\x38\xad\xe8\xa0\x0a\x8e\x66\xc8\x52\x70\xd5\xd7\x45\xed\x97\x34\x39\xba\xc4\x6c\xbc\xf9\x3e\x0c\x28\x4e\x3a\x90\xa8", ek: b"\xd9\xc1\x6c\xf6\x37\x47\xad\xf4\xb0\x03\x57\x28\x6f\x70\xa9\xbc\xb9\x46\x40\xab\x7d\x55\xfc\x1b\xb3\xb9\x98\x76\x83\x77\x9a\xfa\x1f\x1b\xfa\x2f\x2e\xfb\x29\x3b\x73\x02\x91\x33\x79\xbd\x8b\xb9\x40\x57\x8e\x3b\x84\xb4\x81\x35\xbf\xd3\xc1\x73\x42\x48\x55\x29\x45\x41\xf0\x89\x6d\x3d\x82\x5b\x92\x82\x67\x60\xf3\x86\x11\xec\x03\xfb\x23\x3b\x27\xb3\x36\x50\x83\x1b\x77\x89\xce\x1c\x98\x35\x4e\xb6\x84\xb4\xbc\x88\x7b\x25\x77\xb0\x77\x28\x08\x21\x84\xeb\xb3\x9e\x68\x75\xb5\x4f\xcb\x56\xde\xf2\x90\x9b\x68\x10\x94\xa8\x50\xc0\x66\x22\xf6\x9b\x1e\x62\x4b\x3a\x31\x9b\x2e\x9b\x32\x6a\x7d\x2b\xc3\xfa\x77\x7a\x6a\x53\x4d\x9e\xf8\x93\xcf\x33\x13\x0a\xaa\xc8\xd2\xb9\xc6\x9e\x50\xa6\xf1\x59\x66\xbe\x13\x52\x3d\x35\xa3\xba\xb6\x59\x74\x31\x05\x3c\xb8\xce\x7c\xba\x57\xb1\x74\x19\xae\xb5\x78\x0b\xcb\x80\xa9\xf3\x62\x50\x0c\x28\x17\x7c\x65\x42\xa8\x66\x9a\x09\xac\x83\x5c\xa0\x91\x0a\x92\x3b\x14\xce\x4d\x86\x73\x57\x24\x55\xf6\xd6\x74\xc4\x1b\xcf\x65\xaa\x60\x28\xe3\xad\xf7\xc4\x02\xe7\x4a\x1d\xaa\x02\xa9\x8a\xf7\x25\x9c\xcc\x67\x78\x0c\x95\xac\x74\x37\xe3\x31\x09\x09\xac\x44\x86\x26\x8a\x89\x69\x61\x40\x88\xcf\x4d\xe6\x83\xde\x86\x37\xb6\x94\x36\xb9\x40\x40\x3f\xf4\x78\x18\x85\x8c\x16\x17\xa1\xc9\x21\xc7\x9b\xa0\x6c\x15\xf1\x26\x3e\x70\xc6\x23\x92\x68\x2a\x46\x4d\x54\x04\xce\x93\x87\x74\xc1\xf3\x74\x7b\xa7\x37\x88\xa3\x99\xc4\xc7\x1a\xdc\x13\x97\xea\x9c\x38\x9e\x1c\x07\xf6\x72\x97\x4c\x30\x1e\xeb\xd4\x6f\x62\xb7\x74\xa3\xf8\x5a\x62\xab\xc2\xd9\x58\x92\x36\x70\x1c\xfc\xf0\xb5\xcf\x41\x2c\x3d\xe4\x75\x7f\x55\x8f\x9f\x22\x0b\xbf\x32\x4f\xf1\xc7\x25\xc9\x97\x5e\x20\x57\xbb\x09\x44\x22\x98\x59\x33\xea\x36\xb4\xe1\x42\x73\xa6\x66\x89\x18\xea\xa0\x61\xa7\x54\xfc\x11\x03\x4e\x5a\x3a\xcf\x8c\x82\x92\xda\xbd\x7c\xea\xcf\x2a\xe6\x2f\x14\x5c\x45\x90\xb4\x3b\xc8\xa5\x51\x87\x0c\xc2\xf5\x72\x23\x3c\xac\x17\xf4\x01\x4d\x43\xb8\x6a\xaa\xd3\x39\x95\x52\xbb\x46\x87\xa6\x8c\x79\x98\xc7\x4b\xb3\x95\x68\x6e\xd7\xe3\x2a\x5b\x3a\x59\x6f\x64\xad\xb1\x77\x39\x73\xb6\x2f\xf5\x46\x81\x95\xf0\x15\x8a\xf1\x80\xc9\x71\x8e\x56\x09\x26\xb0\xa8\xa8\x8f\xc3\x66\x0b\xd2\x8f\x2d\xcb\x84\xee\x24\xa9\x7f\x26\x60\x36\x9a\x47\x77\xb4\x78\xbe\x03\x73\x7c\x95\x93\xf5\xa9\xc1\xd2\xa2\x4c\xd4\x6c\x78\x13\x81\xc5\x6a\x02\x82\x55\x06\x0a\x9a\x8a\x89\x5c\x83\xab\x4a\xeb\x61\x9b\x76\x20\xc5\xd6\x65\xbf\x04\x37\x6d\xda\x9d\xfa\xa3\x0e\x08\x98\x7f\x1e\xd1\xcf\x51\xa2\x28\x6b\x39\xb0\xee\xea\x9c\x91\xea\x7b\x02\xa7\x07\xf8\x54\xbd\x49\x34\x75\x88\x30\x5c\x73\x8a\x3f\x1e\x03\x97\x8e\x21\xbc\xca\xfc\x6b\xbc\xe0\xa4\x47\x38\x5e\xd8\x80\x36\xd6\xa2\x70\x9a\xf4\x04\x53\xe8\xbc\x3b\xd8\x4b\x22\x4b\xb8\xc5\xcb\x43\xe2\x55\x7d\x77\xa8\x0d\xbb\xb7\x22\xf2\xa9\xb2\xf8\xa4\x7f\x41\xa3\x2a\x98\x05\x08\xa8\x80\x6f\x6e\x7c\x30\xd0\x45\x0e\xad\xeb\xc2\x81\xac\x40\xcb\x2a\x48\x1a\x50\x8d\xe9\x64\x3e\x2d\x67\x71\x30\x25\x53\xda\x2a\x9a\x26\x9a\x72\x28\xf3\x1d\x82\xb1\x45\x16\x8c\x7c\x25\xa8\xc9\xb7\x04\x5c\x00\x00\x61\xe6\xd8\x2b\x40\xa7\xc1\x59\xac\x88\xdd\x78\xb2\x29\xca\x70\xb1\x3a\xa8\x06\xa6\x0f\xa9\xd9\x46\xcf\x98\x03\x6e\xf0\xb4\x72\x3c\x6e\x87\x8c\x53\x0e\x03\x37\xfc\xda\x5f\x9f\x09\x48\x17\x78\x90\x94\x08\x84\xe8\x0b\x1a\xd7\xaa\x08\xab\x16\x10\x68\xe2\x8c\x4f\x63\x22\x43\x7a\x0e\x8a\x02\x01\xba\x8c\x04\x20\xc6\xad\xab\xec\x19\x82\xc3\x6d\x84\xf0\x3b\xd3\xb2\x1f\x3b\x8c\x05\x8b\x6c\x86\xd7\xd7\x6f\x71\xb7\x42\x63\xf5\x14\x2b\x67\x58\x30\x58\x76\x99\x12\xc5\x28\x94\x5d\x54\xf0\x79\xf8\x58\x57\x2b\x53\x39\x50\xf7\x73\x4f\x99\x16\xfa\xa9\xc1\xb8\x84\x0d\x04\x64\x7d\x9e\x37\x63\x70\x23\x28\xd7\x60\x7b\xff\xc4\x21\x28\xb7\xca\x1c\xf2\x0b\x38\x22\xa7\x24\xe9\xb3\x4d\xda\x72\x11\xb7\x6c\x7d\xd4\x44\x73\xc5\x0b\x09\x02\x30\x07\xea\x8d\xb4\x7a\x55\xb4\xd8\xbf\x29\xa2\x63\xac\xb1\xa1\x55\xa3\x09\xde\x0c\x8b\xa3\x01\x9f\xd0\xd5\x85\x6f\x73\xca\x1d\x09\x6c\x39\xf6\x17\xe8\x48\x25\xe9\x12\x90\x92\xf0\x0a\xc8\xfb\xb6\xae\xe3\xba\x5c\xeb\x90\xb1\x46\x09\x96\x69\xaf\x5e\x8c\x43\x52\xf1\xb2\x11\x5a\x09\x6c\xd3\x10\x75\x43\x4d\xb1\x9b\x58\x8c\x96\x8e\x4f\x13\x1f\x14\x70\x70\xe5\xb8\xba\xae\xa9\x96\xd4\x08\x01\xd7\x79\x28\x57\xa3\x24\x2e\x1b\x3e\xf1\xe0\x2a\x79\xf6\x82\xe5\xc8\x67\x74\x5c\x0d\x97\x64\xa5\x11\xf7\x25\x8d\xd5\xad\x41\x4b\xa8\x5e\xa0\x5b\xb0\xbc\x3a\x29\xb8\x58\x0c\x24\xcd\x47\xc4\x21\x4e\xdc\xa2\xc7\x81\x16\xaa\x50\x7c\x1d\x51\x2d\x9a\x61\x75\x02\xc1\xca\xce\xa7\x5d\xf4\x42\x30\xa7\xeb\x2e\x0a\xc7\x37\x42\x4a\x68\x59\x26\x35\x7e\x4c\x9d\x2b\x92\x28\xc0\xd3\x89\x10\xf2\x4b\x58\xd4\xa5\xf7\xd6\x39\x5c\xc2\x17\xb1\xb7\x39\x43\x15\x0e\x96\xe6\x89\x2c\x74\x01\x43\x26\x95\x7f\x63\x95\xd1\x87\xcc\x8e\xb6\x22\x8b\x81\x94\xdd\xc1\x7f\x0c\x64\xb1\x9c\x1c\x34\xfa\xcb\x89\x48\x85\x5c\x08\x6a\x0c\xa6\x44\x25\x1d\xe9\x2f\x62\xd3\x35\x4c\x27\xa5\xab\xbf\x54\xb5\x0a\xd7\x8f\x41\xf5\x95\x6c\xdc\x14\x98\x29\xe8\x99\xe9\xe6\x22\xf1\x0a\x06\x98\x38\xd2", dk: b"\x4f\xc6\x97\xfe\xb6\x56\x06\x3a\x37\x30\x77\xa4\x91\xec\x9c\x61\x29\x3c\x29\xf1\xa1\x3c\xd1\x83\xb1\x49\x30\x53\xc2\x3f\x22\x64\x9d\xb9\x60\x5b\xee\xd6\x97\x4b\x2b\xb9\xf0\x00\xbc\xeb\x88\x15\x2b\xa1\xaf\x09\x9b\x7e\xae\x97\x02\xc2\xd3\x20\xd0\x0b\x42\x6c\xf0\x3c\xf5\xc5\x06\x64\x39\x23\x81\x83\x4e\x65\x4b\x65\xaf\x43\x2f\xb2\xa1\xa5\x89\x6c\xce\xa5\x80\xcc\xd7\x8c\xc9\x56\x95\x69\x38\xf9\x3b\x6e\x05\xa8\xfc\xf4\x64\x8c\xb0\xa7\x65\x14\xcc\xaa\x06\x40\x14\xfb\x2e\xdc\x28\x00\x17\x87\x46\x7b\x34\x9e\x42\x84\x11\x28\xf8\x18\x03\xf8\x72\xec\x90\x91\x6c\xe6\xb0\x33\xb4\x2f\xe7\xb3\x6a\x29\xac\x7f\x88\x20\x1c\x4d\x33\x4f\xfa\xba\x6b\x83\xa8\x01\x9e\x68\xb6\xde\xc3\x2f\xa1\x59\x7d\x6a\xd8\x33\xf9\xda\x33\x10\x1c\x66\x70\x54\x98\xde\xa4\x1b\x9c\xf0\x2e\xe4\x22\x9e\x4b\x61\x1a\xe0\xc4\x7f\x66\x96\x92\x4d\xfb\x47\x77\x02\xbc\x27\xa1\xa2\xf6\xd0\x4a\xea\x71\x99\xfd\x83\xa0\x79\x7b\x02\xb4\x80\xaa\x2f\x9b\x57\x0b\xb9\x58\x72\x74\x38\xf3\x44\x5f\x41\xd8\x71\xe9\x66\x6f\xfe\xa3\x64\x11\x3b\x93\xe1\x36\xa0\xe5\x07\xd0\x4c\x34\x12\xf6\xac\x2e\x81\xd5\x00\xe3\x24\x12\x33\xb8\x27\x9e\x60\x71\x70\xd7\xaa\x32\xbb\x81\x37\x34\x85\x0c\x56\xbd\x27\x43\x66\x31\x15\xc2\x54\xf4\x18\x1d\x3b\xc3\x99\xf8\x92\xbd\x05\x52\xdd\x84\x86\x2c\x50\x8a\x8e\x14\x09\x85\xe6\x42\x74\x0a\x44\x16\xeb\x81\x42\xc4\x1e\x20\x46\xcb\x83\xec\xc3\x54\x48\x5a\x88\xb2\xc9\x49\xa0\xbd\x2a\xc3\x6e\x61\x58\x91\x55\x16\x82\x0d\xc5\x82\x2d\x4c\x08\x89\xb3\x6e\x32\xd1\xce\xe6\x59\x59\xa1\xca\xaa\x91\x76\x98\x92\x6b\x3d\x28\xba\xa9\xe3\xb7\x5f\x72\xc5\x8c\xd4\x44\x32\x5d\x12\x3a\x1c\xf4\x32\x34\x11\x31\x50\x8c\xc4\x1b\xe5\xae\xf3\x13\x33\x84\xab\xbb\x14\x1c\x4b\x87\x82\x71\xfa\x96\x5b\xdc\x99\xbf\xfb\x51\x2e\xc3\xb2\xa1\x17\xd5\xc6\x7b\xd0\x1d\xfe\x45\x07\x37\xe0\x77\x96\xca\x2a\x1b\xbb\xa9\x37\xa9\x8f\x95\x89\x9e\x38\x34\xc6\x1f\x61\x73\xe2\x5a\x1c\xb4\xe5\x0a\x32\x20\x6d\x7b\xd6\x51\x27\x21\x9e\x50\x15\x1c\xb4\x85\x67\x1f\x1a\x2f\xb7\xf9\x5a\x96\xec\x31\xeb\xa5\x3e\x34\x94\x55\x5c\x04\x11\x76\x77\xb2\xf3\x15\x8c\xda\x95\x0b\x9d\x55\xb7\xd1\xe0\x4f\xdf\x3b\xac\x32\x2c\x1b\x5f\x11\x00\x6b\xb5\x85\x92\x7b\x43\x02\x41\xc2\x50\x0a\xcf\x0b\xc3\x79\xe5\x9c\x16\x0d\xfc\xc9\x01\x36\x80\x0b\xa5\x43\xe1\xc8\x35\x6a\xfc\x55\xc5\x38\x0b\x08\x4a\x5a\x26\xe0\x5b\xb9\x3a\x21\xe0\x96\x64\xc2\x18\xa1\x41\x9b\x8e\xaf\xd1\xa1\xf0\x10\x7a\xed\x76\x8d\x4e\xf4\x84\xe4\xb5\x82\xc9\x7a\x49\xbe\xb1\x57\xf6\xd2\x5b\x47\xfc\x8a\xca\xc5\x45\x89\xd5\x05\xd0\x08\x70\xde\xf1\x22\xc4\xe9\xcc\x66\x04\x31\x71\xa0\xa5\xc4\x29\x5a\xa5\xf7\x05\xe3\xf5\x88\x2b\xb6\x72\xeb\x17\x41\x68\xd3\x7d\x52\x3c\x85\xcc\xb1\xaf\x75\xe4\xb9\xc9\xa1\x5a\xaa\x34\x8e\xd4\xcb\x8a\xdc\xd0\xbc\x0c\x72\xa4\x4c\x36\x30\x1d\x15\x66\xcc\x77\xab\x8f\x63\xaf\x5c\xc5\xa0\x29\x91\xc4\x37\x84\x5c\xc1\x86\x99\x84\xba\x77\xf2\x07\x91\x03\x48\xa8\xf1\xd0\xac\x57\x58\xce\x8e\x3b\x2c\x1f\xb7\x78\x62\x27\x5b\x00\xf4\xb8\xf5\x63\x9e\xfe\x50\x74\xa7\x17\x97\x58\xfb\x43\xf8\xfb\x70\xb2\x42\x0a\x5f\xd3\x56\x5c\x4a\x58\xca\xf5\x41\x54\x71\xbe\xcd\xd6\x8c\xd7\x78\x63\x54\x54\x21\xd8\x4c\x23\xdc\x50\xbc\x44\x77\xa7\x87\xd4\x35\xe2\x67\xbf\xb4\xe8\x87\x37\x3b\x94\xa2\x3c\x57\x8f\xc1\x76\x64\x3b\x4f\x24\xa9\x27\x3a\x7b\x8d\xbf\x65\x8b\x2a\x89\x63\xd8\x03\x91\x8e\x62\x31\x17\x50\x17\x2b\xb5\x3c\x9a\xa8\x83\x04\xb8\x5e\x33\x68\x3f\x25\x83\x77\x02\xb2\xa2\x72\xe4\x76\x0e\x22\x10\xc3\x64\x80\xcb\xbb\xb8\x23\x2c\x65\x65\x8c\xcb\x9c\x04\xc9\xb1\xb3\x9a\xb5\x6c\x16\x5a\xb1\xb8\x1a\xd4\xc8\x94\x25\xcc\x24\x22\x95\xcb\x0a\x28\x57\xac\x60\xa0\x51\x4b\x76\x05\xbf\x50\x30\x8a\x13\x98\x54\xde\x75\x9c\x31\xc4\x14\x2a\xc4\x08\xb8\x71\x85\x2e\x94\xce\x20\xc2\x18\xb6\x22\x13\x4a\x27\x74\x67\x65\x3d\x2d\x87\x62\x1d\xd8\xa3\xc9\xe8\x91\xcf\xa4\x59\x3c\xc7\x72\xda\x6a\x70\x3d\x35\xa0\x3f\xd9\xcf\x0a\x65\x2b\xe7\x21\x2b\xad\x52\x1d\xeb\xbb\x06\xb2\x17\x96\x93\x66\x72\xcc\x00\x34\x99\x70\x33\xb1\xb8\x48\x98\x73\x6d\x55\x8a\x00\x71\x48\x81\x02\x3c\x68\x5f\x7a\x8c\x24\x4b\x7f\x91\x22\x9e\xc9\x0b\x69\xcc\xbb\x9c\x48\xc8\x4b\xba\x51\x63\xe0\xc1\x2a\xe0\x35\x81\x14\x58\x74\xbc\x05\x3e\x6a\x40\xa6\x22\x33\xa7\x45\xb6\x71\xc2\xfa\x8b\xda\xe7\xc2\xef\x79\x4d\x4c\x90\x23\xfa\xc4\x28\x6c\xd3\xa3\x85\xb0\x83\x99\xa2\xc5\x22\xd0\xbb\x6d\x37\x34\x09\x37\xc0\xfe\xdc\x92\x3e\xa5\xbb\xa3\x9a\xca\x9a\x63\x59\xf5\xa7\xb4\x37\x35\x7d\xc4\x89\xba\x0a\x38\x49\x76\x82\x44\x5c\x4c\xb9\x54\xe0\x0e\x4e\x95\x25\x61\x01\x53\xf0\x85\x9f\xff\xcb\xb9\xe1\xb7\xc9\xb4\xa2\xca\x9d\x32\x31\xe9\x92\x9c\xdc\xe1\x88\xe7\x65\xcb\x3d\x2c\x71\x95\x88\x7b\x57\x49\x44\x31\x68\x53\xe1\xb2\x64\x7e\x92\x00\xcc\x34\xa2\x72\xf5\x42\x76\x47\xbb\x31\xb5\x26\xae\xa9\x5d\x2f\x89\x49\xe6\x24\xb7\xff\xf7\xb2\xa7\xc6\x15\x32\x13\xb5\xd9\xc1\x6c\xf6\x37\x47\xad\xf4\xb0\x03\x57\x28\x6f\x70\xa9\xbc\xb9\x46\x40\xab\x7d\x55\xfc\x1b\xb3\xb9\x98\x76\x83\x77\x9a\xfa\x1f\x1b\xfa\x2f\x2e\xfb\x29\x3b\x73\x02\x91\x33\x79\xbd\x8b\xb9\x40\x57\x8e\x3b\x84\xb4\x81\x35\xbf\xd3\xc1\x73\x42\x48\x55\x29\x45\x41\xf0\x89\x6d\x3d\x82\x5b\x92\x82\x67\x60\xf3\x86\x11\xec\x03\xfb\x23\x3b\x27\xb3\x36\x50\x83\x1b\x77\x89\xce\x1c\x98\x35\x4e\xb6\x84\xb4\xbc\x88\x7b\x25\x77\xb0\x77\x28\x08\x21\x84\xeb\xb3\x9e\x68\x75\xb5\x4f\xcb\x56\xde\xf2\x90\x9b\x68\x10\x94\xa8\x50\xc0\x66\x22\xf6\x9b\x1e\x62\x4b\x3a\x31\x9b\x2e\x9b\x32\x6a\x7d\x2b\xc3\xfa\x77\x7a\x6a\x53\x4d\x9e\xf8\x93\xcf\x33\x13\x0a\xaa\xc8\xd2\xb9\xc6\x9e\x50\xa6\xf1\x59\x66\xbe\x13\x52\x3d\x35\xa3\xba\xb6\x59\x74\x31\x05\x3c\xb8\xce\x7c\xba\x57\xb1\x74\x19\xae\xb5\x78\x0b\xcb\x80\xa9\xf3\x62\x50\x0c\x28\x17\x7c\x65\x42\xa8\x66\x9a\x09\xac\x83\x5c\xa0\x91\x0a\x92\x3b\x14\xce\x4d\x86\x73\x57\x24\x55\xf6\xd6\x74\xc4\x1b\xcf\x65\xaa\x60\x28\xe3\xad\xf7\xc4\x02\xe7\x4a\x1d\xaa\x02\xa9\x8a\xf7\x25\x9c\xcc\x67\x78\x0c\x95\xac\x74\x37\xe3\x31\x09\x09\xac\x44\x86\x26\x8a\x89\x69\x61\x40\x88\xcf\x4d\xe6\x83\xde\x86\x37\xb6\x94\x36\xb9\x40\x40\x3f\xf4\x78\x18\x85\x8c\x16\x17\xa1\xc9\x21\xc7\x9b\xa0\x6c\x15\xf1\x26\x3e\x70\xc6\x23\x92\x68\x2a\x46\x4d\x54\x04\xce\x93\x87\x74\xc1\xf3\x74\x7b\xa7\x37\x88\xa3\x99\xc4\xc7\x1a\xdc\x13\x97\xea\x9c\x38\x9e\x1c\x07\xf6\x72\x97\x4c\x30\x1e\xeb\xd4\x6f\x62\xb7\x74\xa3\xf8\x5a\x62\xab\xc2\xd9\x58\x92\x36\x70\x1c\xfc\xf0\xb5\xcf\x41\x2c\x3d\xe4\x75\x7f\x55\x8f\x9f\x22\x0b\xbf\x32\x4f\xf1\xc7\x25\xc9\x97\x5e\x20\x57\xbb\x09\x44\x22\x98\x59\x33\xea\x36\xb4\xe1\x42\x73\xa6\x66\x89\x18\xea\xa0\x61\xa7\x54\xfc\x11\x03\x4e\x5a\x3a\xcf\x8c\x82\x92\xda\xbd\x7c\xea\xcf\x2a\xe6\x2f\x14\x5c\x45\x90\xb4\x3b\xc8\xa5\x51\x87\x0c\xc2\xf5\x72\x23\x3c\xac\x17\xf4\x01\x4d\x43\xb8\x6a\xaa\xd3\x39\x95\x52\xbb\x46\x87\xa6\x8c\x79\x98\xc7\x4b\xb3\x95\x68\x6e\xd7\xe3\x2a\x5b\x3a\x59\x6f\x64\xad\xb1\x77\x39\x73\xb6\x2f\xf5\x46\x81\x95\xf0\x15\x8a\xf1\x80\xc9\x71\x8e\x56\x09\x26\xb0\xa8\xa8\x8f\xc3\x66\x0b\xd2\x8f\x2d\xcb\x84\xee\x24\xa9\x7f\x26\x60\x36\x9a\x47\x77\xb4\x78\xbe\x03\x73\x7c\x95\x93\xf5\xa9\xc1\xd2\xa2\x4c\xd4\x6c\x78\x13\x81\xc5\x6a\x02\x82\x55\x06\x0a\x9a\x8a\x89\x5c\x83\xab\x4a\xeb\x61\x9b\x76\x20\xc5\xd6\x65\xbf\x04\x37\x6d\xda\x9d\xfa\xa3\x0e\x08\x98\x7f\x1e\xd1\xcf\x51\xa2\x28\x6b\x39\xb0\xee\xea\x9c\x91\xea\x7b\x02\xa7\x07\xf8\x54\xbd\x49\x34\x75\x88\x30\x5c\x73\x8a\x3f\x1e\x03\x97\x8e\x21\xbc\xca\xfc\x6b\xbc\xe0\xa4\x47\x38\x5e\xd8\x80\x36\xd6\xa2\x70\x9a\xf4\x04\x53\xe8\xbc\x3b\xd8\x4b\x22\x4b\xb8\xc5\xcb\x43\xe2\x55\x7d\x77\xa8\x0d\xbb\xb7\x22\xf2\xa9\xb2\xf8\xa4\x7f\x41\xa3\x2a\x98\x05\x08\xa8\x80\x6f\x6e\x7c\x30\xd0\x45\x0e\xad\xeb\xc2\x81\xac\x40\xcb\x2a\x48\x1a\x50\x8d\xe9\x64\x3e\x2d\x67\x71\x30\x25\x53\xda\x2a\x9a\x26\x9a\x72\x28\xf3\x1d\x82\xb1\x45\x16\x8c\x7c\x25\xa8\xc9\xb7\x04\x5c\x00\x00\x61\xe6\xd8\x2b\x40\xa7\xc1\x59\xac\x88\xdd\x78\xb2\x29\xca\x70\xb1\x3a\xa8\x06\xa6\x0f\xa9\xd9\x46\xcf\x98\x03\x6e\xf0\xb4\x72\x3c\x6e\x87\x8c\x53\x0e\x03\x37\xfc\xda\x5f\x9f\x09\x48\x17\x78\x90\x94\x08\x84\xe8\x0b\x1a\xd7\xaa\x08\xab\x16\x10\x68\xe2\x8c\x4f\x63\x22\x43\x7a\x0e\x8a\x02\x01\xba\x8c\x04\x20\xc6\xad\xab\xec\x19\x82\xc3\x6d\x84\xf0\x3b\xd3\xb2\x1f\x3b\x8c\x05\x8b\x6c\x86\xd7\xd7\x6f\x71\xb7\x42\x63\xf5\x14\x2b\x67\x58\x30\x58\x76\x99\x12\xc5\x28\x94\x5d\x54\xf0\x79\xf8\x58\x57\x2b\x53\x39\x50\xf7\x73\x4f\x99\x16\xfa\xa9\xc1\xb8\x84\x0d\x04\x64\x7d\x9e\x37\x63\x70\x23\x28\xd7\x60\x7b\xff\xc4\x21\x28\xb7\xca\x1c\xf2\x0b\x38\x22\xa7\x24\xe9\xb3\x4d\xda\x72\x11\xb7\x6c\x7d\xd4\x44\x73\xc5\x0b\x09\x02\x30\x07\xea\x8d\xb4\x7a\x55\xb4\xd8\xbf\x29\xa2\x63\xac\xb1\xa1\x55\xa3\x09\xde\x0c\x8b\xa3\x01\x9f\xd0\xd5\x85\x6f\x73\xca\x1d\x09\x6c\x39\xf6\x17\xe8\x48\x25\xe9\x12\x90\x92\xf0\x0a\xc8\xfb\xb6\xae\xe3\xba\x5c\xeb\x90\xb1\x46\x09\x96\x69\xaf\x5e\x8c\x43\x52\xf1\xb2\x11\x5a\x09\x6c\xd3\x10\x75\x43\x4d\xb1\x9b\x58\x8c\x96\x8e\x4f\x13\x1f\x14\x70\x70\xe5\xb8\xba\xae\xa9\x96\xd4\x08\x01\xd7\x79\x28\x57\xa3\x24\x2e\x1b\x3e\xf1\xe0\x2a\x79\xf6\x82\xe5\xc8\x67\x74\x5c\x0d\x97\x64\xa5\x11\xf7\x25\x8d\xd5\xad\x41\x4b\xa8\x5e\xa0\x5b\xb0\xbc\x3a\x29\xb8\x58\x0c\x24\xcd\x47\xc4\x21\x4e\xdc\xa2\xc7\x81\x16\xaa\x50\x7c\x1d\x51\x2d\x9a\x61\x75\x02\xc1\xca\xce\xa7\x5d\xf4\x42\x30\xa7\xeb\x2e\x0a\xc7\x37\x42\x4a\x68\x59\x26\x35\x7e\x4c\x9d\x2b\x92\x28\xc0\xd3\x89\x10\xf2\x4b\x58\xd4\xa5\xf7\xd6\x39\x5c\xc2\x17\xb1\xb7\x39\x43\x15\x0e\x96\xe6\x89\x2c\x74\x01\x43\x26\x95\x7f\x63\x95\xd1\x87\xcc\x8e\xb6\x22\x8b\x81\x94\xdd\xc1\x7f\x0c\x64\xb1\x9c\x1c\x34\xfa\xcb\x89\x48\x85\x5c\x08\x6a\x0c\xa6\x44\x25\x1d\xe9\x2f\x62\xd3\x35\x4c\x27\xa5\xab\xbf\x54\xb5\x0a\xd7\x8f\x41\xf5\x95\x6c\xdc\x14\x98\x29\xe8\x99\xe9\xe6\x22\xf1\x0a\x06\x98\x38\xd2\xf1\x95\xcd\x79\x5c\xef\x2d\xa9\x64\x56\xa7\x9a\xb2\xec\xe8\xef\x77\xe5\xb2\xb6\x95\xe8\x28\x86\x61\xcd\x6d\x52\x82\xf3\x53\xa1\x30\x08\x5a\x38\xad\xe8\xa0\x0a\x8e\x66\xc8\x52\x70\xd5\xd7\x45\xed\x97\x34\x39\xba\xc4\x6c\xbc\xf9\x3e\x0c\x28\x4e\x3a\x90\xa8", m: b"\xe7\xf5\x37\x42\x24\x32\xd7\xda\x5d\x3d\x01\x61\x78\xfe\xb5\x19\xb4\x54\xb2\xc2\xea\x0b\xab\x81\xb3\xd1\xf7\xb9\xd1\x5b\x35\xee", k: b"\x2b\x86\xb7\xb5\x79\x38\xed\x7d\x6b\xe2\x80\x5e\xec\xda\x34\x3a\xa4\x9e\xed\x01\x19\xe9\x93\xce\xae\xb0\xaa\x61\x31\x5f\x56\x8b", c: b"\x1d\x8a\x2f\xd5\x6f\x44\xa9\xce\x55\x30\x90\x15\xcf\x44\x5b\xfd\xfb\xfe\x9c\x1c\x94\x47\x85\x04\xdb\xb5\xc3\x72\x03\x6f\xc7\xc1\xe5\x32\xc1\xee\xdd\x51\x20\x9b\x5d\xd1\x86\xcc\xf5\xd5\xdc\x65\x91\x75\x9a\x35\xe6\xa9\x20\x29\xd6\x75\x41\x67\xea\xd9\xe4\xfa\xf3\x9f\x72\x3a\x9d\x82\x05\xc5\xef\x42\x89\x03\x97\x39\x7d\xb9\xf3\x57\x77\xd7\x43\xfd\x11\xc6\xca\x9d\xa5\x29\x9a\x80\x89\x4d\x1d\xdc\xd0\x63\x45\xd1\xb8\x4e\x36\x6d\xfc\xce\x28\x6c\xe8\x10\x95\x14\xf2\xfa\x55\x30\xbf\x84\x80\x0f\x8b\xa4\x15\xa5\x36\xb4\x36\xc8\xe9\xee\x96\x6e\x37\x56\xf6\x73\x6d\x9a\x50\xf9\x90\x6f\x87\xae\x12\xef\x0c\x92\xbd\xd2\x02\xfa\xb1\x92\x73\xe7\xa2\xa9\x24\x65\xe3\x16\x09\x69\xd1\x18\x5b\xb6\xbc\x20\x08\x6e\x3a\x56\x18\xe0\xf0\x83\x3e\x96\x51\xda\xef\x7e\x71\xbc\xaf\x5a\xb9\xdb\x7f\x5e\x55\x73\xde\x64\xca\x39\x75\x77\x6a\xaf\x01\x85\xc8\x30\x65\xc3\x1d\x21\x96\xaa\x8f\x48\x98\x4a\x1b\xd7\xd6\x95\xe5\x47\x54\x8a\xe4\x0f\xf3\x28\xb2\x66\x06\x64\x69\x00\x8e\x29\xbc\x70\xf6\x2f\x2b\x2e\xa2\xcd\x2c\x6b\xab\xda\x72\xd6\x51\x0d\x1e\x1d\xa2\x22\x07\x0c\x35\x00\xb7\x8d\x6e\xd9\x85\xbe\x64\xf2\x6e\xef\x8b\x63\x31\xdc\x3b\xf2\x6d\x09\x3b\xa0\x58\x14\x84\x5d\x68\xa3\xc3\xe2\x38\x62\x54\x71\x28\x12\x5c\xb5\xe4\x91\x5f\xb8\x65\xec\x93\x45\xf0\xc2\x1e\x82\x3a\x1b\x4b\x22\xbc\x61\xb6\x33\xe3\x3c\xbf\xc1\x7f\x2c\x5d\x23\x02\xd3\x89\x45\x91\xc3\x6d\x0f\x18\x5d\x24\x0a\x72\x50\x08\xf9\xa1\xd3\x90\xba\xcf\xf3\x7b\xc4\x66\xbc\xad\x99\x27\xf1\x46\x96\x60\x8e\xfa\xd1\x08\x8b\x44\x08\x19\x50\xef\x17\x8b\xaa\x9a\x90\xfe\x42\xb1\x23\xf8\x31\xdc\xe9\xd8\xf0\x15\x39\x11\xb7\x83\x55\xd5\x03\x88\x83\xaf\x52\x2d\x6d\x83\x87\x45\x40\x6a\xaf\xe4\xbf\xbb\x6e\x11\x8f\x2d\x23\x2d\x73\xaf\xb6\x73\x01\x29\xbc\xa2\x76\x47\x00\xfa\x0a\x55\x77\x6f\x50\x62\x30\x3c\xb7\xb3\x67\x1b\x16\x3e\x6c\x6c\x0c\x8a\xba\xb2\x2d\x82\xc5\xd7\x90\xe6\xcb\x0d\x58\x57\x1e\x54\x08\x55\x81\x46\x1f\x16\x78\x51\x0d\x5a\xb6\xe0\xaf\x1c\xee\x0f\x09\x12\x80\xd5\x83\x27\xf0\x1e\x01\x00\x0d\x63\x94\x55\xb3\xa9\x88\x4b\xff\xb8\x16\x72\x84\x4c\xa9\xd6\x06\x8e\x8b\x53\x2c\xb9\x60\x42\x20\xaa\xc0\xae\xa1\xf5\x64\x3c\xe7\x08\x03\x00\x04\x57\x85\x20\xb1\x08\xa5\x17\x6c\x04\x50\xbc\x41\x9f\x7c\xb8\xf9\x08\xd1\xb5\x88\x31\x3d\x1c\x5a\xcc\xd9\x37\x68\xa6\xf5\x5b\x64\xb8\xdf\xd2\xd7\x0b\x35\xf0\x47\x4a\x85\xeb\xb9\x22\x98\x18\x24\xd3\x60\x67\xf3\xa9\x33\xcf\xaf\xcc\xa6\xbc\x2c\x0e\xf3\x72\x02\xbc\xb8\xbc\x5b\x11\x3b\xdd\x87\x76\x4c\xdd\x5f\xb5\x83\xa7\x7b\x16\x83\x2c\xd0\x23\x00\x92\x58\x02\x9b\xa5\x6d\x98\x81\xf7\x50\x83\xf5\xaf\x01\x63\x3f\x8a\xc8\x75\xb1\xdb\x6d\xac\x0f\x6b\x56\x40\xc4\x3d\x9c\xd0\xa7\xc5\xd2\x31\x9b\x89\xbe\x62\xf2\xdf\x48\xd8\x60\x55\x3a\x0d\xc5\x76\x58\x0b\x7c\xc3\x5e\x2b\xd0\x64\xf8\x0e\xfc\x8c\x6a\x9b\xe7\x68\xb7\x79\x2b\x67\xbe\x1b\x3a\xf8\x51\x20\x2f\x86\x8e\x09\xe4\xb6\x1e\xae\xae\x27\xa9\x8c\x55\xdc\xfc\x89\xc3\xd9\x79\x48\xc2\x2a\x69\x4d\x11\xfe\xe8\x2c\x48\x6b\x50\xf3\x33\xa0\x3f\x13\x68\xb2\x4e\x51\xcd\xf5\x8a\xe4\x68\x24\x11\x13\xe4\xe6\xd9\x22\xa1\xf6\x44\x70\xd4\xde\x43\x60\x69\x92\x41\xa3\x6f\x41\x82\xed\xc5\xb4\x5f\x6c\xe2\x7d\xe5\x1e\x28\x4d\xb3\xfc\x87\x9c\x12\x7b\xcc\xe6\xd4\x4d\xb2\x95\xc4\xbd\x3b\xc8\xba\x1e\x02\x4e\x50\x56\xa2\xde\xb7\xea\x59\xed\xa9\xc7\xb4\x19\x7f\x08\x96\xfa\x21\xda\x9b\x55\xaf\x93\x88\xe7\x24\xf5\x3e\x4a\x3c\xf4\x1f\xaf\x5e\xd0\xa7\xd7\xab\xb2\xe2\xe3\xbe\x97\xc1\x31\x3a\x90\x2a\xb8\xcc\xfe\x93\x90\x11\x2b\xf5\x90\x96\xe4\x40\xde\x99\xb2\xf5\xcf\x0e\xf9\xce\x26\xb9\xd3\x0e\xb5\x7c\xca\x52\x6e\x01\xe1\x74\xab\x79\xc7\xb7\xa5\xa4\x74\xf7\x46\x54\x6b\xff\x8b\x81\xe8\xec\x0f\xc6\xd2\xcc\xf3\xa0\x52\xa9\x6b\xe3\x20\xc5\xc9\x58\x43\xea\xb8\x55\x10\x29\xab\xcf\x65\x98\xec\xf0\x82\x24\x5a\x8a\x2a\x6d\x2f\x5d\x28\x54\xa6\xd1\x5f\x4f\x97\xfd\x44\x67\xb6\x85\x0b\x37\xd8\x29\xe9\xb0\x3c\xeb\x81\x86\x3b\xcf\x01\x3c\x2d\x41\x24\xad\xf6\x87\xbc\xa3\x87\x3e\xb7\x5a\x50\x43\x36\xb6\xf0\x3c\xf7\x61\x10\xca\x2e\xf0\x1f\x0f\xa5\xaa\x54\x5a\x6d\xc7\x54\x41\x34\xa8\x74\x32\x63\xdb\xeb\x89\xe3\x9f\xd8\xac\x08\xd3\x30\xbb\xbf\xbc\x1f\x26\x60\x2f\xec\xa0\xd1\xe3\x45\x1b\x44\x24\x6f\x93\xfe\xe7\xb9\xee\xa2\xb3\x1c\xc1\xa9\x4e\x6b\x32\x90\x57\x7c\x68\x7a\x0d\x9f\x3f\xb4\x78\x79\x88\x03\x72\x0e\x5c\xd7\x15\x37\x43\x3d\x3a\x35\xbc\x8a\x7c\x1b\xb2\x0a\x5f\x7e\xde\x61\x69\xca\xc0\xca\x14\x5c\x19\x76\x78\x29\xee\xbb\x8b\x34\x2b\x3f\xac\x03\x88\x98\x0e\x4a\x9a\xa5\x3d\x61\x44\x70\x0e\x9f\x21\xfb\xfe\x42\x47\x5e\x89\x86\xc3\x1b\xa9\x17\x74" },
  Kem { seed: b"\x0f\x1f\xb7\x3c\x87\xbd\x79\x9c\xd6\x9d\x28\x28\x72\x45\x25\x7d\x98\x48\x8e\xee\x32\xc3\xc3\xe4\x40\xf1\x0e\x5b\x4a\xe3\xc4\x47\xc5\xef\x65\xa0\xb9\xf5\x39\x5a\x3c\xd8\x33\x2a\xba\x8a\x93\x09\xbb\x01\x95\xc5\x4a\xe9\xae\x7c\xbe\x58\x2a\xa5\x71\xef\x83\xae", ek: b"\xfb\xa8\xa8\x72\xe3\x3a\x36\xa5\x97\xe3\xf5\xad\x80\x5a\xba\x55\xc3\x9c\xa9\x70\xa6\xc5\x41\xc6\x49\x25\xca\x7a\xf6\x40\x8a\xec\x31\x98\x71\xa1\xc0\xa2\x12\x1f\x63\x9b\x98\xdb\x1b\x5e\xc3\xb9\x38\xbc\x27\x4a\x38\x61\x7b\x84\xc5\xac\x2b\x73\xe4\xa6\x8c\xef\xe4\x34\x97\x93\xb7\x5e\x1a\x6c\xa6\x70\x00\x38\xd8\x34\xcc\xc8\x42\xc1\x85\x78\x1a\xc2\xa2\x0d\x41\x0d\x3f\x8b\x32\x39\xc5\x9b\x76\xa3\x91\x95\x61\x61\x2a\x68\xca\x9b\x90\xc2\x5a\xe5\xac\x15\xd0\xa9\x5c\xc2\xa6\x4c\x51\x74\x45\xe6\x6b\xf9\x32\x0b\x9d\xd0\x37\x90\x6c\x22\xf8\xf0\x15\x8b\x51\x04\x19\x30\xbd\x5c\x37\x11\xfa\x18\x42\xc3\x23\xab\x48\xdc\xa8\x08\xa5\x35\x60\x40\xad\x30\xf7\x33\x66\xa2\x90\x4c\x36\x4e\x78\x12\x4a\x3b\x65\x18\xfa\x1b\x28\xb6\x5b\x4f\x81\xd7\x18\x30\xc0\x18\x2b\xfb\xa7\x48\x5b\xaa\x0a\xc5\x6c\xa6\xf4\x75\xf1\x3c\x9c\xf3\x98\xbb\xbe\x34\x82\x6a\x32\x10\xcf\x38\x1e\xd0\x16\x91\x9d\x10\x90\xf0\x39\x64\xf2\xec\x1d\xaa\x63\x5d\x77\xc8\x42\xc4\xdc\x23\x8a\xe7\x43\xf6\x14\x9f\xa0\x7a\x21\xe7\x0c\xa6\xaf\x71\x38\x72\x4b\x9f\x72\x38\x2e\x65\x75\x12\xdf\x29\x7b\x5a\xa5\xae\xe7\x88\x02\x88\xba\xca\xe7\x1c\x5a\x37\xbc\x63\xab\x1c\x57\xee\x83\xad\xf5\x75\x05\xc5\xab\x38\x54\x7b\xaa\xe1\x5c\xa1\x4c\x84\xae\x18\x2c\x21\x73\xb6\x0b\x3a\x82\x60\x65\xe3\x38\x06\xb8\x49\x59\x18\x4a\x2d\xc0\x3d\x9a\xe9\xb2\xde\x99\xc7\xbf\x90\x3f\xf7\xcb\x73\x75\xbc\x26\xd3\x02\x7b\xc8\x0c\x94\x34\x7a\xa4\xe1\x49\xb4\x0d\x06\x9c\x83\xc7\xb8\xcf\xa5\x16\x71\x81\x8e\xd4\xa8\xaf\x52\x57\x16\xed\x17\x66\xfb\xe8\x5b\x4d\x37\xbb\xe4\x87\x68\xa1\x37\x9d\x3a\xc2\xb7\x48\x7b\x1e\xca\x06\x37\xe5\xf6\x4a\x40\xa0\x1e\x71\xfa\x80\x96\x1b\x66\x63\x85\xb3\x71\xdb\xa6\x6d\x02\x0c\x5d\x30\x9b\x29\xe2\xb5\x53\x84\x88\x94\xa6\x99\xd6\xcc\x4a\x45\x40\x6d\xa2\x96\xae\xbe\xc8\x76\xe3\x1a\xbd\xca\xf7\x60\x79\x03\x7d\x65\x53\x54\xfa\x87\x79\xb3\x14\x71\x1a\xf4\x88\x38\x19\x88\xe3\x81\x35\xf8\xc1\xaf\x9e\x25\x5e\xf8\x00\x1b\xeb\xb0\xc7\x10\x47\x0e\x3f\x83\x7d\xfe\x31\x36\x1a\xfc\x38\xe8\xf0\x79\xc8\x16\xc5\x77\xe5\x68\xce\x27\x74\x59\x98\x02\x4a\xb3\x85\x9c\x93\x13\x70\xc0\x35\xab\xda\x14\x30\x87\xc9\xe4\x65\x7d\x39\x67\xce\x0d\x45\x5e\xb2\x6c\x5b\x53\x61\x10\x6f\xcb\x6a\x54\x95\x1d\x08\x11\xcd\xa9\xc2\xa6\xbe\xb7\x3c\x87\x98\xa9\xbe\xa9\x80\x43\x81\x0b\x58\xaa\x19\xbe\xf1\x3f\x2e\x54\x61\xa5\x27\x41\x0e\xe1\x54\xe9\xf1\x77\x20\xdc\x1f\x08\x80\xb7\x5c\xf4\x5c\x7f\x88\x08\x5f\x13\x9c\xc8\xb4\x80\x4c\xf8\x24\xde\x2b\x44\x2d\xec\x08\xc1\xf0\xc3\xa6\xb9\x41\xce\x18\x7a\x5d\x37\x5f\xe6\xe1\xc6\x82\x27\xbc\xa6\x97\x3e\xf3\xf1\xba\x22\x56\x9b\xdc\xe1\x99\x4c\xd1\x88\x7e\x43\xbe\x59\x3b\x57\xd4\x80\xb8\x9d\x9b\xba\xf9\x92\x59\x6b\xea\x3e\xb5\x44\x34\x04\xb9\xab\x14\x70\x3f\x2e\xaa\x9a\xfc\x88\x1d\x20\x52\xbf\xc6\x6a\x3b\x96\xca\x41\xf1\x22\x3d\x56\xca\x19\xd1\x61\x67\x9a\x78\x62\xd0\x37\x2d\x94\x93\x5c\x20\x63\x48\x4a\xeb\x4f\xa1\x35\x30\x66\x8c\x5a\x0c\x76\xa9\x9b\x2c\x47\xb9\x7a\xbe\x80\x54\x88\x39\xd8\x0c\x35\x11\x44\x92\x9c\x9a\xde\xf4\x3e\x1f\xa1\x62\x8a\x67\x9e\xf3\x17\x57\x58\xb7\x55\xd5\x93\xb5\x69\x0c\x66\x05\x60\xc5\x7a\x5b\x60\x65\xe5\x46\x78\xd6\x95\x9a\x3a\x33\x21\x93\x7f\xae\x29\x07\xa7\xe9\x9f\x1b\xa3\x2d\xae\x5a\x54\x25\x85\xc0\x04\x3c\xa0\x59\xe3\x9c\xf9\x00\xad\x39\x0b\x50\xdf\xc4\x79\xbb\x93\x3d\x34\x26\x49\xed\xf0\x8b\x09\xfc\x3a\x21\x47\xae\xf2\xdc\x99\x31\xbb\x3d\x0c\xe2\x6e\x2a\x5b\x89\x4b\x24\x8c\x2e\x15\xc0\x94\x00\x37\x9a\x64\x28\x28\x95\x1a\xc0\x34\x56\x65\xe0\x61\x83\xc8\x07\x6f\xba\x22\xe7\x06\x33\x41\x6a\x58\x9d\xf7\x4b\x44\x20\x5c\x3e\x2a\x89\xf4\x15\x66\x01\xb1\x73\x9d\xe5\x44\x27\x2b\x86\x04\xb2\x7c\xc8\xb3\x78\x99\x70\x7e\xb6\x2a\x79\xfd\x71\x73\x63\x70\x7c\x15\x70\x8a\x95\x07\x23\xcc\xe6\xc4\x72\xf4\x8c\xf3\xf5\x0c\xa5\x11\x08\xb7\x32\xbf\xf5\x75\x98\x83\xa9\x81\x12\xf1\x6d\xa6\x16\x76\x95\x91\x7a\x3a\x43\x34\x59\x34\x74\x13\x54\x4b\xc2\x69\xc2\xac\x30\xc1\x1a\xfb\x46\x45\xc2\x3e\xf9\x39\x21\xb5\xf0\xb0\x6d\xd9\x08\xa2\x53\x05\xc2\x13\x00\x31\x9c\x0d\x2f\x64\x23\x81\xe5\x0e\x5c\xd1\x60\x51\x58\xad\x85\x03\xbd\xdf\x07\x96\x93\x26\x11\x16\x94\x2d\xdb\x5b\x9e\x8c\x65\x1a\xc6\xa3\xa7\xe3\x49\xae\x6d\x53\x8a\x24\x59\x9c\x65\x55\xca\x98\x53\x7a\x6a\x25\x6f\x4d\x53\x86\x5d\x82\xc6\xfd\x77\x8b\xde\xa3\x31\x84\xa1\x3f\x32\xec\x61\x52\x83\x46\x36\x22\x17\x15\x21\x84\x18\x5a\xbc\xcc\xca\x9f\x36\x05\x8b\xde\x0a\xc3\x79\x4a\x36\xaa\x55\xc5\x4e\x1a\x12\xcf\x28\x7b\x9c\xe4\xaf\x01\xe7\x50\xa7\x92\x9c\xd0\x24\x69\x27\xe8\xbe\xf0\x16\x0c\xa3\xb4\x77\x8f\x77\x58\x0d\xec\x81\x04\x1b\x79\x06\xf2\x26\x78\xf4\xa4\x57\xac\x9a\xba\xcc\x54\x65\x42\x25\xe0\xf4\x82\xa3\x64\x09\xda\xe2\xaa\x25\x19\x86\x8d\xb1\x89\x8f\x10\x4d\x0f\x8b\x7b\xb9\x48\x76\x74\xf5\x08\x4e\xac\x83\x00\x51\x5b\xad\xa4\x8a\x01\xb0\x16\x54\xba\xf8\x66\x9d\x95\xda\x51\xd0\x15\x4f\x1b\xb9\x11\x4c\x15\x0c\x29\x23\xdc\xf2\xfc\xe0\x46\xdd\xba\x8e\x0d\x87\x45\x7a\xba", dk: b"\x59\xa0\x7c\x99\xf7\x3b\xd6\x91\x78\x10\x71\xcf\xf4\xf6\x5e\x66\x8b\x2d\x66\x03\xc4\xfa\xf7\x58\xde\x0b\x93\x34\x28\x2d\x50\x60\x34\x2b\x7a\x63\xbf\x60\xb5\x15\x98\x70\x50\x3a\x87\x56\x5c\x0f\x7b\x60\x73\x2f\x94\x02\x36\x13\x12\xa8\x54\x8b\x1f\xc8\x67\x30\x2a\x57\x9b\xdb\xce\x36\x49\x44\xdc\xea\x9a\x5a\x09\xbd\x5b\x45\x56\xe2\x11\x82\xd3\x78\xcc\xe5\x86\x1d\xd9\x1b\x5a\x64\x56\x8a\x6f\x42\xc2\x32\x65\x01\x49\xd2\x6e\xcd\x20\xbb\x73\x29\x46\x74\x52\xcb\x0c\x28\x93\xf5\x8c\xbb\x0e\x72\x71\x83\xc0\xa5\x74\xf9\x95\x94\x23\x5e\x7d\xe9\x8e\x6b\x56\x0f\x29\x55\x9b\xc8\x75\x9b\x6c\x60\x03\xe6\x25\xa6\xa4\xf5\x49\x68\x38\x4e\x71\xa7\x71\xa1\x91\x2e\x24\xc9\x01\xac\xec\x6d\x9a\x69\x44\xf5\x37\xb4\x1d\x28\xce\x60\x55\x0b\x0d\x56\xc4\xd4\xfc\x17\x97\x30\x9a\xa2\x7c\x0a\xa7\xf1\xc8\x34\xe8\xc6\x27\x93\x91\x99\x32\x33\x04\xa6\xc3\xb0\x58\xa4\x29\x98\xc1\x83\xf6\x4f\xcc\xc6\x18\xb2\xa9\x4f\x54\x10\x82\xfb\x83\x28\xbc\xe9\x41\x86\x3b\x96\x34\xc4\x3e\xae\xbb\xc0\xb0\x91\x89\x26\x32\xc4\xde\x08\x3f\xed\x42\x08\x72\x31\xa4\x5d\x35\x03\x35\x93\xb9\x7a\x20\xba\xf1\x45\xc2\x33\x42\x51\x45\x52\x4e\xca\xd3\x22\x0b\xf5\xc1\xbf\x2b\x22\xe4\x72\x9c\xb9\x00\x10\xdb\x1c\x82\xbd\xe0\x70\xf0\x39\x0d\x44\xa7\xbc\xce\x99\x3d\xd0\x8c\xa8\xb1\x67\x20\x09\xf3\x84\x83\xc4\x5f\x87\xd2\xb3\x21\xd3\xab\x7e\x25\x54\xc4\x04\x5f\xf8\xd8\x0e\x4d\x85\x5a\x3d\xf2\x6c\x89\x06\xb8\xd9\xb3\x33\xe9\x2b\x48\xc2\xf8\x49\xd0\x23\x91\xc7\xcc\x7a\x00\xda\x10\x86\xc6\x87\x93\xb2\x88\xd8\x19\x89\x16\x01\x25\xa4\x34\x93\x62\x6b\xc6\xa0\x64\x64\x1c\x6a\xbb\xf8\x63\xc7\x65\xb6\x22\x02\x1a\x12\x12\xbc\x05\xe0\xa8\xb0\xff\x47\x94\x02\x4b\x21\x57\x40\xc8\x1c\xf6\x36\x61\x27\x78\x22\xf5\x84\x69\x19\x39\xb9\xd7\x1b\xa7\xc2\x07\xde\xea\xc7\x95\xf8\xa5\xf5\x29\xc4\xfd\x90\x0c\x9d\x3c\x45\xa4\x4b\x86\x69\xe0\xc7\x17\x51\xae\x8b\x25\x2b\x4b\xe2\x88\x64\xf9\x54\xb0\x68\x66\xfd\xf4\x1c\x6f\x25\x30\x32\x3b\x8c\x62\x08\x57\x80\x93\x02\xd8\xd3\x5d\x3a\x74\x3a\x14\x90\x86\x6a\x54\x53\x86\x66\xcb\x72\x06\x19\xb4\x35\x0d\x85\xdb\xc4\xe1\x35\x94\x88\xe9\xc7\x9e\xf0\x74\xd9\x55\x3c\xca\x85\x18\xc6\x6a\x29\x33\x14\x07\x49\xd0\xc9\xeb\xf1\xb3\x0f\x51\xbc\xad\xd4\xba\x76\x59\x6d\x3f\x92\xa1\x99\xd3\x53\xb3\xe1\x72\x1e\xd6\xa1\x60\xa7\x97\x12\xa5\x42\x61\xd6\x30\x26\x55\x1f\xf9\x5b\xba\x73\x2c\x87\x32\xc8\xa0\x0b\xeb\x9c\x3f\x18\x43\x44\xfa\xb4\xb7\x98\xa7\x2e\xe0\x4d\x3a\xb2\xbb\x71\xba\x5a\xd7\x74\x1d\xd9\x2b\x37\xad\x27\xb8\xa6\xaa\xa7\x8d\x63\x57\x8c\xd7\x67\x1e\x40\x5e\x56\xfa\x66\xdd\x08\x22\x28\x3c\x5b\x4b\xd0\xb5\x50\x90\xa8\x4a\x41\x3d\x07\x81\x29\xca\x79\x1b\xc6\x95\x72\x6e\xc2\x0b\x2a\xba\x44\xa2\xc2\xa4\xba\xd1\x92\x4e\xb4\x52\x2e\x29\x17\xab\x83\xbe\x87\x97\xa0\x28\xd1\x24\x78\xe6\x51\xbb\x53\x82\x6d\x46\x57\xc9\xd6\x3d\xe6\xb8\x24\x9a\xb8\xbc\x67\x13\xcc\x12\x42\x4b\xc3\x89\x75\x54\x89\x56\x80\xa6\x94\x17\xa2\x53\xd3\xa5\x4e\x0d\x24\x48\x70\x76\x0f\x9d\x14\xc0\x87\xc8\xc3\x2d\x2c\x40\x5a\xe5\x44\x4c\x10\x62\x2b\xd0\x4d\x93\xe3\x89\x6c\x79\x04\x04\x1b\x3a\xc1\xd8\x21\x13\xb1\x7a\xdf\xf0\x5f\x62\xd1\x99\xb4\x51\xbc\x51\xc7\x07\x98\x23\x06\x35\xfa\x54\x2a\xec\x37\xcb\x42\x44\xaf\x6b\xa2\xb5\xf1\x00\xfb\x69\x1f\xa9\x70\x2b\xca\x0b\x7a\xbd\x89\xc1\x9b\x55\x12\x8e\xb3\xa7\x08\x32\xa3\x6b\x1c\x11\x19\x1a\x88\xb4\xa1\x96\x3a\xdc\x37\xba\x4a\x59\xdc\x83\x94\xd3\x82\xbd\x0e\x21\xb7\x0f\xd1\x3a\x2d\x77\x8b\xf5\xf4\x5e\x47\x1a\x36\xaf\xe8\x41\xad\x94\x3b\x1f\xf1\x2c\xb0\x29\x49\x7b\x34\x67\x82\xc5\xcd\xa3\x51\x6e\x01\x84\x1b\xf6\xa8\x68\xc6\xb4\x73\xfb\xc9\x67\x5a\x80\xa6\xbf\x35\x57\xac\xe0\x97\xc6\xa1\x9f\x71\x34\x07\xd3\x9b\x05\xc4\xd1\x60\x81\x4c\xb9\x44\x3b\x73\xd4\x9b\x60\xc6\xb4\x59\xce\xf2\x00\x85\xa1\x2d\xcb\x64\xc5\x7a\x80\x5c\xce\x2c\x56\x68\xe7\x8b\xd0\x04\x33\x9f\xcb\x63\xb7\x57\x8b\x7c\xa7\x1b\xfe\xc3\xb6\x32\x86\x8f\x6d\xe6\xa2\xda\x4a\x83\x8b\x29\x39\xbb\xd1\x7b\xc2\x8b\xcd\x45\x58\xae\x13\x27\x5c\xcc\xc3\x34\xfa\x36\x9c\x49\x61\x0c\x8a\xe8\x6c\x81\xd0\x63\x8b\x83\xbe\x78\x4b\xc5\xbd\x06\x58\xe2\xca\x0b\x7d\xd9\x08\xbf\x62\xc1\x48\xdb\x9d\xcb\xc6\x3b\xcd\x6a\x1f\x83\x98\x03\x6c\x34\x40\x15\x3a\x3e\x99\x37\x94\xdc\x37\x27\xde\x7a\x2d\xd5\xd8\x7b\xf4\xd7\xa1\x82\x75\xa0\xe4\xe7\x00\x73\x1b\x6d\xbe\x87\x6f\x67\x01\xbb\xcf\xd3\x5a\xcb\x9a\xbd\x84\x46\x91\xb0\x6a\x87\x8c\x45\xa3\x73\xa3\x85\xe2\x7a\xaa\x05\xb4\x1a\x5a\x31\xc9\x9a\xec\x80\xbd\x08\xa7\xb3\x49\xc2\xc6\x71\x83\x26\xe1\x70\x5a\x4c\x44\x39\xda\x33\xad\x13\xce\x6c\x80\x8b\xb8\x19\x49\xf6\xf7\x81\x9b\x33\x23\x3d\xb1\x8b\x24\x3a\x00\xcb\xf2\xb3\xd3\xb0\x76\x95\x40\x4d\x20\x66\x8d\xf8\x02\x22\x14\xa1\x14\xa0\xfa\x4d\xfc\x76\x12\x6a\x59\x47\xc1\x14\x5c\xf4\xd9\x00\x73\x45\x80\x90\xf1\xa9\x60\x0c\x8e\xf8\xb1\x01\xb9\xc2\xbe\x93\x0c\x2c\xfb\xa8\xa8\x72\xe3\x3a\x36\xa5\x97\xe3\xf5\xad\x80\x5a\xba\x55\xc3\x9c\xa9\x70\xa6\xc5\x41\xc6\x49\x25\xca\x7a\xf6\x40\x8a\xec\x31\x98\x71\xa1\xc0\xa2\x12\x1f\x63\x9b\x98\xdb\x1b\x5e\xc3\xb9\x38\xbc\x27\x4a\x38\x61\x7b\x84\xc5\xac\x2b\x73\xe4\xa6\x8c\xef\xe4\x34\x97\x93\xb7\x5e\x1a\x6c\xa6\x70\x00\x38\xd8\x34\xcc\xc8\x42\xc1\x85\x78\x1a\xc2\xa2\x0d\x41\x0d\x3f\x8b\x32\x39\xc5\x9b\x76\xa3\x91\x95\x61\x61\x2a\x68\xca\x9b\x90\xc2\x5a\xe5\xac\x15\xd0\xa9\x5c\xc2\xa6\x4c\x51\x74\x45\xe6\x6b\xf9\x32\x0b\x9d\xd0\x37\x90\x6c\x22\xf8\xf0\x15\x8b\x51\x04\x19\x30\xbd\x5c\x37\x11\xfa\x18\x42\xc3\x23\xab\x48\xdc\xa8\x08\xa5\x35\x60\x40\xad\x30\xf7\x33\x66\xa2\x90\x4c\x36\x4e\x78\x12\x4a\x3b\x65\x18\xfa\x1b\x28\xb6\x5b\x4f\x81\xd7\x18\x30\xc0\x18\x2b\xfb\xa7\x48\x5b\xaa\x0a\xc5\x6c\xa6\xf4\x75\xf1\x3c\x9c\xf3\x98\xbb\xbe\x34\x82\x6a\x32\x10\xcf\x38\x1e\xd0\x16\x91\x9d\x10\x90\xf0\x39\x64\xf2\xec\x1d\xaa\x63\x5d\x77\xc8\x42\xc4\xdc\x23\x8a\xe7\x43\xf6\x14\x9f\xa0\x7a\x21\xe7\x0c\xa6\xaf\x71\x38\x72\x4b\x9f\x72\x38\x2e\x65\x75\x12\xdf\x29\x7b\x5a\xa5\xae\xe7\x88\x02\x88\xba\xca\xe7\x1c\x5a\x37\xbc\x63\xab\x1c\x57\xee\x83\xad\xf5\x75\x05\xc5\xab\x38\x54\x7b\xaa\xe1\x5c\xa1\x4c\x84\xae\x18\x2c\x21\x73\xb6\x0b\x3a\x82\x60\x65\xe3\x38\x06\xb8\x49\x59\x18\x4a\x2d\xc0\x3d\x9a\xe9\xb2\xde\x99\xc7\xbf\x90\x3f\xf7\xcb\x73\x75\xbc\x26\xd3\x02\x7b\xc8\x0c\x94\x34\x7a\xa4\xe1\x49\xb4\x0d\x06\x9c\x83\xc7\xb8\xcf\xa5\x16\x71\x81\x8e\xd4\xa8\xaf\x52\x57\x16\xed\x17\x66\xfb\xe8\x5b\x4d\x37\xbb\xe4\x87\x68\xa1\x37\x9d\x3a\xc2\xb7\x48\x7b\x1e\xca\x06\x37\xe5\xf6\x4a\x40\xa0\x1e\x71\xfa\x80\x96\x1b\x66\x63\x85\xb3\x71\xdb\xa6\x6d\x02\x0c\x5d\x30\x9b\x29\xe2\xb5\x53\x84\x88\x94\xa6\x99\xd6\xcc\x4a\x45\x40\x6d\xa2\x96\xae\xbe\xc8\x76\xe3\x1a\xbd\xca\xf7\x60\x79\x03\x7d\x65\x53\x54\xfa\x87\x79\xb3\x14\x71\x1a\xf4\x88\x38\x19\x88\xe3\x81\x35\xf8\xc1\xaf\x9e\x25\x5e\xf8\x00\x1b\xeb\xb0\xc7\x10\x47\x0e\x3f\x83\x7d\xfe\x31\x36\x1a\xfc\x38\xe8\xf0\x79\xc8\x16\xc5\x77\xe5\x68\xce\x27\x74\x59\x98\x02\x4a\xb3\x85\x9c\x93\x13\x70\xc0\x35\xab\xda\x14\x30\x87\xc9\xe4\x65\x7d\x39\x67\xce\x0d\x45\x5e\xb2\x6c\x5b\x53\x61\x10\x6f\xcb\x6a\x54\x95\x1d\x08\x11\xcd\xa9\xc2\xa6\xbe\xb7\x3c\x87\x98\xa9\xbe\xa9\x80\x43\x81\x0b\x58\xaa\x19\xbe\xf1\x3f\x2e\x54\x61\xa5\x27\x41\x0e\xe1\x54\xe9\xf1\x77\x20\xdc\x1f\x08\x80\xb7\x5c\xf4\x5c\x7f\x88\x08\x5f\x13\x9c\xc8\xb4\x80\x4c\xf8\x24\xde\x2b\x44\x2d\xec\x08\xc1\xf0\xc3\xa6\xb9\x41\xce\x18\x7a\x5d\x37\x5f\xe6\xe1\xc6\x82\x27\xbc\xa6\x97\x3e\xf3\xf1\xba\x22\x56\x9b\xdc\xe1\x99\x4c\xd1\x88\x7e\x43\xbe\x59\x3b\x57\xd4\x80\xb8\x9d\x9b\xba\xf9\x92\x59\x6b\xea\x3e\xb5\x44\x34\x04\xb9\xab\x14\x70\x3f\x2e\xaa\x9a\xfc\x88\x1d\x20\x52\xbf\xc6\x6a\x3b\x96\xca\x41\xf1\x22\x3d\x56\xca\x19\xd1\x61\x67\x9a\x78\x62\xd0\x37\x2d\x94\x93\x5c\x20\x63\x48\x4a\xeb\x4f\xa1\x35\x30\x66\x8c\x5a\x0c\x76\xa9\x9b\x2c\x47\xb9\x7a\xbe\x80\x54\x88\x39\xd8\x0c\x35\x11\x44\x92\x9c\x9a\xde\xf4\x3e\x1f\xa1\x62\x8a\x67\x9e\xf3\x17\x57\x58\xb7\x55\xd5\x93\xb5\x69\x0c\x66\x05\x60\xc5\x7a\x5b\x60\x65\xe5\x46\x78\xd6\x95\x9a\x3a\x33\x21\x93\x7f\xae\x29\x07\xa7\xe9\x9f\x1b\xa3\x2d\xae\x5a\x54\x25\x85\xc0\x04\x3c\xa0\x59\xe3\x9c\xf9\x00\xad\x39\x0b\x50\xdf\xc4\x79\xbb\x93\x3d\x34\x26\x49\xed\xf0\x8b\x09\xfc\x3a\x21\x47\xae\xf2\xdc\x99\x31\xbb\x3d\x0c\xe2\x6e\x2a\x5b\x89\x4b\x24\x8c\x2e\x15\xc0\x94\x00\x37\x9a\x64\x28\x28\x95\x1a\xc0\x34\x56\x65\xe0\x61\x83\xc8\x07\x6f\xba\x22\xe7\x06\x33\x41\x6a\x58\x9d\xf7\x4b\x44\x20\x5c\x3e\x2a\x89\xf4\x15\x66\x01\xb1\x73\x9d\xe5\x44\x27\x2b\x86\x04\xb2\x7c\xc8\xb3\x78\x99\x70\x7e\xb6\x2a\x79\xfd\x71\x73\x63\x70\x7c\x15\x70\x8a\x95\x07\x23\xcc\xe6\xc4\x72\xf4\x8c\xf3\xf5\x0c\xa5\x11\x08\xb7\x32\xbf\xf5\x75\x98\x83\xa9\x81\x12\xf1\x6d\xa6\x16\x76\x95\x91\x7a\x3a\x43\x34\x59\x34\x74\x13\x54\x4b\xc2\x69\xc2\xac\x30\xc1\x1a\xfb\x46\x45\xc2\x3e\xf9\x39\x21\xb5\xf0\xb0\x6d\xd9\x08\xa2\x53\x05\xc2\x13\x00\x31\x9c\x0d\x2f\x64\x23\x81\xe5\x0e\x5c\xd1\x60\x51\x58\xad\x85\x03\xbd\xdf\x07\x96\x93\x26\x11\x16\x94\x2d\xdb\x5b\x9e\x8c\x65\x1a\xc6\xa3\xa7\xe3\x49\xae\x6d\x53\x8a\x24\x59\x9c\x65\x55\xca\x98\x53\x7a\x6a\x25\x6f\x4d\x53\x86\x5d\x82\xc6\xfd\x77\x8b\xde\xa3\x31\x84\xa1\x3f\x32\xec\x61\x52\x83\x46\x36\x22\x17\x15\x21\x84\x18\x5a\xbc\xcc\xca\x9f\x36\x05\x8b\xde\x0a\xc3\x79\x4a\x36\xaa\x55\xc5\x4e\x1a\x12\xcf\x28\x7b\x9c\xe4\xaf\x01\xe7\x50\xa7\x92\x9c\xd0\x24\x69\x27\xe8\xbe\xf0\x16\x0c\xa3\xb4\x77\x8f\x77\x58\x0d\xec\x81\x04\x1b\x79\x06\xf2\x26\x78\xf4\xa4\x57\xac\x9a\xba\xcc\x54\x65\x42\x25\xe0\xf4\x82\xa3\x64\x09\xda\xe2\xaa\x25\x19\x86\x8d\xb1\x89\x8f\x10\x4d\x0f\x8b\x7b\xb9\x48\x76\x74\xf5\x08\x4e\xac\x83\x00\x51\x5b\xad\xa4\x8a\x01\xb0\x16\x54\xba\xf8\x66\x9d\x95\xda\x51\xd0\x15\x4f\x1b\xb9\x11\x4c\x15\x0c\x29\x23\xdc\xf2\xfc\xe0\x46\xdd\xba\x8e\x0d\x87\x45\x7a\xba\x12\xf2\x01\x10\xe3\x76\x0c\x6b\x92\xec\xc4\xac\x47\x0c\x74\x28\x4d\x87\xa1\x55\x05\xf6\xe9\xed\x91\x9b\x53\xa2\xf1\x0e\xff\x22\xc5\xef\x65\xa0\xb9\xf5\x39\x5a\x3c\xd8\x33\x2a\xba\x8a\x93\x09\xbb\x01\x95\xc5\x4a\xe9\xae\x7c\xbe\x58\x2a\xa5\x71\xef\x83\xae", m: b"\xbe\x86\xf9\x5e\x42\x80\x0b\x04\x14\xb3\x21\x2e\xea\x19\x31\x3e\x46\xaa\x72\xdd\x81\x90\xc0\x89\xad\x7d\x28\x58\x4f\xe2\xa6\x6f", k: b"\xdd\xa2\x2d\xc2\xab\x18\xbc\x18\x62\xb0\x9c\x69\x47\x21\x25\x9f\x41\x8c\x17\x80\x74\xa5\x92\xfb\xb2\x6b\x8d\x6a\xeb\x7a\x28\xda", c: b"\xc3\x53\x7d\x2e\xd6\x8e\xf3\x7d\x91\x06\x58\xdd\xdd\xa9\xa8\x66\x98\x5b\x47\xe9\x48\x4e\x07\x64\x48\xc8\x71\x40\x76\x85\x6f\x51\xc6\x9d\x74\x72\xc4\x65\x46\xd8\x01\x50\x8f\x74\x2b\x47\x65\x20\xe2\x73\x92\xc6\xf4\x4f\x3c\xb2\x75\xf2\x37\x7d\xd1\xc3\x05\xa4\x06\x5c\xd4\x29\xbe\xbd\x5d\xee\xfa\x6a\xff\xe9\x52\x3c\x6d\xbb\x4e\x0c\x2b\x82\x98\x7f\x71\x9b\x37\x04\x71\xa3\xbb\x3e\x7f\x44\xa0\xce\xcf\xd5\x77\xab\x91\xb6\x3a\xdb\x8b\x2e\xac\x91\xf9\xbd\x05\x68\x68\x00\x8e\x20\x76\x25\x3d\x1f\x39\x9a\x28\x88\x81\x46\x7a\x32\x5d\x7d\x38\x16\x20\x64\x36\xbb\x74\x3c\x86\xa6\x93\xfc\x5d\xf5\x68\x73\x12\xc0\xf7\xfe\x42\xae\x8a\x93\xde\x4e\x25\x02\x2b\xc2\x31\x7c\x4e\x49\xf8\x3f\xcc\x1b\xc2\xa9\xdf\x56\x74\xd5\x2f\x5f\xbb\xe6\x72\xbd\x4a\x50\xdf\xdf\x3d\xf5\xb1\x4b\xf7\x97\x55\x4c\x3e\x75\xb3\xf9\x07\x06\x7c\x12\xf1\x35\x87\xa3\xce\x1c\xa9\x48\x15\x4f\xfb\x8d\xfb\x9c\xc8\xec\x8a\xaa\xfb\xa2\x93\x77\xc9\xf8\x09\xb6\x92\xed\x61\x91\xf8\xdb\x5c\xcb\x69\xa5\xba\x62\xa3\x06\x23\xc3\xb1\xd7\x5a\x34\xec\xd0\x10\x7b\x02\x9c\x60\x57\x20\xc8\x6a\xb3\x21\xcc\xd6\x04\xf6\x2f\x5f\x7e\xab\xc1\x7a\x24\x00\xd5\x60\xab\x0f\x95\x0a\xaf\x36\x8b\xf0\x6d\x29\x0a\x2f\xbc\x23\xda\xd4\xc0\xc1\xc8\xa1\x41\x50\xb3\x6e\xde\x96\x78\x81\xd9\x3d\x96\x1e\x22\xc1\x67\xe9\xfd\xa1\xb2\xf3\x52\xb4\xcd\x33\x0b\x06\x80\x36\xe1\xf9\xcf\x47\xff\x64\x0f\x81\x6a\x0a\xf4\x01\x39\x7e\x47\x36\xa1\x56\xac\x00\x02\x49\xf6\x0f\xee\x2d\x1f\xef\x35\x1d\xe7\x9f\x8d\x30\x24\x72\x22\xa7\x24\xef\x0c\xa7\xf3\xd1\x86\x27\xeb\x48\xd8\xaf\xef\xba\xae\x4a\x01\xd2\x71\x64\xec\x46\xd1\x74\xc8\x41\x87\xbc\xf5\x08\x3b\xb9\x9c\xe1\x9a\x18\x49\x8e\xc4\x87\x58\x54\x98\x0c\x17\x33\xe1\x6a\x25\xfc\x7d\x3b\xe1\xf0\x00\x76\xbd\x29\x3e\x45\x53\xa3\xa5\x7f\xa5\x2d\x57\xcf\xf8\x84\xb2\x2c\x4d\xf8\x70\x53\x32\x73\x9b\xc3\x04\x1b\x8b\xd9\xc5\x6f\x7f\xe9\x4b\x33\xe7\xe9\x05\x5e\xbd\xbb\x21\xf1\x85\xa2\xb8\xce\x59\xa2\x41\xb1\xa2\xbe\xb8\x45\x9e\xfe\x30\x59\x85\x8f\xef\x38\x51\x43\x82\xc4\x0f\xa7\x16\xdf\xcc\xa7\x06\x7f\x08\x49\xf8\xcf\xaa\x3f\xcf\xca\xb3\x8f\x8b\xe2\x16\x62\x24\xe2\x09\x5b\xb9\x17\x57\xe6\x5e\xb2\xd2\x02\xfb\x9f\x39\xa1\xf5\x68\xbd\x6e\x83\x37\x9c\x26\x99\xb4\x4f\xaa\x15\x77\x6e\xcf\xce\x36\xe0\xd3\x33\xf2\xc5\xd8\xe2\x50\xe8\x67\x26\xc2\x40\x11\x05\x86\x7c\x7e\x48\xff\x26\x77\x08\xfc\x0e\x4e\x47\xe8\xd0\x58\x53\xb8\x1e\x3d\xb2\x8d\xa1\x89\xe6\x0a\x61\x12\xb8\x6f\x16\x89\xe7\xd6\xeb\xc4\x98\xa2\x44\xfa\xf0\xda\x89\x53\x62\x8b\xe1\x28\xe4\x63\x14\x5c\xfe\x29\xef\xbe\xc7\x50\x66\xf7\xed\x37\x23\x9d\x9e\x4e\x55\x37\xe8\x6f\x7d\x0a\xcc\x14\x3d\xdd\x87\x8f\x46\x02\xfd\x47\xbc\xca\x06\x49\x09\x1f\x8c\xf5\x1e\xc8\x34\x46\x98\x2d\x1a\xe3\x85\xb0\xa0\x06\x99\x29\x27\x05\x56\x9a\x0c\x73\x8e\x2f\x7a\xa9\x02\x1a\xd1\x2d\x0e\x33\x85\xa2\xa4\xc4\x56\x7b\x16\xab\xb3\xd5\x7e\x82\xb1\x84\x9b\xb4\xa7\x30\xaa\xd5\x56\x82\x66\x92\x5c\xff\x4d\xfd\x8f\x65\x6d\x9f\x6c\x9a\x02\x11\x97\xff\xf5\x13\xe7\x89\x4a\x72\x2c\xc0\xea\x55\x3d\x2d\xf0\x29\x1a\xb2\x7d\xaa\x9c\x2f\xf4\x62\xfc\x32\x8d\x73\x58\xc7\x2a\xe9\x8b\x05\x80\xa5\x25\x58\x46\xb3\x6e\x86\xe3\x39\x73\xe6\x1a\xac\x08\xe3\x90\x77\xdb\x25\x80\x14\xa8\x3e\xb8\xff\x57\x62\x99\x3f\x1a\xf8\x71\xb2\x6b\x03\x4a\xed\xd6\x9e\x5f\x5a\xe1\x7c\x11\x54\x78\xef\xcc\x0b\x71\x8c\x43\xcb\x08\xf5\xd8\xe9\x6c\x30\x70\x36\xaf\xb1\xd2\x41\x15\x3d\x9a\x88\xda\x89\xbb\xbe\x92\x7f\x81\x24\x07\x47\x2b\x27\x4d\x7d\xf5\xbf\xae\xca\xc7\x37\xfd\xde\xa8\xb6\x2c\x39\xb4\x91\xd0\x41\x78\xfc\x5b\xe2\x68\x46\x3a\x4f\x12\xb7\xbc\x1f\xae\xbb\xdc\x45\xc5\xa0\xec\x0f\x82\x7f\x43\x94\xa9\x62\x82\x5b\x43\x45\x10\xaa\xa9\xfd\x02\xec\x1d\x79\x6e\x7d\x77\x32\x28\xf0\x8e\x42\xd2\x36\x5a\x40\xe0\xb4\xc9\xe2\xbf\x43\x9f\x91\x41\x64\xeb\x4b\xa1\x67\x63\x72\xdd\xd4\xc5\x49\x60\x45\x76\x13\x60\x0c\x05\x2c\xc0\x8f\xcc\x0d\x44\xea\xe5\xfc\x07\x10\xd8\x09\x99\x34\xb8\xd6\x09\xa2\x3b\x79\xdc\xda\x94\x2a\xc7\x4f\xcd\xea\xdb\xa5\x82\xa6\x70\x51\x98\x07\xbc\xc2\x8b\x94\x01\x65\x5b\x45\x51\x1c\xd1\xbc\x03\x0d\x61\xc4\x78\x86\x3a\xe4\x57\x36\x90\x2d\x43\xdf\x1f\x4c\x07\x03\xdc\xa5\xfe\x98\xe9\x1e\xe2\x92\x28\x59\x17\x3f\x1e\x55\xb0\xda\xc1\xfc\x19\x00\xd1\x3d\x5e\xd7\x7f\x5b\x93\x6b\x87\xa7\xc4\xf2\x90\xc4\xc2\xaf\x5e\xc3\xef\x9d\x15\x3d\x6c\x91\x81\xc5\x85\x46\x05\x52\x20\x1c\x48\x86\x82\xd1\x7b\x6e\xaa\xcc\x4b\x39\x6e\xea\x85\x50\x52\xac\x2f\x5e\xbb\x08\xbf\x2b\x78\xb5\xb7\x76\x59\x31\xbc\x6c\xa9\x49\x9a\x66\x04\x54\xcf\x1b\x9a\x17\x61\x53\xab\xf8\xde\x35\x74\x04\x3b" },
  Kem { seed: b"\xad\xa0\xd3\x03\xc0\xa3\x4b\xf2\x40\x7e\x1e\xb3\x4b\x32\xfc\x55\xc4\xe5\xed\x93\x24\x0e\xaa\x7d\xeb\x7b\xbd\xaa\x62\x78\xff\x84\xbd\x62\x44\x70\x7e\x4b\x7a\x7c\x1b\xc1\xe2\x86\xb1\xf7\x9c\x20\xeb\xe8\xb2\x88\x5f\xfd\xf0\xcd\x65\xfb\x00\xee\xae\xed\x8b\x51", ek: b"\x45\x25\x85\x3c\x05\x00\x2e\x77\xaa\x97\x14\xc2\x1a\x7c\x90\x30\x56\x1e\x62\x65\x41\x4b\xb5\x48\x7a\x02\xaa\x13\xa9\x08\xde\xa3\x09\xd9\xd1\xb0\xcb\xd8\x15\xf7\x95\x0e\x1a\x61\x93\x0d\x04\x04\x47\xcc\x74\x28\xc4\x36\x12\xc0\x0b\xff\xbb\xa1\x85\xa2\x0a\xe6\xcb\xcd\x5f\x5a\xa5\x08\x41\xb2\x58\x4b\x05\x22\x90\x59\xb4\x35\x7c\x8b\x10\x89\xd7\x11\x5e\x6d\xe7\x68\xc4\x08\x0a\x51\x08\x25\xe9\x32\x3a\x2a\xd4\x22\x60\x7c\x6f\x80\x0b\xa5\xde\xd9\x8e\x3d\xbc\x8b\xf8\x77\x22\x98\x84\xc4\xd3\x50\x4e\xf8\x13\x5d\x84\xab\x1d\x97\x28\x4b\x2e\x49\xcb\x93\xb9\x7f\x8e\x82\x51\xa0\x68\x8b\x76\x36\x3f\x68\x33\x65\x71\x42\x05\xe8\xc7\x4c\x67\x70\x79\xe1\x00\x60\x79\x32\x43\x28\x34\x8f\xff\xa5\x5b\x80\x48\x66\x1c\x0a\x5b\x63\xfc\x7f\xd4\x59\x0c\xc8\x29\x4c\xa7\x25\x3a\x08\x1a\x1e\x60\xab\x71\x83\xe1\x3a\xce\x59\x7e\xc4\x08\x21\x48\xf4\x8a\xda\x45\x98\x48\xb0\xba\xb6\x54\xa1\xc3\x18\xb2\x0b\xcb\x36\x43\x2a\x01\x20\x05\x70\xb8\x67\x61\xd5\x40\x14\x9d\xd0\xb0\x1a\x64\x2d\xca\x00\x30\xc5\x43\x9b\x56\x11\x8c\xd5\x55\x9b\xeb\x69\x4e\x14\xe7\xbf\x43\xa9\x5b\x43\x24\x6d\x24\xa7\x95\xcb\xc1\x0a\xbe\xe2\x61\x73\x45\xaa\x62\x8b\x3d\xed\x4c\x52\xd6\x63\xbb\x81\x77\x40\x45\xa2\x93\x4a\xcc\x6c\x12\x76\x02\x76\x96\x87\xa3\x81\x6d\xfc\x66\xaa\x96\x3c\x40\x36\x04\x7a\x6e\x5b\xa9\x41\x1b\x1e\xe4\x57\x98\x0e\x22\x19\x15\x13\x33\xd0\x85\x12\xc6\x6b\xb8\x1c\x0c\x75\x3d\x0a\x91\xa6\x43\x89\xae\x97\xbe\x4e\x4a\x66\x3a\x17\x7a\x8e\x27\x13\xe0\x00\xcd\x9b\x11\x2b\x47\x0b\xc1\xe0\x13\xc0\x09\x68\x4f\x67\xb6\xb0\x87\x89\xa4\xcc\xa4\x51\x5f\xc4\x2b\x4e\x89\xaf\x20\x14\x50\xdd\x41\x65\x1d\xc6\x61\xfa\xd6\x72\x38\x82\x04\xf1\x33\x84\xd8\x8a\x1f\x45\xf9\xb2\x2d\xc4\x16\xcf\xb1\x9b\xc7\x68\x0d\xdd\x99\x40\xf8\x34\x28\xc0\x05\x66\x08\x3b\x43\x73\xc2\x3c\x06\xd8\x04\x4d\xa8\x4e\x57\x47\x5f\x99\xe9\x38\xf2\xbc\xcb\x6c\x82\x79\x6a\x9b\x24\x01\xa8\xce\xdb\x60\x6d\x24\x14\xb6\xf0\xc5\x1b\x47\x8c\xc8\x3c\xb4\x4e\xcf\x16\x98\x6b\x26\x4a\xba\x05\x8a\x73\x73\x1f\x99\x14\xbe\x77\xc8\x2c\x5e\x8a\x7f\x43\x63\x40\xbe\xe6\x28\x66\xe2\x65\xa0\x59\x3b\xa0\x42\x1a\x3d\x29\x52\x04\x17\x5a\x71\x51\x10\x97\xe0\x38\xfd\xf1\x5f\xe5\x7b\x7e\x8c\xfc\xce\x46\x6b\x21\x78\xa0\x3d\x9a\x72\x38\xe2\xa6\x9a\xdc\x9a\x8e\x7f\x04\x3d\x65\xd4\x20\xfa\xfc\xcf\xac\x88\x5f\x75\xa9\xb7\x94\x23\xb8\x07\xa0\xa1\x8a\x79\xce\xd8\x23\x4c\x65\xa9\x34\xa8\xf9\x81\x87\xf0\x1b\x2d\xf6\x2a\xa8\xa1\xb1\xb0\x49\x47\x7e\x2b\xc7\x27\xa4\xb8\xb5\xa2\x62\xa6\x21\x79\x11\x0a\x89\x05\x79\xad\x21\x93\x35\x8f\xe1\x2f\xea\x59\x14\xad\xb7\x78\xd0\x40\xae\x15\xfa\x97\x04\x9b\x66\x12\x40\xc6\xcb\x69\x5c\x5d\xc5\x05\x48\x13\x0a\x73\x4a\x02\x0c\x47\x65\x47\xf3\x2f\x04\xc6\x43\x2b\x96\xcc\xda\x28\xc5\x15\x90\xbb\x6f\xe7\x3b\x11\x61\x51\x42\x16\x5c\xd4\xeb\x4e\x5c\x7a\x10\x10\x0b\x65\x57\xa4\xa7\xdc\x55\xca\x28\x99\x50\x3d\x07\xbb\xa2\xe2\x51\x44\x91\xc5\x0f\x84\xbd\x0c\x81\x08\x4c\x63\x37\x4e\xd1\xa3\x8b\x16\x88\x9b\xa6\x22\xbe\x01\x57\xcd\xb3\x3b\xde\xe8\x40\x2a\x32\x92\x62\x78\x78\xc8\xb9\x5c\xc9\x64\x39\xea\x03\xa1\x58\x35\xc0\xdf\x71\x25\x5d\xa7\x17\xfa\x20\xa4\xe1\xb6\x9e\xed\x79\xba\x75\x5c\x82\xbd\x39\x63\xf0\xd1\x41\x0f\x14\x10\x96\xe7\x1e\xcb\x58\x4b\x9e\x1a\x51\x6f\x00\x52\x29\x3b\x3d\x83\x18\x66\x54\x43\x3a\x9a\xa0\xc1\x74\x31\xcf\x4c\x6a\x6a\xf1\xab\xbc\xf8\x54\x0f\xff\xac\x78\x2e\xe8\x9b\x79\x90\x90\xcf\x3a\xa0\xa7\xfa\x2b\x97\x83\x72\x8a\x71\x45\x69\x4c\xc1\xbf\x86\x18\x31\xa6\x57\x93\x45\x60\xbd\x0a\xb2\x26\x6c\x4a\x39\xea\x1c\xcb\x04\x2e\xff\xd2\x6c\x11\x25\xb8\x12\xca\x5f\x1c\xa5\x59\xe5\x8c\x7b\x75\x50\x9e\x8d\x5a\xa4\x5f\xf2\x32\xf8\x04\x9d\x29\x9c\x45\x38\x01\x18\x6c\xf9\x04\x92\xe2\x33\xce\xb1\x5c\xd4\x77\x12\xfb\xb3\x87\xd0\xb6\x7e\xc7\x2c\xc6\x53\x1a\x70\x5c\x2a\x86\x1b\x03\x19\x32\xb8\x24\xac\x8a\xb6\x0a\x08\x0e\xce\x59\x67\x9b\xf4\x52\x56\x31\x16\xb4\xf0\x98\xb0\x95\x7a\xa7\x24\x0e\x50\xa9\xb7\x15\x88\x85\xdb\x46\x73\x24\xc0\x71\x2d\x8a\x89\xbe\x7c\xc0\x95\x2b\xc1\xc3\xda\x04\xa4\x72\x0d\xf9\xa2\xad\xfb\x70\xc3\x6e\xba\x93\xd7\x13\x36\xc2\x86\x8b\xa7\x80\x23\xe0\x9c\xa6\x5f\x5c\xa0\x2a\x85\x8a\x54\x31\x34\x72\x53\x8e\xaf\x54\x8e\x71\x50\x6f\x23\x46\xc0\x61\x0b\x80\xb7\x83\x35\x9b\xc6\x0b\x91\x1a\x1b\x59\x29\x0e\x97\xa1\x29\x93\x14\xb5\x1b\x0a\x3d\xf6\x0c\x95\x94\xa1\x78\x74\xca\x24\x89\x40\xc8\x8a\x7b\xa7\x6a\x80\x35\x0e\xec\x9d\x9f\xb4\xb8\x5f\x47\x9b\x33\x11\x40\xa0\x03\x0a\x26\x83\x39\xc5\xa1\x94\xc3\x31\x10\x5a\xb7\x66\xde\xd6\x42\x9a\x99\xa8\x78\x9a\x5e\x5b\x57\xc6\xf6\x90\x13\x4d\x33\xad\x2e\x59\x68\x7e\x59\x24\x78\xcc\x93\xd7\xcb\x9f\x20\xac\x1b\xf8\x41\x39\x3c\xb9\x52\xbd\x67\xcb\xcf\xb3\x32\x93\x2c\x6a\xfc\xf1\x25\x73\x66\x2e\x42\x5a\x08\x6a\x77\x89\x89\x79\xbf\xec\x67\xb2\xae\xf1\x17\x1d\x26\x3c\x7b\xf2\x59\x9d\xc5\x88\x6a\x48\xf2\xda\x95\x1b\x17\x46\x00\x69\xda\xd5\x28\xde\x27\xdb\x5c\xff\x62\x13\xa8\x42\x5c\xce\x39\x59\x75\xcb\xe8", dk: b"\x29\xa1\xaf\xcd\x94\xcd\xce\x56\x71\xf8\x92\x42\x14\x25\xc0\x30\xf7\x01\x81\x85\x85\x82\x84\x17\x8b\xab\x75\xc6\xc5\xc8\x80\x40\x1f\x23\x09\x15\xa7\xc8\xbf\x04\xec\xa8\x43\xc7\xce\x0a\x45\x59\xe1\x88\x54\x99\xf0\x34\x36\xe9\x54\x9e\x36\x39\x10\xb4\x74\xaf\x25\x1f\x5b\x18\x4e\xc3\x69\x17\xba\xc2\x2f\x77\x0a\xb6\x9d\xc4\x0a\xc5\x86\x56\xfc\x7a\x0f\xc5\xd2\x02\x21\x8a\x74\x69\x9b\x16\x18\x5a\xad\xd8\x92\x7d\x72\x75\x6a\x37\xc5\x66\xa2\x98\x11\xba\x08\x48\x6b\xfb\xa2\xd4\x56\xc6\x3c\xfb\x1d\xbc\x64\x7c\xaf\x1c\x37\x11\x7b\x47\xc4\x41\x03\x29\xf7\xad\xcd\xd4\x8c\xe6\xa9\x31\xf9\x2c\x8e\x28\x28\x6b\x7e\xf8\x39\x9e\x37\xac\x1c\x47\x97\xc3\x8a\xa1\x9e\x2c\xbd\x5c\xaa\x99\x3a\xc8\x63\xac\x93\xcc\xc2\x3c\x5e\x5a\x60\x5c\x79\xe7\x98\xcf\x27\xa6\x91\x54\x6d\x4d\x32\x28\x76\x69\xc2\x50\xab\x6b\xe2\x89\x60\xad\x56\x6f\xdf\xa2\x22\xad\xb2\xc4\x14\xe7\x76\x29\xe6\x05\x05\x79\x49\x78\x1c\x09\xb6\x12\x58\xdd\xcc\xa1\x97\x55\x71\x37\xe1\x61\x2a\xb2\x3b\xad\x1a\x23\x50\x33\x19\x57\x61\x6d\x6d\x13\xb9\xe0\xa0\x7c\x5e\x84\x85\x13\xb7\x83\xb0\xf7\x10\x69\x36\x5e\x42\xe2\x39\xb6\xf5\x73\x0c\x80\x71\x09\xf2\x8e\x8a\x08\x3f\x57\x2c\x39\x31\xf6\x27\x68\xea\x4b\xf2\xe9\x2a\x58\xe4\x7c\xa6\x6a\xcc\xc4\x03\xa1\x9b\xe1\xc0\x24\x67\x74\x82\xd6\x2e\x9e\xb3\x26\x5d\xe4\xab\x8f\xc3\xa5\x84\x92\xa2\xd4\x1a\x6d\xd1\x57\x18\x7f\x24\x5a\x81\x80\x15\x8c\xb7\xc6\x42\x14\xcf\x30\x77\x23\xbd\x58\xb6\x67\x8c\x81\x07\x20\x50\x95\x05\x48\x5c\x66\xb3\x9b\x93\x18\xf9\x40\x0e\xbc\x7a\x88\xa6\x2c\x3b\x79\x38\xa0\x97\xe5\x15\xc3\x90\xa1\x79\xd1\x82\xa2\xc1\xc4\x03\xe6\x3b\xce\x24\x74\xa3\x29\x76\x88\x2c\xa6\x13\x67\x07\x2b\xa6\x39\x28\x69\x3f\x88\x43\xb3\x37\xca\x85\x49\x53\xc0\x60\x36\x12\x98\xc1\x76\x3e\x61\xa3\x74\x8a\x72\x72\x23\x71\xa3\x10\x90\xf5\x80\x0a\x50\x7b\x03\xad\x05\x86\xb3\x90\x27\x52\xa9\x65\xfe\xc2\x2e\x16\x61\xcc\x61\xfb\x11\x42\x25\x08\x67\x26\x18\xba\x1a\x4c\xd6\x54\x27\x4d\x03\x22\xd1\x69\x2b\xbe\x61\x23\xce\xc2\x22\xdf\x28\x2b\x76\xec\x09\x2e\x60\x24\x08\xe7\x37\xd6\x12\x5e\x4b\x77\xae\xfb\x48\x71\xd8\xfb\x6f\x33\x82\x5d\xe8\x08\x7a\x42\xf1\x62\xcd\x5b\x4c\x6d\x80\x6f\xca\x7a\xbc\xc6\x54\x37\xa1\xf7\x93\x4b\x18\xab\x64\xe1\x24\x3c\xa3\x99\x64\x84\x80\x70\xc7\x73\xaf\x1c\x41\x54\x69\x04\x67\xfb\x10\xe4\xb6\x87\x0e\xf1\xab\x54\xfa\x75\x2a\x11\x4c\x9c\x5c\x87\xd0\x70\x11\xb8\x7a\x0d\x44\x86\x9b\xd9\x45\x75\x67\x03\x8f\x54\x35\x1b\x6a\xda\x84\x82\xc1\x48\x93\x05\x2b\xce\x13\x96\x9f\xd6\x63\x3a\x27\xc9\xa9\x49\x27\xab\xa9\xbe\x60\x22\x43\x6a\x8c\x7b\x49\x19\x3a\xaa\x19\xa0\x62\x9b\x7c\x5b\x4b\x69\x1c\x96\x5e\xc4\xa0\x9f\x42\x03\x37\xc3\x59\x3c\x40\xd1\x45\x77\xda\x50\x46\x75\xbf\x5a\xaa\x49\xec\xc3\xae\xd2\xb2\x74\x61\x61\x74\xee\x05\xa0\xf3\x44\x01\x93\xe7\xc5\x0f\xa6\xa3\x54\x10\x50\xe2\x13\x32\x8d\xc8\x5c\x27\x32\x51\x66\x01\xce\xd9\x11\x7a\x92\x4b\x07\x4d\x07\xcb\x86\x93\x47\xd3\xe8\x90\x4c\xc9\x3c\xfc\x33\x10\x92\x50\x7e\x80\x26\x1d\x39\x3a\x2c\x5b\x16\x7e\x92\xf4\x14\x41\x89\x21\xe7\x61\x63\x64\xec\xb0\x8d\x76\x3c\xa6\xe0\x1d\x75\x24\x5e\x02\xb1\xc9\x8e\x73\x45\x34\xec\x90\x5f\x3a\x5e\x01\xb8\xc5\x68\xb5\x3e\xcc\xf0\x9b\x20\xc8\x31\x0a\x1c\x54\x35\x83\x48\xcc\xb3\xb0\x35\x91\x2e\x2c\xc2\x27\x9c\x6b\x5e\x0a\xc2\xc1\xe7\xd2\x78\xd5\x42\x91\x64\x93\x3f\x4c\x09\x49\xc5\x38\xce\x63\x83\x24\x46\xaa\x3b\xdd\xe3\x90\xfd\x5b\x2b\x78\xc2\x71\x2c\xaa\xc3\x3b\x79\xb1\xc4\xea\x58\xb1\xda\x0a\xa5\xa6\x18\xa9\x65\x10\xb8\x8b\x86\x84\xc0\x1e\xf7\xd4\x1e\x36\xc8\x88\xc1\x12\x03\x47\x54\x59\x56\x0c\x98\xeb\xc0\x0b\x5a\x60\x38\xc5\x69\xc8\xa3\x8c\x92\x2a\xf1\x03\x50\x50\x2d\x96\x4b\x4e\x00\x9b\x88\xa0\x18\x00\xe5\xe7\x37\x94\xcb\x30\x50\x54\x53\xda\xca\x21\x88\x5c\x90\xfc\xd5\x04\x79\x40\x34\xb2\x15\x59\x7e\xcb\x5e\x04\x34\x06\x28\xd6\xb0\xcd\x53\x63\x49\xf9\x33\x7c\xc9\xa4\xbe\xc0\x2e\xba\x07\x90\x1f\x86\xc4\xc5\xea\xbd\xd5\x96\x1c\x07\xa2\xa8\x56\x28\x29\xaf\xd9\xb5\xb2\x88\x03\x0f\x25\xc9\xd3\xf2\x2b\x1e\x99\x13\xce\xa6\x42\x36\x1c\x02\x7d\x4c\x73\xe0\x55\x9e\x9c\xf9\x28\xa6\xe4\x94\x59\xe3\x48\x4f\x5c\x4b\x34\x3a\x3d\x8e\x27\x0e\x02\xe3\x8a\x48\x65\xc3\x63\x36\x0c\x7a\xec\xa2\x4a\xa9\xbe\x5b\x16\x4c\x53\x16\x39\xd0\x71\x7d\xfb\xe7\x52\xdc\xb1\x85\xdd\x56\x1d\xee\x24\x58\x95\x53\x28\xe4\xe4\x15\xf7\x0c\x6f\xa2\xb5\x95\x58\x52\xbf\x50\x73\xcd\x6d\x35\x04\x02\x4c\x5e\xaf\xf0\x0e\x9c\xd6\x9e\x3f\x94\x62\xa3\x25\x82\xc7\x0a\xac\x09\xa5\x1b\x9b\x9c\xa3\x42\x76\x69\x9e\xab\x18\xde\xb8\x31\xb8\xb8\x1d\x49\x26\x2d\x9f\x57\x50\xb6\x9b\x9f\x9a\xb2\x70\xe8\x23\xa3\x1f\x58\xb8\x8e\xf2\x37\x75\xf4\xb3\x58\x8c\xa8\x02\xda\x6c\x1b\xd6\x37\xbb\xc7\x52\xf4\x64\x37\x8b\xd5\x86\x30\x36\x98\x0c\xb2\x20\x34\xbb\x9a\xd6\xd6\x27\x06\x15\x98\x03\x47\xbb\xa2\xa2\xc3\x62\xd7\x13\xaa\x87\x85\x45\x25\x85\x3c\x05\x00\x2e\x77\xaa\x97\x14\xc2\x1a\x7c\x90\x30\x56\x1e\x62\x65\x41\x4b\xb5\x48\x7a\x02\xaa\x13\xa9\x08\xde\xa3\x09\xd9\xd1\xb0\xcb\xd8\x15\xf7\x95\x0e\x1a\x61\x93\x0d\x04\x04\x47\xcc\x74\x28\xc4\x36\x12\xc0\x0b\xff\xbb\xa1\x85\xa2\x0a\xe6\xcb\xcd\x5f\x5a\xa5\x08\x41\xb2\x58\x4b\x05\x22\x90\x59\xb4\x35\x7c\x8b\x10\x89\xd7\x11\x5e\x6d\xe7\x68\xc4\x08\x0a\x51\x08\x25\xe9\x32\x3a\x2a\xd4\x22\x60\x7c\x6f\x80\x0b\xa5\xde\xd9\x8e\x3d\xbc\x8b\xf8\x77\x22\x98\x84\xc4\xd3\x50\x4e\xf8\x13\x5d\x84\xab\x1d\x97\x28\x4b\x2e\x49\xcb\x93\xb9\x7f\x8e\x82\x51\xa0\x68\x8b\x76\x36\x3f\x68\x33\x65\x71\x42\x05\xe8\xc7\x4c\x67\x70\x79\xe1\x00\x60\x79\x32\x43\x28\x34\x8f\xff\xa5\x5b\x80\x48\x66\x1c\x0a\x5b\x63\xfc\x7f\xd4\x59\x0c\xc8\x29\x4c\xa7\x25\x3a\x08\x1a\x1e\x60\xab\x71\x83\xe1\x3a\xce\x59\x7e\xc4\x08\x21\x48\xf4\x8a\xda\x45\x98\x48\xb0\xba\xb6\x54\xa1\xc3\x18\xb2\x0b\xcb\x36\x43\x2a\x01\x20\x05\x70\xb8\x67\x61\xd5\x40\x14\x9d\xd0\xb0\x1a\x64\x2d\xca\x00\x30\xc5\x43\x9b\x56\x11\x8c\xd5\x55\x9b\xeb\x69\x4e\x14\xe7\xbf\x43\xa9\x5b\x43\x24\x6d\x24\xa7\x95\xcb\xc1\x0a\xbe\xe2\x61\x73\x45\xaa\x62\x8b\x3d\xed\x4c\x52\xd6\x63\xbb\x81\x77\x40\x45\xa2\x93\x4a\xcc\x6c\x12\x76\x02\x76\x96\x87\xa3\x81\x6d\xfc\x66\xaa\x96\x3c\x40\x36\x04\x7a\x6e\x5b\xa9\x41\x1b\x1e\xe4\x57\x98\x0e\x22\x19\x15\x13\x33\xd0\x85\x12\xc6\x6b\xb8\x1c\x0c\x75\x3d\x0a\x91\xa6\x43\x89\xae\x97\xbe\x4e\x4a\x66\x3a\x17\x7a\x8e\x27\x13\xe0\x00\xcd\x9b\x11\x2b\x47\x0b\xc1\xe0\x13\xc0\x09\x68\x4f\x67\xb6\xb0\x87\x89\xa4\xcc\xa4\x51\x5f\xc4\x2b\x4e\x89\xaf\x20\x14\x50\xdd\x41\x65\x1d\xc6\x61\xfa\xd6\x72\x38\x82\x04\xf1\x33\x84\xd8\x8a\x1f\x45\xf9\xb2\x2d\xc4\x16\xcf\xb1\x9b\xc7\x68\x0d\xdd\x99\x40\xf8\x34\x28\xc0\x05\x66\x08\x3b\x43\x73\xc2\x3c\x06\xd8\x04\x4d\xa8\x4e\x57\x47\x5f\x99\xe9\x38\xf2\xbc\xcb\x6c\x82\x79\x6a\x9b\x24\x01\xa8\xce\xdb\x60\x6d\x24\x14\xb6\xf0\xc5\x1b\x47\x8c\xc8\x3c\xb4\x4e\xcf\x16\x98\x6b\x26\x4a\xba\x05\x8a\x73\x73\x1f\x99\x14\xbe\x77\xc8\x2c\x5e\x8a\x7f\x43\x63\x40\xbe\xe6\x28\x66\xe2\x65\xa0\x59\x3b\xa0\x42\x1a\x3d\x29\x52\x04\x17\x5a\x71\x51\x10\x97\xe0\x38\xfd\xf1\x5f\xe5\x7b\x7e\x8c\xfc\xce\x46\x6b\x21\x78\xa0\x3d\x9a\x72\x38\xe2\xa6\x9a\xdc\x9a\x8e\x7f\x04\x3d\x65\xd4\x20\xfa\xfc\xcf\xac\x88\x5f\x75\xa9\xb7\x94\x23\xb8\x07\xa0\xa1\x8a\x79\xce\xd8\x23\x4c\x65\xa9\x34\xa8\xf9\x81\x87\xf0\x1b\x2d\xf6\x2a\xa8\xa1\xb1\xb0\x49\x47\x7e\x2b\xc7\x27\xa4\xb8\xb5\xa2\x62\xa6\x21\x79\x11\x0a\x89\x05\x79\xad\x21\x93\x35\x8f\xe1\x2f\xea\x59\x14\xad\xb7\x78\xd0\x40\xae\x15\xfa\x97\x04\x9b\x66\x12\x40\xc6\xcb\x69\x5c\x5d\xc5\x05\x48\x13\x0a\x73\x4a\x02\x0c\x47\x65\x47\xf3\x2f\x04\xc6\x43\x2b\x96\xcc\xda\x28\xc5\x15\x90\xbb\x6f\xe7\x3b\x11\x61\x51\x42\x16\x5c\xd4\xeb\x4e\x5c\x7a\x10\x10\x0b\x65\x57\xa4\xa7\xdc\x55\xca\x28\x99\x50\x3d\x07\xbb\xa2\xe2\x51\x44\x91\xc5\x0f\x84\xbd\x0c\x81\x08\x4c\x63\x37\x4e\xd1\xa3\x8b\x16\x88\x9b\xa6\x22\xbe\x01\x57\xcd\xb3\x3b\xde\xe8\x40\x2a\x32\x92\x62\x78\x78\xc8\xb9\x5c\xc9\x64\x39\xea\x03\xa1\x58\x35\xc0\xdf\x71\x25\x5d\xa7\x17\xfa\x20\xa4\xe1\xb6\x9e\xed\x79\xba\x75\x5c\x82\xbd\x39\x63\xf0\xd1\x41\x0f\x14\x10\x96\xe7\x1e\xcb\x58\x4b\x9e\x1a\x51\x6f\x00\x52\x29\x3b\x3d\x83\x18\x66\x54\x43\x3a\x9a\xa0\xc1\x74\x31\xcf\x4c\x6a\x6a\xf1\xab\xbc\xf8\x54\x0f\xff\xac\x78\x2e\xe8\x9b\x79\x90\x90\xcf\x3a\xa0\xa7\xfa\x2b\x97\x83\x72\x8a\x71\x45\x69\x4c\xc1\xbf\x86\x18\x31\xa6\x57\x93\x45\x60\xbd\x0a\xb2\x26\x6c\x4a\x39\xea\x1c\xcb\x04\x2e\xff\xd2\x6c\x11\x25\xb8\x12\xca\x5f\x1c\xa5\x59\xe5\x8c\x7b\x75\x50\x9e\x8d\x5a\xa4\x5f\xf2\x32\xf8\x04\x9d\x29\x9c\x45\x38\x01\x18\x6c\xf9\x04\x92\xe2\x33\xce\xb1\x5c\xd4\x77\x12\xfb\xb3\x87\xd0\xb6\x7e\xc7\x2c\xc6\x53\x1a\x70\x5c\x2a\x86\x1b\x03\x19\x32\xb8\x24\xac\x8a\xb6\x0a\x08\x0e\xce\x59\x67\x9b\xf4\x52\x56\x31\x16\xb4\xf0\x98\xb0\x95\x7a\xa7\x24\x0e\x50\xa9\xb7\x15\x88\x85\xdb\x46\x73\x24\xc0\x71\x2d\x8a\x89\xbe\x7c\xc0\x95\x2b\xc1\xc3\xda\x04\xa4\x72\x0d\xf9\xa2\xad\xfb\x70\xc3\x6e\xba\x93\xd7\x13\x36\xc2\x86\x8b\xa7\x80\x23\xe0\x9c\xa6\x5f\x5c\xa0\x2a\x85\x8a\x54\x31\x34\x72\x53\x8e\xaf\x54\x8e\x71\x50\x6f\x23\x46\xc0\x61\x0b\x80\xb7\x83\x35\x9b\xc6\x0b\x91\x1a\x1b\x59\x29\x0e\x97\xa1\x29\x93\x14\xb5\x1b\x0a\x3d\xf6\x0c\x95\x94\xa1\x78\x74\xca\x24\x89\x40\xc8\x8a\x7b\xa7\x6a\x80\x35\x0e\xec\x9d\x9f\xb4\xb8\x5f\x47\x9b\x33\x11\x40\xa0\x03\x0a\x26\x83\x39\xc5\xa1\x94\xc3\x31\x10\x5a\xb7\x66\xde\xd6\x42\x9a\x99\xa8\x78\x9a\x5e\x5b\x57\xc6\xf6\x90\x13\x4d\x33\xad\x2e\x59\x68\x7e\x59\x24\x78\xcc\x93\xd7\xcb\x9f\x20\xac\x1b\xf8\x41\x39\x3c\xb9\x52\xbd\x67\xcb\xcf\xb3\x32\x93\x2c\x6a\xfc\xf1\x25\x73\x66\x2e\x42\x5a\x08\x6a\x77\x89\x89\x79\xbf\xec\x67\xb2\xae\xf1\x17\x1d\x26\x3c\x7b\xf2\x59\x9d\xc5\x88\x6a\x48\xf2\xda\x95\x1b\x17\x46\x00\x69\xda\xd5\x28\xde\x27\xdb\x5c\xff\x62\x13\xa8\x42\x5c\xce\x39\x59\x75\xcb\xe8\x6a\x8e\x51\xbd\xf2\xf0\x4e\x59\xca\xe0\xf8\x12\x90\x77\xe7\x04\x57\xde\xc1\x54\xae\x0f\xe2\x8c\x24\x37\xca\xba\x7c\xa7\xe9\x34\xbd\x62\x44\x70\x7e\x4b\x7a\x7c\x1b\xc1\xe2\x86\xb1\xf7\x9c\x20\xeb\xe8\xb2\x88\x5f\xfd\xf0\xcd\x65\xfb\x00\xee\xae\xed\x8b\x51", m: b"\xa2\xff\x3e\x39\xfe\x68\xe4\xd8\xeb\x0e\x6a\x68\xc0\x8e\x44\xd7\x90\x30\x91\xbd\xb5\x29\x4e\x9e\x1d\x32\x5d\xb4\x18\x52\x8c\x64", k: b"\x6a\xe2\x68\xf7\x6f\x20\xfa\xed\xbf\x6f\xce\x78\x2e\xb9\x36\xf7\x9c\x36\x8c\xbe\x9e\xd4\xf5\x30\xac\x2a\xfe\x0f\xb6\x45\x8e\xee", c: b"\xe5\xce\x50\x80\x83\xaa\x9a\xe1\x48\x31\x04\xb7\x5c\xd4\x5e\x60\xf1\xb8\x88\x8d\xad\x92\x86\xbe\xb2\xcb\x67\x62\x0c\x82\xab\xf2\xe3\xcb\xea\x8e\x3a\xf3\x15\x6c\xa4\xb6\xa9\xbb\x3a\xbe\x68\x56\x51\xf1\x2e\x03\x1e\x19\xc7\xd2\xbb\x18\xd2\xd5\x01\x40\x89\x87\x66\xf5\x62\xe6\x20\x22\x71\x7b\x62\x3a\xfb\x00\xdd\x28\xfb\x86\x8f\x51\x06\x9b\x9d\x1c\x7b\x4f\x7a\x04\xc4\x66\x36\xae\xed\xff\xc2\x26\x8f\x07\xf9\x65\xa3\x56\xd3\x2d\xb5\xd0\x0f\xc3\x99\x78\x5d\x8c\x07\xa5\x6b\x5a\xa8\x68\xa9\x90\x33\x3f\x8e\x0e\x8b\x61\xe4\xc7\xd5\x56\x22\xe0\xb4\x99\x3b\x1c\x7f\xb9\x70\xab\x5a\xaa\x00\xad\x48\x98\x95\x50\x49\xd2\xa3\xfb\x4e\xed\x49\x01\x1a\x49\x5b\x19\x1c\xd3\xa3\x77\x33\x31\x17\x83\xf8\x64\xcf\xfb\x63\x09\x2a\x99\xc9\xaf\x3d\x3f\x47\xae\xed\x26\x12\x5a\xf9\xf9\x8a\x0c\x89\x8a\x05\xb7\x33\x58\x34\x98\xba\xd3\x97\x56\x59\xaa\x5e\xb1\xaa\x0e\xa8\xed\x7d\x77\x2a\x5a\xc4\xc5\xa1\x68\xe1\x85\x3c\xb2\x2b\xc7\x60\xa5\x34\x03\xfd\xc5\x43\x08\x42\xb2\x67\xb7\xa4\xbd\xe5\x40\x38\x23\x3f\x26\x49\x1b\x5c\x14\x8a\x4b\x4f\x07\x05\x1d\x2c\x99\xd8\x04\x9a\x45\xc0\xe1\x85\x21\xeb\x9a\x4f\xfa\x8d\xc6\xe7\xf8\xa1\x02\xa0\x9b\x86\xeb\x89\xdc\x6b\xc6\xc8\x3a\x64\x9f\xc4\xff\x2c\xe8\xd3\x2b\x5d\x3f\xd1\xc6\x73\x51\x57\xd1\xcb\x4b\x2a\xc2\x5d\xdb\xa1\x60\x58\x67\x64\xf9\xd6\xc2\x60\x84\xac\x1a\x0f\x01\xf7\xa4\x89\x25\x6e\x95\x93\x3d\xda\xc0\x35\xc9\xd3\x9a\x65\xf9\xfa\xbe\x12\x13\xa9\x08\xed\x1a\x75\x9d\xf9\x0e\x51\xf3\x3a\xd3\x20\x78\x6f\xa3\x87\xf3\x5e\xe2\x28\x13\x81\xe8\x52\x40\xee\xec\x77\xa9\x62\x0a\x49\xa0\xc9\x56\x94\x32\xb1\x4e\x6e\x21\x72\xd4\x65\xd9\x3b\xa8\xb6\xa8\xa0\x2b\xa3\x73\x27\x8e\xe2\xe1\x93\x7a\xaf\x61\xa6\x87\xa5\xfc\xbe\xda\x6d\x53\x09\x3a\xa2\x27\xad\xc6\x8e\xb7\x5d\x61\xf3\xaa\x9a\x78\x3b\x53\x5e\x2c\x49\x04\x95\xf7\x60\xa5\x98\x45\x05\x4e\x8a\xac\xb5\x7c\x32\xfa\xa7\x14\x42\x16\xa3\xfd\x6d\x17\x26\x5c\xf6\xe0\x47\x92\x5c\x06\x75\xee\x69\x46\x1f\xc7\xf6\xd2\x6e\x5b\x04\x10\xce\xb6\x2a\xc3\x37\x15\xe6\x64\x78\xf1\x53\xf8\xf0\x9d\x78\x36\x18\x44\xe2\xcf\xeb\x73\xa2\xa2\x99\x1a\x54\xa6\xbc\x33\xd0\xd1\xd5\xc2\x25\x80\xc5\xca\xfc\xcf\x86\x76\xa2\xf1\x29\x0f\xab\xeb\x36\xf5\x35\x5e\x98\x9e\x15\x74\x3e\xfc\x51\xea\xc6\x18\xf1\xd7\xf3\x52\x9d\x87\xa8\x41\x75\x7a\x0c\x78\x37\x12\xe8\xdc\x0c\x9d\xe6\xd1\x48\xc9\x30\x70\xa6\xb0\xa2\xe6\x60\x39\xc8\xf5\x12\x20\x60\xac\x80\xd9\x1e\xbf\xa4\x17\x7e\x75\x59\xd2\xa6\xf5\x0d\x95\x6d\x1c\x70\x3d\xe7\x3b\x63\xdb\x78\xf2\xa5\x35\xce\xa2\x17\xe1\x83\xe4\xd5\x08\xb5\xbc\xcf\x8c\xba\x56\xbf\x40\x29\x52\xc4\x92\x8f\x45\x2d\x21\xf6\x01\x93\xb0\x47\x9a\x51\x71\x97\xfa\x3b\x13\x5a\x2f\x04\x9b\xfd\xe8\x39\x2a\xe7\x93\xef\x4c\x9a\xfe\x7a\x57\x25\x3e\xc3\x72\x02\xee\x43\xec\xbe\x12\xd7\xba\x40\x26\x5f\xd3\xec\x99\x0a\x69\x33\xf4\x50\x85\x02\xf2\x07\x45\x7f\x30\xce\x15\xf0\xd5\x09\x8c\xd2\x62\x92\x6a\xeb\x5b\xd8\x9f\x6d\x08\xed\x7a\x12\x9c\x19\x11\x58\x19\xc7\xa5\x24\xd8\x32\xd6\xb5\x03\xb3\xb0\x18\xf2\xd5\xce\x65\x0e\x41\x7c\x94\xe6\xa2\xb0\x3b\x31\xa5\x20\x39\x2b\x59\x23\x57\xfa\x97\xe4\xfe\x3f\x68\x02\x80\x80\x9e\x3b\x14\x08\x28\x3d\x8f\x29\x7f\xeb\xa6\xb0\x91\xe6\x56\xbb\xe5\x54\xda\x6e\xad\x25\x68\x9c\x42\xb9\xf2\x3c\x6c\xbd\x7e\xf1\x1f\x9d\x1e\x49\x61\x02\x9a\x39\x1c\xd7\xd7\x35\x58\x5c\x32\x34\x34\xa8\xe2\x92\x33\x36\x07\xe3\x05\x6d\x34\xf0\x6d\x28\x4e\x0c\x1e\x02\x67\x55\xb8\x76\x9f\x89\xc4\x17\x65\x0c\xa6\xa1\x0c\x43\xc4\xd5\xe0\x0a\x49\x29\x48\x05\xf4\x9c\x0c\xc6\x3f\xf9\xfb\x62\xcb\x9e\xdb\xee\xc5\x9c\xe2\x52\x8e\x87\xf0\x83\x0b\xdc\xfb\x74\x5e\xb5\x70\x23\x30\x85\x7e\xa6\x4f\xcf\x65\x0f\xc1\x97\x6b\xcb\xa5\x01\xe5\x89\x46\x0b\x8f\xd7\xb2\xeb\xee\x5f\x37\x50\x92\x73\xb1\xa4\x66\x1e\x81\xe4\x8a\x22\x20\x78\x30\x01\x02\xb4\x93\x98\x9a\xba\x8c\xac\x62\x28\x6d\x64\x0a\x29\x74\x59\x85\x13\x06\x90\x0b\x81\x04\xdd\x2d\xec\xc9\x98\x56\x03\x9a\xbf\x39\xbc\xc2\x7a\x60\x40\x9a\x77\xee\x18\x0f\x6d\x2e\x7a\x77\xce\x83\x6d\x65\x69\x13\xa3\xfc\x0e\xe3\xb4\xfd\x70\x98\xcc\x98\xec\xd8\x5b\xd5\xd2\x73\x03\x31\x03\xca\x23\xa4\x4d\x06\x28\x59\xdc\xa4\x06\x58\xee\x80\xd8\x01\xbc\xef\x4e\xe2\x50\x8b\xc2\xfe\xc8\xe7\x8d\x23\x0c\x64\x88\x08\x28\xb1\xc2\x30\x87\x25\x0e\x88\xf1\x8d\x20\xe9\xde\xb1\x4e\x3c\x81\x95\x77\xa3\x50\xcf\xf5\x97\x6f\x1b\xb3\xfb\xe4\x96\x5d\xbe\x87\xef\xda\xbf\x7e\x59\xda\x28\x18\xd6\xb6\x45\xe3\x52\x95\xf0\x88\xfd\xc3\xb1\xed\x6d\xb1\x46\xb8\x5a\x79\xe1\xad\xeb\x16\x8f\xdf\x1e\x5e\x83\x56\x08\xae\x98\xcc\xa4\xad\x75\x89\xec\x96\x32\xf2\x9a\xce\xa8\x10" },
];
/// decapsulations: key, ciphertext, shared secret
pub static KEM_DEC: &[(usize, &[u8; 1088], &[u8; 32])] = &[
  (0, b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", b"\x04\x19\xc6\xfa\x22\x68\x91\xf6\x8d\x79\x2a\xe5\xe5\xa2\x92\x9f\x28\x76\xec\xf8\x6d\xc7\xbb\x27\xee\x0b\x35\x63\x32\x0a\xdb\x8f"),
  (0, b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff", b"\xdf\x50\xb4\x9d\x79\x5d\xd0\x09\x15\xf6\x66\x43\x39\xb5\x6b\xd6\xed\xd3\x1c\x00\xd2\x68\x9e\xe1\xc4\x86\x0a\x2d\xf2\x36\xc5\xab"),
  (0, b"\x0f\x1b\x57\x57\xa2\x85\x02\xe1\x14\xf9\xce\x55\x29\xb1\xc3\xa6\x1c\x37\xd0\xba\x0e\x37\x92\xc8\xfe\x14\xe9\xdf\xdd\x2f\x16\xa2\x30\xf9\x6f\x38\x1b\x25\x52\xdc\x1e\x05\xd6\x4c\x2c\x0d\x36\x6b\xd0\x0f\x67\x81\xc4\x86\xae\xe9\x2e\x7c\x3e\x90\xbd\xb6\xb4\x75\xf6\xc0\x4c\x01\xcd\x2d\xb1\x60\xb4\x28\x56\x4b\x87\x15\xf6\xda\xa7\x56\xe0\x7f\xb9\x7f\xb8\x4c\xf3\xe8\xaa\x50\x33\xc9\x44\xe2\x59\xd3\xdd\xa1\xe2\xed\x9a\x5b\x04\x3d\x75\x38\x11\x6a\x84\xe3\x82\xf7\x50\xd1\x58\xe6\x77\x63\xc9\x36\x1b\x90\x96\xf2\xb6\xdf\x71\xbe\xc5\x43\x0f\xc3\x3e\xef\x63\xdf\xac\x00\x32\xa8\x27\x6a\xa2\x9c\xd9\xaf\x63\xb0\xd6\x0a\x7c\x28\xea\x6f\xc4\xed\x51\x7d\x7f\x49\x59\x03\xa4\xe9\x03\xb9\x62\xdd\x24\x89\x9d\x41\xeb\x1f\xcd\xbd\x08\x1c\xe8\x46\xaf\xb1\x88\x34\x7c\x42\xb0\x70\xf0\x5d\xec\x6f\xd2\x5d\xa7\xbb\x1e\x93\x2b\xf8\x9f\xf3\xb0\xb9\x45\x83\x19\x8a\xe4\xcd\x72\x91\xf2\xac\xf4\x82\x2b\x3c\x6d\xfe\x11\x3c\x17\xea\x1f\x46\x92\xbd\xce\x33\x5e\xb0\xeb\x1a\x26\x70\x49\xfc\xa6\x4d\x44\x63\x75\x06\xfc\xf8\x99\x87\xaf\xe3\x7c\x88\x44\xbf\xe3\x68\x7c\x2a\x35\x96\x97\x6b\x35\x8b\x0d\xb0\x87\x91\xe1\xd5\x9d\x4d\x49\x5b\x44\xfd\xf0\x20\x2f\x60\xe3\xa2\xde\x4d\x4a\x56\x89\xf5\x7e\x89\xf0\x55\x90\x23\x7c\x43\x34\xdf\x8f\x39\x3b\x12\x35\x56\x28\x2b\x48\x4f\x30\x32\x05\xe8\xb3\xa6\xd5\x98\xc9\x0b\x65\xff\x4f\x86\xee\x91\x5b\x80\xba\xa7\x6a\xad\x28\x0c\xf8\xa3\xa2\x29\x9c\x7a\x68\x10\x12\x35\x8a\xf4\x3b\x1a\x1b\x78\xf8\x9c\xd6\xc3\x34\xe4\xbe\x84\x6c\x7d\x88\x43\x6c\x11\xaa\x16\x77\xd1\x41\xaf\x23\xb4\x50\x46\x86\x1a\x1c\xf9\x07\x9f\xe0\xee\xad\x00\xec\x53\xa6\x28\x11\x93\x33\x79\xd2\xd8\x91\x59\x11\x65\x7e\x24\xb2\xbf\xcf\xf4\xac\x2a\x95\x8e\x58\x5c\x3d\x37\xbc\x5a\xa2\x68\xc5\xff\xf9\xd1\xb5\x62\x3a\xac\xfc\x25\x02\x5f\x8c\xea\xd0\xbb\xda\x94\x02\x88\x71\x43\x21\x60\x80\xd8\x03\xf2\xa2\xcd\xd9\x31\x3d\xcf\x7e\x47\xea\x16\xc1\x05\x58\xb0\xc1\x69\xa9\xea\xb6\x7f\x96\x93\x0a\x12\xe2\x64\xed\xf5\x86\x30\x5e\x3f\x8d\xb8\x90\x3b\x9d\x66\x5e\x2d\x69\xbc\x4a\x2d\x8d\x9f\x02\x8a\xd7\x28\x9f\x0a\x4b\x3b\x80\x24\xfd\xee\xe0\xd5\x8a\x37\x36\x9c\x10\x05\xab\xdf\xe9\x9e\x96\x7f\x72\xf1\xda\xb3\x78\x97\xd5\xa1\x6c\xe7\x3d\x14\x50\x19\x3d\x82\x11\x8f\x45\x80\x65\x9e\xf5\xd3\x2c\x4c\xd8\x9e\xb8\x9b\x46\x20\x5d\xcf\xf1\xe4\x96\xb8\x8f\x9f\x52\xbe\x42\x2e\x1c\x0d\xb8\xe0\x5e\xd3\x5e\xc8\x69\xed\x68\x80\x42\xc9\x8b\x5c\x40\x4a\x38\xd9\xc4\x0a\x2a\x6e\xce\xc3\x2e\xb4\x37\xb0\xd9\xea\xf2\x01\x2e\xf2\xbc\xa1\x67\x94\xd1\x92\x57\x54\x30\x48\x97\x00\x1a\x63\xe6\x16\xb5\x77\x0e\xf1\x1a\x91\x9f\x77\x23\xd0\xa8\xd6\x46\x3f\x96\x32\xab\xe0\xea\xb6\x71\xcc\x15\x8b\x7f\x1b\x34\x26\x03\x73\x92\xfa\x5e\xa4\xf0\x1f\xa8\xf5\xa4\xe4\x8f\x59\x9a\x1f\xe6\x9b\x59\x23\xf7\xa3\x49\xc4\xbf\x5d\xe7\x6f\x36\xd8\x20\x4c\xee\x9a\x1f\x31\x37\x7c\x92\x33\xa4\xfa\x58\xd3\xbd\x83\xcd\x57\x65\xdb\x32\xeb\x42\x5f\x98\xfb\x3b\x13\x78\x30\xc7\xdc\xe4\x24\xc3\x31\x7b\x34\x1c\xf7\xc2\x03\x2f\x78\x9d\x66\x2f\xfc\xe1\x65\xea\x85\xac\x84\x4a\xa5\xe9\x50\x53\x39\x68\xa5\x25\xbc\x65\x71\x9b\x21\x02\xec\x50\x3d\x6a\xa4\x88\x58\x11\xee\x36\x9c\x75\xb2\x46\x96\x03\xa8\x42\x16\x43\x5a\xd5\x2a\xe0\xd6\xe7\x44\x82\x00\xbb\x0b\xb2\x04\x16\x3b\x8e\x0a\x41\x1e\x4e\x65\xab\xe0\x80\x5f\x51\x02\xc8\xf1\x56\xe5\xf0\x39\x1c\x86\x51\x85\x12\x86\xda\xf1\x89\x19\x58\xdf\x64\xd9\x38\x60\x43\x04\x23\x7a\x72\x38\xce\xdc\x39\xb1\xe7\x9d\x0f\x4c\xc5\x36\x44\x96\x26\x7d\xcf\x2c\xaf\xd1\x57\x6c\xac\xc7\xa0\x67\x09\x9a\x4d\x60\x4d\x52\x29\xe3\xfb\x10\x94\x23\x57\x22\x03\x9f\x0a\xce\x48\xf1\x6d\x3a\x93\xd3\x80\x37\xb9\x83\xb5\x90\xcc\x23\xab\x19\x62\xe6\xfe\xd7\x8c\x58\x39\x98\x7d\x37\x7a\x3b\xcd\xf1\x8b\xcc\xc7\x1d\x5b\x72\x2a\x4d\xa2\x77\xe1\x2f\xec\x9a\x1d\xd0\x23\x7b\xe9\xcf\x95\x2a\x9a\x09\xd2\xa6\x78\x6c\x4b\x85\x76\x1c\xb1\xbf\x6a\xc8\x53\x74\xd6\x0a\x25\x24\xf0\x7f\x4f\xa2\x6a\xc3\x21\xd4\x70\x07\x85\xad\x25\xe8\x1a\x44\x5b\xf5\x02\x14\xa1\xdf\x53\xf3\x1e\xec\xbd\x39\xf5\x1b\x6b\xff\x64\x46\x80\xe8\xd9\xaf\x20\xe0\x5b\x72\x88\xa0\x32\x5c\x8e\x1a\xdc\xef\x01\x9f\xca\x69\x52\x21\x65\x9f\x6b\x74\x32\x60\xce\xd2\xaf\x7e\x65\x3a\xef\xe8\x09\x00\x65\xa1\x71\xe7\x2b\x12\xd0\x67\x7c\xb5\xa4\xdb\x67\xa5\x77\xc5\xfb\x04\xf2\xb8\x04\x6e\xed\xfb\xbc\x2f\x10\xfa\xa0\x02\xc7\x1d\xf9\x1c\x9e\xf1\x1e\x75\x05\x81\xc7\x55\xcb\xbe\xc2\x2b\x09\x08\x42\x6b\xdb\x51\x74\x46\x0b\x80\x6c\x32\xff\x9e\x8b\xe7\x52\x01\x34\x34\x98\x7c\xb2\x96\xf7\x53\x05\xec\x63\x63\x65\x3d\x5b\x4d\x6a\x3c\x83\x44\x8e\x77\x5e\x60", b"\x12\x3d\x9a\x58\xb3\xce\xc0\x21\x74\x6f\xb4\x6a\xb7\x4e\xab\x0c\x27\xf7\xc7\x83\x5b\x26\x9a\x24\x6a\x71\xca\xfe\xc4\xe1\x5e\x21"),
  (0, b"\x00\xe5\x08\xae\x97\x29\x72\x5a\xd9\x2c\xc4\xd1\x2a\x5d\x89\xc9\x1f\xc5\xc6\x3b\x31\xcb\xc3\xf4\xa7\xdf\x24\xd5\x32\x65\xfb\x4d\xdb\x85\x83\x87\x2b\xa0\xc5\x52\xfc\x44\xdf\x1e\xeb\x8e\x00\xa1\xd9\x7c\xff\xfd\x39\xe4\x24\xe2\x29\x2f\x84\x17\xd0\x9c\xca\xdf\x86\xf3\xb4\xb9\x35\xe0\xda\xa9\x6b\x22\x65\x32\x7c\x39\x52\xd6\x9d\x3b\xc5\x42\x9b\x1e\x82\x61\xaa\x4b\xb2\x9e\xd0\xd2\x40\xf6\x8b\x61\x58\x1b\x51\xaf\x16\x0f\x0e\x07\xea\xb6\x15\x06\xb1\x74\xd6\x48\xe0\xfe\xd1\x24\xf4\x83\xdb\xef\x21\x53\x64\x9c\x4a\xee\x2d\xd8\xa2\xb7\x61\xa4\xb9\x03\x37\xc1\x92\x21\x0e\x48\x09\x8f\x21\x3f\x50\x6e\xc8\x9a\x36\x89\x44\x63\xc2\x83\x38\x43\xf4\xe2\x73\x15\x52\x91\xe3\xc0\x3f\x80\xd7\xf5\x4d\x10\xa8\x4f\xce\x88\xd4\xf6\x97\xdb\x93\x8c\xdf\xca\x94\xc9\x4e\x27\x4a\xe7\xa2\x6e\x37\x04\x0c\xcd\xe3\x9f\xbc\x40\x43\x2c\x89\xed\x68\x50\x08\x56\x35\x11\x61\xd4\x45\xb3\x0f\x1b\xca\xd3\xa6\x46\xd6\x93\xf4\x2c\x15\x67\xeb\xc9\xd4\x2a\x32\x05\x9a\xbe\x91\x6d\xea\xe2\xb0\xe4\x3b\x5d\x02\xe5\xee\x5b\x02\x70\xc0\xe5\xdb\x79\x6d\x3a\xe2\x06\x39\x79\x23\x44\x9b\xe2\x2f\xa8\xd5\x9f\xb7\xb0\x4a\xcd\xe7\x7e\xaa\xad\x74\xc6\x99\xfd\x3d\x06\x73\xef\x0e\x72\x39\x32\x8c\x6a\x1b\xcc\xa1\x27\xff\xbe\x91\xda\xe5\x4f\x93\x3a\x30\x71\xa4\x0e\xd7\x49\x42\xb2\x84\x11\x15\xa7\xff\x4a\x2e\x03\xff\xd4\xff\xe2\xf0\x8a\x77\x3d\x70\x47\xe0\xb5\x63\x35\x88\x52\x7f\x0f\x74\x36\xf3\x59\x8e\x26\x1d\xdc\x9e\x74\xf8\x51\x11\x73\xa9\xf9\xfa\xe7\xb1\x9b\x27\x71\xd9\x6a\x5a\x7b\x75\x1e\x57\x5a\x30\x27\xf6\x25\x3c\xe3\xbd\xe3\x4b\x74\xa6\x7b\x95\x87\x5c\x12\xf8\x32\x85\x26\x93\x18\x97\x93\xd1\x4d\xef\x8d\xa1\x76\xed\xc4\xec\xb3\x27\x9a\xc2\x48\xb5\xbb\xf7\x53\x03\x2c\x1a\x8e\x25\x70\x22\x3e\xa1\x06\xdb\xf9\xfe\x35\x4e\x24\x93\x5e\x1a\x6a\x90\x5a\x6b\x51\xa4\x9b\x59\x1a\xa1\x5a\x95\x99\x7e\x3d\x55\x00\xb8\x31\x30\xc7\xfc\xf3\xcc\x5f\x6c\x59\x88\x79\x68\x5a\x7b\x67\x73\x8b\x53\xa6\xce\x76\xec\x25\x86\xca\x90\x52\x0a\x49\xd2\x09\x26\x1d\x82\x93\xc4\x37\x42\x45\x8a\x0d\x85\x57\x10\xd5\x90\xad\x9e\xf9\x77\x14\xf9\x0c\xc9\xe3\x29\xb5\x2f\xe0\x2c\x1e\x6c\x0c\x58\x96\x2b\x42\xf8\x54\x97\xcb\x2f\x92\x37\x55\x80\x82\x35\x21\x63\x35\xfc\x68\x48\x9b\xd8\x6d\x5a\xd4\xc4\x4a\x8a\x38\xdf\x47\x9b\x3d\xb7\xc9\x88\x53\x9d\x38\x8b\x31\x8f\x2b\x4c\x64\x25\xdb\x0f\x9c\x9b\xdd\x13\x83\xe2\x37\xfc\xe9\x35\x3b\x20\x4c\xb8\x1b\x33\x8d\x65\x49\xf1\x72\x6a\x00\xd6\x07\xd9\x38\x45\x9a\xa0\x76\x8b\x12\xe3\x5d\x6f\x75\xce\x0b\x64\xfa\xa7\x61\x4c\x63\xd1\x7c\x66\x7c\x5a\x8f\xe0\xb1\x55\x46\x60\xa6\x2e\x5a\x21\x0a\x5d\x60\xe8\x9d\x81\x10\x2a\xb6\x17\xdd\x4a\x7b\x65\xf1\x9a\x76\x0a\x22\x37\x4a\x95\xe8\x28\x9c\x4a\x54\x90\xb7\xed\xb2\x12\x1a\xca\x78\x47\x61\x33\x9c\x85\x1a\x20\x71\xe5\xe9\x3b\x5e\xef\xd2\x95\xdc\x71\x3b\x97\x74\x64\x04\x96\x4f\x73\x82\x74\x98\x58\x84\xa2\x1d\x55\xbe\x05\xda\xe6\xad\x7f\xfe\x12\x47\x26\xe6\x0a\x92\x48\x2d\xe2\xa1\x2e\x3e\x05\x31\x04\xa6\xe5\xbf\xbe\xa5\x70\x36\xee\xc1\xfa\x58\xb2\xb1\xbd\xe1\xc7\x64\x07\x14\x4c\x02\x67\xe1\xff\x41\xdc\x3f\x53\xca\x9b\xd9\x88\xa6\xaa\x82\xff\x4e\x78\x8d\xc6\x2c\x4c\x11\x4e\x2c\xca\xd8\x71\x94\xb5\x34\xf7\x40\x58\x45\x60\xa8\xbb\x24\x6e\x48\x2d\xd2\x26\xb8\xb7\xf9\xa5\xad\x07\x73\xcc\x03\xca\xde\xd0\x13\x95\x62\x0f\xdc\x44\x87\xd9\x9a\xb1\x34\x00\x3e\xe0\x00\x64\xfb\x70\x58\xe3\x3a\x99\x41\xd8\xc7\xe3\x7f\x59\xc7\x2a\xab\x29\xca\x29\x00\x22\x5c\xc0\x72\xbc\xa7\x0d\xcf\x82\x46\x5a\x3d\xd3\x40\xa0\x2b\x44\x25\xa5\x62\x91\x5b\x6b\xe6\xe7\xd9\xbd\xf7\x49\x1f\x29\xc7\xfd\x68\xec\x9c\x15\xfd\xb6\x7d\xdd\x3b\xee\x80\x84\x0b\x0c\x37\x8a\xd0\x26\x98\xc8\xf7\x9f\x85\x1a\x31\xb7\xbb\xee\x6c\x4b\x1e\xa2\x5a\x4f\x9f\x78\xaf\x66\xa6\xc6\x53\x9f\xc6\xab\x00\x9f\x5b\xd9\x3b\x0c\xc4\x3a\x92\x86\x4f\xef\xe5\x28\xb4\x37\x84\x4b\x57\xe0\xea\xb2\xbf\xda\xff\xf2\x22\x09\x93\x93\x68\xa2\x0c\xa2\xef\x7c\x51\xba\x22\x74\x21\x7e\x62\x66\x7a\x60\x3b\x40\x57\xcc\x3d\xf8\x8e\x05\xcc\xa1\x6d\x8d\x9f\x44\x56\xd8\x52\x61\xfc\x38\xa4\x91\xcc\x1c\x0a\xc2\xa8\xe7\x75\x86\xd5\xf4\x2c\x8d\x0b\x2d\x04\x22\x3e\x81\x66\xf4\x22\x68\x38\x45\x62\xe9\xd6\x8b\xe5\x97\x01\x48\xa5\x00\x90\x23\x6a\x1c\x93\xea\x26\xe3\x22\xd3\xb3\x35\xe3\x82\x14\xb0\xd6\x6f\x5d\xde\x21\x8c\x22\x0a\xec\x9c\x4e\x9a\x26\x1a\xcb\x82\x1b\x25\x77\x28\x0b\x75\xe5\xfe\x52\x4d\x81\x3f\x1d\x22\x1d\x32\x24\x1c\x75\xb0\xbd\x67\xbe\xb2\xa3\xdb\x37\x05\x2b\x26\x9a\x2d\x44\x78\x7a\xbd\x3d\x93\x91\x64\xce\x28\x7a\xb3\x4f\x64\xa8\x27\x49\x2b\x11\x89\x67\x41\x35\x90\x21\x0f\xdd\x59\x15", b"\xa3\x1e\xe3\x5d\x56\xe7\x90\x3f\xb9\x69\x53\x55\xa4\x3a\x0f\xe9\x9c\xa2\x90\xa5\xb8\x6f\xd7\xe2\x7f\x0a\x70\x30\x6c\xf6\x41\xe8"),
  (0, b"\x5f\x7d\x3e\xc3\x52\x03\x56\xcd\x63\x1a\xcb\xb1\x2d\xf7\x9e\xea\xff\x14\x36\x42\xff\x4e\x9a\x99\x8a\x1f\xe5\x48\x2f\xd6\x25\xda\xc7\x5e\xea\x15\xf7\xbf\x03\x9b\xa1\x4f\x0a\x0b\x99\x20\x8e\xa1\x53\x39\x3d\x64\x0e\x34\x3e\xeb\x8b\x37\x88\xae\xa0\x56\xaf\x59\xb9\x4f\x67\x98\x37\x1a\xe2\xa3\xc3\xb7\x83\xa9\xed\xd5\x2b\x20\xb2\x90\xa1\x26\x7b\xd1\xa8\x81\x8f\xd4\xa1\x88\xf1\xd9\xcd\xcd\x43\xb8\xaf\x4c\x0d\xec\x3c\x9e\xe4\x6f\x30\x12\xe8\xef\x01\x39\x7f\x4f\x17\x39\xee\xa9\x6e\x9e\x1c\x36\xbd\x64\xa1\xec\xd4\x44\x0e\x3e\x1f\x3f\xf7\xec\x78\xf2\x07\x1d\xc7\x46\xbe\x90\x08\xd9\x6f\x93\x80\xb7\x47\x36\x81\x1c\xeb\xab\x35\xa5\x35\xe8\x51\xaa\xe0\xff\x84\xbe\x6b\x4f\xbd\x13\x8e\xd1\x18\xb8\x00\x0d\x81\xde\xec\x66\xc8\x79\x76\x0c\x50\x40\x3d\x4d\x32\x77\x36\xd3\xb6\x42\xa3\xa7\x9c\x86\x2b\x92\x19\xb1\x46\xfc\x0b\x38\x73\xa8\x57\xe3\x8a\xf2\xb4\xcf\xc2\xc3\x56\x13\x4c\x9b\xc8\x87\x9b\x7a\xb6\x35\xb0\xf8\x76\x5e\x97\x83\xc4\xf2\xe5\x76\xf4\x20\x5a\x66\x90\xea\x30\x36\xe6\x33\x2e\x21\x54\x68\x92\x5c\x12\x50\x67\x6e\xed\x28\x2e\x92\x9e\x2a\xa7\xf2\x67\x69\x45\xc9\x8f\x58\x92\xf8\x08\x73\xa3\x22\x46\x6c\x4e\x7a\xd7\xc2\xd5\x18\xc4\x08\x5f\xb8\xd4\x93\x0b\x80\x48\x23\xa6\x0f\xaf\xed\x8c\x47\xb5\xe7\x68\x93\xa7\x04\x27\xdc\x5f\xa0\x60\x29\xf3\xb6\x5a\x58\xc3\x29\x04\x28\x39\x86\x88\xb0\x26\x99\xb5\x8b\xf6\xd2\x56\x2c\xdd\xe3\x42\x62\x9f\xc6\xe1\x66\x60\xbc\x2c\x6d\xdb\xac\x3d\xcd\x8c\xa7\xd0\x77\xe6\x37\x8f\x8a\xe4\x39\xbf\xbf\x7f\xce\xae\x25\xb5\x26\x1c\x62\x3a\x0c\x87\xaf\x95\x69\xca\xea\xc6\x04\x61\x44\x50\xd2\xe2\x7b\x6c\x7a\x77\x7a\x60\x4a\x3b\x72\xd1\x7b\x57\x0e\x28\xbe\x1a\x99\x52\xf6\x62\x29\x1b\x1d\x99\x7b\xc3\x54\xf9\x56\xcd\xf1\x0d\x98\x9d\x2d\xbc\x0a\x9f\xc3\xea\xc6\x75\xa9\x50\xa6\xb7\x84\x76\x4f\x4d\x6b\x14\x6d\xc8\x03\xf4\x6a\xa9\xec\x95\x65\xb8\x1c\xb2\x30\x59\x93\x08\x2f\x68\x86\xeb\x26\x61\x29\xa7\xfe\x93\x4c\xb7\xae\x9a\xdc\x43\x84\xdc\x98\xeb\x95\x3e\xa9\xfd\x24\x8f\xd0\x99\x45\x30\x39\x53\x0f\xe7\xd2\x7f\x28\x86\x41\x24\x13\x0b\x11\xc6\x61\xc2\x28\xa2\x07\x85\xdb\xfd\xbc\xc5\x8e\xe0\x68\xf5\x86\xb3\x41\x6f\x25\x26\x21\xbf\xca\xac\xc4\x56\x09\xc1\x49\x25\xee\xc5\x28\x69\xc4\x38\xff\x2c\x3c\x5d\xcd\xf4\xea\xd0\xb5\x0f\xb6\x6f\x16\x66\xc7\x59\x6b\xab\xc8\xa3\x4d\xdd\x5d\x07\x80\x51\xb2\xb8\x31\xcc\x99\xe3\x20\xcd\xa3\x60\x39\xd2\x1f\xd2\x47\x2f\x3b\xa1\x5b\x4e\x3f\xab\x47\x0f\x5a\xe5\xc3\xe8\x5f\xc3\x3b\x19\xe1\xc8\xab\xfe\x83\xbe\x7e\xe8\xa1\xe0\xc4\x21\x03\x6d\x98\xec\xff\x60\xa3\xa3\x3e\xfa\xea\xd5\xa7\x08\x61\x0a\x0f\x08\x3e\x06\x74\x93\x59\xc5\x50\x49\x6d\x75\xc0\x30\xe4\x0d\xc7\x73\x98\xf3\x7c\x4d\x63\x7f\x5f\xf7\x0b\x06\xc4\x15\x94\x4a\x73\x4f\xc7\xaf\xe8\x2a\x6f\xab\x3e\x10\x13\x5e\x87\xe5\xa1\x76\xde\xad\xa4\xe0\x82\xc8\xde\xff\xd8\xa1\x82\xe8\x21\xde\x5f\xac\x45\x07\x14\x8f\x60\x65\xc1\x67\xd2\xf8\x7d\x22\xe7\x4c\x97\x55\x42\xf4\x60\x3f\x08\x69\x34\xc5\x04\x3f\xed\x54\x18\xb8\x69\xea\xfa\xdd\x1f\x05\xa3\xb6\xd4\x8b\x5e\x39\x35\x92\x67\x8f\x6c\x77\x24\x41\xf5\xa0\x68\x9f\x16\xc0\xb4\x03\x5d\x7d\x04\x66\xdb\xd1\x0e\xd2\x24\xe1\xe6\xa0\x54\x3f\x32\x79\xfb\xfc\xbf\x06\x1a\x17\xdb\x52\xd2\x0f\xb9\xd3\xbf\x4d\x92\xe8\x7b\x7f\x3c\xf4\x01\x42\xbc\x77\x46\xe4\x31\x40\xae\xf6\x72\xda\x65\xb8\x05\xa4\x7a\x5c\xc8\xf1\x8f\x1f\x53\xd7\x6a\x81\xf3\x1e\x37\xe1\x6a\x50\xee\x0b\xaa\x01\x58\xa6\xf7\x83\x91\x60\xea\x26\xf2\x65\x3e\x7e\x37\x00\xcf\xf3\x78\x2f\x41\xce\x73\x43\x0a\x00\x26\xb7\xef\x62\x67\x70\x4d\xce\xbf\x02\x89\x9b\xc6\x67\xb0\xfd\x65\x90\x1a\x14\x32\xe6\xf6\xfc\x5b\x8f\x31\xd4\x33\x53\xd1\xbf\x04\x4f\xe7\xc9\x4b\xc0\x94\x7e\xbf\xf9\x4f\xa4\x72\x11\x9d\xd5\x1e\x11\xfb\x4e\xee\xf7\x95\xb5\x9f\x55\xe6\xca\x4d\x4b\x4a\xae\x1f\xc3\x92\x37\x84\xe6\x49\x6b\x43\xe0\xdf\x79\xe9\x80\xb6\x8f\x6c\x03\xc7\xa5\x46\xd5\x83\x51\x77\x33\xcb\x1c\x2b\x0f\x72\xf9\xf8\x80\x99\x39\x89\xf8\xe6\xd7\xc9\x53\xac\x05\xe1\x23\x35\x67\x7e\x12\x46\x58\xcc\xcd\x1b\xfb\x22\x2c\xc0\xb1\x36\xb1\xfa\x6b\xe2\x8b\xdf\xb9\x84\xc0\xdf\xe6\x75\x91\x98\x2e\x62\xce\xb1\x36\x71\x19\x2a\xcc\x5f\x5e\xe3\x98\x6e\x41\x09\x04\xcc\x73\x29\x40\x13\x60\x1e\x6b\x71\x7e\x1e\x00\xb8\x2e\x37\x09\x3a\xab\xea\x4c\x27\xef\xaa\xee\x3f\x45\x6c\x6f\x5a\x36\x16\x13\x06\x33\xad\x3c\x36\xcb\x24\x30\xf6\xaf\xe9\x1c\x12\x6b\xda\x75\xed\x34\xbf\x12\xac\x4e\x5b\xc9\x2f\x71\x65\xfc\xf6\xf0\x7b\xc9\xfa\x03\xd2\x74\xca\x1b\x31\x80\x66\x09\xdd\x5b\xbb\x63\xc4\x4c\xd3\x13\x5e\xb3\x4e\x86\xee\xd1\x8d\x74\xff\x85\xa4\x03\xfb\xd5\x90\x3e\xc4", b"\xfa\x9c\xdc\x3a\x9a\x18\xfd\xca\x93\x8f\x17\xce\xa1\x0d\x4f\x1f\x46\x74\xbc\xfd\x44\x22\x23\x02\x73\x06\x32\xc0\x82\xe1\x21\x9b"),
  (0, b"\xde\xd3\xbb\x65\x04\x7d\x8d\xfc\x06\xe2\x57\x4a\xe0\xee\x12\xda\xac\x0f\xf3\xa1\xb3\x78\xf7\x9c\x57\xe6\x85\x5e\x8f\x33\xdd\xd1\xe9\x33\x69\x0a\x8c\xaa\x80\x8d\x43\xda\xce\xf2\x8c\x1c\x4c\xbc\x9b\x47\x53\xff\x99\xe4\xcc\xb4\x08\x70\x32\x92\x6f\xa1\x84\x21\xe1\xe6\x21\xc2\x48\x34\x8f\x6a\x14\x51\x32\xeb\x14\xe9\xe7\x78\x30\xe5\xe8\x8c\x76\x87\x2e\x75\xc8\x9c\x35\x7c\x0a\xc2\x9f\xb8\x3a\x8f\xe9\x92\x4a\x1f\xea\x3a\xb7\x2c\xf9\x33\x12\xe4\x88\xa5\x93\xbb\xe5\xd7\x37\xc3\x44\x1c\xe2\x76\x52\xe4\x4a\xc2\x84\x36\xeb\xdc\x2e\xa6\xec\x09\xf2\x76\x22\x93\x21\xae\x3c\x3e\x6e\xb9\x26\x50\x7d\x1d\x40\xa5\xeb\x09\xfc\x40\xa5\x40\x64\x79\xa4\x09\x89\x20\x9e\xcb\xcf\x98\x88\xa5\x3c\x8d\x61\x8e\x54\x93\x3e\x7f\x79\xb1\xa8\xfc\xaf\xe5\xe0\x7a\x8b\xce\xc2\x4c\x71\x3a\xfc\x5a\x5c\x45\xbc\x5a\xf4\x27\xb7\xd1\xc7\x24\x7b\x4b\x94\x25\x89\x13\xc8\x1a\x5c\xf5\x43\xa8\x1e\xd4\xb5\x82\xa1\xef\x76\xa9\x69\x87\x92\x7d\x0c\x7b\x88\x32\x65\xfe\x9b\xb4\xf3\xde\x7a\x7e\x17\xb6\xe8\xea\xff\x16\x98\x71\xc9\xc3\x45\xe5\x37\xac\x2d\xad\x22\x4e\x5a\x3d\xa3\xb3\xaf\xa6\x67\x1b\xf6\x65\xdb\x4a\x27\x92\x89\x10\x47\x19\x31\x77\x0c\x6c\x23\x64\xc1\x14\xd2\xfc\x24\x9d\x4f\xed\xaf\xee\xfd\x6c\x6b\x49\x45\x6e\x49\x76\x71\xb7\x60\x2a\xc6\xcb\x34\x4a\x38\xc1\x00\xe0\x55\xd6\x63\xaf\x7d\xf8\x55\xc1\x2e\x95\x47\x4e\xda\x99\x5d\x5a\xf0\x68\xc2\x0c\x3f\xbc\xab\x78\xda\x43\xd0\x45\x25\xb4\xe3\xe6\x9c\xba\x14\xba\x83\x5e\x4f\x45\x41\x08\x25\x29\x9d\xe5\xc3\xc1\xf6\xd3\x14\x72\x26\x4c\x9d\x3c\xa7\x90\x82\x57\x1e\xdd\x45\xa1\x77\x93\xda\x4a\x4a\x26\xd6\xbb\x09\x48\x4e\xe2\x83\x9a\x17\x2a\xd7\x79\x41\xb4\x8f\xee\x11\x79\x08\x8d\x1c\xa5\x35\x32\xdc\xf6\xbf\x1b\xeb\x2c\x70\x6e\x39\x9d\xdb\x2d\x4b\x2e\x55\x55\xf5\xbe\xa7\x4d\xac\x45\x29\x59\x5b\x48\x51\x6d\x5d\x08\x8b\x34\x53\x5b\x2a\xcf\x48\xab\xa7\x09\xe0\xd7\x18\x50\xba\xc8\x92\xd0\x58\x03\xbf\xd3\x32\x18\x38\x69\xc2\xc9\x8a\x0a\x44\x26\xf3\xd7\x91\x42\xe9\x63\x2a\xe3\x59\xc8\xa6\x5f\xed\x89\x3d\xc1\xe8\x78\x22\xd4\x69\x00\x0c\x56\xa4\xf3\x31\xf5\x98\x22\x2a\xc7\xd6\xee\x02\x32\x99\x33\x82\xac\x75\x01\x32\x4a\x59\x39\xdd\xe5\x51\x07\x40\x02\x66\xba\x10\xb1\x53\x1f\xc9\xc4\x7d\x6b\xd8\x48\x9f\xb9\x59\xb3\xed\x57\x3a\x6d\xf3\xae\xc4\x59\x62\x09\x5b\x6a\x74\x2d\x71\x06\xa9\x70\x71\xba\x7e\x7a\xd8\x70\xf0\x64\x24\xd6\x82\x4c\x74\xb2\x94\x46\x9c\x54\xba\xdd\xe4\xfa\xad\x83\x81\x83\xd8\x03\xd6\xae\xa5\x42\xfe\xb7\x18\xff\x71\x96\x3f\x23\x98\x44\x09\x1a\x37\x4f\x96\xfa\x09\x2c\x3b\x63\x69\xde\x96\xa2\x6e\x96\x99\xb7\x8a\x61\xce\xec\x0f\xfa\x52\x72\x5e\x1a\x91\x0b\x37\xa9\x70\xac\x5b\x5b\x21\xde\x55\x60\xca\x41\x89\x3f\x83\xee\xf6\x83\xf8\xd2\x74\x40\xfe\x6b\xf0\xd1\x2d\xef\x44\x6a\x38\x93\xcc\x71\x82\x38\x63\x25\x18\x3a\xfa\xd6\x5c\x82\x8a\x25\x9b\xc8\xac\x66\xda\x89\xcc\x69\x81\x01\xd2\x26\x04\x5d\x3f\x8e\x38\x0c\x8b\x84\xd1\xed\x08\xf5\xd7\x37\x11\xdc\xfe\xa3\xbb\x2f\x08\xc9\x4c\xd0\x8e\xd2\xf5\xdd\x27\xc0\x58\xac\x03\xbe\xa3\x69\x59\xb5\x11\xe1\x51\xbb\x9f\xdc\x65\x6e\xd1\xb2\xb3\x8c\xe9\x40\x41\x87\x2f\xff\x52\x3d\x28\x67\x95\x17\x65\xe8\x46\xa7\x13\x94\xab\x9f\x3e\x57\x5b\xad\x8e\xbc\x1d\xc8\x42\x17\xdf\x21\x7b\x5b\x1b\x0d\x16\x50\xb0\xa7\x2b\x14\x7f\x23\xf1\xb5\x20\x3f\x26\xff\x52\x7d\x95\x51\xbc\xbd\x5a\x52\x81\x8f\x5d\x49\x70\x96\x65\x1b\xd2\xc0\x20\x2a\xfc\x5e\x8c\x42\x82\xae\x81\xa4\x1c\xc9\x22\xbe\x0f\x8e\x41\x55\xf8\x86\x2e\x46\x52\x27\x52\x6b\x3a\x71\x67\x8b\xdd\x52\xc0\x1f\x97\x73\xd0\x45\x0b\xfd\xc4\x8c\x9c\xd3\xed\x57\x82\xbc\xb0\x88\x9d\x23\xf5\x74\xd3\xdf\x5e\x3d\x8d\x61\x82\x90\xb8\x62\x5c\xa6\xe2\x33\xa7\x4d\x1a\x68\xca\x05\xd0\xcc\x3c\x02\x21\x6b\xf9\x86\x25\x86\x9c\xc9\x8c\xea\x3e\xdf\x44\x3f\x05\x19\xd5\x8c\xe1\x5d\x65\xea\xb2\x27\x32\x31\x7f\xe2\x43\x62\x1b\xec\x68\x83\x1f\x56\xec\x86\x85\x83\x65\x2d\xbf\xe2\xae\xa7\xf8\xd6\x85\x3f\x2b\x18\x0f\xfd\x7c\x2b\x2f\xcd\x5c\x4e\x92\xfe\xdf\x86\x12\x6f\x91\x47\x7d\xc0\x65\xc2\xca\x22\x17\x07\x2b\x64\xb7\x7d\xd0\xda\xf5\xae\xba\x43\x2b\xf6\x68\x97\x5a\xc2\x12\x9c\xfd\x83\x10\xc7\x75\x63\x89\x83\x3a\x1a\x63\x78\x2b\x43\x12\xd6\x32\x0e\xb4\xf6\xa7\x2d\x64\x8f\x43\x80\xa5\x3d\xc3\x56\xbf\x49\xdd\x92\x65\x43\xca\x9d\x08\x95\xb4\xe5\x2f\x8f\x1e\xbf\x29\x0f\x51\x71\x64\x59\x05\x84\x4c\x19\x80\xeb\x39\x92\x27\x7b\x8d\x04\x4f\x36\x66\xa0\xd7\x88\xd7\x0a\x10\x22\x50\x9a\x48\x09\x8b\x9d\x93\x2a\xe8\x96\x06\x85\xb6\x8a\x1b\x11\x95\x0c\xe6\xa0\x64\xc5\xdb\x64\x65\xa1\x7d\x9e\xfa\xb3\x48\xa9\x18\x39\x85\xc2\xf5\xc8\xfe\xb6\xe8\x32", b"\x54\x40\x7d\xf3\xca\xf0\x55\xa9\x62\xd1\x49\xba\x61\x7a\x55\x6f\x7f\xb2\x62\x91\x79\xcf\x59\xcd\x11\x7e\xb8\x7e\xf8\x61\x4b\x99"),
];
pub struct EcKey { pub c: usize, pub d: &'static [u8], pub q: &'static [u8] }
pub static EC_KEYS: &[EcKey] = &[
  EcKey { c: 0, d: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01", q: b"\x04\x6b\x17\xd1\xf2\xe1\x2c\x42\x47\xf8\xbc\xe6\xe5\x63\xa4\x40\xf2\x77\x03\x7d\x81\x2d\xeb\x33\xa0\xf4\xa1\x39\x45\xd8\x98\xc2\x96\x4f\xe3\x42\xe2\xfe\x1a\x7f\x9b\x8e\xe7\xeb\x4a\x7c\x0f\x9e\x16\x2b\xce\x33\x57\x6b\x31\x5e\xce\xcb\xb6\x40\x68\x37\xbf\x51\xf5" },
  EcKey { c: 0, d: b"\xff\xff\xff\xff\x00\x00\x00\x00\xff\xff\xff\xff\xff\xff\xff\xff\xbc\xe6\xfa\xad\xa7\x17\x9e\x84\xf3\xb9\xca\xc2\xfc\x63\x25\x50", q: b"\x04\x6b\x17\xd1\xf2\xe1\x2c\x42\x47\xf8\xbc\xe6\xe5\x63\xa4\x40\xf2\x77\x03\x7d\x81\x2d\xeb\x33\xa0\xf4\xa1\x39\x45\xd8\x98\xc2\x96\xb0\x1c\xbd\x1c\x01\xe5\x80\x65\x71\x18\x14\xb5\x83\xf0\x61\xe9\xd4\x31\xcc\xa9\x94\xce\xa1\x31\x34\x49\xbf\x97\xc8\x40\xae\x0a" },
  EcKey { c: 0, d: b"\xdc\x49\x31\xaa\x2b\x8c\x9c\xa2\xc0\xd3\xc6\xdf\xdc\xcf\xd4\xe5\x1b\x26\xb3\xaf\x6c\x21\x00\x66\x11\x9b\xb7\x32\x57\x28\xe4\x02", q: b"\x04\x1f\x34\x41\xff\x1e\x0b\xdc\x71\x66\x1c\xe6\xe5\x69\xd8\xef\x5c\x14\x32\x75\xe3\x4f\x36\xd0\x08\xec\xc4\x93\x9a\x2d\xeb\x58\xeb\xdf\x33\xd4\xac\x92\x17\x43\xdc\xbc\xe1\xec\x3b\x03\xf3\x85\xe8\xad\xb7\x3b\x0e\x81\x8b\x3a\xe5\xa1\xe2\xc7\x14\x70\x42\x3e\x84" },
  EcKey { c: 0, d: b"\x00\x0a\x8b\x0d\x2e\x61\xc6\xb2\xa1\x87\x0a\x22\xd2\xf0\x53\x0e\x00\x6e\xca\x95\xda\xe3\x68\x58\x9d\x21\x9b\x31\x42\x4f\x3f\x6c", q: b"\x04\x99\xcb\xb3\xb0\xae\x32\xe8\x1d\x33\xc4\xbf\xec\x5c\x64\x27\xf9\x9f\x79\x72\xa2\xae\xf5\x0f\x98\x36\xbf\x6e\x1a\xc7\xee\x9c\xfb\x90\xed\xa2\x1e\x7d\xeb\xb8\xaf\x7f\x24\x16\x25\xff\x72\x5c\x45\x96\x68\x11\xb9\xf9\x30\xe8\xd2\x8b\xeb\x41\xab\x5a\xed\xa6\x4f" },
  EcKey { c: 1, d: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01", q: b"\x04\xaa\x87\xca\x22\xbe\x8b\x05\x37\x8e\xb1\xc7\x1e\xf3\x20\xad\x74\x6e\x1d\x3b\x62\x8b\xa7\x9b\x98\x59\xf7\x41\xe0\x82\x54\x2a\x38\x55\x02\xf2\x5d\xbf\x55\x29\x6c\x3a\x54\x5e\x38\x72\x76\x0a\xb7\x36\x17\xde\x4a\x96\x26\x2c\x6f\x5d\x9e\x98\xbf\x92\x92\xdc\x29\xf8\xf4\x1d\xbd\x28\x9a\x14\x7c\xe9\xda\x31\x13\xb5\xf0\xb8\xc0\x0a\x60\xb1\xce\x1d\x7e\x81\x9d\x7a\x43\x1d\x7c\x90\xea\x0e\x5f" },
  EcKey { c: 1, d: b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xc7\x63\x4d\x81\xf4\x37\x2d\xdf\x58\x1a\x0d\xb2\x48\xb0\xa7\x7a\xec\xec\x19\x6a\xcc\xc5\x29\x72", q: b"\x04\xaa\x87\xca\x22\xbe\x8b\x05\x37\x8e\xb1\xc7\x1e\xf3\x20\xad\x74\x6e\x1d\x3b\x62\x8b\xa7\x9b\x98\x59\xf7\x41\xe0\x82\x54\x2a\x38\x55\x02\xf2\x5d\xbf\x55\x29\x6c\x3a\x54\x5e\x38\x72\x76\x0a\xb7\xc9\xe8\x21\xb5\x69\xd9\xd3\x90\xa2\x61\x67\x40\x6d\x6d\x23\xd6\x07\x0b\xe2\x42\xd7\x65\xeb\x83\x16\x25\xce\xec\x4a\x0f\x47\x3e\xf5\x9f\x4e\x30\xe2\x81\x7e\x62\x85\xbc\xe2\x84\x6f\x15\xf1\xa0" },
  EcKey { c: 1, d: b"\xa5\x35\x7c\x91\x87\x2b\xee\x3f\x27\x70\x2f\xe8\x45\x62\xdd\xfb\x53\x6d\xd6\xf6\x69\x78\x01\x39\xa5\x82\xd4\x83\xef\xf0\x79\x70\x3d\xeb\xa6\xae\x2c\xbe\xd3\x50\xb4\x42\xcc\xb0\x8d\x0f\x7d\xc6", q: b"\x04\x48\x84\xbd\x6b\x2f\x90\xb4\x33\xc1\x65\xe0\xea\xf4\x3f\x87\xcf\xb8\x79\xcc\xbd\x44\x4a\x3c\x35\x3a\x2a\xeb\x06\xcc\x38\x4b\x1e\x13\xdf\xc2\xec\x03\xce\x64\x5f\x2f\x50\x4b\x00\x3b\xff\xf9\x76\x83\x44\x92\xcd\x98\x3e\x97\x98\xdf\xaf\xf0\x51\xca\x2a\xe7\x1e\xde\x3b\xe0\x2f\x30\x4d\x2f\x1d\xf8\xa3\xfe\xb2\xc4\xfb\x39\x52\xf4\xd7\x08\x61\x44\x41\x65\x54\x65\x6e\xef\x8a\x3d\xca\x8a\x84" },
  EcKey { c: 1, d: b"\x00\x07\xfa\x2b\x3a\xe5\x3e\xde\xf6\xef\xdd\x9f\x9f\x03\x50\xb0\xa2\xf7\x1a\xd5\x1d\x0f\xee\x16\x0c\xe2\x88\xfc\x35\x71\x1b\x17\x83\x83\xb8\x68\xc3\x6f\x4a\xed\x84\xa4\x69\x48\xe1\x2d\xfb\x91", q: b"\x04\x95\xd0\x89\xd0\x03\xaa\x70\x13\x45\x62\x2c\xa7\x96\x5c\xdc\x13\xb8\x1b\x29\xc7\x51\x12\xa0\xbf\xd0\xca\xed\x64\x42\x0d\xf4\x99\x74\x6e\x51\xae\x73\xba\x9f\x89\xd0\xd7\xb3\x06\x54\x6a\xca\x08\x75\xb1\x5a\x6e\x22\x65\xfa\x29\xdf\xf1\xeb\x2d\x86\x02\x80\xa1\x6f\xbc\x12\x9a\x52\xd7\xe4\x95\x48\x0d\x31\xac\xe6\x51\x7e\xc5\x01\x08\x1e\xe7\x93\x1f\x39\xb6\x65\x0a\x33\xd9\xd7\x02\x2b\x82" },
];
/// key, hash, message, randomness (empty: the nonce is given), nonce, signature
pub struct EcSig { pub key: usize, pub h: usize, pub msg: &'static [u8], pub rnd: &'static [u8], pub k: &'static [u8], pub sig: &'static [u8] }
pub static EC_SIGN: &[EcSig] = &[
  EcSig { key: 0, h: 0, msg: b"\x00\x03\x06\x09\x0c\x0f\x12\x15\x18\x1b\x1e\x21\x24\x27\x2a\x2d\x30\x33\x36\x39", rnd: b"\xb2\x66\xea\xa3\xb2\x8b\x9d\x5f\xd3\xd2\xcc\x49\x16\xd0\xe0\x36", k: b"", sig: b"\x98\xd2\x1c\x31\x70\x30\xae\x1b\x74\xa7\x5d\x1f\x5c\x76\xe7\x62\xf5\x41\xbe\x38\xca\xa7\xf4\xd2\x4c\xed\x2d\x2d\x20\xde\x08\x37\xa0\x05\x21\x85\x7d\x77\x3d\xed\xdc\x1b\x39\xf5\xe9\x7b\x15\x45\xf9\xf4\xc3\x02\xf0\x40\xcb\x96\x75\x40\x0b\x97\xaf\xcd\xa3\x06" },
  EcSig { key: 0, h: 0, msg: b"\x01\x04\x07\x0a\x0d\x10\x13\x16\x19\x1c\x1f\x22\x25\x28\x2b\x2e\x31\x34\x37\x3a\x3d\x40\x43\x46\x49\x4c\x4f\x52\x55\x58\x5b\x5e\x61\x64\x67\x6a\x6d\x70\x73\x76\x79\x7c\x7f\x82\x85\x88\x8b\x8e\x91\x94\x97\x9a\x9d\xa0\xa3\xa6\xa9\xac\xaf\xb2\xb5\xb8\xbb\xbe\xc1\xc4\xc7\xca\xcd\xd0\xd3\xd6\xd9\xdc\xdf\xe2\xe5\xe8\xeb\xee\xf1\xf4\xf7\xfa\xfd\x00\x03\x06\x09\x0c\x0f\x12\x15\x18\x1b\x1e\x21\x24\x27\x2a\x2d\x30\x33\x36\x39\x3c\x3f\x42\x45\x48\x4b\x4e\x51\x54\x57\x5a\x5d\x60\x63\x66\x69\x6c\x6f\x72\x75\x78\x7b\x7e\x81\x84", rnd: b"\xc0\x12\xc2\x97\xec\x92\x78\x47\x71\xef\x35\x94\xd4\xec\xaa\x0e", k: b"", sig: b"\x70\xa9\x31\x54\xcc\x3f\x66\x56\x97\xd3\x23\xb1\x71\xe2\xae\xcd\x77\xb7\xf7\xce\x4b\xeb\xbe\xc4\xab\x57\xee\x3f\xe4\x26\x30\x1f\x93\xc2\xbc\x7c\xca\x46\xde\x9d\xf2\x7c\x15\x78\x79\x50\x50\xec\x70\x9f\x5b\x4b\x81\x41\x33\x27\xbe\x01\x8d\x22\xa0\x85\xe3\x59" },
  EcSig { key: 0, h: 1, msg: b"\x00\x03\x06\x09\x0c\x0f\x12\x15\x18\x1b\x1e\x21\x24\x27\x2a\x2d\x30\x33\x36\x39", rnd: b"\x39\xee\xe2\xb2\x79\x6c\xe2\x36\x88\x1a\x24\xa8\xb8\x58\xc4\x79", k: b"", sig: b"\x86\xae\x81\xc3\x6d\x1e\xc3\xf7\x7f\x4d\xa9\xcf\xd6\x4c\x9c\xad\x6f\x91\x83\x0e\xac\xfa\xc1\x93\xb2\x9e\x87\xba\x45\xc4\xfc\x14\xf2\xb9\x94\x34\xf3\xb8\x2d\x4e\x8e\x66\xbc\x98\x54\xb8\x9c\xb7\x9f\x1b\x43\x02\x8d\xd6\x30\x15\x10\x39\x39\xba\x7a\xd3\xbf\xed" },
  EcSig { key: 0, h: 1, msg: b"\x01\x04\x07\x0a\x0d\x10\x13\x16\x19\x1c\x1f\x22\x25\x28\x2b\x2e\x31\x34\x37\x3a\x3d\x40\x43\x46\x49\x4c\x4f\x52\x55\x58\x5b\x5e\x61\x64\x67\x6a\x6d\x70\x73\x76\x79\x7c\x7f\x82\x85\x88\x8b\x8e\x91\x94\x97\x9a\x9d\xa0\xa3\xa6\xa9\xac\xaf\xb2\xb5\xb8\xbb\xbe\xc1\xc4\xc7\xca\xcd\xd0\xd3\xd6\xd9\xdc\xdf\xe2\xe5\xe8\xeb\xee\xf1\xf4\xf7\xfa\xfd\x00\x03\x06\x09\x0c\x0f\x12\x15\x18\x1b\x1e\x21\x24\x27\x2a\x2d\x30\x33\x36\x39\x3c\x3f\x42\x45\x48\x4b\x4e\x51\x54\x57\x5a\x5d\x60\x63\x66\x69\x6c\x6f\x72\x75\x78\x7b\x7e\x81\x84", rnd: b"\x06\xaa\x04\x10\x8d\x37\xfa\x08\xcf\x9f\x78\xe8\xcf\x6c\x48\x8c", k: b"", sig: b"\xbd\xb0\xfb\x40\xc0\xd7\x37\x26\xe8\xae\x84\x44\x3a\x3e\xcc\xc3\x2c\xd0\x53\x3c\xcf\xf0\xe3\x15\x4d\x32\xce\x77\xe6\x98\xee\x5e\xdd\x2d\xa4\xff\xf0\x6b\xd2\x2d\x8a\xda\x0d\xf0\x9c\x3a\x1e\x88\x35\xc0\x35\xac\x00\x99\x83\xeb\xae\x94\xab\xf0\x33\x6c\x8f\x27" },
  EcSig { key: 0, h: 2, msg: b"\x00\x03\x06\x09\x0c\x0f\x12\x15\x18\x1b\x1e\x21\x24\x27\x2a\x2d\x30\x33\x36\x39", rnd: b"\xe3\x86\xb2\xee\x05\xe1\x07\x54\x0f\x86\x6b\x3b\xd7\x2c\x5b\xc0", k: b"", sig: b"\x0d\x3e\x47\x57\x16\xaa\x58\x14\x0c\x2d\xcc\x2b\xff\x91\x87\x44\xc8\x91\xd1\xfe\xa4\x7f\x09\xc8\x18\xd7\x79\x49\xab\xd6\x38\xf2\x52\xe0\xa5\xb1\x11\xe0\x47\x19\x4a\xa1\xde\x6c\x42\x4d\x57\xa9\x82\x7a\x9f\x6d\x38\x5d\xa2\x24\xe6\xaa\xa3\xce\x72\x15\xfc\x96" },
  EcSig { key: 0, h: 2, msg: b"\x01\x04\x07\x0a\x0d\x10\x13\x16\x19\x1c\x1f\x22\x25\x28\x2b\x2e\x31\x34\x37\x3a\x3d\x40\x43\x46\x49\x4c\x4f\x52\x55\x58\x5b\x5e\x61\x64\x67\x6a\x6d\x70\x73\x76\x79\x7c\x7f\x82\x85\x88\x8b\x8e\x91\x94\x97\x9a\x9d\xa0\xa3\xa6\xa9\xac\xaf\xb2\xb5\xb8\xbb\xbe\xc1\xc4\xc7\xca\xcd\xd0\xd3\xd6\xd9\xdc\xdf\xe2\xe5\xe8\xeb\xee\xf1\xf4\xf7\xfa\xfd\x00\x03\x06\x09\x0c\x0f\x12\x15\x18\x1b\x1e\x21\x24\x27\x2a\x2d\x30\x33\x36\x39\x3c\x3f\x42\x45\x48\x4b\x4e\x51\x54\x57\x5a\x5d\x60\x63\x66\x69\x6c\x6f\x72\x75\x78\x7b\x7e\x81\x84", rnd: b"\x38\xcb\x61\x14\x02\x33\xac\x79\xfa\xa2\xc1\x9c\x80\x7b\xff\xe6", k: b"", sig: b"\xf3\xc4\x94\xb9\xf3\x96\x38\xe6\x64\xbf\x28\xe2\x80\x66\x3b\xb6\x09\x1d\x39\xa2\xbc\xee\x77\x6a\x18\x2f\x76\xb9\x07\xea\x67\xa3\x58\xf9\x4b\xa8\x8d\x83\x1b\x3f\x5d\xe0\xc9\x4c\x3d\xc2\xa6\x57\xf0\xdc\xbb\x6e\x2a\xb6\x4c\x53\x09\x5e\x2c\x03\xd7\x09\x2d\xfd" },
  EcSig { key: 0, h: 0, msg: b"\x6d\x65\x73\x73\x61\x67\x65\x20\x74\x6f\x20\x62\x65\x20\x73\x69\x67\x6e\x65\x64", rnd: b"", k: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01", sig: b"\x6b\x17\xd1\xf2\xe1\x2c\x42\x47\xf8\xbc\xe6\xe5\x63\xa4\x40\xf2\x77\x03\x7d\x81\x2d\xeb\x33\xa0\xf4\xa1\x39\x45\xd8\x98\xc2\x96\x2c\x0c\x94\xb4\x44\x69\x46\xd4\x6b\x7e\x1e\x5d\xb9\xd3\x78\xa7\x56\x16\xac\x6d\x85\x97\x77\xa2\xbd\xce\x93\x11\x2e\x2f\x70\x7c" },
  EcSig { key: 0, h: 0, msg: b"\x6d\x65\x73\x73\x61\x67\x65\x20\x74\x6f\x20\x62\x65\x20\x73\x69\x67\x6e\x65\x64", rnd: b"", k: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x02", sig: b"\x7c\xf2\x7b\x18\x8d\x03\x4f\x7e\x8a\x52\x38\x03\x04\xb5\x1a\xc3\xc0\x89\x69\xe2\x77\xf2\x1b\x35\xa6\x0b\x48\xfc\x47\x66\x99\x78\x1e\xf3\x9e\xec\xf8\x20\x2a\x05\x7e\x89\xb7\xbd\xad\x72\x29\x3c\x4f\xce\x4c\x67\x67\xcf\x2f\x9b\xb7\x9c\x51\x63\xce\x7e\xa3\xaf" },
  EcSig { key: 0, h: 0, msg: b"\x6d\x65\x73\x73\x61\x67\x65\x20\x74\x6f\x20\x62\x65\x20\x73\x69\x67\x6e\x65\x64", rnd: b"", k: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x03", sig: b"\x5e\xcb\xe4\xd1\xa6\x33\x0a\x44\xc8\xf7\xef\x95\x1d\x4b\xf1\x65\xe6\xc6\xb7\x21\xef\xad\xa9\x85\xfb\x41\x66\x1b\xc6\xe7\xfd\x6c\x0a\x95\x8d\x31\x03\x25\x5a\x45\xbe\x93\x0d\x04\x7b\xd3\xb8\x5e\x41\xf3\x4c\xaf\x6d\x1d\xf9\xd7\xec\x24\xea\xa2\x5e\xd4\xe3\xc6" },
  EcSig { key: 0, h: 0, msg: b"\x6d\x65\x73\x73\x61\x67\x65\x20\x74\x6f\x20\x62\x65\x20\x73\x69\x67\x6e\x65\x64", rnd: b"", k: b"\xff\xff\xff\xff\x00\x00\x00\x00\xff\xff\xff\xff\xff\xff\xff\xff\xbc\xe6\xfa\xad\xa7\x17\x9e\x84\xf3\xb9\xca\xc2\xfc\x63\x25\x50", sig: b"\x6b\x17\xd1\xf2\xe1\x2c\x42\x47\xf8\xbc\xe6\xe5\x63\xa4\x40\xf2\x77\x03\x7d\x81\x2d\xeb\x33\xa0\xf4\xa1\x39\x45\xd8\x98\xc2\x96\xd3\xf3\x6b\x4a\xbb\x96\xb9\x2c\x94\x81\xe1\xa2\x46\x2c\x87\x58\x66\xd0\x4e\x40\x21\x80\x26\xe2\x35\xeb\x37\xb1\xce\x33\xb4\xd5" },
  EcSig { key: 0, h: 0, msg: b"\x6d\x65\x73\x73\x61\x67\x65\x20\x74\x6f\x20\x62\x65\x20\x73\x69\x67\x6e\x65\x64", rnd: b"", k: b"\xff\xff\xff\xff\x00\x00\x00\x00\xff\xff\xff\xff\xff\xff\xff\xff\xbc\xe6\xfa\xad\xa7\x17\x9e\x84\xf3\xb9\xca\xc2\xfc\x63\x25\x4f", sig: b"\x7c\xf2\x7b\x18\x8d\x03\x4f\x7e\x8a\x52\x38\x03\x04\xb5\x1a\xc3\xc0\x89\x69\xe2\x77\xf2\x1b\x35\xa6\x0b\x48\xfc\x47\x66\x99\x78\xe1\x0c\x61\x12\x07\xdf\xd5\xfb\x81\x76\x48\x42\x52\x8d\xd6\xc3\x6d\x18\xae\x46\x3f\x48\x6e\xe9\x3c\x1d\x79\x5f\x2d\xe4\x81\xa2" },
  EcSig { key: 0, h: 0, msg: b"\x6d\x65\x73\x73\x61\x67\x65\x20\x74\x6f\x20\x62\x65\x20\x73\x69\x67\x6e\x65\x64", rnd: b"", k: b"\x7f\xff\xff\xff\x80\x00\x00\x00\x7f\xff\xff\xff\xff\xff\xff\xff\xde\x73\x7d\x56\xd3\x8b\xcf\x42\x79\xdc\xe5\x61\x7e\x31\x92\xa8", sig: b"\x2a\xfa\x38\x6b\x3f\x2b\xdc\xdb\x83\xf4\xd8\x3f\x8f\xa3\x87\x4d\x7b\x74\xdc\xb4\x54\xbd\x64\x4f\xdd\x6b\xf3\xd1\xf2\xda\x8d\xb6\x28\x22\x09\xa6\xbb\x2e\x3d\x30\x12\x93\xe0\x90\x34\x5a\x81\xfb\x4a\xef\xe8\xbe\xa7\x2c\xaf\x5c\xb2\xcd\x64\xc5\x6f\x1d\x88\xc8" },
  EcSig { key: 0, h: 0, msg: b"\x6d\x65\x73\x73\x61\x67\x65\x20\x74\x6f\x20\x62\x65\x20\x73\x69\x67\x6e\x65\x64", rnd: b"", k: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", sig: b"\x44\x7d\x73\x9b\xee\xdb\x5e\x67\xfb\x98\x2f\xd5\x88\xc6\x76\x6e\xfc\x35\xff\x7d\xc2\x97\xea\xc3\x57\xc8\x4f\xc9\xd7\x89\xbd\x85\x0c\x32\xd4\x3a\x3c\xad\x09\x26\x49\x6d\xe9\xf1\xf8\xa8\xa4\x4d\x52\x76\xf0\xad\xa2\x8e\xbe\x6b\x58\x80\xae\x89\x7a\x85\x9d\xc9" },
  EcSig { key: 0, h: 0, msg: b"\x6d\x65\x73\x73\x61\x67\x65\x20\x74\x6f\x20\x62\x65\x20\x73\x69\x67\x6e\x65\x64", rnd: b"", k: b"\x48\x28\xcc\xb3\x37\x2e\x6d\xdd\x10\x58\x11\xca\xab\xd4\x03\xb7\x59\x1a\x75\x12\xa6\x8f\x42\xbd\x0e\xef\xb4\x66\xe1\x0b\xdc\x04", sig: b"\xe7\x8e\x4d\x51\x96\xb1\x25\x28\xf2\xfb\xef\xe6\x7e\x6d\x24\x57\x38\x74\x92\x70\x18\xb9\x41\x48\xfb\xc3\x06\xc6\x21\x56\x34\x0d\x7b\x3d\x7b\x3c\x6f\xd9\x5e\x35\xa8\xa1\x8a\x2e\x32\xec\x1b\x13\x50\x85\x5c\x2a\xa2\x67\x0e\x42\x5e\x4d\x5f\xa1\x59\x7d\x5b\x84" },
  EcSig { key: 0, h: 0, msg: b"\x6d\x65\x73\x73\x61\x67\x65\x20\x74\x6f\x20\x62\x65\x20\x73\x69\x67\x6e\x65\x64", rnd: b"", k: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x55\x55", sig: b"\x56\x9e\xd9\x2c\x42\x8c\x0c\xdd\x05\xe6\x8e\xc5\x47\x0f\x67\x13\x55\xb1\x67\xc3\x59\x22\x1f\x02\xa0\x82\x1f\xff\xf8\xae\xe2\x6d\x2d\xc0\x74\x7b\x1a\x84\x0b\xdf\x6d\xdb\xd7\xd3\x2a\x8c\x02\x47\xd2\xa2\xb8\x3d\x04\xe8\x8f\xe7\xfb\x83\xac\x8e\x72\x8b\x15\x47" },
  EcSig { key: 1, h: 0, msg: b"\x01\x04\x07\x0a\x0d\x10\x13\x16\x19\x1c\x1f\x22\x25\x28\x2b\x2e\x31\x34\x37\x3a\x3d", rnd: b"\x6a\xc3\xb2\xa2\x92\x4b\x75\x0f\x80\x17\x49\x44\xd1\xf6\x9c\x39", k: b"", sig: b"\xbd\x11\xe8\x3f\x9b\xcd\x29\x18\x4b\xe0\x71\xab\x9e\x48\x9d\x0b\xa5\x2f\x26\x4b\x5f\x63\xc9\x25\xa0\x60\x36\x2e\x49\x90\x4f\xad\xca\xb8\x25\x46\xcc\xf3\x45\xd3\xbf\x94\xeb\x55\xfd\xdf\x19\x60\xb2\x3b\xc7\x93\x22\x99\x5e\xc0\xdb\xf6\x2f\xb5\xc4\x93\xa5\xf3" },
  EcSig { key: 1, h: 0, msg: b"\x02\x05\x08\x0b\x0e\x11\x14\x17\x1a\x1d\x20\x23\x26\x29\x2c\x2f\x32\x35\x38\x3b\x3e\x41\x44\x47\x4a\x4d\x50\x53\x56\x59\x5c\x5f\x62\x65\x68\x6b\x6e\x71\x74\x77\x7a\x7d\x80\x83\x86\x89\x8c\x8f\x92\x95\x98\x9b\x9e\xa1\xa4\xa7\xaa\xad\xb0\xb3\xb6\xb9\xbc\xbf\xc2\xc5\xc8\xcb\xce\xd1\xd4\xd7\xda\xdd\xe0\xe3\xe6\xe9\xec\xef\xf2\xf5\xf8\xfb\xfe\x01\x04\x07\x0a\x0d\x10\x13\x16\x19\x1c\x1f\x22\x25\x28\x2b\x2e\x31\x34\x37\x3a\x3d\x40\x43\x46\x49\x4c\x4f\x52\x55\x58\x5b\x5e\x61\x64\x67\x6a\x6d\x70\x73\x76\x79\x7c\x7f\x82\x85\x88", rnd: b"\x64\x7e\x6d\x43\x14\x95\xab\xca\xc8\xd1\xbb\x69\xd0\xeb\xf5\x50", k: b"", sig: b"\xe4\x22\xb7\x40\xa7\xd6\x05\x09\x34\x05\x7a\xd1\xb9\xee\xef\x79\x33\x07\x53\x66\x3d\x7f\x29\xe1\xad\xcc\xdd\x9f\x91\x7a\xf2\xa1\x24\xd5\x7f\x25\x74\x6f\x45\x24\xec\xe2\x9b\xe3\x76\xbb\x46\x71\xdc\x47\x0e\x00\x4b\x7e\x8d\xf6\xbb\xb6\xaa\xde\x6f\x58\x18\xf7" },
  EcSig { key: 1, h: 1, msg: b"\x01\x04\x07\x0a\x0d\x10\x13\x16\x19\x1c\x1f\x22\x25\x28\x2b\x2e\x31\x34\x37\x3a\x3d", rnd: b"\x67\xde\xce\x4c\x7e\x19\x8a\x37\x01\xd4\x86\x1c\x58\x22\xf1\x4f", k: b"", sig: b"\xda\x89\xdf\x62\xa9\x75\x52\xfe\xed\x5d\x58\xd2\xf4\xbd\x64\x89\xd3\x09\xfb\x85\x0c\xbe\x99\xf6\x07\xd5\xdf\x00\xc5\x0a\x02\x8b\xa1\x0e\x89\x15\x00\x4b\x31\x83\x3e\x8c\x04\x7c\x8f\xa0\x0d\x37\x68\x9a\xe4\xe8\x48\xdc\x64\xba\x0b\xf6\x1b\xf6\x7b\x74\x8f\xe6" },
  EcSig { key: 1, h: 1, msg: b"\x02\x05\x08\x0b\x0e\x11\x14\x17\x1a\x1d\x20\x23\x26\x29\x2c\x2f\x32\x35\x38\x3b\x3e\x41\x44\x47\x4a\x4d\x50\x53\x56\x59\x5c\x5f\x62\x65\x68\x6b\x6e\x71\x74\x77\x7a\x7d\x80\x83\x86\x89\x8c\x8f\x92\x95\x98\x9b\x9e\xa1\xa4\xa7\xaa\xad\xb0\xb3\xb6\xb9\xbc\xbf\xc2\xc5\xc8\xcb\xce\xd1\xd4\xd7\xda\xdd\xe0\xe3\xe6\xe9\xec\xef\xf2\xf5\xf8\xfb\xfe\x01\x04\x07\x0a\x0d\x10\x13\x16\x19\x1c\x1f\x22\x25\x28\x2b\x2e\x31\x34\x37\x3a\x3d\x40\x43\x46\x49\x4c\x4f\x52\x55\x58\x5b\x5e\x61\x64\x67\x6a\x6d\x70\x73\x76\x79\x7c\x7f\x82\x85\x88", rnd: b"\xa5\x5e\xfa\xab\x5f\x3d\xe7\xe7\x80\xf4\x03\x89\x63\xdd\x20\x7e", k: b"", sig: b"\x21\xe4\x48\xe5\x1b\x51\xc1\xfe\x9e\x6c\x42\x6a\x2e\xfc\x06\x06\xc5\xff\x6f\xca\xaa\x66\x24\x2e\xe5\x13\xd5\xd6\x47\x51\xdd\xd1\xc3\x13\xbe\x18\x46\xbd\xb0\x65\x65\x3c\xe9\x59\xec\x99\xc7\x05\x35\x80\x61\x3d\xd2\x2b\x91\xd1\xd5\x60\x52\xdc\xb9\xe0\xf6\x21" },
  EcSig { key: 1, h: 2, msg: b"\x01\x04\x07\x0a\x0d\x10\x13\x16\x19\x1c\x1f\x22\x25\x28\x2b\x2e\x31\x34\x37\x3a\x3d", rnd: b"\x1a\x75\xf4\x79\x26\xa1\x90\xfa\x1d\x7a\xd5\x13\x59\x37\xd4\x98", k: b"", sig: b"\xee\x4b\x0c\xfc\x92\x37\x2c\xb3\xe0\xd0\x26\x3f\x6a\xba\x91\x64\x90\x17\x20\xec\xe8\x3c\x21\xf6\x87\xfc\x08\x75\xee\xbc\x2b\xad\x27\x9d\x71\xb9\xec\x13\x8c\xc3\xf7\x81\x4b\x00\x9d\xdb\x17\x14\xd2\x71\xab\x3a\x81\xba\xba\x48\x74\xcd\x1b\xc3\xb8\xcd\xf3\x6e" },
  EcSig { key: 1, h: 2, msg: b"\x02\x05\x08\x0b\x0e\x11\x14\x17\x1a\x1d\x20\x23\x26\x29\x2c\x2f\x32\x35\x38\x3b\x3e\x41\x44\x47\x4a\x4d\x50\x53\x56\x59\x5c\x5f\x62\x65\x68\x6b\x6e\x71\x74\x77\x7a\x7d\x80\x83\x86\x89\x8c\x8f\x92\x95\x98\x9b\x9e\xa1\xa4\xa7\xaa\xad\xb0\xb3\xb6\xb9\xbc\xbf\xc2\xc5\xc8\xcb\xce\xd1\xd4\xd7\xda\xdd\xe0\xe3\xe6\xe9\xec\xef\xf2\xf5\xf8\xfb\xfe\x01\x04\x07\x0a\x0d\x10\x13\x16\x19\x1c\x1f\x22\x25\x28\x2b\x2e\x31\x34\x37\x3a\x3d\x40\x43\x46\x49\x4c\x4f\x52\x55\x58\x5b\x5e\x61\x64\x67\x6a\x6d\x70\x73\x76\x79\x7c\x7f\x82\x85\x88", rnd: b"\x83\x24\xcb\xe9\x48\x89\x25\x52\x25\xa9\xc8\x74\xdd\xcc\xd6\x07", k: b"", sig: b"\x33\x3f\x39\xd8\xfc\xc7\x0f\x8e\x24\x1b\x3d\xa0\x8c\x78\x59\x15\xb2\x84\x96\xd0\x81\x90\xd9\x08\xe7\xf3\x34\x2d\x8d\x50\xd7\x5b\x2d\x37\x39\xcc\x0e\xa9\xe9\x6f\x4a\x22\x35\xf1\x2d\xaf\x58\xde\x4a\xcc\x3d\x24\x0f\x9e\x9c\x6e\x34\x44\xdd\x3c\x00\x01\x3d\xc1" },
  EcSig { key: 1, h: 0, msg: b"\x6d\x65\x73\x73\x61\x67\x65\x20\x74\x6f\x20\x62\x65\x20\x73\x69\x67\x6e\x65\x64", rnd: b"", k: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01", sig: b"\x6b\x17\xd1\xf2\xe1\x2c\x42\x47\xf8\xbc\xe6\xe5\x63\xa4\x40\xf2\x77\x03\x7d\x81\x2d\xeb\x33\xa0\xf4\xa1\x39\x45\xd8\x98\xc2\x96\x55\xdc\xf0\xcd\x82\x10\xc2\x45\x7a\x04\x50\x92\xf2\x8a\xf6\xc2\x24\xf6\xac\x18\xd0\xd8\xae\xe5\xc8\x45\xeb\x48\x79\x61\x10\xa1" },
  EcSig { key: 1, h: 0, msg: b"\x6d\x65\x73\x73\x61\x67\x65\x20\x74\x6f\x20\x62\x65\x20\x73\x69\x67\x6e\x65\x64", rnd: b"", k: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x02", sig: b"\x7c\xf2\x7b\x18\x8d\x03\x4f\x7e\x8a\x52\x38\x03\x04\xb5\x1a\xc3\xc0\x89\x69\xe2\x77\xf2\x1b\x35\xa6\x0b\x48\xfc\x47\x66\x99\x78\xa2\x01\x23\xd3\x6b\x1c\xda\x87\xf4\x37\x7f\xba\xa8\xbd\x0e\x78\x4c\x2b\xdd\x32\x96\xf4\xb2\xeb\x05\x4a\xd3\x2a\x83\x7b\x2f\x88" },
  EcSig { key: 1, h: 0, msg: b"\x6d\x65\x73\x73\x61\x67\x65\x20\x74\x6f\x20\x62\x65\x20\x73\x69\x67\x6e\x65\x64", rnd: b"", k: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x03", sig: b"\x5e\xcb\xe4\xd1\xa6\x33\x0a\x44\xc8\xf7\xef\x95\x1d\x4b\xf1\x65\xe6\xc6\xb7\x21\xef\xad\xa9\x85\xfb\x41\x66\x1b\xc6\xe7\xfd\x6c\x76\x0d\x9f\x4f\x3f\x03\x53\x6d\xe3\x43\x17\xf6\x68\x4b\xc2\x1a\x26\x08\xcf\x0c\x92\x0f\x47\xd7\x3c\x75\x2d\xbc\x82\x7c\x53\xb4" },
  EcSig { key: 1, h: 0, msg: b"\x6d\x65\x73\x73\x61\x67\x65\x20\x74\x6f\x20\x62\x65\x20\x73\x69\x67\x6e\x65\x64", rnd: b"", k: b"\xff\xff\xff\xff\x00\x00\x00\x00\xff\xff\xff\xff\xff\xff\xff\xff\xbc\xe6\xfa\xad\xa7\x17\x9e\x84\xf3\xb9\xca\xc2\xfc\x63\x25\x50", sig: b"\x6b\x17\xd1\xf2\xe1\x2c\x42\x47\xf8\xbc\xe6\xe5\x63\xa4\x40\xf2\x77\x03\x7d\x81\x2d\xeb\x33\xa0\xf4\xa1\x39\x45\xd8\x98\xc2\x96\xaa\x23\x0f\x31\x7d\xef\x3d\xbb\x85\xfb\xaf\x6d\x0d\x75\x09\x3d\x97\xf0\x4e\x94\xd6\x3e\xef\x9f\x2b\x73\xdf\x7a\x83\x02\x14\xb0" },
  EcSig { key: 1, h: 0, msg: b"\x6d\x65\x73\x73\x61\x67\x65\x20\x74\x6f\x20\x62\x65\x20\x73\x69\x67\x6e\x65\x64", rnd: b"", k: b"\xff\xff\xff\xff\x00\x00\x00\x00\xff\xff\xff\xff\xff\xff\xff\xff\xbc\xe6\xfa\xad\xa7\x17\x9e\x84\xf3\xb9\xca\xc2\xfc\x63\x25\x4f", sig: b"\x7c\xf2\x7b\x18\x8d\x03\x4f\x7e\x8a\x52\x38\x03\x04\xb5\x1a\xc3\xc0\x89\x69\xe2\x77\xf2\x1b\x35\xa6\x0b\x48\xfc\x47\x66\x99\x78\x5d\xfe\xdc\x2b\x94\xe3\x25\x79\x0b\xc8\x80\x45\x57\x42\xf1\x87\x70\xbb\x1d\x7b\x10\x22\xeb\x99\xee\x6e\xf7\x98\x78\xe7\xf5\xc9" },
  EcSig { key: 1, h: 0, msg: b"\x6d\x65\x73\x73\x61\x67\x65\x20\x74\x6f\x20\x62\x65\x20\x73\x69\x67\x6e\x65\x64", rnd: b"", k: b"\x7f\xff\xff\xff\x80\x00\x00\x00\x7f\xff\xff\xff\xff\xff\xff\xff\xde\x73\x7d\x56\xd3\x8b\xcf\x42\x79\xdc\xe5\x61\x7e\x31\x92\xa8", sig: b"\x2a\xfa\x38\x6b\x3f\x2b\xdc\xdb\x83\xf4\xd8\x3f\x8f\xa3\x87\x4d\x7b\x74\xdc\xb4\x54\xbd\x64\x4f\xdd\x6b\xf3\xd1\xf2\xda\x8d\xb6\xd4\x0a\xeb\x53\xb7\xdd\xb0\x9e\x22\x67\x41\x8e\x72\xe8\x9f\x31\x38\xc3\x5b\x8f\xfa\x22\x40\x9c\x28\x7d\x34\x0d\x3a\x87\xbf\xa0" },
  EcSig { key: 1, h: 0, msg: b"\x6d\x65\x73\x73\x61\x67\x65\x20\x74\x6f\x20\x62\x65\x20\x73\x69\x67\x6e\x65\x64", rnd: b"", k: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", sig: b"\x44\x7d\x73\x9b\xee\xdb\x5e\x67\xfb\x98\x2f\xd5\x88\xc6\x76\x6e\xfc\x35\xff\x7d\xc2\x97\xea\xc3\x57\xc8\x4f\xc9\xd7\x89\xbd\x85\x4b\x18\xc0\x16\x77\x62\x44\xbb\x78\xe9\x5a\x30\x66\xb4\xcf\xd4\xc4\x8e\xb2\xe1\xae\x05\x39\xa7\xf9\x83\xeb\x8f\xfa\x59\x79\x0c" },
  EcSig { key: 1, h: 0, msg: b"\x6d\x65\x73\x73\x61\x67\x65\x20\x74\x6f\x20\x62\x65\x20\x73\x69\x67\x6e\x65\x64", rnd: b"", k: b"\xe4\x8b\x2e\xa2\x2b\x2e\xa7\x76\x8e\x14\x0c\x66\xc1\x95\xcc\x6f\xb6\xcc\x1d\xfb\x1e\xd8\x78\x95\x36\x3a\x90\xe7\x7f\x7c\x63\xea", sig: b"\x4f\x76\x7f\xb2\xbd\x3e\x0b\x83\xd5\x86\x03\x7a\xc1\x0e\x1e\x67\x16\x5b\x07\x2a\x42\xba\x1c\x06\xa7\xc3\x67\xca\x3c\x6b\xa9\x3f\x7c\x5b\x4c\x3c\xb0\xaf\xe2\x8e\xc0\x24\x6c\x75\x6c\x7c\x11\x82\xac\x6a\x86\x53\xf8\xcf\x7c\x93\x86\x84\x85\x47\x92\x5b\x4a\xfc" },
  EcSig { key: 1, h: 0, msg: b"\x6d\x65\x73\x73\x61\x67\x65\x20\x74\x6f\x20\x62\x65\x20\x73\x69\x67\x6e\x65\x64", rnd: b"", k: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x55\x55", sig: b"\x56\x9e\xd9\x2c\x42\x8c\x0c\xdd\x05\xe6\x8e\xc5\x47\x0f\x67\x13\x55\xb1\x67\xc3\x59\x22\x1f\x02\xa0\x82\x1f\xff\xf8\xae\xe2\x6d\x60\xd6\x9f\xd7\xfb\xbf\x5d\xd2\xa5\xb8\xec\x48\xe6\x62\x13\xc1\x6c\x44\x09\x4d\xff\xf6\xd2\xf4\xdd\x85\xa8\x53\x88\xdf\xc1\x3d" },
  EcSig { key: 2, h: 0, msg: b"\x02\x05\x08\x0b\x0e\x11\x14\x17\x1a\x1d\x20\x23\x26\x29\x2c\x2f\x32\x35\x38\x3b\x3e\x41", rnd: b"\x50\x49\x2b\x62\xe2\xeb\x5e\x58\xbd\x14\x1b\xaf\xb0\x24\x1a\x4b", k: b"", sig: b"\x73\x80\x26\x3e\x47\x4b\x0c\x20\x86\x5c\x32\xb3\x3e\x3a\xee\x25\xd5\x90\xf0\x6b\xbe\xa3\xef\xf4\x79\xb8\x44\x33\x2f\x8c\x67\x14\xc4\x26\x1c\xb2\xf2\xb9\xdd\xca\x2d\xc8\x89\x21\xd6\xec\xf9\x82\x76\xbc\x76\x80\xdb\xf3\x45\x55\xc2\xc6\x65\x8b\x66\xd1\x10\xe5" },
  EcSig { key: 2, h: 0, msg: b"\x03\x06\x09\x0c\x0f\x12\x15\x18\x1b\x1e\x21\x24\x27\x2a\x2d\x30\x33\x36\x39\x3c\x3f\x42\x45\x48\x4b\x4e\x51\x54\x57\x5a\x5d\x60\x63\x66\x69\x6c\x6f\x72\x75\x78\x7b\x7e\x81\x84\x87\x8a\x8d\x90\x93\x96\x99\x9c\x9f\xa2\xa5\xa8\xab\xae\xb1\xb4\xb7\xba\xbd\xc0\xc3\xc6\xc9\xcc\xcf\xd2\xd5\xd8\xdb\xde\xe1\xe4\xe7\xea\xed\xf0\xf3\xf6\xf9\xfc\xff\x02\x05\x08\x0b\x0e\x11\x14\x17\x1a\x1d\x20\x23\x26\x29\x2c\x2f\x32\x35\x38\x3b\x3e\x41\x44\x47\x4a\x4d\x50\x53\x56\x59\x5c\x5f\x62\x65\x68\x6b\x6e\x71\x74\x77\x7a\x7d\x80\x83\x86\x89\x8c", rnd: b"\xd6\x24\x62\xa8\x81\xfb\x00\x35\x79\xd7\x27\xf2\x8f\xce\x77\x13", k: b"", sig: b"\xcb\xc6\x61\x65\x51\x35\xd5\x1f\xa6\xc2\x37\xfc\x91\xea\x63\xd1\x5c\x81\x2a\x7f\x9d\xde\xe5\xf3\xfb\x0a\xf5\xf2\x6c\x0e\xe1\xba\x91\xb4\xd9\xd3\x88\x03\xa6\xb1\xb0\x5b\xbf\x72\x1f\x02\x92\x11\xde\x27\xba\x0a\x8d\xb4\x9f\x37\xee\x70\x40\xa6\x2b\x5f\x1b\x54" },
  EcSig { key: 2, h: 1, msg: b"\x02\x05\x08\x0b\x0e\x11\x14\x17\x1a\x1d\x20\x23\x26\x29\x2c\x2f\x32\x35\x38\x3b\x3e\x41", rnd: b"\x8c\x9a\xb7\x15\x04\x14\xe2\x8b\x58\x82\xca\x85\x87\x77\x13\xb9", k: b"", sig: b"\x95\x0b\xa0\x14\xda\x45\xf3\x05\x4c\xf6\x73\x6c\x60\xca\x7e\x7b\x5e\xa8\xa5\x4e\xac\x37\x0f\x3a\x7a\x09\xf4\xd6\x74\xa9\xdd\x17\x5a\x61\xdf\xff\x2d\xb4\xd9\xbc\x6c\x04\xca\x85\xb5\x32\xa7\xdc\xe5\x96\xa9\x3b\xa9\xb0\xe8\xba\x35\x79\xda\xab\x63\x83\x00\x8d" },
  EcSig { key: 2, h: 1, msg: b"\x03\x06\x09\x0c\x0f\x12\x15\x18\x1b\x1e\x21\x24\x27\x2a\x2d\x30\x33\x36\x39\x3c\x3f\x42\x45\x48\x4b\x4e\x51\x54\x57\x5a\x5d\x60\x63\x66\x69\x6c\x6f\x72\x75\x78\x7b\x7e\x81\x84\x87\x8a\x8d\x90\x93\x96\x99\x9c\x9f\xa2\xa5\xa8\xab\xae\xb1\xb4\xb7\xba\xbd\xc0\xc3\xc6\xc9\xcc\xcf\xd2\xd5\xd8\xdb\xde\xe1\xe4\xe7\xea\xed\xf0\xf3\xf6\xf9\xfc\xff\x02\x05\x08\x0b\x0e\x11\x14\x17\x1a\x1d\x20\x23\x26\x29\x2c\x2f\x32\x35\x38\x3b\x3e\x41\x44\x47\x4a\x4d\x50\x53\x56\x59\x5c\x5f\x62\x65\x68\x6b\x6e\x71\x74\x77\x7a\x7d\x80\x83\x86\x89\x8c", rnd: b"\x33\xbd\x3d\xb0\x6d\x07\xd7\x53\x4b\x48\x40\x86\x0d\xc5\x60\x65", k: b"", sig: b"\xc1\xe4\xc1\xb3\x79\x35\x99\x02\x05\xb6\x49\x7d\x54\x2d\x49\x20\xb5\x68\x67\x0c\x57\xc5\xa3\x7c\x26\xdc\xce\x65\xdb\x13\x3d\xb0\xe5\x00\x73\xf1\x60\x6a\xba\x48\xfb\x66\x65\x24\x3c\x19\x20\x6b\x18\xe4\xa6\x53\x11\x06\x4c\x84\xe6\x1a\x5f\x0e\xeb\x1d\x79\x2b" },
  EcSig { key: 2, h: 2, msg: b"\x02\x05\x08\x0b\x0e\x11\x14\x17\x1a\x1d\x20\x23\x26\x29\x2c\x2f\x32\x35\x38\x3b\x3e\x41", rnd: b"\x49\x7f\x88\xee\xa7\x35\x37\x19\xa9\x76\x61\xf0\xee\x43\x85\x73", k: b"", sig: b"\x38\x01\x63\x4e\xc0\xe1\xd3\xbb\xc7\x72\x13\xaa\xf5\x5d\x79\x50\x13\xdc\x95\x73\x75\xa9\x5e\x43\xa9\x31\x4a\x43\x30\x79\x51\xa8\xfe\x6e\xc7\x48\x07\x2c\x12\x27\xf0\x6e\x07\x5d\x80\x71\x09\x86\x72\x3c\x7e\x57\x03\x57\xa8\x9b\x5d\xe9\x69\x21\x3b\xba\x93\x33" },
  EcSig { key: 2, h: 2, msg: b"\x03\x06\x09\x0c\x0f\x12\x15\x18\x1b\x1e\x21\x24\x27\x2a\x2d\x30\x33\x36\x39\x3c\x3f\x42\x45\x48\x4b\x4e\x51\x54\x57\x5a\x5d\x60\x63\x66\x69\x6c\x6f\x72\x75\x78\x7b\x7e\x81\x84\x87\x8a\x8d\x90\x93\x96\x99\x9c\x9f\xa2\xa5\xa8\xab\xae\xb1\xb4\xb7\xba\xbd\xc0\xc3\xc6\xc9\xcc\xcf\xd2\xd5\xd8\xdb\xde\xe1\xe4\xe7\xea\xed\xf0\xf3\xf6\xf9\xfc\xff\x02\x05\x08\x0b\x0e\x11\x14\x17\x1a\x1d\x20\x23\x26\x29\x2c\x2f\x32\x35\x38\x3b\x3e\x41\x44\x47\x4a\x4d\x50\x53\x56\x59\x5c\x5f\x62\x65\x68\x6b\x6e\x71\x74\x77\x7a\x7d\x80\x83\x86\x89\x8c", rnd: b"\x6b\x4d\x6f\x6a\xd1\x84\x19\x2f\x07\xe6\x4c\x66\x4c\x90\x85\x1e", k: b"", sig: b"\xcd\xaa\xca\x0e\x71\x4c\x3c\xc5\xa2\xa0\x87\x00\x9e\x46\x62\x6d\x73\x22\x95\xdc\x25\xd0\xc6\x5c\x83\x6b\x30\xec\xdc\xda\xdc\x80\x5d\x40\xa1\x48\x67\xee\x7c\xba\xee\xbc\x1f\xc8\x11\xd3\x94\x46\x7f\xf0\x37\x62\x34\x2a\xe7\x74\xa4\x0d\x71\x83\x07\x5b\x09\xb5" },
  EcSig { key: 2, h: 0, msg: b"\x6d\x65\x73\x73\x61\x67\x65\x20\x74\x6f\x20\x62\x65\x20\x73\x69\x67\x6e\x65\x64", rnd: b"", k: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01", sig: b"\x6b\x17\xd1\xf2\xe1\x2c\x42\x47\xf8\xbc\xe6\xe5\x63\xa4\x40\xf2\x77\x03\x7d\x81\x2d\xeb\x33\xa0\xf4\xa1\x39\x45\xd8\x98\xc2\x96\xd3\x87\xc5\xf9\x45\x30\x33\xf2\x66\x3a\x4f\xed\xca\xa2\xea\xdd\x4b\x64\x94\x3d\x11\xcb\x07\x7f\x91\xda\x3d\xfd\x1e\xe2\xf1\x3c" },
  EcSig { key: 2, h: 0, msg: b"\x6d\x65\x73\x73\x61\x67\x65\x20\x74\x6f\x20\x62\x65\x20\x73\x69\x67\x6e\x65\x64", rnd: b"", k: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x02", sig: b"\x7c\xf2\x7b\x18\x8d\x03\x4f\x7e\x8a\x52\x38\x03\x04\xb5\x1a\xc3\xc0\x89\x69\xe2\x77\xf2\x1b\x35\xa6\x0b\x48\xfc\x47\x66\x99\x78\xf1\xfe\xcf\x34\x77\x83\x8b\x2f\xf4\x7b\xaf\xec\x60\xbe\xea\xb2\xbf\x29\x1a\xa9\xca\xd1\x37\xb0\x6c\x7f\xb0\xbf\x36\x15\x18\x0c" },
  EcSig { key: 2, h: 0, msg: b"\x6d\x65\x73\x73\x61\x67\x65\x20\x74\x6f\x20\x62\x65\x20\x73\x69\x67\x6e\x65\x64", rnd: b"", k: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x03", sig: b"\x5e\xcb\xe4\xd1\xa6\x33\x0a\x44\xc8\xf7\xef\x95\x1d\x4b\xf1\x65\xe6\xc6\xb7\x21\xef\xad\xa9\x85\xfb\x41\x66\x1b\xc6\xe7\xfd\x6c\x50\xa1\x43\xdc\xc3\x31\x10\x9c\xc9\x24\x0d\x88\x1c\x9b\x71\x3b\x16\xff\xa1\xac\xc9\x3f\x1e\x06\x53\x3c\xdc\x44\xd9\x0b\xd3\x6f" },
  EcSig { key: 2, h: 0, msg: b"\x6d\x65\x73\x73\x61\x67\x65\x20\x74\x6f\x20\x62\x65\x20\x73\x69\x67\x6e\x65\x64", rnd: b"", k: b"\xff\xff\xff\xff\x00\x00\x00\x00\xff\xff\xff\xff\xff\xff\xff\xff\xbc\xe6\xfa\xad\xa7\x17\x9e\x84\xf3\xb9\xca\xc2\xfc\x63\x25\x50", sig: b"\x6b\x17\xd1\xf2\xe1\x2c\x42\x47\xf8\xbc\xe6\xe5\x63\xa4\x40\xf2\x77\x03\x7d\x81\x2d\xeb\x33\xa0\xf4\xa1\x39\x45\xd8\x98\xc2\x96\x2c\x78\x3a\x05\xba\xcf\xcc\x0e\x99\xc5\xb0\x12\x35\x5d\x15\x22\x71\x82\x66\x70\x95\x4c\x97\x05\x61\xdf\x8c\xc5\xdd\x80\x34\x15" },
  EcSig { key: 2, h: 0, msg: b"\x6d\x65\x73\x73\x61\x67\x65\x20\x74\x6f\x20\x62\x65\x20\x73\x69\x67\x6e\x65\x64", rnd: b"", k: b"\xff\xff\xff\xff\x00\x00\x00\x00\xff\xff\xff\xff\xff\xff\xff\xff\xbc\xe6\xfa\xad\xa7\x17\x9e\x84\xf3\xb9\xca\xc2\xfc\x63\x25\x4f", sig: b"\x7c\xf2\x7b\x18\x8d\x03\x4f\x7e\x8a\x52\x38\x03\x04\xb5\x1a\xc3\xc0\x89\x69\xe2\x77\xf2\x1b\x35\xa6\x0b\x48\xfc\x47\x66\x99\x78\x0e\x01\x30\xca\x88\x7c\x74\xd1\x0b\x84\x50\x13\x9f\x41\x15\x4c\xfd\xbd\xe0\x03\xdc\x46\x66\xd4\x87\x3a\x1a\x03\xc6\x4e\x0d\x45" },
  EcSig { key: 2, h: 0, msg: b"\x6d\x65\x73\x73\x61\x67\x65\x20\x74\x6f\x20\x62\x65\x20\x73\x69\x67\x6e\x65\x64", rnd: b"", k: b"\x7f\xff\xff\xff\x80\x00\x00\x00\x7f\xff\xff\xff\xff\xff\xff\xff\xde\x73\x7d\x56\xd3\x8b\xcf\x42\x79\xdc\xe5\x61\x7e\x31\x92\xa8", sig: b"\x2a\xfa\x38\x6b\x3f\x2b\xdc\xdb\x83\xf4\xd8\x3f\x8f\xa3\x87\x4d\x7b\x74\xdc\xb4\x54\xbd\x64\x4f\xdd\x6b\xf3\xd1\xf2\xda\x8d\xb6\xc0\xee\xee\x76\x75\x7d\x35\x63\x74\x0b\x2f\x6b\xa3\x5e\x70\x2b\xae\x77\xe9\xbb\xb9\x59\x4f\xa7\xeb\x8d\x76\x68\x85\x50\x2f\xa4" },
  EcSig { key: 2, h: 0, msg: b"\x6d\x65\x73\x73\x61\x67\x65\x20\x74\x6f\x20\x62\x65\x20\x73\x69\x67\x6e\x65\x64", rnd: b"", k: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", sig: b"\x44\x7d\x73\x9b\xee\xdb\x5e\x67\xfb\x98\x2f\xd5\x88\xc6\x76\x6e\xfc\x35\xff\x7d\xc2\x97\xea\xc3\x57\xc8\x4f\xc9\xd7\x89\xbd\x85\xec\x33\xa7\xfd\xb9\xa0\xea\x3a\x83\x34\x82\x96\xa7\x82\x2d\xdb\xe6\x49\x45\xba\xd1\x8a\x56\x2f\x56\xfc\x57\x3b\x6f\x57\x90\x9d" },
  EcSig { key: 2, h: 0, msg: b"\x6d\x65\x73\x73\x61\x67\x65\x20\x74\x6f\x20\x62\x65\x20\x73\x69\x67\x6e\x65\x64", rnd: b"", k: b"\x72\x5a\x29\x0e\x61\x8a\x01\x61\xa9\x72\xad\x8c\xd2\x04\xf5\x85\x95\xbd\xd6\xe3\x88\x76\x27\x34\x09\xb6\xf8\x5f\x1b\xd8\x37\x24", sig: b"\x0f\x17\xf6\x83\x2f\x60\x95\xf6\xf4\x24\x6d\x8b\x46\x3d\xb9\xe3\x2f\xac\x4e\x07\x7a\xcf\xed\xa8\x76\x1b\xcc\x88\x0c\xbd\xfb\x8b\xbb\x40\x54\xb2\xb5\x5a\xbd\xa9\xee\x96\x56\x4a\x5d\xa8\xd6\x96\xc2\x5c\x66\xa6\xec\xa8\xac\xc5\x18\xf7\x9a\x7b\x83\x88\x6c\x93" },
  EcSig { key: 2, h: 0, msg: b"\x6d\x65\x73\x73\x61\x67\x65\x20\x74\x6f\x20\x62\x65\x20\x73\x69\x67\x6e\x65\x64", rnd: b"", k: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x55\x55", sig: b"\x56\x9e\xd9\x2c\x42\x8c\x0c\xdd\x05\xe6\x8e\xc5\x47\x0f\x67\x13\x55\xb1\x67\xc3\x59\x22\x1f\x02\xa0\x82\x1f\xff\xf8\xae\xe2\x6d\x64\xf9\x14\x44\x93\x7e\xe3\xbd\xb4\xbd\xc4\x7d\x7a\xa9\xdd\x43\x27\x98\x6e\x1b\x7e\x09\x84\x2c\xbd\x6c\x5d\x76\xfb\xf1\xa1\x7b" },
  EcSig { key: 3, h: 0, msg: b"\x03\x06\x09\x0c\x0f\x12\x15\x18\x1b\x1e\x21\x24\x27\x2a\x2d\x30\x33\x36\x39\x3c\x3f\x42\x45", rnd: b"\xae\x8a\x4d\xa5\x74\xf1\x0a\xee\x6e\x58\x10\xe9\x25\x3d\xde\x2e", k: b"", sig: b"\x9b\x09\xff\x25\x54\xc1\x98\xfa\x90\x91\x97\x04\x98\x72\x14\x9e\xb7\x04\x96\x3a\xaf\xe3\x46\x2d\x02\x53\x03\xd8\x18\xcc\xcd\x7f\x1c\x77\x93\x50\x8c\xbf\x4b\x7a\x4e\xba\xda\xae\x04\xfa\xef\x84\x48\xca\x0e\xf9\x9d\x4f\x12\x2b\xd0\xb1\xe6\x41\xd3\xd9\x99\x50" },
  EcSig { key: 3, h: 0, msg: b"\x04\x07\x0a\x0d\x10\x13\x16\x19\x1c\x1f\x22\x25\x28\x2b\x2e\x31\x34\x37\x3a\x3d\x40\x43\x46\x49\x4c\x4f\x52\x55\x58\x5b\x5e\x61\x64\x67\x6a\x6d\x70\x73\x76\x79\x7c\x7f\x82\x85\x88\x8b\x8e\x91\x94\x97\x9a\x9d\xa0\xa3\xa6\xa9\xac\xaf\xb2\xb5\xb8\xbb\xbe\xc1\xc4\xc7\xca\xcd\xd0\xd3\xd6\xd9\xdc\xdf\xe2\xe5\xe8\xeb\xee\xf1\xf4\xf7\xfa\xfd\x00\x03\x06\x09\x0c\x0f\x12\x15\x18\x1b\x1e\x21\x24\x27\x2a\x2d\x30\x33\x36\x39\x3c\x3f\x42\x45\x48\x4b\x4e\x51\x54\x57\x5a\x5d\x60\x63\x66\x69\x6c\x6f\x72\x75\x78\x7b\x7e\x81\x84\x87\x8a\x8d\x90", rnd: b"\x6b\xd4\x38\x0a\xed\x78\xd6\x47\x0e\x0a\xf6\xb4\xf3\xb9\x53\x83", k: b"", sig: b"\xa8\x22\x37\x5c\x44\xbd\xaf\xe8\x0c\x00\x27\xda\x9c\xf9\xcf\x24\xee\x78\xf3\x9e\x52\x4e\x23\x23\x5e\x43\xa0\xd7\x4c\xdc\x4d\x92\xd6\x94\x37\xa7\x3e\xb7\x29\xb9\x2b\x43\x36\xd4\x75\x77\x3b\xe6\x37\x5b\x16\xfa\xa2\xa8\x0f\xd5\x7b\x7a\x60\x0a\xdb\x88\x56\x04" },
  EcSig { key: 3, h: 1, msg: b"\x03\x06\x09\x0c\x0f\x12\x15\x18\x1b\x1e\x21\x24\x27\x2a\x2d\x30\x33\x36\x39\x3c\x3f\x42\x45", rnd: b"\xc1\x67\xfc\x50\xea\x09\x2c\xce\x7e\xd2\xe9\x8b\xfe\xfa\x0f\xbd", k: b"", sig: b"\x2f\x15\xa7\x69\xd4\xc9\xcb\xaf\xdf\xe9\x88\xf5\xd2\xb5\xc9\x5c\xda\xd4\xa6\xbd\x36\x01\x1b\x4f\x6d\xdc\x6b\x58\xcc\x8d\x87\xf5\x3b\x97\x7e\xdf\xe8\x42\x5e\xf9\x07\xcf\x5e\x1a\x2c\xfa\x97\x52\x04\x06\xdd\x66\xa7\xac\x9d\xbe\x67\xf4\x67\xfb\x53\x71\x18\xb3" },
  EcSig { key: 3, h: 1, msg: b"\x04\x07\x0a\x0d\x10\x13\x16\x19\x1c\x1f\x22\x25\x28\x2b\x2e\x31\x34\x37\x3a\x3d\x40\x43\x46\x49\x4c\x4f\x52\x55\x58\x5b\x5e\x61\x64\x67\x6a\x6d\x70\x73\x76\x79\x7c\x7f\x82\x85\x88\x8b\x8e\x91\x94\x97\x9a\x9d\xa0\xa3\xa6\xa9\xac\xaf\xb2\xb5\xb8\xbb\xbe\xc1\xc4\xc7\xca\xcd\xd0\xd3\xd6\xd9\xdc\xdf\xe2\xe5\xe8\xeb\xee\xf1\xf4\xf7\xfa\xfd\x00\x03\x06\x09\x0c\x0f\x12\x15\x18\x1b\x1e\x21\x24\x27\x2a\x2d\x30\x33\x36\x39\x3c\x3f\x42\x45\x48\x4b\x4e\x51\x54\x57\x5a\x5d\x60\x63\x66\x69\x6c\x6f\x72\x75\x78\x7b\x7e\x81\x84\x87\x8a\x8d\x90", rnd: b"\x94\xb9\x8b\xf2\x2b\x23\xbc\x59\xb3\xb6\x6d\x8b\xa7\xed\xcc\x1f", k: b"", sig: b"\x17\x0a\x03\xfb\xab\x88\xe2\xb5\x91\x87\x8f\x7f\xc8\x53\x1c\x82\x0d\x69\x12\x7a\xa6\x86\x75\x15\x67\xeb\x8d\xea\x4c\xf5\xfa\xbb\xba\x0b\x74\x74\xe2\x05\x75\x41\x69\x7f\xf4\x21\x3e\x87\xc4\xe8\xc7\x1a\xe0\x20\x4b\xa9\x43\x2c\xb9\x24\x61\xef\xc3\xf3\x35\x2f" },
  EcSig { key: 3, h: 2, msg: b"\x03\x06\x09\x0c\x0f\x12\x15\x18\x1b\x1e\x21\x24\x27\x2a\x2d\x30\x33\x36\x39\x3c\x3f\x42\x45", rnd: b"\x76\x0e\xc2\xb3\x72\x92\x43\x59\xb1\x14\xa8\x7b\xa8\x31\xa6\x95", k: b"", sig: b"\x90\x58\x66\xd0\xeb\x3a\x9f\xc2\x6e\x76\xc0\x83\xe8\x23\x77\x6b\x25\xae\xc8\x27\xe5\x04\xb1\x38\xa9\xa7\x29\x66\xd5\x33\xa5\xcd\x7c\x51\x3c\x6b\xbf\x71\x4b\x65\xc2\xcf\x7c\x4e\xc0\x65\x1a\x87\xf4\x65\x7d\x9d\xf0\x52\xf2\x7f\x33\x29\xdb\xd9\xca\xdd\xbb\x19" },
  EcSig { key: 3, h: 2, msg: b"\x04\x07\x0a\x0d\x10\x13\x16\x19\x1c\x1f\x22\x25\x28\x2b\x2e\x31\x34\x37\x3a\x3d\x40\x43\x46\x49\x4c\x4f\x52\x55\x58\x5b\x5e\x61\x64\x67\x6a\x6d\x70\x73\x76\x79\x7c\x7f\x82\x85\x88\x8b\x8e\x91\x94\x97\x9a\x9d\xa0\xa3\xa6\xa9\xac\xaf\xb2\xb5\xb8\xbb\xbe\xc1\xc4\xc7\xca\xcd\xd0\xd3\xd6\xd9\xdc\xdf\xe2\xe5\xe8\xeb\xee\xf1\xf4\xf7\xfa\xfd\x00\x03\x06\x09\x0c\x0f\x12\x15\x18\x1b\x1e\x21\x24\x27\x2a\x2d\x30\x33\x36\x39\x3c\x3f\x42\x45\x48\x4b\x4e\x51\x54\x57\x5a\x5d\x60\x63\x66\x69\x6c\x6f\x72\x75\x78\x7b\x7e\x81\x84\x87\x8a\x8d\x90", rnd: b"\x5b\x48\x5c\x20\x94\xf2\xf8\xbb\xdd\xa6\xb1\x74\x21\xfc\x01\x9f", k: b"", sig: b"\xe6\x8c\xd8\x60\x2b\x81\x02\x90\x6c\xf9\x3d\x01\xa9\x05\x99\xf6\x46\x03\xd5\xf4\x1d\x97\xeb\xb7\x8f\x75\x23\x87\x06\x72\x16\x8a\x1f\x47\x01\xa8\xd4\x39\x7e\xc5\x88\x8c\xce\x08\x25\xe5\x0a\x4e\x95\xf5\x6b\xfb\xf6\xc4\x0a\x13\x00\xa6\xd1\x90\x42\xc8\x56\xdd" },
  EcSig { key: 3, h: 0, msg: b"\x6d\x65\x73\x73\x61\x67\x65\x20\x74\x6f\x20\x62\x65\x20\x73\x69\x67\x6e\x65\x64", rnd: b"", k: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01", sig: b"\x6b\x17\xd1\xf2\xe1\x2c\x42\x47\xf8\xbc\xe6\xe5\x63\xa4\x40\xf2\x77\x03\x7d\x81\x2d\xeb\x33\xa0\xf4\xa1\x39\x45\xd8\x98\xc2\x96\x9d\x9e\xcd\xd9\x47\xc9\x8e\x2b\x9a\x11\x0f\xfa\x7f\xdc\xf7\x20\xec\x37\xd7\xb7\xf8\x71\xdb\x20\xa6\x88\xec\x35\x1a\xcc\x09\xa2" },
  EcSig { key: 3, h: 0, msg: b"\x6d\x65\x73\x73\x61\x67\x65\x20\x74\x6f\x20\x62\x65\x20\x73\x69\x67\x6e\x65\x64", rnd: b"", k: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x02", sig: b"\x7c\xf2\x7b\x18\x8d\x03\x4f\x7e\x8a\x52\x38\x03\x04\xb5\x1a\xc3\xc0\x89\x69\xe2\x77\xf2\x1b\x35\xa6\x0b\x48\xfc\x47\x66\x99\x78\x58\x65\x53\x69\x05\x76\x16\x21\xfd\x1a\xff\x6f\xd5\x02\x43\x7f\x5c\x71\x01\xd0\x5d\x3a\xbe\xd0\x47\xb0\x3d\x16\x3e\x37\xdf\x2f" },
  EcSig { key: 3, h: 0, msg: b"\x6d\x65\x73\x73\x61\x67\x65\x20\x74\x6f\x20\x62\x65\x20\x73\x69\x67\x6e\x65\x64", rnd: b"", k: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x03", sig: b"\x5e\xcb\xe4\xd1\xa6\x33\x0a\x44\xc8\xf7\xef\x95\x1d\x4b\xf1\x65\xe6\xc6\xb7\x21\xef\xad\xa9\x85\xfb\x41\x66\x1b\xc6\xe7\xfd\x6c\x8e\x72\xf7\xfb\x80\x18\x27\x9d\x5c\x75\xa3\xd3\x0c\x29\x7a\xfb\x73\x5c\xbb\x32\x96\x69\x0a\x77\x84\x5c\x65\xbe\x72\x1e\x35\x26" },
  EcSig { key: 3, h: 0, msg: b"\x6d\x65\x73\x73\x61\x67\x65\x20\x74\x6f\x20\x62\x65\x20\x73\x69\x67\x6e\x65\x64", rnd: b"", k: b"\xff\xff\xff\xff\x00\x00\x00\x00\xff\xff\xff\xff\xff\xff\xff\xff\xbc\xe6\xfa\xad\xa7\x17\x9e\x84\xf3\xb9\xca\xc2\xfc\x63\x25\x50", sig: b"\x6b\x17\xd1\xf2\xe1\x2c\x42\x47\xf8\xbc\xe6\xe5\x63\xa4\x40\xf2\x77\x03\x7d\x81\x2d\xeb\x33\xa0\xf4\xa1\x39\x45\xd8\x98\xc2\x96\x62\x61\x32\x25\xb8\x36\x71\xd5\x65\xee\xf0\x05\x80\x23\x08\xde\xd0\xaf\x22\xf5\xae\xa5\xc3\x64\x4d\x30\xde\x8d\xe1\x97\x1b\xaf" },
  EcSig { key: 3, h: 0, msg: b"\x6d\x65\x73\x73\x61\x67\x65\x20\x74\x6f\x20\x62\x65\x20\x73\x69\x67\x6e\x65\x64", rnd: b"", k: b"\xff\xff\xff\xff\x00\x00\x00\x00\xff\xff\xff\xff\xff\xff\xff\xff\xbc\xe6\xfa\xad\xa7\x17\x9e\x84\xf3\xb9\xca\xc2\xfc\x63\x25\x4f", sig: b"\x7c\xf2\x7b\x18\x8d\x03\x4f\x7e\x8a\x52\x38\x03\x04\xb5\x1a\xc3\xc0\x89\x69\xe2\x77\xf2\x1b\x35\xa6\x0b\x48\xfc\x47\x66\x99\x78\xa7\x9a\xac\x95\xfa\x89\xe9\xdf\x02\xe5\x00\x90\x2a\xfd\xbc\x80\x60\x75\xf8\xdd\x49\xdc\xdf\xb4\xac\x09\x8d\xac\xbe\x2b\x46\x22" },
  EcSig { key: 3, h: 0, msg: b"\x6d\x65\x73\x73\x61\x67\x65\x20\x74\x6f\x20\x62\x65\x20\x73\x69\x67\x6e\x65\x64", rnd: b"", k: b"\x7f\xff\xff\xff\x80\x00\x00\x00\x7f\xff\xff\xff\xff\xff\xff\xff\xde\x73\x7d\x56\xd3\x8b\xcf\x42\x79\xdc\xe5\x61\x7e\x31\x92\xa8", sig: b"\x2a\xfa\x38\x6b\x3f\x2b\xdc\xdb\x83\xf4\xd8\x3f\x8f\xa3\x87\x4d\x7b\x74\xdc\xb4\x54\xbd\x64\x4f\xdd\x6b\xf3\xd1\xf2\xda\x8d\xb6\x56\x67\x55\x5c\x04\xa0\x9e\x18\xa6\xbc\x45\x4b\xc8\x13\x5d\xf0\xe4\x4a\x98\xe1\x47\x3a\xcb\x4d\xef\xf1\xf2\x17\xac\xb8\xdd\x37" },
  EcSig { key: 3, h: 0, msg: b"\x6d\x65\x73\x73\x61\x67\x65\x20\x74\x6f\x20\x62\x65\x20\x73\x69\x67\x6e\x65\x64", rnd: b"", k: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", sig: b"\x44\x7d\x73\x9b\xee\xdb\x5e\x67\xfb\x98\x2f\xd5\x88\xc6\x76\x6e\xfc\x35\xff\x7d\xc2\x97\xea\xc3\x57\xc8\x4f\xc9\xd7\x89\xbd\x85\xa9\x5d\x48\x77\xe4\x84\xa7\x2b\x8e\x8f\xe3\x31\xb5\x1c\xbb\xee\xdd\x7d\x4e\xba\xf0\xde\x70\x68\xe0\xd1\x2b\xf0\xc2\x31\xb1\x84" },
  EcSig { key: 3, h: 0, msg: b"\x6d\x65\x73\x73\x61\x67\x65\x20\x74\x6f\x20\x62\x65\x20\x73\x69\x67\x6e\x65\x64", rnd: b"", k: b"\x1a\x21\x9d\x12\x70\xad\x9f\x07\x40\x40\xb4\xcc\x4b\x70\x13\x52\xe7\x6c\xeb\x3b\xa3\x42\x03\x8a\x59\xa7\x81\x0f\x3f\xea\xac\xc4", sig: b"\xcf\x1f\x9a\x0d\x45\xeb\xf1\x45\x3d\xef\x9a\xcc\xa3\x9c\xab\x2e\xc5\xd0\x82\xcc\xd5\x70\x2e\xa4\xab\x47\xff\x9a\xf6\x36\x10\x16\xec\x30\xf3\xd3\xc8\x97\xd8\xa9\x8b\xd6\xda\xcd\x8d\xde\x8f\x4a\x04\x33\x2a\xb5\x31\xe6\x92\x0a\x29\xe4\x9e\x30\xbe\xc0\x42\x40" },
  EcSig { key: 3, h: 0, msg: b"\x6d\x65\x73\x73\x61\x67\x65\x20\x74\x6f\x20\x62\x65\x20\x73\x69\x67\x6e\x65\x64", rnd: b"", k: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x55\x55", sig: b"\x56\x9e\xd9\x2c\x42\x8c\x0c\xdd\x05\xe6\x8e\xc5\x47\x0f\x67\x13\x55\xb1\x67\xc3\x59\x22\x1f\x02\xa0\x82\x1f\xff\xf8\xae\xe2\x6d\x45\x0b\x6c\x18\x8c\x3d\x18\x76\xbf\x73\x28\x42\x00\xf1\xb4\xc6\x3c\x31\xb2\xde\xb4\xd0\x48\x43\x3c\x0b\x7f\xda\x68\xa4\x81\x53" },
  EcSig { key: 4, h: 0, msg: b"\x04\x07\x0a\x0d\x10\x13\x16\x19\x1c\x1f\x22\x25\x28\x2b\x2e\x31\x34\x37\x3a\x3d\x40\x43\x46\x49", rnd: b"\x7b\x00\xf3\xe3\x5b\xec\x0a\xc3\xb9\x97\xa5\xcf\x52\x89\xa1\x61", k: b"", sig: b"\x19\xcd\x33\xdc\x51\x7b\x63\xd0\x06\x3a\xe5\x93\x97\x71\xe8\xfe\x47\xec\xcc\x7b\xa8\xd3\xdd\x3c\x52\x4f\x42\x56\x38\x98\x85\x17\x46\x06\x30\x06\x73\x8a\xde\x40\x3a\xbb\xbd\xdd\x82\x11\x19\xa2\x9d\xde\xa9\x38\x18\x95\xae\x88\xfc\xec\xa5\x72\xc8\x96\x45\xa9\x69\x85\x1c\xc5\x80\x3a\x38\xca\x29\xe0\x19\x84\x10\xd2\xa8\x12\x0e\xd7\xa3\xb3\xce\xda\xb9\x4e\x2f\xcf\xa3\x81\x6c\x62\x51\x48" },
  EcSig { key: 4, h: 0, msg: b"\x05\x08\x0b\x0e\x11\x14\x17\x1a\x1d\x20\x23\x26\x29\x2c\x2f\x32\x35\x38\x3b\x3e\x41\x44\x47\x4a\x4d\x50\x53\x56\x59\x5c\x5f\x62\x65\x68\x6b\x6e\x71\x74\x77\x7a\x7d\x80\x83\x86\x89\x8c\x8f\x92\x95\x98\x9b\x9e\xa1\xa4\xa7\xaa\xad\xb0\xb3\xb6\xb9\xbc\xbf\xc2\xc5\xc8\xcb\xce\xd1\xd4\xd7\xda\xdd\xe0\xe3\xe6\xe9\xec\xef\xf2\xf5\xf8\xfb\xfe\x01\x04\x07\x0a\x0d\x10\x13\x16\x19\x1c\x1f\x22\x25\x28\x2b\x2e\x31\x34\x37\x3a\x3d\x40\x43\x46\x49\x4c\x4f\x52\x55\x58\x5b\x5e\x61\x64\x67\x6a\x6d\x70\x73\x76\x79\x7c\x7f\x82\x85\x88\x8b\x8e\x91\x94", rnd: b"\x36\x96\x9b\x75\xc8\xf7\x81\x2f\x92\x43\xf6\x1e\xa7\xd2\x8e\xae", k: b"", sig: b"\x7b\x32\x2d\x6f\x7d\xe3\xa9\x57\xa7\x64\x7c\x9b\xcd\xf2\x45\xaf\xdf\x11\xb7\x07\xce\xed\x46\x04\x9d\xbd\x36\xbd\xb1\x16\xd2\xdc\x8a\x49\x0c\xe7\x35\x82\x6a\xb4\x1e\x17\xa6\xd3\xe4\x87\x1d\x20\x5e\xf5\x17\x0c\x49\x9c\xc0\x02\x05\xf3\x44\xe5\x4f\xc2\x02\x09\x9c\x16\x95\x44\xb9\xb7\x52\x3a\xd8\xed\x58\xa3\x14\x22\x3c\x09\x98\xf2\x4d\x7c\x01\xc5\x5b\xed\x19\x4e\x7a\x21\xa7\xc1\x34\xb3" },
  EcSig { key: 4, h: 1, msg: b"\x04\x07\x0a\x0d\x10\x13\x16\x19\x1c\x1f\x22\x25\x28\x2b\x2e\x31\x34\x37\x3a\x3d\x40\x43\x46\x49", rnd: b"\x11\x0d\xb4\xe9\x05\xfc\x0c\x1b\x57\x9e\x4c\x9b\x79\xc9\x64\xb5", k: b"", sig: b"\xbd\xff\x09\x68\x7b\x21\xd5\xd1\xee\xce\xcb\xf7\x82\x1b\x4c\xed\x53\xba\x1f\x98\xd6\x99\x97\x66\x2a\xc9\xec\x62\x71\x75\x6a\x95\x04\x5c\x70\xcb\xf4\xa3\x30\xcc\x6e\xf3\xbe\x12\x28\x08\x36\xe6\xdc\xfc\xde\xc6\x3c\xa3\x33\x98\xe7\x51\xe4\x9c\x09\xb5\x2b\x73\x75\x3e\x29\xf8\x33\xe9\x90\xc8\x22\x99\xb7\x94\xe3\x9f\x15\x2f\x68\xdc\xa3\x26\x1a\x4a\xb8\x02\xe6\x99\x31\x22\x5c\xe1\xd3\xbd" },
  EcSig { key: 4, h: 1, msg: b"\x05\x08\x0b\x0e\x11\x14\x17\x1a\x1d\x20\x23\x26\x29\x2c\x2f\x32\x35\x38\x3b\x3e\x41\x44\x47\x4a\x4d\x50\x53\x56\x59\x5c\x5f\x62\x65\x68\x6b\x6e\x71\x74\x77\x7a\x7d\x80\x83\x86\x89\x8c\x8f\x92\x95\x98\x9b\x9e\xa1\xa4\xa7\xaa\xad\xb0\xb3\xb6\xb9\xbc\xbf\xc2\xc5\xc8\xcb\xce\xd1\xd4\xd7\xda\xdd\xe0\xe3\xe6\xe9\xec\xef\xf2\xf5\xf8\xfb\xfe\x01\x04\x07\x0a\x0d\x10\x13\x16\x19\x1c\x1f\x22\x25\x28\x2b\x2e\x31\x34\x37\x3a\x3d\x40\x43\x46\x49\x4c\x4f\x52\x55\x58\x5b\x5e\x61\x64\x67\x6a\x6d\x70\x73\x76\x79\x7c\x7f\x82\x85\x88\x8b\x8e\x91\x94", rnd: b"\x6d\xa2\x20\x23\x20\xe5\x29\xb3\xc3\x96\x2b\xfd\x2f\x6c\x44\xfc", k: b"", sig: b"\x31\x0d\xff\x1a\xfc\x43\x7c\x70\x43\x02\x79\xd9\x34\xb2\x32\x73\x1d\xc7\x51\x45\x69\xfb\x77\xfb\x15\x91\x60\xf2\x9f\x49\xdc\xc6\x8e\xcf\xa8\xa9\xbc\xc8\xe6\x76\x9b\xff\x7f\x20\x5e\x45\x91\x2f\x7f\xe6\xdf\x4a\xc9\x07\xe6\x66\xca\x93\x35\x4e\x27\xdb\xf6\x32\xc6\xbd\x39\xec\xbc\xdf\x4e\xe2\x27\xc2\x1c\x03\xf0\x06\x0a\x9d\xa2\x25\xc5\x99\x74\x44\xed\x95\xa5\xe8\xf3\x65\x68\x76\x05\xc6" },
  EcSig { key: 4, h: 2, msg: b"\x04\x07\x0a\x0d\x10\x13\x16\x19\x1c\x1f\x22\x25\x28\x2b\x2e\x31\x34\x37\x3a\x3d\x40\x43\x46\x49", rnd: b"\xf6\x3b\xc9\xd9\xe1\x96\x42\x3a\x16\x80\xfa\xfd\x95\x13\xb2\x85", k: b"", sig: b"\xbb\xc9\xb7\x3b\x48\x1f\xc5\x2d\xd4\x33\x01\x8d\x3a\x5c\xe7\xa8\x76\x18\xec\x06\x78\x98\xc7\xcf\x7d\x07\xc8\x81\xf8\xfa\x57\x4e\x88\xab\x7f\x75\x93\x36\xc6\x4e\x6d\x0b\x60\x9f\x3d\x08\xaa\xad\x24\x27\x4e\xe8\xa0\xe2\x40\x8c\x91\x50\x4c\x5e\xe6\x0d\x6f\x1a\xff\xcd\x1f\xc3\x52\xf7\x25\x3c\xd4\xce\x15\xe1\x8d\x5a\x8d\x0c\xd9\x49\x32\x50\x57\xd4\xbe\x13\x12\xad\x2d\x33\xb8\x20\xcb\x52" },
  EcSig { key: 4, h: 2, msg: b"\x05\x08\x0b\x0e\x11\x14\x17\x1a\x1d\x20\x23\x26\x29\x2c\x2f\x32\x35\x38\x3b\x3e\x41\x44\x47\x4a\x4d\x50\x53\x56\x59\x5c\x5f\x62\x65\x68\x6b\x6e\x71\x74\x77\x7a\x7d\x80\x83\x86\x89\x8c\x8f\x92\x95\x98\x9b\x9e\xa1\xa4\xa7\xaa\xad\xb0\xb3\xb6\xb9\xbc\xbf\xc2\xc5\xc8\xcb\xce\xd1\xd4\xd7\xda\xdd\xe0\xe3\xe6\xe9\xec\xef\xf2\xf5\xf8\xfb\xfe\x01\x04\x07\x0a\x0d\x10\x13\x16\x19\x1c\x1f\x22\x25\x28\x2b\x2e\x31\x34\x37\x3a\x3d\x40\x43\x46\x49\x4c\x4f\x52\x55\x58\x5b\x5e\x61\x64\x67\x6a\x6d\x70\x73\x76\x79\x7c\x7f\x82\x85\x88\x8b\x8e\x91\x94", rnd: b"\x46\x5f\xe0\x7e\xb8\x32\x34\x00\x4d\x52\x9f\x68\xfe\x55\x85\xdb", k: b"", sig: b"\x5a\x65\xf1\x21\xf5\x4d\xeb\x21\x52\xf4\x81\xf3\xa9\x6d\xdf\x74\xc3\xd1\x66\xdb\xf5\x94\x35\x6a\xe7\x8b\x81\x35\x18\x6d\x96\x57\xe6\xe2\x80\xca\x68\xf5\xcc\x5c\xb6\xc1\x5a\xf1\x0e\xed\x02\x08\xd8\xd4\x88\xd4\x31\x55\x3e\xe0\x8b\x39\xe0\x85\x62\x2a\x80\xfe\x47\x57\xbe\xce\x43\x50\x7e\x4c\x93\xe3\x42\xce\xb6\x56\x85\x32\xb5\xf8\x9b\x5c\x45\x39\x05\x08\x05\x46\xb7\xc1\x57\x32\x75\x68" },
  EcSig { key: 4, h: 1, msg: b"\x6d\x65\x73\x73\x61\x67\x65\x20\x74\x6f\x20\x62\x65\x20\x73\x69\x67\x6e\x65\x64", rnd: b"", k: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01", sig: b"\xaa\x87\xca\x22\xbe\x8b\x05\x37\x8e\xb1\xc7\x1e\xf3\x20\xad\x74\x6e\x1d\x3b\x62\x8b\xa7\x9b\x98\x59\xf7\x41\xe0\x82\x54\x2a\x38\x55\x02\xf2\x5d\xbf\x55\x29\x6c\x3a\x54\x5e\x38\x72\x76\x0a\xb7\xb1\x4e\x85\xfd\x8d\xbe\x65\xa3\xac\xb8\x9b\xaf\x8e\x22\x87\x0d\x26\x35\x82\xff\x50\xc0\xc4\xab\xc3\xaf\x2f\x07\xcf\x62\x59\x37\x83\xb0\xd1\x71\x76\x0a\x29\xa0\x00\x81\x39\x7a\x37\x07\x9d\x41" },
  EcSig { key: 4, h: 1, msg: b"\x6d\x65\x73\x73\x61\x67\x65\x20\x74\x6f\x20\x62\x65\x20\x73\x69\x67\x6e\x65\x64", rnd: b"", k: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x02", sig: b"\x08\xd9\x99\x05\x7b\xa3\xd2\xd9\x69\x26\x00\x45\xc5\x5b\x97\xf0\x89\x02\x59\x59\xa6\xf4\x34\xd6\x51\xd2\x07\xd1\x9f\xb9\x6e\x9e\x4f\xe0\xe8\x6e\xbe\x0e\x64\xf8\x5b\x96\xa9\xc7\x52\x95\xdf\x61\x87\xd0\x2a\x70\x25\x6b\x99\xa2\xc3\x96\x6a\x6b\x30\x2e\xb8\xc4\xa0\x8d\x50\x7b\x36\x06\xae\xf4\xc1\x76\xa1\x3d\x70\x7f\x65\xbe\x6b\x54\x6a\x9a\x5e\xba\x06\x53\x87\x57\xcf\x39\xf1\xf6\x4d\xaf" },
  EcSig { key: 4, h: 1, msg: b"\x6d\x65\x73\x73\x61\x67\x65\x20\x74\x6f\x20\x62\x65\x20\x73\x69\x67\x6e\x65\x64", rnd: b"", k: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x03", sig: b"\x07\x7a\x41\xd4\x60\x6f\xfa\x14\x64\x79\x3c\x7e\x5f\xdc\x7d\x98\xcb\x9d\x39\x10\x20\x2d\xcd\x06\xbe\xa4\xf2\x40\xd3\x56\x6d\xa6\xb4\x08\xbb\xae\x50\x26\x58\x0d\x02\xd7\xe5\xc7\x05\x00\xc8\x31\x5a\x15\xa9\xe5\x0f\xe1\x1e\x2a\xd6\x2a\xb0\x5a\x53\x9f\x72\x65\xd6\x91\xd5\x8e\xf7\x17\xa7\x5d\xfa\x95\x64\x4e\x06\xde\x98\xd7\x13\x9a\xe2\xd1\x6f\xd9\x55\x3e\x91\xfa\xf3\x7b\xdc\xc7\xd6\xba" },
  EcSig { key: 4, h: 1, msg: b"\x6d\x65\x73\x73\x61\x67\x65\x20\x74\x6f\x20\x62\x65\x20\x73\x69\x67\x6e\x65\x64", rnd: b"", k: b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xc7\x63\x4d\x81\xf4\x37\x2d\xdf\x58\x1a\x0d\xb2\x48\xb0\xa7\x7a\xec\xec\x19\x6a\xcc\xc5\x29\x72", sig: b"\xaa\x87\xca\x22\xbe\x8b\x05\x37\x8e\xb1\xc7\x1e\xf3\x20\xad\x74\x6e\x1d\x3b\x62\x8b\xa7\x9b\x98\x59\xf7\x41\xe0\x82\x54\x2a\x38\x55\x02\xf2\x5d\xbf\x55\x29\x6c\x3a\x54\x5e\x38\x72\x76\x0a\xb7\x4e\xb1\x7a\x02\x72\x41\x9a\x5c\x53\x47\x64\x50\x71\xdd\x78\xf2\xd9\xca\x7d\x00\xaf\x3f\x3b\x54\x03\xb4\x1e\x7a\x24\xd4\xd4\xa7\xd4\x69\x3c\x40\xd2\xa6\x7d\xda\xec\x6a\xdf\xf0\x95\xbd\x8c\x32" },
  EcSig { key: 4, h: 1, msg: b"\x6d\x65\x73\x73\x61\x67\x65\x20\x74\x6f\x20\x62\x65\x20\x73\x69\x67\x6e\x65\x64", rnd: b"", k: b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xc7\x63\x4d\x81\xf4\x37\x2d\xdf\x58\x1a\x0d\xb2\x48\xb0\xa7\x7a\xec\xec\x19\x6a\xcc\xc5\x29\x71", sig: b"\x08\xd9\x99\x05\x7b\xa3\xd2\xd9\x69\x26\x00\x45\xc5\x5b\x97\xf0\x89\x02\x59\x59\xa6\xf4\x34\xd6\x51\xd2\x07\xd1\x9f\xb9\x6e\x9e\x4f\xe0\xe8\x6e\xbe\x0e\x64\xf8\x5b\x96\xa9\xc7\x52\x95\xdf\x61\x78\x2f\xd5\x8f\xda\x94\x66\x5d\x3c\x69\x95\x94\xcf\xd1\x47\x3b\x5f\x72\xaf\x84\xc9\xf9\x51\x0b\x05\xec\xac\x44\x83\xb7\xc8\x20\xec\xc5\xa3\x17\xe9\xf6\xa1\x27\x65\x94\x4a\x30\xda\xce\xdb\xc4" },
  EcSig { key: 4, h: 1, msg: b"\x6d\x65\x73\x73\x61\x67\x65\x20\x74\x6f\x20\x62\x65\x20\x73\x69\x67\x6e\x65\x64", rnd: b"", k: b"\x7f\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xe3\xb1\xa6\xc0\xfa\x1b\x96\xef\xac\x0d\x06\xd9\x24\x58\x53\xbd\x76\x76\x0c\xb5\x66\x62\x94\xb9", sig: b"\xd3\x6f\xed\x39\xca\x71\x06\x3a\x51\x63\xe8\x11\x9a\x37\xaf\xf1\x0f\x6b\x86\xd5\x0f\x02\xf1\xd3\x24\x23\x8d\x2b\x09\x0d\x80\x67\x08\x49\x55\x05\x66\x39\x6f\xf5\x77\x87\x38\xc0\xb3\x9b\x10\x7a\x4b\x92\xad\xd6\xcc\xb7\x32\xb3\x21\x2a\x86\xbb\x95\x8c\xec\xec\x70\xf8\x63\x1c\x57\xc7\xca\x32\x73\x0f\xa6\x5f\x3c\x36\xfc\xf2\x42\x45\xb3\x32\x57\x84\x6e\xa3\x5e\x70\x0a\xd0\xa9\x31\x0c\xde" },
  EcSig { key: 4, h: 1, msg: b"\x6d\x65\x73\x73\x61\x67\x65\x20\x74\x6f\x20\x62\x65\x20\x73\x69\x67\x6e\x65\x64", rnd: b"", k: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", sig: b"\xc1\x9e\x0b\x4c\x80\x01\x19\xc4\x40\xf7\xf9\xe7\x06\x42\x12\x79\xb4\x2a\x31\xaf\x8a\x3e\x29\x7d\xdb\x29\x87\x89\x4d\x10\xdd\xea\xba\x06\x54\x58\xa4\xf5\x2d\x78\xa6\x28\xb0\x9a\xaa\x03\xbd\x53\xbd\x67\xf2\x1e\x7b\x11\x3c\x06\x1f\xeb\x1a\xd5\x3a\xf1\x9e\xa0\xe0\x77\xd4\x7f\x03\x53\x72\x91\x9e\x82\x1a\xc9\x91\x7b\x4d\xe8\x01\x22\x08\x1d\x8c\x32\x22\xb2\xe3\x6f\x12\x78\x19\xee\xad\xe9" },
  EcSig { key: 4, h: 1, msg: b"\x6d\x65\x73\x73\x61\x67\x65\x20\x74\x6f\x20\x62\x65\x20\x73\x69\x67\x6e\x65\x64", rnd: b"", k: b"\x70\xcd\x66\xb8\xee\x70\xa3\x6f\x97\xb0\xe8\xdf\x93\x9f\xea\x53\x2c\x2c\x22\x8d\x1b\x16\xcd\xef\x3a\xd4\x4f\xf2\x73\x13\x98\xb2\x83\xe5\xcf\xc3\xbf\x74\x99\xc1\x0a\x01\x2b\x20\x4c\xeb\xc2\x3c", sig: b"\xe4\xdf\x4f\x85\x7b\x35\x81\x5e\x7a\xee\x25\xdf\x61\x4a\x10\xef\x03\x43\x6b\x0b\x14\x5d\xf4\xfe\xfc\xf4\x82\xc3\x6d\x29\x4d\xc9\x8c\x7c\xd2\x8c\x58\x55\x00\x48\xe0\xaf\x29\x8f\xcd\x0a\x4a\x5b\xba\x3b\x2c\x4f\xef\x0f\xae\x40\xb3\x2a\xa1\xf4\x3e\x22\x40\xfc\x2f\x06\xb4\x7b\x38\x5c\x83\x6d\xe4\xd8\x07\x9b\x59\x4b\x36\x99\x1a\xce\x5c\x8d\x84\x2f\xef\x98\x67\x68\x53\xe9\x40\xcc\x49\xed" },
  EcSig { key: 4, h: 1, msg: b"\x6d\x65\x73\x73\x61\x67\x65\x20\x74\x6f\x20\x62\x65\x20\x73\x69\x67\x6e\x65\x64", rnd: b"", k: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x55\x55", sig: b"\x5f\x86\x0d\x93\x89\x9f\xb1\x95\x1d\x33\xf0\x88\x9e\x6b\xb9\x6e\x40\xe7\xf6\x4e\x5c\x62\xac\xb3\x10\x05\x40\x46\x8d\x06\x7d\xa0\x26\x1d\x4f\x2f\xd3\xbe\x94\xf7\x67\x2e\x0e\xd6\xef\xb3\xfb\xdc\x51\x8b\x84\x71\xe0\xbc\xeb\x36\x21\x39\xd2\xea\x22\x35\xce\x7e\x87\x93\x72\x94\x2c\x55\x90\xc9\x00\x14\x54\x59\xc2\xf6\x6c\x76\xd7\x9a\x92\x5c\xe8\x42\x9b\xd5\x88\x91\x7b\xf2\xb8\x99\x99\xd0" },
  EcSig { key: 5, h: 0, msg: b"\x05\x08\x0b\x0e\x11\x14\x17\x1a\x1d\x20\x23\x26\x29\x2c\x2f\x32\x35\x38\x3b\x3e\x41\x44\x47\x4a\x4d", rnd: b"\x27\x9d\x77\xdc\x72\xe0\x94\x22\x37\xe4\x35\x27\x1c\x94\x79\xff", k: b"", sig: b"\x40\x20\x9a\xc3\xcd\x1b\xb0\xc1\x00\x5e\xcb\x40\xaf\xb2\x22\x11\x00\xeb\x19\xe0\xb6\xb1\xba\x72\x2a\x63\x28\xbe\x16\x91\x97\x47\xe9\xcc\x04\xcc\x22\xc4\xa7\x3f\xad\xad\xb1\x1e\xf3\x4d\x40\x7c\x82\xc3\x67\xde\x8b\x8b\xee\xc5\x3e\x01\x29\xcb\xc9\x0a\x31\x2d\xfa\x57\xa7\x33\x48\x41\x11\xf6\xb9\x2e\xf8\xb1\xdb\x95\xb5\x4b\xf9\x4f\x96\x63\x4f\x7e\x23\x0d\xc0\xfa\x19\x8c\xa4\xfa\xe7\x51" },
  EcSig { key: 5, h: 0, msg: b"\x06\x09\x0c\x0f\x12\x15\x18\x1b\x1e\x21\x24\x27\x2a\x2d\x30\x33\x36\x39\x3c\x3f\x42\x45\x48\x4b\x4e\x51\x54\x57\x5a\x5d\x60\x63\x66\x69\x6c\x6f\x72\x75\x78\x7b\x7e\x81\x84\x87\x8a\x8d\x90\x93\x96\x99\x9c\x9f\xa2\xa5\xa8\xab\xae\xb1\xb4\xb7\xba\xbd\xc0\xc3\xc6\xc9\xcc\xcf\xd2\xd5\xd8\xdb\xde\xe1\xe4\xe7\xea\xed\xf0\xf3\xf6\xf9\xfc\xff\x02\x05\x08\x0b\x0e\x11\x14\x17\x1a\x1d\x20\x23\x26\x29\x2c\x2f\x32\x35\x38\x3b\x3e\x41\x44\x47\x4a\x4d\x50\x53\x56\x59\x5c\x5f\x62\x65\x68\x6b\x6e\x71\x74\x77\x7a\x7d\x80\x83\x86\x89\x8c\x8f\x92\x95\x98", rnd: b"\x99\x4e\xb6\xc6\x7a\x9f\x5f\x55\x38\xe9\xc8\xa9\xdd\xdd\xcb\xd8", k: b"", sig: b"\x48\xaf\x3f\x22\xbd\xc4\x1c\x92\xf3\x94\xb1\x41\x57\x94\x23\xa2\x4c\x39\x5e\xb7\x3c\x7c\xc7\xef\x4c\x38\xd5\x4e\x83\x5a\xd5\x43\x19\x37\xd9\xef\x4e\x89\xac\x92\x59\xbc\x7c\x8c\xbc\x50\x8c\xa0\xfe\xe1\xe8\x7d\xd7\x61\xdd\xef\xa9\xfe\x81\x99\x15\x55\xa4\x1a\x60\x7a\x19\x23\xc2\xbf\x0f\x48\xeb\x74\xa7\xaf\xcb\x7b\x9a\x3c\x70\x31\xae\x5a\x00\xf3\x8c\x73\x28\x59\xe8\x1d\x88\x35\xa1\x8d" },
  EcSig { key: 5, h: 1, msg: b"\x05\x08\x0b\x0e\x11\x14\x17\x1a\x1d\x20\x23\x26\x29\x2c\x2f\x32\x35\x38\x3b\x3e\x41\x44\x47\x4a\x4d", rnd: b"\x8e\xc3\xaa\x17\x53\x24\xd8\xee\x11\x65\x83\x2a\xa2\x44\xc3\x94", k: b"", sig: b"\xb8\xc3\x4b\x6a\x63\x03\xd0\x9b\xf9\x2f\xa8\xa7\xfe\x25\x50\x62\x94\x6e\xe7\x45\x33\x96\xa9\x22\xcb\x3f\x5a\x55\x5d\x60\xba\x41\xf1\x79\x5c\x32\xb4\xa2\x04\x21\x35\x88\xf2\x82\xc8\x76\xa6\x59\x1e\x4b\xa9\x61\xde\x3b\x72\x60\x17\xb3\xd1\x06\xc2\x81\x41\x65\x28\x3d\xf5\x5b\x85\x4c\xee\x50\x74\x05\x73\x54\x11\xda\x67\xe2\xe5\x00\xa6\x05\x5b\x23\x98\x43\x4b\x55\x52\xeb\x53\x99\xca\x2b" },
  EcSig { key: 5, h: 1, msg: b"\x06\x09\x0c\x0f\x12\x15\x18\x1b\x1e\x21\x24\x27\x2a\x2d\x30\x33\x36\x39\x3c\x3f\x42\x45\x48\x4b\x4e\x51\x54\x57\x5a\x5d\x60\x63\x66\x69\x6c\x6f\x72\x75\x78\x7b\x7e\x81\x84\x87\x8a\x8d\x90\x93\x96\x99\x9c\x9f\xa2\xa5\xa8\xab\xae\xb1\xb4\xb7\xba\xbd\xc0\xc3\xc6\xc9\xcc\xcf\xd2\xd5\xd8\xdb\xde\xe1\xe4\xe7\xea\xed\xf0\xf3\xf6\xf9\xfc\xff\x02\x05\x08\x0b\x0e\x11\x14\x17\x1a\x1d\x20\x23\x26\x29\x2c\x2f\x32\x35\x38\x3b\x3e\x41\x44\x47\x4a\x4d\x50\x53\x56\x59\x5c\x5f\x62\x65\x68\x6b\x6e\x71\x74\x77\x7a\x7d\x80\x83\x86\x89\x8c\x8f\x92\x95\x98", rnd: b"\xd4\xd3\x99\x9a\x23\x48\xa6\x61\x1d\x0b\x66\x35\x0d\x51\x5f\xef", k: b"", sig: b"\xa2\x8a\x94\x25\xf4\x56\xe4\x46\xef\xdc\xd4\xbb\xa3\xa1\x0a\x78\x30\x42\x54\x09\x28\x9c\xe3\x5a\x4f\xca\xad\xcb\x10\x9a\x94\xa5\x14\x12\xd8\x14\xa8\xae\x79\xa4\x0b\x4d\xa6\xb5\xac\xb1\xf1\x01\xb0\x4a\xbd\xd3\xe9\x86\xcb\x83\xed\xf6\x0b\x15\x9e\xf3\x50\x93\x1a\x96\xdf\xa7\x6c\x4e\xaf\x66\x21\xa9\xa0\xe2\x6d\x98\x58\xc9\xc8\x67\x6c\x06\xb4\x34\x74\x97\xf5\x37\xe1\x89\x1f\x0a\xdf\x49" },
  EcSig { key: 5, h: 2, msg: b"\x05\x08\x0b\x0e\x11\x14\x17\x1a\x1d\x20\x23\x26\x29\x2c\x2f\x32\x35\x38\x3b\x3e\x41\x44\x47\x4a\x4d", rnd: b"\xdc\xf3\xa4\x6d\xef\xf6\xb0\xe2\x9d\x5c\x57\xdb\x49\xc7\x9e\x50", k: b"", sig: b"\x15\x63\x08\x9c\xb8\xf5\xe7\xc8\x79\x20\xea\x22\xc1\x63\x0b\x2e\xb5\x80\x77\xbf\xa0\x9b\xaf\x02\x0f\xd3\xa1\xb3\x13\x3c\xd6\xba\x97\x3b\xe9\x09\xdf\xb7\x5f\xdf\xac\xf3\x2a\xaa\xaf\x54\xff\xe7\x9e\x2e\x8f\x35\x02\xd3\xfd\xe5\x91\x93\x00\xf0\xae\xe1\x5f\xae\x3d\x2a\xdd\xdd\x00\x35\x53\x0b\x47\x44\xf8\xcf\xee\x77\xca\x63\x0d\x2f\xd9\x2b\xed\xf4\x18\xb1\xee\x36\x30\x6f\x3f\x7f\xac\xfd" },
  EcSig { key: 5, h: 2, msg: b"\x06\x09\x0c\x0f\x12\x15\x18\x1b\x1e\x21\x24\x27\x2a\x2d\x30\x33\x36\x39\x3c\x3f\x42\x45\x48\x4b\x4e\x51\x54\x57\x5a\x5d\x60\x63\x66\x69\x6c\x6f\x72\x75\x78\x7b\x7e\x81\x84\x87\x8a\x8d\x90\x93\x96\x99\x9c\x9f\xa2\xa5\xa8\xab\xae\xb1\xb4\xb7\xba\xbd\xc0\xc3\xc6\xc9\xcc\xcf\xd2\xd5\xd8\xdb\xde\xe1\xe4\xe7\xea\xed\xf0\xf3\xf6\xf9\xfc\xff\x02\x05\x08\x0b\x0e\x11\x14\x17\x1a\x1d\x20\x23\x26\x29\x2c\x2f\x32\x35\x38\x3b\x3e\x41\x44\x47\x4a\x4d\x50\x53\x56\x59\x5c\x5f\x62\x65\x68\x6b\x6e\x71\x74\x77\x7a\x7d\x80\x83\x86\x89\x8c\x8f\x92\x95\x98", rnd: b"\xc3\xf7\x9a\x47\xe7\x95\xdd\x17\x0c\x01\x28\x6d\xa0\x9c\x2e\xa6", k: b"", sig: b"\x6a\x9f\x9a\xe9\x38\x0c\x96\xf4\x66\x91\xba\x95\xd6\x77\xc0\xe9\x02\x59\x70\xb7\x47\x74\xd2\xfe\x8b\x2a\x84\xf4\x1d\xb4\x27\x7d\x21\x1a\x68\xc5\x60\x4b\xb5\xb9\xc0\x8a\x8e\x8f\x3e\xca\x21\x88\x1b\x34\xda\xc4\xb0\x9f\xeb\xd4\x83\xa4\xe2\xcf\x14\x6e\x2f\x68\xd0\x65\xa3\xbb\x8c\xb0\xca\x99\xca\xe3\xa2\x36\x90\xc9\x3f\xf1\x41\xe4\x4a\x42\x1b\x7c\xdb\xbe\xbe\x20\xe9\x82\x7e\xf6\x0c\x1e" },
  EcSig { key: 5, h: 1, msg: b"\x6d\x65\x73\x73\x61\x67\x65\x20\x74\x6f\x20\x62\x65\x20\x73\x69\x67\x6e\x65\x64", rnd: b"", k: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01", sig: b"\xaa\x87\xca\x22\xbe\x8b\x05\x37\x8e\xb1\xc7\x1e\xf3\x20\xad\x74\x6e\x1d\x3b\x62\x8b\xa7\x9b\x98\x59\xf7\x41\xe0\x82\x54\x2a\x38\x55\x02\xf2\x5d\xbf\x55\x29\x6c\x3a\x54\x5e\x38\x72\x76\x0a\xb7\x5c\x3e\xf1\xb8\x10\xa8\x5b\x34\x8f\x55\x0d\x71\xa7\xe1\x2c\x24\x49\xfb\x0c\x3a\x39\x71\x8d\x7a\xd7\x23\xf8\xc8\xbe\xf1\x32\xa6\x31\xc4\xfa\x68\x40\x10\x7e\x42\x78\xc4\x96\x74\x1e\xe0\xb1\x46" },
  EcSig { key: 5, h: 1, msg: b"\x6d\x65\x73\x73\x61\x67\x65\x20\x74\x6f\x20\x62\x65\x20\x73\x69\x67\x6e\x65\x64", rnd: b"", k: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x02", sig: b"\x08\xd9\x99\x05\x7b\xa3\xd2\xd9\x69\x26\x00\x45\xc5\x5b\x97\xf0\x89\x02\x59\x59\xa6\xf4\x34\xd6\x51\xd2\x07\xd1\x9f\xb9\x6e\x9e\x4f\xe0\xe8\x6e\xbe\x0e\x64\xf8\x5b\x96\xa9\xc7\x52\x95\xdf\x61\x7e\xf6\x91\x6a\xa9\xc7\xc6\xc9\x5a\x70\x6a\x25\x6a\xd3\x20\xd4\x17\x8a\xf7\x21\x8f\x12\x7a\x1e\x6f\xa4\x99\x6b\xd0\xc5\xf7\x20\x1b\x73\x82\x2b\xa0\xab\xa1\x5b\x2b\xc1\x25\x72\x9f\x60\x6e\x4e" },
  EcSig { key: 5, h: 1, msg: b"\x6d\x65\x73\x73\x61\x67\x65\x20\x74\x6f\x20\x62\x65\x20\x73\x69\x67\x6e\x65\x64", rnd: b"", k: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x03", sig: b"\x07\x7a\x41\xd4\x60\x6f\xfa\x14\x64\x79\x3c\x7e\x5f\xdc\x7d\x98\xcb\x9d\x39\x10\x20\x2d\xcd\x06\xbe\xa4\xf2\x40\xd3\x56\x6d\xa6\xb4\x08\xbb\xae\x50\x26\x58\x0d\x02\xd7\xe5\xc7\x05\x00\xc8\x31\x55\x19\x7e\x02\x24\xeb\xcc\xc7\xe8\x84\x88\x06\x13\xb7\x1e\xaa\xa4\x29\x04\xd9\x8c\x4e\x74\x04\x26\x27\x6d\x78\x24\xa4\xfa\x67\xf0\xea\x65\xb2\x8f\xbf\xc5\x35\xe5\x6b\x04\xf7\x2e\xc7\x51\x44" },
  EcSig { key: 5, h: 1, msg: b"\x6d\x65\x73\x73\x61\x67\x65\x20\x74\x6f\x20\x62\x65\x20\x73\x69\x67\x6e\x65\x64", rnd: b"", k: b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xc7\x63\x4d\x81\xf4\x37\x2d\xdf\x58\x1a\x0d\xb2\x48\xb0\xa7\x7a\xec\xec\x19\x6a\xcc\xc5\x29\x72", sig: b"\xaa\x87\xca\x22\xbe\x8b\x05\x37\x8e\xb1\xc7\x1e\xf3\x20\xad\x74\x6e\x1d\x3b\x62\x8b\xa7\x9b\x98\x59\xf7\x41\xe0\x82\x54\x2a\x38\x55\x02\xf2\x5d\xbf\x55\x29\x6c\x3a\x54\x5e\x38\x72\x76\x0a\xb7\xa3\xc1\x0e\x47\xef\x57\xa4\xcb\x70\xaa\xf2\x8e\x58\x1e\xd3\xdb\xb6\x04\xf3\xc5\xc6\x8e\x72\x84\xf0\x3f\x54\xb9\x35\x45\xfb\x39\x26\x55\x13\x4a\x08\xa0\x29\x38\x74\x27\x82\xf6\xad\xe4\x78\x2d" },
  EcSig { key: 5, h: 1, msg: b"\x6d\x65\x73\x73\x61\x67\x65\x20\x74\x6f\x20\x62\x65\x20\x73\x69\x67\x6e\x65\x64", rnd: b"", k: b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xc7\x63\x4d\x81\xf4\x37\x2d\xdf\x58\x1a\x0d\xb2\x48\xb0\xa7\x7a\xec\xec\x19\x6a\xcc\xc5\x29\x71", sig: b"\x08\xd9\x99\x05\x7b\xa3\xd2\xd9\x69\x26\x00\x45\xc5\x5b\x97\xf0\x89\x02\x59\x59\xa6\xf4\x34\xd6\x51\xd2\x07\xd1\x9f\xb9\x6e\x9e\x4f\xe0\xe8\x6e\xbe\x0e\x64\xf8\x5b\x96\xa9\xc7\x52\x95\xdf\x61\x81\x09\x6e\x95\x56\x38\x39\x36\xa5\x8f\x95\xda\x95\x2c\xdf\x2b\xe8\x75\x08\xde\x70\xed\x85\xe1\x57\xbe\xb4\x16\x23\x71\x36\xbf\x3c\xa6\x8b\x86\xa8\x05\x06\x1f\xc1\x2a\xf3\xf8\x2d\x64\xbb\x25" },
  EcSig { key: 5, h: 1, msg: b"\x6d\x65\x73\x73\x61\x67\x65\x20\x74\x6f\x20\x62\x65\x20\x73\x69\x67\x6e\x65\x64", rnd: b"", k: b"\x7f\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xe3\xb1\xa6\xc0\xfa\x1b\x96\xef\xac\x0d\x06\xd9\x24\x58\x53\xbd\x76\x76\x0c\xb5\x66\x62\x94\xb9", sig: b"\xd3\x6f\xed\x39\xca\x71\x06\x3a\x51\x63\xe8\x11\x9a\x37\xaf\xf1\x0f\x6b\x86\xd5\x0f\x02\xf1\xd3\x24\x23\x8d\x2b\x09\x0d\x80\x67\x08\x49\x55\x05\x66\x39\x6f\xf5\x77\x87\x38\xc0\xb3\x9b\x10\x7a\x99\x52\x62\xbd\xf6\x7b\x4b\x9c\x66\xba\x27\x01\xfe\x6b\xac\xb0\xae\xa6\x7e\x70\x93\xd3\x91\x7f\xad\x73\xf2\x85\x83\xc7\x74\xf0\x5b\x1c\xde\x31\x16\x58\x38\x08\x75\xc8\xa1\x93\x11\x4d\xd2\x6d" },
  EcSig { key: 5, h: 1, msg: b"\x6d\x65\x73\x73\x61\x67\x65\x20\x74\x6f\x20\x62\x65\x20\x73\x69\x67\x6e\x65\x64", rnd: b"", k: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", sig: b"\xc1\x9e\x0b\x4c\x80\x01\x19\xc4\x40\xf7\xf9\xe7\x06\x42\x12\x79\xb4\x2a\x31\xaf\x8a\x3e\x29\x7d\xdb\x29\x87\x89\x4d\x10\xdd\xea\xba\x06\x54\x58\xa4\xf5\x2d\x78\xa6\x28\xb0\x9a\xaa\x03\xbd\x53\xef\xcc\x05\xe5\xf3\x1e\x20\x0a\xc8\x62\x3c\x3f\x71\xcd\xae\xa0\x12\x97\x32\xbe\xfd\x2e\xbb\xd2\x10\x21\x47\xbe\x7c\x54\xde\x97\xee\xd6\xe7\x93\x83\xec\x9a\x3c\xda\x25\x7e\xd8\xc1\xb3\x01\xbb" },
  EcSig { key: 5, h: 1, msg: b"\x6d\x65\x73\x73\x61\x67\x65\x20\x74\x6f\x20\x62\x65\x20\x73\x69\x67\x6e\x65\x64", rnd: b"", k: b"\xa6\xfb\x25\xb1\x10\x47\xae\xd7\xda\x49\x21\xa4\x95\x39\x57\xe2\x0b\x57\x75\x9f\xa4\x29\x38\xcb\xed\x6e\x8c\x91\x17\xff\xff\xa7\x9b\xe6\x66\xfd\x66\x5e\x92\x66\x14\xfa\xdc\x59\x04\x22\xc3\x72", sig: b"\xe4\xb3\x76\xec\xde\xfa\xaf\x9f\xde\x1f\xf8\xbf\xd5\xcb\x9d\x15\x3a\xa8\x01\xe9\x13\x24\x8e\xe0\x93\x12\xf3\x32\xab\xcc\x6f\xae\xef\xfd\xad\x9f\x24\x71\x10\x35\x04\x9e\x7a\x4e\x1a\xa8\x8d\xdb\x5f\xed\x80\x58\x56\x7b\x75\x0f\xa0\x2d\xb2\x62\x7b\x60\xb7\x8b\xf0\x32\x5d\x58\x3c\x6e\x5d\x45\xf8\x14\x36\x41\x2a\x73\x95\x54\x46\x7f\x59\xda\x4a\x7f\xcd\xfe\x9a\xef\x94\x39\x8b\xe2\x1c\x4a" },
  EcSig { key: 5, h: 1, msg: b"\x6d\x65\x73\x73\x61\x67\x65\x20\x74\x6f\x20\x62\x65\x20\x73\x69\x67\x6e\x65\x64", rnd: b"", k: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x55\x55", sig: b"\x5f\x86\x0d\x93\x89\x9f\xb1\x95\x1d\x33\xf0\x88\x9e\x6b\xb9\x6e\x40\xe7\xf6\x4e\x5c\x62\xac\xb3\x10\x05\x40\x46\x8d\x06\x7d\xa0\x26\x1d\x4f\x2f\xd3\xbe\x94\xf7\x67\x2e\x0e\xd6\xef\xb3\xfb\xdc\xa6\x0a\x9b\xcc\xa6\xa2\x77\x5d\x83\xe2\x86\x5b\x32\x73\x28\x35\x88\xb4\xee\x45\xe2\x31\x1c\x54\x6c\xbd\x6f\x5c\x0e\xef\x95\x24\x74\xfb\x3c\xad\x1e\x24\x73\x38\x9c\xd7\x00\x73\xbe\x12\xe2\x05" },
  EcSig { key: 6, h: 0, msg: b"\x06\x09\x0c\x0f\x12\x15\x18\x1b\x1e\x21\x24\x27\x2a\x2d\x30\x33\x36\x39\x3c\x3f\x42\x45\x48\x4b\x4e\x51", rnd: b"\xc7\xc1\x90\xe0\x1c\xe4\xb4\xaa\x2b\x09\x09\xb7\x90\x69\x37\xc3", k: b"", sig: b"\x7a\x4e\x7f\x68\xf9\x6a\xdc\xa1\xfb\xc5\x8a\x56\x46\xce\x7f\xfa\xcc\x12\xed\x90\x33\x07\xac\x39\x16\x1e\x7a\xf0\xd5\xfa\xf2\xc5\xaf\x96\xf7\xb0\x2c\x78\xdd\x1d\x04\x2c\x8d\xb7\x01\x89\x38\xb4\x5a\x45\x32\x23\xef\xb4\x54\x88\x68\xbc\xba\x6a\xc0\xe0\xdc\xfe\x72\xa9\xd3\xf4\x83\xa4\x21\xd9\x08\xb3\x0f\x29\x9b\x31\x29\x75\x4f\x1a\x10\x9d\x35\xb5\x0f\x70\xb0\x65\x70\xf0\x11\x6b\xd0\xe3" },
  EcSig { key: 6, h: 0, msg: b"\x07\x0a\x0d\x10\x13\x16\x19\x1c\x1f\x22\x25\x28\x2b\x2e\x31\x34\x37\x3a\x3d\x40\x43\x46\x49\x4c\x4f\x52\x55\x58\x5b\x5e\x61\x64\x67\x6a\x6d\x70\x73\x76\x79\x7c\x7f\x82\x85\x88\x8b\x8e\x91\x94\x97\x9a\x9d\xa0\xa3\xa6\xa9\xac\xaf\xb2\xb5\xb8\xbb\xbe\xc1\xc4\xc7\xca\xcd\xd0\xd3\xd6\xd9\xdc\xdf\xe2\xe5\xe8\xeb\xee\xf1\xf4\xf7\xfa\xfd\x00\x03\x06\x09\x0c\x0f\x12\x15\x18\x1b\x1e\x21\x24\x27\x2a\x2d\x30\x33\x36\x39\x3c\x3f\x42\x45\x48\x4b\x4e\x51\x54\x57\x5a\x5d\x60\x63\x66\x69\x6c\x6f\x72\x75\x78\x7b\x7e\x81\x84\x87\x8a\x8d\x90\x93\x96\x99\x9c", rnd: b"\x54\xf3\x7b\xf5\x60\x9c\x09\xfd\x59\x50\x16\x03\xe6\xfc\x17\x79", k: b"", sig: b"\x08\x49\xf1\x0c\x8a\x1c\x43\x5b\x7d\x1a\x26\x9d\x8c\xfb\x72\x27\x30\x41\xde\x57\x9e\xf5\xaf\x2a\x27\x3c\x9e\x2f\xbb\xba\xf9\xc3\x19\x05\xd9\x01\xab\x85\x03\x8c\x33\xda\xf5\x10\x39\x78\xf4\xc0\x3f\x6c\x45\xc2\x97\x31\xbb\x56\x0e\x59\x6c\x89\x8d\xd9\x73\x9e\x69\x57\xee\x32\x11\x73\xcb\x6a\x66\x20\x04\x08\xbe\xc7\x65\x07\xce\x81\x61\x0c\x11\xd9\xbe\x69\x65\x36\x81\xb6\xab\x0f\x00\x4f" },
  EcSig { key: 6, h: 1, msg: b"\x06\x09\x0c\x0f\x12\x15\x18\x1b\x1e\x21\x24\x27\x2a\x2d\x30\x33\x36\x39\x3c\x3f\x42\x45\x48\x4b\x4e\x51", rnd: b"\x83\x52\x2e\xbf\x97\xa9\xb5\x6b\xef\x57\x6c\x24\x3f\x60\xc8\x5e", k: b"", sig: b"\x1a\xc1\xc6\x8e\xd3\xb3\x17\xf0\x96\x9c\x38\x47\x93\xa8\xed\x49\xec\xe2\xb0\x21\x7f\xf5\xc6\x60\xf3\x40\x38\x5e\x3f\x5e\xfe\x24\x64\x95\xa8\x01\xa1\xa0\x98\x29\xd8\x8a\x31\x85\xb1\x29\x67\xa3\xe4\x19\xd5\xc9\x5a\xe1\x92\x97\x94\x97\x75\x3c\x1e\x0b\x8b\xb2\x91\x52\x2d\x72\xf4\x61\xf4\xe2\x08\x8a\x3c\x52\x93\x0e\x07\x5e\x98\xf9\x00\x33\xa2\x15\x27\x8a\x6f\xca\xcc\x01\x6b\x40\x93\xe1" },
  EcSig { key: 6, h: 1, msg: b"\x07\x0a\x0d\x10\x13\x16\x19\x1c\x1f\x22\x25\x28\x2b\x2e\x31\x34\x37\x3a\x3d\x40\x43\x46\x49\x4c\x4f\x52\x55\x58\x5b\x5e\x61\x64\x67\x6a\x6d\x70\x73\x76\x79\x7c\x7f\x82\x85\x88\x8b\x8e\x91\x94\x97\x9a\x9d\xa0\xa3\xa6\xa9\xac\xaf\xb2\xb5\xb8\xbb\xbe\xc1\xc4\xc7\xca\xcd\xd0\xd3\xd6\xd9\xdc\xdf\xe2\xe5\xe8\xeb\xee\xf1\xf4\xf7\xfa\xfd\x00\x03\x06\x09\x0c\x0f\x12\x15\x18\x1b\x1e\x21\x24\x27\x2a\x2d\x30\x33\x36\x39\x3c\x3f\x42\x45\x48\x4b\x4e\x51\x54\x57\x5a\x5d\x60\x63\x66\x69\x6c\x6f\x72\x75\x78\x7b\x7e\x81\x84\x87\x8a\x8d\x90\x93\x96\x99\x9c", rnd: b"\x1b\xf9\x5d\x16\xce\x9f\x88\x81\xc7\xbd\x9e\x8f\xb0\x17\x6c\xbc", k: b"", sig: b"\x69\xe5\x91\x89\xcd\xf4\x21\x4f\x6f\xd9\xa1\xad\x0f\xd0\x2a\x90\x1f\x4f\x3f\x10\xd5\x59\x5d\xc1\x3f\x2e\x1b\xe7\xab\xcc\x19\xbf\x35\x39\x7d\x36\x0d\xcf\x04\xc9\xb6\x32\xec\x1c\x5d\xd7\x03\xd3\xa0\xec\x97\xf9\x82\x6c\xee\x18\xd0\x0a\x17\xe7\x96\x49\x24\xd8\x78\x1c\x65\x49\x59\x1b\x46\x04\x4d\xcc\xfd\x9a\x86\x63\x58\x02\xb8\x7a\x5e\x68\xca\x5e\x9c\x98\x22\xa8\x22\xbc\xf7\x00\x19\xb2" },
  EcSig { key: 6, h: 2, msg: b"\x06\x09\x0c\x0f\x12\x15\x18\x1b\x1e\x21\x24\x27\x2a\x2d\x30\x33\x36\x39\x3c\x3f\x42\x45\x48\x4b\x4e\x51", rnd: b"\x34\x88\x8d\x50\xc6\x86\x94\x37\x54\x17\x9d\x21\x34\xd9\x40\xdb", k: b"", sig: b"\x2e\x46\x15\x44\x21\x1e\x8a\xa2\x15\x8e\x70\x23\xb0\x78\xe1\x15\x85\xe5\xc4\x17\xa2\x52\x7a\xd1\x55\xd3\x2b\xd2\x85\xef\x46\x78\x2c\x61\x22\x79\x91\x0d\x4b\x40\xbe\x23\x44\x0f\xe0\x7d\x33\x43\x45\xf6\x2f\xba\xe6\xf7\x0d\x1f\x34\x5b\x74\x94\x54\x58\x3c\xf8\x02\xe1\x90\x84\x35\xe0\x87\xc9\x03\x22\x16\x33\x23\x34\xd2\xdc\x37\x90\x3a\xd4\xbf\xff\x93\x8e\xb9\xdf\x8e\x8e\x54\x5f\x5b\xad" },
  EcSig { key: 6, h: 2, msg: b"\x07\x0a\x0d\x10\x13\x16\x19\x1c\x1f\x22\x25\x28\x2b\x2e\x31\x34\x37\x3a\x3d\x40\x43\x46\x49\x4c\x4f\x52\x55\x58\x5b\x5e\x61\x64\x67\x6a\x6d\x70\x73\x76\x79\x7c\x7f\x82\x85\x88\x8b\x8e\x91\x94\x97\x9a\x9d\xa0\xa3\xa6\xa9\xac\xaf\xb2\xb5\xb8\xbb\xbe\xc1\xc4\xc7\xca\xcd\xd0\xd3\xd6\xd9\xdc\xdf\xe2\xe5\xe8\xeb\xee\xf1\xf4\xf7\xfa\xfd\x00\x03\x06\x09\x0c\x0f\x12\x15\x18\x1b\x1e\x21\x24\x27\x2a\x2d\x30\x33\x36\x39\x3c\x3f\x42\x45\x48\x4b\x4e\x51\x54\x57\x5a\x5d\x60\x63\x66\x69\x6c\x6f\x72\x75\x78\x7b\x7e\x81\x84\x87\x8a\x8d\x90\x93\x96\x99\x9c", rnd: b"\xfc\xa3\x83\x47\xe0\x35\x00\x73\xcc\xa2\xdd\xe3\x78\x22\x60\xab", k: b"", sig: b"\x76\xcc\xfc\x03\xce\x70\x52\x96\x00\xaa\xdb\xa9\xfb\xb9\x7d\xb8\xee\x69\x8e\xb9\xcd\x52\x12\xd8\x70\x52\x91\x88\xde\xce\xd5\x70\x76\x1b\xa2\xb8\x66\xaa\x18\x66\xb0\x20\xe4\xd5\x82\x35\xe1\xac\x4d\xaa\x0e\x2a\x1a\xb7\x13\x7c\x2a\x3e\x15\x5c\xac\x08\xd0\x15\xbc\x7d\x40\xfe\xf0\x2c\x49\x5d\x8f\xf1\x8b\x9c\x30\x12\xc8\xa5\x8c\xe1\xd1\x55\x54\xa7\x24\xcb\x5b\x6e\x22\x7e\x72\xf2\x5f\x86" },
  EcSig { key: 6, h: 1, msg: b"\x6d\x65\x73\x73\x61\x67\x65\x20\x74\x6f\x20\x62\x65\x20\x73\x69\x67\x6e\x65\x64", rnd: b"", k: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01", sig: b"\xaa\x87\xca\x22\xbe\x8b\x05\x37\x8e\xb1\xc7\x1e\xf3\x20\xad\x74\x6e\x1d\x3b\x62\x8b\xa7\x9b\x98\x59\xf7\x41\xe0\x82\x54\x2a\x38\x55\x02\xf2\x5d\xbf\x55\x29\x6c\x3a\x54\x5e\x38\x72\x76\x0a\xb7\x2a\xf5\xeb\xd7\xd2\x97\x5e\xf2\x92\x43\xdb\x9e\x2f\xa1\xea\xdb\x29\x3c\x09\xfa\xf4\x47\x63\x4a\x5c\x4c\x82\x97\xd2\x8f\xd7\x03\xb5\x2a\x4a\xc0\x05\xb1\x33\xef\xb6\xbb\x7c\x5a\x7e\x1d\xe6\xc4" },
  EcSig { key: 6, h: 1, msg: b"\x6d\x65\x73\x73\x61\x67\x65\x20\x74\x6f\x20\x62\x65\x20\x73\x69\x67\x6e\x65\x64", rnd: b"", k: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x02", sig: b"\x08\xd9\x99\x05\x7b\xa3\xd2\xd9\x69\x26\x00\x45\xc5\x5b\x97\xf0\x89\x02\x59\x59\xa6\xf4\x34\xd6\x51\xd2\x07\xd1\x9f\xb9\x6e\x9e\x4f\xe0\xe8\x6e\xbe\x0e\x64\xf8\x5b\x96\xa9\xc7\x52\x95\xdf\x61\x8a\x1b\xe0\x35\x0d\x86\x36\xac\x76\xeb\x50\x2d\xe0\xf0\xa7\xc3\xa2\xbd\x72\x57\x89\x43\x14\x5b\xd9\xf5\xec\xa3\x4f\x9a\x6c\x87\x76\x5b\x0c\xa9\x86\xd4\x5a\xcd\xcc\x16\xd4\xfe\x1e\xd4\xbc\x21" },
  EcSig { key: 6, h: 1, msg: b"\x6d\x65\x73\x73\x61\x67\x65\x20\x74\x6f\x20\x62\x65\x20\x73\x69\x67\x6e\x65\x64", rnd: b"", k: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x03", sig: b"\x07\x7a\x41\xd4\x60\x6f\xfa\x14\x64\x79\x3c\x7e\x5f\xdc\x7d\x98\xcb\x9d\x39\x10\x20\x2d\xcd\x06\xbe\xa4\xf2\x40\xd3\x56\x6d\xa6\xb4\x08\xbb\xae\x50\x26\x58\x0d\x02\xd7\xe5\xc7\x05\x00\xc8\x31\xb1\x83\x38\xf1\x6e\x6d\xaa\x12\x90\x86\xfa\x1f\x82\x31\x6f\x01\xcb\x74\x2b\x39\xaf\x16\x90\xa2\xf4\x07\xc3\x9e\x84\x30\xcd\x73\xe6\x08\x67\x01\x90\x88\x1f\x5e\xbc\xe5\xf8\x9d\xe2\x97\x3d\x47" },
  EcSig { key: 6, h: 1, msg: b"\x6d\x65\x73\x73\x61\x67\x65\x20\x74\x6f\x20\x62\x65\x20\x73\x69\x67\x6e\x65\x64", rnd: b"", k: b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xc7\x63\x4d\x81\xf4\x37\x2d\xdf\x58\x1a\x0d\xb2\x48\xb0\xa7\x7a\xec\xec\x19\x6a\xcc\xc5\x29\x72", sig: b"\xaa\x87\xca\x22\xbe\x8b\x05\x37\x8e\xb1\xc7\x1e\xf3\x20\xad\x74\x6e\x1d\x3b\x62\x8b\xa7\x9b\x98\x59\xf7\x41\xe0\x82\x54\x2a\x38\x55\x02\xf2\x5d\xbf\x55\x29\x6c\x3a\x54\x5e\x38\x72\x76\x0a\xb7\xd5\x0a\x14\x28\x2d\x68\xa1\x0d\x6d\xbc\x24\x61\xd0\x5e\x15\x24\xd6\xc3\xf6\x05\x0b\xb8\x9c\xb5\x6b\x16\xca\xea\x21\xa7\x56\xdb\xa2\xef\xc2\xf2\x42\xff\x73\x8b\x36\x30\x9d\x10\x4e\xa7\x42\xaf" },
  EcSig { key: 6, h: 1, msg: b"\x6d\x65\x73\x73\x61\x67\x65\x20\x74\x6f\x20\x62\x65\x20\x73\x69\x67\x6e\x65\x64", rnd: b"", k: b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xc7\x63\x4d\x81\xf4\x37\x2d\xdf\x58\x1a\x0d\xb2\x48\xb0\xa7\x7a\xec\xec\x19\x6a\xcc\xc5\x29\x71", sig: b"\x08\xd9\x99\x05\x7b\xa3\xd2\xd9\x69\x26\x00\x45\xc5\x5b\x97\xf0\x89\x02\x59\x59\xa6\xf4\x34\xd6\x51\xd2\x07\xd1\x9f\xb9\x6e\x9e\x4f\xe0\xe8\x6e\xbe\x0e\x64\xf8\x5b\x96\xa9\xc7\x52\x95\xdf\x61\x75\xe4\x1f\xca\xf2\x79\xc9\x53\x89\x14\xaf\xd2\x1f\x0f\x58\x3c\x5d\x42\x8d\xa8\x76\xbc\xeb\xa3\xed\x6d\x60\xde\xa4\x9c\xc1\x57\xe1\xbf\x01\x08\xc1\xdc\x4c\xad\x20\xd5\x44\x6c\xad\xf0\x6d\x52" },
  EcSig { key: 6, h: 1, msg: b"\x6d\x65\x73\x73\x61\x67\x65\x20\x74\x6f\x20\x62\x65\x20\x73\x69\x67\x6e\x65\x64", rnd: b"", k: b"\x7f\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xe3\xb1\xa6\xc0\xfa\x1b\x96\xef\xac\x0d\x06\xd9\x24\x58\x53\xbd\x76\x76\x0c\xb5\x66\x62\x94\xb9", sig: b"\xd3\x6f\xed\x39\xca\x71\x06\x3a\x51\x63\xe8\x11\x9a\x37\xaf\xf1\x0f\x6b\x86\xd5\x0f\x02\xf1\xd3\x24\x23\x8d\x2b\x09\x0d\x80\x67\x08\x49\x55\x05\x66\x39\x6f\xf5\x77\x87\x38\xc0\xb3\x9b\x10\x7a\xd2\xaa\x8c\xb0\x55\xd9\xfc\xa3\x59\xfd\x25\x13\xc3\x25\x15\xa6\xc4\xd6\x12\x64\xb3\xa2\xbe\x10\x6e\x3a\xef\x9d\x9c\xd9\xb1\xee\x77\x04\xe1\x02\xef\xa9\xce\x4b\xb4\x47\x04\x28\x90\x25\xa9\xff" },
  EcSig { key: 6, h: 1, msg: b"\x6d\x65\x73\x73\x61\x67\x65\x20\x74\x6f\x20\x62\x65\x20\x73\x69\x67\x6e\x65\x64", rnd: b"", k: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", sig: b"\xc1\x9e\x0b\x4c\x80\x01\x19\xc4\x40\xf7\xf9\xe7\x06\x42\x12\x79\xb4\x2a\x31\xaf\x8a\x3e\x29\x7d\xdb\x29\x87\x89\x4d\x10\xdd\xea\xba\x06\x54\x58\xa4\xf5\x2d\x78\xa6\x28\xb0\x9a\xaa\x03\xbd\x53\x86\xad\xf5\xdf\xec\x20\xd9\x9f\x50\x51\x79\x98\x4d\x38\x59\x7f\xea\x48\x1d\xce\x5c\x63\xff\x5c\x2e\x6b\xd6\xb8\xf2\x46\x4b\xe1\xe0\x22\x30\x1f\xf6\xf2\x03\xf1\xec\x73\xcb\xc5\x2e\xbb\x99\xf1" },
  EcSig { key: 6, h: 1, msg: b"\x6d\x65\x73\x73\x61\x67\x65\x20\x74\x6f\x20\x62\x65\x20\x73\x69\x67\x6e\x65\x64", rnd: b"", k: b"\x50\x00\x66\xa8\xc7\x87\x9b\x7b\xe1\x0e\x7e\x11\xb7\xd0\x02\x7e\xe1\x85\x63\x1c\x9e\x25\x72\xf7\x53\x74\x67\x89\x27\x0b\x60\x00\xb4\x71\x2e\xe7\x28\x83\x5e\x96\x38\x8d\xe6\x9c\xba\x1c\xee\x14", sig: b"\x3f\x2e\xd0\x4b\x09\xfc\x18\x09\x02\xa3\xbb\x90\x14\xfe\x06\x5b\x74\x4b\x35\x70\x20\x32\xd4\xf0\x49\x64\x77\xfa\x64\x51\x15\xfe\x46\xbb\xde\xfd\x21\xd9\xff\xbf\x59\x17\xf4\xbd\xe5\xec\x68\xdd\x02\xbc\x11\x08\x4e\xfa\x32\xea\xbc\x9f\x04\x03\x73\xfa\xb8\x77\x9b\xfd\x10\x3d\xeb\xa6\xfb\xc6\xf0\x0b\x41\x11\xda\xcc\xe9\xe5\x0e\x35\x53\xfc\x4e\x97\xfa\x23\xd3\xeb\x9c\xc5\x27\xb7\x44\x22" },
  EcSig { key: 6, h: 1, msg: b"\x6d\x65\x73\x73\x61\x67\x65\x20\x74\x6f\x20\x62\x65\x20\x73\x69\x67\x6e\x65\x64", rnd: b"", k: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x55\x55", sig: b"\x5f\x86\x0d\x93\x89\x9f\xb1\x95\x1d\x33\xf0\x88\x9e\x6b\xb9\x6e\x40\xe7\xf6\x4e\x5c\x62\xac\xb3\x10\x05\x40\x46\x8d\x06\x7d\xa0\x26\x1d\x4f\x2f\xd3\xbe\x94\xf7\x67\x2e\x0e\xd6\xef\xb3\xfb\xdc\x77\x52\x53\xf8\x49\xce\x38\x23\x61\xf5\x64\x08\x47\xb2\x5f\x50\xd5\xb3\xc8\xa6\x9d\x3f\xfa\xb8\x45\x06\x32\x88\x68\xe9\x4d\xd3\x5c\x9c\x29\x36\x28\x87\x83\x2c\x4f\x6b\x98\xad\x17\xd5\x44\x76" },
  EcSig { key: 7, h: 0, msg: b"\x07\x0a\x0d\x10\x13\x16\x19\x1c\x1f\x22\x25\x28\x2b\x2e\x31\x34\x37\x3a\x3d\x40\x43\x46\x49\x4c\x4f\x52\x55", rnd: b"\x60\xbf\xbb\x46\x07\x7e\x41\xe1\x21\x04\x1d\xea\x4c\xe3\xe6\xdf", k: b"", sig: b"\x6e\x35\x2b\xa7\x7c\x92\xd6\x94\xfc\x55\x40\xf7\xe0\xa2\xef\x5e\x0d\x12\x7e\xf1\x9f\x69\x97\x1c\xae\xf2\xe5\x86\x06\xf3\xc1\xf3\xbe\x89\x9e\xab\xc3\xe2\x7c\xcf\xb5\xba\xe2\x2b\x56\xa2\x0c\x4e\xb4\x0c\x60\x2b\xa6\xfc\xb4\xbe\x8b\xbe\xc5\x48\xce\x37\x91\x26\x4b\x5d\x63\x07\x60\x48\x3e\x87\x11\x92\x6b\x96\x1d\x02\xb4\x37\x83\x1c\xae\xed\x70\xd4\x37\xf9\x29\x2c\x9d\xaa\x94\x6e\x59\xce" },
  EcSig { key: 7, h: 0, msg: b"\x08\x0b\x0e\x11\x14\x17\x1a\x1d\x20\x23\x26\x29\x2c\x2f\x32\x35\x38\x3b\x3e\x41\x44\x47\x4a\x4d\x50\x53\x56\x59\x5c\x5f\x62\x65\x68\x6b\x6e\x71\x74\x77\x7a\x7d\x80\x83\x86\x89\x8c\x8f\x92\x95\x98\x9b\x9e\xa1\xa4\xa7\xaa\xad\xb0\xb3\xb6\xb9\xbc\xbf\xc2\xc5\xc8\xcb\xce\xd1\xd4\xd7\xda\xdd\xe0\xe3\xe6\xe9\xec\xef\xf2\xf5\xf8\xfb\xfe\x01\x04\x07\x0a\x0d\x10\x13\x16\x19\x1c\x1f\x22\x25\x28\x2b\x2e\x31\x34\x37\x3a\x3d\x40\x43\x46\x49\x4c\x4f\x52\x55\x58\x5b\x5e\x61\x64\x67\x6a\x6d\x70\x73\x76\x79\x7c\x7f\x82\x85\x88\x8b\x8e\x91\x94\x97\x9a\x9d\xa0", rnd: b"\x3b\xc4\x1c\x14\x7f\x3f\xec\xc0\x04\x17\x31\xd3\x04\xf1\x86\x0d", k: b"", sig: b"\x16\xf7\xd1\xcf\xf2\x07\x7e\x56\x7c\x97\xed\xc6\x6e\x1b\x6a\xbf\xac\xba\x64\x88\x5e\x21\xb6\xf7\x23\x94\x1d\x55\xce\x92\xd3\x0e\xc3\x80\xac\xa1\x05\x27\x33\x50\x2e\x79\x92\xf1\x4c\x17\x6d\xc6\xb2\xbe\xb8\xe4\xc5\x59\xe3\xc1\x61\x6d\xcd\xb8\xfb\x9f\x62\xe4\x74\x35\x0d\xd0\x71\x94\x71\x7a\x99\x1d\x17\xa9\x96\xa9\x2b\x51\xda\x12\x14\xb9\x0a\xc7\x64\x26\xb6\x27\x4a\xc4\xa8\x92\x96\x46" },
  EcSig { key: 7, h: 1, msg: b"\x07\x0a\x0d\x10\x13\x16\x19\x1c\x1f\x22\x25\x28\x2b\x2e\x31\x34\x37\x3a\x3d\x40\x43\x46\x49\x4c\x4f\x52\x55", rnd: b"\xe2\x65\xde\x33\x7a\xbd\x2a\xcc\x1a\x12\x3f\xa4\x8e\xeb\x41\x9f", k: b"", sig: b"\xad\x78\x32\xd0\xc1\xb1\x1e\x17\xc6\x39\xb7\x35\xa8\x47\x70\x7a\xd7\xdc\x76\x92\x80\xd1\xf2\x00\xbb\x74\xfc\x89\xe3\xf5\x3f\xcb\x34\xc7\x98\x78\x38\x22\xf8\xa5\x0a\x0f\x6d\x1a\x60\xc9\xde\x98\x5b\xe6\x7f\x88\xe4\xdc\x95\xd3\x45\x1d\xa2\x18\x41\xc1\x87\xfc\x41\xad\x78\xf0\xc3\xae\xf8\x8c\xc3\xda\x86\x1f\x59\x96\x3a\x3c\x2d\x41\xa6\x06\x20\xb5\xfc\x62\x40\x1c\x1c\x5f\x39\x1f\x90\x33" },
  EcSig { key: 7, h: 1, msg: b"\x08\x0b\x0e\x11\x14\x17\x1a\x1d\x20\x23\x26\x29\x2c\x2f\x32\x35\x38\x3b\x3e\x41\x44\x47\x4a\x4d\x50\x53\x56\x59\x5c\x5f\x62\x65\x68\x6b\x6e\x71\x74\x77\x7a\x7d\x80\x83\x86\x89\x8c\x8f\x92\x95\x98\x9b\x9e\xa1\xa4\xa7\xaa\xad\xb0\xb3\xb6\xb9\xbc\xbf\xc2\xc5\xc8\xcb\xce\xd1\xd4\xd7\xda\xdd\xe0\xe3\xe6\xe9\xec\xef\xf2\xf5\xf8\xfb\xfe\x01\x04\x07\x0a\x0d\x10\x13\x16\x19\x1c\x1f\x22\x25\x28\x2b\x2e\x31\x34\x37\x3a\x3d\x40\x43\x46\x49\x4c\x4f\x52\x55\x58\x5b\x5e\x61\x64\x67\x6a\x6d\x70\x73\x76\x79\x7c\x7f\x82\x85\x88\x8b\x8e\x91\x94\x97\x9a\x9d\xa0", rnd: b"\x1c\x95\x73\xe7\x4f\xbb\x52\x62\x16\xcb\x44\x12\x59\x69\x5f\x00", k: b"", sig: b"\xf5\xba\x4e\x42\x04\x93\xf0\xea\x47\x11\x18\xd0\x84\x3a\xd1\x7d\x8f\x0a\x80\x5d\x02\x8a\x89\x7c\xcf\x4e\xc5\x67\x23\xe2\x61\x84\x8e\xa7\x47\xfd\xc8\x39\x6d\x1c\x98\xf9\x26\x5b\x1e\xc3\x77\xf3\x65\x84\xf7\x6d\xe1\xb5\x7a\xc4\xdf\x09\xfc\xb7\x66\x41\x88\x0a\x44\x76\x1b\x8e\xa9\x36\xb0\x55\x93\x95\x1a\x54\x93\xd4\x3b\xa6\x3b\x67\x6a\xb2\x40\xb3\x96\x72\x51\x95\x6d\x75\x22\x81\x26\x19" },
  EcSig { key: 7, h: 2, msg: b"\x07\x0a\x0d\x10\x13\x16\x19\x1c\x1f\x22\x25\x28\x2b\x2e\x31\x34\x37\x3a\x3d\x40\x43\x46\x49\x4c\x4f\x52\x55", rnd: b"\x16\x1f\x82\x4a\x58\x78\xbf\x33\x2f\x39\x70\x08\x18\xe0\xaa\x5b", k: b"", sig: b"\x31\x3c\x1a\xeb\x8a\x61\x96\x4e\x69\xca\x3c\x10\xe9\x0b\x8c\xb3\x3a\x20\xce\xc2\x9c\xc8\xc9\x47\x0c\x09\xd7\x29\xfa\xb4\xef\x63\x1a\x6b\x00\x22\x88\xca\x6d\x9c\x6e\xd7\xf0\x45\xcf\x7f\xde\x24\x6e\xc6\xdf\x85\xed\xcb\x38\xf6\x7c\x51\xa0\xf0\xd1\xdf\x37\x7b\x9f\x30\xaf\x51\xb5\x29\x8e\xfe\x43\x47\xe5\x16\xa3\x51\x84\x08\x72\xbc\x07\x34\xda\xc4\x69\x5e\x09\x50\x66\x9e\x58\x0c\x07\x03" },
  EcSig { key: 7, h: 2, msg: b"\x08\x0b\x0e\x11\x14\x17\x1a\x1d\x20\x23\x26\x29\x2c\x2f\x32\x35\x38\x3b\x3e\x41\x44\x47\x4a\x4d\x50\x53\x56\x59\x5c\x5f\x62\x65\x68\x6b\x6e\x71\x74\x77\x7a\x7d\x80\x83\x86\x89\x8c\x8f\x92\x95\x98\x9b\x9e\xa1\xa4\xa7\xaa\xad\xb0\xb3\xb6\xb9\xbc\xbf\xc2\xc5\xc8\xcb\xce\xd1\xd4\xd7\xda\xdd\xe0\xe3\xe6\xe9\xec\xef\xf2\xf5\xf8\xfb\xfe\x01\x04\x07\x0a\x0d\x10\x13\x16\x19\x1c\x1f\x22\x25\x28\x2b\x2e\x31\x34\x37\x3a\x3d\x40\x43\x46\x49\x4c\x4f\x52\x55\x58\x5b\x5e\x61\x64\x67\x6a\x6d\x70\x73\x76\x79\x7c\x7f\x82\x85\x88\x8b\x8e\x91\x94\x97\x9a\x9d\xa0", rnd: b"\xc3\x34\x92\xd0\xed\xc9\xee\x0c\x4c\x4e\xa8\xb4\xe5\x44\x43\xac", k: b"", sig: b"\x36\x96\xb0\x80\xbf\x5d\x9a\xbe\x35\x49\xa1\x19\xae\x11\xbb\xbe\x0a\x98\x5a\x91\xbb\x22\x26\x41\x36\x97\xbb\xba\xb2\x88\xe9\x23\xfc\x54\x06\x16\xaf\x24\x6c\x25\x60\x8e\x7e\xd1\x78\x75\xab\x13\x5d\xf6\x56\x91\x40\x30\xd8\xb2\xe7\xf0\xeb\xd2\x2e\x04\x88\xb6\x65\x62\xf9\x78\x2d\xb7\x83\xb3\xe8\x41\x8e\x2c\xa0\x8f\xe4\x85\x18\x04\x40\xeb\x97\xfa\x5d\x62\x88\xd2\xe5\xe7\x16\x3b\x4d\x5d" },
  EcSig { key: 7, h: 1, msg: b"\x6d\x65\x73\x73\x61\x67\x65\x20\x74\x6f\x20\x62\x65\x20\x73\x69\x67\x6e\x65\x64", rnd: b"", k: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01", sig: b"\xaa\x87\xca\x22\xbe\x8b\x05\x37\x8e\xb1\xc7\x1e\xf3\x20\xad\x74\x6e\x1d\x3b\x62\x8b\xa7\x9b\x98\x59\xf7\x41\xe0\x82\x54\x2a\x38\x55\x02\xf2\x5d\xbf\x55\x29\x6c\x3a\x54\x5e\x38\x72\x76\x0a\xb7\x07\x63\x17\x45\x57\xa9\xb3\xda\x8d\x2b\xfe\x47\xd0\xa0\xc7\x69\x5e\xa5\x89\x67\x7e\xe7\x4b\xd6\x4d\x80\xaf\x5e\x4b\xe5\x7d\x72\x8a\x7d\x33\x73\x6e\x82\x55\xc9\xd5\x2b\xd6\x73\x7c\xc3\x8c\x97" },
  EcSig { key: 7, h: 1, msg: b"\x6d\x65\x73\x73\x61\x67\x65\x20\x74\x6f\x20\x62\x65\x20\x73\x69\x67\x6e\x65\x64", rnd: b"", k: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x02", sig: b"\x08\xd9\x99\x05\x7b\xa3\xd2\xd9\x69\x26\x00\x45\xc5\x5b\x97\xf0\x89\x02\x59\x59\xa6\xf4\x34\xd6\x51\xd2\x07\xd1\x9f\xb9\x6e\x9e\x4f\xe0\xe8\x6e\xbe\x0e\x64\xf8\x5b\x96\xa9\xc7\x52\x95\xdf\x61\x50\xad\x90\xec\xe5\xb6\x18\x09\xfb\x48\xf4\xd5\xe1\xb0\xc6\xa0\x2c\xe7\x22\x81\x5a\xcb\x7e\x03\xae\xe5\xd0\x3b\x5e\xa8\x02\xc8\xd5\x51\xbc\xea\xb7\xd0\xe5\xe5\x00\x2e\x5f\x92\xf1\x6f\xc9\xe4" },
  EcSig { key: 7, h: 1, msg: b"\x6d\x65\x73\x73\x61\x67\x65\x20\x74\x6f\x20\x62\x65\x20\x73\x69\x67\x6e\x65\x64", rnd: b"", k: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x03", sig: b"\x07\x7a\x41\xd4\x60\x6f\xfa\x14\x64\x79\x3c\x7e\x5f\xdc\x7d\x98\xcb\x9d\x39\x10\x20\x2d\xcd\x06\xbe\xa4\xf2\x40\xd3\x56\x6d\xa6\xb4\x08\xbb\xae\x50\x26\x58\x0d\x02\xd7\xe5\xc7\x05\x00\xc8\x31\x27\x2f\xb4\x6a\x14\x8f\x11\x31\x31\xfd\x65\xdd\x99\x7a\xc2\x8e\xf4\x92\xfa\x2b\x49\xad\x9a\xcd\xa5\x57\xe7\x9e\xa6\xf6\xf3\x55\xe4\xa9\x95\xa8\xe9\x21\xa1\x06\x5b\x69\x31\x36\x00\x9c\x3e\x73" },
  EcSig { key: 7, h: 1, msg: b"\x6d\x65\x73\x73\x61\x67\x65\x20\x74\x6f\x20\x62\x65\x20\x73\x69\x67\x6e\x65\x64", rnd: b"", k: b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xc7\x63\x4d\x81\xf4\x37\x2d\xdf\x58\x1a\x0d\xb2\x48\xb0\xa7\x7a\xec\xec\x19\x6a\xcc\xc5\x29\x72", sig: b"\xaa\x87\xca\x22\xbe\x8b\x05\x37\x8e\xb1\xc7\x1e\xf3\x20\xad\x74\x6e\x1d\x3b\x62\x8b\xa7\x9b\x98\x59\xf7\x41\xe0\x82\x54\x2a\x38\x55\x02\xf2\x5d\xbf\x55\x29\x6c\x3a\x54\x5e\x38\x72\x76\x0a\xb7\xf8\x9c\xe8\xba\xa8\x56\x4c\x25\x72\xd4\x01\xb8\x2f\x5f\x38\x96\xa1\x5a\x76\x98\x81\x18\xb4\x29\x79\xe2\x9e\x23\xa8\x51\xb0\x6c\xcd\x9c\xda\x3e\xda\x2e\x51\xb1\x17\xc0\x42\xf7\x50\x01\x9c\xdc" },
  EcSig { key: 7, h: 1, msg: b"\x6d\x65\x73\x73\x61\x67\x65\x20\x74\x6f\x20\x62\x65\x20\x73\x69\x67\x6e\x65\x64", rnd: b"", k: b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xc7\x63\x4d\x81\xf4\x37\x2d\xdf\x58\x1a\x0d\xb2\x48\xb0\xa7\x7a\xec\xec\x19\x6a\xcc\xc5\x29\x71", sig: b"\x08\xd9\x99\x05\x7b\xa3\xd2\xd9\x69\x26\x00\x45\xc5\x5b\x97\xf0\x89\x02\x59\x59\xa6\xf4\x34\xd6\x51\xd2\x07\xd1\x9f\xb9\x6e\x9e\x4f\xe0\xe8\x6e\xbe\x0e\x64\xf8\x5b\x96\xa9\xc7\x52\x95\xdf\x61\xaf\x52\x6f\x13\x1a\x49\xe7\xf6\x04\xb7\x0b\x2a\x1e\x4f\x39\x5f\xd3\x18\xdd\x7e\xa5\x34\x81\xfc\x18\x7d\x7d\x46\x95\x8f\x2b\x16\x82\xc8\x50\xc7\x90\xdf\xc1\x95\xec\xbd\xb9\xd7\xdb\x55\x5f\x8f" },
  EcSig { key: 7, h: 1, msg: b"\x6d\x65\x73\x73\x61\x67\x65\x20\x74\x6f\x20\x62\x65\x20\x73\x69\x67\x6e\x65\x64", rnd: b"", k: b"\x7f\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xe3\xb1\xa6\xc0\xfa\x1b\x96\xef\xac\x0d\x06\xd9\x24\x58\x53\xbd\x76\x76\x0c\xb5\x66\x62\x94\xb9", sig: b"\xd3\x6f\xed\x39\xca\x71\x06\x3a\x51\x63\xe8\x11\x9a\x37\xaf\xf1\x0f\x6b\x86\xd5\x0f\x02\xf1\xd3\x24\x23\x8d\x2b\x09\x0d\x80\x67\x08\x49\x55\x05\x66\x39\x6f\xf5\x77\x87\x38\xc0\xb3\x9b\x10\x7a\x43\x38\x54\xfb\x31\x5f\x3b\xf2\xf3\x46\xce\xfa\x77\x1f\x41\x87\x4d\x62\xec\x5d\x16\x9e\x06\x9d\xf0\x0a\xdc\x0d\x4a\x2e\x92\x41\x1e\x02\xc6\xb6\x55\x11\x99\xa5\x03\x9d\xc8\x86\x03\x7e\x87\xbb" },
  EcSig { key: 7, h: 1, msg: b"\x6d\x65\x73\x73\x61\x67\x65\x20\x74\x6f\x20\x62\x65\x20\x73\x69\x67\x6e\x65\x64", rnd: b"", k: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", sig: b"\xc1\x9e\x0b\x4c\x80\x01\x19\xc4\x40\xf7\xf9\xe7\x06\x42\x12\x79\xb4\x2a\x31\xaf\x8a\x3e\x29\x7d\xdb\x29\x87\x89\x4d\x10\xdd\xea\xba\x06\x54\x58\xa4\xf5\x2d\x78\xa6\x28\xb0\x9a\xaa\x03\xbd\x53\x6f\x07\x31\xd2\xe7\xd8\x46\xac\x7b\xf0\xaa\x44\x3a\x65\x5e\x36\xad\xf5\x53\x83\x43\xb9\xce\x9b\x8b\x23\x00\x38\x45\x28\x25\x5b\xbf\xef\x60\xdb\x04\xfc\x53\xeb\x10\xb3\xfc\xa1\x1e\x62\x76\x1e" },
  EcSig { key: 7, h: 1, msg: b"\x6d\x65\x73\x73\x61\x67\x65\x20\x74\x6f\x20\x62\x65\x20\x73\x69\x67\x6e\x65\x64", rnd: b"", k: b"\x2d\xa1\xe1\x76\x65\x86\xc4\xba\x7d\x53\x29\x2d\x3a\xbf\x4c\xa4\x02\xd8\x62\xf8\x74\x7b\xf5\x9f\xc0\x80\xa7\x82\x02\x54\x30\x91\x2a\xe1\xf0\x15\x27\x55\xdf\xf4\x61\x0d\xcf\xf3\x54\xd7\xff\xd7", sig: b"\xea\x96\x57\x60\x0f\x57\xa4\xf3\x70\xe8\x03\x8f\xbc\x42\x18\x99\x04\x02\x4f\x96\x0e\x0e\xde\x47\x2a\x03\x62\x5d\xde\x32\x6c\xba\xb5\x81\x65\xc2\xf4\xb8\xdc\x62\xc4\x15\x5b\x90\x6f\xae\x30\xb2\x4d\x82\xea\x5a\xa6\xdf\x6d\xac\x0f\x18\x78\xf2\x91\x92\x0e\xf3\x88\x69\xec\x9b\xfe\xa7\x39\x7a\x17\xd3\x15\x02\x30\x9d\x0d\x8e\xb9\x62\x13\xa1\xe9\xd8\xa3\xf7\xf4\x39\x7f\x4b\xfa\x2c\x74\xf5" },
  EcSig { key: 7, h: 1, msg: b"\x6d\x65\x73\x73\x61\x67\x65\x20\x74\x6f\x20\x62\x65\x20\x73\x69\x67\x6e\x65\x64", rnd: b"", k: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x55\x55", sig: b"\x5f\x86\x0d\x93\x89\x9f\xb1\x95\x1d\x33\xf0\x88\x9e\x6b\xb9\x6e\x40\xe7\xf6\x4e\x5c\x62\xac\xb3\x10\x05\x40\x46\x8d\x06\x7d\xa0\x26\x1d\x4f\x2f\xd3\xbe\x94\xf7\x67\x2e\x0e\xd6\xef\xb3\xfb\xdc\x38\x07\x36\x2f\xde\x92\x67\x63\x49\x17\xac\x61\xeb\x44\x83\xa1\xe3\x5d\x37\x6a\x7c\x4f\xf7\x7e\xc9\xc3\xf0\x16\xee\x3b\xbd\x8f\x65\x80\x36\x36\xb9\xc9\x38\xed\xb4\xbb\x93\xf9\xa3\xcb\x1e\xa8" },
  EcSig { key: 2, h: 0, msg: b"\x6d\x65\x73\x73\x61\x67\x65\x20\x74\x6f\x20\x62\x65\x20\x73\x69\x67\x6e\x65\x64", rnd: b"", k: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01\x29", sig: b"\xa9\x22\x5f\xe9\xdd\x99\x49\x40\x2b\x8e\x8f\xf7\x94\x52\x05\x0c\x6c\x38\x99\x06\x1b\xf5\xdc\x0f\xaf\x7d\xb5\xdb\xf3\xca\xc1\x38\x00\x72\xa6\xca\xd5\x82\xc9\xbd\x43\x1b\xf6\x56\x3c\x92\x97\xa9\x3b\xf9\xcf\xdb\x31\x7e\xba\x96\x05\x82\x9f\xd5\xb7\xa2\x63\x45" },
  EcSig { key: 2, h: 0, msg: b"\x6d\x65\x73\x73\x61\x67\x65\x20\x74\x6f\x20\x62\x65\x20\x73\x69\x67\x6e\x65\x64", rnd: b"", k: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01\x7b", sig: b"\x00\x55\x43\x89\x4a\xf3\xd0\x0e\xd7\xd7\x40\xab\xdb\xd7\x5c\x96\xb0\x68\x77\xb7\x87\xdb\x5f\x70\xee\xa7\x8b\x90\xa8\xd7\xc0\x0a\x77\xa2\xfb\x1c\x6c\xf1\x6c\x38\x29\x78\xf5\xaf\x01\x1f\x85\x6b\x8c\x68\xab\x73\xd3\x60\xa2\x23\xfd\xa4\x6a\x8c\x5d\xba\x25\x83" },
  EcSig { key: 2, h: 0, msg: b"\x6d\x65\x73\x73\x61\x67\x65\x20\x74\x6f\x20\x62\x65\x20\x73\x69\x67\x6e\x65\x64", rnd: b"", k: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01\xd2", sig: b"\xd8\x75\xe4\x70\xc1\xb2\x4c\xbe\xa3\x00\xb3\x4b\x63\xff\xca\x8b\x82\x97\x74\xfb\x90\xf1\xca\x85\xdd\x85\x27\x9f\x13\xae\xe1\xbd\x00\xe0\x16\x6d\xb2\x9e\x23\xf7\x19\xbe\x5c\x24\xdf\x3a\xd4\xf1\x1c\xfb\xb7\x96\x19\x17\xa6\xe2\xe5\xfd\xce\x75\xaa\x15\x8f\xc9" },
  EcSig { key: 2, h: 0, msg: b"\x6d\x65\x73\x73\x61\x67\x65\x20\x74\x6f\x20\x62\x65\x20\x73\x69\x67\x6e\x65\x64", rnd: b"", k: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x03\x41", sig: b"\x00\xf9\x09\xeb\xbc\x53\x35\xe5\xe9\xdf\xea\x66\x72\xf7\x53\xe9\x0d\xb9\xe5\x6d\xd1\xf0\xc6\xca\xe4\x2c\x92\x87\x10\xb1\x41\xa2\x8c\xa8\x6e\xaf\x4f\x37\x2c\xb5\xf8\x99\xeb\xba\xf1\x6e\x0f\x99\x12\x05\x63\xdb\x9f\xd6\x8e\x48\x47\x94\xdb\xf1\xea\x2e\x46\x4b" },
  EcSig { key: 2, h: 0, msg: b"\x6d\x65\x73\x73\x61\x67\x65\x20\x74\x6f\x20\x62\x65\x20\x73\x69\x67\x6e\x65\x64", rnd: b"", k: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x9d\xc9", sig: b"\x00\x00\x3f\x5f\x17\x8a\xa0\x70\x6c\x42\x31\xeb\x6e\x54\x95\xaa\x16\x42\xc5\xb8\xa9\x94\x12\x7c\x89\x46\x5f\x22\x99\x4a\x42\xf9\xf8\x99\x2c\x38\x27\x26\x3c\x23\x13\xd1\x81\x53\xcd\x68\x69\x31\x1a\x58\xf0\x82\x7c\x76\x13\x33\xcf\xc5\x9b\x37\x4d\xda\xeb\x7b" },
  EcSig { key: 2, h: 0, msg: b"\x6d\x65\x73\x73\x61\x67\x65\x20\x74\x6f\x20\x62\x65\x20\x73\x69\x67\x6e\x65\x64", rnd: b"", k: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01\x27\x48", sig: b"\xdb\xe9\xcf\x87\xd5\x27\xa9\xf9\x07\x24\xa1\xfb\x18\xa8\xbf\xe7\x5d\x2f\x2a\x04\x8f\xfd\x8d\xad\x78\x23\x60\x88\x91\x83\x0b\xbb\x00\x00\xb2\x0c\x40\x64\x42\x7e\x69\x30\x0c\x88\xa8\xa8\xa0\x9c\x6f\x9d\xc3\x14\xac\xf9\xd7\x12\xb2\xf5\x01\x84\x58\xf0\xf4\x27" },
  EcSig { key: 6, h: 1, msg: b"\x6d\x65\x73\x73\x61\x67\x65\x20\x74\x6f\x20\x62\x65\x20\x73\x69\x67\x6e\x65\x64", rnd: b"", k: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x62", sig: b"\x3d\x41\x01\xe1\x92\x4d\x38\x93\x15\xd5\x41\x07\x03\x1d\x42\x2a\x97\x79\xbb\xf3\xfb\x4f\x38\xb9\x60\x61\x49\x5b\x90\x3e\x70\xf3\x60\xdc\x25\x3d\x8e\xda\xbe\xd8\xdb\x0e\x88\xd5\xd4\xf8\x5e\xbd\x00\x47\xdf\x80\xb8\xa3\x4d\xae\xf0\xc4\xc8\x41\x59\x65\x9b\x1e\xd3\xcd\x6e\x3b\x95\x67\x97\x2d\x5f\xcb\x38\x66\x76\xf4\x7b\xbc\xe3\x7a\x19\x22\xf7\x99\x29\xf6\x6d\x48\x7d\x26\xae\xa8\x13\x96" },
  EcSig { key: 6, h: 1, msg: b"\x6d\x65\x73\x73\x61\x67\x65\x20\x74\x6f\x20\x62\x65\x20\x73\x69\x67\x6e\x65\x64", rnd: b"", k: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xc5", sig: b"\x00\x4d\x10\x4b\x26\xee\x56\x71\xf7\x2c\x10\xc9\x86\x84\x1d\x3e\x65\xd2\x85\xe2\x51\x61\x61\xb7\xba\xa3\x41\xb1\x26\x31\xb9\xe3\x2b\x6f\x0d\x58\x96\xd8\x43\x1c\x51\xd5\xd9\x3a\x37\xcb\xc9\x0e\x14\x36\x52\xf7\x50\xbb\x87\x9b\x9b\x44\x7d\x92\xa2\x52\xb7\x45\xd1\xcf\x1a\x7b\x18\x23\x43\x92\x1e\x00\x02\xe7\x37\x5a\x36\x4a\x88\x3b\x60\xd9\xfd\x6f\xce\x0e\xff\x79\xd2\x2f\xcd\x5e\x11\x8c" },
  EcSig { key: 6, h: 1, msg: b"\x6d\x65\x73\x73\x61\x67\x65\x20\x74\x6f\x20\x62\x65\x20\x73\x69\x67\x6e\x65\x64", rnd: b"", k: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xea", sig: b"\x00\x8e\x9c\x2e\xb6\x36\xfe\xb1\x89\xf4\xca\x42\xbf\x05\x9e\x16\xb7\xd3\x07\xe4\x52\x51\x79\x03\x3b\xf6\x97\x52\xa4\xdc\xc5\xc1\xce\x93\xe8\xb6\x25\xcb\xee\xbf\x80\x47\x19\xb6\x1c\x15\xe7\x51\x99\x80\xfe\x0e\x22\xfb\x6b\xec\xe1\xf0\x36\x3f\xc9\xa8\x17\x77\xd6\x94\xaf\x20\x12\xaf\x98\xc0\xb3\x34\x78\x4f\x85\x22\xff\x60\xb2\x43\xcc\x67\x04\x37\x23\xf7\xb1\x8b\x15\x0d\xe0\xc3\xf6\x4c" },
  EcSig { key: 6, h: 1, msg: b"\x6d\x65\x73\x73\x61\x67\x65\x20\x74\x6f\x20\x62\x65\x20\x73\x69\x67\x6e\x65\x64", rnd: b"", k: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xee", sig: b"\x3c\x92\xad\x7f\xcc\x6c\x88\xf8\xae\x52\xfc\x06\xd7\x73\xf5\x75\xfb\x76\x5e\x8d\x75\x46\x75\x59\x15\x84\xce\xf5\xa5\xb9\x3d\xe2\x2a\x7e\x4d\x48\x42\xba\xf5\xd5\xdc\x2b\x2b\x80\x24\x6d\x58\xb9\x00\xd7\xee\x3c\xd4\x5d\xab\xfa\x16\x00\xa0\x4f\x9a\x75\x7d\x5c\xfb\x68\x9b\x4b\xaa\x90\x89\x95\x50\xca\x5a\x40\x0e\x61\x5e\x7f\x61\x3a\x97\xec\x36\xaa\x08\x11\x47\x68\xe8\x23\xe8\xc5\x69\x2f" },
  EcSig { key: 6, h: 1, msg: b"\x6d\x65\x73\x73\x61\x67\x65\x20\x74\x6f\x20\x62\x65\x20\x73\x69\x67\x6e\x65\x64", rnd: b"", k: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x3a\x7b", sig: b"\x00\x00\x70\xe4\xb8\xc7\x9b\xb1\xd5\x52\x5f\x91\xe2\x92\xbc\xe9\x60\x07\xd7\x1e\xa9\x40\xa1\x1a\xd0\xaf\xb2\x95\x3d\x37\xfe\xff\xb1\x5b\xd3\xbe\x20\x2d\x6a\x7d\xd3\xe0\x9f\x63\xf0\x0b\xae\xa8\x23\x40\x1c\x0b\x8e\xeb\x02\x85\xf5\x2c\x23\x23\x52\x30\x8d\x06\xc2\xd9\x67\xdc\x99\x88\xb5\x93\xb4\xa4\xba\xea\x6c\x0a\x17\x3e\x4e\x1c\x76\xb1\xcb\xcf\x90\x02\xad\x97\x68\xc2\x98\xe6\x8a\xff" },
  EcSig { key: 6, h: 1, msg: b"\x6d\x65\x73\x73\x61\x67\x65\x20\x74\x6f\x20\x62\x65\x20\x73\x69\x67\x6e\x65\x64", rnd: b"", k: b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x45\x61", sig: b"\x6a\x07\xba\xa9\x88\x28\xe6\x40\x19\x35\x42\xde\xcb\xad\x04\x2c\xf5\x8a\xdd\x5f\xe6\x07\x76\x8b\x45\xc8\xe4\xb0\x81\x62\x9d\x00\x82\x92\x20\xa4\x07\x4b\x2e\x8b\x11\x67\x9d\xc7\x92\x8c\xa2\xd2\x00\x00\x62\xf9\xb2\xa8\x42\x52\x05\x88\x23\x3c\x27\xd1\x23\xf1\x49\x41\x31\xe1\x25\xa4\x55\xc0\x86\x4a\x72\x64\xd0\xe6\xe7\xd0\xe5\xec\x79\x00\x2e\xa1\xd5\xe2\x79\x18\xdb\x4e\x5e\x31\x15\x92" },
];
