// written by tools/rsavec.py
pub struct RsaKey { pub n: &'static [u8], pub bits: usize, pub e: u32, pub priv_der: &'static [u8], pub pub_der: &'static [u8], pub p: &'static [u8], pub q: &'static [u8], pub d: &'static [u8], pub dp: &'static [u8], pub dq: &'static [u8], pub iq: &'static [u8] }
/// hash, salt (empty: PKCS#1 v1.5), signature over MSG
pub struct RsaSig { pub h: usize, pub salt: &'static [u8], pub sig: &'static [u8] }
pub static KEYS: &[RsaKey] = &[
RsaKey { n: b"\x81\x64\xbe\x1e\x58\xa3\x76\xf6\x14\x34\x8f\x51\x33\xd7\x81\x58\xfe\x05\x72\x59\xce\xac\xa1\xf1\xa3\x43\xbd\x22\x41\x82\x4b\x0b\xdb\x24\xb6\x58\x66\xe7\xe2\x3d\x84\x60\x43\xeb\x2f\xdb\x99\x5a\x47\x57\x0c\x7e\xc6\x69\xdf\x52\xf7\x71\x9a\x43\x41\xed\x47\xf7\x68\xba\x77\x96\x9d\xf3\x51\xd5\x7f\x2b\x34\x3d\xc4\x3a\x55\xf6\xce\xe5\x5a\x94\xf1\x02\x8c\xef\x72\x30\x2f\x20\x78\x1c\x60\x65\xee\xe7\x21\x4f\x01\x2d\x00\xe9\x15\x46\x51\x51\x4a\xf1\x8f\x3f\x14\xf1\x58\xe7\x27\xc6\x5b\x56\xe4\xd9\x13\x7a\xd0\xc3\xca\x28\x0e\x21\x91\x7d\xd9\x89\x2d\xc0\x6b\x87\xc9\x06\xe1\xe9\xbd\x96\x81\x97\x63\x26\x4e\x30\x13\x89\xa6\x45\x3e\xba\x78\x46\x03\x1f\xc1\xdc\x72\xdf\xcb\xa4\xba\x86\x8b\x3b\xa7\x96\x6d\x33\xae\xb2\xf3\x58\x58\xc7\xa6\x18\x62\x07\x16\xe6\xf1\xb6\x59\x80\x0c\x74\x31\xfd\x9b\x6d\x52\xd6\xb5\x8f\x7c\xa7\xfa\xb8\xb5\x4a\xf7\xc2\xdd\x7b\xc6\x79\x4b\x91\xda\xed\x89\x17\xf1\x38\x6f\xf4\xf4\x4c\x84\xdc\xe5\x77\x3a\x16\xc2\x76\xfa\x25\x2b\x4d\xc1\x2b\x2e\xd8\x2a\x17\x3a\xc3\x1f\x49\x88\x5e\x00\xd1\x91\x58\x66\xd8\x5e\x6f", bits: 2048, e: 65537, priv_der: b"\x30\x82\x04\xa4\x02\x01\x00\x02\x82\x01\x01\x00\x81\x64\xbe\x1e\x58\xa3\x76\xf6\x14\x34\x8f\x51\x33\xd7\x81\x58\xfe\x05\x72\x59\xce\xac\xa1\xf1\xa3\x43\xbd\x22\x41\x82\x4b\x0b\xdb\x24\xb6\x58\x66\xe7\xe2\x3d\x84\x60\x43\xeb\x2f\xdb\x99\x5a\x47\x57\x0c\x7e\xc6\x69\xdf\x52\xf7\x71\x9a\x43\x41\xed\x47\xf7\x68\xba\x77\x96\x9d\xf3\x51\xd5\x7f\x2b\x34\x3d\xc4\x3a\x55\xf6\xce\xe5\x5a\x94\xf1\x02\x8c\xef\x72\x30\x2f\x20\x78\x1c\x60\x65\xee\xe7\x21\x4f\x01\x2d\x00\xe9\x15\x46\x51\x51\x4a\xf1\x8f\x3f\x14\xf1\x58\xe7\x27\xc6\x5b\x56\xe4\xd9\x13\x7a\xd0\xc3\xca\x28\x0e\x21\x91\x7d\xd9\x89\x2d\xc0\x6b\x87\xc9\x06\xe1\xe9\xbd\x96\x81\x97\x63\x26\x4e\x30\x13\x89\xa6\x45\x3e\xba\x78\x46\x03\x1f\xc1\xdc\x72\xdf\xcb\xa4\xba\x86\x8b\x3b\xa7\x96\x6d\x33\xae\xb2\xf3\x58\x58\xc7\xa6\x18\x62\x07\x16\xe6\xf1\xb6\x59\x80\x0c\x74\x31\xfd\x9b\x6d\x52\xd6\xb5\x8f\x7c\xa7\xfa\xb8\xb5\x4a\xf7\xc2\xdd\x7b\xc6\x79\x4b\x91\xda\xed\x89\x17\xf1\x38\x6f\xf4\xf4\x4c\x84\xdc\xe5\x77\x3a\x16\xc2\x76\xfa\x25\x2b\x4d\xc1\x2b\x2e\xd8\x2a\x17\x3a\xc3\x1f\x49\x88\x5e\x00\xd1\x91\x58\x66\xd8\x5e\x6f\x02\x03\x01\x00\x01\x02\x82\x01\x00\x79\xa0\xdd\x25\x61\x64\xa6\xda\x41\xbb\xf6\x4b\xfa\x53\x44\xff\x06\x28\xd0\x88\xa2\xc1\x9b\xa8\xac\x33\x6c\x81\xda\xda\x42\xf8\xee\x11\xe0\x65\xd0\xb5\x7f\xf1\x1b\x91\xf1\xc6\x0d\xc2\x7a\xb0\x66\x06\xe9\x73\xf1\xc6\x6b\x6a\x6d\xb6\x97\xaf\x49\x35\x66\x44\xa6\x69\x41\x28\x8f\x68\xbd\x2f\xd6\xce\x21\xd9\x3d\xaf\x28\x47\x4b\xcc\x44\x0d\x65\x4f\x64\x73\x5f\xfe\xf3\x0d\xae\x59\xde\x33\x73\x12\x48\x39\x1f\x7d\xd2\x31\x47\x12\x46\x36\x08\x20\x70\xea\x77\x21\x36\xd4\x72\x8a\xfe\x28\xfc\x0d\x21\x46\x7d\x1e\xcd\xd2\xe7\x3a\x71\x40\x74\x68\xdd\xcc\x1e\xe3\xe4\x56\x5f\xda\x73\x7c\x33\x70\x01\x56\x0a\x9a\x71\xe3\xee\xa5\xfd\x38\x2d\xac\xac\x98\xa7\xe3\x88\x33\x74\xde\x7e\x4f\x3e\x24\x42\x9c\x23\x62\x66\x1d\x58\x4d\x73\x09\x59\x0e\x0d\x21\x66\x8f\xba\x8b\xaa\x40\xc2\x69\x2e\xb9\x90\xb3\xf5\xd5\x78\x58\x90\x0b\xdf\x2d\x11\x86\x89\xa6\xee\x9d\xaf\x81\xf3\x86\xa5\xce\x2b\xe7\x64\x4f\xf5\x02\xcc\xee\x5f\x55\x6a\x87\xd3\xd6\xc3\x9b\xc3\x62\x0b\x82\x04\x90\xbc\x93\xd8\x87\x01\x46\x22\xac\xe8\x50\xca\x3a\x62\x07\x03\x9f\x39\xa1\x02\x81\x81\x00\xd2\xc5\xa4\x00\x5c\x04\x04\xce\xd6\xf2\x04\xa1\x74\x8d\x5a\x74\xef\x63\xea\x07\xeb\x7b\x6e\x4d\x70\xf1\x7d\x90\xa0\x7d\x47\xf9\x2e\xa2\xab\x58\xca\x5f\x1e\xed\xc4\xcb\x44\x0a\xa8\xb1\x91\x26\x17\x3c\xcd\xc4\x20\xeb\x36\x9a\xb7\x36\x39\x56\x96\x8e\x97\x14\x3e\x92\xcc\x8b\xcd\x8f\x1c\xd4\x52\xa4\x3e\x5d\xf9\x2b\xdc\xaf\x64\xa2\xc3\xad\xc9\x44\x9d\x9a\x89\xe9\x57\x81\xcf\x97\x63\xa8\xfd\x6a\xd9\x7b\xed\x40\xe5\xe7\x36\xf6\x96\x1a\xc3\xc8\x4b\xf8\x1f\xdd\x2f\x8b\xae\x14\x91\xee\xbe\xff\xbc\x21\xbe\x19\xd0\x53\x02\x81\x81\x00\x9d\x28\xba\xa1\x6b\xba\x93\x27\xf2\xf7\x64\xa4\x71\x07\xee\x9d\x4b\x9a\xf5\xd8\x0a\x4e\x66\x4f\x56\x9d\x17\xb9\x2e\x7b\x82\xd4\x2d\x25\xbb\x87\xbf\x9f\x52\x5e\x4b\xc8\xff\xcb\x3d\x68\x87\x09\x51\x48\x7e\x11\xea\x2d\x0f\x91\x0f\x7b\xa8\x40\xc1\xf1\xb0\x3e\x2f\xad\xa1\xd4\x03\x45\x4f\x6f\x59\x23\x12\x6f\xf9\xa8\xac\xe1\x78\x98\x86\x32\x1b\x17\x64\xf7\x08\xff\xd3\x0b\xe0\x6e\xd8\x17\xd9\xcf\x52\xc9\x96\xf1\x85\xfb\x6d\xe2\xac\x63\x13\xea\x27\x5b\x4a\x29\x2e\x6a\xf8\xb7\x40\x9c\xe4\x30\x8f\xf1\x4d\xd8\x25\xf5\x02\x81\x81\x00\x9a\x0c\xd2\x5d\x60\xe3\x9f\x0f\xfe\x92\x4d\x48\x24\x83\xdc\x05\x73\xa2\xb7\x3e\xaa\xa2\x40\x70\x61\x88\x5f\x9a\x01\x73\x0f\xd3\xd4\x7e\x18\x76\x81\x13\x1c\xeb\xf3\xd6\x0d\x19\x2d\x4a\xfb\x27\xb7\xfc\x3c\xf8\x88\x86\xe2\x16\x1a\xaa\x8b\x25\xfa\x4c\xa5\xa7\xaa\x44\x69\x34\x15\x3d\xf0\x78\x4f\x1e\xb4\x66\xc2\xe3\x88\x1c\xb9\x95\x2d\x28\x2b\xde\xf6\xc2\x28\xe2\x5f\x8f\x05\x47\x45\x14\x12\x84\xb2\x08\x9d\xd3\xbd\x35\x4d\x3a\xd5\x63\x22\x8d\x96\xd8\xf7\x91\x16\x5b\x25\x14\xeb\xc4\x6f\xdd\x42\x87\xf7\x05\xae\xf9\x02\x81\x81\x00\x97\x39\x57\xcc\x77\xf3\x02\x22\xd0\xc2\x89\x0f\x4a\xcc\x4d\x29\x02\x55\x4b\xf6\xe4\x83\xe8\x22\xb3\xbf\x59\xd2\x91\x0d\xbc\x28\x1a\x81\x52\x60\x1f\x5d\x59\x4e\xef\x31\xac\x21\x8f\x27\x83\xb8\xcd\x84\x29\xfb\x67\x10\x91\x08\x0e\x93\xf8\xa4\xc7\x7a\x9f\x12\x57\xa2\x86\x33\x92\x2a\x21\x73\x8d\x9c\x17\xe3\xb3\xa2\x41\x28\x7c\x78\x97\xb8\xa3\x24\xf1\xbc\x5b\xe6\x7e\xd7\xd0\xd0\x18\x13\x6b\x3c\xf9\xf6\x8c\xce\x3f\x14\x5e\xfa\x5c\xd2\xc1\x98\xf0\xe2\x01\x0c\x7b\x63\xe7\x8b\xbe\x1a\xb9\xe0\x98\xc1\xa3\x1c\x37\xf9\x02\x81\x80\x4b\xe6\xc0\x9d\xd1\x26\x1f\xa2\xd7\xb5\xdb\x7a\x57\xca\xf3\xa5\x5f\xcc\xda\x3d\x47\xa9\xbc\xfd\x93\xd3\x9c\x45\x54\xdb\xc2\x5a\x08\x63\x0b\xa7\xb3\x1d\xde\xa5\xfe\x10\x0f\x27\x2c\xa2\x61\x75\xff\xcb\x92\x73\x59\x6d\x01\xda\xf4\x29\xe0\x1d\x81\x65\xce\x36\x46\xa5\x06\xdc\x56\xe6\x81\x5c\xc3\x53\x03\x30\x74\x17\xcc\xcf\x93\xbd\xf7\xda\xae\x8c\xfd\x4f\xc5\xa5\x01\x36\x86\xff\xab\xb0\x0b\x88\x14\x6e\xab\x6c\x66\xa4\x07\x77\x38\x9a\x0c\xbc\x58\x17\x40\xd3\x60\x26\x54\xd4\x5e\xb7\xe4\x9a\x65\x5f\xef\x62\xcf\x29", pub_der: b"\x30\x82\x01\x0a\x02\x82\x01\x01\x00\x81\x64\xbe\x1e\x58\xa3\x76\xf6\x14\x34\x8f\x51\x33\xd7\x81\x58\xfe\x05\x72\x59\xce\xac\xa1\xf1\xa3\x43\xbd\x22\x41\x82\x4b\x0b\xdb\x24\xb6\x58\x66\xe7\xe2\x3d\x84\x60\x43\xeb\x2f\xdb\x99\x5a\x47\x57\x0c\x7e\xc6\x69\xdf\x52\xf7\x71\x9a\x43\x41\xed\x47\xf7\x68\xba\x77\x96\x9d\xf3\x51\xd5\x7f\x2b\x34\x3d\xc4\x3a\x55\xf6\xce\xe5\x5a\x94\xf1\x02\x8c\xef\x72\x30\x2f\x20\x78\x1c\x60\x65\xee\xe7\x21\x4f\x01\x2d\x00\xe9\x15\x46\x51\x51\x4a\xf1\x8f\x3f\x14\xf1\x58\xe7\x27\xc6\x5b\x56\xe4\xd9\x13\x7a\xd0\xc3\xca\x28\x0e\x21\x91\x7d\xd9\x89\x2d\xc0\x6b\x87\xc9\x06\xe1\xe9\xbd\x96\x81\x97\x63\x26\x4e\x30\x13\x89\xa6\x45\x3e\xba\x78\x46\x03\x1f\xc1\xdc\x72\xdf\xcb\xa4\xba\x86\x8b\x3b\xa7\x96\x6d\x33\xae\xb2\xf3\x58\x58\xc7\xa6\x18\x62\x07\x16\xe6\xf1\xb6\x59\x80\x0c\x74\x31\xfd\x9b\x6d\x52\xd6\xb5\x8f\x7c\xa7\xfa\xb8\xb5\x4a\xf7\xc2\xdd\x7b\xc6\x79\x4b\x91\xda\xed\x89\x17\xf1\x38\x6f\xf4\xf4\x4c\x84\xdc\xe5\x77\x3a\x16\xc2\x76\xfa\x25\x2b\x4d\xc1\x2b\x2e\xd8\x2a\x17\x3a\xc3\x1f\x49\x88\x5e\x00\xd1\x91\x58\x66\xd8\x5e\x6f\x02\x03\x01\x00\x01", p: b"\xd2\xc5\xa4\x00\x5c\x04\x04\xce\xd6\xf2\x04\xa1\x74\x8d\x5a\x74\xef\x63\xea\x07\xeb\x7b\x6e\x4d\x70\xf1\x7d\x90\xa0\x7d\x47\xf9\x2e\xa2\xab\x58\xca\x5f\x1e\xed\xc4\xcb\x44\x0a\xa8\xb1\x91\x26\x17\x3c\xcd\xc4\x20\xeb\x36\x9a\xb7\x36\x39\x56\x96\x8e\x97\x14\x3e\x92\xcc\x8b\xcd\x8f\x1c\xd4\x52\xa4\x3e\x5d\xf9\x2b\xdc\xaf\x64\xa2\xc3\xad\xc9\x44\x9d\x9a\x89\xe9\x57\x81\xcf\x97\x63\xa8\xfd\x6a\xd9\x7b\xed\x40\xe5\xe7\x36\xf6\x96\x1a\xc3\xc8\x4b\xf8\x1f\xdd\x2f\x8b\xae\x14\x91\xee\xbe\xff\xbc\x21\xbe\x19\xd0\x53", q: b"\x9d\x28\xba\xa1\x6b\xba\x93\x27\xf2\xf7\x64\xa4\x71\x07\xee\x9d\x4b\x9a\xf5\xd8\x0a\x4e\x66\x4f\x56\x9d\x17\xb9\x2e\x7b\x82\xd4\x2d\x25\xbb\x87\xbf\x9f\x52\x5e\x4b\xc8\xff\xcb\x3d\x68\x87\x09\x51\x48\x7e\x11\xea\x2d\x0f\x91\x0f\x7b\xa8\x40\xc1\xf1\xb0\x3e\x2f\xad\xa1\xd4\x03\x45\x4f\x6f\x59\x23\x12\x6f\xf9\xa8\xac\xe1\x78\x98\x86\x32\x1b\x17\x64\xf7\x08\xff\xd3\x0b\xe0\x6e\xd8\x17\xd9\xcf\x52\xc9\x96\xf1\x85\xfb\x6d\xe2\xac\x63\x13\xea\x27\x5b\x4a\x29\x2e\x6a\xf8\xb7\x40\x9c\xe4\x30\x8f\xf1\x4d\xd8\x25\xf5", d: b"\x79\xa0\xdd\x25\x61\x64\xa6\xda\x41\xbb\xf6\x4b\xfa\x53\x44\xff\x06\x28\xd0\x88\xa2\xc1\x9b\xa8\xac\x33\x6c\x81\xda\xda\x42\xf8\xee\x11\xe0\x65\xd0\xb5\x7f\xf1\x1b\x91\xf1\xc6\x0d\xc2\x7a\xb0\x66\x06\xe9\x73\xf1\xc6\x6b\x6a\x6d\xb6\x97\xaf\x49\x35\x66\x44\xa6\x69\x41\x28\x8f\x68\xbd\x2f\xd6\xce\x21\xd9\x3d\xaf\x28\x47\x4b\xcc\x44\x0d\x65\x4f\x64\x73\x5f\xfe\xf3\x0d\xae\x59\xde\x33\x73\x12\x48\x39\x1f\x7d\xd2\x31\x47\x12\x46\x36\x08\x20\x70\xea\x77\x21\x36\xd4\x72\x8a\xfe\x28\xfc\x0d\x21\x46\x7d\x1e\xcd\xd2\xe7\x3a\x71\x40\x74\x68\xdd\xcc\x1e\xe3\xe4\x56\x5f\xda\x73\x7c\x33\x70\x01\x56\x0a\x9a\x71\xe3\xee\xa5\xfd\x38\x2d\xac\xac\x98\xa7\xe3\x88\x33\x74\xde\x7e\x4f\x3e\x24\x42\x9c\x23\x62\x66\x1d\x58\x4d\x73\x09\x59\x0e\x0d\x21\x66\x8f\xba\x8b\xaa\x40\xc2\x69\x2e\xb9\x90\xb3\xf5\xd5\x78\x58\x90\x0b\xdf\x2d\x11\x86\x89\xa6\xee\x9d\xaf\x81\xf3\x86\xa5\xce\x2b\xe7\x64\x4f\xf5\x02\xcc\xee\x5f\x55\x6a\x87\xd3\xd6\xc3\x9b\xc3\x62\x0b\x82\x04\x90\xbc\x93\xd8\x87\x01\x46\x22\xac\xe8\x50\xca\x3a\x62\x07\x03\x9f\x39\xa1", dp: b"\x9a\x0c\xd2\x5d\x60\xe3\x9f\x0f\xfe\x92\x4d\x48\x24\x83\xdc\x05\x73\xa2\xb7\x3e\xaa\xa2\x40\x70\x61\x88\x5f\x9a\x01\x73\x0f\xd3\xd4\x7e\x18\x76\x81\x13\x1c\xeb\xf3\xd6\x0d\x19\x2d\x4a\xfb\x27\xb7\xfc\x3c\xf8\x88\x86\xe2\x16\x1a\xaa\x8b\x25\xfa\x4c\xa5\xa7\xaa\x44\x69\x34\x15\x3d\xf0\x78\x4f\x1e\xb4\x66\xc2\xe3\x88\x1c\xb9\x95\x2d\x28\x2b\xde\xf6\xc2\x28\xe2\x5f\x8f\x05\x47\x45\x14\x12\x84\xb2\x08\x9d\xd3\xbd\x35\x4d\x3a\xd5\x63\x22\x8d\x96\xd8\xf7\x91\x16\x5b\x25\x14\xeb\xc4\x6f\xdd\x42\x87\xf7\x05\xae\xf9", dq: b"\x97\x39\x57\xcc\x77\xf3\x02\x22\xd0\xc2\x89\x0f\x4a\xcc\x4d\x29\x02\x55\x4b\xf6\xe4\x83\xe8\x22\xb3\xbf\x59\xd2\x91\x0d\xbc\x28\x1a\x81\x52\x60\x1f\x5d\x59\x4e\xef\x31\xac\x21\x8f\x27\x83\xb8\xcd\x84\x29\xfb\x67\x10\x91\x08\x0e\x93\xf8\xa4\xc7\x7a\x9f\x12\x57\xa2\x86\x33\x92\x2a\x21\x73\x8d\x9c\x17\xe3\xb3\xa2\x41\x28\x7c\x78\x97\xb8\xa3\x24\xf1\xbc\x5b\xe6\x7e\xd7\xd0\xd0\x18\x13\x6b\x3c\xf9\xf6\x8c\xce\x3f\x14\x5e\xfa\x5c\xd2\xc1\x98\xf0\xe2\x01\x0c\x7b\x63\xe7\x8b\xbe\x1a\xb9\xe0\x98\xc1\xa3\x1c\x37\xf9", iq: b"\x4b\xe6\xc0\x9d\xd1\x26\x1f\xa2\xd7\xb5\xdb\x7a\x57\xca\xf3\xa5\x5f\xcc\xda\x3d\x47\xa9\xbc\xfd\x93\xd3\x9c\x45\x54\xdb\xc2\x5a\x08\x63\x0b\xa7\xb3\x1d\xde\xa5\xfe\x10\x0f\x27\x2c\xa2\x61\x75\xff\xcb\x92\x73\x59\x6d\x01\xda\xf4\x29\xe0\x1d\x81\x65\xce\x36\x46\xa5\x06\xdc\x56\xe6\x81\x5c\xc3\x53\x03\x30\x74\x17\xcc\xcf\x93\xbd\xf7\xda\xae\x8c\xfd\x4f\xc5\xa5\x01\x36\x86\xff\xab\xb0\x0b\x88\x14\x6e\xab\x6c\x66\xa4\x07\x77\x38\x9a\x0c\xbc\x58\x17\x40\xd3\x60\x26\x54\xd4\x5e\xb7\xe4\x9a\x65\x5f\xef\x62\xcf\x29" },
RsaKey { n: b"\xaa\x86\x33\x32\x3c\x24\x7b\x61\x90\xc4\x6c\x2b\xc0\xef\xc3\xee\x40\xd6\x00\x55\xc2\x24\xd4\x60\x11\xbe\x7f\x4d\x78\x81\x4c\x96\x00\xeb\x48\x38\x57\x46\x9f\xd3\x8f\xc8\xdf\xdd\x8f\x62\x48\xd7\x95\x18\x2f\xca\x42\xf2\xbb\xf5\xb7\xa1\x20\x69\x3a\x89\x0b\xc6\x19\xdf\xeb\x47\x0f\x27\xfc\xd3\x0b\xc9\xb3\x64\x13\xfa\x53\x95\xbd\x5a\x21\x56\xc5\x70\x01\x9e\xc5\xb9\x8b\x38\x3f\x2d\x34\x3c\x86\x44\xd2\x4e\xf1\x02\x7b\x82\xc4\xf8\xc3\x36\xa3\x5e\x89\xd5\x21\xdf\xab\x41\x66\x99\x4c\xfb\xc1\x80\x8f\x44\x3c\xc1\xa3\xf8\x15\xa6\x0a\x10\x8d\xae\x26\xd7\x4c\x3d\x43\xe6\x7e\x68\x54\x57\xd1\x26\x25\x5d\x7b\x9f\x51\x1c\xfc\x13\x26\xce\xab\xf9\xd1\xa5\x1a\x26\xe2\xa8\x69\xdd\x4c\xd6\x7e\x55\x7c\xa8\xb1\x25\x7e\x4d\x01\x25\x73\x7f\x2d\x80\x04\xed\xb7\xff\x41\xee\xaa\xfd\x2f\x4a\x93\x81\x03\x53\x33\xcd\xfb\x99\xeb\x37\x6e\xbe\xe7\xa6\x59\xba\x97\x68\x3f\xa1\x3b\x08\x87\x29\xe5\x37\xb2\xab\x95\x09\x0d\x47\x86\xe7\xba\x5f\xa8\x31\xd7\x91\x38\x80\x78\x9e\xb1\x61\x2b\x5d\x97\x6a\x76\x21\x46\x80\xf5\x61\xa2\xe3\x21\x18\xbc\x0b\xaf\x6f", bits: 2048, e: 65537, priv_der: b"\x30\x82\x04\xa3\x02\x01\x00\x02\x82\x01\x01\x00\xaa\x86\x33\x32\x3c\x24\x7b\x61\x90\xc4\x6c\x2b\xc0\xef\xc3\xee\x40\xd6\x00\x55\xc2\x24\xd4\x60\x11\xbe\x7f\x4d\x78\x81\x4c\x96\x00\xeb\x48\x38\x57\x46\x9f\xd3\x8f\xc8\xdf\xdd\x8f\x62\x48\xd7\x95\x18\x2f\xca\x42\xf2\xbb\xf5\xb7\xa1\x20\x69\x3a\x89\x0b\xc6\x19\xdf\xeb\x47\x0f\x27\xfc\xd3\x0b\xc9\xb3\x64\x13\xfa\x53\x95\xbd\x5a\x21\x56\xc5\x70\x01\x9e\xc5\xb9\x8b\x38\x3f\x2d\x34\x3c\x86\x44\xd2\x4e\xf1\x02\x7b\x82\xc4\xf8\xc3\x36\xa3\x5e\x89\xd5\x21\xdf\xab\x41\x66\x99\x4c\xfb\xc1\x80\x8f\x44\x3c\xc1\xa3\xf8\x15\xa6\x0a\x10\x8d\xae\x26\xd7\x4c\x3d\x43\xe6\x7e\x68\x54\x57\xd1\x26\x25\x5d\x7b\x9f\x51\x1c\xfc\x13\x26\xce\xab\xf9\xd1\xa5\x1a\x26\xe2\xa8\x69\xdd\x4c\xd6\x7e\x55\x7c\xa8\xb1\x25\x7e\x4d\x01\x25\x73\x7f\x2d\x80\x04\xed\xb7\xff\x41\xee\xaa\xfd\x2f\x4a\x93\x81\x03\x53\x33\xcd\xfb\x99\xeb\x37\x6e\xbe\xe7\xa6\x59\xba\x97\x68\x3f\xa1\x3b\x08\x87\x29\xe5\x37\xb2\xab\x95\x09\x0d\x47\x86\xe7\xba\x5f\xa8\x31\xd7\x91\x38\x80\x78\x9e\xb1\x61\x2b\x5d\x97\x6a\x76\x21\x46\x80\xf5\x61\xa2\xe3\x21\x18\xbc\x0b\xaf\x6f\x02\x03\x01\x00\x01\x02\x82\x01\x00\x2c\x3d\xb3\x0c\xa6\x73\xe4\x9a\xd4\x7f\x51\x7d\x2c\x8a\x48\x30\x09\x1c\x3c\x6c\x03\x79\xa0\xab\xe8\x0e\x9f\x62\x8f\x10\x24\xb9\x8a\x35\x80\xc0\x35\x4c\x7a\x6c\xde\x12\x04\x9a\xab\xf7\x98\xe4\x6d\xa7\x1f\xc6\xff\x05\x90\xe4\x58\x26\xf2\x8c\xba\x86\x11\xca\xec\xad\x9e\x92\x0a\x09\x9a\xdb\x7a\x64\x73\x29\x54\xd1\x8e\x5b\xfc\x0b\x65\x38\xe8\xf2\x7d\x49\x1f\x0d\x5b\x64\x55\x67\xb9\xf4\xb5\xf5\x27\x07\x1a\x1a\x45\xc7\x10\xa9\x65\xa4\x48\x50\x5f\xbc\x2f\x14\xa3\x8e\xcd\x3a\x9a\xb1\x7a\x6b\x8b\x3f\xed\xef\x63\x45\xad\x2e\xe1\x50\xc2\x1c\x29\xae\x89\x23\x3c\xf1\xcb\x54\x18\x7f\x08\xb6\xb1\x0a\xe6\x4e\xd7\xb6\x7d\x02\x8a\x37\x23\x7e\x88\x7c\x38\x89\xd8\x1f\x54\x2e\x5c\x56\x90\x3b\xfe\x63\x85\x0e\xe4\xcf\xb0\x4d\xf7\x5c\x34\x4a\x77\x3d\x8c\x59\x10\xdb\x1a\xa7\x99\x3c\xb6\x51\x8f\x13\x13\x8b\xc2\x06\x04\x02\x0d\xbc\xa0\xa2\xda\x6b\x61\xcd\x50\x06\x46\x11\x35\xc7\x5d\xa9\xf9\xeb\xe0\x5d\x71\x6c\xad\xbb\x01\xa3\x71\x08\x35\x89\x90\x22\xd7\x21\x39\xff\xbd\xf5\x64\xd5\x7f\xfc\x7b\x7a\x06\x73\xf7\x3d\xee\xb1\x86\x24\x26\x39\x02\x81\x81\x00\xb1\xeb\x92\xb7\x83\x28\xf0\x58\xe3\x14\xa5\x3d\x62\x46\x89\xa9\x3b\x3b\xc2\xaf\xef\x0b\xa8\xa1\xd8\xef\x04\xf9\x24\xd1\xd0\x44\x82\x5a\x2f\xb9\x18\x9d\x07\xe9\xc6\x69\xff\x5f\xf7\x5f\x3b\xe3\x44\xba\xe7\x44\xcc\x57\xc7\x3c\x83\xe1\x1e\x4f\x34\xcd\xab\x0e\x34\x99\xc4\x8e\xc9\x7a\x0c\xe5\xb2\x09\x63\x1d\x87\x33\x31\x5a\x1b\x76\xe1\xda\xb6\xda\x54\x8b\x47\x8b\xc9\x10\xe3\x00\xaa\xdc\x73\x1c\x56\x48\xb5\x1e\x25\xbc\x79\xf5\x5d\xd7\x01\xc0\xb8\x88\x49\x79\x91\xfd\x24\x99\xad\x60\x01\x9b\x38\xd7\x0e\xc2\x24\x13\x02\x81\x81\x00\xf5\x5b\xb9\xac\xf9\x0a\x95\x61\xdd\xf3\xe8\x2a\x0f\xd5\x30\x47\x6e\xc2\x34\x47\xee\x06\x30\xa8\xb7\x69\xf1\xb8\x2c\x3c\xad\x84\xa6\xf1\xf3\xf9\x90\xe9\xc7\x5f\x58\xf3\xc6\xa5\x22\x3a\x58\x2c\xec\x22\x67\x56\x7e\xa0\x88\x21\x32\x92\xa0\x2a\x3a\x06\x90\xbe\x29\x5c\x07\xaa\xcb\xa3\x6b\xa0\xe0\x2e\x8b\xce\xee\x5c\xad\x93\x43\xe8\x8b\xc7\x3c\xd6\x49\x7f\x0d\x2f\xf9\xf5\x1e\x53\xb2\xd4\xd8\x34\xf9\x6c\xce\x03\x8f\x98\xc3\xf5\x20\x4a\x21\x77\x86\xcb\xaf\xca\xe8\x3c\x97\x7c\x05\xaf\x20\x76\x3c\x6d\xbf\xb0\xda\xb5\x02\x81\x80\x64\xc9\x82\xea\x4b\xf5\x73\xf9\x96\x61\x8a\x9d\x74\x3f\x6b\x1a\x1f\xc0\xe1\xaf\x92\x25\xb3\x98\x43\x70\x5b\x0b\xdb\xac\xb3\x63\x2b\xc8\x75\x02\x50\x8c\x1c\x00\x74\xf2\x74\xc4\xe3\x37\xe2\x90\x02\xce\x31\xd6\x4a\x3f\x6b\x50\xbf\x90\x56\x00\x1e\x74\x67\x72\xfb\x9f\x23\xb6\x93\x31\x7d\x7e\xdc\xd4\xee\x7d\xba\xa9\xe8\x4a\x18\x06\xc7\x38\x83\x9e\xb8\x87\xd1\xb6\xc0\xe6\xbd\x01\x12\xc9\x20\xb8\x2b\xb4\xb2\x4c\xea\xa9\x93\x18\xc8\xd8\xd4\x58\x5c\xf0\x6f\x56\xdb\xb9\x5f\xf3\x62\x40\x61\x88\x91\xb1\x59\xdd\xe6\x5b\x02\x81\x81\x00\xd8\xbb\xac\xb9\x69\xc7\xfa\x8a\xd7\xc7\xd3\x86\x0c\x34\x52\x90\x56\xfb\x3f\xb9\x66\x3d\x9b\x8f\xfd\x6c\x9d\x74\x05\xc7\x97\xb3\x3c\xd1\x2f\xa5\x7d\x67\xb4\x90\xb9\xff\xa4\xb2\x4c\x18\xe3\xb8\xd2\xe1\xd5\x0c\xa7\x90\x60\x8f\x8a\x9f\xd0\xd1\x5c\x2e\x5e\x7f\x4c\x03\x9a\x56\x39\xc9\xe2\x91\xda\x55\xe3\x73\xe8\x44\x7f\xa3\x3d\x72\x56\xbe\xa9\x33\xd4\xfa\x61\x08\xc7\x30\xca\x18\x3f\x39\x1a\xbf\x38\xb0\xef\x0e\x60\x33\x1e\xae\x12\x56\xc9\x57\x4e\xff\xf0\x0a\x39\xb9\x04\x4b\x2e\xae\x32\xeb\x9e\x97\x87\xa3\xce\x9d\x02\x81\x80\x6b\x90\x8c\xc8\x6b\x8b\x08\xaa\xe4\xf7\x6a\x51\xca\x05\x73\xc7\x8f\x09\x16\x36\xea\x44\x7d\x07\xd4\xc6\x93\x8a\xf2\x96\x3e\x6a\x04\xfb\x61\x40\x29\xda\xde\x25\x88\xb5\xcb\x56\xa1\x97\x3d\xc0\xba\x8a\xff\xff\xdc\xbc\x94\x07\x5b\xe3\x62\xf0\x9d\xc2\x46\x80\x7a\x40\xb3\x61\x60\x0f\x54\xe1\x55\x43\x0d\xd3\x47\x0a\xf6\xc3\xbe\x15\x82\xb4\x20\xb0\xe8\x56\xe3\x27\x51\xa9\x20\x89\xcc\xd0\x8c\xcf\x8a\x54\x3d\xa4\xe2\x7c\xf9\x3f\x6f\x97\x75\xf7\x04\x8a\xe8\xa4\x3a\x30\x2e\xbd\xad\x4f\x67\x32\x44\x73\xc3\xde\x83\x65", pub_der: b"\x30\x82\x01\x0a\x02\x82\x01\x01\x00\xaa\x86\x33\x32\x3c\x24\x7b\x61\x90\xc4\x6c\x2b\xc0\xef\xc3\xee\x40\xd6\x00\x55\xc2\x24\xd4\x60\x11\xbe\x7f\x4d\x78\x81\x4c\x96\x00\xeb\x48\x38\x57\x46\x9f\xd3\x8f\xc8\xdf\xdd\x8f\x62\x48\xd7\x95\x18\x2f\xca\x42\xf2\xbb\xf5\xb7\xa1\x20\x69\x3a\x89\x0b\xc6\x19\xdf\xeb\x47\x0f\x27\xfc\xd3\x0b\xc9\xb3\x64\x13\xfa\x53\x95\xbd\x5a\x21\x56\xc5\x70\x01\x9e\xc5\xb9\x8b\x38\x3f\x2d\x34\x3c\x86\x44\xd2\x4e\xf1\x02\x7b\x82\xc4\xf8\xc3\x36\xa3\x5e\x89\xd5\x21\xdf\xab\x41\x66\x99\x4c\xfb\xc1\x80\x8f\x44\x3c\xc1\xa3\xf8\x15\xa6\x0a\x10\x8d\xae\x26\xd7\x4c\x3d\x43\xe6\x7e\x68\x54\x57\xd1\x26\x25\x5d\x7b\x9f\x51\x1c\xfc\x13\x26\xce\xab\xf9\xd1\xa5\x1a\x26\xe2\xa8\x69\xdd\x4c\xd6\x7e\x55\x7c\xa8\xb1\x25\x7e\x4d\x01\x25\x73\x7f\x2d\x80\x04\xed\xb7\xff\x41\xee\xaa\xfd\x2f\x4a\x93\x81\x03\x53\x33\xcd\xfb\x99\xeb\x37\x6e\xbe\xe7\xa6\x59\xba\x97\x68\x3f\xa1\x3b\x08\x87\x29\xe5\x37\xb2\xab\x95\x09\x0d\x47\x86\xe7\xba\x5f\xa8\x31\xd7\x91\x38\x80\x78\x9e\xb1\x61\x2b\x5d\x97\x6a\x76\x21\x46\x80\xf5\x61\xa2\xe3\x21\x18\xbc\x0b\xaf\x6f\x02\x03\x01\x00\x01", p: b"\xb1\xeb\x92\xb7\x83\x28\xf0\x58\xe3\x14\xa5\x3d\x62\x46\x89\xa9\x3b\x3b\xc2\xaf\xef\x0b\xa8\xa1\xd8\xef\x04\xf9\x24\xd1\xd0\x44\x82\x5a\x2f\xb9\x18\x9d\x07\xe9\xc6\x69\xff\x5f\xf7\x5f\x3b\xe3\x44\xba\xe7\x44\xcc\x57\xc7\x3c\x83\xe1\x1e\x4f\x34\xcd\xab\x0e\x34\x99\xc4\x8e\xc9\x7a\x0c\xe5\xb2\x09\x63\x1d\x87\x33\x31\x5a\x1b\x76\xe1\xda\xb6\xda\x54\x8b\x47\x8b\xc9\x10\xe3\x00\xaa\xdc\x73\x1c\x56\x48\xb5\x1e\x25\xbc\x79\xf5\x5d\xd7\x01\xc0\xb8\x88\x49\x79\x91\xfd\x24\x99\xad\x60\x01\x9b\x38\xd7\x0e\xc2\x24\x13", q: b"\xf5\x5b\xb9\xac\xf9\x0a\x95\x61\xdd\xf3\xe8\x2a\x0f\xd5\x30\x47\x6e\xc2\x34\x47\xee\x06\x30\xa8\xb7\x69\xf1\xb8\x2c\x3c\xad\x84\xa6\xf1\xf3\xf9\x90\xe9\xc7\x5f\x58\xf3\xc6\xa5\x22\x3a\x58\x2c\xec\x22\x67\x56\x7e\xa0\x88\x21\x32\x92\xa0\x2a\x3a\x06\x90\xbe\x29\x5c\x07\xaa\xcb\xa3\x6b\xa0\xe0\x2e\x8b\xce\xee\x5c\xad\x93\x43\xe8\x8b\xc7\x3c\xd6\x49\x7f\x0d\x2f\xf9\xf5\x1e\x53\xb2\xd4\xd8\x34\xf9\x6c\xce\x03\x8f\x98\xc3\xf5\x20\x4a\x21\x77\x86\xcb\xaf\xca\xe8\x3c\x97\x7c\x05\xaf\x20\x76\x3c\x6d\xbf\xb0\xda\xb5", d: b"\x2c\x3d\xb3\x0c\xa6\x73\xe4\x9a\xd4\x7f\x51\x7d\x2c\x8a\x48\x30\x09\x1c\x3c\x6c\x03\x79\xa0\xab\xe8\x0e\x9f\x62\x8f\x10\x24\xb9\x8a\x35\x80\xc0\x35\x4c\x7a\x6c\xde\x12\x04\x9a\xab\xf7\x98\xe4\x6d\xa7\x1f\xc6\xff\x05\x90\xe4\x58\x26\xf2\x8c\xba\x86\x11\xca\xec\xad\x9e\x92\x0a\x09\x9a\xdb\x7a\x64\x73\x29\x54\xd1\x8e\x5b\xfc\x0b\x65\x38\xe8\xf2\x7d\x49\x1f\x0d\x5b\x64\x55\x67\xb9\xf4\xb5\xf5\x27\x07\x1a\x1a\x45\xc7\x10\xa9\x65\xa4\x48\x50\x5f\xbc\x2f\x14\xa3\x8e\xcd\x3a\x9a\xb1\x7a\x6b\x8b\x3f\xed\xef\x63\x45\xad\x2e\xe1\x50\xc2\x1c\x29\xae\x89\x23\x3c\xf1\xcb\x54\x18\x7f\x08\xb6\xb1\x0a\xe6\x4e\xd7\xb6\x7d\x02\x8a\x37\x23\x7e\x88\x7c\x38\x89\xd8\x1f\x54\x2e\x5c\x56\x90\x3b\xfe\x63\x85\x0e\xe4\xcf\xb0\x4d\xf7\x5c\x34\x4a\x77\x3d\x8c\x59\x10\xdb\x1a\xa7\x99\x3c\xb6\x51\x8f\x13\x13\x8b\xc2\x06\x04\x02\x0d\xbc\xa0\xa2\xda\x6b\x61\xcd\x50\x06\x46\x11\x35\xc7\x5d\xa9\xf9\xeb\xe0\x5d\x71\x6c\xad\xbb\x01\xa3\x71\x08\x35\x89\x90\x22\xd7\x21\x39\xff\xbd\xf5\x64\xd5\x7f\xfc\x7b\x7a\x06\x73\xf7\x3d\xee\xb1\x86\x24\x26\x39", dp: b"\x64\xc9\x82\xea\x4b\xf5\x73\xf9\x96\x61\x8a\x9d\x74\x3f\x6b\x1a\x1f\xc0\xe1\xaf\x92\x25\xb3\x98\x43\x70\x5b\x0b\xdb\xac\xb3\x63\x2b\xc8\x75\x02\x50\x8c\x1c\x00\x74\xf2\x74\xc4\xe3\x37\xe2\x90\x02\xce\x31\xd6\x4a\x3f\x6b\x50\xbf\x90\x56\x00\x1e\x74\x67\x72\xfb\x9f\x23\xb6\x93\x31\x7d\x7e\xdc\xd4\xee\x7d\xba\xa9\xe8\x4a\x18\x06\xc7\x38\x83\x9e\xb8\x87\xd1\xb6\xc0\xe6\xbd\x01\x12\xc9\x20\xb8\x2b\xb4\xb2\x4c\xea\xa9\x93\x18\xc8\xd8\xd4\x58\x5c\xf0\x6f\x56\xdb\xb9\x5f\xf3\x62\x40\x61\x88\x91\xb1\x59\xdd\xe6\x5b", dq: b"\xd8\xbb\xac\xb9\x69\xc7\xfa\x8a\xd7\xc7\xd3\x86\x0c\x34\x52\x90\x56\xfb\x3f\xb9\x66\x3d\x9b\x8f\xfd\x6c\x9d\x74\x05\xc7\x97\xb3\x3c\xd1\x2f\xa5\x7d\x67\xb4\x90\xb9\xff\xa4\xb2\x4c\x18\xe3\xb8\xd2\xe1\xd5\x0c\xa7\x90\x60\x8f\x8a\x9f\xd0\xd1\x5c\x2e\x5e\x7f\x4c\x03\x9a\x56\x39\xc9\xe2\x91\xda\x55\xe3\x73\xe8\x44\x7f\xa3\x3d\x72\x56\xbe\xa9\x33\xd4\xfa\x61\x08\xc7\x30\xca\x18\x3f\x39\x1a\xbf\x38\xb0\xef\x0e\x60\x33\x1e\xae\x12\x56\xc9\x57\x4e\xff\xf0\x0a\x39\xb9\x04\x4b\x2e\xae\x32\xeb\x9e\x97\x87\xa3\xce\x9d", iq: b"\x6b\x90\x8c\xc8\x6b\x8b\x08\xaa\xe4\xf7\x6a\x51\xca\x05\x73\xc7\x8f\x09\x16\x36\xea\x44\x7d\x07\xd4\xc6\x93\x8a\xf2\x96\x3e\x6a\x04\xfb\x61\x40\x29\xda\xde\x25\x88\xb5\xcb\x56\xa1\x97\x3d\xc0\xba\x8a\xff\xff\xdc\xbc\x94\x07\x5b\xe3\x62\xf0\x9d\xc2\x46\x80\x7a\x40\xb3\x61\x60\x0f\x54\xe1\x55\x43\x0d\xd3\x47\x0a\xf6\xc3\xbe\x15\x82\xb4\x20\xb0\xe8\x56\xe3\x27\x51\xa9\x20\x89\xcc\xd0\x8c\xcf\x8a\x54\x3d\xa4\xe2\x7c\xf9\x3f\x6f\x97\x75\xf7\x04\x8a\xe8\xa4\x3a\x30\x2e\xbd\xad\x4f\x67\x32\x44\x73\xc3\xde\x83\x65" },
RsaKey { n: b"\x02\x97\x29\x5a\x22\xdd\x47\x52\xa6\x06\x57\x73\x8e\x40\xca\x83\xbf\xe1\x1a\xa7\x71\x4f\xef\x7b\x31\x1d\xd1\x31\x1c\xba\x41\x53\x44\xd5\xf3\x34\x63\xf8\x45\x77\x8b\xfa\x7b\x68\x81\xbc\xcd\xc4\x8c\x8d\x68\xee\x97\xd6\x6d\x87\xd7\x75\xc7\xec\x58\xe4\x6e\x4a\x4b\x73\x02\xa4\xaa\x51\x66\xfe\xca\xd7\x54\x5c\xa5\x64\x22\xca\xd3\x36\x1a\x57\x23\x33\x63\x2c\x43\x26\x3b\x7e\xf1\x8f\x48\x36\x49\x64\xaf\xf2\x21\x76\x17\xbb\xad\xbb\x24\x0d\xd1\x9c\x2b\x5e\xd9\x96\x42\xbe\x91\x7a\x16\xfe\xfd\x83\xf2\xa1\x16\x58\x28\xf7\x4c\xa0\x75\x28\xaf\x76\x92\x17\x74\xab\x96\x49\xcf\x6f\x23\x32\xba\x52\x01\x7a\x55\xff\x47\x9b\xfc\x3f\x79\xf4\x3f\x90\x47\x0b\x7b\x32\xf4\x81\x58\x8e\xf7\x24\xae\xd5\xa4\xd4\x8c\xa6\x97\xb4\x1a\xeb\x7e\xe3\x5e\x7c\xe3\xa2\x26\xe0\x1a\x37\xf6\xf0\xcf\x6f\xbc\x26\xd0\xec\xdb\x4a\xd1\xac\x33\x94\x7a\xb1\xeb\xa7\x6c\x0b\x68\x15\x42\xab\xc8\x25\x9f\xcb\xc9\xdb\x74\x57\x82\xbc\xd9\xb0\x9e\xac\xd6\x7c\x05\x3c\x11\x5c\x6d\x7c\x69\x75\x60\xad\x2e\x17\xd7\x6b\x0f\x40\x22\x4d\x34\x2e\x2a\x4a\x93\x03\xfd\xc3\x6e\x3f\x19", bits: 2050, e: 3, priv_der: b"\x30\x82\x04\xa4\x02\x01\x00\x02\x82\x01\x01\x02\x97\x29\x5a\x22\xdd\x47\x52\xa6\x06\x57\x73\x8e\x40\xca\x83\xbf\xe1\x1a\xa7\x71\x4f\xef\x7b\x31\x1d\xd1\x31\x1c\xba\x41\x53\x44\xd5\xf3\x34\x63\xf8\x45\x77\x8b\xfa\x7b\x68\x81\xbc\xcd\xc4\x8c\x8d\x68\xee\x97\xd6\x6d\x87\xd7\x75\xc7\xec\x58\xe4\x6e\x4a\x4b\x73\x02\xa4\xaa\x51\x66\xfe\xca\xd7\x54\x5c\xa5\x64\x22\xca\xd3\x36\x1a\x57\x23\x33\x63\x2c\x43\x26\x3b\x7e\xf1\x8f\x48\x36\x49\x64\xaf\xf2\x21\x76\x17\xbb\xad\xbb\x24\x0d\xd1\x9c\x2b\x5e\xd9\x96\x42\xbe\x91\x7a\x16\xfe\xfd\x83\xf2\xa1\x16\x58\x28\xf7\x4c\xa0\x75\x28\xaf\x76\x92\x17\x74\xab\x96\x49\xcf\x6f\x23\x32\xba\x52\x01\x7a\x55\xff\x47\x9b\xfc\x3f\x79\xf4\x3f\x90\x47\x0b\x7b\x32\xf4\x81\x58\x8e\xf7\x24\xae\xd5\xa4\xd4\x8c\xa6\x97\xb4\x1a\xeb\x7e\xe3\x5e\x7c\xe3\xa2\x26\xe0\x1a\x37\xf6\xf0\xcf\x6f\xbc\x26\xd0\xec\xdb\x4a\xd1\xac\x33\x94\x7a\xb1\xeb\xa7\x6c\x0b\x68\x15\x42\xab\xc8\x25\x9f\xcb\xc9\xdb\x74\x57\x82\xbc\xd9\xb0\x9e\xac\xd6\x7c\x05\x3c\x11\x5c\x6d\x7c\x69\x75\x60\xad\x2e\x17\xd7\x6b\x0f\x40\x22\x4d\x34\x2e\x2a\x4a\x93\x03\xfd\xc3\x6e\x3f\x19\x02\x01\x03\x02\x82\x01\x01\x01\xba\x1b\x91\x6c\x93\x84\xe1\xc4\x04\x3a\x4d\x09\x80\x87\x02\x7f\xeb\x67\x1a\x4b\x8a\x9f\xa7\x76\x13\xe0\xcb\x68\x7c\x2b\x8c\xd8\x8e\xa2\x22\xed\x50\x2e\x4f\xb2\xa6\xfc\xf0\x56\x7d\xde\x83\x08\x5e\x45\xf4\x65\x39\x9e\x5a\x8f\xa3\xda\x9d\x90\x98\x49\x86\xdc\xf7\x57\x18\x71\x8b\x99\xff\x31\xe4\xe2\xe8\x6e\x42\xc1\xdc\x8c\xce\xbc\x3a\x17\x77\x97\x72\xd7\x6e\xd2\x54\xa1\x0a\x30\x24\x30\xed\xca\xa1\x6b\xa4\x0f\xd2\x73\xd2\x18\x09\x36\x68\x1c\xe9\xe6\x64\x2c\x7f\x0b\xa6\xb9\xff\x53\xad\x4c\x6b\x64\x3a\xc5\xfa\x30\xea\x4a\xf7\x73\xcd\x9e\x94\x91\xcc\x01\x30\x27\x6a\xd8\xdf\x90\x87\x12\x39\xd9\x09\xa0\x8a\x66\xc2\xe7\xf7\x7d\x75\xb1\x4f\x1f\xa2\x98\x5c\xfd\xe7\xd3\xaf\x77\xbf\xb4\xb5\x45\x47\xaa\x10\xc7\x51\x5c\x08\xdc\x9a\x05\xf7\xb9\x46\x81\xe2\xdc\x3a\x8c\xf6\x72\xf2\x7c\x23\x34\x6a\x3a\x11\x9f\x37\x27\x64\x98\x56\xe8\xf1\x52\x45\x49\x48\xc3\x13\x95\xdd\x68\xf2\x11\x9e\x0f\x7d\xaa\x89\x9e\x4f\xf7\x19\x4d\x17\x77\xb3\x92\x56\x09\x78\x6a\xfa\xf3\x50\x7a\x92\x8a\x3a\x37\xa9\xd9\x0b\xde\xd6\xb7\xa7\x11\x71\xd7\x4d\xab\x02\x81\x81\x01\xdd\x6c\x6e\x4a\x9e\xde\x0f\xd9\x70\xeb\x2d\x35\x88\x39\x21\x83\x6c\x69\xff\xb5\x23\xaf\x16\xa8\xae\x10\x5b\xf9\xc0\x6d\x28\x32\x21\x9b\x20\x99\x0f\x79\x52\x9e\x6f\x97\x23\xac\xad\x68\x0d\xc5\xcf\x10\x3f\xbd\xf6\x30\xe0\xbe\x47\xf1\x2e\x21\xeb\x76\xf8\x37\xcc\xd6\x5e\x1c\xb6\xdc\x1a\x40\xa4\x1c\x37\xd6\x3d\x5c\xd0\xd5\x3a\x88\x12\xaf\x01\xf9\x7a\xd8\xd6\xce\x49\x03\x0a\x29\xc5\xb7\xe0\x8c\x92\x46\x78\xe0\xe4\x6f\x59\xef\xe0\x69\xa6\xc7\xeb\x64\x8b\x4a\x57\xec\x95\x08\x24\x0f\x34\x99\xd9\x8c\x59\xc2\x76\x91\x02\x81\x81\x01\x63\x98\x47\x37\x23\x46\x28\xc0\x88\xa9\x54\x5e\xc6\xa4\xc1\xde\x1a\xfc\x23\xdb\x4d\x27\xb5\xb9\x6d\x0d\xa5\x09\x9f\x4f\xec\x99\x9d\x74\xd5\x42\xa3\xc0\x4a\xdc\xc6\x7e\xa0\xf8\x0d\xb0\x8d\x2a\x22\x64\x96\x55\x9f\xa9\xcd\xd2\xae\x66\x35\x8a\xad\x85\x05\xd7\xee\x40\x59\xef\xf4\x9e\x77\x84\x1d\xa3\x63\x30\xe7\xb1\xd0\x97\x72\xcc\xab\xf4\x86\x45\x84\xd3\x99\x8b\xa1\x68\x76\x30\x1c\x79\x54\x57\x43\xcb\x1f\xfc\xea\xa2\xa1\x6b\x60\x56\x8d\xf9\x33\xbb\x03\xf5\x90\xe2\x39\x66\x78\x4c\xd3\xe5\xaf\xd7\x3e\xe8\xd4\x09\x02\x81\x81\x01\x3e\x48\x49\x87\x14\x94\x0a\x90\xf5\xf2\x1e\x23\xb0\x26\x16\x57\x9d\x9b\xff\xce\x17\xca\x0f\x1b\x1e\xb5\x92\xa6\x80\x48\xc5\x76\xc1\x12\x15\xbb\x5f\xa6\x37\x14\x4a\x64\xc2\x73\x1e\x45\x5e\x83\xdf\x60\x2a\x7e\xa4\x20\x95\xd4\x2f\xf6\x1e\xc1\x47\xa4\xa5\x7a\x88\x8e\xe9\x68\x79\xe8\x11\x80\x6d\x68\x25\x39\x7e\x3d\xe0\x8e\x27\x05\x61\xca\x01\x50\xfc\x90\x8f\x34\x30\xac\xb1\x71\x2e\x7a\x95\xb3\x0c\x2e\xfb\x40\x98\x4a\x3b\xf5\x40\x46\x6f\x2f\xf2\x43\x07\x86\xe5\x48\x63\x5a\xc2\xb4\xcd\xbb\xe6\x5d\x91\x2c\x4f\x0b\x02\x81\x81\x00\xed\x10\x2f\x7a\x17\x84\x1b\x2b\x05\xc6\x38\x3f\x2f\x18\x81\x3e\xbc\xa8\x17\xe7\x88\xc5\x23\xd0\xf3\x5e\x6e\x06\x6a\x35\x48\x66\x68\xf8\x8e\x2c\x6d\x2a\xdc\x93\x2e\xff\x15\xfa\xb3\xcb\x08\xc6\xc1\x98\x64\x39\x15\x1b\xde\x8c\x74\x44\x23\xb1\xc9\x03\x59\x3a\x9e\xd5\x91\x4a\xa3\x14\x4f\xad\x69\x17\x97\x75\xef\xcb\xe0\x64\xf7\x33\x1d\x4d\xae\xd9\x03\x37\xbb\xb2\x6b\x9a\xf9\x75\x68\x50\xe2\xe4\xd7\xdc\xbf\xfd\xf1\xc1\xc0\xf2\x40\x39\xb3\xfb\x77\xd2\x02\xa3\xb5\xec\x26\x44\x50\x33\x37\xee\x75\x3a\x29\xf0\x8d\x5b\x02\x81\x81\x01\x00\x51\xc1\xc2\x7c\xf4\x61\x39\xef\x18\x87\x97\xae\x92\xfa\x9b\xf5\x03\xa5\xed\xf9\x09\xc2\x2f\xc3\x6c\xc7\xe6\x2d\x2d\xef\xf0\x44\x63\x7b\x8b\x74\xdf\x56\xae\xbf\x43\x3d\x5f\x6d\xd3\x8c\xc5\x23\x9b\x1a\x0c\x69\x54\x7c\x0d\x30\xc1\xc8\xe1\x3e\xcd\x18\x35\x99\x6b\xec\xa0\x26\xca\x8c\xda\xc8\x09\x49\xd0\x7f\xa4\x18\xe2\xee\xc0\xd5\xd5\x25\x12\x47\x67\xb8\x1a\xee\x0d\xa0\xe2\x87\x20\xa5\xaf\x7f\x87\xc0\xad\xb7\x8b\xc4\xac\xdc\xae\x0a\x3f\x6e\xb2\xbe\x77\x4e\xef\x2b\xe7\x14\x47\xb6\x1d\x1c\x5d\x9f\x6f\x92\xcd", pub_der: b"\x30\x82\x01\x08\x02\x82\x01\x01\x02\x97\x29\x5a\x22\xdd\x47\x52\xa6\x06\x57\x73\x8e\x40\xca\x83\xbf\xe1\x1a\xa7\x71\x4f\xef\x7b\x31\x1d\xd1\x31\x1c\xba\x41\x53\x44\xd5\xf3\x34\x63\xf8\x45\x77\x8b\xfa\x7b\x68\x81\xbc\xcd\xc4\x8c\x8d\x68\xee\x97\xd6\x6d\x87\xd7\x75\xc7\xec\x58\xe4\x6e\x4a\x4b\x73\x02\xa4\xaa\x51\x66\xfe\xca\xd7\x54\x5c\xa5\x64\x22\xca\xd3\x36\x1a\x57\x23\x33\x63\x2c\x43\x26\x3b\x7e\xf1\x8f\x48\x36\x49\x64\xaf\xf2\x21\x76\x17\xbb\xad\xbb\x24\x0d\xd1\x9c\x2b\x5e\xd9\x96\x42\xbe\x91\x7a\x16\xfe\xfd\x83\xf2\xa1\x16\x58\x28\xf7\x4c\xa0\x75\x28\xaf\x76\x92\x17\x74\xab\x96\x49\xcf\x6f\x23\x32\xba\x52\x01\x7a\x55\xff\x47\x9b\xfc\x3f\x79\xf4\x3f\x90\x47\x0b\x7b\x32\xf4\x81\x58\x8e\xf7\x24\xae\xd5\xa4\xd4\x8c\xa6\x97\xb4\x1a\xeb\x7e\xe3\x5e\x7c\xe3\xa2\x26\xe0\x1a\x37\xf6\xf0\xcf\x6f\xbc\x26\xd0\xec\xdb\x4a\xd1\xac\x33\x94\x7a\xb1\xeb\xa7\x6c\x0b\x68\x15\x42\xab\xc8\x25\x9f\xcb\xc9\xdb\x74\x57\x82\xbc\xd9\xb0\x9e\xac\xd6\x7c\x05\x3c\x11\x5c\x6d\x7c\x69\x75\x60\xad\x2e\x17\xd7\x6b\x0f\x40\x22\x4d\x34\x2e\x2a\x4a\x93\x03\xfd\xc3\x6e\x3f\x19\x02\x01\x03", p: b"\x01\xdd\x6c\x6e\x4a\x9e\xde\x0f\xd9\x70\xeb\x2d\x35\x88\x39\x21\x83\x6c\x69\xff\xb5\x23\xaf\x16\xa8\xae\x10\x5b\xf9\xc0\x6d\x28\x32\x21\x9b\x20\x99\x0f\x79\x52\x9e\x6f\x97\x23\xac\xad\x68\x0d\xc5\xcf\x10\x3f\xbd\xf6\x30\xe0\xbe\x47\xf1\x2e\x21\xeb\x76\xf8\x37\xcc\xd6\x5e\x1c\xb6\xdc\x1a\x40\xa4\x1c\x37\xd6\x3d\x5c\xd0\xd5\x3a\x88\x12\xaf\x01\xf9\x7a\xd8\xd6\xce\x49\x03\x0a\x29\xc5\xb7\xe0\x8c\x92\x46\x78\xe0\xe4\x6f\x59\xef\xe0\x69\xa6\xc7\xeb\x64\x8b\x4a\x57\xec\x95\x08\x24\x0f\x34\x99\xd9\x8c\x59\xc2\x76\x91", q: b"\x01\x63\x98\x47\x37\x23\x46\x28\xc0\x88\xa9\x54\x5e\xc6\xa4\xc1\xde\x1a\xfc\x23\xdb\x4d\x27\xb5\xb9\x6d\x0d\xa5\x09\x9f\x4f\xec\x99\x9d\x74\xd5\x42\xa3\xc0\x4a\xdc\xc6\x7e\xa0\xf8\x0d\xb0\x8d\x2a\x22\x64\x96\x55\x9f\xa9\xcd\xd2\xae\x66\x35\x8a\xad\x85\x05\xd7\xee\x40\x59\xef\xf4\x9e\x77\x84\x1d\xa3\x63\x30\xe7\xb1\xd0\x97\x72\xcc\xab\xf4\x86\x45\x84\xd3\x99\x8b\xa1\x68\x76\x30\x1c\x79\x54\x57\x43\xcb\x1f\xfc\xea\xa2\xa1\x6b\x60\x56\x8d\xf9\x33\xbb\x03\xf5\x90\xe2\x39\x66\x78\x4c\xd3\xe5\xaf\xd7\x3e\xe8\xd4\x09", d: b"\x01\xba\x1b\x91\x6c\x93\x84\xe1\xc4\x04\x3a\x4d\x09\x80\x87\x02\x7f\xeb\x67\x1a\x4b\x8a\x9f\xa7\x76\x13\xe0\xcb\x68\x7c\x2b\x8c\xd8\x8e\xa2\x22\xed\x50\x2e\x4f\xb2\xa6\xfc\xf0\x56\x7d\xde\x83\x08\x5e\x45\xf4\x65\x39\x9e\x5a\x8f\xa3\xda\x9d\x90\x98\x49\x86\xdc\xf7\x57\x18\x71\x8b\x99\xff\x31\xe4\xe2\xe8\x6e\x42\xc1\xdc\x8c\xce\xbc\x3a\x17\x77\x97\x72\xd7\x6e\xd2\x54\xa1\x0a\x30\x24\x30\xed\xca\xa1\x6b\xa4\x0f\xd2\x73\xd2\x18\x09\x36\x68\x1c\xe9\xe6\x64\x2c\x7f\x0b\xa6\xb9\xff\x53\xad\x4c\x6b\x64\x3a\xc5\xfa\x30\xea\x4a\xf7\x73\xcd\x9e\x94\x91\xcc\x01\x30\x27\x6a\xd8\xdf\x90\x87\x12\x39\xd9\x09\xa0\x8a\x66\xc2\xe7\xf7\x7d\x75\xb1\x4f\x1f\xa2\x98\x5c\xfd\xe7\xd3\xaf\x77\xbf\xb4\xb5\x45\x47\xaa\x10\xc7\x51\x5c\x08\xdc\x9a\x05\xf7\xb9\x46\x81\xe2\xdc\x3a\x8c\xf6\x72\xf2\x7c\x23\x34\x6a\x3a\x11\x9f\x37\x27\x64\x98\x56\xe8\xf1\x52\x45\x49\x48\xc3\x13\x95\xdd\x68\xf2\x11\x9e\x0f\x7d\xaa\x89\x9e\x4f\xf7\x19\x4d\x17\x77\xb3\x92\x56\x09\x78\x6a\xfa\xf3\x50\x7a\x92\x8a\x3a\x37\xa9\xd9\x0b\xde\xd6\xb7\xa7\x11\x71\xd7\x4d\xab", dp: b"\x01\x3e\x48\x49\x87\x14\x94\x0a\x90\xf5\xf2\x1e\x23\xb0\x26\x16\x57\x9d\x9b\xff\xce\x17\xca\x0f\x1b\x1e\xb5\x92\xa6\x80\x48\xc5\x76\xc1\x12\x15\xbb\x5f\xa6\x37\x14\x4a\x64\xc2\x73\x1e\x45\x5e\x83\xdf\x60\x2a\x7e\xa4\x20\x95\xd4\x2f\xf6\x1e\xc1\x47\xa4\xa5\x7a\x88\x8e\xe9\x68\x79\xe8\x11\x80\x6d\x68\x25\x39\x7e\x3d\xe0\x8e\x27\x05\x61\xca\x01\x50\xfc\x90\x8f\x34\x30\xac\xb1\x71\x2e\x7a\x95\xb3\x0c\x2e\xfb\x40\x98\x4a\x3b\xf5\x40\x46\x6f\x2f\xf2\x43\x07\x86\xe5\x48\x63\x5a\xc2\xb4\xcd\xbb\xe6\x5d\x91\x2c\x4f\x0b", dq: b"\xed\x10\x2f\x7a\x17\x84\x1b\x2b\x05\xc6\x38\x3f\x2f\x18\x81\x3e\xbc\xa8\x17\xe7\x88\xc5\x23\xd0\xf3\x5e\x6e\x06\x6a\x35\x48\x66\x68\xf8\x8e\x2c\x6d\x2a\xdc\x93\x2e\xff\x15\xfa\xb3\xcb\x08\xc6\xc1\x98\x64\x39\x15\x1b\xde\x8c\x74\x44\x23\xb1\xc9\x03\x59\x3a\x9e\xd5\x91\x4a\xa3\x14\x4f\xad\x69\x17\x97\x75\xef\xcb\xe0\x64\xf7\x33\x1d\x4d\xae\xd9\x03\x37\xbb\xb2\x6b\x9a\xf9\x75\x68\x50\xe2\xe4\xd7\xdc\xbf\xfd\xf1\xc1\xc0\xf2\x40\x39\xb3\xfb\x77\xd2\x02\xa3\xb5\xec\x26\x44\x50\x33\x37\xee\x75\x3a\x29\xf0\x8d\x5b", iq: b"\x01\x00\x51\xc1\xc2\x7c\xf4\x61\x39\xef\x18\x87\x97\xae\x92\xfa\x9b\xf5\x03\xa5\xed\xf9\x09\xc2\x2f\xc3\x6c\xc7\xe6\x2d\x2d\xef\xf0\x44\x63\x7b\x8b\x74\xdf\x56\xae\xbf\x43\x3d\x5f\x6d\xd3\x8c\xc5\x23\x9b\x1a\x0c\x69\x54\x7c\x0d\x30\xc1\xc8\xe1\x3e\xcd\x18\x35\x99\x6b\xec\xa0\x26\xca\x8c\xda\xc8\x09\x49\xd0\x7f\xa4\x18\xe2\xee\xc0\xd5\xd5\x25\x12\x47\x67\xb8\x1a\xee\x0d\xa0\xe2\x87\x20\xa5\xaf\x7f\x87\xc0\xad\xb7\x8b\xc4\xac\xdc\xae\x0a\x3f\x6e\xb2\xbe\x77\x4e\xef\x2b\xe7\x14\x47\xb6\x1d\x1c\x5d\x9f\x6f\x92\xcd" },
RsaKey { n: b"\xa0\x07\xd9\x6d\xff\xb8\x36\xb1\x61\x04\x10\xc7\x83\x7e\x47\x36\xf8\x6b\x42\xaf\xf7\x2d\xe1\x6d\xc4\x4e\x44\xbd\xf7\x81\xf9\xdc\x9d\xd4\x4c\xac\x03\x19\xe8\x01\xe7\x0f\x7b\x38\xa7\xd6\x44\x92\x96\x7e\x43\xb9\x5b\x87\x49\x19\x0b\xf4\xb7\xb8\xc5\xcf\x8a\x9f\xd3\xbf\x27\x32\xdf\x51\x0f\x2e\xb5\x4b\x3d\xdb\xe8\xac\x34\xc0\x1e\x78\x7e\xb6\x47\x21\x6a\x0e\xec\xf8\xd7\x3b\xa9\xc0\xb8\x43\x98\xaf\x15\xcf\x67\x6a\xb3\x19\x08\xde\x7e\x53\xba\x17\x4d\xd2\xaf\x89\xad\x61\x54\x3a\xb9\x8f\x1e\x3f\xea\x1b\x1a\xea\x72\xae\xa5\x79\x6d\x0d\x84\x94\xea\x4d\x81\xa0\x66\x1f\x03\x5c\x44\xa6\x72\xe7\xda\x4b\xc9\xd3\xf9\x60\x92\xd1\x43\xc3\x8f\x2b\x54\xc0\xfe\x7a\xeb\xba\xba\xc3\x8f\x6d\x0d\xf9\xe5\x8d\x2a\xe0\x86\x00\x64\xc3\xb1\x1f\x9a\xc3\xde\x92\x2d\x20\xfb\x38\x21\x19\xff\xca\xc7\x1d\x4d\x41\xf1\x9c\x28\xba\xa8\x07\x9c\x54\x62\x4a\x90\x82\x3d\x43\x90\xc9\x55\x16\x80\x70\xaf\x99\x41\x93\xf3\x25\x66\x8c\x55\xb2\x01\x37\x2a\x88\xfe\xdc\x81\x08\x45\x87\x21\xe5\xaf\xfe\xd8\xd3\x0c\x5a\xe5\x72\xbb\xbc\x78\x2f\xc9\xb9\x19\x58\xd2\x52\x35", bits: 2056, e: 65537, priv_der: b"\x30\x82\x04\xa7\x02\x01\x00\x02\x82\x01\x02\x00\xa0\x07\xd9\x6d\xff\xb8\x36\xb1\x61\x04\x10\xc7\x83\x7e\x47\x36\xf8\x6b\x42\xaf\xf7\x2d\xe1\x6d\xc4\x4e\x44\xbd\xf7\x81\xf9\xdc\x9d\xd4\x4c\xac\x03\x19\xe8\x01\xe7\x0f\x7b\x38\xa7\xd6\x44\x92\x96\x7e\x43\xb9\x5b\x87\x49\x19\x0b\xf4\xb7\xb8\xc5\xcf\x8a\x9f\xd3\xbf\x27\x32\xdf\x51\x0f\x2e\xb5\x4b\x3d\xdb\xe8\xac\x34\xc0\x1e\x78\x7e\xb6\x47\x21\x6a\x0e\xec\xf8\xd7\x3b\xa9\xc0\xb8\x43\x98\xaf\x15\xcf\x67\x6a\xb3\x19\x08\xde\x7e\x53\xba\x17\x4d\xd2\xaf\x89\xad\x61\x54\x3a\xb9\x8f\x1e\x3f\xea\x1b\x1a\xea\x72\xae\xa5\x79\x6d\x0d\x84\x94\xea\x4d\x81\xa0\x66\x1f\x03\x5c\x44\xa6\x72\xe7\xda\x4b\xc9\xd3\xf9\x60\x92\xd1\x43\xc3\x8f\x2b\x54\xc0\xfe\x7a\xeb\xba\xba\xc3\x8f\x6d\x0d\xf9\xe5\x8d\x2a\xe0\x86\x00\x64\xc3\xb1\x1f\x9a\xc3\xde\x92\x2d\x20\xfb\x38\x21\x19\xff\xca\xc7\x1d\x4d\x41\xf1\x9c\x28\xba\xa8\x07\x9c\x54\x62\x4a\x90\x82\x3d\x43\x90\xc9\x55\x16\x80\x70\xaf\x99\x41\x93\xf3\x25\x66\x8c\x55\xb2\x01\x37\x2a\x88\xfe\xdc\x81\x08\x45\x87\x21\xe5\xaf\xfe\xd8\xd3\x0c\x5a\xe5\x72\xbb\xbc\x78\x2f\xc9\xb9\x19\x58\xd2\x52\x35\x02\x03\x01\x00\x01\x02\x82\x01\x01\x5b\x1f\x3d\x12\x62\x6a\xbd\x51\xd1\x21\x24\x80\xc6\x81\xf0\x01\x00\x00\xeb\x4f\x11\x1b\x21\xe2\x83\xc5\xe1\x64\x9d\xfb\x77\x8f\xc4\x9a\xef\x31\x7e\xee\x90\x6a\x0c\xec\x86\xc8\x62\xe1\x21\xd8\xaa\x32\xa9\x53\x71\x27\x9e\x5a\xd1\xb0\xfd\xb0\x0b\x8a\xba\xaf\x79\x3d\xbe\x0f\x3c\x93\x86\x66\x9d\x3a\x83\xb5\xa5\x4d\xf1\x17\x78\x02\x3a\x7c\x86\x12\x23\xb6\xed\xfe\x5f\x68\x0c\xa7\xbd\x04\x58\x7b\x51\x9a\xf0\x93\x13\xf9\xec\x4f\xec\x74\xb6\x60\xb0\xa2\x87\xeb\x88\x3b\x04\x60\x0f\xea\xcb\x59\xaf\x6e\xd1\xab\xaf\xb3\x6d\xaf\x2a\x5d\xa4\x16\xc6\x76\xe3\x65\xc0\x43\x82\xc4\x64\x67\xb2\x4c\xb1\x87\xfb\x2b\x99\xee\xeb\xa7\xc3\x60\x66\x30\x5e\xc3\x4f\x0e\xf1\x8e\x6a\x14\xae\xae\x41\xcb\x65\x77\x36\x63\xa1\x4b\xfc\xfa\xfe\xdf\x80\x3c\xc0\xa1\x55\x3a\x04\x2f\xc0\xbd\x29\x6b\x0f\xa9\xd9\xa1\xed\x01\x5e\xed\x89\x4b\x3d\xc1\xa5\xe3\x94\x71\x2c\x61\x23\xce\x79\x68\x2b\xdc\xec\x57\x4e\xb7\x8c\xd8\x0e\x7b\xa7\x29\xdf\x79\x15\xf0\xe5\xc1\x41\xad\x90\x7a\x0e\x0b\xbb\x8e\x8c\x52\x77\x43\x48\x41\xe8\x37\x7e\xf7\x88\xc3\x7f\x7a\x11\xae\x61\x02\x81\x81\x0f\xa9\xaa\xe0\xe7\x45\xf0\xf9\xaa\x9c\xf2\x7a\x70\x69\x32\x5d\x71\x5d\x8f\x0f\x47\x15\x5e\xf7\x37\xb2\x89\xd4\x74\x73\x46\x5b\x3c\x1c\x97\x28\xc4\xf7\x18\xfe\xdf\x17\x19\x6b\xea\xe2\x15\x9b\x68\xb5\xb4\x32\xe6\x7b\x12\xf9\x20\x6a\x2b\x39\x1d\x9b\xf3\xac\x98\xd2\x16\xdb\x0b\xb3\xd0\x38\xd9\x94\xf1\xe5\xb0\x14\x04\xb3\xcb\x85\x02\x9a\x20\xa9\xc1\x16\x00\xa6\xf4\x0e\x9f\xff\x55\x42\x2a\xa7\xe8\x02\x6e\xf5\xcb\xc8\xd6\x5a\xe3\x40\x61\x81\xb3\x00\x65\xf4\x1e\x2f\x06\x4a\x85\x68\xf0\xda\x09\x2f\x29\x4c\x18\xc7\x29\x02\x81\x81\x0a\x37\x9e\xe8\x58\x98\x2c\xbb\x9d\x3f\x26\xa9\xd4\x24\x61\x86\xae\x44\xe4\x16\xe7\xcc\x1d\xf0\x00\xb8\x1e\x70\xdc\x30\xb9\xfc\x51\xef\x93\x72\xa1\xe2\x7d\xff\x5f\xf5\x7b\x8d\xa5\xea\x88\x76\x64\xcb\xa1\x7d\x3d\x67\x36\xce\xbe\xb7\xff\x17\xb5\xee\xa2\x8b\xac\xcf\x26\xd1\x36\x53\xb8\x9e\x49\xc9\xb8\x7b\x94\xf9\x3c\x17\xde\xa2\x1e\x6b\xec\x26\x14\x4b\xbf\x58\xf6\xe7\xd5\x26\xb0\x87\x85\x54\x3d\x10\x72\x52\x8e\xf7\xa7\x5d\x74\x8d\xed\xc5\x9a\x9e\x17\x8a\xa8\x05\x71\xc8\xd5\x16\x7c\x5f\x4b\xe1\xc0\xb4\x36\xd0\x2d\x02\x81\x81\x03\x4f\x9c\x9d\xda\x86\x00\x80\xe6\xbe\x32\xcc\x0b\x43\x51\xb0\x4b\x2c\xb9\xf7\x42\xd1\x93\xb7\xb3\x00\x7c\xfe\x7a\x77\x7b\xe2\x01\x7d\x11\xbf\x3e\x93\xf5\xa6\xbb\x46\x48\xcb\x75\x65\xc1\xa7\x8e\xa5\x0a\xa8\xcf\xec\x28\x80\x9d\x87\x94\x07\x88\xe8\xd4\xc4\x21\xb2\x17\xbe\xca\x64\x82\x99\xe1\xf5\x08\x85\xc3\x89\x17\xcd\x62\x32\x85\xf0\x4b\x03\x57\x9b\xed\x1b\x5d\xf0\x51\x86\x4a\x61\xa8\x5e\xc2\x3e\xf1\x71\xe8\x58\x56\x67\xf4\x2e\x41\xee\x87\x06\x88\x86\xe8\x72\x8c\x63\xe8\x7b\xdc\x9e\x5a\xde\xab\x5e\x38\xc6\xb1\x02\x81\x81\x04\x35\xbe\xe8\x85\xf8\xce\x15\xd0\x49\x41\x29\x21\x1c\x8c\x82\xee\x33\xbc\xb8\x23\x72\xdb\xb3\x14\xd8\xc8\xd2\x40\x28\x63\xba\x30\x18\xc3\x6c\xac\x7f\xa2\xe3\x23\x2b\x07\x69\xea\x3f\xa5\x53\x03\x5d\x54\x81\x42\x57\xd1\x21\x87\x3c\x51\x83\xf7\x97\x08\xaa\xfc\xdd\xae\x64\xee\x39\xb9\x0c\x9f\xe2\xda\x7d\x31\x79\x30\xe5\xb4\xfa\xa0\x06\x60\x1b\xa0\xa9\x45\x82\xe6\xd9\xc7\xde\x55\x46\xc2\x0d\x5f\xcb\xf3\x0f\x49\x91\x8a\x08\xdc\x09\xcf\x3b\x68\xe6\x53\x54\xf2\xbe\xab\x8f\xd1\x1d\x9e\xc9\xb5\x7e\xa3\xe4\x9d\xe1\x51\x02\x81\x81\x0a\x43\x3c\x42\xcf\x2d\x06\x72\xf8\xcd\x8c\x2b\x8e\x83\xd3\xb4\xb8\x82\x24\xa2\x10\xdc\x51\xe7\x40\x7e\x95\x1d\xf7\xb9\x29\x66\x61\x8f\xb0\x18\x38\x82\xdc\x3d\x70\xca\xe3\xc0\x5d\xde\x5c\xf1\xf7\xfe\x53\xe2\xe7\x89\x2d\xaf\xab\x20\x15\x19\xf0\x3c\x6c\xea\x92\xfd\xeb\xaa\x39\x7e\xe6\x17\xa5\x18\x22\x69\x07\x03\x01\xae\xbd\x84\x67\x3f\xa3\xee\x7f\x33\x33\x4c\x91\x8a\xe2\xac\x0c\x87\x38\x1b\xf7\xce\x79\x86\x69\xa7\x7f\xe2\x07\xef\xf5\x18\x07\xd0\x69\xc5\x85\x0f\x06\x14\xb3\x6e\xb5\x3e\x7e\x5f\x28\x6a\xfc\x7b\xa1", pub_der: b"\x30\x82\x01\x0b\x02\x82\x01\x02\x00\xa0\x07\xd9\x6d\xff\xb8\x36\xb1\x61\x04\x10\xc7\x83\x7e\x47\x36\xf8\x6b\x42\xaf\xf7\x2d\xe1\x6d\xc4\x4e\x44\xbd\xf7\x81\xf9\xdc\x9d\xd4\x4c\xac\x03\x19\xe8\x01\xe7\x0f\x7b\x38\xa7\xd6\x44\x92\x96\x7e\x43\xb9\x5b\x87\x49\x19\x0b\xf4\xb7\xb8\xc5\xcf\x8a\x9f\xd3\xbf\x27\x32\xdf\x51\x0f\x2e\xb5\x4b\x3d\xdb\xe8\xac\x34\xc0\x1e\x78\x7e\xb6\x47\x21\x6a\x0e\xec\xf8\xd7\x3b\xa9\xc0\xb8\x43\x98\xaf\x15\xcf\x67\x6a\xb3\x19\x08\xde\x7e\x53\xba\x17\x4d\xd2\xaf\x89\xad\x61\x54\x3a\xb9\x8f\x1e\x3f\xea\x1b\x1a\xea\x72\xae\xa5\x79\x6d\x0d\x84\x94\xea\x4d\x81\xa0\x66\x1f\x03\x5c\x44\xa6\x72\xe7\xda\x4b\xc9\xd3\xf9\x60\x92\xd1\x43\xc3\x8f\x2b\x54\xc0\xfe\x7a\xeb\xba\xba\xc3\x8f\x6d\x0d\xf9\xe5\x8d\x2a\xe0\x86\x00\x64\xc3\xb1\x1f\x9a\xc3\xde\x92\x2d\x20\xfb\x38\x21\x19\xff\xca\xc7\x1d\x4d\x41\xf1\x9c\x28\xba\xa8\x07\x9c\x54\x62\x4a\x90\x82\x3d\x43\x90\xc9\x55\x16\x80\x70\xaf\x99\x41\x93\xf3\x25\x66\x8c\x55\xb2\x01\x37\x2a\x88\xfe\xdc\x81\x08\x45\x87\x21\xe5\xaf\xfe\xd8\xd3\x0c\x5a\xe5\x72\xbb\xbc\x78\x2f\xc9\xb9\x19\x58\xd2\x52\x35\x02\x03\x01\x00\x01", p: b"\x0f\xa9\xaa\xe0\xe7\x45\xf0\xf9\xaa\x9c\xf2\x7a\x70\x69\x32\x5d\x71\x5d\x8f\x0f\x47\x15\x5e\xf7\x37\xb2\x89\xd4\x74\x73\x46\x5b\x3c\x1c\x97\x28\xc4\xf7\x18\xfe\xdf\x17\x19\x6b\xea\xe2\x15\x9b\x68\xb5\xb4\x32\xe6\x7b\x12\xf9\x20\x6a\x2b\x39\x1d\x9b\xf3\xac\x98\xd2\x16\xdb\x0b\xb3\xd0\x38\xd9\x94\xf1\xe5\xb0\x14\x04\xb3\xcb\x85\x02\x9a\x20\xa9\xc1\x16\x00\xa6\xf4\x0e\x9f\xff\x55\x42\x2a\xa7\xe8\x02\x6e\xf5\xcb\xc8\xd6\x5a\xe3\x40\x61\x81\xb3\x00\x65\xf4\x1e\x2f\x06\x4a\x85\x68\xf0\xda\x09\x2f\x29\x4c\x18\xc7\x29", q: b"\x0a\x37\x9e\xe8\x58\x98\x2c\xbb\x9d\x3f\x26\xa9\xd4\x24\x61\x86\xae\x44\xe4\x16\xe7\xcc\x1d\xf0\x00\xb8\x1e\x70\xdc\x30\xb9\xfc\x51\xef\x93\x72\xa1\xe2\x7d\xff\x5f\xf5\x7b\x8d\xa5\xea\x88\x76\x64\xcb\xa1\x7d\x3d\x67\x36\xce\xbe\xb7\xff\x17\xb5\xee\xa2\x8b\xac\xcf\x26\xd1\x36\x53\xb8\x9e\x49\xc9\xb8\x7b\x94\xf9\x3c\x17\xde\xa2\x1e\x6b\xec\x26\x14\x4b\xbf\x58\xf6\xe7\xd5\x26\xb0\x87\x85\x54\x3d\x10\x72\x52\x8e\xf7\xa7\x5d\x74\x8d\xed\xc5\x9a\x9e\x17\x8a\xa8\x05\x71\xc8\xd5\x16\x7c\x5f\x4b\xe1\xc0\xb4\x36\xd0\x2d", d: b"\x5b\x1f\x3d\x12\x62\x6a\xbd\x51\xd1\x21\x24\x80\xc6\x81\xf0\x01\x00\x00\xeb\x4f\x11\x1b\x21\xe2\x83\xc5\xe1\x64\x9d\xfb\x77\x8f\xc4\x9a\xef\x31\x7e\xee\x90\x6a\x0c\xec\x86\xc8\x62\xe1\x21\xd8\xaa\x32\xa9\x53\x71\x27\x9e\x5a\xd1\xb0\xfd\xb0\x0b\x8a\xba\xaf\x79\x3d\xbe\x0f\x3c\x93\x86\x66\x9d\x3a\x83\xb5\xa5\x4d\xf1\x17\x78\x02\x3a\x7c\x86\x12\x23\xb6\xed\xfe\x5f\x68\x0c\xa7\xbd\x04\x58\x7b\x51\x9a\xf0\x93\x13\xf9\xec\x4f\xec\x74\xb6\x60\xb0\xa2\x87\xeb\x88\x3b\x04\x60\x0f\xea\xcb\x59\xaf\x6e\xd1\xab\xaf\xb3\x6d\xaf\x2a\x5d\xa4\x16\xc6\x76\xe3\x65\xc0\x43\x82\xc4\x64\x67\xb2\x4c\xb1\x87\xfb\x2b\x99\xee\xeb\xa7\xc3\x60\x66\x30\x5e\xc3\x4f\x0e\xf1\x8e\x6a\x14\xae\xae\x41\xcb\x65\x77\x36\x63\xa1\x4b\xfc\xfa\xfe\xdf\x80\x3c\xc0\xa1\x55\x3a\x04\x2f\xc0\xbd\x29\x6b\x0f\xa9\xd9\xa1\xed\x01\x5e\xed\x89\x4b\x3d\xc1\xa5\xe3\x94\x71\x2c\x61\x23\xce\x79\x68\x2b\xdc\xec\x57\x4e\xb7\x8c\xd8\x0e\x7b\xa7\x29\xdf\x79\x15\xf0\xe5\xc1\x41\xad\x90\x7a\x0e\x0b\xbb\x8e\x8c\x52\x77\x43\x48\x41\xe8\x37\x7e\xf7\x88\xc3\x7f\x7a\x11\xae\x61", dp: b"\x03\x4f\x9c\x9d\xda\x86\x00\x80\xe6\xbe\x32\xcc\x0b\x43\x51\xb0\x4b\x2c\xb9\xf7\x42\xd1\x93\xb7\xb3\x00\x7c\xfe\x7a\x77\x7b\xe2\x01\x7d\x11\xbf\x3e\x93\xf5\xa6\xbb\x46\x48\xcb\x75\x65\xc1\xa7\x8e\xa5\x0a\xa8\xcf\xec\x28\x80\x9d\x87\x94\x07\x88\xe8\xd4\xc4\x21\xb2\x17\xbe\xca\x64\x82\x99\xe1\xf5\x08\x85\xc3\x89\x17\xcd\x62\x32\x85\xf0\x4b\x03\x57\x9b\xed\x1b\x5d\xf0\x51\x86\x4a\x61\xa8\x5e\xc2\x3e\xf1\x71\xe8\x58\x56\x67\xf4\x2e\x41\xee\x87\x06\x88\x86\xe8\x72\x8c\x63\xe8\x7b\xdc\x9e\x5a\xde\xab\x5e\x38\xc6\xb1", dq: b"\x04\x35\xbe\xe8\x85\xf8\xce\x15\xd0\x49\x41\x29\x21\x1c\x8c\x82\xee\x33\xbc\xb8\x23\x72\xdb\xb3\x14\xd8\xc8\xd2\x40\x28\x63\xba\x30\x18\xc3\x6c\xac\x7f\xa2\xe3\x23\x2b\x07\x69\xea\x3f\xa5\x53\x03\x5d\x54\x81\x42\x57\xd1\x21\x87\x3c\x51\x83\xf7\x97\x08\xaa\xfc\xdd\xae\x64\xee\x39\xb9\x0c\x9f\xe2\xda\x7d\x31\x79\x30\xe5\xb4\xfa\xa0\x06\x60\x1b\xa0\xa9\x45\x82\xe6\xd9\xc7\xde\x55\x46\xc2\x0d\x5f\xcb\xf3\x0f\x49\x91\x8a\x08\xdc\x09\xcf\x3b\x68\xe6\x53\x54\xf2\xbe\xab\x8f\xd1\x1d\x9e\xc9\xb5\x7e\xa3\xe4\x9d\xe1\x51", iq: b"\x0a\x43\x3c\x42\xcf\x2d\x06\x72\xf8\xcd\x8c\x2b\x8e\x83\xd3\xb4\xb8\x82\x24\xa2\x10\xdc\x51\xe7\x40\x7e\x95\x1d\xf7\xb9\x29\x66\x61\x8f\xb0\x18\x38\x82\xdc\x3d\x70\xca\xe3\xc0\x5d\xde\x5c\xf1\xf7\xfe\x53\xe2\xe7\x89\x2d\xaf\xab\x20\x15\x19\xf0\x3c\x6c\xea\x92\xfd\xeb\xaa\x39\x7e\xe6\x17\xa5\x18\x22\x69\x07\x03\x01\xae\xbd\x84\x67\x3f\xa3\xee\x7f\x33\x33\x4c\x91\x8a\xe2\xac\x0c\x87\x38\x1b\xf7\xce\x79\x86\x69\xa7\x7f\xe2\x07\xef\xf5\x18\x07\xd0\x69\xc5\x85\x0f\x06\x14\xb3\x6e\xb5\x3e\x7e\x5f\x28\x6a\xfc\x7b\xa1" },
RsaKey { n: b"\xc8\x5a\x50\x6e\x6f\xd9\xcf\xc6\x06\xa8\xde\x70\xc8\x90\x74\x7a\x3a\x6e\x8f\x62\x09\x91\x5e\x85\x9b\x8b\x24\xcf\x43\x06\x30\x40\xf5\x89\x7f\xcf\x4e\x2d\x31\x45\xb1\x35\x1f\x4d\xe6\x6a\xe7\x32\x54\x4e\x56\xb5\x20\x34\x9b\xd4\x6d\x69\xab\xf9\xf3\xda\xfc\xf7\xa2\xda\x0c\x1a\x1a\xbd\xbb\xff\x73\x65\x49\x42\x82\x36\x2f\xe1\x8a\x80\x5a\xed\xb4\x7e\xb6\x08\x4d\xd0\x56\xb9\x94\x28\x52\x51\x2c\x22\x9f\x18\xa4\x3d\x2e\x54\x1e\xc5\x82\x19\x8d\xb6\x3d\x8f\x34\x0c\xb7\xcc\x17\x56\xc8\xe7\x0f\x76\x87\x41\xd9\x7f\xf5\xf4\x17\x13\x3c\x6f\x8a\xe6\x66\x81\x6b\x4a\x36\xb8\x67\x3c\x28\x68\x31\x44\x1b\x9a\x87\xcc\x87\xef\x3b\x13\xed\x86\xcd\x0a\xff\x98\xca\x0f\xd9\x4f\x72\xf5\x27\xdc\xcd\x1c\xc7\x5f\x93\x0d\x0a\x52\x77\x15\xc4\x73\x05\xc0\x3f\x38\xd9\x76\xca\x36\x6d\x8d\x13\x1e\xe4\x0c\x56\x0a\x4a\xb9\xdb\xa2\xc3\x28\xf3\x74\x5c\x4a\xbc\x7a\x5c\xa5\xae\x1e\x4e\x94\x67\x1a\x09\x82\x00\x42\x2e\x13\x83\x5a\x96\x70\xc1\xfe\x90\x93\x57\x45\x41\xff\x63\x38\x56\x16\x74\x7a\xb0\xcf\xcd\xde\xd7\x1d\x04\x2c\x54\x6e\x22\x1c\xec\x33\x6f\xa6\x02\xf4\x06\x6d\xd4\xeb\xcd\x59\xc5\xf3\xb5\x7b\x20\x3a\x65\xfc\x38\xc4\xc2\x96\xb9\x64\xab\xb1\xb3\x33\x4c\xc7\x6c\x13\x50\x42\x2a\x57\xb3\xe9\x1e\xde\x0d\x6b\x38\xbe\xa0\x45\x60\xd4\xa7\x67\x12\x59\xc0\x8a\x6d\x4a\x44\x93\xad\x52\x6b\x2d\xce\xa3\x88\xa7\xb8\xd6\xbb\x4a\xf5\x3f\x20\x80\x96\xb3\x73\xe3\xc3\xad\x67\x34\x8a\xde\x8a\x70\x68\x3f\xa3\x6f\x4c\xe0\x9f\x37\xd6\x63\xcf\x45\x56\xca\x10\x0d\x30\x25\xb2\xc7\xb5\xda\xc5\xf1\x71\xb4\x82\x65\xbc\x34\x67\x6e\xe4\xfd\x74\xdc\xa5\xe0\x99\x8a\x33\xf6\x6e\x31", bits: 3072, e: 65537, priv_der: b"\x30\x82\x06\xe2\x02\x01\x00\x02\x82\x01\x81\x00\xc8\x5a\x50\x6e\x6f\xd9\xcf\xc6\x06\xa8\xde\x70\xc8\x90\x74\x7a\x3a\x6e\x8f\x62\x09\x91\x5e\x85\x9b\x8b\x24\xcf\x43\x06\x30\x40\xf5\x89\x7f\xcf\x4e\x2d\x31\x45\xb1\x35\x1f\x4d\xe6\x6a\xe7\x32\x54\x4e\x56\xb5\x20\x34\x9b\xd4\x6d\x69\xab\xf9\xf3\xda\xfc\xf7\xa2\xda\x0c\x1a\x1a\xbd\xbb\xff\x73\x65\x49\x42\x82\x36\x2f\xe1\x8a\x80\x5a\xed\xb4\x7e\xb6\x08\x4d\xd0\x56\xb9\x94\x28\x52\x51\x2c\x22\x9f\x18\xa4\x3d\x2e\x54\x1e\xc5\x82\x19\x8d\xb6\x3d\x8f\x34\x0c\xb7\xcc\x17\x56\xc8\xe7\x0f\x76\x87\x41\xd9\x7f\xf5\xf4\x17\x13\x3c\x6f\x8a\xe6\x66\x81\x6b\x4a\x36\xb8\x67\x3c\x28\x68\x31\x44\x1b\x9a\x87\xcc\x87\xef\x3b\x13\xed\x86\xcd\x0a\xff\x98\xca\x0f\xd9\x4f\x72\xf5\x27\xdc\xcd\x1c\xc7\x5f\x93\x0d\x0a\x52\x77\x15\xc4\x73\x05\xc0\x3f\x38\xd9\x76\xca\x36\x6d\x8d\x13\x1e\xe4\x0c\x56\x0a\x4a\xb9\xdb\xa2\xc3\x28\xf3\x74\x5c\x4a\xbc\x7a\x5c\xa5\xae\x1e\x4e\x94\x67\x1a\x09\x82\x00\x42\x2e\x13\x83\x5a\x96\x70\xc1\xfe\x90\x93\x57\x45\x41\xff\x63\x38\x56\x16\x74\x7a\xb0\xcf\xcd\xde\xd7\x1d\x04\x2c\x54\x6e\x22\x1c\xec\x33\x6f\xa6\x02\xf4\x06\x6d\xd4\xeb\xcd\x59\xc5\xf3\xb5\x7b\x20\x3a\x65\xfc\x38\xc4\xc2\x96\xb9\x64\xab\xb1\xb3\x33\x4c\xc7\x6c\x13\x50\x42\x2a\x57\xb3\xe9\x1e\xde\x0d\x6b\x38\xbe\xa0\x45\x60\xd4\xa7\x67\x12\x59\xc0\x8a\x6d\x4a\x44\x93\xad\x52\x6b\x2d\xce\xa3\x88\xa7\xb8\xd6\xbb\x4a\xf5\x3f\x20\x80\x96\xb3\x73\xe3\xc3\xad\x67\x34\x8a\xde\x8a\x70\x68\x3f\xa3\x6f\x4c\xe0\x9f\x37\xd6\x63\xcf\x45\x56\xca\x10\x0d\x30\x25\xb2\xc7\xb5\xda\xc5\xf1\x71\xb4\x82\x65\xbc\x34\x67\x6e\xe4\xfd\x74\xdc\xa5\xe0\x99\x8a\x33\xf6\x6e\x31\x02\x03\x01\x00\x01\x02\x82\x01\x80\x01\xb0\x01\x0d\x6d\x13\xc0\x94\x42\x6a\x19\xb5\x89\x7a\xee\x00\x39\x8d\xc4\xd7\x66\x8d\x3a\xe6\x95\x30\xce\xd6\x90\x11\xf5\x46\x16\xcb\x59\xb0\x3d\x50\x54\x21\xea\x24\x30\x67\x4f\x91\x86\xf0\xfd\x94\xcb\x56\x2b\x37\x46\x38\xbb\xd3\x30\x07\xa2\xee\x2d\x43\x48\xb3\xdd\x76\x3a\xd3\x6e\x49\xf0\x86\xe1\xdf\x15\x89\xaf\x4d\x8f\x05\x15\xbe\xfa\xce\x36\x6a\x4b\x7d\x7d\xbd\x82\x69\xf4\x87\x8a\x7f\xa0\x27\x6c\xfa\xb6\xf1\x2e\x71\x2b\x6f\x5b\xaa\x35\x4a\x87\x7d\xb3\xee\x9c\x23\xb6\xfd\x7b\x3b\xdc\x57\xc9\xa5\x32\x45\x24\x0c\x9d\x6d\xb3\x15\xcd\xb7\x39\x58\x1e\xad\xde\xf0\xba\xc6\x65\xe3\xd4\xf7\xb0\x3d\x20\xc7\xfb\x0f\x67\xe8\xc2\xc1\x5c\xf5\xc4\x7d\xed\xae\xa5\xa1\x3a\xfc\xb9\x1d\x8c\xf0\x59\x24\xba\xf9\x86\xd7\x40\x18\x57\xec\x0e\x9c\x43\xf8\xa4\x2b\x61\x30\xd7\x00\x5f\xc9\x5b\xd8\x43\xc4\x13\x4c\x2f\x70\xd9\x3e\xa9\x69\x1d\xc5\x1e\xe5\x6b\xb8\xb3\x68\x7a\xe3\xe4\x59\xa4\xf4\xb0\xea\xa4\xe3\x9e\x0d\x29\xaf\x94\x69\x8d\x8a\xa9\x5d\x14\xc3\xe3\xff\x9c\xa9\x11\x67\xfa\x09\x51\xd3\x6a\x35\x12\x29\xa8\x5f\x76\x4c\x5e\xd0\x74\xc0\xa2\x72\xae\xf0\x05\xe8\xe0\x84\xbe\x4e\xfa\xf0\xd5\xbb\x86\x23\x8d\x76\xad\xd1\xf2\xe7\xb5\x6c\xa0\x6e\xf6\x04\x69\xee\x49\x89\xf0\xca\xc7\xa7\xdb\xa9\xa8\x51\x97\x80\x0e\x47\xba\xf1\x45\xbb\xd2\x1b\xec\xf0\x09\x38\xc4\x0a\x17\x49\xd7\x7c\x46\x8d\xd6\x43\x48\x2e\xdf\x6b\x46\xdf\x63\x85\x8c\xaa\xc0\x23\x4c\x9b\xb4\x55\x45\x0f\xc3\xd6\x0e\xf0\xc3\xd3\x73\x26\xbc\xd3\x19\x5a\xc7\xa8\x7a\x24\xb3\x85\xfd\xe3\xba\xf3\x44\xeb\x48\x9d\x8d\x6c\xa8\x76\xe9\xcb\x22\x89\x40\x70\x8e\xfb\xbd\x67\x4f\xd2\xcd\xa1\x02\x81\xc1\x00\xee\x98\xf5\x56\xb5\x05\x68\x29\x13\xcb\xeb\x78\x52\xd8\xc4\x08\xf0\x67\x10\x0b\xe5\x52\x59\x77\xb7\xa6\xb2\xb7\x39\x6b\x4d\xd0\xc0\x85\x99\x14\x14\x9a\x15\x89\x38\x78\x13\x62\xf2\xb8\xbc\x20\x1f\xe4\x49\xd2\xf2\xfd\x91\xc7\xbb\xec\x52\x22\x13\x5a\x57\x09\xe2\x74\x95\x8a\x8f\xfb\xb6\x08\x6a\xbc\xf5\x55\xa3\x4b\xf7\x22\x7f\xbf\x9d\xed\x54\xef\x9c\x32\x4b\xc4\xec\x7a\xf8\x86\x1d\xed\xa3\x95\x0d\x49\x25\xeb\x42\x90\xd9\xca\x76\x1f\x0d\x11\x06\xfd\xf7\xad\x04\x37\xa5\x1d\x1e\xbc\xcd\xec\xec\xce\xa2\xeb\x33\xf1\x02\x9f\x05\xea\xf6\x94\x81\xe6\xae\x6f\xbe\x2b\xe6\x01\x73\x68\xbd\x81\x2a\xb2\x57\xd1\xa2\xed\x39\xe9\xa3\x78\xac\xaa\xb0\xd5\xad\x25\xfb\x70\x7e\x57\x5d\xa5\xc4\x66\x0d\xda\xa8\x5a\x1d\xa2\x43\xf7\x30\x2e\x1c\xee\x3e\xd9\x94\xf8\xf7\x10\x8f\x5f\x8b\xe7\x02\x81\xc1\x00\xd6\xf7\x42\x44\x76\x02\xcc\x65\xdd\x42\xbe\x02\x39\xc7\xaf\x0e\xcb\x87\x9b\x3b\xa0\x5c\xd0\x3e\x7f\x85\x5d\x27\xc4\xbb\xc7\x0a\x53\xb3\xa1\x26\xba\x85\x56\x0a\x75\x3d\xfa\x0c\xaf\xa7\x9e\x11\x42\x85\xbe\xce\xbc\xd3\x5f\x9d\xee\x6e\x15\xf4\x0b\x03\x3f\x2e\xe0\xeb\x67\xed\xc1\xd3\xdf\x3f\x88\xd6\xd4\xae\x2f\x1a\xa4\x7b\x2c\x76\x7c\xab\x94\x65\xe2\x35\x0c\x60\x87\x72\x45\x76\xf5\xb7\x17\x59\xaf\x90\xec\x98\x35\xbe\x8d\xad\xc1\x80\x66\x6a\x04\x1e\x96\x75\x28\x09\x05\x69\x5d\x1e\xa2\xb5\x92\xcf\x0b\x33\xac\xc7\x07\x52\x66\x76\x70\xaf\x1f\x38\x55\x47\x55\x1d\x85\x88\x5c\x24\x68\xbd\x30\xe2\xbf\xd0\xe3\x5f\x66\x57\xeb\xe4\x46\x8d\x71\x0b\x04\xe2\x51\x48\x71\x7c\x0d\xd7\x59\xcd\xd2\xbb\x2d\x23\xa6\x85\x60\x52\x6d\xf4\x92\x15\x40\x4d\x89\x58\x9d\x59\x89\xa3\x32\x27\x02\x81\xc0\x64\x4a\xef\x75\xcf\x09\xc2\xca\xe1\x83\x6a\x2b\x5d\xc7\xb8\x3f\x79\xae\x18\xd4\xa7\x44\x82\x4f\x0c\x67\x89\xdf\xf2\xc6\xe4\x22\xc7\x8a\x60\xda\x4b\xfe\xa8\xe6\xd1\x51\xc7\xf4\x63\xca\xbb\x69\x55\x7e\x84\x79\xa3\xa2\x6a\xd0\xe6\x71\x63\xe4\xe6\xf5\xa6\x78\x85\x34\x34\x57\xd6\x46\x1c\x32\x55\x8b\xb0\x24\x9b\x4b\xa7\x4a\x5d\x20\x92\xa5\xdc\x7a\x0b\xd2\x28\x7f\x52\x58\x2e\x77\x51\xc5\x3e\x69\xbc\xf7\xee\x74\x81\xba\x99\x91\xbd\x2d\x38\x34\xdc\x17\x8d\x30\xb1\x01\x22\xea\xa6\xac\xfe\x72\x84\xe8\x27\x1b\x6e\xed\xf4\x08\x1c\x58\xb3\xe5\xa0\xe4\xf2\x96\x0d\xfe\x2d\xe4\x96\x3a\x84\xcd\xf2\xc0\x9c\xa1\x86\x36\xe9\x8d\x08\x26\x05\x8e\x8a\x5e\x87\x35\xdc\x07\x61\x54\x20\x0d\x3a\x0d\x1b\xed\xb9\xae\x87\x9e\x59\xab\x62\x19\x40\x17\xf5\x5b\x48\x7f\x8e\x7a\xeb\x89\x62\x29\x02\x81\xc0\x40\x3c\xa3\x10\xd2\x33\x03\xe1\x6c\xbd\x05\x0a\xa5\x39\x86\x96\x65\x3b\xa0\xa7\xb0\xc4\x0b\x76\xa1\xa4\xb8\xb1\xa9\x98\x73\x62\x22\xa1\x0b\x07\x07\xb5\xd0\x80\x4f\x88\xb5\xb0\x14\xcd\x81\xee\xa6\x72\x51\x12\x76\x5a\xb3\xb7\xfe\x07\xe7\x87\x85\xc2\xf2\x9e\x8f\x97\xc8\xf6\xc3\x75\x0c\xc1\x6f\xa2\xc2\xeb\x4a\x28\x2b\xfe\xa2\xca\xc5\x76\x80\x61\xf1\xb6\xe8\x7b\xef\xfd\xb5\xc4\x56\xa8\xdf\xd1\x6d\x25\x61\x8e\x1a\x81\x56\xd5\x15\x7d\xc9\x1c\xe5\x1e\x3e\xd7\xc3\x9e\xee\x7f\x0d\xd4\x99\xca\xa8\x94\x36\x44\xba\xdc\xbe\xd3\x60\xcb\x03\xe1\x50\xf3\x04\x88\xcc\x66\x86\x00\xb9\x88\x27\xc4\x61\x57\x60\xfa\x8a\xf7\x77\x1d\xce\xdf\xe8\x35\x5c\x12\x6e\xe3\x32\x66\xf3\x82\x9e\xa0\x3b\xb5\xc5\xc3\x29\x39\xfe\x08\xdd\x3f\xc4\x9b\xd1\x0b\x88\xab\xa2\xdf\x58\x25\xe9\x7b\x5b\x01\x02\x81\xc0\x47\xb7\x27\xdd\xa1\x70\xa1\xb2\x1b\x50\xd9\xc9\x0e\x14\x1e\x9d\x50\x3f\x2f\xc8\xfe\xca\x11\xdb\x82\x22\xa3\x1f\x0d\xd2\x64\xe4\x7a\x99\x37\x32\x45\xc7\xc4\x1d\x37\xca\x2d\x3f\xcc\x3e\xe9\x6a\xa7\x55\xc3\xec\x90\xe0\x62\x59\x53\x56\xde\xf0\x91\x2d\x5b\x0f\xbd\xeb\xd3\x56\xb5\xe2\x56\xd3\xa8\xe0\xac\xe5\x25\xae\xe0\x8a\x76\xd8\xe1\x6c\xb8\xd0\xb8\xb7\xbd\x38\x78\x70\xbd\xbf\x8e\x92\xe1\x6d\xda\x02\x75\xb6\xc9\x82\x31\x54\x99\x16\x69\x7d\x16\xd6\xb3\xf7\x0d\x4d\x52\xef\x84\xdb\xf5\x88\x10\x0d\x12\xe5\x43\x00\x64\xd9\x79\xce\xd1\x3a\x01\xd1\x2e\x16\x8a\x51\xd3\x20\x9c\xb3\x44\x90\xe2\x92\xc4\xc2\x6c\xe3\x11\xda\x66\xa0\x72\xfa\x72\x83\xb1\xfe\x4b\xc5\x65\xcd\x0e\x2c\x10\x64\x60\x69\x56\x5c\xbd\x3b\xc4\x3e\x07\xe3\x0b\x7d\x9f\x84\x7a\x47\xa2\x34\x02\xd2\x04\x77", pub_der: b"\x30\x82\x01\x8a\x02\x82\x01\x81\x00\xc8\x5a\x50\x6e\x6f\xd9\xcf\xc6\x06\xa8\xde\x70\xc8\x90\x74\x7a\x3a\x6e\x8f\x62\x09\x91\x5e\x85\x9b\x8b\x24\xcf\x43\x06\x30\x40\xf5\x89\x7f\xcf\x4e\x2d\x31\x45\xb1\x35\x1f\x4d\xe6\x6a\xe7\x32\x54\x4e\x56\xb5\x20\x34\x9b\xd4\x6d\x69\xab\xf9\xf3\xda\xfc\xf7\xa2\xda\x0c\x1a\x1a\xbd\xbb\xff\x73\x65\x49\x42\x82\x36\x2f\xe1\x8a\x80\x5a\xed\xb4\x7e\xb6\x08\x4d\xd0\x56\xb9\x94\x28\x52\x51\x2c\x22\x9f\x18\xa4\x3d\x2e\x54\x1e\xc5\x82\x19\x8d\xb6\x3d\x8f\x34\x0c\xb7\xcc\x17\x56\xc8\xe7\x0f\x76\x87\x41\xd9\x7f\xf5\xf4\x17\x13\x3c\x6f\x8a\xe6\x66\x81\x6b\x4a\x36\xb8\x67\x3c\x28\x68\x31\x44\x1b\x9a\x87\xcc\x87\xef\x3b\x13\xed\x86\xcd\x0a\xff\x98\xca\x0f\xd9\x4f\x72\xf5\x27\xdc\xcd\x1c\xc7\x5f\x93\x0d\x0a\x52\x77\x15\xc4\x73\x05\xc0\x3f\x38\xd9\x76\xca\x36\x6d\x8d\x13\x1e\xe4\x0c\x56\x0a\x4a\xb9\xdb\xa2\xc3\x28\xf3\x74\x5c\x4a\xbc\x7a\x5c\xa5\xae\x1e\x4e\x94\x67\x1a\x09\x82\x00\x42\x2e\x13\x83\x5a\x96\x70\xc1\xfe\x90\x93\x57\x45\x41\xff\x63\x38\x56\x16\x74\x7a\xb0\xcf\xcd\xde\xd7\x1d\x04\x2c\x54\x6e\x22\x1c\xec\x33\x6f\xa6\x02\xf4\x06\x6d\xd4\xeb\xcd\x59\xc5\xf3\xb5\x7b\x20\x3a\x65\xfc\x38\xc4\xc2\x96\xb9\x64\xab\xb1\xb3\x33\x4c\xc7\x6c\x13\x50\x42\x2a\x57\xb3\xe9\x1e\xde\x0d\x6b\x38\xbe\xa0\x45\x60\xd4\xa7\x67\x12\x59\xc0\x8a\x6d\x4a\x44\x93\xad\x52\x6b\x2d\xce\xa3\x88\xa7\xb8\xd6\xbb\x4a\xf5\x3f\x20\x80\x96\xb3\x73\xe3\xc3\xad\x67\x34\x8a\xde\x8a\x70\x68\x3f\xa3\x6f\x4c\xe0\x9f\x37\xd6\x63\xcf\x45\x56\xca\x10\x0d\x30\x25\xb2\xc7\xb5\xda\xc5\xf1\x71\xb4\x82\x65\xbc\x34\x67\x6e\xe4\xfd\x74\xdc\xa5\xe0\x99\x8a\x33\xf6\x6e\x31\x02\x03\x01\x00\x01", p: b"\xee\x98\xf5\x56\xb5\x05\x68\x29\x13\xcb\xeb\x78\x52\xd8\xc4\x08\xf0\x67\x10\x0b\xe5\x52\x59\x77\xb7\xa6\xb2\xb7\x39\x6b\x4d\xd0\xc0\x85\x99\x14\x14\x9a\x15\x89\x38\x78\x13\x62\xf2\xb8\xbc\x20\x1f\xe4\x49\xd2\xf2\xfd\x91\xc7\xbb\xec\x52\x22\x13\x5a\x57\x09\xe2\x74\x95\x8a\x8f\xfb\xb6\x08\x6a\xbc\xf5\x55\xa3\x4b\xf7\x22\x7f\xbf\x9d\xed\x54\xef\x9c\x32\x4b\xc4\xec\x7a\xf8\x86\x1d\xed\xa3\x95\x0d\x49\x25\xeb\x42\x90\xd9\xca\x76\x1f\x0d\x11\x06\xfd\xf7\xad\x04\x37\xa5\x1d\x1e\xbc\xcd\xec\xec\xce\xa2\xeb\x33\xf1\x02\x9f\x05\xea\xf6\x94\x81\xe6\xae\x6f\xbe\x2b\xe6\x01\x73\x68\xbd\x81\x2a\xb2\x57\xd1\xa2\xed\x39\xe9\xa3\x78\xac\xaa\xb0\xd5\xad\x25\xfb\x70\x7e\x57\x5d\xa5\xc4\x66\x0d\xda\xa8\x5a\x1d\xa2\x43\xf7\x30\x2e\x1c\xee\x3e\xd9\x94\xf8\xf7\x10\x8f\x5f\x8b\xe7", q: b"\xd6\xf7\x42\x44\x76\x02\xcc\x65\xdd\x42\xbe\x02\x39\xc7\xaf\x0e\xcb\x87\x9b\x3b\xa0\x5c\xd0\x3e\x7f\x85\x5d\x27\xc4\xbb\xc7\x0a\x53\xb3\xa1\x26\xba\x85\x56\x0a\x75\x3d\xfa\x0c\xaf\xa7\x9e\x11\x42\x85\xbe\xce\xbc\xd3\x5f\x9d\xee\x6e\x15\xf4\x0b\x03\x3f\x2e\xe0\xeb\x67\xed\xc1\xd3\xdf\x3f\x88\xd6\xd4\xae\x2f\x1a\xa4\x7b\x2c\x76\x7c\xab\x94\x65\xe2\x35\x0c\x60\x87\x72\x45\x76\xf5\xb7\x17\x59\xaf\x90\xec\x98\x35\xbe\x8d\xad\xc1\x80\x66\x6a\x04\x1e\x96\x75\x28\x09\x05\x69\x5d\x1e\xa2\xb5\x92\xcf\x0b\x33\xac\xc7\x07\x52\x66\x76\x70\xaf\x1f\x38\x55\x47\x55\x1d\x85\x88\x5c\x24\x68\xbd\x30\xe2\xbf\xd0\xe3\x5f\x66\x57\xeb\xe4\x46\x8d\x71\x0b\x04\xe2\x51\x48\x71\x7c\x0d\xd7\x59\xcd\xd2\xbb\x2d\x23\xa6\x85\x60\x52\x6d\xf4\x92\x15\x40\x4d\x89\x58\x9d\x59\x89\xa3\x32\x27", d: b"\x01\xb0\x01\x0d\x6d\x13\xc0\x94\x42\x6a\x19\xb5\x89\x7a\xee\x00\x39\x8d\xc4\xd7\x66\x8d\x3a\xe6\x95\x30\xce\xd6\x90\x11\xf5\x46\x16\xcb\x59\xb0\x3d\x50\x54\x21\xea\x24\x30\x67\x4f\x91\x86\xf0\xfd\x94\xcb\x56\x2b\x37\x46\x38\xbb\xd3\x30\x07\xa2\xee\x2d\x43\x48\xb3\xdd\x76\x3a\xd3\x6e\x49\xf0\x86\xe1\xdf\x15\x89\xaf\x4d\x8f\x05\x15\xbe\xfa\xce\x36\x6a\x4b\x7d\x7d\xbd\x82\x69\xf4\x87\x8a\x7f\xa0\x27\x6c\xfa\xb6\xf1\x2e\x71\x2b\x6f\x5b\xaa\x35\x4a\x87\x7d\xb3\xee\x9c\x23\xb6\xfd\x7b\x3b\xdc\x57\xc9\xa5\x32\x45\x24\x0c\x9d\x6d\xb3\x15\xcd\xb7\x39\x58\x1e\xad\xde\xf0\xba\xc6\x65\xe3\xd4\xf7\xb0\x3d\x20\xc7\xfb\x0f\x67\xe8\xc2\xc1\x5c\xf5\xc4\x7d\xed\xae\xa5\xa1\x3a\xfc\xb9\x1d\x8c\xf0\x59\x24\xba\xf9\x86\xd7\x40\x18\x57\xec\x0e\x9c\x43\xf8\xa4\x2b\x61\x30\xd7\x00\x5f\xc9\x5b\xd8\x43\xc4\x13\x4c\x2f\x70\xd9\x3e\xa9\x69\x1d\xc5\x1e\xe5\x6b\xb8\xb3\x68\x7a\xe3\xe4\x59\xa4\xf4\xb0\xea\xa4\xe3\x9e\x0d\x29\xaf\x94\x69\x8d\x8a\xa9\x5d\x14\xc3\xe3\xff\x9c\xa9\x11\x67\xfa\x09\x51\xd3\x6a\x35\x12\x29\xa8\x5f\x76\x4c\x5e\xd0\x74\xc0\xa2\x72\xae\xf0\x05\xe8\xe0\x84\xbe\x4e\xfa\xf0\xd5\xbb\x86\x23\x8d\x76\xad\xd1\xf2\xe7\xb5\x6c\xa0\x6e\xf6\x04\x69\xee\x49\x89\xf0\xca\xc7\xa7\xdb\xa9\xa8\x51\x97\x80\x0e\x47\xba\xf1\x45\xbb\xd2\x1b\xec\xf0\x09\x38\xc4\x0a\x17\x49\xd7\x7c\x46\x8d\xd6\x43\x48\x2e\xdf\x6b\x46\xdf\x63\x85\x8c\xaa\xc0\x23\x4c\x9b\xb4\x55\x45\x0f\xc3\xd6\x0e\xf0\xc3\xd3\x73\x26\xbc\xd3\x19\x5a\xc7\xa8\x7a\x24\xb3\x85\xfd\xe3\xba\xf3\x44\xeb\x48\x9d\x8d\x6c\xa8\x76\xe9\xcb\x22\x89\x40\x70\x8e\xfb\xbd\x67\x4f\xd2\xcd\xa1", dp: b"\x64\x4a\xef\x75\xcf\x09\xc2\xca\xe1\x83\x6a\x2b\x5d\xc7\xb8\x3f\x79\xae\x18\xd4\xa7\x44\x82\x4f\x0c\x67\x89\xdf\xf2\xc6\xe4\x22\xc7\x8a\x60\xda\x4b\xfe\xa8\xe6\xd1\x51\xc7\xf4\x63\xca\xbb\x69\x55\x7e\x84\x79\xa3\xa2\x6a\xd0\xe6\x71\x63\xe4\xe6\xf5\xa6\x78\x85\x34\x34\x57\xd6\x46\x1c\x32\x55\x8b\xb0\x24\x9b\x4b\xa7\x4a\x5d\x20\x92\xa5\xdc\x7a\x0b\xd2\x28\x7f\x52\x58\x2e\x77\x51\xc5\x3e\x69\xbc\xf7\xee\x74\x81\xba\x99\x91\xbd\x2d\x38\x34\xdc\x17\x8d\x30\xb1\x01\x22\xea\xa6\xac\xfe\x72\x84\xe8\x27\x1b\x6e\xed\xf4\x08\x1c\x58\xb3\xe5\xa0\xe4\xf2\x96\x0d\xfe\x2d\xe4\x96\x3a\x84\xcd\xf2\xc0\x9c\xa1\x86\x36\xe9\x8d\x08\x26\x05\x8e\x8a\x5e\x87\x35\xdc\x07\x61\x54\x20\x0d\x3a\x0d\x1b\xed\xb9\xae\x87\x9e\x59\xab\x62\x19\x40\x17\xf5\x5b\x48\x7f\x8e\x7a\xeb\x89\x62\x29", dq: b"\x40\x3c\xa3\x10\xd2\x33\x03\xe1\x6c\xbd\x05\x0a\xa5\x39\x86\x96\x65\x3b\xa0\xa7\xb0\xc4\x0b\x76\xa1\xa4\xb8\xb1\xa9\x98\x73\x62\x22\xa1\x0b\x07\x07\xb5\xd0\x80\x4f\x88\xb5\xb0\x14\xcd\x81\xee\xa6\x72\x51\x12\x76\x5a\xb3\xb7\xfe\x07\xe7\x87\x85\xc2\xf2\x9e\x8f\x97\xc8\xf6\xc3\x75\x0c\xc1\x6f\xa2\xc2\xeb\x4a\x28\x2b\xfe\xa2\xca\xc5\x76\x80\x61\xf1\xb6\xe8\x7b\xef\xfd\xb5\xc4\x56\xa8\xdf\xd1\x6d\x25\x61\x8e\x1a\x81\x56\xd5\x15\x7d\xc9\x1c\xe5\x1e\x3e\xd7\xc3\x9e\xee\x7f\x0d\xd4\x99\xca\xa8\x94\x36\x44\xba\xdc\xbe\xd3\x60\xcb\x03\xe1\x50\xf3\x04\x88\xcc\x66\x86\x00\xb9\x88\x27\xc4\x61\x57\x60\xfa\x8a\xf7\x77\x1d\xce\xdf\xe8\x35\x5c\x12\x6e\xe3\x32\x66\xf3\x82\x9e\xa0\x3b\xb5\xc5\xc3\x29\x39\xfe\x08\xdd\x3f\xc4\x9b\xd1\x0b\x88\xab\xa2\xdf\x58\x25\xe9\x7b\x5b\x01", iq: b"\x47\xb7\x27\xdd\xa1\x70\xa1\xb2\x1b\x50\xd9\xc9\x0e\x14\x1e\x9d\x50\x3f\x2f\xc8\xfe\xca\x11\xdb\x82\x22\xa3\x1f\x0d\xd2\x64\xe4\x7a\x99\x37\x32\x45\xc7\xc4\x1d\x37\xca\x2d\x3f\xcc\x3e\xe9\x6a\xa7\x55\xc3\xec\x90\xe0\x62\x59\x53\x56\xde\xf0\x91\x2d\x5b\x0f\xbd\xeb\xd3\x56\xb5\xe2\x56\xd3\xa8\xe0\xac\xe5\x25\xae\xe0\x8a\x76\xd8\xe1\x6c\xb8\xd0\xb8\xb7\xbd\x38\x78\x70\xbd\xbf\x8e\x92\xe1\x6d\xda\x02\x75\xb6\xc9\x82\x31\x54\x99\x16\x69\x7d\x16\xd6\xb3\xf7\x0d\x4d\x52\xef\x84\xdb\xf5\x88\x10\x0d\x12\xe5\x43\x00\x64\xd9\x79\xce\xd1\x3a\x01\xd1\x2e\x16\x8a\x51\xd3\x20\x9c\xb3\x44\x90\xe2\x92\xc4\xc2\x6c\xe3\x11\xda\x66\xa0\x72\xfa\x72\x83\xb1\xfe\x4b\xc5\x65\xcd\x0e\x2c\x10\x64\x60\x69\x56\x5c\xbd\x3b\xc4\x3e\x07\xe3\x0b\x7d\x9f\x84\x7a\x47\xa2\x34\x02\xd2\x04\x77" },
RsaKey { n: b"\x4e\x69\x5e\xf5\x55\xdc\x23\xfd\xac\x79\x44\x79\x51\x74\x14\xab\x66\x93\x11\xf7\x91\x19\x7a\xb4\x14\xdd\x4b\x1f\xf7\xfb\x1f\x05\xd6\xb7\x10\x62\xf7\xd1\x6a\x43\xb5\xbd\x99\xe6\x7f\x23\x41\x7d\x88\x46\x04\xd8\xd5\x40\x9d\x4d\xaa\x91\x73\x85\xdc\x0d\x61\xa6\x28\xc6\x06\x5f\x38\x02\x41\x75\x4d\x93\x97\xf3\xdb\xb9\x99\x6e\xc1\xa1\x7e\xdb\x14\x4c\xeb\xf0\x10\x77\xbe\x93\xb7\xee\x90\xe7\x8f\x32\x13\xd7\x64\x60\xc7\x76\x62\x86\x73\x4a\x40\x59\x21\x6b\x8a\x59\x45\xbd\x24\xb7\x1d\xfc\x3d\x4c\xe3\x18\x81\x75\x37\x1f\x02\xc4\xf3\x26\x93\xd2\x2b\xe1\x43\xd8\x72\xbf\x74\x2a\xb9\xf5\x2d\xd2\x33\x9d\x55\x04\x21\x05\x62\x06\xd5\x86\x5b\xc0\xe6\x7e\xfe\xc6\x19\x5b\x0c\xc4\x35\x89\x78\xc4\xa7\x4c\x42\xa6\xd9\x8c\x5b\xd7\x8c\xce\x2b\x81\x70\x70\x54\x88\xa1\x7a\x41\x30\xef\x30\xc9\x73\xf7\xf0\x99\x40\x39\x26\xe8\x47\x93\x38\x0c\x84\x00\xad\xf3\x5f\x60\x47\xf8\x29\x6f\xb3\xe3\x3b\xa7\x4c\x83\x5f\x12\xff\x66\x4e\x7d\x89\xaa\xbf\x66\xf9\x6c\x21\xd6\x99\xf5\xc8\x88\x4c\xd5\xb6\xc2\xc5\x4a\xe8\xb6\x8a\x45\x80\x5e\xe9\xfa\x80\x64\x2b\x3e\x7d\xea\xa2\xd7\x53\xcb\xc6\x55\xde\x31\x81\x58\xf9\x45\xea\x0b\x2c\xa7\x6a\xe1\x79\xe5\x30\xdf\x80\xa7\x79\xe8\xa6\xe6\x32\x76\x92\xa2\x80\x58\xd9\x92\x6e\x12\x80\xcc\x32\xb3\x86\x51\xf9\xaa\x8f\x6b\xa6\x3d\x0a\x35\x1d\x28\xe9\x8d\xbe\xe1\xba\x77\xc7\xec\xdd\x25\xf2\x91\x3e\x99\xda\x17\x72\x01\xd9\xea\x5f\x8b\x7b\x1d\x75\x62\xd5\x00\xcd\x03\xbb\xa6\x73\xbe\x1b\x22\x94\x4c\xb3\xab\xa9\xcd\x35\x79\x44\x02\xd7\xce\xcf\x0b\x73\x41\x7a\xd0\xb4\x98\x5a\x07\x19\x0d\x5b\xe1\xd4\xa1\xa2\x45\xe7\xd6\x59\x96\x25\x23\xb6\xfa\x64\x4b\x6b\xf8\x7d\xb6\x9b\x12\xce\x63\x46\xa9\x26\xf3\x6c\x95\xaf\x0c\x3c\x5f\x9b\xd5\xe7\x28\x72\x67\xa5\x91\x26\x28\x5e\x45\xcf\x90\x6c\x78\x07\xbe\x98\x9a\x41\xec\xe4\xb7\x99\x1c\x66\x69\x8d\xb5\xd8\xfc\x32\xce\x79\x06\x64\x7c\xe3\x79\xc1\x3d\xa1\x72\x80\x64\x23\xea\x0d\x1c\xdd\xf7\xdb\x76\x00\xf4\x93\x68\x06\x86\xfb\x14\xf7\x08\x50\x96\x40\x04\xc7\xe4\xaa\x5f\xbb\x12\x99\xfb\x61\x64\x49\x8d\xd3\x82\x9a\x7c\x13\x40\x92\x30\x14\x0c\xc2\x00\x27\x23\xd8\xfd\x0e\x87\xed\x03\x49\x93\xd9\xe9\x7b", bits: 4095, e: 65537, priv_der: b"\x30\x82\x09\x25\x02\x01\x00\x02\x82\x02\x00\x4e\x69\x5e\xf5\x55\xdc\x23\xfd\xac\x79\x44\x79\x51\x74\x14\xab\x66\x93\x11\xf7\x91\x19\x7a\xb4\x14\xdd\x4b\x1f\xf7\xfb\x1f\x05\xd6\xb7\x10\x62\xf7\xd1\x6a\x43\xb5\xbd\x99\xe6\x7f\x23\x41\x7d\x88\x46\x04\xd8\xd5\x40\x9d\x4d\xaa\x91\x73\x85\xdc\x0d\x61\xa6\x28\xc6\x06\x5f\x38\x02\x41\x75\x4d\x93\x97\xf3\xdb\xb9\x99\x6e\xc1\xa1\x7e\xdb\x14\x4c\xeb\xf0\x10\x77\xbe\x93\xb7\xee\x90\xe7\x8f\x32\x13\xd7\x64\x60\xc7\x76\x62\x86\x73\x4a\x40\x59\x21\x6b\x8a\x59\x45\xbd\x24\xb7\x1d\xfc\x3d\x4c\xe3\x18\x81\x75\x37\x1f\x02\xc4\xf3\x26\x93\xd2\x2b\xe1\x43\xd8\x72\xbf\x74\x2a\xb9\xf5\x2d\xd2\x33\x9d\x55\x04\x21\x05\x62\x06\xd5\x86\x5b\xc0\xe6\x7e\xfe\xc6\x19\x5b\x0c\xc4\x35\x89\x78\xc4\xa7\x4c\x42\xa6\xd9\x8c\x5b\xd7\x8c\xce\x2b\x81\x70\x70\x54\x88\xa1\x7a\x41\x30\xef\x30\xc9\x73\xf7\xf0\x99\x40\x39\x26\xe8\x47\x93\x38\x0c\x84\x00\xad\xf3\x5f\x60\x47\xf8\x29\x6f\xb3\xe3\x3b\xa7\x4c\x83\x5f\x12\xff\x66\x4e\x7d\x89\xaa\xbf\x66\xf9\x6c\x21\xd6\x99\xf5\xc8\x88\x4c\xd5\xb6\xc2\xc5\x4a\xe8\xb6\x8a\x45\x80\x5e\xe9\xfa\x80\x64\x2b\x3e\x7d\xea\xa2\xd7\x53\xcb\xc6\x55\xde\x31\x81\x58\xf9\x45\xea\x0b\x2c\xa7\x6a\xe1\x79\xe5\x30\xdf\x80\xa7\x79\xe8\xa6\xe6\x32\x76\x92\xa2\x80\x58\xd9\x92\x6e\x12\x80\xcc\x32\xb3\x86\x51\xf9\xaa\x8f\x6b\xa6\x3d\x0a\x35\x1d\x28\xe9\x8d\xbe\xe1\xba\x77\xc7\xec\xdd\x25\xf2\x91\x3e\x99\xda\x17\x72\x01\xd9\xea\x5f\x8b\x7b\x1d\x75\x62\xd5\x00\xcd\x03\xbb\xa6\x73\xbe\x1b\x22\x94\x4c\xb3\xab\xa9\xcd\x35\x79\x44\x02\xd7\xce\xcf\x0b\x73\x41\x7a\xd0\xb4\x98\x5a\x07\x19\x0d\x5b\xe1\xd4\xa1\xa2\x45\xe7\xd6\x59\x96\x25\x23\xb6\xfa\x64\x4b\x6b\xf8\x7d\xb6\x9b\x12\xce\x63\x46\xa9\x26\xf3\x6c\x95\xaf\x0c\x3c\x5f\x9b\xd5\xe7\x28\x72\x67\xa5\x91\x26\x28\x5e\x45\xcf\x90\x6c\x78\x07\xbe\x98\x9a\x41\xec\xe4\xb7\x99\x1c\x66\x69\x8d\xb5\xd8\xfc\x32\xce\x79\x06\x64\x7c\xe3\x79\xc1\x3d\xa1\x72\x80\x64\x23\xea\x0d\x1c\xdd\xf7\xdb\x76\x00\xf4\x93\x68\x06\x86\xfb\x14\xf7\x08\x50\x96\x40\x04\xc7\xe4\xaa\x5f\xbb\x12\x99\xfb\x61\x64\x49\x8d\xd3\x82\x9a\x7c\x13\x40\x92\x30\x14\x0c\xc2\x00\x27\x23\xd8\xfd\x0e\x87\xed\x03\x49\x93\xd9\xe9\x7b\x02\x03\x01\x00\x01\x02\x82\x02\x00\x48\x89\x7b\xd9\xf3\x82\xc2\x1c\xc2\xf8\x30\x1b\x16\xfa\x0e\xc0\xfd\x14\x22\xb3\xe6\x1c\x2f\x01\xf6\xa7\x3c\xff\x26\xf5\xbd\x9e\x36\x22\x85\xdb\x38\x2c\x17\x64\xe9\xf4\xab\x31\xaa\xfd\x9f\x71\x14\xa6\xc9\x87\x19\xc8\x3b\x7d\x04\xc4\xa7\x9c\xf6\x93\xbe\x78\xeb\x11\x3e\x05\xca\x17\x74\x1c\xa3\x16\x5d\xa4\xae\xe8\x84\x83\x0c\x47\x6c\xc6\x18\x82\x8c\x65\x39\xa6\xbc\xbb\x84\x95\x02\xa1\xe4\x3b\x4c\x55\x9e\xbb\x54\xea\x34\x7c\xf2\x9c\x86\xe8\xad\x5d\x01\xd0\x52\x0e\x86\xaf\x8b\xe2\xb3\x86\xb4\x33\x10\x57\xb2\x15\x53\x07\x85\x74\x73\x9d\x23\x10\xb2\x25\xc3\x09\x4f\xda\xd2\xca\x78\x88\x13\x4d\x81\xbf\x5f\x18\xce\xb5\x49\xc4\x90\x8e\xe3\xec\x29\x9e\x73\x08\x62\xc8\x04\x4a\xd7\x58\xfc\xf7\x34\x55\x8b\xbd\x27\x9d\x40\xd9\xdd\x2f\x52\x27\xe8\x5b\xb9\x1e\x12\xbe\xc5\x17\x59\xd5\x99\x51\x8f\x43\xf5\x5b\x03\xd8\x6a\xdd\x97\xde\x69\x8e\x82\x2d\x02\x31\xb1\xe6\x0b\x3a\xdb\x84\x6c\xe1\x00\x4a\xec\x95\x2e\x3c\x80\x2f\xe1\xb0\x4c\xff\x82\x43\xcf\x76\x00\x04\x71\xea\xba\x6d\xe6\xc2\x82\xe8\xc3\x2d\x28\xdc\x77\x71\x76\x56\x5d\xd3\x02\xb0\x15\xc3\x27\x12\xee\x7f\xaa\xae\x55\xb6\x60\x76\x00\xcf\x06\x15\xfd\xcc\x5f\x18\x36\x83\xc0\xe2\x9f\x47\x6f\x2d\x5b\x74\xb3\xe3\xb9\xc1\x56\x4d\x5c\x4d\xde\x26\x10\x7a\x5f\x97\xf5\x4c\x80\x5e\xde\x3b\xca\x85\x4b\xee\x04\x99\x65\xdc\x4b\xda\x6d\xed\x9b\xdb\xe7\x08\x2d\xa5\x29\xcb\x78\xb3\x9c\xd0\xaf\xb6\xe6\xd6\xc3\x89\x59\x62\xbf\xf7\x64\xb3\x85\xf1\x02\x79\xc1\x6c\x62\x9c\x8f\xa2\xa3\x7a\x37\xb7\xcd\x8b\xd5\x2e\x48\x53\x9b\x76\xdc\x84\xe4\xbe\x67\x26\xcb\x54\xb7\x37\x78\x88\x76\x0e\x16\x55\x16\x1e\x06\xf8\x0e\x45\xdf\x2c\x24\xd3\xc4\xf4\x14\x3d\x04\xb5\xa1\x4d\x54\x35\x81\x20\xd2\x91\xbb\x25\x22\xbd\x24\xe7\x17\xe8\xf4\xa0\x17\x9c\xb4\x53\x84\xdf\x35\x87\x2a\xbf\x11\xfd\xc1\xb5\x11\x3e\x19\xf1\x32\x2c\x90\x73\xc6\x64\x57\x16\x3a\xa3\xdd\x5b\x3a\xea\x8d\x6b\xdb\x22\xb3\xa2\x85\x02\x39\x6d\x9d\x36\xe8\x48\x31\x95\xf8\x45\x07\xa7\x2a\x05\x44\xa8\x73\xb6\xc6\xb5\xb2\xfe\x66\xf3\xb4\x11\x7f\xf1\xe3\x2e\x9b\x6e\xed\x15\x99\x06\x7f\x9d\x04\x05\x3c\x93\x38\x01\x4c\x3b\x44\x28\x00\xfe\x04\x89\xce\xc5\x2c\x99\x02\x82\x01\x01\x00\xb1\x40\xee\x7a\xb9\x04\x87\x3f\xf7\xe5\x19\xa9\x9f\xb8\x0b\x98\x7c\x36\x49\x35\xdb\x21\x6a\x92\xa0\x45\x92\x96\x46\x3e\x53\x10\x3f\x70\xf0\x68\x47\x49\xf3\x15\x3e\x43\x86\x51\x75\x4d\x72\xc4\x5f\x37\x24\x4a\x04\x43\x6f\xd2\xa7\x19\xbb\x9c\x16\xb9\x0b\x29\xad\x55\x92\x92\x80\x55\xf8\x08\x11\x70\x14\x3a\xfe\xba\x53\x64\xae\x7d\x95\x2a\x5f\x7b\x3b\x0b\x06\x6e\x30\x75\xb2\x69\x2a\xfa\xb2\x8e\xb4\x7b\x59\x84\x45\x6f\xb4\x34\x6a\x20\x50\xc4\x70\xd0\x2e\x77\x2d\x2b\xbe\x88\x73\xdc\xa3\xd2\xc2\x06\xe7\xc8\x1f\x65\x5f\x93\xfb\x60\x8e\x3d\x9f\x4f\x4e\x94\x0b\x5d\xdf\x40\x8c\x7a\x8e\xa8\xb9\xc4\x22\x31\x6b\xa0\x0d\x56\x6b\x21\x93\xe2\x67\xc1\xf7\x85\xb3\x84\x9c\xd5\xb5\x3f\x3c\xda\xa9\x84\xa2\xc2\x23\x95\x54\xb0\x86\x1b\x7a\xa2\xaa\x0b\xcf\xfe\x9b\xa4\x9d\x0d\xe8\x67\x04\xa3\xb0\x03\x35\x55\x5f\x81\xe7\xb9\x34\xd2\x40\xc0\x97\xa7\x07\xed\xe4\x69\x95\x3a\xf9\xd1\xea\x6e\x69\xeb\xd7\x72\x16\x1a\x22\x59\xa6\x5f\xa0\xec\x92\x0b\xcf\xc3\x5a\x6e\xfa\xf8\xeb\xd9\x61\x48\x2d\x93\xc7\x43\x6b\x79\x6c\x55\x88\x1b\x12\xaf\xf2\x47\x02\x82\x01\x00\x71\x3f\x20\xcd\x9a\xcd\x6e\x39\x62\x9a\xea\x88\x24\x04\x13\x69\x77\x88\x0b\xd0\xbc\x54\x98\x8c\x33\xcf\xbb\x32\xad\xae\xfd\xcb\x77\x4c\xbd\xe4\x3b\x81\x3a\xbe\x75\xa1\x1e\xe9\x92\xe6\x4b\xdd\x69\x76\x71\x29\x1e\x0e\x4b\x5d\x24\xa4\xd6\x70\xa1\xec\xf5\x63\xec\x50\x56\x3c\x9b\x44\x6c\x90\x23\x16\x7b\x3a\x06\x5c\xf7\x00\xb7\x21\x77\xaf\xcd\x20\xb2\xc4\x50\xf9\x35\x84\xc1\x90\xd9\x2f\x09\xdb\x17\x41\x05\x4d\x99\x68\x24\xa0\xba\xc7\x26\x54\x08\x1b\x4d\x23\x48\x91\xc3\xf1\xc1\xfc\xf0\xfa\x84\xed\x80\x32\xde\x5c\x7f\x81\xe4\x7c\x14\x5c\x0c\x86\x8f\xaf\xab\x08\x73\x8f\xc9\xb4\x72\xb4\x52\xa9\x9d\x29\x1f\xd3\xa4\xfc\x2d\xea\xcf\xb7\x89\xfb\x57\x02\x9a\x57\x0a\x31\x7d\x6f\x52\x44\x55\x12\x6a\xd3\xa4\x67\xec\xe3\x83\x35\x02\x9f\xde\x42\x8d\x74\x8b\x6a\x29\x37\xa6\xec\x0e\x1a\xfb\x48\xb6\xea\x4e\x4f\x70\x9d\x53\x4a\xeb\xdb\xe7\xb2\x4b\x80\xbd\xfa\xf3\x2a\x14\x9c\x38\x0c\x63\xac\x55\x7e\x11\xce\x64\xe0\x84\xb0\xbe\xa5\x01\x3a\xa7\xb4\x0b\xbd\x2c\x78\xef\xa2\x3b\xcb\xd2\x65\x67\x0b\x9a\x9d\x03\x02\x0c\x24\x69\x4f\x95\x2d\x02\x82\x01\x00\x37\x75\x62\x68\x41\x65\x3a\x4f\xf8\x66\xd4\xfd\xae\x7c\x6e\x1c\x5a\x98\xbd\x95\x3d\x27\x9a\x69\x9f\xfd\xc4\x9c\x82\x03\xd4\x07\x5c\x62\x20\xc5\xef\xb0\x22\x7f\x3e\x08\xf0\x88\xa2\x14\x06\x59\x8c\x94\xfb\x24\xb1\x6a\xcc\x1c\xf3\xad\x68\x76\xb0\xe1\x5a\xad\xc2\x8e\xe8\x9a\x2f\xcf\x36\x18\x88\x24\x32\x20\x37\x3c\xe3\x04\xb8\x57\x90\x89\x3e\x70\x97\x0b\x9f\x0a\x70\xdd\x12\x62\x37\x51\x52\xf6\xb5\x5f\x76\xa5\x9c\xf8\x13\x40\xe7\x07\x8f\x5d\xb7\x12\x5b\xc7\x6b\xf9\xa8\xd6\x96\xb1\xad\x0c\x2f\x2a\xeb\xf0\x40\x6a\x7e\x5a\x15\xa7\xa3\x39\x82\x93\xd4\xb9\x1b\x49\x56\xa5\xa2\x8e\x61\xfe\x46\x89\x28\x4d\xa0\x27\xe6\xa4\x68\x46\x8c\x37\xa5\x51\x19\xf9\xda\x2e\x1e\xc7\xfa\xba\x7b\x76\xca\xdd\x35\xf3\x5a\x20\xc9\xeb\xa5\x3a\x09\xc7\xc5\x3e\x86\xe8\x59\x98\x4a\x8f\x64\x6c\x7f\x16\x1b\xe7\x15\x13\xce\x1b\x1d\xfe\x63\x99\x79\x2b\x09\x07\xf8\xc2\x24\xda\x28\x17\xd8\xbc\x26\x06\x3f\xdb\xcb\x7f\xe5\x8c\x6d\xbc\xf1\x02\x30\x9e\x74\x1f\x7f\xf4\xd6\x61\xac\xe2\x9f\x20\x57\x80\xb6\xc9\xea\xe9\x9c\x41\xd4\x74\x7a\x6e\x46\x0d\x88\xd7\x02\x82\x01\x00\x48\x04\xcb\x89\xb5\xde\xdb\x30\x27\x63\x39\xaf\xa6\xa7\xe8\xe8\x73\x99\xd3\x59\xc5\xcb\x4e\xd0\x2a\xca\xfa\xd3\xb9\xdc\xc5\x8e\x35\xaa\x5a\x40\xe1\x0e\xc8\x1b\x03\x97\x99\x9f\x15\x4a\xdc\x08\x4c\xdf\x84\x0b\x90\x0f\xab\x21\xeb\x01\xe1\x55\xf3\xc4\x4c\x32\x65\xc0\x99\x77\x25\x8f\x18\x33\x79\xfc\xfc\x14\xe4\xa3\x0e\x7a\x27\xfc\x62\xaf\x2c\x96\x94\xd9\x80\x5d\x5c\x09\xb7\x47\xb4\xb6\xd3\x5f\xbf\xa4\x1c\x09\x43\x7c\x15\x7f\x1a\x09\x38\x78\xcc\x47\x00\x81\x65\xcf\x3d\x7b\x6b\xd0\xbe\x37\xb3\x7d\x8e\xbf\xca\xe5\xac\x39\x20\xe3\x3f\xd7\x62\x27\xd9\x0c\xf0\x8a\x09\x63\xf1\xf4\x8d\xd5\xdb\x93\xfe\x5c\x7e\xdf\x0b\xd7\x4c\x24\x3e\x41\x0c\xc1\x08\x8e\xa1\x34\xa5\x48\xdf\xea\x81\xb8\xef\x19\x2d\x52\xb7\x05\x58\x83\x3f\x97\xe0\xb9\x66\x91\x90\x80\x03\x81\x5a\x01\x08\x68\xaa\x77\xc2\x42\x76\x01\x00\x18\x49\x17\xe4\x36\x8b\x54\x68\x3e\xdd\x01\x5c\xd0\x50\xff\xfb\xe7\x75\x45\x7b\xc5\xc7\x00\xcb\xb6\x24\x35\x1c\x6d\x82\x70\x51\x1d\xca\x35\x18\x1a\x10\x44\x40\xb1\x3d\xb1\xdb\x75\x9d\x58\xa5\xd5\x20\x6a\x96\xea\x39\x06\xe1\x69\x02\x82\x01\x00\x64\x45\xd8\xc8\xa1\x00\xd7\x2e\x51\xfe\xa8\x66\x59\x8b\x1c\x01\x25\xcb\x7e\x53\x1b\x01\x87\x56\xb4\x7c\x80\x78\x7c\x81\x7d\xdf\xfd\x6c\x3d\xbf\x1e\xd8\x11\x66\x87\x11\xa4\xba\xe1\x0c\xa2\xe8\xe0\x33\x90\x7e\x9b\x7f\x06\x53\x11\xf7\x2d\x39\xcc\x36\xbe\x60\x57\xd4\x7a\x82\x0c\x77\x2e\x88\xd8\x35\xd9\x71\x82\x33\x82\xc7\x5f\x8f\x54\x82\x81\x4a\xd9\xc2\x81\xa4\x2e\xaf\x6f\x7d\x6c\xdd\x28\x67\x33\x9c\x3e\x41\x1d\x6b\x75\x49\xb7\x5c\xa6\x54\x0f\xaa\x3c\x34\xdd\xde\x9a\x1b\x57\x28\x46\xd7\x04\x46\xd0\x20\xaa\xb5\xa1\x73\x70\x91\x48\x18\x78\x8f\x1d\x04\x71\x5b\xf1\xec\x29\x5c\x26\xf8\xea\xa2\x8a\xc2\x23\xf8\x86\xe6\x0b\xb9\x98\x28\xb2\x63\x39\xf2\x59\x05\x3d\x22\x24\x5e\x6a\x17\xb7\x4a\x8b\x6d\x3f\x57\x04\xb1\xdf\x04\x2d\xa1\x2f\xbc\xae\xd9\xd9\xe2\x2e\x87\xd2\x0a\x3d\x29\xee\x69\xce\x55\x14\x87\xa7\x4c\xe2\xfa\xda\x60\x1d\xde\xba\x1e\x85\x30\x96\xc2\x6a\x79\xe4\xea\x79\x63\x1f\x54\xab\x88\x7d\x4a\xca\xe6\x5f\xae\x33\xe4\xe3\x7a\x43\x11\x5a\xe6\x26\x92\xb9\xf5\x0d\xde\x27\x98\x16\xb6\x1e\x2c\x45\x8c\x17\x23\xe6\x82", pub_der: b"\x30\x82\x02\x09\x02\x82\x02\x00\x4e\x69\x5e\xf5\x55\xdc\x23\xfd\xac\x79\x44\x79\x51\x74\x14\xab\x66\x93\x11\xf7\x91\x19\x7a\xb4\x14\xdd\x4b\x1f\xf7\xfb\x1f\x05\xd6\xb7\x10\x62\xf7\xd1\x6a\x43\xb5\xbd\x99\xe6\x7f\x23\x41\x7d\x88\x46\x04\xd8\xd5\x40\x9d\x4d\xaa\x91\x73\x85\xdc\x0d\x61\xa6\x28\xc6\x06\x5f\x38\x02\x41\x75\x4d\x93\x97\xf3\xdb\xb9\x99\x6e\xc1\xa1\x7e\xdb\x14\x4c\xeb\xf0\x10\x77\xbe\x93\xb7\xee\x90\xe7\x8f\x32\x13\xd7\x64\x60\xc7\x76\x62\x86\x73\x4a\x40\x59\x21\x6b\x8a\x59\x45\xbd\x24\xb7\x1d\xfc\x3d\x4c\xe3\x18\x81\x75\x37\x1f\x02\xc4\xf3\x26\x93\xd2\x2b\xe1\x43\xd8\x72\xbf\x74\x2a\xb9\xf5\x2d\xd2\x33\x9d\x55\x04\x21\x05\x62\x06\xd5\x86\x5b\xc0\xe6\x7e\xfe\xc6\x19\x5b\x0c\xc4\x35\x89\x78\xc4\xa7\x4c\x42\xa6\xd9\x8c\x5b\xd7\x8c\xce\x2b\x81\x70\x70\x54\x88\xa1\x7a\x41\x30\xef\x30\xc9\x73\xf7\xf0\x99\x40\x39\x26\xe8\x47\x93\x38\x0c\x84\x00\xad\xf3\x5f\x60\x47\xf8\x29\x6f\xb3\xe3\x3b\xa7\x4c\x83\x5f\x12\xff\x66\x4e\x7d\x89\xaa\xbf\x66\xf9\x6c\x21\xd6\x99\xf5\xc8\x88\x4c\xd5\xb6\xc2\xc5\x4a\xe8\xb6\x8a\x45\x80\x5e\xe9\xfa\x80\x64\x2b\x3e\x7d\xea\xa2\xd7\x53\xcb\xc6\x55\xde\x31\x81\x58\xf9\x45\xea\x0b\x2c\xa7\x6a\xe1\x79\xe5\x30\xdf\x80\xa7\x79\xe8\xa6\xe6\x32\x76\x92\xa2\x80\x58\xd9\x92\x6e\x12\x80\xcc\x32\xb3\x86\x51\xf9\xaa\x8f\x6b\xa6\x3d\x0a\x35\x1d\x28\xe9\x8d\xbe\xe1\xba\x77\xc7\xec\xdd\x25\xf2\x91\x3e\x99\xda\x17\x72\x01\xd9\xea\x5f\x8b\x7b\x1d\x75\x62\xd5\x00\xcd\x03\xbb\xa6\x73\xbe\x1b\x22\x94\x4c\xb3\xab\xa9\xcd\x35\x79\x44\x02\xd7\xce\xcf\x0b\x73\x41\x7a\xd0\xb4\x98\x5a\x07\x19\x0d\x5b\xe1\xd4\xa1\xa2\x45\xe7\xd6\x59\x96\x25\x23\xb6\xfa\x64\x4b\x6b\xf8\x7d\xb6\x9b\x12\xce\x63\x46\xa9\x26\xf3\x6c\x95\xaf\x0c\x3c\x5f\x9b\xd5\xe7\x28\x72\x67\xa5\x91\x26\x28\x5e\x45\xcf\x90\x6c\x78\x07\xbe\x98\x9a\x41\xec\xe4\xb7\x99\x1c\x66\x69\x8d\xb5\xd8\xfc\x32\xce\x79\x06\x64\x7c\xe3\x79\xc1\x3d\xa1\x72\x80\x64\x23\xea\x0d\x1c\xdd\xf7\xdb\x76\x00\xf4\x93\x68\x06\x86\xfb\x14\xf7\x08\x50\x96\x40\x04\xc7\xe4\xaa\x5f\xbb\x12\x99\xfb\x61\x64\x49\x8d\xd3\x82\x9a\x7c\x13\x40\x92\x30\x14\x0c\xc2\x00\x27\x23\xd8\xfd\x0e\x87\xed\x03\x49\x93\xd9\xe9\x7b\x02\x03\x01\x00\x01", p: b"\xb1\x40\xee\x7a\xb9\x04\x87\x3f\xf7\xe5\x19\xa9\x9f\xb8\x0b\x98\x7c\x36\x49\x35\xdb\x21\x6a\x92\xa0\x45\x92\x96\x46\x3e\x53\x10\x3f\x70\xf0\x68\x47\x49\xf3\x15\x3e\x43\x86\x51\x75\x4d\x72\xc4\x5f\x37\x24\x4a\x04\x43\x6f\xd2\xa7\x19\xbb\x9c\x16\xb9\x0b\x29\xad\x55\x92\x92\x80\x55\xf8\x08\x11\x70\x14\x3a\xfe\xba\x53\x64\xae\x7d\x95\x2a\x5f\x7b\x3b\x0b\x06\x6e\x30\x75\xb2\x69\x2a\xfa\xb2\x8e\xb4\x7b\x59\x84\x45\x6f\xb4\x34\x6a\x20\x50\xc4\x70\xd0\x2e\x77\x2d\x2b\xbe\x88\x73\xdc\xa3\xd2\xc2\x06\xe7\xc8\x1f\x65\x5f\x93\xfb\x60\x8e\x3d\x9f\x4f\x4e\x94\x0b\x5d\xdf\x40\x8c\x7a\x8e\xa8\xb9\xc4\x22\x31\x6b\xa0\x0d\x56\x6b\x21\x93\xe2\x67\xc1\xf7\x85\xb3\x84\x9c\xd5\xb5\x3f\x3c\xda\xa9\x84\xa2\xc2\x23\x95\x54\xb0\x86\x1b\x7a\xa2\xaa\x0b\xcf\xfe\x9b\xa4\x9d\x0d\xe8\x67\x04\xa3\xb0\x03\x35\x55\x5f\x81\xe7\xb9\x34\xd2\x40\xc0\x97\xa7\x07\xed\xe4\x69\x95\x3a\xf9\xd1\xea\x6e\x69\xeb\xd7\x72\x16\x1a\x22\x59\xa6\x5f\xa0\xec\x92\x0b\xcf\xc3\x5a\x6e\xfa\xf8\xeb\xd9\x61\x48\x2d\x93\xc7\x43\x6b\x79\x6c\x55\x88\x1b\x12\xaf\xf2\x47", q: b"\x71\x3f\x20\xcd\x9a\xcd\x6e\x39\x62\x9a\xea\x88\x24\x04\x13\x69\x77\x88\x0b\xd0\xbc\x54\x98\x8c\x33\xcf\xbb\x32\xad\xae\xfd\xcb\x77\x4c\xbd\xe4\x3b\x81\x3a\xbe\x75\xa1\x1e\xe9\x92\xe6\x4b\xdd\x69\x76\x71\x29\x1e\x0e\x4b\x5d\x24\xa4\xd6\x70\xa1\xec\xf5\x63\xec\x50\x56\x3c\x9b\x44\x6c\x90\x23\x16\x7b\x3a\x06\x5c\xf7\x00\xb7\x21\x77\xaf\xcd\x20\xb2\xc4\x50\xf9\x35\x84\xc1\x90\xd9\x2f\x09\xdb\x17\x41\x05\x4d\x99\x68\x24\xa0\xba\xc7\x26\x54\x08\x1b\x4d\x23\x48\x91\xc3\xf1\xc1\xfc\xf0\xfa\x84\xed\x80\x32\xde\x5c\x7f\x81\xe4\x7c\x14\x5c\x0c\x86\x8f\xaf\xab\x08\x73\x8f\xc9\xb4\x72\xb4\x52\xa9\x9d\x29\x1f\xd3\xa4\xfc\x2d\xea\xcf\xb7\x89\xfb\x57\x02\x9a\x57\x0a\x31\x7d\x6f\x52\x44\x55\x12\x6a\xd3\xa4\x67\xec\xe3\x83\x35\x02\x9f\xde\x42\x8d\x74\x8b\x6a\x29\x37\xa6\xec\x0e\x1a\xfb\x48\xb6\xea\x4e\x4f\x70\x9d\x53\x4a\xeb\xdb\xe7\xb2\x4b\x80\xbd\xfa\xf3\x2a\x14\x9c\x38\x0c\x63\xac\x55\x7e\x11\xce\x64\xe0\x84\xb0\xbe\xa5\x01\x3a\xa7\xb4\x0b\xbd\x2c\x78\xef\xa2\x3b\xcb\xd2\x65\x67\x0b\x9a\x9d\x03\x02\x0c\x24\x69\x4f\x95\x2d", d: b"\x48\x89\x7b\xd9\xf3\x82\xc2\x1c\xc2\xf8\x30\x1b\x16\xfa\x0e\xc0\xfd\x14\x22\xb3\xe6\x1c\x2f\x01\xf6\xa7\x3c\xff\x26\xf5\xbd\x9e\x36\x22\x85\xdb\x38\x2c\x17\x64\xe9\xf4\xab\x31\xaa\xfd\x9f\x71\x14\xa6\xc9\x87\x19\xc8\x3b\x7d\x04\xc4\xa7\x9c\xf6\x93\xbe\x78\xeb\x11\x3e\x05\xca\x17\x74\x1c\xa3\x16\x5d\xa4\xae\xe8\x84\x83\x0c\x47\x6c\xc6\x18\x82\x8c\x65\x39\xa6\xbc\xbb\x84\x95\x02\xa1\xe4\x3b\x4c\x55\x9e\xbb\x54\xea\x34\x7c\xf2\x9c\x86\xe8\xad\x5d\x01\xd0\x52\x0e\x86\xaf\x8b\xe2\xb3\x86\xb4\x33\x10\x57\xb2\x15\x53\x07\x85\x74\x73\x9d\x23\x10\xb2\x25\xc3\x09\x4f\xda\xd2\xca\x78\x88\x13\x4d\x81\xbf\x5f\x18\xce\xb5\x49\xc4\x90\x8e\xe3\xec\x29\x9e\x73\x08\x62\xc8\x04\x4a\xd7\x58\xfc\xf7\x34\x55\x8b\xbd\x27\x9d\x40\xd9\xdd\x2f\x52\x27\xe8\x5b\xb9\x1e\x12\xbe\xc5\x17\x59\xd5\x99\x51\x8f\x43\xf5\x5b\x03\xd8\x6a\xdd\x97\xde\x69\x8e\x82\x2d\x02\x31\xb1\xe6\x0b\x3a\xdb\x84\x6c\xe1\x00\x4a\xec\x95\x2e\x3c\x80\x2f\xe1\xb0\x4c\xff\x82\x43\xcf\x76\x00\x04\x71\xea\xba\x6d\xe6\xc2\x82\xe8\xc3\x2d\x28\xdc\x77\x71\x76\x56\x5d\xd3\x02\xb0\x15\xc3\x27\x12\xee\x7f\xaa\xae\x55\xb6\x60\x76\x00\xcf\x06\x15\xfd\xcc\x5f\x18\x36\x83\xc0\xe2\x9f\x47\x6f\x2d\x5b\x74\xb3\xe3\xb9\xc1\x56\x4d\x5c\x4d\xde\x26\x10\x7a\x5f\x97\xf5\x4c\x80\x5e\xde\x3b\xca\x85\x4b\xee\x04\x99\x65\xdc\x4b\xda\x6d\xed\x9b\xdb\xe7\x08\x2d\xa5\x29\xcb\x78\xb3\x9c\xd0\xaf\xb6\xe6\xd6\xc3\x89\x59\x62\xbf\xf7\x64\xb3\x85\xf1\x02\x79\xc1\x6c\x62\x9c\x8f\xa2\xa3\x7a\x37\xb7\xcd\x8b\xd5\x2e\x48\x53\x9b\x76\xdc\x84\xe4\xbe\x67\x26\xcb\x54\xb7\x37\x78\x88\x76\x0e\x16\x55\x16\x1e\x06\xf8\x0e\x45\xdf\x2c\x24\xd3\xc4\xf4\x14\x3d\x04\xb5\xa1\x4d\x54\x35\x81\x20\xd2\x91\xbb\x25\x22\xbd\x24\xe7\x17\xe8\xf4\xa0\x17\x9c\xb4\x53\x84\xdf\x35\x87\x2a\xbf\x11\xfd\xc1\xb5\x11\x3e\x19\xf1\x32\x2c\x90\x73\xc6\x64\x57\x16\x3a\xa3\xdd\x5b\x3a\xea\x8d\x6b\xdb\x22\xb3\xa2\x85\x02\x39\x6d\x9d\x36\xe8\x48\x31\x95\xf8\x45\x07\xa7\x2a\x05\x44\xa8\x73\xb6\xc6\xb5\xb2\xfe\x66\xf3\xb4\x11\x7f\xf1\xe3\x2e\x9b\x6e\xed\x15\x99\x06\x7f\x9d\x04\x05\x3c\x93\x38\x01\x4c\x3b\x44\x28\x00\xfe\x04\x89\xce\xc5\x2c\x99", dp: b"\x37\x75\x62\x68\x41\x65\x3a\x4f\xf8\x66\xd4\xfd\xae\x7c\x6e\x1c\x5a\x98\xbd\x95\x3d\x27\x9a\x69\x9f\xfd\xc4\x9c\x82\x03\xd4\x07\x5c\x62\x20\xc5\xef\xb0\x22\x7f\x3e\x08\xf0\x88\xa2\x14\x06\x59\x8c\x94\xfb\x24\xb1\x6a\xcc\x1c\xf3\xad\x68\x76\xb0\xe1\x5a\xad\xc2\x8e\xe8\x9a\x2f\xcf\x36\x18\x88\x24\x32\x20\x37\x3c\xe3\x04\xb8\x57\x90\x89\x3e\x70\x97\x0b\x9f\x0a\x70\xdd\x12\x62\x37\x51\x52\xf6\xb5\x5f\x76\xa5\x9c\xf8\x13\x40\xe7\x07\x8f\x5d\xb7\x12\x5b\xc7\x6b\xf9\xa8\xd6\x96\xb1\xad\x0c\x2f\x2a\xeb\xf0\x40\x6a\x7e\x5a\x15\xa7\xa3\x39\x82\x93\xd4\xb9\x1b\x49\x56\xa5\xa2\x8e\x61\xfe\x46\x89\x28\x4d\xa0\x27\xe6\xa4\x68\x46\x8c\x37\xa5\x51\x19\xf9\xda\x2e\x1e\xc7\xfa\xba\x7b\x76\xca\xdd\x35\xf3\x5a\x20\xc9\xeb\xa5\x3a\x09\xc7\xc5\x3e\x86\xe8\x59\x98\x4a\x8f\x64\x6c\x7f\x16\x1b\xe7\x15\x13\xce\x1b\x1d\xfe\x63\x99\x79\x2b\x09\x07\xf8\xc2\x24\xda\x28\x17\xd8\xbc\x26\x06\x3f\xdb\xcb\x7f\xe5\x8c\x6d\xbc\xf1\x02\x30\x9e\x74\x1f\x7f\xf4\xd6\x61\xac\xe2\x9f\x20\x57\x80\xb6\xc9\xea\xe9\x9c\x41\xd4\x74\x7a\x6e\x46\x0d\x88\xd7", dq: b"\x48\x04\xcb\x89\xb5\xde\xdb\x30\x27\x63\x39\xaf\xa6\xa7\xe8\xe8\x73\x99\xd3\x59\xc5\xcb\x4e\xd0\x2a\xca\xfa\xd3\xb9\xdc\xc5\x8e\x35\xaa\x5a\x40\xe1\x0e\xc8\x1b\x03\x97\x99\x9f\x15\x4a\xdc\x08\x4c\xdf\x84\x0b\x90\x0f\xab\x21\xeb\x01\xe1\x55\xf3\xc4\x4c\x32\x65\xc0\x99\x77\x25\x8f\x18\x33\x79\xfc\xfc\x14\xe4\xa3\x0e\x7a\x27\xfc\x62\xaf\x2c\x96\x94\xd9\x80\x5d\x5c\x09\xb7\x47\xb4\xb6\xd3\x5f\xbf\xa4\x1c\x09\x43\x7c\x15\x7f\x1a\x09\x38\x78\xcc\x47\x00\x81\x65\xcf\x3d\x7b\x6b\xd0\xbe\x37\xb3\x7d\x8e\xbf\xca\xe5\xac\x39\x20\xe3\x3f\xd7\x62\x27\xd9\x0c\xf0\x8a\x09\x63\xf1\xf4\x8d\xd5\xdb\x93\xfe\x5c\x7e\xdf\x0b\xd7\x4c\x24\x3e\x41\x0c\xc1\x08\x8e\xa1\x34\xa5\x48\xdf\xea\x81\xb8\xef\x19\x2d\x52\xb7\x05\x58\x83\x3f\x97\xe0\xb9\x66\x91\x90\x80\x03\x81\x5a\x01\x08\x68\xaa\x77\xc2\x42\x76\x01\x00\x18\x49\x17\xe4\x36\x8b\x54\x68\x3e\xdd\x01\x5c\xd0\x50\xff\xfb\xe7\x75\x45\x7b\xc5\xc7\x00\xcb\xb6\x24\x35\x1c\x6d\x82\x70\x51\x1d\xca\x35\x18\x1a\x10\x44\x40\xb1\x3d\xb1\xdb\x75\x9d\x58\xa5\xd5\x20\x6a\x96\xea\x39\x06\xe1\x69", iq: b"\x64\x45\xd8\xc8\xa1\x00\xd7\x2e\x51\xfe\xa8\x66\x59\x8b\x1c\x01\x25\xcb\x7e\x53\x1b\x01\x87\x56\xb4\x7c\x80\x78\x7c\x81\x7d\xdf\xfd\x6c\x3d\xbf\x1e\xd8\x11\x66\x87\x11\xa4\xba\xe1\x0c\xa2\xe8\xe0\x33\x90\x7e\x9b\x7f\x06\x53\x11\xf7\x2d\x39\xcc\x36\xbe\x60\x57\xd4\x7a\x82\x0c\x77\x2e\x88\xd8\x35\xd9\x71\x82\x33\x82\xc7\x5f\x8f\x54\x82\x81\x4a\xd9\xc2\x81\xa4\x2e\xaf\x6f\x7d\x6c\xdd\x28\x67\x33\x9c\x3e\x41\x1d\x6b\x75\x49\xb7\x5c\xa6\x54\x0f\xaa\x3c\x34\xdd\xde\x9a\x1b\x57\x28\x46\xd7\x04\x46\xd0\x20\xaa\xb5\xa1\x73\x70\x91\x48\x18\x78\x8f\x1d\x04\x71\x5b\xf1\xec\x29\x5c\x26\xf8\xea\xa2\x8a\xc2\x23\xf8\x86\xe6\x0b\xb9\x98\x28\xb2\x63\x39\xf2\x59\x05\x3d\x22\x24\x5e\x6a\x17\xb7\x4a\x8b\x6d\x3f\x57\x04\xb1\xdf\x04\x2d\xa1\x2f\xbc\xae\xd9\xd9\xe2\x2e\x87\xd2\x0a\x3d\x29\xee\x69\xce\x55\x14\x87\xa7\x4c\xe2\xfa\xda\x60\x1d\xde\xba\x1e\x85\x30\x96\xc2\x6a\x79\xe4\xea\x79\x63\x1f\x54\xab\x88\x7d\x4a\xca\xe6\x5f\xae\x33\xe4\xe3\x7a\x43\x11\x5a\xe6\x26\x92\xb9\xf5\x0d\xde\x27\x98\x16\xb6\x1e\x2c\x45\x8c\x17\x23\xe6\x82" },
RsaKey { n: b"\xb8\x1d\x43\x3c\x3d\x9f\x37\x72\x68\x66\x85\x19\x0b\x9a\xbe\x55\xbd\x39\x33\xeb\x05\x04\x74\xf5\x03\xca\xf1\x6b\xce\xa5\x76\x0a\xa6\x88\xdb\x8b\x0a\x19\x7b\xa1\x2f\xde\x06\x7f\x80\xe1\x42\x0b\x6e\x3a\x40\x49\x05\x7e\xfc\x17\x80\xd0\x66\x68\x98\xd9\x4e\xb3\x30\x37\x40\x51\xab\x73\xc7\xd9\x89\x42\x7d\xc9\x0d\x89\xcc\xba\xf9\x2d\x16\x2b\x60\x37\xed\x4d\x19\xbf\xae\xf3\x38\xd1\xc3\x25\x27\x1a\x8c\xb5\xc8\xce\x90\x1a\xb0\xde\x4a\xef\x72\xda\x6d\x41\x45\x8e\x18\xdc\xe9\x63\x81\x1d\xea\x32\xe2\x3d\x3f\x85\xad\x8f\xff\xf4\x76\x67\x3f\xeb\x00\xa5\x62\x82\xbd\xbf\x6f\x3e\xfb\x27\x97\xd2\x1e\x9f\xf0\xb0\xa7\xe6\x9a\xf1\xb4\xba\x08\xa8\x44\xb6\x80\xb8\x25\xeb\xe9\xc7\x66\x04\xe9\x88\xd2\xcc\x5e\x9c\x43\x1e\x23\x44\x58\x0d\xe1\x59\x1b\x0a\xde\xa9\xa5\x79\x6d\x7e\x3f\x82\x70\x0a\x5a\x6d\xcb\x5d\x05\xa9\xb9\x4c\x66\xc8\xbb\x9b\xdb\x54\x0e\x89\x4a\x10\x2b\xf3\x8b\xaf\x8e\x94\x4c\x7a\x5e\x8e\x7e\xfa\x93\x7d\xb5\xb9\x63\x81\x53\x56\x05\x15\x3a\x77\x8b\x96\x93\x34\x10\xa2\xeb\x76\xef\x87\xb6\xaf\xf9\xb1\xee\x8d\x6f\x4c\x02\x67", bits: 2048, e: 4294967291, priv_der: b"\x30\x82\x04\xa5\x02\x01\x00\x02\x82\x01\x01\x00\xb8\x1d\x43\x3c\x3d\x9f\x37\x72\x68\x66\x85\x19\x0b\x9a\xbe\x55\xbd\x39\x33\xeb\x05\x04\x74\xf5\x03\xca\xf1\x6b\xce\xa5\x76\x0a\xa6\x88\xdb\x8b\x0a\x19\x7b\xa1\x2f\xde\x06\x7f\x80\xe1\x42\x0b\x6e\x3a\x40\x49\x05\x7e\xfc\x17\x80\xd0\x66\x68\x98\xd9\x4e\xb3\x30\x37\x40\x51\xab\x73\xc7\xd9\x89\x42\x7d\xc9\x0d\x89\xcc\xba\xf9\x2d\x16\x2b\x60\x37\xed\x4d\x19\xbf\xae\xf3\x38\xd1\xc3\x25\x27\x1a\x8c\xb5\xc8\xce\x90\x1a\xb0\xde\x4a\xef\x72\xda\x6d\x41\x45\x8e\x18\xdc\xe9\x63\x81\x1d\xea\x32\xe2\x3d\x3f\x85\xad\x8f\xff\xf4\x76\x67\x3f\xeb\x00\xa5\x62\x82\xbd\xbf\x6f\x3e\xfb\x27\x97\xd2\x1e\x9f\xf0\xb0\xa7\xe6\x9a\xf1\xb4\xba\x08\xa8\x44\xb6\x80\xb8\x25\xeb\xe9\xc7\x66\x04\xe9\x88\xd2\xcc\x5e\x9c\x43\x1e\x23\x44\x58\x0d\xe1\x59\x1b\x0a\xde\xa9\xa5\x79\x6d\x7e\x3f\x82\x70\x0a\x5a\x6d\xcb\x5d\x05\xa9\xb9\x4c\x66\xc8\xbb\x9b\xdb\x54\x0e\x89\x4a\x10\x2b\xf3\x8b\xaf\x8e\x94\x4c\x7a\x5e\x8e\x7e\xfa\x93\x7d\xb5\xb9\x63\x81\x53\x56\x05\x15\x3a\x77\x8b\x96\x93\x34\x10\xa2\xeb\x76\xef\x87\xb6\xaf\xf9\xb1\xee\x8d\x6f\x4c\x02\x67\x02\x05\x00\xff\xff\xff\xfb\x02\x82\x01\x00\x1b\x9c\x40\x11\x2e\x97\x27\x7f\xdd\x68\xd0\x09\x53\x98\x59\x5c\xb8\xa2\xa5\xf9\x70\x99\x52\x94\xe9\x88\x18\x20\x39\x48\x94\x3a\x6b\x84\x17\xa3\xb8\xae\xcc\xa4\xd6\xed\x7c\x03\xf7\xa2\xf8\xae\xbd\x08\x4c\x87\xd3\x7f\x69\xf4\x86\x03\x81\x09\xdc\x11\x0b\x23\x88\x7f\x1d\x2d\x98\xc9\x7e\xd3\xaf\xa2\x31\xb9\xd4\x5f\x84\x7a\xe3\xcc\x23\x70\x4b\x74\x70\x76\xf9\x05\xb3\x78\x83\xc6\xe8\xb4\xf9\x50\xe0\xf1\xe4\xe0\xdd\x14\x80\x11\xfb\x2e\x76\xc0\x91\x73\x59\x62\xcf\xc8\xa7\xc8\x53\x32\x59\x6e\xf7\x44\xa3\xca\xf1\x5f\x96\x4f\xd8\x41\x7a\x1e\x2e\x6b\x06\x15\xc6\xb9\x45\x58\x49\xfb\x4d\xe7\x86\x8a\x1e\x9f\xe4\xc8\x3a\x82\x37\xf2\x06\x0a\x41\x7b\x9e\xf6\x4e\xff\xb1\x76\xb3\xc7\xc0\x1b\xd4\x19\xc3\x05\xf2\xf1\x64\x09\xba\x6b\xa0\x09\x49\xab\x6d\x3e\xa9\xca\x6b\x1f\x18\x62\xd2\x08\x99\x5e\x9f\x2a\x36\x2a\xf2\x6d\x10\x64\x88\x54\x2a\xfa\xf7\xe2\x90\x66\xf2\x41\x9e\xe2\xd4\x59\x00\xfa\x11\x93\x21\x47\x6b\x23\xee\x67\xd7\x3b\x3d\xc9\x32\x54\x39\x57\x93\x79\x77\x42\xcf\x94\x3e\x7c\x8c\xb1\x90\xc8\x36\x32\xdb\x29\x47\x07\xab\xab\x02\x81\x81\x00\xff\x7b\x27\x1b\xf8\x73\x38\xe1\x45\x06\x7f\x33\x5c\x95\x82\xae\x17\x27\x42\xf4\xa0\x93\xa8\xfd\x3d\x4f\xa2\x11\x78\x2f\x69\xad\x12\xab\x11\x1b\x05\x31\x7d\xbf\x0a\x93\x10\xcd\xe6\xc5\x38\x38\xed\x7b\x86\x5f\xe7\x28\x9a\xed\xd0\xfd\xf3\x43\x20\x8e\x4f\xa7\x61\xf6\x1c\x16\xf7\x73\x81\x76\xb1\x59\x38\x30\x1a\x70\x57\x29\x93\x77\x33\xe8\x85\xce\x9f\x5a\x8a\x0b\xbe\x2e\xa3\x46\x4f\x6b\xc9\x53\xa6\x1e\x8e\xdf\x6a\x6c\x49\x66\xd0\x88\xef\xc3\xb0\xa9\xc7\xf9\xca\x55\xc0\xd0\x36\x06\x92\x76\x9c\xd8\xce\x7a\x6e\x05\x02\x81\x81\x00\xb8\x7c\xff\xfe\x09\x5f\x41\x94\x32\x8d\xdd\x3a\x70\x96\x37\x9d\x95\xe6\xab\xaa\xe6\x86\x7d\x7b\x88\x2c\x13\x27\x6e\xa3\xb0\xe4\xc4\x94\x86\xf5\x30\xc5\xc9\x26\x5a\x08\xb2\xed\x58\x60\x64\x23\x0c\xca\x40\x66\x49\xd4\x8c\x70\x97\xdb\xcf\xf9\x94\xd9\x04\x4c\x7e\x1c\x7b\x98\x9b\x97\x25\x20\xa5\x52\xee\xa8\x5e\x95\x46\xd8\xb5\xe9\xbd\x7a\x71\x13\x3e\x97\x89\x44\xda\xdd\xeb\x0e\xaa\x11\x0f\x21\x84\xb8\x34\xa7\x10\x9a\x62\xcb\xc1\x58\x9d\xa1\x3a\x4e\xea\x17\x4d\x6c\xd8\x8b\x00\xf6\xed\xb6\xed\x96\xa5\xd7\x6e\x7b\x02\x81\x80\x12\x61\xf3\xff\xab\xe5\x8d\x61\xa3\x19\x90\xaf\xfb\xd2\x49\x7f\xe7\x36\x10\x43\xb2\x63\x9c\xa5\xc1\x58\x79\x2e\xe3\x86\x34\x58\xbd\x33\x8b\xc0\x03\x19\xdf\xfd\x94\x60\xce\x7a\x11\x85\x5f\xe6\xc7\x92\x25\x55\x4a\xc7\x86\x90\xbe\xdb\x95\x4f\x3d\x09\x61\xe9\x59\x59\xed\x10\xdd\xbe\x07\x3b\x8f\x8d\x55\xcb\x40\xf6\x6f\x76\x24\x8c\xdf\xdd\x84\x90\xd7\x72\x84\xfe\x49\xb1\xc4\xb7\xeb\xd0\xf9\x2f\xe4\xf5\x1e\x07\x05\xf4\x96\xbe\x98\x34\x36\x8b\x2a\x46\x58\xc9\xc0\xf7\xf7\xa2\xc8\xae\xf5\x00\xf3\x3a\x01\x0c\xbb\x2b\x02\x81\x80\x18\x4f\xd0\xc1\x71\x60\xa4\xbb\x34\xba\xba\xa8\x7a\x9b\xb8\x88\xbd\x39\xe2\x78\x60\x8f\xc5\x72\xe5\x08\x10\x24\x2d\xb7\xf2\x91\x44\x48\xc2\xc7\x31\xac\x60\xba\xbf\xe4\x19\x0c\xbd\x9b\x3a\x6e\x0f\x0b\x14\x8d\xe6\x5e\x8b\x7f\xf4\x2c\x83\x6b\x42\x6e\xc7\xa1\x1b\x9b\xfa\x87\x51\xd1\xaf\x2e\x6c\x8e\x6a\x78\x3c\x2e\x2d\xbb\x5e\x9a\xbc\xfa\x0b\x12\xe7\x7d\xd3\xa7\x5e\xc9\x31\x05\x08\x38\xe1\x3d\x00\x72\x80\xe8\xad\x59\x00\xfb\x68\x1e\xc7\x95\x9a\x64\x99\x22\x79\xa3\xae\xeb\x43\x1d\x2e\x00\x5c\x26\xf6\x18\xbb\xc7\x02\x81\x81\x00\xb5\xdd\x86\xb6\x4a\xe5\xcd\xa0\x47\xeb\x45\x27\xaa\x34\xf1\x83\x75\x81\x6e\xa8\x62\x2b\xc5\x10\x55\x1c\xa8\x44\xb8\x65\x51\x40\xf7\xd6\x89\xc6\xfd\x9f\x32\x2d\xaa\xd6\xfc\xc1\x5e\x59\x63\x70\x53\x31\xa2\xaf\xb9\xa6\x8d\x19\x9f\x65\xd0\x61\x82\xc6\x69\x3f\x36\x94\x2a\x12\x23\x66\x23\x70\x9b\xb9\x82\xea\x2d\x4e\x9f\x2d\x0b\x84\xf5\x57\x37\x78\xf5\x5c\xf5\xde\x5a\x29\x43\x8a\x5f\x3b\xa7\x96\x1a\xad\x6d\x88\x98\x46\x84\x13\xe6\x1b\x13\xe0\x95\x5d\xc0\x96\xbc\x28\xa3\x16\x3c\x54\xd3\x39\x38\xbb\xd3\xc7\x3e\xc5", pub_der: b"\x30\x82\x01\x0c\x02\x82\x01\x01\x00\xb8\x1d\x43\x3c\x3d\x9f\x37\x72\x68\x66\x85\x19\x0b\x9a\xbe\x55\xbd\x39\x33\xeb\x05\x04\x74\xf5\x03\xca\xf1\x6b\xce\xa5\x76\x0a\xa6\x88\xdb\x8b\x0a\x19\x7b\xa1\x2f\xde\x06\x7f\x80\xe1\x42\x0b\x6e\x3a\x40\x49\x05\x7e\xfc\x17\x80\xd0\x66\x68\x98\xd9\x4e\xb3\x30\x37\x40\x51\xab\x73\xc7\xd9\x89\x42\x7d\xc9\x0d\x89\xcc\xba\xf9\x2d\x16\x2b\x60\x37\xed\x4d\x19\xbf\xae\xf3\x38\xd1\xc3\x25\x27\x1a\x8c\xb5\xc8\xce\x90\x1a\xb0\xde\x4a\xef\x72\xda\x6d\x41\x45\x8e\x18\xdc\xe9\x63\x81\x1d\xea\x32\xe2\x3d\x3f\x85\xad\x8f\xff\xf4\x76\x67\x3f\xeb\x00\xa5\x62\x82\xbd\xbf\x6f\x3e\xfb\x27\x97\xd2\x1e\x9f\xf0\xb0\xa7\xe6\x9a\xf1\xb4\xba\x08\xa8\x44\xb6\x80\xb8\x25\xeb\xe9\xc7\x66\x04\xe9\x88\xd2\xcc\x5e\x9c\x43\x1e\x23\x44\x58\x0d\xe1\x59\x1b\x0a\xde\xa9\xa5\x79\x6d\x7e\x3f\x82\x70\x0a\x5a\x6d\xcb\x5d\x05\xa9\xb9\x4c\x66\xc8\xbb\x9b\xdb\x54\x0e\x89\x4a\x10\x2b\xf3\x8b\xaf\x8e\x94\x4c\x7a\x5e\x8e\x7e\xfa\x93\x7d\xb5\xb9\x63\x81\x53\x56\x05\x15\x3a\x77\x8b\x96\x93\x34\x10\xa2\xeb\x76\xef\x87\xb6\xaf\xf9\xb1\xee\x8d\x6f\x4c\x02\x67\x02\x05\x00\xff\xff\xff\xfb", p: b"\xff\x7b\x27\x1b\xf8\x73\x38\xe1\x45\x06\x7f\x33\x5c\x95\x82\xae\x17\x27\x42\xf4\xa0\x93\xa8\xfd\x3d\x4f\xa2\x11\x78\x2f\x69\xad\x12\xab\x11\x1b\x05\x31\x7d\xbf\x0a\x93\x10\xcd\xe6\xc5\x38\x38\xed\x7b\x86\x5f\xe7\x28\x9a\xed\xd0\xfd\xf3\x43\x20\x8e\x4f\xa7\x61\xf6\x1c\x16\xf7\x73\x81\x76\xb1\x59\x38\x30\x1a\x70\x57\x29\x93\x77\x33\xe8\x85\xce\x9f\x5a\x8a\x0b\xbe\x2e\xa3\x46\x4f\x6b\xc9\x53\xa6\x1e\x8e\xdf\x6a\x6c\x49\x66\xd0\x88\xef\xc3\xb0\xa9\xc7\xf9\xca\x55\xc0\xd0\x36\x06\x92\x76\x9c\xd8\xce\x7a\x6e\x05", q: b"\xb8\x7c\xff\xfe\x09\x5f\x41\x94\x32\x8d\xdd\x3a\x70\x96\x37\x9d\x95\xe6\xab\xaa\xe6\x86\x7d\x7b\x88\x2c\x13\x27\x6e\xa3\xb0\xe4\xc4\x94\x86\xf5\x30\xc5\xc9\x26\x5a\x08\xb2\xed\x58\x60\x64\x23\x0c\xca\x40\x66\x49\xd4\x8c\x70\x97\xdb\xcf\xf9\x94\xd9\x04\x4c\x7e\x1c\x7b\x98\x9b\x97\x25\x20\xa5\x52\xee\xa8\x5e\x95\x46\xd8\xb5\xe9\xbd\x7a\x71\x13\x3e\x97\x89\x44\xda\xdd\xeb\x0e\xaa\x11\x0f\x21\x84\xb8\x34\xa7\x10\x9a\x62\xcb\xc1\x58\x9d\xa1\x3a\x4e\xea\x17\x4d\x6c\xd8\x8b\x00\xf6\xed\xb6\xed\x96\xa5\xd7\x6e\x7b", d: b"\x1b\x9c\x40\x11\x2e\x97\x27\x7f\xdd\x68\xd0\x09\x53\x98\x59\x5c\xb8\xa2\xa5\xf9\x70\x99\x52\x94\xe9\x88\x18\x20\x39\x48\x94\x3a\x6b\x84\x17\xa3\xb8\xae\xcc\xa4\xd6\xed\x7c\x03\xf7\xa2\xf8\xae\xbd\x08\x4c\x87\xd3\x7f\x69\xf4\x86\x03\x81\x09\xdc\x11\x0b\x23\x88\x7f\x1d\x2d\x98\xc9\x7e\xd3\xaf\xa2\x31\xb9\xd4\x5f\x84\x7a\xe3\xcc\x23\x70\x4b\x74\x70\x76\xf9\x05\xb3\x78\x83\xc6\xe8\xb4\xf9\x50\xe0\xf1\xe4\xe0\xdd\x14\x80\x11\xfb\x2e\x76\xc0\x91\x73\x59\x62\xcf\xc8\xa7\xc8\x53\x32\x59\x6e\xf7\x44\xa3\xca\xf1\x5f\x96\x4f\xd8\x41\x7a\x1e\x2e\x6b\x06\x15\xc6\xb9\x45\x58\x49\xfb\x4d\xe7\x86\x8a\x1e\x9f\xe4\xc8\x3a\x82\x37\xf2\x06\x0a\x41\x7b\x9e\xf6\x4e\xff\xb1\x76\xb3\xc7\xc0\x1b\xd4\x19\xc3\x05\xf2\xf1\x64\x09\xba\x6b\xa0\x09\x49\xab\x6d\x3e\xa9\xca\x6b\x1f\x18\x62\xd2\x08\x99\x5e\x9f\x2a\x36\x2a\xf2\x6d\x10\x64\x88\x54\x2a\xfa\xf7\xe2\x90\x66\xf2\x41\x9e\xe2\xd4\x59\x00\xfa\x11\x93\x21\x47\x6b\x23\xee\x67\xd7\x3b\x3d\xc9\x32\x54\x39\x57\x93\x79\x77\x42\xcf\x94\x3e\x7c\x8c\xb1\x90\xc8\x36\x32\xdb\x29\x47\x07\xab\xab", dp: b"\x12\x61\xf3\xff\xab\xe5\x8d\x61\xa3\x19\x90\xaf\xfb\xd2\x49\x7f\xe7\x36\x10\x43\xb2\x63\x9c\xa5\xc1\x58\x79\x2e\xe3\x86\x34\x58\xbd\x33\x8b\xc0\x03\x19\xdf\xfd\x94\x60\xce\x7a\x11\x85\x5f\xe6\xc7\x92\x25\x55\x4a\xc7\x86\x90\xbe\xdb\x95\x4f\x3d\x09\x61\xe9\x59\x59\xed\x10\xdd\xbe\x07\x3b\x8f\x8d\x55\xcb\x40\xf6\x6f\x76\x24\x8c\xdf\xdd\x84\x90\xd7\x72\x84\xfe\x49\xb1\xc4\xb7\xeb\xd0\xf9\x2f\xe4\xf5\x1e\x07\x05\xf4\x96\xbe\x98\x34\x36\x8b\x2a\x46\x58\xc9\xc0\xf7\xf7\xa2\xc8\xae\xf5\x00\xf3\x3a\x01\x0c\xbb\x2b", dq: b"\x18\x4f\xd0\xc1\x71\x60\xa4\xbb\x34\xba\xba\xa8\x7a\x9b\xb8\x88\xbd\x39\xe2\x78\x60\x8f\xc5\x72\xe5\x08\x10\x24\x2d\xb7\xf2\x91\x44\x48\xc2\xc7\x31\xac\x60\xba\xbf\xe4\x19\x0c\xbd\x9b\x3a\x6e\x0f\x0b\x14\x8d\xe6\x5e\x8b\x7f\xf4\x2c\x83\x6b\x42\x6e\xc7\xa1\x1b\x9b\xfa\x87\x51\xd1\xaf\x2e\x6c\x8e\x6a\x78\x3c\x2e\x2d\xbb\x5e\x9a\xbc\xfa\x0b\x12\xe7\x7d\xd3\xa7\x5e\xc9\x31\x05\x08\x38\xe1\x3d\x00\x72\x80\xe8\xad\x59\x00\xfb\x68\x1e\xc7\x95\x9a\x64\x99\x22\x79\xa3\xae\xeb\x43\x1d\x2e\x00\x5c\x26\xf6\x18\xbb\xc7", iq: b"\xb5\xdd\x86\xb6\x4a\xe5\xcd\xa0\x47\xeb\x45\x27\xaa\x34\xf1\x83\x75\x81\x6e\xa8\x62\x2b\xc5\x10\x55\x1c\xa8\x44\xb8\x65\x51\x40\xf7\xd6\x89\xc6\xfd\x9f\x32\x2d\xaa\xd6\xfc\xc1\x5e\x59\x63\x70\x53\x31\xa2\xaf\xb9\xa6\x8d\x19\x9f\x65\xd0\x61\x82\xc6\x69\x3f\x36\x94\x2a\x12\x23\x66\x23\x70\x9b\xb9\x82\xea\x2d\x4e\x9f\x2d\x0b\x84\xf5\x57\x37\x78\xf5\x5c\xf5\xde\x5a\x29\x43\x8a\x5f\x3b\xa7\x96\x1a\xad\x6d\x88\x98\x46\x84\x13\xe6\x1b\x13\xe0\x95\x5d\xc0\x96\xbc\x28\xa3\x16\x3c\x54\xd3\x39\x38\xbb\xd3\xc7\x3e\xc5" },
RsaKey { n: b"\xac\x98\x21\x87\x54\xaf\xad\x6d\x40\xc2\xcc\xf4\x96\xbf\x82\x32\xe8\x6b\xc9\xc1\x69\x4e\x6e\xb0\x98\x82\x67\x75\x8b\x4d\xda\x2d\x61\x6b\x08\xd3\xff\x77\x6e\x58\x55\x19\xf8\xbc\xec\xe9\x2b\x39\xec\x71\x57\x6d\x41\x0d\xc2\x2f\x97\x24\x81\x00\xca\xde\xad\xb6\xee\x66\x49\xf2\xf9\xba\xb7\x57\x7d\xfd\x2a\xbd\xc3\xe8\xec\x0c\x95\xf0\xfb\x22\xdd\x9a\xb7\xf9\x0f\xa2\xb0\x80\xab\xb6\xdd\xd2\xbc\x34\x64\x5e\x77\x69\xff\xa1\x75\x47\x2b\x3f\xc9\x6a\x34\x40\x82\xa8\xbe\x32\x90\xec\x78\x25\x48\x9b\x77\x06\xd4\x5c\x31\x8d\xe2\x6a\xda\x5b\x63\xc1\xbe\x0e\x18\xa8\x86\xa7\x64\xaa\x7b\x34\x14\xc5\x76\x45\x04\x3d\x08\x2d\x3b\xeb\x2a\xd1\x5e\x5b\x38\xc3\x42\x97\xeb\xab\xf9\x58\x63\x9c\x11\xab\xd4\xe0\xcb\x5c\x38\xb4\xfb\x56\x32\x93\xda\xa0\x1d\x4f\x93\x41\x7a\x8d\x29\xdb\xb6\xf8\xba\x63\xdb\xb8\x1a\x86\xc7\x56\xdf\xa0\x18\x34\x7a\xb8\x15\x33\xf2\x93\xbe\x55\x4d\x1e\x71\xf5\xc6\xdc\xcf\x64\x14\x56\x39\xf7\x2a\x7b\xed\x83\xb5\x29\x13\xf2\xfb\x8c\x81\x12\x97\x4d\xa2\xd4\x67\xd1\x72\x9e\x77\xd1\x78\x88\x60\xcc\x7b\x26\x10\xc6\x76\xb3\xa2\xf2\xab\xb4\x6c\xe6\x99\x02\xd5\xbc\x6b\x3e\x69\xec\x6d\x52\x3b\xcd\x45\xd6\x8d\xa6\xda\x2f\xe0\x1d\x4e\xf6\x0a\xb7\x61\x36\xed\x1a\x78\x2d\x2e\x63\x81\x18\xbd\x47\xa5\x2b\x73\x21\x34\x88\x4d\x29\x2a\x30\xcc\xc4\xff\x6e\x04\x43\xfc\x21\x36\x7f\x93\xfe\xa0\xdb\xcc\xb8\x7e\x7e\x1a\x9e\x50\x9a\xa7\xaf\x98\xc6\x1a\x5f\x5a\xff\x6f\x82\x79\x6e\xd2\x33\x8e\x42\x07\x7e\x3e\x38\x19\x43\x45\x30\x73\x4a\xfb\xe0\xd4\xcd\xda\xe5\xb7\x87\x35\x9a\x51\xde\xd5\x63\x34\x51\x77\x83\xcb\xed\x1a\x60\xb4\x21\x3c\x41\x8e\xbf\x46\x08\x32\x23\xf3\x26\x3c\xa7\x2d\x9f\xed\xc1\x86\x28\xdf\x4d\xea\x06\x45\x59\x1d\x1e\x35\x86\x0b\x01\xa9\x8a\x09\x96\x41\x84\xa1\xf7\x4f\xe0\xb9\x1b\xc1\x74\xcb\xb1\xbd\xb3\x08\x2c\x12\x1c\xa4\xce\x55\xb3\x49\x1c\xe3\xd7\x1b\x7b\x32\xc6\xac\x96\x90\xf4\x93\x51\x88\xcb\x81\x60\x73\xe4\xc1\x6d\xcb\xfb\xea\x9f\x28\x02\xc8\xfa\x13\xc9\xdd\x01\x48\x07\x48\xff\x87\x02\x30\x6f\x4d\x20\xb6\x49\x51\x56\x81\x47\x26\x78\xf6\xb6\x14\xe6\x4c\x47\x53\xe2\x4a\xf9\x23\x90\xb2\x2c\xb0\x7c\xe8\x85\x01\x67\xa5\x87\xa2\x69", bits: 4096, e: 17, priv_der: b"\x30\x82\x09\x27\x02\x01\x00\x02\x82\x02\x01\x00\xac\x98\x21\x87\x54\xaf\xad\x6d\x40\xc2\xcc\xf4\x96\xbf\x82\x32\xe8\x6b\xc9\xc1\x69\x4e\x6e\xb0\x98\x82\x67\x75\x8b\x4d\xda\x2d\x61\x6b\x08\xd3\xff\x77\x6e\x58\x55\x19\xf8\xbc\xec\xe9\x2b\x39\xec\x71\x57\x6d\x41\x0d\xc2\x2f\x97\x24\x81\x00\xca\xde\xad\xb6\xee\x66\x49\xf2\xf9\xba\xb7\x57\x7d\xfd\x2a\xbd\xc3\xe8\xec\x0c\x95\xf0\xfb\x22\xdd\x9a\xb7\xf9\x0f\xa2\xb0\x80\xab\xb6\xdd\xd2\xbc\x34\x64\x5e\x77\x69\xff\xa1\x75\x47\x2b\x3f\xc9\x6a\x34\x40\x82\xa8\xbe\x32\x90\xec\x78\x25\x48\x9b\x77\x06\xd4\x5c\x31\x8d\xe2\x6a\xda\x5b\x63\xc1\xbe\x0e\x18\xa8\x86\xa7\x64\xaa\x7b\x34\x14\xc5\x76\x45\x04\x3d\x08\x2d\x3b\xeb\x2a\xd1\x5e\x5b\x38\xc3\x42\x97\xeb\xab\xf9\x58\x63\x9c\x11\xab\xd4\xe0\xcb\x5c\x38\xb4\xfb\x56\x32\x93\xda\xa0\x1d\x4f\x93\x41\x7a\x8d\x29\xdb\xb6\xf8\xba\x63\xdb\xb8\x1a\x86\xc7\x56\xdf\xa0\x18\x34\x7a\xb8\x15\x33\xf2\x93\xbe\x55\x4d\x1e\x71\xf5\xc6\xdc\xcf\x64\x14\x56\x39\xf7\x2a\x7b\xed\x83\xb5\x29\x13\xf2\xfb\x8c\x81\x12\x97\x4d\xa2\xd4\x67\xd1\x72\x9e\x77\xd1\x78\x88\x60\xcc\x7b\x26\x10\xc6\x76\xb3\xa2\xf2\xab\xb4\x6c\xe6\x99\x02\xd5\xbc\x6b\x3e\x69\xec\x6d\x52\x3b\xcd\x45\xd6\x8d\xa6\xda\x2f\xe0\x1d\x4e\xf6\x0a\xb7\x61\x36\xed\x1a\x78\x2d\x2e\x63\x81\x18\xbd\x47\xa5\x2b\x73\x21\x34\x88\x4d\x29\x2a\x30\xcc\xc4\xff\x6e\x04\x43\xfc\x21\x36\x7f\x93\xfe\xa0\xdb\xcc\xb8\x7e\x7e\x1a\x9e\x50\x9a\xa7\xaf\x98\xc6\x1a\x5f\x5a\xff\x6f\x82\x79\x6e\xd2\x33\x8e\x42\x07\x7e\x3e\x38\x19\x43\x45\x30\x73\x4a\xfb\xe0\xd4\xcd\xda\xe5\xb7\x87\x35\x9a\x51\xde\xd5\x63\x34\x51\x77\x83\xcb\xed\x1a\x60\xb4\x21\x3c\x41\x8e\xbf\x46\x08\x32\x23\xf3\x26\x3c\xa7\x2d\x9f\xed\xc1\x86\x28\xdf\x4d\xea\x06\x45\x59\x1d\x1e\x35\x86\x0b\x01\xa9\x8a\x09\x96\x41\x84\xa1\xf7\x4f\xe0\xb9\x1b\xc1\x74\xcb\xb1\xbd\xb3\x08\x2c\x12\x1c\xa4\xce\x55\xb3\x49\x1c\xe3\xd7\x1b\x7b\x32\xc6\xac\x96\x90\xf4\x93\x51\x88\xcb\x81\x60\x73\xe4\xc1\x6d\xcb\xfb\xea\x9f\x28\x02\xc8\xfa\x13\xc9\xdd\x01\x48\x07\x48\xff\x87\x02\x30\x6f\x4d\x20\xb6\x49\x51\x56\x81\x47\x26\x78\xf6\xb6\x14\xe6\x4c\x47\x53\xe2\x4a\xf9\x23\x90\xb2\x2c\xb0\x7c\xe8\x85\x01\x67\xa5\x87\xa2\x69\x02\x01\x11\x02\x82\x02\x01\x00\x98\x49\xff\x77\x68\xd7\x3e\xab\xb1\x9c\xd2\xf5\xee\x6c\xbe\x2c\xeb\x31\xee\x41\x3e\xcc\xbc\x05\x3b\x45\xe2\xd1\x20\x8f\xfc\xbe\xa1\x40\x53\x15\x68\xf0\xe8\xe4\x87\x53\x26\xc4\xd1\x09\xf8\xf6\xdf\xaf\x4d\x24\x2a\x57\x6f\x1a\xee\xc5\xdb\x3c\xef\x3c\xf3\xa1\x68\xf0\xd7\xd6\x63\xe0\xfc\x20\x05\xc1\x43\xd4\x9d\xcd\x84\xfc\x0b\xd4\xa1\x5a\xff\xc4\xc0\x72\x59\x17\x14\x35\x4c\x37\xf0\xe7\x1e\x88\x94\xcb\xd2\xc6\xf0\x9d\x85\x99\x26\x29\x39\x3f\x97\x84\x37\x0d\x5c\x86\xf8\x58\x2d\xc6\x8b\x5b\xff\x9c\x9d\x42\x49\xd7\x8b\x8b\x75\x5f\xb2\x5f\xa7\xb2\x15\xc1\xe0\x39\x58\xd2\xa8\xf1\xb7\xf9\x86\x79\x21\xdb\x7f\xaf\x71\x1a\xcb\x6d\x71\x5f\x8c\x70\x0d\x95\x1b\x3d\x63\x8a\x39\xc5\xf1\x79\x7f\x99\x2b\xe7\xf5\xcc\xdd\xc4\x86\xfa\xee\x14\xce\x91\x81\xee\x7b\x31\x43\x0d\x28\xf9\x95\x67\x2b\x48\x17\x67\xdd\x10\x6a\xf6\xab\xf2\x11\xed\xb8\x5b\x03\x37\x11\x5a\x53\x1a\xdd\x06\x09\xd1\xe4\x2b\x21\x00\xc9\xbb\xf8\x4f\x3a\xfb\xbd\xf7\x11\x9a\x29\x3f\xbd\x2e\x85\x80\xbc\xd9\x88\xc7\xdd\x9a\xe2\x31\x4c\x3c\x19\x2c\xe5\x21\x96\x54\xc3\x15\x82\x24\x84\xc5\x98\xf0\xc0\x81\x6f\x51\xd1\x72\x41\x49\xd9\xc6\x1b\x40\xfd\x5b\xde\xc5\xd6\x7b\x6e\xfe\x18\x04\x07\x40\xdd\xe5\x27\xd6\x3b\xf0\x03\x83\x66\xe9\x69\x4f\xd7\x80\x3c\xe0\xea\xe8\x6a\xfd\xf9\x38\xc1\xf5\xa0\xc3\xe0\x03\xdb\x7e\x6c\x3a\xf1\xb1\x92\x7a\x59\x99\x47\x82\x97\x9b\x6f\xb5\xe0\x19\xf0\x2d\x26\x6d\xd8\xe7\x27\x6a\xbd\xcb\xe6\xde\xa6\x9d\x7f\xab\xf3\xa5\xe6\x5f\x7c\x76\xaf\xf5\xed\x57\x78\x67\xd4\xee\xbd\xac\x5c\x72\x72\x47\xd5\x98\x42\x21\xa0\x81\x09\x8d\x42\x92\x24\x8a\x50\x55\x6f\x0e\x16\x02\xc8\x83\x76\xac\xfa\x6c\x1c\xd5\x76\xa0\x43\x0d\x8f\x6c\xfd\x57\xc1\xff\x77\xd7\x64\xcf\x8c\x65\xf8\x3e\x6d\x34\x8d\xea\x18\xcc\xa9\x87\x90\x0e\xec\xf6\xbd\x51\x4b\xff\xe0\xe4\x4e\xae\xfe\xc4\x1c\xbe\xa2\x6e\x97\xa7\xfc\xb3\x1a\x95\x21\x22\x35\xf1\x57\x73\x29\x81\x4c\x93\xcb\x20\xa0\xd9\xa3\x29\x20\x7e\xeb\xc5\xea\x3a\x9a\x83\x2e\x3f\x9e\x8e\x63\x04\xf4\x1f\xef\xb5\x5e\x63\xde\xd5\x69\x64\x12\xec\xc0\x5f\x1a\x09\x4d\x71\x4b\x66\x1f\x51\x72\x72\x0a\x27\xe5\xf8\xcf\x1f\xbe\x7e\x4f\xdc\xb7\xad\x3c\x71\x02\x82\x01\x01\x00\xf3\xe2\x98\xf2\xd0\x8c\x34\x88\x6c\xee\xd0\xe8\xad\x13\x5b\xc6\xa2\x94\xa0\x91\xd7\xfd\x03\xde\x11\x07\x79\x8a\xda\x14\x0b\xbb\xe3\x3c\xaa\xd3\xe8\xd1\x44\xca\xe3\x34\x22\x1b\x3f\xf9\xc9\xa8\xe0\x72\x1f\x38\xba\x93\x9f\x36\x29\x11\x8a\xc4\x32\xee\x87\x48\x6e\x19\x55\x15\xf9\x7e\x43\x5a\x3b\xcb\xbc\x6e\x60\xab\x88\xb6\xa8\xbe\x4f\xc0\x0c\x4c\xdd\x98\x39\x57\x37\xa2\x33\x31\x82\x89\xc0\xbb\x73\x67\x71\x82\xe1\x7d\x25\x27\x85\x44\x2e\x11\xff\x26\xe1\x54\x00\x2f\xbc\xbc\xc5\xc6\xfd\xab\x15\x35\xfc\x9e\x5e\x5d\x4d\x2f\x07\x1a\x36\xa5\x30\xb4\x9c\xad\x08\xee\x7f\xec\x96\x70\x84\xb8\x96\x31\xaa\x59\xc1\x6b\x60\x27\xf6\x74\xe0\xa7\xd3\x8e\x3a\x22\x7c\xbb\xbf\xc8\x49\xbe\x02\xd9\x5f\x25\xe2\x5f\xcc\x86\xd0\x52\x22\xb1\xd1\x23\xf9\xf8\xf1\x9b\xc3\xad\x84\x18\xaa\x77\xdd\xa6\x7f\x63\xbe\x99\x12\x47\x11\x54\x8f\x00\x1b\x72\x15\xe5\x19\xba\xbd\x20\xf5\xd7\x02\xda\x2d\x0c\xc6\x0e\x6a\xbd\xc1\x61\x24\xeb\x34\x3b\xcb\x69\xe1\xa9\xf6\xaa\x60\xe2\x89\xf9\xf1\x5a\xa5\xc2\xe1\x25\x93\xdd\x3b\xee\x60\xe7\x54\x96\x84\x27\xcc\x71\x02\x82\x01\x01\x00\xb5\x2a\xf3\xbf\x88\x9e\xdf\xa3\x73\x2c\x9b\xe5\x50\xb8\x92\x33\x9c\x77\x86\x20\xdb\x52\x27\x81\xa6\xa0\x87\x00\x39\x7b\xf3\x99\x76\x51\x67\x49\x41\x96\xe9\xcd\xda\x30\x7d\xc3\x21\x5b\xb5\xfa\x26\xa8\x45\xd9\xe1\x09\xee\x48\xcc\x3f\x23\x45\x33\x92\x83\x53\x59\x8d\x23\x28\x00\xc1\x2b\x71\xc9\x67\x31\x8a\x38\xf8\x77\x2c\x33\xe5\xd0\xf4\x1e\x90\x33\x38\x98\x16\x2e\x19\x2a\x17\x5e\x6f\x6e\xdd\x6b\xaa\xb0\x94\x6a\xdb\x08\xaf\x9f\x90\xc0\xe4\x7b\xde\x01\xfc\x3e\x84\x27\x01\x94\xec\x6a\xdc\xca\xd7\x06\xb9\xd4\xa7\x57\x5e\x8c\x0e\x58\x23\x67\x9a\x2c\x00\xf7\xfb\x42\xc6\x84\x2e\xac\x94\xe4\x5b\x40\x47\xce\xa6\xe9\x99\x55\x79\x13\x90\xbc\x0f\x3a\xa8\x9b\x8b\x56\x0f\x5a\x16\x9c\xf3\xb3\x15\xd1\x96\x52\xcf\x80\x8c\xdf\x3a\x7b\x9d\xb5\x75\x1c\x8b\xea\x92\x47\x34\xfe\xaf\x74\xb1\x0d\x90\xf4\x86\x48\x34\x71\x44\xb7\x44\xaa\x58\xf5\xd6\xfb\x1f\x0d\xf2\x19\x26\x6f\x58\x89\x97\xce\x69\x2d\x7d\x98\x3d\x50\x8e\x61\x65\x06\xd0\xf3\x52\x26\xcd\xf5\xd8\xb1\x1d\xe9\xb3\xdf\x3d\x8c\x3d\xe6\x79\xbd\x04\x27\x30\xa7\xa3\xc8\xac\x91\x79\x02\x82\x01\x01\x00\xac\x27\x7b\x05\xc0\x62\xf7\xe7\xd4\x6c\x57\x3a\xd4\x86\x22\xaa\x54\xa5\x26\x0c\x98\x76\x5d\x15\x39\x32\x73\xe9\x8a\xe0\xf9\x39\x55\x1b\xc3\xe0\xe0\x93\xb8\x16\xbe\x7f\x27\x22\x4b\x46\xe8\xb3\x71\x41\x7f\x73\x56\x86\x52\x44\x59\x39\x8f\x21\x14\xe4\x9b\xba\xa8\x11\xe1\xb5\x28\x95\x5c\xb8\x2a\x35\x75\xf3\x8f\x88\x24\x44\xb3\x59\x29\x3c\x44\xea\xf6\xc5\xce\x1f\x72\x90\x9c\x9b\x6b\x34\x0f\x93\x60\x85\x41\x11\x17\xa3\xa1\xc1\x8b\x3f\x2f\x94\x3b\xa2\xf9\x68\x78\x9a\x2a\xdf\x9a\xaa\x94\xf1\x3c\x26\x1b\xbb\x15\x6f\x09\x4e\x5f\x5d\xcc\x38\x5e\x9d\x9b\xc5\x6f\xb7\x69\x5b\xb5\x7c\x99\xeb\xb5\x50\x3c\x03\x1f\x1e\x9e\x3a\x53\x9d\xcb\xc1\xc2\x82\x83\x63\xa3\x57\x5a\x33\x06\xe0\x7a\x7b\x52\x38\xdc\x07\x63\x31\xfc\x76\x36\x9b\xa2\xaf\xfb\xbe\xc8\xaa\x2f\xc5\xc6\xa7\xff\xdc\x23\xfd\x0e\xa0\xc2\xc6\x67\x41\x39\x68\xdd\x69\x7c\xc9\x00\x65\x7b\x92\xdf\xdb\x07\xe3\x11\x12\x7a\x27\x22\x64\x87\x95\x00\xf9\x47\x3c\x9d\x57\x62\x68\xdb\x87\x08\x78\x44\x63\xac\xb0\x6e\x21\xde\x6b\x71\xc0\x2c\x23\xb1\xd5\x71\x94\x3b\xb5\x8a\x76\x72\x31\x02\x82\x01\x00\x1f\xf8\x85\x5e\x09\x0c\xfa\x4a\x05\x44\x1b\x82\xd2\x02\x74\x27\x39\xba\xbd\x51\x17\xa5\x16\x07\xd2\x1c\x54\x0f\x19\x33\xfd\xcf\xc9\x95\xe5\x0c\xed\x74\xfc\x15\x44\x9f\x25\x40\x8d\x6a\x89\x86\x7f\x4a\xdf\x26\x73\x01\xc0\xa3\x6f\x56\x6f\xa2\xcc\xdd\x9e\xb4\x5b\x18\xe8\x16\x1e\x40\x34\xd7\xd8\x3f\x63\x18\x64\x68\x15\x07\xcc\xec\x52\x0c\xf6\x55\xae\xaf\xa2\x5e\x44\x5e\xcb\x31\x4c\xe6\x7c\xf9\xe5\xd2\xd3\xdd\xf4\xbd\x3d\xc4\xa3\xb0\x22\x0a\x33\xfa\x00\x59\xb0\xad\xe8\xc4\x0b\x38\xc7\x90\x60\x07\xd4\x02\xad\x0e\x78\xd4\x73\x11\x97\x15\x4e\x84\x9e\x5a\x86\x1d\x48\x04\xea\x26\x5a\xb0\xdd\x01\x0b\x57\xf7\x4a\xa1\xb1\xa5\xab\xf4\x64\xd5\xe4\x91\xe1\x84\xdc\x5a\x7b\x2e\x03\xfd\x94\x6a\xe5\xbb\x92\xff\x8e\x07\xa0\x63\xa0\xe8\xa3\x5c\x41\xd7\xdc\x74\xb0\x66\xeb\x3c\x00\xd8\x5b\x7a\xdd\x58\x53\xee\x9f\xd7\xc0\xd5\x0c\x1e\x0f\xb2\xe9\xb3\xd8\x4d\xc1\x4f\xbb\x7d\x0f\x9f\xcf\x7e\xc7\x44\x43\x57\x19\xe1\x0a\x11\x2f\xf2\x24\xdf\xa5\x15\xe8\x1c\x53\x6a\x8c\xce\xe3\x81\xbf\x91\x38\x19\x9d\x03\x3c\xf7\xdb\x68\xe0\xaa\xf1\x46\xd9\x02\x82\x01\x00\x12\x68\xb5\x80\x70\xa2\x7d\xa6\x1a\x62\xd7\x03\x83\x81\x9d\xa2\x6e\xa0\x7b\xb2\xd3\x81\xae\x96\x38\x23\xb0\xd9\x04\x28\xca\x70\x6d\x13\x8b\x9e\xfc\x04\xfb\xbf\x5d\xd0\xf1\x05\x27\x4a\xd3\x3b\x8c\x71\x91\xb1\xaa\xe4\x57\xce\xac\x45\xfc\xe1\x24\x7f\xcb\x5d\x8a\x78\x65\x1e\xbf\xca\x60\x59\xf7\x7c\x93\xd4\xd0\xc7\xfe\x72\x16\xf3\x3d\xe5\x6b\xee\x17\xd3\xa0\xf3\x2a\x39\x5b\x8b\x7b\x50\x0a\x8d\x97\xed\x82\xcd\x1e\xba\xf6\x0d\x43\xc8\x7e\x03\x3a\xbb\x2c\x0f\x23\x77\xd8\xab\x06\xfb\x03\x89\xcf\xc2\x1e\x48\xb6\xb6\xe3\x38\xe4\x45\x38\xd4\x8e\x3a\xe4\xf3\x8c\xe7\x57\x7e\xaf\xfd\x71\x0e\xf6\xc5\xe2\x55\x0b\x63\x22\x54\x51\xb6\xa0\x31\x8c\x33\x0f\x91\x01\x1c\xbe\x06\x24\x66\xe5\x64\xdb\xb7\x35\x3d\x78\x11\x69\xd0\xe8\x09\x35\x7d\x50\x70\xdc\xd3\x97\x82\x91\x0b\xd7\xe3\x32\x43\x65\x99\x3a\xd9\xb4\x9f\x47\x0d\x99\x41\x0e\xe1\x67\x25\x7c\x98\x7d\xe2\x23\x17\x9a\xb1\xe6\x0b\x0d\x79\xf1\x01\x37\x1a\xbf\x36\x01\xd6\x1f\x16\x31\x64\xd6\x06\xd6\xae\x8e\x4a\xf0\x05\x0e\x8b\x50\x83\xef\xb7\xf6\xd0\x4f\xc9\xcb\xc5\xda\xfc\x61\xe6", pub_der: b"\x30\x82\x02\x08\x02\x82\x02\x01\x00\xac\x98\x21\x87\x54\xaf\xad\x6d\x40\xc2\xcc\xf4\x96\xbf\x82\x32\xe8\x6b\xc9\xc1\x69\x4e\x6e\xb0\x98\x82\x67\x75\x8b\x4d\xda\x2d\x61\x6b\x08\xd3\xff\x77\x6e\x58\x55\x19\xf8\xbc\xec\xe9\x2b\x39\xec\x71\x57\x6d\x41\x0d\xc2\x2f\x97\x24\x81\x00\xca\xde\xad\xb6\xee\x66\x49\xf2\xf9\xba\xb7\x57\x7d\xfd\x2a\xbd\xc3\xe8\xec\x0c\x95\xf0\xfb\x22\xdd\x9a\xb7\xf9\x0f\xa2\xb0\x80\xab\xb6\xdd\xd2\xbc\x34\x64\x5e\x77\x69\xff\xa1\x75\x47\x2b\x3f\xc9\x6a\x34\x40\x82\xa8\xbe\x32\x90\xec\x78\x25\x48\x9b\x77\x06\xd4\x5c\x31\x8d\xe2\x6a\xda\x5b\x63\xc1\xbe\x0e\x18\xa8\x86\xa7\x64\xaa\x7b\x34\x14\xc5\x76\x45\x04\x3d\x08\x2d\x3b\xeb\x2a\xd1\x5e\x5b\x38\xc3\x42\x97\xeb\xab\xf9\x58\x63\x9c\x11\xab\xd4\xe0\xcb\x5c\x38\xb4\xfb\x56\x32\x93\xda\xa0\x1d\x4f\x93\x41\x7a\x8d\x29\xdb\xb6\xf8\xba\x63\xdb\xb8\x1a\x86\xc7\x56\xdf\xa0\x18\x34\x7a\xb8\x15\x33\xf2\x93\xbe\x55\x4d\x1e\x71\xf5\xc6\xdc\xcf\x64\x14\x56\x39\xf7\x2a\x7b\xed\x83\xb5\x29\x13\xf2\xfb\x8c\x81\x12\x97\x4d\xa2\xd4\x67\xd1\x72\x9e\x77\xd1\x78\x88\x60\xcc\x7b\x26\x10\xc6\x76\xb3\xa2\xf2\xab\xb4\x6c\xe6\x99\x02\xd5\xbc\x6b\x3e\x69\xec\x6d\x52\x3b\xcd\x45\xd6\x8d\xa6\xda\x2f\xe0\x1d\x4e\xf6\x0a\xb7\x61\x36\xed\x1a\x78\x2d\x2e\x63\x81\x18\xbd\x47\xa5\x2b\x73\x21\x34\x88\x4d\x29\x2a\x30\xcc\xc4\xff\x6e\x04\x43\xfc\x21\x36\x7f\x93\xfe\xa0\xdb\xcc\xb8\x7e\x7e\x1a\x9e\x50\x9a\xa7\xaf\x98\xc6\x1a\x5f\x5a\xff\x6f\x82\x79\x6e\xd2\x33\x8e\x42\x07\x7e\x3e\x38\x19\x43\x45\x30\x73\x4a\xfb\xe0\xd4\xcd\xda\xe5\xb7\x87\x35\x9a\x51\xde\xd5\x63\x34\x51\x77\x83\xcb\xed\x1a\x60\xb4\x21\x3c\x41\x8e\xbf\x46\x08\x32\x23\xf3\x26\x3c\xa7\x2d\x9f\xed\xc1\x86\x28\xdf\x4d\xea\x06\x45\x59\x1d\x1e\x35\x86\x0b\x01\xa9\x8a\x09\x96\x41\x84\xa1\xf7\x4f\xe0\xb9\x1b\xc1\x74\xcb\xb1\xbd\xb3\x08\x2c\x12\x1c\xa4\xce\x55\xb3\x49\x1c\xe3\xd7\x1b\x7b\x32\xc6\xac\x96\x90\xf4\x93\x51\x88\xcb\x81\x60\x73\xe4\xc1\x6d\xcb\xfb\xea\x9f\x28\x02\xc8\xfa\x13\xc9\xdd\x01\x48\x07\x48\xff\x87\x02\x30\x6f\x4d\x20\xb6\x49\x51\x56\x81\x47\x26\x78\xf6\xb6\x14\xe6\x4c\x47\x53\xe2\x4a\xf9\x23\x90\xb2\x2c\xb0\x7c\xe8\x85\x01\x67\xa5\x87\xa2\x69\x02\x01\x11", p: b"\xf3\xe2\x98\xf2\xd0\x8c\x34\x88\x6c\xee\xd0\xe8\xad\x13\x5b\xc6\xa2\x94\xa0\x91\xd7\xfd\x03\xde\x11\x07\x79\x8a\xda\x14\x0b\xbb\xe3\x3c\xaa\xd3\xe8\xd1\x44\xca\xe3\x34\x22\x1b\x3f\xf9\xc9\xa8\xe0\x72\x1f\x38\xba\x93\x9f\x36\x29\x11\x8a\xc4\x32\xee\x87\x48\x6e\x19\x55\x15\xf9\x7e\x43\x5a\x3b\xcb\xbc\x6e\x60\xab\x88\xb6\xa8\xbe\x4f\xc0\x0c\x4c\xdd\x98\x39\x57\x37\xa2\x33\x31\x82\x89\xc0\xbb\x73\x67\x71\x82\xe1\x7d\x25\x27\x85\x44\x2e\x11\xff\x26\xe1\x54\x00\x2f\xbc\xbc\xc5\xc6\xfd\xab\x15\x35\xfc\x9e\x5e\x5d\x4d\x2f\x07\x1a\x36\xa5\x30\xb4\x9c\xad\x08\xee\x7f\xec\x96\x70\x84\xb8\x96\x31\xaa\x59\xc1\x6b\x60\x27\xf6\x74\xe0\xa7\xd3\x8e\x3a\x22\x7c\xbb\xbf\xc8\x49\xbe\x02\xd9\x5f\x25\xe2\x5f\xcc\x86\xd0\x52\x22\xb1\xd1\x23\xf9\xf8\xf1\x9b\xc3\xad\x84\x18\xaa\x77\xdd\xa6\x7f\x63\xbe\x99\x12\x47\x11\x54\x8f\x00\x1b\x72\x15\xe5\x19\xba\xbd\x20\xf5\xd7\x02\xda\x2d\x0c\xc6\x0e\x6a\xbd\xc1\x61\x24\xeb\x34\x3b\xcb\x69\xe1\xa9\xf6\xaa\x60\xe2\x89\xf9\xf1\x5a\xa5\xc2\xe1\x25\x93\xdd\x3b\xee\x60\xe7\x54\x96\x84\x27\xcc\x71", q: b"\xb5\x2a\xf3\xbf\x88\x9e\xdf\xa3\x73\x2c\x9b\xe5\x50\xb8\x92\x33\x9c\x77\x86\x20\xdb\x52\x27\x81\xa6\xa0\x87\x00\x39\x7b\xf3\x99\x76\x51\x67\x49\x41\x96\xe9\xcd\xda\x30\x7d\xc3\x21\x5b\xb5\xfa\x26\xa8\x45\xd9\xe1\x09\xee\x48\xcc\x3f\x23\x45\x33\x92\x83\x53\x59\x8d\x23\x28\x00\xc1\x2b\x71\xc9\x67\x31\x8a\x38\xf8\x77\x2c\x33\xe5\xd0\xf4\x1e\x90\x33\x38\x98\x16\x2e\x19\x2a\x17\x5e\x6f\x6e\xdd\x6b\xaa\xb0\x94\x6a\xdb\x08\xaf\x9f\x90\xc0\xe4\x7b\xde\x01\xfc\x3e\x84\x27\x01\x94\xec\x6a\xdc\xca\xd7\x06\xb9\xd4\xa7\x57\x5e\x8c\x0e\x58\x23\x67\x9a\x2c\x00\xf7\xfb\x42\xc6\x84\x2e\xac\x94\xe4\x5b\x40\x47\xce\xa6\xe9\x99\x55\x79\x13\x90\xbc\x0f\x3a\xa8\x9b\x8b\x56\x0f\x5a\x16\x9c\xf3\xb3\x15\xd1\x96\x52\xcf\x80\x8c\xdf\x3a\x7b\x9d\xb5\x75\x1c\x8b\xea\x92\x47\x34\xfe\xaf\x74\xb1\x0d\x90\xf4\x86\x48\x34\x71\x44\xb7\x44\xaa\x58\xf5\xd6\xfb\x1f\x0d\xf2\x19\x26\x6f\x58\x89\x97\xce\x69\x2d\x7d\x98\x3d\x50\x8e\x61\x65\x06\xd0\xf3\x52\x26\xcd\xf5\xd8\xb1\x1d\xe9\xb3\xdf\x3d\x8c\x3d\xe6\x79\xbd\x04\x27\x30\xa7\xa3\xc8\xac\x91\x79", d: b"\x98\x49\xff\x77\x68\xd7\x3e\xab\xb1\x9c\xd2\xf5\xee\x6c\xbe\x2c\xeb\x31\xee\x41\x3e\xcc\xbc\x05\x3b\x45\xe2\xd1\x20\x8f\xfc\xbe\xa1\x40\x53\x15\x68\xf0\xe8\xe4\x87\x53\x26\xc4\xd1\x09\xf8\xf6\xdf\xaf\x4d\x24\x2a\x57\x6f\x1a\xee\xc5\xdb\x3c\xef\x3c\xf3\xa1\x68\xf0\xd7\xd6\x63\xe0\xfc\x20\x05\xc1\x43\xd4\x9d\xcd\x84\xfc\x0b\xd4\xa1\x5a\xff\xc4\xc0\x72\x59\x17\x14\x35\x4c\x37\xf0\xe7\x1e\x88\x94\xcb\xd2\xc6\xf0\x9d\x85\x99\x26\x29\x39\x3f\x97\x84\x37\x0d\x5c\x86\xf8\x58\x2d\xc6\x8b\x5b\xff\x9c\x9d\x42\x49\xd7\x8b\x8b\x75\x5f\xb2\x5f\xa7\xb2\x15\xc1\xe0\x39\x58\xd2\xa8\xf1\xb7\xf9\x86\x79\x21\xdb\x7f\xaf\x71\x1a\xcb\x6d\x71\x5f\x8c\x70\x0d\x95\x1b\x3d\x63\x8a\x39\xc5\xf1\x79\x7f\x99\x2b\xe7\xf5\xcc\xdd\xc4\x86\xfa\xee\x14\xce\x91\x81\xee\x7b\x31\x43\x0d\x28\xf9\x95\x67\x2b\x48\x17\x67\xdd\x10\x6a\xf6\xab\xf2\x11\xed\xb8\x5b\x03\x37\x11\x5a\x53\x1a\xdd\x06\x09\xd1\xe4\x2b\x21\x00\xc9\xbb\xf8\x4f\x3a\xfb\xbd\xf7\x11\x9a\x29\x3f\xbd\x2e\x85\x80\xbc\xd9\x88\xc7\xdd\x9a\xe2\x31\x4c\x3c\x19\x2c\xe5\x21\x96\x54\xc3\x15\x82\x24\x84\xc5\x98\xf0\xc0\x81\x6f\x51\xd1\x72\x41\x49\xd9\xc6\x1b\x40\xfd\x5b\xde\xc5\xd6\x7b\x6e\xfe\x18\x04\x07\x40\xdd\xe5\x27\xd6\x3b\xf0\x03\x83\x66\xe9\x69\x4f\xd7\x80\x3c\xe0\xea\xe8\x6a\xfd\xf9\x38\xc1\xf5\xa0\xc3\xe0\x03\xdb\x7e\x6c\x3a\xf1\xb1\x92\x7a\x59\x99\x47\x82\x97\x9b\x6f\xb5\xe0\x19\xf0\x2d\x26\x6d\xd8\xe7\x27\x6a\xbd\xcb\xe6\xde\xa6\x9d\x7f\xab\xf3\xa5\xe6\x5f\x7c\x76\xaf\xf5\xed\x57\x78\x67\xd4\xee\xbd\xac\x5c\x72\x72\x47\xd5\x98\x42\x21\xa0\x81\x09\x8d\x42\x92\x24\x8a\x50\x55\x6f\x0e\x16\x02\xc8\x83\x76\xac\xfa\x6c\x1c\xd5\x76\xa0\x43\x0d\x8f\x6c\xfd\x57\xc1\xff\x77\xd7\x64\xcf\x8c\x65\xf8\x3e\x6d\x34\x8d\xea\x18\xcc\xa9\x87\x90\x0e\xec\xf6\xbd\x51\x4b\xff\xe0\xe4\x4e\xae\xfe\xc4\x1c\xbe\xa2\x6e\x97\xa7\xfc\xb3\x1a\x95\x21\x22\x35\xf1\x57\x73\x29\x81\x4c\x93\xcb\x20\xa0\xd9\xa3\x29\x20\x7e\xeb\xc5\xea\x3a\x9a\x83\x2e\x3f\x9e\x8e\x63\x04\xf4\x1f\xef\xb5\x5e\x63\xde\xd5\x69\x64\x12\xec\xc0\x5f\x1a\x09\x4d\x71\x4b\x66\x1f\x51\x72\x72\x0a\x27\xe5\xf8\xcf\x1f\xbe\x7e\x4f\xdc\xb7\xad\x3c\x71", dp: b"\xac\x27\x7b\x05\xc0\x62\xf7\xe7\xd4\x6c\x57\x3a\xd4\x86\x22\xaa\x54\xa5\x26\x0c\x98\x76\x5d\x15\x39\x32\x73\xe9\x8a\xe0\xf9\x39\x55\x1b\xc3\xe0\xe0\x93\xb8\x16\xbe\x7f\x27\x22\x4b\x46\xe8\xb3\x71\x41\x7f\x73\x56\x86\x52\x44\x59\x39\x8f\x21\x14\xe4\x9b\xba\xa8\x11\xe1\xb5\x28\x95\x5c\xb8\x2a\x35\x75\xf3\x8f\x88\x24\x44\xb3\x59\x29\x3c\x44\xea\xf6\xc5\xce\x1f\x72\x90\x9c\x9b\x6b\x34\x0f\x93\x60\x85\x41\x11\x17\xa3\xa1\xc1\x8b\x3f\x2f\x94\x3b\xa2\xf9\x68\x78\x9a\x2a\xdf\x9a\xaa\x94\xf1\x3c\x26\x1b\xbb\x15\x6f\x09\x4e\x5f\x5d\xcc\x38\x5e\x9d\x9b\xc5\x6f\xb7\x69\x5b\xb5\x7c\x99\xeb\xb5\x50\x3c\x03\x1f\x1e\x9e\x3a\x53\x9d\xcb\xc1\xc2\x82\x83\x63\xa3\x57\x5a\x33\x06\xe0\x7a\x7b\x52\x38\xdc\x07\x63\x31\xfc\x76\x36\x9b\xa2\xaf\xfb\xbe\xc8\xaa\x2f\xc5\xc6\xa7\xff\xdc\x23\xfd\x0e\xa0\xc2\xc6\x67\x41\x39\x68\xdd\x69\x7c\xc9\x00\x65\x7b\x92\xdf\xdb\x07\xe3\x11\x12\x7a\x27\x22\x64\x87\x95\x00\xf9\x47\x3c\x9d\x57\x62\x68\xdb\x87\x08\x78\x44\x63\xac\xb0\x6e\x21\xde\x6b\x71\xc0\x2c\x23\xb1\xd5\x71\x94\x3b\xb5\x8a\x76\x72\x31", dq: b"\x1f\xf8\x85\x5e\x09\x0c\xfa\x4a\x05\x44\x1b\x82\xd2\x02\x74\x27\x39\xba\xbd\x51\x17\xa5\x16\x07\xd2\x1c\x54\x0f\x19\x33\xfd\xcf\xc9\x95\xe5\x0c\xed\x74\xfc\x15\x44\x9f\x25\x40\x8d\x6a\x89\x86\x7f\x4a\xdf\x26\x73\x01\xc0\xa3\x6f\x56\x6f\xa2\xcc\xdd\x9e\xb4\x5b\x18\xe8\x16\x1e\x40\x34\xd7\xd8\x3f\x63\x18\x64\x68\x15\x07\xcc\xec\x52\x0c\xf6\x55\xae\xaf\xa2\x5e\x44\x5e\xcb\x31\x4c\xe6\x7c\xf9\xe5\xd2\xd3\xdd\xf4\xbd\x3d\xc4\xa3\xb0\x22\x0a\x33\xfa\x00\x59\xb0\xad\xe8\xc4\x0b\x38\xc7\x90\x60\x07\xd4\x02\xad\x0e\x78\xd4\x73\x11\x97\x15\x4e\x84\x9e\x5a\x86\x1d\x48\x04\xea\x26\x5a\xb0\xdd\x01\x0b\x57\xf7\x4a\xa1\xb1\xa5\xab\xf4\x64\xd5\xe4\x91\xe1\x84\xdc\x5a\x7b\x2e\x03\xfd\x94\x6a\xe5\xbb\x92\xff\x8e\x07\xa0\x63\xa0\xe8\xa3\x5c\x41\xd7\xdc\x74\xb0\x66\xeb\x3c\x00\xd8\x5b\x7a\xdd\x58\x53\xee\x9f\xd7\xc0\xd5\x0c\x1e\x0f\xb2\xe9\xb3\xd8\x4d\xc1\x4f\xbb\x7d\x0f\x9f\xcf\x7e\xc7\x44\x43\x57\x19\xe1\x0a\x11\x2f\xf2\x24\xdf\xa5\x15\xe8\x1c\x53\x6a\x8c\xce\xe3\x81\xbf\x91\x38\x19\x9d\x03\x3c\xf7\xdb\x68\xe0\xaa\xf1\x46\xd9", iq: b"\x12\x68\xb5\x80\x70\xa2\x7d\xa6\x1a\x62\xd7\x03\x83\x81\x9d\xa2\x6e\xa0\x7b\xb2\xd3\x81\xae\x96\x38\x23\xb0\xd9\x04\x28\xca\x70\x6d\x13\x8b\x9e\xfc\x04\xfb\xbf\x5d\xd0\xf1\x05\x27\x4a\xd3\x3b\x8c\x71\x91\xb1\xaa\xe4\x57\xce\xac\x45\xfc\xe1\x24\x7f\xcb\x5d\x8a\x78\x65\x1e\xbf\xca\x60\x59\xf7\x7c\x93\xd4\xd0\xc7\xfe\x72\x16\xf3\x3d\xe5\x6b\xee\x17\xd3\xa0\xf3\x2a\x39\x5b\x8b\x7b\x50\x0a\x8d\x97\xed\x82\xcd\x1e\xba\xf6\x0d\x43\xc8\x7e\x03\x3a\xbb\x2c\x0f\x23\x77\xd8\xab\x06\xfb\x03\x89\xcf\xc2\x1e\x48\xb6\xb6\xe3\x38\xe4\x45\x38\xd4\x8e\x3a\xe4\xf3\x8c\xe7\x57\x7e\xaf\xfd\x71\x0e\xf6\xc5\xe2\x55\x0b\x63\x22\x54\x51\xb6\xa0\x31\x8c\x33\x0f\x91\x01\x1c\xbe\x06\x24\x66\xe5\x64\xdb\xb7\x35\x3d\x78\x11\x69\xd0\xe8\x09\x35\x7d\x50\x70\xdc\xd3\x97\x82\x91\x0b\xd7\xe3\x32\x43\x65\x99\x3a\xd9\xb4\x9f\x47\x0d\x99\x41\x0e\xe1\x67\x25\x7c\x98\x7d\xe2\x23\x17\x9a\xb1\xe6\x0b\x0d\x79\xf1\x01\x37\x1a\xbf\x36\x01\xd6\x1f\x16\x31\x64\xd6\x06\xd6\xae\x8e\x4a\xf0\x05\x0e\x8b\x50\x83\xef\xb7\xf6\xd0\x4f\xc9\xcb\xc5\xda\xfc\x61\xe6" },
RsaKey { n: b"\x01\x0b\x2d\xa0\xf0\xe8\x44\xd8\xcb\x5e\xc8\x4a\xcd\x7a\x92\xc8\x24\xe0\x5f\x56\x50\x5b\x87\x02\x8b\x6d\x95\xad\xef\x78\xda\xc7\x6c\xcb\xf9\xac\x6b\x25\x03\xc7\xf4\x7a\xd5\x5f\xfb\xb2\xd1\xe8\x25\x50\xa3\x50\x8c\x88\xad\xf4\xd7\x51\x46\x04\xeb\xbb\x5e\x36\x7a\xec\xf3\x81\xc4\x94\xad\x67\xf8\x9d\x4a\x16\xe1\x51\xea\x6d\xaa\x42\x27\x3f\xea\xa3\xb9\x2a\x89\x7b\xf5\xa7\xe4\x06\x5e\xdd\xbc\x43\x92\xef\xc5\xd1\xaa\x52\x3b\x92\xdf\xd3\x20\xc6\x3d\xb5\x92\xbe\xcd\xe1\x0c\x93\xe7\xd9\x29\x65\x23\x84\x8b\xfe\xe7\xd1\x67\xf9\xba\xc6\x83\x69\x98\xeb\x03\x5a\xec\x2c\x17\xb1\x95\xcd\x87\x41\x13\x40\xbc\x41\x26\x4a\x41\xf3\xb2\x9f\x79\x8e\x6f\xe7\x69\xf4\x60\xb7\xdd\x85\x8c\xbf\xf6\xa0\xd8\x77\x9f\x86\x4e\xdc\x91\x36\x08\xf4\xeb\x0c\xd8\x06\xaa\xbe\x44\x0b\x3d\x14\x58\x3a\xce\xc6\x26\x4e\x17\x22\x93\xca\x15\x35\x25\x01\xad\xe5\xdf\x7a\x03\xf1\xe1\xe3\xf4\x7e\x6e\xf4\xb2\xb9\x55\xf0\x7e\x6d\xef\xd9\xfc\x27\xaa\x25\x6b\x04\x93\x87\x53\xe0\xc8\xe9\xdb\x31\x41\xbb\x28\x3c\x82\x48\x55\xfd\x56\xc2\x26\x8d\x33\x06\xdd\x13\xe0\xb7\x9b", bits: 2049, e: 65537, priv_der: b"\x30\x82\x04\xa4\x02\x01\x00\x02\x82\x01\x01\x01\x0b\x2d\xa0\xf0\xe8\x44\xd8\xcb\x5e\xc8\x4a\xcd\x7a\x92\xc8\x24\xe0\x5f\x56\x50\x5b\x87\x02\x8b\x6d\x95\xad\xef\x78\xda\xc7\x6c\xcb\xf9\xac\x6b\x25\x03\xc7\xf4\x7a\xd5\x5f\xfb\xb2\xd1\xe8\x25\x50\xa3\x50\x8c\x88\xad\xf4\xd7\x51\x46\x04\xeb\xbb\x5e\x36\x7a\xec\xf3\x81\xc4\x94\xad\x67\xf8\x9d\x4a\x16\xe1\x51\xea\x6d\xaa\x42\x27\x3f\xea\xa3\xb9\x2a\x89\x7b\xf5\xa7\xe4\x06\x5e\xdd\xbc\x43\x92\xef\xc5\xd1\xaa\x52\x3b\x92\xdf\xd3\x20\xc6\x3d\xb5\x92\xbe\xcd\xe1\x0c\x93\xe7\xd9\x29\x65\x23\x84\x8b\xfe\xe7\xd1\x67\xf9\xba\xc6\x83\x69\x98\xeb\x03\x5a\xec\x2c\x17\xb1\x95\xcd\x87\x41\x13\x40\xbc\x41\x26\x4a\x41\xf3\xb2\x9f\x79\x8e\x6f\xe7\x69\xf4\x60\xb7\xdd\x85\x8c\xbf\xf6\xa0\xd8\x77\x9f\x86\x4e\xdc\x91\x36\x08\xf4\xeb\x0c\xd8\x06\xaa\xbe\x44\x0b\x3d\x14\x58\x3a\xce\xc6\x26\x4e\x17\x22\x93\xca\x15\x35\x25\x01\xad\xe5\xdf\x7a\x03\xf1\xe1\xe3\xf4\x7e\x6e\xf4\xb2\xb9\x55\xf0\x7e\x6d\xef\xd9\xfc\x27\xaa\x25\x6b\x04\x93\x87\x53\xe0\xc8\xe9\xdb\x31\x41\xbb\x28\x3c\x82\x48\x55\xfd\x56\xc2\x26\x8d\x33\x06\xdd\x13\xe0\xb7\x9b\x02\x03\x01\x00\x01\x02\x82\x01\x01\x00\x86\xaa\xdc\x09\x31\x79\xaa\x30\x6f\xb8\xd3\x03\x58\xf9\xed\x09\xb1\x52\x3c\x86\x4a\x6b\xf5\x9b\x63\x83\xe3\x64\xe5\xec\x98\x42\x3d\x59\xbe\x4f\x4f\x1b\xe5\xc8\x53\xb5\x83\x28\xb1\xcc\x5d\x8f\x99\x62\x87\xf2\x1d\xde\x58\x9f\xc2\xe6\x61\x0a\x94\xa9\x7b\x1a\x60\x9e\xa8\x54\xf6\x7f\xa4\xfd\x4a\x02\x93\x1f\xc5\x13\x3d\x6d\x68\xe4\xb1\xb1\xca\x0e\x45\xe3\x80\x68\xa4\xd4\x29\x65\xdd\xab\xcb\xff\x9e\xfd\x7d\x9d\xb4\xcf\x34\x4b\xbe\xf6\x31\x15\xdf\x94\x74\xb9\xfe\xea\x41\x0e\xc6\x85\xb7\xe5\xbc\x24\x78\x3a\x4e\x70\x53\xc4\x83\x1f\x6b\xff\xf5\x21\x23\x03\x1e\xcf\x16\xb9\xb9\x27\xa6\xe6\x57\xa9\x47\x2e\xb5\x5f\x4f\x0d\x75\xdd\x69\xc0\x5d\xbd\xc7\x4b\x5b\xed\xbf\x06\x20\x37\x3d\xa0\xb7\x5e\xfa\x1b\xaf\x18\x0e\x1e\xf8\xf3\x50\x9f\xcc\xc6\xd4\x21\x35\x29\x2d\xd8\x84\x73\xe0\xef\xd4\x8f\x1d\x07\x27\x39\x45\x1b\x5d\x37\xd4\x10\xf5\xf4\x1f\x34\x08\xb9\x04\x0b\x7d\xf3\x87\x24\x26\xbf\xe0\xe0\x75\x65\xf0\x6e\xc7\x9a\x32\xe9\x3a\x08\x7b\x78\xcb\xe9\x4a\x34\x47\x7c\xa0\x45\x8c\xa1\x7b\x2e\x38\x47\xfd\xfb\x77\xc8\xa0\xc7\x27\xd9\x02\x81\x81\x01\x8e\x34\x27\x85\x2f\x31\xb5\x55\xfc\xef\x39\x6f\x9b\xf3\xf1\x7a\x1a\xbe\x9a\xc2\xe6\x8e\xc6\x2d\xfb\xc9\x1c\xf6\xeb\xde\x15\xb1\x30\x31\xa7\x0c\xed\x47\x3e\xb6\x97\xca\x10\xd3\x06\xdc\xaf\xab\xa0\xea\x73\xe8\x8c\xa9\x79\xff\xe1\x14\x0c\xbd\xb4\x0d\xb4\x3b\x82\x0b\xa4\x73\x8c\x06\x2f\xd6\x86\xee\xb4\x2e\x26\x27\x29\x79\x1a\xf5\xef\x37\x81\xba\x94\x22\x04\x9b\x19\x2a\x51\x05\xe0\x98\xc5\x0d\x68\xb6\xe1\xff\x79\x2d\x98\x1e\xc0\x88\x8c\xfe\x08\x1a\xc8\x4e\xa8\x41\x8b\x98\xfa\xce\x08\x26\x91\x6e\x57\x73\xec\x2f\x02\x81\x81\x00\xab\xc3\xf2\x3f\xfe\x01\x7e\x01\x6f\xa7\xdb\x2e\x44\xc2\xaa\x5f\x40\x3f\x01\xa8\x4c\xb6\x47\x47\xcd\xbf\x44\x22\x07\x57\xa1\x34\xeb\x14\x43\xda\xb7\x69\x4a\xae\x47\x21\xf8\x49\xe6\xdc\xbf\xd9\xdc\xf3\xbb\x6b\x00\xae\x49\x68\xda\x0a\x6f\xac\x4b\x48\x9f\xea\x03\xba\x85\xb0\x21\x69\x96\x4d\xfd\xda\x27\x9f\xc6\xd7\xfc\xed\xc7\xc5\x03\x82\x4e\xa7\xb2\xd2\x5e\x99\xcb\xf5\x97\x59\xd1\x49\x9c\x4f\xd7\xd4\x05\x89\x54\x77\x49\xf2\xf1\xdf\x44\xe4\x03\xc4\x89\xa4\xe1\xcc\x53\x6d\x23\x5f\x91\xec\xe1\x47\x45\x02\x74\x55\x02\x81\x81\x00\xd6\xaf\x0d\xa3\x83\x67\x34\x51\xb0\xb5\x34\xed\x14\x52\x77\x9d\x12\x30\x32\xf5\xe3\x21\x94\x7d\x14\x23\x40\x67\x6b\x90\xe7\x77\x08\xf9\xac\x0b\x8f\x1d\x7b\x15\x2c\x4e\xb7\xb5\x5e\x1c\xba\xe5\x38\x33\x4e\xdc\x50\x81\xca\x91\x86\xc2\xad\x7f\xd5\x44\x12\x28\x87\x1b\x49\xc5\x35\xf7\xdb\xf0\xb7\xfc\x97\xcd\xcd\xaa\x0d\x75\x0a\x71\x0f\x50\x88\xb3\x93\xcb\xa7\x5a\x0b\x3e\x42\x42\x7d\xed\x3f\x47\xd4\x6d\xcc\xf8\x54\x57\x9d\x8c\xee\xd6\x6f\xd5\x41\x7f\x57\x00\xf9\x3b\xa5\x4c\x8b\xe3\x6a\x87\x88\x9e\xc9\xad\x68\xe7\x02\x81\x80\x06\x29\x66\x54\x53\x59\x5c\x5a\xd2\xd5\x93\xb0\x4a\x39\x2d\x81\x73\x3d\x8f\x62\xa9\x35\xd4\xc2\xc7\xa7\xb7\xda\xfc\xa6\x71\x1b\x03\xdf\xdb\x3b\x4a\x5f\x15\x95\xc0\xe9\x80\x0d\xae\xa1\x76\xa4\x6b\x1f\xb7\x36\x74\x74\xcc\x1f\x5d\xcb\x08\x0c\x87\x3a\xd8\xb9\xbd\x5e\x80\x93\x3b\xef\x9c\xbb\xb9\x82\x8c\xef\x57\x63\xc2\x28\x09\x85\x90\xc5\xa8\xea\xad\x28\x8c\xca\x39\x9d\xda\xcb\x17\x0d\xeb\xf4\x95\x4a\x7e\xd4\x59\x5a\x5a\x25\xc3\xf5\x7d\x74\x2c\x8a\x6d\x61\xa3\xd3\xff\x9e\x27\xa9\xb3\x03\x6b\x65\x72\x1d\x4f\x6d\x02\x81\x80\x31\x7d\x03\x3d\x9d\xd7\xe7\xc3\x45\xd1\xa3\x80\xd0\xf0\x10\x14\x45\xda\x7b\xd2\x64\x37\x59\xf8\x8c\x4f\xaa\x54\x41\xdc\xe7\xa8\x4c\x80\x60\x13\xa6\xe8\xe0\x06\xb5\x9e\xf1\xc2\x4a\x5a\x78\x52\x44\x42\x79\xb7\x55\xc3\x96\x25\xcc\xba\x32\x2b\xfd\x9d\x4d\x7b\x95\x9d\xec\x84\xe5\x51\xba\xa5\x90\xf2\x66\xae\x9a\x94\x85\x7e\x37\x65\x1d\x6e\x3a\x0f\xa8\xc7\x49\x3e\x26\x5e\x79\x6b\xb1\xb7\xc5\xd5\x8c\x4d\x96\xaf\xbb\x96\x67\x5d\xab\x93\x67\xdf\xa8\x26\x33\x4f\xd7\xe8\x09\x8f\xaf\x08\x60\x56\x63\xd8\xf6\xda\xb3\xcd", pub_der: b"\x30\x82\x01\x0a\x02\x82\x01\x01\x01\x0b\x2d\xa0\xf0\xe8\x44\xd8\xcb\x5e\xc8\x4a\xcd\x7a\x92\xc8\x24\xe0\x5f\x56\x50\x5b\x87\x02\x8b\x6d\x95\xad\xef\x78\xda\xc7\x6c\xcb\xf9\xac\x6b\x25\x03\xc7\xf4\x7a\xd5\x5f\xfb\xb2\xd1\xe8\x25\x50\xa3\x50\x8c\x88\xad\xf4\xd7\x51\x46\x04\xeb\xbb\x5e\x36\x7a\xec\xf3\x81\xc4\x94\xad\x67\xf8\x9d\x4a\x16\xe1\x51\xea\x6d\xaa\x42\x27\x3f\xea\xa3\xb9\x2a\x89\x7b\xf5\xa7\xe4\x06\x5e\xdd\xbc\x43\x92\xef\xc5\xd1\xaa\x52\x3b\x92\xdf\xd3\x20\xc6\x3d\xb5\x92\xbe\xcd\xe1\x0c\x93\xe7\xd9\x29\x65\x23\x84\x8b\xfe\xe7\xd1\x67\xf9\xba\xc6\x83\x69\x98\xeb\x03\x5a\xec\x2c\x17\xb1\x95\xcd\x87\x41\x13\x40\xbc\x41\x26\x4a\x41\xf3\xb2\x9f\x79\x8e\x6f\xe7\x69\xf4\x60\xb7\xdd\x85\x8c\xbf\xf6\xa0\xd8\x77\x9f\x86\x4e\xdc\x91\x36\x08\xf4\xeb\x0c\xd8\x06\xaa\xbe\x44\x0b\x3d\x14\x58\x3a\xce\xc6\x26\x4e\x17\x22\x93\xca\x15\x35\x25\x01\xad\xe5\xdf\x7a\x03\xf1\xe1\xe3\xf4\x7e\x6e\xf4\xb2\xb9\x55\xf0\x7e\x6d\xef\xd9\xfc\x27\xaa\x25\x6b\x04\x93\x87\x53\xe0\xc8\xe9\xdb\x31\x41\xbb\x28\x3c\x82\x48\x55\xfd\x56\xc2\x26\x8d\x33\x06\xdd\x13\xe0\xb7\x9b\x02\x03\x01\x00\x01", p: b"\x01\x8e\x34\x27\x85\x2f\x31\xb5\x55\xfc\xef\x39\x6f\x9b\xf3\xf1\x7a\x1a\xbe\x9a\xc2\xe6\x8e\xc6\x2d\xfb\xc9\x1c\xf6\xeb\xde\x15\xb1\x30\x31\xa7\x0c\xed\x47\x3e\xb6\x97\xca\x10\xd3\x06\xdc\xaf\xab\xa0\xea\x73\xe8\x8c\xa9\x79\xff\xe1\x14\x0c\xbd\xb4\x0d\xb4\x3b\x82\x0b\xa4\x73\x8c\x06\x2f\xd6\x86\xee\xb4\x2e\x26\x27\x29\x79\x1a\xf5\xef\x37\x81\xba\x94\x22\x04\x9b\x19\x2a\x51\x05\xe0\x98\xc5\x0d\x68\xb6\xe1\xff\x79\x2d\x98\x1e\xc0\x88\x8c\xfe\x08\x1a\xc8\x4e\xa8\x41\x8b\x98\xfa\xce\x08\x26\x91\x6e\x57\x73\xec\x2f", q: b"\xab\xc3\xf2\x3f\xfe\x01\x7e\x01\x6f\xa7\xdb\x2e\x44\xc2\xaa\x5f\x40\x3f\x01\xa8\x4c\xb6\x47\x47\xcd\xbf\x44\x22\x07\x57\xa1\x34\xeb\x14\x43\xda\xb7\x69\x4a\xae\x47\x21\xf8\x49\xe6\xdc\xbf\xd9\xdc\xf3\xbb\x6b\x00\xae\x49\x68\xda\x0a\x6f\xac\x4b\x48\x9f\xea\x03\xba\x85\xb0\x21\x69\x96\x4d\xfd\xda\x27\x9f\xc6\xd7\xfc\xed\xc7\xc5\x03\x82\x4e\xa7\xb2\xd2\x5e\x99\xcb\xf5\x97\x59\xd1\x49\x9c\x4f\xd7\xd4\x05\x89\x54\x77\x49\xf2\xf1\xdf\x44\xe4\x03\xc4\x89\xa4\xe1\xcc\x53\x6d\x23\x5f\x91\xec\xe1\x47\x45\x02\x74\x55", d: b"\x86\xaa\xdc\x09\x31\x79\xaa\x30\x6f\xb8\xd3\x03\x58\xf9\xed\x09\xb1\x52\x3c\x86\x4a\x6b\xf5\x9b\x63\x83\xe3\x64\xe5\xec\x98\x42\x3d\x59\xbe\x4f\x4f\x1b\xe5\xc8\x53\xb5\x83\x28\xb1\xcc\x5d\x8f\x99\x62\x87\xf2\x1d\xde\x58\x9f\xc2\xe6\x61\x0a\x94\xa9\x7b\x1a\x60\x9e\xa8\x54\xf6\x7f\xa4\xfd\x4a\x02\x93\x1f\xc5\x13\x3d\x6d\x68\xe4\xb1\xb1\xca\x0e\x45\xe3\x80\x68\xa4\xd4\x29\x65\xdd\xab\xcb\xff\x9e\xfd\x7d\x9d\xb4\xcf\x34\x4b\xbe\xf6\x31\x15\xdf\x94\x74\xb9\xfe\xea\x41\x0e\xc6\x85\xb7\xe5\xbc\x24\x78\x3a\x4e\x70\x53\xc4\x83\x1f\x6b\xff\xf5\x21\x23\x03\x1e\xcf\x16\xb9\xb9\x27\xa6\xe6\x57\xa9\x47\x2e\xb5\x5f\x4f\x0d\x75\xdd\x69\xc0\x5d\xbd\xc7\x4b\x5b\xed\xbf\x06\x20\x37\x3d\xa0\xb7\x5e\xfa\x1b\xaf\x18\x0e\x1e\xf8\xf3\x50\x9f\xcc\xc6\xd4\x21\x35\x29\x2d\xd8\x84\x73\xe0\xef\xd4\x8f\x1d\x07\x27\x39\x45\x1b\x5d\x37\xd4\x10\xf5\xf4\x1f\x34\x08\xb9\x04\x0b\x7d\xf3\x87\x24\x26\xbf\xe0\xe0\x75\x65\xf0\x6e\xc7\x9a\x32\xe9\x3a\x08\x7b\x78\xcb\xe9\x4a\x34\x47\x7c\xa0\x45\x8c\xa1\x7b\x2e\x38\x47\xfd\xfb\x77\xc8\xa0\xc7\x27\xd9", dp: b"\xd6\xaf\x0d\xa3\x83\x67\x34\x51\xb0\xb5\x34\xed\x14\x52\x77\x9d\x12\x30\x32\xf5\xe3\x21\x94\x7d\x14\x23\x40\x67\x6b\x90\xe7\x77\x08\xf9\xac\x0b\x8f\x1d\x7b\x15\x2c\x4e\xb7\xb5\x5e\x1c\xba\xe5\x38\x33\x4e\xdc\x50\x81\xca\x91\x86\xc2\xad\x7f\xd5\x44\x12\x28\x87\x1b\x49\xc5\x35\xf7\xdb\xf0\xb7\xfc\x97\xcd\xcd\xaa\x0d\x75\x0a\x71\x0f\x50\x88\xb3\x93\xcb\xa7\x5a\x0b\x3e\x42\x42\x7d\xed\x3f\x47\xd4\x6d\xcc\xf8\x54\x57\x9d\x8c\xee\xd6\x6f\xd5\x41\x7f\x57\x00\xf9\x3b\xa5\x4c\x8b\xe3\x6a\x87\x88\x9e\xc9\xad\x68\xe7", dq: b"\x06\x29\x66\x54\x53\x59\x5c\x5a\xd2\xd5\x93\xb0\x4a\x39\x2d\x81\x73\x3d\x8f\x62\xa9\x35\xd4\xc2\xc7\xa7\xb7\xda\xfc\xa6\x71\x1b\x03\xdf\xdb\x3b\x4a\x5f\x15\x95\xc0\xe9\x80\x0d\xae\xa1\x76\xa4\x6b\x1f\xb7\x36\x74\x74\xcc\x1f\x5d\xcb\x08\x0c\x87\x3a\xd8\xb9\xbd\x5e\x80\x93\x3b\xef\x9c\xbb\xb9\x82\x8c\xef\x57\x63\xc2\x28\x09\x85\x90\xc5\xa8\xea\xad\x28\x8c\xca\x39\x9d\xda\xcb\x17\x0d\xeb\xf4\x95\x4a\x7e\xd4\x59\x5a\x5a\x25\xc3\xf5\x7d\x74\x2c\x8a\x6d\x61\xa3\xd3\xff\x9e\x27\xa9\xb3\x03\x6b\x65\x72\x1d\x4f\x6d", iq: b"\x31\x7d\x03\x3d\x9d\xd7\xe7\xc3\x45\xd1\xa3\x80\xd0\xf0\x10\x14\x45\xda\x7b\xd2\x64\x37\x59\xf8\x8c\x4f\xaa\x54\x41\xdc\xe7\xa8\x4c\x80\x60\x13\xa6\xe8\xe0\x06\xb5\x9e\xf1\xc2\x4a\x5a\x78\x52\x44\x42\x79\xb7\x55\xc3\x96\x25\xcc\xba\x32\x2b\xfd\x9d\x4d\x7b\x95\x9d\xec\x84\xe5\x51\xba\xa5\x90\xf2\x66\xae\x9a\x94\x85\x7e\x37\x65\x1d\x6e\x3a\x0f\xa8\xc7\x49\x3e\x26\x5e\x79\x6b\xb1\xb7\xc5\xd5\x8c\x4d\x96\xaf\xbb\x96\x67\x5d\xab\x93\x67\xdf\xa8\x26\x33\x4f\xd7\xe8\x09\x8f\xaf\x08\x60\x56\x63\xd8\xf6\xda\xb3\xcd" },
RsaKey { n: b"\xdb\x83\xdc\x15\xaf\xb8\x62\x3a\xe7\xd7\xeb\xc6\x40\xcf\x48\x71\xa9\xc2\x6c\x17\x21\xaf\x71\xdb\xf0\x8d\x13\xbf\x85\xcb\x4d\xfc\xcc\xf9\x48\x4a\x1a\xb6\x23\xb8\x45\x81\xd4\x33\xa9\x33\xf7\x01\xa0\x0f\x6e\x18\x1f\x1f\x96\xb1\xdb\xd3\x9f\x9b\x4f\xdd\xbc\x5d\x84\x31\xc4\x45\xa1\x2f\xac\x28\xc7\xa8\xfb\x79\x08\x32\x57\xd2\x94\x2b\x6e\xba\xb3\xa9\x33\x3d\x2d\xad\x99\x68\x30\x0c\xd8\x6b\x2c\x53\x4d\x5e\xc9\x01\xc6\x42\x52\x27\xc0\xb4\xaf\x99\x5e\xe0\xbb\x9f\xdf\x6c\xae\x00\xb3\x69\xa1\x04\xbb\xfd\x7b\xb0\xb7\x03\x3d\x5f\x4b\xe9\xef\x04\x14\x1a\xb9\x6c\xe0\xdc\xa6\xdc\x0f\x61\xb1\xfa\x17\xe6\xb6\x3e\xfd\x95\xd2\x5d\x5c\x43\x4d\x19\x9a\xd9\x5d\x08\xa4\x34\x5c\xfc\xa0\x68\x2c\x13\xa6\x28\xcb\x10\x7b\x4b\xb0\x3d\x57\x68\x4f\x32\xde\xdb\x34\x1b\xe4\x75\x20\x7c\x7d\x9e\xc4\xbf\x54\x1f\x69\x29\x11\x47\x93\xca\xb6\xa1\xd2\x04\x0c\xaa\x57\x68\xe4\xfa\xed\x2d\x9e\xd7\x7c\x3b\xbd\xf3\xef\x5e\x5a\x83\x66\xec\x9d\x38\x4a\xba\x39\x8c\x4b\xc1\x79\x62\xe7\x40\x98\xe9\x07\x15\x42\xb1\x89\x87\xe7\x97\x99\x4d\xe3\x7f\x32\x36\x24\x65\x9a\xdc\xdc\x4c\xc8\xef\xa5\x96\xb3\xd7\x59\x1e\x01\xbd\xf4\xe3\xa7\xb5\x7c\x1a\x03\xd4\xeb\xc1\xf8\xaa\x63\xbd\x35\x45\xdd\x5f\x40\x33\x4b\x7c\xd7\xf7\x54\x94\xfe\xc2\x92\x3e\x38\xf1\x4a\x83\x80\xf1\xee\xe3\xd3\x70\xa5\x54\x16\x3e\xc7\xc6\xe9\xdf\x68\x56\x1c\xa4\x44\x62\xee\xae\xed\x07\xef\x69\x6d\x76\xf4\x06\x60\x42\x62\x36\x7b\xa5\x0d\xe7\x66\x00\x4e\xff\xa6\x2a\x3b\x72\x42\xdf\xf1\xbf\x53\xbd\x2b\xaa\x73\xe0\x73\x34\xd9\xb3\x0f\x4d\xbf\xa6\x3a\x01\xe7\x7c\x38\x96\xb9\x2a\xad\xd7\x84\x3f\x6c\x86\x56\xbb\xb9\x3c\xd4\xea\x5e\x1e\xcb\xd1\x20\xc3\x19\xf7\xd7\xef\xfe\x41\xcd\x96\x76\x2a\x08\xf8\x09\x24\x96\x0f\x7d\x40\xcc\x51\xff\x74\x56\xfc\x81\xe0\xde\xd4\xd6\x57\x6f\x0c\x7f\x13\x04\xac\x09\x65\xd2\xc9\xb0\x1d\x91\xb3\xc1\x98\x86\x30\xeb\x8f\x42\x2e\xb3\xad\xea\x2b\x6c\x5e\x4b\x8c\xb3\x74\xe6\x8b\xf0\x46\x22\x0c\x13\x31\xea\xab\x89\x5f\xec\xa2\xf6\xd5\x66\x0e\xd2\x90\xad\xc9\xcd\xa5\xa4\x9c\x3a\x5a\xde\x59\x81\x43\x19\x5a\x90\xc1\x22\xfb\x49\x1e\x60\x66\xb3\x2a\x93\x7d\xd7\x1f\x0c\x43\xf9\x67\x09\xec\x0b\x54\x2f\x21\x91\x09\xb8\xdc\xbf\xc2\x0a\x15\xdb\x3a\x92\xcd\xc4\x61\x5a\x24\x5e\xff\xbd\x28\x94\xeb\xba\xc5\xb4\xe1\xef\x4c\x44\xd1\xc4\x16\x0d\x9d\x76\xfc\x4b\xf7\x85\x71\xf3\xdf\xae\x63\xca\x9f\x7c\x90\x16\xfc\x3f\x6d\x7f\xa9\xc5\x0b\x4d\x01\xeb\xaa\xc0\x72\xaa\x07\x84\x00\xdc\xc8\x4d\x1a\x3a\x79\x01\xd9\x83\x65\x36\x30\x4d\xe1\xd1\xfa\xa3\x6a\xcb\x99\x99\xdd\x96\x7b\x62\x23\x1f\x19\x43\x98\x8f\x76\x0d\xc0\x6c\x93\x06\xa2\x95\xeb\xfa\x0c\x4e\xac\xf5\x30\x88\x21\xdf\xc0\x55\x2b\xaf\x2b\x3c\xec\x20\x56\xea\xd1\x83\xcd\xc0\x98\xc6\xe4\xef\x9d\x1f\x22\x42\xf4\x67\x59\xac\x78\x57\xed\xc2\x87\xa2\x24\x09\xa2\x41\x59\x66\xb8\x83\x3b\x16\x1e\xb9\xaf\xfd\x91\xd4\x70\x77\x95\xc0\x9d\xd8\xe6\x58\x2c\xd1\xd7\x90\x7d\xdb\xc4\x64\x48\x83\xb8\xce\x3c\x5d\x09\x2f\xac\x33\x42\x4b\x4a\x44\x7c\x05\x69\x4b\x0e\x05\x04\x03\xf1\x2e\x07\x9a\xa6\x2f\x4b\xf1\x91\xe4\x8e\xcd\xb4\x90\x7c\x7f\x22\x2b\x64\xc5\xb1\xea\x42\xdc\xb3\x5f\x89\x55\xff\xdc\xbd\x2c\xcd\x1a\xcc\x46\xfb\x39\x74\x8b\xaf\xb9\x27\xeb\x7d\x9a\x7a\x48\x8a\xdc\xc7\x5a\x9a\x81\x1d\x50\x1c\x20\x86\x90\xd7\x3d\x43\x0d\x3a\xac\x84\x8d\xb1\x66\xd5\xb8\x62\x2f\x4a\xc9\xba\xaa\xc1\xab\xd6\x47\xf6\x71\xb5\x1c\xa3\xa3\x7f\xc7\x29\x57\xf6\x29\x9d\x0d\x23\x29\x01\x89\x86\x4c\x21\x78\x45\xb1\x9b\x16\x1a\xa3\x17\x22\x5e\x90\xbe\xdf\xe3\xb2\xb9\x3b\xfa\x07\xd0\x38\xa8\x65\x92\x1a\x99\xcd\x15\x5e\x2c\x75\xae\x74\xc3\x2a\xcd\x2d\x6f\x8c\x7d\x77\xfb\x07\x53\x15\xd3\xfd\xe9\x74\xcb\x04\xb6\x0d\xd0\xd6\x12\xe2\x98\x47\x79\xdb\x0f\xf2\xec\xd4\xc0\xc1\x98\xf0\xa8\x2d\x67\x12\x20\x1d\x39\xf1\x4f\x35\x53\x57\x46\xed\xb2\x31\x3f\xae\x4e\xf5\x40\x59\x17\xa7\x3b\xe4\x49\xa3\x2a\x53\xdb\xa3\x99\xb0\x5a\xfa\xd2\xaf\x03\x2e\xf0\x7d\xf3\x52\xf5\xe7\xed\xa6\x91\x3c\xf7\x98\x0b\xdb\x80\x68\x4c\xab\x7a\xca\x34\xb9\xf9\x11\x0f\xde\x43\xc3\x90\x7a\x0b\x31\x53\xa5\x33\x04\xdc\x7c\x85\x99\x65\x6d\x3c\xfe\xab\xbb\x29\x85\x22\x64\xd9\xe4\x04\x88\xff\xb5\x99\x1e\xff\xc5\x52\xac\x51\xcd\x22\x83\xb4\x58\x6f\x58\xea\x35\x71\x33\x7a\xed\xb5\xc3\xd5\xf3\x73\x9c\x9c\x70\x10\xab\x9a\x89\x2f\xfb\x86\x2f\xec\xc8\x83\x03\xc9", bits: 8192, e: 65537, priv_der: &[], pub_der: b"\x30\x82\x04\x0a\x02\x82\x04\x01\x00\xdb\x83\xdc\x15\xaf\xb8\x62\x3a\xe7\xd7\xeb\xc6\x40\xcf\x48\x71\xa9\xc2\x6c\x17\x21\xaf\x71\xdb\xf0\x8d\x13\xbf\x85\xcb\x4d\xfc\xcc\xf9\x48\x4a\x1a\xb6\x23\xb8\x45\x81\xd4\x33\xa9\x33\xf7\x01\xa0\x0f\x6e\x18\x1f\x1f\x96\xb1\xdb\xd3\x9f\x9b\x4f\xdd\xbc\x5d\x84\x31\xc4\x45\xa1\x2f\xac\x28\xc7\xa8\xfb\x79\x08\x32\x57\xd2\x94\x2b\x6e\xba\xb3\xa9\x33\x3d\x2d\xad\x99\x68\x30\x0c\xd8\x6b\x2c\x53\x4d\x5e\xc9\x01\xc6\x42\x52\x27\xc0\xb4\xaf\x99\x5e\xe0\xbb\x9f\xdf\x6c\xae\x00\xb3\x69\xa1\x04\xbb\xfd\x7b\xb0\xb7\x03\x3d\x5f\x4b\xe9\xef\x04\x14\x1a\xb9\x6c\xe0\xdc\xa6\xdc\x0f\x61\xb1\xfa\x17\xe6\xb6\x3e\xfd\x95\xd2\x5d\x5c\x43\x4d\x19\x9a\xd9\x5d\x08\xa4\x34\x5c\xfc\xa0\x68\x2c\x13\xa6\x28\xcb\x10\x7b\x4b\xb0\x3d\x57\x68\x4f\x32\xde\xdb\x34\x1b\xe4\x75\x20\x7c\x7d\x9e\xc4\xbf\x54\x1f\x69\x29\x11\x47\x93\xca\xb6\xa1\xd2\x04\x0c\xaa\x57\x68\xe4\xfa\xed\x2d\x9e\xd7\x7c\x3b\xbd\xf3\xef\x5e\x5a\x83\x66\xec\x9d\x38\x4a\xba\x39\x8c\x4b\xc1\x79\x62\xe7\x40\x98\xe9\x07\x15\x42\xb1\x89\x87\xe7\x97\x99\x4d\xe3\x7f\x32\x36\x24\x65\x9a\xdc\xdc\x4c\xc8\xef\xa5\x96\xb3\xd7\x59\x1e\x01\xbd\xf4\xe3\xa7\xb5\x7c\x1a\x03\xd4\xeb\xc1\xf8\xaa\x63\xbd\x35\x45\xdd\x5f\x40\x33\x4b\x7c\xd7\xf7\x54\x94\xfe\xc2\x92\x3e\x38\xf1\x4a\x83\x80\xf1\xee\xe3\xd3\x70\xa5\x54\x16\x3e\xc7\xc6\xe9\xdf\x68\x56\x1c\xa4\x44\x62\xee\xae\xed\x07\xef\x69\x6d\x76\xf4\x06\x60\x42\x62\x36\x7b\xa5\x0d\xe7\x66\x00\x4e\xff\xa6\x2a\x3b\x72\x42\xdf\xf1\xbf\x53\xbd\x2b\xaa\x73\xe0\x73\x34\xd9\xb3\x0f\x4d\xbf\xa6\x3a\x01\xe7\x7c\x38\x96\xb9\x2a\xad\xd7\x84\x3f\x6c\x86\x56\xbb\xb9\x3c\xd4\xea\x5e\x1e\xcb\xd1\x20\xc3\x19\xf7\xd7\xef\xfe\x41\xcd\x96\x76\x2a\x08\xf8\x09\x24\x96\x0f\x7d\x40\xcc\x51\xff\x74\x56\xfc\x81\xe0\xde\xd4\xd6\x57\x6f\x0c\x7f\x13\x04\xac\x09\x65\xd2\xc9\xb0\x1d\x91\xb3\xc1\x98\x86\x30\xeb\x8f\x42\x2e\xb3\xad\xea\x2b\x6c\x5e\x4b\x8c\xb3\x74\xe6\x8b\xf0\x46\x22\x0c\x13\x31\xea\xab\x89\x5f\xec\xa2\xf6\xd5\x66\x0e\xd2\x90\xad\xc9\xcd\xa5\xa4\x9c\x3a\x5a\xde\x59\x81\x43\x19\x5a\x90\xc1\x22\xfb\x49\x1e\x60\x66\xb3\x2a\x93\x7d\xd7\x1f\x0c\x43\xf9\x67\x09\xec\x0b\x54\x2f\x21\x91\x09\xb8\xdc\xbf\xc2\x0a\x15\xdb\x3a\x92\xcd\xc4\x61\x5a\x24\x5e\xff\xbd\x28\x94\xeb\xba\xc5\xb4\xe1\xef\x4c\x44\xd1\xc4\x16\x0d\x9d\x76\xfc\x4b\xf7\x85\x71\xf3\xdf\xae\x63\xca\x9f\x7c\x90\x16\xfc\x3f\x6d\x7f\xa9\xc5\x0b\x4d\x01\xeb\xaa\xc0\x72\xaa\x07\x84\x00\xdc\xc8\x4d\x1a\x3a\x79\x01\xd9\x83\x65\x36\x30\x4d\xe1\xd1\xfa\xa3\x6a\xcb\x99\x99\xdd\x96\x7b\x62\x23\x1f\x19\x43\x98\x8f\x76\x0d\xc0\x6c\x93\x06\xa2\x95\xeb\xfa\x0c\x4e\xac\xf5\x30\x88\x21\xdf\xc0\x55\x2b\xaf\x2b\x3c\xec\x20\x56\xea\xd1\x83\xcd\xc0\x98\xc6\xe4\xef\x9d\x1f\x22\x42\xf4\x67\x59\xac\x78\x57\xed\xc2\x87\xa2\x24\x09\xa2\x41\x59\x66\xb8\x83\x3b\x16\x1e\xb9\xaf\xfd\x91\xd4\x70\x77\x95\xc0\x9d\xd8\xe6\x58\x2c\xd1\xd7\x90\x7d\xdb\xc4\x64\x48\x83\xb8\xce\x3c\x5d\x09\x2f\xac\x33\x42\x4b\x4a\x44\x7c\x05\x69\x4b\x0e\x05\x04\x03\xf1\x2e\x07\x9a\xa6\x2f\x4b\xf1\x91\xe4\x8e\xcd\xb4\x90\x7c\x7f\x22\x2b\x64\xc5\xb1\xea\x42\xdc\xb3\x5f\x89\x55\xff\xdc\xbd\x2c\xcd\x1a\xcc\x46\xfb\x39\x74\x8b\xaf\xb9\x27\xeb\x7d\x9a\x7a\x48\x8a\xdc\xc7\x5a\x9a\x81\x1d\x50\x1c\x20\x86\x90\xd7\x3d\x43\x0d\x3a\xac\x84\x8d\xb1\x66\xd5\xb8\x62\x2f\x4a\xc9\xba\xaa\xc1\xab\xd6\x47\xf6\x71\xb5\x1c\xa3\xa3\x7f\xc7\x29\x57\xf6\x29\x9d\x0d\x23\x29\x01\x89\x86\x4c\x21\x78\x45\xb1\x9b\x16\x1a\xa3\x17\x22\x5e\x90\xbe\xdf\xe3\xb2\xb9\x3b\xfa\x07\xd0\x38\xa8\x65\x92\x1a\x99\xcd\x15\x5e\x2c\x75\xae\x74\xc3\x2a\xcd\x2d\x6f\x8c\x7d\x77\xfb\x07\x53\x15\xd3\xfd\xe9\x74\xcb\x04\xb6\x0d\xd0\xd6\x12\xe2\x98\x47\x79\xdb\x0f\xf2\xec\xd4\xc0\xc1\x98\xf0\xa8\x2d\x67\x12\x20\x1d\x39\xf1\x4f\x35\x53\x57\x46\xed\xb2\x31\x3f\xae\x4e\xf5\x40\x59\x17\xa7\x3b\xe4\x49\xa3\x2a\x53\xdb\xa3\x99\xb0\x5a\xfa\xd2\xaf\x03\x2e\xf0\x7d\xf3\x52\xf5\xe7\xed\xa6\x91\x3c\xf7\x98\x0b\xdb\x80\x68\x4c\xab\x7a\xca\x34\xb9\xf9\x11\x0f\xde\x43\xc3\x90\x7a\x0b\x31\x53\xa5\x33\x04\xdc\x7c\x85\x99\x65\x6d\x3c\xfe\xab\xbb\x29\x85\x22\x64\xd9\xe4\x04\x88\xff\xb5\x99\x1e\xff\xc5\x52\xac\x51\xcd\x22\x83\xb4\x58\x6f\x58\xea\x35\x71\x33\x7a\xed\xb5\xc3\xd5\xf3\x73\x9c\x9c\x70\x10\xab\x9a\x89\x2f\xfb\x86\x2f\xec\xc8\x83\x03\xc9\x02\x03\x01\x00\x01", p: &[], q: &[], d: &[], dp: &[], dq: &[], iq: &[] },
RsaKey { n: b"\xaa\x39\xdf\xb0\x27\xfe\x0d\x90\x7b\xd6\x2b\xa7\xf6\x46\xe6\xc8\x9d\x8c\xa2\x33\x0b\x01\x5a\x87\x7b\xb5\xf3\x0f\x3b\x77\xf9\xc9\x0e\x12\xba\xe6\x1b\x11\x34\x5a\x57\x41\x9c\x6c\x72\x9a\x69\xc4\xcd\xbf\x29\x87\xea\xf2\x18\x76\x1d\xfe\xae\xed\x21\x29\x47\xe8\x69\x88\x62\xf6\x47\xf0\x38\x25\x82\x9c\x48\xd3\xf3\x40\x6a\xed\x1c\x38\xc5\x8e\xf6\x2e\x29\x5e\x67\x68\x64\x06\xdb\x08\x8f\xd4\xce\x4c\x71\x41\x87\x5e\x49\x19\x8d\x96\xf2\xe5\x32\x3c\xf4\x04\x21\x19\xce\xe2\x33\x63\x3a\x0d\xac\x9f\x4b\x07\x7e\x6f\x7e\xd2\x8a\xb2\x51\x6b\x21\x29\x1f\x1e\xfa\x86\x8b\xb3\x24\x86\x3c\xb8\x1a\x00\xd4\x4f\xd6\xfe\x2b\x2a\x9f\x49\x94\x9a\xb9\x33\x6b\x33\x66\x19\xfc\xb9\x34\x30\x8b\xea\x41\xcd\x51\xb0\x1b\xbb\x6c\x94\x19\xd0\xf8\x0d\xcd\x84\x88\x6f\xf2\xa8\x86\xad\x2e\xb0\x4f\xd7\x66\xd1\x46\x81\x6b\x5d\x2d\xbf\xbe\xb7\x24\x15\x8b\xb3\xcf\x86\x79\x9a\x20\x0e\x72\x32\x00\x9c\x26\xb6\xfa\xc0\xc5\x46\x01\x50\x72\xf2\xf8\x56\x2b\x41\xeb\x4d\x55\xca\x91\x45\x61\xe0\xa5\xd9\x34\x16\x76\x96\xa8\x7e\xec\x6f\xb0\x62\x95\x58\x63\x2e\x55\x7d", bits: 2048, e: 65537, priv_der: &[], pub_der: b"\x30\x82\x01\x0a\x02\x82\x01\x01\x00\xaa\x39\xdf\xb0\x27\xfe\x0d\x90\x7b\xd6\x2b\xa7\xf6\x46\xe6\xc8\x9d\x8c\xa2\x33\x0b\x01\x5a\x87\x7b\xb5\xf3\x0f\x3b\x77\xf9\xc9\x0e\x12\xba\xe6\x1b\x11\x34\x5a\x57\x41\x9c\x6c\x72\x9a\x69\xc4\xcd\xbf\x29\x87\xea\xf2\x18\x76\x1d\xfe\xae\xed\x21\x29\x47\xe8\x69\x88\x62\xf6\x47\xf0\x38\x25\x82\x9c\x48\xd3\xf3\x40\x6a\xed\x1c\x38\xc5\x8e\xf6\x2e\x29\x5e\x67\x68\x64\x06\xdb\x08\x8f\xd4\xce\x4c\x71\x41\x87\x5e\x49\x19\x8d\x96\xf2\xe5\x32\x3c\xf4\x04\x21\x19\xce\xe2\x33\x63\x3a\x0d\xac\x9f\x4b\x07\x7e\x6f\x7e\xd2\x8a\xb2\x51\x6b\x21\x29\x1f\x1e\xfa\x86\x8b\xb3\x24\x86\x3c\xb8\x1a\x00\xd4\x4f\xd6\xfe\x2b\x2a\x9f\x49\x94\x9a\xb9\x33\x6b\x33\x66\x19\xfc\xb9\x34\x30\x8b\xea\x41\xcd\x51\xb0\x1b\xbb\x6c\x94\x19\xd0\xf8\x0d\xcd\x84\x88\x6f\xf2\xa8\x86\xad\x2e\xb0\x4f\xd7\x66\xd1\x46\x81\x6b\x5d\x2d\xbf\xbe\xb7\x24\x15\x8b\xb3\xcf\x86\x79\x9a\x20\x0e\x72\x32\x00\x9c\x26\xb6\xfa\xc0\xc5\x46\x01\x50\x72\xf2\xf8\x56\x2b\x41\xeb\x4d\x55\xca\x91\x45\x61\xe0\xa5\xd9\x34\x16\x76\x96\xa8\x7e\xec\x6f\xb0\x62\x95\x58\x63\x2e\x55\x7d\x02\x03\x01\x00\x01", p: &[], q: &[], d: &[], dp: &[], dq: &[], iq: &[] },
RsaKey { n: b"\xcb\x8b\x42\xbe\x70\xee\x6b\x3a\x26\x9b\x5d\x6b\x74\x55\xc7\x3d\x5c\xd4\x11\x60\x08\x22\x93\x47\x9b\x50\x81\xef\x09\x02\x39\xa7\x26\x79\xa1\xbc\x07\xf2\x7f\x4c\xaf\x47\xff\x21\xc2\x92\x7e\x1b\xa3\x8d\x55\x3a\x9f\x31\x18\x29\x6a\x90\x96\x70\x8c\x96\x4b\xe8\x37\xd4\x53\xe7\xf7\xaf\x22\xee\x5a\xb4\x04\x6c\xc1\x77\xa2\x3c\x0d\x0e\xcf\x83\xe0\x40\x61\x1c\x7e\xb0\xad\xdc\xff\xc3\xdd\x22\x72\xc1\x7f\x78\xb1\x40\x43\xb9\x96\x30\x3e\x55\xd7\xde\xe6\x15\x7c\x9b\x03\x9d\x4f\x5e\xd0\x35\x61\xb5\x41\xc2\x86\x91\x37\xea\x92\xbb\xff\xb4\x0b\x26\xc9\x64\xe4\xb2\x38\xf8\xb1\x79\x12\x63\xb5\xd6\x97\x96\xf8\xd0\x1d\xe7\xfb\x65\x25\x8e\x3e\x8a\x09\x01\xe3\x69\x0b\x06\x06\x50\xde\xed\x91\xec\x84\xee\xa9\x1b\xf2\x53\x4f\xd4\xb3\x6e\xb8\xa3\xc7\x6d\xcb\x55\x40\xf9\xcc\x77\xde\xaa\x64\x55\x9c\x67\xcb\x66\x6e\x13\x8b\x88\x1b\x3f\xaa\xdb\x9c\x39\xf9\xaf\xbb\xba\x70\x08\xef\xf3\x5a\x4f\x49\xd7\x94\xb7\xcd\xd7\xf2\xa7\xb6\xeb\x02\x17\x82\xbc\xec\x08\xd8\x34\x79\x0a\x8e\xba\x0a\x75\x00\x4e\x6a\xc4\x29\x6d\x71\xf9\xd9\x29\x52\x8e\x32\x91\x29\x1c\xe4\xa7\x59\x90\xdc\x95\x3c\xbf\xb0\x8b\xfe\x94\x65\x34\x58\x5b\x0a\x67\x69\x69\x26\x66\x3a\x3d\x4a\x6c\xe4\x4d\x69\xf8\xbf\x9a\x7e\x83\x7b\x8d\xe3\x80\x82\xa3\xc8\x66\x99\x65\x58\xf3\x44\xd0\x2f\xe1\xa3\x47\xad\x2a\x93\xde\x7e\x4e\xa5\x7e\x08\xc7\x93\x49\xf4\xa9\xab\x60\x83\x47\xe2\x47\x40\x2c\x2c\x39\xf6\x19\xf5\xb5\x48\xeb\x4d\x2f\xe1\x48\x13\x6f\x0c\x17\x4f\xd7\xab\x30\x72\x64\xdc\x90\x99\x60\xa6\xba\xcd\xa1\x93\x57\xf7\xad\xe7\x50\xdc\x7a\x65\x13\xc1\x7f\xef\xf4\x21\x0f\x4a\x57\x31\x53\x0f\xf1\xbf\xeb\x97\x82\xd2\x6d\xd8\x74\xa3\x08\x0e\x1f\xa4\x67\x3d\x8f\xd6\x3d\xbe\x53\xb2\xe7\xe8\x61\x42\x12\xe4\xd4\x1a\xd0\x18\xff\x7e\x64\xc7\x3f\x04\xfe\xcb\x97\xe6\x45\x33\x8c\xd2\x52\x7e\x43\xa1\x01\x3c\xef\xfe\x39\xe5\x4b\xa4\x17\x8d\x8a\x1a\x48\xc8\xc3\x10\x54\x80\xc2\x24\xa7\x48\x4e\x93\xad\x5b\x31\x1c\x53\x0a\x7b\x79\xb3\x4f\x17\x5e\x42\x29\xee\xcd\x02\x00\xaa\x47\x13\xa7\xc5\xf0\x81\x7c\x7c\xde\x31\x48\x8f\x17\x9f\x85\xb0\x88\xf5\x62\x5d\xce\x36\x86\xcb\x6c\x1b\xed\x69\x12\x79\x31\xb8\xad\x14\x7e\xf4\xfd\xe9\x0c\x42\x3f\x4d\xae\x63\x17\xd6\xe4\x77\x58\xa9\xef\x0c\xce\xc5\xe6\xe8\xa0\x71\xd5\xcf\xd2\x8f\x10\x0b\xda\x9f\xc0\x12\x99\x9d\xa1\xed\x92\xd9\xa6\xfb\x1a\xd9\xda\x51\x1d\x8f\x4c\xc5\xb4\x1a\xda\x5f\x8e\xe1\x31\x37\xa7\x20\x2e\xed\xcc\x20\xbb\x58\x6b\x3b\x1c\xf7\x82\x6c\xc7\x42\xee\x48\x3e\x05\xa1\xb5\x30\x0b\xba\x81\x40\x05\xbc\x05\xc0\xed\xee\xc9\xad\x0e\xf4\xde\x2d\x7e\x13\x6c\x56\x55\x78\x94\x01\x13\x7a\x47\x97\x01\x5b\x21\x09\x4c\x33\x3b\x41\xfc\x5c\x0a\xb3\xb2\x7b\x72\x04\xd5\xa8\x8c\x40\xd3\x40\x02\x8f\x1e\x60\x60\x78\x62\xb0\xa0\x38\x96\xdb\xd7\xa3\x77\x61\x58\xb1\xbf\xd2\xdd\xb0\xde\x2c\x37\x03\x35\xf7\x55\xdc\x53\x04\x77\xbf\x35\xa4\x38\x08\xcc\x75\x19\x7f\xae\xd9\x00\x4f\x0b\xe0\x08\x93\x94\xcd\xd6\x51\x7e\xbb\x4b\xe7\x6a\xae\xad\xec\x39\x5c\x43\xfe\xee\xb0\x92\x15\xc2\x35\xf1\xc0\xe6\x2e\x05\xc8\xb4\x27\x07\x06\x88\x7f\xd6\xc2\x06\x07\x4e\x86\x82\x23\xd0\x3a\x74\x56\x19\xd1\x0c\xcf\x32\x5e\xb1\x21\xe4\x2c\x12\x34\x7f", bits: 6000, e: 65537, priv_der: &[], pub_der: b"\x30\x82\x02\xf8\x02\x82\x02\xef\x00\xcb\x8b\x42\xbe\x70\xee\x6b\x3a\x26\x9b\x5d\x6b\x74\x55\xc7\x3d\x5c\xd4\x11\x60\x08\x22\x93\x47\x9b\x50\x81\xef\x09\x02\x39\xa7\x26\x79\xa1\xbc\x07\xf2\x7f\x4c\xaf\x47\xff\x21\xc2\x92\x7e\x1b\xa3\x8d\x55\x3a\x9f\x31\x18\x29\x6a\x90\x96\x70\x8c\x96\x4b\xe8\x37\xd4\x53\xe7\xf7\xaf\x22\xee\x5a\xb4\x04\x6c\xc1\x77\xa2\x3c\x0d\x0e\xcf\x83\xe0\x40\x61\x1c\x7e\xb0\xad\xdc\xff\xc3\xdd\x22\x72\xc1\x7f\x78\xb1\x40\x43\xb9\x96\x30\x3e\x55\xd7\xde\xe6\x15\x7c\x9b\x03\x9d\x4f\x5e\xd0\x35\x61\xb5\x41\xc2\x86\x91\x37\xea\x92\xbb\xff\xb4\x0b\x26\xc9\x64\xe4\xb2\x38\xf8\xb1\x79\x12\x63\xb5\xd6\x97\x96\xf8\xd0\x1d\xe7\xfb\x65\x25\x8e\x3e\x8a\x09\x01\xe3\x69\x0b\x06\x06\x50\xde\xed\x91\xec\x84\xee\xa9\x1b\xf2\x53\x4f\xd4\xb3\x6e\xb8\xa3\xc7\x6d\xcb\x55\x40\xf9\xcc\x77\xde\xaa\x64\x55\x9c\x67\xcb\x66\x6e\x13\x8b\x88\x1b\x3f\xaa\xdb\x9c\x39\xf9\xaf\xbb\xba\x70\x08\xef\xf3\x5a\x4f\x49\xd7\x94\xb7\xcd\xd7\xf2\xa7\xb6\xeb\x02\x17\x82\xbc\xec\x08\xd8\x34\x79\x0a\x8e\xba\x0a\x75\x00\x4e\x6a\xc4\x29\x6d\x71\xf9\xd9\x29\x52\x8e\x32\x91\x29\x1c\xe4\xa7\x59\x90\xdc\x95\x3c\xbf\xb0\x8b\xfe\x94\x65\x34\x58\x5b\x0a\x67\x69\x69\x26\x66\x3a\x3d\x4a\x6c\xe4\x4d\x69\xf8\xbf\x9a\x7e\x83\x7b\x8d\xe3\x80\x82\xa3\xc8\x66\x99\x65\x58\xf3\x44\xd0\x2f\xe1\xa3\x47\xad\x2a\x93\xde\x7e\x4e\xa5\x7e\x08\xc7\x93\x49\xf4\xa9\xab\x60\x83\x47\xe2\x47\x40\x2c\x2c\x39\xf6\x19\xf5\xb5\x48\xeb\x4d\x2f\xe1\x48\x13\x6f\x0c\x17\x4f\xd7\xab\x30\x72\x64\xdc\x90\x99\x60\xa6\xba\xcd\xa1\x93\x57\xf7\xad\xe7\x50\xdc\x7a\x65\x13\xc1\x7f\xef\xf4\x21\x0f\x4a\x57\x31\x53\x0f\xf1\xbf\xeb\x97\x82\xd2\x6d\xd8\x74\xa3\x08\x0e\x1f\xa4\x67\x3d\x8f\xd6\x3d\xbe\x53\xb2\xe7\xe8\x61\x42\x12\xe4\xd4\x1a\xd0\x18\xff\x7e\x64\xc7\x3f\x04\xfe\xcb\x97\xe6\x45\x33\x8c\xd2\x52\x7e\x43\xa1\x01\x3c\xef\xfe\x39\xe5\x4b\xa4\x17\x8d\x8a\x1a\x48\xc8\xc3\x10\x54\x80\xc2\x24\xa7\x48\x4e\x93\xad\x5b\x31\x1c\x53\x0a\x7b\x79\xb3\x4f\x17\x5e\x42\x29\xee\xcd\x02\x00\xaa\x47\x13\xa7\xc5\xf0\x81\x7c\x7c\xde\x31\x48\x8f\x17\x9f\x85\xb0\x88\xf5\x62\x5d\xce\x36\x86\xcb\x6c\x1b\xed\x69\x12\x79\x31\xb8\xad\x14\x7e\xf4\xfd\xe9\x0c\x42\x3f\x4d\xae\x63\x17\xd6\xe4\x77\x58\xa9\xef\x0c\xce\xc5\xe6\xe8\xa0\x71\xd5\xcf\xd2\x8f\x10\x0b\xda\x9f\xc0\x12\x99\x9d\xa1\xed\x92\xd9\xa6\xfb\x1a\xd9\xda\x51\x1d\x8f\x4c\xc5\xb4\x1a\xda\x5f\x8e\xe1\x31\x37\xa7\x20\x2e\xed\xcc\x20\xbb\x58\x6b\x3b\x1c\xf7\x82\x6c\xc7\x42\xee\x48\x3e\x05\xa1\xb5\x30\x0b\xba\x81\x40\x05\xbc\x05\xc0\xed\xee\xc9\xad\x0e\xf4\xde\x2d\x7e\x13\x6c\x56\x55\x78\x94\x01\x13\x7a\x47\x97\x01\x5b\x21\x09\x4c\x33\x3b\x41\xfc\x5c\x0a\xb3\xb2\x7b\x72\x04\xd5\xa8\x8c\x40\xd3\x40\x02\x8f\x1e\x60\x60\x78\x62\xb0\xa0\x38\x96\xdb\xd7\xa3\x77\x61\x58\xb1\xbf\xd2\xdd\xb0\xde\x2c\x37\x03\x35\xf7\x55\xdc\x53\x04\x77\xbf\x35\xa4\x38\x08\xcc\x75\x19\x7f\xae\xd9\x00\x4f\x0b\xe0\x08\x93\x94\xcd\xd6\x51\x7e\xbb\x4b\xe7\x6a\xae\xad\xec\x39\x5c\x43\xfe\xee\xb0\x92\x15\xc2\x35\xf1\xc0\xe6\x2e\x05\xc8\xb4\x27\x07\x06\x88\x7f\xd6\xc2\x06\x07\x4e\x86\x82\x23\xd0\x3a\x74\x56\x19\xd1\x0c\xcf\x32\x5e\xb1\x21\xe4\x2c\x12\x34\x7f\x02\x03\x01\x00\x01", p: &[], q: &[], d: &[], dp: &[], dq: &[], iq: &[] }];
pub static SIGS: &[&[RsaSig]] = &[
&[RsaSig { h: 0, salt: b"", sig: b"\x12\xb9\x55\x59\x6f\x0a\xe2\x6e\x9a\xb2\x73\x02\x83\x86\x2f\x8d\x0c\xd7\x82\x98\x40\x1c\xa6\xcb\x2a\x2f\xd6\x39\x29\x84\x4b\xcc\x5b\xbc\x55\x5a\x8b\xc7\xde\xfe\xa2\xe5\x77\xc4\x6e\x8c\x4a\x55\xb7\x7d\xc7\x00\x1e\x61\xc5\x02\x2f\x4d\xcb\x4f\x8f\x92\x37\x02\xe1\x6b\xc2\xbc\x71\x30\x20\x58\xa9\x2c\xaf\x15\x37\x51\x0c\xb5\x56\xd7\xdb\x46\x49\x1a\x84\x9a\xda\x44\x28\x9b\x57\x3f\x57\x49\x1e\x71\xe2\x53\x6e\xaa\xb4\x6e\xeb\x0c\xc1\xe5\x9c\xe0\xab\xdb\x88\xe3\xb3\x19\xcd\x69\x87\xa1\x66\x55\x37\xd1\xc1\xf3\x94\xdb\x0b\x92\xd4\x6a\xc1\xd9\xdd\x23\x21\x41\x7c\x07\x3a\x22\x67\x22\x95\xf3\x29\xd3\x26\xc8\xa5\xea\xbd\xc0\x70\xb8\x28\x03\x0f\x21\xde\xef\x10\x97\x7e\x3f\xcf\x72\xf6\xcc\x7c\xba\xed\x42\x5e\x58\x8c\xdf\x99\x3e\xe5\xba\xe6\xc0\x0e\xab\x65\x1e\x3b\x27\x80\x1f\x08\xeb\x13\x56\x2d\xcf\x92\xfb\xe2\xbe\xeb\xb3\x8f\x4c\x76\x9a\xe5\x1d\x11\x37\x77\x32\x92\x67\x97\x66\x51\xc9\x4c\x62\x24\x73\xd0\xc7\x22\xde\xbe\x7b\x4f\x92\x96\xd3\x0c\xc3\x0b\x0a\x1a\x27\xb1\xd9\xe2\x69\x9b\x9d\x08\xac\x12\xc8\x6c\x8a\x95\x5d\x48\xd5" },
RsaSig { h: 0, salt: b"\x00\x07\x0e\x15\x1c\x23\x2a\x31\x38\x3f\x46\x4d\x54\x5b\x62\x69\x70\x77\x7e\x85\x8c\x93\x9a\xa1\xa8\xaf\xb6\xbd\xc4\xcb\xd2\xd9", sig: b"\x71\xd6\xa5\xbc\xfc\x1c\xc3\x5d\x44\x9d\x22\x4e\x04\x65\xb9\xb8\xef\x96\xa6\x3f\x97\xc9\x26\x3d\xb6\x10\x09\xcf\xe0\x0c\x06\x7e\xed\x66\x96\x10\xdf\x0d\xf8\x24\x30\xab\x1b\xbe\x7d\xbd\x52\x26\x01\x93\xe4\x3c\x87\x5a\x4c\xe2\x52\xbc\x34\xb4\xd1\x3f\x99\x19\x12\xe3\x91\x16\xb0\x0a\xb4\x02\x62\x6d\x94\x56\x42\x80\xdc\x3a\xc3\x3b\xef\xd0\x00\x95\xaf\xa2\xf4\x7e\x36\xb4\x68\x48\x79\xcf\x3f\x1d\x36\x93\xae\x61\x5e\x99\xd1\xb8\xc4\xd9\xb6\xe1\x66\x50\x43\x35\x59\xc6\x8b\x32\x3e\x6b\x4d\xed\x18\x99\xdc\xb7\xa1\x05\x11\xb1\x61\x02\xfa\x98\x70\x34\x16\xfb\x4c\x83\x11\x33\x54\x58\xd2\x26\x3e\xa2\xe9\x12\xfd\x2f\x9b\x5f\xec\x1c\xa9\xfa\x57\x81\x1d\x27\xe6\xe4\xa7\xab\x0e\x27\x12\x01\xa1\xca\x6c\x08\xe9\xf6\x86\x99\xc8\xbf\x71\xbb\x98\x67\x5d\xd8\xa6\x3e\x7e\x7a\xd3\xb2\x68\xb0\x61\x64\x60\x7d\xff\x0f\xb8\x7a\x28\xee\xd5\x1d\x48\x66\xfc\xd6\x47\x49\x4e\xb5\xb6\xa8\x36\x7b\x32\x3f\xa9\x37\xc9\x11\xe7\xad\xe0\xf0\x40\xf4\x39\x20\xed\x6d\xb4\xbe\x52\x3d\x95\x34\xe7\x6b\x55\xcd\x1c\x9d\x2f\x06\x6f\x22\xdc\x78\xaa\x3c\x9a\xb2" },
RsaSig { h: 1, salt: b"", sig: b"\x6c\x54\x5b\x3c\xec\xea\xd9\xa3\x38\x89\x0f\xe3\xec\x62\xd3\x22\x80\x9a\xd9\x98\xed\xc0\x44\x7d\xae\x67\x2e\x02\xd6\x31\xa1\x8b\xc9\xa1\x35\xd2\xce\x15\xc8\x5f\x39\x4e\x4f\x96\x67\x41\x01\xaa\xa1\x59\x07\x92\x0a\x4b\x6c\x91\x70\x52\x34\x29\x13\xa5\x93\xdd\x8f\x85\x05\xc2\x86\x34\x89\xba\xf5\xf9\xb5\xf3\x34\x39\x0d\xec\x34\xbd\xff\x45\x50\x65\x92\x36\x3c\x00\xd8\xd4\xca\xd2\x48\xea\xa3\x86\x43\x08\x02\x73\xe5\x49\xf6\xea\xa4\xf4\x11\xd3\x14\x68\x39\xd9\xf7\xab\xdc\xf2\x25\xd7\xa7\xe0\x31\xe7\x99\xc7\x36\x78\x1c\x6c\xb4\x97\x9d\x82\x86\xa6\xba\xc8\x58\x33\x3d\xb9\x64\x25\xd2\x77\x47\x42\x9e\x25\x2d\x7f\x6e\x87\x4d\x14\x4a\x17\x78\xec\x32\xac\x6d\xc0\x14\x50\x6f\xbd\xd8\x64\x24\x46\x31\xb4\x3c\x28\x1c\x6d\x3d\x2e\x50\x24\x01\x65\x17\xfa\x18\x03\xc8\x7c\x20\x04\xfb\xd2\x08\x26\xee\xa9\xec\x9a\x2d\x4e\x8b\xc9\x69\x5d\x95\x9d\x6d\x63\x39\x56\x73\xd7\xb1\xd9\x92\xfb\x09\xe2\xfd\x8f\x39\x23\x18\x1e\x24\x54\x19\xf9\x00\x20\x7a\xca\x0d\x3d\xc6\x7a\xcf\x4b\xda\x79\xaf\x92\x2c\xfc\x8c\xf0\xd3\x9c\x9f\xc9\x02\x27\x68\x1d" },
RsaSig { h: 1, salt: b"\x01\x08\x0f\x16\x1d\x24\x2b\x32\x39\x40\x47\x4e\x55\x5c\x63\x6a\x71\x78\x7f\x86\x8d\x94\x9b\xa2\xa9\xb0\xb7\xbe\xc5\xcc\xd3\xda\xe1\xe8\xef\xf6\xfd\x04\x0b\x12\x19\x20\x27\x2e\x35\x3c\x43\x4a", sig: b"\x22\x8b\x60\xfe\xdd\x9e\x97\x1b\x5e\x4d\x36\x40\x7f\xff\x9b\x53\x84\xbc\x3f\x1a\xc4\x32\xc7\xc6\xc5\x33\x9e\x56\x3e\x96\xa4\x27\xcc\x56\x80\xf7\x7e\xdc\x76\x5f\xe4\x91\x0a\x89\x8c\xcb\xbf\x48\x44\x17\x1f\xfb\x86\x73\x14\x06\x65\x01\xd2\x1e\x93\x3b\x14\x4e\xfb\x18\xa9\xb5\xe4\x21\xca\xec\x7a\x37\xf7\xef\xbe\xfe\x2e\xa3\x18\x62\x52\x79\x0e\x1a\x55\x2d\x3c\xdc\x6d\xaf\x78\x57\x62\x15\x7b\x3a\x60\xb5\x12\xd5\x43\xc7\x35\x28\x65\x83\xd1\xd9\xd3\x5c\x0a\xe9\xe7\x59\x6e\x7b\x75\xac\xc8\xfa\xc6\x05\x6c\x4d\x23\x06\x85\xda\x78\xde\x38\xbd\x90\x92\xf2\x45\xca\x7b\xbd\x57\x62\x3c\x24\xcf\x95\xe7\x9d\x30\x8c\xe6\x70\xe4\x80\xc6\x90\xbe\x0e\xc8\xd5\xb5\x4c\x8b\x95\x48\x35\x84\x19\x8d\xbd\xb7\x9a\xda\x74\x85\xf9\xce\x9b\x4d\xb3\x14\x90\xb0\x49\xee\x00\x63\xb8\xa8\xc5\x9a\xa7\x26\x9f\x66\xd5\xc4\xb0\xc4\x64\x3c\xca\xf5\x4f\xa3\x84\xcf\xf7\xfb\xe6\xf8\x4b\x56\x26\x40\xbd\x6e\xea\x64\x13\xae\xee\x7a\x12\xc5\xa0\x8d\x23\x5d\x3d\xec\xa9\xf7\x39\xb1\x92\x38\xca\xf9\x29\x3a\xb2\x79\x44\x0c\x59\x6e\xa7\x25\x70\x57\x3d\x33\xcd\x60" },
RsaSig { h: 2, salt: b"", sig: b"\x14\x6e\xf5\x37\xaf\xd5\xb2\x6c\xe4\x4d\x94\x7d\x89\x3f\xf5\x45\x7f\xd2\x5c\xc7\xbc\x5a\xbc\x28\x86\x8a\x40\xe2\x00\x63\xe1\x2c\x3a\x17\xcb\xae\xad\xc6\x1d\x35\x12\xa3\x08\xa9\xa3\x94\x94\x5c\x7c\xfb\x3f\xe6\xad\x16\xbd\x45\x70\x1b\xe5\x43\x04\xf1\x1c\x3b\x81\x06\x72\x8d\x15\x8b\xae\xc1\x40\x29\xa3\x29\xd0\x06\xc1\xdb\xdc\x6e\x76\xb3\x11\x7d\x58\x9a\x9f\x25\xcf\x38\x5b\xdf\x3d\x4c\x38\xeb\xfa\x3a\x31\x35\x28\x36\xec\xbf\x5a\x7f\xcf\x98\xbd\xa8\x06\x1f\x59\xa8\x00\x76\xae\x4f\xa8\x04\x2f\x34\xf7\x08\x02\x9d\x9c\xe1\x9a\x12\x67\xdd\x0f\xd2\xe1\x74\x28\xf2\x5e\xe0\x95\x58\xc7\xdc\xda\xd3\x6b\xda\x07\xab\x08\xe5\x21\xfb\x03\xea\x63\x6b\x82\x48\xe0\x39\x38\x20\x21\xc6\x64\x5a\xf0\xc8\x6d\xff\xd9\x92\x63\x78\xe0\x76\x46\x9e\xbe\x92\x53\x1f\xab\x72\x3b\xa3\x47\x76\x20\xa3\x33\x4d\x1d\xa8\x61\x13\x74\x96\xdb\xfe\x25\x58\xc8\xf1\xf2\x8d\x59\xc1\x85\xaf\x7e\xa4\x98\x19\x54\x92\xd4\xc8\x23\x19\x8c\xfe\x1a\xce\x30\x71\x90\x58\x4c\xfa\x42\x30\xbc\xa2\xac\x7e\xd4\x0c\x4d\xfe\xfb\x19\x21\xa7\x40\x58\x8f\x3e\x0e\x8a\x10\xb2" },
RsaSig { h: 2, salt: b"\x02\x09\x10\x17\x1e\x25\x2c\x33\x3a\x41\x48\x4f\x56\x5d\x64\x6b\x72\x79\x80\x87\x8e\x95\x9c\xa3\xaa\xb1\xb8\xbf\xc6\xcd\xd4\xdb\xe2\xe9\xf0\xf7\xfe\x05\x0c\x13\x1a\x21\x28\x2f\x36\x3d\x44\x4b\x52\x59\x60\x67\x6e\x75\x7c\x83\x8a\x91\x98\x9f\xa6\xad\xb4\xbb", sig: b"\x24\x9b\xb3\x65\x99\x91\x9c\xfb\x13\x24\xad\xcd\xa6\x7e\x7b\xd6\xef\xc3\x2d\xed\x26\xfe\xc4\x98\xd7\x78\xfc\xbf\x2e\x37\xed\xe8\x23\xaf\x2e\x0d\xc0\x82\x0f\xd1\xc4\x89\x86\x99\x21\x54\xad\x99\x16\x56\xf9\xae\x1d\x51\xeb\x6a\x7c\x4e\x6e\xca\x5c\x0a\x24\x5e\xa2\x28\xac\xc7\xba\x83\x02\x6f\x3a\x59\x42\xcd\xcd\x10\xec\xe3\x86\x46\x0f\x3a\xbe\x10\x59\x6e\xb8\xe2\x9a\x2c\x1a\xf3\x4e\x8b\x52\x68\x40\xb3\xb8\xa3\xd7\xea\x15\x97\x6e\xb1\xa3\x71\x8e\xfe\x18\x3a\x9c\xb8\x0e\x75\xe9\xa9\x39\xb3\x5e\x1a\x76\xe6\xcd\x7d\x67\xc6\xeb\x32\xdb\x4a\x2a\x5b\x94\x40\x23\x26\xf1\xb8\x7b\x1d\xe3\x00\xaf\x53\xf4\x5a\x36\x1e\x84\x5f\xe5\xd4\xf8\xcc\x3d\x81\xbf\x1d\xa4\x5d\x08\xe1\xc7\xa1\x61\x16\xf7\x7c\xc5\x43\x91\x4d\xcf\x2a\x5a\x43\x9e\xe7\x88\xaf\x53\x08\x7b\xe0\x4e\x21\xba\xf8\xa4\x12\xae\x3d\x51\x66\x2d\x44\x16\xf3\x9d\x15\xea\x43\x7c\x57\xfa\xe0\xfc\xd5\x4f\x11\x5f\x29\xaa\xf4\x94\xd6\x6f\xf4\x01\xcc\x56\x09\xa9\x6e\x01\x88\xc8\x7c\x3e\x87\xc3\xb9\xa2\xd1\xc3\xe4\x4f\xeb\x69\x7e\x2e\xff\x01\xa9\xda\x35\x36\xe2\x3c\x99\x23\x04" }],
&[RsaSig { h: 0, salt: b"", sig: b"\xa1\xcb\x42\x36\xf7\x87\x1b\x0d\x81\x68\x15\xcb\x05\x0f\xf6\xab\x1a\xdc\xba\xf6\x94\xe7\x3f\x6d\xb7\x7e\x71\xf2\x72\x44\xcd\x47\x86\x12\xb5\x62\xcd\xb8\xed\xe6\x50\xf5\xeb\x55\xf6\x93\x8e\x9c\xf8\x48\x20\x54\x91\x13\x69\xe0\xd5\xde\x48\xd9\xd5\x26\x82\x5b\x54\x0b\x97\x13\x51\x43\x16\xdf\x6d\xb2\xe1\x20\xec\x72\x76\xb3\xad\xa1\x6b\x81\xa2\x4d\xa2\xdc\x14\x71\x95\x3f\x02\xc4\xe6\xac\xd2\x14\x81\x86\x32\x47\x46\x03\xc9\x96\xea\xf3\x8a\x8f\x90\x75\x2f\x6c\x9a\x22\xed\xf1\x6d\x81\x27\xdf\x7c\x47\xc8\xd6\x45\xa7\xca\xe7\x65\x8a\xdf\x84\x77\x13\xb1\x4c\x0a\x61\x85\x06\x84\x07\x65\xdd\x0b\xa2\xf4\xcf\x21\x35\xd7\xba\x98\xbc\x07\xda\xbd\x14\xaf\x8d\x61\x7c\xf3\x62\x8d\x89\x5b\x2a\x4a\x84\x95\x5f\x97\x4b\x02\x11\x4f\x87\xa0\xb4\xa1\x9a\x5b\xe9\xbb\x85\xf3\x8c\x41\x66\x89\x10\xc5\x3c\x20\x24\x32\xcc\x69\x3d\x50\x50\x04\xe1\x79\xc2\xef\x59\x93\x33\xab\x13\x57\x16\xca\x61\x7e\x36\x33\x44\x48\x1d\x84\x5c\xb2\x5d\xde\x36\x6a\x82\xc9\x85\xc9\xe9\x63\x01\xb8\x5f\xeb\x99\x97\xf8\x71\x61\xe8\xb4\x68\x4d\x71\xbc\x9c\xcb\x81\x5a" },
RsaSig { h: 0, salt: b"\x00\x07\x0e\x15\x1c\x23\x2a\x31\x38\x3f\x46\x4d\x54\x5b\x62\x69\x70\x77\x7e\x85\x8c\x93\x9a\xa1\xa8\xaf\xb6\xbd\xc4\xcb\xd2\xd9", sig: b"\x80\xaf\x07\x84\xfd\xc3\x12\xdb\x4a\x49\xf7\x85\x93\xe1\x1f\xe8\x39\xec\xe2\xde\xdb\x3b\xa9\x27\x02\xd6\xd9\x04\x3f\x01\xf4\x6f\x6e\x79\x9d\xd9\xe6\xdd\x6b\x6c\x02\x1f\xc0\x1b\xa9\x0e\xfe\x90\x29\x8b\x06\x59\x0d\x2d\x04\xfd\x68\x65\xad\x97\xfa\xf3\x27\xc8\x91\x22\xf4\xfd\x2f\xec\xa9\xbc\xe5\x35\x8e\x4b\x07\x48\xce\x5d\xb0\x1e\x38\xde\xb6\xf1\x64\x94\xfd\x9f\xe0\xa6\x73\x89\x1a\xf8\xd6\xb0\x34\x03\xa4\xbd\x97\x34\xef\xec\x2c\x60\x9c\x84\xcc\x2f\x18\x11\xd6\x46\x53\xbe\x56\x39\x96\x22\x1b\x8f\x8a\xd4\xbf\x34\x63\xde\x78\x7c\xf9\x7a\xcd\x42\x80\x63\x00\x75\x47\x9b\xce\x54\x4e\x61\xd3\xc7\x89\xd2\x73\x2f\x1a\x02\x83\x93\xb2\xfe\xc7\x88\x5e\x9c\xda\x23\xf0\x3e\x17\xba\xed\xcc\x37\x90\x46\x3a\xdf\xf3\x2c\x2d\x90\xac\x41\x1a\x3e\x77\x0e\x44\xb2\x24\xbe\xe1\xef\xd5\xca\x63\x00\x9b\x16\xf9\x07\x45\x6b\x47\x71\x1c\xee\xe1\x58\x1f\x37\x97\xc5\x24\x25\x97\x26\xec\xf9\xdc\xac\x6f\xd4\x90\xf5\x0e\x34\x8a\x37\x2b\xae\x8e\x2d\xe2\xaa\x78\xc3\x53\x13\xe0\x90\xfe\xd1\xe1\x00\x77\x7d\x2c\x35\x0a\x5c\x8d\x29\xa3\xbe\x57\x0f\x57" },
RsaSig { h: 1, salt: b"", sig: b"\x2d\x9f\x08\xbd\xe7\x15\x35\x32\xfd\xfe\x07\xf3\xec\x65\xb2\xe9\xc7\xcf\x34\x39\x5f\xc8\x13\xdd\x64\x83\xcc\x8e\xa0\x57\xab\xdc\xb6\xa3\x86\xc1\x0d\x95\x98\x1e\x27\x69\x0d\xd1\xd2\x17\x5f\x57\x7f\x3f\xd9\x90\xcd\xbd\x23\x2e\x54\x47\x23\xad\x10\xec\xdb\xcb\xac\xea\x0d\xe9\x48\xfc\xac\xc1\x06\xb7\x2e\xb8\x1d\x0e\x8e\x8d\x0a\xd1\x4f\x04\x24\xed\xe6\xb0\x6c\x43\x2f\x14\x10\x27\xfb\xec\xda\x77\x38\x45\x8d\x96\x9a\x95\x98\xe8\xb6\x01\xfb\x74\xb2\xc1\xd4\xb8\x3c\xba\x09\x0b\xe1\xc3\xd3\xe7\x2e\x39\x35\xae\x52\x3d\x7f\x87\xff\xa5\x46\x47\x97\xd2\x5f\xf4\x15\x45\xd7\xda\x77\x16\xb7\x45\x88\x4e\x4d\x95\xba\xb4\x64\x8a\x77\xda\xd9\x5e\xaf\xd1\xd8\xfc\xfd\xed\x7c\x11\x7f\xc1\x6f\x05\x73\xad\x15\x56\x4f\x4d\x6d\xa4\xbe\x58\x79\x4c\x5a\x79\x7c\x29\xc5\xb5\xad\x00\x46\x87\x4e\x44\x40\x97\x88\x20\xbe\x54\xe8\x8b\x01\xc1\x5a\xd1\x8a\x60\x53\x88\xf9\x6f\x00\xb8\x88\x04\x00\x87\x42\xee\x07\x8f\x60\xf9\x3f\xc2\x84\x5a\x1d\xde\xb8\x2a\x57\x14\x78\xce\x21\x62\x4f\x87\xac\xdf\xa5\x6f\x1a\xd6\x48\x36\xb2\xc3\xfc\x26\xff\xc3\xdf\xfc" },
RsaSig { h: 1, salt: b"\x01\x08\x0f\x16\x1d\x24\x2b\x32\x39\x40\x47\x4e\x55\x5c\x63\x6a\x71\x78\x7f\x86\x8d\x94\x9b\xa2\xa9\xb0\xb7\xbe\xc5\xcc\xd3\xda\xe1\xe8\xef\xf6\xfd\x04\x0b\x12\x19\x20\x27\x2e\x35\x3c\x43\x4a", sig: b"\x0f\x0c\x38\x18\xba\xe5\x24\x2f\x67\x5d\x01\xcf\x51\x31\x25\xb0\x40\x76\x05\xff\xbe\x67\x88\x47\x05\x5d\x7d\xe6\xa3\x55\xe7\xd9\xf4\xea\xcb\xe6\x01\x20\x5e\x5d\xe8\xa8\xfc\x60\xd0\xac\xc6\x8d\x3c\x67\xff\x92\x76\x28\x78\x5c\x77\x07\x13\x94\xcf\x93\x37\x99\xc5\x3e\x22\x62\x5c\x95\x9a\x32\x15\x4a\xec\xd4\x75\xb5\xc7\x19\x64\xd9\x11\x3e\x8c\xa7\x49\x06\xb2\x51\xbe\x39\x90\x96\x85\x07\x8b\x49\xd8\xf0\x67\x4f\xdf\x28\x93\xc5\xe0\x40\x74\x9b\x57\x14\x8e\x25\xf0\xbf\xa5\x8c\x16\x60\x38\xa6\x9c\xed\x36\x6c\xc5\x2d\xb6\x1f\xd7\x78\x25\xcd\x13\xa2\x3d\x61\x9d\x67\x07\xd9\x32\xc1\x8d\xc2\xd9\xc7\x0c\xfe\xe2\x61\xae\x25\xd4\x3a\x1b\x1b\x2e\x63\x08\x4b\xce\x37\x74\x7c\x2f\xe0\xd4\x2e\x58\x0b\x19\x46\x17\xa1\xc0\x73\xfa\xfb\x10\x47\xc4\xa8\x6e\x6a\xe6\xd6\x7f\x83\x91\x91\x53\x89\xef\x6a\xa7\x33\x40\x62\xff\xdf\x10\x9f\x66\xa5\xf7\xa8\x1f\x36\xe9\x33\x10\xf7\x5c\xda\xd0\x4b\xe2\xf1\x3a\xf0\x43\x4f\x9e\x79\x1e\xf5\xcf\xeb\xbf\x21\x62\xb8\xe2\x58\x43\x37\x21\x97\x6b\xfe\xc4\xa4\x14\x35\x6f\xad\x0d\x2e\x1d\x8d\xd1\xc3\x7a\x39" },
RsaSig { h: 2, salt: b"", sig: b"\x20\x4c\xaa\xaa\x55\x97\x46\x6d\x40\x09\xd6\xf5\xbc\xf3\xb2\x85\xbf\x62\x15\x81\xfd\xbd\xf9\x63\x6c\x7b\x2e\x2a\x8d\x77\x42\x84\x27\x80\x39\x42\x0d\x64\x7e\x7d\xf1\x17\xd5\x27\x3f\x32\xe1\x20\x1b\x16\x53\xcd\x2b\x9d\x38\xa6\xba\x9a\xb8\xac\x8a\xee\x4a\x44\xc6\xe0\x55\x3a\xe1\x88\x2f\x87\x05\x18\xcd\xc3\x2c\xf2\x84\x8d\x3a\x0b\x16\xda\xe7\x2f\x84\x35\x8b\xec\x71\x99\xcf\xc5\x06\x8d\xfe\x11\x79\x1a\xcd\xe3\x9a\x23\x8a\x5f\x9e\xe0\xfb\x7f\x8f\x90\xc6\xed\xdf\x29\x93\x06\xcd\xf6\x50\x03\x9b\xe3\xe6\x95\xa0\xd4\xaa\x47\xf4\x01\xa9\x2f\x26\xf1\xa7\x7b\xda\x18\x63\xeb\x27\xbf\xa2\x9c\x73\xb4\xb5\x06\x5a\x05\x37\xb0\x22\x63\x72\x19\x4c\x91\xc4\x62\x7f\x51\x24\x4b\x2d\x86\xb4\xdb\xca\x16\x82\x0e\x7c\x4a\x37\xb7\xa5\x36\x1b\xd8\xfa\x2f\x48\x28\x84\x0d\x0b\xa3\x17\xd7\xee\x6e\xc5\x1d\x6c\xf9\xae\x4a\x5e\xc8\x41\x1b\x1b\x05\x1f\xd1\xc9\xe9\x78\x30\x97\x25\x1a\x7c\x24\x74\x75\x5c\x0d\xae\xde\x4c\x1d\xb7\x71\x2b\x93\x8e\x86\x7d\x00\xd2\x5d\x05\x03\xc9\x52\x1f\xf9\x27\x9b\x7b\x31\xd5\x62\x5d\x90\x15\x28\xb1\xf2\x49\x76\x6e" },
RsaSig { h: 2, salt: b"\x02\x09\x10\x17\x1e\x25\x2c\x33\x3a\x41\x48\x4f\x56\x5d\x64\x6b\x72\x79\x80\x87\x8e\x95\x9c\xa3\xaa\xb1\xb8\xbf\xc6\xcd\xd4\xdb\xe2\xe9\xf0\xf7\xfe\x05\x0c\x13\x1a\x21\x28\x2f\x36\x3d\x44\x4b\x52\x59\x60\x67\x6e\x75\x7c\x83\x8a\x91\x98\x9f\xa6\xad\xb4\xbb", sig: b"\x52\x6d\x38\xf0\xc5\x23\x63\x41\xd0\x52\x0b\xe3\x9c\xfe\x8f\x90\x19\xd4\xf1\x55\x6c\x6e\x43\x0a\xf7\x72\xcf\x60\x32\x58\x91\x76\x7f\x6d\x78\x73\x6a\x38\xa3\x12\xad\x6d\x02\x74\x57\xe3\x10\xe8\xe8\x88\xb1\x04\x87\xef\x88\x5a\xd2\x2c\x9e\x22\x17\xeb\x50\x82\xe1\x1d\x81\xc4\x6e\x3a\x85\xdd\xa1\x1e\x58\xb1\x8b\x3c\xb3\xc7\xa8\xca\x61\x12\x8b\x77\x3c\xfe\x4a\x26\xcd\x0f\x4d\xb6\x39\x93\xbd\x88\xac\x4f\xd9\x85\xc8\x14\xc0\x84\x34\x1e\xe5\x77\x52\x97\x30\x63\x14\xb1\xe6\x2f\x27\x9e\x49\xab\x22\x76\xff\x9c\xa3\xba\x3d\x20\x3e\x41\x5c\x66\xd2\xbf\x3e\xf8\x61\xaa\x11\xcf\x46\x32\x5c\x39\x0f\x2f\x02\x92\x3b\x47\x20\xa4\xad\x9d\x34\xd6\x15\xff\x8f\xd5\x1e\xfc\x27\x4c\x5b\x04\xbc\x9b\x9b\x8a\x6b\x35\x82\x51\xe9\xb8\xd0\x35\xcf\xcd\xc6\x23\x1c\x87\xef\xca\x01\x1b\xf1\xa4\x6c\xef\x2b\x57\x61\x75\x7b\xbc\xb8\x13\x1f\x7c\x21\xd8\xe3\x42\x59\xf7\xef\x5e\xe0\xff\x73\xce\x96\x0a\xfd\x2b\xfb\x41\xab\x6f\x1c\xe9\x99\xdd\xe8\xef\x02\x98\x50\xfe\x50\x64\xc2\x79\x57\x1e\x0a\x90\x15\x6f\x5f\x66\xc7\x95\x56\xf1\xd7\x3a\xbc\xc6\x09\x6c" }],
&[RsaSig { h: 0, salt: b"", sig: b"\x01\xd1\x21\x98\x9f\x22\xce\xad\xdc\x48\x3d\x6b\x23\x8d\xe3\x84\x37\xea\x74\x92\xc1\x79\xa4\x36\x72\x69\x85\x8c\x6d\xd4\xf7\x99\x5b\x33\xea\xe6\x1f\x0c\x22\xfc\xcb\x67\xd1\x24\x7d\x00\x61\xc2\x96\x0b\xba\x67\x9c\xb9\xf9\x50\xdf\x05\x12\x56\x35\x04\xde\x2d\xc1\x0e\x7a\x8f\x80\xc0\xc0\x9c\xb6\x48\x95\xd1\x88\xcc\x7d\xbc\x58\x68\x44\x60\xce\x5a\x81\x9d\x3e\x02\x1b\x62\xe7\xbf\x12\x25\x72\x36\xcd\x76\xf1\x5b\x42\x43\xb2\xd2\x15\x40\xc0\x2a\xdc\xe3\xd4\x9e\x52\x86\x14\x8e\x02\xb8\xba\xb9\x0c\x9f\xf2\x4c\x00\xd7\xab\xc9\xaa\x28\x25\x01\x73\x5d\xac\x32\x7a\x18\x22\xd7\xed\x29\xc1\xb3\x1c\x11\xd1\x43\xd6\xb0\x45\xfb\xa9\x98\x8f\x33\x1a\x18\x89\x56\x10\x53\xba\x78\x1b\xca\x24\x4d\xdd\xb8\xec\x28\x4d\x73\x15\x93\x52\xa4\x83\x70\xbb\xb3\xad\x6d\x6f\x92\x70\x86\x26\x1d\x0e\x54\xb1\x1e\xec\x6f\xd5\x56\xc6\xcc\x35\xa7\x05\x70\x7c\xb8\x4a\x90\xba\x15\x4d\x8f\xaf\x84\x1d\xda\x23\x7c\x38\xee\x2a\xa2\x59\xc4\x29\x63\x54\x8f\x11\x8e\xe7\x07\x80\xe5\xa2\x2a\x0f\x64\xcc\x11\x02\xe3\xe5\x03\x16\xb3\x83\x34\x3d\xd8\x38\xbd\xa8\x87\x50" },
RsaSig { h: 0, salt: b"\x00\x07\x0e\x15\x1c\x23\x2a\x31\x38\x3f\x46\x4d\x54\x5b\x62\x69\x70\x77\x7e\x85\x8c\x93\x9a\xa1\xa8\xaf\xb6\xbd\xc4\xcb\xd2\xd9", sig: b"\x02\x96\xba\x22\x23\x05\x65\xca\xc6\x57\x9b\x00\xea\x41\xb1\x4d\xdf\x2b\x5d\x6c\x87\xf3\x48\xd2\xe0\x86\xa0\x9e\x5a\x6b\x77\x90\x75\xa8\xe2\xf4\xc0\xba\xe8\x5b\x35\x05\x6b\xf0\x45\xf4\x64\x4e\x80\xca\xed\x7b\x12\xef\xeb\x23\xa6\xe1\x21\x9d\xdf\x88\xde\x10\xa7\x34\xc5\xa6\x12\x22\x54\x6c\xb6\x16\xa1\xbf\x46\xe7\x59\xac\x2c\x09\xa1\x30\xed\xb5\xab\x5c\xa5\x0d\x75\x00\x76\xa6\xa4\x42\x25\xa8\x46\x87\x0b\xd4\xda\x81\x4a\xd2\x98\x93\x6a\xd4\x0b\xe4\x5c\x38\x92\x08\xb0\x04\x68\x51\x99\x6b\x27\x4b\x6c\x3a\x79\x67\x50\x9b\xdd\xe2\x56\x62\xa5\x00\xf3\x19\x3e\xfa\x76\xfb\xf1\x5f\x1a\x43\xb6\x7a\x38\xfe\x22\xd8\xf8\x9e\xb4\x42\x61\x25\xcf\x8e\x51\x79\x40\x19\x8c\xc8\xd6\x32\xfc\xc8\x87\xb8\xe3\x38\xf6\x01\xdf\x72\xcc\x7c\x7e\x97\x31\xf8\x22\xe3\xf5\xe1\x61\xf9\x23\x42\xd7\x85\xbb\xd0\x49\x2f\x95\x42\x44\x89\xbd\x26\xf8\x88\xaf\xe0\xfc\x2a\xec\x92\xd5\xf2\x98\xae\x04\x7b\x8b\x63\xe8\xba\x25\xc1\x3f\xbd\x40\x3c\x32\x03\xe0\x57\x52\x8f\x30\x12\x43\xf7\xe0\x64\x3b\xa8\xc3\xe7\x99\x6b\xe9\xe8\x57\x99\x3d\x38\xe6\x96\xe9\x0d\x27" },
RsaSig { h: 1, salt: b"", sig: b"\x01\xb7\xec\x13\xfa\x5a\x3b\x47\x95\x2b\x49\x0c\x5b\xa2\x8a\xcc\x3a\xc6\x8c\x9e\xd2\xe8\x8a\xfa\x65\x81\xf8\xae\x30\x87\x93\x1f\x02\x7a\xd1\x0a\x5c\xdc\x22\x82\xcf\xd6\x86\xe1\xb7\xdf\xe0\xe3\xf9\x20\xa5\xa7\xda\x19\x5d\xf5\x66\xab\xda\xff\xce\x44\x01\x7e\xbe\x3c\xad\xa5\xe6\x09\x96\x0c\x92\x8b\x13\x12\x1e\x28\x15\xb5\x66\x6c\x05\xcc\x13\x2d\x2e\x7b\xeb\x1d\xa4\xe6\x62\xf3\xad\xdf\x53\x16\xd5\xdc\xd9\xc2\x91\x9f\x5d\x7c\x31\x04\xf9\xcc\xad\xde\x76\x6d\xf1\xdf\xf7\x7c\xd5\x18\xcc\x34\xcc\xd6\xbf\xdd\x12\x57\x8d\x34\xfe\x90\x48\xd5\x20\x0e\xfa\x08\xd7\x82\x2e\x5f\xeb\x48\x4c\xd9\x9d\x92\x44\x93\xc1\xda\xe2\x10\x13\x65\x5e\x6f\xe9\x45\xab\x9c\x1a\x3d\xf7\x75\xb9\x7b\xc1\x42\x6d\x05\x6d\xc2\x1f\x95\xcb\xc6\x56\x8a\x8a\x4d\xfe\xcd\xe8\x91\x78\x11\xcf\xb4\x73\x9f\x92\xda\xc2\xbd\x90\xc5\xd3\x61\x18\x07\xa9\x3b\x74\xe4\xe5\xc6\xe9\xcf\xc5\x2c\x97\x5d\x3b\x75\xed\xc3\x6f\x44\x93\x5b\x7b\xc8\x80\x9c\xb8\x8b\x94\x79\x60\x46\x81\x12\x9c\xd6\x4c\x11\x0f\xa9\xa4\x2a\xeb\x55\x27\xa6\xf2\xcf\xfb\xc0\x40\xdd\x0d\xa2\xc7\x43\x46" },
RsaSig { h: 1, salt: b"\x01\x08\x0f\x16\x1d\x24\x2b\x32\x39\x40\x47\x4e\x55\x5c\x63\x6a\x71\x78\x7f\x86\x8d\x94\x9b\xa2\xa9\xb0\xb7\xbe\xc5\xcc\xd3\xda\xe1\xe8\xef\xf6\xfd\x04\x0b\x12\x19\x20\x27\x2e\x35\x3c\x43\x4a", sig: b"\x01\x4e\xbe\x5f\x4a\xc4\x98\x20\x60\x93\x0d\x9c\x6b\x15\x16\xe9\xf1\xfc\x22\x7b\x8e\xbd\x54\xd9\x1e\x82\x86\x42\x3a\x71\x7a\xb5\xc4\xaa\x39\x59\xd4\xec\x6b\x3a\xd3\xbb\xb9\x6c\xcb\x9f\x7a\x68\xb6\xf3\x56\x11\xba\xec\xf8\xc8\x5a\x02\x14\x56\x44\x29\xe8\xde\xa3\xe8\xcb\xcb\x63\xb3\x43\xb5\x73\xd2\x35\x38\x23\xbc\xcd\xd6\xf6\x43\x2a\xc7\x82\x91\x6d\x47\xe1\xc8\xfa\x38\x63\xcc\xcb\x96\x49\x7e\x0d\xf4\x6f\xfd\x78\x88\x6d\x01\x52\x42\x14\xe5\x3c\xa1\x65\x8d\xa7\x9f\x52\x40\x87\xba\x52\xfe\x02\x0b\x6a\x77\x9c\xa6\xcf\x7d\xd8\xf0\x87\x2d\x54\xfa\x43\xb0\x87\x3a\x8c\x8d\xbd\xd5\xdf\xb2\x57\xd4\x0a\x0c\x13\x0a\x61\xc9\xba\xfa\x8c\xc4\x53\x09\x46\xef\xf3\x5b\x66\x61\xd8\xf2\x10\x02\x53\xde\xc2\xb5\xba\xa4\x17\x20\x6f\xc2\x93\x36\xcf\xda\xce\xf8\xa0\xb5\x7a\x84\x83\xf9\x36\xd3\xfb\x10\xc3\xb1\xf3\x32\xaa\x95\x2e\x66\xf7\x5d\x55\x01\x34\xce\x5e\x18\xb4\xbf\x0b\x3c\xe5\xfc\x2c\xa4\xbc\x76\xb5\xae\xfc\xf7\x46\x35\x4b\x82\x7d\x32\xaf\x46\xab\xb5\x05\x92\x55\xf4\xf9\x8e\xbe\xe5\x0d\x54\x9c\x6c\xba\x5c\x9d\x7d\xf2\x36\x30\x05\x30" },
RsaSig { h: 2, salt: b"", sig: b"\x02\x38\xef\x5c\x45\x32\x7d\xc4\x67\xba\x46\xed\xea\x57\xa2\x57\xb4\xf4\xdc\x43\x0a\x7a\xae\x03\x8c\x1d\xfb\x7d\x5d\x4c\xa6\x95\x53\x12\x2a\x61\x20\x80\xf7\x76\xdd\x69\xce\x22\xc2\x14\xd6\x30\x23\x3b\xb9\x17\x97\xcf\x4c\x0b\x17\x41\x16\x01\x91\x8f\x30\x5f\x42\x2f\xeb\x4d\xfa\xf4\xa5\x94\xb9\xbb\x7e\x02\xb8\xfd\xf3\xcd\x06\x2f\x6e\x07\x0f\xbf\xf0\x24\x8d\x19\x9d\x48\x2c\x94\x5c\xb1\x99\x50\x0d\x35\x93\x3a\xbd\xfe\x8e\x99\x4b\x00\x69\xe1\x8e\x71\x80\x13\x04\x7f\x6e\x37\x12\x80\xc6\x3c\xd4\xd6\xba\xd6\x27\xe2\x60\x70\x25\xe9\xa4\xfd\xc6\x15\x6c\xd5\x9d\x89\x75\x75\xdc\x8a\xf2\x3b\x5a\x7b\x3e\x75\xd8\xac\xbe\xc3\x4b\xed\xac\xeb\xd7\xef\xea\xe1\x1f\xaf\xa9\xbb\x85\xbc\x5b\xda\xeb\x53\xde\xb0\x7b\xbd\x28\xba\xd6\x4c\x37\x61\x39\xe4\x8d\x7b\x05\x21\x4f\xf3\x51\x38\x6f\x62\x0b\xf6\x6c\x9c\xda\x08\x5c\x02\xa4\x0b\x5e\xa0\x1b\x8a\x5b\xa6\x86\xd2\xa1\xe0\x91\x87\x7e\x38\xfb\x95\xf4\xe2\x1d\x5a\x6f\x06\xba\x9a\xaf\x86\xe6\x4d\xcf\x90\xa4\x25\xff\x7a\xc8\x1d\xe8\xad\x16\xb2\xfc\xc9\xa7\x6d\xb0\x5a\x55\xa5\xed\x75\xb7\x43\x8e" },
RsaSig { h: 2, salt: b"\x02\x09\x10\x17\x1e\x25\x2c\x33\x3a\x41\x48\x4f\x56\x5d\x64\x6b\x72\x79\x80\x87\x8e\x95\x9c\xa3\xaa\xb1\xb8\xbf\xc6\xcd\xd4\xdb\xe2\xe9\xf0\xf7\xfe\x05\x0c\x13\x1a\x21\x28\x2f\x36\x3d\x44\x4b\x52\x59\x60\x67\x6e\x75\x7c\x83\x8a\x91\x98\x9f\xa6\xad\xb4\xbb", sig: b"\x01\xf0\xb3\xf3\x38\x0f\x16\x83\xc4\xd2\x44\x68\x75\xcc\x33\x16\x1b\xaa\x38\x3b\xbb\x11\x61\x0e\x72\x6d\xe5\x57\x67\x03\x4b\x35\xce\x91\x03\xaa\x80\x5e\xb0\xd2\x9b\x04\x86\xc1\x4e\x75\x0b\x74\x97\x88\x42\x4f\x39\xbd\xf0\x69\x3f\x7d\xb1\x3c\x5e\x3e\x6a\x6b\x27\x2a\x63\xdb\xa6\x48\xd2\x51\x70\x37\x10\x96\xf2\x1d\xd0\x53\xd8\xbf\x4f\xe4\x27\xf9\xbe\x66\xc1\x2d\x95\xb8\xaf\xa3\x65\xdb\x3e\x04\xd2\xf4\x5d\xe4\x2b\x2c\x84\x71\x33\xcb\x56\x38\x14\x12\xd0\x9f\xfa\x59\xbd\xfb\x67\x39\x8c\xe2\x12\xa8\x25\xee\x80\x34\xc1\xf7\x5b\xfd\xa0\xad\x3a\xc2\x12\x03\x6d\x41\xa4\x0a\xc2\x70\x1d\x94\x17\x68\x50\xd7\x9d\xd9\xc3\x73\xb6\xd1\x18\x48\x60\x8f\xe4\xbe\xd6\x06\x0b\xad\x33\xdb\xa7\xc1\x9a\xa9\xb7\x7a\xe6\x67\xa2\xe2\x51\x2a\x97\xeb\x41\x5d\x58\x1d\xbc\x11\xd4\xf1\xf7\xf6\x73\xba\x62\xb3\x17\x71\xd6\x2e\xb1\xb5\x0d\xf5\xc9\x4c\x41\x0b\x5d\xac\xe7\x67\xa7\x80\x5f\x1d\x1e\xe2\x64\x49\xa7\xf1\x86\x5f\x32\x40\xb4\x59\x11\x1c\x40\x69\x78\x52\x37\x3a\x39\x6c\xf4\xcf\xf9\xda\x75\x6f\xca\xd6\x4e\x2b\xd2\x7a\xa4\x75\x83\x38\xf3\xe6\xfb" }],
&[RsaSig { h: 0, salt: b"", sig: b"\x71\x31\x5b\x8d\x2d\xa5\xd1\x26\x51\xb4\xa6\x7e\x2a\x45\x82\xbd\x4e\xa7\x35\xe3\x25\xe4\xd6\x04\x5f\x26\x9d\x32\x01\xad\xa8\x97\x5a\x27\x54\x91\xdb\x36\xcb\x0c\xbf\xa9\xba\x13\xc1\x2a\x94\x57\x3d\x8f\x1d\x31\x52\xd1\xfe\x49\xf8\xb8\x5b\x9b\x2f\x2e\xc1\x12\xf0\xb0\x83\x58\x2b\xb4\x3d\x24\x56\x33\xd3\xd1\x20\xd7\xc8\xa5\x6a\x5f\x63\xab\xbe\xba\x3b\x30\x0e\x74\x32\x50\xd9\x1d\xc8\x01\xfd\x65\xcd\xc2\x5c\xb6\xfe\xff\xd3\x80\xf5\x11\x75\x39\xf2\xad\x4d\xaf\x4c\x64\x2d\xf3\x0f\x95\xe9\xa6\x4e\xca\xbf\xad\xb6\xf9\x40\x03\x36\x41\x76\x69\x82\xdd\x48\x1c\x47\xb0\xa5\x47\x5f\x86\x49\x8f\x6a\xd8\xaf\x62\xe4\x24\xf9\xdc\x0e\xec\x7e\x09\x9d\xb1\x03\xc7\xfa\x4a\xa6\x80\xa5\x4e\x28\x14\x37\xf6\x50\x8e\x1f\x39\xb7\x74\x4b\x8e\xe4\x0d\x34\x10\x89\x87\xcd\x1d\xbc\xda\x3e\x92\xeb\x6d\x84\x1c\x7e\xa7\xaa\x58\x73\xa2\x2f\x7b\x97\x0c\x7d\x08\x4f\xd0\xf1\x9e\x9e\x1a\xd6\x69\xdb\x3d\x5a\x41\x12\xfb\xe5\xae\xb5\x95\x4d\x86\x4c\x5b\x97\x65\x8e\xa3\x59\x28\x2a\xaa\x25\xa5\xfa\x26\xf7\xa2\x66\xa3\x6a\xa8\x75\xee\xa6\xe3\x4c\xd5\xfb\x7a\xb8" },
RsaSig { h: 0, salt: b"\x00\x07\x0e\x15\x1c\x23\x2a\x31\x38\x3f\x46\x4d\x54\x5b\x62\x69\x70\x77\x7e\x85\x8c\x93\x9a\xa1\xa8\xaf\xb6\xbd\xc4\xcb\xd2\xd9", sig: b"\x30\xad\xdb\x4c\x4b\x58\x80\x5f\x13\x07\x4c\x24\xd4\x67\x86\xad\x03\x83\x5a\x5c\xff\xee\xaf\xa2\x00\x27\xcc\x83\xdc\xbb\xf3\x89\xda\x83\x7c\xd9\x6f\x1b\x53\xfd\x82\xe9\x20\xe9\xc7\xff\xd8\x2c\x8d\x1b\xc7\x70\x97\x7b\x87\xf6\xa3\xe0\x5f\x60\x90\xf3\x13\xed\xec\x38\xc9\x2f\x9e\xfc\x20\xe6\x2f\xf4\x55\x34\x0f\xfc\xe3\x68\x52\xb6\x21\x47\xc2\x24\x2e\x38\x12\xb8\xc0\x48\xc0\xe6\xbd\x45\x88\xc9\xfd\x00\x83\x4b\x64\x83\xa2\x8c\x15\x03\xb1\xe9\x20\x24\x00\xd2\xbc\x39\x61\xd0\xea\x36\xfb\xff\x39\x66\x38\xfa\x20\xc5\x1e\x8f\x5d\x7a\xb2\xf5\x89\x89\x6c\xc2\x8f\x2c\x38\x74\xb3\x49\x3c\x0d\x01\x6e\xd7\xa5\x3e\xcb\x69\x0c\xe2\x50\x8f\x12\xf2\x2b\xb7\xa6\xe7\x29\x86\x77\x00\xc6\x83\x3b\x5e\xce\x22\x8b\x60\x0c\xd0\x0a\x50\x8d\x31\xc7\x65\xbb\x54\x46\x6a\xac\x8a\xdc\x8a\x7b\x1e\xcc\x12\xd8\x8c\x69\x1f\x27\x8c\xb1\xfe\x44\x46\xb0\x5e\x47\x99\xf8\x8a\xba\x22\xa7\x48\x13\x76\xa7\x56\x70\x23\xd3\xfa\xcc\xde\xe5\xfa\x25\x0d\x55\x99\x01\x84\xe4\x69\xee\x61\xf4\xee\xc1\xa4\xef\xd0\x7c\x07\xe2\x8a\x03\x86\x34\xf5\xd5\x1e\xc5\x98\xfc\xb3" },
RsaSig { h: 1, salt: b"", sig: b"\x2f\x92\xf8\xb4\x9c\xe8\xf9\x85\x42\xfa\x17\x30\x1b\x92\x6a\x46\x78\xec\x37\x0c\xcf\x64\x41\x8e\x83\xf6\x99\xf9\x6c\x3c\x2e\x81\xac\xba\x98\x61\x5e\x67\x97\x44\x33\x6e\xf6\x97\xdf\x5a\xcb\x75\x36\x74\x06\x02\x59\xe2\x48\x43\xd9\xeb\xf9\x10\x09\x28\xdb\xac\xe9\x28\x04\x1f\x86\xbf\xbc\x4d\x5d\xdc\x1c\xa3\x61\x88\x15\xa8\x90\xad\x3e\xa3\xb8\xd6\x80\xe4\x22\xe9\x1c\x0f\xcf\x28\x49\x61\xea\x9f\x13\xbc\xda\x20\xc0\xe1\x4f\xa0\x19\xf5\xb2\x33\xcf\xae\xb9\xed\xf7\x84\x4f\x3a\xe5\xca\x72\x58\xab\xdf\x8a\x7b\xd6\xd6\x80\x92\xc6\x35\xf8\xf9\x19\x5f\xf2\x17\x69\xa6\xdb\x1a\x67\x96\xf0\x25\x8b\xa7\x91\x1f\x0a\x01\xf1\x6e\x58\x81\x0f\xf5\x2a\x53\xcc\x18\xbd\xe9\x38\x35\x41\xff\xbd\xb6\xbd\xec\x6c\x42\x3a\xbf\xe4\x03\x53\xb3\xdb\x60\x34\xa1\x0a\xce\x04\x2d\xcd\x23\xd6\x44\xcc\x06\xad\x7b\x9e\x37\xd3\xef\x34\x0d\xca\xd6\x60\x81\x9c\xff\x22\xda\x70\x62\x82\x4f\x68\x2b\x7d\xf9\xe3\x50\x17\x74\xc2\xa7\x42\x56\x87\xdf\x96\xed\x5b\x0b\xf9\x80\xe0\x7a\x61\x3b\xa4\x6e\xdb\x49\x72\x3e\x09\xbe\x35\x8d\xd9\x6d\xfb\x0f\xdb\xa4\x06\x0a\x39" },
RsaSig { h: 1, salt: b"\x01\x08\x0f\x16\x1d\x24\x2b\x32\x39\x40\x47\x4e\x55\x5c\x63\x6a\x71\x78\x7f\x86\x8d\x94\x9b\xa2\xa9\xb0\xb7\xbe\xc5\xcc\xd3\xda\xe1\xe8\xef\xf6\xfd\x04\x0b\x12\x19\x20\x27\x2e\x35\x3c\x43\x4a", sig: b"\x66\x49\xb0\x77\x04\xde\x04\x6d\xa7\x43\x70\xda\x15\x9e\x1b\x83\x54\x94\x06\xf2\xbe\x86\x2a\x08\x6d\x6b\xe4\xc1\x68\xa6\x3b\x4f\x08\x92\xa2\x72\xf6\x5e\x6b\xc5\x32\x9d\x8a\xfb\x68\x9c\x4a\xf4\x91\x53\xeb\xb4\x94\x2f\x9f\x4c\x78\x15\xe7\x99\x4f\x51\xe5\x0e\x08\x8b\xac\x08\x65\xb9\x25\x90\x84\xda\x42\xd1\xe9\x1a\x45\x6f\x77\x8e\x7e\xb6\x10\x43\xc7\x52\xe2\xe6\x3a\x6e\xce\x31\xa8\x11\x34\x52\x86\x38\xf1\x6f\x40\xad\xc6\x08\xa6\x9f\x94\xf9\x4b\x61\xc2\x92\x7c\xed\x25\xe2\x9f\x00\x0b\x30\xae\xd3\xab\x62\x21\x20\xfb\x17\x63\xe2\x23\xe9\xa3\x55\xb1\x27\x09\x2f\x86\x36\xde\x80\x20\xa5\xe3\xd5\xa2\x5e\xd0\xc3\x53\x4f\xd1\x55\xfa\x34\xb3\x7d\x9a\xba\xb7\xb7\xb8\xfb\x47\x29\x16\x76\x25\x8e\x10\x0f\x1b\x74\xc4\x18\x3a\x32\xcf\xdf\x94\xe9\x40\x31\xbf\x38\xb9\x4d\xdf\x28\x1b\x94\x1d\x4a\x1d\xd0\x9d\x9d\xc5\x58\x4a\xfd\x27\x6d\x34\x60\x69\xfa\x4d\x1c\xfc\x58\x63\xb2\x10\xe7\xb9\x9a\xa2\xa1\x54\xcb\xd4\x11\x26\x06\xac\xf0\x03\xa1\xb8\xca\x1b\x82\x36\x6b\x28\x56\xf9\x10\x3a\xc3\x68\xa9\x24\xd8\xb6\x56\xf5\x2b\x52\xf9\x41\x7b\xb2" },
RsaSig { h: 2, salt: b"", sig: b"\x56\x95\xc6\xf0\x86\x06\xf1\x67\xfd\xa1\xad\xd6\x08\x88\xee\x9e\x5b\xee\xe7\x39\xa5\xfd\x80\x38\xaa\xe7\x28\x97\x24\x8a\xdf\x51\xfa\xaf\x58\x36\x11\xb3\xad\xac\xcc\x11\x3b\x64\x6c\x87\xa1\xa4\xcc\x8d\x09\x0f\x48\xe6\xbd\x6d\x03\x16\xf5\xa9\x8e\x95\x4e\x0b\xe7\xc4\xdf\x7c\x60\x13\xe0\x63\x5b\x0f\x81\x77\x80\xe3\x4c\xdb\xa5\xb3\xa2\xf2\x99\x9d\x02\x65\xe8\x73\x7b\x71\xda\x05\x6c\x10\xb8\xde\x71\x34\xb4\x7f\x36\x1b\x7e\x35\x19\x69\xc1\x03\x25\x26\xc5\xec\x7b\x97\xdd\x19\x12\x3b\x29\x1b\x60\x08\x70\x29\x70\xf0\xe8\xcf\x27\x77\x53\xbd\x39\x9c\x9b\xc2\x09\x16\xf1\x00\x6e\xb0\xf3\x80\xdb\xca\x9f\x46\x85\xcc\xe6\xcd\x9d\x0b\x81\x02\x6b\xc0\x96\xe3\x8b\x6f\x4c\xbd\xee\xb7\x93\xa3\xdf\x8e\x55\x30\x00\x00\xf0\xf2\xaf\x28\x06\x80\xac\x57\xed\x36\x9c\x0d\xee\x0d\x59\x42\x3f\x97\xa0\x37\x12\x58\x62\x75\xea\x39\xfc\xad\x0d\xe7\xed\x5d\x90\x4c\x6c\xd2\xbb\x65\x8e\x9c\xb9\x14\xc5\xcb\xd4\xae\xd0\xcd\xea\x41\xa9\xa4\x10\xc5\x16\x91\xda\x65\xd3\xbb\x4d\xd5\x46\x21\xc6\xfc\xb6\x2b\x2b\x31\x4e\x73\xc5\x6f\xf3\x9f\x01\xf6\x80\x47\xff" },
RsaSig { h: 2, salt: b"\x02\x09\x10\x17\x1e\x25\x2c\x33\x3a\x41\x48\x4f\x56\x5d\x64\x6b\x72\x79\x80\x87\x8e\x95\x9c\xa3\xaa\xb1\xb8\xbf\xc6\xcd\xd4\xdb\xe2\xe9\xf0\xf7\xfe\x05\x0c\x13\x1a\x21\x28\x2f\x36\x3d\x44\x4b\x52\x59\x60\x67\x6e\x75\x7c\x83\x8a\x91\x98\x9f\xa6\xad\xb4\xbb", sig: b"\x99\x67\x0d\x67\xa1\x1d\x67\x11\xf1\xd9\xb3\x06\xaf\x0c\xaf\xa6\xca\xf4\xbf\x97\x58\x8d\x55\x43\x7d\xe3\xdb\x59\xf9\x2f\x8e\x1b\x7d\x34\x36\x5d\x20\x27\x4c\xa1\x23\xff\x32\xcc\x00\xea\x74\x68\x55\xfb\xcd\xac\x93\x9a\xf6\x5c\x8d\x84\x1c\x01\x11\xd6\x3e\x03\x4a\x13\x58\x4c\x35\xf1\xd8\x88\xc0\x6a\xe3\xc1\x77\x1b\x3d\x00\x53\x59\x29\x31\xa6\xbb\x11\x08\x70\xa9\xb1\x82\x6a\x4f\xb1\x49\xf3\xa1\x7c\x51\x8a\x20\xfe\x34\x29\x95\x06\xd4\x64\x51\x29\x8b\xef\x7f\x27\x03\x51\x59\x3a\x6c\x8b\xaa\xb1\x23\x87\xbf\x50\xb4\x22\x21\xbf\x42\xed\x1d\x9e\x0d\xae\x35\x18\x5d\xc4\x91\xe9\x4a\x33\x9e\x08\xda\x11\xb3\xeb\xbf\x14\xc7\xb9\xbc\x0f\xfa\x6f\x65\xcd\xc1\x47\x7d\x88\xd8\x0c\xc7\x4a\xa7\x79\x21\x05\x87\x36\xe2\xd2\xf7\x60\x0d\x99\x27\xf0\xa4\xf9\xa5\xa8\x57\xed\x2a\xd3\x21\x77\x01\xee\xc1\xd7\x81\x63\x22\xed\x16\x61\x44\x6f\xf5\xad\x2f\x30\xd1\xdb\x76\x1b\xeb\x14\x62\x11\x53\xcc\xb9\x30\xa6\x11\x9f\xf3\xcd\x59\xd8\x7b\x27\x31\x2d\xf2\x90\xb0\xed\xe2\x33\x69\x20\xc7\x93\xe7\xed\x30\xf3\xf7\xbb\x48\x17\xb0\x34\xbc\x41\x42\x6d\xfb" }],
&[RsaSig { h: 0, salt: b"", sig: b"\x23\x5d\xed\x63\xa6\x42\xce\xd6\xd6\xec\xdf\xd5\x27\xbf\x2f\x3f\x43\x39\xe3\x36\xed\x05\x3f\x10\x2a\xf5\x4b\xcc\x74\xf5\x02\xcb\x65\xb9\x62\x5a\x7b\x64\x0f\xd1\x75\x5c\x4d\x7c\xa1\xae\xe5\x97\x2f\xf1\xaa\x0f\x59\x87\x82\x2b\xa0\xfc\x29\x7a\xe4\x19\x9b\x4b\x9b\x17\x63\x86\xc6\x50\x5a\x96\x8e\xec\xc9\xaa\x70\xb4\x2c\x0a\x47\x48\x7c\x27\x69\x0a\xdf\x8b\xc6\xcb\x5b\x5f\xf8\x95\xb4\x12\xdd\xcb\x5c\x1a\x83\xa4\xd7\xfa\x05\xd5\x01\x1b\x1d\x7f\x62\x73\x54\x89\xf4\x97\x9b\xbe\x92\x60\xaa\x0e\x96\x5c\x98\xaa\x64\xc1\xf1\x99\xcc\x65\xc3\x1a\xae\x7b\xa8\x72\x24\xa4\x3d\xc8\xb7\xb1\x96\x19\x9d\xe5\x60\x3f\xed\x78\xa2\x2a\x40\xe2\x10\x79\x98\x5e\x97\xcc\x12\x3e\xf6\xac\x68\x48\x11\xba\x97\x6b\x0c\xec\x8a\x59\x94\xa2\x64\x9d\x3e\x9b\x08\x15\x0b\x2d\x41\xac\x7c\x50\x2e\xab\x02\xaf\x02\x9a\x6d\xef\x47\x61\x2f\x72\x4f\xec\xba\x2f\x6f\x84\x64\x9c\xc2\x12\xb7\x72\x8d\x87\xe1\xd7\x8c\x82\x47\x29\x9f\x0c\x99\xe3\x91\x33\xd3\x7b\x93\x4c\x65\x52\x9d\x79\x99\x9e\x4d\x5d\x26\x34\xe5\x72\x7c\xe5\xc6\xfe\x8f\x75\xdb\xe1\x23\xb5\xdc\x4e\x52\xbd\x6d\xe2\x04\x16\xce\xf2\x6e\xaa\xd7\x70\xf5\xfe\xab\xcb\x98\x3e\xa7\xf2\xfc\x98\xc4\x4f\x75\x80\x77\xfe\x26\x7a\xfb\xdd\x1d\x9b\x83\xcc\x0f\xee\x48\xe4\x92\x91\x3f\xf3\x69\x96\x17\x9e\x47\x80\xef\xb6\xab\x94\x7f\x6d\x51\x00\x29\x4c\xcf\xbc\x24\x28\x7c\x7d\x73\x2a\x47\xc9\xae\xfc\xa1\x9b\xf4\xcf\x76\x39\x00\x9b\x0d\xb4\x2a\xe5\x1c\x88\x9c\xa9\x2e\xf4\xd0\xe5\x99\x4c\xb4\x80\xe2\x4a\xea\x1e\xad\x31\xf4\xc8\x65\xdc\xa5\x36\x8f\x2f\x54\xa7\xb1\x40\xe8\xd9\x3a\x9f\x36\x42\x23\x7a\x96\x93\x23\x2f\x84\xbb" },
RsaSig { h: 0, salt: b"\x00\x07\x0e\x15\x1c\x23\x2a\x31\x38\x3f\x46\x4d\x54\x5b\x62\x69\x70\x77\x7e\x85\x8c\x93\x9a\xa1\xa8\xaf\xb6\xbd\xc4\xcb\xd2\xd9", sig: b"\x1b\xc8\xaa\x5e\x1c\x9c\x1a\x5b\x77\x2b\x0a\xce\x1e\x21\xa7\x56\x21\xc0\x49\xe5\xf4\x4b\xbd\xd7\xdd\x01\x23\x28\x97\x65\xda\xcd\x2a\x02\xd6\x66\xd5\x5a\x7c\x46\xfa\x85\x04\x24\x54\x8a\xdd\x5c\x04\x56\x23\x11\x53\x89\x2c\xe4\x2b\xa5\x98\x5c\xd0\x10\x9b\xc9\xc9\x18\x52\x3c\x61\x9f\xd1\x51\x5e\xef\xd6\xe8\xd8\x8d\x6b\x28\x7b\x36\x28\x0e\x86\x6b\x21\xc1\xcf\x23\xef\x9f\x82\x15\x33\x1e\x37\x4f\x1e\x66\xec\xda\xc7\x58\xaf\x54\xe3\xf9\x86\x3a\xf7\x0d\xfb\xe7\x52\xb7\x8a\x31\x39\xe8\xa5\xd8\x07\x95\xe7\x69\xd3\x95\x4d\x98\xc6\x42\xd7\xbd\x82\x29\x15\xe0\x8e\xaa\x18\x34\x31\x63\x33\x8c\xc8\x35\xb9\x4b\xe2\xc6\x8e\xcf\x75\x0d\x08\x4b\x2f\x83\x2c\xd1\x02\x79\x13\x12\xb1\xd8\xe3\x03\x43\x29\xb6\x1b\xfe\x20\x91\xb8\xce\x52\x0a\x22\xe7\x9d\x3f\x6c\x45\x73\x47\x71\x07\x8b\x6b\xda\x74\x98\x69\xfc\xc3\x02\x68\x8c\x9f\x35\xe8\x42\xf2\xd4\x19\x2d\x77\x07\x1e\x0e\x11\x76\xd8\xec\x27\x82\x03\x75\x15\x51\x37\x74\xa4\x26\x2f\x82\x81\x04\x4c\x1b\x76\x34\x61\x2e\x59\xd5\x98\x51\x1e\xd7\x60\x04\x6c\xe4\xb7\xee\xfd\x5d\x72\xde\x21\x6b\x04\x22\x0b\x57\x82\x51\x40\x34\xa5\xdc\x56\x9f\x9d\x5a\x1a\x66\x18\x6e\x7f\x2a\x0f\x53\xc3\x68\x2e\x95\x5f\x6f\xde\xe8\x16\xd8\xd7\xa5\xd2\x2a\x8c\xa5\xdc\xc4\x77\x97\x89\x1f\x79\xd6\x78\xaa\xdb\xbd\x6f\x32\x91\x8a\x1e\x49\x76\x97\xb1\x01\x4d\x24\x3b\x83\xbf\xfa\xe7\x3d\xef\xce\x7a\x25\xbd\xe6\xf1\x14\xd3\x70\x1c\x40\x5a\xa0\xa7\x29\x5d\x21\x0b\xae\xca\x7c\x8b\xd4\x30\xe3\xda\xa2\xe6\xeb\x72\xd8\x17\x18\xda\xbd\xca\x99\x96\x71\xb4\x74\xea\x82\xf1\x41\xf9\xec\xd7\xd6\xef\x3f\x3d\x31\x38\xd9\xde\xef\x44\x60" },
RsaSig { h: 1, salt: b"", sig: b"\x73\x39\x6b\x2d\x12\xcd\xcf\xa7\x23\x1a\x9d\x85\xba\xc7\x61\x4d\xff\x2f\xce\xf5\xb7\x50\xc9\x5b\xe6\x46\xee\x9d\x8e\x10\xd0\x13\x54\x30\x5f\xee\x0a\xc7\x8b\x3d\x63\x96\xd3\xb1\x31\x27\x68\xe4\xb1\xe5\x31\x69\x31\x57\xf7\xd1\x8c\x96\x7f\x1f\x5b\xba\x2c\x5a\x54\xa5\x5f\xa1\x75\xed\x35\x3e\x94\xfb\x74\xda\xc4\xdf\x60\x28\x12\x5a\x10\xd7\x2e\x45\xb1\xcd\xa9\x7b\x17\x6a\xd4\x9c\x22\x74\x4a\x78\xf2\x76\xb1\xde\x6d\x54\x50\xda\xfc\x2c\xa7\x23\x68\x54\xef\x32\xa7\xb2\x47\x12\xe1\xfa\x95\x79\x03\x43\x60\xfd\x1b\x8a\x8f\xb9\x8d\x8c\x33\x97\xe9\xea\x0d\xbf\x88\x03\xa3\xaf\xc0\x7f\x2f\xe2\xb6\xc8\x29\x01\x51\xa8\xee\x0c\x90\x2a\x8a\x26\x5a\xa4\x57\x61\x44\x88\x54\x93\x00\xbf\x1b\xae\x78\x3b\xa7\x41\x51\xe1\xbb\x52\xdd\x11\xc4\x7f\x6d\x95\x0f\x63\x6a\x36\xaa\x73\xf0\x52\xc5\x78\xa9\xf4\x2b\xac\xf4\xa1\x66\x96\x2a\x56\x0c\x39\x48\xbb\x58\x30\x8d\x8a\x08\x0c\xc7\xda\xa3\x3f\xd1\x07\xd0\xf8\x42\x4f\x8b\xde\xaa\x77\x48\xa3\x02\x73\x60\x95\x7c\xd4\x54\xc4\xbd\x78\x6d\x81\x00\x20\x09\x6c\x9f\x50\x2f\x51\x82\x0e\x64\xbe\x6a\x3b\x71\x9e\xff\xdc\x2d\xeb\xbb\xcd\xe5\xf0\x28\xa9\xe1\x20\x3d\xbb\x29\x95\xf8\x68\xf2\x4a\x58\x8a\x6b\xde\x62\x9e\x82\x33\x99\x10\x0c\x20\xd7\xfe\xb9\x84\x02\x9a\x5c\xcf\xa2\xd9\x45\x02\xe2\x11\x6b\xc0\x8e\x8d\xf9\xcc\x9d\x33\x27\xf0\xb4\x7d\x2c\x48\x2c\x1f\x57\x84\xe6\x3b\x5f\x2e\xc7\xec\x2a\xce\x6a\x0d\x8e\x29\xef\xda\xfc\xef\x20\xee\x96\xdd\xd8\xb2\x3e\x12\x5a\xab\x3d\x44\xe3\x95\xef\xf2\x41\x06\x3e\x86\xc8\xde\x60\xd7\x6d\xf3\x0a\x8e\xda\xde\x21\xd4\x66\xd3\x32\x12\x4e\x29\x50\xd1\x9f\x8f\x88\x04\x08\x52" },
RsaSig { h: 1, salt: b"\x01\x08\x0f\x16\x1d\x24\x2b\x32\x39\x40\x47\x4e\x55\x5c\x63\x6a\x71\x78\x7f\x86\x8d\x94\x9b\xa2\xa9\xb0\xb7\xbe\xc5\xcc\xd3\xda\xe1\xe8\xef\xf6\xfd\x04\x0b\x12\x19\x20\x27\x2e\x35\x3c\x43\x4a", sig: b"\x68\x64\x1a\x3a\xb4\x2e\x1e\x7b\x01\x96\x5d\xec\xfd\x53\x09\xed\x0c\x81\x1a\x4e\xe0\x2d\x8b\x00\x0d\x7d\xa1\xa5\xf7\xd3\xaf\xa0\xf6\x91\x70\x8e\x10\x87\x76\xf9\x4e\x30\x9c\x2a\x4e\x3b\x5d\x52\x25\x32\xa2\x44\xf6\x14\x70\x92\xb4\xa8\xf9\xf3\xf5\x4c\x92\x02\x1b\xd7\x8c\x83\xb1\x91\x5a\xe9\x2d\x62\x83\xda\x95\xb1\x65\x43\x07\x29\x3d\x61\x5a\x7e\xb4\x4d\x73\x98\xea\x6f\xf7\x87\x85\xaf\x4f\x2e\x17\xc3\x67\x00\xa7\x99\xe3\xe3\x09\x09\x2d\x2e\x3d\x9e\x84\x64\xec\x5e\x1b\x8f\x25\xe0\x41\xa4\xfc\xa1\xac\x14\xf0\x41\x2e\x31\xa6\xf8\x7b\xf7\xb2\xcd\x10\x95\x70\xa6\x8d\x24\x11\xc7\x5e\x3a\xb9\xc5\x11\x7b\x8c\xd8\x8c\xeb\x5d\x04\x5d\x92\x70\xc4\x36\x62\x5e\x9e\xa9\xda\x98\xe9\x3c\x90\x92\xb6\xaa\x37\x3f\x9c\x63\xca\x34\x65\x0e\x4a\xc5\x48\xdc\xfd\x23\x61\x5e\xc0\xb3\xea\x14\x6a\x0a\x67\x66\x6e\x19\x82\xa3\x73\x3f\xba\x2f\x9b\x12\xee\x05\xcd\x66\x4a\x3e\x08\x54\xfa\x4e\xbf\x1e\x2c\xfa\x0c\x24\x0e\x95\x6a\xa8\xc1\xd1\x97\x39\x0a\xd9\x9b\x5c\x19\x3f\x58\x7e\x9e\x93\x9c\xb5\x75\xa1\x82\xda\x42\xe2\x2a\xf9\x04\x4d\xe2\xfa\x65\x20\xbd\xa4\xc8\x72\x72\x04\xad\x4f\x63\xaf\xa0\x69\x27\xd1\xaf\x30\x4f\x76\x7b\x36\xbf\xf1\x54\x3d\xb7\xc3\x8a\x17\x18\xbf\x12\xfe\x56\xde\x18\x86\xbe\xdd\x8c\x3f\x31\xbb\x44\x10\xbb\x85\xdf\xaa\x15\x49\xce\x55\xc2\x2f\x33\xfa\x21\xd5\xde\xba\x09\x26\x67\xdb\xdc\x01\xfb\xdd\x54\x65\xa9\x73\x12\x5c\x4b\xc2\x0a\x34\xaa\x9b\x6e\xf2\xa0\x91\x6c\x35\x3e\x64\x79\xf8\x8d\xee\xd1\x7f\x37\xda\xc6\x91\x9b\xaa\x6d\x52\x60\x74\xbc\xb4\x23\x83\xc0\x54\x7b\x49\xcc\x59\xd2\x59\xa6\xb6\xa9\xdc\xd0\x8a\x44\xe7\xf6\xc4\xa9" },
RsaSig { h: 2, salt: b"", sig: b"\x2f\x7f\xb3\x29\x30\xf2\xf2\x35\x79\x29\x07\x6a\x8d\x39\x4e\x07\x31\x84\x31\x28\x52\xa9\xfd\x8b\xd9\xa1\x75\x3c\xf7\xf4\x3f\x95\xc7\xaa\xc1\x02\x80\x6a\xed\xeb\x6f\x26\x36\xdc\x03\x4c\x0c\x5e\x65\x47\xed\xd4\x72\x2e\xdc\x3f\xc7\x5a\x6b\x44\x24\xe4\x60\x5a\x8f\xe5\xb2\xe5\xc2\xbf\x22\x24\x07\x22\x51\x87\xe5\x6c\x58\x81\xb3\x4c\x0f\xac\x93\xf3\xe4\xaa\xd8\x41\xc9\xd5\x09\x0e\xf8\xcc\x72\x04\x15\xa1\x86\xd5\x49\xff\x0b\x97\x2f\x4b\x2b\x28\x89\xff\x5a\x7e\x37\x43\x28\xca\xf7\xfb\x9a\x7c\x4f\xb5\x4d\xb5\xc6\x86\x44\xda\x21\xbd\x48\x92\x29\xd5\x07\x87\x96\x8e\x98\xdb\x51\xea\x77\xe5\xd6\xda\xe8\x00\xe7\x27\xf4\x10\xad\x69\xb8\xe2\x85\xb0\xbc\xb9\x5e\x9a\x65\x5d\xe3\xf3\x7d\x5c\xa3\xde\x21\x85\xc6\x5a\x86\xd7\x41\x69\x75\x67\x1f\x3f\x6b\x2e\x95\xb8\x2a\xe2\xf5\x53\xd3\xee\xef\x69\xd1\x6e\x2c\x6b\x49\x34\x76\x29\x49\x5e\x10\xac\xb9\x1f\xa7\x3e\x6e\x45\xd1\x30\x01\x2d\x59\xd3\xe0\x0a\x64\x3d\xbc\xd6\xac\x76\x02\x33\x9f\xb8\x46\xc7\xb7\xbe\x68\x5b\x5a\xe4\x81\x64\x30\xc7\xc3\x18\x24\x83\x8d\x01\xd9\x79\xb4\xb4\xe3\x68\x99\x90\xc0\x0a\x7f\xc3\xe3\x1f\x8e\x21\x8d\xfd\x34\x77\x50\x2a\x5b\x3d\xad\x60\xac\x33\xb0\x66\xca\x5a\x71\x5a\xab\x64\x50\xeb\x76\x51\xda\xb7\x0a\x82\x90\x44\xaa\xb6\xc5\x52\xcc\x86\x75\xca\x9c\x9e\x29\x83\xc6\x15\xbe\xc3\x8f\x85\xf7\xb1\x05\xee\xdd\xaa\xe9\x7a\x24\xf2\xf2\xa3\x43\xa0\x90\x42\x8c\x49\x4e\xa2\x34\x47\x67\x57\xe4\x65\xee\xbd\xa8\xac\x92\xeb\x2f\x37\x65\x5f\x6a\x7f\xd5\xaa\xbc\xf9\x47\xcd\x11\xf9\x50\xb5\xf8\x93\xb1\x1b\xf3\xf3\x9e\xf3\x9a\x81\x75\x12\x95\x7b\x21\xb7\x75\x70\x16\x3c\xdc\xef" },
RsaSig { h: 2, salt: b"\x02\x09\x10\x17\x1e\x25\x2c\x33\x3a\x41\x48\x4f\x56\x5d\x64\x6b\x72\x79\x80\x87\x8e\x95\x9c\xa3\xaa\xb1\xb8\xbf\xc6\xcd\xd4\xdb\xe2\xe9\xf0\xf7\xfe\x05\x0c\x13\x1a\x21\x28\x2f\x36\x3d\x44\x4b\x52\x59\x60\x67\x6e\x75\x7c\x83\x8a\x91\x98\x9f\xa6\xad\xb4\xbb", sig: b"\x69\x8d\x90\x58\x44\x35\xe9\x4e\xc7\x95\xd9\xd4\x18\x1e\xf7\x07\x4a\x72\xfa\x65\xea\xfc\x28\x6f\xdb\x04\x57\xc9\x2e\xcd\x95\xf4\x87\xc4\x66\x59\x4e\x0e\xc6\x6f\x0b\x35\x75\x26\x44\xf7\x24\x8a\x1c\x3e\xbe\x93\x24\x49\x31\x37\xdf\x86\x48\x48\x0b\x8e\xf0\x62\x1f\xec\x0e\x92\xae\x03\x73\x97\xfc\xba\xc0\x77\xa6\xbc\x46\x5f\x19\x54\xe2\x05\xa7\xb8\x3c\x67\x02\x8f\x38\x47\xe6\xb3\x0f\xbe\x2e\x0d\x5f\xfa\x08\xbb\xae\x1f\x0a\xec\xfa\xd8\xfc\x88\xac\x7d\x85\x97\x7d\x61\x0c\x91\x22\x6a\x59\x43\xbb\x06\xde\x31\xb3\xbd\xd1\x9e\xdc\x0a\x66\x50\x2a\x6c\x98\xb1\x9b\x0e\xd1\xd6\x82\x38\xeb\x50\x67\x32\x2e\x03\x52\x78\x4d\x53\x82\x45\x99\x2d\xd7\xcb\x45\x0a\x2a\x89\xde\x41\x24\x20\x1b\x29\xfc\xeb\xde\x06\xed\x7f\x24\x50\x18\xff\xf4\x34\x51\xf5\x0e\x76\xa1\xf0\x23\xa7\x0f\xa5\xb4\x3d\xda\xda\xc4\x15\xd9\x39\xf9\x90\x9e\xf1\x3e\xaa\x92\x98\x4f\xa7\x12\xe7\x2f\x98\xf8\xde\x1c\x75\xfc\xf4\x87\xe4\x7c\x6f\x02\x06\xf7\xe9\x23\x89\x4e\x60\x81\xf7\x77\xca\xf3\x93\x9a\x3d\xab\x68\xa2\x3e\x44\xe2\xf5\xdb\x16\xfe\x77\x16\x5f\xa2\x1e\xd1\xd6\xee\xaf\xdb\x9f\xcf\x73\x3d\x5d\xec\xcc\xb1\x30\xcb\x8b\x3f\x0e\x83\x49\x33\x73\x1d\x9e\x39\xf0\x46\x92\xb3\x8c\xa0\xe9\xa5\x41\x53\x8a\xd5\xb5\x31\x8a\xbc\xaf\xcf\x3b\xa5\x02\x54\x66\x9e\x3c\x87\xc5\xb8\x42\x59\xf2\x00\xfa\xca\x35\x72\x69\xc7\x9c\xbe\x9d\x67\x1d\x7b\x89\x3e\xba\x1c\x6d\x37\xc1\x89\xa5\x37\x01\x7d\x04\x11\xfd\xbf\x75\xd9\x62\x15\x31\x78\x58\xf9\x58\x3b\x09\xf9\xa8\xaf\x2f\x96\x0b\x48\x5a\xed\xe2\x3a\xd1\x11\x9c\xf5\xa1\x77\x5a\x01\x10\xed\x1b\x67\xba\x38\x7d\x88\xbb\x01\x73\xd5\x1f\x48" }],
&[RsaSig { h: 0, salt: b"", sig: b"\x41\x0a\xf1\xc4\xff\x5c\xba\x03\x8b\xd4\x2d\x11\xa2\x08\x85\x29\x85\x5a\x00\x20\x75\x6e\xcd\x27\x19\x12\x99\x62\x31\xac\xd4\x19\x62\x04\x0a\x35\xf4\xb0\x10\x55\xb7\x58\x7d\xeb\x42\x69\xf3\x4e\x96\x80\xbf\xa0\x18\xdc\x5f\x59\xdd\xd9\x3c\x59\xfb\xb9\x6c\x37\x3b\x7f\x02\x31\x7f\xc5\x6f\x6f\x7f\x0f\x33\x44\x28\xf7\x16\xea\x6c\xcc\x70\x57\x3b\xd7\x94\xca\x9c\xb3\xe0\x72\x6d\xa6\xec\x26\xf8\xed\x4d\x92\x3c\x9e\x77\xaf\x4f\x67\xaa\x5e\x18\x8b\xed\x9b\xe8\xad\xe7\x99\xf9\x66\x11\x7b\xa0\xf2\x1b\x5f\x9d\x0f\x7e\xd3\x8a\x60\x17\x7b\xa2\x7f\xc0\x2f\xd7\x3e\x6b\x0f\xe6\xa9\x1a\x91\xeb\xc8\x87\x56\xf4\xf3\xdf\x8a\x04\x21\xe4\x7c\x50\xa5\x16\x96\x06\xb7\x08\xb7\xf0\x2a\x64\xab\xc6\xc2\xdd\xc7\x9c\x85\x47\x71\x7c\x3e\x73\x16\x7f\xa1\x32\xd3\x5f\x1d\x08\x9a\xe8\xa8\x15\x4c\x50\x1b\xda\xa6\x5e\xaa\x2e\xb0\xa1\xd1\x4e\xe7\xbb\xc7\x48\x35\x6e\x05\xf1\xae\x4e\x28\x4b\xd6\x16\x50\xce\x55\xad\x17\xc1\xcf\xb6\x57\xb7\x46\xcc\xb9\xcf\xa2\x3e\x94\x64\x69\x47\xb7\x9e\x7f\x91\x4a\x46\x99\x29\xc2\x32\x26\xe2\x56\x0f\x14\x4a\x05\xa2\x11\xeb\xaf\x61\x92\x5c\x15\x55\xf4\x8b\x38\x6e\xd1\xd7\xb4\xfc\x65\x22\x5a\xf6\xbe\x1d\x07\xcc\xc3\x8f\x99\xaa\xd4\x83\xec\x5d\x4b\xfa\xbb\xc3\x9a\x5c\x26\x80\x6f\x75\x2c\xce\xb2\x76\xc2\x4c\xc6\x67\x61\xdc\x71\xc4\x4d\xbd\xb8\x8e\xfe\xca\x3b\x84\x49\x03\x7d\x7f\xf4\xbd\x2a\xed\x4e\x70\x5d\x3f\x02\x50\x76\x6a\xeb\xc9\xb4\xb8\x08\xed\xc1\xdf\xc6\xc3\x2b\x99\x9b\xbe\x5f\xeb\x47\x0c\x82\x98\xd4\x8e\x31\x5d\x99\x4c\x0a\x0a\xa3\xb8\x5d\xff\x6d\x6e\x33\xb4\x96\xef\xcc\x3c\x0f\x5e\x84\xe7\xc5\x04\xe9\x50\xd4\x34\x55\xe6\x7c\xb1\x57\xea\x99\xe8\x3d\x91\xdf\x5c\x3d\x86\x85\xdb\xf8\x60\x5f\xaf\x7e\x1b\x3b\xb3\x86\x86\x76\x91\x5e\x50\x16\x8e\xc1\xda\x6d\x28\x20\xe7\x4f\xc2\x0d\xd1\x9b\x88\xce\xe8\xcb\xaf\x50\x5d\xf1\xa0\xeb\x95\xd4\x34\x3b\x5e\x8a\xfa\x0c\xc1\x7d\x32\xfb\x91\xb0\x25\xca\x7b\x8c\x0e\xa3\x59\x65\xac\x9a\x63\x62\x81\x07\x84\xd4\x6a\xb8\xf1\x31\xb5\x8a\x8f\x64\x0f\x3a\xda\x2f\x5e\x25\xe0\x01\xd2\x61\x12\xae\xa2\xab\x6e\x4f\x79\xc2\xd9\xce\xe9\x5d\xa2\x3d\xa7\xe0\x52\xab\x88\x33\xb7\xb6\x53\xfc\xcb\x55\x09\x67" },
RsaSig { h: 0, salt: b"\x00\x07\x0e\x15\x1c\x23\x2a\x31\x38\x3f\x46\x4d\x54\x5b\x62\x69\x70\x77\x7e\x85\x8c\x93\x9a\xa1\xa8\xaf\xb6\xbd\xc4\xcb\xd2\xd9", sig: b"\x49\x4c\x25\xf9\x2f\xa1\x12\xec\xa5\x31\xdb\xf4\xb7\xd5\x3f\x84\xa5\x47\xd6\xc5\xc6\x56\xbc\xfa\x8e\x29\x7c\x24\x5e\xb9\xeb\xab\x03\x82\xf7\x35\x98\xc9\xc9\x5f\xef\x10\xb4\xbe\x98\x93\x93\x9c\xfd\x33\x9b\xe8\x23\x3b\x15\xb7\x43\xd4\xdc\xaa\xd8\x5d\x1a\xd2\xe0\x14\x60\x62\x4e\x41\xb1\x29\x74\xca\xef\x8e\x50\x10\xaf\xb1\x94\x9d\xdd\x27\xed\x3c\x2b\x7a\xb1\xa9\x90\xdd\x25\x73\x6e\xbb\x11\xd3\xf0\x7c\x57\x3c\x4f\xab\x44\x3d\xe5\x4e\x97\xb1\x00\x14\x48\x4d\x59\xad\x36\x39\xe4\x12\xf2\xca\xfe\x09\x0c\x42\xf0\x8b\x99\x54\xce\x0f\x5e\xa6\x45\x27\x01\x24\xf4\xe6\xd6\x7e\xc6\xca\x10\x33\x97\xa9\xf7\x13\xdc\x70\xaf\x8a\xdf\xe2\x17\xb7\xd2\x10\x64\x3c\x6e\x7a\x6c\x50\xd9\x43\x47\x35\x10\xd1\xfe\xe5\xdf\x4f\xd5\xb1\x3d\x97\xfc\x1c\x35\x66\x87\x3a\x78\xaa\xdc\xa6\xcd\xa3\x6c\x81\xe8\x67\xba\xda\x3f\xab\x76\x8b\xe6\x8b\x2d\x7f\xdc\x95\x76\x3c\x88\x8b\x6e\x64\xb3\x61\xdb\xfa\x08\x19\x02\x20\x5b\xc0\x25\x7b\xe5\xc9\x3b\xcc\x2a\xb3\x8a\xbb\x45\x49\x7e\xe6\xf6\x06\x65\x5c\x9f\x67\x1f\xc0\xf2\xf9\x8b\x04\xd2\xd5\xd8\x6d\x25\x7a\x53\xb3\x6c\xa2\x19\x07\xdb\xd9\xe4\xc8\x26\x32\x80\x66\xab\xfa\xeb\x3c\xe8\xd5\xef\xba\xdc\x7e\x27\x5f\x4e\x42\x88\x01\x88\xf1\xd3\xc0\xb9\xb9\xa1\xeb\xf3\xa0\xef\x98\x87\x0d\xe6\xaa\xe4\xc3\x70\x9e\x66\x5b\x37\x00\x04\xa7\x60\x87\xd1\x44\x89\x3b\xba\x92\x57\x8c\xff\xe9\xf5\x14\x65\xef\x17\xa3\xc2\xb6\x41\x00\xae\x34\x0b\x0c\xb6\xe9\x37\x22\x23\xc6\xae\xa6\x6a\x35\x7a\x55\x2a\xfe\x83\xb1\x4a\x9e\xf4\x06\xfa\x4f\xbd\x2d\x94\x65\x84\xc4\x93\xfc\xe4\x1a\x1b\xf1\x14\x7d\x75\x04\xf0\x34\x84\xba\x87\x73\x76\x19\xd1\x30\x9f\x10\xf4\x0d\xf3\xe5\x2b\x7d\x21\x9f\x12\x18\xd6\xc8\xbb\xd0\x2a\xf7\x46\x2b\x37\xfa\xe9\x04\x15\x67\x58\x7f\xfe\x19\x8f\x37\x8a\x85\xd3\x8f\x4d\xc6\xac\xb3\x17\x22\x72\xbd\x7f\x29\xbd\xbc\x68\x3f\x18\xe0\x12\xd3\xf0\xaf\xcc\xbb\xf0\xc5\xf0\x79\x75\xfb\xc7\x9f\x0d\xbf\x75\xa1\xee\x47\xe6\x07\x99\x0d\x12\x78\x7a\x9b\x7a\xe4\x30\xa5\xda\xe8\x03\xdc\x76\xde\x72\x21\x9a\x88\xff\x3a\x92\x36\x00\x89\xfb\x50\xdf\x73\x23\xf5\x39\x53\x51\xbd\xf5\xd3\xf9\x85\x78\xfa\x38\xe3\xec\xb9\xe5\x8a\xd1\x41\x62\x77" },
RsaSig { h: 1, salt: b"", sig: b"\x31\x0f\x10\xf0\x77\xbc\x52\x09\xd5\xa1\x68\x35\x13\x27\x72\x4a\x11\x33\x93\xd4\x07\x0c\xaf\xf0\x4b\x16\x9c\x04\x78\x41\x5a\xcb\x4a\xbf\x60\xde\x64\x4e\xe6\xf5\x5c\xf7\x9b\xaa\x76\x9a\xea\xde\x08\x3d\xce\x03\xb2\xa8\x55\xf3\x1d\x3e\x9f\xde\xab\x84\x98\x9e\x08\x10\xd1\x89\x45\x8e\x01\x37\xea\x20\x5b\xf8\x90\x46\x32\xad\x49\x4c\xae\x76\xad\x24\xc2\x24\x8c\x11\x12\x72\x92\xe2\xf0\x98\xe5\x97\x2d\xcf\xf9\x7f\x29\x83\xca\x45\xf2\x2b\xe2\x42\x0a\xd6\xbf\x34\x19\x93\x40\x65\x26\xd6\x3d\x51\x84\xae\x7a\x48\x1b\x70\xfd\x65\xd2\xb2\xc7\x28\x66\xf7\xbf\x91\x80\x16\xba\xf1\xc0\x71\x51\xce\x4c\xc3\x9d\xa9\xf8\x28\xeb\x30\x85\x08\xb4\xf7\xbb\x7a\x8c\xe5\x6a\x23\xf7\xb6\x07\x32\x5d\xd7\x33\xe7\x30\x35\x27\x85\x1b\x86\xed\x2f\x1a\x21\xf7\x11\x82\x84\x25\x9d\xb1\xcb\x71\x42\x2a\x99\x73\x82\xf2\x2c\x4f\xa4\x65\x71\xc3\x0e\xcd\xb6\xc4\x08\x05\x92\xf2\x6d\x39\x87\x7a\xa8\x2b\x30\x68\x62\x98\x5e\xe7\x89\x66\xb4\x12\xba\x7c\x84\xd7\xcf\x4e\xec\x02\xad\x43\xdf\x90\x25\x0c\x3a\x46\xae\xb6\x35\x0e\x60\x1c\x2d\x41\xc3\xff\x8e\xa3\x13\xfc\x73\xb3\xac\xff\x32\x77\x7f\xbd\x98\x3d\xc0\xf9\xf3\xab\xb6\x78\xb7\x97\x26\xed\x40\x92\xf0\x66\xf8\x5e\xcf\x27\x5c\x4a\x40\x62\x01\xa7\xfe\xd0\x5c\xec\x6a\x27\x99\xf1\x87\x85\x16\x06\x48\x80\xd4\x8f\xec\xd6\xde\x36\xee\x7d\xc0\xcc\xf4\xb6\x76\x35\xd5\xf4\x8b\x38\x63\x74\x57\x97\x57\x12\xe7\x21\xeb\xbb\xd1\x79\x86\x5a\xf4\x09\x41\x12\x80\xf2\xf6\x3b\x68\xab\x35\xaf\xc7\xa3\xe9\xa2\x75\x12\x2e\x63\xcf\x8d\x16\x09\xd3\x75\x15\xa8\xcb\x4f\x45\xa3\x1e\xbf\x6c\xfa\x73\x87\xa9\xb1\x24\x88\xcb\xb1\x80\x0b\xa4\x8a\x1c\x70\x71\x67\x69\x8a\x81\x17\xe5\xcb\x87\xf0\x0c\x43\x13\x8d\x4f\x4f\xcd\xfd\xb2\x19\x01\x13\x43\x43\x79\x7e\x6e\xb1\xd7\x47\x16\x8a\x2c\x9a\xde\x13\xa8\x6e\x07\xcb\x6b\x76\x51\x3a\x34\xd6\xd9\xd4\x6b\xc0\xb4\x68\x22\xdf\x57\xc6\xd8\xe3\x58\xcb\xcb\x77\x65\xde\x50\xa0\x53\xae\x6d\x22\x82\x80\x0d\x32\x18\x22\x82\x85\x1d\xe4\xf8\x58\x92\x6a\x47\xcf\x90\x5b\x06\x27\x4d\x83\x9b\x89\x5c\xe8\x4c\x63\x37\x88\xd6\x18\xd0\x6e\x44\x13\xb4\x25\x60\x15\x9e\x35\xa7\x38\xc4\xb0\xcf\xff\xf4\xc0\xe7\x28\xfb\x54\xbd" },
RsaSig { h: 1, salt: b"\x01\x08\x0f\x16\x1d\x24\x2b\x32\x39\x40\x47\x4e\x55\x5c\x63\x6a\x71\x78\x7f\x86\x8d\x94\x9b\xa2\xa9\xb0\xb7\xbe\xc5\xcc\xd3\xda\xe1\xe8\xef\xf6\xfd\x04\x0b\x12\x19\x20\x27\x2e\x35\x3c\x43\x4a", sig: b"\x1d\xe7\xf9\x82\x99\xba\xb4\x7f\xe3\x3c\x78\xe4\x5e\xd6\x5e\xaa\x12\xbe\xe3\x5a\xe3\xa9\x6f\x80\xf6\xf9\xf2\x67\x33\xad\x5e\x7d\x15\xf3\xa2\x92\x78\x97\x0d\x8e\x1a\x3c\x3e\xf7\x41\xad\xce\x63\x7f\x15\x52\xe6\xd5\x75\x38\x39\xfe\x3d\x44\x70\xe4\x52\xcf\xd3\x52\x73\x24\x3a\x81\x30\x1f\xf5\xdd\xfa\x44\xd7\xd6\x7e\x38\x7f\x8f\x6c\xa5\xf7\x00\x1d\x8f\xc2\x82\x38\xef\x8e\xbf\xb6\xa4\xdf\xc9\x11\x58\x11\x2f\xd5\xe4\x56\xf9\xbc\x76\xb9\x64\x80\x6d\x71\xfc\xdd\x75\x30\x05\x77\x4f\x88\xef\xdf\x4b\x36\x3b\xb7\x53\x0d\x8e\xd7\xb2\xdf\x93\x89\x30\x9d\x7b\xb8\x2c\x97\xa1\x4b\x68\x1f\x88\x0d\x82\x00\x8f\xff\x64\xb8\x4b\x14\x62\xec\xa7\x27\x29\xfa\xe2\xfb\x8c\x13\x64\x80\xe3\x84\xa2\x3a\x15\x2d\x11\xa7\x83\xb4\x9d\x02\x19\x16\xc6\xbe\xb5\x4f\x0c\x25\x67\xdf\x8b\x98\x3b\xbe\x78\x1e\xf3\x7d\x5e\x32\x1d\xf6\x13\x22\x3c\xf9\xa4\xa4\xd7\xcd\xcd\x9b\xa7\x09\x38\x7c\x5f\x4f\x55\xcd\x9a\x67\x40\x62\x14\x94\xe8\xbf\xee\x8a\x77\xf2\x71\x21\xee\xf2\x74\xbd\xed\x29\xe5\x48\x9e\x8b\xf3\xde\x83\xea\xd3\xce\x80\x26\xf1\x68\xf5\x38\x91\x87\x50\x30\x60\xe4\xf6\x01\xc9\x0a\x97\x95\x56\x29\x2a\xc2\xc9\x0c\x05\x31\xf5\x29\x4f\x9f\x1f\x40\x74\x94\x90\xfc\x4b\x76\x97\x37\x87\xe7\xc0\xaa\xfc\x34\x62\xf8\xd6\xa6\xce\x5d\x57\xf3\x2b\x95\x0f\x71\xb6\x69\xa3\x2a\x6e\xc9\xfb\xd4\x3d\x8b\x55\xf3\x58\xe2\x40\xf8\xb8\xa2\xe6\x21\x97\x56\xce\xff\x82\x22\x37\xac\x52\x08\x4c\xc1\xab\x46\x90\x17\x17\xe0\xcb\x67\xb5\x9e\x12\x8c\x07\xb9\x1e\x25\x0e\x0f\xd0\x78\x47\xc6\x24\xff\x31\x89\x8c\x9e\x5a\x1f\x2d\x70\x7d\xb1\xf3\xc9\x07\x52\xe3\x8f\x4e\x98\xd7\xef\x43\x54\x38\xb2\x68\x6b\xd2\x3f\xe3\x85\x10\x52\xe8\x52\x13\xdc\x21\xa5\x15\x72\xb0\x0d\x91\x3d\x6c\x96\xc4\xe3\xf1\x0b\x65\x15\xe1\x64\x01\xd5\x9a\xc3\x9e\x01\x47\xaa\x5c\x41\xdc\x22\xf5\xbe\xa1\xe9\xf9\xf5\xcf\x4f\x15\xe5\x7a\x43\xc5\xa9\x2f\xe9\x35\x98\xa4\x2c\x99\xfd\x7c\x1e\xc7\xe3\xb1\x65\x4c\x31\x04\x38\xa2\xbd\x34\xb2\x7c\xc5\x2b\xd8\x6a\xe3\x08\xcd\x36\xd0\x7e\x96\xb5\xe7\x96\x5a\x07\x81\x72\x7b\xb3\x53\x40\x76\xc4\x82\x5c\x45\xb9\xf5\xe2\xe7\x5d\xd2\x75\x6e\x9c\x5c\x33\x9e\xbd\x83\x43\xf6\x1c\x93\xf4\xa5" },
RsaSig { h: 2, salt: b"", sig: b"\x2f\xfd\x7a\x31\xe9\xac\xc0\xfa\xb8\x71\x7f\x3a\x1f\xff\x43\x9f\x80\x4b\x38\x11\x75\x28\xeb\x0a\x86\xe7\x52\x6e\x71\x8a\x90\xc2\x36\x66\xd2\xd4\xde\xda\xdc\x0b\xf9\xca\x47\xc9\xf2\x9e\x16\x99\xc4\x73\x26\xd8\x0c\xd3\x35\x86\x82\x47\x1c\x2d\x76\x67\x3b\x9b\x0a\x4a\xc3\x3a\xe2\x91\x48\xb0\x9e\x62\xdf\x66\x92\xad\x10\x4b\x4c\x31\x18\xf6\x8d\x63\xd9\xbb\x81\xe1\x4e\x9a\x1a\x75\x41\x74\x14\x28\x73\xbb\x52\xfb\x5a\x8a\x9b\xd8\xe6\x63\x52\xf1\x70\x30\x15\x1f\x48\x63\x16\xdb\x4d\x1c\x42\x89\x0b\x9e\x06\xf4\x45\xf5\x12\xf2\x14\x67\xb1\x69\x52\x2a\xe7\x94\x43\xd1\xb7\x07\x26\x95\x2f\xd0\x8e\xf0\xf4\x13\x2c\xc6\x7a\x59\xbd\x15\x2c\x86\x86\x72\x75\x40\xe3\xa3\xa8\xde\xf9\x31\x01\xb7\x28\x20\xe5\x52\xf6\xa9\x59\x54\x4f\x7e\xf6\x39\xf5\xfa\x38\xcb\x96\x21\x10\xf5\x26\x4e\x69\x35\x10\xd8\x4f\x82\x8e\xfe\x8a\x7d\x6c\x2f\x52\xbd\xb3\xc1\x64\x80\x3e\x56\x57\x97\xf1\x0a\x11\xe1\xf9\x57\x74\xf5\x4a\x6d\xa9\xa6\x47\xce\xcf\xd7\xfb\x75\xb3\xe7\x3d\xbb\x73\xb4\x26\x02\xb0\xc1\xfc\xd4\xe7\xb6\xcf\x06\x05\xd3\x36\x30\xc7\xe2\x8a\xac\xa7\xc8\x7f\xe2\x3d\xad\x42\xfe\x6e\xcb\x3f\xfa\x65\xdb\xaa\x7c\x21\xd8\x4e\x46\xd9\x01\x6a\x4a\x98\x52\x7f\x66\x48\xa4\x22\xee\xbc\x07\xb5\xb6\xf4\x49\x11\x04\xd8\x82\x66\x92\x72\xc8\x7b\x6e\x82\x85\xa9\x4d\x05\xe8\x08\x9c\x15\x9e\xd6\x98\xfc\x41\xb6\xb3\xe0\x7c\xbf\x87\x51\xc9\xb9\x6b\x57\xe9\x5a\xb6\xd9\x5f\x55\x05\x32\xd5\xb5\xa4\x64\x13\xd8\x01\x6b\x43\xb1\x91\x22\xa4\x2d\xdb\x4f\x9c\xd7\x2b\x49\x9d\x2e\x43\x51\x91\x5d\x02\xcc\xde\x44\xee\xe0\x8e\xe6\xf8\x9b\xbd\xf1\xf7\xcc\xf7\x17\xda\x9e\x56\x7d\xb4\x2d\x06\x1a\x90\xc9\x0e\xbd\x47\xa2\xce\x18\x9e\xdd\x02\xe2\x96\xfe\x0c\x12\xce\xb7\x80\x05\x97\xb1\xdf\x79\x3e\xa5\x90\xc4\x6a\xcf\x34\x15\x6a\x90\xe6\x64\x1f\xad\xc9\x72\xb3\x36\x9c\xfd\x22\x51\x8f\x89\x00\xee\xcb\x59\x30\xe1\x81\x2b\x65\x98\x3a\x0e\xfd\xea\x46\x66\x13\xb9\x90\xab\xf2\xa7\x65\xa3\x63\x6c\xc0\xa0\x20\x07\xcb\x11\xbc\xf4\xae\x59\xaf\x54\x17\x88\x35\x6b\xb6\xa3\xd5\x31\x03\x78\x44\xaf\x21\x0f\xf7\x64\xc6\x18\x81\x6f\xbd\x92\x6b\x8f\xbf\x50\xe3\x17\xd3\xb6\xd5\xea\x55\xaf\x8a\xce\xb3\x54\x7e" },
RsaSig { h: 2, salt: b"\x02\x09\x10\x17\x1e\x25\x2c\x33\x3a\x41\x48\x4f\x56\x5d\x64\x6b\x72\x79\x80\x87\x8e\x95\x9c\xa3\xaa\xb1\xb8\xbf\xc6\xcd\xd4\xdb\xe2\xe9\xf0\xf7\xfe\x05\x0c\x13\x1a\x21\x28\x2f\x36\x3d\x44\x4b\x52\x59\x60\x67\x6e\x75\x7c\x83\x8a\x91\x98\x9f\xa6\xad\xb4\xbb", sig: b"\x1a\x33\x8f\x0a\x50\xa4\x1a\xbe\x6b\x50\xf3\x35\xc5\xcb\x93\x91\x66\xba\x71\x7a\x58\x7e\x37\x72\xcb\xc2\x87\x6c\xfe\x67\xb9\xdb\xab\x56\x3f\xf7\x24\xff\x14\x2a\xe4\xef\x66\xb4\x8a\xb5\x46\xc8\xa8\xdc\x44\x98\xae\x13\x78\xe9\xb8\xb3\xd2\x5d\xf3\x65\xe2\xb9\xec\x92\x8c\x25\x43\xab\x38\x5f\x26\xd1\x01\x71\x8e\x40\xa5\x8a\x52\xf9\x9b\x6b\x2f\xd2\x70\xe7\xd4\x70\xa6\xb1\x60\xf8\x3b\x15\x5f\x78\xb3\x5a\xc0\x20\x8e\xfc\x4e\x5d\xdc\x52\xa9\x0f\x7d\x60\x31\xb3\xc7\x32\x36\x90\xa0\xba\x50\x96\x20\xf2\xdf\x69\xb8\x97\x6f\x6f\xce\xa6\xdf\xa3\x30\x99\x51\x51\xcb\xf5\x2d\xd5\xf3\xea\x51\x97\x62\xb5\x8b\x33\x53\x37\xb0\x41\x29\x21\x87\x38\x3b\x07\x62\xe5\xdc\xfe\x2f\x51\x42\xbd\xad\xd0\x55\x7c\x39\xb3\xa0\x98\xff\xc7\x89\x7d\x4b\x75\x06\x43\x04\xd7\x53\x3a\x49\x3e\x8e\xad\x06\xcc\x46\xf6\x1f\x31\x21\xfd\x07\xf6\x14\xef\x1a\x69\xe2\x37\x72\xc1\xcb\x1b\x88\x42\xfc\xdc\x19\x2a\x5d\x7a\x30\x03\xd9\xa6\xcf\x57\x6c\x07\xae\x6f\x7f\xc8\x1a\x0e\xac\xb3\x56\xd9\xe8\x32\x32\xbe\xda\x4d\xba\x19\x97\x32\xb5\x7f\xf0\x34\x3d\x5f\x37\xdf\x42\x10\xdf\xb3\x1c\x90\x1f\xdc\x96\xf7\x35\x83\xa6\x8e\xa6\x07\xd8\xdc\xee\xc6\x3b\xb1\x8d\x35\xa2\x1b\xc4\x45\xdc\xf5\x02\x5a\x9e\xf3\xbe\x8d\x04\xe8\x49\xfc\xac\x1c\xc5\xed\x6d\xe4\xc3\x4a\xcc\xb8\xc6\x29\xf6\x2a\xbe\x74\x76\x93\x21\xbb\xa1\x5c\x41\xd2\xf2\x95\xbc\xc4\x65\x98\x44\x08\xb8\x96\x94\x88\xfc\x9b\x99\x6b\xc9\xa8\x8a\x6e\x89\x52\x51\xe7\x57\x11\xc1\x3f\xdb\xa8\x1e\x05\x2e\x48\x7f\xcb\x75\x9e\xef\x94\xf9\xb7\xb9\x61\x2a\xf9\xac\xd9\xb4\xd4\xa7\x8a\xe2\x9f\x6d\xcb\x4b\xd9\x1e\xf3\x03\x37\x62\x62\x2c\x63\x27\xbb\xb5\x18\x57\x9e\x2e\xc3\x32\xef\xfa\x71\x8c\x75\xbb\xc5\x04\xc3\x5e\x60\x0f\xf6\x6e\xce\x44\x7b\xc5\x73\xba\x96\xe4\x2a\xd0\xcd\x35\xaf\x7b\xad\x6f\x03\xd8\x43\x01\x23\xae\xc7\x84\x2b\xb8\x77\xcb\x80\xe3\xec\x01\x97\xed\xfa\xc2\x7c\xd9\x6f\xf0\xcc\x0b\x7a\x0e\xe2\x6f\x5e\x7c\x9e\xb9\xa6\x89\x00\xee\x9d\x84\x15\x90\x87\x49\x48\x9b\xdf\xa8\x06\xf4\xb6\x7b\xde\xc8\xdd\x2e\xee\x22\xfa\x04\x51\xe1\xac\xa2\xc8\x8b\x87\x08\x09\xcc\xa3\xff\x7f\x78\x74\x92\x24\xeb\x0f\x4f\x33\x45\xb4\x71\xff\x87\xaa" }],
&[RsaSig { h: 0, salt: b"", sig: b"\x91\x80\xb3\x2a\x3a\xd3\x6b\x1d\x0c\x14\x9c\xda\x30\xdf\x00\x20\xdf\xb5\x4b\x27\x82\xcf\x99\xf4\xbd\xc4\x0f\xe2\xbb\xf9\x08\x40\x13\x4f\x6d\x10\x98\x60\xd9\x16\xc9\x62\x60\x6b\xcc\x82\x46\xf4\x11\x42\xb1\xa6\x46\xe4\x02\x72\x38\xcf\x58\x09\x57\x9c\x0b\xd8\x96\x0c\x97\x4a\x0c\x02\xcd\xe3\x72\x63\x3f\x1e\x34\x05\x67\xe3\xde\x25\x1f\x5d\x3c\xa5\x92\x6e\x94\x83\x74\xe7\x63\x08\xc6\x71\x1f\x6d\xa9\xb5\x97\xdd\x31\xea\x2d\x8f\xbc\x3b\x67\xf2\xa0\x9c\xeb\xbf\xcc\xd5\x4d\xe9\x23\xc6\x40\xb3\xbe\x5f\xcf\x48\xa7\x54\x7e\x11\xc9\x06\xf3\x3b\x70\x10\x39\xc4\x64\xd9\x01\xfb\xc9\x9b\x17\x99\xc6\xfe\x4d\x24\x1d\x6a\x76\x85\x83\xf1\x40\xaf\x5e\x0a\xbc\x8a\x82\x3d\x37\x0c\x74\xef\xbb\xf7\x4c\x86\xb0\xc5\xd1\x17\x40\xb1\x85\x1e\x36\x16\x48\x72\xe4\x6a\xd0\x3b\x6a\x1b\x11\xaf\x86\x29\x2c\x54\xcd\x93\x64\x95\xdf\xd6\xb9\x30\xe6\x82\x69\x0a\x86\xc6\xb1\x74\xb7\x56\xbb\x5a\x89\x38\xb5\x49\x31\xf5\x6a\xb6\xd3\x05\x25\x69\xf1\x82\x60\xff\xd6\x32\x0b\xc2\x96\xac\x71\x96\x35\x9b\xf6\xec\x89\xe5\x74\xf8\xdf\x01\x5a\xa3\x2d\x44\x91\x01" },
RsaSig { h: 0, salt: b"\x00\x07\x0e\x15\x1c\x23\x2a\x31\x38\x3f\x46\x4d\x54\x5b\x62\x69\x70\x77\x7e\x85\x8c\x93\x9a\xa1\xa8\xaf\xb6\xbd\xc4\xcb\xd2\xd9", sig: b"\x96\x09\xe5\x43\x7b\x52\x6c\x2f\x16\x84\xc6\x25\x72\xae\xe7\x19\xdf\xd4\x90\x0b\xa9\x3a\x9d\xb5\xe9\x5e\xeb\x0a\x1f\x88\xc8\x9f\xf9\x08\xc3\x11\x8d\x8e\x4a\xca\xc9\xfb\x3c\xd4\xe6\x15\x8e\xf7\x54\xa6\x46\x4b\x4b\xe7\x3a\x5c\xd9\xba\xde\x1e\x6c\x59\xe0\x90\x5d\x1a\x4f\xc5\xa5\xe2\xda\x93\xc3\x72\xf4\x65\x99\x0d\x64\x72\xa5\xf3\xd8\x37\xca\xaa\x8d\xad\x14\xf0\xdd\x8c\xc8\xd4\x18\x0f\x7d\xbc\x8f\x81\x65\xdc\x11\x61\xc4\x4a\xbb\x2a\xf8\x82\xc6\x8a\xed\xd1\xa1\x1b\x7c\xd2\x2b\xd1\xcf\xe7\x10\x57\xb3\xfb\x6b\x62\xf3\xf3\xfb\x33\x5e\x63\xdb\xe9\x7e\x0f\xf7\xca\x9c\x36\x7d\x64\xa8\x49\x4f\x44\x5d\xc8\xdd\xd2\x88\xae\xca\xac\xec\xba\x47\xa0\xee\x2e\x0b\xdc\x06\xfa\xf8\x6f\x59\x0d\x1e\x91\xd3\xb1\xd3\x08\xf3\x13\x68\x26\xd7\x3e\xdc\xa3\x95\xea\x21\x69\x8c\x5f\x39\x44\x26\xde\xf3\xd8\xf1\x25\x53\x61\xe5\x5c\x9f\x7b\xbb\x78\xa0\xf7\x66\xd4\x2a\x54\x65\x4f\xfe\x91\xaf\x6b\xb4\x37\x53\x4f\x20\xb7\x37\x90\x17\x3f\x6d\x04\x7f\xf6\x1f\x4b\x69\xe2\x2b\x09\xcb\x1c\x57\xe4\x25\x54\xf2\x7c\x2a\xd2\xa8\xc9\x60\x2b\x9f\x83\xae\x11" },
RsaSig { h: 1, salt: b"", sig: b"\x18\x49\x3c\x1a\xe2\x82\x9a\x8a\x85\xc6\xbb\x51\x4d\xcb\x5b\xea\xa1\xe8\xcd\x44\x13\x04\x5a\x1d\x3c\x19\xe5\xd9\xf3\xea\xe5\x11\x66\x4d\x81\x88\xb4\xd3\x38\xe7\xef\x11\x11\xb4\x6d\xb7\x42\x07\xb6\xa7\xac\x52\x7f\x89\x13\x54\xd9\x37\x1d\xf7\x65\x04\x49\xce\x70\xc0\x37\x49\xe2\x29\x1c\x7c\xaf\x38\x36\xe2\x14\x90\x9f\x27\xdd\xc0\xbb\xdc\x4d\x2d\x71\x1b\xc3\x70\x74\x31\xe3\xd8\x76\xa2\xf4\x47\x72\x92\x79\x4a\x01\x1a\x4d\x05\x76\x90\xa8\xfb\xd7\xaa\x03\x2f\x9f\xce\xa1\xf5\xe4\xd9\xfd\x7b\x33\xf7\x3f\x5e\x31\xe8\x2b\xad\x0f\x7b\x71\xbc\xee\x68\xfa\x29\x9a\xa9\xd2\xed\x88\x79\x1e\x61\xd9\xc2\x8f\x0f\xaf\x80\x10\x1c\x9c\x9d\x50\x08\x3b\x8b\x09\xef\xe4\x53\x76\xf6\xea\x38\x46\xb7\x2c\xa0\x76\xbb\x30\x09\x3b\x16\x64\xf0\x62\x74\xa9\x1a\xb5\x10\xcf\x9f\x6c\x5c\xef\xe9\x55\x7f\x15\x2e\x8f\x00\xf5\xe9\xaa\x36\x34\x39\xd4\xe4\x71\x45\x66\x7c\xc0\x3e\x5c\xce\xf7\x03\xa4\xb3\x31\x47\x53\xe3\x64\x89\xe3\xf1\x6e\x65\xbd\xb2\x2d\xab\x62\xc8\x69\x1f\xe4\xa8\x69\xe7\x3f\x88\x2b\x90\x8c\x76\x4c\xed\xb9\x6f\x4c\x33\x02\xcc\x2d\x1b" },
RsaSig { h: 1, salt: b"\x01\x08\x0f\x16\x1d\x24\x2b\x32\x39\x40\x47\x4e\x55\x5c\x63\x6a\x71\x78\x7f\x86\x8d\x94\x9b\xa2\xa9\xb0\xb7\xbe\xc5\xcc\xd3\xda\xe1\xe8\xef\xf6\xfd\x04\x0b\x12\x19\x20\x27\x2e\x35\x3c\x43\x4a", sig: b"\x51\x0d\x86\xee\xd6\xfe\x6a\xe7\x11\x66\x2f\xb3\x11\x1b\xd8\x02\xf0\x4d\x3a\x48\xba\xb1\x96\x34\x9b\x1b\x60\xb1\xb9\x32\x04\x98\xb5\x89\x97\x76\xbe\x10\xf8\x38\x4e\x6d\x5a\x44\xc4\x91\x0b\x88\x92\x13\xcd\xe2\x59\x5c\x37\xc8\xa3\x8c\xb9\x4a\x9c\x4c\x59\x55\xee\x84\xcd\x41\x3d\x02\x9c\xa8\xca\xab\x18\x29\x4a\xa0\xb8\xae\x5f\x96\x42\x0d\xa6\x4a\xa8\xcf\xee\xe7\xa7\xbe\x2f\x23\xaa\xfd\x47\x82\xe4\x8d\x13\x72\x14\x7b\x54\x45\xd6\x0c\x29\x13\x31\x1a\xaf\xd2\x8e\x4e\x7b\x34\x27\x83\xd0\x20\xc2\x61\x4a\x9a\x4c\xd6\x10\x33\x59\x5a\x12\xd5\x43\x9a\x38\x9a\x40\x5d\xae\xdd\x3f\x9a\xcd\x3d\x57\x0e\x84\x9c\x6c\xc9\x40\xea\x65\xd3\x2a\x39\x79\x6a\x2b\x0f\xfe\x0c\xe4\x80\x93\xf2\x77\xa2\x2e\x34\x98\x48\xc7\x84\x53\x59\x81\x66\x14\x21\x84\xa2\x26\x46\x61\xe0\x34\x67\xa7\x30\x9e\xa0\xc1\xbc\xf3\xa2\x24\x6b\x6f\xaf\xf5\xda\x17\xd7\x10\x83\x26\x77\x88\x6e\xf4\x25\x1f\xec\x86\xd5\x52\x26\x55\xc3\x64\x59\x85\x2c\x8c\x2d\x52\xfd\xed\x50\xc1\x4f\x37\x09\x15\x5b\x8c\xb9\x2d\xa6\xad\x5e\xd2\x7c\xec\x5f\x8d\x7d\x7d\xa4\xd2\x38\xfd\x66" },
RsaSig { h: 2, salt: b"", sig: b"\x81\x4c\xc5\xbd\xfb\x2f\x2a\xb0\xc7\xb7\xda\x68\x60\xff\x57\xc9\xf1\x12\x81\x3a\xab\x0b\x78\x53\x2e\x35\x71\xc7\x26\xc7\x0f\x5d\xe3\xfe\x03\x0d\xf1\xd4\x55\xbc\x6a\xb2\xad\x9b\x3f\xc3\x40\x68\x4f\xf4\xb1\xfd\x9c\x3a\x4b\x84\x05\x93\x04\x5a\x1e\x14\x26\x1f\x3c\x4c\x49\x7e\xde\xd5\x24\x77\x85\x67\xe7\x3c\x39\xed\x1b\xec\xb9\x76\xa4\x39\x22\x09\xae\x1a\xe1\xa3\x98\x9b\x63\x9c\x4c\x15\x84\x7c\x46\xab\x04\x22\xc1\xbb\x13\x95\xb1\x18\xbf\xf9\xb5\xc8\x9a\xa2\xa9\xf6\xdb\x01\xf8\x0f\x9c\xd8\xa8\xff\x58\x7f\xff\x68\x04\x6a\xb9\x81\xbb\x4e\xbd\x36\x7e\x44\x3a\xc5\x14\x25\x16\x3b\xb9\x4d\x1f\xf9\xbc\x54\xc7\xf6\xe4\x72\xc3\x58\x70\x41\xb8\x70\xd7\xf2\x92\x47\xfa\x6a\x76\x58\xc8\x05\xa4\xb8\x50\xc0\x7f\xcf\x24\x17\x34\x45\xe9\x2d\x46\x01\x4e\x16\x53\xa6\xb6\xa3\xfd\x96\x67\xc5\x5c\x37\x9c\xe6\x97\x30\x6d\xfc\x06\xa0\x6c\x84\xae\x93\xfd\x2a\xfd\x73\xf8\x0f\xa9\x9c\x48\x7e\x59\x60\xed\xa3\xea\xbd\x9a\xdc\xda\x29\x87\x82\x59\x78\xec\xab\x57\x06\xe0\x43\xdd\x1c\x29\x07\xa0\x13\xe0\xce\x36\x8b\xf0\x2a\x2a\xf1\x48\x94\x0f\xde" },
RsaSig { h: 2, salt: b"\x02\x09\x10\x17\x1e\x25\x2c\x33\x3a\x41\x48\x4f\x56\x5d\x64\x6b\x72\x79\x80\x87\x8e\x95\x9c\xa3\xaa\xb1\xb8\xbf\xc6\xcd\xd4\xdb\xe2\xe9\xf0\xf7\xfe\x05\x0c\x13\x1a\x21\x28\x2f\x36\x3d\x44\x4b\x52\x59\x60\x67\x6e\x75\x7c\x83\x8a\x91\x98\x9f\xa6\xad\xb4\xbb", sig: b"\x79\x17\x0c\xaf\x92\xb1\x9f\x8f\x26\x15\x6e\xcb\x3c\x3d\x75\x43\x15\xc7\x8d\x3f\xce\x5b\xaf\x1c\x1e\xc2\xda\x39\x10\x9e\xbd\xa4\x50\xb9\x0a\x85\xa3\xa6\xee\xff\x55\x77\x8d\x0b\x0f\x56\x9e\x41\xe9\xe1\xcf\x21\x94\xbc\x20\x94\xcf\xcd\x44\xce\x5e\xa4\x86\xdd\x51\xe9\x5b\x49\x03\x25\xf2\x14\x93\xc3\x02\xff\x51\x02\x8c\x75\x27\x55\x4e\x4c\x96\x1d\x45\xe3\xc2\x91\x4b\x3b\xb9\x5b\x34\xb4\x1d\xc4\x68\xdb\x65\xb9\x2c\x62\x8d\x18\x8c\x3f\x6e\x8d\x13\x59\x2e\x58\x7a\xa1\x1c\x3a\x77\x5a\x40\x09\x36\x04\x82\xa4\xcb\x8d\x46\x25\x50\x10\x93\xaf\xce\x45\xb8\x5d\xa9\xde\xd1\x0b\xa8\xb2\x36\xa7\x57\x0f\xcd\x66\xad\xba\x77\x88\x95\xd1\xe2\xa6\xef\x1e\xc1\xdc\x7f\x04\x7b\xf3\x05\xc0\xd6\x47\x7b\x27\x88\x16\x62\x28\xe3\xc8\x68\x10\x23\xda\xa0\xa8\x4c\x22\xe1\x33\xac\x5b\xa9\x51\x66\xe1\x35\xcf\x12\x66\xa1\x6b\x4f\xf5\xa4\xe2\x82\xe2\x7e\x32\x75\x6c\xc0\x86\xce\xa9\x2e\x45\x27\x8f\x1d\xdc\xcf\x80\x7e\xb3\x98\xda\x6a\x3c\xe9\xed\xb4\x4a\x15\xd7\xe1\x37\x7c\xd4\x84\xa9\x70\xb0\xdb\x63\x92\xd8\xbf\x56\x96\x02\xa7\xd8\xf1\x8a\xb0\xa0" }],
&[RsaSig { h: 0, salt: b"", sig: b"\x26\x72\x14\x69\xc4\x98\x58\x80\xa3\xce\x22\x9f\x30\xc6\x3c\xb4\x3e\xa1\xbb\x85\x5f\xc9\xd1\x24\x03\xd8\x91\xae\x97\xa6\xc9\x95\xde\xad\x9f\xce\x81\x56\xa5\x3a\xfc\x31\x3a\xfb\xe8\xdb\xf5\x22\x74\xb8\x6a\xa2\xe7\xb6\x9e\x83\x11\x5b\x45\xa9\x04\xbc\x9c\x9a\x74\x89\xa2\xce\xba\x2a\x59\x1c\x54\x8d\x26\x75\x9e\x2d\x9b\x77\xc4\x0a\xa9\x3b\x33\x08\x39\xbb\x2d\x2b\x0f\x3d\x5a\x88\x01\x06\x06\xbe\xf7\xd2\x86\x72\x14\xa6\x9a\xdf\xf1\xdf\x8b\x15\x8e\x13\x41\x20\x0b\xa2\xec\xfd\x42\x0b\x8c\xaf\xc7\x62\x79\x58\x18\x73\x21\x0b\x6b\x03\x56\x81\x5e\x50\x88\xf5\xa6\x0a\xf7\xe9\x3e\x8e\x53\x68\xcc\x48\xd7\x68\x3e\xed\xae\xa2\x82\xb1\x38\xed\x04\x79\xd5\x0d\x55\x2b\xba\xfb\x54\xfc\x2b\xaa\xc6\x63\xcc\xa5\xaf\x64\x6b\xf4\x5b\xb9\x51\xc0\x4c\x9b\x46\x3d\x45\x3e\x72\x67\x87\x92\xf5\xc7\x16\x85\x12\x13\xd4\x34\x01\x64\xe5\x9a\xa8\x3c\xa4\xed\x3f\x57\x28\x9b\x41\xf5\x80\xde\x2f\x39\xe6\x5b\xe4\x10\x51\xeb\x79\x1c\xe2\x41\xab\xcd\xe6\xdf\x2f\xd5\xf6\x6b\x70\x2e\x04\x99\x37\xce\x05\xc2\x12\x74\x7d\xd7\xfd\x92\x60\x19\xc2\x9b\xd3\x67\x31\x21\xae\xe4\x62\x22\x23\xa0\x19\x3e\xb0\x4f\x14\xa1\x36\x5c\x03\x3c\x65\xb3\x80\x32\xba\xea\x62\xf9\x45\xc8\x10\x33\xf9\xbf\x97\x9d\xc2\x6b\x84\x9b\x1f\x96\xdc\xf5\x78\x92\x61\x78\xf0\x9e\x62\x80\x15\xe7\x50\xf5\xaf\x47\xd8\x61\xb5\x90\xb4\x67\x21\x58\xfc\xaa\x17\xcf\xca\x1f\x8a\xcd\xf2\xf0\xbf\xf2\xe4\xfe\x88\x1b\x92\xcb\x98\x1d\x31\x9c\xf0\x92\x96\xc5\x45\xdd\x0f\xf9\xbd\xea\x79\xff\xbf\x04\xe0\x17\xa2\x33\x43\xe9\x7d\xf2\x41\x53\xed\x7d\xa7\xda\x7e\x88\x89\xd0\x0e\xe7\xc2\x61\x9a\xca\x33\x46\xad\x52\xd5\x30\x29\xa5\x77\xb9\xc1\xae\x9f\xb0\x87\x08\x9f\xd1\x8a\x2a\xcb\x6d\xef\xc9\x8e\x23\x5f\x5a\x3a\xdd\xa7\xc4\x15\x56\x7c\xd4\xa7\x55\x72\x14\x9e\xe3\xfe\x04\x1b\x7c\x7a\xa8\xa7\x64\xd0\x7c\xfa\x72\xc1\x4b\xdd\x65\x22\xf7\x84\x30\x1b\x10\x64\x2c\xc6\x89\x00\xc7\x6f\x13\x42\x5a\x5d\xa3\x05\x12\xa3\xef\x3c\xb6\x14\x3a\xc3\x96\x7c\xe6\xdb\xe3\x5a\x3a\x4d\x2a\xd1\x95\x3b\xc8\x67\x35\xea\xe4\xab\x43\x84\x94\xa1\x22\x2d\x78\xf0\x72\x01\xa0\xed\xf3\x3a\x15\xa2\x2b\xf6\xad\x5c\xbf\x4e\x53\x44\x15\x44\x32\x0f\x0d" },
RsaSig { h: 0, salt: b"\x00\x07\x0e\x15\x1c\x23\x2a\x31\x38\x3f\x46\x4d\x54\x5b\x62\x69\x70\x77\x7e\x85\x8c\x93\x9a\xa1\xa8\xaf\xb6\xbd\xc4\xcb\xd2\xd9", sig: b"\x69\x06\xf7\xf6\x5d\x0f\xe5\xbb\xcb\x29\x90\x34\x59\xe0\x84\xa8\xbe\xfa\x0c\x21\x42\x07\x83\x02\xc9\x95\xd7\xff\xca\x59\x71\xbd\x47\x86\xcf\x3b\xa2\x69\x7a\xb9\x26\x3a\x5b\x4a\x8c\xb9\xbb\xa1\x9e\xbf\x84\x6e\x2b\x1a\x2b\xf5\x44\x8f\x6c\xec\x54\xd5\xcb\x00\x5e\x2d\xa7\x10\x40\xe1\xf0\x7f\x48\xf7\xc5\x77\x93\x8f\xe8\xa7\x39\x37\xda\x82\xf1\xa9\xb3\xfe\x7a\xb1\x0d\xb6\x80\x5a\x9c\x7f\x67\x50\x88\xa9\x52\x44\x43\x64\x9c\xda\x9c\x24\xfc\x49\x5c\x16\xd1\x3a\x6d\x2e\x06\x8c\x8e\xbf\x2a\x62\x20\x6f\x86\x2b\x5e\xee\x3f\x37\x3c\x9b\x6a\xd0\x11\x62\x14\x22\xca\x56\xd9\x27\x57\xa6\x15\xb4\x0d\xa6\x8c\x05\xac\x6d\x3f\xa6\x62\xa6\xd6\x44\x95\xcf\x6e\xd4\x9f\xe4\xe4\xb5\xee\xe3\xcc\x2c\x71\xb9\x86\xa0\xa4\xbb\xd3\x5c\x69\x6d\x18\x3c\x8f\x40\xaf\xc2\x4f\x1b\x06\x7d\x2e\xe4\xac\xec\x4b\x98\x15\x25\x33\x70\xb7\xd5\xb4\x90\x1b\x27\x50\xb0\x4a\x9e\x71\x5e\x4d\xa2\x5d\x51\xdd\x91\x26\xd4\xbf\x61\xa5\x67\xb8\xaf\xe0\xc5\xa1\x05\x7d\x62\x54\x82\x25\x39\x0c\x6b\xe9\x8c\x7b\xcd\x52\x48\x99\xe3\xec\xfc\xfa\xbc\x7e\xd4\x92\x13\x63\x04\x83\xa1\x1d\x05\x1d\x6d\x44\x51\x6d\x39\x86\x9a\xcb\xd9\x21\xdc\xd3\x98\x6c\x84\xbd\x57\x6e\x60\x57\x9b\x5f\xf3\x0b\x08\xa0\xd8\xb3\xa3\x55\x64\x69\x82\xaf\x3d\x57\xcc\x6c\x4b\x04\xe7\xee\x49\x0c\x32\x60\xeb\x4b\x6b\x97\x16\x5a\x62\xa0\x9a\xd2\x2c\x60\x4f\xba\xd4\xc7\x7e\x82\x6d\xec\x14\xeb\x3d\xb3\xc7\xed\x28\x75\xd0\x5a\x33\xe1\x4e\x49\xf3\xfa\xb7\x6c\x62\xed\x76\x0c\x61\x53\x7f\x58\x5b\x2b\xae\x07\x6f\xd7\x72\xed\x39\x62\xd8\x58\xe5\x94\xe9\x67\x0d\x9e\x89\x37\x1b\xf8\x09\x59\xe3\xe0\xe2\x46\xb3\x51\x63\x3f\xab\x14\x72\x3c\x41\xe1\xe2\xa9\x54\x12\x58\x1c\x3c\x78\xfa\x2e\x70\x35\x86\x1d\x5f\x68\xbc\x5b\x84\xea\x5e\xfd\xd7\xad\x18\xbc\x94\x4a\xe2\xac\x60\x90\x8c\x20\x54\x8b\xbb\x6c\xcc\x9b\x3d\xf4\x63\xd1\x57\xb1\x25\x6f\xdb\xff\x3a\xef\x34\xc4\x9e\x39\x5c\x14\x9b\x37\xb6\x41\x25\xdb\x5e\x04\x1c\x4a\xf6\xce\x43\xc7\x06\xee\xb5\x26\x4c\x96\x0a\xbe\x44\x60\x97\xe6\xa2\xf5\x6b\x08\x15\xb5\x73\xf9\xfe\xaa\x38\x94\x87\xad\x47\x15\x29\xa4\xa9\xde\x89\xa5\xd0\xe5\x0c\x8f\x47\x1d\x79\x41\xcf\x3d\xba\x05\xeb\xab\x3d" },
RsaSig { h: 1, salt: b"", sig: b"\x04\x34\xf1\x4b\xe0\x1a\x5b\x32\x56\x62\xa3\x5c\x81\x62\xcc\xf1\xc9\x7c\xb6\x27\x3c\xb9\x6b\xd2\x5e\x13\xdf\x8c\x6a\x76\xd2\xac\x6f\x1e\x97\x25\x23\x58\xfd\x4c\xad\x4e\x34\x9c\x00\x05\xf2\xc5\x20\xfa\xd9\xfe\x97\x43\xb2\x53\x72\x3a\x4e\x7a\xcf\x7a\x3b\x9a\x71\x7a\x75\xf5\x83\xc6\x94\x92\x3d\x42\x55\x51\xc6\xdc\xc7\x4c\xcf\x6e\x4f\x28\x0a\x69\x2a\xbc\x4c\x2a\x5b\xd6\x1d\xa1\x77\x6e\x90\x5f\x52\xe8\x70\xdc\xad\x1f\xe5\xa4\xc6\xac\xc5\xc5\xf1\x8c\xa9\x77\x03\x4f\xb1\xcf\xdb\x8f\x19\xb0\x6f\x35\x98\x79\xe9\x69\xcb\xaf\x55\xa3\xe7\x6f\x3d\x7e\x8f\xd4\xc9\xbf\xae\x0a\x57\x12\x4f\xdc\x48\x2e\x86\x2c\x10\x83\x73\xda\x38\x37\x3f\xea\x32\xc0\xf3\x65\xb9\x98\x56\x09\x4e\x33\xc9\xa1\x48\xdf\x8a\xed\xe3\x01\xab\x22\xcf\xf0\xb4\xf0\x38\x28\x10\xc3\x78\x7a\x63\x7f\xf1\x24\x16\x38\x76\x27\x1d\x04\x1e\x86\xb7\xa4\x5f\x53\x22\x78\xc9\xa1\x6b\x6a\xb1\x66\x10\x7b\x26\xc9\x74\xa4\x4e\x9a\x8a\x0f\x7f\xdd\x13\x81\x53\xc4\xfa\x9a\xed\x51\x7f\xe3\xf3\xad\xd9\x52\xa2\x00\x41\x82\xc9\xb1\x61\x33\x54\x81\xfa\x7c\x73\x85\xd7\x1c\xe1\xf2\x7a\x82\x20\x14\xa1\x9c\x0f\x76\x85\x0e\x5b\x6b\x20\xfc\xf1\xd2\x54\x81\xce\x3d\x8f\x5c\x54\x32\xc8\xa7\x04\x4a\x6b\x6a\x17\xb8\x5c\x92\x6c\xb6\xe0\x5e\xb1\x67\x76\x56\x8c\x45\xa5\xa1\x82\xd8\xac\xd7\x72\x80\x99\x3b\x47\x96\x5f\x5c\x65\x98\xbc\x5c\x6c\x3f\x1b\x69\x13\x73\x9b\xd6\x6a\xb9\x96\xf2\xa8\x45\x4c\x6c\x0e\x3c\x95\xc6\xbb\xe5\xe8\x62\x75\x93\x3d\xbc\xca\xa0\xbd\x34\x38\x06\x8d\x0c\xc3\x73\x82\xaa\x0b\x57\x1e\xdb\xeb\xd6\xb6\xf3\xc7\x0e\x84\x9a\x76\x98\x28\x83\x2c\xe1\x79\x0a\xe9\xf9\xcd\xed\x18\x8e\xc4\x41\xda\x5d\x86\xb7\x65\x23\xd2\xff\x6b\x8c\x16\x52\x32\x1c\x1d\x9d\xf9\x18\x2d\x70\x9c\xe4\xfd\x24\x6a\xe6\x58\x3e\xf0\x47\x0c\x65\xfe\x9d\xf2\x30\x7b\x7d\x11\x49\x1a\x69\xec\xbd\xb5\x21\xc4\xf6\xea\x65\x94\x9f\x5a\xfe\x55\x00\x76\xe8\xcd\x53\x11\x20\x2a\x92\xf1\xc9\x2b\x75\xc8\x65\x2e\x4f\x59\xc1\xe9\x2e\xe9\x7b\xe2\x31\x0e\x5c\x34\x0a\xe9\x46\xe6\x3c\xfa\x13\x7b\xa7\x7a\xf0\x1b\x7c\x7f\xe8\xd4\x30\xc2\xac\xc8\x22\x69\x58\x9f\xfd\x6b\x2c\x10\x4a\xd8\x50\x65\xf2\x9d\xba\x05\x7f\xfb\x34\xfc\xa2\xc9\xb3" },
RsaSig { h: 1, salt: b"\x01\x08\x0f\x16\x1d\x24\x2b\x32\x39\x40\x47\x4e\x55\x5c\x63\x6a\x71\x78\x7f\x86\x8d\x94\x9b\xa2\xa9\xb0\xb7\xbe\xc5\xcc\xd3\xda\xe1\xe8\xef\xf6\xfd\x04\x0b\x12\x19\x20\x27\x2e\x35\x3c\x43\x4a", sig: b"\x48\x93\xce\x77\x76\x8c\x3c\x69\x91\x56\x76\xac\x92\xc8\xa0\xc1\x73\x44\x31\x10\xef\xbd\xdb\x1e\x16\x4b\x60\xa9\xc7\x68\x38\x6b\x13\xcd\x86\x2f\xc9\xb3\x68\x44\x5a\xbb\xc1\x95\x38\xeb\x43\x6a\x5c\x30\x73\x07\xba\xbe\xc6\x0d\x9f\x32\x90\x69\x68\x9c\x1e\xe6\x07\xd5\xb7\xc0\xd7\xf1\xf2\x06\xaa\x12\xc0\xdd\x1d\x80\x80\xf5\x45\xb4\x27\x70\x3b\x50\x06\xb1\xea\x28\xf0\x49\x93\x34\x4a\xe7\x79\x39\x44\x32\xee\x52\x02\x5c\x3c\x4b\xf2\x91\xb0\x90\x15\x69\xb5\x01\x04\x35\x40\xa3\x3f\x8b\x33\xcd\x21\x1f\xa8\x5f\xcc\xaa\xcf\xf9\x84\xfc\x77\x32\x50\x73\x5f\x82\x76\xaa\x26\x2a\xab\xba\xc0\x25\x1b\x2b\xc7\xec\x7a\x89\x3a\xd5\x92\x2a\xee\x04\x7f\x16\xd2\x4d\xa3\x02\x05\x8e\xc1\xf2\x8a\xe4\x21\x3d\x05\x10\x9e\x13\xe0\xa1\x62\xd4\xc0\x86\xe8\xa0\xdf\xa0\xc5\xee\x4c\xde\x3d\x24\x5c\x74\xce\x62\x27\x62\x37\xe4\xdf\x4b\x24\x73\x96\xf0\x23\xa5\x2b\xa7\xa2\xee\x87\xaf\xa6\x2a\x3f\xf5\xc6\x64\x53\xd7\x35\xdf\x62\x50\x70\x21\x7e\x24\xa0\x53\x8d\x0c\x29\xdd\xda\x93\x5c\xda\x2a\x74\xb7\x25\xd1\x84\x4e\x92\xf7\x09\x08\x4f\x90\x95\x85\xdb\x5c\x3c\x2d\x1b\x50\x1c\x85\x84\xc6\x68\xca\xb3\xf4\xae\x13\xb5\x3b\x53\x79\xf5\xd2\x27\xa4\xb3\x74\xea\xee\xe3\x51\x15\x5a\x06\x47\x05\x37\x67\x47\x10\x21\xb0\x40\xc0\x0b\xea\x4e\xa2\xf0\xfa\xa4\xbf\xf6\x17\x60\x1e\x01\x77\x7d\xc4\x26\xfd\xd2\xc4\x3c\xf4\x97\x4c\x3a\xb0\xe0\x92\x71\x0f\x59\x5e\x7b\xe6\xab\x2c\x4f\x0f\xd0\x21\xca\x3b\x69\x99\x81\xaa\x6b\x79\x86\x0e\xd8\x84\xe4\xf5\xe3\xf6\x9b\xc9\xcb\x9e\xa2\x9f\x1e\x5d\x78\x95\x82\xde\x11\x3e\x4a\x12\xff\xbe\xf0\xc1\xce\x49\x77\x0c\x74\x69\x42\x78\x54\xeb\x02\xd7\x81\xec\xac\x1a\x77\xdd\xea\x92\x61\x00\xeb\x9a\xe7\x98\x1c\x2d\xfc\x32\xca\x79\x99\x57\xcd\x94\xd3\x68\xac\xd8\xf3\x0d\x15\x93\xd6\xa7\xb3\x82\x90\x18\xa5\x1d\x5d\x98\xbb\x0d\xef\x97\x64\x12\x24\x34\x64\xf3\xdf\x9f\x67\x86\x07\x13\xab\x98\x38\xb8\x85\x29\x19\xb5\x0f\x0d\x2e\x04\x74\x33\x23\x4a\xfc\x16\xb4\x59\x5d\xf6\xe3\x7e\xfa\xf4\x42\xf5\x21\xf1\x80\xfb\x83\x41\xa7\xb0\xbd\x33\xe4\x52\x3c\xb2\x1a\xad\x2e\x9e\xec\x70\xba\xfa\x66\x14\x22\x20\x78\x38\x54\x95\x39\x57\xe5\xd4\x66\x75\xd9\x93\x5c\xa6" },
RsaSig { h: 2, salt: b"", sig: b"\x23\xe1\x7b\xd6\x67\xb5\x53\x70\xe8\x92\xe6\x86\xf9\xac\xa3\xb4\x5a\x4b\x9d\x5e\x1e\xed\xe6\x38\x4a\x98\x33\xc9\x70\x98\xbe\xb0\x01\x0c\x2a\x88\x5f\xb6\xd1\x3a\x00\x49\xab\x5f\xf7\xba\x30\xe5\xc5\xc6\x5a\xcc\xb2\x6c\xdd\xd4\x66\xf6\x85\x0f\x3f\x88\xe7\x95\xc1\xe9\x5d\x08\x17\xe6\x68\xdd\x97\x8a\x08\x0e\xa4\xca\xd6\x47\x13\x1b\x4b\x7f\x18\x8c\xcb\x4b\x15\x14\xc6\xec\x93\x28\x40\x96\xc3\x03\x18\x7b\xdd\xb9\x92\x01\x1a\x88\xb3\x75\x34\x3a\x60\x30\x12\x49\x8a\x54\xab\x94\xcf\x01\xf7\xc5\xfc\x91\x5c\xe3\x83\xce\x87\xd3\x20\x81\xa1\x4c\x1d\xd6\x99\x97\xaa\x1c\x16\xdc\x5a\xf9\xe9\x4d\xdc\x20\x68\x76\x05\x81\x24\xa9\x25\xe9\xff\xfd\xc6\xcd\xf2\x52\x21\x48\xc6\x42\x79\xf9\xcc\x31\xfe\x10\x6f\x86\xc9\xa2\x25\xda\xea\xf6\x94\x8e\x84\x45\x87\x6e\x41\x5d\x07\xff\x8d\xaf\xe5\x24\x89\xd4\xf4\xd4\x4a\xf1\xdc\x7e\x18\xa7\x28\xa7\xd6\x51\x13\xef\xdf\x31\x22\xcc\x77\x74\x49\x7a\x4a\xaa\xb6\x10\x8c\x32\x93\x05\xe8\xa3\xe4\x7a\xd1\x59\xf2\x96\xda\xb5\x03\x4b\xee\x84\x7b\x58\x4e\x04\x7d\x3a\x05\xca\x28\x1d\x57\xd6\x62\x77\xda\x3c\x56\x1a\xf3\x70\xeb\xd5\x48\xc2\xcd\x79\xa2\x63\x54\x4d\x2c\x18\xec\x33\xd5\xc4\x23\x25\x51\xad\x31\x47\xab\x1a\x8c\xb7\x2d\xbb\x22\x20\xdf\x65\x51\xec\x28\x9b\xb4\x88\x47\xd8\x4a\x28\x71\xb2\xb9\x27\xc7\x1d\x0b\x64\x62\x8f\x84\x9e\x2d\xe4\x3c\xfc\x03\x16\xab\xe1\xdd\xb2\x73\x84\xa6\xb7\x67\xe4\x41\xd2\x45\x3f\x3c\x6f\x25\x2b\x2b\x19\x02\xf4\xf6\x6a\x9b\x1f\xab\xda\x49\x82\x95\x1b\x58\x5d\xce\xbc\x89\xc1\x13\x76\xef\xd0\x19\x8e\xb5\x0e\xe4\xaa\x49\xfb\x3d\xd5\x84\x2e\x27\x52\xdc\xe7\x48\xb7\x45\x1a\x55\x08\x95\x40\x05\x7a\x27\x8d\x01\xae\x68\x0f\x97\x35\xf9\xe3\xbb\x6d\xa3\xaf\x5e\x5a\xe1\x60\x57\xe0\xf6\x51\xd2\xb5\x89\x17\xd5\x02\xab\x5f\x35\x26\xe2\x63\xfb\x08\xdb\x66\xe6\x6b\x12\xe6\x24\xf3\x45\x4f\xb0\x76\xf5\x61\xac\x18\x99\xb1\xa0\x6a\x6e\x29\xf6\xd6\xf8\xac\x72\x73\xd0\x73\x96\x2d\x22\x74\x1e\x43\x98\x49\x4f\x40\xaa\xac\x12\x6e\x2a\xe9\xd6\x2d\x4f\x04\x16\x90\x3a\xbe\x35\x6b\xe3\x06\x54\x47\x96\xbf\x6c\x07\xdc\xc6\x97\xfa\xf7\x9b\xd3\xcd\xe6\xfe\x06\x1c\x9c\x87\x77\x7a\xdf\x5b\x7e\x91\x74\x2b\x1e\xfd" },
RsaSig { h: 2, salt: b"\x02\x09\x10\x17\x1e\x25\x2c\x33\x3a\x41\x48\x4f\x56\x5d\x64\x6b\x72\x79\x80\x87\x8e\x95\x9c\xa3\xaa\xb1\xb8\xbf\xc6\xcd\xd4\xdb\xe2\xe9\xf0\xf7\xfe\x05\x0c\x13\x1a\x21\x28\x2f\x36\x3d\x44\x4b\x52\x59\x60\x67\x6e\x75\x7c\x83\x8a\x91\x98\x9f\xa6\xad\xb4\xbb", sig: b"\x34\x7c\xa6\xa0\x2f\xd1\x77\x0c\xbb\x26\x6b\x25\xe6\x89\x7e\x7d\x87\x6a\xfb\x9f\x8f\x68\xc0\x08\xb2\x43\x46\x18\x0b\x1f\x45\xdf\xea\xb0\x83\x6d\x04\x28\x60\xbe\x9a\x53\x80\x12\x2c\x08\xd1\xbc\x71\x66\xc3\x93\x0a\x53\xf8\x55\x19\x2b\x53\x3f\xe8\xc9\xf1\x92\x8a\x41\x84\x58\xca\x9c\x58\x0a\x30\x8b\x6d\x16\xfb\x0d\xe4\xb0\x2e\x2c\x16\x51\x0f\x46\xfd\x02\xc1\xd2\xda\x68\x91\xee\x6f\xc1\x35\x2e\x62\xa9\xed\x84\xbf\x76\x96\x56\x77\xc4\xd8\x81\xc2\x68\x27\x07\x34\xe5\xca\xe1\xfd\x34\x03\x65\xaf\xc0\xba\x76\x16\x35\x78\x5c\xd6\x14\x0f\x67\x84\x5b\x2a\xe4\x50\x03\x2c\xe7\x15\xf2\xd6\x43\x2d\x66\x74\x4d\x21\x50\x17\xa8\x86\x09\x7e\x2e\x7c\x6a\x6e\x04\xf1\xc9\xbe\x90\x3e\x75\xda\xab\xc8\x35\x41\xaf\x1d\x07\x11\x93\xcd\x9f\x3e\xde\x1b\x88\x13\xcf\xc3\xe8\x68\x91\x08\x01\x1b\x47\x74\x8b\x97\x15\xf6\x51\x09\xab\x02\xc3\xaa\xad\x2c\x07\x79\x95\x5e\xa2\x2f\xfd\x0e\xd2\xcf\xf1\x93\x78\xad\xaf\x56\x4e\xdc\x62\xe6\x53\x24\x49\x46\x23\xb9\x6f\x05\x71\x0b\x41\xf1\x77\x29\xd7\xf5\xd5\x7f\x4c\x86\xe6\xad\xcc\x50\xa4\xcf\x7b\x8d\x21\xb2\x7a\xde\xb7\xf1\x94\xc7\x6f\x8a\x8c\x01\xa7\xc2\x4d\xce\x47\xcb\x27\xc2\xdc\x05\xb6\xc3\x2c\xc4\x07\x8e\xb8\x97\xca\x04\x52\x54\xe9\xe3\x27\x6a\x3b\x08\x22\x29\x22\xdb\x8d\xd1\xba\xc9\x14\x2a\xff\xbb\x24\x4f\xec\x1e\x62\x9a\x69\x8a\x45\x3b\xfb\x9d\x6d\x89\xa8\xf0\x2d\x4e\x43\x09\x0f\x87\xe2\xe3\x62\x56\xc9\xc1\xab\xe6\x0a\x74\x52\xe1\x89\x2e\x89\xb8\xa9\x6e\x4c\xd6\x5c\x04\x90\x40\x33\xbd\x6c\xc4\x25\xae\x08\xc7\xb7\x95\x40\x3e\xf0\xf4\xb4\x79\xd7\x7f\x63\x4b\xf7\xfa\xed\x24\x5b\xc2\x90\x98\x41\x56\x75\x62\xba\x6b\x7b\xb7\x64\x9c\x35\xcc\x75\x28\xaf\x90\x6d\x13\x6d\x91\x77\xa8\xda\x0f\x03\x24\x1d\xfa\x69\x38\x6c\x9f\x8e\xeb\xe2\xd7\xbd\xbf\xf9\x0c\x1a\x5b\xef\x79\xee\xae\x3b\x17\xbc\x71\x9b\x61\x93\x1d\xb8\x41\x6e\xb1\x72\x9f\xe8\xec\xee\xea\x37\xca\xb5\x64\x00\x94\xb8\x6f\x26\xf0\xef\x4f\x4d\x7e\x6a\xf6\x34\x28\xc3\xba\x93\xeb\x87\xd2\xf8\xdf\x91\xda\xe1\xe7\x86\x44\x39\x6c\x46\x64\xfa\xfe\xe7\xe7\xba\x05\x57\x30\xf7\x62\xed\xd7\x87\x66\xf2\x00\x44\x72\x03\xe1\xb4\x04\xb4\xaa\xed\x8d\x90\x16\xdf\xee\x93" }],
&[RsaSig { h: 0, salt: b"", sig: b"\x00\x55\x92\xb8\x1f\x1d\xc1\x5c\xbd\xce\x19\xa8\xdb\xa1\x5f\xed\xda\x29\x61\x41\xf2\x07\xd6\xb2\x59\x2c\x64\x34\x10\x46\x84\xe4\xf4\x05\x5b\x29\x82\xc5\x8c\x3b\xdf\xfe\x3c\x72\x32\x51\x04\x37\xb0\x6c\x37\x3a\x71\x33\x39\xa1\x31\x8c\xa7\x21\x12\xca\x19\xa4\x39\x8b\xcd\x16\x5a\xbf\xbc\xa0\x1c\xfa\xaa\x4a\xf9\x64\xd3\x6f\x36\x67\xbf\xb5\x9e\x29\xe5\x42\x92\x13\x40\x8c\xd3\x7f\xa3\x7e\x84\xc9\xef\x68\xb8\x9e\x9f\xfd\x3f\x73\x1d\xbe\x15\x14\xa7\xfe\xac\x2c\xc3\x7e\x05\xfc\x98\x25\x31\x84\xb5\x53\x10\xe1\x41\xce\xdb\x63\x1d\x58\x42\xd5\x74\xc8\x65\xb6\x09\x9e\xd2\x7f\xe0\x4f\x07\x07\xc0\xdb\x16\x46\x84\x7b\xc2\x54\xcf\x77\xb9\x8a\xf4\x9f\x42\x7c\x5b\x75\x55\x4a\xe3\x8e\x40\x30\x26\x6f\x0e\x11\x5b\xc2\x21\x47\x5e\x02\xa2\xfe\xed\x8e\x1a\x0c\x8e\x17\xe9\x2b\x79\x03\xc2\x1e\x84\xdb\x29\xf3\xcb\xc0\x4f\x22\x36\x2f\x36\xc1\x66\x77\x61\x74\x35\x2c\x7a\x9f\x72\x26\x14\xb2\x26\xa8\xf1\x9b\xe5\x82\x6f\xc3\xb5\x7f\x62\xb6\xdb\x24\x80\x39\x98\x50\x1e\xb5\xf8\xf0\x60\x42\xe3\x0e\x10\x7d\xff\x84\x51\x56\x4b\x02\x03\xb9\xdd\xc1\x18" },
RsaSig { h: 0, salt: b"\x00\x07\x0e\x15\x1c\x23\x2a\x31\x38\x3f\x46\x4d\x54\x5b\x62\x69\x70\x77\x7e\x85\x8c\x93\x9a\xa1\xa8\xaf\xb6\xbd\xc4\xcb\xd2\xd9", sig: b"\x00\xee\x00\xd9\x31\x5a\x15\x21\xaf\x17\xdc\xb0\xed\x95\xed\xec\xab\xc6\x44\xfb\x19\xe2\x32\x00\x39\x03\x87\x10\x44\x35\x19\xf2\x08\xae\x33\xa6\xa7\xea\xb6\x2a\x7e\xe9\x7e\x0c\x97\xe5\x3f\x07\x66\x4e\x24\xc0\xbe\xcb\x61\xaf\xb6\xba\x4f\x4f\x3c\xc5\x28\x06\xde\x7b\x26\xfb\xbb\x64\xfd\xb0\xb0\xfe\x9c\xd1\x3c\xbf\xd5\xbc\x1c\x31\x87\x56\x1e\x67\xcb\x50\x6f\xa7\x6b\xe4\x94\xed\xf5\x3e\x87\x2b\xc3\x86\x9f\x3f\x96\xb3\x18\xf7\x58\xda\x4b\x25\x66\x87\x38\xff\x66\x3c\xc7\x97\x31\x30\xcd\x45\xe5\x88\x4e\xc5\x4f\xa0\xe6\x84\x4b\x45\x7c\x04\xf0\xbf\xd6\xd6\x89\x34\x48\xd2\x8c\xe2\x6b\xac\xb0\xb8\x50\x7a\x61\x2e\xd9\xfd\x26\x4c\x7e\x03\xdd\x73\xc4\xdd\x6d\x55\x8a\x28\xf2\x4a\xf9\x2e\x15\xa0\xa4\xd8\x48\xbb\x68\x6e\xb3\x51\xb3\x6b\x1d\x05\xa6\x4f\xf7\xe6\xca\x72\xb0\x46\x42\xf9\x3b\x1a\xea\x7b\x44\x75\x67\x2e\x3d\x56\x12\xe8\x01\x50\x64\x51\xcf\x14\x9a\x31\x2a\x59\xa2\xa3\x5f\x4c\xe6\xe7\xc1\x76\x33\x41\x78\x15\xa0\xc5\x22\x9e\xe4\x8a\x82\x54\x10\xbf\xa3\x57\x85\xe8\x4f\x55\x12\xab\x0e\xed\xd5\x7a\xfd\x42\x90\x95\x48\x9b\x59" },
RsaSig { h: 1, salt: b"", sig: b"\x00\xc6\x8f\x66\x3b\xd4\x18\x9c\x96\xbb\xbd\x71\x97\x6a\x26\x71\xfc\x98\xe5\x76\xf0\xfa\x23\x87\xb4\x7f\x06\x6e\xce\xb9\xf2\xe9\xb0\x03\x0b\x27\x0d\x43\x2e\x7d\x31\x49\x09\x33\xb5\x2d\xa9\xea\xa7\x57\xa3\x3d\x1f\x97\x16\xf3\xf6\x77\x88\xd9\xa9\x8f\x60\x60\x1a\xf9\x4b\xac\xe4\x9e\x59\xbe\xd1\x68\xf7\x6b\x5e\x4f\x00\x4f\xfd\x6c\xe0\x92\x5a\x2d\x15\x42\xce\xb3\x6b\x65\x14\xf1\xe8\x81\xf9\x44\xeb\x4a\xe1\xb5\x32\x96\xae\x17\xc0\x67\x72\xc7\x8d\xe4\x4f\xcd\xf8\x6b\x61\x33\xfa\x79\xb1\x38\xf2\x8a\xe6\xaf\x89\xcb\x00\x6f\xfd\x1a\x4d\xf5\x62\x1b\x88\xf5\x65\xf4\xd9\x96\x47\xfd\xd9\x31\x78\x8d\xc6\x73\x68\x27\x3c\x4f\x46\xd3\x26\x1a\x40\x50\x2d\x67\x96\xba\x51\x10\x3b\xc1\x53\x51\xa2\x6a\x20\x4b\x43\x18\xe7\x10\x89\x18\x49\x1a\xc0\xdf\x00\x94\xdc\x42\x04\xc7\xa1\x49\x24\x65\xf3\x19\x91\xbf\x8d\x67\x98\x68\x09\x86\x63\x9a\x84\x73\x6b\xbd\xa0\xde\xea\x23\x02\xad\xa0\x64\x77\x8c\xff\x2c\x46\x05\x04\x9c\xd7\x20\xa4\x16\x2a\x1a\x72\x41\x2b\x0f\x3e\x46\x01\xd0\x44\x1e\xa7\x81\xbd\xc9\x8d\x64\x94\x4c\x8e\xa2\x54\xc3\xf8\x9d\xc6" },
RsaSig { h: 1, salt: b"\x01\x08\x0f\x16\x1d\x24\x2b\x32\x39\x40\x47\x4e\x55\x5c\x63\x6a\x71\x78\x7f\x86\x8d\x94\x9b\xa2\xa9\xb0\xb7\xbe\xc5\xcc\xd3\xda\xe1\xe8\xef\xf6\xfd\x04\x0b\x12\x19\x20\x27\x2e\x35\x3c\x43\x4a", sig: b"\x00\x53\xdb\xe6\x6f\xb6\xbe\x28\xa3\x2a\x3b\x75\x55\x43\x7e\x07\x12\x0a\xbd\x16\xf9\xcb\x0f\x9f\xed\xce\x3e\x6a\x0a\x49\x95\xf3\x7d\x66\x42\xe5\x9f\xcf\xef\x39\xd2\x2c\xa4\xff\x2d\x1d\xa6\x65\x50\xc2\xea\xf2\x30\x5c\x9c\x84\x2c\xdd\xeb\x24\xc3\xd1\x65\xb2\xf7\xee\xce\x07\x08\xef\x6b\x0e\x7c\xdb\xac\x53\xc0\xe8\x0b\xb7\x08\x9d\x0e\x61\x3e\x21\xa3\xe6\x6b\xe1\x31\x67\x39\x7f\xe0\xd8\x89\xc9\xb0\x5c\x43\xaa\x9d\xe3\x32\x70\x4b\xd5\xd2\x7e\x43\x7c\x30\x02\x69\x35\x92\x4b\xe8\xd7\x3e\xe4\x72\xc1\xd8\x61\xee\xe9\xe7\x30\x48\x45\xcb\x6b\x3b\xbc\x67\xc7\x30\x9e\x10\x79\x2b\xd9\x9b\x3c\xb9\x6e\x42\x05\xe3\x28\xdc\x75\x3e\xf9\xf2\x5a\x73\x10\xaa\x28\xa2\x9d\x42\x28\xda\x30\x20\x24\x78\x26\x68\xfe\x50\x67\xfe\x37\xbc\x2e\xb4\xbf\xbd\xd0\xfb\xcf\x18\x00\x9f\x74\x26\xf6\x13\x99\x77\x6c\x33\x74\x00\x9a\x79\x27\x4a\x9a\x7f\x0f\xc1\x3a\x26\x7d\xb7\xd9\x91\xba\xed\x66\xa9\x2c\x4f\xb6\xe0\x20\x8a\x9f\x32\x2a\x80\x12\x87\xaa\xef\xe4\xa3\xe8\x09\xf8\xc9\xd6\x10\xef\x82\xf8\x58\x1e\x19\x27\x13\x74\x10\x4c\x69\xea\x83\x3e\x05\x76\x13" },
RsaSig { h: 2, salt: b"", sig: b"\x01\x08\x3d\x72\x03\xb6\x60\x0e\xae\x5d\x81\x03\xf3\x7f\x21\x4d\x44\x83\x6a\xf1\xd6\x77\xb5\x47\x09\xc6\xcf\xbf\x89\x04\x70\x14\x82\x36\x03\x0e\xf8\x24\xc5\xd7\xdf\x97\x10\x92\x85\x5c\xab\x09\xf4\xe1\xec\xf9\xac\xfb\xf3\xd5\xd4\x62\x93\xa4\xc6\xee\x01\xa9\xc7\x79\x3a\x68\x35\xdb\x46\x1c\x98\xaa\x12\x52\x8a\x22\x40\xdd\x24\x78\x70\x9b\xcc\xb3\x65\xfa\x9b\xf5\x96\x7e\xd8\xb4\x18\xd1\xbf\x61\xd0\x42\xda\x34\x54\x40\x72\xfc\x3f\x37\x72\x97\x2d\x51\xb5\x9e\xad\x8d\xa4\xf9\xa4\xa6\x6c\x71\x7c\xa0\x74\x8a\x82\xfb\x58\x3d\x28\x6c\xeb\xbd\xe2\x09\x15\x72\x4b\xce\x57\x6f\x70\x44\x84\xef\x75\x8b\xa2\x6a\x80\x76\x87\xf2\x42\x83\xbc\x0f\x7f\xd5\x07\x39\xe6\xdd\xb4\x4c\x55\xff\x70\xef\xc1\x9d\x5a\xdd\x87\x93\x04\xc8\x84\x48\xf4\x05\x86\x49\x44\x37\x3f\xee\x34\xed\xce\x64\x57\x21\x78\x00\x27\xaa\xc6\xe8\x06\x8a\xfc\x2b\x63\xa1\x64\xbd\xae\x33\x9b\xdc\x2e\x35\xf9\x4b\x9d\x52\xff\xde\xff\x54\xf2\xe1\xef\xf5\x45\xeb\x73\xa2\x3c\x31\x42\x08\x2e\x24\xcf\x73\x05\xdb\xd1\xd8\xb5\xa6\x88\x2e\x1f\x2e\xe3\x11\xb6\xb8\x81\x55\x2c\xbd\xe1" },
RsaSig { h: 2, salt: b"\x02\x09\x10\x17\x1e\x25\x2c\x33\x3a\x41\x48\x4f\x56\x5d\x64\x6b\x72\x79\x80\x87\x8e\x95\x9c\xa3\xaa\xb1\xb8\xbf\xc6\xcd\xd4\xdb\xe2\xe9\xf0\xf7\xfe\x05\x0c\x13\x1a\x21\x28\x2f\x36\x3d\x44\x4b\x52\x59\x60\x67\x6e\x75\x7c\x83\x8a\x91\x98\x9f\xa6\xad\xb4\xbb", sig: b"\x00\x5f\x95\x9c\x51\x0c\x30\x92\x2b\xf7\x62\x09\x8c\x2a\x70\xbf\xd8\x73\x44\xe8\x45\xf9\x6b\xc5\x73\x06\xb2\xf3\x32\x68\x95\x5d\x3c\x4f\x34\x8d\xa8\xa5\x27\xb9\x71\x53\x1c\xbc\x06\x01\x27\x9d\xaf\xc4\x12\x4b\xf5\x70\xe5\xbb\xc6\xf6\x84\x46\xc2\xf1\x04\x35\x6d\xd4\xc3\x5d\x24\x20\x54\xf1\x35\x69\x5b\x14\x5a\xd6\x91\x79\x93\xef\xd3\x79\x1f\xe1\x8c\x4a\x25\x48\x70\xf1\x25\x1b\xca\xa9\xe3\x13\x79\x96\xe6\x68\x1a\xa5\xc0\x5b\xa0\x5d\x6f\xcd\xa2\x15\x39\x69\xd0\x23\x8e\x93\x04\x28\xfe\xc3\x72\x8a\xb7\xa4\xc8\xd8\xd2\x58\x7a\xbe\xd2\x19\xf1\x44\x47\x21\xa8\x12\xd8\x75\x38\x89\xeb\x8a\x71\x21\x4b\x63\xfa\x08\x36\x76\x8b\xf5\xfb\x34\x38\x86\x5b\x83\xa5\x74\xbe\x35\xd9\x65\x2d\xcc\x82\x76\xa1\xd7\x42\x52\x26\xd7\x78\xc8\x64\x17\x3b\x10\x99\x51\x0f\x2c\x99\xac\xe4\xa1\x5f\x16\x82\xcd\x0b\x01\x7c\xc1\x00\x2c\x96\x4f\xdd\x14\x52\x9d\x68\xaf\xd9\xb7\x33\x80\xc6\xfa\xcf\x4d\x5e\x8b\x7b\x8b\x80\x62\xe5\x26\x75\xde\x0a\x54\x0b\xbb\xe3\xfc\x7d\x21\xb0\xc8\x92\x51\x38\x6b\x21\xae\xda\x36\x26\xb5\xcf\x77\xbf\x71\x45\x03\x36\xc1\x92" }]];
pub static BAD_N: &[(&str, &[u8])] = &[
("2040 bits", b"\x80\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x05"),
("even", b"\x80\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x06"),
("8193 bits", b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01"),
("1024 bits", b"\x80\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01")];
