//! Builders of FITS bytes: the independent, standard-derived encoder the harnesses compare the reader against.
use crate::cards::card_of;

pub fn dec(mut x: u64) -> Vec<u8> { let mut v = vec![]; loop { v.insert(0, b'0' + (x % 10) as u8); x /= 10; if x == 0 { return v; } } }
pub fn deci(x: i64) -> Vec<u8> { if x < 0 { let mut v = vec![b'-']; v.extend(dec(x.unsigned_abs())); v } else { dec(x as u64) } }
#[derive(Clone)]
pub struct H { pub b: Vec<u8> }
impl H {
    pub fn new() -> H { H { b: vec![] } }
    pub fn raw(&mut self, c: &[u8]) -> &mut H { match card_of(c) { Some(c) => self.b.extend_from_slice(&c), None => panic!("card too long") } self }
    pub fn val(&mut self, k: &[u8], v: &[u8]) -> &mut H { let mut c = k.to_vec(); c.resize(8, b' '); c.extend_from_slice(b"= "); c.extend_from_slice(v); self.raw(&c) }
    pub fn int(&mut self, k: &[u8], v: i64) -> &mut H { let d = deci(v); let mut t = vec![]; while t.len() + d.len() < 20 { t.push(b' '); } t.extend(d); self.val(k, &t) }
    /// `KEYn = v`
    pub fn intn(&mut self, k: &[u8], n: usize, v: i64) -> &mut H { let mut kk = k.to_vec(); kk.extend(dec(n as u64)); self.int(&kk, v) }
    pub fn str(&mut self, k: &[u8], v: &[u8]) -> &mut H { let mut t = vec![b'\'']; t.extend_from_slice(v); while t.len() < 9 { t.push(b' '); } t.push(b'\''); self.val(k, &t) }
    pub fn strn(&mut self, k: &[u8], n: usize, v: &[u8]) -> &mut H { let mut kk = k.to_vec(); kk.extend(dec(n as u64)); self.str(&kk, v) }
    pub fn end(&mut self) -> Vec<u8> { self.raw(b"END"); let mut b = std::mem::take(&mut self.b); pad(&mut b, b' '); b }
}
pub fn pad(b: &mut Vec<u8>, with: u8) { while b.len() % 2880 != 0 { b.push(with); } }
pub const BITPIX: [i64; 6] = [8, 16, 32, 64, -32, -64];
/// image header; `ext`: extension rather than primary
pub fn image(ext: bool, bitpix: i64, dims: &[i64]) -> H {
    let mut h = H::new();
    if ext { h.str(b"XTENSION", b"IMAGE"); } else { h.val(b"SIMPLE", b"                   T"); }
    h.int(b"BITPIX", bitpix).int(b"NAXIS", dims.len() as i64);
    for (i, d) in dims.iter().enumerate() { h.intn(b"NAXIS", i + 1, *d); }
    if ext { h.int(b"PCOUNT", 0).int(b"GCOUNT", 1); }
    h
}
