//! Image data units.
use crate::build::*;
use crate::sym::*;
use fitsrs::hdu::data::Pixels;
use fitsrs::hdu::HDU;
use fitsrs::Fits;
use std::io::Cursor;

fn be(b: &[u8]) -> u64 { let mut x = 0; for &y in b { x = x << 8 | y as u64; } x }
/// bits of each pixel, zero extended
fn bits<R: std::io::Read>(p: Pixels<R>) -> Vec<u64> {
    let mut v = vec![];
    match p {
        Pixels::U8(it) => for x in it { v.push(x as u64) },
        Pixels::I16(it) => for x in it { v.push(x as u16 as u64) },
        Pixels::I32(it) => for x in it { v.push(x as u32 as u64) },
        Pixels::I64(it) => for x in it { v.push(x as u64) },
        Pixels::F32(it) => for x in it { v.push(x.to_bits() as u64) },
        Pixels::F64(it) => for x in it { v.push(x.to_bits()) },
    }
    v
}
fn kind<R>(p: &Pixels<R>) -> i64 { match p { Pixels::U8(_) => 8, Pixels::I16(_) => 16, Pixels::I32(_) => 32, Pixels::I64(_) => 64, Pixels::F32(_) => -32, Pixels::F64(_) => -64 } }
fn dims() -> Vec<i64> { let n = param(2) % 100; (0..n).map(|i| param(3 + i) as i64).collect() }
/// params: extension?, BITPIX index, NAXIS (plus 100 * capacity of a buffered reader), NAXISn...; arbitrary data bytes
pub fn h_image_pixels() {
    let (ext, bp, d) = (param(0) == 1, BITPIX[param(1)], dims());
    let size = (bp.unsigned_abs() / 8) as usize;
    let n: usize = if d.is_empty() { 0 } else { d.iter().product::<i64>() as usize };
    let mut f = vec![];
    if ext { f.extend(image(false, 8, &[]).end()); }
    f.extend(image(ext, bp, &d).end());
    let start = f.len();
    let data = some(n * size, 192);
    f.extend_from_slice(&data);
    pad(&mut f, 0);
    let file = f.clone();
    if param(2) >= 100 { buffered(f, param(2) / 100, ext, bp, size, n, &data); return; }
    let mut fits = Fits::from_reader(Cursor::new(f));
    if ext { if !matches!(fits.next(), Some(Ok(HDU::Primary(_)))) { check(false, 1); return; } }
    let hdu = match fits.next() { Some(Ok(HDU::Primary(h))) if !ext => h, Some(Ok(HDU::XImage(h))) if ext => h, _ => { check(false, 2); return; } };
    let x = hdu.get_header().get_xtension();
    check(x.get_naxis().len() == d.len() && x.get_naxis().iter().zip(&d).all(|(a, b)| *a == *b as u64), 3);
    check(hdu.get_data_unit_byte_size() == (n * size) as u64 && hdu.get_data_unit_byte_offset() == start as u64, 4);
    check(x.get_num_pixels() == n as u64, 5);
    {
        let px = fits.get_data(&hdu).pixels();
        check(kind(&px) == bp, 6);
        let got = bits(px);
        check(got.len() == n, 7);
        for i in 0..n { if i < 24 || i + 24 > n { observe(got[i]); } check(got[i] == be(&data[i * size..(i + 1) * size]), 8); }
    }
    // the raw bytes of the data unit, whatever was read before
    let raw = fits.get_data(&hdu).raw_bytes();
    check(raw.len() == n * size && raw == &file[start..start + n * size], 9);
    check(fits.next().is_none(), 10);
    cover(1);
}
/// the same through a buffered reader
fn buffered(f: Vec<u8>, cap: usize, ext: bool, bp: i64, size: usize, n: usize, data: &[u8]) {
    let mut fits = Fits::from_reader(std::io::BufReader::with_capacity(cap, Cursor::new(f)));
    if ext { if !matches!(fits.next(), Some(Ok(HDU::Primary(_)))) { check(false, 1); return; } }
    let hdu = match fits.next() { Some(Ok(HDU::Primary(h))) if !ext => h, Some(Ok(HDU::XImage(h))) if ext => h, _ => { check(false, 2); return; } };
    {
        let px = fits.get_data(&hdu).pixels();
        check(kind(&px) == bp, 6);
        let got = bits(px);
        check(got.len() == n, 7);
        for i in 0..n { if i < 24 || i + 24 > n { observe(got[i]); } check(got[i] == be(&data[i * size..(i + 1) * size]), 8); }
    }
    check(fits.next().is_none(), 10);
    cover(1);
}
/// params: as above plus number of accesses at 10: random access at arbitrary indices, interleaved with iteration
pub fn h_image_random() {
    let (ext, bp, d, k) = (false, BITPIX[param(1)], dims(), param(10));
    let size = (bp.unsigned_abs() / 8) as usize;
    let n: usize = d.iter().product::<i64>() as usize;
    let mut f = image(ext, bp, &d).end();
    let data = some(n * size, 192);
    f.extend_from_slice(&data);
    pad(&mut f, 0);
    let mut fits = Fits::from_reader(Cursor::new(f));
    let hdu = match fits.next() { Some(Ok(HDU::Primary(h))) => h, _ => { check(false, 1); return; } };
    let want = |i: usize| be(&data[i * size..(i + 1) * size]);
    let mut cur = 0;
    macro_rules! go { ($it:expr, $f:expr) => {{ let mut it = $it; for _ in 0..k {
        // the last but one reads on, the last is out of bounds
        let i = if n <= 8 { choose(n + 2) } else { [0, 1, 7, n / 2, n - 2, n - 1, n, n + 1][choose(8)] };
        if i == n { match it.next() { Some(v) => { check(cur < n && $f(v) == want(cur), 2); cur += 1; } None => check(cur == n, 3) } cover(2); }
        else if i == n + 1 { check(it.read_value([n, n + 1, 2 * n, usize::MAX / size, usize::MAX][choose(5)]).is_err(), 4); cover(3); }
        else { match it.read_value(i) { Ok(v) => { let v = $f(v); observe(v); check(v == want(i), 5); } Err(_) => check(false, 6) } cur = i + 1; cover(1); }
    } }} }
    match fits.get_data(&hdu).pixels() {
        Pixels::U8(it) => go!(it, |x| x as u64), Pixels::I16(it) => go!(it, |x| x as u16 as u64), Pixels::I32(it) => go!(it, |x| x as u32 as u64),
        Pixels::I64(it) => go!(it, |x| x as u64), Pixels::F32(it) => go!(it, |x: f32| x.to_bits() as u64), Pixels::F64(it) => go!(it, |x: f64| x.to_bits()),
    }
}

/// An image that is mostly not there: bytes past the header read as a pattern of their position, except for those of `win`.
#[derive(Debug)]
pub struct Far { head: Vec<u8>, at: u64, win: Vec<u8>, tail_at: u64, tail: Vec<u8>, pos: u64 }
impl Far { fn byte(&self, p: u64) -> u8 {
    if p < self.head.len() as u64 { self.head[p as usize] }
    else if p >= self.at && p - self.at < self.win.len() as u64 { self.win[(p - self.at) as usize] }
    else if p >= self.tail_at { self.tail[(p - self.tail_at) as usize] }
    else { (p ^ (p >> 8) ^ (p >> 16) ^ (p >> 24) ^ (p >> 32) ^ (p >> 40)) as u8 } } }
impl std::io::Read for Far { fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
    let end = self.tail_at + self.tail.len() as u64;
    let k = if self.pos >= end { 0 } else { b.len().min((end - self.pos) as usize) };
    for x in b[..k].iter_mut() { *x = self.byte(self.pos); self.pos += 1; }
    Ok(k)
} }
impl std::io::Seek for Far { fn seek(&mut self, p: std::io::SeekFrom) -> std::io::Result<u64> {
    self.pos = match p { std::io::SeekFrom::Start(x) => x, std::io::SeekFrom::Current(d) => self.pos.wrapping_add(d as u64), std::io::SeekFrom::End(d) => (self.tail_at + self.tail.len() as u64).wrapping_add(d as u64) };
    Ok(self.pos)
} }
/// Random access far into a large image.  params: BITPIX index, extension?, NAXIS1, NAXIS2, NAXIS3
pub fn h_image_far() {
    let (bp, ext, d) = (BITPIX[param(0)], param(1) == 1, [param(2), param(3), param(4)]);
    let size = (bp.unsigned_abs() / 8) as usize; let n = d[0] * d[1] * d[2];
    let mut head = vec![];
    if ext { head.extend(image(false, 8, &[]).end()); }
    head.extend(image(ext, bp, &[d[0] as i64, d[1] as i64, d[2] as i64]).end());
    let start = head.len() as u64;
    // where the arbitrary bytes are
    let i = [0, d[0] - 1, d[0], d[0] * d[1] - 1, d[0] * d[1], n / 2, n - 2][choose(7)];
    let win = vec(2 * size);
    let mut tail = image(true, 16, &[]); tail.str(b"EXTNAME", b"NEXT");
    let f = Far { head, at: start + (i * size) as u64, win: win.clone(), tail_at: start + ((n * size + 2879) / 2880 * 2880) as u64, tail: tail.end(), pos: 0 };
    let mut fits = Fits::from_reader(f);
    if ext { if !matches!(fits.next(), Some(Ok(HDU::Primary(_)))) { check(false, 1); return; } }
    let hdu = match fits.next() { Some(Ok(HDU::Primary(h))) if !ext => h, Some(Ok(HDU::XImage(h))) if ext => h, _ => { check(false, 2); return; } };
    check(hdu.get_data_unit_byte_size() == (n * size) as u64 && hdu.get_data_unit_byte_offset() == start, 3);
    check(hdu.get_header().get_xtension().get_num_pixels() == n as u64, 4);
    macro_rules! go { ($it:expr, $f:expr) => {{ let mut it = $it;
        let (a, b) = (be(&win[..size]), be(&win[size..]));
        check(it.read_value(n).is_err(), 5);
        for _ in 0..2 {
            match it.read_value(i) { Ok(v) => { let v = $f(v); observe(v); check(v == a, 6); } Err(_) => check(false, 7) }
            match it.next() { Some(v) => check($f(v) == b, 8), None => check(false, 9) }
            if i + 2 == n { check(it.next().is_none(), 10); }
            match it.read_value(i + 1) { Ok(v) => check($f(v) == b, 11), Err(_) => check(false, 12) }
        }
    }} }
    match fits.get_data(&hdu).pixels() {
        Pixels::U8(it) => go!(it, |x| x as u64), Pixels::I16(it) => go!(it, |x| x as u16 as u64), Pixels::I32(it) => go!(it, |x| x as u32 as u64),
        Pixels::I64(it) => go!(it, |x| x as u64), Pixels::F32(it) => go!(it, |x: f32| x.to_bits() as u64), Pixels::F64(it) => go!(it, |x: f64| x.to_bits()),
    }
    match fits.next() { Some(Ok(HDU::XImage(h))) => check(h.get_header().get_parsed::<String>("EXTNAME").ok().as_deref() == Some("NEXT"), 13), _ => check(false, 14) }
    check(fits.next().is_none(), 15);
    cover(1);
}
