//! Walking over the HDUs of a file.
use crate::build::*;
use crate::sym::*;
use fitsrs::hdu::data::Pixels;
use fitsrs::hdu::HDU;
use fitsrs::Fits;
use std::io::{Read, Seek, SeekFrom};

/// A file whose first part is `head`, followed by a data unit of a size known only symbolically, padded, and then by `tail`.
/// The position is base + off; where the reader goes after the data unit is checked when it first reads there.
#[derive(Debug)]
pub struct Big { head: Vec<u8>, size: u64, tail: Vec<u8>, base: u64, off: usize, moved: bool, in_tail: bool, pub visits: u32 }
impl Big {
    pub fn new(head: Vec<u8>, size: u64, tail: Vec<u8>) -> Big { Big { head, size, tail, base: 0, off: 0, moved: false, in_tail: false, visits: 0 } }
    fn tail_pos(&self) -> u64 { self.head.len() as u64 + (self.size + 2879) / 2880 * 2880 }
}
impl Read for Big {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let n = self.tail_pos();
        if !self.in_tail && !self.moved && self.off >= self.head.len() && self.off as u64 >= self.head.len() as u64 + self.size { self.moved = true; }
        if self.moved {
            // the next header is read from the first 2880-byte boundary after the data unit
            check(self.base.wrapping_add(self.off as u64) == n, 90);
            self.base = n; self.off = 0; self.in_tail = true; self.moved = false; self.visits += 1;
        }
        if self.in_tail {
            let r = &self.tail[self.off.min(self.tail.len())..];
            let k = r.len().min(buf.len()); buf[..k].copy_from_slice(&r[..k]); self.off += k; return Ok(k);
        }
        let k = if self.off < self.head.len() { let r = &self.head[self.off..]; let k = r.len().min(buf.len()); buf[..k].copy_from_slice(&r[..k]); k } else { for b in buf.iter_mut() { *b = 0x5a; } buf.len() };
        self.off += k;
        Ok(k)
    }
}
impl Seek for Big {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        let cur = self.base.wrapping_add(self.off as u64);
        let new = match p { SeekFrom::Start(x) => x, SeekFrom::Current(d) => cur.wrapping_add(d as u64), SeekFrom::End(d) => (self.tail_pos() + self.tail.len() as u64).wrapping_add(d as u64) };
        if new != cur { self.base = new; self.off = 0; self.moved = true; }
        Ok(new)
    }
}
fn num(d: &[u8]) -> u64 { let mut x = 0u64; for b in d { x = x * 10 + dv(*b) as u64; } x }
fn key(k: &[u8], v: &[u8]) -> Vec<u8> { let mut c = k.to_vec(); c.resize(8, b' '); c.extend_from_slice(b"= "); c.extend_from_slice(v); c }
fn sd(i: usize, nd: usize) -> Vec<u8> { if param(i) > 0 { dec(param(i) as u64 - 1) } else { digits(nd) } }
fn tail() -> Vec<u8> { let mut h = image(true, 16, &[]); h.str(b"EXTNAME", b"NEXT"); h.end() }
fn check_tail(fits: &mut Fits<Big>, at: u64) {
    match fits.next() {
        Some(Ok(HDU::XImage(h))) => { check(h.get_header().get_parsed::<String>("EXTNAME").ok().as_deref() == Some("NEXT"), 20); check(h.get_data_unit_byte_offset() == at + 2880, 21); check(fits.get_position_data_unit() as u64 == at + 2880, 22); cover(1); }
        _ => check(false, 23),
    }
    check(fits.next().is_none(), 24);
    check(fits.next().is_none(), 25);
}
/// params: what (0 primary image, 1 image extension, 2 binary table, 3 ASCII table), digits of the axis values, BITPIX index, NAXIS, data bytes read before going on, filler cards, axis values (value + 1, 0: any of that many digits)
pub fn h_walk_size() {
    let (what, nd, bp, naxis, read, fill) = (param(0), param(1), param(2), param(3), param(4), param(5));
    let mut head = vec![];
    if what != 0 { head.extend(image(false, 8, &[]).end()); }
    let mut h = H::new(); let size;
    match what {
        0 | 1 => {
            if what == 1 { h.str(b"XTENSION", b"IMAGE"); } else { h.val(b"SIMPLE", b"                   T"); }
            h.int(b"BITPIX", BITPIX[bp]).int(b"NAXIS", naxis as i64);
            let mut s = BITPIX[bp].unsigned_abs() / 8;
            for i in 0..naxis { let d = sd(6 + i, nd); let mut k = b"NAXIS".to_vec(); k.extend(dec(i as u64 + 1)); h.raw(&key(&k, &d)); s = s * num(&d); }
            if naxis == 0 { s = 0; }
            if what == 1 { h.int(b"PCOUNT", 0).int(b"GCOUNT", 1); }
            size = s;
        }
        2 => {
            let (r, n2, pc) = (sd(6, nd), sd(7, nd), sd(8, nd));
            h.str(b"XTENSION", b"BINTABLE").int(b"BITPIX", 8).int(b"NAXIS", 2);
            h.raw(&key(b"NAXIS1", &r)).raw(&key(b"NAXIS2", &n2)).raw(&key(b"PCOUNT", &pc)).int(b"GCOUNT", 1).int(b"TFIELDS", 1);
            let mut t = r.clone(); t.push(b'B'); h.str(b"TFORM1", &t);
            assume(num(&r) > 0);
            size = num(&r) * num(&n2) + num(&pc);
        }
        _ => {
            let (r, n2) = (sd(6, nd), sd(7, nd));
            h.str(b"XTENSION", b"TABLE").int(b"BITPIX", 8).int(b"NAXIS", 2);
            h.raw(&key(b"NAXIS1", &r)).raw(&key(b"NAXIS2", &n2)).int(b"PCOUNT", 0).int(b"GCOUNT", 1).int(b"TFIELDS", 1).int(b"TBCOL1", 1);
            let mut t = b"A".to_vec(); t.extend_from_slice(&r); h.str(b"TFORM1", &t);
            assume(num(&r) > 0);
            size = num(&r) * num(&n2);
        }
    }
    for _ in 0..fill { h.raw(b"COMMENT filler"); }
    head.extend(h.end());
    let start = head.len() as u64;
    assume(size >= read as u64);
    let next = start + (size + 2879) / 2880 * 2880;
    let mut fits = Fits::from_reader(Big::new(head, size, tail()));
    if what != 0 { if !matches!(fits.next(), Some(Ok(HDU::Primary(_)))) { check(false, 1); } }
    match (what, fits.next()) {
        (0, Some(Ok(HDU::Primary(x)))) | (1, Some(Ok(HDU::XImage(x)))) => {
            check(x.get_data_unit_byte_size() == size, 2); check(x.get_data_unit_byte_offset() == start, 3);
            if read > 0 { let mut left = read; match fits.get_data(&x).pixels() { Pixels::U8(mut it) => while left >= 1 { check(it.next() == Some(0x5a), 4); left -= 1; }, Pixels::I16(mut it) => while left >= 2 { check(it.next() == Some(0x5a5a), 5); left -= 2; }, Pixels::F64(mut it) => while left >= 8 { check(it.next().is_some(), 6); left -= 8; }, _ => {} } }
        }
        (2, Some(Ok(HDU::XBinaryTable(x)))) => { check(x.get_data_unit_byte_size() == size, 2); check(x.get_data_unit_byte_offset() == start, 3); if read > 0 { let mut b = vec![0; read]; check(fits.read_exact(&mut b).is_ok(), 7); } }
        (3, Some(Ok(HDU::XASCIITable(x)))) => { check(x.get_data_unit_byte_size() == size, 2); check(x.get_data_unit_byte_offset() == start, 3); if read > 0 { let mut b = vec![0; read]; check(fits.read_exact(&mut b).is_ok(), 7); } }
        _ => { check(false, 8); return; }
    }
    check_tail(&mut fits, next);
}
fn unit(kind: usize, n: usize, first: bool, name: usize) -> (Vec<u8>, Vec<u8>) {
    let mut h = match kind {
        0 => image(!first, 8, &[n as i64]), 1 => image(!first, -64, &[n as i64, 1, 1]), 2 => image(!first, 16, &[]),
        3 => { let mut h = H::new(); h.str(b"XTENSION", b"BINTABLE").int(b"BITPIX", 8).int(b"NAXIS", 2).int(b"NAXIS1", 3).int(b"NAXIS2", n as i64).int(b"PCOUNT", 7).int(b"GCOUNT", 1).int(b"TFIELDS", 2).str(b"TFORM1", b"1I").str(b"TFORM2", b"1B"); h }
        _ => { let mut h = H::new(); h.str(b"XTENSION", b"TABLE").int(b"BITPIX", 8).int(b"NAXIS", 2).int(b"NAXIS1", 5).int(b"NAXIS2", n as i64).int(b"PCOUNT", 0).int(b"GCOUNT", 1).int(b"TFIELDS", 1).int(b"TBCOL1", 1).str(b"TFORM1", b"A5"); h }
    };
    h.int(b"NUMBER", name as i64);
    let size = match kind { 0 => n, 1 => 8 * n, 2 => 0, 3 => 3 * n + 7, _ => 5 * n };
    (h.end(), some(size, 16))
}
/// Several HDUs, each read in any of the ways there are before going on.
/// params: capacity of a buffered reader (0: none), ways (0 any, k+1 that one), number of HDUs, then kind and elements of each (the first one an image)
pub fn h_walk_multi() {
    let (cap, way, n) = (param(0), param(1), param(2));
    let mut file = vec![]; let mut hd = vec![];
    for i in 0..n { let (h, d) = unit(param(3 + 2 * i), param(4 + 2 * i), i == 0, i); file.extend(h); hd.push((param(3 + 2 * i), file.len() as u64, d.clone())); file.extend(d); pad(&mut file, if param(3 + 2 * i) == 4 { b' ' } else { 0 }); }
    if cap == 0 { multi(Fits::from_reader(std::io::Cursor::new(file)), way, &hd) } else { multi(Fits::from_reader(std::io::BufReader::with_capacity(cap, std::io::Cursor::new(file))), way, &hd) }
}
fn multi<R>(mut fits: Fits<R>, way: usize, hd: &[(usize, u64, Vec<u8>)])
where R: Read + Seek + std::fmt::Debug + 'static
{
    use fitsrs::hdu::data::bintable::data::BinaryTableData;
    for (i, (kind, at, d)) in hd.iter().enumerate() {
        let how = if way == 0 { choose(4) } else { way - 1 };
        // how many values of the data unit are taken: none, one, all, half
        let part = |n: usize| match how { 0 => 0, 1 => 1.min(n), 2 => n + 1, _ => n / 2 };
        let same = |g: Option<u8>, k: usize| match g { Some(g) => k < d.len() && g == d[k], None => k >= d.len() };
        macro_rules! hdu { ($x:expr) => {{ check($x.get_data_unit_byte_offset() == *at && $x.get_data_unit_byte_size() == d.len() as u64, 2); check($x.get_header().get_parsed::<usize>("NUMBER") == Ok(i), 3); }} }
        match fits.next() {
            Some(Ok(HDU::Primary(x))) | Some(Ok(HDU::XImage(x))) if *kind < 3 => {
                hdu!(x);
                match fits.get_data(&x).pixels() {
                    Pixels::U8(mut it) => for k in 0..part(d.len()) { check(same(it.next(), k), 4); },
                    Pixels::F64(mut it) => for k in 0..part(d.len() / 8) { match it.next() { Some(v) => { let b = v.to_be_bytes(); check(8 * k < d.len() && b == d[8 * k..8 * k + 8], 5); } None => check(8 * k >= d.len(), 6) } },
                    Pixels::I16(mut it) => check(*kind == 2 && it.next().is_none(), 7),
                    _ => check(false, 8),
                }
            }
            Some(Ok(HDU::XBinaryTable(x))) if *kind == 3 => {
                hdu!(x);
                let rows = (d.len() - 7) / 3;
                match fits.get_data(&x) {
                    BinaryTableData::Table(mut t) => for k in 0..part(2 * rows) {
                        let g = t.next().map(|v| crate::tables::fp(&v)); let r = &d[3 * (k / 2)..];
                        match g { Some(v) => check(k < 2 * rows && v[3] == if k % 2 == 0 { (r[0] as u64) << 8 | r[1] as u64 } else { r[2] as u64 }, 9), None => check(k >= 2 * rows, 10) }
                    },
                    _ => check(false, 11),
                }
            }
            Some(Ok(HDU::XASCIITable(x))) if *kind == 4 => { hdu!(x); let mut t = fits.get_data(&x).bytes(); for k in 0..part(d.len()) { check(same(t.next().and_then(|b| b.ok()), k), 12); } }
            _ => { check(false, 13); return; }
        }
    }
    for _ in 0..3 { check(fits.next().is_none(), 14); }
    cover(1);
}
