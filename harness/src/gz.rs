//! Files that are gzipped as a whole.
use crate::build::*;
use crate::sym::*;
use fitsrs::gz::GzReader;
use fitsrs::hdu::data::Pixels;
use fitsrs::hdu::HDU;
use fitsrs::Fits;
use std::fmt::Debug;
use std::io::{BufReader, Cursor, Read, Seek};

fn be(b: &[u8]) -> u64 { let mut x = 0; for &y in b { x = x << 8 | y as u64; } x }
fn member(p: &[u8], chunk: usize, flags: u8) -> Vec<u8> {
    let mut o = crate::tiles::gzip(p, chunk);
    o[3] = flags;
    let mut x: Vec<u8> = vec![];
    if flags & 4 != 0 { x.extend_from_slice(&[3, 0, 1, 2, 3]); }
    if flags & 8 != 0 { x.extend_from_slice(b"image.fits\0"); }
    if flags & 16 != 0 { x.extend_from_slice(b"note\0"); }
    let tail = o.split_off(10);
    o.extend(x); o.extend(tail); o
}
/// params: mode (0 plain, 1 gzipped, 2 gzipped in two members split at k, 3 cut k bytes before the end, 4 the byte k before the end replaced by any other), k, bytes per deflate block, flags (4 extra, 8 name, 16 comment), through a BufReader of that capacity (0: none), BITPIX index, seek pixel 0 again?
pub fn h_gz() {
    let (mode, k, chunk, flags, cap) = (param(0), param(1), param(2), param(3), param(4));
    // the arbitrary bytes come last: they are what the checksum has to be computed over
    let bp = param(5); let size = (BITPIX[bp].unsigned_abs() / 8) as usize; let n = 2880 / size;
    let mut f = image(false, 8, &[]).end();
    f.extend(image(true, BITPIX[bp], &[n as i64]).end());
    let start = f.len();
    let mut data: Vec<u8> = (0..2880).map(|i| (i * 7 + i / 256) as u8).collect();
    let s = vec(size.max(4).min(8)); let l = data.len() - s.len(); data[l..].copy_from_slice(&s);
    f.extend_from_slice(&data);
    let file = match mode {
        0 => f,
        2 => { let mut a = member(&f[..k], chunk, flags as u8); a.extend(member(&f[k..], chunk, 0)); a }
        _ => {
            let mut g = member(&f, chunk, flags as u8);
            let m = g.len();
            if mode == 3 { g.truncate(m - k); }
            if mode == 4 { let b = byte(); assume(b != g[m - k]); g[m - k] = b; }
            g
        }
    };
    if cap == 0 { go(Cursor::new(file), mode, bp, n, size, start, &data) } else { go(BufReader::with_capacity(cap, Cursor::new(file)), mode, bp, n, size, start, &data) }
}
fn go<R: Read + Seek + Debug>(r: R, mode: usize, bp: usize, n: usize, size: usize, start: usize, data: &[u8]) {
    let g = match GzReader::new(r) { Ok(g) => g, Err(_) => { observe(1); check(mode >= 3, 1); cover(1); return; } };
    check(mode < 3, 2);
    check(matches!(g, GzReader::Reader(_)) == (mode == 0), 3);
    let mut fits = Fits::from_reader(g);
    if !matches!(fits.next(), Some(Ok(HDU::Primary(_)))) { check(false, 4); return; }
    let hdu = match fits.next() { Some(Ok(HDU::XImage(h))) => h, _ => { check(false, 5); return; } };
    check(hdu.get_data_unit_byte_offset() == start as u64, 6);
    {
        let d = fits.get_data(&hdu);
        macro_rules! px { ($it:expr, |$v:ident| $e:expr) => {{
            let mut it = $it;
            let at = |i: usize| be(&data[i * size..(i + 1) * size]);
            for i in [n - 1, 0] { match it.read_value(i) { Ok($v) => check($e == at(i), 10), Err(_) => check(false, 11) } }
            let mut i = 1;
            while let Some($v) = it.next() { if i >= n { check(false, 12); return; } if i < 3 || i + 9 > n { observe($e); check($e == at(i), 13); } i += 1; }
            check(i == n, 14);
        }} }
        match (bp, d.pixels()) {
            (0, Pixels::U8(it)) => px!(it, |v| v as u64),
            (1, Pixels::I16(it)) => px!(it, |v| v as u16 as u64),
            (2, Pixels::I32(it)) => px!(it, |v| v as u32 as u64),
            (3, Pixels::I64(it)) => px!(it, |v| v as u64),
            (4, Pixels::F32(it)) => px!(it, |v| v.to_bits() as u64),
            (5, Pixels::F64(it)) => px!(it, |v| v.to_bits()),
            _ => { check(false, 15); return; }
        }
    }
    check(fits.next().is_none(), 16);
    cover(1);
}
