//! Synchronous readers: whatever pieces they hand out, interrupted or failing, the HDUs and values are those of the file.
use crate::build::*;
use crate::sym::*;
use crate::tables::{fp, table, Col, V};
use fitsrs::hdu::data::bintable::{data::BinaryTableData, tile_compressed::pixels::Pixels as Tc};
use fitsrs::hdu::data::Pixels;
use fitsrs::hdu::HDU;
use fitsrs::Fits;
use std::io::{Error, ErrorKind, Read, Result, Seek, SeekFrom};

/// Gives at most `chunk` bytes at a time and never across one of `stops`; a read that starts there fails: 0 not at all, 1 is interrupted once, 2 fails always.
#[derive(Debug)]
struct Pieces { data: Vec<u8>, pos: u64, chunk: usize, stops: Vec<u64>, mode: usize, hits: usize }
impl Read for Pieces {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        if let Some(i) = self.stops.iter().position(|s| *s == self.pos) {
            if self.mode == 1 { self.stops.remove(i); self.hits += 1; return Err(Error::from(ErrorKind::Interrupted)); }
            if self.mode == 2 && !buf.is_empty() { self.hits += 1; return Err(Error::from(ErrorKind::TimedOut)); }
        }
        let p = (self.pos as usize).min(self.data.len());
        let mut end = self.data.len();
        for s in &self.stops { if *s > self.pos && (*s as usize) < end { end = *s as usize; } }
        let n = (end - p).min(buf.len()).min(self.chunk);
        buf[..n].copy_from_slice(&self.data[p..p + n]);
        self.pos += n as u64;
        Ok(n)
    }
}
impl Seek for Pieces {
    fn seek(&mut self, p: SeekFrom) -> Result<u64> {
        let new = match p { SeekFrom::Start(x) => x as i128, SeekFrom::Current(d) => self.pos as i128 + d as i128, SeekFrom::End(d) => self.data.len() as i128 + d as i128 };
        if new < 0 { return Err(Error::from(ErrorKind::InvalidInput)); }
        self.pos = new as u64;
        Ok(self.pos)
    }
}
/// the file, where its second HDU's header and data start, its data end, and its values
fn sample(kind: usize, bp: usize) -> (Vec<u8>, usize, usize, usize, Vec<V>) {
    let mut want: Vec<V> = vec![]; let mut f; let start; let end;
    match kind {
        0 | 2 => {
            let w = if kind == 2 { 1 } else { BITPIX[bp].unsigned_abs() as usize / 8 }; let d = vec(5 * w);
            f = image(false, 8, &[]).end();
            if kind == 0 { f.extend(image(true, BITPIX[bp], &[5]).end()); } else { f.extend(H::new().str(b"XTENSION", b"TABLE").int(b"BITPIX", 8).int(b"NAXIS", 2).int(b"NAXIS1", 5).int(b"NAXIS2", 1).int(b"PCOUNT", 0).int(b"GCOUNT", 1).int(b"TFIELDS", 0).end()); }
            start = f.len();
            for c in d.chunks(w) { let mut x = 0u64; for b in c { x = x << 8 | *b as u64; } want.push([0, 0, 0, x, 0]); }
            f.extend_from_slice(&d); end = f.len();
        }
        1 | 5 => {
            let cols: Vec<Col> = if kind == 1 { vec![Col { ty: 3, rep: 1 }, Col { ty: 9, rep: 1 }, Col { ty: 1, rep: 9 }] } else { vec![Col { ty: 2, rep: 1 }, Col { ty: [11, 13, 24, 30][bp % 4], rep: 1 }, Col { ty: 4, rep: 1 }] };
            let t = table(&cols, 2, if kind == 5 { 3 } else { 0 });
            start = t.start; end = t.start + t.size; f = t.file; f.truncate(end);
            for r in &t.rows { for c in r { want.extend(c.iter().copied()); } }
        }
        _ => {
            let (blobs, px): (Vec<Vec<u8>>, Vec<i32>) = if kind == 3 { let px = [7i32, -3, 100, 2]; (vec![crate::tiles::squeeze(1, &px[..2], 0), crate::tiles::squeeze(1, &px[2..], 0)], px.to_vec()) } else { let (a, mut p) = crate::tiles::rice(2, 32, 1, 1); let (b, q) = crate::tiles::rice(2, 32, 1, 1); p.extend(q); (vec![a, b], p) };
            let s = crate::tiles::Spec { cmp: if kind == 3 { 1 } else { 0 }, bp: 2, block: 32, dims: vec![2, 2], tiles: vec![2, 1], give_tiles: true, lay: bp & 7, q: 0, z0: 0, blank: 0, extra: vec![] };
            f = crate::tiles::file(&s, &blobs, &[], &[], &[]);
            for p in px { want.push([0, 0, 0, p as u32 as u64, 0]); }
            start = 5760; end = f.len();
        }
    }
    pad(&mut f, 0);
    let mut tail = image(true, 16, &[]); tail.str(b"EXTNAME", b"NEXT"); f.extend(tail.end());
    (f, 2880, start, end, want)
}
fn values<R: Read + Seek + std::fmt::Debug + 'static>(fits: &mut Fits<R>, h: HDU, max: usize) -> Option<Vec<V>> {
    let mut got: Vec<V> = vec![];
    macro_rules! all { ($it:expr, |$v:ident| $e:expr) => {{ let mut it = $it; while let Some($v) = it.next() { if got.len() > max { return None; } got.push($e); } }} }
    match h {
        HDU::XImage(h) => match fits.get_data(&h).pixels() {
            Pixels::U8(it) => all!(it, |v| [0, 0, 0, v as u64, 0]), Pixels::I16(it) => all!(it, |v| [0, 0, 0, v as u16 as u64, 0]), Pixels::I32(it) => all!(it, |v| [0, 0, 0, v as u32 as u64, 0]),
            Pixels::I64(it) => all!(it, |v| [0, 0, 0, v as u64, 0]), Pixels::F32(it) => all!(it, |v| [0, 0, 0, v.to_bits() as u64, 0]), Pixels::F64(it) => all!(it, |v| [0, 0, 0, v.to_bits(), 0]),
        },
        HDU::XASCIITable(h) => { let mut v = vec![]; let _ = fits.get_data(&h).read_to_end(&mut v); for b in v { got.push([0, 0, 0, b as u64, 0]); } }
        HDU::XBinaryTable(h) => match fits.get_data(&h) {
            BinaryTableData::Table(t) => all!(t, |v| fp(&v)),
            BinaryTableData::TileCompressed(Tc::I32(p)) => all!(p, |v| [0, 0, 0, v as u32 as u64, 0]),
            _ => return None,
        },
        _ => return None,
    }
    Some(got)
}
/// params: kind of the second HDU (0 image, 1 binary table, 2 ASCII table, 3 GZIP tiles, 4 RICE tiles, 5 table with arrays), BITPIX index / layout, mode (0 short reads, 1 interrupted, 2 failing),
/// chunk (0: any), stops, window (0: start of the file, 1: second header, 2: end of the second header and data), its length, capacity of a buffered reader (0: none)
pub fn h_reader() {
    let (kind, bp, mode, chunk, ns, win, wl, cap) = (param(0), param(1), param(2), param(3), param(4), param(5), param(6), param(7));
    let (f, hs, ds, de, want) = sample(kind, bp);
    let base = match win { 0 => 0, 1 => hs - 8, 2 => ds - 24, 3 => de - 4, _ => f.len() - 2884 };
    let mut stops = vec![]; let mut from = base;
    for _ in 0..ns { if from - base >= wl { break; } let s = from + choose(wl - (from - base)); stops.push(s as u64); from = s + 1; }
    let len = f.len();
    let r = Pieces { data: f, pos: 0, chunk: if chunk == 0 { usize::MAX } else { chunk }, stops: stops.clone(), mode, hits: 0 };
    if cap == 0 { go(Fits::from_reader(r), kind, mode, &stops, hs, ds, de, len, &want, true) } else { go(Fits::from_reader(std::io::BufReader::with_capacity(cap, r)), kind, mode, &stops, hs, ds, de, len, &want, false) }
}
fn go<R: Read + Seek + std::fmt::Debug + 'static>(mut fits: Fits<R>, kind: usize, mode: usize, stops: &[u64], hs: usize, ds: usize, de: usize, len: usize, want: &[V], exact: bool) {
    let bad = |a: usize, b: usize| mode == 2 && stops.iter().any(|s| *s >= a as u64 && *s < b as u64);
    // a header that cannot be read is an error and ends the list
    macro_rules! fails { ($a:expr, $b:expr, $id:expr) => { if bad($a, $b) { check(matches!(fits.next(), Some(Err(_))), $id); check(fits.next().is_none(), $id + 1); cover(2); return; } } }
    fails!(0, hs, 1);
    if !matches!(fits.next(), Some(Ok(HDU::Primary(_)))) { check(false, 3); return; }
    fails!(hs, ds, 4);
    let h = match fits.next() { Some(Ok(h)) => h, _ => { check(false, 6); return; } };
    let fine = match (kind, &h) { (0, HDU::XImage(_)) | (2, HDU::XASCIITable(_)) | (1 | 3 | 4 | 5, HDU::XBinaryTable(_)) => true, _ => false };
    if !fine { check(false, 7); return; }
    match values(&mut fits, h, 64) {
        None => { check(false, 8); return; }
        Some(got) => {
            observe(got.len() as u64);
            let cut = bad(ds, de);
            if cut { check(got.len() <= want.len(), 9); cover(3); } else { check(got.len() == want.len(), 10); }
            // nothing but the file's values
            for (g, w) in got.iter().zip(want) { for i in 0..5 { check(g[i] == w[i], 11); } }
            if cut && exact && kind < 3 {
                // every value before the first byte that cannot be read
                let s = *stops.iter().filter(|s| **s >= ds as u64).min().unwrap() as usize - ds;
                let n = match kind { 0 => s / ((de - ds) / want.len()), 2 => s, _ => { let row = (de - ds) / 2; let in_row = s % row; s / row * (want.len() / 2) + if in_row < 2 { 0 } else if in_row < 10 { 1 } else { 2 + in_row - 10 } } };
                check(got.len() == n, 12);
            }
        }
    }
    // what lies behind the data can be read whatever happened to them
    let next = (de + 2879) / 2880 * 2880;
    fails!(next, len, 13);
    match fits.next() { Some(Ok(HDU::XImage(h))) => check(h.get_header().get_parsed::<String>("EXTNAME").ok().as_deref() == Some("NEXT"), 15), _ => { check(false, 16); return; } }
    if mode != 2 { check(fits.next().is_none(), 17); check(fits.next().is_none(), 18); }
    cover(1);
}
