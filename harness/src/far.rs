//! Tables too large for memory: a reader that holds only the parts that matter.
use crate::build::*;
use crate::sym::*;
use crate::tables::{fp, Col, V, TY, W};
use fitsrs::hdu::data::bintable::{data::BinaryTableData, ColumnId};
use fitsrs::hdu::HDU;
use fitsrs::Fits;
use std::io::{BufReader, Read, Result, Seek, SeekFrom};

/// bytes that are in no part read as a pattern of their position
#[derive(Debug)]
pub struct Sparse { parts: Vec<(u64, Vec<u8>)>, end: u64, pos: u64 }
impl Sparse { fn byte(&self, p: u64) -> u8 { for (a, b) in &self.parts { if p >= *a && p - *a < b.len() as u64 { return b[(p - *a) as usize]; } } (p ^ (p >> 8) ^ (p >> 16) ^ (p >> 24) ^ (p >> 32) ^ (p >> 40)) as u8 } }
impl Read for Sparse { fn read(&mut self, b: &mut [u8]) -> Result<usize> {
    let k = if self.pos >= self.end { 0 } else { b.len().min((self.end - self.pos) as usize) };
    for x in b[..k].iter_mut() { *x = self.byte(self.pos); self.pos += 1; }
    Ok(k)
} }
impl Seek for Sparse { fn seek(&mut self, p: SeekFrom) -> Result<u64> {
    self.pos = match p { SeekFrom::Start(x) => x, SeekFrom::Current(d) => self.pos.wrapping_add(d as u64), SeekFrom::End(d) => self.end.wrapping_add(d as u64) };
    Ok(self.pos)
} }
fn be(b: &[u8]) -> u64 { let mut x = 0; for &y in b { x = x << 8 | y as u64; } x }

/// params: type of the array elements (index), Q instead of P?, size of a filler column, rows, heap size, gap before the heap (THEAP), finish (0 values, 1 rows), buffered?, select all but the filler?
pub fn h_far_table() {
    let (ety, q, fill, rows, heap, gap, fin, buf, sel) = (param(0), param(1) == 1, param(2), param(3) as u64, param(4) as u64, param(5) as u64, param(6), param(7), param(8) == 1);
    let ew = if ety == 1 { 1 } else { W[ety] } as u64; let n = 2u64; let len = n * ew;
    let cols = [Col { ty: 4, rep: 1 }, Col { ty: 6, rep: fill }, Col { ty: 3, rep: 1 }];
    let dw = if q { 16 } else { 8 };
    let w = 4 + fill as u64 + dw + 2;
    let mut h = H::new();
    h.str(b"XTENSION", b"BINTABLE").int(b"BITPIX", 8).int(b"NAXIS", 2).int(b"NAXIS1", w as i64).int(b"NAXIS2", rows as i64).int(b"PCOUNT", (gap + heap) as i64).int(b"GCOUNT", 1).int(b"TFIELDS", 4);
    h.strn(b"TFORM", 1, &cols[0].tform()).strn(b"TFORM", 2, &cols[1].tform());
    h.strn(b"TFORM", 3, &[if q { b'Q' } else { b'P' }, TY[ety]]).strn(b"TFORM", 4, &cols[2].tform());
    if gap > 0 { h.int(b"THEAP", (w * rows + gap) as i64); }
    let mut head = image(false, 8, &[]).end(); head.extend(h.end());
    let start = head.len() as u64;
    let size = w * rows + gap + heap;
    let tail_at = start + (size + 2879) / 2880 * 2880;
    let mut tail = image(true, 16, &[]); tail.str(b"EXTNAME", b"NEXT"); let tail = tail.end();
    let end = tail_at + tail.len() as u64;
    let r = [0, 1, rows / 2, rows - 1][choose(4)];
    let top = heap - len;
    let off = [0, top / 2, top][choose(3)];
    let off = if q { off } else { off.min(u32::MAX as u64) };
    let (a, b, e) = (vec(4), vec(2), vec(len as usize));
    let at = start + r * w;
    let mut back = if q { let mut v = n.to_be_bytes().to_vec(); v.extend_from_slice(&off.to_be_bytes()); v } else { let mut v = (n as u32).to_be_bytes().to_vec(); v.extend_from_slice(&(off as u32).to_be_bytes()); v };
    back.extend_from_slice(&b);
    let parts = vec![(0, head), (at, a.clone()), (at + 4 + fill as u64, back), (start + w * rows + gap + off, e.clone()), (tail_at, tail)];
    let f = Sparse { parts, end, pos: 0 };
    let mut want: Vec<V> = vec![[4, 0, 0, be(&a), 0]];
    if !sel { for k in 0..fill as u64 { let p = at + 4 + k; want.push([6, 1, k, (p ^ (p >> 8) ^ (p >> 16) ^ (p >> 24) ^ (p >> 32) ^ (p >> 40)) as u8 as u64, 0]); } }
    if ety == 1 { want.push([1, 2, 0, e[0] as u64, 0]); }
    else { for i in 0..n as usize { let x = &e[i * ew as usize..(i + 1) * ew as usize]; want.push(match ety { 0 => [0, 2, i as u64, (x[0] == b'T') as u64, 0], 9 => [9, 2, i as u64, be(&x[..4]), be(&x[4..])], 10 => [10, 2, i as u64, be(&x[..8]), be(&x[8..])], _ => [ety as u64, 2, i as u64, be(x), 0] }); } }
    want.push([3, 3, 0, be(&b), 0]);
    macro_rules! go { ($reader:expr) => {{
        let mut fits = Fits::from_reader($reader);
        if !matches!(fits.next(), Some(Ok(HDU::Primary(_)))) { check(false, 1); return; }
        let hdu = match fits.next() { Some(Ok(HDU::XBinaryTable(h))) => h, _ => { check(false, 2); return; } };
        check(hdu.get_data_unit_byte_size() == size && hdu.get_data_unit_byte_offset() == start, 3);
        {
            let mut d = match fits.get_data(&hdu) { BinaryTableData::Table(d) => d, _ => { check(false, 4); return; } };
            if sel { d.select_fields(&[ColumnId::Index(3), ColumnId::Index(2), ColumnId::Index(0)]); }
            check(d.seek_to_row(rows as usize).is_err(), 5);
            check(d.seek_to_row(r as usize).is_ok(), 6);
            if fin == 0 {
                for x in &want { match d.next() { Some(g) => { let g = fp(&g); check(g == *x, 7); observe(g[3]); } None => { check(false, 8); return; } } }
                if r + 1 == rows { check(d.next().is_none(), 9); cover(2); }
                check(d.seek_to_row(r as usize).is_ok(), 10);
                match d.next() { Some(g) => check(fp(&g) == want[0], 11), None => check(false, 12) }
            } else {
                let mut it = d.row_iter();
                match it.next() { Some(g) => { check(g.len() == want.len(), 13); for (g, x) in g.iter().zip(&want) { check(fp(g) == *x, 14); } } None => check(false, 15) }
                if r + 1 == rows { check(it.next().is_none(), 16); cover(2); }
            }
        }
        match fits.next() { Some(Ok(HDU::XImage(h))) => check(h.get_header().get_parsed::<String>("EXTNAME").ok().as_deref() == Some("NEXT"), 17), _ => check(false, 18) }
        check(fits.next().is_none(), 19);
        cover(1);
    }} }
    if buf == 0 { go!(f) } else { go!(BufReader::with_capacity(buf, f)) }
}
