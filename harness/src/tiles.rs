//! Tile compressed images: RICE_1, GZIP_1, GZIP_2, quantization and dithering.
use crate::build::*;
use crate::sym::*;
use fitsrs::hdu::data::bintable::data::BinaryTableData;
use fitsrs::hdu::data::bintable::tile_compressed::pixels::Pixels;
use fitsrs::hdu::HDU;
use fitsrs::Fits;
use std::io::Cursor;

/// most significant bit first
pub struct Bits { b: Vec<u8>, acc: u64, n: u32 }
impl Bits {
    pub fn new() -> Bits { Bits { b: vec![], acc: 0, n: 0 } }
    /// v < 2^n
    pub fn put(&mut self, v: u64, n: u32) {
        self.acc = (self.acc << n) | v; self.n += n;
        while self.n >= 8 { self.n -= 8; self.b.push((self.acc >> self.n) as u8); self.acc &= (1u64 << self.n) - 1; }
    }
    pub fn end(mut self) -> Vec<u8> { if self.n > 0 { let k = 8 - self.n; self.put(0, k); } self.b }
}
const NZ: [u64; 6] = [0, 1, 7, 8, 9, 20];
/// 32 arbitrary bits for the first and last pixels of a tile, and for all of them when it is small
fn any(i: usize, n: usize) -> u32 { if n <= 16 || i < 2 || i + 2 >= n { u32() } else { (i as u32).wrapping_mul(2654435761) >> 3 } }
/// RICE_1 stream of n 32-bit pixels; each block is coded in one of `fsn` ways, each difference with one of `zn` unary prefixes, the remaining bits are arbitrary
pub fn rice(n: usize, block: usize, fsn: usize, zn: usize) -> (Vec<u8>, Vec<i32>) {
    let first = u32() as i32;
    let mut w = Bits::new();
    w.put(first as u32 as u64, 32);
    let mut px = vec![]; let mut last = first; let mut i = 0;
    while i < n {
        // 0: all differences null, 26: 32-bit differences, else fs = code - 1
        let code = match fsn { 200 => [5, 0, 26, 1, 14, 2, 25][i / block % 7], 27 => choose(27), 5 => [0, 1, 5, 14, 26][choose(5)], 3 => [0, 4, 26][choose(3)], 1 => 4, _ => fsn - 100 };
        w.put(code as u64, 5);
        for j in i..(i + block).min(n) {
            let m: u32 = if code == 0 { 0 } else if code == 26 { let m = if j == 0 { 0 } else { any(j, n) }; w.put(m as u64, 32); m } else {
                let fs = code as u32 - 1;
                let (z, low) = if j == 0 { (0, 0) } else { (if n <= 16 { NZ[choose(zn)] } else { NZ[j % zn] }, if fs == 0 { 0 } else { any(j, n) & ((1u32 << fs) - 1) }) };
                w.put(1, z as u32 + 1); w.put(low as u64, fs);
                // the prefix may carry the difference past 32 bits; not an encoding of anything
                ((z << fs) as u32) | low
            };
            // zigzag
            let d = ((m >> 1) as i32) ^ (0i32.wrapping_sub((m & 1) as i32));
            last = last.wrapping_add(d);
            px.push(last);
        }
        i += block;
    }
    (w.end(), px)
}
/// gzip member holding the payload in stored blocks of at most `chunk` bytes
pub fn gzip(p: &[u8], chunk: usize) -> Vec<u8> {
    let mut o = vec![0x1f, 0x8b, 8, 0, 0, 0, 0, 0, 0, 255];
    let mut i = 0;
    loop {
        let e = (i + chunk).min(p.len());
        o.push((e == p.len()) as u8);
        let l = (e - i) as u16;
        o.extend_from_slice(&l.to_le_bytes()); o.extend_from_slice(&(!l).to_le_bytes()); o.extend_from_slice(&p[i..e]);
        i = e;
        if e == p.len() { break; }
    }
    let mut c = flate2::Crc::new(); c.update(p);
    o.extend_from_slice(&c.sum().to_le_bytes()); o.extend_from_slice(&(p.len() as u32).to_le_bytes());
    o
}
fn width(bp: usize, v: i32) -> i32 { match bp { 0 => v as u8 as i32, 1 => v as i16 as i32, _ => v } }
/// tile sizes in file order
pub fn tile_sizes(dims: &[usize], tiles: &[usize]) -> Vec<usize> {
    let mut out = vec![1];
    for (d, t) in dims.iter().zip(tiles) {
        let mut o = vec![]; let mut at = 0;
        while at < *d { let l = (*d - at).min(*t); for x in &out { o.push(x * l); } at += t; }
        out = o;
    }
    out
}
/// pixels of n values: parameters are read by the caller
pub struct Tile { pub blob: Vec<u8>, pub px: Vec<i32> }
fn tile(cmp: usize, bp: usize, n: usize, block: usize, fsn: usize, zn: usize) -> Tile {
    if cmp == 0 {
        let (blob, px) = rice(n, block, fsn, zn);
        for p in &px { assume(width(bp, *p) == *p); }
        return Tile { blob, px };
    }
    let mut px = vec![];
    for i in 0..n { px.push(if n <= 16 || i + 2 >= n { match bp { 0 => byte() as i32, 1 => u16() as i16 as i32, _ => u32() as i32 } } else { width(bp, (i as u32).wrapping_mul(2654435761) as i32) }); }
    Tile { blob: squeeze(cmp, &px, fsn), px }
}
pub fn squeeze(cmp: usize, px: &[i32], chunk: usize) -> Vec<u8> {
    let mut b = vec![];
    if cmp == 1 { for p in px { b.extend_from_slice(&p.to_be_bytes()); } } else { for k in 0..4 { for p in px { b.push(p.to_be_bytes()[k]); } } }
    gzip(&b, if chunk == 0 { 65535 } else { chunk })
}
pub struct Spec { pub cmp: usize, pub bp: usize, pub block: usize, pub dims: Vec<usize>, pub tiles: Vec<usize>, pub give_tiles: bool, pub lay: usize, pub q: usize, pub z0: usize, pub blank: usize, pub extra: Vec<(Vec<u8>, Vec<u8>)> }
/// lay bits: 1 heap in reverse order, 2 gap before the heap, 4 Q descriptors, 8 other columns first
/// scale/zero/blank columns of each row are given for floats
pub fn file(s: &Spec, blobs: &[Vec<u8>], scale: &[f64], zero: &[f64], blanks: &[i32]) -> Vec<u8> {
    let n = blobs.len();
    let fl = s.bp >= 4;
    let mut heap = vec![]; let mut offs = vec![0; n];
    for k in 0..n { let i = if s.lay & 1 != 0 { n - 1 - k } else { k }; offs[i] = heap.len(); heap.extend_from_slice(&blobs[i]); }
    let mut main = vec![]; let mut cols: Vec<(&[u8], &[u8])> = vec![];
    if s.lay & 8 != 0 { cols.push((b"NOTE", b"3A")); cols.push((b"NONE", b"0J")); cols.push((b"FLAGS", b"9X")); }
    cols.push((b"COMPRESSED_DATA", if s.lay & 4 != 0 { b"1QB(99)" } else { b"1PB(99)" }));
    if fl { cols.push((b"ZSCALE", if s.bp == 4 { b"1E" } else { b"1D" })); cols.push((b"ZZERO", if s.bp == 4 { b"1E" } else { b"1D" })); }
    if s.blank == 2 { cols.push((b"ZBLANK", b"1J")); }
    for i in 0..n {
        if s.lay & 8 != 0 { main.extend_from_slice(b"abcXY"); }
        if s.lay & 4 != 0 { main.extend_from_slice(&(blobs[i].len() as u64).to_be_bytes()); main.extend_from_slice(&(offs[i] as u64).to_be_bytes()); } else { main.extend_from_slice(&(blobs[i].len() as u32).to_be_bytes()); main.extend_from_slice(&(offs[i] as u32).to_be_bytes()); }
        if fl { for v in [scale[i], zero[i]] { if s.bp == 4 { main.extend_from_slice(&(v as f32).to_be_bytes()); } else { main.extend_from_slice(&v.to_be_bytes()); } } }
        if s.blank == 2 { main.extend_from_slice(&blanks[i].to_be_bytes()); }
    }
    let gap = if s.lay & 2 != 0 { 5 } else { 0 };
    let mut f = image(false, 8, &[]).end();
    let mut h = H::new();
    h.str(b"XTENSION", b"BINTABLE").int(b"BITPIX", 8).int(b"NAXIS", 2).int(b"NAXIS1", (main.len() / n.max(1)) as i64).int(b"NAXIS2", n as i64).int(b"PCOUNT", (gap + heap.len()) as i64).int(b"GCOUNT", 1).int(b"TFIELDS", cols.len() as i64);
    for (i, c) in cols.iter().enumerate() { h.strn(b"TTYPE", i + 1, c.0).strn(b"TFORM", i + 1, c.1); }
    if gap > 0 { h.int(b"THEAP", (main.len() + gap) as i64); }
    h.val(b"ZIMAGE", b"                   T").int(b"ZBITPIX", BITPIX[s.bp]).int(b"ZNAXIS", s.dims.len() as i64);
    for i in 0..s.dims.len() { h.intn(b"ZNAXIS", i + 1, s.dims[i] as i64); if s.give_tiles { h.intn(b"ZTILE", i + 1, s.tiles[i] as i64); } }
    h.str(b"ZCMPTYPE", [&b"RICE_1"[..], b"GZIP_1", b"GZIP_2"][s.cmp]);
    if s.cmp == 0 && s.block != 32 { h.str(b"ZNAME1", b"BLOCKSIZE").int(b"ZVAL1", s.block as i64).str(b"ZNAME2", b"BYTEPIX").int(b"ZVAL2", 4); }
    if s.q > 0 { h.str(b"ZQUANTIZ", [&b"NO_DITHER"[..], b"SUBTRACTIVE_DITHER_1", b"SUBTRACTIVE_DITHER_2"][s.q - 1]); }
    if s.z0 > 0 { h.int(b"ZDITHER0", s.z0 as i64); }
    for (k, v) in &s.extra { h.val(k, v); }
    if s.blank == 1 { h.int(b"ZBLANK", blanks[0] as i64); }
    f.extend(h.end());
    f.extend(main); f.resize(f.len() + gap, 0xee); f.extend(heap);
    f
}
fn spec(at: usize, cmp: usize, bp: usize, block: usize, lay: usize) -> Spec {
    let nd = param(at); let dims: Vec<usize> = (0..nd).map(|i| param(at + 1 + i)).collect();
    let mut tiles: Vec<usize> = (0..nd).map(|i| param(at + 1 + nd + i)).collect();
    // no ZTILEn: row by row
    let give = nd > 0 && tiles[0] > 0;
    if !give { for i in 0..nd { tiles[i] = if i == 0 { dims[0] } else { 1 }; } }
    Spec { cmp, bp, block, dims, tiles, give_tiles: give, lay, q: 0, z0: 0, blank: 0, extra: vec![] }
}
fn read(f: Vec<u8>, bp: usize, n: usize) -> Option<(Vec<u64>, bool)> {
    let mut f = f; let len = f.len(); pad(&mut f, 0);
    let _ = len;
    let mut tail = image(true, 16, &[]); tail.str(b"EXTNAME", b"NEXT"); f.extend(tail.end());
    let mut fits = Fits::from_reader(Cursor::new(f));
    if !matches!(fits.next(), Some(Ok(HDU::Primary(_)))) { check(false, 1); return None; }
    let hdu = match fits.next() { Some(Ok(HDU::XBinaryTable(h))) => h, _ => { check(false, 2); return None; } };
    let mut got = vec![];
    {
        macro_rules! all { ($p:expr, $c:expr) => {{ let mut p = $p; while let Some(v) = p.next() { if got.len() > n { check(false, 3); return None; } got.push($c(v)); } }} }
        match (fits.get_data(&hdu), bp) {
            (BinaryTableData::TileCompressed(Pixels::U8(p)), 0) => all!(p, |v: u8| v as u64),
            (BinaryTableData::TileCompressed(Pixels::I16(p)), 1) => all!(p, |v: i16| v as i32 as u32 as u64),
            (BinaryTableData::TileCompressed(Pixels::I32(p)), 2) => all!(p, |v: i32| v as u32 as u64),
            (BinaryTableData::TileCompressed(Pixels::F32(p)), 4) => all!(p, |v| (v as f32).to_bits() as u64),
            (BinaryTableData::TileCompressed(Pixels::F64(p)), 5) => all!(p, |v| (v as f32).to_bits() as u64),
            _ => { check(false, 4); return None; }
        }
    }
    let next = match fits.next() { Some(Ok(HDU::XImage(h))) => h.get_header().get_parsed::<String>("EXTNAME").ok().as_deref() == Some("NEXT"), _ => false };
    Some((got, next))
}
/// integer images. params: compression, BITPIX, block size, layout, (rice) block codings / (gzip) bytes per deflate block, unary prefixes, dimensions, axes..., tiles...
pub fn h_tile() {
    let (cmp, bp, block, lay, fsn, zn) = (param(0), param(1), param(2), param(3), param(4), param(5));
    let s = spec(6, cmp, bp, block, lay);
    let sizes = tile_sizes(&s.dims, &s.tiles);
    let tiles: Vec<Tile> = sizes.iter().map(|n| tile(cmp, bp, *n, block, fsn, zn)).collect();
    let blobs: Vec<Vec<u8>> = tiles.iter().map(|t| t.blob.clone()).collect();
    let want: Vec<i32> = tiles.iter().flat_map(|t| t.px.iter().copied()).collect();
    let (got, next) = match read(file(&s, &blobs, &[], &[], &[]), bp, want.len()) { Some(x) => x, None => return };
    check(got.len() == want.len(), 5);
    if got.len() == want.len() { for i in 0..want.len() { if i < 64 || i + 4 > want.len() { observe(got[i]); } check(got[i] == want[i] as u32 as u64, 6); } }
    check(next, 7);
    cover(1);
}
struct Rd<'a> { b: &'a [u8], at: usize }
impl Rd<'_> {
    fn bit(&mut self) -> Option<u32> { let i = self.at; if i / 8 >= self.b.len() { return None; } self.at += 1; Some((self.b[i / 8] >> (7 - i % 8)) as u32 & 1) }
    fn bits(&mut self, n: u32) -> Option<u32> { let mut v = 0; for _ in 0..n { v = v << 1 | self.bit()?; } Some(v) }
}
/// bit by bit RICE_1 decoder; also tells whether an encoder could have written the stream (first difference null, known codes)
fn rice_reference(b: &[u8], n: usize, block: usize) -> Option<(Vec<u32>, bool)> {
    let mut r = Rd { b, at: 0 };
    let mut last = r.bits(32)?; let mut out = vec![]; let mut sane = true;
    while out.len() < n {
        let code = conc(r.bits(5)? as usize) as u32;
        if code > 26 { sane = false; }
        for _ in out.len()..(out.len() + block).min(n) {
            let m = if code == 0 { 0 } else if code == 26 { r.bits(32)? } else { let mut z = 0u32; while r.bit()? == 0 { z += 1; } let fs = code - 1; let low = r.bits(fs)?; if fs > 24 || ((z as u64) << fs) >> 32 != 0 { sane = false; } (((z as u64) << fs) as u32) | low };
            if out.is_empty() && m != 0 { sane = false; }
            last = last.wrapping_add((m >> 1) ^ 0u32.wrapping_sub(m & 1));
            out.push(last);
        }
    }
    Some((out, sane))
}
/// a RICE tile of arbitrary bytes with the file ending right behind: nothing panics, and what an encoder can produce is decoded.
/// params: pixels, block size, bytes behind the first pixel, FS code of the first block (99: any)
pub fn h_rice_any() {
    let (n, block, k, code) = (param(0), param(1), param(2), param(3));
    let mut b = vec(4 + k);
    if k > 0 && code != 99 { b[4] = (b[4] & 7) | (code as u8) << 3; }
    let s = Spec { cmp: 0, bp: 2, block, dims: vec![n], tiles: vec![n], give_tiles: true, lay: 0, q: 0, z0: 0, blank: 0, extra: vec![] };
    let f = file(&s, &[b.clone()], &[], &[], &[]);
    let mut fits = Fits::from_reader(Cursor::new(f));
    if !matches!(fits.next(), Some(Ok(HDU::Primary(_)))) { check(false, 1); return; }
    let hdu = match fits.next() { Some(Ok(HDU::XBinaryTable(h))) => h, _ => { check(false, 2); return; } };
    let mut got = vec![];
    match fits.get_data(&hdu) { BinaryTableData::TileCompressed(Pixels::I32(mut p)) => { while let Some(v) = p.next() { got.push(v as u32); if got.len() > n { check(false, 3); return; } } } _ => { check(false, 4); return; } }
    match rice_reference(&b, n, block) {
        Some((want, true)) => { check(got.len() == n, 5); if got.len() == n { for i in 0..n { check(got[i] == want[i], 6); } } cover(1); }
        _ => cover(2),
    }
}
/// the pseudo random sequence of the standard (Park and Miller)
fn random() -> Vec<f32> {
    let mut seed: u64 = 1; let mut v = Vec::with_capacity(10000);
    for _ in 0..10000 { seed = seed * 16807 % 2147483647; v.push((seed as f64 / 2147483647.0) as f32); }
    check(seed == 1043618065, 90);
    v
}
/// quantized floating point images.
/// params: compression, BITPIX index, ZQUANTIZ (0 absent, 1 none, 2 and 3 dithered), ZDITHER0 (0 absent), blank (0 none, 1 keyword, 2 column), layout, tiles, pixels per tile
pub fn h_tile_float() {
    let (cmp, bp, q, z0, blank, lay, nt, n) = (param(0), param(1), param(2), param(3), param(4), param(5), param(6), param(7));
    let s = Spec { cmp, bp, block: 32, dims: vec![n, nt], tiles: vec![n, 1], give_tiles: true, lay, q, z0, blank, extra: vec![] };
    let scale: Vec<f64> = (0..nt).map(|i| [0.25, 1.0, 0.03125][i % 3]).collect();
    let zero: Vec<f64> = (0..nt).map(|i| [3.0, -1.5, 0.0][i % 3]).collect();
    let blanks: Vec<i32> = (0..nt).map(|i| if blank == 2 { [-2147483648, 7, -1][i % 3] } else { -2147483648 }).collect();
    let mut px: Vec<Vec<i32>> = vec![]; let mut blobs = vec![];
    for _ in 0..nt {
        if cmp == 0 { let t = tile(0, 2, n, 32, 126, 1); blobs.push(t.blob); px.push(t.px); continue; }
        let mut t = vec![];
        for i in 0..n { t.push(if n <= 64 || i + 1 == n { u32() as i32 } else { i as i32 * 37 - 1000 }); }
        blobs.push(squeeze(cmp, &t, 0)); px.push(t);
    }
    let (got, next) = match read(file(&s, &blobs, &scale, &zero, &blanks), bp, n * nt) { Some(x) => x, None => return };
    check(got.len() == n * nt, 5);
    if got.len() != n * nt { return; }
    let rnd = if q >= 2 { random() } else { vec![] };
    for r in 0..nt {
        let mut i0 = (r + if z0 == 0 { 1 } else { z0 } - 1) % 10000;
        let mut i1 = if q >= 2 { (rnd[i0] * 500.0) as usize } else { 0 };
        for i in 0..n {
            let v = px[r][i]; let g = f32::from_bits(got[r * n + i] as u32);
            if blank != 0 && v == blanks[r] { check(g.is_nan(), 6); cover(2); }
            else if q == 3 && v == -2147483647 { check(g == 0.0, 7); cover(3); }
            else {
                let e = if q >= 2 { ((v as f32) - rnd[i1] + 0.5) * (scale[r] as f32) + zero[r] as f32 } else { (v as f32) * (scale[r] as f32) + zero[r] as f32 };
                // any order of rounding is as good
                let near = if g.to_bits() == e.to_bits() { true } else { let (g, e) = (g as f64, e as f64); (g - e).abs() <= (e - zero[r]).abs() / 1048576.0 + scale[r] / 1024.0 };
                check(near, 8);
            }
            observe(got[r * n + i]);
            if q >= 2 { i1 += 1; if i1 == 10000 { i0 = (i0 + 1) % 10000; i1 = (rnd[i0] * 500.0) as usize; cover(4); } }
        }
    }
    check(next, 9);
    cover(1);
}
