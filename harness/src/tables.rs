//! Binary tables: values, column selection, row seeking, variable length arrays.
use crate::build::*;
use crate::sym::*;
use fitsrs::hdu::data::bintable::{data::BinaryTableData, ColumnId, DataValue};
use fitsrs::hdu::HDU;
use fitsrs::Fits;
use std::io::Cursor;

pub const TY: &[u8; 11] = b"LXBIJKAEDCM";
pub const W: [usize; 11] = [1, 0, 1, 2, 4, 8, 1, 4, 8, 8, 16];
/// a column: type (0..=10 fixed, 11..=21 P arrays, 22..=32 Q arrays) and repeat count (fixed) / largest number of elements (arrays)
#[derive(Clone, Copy)]
pub struct Col { pub ty: usize, pub rep: usize }
impl Col {
    pub fn width(&self) -> usize { match self.ty { 1 => (self.rep + 7) / 8, t if t < 11 => self.rep * W[t], t if t < 22 => 8, _ => 16 } }
    pub fn tform(&self) -> Vec<u8> {
        use std::sync::atomic::Ordering::Relaxed;
        let form = FORM.load(Relaxed);
        if form > 0 {
            let letter = TY[self.ty % 11];
            let mut v = vec![];
            if self.ty < 11 {
                // 1: no count when it is 1, 2: leading zeros, 3: text after the letter, 4: both
                if form == 2 || form == 4 { v.extend_from_slice(b"00"); }
                if form != 1 || self.rep != 1 { v.extend(dec(self.rep as u64)); }
                v.push(letter);
                if form >= 3 { let t = text(2); for b in &t { assume(*b != b'\''); } v.extend_from_slice(&t); }
            } else {
                // 1: neither count nor size, 2: leading zeros, 3: no count, 4: any text after the type
                if form == 2 { v.extend_from_slice(b"01"); } else if form == 4 { v.push(b'1'); }
                v.push(if self.ty < 22 { b'P' } else { b'Q' }); v.push(letter);
                if form == 3 { v.extend_from_slice(b"(123456)"); } else if form == 4 { let t = text(2); for b in &t { assume(*b != b'\''); } v.extend_from_slice(&t); }
            }
            return v;
        }
        if self.ty < 11 { let mut v = if self.rep == 1 && self.ty % 2 == 1 { vec![] } else { dec(self.rep as u64) }; v.push(TY[self.ty]); v } else { let mut v = if self.ty < 22 { b"1P".to_vec() } else { b"1Q".to_vec() }; v.push(TY[self.ty % 11]); v.extend_from_slice(b"(9)"); v }
    }
}
/// how TFORMs are written
static FORM: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
/// what a value is: kind, column, index in the field, bits (low, high)
pub type V = [u64; 5];
fn be(b: &[u8]) -> u64 { let mut x = 0; for &y in b { x = x << 8 | y as u64; } x }
fn val(ty: usize, col: usize, idx: usize, b: &[u8]) -> V {
    let (lo, hi) = match ty { 0 => ((b[0] == b'T') as u64, 0), 9 => (be(&b[..4]), be(&b[4..8])), 10 => (be(&b[..8]), be(&b[8..16])), _ => (be(b), 0) };
    [ty as u64, col as u64, idx as u64, lo, hi]
}
/// values of `n` elements of a type laid out in b
fn vals(out: &mut Vec<V>, ty: usize, col: usize, n: usize, b: &[u8]) {
    if ty == 1 { for i in 0..(n + 7) / 8 { out.push(val(1, col, i, &b[i..i + 1])); } } else { for i in 0..n { out.push(val(ty, col, i, &b[i * W[ty]..(i + 1) * W[ty]])); } }
}
pub fn fp(v: &DataValue) -> V {
    fn c(c: &ColumnId) -> u64 { match c { ColumnId::Index(i) => *i as u64, ColumnId::Name(_) => 999 } }
    match v {
        DataValue::Logical { value, column, idx } => [0, c(column), *idx as u64, *value as u64, 0],
        DataValue::Bit { byte, bit_idx, column, idx } => [1, c(column), *idx as u64, *byte as u64, *bit_idx as u64],
        DataValue::UnsignedByte { value, column, idx } => [2, c(column), *idx as u64, *value as u64, 0],
        DataValue::Short { value, column, idx } => [3, c(column), *idx as u64, *value as u16 as u64, 0],
        DataValue::Integer { value, column, idx } => [4, c(column), *idx as u64, *value as u32 as u64, 0],
        DataValue::Long { value, column, idx } => [5, c(column), *idx as u64, *value as u64, 0],
        DataValue::Character { value, column, idx } => [6, c(column), *idx as u64, *value as u64, 0],
        DataValue::Float { value, column, idx } => [7, c(column), *idx as u64, value.to_bits() as u64, 0],
        DataValue::Double { value, column, idx } => [8, c(column), *idx as u64, value.to_bits(), 0],
        DataValue::ComplexFloat { real, imag, column, idx } => [9, c(column), *idx as u64, real.to_bits() as u64, imag.to_bits() as u64],
        DataValue::ComplexDouble { real, imag, column, idx } => [10, c(column), *idx as u64, real.to_bits(), imag.to_bits()],
        DataValue::VariableLengthArray32 { .. } | DataValue::VariableLengthArray64 { .. } => [99, 0, 0, 0, 0],
    }
}
fn same(a: &V, b: &V) -> bool { (a[0] == b[0]) & (a[1] == b[1]) & (a[2] == b[2]) & (a[3] == b[3]) & (a[4] == b[4]) }
const NAMES: [&str; 12] = ["COLA", "COLB", "COLC", "COLD", "COLE", "COLF", "COLG", "COLH", "COLI", "COLJ", "COLK", "COLL"];
fn name(i: usize) -> String { if i < 12 { NAMES[i].to_owned() } else { String::from_utf8([b"Column number ".to_vec(), dec(i as u64)].concat()).unwrap() } }

/// binary table HDU bytes; returns header and the values of every row and column
pub struct T { pub file: Vec<u8>, pub start: usize, pub size: usize, pub rows: Vec<Vec<Vec<V>>> }
/// gap: bytes between the main table and the heap (THEAP given when non zero)
pub fn table(cols: &[Col], nrows: usize, gap: usize) -> T {
    let w: usize = cols.iter().map(|c| c.width()).sum();
    let any = cols.iter().any(|c| c.ty >= 11);
    let heap_len = if any { cols.iter().filter(|c| c.ty >= 11).map(|c| if c.ty % 11 == 1 { (c.rep + 7) / 8 } else { c.rep * W[c.ty % 11] }).max().unwrap() + 3 } else { 0 };
    let heap = some(heap_len, 96);
    let mut main = vec![]; let mut rows = vec![];
    for r in 0..nrows {
        let mut row = vec![];
        for (ci, c) in cols.iter().enumerate() {
            let mut out = vec![];
            if c.ty < 11 { let b = if r < 2 || r + 1 == nrows { some(c.width(), 32) } else { (0..c.width()).map(|k| (r * 37 + ci * 11 + k * 3 + 1) as u8).collect() }; vals(&mut out, c.ty, ci, c.rep, &b); main.extend_from_slice(&b); }
            else {
                let ty = c.ty % 11; let n = if c.rep <= 9 { choose(c.rep + 1) } else { [0, 1, c.rep][choose(3)] };
                let len = if ty == 1 { (n + 7) / 8 } else { n * W[ty] };
                // anywhere in the heap, overlapping other arrays or not
                let off = if choose(2) == 0 { 0 } else { heap_len - len };
                vals(&mut out, ty, ci, n, &heap[off..off + len]);
                if c.ty < 22 { main.extend_from_slice(&(n as u32).to_be_bytes()); main.extend_from_slice(&(off as u32).to_be_bytes()); } else { main.extend_from_slice(&(n as u64).to_be_bytes()); main.extend_from_slice(&(off as u64).to_be_bytes()); }
            }
            row.push(out);
        }
        rows.push(row);
    }
    let mut f = image(false, 8, &[]).end();
    let mut h = H::new();
    h.str(b"XTENSION", b"BINTABLE").int(b"BITPIX", 8).int(b"NAXIS", 2).int(b"NAXIS1", w as i64).int(b"NAXIS2", nrows as i64).int(b"PCOUNT", (gap + heap_len) as i64).int(b"GCOUNT", 1).int(b"TFIELDS", cols.len() as i64);
    for (i, c) in cols.iter().enumerate() { h.strn(b"TTYPE", i + 1, name(i).as_bytes()); h.strn(b"TFORM", i + 1, &c.tform()); }
    if gap > 0 { h.int(b"THEAP", (main.len() + gap) as i64); }
    f.extend(h.end());
    let start = f.len();
    let size = main.len() + gap + heap_len;
    f.extend(main); f.resize(f.len() + gap, 0xee); f.extend(heap);
    pad(&mut f, 0);
    T { file: f, start, size, rows }
}
pub fn cols_from(at: usize, n: usize) -> Vec<Col> { if n >= 200 { return (0..n - 200).map(|i| Col { ty: [2, 3, 6, 0, 4][i % 5], rep: 1 + (i % 7 == 3) as usize }).collect(); } (0..n).map(|i| Col { ty: param(at + 2 * i), rep: param(at + 2 * i + 1) }).collect() }
fn select(cols: &[Col], k: usize) -> (Vec<ColumnId>, Vec<usize>) {
    let n = cols.len();
    let mut ids = vec![]; let mut want = vec![false; n];
    for _ in 0..k { let x = if n <= 12 { choose(2 * n + 2) } else { [0, 8, 9, 10, n - 1, n + 9, 2 * n][choose(7)] }; ids.push(if x < n { ColumnId::Index(x) } else if x < 2 * n { ColumnId::Name(NAMES[x - n]) } else if x == 2 * n { ColumnId::Index(n) } else { ColumnId::Name("NOSUCH") }); if x < 2 * n { want[x % n] = true; } }
    (ids, (0..n).filter(|&i| want[i]).collect())
}
fn row(n: usize) -> usize { if n <= 8 { choose(n) } else { [0, 1, n / 2, n - 1][choose(4)] } }
/// params: selection size (99: none), operations (seek or next, each chosen) before, a selection after the operations instead of before?, finish (0 values, 1 rows, 2 raw bytes), rows, gap (plus 100 * how TFORMs are written), columns (200 + n: that many of mixed types), then type and repeat of each
pub fn h_table() {
    let (k, ops, late, fin, nrows, gap, n) = (param(0), param(1), param(2), param(3), param(4), param(5) % 100, param(6));
    FORM.store(param(5) / 100, std::sync::atomic::Ordering::Relaxed);
    let cols = cols_from(7, n); let n = cols.len();
    let t = table(&cols, nrows, gap);
    let mut f = t.file.clone();
    let mut tail = image(true, 16, &[]); tail.str(b"EXTNAME", b"NEXT"); f.extend(tail.end());
    let mut fits = Fits::from_reader(Cursor::new(f));
    if !matches!(fits.next(), Some(Ok(HDU::Primary(_)))) { check(false, 1); return; }
    let hdu = match fits.next() { Some(Ok(HDU::XBinaryTable(h))) => h, _ => { check(false, 2); return; } };
    let x = hdu.get_header().get_xtension();
    check(x.get_num_rows() == nrows && x.get_num_cols() == n, 3);
    for i in 0..n { check(x.find_field_by_ttype(&name(i)) == Some(i), 4); }
    check(hdu.get_data_unit_byte_size() == t.size as u64 && hdu.get_data_unit_byte_offset() == t.start as u64, 5);
    {
        let mut data = match fits.get_data(&hdu) { BinaryTableData::Table(d) => d, _ => { check(false, 6); return; } };
        let mut sel: Vec<usize> = (0..n).collect();
        let mut chosen = None;
        if k != 99 { let (ids, w) = select(&cols, k); if late == 0 { data.select_fields(&ids); sel = w; } else { chosen = Some((ids, w)); } }
        // model: the flat list of the selected values, and where the reader stands
        let flat = |sel: &[usize]| { let mut v: Vec<(usize, V)> = vec![]; for (r, row) in t.rows.iter().enumerate() { for &c in sel { for x in &row[c] { v.push((r, *x)); } } } v };
        let first = |v: &[(usize, V)], r: usize| { let mut p = 0; while p < v.len() && v[p].0 < r { p += 1; } p };
        let mut list = flat(&sel); let mut p = 0;
        // the row the reader is in, when that is decided by what was read so far: after a seek, or after every value of the row was read
        for _ in 0..ops {
            let op = if nrows <= 8 { choose(nrows + 2) } else { [0, 1, nrows / 2, nrows - 1, nrows, nrows + 1][choose(6)] };
            if op < nrows { check(data.seek_to_row(op).is_ok(), 7); p = first(&list, op); cover(2); }
            else if op == nrows { check(data.seek_to_row(nrows).is_err(), 8); }
            else { let g = data.next(); if p < list.len() { match g { Some(g) => check(same(&fp(&g), &list[p].1), 9), None => check(false, 10) } p += 1; } else { check(g.is_none(), 11); } cover(3); }
        }
        if let Some((ids, w)) = chosen {
            // selecting columns then seeking restarts at that row, whatever was read before
            data.select_fields(&ids); sel = w; list = flat(&sel);
            if nrows > 0 { let r = row(nrows); check(data.seek_to_row(r).is_ok(), 12); p = first(&list, r); }
        }
        match fin {
            0 => {
                let mut q = p;
                while let Some(g) = data.next() { if q >= list.len() { check(false, 13); break; } let g = fp(&g); observe(g[0]); observe(g[3]); check(same(&g, &list[q].1), 14); q += 1; }
                check(q == list.len(), 15);
                check(data.next().is_none(), 16);
            }
            1 => {
                // rows from here: seek first, so that the current row is known
                let r0 = if nrows > 0 { row(nrows) } else { 0 };
                if nrows > 0 { check(data.seek_to_row(r0).is_ok(), 17); }
                let mut it = data.row_iter();
                let live = sel.iter().any(|&c| cols[c].width() > 0);
                let mut r = r0;
                if live { while r < nrows {
                    check(it.get_row_idx() == r, 18);
                    match it.next() {
                        Some(row) => {
                            let want: Vec<V> = sel.iter().flat_map(|&c| t.rows[r][c].clone()).collect();
                            if row.len() != want.len() { check(false, 19); break; }
                            for i in 0..want.len() { let g = fp(&row[i]); observe(g[3]); check(same(&g, &want[i]), 20); }
                        }
                        None => { check(false, 21); break; }
                    }
                    r += 1;
                } }
                check(it.next().is_none(), 22);
            }
            _ => { let b = data.raw_bytes(); check(b.len() == t.size && b == &t.file[t.start..t.start + t.size], 23); }
        }
    }
    match fits.next() { Some(Ok(HDU::XImage(h))) => { check(h.get_header().get_parsed::<String>("EXTNAME").ok().as_deref() == Some("NEXT"), 24); cover(1); } _ => check(false, 25) }
}
/// A single array descriptor of arbitrary bytes: the array is read when it lies in the data unit; whatever the descriptor, nothing panics and no value is made up.
/// params: Q descriptor?, element type, heap bytes, gap, row iteration?
pub fn h_descriptor() {
    let (q, ty, hl, gap, rows, tail) = (param(0) == 1, param(1), param(2), param(3), param(4) == 1, param(5) == 1);
    let d = vec(if q { 16 } else { 8 });
    let heap = vec(hl);
    let (n, off) = (be(&d[..d.len() / 2]), be(&d[d.len() / 2..]));
    let c = Col { ty: if q { 22 + ty } else { 11 + ty }, rep: 9 };
    let mut h = H::new();
    h.str(b"XTENSION", b"BINTABLE").int(b"BITPIX", 8).int(b"NAXIS", 2).int(b"NAXIS1", d.len() as i64 + 1).int(b"NAXIS2", 1).int(b"PCOUNT", (gap + hl) as i64).int(b"GCOUNT", 1).int(b"TFIELDS", 2);
    h.strn(b"TFORM", 1, &c.tform()).strn(b"TFORM", 2, b"1B");
    if gap > 0 { h.int(b"THEAP", (d.len() + 1 + gap) as i64); }
    let mut f = image(false, 8, &[]).end();
    f.extend(h.end());
    let last = byte();
    f.extend_from_slice(&d); f.push(last); f.resize(f.len() + gap, 0xee); f.extend_from_slice(&heap);
    // the file ends with the heap, or goes on
    if tail { pad(&mut f, 0x11); f.extend(image(true, 16, &[]).end()); }
    let mut fits = Fits::from_reader(Cursor::new(f));
    if !matches!(fits.next(), Some(Ok(HDU::Primary(_)))) { check(false, 1); return; }
    let hdu = match fits.next() { Some(Ok(HDU::XBinaryTable(h))) => h, _ => { check(false, 2); return; } };
    let data = match fits.get_data(&hdu) { BinaryTableData::Table(d) => d, _ => { check(false, 3); return; } };
    let mut got: Vec<V> = vec![];
    if rows { for r in data.row_iter() { for v in r.iter() { got.push(fp(v)); } } } else { for v in data { got.push(fp(&v)); if got.len() > hl + 2 { check(false, 4); return; } } }
    // how many elements the descriptor names, when they all lie in the heap
    let fits_in = { let w = if ty == 1 { 1 } else { W[ty] as u64 }; let k = if ty == 1 { n / 8 + (n % 8 != 0) as u64 } else { n }; (off <= hl as u64) & (k <= (hl as u64) / w) & (k.wrapping_mul(w) <= (hl as u64).wrapping_sub(off)) };
    observe(got.len() as u64);
    // an empty array lies anywhere
    if (n == 0) | fits_in {
        let n = conc(n as usize); let off = if n == 0 { 0 } else { conc(off as usize) };
        let mut want = vec![]; let len = if ty == 1 { (n + 7) / 8 } else { n * W[ty] };
        if n > 0 { vals(&mut want, ty, 0, n, &heap[off..off + len]); }
        want.push(val(2, 1, 0, &[last]));
        check(got.len() == want.len(), 5);
        if got.len() == want.len() { for i in 0..want.len() { check(same(&got[i], &want[i]), 6); } }
        cover(1);
    } else { check(got.is_empty(), 7); cover(2); }
    if tail { check(matches!(fits.next(), Some(Ok(HDU::XImage(_)))), 8); check(fits.next().is_none(), 9); }
}

/// Columns are found by their exact name.
/// params: length of the name looked for, columns, then the length of each one's name (0: no TTYPE; 100 + k: a constant name COLk)
pub fn h_colname() {
    let (q, n) = (param(0), param(1));
    let word = |k: usize| { let v = vec(k); for &b in &v { assume(((b >= b'A') & (b <= b'Z')) | ((b >= b'0') & (b <= b'9')) | (b == b'_')); } v };
    let query = word(q);
    let mut names: Vec<Option<Vec<u8>>> = vec![];
    for i in 0..n { let l = param(2 + i); let v = if l == 0 { None } else if l >= 100 { let mut v = b"COL".to_vec(); v.extend(dec(l as u64 - 100)); Some(v) } else { Some(word(l)) }; if let Some(v) = &v { for w in names.iter().flatten() { assume(v != w); } } names.push(v); }
    let mut h = H::new();
    h.str(b"XTENSION", b"BINTABLE").int(b"BITPIX", 8).int(b"NAXIS", 2).int(b"NAXIS1", n as i64).int(b"NAXIS2", 2).int(b"PCOUNT", 0).int(b"GCOUNT", 1).int(b"TFIELDS", n as i64);
    for i in 0..n { if let Some(v) = &names[i] { h.strn(b"TTYPE", i + 1, v); } h.strn(b"TFORM", i + 1, b"1B"); }
    let data = vec(2 * n);
    let mut f = image(false, 8, &[]).end();
    f.extend(h.end()); f.extend_from_slice(&data); pad(&mut f, 0);
    let mut fits = Fits::from_reader(Cursor::new(f));
    if !matches!(fits.next(), Some(Ok(HDU::Primary(_)))) { check(false, 1); return; }
    let hdu = match fits.next() { Some(Ok(HDU::XBinaryTable(h))) => h, _ => { check(false, 2); return; } };
    let mut want = None;
    for i in 0..n { if let Some(v) = &names[i] { if v.len() == q && *v == query { want = Some(i); } } }
    let query: &'static str = Box::leak(String::from_utf8(query).unwrap().into_boxed_str());
    check(hdu.get_header().get_xtension().find_field_by_ttype(query) == want, 3);
    let mut data_ = match fits.get_data(&hdu) { BinaryTableData::Table(d) => d, _ => { check(false, 4); return; } };
    data_.select_fields(&[ColumnId::Name(query)]);
    match want {
        Some(i) => { for r in 0..2 { match data_.next() { Some(v) => check(same(&fp(&v), &val(2, i, 0, &data[r * n + i..r * n + i + 1])), 5), None => check(false, 6) } } check(data_.next().is_none(), 7); cover(1); }
        None => { check(data_.next().is_none(), 8); cover(2); }
    }
}
