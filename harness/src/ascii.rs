//! ASCII tables: their columns and their data bytes.
use crate::build::*;
use crate::sym::*;
use fitsrs::hdu::header::extension::asciitable::TFormAsciiTable as F;
use fitsrs::hdu::HDU;
use fitsrs::Fits;
use std::io::{BufRead, Cursor, Read};

fn num(d: &[u8]) -> u64 { let mut x = 0u64; for b in d { x = x * 10 + dv(*b) as u64; } x }
/// params: row width, rows, how the data are read (0 to the end, 1 `k` bytes, 2 lines of the row width, 3 not at all), k, digits of TBCOL, digits of the field width, digits of the decimals,
/// columns, then the kind of each (0..=4: AIFED, 5: no TFORM, 6: an unknown letter, 7: no TBCOL), trailing blanks in TFORM as kind / 10
pub fn h_ascii() {
    let (w, nrows, how, k, nb, nw, nd, n) = (param(0), param(1), param(2), param(3), param(4), param(5), param(6), param(7));
    let mut h = H::new();
    h.str(b"XTENSION", b"TABLE").int(b"BITPIX", 8).int(b"NAXIS", 2).int(b"NAXIS1", w as i64).int(b"NAXIS2", nrows as i64).int(b"PCOUNT", 0).int(b"GCOUNT", 1).int(b"TFIELDS", n as i64);
    let mut want: Vec<(u64, usize, u64, u64)> = vec![];
    for i in 0..n {
        let (kind, blanks) = if n > 8 { (i % 5, i % 2) } else { (param(8 + i) % 10, param(8 + i) / 10) };
        let (b, ww, d) = if n <= 8 || i == 0 || i + 1 == n { (digits(nb), digits(nw), digits(nd)) } else { (dec(3 * i as u64 + 1), dec(i as u64 + 2), dec(i as u64 % 13)) };
        let mut kb = b"TBCOL".to_vec(); kb.extend(dec(i as u64 + 1));
        if kind != 7 { h.val(&kb, &b); }
        let mut t = vec![b"AIFEDAZA"[kind]]; t.extend_from_slice(&ww);
        let real = (2..=4).contains(&kind);
        if real { t.push(b'.'); t.extend_from_slice(&d); }
        for _ in 0..blanks { t.push(b' '); }
        if kind != 5 { h.strn(b"TFORM", i + 1, &t); }
        if kind < 5 { want.push((num(&b), kind, num(&ww), if real { num(&d) } else { 0 })); }
    }
    let data = some(w * nrows, 64);
    let mut f = image(false, 8, &[]).end();
    f.extend(h.end());
    let start = f.len();
    f.extend_from_slice(&data);
    pad(&mut f, b' ');
    f.extend(image(true, 16, &[]).str(b"EXTNAME", b"NEXT").end());
    let mut fits = Fits::from_reader(Cursor::new(f));
    if !matches!(fits.next(), Some(Ok(HDU::Primary(_)))) { check(false, 1); return; }
    let hdu = match fits.next() { Some(Ok(HDU::XASCIITable(h))) => h, _ => { check(false, 2); return; } };
    let x = hdu.get_header().get_xtension();
    check(x.get_naxis1() == w as u64 && x.get_naxis2() == nrows as u64, 3);
    check(x.get_num_rows() == nrows && x.get_num_cols() == n && x.get_tfields() == n, 4);
    check(x.get_pcount() == 0 && x.get_gcount() == 1, 5);
    check(hdu.get_data_unit_byte_size() == (w * nrows) as u64 && hdu.get_data_unit_byte_offset() == start as u64, 6);
    if x.get_tbcols().len() != want.len() || x.get_tforms().len() != want.len() { check(false, 7); return; }
    for (i, (b, kind, ww, d)) in want.iter().enumerate() {
        check(x.get_tbcols()[i] == *b, 8);
        observe(x.get_tbcols()[i]);
        let (gk, gw, gd) = match x.get_tforms()[i] { F::Character { w } => (0, w, 0), F::DecimalInteger { w } => (1, w, 0), F::FloatingPointFixed { w, d } => (2, w, d), F::EFloatingPointExp { w, d } => (3, w, d), F::DFloatingPointExp { w, d } => (4, w, d) };
        check(gk == *kind, 9);
        check(gw as u64 == *ww, 10);
        check(gd as u64 == *d, 11);
    }
    let same = |g: &[u8], at: usize| { if at + g.len() > data.len() { check(false, 12); return; } for (i, b) in g.iter().enumerate() { check(*b == data[at + i], 13); } observe_bytes(g); };
    match how {
        0 => { let mut v = vec![]; check(fits.get_data(&hdu).read_to_end(&mut v).is_ok(), 14); check(v.len() == data.len(), 15); same(&v, 0); }
        1 => { let mut v = vec![0; k]; let mut r = fits.get_data(&hdu); let ok = r.read_exact(&mut v).is_ok(); check(ok == (k <= data.len()), 16); if ok { same(&v, 0); } }
        2 => {
            let mut r = fits.get_data(&hdu); let mut v = vec![0; w];
            for i in 0..nrows { if r.read_exact(&mut v).is_err() { check(false, 17); return; } same(&v, i * w); }
            match r.fill_buf() { Ok(b) => check(b.is_empty(), 18), Err(_) => check(false, 19) }
        }
        _ => {}
    }
    match fits.next() { Some(Ok(HDU::XImage(h))) => check(h.get_header().get_parsed::<String>("EXTNAME").ok().as_deref() == Some("NEXT"), 20), _ => { check(false, 21); return; } }
    check(fits.next().is_none(), 22);
    cover(1);
}
