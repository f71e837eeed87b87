//! What an HDU is, and which headers are refused.
use crate::build::*;
use crate::sym::*;
use fitsrs::hdu::{AsyncHDU, HDU};
use fitsrs::{AsyncFits, Fits};
use futures::io::BufReader;
use futures::StreamExt;
use std::io::Cursor;
use std::task::{Context, Poll};

/// what the HDU list yields: 0 primary, 1 image, 2 binary table, 3 ASCII table, 8 error, 9 end
fn walk(f: Vec<u8>, asyn: bool, n: usize) -> Vec<usize> {
    let mut out = vec![];
    if asyn {
        let mut fits = AsyncFits::from_reader(BufReader::new(&f[..]));
        let w = crate::asyn::waker();
        let mut cx = Context::from_waker(&w);
        for _ in 0..n { out.push(match fits.poll_next_unpin(&mut cx) { Poll::Ready(None) => 9, Poll::Ready(Some(Err(_))) => 8, Poll::Ready(Some(Ok(AsyncHDU::Primary(_)))) => 0, Poll::Ready(Some(Ok(AsyncHDU::XImage(_)))) => 1, Poll::Ready(Some(Ok(AsyncHDU::XBinaryTable(_)))) => 2, Poll::Ready(Some(Ok(AsyncHDU::XASCIITable(_)))) => 3, Poll::Pending => 7 }); }
    } else {
        let mut fits = Fits::from_reader(Cursor::new(f));
        for _ in 0..n { out.push(match fits.next() { None => 9, Some(Err(_)) => 8, Some(Ok(HDU::Primary(_))) => 0, Some(Ok(HDU::XImage(_))) => 1, Some(Ok(HDU::XBinaryTable(_))) => 2, Some(Ok(HDU::XASCIITable(_))) => 3 }); }
    }
    for k in &out { observe(*k as u64); }
    out
}
fn expect(got: &[usize], want: &[usize], id: u32) { for i in 0..want.len() { check(got[i] == want[i], id + i as u32); } }
fn eq(a: &[u8], b: &[u8]) -> bool { if a.len() != b.len() { return false; } let mut ok = true; for i in 0..a.len() { ok &= a[i] == b[i]; } ok }
/// params: async?, what is varied (0: first card of the file, 1: the XTENSION value), template, position, window of printable characters
pub fn h_kind() {
    let (asyn, what, tpl, pos, w) = (param(0) != 0, param(1), param(2), param(3), param(4));
    if what == 0 {
        let mut card: Vec<u8> = b"SIMPLE  =                    T".to_vec();
        let t = text(w);
        card[pos..pos + w].copy_from_slice(&t);
        // in the keyword: blanks after it only; in the value: only T is accepted
        let v: Vec<u8> = card[10..].iter().filter(|b| **b != b' ').copied().collect();
        let good = eq(&card[..10], b"SIMPLE  = ") && eq(&v, b"T");
        // the standard does not allow anything else after a T, comments aside; not judged
        assume(eq(&v, b"T") || v.first() != Some(&b'T'));
        let mut h = H::new();
        h.raw(&card).int(b"BITPIX", 8).int(b"NAXIS", 0);
        let mut f = h.end();
        f.extend(image(true, 16, &[]).end());
        let got = walk(f, asyn, 4);
        if good { cover(1); expect(&got, &[0, 1, 9, 9], 10); } else { cover(2); expect(&got, &[8, 9, 9, 9], 20); }
    } else {
        let mut v: Vec<u8> = [&b"IMAGE   "[..], b"IUEIMAGE", b"TABLE   ", b"BINTABLE"][tpl].to_vec();
        let t = text(w);
        v[pos..pos + w].copy_from_slice(&t);
        for b in &t { assume((*b != b'\'') & (*b != b'/')); }
        let mut kind = 8;
        for (k, name) in [(1, &b"IMAGE"[..]), (1, b"IUEIMAGE"), (3, b"TABLE"), (2, b"BINTABLE")] {
            let mut n = name.to_vec(); n.resize(8, b' ');
            if eq(&v, &n) { kind = k; }
        }
        // leading blanks are significant in FITS strings: left out
        if kind == 8 { assume(v[0] != b' '); cover(2); } else { cover(1); }
        let mut f = image(false, 8, &[]).end();
        let mut h = H::new();
        h.str(b"XTENSION", &v).int(b"BITPIX", 8).int(b"NAXIS", 2).int(b"NAXIS1", 0).int(b"NAXIS2", 1).int(b"PCOUNT", 0).int(b"GCOUNT", 1).int(b"TFIELDS", 0);
        f.extend(h.end());
        f.extend(image(true, 16, &[]).end());
        let got = walk(f, asyn, 5);
        if kind == 8 { expect(&got, &[0, 8, 9, 9, 9], 30); } else { expect(&got, &[0, kind, 1, 9, 9], 40); }
    }
}
const KEYS: [&[u8]; 8] = [b"BITPIX", b"NAXIS", b"NAXIS1", b"NAXIS2", b"PCOUNT", b"GCOUNT", b"TFIELDS", b"END"];
/// params: async?, kind (0 primary, 1 image, 2 binary table, 3 ASCII table), keyword (index in KEYS), digits of its value, sign (0 none, 1 minus), what instead of a number (0 the number, 1 card left out, 2 a string, 3 a logical, 4 a real, 5 no value)
pub fn h_mandatory() {
    let (asyn, kind, key, nd, sign, how) = (param(0) != 0, param(1), param(2), param(3), param(4), param(5));
    let mut f = if kind == 0 { vec![] } else { image(false, 8, &[]).end() };
    let mut h = H::new();
    match kind { 0 => h.val(b"SIMPLE", b"                   T"), 1 => h.str(b"XTENSION", b"IMAGE"), 2 => h.str(b"XTENSION", b"BINTABLE"), _ => h.str(b"XTENSION", b"TABLE") };
    let def = [8i64, 2, if kind == 2 { 0 } else { 1 }, 1, 0, 1, 0];
    let d = digits(nd);
    let mut v = 0i64; for b in &d { v = v * 10 + dv(*b); }
    if sign == 1 { v = -v; }
    for i in 0..7 {
        if kind == 0 && i >= 4 || kind == 1 && i == 6 { continue; }
        if i != key { h.int(KEYS[i], def[i]); continue; }
        match how {
            1 => {}
            2 => { h.str(KEYS[i], b"8"); }
            3 => { h.val(KEYS[i], b"                   T"); }
            4 => { h.val(KEYS[i], b"                 1.5"); }
            5 => { h.val(KEYS[i], b""); }
            _ => { let mut t = vec![b' ']; if sign == 1 { t.push(b'-'); } t.extend_from_slice(&d); h.val(KEYS[i], &t); }
        }
    }
    f.extend(h.end());
    // one data byte and padding, or none
    let ok = if how != 0 { kind == 1 && key >= 4 } else { match key {
        0 => if kind < 2 { (v == 8) | (v == 16) | (v == 32) | (v == 64) | (v == -32) | (v == -64) } else { v == 8 },
        1 => if kind < 2 { (v >= 0) & (v <= 2) } else { v == 2 },
        // the columns of a binary table fill its rows
        2 if kind == 2 => v == 0,
        2 | 3 => v >= 0,
        4 => if kind == 1 { true } else if kind == 2 { v >= 0 } else { v == 0 },
        5 => if kind == 1 { true } else { v == 1 },
        _ => (v >= 0) & (v <= 999),
    } };
    // a data unit of up to 8 bytes whatever the size
    f.resize(f.len() + 2880, 0);
    f.extend(image(true, 16, &[]).end());
    let got = walk(f, asyn, 2 + (kind != 0) as usize);
    let p = (kind != 0) as usize;
    if p == 1 { check(got[0] == 0, 1); }
    if ok { cover(1); check(got[p] == kind, 2); } else { cover(2); check(got[p] == 8, 3); check(got[p + 1] == 9, 4); }
}
const ODD: [&[u8]; 12] = [b"CMPLX   = (1.0, 2.0)", b"LONE    = '", b"OPEN    = 'abc", b"BAD     = 1.2.3 / x", b"COMMENT text", b"HISTORY text", b"", b"LONG    = 'abc&' / c1", b"CONTINUE  'def' / c2", b"HIERARCH ESO A B = 3 / [m]", b"nokey     value", b"CONTINUE 5"];
/// Both readers find the same HDUs, headers and cards.
/// params: template (of the damaged files), card that is varied (999: none), position in it, arbitrary bytes there, odd card appended and varied (99: none), position in it, arbitrary bytes there, filler cards, bytes cut from the end of the file
pub fn h_parity() {
    let (t, card, pos, w, odd, opos, ow, fill, cut) = (param(0), param(1), param(2), param(3), param(4), param(5), param(6), param(7), param(8));
    let (mut cards, data) = crate::robust::template(t);
    if card < cards.len() { cards[card].resize(80, b' '); let b = vec(w); cards[card][pos..pos + w].copy_from_slice(&b); }
    for _ in 0..fill { cards.push(b"COMMENT filler".to_vec()); }
    for (i, o) in ODD.iter().enumerate() {
        let mut v = o.to_vec(); v.resize(80, b' ');
        if i == odd { let b = vec(ow); v[opos..opos + ow].copy_from_slice(&b); }
        if odd != 99 { cards.push(v); }
    }
    let mut f = if t == 0 { vec![] } else { image(false, 8, &[]).end() };
    let mut h = H::new();
    for c in &cards { h.raw(c); }
    f.extend(h.end()); f.extend(data); pad(&mut f, 0);
    f.extend(image(true, 16, &[]).end());
    let n = f.len(); f.truncate(n - cut);
    let mut af = AsyncFits::from_reader(BufReader::new(&f[..]));
    let mut sf = Fits::from_reader(Cursor::new(f.clone()));
    let w = crate::asyn::waker();
    for i in 0..4 {
        let a = match af.poll_next_unpin(&mut Context::from_waker(&w)) { Poll::Ready(a) => a, Poll::Pending => { check(false, 1); return; } };
        let s = sf.next();
        let end: Option<u64> = match &s {
            Some(Ok(HDU::Primary(h))) => h.get_data_unit_byte_offset().checked_add(h.get_data_unit_byte_size()),
            Some(Ok(HDU::XImage(h))) => h.get_data_unit_byte_offset().checked_add(h.get_data_unit_byte_size()),
            Some(Ok(HDU::XBinaryTable(h))) => h.get_data_unit_byte_offset().checked_add(h.get_data_unit_byte_size()),
            Some(Ok(HDU::XASCIITable(h))) => h.get_data_unit_byte_offset().checked_add(h.get_data_unit_byte_size()),
            _ => Some(0),
        };
        match (a, s) {
            (None, None) => { cover(1); observe(90 + i); }
            (Some(Err(_)), Some(Err(_))) => { cover(2); observe(80 + i); }
            (Some(Ok(AsyncHDU::Primary(a))), Some(Ok(HDU::Primary(s)))) => { check(a.get_header() == s.get_header(), 2); check(a.get_header().cards().count() == s.get_header().cards().count(), 3); }
            (Some(Ok(AsyncHDU::XImage(a))), Some(Ok(HDU::XImage(s)))) => check(a.get_header() == s.get_header(), 4),
            (Some(Ok(AsyncHDU::XBinaryTable(a))), Some(Ok(HDU::XBinaryTable(s)))) => check(a.get_header() == s.get_header(), 5),
            (Some(Ok(AsyncHDU::XASCIITable(a))), Some(Ok(HDU::XASCIITable(s)))) => check(a.get_header() == s.get_header(), 6),
            _ => { check(false, 7); return; }
        }
        // what follows a data unit the file is too short for is not judged
        if end.map_or(true, |e| e > (n - cut) as u64) { cover(3); return; }
    }
}
/// An extension is named by its first card: others called XTENSION or SIMPLE change nothing.
/// params: async?, which HDU (0 primary, 1 extension), first card (0 as it should be, 1 missing, 2 preceded by another card, 3 preceded by an XTENSION of another kind), kind of the stray card, position of the stray card (index; 99: none)
pub fn h_first() {
    let (asyn, ext, first, stray, at) = (param(0) != 0, param(1) == 1, param(2), param(3), param(4));
    let d = digits(1);
    let simple: Vec<u8> = b"SIMPLE  =                    T".to_vec();
    let xt = |k: usize| { let mut v = b"XTENSION= '".to_vec(); v.extend_from_slice([&b"IMAGE   "[..], b"TABLE   ", b"BINTABLE"][k]); v.push(b'\''); v };
    let mut cards: Vec<Vec<u8>> = vec![];
    match first { 0 => cards.push(if ext { xt(0) } else { simple.clone() }), 2 => { let mut v = b"OBJECT  = ".to_vec(); v.extend_from_slice(&d); cards.push(v); cards.push(if ext { xt(0) } else { simple.clone() }); } 3 => { cards.push(xt(2)); cards.push(if ext { xt(0) } else { simple.clone() }); } _ => {} }
    for (k, v) in [(&b"BITPIX  = "[..], 8u64), (b"NAXIS   = ", 2), (b"NAXIS1  = ", 1), (b"NAXIS2  = ", 0), (b"PCOUNT  = ", 0), (b"GCOUNT  = ", 1), (b"TFIELDS = ", 0)] { let mut c = k.to_vec(); c.extend(dec(v)); cards.push(c); }
    let s = match stray { 0..=2 => xt(stray), 3 => simple.clone(), _ => b"XTENSION= 'OTHER   '".to_vec() };
    if at < cards.len() { cards.insert(at, s); } else if at < 99 { cards.push(s); }
    let mut f = if ext { image(false, 8, &[]).end() } else { vec![] };
    let mut h = H::new();
    for c in &cards { h.raw(c); }
    f.extend(h.end());
    f.extend(image(true, 16, &[]).end());
    let got = walk(f, asyn, 5);
    let lead = &cards[0];
    // what the first card says
    let kind = if ext { if eq(lead, &xt(0)) { 1 } else if eq(lead, &xt(1)) { 3 } else if eq(lead, &xt(2)) { 2 } else { 8 } } else if eq(lead, &simple) { 0 } else { 8 };
    // a table whose columns do not fill its rows is not judged
    if kind == 2 { assume(false); }
    let p = ext as usize;
    if ext { check(got[0] == 0, 1); }
    if kind == 8 { check(got[p] == 8, 2); check(got[p + 1] == 9, 3); cover(2); } else { check(got[p] == kind, 4); check(got[p + 1] == 1, 5); check(got[p + 2] == 9, 6); cover(1); }
}
