//! Whole headers: long strings, the keyword map, typed access, units.
use crate::build::*;
use crate::cards::{card_of, quote, rtrim};
use crate::sym::*;
use fitsrs::card::{Card, Value};
use fitsrs::hdu::header::extension::image::Image;
use fitsrs::hdu::header::Header;
use fitsrs::hdu::HDU;
use fitsrs::Fits;
use std::convert::TryFrom;
use std::io::Cursor;

fn start() -> H { image(false, 8, &[]) }
pub fn with_header(h: &mut H, f: impl FnOnce(&Header<Image>)) {
    let mut fits = Fits::from_reader(Cursor::new(h.end()));
    match fits.next() { Some(Ok(HDU::Primary(x))) => f(x.get_header()), _ => check(false, 99) }
}
fn string<'a>(h: &'a Header<Image>, k: &str) -> Option<(&'a [u8], Option<&'a [u8]>)> { match h.get(k) { Some(Value::String { value, comment }) => Some((value.as_bytes(), comment.as_ref().map(|c| c.as_bytes()))), _ => None } }
fn piece(prefix: &[u8], s: &[u8], amp: bool, comment: Option<&[u8]>) -> Vec<u8> {
    let mut t = s.to_vec(); if amp { t.push(b'&'); }
    let mut v = prefix.to_vec(); v.extend(quote(&t)); if let Some(c) = comment { v.extend_from_slice(b" /"); v.extend_from_slice(c); } v
}
/// A string spread over CONTINUE records reads as the concatenation of its pieces.
/// params: kind (0 value card, 1 HIERARCH), pieces, characters per piece, comments (bit i: piece i has one), what follows
/// (0 another keyword, 1 COMMENT then an orphaned CONTINUE, 2 the last piece ends with an ampersand, then another keyword, 3 END,
///  4 the last piece ends with an ampersand, then COMMENT, then a CONTINUE, 5 same with a blank card, 6 same with XTENSION-less Undefined card)
pub fn h_header_continue() {
    let (kind, k, n, cm, after) = (param(0), param(1), param(2), param(3), param(4));
    let (name, prefix): (&str, &[u8]) = if kind == 0 { ("LONGSTR", b"LONGSTR = ") } else { ("A.B", b"HIERARCH A B = ") };
    let mut h = start();
    h.int(b"BEFORE", 7);
    let last_amp = matches!(after, 2 | 4 | 5 | 6);
    let mut want = vec![]; let mut wc: Option<Vec<u8>> = None;
    for i in 0..k {
        let last = i + 1 == k;
        let s = text(n);
        if last && !last_amp { if n > 0 { assume(rtrim(&s).last() != Some(&b'&')); } }
        let c: Option<&[u8]> = if cm >> i & 1 == 1 { Some(&b"cmt"[..1 + i % 3]) } else { None };
        h.raw(&piece(if i == 0 { prefix } else { b"CONTINUE  " }, &s, !last || last_amp, c));
        want.extend_from_slice(&s);
        if last && last_amp { want.push(b'&'); }
        if let Some(c) = c { match &mut wc { None => wc = Some(c.to_vec()), Some(w) => { w.push(b'\n'); w.extend_from_slice(c); } } }
    }
    match after {
        0 | 2 => { h.int(b"AFTER", 8); }
        1 => { h.raw(b"COMMENT c").raw(b"CONTINUE  'orphan' / o").int(b"AFTER", 8); }
        4 => { h.raw(b"COMMENT c").raw(b"CONTINUE  'orphan' / o").int(b"AFTER", 8); }
        5 => { h.raw(b"").raw(b"CONTINUE  'orphan' / o").int(b"AFTER", 8); }
        6 => { h.raw(b"FOO       bar").raw(b"CONTINUE  'orphan' / o").int(b"AFTER", 8); }
        _ => {}
    }
    with_header(&mut h, |h| {
        match string(h, name) {
            Some((v, c)) => {
                observe_bytes(v);
                let want: &[u8] = if k == 1 && !last_amp { crate::cards::string_value(&want) } else { rtrim(&want) };
                check(v == want, 1);
                check(c == wc.as_deref(), 2);
            }
            None => check(false, 3),
        }
        check(h.get_parsed::<i64>("BEFORE") == Ok(7), 4);
        if after != 3 { check(h.get_parsed::<i64>("AFTER") == Ok(8), 5); }
        check(h.get("CONTINUE").is_none() && h.get("COMMENT").is_none(), 6);
        cover(1);
    });
}
/// The keyword map: every value card is found under its keyword, the last of repeated keywords wins, in order of first appearance; cards() lists every card, in order.
/// params: digits
pub fn h_header_map() {
    let nd = param(0);
    let (a, b, c, d) = (digits(nd), digits(nd), digits(nd), digits(nd));
    let txt = text(3); assume((txt[0] != b' ') & (txt[2] != b' '));
    let num = |x: &[u8]| { let mut r = 0i64; for y in x { r = r * 10 + dv(*y); } r };
    let mut h = start();
    let base = h.b.len() / 80;
    h.val(b"K1", &a).val(b"K2", &b);
    let mut hi = b"HISTORY ".to_vec(); hi.extend_from_slice(&txt); h.raw(&hi);
    h.raw(b"COMMENT K1      = 3").val(b"K1", &c).raw(b"HISTORY two");
    let mut hh = b"HIERARCH X Y = ".to_vec(); hh.extend_from_slice(&d); h.raw(&hh);
    h.raw(b"").raw(b"NOVALUE   x");
    let all = { let mut v = h.b.clone(); v.extend_from_slice(&card_of(b"END").unwrap()); v };
    with_header(&mut h, |h| {
        check(matches!(h.get("K1"), Some(Value::Integer { value, comment: None }) if *value == num(&c)), 1);
        check(matches!(h.get("K2"), Some(Value::Integer { value, .. }) if *value == num(&b)), 2);
        check(matches!(h.get("X.Y"), Some(Value::Integer { value, .. }) if *value == num(&d)), 3);
        check(h.get("K3").is_none() && h.get("NOVALUE").is_none() && h.get("HISTORY").is_none() && h.get("k1").is_none(), 4);
        let ks: Vec<&String> = h.keywords().collect();
        let want = ["SIMPLE", "BITPIX", "NAXIS", "K1", "K2", "X.Y"];
        check(ks.len() == want.len() && ks.iter().zip(want).all(|(a, b)| a.as_str() == b), 5);
        check(h.iter().map(|(k, _)| k).eq(want), 6);
        let hist: Vec<&[u8]> = h.history().map(|s| s.as_bytes()).collect();
        check(hist.len() == 2 && hist[0] == &txt[..] && hist[1] == b"two", 7);
        // the keyword of a value: the first that has it
        let w = Value::Integer { value: num(&d), comment: None };
        let first = if num(&c) == num(&d) { "K1" } else if num(&b) == num(&d) { "K2" } else { "X.Y" };
        let first = if num(&d) == 8 { "BITPIX" } else if num(&d) == 0 { "NAXIS" } else { first };
        check(h.get_keyword(&w) == Some(first), 10);
        check(h.get_keyword(&Value::Integer { value: -1, comment: None }).is_none(), 11);
        let n = all.len() / 80;
        let mut i = 0;
        for card in h.cards() {
            let mut cb = [0u8; 80]; cb.copy_from_slice(&all[80 * i..80 * i + 80]);
            if i >= base { check(Card::try_from(&cb).as_ref() == Ok(card), 8); }
            i += 1;
        }
        check(i == n, 9);
        observe(n as u64);
        cover(1);
    });
}
/// get_parsed::<T> returns the value when T can represent it and an error otherwise; never a different value.
/// params: what, digits, sign
pub fn h_header_typed() {
    let (what, nd, sign) = (param(0), param(1), param(2));
    // 100 and more: so many digits after those of a large number
    let d = if nd >= 100 { let mut d = b"9007199254740".to_vec(); d.extend(digits(nd - 100)); d } else { digits(nd) };
    let mut x = 0i64; for y in &d { x = x.wrapping_mul(10).wrapping_add(dv(*y)); }
    if sign == 2 { x = -x; }
    let mut t = vec![]; match sign { 1 => t.push(b'+'), 2 => t.push(b'-'), _ => {} } t.extend_from_slice(&d);
    let mut h = start();
    h.val(b"N", &t).str(b"S", b"12").val(b"L", b"T").val(b"F", b"2.5").val(b"U", b"").val(b"W", b"3.0");
    with_header(&mut h, |h| {
        macro_rules! int { ($t:ty) => {{ let r = h.get_parsed::<$t>("N"); let fits = if std::mem::size_of::<$t>() == 8 { (<$t>::MIN as i64 != 0) | (x >= 0) } else { (x >= <$t>::MIN as i64) & (x <= <$t>::MAX as i64) }; match r { Ok(v) => { observe(v as u64); check(fits & (v as i64 == x), 1); cover(1); } Err(_) => { check(!fits, 2); cover(2); } } }} }
        match what {
            0 => int!(u8), 1 => int!(i8), 2 => int!(u16), 3 => int!(i16), 4 => int!(u32), 5 => int!(i32), 6 => int!(u64), 7 => int!(i64), 8 => int!(usize),
            9 => { match h.get_parsed::<f64>("N") { Ok(v) => { observe(v.to_bits()); check(v == x as f64, 3); cover(1); } Err(_) => check(false, 4) } }
            10 => { match h.get_parsed::<Option<i64>>("N") { Ok(Some(v)) => { check(v as i64 == x, 5); cover(1); } _ => check(false, 6) } }
            _ => {
                check(h.get_parsed::<i64>("MISSING").is_err(), 10); check(h.get_parsed::<Option<i64>>("MISSING") == Ok(None), 11);
                check(h.get_parsed::<Option<String>>("MISSING") == Ok(None), 12); check(h.get_parsed::<Option<f64>>("U") == Ok(None), 13);
                check(h.get_parsed::<i64>("U").is_err() && h.get_parsed::<f64>("U").is_err() && h.get_parsed::<String>("U").is_err(), 14);
                check(h.get_parsed::<i64>("S").is_err() && h.get_parsed::<f64>("S").is_err() && h.get_parsed::<bool>("S").is_err(), 15);
                check(h.get_parsed::<String>("S").as_deref() == Ok("12") && h.get_parsed::<Option<String>>("S") == Ok(Some("12".to_owned())), 16);
                check(h.get_parsed::<bool>("L") == Ok(true) && h.get_parsed::<i64>("L").is_err() && h.get_parsed::<String>("L").is_err(), 17);
                check(h.get_parsed::<f64>("F") == Ok(2.5) && h.get_parsed::<f32>("F") == Ok(2.5) && h.get_parsed::<i64>("F").is_err() && h.get_parsed::<u8>("F").is_err(), 18);
                check(h.get_parsed::<String>("N").is_err() && h.get_parsed::<bool>("N").is_err(), 19);
                check(h.get_parsed::<i64>("W").is_err(), 20);
                cover(1);
            }
        }
    });
}
/// The unit in brackets at the start of the comment field.  params: unit length, blanks before the bracket, trailing text length, value kind (0 integer, 1 string, 2 float, 3 logical)
pub fn h_header_unit() {
    let (n, lead, m, kind) = (param(0), param(1), param(2), param(3));
    let u = text(n); for b in &u { assume((*b != b']') & (*b != b'[')); }
    let t = text(m);
    let mut v = match kind { 0 => b"K       = 12 /".to_vec(), 1 => b"K       = 'a/[b]' /".to_vec(), 2 => b"K       = 1.5 /".to_vec(), _ => b"K       = T /".to_vec() };
    for _ in 0..lead { v.push(b' '); }
    v.push(b'['); v.extend_from_slice(&u); v.push(b']'); v.extend_from_slice(&t);
    match Card::try_from(&card_of(&v).unwrap()) { Ok(Card::Value { value, .. }) => { let r = value.unit(); observe(r.map_or(99, |x| x.len() as u64)); check(r.map(|x| x.as_bytes()) == Some(&u[..]), 1); cover(1); } _ => check(false, 2) }
    // no unit without a closing bracket, and none without a comment
    let mut v = b"K       = 12 / ".to_vec(); let c = text(m + 1);
    let has = { let mut seen = false; let mut k = 0; while k < c.len() && c[k] == b' ' { k += 1; } if k < c.len() && c[k] == b'[' { for x in &c[k..] { if *x == b']' { seen = true; } } } seen };
    v.extend_from_slice(&c);
    match Card::try_from(&card_of(&v).unwrap()) { Ok(Card::Value { value, .. }) => { let u = value.unit(); observe(u.map_or(99, |x| x.len() as u64)); check(u.is_some() == has, 3); } _ => check(false, 4) }
    match Card::try_from(&card_of(b"K       = '[m]'").unwrap()) { Ok(Card::Value { value, .. }) => check(value.unit().is_none(), 5), _ => check(false, 6) }
}
/// A header of many keywords over several blocks; some appear again later.
/// params: keywords, step of the repeated ones (0: none), of which the last is arbitrary
pub fn h_header_many() {
    let (n, step) = (param(0), param(1));
    let d = digits(3); let num = |x: &[u8]| { let mut r = 0i64; for y in x { r = r * 10 + dv(*y); } r };
    let name = |i: usize| { let mut k = [&b"K"[..], b"LONGKEY", b"A-", b"B_"][i % 4].to_vec(); if i % 4 != 1 { k.extend(dec(i as u64)); } else { k = b"KEY".to_vec(); let s = dec(10000 + i as u64); k.extend(s); } k };
    let mut h = start(); let mut want: Vec<(Vec<u8>, i64)> = vec![(b"SIMPLE".to_vec(), 0), (b"BITPIX".to_vec(), 8), (b"NAXIS".to_vec(), 0)];
    for i in 0..n {
        if i + 1 == n { h.val(&name(i), &d); want.push((name(i), num(&d))); } else { h.int(&name(i), 1000 + i as i64); want.push((name(i), 1000 + i as i64)); }
        if i % 5 == 4 { h.raw(b"COMMENT  between"); }
    }
    if step > 0 { let mut i = 0; while i < n { if i + step >= n { let e = digits(2); h.val(&name(i), &e); want[3 + i].1 = num(&e); } else { h.int(&name(i), -(i as i64)); want[3 + i].1 = -(i as i64); } i += step; } }
    let all = h.b.len() / 80 + 1;
    with_header(&mut h, |h| {
        let ks: Vec<&String> = h.keywords().collect();
        if ks.len() != want.len() { check(false, 1); return; }
        for (i, (k, v)) in want.iter().enumerate() {
            check(ks[i].as_bytes() == &k[..], 3);
            if i == 0 { continue; }
            let s = std::str::from_utf8(k).unwrap();
            check(matches!(h.get(s), Some(Value::Integer { value, .. }) if *value == *v), 4);
            check(h.get_parsed::<i64>(s) == Ok(*v), 6);
        }
        for (i, (k, v)) in h.iter().enumerate() { check(k.as_bytes() == &want[i].0[..], 7); if i > 0 { check(matches!(v, Value::Integer { value, .. } if *value == want[i].1), 8); } }
        check(h.cards().count() == all, 9);
        cover(1);
    });
}
/// A long string over many CONTINUE cards, each as full as it gets.
/// params: kind (0 value card, 1 HIERARCH), pieces, characters of each piece but the first, blank at the end of each piece (before the ampersand)?
pub fn h_header_longstr() {
    let (kind, k, n, blank) = (param(0), param(1), param(2), param(3) == 1);
    let (name, prefix): (&str, &[u8]) = if kind == 0 { ("LONGSTR", b"LONGSTR = ") } else { ("A.B", b"HIERARCH A B = ") };
    let mut h = start(); let mut want = vec![];
    let w = 77 - prefix.len();
    for i in 0..k {
        let len = if i == 0 { n.min(w) } else { n };
        let mut s: Vec<u8> = (0..len).map(|j| b"abc def/gh=i-&"[(i + j) % 14]).collect();
        if len > 3 { let t = text(1); s[len / 2] = t[0]; assume(t[0] != b'\''); }
        if len > 0 { s[len - 1] = if blank { b' ' } else { b'z' }; }
        let last = i + 1 == k;
        h.raw(&piece(if i == 0 { prefix } else { b"CONTINUE  " }, &s, !last, None));
        want.extend_from_slice(&s);
    }
    h.int(b"AFTER", 8);
    with_header(&mut h, |h| {
        match string(h, name) { Some((v, c)) => { observe(v.len() as u64); check(v == rtrim(&want), 1); check(c.is_none(), 2); } None => check(false, 3) }
        check(h.get_parsed::<String>(name).map(|s| s.as_bytes() == rtrim(&want)) == Ok(true), 4);
        check(h.get_parsed::<i64>("AFTER") == Ok(8), 5);
        cover(1);
    });
}
#[derive(serde::Deserialize)]
#[serde(rename_all = "UPPERCASE")]
struct Rec { bitpix: i32, k: u16, s: String, f: f64, l: bool, o: Option<i32>, u: Option<f64>, missing: Option<String>, #[serde(default)] d: i8, opt: Option<u8> }
/// A whole header read into a record.  params: digits of the integer, sign
pub fn h_header_record() {
    use serde::de::IntoDeserializer;
    use serde::Deserialize;
    let (nd, sign) = (param(0), param(1));
    let d = digits(nd); let mut x = 0i64; for y in &d { x = x * 10 + dv(*y); } if sign == 2 { x = -x; }
    let s = text(3); let e = digits(1); let l = byte(); assume((l == b'T') | (l == b'F'));
    let mut t = vec![]; if sign == 2 { t.push(b'-'); } t.extend_from_slice(&d);
    let mut h = start();
    let mut q = b"S       = ".to_vec(); q.extend(quote(&s));
    h.val(b"K", &t).raw(&q).val(b"F", b"2.5").val(b"L", &[l]).val(b"O", &e).val(b"U", b"").val(b"OTHER", b"'ignored'");
    with_header(&mut h, |h| {
        let fits = (x >= 0) & (x <= 65535);
        match Rec::deserialize(h.into_deserializer()) {
            Ok(r) => {
                observe(r.k as u64);
                check(fits & (r.k as i64 == x), 1);
                check((r.bitpix == 8) & (r.s.as_bytes() == crate::cards::string_value(&s)) & (r.f == 2.5) & (r.l == (l == b'T')), 2);
                check((r.o == Some(dv(e[0]) as i32)) & r.u.is_none() & r.missing.is_none() & (r.d == 0) & r.opt.is_none(), 3);
                cover(1);
            }
            Err(_) => { check(!fits, 4); cover(2); }
        }
    });
}
