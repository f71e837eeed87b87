//! Header cards (80-byte keyword records).
use crate::sym::*;
use fitsrs::card::{Card, CardBuf, Value};
use std::convert::TryFrom;

pub fn rtrim(b: &[u8]) -> &[u8] { let mut k = b.len(); while k > 0 && b[k - 1] == b' ' { k -= 1; } &b[..k] }
/// FITS string value denoted by the (unescaped) characters between the quotes
pub fn string_value(s: &[u8]) -> &[u8] { if s.is_empty() { return b""; } let t = rtrim(s); if t.is_empty() { b" " } else { t } }
/// `'...'` with inner quotes doubled
pub fn quote(s: &[u8]) -> Vec<u8> { let mut v = vec![b'\'']; for &b in s { if b == b'\'' { v.push(b'\''); } v.push(b); } v.push(b'\''); v }
pub fn card_of(b: &[u8]) -> Option<CardBuf> { if b.len() > 80 { return None; } let mut c = [b' '; 80]; c[..b.len()].copy_from_slice(b); Some(c) }
fn comment_ok(got: &Option<String>, want: &Option<Vec<u8>>) -> bool { match (got, want) { (None, None) => true, (Some(g), Some(w)) => g.as_bytes() == rtrim(w), _ => false } }

/// keyword part, then `lead` blanks
fn start(kind: usize, lead: usize) -> Vec<u8> {
    let mut v = match kind { 0 => b"STRKEY  = ".to_vec(), 1 => b"CONTINUE  ".to_vec(), 2 => b"HIERARCH ESO TEL X = ".to_vec(), _ => b"HIERARCH A=".to_vec() };
    for _ in 0..lead { v.push(b' '); }
    v
}
fn add_comment(v: &mut Vec<u8>, pad: usize, m: usize) -> Option<Vec<u8>> {
    if m == 99 { return None; }
    for _ in 0..pad { v.push(b' '); }
    v.push(b'/');
    let c = text(m); v.extend_from_slice(&c); Some(c)
}
fn check_string(kind: usize, c: &CardBuf, s: &[u8], cm: &Option<Vec<u8>>) {
    let want = string_value(s);
    let r = Card::try_from(c);
    let ok = match (kind, &r) {
        (0, Ok(Card::Value { name, value: Value::String { value, comment } })) => { observe_bytes(value.as_bytes()); (name == "STRKEY") & (value.as_bytes() == want) & comment_ok(comment, cm) }
        (1, Ok(Card::Continuation { string: Some(value), comment })) => { observe_bytes(value.as_bytes()); (value.as_bytes() == want) & comment_ok(comment, cm) }
        (2, Ok(Card::Hierarch { name, value: Value::String { value, comment } })) => { observe_bytes(value.as_bytes()); (name == "ESO.TEL.X") & (value.as_bytes() == want) & comment_ok(comment, cm) }
        (3, Ok(Card::Hierarch { name, value: Value::String { value, comment } })) => { observe_bytes(value.as_bytes()); (name == "A") & (value.as_bytes() == want) & comment_ok(comment, cm) }
        _ => false,
    };
    check(ok, 1);
    // a string is continued exactly when it ends with an ampersand
    if let Ok(card) = &r { check(card.continued() == want.ends_with(b"&"), 2); }
    cover(1);
}
/// params: kind, content length, leading blanks, blanks before the slash, comment length (99: none)
pub fn h_card_string() {
    let (kind, n, lead, pad, m) = (param(0), param(1), param(2), param(3), param(4));
    let s = text(n);
    let mut v = start(kind, lead); v.extend_from_slice(&quote(&s));
    let cm = add_comment(&mut v, pad, m);
    if let Some(c) = card_of(&v) { check_string(kind, &c, &s, &cm); }
}
/// params: kind, total content length, window position, window length, comment length (99: none)
pub fn h_card_string_window() {
    let (kind, n, p, w, m) = (param(0), param(1), param(2), param(3), param(4));
    let mut s: Vec<u8> = (0..n).map(|i| b"abc def/gh=i"[i % 12]).collect();
    if n > 0 { s[n - 1] = b'z'; }
    let t = text(w); for i in 0..w { if p + i < n { s[p + i] = t[i]; } }
    let mut v = start(kind, 0); v.extend_from_slice(&quote(&s));
    let cm = add_comment(&mut v, 1, m);
    if let Some(c) = card_of(&v) { check_string(kind, &c, &s, &cm); }
}
/// params: kind, digits, sign (0 none 1 + 2 -), leading blanks, comment length (99: none)
pub fn h_card_int() {
    let (kind, n, sign, lead, m) = (param(0), param(1), param(2), param(3), param(4));
    let d = digits(n);
    let mut v = start(kind, lead); match sign { 1 => v.push(b'+'), 2 => v.push(b'-'), _ => {} } v.extend_from_slice(&d);
    let cm = add_comment(&mut v, 1, m);
    let mut want = 0i64;
    for b in &d { want = want.wrapping_mul(10).wrapping_add(dv(*b)); }
    if sign == 2 { want = want.wrapping_neg(); }
    let c = match card_of(&v) { Some(c) => c, None => return };
    let ok = match Card::try_from(&c) { Ok(Card::Value { name, value: Value::Integer { value, comment } }) => { observe(value as u64); (kind == 0) & (name == "STRKEY") & (value == want) & comment_ok(&comment, &cm) }
        Ok(Card::Hierarch { name, value: Value::Integer { value, comment } }) => { observe(value as u64); (name == if kind == 2 { "ESO.TEL.X" } else { "A" }) & (value == want) & comment_ok(&comment, &cm) } _ => false };
    check(ok, 1); cover(1);
}
/// params: sign, integer digits, fraction digits (99: no point), exponent letter (0 none 1 E 2 D), exponent sign, exponent digits, leading blanks, comment, keyword kind
pub fn h_card_float() {
    let (sign, ni, nf, el, es, ne, lead, m, kind) = (param(0), param(1), param(2), param(3), param(4), param(5), param(6), param(7), param(8));
    let mut t = vec![]; match sign { 1 => t.push(b'+'), 2 => t.push(b'-'), _ => {} }
    t.extend_from_slice(&digits(ni));
    if nf != 99 { t.push(b'.'); t.extend_from_slice(&digits(nf)); }
    let mut r = t.clone(); // with the exponent letter of IEEE text
    if el > 0 {
        t.push(if el == 1 { b'E' } else { b'D' }); r.push(b'E');
        let mut e = vec![]; match es { 1 => e.push(b'+'), 2 => e.push(b'-'), _ => {} } e.extend_from_slice(&digits(ne));
        t.extend_from_slice(&e); r.extend_from_slice(&e);
    }
    let want: f64 = match unsafe { std::str::from_utf8_unchecked(&r) }.parse() { Ok(x) => x, Err(_) => return };
    let mut v = start(kind, lead); v.extend_from_slice(&t);
    let cm = add_comment(&mut v, 1, m);
    let c = match card_of(&v) { Some(c) => c, None => return };
    let ok = match Card::try_from(&c) { Ok(Card::Value { value: Value::Float { value, comment }, .. }) | Ok(Card::Hierarch { value: Value::Float { value, comment }, .. }) => { observe(value.to_bits()); (value.to_bits() == want.to_bits()) & comment_ok(&comment, &cm) } _ => false };
    check(ok, 1); cover(1);
}
/// params: what (0 logical, 1 undefined value, 2 COMMENT, 3 HISTORY, 4 blank keyword, 5 END, 6 no value indicator), n, lead, comment length
pub fn h_card_misc() {
    let (what, n, lead, m) = (param(0), param(1), param(2), param(3));
    match what {
        0 => {
            let b = byte(); assume((b == b'T') | (b == b'F'));
            let mut v = start(0, lead); v.push(b); let cm = add_comment(&mut v, 1, m);
            let c = match card_of(&v) { Some(c) => c, None => return };
            let ok = match Card::try_from(&c) { Ok(Card::Value { name, value: Value::Logical { value, comment } }) => { observe(value as u64); (name == "STRKEY") & (value == (b == b'T')) & comment_ok(&comment, &cm) } _ => false };
            check(ok, 1); cover(1);
        }
        1 => {
            let mut v = start(0, lead); add_comment(&mut v, 1, m);
            let c = card_of(&v).unwrap();
            let ok = match Card::try_from(&c) { Ok(Card::Value { name, value: Value::Undefined }) => name == "STRKEY", _ => false };
            check(ok, 1); cover(1);
        }
        2 | 3 | 4 => {
            // free text in columns 9-80: `lead` fixed characters, then n arbitrary bytes
            let mut v = match what { 2 => b"COMMENT ".to_vec(), 3 => b"HISTORY ".to_vec(), _ => b"        ".to_vec() };
            for i in 0..lead { v.push(b"ab = 'c/ "[i % 9]); }
            let t = vec(n); v.extend_from_slice(&t);
            let c = match card_of(&v) { Some(c) => c, None => return };
            // every byte outside 0x20..=0x7E reads as U+FFFD, trailing blanks are dropped
            let mut w: Vec<u8> = vec![]; for &b in &c[8..] { if (b >= 0x20) & (b <= 0x7e) { w.push(b); } else { w.extend_from_slice("\u{fffd}".as_bytes()); } }
            let w = rtrim(&w);
            let ok = match (what, Card::try_from(&c)) { (2, Ok(Card::Comment(s))) | (3, Ok(Card::History(s))) => { observe_bytes(s.as_bytes()); s.as_bytes() == w } (4, Ok(Card::Comment(s))) => { observe_bytes(s.as_bytes()); !w.is_empty() & (s.as_bytes() == w) } (4, Ok(Card::Space)) => w.is_empty(), _ => false };
            check(ok, 1); cover(1);
        }
        5 => { let v = b"END".to_vec(); let c = card_of(&v).unwrap(); check(Card::try_from(&c) == Ok(Card::End), 1); cover(1); }
        _ => {
            // a keyword without the value indicator "= " in columns 9-10 is kept verbatim
            let mut v = b"FOO     ".to_vec(); let t = text(n); assume(!((t[0] == b'=') & (t[1] == b' '))); v.extend_from_slice(&t);
            let c = card_of(&v).unwrap();
            let ok = match Card::try_from(&c) { Ok(Card::Undefined(s)) => { observe_bytes(s.as_bytes()); s.as_bytes() == &c[..] } _ => false };
            check(ok, 1); cover(1);
        }
    }
}
/// params: keyword length; every standard keyword names its value card exactly
pub fn h_card_keyword() {
    let n = param(0);
    let k = vec(n);
    for &b in &k { assume(((b >= b'A') & (b <= b'Z')) | ((b >= b'0') & (b <= b'9')) | (b == b'-') | (b == b'_')); }
    for r in [&b"COMMENT"[..], b"HISTORY", b"CONTINUE", b"XTENSION", b"HIERARCH", b"END"] { if r.len() == n { assume(&k[..] != r); } }
    let mut v = k.clone(); v.resize(8, b' '); v.extend_from_slice(b"= 42 / c");
    let c = card_of(&v).unwrap();
    let ok = match Card::try_from(&c) { Ok(Card::Value { name, value: Value::Integer { value, comment } }) => { observe_bytes(name.as_bytes()); (name.as_bytes() == &k[..]) & (value == 42) & (comment.as_deref() == Some(" c")) } _ => false };
    check(ok, 1); cover(1);
}
const TEMPLATES: [&[u8]; 28] = [
    b"STRKEY  = ",
    b"STRKEY  = 'abc",
    b"STRKEY  = 'abc' / comment",
    b"XTENSION= ",
    b"XTENSION= 'IMAGE   '",
    b"HIERARCH ",
    b"HIERARCH ESO A = 1 / [m] x",
    b"CONTINUE  ",
    b"CONTINUE  'abc&'",
    b"STRKEY  = 12345",
    b"        ",
    b"STRKEY  =                  1.5",
    // the rest are filled with their last byte
    b"STRKEY  = 'a",
    b"STRKEY  = '",
    b"STRKEY  = 1",
    b"STRKEY  = 1.5E9",
    b"HIERARCH A",
    b"HIERARCH A B=",
    b"HIERARCH A = '\xff",
    b"CONTINUE  'a",
    b"CONTINUE  ''",
    b"COMMENT \xff",
    b"\xff",
    b"STRKEY  = / [",
    b"STRKEY  = 'a' / ]",
    b"STRKEY  = T / [m\xe9",
    b"\0",
    b"XTENSION= 'IMAGEE",
];
/// params: template, window position, window length, second window position and length: arbitrary bytes never panic
pub fn h_card_total() {
    let (t, p, w, p2, w2) = (param(0), param(1), param(2), param(3), param(4));
    let mut c = if t < 12 { card_of(TEMPLATES[t]).unwrap() } else { let k = TEMPLATES[t]; let mut c = [k[k.len() - 1]; 80]; c[..k.len()].copy_from_slice(k); c };
    let b = vec(w); for i in 0..w { c[p + i] = b[i]; }
    let b = vec(w2); for i in 0..w2 { c[p2 + i] = b[i]; }
    match Card::try_from(&c) {
        Ok(card) => { card.continued(); if let Card::Value { value, .. } | Card::Hierarch { value, .. } = &card { observe(value.unit().map_or(0, |u| u.len() as u64)); } cover(1); }
        Err(_) => { observe(9); }
    }
    cover(2);
}
/// Integers of many digits: fixed ones, then arbitrary ones, around the limits of 64-bit integers and of what a double can hold.
/// params: keyword kind, which prefix, arbitrary digits, sign, leading blanks
pub fn h_card_long() {
    let (kind, which, n, sign, lead) = (param(0), param(1), param(2), param(3), param(4));
    let p: &[u8] = [&b"9007199254740"[..], b"9223372036854775", b"1000000000000000", b"0000000000000000", b"123456789012345", b"429496", b"00000000000000000922337203685477"][which];
    let d = digits(n);
    let mut v = start(kind, lead); match sign { 1 => v.push(b'+'), 2 => v.push(b'-'), _ => {} } v.extend_from_slice(p); v.extend_from_slice(&d);
    let mut want = 0u64; for b in p { want = want * 10 + (*b - b'0') as u64; }
    for b in &d { want = want.wrapping_mul(10).wrapping_add(dv(*b) as u64); }
    let fits = want <= if sign == 2 { 1 << 63 } else { (1 << 63) - 1 };
    let want = if sign == 2 { (want as i64).wrapping_neg() } else { want as i64 };
    let c = match card_of(&v) { Some(c) => c, None => return };
    match Card::try_from(&c) {
        Ok(Card::Value { name, value: Value::Integer { value, comment } }) => { observe(value as u64); check((kind == 0) & (name == "STRKEY"), 1); check(fits & (value == want) & comment.is_none(), 2); cover(1); }
        Ok(Card::Hierarch { name, value: Value::Integer { value, comment } }) => { observe(value as u64); check(name == if kind == 2 { "ESO.TEL.X" } else { "A" }, 3); check(fits & (value == want) & comment.is_none(), 4); cover(1); }
        // too large for an integer: never as another integer
        _ => { check(!fits, 5); cover(2); }
    }
}

/// the text with every run of characters outside 0x20..=0x7E as one U+FFFD
fn collapse(t: &[u8]) -> Vec<u8> {
    let mut o: Vec<u8> = vec![]; let mut run = false;
    for &b in t { if (b >= 0x20) & (b <= 0x7e) { o.push(b); run = false; } else { if !run { o.extend_from_slice("\u{fffd}".as_bytes()); } run = true; } }
    o
}
/// Bytes that are not FITS characters show as U+FFFD and disturb nothing else.
/// params: kind, characters before, arbitrary bytes, characters after, where (0 in the string, 1 in the comment)
pub fn h_card_string_any() {
    let (kind, a, n, b, place) = (param(0), param(1), param(2), param(3), param(4));
    let mut t: Vec<u8> = b"ab /c=d&ef gh"[..a].to_vec(); let w = vec(n);
    if place == 0 { for x in &w { assume(*x != b'\''); } }
    t.extend_from_slice(&w); t.extend_from_slice(&b"x/ y&z"[6 - b..]);
    let mut v = start(kind, 0); let (s, c): (Vec<u8>, Vec<u8>) = if place == 0 { (t, b" [m] note".to_vec()) } else { (b"it is".to_vec(), t) };
    v.extend_from_slice(&quote(&s)); v.extend_from_slice(b" /"); v.extend_from_slice(&c);
    let (want, wc) = (collapse(string_value(&s)), collapse(rtrim(&c)));
    let c = match card_of(&v) { Some(c) => c, None => return };
    match Card::try_from(&c) {
        Ok(Card::Value { value: Value::String { value, comment: Some(comment) }, .. }) | Ok(Card::Hierarch { value: Value::String { value, comment: Some(comment) }, .. }) | Ok(Card::Continuation { string: Some(value), comment: Some(comment) }) => {
            observe_bytes(value.as_bytes()); observe_bytes(comment.as_bytes());
            check(collapse(value.as_bytes()) == want, 1); check(collapse(comment.as_bytes()) == wc, 2); cover(1);
        }
        _ => check(false, 3),
    }
}
/// The name of a HIERARCH card: its words joined with dots.  params: words, length of each, blanks between them, blanks before the equals sign, blanks after it, leading extra blanks
pub fn h_card_hierarch() {
    let (k, n, gap, before, after, lead) = (param(0), param(1), param(2), param(3), param(4), param(5));
    let mut v = b"HIERARCH ".to_vec(); let mut name = vec![];
    for _ in 0..lead { v.push(b' '); }
    for i in 0..k {
        let w = text(n); for b in &w { assume((*b != b'=') & (*b != b' ')); }
        if i > 0 { for _ in 0..gap { v.push(b' '); } name.push(b'.'); }
        v.extend_from_slice(&w); name.extend_from_slice(&w);
    }
    for _ in 0..before { v.push(b' '); }
    v.push(b'=');
    for _ in 0..after { v.push(b' '); }
    let d = digits(2); v.extend_from_slice(&d); v.extend_from_slice(b" / [K] c");
    let c = match card_of(&v) { Some(c) => c, None => return };
    match Card::try_from(&c) {
        Ok(Card::Hierarch { name: g, value }) => {
            observe_bytes(g.as_bytes());
            check(g.as_bytes() == &name[..], 1);
            check(value.unit() == Some("K"), 2);
            match value { Value::Integer { value, comment } => check((value == 10 * dv(d[0]) + dv(d[1])) & (comment.as_deref() == Some(" [K] c")), 3), _ => check(false, 4) }
            cover(1);
        }
        _ => check(false, 5),
    }
}
/// Long strings put together by hand with Card::append / Card::splice / Value::append / Value::splice.
/// params: kind (0 value card, 2 HIERARCH), which (0 append, 1 splice, 2 Value::append, 3 Value::splice), characters per piece, pieces, comments (bit i: piece i has one)
pub fn h_card_append() {
    let (kind, which, n, k, cm) = (param(0), param(1), param(2), param(3), param(4));
    let mut want = vec![]; let mut wc: Option<Vec<u8>> = None; let mut card: Option<Card> = None;
    for i in 0..k {
        let last = i + 1 == k;
        let s = text(n); want.extend_from_slice(&s);
        let mut t = s.clone(); if !last { t.push(b'&'); }
        let mut v = start(if i == 0 { kind } else { 1 }, 0); v.extend(quote(&t));
        if cm >> i & 1 == 1 { let c = &b"xyz"[..1 + i % 3]; v.extend_from_slice(b" /"); v.extend_from_slice(c); match &mut wc { None => wc = Some(c.to_vec()), Some(w) => { w.push(b'\n'); w.extend_from_slice(c); } } }
        let c = match card_of(&v).map(|b| Card::try_from(&b)) { Some(Ok(c)) => c, _ => { check(false, 1); return; } };
        card = Some(match card {
            None => c,
            Some(mut p) => {
                check(p.continued(), 2);
                match which {
                    0 => { p.append(&c); p }
                    1 => p.splice(c),
                    _ => {
                        let (string, comment) = match c { Card::Continuation { string, comment } => (string, comment), _ => { check(false, 3); return; } };
                        match p {
                            Card::Value { name, mut value } => Card::Value { name, value: if which == 2 { value.append(&string, &comment); value } else { value.splice(string, comment) } },
                            Card::Hierarch { name, mut value } => Card::Hierarch { name, value: if which == 2 { value.append(&string, &comment); value } else { value.splice(string, comment) } },
                            p => p,
                        }
                    }
                }
            }
        });
    }
    match card {
        Some(card @ (Card::Value { .. } | Card::Hierarch { .. })) => {
            // a string that itself ends with an ampersand looks continued
            check(card.continued() == (rtrim(&want).last() == Some(&b'&')), 4);
            let (name, value) = match card { Card::Value { name, value } | Card::Hierarch { name, value } => (name, value), _ => return };
            check(name == if kind == 0 { "STRKEY" } else { "ESO.TEL.X" }, 5);
            match value { Value::String { value, comment } => { observe_bytes(value.as_bytes()); check(value.as_bytes() == rtrim(&want), 6); check(comment.map(|c| c.into_bytes()) == wc, 7); cover(1); } _ => check(false, 8) }
        }
        _ => check(false, 9),
    }
}
