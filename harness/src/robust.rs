//! Malformed and truncated files: errors or fewer values, never a panic, never endless.
use crate::build::*;
use crate::sym::*;
use fitsrs::card::Card;
use fitsrs::hdu::data::bintable::{data::BinaryTableData, ColumnId};
use fitsrs::hdu::data::bintable::tile_compressed::pixels::Pixels as Tc;
use fitsrs::hdu::data::{DataStream, Pixels};
use fitsrs::hdu::{AsyncHDU, HDU};
use fitsrs::{AsyncFits, Fits};
use futures::io::BufReader;
use futures::{Stream, StreamExt};
use std::io::{Cursor, Read};
use std::task::{Context, Poll};

/// more values than any data unit of these files can hold
const CAP: usize = 9000;
fn count<T>(it: impl Iterator<Item = T>, id: u32) -> u64 { let mut n = 0; for _ in it { n += 1; if n > CAP { check(false, id); break; } } n as u64 }
macro_rules! each { ($p:expr, $e:ident, |$it:ident| $b:expr) => { match $p { $e::U8($it) => $b, $e::I16($it) => $b, $e::I32($it) => $b, $e::I64($it) => $b, $e::F32($it) => $b, $e::F64($it) => $b } } }
/// 1 value at random then the rest, through every reader of the crate; how: 0 values, 1 rows / random pixel, 2 raw bytes
fn drive(f: Vec<u8>, how: usize) {
    let mut fits = Fits::from_reader(Cursor::new(f));
    let mut hdus = 0;
    while let Some(h) = fits.next() {
        hdus += 1;
        if hdus > 8 { check(false, 1); return; }
        match h {
            Err(_) => observe(100),
            Ok(HDU::Primary(h)) | Ok(HDU::XImage(h)) => {
                observe(h.get_header().cards().count() as u64);
                for (k, v) in h.get_header().iter() { observe(k.len() as u64); observe(v.unit().is_some() as u64); }
                observe(h.get_header().get_xtension().get_num_pixels());
                observe(h.get_data_unit_byte_size());
                let d = fits.get_data(&h);
                if how == 2 { observe(d.raw_bytes().len() as u64); } else {
                    each!(d.pixels(), Pixels, |it| { let mut it = it; if how == 1 { observe(it.read_value(1).is_ok() as u64); observe(it.read_value(usize::MAX).is_ok() as u64); } observe(count(it, 2)) });
                }
            }
            Ok(HDU::XASCIITable(h)) => { let mut v = vec![]; let mut d = fits.get_data(&h); observe(d.by_ref().take(6000).read_to_end(&mut v).is_ok() as u64); observe(v.len() as u64); }
            Ok(HDU::XBinaryTable(h)) => {
                observe(h.get_header().get_xtension().get_num_rows() as u64);
                match fits.get_data(&h) {
                    BinaryTableData::Table(mut d) => match how {
                        0 => observe(count(d, 3)),
                        1 => { d.select_fields(&[ColumnId::Index(1), ColumnId::Name("A"), ColumnId::Index(40)]); observe(d.seek_to_row(1).is_ok() as u64); observe(d.seek_to_row(usize::MAX).is_ok() as u64); let mut it = d.row_iter(); let mut n = 0; while it.next().is_some() { n += 1; if n > 300 { break; } } observe(n); }
                        _ => observe(d.raw_bytes().len() as u64),
                    },
                    BinaryTableData::TileCompressed(p) => match p { Tc::U8(it) => observe(count(it, 4)), Tc::I16(it) => observe(count(it, 4)), Tc::I32(it) => observe(count(it, 4)), Tc::F32(it) => observe(count(it, 4)), Tc::F64(it) => observe(count(it, 4)) },
                }
            }
        }
    }
    check(fits.next().is_none(), 5);
    cover(1);
}
fn drain<S: Stream<Item = std::io::Result<T>> + Unpin, T>(mut s: S) {
    let w = crate::asyn::waker();
    let mut cx = Context::from_waker(&w);
    let mut n = 0;
    loop { match s.poll_next_unpin(&mut cx) { Poll::Ready(Some(Ok(_))) => { n += 1; if n > 9000 { check(false, 6); break; } } Poll::Ready(Some(Err(_))) => { observe(101); break; } Poll::Ready(None) => break, Poll::Pending => { check(false, 7); break; } } }
    observe(n);
}
fn drive_async(f: Vec<u8>) {
    let mut fits = AsyncFits::from_reader(BufReader::new(&f[..]));
    let w = crate::asyn::waker();
    let mut hdus = 0;
    loop {
        hdus += 1;
        if hdus > 9 { check(false, 8); return; }
        let r = fits.poll_next_unpin(&mut Context::from_waker(&w));
        match r {
            Poll::Pending => { check(false, 9); return; }
            Poll::Ready(None) => break,
            Poll::Ready(Some(Err(_))) => observe(100),
            Poll::Ready(Some(Ok(AsyncHDU::Primary(h)))) | Poll::Ready(Some(Ok(AsyncHDU::XImage(h)))) => each!(fits.get_data(&h), DataStream, |st| drain(st)),
            Poll::Ready(Some(Ok(AsyncHDU::XBinaryTable(h)))) => drain(fits.get_data(&h)),
            Poll::Ready(Some(Ok(AsyncHDU::XASCIITable(h)))) => drain(fits.get_data(&h)),
        }
    }
    cover(1);
}
fn zint(k: &[u8], v: u64) -> Vec<u8> { let mut c = k.to_vec(); c.resize(8, b' '); c.extend_from_slice(b"= "); let d = dec(v); for _ in d.len()..20 { c.push(b'0'); } c.extend(d); c }
fn scard(k: &[u8], v: &[u8]) -> Vec<u8> { let mut c = k.to_vec(); c.resize(8, b' '); c.extend_from_slice(b"= '"); c.extend_from_slice(v); while c.len() < 19 { c.push(b' '); } c.push(b'\''); c }
/// the cards of a template, integers written with 20 digits, and its data unit
pub fn template(t: usize) -> (Vec<Vec<u8>>, Vec<u8>) {
    let x = |v: &[u8]| scard(b"XTENSION", v);
    let i = zint; let s = scard;
    match t {
        0 => (vec![b"SIMPLE  =                    T".to_vec(), i(b"BITPIX", 16), i(b"NAXIS", 2), i(b"NAXIS1", 2), i(b"NAXIS2", 3), s(b"OBJECT", b"a&"), b"CONTINUE  'b'".to_vec()], vec![1; 12]),
        1 => (vec![x(b"IMAGE"), i(b"BITPIX", 8), i(b"NAXIS", 1), i(b"NAXIS1", 5), i(b"PCOUNT", 0), i(b"GCOUNT", 1)], vec![2; 5]),
        2 => (vec![x(b"BINTABLE"), i(b"BITPIX", 8), i(b"NAXIS", 2), i(b"NAXIS1", 11), i(b"NAXIS2", 2), i(b"PCOUNT", 9), i(b"GCOUNT", 1), i(b"TFIELDS", 3), s(b"TFORM1", b"1I"), s(b"TTYPE1", b"A"), s(b"TFORM2", b"1PI(2)"), s(b"TFORM3", b"1B"), i(b"THEAP", 25)],
            vec![0, 1, 0, 0, 0, 2, 0, 0, 0, 0, 5, 0, 2, 0, 0, 0, 1, 0, 0, 0, 2, 6, 9, 9, 9, 1, 2, 3, 4, 5, 6]),
        3 => (vec![x(b"TABLE"), i(b"BITPIX", 8), i(b"NAXIS", 2), i(b"NAXIS1", 6), i(b"NAXIS2", 2), i(b"PCOUNT", 0), i(b"GCOUNT", 1), i(b"TFIELDS", 2), i(b"TBCOL1", 1), s(b"TFORM1", b"I3"), i(b"TBCOL2", 4), s(b"TFORM2", b"F3.1")], vec![b'1'; 12]),
        4 | 5 => {
            let f = t == 5;
            let tile = |v: &[u32]| { let mut b = vec![]; for x in v { b.extend_from_slice(&x.to_be_bytes()); } crate::tiles::gzip(&b, 100) };
            let blobs = [tile(&[1, 2]), tile(&[3, 4])];
            let mut main = vec![]; let mut heap = vec![];
            for b in &blobs { main.extend_from_slice(&(b.len() as u32).to_be_bytes()); main.extend_from_slice(&(heap.len() as u32).to_be_bytes()); if f { main.extend_from_slice(&2f64.to_be_bytes()); main.extend_from_slice(&0f64.to_be_bytes()); } heap.extend_from_slice(b); }
            let mut c = vec![x(b"BINTABLE"), i(b"BITPIX", 8), i(b"NAXIS", 2), i(b"NAXIS1", if f { 24 } else { 8 }), i(b"NAXIS2", 2), i(b"PCOUNT", heap.len() as u64), i(b"GCOUNT", 1), i(b"TFIELDS", if f { 3 } else { 1 }), s(b"TFORM1", b"1PB(30)"), s(b"TTYPE1", b"COMPRESSED_DATA"),
                b"ZIMAGE  =                    T".to_vec(), s(b"ZCMPTYPE", b"GZIP_1"), if f { b"ZBITPIX =                  -32".to_vec() } else { i(b"ZBITPIX", 32) }, i(b"ZNAXIS", 2), i(b"ZNAXIS1", 2), i(b"ZNAXIS2", 2), i(b"ZTILE1", 2), i(b"ZTILE2", 1)];
            if f { c.push(s(b"TFORM2", b"1D")); c.push(s(b"TTYPE2", b"ZSCALE")); c.push(s(b"TFORM3", b"1D")); c.push(s(b"TTYPE3", b"ZZERO")); c.push(s(b"ZQUANTIZ", b"SUBTRACTIVE_DITHER_1")); c.push(i(b"ZDITHER0", 3)); c.push(i(b"ZBLANK", 4)); }
            main.extend(heap);
            (c, main)
        }
        _ => {
            // two RICE tiles of 2 pixels, block code 26 (raw)
            let mut heap = vec![0, 0, 0, 7]; heap.extend([0b11010_000, 0, 0, 0, 0, 0, 0, 0, 0]); let n = heap.len(); let h2 = heap.clone(); heap.extend(h2);
            let mut main = vec![];
            for k in 0..2 { main.extend_from_slice(&(n as u32).to_be_bytes()); main.extend_from_slice(&((k * n) as u32).to_be_bytes()); }
            let c = vec![x(b"BINTABLE"), i(b"BITPIX", 8), i(b"NAXIS", 2), i(b"NAXIS1", 8), i(b"NAXIS2", 2), i(b"PCOUNT", heap.len() as u64), i(b"GCOUNT", 1), i(b"TFIELDS", 1), s(b"TFORM1", b"1PB(30)"), s(b"TTYPE1", b"COMPRESSED_DATA"),
                b"ZIMAGE  =                    T".to_vec(), s(b"ZCMPTYPE", b"RICE_1"), i(b"ZBITPIX", 16), i(b"ZNAXIS", 1), i(b"ZNAXIS1", 4), i(b"ZTILE1", 2), s(b"ZNAME1", b"BLOCKSIZE"), i(b"ZVAL1", 2), s(b"ZNAME2", b"BYTEPIX"), i(b"ZVAL2", 4)];
            main.extend(heap);
            (c, main)
        }
    }
}
/// params: template, how (0 values, 1 rows and random access, 2 raw bytes, 3 async), card that is varied (999: none), position in it, arbitrary bytes there,
/// bytes kept of the data unit + 1 (0: all of it, padded, and a following HDU), data byte position + 1 that is varied (0: none), arbitrary bytes there, bytes cut from the header
pub fn h_robust() {
    let (t, how, card, pos, w, keep, dpos, dw, hcut) = (param(0), param(1), param(2), param(3), param(4), param(5), param(6), param(7), param(8));
    let (mut cards, mut data) = template(t);
    if card < cards.len() { cards[card].resize(80, b' '); if pos < 8 { cards[card][pos] = b" AXZ0-_=/\0\xff"[choose(11)]; } else { let b = vec(w); cards[card][pos..pos + w].copy_from_slice(&b); } }
    if dpos > 0 { let b = vec(dw); data[dpos - 1..dpos - 1 + dw].copy_from_slice(&b); }
    let mut f = if t == 0 { vec![] } else { image(false, 8, &[]).end() };
    let mut h = H::new();
    for c in &cards { h.raw(c); }
    let mut hd = h.end();
    if hcut > 0 { let n = hd.len(); hd.truncate(n - hcut); f.extend(hd); }
    else {
        f.extend(hd);
        if keep > 0 { data.truncate(keep - 1); f.extend(data); } else { f.extend(data); pad(&mut f, 0); f.extend(image(true, 16, &[]).end()); }
    }
    if how == 3 { drive_async(f) } else { drive(f, how) }
    let _ = Card::End;
}
