//! Reading a file asynchronously: whatever the reader does, the HDUs and values are those of the file.
use crate::build::*;
use crate::sym::*;
use fitsrs::hdu::data::DataStream;
use fitsrs::hdu::AsyncHDU;
use fitsrs::AsyncFits;
use futures::io::{AsyncRead, BufReader};
use futures::{Stream, StreamExt};
use std::pin::Pin;
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};

/// A reader that stops at each of `stops` (positions in the file): it gives the bytes up to there, is not ready `not_ready` times, and goes on.
#[derive(Debug)]
struct Net { data: Vec<u8>, pos: usize, stops: Vec<usize>, not_ready: usize, left: usize, chunk: usize }
impl AsyncRead for Net {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<std::io::Result<usize>> {
        if self.stops.first() == Some(&self.pos) {
            if self.left > 0 { self.left -= 1; cx.waker().wake_by_ref(); return Poll::Pending; }
            self.stops.remove(0);
            self.left = self.not_ready;
        }
        let end = match self.stops.first() { Some(s) => *s, None => self.data.len() };
        let n = (end - self.pos).min(buf.len()).min(self.chunk);
        let p = self.pos;
        buf[..n].copy_from_slice(&self.data[p..p + n]);
        self.pos += n;
        Poll::Ready(Ok(n))
    }
}
const VT: RawWakerVTable = RawWakerVTable::new(|_| RawWaker::new(std::ptr::null(), &VT), |_| {}, |_| {}, |_| {});
pub fn waker() -> Waker { unsafe { Waker::from_raw(RawWaker::new(std::ptr::null(), &VT)) } }
/// polls until the stream has something to say
fn next<S: Stream + Unpin>(s: &mut S, pend: &mut usize) -> Option<S::Item> {
    let w = waker();
    let mut cx = Context::from_waker(&w);
    for _ in 0..64 {
        match s.poll_next_unpin(&mut cx) { Poll::Ready(r) => return r, Poll::Pending => *pend += 1 }
    }
    check(false, 90);
    None
}
macro_rules! px { ($st:expr, $n:expr, $want:expr, $w:expr, $pend:expr, $id:expr, |$v:ident| $e:expr) => {{
    let mut st = $st; let mut i = 0;
    while i < $n { match next(&mut st, $pend) { Some(Ok([$v])) => { let want = &$want[i * $w..(i + 1) * $w]; check($e == be(want), $id); observe($e); } _ => { check(false, $id + 1); return false; } } i += 1; }
    if $n * $w == $want.len() { check(next(&mut st, $pend).is_none(), $id + 2); }
    true
}} }
fn be(b: &[u8]) -> u64 { let mut v = 0u64; for x in b { v = v << 8 | *x as u64; } v }
fn values(d: DataStream<BufReader<Net>>, bp: usize, n: usize, want: &[u8], pend: &mut usize) -> bool {
    match (bp, d) {
        (0, DataStream::U8(st)) => px!(st, n, want, 1, pend, 20, |v| v as u64),
        (1, DataStream::I16(st)) => px!(st, n, want, 2, pend, 23, |v| v as u16 as u64),
        (2, DataStream::I32(st)) => px!(st, n, want, 4, pend, 26, |v| v as u32 as u64),
        (3, DataStream::I64(st)) => px!(st, n, want, 8, pend, 29, |v| v as u64),
        (4, DataStream::F32(st)) => px!(st, n, want, 4, pend, 32, |v| v.to_bits() as u64),
        (5, DataStream::F64(st)) => px!(st, n, want, 8, pend, 35, |v| v.to_bits()),
        _ => { check(false, 38); false }
    }
}
/// polls a data stream until it is not ready or ends, checking its values, then drops it
fn abandon(d: DataStream<BufReader<Net>>, bp: usize, want: &[u8], pend: &mut usize) {
    fn go<S: Stream<Item = std::io::Result<[T; 1]>> + Unpin, T>(mut st: S, w: usize, want: &[u8], pend: &mut usize, f: impl Fn(T) -> u64) {
        let wk = waker();
        let mut cx = Context::from_waker(&wk);
        let mut i = 0;
        loop {
            match st.poll_next_unpin(&mut cx) {
                Poll::Pending => { *pend += 1; return; }
                Poll::Ready(Some(Ok([v]))) => { if (i + 1) * w > want.len() { check(false, 50); return; } check(f(v) == be(&want[i * w..(i + 1) * w]), 51); i += 1; }
                Poll::Ready(Some(Err(_))) => { check(false, 52); return; }
                Poll::Ready(None) => { check(i * w == want.len(), 53); return; }
            }
        }
    }
    match (bp, d) {
        (0, DataStream::U8(st)) => go(st, 1, want, pend, |v| v as u64),
        (1, DataStream::I16(st)) => go(st, 2, want, pend, |v| v as u16 as u64),
        (2, DataStream::I32(st)) => go(st, 4, want, pend, |v| v as u32 as u64),
        (3, DataStream::I64(st)) => go(st, 8, want, pend, |v| v as u64),
        (4, DataStream::F32(st)) => go(st, 4, want, pend, |v| v.to_bits() as u64),
        (5, DataStream::F64(st)) => go(st, 8, want, pend, |v| v.to_bits()),
        _ => check(false, 54),
    }
}
/// A file of a primary image, a second HDU (image, binary or ASCII table) and an empty last image; the reader stops once or twice anywhere in a window.
/// params: second HDU (0 image, 1 binary table, 2 ASCII table), BITPIX index, pixels, values of each data unit to consume (99: all, 98: until the reader is not ready), buffer capacity,
/// stops (0..=2), start of the window, length of the window, times not ready at a stop, chunk size (0: any), filler cards in the second header, drop the final padding
pub fn h_async() {
    let (kind, bp, npix, read, cap, nstops, wstart, wlen, not_ready, chunk, fill, cut) = (param(0), param(1), param(2), param(3), param(4), param(5), param(6), param(7), param(8), param(9), param(10), param(11));
    let w = BITPIX[bp].unsigned_abs() as usize / 8;
    let (d0, d1) = (vec(npix * w), vec(npix * w));
    let mut f = image(false, BITPIX[bp], &[npix as i64]).str(b"OBJECT", b"FIRST").end();
    let off0 = f.len();
    f.extend_from_slice(&d0); pad(&mut f, 0);
    let mut h = H::new();
    match kind {
        0 => { h = image(true, BITPIX[bp], &[npix as i64]); }
        1 => { h.str(b"XTENSION", b"BINTABLE").int(b"BITPIX", 8).int(b"NAXIS", 2).int(b"NAXIS1", w as i64).int(b"NAXIS2", npix as i64).int(b"PCOUNT", 0).int(b"GCOUNT", 1).int(b"TFIELDS", 1); let mut t = dec(w as u64); t.push(b'B'); h.str(b"TFORM1", &t); }
        _ => { h.str(b"XTENSION", b"TABLE").int(b"BITPIX", 8).int(b"NAXIS", 2).int(b"NAXIS1", w as i64).int(b"NAXIS2", npix as i64).int(b"PCOUNT", 0).int(b"GCOUNT", 1).int(b"TFIELDS", 1).int(b"TBCOL1", 1); let mut t = b"A".to_vec(); t.extend(dec(w as u64)); h.str(b"TFORM1", &t); }
    }
    h.str(b"OBJECT", b"SECOND");
    for _ in 0..fill { h.raw(b"COMMENT filler"); }
    f.extend(h.end());
    let off1 = f.len();
    f.extend_from_slice(&d1);
    let last = cut == 0;
    if last { pad(&mut f, 0); f.extend(image(true, 16, &[]).str(b"OBJECT", b"LAST").end()); }
    // where the window starts: 0 file, 1 around the first data unit, 2 around the second header's end, 3 end of the second data unit
    let base = match wstart / 10000 { 0 => 0, 1 => off0, 2 => off1, _ => off1 + d1.len() } + wstart % 10000;
    let base = base - 40.min(base);
    let mut stops = vec![];
    let mut from = base;
    for _ in 0..nstops { let s = from + choose(wlen - (from - base)); if s >= f.len() { assume(false); } stops.push(s); from = s + 1; if from - base >= wlen { break; } }
    let mut pend = 0;
    let net = Net { data: f, pos: 0, stops, not_ready, left: not_ready, chunk: if chunk == 0 { usize::MAX } else { chunk } };
    let mut fits = AsyncFits::from_reader(BufReader::with_capacity(cap, net));
    let n = if read >= 98 { npix } else { read };
    match next(&mut fits, &mut pend) {
        Some(Ok(AsyncHDU::Primary(h))) => {
            check(h.get_header().get_parsed::<String>("OBJECT").ok().as_deref() == Some("FIRST"), 1);
            check(h.get_header().get_xtension().get_naxis() == [npix as u64], 2);
            if read == 98 { let d = fits.get_data(&h); abandon(d, bp, &d0, &mut pend); } else if n > 0 || read == 99 { let d = fits.get_data(&h); if !values(d, bp, n, &d0, &mut pend) { return; } }
        }
        _ => { check(false, 3); return; }
    }
    match (kind, next(&mut fits, &mut pend)) {
        (0, Some(Ok(AsyncHDU::XImage(h)))) => {
            check(h.get_header().get_parsed::<String>("OBJECT").ok().as_deref() == Some("SECOND"), 4);
            if read == 98 { let d = fits.get_data(&h); abandon(d, bp, &d1, &mut pend); } else if n > 0 || read == 99 { let d = fits.get_data(&h); if !values(d, bp, n, &d1, &mut pend) { return; } }
        }
        (1, Some(Ok(AsyncHDU::XBinaryTable(h)))) => {
            check(h.get_header().get_parsed::<String>("OBJECT").ok().as_deref() == Some("SECOND"), 4);
            let k = if read >= 98 { npix * w } else { read };
            let st = fits.get_data(&h);
            if !(|| px!(st, k, d1, 1, &mut pend, 40, |v| v as u64))() { return; }
        }
        (2, Some(Ok(AsyncHDU::XASCIITable(h)))) => {
            check(h.get_header().get_parsed::<String>("OBJECT").ok().as_deref() == Some("SECOND"), 4);
            let k = if read >= 98 { npix * w } else { read };
            let st = fits.get_data(&h);
            if !(|| px!(st, k, d1, 1, &mut pend, 43, |v| v as u64))() { return; }
        }
        _ => { check(false, 5); return; }
    }
    if last {
        match next(&mut fits, &mut pend) {
            Some(Ok(AsyncHDU::XImage(h))) => check(h.get_header().get_parsed::<String>("OBJECT").ok().as_deref() == Some("LAST"), 6),
            _ => { check(false, 7); return; }
        }
    }
    check(next(&mut fits, &mut pend).is_none(), 8);
    check(next(&mut fits, &mut pend).is_none(), 9);
    observe(pend as u64);
    if pend > 0 { cover(2); }
    cover(1);
}
