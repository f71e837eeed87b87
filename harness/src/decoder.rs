//! FITS images through the `image` crate.
use crate::build::*;
use crate::sym::*;
use crate::tiles;
use fitsrs::image_integration::register_fits_decoding_hook;
use image::metadata::Orientation;
use image::{ColorType, ImageDecoder, ImageReader};
use std::io::Cursor;

fn be(b: &[u8]) -> u64 { let mut x = 0; for &y in b { x = x << 8 | y as u64; } x }
/// params: layout (0 primary, 1 extension after an empty primary, 2 after a table and an empty image and before another image, 3 tile compressed), BITPIX index, scaling (0 none, 1..=4), axes (0: 2, 1: third of length 1, 2: third of length 3, 3: third of length 2, 4: only one, 5: four, 6: none), width, height
pub fn h_decode() {
    let (lay, bp, sc, ax, w, h) = (param(0), param(1), param(2), param(3), param(4), param(5));
    let size = (BITPIX[bp].unsigned_abs() / 8) as usize;
    let dims: Vec<usize> = match ax { 0 => vec![w, h], 1 => vec![w, h, 1], 2 => vec![w, h, 3], 3 => vec![w, h, 2], 4 => vec![w], 5 => vec![w, h, 1, 1], _ => vec![] };
    let n: usize = if dims.is_empty() { 0 } else { dims.iter().product() };
    let (bs, bz) = [(1.0, 0.0), (1.0, if bp == 0 { -128.0 } else { 32768.0 }), (2.0, 0.0), (0.5, -3.0), (-1.0, 100.0)][sc];
    let scale: Vec<(&[u8], &[u8])> = match sc { 0 => vec![], 1 => vec![(b"BZERO", if bp == 0 { b"-128" } else { b"32768" })], 2 => vec![(b"BSCALE", b"2.0")], 3 => vec![(b"BSCALE", b"5.0E-1"), (b"BZERO", b"-3.")], _ => vec![(b"BSCALE", b"-1"), (b"BZERO", b"100")] };
    // the pixels, as big-endian bits
    let mut px: Vec<u64> = vec![]; let mut data = vec![];
    let mut f = vec![];
    if lay == 3 {
        let mut blobs = vec![]; let row = dims[0];
        for _ in 0..n / row {
            let mut t = vec![];
            for _ in 0..row { let v = match bp { 0 => byte() as u32, 1 => u16() as i16 as i32 as u32, _ => u32() }; t.push(v); px.push(match bp { 0 => v as u64 & 0xff, 1 => v as u64 & 0xffff, _ => v as u64 }); }
            let mut b = vec![]; for v in &t { b.extend_from_slice(&v.to_be_bytes()); }
            blobs.push(tiles::gzip(&b, 65535));
        }
        let one: Vec<f64> = blobs.iter().map(|_| 0.5).collect(); let zero: Vec<f64> = blobs.iter().map(|_| 2.0).collect();
        let mut t = vec![1; dims.len()]; t[0] = row;
        let spec = tiles::Spec { cmp: 1, bp, block: 32, dims: dims.clone(), tiles: t, give_tiles: false, lay: 0, q: 1, z0: 0, blank: 0, extra: scale.iter().map(|(k, v)| (k.to_vec(), v.to_vec())).collect() };
        f = tiles::file(&spec, &blobs, &one, &zero, &[]);
        pad(&mut f, 0);
    } else {
        if lay > 0 { f.extend(image(false, 8, &[]).end()); }
        if lay == 2 {
            let mut t = H::new();
            t.str(b"XTENSION", b"BINTABLE").int(b"BITPIX", 8).int(b"NAXIS", 2).int(b"NAXIS1", 2).int(b"NAXIS2", 1).int(b"PCOUNT", 0).int(b"GCOUNT", 1).int(b"TFIELDS", 1).str(b"TFORM1", b"1I");
            f.extend(t.end()); f.extend([7, 7]); pad(&mut f, 0);
            f.extend(image(true, 16, &[0, 2]).end());
        }
        let d: Vec<i64> = dims.iter().map(|x| *x as i64).collect();
        let mut i = image(lay > 0, BITPIX[bp], &d);
        for (k, v) in &scale { i.val(k, v); }
        f.extend(i.end());
        for _ in 0..n { let b = vec(size); px.push(be(&b)); data.extend(b); }
        f.extend(data); pad(&mut f, 0);
    }
    // not the first image
    f.extend(image(true, 8, &[3, 3]).end()); f.extend([9; 9]); pad(&mut f, 0);
    register_fits_decoding_hook();
    let rd = match ImageReader::new(Cursor::new(f)).with_guessed_format() { Ok(r) => r, Err(_) => { check(false, 1); return; } };
    let mut dec = match rd.into_decoder() { Ok(d) => d, Err(_) => { observe(0); check(ax >= 3 && ax != 6, 2); cover(1); return; } };
    let rgb = ax == 2;
    check(ax <= 2 || ax == 6, 3);
    let (ww, hh) = dec.dimensions();
    if ax == 6 { check(ww == 3 && hh == 3, 13); cover(1); return; }
    check(ww == w as u32 && hh == h as u32, 4);
    check(matches!(dec.orientation(), Ok(Orientation::FlipVertical)), 5);
    let ct = dec.color_type();
    check(ct == match (bp, rgb) { (0, false) => ColorType::L8, (0, true) => ColorType::Rgb8, (1, false) => ColorType::L16, (1, true) => ColorType::Rgb16, _ => ColorType::Rgb32F }, 6);
    let np = w * h;
    let (chan, cs) = match bp { 0 => (if rgb { 3 } else { 1 }, 1), 1 => (if rgb { 3 } else { 1 }, 2), _ => (3, 4) };
    check(dec.total_bytes() == (np * chan * cs) as u64, 7);
    if dec.total_bytes() != (np * chan * cs) as u64 { return; }
    let mut buf = vec![0xa5u8; np * chan * cs];
    check(dec.read_image(&mut buf).is_ok(), 8);
    for p in 0..np { for c in 0..chan {
        let v = px[if rgb { c * np + p } else { p }];
        let at = (p * chan + c) * cs; let mut got = 0u64; for k in (0..cs).rev() { got = got << 8 | buf[at + k] as u64; }
        observe(got);
        if bp < 2 {
            let max = if bp == 0 { 255 } else { 65535 };
            let x = if bp == 0 { v as i64 } else { v as u16 as i16 as i64 };
            // twice the value, rounded half away from zero
            let t = x * (2.0 * bs) as i64 + (2.0 * bz) as i64;
            let r = if t >= 0 { (t + 1) >> 1 } else { 0 };
            check(got == r.min(max) as u64, 9);
        } else {
            let g = f32::from_bits(got as u32);
            let e = match bp {
                2 => (v as u32 as i32 as f64).mul_add(bs / 2147483647.0, bz / 2147483647.0) as f32,
                3 => (v as i64 as f64).mul_add(bs / 9223372036854775807.0, bz / 9223372036854775807.0) as f32,
                4 if lay == 3 => (v as u32 as i32 as f32) * 0.5 + 2.0,
                4 => f32::from_bits(v as u32),
                _ if lay == 3 => (v as u32 as i32 as f32) * 0.5 + 2.0,
                _ => f64::from_bits(v) as f32,
            };
            let same = if got == e.to_bits() as u64 { true } else if g.is_nan() { e.is_nan() } else { let (g, e) = (g as f64, e as f64); (g - e).abs() <= e.abs() / 1048576.0 + 1.0 / 268435456.0 };
            check(same, 10);
        }
    } }
    cover(1);
}
