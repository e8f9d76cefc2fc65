//! Pixels: every pair of pixels blended, every placement, every image through a file.
use dmm_tools::dmi::{Image, Rgba8};
use mc_common::*;

/// Exact source-over of one channel, as (alpha * 255, colour numerator): colour = num / den.
fn exact(s: u32, sa: u32, d: u32, da: u32) -> (u32, u64, u64) {
    let w = da * (255 - sa);
    let den = sa * 255 + w;
    (den, s as u64 * sa as u64 * 255 + d as u64 * w as u64, den as u64)
}

pub fn check(r: &mut Runner) {
    r.assume("blended channels may differ from the exact result by less than one level (rounding); alpha likewise");

    // ---- every pixel on every pixel: one case per (source alpha, target alpha)
    r.suite("blend", "every source alpha, target alpha, source level and target level (2^32 pixel pairs)", 65536, |i, c| {
        let (sa, da) = ((i >> 8) as u32, (i & 255) as u32);
        c.input(|| format!("source alpha {sa}, target alpha {da}"));
        let mut src = Image::new_rgba(256, 256);
        let mut dst = Image::new_rgba(256, 256);
        for (n, p) in src.data.as_slice_mut().unwrap().iter_mut().enumerate() {
            let s = (n & 255) as u8;
            *p = Rgba8::new(s, 255 - s, s ^ 0x55, sa as u8);
        }
        for (n, p) in dst.data.as_slice_mut().unwrap().iter_mut().enumerate() {
            let d = (n >> 8) as u8;
            *p = Rgba8::new(d, d, 255 - d, da as u8);
        }
        dst.composite(&src, (0, 0), (0, 0, 256, 256), [255; 4]);
        for (n, p) in dst.data.as_slice().unwrap().iter().enumerate() {
            let (s, d) = ((n & 255) as u32, (n >> 8) as u32);
            for (got, s, d) in [(p.r, s, d), (p.g, 255 - s, d), (p.b, s ^ 0x55, 255 - d)] {
                let (a255, num, den) = exact(s, sa, d, da);
                let ok_a = (p.a as i64 * 255 - a255 as i64).abs() < 255;
                let ok = if den == 0 { got == 0 } else { (got as i64 * den as i64 - num as i64).abs() < den as i64 };
                if !ok || !ok_a {
                    return c.fail(
                        "blend",
                        format!("level {s} alpha {sa} over level {d} alpha {da}: got level {got} alpha {}, exact {:.3} alpha {:.3}", p.a, num as f64 / den as f64, a255 as f64 / 255.),
                    );
                }
            }
        }
        c.trans(65536);
        c.state(&i);
    });
    r.suite("tint", "every tint of every level and alpha, per channel", 4 * 256, |i, c| {
        let (chan, tint) = ((i / 256) as usize, (i % 256) as u8);
        let mut color = [255, 255, 255, 255];
        color[chan] = tint;
        c.input(|| format!("tint {color:?}"));
        let mut src = Image::new_rgba(256, 1);
        for (n, p) in src.data.as_slice_mut().unwrap().iter_mut().enumerate() {
            *p = Rgba8::new(200, 100, 50, 255);
            p[chan as u8] = n as u8;
        }
        let mut dst = Image::new_rgba(256, 1);
        dst.composite(&src, (0, 0), (0, 0, 256, 1), color);
        for (n, p) in dst.data.as_slice().unwrap().iter().enumerate() {
            let mut want = [200u8, 100, 50, 255];
            want[chan] = (n as u32 * tint as u32 / 255) as u8;
            let visible = want[3] != 0;
            for k in 0..4 {
                let w = if visible { want[k] } else { 0 } as i32;
                let exact = if k == chan { n as f64 * tint as f64 / 255. } else { w as f64 };
                let got = p[k as u8] as i32;
                let ok = if visible { (got as f64 - exact).abs() < 1.0 } else { got == 0 };
                if !ok {
                    return c.fail("tint", format!("channel {k} of level {n} tinted {color:?}: {:?}", p));
                }
            }
        }
        c.trans(256);
        c.state(&i);
    });
    // tint multiplies before blending
    r.suite("tinted-blend", "every alpha tint of translucent sources over opaque and translucent targets", 256 * 4 * 4, |i, c| {
        let mut d = Digits(i);
        let tint = d.take(256) as u8;
        let sa = *d.pick(&[1u8, 77, 128, 255]);
        let da = *d.pick(&[0u8, 3, 128, 255]);
        c.input(|| format!("alpha tint {tint}, source alpha {sa}, target alpha {da}"));
        let mk = |p: Rgba8| {
            let mut im = Image::new_rgba(1, 1);
            im.data.as_slice_mut().unwrap()[0] = p;
            im
        };
        let mut a = mk(Rgba8::new(10, 20, 30, da));
        a.composite(&mk(Rgba8::new(250, 128, 60, sa)), (0, 0), (0, 0, 1, 1), [128, 64, 255, tint]);
        let t = |x: u8, y: u8| (x as u16 * y as u16 / 255) as u8;
        let mut b = mk(Rgba8::new(10, 20, 30, da));
        b.composite(&mk(Rgba8::new(t(250, 128), t(128, 64), 60, t(sa, tint))), (0, 0), (0, 0, 1, 1), [255; 4]);
        for k in 0..4u8 {
            let (x, y) = (a.data.as_slice().unwrap()[0][k] as i32, b.data.as_slice().unwrap()[0][k] as i32);
            if (x - y).abs() > 1 {
                c.fail("tinted blend", format!("{:?} vs {:?}", a.data, b.data));
            }
        }
        c.trans(2);
        c.state(&i);
    });

    // ---- placement
    let (dw, dh, sw, sh) = (5u32, 4u32, 4u32, 3u32);
    let mut spots = vec![];
    for cx in 0..sw {
        for cy in 0..sh {
            for w in 0..=sw - cx {
                for h in 0..=sh - cy {
                    for x in 0..=dw - w.min(dw) {
                        for y in 0..=dh - h.min(dh) {
                            spots.push((x, y, cx, cy, w, h));
                        }
                    }
                }
            }
        }
    }
    let spots = &spots;
    r.suite("placement", "every crop of a 4x3 image at every place of a 5x4 image", spots.len() as u64, |i, c| {
        let (x, y, cx, cy, w, h) = spots[i as usize];
        c.input(|| format!("crop ({cx},{cy}) {w}x{h} at ({x},{y})"));
        let mut dst = Image::new_rgba(dw, dh);
        for (n, p) in dst.data.as_slice_mut().unwrap().iter_mut().enumerate() {
            *p = Rgba8::new(n as u8, 1, 2, 255);
        }
        let mut src = Image::new_rgba(sw, sh);
        for (n, p) in src.data.as_slice_mut().unwrap().iter_mut().enumerate() {
            *p = Rgba8::new(100 + n as u8, 9, 9, 255);
        }
        dst.composite(&src, (x, y), (cx, cy, w, h), [255; 4]);
        for py in 0..dh {
            for px in 0..dw {
                let got = dst.data.as_slice().unwrap()[(py * dw + px) as usize];
                let want = if px >= x && px < x + w && py >= y && py < y + h {
                    Rgba8::new(100 + ((py - y + cy) * sw + px - x + cx) as u8, 9, 9, 255)
                } else {
                    Rgba8::new((py * dw + px) as u8, 1, 2, 255)
                };
                c.check_eq("pixel", &want, &got);
            }
        }
        c.trans(1);
        c.state(&i);
    });

    // ---- files
    let levels = [0u8, 1, 127, 128, 254, 255];
    let sizes = [(1u32, 1u32), (2, 1), (1, 2), (3, 2), (2, 3)];
    r.suite("image-files", "images of several shapes through PNG bytes, all pairs of pixels over six levels per channel", 6u64.pow(4) * 6 * sizes.len() as u64, |i, c| {
        let mut d = Digits(i);
        let (w, h) = *d.pick(&sizes);
        let p = Rgba8::new(*d.pick(&levels), *d.pick(&levels), *d.pick(&levels), *d.pick(&levels));
        let q = *d.pick(&levels);
        let mut img = Image::new_rgba(w, h);
        for (n, x) in img.data.as_slice_mut().unwrap().iter_mut().enumerate() {
            *x = if n % 2 == 0 { p } else { Rgba8::new(q, n as u8, p.r, p.a) };
        }
        c.input(|| format!("{img:?}"));
        match img.to_bytes().and_then(|b| Image::from_bytes(&b)) {
            Ok(back) => {
                c.check_eq("size", &(w, h), &(back.width, back.height));
                c.check_eq("pixels", &img.data.as_slice().unwrap(), &back.data.as_slice().unwrap());
            },
            Err(e) => c.fail("file", e.to_string()),
        }
        c.trans(2);
        c.state(&i);
    });
}
