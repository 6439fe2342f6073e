//! Monitored workloads, second part.
use crate::checks::*;
use crate::r#gen::*;
use crate::io::*;
use crate::obs::*;
use crate::refgif::*;
use crate::util::*;
use gift::block::*;
use gift::{Decoder, Encoder, Step};
use pix::Raster;
use pix::gray::Gray8;
use std::process::Command;
use std::rc::Rc;

// ---------------------------------------------------------------- C14

fn image_file(screen: (u16, u16), d: Desc, min: u8, payload: &[u8], rng: &mut Rng) -> Vec<u8> {
    let mut v = vec![];
    ser_plain(&RB::Header(*b"89a"), &mut v);
    let l = Lsd { w: screen.0, h: screen.1, flags: 0x80, ..Default::default() };
    ser_plain(&RB::Lsd(l), &mut v);
    v.extend_from_slice(&[1, 2, 3, 4, 5, 6]);
    ser_plain(&RB::Desc(d), &mut v);
    ser_payload(&mut v, min, payload, rng);
    v.push(0x3B);
    v
}

/// Outcome and peak memory at one level; items are dropped as they come
fn level(data: &[u8], max: MaxSz, lv: usize) -> (usize, Option<Ek>, u64) {
    let mut n = 0;
    let mut e = None;
    let mut px = 0u64;
    match lv {
        0 => {
            for b in decoder(data, max).into_blocks() {
                match b {
                    Ok(Block::ImageData(d)) => {
                        n += 1;
                        px += d.data().len() as u64;
                    }
                    Ok(_) => (),
                    Err(x) => e = Some(ek(&x)),
                }
            }
        }
        1 => {
            for f in decoder(data, max).into_frames() {
                match f {
                    Ok(f) => {
                        n += 1;
                        px += f.image_data.data().len() as u64;
                    }
                    Err(x) => e = Some(ek(&x)),
                }
            }
        }
        _ => {
            let d = decoder(data, max);
            let it: Box<dyn Iterator<Item = gift::Result<Step>>> =
                if lv == 2 { Box::new(d.into_steps()) } else { Box::new(d.into_iter()) };
            for s in it.take(100_000) {
                match s {
                    Ok(s) => {
                        n += 1;
                        px += s.raster().as_u8_slice().len() as u64 / 4;
                    }
                    Err(x) => {
                        e = Some(ek(&x));
                        break;
                    }
                }
            }
        }
    }
    (n, e, px)
}

const LEVELS: [&str; 4] = ["blocks", "frames", "steps", "looping"];

fn dims_near(rng: &mut Rng, px: usize) -> (u16, u16) {
    let w = rng.range(1, px.clamp(1, 300));
    (w as u16, (px / w).clamp(1, 65535) as u16)
}

pub fn c14(ctx: &mut Ctx, rng: &mut Rng, idx: u64) -> Res {
    let kind = if idx < 2 && !ctx.tiny { 9 } else { idx % 7 };
    let min = if rng.one_in(2) { 2 } else { rng.range(3, 8) as u8 };
    let full = |w: u16, h: u16, rng: &mut Rng| {
        // a complete one-colour image, cheaply encoded
        let px = vec![0; w as usize * h as usize];
        lzw_encode(&px, &LzwOpts::plain(min), rng)
    };
    let expect = |what: &str,
                  data: &[u8],
                  max: MaxSz,
                  lv: usize,
                  err: Option<Ek>,
                  n: usize,
                  bound: usize,
                  ctx: &mut Ctx|
     -> Res {
        let (r, peak) = measure_peak(|| guard(|| level(data, max, lv)));
        let what = format!("{what}, limit {max:?}, {} level", LEVELS[lv]);
        let files: &[(&str, &[u8])] = &[("input.gif", data)];
        match r {
            Err(p) => return vio(format!("{what}: {p}"), files),
            Ok((gn, ge, _)) => {
                if ge != err || gn != n {
                    return vio(
                        format!("{what}: {gn} images then {ge:?}; expected {n} then {err:?}"),
                        files,
                    );
                }
            }
        }
        if peak > bound {
            return vio(
                format!("{what}: peak memory {peak} bytes, bound {bound}, input {}", data.len()),
                files,
            );
        }
        ctx.max("peak_bytes", peak as u64);
        ctx.max("peak_percent_of_bound", (peak * 100 / bound.max(1)) as u64);
        Ok(())
    };
    let bound = |lim: usize, len: usize| 24 * lim + 128 * len + (256 << 10);
    match kind {
        0 | 1 => {
            // exact boundary, for the image and for the screen
            let (w, h) = (rng.range(1, 90) as u16, rng.range(1, 90) as u16);
            let px = w as usize * h as usize;
            let p = full(w, h, rng);
            let d = Desc { w, h, ..Default::default() };
            let data = image_file((w, h), d, min, &p, rng);
            let vast = rng.pick(&[usize::MAX, usize::MAX - 1, isize::MAX as usize, 1 << 32, u32::MAX as usize, 1 << 31]);
            for lim in [Some(px), Some(px - 1), Some(px + 1), Some(0), Some(px / 2), None, Some(vast)] {
                let max = MaxSz::Set(lim);
                let over = lim.is_some_and(|l| px > l);
                let err = if over { Some(Ek::TooLarge) } else { None };
                for lv in 0..4 {
                    let b = bound(lim.unwrap_or(px).min(px + 1), data.len());
                    expect(&format!("{w}x{h} image"), &data, max, lv, err, !over as usize, b, ctx)?;
                    ctx.add("boundary_trials", 1);
                }
            }
            // small frame on a screen around the limit
            let d = Desc { w: 1, h: 1, ..Default::default() };
            let p = full(1, 1, rng);
            let data = image_file((w, h), d, min, &p, rng);
            for lim in [px, px.saturating_sub(1).max(1), px + 1] {
                let over = px > lim;
                let err = if over { Some(Ek::TooLarge) } else { None };
                let b = bound(lim, data.len());
                let max = MaxSz::Set(Some(lim));
                expect(&format!("{w}x{h} screen"), &data, max, 2, err, !over as usize, b, ctx)?;
                expect(&format!("{w}x{h} screen"), &data, max, 1, None, 1, b, ctx)?;
                ctx.add("screen_boundary_trials", 1);
            }
            ctx.distinct(mix(px as u64) ^ w as u64);
        }
        2 => {
            // compression bomb
            let lim = 1 << rng.range(4, if ctx.tiny { 6 } else { 17 });
            let px = rng.range(1, lim);
            let (w, h) = dims_near(rng, px);
            let tail = if ctx.tiny { 3 } else { rng.range(2000, 12_000) };
            let min = rng.range(2, 8) as u8;
            let (p, total) = lzw_bomb(min, tail, rng.one_in(2));
            let d = Desc { w, h, ..Default::default() };
            let data = image_file((w, h), d, min, &p, rng);
            for lv in 0..3 {
                let b = bound(lim, data.len());
                let what = format!("{w}x{h} image with {total} pixels in {} bytes", p.len());
                expect(&what, &data, MaxSz::Set(Some(lim)), lv, None, 1, b, ctx)?;
            }
            ctx.add("bombs", 1);
            ctx.max("bomb_expansion", total / p.len() as u64);
            ctx.distinct(hash_bytes(&data));
            ctx.sample(|| format!("limit {lim}, {w}x{h}, {} bytes expanding to {total}", p.len()));
        }
        3 | 4 => {
            // declared sizes far over the limit are refused without allocating
            let mut lim = rng.pick(&[0, 1, 100, 65536, 1 << 20]);
            let (mut w, mut h) = (rng.edge16(), rng.edge16());
            if rng.one_in(2) {
                // just over a limit of any size
                let k = rng.range(1, 31);
                let any = rng.below(1 << k);
                let any = rng.pick(&[0, 0, 1, 2, any]);
                lim = ((1usize << k) + any).saturating_sub(1);
                if rng.one_in(8) {
                    lim = rng.pick(&[1 << 25, (1 << 25) - 1, (1 << 25) + 1, 65535, 65536, 1 << 31]);
                }
                let least = (lim / 65535 + 1).min(65535);
                let exact = (least..65536).filter(|w| (lim + 1) % w == 0 && (lim + 1) / w < 65536);
                let exact: Vec<usize> = exact.collect();
                let wide = match exact.len() {
                    0 => rng.range(least, 65535),
                    _ => rng.pick(&exact),
                };
                w = wide as u16;
                h = (lim / wide + 1) as u16;
                ctx.add("oversize_by_little", 1);
            }
            if w as usize * h as usize <= lim {
                (w, h) = (65535, rng.range(20, 65535) as u16);
            }
            let tiny = Desc { w: 1, h: 1, ..Default::default() };
            let p = full(1, 1, rng);
            let small = 192 << 10;
            if kind == 3 {
                let d = Desc { w, h, ..Default::default() };
                let data = image_file((w, h), d, min, &p, rng);
                for lv in 0..3 {
                    let what = format!("{w}x{h} image");
                    let max = MaxSz::Set(Some(lim));
                    expect(&what, &data, max, lv, Some(Ek::TooLarge), 0, small, ctx)?;
                }
                ctx.add("oversize_images", 1);
            } else {
                let lim = lim.max(1);
                let data = image_file((w, h), tiny, min, &p, rng);
                let what = format!("{w}x{h} screen");
                let max = MaxSz::Set(Some(lim));
                if w as usize * h as usize > lim {
                    expect(&what, &data, max, 2, Some(Ek::TooLarge), 0, small, ctx)?;
                }
                ctx.add("oversize_screens", 1);
            }
            ctx.distinct(mix((w as u64) << 32 | (h as u64) << 16 | kind));
        }
        5 => {
            // many images: memory does not add up
            let (w, h) = (rng.range(20, 60) as u16, rng.range(20, 60) as u16);
            let lim = w as usize * h as usize;
            let n = if ctx.tiny { 4 } else { rng.range(50, 250) };
            let p = full(w, h, rng);
            let mut v = image_file((w, h), Desc { w, h, ..Default::default() }, min, &p, rng);
            v.pop();
            let mut one = vec![];
            for i in 1..n {
                one.clear();
                let g = Gc { flags: ((i % 4) as u8) << 2, ..Default::default() };
                ser_plain(&RB::Gc(g), &mut one);
                ser_plain(&RB::Desc(Desc { w, h, ..Default::default() }), &mut one);
                ser_payload(&mut one, min, &p, rng);
                v.extend_from_slice(&one);
            }
            v.push(0x3B);
            for lv in 0..3 {
                let what = format!("{n} images of {w}x{h}");
                let b = 24 * lim + 128 * (v.len() / n) + (256 << 10);
                expect(&what, &v, MaxSz::Set(Some(lim)), lv, None, n, b, ctx)?;
            }
            ctx.add("long_animations", 1);
            ctx.distinct(hash_bytes(&v));
        }
        6 => {
            // an image over the limit after some within it
            let (w, h) = (rng.range(1, 40) as u16, rng.range(1, 40) as u16);
            let px = w as usize * h as usize;
            let n = rng.range(1, 4);
            let small = (rng.range(1, w as usize) as u16, rng.range(1, h as usize) as u16);
            let mut lim = small.0 as usize * small.1 as usize;
            lim += rng.below(px.saturating_sub(lim).max(1));
            if lim >= px {
                return Ok(());
            }
            let mut v = vec![];
            ser_plain(&RB::Header(*b"89a"), &mut v);
            // the screen itself is within the limit
            let l = Lsd { w: small.0, h: small.1, flags: 0x80, ..Default::default() };
            ser_plain(&RB::Lsd(l), &mut v);
            v.extend_from_slice(&[1, 2, 3, 4, 5, 6]);
            for i in 0..=n {
                let (w, h) = if i == n { (w, h) } else { small };
                if rng.one_in(2) {
                    ser_plain(&RB::Gc(gc(rng, 2)), &mut v);
                }
                let mut d = Desc { w, h, ..Default::default() };
                d.flags = rng.pick(&[0, 0x40, 0x80, 0xC0]);
                ser_plain(&RB::Desc(d), &mut v);
                if d.flags & 0x80 != 0 {
                    v.extend_from_slice(&[1, 2, 3, 4, 5, 6]);
                }
                let p = full(w, h, rng);
                ser_payload(&mut v, min, &p, rng);
            }
            v.push(0x3B);
            for lv in 0..4 {
                let what = format!("{n} images of {small:?} and one of {w}x{h}");
                let b = bound(lim, v.len()) + 4 * lim * n;
                expect(&what, &v, MaxSz::Set(Some(lim)), lv, Some(Ek::TooLarge), n, b, ctx)?;
            }
            ctx.add("late_oversize_images", 1);
            ctx.distinct(hash_bytes(&v));
        }
        _ => {
            // the default limit
            let (p, total) = lzw_bomb(2, 8000, true);
            assert!(total >= 1 << 25);
            let (w, h) = if idx == 0 { (8192u16, 4096u16) } else { (4096, 8192) };
            let d = Desc { w, h, ..Default::default() };
            let data = image_file((w, h), d, 2, &p, rng);
            for lv in 0..3 {
                let b = bound(1 << 25, data.len());
                expect("2^25 pixels", &data, MaxSz::Default, lv, None, 1, b, ctx)?;
            }
            let (w, h) = (w + (idx == 0) as u16, h + (idx == 1) as u16);
            let d = Desc { w, h, ..Default::default() };
            let data = image_file((w, h), d, 2, &p, rng);
            for lv in 0..3 {
                let e = Some(Ek::TooLarge);
                expect("just over 2^25 pixels", &data, MaxSz::Default, lv, e, 0, 192 << 10, ctx)?;
            }
            expect(
                "just over 2^25 pixels",
                &data,
                MaxSz::Set(None),
                0,
                None,
                1,
                bound(1 << 25, data.len()),
                ctx,
            )?;
            ctx.add("default_limit_trials", 1);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C15

pub fn c15(ctx: &mut Ctx, rng: &mut Rng, idx: u64) -> Res {
    if idx % 2 == 0 {
        frame_protocol(ctx, rng, idx / 2)
    } else {
        step_protocol(ctx, rng)
    }
}

fn frame_protocol(ctx: &mut Ctx, rng: &mut Rng, mut k: u64) -> Res {
    // all call sequences up to length 6 first, then random longer ones
    let mut ops = vec![];
    let mut n = 1u64;
    let mut len = 0;
    let exhaustive = loop {
        if k < n {
            break true;
        }
        k -= n;
        n *= 3;
        len += 1;
        if len > 6 {
            break false;
        }
    };
    if exhaustive {
        for _ in 0..len {
            ops.push(k % 3);
            k /= 3;
        }
        ctx.add("exhaustive_call_sequences", 1);
    } else {
        for _ in 0..rng.range(5, 14) {
            ops.push(rng.pick(&[0, 0, 1, 1, 1, 1, 1, 2]));
        }
    }
    let o = GOpt { max_dim: 6, min_frames: 1, max_frames: 1, plain_text: false, ..GOpt::default() };
    let o = if rng.one_in(40) { GOpt { max_dim: 70, ..o } } else { o };
    let (w, log) = MonWriter::new(WritePlan::plain());
    let mut calls: Vec<String> = vec![];
    let mut accepted: (Option<RPreamble>, Vec<RFrame>, bool) = (None, vec![], false);
    let r = guard(|| -> Result<(), String> {
        let mut enc = Encoder::new(w).into_frame_enc();
        for op in &ops {
            let g = gif(rng, &o);
            let ft = ref_frames(&ref_parse(&g.bytes, None, &mut LzwStats::default()));
            let before = log.borrow().bytes.len();
            let (name, r, allowed) = match op {
                0 => {
                    let p = ft.preamble.unwrap();
                    let ok = accepted.0.is_none();
                    let r = enc.encode_preamble(&gpreamble(&p));
                    if ok {
                        accepted.0 = Some(p);
                    }
                    ("preamble", r, ok)
                }
                1 => {
                    let f = ft.frames[0].0.clone();
                    let ok = accepted.0.is_some() && !accepted.2;
                    let r = enc.encode_frame(&gframe(&f));
                    if ok {
                        accepted.1.push(f);
                    }
                    ("frame", r, ok)
                }
                _ => {
                    let ok = accepted.0.is_some() && !accepted.2;
                    let r = enc.encode_trailer();
                    accepted.2 |= ok;
                    ("trailer", r, ok)
                }
            };
            let wrote = log.borrow().bytes.len() - before;
            let r = r.map_err(|e| ek(&e));
            calls.push(format!("{name}:{}", if allowed { "ok" } else { "refused" }));
            if allowed {
                if r.is_err() || wrote == 0 {
                    return Err(format!("call should be accepted, got {r:?}, {wrote} bytes"));
                }
                ctx.add("calls_accepted", 1);
            } else {
                if r != Err(Ek::InvalidBlockSequence) {
                    return Err(format!("call should be refused, got {r:?}"));
                }
                if wrote != 0 {
                    return Err(format!("refused call wrote {wrote} bytes"));
                }
                ctx.add("calls_refused", 1);
            }
        }
        Ok(())
    });
    let v = log.borrow().bytes.clone();
    let bad = |m: String| vio(format!("{}: {m}", calls.join(" ")), &[("output.gif", &v)]);
    match r {
        Err(p) => return bad(p),
        Ok(Err(m)) => return bad(m),
        _ => (),
    }
    // the bytes are those of the accepted calls alone
    let mut st = LzwStats::default();
    let t = ref_parse(&v, None, &mut st);
    let ft = ref_frames(&t);
    if accepted.0.is_none() {
        if !v.is_empty() {
            return bad("bytes without a preamble".into());
        }
    } else {
        let want = if accepted.2 { End::Trailer } else { End::Err(Ek::UnexpectedEof) };
        if t.end != want || t.items.last().map(|i| i.end) != Some(v.len()) {
            return bad(format!("output ends with {:?}", t.end));
        }
        let got: Vec<RFrame> = ft.frames.into_iter().map(|f| f.0).collect();
        if got != accepted.1 {
            return bad("output frames differ from the accepted ones".into());
        }
    }
    ctx.distinct(hash_bytes(calls.join(",").as_bytes()));
    ctx.sample(|| calls.join(" "));
    Ok(())
}

fn step_protocol(ctx: &mut Ctx, rng: &mut Rng) -> Res {
    let mut a = anim(rng, 6, 1, 0);
    let n = rng.below(7);
    let (w, log) = MonWriter::new(WritePlan::plain());
    let mut calls: Vec<String> = vec![];
    let mut ok_steps: Vec<StepSpec> = vec![];
    let r = guard(|| -> Result<usize, String> {
        let mut enc = Encoder::new(w).into_step_enc();
        if let Some(n) = a.loops {
            enc = enc.with_loop_count(n);
        }
        if let Some(g) = &a.global {
            enc = enc.with_global_color_table(&gpalette(g));
        }
        for _ in 0..n {
            let (mut w, mut h) = match ok_steps.first() {
                Some(s) => (s.w, s.h),
                None => (rng.range(1, 6), rng.range(1, 6)),
            };
            match rng.below(8) {
                0 => w += 1,
                1 => h += 1,
                2 => match rng.below(5) {
                    0 => std::mem::swap(&mut w, &mut h),
                    1 => w += rng.pick(&[256, 512, 4096]),
                    2 => h += rng.pick(&[256, 512, 4096]),
                    3 if h % 2 == 0 => (w, h) = (w * 2, h / 2),
                    _ => (w, h) = (w + 1, h.max(2) - 1),
                },
                3 => {
                    if rng.one_in(2) {
                        (w, h) = (rng.range(65536, 70000), 1)
                    } else {
                        (w, h) = (1, rng.range(65536, 70000))
                    }
                }
                _ => (),
            }
            let s = &mut a.steps[0];
            (s.w, s.h) = (w, h);
            if rng.one_in(3) {
                let k = rng.range(1, 40);
                s.pal = palette(rng, k);
            }
            s.data = (0..w * h).map(|_| rng.below(s.pal.len()) as u8).collect();
            let before = log.borrow().bytes.len();
            let r = enc.encode_step(&gstep(s)).map_err(|e| ek(&e));
            let wrote = log.borrow().bytes.len() - before;
            let huge = w > 65535 || h > 65535;
            let same = ok_steps.first().is_none_or(|f| (f.w, f.h) == (w, h));
            calls.push(format!("{w}x{h}"));
            if !huge && same {
                if r.is_err() || wrote == 0 {
                    return Err(format!("step should be accepted, got {r:?}, {wrote} bytes"));
                }
                ok_steps.push(s.clone());
                ctx.add("steps_accepted", 1);
            } else {
                if huge && r.is_ok() || !huge && r != Err(Ek::RasterDims) {
                    return Err(format!("step should be refused, got {r:?}"));
                }
                if wrote != 0 {
                    return Err(format!("refused step wrote {wrote} bytes"));
                }
                ctx.add("steps_refused", 1);
            }
        }
        let before = log.borrow().bytes.len();
        drop(enc);
        Ok(log.borrow().bytes.len() - before)
    });
    let v = log.borrow().bytes.clone();
    let bad = |m: String| vio(format!("steps {}: {m}", calls.join(" ")), &[("output.gif", &v)]);
    match r {
        Err(p) => return bad(p),
        Ok(Err(m)) => return bad(m),
        Ok(Ok(k)) => {
            let want = !ok_steps.is_empty() as usize;
            if k != want {
                return bad(format!("dropping the encoder wrote {k} bytes, expected {want}"));
            }
        }
    }
    if ok_steps.is_empty() {
        if !v.is_empty() {
            return bad(format!("{} bytes although nothing was encoded", v.len()));
        }
        ctx.add("encoders_dropped_unused", 1);
    } else {
        let t = ref_parse(&v, None, &mut LzwStats::default());
        let trailers = t.items.iter().filter(|i| i.b == RB::Trailer).count();
        if t.end != End::Trailer || trailers != 1 || t.items.last().unwrap().end != v.len() {
            return bad(format!("output ends with {:?}", t.end));
        }
        let ft = ref_frames(&t);
        let px: Vec<&Vec<u8>> = ft.frames.iter().map(|f| &f.0.data).collect();
        let want: Vec<&Vec<u8>> = ok_steps.iter().map(|s| &s.data).collect();
        if px != want {
            return bad("output frames differ from the accepted steps".into());
        }
        ctx.add("trailers_seen", trailers as u64);
    }
    ctx.distinct(hash_bytes(calls.join(",").as_bytes()) ^ 7);
    Ok(())
}

// ---------------------------------------------------------------- C16

macro_rules! ens {
    ($ctx:expr, $cond:expr, $($arg:tt)+) => {
        $ctx.add("field_assertions", 1);
        if !$cond {
            return vio(format!($($arg)+), &[]);
        }
    };
}

fn pow2_len(n: usize) -> usize {
    let mut k = 2;
    while k < n && k < 256 {
        k *= 2;
    }
    k
}

fn log2(n: usize) -> u8 {
    n.trailing_zeros() as u8
}

pub fn c16(ctx: &mut Ctx, rng: &mut Rng, idx: u64) -> Res {
    match guard(|| c16_inner(ctx, rng, idx)) {
        Ok(r) => r,
        Err(p) => vio(p, &[]),
    }
}

fn c16_inner(ctx: &mut Ctx, rng: &mut Rng, idx: u64) -> Res {
    use ColorTableExistence::*;
    use ColorTableOrdering::*;
    let exh = if ctx.tiny { 4 } else { 256 };
    if idx < exh {
        let b = idx as u8;
        // screen descriptor flags
        let l = LogicalScreenDesc::default().with_flags(b);
        let c = l.color_table_config();
        let len = 2usize << (b & 7);
        ens!(ctx, l.flags() == b, "screen flags {b:#x}");
        ens!(
            ctx,
            (c.existence() == Present) == (b & 0x80 != 0)
                && (c.ordering() == Sorted) == (b & 0x08 != 0)
                && c.len() == if b & 0x80 != 0 { len } else { 0 }
                && c.is_empty() == (b & 0x80 == 0)
                && c.size_bytes() == 3 * c.len(),
            "screen table configuration of flags {b:#x}: {c:?}"
        );
        ens!(
            ctx,
            l.color_resolution() == 2 << ((b >> 4) & 7),
            "color resolution of flags {b:#x}: {}",
            l.color_resolution()
        );
        // image descriptor flags
        let d = ImageDesc::default().with_flags(b);
        let c = d.color_table_config();
        ens!(
            ctx,
            (c.existence() == Present) == (b & 0x80 != 0)
                && (c.ordering() == Sorted) == (b & 0x20 != 0)
                && c.len() == if b & 0x80 != 0 { len } else { 0 }
                && d.interlaced() == (b & 0x40 != 0)
                && d.flags() == b,
            "image descriptor flags {b:#x}: {c:?}"
        );
        for i in [false, true] {
            let e = d.with_interlaced(i);
            let want = if i { b | 0x40 } else { b & !0x40 };
            ens!(ctx, e.flags() == want, "interlaced({i}) on {b:#x}: {:#x}", e.flags());
        }
        // every table length on every prior flag byte
        for n in (0u32..=300).chain((b as u32 * 256)..(b as u32 * 256 + 256)) {
            for ex in [Absent, Present] {
                for or in [NotSorted, Sorted] {
                    let c = ColorTableConfig::new(ex, or, n as u16);
                    let len = pow2_len(n as usize);
                    ens!(
                        ctx,
                        c.existence() == ex
                            && c.ordering() == or
                            && c.len() == if ex == Present { len } else { 0 }
                            && c.size_bytes() == 3 * c.len()
                            && c.is_empty() == (ex == Absent),
                        "table configuration ({ex:?},{or:?},{n}): {c:?}"
                    );
                    let p = if ex == Present { 0x80 } else { 0 };
                    let bits = log2(len) - 1;
                    let e = d.with_color_table_config(c);
                    let want = b & 0x58 | p | if or == Sorted { 0x20 } else { 0 } | bits;
                    ens!(
                        ctx,
                        e.flags() == want,
                        "table of {n} on image flags {b:#x}: {:#x}, expected {want:#x}",
                        e.flags()
                    );
                    ens!(
                        ctx,
                        e.color_table_config() == c,
                        "table of {n} reads back as {:?}",
                        e.color_table_config()
                    );
                    let e = l.with_color_table_config(c);
                    let want = p | bits << 4 | if or == Sorted { 0x08 } else { 0 } | bits;
                    ens!(
                        ctx,
                        e.flags() == want && e.color_table_config() == c,
                        "table of {n} on screen flags {b:#x}: {:#x}, expected {want:#x}",
                        e.flags()
                    );
                }
            }
        }
        // graphic control flags
        let mut g = GraphicControl::default();
        g.set_flags(b);
        ens!(
            ctx,
            g.flags() == b
                && u8::from(g.disposal_method()) == (b >> 2) & 7
                && g.user_input() == (b & 2 != 0)
                && g.transparent_color() == if b & 1 != 0 { Some(0) } else { None },
            "graphic control flags {b:#x}: {g:?}"
        );
        for k in 0..=255u8 {
            let m = DisposalMethod::from(k);
            ens!(ctx, u8::from(m) == k & 7, "disposal method {k}: {m:?}");
            let named = match k & 7 {
                0 => m == DisposalMethod::NoAction,
                1 => m == DisposalMethod::Keep,
                2 => m == DisposalMethod::Background,
                3 => m == DisposalMethod::Previous,
                _ => matches!(m, DisposalMethod::Reserved(_)),
            };
            ens!(ctx, named, "disposal method {k} is {m:?}");
            let mut h = g;
            h.set_disposal_method(m);
            let want = b & !0x1C | (k & 7) << 2;
            ens!(
                ctx,
                h.flags() == want,
                "disposal {k} on flags {b:#x}: {:#x}, expected {want:#x}",
                h.flags()
            );
            let mut h = g;
            h.set_transparent_color(Some(k));
            ens!(
                ctx,
                h.flags() == b | 1
                    && h.transparent_color() == Some(k)
                    && h.transparent_color_idx() == k,
                "transparent color {k} on flags {b:#x}: {h:?}"
            );
            h.set_transparent_color(None);
            ens!(
                ctx,
                h.flags() == b & !1 && h.transparent_color().is_none(),
                "transparent color None on flags {b:#x}: {h:?}"
            );
        }
        for u in [false, true] {
            let mut h = g;
            h.set_user_input(u);
            let want = b & !2 | (u as u8) << 1;
            ens!(ctx, h.flags() == want, "user input {u} on flags {b:#x}: {:#x}", h.flags());
        }
        // loop counts, 256 of them
        for k in 0..256u32 {
            let n = (b as u32 * 256 + k) as u16;
            let a = Application::with_loop_count(n);
            let want: Subs = vec![b"NETSCAPE2.0".to_vec(), vec![1, n as u8, (n >> 8) as u8]];
            ens!(
                ctx,
                a.app_data() == &want,
                "loop count {n} packs as {:?}",
                a.app_data()
            );
            ens!(ctx, a.loop_count() == Some(n), "loop count {n} reads as {:?}", a.loop_count());
            let id = if k % 2 == 0 { b"ANIMEXTS1.0" } else { b"NETSCAPE2.0" };
            let a = gapp(&vec![id.to_vec(), vec![1, n as u8, (n >> 8) as u8]]);
            ens!(ctx, a.loop_count() == Some(n), "parsed loop count {n}: {:?}", a.loop_count());
        }
        ctx.distinct(mix(idx));
        ctx.add("flag_bytes_enumerated", 1);
        return Ok(());
    }
    // random setter sequences against a plain record
    let mut log = vec![];
    let mut l = LogicalScreenDesc::default();
    let mut d = ImageDesc::default();
    let mut g = GraphicControl::default();
    let (mut rl, mut rd, mut rg) = (Lsd::default(), Desc::default(), Gc::default());
    for _ in 0..rng.range(3, 25) {
        let op = rng.below(19);
        let (x, y) = (rng.edge16(), rng.u8());
        log.push(format!("{op}:{x}:{y}"));
        match op {
            0 => (l, rl.w) = (l.with_screen_width(x), x),
            1 => (l, rl.h) = (l.with_screen_height(x), x),
            2 => (l, rl.flags) = (l.with_flags(y), y),
            3 => (l, rl.bg) = (l.with_background_color_idx(y), y),
            4 => (l, rl.aspect) = (l.with_pixel_aspect_ratio(y), y),
            5 => {
                l = l.with_color_table_config(ColorTableConfig::new(Present, NotSorted, x));
                let b = log2(pow2_len(x as usize)) - 1;
                rl.flags = 0x80 | b << 4 | b;
            }
            6 => (d, rd.l) = (d.with_left(x), x),
            7 => (d, rd.t) = (d.with_top(x), x),
            8 => (d, rd.w) = (d.with_width(x), x),
            9 => (d, rd.h) = (d.with_height(x), x),
            10 => (d, rd.flags) = (d.with_flags(y), y),
            11 => {
                d = d.with_interlaced(y & 1 != 0);
                rd.flags = rd.flags & !0x40 | (y & 1) << 6;
            }
            12 => {
                d = d.with_color_table_config(ColorTableConfig::new(Absent, Sorted, x));
                rd.flags = rd.flags & 0x58 | 0x20 | (log2(pow2_len(x as usize)) - 1);
            }
            13 => {
                g.set_disposal_method(y.into());
                rg.flags = rg.flags & !0x1C | (y & 7) << 2;
            }
            14 => {
                g.set_delay_time_cs(x);
                rg.delay = x;
            }
            15 => {
                let t = if y & 1 == 0 { None } else { Some(y) };
                g.set_transparent_color(t);
                rg.flags = rg.flags & !1 | t.is_some() as u8;
                rg.trans_idx = t.unwrap_or(0);
            }
            17 => {
                g.set_transparent_color_idx(y);
                rg.trans_idx = y;
            }
            18 => {
                g.set_flags(y);
                rg.flags = y;
            }
            _ => {
                g.set_user_input(y & 1 != 0);
                rg.flags = rg.flags & !2 | (y & 1) << 1;
            }
        }
        ens!(ctx, rlsd(&l) == rl, "after {log:?}: screen {l:?}, expected {rl:?}");
        ens!(ctx, rdesc(&d) == rd, "after {log:?}: image {d:?}, expected {rd:?}");
        ens!(ctx, rgc(&g) == rg, "after {log:?}: control {g:?}, expected {rg:?}");
    }
    ens!(ctx, d.image_sz() == rd.px(), "image size of {d:?}: {}", d.image_sz());
    let other = l.with_screen_width(rl.w ^ (rng.below(2) as u16));
    ens!(
        ctx,
        l.equal_size(other) == (other.screen_width() == rl.w),
        "equal_size of {l:?} and {other:?}"
    );
    let other = l.with_screen_height(rl.h ^ (rng.below(2) as u16));
    ens!(
        ctx,
        l.equal_size(other) == (other.screen_height() == rl.h),
        "equal_size of {l:?} and {other:?}"
    );
    // frame and preamble accessors
    let has_gc = rng.one_in(2);
    let f = Frame::new(if has_gc { Some(g) } else { None }, d, None, gdata(&[]));
    let disp = if has_gc { rg.disposal() } else { 0 };
    let trans = if has_gc { rg.trans() } else { None };
    let reg = f.region();
    ens!(
        ctx,
        u8::from(f.disposal_method()) == disp
            && f.transparent_color() == trans
            && (f.left(), f.top(), f.width(), f.height()) == (rd.l, rd.t, rd.w, rd.h)
            && (reg.left(), reg.top(), reg.width(), reg.height())
                == (rd.l as i32, rd.t as i32, rd.w as u32, rd.h as u32),
        "frame accessors of {rd:?} {rg:?}"
    );
    let p = Preamble { logical_screen_desc: l, ..Preamble::default() };
    ens!(
        ctx,
        (p.screen_width(), p.screen_height()) == (rl.w, rl.h),
        "preamble accessors of {rl:?}"
    );
    let ver = [rng.u8(), rng.u8(), rng.u8()];
    ens!(ctx, Header::with_version(ver).version() == ver, "header version {ver:?}");
    ens!(ctx, &Header::default().version() == b"89a", "default version");
    // colour tables and sub-block containers
    let bits = rng.below(8) as u8;
    let t = table(rng, bits);
    let gt = GlobalColorTable::with_colors(&t);
    let lt = LocalColorTable::with_colors(&t);
    ens!(
        ctx,
        gt.colors() == t && lt.colors() == t && gt.len() == t.len() / 3 && lt.len() == t.len() / 3
            && !gt.is_empty() && !lt.is_empty(),
        "colour table accessors for {} colours",
        t.len() / 3
    );
    let s = subs(rng);
    ens!(ctx, gcomment(&s).comments() == &s, "comment sub-blocks {s:?}");
    ens!(ctx, gapp(&s).app_data() == &s, "application sub-blocks {s:?}");
    // application data which is not a loop count
    let s = app_subs(rng);
    ens!(
        ctx,
        gapp(&s).loop_count() == loop_count(&s),
        "loop count of {s:?}: {:?}",
        gapp(&s).loop_count()
    );
    for (b, want) in [
        (gblock(&RB::Plain(s.clone())), true),
        (gblock(&RB::Unknown(9, s.clone())), true),
        (gblock(&RB::Comment(s.clone())), true),
        (gblock(&RB::App(s.clone())), true),
        (gblock(&RB::Gc(rg)), true),
        (gblock(&RB::Data(vec![])), true),
        (gblock(&RB::Trailer), false),
        (gblock(&RB::Desc(rd)), false),
        (gblock(&RB::Lsd(rl)), false),
    ] {
        ens!(ctx, b.has_sub_blocks() == want, "has_sub_blocks of {:?}", rblock(&b).kind());
    }
    let back = rblock(&gblock(&RB::Unknown(9, s.clone())));
    ens!(ctx, back == RB::Unknown(9, s.clone()), "unknown extension {back:?}");
    ens!(
        ctx,
        gblock(&RB::Plain(s.clone())) == Block::from(gplain(&s)) && rblock(&gplain(&s).into()) == RB::Plain(s.clone()),
        "plain text sub-blocks {s:?}"
    );
    // sub-blocks which a file cannot hold are refused as documented
    let n = rng.pick(&[0, 256, 257, 511, 512, 700, 65536]);
    let x = rng.bytes(n);
    for (what, bad) in [
        ("plain text", guard(|| gplain(&vec![x.clone()])).is_err()),
        ("comment", guard(|| gcomment(&vec![x.clone()])).is_err()),
        ("application", guard(|| gapp(&vec![x.clone()])).is_err()),
        ("unknown", guard(|| Unknown::default().add_sub_block(&x)).is_err()),
    ] {
        ens!(ctx, bad, "{what} block accepted a sub-block of {n} bytes");
    }
    let k = 3 * rng.below(40) + rng.range(1, 2);
    let x = rng.bytes(k);
    ens!(
        ctx,
        guard(|| GlobalColorTable::with_colors(&x)).is_err()
            && guard(|| LocalColorTable::with_colors(&x)).is_err(),
        "colour table of {k} bytes accepted"
    );
    ens!(
        ctx,
        guard(|| Unknown::default().ext_id().is_empty() && Unknown::default().sub_blocks().is_empty())
            == Ok(true),
        "unknown extension without contents"
    );
    // raster to image data
    let (w, h) = (rng.range(1, 9), rng.range(1, 9));
    let px = rng.bytes(w * h);
    let ras: Raster<Gray8> = Raster::with_u8_buffer(w as u32, h as u32, px.clone());
    let id = ImageData::from(&ras);
    ens!(ctx, id.data() == px, "image data of a {w}x{h} raster");
    // steps: last setting of each kind wins, others untouched
    let tc: Raster<pix::rgb::SRgba8> =
        Raster::with_u8_buffer(w as u32, h as u32, rng.bytes(4 * w * h));
    let raw = tc.as_u8_slice().to_vec();
    let ts = Step::with_true_color(tc).with_delay_time_cs(Some(7));
    ens!(
        ctx,
        ts.raster().as_u8_slice() == raw
            && (ts.raster().width(), ts.raster().height()) == (w as u32, h as u32)
            && ts.delay_time_cs() == Some(7)
            && ts.transparent_color().is_none(),
        "true colour step of {w}x{h}"
    );
    let mut st = Step::with_indexed(ras, gpalette(&palette(rng, 4)));
    let (mut tr, mut dl, mut dm) = (None, 0u16, 0u8);
    let mut slog = vec![];
    for _ in 0..rng.range(1, 9) {
        match rng.below(3) {
            0 => {
                tr = if rng.one_in(3) { None } else { Some(rng.u8()) };
                st = st.with_transparent_color(tr);
                slog.push(format!("transparent {tr:?}"));
            }
            1 => {
                let x = if rng.one_in(3) { None } else { Some(rng.edge16()) };
                dl = x.unwrap_or(0);
                st = st.with_delay_time_cs(x);
                slog.push(format!("delay {x:?}"));
            }
            _ => {
                dm = rng.below(8) as u8;
                st = st.with_disposal_method(dm.into());
                slog.push(format!("disposal {dm}"));
            }
        }
        ens!(
            ctx,
            st.transparent_color() == tr && st.delay_time_cs().unwrap_or(0) == dl,
            "after {slog:?}: transparent {:?} delay {:?}",
            st.transparent_color(),
            st.delay_time_cs()
        );
    }
    // the disposal method has no getter: observe it in the encoding
    let mut v = vec![];
    let r = Encoder::new(&mut v).into_step_enc().encode_step(&st).map_err(|e| ek(&e));
    let ft = ref_frames(&ref_parse(&v, None, &mut LzwStats::default()));
    let got = ft.frames.first().map(|f| f.0.gc.unwrap_or_default());
    let want = Gc { flags: dm << 2 | tr.is_some() as u8, delay: dl, trans_idx: tr.unwrap_or(0) };
    ens!(ctx, got == Some(want), "after {slog:?}: encoded ({r:?}) as {got:?}, expected {want:?}");
    ctx.distinct(hash_bytes(log.join(",").as_bytes()));
    ctx.sample(|| format!("setters {} / step {}", log.join(" "), slog.join(", ")));
    Ok(())
}

// ---------------------------------------------------------------- C17

fn strip_ansi(b: &[u8]) -> String {
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == 0x1B && b.get(i + 1) == Some(&b'[') {
            i += 2;
            while i < b.len() && !b[i].is_ascii_alphabetic() {
                i += 1;
            }
            i += 1;
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    String::from_utf8_lossy(&out).to_string()
}

/// What the command must report for a file, as lines of words
fn report(path: &str, ft: &FrameTrace) -> Vec<String> {
    let p = ft.preamble.as_ref().unwrap();
    let mut v = vec![format!("{path:?}")];
    let mut head = format!(
        "GIF{}, frames: {}",
        String::from_utf8_lossy(&p.header),
        ft.frames.len()
    );
    if let Some(n) = p.loop_ext.as_ref().and_then(loop_count) {
        head += &if n == 0 { ", repeat: ∞".to_string() } else { format!(", repeat: {n}") };
    }
    let mut comments = vec![];
    for c in &p.comments {
        for s in c {
            for l in String::from_utf8_lossy(s).split('\n') {
                if !l.trim().is_empty() {
                    comments.push(format!("# {}", l.trim()));
                }
            }
        }
    }
    // the first comment is on the line of the summary
    let mut it = comments.into_iter();
    if let Some(c) = it.next() {
        head = format!("{head} {c}");
    }
    v.push(head);
    v.extend(it);
    v.push("Fr# Delay Disp Size X,Y Clrs Trn".into());
    for (n, (f, _)) in ft.frames.iter().enumerate() {
        let delay = f.gc.map(|g| g.delay).unwrap_or(0);
        let disp = match f.gc.map(|g| g.disposal()) {
            None => "-",
            Some(0) => "none",
            Some(1) => "keep",
            Some(2) => "bg",
            Some(3) => "prev",
            _ => "res",
        };
        let clrs = if f.desc.flags & 0x80 != 0 {
            format!("{}", 2 << (f.desc.flags & 7))
        } else if p.lsd.flags & 0x80 != 0 {
            format!("{}g", 2 << (p.lsd.flags & 7))
        } else {
            "0g".into()
        };
        let trn = match f.gc.and_then(|g| g.trans()) {
            Some(t) => format!("{t}"),
            None => "-".into(),
        };
        v.push(format!(
            "{}{n} {}.{:02} {disp} {}x{} {},{} {clrs} {trn}",
            if f.desc.interlaced() { "i " } else { "" },
            delay / 100,
            delay % 100,
            f.desc.w,
            f.desc.h,
            f.desc.l,
            f.desc.t
        ));
    }
    v
}

/// Output lines as words; the interlace mark may touch the frame number
fn words(out: &str) -> Vec<String> {
    out.lines()
        .map(|l| {
            let mut s = l.split_whitespace().collect::<Vec<_>>().join(" ");
            if s.len() > 1 && s.starts_with('i') && s.as_bytes()[1].is_ascii_digit() {
                s.insert(1, ' ');
            }
            s
        })
        .filter(|l| !l.is_empty())
        .collect()
}

fn texts(rng: &mut Rng) -> Subs {
    let n = if rng.one_in(40) { rng.range(20, 90) } else { rng.range(0, 3) };
    (0..n)
        .map(|_| {
            let mut s = String::new();
            for k in 0..if rng.one_in(30) { 12 } else { rng.range(1, 5) } {
                if k > 0 {
                    s.push(rng.pick(&[' ', ' ', '\n']));
                }
                for _ in 0..rng.range(1, 8) {
                    s.push(match rng.below(12) {
                        0 => rng.pick(&['é', 'ß', '漢', '∞', '🎞']),
                        1 => rng.pick(&['#', ',', ':', '%', '{', '}', '\\', '"', '-', '0']),
                        2 => rng.range(b'A' as usize, b'Z' as usize) as u8 as char,
                        _ => rng.range(b'a' as usize, b'z' as usize) as u8 as char,
                    });
                }
            }
            s.into_bytes()
        })
        .collect()
}

pub fn c17(ctx: &mut Ctx, rng: &mut Rng, idx: u64) -> Res {
    let mut want: Vec<String> = vec![];
    let mut fails = false;
    let mut unspecified = false;
    let mut rows: Option<Vec<String>> = None;
    let mut files: Vec<(String, Vec<u8>)> = vec![];
    let mut args = vec![];
    let mut kinds = vec![];
    let nfiles = rng.pick(&[1, 1, 1, 2, 3]);
    for n in 0..nfiles {
        let name = match rng.below(20) {
            0 => ".GIF",
            1 => "",
            2 => " a b.gif",
            3 => "-é漢.gif",
            4 => "'q\"%{}.gif",
            _ => ".gif",
        };
        let path = format!("{}/{idx}_{n}{name}", ctx.scratch);
        args.push(path.clone());
        let o = GOpt {
            max_dim: if rng.one_in(60) { 150 } else { 12 },
            max_frames: if rng.one_in(40) { 130 } else { 6 },
            drawable: rng.one_in(2),
            extreme: 100,
            ..GOpt::default()
        };
        let mut g = gif(rng, &o);
        if rng.one_in(300) {
            // four digits of frames
            let o = GOpt { min_frames: 998, max_frames: 1003, max_dim: 2, ext_pct: 2, extreme: 0, ..o };
            g = gif(rng, &o);
            ctx.add("files_with_about_1000_frames", 1);
        }
        if rng.one_in(2000) {
            // five digits
            let o = GOpt { min_frames: 9998, max_frames: 10002, max_dim: 1, ext_pct: 0, extreme: 0, ..o };
            g = gif(rng, &o);
            ctx.add("files_with_about_10000_frames", 1);
        }
        let raw = rng.one_in(12);
        if rng.one_in(60) {
            // many comments before the first frame
            let at = g.blocks.iter().position(|b| !matches!(b, RB::Header(_) | RB::Lsd(_) | RB::Gct(_)));
            let n = rng.range(20, 90);
            let at = at.unwrap_or(g.blocks.len());
            g.blocks.splice(at..at, (0..n).map(|_| RB::Comment(vec![])));
        }
        for b in g.blocks.iter_mut() {
            if let RB::Comment(s) = b {
                *s = texts(rng);
                if raw {
                    // not text
                    for c in s.iter_mut() {
                        for _ in 0..rng.range(1, 3) {
                            let k = rng.below(c.len());
                            c[k] = rng.range(128, 255) as u8;
                        }
                    }
                }
            }
        }
        g.bytes = serialize(rng, &g.blocks, true);
        let mut v = g.bytes.clone();
        match rng.below(8) {
            0 => {
                let k = rng.below(v.len());
                v.truncate(k);
            }
            1 => v = scramble(rng, &g).0,
            3 if rng.one_in(10) => v.clear(),
            2 if rng.one_in(3) => {
                // no such file, or no file at all
                if rng.one_in(2) && std::fs::create_dir(&path).is_err() {
                    return Err(Fail::Harness(format!("cannot make {path}")));
                }
                if !fails && !unspecified {
                    fails = true;
                }
                kinds.push("missing");
                continue;
            }
            _ => (),
        }
        if std::fs::write(&path, &v).is_err() {
            return Err(Fail::Harness(format!("cannot write {path}")));
        }
        let ft = ref_frames(&ref_parse(&v, Some(1 << 25), &mut LzwStats::default()));
        // a changed comment may hold any bytes: only text is compared
        let text = ft.preamble.as_ref().is_none_or(|p| {
            p.comments.iter().flatten().all(|c| {
                String::from_utf8(c.clone())
                    .is_ok_and(|s| s.chars().all(|c| " \n".contains(c) || !c.is_control() && !c.is_whitespace()))
            })
        });
        if !fails && !unspecified {
            match &ft.end {
                End::Trailer if ft.junk_at.is_none() && text => {
                    if ft.preamble.is_some() {
                        want.extend(report(&path, &ft));
                        ctx.add("files_reported", 1);
                        ctx.add("frame_lines_compared", ft.frames.len() as u64);
                        kinds.push("ok");
                    } else {
                        fails = true;
                        kinds.push("no frames");
                    }
                }
                End::Trailer if ft.junk_at.is_none() && nfiles == 1 && ft.preamble.is_some() => {
                    // how such a comment is shown is left open, the frames are not
                    let r = report(&path, &ft);
                    rows = Some(r[r.len() - ft.frames.len() - 1..].to_vec());
                    kinds.push("comment not text");
                }
                End::Err(_) if ft.junk_at.is_none() => {
                    fails = true;
                    kinds.push("malformed");
                }
                _ => {
                    unspecified = true;
                    kinds.push("unspecified");
                }
            }
        }
        files.push((format!("{n}.gif"), v));
    }
    let mut cmd = Command::new(&ctx.bin);
    cmd.args(&args).env_remove("RUST_LOG");
    if rng.one_in(8) && files.iter().all(|f| f.1.len() < 4000) {
        // messages go elsewhere
        cmd.env("RUST_LOG", rng.pick(&["off", "error", "warn", "info", "debug", "trace"]));
        ctx.add("invocations_with_log_level", 1);
    }
    let out = match limited(&mut cmd).output() {
        Ok(o) => o,
        Err(e) => return Err(Fail::Harness(format!("cannot run {}: {e}", ctx.bin))),
    };
    for a in &args {
        if std::fs::remove_file(a).is_err() {
            let _ = std::fs::remove_dir(a);
        }
    }
    let stdout = strip_ansi(&out.stdout);
    let stderr = strip_ansi(&out.stderr);
    let bad = |m: String| -> Res {
        Err(Fail::Violation(
            format!("gift {}: {m}\nstdout: {stdout}\nstderr: {stderr}", args.join(" ")),
            files.clone(),
        ))
    };
    let code = match out.status.code() {
        Some(c) => c,
        None => return bad(format!("ended by a signal: {}", out.status)),
    };
    if code == 101 || stderr.contains("panicked at") {
        return bad("panicked".into());
    }
    ctx.add("invocations", 1);
    if unspecified {
        ctx.add("invocations_partly_unspecified", 1);
        return Ok(());
    }
    let mut got = words(&stdout);
    if let Some(r) = rows {
        got.drain(..got.len().saturating_sub(r.len()));
        want = r;
        ctx.add("files_with_other_than_text", 1);
    }
    let want: Vec<String> = want
        .iter()
        .map(|l| l.split_whitespace().collect::<Vec<_>>().join(" "))
        .collect();
    if got != want {
        let i = (0..got.len().max(want.len())).find(|i| got.get(*i) != want.get(*i)).unwrap();
        return bad(format!(
            "line {i} is {:?}, expected {:?} (files {kinds:?})",
            got.get(i),
            want.get(i)
        ));
    }
    if fails {
        if code == 0 {
            return bad(format!("success reported for files {kinds:?}"));
        }
        if stderr.trim().is_empty() {
            return bad("no error message".into());
        }
        ctx.add("invocations_failing_as_expected", 1);
    } else if code != 0 {
        return bad(format!("exit status {code} for files {kinds:?}"));
    }
    ctx.distinct(hash_bytes(want.join("\n").as_bytes()) ^ hash_bytes(&kinds.join(",").into_bytes()));
    ctx.sample(|| format!("{kinds:?}: {}", got.join(" / ")));
    Ok(())
}

// ---------------------------------------------------------------- C18

/// The workloads of the other properties; here only the sanitizer, the
/// allocation monitor and the equality of results between builds judge.
/// A writer with little room
struct Stingy(usize);

impl std::io::Write for Stingy {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.0 == 0 && !b.is_empty() {
            return Err(std::io::ErrorKind::StorageFull.into());
        }
        let n = b.len().min(self.0);
        self.0 -= n;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// Copy what a file holds, with calls which have to be refused
fn misuse(g: &[u8], max: MaxSz, mut w: Stingy) {
    let mut fr = decoder(g, max).into_frames();
    let mut enc = Encoder::new(&mut w).into_frame_enc();
    let p = fr.preamble();
    for f in fr.flatten() {
        let _ = enc.encode_frame(&f);
        if let Ok(Some(p)) = &p {
            let _ = enc.encode_preamble(p);
        }
    }
    let _ = enc.encode_trailer();
    if let Ok(Some(p)) = &p {
        let _ = enc.encode_preamble(p);
    }
    drop(enc);
    let mut enc = Encoder::new(&mut w).into_block_enc();
    for b in decoder(g, max).into_blocks().flatten() {
        let _ = enc.encode(b);
    }
}

pub fn c18(ctx: &mut Ctx, rng: &mut Rng, idx: u64) -> Res {
    if ctx.tiny {
        return c18_tiny(ctx, rng);
    }
    type F = fn(&mut Ctx, &mut Rng, u64) -> Res;
    let fs: [(&str, F); 12] = [
        ("c01", c01),
        ("c02", c02),
        ("c03", c03),
        ("c04", c04),
        ("c07", c07),
        ("c09", c09),
        ("c09", c09),
        ("c10", c10),
        ("c12", c12),
        ("c13", c13),
        ("c15", c15),
        ("c08", c08),
    ];
    let (name, f) = fs[(idx % 12) as usize];
    let sub = idx / 12 + if ctx.tiny { 0 } else { 1000 };
    let r = f(ctx, rng, sub);
    ctx.add(&format!("workload_{name}"), 1);
    let sig = match &r {
        Ok(()) => "held".to_string(),
        Err(Fail::Violation(m, _)) => {
            ctx.add("workloads_judged_otherwise", 1);
            m.clone()
        }
        Err(Fail::Harness(m)) => return Err(Fail::Harness(m.clone())),
    };
    ctx.digest ^= mix(hash_bytes(sig.as_bytes()).wrapping_add(idx));
    // allocation balance of a whole decode and encode
    let o = GOpt {
        drawable: true,
        max_dim: if ctx.tiny { 4 } else { 16 },
        max_frames: 3,
        ..GOpt::default()
    };
    let os = o.spread(rng, 100);
    let mut g = gif(rng, &os).bytes;
    if rng.one_in(2) {
        mutate(rng, &mut g, &[]);
    }
    let a = anim_spread(rng, if ctx.tiny { 4 } else { 12 }, 3, 100);
    let max = MaxSz::Set(Some(1 << 16));
    let other = anim(rng, 6, 2, 0);
    let room = rng.below(200);
    let base = live();
    let r = guard(|| {
        for lv in 0..3 {
            level(&g, max, lv);
        }
        for s in decoder(&g[..], max).into_iter().take(50) {
            drop(s);
        }
        // iterators dropped half way
        decoder(&g[..], max).into_steps().next();
        decoder(&g[..], max).into_frames().next();
        let _ = encode_anim(&a, std::io::sink());
        // refused calls and failing writers
        let mut enc = Encoder::new(std::io::sink()).into_step_enc();
        for s in a.steps.iter().chain(&other.steps) {
            let _ = enc.encode_step(&gstep(s));
        }
        drop(enc);
        let _ = encode_anim(&a, Stingy(room));
        misuse(&g, max, Stingy(room * 4));
    });
    let left = live() - base;
    if r.is_ok() {
        ctx.add("allocation_balances", 1);
        if left != 0 {
            return vio(
                format!("{left} bytes still allocated after everything was dropped"),
                &[("input.gif", &g)],
            );
        }
    } else {
        ctx.add("workloads_judged_otherwise", 1);
    }
    ctx.distinct(hash_bytes(&g));
    Ok(())
}

/// A small mixture for the interpreter, which is slow: decode a small file
/// (often a damaged one) at every level, then encode with every encoder.
fn c18_tiny(ctx: &mut Ctx, rng: &mut Rng) -> Res {
    let o = GOpt { drawable: true, max_dim: 4, max_frames: 2, ..GOpt::default() };
    let g = gif(rng, &o);
    let mut bytes = g.bytes.clone();
    let kind = if rng.one_in(2) { mutate(rng, &mut bytes, &[]) } else { "valid" };
    let mut a = anim(rng, 4, 2, 0);
    // big palettes take very long to set up in the pixel library
    if let Some(p) = &mut a.global {
        p.truncate(6);
    }
    for s in &mut a.steps {
        s.pal.truncate(6);
        let n = s.pal.len() as u8;
        s.data.iter_mut().for_each(|p| *p %= n);
    }
    let max = MaxSz::Set(Some(1 << 10));
    let base = live();
    let r = guard(|| {
        let mut sum = 0u64;
        for lv in 0..3 {
            let (n, _, px) = level(&bytes, max, lv);
            sum += n as u64 + px;
        }
        for s in decoder(&bytes[..], max).into_iter().take(5).flatten() {
            sum += s.raster().as_u8_slice().iter().map(|b| *b as u64).sum::<u64>();
            drop(s.clone());
        }
        decoder(&bytes[..], max).into_steps().next();
        let mut out = vec![];
        let mut enc = Encoder::new(&mut out).into_block_enc();
        for b in &g.blocks {
            let _ = enc.encode(gblock(b));
        }
        sum += out.len() as u64;
        out.clear();
        let _ = encode_anim(&a, &mut out);
        sum + out.len() as u64
    });
    let left = live() - base;
    match r {
        Ok(n) => {
            ctx.digest ^= mix(n);
            ctx.add("bytes_fed", bytes.len() as u64);
            ctx.add(&format!("input_{}", kind.replace(' ', "_")), 1);
            if left != 0 {
                return vio(
                    format!("{left} bytes still allocated after everything was dropped"),
                    &[("input.gif", &bytes)],
                );
            }
            ctx.add("allocation_balances", 1);
            ctx.distinct(hash_bytes(&bytes));
            ctx.sample(|| format!("{kind}: {}", hex_short(&bytes)));
        }
        Err(_) => ctx.add("workloads_judged_otherwise", 1),
    }
    Ok(())
}

// ---------------------------------------------------------------- C19

/// One instance: a decoder at some level or an encoder, polled step by step
enum Inst<'a> {
    B(gift::decode::Blocks<&'a [u8]>),
    F(gift::decode::Frames<&'a [u8]>),
    S(gift::decode::Steps<&'a [u8]>),
    E(Option<gift::encode::StepEnc<SharedBuf>>, usize),
    C(gift::encode::FrameEnc<SharedBuf>, usize),
}

#[derive(Clone, Default)]
struct SharedBuf(Rc<std::cell::RefCell<Vec<u8>>>);

impl std::io::Write for SharedBuf {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0.borrow_mut().extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

#[derive(Clone)]
pub struct Job {
    kind: usize,
    data: Vec<u8>,
    anim: AnimSpec,
    frames: (RPreamble, Vec<RFrame>),
}

struct Live<'a> {
    job: &'a Job,
    inst: Inst<'a>,
    buf: SharedBuf,
    trace: Vec<u64>,
    polls: usize,
}

impl<'a> Live<'a> {
    fn new(job: &'a Job) -> Self {
        let buf = SharedBuf::default();
        let max = MaxSz::Set(Some(1 << 16));
        let d = &job.data[..];
        let inst = match job.kind {
            0 => Inst::B(decoder(d, max).into_blocks()),
            1 => Inst::F(decoder(d, max).into_frames()),
            2 => Inst::S(decoder(d, max).into_steps()),
            3 => Inst::S(decoder(d, max).into_iter()),
            4 => {
                let mut e = Encoder::new(buf.clone()).into_step_enc();
                if let Some(n) = job.anim.loops {
                    e = e.with_loop_count(n);
                }
                if let Some(g) = &job.anim.global {
                    e = e.with_global_color_table(&gpalette(g));
                }
                Inst::E(Some(e), 0)
            }
            _ => Inst::C(Encoder::new(buf.clone()).into_frame_enc(), 0),
        };
        Live { job, inst, buf, trace: vec![], polls: 0 }
    }
    /// One call; false when finished
    fn poll(&mut self) -> bool {
        self.polls += 1;
        if self.polls > 60 {
            return false;
        }
        fn h(s: String) -> u64 {
            hash_bytes(s.as_bytes())
        }
        let (t, more) = match &mut self.inst {
            Inst::B(it) => match it.next() {
                Some(Ok(b)) => (h(format!("{b:?}")), true),
                Some(Err(e)) => (h(format!("{:?}", ek(&e))), true),
                None => (1, false),
            },
            Inst::F(it) => match it.next() {
                Some(Ok(f)) => (h(format!("{f:?}")), true),
                Some(Err(e)) => (h(format!("{:?}", ek(&e))), true),
                None => (1, false),
            },
            Inst::S(it) => match it.next() {
                Some(Ok(s)) => (h(format!("{:?}", rstep(&s))), true),
                Some(Err(e)) => (h(format!("{:?}", ek(&e))), true),
                None => (1, false),
            },
            Inst::E(e, n) => {
                if let Some(s) = self.job.anim.steps.get(*n) {
                    *n += 1;
                    let r = e.as_mut().unwrap().encode_step(&gstep(s)).map_err(|e| ek(&e));
                    (h(format!("{r:?}")), true)
                } else {
                    *e = None;
                    (2, false)
                }
            }
            Inst::C(e, n) => {
                *n += 1;
                let (p, fs) = &self.job.frames;
                let r = if *n == 1 {
                    e.encode_preamble(&gpreamble(p))
                } else if *n - 2 < fs.len() {
                    e.encode_frame(&gframe(&fs[*n - 2]))
                } else {
                    e.encode_trailer()
                };
                (h(format!("{:?}", r.map_err(|e| ek(&e)))), *n - 1 <= fs.len())
            }
        };
        self.trace.push(t);
        more
    }
    fn finish(self) -> u64 {
        let Live { inst, buf, trace, .. } = self;
        drop(inst);
        let mut v = vec![];
        for t in trace {
            v.extend_from_slice(&t.to_le_bytes());
        }
        v.extend_from_slice(&buf.0.borrow());
        hash_bytes(&v)
    }
}

fn alone(j: &Job) -> u64 {
    let mut l = Live::new(j);
    while l.poll() {}
    l.finish()
}

pub fn c19(ctx: &mut Ctx, rng: &mut Rng, idx: u64) -> Res {
    let o = GOpt {
        drawable: true,
        min_frames: 1,
        max_dim: if ctx.tiny { 4 } else { 20 },
        max_frames: 4,
        ..GOpt::default()
    };
    let mut jobs = vec![];
    for _ in 0..rng.range(2, 7) {
        let os = o.clone().spread(rng, 100);
        let g = gif(rng, &os);
        let ft = ref_frames(&ref_parse(&g.bytes, None, &mut LzwStats::default()));
        let mut data = g.bytes;
        if rng.one_in(4) {
            mutate(rng, &mut data, &[]);
        }
        jobs.push(Job {
            kind: rng.below(6),
            data,
            anim: anim_spread(rng, if ctx.tiny { 4 } else { 20 }, 4, 100),
            frames: (ft.preamble.unwrap(), ft.frames.into_iter().map(|f| f.0).collect()),
        });
    }
    let first = jobs[0].data.clone();
    let r = guard(|| -> Result<(), String> {
        let expect: Vec<u64> = jobs.iter().map(alone).collect();
        // repeated
        for (i, j) in jobs.iter().enumerate() {
            if alone(j) != expect[i] {
                return Err(format!("instance {i} (kind {}) differs when repeated", j.kind));
            }
        }
        // with messages written or not
        for (i, j) in jobs.iter().enumerate().filter(|(_, j)| j.data.len() < 600) {
            ctx.add("instances_logged", 1);
            if with_logging(true, || alone(j)) != expect[i] {
                return Err(format!("instance {i} (kind {}) differs when logging", j.kind));
            }
        }
        // interleaved on this thread
        let mut lives: Vec<Option<Live>> = jobs.iter().map(|j| Some(Live::new(j))).collect();
        let mut open: Vec<usize> = (0..lives.len()).collect();
        let mut switches = 0;
        while !open.is_empty() {
            let k = rng.below(open.len());
            let i = open[k];
            switches += 1;
            if !lives[i].as_mut().unwrap().poll() {
                open.swap_remove(k);
                if lives[i].take().unwrap().finish() != expect[i] {
                    return Err(format!(
                        "instance {i} (kind {}) differs when interleaved with {} others",
                        jobs[i].kind,
                        jobs.len() - 1
                    ));
                }
            }
        }
        ctx.add("interleaved_calls", switches);
        ctx.add("instances", jobs.len() as u64);
        // concurrently
        if idx % 8 == 0 {
            let jobs = &jobs;
            let res: Vec<Vec<u64>> = std::thread::scope(|s| {
                let hs: Vec<_> = (0..4)
                    .map(|t| {
                        s.spawn(move || {
                            let n = jobs.len();
                            let mut v = vec![0; n];
                            for k in 0..n {
                                let i = (k + t) % n;
                                v[i] = guard(|| alone(&jobs[i])).unwrap_or(0);
                            }
                            v
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap_or_default()).collect()
            });
            for v in res {
                if v != expect {
                    return Err("an instance differs when run on several threads".into());
                }
            }
            ctx.add("concurrent_runs", 4);
        }
        Ok(())
    });
    match r {
        Err(p) => return vio(p, &[("first.gif", &first)]),
        Ok(Err(m)) => return vio(m, &[("first.gif", &first)]),
        _ => (),
    }
    // clones are independent
    let r = guard(|| -> Result<(), String> {
        if let Some(Ok(s)) = Decoder::new(&jobs[0].data[..]).into_steps().next() {
            let before = rstep(&s);
            let c = s.clone();
            if rstep(&c) != before {
                return Err("a cloned step differs".into());
            }
            let c = c.with_delay_time_cs(Some(before.delay ^ 1)).with_transparent_color(Some(9));
            if rstep(&s) != before {
                return Err("changing a cloned step changes the original".into());
            }
            if c.delay_time_cs() != Some(before.delay ^ 1) {
                return Err("a cloned step does not take a setting".into());
            }
            ctx.add("clones_compared", 1);
        }
        // an indexed step, its copy changed or the original gone
        let a = &jobs[0].anim;
        if let Some(spec) = a.steps.first() {
            let bytes = |s: &Step| {
                let buf = SharedBuf::default();
                let r = Encoder::new(buf.clone()).into_step_enc().encode_step(s);
                (r.map_err(|e| ek(&e)), buf.0.take())
            };
            let s = gstep(spec);
            let before = bytes(&s);
            let c = s.clone();
            let k = s
                .clone()
                .with_delay_time_cs(Some(spec.delay.unwrap_or(0) ^ 1))
                .with_transparent_color(None)
                .with_disposal_method(gift::block::DisposalMethod::Background);
            drop(k);
            if bytes(&c) != before || bytes(&s) != before {
                return Err("a cloned indexed step is written differently".into());
            }
            drop(s);
            if bytes(&c) != before {
                return Err("a cloned indexed step depends on the original".into());
            }
            ctx.add("clones_compared", 1);
        }
        let blocks: Vec<Block> = decoder(&jobs[0].data[..], MaxSz::Set(Some(1 << 16)))
            .into_blocks()
            .take(60)
            .map_while(|b| b.ok())
            .collect();
        let copies = blocks.clone();
        let told = format!("{copies:?}");
        if copies != blocks || format!("{blocks:?}") != told {
            return Err("cloned blocks differ".into());
        }
        drop(blocks);
        if format!("{copies:?}") != told {
            return Err("cloned blocks depend on the originals".into());
        }
        ctx.add("clones_compared", copies.len() as u64);
        let d = gdata(&[1, 2, 3]);
        let mut e = d.clone();
        e.data_mut().push(4);
        if d.data() != [1, 2, 3] || e.data() != [1, 2, 3, 4] {
            return Err("cloned image data is shared".into());
        }
        Ok(())
    });
    match r {
        Err(p) => return vio(p, &[("first.gif", &first)]),
        Ok(Err(m)) => return vio(m, &[("first.gif", &first)]),
        _ => (),
    }
    ctx.distinct(hash_bytes(&first) ^ jobs.len() as u64);
    ctx.sample(|| {
        format!("instance kinds {:?}", jobs.iter().map(|j| j.kind).collect::<Vec<_>>())
    });
    Ok(())
}
