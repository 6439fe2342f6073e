//! Monitored workloads, third part: what the work costs.
use crate::checks::*;
use crate::r#gen::*;
use crate::obs::*;
use crate::refgif::*;
use crate::util::*;
use gift::{Encoder, Result, Step};
use std::io::{self, Write};
use std::process::{Command, Output};

// ---------------------------------------------------------------- C20

/// Takes everything, keeps nothing
#[derive(Default)]
struct Sink(u64);

impl Write for &mut Sink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.0 += buf.len() as u64;
        Ok(buf.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

const FAMILIES: [&str; 21] = [
    "comments before the first frame",
    "sub-blocks of one comment",
    "application extensions between frames",
    "unknown extensions with empty data",
    "plain text with its own control",
    "graphic controls",
    "frames of one pixel",
    "frames with local tables",
    "rows of an image",
    "columns of an image",
    "rows of an interlaced image",
    "clear codes between pixels",
    "data after the last pixel",
    "image data in sub-blocks of one byte",
    "codes with a full table",
    "parts of plain text",
    "parts of an application extension",
    "parts of an unknown extension",
    "comments, then frames with local tables",
    "loop extensions",
    "sorts of extension, then frames with local tables and controls",
];

fn head(v: &mut Vec<u8>, w: u16, h: u16) {
    ser_plain(&RB::Header(*b"89a"), v);
    ser_plain(&RB::Lsd(Lsd { w, h, flags: 0x80, ..Default::default() }), v);
    v.extend_from_slice(&[1, 2, 3, 4, 5, 6]);
}

fn one_pixel(v: &mut Vec<u8>, flags: u8, rng: &mut Rng) {
    image(v, 1, 1, flags, &[0], &LzwOpts::plain(2), rng);
}

fn image(v: &mut Vec<u8>, w: u16, h: u16, flags: u8, px: &[u8], o: &LzwOpts, rng: &mut Rng) {
    ser_plain(&RB::Desc(Desc { w, h, flags, ..Default::default() }), v);
    if flags & 0x80 != 0 {
        v.extend_from_slice(&table(rng, flags & 7));
    }
    let p = lzw_encode(px, o, rng);
    whole(v, o.min, &p, 255);
}

fn whole(v: &mut Vec<u8>, min: u8, p: &[u8], chunk: usize) {
    v.push(min);
    for c in p.chunks(chunk) {
        v.push(c.len() as u8);
        v.extend_from_slice(c);
    }
    v.push(0);
}

/// A file of the family whose size is in proportion to n
fn family(k: usize, n: usize, rng: &mut Rng) -> Vec<u8> {
    let mut v = vec![];
    let noise = |w: usize, h: usize, rng: &mut Rng| {
        (0..w * h).map(|_| rng.below(2) as u8).collect::<Vec<u8>>()
    };
    match k {
        8 => {
            head(&mut v, 16, n as u16);
            let px = noise(16, n, rng);
            image(&mut v, 16, n as u16, 0, &px, &LzwOpts::plain(2), rng);
        }
        9 => {
            head(&mut v, n as u16, 16);
            let px = noise(n, 16, rng);
            image(&mut v, n as u16, 16, 0, &px, &LzwOpts::plain(2), rng);
        }
        10 => {
            head(&mut v, 16, n as u16);
            let px = noise(16, n, rng);
            image(&mut v, 16, n as u16, 0x40, &px, &LzwOpts::plain(2), rng);
        }
        11 => {
            head(&mut v, 2, 1);
            ser_plain(&RB::Desc(Desc { w: 2, h: 1, ..Default::default() }), &mut v);
            // three-bit codes: 0, then clear codes, then 1 and the end
            let mut bits = vec![4u8, 0];
            bits.extend(std::iter::repeat_n(4, 8 * n));
            bits.extend([1, 5]);
            let mut p = vec![];
            let (mut acc, mut have) = (0u32, 0);
            for b in bits {
                acc |= (b as u32) << have;
                have += 3;
                while have >= 8 {
                    p.push(acc as u8);
                    acc >>= 8;
                    have -= 8;
                }
            }
            p.push(acc as u8);
            whole(&mut v, 2, &p, 255);
        }
        12 => {
            head(&mut v, 1, 1);
            ser_plain(&RB::Desc(Desc { w: 1, h: 1, ..Default::default() }), &mut v);
            let mut p = lzw_encode(&[0], &LzwOpts::plain(2), rng);
            p.extend(rng.bytes(16 * n));
            whole(&mut v, 2, &p, 255);
        }
        13 => {
            head(&mut v, 16, n as u16);
            ser_plain(&RB::Desc(Desc { w: 16, h: n as u16, ..Default::default() }), &mut v);
            let px = noise(16, n, rng);
            let p = lzw_encode(&px, &LzwOpts::plain(2), rng);
            whole(&mut v, 2, &p, 1);
        }
        14 => {
            head(&mut v, 64, n as u16);
            let mut o = LzwOpts::plain(8);
            o.full = Full::Defer;
            let px = rng.bytes(64 * n);
            image(&mut v, 64, n as u16, 0x87, &px, &o, rng);
        }
        _ => {
            head(&mut v, 1, 1);
            if ![0, 1, 18, 19, 20].contains(&k) {
                one_pixel(&mut v, 0, rng);
            }
            let parts = || (0..n).map(|i| vec![i as u8]).collect::<Subs>();
            match k {
                1 => ser_plain(&RB::Comment(parts()), &mut v),
                15 => ser_plain(&RB::Plain(parts()), &mut v),
                16 => ser_plain(&RB::App(parts()), &mut v),
                17 => ser_plain(&RB::Unknown(0x42, parts()), &mut v),
                _ => (),
            }
            for i in 0..if k == 18 || k == 20 { n } else { 0 } {
                let x = vec![vec![i as u8; 3]];
                match if k == 18 { 0 } else { i % 4 } {
                    0 => ser_plain(&RB::Comment(x), &mut v),
                    1 => ser_plain(&RB::App(x), &mut v),
                    2 => ser_plain(&RB::Plain(x), &mut v),
                    _ => ser_plain(&RB::Unknown(0x42, x), &mut v),
                }
            }
            for i in 0..n {
                let x = i as u8;
                match k {
                    0 => ser_plain(&RB::Comment(vec![vec![x; 5]]), &mut v),
                    2 => ser_plain(&RB::App(vec![b"XMP DataXMP".to_vec(), vec![x]]), &mut v),
                    3 => ser_plain(&RB::Unknown(0x42, vec![]), &mut v),
                    4 => {
                        ser_plain(&RB::Gc(Gc::default()), &mut v);
                        ser_plain(&RB::Plain(vec![vec![x; 12], vec![x; 3]]), &mut v);
                    }
                    5 => {
                        ser_plain(&RB::Gc(Gc { delay: i as u16, ..Default::default() }), &mut v);
                        one_pixel(&mut v, 0, rng);
                    }
                    6 => one_pixel(&mut v, 0, rng),
                    7 | 18 => one_pixel(&mut v, 0x82, rng),
                    19 => ser_plain(&RB::App(loop_subs(rng, 1)), &mut v),
                    20 => {
                        ser_plain(&RB::Gc(Gc { delay: i as u16, ..Default::default() }), &mut v);
                        one_pixel(&mut v, 0x80, rng);
                    }
                    _ => (),
                }
            }
            one_pixel(&mut v, 0, rng);
        }
    }
    v.push(0x3B);
    v
}

/// Everything a file holds at one level, dropped as it comes
fn consume(data: &[u8], lv: usize) -> std::result::Result<u64, Ek> {
    let max = MaxSz::Default;
    let mut n = 0;
    match lv {
        0 => {
            for b in decoder(data, max).into_blocks() {
                b.map_err(|e| ek(&e))?;
                n += 1;
            }
        }
        1 => {
            for f in decoder(data, max).into_frames() {
                f.map_err(|e| ek(&e))?;
                n += 1;
            }
        }
        2 => {
            let mut f = decoder(data, max).into_frames();
            f.preamble().map_err(|e| ek(&e))?;
            for f in f {
                f.map_err(|e| ek(&e))?;
                n += 1;
            }
        }
        _ => {
            let d = decoder(data, max);
            let it: Box<dyn Iterator<Item = Result<Step>>> =
                if lv == 3 { Box::new(d.into_steps()) } else { Box::new(d.into_iter()) };
            for s in it {
                s.map_err(|e| ek(&e))?;
                n += 1;
            }
        }
    }
    Ok(n)
}

const LEVELS: [&str; 5] = ["blocks", "frames", "frames with preamble", "steps", "looping"];

const ENCODERS: [&str; 10] = [
    "steps of one pixel",
    "rows of a step",
    "columns of a step",
    "frames",
    "comments of one block",
    "steps with palettes of their own",
    "parts of plain text",
    "parts of an application extension",
    "parts of an unknown extension",
    "comments of a preamble",
];

/// Encode something whose size is in proportion to n
fn produce(k: usize, n: usize, spec: &AnimSpec) -> std::result::Result<u64, Ek> {
    let mut out = Sink::default();
    let err = |e: gift::Error| ek(&e);
    match k {
        0 => {
            let st = gstep(&spec.steps[0]);
            let mut e = Encoder::new(&mut out).into_step_enc();
            for _ in 0..n {
                e.encode_step(&st).map_err(err)?;
            }
        }
        1 | 2 => encode_anim(spec, &mut out)?,
        5 => {
            let mut st = spec.steps[0].clone();
            let mut e = Encoder::new(&mut out).into_step_enc();
            for i in 0..n {
                st.pal[1] = [i as u8, (i >> 8) as u8, 77];
                st.pal[2] = [i as u8, (i >> 8) as u8, 78];
                e.encode_step(&gstep(&st)).map_err(err)?;
            }
        }
        9 => {
            let comments = (0..n).map(|i| gcomment(&vec![vec![i as u8; 9]])).collect();
            let p = gift::block::Preamble { comments, ..Default::default() };
            let mut e = Encoder::new(&mut out).into_frame_enc();
            e.encode_preamble(&p).map_err(err)?;
        }
        3 => {
            let f = RFrame {
                gc: Some(Gc { delay: 9, ..Default::default() }),
                desc: Desc { w: 1, h: 1, flags: 0x80, ..Default::default() },
                lct: Some(vec![1, 2, 3, 4, 5, 6]),
                data: vec![1],
            };
            let f = gframe(&f);
            let mut e = Encoder::new(&mut out).into_frame_enc();
            e.encode_preamble(&Default::default()).map_err(err)?;
            for _ in 0..n {
                e.encode_frame(&f).map_err(err)?;
            }
            e.encode_trailer().map_err(err)?;
        }
        _ => {
            let s: Subs = (0..n).map(|i| vec![i as u8; 9]).collect();
            let b = match k {
                6 => RB::Plain(s),
                7 => RB::App(s),
                8 => RB::Unknown(0x42, s),
                _ => RB::Comment(s),
            };
            let mut e = Encoder::new(&mut out).into_block_enc();
            e.encode(gblock(&b)).map_err(err)?;
        }
    }
    Ok(out.0)
}

/// Size of the larger of two inputs, in terms of the smaller
const SCALE: u64 = 16;

pub fn c20(ctx: &mut Ctx, rng: &mut Rng, idx: u64) -> Res {
    let total = FAMILIES.len() * LEVELS.len() + ENCODERS.len();
    let k = idx as usize % total;
    let (what, n, small, large, job): (String, usize, Vec<u8>, Vec<u8>, Box<dyn Fn(bool) -> _>);
    if k < FAMILIES.len() * LEVELS.len() {
        let (fam, lv) = (k / LEVELS.len(), k % LEVELS.len());
        n = rng.range(300, 1000);
        small = family(fam, n, rng);
        large = family(fam, n * SCALE as usize, rng);
        what = format!("{} at the level of {}", FAMILIES[fam], LEVELS[lv]);
        let (s, l) = (small.clone(), large.clone());
        job = Box::new(move |big| consume(if big { &l } else { &s }, lv));
    } else {
        let e = k - FAMILIES.len() * LEVELS.len();
        n = rng.range(300, 1000);
        let spec = |n: usize, rng: &mut Rng| {
            let (w, h) = match e {
                1 => (16, n),
                2 => (n, 16),
                _ => (1, 1),
            };
            AnimSpec {
                steps: vec![StepSpec {
                    w,
                    h,
                    data: (0..w * h).map(|_| rng.below(5) as u8).collect(),
                    pal: palette(rng, 5),
                    disposal: 0,
                    trans: None,
                    delay: Some(1),
                }],
                loops: None,
                global: None,
            }
        };
        let (s, l) = (spec(n, rng), spec(n * SCALE as usize, rng));
        (small, large) = (vec![], vec![]);
        what = format!("encoding {}", ENCODERS[e]);
        job = Box::new(move |big| {
            let m = if big { n * SCALE as usize } else { n };
            produce(e, m, if big { &l } else { &s })
        });
    }
    let files: &[(&str, &[u8])] = &[("small.gif", &small), ("large.gif", &large)];
    let once = |big: bool| -> std::result::Result<Cost, Fail> {
        let (r, c) = measure_cost(|| guard(|| job(big)));
        match r {
            Err(p) => vio(format!("{what}: {p}"), files),
            Ok(Err(e)) => vio(format!("{what}: failed with {e:?}"), files),
            Ok(Ok(0)) => Err(Fail::Harness(format!("{what}: nothing done"))),
            Ok(Ok(_)) => Ok(c),
        }
    };
    let best = |big: bool, times: usize| -> std::result::Result<Cost, Fail> {
        let mut c = once(big)?;
        for _ in 1..times {
            let d = once(big)?;
            c.cpu_ns = c.cpu_ns.min(d.cpu_ns);
        }
        Ok(c)
    };
    let (s, l) = (best(false, 3)?, best(true, 1)?);
    // allocation is exact: linear growth with room for doubling vectors
    let bound = 2 * SCALE * s.traffic + (64 << 10);
    if l.traffic > bound {
        return vio(
            format!(
                "{what}: {n} cost {} bytes of allocation, {} cost {} (linear growth would stay below {bound})",
                s.traffic,
                n as u64 * SCALE,
                l.traffic
            ),
            files,
        );
    }
    // processor time is not: far from linear, again and again
    let over = |s: &Cost, l: &Cost| s.cpu_ns > 0 && l.cpu_ns > 6 * SCALE * s.cpu_ns.max(20_000);
    if over(&s, &l) {
        let mut times = vec![l.cpu_ns / s.cpu_ns];
        let mut all = true;
        for _ in 0..3 {
            let (s, l) = (best(false, 5)?, best(true, 2)?);
            times.push(l.cpu_ns / s.cpu_ns.max(1));
            all &= over(&s, &l);
        }
        if all {
            return vio(
                format!(
                    "{what}: {SCALE} times the size took {times:?} times the processor time, \
                     measured {} times",
                    times.len()
                ),
                files,
            );
        }
        ctx.add("processor_time_outliers_not_confirmed", 1);
    }
    // an encoder which holds one item does not grow with their number
    let e = k as i64 - (FAMILIES.len() * LEVELS.len()) as i64;
    if [0, 3, 5].contains(&e) && l.peak > s.peak + s.peak / 2 + (16 << 10) {
        return vio(
            format!("{what}: {n} needed {} bytes at a time, {} needed {}", s.peak, n as u64 * SCALE, l.peak),
            files,
        );
    }
    ctx.max("traffic_growth_percent_of_linear", l.traffic * 100 / (SCALE * s.traffic).max(1));
    ctx.max("processor_growth_percent_of_linear", l.cpu_ns * 100 / (SCALE * s.cpu_ns).max(1));
    ctx.add("size_pairs_measured", 1);
    ctx.add(if e < 0 { "decoding_pairs" } else { "encoding_pairs" }, 1);
    ctx.add("bytes_fed", (small.len() + large.len()) as u64);
    ctx.add("processor_time_pairs", (s.cpu_ns > 0) as u64);
    ctx.distinct(mix(idx % total as u64) ^ mix(n as u64) ^ hash_bytes(&large));
    ctx.sample(|| {
        format!(
            "{what}: {n} and {}: {} and {} bytes allocated, {} and {} us",
            n as u64 * SCALE,
            s.traffic,
            l.traffic,
            s.cpu_ns / 1000,
            l.cpu_ns / 1000
        )
    });
    Ok(())
}

// ---------------------------------------------------------------- C21

/// Compressed bytes and lengths of the sub-blocks of an image data block
fn payload(block: &[u8]) -> (u8, usize, Vec<usize>) {
    let mut lens = vec![];
    let mut i = 1;
    while block[i] != 0 {
        lens.push(block[i] as usize);
        i += 1 + block[i] as usize;
    }
    (block[0], lens.iter().sum(), lens)
}

/// Colour table bytes, filled up to a power of two
fn filled(pal: &[[u8; 3]]) -> Vec<u8> {
    let mut t: Vec<u8> = pal.iter().flatten().copied().collect();
    t.resize(3 * pal.len().max(2).next_power_of_two(), 0);
    t
}

/// Image data of one encoding against a standard greedy encoder
fn compact_images(v: &[u8], rng: &mut Rng, ctx: &mut Ctx) -> std::result::Result<RefTrace, String> {
    let t = ref_parse(v, None, &mut LzwStats::default());
    if t.end != End::Trailer {
        return Err(format!("encoding ends with {:?}", t.end));
    }
    let mut start = 0;
    for it in &t.items {
        if let RB::Data(px) = &it.b
            && !px.is_empty()
        {
            let (min, len, subs) = payload(&v[start..it.end]);
            let want = min_bits_for(px);
            if min != want {
                return Err(format!("code size {min} where {want} is enough"));
            }
            let std = lzw_encode(px, &LzwOpts::plain(want), rng).len();
            if len > std + std / 100 + 2 {
                return Err(format!("{} pixels take {len} bytes, {std} are enough", px.len()));
            }
            if subs.iter().rev().skip(1).any(|n| *n != 255) {
                return Err(format!("sub-blocks which are not full: {subs:?}"));
            }
            ctx.add("images_measured", 1);
            ctx.add("pixels_measured", px.len() as u64);
            ctx.add("bytes_by_library", len as u64);
            ctx.add("bytes_by_reference", std as u64);
            ctx.add("images_of_several_sub_blocks", (subs.len() > 1) as u64);
        }
        start = it.end;
    }
    Ok(t)
}

pub fn c21(ctx: &mut Ctx, rng: &mut Rng, _idx: u64) -> Res {
    let mut v = vec![];
    if rng.one_in(4) {
        let o = GOpt { min_frames: 1, drawable: true, plain_text: false, big: 60, ..GOpt::default() };
        let g = gif(rng, &o);
        let ft = ref_frames(&ref_parse(&g.bytes, None, &mut LzwStats::default()));
        let p = ft.preamble.clone().unwrap();
        let fs: Vec<RFrame> = ft.frames.iter().map(|f| f.0.clone()).collect();
        match guard(|| encode_frames(&p, &fs, &mut v)) {
            Ok(Ok(())) => (),
            x => return vio(format!("frame encoder: {x:?}"), &[("blocks.gif", &g.bytes)]),
        }
        let t = match compact_images(&v, rng, ctx) {
            Ok(t) => t,
            Err(m) => return vio(format!("frames: {m}"), &[("encoded.gif", &v)]),
        };
        let n = 2
            + (p.gct.is_some() as usize)
            + (p.loop_ext.is_some() as usize)
            + p.comments.len()
            + fs.iter()
                .map(|f| 2 + f.gc.is_some() as usize + f.lct.is_some() as usize)
                .sum::<usize>()
            + 1;
        if t.items.len() != n {
            return vio(format!("{} blocks written, {n} asked for", t.items.len()), &[("encoded.gif", &v)]);
        }
        ctx.add("frame_encodings", 1);
    } else {
        let mut a = if rng.one_in(400) { anim_extreme(rng) } else { anim(rng, 40, 5, 60) };
        for s in &mut a.steps {
            if rng.one_in(3) {
                (s.disposal, s.trans, s.delay) = (0, None, None);
            }
        }
        match guard(|| encode_anim(&a, &mut v)) {
            Ok(Ok(())) => (),
            x => return vio(format!("{}: {x:?}", anim_summary(&a)), &[]),
        }
        let bad = |m: String| vio(format!("{}: {m}", anim_summary(&a)), &[("encoded.gif", &v)]);
        let t = match compact_images(&v, rng, ctx) {
            Ok(t) => t,
            Err(m) => return bad(m),
        };
        let ft = ref_frames(&t);
        if ft.frames.len() != a.steps.len() {
            return bad(format!("{} frames", ft.frames.len()));
        }
        let global = filled(a.global.as_ref().unwrap_or(&a.steps[0].pal));
        let mut n = 3 + a.loops.is_some() as usize + 1;
        for (s, (f, _)) in a.steps.iter().zip(&ft.frames) {
            let same = filled(&s.pal) == global;
            if same && f.lct.is_some() {
                return bad("a local colour table repeats the global one".into());
            }
            let idle = s.disposal == 0 && s.trans.is_none() && s.delay.unwrap_or(0) == 0;
            if idle && f.gc.is_some() {
                return bad("a graphic control says nothing".into());
            }
            n += 2 + f.gc.is_some() as usize + f.lct.is_some() as usize;
            ctx.add("steps_without_local_table", same as u64);
            ctx.add("steps_without_control", idle as u64);
        }
        if t.items.len() != n {
            return bad(format!("{} blocks written, {n} are enough", t.items.len()));
        }
        ctx.add("step_encodings", 1);
    }
    ctx.distinct(hash_bytes(&v));
    ctx.sample(|| hex_short(&v));
    Ok(())
}

// ---------------------------------------------------------------- C22

/// Run an example program in a directory of its own
fn example(ctx: &Ctx, name: &str, dir: &str, arg: Option<&str>) -> std::result::Result<Output, Fail> {
    let mut cmd = Command::new(format!("{}/{name}", ctx.bin));
    limited(cmd.args(arg).current_dir(dir).env_remove("RUST_LOG"))
        .output()
        .map_err(|e| Fail::Harness(format!("cannot run {name}: {e}")))
}

/// What the file an encoding example writes has to show
fn judge_written(name: &str, v: &[u8]) -> std::result::Result<(), String> {
    let mut st = LzwStats::default();
    let ft = ref_frames(&ref_parse(v, None, &mut st));
    let t = ref_steps(&ft, None);
    if t.end != End::Trailer || v.last() != Some(&0x3B) {
        return Err(format!("file ends with {:?}", t.end));
    }
    let rgb = |n: usize, x: usize, y: usize| {
        let s = &t.steps[n].0;
        let i = (y * s.w + x) * 4;
        [s.px[i], s.px[i + 1], s.px[i + 2]]
    };
    let want = match name {
        "dots" => (2, 32, Some(0)),
        _ => (1, 4, None),
    };
    let size_ok = t.steps.iter().all(|s| (s.0.w, s.0.h) == (want.1, want.1));
    if t.steps.len() != want.0 || !size_ok || t.loop_count != want.2 {
        return Err(format!("{} steps, loop count {:?}, sizes as expected: {size_ok}", t.steps.len(), t.loop_count));
    }
    match name {
        "dots" => {
            if t.steps.iter().any(|s| s.0.delay != 200) {
                return Err("delay is not 2 seconds".into());
            }
            for n in 0..2 {
                if rgb(n, 0, 0) != [0; 3] || rgb(n, 31, 31) != [0; 3] {
                    return Err(format!("step {n}: corners are {:?} {:?}", rgb(n, 0, 0), rgb(n, 31, 31)));
                }
                for (x, y) in [(10, 11), (21, 11), (11, 21), (21, 20)] {
                    let [r, g, b] = rgb(n, x, y);
                    if r < 150 || g < 120 || b > 20 {
                        return Err(format!("step {n}: pixel {x},{y} is not amber: {:?}", [r, g, b]));
                    }
                }
            }
            let [r, g, b] = rgb(0, 16, 16);
            if r < 200 || g > 40 || b > 20 || rgb(1, 16, 16) == [r, g, b] {
                return Err(format!("centre is {:?}, then {:?}", [r, g, b], rgb(1, 16, 16)));
            }
        }
        _ => {
            for y in 0..4 {
                for x in 0..4 {
                    let want = match (name, x == y, x + y == 3) {
                        ("enc_block", false, false) => [0; 3],
                        ("enc_block", ..) => [255; 3],
                        (_, true, _) => [255, 255, 0],
                        _ => [255, 0, 0],
                    };
                    let corner = name == "enc_block";
                    let want = if corner && (1..3).contains(&x) && (1..3).contains(&y) { [255; 3] } else { want };
                    if rgb(0, x, y) != want {
                        return Err(format!("pixel {x},{y} is {:?}, not {want:?}", rgb(0, x, y)));
                    }
                }
            }
        }
    }
    Ok(())
}

pub fn c22(ctx: &mut Ctx, rng: &mut Rng, idx: u64) -> Res {
    let dir = format!("{}/example-{idx}", ctx.scratch);
    if let Err(e) = std::fs::create_dir_all(&dir) {
        return Err(Fail::Harness(format!("cannot make {dir}: {e}")));
    }
    let r = example_case(ctx, rng, idx, &dir);
    let _ = std::fs::remove_dir_all(&dir);
    r
}

fn example_case(ctx: &mut Ctx, rng: &mut Rng, idx: u64, dir: &str) -> Res {
    let sound = |name: &str, o: &Output, v: &[u8]| -> Res {
        let err = String::from_utf8_lossy(&o.stderr);
        match o.status.code() {
            Some(101) => vio(format!("{name} panicked: {err}"), &[("input.gif", v)]),
            None => vio(format!("{name} was ended by a signal: {}", o.status), &[("input.gif", v)]),
            _ => Ok(()),
        }
    };
    if idx % 16 < 3 {
        let (name, file) =
            [("enc_block", "test.gif"), ("enc_raster", "enc_raster.gif"), ("dots", "dots.gif")][idx as usize % 16];
        let o = example(ctx, name, dir, None)?;
        sound(name, &o, &[])?;
        if !o.status.success() {
            return vio(format!("{name} failed: {}", String::from_utf8_lossy(&o.stderr)), &[]);
        }
        let v = match std::fs::read(format!("{dir}/{file}")) {
            Ok(v) => v,
            Err(e) => return vio(format!("{name} left no {file}: {e}"), &[]),
        };
        if let Err(m) = judge_written(name, &v) {
            return vio(format!("{name}: {m}"), &[("written.gif", &v)]);
        }
        ctx.add("encoding_examples_run", 1);
        ctx.distinct(mix(idx % 16));
        return Ok(());
    }
    let o = GOpt { max_dim: 6, max_frames: 5, drawable: !rng.one_in(4), looping: 1, ..GOpt::default() };
    let os = o.spread(rng, 40);
    let mut g = gif(rng, &os);
    let rep = rng.below(4) as u16;
    if rep > 0 {
        let i = g.blocks.iter().position(|b| !matches!(b, RB::Header(_) | RB::Lsd(_) | RB::Gct(_)));
        g.blocks.insert(i.unwrap(), RB::App(loop_subs(rng, rep)));
    }
    let mut v = serialize(rng, &g.blocks, true);
    match rng.below(6) {
        0 => {
            let k = rng.below(v.len());
            v.truncate(k);
        }
        1 if rep == 0 => v = scramble(rng, &g).0,
        _ => (),
    }
    let missing = rng.one_in(25);
    let path = format!("{dir}/in.gif");
    if !missing && let Err(e) = std::fs::write(&path, &v) {
        return Err(Fail::Harness(format!("cannot write {path}: {e}")));
    }
    let max = Some(1 << 25);
    let t = ref_parse(&v, max, &mut LzwStats::default());
    let ft = ref_frames(&t);
    let name = ["dec_block", "dec_frame", "dec_raster"][rng.below(3)];
    let (mut want, end): (Vec<String>, End) = match name {
        "dec_block" => (t.items.iter().map(|i| format!("block: {:?}", gblock(&i.b))).collect(), t.end.clone()),
        "dec_frame" => match &ft.preamble {
            Some(p) => {
                let mut w = vec![format!("preamble: {:?}", Some(gpreamble(p)))];
                w.extend(ft.frames.iter().map(|f| format!("frame: {:?}", gframe(&f.0))));
                (w, ft.end.clone())
            }
            None if ft.end == End::Trailer => (vec![], End::Err(Ek::InvalidBlockSequence)),
            None => (vec![], ft.end.clone()),
        },
        _ => {
            let s = ref_steps(&ft, max);
            let mut n = s.steps.len();
            if s.end == End::Trailer {
                n *= s.loop_count.map_or(1, |c| c as usize + 1);
            }
            if s.loop_count == Some(0) || n > 2000 {
                return Ok(());
            }
            let w = (0..n).map(|_| format!("raster: {}x{}", s.steps[0].0.w, s.steps[0].0.h)).collect();
            (w, s.end)
        }
    };
    if matches!(end, End::Unspecified(_)) || ft.junk_at.is_some() || t.items.iter().any(|i| i.junk) {
        ctx.add("unspecified_inputs", 1);
        return Ok(());
    }
    if missing {
        want.clear();
    }
    let out = example(ctx, name, dir, Some("in.gif"))?;
    sound(name, &out, &v)?;
    let good = !missing && end == End::Trailer;
    let stdout = String::from_utf8_lossy(&out.stdout);
    let got: Vec<&str> = stdout.lines().collect();
    if let Some(i) = (0..got.len().max(want.len())).find(|i| got.get(*i).copied() != want.get(*i).map(|s| &s[..])) {
        let cut = |s: Option<&str>| s.map(|s| s.chars().take(300).collect::<String>());
        return vio(
            format!(
                "{name}: line {i} of {} is {:?}, expected {:?}",
                got.len(),
                cut(got.get(i).copied()),
                cut(want.get(i).map(|s| &s[..]))
            ),
            &[("input.gif", &v)],
        );
    }
    if out.status.success() != good {
        return vio(format!("{name}: {} for a file which ends with {end:?}", out.status), &[("input.gif", &v)]);
    }
    if !good && out.stderr.is_empty() {
        return vio(format!("{name}: no error message"), &[("input.gif", &v)]);
    }
    ctx.add(&format!("{name}_runs"), 1);
    ctx.add("lines_compared", want.len() as u64);
    ctx.add(if good { "files_shown" } else { "files_refused" }, 1);
    ctx.distinct(hash_bytes(&v) ^ hash_bytes(name.as_bytes()));
    ctx.sample(|| format!("{name}: {} lines, {end:?}", want.len()));
    Ok(())
}
