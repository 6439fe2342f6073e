//! One monitored workload per property.  Each `cNN` runs one case: it makes a
//! workload from the case's random stream, drives the real crate under the
//! monitors, and lets the oracle judge the recorded execution.
use crate::r#gen::*;
use crate::io::*;
use crate::obs::*;
use crate::refgif::*;
use crate::util::*;
use gift::{Decoder, Encoder};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::io::ErrorKind;
use std::rc::Rc;

pub enum Fail {
    /// the property is broken
    Violation(String, Vec<(String, Vec<u8>)>),
    /// the harness itself is wrong
    Harness(String),
}

pub type Res = Result<(), Fail>;

/// A violation with the inputs which show it
pub fn vio<T>(msg: impl Into<String>, files: &[(&str, &[u8])]) -> Result<T, Fail> {
    Err(Fail::Violation(
        msg.into(),
        files.iter().map(|(n, b)| (n.to_string(), b.to_vec())).collect(),
    ))
}

#[derive(Default)]
pub struct Ctx {
    pub stats: BTreeMap<String, u64>,
    pub maxes: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub known: BTreeMap<String, (u64, String)>,
    pub digest: u64,
    pub tiny: bool,
    pub bin: String,
    pub scratch: String,
}

impl Ctx {
    pub fn add(&mut self, k: &str, n: u64) {
        if let Some(v) = self.stats.get_mut(k) {
            *v += n;
        } else {
            self.stats.insert(k.to_string(), n);
        }
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let v = self.maxes.entry(k.to_string()).or_insert(0);
        *v = (*v).max(n);
    }
    /// A non-trivial case, identified by its hash
    pub fn distinct(&mut self, h: u64) {
        self.distinct.insert(h);
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 2 {
            let s = f();
            self.samples.push(s);
        }
    }
    fn known(&mut self, key: &str, what: impl FnOnce() -> String) {
        if let Some(e) = self.known.get_mut(key) {
            e.0 += 1;
        } else {
            self.known.insert(key.to_string(), (1, what()));
        }
    }
    fn lzw(&mut self, st: &LzwStats) {
        self.add("lzw_images", st.images);
        self.add("lzw_codes", st.codes);
        self.add("lzw_clear_codes", st.clears);
        self.add("lzw_self_referencing_codes", st.kwkwk);
        self.add("lzw_codes_with_full_table", st.full_codes);
        self.add("lzw_files_over_65536_codes", (st.codes > 65536) as u64);
        self.max("lzw_codes_per_file", st.codes);
        self.add("lzw_streams_without_end_code", st.no_eoi);
        self.add("lzw_streams_with_surplus_pixels", st.surplus);
        self.max("lzw_code_width", st.max_width as u64);
    }
}

fn first_diff(a: &[u8], b: &[u8]) -> String {
    for i in 0..a.len().max(b.len()) {
        if a.get(i) != b.get(i) {
            return format!(
                "first difference at {i}: got {:?}, expected {:?} (lengths {} and {})",
                a.get(i),
                b.get(i),
                a.len(),
                b.len()
            );
        }
    }
    "equal".into()
}

trait Diff {
    fn diff(&self, o: &Self) -> String;
}

impl Diff for RB {
    fn diff(&self, o: &Self) -> String {
        match (self, o) {
            (RB::Data(a), RB::Data(b)) => format!("pixel data: {}", first_diff(a, b)),
            _ => format!("got {self:?}, expected {o:?}"),
        }
    }
}

impl Diff for RFrame {
    fn diff(&self, o: &Self) -> String {
        if self.data != o.data {
            return format!("frame pixels: {}", first_diff(&self.data, &o.data));
        }
        if self.lct != o.lct {
            return format!(
                "frame local table: got {:?}, expected {:?}",
                self.lct.as_ref().map(|x| hex_short(x)),
                o.lct.as_ref().map(|x| hex_short(x))
            );
        }
        format!(
            "frame: got {:?} {:?}, expected {:?} {:?}",
            self.gc, self.desc, o.gc, o.desc
        )
    }
}

impl Diff for RStep {
    fn diff(&self, o: &Self) -> String {
        if (self.w, self.h) != (o.w, o.h) {
            return format!("step size {}x{}, expected {}x{}", self.w, self.h, o.w, o.h);
        }
        for i in 0..o.px.len() / 4 {
            if self.px.get(i * 4..i * 4 + 4) != o.px.get(i * 4..i * 4 + 4) {
                return format!(
                    "pixel ({},{}) is {:?}, expected {:?}",
                    i % o.w,
                    i / o.w,
                    self.px.get(i * 4..i * 4 + 4),
                    o.px.get(i * 4..i * 4 + 4)
                );
            }
        }
        format!("got {self:?}, expected {o:?}")
    }
}

/// Oracle: judge a recorded trace against the model's
fn judge<T: PartialEq + Debug + Diff>(
    level: &str,
    o: &Obs<T>,
    expected: &[(T, usize)],
    end: &End,
    junk: &dyn Fn(usize) -> bool,
) -> Result<(), String> {
    let n = o.items.len();
    for i in 0..n.min(expected.len()) {
        if o.items[i].0 != expected[i].0 {
            return Err(format!("{level} item {i}: {}", o.items[i].0.diff(&expected[i].0)));
        }
    }
    if let Some(a) = &o.after {
        return Err(format!("{level}: returned {a} ({:?})", o.err));
    }
    if o.over {
        return Err(format!("{level}: more than {n} items from this input"));
    }
    if o.err == Some(Ek::InvalidLzw) && junk(n) {
        // impossible code after the image was complete: may be refused
        return Ok(());
    }
    let ok = match end {
        End::Unspecified(_) => n >= expected.len(),
        End::Trailer => n == expected.len() && o.err.is_none(),
        End::Err(e) => n == expected.len() && o.err == Some(*e),
    };
    if ok {
        Ok(())
    } else {
        Err(format!(
            "{level}: {n} items then {:?}; expected {} items then {:?}",
            o.err,
            expected.len(),
            end
        ))
    }
}

struct Model {
    t: RefTrace,
    f: FrameTrace,
    s: StepTrace,
    bitems: Vec<(RB, usize)>,
}

impl Model {
    fn new(data: &[u8], max: Option<usize>, ctx: &mut Ctx) -> Self {
        let mut st = LzwStats::default();
        let t = ref_parse(data, max, &mut st);
        ctx.lzw(&st);
        let f = ref_frames(&t);
        let s = ref_steps(&f, max);
        let bitems = t.items.iter().map(|i| (i.b.clone(), i.end)).collect();
        Model { t, f, s, bitems }
    }
    fn blocks(&self, o: &Obs<RB>) -> Result<(), String> {
        judge("block", o, &self.bitems, &self.t.end, &|i| {
            self.t.items.get(i).is_some_and(|x| x.junk)
        })
    }
    fn frames(&self, o: &Obs<RFrame>) -> Result<(), String> {
        judge("frame", o, &self.f.frames, &self.f.end, &|i| self.f.junk_at == Some(i))
    }
    fn steps(&self, o: &Obs<RStep>) -> Result<(), String> {
        judge("step", o, &self.s.steps, &self.s.end, &|i| self.s.junk_at == Some(i))
    }
    fn preamble(&self, p: &Result<Option<RPreamble>, Ek>) -> Result<(), String> {
        match (&self.f.preamble, p) {
            (Some(a), Ok(Some(b))) if a == b => Ok(()),
            (Some(a), p) => Err(format!("preamble: got {p:?}, expected {a:?}")),
            (None, Err(e)) => match &self.f.end {
                End::Unspecified(_) => Ok(()),
                End::Trailer if *e == Ek::InvalidBlockSequence => Ok(()),
                End::Err(x) if x == e => Ok(()),
                x => Err(format!("preamble: error {e:?}, expected {x:?}")),
            },
            (None, Ok(p)) => match &self.f.end {
                End::Unspecified(_) => Ok(()),
                x => Err(format!("preamble: got {p:?}, expected {x:?}")),
            },
        }
    }
    /// everything is specified, so a whole-trace comparison is possible
    fn specified(&self) -> bool {
        !matches!(self.t.end, End::Unspecified(_))
    }
}

fn self_check(g: &Gif, m: &Model) -> Res {
    let ok = m.t.end == End::Trailer
        && m.bitems.len() == g.blocks.len()
        && m.bitems.iter().zip(&g.blocks).all(|((a, _), b)| a == b);
    if ok {
        Ok(())
    } else {
        let i = m.bitems.iter().zip(&g.blocks).position(|((a, _), b)| a != b);
        Err(Fail::Harness(format!(
            "reference model disagrees with the generator: end {:?}, block {i:?} of {} in {}",
            m.t.end,
            g.blocks.len(),
            hex_short(&g.bytes)
        )))
    }
}

/// Panic of the code under test becomes a violation
fn run<T>(what: &str, data: &[u8], f: impl FnOnce() -> T) -> Result<T, Fail> {
    match guard(f) {
        Ok(t) => Ok(t),
        Err(p) => vio(format!("{what}: {p}"), &[("input.gif", data)]),
    }
}

fn lift<T>(r: Result<T, String>, data: &[u8]) -> Result<T, Fail> {
    match r {
        Ok(t) => Ok(t),
        Err(m) => vio(m, &[("input.gif", data)]),
    }
}

fn gif_summary(blocks: &[RB]) -> String {
    blocks
        .iter()
        .map(|b| match b {
            RB::Desc(d) => format!("image_desc({}x{}+{}+{})", d.w, d.h, d.l, d.t),
            RB::Lsd(d) => format!("screen({}x{})", d.w, d.h),
            RB::Data(d) => format!("data({})", d.len()),
            b => b.kind().to_string(),
        })
        .collect::<Vec<_>>()
        .join(" ")
}

pub fn anim_summary(a: &AnimSpec) -> String {
    let s: Vec<String> = a
        .steps
        .iter()
        .map(|s| {
            format!(
                "[{}x{} {} colors disposal {} trans {:?} delay {:?} px {}]",
                s.w,
                s.h,
                s.pal.len(),
                s.disposal,
                s.trans,
                s.delay,
                hex(&s.data[..s.data.len().min(12)])
            )
        })
        .collect();
    format!(
        "loops {:?} global {:?} steps {}",
        a.loops,
        a.global.as_ref().map(|g| g.len()),
        s.join(" ")
    )
}

// ---------------------------------------------------------------- C01

/// What the animation must look like
fn anim_model(a: &AnimSpec) -> Vec<RStep> {
    let (w, h) = (a.steps[0].w, a.steps[0].h);
    let mut canvas = vec![0u8; w * h * 4];
    let mut out = vec![];
    for s in &a.steps {
        let before = canvas.clone();
        for (i, p) in s.data.iter().enumerate() {
            if Some(*p) != s.trans {
                canvas[i * 4..i * 4 + 3].copy_from_slice(&s.pal[*p as usize]);
                canvas[i * 4 + 3] = 255;
            }
        }
        out.push(RStep {
            w,
            h,
            px: canvas.clone(),
            trans: s.trans,
            delay: s.delay.unwrap_or(0),
        });
        match s.disposal {
            2 => canvas.fill(0),
            3 => canvas = before,
            _ => (),
        }
    }
    out
}

fn encode_vec(a: &AnimSpec) -> Result<Vec<u8>, Fail> {
    let mut v = vec![];
    match guard(|| encode_anim(a, &mut v)) {
        Err(p) => vio(format!("encoding {}: {p}", anim_summary(a)), &[]),
        Ok(Err(e)) => vio(format!("encoding {}: refused with {e:?}", anim_summary(a)), &[]),
        Ok(Ok(())) => Ok(v),
    }
}

pub fn c01(ctx: &mut Ctx, rng: &mut Rng, idx: u64) -> Res {
    let (dim, steps, big) = if ctx.tiny { (5, 2, 0) } else { (40, 5, 120) };
    let mut a = anim(rng, dim, steps, big);
    if !ctx.tiny && rng.one_in(400) {
        a = anim_extreme(rng);
        ctx.add("extreme_sizes", 1);
    }
    if idx < 512 && !ctx.tiny {
        // a sweep of widths for one-row images with few colours
        let w = 1 + (idx as usize / 2);
        let nc = if idx % 2 == 0 { 2 } else { 256 };
        let data = pixels(rng, w, 1, nc);
        a = AnimSpec {
            steps: vec![StepSpec {
                w,
                h: 1,
                data,
                pal: palette(rng, nc),
                disposal: 0,
                trans: None,
                delay: None,
            }],
            loops: None,
            global: None,
        };
    }
    let v = encode_vec(&a)?;
    let data = Rc::new(v);
    let o = run("decoding", &data, || {
        obs_steps(&data, MaxSz::Default, &ReadPlan::plain())
    })?;
    let expect: Vec<(RStep, usize)> = anim_model(&a).into_iter().map(|s| (s, 0)).collect();
    if let Err(m) = judge("step", &o, &expect, &End::Trailer, &|_| false) {
        return vio(format!("{} -> {m}", anim_summary(&a)), &[("encoded.gif", &data)]);
    }
    let lc = run("preamble", &data, || {
        let p = Decoder::new(&data[..]).into_frames().preamble();
        p.ok().flatten().and_then(|p| p.loop_count_ext).and_then(|e| e.loop_count())
    })?;
    if lc != a.loops {
        return vio(
            format!("loop count {:?} came back as {lc:?}", a.loops),
            &[("encoded.gif", &data)],
        );
    }
    ctx.add("steps_compared", o.items.len() as u64);
    ctx.add("pixels_compared", o.items.iter().map(|s| s.0.px.len() as u64 / 4).sum());
    ctx.add("with_local_palette_change", a.steps.windows(2).any(|w| w[0].pal != w[1].pal) as u64);
    ctx.add("with_preset_global_palette", a.global.is_some() as u64);
    ctx.add("with_index_255", a.steps.iter().any(|s| s.data.contains(&255)) as u64);
    ctx.max("encoded_bytes", data.len() as u64);
    if a.steps.iter().any(|s| s.data.iter().any(|p| *p != s.data[0])) {
        ctx.distinct(hash_bytes(&data));
    }
    ctx.sample(|| anim_summary(&a));
    Ok(())
}

// ---------------------------------------------------------------- C02

fn encode_blocks(blocks: &[RB]) -> Result<Vec<u8>, Ek> {
    let mut v = vec![];
    let mut enc = Encoder::new(&mut v).into_block_enc();
    for b in blocks {
        enc.encode(gblock(b)).map_err(|e| ek(&e))?;
    }
    Ok(v)
}

pub fn encode_frames<W: std::io::Write>(p: &RPreamble, fs: &[RFrame], w: W) -> Result<(), Ek> {
    let mut enc = Encoder::new(w).into_frame_enc();
    enc.encode_preamble(&gpreamble(p)).map_err(|e| ek(&e))?;
    for f in fs {
        enc.encode_frame(&gframe(f)).map_err(|e| ek(&e))?;
    }
    enc.encode_trailer().map_err(|e| ek(&e))
}

fn gopt(ctx: &Ctx) -> GOpt {
    if ctx.tiny {
        GOpt { max_dim: 5, max_frames: 2, ..GOpt::default() }
    } else {
        GOpt::default()
    }
}

pub fn c02(ctx: &mut Ctx, rng: &mut Rng, _idx: u64) -> Res {
    let o = GOpt {
        min_frames: 1,
        big: if ctx.tiny { 0 } else { 150 },
        extreme: if ctx.tiny { 0 } else { 150 },
        drawable: rng.one_in(2),
        ..gopt(ctx)
    };
    let g = gif(rng, &o);
    let seq = Rc::new(g.bytes.clone());
    // blocks
    let v = match run("block encoding", &g.bytes, || encode_blocks(&g.blocks))? {
        Ok(v) => Rc::new(v),
        Err(e) => return vio(format!("block encoder refused: {e:?}"), &[("blocks.gif", &seq)]),
    };
    let ob = run("block decoding", &v, || {
        obs_blocks(&v, MaxSz::Default, &ReadPlan::plain())
    })?;
    let ex: Vec<(RB, usize)> = g.blocks.iter().map(|b| (b.clone(), 0)).collect();
    lift(judge("block", &ob, &ex, &End::Trailer, &|_| false), &v)?;
    // frames
    let mut st = LzwStats::default();
    let ft = ref_frames(&ref_parse(&g.bytes, None, &mut st));
    ctx.lzw(&st);
    if let Some(p) = &ft.preamble {
        let fs: Vec<RFrame> = ft.frames.iter().map(|f| f.0.clone()).collect();
        let mut v = vec![];
        let r = run("frame encoding", &g.bytes, || encode_frames(p, &fs, &mut v))?;
        if let Err(e) = r {
            return vio(format!("frame encoder refused: {e:?}"), &[("blocks.gif", &seq)]);
        }
        let v = Rc::new(v);
        let (pre, of) = run("frame decoding", &v, || {
            obs_frames(&v, MaxSz::Default, &ReadPlan::plain(), true)
        })?;
        if pre != Some(Ok(Some(p.clone()))) {
            return vio(format!("preamble {p:?} came back as {pre:?}"), &[("frames.gif", &v)]);
        }
        lift(judge("frame", &of, &ft.frames, &End::Trailer, &|_| false), &v)?;
        ctx.add("frames_compared", of.items.len() as u64);
        ctx.add("preambles_compared", 1);
    }
    for b in &g.blocks {
        ctx.add(&format!("blocks_{}", b.kind()), 1);
    }
    ctx.distinct(hash_bytes(&v));
    ctx.sample(|| gif_summary(&g.blocks));
    Ok(())
}

// ---------------------------------------------------------------- C03

/// What a strict independent reader found in a finished encoding
struct Strict {
    f: FrameTrace,
    /// images whose end code is cut off at the last whole byte
    eoi_cut: u64,
}

fn strict_read(v: &[u8], st: &mut LzwStats) -> Result<Strict, String> {
    let t = ref_parse(v, None, st);
    if t.end != End::Trailer {
        return Err(format!("an independent reader stops with {:?}", t.end));
    }
    let last = t.items.last().unwrap().end;
    if last != v.len() {
        return Err(format!("{} bytes after the trailer", v.len() - last));
    }
    let mut absent = 0;
    let mut start = 0;
    let mut desc = Desc::default();
    for it in &t.items {
        match &it.b {
            RB::Desc(d) => desc = *d,
            RB::Data(_) => {
                // payload once more, strictly
                let min = v[start];
                let mut z = RefLzw::new(min);
                let mut p = start + 1;
                let mut bytes = vec![];
                while v[p] != 0 {
                    let n = v[p] as usize;
                    bytes.extend_from_slice(&v[p + 1..p + 1 + n]);
                    p += 1 + n;
                }
                let mut used = 0;
                for b in &bytes {
                    if z.ended {
                        break;
                    }
                    used += 1;
                    if z.feed(&[*b]).is_err() {
                        return Err("invalid LZW code".into());
                    }
                }
                if z.out.len() != desc.px() {
                    return Err(format!(
                        "image of {} pixels encoded as {} pixels",
                        desc.px(),
                        z.out.len()
                    ));
                }
                if z.ended && used != bytes.len() {
                    return Err(format!("{} bytes after the end code", bytes.len() - used));
                }
                if z.clears == 0 || z.first_code != 1 << min {
                    return Err("code stream does not start with a clear code".into());
                }
                if !z.ended {
                    // known finding: the last byte is left out when it would
                    // hold nothing but the rest of the end code
                    let (bits, left, width) = z.leftover_bits();
                    let eoi = (1 << min) + 1;
                    if left + 7 >= width && bits == eoi & ((1 << left) - 1) {
                        absent += 1;
                    } else {
                        return Err(format!(
                            "end-of-information code missing ({left} stray bits {bits:#x}, code width {width})"
                        ));
                    }
                }
            }
            _ => (),
        }
        start = it.end;
    }
    Ok(Strict { f: ref_frames(&t), eoi_cut: absent })
}

pub fn c03(ctx: &mut Ctx, rng: &mut Rng, idx: u64) -> Res {
    let mut st = LzwStats::default();
    if rng.one_in(3) {
        // frame encoder
        let o = GOpt {
            min_frames: 1,
            drawable: true,
            plain_text: false,
            big: if ctx.tiny { 0 } else { 100 },
            extreme: if ctx.tiny { 0 } else { 150 },
            ..gopt(ctx)
        };
        let g = gif(rng, &o);
        let ft = ref_frames(&ref_parse(&g.bytes, None, &mut LzwStats::default()));
        let p = ft.preamble.clone().unwrap();
        let fs: Vec<RFrame> = ft.frames.iter().map(|f| f.0.clone()).collect();
        let mut v = vec![];
        let r = run("frame encoding", &g.bytes, || encode_frames(&p, &fs, &mut v))?;
        if let Err(e) = r {
            return vio(format!("frame encoder refused: {e:?}"), &[("blocks.gif", &g.bytes)]);
        }
        let s = lift(strict_read(&v, &mut st), &v)?;
        if s.f.preamble.as_ref() != Some(&p) {
            return vio(
                format!("preamble {p:?} written as {:?}", s.f.preamble),
                &[("encoded.gif", &v)],
            );
        }
        if s.f.frames.len() != fs.len() {
            return vio("wrong number of frames", &[("encoded.gif", &v)]);
        }
        for (i, (a, b)) in s.f.frames.iter().zip(&fs).enumerate() {
            if a.0 != *b {
                return vio(format!("frame {i}: {}", a.0.diff(b)), &[("encoded.gif", &v)]);
            }
        }
        if s.eoi_cut > 0 {
            ctx.known("end-code-cut-off", || {
                format!("end-of-information code cut off, e.g. {}", hex_short(&v))
            });
        }
        ctx.add("frame_encodings", 1);
        ctx.distinct(hash_bytes(&v));
    } else {
        let (dim, steps, big) = if ctx.tiny { (5, 2, 0) } else { (40, 4, 100) };
        let mut a = if !ctx.tiny && rng.one_in(400) {
            anim_extreme(rng)
        } else {
            anim(rng, dim, steps, big)
        };
        let over = rng.one_in(12);
        if over {
            // more colours than a table can hold
            let n = rng.range(257, 600);
            let pal = palette(rng, n);
            for s in a.steps.iter_mut() {
                s.pal = pal.clone();
            }
        }
        if idx < 1024 && !ctx.tiny {
            a.loops = Some((idx * 64 + rng.below(64) as u64) as u16);
        }
        let v = if over {
            let mut v = vec![];
            match guard(|| encode_anim(&a, &mut v)) {
                Err(p) => return vio(format!("{}: {p}", anim_summary(&a)), &[]),
                Ok(Err(_)) => {
                    ctx.add("oversize_palette_refused", 1);
                    return Ok(());
                }
                Ok(Ok(())) => v,
            }
        } else {
            encode_vec(&a)?
        };
        let s = match strict_read(&v, &mut st) {
            Ok(s) => s,
            Err(m) => return vio(format!("{}: {m}", anim_summary(&a)), &[("encoded.gif", &v)]),
        };
        let bad = |m: String| vio(format!("{}: {m}", anim_summary(&a)), &[("encoded.gif", &v)]);
        let p = s.f.preamble.as_ref().unwrap();
        if (p.lsd.w as usize, p.lsd.h as usize) != (a.steps[0].w, a.steps[0].h) {
            return bad(format!("screen size {:?}", p.lsd));
        }
        if &p.header != b"89a" {
            return bad(format!("version {:?} with version 89a blocks", p.header));
        }
        if p.loop_ext.as_ref().and_then(loop_count) != a.loops {
            return bad(format!("loop extension {:?} for {:?}", p.loop_ext, a.loops));
        }
        if let Some(g) = &a.global
            && g.len() <= 256
        {
            let t = p.gct.clone().unwrap_or_default();
            let flat: Vec<u8> = g.iter().flatten().copied().collect();
            if t.len() < flat.len() || t[..flat.len()] != flat[..] {
                return bad("requested global colour table was not written".into());
            }
        }
        if s.f.frames.len() != a.steps.len() {
            return bad(format!("{} frames for {} steps", s.f.frames.len(), a.steps.len()));
        }
        for (i, ((f, _), sp)) in s.f.frames.iter().zip(&a.steps).enumerate() {
            let d = f.desc;
            if (d.l, d.t, d.w as usize, d.h as usize) != (0, 0, sp.w, sp.h) || d.interlaced() {
                return bad(format!("step {i} placed as {d:?}"));
            }
            let tbl = match f.lct.as_ref().or(p.gct.as_ref()) {
                Some(t) => t,
                None => return bad(format!("step {i} has no colour table")),
            };
            let mut need = 2;
            while need < sp.pal.len() {
                need *= 2;
            }
            if f.lct.is_some() && tbl.len() != 3 * need.min(256) {
                return bad(format!(
                    "step {i}: local table of {} colours for {}",
                    tbl.len() / 3,
                    sp.pal.len()
                ));
            }
            for (k, px) in sp.data.iter().enumerate() {
                let got = f.data.get(k).and_then(|p| {
                    let q = *p as usize * 3;
                    tbl.get(q..q + 3)
                });
                if got != Some(&sp.pal[*px as usize][..]) {
                    return bad(format!(
                        "step {i} pixel {k}: colour {got:?}, expected {:?}",
                        sp.pal[*px as usize]
                    ));
                }
                if (f.gc.and_then(|g| g.trans()) == f.data.get(k).copied())
                    != (sp.trans == Some(*px))
                {
                    return bad(format!("step {i} pixel {k}: transparency differs"));
                }
            }
            let g = f.gc.unwrap_or_default();
            if g.disposal() != sp.disposal
                || g.delay != sp.delay.unwrap_or(0)
                || g.trans() != sp.trans
                || g.flags & 0xE2 != 0
            {
                return bad(format!("step {i}: control {g:?}"));
            }
        }
        if s.eoi_cut > 0 {
            ctx.known("end-code-cut-off", || {
                format!("end-of-information code cut off: {} -> {}", anim_summary(&a), hex_short(&v))
            });
        }
        ctx.add("step_encodings", 1);
        ctx.add("oversize_palettes", over as u64);
        ctx.sample(|| format!("{} -> {}", anim_summary(&a), hex_short(&v)));
        ctx.distinct(hash_bytes(&v));
    }
    ctx.lzw(&st);
    Ok(())
}

// ---------------------------------------------------------------- C04

pub fn c04(ctx: &mut Ctx, rng: &mut Rng, idx: u64) -> Res {
    let (mut w, mut h) = (rng.range(1, 60), rng.range(1, 60));
    if ctx.tiny {
        (w, h) = (rng.range(1, 6), rng.range(1, 6));
    } else if rng.one_in(120) {
        (w, h) = (rng.range(200, 450), rng.range(200, 450));
    } else if rng.one_in(20) {
        (w, h) = (rng.range(60, 160), rng.range(60, 160));
    }
    let runs = idx == 0 && !ctx.tiny;
    if runs {
        // one colour: the strings of the table grow to thousands of pixels
        (w, h) = (4000, 2200);
    }
    let raw = !runs && rng.one_in(3);
    let steer = raw && rng.one_in(4);
    if steer && !ctx.tiny {
        (w, h) = (rng.range(1, 100), rng.range(1, 100));
    }
    let mut v = vec![];
    ser_plain(&RB::Header(*b"89a"), &mut v);
    ser_plain(&RB::Lsd(Lsd { w: w as u16, h: h as u16, ..Default::default() }), &mut v);
    let d = Desc { w: w as u16, h: h as u16, ..Default::default() };
    ser_plain(&RB::Desc(d), &mut v);
    let mut intent = None;
    let how = if raw {
        let min = rng.range(2, 8) as u8;
        let bad = rng.pick(&[0, 0, 0, 50, 1000, 20000]);
        let p = lzw_raw(rng, min, w * h, bad, steer);
        ser_payload(&mut v, min, &p, rng);
        if steer {
            ctx.add("streams_steered_to_width_changes", 1);
        }
        format!("raw codes, code size {min}, bad 1/{bad}, steered {steer}")
    } else {
        let nc = rng.pick(&[1, 2, 3, 4, 5, 8, 16, 17, 64, 128, 200, 256]);
        let mut px = if runs { vec![1; w * h] } else { pixels(rng, w, h, nc) };
        if !runs && w * h > 40000 && rng.one_in(2) {
            px.iter_mut().for_each(|p| *p = rng.below(nc) as u8);
        }
        let mut o = if runs { LzwOpts::plain(2) } else { lzw_opts(rng, &px) };
        if !runs && w * h > 40000 && rng.one_in(2) {
            o.full = Full::Defer;
            o.rand_clear = 0;
        }
        let mut enc = px.clone();
        if rng.one_in(8) {
            for _ in 0..rng.range(1, 5000) {
                enc.push(px[rng.below(px.len())]);
            }
        }
        intent = Some(px);
        let p = lzw_encode(&enc, &o, rng);
        ser_payload(&mut v, o.min, &p, rng);
        let mut oo = o.clone();
        oo.post.truncate(3);
        format!("{oo:?}")
    };
    v.push(0x3B);
    let m = Model::new(&v, None, ctx);
    if let Some(px) = &intent {
        match m.bitems.get(3) {
            Some((RB::Data(d), _)) if d == px => (),
            x => {
                return Err(Fail::Harness(format!(
                    "reference LZW does not return the pixels: {x:?} {how}"
                )));
            }
        }
    }
    let v = Rc::new(v);
    let o = run("decoding", &v, || obs_blocks(&v, MaxSz::Default, &ReadPlan::plain()))?;
    if let Err(e) = m.blocks(&o) {
        return vio(format!("{w}x{h} {how}: {e}"), &[("input.gif", &v)]);
    }
    match &m.t.end {
        End::Trailer => ctx.add("streams_accepted", 1),
        End::Err(Ek::InvalidLzw) => ctx.add("streams_rejected_invalid", 1),
        End::Err(Ek::Incomplete) => ctx.add("streams_rejected_incomplete", 1),
        _ => ctx.add("streams_other", 1),
    }
    ctx.add("pixels_compared", (w * h) as u64);
    if w * h > 3 {
        ctx.distinct(hash_bytes(&v));
    }
    ctx.sample(|| format!("{w}x{h} {how}: {}", hex_short(&v)));
    Ok(())
}

// ---------------------------------------------------------------- C05

pub fn c05(ctx: &mut Ctx, rng: &mut Rng, _idx: u64) -> Res {
    let o = GOpt {
        max_frames: 5,
        ext_pct: 60,
        big: if ctx.tiny { 0 } else { 300 },
        extreme: if ctx.tiny { 0 } else { 200 },
        ..gopt(ctx)
    };
    let g = gif(rng, &o);
    let m = Model::new(&g.bytes, None, ctx);
    self_check(&g, &m)?;
    let data = Rc::new(g.bytes.clone());
    let ob = run("decoding", &data, || {
        obs_blocks(&data, MaxSz::Default, &ReadPlan::plain())
    })?;
    lift(m.blocks(&ob), &data)?;
    for b in &g.blocks {
        ctx.add(&format!("blocks_{}", b.kind()), 1);
    }
    ctx.add("bytes_decoded", data.len() as u64);
    if g.blocks.len() > 3 {
        ctx.distinct(hash_bytes(&data));
    }
    ctx.sample(|| gif_summary(&g.blocks));
    Ok(())
}

// ---------------------------------------------------------------- C06

pub fn c06(ctx: &mut Ctx, rng: &mut Rng, _idx: u64) -> Res {
    let o = GOpt { max_frames: 6, ext_pct: 60, max_dim: 12, drawable: rng.one_in(2), extreme: if ctx.tiny { 0 } else { 200 }, ..gopt(ctx) };
    let os = o.spread(rng, 100);
    let g = gif(rng, &os);
    let (bytes, how) = match rng.below(5) {
        0 => scramble(rng, &g),
        1 => {
            // extra extensions anywhere between images
            let mut b = g.blocks.clone();
            for _ in 0..rng.range(1, 6) {
                let lo = b.iter().position(|x| !matches!(x, RB::Header(_) | RB::Lsd(_) | RB::Gct(_)));
                let i = rng.range(lo.unwrap(), b.len() - 1);
                if i > 0 && matches!(b[i - 1], RB::Desc(_) | RB::Lct(_)) {
                    continue;
                }
                let x = match rng.below(5) {
                    0 => RB::Gc(gc(rng, 4)),
                    1 => RB::Comment(subs(rng)),
                    2 => RB::Plain(subs(rng)),
                    3 => RB::App(app_subs(rng)),
                    _ => RB::Unknown(7, subs(rng)),
                };
                b.insert(i, x);
            }
            (serialize(rng, &b, true), "extensions inserted")
        }
        _ => (g.bytes.clone(), "valid"),
    };
    let max = MaxSz::Set(Some(1 << 18));
    let m = Model::new(&bytes, max.limit(), ctx);
    if how == "valid" {
        self_check(&g, &m)?;
    }
    let data = Rc::new(bytes);
    let (_, plain) = run("frames", &data, || obs_frames(&data, max, &ReadPlan::plain(), false))?;
    lift(m.frames(&plain), &data)?;
    let (p, after) = run("preamble+frames", &data, || {
        obs_frames(&data, max, &ReadPlan::plain(), true)
    })?;
    let p = p.unwrap();
    lift(m.preamble(&p), &data)?;
    if let Ok(Some(_)) = p {
        if let Err(e) = m.frames(&after) {
            return vio(format!("after preamble: {e}"), &[("input.gif", &data)]);
        }
        ctx.add("preambles_compared", 1);
    }
    if !m.specified() {
        ctx.add("files_partly_unspecified", 1);
    }
    ctx.add("frames_compared", m.f.frames.len() as u64);
    ctx.add(&format!("layout_{}", how.replace(' ', "_")), 1);
    if m.f.end == End::Err(Ek::InvalidBlockSequence) {
        ctx.add("rejected_block_sequences", 1);
    }
    if m.f.frames.len() > 1 || how != "valid" {
        ctx.distinct(hash_bytes(&data));
    }
    ctx.sample(|| format!("{how}: {}", gif_summary(&g.blocks)));
    Ok(())
}

// ---------------------------------------------------------------- C07

pub fn c07(ctx: &mut Ctx, rng: &mut Rng, idx: u64) -> Res {
    let o = GOpt {
        drawable: true,
        min_frames: 1,
        max_frames: if ctx.tiny { 3 } else { 8 },
        max_dim: if ctx.tiny { 6 } else { 24 + (idx % 50) as usize },
        ext_pct: 15,
        variants: rng.one_in(3),
        extreme: if ctx.tiny { 0 } else { 200 },
        ..GOpt::default()
    };
    let g = gif(rng, &o);
    let m = Model::new(&g.bytes, None, ctx);
    self_check(&g, &m)?;
    if let End::Unspecified(u) = m.s.end {
        ctx.add("files_partly_unspecified", 1);
        ctx.add(&format!("unspecified_{}", u.replace(' ', "_")), 1);
    }
    let data = Rc::new(g.bytes.clone());
    let ob = run("decoding", &data, || {
        obs_steps(&data, MaxSz::Default, &ReadPlan::plain())
    })?;
    if let Err(e) = m.steps(&ob) {
        return vio(format!("{} -> {e}", gif_summary(&g.blocks)), &[("input.gif", &data)]);
    }
    let mut prev = 9;
    for (f, _) in m.f.frames.iter().take(m.s.steps.len()) {
        let d = f.gc.map(|g| g.disposal()).unwrap_or(0);
        ctx.add(&format!("disposal_{d}"), 1);
        if prev < 9 {
            ctx.add(&format!("disposal_pair_{prev}_{d}"), 1);
        }
        prev = d;
        ctx.add("frames_interlaced", f.desc.interlaced() as u64);
        ctx.add("frames_with_local_table", f.lct.is_some() as u64);
        ctx.add(
            "frames_with_transparent_pixels",
            f.gc.and_then(|g| g.trans()).is_some_and(|t| f.data.contains(&t)) as u64,
        );
        ctx.add("frames_at_offset", (f.desc.l > 0 || f.desc.t > 0) as u64);
    }
    ctx.add("steps_compared", ob.items.len() as u64);
    ctx.add("pixels_compared", ob.items.iter().map(|s| s.0.px.len() as u64 / 4).sum());
    if m.s.steps.len() > 1 {
        ctx.distinct(hash_bytes(&data));
    }
    ctx.sample(|| gif_summary(&g.blocks));
    Ok(())
}

// ---------------------------------------------------------------- C08

pub fn c08(ctx: &mut Ctx, rng: &mut Rng, idx: u64) -> Res {
    let o = GOpt {
        drawable: true,
        min_frames: 1,
        max_frames: 4,
        max_dim: 4,
        ext_pct: 20,
        looping: 1,
        variants: false,
        ..GOpt::default()
    };
    let many = !ctx.tiny && rng.one_in(500);
    let large = !many && rng.one_in(300);
    let o = if large { o.spread(rng, 1) } else { o };
    let o = if many { GOpt { min_frames: 60, max_frames: 700, max_dim: 3, ext_pct: 2, ..o } } else { o };
    let mut g = gif(rng, &o);
    let loops: Option<u16> = match idx % 8 {
        0 => None,
        1 => Some(0),
        2 => Some(1),
        _ if many || large => Some(rng.range(0, 9) as u16),
        3 => Some(rng.pick(&[255, 256, 257, 2, 3, 511, 512])),
        4 if rng.one_in(if ctx.tiny { 1000 } else { 25 }) => {
            Some(rng.pick(&[65535, 65534, 32768, 4096, 0x1234]))
        }
        _ => Some(rng.range(1, 400) as u16),
    };
    if let Some(n) = loops {
        let i = g.blocks.iter().position(|b| matches!(b, RB::Gc(_) | RB::Desc(_))).unwrap();
        let lo = if matches!(g.blocks[2], RB::Gct(_)) { 3 } else { 2 };
        let at = if rng.one_in(2) { lo } else { rng.range(lo, i) };
        let s = loop_subs(rng, n);
        g.blocks.insert(at, RB::App(s));
        g.bytes = serialize(rng, &g.blocks, false);
    }
    let m = Model::new(&g.bytes, None, ctx);
    self_check(&g, &m)?;
    if m.s.end != End::Trailer {
        ctx.add("skipped_unspecified", 1);
        return Ok(());
    }
    if m.s.loop_count != loops {
        return Err(Fail::Harness("loop count model".into()));
    }
    let data = Rc::new(g.bytes.clone());
    let once = run("once", &data, || obs_steps(&data, MaxSz::Default, &ReadPlan::plain()))?;
    lift(m.steps(&once), &data)?;
    let k = m.s.steps.len();
    let plays = match loops {
        None => Some(1),
        Some(0) => None,
        Some(n) => Some(n as usize + 1),
    };
    let cap = match plays {
        Some(p) => p * k + 1,
        // for ever: watch far beyond any 16-bit count now and then
        None => k * if rng.one_in(40) && !ctx.tiny && !many && !large { 70_000 } else { rng.range(3, 600) },
    };
    let r = run("looping", &data, || -> Result<usize, String> {
        let mut it = Decoder::new(&data[..]).into_iter();
        let mut n = 0;
        while let Some(x) = it.next() {
            match x {
                Err(e) => return Err(format!("error {:?} after {n} steps", ek(&e))),
                Ok(s) => {
                    let s = rstep(&s);
                    if s != m.s.steps[n % k].0 {
                        return Err(format!(
                            "step {} of play {}: {}",
                            n % k,
                            n / k,
                            s.diff(&m.s.steps[n % k].0)
                        ));
                    }
                }
            }
            n += 1;
            if n >= cap {
                break;
            }
        }
        Ok(n)
    })?;
    let n = lift(r, &data)?;
    let want = match plays {
        Some(p) => p * k,
        None => cap,
    };
    if n != want {
        return vio(
            format!("loop count {loops:?}, {k} steps: {n} steps seen, expected {want}"),
            &[("input.gif", &data)],
        );
    }
    ctx.add("steps_watched", n as u64);
    ctx.add("animations_looping_for_ever", plays.is_none() as u64);
    ctx.add("animations_without_loop_extension", loops.is_none() as u64);
    ctx.max("loop_count", loops.unwrap_or(0) as u64);
    ctx.distinct(hash_bytes(&data));
    ctx.sample(|| format!("loop count {loops:?}, {k} steps, {n} steps returned"));
    Ok(())
}

// ---------------------------------------------------------------- C09

/// No place where an image descriptor could start asks for a huge image
fn small_everywhere(b: &[u8], px: usize) -> bool {
    let le = |i: usize| b[i] as usize | (b[i + 1] as usize) << 8;
    if b.len() >= 10 && le(6) * le(8) > px {
        return false;
    }
    (0..b.len()).all(|i| {
        b[i] != 0x2C || i + 9 > b.len() || le(i + 5) * le(i + 7) <= px
    }) && (0..b.len()).all(|i| {
        // a second header after a trailer
        !b[i..].starts_with(b"GIF") || i + 10 > b.len() || le(i + 6) * le(i + 8) <= px
    })
}

pub fn hostile(ctx: &Ctx, rng: &mut Rng) -> (Vec<u8>, String) {
    let o = GOpt {
        drawable: rng.one_in(2),
        max_dim: if ctx.tiny { 5 } else { rng.pick(&[4, 12, 40]) },
        max_frames: 3,
        big: if ctx.tiny { 0 } else { 200 },
        ..GOpt::default()
    };
    match rng.below(12) {
        0 => {
            let n = rng.below(64);
            (rng.bytes(n), "random bytes".into())
        }
        1 => {
            let mut v = b"GIF89a".to_vec();
            let n = rng.below(200);
            v.extend(rng.bytes(n));
            (v, "header then random".into())
        }
        2 => {
            // random block soup
            let mut v = b"GIF89a".to_vec();
            for _ in 0..2 {
                put16(&mut v, rng.edge16() % 64);
            }
            v.extend_from_slice(&[rng.u8() & 0x7F, 0, 0]);
            for _ in 0..rng.below(12) {
                match rng.below(6) {
                    0 => v.extend_from_slice(&[0x21, 0xF9, 4, rng.u8(), 0, 0, rng.u8(), 0]),
                    1 => v.extend_from_slice(&[0x21, rng.u8()]),
                    2 => {
                        let s = subs(rng);
                        ser_plain(&RB::Comment(s), &mut v);
                    }
                    3 => {
                        let d = Desc {
                            l: rng.edge16() % 9,
                            t: rng.edge16() % 9,
                            w: rng.edge16() % 9,
                            h: rng.edge16() % 9,
                            flags: rng.pick(&[0, 0x80, 0x40, 0xC1]),
                        };
                        ser_plain(&RB::Desc(d), &mut v);
                        if d.flags & 0x80 != 0 {
                            let t = table(rng, d.flags & 7);
                            v.extend(t);
                        }
                        let min = if rng.one_in(3) { rng.u8() } else { rng.range(2, 8) as u8 };
                        let bad = rng.pick(&[0, 3, 30]);
                        let p = lzw_raw(rng, min.clamp(2, 8), d.px(), bad, false);
                        ser_payload(&mut v, min, &p, rng);
                    }
                    4 => v.push(0x3B),
                    _ => v.push(rng.u8()),
                }
            }
            (v, "block soup".into())
        }
        3 | 4 => {
            let g = gif(rng, &o);
            let (mut v, how) = scramble(rng, &g);
            if rng.one_in(3) {
                mutate(rng, &mut v, &g.bytes);
            }
            (v, how.into())
        }
        5 => {
            // code streams that run on and on with a full table
            let mut v = b"GIF89a".to_vec();
            let (w, h) = if ctx.tiny {
                (4, 4)
            } else {
                (rng.range(1, 400) as u16, rng.range(1, 400) as u16)
            };
            put16(&mut v, w);
            put16(&mut v, h);
            v.extend_from_slice(&[0x80, 0, 0, 1, 2, 3, 4, 5, 6]);
            ser_plain(&RB::Desc(Desc { w, h, ..Default::default() }), &mut v);
            let min = rng.range(2, 8) as u8;
            let n = if ctx.tiny { 200 } else { rng.below(60_000) };
            let p = if rng.one_in(2) { rng.bytes(n) } else { vec![rng.u8(); n] };
            ser_payload(&mut v, min, &p, rng);
            v.push(0x3B);
            (v, "long code stream".into())
        }
        6 => {
            // empty frames and screens
            let mut g = gif(rng, &GOpt { max_dim: 4, ..o });
            for b in g.blocks.iter_mut() {
                match b {
                    RB::Desc(d) => {
                        match rng.below(4) {
                            0 => d.w = 0,
                            1 => d.h = 0,
                            2 => (d.w, d.h) = (0, 0),
                            _ => (),
                        }
                        if rng.one_in(2) {
                            (d.l, d.t) = (0, 0);
                        }
                    }
                    RB::Lsd(l) => match rng.below(5) {
                        0 => l.w = 0,
                        1 => l.h = 0,
                        2 => (l.w, l.h) = (0, 0),
                        _ => (),
                    },
                    _ => (),
                }
            }
            (serialize(rng, &g.blocks, true), "empty frames".into())
        }
        7 => {
            // several files in one stream
            let a = gif(rng, &o);
            let b = gif(rng, &o);
            let mut v = a.bytes;
            v.extend(b.bytes);
            if rng.one_in(2) {
                mutate(rng, &mut v, &[]);
            }
            (v, "concatenated".into())
        }
        _ => {
            let g = gif(rng, &o);
            let other = gif(rng, &o).bytes;
            let mut v = g.bytes;
            let mut how = vec![];
            for _ in 0..rng.range(1, 4) {
                how.push(mutate(rng, &mut v, &other));
            }
            (v, how.join("+"))
        }
    }
}

/// A tiny image on the largest screen which can be declared
fn huge_screen() -> Vec<u8> {
    let mut v = vec![];
    ser_plain(&RB::Header(*b"89a"), &mut v);
    ser_plain(&RB::Lsd(Lsd { w: 65535, h: 65535, ..Default::default() }), &mut v);
    ser_plain(&RB::Desc(Desc { w: 1, h: 1, ..Default::default() }), &mut v);
    v.extend([2, 2, 0x44, 0x01, 0, 0x3B]);
    v
}

/// A file with very much of one thing: anything done by recursion overflows
fn very_long(k: u64, n: usize) -> (Vec<u8>, String) {
    let mut v = b"GIF89a".to_vec();
    v.extend([1, 0, 1, 0, 0x80, 0, 0, 1, 2, 3, 4, 5, 6]);
    let image = [0x2C, 0, 0, 0, 0, 1, 0, 1, 0, 0, 2, 2, 0x44, 0x01, 0];
    let (what, part): (&str, &[u8]) = match k {
        0 => ("comments without text", &[0x21, 0xFE, 0]),
        1 => ("graphic controls", &[0x21, 0xF9, 4, 8, 1, 0, 0, 0]),
        2 => ("loop extensions", b"\x21\xFF\x0BNETSCAPE2.0\x03\x01\x00\x00\x00"),
        3 => ("plain text", &[0x21, 0x01, 0]),
        4 => ("unknown extensions", &[0x21, 0x42, 1, 7, 0]),
        5 => ("parts of a comment", &[1, 65]),
        6 => ("parts of an application", &[1, 65]),
        7 => ("parts of image data behind the end", &[1, 65]),
        8 => ("clear codes", &[2, 0x24, 0x49]),
        9 => ("images", &image),
        10 => ("parts of plain text", &[1, 65]),
        _ => ("parts of an unknown extension", &[1, 65]),
    };
    match k {
        10 => v.extend([0x21, 0x01]),
        11 => v.extend([0x21, 0x42]),
        5 => v.extend([0x21, 0xFE]),
        6 => v.extend([0x21, 0xFF]),
        7 => v.extend(&image[..14]),
        8 => v.extend(&image[..11]),
        _ => (),
    }
    for _ in 0..n {
        v.extend(part);
    }
    if k > 4 && k != 9 {
        v.push(0);
    }
    v.extend(image);
    v.push(0x3B);
    (v, format!("{n} {what}"))
}

pub fn c09(ctx: &mut Ctx, rng: &mut Rng, idx: u64) -> Res {
    let (v, how) = match idx {
        0 => (vec![], "empty".into()),
        1 => (huge_screen(), "the largest screen, without limit".into()),
        2..=13 if !ctx.tiny => very_long(idx - 2, if idx == 11 { 100_000 } else { 400_000 }),
        _ => hostile(ctx, rng),
    };
    let max = match rng.below(12) {
        _ if idx == 1 => MaxSz::Set(None),
        0 if small_everywhere(&v, 1 << 22) => MaxSz::Set(rng.pick(&[None, None, Some(usize::MAX), Some(u32::MAX as usize)])),
        1 => MaxSz::Set(Some(0)),
        2 => MaxSz::Set(Some(rng.below(200))),
        3 if rng.one_in(10) && !ctx.tiny => MaxSz::Default,
        _ => MaxSz::Set(Some(1 << rng.range(8, 20))),
    };
    let plan = if rng.one_in(3) { ReadPlan::gen_plan(rng) } else { ReadPlan::plain() };
    let logging = v.len() < 600 && rng.one_in(3);
    let data = Rc::new(v);
    let d = data.clone();
    let polls = rng.range(1, 6);
    let r = guard(|| {
        with_logging(logging, || {
            let mut sig = vec![];
            let cap = d.len() + 16;
            // each level, polled on past errors and ends
            macro_rules! level {
                ($name:expr, $it:expr) => {{
                    let mut it = $it;
                    let (mut items, mut errs, mut nones) = (0usize, 0usize, 0usize);
                    loop {
                        match it.next() {
                            Some(Ok(_)) => items += 1,
                            Some(Err(e)) => {
                                errs += 1;
                                let _ = e.to_string();
                                sig.push(format!("{:?}", ek(&e)));
                            }
                            None => nones += 1,
                        }
                        if nones > polls {
                            break;
                        }
                        if items + errs > cap * (polls + 2) {
                            panic!("LIVELOCK: {} items and {} errors at {} level", items, errs, $name);
                        }
                    }
                    sig.push(format!("{}:{items}", $name));
                }};
            }
            let rd = || MonReader::new(d.clone(), plan.clone()).0;
            level!("blocks", decoder(rd(), max).into_blocks());
            level!("frames", decoder(rd(), max).into_frames());
            let mut fr = decoder(rd(), max).into_frames();
            for _ in 0..polls {
                let _ = fr.preamble();
            }
            level!("preamble", fr);
            level!("steps", decoder(rd(), max).into_steps());
            // the looping level may repeat: watch the first items only
            let mut it = decoder(rd(), max).into_iter();
            let mut n = 0;
            for _ in 0..(2 * cap + 50).min(3000) {
                match it.next() {
                    Some(_) => n += 1,
                    None => break,
                }
            }
            sig.push(format!("looping:{n}"));
            sig
        })
    });
    match r {
        Err(p) => vio(format!("{how} (limit {max:?}): {p}"), &[("input.gif", &data)]),
        Ok(sig) => {
            ctx.add("inputs_logged", logging as u64);
            ctx.add("bytes_fed", data.len() as u64);
            for s in &sig {
                if !s.contains(':') && !s.is_empty() {
                    let k = s.split('(').next().unwrap();
                    ctx.add(&format!("error_{k}"), 1);
                }
            }
            if sig.len() > 1 && data.len() > 6 {
                ctx.distinct(hash_bytes(&data));
            }
            ctx.digest ^= mix(hash_bytes(sig.join(",").as_bytes()) ^ idx);
            ctx.sample(|| format!("{how}: {} -> {}", hex_short(&data), sig.join(" ")));
            Ok(())
        }
    }
}

// ---------------------------------------------------------------- C10

fn judge_all(ctx: &mut Ctx, data: &Rc<Vec<u8>>, max: MaxSz, how: &str) -> Result<Model, Fail> {
    let m = Model::new(data, max.limit(), ctx);
    let pl = ReadPlan::plain();
    let bad = |e: String| vio(format!("{how}: {e}"), &[("input.gif", data)]);
    let b = run(how, data, || obs_blocks(data, max, &pl))?;
    if let Err(e) = m.blocks(&b) {
        return bad(e);
    }
    let (_, f) = run(how, data, || obs_frames(data, max, &pl, false))?;
    if let Err(e) = m.frames(&f) {
        return bad(e);
    }
    let (p, _) = run(how, data, || obs_frames(data, max, &pl, true))?;
    if let Err(e) = m.preamble(&p.unwrap()) {
        return bad(e);
    }
    let s = run(how, data, || obs_steps(data, max, &pl))?;
    if let Err(e) = m.steps(&s) {
        return bad(e);
    }
    Ok(m)
}

/// Good frames, then one which is just not, in images of any size
fn just_wrong(rng: &mut Rng) -> (Vec<u8>, &'static str) {
    let side = |rng: &mut Rng| match rng.below(4) {
        0 => rng.range(1, 4),
        1 => rng.range(1, 17),
        2 => rng.range(1, 70),
        _ => rng.pick(&[8, 16, 32, 64, 100, 128]),
    };
    let (w, h) = (side(rng), side(rng));
    let gbits = rng.range(0, 6) as u8;
    let global = rng.one_in(2);
    let mut b = vec![RB::Header(if rng.one_in(2) { *b"89a" } else { *b"87a" })];
    let lsd = Lsd { w: w as u16, h: h as u16, flags: gbits | (global as u8) << 7, ..Default::default() };
    b.push(RB::Lsd(lsd));
    if global {
        b.push(RB::Gct(table(rng, gbits)));
    }
    let good = rng.pick(&[0, 0, 1, 2, 5, 20]);
    let mut what = "";
    for i in 0..=good {
        let wrong = i == good;
        if rng.one_in(2) {
            let mut g = gc(rng, 2);
            g.flags &= 0xFE;
            b.push(RB::Gc(g));
        }
        let mut local = !global || rng.one_in(3);
        let (fw, fh) = if i % 3 == 0 { (w, h) } else { (rng.range(1, w), rng.range(1, h)) };
        let (l, t) = (rng.range(0, w - fw), rng.range(0, h - fh));
        let lbits = rng.range(0, 6) as u8;
        let mut d = Desc {
            l: l as u16,
            t: t as u16,
            w: fw as u16,
            h: fh as u16,
            flags: lbits | if rng.one_in(3) { 0x40 } else { 0 },
        };
        let nc = if local { 2 << lbits } else { 2 << gbits };
        let mut px = pixels(rng, fw, fh, nc);
        if wrong {
            what = match rng.below(5) {
                0 => {
                    let k = rng.pick(&[1, 1, 2, 3, fw, px.len() / 2, px.len()]).min(px.len());
                    px.truncate(px.len() - k);
                    "just too few pixels"
                }
                1 => {
                    let any = rng.below(px.len());
                    let i = rng.pick(&[0, px.len() - 1, any]);
                    px[i] = if rng.one_in(2) { nc as u8 } else { rng.range(nc, 255) as u8 };
                    "one index just out of range"
                }
                2 => {
                    d.l = (w - fw + rng.pick(&[1, 1, 2, 256])) as u16;
                    "frame just outside on the right"
                }
                3 => {
                    d.t = (h - fh + rng.pick(&[1, 1, 2, 256])) as u16;
                    "frame just outside at the bottom"
                }
                _ => {
                    local &= global;
                    "no table, or none needed"
                }
            };
        }
        d.flags |= (local as u8) << 7;
        b.push(RB::Desc(d));
        if local {
            b.push(RB::Lct(table(rng, lbits)));
        }
        b.push(RB::Data(px));
    }
    b.push(RB::Trailer);
    (serialize(rng, &b, true), what)
}

pub fn c10(ctx: &mut Ctx, rng: &mut Rng, idx: u64) -> Res {
    let max = MaxSz::Set(Some(1 << 15));
    let o = GOpt { max_dim: 10, max_frames: 3, drawable: rng.one_in(2), ..gopt(ctx) };
    let o = if idx % 8 == 0 { o } else { o.spread(rng, 100) };
    if idx % 8 == 0 {
        // every truncation point
        let o = GOpt { max_dim: 6, max_frames: 3, drawable: true, ..o };
        let large = rng.one_in(300);
        let os = o.clone().spread(rng, if large { 1 } else { 1 << 30 });
        let mut g = gif(rng, &os);
        if g.bytes.len() > 900 && !large {
            g = gif(rng, &GOpt { ext_pct: 5, max_frames: 2, ..o });
        }
        let n = g.bytes.len().min(if ctx.tiny { 60 } else { 1500 });
        for k in 0..n {
            let data = Rc::new(g.bytes[..k].to_vec());
            let m = judge_all(ctx, &data, max, &format!("truncated to {k} bytes"))?;
            if m.t.end != End::Err(Ek::UnexpectedEof) {
                return Err(Fail::Harness(format!("truncation model: {:?}", m.t.end)));
            }
            ctx.add("truncation_points", 1);
        }
        ctx.distinct(hash_bytes(&g.bytes[..n]));
        return Ok(());
    }
    let g = gif(rng, &o);
    let (v, how) = if !ctx.tiny && rng.one_in(10) {
        just_wrong(rng)
    } else if rng.one_in(3) {
        let mut v = g.bytes.clone();
        let h = mutate(rng, &mut v, &g.bytes);
        (v, h)
    } else if rng.one_in(8) {
        let mut v = g.bytes.clone();
        let i = rng.below(6);
        v[i] = match rng.below(4) {
            0 => rng.u8(),
            1 => v[i] ^ 0x20,
            _ => v[i] ^ 1 << rng.below(8),
        };
        if rng.one_in(4) {
            let near = [b"88a", b"90a", b"89b", b"87b", b"87A", b"89A", b"79a", b"98a", b"99a", b"00a", b"   ", b"\0\0\0"];
            v[3..6].copy_from_slice(&near[rng.below(near.len())][..]);
        }
        (v, "signature")
    } else if rng.one_in(10) {
        // unknown block code
        let mut ends = vec![];
        let mut st = LzwStats::default();
        for it in ref_parse(&g.bytes, None, &mut st).items {
            if !matches!(it.b, RB::Header(_) | RB::Lsd(_) | RB::Desc(_) | RB::Trailer) {
                ends.push(it.end);
            }
        }
        let mut v = g.bytes.clone();
        if !ends.is_empty() {
            let i = rng.pick(&ends);
            v.insert(i, rng.u8());
        }
        (v, "unknown block code")
    } else {
        scramble(rng, &g)
    };
    let data = Rc::new(v);
    let m = judge_all(ctx, &data, max, how)?;
    for (lv, e) in [("block", &m.t.end), ("frame", &m.f.end), ("step", &m.s.end)] {
        if let End::Err(e) = e {
            let s = format!("{e:?}");
            ctx.add(&format!("{lv}_error_{}", s.split('(').next().unwrap()), 1);
        }
        if let End::Unspecified(_) = e {
            ctx.add(&format!("{lv}_unspecified"), 1);
        }
    }
    if m.s.end != End::Trailer {
        ctx.distinct(hash_bytes(&data));
    }
    ctx.sample(|| {
        format!("{how}: {} -> {:?} / {:?} / {:?}", hex_short(&data), m.t.end, m.f.end, m.s.end)
    });
    Ok(())
}

// ---------------------------------------------------------------- C11

pub fn c11(ctx: &mut Ctx, rng: &mut Rng, _idx: u64) -> Res {
    let max = MaxSz::Set(Some(1 << 14));
    let o = GOpt { max_dim: 8, max_frames: 4, drawable: !rng.one_in(4), ..gopt(ctx) };
    let os = o.spread(rng, 200);
    let g = gif(rng, &os);
    let mut plan = ReadPlan::plain();
    let (v, how) = match rng.below(4) {
        0 => {
            let k = rng.below(g.bytes.len());
            (g.bytes[..k].to_vec(), "truncated")
        }
        1 => {
            let k = rng.below(g.bytes.len());
            plan.fail_at = Some((k, rng.pick(&KINDS)));
            (g.bytes.clone(), "read error")
        }
        2 => {
            let mut v = g.bytes.clone();
            let how = mutate(rng, &mut v, &g.bytes);
            (v, how)
        }
        _ => scramble(rng, &g),
    };
    let data = Rc::new(v);
    // the model sees a read error as the end of what can be read
    let visible = match plan.fail_at {
        Some((k, _)) => data[..k].to_vec(),
        None => data.to_vec(),
    };
    let mut m = Model::new(&visible, max.limit(), ctx);
    if let Some((_, k)) = plan.fail_at {
        for e in [&mut m.t.end, &mut m.f.end, &mut m.s.end] {
            if *e == End::Err(Ek::UnexpectedEof) {
                *e = End::Err(Ek::Io(k));
            }
        }
    }
    let bad = |e: String| vio(format!("{how}: {e}"), &[("input.gif", &data)]);
    let b = run(how, &data, || obs_blocks(&data, max, &plan))?;
    if let Err(e) = m.blocks(&b) {
        return bad(e);
    }
    let (_, f) = run(how, &data, || obs_frames(&data, max, &plan, false))?;
    if let Err(e) = m.frames(&f) {
        return bad(e);
    }
    let (p, f2) = run(how, &data, || obs_frames(&data, max, &plan, true))?;
    if let Some(Err(e)) = p
        && m.specified()
        && (!f2.items.is_empty() || f2.err.is_some())
    {
        return bad(format!(
            "after preamble error {e:?}: {} frames and {:?}",
            f2.items.len(),
            f2.err
        ));
    }
    let s = run(how, &data, || obs_steps(&data, max, &plan))?;
    if let Err(e) = m.steps(&s) {
        return bad(e);
    }
    // a faulty animation is played once, then the error, then nothing
    if let End::Err(_) = m.s.end {
        let l = run(how, &data, || obs_looping(&data, max, &plan, m.s.steps.len() + 64))?;
        if let Err(e) = judge("looping step", &l, &m.s.steps, &m.s.end, &|i| {
            m.s.junk_at == Some(i)
        }) {
            return bad(e);
        }
        ctx.add("looping_traces", 1);
        ctx.add("looping_with_steps_before_error", !m.s.steps.is_empty() as u64);
    }
    for (lv, e) in [("block", &m.t.end), ("frame", &m.f.end), ("step", &m.s.end)] {
        if let End::Err(_) = e {
            ctx.add(&format!("{lv}_errors"), 1);
        }
    }
    if let End::Err(_) = m.s.end {
        ctx.distinct(hash_bytes(&visible));
    }
    ctx.sample(|| {
        format!(
            "{how}: {} blocks, {} frames, {} steps, then {:?}",
            b.items.len(),
            f.items.len(),
            s.items.len(),
            m.s.end
        )
    });
    Ok(())
}

// ---------------------------------------------------------------- C12

pub fn c12(ctx: &mut Ctx, rng: &mut Rng, idx: u64) -> Res {
    let max = MaxSz::Set(Some(1 << 16));
    let o = GOpt { max_dim: 12, max_frames: 3, drawable: !rng.one_in(3), ..gopt(ctx) };
    let os = o.spread(rng, if idx % 4 == 0 { 500 } else { 20 });
    let g = gif(rng, &os);
    let mut v = g.bytes.clone();
    // something after the trailer which must not be touched
    let k = rng.below(30);
    v.extend(rng.bytes(k));
    let m = Model::new(&v, max.limit(), ctx);
    self_check(&g, &m)?;
    let data = Rc::new(v);
    let bad = |e: String| vio(e, &[("input.gif", &data)]);
    if idx % 4 != 0 {
        for _ in 0..3 {
            let plan = ReadPlan::gen_plan(rng);
            let what = format!("{plan:?}");
            let b = run(&what, &data, || obs_blocks(&data, max, &plan))?;
            if let Err(e) = m.blocks(&b) {
                return bad(format!("{what}: {e}"));
            }
            for (i, (it, c)) in b.items.iter().enumerate() {
                if *c > m.bitems[i].1 {
                    return bad(format!(
                        "{what}: {} bytes taken for {} blocks ending at {} ({})",
                        c,
                        i + 1,
                        m.bitems[i].1,
                        it.kind()
                    ));
                }
            }
            let (_, f) = run(&what, &data, || obs_frames(&data, max, &plan, false))?;
            if let Err(e) = m.frames(&f) {
                return bad(format!("{what}: {e}"));
            }
            for (i, (_, c)) in f.items.iter().enumerate() {
                if *c > m.f.frames[i].1 {
                    return bad(format!("{what}: {c} bytes taken for {} frames", i + 1));
                }
            }
            let s = run(&what, &data, || obs_steps(&data, max, &plan))?;
            if let Err(e) = m.steps(&s) {
                return bad(format!("{what}: {e}"));
            }
            for (i, (_, c)) in s.items.iter().enumerate() {
                if *c > m.s.steps[i].1 {
                    return bad(format!("{what}: {c} bytes taken for {} steps", i + 1));
                }
            }
            // played by the looping iterator, the first time
            let lp = run(&what, &data, || obs_looping(&data, max, &plan, m.s.steps.len()))?;
            let n = lp.items.len().min(m.s.steps.len());
            if lp.items[..n].iter().zip(&m.s.steps).any(|(a, b)| a.0 != b.0)
                || m.s.end == End::Trailer
                    && m.s.junk_at.is_none()
                    && (lp.err.is_some() || n != m.s.steps.len())
            {
                return bad(format!("{what}: looping differs: {n} steps, {:?}", lp.err));
            }
            for l in [&b.log, &f.log, &s.log, &lp.log] {
                if l.consumed > g.bytes.len() || l.eofs > 0 {
                    return bad(format!(
                        "{what}: read {} bytes of a {} byte file ({} reads at the end)",
                        l.consumed,
                        g.bytes.len(),
                        l.eofs
                    ));
                }
                ctx.add("short_reads", l.shorts);
                ctx.add("interrupted_reads", l.interrupts);
                ctx.add("read_calls", l.calls);
            }
            ctx.add("schedules", 1);
        }
        ctx.distinct(hash_bytes(&data));
        ctx.sample(|| gif_summary(&g.blocks));
        return Ok(());
    }
    // a fault at every offset
    let n = g.bytes.len();
    // fewer places in long files, which take longer
    let stride = if ctx.tiny { n / 12 + 1 } else { n / 700 + 1 + n * n / 4_000_000 };
    let mut at = rng.below(stride);
    while at < n {
        let kind = rng.pick(&KINDS);
        let mut plan = ReadPlan::gen_plan(rng);
        plan.fail_at = Some((at, kind));
        let what = format!("read fault {kind:?} at {at}");
        let b = run(&what, &data, || obs_blocks(&data, max, &plan))?;
        let nb = m.bitems.iter().filter(|x| x.1 <= at).count();
        if let Err(e) = judge("block", &b, &m.bitems[..nb], &End::Err(Ek::Io(kind)), &|_| false) {
            return bad(format!("{what}: {e}"));
        }
        let (p, f) = run(&what, &data, || obs_frames(&data, max, &plan, rng.one_in(2)))?;
        if let Some(Err(e)) = p {
            if e != Ek::Io(kind) {
                return bad(format!("{what}: preamble reports {e:?}"));
            }
        } else {
            let nf = m.f.frames.iter().filter(|x| x.1 <= at).count();
            let ex = &m.f.frames[..nf];
            if let Err(e) = judge("frame", &f, ex, &End::Err(Ek::Io(kind)), &|_| false) {
                return bad(format!("{what}: {e}"));
            }
        }
        if m.s.end == End::Trailer {
            let s = run(&what, &data, || obs_steps(&data, max, &plan))?;
            let ns = m.s.steps.iter().filter(|x| x.1 <= at).count();
            let ex = &m.s.steps[..ns];
            if let Err(e) = judge("step", &s, ex, &End::Err(Ek::Io(kind)), &|_| false) {
                return bad(format!("{what}: {e}"));
            }
        }
        ctx.add("read_faults_injected", 1);
        at += stride;
    }
    ctx.add("files_with_fault_sweep", 1);
    ctx.distinct(hash_bytes(&data) ^ 1);
    Ok(())
}

// ---------------------------------------------------------------- C13

/// An encoding program: one closure call per API call
enum Prog {
    Steps(AnimSpec),
    Frames(RPreamble, Vec<RFrame>),
    Blocks(Vec<RB>),
}

/// Run the program; per call the result and the bytes accepted after it
fn run_prog(p: &Prog, plan: &WritePlan) -> (Vec<(Result<(), Ek>, usize)>, WriteLog) {
    let (w, log) = MonWriter::new(plan.clone());
    let mut calls = vec![];
    let rec = |calls: &mut Vec<(Result<(), Ek>, usize)>, r: gift::Result<()>| {
        let ok = r.is_ok();
        calls.push((r.map_err(|e| ek(&e)), log.borrow().bytes.len()));
        ok
    };
    match p {
        Prog::Steps(a) => {
            let mut enc = Encoder::new(w).into_step_enc();
            if let Some(n) = a.loops {
                enc = enc.with_loop_count(n);
            }
            if let Some(g) = &a.global {
                enc = enc.with_global_color_table(&gpalette(g));
            }
            for s in &a.steps {
                if !rec(&mut calls, enc.encode_step(&gstep(s))) {
                    break;
                }
            }
        }
        Prog::Frames(p, fs) => {
            let mut enc = Encoder::new(w).into_frame_enc();
            let mut go = rec(&mut calls, enc.encode_preamble(&gpreamble(p)));
            for f in fs {
                go = go && rec(&mut calls, enc.encode_frame(&gframe(f)));
            }
            if go {
                rec(&mut calls, enc.encode_trailer());
            }
        }
        Prog::Blocks(bs) => {
            let mut enc = Encoder::new(w).into_block_enc();
            for b in bs {
                if !rec(&mut calls, enc.encode(gblock(b))) {
                    break;
                }
            }
        }
    }
    let l = log.borrow().clone();
    (calls, l)
}

pub fn c13(ctx: &mut Ctx, rng: &mut Rng, _idx: u64) -> Res {
    let dim = if ctx.tiny { 4 } else { 12 };
    let prog = match rng.below(3) {
        0 => Prog::Steps(anim_spread(rng, dim, 3, 100)),
        k => {
            let o = GOpt { max_dim: dim, min_frames: 1, max_frames: 2, ..gopt(ctx) };
            let os = o.spread(rng, 100);
            let g = gif(rng, &os);
            if k == 1 {
                Prog::Blocks(g.blocks)
            } else {
                let f = ref_frames(&ref_parse(&g.bytes, None, &mut LzwStats::default()));
                Prog::Frames(f.preamble.unwrap(), f.frames.into_iter().map(|f| f.0).collect())
            }
        }
    };
    let name = match &prog {
        Prog::Steps(_) => "step encoder",
        Prog::Frames(..) => "frame encoder",
        Prog::Blocks(_) => "block encoder",
    };
    let (base, bl) = run(name, &[], || run_prog(&prog, &WritePlan::plain()))?;
    if let Some((Err(e), _)) = base.last() {
        return vio(format!("{name}: fault-free run refused: {e:?}"), &[]);
    }
    let full = bl.bytes;
    // short and interrupted writes
    for _ in 0..3 {
        let plan = WritePlan::gen_plan(rng);
        let (c, l) = run(name, &full, || run_prog(&prog, &plan))?;
        if l.bytes != full {
            return vio(
                format!("{name}: {plan:?} changes the output: {}", first_diff(&l.bytes, &full)),
                &[("expected.gif", &full), ("got.gif", &l.bytes)],
            );
        }
        if c.iter().any(|x| x.0.is_err()) {
            return vio(format!("{name}: {plan:?} makes a call fail"), &[("expected.gif", &full)]);
        }
        ctx.add("short_writes", l.shorts);
        ctx.add("interrupted_writes", l.interrupts);
    }
    // a fault at every offset
    let n = full.len();
    let stride = if ctx.tiny { n / 10 + 1 } else { n / 600 + 1 + n * n / 4_000_000 };
    let mut at = rng.below(stride);
    while at < n {
        let fault = if rng.one_in(5) { WFault::Zero } else { WFault::Kind(rng.pick(&KINDS)) };
        let want = match fault {
            WFault::Kind(k) => Ek::Io(k),
            // the one error which is not the writer's own
            WFault::Zero => Ek::IoChanged(ErrorKind::WriteZero),
        };
        let mut plan = WritePlan::gen_plan(rng);
        plan.fail_at = Some((at, fault));
        let what = format!("{name}: write fault {fault:?} at {at} of {n}");
        let (c, l) = run(&what, &full, || run_prog(&prog, &plan))?;
        let bad = |m: String| vio(format!("{what}: {m}"), &[("fault_free.gif", &full)]);
        if l.bytes[..] != full[..at] {
            return bad(format!(
                "accepted bytes are not the first {at}: {}",
                first_diff(&l.bytes, &full[..at])
            ));
        }
        // the call that would write the byte at this offset
        let k = base.iter().take_while(|x| x.1 <= at).count();
        for (i, x) in c.iter().enumerate() {
            if i < k && x.0.is_err() {
                return bad(format!("call {i} fails with {:?} before the fault", x.0));
            }
            if i >= k && x.0 != Err(want) {
                return bad(format!("call {i} returns {:?}, expected the I/O error", x.0));
            }
        }
        if c.len() != (k + 1).min(base.len()) {
            return bad(format!("{} calls ran, expected {}", c.len(), k + 1));
        }
        if l.faults == 0 {
            return bad("fault never met".into());
        }
        ctx.add("write_faults_injected", 1);
        ctx.add("faults_met_in_drop", (k == base.len()) as u64);
        at += stride;
    }
    ctx.add(&format!("programs_{}", name.replace(' ', "_")), 1);
    ctx.distinct(hash_bytes(&full));
    ctx.sample(|| format!("{name}, {n} bytes, fault at every {stride} bytes: {}", hex_short(&full)));
    Ok(())
}

// ---------------------------------------------------------------- C23

/// Copy a file block by block, each block written as soon as it is read
fn copy_blocks(data: &[u8]) -> Result<Vec<u8>, Ek> {
    let mut v = vec![];
    let mut enc = Encoder::new(&mut v).into_block_enc();
    for b in Decoder::new(data).max_image_sz(None).into_blocks() {
        enc.encode(b.map_err(|e| ek(&e))?).map_err(|e| ek(&e))?;
    }
    Ok(v)
}

/// Copy a file frame by frame
fn copy_frames(data: &[u8]) -> Result<Option<Vec<u8>>, Ek> {
    let mut v = vec![];
    let mut enc = Encoder::new(&mut v).into_frame_enc();
    let mut frames = Decoder::new(data).max_image_sz(None).into_frames();
    let Some(p) = frames.preamble().map_err(|e| ek(&e))? else {
        return Ok(None);
    };
    enc.encode_preamble(&p).map_err(|e| ek(&e))?;
    for f in frames {
        enc.encode_frame(&f.map_err(|e| ek(&e))?).map_err(|e| ek(&e))?;
    }
    enc.encode_trailer().map_err(|e| ek(&e))?;
    Ok(Some(v))
}

pub fn c23(ctx: &mut Ctx, rng: &mut Rng, _idx: u64) -> Res {
    let o = GOpt {
        max_frames: 5,
        ext_pct: 50,
        drawable: !rng.one_in(3),
        big: if ctx.tiny { 0 } else { 300 },
        extreme: if ctx.tiny { 0 } else { 200 },
        ..gopt(ctx)
    };
    let g = gif(rng, &o);
    let m = Model::new(&g.bytes, None, ctx);
    self_check(&g, &m)?;
    if m.t.end != End::Trailer || m.t.items.iter().any(|i| i.junk) {
        return Ok(());
    }
    let data = &g.bytes;
    let bad = |m: String, v: &[u8]| vio(m, &[("input.gif", data), ("copy.gif", v)]);
    let copy = match run("copying blocks", data, || copy_blocks(data))? {
        Ok(v) => v,
        Err(e) => return bad(format!("copying blocks: {e:?}"), &[]),
    };
    // nothing but the compressed data may differ
    let c = ref_parse(&copy, None, &mut LzwStats::default());
    let (mut i, mut j) = (0, 0);
    for (n, x) in m.t.items.iter().enumerate() {
        let Some(y) = c.items.get(n) else {
            return bad(format!("the copy has {} blocks, then {:?}; expected {}", n, c.end, m.t.items.len()), &copy);
        };
        let same = match (&x.b, &y.b) {
            (RB::Data(a), RB::Data(b)) => a == b,
            _ => data[i..x.end] == copy[j..y.end],
        };
        if !same {
            return bad(format!("block {n} {:?} is copied as {:?}", x.b, y.b), &copy);
        }
        (i, j) = (x.end, y.end);
        ctx.add("blocks_copied", 1);
    }
    if c.items.len() != m.t.items.len() || c.end != End::Trailer || j != copy.len() {
        return bad(format!("the copy has {} blocks, ends {:?}, {j} of {} bytes", c.items.len(), c.end, copy.len()), &copy);
    }
    match run("copying the copy", &copy, || copy_blocks(&copy))? {
        Ok(v) if v == copy => (),
        r => return bad(format!("a copy of the copy differs: {:?}", r.map(|v| first_diff(&v, &copy))), &copy),
    }
    // frames
    if let Some(p) = &m.f.preamble {
        let copy = match run("copying frames", data, || copy_frames(data))? {
            Ok(Some(v)) => v,
            r => return bad(format!("copying frames: {r:?}"), &[]),
        };
        let c = Model::new(&copy, None, ctx);
        if c.t.end != End::Trailer || c.t.items.last().map(|i| i.end) != Some(copy.len()) {
            return bad(format!("the copy of frames ends with {:?}", c.t.end), &copy);
        }
        if c.f.preamble.as_ref() != Some(p) {
            return bad(format!("preamble {p:?} is copied as {:?}", c.f.preamble), &copy);
        }
        let fs = |m: &Model| m.f.frames.iter().map(|f| f.0.clone()).collect::<Vec<_>>();
        if fs(&c) != fs(&m) {
            return bad("frames are copied as others".into(), &copy);
        }
        let ss = |m: &Model| m.s.steps.iter().map(|s| s.0.clone()).collect::<Vec<_>>();
        if c.s.end != m.s.end || c.s.loop_count != m.s.loop_count || ss(&c) != ss(&m) {
            return bad("the copy of the frames shows another animation".into(), &copy);
        }
        match run("copying the copy", &copy, || copy_frames(&copy))? {
            Ok(Some(v)) if v == copy => (),
            r => return bad(format!("a copy of the copied frames differs: {r:?}"), &copy),
        }
        ctx.add("frames_copied", m.f.frames.len() as u64);
        ctx.add("steps_shown_by_copies", m.s.steps.len() as u64);
    }
    ctx.add("bytes_copied", data.len() as u64);
    ctx.distinct(hash_bytes(data));
    ctx.sample(|| gif_summary(&g.blocks));
    Ok(())
}
