//! Observation: drive the real crate through its public API and record what
//! it returns, in terms of the reference model.
use crate::r#gen::{AnimSpec, StepSpec};
use crate::io::*;
use crate::refgif::*;
use crate::util::{hash_bytes, mix};
use gift::block::*;
use gift::{Decoder, Encoder, Error, Step};
use pix::gray::Gray8;
use pix::rgb::SRgb8;
use pix::{Palette, Raster};
use std::io::{Read, Write};
use std::rc::Rc;

#[allow(unreachable_patterns)]
pub fn ek(e: &Error) -> Ek {
    // describing an error must work for every kind
    std::hint::black_box((e.to_string(), std::error::Error::source(e).is_some()));
    match e {
        Error::Io(i) => {
            let cause = std::error::Error::source(e).map(|s| s.to_string());
            let told = e.to_string().contains(FAULT) && cause.is_some_and(|c| c.contains(FAULT));
            if told {
                Ek::Io(i.kind())
            } else {
                Ek::IoChanged(i.kind())
            }
        }
        Error::TryFromInt(_) => Ek::TryFromInt,
        Error::MalformedHeader => Ek::MalformedHeader,
        Error::UnsupportedVersion(v) => Ek::UnsupportedVersion(*v),
        Error::InvalidBlockCode => Ek::InvalidBlockCode,
        Error::InvalidBlockSequence => Ek::InvalidBlockSequence,
        Error::MalformedGraphicControlExtension => Ek::MalformedGc,
        Error::UnexpectedEndOfFile => Ek::UnexpectedEof,
        Error::InvalidLzwData => Ek::InvalidLzw,
        Error::TooLargeImage => Ek::TooLarge,
        Error::IncompleteImageData => Ek::Incomplete,
        Error::InvalidFrameDimensions => Ek::FrameDims,
        Error::MissingColorTable => Ek::MissingTable,
        Error::InvalidColorIndex => Ek::ColorIndex,
        Error::InvalidRasterDimensions => Ek::RasterDims,
        _ => Ek::Other,
    }
}

/// The packed byte, if all that is derived from it agrees; else one that is
/// neither what was packed nor what was derived, and so not in the file
fn agreed(flags: u8, derived: u8, ok: bool) -> u8 {
    match (flags == derived, ok) {
        (true, true) => flags,
        (true, false) => !flags,
        _ => [0x55, 0xAA, 0x33].into_iter().find(|x| *x != flags && *x != derived).unwrap(),
    }
}

fn rcfg(c: &ColorTableConfig, size: u8, sort: u8) -> (u8, bool) {
    let present = c.existence() == ColorTableExistence::Present;
    let sorted = c.ordering() == ColorTableOrdering::Sorted;
    let len = if present { 2 << size } else { 0 };
    (
        (present as u8) << 7 | if sorted { sort } else { 0 },
        c.len() == len && c.is_empty() == (len == 0) && c.size_bytes() == 3 * len,
    )
}

pub fn rgc(g: &GraphicControl) -> Gc {
    let d = match g.disposal_method() {
        DisposalMethod::NoAction => 0,
        DisposalMethod::Keep => 1,
        DisposalMethod::Background => 2,
        DisposalMethod::Previous => 3,
        DisposalMethod::Reserved(n) => n & 7,
    };
    let t = g.transparent_color();
    let derived = g.flags() & 0xE0 | d << 2 | (g.user_input() as u8) << 1 | t.is_some() as u8;
    let ok = t.is_none() || t == Some(g.transparent_color_idx());
    Gc {
        flags: agreed(g.flags(), derived, ok),
        delay: g.delay_time_cs(),
        trans_idx: g.transparent_color_idx(),
    }
}

pub fn rdesc(d: &ImageDesc) -> Desc {
    let f = d.flags();
    let (c, ok) = rcfg(&d.color_table_config(), f & 7, 0x20);
    let derived = f & 0x1F | c | (d.interlaced() as u8) << 6;
    let ok = ok && d.image_sz() == d.width() as usize * d.height() as usize;
    Desc { l: d.left(), t: d.top(), w: d.width(), h: d.height(), flags: agreed(f, derived, ok) }
}

pub fn rlsd(b: &LogicalScreenDesc) -> Lsd {
    let f = b.flags();
    let (c, ok) = rcfg(&b.color_table_config(), f & 7, 0x08);
    let derived = f & 0x77 | c;
    let ok = ok && b.color_resolution() == 2 << (f >> 4 & 7);
    Lsd {
        w: b.screen_width(),
        h: b.screen_height(),
        flags: agreed(f, derived, ok),
        bg: b.background_color_idx(),
        aspect: b.pixel_aspect_ratio(),
    }
}

pub fn rblock(b: &Block) -> RB {
    match b {
        Block::Header(b) => RB::Header(b.version()),
        Block::LogicalScreenDesc(b) => RB::Lsd(rlsd(b)),
        Block::GlobalColorTable(b) => RB::Gct(b.colors().to_vec()),
        Block::PlainText(b) => RB::Plain(b.sub_blocks().to_vec()),
        Block::GraphicControl(b) => RB::Gc(rgc(b)),
        Block::Comment(b) => RB::Comment(b.comments().to_vec()),
        Block::Application(b) => RB::App(b.app_data().to_vec()),
        Block::Unknown(b) => {
            RB::Unknown(b.ext_id().first().copied().unwrap_or(0), b.sub_blocks().to_vec())
        }
        Block::ImageDesc(b) => RB::Desc(rdesc(b)),
        Block::LocalColorTable(b) => RB::Lct(b.colors().to_vec()),
        Block::ImageData(b) => RB::Data(b.data().to_vec()),
        Block::Trailer(_) => RB::Trailer,
    }
}

pub fn rframe(f: &Frame) -> RFrame {
    RFrame {
        gc: f.graphic_control_ext.as_ref().map(rgc),
        desc: rdesc(&f.image_desc),
        lct: f.local_color_table.as_ref().map(|t| t.colors().to_vec()),
        data: f.image_data.data().to_vec(),
    }
}

pub fn rpreamble(p: &Preamble) -> RPreamble {
    RPreamble {
        header: p.header.version(),
        lsd: rlsd(&p.logical_screen_desc),
        gct: p.global_color_table.as_ref().map(|t| t.colors().to_vec()),
        loop_ext: p.loop_count_ext.as_ref().map(|a| a.app_data().to_vec()),
        comments: p.comments.iter().map(|c| c.comments().to_vec()).collect(),
    }
}

pub fn rstep(s: &Step) -> RStep {
    let r = s.raster();
    RStep {
        w: r.width() as usize,
        h: r.height() as usize,
        px: r.as_u8_slice().to_vec(),
        trans: s.transparent_color(),
        delay: s.delay_time_cs().unwrap_or(0),
    }
}

// ------------------------------------------------------- making gift values

pub fn gblock(b: &RB) -> Block {
    match b {
        RB::Header(v) => Header::with_version(*v).into(),
        RB::Lsd(l) => glsd(l).into(),
        RB::Gct(c) => GlobalColorTable::with_colors(c).into(),
        RB::Plain(s) => {
            let mut b = PlainText::default();
            s.iter().for_each(|x| b.add_sub_block(x));
            b.into()
        }
        RB::Gc(g) => ggc(g).into(),
        RB::Comment(s) => gcomment(s).into(),
        RB::App(s) => gapp(s).into(),
        RB::Unknown(id, s) => {
            let mut b = Unknown::default();
            b.add_sub_block(&[*id]);
            s.iter().for_each(|x| b.add_sub_block(x));
            b.into()
        }
        RB::Desc(d) => gdesc(d).into(),
        RB::Lct(c) => LocalColorTable::with_colors(c).into(),
        RB::Data(d) => gdata(d).into(),
        RB::Trailer => Trailer::default().into(),
    }
}

pub fn glsd(l: &Lsd) -> LogicalScreenDesc {
    LogicalScreenDesc::default()
        .with_screen_width(l.w)
        .with_screen_height(l.h)
        .with_flags(l.flags)
        .with_background_color_idx(l.bg)
        .with_pixel_aspect_ratio(l.aspect)
}

pub fn ggc(g: &Gc) -> GraphicControl {
    let mut b = GraphicControl::default();
    b.set_flags(g.flags);
    b.set_delay_time_cs(g.delay);
    b.set_transparent_color_idx(g.trans_idx);
    b
}

pub fn gcomment(s: &Subs) -> Comment {
    let mut b = Comment::default();
    s.iter().for_each(|x| b.add_comment(x));
    b
}

pub fn gplain(s: &Subs) -> PlainText {
    let mut b = PlainText::default();
    s.iter().for_each(|x| b.add_sub_block(x));
    b
}

pub fn gapp(s: &Subs) -> Application {
    let mut b = Application::default();
    s.iter().for_each(|x| b.add_app_data(x));
    b
}

pub fn gdesc(d: &Desc) -> ImageDesc {
    ImageDesc::default()
        .with_left(d.l)
        .with_top(d.t)
        .with_width(d.w)
        .with_height(d.h)
        .with_flags(d.flags)
}

pub fn gdata(d: &[u8]) -> ImageData {
    let mut b = ImageData::new(d.len());
    b.data_mut().extend_from_slice(d);
    b
}

pub fn gframe(f: &RFrame) -> Frame {
    Frame::new(
        f.gc.as_ref().map(ggc),
        gdesc(&f.desc),
        f.lct.as_ref().map(|c| LocalColorTable::with_colors(c)),
        gdata(&f.data),
    )
}

pub fn gpreamble(p: &RPreamble) -> Preamble {
    Preamble {
        header: Header::with_version(p.header),
        logical_screen_desc: glsd(&p.lsd),
        global_color_table: p.gct.as_ref().map(|c| GlobalColorTable::with_colors(c)),
        loop_count_ext: p.loop_ext.as_ref().map(gapp),
        comments: p.comments.iter().map(gcomment).collect(),
    }
}

pub fn gpalette(pal: &[[u8; 3]]) -> Palette {
    // with room to spare, or none
    let room = if pal.len() % 5 == 3 { 300 } else { pal.len().max(1) };
    let mut p = Palette::new(room);
    for c in pal {
        p.set_entry(SRgb8::new(c[0], c[1], c[2]));
    }
    if p.len() < pal.len() {
        // some are equal: the palette merges those unless they replace others
        p = Palette::new(room);
        for i in 0..pal.len() {
            p.set_entry(SRgb8::new(i as u8, (i >> 8) as u8, 99));
        }
        for (i, c) in pal.iter().enumerate() {
            p.replace_entry(i, SRgb8::new(c[0], c[1], c[2]));
        }
    }
    p
}

pub fn gstep(s: &StepSpec) -> Step {
    let raster: Raster<Gray8> =
        Raster::with_u8_buffer(s.w as u32, s.h as u32, s.data.clone());
    let mut st = Step::with_indexed(raster, gpalette(&s.pal));
    // the setters in any order, now and then after other values
    let h = hash_bytes(&s.data) ^ mix(s.delay.unwrap_or(7) as u64 ^ (s.pal.len() as u64) << 20);
    if h & 0x30 == 0 {
        st = st.with_disposal_method(DisposalMethod::Previous);
        st = st.with_transparent_color(Some(h as u8));
        st = st.with_delay_time_cs(Some((h >> 8) as u16));
    }
    const ORDERS: [[u8; 3]; 6] =
        [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]];
    for o in ORDERS[(h >> 24) as usize % 6] {
        st = match o {
            0 => st.with_disposal_method(s.disposal.into()),
            1 => st.with_transparent_color(s.trans),
            _ => st.with_delay_time_cs(s.delay),
        };
    }
    st
}

/// Encode an animation with the step encoder
pub fn encode_anim<W: Write>(a: &AnimSpec, w: W) -> Result<(), Ek> {
    let mut enc = Encoder::new(w).into_step_enc();
    let order = a.steps.len() % 2;
    for i in 0..2 {
        if let (Some(n), true) = (a.loops, i == order) {
            enc = enc.with_loop_count(!n).with_loop_count(n);
        }
        if let (Some(p), true) = (&a.global, i != order) {
            if let (1, Some(l)) = (p.len() % 2, a.steps.last()) {
                // the last setting counts
                enc = enc.with_global_color_table(&gpalette(&l.pal));
            }
            enc = enc.with_global_color_table(&gpalette(p));
        }
    }
    for (i, s) in a.steps.iter().enumerate() {
        enc.encode_step(&gstep(s)).map_err(|e| ek(&e))?;
        if i == 0 && s.data.len() % 3 == 0 {
            // too late to matter
            if s.data.len() % 2 == 0 {
                enc = enc.with_loop_count(s.w as u16);
            } else if let Some(l) = a.steps.last() {
                enc = enc.with_global_color_table(&gpalette(&l.pal));
            }
        }
    }
    Ok(())
}

// -------------------------------------------------------------- observing

/// What an iterator returned
#[derive(Clone, Debug)]
pub struct Obs<T> {
    /// items before the first error, with bytes consumed after each
    pub items: Vec<(T, usize)>,
    pub err: Option<Ek>,
    /// what was returned after the error (must be nothing)
    pub after: Option<String>,
    /// more items than the input can hold
    pub over: bool,
    pub log: ReadLog,
}

pub fn decoder<R: Read>(r: R, max: MaxSz) -> Decoder<R> {
    match max {
        MaxSz::Default => Decoder::new(r),
        MaxSz::Set(Some(m)) if m % 3 == 1 => Decoder::new(r).max_image_sz(None).max_image_sz(Some(m)),
        MaxSz::Set(m) => Decoder::new(r).max_image_sz(m),
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum MaxSz {
    Default,
    Set(Option<usize>),
}

impl MaxSz {
    pub fn limit(&self) -> Option<usize> {
        match self {
            MaxSz::Default => Some(1 << 25),
            MaxSz::Set(m) => *m,
        }
    }
}

/// Ask an iterator which has ended again, several times
fn polled<U>(it: &mut dyn Iterator<Item = gift::Result<U>>, what: &str) -> Option<String> {
    for n in 1..4 {
        match it.next() {
            None => (),
            Some(Ok(_)) => return Some(format!("an item, asked {n} times after the {what}")),
            Some(Err(e)) => {
                return Some(format!("error {:?}, asked {n} times after the {what}", ek(&e)));
            }
        }
    }
    None
}

fn drive<T, U>(
    it: &mut dyn Iterator<Item = gift::Result<U>>,
    conv: &dyn Fn(&U) -> T,
    cap: usize,
    log: &Rc<std::cell::RefCell<ReadLog>>,
) -> Obs<T> {
    let mut o = Obs { items: vec![], err: None, after: None, over: false, log: ReadLog::default() };
    loop {
        match it.next() {
            Some(Ok(x)) => {
                let t = conv(&x);
                let c = log.borrow().consumed;
                o.items.push((t, c));
                if o.items.len() > cap {
                    o.over = true;
                    break;
                }
            }
            Some(Err(e)) => {
                o.err = Some(ek(&e));
                o.after = polled(it, "error");
                break;
            }
            None => {
                o.after = polled(it, "end");
                break;
            }
        }
    }
    o.log = log.borrow().clone();
    o
}

pub fn obs_blocks(data: &Rc<Vec<u8>>, max: MaxSz, plan: &ReadPlan) -> Obs<RB> {
    let (r, log) = MonReader::new(data.clone(), plan.clone());
    let mut it = decoder(r, max).into_blocks();
    drive(&mut it, &rblock, data.len() + 4, &log)
}

pub fn obs_frames(
    data: &Rc<Vec<u8>>,
    max: MaxSz,
    plan: &ReadPlan,
    preamble: bool,
) -> (Option<Result<Option<RPreamble>, Ek>>, Obs<RFrame>) {
    let (r, log) = MonReader::new(data.clone(), plan.clone());
    let mut it = decoder(r, max).into_frames();
    let p = if preamble {
        Some(
            it.preamble()
                .map(|p| p.as_ref().map(rpreamble))
                .map_err(|e| ek(&e)),
        )
    } else {
        None
    };
    (p, drive(&mut it, &rframe, data.len() + 4, &log))
}

pub fn obs_steps(data: &Rc<Vec<u8>>, max: MaxSz, plan: &ReadPlan) -> Obs<RStep> {
    let (r, log) = MonReader::new(data.clone(), plan.clone());
    let mut it = decoder(r, max).into_steps();
    drive(&mut it, &rstep, data.len() + 4, &log)
}

pub fn obs_looping(data: &Rc<Vec<u8>>, max: MaxSz, plan: &ReadPlan, cap: usize) -> Obs<RStep> {
    let (r, log) = MonReader::new(data.clone(), plan.clone());
    let mut it = decoder(r, max).into_iter();
    drive(&mut it, &rstep, cap, &log)
}
