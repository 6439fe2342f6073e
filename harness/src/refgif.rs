//! Independent reference model of GIF: parser, LZW, serializer, frame grouping
//! and compositing.  Written from the GIF89a specification and the documented
//! behaviour of the crate; shares no code with it.
use crate::util::Rng;
use std::collections::HashMap;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Ek {
    Io(std::io::ErrorKind),
    /// an I/O error which lost what the reader or writer said
    IoChanged(std::io::ErrorKind),
    TryFromInt,
    MalformedHeader,
    UnsupportedVersion([u8; 3]),
    InvalidBlockCode,
    InvalidBlockSequence,
    MalformedGc,
    UnexpectedEof,
    InvalidLzw,
    TooLarge,
    Incomplete,
    FrameDims,
    MissingTable,
    ColorIndex,
    RasterDims,
    Other,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub struct Gc {
    pub flags: u8,
    pub delay: u16,
    pub trans_idx: u8,
}

impl Gc {
    pub fn disposal(&self) -> u8 {
        (self.flags >> 2) & 7
    }
    pub fn trans(&self) -> Option<u8> {
        if self.flags & 1 != 0 { Some(self.trans_idx) } else { None }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub struct Desc {
    pub l: u16,
    pub t: u16,
    pub w: u16,
    pub h: u16,
    pub flags: u8,
}

impl Desc {
    pub fn px(&self) -> usize {
        self.w as usize * self.h as usize
    }
    pub fn interlaced(&self) -> bool {
        self.flags & 0x40 != 0
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub struct Lsd {
    pub w: u16,
    pub h: u16,
    pub flags: u8,
    pub bg: u8,
    pub aspect: u8,
}

pub type Subs = Vec<Vec<u8>>;

#[derive(Clone, PartialEq, Eq)]
pub enum RB {
    Header([u8; 3]),
    Lsd(Lsd),
    Gct(Vec<u8>),
    Plain(Subs),
    Gc(Gc),
    Comment(Subs),
    App(Subs),
    Unknown(u8, Subs),
    Desc(Desc),
    Lct(Vec<u8>),
    Data(Vec<u8>),
    Trailer,
}

impl std::fmt::Debug for RB {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        fn b(v: &[u8]) -> String {
            crate::util::hex_short(v)
        }
        fn s(v: &Subs) -> String {
            v.iter().map(|x| crate::util::hex_short(x)).collect::<Vec<_>>().join("|")
        }
        match self {
            RB::Header(v) => write!(f, "Header({})", String::from_utf8_lossy(v)),
            RB::Lsd(l) => write!(f, "{l:?}"),
            RB::Gct(v) => write!(f, "Gct({})", b(v)),
            RB::Plain(v) => write!(f, "Plain({})", s(v)),
            RB::Gc(g) => write!(f, "{g:?}"),
            RB::Comment(v) => write!(f, "Comment({})", s(v)),
            RB::App(v) => write!(f, "App({})", s(v)),
            RB::Unknown(i, v) => write!(f, "Unknown({i:#x},{})", s(v)),
            RB::Desc(d) => write!(f, "{d:?}"),
            RB::Lct(v) => write!(f, "Lct({})", b(v)),
            RB::Data(v) => write!(f, "Data[{}]({})", v.len(), b(v)),
            RB::Trailer => write!(f, "Trailer"),
        }
    }
}

impl RB {
    pub fn kind(&self) -> &'static str {
        match self {
            RB::Header(_) => "header",
            RB::Lsd(_) => "screen_desc",
            RB::Gct(_) => "global_table",
            RB::Plain(_) => "plain_text",
            RB::Gc(_) => "graphic_control",
            RB::Comment(_) => "comment",
            RB::App(_) => "application",
            RB::Unknown(..) => "unknown_ext",
            RB::Desc(_) => "image_desc",
            RB::Lct(_) => "local_table",
            RB::Data(_) => "image_data",
            RB::Trailer => "trailer",
        }
    }
}

/// Loop count of an application extension (number of repeats; 0 is forever)
pub fn loop_count(subs: &Subs) -> Option<u16> {
    if subs.len() == 2
        && (subs[0] == b"NETSCAPE2.0" || subs[0] == b"ANIMEXTS1.0")
        && subs[1].len() == 3
        && subs[1][0] == 1
    {
        // little-endian, as every multi-byte field of GIF
        Some(subs[1][1] as u16 | (subs[1][2] as u16) << 8)
    } else {
        None
    }
}

// ------------------------------------------------------------------ LZW

/// Reference decompressor: every dictionary entry is a substring of the output
pub struct RefLzw {
    min: u32,
    width: u32,
    acc: u64,
    nacc: u32,
    /// entry -> (start, len) in `out`; single codes are implicit
    dict: Vec<(usize, usize)>,
    prev: Option<(usize, usize)>,
    pub out: Vec<u8>,
    pub ended: bool,
    pub codes: u64,
    pub clears: u64,
    pub kwkwk: u64,
    pub full_codes: u64,
    pub max_width: u32,
    pub max_code_seen: u32,
    pub first_code: u32,
}

impl RefLzw {
    pub fn new(min: u8) -> Self {
        let min = min as u32;
        RefLzw {
            min,
            width: min + 1,
            acc: 0,
            nacc: 0,
            dict: vec![],
            prev: None,
            out: vec![],
            ended: false,
            codes: 0,
            clears: 0,
            kwkwk: 0,
            full_codes: 0,
            max_width: min + 1,
            max_code_seen: 0,
            first_code: u32::MAX,
        }
    }
    fn next(&self) -> u32 {
        (1 << self.min) + 2 + self.dict.len() as u32
    }
    /// Bits left over which do not form a code: value, number, code width
    pub fn leftover_bits(&self) -> (u32, u32, u32) {
        (self.acc as u32, self.nacc, self.width)
    }
    /// Returns Err(()) on an invalid code
    pub fn feed(&mut self, bytes: &[u8]) -> Result<(), ()> {
        for b in bytes {
            if self.ended {
                break;
            }
            self.acc |= (*b as u64) << self.nacc;
            self.nacc += 8;
            while !self.ended && self.nacc >= self.width {
                let code = (self.acc & ((1 << self.width) - 1)) as u32;
                self.acc >>= self.width;
                self.nacc -= self.width;
                self.code(code)?;
            }
        }
        Ok(())
    }
    fn code(&mut self, code: u32) -> Result<(), ()> {
        if self.codes == 0 {
            self.first_code = code;
        }
        self.codes += 1;
        let clear = 1 << self.min;
        if code == clear {
            self.clears += 1;
            self.dict.clear();
            self.width = self.min + 1;
            self.prev = None;
            return Ok(());
        }
        if code == clear + 1 {
            self.ended = true;
            return Ok(());
        }
        self.max_code_seen = self.max_code_seen.max(code);
        let start = self.out.len();
        let next = self.next();
        match self.prev {
            None => {
                if code >= clear {
                    return Err(());
                }
                self.out.push(code as u8);
            }
            Some((ps, pl)) => {
                if code < clear {
                    self.out.push(code as u8);
                } else if code < next {
                    let (s, l) = self.dict[(code - clear - 2) as usize];
                    for i in s..s + l {
                        let v = self.out[i];
                        self.out.push(v);
                    }
                } else if code == next && next < 4096 {
                    self.kwkwk += 1;
                    for i in ps..ps + pl {
                        let v = self.out[i];
                        self.out.push(v);
                    }
                    let v = self.out[ps];
                    self.out.push(v);
                } else {
                    return Err(());
                }
                if next < 4096 {
                    // previous string plus first byte of this one: contiguous
                    self.dict.push((ps, pl + 1));
                    if next + 1 == 1 << self.width && self.width < 12 {
                        self.width += 1;
                        self.max_width = self.max_width.max(self.width);
                    }
                } else {
                    self.full_codes += 1;
                }
            }
        }
        self.prev = Some((start, self.out.len() - start));
        Ok(())
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Full {
    /// clear as soon as the table is full
    Clear,
    /// never clear (deferred clear)
    Defer,
    /// clear at random some time after it is full
    Later,
}

#[derive(Clone, Debug)]
pub struct LzwOpts {
    pub min: u8,
    pub init_clear: bool,
    pub full: Full,
    /// 1-in-n chance of a clear at any code (0: never)
    pub rand_clear: usize,
    /// percent chance to stop a match early
    pub nongreedy: usize,
    /// a clear code right before the end
    pub clear_at_end: bool,
    pub eoi: bool,
    /// bytes after the end code
    pub post: Vec<u8>,
}

impl LzwOpts {
    pub fn plain(min: u8) -> Self {
        LzwOpts {
            min,
            init_clear: true,
            full: Full::Clear,
            rand_clear: 0,
            nongreedy: 0,
            clear_at_end: false,
            eoi: true,
            post: vec![],
        }
    }
}

pub fn min_bits_for(data: &[u8]) -> u8 {
    let m = data.iter().copied().max().unwrap_or(0) as u32;
    let mut b = 2;
    while (1 << b) <= m {
        b += 1;
    }
    b
}

struct BitOut {
    buf: Vec<u8>,
    acc: u64,
    n: u32,
}

impl BitOut {
    fn put(&mut self, code: u32, width: u32) {
        self.acc |= (code as u64) << self.n;
        self.n += width;
        while self.n >= 8 {
            self.buf.push(self.acc as u8);
            self.acc >>= 8;
            self.n -= 8;
        }
    }
    fn flush(&mut self) {
        if self.n > 0 {
            self.buf.push(self.acc as u8);
            self.acc = 0;
            self.n = 0;
        }
    }
}

/// Reference compressor with many legal encoding strategies
pub fn lzw_encode(data: &[u8], o: &LzwOpts, rng: &mut Rng) -> Vec<u8> {
    let clear = 1u32 << o.min;
    let mut bo = BitOut { buf: vec![], acc: 0, n: 0 };
    let mut width = o.min as u32 + 1;
    // codes since clear, and the table length a decoder has by now
    let mut first = true;
    let mut dec_len = clear + 2;
    let mut map: HashMap<(u32, u8), u32> = HashMap::new();
    if o.init_clear {
        bo.put(clear, width);
    }
    let mut i = 0;
    while i < data.len() {
        // longest (or cut) match from i
        let mut code = data[i] as u32;
        let mut j = i + 1;
        while j < data.len() {
            if o.nongreedy > 0 && rng.pct(o.nongreedy) {
                break;
            }
            match map.get(&(code, data[j])) {
                Some(c) => {
                    code = *c;
                    j += 1;
                }
                None => break,
            }
        }
        bo.put(code, width);
        if !first && dec_len < 4096 {
            dec_len += 1;
            if dec_len == 1 << width && width < 12 {
                width += 1;
            }
        }
        first = false;
        i = j;
        if i < data.len() {
            // the decoder will add (code, data[i]) as entry `dec_len`
            let mut do_clear = o.rand_clear > 0 && rng.one_in(o.rand_clear);
            if dec_len < 4096 {
                map.entry((code, data[i])).or_insert(dec_len);
            } else {
                match o.full {
                    Full::Clear => do_clear = true,
                    Full::Later => do_clear |= rng.one_in(300),
                    Full::Defer => (),
                }
            }
            if do_clear {
                bo.put(clear, width);
                if rng.one_in(20) {
                    bo.put(clear, o.min as u32 + 1); // twice is legal
                }
                map.clear();
                width = o.min as u32 + 1;
                dec_len = clear + 2;
                first = true;
            }
        }
    }
    if o.clear_at_end {
        bo.put(clear, width);
        width = o.min as u32 + 1;
    }
    if o.eoi {
        bo.put(clear + 1, width);
    }
    bo.flush();
    if o.eoi {
        bo.buf.extend_from_slice(&o.post);
    }
    bo.buf
}

/// Random code stream, widths always in step with a decoder
///
/// With `steer`, single pixels fill the table quickly and what is special
/// happens where the code width changes or the table gets full.
pub fn lzw_raw(rng: &mut Rng, min: u8, want: usize, bad_in: usize, steer: bool) -> Vec<u8> {
    let mut z = RefLzw::new(min);
    let mut bo = BitOut { buf: vec![], acc: 0, n: 0 };
    let clear = 1u32 << min;
    let stop = match rng.below(4) {
        0 => want.saturating_sub(rng.below(4)),
        1 => want + rng.below(10),
        _ => want,
    };
    let hi = rng.one_in(2);
    let no_clear = rng.one_in(2);
    while z.out.len() < stop && !z.ended {
        let next = z.next();
        let code = if z.codes == 0 && !rng.one_in(4) {
            clear
        } else if bad_in > 0 && rng.one_in(bad_in) {
            rng.below(1 << z.width) as u32
        } else if rng.one_in(5000) {
            clear + 1
        } else if !no_clear && rng.one_in(500) {
            clear
        } else if z.prev.is_none() {
            rng.below(clear as usize) as u32
        } else if steer {
            let edge = 1u32 << z.width;
            if next + 3 < edge && next > clear + 3 {
                rng.below(clear as usize) as u32
            } else {
                match rng.below(12) {
                    0..4 => next.min(4095),
                    4..7 => (next - 1).min(4095 - rng.below(2) as u32),
                    7 if rng.one_in(20) => clear,
                    8 if rng.one_in(40) => clear + 1,
                    9 if bad_in > 0 && rng.one_in(20) => (next + 1).min(edge - 1),
                    _ => rng.below(clear as usize) as u32,
                }
            }
        } else {
            let top = next.min(4095);
            let mut c = if hi && !rng.one_in(4) {
                top - (rng.below(20) as u32).min(top)
            } else {
                rng.below(top as usize + 1) as u32
            };
            if c == clear || c == clear + 1 {
                c = 0;
            }
            c
        };
        bo.put(code, z.width);
        if z.code(code).is_err() {
            break;
        }
    }
    if !rng.one_in(4) {
        bo.put(clear + 1, z.width);
    }
    if rng.one_in(3) {
        for _ in 0..rng.below(20) {
            bo.put(rng.below(1 << z.width) as u32, z.width);
        }
    }
    bo.flush();
    bo.buf
}

/// A short code stream which expands enormously: (payload, pixels)
pub fn lzw_bomb(min: u8, tail: usize, eoi: bool) -> (Vec<u8>, u64) {
    let clear = 1u32 << min;
    let mut bo = BitOut { buf: vec![], acc: 0, n: 0 };
    let mut width = min as u32 + 1;
    bo.put(clear, width);
    bo.put(0, width);
    let mut px = 1u64;
    let mut len = 1u64;
    let mut next = clear + 2;
    while next < 4096 {
        bo.put(next, width);
        len += 1;
        px += len;
        next += 1;
        if next == 1 << width && width < 12 {
            width += 1;
        }
    }
    for _ in 0..tail {
        bo.put(4095, width);
        px += len;
    }
    if eoi {
        bo.put(clear + 1, width);
    }
    bo.flush();
    (bo.buf, px)
}

// ------------------------------------------------------------- serializer

pub fn put16(v: &mut Vec<u8>, n: u16) {
    v.push(n as u8);
    v.push((n >> 8) as u8);
}

fn put_subs(v: &mut Vec<u8>, subs: &[Vec<u8>]) {
    for s in subs {
        assert!(!s.is_empty() && s.len() < 256);
        v.push(s.len() as u8);
        v.extend_from_slice(s);
    }
    v.push(0);
}

/// Exact bytes of a block (other than image data)
pub fn ser_plain(b: &RB, v: &mut Vec<u8>) {
    match b {
        RB::Header(ver) => {
            v.extend_from_slice(b"GIF");
            v.extend_from_slice(ver);
        }
        RB::Lsd(l) => {
            put16(v, l.w);
            put16(v, l.h);
            v.extend_from_slice(&[l.flags, l.bg, l.aspect]);
        }
        RB::Gct(c) | RB::Lct(c) => v.extend_from_slice(c),
        RB::Plain(s) => {
            v.extend_from_slice(&[0x21, 0x01]);
            put_subs(v, s);
        }
        RB::Gc(g) => {
            v.extend_from_slice(&[0x21, 0xF9, 4, g.flags]);
            put16(v, g.delay);
            v.extend_from_slice(&[g.trans_idx, 0]);
        }
        RB::Comment(s) => {
            v.extend_from_slice(&[0x21, 0xFE]);
            put_subs(v, s);
        }
        RB::App(s) => {
            v.extend_from_slice(&[0x21, 0xFF]);
            put_subs(v, s);
        }
        RB::Unknown(id, s) => {
            v.extend_from_slice(&[0x21, *id]);
            put_subs(v, s);
        }
        RB::Desc(d) => {
            v.push(0x2C);
            put16(v, d.l);
            put16(v, d.t);
            put16(v, d.w);
            put16(v, d.h);
            v.push(d.flags);
        }
        RB::Trailer => v.push(0x3B),
        RB::Data(_) => unreachable!(),
    }
}

/// Write a compressed payload as sub-blocks
pub fn ser_payload(v: &mut Vec<u8>, min: u8, payload: &[u8], rng: &mut Rng) {
    v.push(min);
    let mode = rng.below(4);
    let mut i = 0;
    while i < payload.len() {
        let n = match mode {
            0 => 255,
            1 => 1,
            2 => rng.range(1, 255),
            _ => rng.range(1, 9),
        }
        .min(payload.len() - i);
        v.push(n as u8);
        v.extend_from_slice(&payload[i..i + n]);
        i += n;
    }
    v.push(0);
}

// ----------------------------------------------------------------- parser

#[derive(Clone, Debug, PartialEq)]
pub enum End {
    /// reached the trailer
    Trailer,
    Err(Ek),
    /// behaviour from here on is not specified
    Unspecified(&'static str),
}

#[derive(Clone, Debug)]
pub struct RItem {
    pub b: RB,
    /// offset in the input just after this block
    pub end: usize,
    /// image data: an invalid code follows the complete image
    pub junk: bool,
}

pub struct RefTrace {
    pub items: Vec<RItem>,
    pub end: End,
}

#[derive(Default, Clone, Debug)]
pub struct LzwStats {
    pub images: u64,
    pub codes: u64,
    pub clears: u64,
    pub kwkwk: u64,
    pub full_codes: u64,
    pub no_eoi: u64,
    pub surplus: u64,
    pub max_width: u32,
}

struct Cur<'a> {
    d: &'a [u8],
    p: usize,
}

impl<'a> Cur<'a> {
    fn take(&mut self, n: usize) -> Result<&'a [u8], Ek> {
        if self.d.len() - self.p < n {
            return Err(Ek::UnexpectedEof);
        }
        let s = &self.d[self.p..self.p + n];
        self.p += n;
        Ok(s)
    }
    fn sub(&mut self) -> Result<Option<&'a [u8]>, Ek> {
        let n = self.take(1)?[0] as usize;
        if n == 0 { Ok(None) } else { Ok(Some(self.take(n)?)) }
    }
    fn subs(&mut self) -> Result<Subs, Ek> {
        let mut v = vec![];
        while let Some(s) = self.sub()? {
            v.push(s.to_vec());
        }
        Ok(v)
    }
}

fn le(s: &[u8]) -> u16 {
    s[0] as u16 | (s[1] as u16) << 8
}

enum Stop {
    E(Ek),
    U(&'static str),
}

impl From<Ek> for Stop {
    fn from(e: Ek) -> Self {
        Stop::E(e)
    }
}

/// Reference parse of a whole input
pub fn ref_parse(d: &[u8], max: Option<usize>, st: &mut LzwStats) -> RefTrace {
    let mut items = vec![];
    let mut c = Cur { d, p: 0 };
    let end = match ref_parse_inner(&mut c, max, &mut items, st) {
        Ok(()) => End::Trailer,
        Err(Stop::E(e)) => End::Err(e),
        Err(Stop::U(s)) => End::Unspecified(s),
    };
    RefTrace { items, end }
}

fn ref_parse_inner(
    c: &mut Cur,
    max: Option<usize>,
    items: &mut Vec<RItem>,
    st: &mut LzwStats,
) -> Result<(), Stop> {
    let h = c.take(6)?;
    if &h[..3] != b"GIF" {
        return Err(Ek::MalformedHeader.into());
    }
    let ver = [h[3], h[4], h[5]];
    if &ver != b"87a" && &ver != b"89a" {
        return Err(Ek::UnsupportedVersion(ver).into());
    }
    let mut push = |b: RB, p: usize, junk: bool| items.push(RItem { b, end: p, junk });
    push(RB::Header(ver), c.p, false);
    let s = c.take(7)?;
    let l = Lsd { w: le(s), h: le(&s[2..]), flags: s[4], bg: s[5], aspect: s[6] };
    push(RB::Lsd(l), c.p, false);
    if l.flags & 0x80 != 0 {
        let t = c.take(3 * (2 << (l.flags & 7)))?.to_vec();
        push(RB::Gct(t), c.p, false);
    }
    loop {
        match c.take(1)?[0] {
            0x21 => {
                let label = c.take(1)?[0];
                let b = match label {
                    0x01 => RB::Plain(c.subs()?),
                    0xF9 => {
                        let mut g = None;
                        let mut n = 0;
                        while let Some(s) = c.sub()? {
                            if s.len() != 4 {
                                return Err(Ek::MalformedGc.into());
                            }
                            g = Some(Gc {
                                flags: s[0],
                                delay: le(&s[1..]),
                                trans_idx: s[3],
                            });
                            n += 1;
                        }
                        match g {
                            Some(g) if n == 1 => RB::Gc(g),
                            _ => return Err(Stop::U("graphic control sub-block count")),
                        }
                    }
                    0xFE => RB::Comment(c.subs()?),
                    0xFF => RB::App(c.subs()?),
                    _ => RB::Unknown(label, c.subs()?),
                };
                push(b, c.p, false);
            }
            0x2C => {
                let s = c.take(9)?;
                let desc = Desc {
                    l: le(s),
                    t: le(&s[2..]),
                    w: le(&s[4..]),
                    h: le(&s[6..]),
                    flags: s[8],
                };
                if let Some(m) = max
                    && desc.px() > m
                {
                    return Err(Ek::TooLarge.into());
                }
                push(RB::Desc(desc), c.p, false);
                if desc.flags & 0x80 != 0 {
                    let t = c.take(3 * (2 << (desc.flags & 7)))?.to_vec();
                    push(RB::Lct(t), c.p, false);
                }
                let min = c.take(1)?[0];
                if !(2..=8).contains(&min) {
                    return Err(Stop::U("minimum code size out of range"));
                }
                let want = desc.px();
                let mut z = RefLzw::new(min);
                let mut junk = false;
                loop {
                    let s = match c.sub() {
                        Ok(Some(s)) => s,
                        Ok(None) => break,
                        Err(_) if junk => return Err(Stop::U("truncated after junk")),
                        Err(e) => return Err(e.into()),
                    };
                    if junk {
                        continue;
                    }
                    if z.feed(s).is_err() {
                        if z.out.len() >= want {
                            junk = true;
                        } else {
                            return Err(Ek::InvalidLzw.into());
                        }
                    }
                    if z.out.len() > want + (1 << 24) {
                        return Err(Stop::U("too much surplus for the model"));
                    }
                }
                st.images += 1;
                st.codes += z.codes;
                st.clears += z.clears;
                st.kwkwk += z.kwkwk;
                st.full_codes += z.full_codes;
                st.no_eoi += !z.ended as u64;
                st.surplus += (z.out.len() > want) as u64;
                st.max_width = st.max_width.max(z.max_width);
                if z.out.len() < want {
                    return Err(Ek::Incomplete.into());
                }
                z.out.truncate(want);
                push(RB::Data(z.out), c.p, junk);
            }
            0x3B => {
                push(RB::Trailer, c.p, false);
                return Ok(());
            }
            _ => return Err(Ek::InvalidBlockCode.into()),
        }
    }
}

// ----------------------------------------------------------------- frames

#[derive(Clone, Debug, PartialEq)]
pub struct RFrame {
    pub gc: Option<Gc>,
    pub desc: Desc,
    pub lct: Option<Vec<u8>>,
    pub data: Vec<u8>,
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct RPreamble {
    pub header: [u8; 3],
    pub lsd: Lsd,
    pub gct: Option<Vec<u8>>,
    pub loop_ext: Option<Subs>,
    pub comments: Vec<Subs>,
}

pub struct FrameTrace {
    /// frames, with the offset consumed when each is complete
    pub frames: Vec<(RFrame, usize)>,
    pub end: End,
    /// some image data before the end may be rejected for junk: index of frame
    pub junk_at: Option<usize>,
    /// preamble, or None when the input ends before any frame block
    pub preamble: Option<RPreamble>,
}

pub fn ref_frames(t: &RefTrace) -> FrameTrace {
    let mut frames = vec![];
    let mut junk_at = None;
    let mut pre = RPreamble::default();
    let mut got_frame_block = false;
    let mut gc: Option<Gc> = None;
    let mut desc: Option<Desc> = None;
    let mut lct: Option<Vec<u8>> = None;
    for it in &t.items {
        match &it.b {
            RB::Header(v) => pre.header = *v,
            RB::Lsd(l) => pre.lsd = *l,
            RB::Gct(c) => pre.gct = Some(c.clone()),
            RB::Plain(_) => {
                // a graphic control applies to the next rendering block only
                gc = None;
            }
            RB::Gc(g) => {
                if gc.is_some() {
                    return FrameTrace {
                        frames,
                        end: End::Err(Ek::InvalidBlockSequence),
                        junk_at,
                        preamble: Some(pre),
                    };
                }
                gc = Some(*g);
                got_frame_block = true;
            }
            RB::Comment(s) => {
                if !got_frame_block {
                    pre.comments.push(s.clone());
                }
            }
            RB::App(s) => {
                if !got_frame_block && loop_count(s).is_some() {
                    pre.loop_ext = Some(s.clone());
                }
            }
            RB::Unknown(..) => (),
            RB::Desc(d) => {
                desc = Some(*d);
                got_frame_block = true;
            }
            RB::Lct(c) => lct = Some(c.clone()),
            RB::Data(d) => {
                if it.junk && junk_at.is_none() {
                    junk_at = Some(frames.len());
                }
                frames.push((
                    RFrame {
                        gc: gc.take(),
                        desc: desc.take().unwrap(),
                        lct: lct.take(),
                        data: d.clone(),
                    },
                    it.end,
                ));
            }
            RB::Trailer => (),
        }
    }
    FrameTrace {
        frames,
        end: t.end.clone(),
        junk_at,
        preamble: if got_frame_block { Some(pre) } else { None },
    }
}

// ------------------------------------------------------------------ steps

#[derive(Clone, PartialEq)]
pub struct RStep {
    pub w: usize,
    pub h: usize,
    /// RGBA
    pub px: Vec<u8>,
    pub trans: Option<u8>,
    pub delay: u16,
}

impl std::fmt::Debug for RStep {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(
            f,
            "Step({}x{} trans={:?} delay={} px={:016x})",
            self.w,
            self.h,
            self.trans,
            self.delay,
            crate::util::hash_bytes(&self.px)
        )
    }
}

pub struct StepTrace {
    pub steps: Vec<(RStep, usize)>,
    pub end: End,
    pub junk_at: Option<usize>,
    pub loop_count: Option<u16>,
}

/// Row order of an interlaced image of height `h`: file row -> screen row
pub fn interlace_rows(h: usize) -> Vec<usize> {
    let mut v = vec![];
    for (start, step) in [(0, 8), (4, 8), (2, 4), (1, 2)] {
        let mut y = start;
        while y < h {
            v.push(y);
            y += step;
        }
    }
    v
}

/// Draw one frame on an RGBA canvas
pub fn ref_draw(
    canvas: &mut [u8],
    sw: usize,
    sh: usize,
    f: &RFrame,
    gct: Option<&[u8]>,
) -> Result<(), Stop2> {
    let d = &f.desc;
    let (l, t, w, h) = (d.l as usize, d.t as usize, d.w as usize, d.h as usize);
    if w == 0 || h == 0 {
        if l == 0 && t == 0 && w == 0 && h == 0 {
            return Err(Stop2::Unspec("empty frame"));
        }
        return Err(Stop2::Unspec("empty frame"));
    }
    if l + w > sw || t + h > sh {
        return Err(Stop2::E(Ek::FrameDims));
    }
    let tbl = match (&f.lct, gct) {
        (Some(t), _) => &t[..],
        (None, Some(t)) => t,
        _ => return Err(Stop2::E(Ek::MissingTable)),
    };
    let trans = f.gc.and_then(|g| g.trans());
    let n = tbl.len() / 3;
    let mut oob = false;
    let mut oob_trans = false;
    for p in &f.data {
        if *p as usize >= n {
            if Some(*p) == trans {
                oob_trans = true;
            } else {
                oob = true;
            }
        }
    }
    if oob {
        return Err(Stop2::E(Ek::ColorIndex));
    }
    if oob_trans {
        return Err(Stop2::Unspec("transparent index outside color table"));
    }
    let rows: Vec<usize> = if d.interlaced() {
        interlace_rows(h)
    } else {
        (0..h).collect()
    };
    for (fy, sy) in rows.iter().enumerate() {
        for x in 0..w {
            let p = f.data[fy * w + x];
            if Some(p) == trans {
                continue;
            }
            let i = ((t + sy) * sw + l + x) * 4;
            let c = p as usize * 3;
            canvas[i..i + 3].copy_from_slice(&tbl[c..c + 3]);
            canvas[i + 3] = 255;
        }
    }
    Ok(())
}

pub enum Stop2 {
    E(Ek),
    Unspec(&'static str),
}

pub fn ref_steps(ft: &FrameTrace, max: Option<usize>) -> StepTrace {
    let mut out = StepTrace {
        steps: vec![],
        end: End::Trailer,
        junk_at: ft.junk_at,
        loop_count: None,
    };
    let pre = match &ft.preamble {
        Some(p) => p,
        None => {
            out.end = match &ft.end {
                End::Trailer => End::Err(Ek::InvalidBlockSequence),
                e => e.clone(),
            };
            return out;
        }
    };
    out.loop_count = pre.loop_ext.as_ref().and_then(loop_count);
    let (sw, sh) = (pre.lsd.w as usize, pre.lsd.h as usize);
    if let Some(m) = max
        && sw * sh > m
    {
        out.end = End::Err(Ek::TooLarge);
        return out;
    }
    let mut canvas = vec![0u8; sw * sh * 4];
    for (f, end) in &ft.frames {
        let disp = f.gc.map(|g| g.disposal()).unwrap_or(0);
        let saved = if disp == 3 { Some(canvas.clone()) } else { None };
        match ref_draw(&mut canvas, sw, sh, f, pre.gct.as_deref()) {
            Ok(()) => (),
            Err(Stop2::E(e)) => {
                out.end = End::Err(e);
                return out;
            }
            Err(Stop2::Unspec(s)) => {
                out.end = End::Unspecified(s);
                return out;
            }
        }
        out.steps.push((
            RStep {
                w: sw,
                h: sh,
                px: canvas.clone(),
                trans: f.gc.and_then(|g| g.trans()),
                delay: f.gc.map(|g| g.delay).unwrap_or(0),
            },
            *end,
        ));
        match disp {
            2 => {
                let d = &f.desc;
                for y in 0..d.h as usize {
                    for x in 0..d.w as usize {
                        let i = ((d.t as usize + y) * sw + d.l as usize + x) * 4;
                        canvas[i..i + 4].fill(0);
                    }
                }
            }
            3 => canvas = saved.unwrap(),
            _ => (),
        }
    }
    out.end = ft.end.clone();
    out
}
