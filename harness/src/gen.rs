//! Workload generators: valid GIF files, animations, hostile mutations.
use crate::refgif::*;
use crate::util::Rng;

/// Pixel indices below `nc`, in one of many patterns
pub fn pixels(rng: &mut Rng, w: usize, h: usize, nc: usize) -> Vec<u8> {
    let n = w * h;
    let nc = nc.clamp(1, 256);
    let mut v = Vec::with_capacity(n);
    match rng.below(9) {
        0 => v.resize(n, rng.below(nc) as u8),
        1 | 2 => (0..n).for_each(|_| v.push(rng.below(nc) as u8)),
        3 => {
            let max = rng.range(1, 40);
            while v.len() < n {
                let c = rng.below(nc) as u8;
                for _ in 0..rng.range(1, max).min(n - v.len()) {
                    v.push(c);
                }
            }
        }
        4 => (0..n).for_each(|i| v.push((i % nc) as u8)),
        5 => {
            let p = rng.range(1, 17);
            let t: Vec<u8> = (0..p).map(|_| rng.below(nc) as u8).collect();
            (0..n).for_each(|i| v.push(t[i % p]));
        }
        6 => {
            for y in 0..h {
                for x in 0..w {
                    v.push(((x / 3 + y / 2) % nc) as u8);
                }
            }
        }
        7 => {
            let c = rng.below(nc) as u8;
            (0..n).for_each(|_| {
                v.push(if rng.one_in(9) { rng.below(nc) as u8 } else { c })
            });
        }
        _ => {
            // increasing run lengths: exercises self-referencing codes
            let (a, b) = (rng.below(nc) as u8, (nc - 1) as u8);
            let mut k = 1;
            while v.len() < n {
                for _ in 0..k.min(n - v.len()) {
                    v.push(a);
                }
                if v.len() < n {
                    v.push(b);
                }
                k += 1;
            }
        }
    }
    v
}

pub fn lzw_opts(rng: &mut Rng, data: &[u8]) -> LzwOpts {
    let lo = min_bits_for(data);
    let min = if rng.one_in(4) { rng.range(lo as usize, 8) as u8 } else { lo };
    let mut o = LzwOpts::plain(min);
    if rng.one_in(2) {
        return o;
    }
    o.init_clear = !rng.one_in(5);
    o.full = rng.pick(&[Full::Clear, Full::Defer, Full::Later]);
    o.rand_clear = rng.pick(&[0, 0, 0, 2, 30, 3000]);
    o.nongreedy = rng.pick(&[0, 0, 0, 5, 50, 95]);
    o.clear_at_end = rng.one_in(6);
    o.eoi = !rng.one_in(6);
    if o.eoi && rng.one_in(6) {
        let n = rng.range(1, 300);
        o.post = rng.bytes(n);
    }
    o
}

#[derive(Clone, Debug)]
pub struct GOpt {
    pub max_dim: usize,
    pub max_frames: usize,
    pub min_frames: usize,
    /// percent chance of an extension at each place it may be
    pub ext_pct: usize,
    /// frames inside the screen, colour table there, indices in range
    pub drawable: bool,
    /// legal but unusual LZW encodings
    pub variants: bool,
    pub plain_text: bool,
    /// 0: maybe, 1: no, 2: yes
    pub looping: u8,
    /// 1-in-n chance of an image with many codes (0: never)
    pub big: usize,
    /// 1-in-n chance of a very wide or tall screen, or of very many frames
    pub extreme: usize,
}

impl Default for GOpt {
    fn default() -> Self {
        GOpt {
            max_dim: 40,
            max_frames: 4,
            min_frames: 0,
            ext_pct: 30,
            drawable: false,
            variants: true,
            plain_text: true,
            looping: 0,
            big: 0,
            extreme: 0,
        }
    }
}

impl GOpt {
    /// Now and then, something larger than a check usually looks at
    pub fn spread(self, rng: &mut Rng, rarity: usize) -> Self {
        if cfg!(miri) || !rng.one_in(rarity) {
            return self;
        }
        match rng.below(4) {
            0 => GOpt { max_dim: 60, ..self },
            1 => GOpt { max_dim: 130, max_frames: self.min_frames.max(2), ..self },
            2 => GOpt { max_dim: 6, min_frames: self.min_frames.max(10), max_frames: 60, ..self },
            _ => GOpt { max_dim: 20, max_frames: self.min_frames.max(15), ext_pct: 60, ..self },
        }
    }
}

#[derive(Clone)]
pub struct Gif {
    pub bytes: Vec<u8>,
    pub blocks: Vec<RB>,
}

pub fn subs(rng: &mut Rng) -> Subs {
    if rng.one_in(150) {
        if !cfg!(miri) && rng.one_in(12) {
            // more bytes than 16 bits can count
            let n = rng.range(255, 300);
            return (0..n).map(|i| vec![i as u8 ^ 0x5A; 255 - (i & 1)]).collect();
        }
        // more sub-blocks than a byte can count
        let n = if !cfg!(miri) && rng.one_in(12) { rng.range(1000, 5000) } else { rng.range(200, 600) };
        return (0..n).map(|i| vec![i as u8; 1 + i % 2]).collect();
    }
    let n = rng.pick(&[0, 1, 1, 1, 2, 3, 8]);
    (0..n)
        .map(|_| {
            let k = match rng.below(6) {
                0 => 255,
                1 => 1,
                2 => rng.range(1, 255),
                3 => 11,
                _ => rng.range(1, 20),
            };
            rng.bytes(k)
        })
        .collect()
}

/// Application data which is not a loop count
pub fn app_subs(rng: &mut Rng) -> Subs {
    let mut s = subs(rng);
    match rng.below(8) {
        0 => {
            s = vec![b"NETSCAPE2.0".to_vec(), rng.bytes(3)];
            match rng.below(4) {
                0 => s[1][0] = rng.pick(&[0, 2, 3, 129]),
                1 => s[1] = vec![1, 2],
                2 => s[1] = vec![1, 2, 0, 0],
                _ => s[0] = b"NETSCAPE2.1".to_vec(),
            }
            if loop_count(&s).is_some() {
                s[1][0] = 9;
            }
        }
        1 => s = vec![b"NETSCAPE2.0".to_vec()],
        _ => {
            if loop_count(&s).is_some() {
                s.clear();
            }
        }
    }
    s
}

pub fn loop_subs(rng: &mut Rng, n: u16) -> Subs {
    let id = if rng.one_in(3) { b"ANIMEXTS1.0" } else { b"NETSCAPE2.0" };
    vec![id.to_vec(), vec![1, n as u8, (n >> 8) as u8]]
}

pub fn table(rng: &mut Rng, bits: u8) -> Vec<u8> {
    let n = 2 << bits;
    let mut t = rng.bytes(3 * n);
    if rng.one_in(8) {
        match rng.below(6) {
            0 => t.fill(0),
            1 => t.fill(0xFF),
            2 => {
                // one colour, again and again
                let c = [t[0], t[1], t[2]];
                t.chunks_mut(3).for_each(|x| x.copy_from_slice(&c));
            }
            3 => {
                // the second half as the first
                let (a, b) = t.split_at_mut(3 * n / 2);
                b.copy_from_slice(a);
            }
            4 => t.chunks_mut(3).enumerate().for_each(|(i, x)| x.fill((i * 255 / (n - 1)) as u8)),
            _ => t[3 * n / 2..].fill(0),
        }
    }
    t
}

fn ext(rng: &mut Rng, o: &GOpt, out: &mut Vec<RB>) {
    if !rng.pct(o.ext_pct) {
        return;
    }
    let mut n = rng.range(1, 2);
    let mut only = None;
    if (o.big > 0 || o.extreme > 0) && rng.one_in(1500) {
        // far more in one place than anyone would expect
        n = rng.pick(&[65, 130, 257, 700]);
        if rng.one_in(2) {
            only = Some(rng.below(4));
        }
    }
    for _ in 0..n {
        let b = match only.unwrap_or_else(|| rng.below(4)) {
            0 => RB::Comment(subs(rng)),
            1 => RB::App(app_subs(rng)),
            2 if o.plain_text => RB::Plain(subs(rng)),
            _ => {
                let mut id = rng.u8();
                if [0x01, 0xF9, 0xFE, 0xFF].contains(&id) {
                    id = 0x42;
                }
                RB::Unknown(id, subs(rng))
            }
        };
        out.push(b);
    }
}

pub fn gc(rng: &mut Rng, tlen: usize) -> Gc {
    let mut flags = if rng.one_in(4) {
        rng.u8()
    } else {
        (rng.pick(&[0u8, 1, 2, 3, 2, 3, 4, 7]) << 2) | rng.u8() & 1
    };
    let mut ti = rng.below(tlen.max(1)) as u8;
    if rng.one_in(3) {
        ti = 0;
    }
    if rng.one_in(10) {
        ti = rng.u8();
        if tlen < 256 && (ti as usize) >= tlen {
            flags &= !1;
        }
    }
    Gc { flags, delay: rng.edge16(), trans_idx: ti }
}

/// Sizes with a round number of pixels, or one off
const EXACT: [(usize, usize); 12] = [
    (256, 256),
    (128, 512),
    (1024, 64),
    (4, 16384),
    (32768, 2),
    (64, 64),
    (4096, 1),
    (1, 4096),
    (257, 255),
    (17, 241),
    (512, 512),
    (256, 16),
];

/// A valid file
pub fn gif(rng: &mut Rng, o: &GOpt) -> Gif {
    let mut blocks = vec![];
    blocks.push(RB::Header(if rng.one_in(3) { *b"87a" } else { *b"89a" }));
    let dim = |rng: &mut Rng| match rng.below(6) {
        0 => 1,
        1 => rng.range(1, 5),
        _ => rng.range(1, o.max_dim),
    };
    let (mut sw, mut sh) = (dim(rng), dim(rng));
    let big = o.big > 0 && rng.one_in(o.big);
    if big {
        sw = rng.range(150, 420);
        sh = rng.range(150, 420);
    }
    let extreme = o.extreme > 0 && rng.one_in(o.extreme);
    let mut nf = rng.range(o.min_frames, o.max_frames);
    let mut pct = o.ext_pct;
    let mut exact = false;
    if extreme {
        (sw, sh) = match rng.below(7) {
            6 => {
                exact = true;
                rng.pick(&EXACT)
            }
            0 => (65535, rng.range(1, 4)),
            1 => (rng.range(1, 4), 65535),
            2 => (rng.range(1000, 5000), rng.range(1, 9)),
            3 => (rng.range(1, 9), rng.range(1000, 5000)),
            4 => (rng.range(1, 4), rng.range(250, 600)),
            _ => {
                nf = rng.pick(&[100, 256, 257, 300]);
                if rng.one_in(60) {
                    nf = 65_600;
                }
                pct = 3;
                (rng.range(1, 3), rng.range(1, 3))
            }
        };
    }
    let o = &GOpt { ext_pct: pct, ..o.clone() };
    let mut flags = rng.u8();
    if o.drawable && !rng.one_in(4) {
        flags |= 0x80;
    }
    blocks.push(RB::Lsd(Lsd {
        w: sw as u16,
        h: sh as u16,
        flags,
        bg: rng.u8(),
        aspect: rng.u8(),
    }));
    let mut glen = 0;
    if flags & 0x80 != 0 {
        blocks.push(RB::Gct(table(rng, flags & 7)));
        glen = 2 << (flags & 7);
    }
    if o.looping == 2 || (o.looping == 0 && rng.one_in(3)) {
        let n = rng.edge16();
        blocks.push(RB::App(loop_subs(rng, n)));
    }
    ext(rng, o, &mut blocks);
    if o.looping != 1 && rng.one_in(12) {
        // the last loop count is the one which applies
        let n = rng.edge16();
        blocks.push(RB::App(loop_subs(rng, n)));
        ext(rng, o, &mut blocks);
    }
    for _ in 0..nf {
        let mut d = Desc { flags: rng.u8(), ..Default::default() };
        if rng.one_in(2) {
            d.flags &= 0x7F;
        }
        if o.drawable && glen == 0 {
            d.flags |= 0x80;
        }
        if rng.one_in(2) {
            d.flags &= !0x40;
        }
        let tlen = if d.flags & 0x80 != 0 { 2 << (d.flags & 7) } else { glen };
        let mut w = if rng.one_in(3) { sw } else { rng.range(1, sw) };
        let mut h = if rng.one_in(3) { sh } else { rng.range(1, sh) };
        if exact {
            (w, h) = (sw, sh);
        } else if extreme && rng.one_in(2) {
            // a small frame somewhere far out
            (w, h) = (w.min(rng.range(1, 40)), h.min(rng.range(1, 40)));
        }
        (d.w, d.h) = (w as u16, h as u16);
        if o.drawable {
            d.l = rng.below(sw - w + 1) as u16;
            d.t = rng.below(sh - h + 1) as u16;
        } else {
            d.l = rng.edge16();
            d.t = rng.edge16();
            if rng.one_in(12) {
                d.w = 0;
            }
            if rng.one_in(12) {
                d.h = 0;
            }
        }
        if rng.pct(o.ext_pct) && o.plain_text && rng.one_in(3) {
            // control for a plain text rendering
            blocks.push(RB::Gc(gc(rng, tlen)));
            blocks.push(RB::Plain(subs(rng)));
        }
        if rng.pct(70) {
            blocks.push(RB::Gc(gc(rng, tlen)));
            let o2 = GOpt { plain_text: false, ..o.clone() };
            ext(rng, &o2, &mut blocks);
        }
        blocks.push(RB::Desc(d));
        if d.flags & 0x80 != 0 {
            let mut t = table(rng, d.flags & 7);
            if rng.one_in(6)
                && let Some(RB::Lct(p) | RB::Gct(p)) =
                    blocks.iter().rev().find(|b| matches!(b, RB::Lct(_) | RB::Gct(_)))
                && p.len() == t.len()
            {
                // one colour away from an earlier table
                t = p.clone();
                let i = rng.below(t.len());
                t[i] ^= rng.u8();
            }
            blocks.push(RB::Lct(t));
        }
        let nc = if o.drawable {
            tlen
        } else {
            rng.pick(&[2, 3, 4, 16, 200, 256])
        };
        let nc = if rng.one_in(3) { nc.min(3) } else { nc };
        let mut data = pixels(rng, d.w as usize, d.h as usize, nc);
        if big && rng.one_in(2) {
            // noise: the most codes per pixel
            data.iter_mut().for_each(|p| *p = rng.below(nc) as u8);
        }
        blocks.push(RB::Data(data));
        ext(rng, o, &mut blocks);
    }
    blocks.push(RB::Trailer);
    let bytes = serialize(rng, &blocks, o.variants);
    Gif { bytes, blocks }
}

pub fn serialize(rng: &mut Rng, blocks: &[RB], variants: bool) -> Vec<u8> {
    let mut v = vec![];
    for b in blocks {
        match b {
            RB::Data(d) => {
                let o = if variants {
                    lzw_opts(rng, d)
                } else {
                    LzwOpts::plain(min_bits_for(d))
                };
                let mut px = d.clone();
                if variants && !d.is_empty() && rng.one_in(12) {
                    // surplus pixels
                    for _ in 0..rng.range(1, 50) {
                        px.push(rng.pick(d));
                    }
                }
                let payload = lzw_encode(&px, &o, rng);
                ser_payload(&mut v, o.min, &payload, rng);
            }
            _ => ser_plain(b, &mut v),
        }
    }
    v
}

/// Cut a damaged file before its images fill the memory
///
/// Damage may enlarge the screen of a file with very many images.  Keeping
/// every composed image would then need more than any monitor should hold.
fn tame(bytes: &mut Vec<u8>) {
    if bytes.len() < 10 {
        return;
    }
    let le = |i: usize| bytes[i] as usize | (bytes[i + 1] as usize) << 8;
    let px = (le(6) * le(8)).max(1);
    if px > 1 << 25 {
        return;
    }
    let most = ((1 << 26) / px).max(2);
    let cut = (10..bytes.len()).filter(|i| bytes[*i] == 0x2C).nth(most);
    if let Some(i) = cut {
        bytes.truncate(i);
    }
}

/// Byte-level damage
pub fn mutate(rng: &mut Rng, bytes: &mut Vec<u8>, other: &[u8]) -> &'static str {
    let what = damage(rng, bytes, other);
    tame(bytes);
    what
}

fn damage(rng: &mut Rng, bytes: &mut Vec<u8>, other: &[u8]) -> &'static str {
    if bytes.is_empty() {
        return "empty";
    }
    let len = bytes.len();
    match rng.below(10) {
        0 => {
            bytes.truncate(rng.below(len));
            "truncate"
        }
        1 => {
            for _ in 0..rng.range(1, 4) {
                let i = rng.below(len);
                bytes[i] ^= 1 << rng.below(8);
            }
            "bitflip"
        }
        2 => {
            for _ in 0..rng.range(1, 6) {
                let i = rng.below(len);
                bytes[i] = rng.pick(&[0, 1, 2, 4, 0x21, 0x2C, 0x3B, 0x7F, 0x80, 0xF9, 0xFE, 0xFF]);
            }
            "magic"
        }
        3 => {
            let i = rng.below(len);
            let n = rng.range(1, 8).min(len - i);
            bytes.drain(i..i + n);
            "delete"
        }
        4 => {
            let i = rng.below(len + 1);
            let n = rng.range(1, 8);
            let ins = rng.bytes(n);
            bytes.splice(i..i, ins);
            "insert"
        }
        5 => {
            let i = rng.below(len);
            let j = rng.below(other.len().max(1)).min(other.len());
            bytes.truncate(i);
            bytes.extend_from_slice(&other[j..]);
            "splice"
        }
        6 => {
            // the header area decides sizes
            let i = rng.below(len.min(40));
            bytes[i] = rng.u8();
            "header"
        }
        7 => {
            let i = rng.below(len);
            let n = rng.range(1, 60).min(len - i);
            let d: Vec<u8> = bytes[i..i + n].to_vec();
            let j = rng.below(len);
            bytes.splice(j..j, d);
            "duplicate"
        }
        8 => {
            let i = rng.below(len);
            for b in bytes[i..].iter_mut() {
                *b = rng.u8();
            }
            "noise tail"
        }
        _ => {
            let i = rng.below(len);
            bytes[i] = bytes[i].wrapping_add(rng.pick(&[1, 255, 2, 254]));
            "off by one"
        }
    }
}

/// Structural damage: blocks out of place or with impossible contents
pub fn scramble(rng: &mut Rng, g: &Gif) -> (Vec<u8>, &'static str) {
    let (mut v, what) = rearrange(rng, g);
    tame(&mut v);
    (v, what)
}

fn rearrange(rng: &mut Rng, g: &Gif) -> (Vec<u8>, &'static str) {
    let mut b = g.blocks.clone();
    let n = b.len();
    let find = |b: &[RB], rng: &mut Rng, f: &dyn Fn(&RB) -> bool| {
        let v: Vec<usize> = (0..b.len()).filter(|i| f(&b[*i])).collect();
        if v.is_empty() { None } else { Some(rng.pick(&v)) }
    };
    let what = match rng.below(10) {
        0 => {
            b.remove(rng.below(n));
            "block removed"
        }
        1 => {
            let i = rng.below(n);
            let x = b[i].clone();
            b.insert(rng.below(n), x);
            "block duplicated"
        }
        2 => {
            let (i, j) = (rng.below(n), rng.below(n));
            b.swap(i, j);
            "blocks swapped"
        }
        3 => {
            let i = rng.range(2, n);
            b.insert(i, RB::Gc(gc(rng, 4)));
            "extra control"
        }
        4 => {
            if let Some(i) = find(&b, rng, &|x| matches!(x, RB::Desc(_)))
                && let RB::Desc(d) = &mut b[i]
            {
                match rng.below(4) {
                    0 => d.l = d.l.wrapping_add(rng.edge16()),
                    1 => d.t = d.t.wrapping_add(rng.edge16()),
                    2 => d.w = d.w.wrapping_add(rng.pick(&[1, 65535])),
                    _ => d.h = d.h.wrapping_add(rng.pick(&[1, 65535])),
                }
            }
            "descriptor changed"
        }
        5 => {
            if let Some(i) = find(&b, rng, &|x| matches!(x, RB::Data(_)))
                && let RB::Data(d) = &mut b[i]
                && !d.is_empty()
            {
                match rng.below(3) {
                    0 => {
                        let k = rng.below(d.len());
                        d.truncate(k);
                    }
                    1 => {
                        let k = rng.below(d.len());
                        d[k] = rng.u8();
                    }
                    _ => {
                        let k = d.len() - 1;
                        d.truncate(k);
                    }
                }
            }
            "pixels changed"
        }
        6 => {
            if let Some(i) = find(&b, rng, &|x| matches!(x, RB::Gct(_)))
                && i > 0
                && let RB::Lsd(l) = &mut b[i - 1]
            {
                l.flags &= 0x7F;
                b.remove(i);
            }
            "no global table"
        }
        7 => {
            if let RB::Lsd(l) = &mut b[1] {
                match rng.below(3) {
                    0 => l.w = rng.edge16(),
                    1 => l.h = rng.edge16(),
                    _ => l.w = l.w.saturating_sub(1),
                }
            }
            "screen changed"
        }
        8 => {
            if let Some(i) = find(&b, rng, &|x| matches!(x, RB::Data(_))) {
                // image data replaced by a hostile code stream
                let want = match &b[i] {
                    RB::Data(d) => d.len(),
                    _ => 0,
                };
                let mut v = serialize(rng, &b[..i], true);
                let min = rng.range(2, 8) as u8;
                let bad = rng.pick(&[0, 5, 50]);
                let p = lzw_raw(rng, min, want, bad, false);
                ser_payload(&mut v, min, &p, rng);
                let tail = serialize(rng, &b[i + 1..], true);
                v.extend_from_slice(&tail);
                return (v, "hostile codes");
            }
            "none"
        }
        _ => {
            // malformed graphic control
            let i = rng.range(2, n - 1);
            let mut v = serialize(rng, &b[..i], true);
            v.extend_from_slice(&[0x21, 0xF9]);
            let k = rng.pick(&[1, 2, 3, 5, 6, 255]);
            v.push(k as u8);
            v.extend(rng.bytes(k));
            v.push(0);
            let tail = serialize(rng, &b[i..], true);
            v.extend_from_slice(&tail);
            return (v, "malformed control");
        }
    };
    let v = serialize(rng, &b, true);
    (v, what)
}

// ------------------------------------------------------------------ steps

#[derive(Clone, Debug)]
pub struct StepSpec {
    pub w: usize,
    pub h: usize,
    pub data: Vec<u8>,
    /// RGB entries
    pub pal: Vec<[u8; 3]>,
    pub disposal: u8,
    pub trans: Option<u8>,
    pub delay: Option<u16>,
}

#[derive(Clone, Debug)]
pub struct AnimSpec {
    pub steps: Vec<StepSpec>,
    pub loops: Option<u16>,
    pub global: Option<Vec<[u8; 3]>>,
}

pub fn palette(rng: &mut Rng, n: usize) -> Vec<[u8; 3]> {
    // distinct entries; equal ones must be put there one by one
    let mut base = rng.u64() as u32;
    if rng.one_in(12) {
        match rng.below(5) {
            0 => return (0..n).map(|i| [i as u8; 3]).collect(),
            1 => return (0..n).map(|i| [!i as u8; 3]).collect(),
            2 => {
                let c = [rng.u8(), rng.u8(), rng.u8()];
                return vec![c; n];
            }
            3 => {
                let k = rng.range(1, n.min(7));
                let p: Vec<_> = (0..k).map(|_| [rng.u8(), rng.u8(), rng.u8()]).collect();
                return (0..n).map(|i| p[i % k]).collect();
            }
            _ => base = 0,
        }
    }
    (0..n)
        .map(|i| {
            let c = (i as u32).wrapping_mul(0x0001_0403).wrapping_add(base) & 0xFF_FFFF;
            [(c >> 16) as u8, (c >> 8) as u8, c as u8]
        })
        .collect()
}

/// As `anim`, with very wide or tall rasters or very many steps
pub fn anim_extreme(rng: &mut Rng) -> AnimSpec {
    let (w, h, n) = match rng.below(7) {
        6 => {
            let (w, h) = rng.pick(&EXACT);
            (w, h, 1)
        }
        0 => (65535, 1, rng.range(1, 2)),
        1 => (1, 65535, rng.range(1, 2)),
        2 => (rng.range(1000, 9000), rng.range(1, 9), rng.range(1, 3)),
        3 => (rng.range(1, 9), rng.range(1000, 9000), rng.range(1, 3)),
        4 => (rng.range(250, 260), rng.range(250, 260), rng.range(1, 2)),
        _ => (rng.range(1, 3), rng.range(1, 3), rng.pick(&[100, 255, 256, 257, 300, 520, 1030])),
    };
    anim_sized(rng, w, h, n)
}

/// Now and then, something larger than a check usually looks at
pub fn anim_spread(rng: &mut Rng, max_dim: usize, max_steps: usize, rarity: usize) -> AnimSpec {
    if cfg!(miri) || !rng.one_in(rarity) {
        return anim(rng, max_dim, max_steps, 0);
    }
    match rng.below(3) {
        0 => anim(rng, 60, 3, 0),
        1 => anim(rng, 130, 1, 0),
        _ => anim(rng, 5, 60, 0),
    }
}

pub fn anim(rng: &mut Rng, max_dim: usize, max_steps: usize, big: usize) -> AnimSpec {
    let (mut w, mut h) = match rng.below(5) {
        0 => (rng.range(1, 6), rng.range(1, 6)),
        1 => (rng.range(1, max_dim * 4), 1),
        2 => (1, rng.range(1, max_dim * 4)),
        _ => (rng.range(1, max_dim), rng.range(1, max_dim)),
    };
    let mut n = rng.range(1, max_steps);
    if big > 0 && rng.one_in(big) {
        (w, h) = (rng.range(200, 500), rng.range(200, 500));
        n = n.min(2);
    }
    anim_sized(rng, w, h, n)
}

fn anim_sized(rng: &mut Rng, w: usize, h: usize, n: usize) -> AnimSpec {
    let npal = |rng: &mut Rng| match rng.below(6) {
        0 => rng.pick(&[1, 2, 3, 4, 5, 8, 9, 16, 17, 32, 33, 64, 65, 128, 129, 255, 256]),
        1 => 256,
        2 => rng.range(1, 256),
        _ => rng.range(2, 20),
    };
    let k = npal(rng);
    let mut pal = palette(rng, k);
    let global = if rng.one_in(3) {
        let k = npal(rng);
        Some(if rng.one_in(2) { pal.clone() } else { palette(rng, k) })
    } else {
        None
    };
    let first = pal.clone();
    let mut steps: Vec<StepSpec> = vec![];
    for _ in 0..n {
        if rng.one_in(3) {
            let k = npal(rng);
            pal = palette(rng, k);
        } else if rng.one_in(6) {
            // one entry changed, to a colour in no palette of this shape
            let i = match rng.below(4) {
                3 => rng.below(pal.len()),
                _ => rng.pick(&[0, pal.len() - 1, pal.len() / 2]),
            };
            let mut c = pal[i];
            while pal.contains(&c) {
                let k = rng.below(3);
                c[k] ^= 1 << rng.below(8);
            }
            pal[i] = c;
        } else if rng.one_in(8) {
            // one entry more or less
            if pal.len() > 1 && rng.one_in(2) {
                pal.pop();
            } else if pal.len() < 256 {
                let mut c = [rng.u8(), rng.u8(), rng.u8()];
                while pal.contains(&c) {
                    c[0] = c[0].wrapping_add(1);
                }
                pal.push(c);
            }
        } else if rng.one_in(8) {
            // back to the first one
            pal = global.clone().unwrap_or(first.clone());
        } else if rng.one_in(8) {
            // the same colours in another order
            match rng.below(3) {
                0 => pal.reverse(),
                1 => pal.rotate_left(1),
                _ => {
                    let (i, j) = (rng.below(pal.len()), rng.below(pal.len()));
                    pal.swap(i, j);
                }
            }
        } else if rng.one_in(6) {
            // same size, other colours
            let k = pal.len();
            pal = palette(rng, k);
        }
        let nc = if rng.one_in(3) { pal.len().min(3) } else { pal.len() };
        let mut data = pixels(rng, w, h, nc);
        if rng.one_in(4) {
            let i = rng.below(data.len());
            data[i] = (pal.len() - 1) as u8;
        }
        if rng.one_in(8)
            && let Some(p) = steps.last()
            && p.pal.len() <= pal.len()
        {
            // the same picture again
            data = p.data.clone();
        }
        steps.push(StepSpec {
            w,
            h,
            data,
            disposal: rng.pick(&[0, 0, 1, 2, 3, 2, 3, 4, 5, 6, 7]),
            trans: match rng.below(12) {
                0..=3 => Some(rng.below(pal.len()) as u8),
                4 => Some(rng.u8()),
                _ => None,
            },
            delay: if rng.one_in(2) { Some(rng.edge16()) } else { None },
            pal: pal.clone(),
        });
    }
    AnimSpec {
        steps,
        loops: if rng.one_in(2) { Some(rng.edge16()) } else { None },
        global,
    }
}
