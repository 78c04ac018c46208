//! Generators: documents and their parts from a choice source.

use crate::model::*;
use crate::src::{Bulk, Src};

#[derive(Clone, Copy, PartialEq)]
pub enum Images {
    /// Any bytes: for checks that do not decode them.
    Any,
    /// Complete and valid pixel data.
    Valid,
}

#[derive(Clone)]
pub struct Opts {
    pub depths: &'static [u16],
    pub max_layers: usize,
    pub max_frames: usize,
    /// tilemap and unknown layer types
    pub odd_layers: bool,
    /// tilemap and unknown cel types
    pub odd_cels: bool,
    pub images: Images,
    /// chances (of 256)
    pub cel: u8,
    pub link: u8,
    pub tags: u8,
    pub slices: u8,
    pub aux: u8,
    pub user: u8,
    pub props: u8,
    /// surplus bytes behind chunks and frames, unknown chunks
    pub surplus: u8,
    /// chance that a frame's units are shuffled, that layers come late
    pub shuffle: u8,
    /// blend codes beyond the defined ones
    pub odd_blend: bool,
    /// arbitrary nesting levels (not a tree)
    pub odd_levels: bool,
    /// canvas and cel sizes
    pub canvas: u16,
    pub cel_size: u16,
    pub long: bool,
    pub reserved: bool,
}

impl Default for Opts {
    fn default() -> Self {
        Opts {
            depths: &[32, 32, 16, 8, 8],
            max_layers: 6,
            max_frames: 4,
            odd_layers: true,
            odd_cels: true,
            images: Images::Any,
            cel: 150,
            link: 60,
            tags: 80,
            slices: 80,
            aux: 80,
            user: 80,
            props: 60,
            surplus: 20,
            shuffle: 60,
            odd_blend: true,
            odd_levels: false,
            canvas: 64,
            cel_size: 12,
            long: true,
            reserved: true,
        }
    }
}

impl Opts {
    /// Documents that the loader presents and that render.
    pub fn loadable() -> Self {
        Opts { odd_cels: false, images: Images::Valid, odd_blend: false, ..Opts::default() }
    }
    /// Small sprites whose pictures matter.
    pub fn sprite() -> Self {
        Opts {
            depths: &[32, 32, 32, 16, 8],
            odd_cels: false,
            images: Images::Valid,
            tags: 0,
            slices: 0,
            aux: 4,
            user: 4,
            props: 0,
            surplus: 4,
            shuffle: 20,
            odd_blend: false,
            canvas: 10,
            cel_size: 8,
            long: false,
            cel: 190,
            ..Opts::default()
        }
    }
}

fn text(s: &mut Src<'_>, o: &Opts) -> String {
    if o.long {
        s.string()
    } else {
        s.short_string()
    }
}

pub fn head(s: &mut Src<'_>, o: &Opts) -> Head {
    let mut h = Head { depth: s.pick(o.depths), ..Head::default() };
    let dim = |s: &mut Src<'_>| -> u16 {
        match s.weighted(&[6, 1, 1]) {
            0 => 1 + s.below(o.canvas.into()) as u16,
            1 => s.pick(&[0u16, 1, 2, 16]).min(o.canvas),
            _ => o.canvas,
        }
    };
    h.width = dim(s);
    h.height = dim(s);
    one_side(s, &mut h.width, &mut h.height);
    if s.chance(140) {
        h.file_size = s.u32b();
        h.frames = s.u16b();
        h.flags = if s.chance(200) { s.u32b() | 1 } else { s.u32b() };
        h.speed = s.u16b();
        h.transparent = s.u8b();
        h.colors = s.u16b();
        h.pixel_w = s.u8b();
        h.pixel_h = s.u8b();
        h.grid_x = s.i16b();
        h.grid_y = s.i16b();
        h.grid_w = s.u16b();
        h.grid_h = s.u16b();
        if o.reserved {
            h.ignore = s.arr();
            h.future = s.arr::<84>().to_vec();
        }
    }
    h
}

/// In one case of 24: one side as long as a literal of the code, the other
/// short, so that the area remains small.
fn one_side(s: &mut Src<'_>, w: &mut u16, h: &mut u16) {
    if s.below(24) != 23 {
        return;
    }
    if let Some(v) = s.literal(600) {
        (*w, *h) = (v as u16, (*h).min(4));
        if s.bool() {
            std::mem::swap(w, h);
        }
    }
}

/// Dimensions of the canvas as a parser sees them: anything.
pub fn any_canvas(s: &mut Src<'_>, h: &mut Head) {
    h.width = s.u16b();
    h.height = s.u16b();
}

pub fn layer(s: &mut Src<'_>, o: &Opts, kind: u16, level: u16) -> LayerM {
    let mut flags = match s.weighted(&[5, 2, 2]) {
        0 => 3,
        1 => s.u16b() & 0x7f,
        _ => s.u16(),
    };
    // mostly visible
    if s.chance(150) {
        flags |= 1;
    }
    let max = if o.odd_blend && s.chance(40) { 65535 } else { 18 };
    LayerM {
        flags,
        kind,
        level,
        dw: if s.chance(60) { s.u16b() } else { 0 },
        dh: if s.chance(60) { s.u16b() } else { 0 },
        blend: if s.chance(130) { s.range(0, max) as u16 } else { 0 },
        opacity: if s.chance(140) { s.u8b() } else { 255 },
        reserved: if o.reserved { s.arr() } else { [0; 3] },
        name: text(s, o),
        tileset: if kind == 2 { s.u32b() } else { 0 },
    }
}

/// Types and levels of `n` layers.
pub fn layer_tree(s: &mut Src<'_>, o: &Opts, n: usize) -> Vec<(u16, u16)> {
    let mut v: Vec<(u16, u16)> = vec![];
    let deep = s.grow.deep;
    for _ in 0..n {
        let groups = if deep { 40 } else { 4 };
        let kind = match s.weighted(&[9, groups, u32::from(o.odd_layers), u32::from(o.odd_layers)]) {
            0 => 0,
            1 => 1,
            2 => 2,
            _ => s.u16b().max(3),
        };
        let level = match v.last() {
            None => 0,
            Some((k, l)) => {
                let top = l.saturating_add(u16::from(*k == 1));
                match s.weighted(if deep { &[50, 1, 1, 3] } else { &[3, 2, 2] }) {
                    0 => top,
                    1 => 0,
                    2 => s.range(0, top.into()) as u16,
                    // a few levels up
                    _ => top.saturating_sub(s.below(4) as u16),
                }
            }
        };
        let level = if o.odd_levels && s.chance(60) { s.u16b() } else { level };
        v.push((kind, level));
    }
    v
}

// -------------------------------------------------------------------- images

/// Pixel data of `n` bytes in one of several styles.
pub fn pixels(s: &mut Src<'_>, n: usize, depth: u16) -> Vec<u8> {
    let mut b = s.bulk();
    let px = usize::from(depth / 8).max(1);
    let mut edge = [0, 255, 128, 127, 1, 254, 64, 63, 129, 192, 2, 200];
    if s.below(4) == 3 {
        // a literal of the code, often
        let v = s.literal(255).unwrap_or(0) as u8;
        edge[4..8].fill(v);
    }
    match s.weighted(&[3, 3, 2, 1, 1]) {
        // anything
        0 => (0..n).map(|_| b.byte()).collect(),
        // boundary values
        1 => (0..n).map(|_| edge[b.below(12) as usize]).collect(),
        // a few colours
        2 => {
            let pal: Vec<Vec<u8>> = (0..3).map(|_| (0..px).map(|_| b.byte()).collect()).collect();
            let mut v = Vec::with_capacity(n + px);
            while v.len() < n {
                v.extend_from_slice(&pal[b.below(3) as usize]);
            }
            v.truncate(n);
            v
        }
        // opaque
        3 => {
            let mut v: Vec<u8> = (0..n).map(|_| b.byte()).collect();
            if px > 1 {
                v.iter_mut().skip(px - 1).step_by(px).for_each(|a| *a = 255);
            }
            v
        }
        // flat
        _ => {
            let c: Vec<u8> = (0..px).map(|_| b.byte()).collect();
            (0..n).map(|i| c[i % px]).collect()
        }
    }
}

fn adler(data: &[u8]) -> [u8; 4] {
    let (mut a, mut b) = (1u32, 0u32);
    for x in data {
        a = (a + u32::from(*x)) % 65521;
        b = (b + a) % 65521;
    }
    ((b << 16) | a).to_be_bytes()
}

/// A zlib stream of stored blocks cut at random places.
pub fn stored(b: &mut Bulk, data: &[u8]) -> Vec<u8> {
    let mut out = vec![0x78, 0x01];
    let mut at = 0;
    loop {
        let left = data.len() - at;
        let n = match b.below(4) {
            0 => b.below(3) as usize,
            1 => b.below(40) as usize,
            _ => 65535,
        }
        .min(left)
        .min(65535);
        let last = n == left;
        out.push(u8::from(last));
        out.extend_from_slice(&(n as u16).to_le_bytes());
        out.extend_from_slice(&(!(n as u16)).to_le_bytes());
        out.extend_from_slice(&data[at..at + n]);
        at += n;
        if last {
            break;
        }
    }
    out.extend_from_slice(&adler(data));
    out
}

/// Compress in one of the valid ways. The way is returned for classification.
pub fn zip(s: &mut Src<'_>, data: &[u8]) -> (Vec<u8>, &'static str) {
    use flate2::{Compress, Compression, FlushCompress};
    let way = s.weighted(&[6, 2, 2, 2]);
    // large repetitive data takes the compressor long at high levels
    let large = data.len() > 40_000;
    let level = if way == 0 { s.pick(if large { &[1u32, 1, 3, 0, 2, 4] } else { &[6u32, 1, 9, 0, 2, 4] }) } else if large { 1 } else { 6 };
    let mut b = s.bulk();
    match way {
        2 => (stored(&mut b, data), "zlib stored blocks"),
        1 => {
            // flushed in pieces: several blocks of different kinds
            let mut c = Compress::new(Compression::new(if large { 1 } else { s.pick(&[6u32, 1, 9]) }), true);
            let mut out = Vec::with_capacity(data.len() * 2 + 4096);
            let mut at = 0;
            let mut pieces = 0;
            while at < data.len() && pieces < 20 {
                let n = (1 + b.below(data.len() as u64 / 2 + 8) as usize).min(data.len() - at);
                let before = c.total_in();
                out.reserve(n * 2 + 1024);
                let f = if b.below(2) == 0 { FlushCompress::Sync } else { FlushCompress::Full };
                c.compress_vec(&data[at..at + n], &mut out, f).expect("compress");
                at += (c.total_in() - before) as usize;
                pieces += 1;
            }
            loop {
                out.reserve(data.len() + 1024);
                let before = c.total_in();
                let st = c.compress_vec(&data[at..], &mut out, FlushCompress::Finish).expect("compress");
                at += (c.total_in() - before) as usize;
                if st == flate2::Status::StreamEnd {
                    break;
                }
            }
            (out, "zlib several blocks")
        }
        _ => {
            let mut out = Vec::with_capacity(data.len() + data.len() / 8 + 256);
            let mut c = Compress::new(Compression::new(level), true);
            let st = c.compress_vec(data, &mut out, FlushCompress::Finish).expect("compress");
            assert_eq!(st, flate2::Status::StreamEnd);
            if way == 3 {
                (out, "zlib default level")
            } else {
                (out, match level {
                    0 => "zlib level 0",
                    9 => "zlib level 9",
                    _ => "zlib other level",
                })
            }
        }
    }
}

pub fn cel_dim(s: &mut Src<'_>, o: &Opts) -> u16 {
    match s.weighted(&[8, 1, 1]) {
        0 => 1 + s.below(o.cel_size.into()) as u16,
        1 => s.pick(&[0u16, 1, 2]),
        _ => o.cel_size,
    }
}

pub fn image(s: &mut Src<'_>, o: &Opts, depth: u16) -> Content {
    match o.images {
        Images::Any => {
            let (w, h) = if s.chance(60) { (s.u16b(), s.u16b()) } else { (s.below(9) as u16, s.below(9) as u16) };
            let data = s.bytes(300);
            if s.chance(100) {
                Content::Raw { w, h, data }
            } else {
                Content::Zip { w, h, data }
            }
        }
        Images::Valid => {
            let (mut w, mut h) = (cel_dim(s, o), cel_dim(s, o));
            one_side(s, &mut w, &mut h);
            let n = usize::from(w) * usize::from(h) * usize::from(depth / 8);
            let data = pixels(s, n, depth);
            if s.chance(70) {
                let (data, _) = zip(s, &data);
                Content::Zip { w, h, data }
            } else {
                Content::Raw { w, h, data }
            }
        }
    }
}

pub fn tilemap(s: &mut Src<'_>) -> TilemapM {
    TilemapM {
        w: s.u16b(),
        h: s.u16b(),
        bits: if s.chance(60) { s.u16b() } else { 32 },
        id: if s.chance(128) { s.u32b() } else { 0x1fff_ffff },
        xf: if s.chance(128) { s.u32b() } else { 0x2000_0000 },
        yf: if s.chance(128) { s.u32b() } else { 0x4000_0000 },
        df: if s.chance(128) { s.u32b() } else { 0x8000_0000 },
        reserved: s.arr(),
        data: s.bytes(300),
    }
}

pub fn position(s: &mut Src<'_>, o: &Opts) -> i16 {
    let c = i64::from(o.canvas);
    match s.weighted(&[5, 4, 1]) {
        0 => 0,
        1 => s.range(-c, c) as i16,
        _ => s.i16b(),
    }
}

pub fn z_index(s: &mut Src<'_>) -> i16 {
    match s.weighted(&[6, 3, 1]) {
        0 => 0,
        1 => s.range(-3, 3) as i16,
        _ => s.i16b(),
    }
}

pub fn cel(s: &mut Src<'_>, o: &Opts, layer: u16, content: Content) -> CelM {
    CelM {
        layer,
        x: position(s, o),
        y: position(s, o),
        opacity: if s.chance(100) { s.u8b() } else { 255 },
        z: z_index(s),
        reserved: if o.reserved { s.arr() } else { [0; 5] },
        content,
    }
}

// --------------------------------------------------------------- other parts

pub fn tag(s: &mut Src<'_>, o: &Opts) -> TagM {
    let (a, b) = (s.u16b(), s.u16b());
    TagM {
        from: a.min(b),
        to: a.max(b),
        dir: if s.chance(60) { s.byte() } else { s.below(4) as u8 },
        repeat: s.u16b(),
        reserved: if o.reserved { s.arr() } else { [0; 6] },
        color: s.arr(),
        extra: if o.reserved { s.u8b() } else { 0 },
        name: text(s, o),
    }
}

pub fn tags(s: &mut Src<'_>, o: &Opts, max: usize) -> Body {
    let n = s.len(max);
    let r = if o.reserved { s.arr() } else { [0; 8] };
    Body::Tags(r, (0..n).map(|_| tag(s, o)).collect())
}

pub fn key(s: &mut Src<'_>, flags: u32) -> KeyM {
    KeyM {
        frame: s.u32b(),
        x: s.i32b(),
        y: s.i32b(),
        w: s.u32b(),
        h: s.u32b(),
        nine: if flags & 1 != 0 { (s.i32b(), s.i32b(), s.u32b(), s.u32b()) } else { (0, 0, 0, 0) },
        pivot: if flags & 2 != 0 { (s.i32b(), s.i32b()) } else { (0, 0) },
    }
}

pub fn slice(s: &mut Src<'_>, o: &Opts, max: usize) -> SliceM {
    let flags = match s.weighted(&[4, 1]) {
        0 => s.below(4) as u32,
        _ => s.u32b(),
    };
    let n = s.len(max);
    SliceM {
        flags,
        reserved: if o.reserved { s.u32b() } else { 0 },
        name: text(s, o),
        keys: (0..n).map(|_| key(s, flags)).collect(),
    }
}

pub fn rgb(b: &mut Bulk, bits: u8) -> [u8; 3] {
    let m = if bits == 6 { 63 } else { 255 };
    let mut one = || match b.below(3) {
        0 => [0, m, m / 2, 1][b.below(4) as usize],
        _ => b.byte() & m,
    };
    [one(), one(), one()]
}

/// Packets of an old palette chunk that stay within 256 entries.
pub fn packets(s: &mut Src<'_>, bits: u8, at_least_one: bool) -> Vec<Packet> {
    let mut n = s.len(6);
    if at_least_one {
        n = n.max(1);
    }
    let mut at = 0usize;
    let mut v = vec![];
    let mut b = s.bulk();
    for i in 0..n {
        let room = 256 - at;
        let skip = match s.weighted(&[3, 2, 1]) {
            0 => 0,
            1 => s.below(8),
            _ => usize::from(s.u8b()),
        }
        .min(room - 1);
        let room = room - skip;
        let k = match s.weighted(&[4, 2, 1]) {
            0 => 1 + s.below(6),
            1 => 1 + s.below(256),
            _ => 256,
        }
        .min(room);
        v.push(Packet { skip: skip as u8, colors: (0..k).map(|_| rgb(&mut b, bits)).collect() });
        at += skip + k;
        if at >= 256 && i + 1 < n {
            break;
        }
    }
    v
}

pub fn palette(s: &mut Src<'_>, o: &Opts) -> PaletteM {
    let (a, b) = match s.weighted(&[3, 2, 1, 1]) {
        0 => (0, s.below(16) as u32),
        1 => (s.u8b().into(), s.u8b().into()),
        2 => (0, 255),
        _ => {
            let a = u32::from(s.u8b());
            (a, a)
        }
    };
    let (first, last) = (a.min(b), a.max(b));
    let size = match s.weighted(&[3, 2, 1]) {
        0 => last + 1,
        1 => 256,
        _ => last + 1 + s.below(255 - last as usize + 1) as u32,
    };
    let mut b = s.bulk();
    let names = s.chance(60);
    let entries = (first..=last)
        .map(|_| {
            let c = rgb(&mut b, 8);
            let named = names && b.below(3) == 0;
            EntryM {
                flags: u16::from(named) | if names && b.below(8) == 0 { 0xfffe & b.next() as u16 } else { 0 },
                color: [c[0], c[1], c[2], if b.below(3) == 0 { b.byte() } else { 255 }],
                name: if named { text(&mut Src::new(&b.next().to_le_bytes()), o) } else { String::new() },
            }
        })
        .collect();
    PaletteM { size, first, last, reserved: if o.reserved { s.arr() } else { [0; 8] }, entries }
}

/// One of the three palette chunks.
pub fn any_palette(s: &mut Src<'_>, o: &Opts) -> Body {
    match s.weighted(&[4, 2, 2]) {
        0 => Body::Palette(palette(s, o)),
        1 => Body::Pal4(packets(s, 8, false)),
        _ => Body::Pal11(packets(s, 6, false)),
    }
}

pub fn unknown_code(s: &mut Src<'_>) -> u16 {
    let c = match s.weighted(&[2, 2, 1]) {
        0 => s.pick(&[0x2009u16, 0x2021, 0x2024, 0x2003, 0x0005, 0x0012, 0x0000, 0xffff, 0x2010, 0x2015]),
        1 => 0x2000 | u16::from(s.byte()),
        _ => s.u16(),
    };
    if KNOWN_CHUNKS.contains(&c) {
        c ^ 0x4000
    } else {
        c
    }
}

pub fn unknown(s: &mut Src<'_>) -> Body {
    let c = unknown_code(s);
    Body::Unknown(c, s.bytes(200))
}

pub fn profile(s: &mut Src<'_>) -> ProfileM {
    let kind = if s.chance(60) { s.u16b() } else { s.below(4) as u16 };
    ProfileM {
        kind,
        flags: if s.chance(128) { s.u16b() } else { s.below(2) as u16 },
        gamma: s.u32b(),
        reserved: s.arr(),
        icc: if kind == 2 { s.bytes(400) } else { vec![] },
    }
}

pub fn external(s: &mut Src<'_>, o: &Opts) -> Body {
    let n = s.len(12);
    let r = s.arr();
    Body::External(
        r,
        (0..n)
            .map(|_| ExtM {
                id: s.u32b(),
                kind: if s.chance(60) { s.byte() } else { s.below(4) as u8 },
                reserved: s.arr(),
                name: text(s, o),
            })
            .collect(),
    )
}

pub fn mask(s: &mut Src<'_>, o: &Opts) -> MaskM {
    MaskM {
        x: s.i16b(),
        y: s.i16b(),
        w: s.u16b(),
        h: s.u16b(),
        reserved: s.arr(),
        name: text(s, o),
        data: s.bytes(200),
    }
}

pub fn cel_extra(s: &mut Src<'_>) -> CelExtraM {
    CelExtraM {
        flags: s.u32b(),
        vals: [s.u32b(), s.u32b(), s.u32b(), s.u32b()],
        rest: if s.chance(100) { s.bytes(40) } else { vec![0; 16] },
    }
}

pub fn tileset(s: &mut Src<'_>, o: &Opts) -> TilesetM {
    let flags = if s.chance(60) { s.u32b() } else { s.below(64) as u32 };
    TilesetM {
        id: s.u32b(),
        flags,
        n: s.u32b(),
        w: s.u16b(),
        h: s.u16b(),
        base: s.i16b(),
        reserved: s.arr(),
        name: text(s, o),
        ext: if flags & 1 != 0 { [s.u32b(), s.u32b()] } else { [0; 2] },
        data: if flags & 2 != 0 { s.bytes(400) } else { vec![] },
    }
}

/// A chunk no object depends on.
pub fn aux(s: &mut Src<'_>, o: &Opts) -> Body {
    match s.weighted(&[2, 2, 2, 2, 2, 1, 2]) {
        0 => Body::Profile(profile(s)),
        1 => external(s, o),
        2 => Body::Mask(mask(s, o)),
        3 => Body::CelExtra(cel_extra(s)),
        4 => Body::Tileset(tileset(s, o)),
        5 => Body::Path(s.bytes(100)),
        _ => unknown(s),
    }
}

// ----------------------------------------------------------------- user data

pub fn pval(s: &mut Src<'_>, code: u16, depth: usize) -> PVal {
    match code {
        1 => PVal::Bool(s.u8b()),
        2 => PVal::I8(s.u8b() as i8),
        3 => PVal::U8(s.u8b()),
        4 => PVal::I16(s.i16b()),
        5 => PVal::U16(s.u16b()),
        6 => PVal::I32(s.i32b()),
        7 => PVal::U32(s.u32b()),
        8 => PVal::I64(qword(s) as i64),
        9 => PVal::U64(qword(s)),
        10 => PVal::Fixed(s.u32b()),
        11 => PVal::F32(match s.weighted(&[2, 1, 1]) {
            0 => (s.i16b() as f32 / 8.0).to_bits(),
            1 => s.pick(&[0u32, 0x8000_0000, 0x7f80_0000, 0xff80_0000, 0x7fc0_0000, 0x7fa0_0001, 1]),
            _ => s.u32(),
        }),
        12 => PVal::F64(match s.weighted(&[2, 1, 1]) {
            0 => (f64::from(s.i16b()) / 8.0).to_bits(),
            1 => s.pick(&[0u64, 1 << 63, 0x7ff0 << 48, 0xfff0 << 48, 0x7ff8 << 48, (0x7ff0 << 48) | 1]),
            _ => s.raw(8),
        }),
        13 => PVal::Str(if s.chance(30) { s.string() } else { s.short_string() }),
        14 => PVal::Point([s.i32b(), s.i32b()]),
        15 => PVal::Size([s.i32b(), s.i32b()]),
        16 => PVal::Rect([s.i32b(), s.i32b(), s.i32b(), s.i32b()]),
        17 => {
            let t = match s.weighted(&[2, 5]) {
                0 => 0,
                _ => code_for(s, depth + 1),
            };
            let n = few(s, if depth < 2 { 10 } else { 3 }, depth);
            PVal::Vector(
                t,
                (0..n)
                    .map(|_| {
                        let c = if t == 0 { code_for(s, depth + 1) } else { t };
                        pval(s, c, depth + 1)
                    })
                    .collect(),
            )
        }
        18 => PVal::Map(props(s, depth + 1)),
        _ => {
            let a: [u8; 16] = std::array::from_fn(|_| s.byte());
            PVal::Uuid(a)
        }
    }
}

fn qword(s: &mut Src<'_>) -> u64 {
    match s.weighted(&[1, 1, 2]) {
        0 => s.u32b().into(),
        1 => s.pick(&[u64::MAX, 1 << 63, (1 << 63) - 1, 1 << 32, (1 << 32) - 1]),
        _ => s.raw(8),
    }
}

const DEEPEST: usize = 8;

fn code_for(s: &mut Src<'_>, depth: usize) -> u16 {
    let c = 1 + s.below(19) as u16;
    // bound the nesting
    if depth >= DEEPEST && (c == 17 || c == 18) {
        3
    } else {
        c
    }
}

/// A length; only the outermost level may be long, or the whole explodes.
fn few(s: &mut Src<'_>, max: usize, depth: usize) -> usize {
    let factor = if depth == 0 { s.grow.counts.div_ceil(5) } else { 1 };
    s.len_by(max, factor)
}

/// Containers in each other, `left` levels, with a few values beside them.
pub fn chain(s: &mut Src<'_>, depth: usize, left: usize) -> PVal {
    if left == 0 {
        let c = 1 + s.below(16) as u16;
        return pval(s, c, depth);
    }
    let scalar = |s: &mut Src<'_>| {
        let c = 1 + s.below(13) as u16;
        pval(s, c, depth)
    };
    let inner = chain(s, depth + 1, left - 1);
    let code = match &inner {
        PVal::Vector(..) => 17,
        PVal::Map(_) => 18,
        _ => 0,
    };
    let (before, after) = (s.below(40).saturating_sub(37), s.below(40).saturating_sub(37));
    match s.below(3) {
        0 => {
            // a map
            let mut v: Vec<(String, PVal)> = vec![];
            for _ in 0..before {
                v.push((s.pick(&["", "p", "q"]).into(), scalar(s)));
            }
            v.push((s.pick(&["k", "", "deeper"]).into(), inner));
            for _ in 0..after {
                v.push((s.pick(&["", "p", "q"]).into(), scalar(s)));
            }
            PVal::Map(v)
        }
        1 if code != 0 => {
            // uniform
            let mut v = vec![];
            for _ in 0..before {
                v.push(if code == 17 { PVal::Vector(3, vec![PVal::U8(s.byte())]) } else { PVal::Map(vec![]) });
            }
            v.push(inner);
            for _ in 0..after {
                v.push(if code == 17 { PVal::Vector(0, vec![]) } else { PVal::Map(vec![("x".into(), PVal::U8(1))]) });
            }
            PVal::Vector(code, v)
        }
        _ => {
            let mut v = vec![];
            for _ in 0..before {
                v.push(scalar(s));
            }
            v.push(inner);
            for _ in 0..after {
                v.push(scalar(s));
            }
            PVal::Vector(0, v)
        }
    }
}

pub fn props(s: &mut Src<'_>, depth: usize) -> Vec<(String, PVal)> {
    if depth == 0 && s.grow.deep && s.below(3) == 0 {
        let left = s.below(56);
        return vec![("chain".into(), chain(s, 0, left)), ("z".into(), PVal::U8(9))];
    }
    let n = few(s, if depth < 2 { 6 } else { 2 }, depth);
    (0..n)
        .map(|_| {
            let name = if s.chance(10) { s.string() } else { s.short_string() };
            let c = code_for(s, depth);
            (name, pval(s, c, depth))
        })
        .collect()
}

pub fn pmaps(s: &mut Src<'_>) -> Vec<PMap> {
    let n = few(s, 4, 0);
    (0..n).map(|_| PMap { key: s.u32b(), props: props(s, 0) }).collect()
}

pub fn user(s: &mut Src<'_>, o: &Opts) -> UserM {
    let mut flags = s.below(4) as u32;
    if s.chance(o.props) {
        flags |= 4;
    }
    if s.chance(20) {
        flags |= s.u32b() & !7;
    }
    UserM {
        flags,
        text: if flags & 1 != 0 { text(s, o) } else { String::new() },
        color: if flags & 2 != 0 { std::array::from_fn(|_| s.byte()) } else { [0; 4] },
        props: if flags & 4 != 0 { Props::Maps(pmaps(s)) } else { Props::Maps(vec![]) },
    }
}

// ---------------------------------------------------------------- documents

/// A chunk and the user data that follows it.
type Unit = Vec<ChunkM>;

fn unit(s: &mut Src<'_>, o: &Opts, body: Body) -> Unit {
    let runs = match &body {
        Body::Tags(_, t) => {
            if s.chance(o.user) {
                s.below(t.len() + 2)
            } else {
                0
            }
        }
        _ => {
            if s.chance(o.user) {
                if s.chance(20) {
                    2
                } else {
                    1
                }
            } else {
                0
            }
        }
    };
    let is_cel = matches!(body, Body::Cel(_));
    let mut v: Unit = vec![body.into()];
    // the extra chunk of a cel stands between the cel and its user data
    if is_cel && s.chance(o.aux / 4) {
        v.push(Body::CelExtra(cel_extra(s)).into());
    }
    for _ in 0..runs {
        v.push(Body::User(user(s, o)).into());
    }
    for c in &mut v {
        if !c.body.open_ended() && s.chance(o.surplus) {
            c.tail = if s.bool() { more_of(s, &c.body) } else { junk(s, 12) };
        }
    }
    v
}

/// Bytes that mean nothing where they stand, some with a look of meaning.
pub fn junk(s: &mut Src<'_>, max: usize) -> Vec<u8> {
    let mut v: Vec<u8> = match s.weighted(&[8, 1, 1, 1, 1, 1]) {
        0 => return s.bytes(max),
        1 => vec![0xfa, 0xf1],
        2 => vec![0xe0, 0xa5],
        // a frame without chunks
        3 => vec![16, 0, 0, 0, 0xfa, 0xf1, 0, 0, 100, 0, 0, 0, 0, 0, 0, 0],
        // a user data chunk
        4 => vec![10, 0, 0, 0, 0x20, 0x20, 1, 0, 0, 0],
        _ => {
            let n = 1 + s.below(max);
            return vec![s.pick(&[0u8, 0xff, 0x20]); n];
        }
    };
    if s.bool() {
        v.extend(s.bytes(max));
    }
    v
}

/// What could pass for more of this record: one more element of its list, a
/// part that it may have and does not have.
pub fn more_of(s: &mut Src<'_>, b: &Body) -> Vec<u8> {
    let mut more = b.clone();
    let mut v = vec![];
    match &mut more {
        Body::Pal4(p) | Body::Pal11(p) => {
            let mut last = p.last().cloned().unwrap_or(Packet { skip: 0, colors: vec![[1, 2, 3]] });
            last.skip = s.pick(&[0, 0, last.skip, 1]);
            p.push(last);
        }
        Body::External(_, f) => {
            let mut last =
                f.last().cloned().unwrap_or(ExtM { id: 0, kind: 0, reserved: [0; 7], name: "more".into() });
            last.id = last.id.wrapping_add(s.pick(&[0, 1, 1]));
            f.push(last);
        }
        Body::Tags(_, t) => {
            let mut last = t.last().cloned().unwrap_or_else(|| tag(s, &Opts::default()));
            if s.bool() {
                last.from = last.to.wrapping_add(1);
                last.to = last.from;
            }
            t.push(last);
        }
        Body::Palette(p) => {
            let last = p.entries.last().cloned();
            p.entries.push(last.unwrap_or(EntryM { flags: 0, color: [1, 2, 3, 255], name: String::new() }));
        }
        Body::Slice(c) => {
            let mut last = c.keys.last().cloned().unwrap_or(KeyM {
                frame: 0,
                x: 0,
                y: 0,
                w: 1,
                h: 1,
                nine: (0, 0, 1, 1),
                pivot: (0, 0),
            });
            last.frame = last.frame.wrapping_add(s.pick(&[0, 1, 1, 2]));
            c.keys.push(last);
        }
        Body::Layer(l) => {
            if l.kind != 2 && s.bool() {
                v.extend(s.pick(&[0u32, 1, 2]).to_le_bytes());
            }
            if v.is_empty() || s.bool() {
                // the identifier of newer versions
                let id: [u8; 16] = std::array::from_fn(|_| s.byte());
                v.extend(id);
            }
        }
        Body::Cel(_) => {
            // behind a link: a size and pixels, or another link
            if s.bool() {
                v.extend([1, 0, 1, 0]);
                v.extend(s.bytes(8));
            } else {
                v.extend([s.pick(&[0u8, 1, 2]), 0]);
            }
        }
        Body::Profile(_) => {
            let d = s.bytes(8);
            v.extend((d.len() as u32).to_le_bytes());
            v.extend(d);
        }
        Body::User(u) => {
            let other = UserM {
                flags: if u.flags & 7 == 7 { 7 } else { !u.flags & 7 },
                text: "more".into(),
                color: [1, 2, 3, 255],
                props: Props::Maps(vec![PMap { key: 0, props: vec![("more".into(), PVal::Bool(1))] }]),
            };
            let e = crate::encode::body_bytes(&Body::User(other));
            // without the flags
            v.extend(&e[4..]);
        }
        Body::Tileset(t) => {
            if t.flags & 1 == 0 {
                v.extend([1, 0, 0, 0, 0, 0, 0, 0]);
            }
            if v.is_empty() || s.bool() {
                let d = s.bytes(8);
                v.extend((d.len() as u32).to_le_bytes());
                v.extend(d);
            }
        }
        Body::CelExtra(_) | Body::Mask(_) | Body::Path(_) | Body::Unknown(..) => return v,
    }
    let n = crate::encode::body_bytes(b).len();
    v.extend(&crate::encode::body_bytes(&more)[n..]);
    match s.below(10) {
        0 => v.extend_from_within(..),
        1 => v.truncate(v.len().saturating_sub(1)),
        2 => v.extend(s.bytes(4)),
        _ => {}
    }
    v
}

/// A well-formed document.
pub fn doc(s: &mut Src<'_>, o: &Opts) -> Doc {
    let head = head(s, o);
    let g = s.grow;
    let nf = 1 + s.len_by(o.max_frames - 1, g.frames);
    let nl = match (g.deep, g.layers) {
        (true, _) => s.below(700 / nf.min(100)),
        (_, 1) => s.len_by(o.max_layers, 1),
        // at most 20000 places for cels
        (_, n) => s.below_or_literal((o.max_layers * n).min(20_000 / nf) + 1),
    };
    // but not that many cels
    let thin = |chance: u8| (usize::from(chance) * 800 / (nl * nf).max(800)) as u8;
    let o = &Opts { cel: thin(o.cel).max(1), link: thin(o.link).max(1), ..o.clone() };
    // more chunks of these kinds
    let more = |chance: u8| if g.counts > 1 && chance > 60 { (255 - 300 / g.counts.max(2)) as u8 } else { chance };
    let o = &Opts { tags: more(o.tags), slices: more(o.slices), aux: more(o.aux), ..o.clone() };
    let tree = layer_tree(s, o, nl);
    let mut frames: Vec<Vec<Unit>> = vec![vec![]; nf];
    let late = s.chance(o.shuffle / 2);

    // palette chunks: an indexed sprite has at least one colour
    if head.depth == 8 || s.chance(100) {
        let mut p = any_palette(s, o);
        let empty = match &p {
            Body::Pal4(v) | Body::Pal11(v) => v.is_empty(),
            _ => false,
        };
        if empty {
            p = Body::Palette(palette(s, o));
        }
        frames[0].push(unit(s, o, p));
        while s.chance(50) {
            // more of the same kind or of another: the kinds must not leave
            // the sprite with an empty palette, so old ones carry colours
            let f = if s.chance(100) { s.below(nf) } else { 0 };
            let p = match s.weighted(&[3, 2, 2]) {
                0 => Body::Palette(palette(s, o)),
                1 => Body::Pal4(packets(s, 8, true)),
                _ => Body::Pal11(packets(s, 6, true)),
            };
            frames[f].push(unit(s, o, p));
        }
    }
    let mut layer_frames = vec![];
    let mut at = 0;
    for (kind, level) in &tree {
        if late && s.chance(40) {
            at = s.range(at as i64, nf as i64 - 1) as usize;
        }
        let l = layer(s, o, *kind, *level);
        let u = unit(s, o, Body::Layer(l));
        frames[at].push(u);
        layer_frames.push(at);
    }
    // which (frame, layer) has an image; the others may link to one
    let mut has = vec![vec![false; nl]; nf];
    let mut cels: Vec<Vec<Option<Body>>> = vec![vec![None; nl]; nf];
    for f in 0..nf {
        for l in 0..nl {
            let kind = tree[l].0;
            let odd = o.odd_cels && (kind == 2 && s.chance(200) || s.chance(20));
            let p = match kind {
                0 => o.cel,
                1 => o.cel / 8,
                _ => o.cel / 3,
            };
            if !s.chance(p) {
                continue;
            }
            let content = if odd {
                if s.chance(100) {
                    Content::Unknown { kind: s.u16b().max(4), data: s.bytes(60) }
                } else {
                    Content::Tilemap(tilemap(s))
                }
            } else {
                has[f][l] = true;
                image(s, o, head.depth)
            };
            let c = cel(s, o, l as u16, content);
            cels[f][l] = Some(Body::Cel(c));
        }
    }
    for l in 0..nl {
        let holders: Vec<usize> = (0..nf).filter(|f| has[*f][l]).collect();
        for (f, row) in cels.iter_mut().enumerate() {
            if row[l].is_none() && !holders.is_empty() && s.chance(o.link) {
                let t = s.pick(&holders);
                debug_assert!(t != f);
                let c = cel(s, o, l as u16, Content::Linked { frame: t as u16 });
                row[l] = Some(Body::Cel(c));
            }
        }
    }
    for (f, row) in cels.into_iter().enumerate() {
        for b in row.into_iter().flatten() {
            let u = unit(s, o, b);
            frames[f].push(u);
        }
    }
    let any_frame = |s: &mut Src<'_>| if s.chance(60) { s.below(nf) } else { 0 };
    while s.chance(o.tags) {
        let f = any_frame(s);
        let b = tags(s, o, 8);
        let u = unit(s, o, b);
        frames[f].push(u);
    }
    while s.chance(o.slices) {
        let f = any_frame(s);
        let b = Body::Slice(slice(s, o, 6));
        let u = unit(s, o, b);
        frames[f].push(u);
    }
    while s.chance(o.aux) {
        let f = any_frame(s);
        let b = aux(s, o);
        let u = unit(s, o, b);
        let at = s.below(frames[f].len() + 1);
        frames[f].insert(at, u);
    }
    if s.chance(o.user / 4) {
        // user data that follows nothing
        let f = any_frame(s);
        let u: Unit = vec![Body::User(user(s, o)).into()];
        frames[f].insert(0, u);
    }
    let durations: Vec<u16> = (0..nf).map(|_| if s.chance(128) { s.u16b() } else { 100 }).collect();
    let mut out = vec![];
    for (f, mut units) in frames.into_iter().enumerate() {
        if s.chance(o.shuffle) {
            shuffle_units(s, &mut units);
        }
        let mut chunks: Vec<ChunkM> = vec![];
        for u in units {
            // a lone extra chunk right behind a cel would be taken for the cel's own
            let lone = matches!(u[0].body, Body::CelExtra(_)) || matches!(u[0].body, Body::User(_));
            if lone && !chunks.is_empty() {
                chunks.push(Body::Path(vec![]).into());
            }
            chunks.extend(u);
        }
        let mut fr = FrameM::new(durations[f], chunks);
        if s.chance(90) {
            fr.recount(s.below(4) as u8);
        }
        if o.reserved && s.chance(30) {
            fr.reserved = s.arr();
        }
        if s.chance(o.surplus) {
            fr.tail = junk(s, 12);
        }
        out.push(fr);
    }
    Doc { head, frames: out }
}

/// Shuffle the units of a frame, keeping the layers in order.
fn shuffle_units(s: &mut Src<'_>, units: &mut Vec<Unit>) {
    let mut b = s.bulk();
    let is_layer = |u: &Unit| matches!(u[0].body, Body::Layer(_));
    let layers: Vec<Unit> = units.iter().filter(|u| is_layer(u)).cloned().collect();
    for i in (1..units.len()).rev() {
        let j = b.below(i as u64 + 1) as usize;
        units.swap(i, j);
    }
    let mut it = layers.into_iter();
    for u in units.iter_mut() {
        if is_layer(u) {
            *u = it.next().unwrap();
        }
    }
}

/// What `picture` makes.
#[derive(Clone)]
pub struct Pic {
    pub depths: &'static [u16],
    pub layers: usize,
    pub frames: usize,
    /// largest canvas side
    pub canvas: usize,
    /// chance (of 256) that a cel without an image links to one
    pub link: u8,
    /// layers of types that the loader does not report
    pub odd_layers: bool,
    pub background: bool,
}

impl Default for Pic {
    fn default() -> Self {
        Pic {
            depths: &[32, 32, 32, 16, 8],
            layers: 6,
            frames: 3,
            canvas: 6,
            link: 128,
            odd_layers: true,
            background: true,
        }
    }
}

/// A document that is all picture: overlapping cels on most layers, few
/// choices per cel, nothing else.
pub fn picture(s: &mut Src<'_>, p: &Pic) -> Doc {
    let depth = s.pick(p.depths);
    let g = s.grow;
    let (mut nl, mut nf) = (0, 0);
    let (w, h) = if g.any() {
        nl = 1 + s.below_or_literal((p.layers * g.layers).min(1000));
        nf = 1 + s.below_or_literal((p.frames * g.frames).min(4000 / nl + 1));
        // what all cels together may come to
        let room = 300_000 / (nl * nf);
        match (g.bytes, s.below(3)) {
            (1, _) => (1 + s.below(p.canvas.min(room.isqrt()).max(1)), 1 + s.below(p.canvas.min(room.isqrt()).max(1))),
            (_, 0) => {
                let a = 1 + s.below(room.clamp(1, 65_535));
                let b = 1 + s.below((room / a).clamp(1, 65_535));
                if s.bool() {
                    (a, b)
                } else {
                    (b, a)
                }
            }
            _ => (1 + s.below(room.isqrt().max(1)), 1 + s.below(room.isqrt().max(1))),
        }
    } else {
        let (mut w, mut h) = (1 + s.below(p.canvas) as u16, 1 + s.below(p.canvas) as u16);
        one_side(s, &mut w, &mut h);
        (usize::from(w.max(1)), usize::from(h.max(1)))
    };
    let mut head = Head { depth, width: w as u16, height: h as u16, ..Head::default() };
    if s.chance(20) {
        head.flags = s.u32b();
    }
    let o = Opts { long: false, reserved: false, odd_layers: p.odd_layers, ..Opts::default() };
    let mut first: Vec<ChunkM> = vec![];
    let mut colours = 256;
    if depth == 8 {
        head.transparent = s.u8b();
        let mut pal = palette(s, &o);
        if s.bool() {
            pal.first = 0;
            pal.last = pal.entries.len() as u32 - 1;
        }
        colours = pal.last as usize + 1;
        first.push(Body::Palette(pal).into());
    }
    if !g.any() {
        nl = 1 + s.below(p.layers);
        nf = 1 + s.below(p.frames);
    }
    let flat = s.bool() && !g.deep;
    let tree = if flat { vec![(0, 0); nl] } else { layer_tree(s, &o, nl) };
    let plain = s.chance(60);
    for (i, (kind, level)) in tree.iter().enumerate() {
        let flags = match s.weighted(&[6, 2, 1]) {
            0 => 3,
            1 => 2,
            _ => s.u16b() & 0x7f,
        };
        let flags = if p.background { flags } else { flags & !8 };
        first.push(
            Body::Layer(LayerM {
                flags,
                kind: *kind,
                level: *level,
                dw: 0,
                dh: 0,
                blend: if plain || s.chance(100) { 0 } else { s.below(19) as u16 },
                opacity: if s.chance(100) { s.u8b() } else { 255 },
                reserved: [0; 3],
                name: format!("{}", i % 5),
                tileset: 0,
            })
            .into(),
        );
    }
    let mut has = vec![vec![false; nl]; nf];
    let mut cels: Vec<Vec<Option<CelM>>> = vec![vec![None; nl]; nf];
    for f in 0..nf {
        for l in 0..nl {
            if s.chance(if f == 0 { 40 } else { 150 }) {
                continue;
            }
            has[f][l] = true;
            let side = |s: &mut Src<'_>, c: usize| match s.weighted(&[6, 3, 1]) {
                0 => c,
                1 => 1 + s.below(c + 2),
                _ => s.pick(&[0usize, 1, 20]),
            };
            let (cw, ch) = (side(s, w), side(s, h));
            let mut data = pixels(s, cw * ch * usize::from(depth / 8), depth);
            if depth == 8 && s.chance(200) {
                data.iter_mut().for_each(|v| *v = (usize::from(*v) % colours) as u8);
            }
            let (w, h) = (cw as u16, ch as u16);
            let content = if s.chance(40) {
                Content::Zip { w, h, data: zip(s, &data).0 }
            } else {
                Content::Raw { w, h, data }
            };
            cels[f][l] = Some(picture_cel(s, l, w, h, content));
        }
    }
    for l in 0..nl {
        let holders: Vec<usize> = (0..nf).filter(|f| has[*f][l]).collect();
        for row in cels.iter_mut() {
            if row[l].is_none() && !holders.is_empty() && s.chance(p.link) {
                let t = s.pick(&holders);
                row[l] = Some(picture_cel(s, l, w as u16, h as u16, Content::Linked { frame: t as u16 }));
            }
        }
    }
    let mut frames = vec![];
    for (f, row) in cels.into_iter().enumerate() {
        let mut chunks = if f == 0 { std::mem::take(&mut first) } else { vec![] };
        let mut cs: Vec<CelM> = row.into_iter().flatten().collect();
        if s.chance(60) {
            let mut b = s.bulk();
            for i in (1..cs.len()).rev() {
                cs.swap(i, b.below(i as u64 + 1) as usize);
            }
        }
        chunks.extend(cs.into_iter().map(|c| Body::Cel(c).into()));
        frames.push(FrameM::new(100, chunks));
    }
    Doc { head, frames }
}

fn picture_cel(s: &mut Src<'_>, l: usize, w: u16, h: u16, content: Content) -> CelM {
    let near = |s: &mut Src<'_>, n: u16| match s.weighted(&[6, 4, 1]) {
        0 => 0,
        1 => s.range(-i64::from(n), i64::from(n)) as i16,
        _ => s.i16b(),
    };
    CelM {
        layer: l as u16,
        x: near(s, w),
        y: near(s, h),
        opacity: if s.chance(80) { s.u8b() } else { 255 },
        z: z_index(s),
        reserved: [0; 5],
        content,
    }
}
