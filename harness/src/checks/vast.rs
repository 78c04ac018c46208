//! Documents in which one thing is enormous: counts beyond 16 bits, payloads
//! of megabytes. Every element is told apart by its content.

use super::parse::simple_layer;
use crate::model::*;
use crate::runner::Ctx;
use crate::src::{Bulk, Src};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Dim {
    Layers,
    Frames,
    Tags,
    Slices,
    Keys,
    Maps,
    Values,
    Users,
    Unknown,
    Payload,
    Palettes,
    Aux,
    Chunks,
}

use Dim::{Aux, Chunks, Frames, Keys, Layers, Maps, Palettes, Payload, Slices, Tags, Unknown, Users, Values};
pub const ALL: [Dim; 13] =
    [Layers, Frames, Tags, Slices, Keys, Maps, Values, Users, Unknown, Payload, Palettes, Aux, Chunks];

/// A number of elements, up to `max`.
pub fn count(s: &mut Src<'_>, max: usize) -> usize {
    let n = match s.weighted(&[3, 2, 2, 3]) {
        0 => 65_537 + s.below(6_000),
        1 => s.pick(&[1_024usize, 4_096, 10_000, 16_384, 32_768, 65_535, 65_536, 131_072]) + s.below(3),
        2 => s.literal(max).unwrap_or(0).max(1_000) + s.below(2),
        _ => 1_000 + s.below(max),
    };
    n.clamp(1, max)
}

/// A length in bytes, beyond 2^20 and as often as not beyond 2^24.
pub fn bytes(s: &mut Src<'_>) -> usize {
    match s.weighted(&[3, 2, 3, 2]) {
        0 => (1 << 24) + s.below(70_000),
        1 => (1 << (20 + s.below(6))) + s.below(16),
        2 => (1 << 20) + s.below(1 << 22),
        _ => (1 << 20) + s.below(34 << 20),
    }
}

pub fn noise(b: &mut Bulk, n: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(n + 8);
    while v.len() < n {
        v.extend(b.next().to_le_bytes());
    }
    v.truncate(n);
    v
}

fn cel(b: &mut Bulk, layer: usize, content: Content) -> CelM {
    CelM {
        layer: layer.min(65_535) as u16,
        x: b.next() as i16 % 6,
        y: b.next() as i16 % 6,
        opacity: b.byte(),
        z: b.below(5) as i16 - 2,
        reserved: [0; 5],
        content,
    }
}

fn pixel(b: &mut Bulk) -> Content {
    Content::Raw { w: 1, h: 1, data: noise(b, 4) }
}

fn tag(b: &mut Bulk, i: usize) -> TagM {
    let (x, y) = (b.next() as u16, b.next() as u16);
    TagM {
        from: x.min(y),
        to: x.max(y),
        dir: b.below(5) as u8,
        repeat: b.next() as u16,
        reserved: [0; 6],
        color: [b.byte(), b.byte(), b.byte()],
        extra: b.byte(),
        name: format!("t{i}"),
    }
}

fn key(b: &mut Bulk, flags: u32) -> KeyM {
    KeyM {
        frame: b.next() as u32,
        x: b.next() as i32,
        y: b.next() as i32,
        w: b.next() as u32,
        h: b.next() as u32,
        nine: if flags & 1 != 0 {
            (b.next() as i32, b.next() as i32, b.next() as u32, b.next() as u32)
        } else {
            (0, 0, 0, 0)
        },
        pivot: if flags & 2 != 0 { (b.next() as i32, b.next() as i32) } else { (0, 0) },
    }
}

fn slice(b: &mut Bulk, i: usize) -> SliceM {
    let flags = b.below(4) as u32;
    let keys = (0..b.below(3)).map(|_| key(b, flags)).collect();
    SliceM { flags, reserved: 0, name: format!("s{i}"), keys }
}

fn user(b: &mut Bulk, i: usize) -> ChunkM {
    let flags = 1 + b.below(3) as u32;
    let text = if flags & 1 != 0 { format!("u{i}") } else { String::new() };
    let color = if flags & 2 != 0 { [b.byte(), b.byte(), b.byte(), b.byte()] } else { [0; 4] };
    Body::User(UserM { flags, text, color, props: Props::Maps(vec![]) }).into()
}

fn layer(b: &mut Bulk, i: usize) -> LayerM {
    let mut l = simple_layer(&format!("L{i}"));
    l.opacity = b.byte();
    l.flags = (b.byte() & 0x77).into();
    l.blend = b.below(19) as u16;
    l
}

fn unknown(b: &mut Bulk) -> ChunkM {
    let code = [0x2021u16, 0x2999, 0x0001, 0xffff, 0x2000][b.below(5) as usize];
    let n = b.below(4) as usize;
    Body::Unknown(code, noise(b, n)).into()
}

/// A few layers and cels, a tag and a slice, some user data.
fn base(s: &mut Src<'_>, b: &mut Bulk) -> Vec<ChunkM> {
    let mut k: Vec<ChunkM> = vec![];
    let n = 1 + s.below(3);
    for i in 0..n {
        k.push(Body::Layer(layer(b, i)).into());
        if s.bool() {
            k.push(user(b, i));
        }
    }
    for i in 0..n {
        if s.bool() {
            let c = pixel(b);
            k.push(Body::Cel(cel(b, i, c)).into());
        }
    }
    if s.bool() {
        k.push(Body::Tags([0; 8], vec![tag(b, 0)]).into());
    }
    if s.bool() {
        k.push(Body::Slice(slice(b, 0)).into());
    }
    k
}

/// Behind which chunks something else may be put without changing to what
/// user data belongs.
fn gap(k: &[ChunkM], b: &mut Bulk) -> usize {
    loop {
        let at = b.below(k.len() as u64 + 1) as usize;
        if !matches!(k.get(at).map(|c| &c.body), Some(Body::User(_) | Body::CelExtra(_))) {
            return at;
        }
    }
}

/// One value or map with `n` values.
pub fn values(s: &mut Src<'_>, b: &mut Bulk, n: usize) -> Vec<(String, PVal)> {
    match s.below(6) {
        0 => vec![("v".into(), PVal::Vector(3, noise(b, n).into_iter().map(PVal::U8).collect()))],
        1 => vec![("v".into(), PVal::Vector(0, (0..n).map(|_| PVal::U16(b.next() as u16)).collect()))],
        2 => vec![("m".into(), PVal::Map((0..n).map(|i| (format!("{i}"), PVal::U32(b.next() as u32))).collect()))],
        3 => vec![(
            "x".into(),
            PVal::Vector(18, (0..n / 4).map(|i| PVal::Map(vec![(format!("{i}"), PVal::U8(b.byte()))])).collect()),
        )],
        4 => vec![(
            "y".into(),
            PVal::Vector(17, (0..n / 4).map(|_| PVal::Vector(2, vec![PVal::I8(b.byte() as i8)])).collect()),
        )],
        _ => (0..n).map(|i| (format!("{i}"), PVal::Fixed(b.next() as u32))).collect(),
    }
}

pub fn maps(s: &mut Src<'_>, b: &mut Bulk, n: usize) -> Vec<PMap> {
    let _ = s;
    (0..n)
        .map(|i| PMap {
            key: b.next() as u32,
            props: (0..b.below(2)).map(|_| (format!("p{i}"), PVal::U32(b.next() as u32))).collect(),
        })
        .collect()
}

fn props(maps: Vec<PMap>) -> ChunkM {
    Body::User(UserM { flags: 4, text: String::new(), color: [0; 4], props: Props::Maps(maps) }).into()
}

fn aux(b: &mut Bulk, i: usize) -> Body {
    match b.below(5) {
        0 => Body::Mask(MaskM {
            x: b.next() as i16,
            y: b.next() as i16,
            w: b.next() as u16,
            h: b.next() as u16,
            reserved: [0; 8],
            name: format!("m{i}"),
            data: noise(b, i % 5),
        }),
        1 => Body::External(
            [0; 8],
            (0..b.below(3))
                .map(|_| ExtM { id: b.next() as u32, kind: b.below(5) as u8, reserved: [0; 7], name: format!("e{i}") })
                .collect(),
        ),
        2 => Body::Profile(ProfileM {
            kind: 2,
            flags: b.next() as u16 & 1,
            gamma: b.next() as u32,
            reserved: [0; 8],
            icc: noise(b, i % 7),
        }),
        3 => Body::Pal4(vec![Packet { skip: b.byte(), colors: vec![[b.byte(), b.byte(), b.byte()]] }]),
        _ => Body::Tileset(TilesetM {
            id: b.next() as u32,
            flags: 2,
            n: b.next() as u32,
            w: b.next() as u16,
            h: b.next() as u16,
            base: b.next() as i16,
            reserved: [0; 14],
            name: format!("ts{i}"),
            ext: [0; 2],
            data: noise(b, i % 6),
        }),
    }
}

/// A record (or what surrounds it) with a payload of `n` bytes.
fn payload(s: &mut Src<'_>, b: &mut Bulk, n: usize, loads: bool) -> ChunkM {
    let data = noise(b, n);
    let body = match s.below(if loads { 8 } else { 9 }) {
        0 => Body::Unknown(0x2999, data),
        1 => Body::Path(data),
        2 => Body::Mask(MaskM { x: 0, y: 0, w: 4096, h: 4096, reserved: [0; 8], name: "m".into(), data }),
        3 => Body::Profile(ProfileM { kind: 2, flags: 0, gamma: 0, reserved: [0; 8], icc: data }),
        4 => Body::Tileset(TilesetM {
            id: 1,
            flags: 2,
            n: 3,
            w: 16,
            h: 16,
            base: 1,
            reserved: [0; 14],
            name: "ts".into(),
            ext: [0; 2],
            data,
        }),
        5 => Body::Cel(cel(b, 0, Content::Raw { w: 2048, h: (n / 8192) as u16, data })),
        6 => Body::Cel(cel(b, 0, Content::Zip { w: 2048, h: (n / 8192) as u16, data })),
        7 => {
            let tail = data;
            let body = Body::Tags([0; 8], vec![tag(b, 7)]);
            return ChunkM { body, tail };
        }
        _ => Body::Cel(cel(
            b,
            0,
            Content::Tilemap(TilemapM {
                w: 2048,
                h: 2048,
                bits: 32,
                id: 1,
                xf: 2,
                yf: 3,
                df: 4,
                reserved: [0; 10],
                data,
            }),
        )),
    };
    body.into()
}

/// As many frames, images and links as may be.
fn frames(s: &mut Src<'_>, b: &mut Bulk, d: &mut Doc) {
    let n = count(s, 140_000);
    let nl = 1 + s.below(2);
    let density = s.pick(&[1u64, 2, 2, 40, 4_000]);
    // what the others link to: anywhere that a link can reach
    let homes: Vec<Vec<usize>> = (0..nl)
        .map(|_| (0..n).filter(|i| *i == 0 || b.below(density) == 0 || *i + 3 > n.min(65_536)).collect())
        .collect();
    let reach: Vec<usize> = homes.iter().map(|h| h.partition_point(|i| *i < 65_536)).collect();
    let mut at = vec![0; nl];
    for i in 0..n {
        let mut k: Vec<ChunkM> = vec![];
        if i == 0 {
            k.extend((0..nl).map(|l| ChunkM::from(Body::Layer(layer(b, l)))));
        }
        for l in 0..nl {
            let content = if homes[l].get(at[l]) == Some(&i) {
                at[l] += 1;
                // compressed or not does not matter where nobody decodes
                pixel(b)
            } else if b.below(8) > 0 {
                let h = match b.below(3) {
                    0 => reach[l] - 1 - b.below(reach[l].min(3) as u64) as usize,
                    _ => b.below(reach[l] as u64) as usize,
                };
                Content::Linked { frame: homes[l][h] as u16 }
            } else {
                continue;
            };
            k.push(Body::Cel(cel(b, l, content)).into());
            if b.below(300) == 0 {
                k.push(user(b, i));
            }
        }
        match b.below(3_000) {
            0 => k.push(Body::Tags([0; 8], vec![tag(b, i)]).into()),
            1 => k.push(Body::Slice(slice(b, i)).into()),
            2 => k.push(unknown(b)),
            _ => {}
        }
        d.frames.push(FrameM::new(b.next() as u16, k));
    }
}

/// A document that is enormous in one of these ways; it loads unless `loads`
/// is false.
pub fn doc(s: &mut Src<'_>, ctx: &mut Ctx, dims: &[Dim], loads: bool) -> Doc {
    let dim = s.pick(dims);
    let mut b = s.bulk();
    let b = &mut b;
    let mut d = Doc { head: Head { width: 4, height: 4, ..Head::default() }, frames: vec![] };
    let mut k = if matches!(dim, Layers | Frames) { vec![] } else { base(s, b) };
    let label = match dim {
        Layers => {
            let n = count(s, 140_000);
            let (mut group, mut level) = (false, 0u16);
            for i in 0..n {
                let mut l = layer(b, i);
                let top = level + u16::from(group);
                l.level = if b.below(4) == 0 { b.below(u64::from(top) + 1) as u16 } else { top.min(6) };
                (group, level) = (b.below(9) == 0, l.level);
                l.kind = match b.below(30) {
                    _ if group => 1,
                    0 => 2,
                    1 => 7,
                    _ => 0,
                };
                k.push(Body::Layer(l).into());
            }
            for f in 0..1 + s.below(3) {
                let mut used = std::collections::HashSet::new();
                for _ in 0..1 + b.below(200) {
                    let l = match b.below(3) {
                        0 => n - 1 - b.below(n.min(3) as u64) as usize,
                        1 => (1usize << b.below(17)).min(n - 1),
                        _ => b.below(n as u64) as usize,
                    }
                    .min(65_535);
                    if used.insert(l) {
                        let c = pixel(b);
                        k.push(Body::Cel(cel(b, l, c)).into());
                    }
                }
                d.frames.push(FrameM::new(f as u16, std::mem::take(&mut k)));
            }
            "vast: layers"
        }
        Frames => {
            frames(s, b, &mut d);
            "vast: frames"
        }
        Tags => {
            let mut n = count(s, 200_000);
            let per = s.pick(&[65_535usize, 65_535, 40_000, 9_999]);
            let mut chunks: Vec<ChunkM> = vec![];
            while n > 0 {
                let m = n.min(per);
                chunks.push(Body::Tags([0; 8], (0..m).map(|i| tag(b, n - i)).collect()).into());
                n -= m;
            }
            let split = s.below(chunks.len() + 1);
            let rest = chunks.split_off(split);
            k.extend(chunks);
            d.frames.push(FrameM::new(1, std::mem::replace(&mut k, rest)));
            "vast: tags"
        }
        Slices => {
            let n = count(s, 140_000);
            k.extend((0..n).map(|i| ChunkM::from(Body::Slice(slice(b, i)))));
            "vast: slices"
        }
        Keys => {
            let n = count(s, 200_000);
            let mut x = slice(b, 1);
            x.keys = (0..n).map(|_| key(b, x.flags)).collect();
            k.push(Body::Slice(x).into());
            k.push(Body::Slice(slice(b, 2)).into());
            "vast: slice keys"
        }
        Maps => {
            let n = count(s, 140_000);
            let m = maps(s, b, n);
            k.push(Body::Layer(layer(b, 77)).into());
            k.push(props(m));
            k.push(Body::Layer(layer(b, 78)).into());
            "vast: property maps"
        }
        Values => {
            let n = count(s, 300_000);
            let v = values(s, b, n);
            k.push(Body::Layer(layer(b, 77)).into());
            k.push(props(vec![PMap { key: 3, props: v }, PMap { key: 4, props: vec![("e".into(), PVal::U8(9))] }]));
            k.push(Body::Layer(layer(b, 78)).into());
            "vast: properties"
        }
        Users => {
            match s.below(4) {
                0 => {
                    let mut n = count(s, 140_000);
                    while n > 0 {
                        let m = n.min(65_535);
                        k.push(Body::Tags([0; 8], (0..m).map(|i| tag(b, n - i)).collect()).into());
                        let with = if b.below(2) == 0 { m } else { m - b.below(m.min(9) as u64) as usize };
                        k.extend((0..with).map(|i| user(b, n - i)));
                        n -= m;
                    }
                }
                1 => {
                    for i in 0..count(s, 100_000) {
                        k.push(Body::Slice(slice(b, i)).into());
                        if b.below(5) > 0 {
                            k.push(user(b, i));
                        }
                    }
                }
                2 => {
                    for i in 0..count(s, 100_000) {
                        k.push(Body::Layer(layer(b, i)).into());
                        if b.below(5) > 0 {
                            k.push(user(b, i));
                        }
                    }
                }
                _ => {
                    // cels of one frame
                    let old = k.iter().filter(|c| matches!(c.body, Body::Layer(_))).count();
                    let n = count(s, 65_530);
                    k.extend((0..n).map(|i| ChunkM::from(Body::Layer(layer(b, i)))));
                    for i in 0..n {
                        let c = pixel(b);
                        k.push(Body::Cel(cel(b, old + i, c)).into());
                        if b.below(5) > 0 {
                            k.push(user(b, i));
                        }
                    }
                }
            }
            "vast: user data"
        }
        Unknown => {
            sprinkle(s, b, &mut k);
            "vast: unknown chunks"
        }
        Payload => {
            let n = bytes(s);
            let c = payload(s, b, n, loads);
            if let Body::Cel(c) = &c.body {
                // at most one cel per layer
                k.retain(|x| !matches!(&x.body, Body::Cel(x) if x.layer == c.layer));
                let mut cels = 0;
                k.retain(|x| {
                    let stray = matches!(x.body, Body::CelExtra(_));
                    cels += usize::from(stray);
                    !stray
                });
            }
            let at = gap(&k, b);
            let late = matches!(c.body, Body::Cel(_) | Body::Tags(..));
            if late || s.bool() {
                k.push(c);
                k.push(Body::Slice(slice(b, 5)).into());
            } else {
                k.insert(at, c);
            }
            "vast: payload"
        }
        Palettes => {
            let n = count(s, 100_000);
            let old = s.below(3);
            for _ in 0..n {
                let first = b.byte();
                let last = first.saturating_add(b.below(3) as u8);
                let mut e = || EntryM { flags: 0, color: [b.byte(), b.byte(), b.byte(), b.byte()], name: String::new() };
                let c = match old {
                    0 => Body::Pal4(vec![Packet { skip: first, colors: vec![[last, 1, 2]; 1] }]),
                    _ => Body::Palette(PaletteM {
                        size: 256,
                        first: first.into(),
                        last: last.into(),
                        reserved: [0; 8],
                        entries: (first..=last).map(|_| e()).collect(),
                    }),
                };
                k.push(c.into());
            }
            "vast: palette chunks"
        }
        Aux => {
            let n = count(s, 100_000);
            for i in 0..n {
                k.push(aux(b, i).into());
            }
            "vast: auxiliary chunks"
        }
        Chunks => {
            let n = count(s, 400_000);
            k.extend((0..n).map(|_| ChunkM::from(Body::Path(vec![]))));
            k.push(Body::Tags([0; 8], vec![tag(b, 7)]).into());
            "vast: small chunks"
        }
    };
    ctx.label(label);
    if d.frames.is_empty() || !k.is_empty() {
        d.frames.push(FrameM::new(b.next() as u16, k));
    }
    if s.bool() && !matches!(dim, Frames) {
        // and something behind it
        let t = Body::Tags([0; 8], vec![tag(b, 99)]).into();
        d.frames.push(FrameM::new(9, vec![t, Body::Slice(slice(b, 99)).into()]));
    }
    d
}

/// Unknown chunks in great number, at one place or anywhere.
pub fn sprinkle(s: &mut Src<'_>, b: &mut Bulk, k: &mut Vec<ChunkM>) {
    let n = count(s, 140_000);
    if s.bool() {
        let at = gap(k, b);
        let tail = k.split_off(at);
        k.extend((0..n).map(|_| unknown(b)));
        k.extend(tail);
    } else {
        let places = 1 + s.below(5);
        for _ in 0..places {
            let at = gap(k, b);
            let tail = k.split_off(at);
            k.extend((0..n / places).map(|_| unknown(b)));
            k.extend(tail);
        }
    }
}
