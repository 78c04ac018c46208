//! P01 P02 P11 P12: hostile, damaged and decorated input.

use super::*;
use crate::alloc;
use crate::decode;
use crate::encode::{encode, encode_spans, Kind, Span};
use crate::gen::{self, Opts};
use crate::mutate::{mutate, reshape};
use crate::render;
use crate::runner::{all as exhaustive, fam, Ctx, Prop, R};
use crate::src::Src;
use crate::view;
use crate::{ensure, eq};

pub const CORPUS: [&[u8]; 8] = [
    include_bytes!("../../corpus/default.aseprite"),
    include_bytes!("../../corpus/combine.aseprite"),
    include_bytes!("../../corpus/indexed.aseprite"),
    include_bytes!("../../corpus/issue_4_1.aseprite"),
    include_bytes!("../../corpus/issue_4_2.aseprite"),
    include_bytes!("../../corpus/layers.aseprite"),
    include_bytes!("../../corpus/tags.aseprite"),
    include_bytes!("../../corpus/user_data.aseprite"),
];

/// A real file and the places of its fields, if the reference can re-encode it.
pub fn corpus(i: usize) -> (Vec<u8>, Vec<Span>) {
    let b = CORPUS[i % CORPUS.len()];
    let spans = match decode::decode(b) {
        Ok(d) => {
            let (e, spans) = encode_spans(&d);
            if e == b {
                spans
            } else {
                vec![]
            }
        }
        Err(_) => vec![],
    };
    (b.to_vec(), spans)
}

/// A small document with a bit of everything.
pub fn mixed(s: &mut Src<'_>) -> Doc {
    let o = match s.below(4) {
        0 => Opts { max_layers: 3, max_frames: 2, long: false, tags: 120, slices: 120, ..Opts::default() },
        1 => Opts { aux: 200, max_layers: 2, long: false, ..Opts::default() },
        2 => Opts { user: 200, props: 200, max_layers: 3, long: false, ..Opts::default() },
        _ => Opts { odd_levels: true, depths: &[32, 16, 8, 8, 0, 24], ..Opts::default() },
    };
    let mut d = gen::doc(s, &o);
    if s.chance(60) {
        gen::any_canvas(s, &mut d.head);
    }
    d
}

pub fn damage(s: &mut Src<'_>, b: &mut Vec<u8>, spans: &[Span], ctx: &mut Ctx) {
    if s.chance(110) {
        ctx.label(reshape(s, b, spans));
        // the places of fields behind the change are off now: byte mutations
        if s.chance(60) {
            ctx.label(mutate(s, b, &[]));
        }
        return;
    }
    let n = 1 + s.below(3);
    for _ in 0..n {
        ctx.label(mutate(s, b, spans));
    }
}

// ------------------------------------------------------------------ P01

/// Parse at all levels; only panics are errors here.
fn survive(ctx: &mut Ctx, b: &[u8]) -> R {
    ctx.input(b);
    let r = raw(b)?;
    let f = file(b)?;
    let l = load(b)?;
    if b.len() >= 128 + 16 {
        ctx.nontrivial(&b);
    }
    ctx.label(match (r.is_ok(), f.is_ok(), l.is_ok()) {
        (false, ..) => "rejected by the parser",
        (_, false, _) => "rejected at the file level",
        (_, _, false) => "rejected by the loader",
        _ => "loaded",
    });
    Ok(())
}

fn crash_mutated(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    let d = mixed(s);
    let (mut b, spans) = encode_spans(&d);
    damage(s, &mut b, &spans, ctx);
    survive(ctx, &b)
}

fn crash_corpus(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    let (mut b, spans) = corpus(s.below(CORPUS.len()));
    damage(s, &mut b, &spans, ctx);
    survive(ctx, &b)
}

fn header_for(s: &mut Src<'_>, out: &mut Vec<u8>) {
    let mut h = gen::head(s, &Opts::default());
    if s.chance(100) {
        gen::any_canvas(s, &mut h);
    }
    if s.chance(30) {
        h.depth = s.u16b();
    }
    out.extend(encode(&Doc { head: h, frames: vec![] }));
}

/// Enormous documents, mostly damaged.
fn crash_vast(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    let d = vast::doc(s, ctx, &vast::ALL, false);
    let (mut b, spans) = encode_spans(&d);
    ctx.describe(|| format!("{} bytes", b.len()));
    if s.chance(200) {
        damage(s, &mut b, &spans, ctx);
    }
    survive(ctx, &b)
}

/// One thing hundreds of thousands of times.
fn crash_long(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    let l = super::cost::long_doc(s);
    let mut b = encode(&l.doc);
    if s.chance(100) {
        super::cost::spoil(s, &mut b);
        ctx.label("spoilt");
    }
    ctx.describe(|| format!("{}, {} bytes", l.shape, b.len()));
    ctx.label(l.shape);
    survive(ctx, &b)
}

fn crash_random(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    let mut b = vec![];
    if s.chance(200) {
        header_for(s, &mut b);
        if s.chance(200) {
            // a frame around the rest, its size right, wrong or tiny
            let body = s.rest();
            let n = body.len() as u32 + 16;
            let size = match body.first().copied().unwrap_or(0) % 8 {
                0 => u32::from(body.get(1).copied().unwrap_or(0)) % 20,
                1 => n.wrapping_add(1),
                _ => n,
            };
            b.extend(size.to_le_bytes());
            b.extend([0xFA, 0xF1]);
            b.extend(u16::from(body.get(2).copied().unwrap_or(0)).to_le_bytes());
            b.extend([100, 0, 0, 0, 0, 0, 0, 0]);
            b.extend(body);
            ctx.label("random chunks in a frame");
        } else {
            b.extend(s.rest());
            ctx.label("random after a header");
        }
    } else {
        b = s.rest();
        ctx.label("random bytes");
    }
    survive(ctx, &b)
}

/// Framing in order, bodies random or half-structured.
fn crash_soup(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    let mut b = vec![];
    header_for(s, &mut b);
    let nf = 1 + s.below(3);
    for _ in 0..nf {
        let n = s.below(7);
        let mut f = vec![];
        for _ in 0..n {
            let code = if s.chance(240) { s.pick(&KNOWN_CHUNKS) } else { s.u16() };
            let mut body = vec![];
            let m = s.below(24);
            for _ in 0..m {
                match s.weighted(&[3, 3, 3, 1, 1]) {
                    0 => body.push(s.u8b()),
                    1 => body.extend(s.u16b().to_le_bytes()),
                    2 => body.extend(s.u32b().to_le_bytes()),
                    3 => {
                        let t = s.short_string();
                        body.extend((t.len() as u16).to_le_bytes());
                        body.extend(t.as_bytes());
                    }
                    _ => body.extend(s.bytes(40)),
                }
            }
            let size = if s.chance(12) { s.u32b() } else { body.len() as u32 + 6 };
            f.extend(size.to_le_bytes());
            f.extend(code.to_le_bytes());
            f.extend(body);
        }
        let size = if s.chance(12) { s.u32b() } else { f.len() as u32 + 16 };
        b.extend(size.to_le_bytes());
        b.extend([0xFA, 0xF1]);
        let old = if s.chance(20) { s.u16b() } else { n as u16 };
        let new = if s.chance(20) { s.u32b() } else { 0 };
        b.extend(old.to_le_bytes());
        b.extend([100, 0, 0, 0]);
        b.extend(new.to_le_bytes());
        b.extend(f);
    }
    survive(ctx, &b)
}

fn user_chunk(flags: u32, size: u32, num: u32, data: &[u8]) -> Vec<u8> {
    let mut c = vec![];
    c.extend((6 + 4 + 8 + data.len() as u32).to_le_bytes());
    c.extend(0x2020u16.to_le_bytes());
    c.extend(flags.to_le_bytes());
    c.extend(size.to_le_bytes());
    c.extend(num.to_le_bytes());
    c.extend(data);
    c
}

fn one_frame(chunks: &[Vec<u8>]) -> Vec<u8> {
    let mut b = encode(&Doc { head: Head::default(), frames: vec![] });
    let n: usize = chunks.iter().map(Vec::len).sum();
    b.extend((n as u32 + 16).to_le_bytes());
    b.extend([0xFA, 0xF1]);
    b.extend((chunks.len().min(0xffff) as u16).to_le_bytes());
    b.extend([100, 0, 0, 0]);
    b.extend((chunks.len() as u32).to_le_bytes());
    for c in chunks {
        b.extend(c);
    }
    b
}

/// A properties block nested `depth` deep in one of several ways, and how.
fn nested(s: &mut Src<'_>, depth: usize) -> (Vec<u8>, u32, &'static str) {
    let way = s.below(5);
    let closed = s.bool();
    let mut v: Vec<u8> = vec![];
    v.extend(0u32.to_le_bytes()); // key
    let prop = |v: &mut Vec<u8>, t: u16| {
        v.extend(1u32.to_le_bytes()); // one property
        v.extend(0u16.to_le_bytes()); // without a name
        v.extend(t.to_le_bytes());
    };
    let mut b = s.bulk();
    match way {
        0 => {
            // map in map; both readings of a nested map's start
            for _ in 0..depth {
                prop(&mut v, 18);
            }
        }
        1 => {
            // vector of vectors
            prop(&mut v, 17);
            for _ in 0..depth {
                v.extend(1u32.to_le_bytes());
                v.extend(17u16.to_le_bytes());
            }
        }
        2 => {
            // mixed vector in mixed vector
            prop(&mut v, 17);
            for _ in 0..depth {
                v.extend(1u32.to_le_bytes());
                v.extend(0u16.to_le_bytes());
                v.extend(17u16.to_le_bytes());
            }
        }
        3 => {
            // vector of maps holding a vector of maps ...
            prop(&mut v, 17);
            for _ in 0..depth {
                v.extend(1u32.to_le_bytes());
                v.extend(18u16.to_le_bytes());
                prop(&mut v, 17);
            }
        }
        _ => {
            let mut map = true;
            for _ in 0..depth {
                if map {
                    if b.below(2) == 0 {
                        prop(&mut v, 18);
                    } else {
                        prop(&mut v, 17);
                        map = false;
                    }
                } else {
                    v.extend(1u32.to_le_bytes());
                    match b.below(4) {
                        0 => v.extend(17u16.to_le_bytes()),
                        1 => {
                            v.extend(18u16.to_le_bytes());
                            map = true;
                        }
                        2 => {
                            v.extend([0, 0]);
                            v.extend(17u16.to_le_bytes());
                        }
                        _ => {
                            v.extend([0, 0]);
                            v.extend(18u16.to_le_bytes());
                            map = true;
                        }
                    }
                }
            }
        }
    }
    if closed {
        v.extend(0u32.to_le_bytes());
        v.extend(3u16.to_le_bytes());
    }
    (v, 1, ["map in map", "vector in vector", "mixed vectors", "vectors of maps", "all mixed"][way])
}

/// The same with the key dword that one (mistaken) reading of the format gives
/// to nested maps as well.
fn nested_keyed(depth: usize) -> Vec<u8> {
    let mut v: Vec<u8> = vec![];
    for _ in 0..depth {
        v.extend(0u32.to_le_bytes());
        v.extend(1u32.to_le_bytes());
        v.extend(0u16.to_le_bytes());
        v.extend(18u16.to_le_bytes());
    }
    v
}

fn crash_deep(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    let depth = match s.weighted(&[2, 2, 2, 3]) {
        0 => s.below(80),
        1 => s.below(2_000),
        2 => s.below(20_000),
        _ => 60_000 + s.below(60_000),
    };
    let (v, num, way) = if s.chance(40) { (nested_keyed(depth), 1, "keyed maps") } else { nested(s, depth) };
    ctx.label(way);
    ctx.describe(|| format!("{way}, {depth} deep"));
    let mut chunks = vec![user_chunk(4, v.len() as u32 + 8, num, &v)];
    if s.bool() {
        // a layer to carry it
        let l = encode(&Doc {
            head: Head::default(),
            frames: vec![FrameM::new(1, vec![Body::Layer(super::parse::simple_layer("l")).into()])],
        });
        chunks.insert(0, l[144..].to_vec());
    }
    let b = one_frame(&chunks);
    if depth > 100 {
        ctx.label("deeper than 100");
    }
    // dropping and printing what was parsed must survive as well
    let l = load(&b)?;
    if let Ok(f) = &l {
        guard("Debug", || format!("{f:?}").len())?;
    }
    drop(l);
    survive(ctx, &b)
}

fn crash_props(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    let mut u = gen::user(s, &Opts { props: 255, long: false, ..Opts::default() });
    u.flags |= 4;
    let d = Doc {
        head: Head::default(),
        frames: vec![FrameM::new(1, vec![Body::User(u).into()])],
    };
    let (mut b, spans) = encode_spans(&d);
    if s.chance(40) {
        let size = s.u32b();
        let num = s.u32b();
        let data = s.bytes(80);
        b = one_frame(&[user_chunk(4, size, num, &data)]);
        ctx.label("arbitrary block");
    } else if s.chance(128) {
        ctx.label(reshape(s, &mut b, &spans));
    } else {
        let n = 1 + s.below(3);
        for _ in 0..n {
            ctx.label(mutate(s, &mut b, &spans));
        }
    }
    survive(ctx, &b)
}

// ------------------------------------------------------------------ P02

/// bytes per byte of input; per (frame, layer); and in any case
const PER_BYTE: usize = 192;
const PER_SLOT: usize = std::mem::size_of::<Option<ab::chunks::cel::CelChunk<'_>>>() + 64;
const BASE: usize = 320 << 10;

fn measure(b: &[u8], frames: usize, layers: usize, extra: usize) -> R {
    let bound = PER_BYTE * b.len() + PER_SLOT * frames * layers + BASE + extra;
    let go = |what: &str, f: &mut dyn FnMut() -> Result<(), String>| -> R {
        let (r, u) = alloc::measure(f);
        r?;
        ensure!(
            u.peak <= bound,
            "{what}: {} bytes in use for an input of {} bytes ({frames} frames, {layers} layers); \
             largest request {}",
            u.peak,
            b.len(),
            u.largest
        );
        Ok(())
    };
    go("parse_raw_file", &mut || raw(b).map(|_| ()))?;
    go("parse_file", &mut || file(b).map(|_| ()))?;
    // as the user calls it, error message included
    go("load", &mut || guard("load", || al::AsepriteFile::load(b).is_ok()).map(|_| ()))
}

/// The numbers of frames and layer chunks that are in the input.
pub fn slots(b: &[u8]) -> (usize, usize) {
    let d32 = |p: usize| b.get(p..p + 4).map(|x| u32::from_le_bytes(x.try_into().unwrap()) as usize);
    let (mut frames, mut layers, mut at) = (0, 0, 128);
    while let Some(size) = d32(at) {
        if size < 16 || at + size > b.len() {
            break;
        }
        frames += 1;
        let end = at + size;
        let mut c = at + 16;
        while c + 6 <= end {
            let n = d32(c).unwrap_or(0);
            if n < 6 {
                break;
            }
            if b[c + 4..c + 6] == [0x04, 0x20] {
                layers += 1;
            }
            c += n;
        }
        at = end;
    }
    (frames, layers)
}

fn mem(ctx: &mut Ctx, b: &[u8], extra: usize) -> R {
    ctx.input(b);
    let (f, l) = slots(b);
    measure(b, f, l, extra)
}

const COUNTS: [u64; 12] = [
    0xffff_ffff,
    0x7fff_ffff,
    0x8000_0000,
    0xffff,
    0x1_0000,
    0x10_0000,
    0x100_0000,
    0x1000_0000,
    0xfffe,
    0x3fff_ffff,
    0x8000,
    0xfff_ffff,
];

fn put(b: &mut [u8], sp: &Span, v: u64) {
    for i in 0..sp.len.min(4) {
        b[sp.off + i] = (v >> (8 * i)) as u8;
    }
}

/// Sizes, counts and dimensions set to enormous values.
fn mem_counts(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    let (mut b, spans) = if s.chance(30) {
        corpus(s.below(CORPUS.len()))
    } else {
        encode_spans(&mixed(s))
    };
    let fields: Vec<Span> = spans
        .iter()
        .filter(|x| {
            matches!(
                x.kind,
                Kind::Count | Kind::StrLen | Kind::PayloadLen | Kind::PropsSize | Kind::Dim | Kind::Index
                    | Kind::Value | Kind::FrameSize | Kind::ChunkSize
            )
        })
        .copied()
        .collect();
    if fields.is_empty() {
        return Ok(());
    }
    let n = match s.weighted(&[5, 3, 2]) {
        0 => 1,
        1 => 2,
        _ => 2 + s.below(8),
    };
    for _ in 0..n {
        let sp = fields[s.below(fields.len())];
        let v = s.pick(&COUNTS);
        put(&mut b, &sp, v);
        ctx.label(match sp.kind {
            Kind::Count => "count",
            Kind::StrLen => "string length",
            Kind::PayloadLen => "payload length",
            Kind::PropsSize => "properties size",
            Kind::Dim => "dimension",
            Kind::FrameSize | Kind::ChunkSize => "frame or chunk size",
            _ => "index or value",
        });
    }
    if s.chance(40) {
        // all dimensions at once
        for sp in fields.iter().filter(|x| x.kind == Kind::Dim) {
            put(&mut b, sp, 0xffff);
        }
        ctx.label("all dimensions at their maximum");
    }
    ctx.nontrivial(&b);
    mem(ctx, &b, 0)
}

/// Long well-formed files: nothing grows faster than the input.
fn mem_long(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    let which = s.below(9);
    let n = 200 + s.below(4_000);
    let mut d = Doc { head: Head::default(), frames: vec![] };
    let mut k = vec![];
    match which {
        0 => k = (0..n).map(|_| Body::Path(vec![]).into()).collect(),
        1 => {
            let t = gen::tag(s, &Opts { long: false, ..Opts::default() });
            k.push(Body::Tags([0; 8], vec![t; n]).into());
        }
        2 => {
            let mut sl = gen::slice(s, &Opts { long: false, ..Opts::default() }, 1);
            let key = KeyM { frame: 0, x: 0, y: 0, w: 1, h: 1, nine: (0, 0, 0, 0), pivot: (0, 0) };
            sl.flags = 0;
            sl.keys = vec![key; n];
            k.push(Body::Slice(sl).into());
        }
        3 => {
            // user data that does not decode, each claiming an enormous count
            k = (0..n.min(1_500))
                .map(|_| {
                    let u = UserM {
                        flags: 4,
                        text: String::new(),
                        color: [0; 4],
                        props: Props::Bad { num: s.pick(&[0xffff_ffffu32, 0x10_0000, 0xffff]), data: vec![0; 4] },
                    };
                    Body::User(u).into()
                })
                .collect();
            ctx.label("many undecodable property blocks");
        }
        4 => {
            // slices, each with user data of this kind
            for _ in 0..n.min(1_000) {
                k.push(
                    Body::Slice(SliceM { flags: 0, reserved: 0, name: String::new(), keys: vec![] }).into(),
                );
                let u = UserM {
                    flags: 4,
                    text: String::new(),
                    color: [0; 4],
                    props: Props::Bad { num: 0xffff, data: vec![] },
                };
                k.push(Body::User(u).into());
            }
        }
        5 => {
            let l = super::parse::simple_layer("");
            k = (0..n.min(1_200)).map(|_| Body::Layer(l.clone()).into()).collect();
        }
        6 => {
            d.frames = (0..n).map(|_| FrameM::new(1, vec![])).collect();
        }
        7 => {
            // layers and frames with a cel of enormous dimensions each
            let m = 1 + s.below(60);
            for _ in 0..m {
                k.push(Body::Layer(super::parse::simple_layer("")).into());
            }
            for i in 0..m {
                let c = CelM {
                    layer: i as u16,
                    x: 0,
                    y: 0,
                    opacity: 255,
                    z: 0,
                    reserved: [0; 5],
                    content: Content::Zip { w: 65535, h: 65535, data: vec![1; 4] },
                };
                k.push(Body::Cel(c).into());
            }
            ctx.label("enormous images that nobody decodes");
        }
        _ => {
            // properties: many small values
            let v: Vec<PVal> = (0..n).map(|i| PVal::U8(i as u8)).collect();
            let u = UserM {
                flags: 4,
                text: String::new(),
                color: [0; 4],
                props: Props::Maps(vec![PMap {
                    key: 0,
                    props: vec![("v".into(), PVal::Vector(if s.bool() { 0 } else { 3 }, v))],
                }]),
            };
            k.push(Body::User(u).into());
        }
    }
    if d.frames.is_empty() {
        d.frames.push(FrameM::new(1, k));
    }
    let b = encode(&d);
    ctx.describe(|| format!("shape {which}, {n} elements, {} bytes", b.len()));
    ctx.nontrivial(&(which, n));
    ctx.label(
        ["chunks", "tags", "slice keys", "user data", "slices with user data", "layers", "frames", "cels", "values"]
            [which],
    );
    mem(ctx, &b, 0)
}

/// Nested properties: every level may claim an enormous count.
fn mem_nested(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    let most = s.pick(&[8usize, 60, 1_000, 20_000]);
    let depth = 1 + s.below(most);
    let n = s.pick(&[0xffff_ffffu32, 0xffff, 0x10_0000, 1]);
    let mixed = s.bool();
    let mut v: Vec<u8> = vec![];
    v.extend(0u32.to_le_bytes());
    v.extend(n.to_le_bytes());
    v.extend(0u16.to_le_bytes());
    v.extend(17u16.to_le_bytes());
    for _ in 0..depth {
        v.extend(n.to_le_bytes());
        if mixed {
            v.extend(0u16.to_le_bytes());
        }
        v.extend(17u16.to_le_bytes());
    }
    let b = one_frame(&[user_chunk(4, v.len() as u32 + 8, n, &v)]);
    ctx.describe(|| format!("{depth} nested vectors, each of {n} elements"));
    ctx.nontrivial(&b);
    // 64 KiB per open level is what nom's `count` reserves at most; levels are
    // bounded, so this is a constant
    mem(ctx, &b, (depth.min(128) + 4) << 16)
}

fn mem_mutated(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    let d = mixed(s);
    let (mut b, spans) = encode_spans(&d);
    if s.chance(200) {
        damage(s, &mut b, &spans, ctx);
    }
    ctx.nontrivial(&b);
    let deep = 12 << 16;
    mem(ctx, &b, deep)
}

// ------------------------------------------------------------------ P11

/// All that the loader reports, decodes and renders.
fn fingerprint(b: &[u8], doc: &Doc) -> Result<(String, Vec<Vec<u8>>, Vec<Result<u64, String>>), String> {
    let f = load_ok(b)?;
    let mut text = guard("Debug", || format!("{f:?}"))?;
    if let Some(p) = &f.file.palette {
        text.push_str(&format!("{p:?}"));
    }
    let mut pix = vec![];
    let mut hashes = vec![];
    if render::small(doc) {
        for (i, im) in f.images.iter().enumerate() {
            let mut buf = vec![0x5a; usize::from(im.width) * usize::from(im.height) * 4];
            let r = decode_image(&f, i, &mut buf)?;
            pix.push(if r.is_ok() { buf } else { vec![0xee] });
        }
        for i in 0..f.frames().len() {
            for sel in [al::LayerSelection::Visible, al::LayerSelection::All] {
                let mut buf = vec![0; canvas(doc)];
                let r = render_frame(&f, i, &mut buf, &sel)?;
                pix.push(if r.is_ok() { buf } else { vec![0xee] });
            }
            let mut buf = vec![0; canvas(doc)];
            hashes.push(combined(&f, i, &mut buf)?);
        }
    }
    Ok((text, pix, hashes))
}

fn unknown_chunk(s: &mut Src<'_>) -> ChunkM {
    let code = loop {
        let c = match s.weighted(&[3, 2, 2]) {
            0 => s.pick(&[0x2021u16, 0x2009, 0x2015, 0x2024, 0x2010, 0x2000, 0x2003, 0x0000, 0xffff, 0x0005, 0x0012]),
            1 => s.u16(),
            _ => 0x2000 | u16::from(s.byte()),
        };
        if !KNOWN_CHUNKS.contains(&c) {
            break c;
        }
        if s.left() == 0 {
            break 0x2021;
        }
    };
    // sometimes bytes that would be a chunk of their own
    let data = match s.weighted(&[2, 3, 1, 1]) {
        0 => vec![],
        1 => s.bytes(400),
        3 => gen::junk(s, 40),
        _ => {
            let l = encode(&Doc {
                head: Head::default(),
                frames: vec![FrameM::new(1, vec![Body::Layer(super::parse::simple_layer("ghost")).into()])],
            });
            l[144..].to_vec()
        }
    };
    Body::Unknown(code, data).into()
}

fn surplus(s: &mut Src<'_>) -> Vec<u8> {
    match s.weighted(&[3, 2, 1, 2]) {
        0 => s.bytes(24),
        1 => {
            let n = 1 + s.below(8);
            s.fill(n)
        }
        3 => gen::junk(s, 40),
        _ => {
            // what could pass for another chunk
            let mut v = vec![10, 0, 0, 0, 0x20, 0x20, 1, 0, 0, 0];
            v.extend(s.bytes(10));
            v
        }
    }
}

fn decorate(s: &mut Src<'_>, d: &mut Doc, ctx: &mut Ctx) -> usize {
    let mut n = 0;
    let kinds = 1 + s.below(7);
    if kinds & 1 != 0 {
        for f in &mut d.frames {
            let mut out: Vec<ChunkM> = vec![];
            for c in std::mem::take(&mut f.chunks) {
                let glued = matches!(c.body, Body::User(_) | Body::CelExtra(_));
                while !glued && s.chance(60) {
                    out.push(unknown_chunk(s));
                    n += 1;
                    ctx.label("unknown chunk");
                }
                out.push(c);
            }
            while s.chance(60) {
                out.push(unknown_chunk(s));
                n += 1;
                ctx.label("unknown chunk at the end");
            }
            f.chunks = out;
            let mode = s.below(4) as u8;
            f.recount(mode);
        }
    }
    if kinds & 2 != 0 {
        for f in &mut d.frames {
            for c in &mut f.chunks {
                if !c.body.open_ended() && s.chance(90) {
                    c.tail = if s.chance(90) { gen::more_of(s, &c.body) } else { surplus(s) };
                    n += usize::from(!c.tail.is_empty());
                    ctx.label("surplus in a chunk");
                }
            }
            if s.chance(110) {
                f.tail = surplus(s);
                n += usize::from(!f.tail.is_empty());
                ctx.label("surplus in a frame");
            }
        }
    }
    if kinds & 4 != 0 {
        let mut fill = |s: &mut Src<'_>, b: &mut [u8]| {
            if s.chance(160) {
                let mut k = s.bulk();
                b.iter_mut().for_each(|x| *x = k.byte());
                n += 1;
            }
        };
        fill(s, &mut d.head.ignore);
        fill(s, &mut d.head.future);
        for f in &mut d.frames {
            fill(s, &mut f.reserved);
            for c in &mut f.chunks {
                match &mut c.body {
                    Body::Layer(l) => {
                        fill(s, &mut l.reserved);
                        // the default size is ignored as well
                        if s.chance(100) {
                            l.dw = s.u16b();
                            l.dh = s.u16b();
                        }
                    }
                    Body::Cel(c) => fill(s, &mut c.reserved),
                    Body::CelExtra(c) => {
                        if s.chance(60) {
                            c.rest = s.bytes(20);
                        }
                    }
                    Body::Profile(p) => fill(s, &mut p.reserved),
                    Body::External(r, v) => {
                        fill(s, r);
                        v.iter_mut().for_each(|e| fill(s, &mut e.reserved));
                    }
                    Body::Mask(m) => fill(s, &mut m.reserved),
                    Body::Path(v) => {
                        if s.chance(100) {
                            *v = s.bytes(20);
                        }
                    }
                    Body::Tags(r, v) => {
                        fill(s, r);
                        for t in v {
                            fill(s, &mut t.reserved);
                            if s.chance(100) {
                                t.extra = s.u8b();
                            }
                        }
                    }
                    Body::Palette(p) => fill(s, &mut p.reserved),
                    Body::Slice(x) => {
                        if s.chance(100) {
                            x.reserved = s.u32b();
                        }
                    }
                    Body::Tileset(t) => fill(s, &mut t.reserved),
                    _ => {}
                }
            }
        }
        ctx.label("reserved bytes filled");
    }
    n
}

fn same(ctx: &mut Ctx, a: &Doc, b: &Doc) -> R {
    let (ba, bb) = (encode(a), encode(b));
    ctx.input(&bb);
    let fa = fingerprint(&ba, a)?;
    let fb = fingerprint(&bb, b).map_err(|e| format!("with additions: {e}"))?;
    if fa.0 != fb.0 {
        let at = fa.0.bytes().zip(fb.0.bytes()).position(|(x, y)| x != y).unwrap_or(fa.0.len().min(fb.0.len()));
        let cut = |t: &str| {
            let t = t.as_bytes();
            String::from_utf8_lossy(&t[at.saturating_sub(60).min(t.len())..(at + 60).min(t.len())]).to_string()
        };
        return Err(format!("additions changed what is reported: ...{}... became ...{}...", cut(&fa.0), cut(&fb.0)));
    }
    ensure!(fa.1 == fb.1, "additions changed the pixels");
    eq!("frame hashes with additions", fb.2, fa.2);
    Ok(())
}

fn additions(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    let o = Opts {
        surplus: 0,
        canvas: 12,
        cel_size: 6,
        long: false,
        max_layers: 4,
        max_frames: 3,
        user: 110,
        aux: 60,
        ..Opts::loadable()
    };
    let a = gen::doc(s, &o);
    let mut b = a.clone();
    let n = decorate(s, &mut b, ctx);
    ctx.describe(|| format!("{} --> {}", a.describe(), b.describe()));
    if n > 0 && a.chunks().count() >= 2 {
        ctx.nontrivial(&encode(&b));
    }
    same(ctx, &a, &b)
}

/// Enormous additions.
fn v_additions(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    let o = Opts { surplus: 0, canvas: 6, cel_size: 4, long: false, max_layers: 4, max_frames: 3, user: 110, ..Opts::loadable() };
    let a = gen::doc(s, &o);
    let mut d = a.clone();
    let mut b = s.bulk();
    let i = s.below(d.frames.len());
    let f = &mut d.frames[i];
    match s.below(3) {
        0 | 1 => {
            vast::sprinkle(s, &mut b, &mut f.chunks);
            f.recount(0);
            ctx.label("vast: unknown chunks");
        }
        _ => {
            let n = vast::bytes(s);
            let data = vast::noise(&mut b, n);
            let closed: Vec<usize> = (0..f.chunks.len()).filter(|i| !f.chunks[*i].body.open_ended()).collect();
            match s.below(3) {
                0 => f.tail = data,
                1 if !closed.is_empty() => f.chunks[closed[s.below(closed.len())]].tail = data,
                _ => {
                    f.chunks.insert(0, Body::Unknown(0x2999, data).into());
                    f.recount(0);
                }
            }
            ctx.label("vast: surplus");
        }
    }
    ctx.describe(|| format!("{} with something enormous", a.describe()));
    ctx.nontrivial(&encode(&d));
    same(ctx, &a, &d)
}

fn additions_corpus(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    let i = s.below(CORPUS.len());
    let a = must(decode::decode(CORPUS[i]));
    let mut b = a.clone();
    let n = decorate(s, &mut b, ctx);
    ctx.describe(|| format!("corpus {i} with {n} additions"));
    if n > 0 {
        ctx.nontrivial(&encode(&b));
    }
    same(ctx, &a, &b)
}

// ------------------------------------------------------------------ P12

/// The parser accepts exactly what the reference accepts, with equal results.
fn differential(ctx: &mut Ctx, b: &[u8]) -> R {
    ctx.input(b);
    let want = decode::decode(b);
    let got = raw(b)?;
    match (&want, &got) {
        (Err(e), Ok(_)) => return Err(format!("accepted at the raw level, but: {e}")),
        (Ok(_), Err(e)) => return Err(format!("rejected at the raw level although complete: {e}")),
        _ => {}
    }
    let f = file(b)?;
    let (Ok(doc), Ok(got)) = (want, got) else {
        ctx.label("rejected");
        ensure!(f.is_err(), "rejected at the raw level, accepted at the file level");
        let l = load(b)?;
        ensure!(l.is_err(), "rejected at the raw level, accepted by the loader");
        return Ok(());
    };
    ctx.label("accepted");
    view::raw_all(&doc, &got).map_err(|e| format!("raw level: {e}"))?;
    match (view::resolve(&doc), f) {
        (Err(e), Ok(_)) => return Err(format!("accepted at the file level, but: {e}")),
        (Ok(_), Err(e)) => return Err(format!("rejected at the file level although valid: {e}")),
        (Ok(v), Ok(f)) => {
            ctx.label("accepted at the file level");
            view::file_all(&doc, &v, &f).map_err(|e| format!("file level: {e}"))?;
        }
        _ => {
            let l = load(b)?;
            ensure!(l.is_err(), "rejected at the file level, accepted by the loader");
        }
    }
    Ok(())
}

fn diff_mutated(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    let d = mixed(s);
    let (mut b, spans) = encode_spans(&d);
    damage(s, &mut b, &spans, ctx);
    ctx.nontrivial(&b);
    differential(ctx, &b)
}

/// Enormous documents, damaged or not.
fn v_diff(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    let d = vast::doc(s, ctx, &vast::ALL, false);
    let (mut b, spans) = encode_spans(&d);
    ctx.describe(|| format!("{} bytes", b.len()));
    if s.chance(220) {
        damage(s, &mut b, &spans, ctx);
    }
    ctx.nontrivial(&b);
    differential(ctx, &b)
}

/// Texts of any length that are no UTF-8 at one place.
fn texts(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    let n = match s.below(3) {
        0 => 32_700 + s.below(32_836),
        1 => 1 + s.below(600),
        _ => 1 + s.below(65_535),
    };
    let mut t = vec![];
    let piece = s.pick(&["a", "\u{e9}", "\u{20ac}b", "\u{1f600}", "xyz"]);
    while t.len() + piece.len() <= n {
        t.extend(piece.bytes());
    }
    let text = String::from_utf8(t).unwrap_or_default();
    let l = super::parse::simple_layer(&text);
    let mut c: ChunkM = match s.below(4) {
        0 => Body::User(UserM { flags: 1, text, color: [0; 4], props: Props::Maps(vec![]) }),
        1 => Body::Slice(SliceM { flags: 0, reserved: 0, name: text, keys: vec![] }),
        _ => Body::Layer(l),
    }
    .into();
    if s.chance(100) && !c.body.open_ended() {
        c.tail = s.bytes(30);
    }
    let d = Doc { head: Head::default(), frames: vec![FrameM::new(1, vec![Body::Layer(super::parse::simple_layer("x")).into(), c])] };
    let (mut b, spans) = encode_spans(&d);
    let Some(sp) = spans.iter().filter(|x| x.kind == Kind::Str).max_by_key(|x| x.len) else { return Ok(()) };
    if s.chance(230) && super::errors::invalid(s, &mut b[sp.off..sp.off + sp.len]).is_some() {
        ctx.label("no UTF-8");
        ctx.nontrivial(&b);
    }
    ctx.label_if(sp.len > 32_768, "more than 32768 bytes");
    differential(ctx, &b)
}

fn diff_corpus(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    let (mut b, spans) = corpus(s.below(CORPUS.len()));
    damage(s, &mut b, &spans, ctx);
    ctx.nontrivial(&b);
    differential(ctx, &b)
}

/// Every prefix of a file.
fn cuts(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    let o = Opts { max_layers: 3, max_frames: 4, long: false, aux: 60, surplus: 30, ..Opts::default() };
    let d = gen::doc(s, &o);
    let (b, _) = encode_spans(&d);
    show(ctx, &d, &b);
    if b.len() > 6_000 {
        ctx.label("too long, skipped");
        return Ok(());
    }
    let mut ends = vec![];
    let mut at = 128;
    for f in &d.frames {
        let one = Doc { head: d.head.clone(), frames: vec![f.clone()] };
        at += encode(&one).len() - 128;
        ends.push(at);
    }
    eq!("length", at, b.len());
    ctx.evaluations(b.len() as u64);
    ctx.nontrivial(&b);
    for n in 0..b.len() {
        let p = &b[..n];
        let r = raw(p)?;
        match ends.iter().position(|e| *e == n) {
            None => {
                ensure!(r.is_err(), "accepted when cut after {n} of {} bytes", b.len());
                ensure!(file(p)?.is_err(), "file level accepts a cut after {n} of {} bytes", b.len());
            }
            Some(k) => {
                ctx.label("cut after a complete frame");
                let part = Doc { head: d.head.clone(), frames: d.frames[..=k].to_vec() };
                let r = r.map_err(|e| format!("cut after frame {k}: {e}"))?;
                view::raw_all(&part, &r).map_err(|e| format!("cut after frame {k}: {e}"))?;
            }
        }
    }
    // and with bytes left over
    let mut more = b.clone();
    let extra = 1 + s.below(20);
    for _ in 0..extra {
        more.push(s.byte());
        differential(ctx, &more)?;
    }
    Ok(())
}

/// One sized field of a frame or chunk at all values around the right one.
fn sizes(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    let d = mixed(s);
    let (b, spans) = encode_spans(&d);
    show(ctx, &d, &b);
    let fields: Vec<&Span> = spans
        .iter()
        .filter(|x| {
            matches!(
                x.kind,
                Kind::FrameSize | Kind::ChunkSize | Kind::Count | Kind::StrLen | Kind::PayloadLen | Kind::PropsSize
            )
        })
        .collect();
    if fields.is_empty() {
        return Ok(());
    }
    let sp = fields[s.below(fields.len())];
    let old = (0..sp.len.min(4)).fold(0u64, |v, i| v | u64::from(b[sp.off + i]) << (8 * i));
    let mut tries: Vec<u64> = (0..20).collect();
    tries.extend((1..=20).flat_map(|k| [old.wrapping_sub(k), old.wrapping_add(k)]));
    tries.extend([0xff, 0x100, 0xffff, 0x1_0000, 0x7fff_ffff, 0x8000_0000, 0xffff_fffc, 0xffff_ffff]);
    ctx.nontrivial(&(&b, sp.off));
    ctx.evaluations(tries.len() as u64);
    ctx.label(match sp.kind {
        Kind::FrameSize => "frame size",
        Kind::ChunkSize => "chunk size",
        Kind::Count => "count",
        Kind::StrLen => "string length",
        Kind::PropsSize => "properties size",
        _ => "payload length",
    });
    for v in tries {
        let mut m = b.clone();
        put(&mut m, sp, v);
        if m != b {
            differential(ctx, &m).map_err(|e| format!("{:?} at {} set from {old} to {v}: {e}", sp.kind, sp.off))?;
        }
    }
    Ok(())
}

/// Each magic number with each byte value, on its own.
fn magics(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    let v = s.u32() as usize;
    let d = Doc {
        head: Head::default(),
        frames: vec![FrameM::new(1, vec![]), FrameM::new(2, vec![Body::Path(vec![1]).into()])],
    };
    let b = encode(&d);
    // file magic, must-be-zero fields, magics of both frames
    let places = [4usize, 5, 20, 21, 22, 23, 24, 25, 26, 27, 132, 133, 148, 149];
    let (p, x) = (places[v / 256 % places.len()], (v % 256) as u8);
    let mut m = b.clone();
    m[p] = x;
    ctx.describe(|| format!("byte {p} set to {x}"));
    ctx.nontrivial(&(p, x));
    let r = raw(&m)?;
    eq!(format!("byte {p} = {x}: accepted"), r.is_ok(), m == b);
    differential(ctx, &m)
}

// ------------------------------------------------------------------ table

large!(l_crash, crash_mutated);
large!(l_additions, additions);
large!(l_diff, diff_mutated);
large!(l_sizes, sizes);

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P01",
            rule: "an input of at least a header and a frame header (144 bytes), distinct bytes",
            assumptions: &[
                "run with overflow checks and debug assertions on, on threads with 2 MiB of stack",
            ],
            families: vec![
                fam("deep", crash_deep, (20_000, 480_000), 24),
                fam("properties", crash_props, (1_500_000, 36_000_000), 500),
                fam("mutated", crash_mutated, (1_500_000, 36_000_000), 1200),
                fam("soup", crash_soup, (1_500_000, 36_000_000), 900),
                fam("random", crash_random, (1_000_000, 24_000_000), 600),
                fam("corpus", crash_corpus, (300_000, 7_200_000), 60),
                fam("large", l_crash, (10_000, 300_000), 400),
                fam("long", crash_long, (1_200, 40_000), 64),
                fam("vast", crash_vast, (80, 2_000), 200),
            ],
        },
        Prop {
            id: "P02",
            rule: "a file with a falsified count, size or dimension, a long file, or a mutated one; distinct bytes",
            assumptions: &[
                "bound: 192 bytes per input byte, one cel record (plus 64 bytes) per (frame, layer), 320 KiB in any case, and \
                 64 KiB per open nesting level of properties",
            ],
            families: vec![
                fam("counts", mem_counts, (750_000, 18_000_000), 1000),
                fam("long", mem_long, (20_000, 480_000), 60),
                fam("nested", mem_nested, (30_000, 720_000), 16),
                fam("mutated", mem_mutated, (400_000, 9_600_000), 1000),
            ],
        },
        Prop {
            id: "P11",
            rule: "at least one addition to a file of at least two chunks, distinct encoded bytes",
            assumptions: &["flag bits the format does not define are left as they are"],
            families: vec![
                fam("documents", additions, (350_000, 8_400_000), 1400),
                fam("corpus", additions_corpus, (30_000, 720_000), 400),
                fam("large", l_additions, (3_000, 80_000), 400),
                fam("vast", v_additions, (200, 4_000), 400),
            ],
        },
        Prop {
            id: "P12",
            rule: "a damaged file (or all cuts, or all values of a size, of one), distinct bytes",
            assumptions: &["nestings of properties deeper than 24 are not judged"],
            families: vec![
                exhaustive("magics", magics, 14 * 256),
                fam("mutated", diff_mutated, (1_250_000, 30_000_000), 1200),
                fam("cuts", cuts, (20_000, 480_000), 700),
                fam("sizes", sizes, (50_000, 1_200_000), 900),
                fam("corpus", diff_corpus, (150_000, 3_600_000), 60),
                fam("large", l_diff, (14_000, 300_000), 400),
                fam("vast", v_diff, (80, 2_000), 200),
                fam("texts", texts, (8_000, 200_000), 60),
                fam("large sizes", l_sizes, (320, 8_000), 400),
            ],
        },
    ]
}
