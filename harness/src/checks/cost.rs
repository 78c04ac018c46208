//! P25 P26: what decoding, rendering and loading cost.

use super::*;
use crate::alloc;
use crate::encode::encode;
use crate::gen::{self, Opts};
use crate::render;
use crate::runner::{fam, Prop, R};
use crate::src::Src;
use crate::{ensure, eq};
use al::LayerSelection;

// ------------------------------------------------------------------ P25

/// in any case; per pixel of the canvas or of an image
const BASE: usize = 1 << 20;
const PER_PIXEL: usize = 16;
/// what may be kept after a call
const KEPT: usize = 1 << 16;

/// How many pixels the data of an image can give at most.
pub fn possible(depth: u16, w: u16, h: u16, compressed: bool, len: usize) -> usize {
    let px = match depth {
        32 => 4,
        16 => 2,
        8 => 1,
        _ => return 0,
    };
    // deflate needs two bits at least for a run of at most 258 bytes
    let bytes = if compressed { len * 1032 } else { len };
    (usize::from(w) * usize::from(h)).min(bytes / px)
}

fn in_file(f: &al::AsepriteFile<'_>, i: usize) -> usize {
    let im = &f.images[i];
    possible(f.file.header.color_depth.bpp(), im.width, im.height, im.compressed, im.data.len())
}

/// Small, or not decodable for want of data: to be refused without ado.
pub fn in_reach(f: &al::AsepriteFile<'_>, im: &ab::image::Image<'_>) -> bool {
    let area = usize::from(im.width) * usize::from(im.height);
    area <= render::AREA_LIMIT
        || possible(f.file.header.color_depth.bpp(), im.width, im.height, im.compressed, im.data.len()) < area
}

fn within(what: String, bound: usize, f: &mut dyn FnMut() -> Result<(), String>) -> R {
    let before = alloc::used();
    let (r, u) = alloc::measure(f);
    r?;
    let kept = alloc::used() - before;
    ensure!(kept <= KEPT as isize, "{what}: {kept} bytes still in use afterwards");
    ensure!(u.peak <= bound, "{what}: {} bytes in use, largest request {}, allowed {bound}", u.peak, u.largest);
    Ok(())
}

/// Render and decode everything, measuring.
fn cost(s: &mut Src<'_>, ctx: &mut Ctx, f: &al::AsepriteFile<'_>) -> R {
    let (w, h) = f.size();
    let canvas = usize::from(w) * usize::from(h);
    let n = f.layers().len();
    if canvas <= render::AREA_LIMIT {
        let mut buf = vec![0; canvas * 4];
        for fi in 0..f.frames().len().min(5) {
            let cels = &f.frames()[fi].cels;
            let px: usize = cels.iter().map(|c| in_file(f, c.image_index)).sum();
            let bound = BASE + PER_PIXEL * (canvas + px) + 64 * cels.len();
            ctx.label_if(
                cels.iter().any(|c| usize::from(c.size.0) * usize::from(c.size.1) > 16 * (in_file(f, c.image_index) + 65_536)),
                "an image far larger than its data",
            );
            if !cels.is_empty() {
                ctx.nontrivial(&(cels.len(), px, canvas, f.images.iter().map(|i| i.data).collect::<Vec<_>>()));
            }
            let mask = LayerSelection::Mask((0..n).map(|_| s.bool()).collect());
            for sel in [LayerSelection::All, LayerSelection::Visible, mask] {
                let mut ok = false;
                within(format!("frame {fi} of {w}x{h} with {} cels, {sel:?}", cels.len()), bound, &mut || {
                    ok = render_frame(f, fi, &mut buf, &sel)?.is_ok();
                    Ok(())
                })?;
                ctx.label(if ok { "rendered" } else { "refused" });
                ctx.evaluations(1);
            }
            within(format!("frame {fi} combined"), bound, &mut || combined(f, fi, &mut buf).map(|_| ()))?;
        }
    }
    for i in 0..f.images.len().min(6) {
        let im = &f.images[i];
        let area = usize::from(im.width) * usize::from(im.height);
        let m = match s.below(4) {
            _ if area <= 1 << 16 => area * 4,
            0 => 0,
            1 => 4 * in_file(f, i).min(area),
            2 => s.below(4096),
            _ => area & 0xffff,
        };
        let mut buf = vec![0; m];
        ctx.label_if(m < area * 4, "decoded into a buffer that is too small");
        within(format!("image {i} of {}x{} into {m} bytes", im.width, im.height), BASE + 4 * m, &mut || {
            let r = decode_image(f, i, &mut buf)?;
            ensure!(r.is_err() || m >= area * 4, "image {i}: buffer of {m} bytes accepted");
            Ok(())
        })?;
    }
    Ok(())
}

/// Streams that inflate to many megabytes.
fn bomb(i: usize) -> Vec<u8> {
    static B: std::sync::OnceLock<Vec<Vec<u8>>> = std::sync::OnceLock::new();
    B.get_or_init(|| {
        [(4, 0u8), (32, 0), (16, 255)]
            .iter()
            .map(|&(mib, byte)| {
                let n = mib << 20;
                let mut c = flate2::Compress::new(flate2::Compression::new(9), true);
                let mut out = Vec::with_capacity(n / 500);
                let _ = c.compress_vec(&vec![byte; n], &mut out, flate2::FlushCompress::Finish);
                out
            })
            .collect()
    })[i % 3]
        .clone()
}

fn strange_image(s: &mut Src<'_>, ctx: &mut Ctx, depth: u16) -> Content {
    if s.chance(12) {
        ctx.label("a few pixels, a stream of megabytes");
        let (w, h) = (s.below(9) as u16, s.below(9) as u16);
        return Content::Zip { w, h, data: bomb(s.below(3)) };
    }
    let side = |s: &mut Src<'_>| match s.weighted(&[3, 2, 2, 1]) {
        0 => s.pick(&[65_535u16, 32_768, 65_535, 46_341, 16_384, 65_534]),
        1 => s.u16b(),
        2 => s.u16(),
        _ => 1 + s.below(64) as u16,
    };
    let (w, h) = (side(s), side(s));
    match s.weighted(&[3, 3, 3, 2, 2]) {
        0 => {
            ctx.label("garbage");
            Content::Zip { w, h, data: s.bytes(200) }
        }
        1 => Content::Raw { w, h, data: s.bytes(300) },
        2 => {
            // complete stream for another, smaller image
            let n = s.below(600);
            let px = gen::pixels(s, n, depth);
            ctx.label("stream of a smaller image");
            Content::Zip { w, h, data: gen::zip(s, &px).0 }
        }
        3 => {
            // sizes whose product overflows to something small
            let (w, h) = s.pick(&[(65_535u16, 65_535u16), (32_768, 32_768), (16_384, 65_535), (32_768, 65_535), (256, 65_535), (65_535, 1)]);
            let n = usize::from(w).wrapping_mul(usize::from(h)) & 0xffff;
            ctx.label("size that overflows");
            if s.bool() {
                Content::Raw { w, h, data: vec![0; n] }
            } else {
                let px = vec![0; n];
                Content::Zip { w, h, data: gen::zip(s, &px).0 }
            }
        }
        _ => {
            // large, but really there: flat, so that the data is short
            let (w, h) = (1 + s.below(700) as u16, 1 + s.below(700) as u16);
            let n = usize::from(w) * usize::from(h) * usize::from(depth / 8).clamp(1, 4);
            ctx.label("flat image, extremely compressed");
            let mut c = flate2::Compress::new(flate2::Compression::new(9), true);
            let mut out = Vec::with_capacity(n / 100 + 200);
            let _ = c.compress_vec(&vec![s.u8b(); n], &mut out, flate2::FlushCompress::Finish);
            Content::Zip { w, h, data: out }
        }
    }
}

fn declared(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    let depth = s.pick(&[32u16, 32, 16, 8, 8, 32, 16, 24]);
    let mut d = Doc {
        head: Head { width: 1 + s.below(40) as u16, height: 1 + s.below(40) as u16, depth, ..Head::default() },
        frames: vec![],
    };
    if s.chance(20) {
        d.head.width = s.pick(&[0u16, 1024, 1]);
    }
    let nl = 1 + s.below(6);
    let nf = 1 + s.below(4);
    for fi in 0..nf {
        let mut k: Vec<ChunkM> = vec![];
        if fi == 0 {
            if depth == 8 {
                let n = 1 + s.below(256);
                let e = EntryM { flags: 0, color: s.arr(), name: String::new() };
                k.push(
                    Body::Palette(PaletteM { size: n as u32, first: 0, last: n as u32 - 1, reserved: [0; 8], entries: vec![e; n] })
                        .into(),
                );
            }
            for i in 0..nl {
                let mut l = super::parse::simple_layer(&format!("{i}"));
                l.blend = s.pick(&[0u16, 0, 3, 12, 19]);
                if s.chance(30) {
                    l.kind = 1;
                }
                if s.chance(40) {
                    l.flags = 2;
                }
                k.push(Body::Layer(l).into());
            }
        }
        for i in 0..nl {
            if s.chance(60) {
                continue;
            }
            let content = match s.weighted(&[3, 3]) {
                0 => strange_image(s, ctx, depth),
                _ => gen::image(s, &Opts { cel_size: 8, ..Opts::sprite() }, if depth == 24 { 32 } else { depth }),
            };
            let content = if fi > 0 && s.chance(20) { Content::Linked { frame: s.below(fi) as u16 } } else { content };
            let c = CelM {
                layer: i as u16,
                x: if s.chance(100) { s.i16b() } else { s.range(-4, 8) as i16 },
                y: if s.chance(100) { s.i16b() } else { s.range(-4, 8) as i16 },
                opacity: s.u8b(),
                z: if s.chance(40) { s.i16b() } else { 0 },
                reserved: [0; 5],
                content,
            };
            k.push(Body::Cel(c).into());
        }
        d.frames.push(FrameM::new(1, k));
    }
    let b = encode(&d);
    show(ctx, &d, &b);
    match load(&b)? {
        Ok(f) => cost(s, ctx, &f),
        // links to a missing cel
        Err(_) => {
            ctx.label("not loaded");
            Ok(())
        }
    }
}

fn any_file(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    let o = Opts { odd_blend: true, canvas: 20, cel_size: 16, ..Opts::sprite() };
    let d = if s.bool() { gen::doc(s, &o) } else { gen::picture(s, &gen::Pic::default()) };
    let (mut b, spans) = crate::encode::encode_spans(&d);
    if s.chance(200) {
        super::robust::damage(s, &mut b, &spans, ctx);
    }
    ctx.input(&b);
    ctx.describe(|| d.describe());
    match load(&b)? {
        Ok(f) => cost(s, ctx, &f),
        Err(_) => {
            ctx.label("not loaded");
            Ok(())
        }
    }
}

/// The same calls again and again: nothing piles up.
fn repeated(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    let mut d = match s.below(3) {
        0 => gen::doc(
            s,
            &Opts { images: gen::Images::Any, odd_blend: true, canvas: 8, cel_size: 8, max_frames: 3, max_layers: 3, ..Opts::sprite() },
        ),
        _ => gen::picture(s, &gen::Pic { canvas: 8, frames: 4, ..gen::Pic::default() }),
    };
    // images damaged in one way or another
    if s.chance(100) {
        for c in d.frames.iter_mut().flat_map(|f| &mut f.chunks) {
            if let Body::Cel(CelM { content: Content::Zip { data, .. } | Content::Raw { data, .. }, .. }) = &mut c.body {
                let n = data.len();
                match s.below(4) {
                    0 => data.truncate(n.saturating_sub(1 + s.below(6))),
                    1 if n > 0 => data[n - 1] ^= 1,
                    2 if n > 0 => data[s.below(n)] ^= 1 << s.below(8),
                    _ => {}
                }
            }
        }
        ctx.label("damaged images");
    }
    let b = encode(&d);
    show(ctx, &d, &b);
    let Ok(f) = load(&b)? else {
        ctx.label("not loaded");
        return Ok(());
    };
    if canvas(&d) > 1 << 16 || f.images.iter().any(|i| usize::from(i.width) * usize::from(i.height) > 1 << 14) {
        ctx.label("too large");
        return Ok(());
    }
    let n = f.layers().len();
    let most = f.images.iter().map(|i| usize::from(i.width) * usize::from(i.height) * 4).max().unwrap_or(0);
    let mut buf = vec![0; canvas(&d).max(most)];
    let small = s.below(canvas(&d).max(1));
    let sels: Vec<_> = (0..3)
        .map(|i| match i {
            0 => LayerSelection::All,
            1 => LayerSelection::Visible,
            _ => LayerSelection::Mask((0..n).map(|_| s.bool()).collect()),
        })
        .collect();
    let mut round = || -> R {
        for fi in 0..f.frames().len() {
            for sel in &sels {
                let _ = render_frame(&f, fi, &mut buf, sel)?;
                let _ = render_frame(&f, fi, &mut buf[..small], sel)?;
            }
            let _ = combined(&f, fi, &mut buf)?;
        }
        for i in 0..f.images.len() {
            let _ = decode_image(&f, i, &mut buf)?;
        }
        let _ = guard("select_layers_by_name", || f.select_layers_by_name(&["0", "a"]))?;
        let _ = load(&b)?;
        Ok(())
    };
    round()?;
    let start = alloc::used();
    let rounds = 20 + s.below(30);
    for _ in 0..rounds {
        round()?;
    }
    let before = alloc::used();
    for _ in 0..rounds {
        round()?;
    }
    let after = alloc::used();
    ctx.evaluations(rounds as u64);
    if !f.images.is_empty() {
        ctx.nontrivial(&crate::runner::hash(&b));
    }
    let slack = 8192 + PER_PIXEL as isize * (buf.len() / 4) as isize;
    ensure!(
        before - start <= slack && after - before < rounds as isize,
        "{rounds} rounds of the same calls left {} more bytes in use, another {rounds} rounds {} more ({} calls each)",
        before - start,
        after - before,
        f.frames().len() * (2 * sels.len() + 1) + f.images.len() + 2
    );
    eq!("frames", f.frames().len(), d.frames.len());
    Ok(())
}

// ------------------------------------------------------------------ P26

/// Processor time of this thread in nanoseconds.
fn clock() -> u64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t) };
    t.tv_sec as u64 * 1_000_000_000 + t.tv_nsec as u64
}

/// in any case; per byte or slot; per element (chunk, key, cel, ...); per pixel
const NS: u64 = 60_000_000;
const NS_BYTE: u64 = 100;
const NS_ELEMENT: u64 = 1_000;
const NS_PIXEL: u64 = 400;

fn timely(ctx: &mut Ctx, what: &str, n: usize, more: u64, f: &mut dyn FnMut() -> Result<(), String>) -> R {
    let bound = NS + more;
    let mut best = u64::MAX;
    // the fastest of some attempts, should the machine be at fault
    for i in 0..5 {
        let t = clock();
        f()?;
        best = best.min(clock() - t);
        if best <= bound || best > 40 * bound || (i > 0 && best > 8 * bound) {
            break;
        }
    }
    ctx.evaluations(1);
    ctx.label_if(best > bound / 8, "more than an eighth of the time allowed");
    ctx.label_if(best > bound / 3, "more than a third of the time allowed");
    if std::env::var_os("VERIF_TIMES").is_some() {
        eprintln!("TIME {} % {what} {n} {} us", best * 100 / bound, best / 1000);
    }
    ensure!(best <= bound, "{what} took {} ms of processor time, {} ms allowed for {n} bytes or pixels", best / 1_000_000, bound / 1_000_000);
    Ok(())
}

/// Elements are what there is besides bytes: chunks, frames, entries.
fn timed_load(ctx: &mut Ctx, what: &str, b: &[u8], elements: usize, slots: usize) -> R {
    ctx.input(b);
    let n = b.len() + 16 * slots;
    let more = NS_BYTE * b.len() as u64 + NS_ELEMENT * elements as u64;
    let all = NS_BYTE * n as u64 + NS_ELEMENT * elements as u64;
    timely(ctx, &format!("{what}: parse_raw_file"), b.len(), more, &mut || raw(b).map(|_| ()))?;
    timely(ctx, &format!("{what}: parse_file"), n, all, &mut || file(b).map(|_| ()))?;
    let mut loaded = false;
    timely(ctx, &format!("{what}: load"), n, all, &mut || {
        loaded = guard("load", || al::AsepriteFile::load(b).is_ok())?;
        Ok(())
    })?;
    ctx.label(if loaded { "loaded" } else { "refused" });
    Ok(())
}

fn user_of(s: &mut Src<'_>) -> ChunkM {
    let flags = s.pick(&[0u32, 1, 2, 3]);
    Body::User(UserM { flags, text: "t".into(), color: [1; 4], props: Props::Maps(vec![]) }).into()
}

fn value(s: &mut Src<'_>, n: usize) -> PVal {
    match s.below(7) {
        0 => PVal::Vector(3, (0..n).map(|i| PVal::U8(i as u8)).collect()),
        1 => PVal::Vector(0, (0..n).map(|i| PVal::U16(i as u16)).collect()),
        2 => PVal::Vector(13, (0..n).map(|i| PVal::Str(format!("{i}"))).collect()),
        3 => PVal::Map((0..n).map(|i| (format!("{i}"), PVal::Bool(1))).collect()),
        4 => PVal::Vector(17, (0..n / 2).map(|_| PVal::Vector(3, vec![])).collect()),
        5 => PVal::Vector(18, (0..n / 2).map(|_| PVal::Map(vec![])).collect()),
        _ => {
            // many nested, none deep
            let depth = 2 + s.below(30);
            PVal::Vector(
                0,
                (0..n / depth)
                    .map(|_| {
                        let mut v = PVal::U8(1);
                        for _ in 0..depth {
                            v = PVal::Vector(0, vec![v]);
                        }
                        v
                    })
                    .collect(),
            )
        }
    }
}

const SHAPES: [&str; 17] = [
    "small chunks", "tags", "slices", "slice keys", "layers", "frames", "cels", "links", "properties", "property maps",
    "palette chunks", "old palettes", "external files and tilesets", "long strings", "payloads", "bad properties",
    "frames and layers",
];

pub struct Long {
    pub doc: Doc,
    pub shape: &'static str,
    elements: usize,
    slots: usize,
}

/// A long file in which one thing occurs very often.
pub fn long_doc(s: &mut Src<'_>) -> Long {
    let which = s.below(SHAPES.len());
    let n = s.pick(&[60_000usize, 5_000, 20_000, 100_000, 100_000, 300_000]) + s.below(2_000);
    let mut d = Doc { head: Head::default(), frames: vec![] };
    let mut k: Vec<ChunkM> = vec![];
    let mut slots = 0;
    let followed = s.bool();
    let small = Opts { long: false, ..Opts::default() };
    match which {
        0 => {
            let c: ChunkM = if s.bool() { Body::Path(vec![]).into() } else { Body::Unknown(0x2fff, vec![]).into() };
            k = vec![c; n];
        }
        1 => {
            let mut t = gen::tag(s, &small);
            (t.from, t.to) = (0, 0);
            let per = s.pick(&[1usize, 100, 20_000]);
            for _ in 0..(n / 2).div_ceil(per) {
                k.push(Body::Tags([0; 8], vec![t.clone(); per]).into());
                if followed {
                    let u = user_of(s);
                    k.extend(vec![u; per]);
                }
            }
        }
        2 => {
            let sl = Body::Slice(SliceM { flags: 0, reserved: 0, name: "s".into(), keys: vec![] });
            for _ in 0..n / 2 {
                k.push(sl.clone().into());
                if followed {
                    k.push(user_of(s));
                }
            }
        }
        3 => {
            let mut sl = gen::slice(s, &small, 1);
            sl.flags = s.pick(&[0u32, 1, 2, 3]);
            let key = KeyM { frame: 0, x: 0, y: 0, w: 1, h: 1, nine: (0, 0, 1, 1), pivot: (0, 0) };
            sl.keys = vec![key; n];
            k.push(Body::Slice(sl).into());
        }
        4 => {
            let mut l = super::parse::simple_layer("layer");
            let levels = s.below(3);
            for i in 0..n.min(60_000) {
                l.level = match levels {
                    0 => 0,
                    1 => (i % 50) as u16,
                    _ => i as u16,
                };
                l.kind = u16::from(levels > 0);
                k.push(Body::Layer(l.clone()).into());
                if followed {
                    k.push(user_of(s));
                }
            }
            slots = n.min(60_000);
        }
        5 => {
            let m = n.min(60_000);
            k.push(Body::Layer(super::parse::simple_layer("")).into());
            k.push(
                Body::Cel(CelM {
                    layer: 0,
                    x: 0,
                    y: 0,
                    opacity: 255,
                    z: 0,
                    reserved: [0; 5],
                    content: Content::Raw { w: 1, h: 1, data: vec![9; 4] },
                })
                .into(),
            );
            let link = Body::Cel(CelM {
                layer: 0,
                x: 0,
                y: 0,
                opacity: 255,
                z: 0,
                reserved: [0; 5],
                content: if s.bool() { Content::Linked { frame: 0 } } else { Content::Raw { w: 1, h: 1, data: vec![1; 4] } },
            });
            d.frames.push(FrameM::new(1, k));
            k = vec![];
            for _ in 1..m {
                d.frames.push(FrameM::new(1, vec![link.clone().into()]));
            }
            slots = m;
        }
        6 | 7 => {
            // as many cels as layers, in this or the other order
            let m = 1 + n / 10;
            let l = super::parse::simple_layer("");
            k = vec![Body::Layer(l).into(); m];
            let order = s.below(3);
            for i in 0..m {
                let c = CelM {
                    layer: match order {
                        0 => i,
                        1 => m - 1 - i,
                        _ => (i * 7_919) % m,
                    } as u16,
                    x: 0,
                    y: 0,
                    opacity: 255,
                    z: if order == 1 { -(i as i16) } else { 0 },
                    reserved: [0; 5],
                    content: Content::Raw { w: 1, h: 1, data: vec![1; 4] },
                };
                k.push(Body::Cel(c).into());
                if followed {
                    k.push(user_of(s));
                }
            }
            slots = m;
            if which == 7 {
                d.frames.push(FrameM::new(1, std::mem::take(&mut k)));
                for _ in 0..2 {
                    let f = (0..m)
                        .map(|i| {
                            Body::Cel(CelM {
                                layer: i as u16,
                                x: 0,
                                y: 0,
                                opacity: 255,
                                z: 0,
                                reserved: [0; 5],
                                content: Content::Linked { frame: 0 },
                            })
                            .into()
                        })
                        .collect();
                    d.frames.push(FrameM::new(1, f));
                }
                slots = 3 * m;
            }
        }
        8 => {
            let v = value(s, n);
            let u = UserM {
                flags: 4,
                text: String::new(),
                color: [0; 4],
                props: Props::Maps(vec![PMap { key: 0, props: vec![("v".into(), v)] }]),
            };
            k.push(Body::User(u).into());
        }
        9 => {
            let m = PMap { key: 0, props: if s.bool() { vec![] } else { vec![("p".into(), PVal::U8(1))] } };
            let maps = if s.bool() {
                vec![PMap { key: 0, props: (0..n).map(|i| (format!("{i}"), PVal::U8(1))).collect() }]
            } else {
                (0..n).map(|i| PMap { key: i as u32, ..m.clone() }).collect()
            };
            let u = UserM { flags: 4, text: String::new(), color: [0; 4], props: Props::Maps(maps) };
            k.push(Body::User(u).into());
        }
        10 => {
            d.head.depth = 8;
            let first = s.pick(&[0u32, 255, 7]);
            let e = EntryM { flags: s.below(2) as u16, color: [1; 4], name: "n".into() };
            let p = Body::Palette(PaletteM { size: 256, first, last: first, reserved: [0; 8], entries: vec![e] });
            for _ in 0..n / 2 {
                k.push(p.clone().into());
                if followed {
                    k.push(user_of(s));
                }
            }
        }
        11 => {
            d.head.depth = 8;
            let empty = Packet { skip: 0, colors: vec![[1, 2, 3]] };
            let packets = vec![empty; s.pick(&[1usize, 10, 200])];
            let kind = s.bool();
            let c = if kind { Body::Pal4(packets.clone()) } else { Body::Pal11(packets.clone()) };
            k = vec![c.into(); n / packets.len()];
        }
        12 => {
            if s.bool() {
                let e = gen::external(s, &small);
                if let Body::External(r, v) = e {
                    let one = v.first().cloned().unwrap_or(ExtM { id: 1, kind: 0, reserved: [0; 7], name: "e".into() });
                    k.push(Body::External(r, vec![one; n]).into());
                }
            } else {
                let t = gen::tileset(s, &small);
                k = vec![Body::Tileset(t).into(); n / 4];
            }
        }
        13 => {
            let t = "\u{20ac}".repeat(20_000);
            let u = UserM { flags: 1, text: t.clone(), color: [0; 4], props: Props::Maps(vec![]) };
            k.push(Body::Layer(super::parse::simple_layer(&t)).into());
            k.extend(vec![ChunkM::from(Body::User(u)); n / 2_000]);
        }
        14 => {
            let data = vec![0x11u8; n * 20];
            k.push(Body::Layer(super::parse::simple_layer("")).into());
            k.push(match s.below(4) {
                0 => Body::Unknown(0x2fff, data).into(),
                1 => Body::Path(data).into(),
                2 => Body::Profile(ProfileM { kind: 2, flags: 0, gamma: 0, reserved: [0; 8], icc: data }).into(),
                _ => Body::Cel(CelM {
                    layer: 0,
                    x: 0,
                    y: 0,
                    opacity: 255,
                    z: 0,
                    reserved: [0; 5],
                    content: Content::Zip { w: 65_535, h: 65_535, data },
                })
                .into(),
            });
        }
        15 => {
            let num = s.pick(&[0xffff_ffffu32, 0xffff, 3]);
            let data = if s.bool() { vec![0; 4] } else { [0u8, 0, 0, 0, 255, 255, 255, 255, 0, 0, 17, 0, 255, 255, 255, 255].to_vec() };
            let u = UserM { flags: 4, text: String::new(), color: [0; 4], props: Props::Bad { num, data } };
            k = vec![Body::User(u).into(); n / 4];
        }
        _ => {
            // a slot for each frame and layer: they count like bytes
            let (a, b) = s.pick(&[(300usize, 300usize), (2_000, 40), (40, 2_000), (1, 50_000)]);
            k = vec![Body::Layer(super::parse::simple_layer("")).into(); b];
            d.frames.push(FrameM::new(1, std::mem::take(&mut k)));
            for _ in 1..a {
                d.frames.push(FrameM::new(1, vec![]));
            }
            slots = a * b;
        }
    }
    if d.frames.is_empty() || !k.is_empty() {
        d.frames.push(FrameM::new(1, k));
    }
    let chunks: usize = d.frames.iter().map(|f| f.chunks.len() + 1).sum();
    Long { doc: d, shape: SHAPES[which], elements: chunks.max(n), slots }
}

/// Cut it, or change one byte of it.
pub fn spoil(s: &mut Src<'_>, b: &mut Vec<u8>) {
    let near = s.pick(&[1usize, 40, 3_000, 1 << 40]).min(b.len() - 128);
    let at = b.len() - 1 - s.below(near);
    match s.below(3) {
        0 => b.truncate(at),
        1 => b[at] ^= 1 << s.below(8),
        _ => b[at] = s.u8b(),
    }
}

fn long(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    let l = long_doc(s);
    let mut b = encode(&l.doc);
    if s.chance(90) {
        spoil(s, &mut b);
        ctx.label("spoilt");
    }
    ctx.describe(|| format!("{}, {} elements, {} bytes", l.shape, l.elements, b.len()));
    ctx.label(l.shape);
    ctx.nontrivial(&(l.shape, l.elements, b.len()));
    timed_load(ctx, l.shape, &b, l.elements, l.slots)
}

/// Short files that claim a lot.
fn claims(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    let d = super::robust::mixed(s);
    let (mut b, spans) = crate::encode::encode_spans(&d);
    super::robust::damage(s, &mut b, &spans, ctx);
    ctx.nontrivial(&b);
    let (f, l) = super::robust::slots(&b);
    timed_load(ctx, "damaged", &b, b.len() / 6, f * l)
}

/// Several things very often in one file: what is quadratic in two of them shows.
fn films(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    let (mut nl, nf) = s.pick(&[(3usize, 40_000usize), (50_000, 2), (1_500, 1_500), (1, 100_000), (60, 30_000), (150_000, 1)]);
    if s.chance(40) {
        nl = nl.min(2);
    }
    let mut r = s.bulk();
    let depth = s.pick(&[32u16, 8, 16]);
    let px = usize::from(depth / 8);
    let mut first: Vec<ChunkM> = vec![];
    let count = |s: &mut Src<'_>| if s.bool() { 0 } else { s.pick(&[20_000usize, 60_000, 2_000]) };
    let (nt, ns, np) = (count(s), count(s), if depth == 8 { count(s).max(1) } else { 0 });
    let followed = s.chance(100);
    let user = user_of(s);
    let distinct = s.chance(200);
    let prefix = if s.chance(60) { "a long name that they all have in common " } else { "" };
    let name = |i: usize| if distinct { format!("{prefix}{i}") } else { "n".to_string() };
    for i in 0..np {
        let at = (i % 256) as u32;
        let e = EntryM { flags: 1, color: [i as u8, (i >> 8) as u8, 7, 255], name: name(i) };
        first.push(Body::Palette(PaletteM { size: 256, first: at, last: at, reserved: [0; 8], entries: vec![e] }).into());
    }
    let nested = s.below(3);
    for i in 0..nl {
        let mut l = super::parse::simple_layer(&name(i));
        l.flags = (r.next() & 0x7f) as u16;
        l.blend = (r.next() % 19) as u16;
        l.opacity = r.byte();
        if nested > 0 {
            l.kind = u16::from(i % 3 == 0);
            l.level = if nested == 1 { (r.next() % 60) as u16 } else { (i % 60_000) as u16 };
        }
        first.push(Body::Layer(l).into());
        if followed {
            first.push(user.clone());
        }
    }
    let last = (nf - 1).min(65_535) as u64;
    if nt > 0 {
        let wide = s.bool();
        let proto = gen::tag(s, &Opts { long: false, ..Opts::default() });
        let mut t: Vec<TagM> = (0..nt)
            .map(|i| {
                let from = if wide { 0 } else { r.next() % (last + 1) };
                let to = if wide { last } else { from + r.next() % (last - from + 1) };
                TagM { name: name(i), from: from as u16, to: to as u16, ..proto.clone() }
            })
            .collect();
        while !t.is_empty() {
            let part: Vec<TagM> = t.drain(..t.len().min(50_000)).collect();
            let m = part.len();
            first.push(Body::Tags([0; 8], part).into());
            if followed {
                first.extend(vec![user.clone(); m]);
            }
        }
    }
    for i in 0..ns {
        let key = |frame| KeyM { frame, x: 0, y: 0, w: 1, h: 1, nine: (0, 0, 1, 1), pivot: (0, 0) };
        let keys = (0..r.next() % 4).map(|_| key((r.next() % (last + 1)) as u32)).collect();
        first.push(Body::Slice(SliceM { flags: 0, reserved: 0, name: name(i), keys }).into());
        if followed {
            first.push(user.clone());
        }
    }
    let mut d = Doc { head: Head { width: 2, height: 2, depth, ..Head::default() }, frames: vec![] };
    let links = s.pick(&[0u64, 128, 250, 256]);
    let per = s.pick(&[2usize, 1, 40]).min(nl);
    // the order in which the cels of a frame are drawn
    let order = s.below(4);
    let mut images: Vec<Option<(u16, u16)>> = vec![None; nl.min(65_536)];
    let zip = if s.bool() { Some(gen::zip(s, &vec![1; px]).0) } else { None };
    let mut cels = 0;
    for f in 0..nf {
        let mut k = if f == 0 { std::mem::take(&mut first) } else { vec![] };
        let many = if nf <= 2 { nl.min(60_000) } else { per };
        let start = if many == images.len() { 0 } else { r.below((images.len() - many) as u64 + 1) as usize };
        for layer in start..start + many {
            let link = f < 65_536 && images[layer].is_some() && r.next() % 256 < links;
            let content = match images[layer] {
                Some((a, b)) if link => Content::Linked { frame: if r.next() % 2 == 0 { a } else { b } },
                _ => match &zip {
                    Some(z) => Content::Zip { w: 1, h: 1, data: z.clone() },
                    None => Content::Raw { w: 1, h: 1, data: vec![r.byte(); px] },
                },
            };
            if !link && f < 65_536 {
                let a = images[layer].map_or(f as u16, |x| x.0);
                images[layer] = Some((a, f as u16));
            }
            let c = CelM {
                layer: layer as u16,
                x: (r.next() % 2) as i16,
                y: 0,
                opacity: 255,
                z: match order {
                    0 => (r.next() % 5) as i16 - 2,
                    // backwards
                    1 => (32_767 - 2 * (layer - start) as i32).max(-32_768) as i16,
                    2 => r.next() as i16,
                    // all the same
                    _ => (-(layer as i32)).max(-32_768) as i16,
                },
                reserved: [0; 5],
                content,
            };
            k.push(Body::Cel(c).into());
            cels += 1;
            if followed && nf < 10 {
                k.push(user.clone());
            }
        }
        d.frames.push(FrameM::new(1, k));
    }
    let b = encode(&d);
    let elements: usize = nt + 3 * ns + d.frames.iter().map(|f| f.chunks.len() + 1).sum::<usize>();
    ctx.describe(|| {
        format!("{nl} layers, {nf} frames, {cels} cels ({links}/256 links), {nt} tags, {ns} slices, {np} palette chunks, {} bytes", b.len())
    });
    ctx.label_if(nt > 0, "tags");
    ctx.label_if(ns > 0, "slices");
    ctx.label_if(np > 1, "palettes");
    ctx.label_if(links > 0, "links");
    ctx.label_if(followed, "user data");
    ctx.nontrivial(&(nl, nf, nt, ns, np, b.len()));
    timed_load(ctx, "film", &b, elements, nl * nf)?;
    // and all of it drawn once
    let f = load_ok(&b)?;
    let mut buf = [0; 16];
    let calls = f.frames().len().min(if zip.is_some() { 2_000 } else { 20_000 });
    let drawn: usize = f.frames()[..calls].iter().map(|f| f.cels.len()).sum();
    let sel = match s.below(4) {
        0 | 1 => LayerSelection::All,
        2 => LayerSelection::Visible,
        _ => LayerSelection::Mask((0..f.layers().len()).map(|_| r.next() % 8 > 0).collect()),
    };
    // an inflater has tables to set up
    let each = if zip.is_some() { 100_000 } else { 5_000 };
    let more = 5_000 * calls as u64 + each * drawn as u64;
    timely(ctx, "film: all frames rendered", drawn, more, &mut || {
        (0..calls).try_for_each(|i| render_frame(&f, i, &mut buf, &sel).map(|_| ()))
    })?;
    let calls = f.images.len().min(if zip.is_some() { 2_000 } else { 30_000 });
    timely(ctx, "film: all images decoded", calls, each * calls as u64, &mut || {
        (0..calls).try_for_each(|i| decode_image(&f, i, &mut buf).map(|_| ()))
    })?;
    let names = name(nl - 1);
    timely(ctx, "film: a layer selected by name", nl, 500 * nl as u64, &mut || {
        guard("select_layers_by_name", || f.select_layers_by_name(&[&names])).map(|_| ())
    })
}

/// Many cels on a large canvas, large cels on a small one, far away, ...
fn drawing(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    let side = |s: &mut Src<'_>| s.pick(&[1u16, 600, 1000, 16, 300]);
    // one of them very long
    let thin = |s: &mut Src<'_>| {
        let long = 65_535 - s.pick(&[0u16, 1, 40_000]);
        let wide = s.pick(&[1u16, 2, 12]);
        if s.bool() {
            (long, wide)
        } else {
            (wide, long)
        }
    };
    let depth = s.pick(&[32u16, 16, 8]);
    let (width, height) = if s.chance(30) { thin(s) } else { (side(s), side(s)) };
    let mut d = Doc { head: Head { width, height, depth, ..Head::default() }, frames: vec![] };
    let mut k: Vec<ChunkM> = vec![];
    if depth == 8 {
        let e = EntryM { flags: 0, color: [9, 8, 7, 255], name: String::new() };
        k.push(
            Body::Palette(PaletteM { size: 256, first: 0, last: 255, reserved: [0; 8], entries: vec![e; 256] }).into(),
        );
    }
    let few = s.bool();
    let m = if few { 1 + s.below(3) } else { 300 + s.below(1500) };
    let mut l = super::parse::simple_layer("");
    for _ in 0..m {
        l.blend = s.below(19) as u16;
        k.push(Body::Layer(l.clone()).into());
    }
    let bad = s.chance(60);
    let mut data = vec![];
    for i in 0..m {
        let (w, h) = if few && s.chance(100) {
            ctx.label("a very long cel");
            thin(s)
        } else if few {
            (side(s), side(s))
        } else { (1 + s.below(2) as u16, 1 + s.below(2) as u16) };
        let n = usize::from(w) * usize::from(h) * usize::from(depth / 8);
        let content = if few {
            let mut c = flate2::Compress::new(flate2::Compression::new(1), true);
            data.clear();
            data.reserve(n + 100);
            let _ = c.compress_vec(&vec![0x77; n], &mut data, flate2::FlushCompress::Finish);
            Content::Zip { w, h, data: data.clone() }
        } else {
            Content::Raw { w, h, data: vec![0x55; n] }
        };
        let content = if bad && i + 1 == m { Content::Zip { w: 65_535, h: 65_535, data: vec![1, 2, 3] } } else { content };
        let far = s.chance(100);
        let c = CelM {
            layer: i as u16,
            x: if far { s.i16b() } else { s.below(10) as i16 },
            y: if far { s.i16b() } else { s.below(10) as i16 },
            opacity: 255,
            z: s.range(-3, 3) as i16,
            reserved: [0; 5],
            content,
        };
        k.push(Body::Cel(c).into());
    }
    d.frames.push(FrameM::new(1, k));
    let b = encode(&d);
    ctx.input(&b);
    ctx.describe(|| format!("{}x{} with {m} cels, {} bits", d.head.width, d.head.height, depth));
    ctx.nontrivial(&crate::runner::hash(&b));
    ctx.label(if few { "few large cels" } else { "many small cels" });
    let f = load_ok(&b)?;
    let mut buf = vec![0; canvas(&d)];
    let px: usize = f.frames()[0].cels.iter().map(|c| in_file(&f, c.image_index) + 100).sum();
    let n = canvas(&d) / 4 + px;
    for sel in [LayerSelection::All, LayerSelection::Visible, LayerSelection::Mask(vec![true; 2])] {
        timely(ctx, "render_frame", n, NS_PIXEL * n as u64, &mut || render_frame(&f, 0, &mut buf, &sel).map(|_| ()))?;
    }
    timely(ctx, "combined_frame_image", n, NS_PIXEL * n as u64, &mut || combined(&f, 0, &mut buf).map(|_| ()))?;
    for i in 0..f.images.len().min(4) {
        let a = usize::from(f.images[i].width) * usize::from(f.images[i].height) * 4;
        if a <= render::AREA_LIMIT * 4 {
            let mut buf = vec![0; a];
            timely(ctx, "load_image", a, NS_PIXEL * a as u64, &mut || decode_image(&f, i, &mut buf).map(|_| ()))?;
        }
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P25",
            rule: "a frame with cels that is rendered, distinct images and canvas; or a file whose calls are repeated",
            assumptions: &["16 bytes per pixel and 1 MiB are allowed in any case", "canvases of at most 2^20 pixels"],
            families: vec![
                fam("declared", declared, (120_000, 3_000_000), 400),
                fam("any file", any_file, (80_000, 2_000_000), 700),
                fam("repeated", repeated, (12_000, 300_000), 400),
            ],
        },
        Prop {
            id: "P26",
            rule: "a file that is loaded or a frame that is rendered, distinct shape and size",
            assumptions: &[
                "processor time of the thread, fastest of some attempts, 60 ms allowed in any case",
                "100 ns per byte of input, 1000 ns per element, 1600 ns per slot of a frame and layer, 400 ns per pixel, 5 us per call and cel (100 us if compressed)",
            ],
            families: vec![
                fam("long", long, (1_500, 40_000), 64),
                fam("films", films, (160, 4_000), 64),
                fam("claims", claims, (60_000, 1_500_000), 700),
                fam("drawing", drawing, (4_000, 80_000), 400),
            ],
        },
    ]
}
