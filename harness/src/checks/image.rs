//! P15 P16: decoding of images.

use super::*;
use crate::encode::encode;
use crate::gen::{self, Opts};
use crate::render;
use crate::runner::{fam, hash, Ctx, Prop, R};
use crate::src::Src;
use crate::{ensure, eq};

/// What a case stores.
pub struct Shot {
    pub w: u16,
    pub h: u16,
    /// stored pixels
    pub px: Vec<u8>,
}

fn bytes_per(depth: u16) -> usize {
    usize::from(depth / 8)
}

pub fn shot(s: &mut Src<'_>, depth: u16) -> Shot {
    let (w, h): (usize, usize) = match s.weighted(&[8, 2, 1, 1, 1]) {
        0 => (1 + s.below(17), 1 + s.below(17)),
        4 => {
            let (a, b) = (s.literal(9000).unwrap_or(0), s.below(20));
            if s.bool() {
                (a, b)
            } else {
                (b, a)
            }
        }
        1 => {
            let n = s.pick(&[0usize, 1, 2, 255, 256]);
            if s.bool() {
                (s.below(4), n)
            } else {
                (n, s.below(4))
            }
        }
        2 => s.pick(&[(300usize, 300usize), (256, 256), (257, 129), (128, 512), (1000, 3)]),
        _ => s.pick(&[(65_535usize, 1usize), (1, 65_535), (65_535, 0), (0, 65_535), (40_000, 2), (255, 257)]),
    };
    let px = gen::pixels(s, w * h * bytes_per(depth), depth);
    Shot { w: w as u16, h: h as u16, px }
}

/// One layer, one frame per image.
fn document(s: &mut Src<'_>, depth: u16, images: Vec<Content>) -> Doc {
    let mut head = Head { depth, width: 4, height: 4, ..Head::default() };
    let mut chunks: Vec<ChunkM> = vec![];
    if depth == 8 {
        head.transparent = s.u8b();
        let o = Opts { long: false, ..Opts::default() };
        let mut p = gen::palette(s, &o);
        if s.chance(200) {
            // a full palette
            let mut b = s.bulk();
            p.size = 256;
            p.first = 0;
            p.last = 255;
            p.entries = (0..256)
                .map(|_| EntryM { flags: 0, color: std::array::from_fn(|_| b.byte()), name: String::new() })
                .collect();
        }
        chunks.push(Body::Palette(p).into());
    }
    // what the sprite is like otherwise does not matter
    let odd = s.chance(128);
    let mut l = super::parse::simple_layer("l");
    if odd {
        head.flags = s.u32b();
        l = gen::layer(s, &Opts { long: false, ..Opts::default() }, 0, 0);
        l.blend = s.pick(&[0u16, 1, 18, 19]);
    }
    chunks.push(Body::Layer(l).into());
    let mut frames = vec![];
    for (i, c) in images.into_iter().enumerate() {
        let mut cel = CelM { layer: 0, x: 0, y: 0, opacity: 255, z: 0, reserved: [0; 5], content: c };
        if odd && s.bool() {
            (cel.x, cel.y, cel.opacity, cel.z) = (s.i16b(), s.i16b(), s.u8b(), s.i16b());
        }
        let mut k = if i == 0 { std::mem::take(&mut chunks) } else { vec![] };
        k.push(Body::Cel(cel).into());
        frames.push(FrameM::new(1, k));
    }
    Doc { head, frames }
}

fn store(s: &mut Src<'_>, ctx: &mut Ctx, x: &Shot) -> Content {
    if s.chance(170) {
        let (data, way) = gen::zip(s, &x.px);
        ctx.label(way);
        Content::Zip { w: x.w, h: x.h, data }
    } else {
        ctx.label("raw");
        Content::Raw { w: x.w, h: x.h, data: x.px.clone() }
    }
}

fn depth_label(d: u16) -> &'static str {
    match d {
        32 => "RGBA",
        16 => "grayscale",
        8 => "indexed",
        _ => "other depth",
    }
}

fn exact(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    let n = 1 + s.below(3);
    check_exact(s, ctx, n, shot)
}

/// Many images in a file, or very large ones of any shape.
fn large(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    s.grow();
    s.grow = crate::src::Grow::NONE;
    if s.below(3) == 0 {
        let n = s.pick(&[255usize, 256, 257, 300, 520, 1000]) + s.below(9);
        ctx.label("more than 250 images");
        check_exact(s, ctx, n, |s, depth| {
            let (w, h) = (1 + s.below(4), 1 + s.below(4));
            let px = gen::pixels(s, w * h * bytes_per(depth), depth);
            Shot { w: w as u16, h: h as u16, px }
        })
    } else {
        let n = 1 + s.below(2);
        check_exact(s, ctx, n, |s, depth| {
            let area = 1 + s.below(700_000);
            let w = match s.below(3) {
                0 => 1 + s.below(65_535),
                1 => 1 + s.below(40),
                _ => 1 + s.below(area.isqrt() * 2),
            };
            let h = (area / w).clamp(1, 65_535);
            let (w, h) = if s.bool() { (w, h) } else { (h, w) };
            let px = gen::pixels(s, w * h * bytes_per(depth), depth);
            Shot { w: w as u16, h: h as u16, px }
        })
    }
}

/// Images of more than 2^24 pixels.
fn vast_images(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    check_exact(s, ctx, 1, |s, depth| {
        let area = (1 << 24) + s.below(1 << 20);
        let w = match s.below(3) {
            0 => 256 + s.below(65_279),
            1 => 257 + s.below(40),
            _ => 4_096 + s.below(8),
        };
        let h = (area / w + 1).min(65_535);
        let (w, h) = if s.bool() { (w, h) } else { (h, w) };
        let n = w * h * bytes_per(depth);
        // noise that repeats with a period in which no boundary falls
        let mut b = s.bulk();
        let part = vast::noise(&mut b, 65_537 + s.below(1_000));
        let mut px = Vec::with_capacity(n + part.len());
        while px.len() < n {
            px.extend_from_slice(&part);
            px.push(b.byte());
        }
        px.truncate(n);
        Shot { w: w as u16, h: h as u16, px }
    })
}

fn check_exact(s: &mut Src<'_>, ctx: &mut Ctx, n: usize, shot: fn(&mut Src<'_>, u16) -> Shot) -> R {
    let depth = s.pick(&[32u16, 16, 8]);
    ctx.label(depth_label(depth));
    let mut shots = vec![];
    let mut images = vec![];
    for _ in 0..n {
        let x = shot(s, depth);
        images.push(store(s, ctx, &x));
        // the same pixels stored another way
        if s.chance(100) {
            images.push(store(s, ctx, &x));
            shots.push(Shot { w: x.w, h: x.h, px: x.px.clone() });
        }
        shots.push(x);
    }
    let d = document(s, depth, images);
    let b = encode(&d);
    show(ctx, &d, &b);
    let pal = must(crate::view::palette(&d));
    let id = hash(&b);
    let f = load_ok(&b)?;
    eq!("image_count", f.image_count(), shots.len());
    for (i, x) in shots.iter().enumerate() {
        let area = usize::from(x.w) * usize::from(x.h);
        let want = must(render::image(
            depth,
            pal.as_deref(),
            &Content::Raw { w: x.w, h: x.h, data: x.px.clone() },
        ));
        if area >= 4 {
            ctx.nontrivial(&(id, i));
        }
        ctx.label_if(area == 0, "empty image");
        ctx.label_if(area > 65_536, "more than 65536 pixels");
        // exactly large enough, and larger with any content
        let spare = if s.chance(100) { 0 } else { 1 + s.below(300) };
        let fill = s.byte();
        // anywhere in memory
        let at = s.below(9);
        let mut room = vec![fill; at + area * 4 + spare];
        let buf = &mut room[at..];
        decode_image(&f, i, buf)?
            .map_err(|e| format!("image {i} ({}x{}, depth {depth}) not decoded: {e}", x.w, x.h))?;
        if let Some(p) = (0..area * 4).find(|p| buf[*p] != want[*p]) {
            return Err(format!(
                "image {i} ({}x{}, depth {depth}): byte {p} is {} instead of {}",
                x.w, x.h, buf[p], want[p]
            ));
        }
        ensure!(buf[area * 4..].iter().all(|v| *v == fill), "image {i}: written beyond its {} bytes", area * 4);
        // one byte less is not enough
        if area > 0 && s.chance(60) {
            let mut buf = vec![fill; area * 4 - 1];
            let r = decode_image(&f, i, &mut buf)?;
            ensure!(r.is_err(), "image {i} decoded into a buffer that is one byte short");
        }
    }
    // the public decompression on its own
    for (i, im) in f.images.iter().enumerate() {
        if im.compressed {
            let mut buf = vec![0x77; shots[i].px.len()];
            guard("decompress", || al::decompress(im.data, &mut buf).map_err(|e| e.to_string()))?
                .map_err(|e| format!("image {i}: decompress: {e}"))?;
            ensure!(buf == shots[i].px, "image {i}: decompress gives other bytes");
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ P16

/// Does the compressed data hold exactly `n` bytes? None: not judged.
pub(super) fn verdict(data: &[u8], n: usize) -> Option<Result<Vec<u8>, String>> {
    let r = render::inflate(data, n);
    if r.is_ok() {
        // bytes behind the end of the stream are not judged
        let mut d = flate2::Decompress::new(true);
        let mut out = vec![0u8; n + 64];
        let _ = d.decompress(data, &mut out, flate2::FlushDecompress::Finish);
        if d.total_in() != data.len() as u64 {
            return None;
        }
    }
    Some(r)
}

fn spoil(s: &mut Src<'_>, ctx: &mut Ctx, depth: u16, x: &Shot) -> Content {
    let (w, h) = (x.w, x.h);
    let n = x.px.len();
    // a wrong number of bytes
    let other = |s: &mut Src<'_>| -> Vec<u8> {
        let area = usize::from(w) * usize::from(h);
        let m = match s.weighted(&[12, 12, 6, 6, 1]) {
            4 => {
                // as wrong as some bits of the length do not show
                let k = (1 + s.below(3)) << s.pick(&[8u32, 8, 16, 16, 16, 17, 18]);
                if s.bool() && k <= n {
                    n - k
                } else {
                    n + k
                }
            }
            0 => n.saturating_sub(1 + s.below(5)),
            1 => n + 1 + s.below(5),
            2 => area * s.pick(&[1usize, 2, 4, 3, 8]),
            _ => s.below(n + 1),
        };
        let mut v = x.px.clone();
        v.resize(m, 0xc3);
        v
    };
    match s.below(10) {
        9 => {
            // the first one counts, and is too short or too long
            ctx.label("several streams");
            let at = match s.below(3) {
                0 => s.below(n + 1),
                1 => n.saturating_sub(1 + s.below(8)),
                _ => usize::from(w) * usize::from(h) * s.pick(&[1usize, 2, 4]) / 2,
            }
            .min(n);
            let (mut data, _) = gen::zip(s, &x.px[..at]);
            let (more, _) = gen::zip(s, &x.px[at..]);
            let plain = x.px[at..].to_vec();
            data.extend(match s.below(4) {
                0 => plain,
                1 => gen::zip(s, &x.px).0,
                _ => more,
            });
            Content::Zip { w, h, data }
        }
        0 => {
            ctx.label("raw data of another length");
            Content::Raw { w, h, data: other(s) }
        }
        1 => {
            ctx.label("compressed data of another length");
            let o = other(s);
            let (data, _) = gen::zip(s, &o);
            Content::Zip { w, h, data }
        }
        2 => {
            ctx.label("stream cut");
            let (mut data, _) = gen::zip(s, &x.px);
            let k = if s.bool() { 1 + s.below(8) } else { 1 + s.below(data.len()) };
            data.truncate(data.len().saturating_sub(k));
            Content::Zip { w, h, data }
        }
        3 => {
            ctx.label("stream corrupted");
            let (mut data, _) = gen::zip(s, &x.px);
            let k = 1 + s.below(3);
            for _ in 0..k {
                let at = s.below(data.len());
                data[at] ^= 1 << s.below(8);
            }
            Content::Zip { w, h, data }
        }
        4 => {
            ctx.label("checksum wrong");
            let (mut data, _) = gen::zip(s, &x.px);
            let at = data.len() - 1 - s.below(4);
            data[at] = data[at].wrapping_add(1 + s.below(255) as u8);
            Content::Zip { w, h, data }
        }
        5 => {
            ctx.label("no zlib stream");
            let data = match s.below(4) {
                0 => s.bytes(60),
                1 => x.px.clone(),
                2 => {
                    // without the zlib header
                    let (data, _) = gen::zip(s, &x.px);
                    data[2..].to_vec()
                }
                _ => vec![],
            };
            Content::Zip { w, h, data }
        }
        6 => {
            ctx.label("dimensions changed");
            let (nw, nh) = match s.below(4) {
                0 => (w.wrapping_add(1), h),
                1 => (w, h.wrapping_add(1)),
                2 => (w.saturating_sub(1), h),
                _ => (h, w.saturating_add(s.below(3) as u16)),
            };
            if s.bool() {
                let (data, _) = gen::zip(s, &x.px);
                Content::Zip { w: nw, h: nh, data }
            } else {
                Content::Raw { w: nw, h: nh, data: x.px.clone() }
            }
        }
        7 => {
            ctx.label("stored in the other way");
            if s.bool() {
                let (data, _) = gen::zip(s, &x.px);
                Content::Raw { w, h, data }
            } else {
                Content::Zip { w, h, data: x.px.clone() }
            }
        }
        _ => {
            ctx.label("valid");
            let _ = depth;
            store(s, ctx, x)
        }
    }
}

fn wrong(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    let depth = if s.chance(16) { s.pick(&[0u16, 1, 24, 33, 64, 65535, 4]) } else { s.pick(&[32u16, 16, 8]) };
    ctx.label(depth_label(depth));
    let n = 1 + s.below(3);
    let mut images = vec![];
    for _ in 0..n {
        let x = shot(s, if matches!(depth, 8 | 16 | 32) { depth } else { 32 });
        images.push(spoil(s, ctx, depth, &x));
    }
    let mut d = document(s, depth, images);
    if s.chance(20) {
        d.head.depth = s.pick(&[0u16, 7, 9, 24, 31, 48]);
    }
    let b = encode(&d);
    show(ctx, &d, &b);
    let pal = must(crate::view::palette(&d));
    let depth = d.head.depth;
    let f = load_ok(&b)?;
    let cels: Vec<&CelM> = d
        .chunks()
        .filter_map(|c| if let Body::Cel(c) = &c.body { Some(c) } else { None })
        .collect();
    for (i, c) in cels.iter().enumerate() {
        let area = render::area(&c.content);
        if area > render::AREA_LIMIT {
            continue;
        }
        let want = render::image(depth, pal.as_deref(), &c.content);
        if let Content::Zip { data, .. } = &c.content {
            if matches!(depth, 8 | 16 | 32) && verdict(data, area * bytes_per(depth)).is_none() {
                ctx.label("bytes behind the stream, not judged");
                continue;
            }
        }
        if want.is_err() {
            ctx.nontrivial(&(&b, i));
        }
        // twice, into different contents: a success must determine all bytes
        let mut first = vec![0x00; area * 4];
        let mut second = vec![0xff; area * 4];
        let r1 = decode_image(&f, i, &mut first)?;
        let r2 = decode_image(&f, i, &mut second)?;
        match (&want, &r1) {
            (Err(e), Ok(())) => return Err(format!("image {i} decoded although: {e}")),
            (Ok(_), Err(e)) => return Err(format!("image {i} refused although it is complete: {e}")),
            _ => {}
        }
        eq!(format!("image {i}: second result"), r2.is_ok(), r1.is_ok());
        if let (Ok(px), Ok(())) = (&want, &r1) {
            ctx.label("accepted");
            ensure!(first == *px, "image {i}: wrong pixels");
            ensure!(second == *px, "image {i}: bytes not determined by the file");
        } else {
            ctx.label("refused");
            // an error in a larger buffer, too
            let mut third = vec![0x11; area * 4 + 1 + s.below(64)];
            let keep = third.len() - area * 4;
            let r3 = decode_image(&f, i, &mut third)?;
            ensure!(r3.is_err(), "image {i} refused in one buffer, decoded in a larger one");
            ensure!(third[third.len() - keep..].iter().all(|v| *v == 0x11), "image {i}: written beyond its area");
        }
        // and every smaller buffer is refused
        for _ in 0..2 {
            if area == 0 {
                break;
            }
            let m = match s.below(3) {
                0 => area * 4 - 1,
                1 => s.below(area * 4),
                _ => area * s.below(4),
            };
            let mut small = vec![0x22; m];
            let r = decode_image(&f, i, &mut small)?;
            ensure!(r.is_err(), "image {i} of {area} pixels decoded into {m} bytes");
        }
    }
    // the public decompression: exactly the target must be filled
    for c in &cels {
        if let Content::Zip { data, .. } = &c.content {
            let n = match s.below(3) {
                0 => render::area(&c.content) * 4,
                1 => render::area(&c.content),
                _ => s.below(2_000),
            }
            .min(1 << 21);
            let Some(want) = verdict(data, n) else { continue };
            let mut buf = vec![0x33; n];
            let r = guard("decompress", || al::decompress(data, &mut buf).map_err(|e| e.to_string()))?;
            match (want, r) {
                (Err(e), Ok(())) => return Err(format!("decompress into {n} bytes succeeded although: {e}")),
                (Ok(_), Err(e)) => return Err(format!("decompress into {n} bytes failed: {e}")),
                (Ok(w), Ok(())) => ensure!(w == buf, "decompress: wrong bytes"),
                _ => {}
            }
        }
    }
    Ok(())
}

/// Every cut and every single-bit corruption of one small stream.
fn every_cut(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    let depth = s.pick(&[32u16, 16, 8]);
    let (w, h) = (1 + s.below(6) as u16, 1 + s.below(6) as u16);
    let px = gen::pixels(s, usize::from(w) * usize::from(h) * bytes_per(depth), depth);
    let (stream, way) = gen::zip(s, &px);
    ctx.label(way);
    let mut images = vec![];
    for n in 0..stream.len() {
        images.push(Content::Zip { w, h, data: stream[..n].to_vec() });
    }
    for bit in 0..stream.len().min(60) * 8 {
        let mut v = stream.clone();
        v[bit / 8] ^= 1 << (bit % 8);
        images.push(Content::Zip { w, h, data: v });
    }
    let n = images.len();
    let d = document(s, depth, images);
    let b = encode(&d);
    show(ctx, &d, &b);
    ctx.nontrivial(&b);
    ctx.evaluations(n as u64);
    let pal = must(crate::view::palette(&d));
    let f = load_ok(&b)?;
    let cels = d.chunks().filter_map(|c| if let Body::Cel(c) = &c.body { Some(c) } else { None });
    let area = usize::from(w) * usize::from(h);
    let mut buf = vec![0; area * 4];
    for (i, c) in cels.enumerate() {
        let Content::Zip { data, .. } = &c.content else { continue };
        if verdict(data, px.len()).is_none() {
            continue;
        }
        let want = render::image(depth, pal.as_deref(), &c.content);
        buf.fill(0x44);
        let r = decode_image(&f, i, &mut buf)?;
        match (&want, &r) {
            (Err(e), Ok(())) => return Err(format!("variant {i} decoded although: {e}")),
            (Ok(_), Err(e)) => return Err(format!("variant {i} refused although complete: {e}")),
            (Ok(w), Ok(())) => ensure!(*w == buf, "variant {i}: wrong pixels"),
            _ => {}
        }
    }
    Ok(())
}

/// Images whose size overflows the usual integer types, with little data:
/// whatever the buffer holds, it is too small for them.
fn huge(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    let depth = s.pick(&[32u16, 16, 8]);
    let n = 1 + s.below(4);
    let mut images = vec![];
    for _ in 0..n {
        let (w, h) = match s.below(4) {
            0 => s.pick(&[
                (65_535u16, 65_535u16),
                (32_768, 32_768),
                (65_535, 16_385),
                (16_384, 65_535),
                (46_341, 46_341),
                (32_768, 65_535),
                (65_535, 32_769),
                (256, 256),
                (512, 128),
                (128, 128),
                (256, 64),
            ]),
            1 => (1 << (4 + s.below(12)), 1 << (4 + s.below(12))),
            2 => (s.u16b(), s.u16b()),
            _ => (65_535 - s.below(3) as u16, 1 + s.below(3) as u16),
        };
        let data = match s.below(3) {
            0 => vec![],
            1 => s.bytes(16),
            _ => vec![7; s.below(70_000)],
        };
        images.push(match s.below(3) {
            0 => Content::Raw { w, h, data },
            1 => Content::Zip { w, h, data },
            _ => Content::Zip { w, h, data: gen::zip(s, &data).0 },
        });
    }
    let d = document(s, depth, images);
    let b = encode(&d);
    show(ctx, &d, &b);
    let f = load_ok(&b)?;
    let cels = d.chunks().filter_map(|c| if let Body::Cel(c) = &c.body { Some(c) } else { None });
    for (i, c) in cels.enumerate() {
        let area = render::area(&c.content);
        let full = area * 4;
        ctx.label_if(full > u32::MAX as usize, "more than 2^32 bytes");
        for _ in 0..3 {
            let m = match s.below(6) {
                0 => 0,
                1 => full & 0xffff,
                2 => full & 0xf_ffff,
                3 => area & 0xffff,
                4 => ((area & 0xffff) * 4).max(4) - 1,
                _ => s.below(300_000),
            };
            let r = decode_image(&f, i, &mut vec![0x5b; m])?;
            if m < full {
                ctx.nontrivial(&(&b, i, m));
                ensure!(r.is_err(), "image {i} of {area} pixels decoded into {m} bytes");
            } else if r.is_ok() {
                let Content::Raw { .. } = c.content else { continue };
                let want = render::image(depth, must(crate::view::palette(&d)).as_deref(), &c.content);
                ensure!(want.is_ok(), "image {i} of {area} pixels decoded although: {}", want.unwrap_err());
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ table

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P15",
            rule: "an image of at least four pixels, distinct file bytes and image",
            assumptions: &["streams are made by flate2's compressor and by an encoder of stored blocks"],
            families: vec![fam("exact", exact, (120_000, 2_400_000), 200), fam("large", large, (1_500, 40_000), 200), fam("vast", vast_images, (24, 600), 64)],
        },
        Prop {
            id: "P16",
            rule: "an image whose data is wrong, distinct file bytes and image; all cuts and bit flips of a stream",
            assumptions: &[
                "whether a stream is complete is decided by flate2 with an output buffer larger than the image",
                "bytes behind a complete stream are not judged",
            ],
            families: vec![
                fam("wrong data", wrong, (120_000, 3_200_000), 200),
                fam("every cut", every_cut, (7_200, 240_000), 60),
                fam("huge", huge, (60_000, 1_200_000), 60),
            ],
        },
    ]
}
