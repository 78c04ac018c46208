//! P17 P18 P19 P20 P21: compositing, rendering, selection, buffers, hashes.

use super::*;
use crate::blend;
use crate::decode;
use crate::encode::{encode, encode_spans};
use crate::gen::{self, Images, Opts, Pic};
use crate::render::{self, Background};
use crate::runner::{all as exhaustive, fam, hash, Ctx, Prop, R};
use crate::src::{Bulk, Src};
use crate::view::{self, LoadView};
use crate::{ensure, eq};
use al::LayerSelection;

// ------------------------------------------------------------------ P17

pub const MODES: [&str; 19] = [
    "normal", "multiply", "screen", "overlay", "darken", "lighten", "color dodge", "color burn", "hard light",
    "soft light", "difference", "exclusion", "hue", "saturation", "color", "luminosity", "addition", "subtract",
    "divide",
];

/// A backdrop layer and a layer in the mode under test, all pixels at once.
fn composite(ctx: &mut Ctx, mode: u16, size: (u16, u16), back: &[u8], src: &[u8], layer_o: u8, cel_o: u8) -> R {
    let mut top = super::parse::simple_layer("top");
    top.blend = mode;
    top.opacity = layer_o;
    let cel = |layer: u16, opacity: u8, data: &[u8]| {
        Body::Cel(CelM {
            layer,
            x: 0,
            y: 0,
            opacity,
            z: 0,
            reserved: [0; 5],
            content: Content::Raw { w: size.0, h: size.1, data: data.to_vec() },
        })
    };
    let d = Doc {
        head: Head { width: size.0, height: size.1, ..Head::default() },
        frames: vec![FrameM::new(
            1,
            vec![
                Body::Layer(super::parse::simple_layer("back")).into(),
                Body::Layer(top).into(),
                cel(0, 255, back).into(),
                cel(1, cel_o, src).into(),
            ],
        )],
    };
    let b = encode(&d);
    ctx.input(&b);
    let opacity = blend::mul(layer_o.into(), cel_o.into()) as u8;
    ctx.evaluations((back.len() / 4) as u64);
    ctx.label(MODES[usize::from(mode)]);
    let f = load_ok(&b)?;
    let mut buf = vec![0; back.len()];
    render_frame(&f, 0, &mut buf, &LayerSelection::All)?.map_err(|e| format!("not rendered: {e}"))?;
    let px = |v: &[u8], i: usize| -> [u8; 4] { v[4 * i..4 * i + 4].try_into().unwrap() };
    for i in 0..back.len() / 4 {
        let (bk, sr) = (px(back, i), px(src, i));
        let want = blend::blend(mode, blend::blend(0, [0; 4], bk, 255), sr, opacity);
        let got = px(&buf, i);
        ensure!(
            got == want,
            "{}: backdrop {bk:?}, source {sr:?}, layer opacity {layer_o}, cel opacity {cel_o}: {got:?} instead of {want:?}",
            MODES[usize::from(mode)]
        );
    }
    Ok(())
}

const LEVELS: [u8; 7] = [255, 0, 1, 2, 127, 128, 254];

/// Every pair of channel values, for each mode and alphas and opacity.
fn pairs(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    let i = s.u32() as usize;
    let mode = (i % 19) as u16;
    let k = i / 19;
    let (ba, sa, o) = (LEVELS[k % 7], LEVELS[k / 7 % 7], LEVELS[k / 49 % 7]);
    ctx.describe(|| format!("all channel pairs, {} {ba} {sa} {o}", MODES[usize::from(mode)]));
    if ba > 0 && sa > 0 && o > 0 {
        ctx.nontrivial(&i);
    }
    let mut b = Bulk::new(i as u64);
    let masks: [u8; 6] = std::array::from_fn(|_| b.byte());
    let (mut back, mut src) = (vec![], vec![]);
    for y in 0..=255u8 {
        for x in 0..=255u8 {
            // all 65536 pairs in each channel, combined differently
            back.extend([x ^ masks[0], x.wrapping_add(masks[1]), x.wrapping_mul(masks[2] | 1), ba]);
            src.extend([y ^ masks[3], y.wrapping_mul(masks[4] | 1), y.wrapping_add(masks[5]), sa]);
        }
    }
    if b.byte() & 1 == 0 {
        composite(ctx, mode, (256, 256), &back, &src, o, 255)
    } else {
        composite(ctx, mode, (256, 256), &back, &src, 255, o)
    }
}

/// Every pair of alpha values, for each mode and opacity.
fn alphas(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    let i = s.u32() as usize;
    let (mode, o) = ((i % 19) as u16, (i / 19) as u8);
    ctx.describe(|| format!("all alpha pairs, {} opacity {o}", MODES[usize::from(mode)]));
    if o > 0 {
        ctx.nontrivial(&i);
    }
    let mut b = Bulk::new(i as u64);
    let mut ch = |n: u64| -> u8 {
        match b.below(4) {
            0 => [0, 255, 1, 254, 128, 127][b.below(6) as usize],
            _ => (b.byte() as u64 ^ n) as u8,
        }
    };
    let fixed: [u8; 6] = std::array::from_fn(|_| ch(0));
    let vary = ch(0) % 3 == 0;
    let (mut back, mut src) = (vec![], vec![]);
    for y in 0..=255u8 {
        for x in 0..=255u8 {
            let c: [u8; 6] = if vary { std::array::from_fn(|j| ch(j as u64)) } else { fixed };
            back.extend([c[0], c[1], c[2], x]);
            src.extend([c[3], c[4], c[5], y]);
        }
    }
    composite(ctx, mode, (256, 256), &back, &src, o, 255)
}

/// Random colours with many equal and extreme channels, random alphas.
fn colours(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    let mode = match s.below(3) {
        0 => 12 + s.below(4) as u16,
        _ => s.below(19) as u16,
    };
    let size = (1 + s.below(64) as u16, 1 + s.below(64) as u16);
    let (lo, co) = match s.below(3) {
        0 => (255, 255),
        1 => (s.u8b(), 255),
        _ => (s.u8b(), s.u8b()),
    };
    let style = s.below(4);
    let mut b = s.bulk();
    let mut pixel = || -> [u8; 4] {
        let mut c: [u8; 4] = std::array::from_fn(|_| b.byte());
        match style {
            0 => c[3] = 255,
            1 => {
                for v in &mut c {
                    if *v & 3 != 0 {
                        *v = [0, 255, 1, 254, 128, 127, 64, 192][usize::from(*v >> 2) & 7];
                    }
                }
            }
            2 => {
                // equal channels
                match c[3] & 7 {
                    0 => c[1] = c[0],
                    1 => c[2] = c[1],
                    2 => c[2] = c[0],
                    3 => (c[1], c[2]) = (c[0], c[0]),
                    _ => {}
                }
                c[3] = c[3].wrapping_mul(31);
            }
            _ => {}
        }
        c
    };
    let n = usize::from(size.0) * usize::from(size.1);
    let (mut back, mut src) = (vec![], vec![]);
    for _ in 0..n {
        back.extend(pixel());
        src.extend(pixel());
    }
    ctx.describe(|| format!("{} random pixels, {}, opacities {lo} {co}", n, MODES[usize::from(mode)]));
    if lo > 0 && co > 0 {
        ctx.nontrivial(&(mode, lo, co, &back, &src));
    }
    composite(ctx, mode, size, &back, &src, lo, co)
}

// ------------------------------------------------------------------ P18

/// A selection and what it selects.
struct Sel {
    api: LayerSelection,
    chosen: Vec<bool>,
}

fn selections(s: &mut Src<'_>, lv: &LoadView<'_>) -> Vec<Sel> {
    let n = lv.layers.len();
    let mask: Vec<bool> = (0..n).map(|_| s.bool()).collect();
    vec![
        Sel { api: LayerSelection::Visible, chosen: lv.layers.iter().map(|l| l.visible).collect() },
        Sel { api: LayerSelection::All, chosen: vec![true; n] },
        Sel { api: LayerSelection::Mask(mask.clone()), chosen: mask },
    ]
}

fn diff(got: &[u8], want: &[u8], width: u16) -> String {
    let p = (0..want.len()).find(|p| got[*p] != want[*p]).unwrap_or(0) / 4;
    let w = usize::from(width).max(1);
    format!(
        "pixel ({},{}) is {:?} instead of {:?}",
        p % w,
        p / w,
        &got[4 * p..4 * p + 4],
        &want[4 * p..4 * p + 4]
    )
}

fn check_pictures(s: &mut Src<'_>, ctx: &mut Ctx, d: &Doc) -> R {
    let b = encode(d);
    show(ctx, d, &b);
    let v = must(view::resolve(d));
    let lv = must(view::load_view(d, &v));
    let f = load_ok(&b)?;
    let n = canvas(d);
    let id = hash(&b);
    for fi in 0..d.frames.len() {
        for sel in selections(s, &lv) {
            let base: Vec<u8> = if s.chance(60) { gen::pixels(s, n, 32) } else { vec![0; n] };
            let mut want = base.clone();
            let chosen = |l: usize| sel.chosen[l];
            let r = must(render::frame(d, &lv, fi, &chosen, Background::SeeThrough, &mut want));
            let mut got = base.clone();
            render_frame(&f, fi, &mut got, &sel.api)?
                .map_err(|e| format!("frame {fi} with {:?} not rendered: {e}", sel.api))?;
            ensure!(got == want, "frame {fi} with {:?}: {}", sel.api, diff(&got, &want, d.head.width));
            ctx.evaluations(1);
            if want != base && (r.overlaps > 0 || r.clipped) {
                ctx.nontrivial(&(id, fi, format!("{:?}", sel.api), &base));
            }
            ctx.label_if(r.overlaps > 0, "overlapping cels");
            ctx.label_if(r.clipped, "clipped");
            ctx.label_if(base.iter().any(|v| *v != 0), "onto a filled buffer");
            let cels = &lv.frames[fi].1;
            ctx.label_if(cels.windows(2).any(|w| w[0].file_layer > w[1].file_layer), "reordered by z-index");
            ctx.label_if(cels.iter().any(|c| c.m.opacity != 255), "cel opacity");
            ctx.label_if(cels.iter().any(|c| c.image_frame != fi), "linked cel");
        }
    }
    Ok(())
}

/// A canvas of more than 2^24 pixels, with cels wherever an index could fail.
fn wide(s: &mut Src<'_>) -> Doc {
    let area = (1 << 24) + s.below(1 << 20);
    let w = match s.below(3) {
        0 => 256 + s.below(65_279),
        1 => 257 + s.below(40),
        _ => 4_096 + s.below(8),
    };
    let h = (area / w + 1).min(65_535);
    let (w, h) = if s.bool() { (w, h) } else { (h, w) };
    let mut chunks: Vec<ChunkM> = vec![];
    let n = 1 + s.below(6);
    for i in 0..n {
        chunks.push(Body::Layer(super::parse::simple_layer(&i.to_string())).into());
    }
    for i in 0..n {
        let (cw, ch) = (1 + s.below(300), 1 + s.below(9));
        // a place the position of a cel can reach, at the end most of the time
        let mut at = |max: usize, c: usize| -> i16 {
            match s.below(4) {
                0 => s.range(-3, 3),
                1 => s.range(0, max as i64),
                _ => max as i64 - s.below(c + 2) as i64,
            }
            .clamp(-32_768, 32_767) as i16
        };
        let (x, y) = (at(w, cw), at(h, ch));
        let px = gen::pixels(s, cw * ch * 4, 32);
        let content = Content::Raw { w: cw as u16, h: ch as u16, data: px };
        let c = CelM { layer: i as u16, x, y, opacity: 255, z: 0, reserved: [0; 5], content };
        chunks.push(Body::Cel(c).into());
    }
    Doc {
        head: Head { width: w as u16, height: h as u16, ..Head::default() },
        frames: vec![FrameM::new(1, chunks)],
    }
}

fn v_pictures(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    let d = wide(s);
    check_pictures(s, ctx, &d)
}

/// Many frames or layers, images that all differ.
fn v_numbers(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    let d = vast::doc(s, ctx, &[vast::Dim::Frames, vast::Dim::Layers], true);
    check_pictures(s, ctx, &d)
}

/// What no cel covers stays as it is, on very large canvases.
fn v_endure(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    let d = wide(s);
    let b = encode(&d);
    show(ctx, &d, &b);
    ctx.nontrivial(&b);
    let v = must(view::resolve(&d));
    let lv = must(view::load_view(&d, &v));
    let f = load_ok(&b)?;
    let n = canvas(&d);
    let spare = s.pick(&[0usize, 1, 64]);
    let base = backdrop(s, n + spare);
    let cov = render::coverage(&d, &lv, 0, &|_| true);
    let mut buf = base.clone();
    for way in 0..2 {
        buf.copy_from_slice(&base);
        if way == 0 {
            render_frame(&f, 0, &mut buf, &LayerSelection::Visible)?.map_err(|e| format!("not rendered: {e}"))?;
        } else {
            combined(&f, 0, &mut buf)?.map_err(|e| format!("not combined: {e}"))?;
        }
        ensure!(buf[n..] == base[n..], "written beyond the canvas");
        if let Some(p) = (0..cov.len()).find(|p| !cov[*p] && buf[4 * p..4 * p + 4] != base[4 * p..4 * p + 4]) {
            return Err(format!("pixel {p} written, no cel covers it"));
        }
    }
    let mut small = base[..n - 1].to_vec();
    ensure!(render_frame(&f, 0, &mut small, &LayerSelection::All)?.is_err(), "{} bytes accepted", n - 1);
    ensure!(small == base[..n - 1], "refused buffer written to");
    Ok(())
}

/// Very many frames of one pixel: different pictures, different hashes.
fn v_hashes(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    let n = match s.below(3) {
        0 => 66_000 + s.below(3_000),
        1 => s.pick(&[1_000usize, 1_024, 2_048, 4_096, 10_000]) + s.below(50),
        _ => 1_000 + s.below(40_000),
    };
    let reach = n.min(65_536);
    let mut b = s.bulk();
    let same = s.below(3) as u64;
    let mut l = vec![ChunkM::from(Body::Layer(super::parse::simple_layer("l")))];
    let mut homes: Vec<u16> = vec![];
    let mut frames = vec![];
    for i in 0..n {
        let mut k = std::mem::take(&mut l);
        let link = !homes.is_empty() && b.below(4) < same;
        let content = if link {
            Content::Linked { frame: homes[b.below(homes.len() as u64) as usize] }
        } else {
            if i < reach {
                homes.push(i as u16);
            }
            let m = i as u32 ^ 0x5a_5a5a;
            Content::Raw { w: 1, h: 1, data: vec![m as u8, (m >> 8) as u8, (m >> 16) as u8, 255] }
        };
        k.push(Body::Cel(CelM { layer: 0, x: 0, y: 0, opacity: 255, z: 0, reserved: [0; 5], content }).into());
        frames.push(FrameM::new(1, k));
    }
    let d = Doc { head: Head::default(), frames };
    let bytes = encode(&d);
    show(ctx, &d, &bytes);
    ctx.nontrivial(&bytes);
    ctx.label_if(n > 65_536, "more than 65536 frames");
    let f = load_ok(&bytes)?;
    // the picture tells the image here, and the image the cels
    let mut by_hash = std::collections::HashMap::new();
    let mut by_picture = std::collections::HashMap::new();
    for i in 0..n {
        let (h, p) = picture(&f, i, 4)?;
        let (j, q) = by_hash.entry(h).or_insert((i, p.clone()));
        ensure!(*q == p, "frames {j} and {i} look different but have the same hash");
        let (j, g) = by_picture.entry(p).or_insert((i, h));
        ensure!(*g == h, "frames {j} and {i} show the same cels but have different hashes");
    }
    ctx.evaluations(n as u64);
    Ok(())
}

/// Selections among very many layers.
fn v_selection(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    let most = if s.bool() { 3_000 } else { 70_000 };
    let n = 1_000 + s.below(most);
    let mut b = s.bulk();
    let mut k: Vec<ChunkM> = vec![];
    for i in 0..n {
        let mut l = super::parse::simple_layer(NAMES[b.below(24) as usize]);
        if b.below(3) == 0 {
            l.name = i.to_string();
        }
        l.opacity = b.byte();
        l.blend = b.below(19) as u16;
        l.flags = b.below(8) as u16 / 2 & 1 | 2;
        k.push(Body::Layer(l).into());
    }
    let mut used = std::collections::HashSet::new();
    for _ in 0..40 + b.below(200) {
        let l = match b.below(3) {
            0 => n - 1 - b.below(3) as usize,
            1 => (1usize << b.below(17)).min(n - 1),
            _ => b.below(n as u64) as usize,
        }
        .min(65_535);
        if used.insert(l) {
            let data = vec![b.byte(), b.byte(), b.byte(), b.byte() | 0x81];
            let (x, y) = (b.below(16) as i16, b.below(8) as i16);
            let content = Content::Raw { w: 1, h: 1, data };
            k.push(Body::Cel(CelM { layer: l as u16, x, y, opacity: 255, z: 0, reserved: [0; 5], content }).into());
        }
    }
    let d = Doc { head: Head { width: 16, height: 8, ..Head::default() }, frames: vec![FrameM::new(1, k)] };
    check_selection(s, ctx, d, false)
}

/// On indexed sprites background layers have their own family.
fn no_background(d: &mut Doc) {
    if d.head.depth == 8 {
        for f in &mut d.frames {
            for c in &mut f.chunks {
                if let Body::Layer(l) = &mut c.body {
                    l.flags &= !8;
                }
            }
        }
    }
}

/// Whole documents, as all other parts of them may come along.
fn documents(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    let o = Opts { max_layers: 5, max_frames: 4, ..Opts::sprite() };
    let mut d = gen::doc(s, &o);
    no_background(&mut d);
    check_pictures(s, ctx, &d)
}

fn sprites(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    let mut d = gen::picture(s, &Pic { layers: 8, frames: 4, ..Pic::default() });
    no_background(&mut d);
    check_pictures(s, ctx, &d)
}

/// Many overlapping cels and every kind of z-index.
fn stacks(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    let n = 2 + s.below(12);
    let nf = 1 + s.below(2);
    let style = s.below(4);
    let mut chunks: Vec<ChunkM> = vec![];
    for i in 0..n {
        let mut l = super::parse::simple_layer(&format!("{i}"));
        // layers of other types count for the order, too
        l.kind = s.pick(&[0u16, 0, 0, 0, 0, 0, 1, 2]);
        l.opacity = if s.chance(60) { s.u8b() } else { 255 };
        if s.chance(60) {
            l.blend = s.below(19) as u16;
        }
        chunks.push(Body::Layer(l).into());
    }
    let mut frames = vec![chunks];
    frames.resize(nf, vec![]);
    for f in &mut frames {
        let mut cels: Vec<ChunkM> = vec![];
        for i in 0..n {
            if s.chance(40) {
                continue;
            }
            let z = match style {
                0 => s.range(-2, 2) as i16,
                1 => s.range(-(n as i64) - 1, n as i64 + 1) as i16,
                2 => s.pick(&[0i16, 1, -1, i16::MAX, i16::MIN, i16::MAX - 1, i16::MIN + 1]),
                _ => s.i16b(),
            };
            let mut data = gen::pixels(s, 8, 32);
            data[3] |= 0x80;
            cels.push(
                Body::Cel(CelM {
                    layer: i as u16,
                    x: s.range(-1, 1) as i16,
                    y: 0,
                    opacity: if s.chance(60) { s.u8b() } else { 255 },
                    z,
                    reserved: [0; 5],
                    content: Content::Raw { w: 2, h: 1, data },
                })
                .into(),
            );
        }
        // their order in the file says nothing
        if s.chance(100) {
            let mut b = s.bulk();
            for i in (1..cels.len()).rev() {
                cels.swap(i, b.below(i as u64 + 1) as usize);
            }
        }
        f.extend(cels);
    }
    let d = Doc {
        head: Head { width: 2, height: 1, ..Head::default() },
        frames: frames.into_iter().map(|c| FrameM::new(1, c)).collect(),
    };
    check_pictures(s, ctx, &d)
}

fn positions(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    let d = placed(s);
    if !render::small(&d) {
        return Ok(());
    }
    check_pictures(s, ctx, &d)
}

/// Wide and tall canvases, large cels, positions at all limits.
fn placed(s: &mut Src<'_>) -> Doc {
    let (w, h) = match s.below(6) {
        0 => (65_535u16, 1u16),
        1 => (1, 65_535),
        2 => (33_000, 2),
        3 => (3, 40_000),
        4 => (300, 300),
        _ => (1 + s.below(40) as u16, 1 + s.below(40) as u16),
    };
    let depth = s.pick(&[32u16, 16]);
    let mut chunks: Vec<ChunkM> = vec![];
    let n = 1 + s.below(3);
    for i in 0..n {
        let mut l = super::parse::simple_layer(&format!("{i}"));
        l.blend = if s.bool() { 0 } else { s.below(19) as u16 };
        chunks.push(Body::Layer(l).into());
    }
    let side = |s: &mut Src<'_>| -> u16 {
        match s.weighted(&[4, 2, 2, 1]) {
            0 => 1 + s.below(20) as u16,
            1 => s.pick(&[255u16, 256, 257, 300]),
            2 => s.pick(&[32_767u16, 32_768, 40_000, 65_535, 65_535, 65_534]),
            _ => s.pick(&[0u16, 1]),
        }
    };
    for i in 0..n {
        let (mut cw, mut ch) = (side(s), side(s));
        if cw > 1000 {
            ch = ch.min(3);
        } else if ch > 1000 {
            cw = cw.min(3);
        }
        // a position at which some of the cel shows, mostly
        let at = |s: &mut Src<'_>, canvas: u16, cel: u16| -> i16 {
            let (c, k) = (i64::from(canvas), i64::from(cel));
            let v = match s.weighted(&[3, 3, 2, 2, 2]) {
                0 => s.range(-k, c),
                4 => s.range(0, c),
                1 => s.pick(&[0, -k, -k + 1, c - 1, c, c - k, c - k + 1, c - k - 1, -1, 1]),
                2 => s.pick(&[32_767, -32_768, 32_766, -32_767, 256, 255, -256, -255]),
                _ => s.i16b().into(),
            };
            v.clamp(-32_768, 32_767) as i16
        };
        let (x, y) = (at(s, w, cw), at(s, h, ch));
        let px = gen::pixels(s, usize::from(cw) * usize::from(ch) * usize::from(depth / 8), depth);
        let content = if s.chance(60) {
            Content::Zip { w: cw, h: ch, data: gen::zip(s, &px).0 }
        } else {
            Content::Raw { w: cw, h: ch, data: px }
        };
        let c = CelM { layer: i as u16, x, y, opacity: 255, z: 0, reserved: [0; 5], content };
        chunks.push(Body::Cel(c).into());
    }
    Doc { head: Head { width: w, height: h, depth, ..Head::default() }, frames: vec![FrameM::new(1, chunks)] }
}

/// Indexed sprites with a background layer.
fn background(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    let mut d = gen::picture(s, &Pic { depths: &[8], layers: 4, frames: 2, canvas: 5, ..Pic::default() });
    no_background(&mut d);
    // the first layer is the background
    for c in d.frames.iter_mut().flat_map(|f| &mut f.chunks) {
        if let Body::Layer(l) = &mut c.body {
            if l.kind == 0 {
                l.flags |= 8;
            }
            break;
        }
    }
    let b = encode(&d);
    show(ctx, &d, &b);
    let v = must(view::resolve(&d));
    let lv = must(view::load_view(&d, &v));
    let f = load_ok(&b)?;
    for fi in 0..d.frames.len() {
        let mut opaque = vec![0; canvas(&d)];
        let mut through = opaque.clone();
        let mut got = opaque.clone();
        let r = must(render::frame(&d, &lv, fi, &|_| true, Background::Opaque, &mut opaque));
        must(render::frame(&d, &lv, fi, &|_| true, Background::SeeThrough, &mut through));
        render_frame(&f, fi, &mut got, &LayerSelection::All)?.map_err(|e| format!("not rendered: {e}"))?;
        ctx.evaluations(1);
        if opaque != through && r.drawn > 0 {
            ctx.nontrivial(&(&b, fi));
        }
        if got == opaque {
            ctx.label("as the format says");
        } else if got == through {
            ctx.known("bg-transparent");
        } else {
            return Err(format!("frame {fi}: {}", diff(&got, &through, d.head.width)));
        }
    }
    Ok(())
}

fn corpus(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    let i = s.u32() as usize;
    let d = must(decode::decode(super::robust::CORPUS[i]));
    let dull = Doc { head: d.head.clone(), frames: d.frames.clone() };
    let mut d = dull;
    no_background(&mut d);
    // a choice sequence of its own: exhaustive families have none
    let seed: Vec<u8> = (0..64u8).map(|k| k.wrapping_mul(37) ^ i as u8).collect();
    let mut s2 = Src::new(&seed);
    let _ = s;
    check_pictures(&mut s2, ctx, &d)
}

// ------------------------------------------------------------------ P19

/// The document without the cels on some layers (indices in the file).
fn without_cels(d: &Doc, gone: &dyn Fn(usize) -> bool) -> Doc {
    let mut d = d.clone();
    for c in d.frames.iter_mut().flat_map(|f| &mut f.chunks) {
        if let Body::Cel(k) = &c.body {
            if gone(usize::from(k.layer)) {
                *c = Body::Path(vec![]).into();
            }
        }
    }
    d
}

const NAMES: [&str; 24] = [
    "a", "b", "A", "", "aa", "a ", "ä", "Layer 1", " a", "a\0b", "a\0", "\0", "a,b", "a/b", "a*", "*", "?", "a\nb",
    "a.b", "a\u{308}", "a|b", "\"a\"", "layer 1", "a;b",
];

fn selection(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    let d = gen::picture(s, &Pic { layers: 9, frames: 3, ..Pic::default() });
    let rename = s.chance(200);
    check_selection(s, ctx, d, rename)
}

fn check_selection(s: &mut Src<'_>, ctx: &mut Ctx, mut d: Doc, rename: bool) -> R {
    // names that repeat, extend each other, or could be patterns
    let few = s.bool();
    let name = |s: &mut Src<'_>| if few { s.pick(&NAMES[..9]) } else { s.pick(&NAMES) };
    if rename {
        for c in d.frames.iter_mut().flat_map(|f| &mut f.chunks) {
            if let Body::Layer(l) = &mut c.body {
                l.name = name(s).into();
            }
        }
    }
    let b = encode(&d);
    show(ctx, &d, &b);
    let v = must(view::resolve(&d));
    let lv = must(view::load_view(&d, &v));
    let f = load_ok(&b)?;
    let n = lv.layers.len();
    // the selection through the API, and the layers it should select
    let (what, sel, chosen): (&'static str, LayerSelection, Vec<bool>) = match s.below(7) {
        0 => ("visible", LayerSelection::Visible, lv.layers.iter().map(|l| l.visible).collect()),
        1 => ("all", LayerSelection::All, vec![true; n]),
        2 => {
            let len = match s.below(4) {
                0 => n,
                1 => s.below(n + 1),
                2 => n + 1 + s.below(5),
                _ => 0,
            };
            let m: Vec<bool> = (0..len).map(|_| s.bool()).collect();
            let c = (0..n).map(|i| m.get(i).copied().unwrap_or(false)).collect();
            ("mask", LayerSelection::Mask(m), c)
        }
        3 => {
            let k = s.below(5);
            let names: Vec<&str> = (0..k)
                .map(|_| {
                    if n > 0 && s.chance(100) {
                        lv.layers[s.below(n)].m.name.as_str()
                    } else {
                        name(s)
                    }
                })
                .collect();
            let c = lv.layers.iter().map(|l| names.contains(&l.m.name.as_str())).collect();
            ("names", guard("select_layers_by_name", || f.select_layers_by_name(&names))?, c)
        }
        4 => {
            let t = s.byte();
            let c = lv.layers.iter().map(|l| l.opacity >= t).collect();
            ("predicate on opacity", guard("select_layers", || f.select_layers(|l| l.opacity >= t))?, c)
        }
        5 => {
            let c = lv.layers.iter().map(|l| !l.visible).collect();
            ("predicate on visibility", guard("select_layers", || f.select_layers(|l| !l.visible))?, c)
        }
        _ => {
            let t = s.below(19) as u16;
            let want = view::blend_mode(t);
            let c = lv.layers.iter().map(|l| l.m.blend == t).collect();
            ("predicate on blend mode", guard("select_layers", || f.select_layers(|l| l.blend_mode == want))?, c)
        }
    };
    ctx.label(what);
    // groups are part of a mask as well, although nothing of them is drawn
    if let LayerSelection::Mask(m) = &sel {
        for (i, c) in chosen.iter().enumerate() {
            ensure!(
                m.get(i).copied().unwrap_or(false) == *c,
                "{what}: layer {i} is {}in the mask {m:?}",
                if *c { "not " } else { "" }
            );
        }
    }
    let of_file = |fl: usize| lv.layers.iter().position(|l| l.file_index == fl);
    let less = without_cels(&d, &|fl| of_file(fl).is_some_and(|i| !chosen[i]));
    let lb = encode(&less);
    let lf = load(&lb)?.map_err(|e| format!("file without the unselected cels rejected: {e}"))?;
    let mut interesting = false;
    for fi in 0..d.frames.len() {
        let base = if s.chance(40) { gen::pixels(s, canvas(&d), 32) } else { vec![0; canvas(&d)] };
        let mut got = base.clone();
        let mut want = base.clone();
        let mut all = base.clone();
        let r1 = render_frame(&f, fi, &mut got, &sel)?;
        let r2 = render_frame(&lf, fi, &mut want, &LayerSelection::All)?;
        let r3 = render_frame(&f, fi, &mut all, &LayerSelection::All)?;
        for r in [r1, r2, r3] {
            r.map_err(|e| format!("frame {fi} not rendered: {e}"))?;
        }
        ensure!(
            got == want,
            "frame {fi}, {what} {sel:?} (layers {chosen:?}): {}",
            diff(&got, &want, d.head.width)
        );
        interesting |= got != all && got != base;
        if what == "visible" {
            let mut c = base.clone();
            combined(&f, fi, &mut c)?.map_err(|e| format!("frame {fi} not combined: {e}"))?;
            ensure!(c == got, "frame {fi}: combined_frame_image: {}", diff(&c, &got, d.head.width));
        }
        ctx.evaluations(1);
    }
    if interesting {
        ctx.nontrivial(&(&b, format!("{sel:?}")));
    }
    Ok(())
}

// ------------------------------------------------------------------ P20

/// What a target holds before anything is drawn into it: one value all over,
/// as likely as not; or pixels of a few kinds, some of them transparent and
/// not black; or anything.
fn backdrop(s: &mut Src<'_>, n: usize) -> Vec<u8> {
    match s.weighted(&[4, 2, 3]) {
        0 => vec![0xa5; n],
        1 => vec![s.byte(); n],
        _ => {
            let mut v = Vec::with_capacity(n + 64);
            while v.len() < n.min(64) {
                let alpha = s.pick(&[0u8, 0, 1, 127, 128, 254, 255]);
                v.extend([s.byte(), s.byte(), s.byte(), alpha]);
            }
            // an odd period of pixels, so that columns differ
            let period = v.len() - if v.len() > 4 && s.bool() { 4 } else { 0 };
            v.truncate(period.max(1).min(v.len()));
            let part = v.clone();
            while v.len() < n && !part.is_empty() {
                v.extend_from_slice(&part[..part.len().min(n - v.len())]);
            }
            v.resize(n, 0);
            v
        }
    }
}

/// Render everything a loaded file offers; only damage counts.
fn endure(s: &mut Src<'_>, ctx: &mut Ctx, b: &[u8]) -> R {
    let Ok(f) = load(b)? else {
        ctx.label("not loaded");
        return Ok(());
    };
    let d = match decode::decode(b) {
        Ok(d) => d,
        Err(_) => {
            // judged by P12
            ctx.label("loaded, the reference rejects it");
            return Ok(());
        }
    };
    let model = view::resolve(&d);
    let lv = model.as_ref().ok().and_then(|v| view::load_view(&d, v).ok());
    let (w, h) = f.size();
    let n = usize::from(w) * usize::from(h) * 4;
    // an image may claim any size, as long as its data cannot give it
    let full = n <= 4 * render::AREA_LIMIT && f.images.iter().all(|i| super::cost::in_reach(&f, i));
    ctx.label_if(full && !render::small(&d), "an image far larger than its data");
    let frames = f.frames().len();
    ctx.label_if(frames == 0, "no frames");
    let layers = f.layers().len();
    for fi in 0..frames.min(6) {
        let mask: Vec<bool> = (0..s.below(layers + 3)).map(|_| s.bool()).collect();
        let sels = [
            (LayerSelection::Visible, f.layers().iter().map(|l| l.visible).collect::<Vec<_>>()),
            (LayerSelection::All, vec![true; layers]),
            (LayerSelection::Mask(mask.clone()), (0..layers).map(|i| mask.get(i).copied().unwrap_or(false)).collect()),
        ];
        for (sel, chosen) in sels {
            // too small
            if n > 0 {
                let m = match s.weighted(&[3, 2, 2, 1]) {
                    0 => n - 1,
                    1 => n - 1 - s.below(n.min(4)),
                    2 => usize::from(w) * usize::from(h) * s.below(4),
                    _ => s.below(n.min(100_000)),
                };
                let m = if m > 4 << 20 { s.below(70_000) } else { m };
                let base = backdrop(s, m);
                let mut small = base.clone();
                let r = render_frame(&f, fi, &mut small, &sel)?;
                ensure!(r.is_err(), "frame {fi}: {m} bytes accepted for a canvas of {w}x{h}");
                ensure!(small == base, "frame {fi}: refused buffer written to");
                if sel == LayerSelection::Visible {
                    let r = combined(&f, fi, &mut small)?;
                    ensure!(r.is_err(), "frame {fi}: combined_frame_image accepts {m} bytes for {w}x{h}");
                    ensure!(small == base, "frame {fi}: refused buffer written to");
                }
            }
            if !full {
                ctx.label("too large to render");
                continue;
            }
            let spare = s.pick(&[0usize, 1, 4, 64, 4096]);
            let base = backdrop(s, n + spare);
            let mut buf = base.clone();
            let r = render_frame(&f, fi, &mut buf, &sel)?;
            ctx.evaluations(1);
            match &r {
                Ok(()) => ctx.label("rendered"),
                Err(_) => ctx.label("refused"),
            }
            ctx.nontrivial(&(b, fi, format!("{sel:?}")));
            ensure!(buf[n..] == base[n..], "frame {fi} with {sel:?}: written beyond the canvas");
            if let Some(lv) = &lv {
                if lv.layers.len() == layers && fi < lv.frames.len() {
                    let cov = render::coverage(&d, lv, fi, &|l| chosen[l]);
                    for (p, c) in cov.iter().enumerate() {
                        ensure!(
                            *c || buf[4 * p..4 * p + 4] == base[4 * p..4 * p + 4],
                            "frame {fi} with {sel:?}: pixel {p} written, no selected cel covers it"
                        );
                    }
                }
            }
            if sel == LayerSelection::Visible {
                let mut c = base.clone();
                let r2 = combined(&f, fi, &mut c)?;
                eq!(format!("frame {fi}: combined_frame_image succeeds"), r2.is_ok(), r.is_ok());
                ensure!(c[n..] == base[n..], "frame {fi}: combined_frame_image writes beyond the canvas");
            }
        }
    }
    // all images, too
    for i in 0..f.images.len().min(8) {
        let a = usize::from(f.images[i].width) * usize::from(f.images[i].height);
        if a <= render::AREA_LIMIT {
            let base = backdrop(s, a * 4 + 8);
            let mut buf = base.clone();
            let _ = decode_image(&f, i, &mut buf)?;
            ensure!(buf[a * 4..] == base[a * 4..], "image {i}: written beyond its pixels");
        }
    }
    Ok(())
}

fn endure_mutated(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    let d = if s.bool() {
        let o = Opts { odd_blend: true, canvas: 12, cel_size: 8, ..Opts::sprite() };
        gen::doc(s, &o)
    } else {
        super::robust::mixed(s)
    };
    let (mut b, spans) = encode_spans(&d);
    if s.chance(200) {
        super::robust::damage(s, &mut b, &spans, ctx);
    }
    ctx.input(&b);
    ctx.describe(|| format!("mutated: {}", d.describe()));
    endure(s, ctx, &b)
}

fn endure_corpus(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    let (mut b, spans) = super::robust::corpus(s.below(super::robust::CORPUS.len()));
    super::robust::damage(s, &mut b, &spans, ctx);
    ctx.input(&b);
    endure(s, ctx, &b)
}

/// Valid records with contents nobody expects.
fn endure_strange(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    let o = Opts {
        images: if s.bool() { Images::Any } else { Images::Valid },
        odd_blend: true,
        odd_cels: s.chance(30),
        depths: &[32, 32, 16, 8],
        canvas: 20,
        ..Opts::sprite()
    };
    let mut d = if s.chance(100) { gen::picture(s, &Pic { canvas: 12, ..Pic::default() }) } else { gen::doc(s, &o) };
    if s.chance(60) {
        gen::any_canvas(s, &mut d.head);
    }
    if s.chance(40) {
        d.head.depth = s.pick(&[0u16, 1, 24, 64, 65_535, 8, 16, 32]);
    }
    if s.chance(60) {
        // dimensions that overflow 32 bits when multiplied
        (d.head.width, d.head.height) =
            s.pick(&[(65_535u16, 65_535u16), (32_768, 32_768), (65_535, 16_385), (16_384, 65_535), (46_341, 46_341), (32_768, 65_535)]);
        // and cels at the corner
        for c in d.frames.iter_mut().flat_map(|f| &mut f.chunks) {
            if let Body::Cel(c) = &mut c.body {
                (c.x, c.y) = (0, 0);
            }
        }
    }
    let b = encode(&d);
    show(ctx, &d, &b);
    endure(s, ctx, &b)
}

fn endure_placed(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    let d = placed(s);
    let b = encode(&d);
    show(ctx, &d, &b);
    endure(s, ctx, &b)
}

// ------------------------------------------------------------------ P21

fn picture(f: &al::AsepriteFile<'_>, fi: usize, n: usize) -> Result<(u64, Vec<u8>), String> {
    let mut buf = vec![0; n];
    let h = combined(f, fi, &mut buf)?.map_err(|e| format!("frame {fi} not combined: {e}"))?;
    Ok((h, buf))
}

fn check_hashes(s: &mut Src<'_>, ctx: &mut Ctx, d: &Doc) -> R {
    let b = encode(d);
    show(ctx, d, &b);
    let v = must(view::resolve(d));
    let lv = must(view::load_view(d, &v));
    let n = canvas(d);
    // the same bytes elsewhere in memory
    let pad = 1 + s.below(15);
    let mut copy = vec![0; pad];
    copy.extend(&b);
    let f = load_ok(&b)?;
    let g = load_ok(&copy[pad..])?;
    let mut pics = vec![];
    for fi in 0..d.frames.len() {
        pics.push(picture(&f, fi, n)?);
    }
    // again, in another order, from another load, onto another picture
    for fi in (0..d.frames.len()).rev() {
        eq!(format!("frame {fi}: hash of a second load"), picture(&g, fi, n)?.0, pics[fi].0);
        let mut buf = vec![0xee; n + s.below(9)];
        let h = combined(&f, fi, &mut buf)?.map_err(|e| format!("frame {fi} not combined: {e}"))?;
        eq!(format!("frame {fi}: hash of a second rendering"), h, pics[fi].0);
    }
    // what a frame shows: image by reference, where, how
    let refs: Vec<Vec<_>> = lv
        .frames
        .iter()
        .map(|(_, cels)| {
            let mut v: Vec<_> = cels
                .iter()
                .map(|c| (c.file_layer, c.image_frame, c.m.x, c.m.y, c.m.opacity, c.m.z))
                .collect();
            v.sort();
            v
        })
        .collect();
    let id = hash(&b);
    for i in 0..pics.len() {
        for j in 0..i {
            ctx.evaluations(1);
            let same_hash = pics[i].0 == pics[j].0;
            if pics[i].1 != pics[j].1 {
                ensure!(!same_hash, "frames {j} and {i} look different but have the same hash");
                ctx.label("different pictures");
                let k = |v: &Vec<(usize, usize, i16, i16, u8, i16)>| v.iter().map(|c| (c.0, c.1)).collect::<Vec<_>>();
                if k(&refs[i]) == k(&refs[j]) && !refs[i].is_empty() {
                    ctx.label("different pictures of the same images");
                }
                ctx.nontrivial(&(id, i, j));
            }
            if refs[i] == refs[j] {
                ensure!(same_hash, "frames {j} and {i} show the same cels but have different hashes");
                if !refs[i].is_empty() {
                    ctx.label("same cels");
                    ctx.nontrivial(&(id, i, j));
                }
            }
        }
    }
    Ok(())
}

fn hashes_any(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    let mut d = gen::picture(s, &Pic { layers: 4, frames: 6, canvas: 4, link: 200, ..Pic::default() });
    // how long a frame is shown does not matter
    for f in &mut d.frames {
        f.duration = if s.bool() { f.duration } else { s.u16b() };
    }
    check_hashes(s, ctx, &d)
}

/// Frames of many cels, each at a place of its own, that differ in one of them.
fn hashes_many(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    let nl = match s.below(3) {
        0 => s.below(60),
        1 => s.below(300),
        _ => s.round(700),
    }
    .max(1);
    let width = 1 + s.below(64);
    let mut rng = s.bulk();
    let mut first: Vec<ChunkM> =
        (0..nl).map(|i| Body::Layer(super::parse::simple_layer(&i.to_string())).into()).collect();
    let mut base = vec![];
    for i in 0..nl {
        let c = CelM {
            layer: i as u16,
            x: (i % width) as i16,
            y: (i / width) as i16,
            opacity: 255,
            z: 0,
            reserved: [0; 5],
            content: Content::Raw { w: 1, h: 1, data: vec![rng.byte(), rng.byte(), rng.byte(), 255] },
        };
        first.push(Body::Cel(c.clone()).into());
        base.push(CelM { content: Content::Linked { frame: 0 }, ..c });
    }
    let mut frames = vec![FrameM::new(s.u16b(), first)];
    for _ in 0..1 + s.below(4) {
        let mut cels = base.clone();
        let i = if s.chance(80) { nl - 1 - s.below(nl.min(3)) } else { s.below(nl) };
        match s.below(6) {
            0 => cels[i].opacity = s.pick(&[254u8, 0, 127]),
            1 => cels[i].x = cels[i].x.wrapping_add(1),
            2 => {
                let px = vec![rng.byte(), rng.byte(), rng.byte(), 255];
                cels[i].content = Content::Raw { w: 1, h: 1, data: px };
            }
            3 => {
                cels.remove(i);
            }
            4 => cels[i].y = cels[i].y.wrapping_sub(1),
            _ => {}
        }
        frames.push(FrameM::new(s.u16b(), cels.into_iter().map(|c| Body::Cel(c).into()).collect()));
    }
    let d = Doc {
        head: Head { width: width as u16, height: (nl / width + 1) as u16, ..Head::default() },
        frames,
    };
    ctx.label_if(nl > 255, "more than 255 cels");
    check_hashes(s, ctx, &d)
}

/// Frames that link to the same few images and differ in one thing.
fn hashes_near(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    let nl = 1 + s.below(4);
    let mut chunks: Vec<ChunkM> = vec![];
    for i in 0..nl {
        let mut l = super::parse::simple_layer(&format!("{i}"));
        l.blend = s.pick(&[0u16, 0, 0, 1, 10, 16]);
        l.opacity = if s.chance(40) { s.u8b() } else { 255 };
        if s.chance(20) {
            l.kind = 2;
        }
        chunks.push(Body::Layer(l).into());
    }
    let base: Vec<CelM> = (0..nl)
        .map(|i| CelM {
            layer: i as u16,
            x: s.range(-2, 3) as i16,
            y: s.range(-2, 3) as i16,
            opacity: s.pick(&[255u8, 254, 128, 1]),
            z: s.range(-2, 2) as i16,
            reserved: [0; 5],
            content: Content::Linked { frame: 0 },
        })
        .collect();
    // two frames with images
    let homes = 1 + s.below(2);
    let mut frames: Vec<Vec<ChunkM>> = vec![];
    for h in 0..homes {
        let mut f = if h == 0 { std::mem::take(&mut chunks) } else { vec![] };
        let same = s.chance(60);
        for c in &base {
            let (w, hh) = (1 + s.below(4) as u16, 1 + s.below(4) as u16);
            let data = if same { vec![0x80; usize::from(w) * usize::from(hh) * 4] } else { gen::pixels(s, usize::from(w) * usize::from(hh) * 4, 32) };
            let mut c = c.clone();
            c.content = Content::Raw { w, h: hh, data };
            f.push(Body::Cel(c).into());
        }
        frames.push(f);
    }
    let n = 2 + s.below(4);
    let home = s.below(homes) as u16;
    for _ in 0..n {
        let mut cels: Vec<CelM> = base
            .iter()
            .map(|c| CelM { content: Content::Linked { frame: home }, ..c.clone() })
            .collect();
        if s.chance(220) {
            let i = s.below(nl);
            let c = &mut cels[i];
            match s.below(8) {
                0 => c.x = c.x.wrapping_add(s.pick(&[1i16, -1, 256, 2])),
                1 => c.y = c.y.wrapping_add(s.pick(&[1i16, -1, 256, 2])),
                2 => (c.x, c.y) = (c.y, c.x),
                3 => c.opacity = c.opacity.wrapping_sub(s.pick(&[1u8, 100, 255])),
                4 => c.z = c.z.wrapping_add(s.pick(&[1i16, -1, 5, -5])),
                5 => c.content = Content::Linked { frame: s.below(homes) as u16 },
                6 => {
                    cels.remove(i);
                }
                _ => {}
            }
        }
        frames.push(cels.into_iter().map(|c| Body::Cel(c).into()).collect());
    }
    let d = Doc {
        head: Head { width: 5, height: 5, ..Head::default() },
        frames: frames.into_iter().map(|c| FrameM::new(if s.bool() { 1 } else { s.u16b() }, c)).collect(),
    };
    check_hashes(s, ctx, &d)
}

// ------------------------------------------------------------------ table

large!(l_sprites, sprites);
large!(l_documents, documents);
large!(l_selection, selection);
large!(l_mutated, endure_mutated);
large!(l_strange, endure_strange);
large!(l_hashes, hashes_any);

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P17",
            rule: "composited planes with a visible backdrop, source and opacity: all channel pairs, all alpha pairs, random pixels",
            assumptions: &["the reference is a transcription of Aseprite's blend_funcs.cpp"],
            families: vec![
                exhaustive("pairs", pairs, 19 * 343),
                exhaustive("alphas", alphas, 19 * 256),
                fam("colours", colours, (40_000, 2_400_000), 24),
            ],
        },
        Prop {
            id: "P18",
            rule: "a rendering of overlapping or clipped cels that changes the buffer; distinct file, frame, selection and buffer",
            assumptions: &[
                "at most one cel per frame and layer",
                "no group opacity, no grayscale-specific blending: the crate offers neither",
            ],
            families: vec![
                exhaustive("corpus", corpus, 8),
                fam("sprites", sprites, (900_000, 24_000_000), 400),
                fam("documents", documents, (240_000, 4_000_000), 700),
                fam("stacks", stacks, (450_000, 12_000_000), 300),
                fam("positions", positions, (3_200, 200_000), 120),
                fam("background", background, (120_000, 2_000_000), 200),
                fam("large", l_sprites, (12_000, 300_000), 400),
                fam("large documents", l_documents, (12_000, 300_000), 400),
                fam("vast canvas", v_pictures, (24, 600), 200),
                fam("vast", v_numbers, (40, 1_000), 64),
            ],
        },
        Prop {
            id: "P19",
            rule: "a selection that leaves out something visible and shows something, distinct file and selection",
            assumptions: &["the relation is between renderings of two files, no reference compositing"],
            families: vec![fam("selections", selection, (1_200_000, 8_000_000), 700), fam("large", l_selection, (8_000, 200_000), 400), fam("vast", v_selection, (400, 10_000), 200)],
        },
        Prop {
            id: "P20",
            rule: "a rendering of a loaded file, distinct bytes, frame and selection",
            assumptions: &["canvases of more than 2^22 pixels (but for those of one family), and images of more than 2^20 pixels whose data might really fill them, are only given buffers that are too small"],
            families: vec![
                fam("mutated", endure_mutated, (400_000, 12_000_000), 700),
                fam("strange", endure_strange, (180_000, 6_000_000), 700),
                fam("positions", endure_placed, (2_400, 100_000), 120),
                fam("corpus", endure_corpus, (32_000, 800_000), 60),
                fam("large", l_mutated, (6_000, 150_000), 400),
                fam("large strange", l_strange, (6_000, 150_000), 400),
                fam("vast", v_endure, (24, 600), 200),
            ],
        },
        Prop {
            id: "P21",
            rule: "a pair of frames that look different or show the same cels, distinct file and pair; distinct files hashed in other processes",
            assumptions: &["pictures are rendered onto a cleared buffer"],
            families: vec![
                fam("sprites", hashes_any, (120_000, 3_200_000), 600),
                fam("near misses", hashes_near, (800_000, 6_000_000), 200),
                fam("many cels", hashes_many, (12_000, 300_000), 200),
                fam("processes", super::pure::processes, (2_000, 40_000), 200),
                fam("large", l_hashes, (2_000, 40_000), 400),
                fam("vast", v_hashes, (40, 1_000), 64),
            ],
        },
    ]
}
