//! P13 P14: what the loader accepts and presents.

use super::*;
use crate::decode;
use crate::encode::encode;
use crate::gen::{self, Images, Opts};
use crate::runner::{all as exhaustive, fam, Ctx, Prop, R};
use crate::src::Src;
use crate::view;
use crate::{ensure, eq};

/// Documents whose images nobody decodes.
pub(super) fn undecoded() -> Opts {
    Opts { images: Images::Any, odd_blend: true, ..Opts::loadable() }
}

fn check_loader(ctx: &mut Ctx, d: &Doc) -> R {
    let bytes = encode(d);
    show(ctx, d, &bytes);
    let v = must(view::resolve(d));
    let lv = must(view::load_view(d, &v));
    let cels: usize = lv.frames.iter().map(|f| f.1.len()).sum();
    if lv.layers.len() >= 2 && cels >= 2 {
        ctx.nontrivial(&bytes);
    }
    let hidden = |i: &usize| {
        let l = &lv.layers[*i];
        l.m.flags & 1 != 0 && !l.visible
    };
    ctx.label_if((0..lv.layers.len()).any(|i| hidden(&i)), "layer hidden by its group");
    ctx.label_if(lv.layers.len() < v.layers.len(), "layers of other types");
    ctx.label_if(
        lv.frames.iter().flat_map(|f| &f.1).any(|c| c.layer != c.file_layer),
        "cel on a layer behind one of another type",
    );
    ctx.label_if(lv.frames.iter().flat_map(|f| &f.1).any(|c| matches!(c.m.content, Content::Linked { .. })), "link");
    ctx.label_if(
        lv.frames.iter().enumerate().any(|(i, f)| f.1.iter().any(|c| c.image_frame > i)),
        "link to a later frame",
    );
    ctx.label_if(d.head.flags & 1 == 0, "layer opacities not valid");
    ctx.label_if(!v.tags.is_empty(), "tags");
    ctx.label_if(lv.layers.iter().any(|l| l.m.kind == 1), "groups");
    let f = load_ok(&bytes)?;
    view::loader(d, &v, &lv, &f)?;
    // the parsed file comes with it
    view::file_all(d, &v, &f.file).map_err(|e| format!("AsepriteFile::file: {e}"))
}

fn documents(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    let o = Opts { max_layers: 9, max_frames: 7, cel: 150, link: 110, tags: 110, ..undecoded() };
    let mut d = gen::doc(s, &o);
    if s.chance(128) {
        gen::any_canvas(s, &mut d.head);
    }
    if s.chance(30) {
        d.head.depth = s.pick(&[0u16, 24, 64, 1, 65535]);
    }
    check_loader(ctx, &d)
}

fn v_loader(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    use vast::Dim as V;
    let dims = [V::Frames, V::Frames, V::Layers, V::Tags, V::Slices, V::Keys, V::Users, V::Unknown, V::Payload, V::Palettes];
    let d = vast::doc(s, ctx, &dims, true);
    check_loader(ctx, &d)
}

/// Layer trees, deep and wide, with all combinations of visibility.
fn trees(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    let (deep, big) = (s.grow.deep, s.grow.any());
    let n = 1 + s.below(if big { 700 } else { 24 });
    let mut chunks: Vec<ChunkM> = vec![];
    let mut prev: Option<(u16, u16)> = None;
    for i in 0..n {
        let kind = if deep && s.below(12) > 0 { 1 } else { s.pick(&[1u16, 0, 1, 0, 2, 0, 1, 9]) };
        let top = prev.map_or(0, |(k, l)| if k == 1 { l + 1 } else { l });
        let level = match s.weighted(if deep { &[60, 1, 1, 4] } else { &[4, 2, 1] }) {
            0 => top,
            1 => s.range(0, top.into()) as u16,
            3 => top.saturating_sub(s.below(4) as u16),
            _ => 0,
        };
        prev = Some((kind, level));
        let mut l = super::parse::simple_layer(&format!("{i}"));
        l.kind = kind;
        l.level = level;
        let hidden = if deep { 100 } else { 3 };
        l.flags = u16::from(s.byte() % hidden != 0) | (s.u16b() & 0x7e);
        l.blend = s.below(19) as u16;
        l.opacity = s.u8b();
        chunks.push(Body::Layer(l).into());
    }
    let deepest = chunks
        .iter()
        .map(|c| if let Body::Layer(l) = &c.body { l.level } else { 0 })
        .max()
        .unwrap_or(0);
    ctx.label_if(deepest >= 4, "tree of depth 4 or more");
    ctx.label_if(deepest >= 256, "tree of depth 256 or more");
    for i in 0..n {
        if s.bool() {
            let c = gen::cel(s, &undecoded(), i as u16, Content::Raw { w: 1, h: 1, data: vec![i as u8; 4] });
            chunks.push(Body::Cel(c).into());
        }
    }
    let d = Doc { head: Head::default(), frames: vec![FrameM::new(1, chunks)] };
    check_loader(ctx, &d)
}

/// Links over long distances; indices beyond one byte.
fn large(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    let (nl, nf) = match s.below(3) {
        0 => (1 + s.below(4), 260 + s.below(500)),
        1 => (257 + s.below(300), 1 + s.below(4)),
        _ => (20 + s.below(40), 20 + s.below(40)),
    };
    let mut b = s.bulk();
    let mut frames: Vec<Vec<ChunkM>> = vec![vec![]; nf];
    let mut kinds = vec![];
    for i in 0..nl {
        let mut l = super::parse::simple_layer(&format!("{i}"));
        l.kind = [0, 0, 0, 0, 0, 1, 2, 0, 7][b.below(9) as usize];
        l.opacity = b.byte();
        kinds.push(l.kind);
        frames[0].push(Body::Layer(l).into());
    }
    for l in 0..nl {
        let homes: Vec<usize> = (0..nf).filter(|_| b.below(6) == 0).collect();
        for (f, fr) in frames.iter_mut().enumerate() {
            let content = if homes.contains(&f) {
                let id = ((f * 1000 + l) as u32).to_le_bytes().to_vec();
                if b.below(2) == 0 {
                    Content::Raw { w: 1 + (f % 50) as u16, h: 1, data: id }
                } else {
                    Content::Zip { w: 2, h: 1 + (l % 70) as u16, data: id }
                }
            } else if !homes.is_empty() && b.below(3) > 0 {
                Content::Linked { frame: homes[b.below(homes.len() as u64) as usize] as u16 }
            } else {
                continue;
            };
            let c = CelM {
                layer: l as u16,
                x: b.next() as i16,
                y: b.next() as i16,
                opacity: b.byte(),
                z: b.below(5) as i16 - 2,
                reserved: [0; 5],
                content,
            };
            fr.push(Body::Cel(c).into());
        }
    }
    let d = Doc {
        head: Head::default(),
        frames: frames.into_iter().enumerate().map(|(i, c)| FrameM::new(i as u16, c)).collect(),
    };
    ctx.label_if(nf > 256, "more than 256 frames");
    ctx.label_if(nl > 256, "more than 256 layers");
    check_loader(ctx, &d)
}

fn corpus(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    let i = s.u32() as usize;
    let b = super::robust::CORPUS[i];
    let d = must(decode::decode(b));
    ctx.nontrivial(&i);
    ctx.describe(|| format!("corpus file {i}"));
    let v = must(view::resolve(&d));
    let lv = must(view::load_view(&d, &v));
    let f = load_ok(b)?;
    view::loader(&d, &v, &lv, &f)?;
    view::file_all(&d, &v, &f.file)
}

// ------------------------------------------------------------------ P13

pub(super) const FAULTS: [&str; 14] = [
    "tag ends before it starts",
    "cel on the layer behind the last",
    "cel on a layer far behind the last",
    "cel in a file without layers",
    "link to a frame behind the last",
    "link to a frame without a cel on that layer",
    "link to a link",
    "link to itself",
    "link to a frame with an image on another layer only",
    "palette range inverted",
    "palette range beyond 255",
    "indexed without a palette",
    "indexed with an empty palette",
    "indexed, old palette beyond 256 entries",
];

fn cels_mut(d: &mut Doc) -> Vec<(usize, &mut CelM)> {
    d.frames
        .iter_mut()
        .enumerate()
        .flat_map(|(i, f)| {
            f.chunks.iter_mut().filter_map(move |c| match &mut c.body {
                Body::Cel(c) => Some((i, c)),
                _ => None,
            })
        })
        .collect()
}

fn layer_count(d: &Doc) -> usize {
    d.chunks().filter(|c| matches!(c.body, Body::Layer(_))).count()
}

fn push(s: &mut Src<'_>, d: &mut Doc, frame: usize, b: Body) {
    let f = &mut d.frames[frame];
    // anywhere but between an object and what belongs to it
    let places: Vec<usize> = (0..=f.chunks.len())
        .filter(|i| !matches!(f.chunks.get(*i).map(|c| &c.body), Some(Body::User(_) | Body::CelExtra(_))))
        .collect();
    let at = places[s.below(places.len())];
    f.chunks.insert(at, b.into());
    f.recount(0);
}

/// Make the cel of a layer in a frame a link, adding the cel if there is none.
fn link(s: &mut Src<'_>, d: &mut Doc, frame: usize, layer: u16, to: u16) {
    for c in &mut d.frames[frame].chunks {
        if let Body::Cel(c) = &mut c.body {
            if c.layer == layer {
                c.content = Content::Linked { frame: to };
                return;
            }
        }
    }
    let c = gen::cel(s, &undecoded(), layer, Content::Linked { frame: to });
    push(s, d, frame, Body::Cel(c));
}

/// Make one thing wrong with the document, or say that it cannot be done.
pub(super) fn fault(s: &mut Src<'_>, d: &mut Doc, which: usize) -> bool {
    let nf = d.frames.len();
    let nl = layer_count(d);
    let o = undecoded();
    match which {
        0 => {
            let n = 1 + s.below(4);
            let mut ts: Vec<TagM> = (0..n).map(|_| gen::tag(s, &o)).collect();
            let i = s.below(n);
            let to = match s.weighted(&[3, 2]) {
                0 => s.u16b(),
                _ => s.below(nf) as u16,
            }
            .min(65534);
            let gap = s.pick(&[1u16, 2, 255, 256, 40000]);
            ts[i].to = to;
            ts[i].from = to.saturating_add(gap);
            let f = s.below(nf);
            push(s, d, f, Body::Tags([0; 8], ts));
        }
        1 | 2 => {
            let layer = if which == 1 { nl } else { nl + s.pick(&[1usize, 2, 100, 255, 256, 30_000, 65_535]) };
            let layer = layer.min(65_535) as u16;
            let mut cs = cels_mut(d);
            if !cs.is_empty() && s.bool() {
                let i = s.below(cs.len());
                cs[i].1.layer = layer;
            } else {
                let content = gen::image(s, &o, 32);
                let c = gen::cel(s, &o, layer, content);
                let f = s.below(nf);
                push(s, d, f, Body::Cel(c));
            }
        }
        3 => {
            for f in &mut d.frames {
                f.chunks.retain(|c| !matches!(c.body, Body::Layer(_)));
                f.recount(0);
            }
            if cels_mut(d).is_empty() {
                let content = gen::image(s, &o, 32);
                let c = gen::cel(s, &o, 0, content);
                push(s, d, 0, Body::Cel(c));
            }
        }
        4 => {
            let frame = s.pick(&[nf, nf + 1, nf + 255, nf + 256, 65_535]).min(65_535) as u16;
            if nl == 0 {
                return false;
            }
            let mut cs = cels_mut(d);
            if !cs.is_empty() && s.bool() {
                let i = s.below(cs.len());
                cs[i].1.content = Content::Linked { frame };
            } else {
                let l = s.below(nl) as u16;
                let f = s.below(nf);
                link(s, d, f, l, frame);
            }
        }
        5 | 8 => {
            // (frame, layer) without any cel, and another frame to link from
            let mut taken = vec![vec![false; nl]; nf];
            for (f, c) in cels_mut(d) {
                if let Some(t) = taken[f].get_mut(usize::from(c.layer)) {
                    *t = true;
                }
            }
            let free: Vec<(usize, usize)> = (0..nf)
                .flat_map(|f| (0..nl).map(move |l| (f, l)))
                .filter(|(f, l)| !taken[*f][*l])
                .filter(|(f, l)| which == 5 || (0..nl).any(|k| k != *l && taken[*f][k]))
                .collect();
            if free.is_empty() || nf < 2 {
                return false;
            }
            let (target, l) = free[s.below(free.len())];
            let from = (target + 1 + s.below(nf - 1)) % nf;
            link(s, d, from, l as u16, target as u16);
        }
        6 => {
            let links: Vec<(usize, u16)> = cels_mut(d)
                .into_iter()
                .filter(|(_, c)| matches!(c.content, Content::Linked { .. }))
                .map(|(f, c)| (f, c.layer))
                .collect();
            if links.is_empty() || nf < 2 {
                return false;
            }
            let (target, l) = links[s.below(links.len())];
            let from = (target + 1 + s.below(nf - 1)) % nf;
            link(s, d, from, l, target as u16);
        }
        7 => {
            let mut cs = cels_mut(d);
            if cs.is_empty() {
                return false;
            }
            let i = s.below(cs.len());
            cs[i].1.content = Content::Linked { frame: cs[i].0 as u16 };
        }
        9 | 10 => {
            let mut p = gen::palette(s, &o);
            if which == 9 {
                let (a, b) = (s.u8b(), s.u8b());
                let (a, b) = (u32::from(a.max(b)), u32::from(a.min(b)));
                let a = if a == b { b + 1 } else { a };
                p.first = a;
                p.last = b;
            } else {
                let wrap = s.pick(&[256u32, 512, 65_536, 0x8000_0000, 0x100, 0xffff_ff00]);
                match s.below(3) {
                    0 => p.last |= wrap,
                    1 => {
                        p.first |= wrap;
                        p.last |= wrap;
                    }
                    _ => {
                        p.first = 255;
                        p.last = 256 + s.below(3) as u32;
                    }
                }
            }
            // entries for every reading of the range
            let want = [p.first as u8, p.last as u8];
            let n = usize::from(want[1].wrapping_sub(want[0])) + 1;
            let e = p.entries.first().cloned().unwrap_or(EntryM { flags: 0, color: [9; 4], name: String::new() });
            while p.entries.len() < n {
                p.entries.push(e.clone());
            }
            let f = s.below(nf);
            push(s, d, f, Body::Palette(p));
        }
        _ => {
            if d.head.depth != 8 {
                return false;
            }
            for f in &mut d.frames {
                for c in &mut f.chunks {
                    if matches!(c.body, Body::Palette(_) | Body::Pal4(_) | Body::Pal11(_)) {
                        *c = Body::Path(vec![]).into();
                    }
                }
            }
            let old = s.bool();
            let wrap = |v: Vec<Packet>| if old { Body::Pal4(v) } else { Body::Pal11(v) };
            if which == 12 {
                push(s, d, 0, wrap(vec![]));
            } else if which == 13 {
                let n = 1 + s.below(256);
                let mut skip = (257 - n) + s.pick(&[0usize, 1, 5, 200]);
                let mut v = vec![];
                while skip > 255 {
                    v.push(Packet { skip: 254, colors: vec![[1, 2, 3]] });
                    skip -= 255;
                }
                v.push(Packet { skip: skip as u8, colors: vec![[7, 8, 9]; n] });
                push(s, d, 0, wrap(v));
            }
        }
    }
    true
}

/// One fault in an enormous document.
fn v_faults(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    use vast::Dim as V;
    let which = s.below(11);
    let good = vast::doc(s, ctx, &[V::Frames, V::Frames, V::Layers, V::Tags, V::Unknown], true);
    check_fault(s, ctx, which, &good)
}

fn faults(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    let which = s.below(FAULTS.len());
    let o = Opts {
        max_layers: 4,
        max_frames: 5,
        long: false,
        link: 140,
        depths: if which >= 11 { &[8] } else { &[32, 16, 8] },
        ..undecoded()
    };
    let good = gen::doc(s, &o);
    check_fault(s, ctx, which, &good)
}

fn check_fault(s: &mut Src<'_>, ctx: &mut Ctx, which: usize, good: &Doc) -> R {
    let mut bad = good.clone();
    // there may be a layer or frame for every index that can be written
    let (nl, nf) = (layer_count(good), good.frames.len());
    let full = match which {
        1 | 2 => nl > 65_535,
        4 => nf > 65_535,
        5..=8 => nf > 65_536 || nl > 65_536,
        _ => false,
    };
    if full || !fault(s, &mut bad, which) {
        ctx.label("fault does not fit the file");
        return Ok(());
    }
    ctx.label(FAULTS[which]);
    let (g, b) = (encode(good), encode(&bad));
    ctx.describe(|| format!("{}: {}", FAULTS[which], bad.describe()));
    ctx.input(&b);
    ctx.nontrivial(&b);
    load_ok(&g)?;
    let r = load(&b)?;
    ensure!(r.is_err(), "loads although there is a {}", FAULTS[which]);
    // the reference agrees that this is an error
    let reference = decode::decode(&b).and_then(|d| {
        let v = view::resolve(&d)?;
        view::load_view(&d, &v).map(|_| ())
    });
    if reference.is_ok() {
        panic!("fault {} is none", FAULTS[which]);
    }
    Ok(())
}

/// All ranges of a tag and of a palette around the boundary.
fn boundaries(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    let i = s.u32() as usize;
    const V: [u32; 12] = [0, 1, 2, 127, 128, 254, 255, 256, 257, 511, 32768, 65535];
    let (which, a, b) = (i / 144, V[i / 12 % 12], V[i % 12]);
    ctx.nontrivial(&i);
    let l = super::parse::simple_layer("l");
    let mut chunks: Vec<ChunkM> = vec![Body::Layer(l).into()];
    let mut head = Head::default();
    let ok = match which {
        0 => {
            ctx.describe(|| format!("tag {a}..={b}"));
            chunks.push(
                Body::Tags(
                    [0; 8],
                    vec![TagM {
                        from: a as u16,
                        to: b as u16,
                        dir: 0,
                        repeat: 0,
                        reserved: [0; 6],
                        color: [0; 3],
                        extra: 0,
                        name: "t".into(),
                    }],
                )
                .into(),
            );
            a <= b
        }
        _ => {
            ctx.describe(|| format!("palette {a}..={b}"));
            head.depth = if which == 1 { 8 } else { 32 };
            let n = if a <= b { (b - a + 1).min(300) } else { 300 };
            let e = EntryM { flags: 0, color: [1, 2, 3, 4], name: String::new() };
            chunks.push(
                Body::Palette(PaletteM {
                    size: 256,
                    first: a,
                    last: b,
                    reserved: [0; 8],
                    entries: vec![e; n as usize],
                })
                .into(),
            );
            a <= b && b <= 255
        }
    };
    let d = Doc { head, frames: vec![FrameM::new(1, chunks)] };
    let bytes = encode(&d);
    ctx.input(&bytes);
    eq!(format!("case {i}: range {a}..={b} accepted"), load(&bytes)?.is_ok(), ok);
    Ok(())
}

// ------------------------------------------------------------------ table

large!(l_faults, faults);
large!(l_documents, documents);
large!(l_trees, trees);

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P13",
            rule: "a file that loads, with exactly one invalid reference or range put in; distinct bytes",
            assumptions: &["links to links count as invalid: the target has no image of its own"],
            families: vec![
                exhaustive("boundaries", boundaries, 3 * 144),
                fam("faults", faults, (1_500_000, 36_000_000), 900),
                fam("large", l_faults, (14_000, 500_000), 400),
                fam("vast", v_faults, (64, 1_600), 200),
            ],
        },
        Prop {
            id: "P14",
            rule: "at least two reported layers and two cels, distinct encoded bytes",
            assumptions: &[
                "files whose cels are images or links; nesting levels form a tree",
                "the order of the cels of a frame is judged by rendering (P18)",
            ],
            families: vec![
                exhaustive("corpus", corpus, 8),
                fam("documents", documents, (750_000, 18_000_000), 1500),
                fam("trees", trees, (750_000, 18_000_000), 400),
                fam("large", large, (4_000, 96_000), 16),
                fam("large documents", l_documents, (8_000, 200_000), 400),
                fam("large trees", l_trees, (8_000, 200_000), 400),
                fam("vast", v_loader, (96, 1_600), 64),
            ],
        },
    ]
}
