//! P03 P04 P05 P06 P07 P08 P09 P10 P23: what the parser returns.

use super::*;
use crate::encode::{encode, encode_maps, encode_spans, Kind, Span};
use crate::gen::{self, Opts};
use crate::runner::{all as exhaustive, fam, Ctx, Prop, R};
use crate::src::Src;
use crate::view;
use crate::{ensure, eq};

fn any_doc(s: &mut Src<'_>, o: &Opts) -> Doc {
    let mut d = gen::doc(s, o);
    if s.chance(128) {
        gen::any_canvas(s, &mut d.head);
    }
    d
}

/// A frame with the given chunks, nothing else.
fn plain(depth: u16, chunks: Vec<ChunkM>) -> Doc {
    Doc { head: Head { depth, ..Head::default() }, frames: vec![FrameM::new(100, chunks)] }
}

pub fn simple_layer(name: &str) -> LayerM {
    LayerM {
        flags: 3,
        kind: 0,
        level: 0,
        dw: 0,
        dh: 0,
        blend: 0,
        opacity: 255,
        reserved: [0; 3],
        name: name.into(),
        tileset: 0,
    }
}

// ------------------------------------------------------------------ P03

fn structure(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    let o = Opts { max_frames: 12, aux: 120, surplus: 50, ..Opts::default() };
    let mut d = any_doc(s, &o);
    for f in &mut d.frames {
        if s.chance(200) {
            f.recount(s.below(4) as u8);
        }
    }
    check_structure(ctx, &d)
}

fn check_structure(ctx: &mut Ctx, d: &Doc) -> R {
    let bytes = encode(d);
    show(ctx, d, &bytes);
    let chunks: usize = d.chunks().count();
    if d.frames.len() > 1 && chunks >= 4 {
        ctx.nontrivial(&bytes);
    }
    ctx.label_if(d.frames.len() > 8, "more than 8 frames");
    ctx.label_if(d.frames.iter().any(|f| f.new_count == 0 && f.old_count > 0), "old count only");
    ctx.label_if(
        d.frames.iter().any(|f| f.new_count != 0 && u32::from(f.old_count) != f.new_count),
        "counts disagree",
    );
    ctx.label_if(d.frames.iter().any(|f| f.chunks.is_empty()), "frame without chunks");
    ctx.label_if(usize::from(d.head.frames) != d.frames.len(), "header states another number of frames");
    let r = raw_ok(&bytes)?;
    view::header(&d.head, &r.header)?;
    view::structure(d, &r)?;
    // a frame parsed on its own is the same frame
    let f = file_ok(&bytes)?;
    view::header(&d.head, &f.header)?;
    eq!("number of frames at the file level", f.frames.len(), d.frames.len());
    for (i, (g, w)) in f.frames.iter().zip(&d.frames).enumerate() {
        eq!(format!("frame {i} duration at the file level"), g.duration, w.duration);
    }
    let h = guard("parse_header", || ab::header::parse_header(&bytes).map_err(why).map(|x| (x.0.len(), x.1)))?;
    let (rest, h) = h.map_err(|e| format!("parse_header rejected the header: {e}"))?;
    eq!("bytes after the header", rest, bytes.len() - 128);
    view::header(&d.head, &h)
}

fn many(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    let which = s.below(4);
    let n = 65_520 + s.below(120) + if s.chance(40) { 65_536 } else { 0 };
    let mut d = plain(32, vec![]);
    match which {
        0 => {
            // more chunks than the old field can count
            let c: Vec<ChunkM> = (0..n)
                .map(|i| if i % 251 == 0 { Body::Unknown(0x2999, vec![]).into() } else { Body::Path(vec![]).into() })
                .collect();
            d.frames = vec![FrameM::new(1, vec![Body::Path(vec![]).into()]), FrameM::new(7, c)];
            d.frames[1].recount(if n >= 65_535 { 2 } else { s.below(4) as u8 });
        }
        1 => {
            // many frames
            let n = 300 + s.below(3000);
            d.frames = (0..n).map(|i| FrameM::new(i as u16, vec![])).collect();
        }
        2 => {
            // more frames than the header field can count
            d.frames = (0..n).map(|i| FrameM::new((i * 7) as u16, vec![])).collect();
        }
        _ => {
            // the old field at its upper end
            let n = s.pick(&[65_533usize, 65_534, 255, 256, 257]);
            let c = (0..n).map(|_| Body::Path(vec![]).into()).collect();
            d.frames = vec![FrameM::new(3, c)];
            d.frames[0].recount(1);
        }
    }
    ctx.label(["many chunks", "many frames", "more than 65535 frames", "old count near its maximum"][which]);
    ctx.nontrivial(&(which, n));
    check_structure(ctx, &d)
}

// ------------------------------------------------------------------ P04

fn layers_cels(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    let o = Opts {
        max_layers: 10,
        max_frames: 6,
        cel: 180,
        odd_levels: true,
        tags: 10,
        slices: 10,
        props: 10,
        ..Opts::default()
    };
    let d = any_doc(s, &o);
    check_layers_cels(ctx, &d)
}

fn check_layers_cels(ctx: &mut Ctx, d: &Doc) -> R {
    let bytes = encode(d);
    show(ctx, d, &bytes);
    let v = must(view::resolve(d));
    let cels = v.frames.iter().flat_map(|f| f.1.iter().flatten()).count();
    if v.layers.len() >= 2 && cels >= 2 {
        ctx.nontrivial(&bytes);
    }
    for c in v.frames.iter().flat_map(|f| f.1.iter().flatten()) {
        ctx.label(match c.0.content {
            Content::Raw { .. } => "raw cel",
            Content::Zip { .. } => "compressed cel",
            Content::Linked { .. } => "linked cel",
            Content::Tilemap(_) => "tilemap cel",
            Content::Unknown { .. } => "unknown cel",
        });
        ctx.label_if(c.0.x < 0 || c.0.y < 0, "negative position");
        ctx.label_if(c.0.z != 0, "z-index");
    }
    ctx.label_if(v.layers.iter().any(|l| l.0.kind == 2), "tilemap layer");
    ctx.label_if(v.layers.iter().any(|l| l.0.kind > 2), "unknown layer type");
    ctx.label_if(v.layers.len() > 256, "more than 256 layers");
    let f = file_ok(&bytes)?;
    view::layers_and_cels(&v, &f)?;
    // the raw level shows each layer and cel chunk in its place
    let r = raw_ok(&bytes)?;
    eq!("number of frames", r.frames.len(), d.frames.len());
    for (i, (g, w)) in r.frames.iter().zip(&d.frames).enumerate() {
        let want: Vec<&CelM> =
            w.chunks.iter().filter_map(|c| if let Body::Cel(c) = &c.body { Some(c) } else { None }).collect();
        eq!(format!("frame {i} cels()"), g.cels().count(), want.len());
        for (g, w) in g.cels().zip(want) {
            view::cel(w, g).map_err(|e| format!("frame {i} cels(): {e}"))?;
        }
    }
    Ok(())
}

/// Sprites with very many layers, few cels, in any order.
fn many_layers(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    let n = s.pick(&[255usize, 256, 257, 300, 1000, 2000]);
    let mut chunks: Vec<ChunkM> = vec![];
    let mut b = s.bulk();
    for i in 0..n {
        let mut l = simple_layer(&format!("L{i}"));
        l.opacity = b.byte();
        l.flags = b.byte().into();
        l.level = (b.next() % 5) as u16;
        l.kind = (b.next() % 2) as u16;
        chunks.push(Body::Layer(l).into());
    }
    let nf = 1 + s.below(4);
    let mut frames = vec![];
    for f in 0..nf {
        let mut c = if f == 0 { chunks.clone() } else { vec![] };
        let k = 1 + b.below(12) as usize;
        let mut used = std::collections::HashSet::new();
        for _ in 0..k {
            let l = match b.below(4) {
                0 => n - 1,
                1 => 255.min(n - 1),
                2 => 256.min(n - 1),
                _ => b.below(n as u64) as usize,
            };
            if !used.insert(l) {
                continue;
            }
            let data = vec![b.byte(), b.byte(), b.byte(), b.byte()];
            c.push(
                Body::Cel(CelM {
                    layer: l as u16,
                    x: b.next() as i16,
                    y: b.next() as i16,
                    opacity: b.byte(),
                    z: b.next() as i16,
                    reserved: [0; 5],
                    content: Content::Raw { w: 1, h: 1, data },
                })
                .into(),
            );
        }
        frames.push(FrameM::new(f as u16, c));
    }
    let d = Doc { head: Head::default(), frames };
    check_layers_cels(ctx, &d)
}

// ------------------------------------------------------------------ P05

fn tags_slices(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    let o = Opts { tags: 150, slices: 170, max_layers: 3, cel: 40, aux: 40, props: 10, ..Opts::default() };
    let d = any_doc(s, &o);
    check_tags_slices(ctx, &d)
}

fn check_tags_slices(ctx: &mut Ctx, d: &Doc) -> R {
    let bytes = encode(d);
    show(ctx, d, &bytes);
    let v = must(view::resolve(d));
    let keys: usize = v.slices.iter().map(|s| s.0.keys.len()).sum();
    if v.tags.len() + keys >= 2 {
        ctx.nontrivial(&bytes);
    }
    ctx.label_if(v.tags.iter().any(|t| t.0.dir > 3), "unknown direction");
    ctx.label_if(v.tags.iter().any(|t| t.0.from == t.0.to), "tag of one frame");
    ctx.label_if(v.tags.iter().any(|t| t.0.repeat > 255), "repeat above 255");
    ctx.label_if(v.tags.len() > 16, "more than 16 tags");
    for s in &v.slices {
        if !s.0.keys.is_empty() {
            ctx.label(match s.0.flags & 3 {
                0 => "plain slice",
                1 => "nine-patch slice",
                2 => "pivot slice",
                _ => "nine-patch and pivot slice",
            });
        }
        ctx.label_if(s.0.keys.iter().any(|k| k.x < 0 || k.y < 0), "negative slice origin");
    }
    let n = d.chunks().filter(|c| matches!(c.body, Body::Tags(..))).count();
    ctx.label_if(n > 1, "several tags chunks");
    let f = file_ok(&bytes)?;
    view::tags_and_slices(&v, &f)
}

fn many_tags(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    let n = s.pick(&[255usize, 256, 257, 1000, 65_535, 20_000]);
    let mut b = s.bulk();
    let few = Opts { long: false, ..Opts::default() };
    let mut chunks: Vec<ChunkM> = vec![];
    if s.bool() {
        let t = (0..n)
            .map(|i| {
                let (x, y) = (b.next() as u16, b.next() as u16);
                TagM {
                    from: x.min(y),
                    to: x.max(y),
                    dir: (i % 5) as u8,
                    repeat: b.next() as u16,
                    reserved: [b.byte(); 6],
                    color: [b.byte(), b.byte(), b.byte()],
                    extra: b.byte(),
                    name: format!("{i}"),
                }
            })
            .collect();
        chunks.push(Body::Tags([0; 8], t).into());
    } else {
        let flags = s.below(4) as u32;
        let mut sl = gen::slice(s, &few, 0);
        sl.flags = flags;
        sl.keys = (0..n)
            .map(|i| KeyM {
                frame: i as u32,
                x: b.next() as i32,
                y: b.next() as i32,
                w: b.next() as u32,
                h: b.next() as u32,
                nine: if flags & 1 != 0 {
                    (b.next() as i32, b.next() as i32, b.next() as u32, b.next() as u32)
                } else {
                    (0, 0, 0, 0)
                },
                pivot: if flags & 2 != 0 { (b.next() as i32, b.next() as i32) } else { (0, 0) },
            })
            .collect();
        chunks.push(Body::Slice(sl).into());
        for i in 0..n.min(300) {
            let mut x = gen::slice(s, &few, 1);
            x.name = format!("s{i}");
            chunks.push(Body::Slice(x).into());
        }
    }
    check_tags_slices(ctx, &plain(32, chunks))
}

// ------------------------------------------------------------------ P06

fn palettes(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    let o = Opts {
        depths: &[8, 8, 8, 8, 8, 32, 16],
        max_layers: 1,
        max_frames: 5,
        tags: 4,
        slices: 4,
        aux: 30,
        user: 20,
        props: 0,
        cel: 20,
        ..Opts::default()
    };
    let mut d = gen::doc(s, &o);
    // more palette chunks, anywhere
    let mut n = s.below(4);
    while n > 0 {
        n -= 1;
        let p = match s.weighted(&[2, 2, 2]) {
            0 => Body::Palette(gen::palette(s, &o)),
            1 => Body::Pal4(gen::packets(s, 8, true)),
            _ => Body::Pal11(gen::packets(s, 6, true)),
        };
        let f = s.below(d.frames.len());
        let fr = &mut d.frames[f];
        let at = s.below(fr.chunks.len() + 1);
        fr.chunks.insert(at, p.into());
        fr.recount(s.below(4) as u8);
    }
    if s.chance(80) {
        // only old ones
        let keep = |c: &ChunkM| !matches!(c.body, Body::Palette(_));
        let old = |c: &ChunkM| match &c.body {
            Body::Pal4(v) | Body::Pal11(v) => !v.is_empty(),
            _ => false,
        };
        if s.chance(20) {
            // the deciding kind without colours
            let f = s.below(d.frames.len());
            let empty = if s.bool() { Body::Pal4(vec![]) } else { Body::Pal11(vec![]) };
            d.frames[f].chunks.insert(0, empty.into());
            d.frames[f].recount(0);
        }
        if d.chunks().any(old) {
            for f in &mut d.frames {
                f.chunks.retain(keep);
                f.recount(0);
            }
        }
    }
    if s.chance(160) {
        d.head.transparent = s.u8b();
    }
    check_palette(ctx, &d)
}

fn check_palette(ctx: &mut Ctx, d: &Doc) -> R {
    if d.head.depth == 8 && view::palette(d).is_err() {
        // an old palette chunk of the deciding kind without colours
        // that it is refused is P13's concern; none of the other kinds counts
        ctx.label("the deciding kind has no colours");
        let bytes = encode(d);
        show(ctx, d, &bytes);
        if let Ok(f) = file(&bytes)? {
            let none = f.palette.as_ref().is_none_or(|p| p.colors.iter().all(|c| (c.red, c.green, c.blue, c.alpha) == (0, 0, 0, 0)));
            ensure!(none, "colours from palette chunks that do not count: the deciding kind has none");
        }
        return Ok(());
    }
    let bytes = encode(d);
    show(ctx, d, &bytes);
    let want = must(view::palette(d));
    let n = d
        .chunks()
        .filter(|c| matches!(c.body, Body::Palette(_) | Body::Pal4(_) | Body::Pal11(_)))
        .count();
    if d.head.depth == 8 && n >= 2 {
        ctx.nontrivial(&bytes);
    }
    if d.head.depth == 8 {
        let has = |f: fn(&Body) -> bool| d.chunks().any(|c| f(&c.body));
        let new = has(|b| matches!(b, Body::Palette(_)));
        let p4 = has(|b| matches!(b, Body::Pal4(_)));
        let p11 = has(|b| matches!(b, Body::Pal11(_)));
        ctx.label(match (new, p4, p11) {
            (true, false, false) => "new only",
            (true, _, _) => "new over old",
            (_, true, true) => "0x0004 over 0x0011",
            (_, true, false) => "0x0004 only",
            _ => "0x0011 only",
        });
        ctx.label_if(
            d.chunks().any(|c| matches!(&c.body, Body::Palette(p) if p.first > 0)),
            "range not from 0",
        );
        ctx.label_if(
            d.chunks().any(|c| matches!(&c.body, Body::Palette(p) if p.size != p.last - p.first + 1)),
            "part of the declared size",
        );
        ctx.label_if(
            d.chunks().any(
                |c| matches!(&c.body, Body::Pal4(p) | Body::Pal11(p) if p.iter().any(|p| p.colors.len() == 256)),
            ),
            "packet of 256 colours",
        );
    } else {
        ctx.label("not indexed");
    }
    let f = file_ok(&bytes)?;
    view::palette_cmp(&want, &f.palette)?;
    // the same at the loader level, and from the raw frames
    let r = raw_ok(&bytes)?;
    if let Some(w) = &want {
        let p = guard("create_palette", || ab::palette::create_palette(&r.header, &r.frames))?;
        let p = p.map_err(|e| format!("create_palette: {e}"))?;
        view::palette_cmp(&Some(w.clone()), &Some(p))?;
    }
    Ok(())
}

// ------------------------------------------------------------------ P07

fn attach(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    let o = Opts {
        user: 170,
        tags: 110,
        slices: 110,
        aux: 100,
        props: 20,
        max_frames: 3,
        long: false,
        ..Opts::default()
    };
    let mut d = any_doc(s, &o);
    // stray user data anywhere, and objects torn from theirs
    let mut n = s.len(4);
    while n > 0 {
        n -= 1;
        let f = s.below(d.frames.len());
        let fr = &mut d.frames[f];
        let at = s.below(fr.chunks.len() + 1);
        match s.weighted(&[3, 2, 1]) {
            0 => {
                let mut u = gen::user(s, &o);
                if u.flags & 3 == 0 {
                    u.flags |= 1;
                    u.text = format!("stray {n}");
                }
                fr.chunks.insert(at, Body::User(u).into());
            }
            1 => fr.chunks.insert(at, gen::aux(s, &o).into()),
            _ => fr.chunks.insert(at, gen::any_palette(s, &o).into()),
        }
        fr.recount(0);
    }
    // number the texts so that a mix-up shows
    let mut i = 0;
    for f in &mut d.frames {
        for c in &mut f.chunks {
            if let Body::User(u) = &mut c.body {
                if u.flags & 1 != 0 && u.text.len() < 12 {
                    u.text = format!("{i}:{}", u.text);
                }
                i += 1;
            }
        }
    }
    check_attach(ctx, &d)
}

fn check_attach(ctx: &mut Ctx, d: &Doc) -> R {
    let Ok(v) = view::resolve(d) else {
        ctx.label("invalid palette: not judged here");
        return Ok(());
    };
    let bytes = encode(d);
    show(ctx, d, &bytes);
    let mut kinds = 0u32;
    kinds |= u32::from(v.user.is_some());
    kinds |= u32::from(v.layers.iter().any(|x| x.1.is_some())) << 1;
    kinds |= u32::from(v.tags.iter().any(|x| x.1.is_some())) << 2;
    kinds |= u32::from(v.slices.iter().any(|x| x.1.is_some())) << 3;
    kinds |= u32::from(v.frames.iter().any(|f| f.1.iter().flatten().any(|c| c.1.is_some()))) << 4;
    for (i, l) in ["sprite", "layer", "tag", "slice", "cel"].into_iter().enumerate() {
        ctx.label_if(kinds >> i & 1 == 1, l);
    }
    let users = d.chunks().filter(|c| matches!(c.body, Body::User(_))).count();
    if kinds.count_ones() >= 2 {
        ctx.nontrivial(&bytes);
    }
    let attached = view_attached(&v);
    ctx.label_if(users > attached, "user data that belongs to nothing");
    let between = d.frames.iter().any(|f| {
        f.chunks.windows(3).any(|w| {
            matches!(w[0].body, Body::Cel(_)) && matches!(w[1].body, Body::CelExtra(_)) && matches!(w[2].body, Body::User(_))
        })
    });
    ctx.label_if(between, "cel extra between cel and user data");
    let f = file_ok(&bytes)?;
    view::user_attachment(&v, &f)
}

fn view_attached(v: &view::FileView<'_>) -> usize {
    usize::from(v.user.is_some())
        + v.layers.iter().filter(|x| x.1.is_some()).count()
        + v.tags.iter().filter(|x| x.1.is_some()).count()
        + v.slices.iter().filter(|x| x.1.is_some()).count()
        + v.frames.iter().flat_map(|f| f.1.iter().flatten()).filter(|x| x.1.is_some()).count()
}

/// Short sequences of chunks of a few kinds, all kinds equally likely.
fn sequences(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    let nf = 1 + s.below(3);
    let mut frames: Vec<Vec<ChunkM>> = vec![vec![]; nf];
    let mut layers = 0u16;
    let mut serial = 0;
    for f in &mut frames {
        let n = s.below(14);
        let mut used = 0u16;
        for _ in 0..n {
            serial += 1;
            let b = match s.below(14) {
                0..=4 => Body::User(UserM {
                    flags: 1 + s.below(3) as u32,
                    text: format!("u{serial}"),
                    color: [serial as u8, 1, 2, 3],
                    props: Props::Maps(vec![]),
                }),
                5 => {
                    layers += 1;
                    Body::Layer(simple_layer(&format!("l{serial}")))
                }
                6 | 7 if used < layers => {
                    used += 1;
                    Body::Cel(CelM {
                        layer: used - 1,
                        x: 0,
                        y: 0,
                        opacity: 255,
                        z: 0,
                        reserved: [0; 5],
                        content: Content::Raw { w: 1, h: 1, data: vec![0; 4] },
                    })
                }
                8 => Body::Tags(
                    [0; 8],
                    (0..s.below(4))
                        .map(|i| TagM {
                            from: 0,
                            to: 0,
                            dir: 0,
                            repeat: 0,
                            reserved: [0; 6],
                            color: [0; 3],
                            extra: 0,
                            name: format!("t{serial}.{i}"),
                        })
                        .collect(),
                ),
                9 => Body::Slice(SliceM { flags: 0, reserved: 0, name: format!("s{serial}"), keys: vec![] }),
                10 => match s.below(3) {
                    0 => Body::Palette(PaletteM {
                        size: 1,
                        first: 0,
                        last: 0,
                        reserved: [0; 8],
                        entries: vec![EntryM { flags: 0, color: [1, 2, 3, 255], name: String::new() }],
                    }),
                    1 => Body::Pal4(vec![Packet { skip: 0, colors: vec![[1, 2, 3]] }]),
                    _ => Body::Pal11(vec![Packet { skip: 0, colors: vec![[1, 2, 3]] }]),
                },
                11 => Body::CelExtra(CelExtraM { flags: 0, vals: [0; 4], rest: vec![] }),
                12 => Body::Unknown(0x2999, vec![1]),
                _ => Body::Tileset(TilesetM {
                    id: 0,
                    flags: 0,
                    n: 0,
                    w: 1,
                    h: 1,
                    base: 1,
                    reserved: [0; 14],
                    name: String::new(),
                    ext: [0; 2],
                    data: vec![],
                }),
            };
            f.push(b.into());
        }
    }
    let d = Doc { head: Head::default(), frames: frames.into_iter().map(|c| FrameM::new(1, c)).collect() };
    check_attach(ctx, &d)
}

// ------------------------------------------------------------------ P08

fn one_user(u: UserM) -> Doc {
    let mut l = simple_layer("l");
    l.level = 0;
    plain(32, vec![Body::Layer(l).into(), Body::User(u).into(), Body::Layer(simple_layer("after")).into()])
}

fn depth_of(v: &PVal) -> usize {
    match v {
        PVal::Vector(_, v) => 1 + v.iter().map(depth_of).max().unwrap_or(0),
        PVal::Map(m) => 1 + m.iter().map(|x| depth_of(&x.1)).max().unwrap_or(0),
        _ => 0,
    }
}

fn label_val(ctx: &mut Ctx, v: &PVal) {
    match v {
        PVal::Vector(0, v) => {
            ctx.label_if(!v.is_empty(), "mixed vector");
            v.iter().for_each(|v| label_val(ctx, v));
        }
        PVal::Vector(_, v) => {
            ctx.label_if(!v.is_empty(), "uniform vector");
            v.iter().for_each(|v| label_val(ctx, v));
        }
        PVal::Map(m) => {
            ctx.label_if(!m.is_empty(), "nested map");
            m.iter().for_each(|v| label_val(ctx, &v.1));
        }
        _ => ctx.label("scalar"),
    }
}

fn properties(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    let maps = gen::pmaps(s);
    let mut u = gen::user(s, &Opts { props: 0, ..Opts::default() });
    u.flags |= 4;
    u.props = Props::Maps(maps);
    check_props(ctx, u)
}

fn check_props(ctx: &mut Ctx, u: UserM) -> R {
    let d = one_user(u.clone());
    let bytes = encode(&d);
    show(ctx, &d, &bytes);
    if let Props::Maps(ms) = &u.props {
        let vals: usize = ms.iter().map(|m| m.props.len()).sum();
        let depth = ms.iter().flat_map(|m| m.props.iter()).map(|p| depth_of(&p.1)).max().unwrap_or(0);
        ms.iter().flat_map(|m| m.props.iter()).for_each(|p| label_val(ctx, &p.1));
        ctx.label_if(depth >= 4, "nested at least 4 deep");
        if vals >= 2 || depth >= 1 {
            ctx.nontrivial(&bytes);
        }
    }
    let v = must(view::resolve(&d));
    let f = file_ok(&bytes)?;
    eq!("number of layers", f.layers.len(), 2);
    view::user_attachment(&v, &f)?;
    view::props_all(&v, &f)
}

/// One type after another, in every position a value can have.
fn each_type(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    let t = 1 + s.below(19) as u16;
    let place = s.below(6);
    let mut v = gen::pval(s, t, 6);
    match place {
        1 => {
            let mut xs = vec![v];
            for _ in 0..s.len(20) {
                xs.push(gen::pval(s, t, 6));
            }
            v = PVal::Vector(t, xs);
        }
        2 => {
            let mut xs = vec![v];
            for _ in 0..s.len(6) {
                let t = 1 + s.below(19) as u16;
                xs.push(gen::pval(s, t, 6));
            }
            v = PVal::Vector(0, xs);
        }
        3 => v = PVal::Map(vec![("x".into(), v), ("y".into(), PVal::U8(7))]),
        4 => v = PVal::Vector(17, vec![PVal::Vector(t, vec![v]), PVal::Vector(0, vec![PVal::U8(1)])]),
        5 => v = PVal::Vector(18, vec![PVal::Map(vec![("x".into(), v)]), PVal::Map(vec![])]),
        _ => {}
    }
    ctx.label(
        ["alone", "in a uniform vector", "in a mixed vector", "in a map", "in a vector of vectors", "in a vector of maps"]
            [place],
    );
    let u = UserM {
        flags: 4,
        text: String::new(),
        color: [0; 4],
        props: Props::Maps(vec![PMap {
            key: s.u32b(),
            props: vec![("a".into(), PVal::Bool(1)), ("v".into(), v), ("z".into(), PVal::Str("end".into()))],
        }]),
    };
    ctx.nontrivial(&(t, place));
    check_props(ctx, u)
}

/// Properties and vectors in great numbers.
fn big_props(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    let mut b = s.bulk();
    let n = match s.below(3) {
        0 => s.pick(&[255usize, 256, 257, 1000, 65_535, 65_536, 70_000]),
        _ => s.round(70_000),
    };
    let mut raw: Vec<u8> = (0..n).map(|_| b.byte()).collect();
    s.pad(&mut raw);
    let p = match s.below(6) {
        0 => vec![("v".into(), PVal::Vector(3, raw.into_iter().map(PVal::U8).collect()))],
        1 => vec![("v".into(), PVal::Vector(0, (0..n).map(|_| PVal::U16(b.next() as u16)).collect()))],
        4 | 5 => {
            // any type of one size
            let num = |k: usize| raw.iter().skip(k).step_by(7).map(|x| u64::from(*x));
            let vs: Vec<PVal> = match s.below(9) {
                0 => raw.iter().map(|x| PVal::I8(*x as i8)).collect(),
                1 => raw.iter().map(|x| PVal::Bool(*x)).collect(),
                2 => num(0).map(|x| PVal::I16(x as i16)).collect(),
                3 => num(1).map(|x| PVal::U16(x as u16)).collect(),
                4 => num(2).map(|x| PVal::I32(x as i32)).collect(),
                5 => num(3).map(|x| PVal::U32(x as u32)).collect(),
                6 => num(4).map(|x| PVal::I64(x as i64)).collect(),
                7 => num(5).map(PVal::U64).collect(),
                _ => num(6).map(|x| PVal::Fixed(x as u32)).collect(),
            };
            let code = vs.first().map_or(0, PVal::code);
            vec![("v".into(), PVal::Vector(code, vs))]
        }
        2 => (0..n).map(|i| (format!("{i}"), PVal::U32(b.next() as u32))).collect(),
        _ => vec![("v".into(), PVal::Vector(13, (0..n).map(|i| PVal::Str(format!("{i}"))).collect()))],
    };
    let u = UserM { flags: 4, text: String::new(), color: [0; 4], props: Props::Maps(vec![PMap { key: 1, props: p }]) };
    check_props(ctx, u)
}

/// A malformed block: an error there, and nowhere else.
fn malformed(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    let maps = {
        let mut m = gen::pmaps(s);
        if m.is_empty() {
            m.push(PMap { key: 0, props: gen::props(s, 1) });
        }
        m
    };
    let mut data = encode_maps(&maps);
    let mut num = maps.len() as u32;
    let how = s.weighted(&[2, 2, 2, 1, 2]);
    match how {
        0 => {
            let n = s.below(data.len());
            data.truncate(n);
        }
        1 => {
            let at = s.below(data.len());
            data[at] = s.u8b();
        }
        2 => num = num.wrapping_add(s.pick(&[1, 2, 0xffff_ffff, 0x7fff_ffff, 65_536])),
        3 => {
            let x = s.bytes(20);
            let at = s.below(data.len() + 1);
            data.splice(at..at, x);
        }
        _ => {
            // a wrong type code somewhere
            let at = s.below(data.len());
            let code = s.pick(&[0u16, 20, 21, 0x0100, 0xffff, 17, 18]).to_le_bytes();
            data[at] = code[0];
            if at + 1 < data.len() {
                data[at + 1] = code[1];
            }
        }
    }
    let props = match crate::decode::maps(&data, num) {
        Ok(m) => Props::Maps(m),
        Err(e) if e.contains("too deep") => {
            ctx.label("too deep to judge");
            return Ok(());
        }
        Err(_) => Props::Bad { num, data: data.clone() },
    };
    ctx.label(["cut", "byte changed", "wrong number", "bytes inserted", "wrong type"][how]);
    let bad = matches!(props, Props::Bad { .. });
    ctx.label(if bad { "malformed" } else { "still well-formed" });
    // written as the very bytes, judged as the reference decoded them
    let text = s.short_string();
    let written = UserM {
        flags: 7,
        text,
        color: [9, 8, 7, 6],
        props: Props::Bad { num, data },
    };
    let judged = UserM { props, ..written.clone() };
    let (dw, dj) = (one_user(written), one_user(judged));
    let bytes = encode(&dw);
    show(ctx, &dw, &bytes);
    if bad {
        ctx.nontrivial(&bytes);
    }
    let v = must(view::resolve(&dj));
    let f = file_ok(&bytes)?;
    view::layers_and_cels(&v, &f)?;
    view::user_attachment(&v, &f)?;
    view::props_all(&v, &f)
}

/// Files with properties on all kinds of objects.
fn props_everywhere(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    let o = Opts { user: 170, props: 200, tags: 90, slices: 90, long: false, max_frames: 2, ..Opts::default() };
    let d = any_doc(s, &o);
    let bytes = encode(&d);
    show(ctx, &d, &bytes);
    let v = must(view::resolve(&d));
    let n = d.chunks().filter(|c| matches!(&c.body, Body::User(u) if u.flags & 4 != 0)).count();
    if n >= 2 {
        ctx.nontrivial(&bytes);
    }
    let f = file_ok(&bytes)?;
    view::user_attachment(&v, &f)?;
    view::props_all(&v, &f)?;
    let r = raw_ok(&bytes)?;
    for (g, f) in r.frames.iter().zip(&d.frames) {
        for (g, c) in g.chunks.iter().zip(&f.chunks) {
            if let (ab::chunk::Chunk::UserData(g), Body::User(w)) = (g, &c.body) {
                view::user_plain(w, g)?;
                view::props_of(w, g)?;
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ P09

fn auxiliary(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    let o = Opts { aux: 210, max_layers: 3, tags: 10, slices: 10, user: 30, props: 10, ..Opts::default() };
    let mut d = any_doc(s, &o);
    let mut n = s.below(4);
    while n > 0 {
        n -= 1;
        let b = match s.below(3) {
            0 => Body::Palette(gen::palette(s, &o)),
            1 => Body::Pal4(gen::packets(s, 8, false)),
            _ => Body::Pal11(gen::packets(s, 8, false)),
        };
        let f = s.below(d.frames.len());
        d.frames[f].chunks.push(b.into());
        d.frames[f].recount(0);
    }
    check_aux(ctx, &d)
}

fn check_aux(ctx: &mut Ctx, d: &Doc) -> R {
    let bytes = encode(d);
    show(ctx, d, &bytes);
    let mut n = 0;
    for c in d.chunks() {
        let l = match &c.body {
            Body::Profile(p) if p.kind == 2 => "ICC profile",
            Body::Profile(_) => "colour profile",
            Body::External(..) => "external files",
            Body::Mask(_) => "mask",
            Body::CelExtra(_) => "cel extra",
            Body::Tileset(t) => match t.flags & 3 {
                0 => "plain tileset",
                1 => "external tileset",
                2 => "tileset with tiles",
                _ => "tileset with tiles and external file",
            },
            Body::Pal4(_) | Body::Pal11(_) => "old palette",
            Body::Palette(_) => "palette",
            _ => continue,
        };
        n += 1;
        ctx.label(l);
    }
    if n >= 2 {
        ctx.nontrivial(&bytes);
    }
    let r = raw_ok(&bytes)?;
    view::all_aux(d, &r)
}

fn big_aux(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    let n = match s.below(2) {
        0 => s.pick(&[255usize, 256, 65_535, 65_536, 70_000, 1000]),
        _ => s.round(70_000),
    };
    let mut raw: Vec<u8> = s.fill(n);
    let mut data = |_| std::mem::take(&mut raw);
    let body = match s.below(6) {
        0 => {
            let mut p = gen::profile(s);
            p.kind = 2;
            p.icc = data(n);
            Body::Profile(p)
        }
        1 => {
            let mut m = gen::mask(s, &Opts::default());
            m.data = data(n);
            Body::Mask(m)
        }
        2 => {
            let mut t = gen::tileset(s, &Opts::default());
            t.flags |= 2;
            if t.flags & 1 != 0 && t.ext == [0; 2] {
                t.ext = [1, 2];
            }
            t.data = data(n);
            Body::Tileset(t)
        }
        3 => Body::External(
            [0; 8],
            (0..n.min(70_000))
                .map(|i| ExtM { id: i as u32, kind: (i % 5) as u8, reserved: [0; 7], name: format!("{i}") })
                .collect(),
        ),
        4 => {
            let m = n.min(65_535);
            Body::Pal4((0..m).map(|i| Packet { skip: i as u8, colors: vec![[i as u8, 1, 2]] }).collect())
        }
        _ => Body::Pal11(
            (0..300).map(|i| Packet { skip: i as u8, colors: vec![[i as u8, 1, 2]; 1 + i * 7 % 256] }).collect(),
        ),
    };
    check_aux(ctx, &plain(32, vec![body.into(), Body::Path(vec![]).into(), Body::Profile(gen::profile(s)).into()]))
}

// ------------------------------------------------------------------ P10

/// Case i: field i / 256, codes (i % 256) * 256 .. + 256 (byte fields: all in one).
fn codes(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    let i = s.u32();
    let (field, hi) = (i / 256, (i % 256) as u16);
    let list: Vec<u16> = (0..256).map(|l| hi << 8 | l).collect();
    ctx.nontrivial(&i);
    ctx.evaluations(255);
    ctx.describe(|| format!("field {field} codes {:#06x}..={:#06x}", list[0], list[255]));
    match field {
        0 => {
            ctx.label("colour depth");
            ctx.evaluations(0);
            for c in list {
                let mut d = plain(
                    c,
                    vec![Body::Palette(PaletteM {
                        size: 1,
                        first: 0,
                        last: 0,
                        reserved: [0; 8],
                        entries: vec![EntryM { flags: 0, color: [1, 2, 3, 255], name: String::new() }],
                    })
                    .into()],
                );
                d.head.depth = c;
                let b = encode(&d);
                let f = file_ok(&b)?;
                view::header(&d.head, &f.header)?;
                use ab::color_depth::ColorDepth as D;
                let g = guard("ColorDepth::from", || D::from(c))?;
                eq!("ColorDepth::from", g, f.header.color_depth);
                let px = match c {
                    32 => Some(4),
                    16 => Some(2),
                    8 => Some(1),
                    _ => None,
                };
                eq!("pixel_size", g.pixel_size(), px);
                eq!("bpp", g.bpp(), c);
            }
        }
        1 => {
            ctx.label("blend mode");
            let ls: Vec<LayerM> = list.iter().map(|c| LayerM { blend: *c, ..simple_layer("b") }).collect();
            layer_codes(&ls)?;
            for c in list {
                let g = guard("BlendMode::from", || ab::blend_mode::BlendMode::from(c))?;
                eq!("BlendMode::from", g, view::blend_mode(c));
            }
        }
        2 => {
            ctx.label("layer type");
            let ls: Vec<LayerM> = list.iter().map(|c| LayerM { kind: *c, tileset: 77, ..simple_layer("k") }).collect();
            layer_codes(&ls)?;
            for c in list {
                let g = guard("LayerType::from", || ab::chunks::layer::LayerType::from(c))?;
                eq!("LayerType::from", g, view::layer_type(c));
            }
        }
        3 => {
            ctx.label("cel type");
            let mut chunks: Vec<ChunkM> = (0..256).map(|_| Body::Layer(simple_layer("c")).into()).collect();
            for (l, c) in list.iter().enumerate() {
                let content = match c {
                    0 => Content::Raw { w: 1, h: 1, data: vec![1, 2, 3, 4] },
                    1 => Content::Linked { frame: 7 },
                    2 => Content::Zip { w: 3, h: 1, data: vec![5; 9] },
                    3 => Content::Tilemap(TilemapM {
                        w: 1,
                        h: 2,
                        bits: 32,
                        id: 1,
                        xf: 2,
                        yf: 4,
                        df: 8,
                        reserved: [0; 10],
                        data: vec![7; 5],
                    }),
                    k => Content::Unknown { kind: *k, data: vec![3; 4] },
                };
                chunks.push(
                    Body::Cel(CelM { layer: l as u16, x: 1, y: 2, opacity: 3, z: 4, reserved: [0; 5], content }).into(),
                );
            }
            let d = plain(32, chunks);
            let b = encode(&d);
            let v = must(view::resolve(&d));
            view::layers_and_cels(&v, &file_ok(&b)?)?;
        }
        4 => {
            ctx.label("colour profile type");
            let chunks = list
                .iter()
                .map(|c| {
                    Body::Profile(ProfileM {
                        kind: *c,
                        flags: 1,
                        gamma: 0x0002_8000,
                        reserved: [0; 8],
                        icc: if *c == 2 { vec![1, 2, 3] } else { vec![] },
                    })
                    .into()
                })
                .collect();
            let d = plain(32, chunks);
            let b = encode(&d);
            view::all_aux(&d, &raw_ok(&b)?)?;
        }
        5 => {
            ctx.label("chunk type");
            let chunks = list
                .iter()
                .map(|c| match *c {
                    c if KNOWN_CHUNKS.contains(&c) => Body::Path(vec![]).into(),
                    c => Body::Unknown(c, vec![1, 2, 3, 4, 5, 6, 7, 8]).into(),
                })
                .collect();
            let d = plain(32, chunks);
            let b = encode(&d);
            view::structure(&d, &raw_ok(&b)?)?;
            for c in list {
                let bytes = c.to_le_bytes();
                let g = guard("parse_chunk_type", || {
                    ab::chunk_type::parse_chunk_type(&bytes).map_err(why).map(|x| x.1.map(|t| t as u16))
                })?;
                let want = if KNOWN_CHUNKS.contains(&c) { Ok(c) } else { Err(c) };
                eq!("chunk type", g, Ok(want));
            }
        }
        6 => {
            // one byte: all codes in the first case
            ctx.label("animation direction");
            let tags: Vec<TagM> = (0..=255u8)
                .map(|c| TagM {
                    from: 0,
                    to: 0,
                    dir: c,
                    repeat: hi,
                    reserved: [0; 6],
                    color: [1, 2, 3],
                    extra: 0,
                    name: "t".into(),
                })
                .collect();
            let d = plain(32, vec![Body::Tags([0; 8], tags).into()]);
            let b = encode(&d);
            let v = must(view::resolve(&d));
            view::tags_and_slices(&v, &file_ok(&b)?)?;
            for c in 0..=255u8 {
                let g = guard("AnimationDirection::from", || ab::chunks::tags::AnimationDirection::from(c))?;
                view::direction(c, &g)?;
            }
        }
        _ => {
            ctx.label("external file type");
            let files: Vec<ExtM> =
                (0..=255u8).map(|c| ExtM { id: c.into(), kind: c, reserved: [0; 7], name: "f".into() }).collect();
            let d = plain(32, vec![Body::External([0; 8], files).into()]);
            let b = encode(&d);
            view::all_aux(&d, &raw_ok(&b)?)?;
        }
    }
    Ok(())
}

fn layer_codes(ls: &[LayerM]) -> R {
    let d = plain(32, ls.iter().map(|l| Body::Layer(l.clone()).into()).collect());
    let b = encode(&d);
    let v = must(view::resolve(&d));
    view::layers_and_cels(&v, &file_ok(&b)?)
}

/// The same codes inside random documents.
fn codes_in_docs(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    let mut o = Opts { odd_blend: true, tags: 120, aux: 150, props: 0, user: 20, ..Opts::default() };
    let ds: [u16; 4] = [32, 16, 8, s.u16b()];
    let depth = s.pick(&ds);
    o.depths = &[8];
    let mut d = any_doc(s, &o);
    d.head.depth = depth;
    for f in &mut d.frames {
        for c in &mut f.chunks {
            match &mut c.body {
                Body::Layer(l) if s.chance(128) => l.blend = s.u16b(),
                Body::Cel(cel) if s.chance(60) => {
                    cel.content = Content::Unknown { kind: s.u16b().max(4), data: s.bytes(20) };
                    // surplus bytes would be a part of such a content
                    c.tail.clear();
                }
                _ => {}
            }
        }
    }
    let bytes = encode(&d);
    show(ctx, &d, &bytes);
    ctx.nontrivial(&bytes);
    ctx.label_if(!matches!(depth, 8 | 16 | 32), "unknown depth");
    let r = raw_ok(&bytes)?;
    view::raw_all(&d, &r)
}

// ------------------------------------------------------------------ P23

struct Places<'b> {
    base: &'b [u8],
    /// (offset, length, what)
    found: Vec<(usize, usize, &'static str)>,
}

impl Places<'_> {
    fn put(&mut self, b: &[u8], what: &'static str) -> R {
        let off = (b.as_ptr() as usize).wrapping_sub(self.base.as_ptr() as usize);
        if b.is_empty() {
            // an empty slice has no place that matters
            self.found.push((usize::MAX, 0, what));
            return Ok(());
        }
        ensure!(
            off < self.base.len() && b.len() <= self.base.len() - off,
            "{what}: {} bytes that do not lie in the input",
            b.len()
        );
        self.found.push((off, b.len(), what));
        Ok(())
    }
    fn user(&mut self, u: &ab::chunks::user_data::UserDataChunk<'_>) -> R {
        if let Some(t) = u.text {
            self.put(t.as_bytes(), "user text")?;
        }
        if let Some(Ok((_, ms))) = &u.properties_maps {
            for m in ms {
                self.map(m)?;
            }
        }
        Ok(())
    }
    fn map(&mut self, m: &ab::chunks::user_data::PropertiesMap<'_>) -> R {
        for p in &m.properties {
            self.put(p.name.as_bytes(), "property name")?;
            self.value(&p.value)?;
        }
        Ok(())
    }
    fn value(&mut self, v: &ab::chunks::user_data::Value<'_>) -> R {
        use ab::chunks::user_data::Value as V;
        match v {
            V::String(s) => self.put(s.as_bytes(), "property string"),
            V::Vector(v) => self.vector(v),
            V::MixedVector(v) => v.iter().try_for_each(|v| self.value(v)),
            V::PropertiesMap(m) => self.map(m),
            _ => Ok(()),
        }
    }
    fn vector(&mut self, v: &ab::chunks::user_data::Vector<'_>) -> R {
        use ab::chunks::user_data::Vector as V;
        match v {
            V::Mixed(v) => v.iter().try_for_each(|v| self.value(v)),
            V::String(v) => v.iter().try_for_each(|s| self.put(s.as_bytes(), "property string")),
            V::Vector(v) => v.iter().try_for_each(|v| self.vector(v)),
            V::PropertiesMap(v) => v.iter().try_for_each(|m| self.map(m)),
            _ => Ok(()),
        }
    }
    fn cel(&mut self, c: &ab::chunks::cel::CelChunk<'_>) -> R {
        use ab::chunks::cel::CelContent as C;
        match &c.content {
            C::Image(i) => self.put(i.data, "image data"),
            C::CompressedTilemap { data, .. } => self.put(data, "tilemap data"),
            C::Unknown { data, .. } => self.put(data, "cel data"),
            C::LinkedCel { .. } => Ok(()),
        }
    }
    fn chunk(&mut self, c: &ab::chunk::Chunk<'_>) -> R {
        use ab::chunk::Chunk as C;
        match c {
            C::Layer(l) => self.put(l.name.as_bytes(), "layer name"),
            C::Cel(c) => self.cel(c),
            C::CelExtra(c) => self.put(c.future, "cel extra"),
            C::ColorProfile(p) => match p.profile {
                ab::chunks::color_profile::ColorProfile::EmbeddedICC(d) => self.put(d, "ICC profile"),
                _ => Ok(()),
            },
            C::ExternalFiles(f) => f.files.iter().try_for_each(|f| self.put(f.file_name.as_bytes(), "file name")),
            C::Mask(m) => {
                self.put(m.name.as_bytes(), "mask name")?;
                self.put(m.data, "mask data")
            }
            C::Tags(t) => t.tags.iter().try_for_each(|t| self.put(t.name.as_bytes(), "tag name")),
            C::Palette(p) => p.entries.iter().try_for_each(|e| match e.name {
                Some(n) => self.put(n.as_bytes(), "colour name"),
                None => Ok(()),
            }),
            C::UserData(u) => self.user(u),
            C::Slice(s) => self.put(s.name.as_bytes(), "slice name"),
            C::Tileset(t) => {
                self.put(t.name.as_bytes(), "tileset name")?;
                match &t.tiles {
                    Some(t) => self.put(t.data, "tiles"),
                    None => Ok(()),
                }
            }
            _ => Ok(()),
        }
    }
}

fn zero_copy(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    let o = Opts { aux: 150, user: 130, tags: 110, slices: 100, cel: 180, ..Opts::default() };
    let mut d = any_doc(s, &o);
    if s.chance(128) {
        // loadable
        for f in &mut d.frames {
            f.chunks.retain(
                |c| !matches!(&c.body, Body::Cel(c) if matches!(c.content, Content::Tilemap(_) | Content::Unknown { .. })),
            );
            f.recount(0);
        }
    }
    check_zero(ctx, &d)
}

fn check_zero(ctx: &mut Ctx, d: &Doc) -> R {
    let (bytes, spans) = encode_spans(d);
    show(ctx, d, &bytes);
    let want: Vec<&Span> = spans.iter().filter(|x| matches!(x.kind, Kind::Str | Kind::Payload)).collect();
    let full = want.iter().filter(|x| x.len > 0).count();
    if full >= 4 {
        ctx.nontrivial(&bytes);
    }
    ctx.label_if(want.iter().any(|x| x.len > 255), "longer than 255 bytes");
    ctx.label_if(
        want.len() < 500 && want.iter().enumerate().any(|(i, x)| {
            x.len > 0 && want[..i].iter().any(|y| y.len == x.len && bytes[y.off..y.off + y.len] == bytes[x.off..x.off + x.len])
        }),
        "equal content at two places",
    );
    // raw level: one slice per stored field, in the order of the file
    let r = raw_ok(&bytes)?;
    let mut p = Places { base: &bytes, found: vec![] };
    for f in &r.frames {
        for c in &f.chunks {
            p.chunk(c)?;
        }
    }
    eq!("number of slices", p.found.len(), want.len());
    for ((off, len, what), w) in p.found.iter().zip(&want) {
        eq!(format!("length of {what}"), *len, w.len);
        if *len > 0 {
            eq!(format!("offset of {what}"), *off, w.off);
        }
    }
    // file level: what belongs to a record lies where this record does
    let mut home: std::collections::HashMap<*const u8, &[(usize, usize, &'static str)]> = Default::default();
    let mut at = 0;
    for (df, f) in d.frames.iter().zip(&r.frames) {
        for (dc, c) in df.chunks.iter().zip(&f.chunks) {
            let mut q = Places { base: &bytes, found: vec![] };
            q.chunk(c)?;
            let n = q.found.len();
            let mine = &p.found[at..at + n];
            at += n;
            match &dc.body {
                Body::Layer(l) => drop(home.insert(std::ptr::from_ref(l).cast(), mine)),
                Body::Slice(l) => drop(home.insert(std::ptr::from_ref(l).cast(), mine)),
                Body::Cel(l) => drop(home.insert(std::ptr::from_ref(l).cast(), mine)),
                Body::User(l) => drop(home.insert(std::ptr::from_ref(l).cast(), mine)),
                Body::Tags(_, ts) => {
                    eq!("number of tag names", n, ts.len());
                    for (i, t) in ts.iter().enumerate() {
                        home.insert(std::ptr::from_ref(t).cast(), &mine[i..=i]);
                    }
                }
                _ => {}
            }
        }
    }
    eq!("number of slices of known records", at, p.found.len());
    let f = file_ok(&bytes)?;
    let v = must(view::resolve(d));
    eq!("number of layers", f.layers.len(), v.layers.len());
    eq!("number of tags", f.tags.len(), v.tags.len());
    eq!("number of slices", f.slices.len(), v.slices.len());
    eq!("number of frames", f.frames.len(), v.frames.len());
    let same = |name: String, of: *const u8, put: &dyn Fn(&mut Places<'_>) -> R| -> R {
        let mut q = Places { base: &bytes, found: vec![] };
        put(&mut q).map_err(|e| format!("{name}: {e}"))?;
        let Some(want) = home.get(&of) else {
            return Err(format!("{name}: not a record of this file (harness)"));
        };
        eq!(format!("{name}: offset, length and kind of what it refers to"), q.found, want.to_vec());
        Ok(())
    };
    for (i, (g, w)) in f.layers.iter().zip(&v.layers).enumerate() {
        same(format!("layer {i}"), std::ptr::from_ref(w.0).cast(), &|q| q.put(g.name.as_bytes(), "layer name"))?;
    }
    for (i, (g, w)) in f.tags.iter().zip(&v.tags).enumerate() {
        same(format!("tag {i}"), std::ptr::from_ref(w.0).cast(), &|q| q.put(g.name.as_bytes(), "tag name"))?;
    }
    for (i, (g, w)) in f.slices.iter().zip(&v.slices).enumerate() {
        same(format!("slice {i}"), std::ptr::from_ref(w.0).cast(), &|q| q.put(g.name.as_bytes(), "slice name"))?;
    }
    for (i, (g, w)) in f.frames.iter().zip(&v.frames).enumerate() {
        for (j, (g, w)) in g.cels.iter().zip(&w.1).enumerate() {
            if let (Some(g), Some(w)) = (g, w) {
                same(format!("frame {i} cel {j}"), std::ptr::from_ref(w.0).cast(), &|q| q.cel(g))?;
            }
        }
    }
    for (name, w, g) in view::attachments(&v, &f) {
        if let (Some(w), Some(g)) = (w, g) {
            same(format!("user data of {name}"), std::ptr::from_ref(w).cast(), &|q| q.user(g))?;
        }
    }
    if let Ok(g) = load(&bytes)? {
        ctx.label("loaded");
        let of = |c: &CelM| home.get(&std::ptr::from_ref(c).cast()).and_then(|h| h.first()).copied();
        // the images in use, by the cels that show them
        if let Ok(lv) = view::load_view(d, &v) {
            for (i, (gf, (_, cels))) in g.frames().iter().zip(&lv.frames).enumerate() {
                for c in cels {
                    let Some(gc) = gf.cels.iter().find(|g| g.layer_index == c.layer) else {
                        return Err(format!("frame {i} layer {}: cel missing", c.layer));
                    };
                    let mut q = Places { base: &bytes, found: vec![] };
                    q.put(g.images[gc.image_index].data, "image data")?;
                    eq!(format!("frame {i} layer {}: place of the image shown", c.layer), q.found.first().copied(), of(c.image));
                }
            }
        }
        // and all of them
        let places: std::collections::HashSet<(usize, usize)> =
            want.iter().filter(|w| w.kind == Kind::Payload).map(|w| (w.off, w.len)).collect();
        let mut q = Places { base: &bytes, found: vec![] };
        for i in &g.images {
            q.put(i.data, "image data of the loader")?;
        }
        for (off, len, what) in q.found {
            ensure!(
                len == 0 || places.contains(&(off, len)),
                "{what}: {len} bytes at {off}, where no such field is stored"
            );
        }
        for (i, (g, w)) in g.slices().iter().zip(&v.slices).enumerate() {
            same(format!("slice {i} of the loader"), std::ptr::from_ref(w.0).cast(), &|q| {
                q.put(g.name.as_bytes(), "slice name")
            })?;
        }
        for (i, (g, w)) in g.file.layers.iter().zip(&v.layers).enumerate() {
            same(format!("layer {i} of the loader"), std::ptr::from_ref(w.0).cast(), &|q| {
                q.put(g.name.as_bytes(), "layer name")
            })?;
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ vast

use vast::Dim as V;

fn v_structure(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    let d = vast::doc(s, ctx, &[V::Payload, V::Payload, V::Frames, V::Chunks, V::Unknown, V::Aux, V::Tags], false);
    check_structure(ctx, &d)
}

fn v_layers(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    let d = vast::doc(s, ctx, &[V::Layers, V::Layers, V::Frames, V::Users, V::Payload], false);
    check_layers_cels(ctx, &d)
}

fn v_tags(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    let d = vast::doc(s, ctx, &[V::Tags, V::Slices, V::Keys, V::Frames], false);
    check_tags_slices(ctx, &d)
}

fn v_palettes(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    let mut d = vast::doc(s, ctx, &[V::Palettes, V::Palettes, V::Frames, V::Chunks], false);
    if s.bool() {
        // the last one counts, or the first
        let p = Body::Palette(gen::palette(s, &Opts { long: false, ..Opts::default() }));
        let n = d.frames.len();
        let f = &mut d.frames[if s.bool() { n - 1 } else { 0 }];
        f.chunks.push(p.into());
        f.recount(0);
    }
    d.head.depth = s.pick(&[8u16, 8, 32]);
    check_palette(ctx, &d)
}

fn v_attach(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    let d = vast::doc(s, ctx, &[V::Users, V::Users, V::Frames, V::Unknown], false);
    check_attach(ctx, &d)
}

fn v_props(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    let mut b = s.bulk();
    let maps = if s.bool() {
        ctx.label("vast: property maps");
        let n = vast::count(s, 140_000);
        vast::maps(s, &mut b, n)
    } else {
        ctx.label("vast: properties");
        let n = vast::count(s, 300_000);
        vec![PMap { key: 2, props: vast::values(s, &mut b, n) }, PMap { key: 9, props: vec![("z".into(), PVal::U8(1))] }]
    };
    check_props(ctx, UserM { flags: 4, text: String::new(), color: [0; 4], props: Props::Maps(maps) })
}

fn v_aux(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    let d = vast::doc(s, ctx, &[V::Aux, V::Payload, V::Payload, V::Palettes], false);
    check_aux(ctx, &d)
}

fn v_zero(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    let loads = s.bool();
    let d = vast::doc(s, ctx, &[V::Payload, V::Payload, V::Payload, V::Layers, V::Frames, V::Tags, V::Users, V::Maps, V::Aux], loads);
    check_zero(ctx, &d)
}

large!(l_structure, structure);
large!(l_layers, layers_cels);
large!(l_tags, tags_slices);
large!(l_palettes, palettes);
large!(l_attach, attach);
large!(l_props, properties);
large!(l_everywhere, props_everywhere);
large!(l_aux, auxiliary);
large!(l_codes, codes_in_docs);
large!(l_zero, zero_copy);

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P03",
            rule: "at least two frames and four chunks, distinct encoded bytes; or one of the very large files",
            assumptions: &["the number of frames is that of the frames in the file, not of the header field"],
            families: vec![fam("structure", structure, (300_000, 7_200_000), 1200), fam("many", many, (600, 14_400), 16), fam("large", l_structure, (8_000, 200_000), 400), fam("vast", v_structure, (96, 1_600), 64)],
        },
        Prop {
            id: "P04",
            rule: "at least two layers and two cels, distinct encoded bytes",
            assumptions: &["at most one cel per layer and frame"],
            families: vec![
                fam("layers and cels", layers_cels, (350_000, 8_400_000), 1600),
                fam("many layers", many_layers, (4_000, 96_000), 32),
                fam("large", l_layers, (8_000, 200_000), 400),
                fam("vast", v_layers, (64, 1_600), 64),
            ],
        },
        Prop {
            id: "P05",
            rule: "at least two tags or slice keys, distinct encoded bytes",
            assumptions: &[],
            families: vec![
                fam("tags and slices", tags_slices, (400_000, 9_600_000), 1200),
                fam("many", many_tags, (1_500, 36_000), 300),
                fam("large", l_tags, (8_000, 200_000), 400),
                fam("vast", v_tags, (96, 1_600), 64),
            ],
        },
        Prop {
            id: "P06",
            rule: "an indexed sprite with at least two palette chunks, distinct encoded bytes",
            assumptions: &["colours of 0x0011 chunks are in 0..63, as the format says"],
            families: vec![fam("palettes", palettes, (450_000, 10_800_000), 600), fam("large", l_palettes, (8_000, 200_000), 400), fam("vast", v_palettes, (64, 1_600), 120)],
        },
        Prop {
            id: "P07",
            rule: "user data attached to at least two kinds of objects, distinct encoded bytes",
            assumptions: &[],
            families: vec![
                fam("documents", attach, (250_000, 6_000_000), 1200),
                fam("sequences", sequences, (750_000, 18_000_000), 200),
                fam("large", l_attach, (8_000, 200_000), 400),
                fam("vast", v_attach, (64, 1_600), 64),
            ],
        },
        Prop {
            id: "P08",
            rule: "at least two properties or a nested one (well-formed), resp. a block that does not decode; distinct bytes",
            assumptions: &["nestings deeper than 60 are not judged"],
            families: vec![
                fam("properties", properties, (400_000, 9_600_000), 900),
                fam("each type", each_type, (350_000, 8_400_000), 300),
                fam("malformed", malformed, (500_000, 12_000_000), 500),
                fam("everywhere", props_everywhere, (100_000, 2_400_000), 1600),
                fam("big", big_props, (1_000, 24_000), 16),
                fam("large", l_props, (20_000, 500_000), 400),
                fam("vast", v_props, (200, 4_000), 64),
                fam("large everywhere", l_everywhere, (8_000, 200_000), 400),
            ],
        },
        Prop {
            id: "P09",
            rule: "at least two auxiliary chunks, distinct encoded bytes",
            assumptions: &[],
            families: vec![
                fam("auxiliary", auxiliary, (400_000, 9_600_000), 1600),
                fam("big", big_aux, (1_500, 36_000), 80),
                fam("large", l_aux, (8_000, 200_000), 400),
                fam("vast", v_aux, (96, 1_600), 64),
            ],
        },
        Prop {
            id: "P10",
            rule: "each case of the enumeration covers 256 different codes of one field; random documents by their bytes",
            assumptions: &[],
            families: vec![
                exhaustive("codes", codes, 6 * 256 + 512),
                fam("in documents", codes_in_docs, (200_000, 4_800_000), 1200),
                fam("large", l_codes, (8_000, 200_000), 400),
            ],
        },
        Prop {
            id: "P23",
            rule: "at least four non-empty strings or payloads, distinct encoded bytes",
            assumptions: &["the place of an empty slice does not matter"],
            families: vec![fam("zero copy", zero_copy, (250_000, 6_000_000), 1600), fam("large", l_zero, (8_000, 200_000), 400), fam("vast", v_zero, (96, 1_600), 64)],
        },
    ]
}
