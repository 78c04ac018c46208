//! P27: errors say what is wrong.

use super::load::{fault, undecoded, FAULTS};
use super::*;
use crate::encode::{encode, encode_spans, Kind, Span};
use crate::gen::{self, Opts};
use crate::render;
use crate::runner::{all as exhaustive, fam, Ctx, Prop, R};
use crate::src::Src;
use crate::view;
use crate::{ensure, eq};
use ab::palette::PaletteError as P;
use al::{LoadImageError as I, LoadSpriteError, LayerSelection};
use std::str::Utf8Error;

/// The error that a faulty input has to be refused with.
enum Want {
    FrameSize(u32),
    ChunkSize(u32),
    Text(Utf8Error),
    Tag(u16, u16),
    Layer,
    Property(u16),
    /// any of these
    Palette(Vec<fn(&P) -> bool>),
}

impl Want {
    fn fits(&self, e: &ParseError<'_>) -> bool {
        match (self, e) {
            (Want::FrameSize(n), ParseError::InvalidFrameSize(m)) => n == m,
            (Want::ChunkSize(n), ParseError::InvalidChunkSize(m)) => n == m,
            (Want::Text(a), ParseError::Utf8Error(b)) => a == b,
            (Want::Tag(a, b), ParseError::InvalidFrameRange(c, d)) => (a, b) == (c, d),
            (Want::Layer, ParseError::LayerIndexOutOfBounds) => true,
            (Want::Property(a), ParseError::InvalidPropertyType(b)) => a == b,
            (Want::Palette(any), ParseError::PaletteError(e)) => any.iter().any(|f| f(e)),
            _ => false,
        }
    }
    fn name(&self) -> String {
        match self {
            Want::FrameSize(n) => format!("InvalidFrameSize({n})"),
            Want::ChunkSize(n) => format!("InvalidChunkSize({n})"),
            Want::Text(e) => format!("Utf8Error({e:?})"),
            Want::Tag(a, b) => format!("InvalidFrameRange({a}, {b})"),
            Want::Layer => "LayerIndexOutOfBounds".into(),
            Want::Property(n) => format!("InvalidPropertyType({n})"),
            Want::Palette(any) => {
                let all = [
                    P::Missing,
                    P::Empty,
                    P::FirstColorIndexOutOfBounds,
                    P::LastColorIndexOutOfBounds,
                    P::FirstColorIndexGreaterThanLastColorIndex,
                    P::IndexOutOfBounds,
                ];
                let names: Vec<_> =
                    all.iter().filter(|e| any.iter().any(|f| f(e))).map(|e| format!("PaletteError({e:?})")).collect();
                names.join(" or ")
            }
        }
    }
}

fn judge<T>(what: &str, want: &Want, r: Result<T, nom::Err<ParseError<'_>>>) -> R {
    match r {
        Ok(_) => Err(format!("{what} accepts a file instead of saying {}", want.name())),
        Err(nom::Err::Error(e) | nom::Err::Failure(e)) if want.fits(&e) => Ok(()),
        Err(e) => Err(format!("{what} says {} instead of {}", why(e), want.name())),
    }
}

/// Refused for this reason, at all levels from the given one on.
fn refused(b: &[u8], raw_too: bool, want: &Want) -> R {
    if raw_too {
        judge("parse_raw_file", want, guard("parse_raw_file", || ab::raw_file::parse_raw_file(b))?)?;
    }
    judge("parse_file", want, guard("parse_file", || ab::file::parse_file(b))?)?;
    not_loaded(b)
}

fn not_loaded(b: &[u8]) -> R {
    match guard("load", || al::AsepriteFile::load(b))? {
        Ok(_) => Err("the loader loads a file that does not parse".into()),
        Err(LoadSpriteError::Parse { message }) => {
            ensure!(!message.is_empty(), "the loader gives no reason");
            Ok(())
        }
        Err(e) => Err(format!("the loader says {e:?} about a file that does not parse")),
    }
}

fn anything() -> Opts {
    Opts { max_layers: 4, max_frames: 5, tags: 110, slices: 110, aux: 150, user: 130, props: 90, ..Opts::default() }
}

fn seen(ctx: &mut Ctx, d: &Doc, b: &[u8], at: &Span) {
    ctx.input(b);
    ctx.nontrivial(&b);
    ctx.label_if(at.frame > 0, "fault behind the first frame");
    ctx.label_if(at.frame + 1 < d.frames.len(), "fault before the last frame");
}

/// One of these places, half of the time in a frame chosen first.
fn place(s: &mut Src<'_>, spans: &[Span], places: &[usize]) -> usize {
    if s.bool() {
        return places[s.below(places.len())];
    }
    let mut frames: Vec<usize> = places.iter().map(|i| spans[*i].frame).collect();
    frames.dedup();
    let f = frames[s.below(frames.len())];
    let there: Vec<usize> = places.iter().copied().filter(|i| spans[*i].frame == f).collect();
    there[s.below(there.len())]
}

// -------------------------------------------------------------------- strings

/// Make some text invalid, without changing its length.
pub(super) fn invalid(s: &mut Src<'_>, text: &mut [u8]) -> Option<Utf8Error> {
    const BAD: [&[u8]; 12] = [
        &[0xff],
        &[0x80],
        &[0xc0, 0xaf],
        &[0xed, 0xa0, 0x80],
        &[0xf5, 0x80, 0x80, 0x80],
        &[0xe2, 0x82],
        &[0xf0, 0x9f, 0x98],
        &[0xc3],
        &[0xf4, 0x90, 0x80, 0x80],
        &[0xe0, 0x80, 0x80],
        &[0xbf, 0x41],
        &[0xfe],
    ];
    let bad = s.pick(&BAD);
    let bad = &bad[..bad.len().min(text.len())];
    let room = text.len() - bad.len();
    let at = match s.weighted(&[2, 1, 1]) {
        0 => s.below(room + 1),
        1 => room,
        _ => 0,
    };
    text[at..at + bad.len()].copy_from_slice(bad);
    std::str::from_utf8(text).err()
}

/// Is this text part of a property (and not the text of the user data)?
fn in_properties(d: &Doc, spans: &[Span], i: usize) -> bool {
    let at = spans[i];
    let Body::User(u) = &d.frames[at.frame].chunks[at.chunk].body else { return false };
    let first = spans.iter().position(|x| x.kind == Kind::Str && (x.frame, x.chunk) == (at.frame, at.chunk));
    u.flags & 1 == 0 || first != Some(i)
}

fn strings(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    let d = gen::doc(s, &anything());
    let (mut b, spans) = encode_spans(&d);
    let places: Vec<usize> = (0..spans.len()).filter(|i| spans[*i].kind == Kind::Str && spans[*i].len > 0).collect();
    if places.is_empty() {
        ctx.label("no text in the file");
        return Ok(());
    }
    file_ok(&b)?;
    let i = place(s, &spans, &places);
    let at = spans[i];
    let Some(e) = invalid(s, &mut b[at.off..at.off + at.len]) else {
        ctx.label("still valid");
        return Ok(());
    };
    ctx.describe(|| format!("text {:?} of {}", &b[at.off..at.off + at.len.min(40)], d.describe()));
    seen(ctx, &d, &b, &at);
    if in_properties(&d, &spans, i) {
        ctx.label("text of a property");
        confined(&b, &at, &Want::Text(e))
    } else {
        ctx.label(match &d.frames[at.frame].chunks[at.chunk].body {
            Body::Layer(_) => "layer name",
            Body::Tags(..) => "tag name",
            Body::Slice(_) => "slice name",
            Body::User(_) => "text of user data",
            Body::Palette(_) => "colour name",
            Body::External(..) => "name of an external file",
            Body::Mask(_) => "mask name",
            Body::Tileset(_) => "tileset name",
            _ => "other text",
        });
        refused(&b, true, &Want::Text(e))
    }
}

/// Errors in properties are reported at this user data and nowhere else.
fn confined(b: &[u8], at: &Span, want: &Want) -> R {
    let raw = raw_ok(b)?;
    file_ok(b)?;
    for (fi, f) in raw.frames.iter().enumerate() {
        for (ci, c) in f.chunks.iter().enumerate() {
            let ab::chunk::Chunk::UserData(u) = c else { continue };
            let here = (fi, ci) == (at.frame, at.chunk);
            match &u.properties_maps {
                Some(Err(nom::Err::Error(e) | nom::Err::Failure(e))) if here => {
                    ensure!(
                        want.fits(e),
                        "properties in frame {fi} chunk {ci}: {} instead of {}",
                        format!("{e:?}").chars().take(120).collect::<String>(),
                        want.name()
                    )
                }
                Some(Err(_)) => return Err(format!("properties in frame {fi} chunk {ci}: an error for no reason")),
                _ => ensure!(!here, "properties in frame {fi} chunk {ci}: no error instead of {}", want.name()),
            }
        }
    }
    Ok(())
}

fn properties(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    let o = Opts { user: 200, props: 220, max_layers: 3, max_frames: 3, aux: 20, ..anything() };
    let d = gen::doc(s, &o);
    let (mut b, spans) = encode_spans(&d);
    let places: Vec<usize> = (0..spans.len()).filter(|i| spans[*i].kind == Kind::PropType).collect();
    if places.is_empty() {
        ctx.label("no property in the file");
        return Ok(());
    }
    let at = spans[place(s, &spans, &places)];
    let code = match s.below(4) {
        0 => 20 + s.below(12) as u16,
        1 => s.u16b(),
        2 => u16::from_le_bytes([b[at.off], b[at.off + 1]]) | (256 << s.below(8)),
        _ => s.u16(),
    };
    // 0: values of different types
    if code < 20 {
        ctx.label("still valid");
        return Ok(());
    }
    b[at.off..at.off + 2].copy_from_slice(&code.to_le_bytes());
    ctx.describe(|| format!("property type {code} at {} of {}", at.off, d.describe()));
    seen(ctx, &d, &b, &at);
    confined(&b, &at, &Want::Property(code))
}

// ---------------------------------------------------------------------- sizes

fn sizes(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    let d = gen::doc(s, &anything());
    let (mut b, spans) = encode_spans(&d);
    let kind = if s.chance(100) { Kind::FrameSize } else { Kind::ChunkSize };
    let places: Vec<usize> = (0..spans.len()).filter(|i| spans[*i].kind == kind).collect();
    if places.is_empty() {
        ctx.label("no chunk in the file");
        return Ok(());
    }
    file_ok(&b)?;
    let at = spans[place(s, &spans, &places)];
    let n = s.below(4) as u32;
    b[at.off..at.off + 4].copy_from_slice(&n.to_le_bytes());
    let frame = kind == Kind::FrameSize;
    let want = if frame { Want::FrameSize(n) } else { Want::ChunkSize(n) };
    ctx.label(if frame { "frame size" } else { "chunk size" });
    ctx.describe(|| format!("{} at {} of {}", want.name(), at.off, d.describe()));
    seen(ctx, &d, &b, &at);
    refused(&b, true, &want)
}

// ----------------------------------------------------------------- references

const FIRST: fn(&P) -> bool = |e| matches!(e, P::FirstColorIndexOutOfBounds);
const LAST: fn(&P) -> bool = |e| matches!(e, P::LastColorIndexOutOfBounds);
const ORDER: fn(&P) -> bool = |e| matches!(e, P::FirstColorIndexGreaterThanLastColorIndex);
const MISSING: fn(&P) -> bool = |e| matches!(e, P::Missing);
const EMPTY: fn(&P) -> bool = |e| matches!(e, P::Empty);
const OVER: fn(&P) -> bool = |e| matches!(e, P::IndexOutOfBounds);

fn range_errors(first: u32, last: u32) -> Vec<fn(&P) -> bool> {
    let mut v = vec![];
    if first > 255 {
        v.push(FIRST);
    }
    if last > 255 {
        v.push(LAST);
    }
    if first > last {
        v.push(ORDER);
    }
    v
}

fn references(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    // without the links, which only the loader looks at
    let which = s.pick(&[0usize, 1, 2, 3, 4, 5, 9, 10, 11, 12, 13]);
    let o = Opts {
        max_layers: 4,
        max_frames: 5,
        long: false,
        depths: if which >= 11 { &[8] } else { &[32, 16, 8] },
        ..undecoded()
    };
    let good = gen::doc(s, &o);
    let mut bad = good.clone();
    if !fault(s, &mut bad, which) {
        ctx.label("fault does not fit the file");
        return Ok(());
    }
    let b = encode(&bad);
    ctx.label(FAULTS[which]);
    ctx.describe(|| format!("{}: {}", FAULTS[which], bad.describe()));
    ctx.input(&b);
    load_ok(&encode(&good))?;
    ctx.nontrivial(&b);
    let bodies = || bad.chunks().map(|c| &c.body);
    match which {
        0 => {
            let want = bodies().find_map(|c| match c {
                Body::Tags(_, ts) => ts.iter().find(|t| t.from > t.to).map(|t| Want::Tag(t.from, t.to)),
                _ => None,
            });
            refused(&b, true, &want.expect("a tag"))
        }
        1..=3 => {
            raw_ok(&b)?;
            refused(&b, false, &Want::Layer)
        }
        4 | 5 => {
            file_ok(&b)?;
            not_loaded(&b)
        }
        9 | 10 => {
            let want = bodies().find_map(|c| match c {
                Body::Palette(p) => Some(range_errors(p.first, p.last)).filter(|v| !v.is_empty()),
                _ => None,
            });
            refused(&b, true, &Want::Palette(want.expect("a palette")))
        }
        _ => {
            raw_ok(&b)?;
            refused(&b, false, &Want::Palette(vec![[MISSING, EMPTY, OVER][which - 11]]))
        }
    }
}

/// All small sizes and some ranges, in the first frame and behind it.
fn boundaries(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    let i = s.u32() as usize;
    let (frame, i) = (i % 3, i / 3);
    ctx.nontrivial(&(frame, i));
    const V: [u32; 7] = [0, 1, 254, 255, 256, 257, 65535];
    let layer = || Body::Layer(super::parse::simple_layer("l"));
    let mut d = Doc {
        head: Head::default(),
        frames: (0..3).map(|i| FrameM::new(1, if i == 0 { vec![layer().into()] } else { vec![] })).collect(),
    };
    let patched = |d: &Doc, kind: Kind, n: u32| {
        let (mut b, spans) = encode_spans(d);
        let at = spans.iter().rfind(|x| x.kind == kind && x.frame == frame).expect("a size");
        b[at.off..at.off + 4].copy_from_slice(&n.to_le_bytes());
        b
    };
    let (want, b) = match i {
        0..=3 => (Want::FrameSize(i as u32), patched(&d, Kind::FrameSize, i as u32)),
        4..=7 => {
            d.frames[frame].chunks.push(Body::Path(vec![1]).into());
            d.frames[frame].recount(0);
            (Want::ChunkSize(i as u32 - 4), patched(&d, Kind::ChunkSize, i as u32 - 4))
        }
        _ => {
            let i = i - 8;
            let (tag, a, z) = (i / 49 == 0, V[i / 7 % 7], V[i % 7]);
            let body = if tag {
                let t = TagM {
                    from: a as u16,
                    to: z as u16,
                    dir: 0,
                    repeat: 0,
                    reserved: [0; 6],
                    color: [0; 3],
                    extra: 0,
                    name: "t".into(),
                };
                Body::Tags([0; 8], vec![t])
            } else {
                let e = EntryM { flags: 0, color: [1, 2, 3, 4], name: String::new() };
                let n = if a <= z { (z - a + 1).min(300) } else { 300 };
                Body::Palette(PaletteM { size: 256, first: a, last: z, reserved: [0; 8], entries: vec![e; n as usize] })
            };
            d.frames[frame].chunks.push(body.into());
            d.frames[frame].recount(0);
            let b = encode(&d);
            ctx.input(&b);
            let errors = range_errors(a, z);
            if tag && a > z {
                (Want::Tag(a as u16, z as u16), b)
            } else if !tag && !errors.is_empty() {
                (Want::Palette(errors), b)
            } else {
                ctx.describe(|| format!("{a}..={z} in frame {frame}"));
                load_ok(&b)?;
                return Ok(());
            }
        }
    };
    ctx.describe(|| format!("{} in frame {frame}", want.name()));
    ctx.input(&b);
    refused(&b, true, &want)
}

// --------------------------------------------------------------------- images

type Img = Result<(), I>;

fn name(r: &Img) -> String {
    match r {
        Ok(()) => "success".into(),
        Err(e) => format!("{e:?}"),
    }
}

fn load_image(f: &al::AsepriteFile<'_>, i: usize, n: usize) -> Result<Img, String> {
    guard("load_image", || f.load_image(i, &mut vec![0x5a; n]))
}

#[allow(deprecated)]
fn render(f: &al::AsepriteFile<'_>, i: usize, n: usize, sel: &LayerSelection) -> Result<Vec<(&'static str, Img)>, String> {
    let mut v = vec![(
        "render_frame",
        guard("render_frame", || f.render_frame(i, &mut vec![0; n], sel))?,
    )];
    if *sel == LayerSelection::Visible {
        v.push((
            "combined_frame_image",
            guard("combined_frame_image", || f.combined_frame_image(i, &mut vec![0; n]).map(|_| ()))?,
        ));
    }
    Ok(v)
}

/// A picture, and one thing that cannot be drawn.
fn images(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    let mut d = gen::picture(s, &gen::Pic::default());
    d.head.flags |= 1;
    let depth = d.head.depth;
    let area = usize::from(d.head.width) * usize::from(d.head.height);
    let which = s.below(6);
    // the cels with an image
    let places: Vec<(usize, usize)> = d
        .frames
        .iter()
        .enumerate()
        .flat_map(|(f, x)| {
            x.chunks.iter().enumerate().filter_map(move |(i, c)| match &c.body {
                Body::Cel(c) if render::area(&c.content) > 0 => Some((f, i)),
                _ => None,
            })
        })
        .collect();
    if places.is_empty() {
        ctx.label("no image");
        return Ok(());
    }
    let place = places[s.below(places.len())];
    let Body::Cel(c) = &mut d.frames[place.0].chunks[place.1].body else { unreachable!() };
    let n = render::area(&c.content) * usize::from(depth / 8);
    let layer = usize::from(c.layer);
    // what may be said about the image
    let mut said: Vec<fn(&I) -> bool> = vec![];
    match which {
        0 => {
            ctx.label("raw data of another length");
            let (Content::Raw { w, h, data } | Content::Zip { w, h, data }) = &c.content else { unreachable!() };
            let mut data = data.clone();
            let m = match s.below(3) {
                0 => n + 1 + s.below(9),
                1 => n - 1 - s.below(n),
                _ => n * 2,
            };
            data.resize(m, 3);
            c.content = Content::Raw { w: *w, h: *h, data };
            said.push(|e| matches!(e, I::InvalidImageData));
        }
        1 | 2 => {
            let (w, h) = match &c.content {
                Content::Raw { w, h, .. } | Content::Zip { w, h, .. } => (*w, *h),
                _ => unreachable!(),
            };
            let m = if which == 1 {
                match s.below(3) {
                    0 => n + 1 + s.below(9),
                    1 => n - 1 - s.below(n),
                    _ => n * 2,
                }
            } else {
                n
            };
            let px = gen::pixels(s, m, depth);
            let (mut data, _) = gen::zip(s, &px);
            if which == 1 {
                ctx.label("compressed data of another length");
                said.push(|e| matches!(e, I::InvalidImageData));
            } else {
                ctx.label("compressed data damaged");
                match s.below(3) {
                    0 => {
                        let k = 1 + s.below(data.len());
                        data.truncate(data.len() - k);
                    }
                    1 => {
                        let k = data.len() - 1 - s.below(4);
                        data[k] ^= 1 << s.below(8);
                    }
                    _ => data[0] ^= 0x0f,
                }
                if !matches!(super::image::verdict(&data, n), Some(Err(_))) {
                    ctx.label("not damaged enough");
                    return Ok(());
                }
            }
            said.push(|e| matches!(e, I::DecompressError));
            c.content = Content::Zip { w, h, data };
        }
        3 => {
            ctx.label("colour depth");
            d.head.depth = match s.below(3) {
                0 => s.pick(&[0u16, 1, 4, 7, 9, 15, 24, 31, 33, 48, 64, 128]),
                1 => depth | (256 << s.below(8)),
                _ => s.u16(),
            };
            if matches!(d.head.depth, 8 | 16 | 32) {
                ctx.label("still valid");
                return Ok(());
            }
            said.push(|e| matches!(e, I::UnsupportedColorDepth));
        }
        4 => {
            ctx.label("blend mode");
            let code = match s.below(3) {
                0 => 19 + s.below(3) as u16,
                1 => s.u16b().max(19),
                _ => (s.below(19) as u16) | (256 << s.below(8)),
            };
            let l = d.frames[0]
                .chunks
                .iter_mut()
                .filter_map(|c| if let Body::Layer(l) = &mut c.body { Some(l) } else { None })
                .nth(layer);
            l.expect("a layer").blend = code;
        }
        _ => ctx.label("buffer"),
    }
    let b = encode(&d);
    show(ctx, &d, &b);
    ctx.nontrivial(&b);
    let v = must(view::resolve(&d));
    let lv = must(view::load_view(&d, &v));
    let mut f = load_ok(&b)?;
    // the images, in the order in which the loader reports them
    let mut index = 0;
    for (fi, (_, row)) in v.frames.iter().enumerate() {
        for c in row.iter().flatten() {
            let (Content::Raw { .. } | Content::Zip { .. }) = c.0.content else { continue };
            let room = render::area(&c.0.content) * 4;
            let faulty = (fi, usize::from(c.0.layer)) == (place.0, layer);
            let i = index;
            index += 1;
            if room == 0 {
                continue;
            }
            let r = load_image(&f, i, room + s.below(2))?;
            match &r {
                Err(e) if which == 3 || faulty && which < 3 => {
                    ensure!(said.iter().any(|ok| ok(e)), "image {i}: {e:?}")
                }
                Ok(()) if which == 3 || faulty && which < 3 => return Err(format!("image {i}: no error")),
                Err(e) => return Err(format!("image {i} cannot be loaded: {e:?}")),
                Ok(()) => {}
            }
            if which >= 4 {
                let r = load_image(&f, i, s.below(room))?;
                ensure!(matches!(r, Err(I::TargetBufferTooSmall)), "image {i}, buffer too small: {}", name(&r));
            }
        }
    }
    eq!("image_count", f.image_count(), index);
    // the frames
    for (fi, (_, cels)) in lv.frames.iter().enumerate() {
        if which == 5 {
            for (what, r) in render(&f, fi, s.below(area * 4), &LayerSelection::Visible)? {
                ensure!(matches!(r, Err(I::TargetBufferTooSmall)), "{what} {fi}, buffer too small: {}", name(&r));
            }
        }
        for sel in [LayerSelection::Visible, LayerSelection::All] {
            let drawn = |l: usize| lv.layers[l].m.kind == 0 && (sel == LayerSelection::All || lv.layers[l].visible);
            // does the fault concern this frame?
            let mut must_fail = false;
            let mut may_fail = false;
            for c in cels.iter().filter(|c| drawn(c.layer)) {
                let touched = match which {
                    0..=2 => (c.image_frame, c.file_layer) == (place.0, layer),
                    3 => true,
                    4 => c.file_layer == layer,
                    _ => false,
                };
                if touched {
                    // what lies beside the canvas need not be drawn
                    let (x, y) = (i64::from(c.m.x), i64::from(c.m.y));
                    let (w, h) = (i64::from(c.size.0), i64::from(c.size.1));
                    let on = x < d.head.width.into() && y < d.head.height.into() && x + w > 0 && y + h > 0;
                    if on && w > 0 && h > 0 {
                        must_fail = true;
                    } else {
                        may_fail = true;
                    }
                }
            }
            for (what, r) in render(&f, fi, area * 4, &sel)? {
                match &r {
                    Ok(()) => ensure!(!must_fail, "{what} {fi} ({sel:?}): no error"),
                    Err(e) if must_fail || may_fail => {
                        let ok = match which {
                            4 => matches!(e, I::UnsupportedBlendMode),
                            _ => said.iter().any(|ok| ok(e)),
                        };
                        ensure!(ok, "{what} {fi} ({sel:?}): {e:?}");
                    }
                    Err(e) => return Err(format!("{what} {fi} ({sel:?}) fails: {e:?}")),
                }
                ctx.label_if(must_fail, "frame that cannot be drawn");
            }
        }
    }
    // without its palette
    if which == 5 && depth == 8 {
        f.file.palette = None;
        for (i, im) in f.images.iter().enumerate() {
            let room = usize::from(im.width) * usize::from(im.height) * 4;
            if room > 0 {
                let r = load_image(&f, i, room)?;
                ensure!(matches!(r, Err(I::MissingPalette)), "image {i} without a palette: {}", name(&r));
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------- table

large!(l_strings, strings);
large!(l_sizes, sizes);
large!(l_references, references);

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "P27",
        rule: "an input that is accepted, with exactly one fault put in; distinct bytes",
        assumptions: &[
            "where one fault is several at once (first and last colour beyond 255, inverted), any of them may be named",
            "a well-formed stream of the wrong length may be called invalid data or a failed decompression",
            "images of cels that lie beside the canvas may be looked at or not",
        ],
        families: vec![
            exhaustive("boundaries", boundaries, 3 * (8 + 98)),
            fam("strings", strings, (300_000, 8_000_000), 900),
            fam("properties", properties, (200_000, 6_000_000), 900),
            fam("sizes", sizes, (200_000, 6_000_000), 900),
            fam("references", references, (300_000, 8_000_000), 900),
            fam("images", images, (150_000, 4_000_000), 500),
            fam("large strings", l_strings, (3_000, 80_000), 400),
            fam("large sizes", l_sizes, (3_000, 80_000), 400),
            fam("large references", l_references, (3_000, 80_000), 400),
        ],
    }]
}
