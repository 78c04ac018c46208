//! P24: the parsers of parts of a file, each on its own.

use super::*;
use crate::encode::{body_bytes, chunk_bytes, encode, encode_maps, frame_bytes, string_bytes, value_bytes};
use crate::gen::{self, Opts};
use crate::mutate::mutate;
use crate::runner::{fam, Prop, R};
use crate::src::Src;
use crate::view;
use crate::{ensure, eq};
use ab::chunk::Chunk;
use ab::chunks as ac;
use ab::scalars as sc;

/// `$bytes` are a well-formed part: alone, followed by other bytes and cut.
macro_rules! part {
    ($s:expr, $ctx:expr, $name:expr, $bytes:expr, |$i:ident| $parse:expr, |$g:ident| $check:expr) => {{
        let bytes: Vec<u8> = $bytes;
        let n = bytes.len();
        let tail = tail($s, $ctx);
        let mut all = bytes.clone();
        all.extend(&tail);
        $ctx.input(&all);
        $ctx.nontrivial(&($name, &all));
        {
            let $i = &all[..];
            match guard($name, || $parse.map_err(why))? {
                Err(e) => return Err(format!("{}: well-formed part refused: {e}", $name)),
                Ok((rest, $g)) => {
                    ensure!(
                        rest.as_ptr() == all[n..].as_ptr() && rest.len() == tail.len(),
                        "{}: {} bytes behind the part of {n} left, not {}",
                        $name,
                        rest.len(),
                        tail.len()
                    );
                    let r: R = $check;
                    r.map_err(|e| format!("{}: {e}", $name))?;
                }
            }
        }
        if n > 0 {
            for cut in [$s.below(n), n - 1, 0] {
                let $i = &bytes[..cut];
                let r = guard($name, || $parse.map(|_| ()).map_err(|_| ()))?;
                ensure!(r.is_err(), "{}: accepts {cut} of {n} bytes", $name);
            }
        }
        $ctx.evaluations(1);
    }};
}

fn tail(s: &mut Src<'_>, ctx: &mut Ctx) -> Vec<u8> {
    match s.weighted(&[20, 30, 10, 6, 1]) {
        0 => vec![],
        1 => {
            ctx.label("followed by something");
            s.bytes(24)
        }
        3 => {
            ctx.label("followed by something");
            gen::junk(s, 40)
        }
        4 => {
            ctx.label("followed by many bytes");
            let n = s.pick(&[300usize, 5_000, 70_000]);
            vec![s.pick(&[0u8, 255, 1]); n]
        }
        _ => {
            ctx.label("followed by something");
            let n = 1 + s.below(40);
            vec![s.pick(&[0u8, 255, 1]); n]
        }
    }
}

fn le(s: &mut Src<'_>, n: usize) -> Vec<u8> {
    (0..n).map(|_| s.u8b()).collect()
}
fn u16_at(b: &[u8], i: usize) -> u16 {
    u16::from_le_bytes([b[i], b[i + 1]])
}
fn u32_at(b: &[u8], i: usize) -> u32 {
    u32::from_le_bytes([b[i], b[i + 1], b[i + 2], b[i + 3]])
}
fn i32_at(b: &[u8], i: usize) -> i32 {
    u32_at(b, i) as i32
}

fn scalars(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    macro_rules! fixed_size {
        ($name:expr, $n:expr, |$i:ident| $parse:expr, |$g:ident, $b:ident| $check:expr) => {{
            let $b = le(s, $n);
            ctx.label($name);
            let copy = $b.clone();
            part!(s, ctx, $name, copy, |$i| $parse, |$g| {
                $check;
                Ok(())
            });
        }};
    }
    let k = s.below(22);
    ctx.describe(|| format!("scalar {k}"));
    match k {
        0 => fixed_size!("byte", 1, |i| sc::byte(i), |g, b| eq!("value", g, b[0])),
        1 => fixed_size!("word", 2, |i| sc::word(i), |g, b| eq!("value", g, u16_at(&b, 0))),
        2 => fixed_size!("short", 2, |i| sc::short(i), |g, b| eq!("value", g, u16_at(&b, 0) as i16)),
        3 => fixed_size!("dword", 4, |i| sc::dword(i), |g, b| eq!("value", g, u32_at(&b, 0))),
        4 => fixed_size!("long", 4, |i| sc::long(i), |g, b| eq!("value", g, i32_at(&b, 0))),
        5 => fixed_size!("parse_point", 8, |i| sc::parse_point(i), |g, b| eq!("value", (g.x, g.y), (i32_at(&b, 0), i32_at(&b, 4)))),
        6 => fixed_size!("parse_size", 8, |i| sc::parse_size(i), |g, b| eq!(
            "value",
            (g.width, g.height),
            (i32_at(&b, 0), i32_at(&b, 4))
        )),
        7 => fixed_size!("parse_rect", 16, |i| sc::parse_rect(i), |g, b| eq!(
            "value",
            [g.point.x, g.point.y, g.size.width, g.size.height],
            [i32_at(&b, 0), i32_at(&b, 4), i32_at(&b, 8), i32_at(&b, 12)]
        )),
        8 => fixed_size!("parse_dword_as_usize", 4, |i| sc::parse_dword_as_usize(i), |g, b| eq!("value", g, u32_at(&b, 0) as usize)),
        9 => fixed_size!("parse_uuid", 16, |i| sc::parse_uuid(i), |g, b| eq!("value", g.to_le_bytes().to_vec(), b)),
        10 => fixed_size!("fixed", 4, |i| sc::fixed(i), |g, b| eq!("value", (g.0, g.1), (u16_at(&b, 2), u16_at(&b, 0)))),
        11 => fixed_size!("parse_color", 4, |i| sc::parse_color(i), |g, b| eq!("value", vec![g.red, g.green, g.blue, g.alpha], b)),
        12 => fixed_size!("parse_rgb", 3, |i| sc::parse_rgb(i), |g, b| eq!("value", vec![g.red, g.green, g.blue], b)),
        13 => fixed_size!("parse_color_depth", 2, |i| ab::color_depth::parse_color_depth(i), |g, b| eq!(
            "value",
            (g.bpp(), g),
            (u16_at(&b, 0), ab::color_depth::ColorDepth::from(u16_at(&b, 0)))
        )),
        14 => fixed_size!("parse_blend_mode", 2, |i| ab::blend_mode::parse_blend_mode(i), |g, b| eq!(
            "value",
            g,
            view::blend_mode(u16_at(&b, 0))
        )),
        15 => fixed_size!("parse_chunk_type", 2, |i| ab::chunk_type::parse_chunk_type(i), |g, b| eq!(
            "value",
            g.map(|t| t as u16),
            if KNOWN_CHUNKS.contains(&u16_at(&b, 0)) { Ok(u16_at(&b, 0)) } else { Err(u16_at(&b, 0)) }
        )),
        16 => fixed_size!("parse_nine_patch", 16, |i| ac::slice::parse_nine_patch(i), |g, b| eq!(
            "value",
            (g.x, g.y, g.width, g.height),
            (i32_at(&b, 0), i32_at(&b, 4), u32_at(&b, 8), u32_at(&b, 12))
        )),
        17 => fixed_size!("parse_pivot", 8, |i| ac::slice::parse_pivot(i), |g, b| eq!("value", (g.x, g.y), (i32_at(&b, 0), i32_at(&b, 4)))),
        18 => fixed_size!("tileset::parse_external_file", 8, |i| ac::tileset::parse_external_file(i), |g, b| eq!(
            "value",
            (g.external_file_id, g.tileset_id),
            (u32_at(&b, 0), u32_at(&b, 4))
        )),
        19 => {
            ctx.label("parse_tiles");
            let d = s.bytes(300);
            let mut b = (d.len() as u32).to_le_bytes().to_vec();
            b.extend(&d);
            part!(s, ctx, "parse_tiles", b, |i| ac::tileset::parse_tiles(i), |g| {
                eq!("data", g.data, d.as_slice());
                Ok(())
            });
        }
        20 => {
            ctx.label("parse_string");
            let t = s.string();
            part!(s, ctx, "parse_string", string_bytes(&t), |i| sc::parse_string(i), |g| {
                eq!("text", g, t.as_str());
                Ok(())
            });
        }
        _ => {
            // sizes and indices that must be in range
            let v = if s.bool() { s.below(300) as u32 } else { s.u32b() };
            let mut b = v.to_le_bytes().to_vec();
            b.extend(tail(s, ctx));
            ctx.label("range");
            ctx.input(&b);
            ctx.nontrivial(&b);
            let r = guard("dword_size", || {
                sc::dword_size(&b, ab::errors::ParseError::InvalidFrameSize).map_err(|_| ()).map(|(r, v)| (r.to_vec(), v))
            })?;
            let want = if v >= 4 { Ok((b[4..].to_vec(), v)) } else { Err(()) };
            eq!("dword_size", r, want);
            let r = guard("parse_dword_as_u8", || {
                sc::parse_dword_as_u8(&b, ab::errors::ParseError::LayerIndexOutOfBounds)
                    .map_err(|_| ())
                    .map(|(r, v)| (r.to_vec(), v))
            })?;
            let want = if v < 256 { Ok((b[4..].to_vec(), v as u8)) } else { Err(()) };
            eq!("parse_dword_as_u8", r, want);
        }
    }
    Ok(())
}

fn some_body(s: &mut Src<'_>) -> Body {
    let o = Opts { user: 255, props: 120, ..Opts::default() };
    match s.below(9) {
        0 => {
            let kind = s.pick(&[0u16, 1, 2, 2, 3, 0xffff]);
            let level = s.below(4) as u16;
            Body::Layer(gen::layer(s, &o, kind, level))
        }
        1 | 2 => {
            let content = match s.below(4) {
                0 => gen::image(s, &o, 32),
                1 => Content::Linked { frame: s.u16b() },
                2 => Content::Tilemap(gen::tilemap(s)),
                _ => Content::Unknown { kind: 4 + s.u16b() % 60_000, data: s.bytes(40) },
            };
            let l = s.u16b();
            Body::Cel(gen::cel(s, &o, l, content))
        }
        3 => gen::tags(s, &o, 6),
        4 => Body::Slice(gen::slice(s, &o, 6)),
        5 => gen::any_palette(s, &o),
        6 => Body::User(gen::user(s, &o)),
        _ => gen::aux(s, &o),
    }
}

/// Put the bytes behind the record where they belong: in the last field.
fn swallow(b: &Body, tail: &[u8]) -> Option<(Body, usize)> {
    let mut b = b.clone();
    let n = body_bytes(&b).len();
    let fixed = match &mut b {
        Body::Cel(c) => match &mut c.content {
            Content::Raw { data, .. } | Content::Zip { data, .. } | Content::Unknown { data, .. } => {
                let f = n - data.len();
                data.extend(tail);
                f
            }
            Content::Tilemap(t) => {
                let f = n - t.data.len();
                t.data.extend(tail);
                f
            }
            Content::Linked { .. } => n,
        },
        Body::CelExtra(c) => {
            let f = n - c.rest.len();
            c.rest.extend(tail);
            f
        }
        Body::Mask(m) => {
            let f = n - m.data.len();
            m.data.extend(tail);
            f
        }
        _ => return None,
    };
    Some((b, fixed))
}

/// Parse a chunk's body by the parser for its type.
fn parse_body(code: u16, b: &[u8]) -> Option<ab::errors::ParseResult<'_, Chunk<'_>>> {
    fn m<'a, T>(r: ab::errors::ParseResult<'a, T>, f: impl FnOnce(T) -> Chunk<'a>) -> ab::errors::ParseResult<'a, Chunk<'a>> {
        r.map(|(i, t)| (i, f(t)))
    }
    Some(match code {
        0x0004 => m(ac::old_palette::parse_old_palette_chunk(b), Chunk::Palette0004),
        0x0011 => m(ac::old_palette::parse_old_palette_chunk(b), Chunk::Palette0011),
        0x2004 => m(ac::layer::parse_layer_chunk(b), Chunk::Layer),
        0x2005 => m(ac::cel::parse_cel_chunk(b), Chunk::Cel),
        0x2006 => m(ac::cel_extra::parse_cel_extra_chunk(b), Chunk::CelExtra),
        0x2007 => m(ac::color_profile::parse_color_profile(b), Chunk::ColorProfile),
        0x2008 => m(ac::external_files::parse_external_files_chunk(b), Chunk::ExternalFiles),
        0x2016 => m(ac::mask::parse_mask_chunk(b), Chunk::Mask),
        0x2018 => m(ac::tags::parse_tags_chunk(b), Chunk::Tags),
        0x2019 => m(ac::palette::parse_palette_chunk(b), Chunk::Palette),
        0x2020 => m(ac::user_data::parse_user_data_chunk(b), Chunk::UserData),
        0x2022 => m(ac::slice::parse_slice_chunk(b), Chunk::Slice),
        0x2023 => m(ac::tileset::parse_tileset_chunk(b), Chunk::Tileset),
        _ => return None,
    })
}

fn body_name(code: u16) -> &'static str {
    match code {
        0x0004 => "palette 0x0004",
        0x0011 => "palette 0x0011",
        0x2004 => "layer",
        0x2005 => "cel",
        0x2006 => "cel extra",
        0x2007 => "colour profile",
        0x2008 => "external files",
        0x2016 => "mask",
        0x2018 => "tags",
        0x2019 => "palette",
        0x2020 => "user data",
        0x2022 => "slice",
        0x2023 => "tileset",
        _ => "other",
    }
}

fn bodies(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    let b = some_body(s);
    let code = b.code();
    let name = body_name(code);
    ctx.label(name);
    ctx.describe(|| format!("{b:?}").chars().take(300).collect());
    let bytes = body_bytes(&b);
    if parse_body(code, &[]).is_none() {
        return Ok(());
    }
    if swallow(&b, &[]).is_none() {
        part!(s, ctx, name, bytes, |i| parse_body(code, i).unwrap(), |g| view::any_chunk(&b, &g));
        return Ok(());
    }
    let t = tail(s, ctx);
    let (want, fixed) = swallow(&b, &t).unwrap();
    let mut all = bytes.clone();
    all.extend(&t);
    ctx.input(&all);
    ctx.nontrivial(&(name, &all));
    match guard(name, || parse_body(code, &all).unwrap().map_err(why))? {
        Err(e) => return Err(format!("{name}: well-formed part refused: {e}")),
        Ok((rest, g)) => {
            ensure!(rest.is_empty(), "{name}: {} bytes left", rest.len());
            view::any_chunk(&want, &g).map_err(|e| format!("{name}: {e}"))?;
        }
    }
    let cut = s.below(fixed);
    for cut in [cut, fixed - 1, 0] {
        let r = guard(name, || parse_body(code, &bytes[..cut]).unwrap().map(|_| ()).map_err(|_| ()))?;
        ensure!(r.is_err(), "{name}: accepts {cut} of {fixed} bytes");
    }
    Ok(())
}

fn pieces(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    let o = Opts::default();
    let k = s.below(9);
    match k {
        0 => {
            let t = gen::tag(s, &o);
            ctx.label("parse_tag");
            ctx.describe(|| format!("{t:?}"));
            let b = body_bytes(&Body::Tags([0; 8], vec![t.clone()]))[10..].to_vec();
            part!(s, ctx, "parse_tag", b, |i| ac::tags::parse_tag(i), |g| {
                ensure!(g.user_data.is_none(), "user data invented");
                view::tag(&t, &g)
            });
        }
        1 => {
            let flags = s.below(4) as u32;
            let key = gen::key(s, flags);
            ctx.label("parse_slice_key");
            ctx.describe(|| format!("{key:?} with {flags}"));
            let m = SliceM { flags, reserved: 0, name: String::new(), keys: vec![key] };
            let b = body_bytes(&Body::Slice(m.clone()))[14..].to_vec();
            let f = ac::slice::SliceFlags::from_bits_truncate(flags);
            part!(s, ctx, "parse_slice_key", b, |i| ac::slice::parse_slice_key(i, f), |g| view::slice(
                &m,
                &ac::slice::SliceChunk { name: "", flags: f, slice_keys: vec![g], user_data: None }
            ));
        }
        2 => {
            let e = EntryM { flags: s.pick(&[0u16, 1, 3, 2]), color: s.arr(), name: s.string() };
            ctx.label("parse_palette_entry");
            ctx.describe(|| format!("{e:?}"));
            let m = Body::Palette(PaletteM { size: 1, first: 9, last: 9, reserved: [0; 8], entries: vec![e] });
            let b = body_bytes(&m)[20..].to_vec();
            part!(s, ctx, "parse_palette_entry", b, |i| ac::palette::parse_palette_entry(i), |g| view::any_chunk(
                &m,
                &Chunk::Palette(ac::palette::PaletteChunk { indices: 9..=9, entries: vec![g] })
            ));
        }
        3 => {
            let m = Body::External([0; 8], vec![ExtM { id: s.u32b(), kind: s.below(5) as u8, reserved: s.arr(), name: s.string() }]);
            ctx.label("parse_external_file");
            ctx.describe(|| format!("{m:?}"));
            let b = body_bytes(&m)[12..].to_vec();
            part!(s, ctx, "parse_external_file", b, |i| ac::external_files::parse_external_file(i), |g| view::any_chunk(
                &m,
                &Chunk::ExternalFiles(ac::external_files::ExternalFilesChunk { files: vec![g] })
            ));
        }
        4 => {
            let n = s.pick(&[256usize, 255, 1, 2]).min(1 + s.below(256));
            let c = gen::pixels(s, 3 * n, 32);
            let p = crate::model::Packet { skip: s.u8b(), colors: c.chunks(3).map(|c| [c[0], c[1], c[2]]).collect() };
            ctx.label("parse_packet");
            ctx.label_if(n == 256, "256 colours");
            let m = Body::Pal4(vec![p]);
            let b = body_bytes(&m)[2..].to_vec();
            part!(s, ctx, "parse_packet", b, |i| ac::old_palette::parse_packet(i), |g| view::any_chunk(
                &m,
                &Chunk::Palette0004(ac::old_palette::OldPaletteChunk { packets: vec![g] })
            ));
        }
        5 => {
            let ms = gen::pmaps(s);
            ctx.label("parse_properties_maps");
            ctx.describe(|| format!("{ms:?}").chars().take(300).collect());
            let u = UserM { flags: 4, text: String::new(), color: [0; 4], props: Props::Maps(ms.clone()) };
            let b = body_bytes(&Body::User(u.clone()))[4..].to_vec();
            part!(s, ctx, "parse_properties_maps", b, |i| ac::user_data::parse_properties_maps(i), |g| view::props_of(
                &u,
                &ac::user_data::UserDataChunk { text: None, color: None, properties_maps: Some(g) }
            ));
            if let Some(m) = ms.first() {
                ctx.label("parse_properties_map");
                let b = encode_maps(&[m.clone()]);
                part!(s, ctx, "parse_properties_map", b, |i| ac::user_data::parse_properties_map(i), |g| {
                    eq!("key", g.extension_entry_id, m.key);
                    view::map(&m.props, &g.properties)
                });
            }
        }
        6 | 7 => {
            let code = 1 + s.below(19) as u16;
            let v = gen::pval(s, code, 0);
            ctx.describe(|| format!("{v:?}").chars().take(300).collect());
            let mut b = v.code().to_le_bytes().to_vec();
            b.extend(value_bytes(&v));
            if k == 6 {
                ctx.label("parse_value");
                part!(s, ctx, "parse_value", b, |i| ac::user_data::parse_value(i), |g| view::value(&v, &g));
            } else {
                ctx.label("parse_property");
                let name = s.string();
                let mut p = string_bytes(&name);
                p.extend(b);
                let want = vec![(name, v)];
                part!(s, ctx, "parse_property", p, |i| ac::user_data::parse_property(i), |g| view::map(&want, &[g]));
            }
        }
        _ => {
            let v = gen::pval(s, 17, 0);
            ctx.label("parse_vector");
            ctx.describe(|| format!("{v:?}").chars().take(300).collect());
            if let PVal::Vector(t, xs) = &v {
                part!(s, ctx, "parse_vector", value_bytes(&v), |i| ac::user_data::parse_vector(i), |g| view::vector(*t, xs, &g));
            }
        }
    }
    Ok(())
}

/// Header, chunks, frames: one by one, and put together as the file is.
fn frames(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    let mut d = super::robust::mixed(s);
    // a frame that ends with fewer chunks than it says would be refused
    d.frames.truncate(4);
    let b = encode(&d);
    show(ctx, &d, &b);
    part!(s, ctx, "parse_header", b[..128].to_vec(), |i| ab::header::parse_header(i), |g| view::header(&d.head, &g));
    let compare = |f: &FrameM, g: &ab::raw_frame::RawFrame<'_>| -> R {
        eq!("duration", g.duration, f.duration);
        eq!("number of chunks", g.chunks.len(), f.chunks.len());
        f.chunks.iter().zip(&g.chunks).try_for_each(|(w, g)| view::any_chunk(&w.body, g))
    };
    for f in &d.frames {
        part!(s, ctx, "parse_rawframe", frame_bytes(f), |i| ab::raw_frame::parse_rawframe(i), |g| compare(f, &g));
        let n = f.chunks.len();
        let all: Vec<u8> = f.chunks.iter().flat_map(chunk_bytes).collect();
        part!(s, ctx, "parse_chunks", all, |i| ab::chunk::parse_chunks(i, n), |g| {
            eq!("number of chunks", g.len(), n);
            f.chunks.iter().zip(&g).try_for_each(|(w, g)| view::any_chunk(&w.body, g))
        });
        if n > 0 {
            let c = &f.chunks[s.below(n)];
            part!(s, ctx, "parse_chunk", chunk_bytes(c), |i| ab::chunk::parse_chunk(i), |g| view::any_chunk(&c.body, &g));
            let k = s.below(n + 1);
            let some: Vec<u8> = f.chunks[..k].iter().flat_map(chunk_bytes).collect();
            part!(s, ctx, "parse_chunks", some, |i| ab::chunk::parse_chunks(i, k), |g| {
                eq!("number of chunks", g.len(), k);
                Ok(())
            });
        }
    }
    let fs = &b[128..];
    let r = guard("parse_frames", || ab::raw_frame::parse_frames(fs).map_err(why))?;
    if d.frames.is_empty() {
        ensure!(r.is_err(), "parse_frames: no frames accepted");
        return Ok(());
    }
    let (rest, g) = r.map_err(|e| format!("parse_frames: well-formed frames refused: {e}"))?;
    ensure!(rest.is_empty(), "parse_frames: {} bytes left", rest.len());
    eq!("number of frames", g.len(), d.frames.len());
    d.frames.iter().zip(&g).try_for_each(|(w, g)| compare(w, g)).map_err(|e| format!("parse_frames: {e}"))?;
    // leftover bytes are not frames
    let mut more = fs.to_vec();
    let k = 1 + s.below(15);
    more.extend(s.fill(k));
    let r = guard("parse_frames", || ab::raw_frame::parse_frames(&more).map(|_| ()).map_err(|_| ()))?;
    ensure!(r.is_err(), "parse_frames: {k} leftover bytes accepted");
    // the file is these parts
    let whole = raw_ok(&b)?;
    eq!("number of frames", whole.frames.len(), g.len());
    for (a, b) in whole.frames.iter().zip(&g) {
        ensure!(format!("{a:?}") == format!("{b:?}"), "parse_raw_file differs from parse_frames");
    }
    // the palette does not ask for the colour depth
    let mut indexed = d.clone();
    indexed.head.depth = 8;
    let p = guard("create_palette", || ab::palette::create_palette(&whole.header, &whole.frames))?;
    match (view::palette(&indexed), p) {
        (Ok(Some(w)), Ok(p)) => {
            ctx.label("create_palette");
            for (i, (w, g)) in w.iter().zip(&p.colors).enumerate() {
                eq!(format!("create_palette: colour {i}"), [g.red, g.green, g.blue, g.alpha], *w);
            }
        }
        (Err(_) | Ok(None), Err(_)) => {}
        (Ok(Some(_)), Err(e)) => return Err(format!("create_palette: well-formed palette refused: {e}")),
        (_, Ok(_)) => return Err("create_palette: accepted without a valid palette".into()),
    }
    Ok(())
}

/// Any bytes: no panic; what is accepted is a prefix that stands on its own.
fn any_bytes(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    let body = some_body(s);
    let mut b = match s.weighted(&[5, 2, 1]) {
        0 => body_bytes(&body),
        1 => {
            let n = s.below(60);
            (0..n).map(|_| s.u8b()).collect()
        }
        _ => s.bytes(200),
    };
    let n = s.below(4);
    for _ in 0..n {
        if !b.is_empty() {
            mutate(s, &mut b, &[]);
        }
    }
    let depth = s.below(3);
    if depth == 0 && !b.is_empty() {
        // start in the middle
        let k = s.below(b.len().min(30));
        b.drain(..k);
    }
    ctx.input(&b);
    ctx.nontrivial(&b);
    ctx.describe(|| format!("{} bytes from {}", b.len(), body_name(body.code())));
    // as the chunk with this body
    for code in KNOWN_CHUNKS {
        let Some(r) = guard(body_name(code), || parse_body(code, &b).map(|r| r.map_err(why)))? else { continue };
        let mut c = ((b.len() + 6) as u32).to_le_bytes().to_vec();
        c.extend(code.to_le_bytes());
        c.extend(&b);
        let whole = guard("parse_chunk", || ab::chunk::parse_chunk(&c).map_err(why))?;
        match (&r, &whole) {
            (Ok((_, g)), Ok((rest, w))) => {
                ensure!(rest.is_empty(), "parse_chunk leaves {} bytes", rest.len());
                let same = match (g, w) {
                    // malformed properties contain the rest of the input
                    (Chunk::UserData(g), Chunk::UserData(w)) => {
                        let k = |u: &ac::user_data::UserDataChunk<'_>| {
                            (u.text.map(str::to_owned), u.color, u.properties_maps.as_ref().map(|p| p.is_ok()))
                        };
                        k(g) == k(w)
                    }
                    _ => format!("{g:?}") == format!("{w:?}"),
                };
                ensure!(same, "{}: parsed differently as a chunk", body_name(code));
                ctx.label("accepted");
            }
            (Err(_), Err(_)) => {}
            (Ok(_), Err(e)) => return Err(format!("{}: accepted alone, refused as a chunk: {e}", body_name(code))),
            (Err(e), Ok(_)) => return Err(format!("{}: accepted as a chunk, refused alone: {e}", body_name(code))),
        }
    }
    // everything else: a prefix that stands on its own
    macro_rules! prefix {
        ($($name:expr => |$i:ident| $parse:expr),* $(,)?) => {$({
            let $i = &b[..];
            let r = guard($name, || $parse.map_err(why).map(|(rest, g)| (rest.len(), format!("{g:?}"))))?;
            if let Ok((left, text)) = r {
                ensure!(left <= b.len(), "{}: more left than there was", $name);
                let used = b.len() - left;
                let $i = &b[..used];
                let r = guard($name, || $parse.map_err(why).map(|(rest, g)| (rest.len(), format!("{g:?}"))))?;
                ensure!(
                    r == Ok((0, text)),
                    "{}: reads {used} of {} bytes, but not the same from these alone", $name, b.len()
                );
                if used > 0 {
                    let $i = &b[..used - 1];
                    let r = guard($name, || $parse.is_ok())?;
                    ensure!(!r, "{}: reads {used} bytes and does not need the last of them", $name);
                }
                ctx.evaluations(1);
            }
        })*};
    }
    let f = ac::slice::SliceFlags::from_bits_truncate(s.below(4) as u32);
    let k = s.below(4);
    prefix! {
        "parse_tag" => |i| ac::tags::parse_tag(i),
        "parse_slice_key" => |i| ac::slice::parse_slice_key(i, f),
        "parse_nine_patch" => |i| ac::slice::parse_nine_patch(i),
        "parse_pivot" => |i| ac::slice::parse_pivot(i),
        "parse_palette_entry" => |i| ac::palette::parse_palette_entry(i),
        "parse_external_file" => |i| ac::external_files::parse_external_file(i),
        "tileset::parse_external_file" => |i| ac::tileset::parse_external_file(i),
        "parse_tiles" => |i| ac::tileset::parse_tiles(i),
        "parse_packet" => |i| ac::old_palette::parse_packet(i),
        "parse_properties_map" => |i| ac::user_data::parse_properties_map(i),
        "parse_property" => |i| ac::user_data::parse_property(i),
        "parse_value" => |i| ac::user_data::parse_value(i),
        "parse_vector" => |i| ac::user_data::parse_vector(i),
        "parse_string" => |i| sc::parse_string(i),
        "parse_uuid" => |i| sc::parse_uuid(i),
        "parse_rect" => |i| sc::parse_rect(i),
        "parse_chunk" => |i| ab::chunk::parse_chunk(i),
        "parse_chunks" => |i| ab::chunk::parse_chunks(i, k),
        "parse_rawframe" => |i| ab::raw_frame::parse_rawframe(i),
        "parse_tags_chunk" => |i| ac::tags::parse_tags_chunk(i),
        "parse_slice_chunk" => |i| ac::slice::parse_slice_chunk(i),
        "parse_palette_chunk" => |i| ac::palette::parse_palette_chunk(i),
        "parse_old_palette_chunk" => |i| ac::old_palette::parse_old_palette_chunk(i),
        "parse_layer_chunk" => |i| ac::layer::parse_layer_chunk(i),
        "parse_tileset_chunk" => |i| ac::tileset::parse_tileset_chunk(i),
        "parse_external_files_chunk" => |i| ac::external_files::parse_external_files_chunk(i),
        "parse_color_profile" => |i| ac::color_profile::parse_color_profile(i),
    }
    guard("parse_header", || ab::header::parse_header(&b).is_ok())?;
    guard("parse_frames", || ab::raw_frame::parse_frames(&b).is_ok())?;
    guard("parse_properties_maps", || ac::user_data::parse_properties_maps(&b).is_ok())?;
    Ok(())
}

large!(l_bodies, bodies);
large!(l_pieces, pieces);

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "P24",
        rule: "a part with the bytes behind it, or bytes given to all parsers; distinct parser and bytes",
        assumptions: &["the public parsers of `binary` keep their names and signatures"],
        families: vec![
            fam("scalars", scalars, (400_000, 8_000_000), 120),
            fam("bodies", bodies, (400_000, 10_000_000), 400),
            fam("pieces", pieces, (400_000, 10_000_000), 400),
            fam("frames", frames, (100_000, 3_000_000), 700),
            fam("any bytes", any_bytes, (200_000, 6_000_000), 300),
            fam("large bodies", l_bodies, (4_000, 100_000), 400),
            fam("large pieces", l_pieces, (4_000, 100_000), 400),
        ],
    }]
}
