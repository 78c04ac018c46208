//! Reference semantics of a document (what parser and loader must present) and
//! the comparison of the code's results with it.

use crate::model::*;
use aseprite_loader::binary as ab;
use aseprite_loader::loader as al;

pub type R = Result<(), String>;

#[macro_export]
macro_rules! eq {
    ($what:expr, $got:expr, $want:expr) => {{
        let (g, w) = (&$got, &$want);
        if g != w {
            let (g, w) = (format!("{:?}", g), format!("{:?}", w));
            let cut = |s: String| s.chars().take(300).collect::<String>();
            return Err(format!("{}: got {}, expected {}", $what, cut(g), cut(w)));
        }
    }};
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => {
        if !$c {
            return Err(format!($($a)*));
        }
    };
}

// ---------------------------------------------------------------- parser view

pub type Layered<'d> = (&'d LayerM, Option<&'d UserM>);
pub type Celled<'d> = (&'d CelM, Option<&'d UserM>);

#[derive(Clone, Debug)]
pub struct FileView<'d> {
    pub layers: Vec<Layered<'d>>,
    pub frames: Vec<(u16, Vec<Option<Celled<'d>>>)>,
    pub tags: Vec<(&'d TagM, Option<&'d UserM>)>,
    pub slices: Vec<(&'d SliceM, Option<&'d UserM>)>,
    pub user: Option<&'d UserM>,
    pub palette: Option<Vec<[u8; 4]>>,
}

/// What a reader of the format must see in the document.
pub fn resolve(doc: &Doc) -> Result<FileView<'_>, String> {
    enum Last {
        Nothing,
        Layer(usize),
        Cel(usize),
        Slice(usize),
        Tags(usize, usize),
        Sprite,
    }
    let mut v = FileView {
        layers: vec![],
        frames: vec![],
        tags: vec![],
        slices: vec![],
        user: None,
        palette: palette(doc)?,
    };
    let mut all_cels: Vec<Vec<Celled<'_>>> = vec![];
    for (fi, f) in doc.frames.iter().enumerate() {
        let mut last = Last::Nothing;
        let mut cels: Vec<Celled<'_>> = vec![];
        for c in &f.chunks {
            last = match &c.body {
                Body::User(u) => match last {
                    Last::Nothing => Last::Nothing,
                    Last::Layer(i) => {
                        v.layers[i].1 = Some(u);
                        Last::Nothing
                    }
                    Last::Cel(i) => {
                        cels[i].1 = Some(u);
                        Last::Nothing
                    }
                    Last::Slice(i) => {
                        v.slices[i].1 = Some(u);
                        Last::Nothing
                    }
                    Last::Tags(i, n) if i < n => {
                        v.tags[i].1 = Some(u);
                        Last::Tags(i + 1, n)
                    }
                    Last::Tags(..) => Last::Nothing,
                    Last::Sprite => {
                        v.user = Some(u);
                        Last::Nothing
                    }
                },
                Body::Layer(l) => {
                    v.layers.push((l, None));
                    Last::Layer(v.layers.len() - 1)
                }
                Body::Cel(c) => {
                    cels.push((c, None));
                    Last::Cel(cels.len() - 1)
                }
                // the extra chunk is a part of the cel before it
                Body::CelExtra(_) if matches!(last, Last::Cel(_)) => last,
                Body::Slice(s) => {
                    v.slices.push((s, None));
                    Last::Slice(v.slices.len() - 1)
                }
                Body::Tags(_, ts) => {
                    let at = v.tags.len();
                    v.tags.extend(ts.iter().map(|t| (t, None)));
                    Last::Tags(at, v.tags.len())
                }
                Body::Pal4(_) | Body::Pal11(_) | Body::Palette(_) if fi == 0 && v.user.is_none() => {
                    Last::Sprite
                }
                _ => Last::Nothing,
            };
        }
        all_cels.push(cels);
    }
    for (f, cels) in doc.frames.iter().zip(all_cels) {
        let mut row: Vec<Option<Celled<'_>>> = vec![None; v.layers.len()];
        for c in cels {
            let i = usize::from(c.0.layer);
            if i >= row.len() {
                return Err(format!("cel on layer {i} of {}", row.len()));
            }
            row[i] = Some(c);
        }
        v.frames.push((f.duration, row));
    }
    Ok(v)
}

/// The palette an indexed sprite ends up with.
pub fn palette(doc: &Doc) -> Result<Option<Vec<[u8; 4]>>, String> {
    let mut p = stored_palette(doc)?;
    if let Some(p) = &mut p {
        p[usize::from(doc.head.transparent)][3] = 0;
    }
    Ok(p)
}

/// The same before the transparent index is made transparent.
pub fn stored_palette(doc: &Doc) -> Result<Option<Vec<[u8; 4]>>, String> {
    if doc.head.depth != 8 {
        return Ok(None);
    }
    let mut pal = vec![[0u8; 4]; 256];
    let mut seen = [0usize; 3];
    let mut set = [0usize; 3];
    for c in doc.chunks() {
        match c.body {
            Body::Palette(_) => seen[0] += 1,
            Body::Pal4(_) => seen[1] += 1,
            Body::Pal11(_) => seen[2] += 1,
            _ => {}
        }
    }
    let which = match seen.iter().position(|n| *n > 0) {
        None => return Err("no palette".into()),
        Some(w) => w,
    };
    for c in doc.chunks() {
        match &c.body {
            Body::Palette(p) if which == 0 => {
                for (i, e) in p.entries.iter().enumerate() {
                    pal[p.first as usize + i] = e.color;
                    set[0] += 1;
                }
            }
            Body::Pal4(ps) | Body::Pal11(ps)
                if (which == 1 && matches!(c.body, Body::Pal4(_)))
                    || (which == 2 && matches!(c.body, Body::Pal11(_))) =>
            {
                let mut at = 0;
                for p in ps {
                    at += usize::from(p.skip);
                    if at + p.colors.len() > 256 {
                        return Err("old palette beyond 256 entries".into());
                    }
                    for c in &p.colors {
                        // 0x0011: components 0..63 -> 0..255
                        let up = |v: u8| if which == 2 { (v << 2) | (v >> 4) } else { v };
                        pal[at] = [up(c[0]), up(c[1]), up(c[2]), 255];
                        at += 1;
                        set[which] += 1;
                    }
                }
            }
            _ => {}
        }
    }
    if set[which] == 0 {
        return Err("empty palette".into());
    }
    Ok(Some(pal))
}

// ---------------------------------------------------------------- loader view

#[derive(Clone, Debug)]
pub struct LLayer<'d> {
    pub file_index: usize,
    pub m: &'d LayerM,
    pub visible: bool,
    pub opacity: u8,
}

#[derive(Clone, Debug)]
pub struct LCel<'d> {
    /// index into the reported layers
    pub layer: usize,
    pub file_layer: usize,
    pub m: &'d CelM,
    /// frame holding the image, and the image
    pub image_frame: usize,
    pub image: &'d CelM,
    pub size: (u16, u16),
}

#[derive(Clone, Debug)]
pub struct LoadView<'d> {
    pub layers: Vec<LLayer<'d>>,
    pub frames: Vec<(u16, Vec<LCel<'d>>)>,
    pub palette: Option<Vec<[u8; 4]>>,
}

pub fn load_view<'d>(doc: &'d Doc, v: &FileView<'d>) -> Result<LoadView<'d>, String> {
    // visibility along the layer tree
    let mut open: Vec<bool> = vec![];
    let mut layers = vec![];
    let mut map = vec![None; v.layers.len()];
    for (i, (l, _)) in v.layers.iter().enumerate() {
        while open.len() > usize::from(l.level) {
            open.pop();
        }
        let vis = l.flags & 1 != 0 && open.last().copied().unwrap_or(true);
        open.push(vis);
        if l.kind <= 1 {
            map[i] = Some(layers.len());
            let opacity = if doc.head.flags & 1 != 0 { l.opacity } else { 255 };
            layers.push(LLayer { file_index: i, m: l, visible: vis, opacity });
        }
    }
    let mut frames = vec![];
    for (fi, (duration, row)) in v.frames.iter().enumerate() {
        let mut cels = vec![];
        for c in row.iter().flatten() {
            let li = usize::from(c.0.layer);
            let (image_frame, image) = match &c.0.content {
                Content::Raw { .. } | Content::Zip { .. } => (fi, c.0),
                Content::Linked { frame } => {
                    let f = usize::from(*frame);
                    match v.frames.get(f).and_then(|x| x.1[li]).map(|x| x.0) {
                        Some(t) if matches!(t.content, Content::Raw { .. } | Content::Zip { .. }) => (f, t),
                        _ => return Err(format!("dangling link in frame {fi} layer {li}")),
                    }
                }
                _ => return Err("cel without image".into()),
            };
            let size = match image.content {
                Content::Raw { w, h, .. } | Content::Zip { w, h, .. } => (w, h),
                _ => unreachable!(),
            };
            if let Some(layer) = map[li] {
                cels.push(LCel { layer, file_layer: li, m: c.0, image_frame, image, size });
            }
        }
        cels.sort_by_key(|c| {
            let z = i64::from(c.m.z);
            (c.file_layer as i64 + z, z)
        });
        frames.push((*duration, cels));
    }
    Ok(LoadView { layers, frames, palette: v.palette.clone() })
}

// ---------------------------------------------------------------- comparisons

pub fn header(h: &Head, g: &ab::header::Header) -> R {
    eq!("file_size", g.file_size, h.file_size);
    eq!("frames field", g.frames, h.frames);
    eq!("width", g.width, h.width);
    eq!("height", g.height, h.height);
    use ab::color_depth::ColorDepth as D;
    let depth = match h.depth {
        32 => D::Rgba,
        16 => D::Grayscale,
        8 => D::Indexed,
        n => D::Unknown(n),
    };
    eq!("color_depth", g.color_depth, depth);
    eq!("bpp", g.color_depth.bpp(), h.depth);
    eq!("flags", g.flags, h.flags);
    #[allow(deprecated)]
    {
        eq!("speed", g.speed, h.speed);
    }
    eq!("transparent_index", g.transparent_index, h.transparent);
    eq!("color_count", g.color_count, h.colors);
    eq!("pixel_width", g.pixel_width, h.pixel_w);
    eq!("pixel_height", g.pixel_height, h.pixel_h);
    eq!("grid_x", g.grid_x, h.grid_x);
    eq!("grid_y", g.grid_y, h.grid_y);
    eq!("grid_width", g.grid_width, h.grid_w);
    eq!("grid_height", g.grid_height, h.grid_h);
    Ok(())
}

pub fn chunk_code(c: &ab::chunk::Chunk<'_>) -> u16 {
    use ab::chunk::Chunk as C;
    match c {
        C::Palette0004(_) => 0x0004,
        C::Palette0011(_) => 0x0011,
        C::Layer(_) => 0x2004,
        C::Cel(_) => 0x2005,
        C::CelExtra(_) => 0x2006,
        C::ColorProfile(_) => 0x2007,
        C::ExternalFiles(_) => 0x2008,
        C::Mask(_) => 0x2016,
        C::Path => 0x2017,
        C::Tags(_) => 0x2018,
        C::Palette(_) => 0x2019,
        C::UserData(_) => 0x2020,
        C::Slice(_) => 0x2022,
        C::Tileset(_) => 0x2023,
        C::Unsupported(n) => *n,
    }
}

/// Number, order and durations of frames, and the chunk sequence of each.
pub fn structure(doc: &Doc, raw: &ab::raw_file::RawFile<'_>) -> R {
    eq!("number of frames", raw.frames.len(), doc.frames.len());
    for (i, (g, f)) in raw.frames.iter().zip(&doc.frames).enumerate() {
        eq!(format!("frame {i} duration"), g.duration, f.duration);
        eq!(format!("frame {i} number of chunks"), g.chunks.len(), f.chunks.len());
        for (j, (g, c)) in g.chunks.iter().zip(&f.chunks).enumerate() {
            eq!(format!("frame {i} chunk {j} type"), chunk_code(g), c.body.code());
        }
    }
    Ok(())
}

pub fn layer_type(kind: u16) -> ab::chunks::layer::LayerType {
    use ab::chunks::layer::LayerType as T;
    match kind {
        0 => T::Normal,
        1 => T::Group,
        2 => T::Tilemap,
        n => T::Unknown(n),
    }
}

pub fn blend_mode(code: u16) -> ab::blend_mode::BlendMode {
    use ab::blend_mode::BlendMode as B;
    [
        B::Normal,
        B::Multiply,
        B::Screen,
        B::Overlay,
        B::Darken,
        B::Lighten,
        B::ColorDodge,
        B::ColorBurn,
        B::HardLight,
        B::SoftLight,
        B::Difference,
        B::Exclusion,
        B::Hue,
        B::Saturation,
        B::Color,
        B::Luminosity,
        B::Addition,
        B::Subtract,
        B::Divide,
    ]
    .get(usize::from(code))
    .copied()
    .unwrap_or(B::Unknown(code))
}

pub fn layer(l: &LayerM, g: &ab::chunks::layer::LayerChunk<'_>) -> R {
    use ab::chunks::layer::LayerFlags as F;
    for (name, flag, bit) in [
        ("VISIBLE", F::VISIBLE, 1u16),
        ("EDITABLE", F::EDITABLE, 2),
        ("LOCK_MOVEMENT", F::LOCK_MOVEMENT, 4),
        ("BACKGROUND", F::BACKGROUND, 8),
        ("PREFER_LINKED_CELS", F::PREFER_LINKED_CELS, 16),
        ("COLLAPSED", F::COLLAPSED, 32),
        ("REFERENCE", F::REFERENCE, 64),
    ] {
        eq!(format!("flag {name}"), g.flags.contains(flag), l.flags & bit != 0);
    }
    eq!("flags", g.flags.bits() & 0x7f, l.flags & 0x7f);
    eq!("layer_type", g.layer_type, layer_type(l.kind));
    eq!("child_level", g.child_level, l.level);
    eq!("blend_mode", g.blend_mode, blend_mode(l.blend));
    eq!("opacity", g.opacity, l.opacity);
    eq!("name", g.name, l.name.as_str());
    eq!("tileset_index", g.tileset_index, (l.kind == 2).then_some(l.tileset));
    Ok(())
}

pub fn cel(c: &CelM, g: &ab::chunks::cel::CelChunk<'_>) -> R {
    eq!("layer_index", g.layer_index, c.layer);
    eq!("x", g.x, c.x);
    eq!("y", g.y, c.y);
    eq!("opacity", g.opacity, c.opacity);
    eq!("z_index", g.z_index, c.z);
    use ab::chunks::cel::CelContent as G;
    match (&c.content, &g.content) {
        (Content::Raw { w, h, data }, G::Image(i)) => {
            eq!("raw cel size", (i.width, i.height), (*w, *h));
            eq!("raw cel compressed", i.compressed, false);
            eq!("raw cel data", i.data, data.as_slice());
        }
        (Content::Zip { w, h, data }, G::Image(i)) => {
            eq!("compressed cel size", (i.width, i.height), (*w, *h));
            eq!("compressed cel compressed", i.compressed, true);
            eq!("compressed cel data", i.data, data.as_slice());
        }
        (Content::Linked { frame }, G::LinkedCel { frame_position }) => {
            eq!("linked frame", frame_position, frame);
        }
        (
            Content::Tilemap(t),
            G::CompressedTilemap {
                width,
                height,
                bits_per_tile,
                bitmask_tile_id,
                bitmask_x_flip,
                bitmask_y_flip,
                bitmask_diagonal_flip,
                data,
            },
        ) => {
            eq!("tilemap size", (*width, *height), (t.w, t.h));
            eq!("tilemap bits", *bits_per_tile, t.bits);
            eq!("tilemap id mask", *bitmask_tile_id, t.id);
            eq!("tilemap x flip mask", *bitmask_x_flip, t.xf);
            eq!("tilemap y flip mask", *bitmask_y_flip, t.yf);
            eq!("tilemap diagonal flip mask", *bitmask_diagonal_flip, t.df);
            eq!("tilemap data", *data, t.data.as_slice());
        }
        (Content::Unknown { kind, data }, G::Unknown { cel_type, data: d }) => {
            eq!("cel type", cel_type, kind);
            eq!("unknown cel data", *d, data.as_slice());
        }
        (w, g) => {
            let g: String = format!("{g:?}").chars().take(120).collect();
            return Err(format!("cel content: got {g}, expected {w:?}"));
        }
    }
    Ok(())
}

pub fn layers_and_cels(v: &FileView<'_>, g: &ab::file::File<'_>) -> R {
    eq!("number of layers", g.layers.len(), v.layers.len());
    for (i, (g, l)) in g.layers.iter().zip(&v.layers).enumerate() {
        layer(l.0, g).map_err(|e| format!("layer {i}: {e}"))?;
    }
    eq!("number of frames", g.frames.len(), v.frames.len());
    for (i, (g, f)) in g.frames.iter().zip(&v.frames).enumerate() {
        eq!(format!("frame {i} number of cel slots"), g.cels.len(), f.1.len());
        for (j, (g, c)) in g.cels.iter().zip(&f.1).enumerate() {
            match (g, c) {
                (None, None) => {}
                (Some(g), Some(c)) => cel(c.0, g).map_err(|e| format!("frame {i} layer {j}: {e}"))?,
                (g, c) => {
                    return Err(format!(
                        "frame {i} layer {j}: cel present {}, expected {}",
                        g.is_some(),
                        c.is_some()
                    ))
                }
            }
        }
    }
    Ok(())
}

pub fn tag(t: &TagM, g: &ab::chunks::tags::Tag<'_>) -> R {
    eq!("frames", g.frames, t.from..=t.to);
    direction(t.dir, &g.animation_direction)?;
    eq!("repeat", g.animation_repeat, t.repeat);
    #[allow(deprecated)]
    {
        eq!("color", g.color, t.color);
    }
    eq!("name", g.name, t.name.as_str());
    Ok(())
}

pub fn direction(dir: u8, g: &ab::chunks::tags::AnimationDirection) -> R {
    use ab::chunks::tags::AnimationDirection as D;
    let w = match dir {
        0 => D::Forward,
        1 => D::Reverse,
        2 => D::PingPong,
        3 => D::PingPongReverse,
        n => D::Unknown(n),
    };
    eq!("direction", format!("{g:?}"), format!("{w:?}"));
    Ok(())
}

pub fn slice(s: &SliceM, g: &ab::chunks::slice::SliceChunk<'_>) -> R {
    use ab::chunks::slice::SliceFlags as F;
    eq!("name", g.name, s.name.as_str());
    eq!("flag NINE_PATCH", g.flags.contains(F::NINE_PATCH), s.flags & 1 != 0);
    eq!("flag PIVOT", g.flags.contains(F::PIVOT), s.flags & 2 != 0);
    eq!("number of keys", g.slice_keys.len(), s.keys.len());
    for (i, (g, k)) in g.slice_keys.iter().zip(&s.keys).enumerate() {
        eq!(format!("key {i} frame"), g.frame_number, k.frame);
        eq!(format!("key {i} origin"), (g.x, g.y), (k.x, k.y));
        eq!(format!("key {i} size"), (g.width, g.height), (k.w, k.h));
        eq!(
            format!("key {i} nine-patch"),
            g.nine_patch.map(|n| (n.x, n.y, n.width, n.height)),
            (s.flags & 1 != 0).then_some(k.nine)
        );
        eq!(
            format!("key {i} pivot"),
            g.pivot.map(|p| (p.x, p.y)),
            (s.flags & 2 != 0).then_some(k.pivot)
        );
    }
    Ok(())
}

pub fn tags_and_slices(v: &FileView<'_>, g: &ab::file::File<'_>) -> R {
    eq!("number of tags", g.tags.len(), v.tags.len());
    for (i, (g, t)) in g.tags.iter().zip(&v.tags).enumerate() {
        tag(t.0, g).map_err(|e| format!("tag {i}: {e}"))?;
    }
    eq!("number of slices", g.slices.len(), v.slices.len());
    for (i, (g, s)) in g.slices.iter().zip(&v.slices).enumerate() {
        slice(s.0, g).map_err(|e| format!("slice {i}: {e}"))?;
    }
    Ok(())
}

pub fn palette_cmp(want: &Option<Vec<[u8; 4]>>, g: &Option<ab::palette::Palette>) -> R {
    match (want, g) {
        (None, None) => Ok(()),
        (Some(w), Some(g)) => {
            for (i, (w, g)) in w.iter().zip(&g.colors).enumerate() {
                eq!(format!("palette[{i}]"), [g.red, g.green, g.blue, g.alpha], *w);
            }
            Ok(())
        }
        (w, g) => Err(format!("palette present {}, expected {}", g.is_some(), w.is_some())),
    }
}

pub fn user_text(want: Option<&UserM>, g: Option<&ab::chunks::user_data::UserDataChunk<'_>>) -> R {
    match (want, g) {
        (None, None) => Ok(()),
        (Some(w), Some(g)) => user_plain(w, g),
        (w, g) => Err(format!("user data present {}, expected {}", g.is_some(), w.is_some())),
    }
}

pub fn user_plain(w: &UserM, g: &ab::chunks::user_data::UserDataChunk<'_>) -> R {
    eq!("user text", g.text, (w.flags & 1 != 0).then_some(w.text.as_str()));
    eq!(
        "user color",
        g.color.map(|c| [c.red, c.green, c.blue, c.alpha]),
        (w.flags & 2 != 0).then_some(w.color)
    );
    eq!("properties present", g.properties_maps.is_some(), w.flags & 4 != 0);
    Ok(())
}

type Att<'a, 'd> = Vec<(String, Option<&'d UserM>, Option<&'a ab::chunks::user_data::UserDataChunk<'a>>)>;

/// All objects that can bear user data: (name, expected, got).
pub fn attachments<'a, 'd>(v: &FileView<'d>, g: &'a ab::file::File<'a>) -> Att<'a, 'd> {
    let mut a: Att<'a, 'd> = vec![("sprite".into(), v.user, g.user_data.as_ref())];
    for (i, (g, w)) in g.layers.iter().zip(&v.layers).enumerate() {
        a.push((format!("layer {i}"), w.1, g.user_data.as_ref()));
    }
    for (i, (g, w)) in g.tags.iter().zip(&v.tags).enumerate() {
        a.push((format!("tag {i}"), w.1, g.user_data.as_ref()));
    }
    for (i, (g, w)) in g.slices.iter().zip(&v.slices).enumerate() {
        a.push((format!("slice {i}"), w.1, g.user_data.as_ref()));
    }
    for (i, (g, w)) in g.frames.iter().zip(&v.frames).enumerate() {
        for (j, (g, w)) in g.cels.iter().zip(&w.1).enumerate() {
            a.push((
                format!("frame {i} cel {j}"),
                w.and_then(|w| w.1),
                g.as_ref().and_then(|g| g.user_data.as_ref()),
            ));
        }
    }
    a
}

pub fn user_attachment(v: &FileView<'_>, g: &ab::file::File<'_>) -> R {
    eq!("number of layers", g.layers.len(), v.layers.len());
    eq!("number of tags", g.tags.len(), v.tags.len());
    eq!("number of slices", g.slices.len(), v.slices.len());
    eq!("number of frames", g.frames.len(), v.frames.len());
    for (n, w, g) in attachments(v, g) {
        user_text(w, g).map_err(|e| format!("{n}: {e}"))?;
    }
    Ok(())
}

// ------------------------------------------------------- user data properties

use ab::chunks::user_data::{PropertiesMap, Property, Value, Vector};

fn fx(v: u32) -> (u16, u16) {
    ((v >> 16) as u16, v as u16)
}
fn pt(p: &ab::scalars::Point) -> [i32; 2] {
    [p.x, p.y]
}
fn sz(p: &ab::scalars::Size) -> [i32; 2] {
    [p.width, p.height]
}
fn rc(r: &ab::scalars::Rect) -> [i32; 4] {
    [r.point.x, r.point.y, r.size.width, r.size.height]
}

pub fn props_of(w: &UserM, g: &ab::chunks::user_data::UserDataChunk<'_>) -> R {
    if w.flags & 4 == 0 {
        ensure!(g.properties_maps.is_none(), "properties invented");
        return Ok(());
    }
    let Some(g) = &g.properties_maps else {
        return Err("properties missing".into());
    };
    match (&w.props, g) {
        (Props::Maps(ms), Ok((_, gs))) => {
            eq!("number of maps", gs.len(), ms.len());
            for (i, (g, m)) in gs.iter().zip(ms).enumerate() {
                eq!(format!("map {i} key"), g.extension_entry_id, m.key);
                map(&m.props, &g.properties).map_err(|e| format!("map {i}: {e}"))?;
            }
            Ok(())
        }
        (Props::Maps(_), Err(e)) => Err(format!(
            "well-formed properties reported as malformed: {}",
            format!("{e:?}").chars().take(160).collect::<String>()
        )),
        (Props::Bad { .. }, Err(_)) => Ok(()),
        (Props::Bad { .. }, Ok(_)) => Err("malformed properties accepted".into()),
        (Props::Unjudged { .. }, _) => Ok(()),
    }
}

pub fn map(w: &[(String, PVal)], g: &[Property<'_>]) -> R {
    eq!("number of properties", g.len(), w.len());
    for (g, (n, v)) in g.iter().zip(w) {
        eq!("property name", g.name, n.as_str());
        value(v, &g.value).map_err(|e| {
            format!("property {:?}: {e}", n.chars().take(12).collect::<String>())
        })?;
    }
    Ok(())
}

fn nested(w: &[(String, PVal)], g: &PropertiesMap<'_>) -> R {
    map(w, &g.properties)
}

pub fn value(w: &PVal, g: &Value<'_>) -> R {
    match (w, g) {
        (PVal::Bool(w), Value::Bool(g)) => eq!("bool", *g, *w != 0),
        (PVal::I8(w), Value::Int8(g)) => eq!("i8", g, w),
        (PVal::U8(w), Value::Uint8(g)) => eq!("u8", g, w),
        (PVal::I16(w), Value::Int16(g)) => eq!("i16", g, w),
        (PVal::U16(w), Value::Uint16(g)) => eq!("u16", g, w),
        (PVal::I32(w), Value::Int32(g)) => eq!("i32", g, w),
        (PVal::U32(w), Value::Uint32(g)) => eq!("u32", g, w),
        (PVal::I64(w), Value::Int64(g)) => eq!("i64", g, w),
        (PVal::U64(w), Value::Uint64(g)) => eq!("u64", g, w),
        (PVal::Fixed(w), Value::Fixed(g)) => eq!("fixed", (g.0, g.1), fx(*w)),
        (PVal::F32(w), Value::Float(g)) => eq!("float", g.to_bits(), *w),
        (PVal::F64(w), Value::Double(g)) => eq!("double", g.to_bits(), *w),
        (PVal::Str(w), Value::String(g)) => eq!("string", *g, w.as_str()),
        (PVal::Point(w), Value::Point(g)) => eq!("point", pt(g), *w),
        (PVal::Size(w), Value::Size(g)) => eq!("size", sz(g), *w),
        (PVal::Rect(w), Value::Rect(g)) => eq!("rect", rc(g), *w),
        (PVal::Uuid(w), Value::Uuid(g)) => eq!("uuid", g.to_le_bytes(), *w),
        (PVal::Map(w), Value::PropertiesMap(g)) => return nested(w, g),
        (PVal::Vector(t, w), Value::Vector(g)) => return vector(*t, w, g),
        (PVal::Vector(0, w), Value::MixedVector(g)) => {
            eq!("vector length", g.len(), w.len());
            for (w, g) in w.iter().zip(g) {
                value(w, g)?;
            }
        }
        (w, g) => {
            let cut = |s: String| s.chars().take(100).collect::<String>();
            return Err(format!("value: got {}, expected {}", cut(format!("{g:?}")), cut(format!("{w:?}"))));
        }
    }
    Ok(())
}

pub fn vector(t: u16, w: &[PVal], g: &Vector<'_>) -> R {
    macro_rules! each {
        ($g:expr, $($p:pat => $a:expr, $b:expr);*) => {{
            eq!("vector length", $g.len(), w.len());
            for (i, (w, g)) in w.iter().zip($g.iter()).enumerate() {
                let _ = &g;
                match (w, g) { $($p => eq!(format!("vector[{i}]"), $a, $b),)* _ => return Err("reference vector not uniform".into()) }
            }
            Ok(())
        }};
    }
    let same = |want: u16| -> R {
        if t != want {
            return Err(format!("vector element type: got {want}, expected {t}"));
        }
        Ok(())
    };
    match g {
        Vector::Mixed(g) => {
            same(0)?;
            eq!("vector length", g.len(), w.len());
            for (i, (w, g)) in w.iter().zip(g).enumerate() {
                value(w, g).map_err(|e| format!("vector[{i}]: {e}"))?;
            }
            Ok(())
        }
        Vector::Bool(g) => {
            same(1)?;
            each!(g, (PVal::Bool(w), g) => *g, *w != 0)
        }
        Vector::Int8(g) => {
            same(2)?;
            each!(g, (PVal::I8(w), g) => *g, *w)
        }
        Vector::Uint8(g) => {
            same(3)?;
            each!(g, (PVal::U8(w), g) => *g, *w)
        }
        Vector::Int16(g) => {
            same(4)?;
            each!(g, (PVal::I16(w), g) => *g, *w)
        }
        Vector::Uint16(g) => {
            same(5)?;
            each!(g, (PVal::U16(w), g) => *g, *w)
        }
        Vector::Int32(g) => {
            same(6)?;
            each!(g, (PVal::I32(w), g) => *g, *w)
        }
        Vector::Uint32(g) => {
            same(7)?;
            each!(g, (PVal::U32(w), g) => *g, *w)
        }
        Vector::Int64(g) => {
            same(8)?;
            each!(g, (PVal::I64(w), g) => *g, *w)
        }
        Vector::Uint64(g) => {
            same(9)?;
            each!(g, (PVal::U64(w), g) => *g, *w)
        }
        Vector::Fixed(g) => {
            same(10)?;
            each!(g, (PVal::Fixed(w), g) => (g.0, g.1), fx(*w))
        }
        Vector::Float(g) => {
            same(11)?;
            each!(g, (PVal::F32(w), g) => g.to_bits(), *w)
        }
        Vector::Double(g) => {
            same(12)?;
            each!(g, (PVal::F64(w), g) => g.to_bits(), *w)
        }
        Vector::String(g) => {
            same(13)?;
            each!(g, (PVal::Str(w), g) => *g, w.as_str())
        }
        Vector::Point(g) => {
            same(14)?;
            each!(g, (PVal::Point(w), g) => pt(g), *w)
        }
        Vector::Size(g) => {
            same(15)?;
            each!(g, (PVal::Size(w), g) => sz(g), *w)
        }
        Vector::Rect(g) => {
            same(16)?;
            each!(g, (PVal::Rect(w), g) => rc(g), *w)
        }
        Vector::Uuid(g) => {
            same(19)?;
            each!(g, (PVal::Uuid(w), g) => g.to_le_bytes(), *w)
        }
        Vector::Vector(g) => {
            same(17)?;
            eq!("vector length", g.len(), w.len());
            for (i, (w, g)) in w.iter().zip(g).enumerate() {
                match w {
                    PVal::Vector(t, w) => vector(*t, w, g).map_err(|e| format!("vector[{i}]: {e}"))?,
                    _ => return Err("reference vector not uniform".into()),
                }
            }
            Ok(())
        }
        Vector::PropertiesMap(g) => {
            same(18)?;
            eq!("vector length", g.len(), w.len());
            for (i, (w, g)) in w.iter().zip(g).enumerate() {
                match w {
                    PVal::Map(w) => nested(w, g).map_err(|e| format!("vector[{i}]: {e}"))?,
                    _ => return Err("reference vector not uniform".into()),
                }
            }
            Ok(())
        }
    }
}

// -------------------------------------------------------------- other chunks

fn packets(w: &[Packet], g: &ab::chunks::old_palette::OldPaletteChunk) -> R {
    eq!("number of packets", g.packets.len(), w.len());
    for (i, (g, w)) in g.packets.iter().zip(w).enumerate() {
        eq!(format!("packet {i} skip"), g.entries_to_skip, w.skip);
        let got: Vec<[u8; 3]> = g.colors.iter().map(|c| [c.red, c.green, c.blue]).collect();
        eq!(format!("packet {i} colors"), got, w.colors);
    }
    Ok(())
}

/// Chunks that no other view covers, compared at the raw level.
pub fn aux_chunk(b: &Body, g: &ab::chunk::Chunk<'_>) -> R {
    use ab::chunk::Chunk as C;
    use ab::chunks::color_profile::ColorProfile as CP;
    use ab::chunks::external_files::ExternalFileType as ET;
    match (b, g) {
        (Body::Pal4(w), C::Palette0004(g)) | (Body::Pal11(w), C::Palette0011(g)) => packets(w, g),
        (Body::Palette(w), C::Palette(g)) => {
            eq!("palette range", (*g.indices.start(), *g.indices.end()), (w.first as u8, w.last as u8));
            eq!("number of palette entries", g.entries.len(), w.entries.len());
            for (i, (g, e)) in g.entries.iter().zip(&w.entries).enumerate() {
                eq!(
                    format!("palette entry {i} color"),
                    [g.color.red, g.color.green, g.color.blue, g.color.alpha],
                    e.color
                );
                eq!(
                    format!("palette entry {i} name"),
                    g.name,
                    (e.flags & 1 != 0).then_some(e.name.as_str())
                );
            }
            Ok(())
        }
        (Body::CelExtra(w), C::CelExtra(g)) => {
            use ab::chunks::cel_extra::CelExtraFlags as F;
            eq!(
                "cel extra flag",
                g.flags.contains(F::PRECISE_BOUNDS_ARE_SET),
                w.flags & 1 != 0
            );
            let got = [
                (g.precise_x_position.0, g.precise_x_position.1),
                (g.precise_y_position.0, g.precise_y_position.1),
                (g.width_of_the_cel.0, g.width_of_the_cel.1),
                (g.height_of_the_cel.0, g.height_of_the_cel.1),
            ];
            eq!("cel extra bounds", got, w.vals.map(fx));
            eq!("cel extra future", g.future, w.rest.as_slice());
            Ok(())
        }
        (Body::Profile(w), C::ColorProfile(g)) => {
            eq!(
                "fixed gamma",
                g.fixed_gamma.map(|f| (f.0, f.1)),
                (w.flags & 1 != 0).then_some(fx(w.gamma))
            );
            match (&g.profile, w.kind) {
                (CP::NoColorProfile, 0) | (CP::Srgb, 1) => {}
                (CP::EmbeddedICC(d), 2) => eq!("ICC profile", *d, w.icc.as_slice()),
                (CP::Unknown(n), k) if *n == k && k > 2 => {}
                (g, k) => {
                    let g: String = format!("{g:?}").chars().take(80).collect();
                    return Err(format!("profile type: got {g}, expected code {k}"));
                }
            }
            Ok(())
        }
        (Body::External(_, w), C::ExternalFiles(g)) => {
            eq!("number of external files", g.files.len(), w.len());
            for (i, (g, w)) in g.files.iter().zip(w).enumerate() {
                eq!(format!("external file {i} id"), g.entry_id, w.id);
                let ok = match g.file_type {
                    ET::ExternalPalette => w.kind == 0,
                    ET::ExternalTileset => w.kind == 1,
                    ET::ExtensionNameForProperties => w.kind == 2,
                    ET::Unknown(n) => n == w.kind && w.kind > 2,
                };
                ensure!(ok, "external file {i} type: got {:?}, expected code {}", g.file_type, w.kind);
                eq!(format!("external file {i} name"), g.file_name, w.name.as_str());
            }
            Ok(())
        }
        (Body::Mask(w), C::Mask(g)) => {
            eq!("mask origin", (g.x, g.y), (w.x, w.y));
            eq!("mask size", (g.width, g.height), (w.w, w.h));
            eq!("mask name", g.name, w.name.as_str());
            eq!("mask data", g.data, w.data.as_slice());
            Ok(())
        }
        (Body::Tileset(w), C::Tileset(g)) => {
            use ab::chunks::tileset::TilesetFlags as F;
            eq!("tileset id", g.id, w.id);
            for (name, f, bit) in [
                ("EXTERNAL_FILE", F::EXTERNAL_FILE, 1u32),
                ("TILES", F::TILES, 2),
                ("TILE_0_EMPTY", F::TILE_0_EMPTY, 4),
                ("XFLIP", F::XFLIP, 8),
                ("YFLIP", F::YFLIP, 16),
                ("DFLIP", F::DFLIP, 32),
            ] {
                eq!(format!("tileset flag {name}"), g.flags.contains(f), w.flags & bit != 0);
            }
            eq!("tileset tiles", g.number_of_tiles, w.n);
            eq!("tile size", (g.width, g.height), (w.w, w.h));
            eq!("tileset base index", g.base_index, w.base);
            eq!("tileset name", g.name, w.name.as_str());
            eq!(
                "tileset external file",
                g.external_file.map(|e| [e.external_file_id, e.tileset_id]),
                (w.flags & 1 != 0).then_some(w.ext)
            );
            eq!(
                "tileset data",
                g.tiles.as_ref().map(|t| t.data),
                (w.flags & 2 != 0).then_some(w.data.as_slice())
            );
            Ok(())
        }
        _ => Ok(()),
    }
}

pub fn all_aux(doc: &Doc, raw: &ab::raw_file::RawFile<'_>) -> R {
    eq!("number of frames", raw.frames.len(), doc.frames.len());
    for (i, (g, f)) in raw.frames.iter().zip(&doc.frames).enumerate() {
        eq!(format!("frame {i} number of chunks"), g.chunks.len(), f.chunks.len());
        for (j, (g, c)) in g.chunks.iter().zip(&f.chunks).enumerate() {
            eq!(format!("frame {i} chunk {j} type"), chunk_code(g), c.body.code());
            aux_chunk(&c.body, g).map_err(|e| format!("frame {i} chunk {j}: {e}"))?;
        }
    }
    Ok(())
}

/// A chunk of any kind.
pub fn any_chunk(b: &Body, g: &ab::chunk::Chunk<'_>) -> R {
    use ab::chunk::Chunk as C;
    eq!("chunk type", chunk_code(g), b.code());
    match (b, g) {
        (Body::Layer(w), C::Layer(g)) => layer(w, g),
        (Body::Cel(w), C::Cel(g)) => cel(w, g),
        (Body::Tags(_, w), C::Tags(g)) => {
            eq!("number of tags", g.tags.len(), w.len());
            w.iter().zip(&g.tags).try_for_each(|(w, g)| tag(w, g))
        }
        (Body::Slice(w), C::Slice(g)) => slice(w, g),
        (Body::User(w), C::UserData(g)) => user_plain(w, g).and_then(|_| props_of(w, g)),
        (w, g) => aux_chunk(w, g),
    }
}

/// Everything the raw level shows, including layers, cels and user data.
pub fn raw_all(doc: &Doc, raw: &ab::raw_file::RawFile<'_>) -> R {
    header(&doc.head, &raw.header)?;
    structure(doc, raw)?;
    for (i, (g, f)) in raw.frames.iter().zip(&doc.frames).enumerate() {
        for (j, (g, c)) in g.chunks.iter().zip(&f.chunks).enumerate() {
            any_chunk(&c.body, g).map_err(|e| format!("frame {i} chunk {j}: {e}"))?;
        }
        let cels: Vec<_> = f
            .chunks
            .iter()
            .filter_map(|c| if let Body::Cel(c) = &c.body { Some(c) } else { None })
            .collect();
        eq!(format!("frame {i} cels()"), g.cels().count(), cels.len());
        for (g, w) in g.cels().zip(cels) {
            cel(w, g)?;
        }
    }
    Ok(())
}

/// Everything the file level shows.
pub fn file_all(doc: &Doc, v: &FileView<'_>, g: &ab::file::File<'_>) -> R {
    header(&doc.head, &g.header)?;
    palette_cmp(&v.palette, &g.palette)?;
    layers_and_cels(v, g)?;
    for (i, (g, f)) in g.frames.iter().zip(&v.frames).enumerate() {
        eq!(format!("frame {i} duration"), g.duration, f.0);
    }
    tags_and_slices(v, g)?;
    user_attachment(v, g)?;
    props_all(v, g)
}

pub fn props_all(v: &FileView<'_>, g: &ab::file::File<'_>) -> R {
    for (n, w, g) in attachments(v, g) {
        if let (Some(w), Some(g)) = (w, g) {
            props_of(w, g).map_err(|e| format!("{n}: {e}"))?;
        }
    }
    Ok(())
}

// ------------------------------------------------------------- loader level

pub fn loader(doc: &Doc, v: &FileView<'_>, lv: &LoadView<'_>, g: &al::AsepriteFile<'_>) -> R {
    eq!("size", g.size(), (doc.head.width, doc.head.height));
    eq!("number of layers", g.layers().len(), lv.layers.len());
    for (i, (g, l)) in g.layers().iter().zip(&lv.layers).enumerate() {
        let p = |f: &str| format!("layer {i} {f}");
        eq!(p("name"), g.name, l.m.name);
        eq!(p("blend mode"), g.blend_mode, blend_mode(l.m.blend));
        eq!(p("type"), g.layer_type, layer_type(l.m.kind));
        eq!(p("opacity"), g.opacity, l.opacity);
        eq!(p("visible"), g.visible, l.visible);
    }
    eq!("number of tags", g.tags().len(), v.tags.len());
    for (i, (g, (t, _))) in g.tags().iter().zip(&v.tags).enumerate() {
        let p = |f: &str| format!("tag {i} {f}");
        eq!(p("name"), g.name, t.name);
        eq!(p("range"), g.range, t.from..=t.to);
        direction(t.dir, &g.direction).map_err(|e| p(&e))?;
        eq!(p("repeat"), g.repeat, (t.repeat > 0).then_some(t.repeat));
    }
    eq!("number of slices", g.slices().len(), v.slices.len());
    for (i, (g, s)) in g.slices().iter().zip(&v.slices).enumerate() {
        slice(s.0, g).map_err(|e| format!("slice {i}: {e}"))?;
    }
    eq!("image_count", g.image_count(), g.images.len());
    eq!("number of frames", g.frames().len(), lv.frames.len());
    for (i, (g_f, (dur, cels))) in g.frames().iter().zip(&lv.frames).enumerate() {
        eq!(format!("frame {i} duration"), g_f.duration, *dur);
        eq!(format!("frame {i} origin"), g_f.origin, (0, 0));
        eq!(format!("frame {i} number of cels"), g_f.cels.len(), cels.len());
        // one cel per layer: match them by layer, the order is judged by rendering
        for c in cels {
            let p = |f: &str| format!("frame {i} layer {} {f}", c.layer);
            let mut it = g_f.cels.iter().filter(|g| g.layer_index == c.layer);
            let Some(gc) = it.next() else {
                return Err(p("cel missing"));
            };
            ensure!(it.next().is_none(), "{}", p("cel duplicated"));
            eq!(p("origin"), gc.origin, (c.m.x, c.m.y));
            eq!(p("opacity"), gc.opacity, c.m.opacity);
            eq!(p("size"), gc.size, c.size);
            let Some(img) = g.images.get(gc.image_index) else {
                return Err(p("image index out of range"));
            };
            let (w, h, data, zip) = match &c.image.content {
                Content::Raw { w, h, data } => (*w, *h, data, false),
                Content::Zip { w, h, data } => (*w, *h, data, true),
                _ => unreachable!(),
            };
            eq!(p("image size"), (img.width, img.height), (w, h));
            eq!(p("image compressed"), img.compressed, zip);
            eq!(p("image data"), img.data, data.as_slice());
            // the very image of the cel that holds it, not a look-alike
            let holder = g.file.frames[c.image_frame].cels[c.file_layer].as_ref();
            if let Some(ab::chunks::cel::CelContent::Image(h)) = holder.map(|h| &h.content) {
                ensure!(
                    h.data.as_ptr() == img.data.as_ptr(),
                    "{}",
                    p("refers to another image than the one it shows")
                );
            } else {
                return Err(p("holder has no image"));
            }
        }
    }
    // same image <=> same index
    let mut seen: std::collections::HashMap<(usize, usize), usize> = Default::default();
    let mut used: std::collections::HashMap<usize, (usize, usize)> = Default::default();
    for (g_f, (_, cels)) in g.frames().iter().zip(&lv.frames) {
        for c in cels {
            let gc = g_f.cels.iter().find(|g| g.layer_index == c.layer).unwrap();
            let key = (c.image_frame, c.file_layer);
            let idx = *seen.entry(key).or_insert(gc.image_index);
            eq!("image index of linked cels", gc.image_index, idx);
            let k = *used.entry(gc.image_index).or_insert(key);
            eq!("image shared by unrelated cels", k, key);
        }
    }
    Ok(())
}
