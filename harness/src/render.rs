//! Reference decoding of images and composition of frames.

use crate::blend;
use crate::model::*;
use crate::view::{stored_palette, LoadView};

/// Bytes of an image of the given area, or why there are none.
pub fn inflate(data: &[u8], n: usize) -> Result<Vec<u8>, String> {
    let mut out = vec![0u8; n + 64];
    let mut d = flate2::Decompress::new(true);
    match d.decompress(data, &mut out, flate2::FlushDecompress::Finish) {
        Ok(flate2::Status::StreamEnd) if d.total_out() == n as u64 => {
            out.truncate(n);
            Ok(out)
        }
        Ok(flate2::Status::StreamEnd) => Err(format!("{} bytes instead of {n}", d.total_out())),
        Ok(_) => Err("stream incomplete or too long".into()),
        Err(e) => Err(e.to_string()),
    }
}

pub fn area(c: &Content) -> usize {
    match c {
        Content::Raw { w, h, .. } | Content::Zip { w, h, .. } => usize::from(*w) * usize::from(*h),
        _ => 0,
    }
}

/// The RGBA pixels of an image.
pub fn image(depth: u16, pal: Option<&[[u8; 4]]>, c: &Content) -> Result<Vec<u8>, String> {
    let px = match depth {
        32 => 4,
        16 => 2,
        8 => 1,
        n => return Err(format!("colour depth {n}")),
    };
    let n = area(c) * px;
    let inflated;
    let data: &[u8] = match c {
        Content::Raw { data, .. } if data.len() == n => data,
        Content::Raw { data, .. } => return Err(format!("{} bytes instead of {n}", data.len())),
        Content::Zip { data, .. } => {
            inflated = inflate(data, n)?;
            &inflated
        }
        _ => return Err("no image".into()),
    };
    Ok(match depth {
        32 => data.to_vec(),
        16 => data.chunks(2).flat_map(|c| [c[0], c[0], c[0], c[1]]).collect(),
        _ => {
            let pal = pal.ok_or("no palette")?;
            data.iter().flat_map(|i| pal[usize::from(*i)]).collect()
        }
    })
}

/// How pixels of the transparent index look on the background layer.
#[derive(Clone, Copy, PartialEq)]
pub enum Background {
    /// As stored in the palette: what the format says.
    Opaque,
    /// Transparent as on all other layers.
    SeeThrough,
}

pub struct Rendered {
    /// canvas pixels that some drawn cel covers
    pub covered: Vec<bool>,
    /// pixels where more than one cel was composited
    pub overlaps: usize,
    pub drawn: usize,
    pub clipped: bool,
}

/// Composite a frame onto `buf` (canvas size, RGBA).
pub fn frame(
    doc: &Doc,
    lv: &LoadView<'_>,
    frame: usize,
    selected: &dyn Fn(usize) -> bool,
    bg: Background,
    buf: &mut [u8],
) -> Result<Rendered, String> {
    let (w, h) = (i64::from(doc.head.width), i64::from(doc.head.height));
    let area = (w * h) as usize;
    let mut r = Rendered { covered: vec![false; area], overlaps: 0, drawn: 0, clipped: false };
    for c in &lv.frames[frame].1 {
        let l = &lv.layers[c.layer];
        if l.m.kind != 0 || !selected(c.layer) {
            continue;
        }
        if l.m.blend > 18 {
            return Err(format!("blend mode {}", l.m.blend));
        }
        let stored;
        let pal = match bg {
            Background::Opaque if l.m.flags & 8 != 0 => {
                stored = stored_palette(doc)?;
                stored.as_deref()
            }
            _ => lv.palette.as_deref(),
        };
        let px = image(doc.head.depth, pal, &c.image.content)?;
        let opacity = blend::mul(l.opacity.into(), c.m.opacity.into()) as u8;
        r.drawn += 1;
        let (cw, ch) = (i64::from(c.size.0), i64::from(c.size.1));
        for y in 0..ch {
            let ty = y + i64::from(c.m.y);
            for x in 0..cw {
                let tx = x + i64::from(c.m.x);
                if tx < 0 || tx >= w || ty < 0 || ty >= h {
                    r.clipped = true;
                    continue;
                }
                let t = (ty * w + tx) as usize;
                let s = ((y * cw + x) * 4) as usize;
                let back: [u8; 4] = buf[4 * t..4 * t + 4].try_into().unwrap();
                let front: [u8; 4] = px[s..s + 4].try_into().unwrap();
                buf[4 * t..4 * t + 4].copy_from_slice(&blend::blend(l.m.blend, back, front, opacity));
                if r.covered[t] {
                    r.overlaps += 1;
                }
                r.covered[t] = true;
            }
        }
    }
    Ok(r)
}

/// The canvas pixels that the drawn cels cover, whatever their images.
pub fn coverage(doc: &Doc, lv: &LoadView<'_>, frame: usize, selected: &dyn Fn(usize) -> bool) -> Vec<bool> {
    let (w, h) = (i64::from(doc.head.width), i64::from(doc.head.height));
    let mut v = vec![false; (w * h) as usize];
    for c in &lv.frames[frame].1 {
        if lv.layers[c.layer].m.kind != 0 || !selected(c.layer) {
            continue;
        }
        let span = |o: i16, n: u16, max: i64| i64::from(o).clamp(0, max)..(i64::from(o) + i64::from(n)).clamp(0, max);
        for y in span(c.m.y, c.size.1, h) {
            for x in span(c.m.x, c.size.0, w) {
                v[(y * w + x) as usize] = true;
            }
        }
    }
    v
}

/// No image, canvas or cel larger than this many pixels is ever decoded.
pub const AREA_LIMIT: usize = 1 << 20;

pub fn small(doc: &Doc) -> bool {
    let a = |w: u16, h: u16| usize::from(w) * usize::from(h);
    a(doc.head.width, doc.head.height) <= AREA_LIMIT
        && doc.chunks().all(|c| match &c.body {
            Body::Cel(c) => area(&c.content) <= AREA_LIMIT,
            _ => true,
        })
}
