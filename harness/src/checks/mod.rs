//! The properties: families of generated cases, each with its oracle.

pub mod cost;
pub mod errors;
pub mod image;
pub mod load;
pub mod parse;
#[cfg(feature = "parts")]
pub mod parts;
pub mod picture;
pub mod pure;
pub mod robust;
pub mod vast;

use crate::model::*;
use crate::runner::{guard, Ctx, Prop};
use aseprite_loader::binary::{self as ab, errors::ParseError};
use aseprite_loader::loader as al;

/// The same family with larger documents (see `Src::grow`).
macro_rules! large {
    ($name:ident, $of:expr) => {
        fn $name(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
            s.grow();
            super::grown(s, ctx);
            $of(s, ctx)
        }
    };
}
pub(crate) use large;

fn grown(s: &crate::src::Src<'_>, ctx: &mut Ctx) {
    let g = s.grow;
    ctx.label_if(g.layers > 1, "large: layers");
    ctx.label_if(g.frames > 1, "large: frames");
    ctx.label_if(g.counts > 1, "large: counts");
    ctx.label_if(g.bytes > 1, "large: payloads");
    ctx.label_if(g.strings, "large: strings");
    ctx.label_if(g.deep, "large: nesting");
}

pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(robust::props());
    v.extend(cost::props());
    v.extend(errors::props());
    v.extend(parse::props());
    #[cfg(feature = "parts")]
    v.extend(parts::props());
    v.extend(load::props());
    v.extend(image::props());
    v.extend(picture::props());
    v.extend(pure::props());
    v.sort_by_key(|p| p.id);
    v
}

/// A parse error without the input that nom puts into it.
pub fn why(e: nom::Err<ParseError<'_>>) -> String {
    match e {
        nom::Err::Error(ParseError::Nom(e)) | nom::Err::Failure(ParseError::Nom(e)) => {
            format!("nom {:?} with {} bytes left", e.code, e.input.len())
        }
        nom::Err::Error(e) | nom::Err::Failure(e) => format!("{e:?}").chars().take(120).collect(),
        nom::Err::Incomplete(_) => "incomplete".into(),
    }
}

/// Outer error: panic. Inner error: rejected.
pub fn raw(b: &[u8]) -> Result<Result<ab::raw_file::RawFile<'_>, String>, String> {
    guard("parse_raw_file", || ab::raw_file::parse_raw_file(b).map_err(why))
}
pub fn file(b: &[u8]) -> Result<Result<ab::file::File<'_>, String>, String> {
    guard("parse_file", || ab::file::parse_file(b).map_err(why))
}
pub fn load(b: &[u8]) -> Result<Result<al::AsepriteFile<'_>, String>, String> {
    guard("load", || {
        al::AsepriteFile::load(b).map_err(|e| match e {
            al::LoadSpriteError::Parse { message } => message.chars().take(100).collect(),
            e => e.to_string(),
        })
    })
}

/// The same for files that must be accepted.
pub fn raw_ok(b: &[u8]) -> Result<ab::raw_file::RawFile<'_>, String> {
    raw(b)?.map_err(|e| format!("well-formed file rejected at the raw level: {e}"))
}
pub fn file_ok(b: &[u8]) -> Result<ab::file::File<'_>, String> {
    file(b)?.map_err(|e| format!("well-formed file rejected at the file level: {e}"))
}
pub fn load_ok(b: &[u8]) -> Result<al::AsepriteFile<'_>, String> {
    load(b)?.map_err(|e| format!("well-formed file rejected by the loader: {e}"))
}

pub fn show(ctx: &mut Ctx, doc: &Doc, bytes: &[u8]) {
    ctx.describe(|| doc.describe());
    ctx.input(bytes);
}

/// A reference result that a generated document must have.
pub fn must<T>(r: Result<T, String>) -> T {
    match r {
        Ok(v) => v,
        Err(e) => panic!("generator produced an invalid document: {e}"),
    }
}

pub fn decode_image(f: &al::AsepriteFile<'_>, i: usize, buf: &mut [u8]) -> Result<Result<(), String>, String> {
    guard("load_image", || f.load_image(i, buf).map_err(|e| e.to_string()))
}

pub fn render_frame(
    f: &al::AsepriteFile<'_>,
    i: usize,
    buf: &mut [u8],
    sel: &al::LayerSelection,
) -> Result<Result<(), String>, String> {
    guard("render_frame", || f.render_frame(i, buf, sel).map_err(|e| e.to_string()))
}

#[allow(deprecated)]
pub fn combined(f: &al::AsepriteFile<'_>, i: usize, buf: &mut [u8]) -> Result<Result<u64, String>, String> {
    guard("combined_frame_image", || f.combined_frame_image(i, buf).map_err(|e| e.to_string()))
}

pub fn canvas(doc: &Doc) -> usize {
    usize::from(doc.head.width) * usize::from(doc.head.height) * 4
}
