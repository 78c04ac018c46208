//! Corruption of encoded files, guided by the map of their fields.

use crate::encode::{Kind, Span};
use crate::src::Src;

pub const MUTATIONS: usize = 9;

fn put(b: &mut [u8], sp: &Span, v: u64) {
    for i in 0..sp.len.min(8) {
        if let Some(x) = b.get_mut(sp.off + i) {
            *x = (v >> (8 * i)) as u8;
        }
    }
}

fn get(b: &[u8], sp: &Span) -> u64 {
    (0..sp.len.min(8)).fold(0, |v, i| v | u64::from(b.get(sp.off + i).copied().unwrap_or(0)) << (8 * i))
}

/// One corruption; returns what kind it was.
pub fn mutate(s: &mut Src<'_>, b: &mut Vec<u8>, spans: &[Span]) -> &'static str {
    if b.is_empty() {
        b.push(s.byte());
        return "grown from nothing";
    }
    let fields: Vec<&Span> =
        spans.iter().filter(|x| !matches!(x.kind, Kind::Str | Kind::Payload) && x.off + x.len <= b.len()).collect();
    let how = s.weighted(&[6, 6, 2, 2, 2, 2, 1, 2, 2]);
    match how {
        0 | 1 if !fields.is_empty() => {
            let sp = *fields[s.below(fields.len())];
            let old = get(b, &sp);
            let v = match s.weighted(&[3, 3, 2, 3, 1]) {
                0 => old.wrapping_add(s.pick(&[1u64, u64::MAX, 2, u64::MAX - 1, 4, 6, 16])),
                1 => s.pick(&[
                    0u64, 1, 2, 3, 4, 5, 6, 7, 8, 9, 255, 256, 65535, 0x7fff_ffff, 0xffff_ffff, 0x8000_0000, 0x8000,
                ]),
                2 => old ^ (1 << s.below(sp.len * 8)),
                4 => s.literal(u32::MAX as usize).unwrap_or(0) as u64,
                _ => match sp.len {
                    1 => s.u8b().into(),
                    2 => s.u16b().into(),
                    _ => s.u32b().into(),
                },
            };
            put(b, &sp, v);
            "field"
        }
        2 => {
            let n = s.below(b.len());
            b.truncate(n);
            "truncated"
        }
        3 => {
            let at = s.below(b.len());
            b[at] ^= 1 << s.below(8);
            "bit flip"
        }
        4 => {
            let at = s.below(b.len());
            let n = (1 + s.below(8)).min(b.len() - at);
            b.drain(at..at + n);
            "bytes removed"
        }
        5 => {
            let at = s.below(b.len() + 1);
            let x = s.bytes(12);
            b.splice(at..at, x);
            "bytes inserted"
        }
        6 => {
            let x = match s.below(4) {
                0 => s.bytes(40),
                1 | 2 => {
                    // padding
                    let (with, n) = (s.pick(&[0u8, 0xff, 0x20, 0x1a]), s.pick(&[0usize, 15, 1, 3, 5, 7]));
                    vec![with; if n == 0 { 1 + s.below(128) } else { n + 1 }]
                }
                _ => {
                    // the beginning or the end of the file once more
                    let n = (1 + s.below(160)).min(b.len());
                    if s.bool() {
                        b[..n].to_vec()
                    } else {
                        b[b.len() - n..].to_vec()
                    }
                }
            };
            b.extend(x);
            "bytes appended"
        }
        7 => {
            // bytes of a string made invalid UTF-8, or any byte changed
            let strs: Vec<&Span> =
                spans.iter().filter(|x| x.kind == Kind::Str && x.len > 0 && x.off + x.len <= b.len()).collect();
            if strs.is_empty() {
                let at = s.below(b.len());
                b[at] = s.byte();
                return "byte";
            }
            let sp = strs[s.below(strs.len())];
            let at = sp.off + s.below(sp.len);
            b[at] = s.pick(&[0x80u8, 0xff, 0xc0, 0xed, 0xf5, 0xe2]);
            "string byte"
        }
        _ => {
            // copy a block of the file over or into another place
            let from = s.below(b.len());
            let n = (1 + s.below(64)).min(b.len() - from);
            let blk = b[from..from + n].to_vec();
            let at = s.below(b.len());
            if s.bool() {
                b.splice(at..at, blk);
            } else {
                let n = n.min(b.len() - at);
                b[at..at + n].copy_from_slice(&blk[..n]);
            }
            "spliced"
        }
    }
}

/// Repair the sizes of the enclosing chunk and frame after `delta` bytes were
/// added to (or removed from) chunk (frame, chunk) -- so that a corruption
/// reaches the parser of the chunk instead of dying at the framing.
pub fn resize(b: &mut [u8], spans: &[Span], frame: usize, chunk: usize, delta: i64) {
    for sp in spans {
        let hit = match sp.kind {
            Kind::FrameSize => sp.frame == frame,
            Kind::ChunkSize => sp.frame == frame && sp.chunk == chunk,
            _ => false,
        };
        if hit && sp.off + 4 <= b.len() {
            let v = get(b, sp) as i64 + delta;
            put(b, sp, v as u64);
        }
    }
}

/// Corrupt and then repair the framing: remove or insert bytes inside the body
/// of one chunk, with the sizes kept consistent.
pub fn reshape(s: &mut Src<'_>, b: &mut Vec<u8>, spans: &[Span]) -> &'static str {
    let chunks: Vec<&Span> = spans.iter().filter(|x| x.kind == Kind::ChunkSize).collect();
    if chunks.is_empty() {
        return "nothing";
    }
    let c = *chunks[s.below(chunks.len())];
    let size = get(b, &c) as usize;
    let body = c.off + 6..(c.off + size).min(b.len());
    if s.bool() && !body.is_empty() {
        // shorten: from the end (the record is cut) or anywhere
        let n = if s.bool() { (1 + s.below(6)).min(body.len()) } else { 1 + s.below(body.len()) };
        let at = if s.bool() { body.end - n } else { body.start + s.below(body.len() - n + 1) };
        b.drain(at..at + n);
        resize(b, spans_before(spans, at), c.frame, c.chunk, -(n as i64));
        "chunk shortened"
    } else {
        let x = s.bytes(16);
        let at = body.start + s.below(body.len() + 1);
        let n = x.len();
        b.splice(at..at, x);
        resize(b, spans_before(spans, at), c.frame, c.chunk, n as i64);
        "chunk lengthened"
    }
}

fn spans_before(spans: &[Span], at: usize) -> &[Span] {
    let n = spans.iter().position(|x| x.off + x.len > at && !matches!(x.kind, Kind::Str | Kind::Payload)).unwrap_or(spans.len());
    &spans[..n]
}
