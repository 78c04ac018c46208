//! Reference decoder: bytes -> document model, or the reason why the bytes are
//! not a well-formed file. Written from the format description; shares nothing
//! with the parser under test.

use crate::model::*;

pub type R<T> = Result<T, String>;

/// The reference does not judge property blocks nested deeper than this.
pub const MAX_JUDGED_DEPTH: usize = 60;
const TOO_DEEP: &str = "too deep to judge";

struct Rd<'a>(&'a [u8]);

impl<'a> Rd<'a> {
    fn take(&mut self, n: usize) -> R<&'a [u8]> {
        if n > self.0.len() {
            return Err(format!("{n} bytes wanted, {} left", self.0.len()));
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Ok(a)
    }
    fn arr<const N: usize>(&mut self) -> R<[u8; N]> {
        Ok(self.take(N)?.try_into().unwrap())
    }
    fn b(&mut self) -> R<u8> {
        Ok(self.take(1)?[0])
    }
    fn w(&mut self) -> R<u16> {
        Ok(u16::from_le_bytes(self.arr()?))
    }
    fn d(&mut self) -> R<u32> {
        Ok(u32::from_le_bytes(self.arr()?))
    }
    fn i16(&mut self) -> R<i16> {
        Ok(self.w()? as i16)
    }
    fn i32(&mut self) -> R<i32> {
        Ok(self.d()? as i32)
    }
    fn str(&mut self) -> R<String> {
        let n = self.w()?.into();
        let s = self.take(n)?;
        Ok(std::str::from_utf8(s).map_err(|e| format!("string: {e}"))?.to_string())
    }
    fn rest(&mut self) -> Vec<u8> {
        std::mem::take(&mut self.0).to_vec()
    }
}

pub fn decode(bytes: &[u8]) -> R<Doc> {
    let mut r = Rd(bytes);
    let mut h = Rd(r.take(128)?);
    let file_size = h.d()?;
    if h.w()? != 0xA5E0 {
        return Err("file magic".into());
    }
    let (frames, width, height, depth) = (h.w()?, h.w()?, h.w()?, h.w()?);
    let flags = h.d()?;
    let speed = h.w()?;
    if h.take(8)?.iter().any(|b| *b != 0) {
        return Err("fields that must be zero".into());
    }
    let head = Head {
        file_size,
        frames,
        width,
        height,
        depth,
        flags,
        speed,
        transparent: h.b()?,
        ignore: h.arr()?,
        colors: h.w()?,
        pixel_w: h.b()?,
        pixel_h: h.b()?,
        grid_x: h.i16()?,
        grid_y: h.i16()?,
        grid_w: h.w()?,
        grid_h: h.w()?,
        future: h.rest(),
    };
    let mut frames = vec![];
    while !r.0.is_empty() {
        frames.push(frame(&mut r).map_err(|e| format!("frame {}: {e}", frames.len()))?);
    }
    if frames.is_empty() {
        return Err("no frame".into());
    }
    Ok(Doc { head, frames })
}

fn sized<'a>(r: &mut Rd<'a>) -> R<Rd<'a>> {
    let n = r.d()? as usize;
    if n < 4 {
        return Err(format!("size {n}"));
    }
    Ok(Rd(r.take(n - 4)?))
}

fn frame(r: &mut Rd<'_>) -> R<FrameM> {
    let mut f = sized(r)?;
    if f.w()? != 0xF1FA {
        return Err("frame magic".into());
    }
    let old_count = f.w()?;
    let duration = f.w()?;
    let reserved = f.arr()?;
    let new_count = f.d()?;
    let n = if new_count == 0 { u32::from(old_count) } else { new_count };
    let mut chunks = vec![];
    for i in 0..n {
        chunks.push(chunk(&mut f).map_err(|e| format!("chunk {i}: {e}"))?);
    }
    Ok(FrameM { duration, old_count, new_count, reserved, chunks, tail: f.rest() })
}

fn chunk(r: &mut Rd<'_>) -> R<ChunkM> {
    let mut c = sized(r)?;
    let code = c.w()?;
    let body = match code {
        0x0004 => Body::Pal4(packets(&mut c)?),
        0x0011 => Body::Pal11(packets(&mut c)?),
        0x2004 => {
            let mut l = LayerM {
                flags: c.w()?,
                kind: c.w()?,
                level: c.w()?,
                dw: c.w()?,
                dh: c.w()?,
                blend: c.w()?,
                opacity: c.b()?,
                reserved: c.arr()?,
                name: c.str()?,
                tileset: 0,
            };
            if l.kind == 2 {
                l.tileset = c.d()?;
            }
            Body::Layer(l)
        }
        0x2005 => Body::Cel(cel(&mut c)?),
        0x2006 => Body::CelExtra(CelExtraM {
            flags: c.d()?,
            vals: [c.d()?, c.d()?, c.d()?, c.d()?],
            rest: c.rest(),
        }),
        0x2007 => {
            let mut p = ProfileM {
                kind: c.w()?,
                flags: c.w()?,
                gamma: c.d()?,
                reserved: c.arr()?,
                icc: vec![],
            };
            if p.kind == 2 {
                let n = c.d()? as usize;
                p.icc = c.take(n)?.to_vec();
            }
            Body::Profile(p)
        }
        0x2008 => {
            let n = c.d()?;
            let res = c.arr()?;
            let mut v = vec![];
            for _ in 0..n {
                v.push(ExtM { id: c.d()?, kind: c.b()?, reserved: c.arr()?, name: c.str()? });
            }
            Body::External(res, v)
        }
        0x2016 => Body::Mask(MaskM {
            x: c.i16()?,
            y: c.i16()?,
            w: c.w()?,
            h: c.w()?,
            reserved: c.arr()?,
            name: c.str()?,
            data: c.rest(),
        }),
        0x2017 => Body::Path(c.rest()),
        0x2018 => {
            let n = c.w()?;
            let res = c.arr()?;
            let mut v = vec![];
            for _ in 0..n {
                let (from, to) = (c.w()?, c.w()?);
                if from > to {
                    return Err("tag range".into());
                }
                v.push(TagM {
                    from,
                    to,
                    dir: c.b()?,
                    repeat: c.w()?,
                    reserved: c.arr()?,
                    color: c.arr()?,
                    extra: c.b()?,
                    name: c.str()?,
                });
            }
            Body::Tags(res, v)
        }
        0x2019 => {
            let (size, first, last) = (c.d()?, c.d()?, c.d()?);
            if first > last || last > 255 {
                return Err("palette range".into());
            }
            let reserved = c.arr()?;
            let mut entries = vec![];
            for _ in first..=last {
                let flags = c.w()?;
                let color = c.arr()?;
                let name = if flags & 1 != 0 { c.str()? } else { String::new() };
                entries.push(EntryM { flags, color, name });
            }
            Body::Palette(PaletteM { size, first, last, reserved, entries })
        }
        0x2020 => Body::User(user(&mut c)?),
        0x2022 => {
            let n = c.d()?;
            let (flags, reserved) = (c.d()?, c.d()?);
            let name = c.str()?;
            let mut keys = vec![];
            for _ in 0..n {
                keys.push(KeyM {
                    frame: c.d()?,
                    x: c.i32()?,
                    y: c.i32()?,
                    w: c.d()?,
                    h: c.d()?,
                    nine: if flags & 1 != 0 {
                        (c.i32()?, c.i32()?, c.d()?, c.d()?)
                    } else {
                        (0, 0, 0, 0)
                    },
                    pivot: if flags & 2 != 0 { (c.i32()?, c.i32()?) } else { (0, 0) },
                });
            }
            Body::Slice(SliceM { flags, reserved, name, keys })
        }
        0x2023 => {
            let mut t = TilesetM {
                id: c.d()?,
                flags: c.d()?,
                n: c.d()?,
                w: c.w()?,
                h: c.w()?,
                base: c.i16()?,
                reserved: c.arr()?,
                name: c.str()?,
                ext: [0; 2],
                data: vec![],
            };
            if t.flags & 1 != 0 {
                t.ext = [c.d()?, c.d()?];
            }
            if t.flags & 2 != 0 {
                let n = c.d()? as usize;
                t.data = c.take(n)?.to_vec();
            }
            Body::Tileset(t)
        }
        _ => Body::Unknown(code, c.rest()),
    };
    Ok(ChunkM { body, tail: c.rest() })
}

fn packets(c: &mut Rd<'_>) -> R<Vec<Packet>> {
    let n = c.w()?;
    let mut v = vec![];
    for _ in 0..n {
        let skip = c.b()?;
        let k = match c.b()? {
            0 => 256,
            k => usize::from(k),
        };
        let mut colors = vec![];
        for _ in 0..k {
            colors.push(c.arr()?);
        }
        v.push(Packet { skip, colors });
    }
    Ok(v)
}

fn cel(c: &mut Rd<'_>) -> R<CelM> {
    let (layer, x, y, opacity) = (c.w()?, c.i16()?, c.i16()?, c.b()?);
    let kind = c.w()?;
    let z = c.i16()?;
    let reserved = c.arr()?;
    let content = match kind {
        0 => Content::Raw { w: c.w()?, h: c.w()?, data: c.rest() },
        1 => Content::Linked { frame: c.w()? },
        2 => Content::Zip { w: c.w()?, h: c.w()?, data: c.rest() },
        3 => Content::Tilemap(TilemapM {
            w: c.w()?,
            h: c.w()?,
            bits: c.w()?,
            id: c.d()?,
            xf: c.d()?,
            yf: c.d()?,
            df: c.d()?,
            reserved: c.arr()?,
            data: c.rest(),
        }),
        _ => Content::Unknown { kind, data: c.rest() },
    };
    Ok(CelM { layer, x, y, opacity, z, reserved, content })
}

fn user(c: &mut Rd<'_>) -> R<UserM> {
    let flags = c.d()?;
    let text = if flags & 1 != 0 { c.str()? } else { String::new() };
    let color = if flags & 2 != 0 { c.arr()? } else { [0; 4] };
    let mut props = Props::Maps(vec![]);
    if flags & 4 != 0 {
        let size = c.d()? as usize;
        let num = c.d()?;
        if size < 8 {
            return Err(format!("properties size {size}"));
        }
        let data = c.take(size - 8)?;
        props = match maps(data, num) {
            Ok(ms) => Props::Maps(ms),
            Err(e) if e == TOO_DEEP => Props::Unjudged { num, data: data.to_vec() },
            Err(_) => Props::Bad { num, data: data.to_vec() },
        };
    }
    Ok(UserM { flags, text, color, props })
}

pub fn maps(data: &[u8], num: u32) -> R<Vec<PMap>> {
    let mut r = Rd(data);
    let mut ms = vec![];
    for _ in 0..num {
        let key = r.d()?;
        ms.push(PMap { key, props: props(&mut r, 0)? });
    }
    Ok(ms)
}

fn props(r: &mut Rd<'_>, depth: usize) -> R<Vec<(String, PVal)>> {
    let n = r.d()?;
    let mut v = vec![];
    for _ in 0..n {
        let name = r.str()?;
        let t = r.w()?;
        v.push((name, value(r, t, depth)?));
    }
    Ok(v)
}

fn value(r: &mut Rd<'_>, t: u16, depth: usize) -> R<PVal> {
    if depth > MAX_JUDGED_DEPTH {
        return Err(TOO_DEEP.into());
    }
    let a64 = |r: &mut Rd<'_>| -> R<u64> { Ok(u64::from_le_bytes(r.arr()?)) };
    Ok(match t {
        1 => PVal::Bool(r.b()?),
        2 => PVal::I8(r.b()? as i8),
        3 => PVal::U8(r.b()?),
        4 => PVal::I16(r.i16()?),
        5 => PVal::U16(r.w()?),
        6 => PVal::I32(r.i32()?),
        7 => PVal::U32(r.d()?),
        8 => PVal::I64(a64(r)? as i64),
        9 => PVal::U64(a64(r)?),
        10 => PVal::Fixed(r.d()?),
        11 => PVal::F32(r.d()?),
        12 => PVal::F64(a64(r)?),
        13 => PVal::Str(r.str()?),
        14 => PVal::Point([r.i32()?, r.i32()?]),
        15 => PVal::Size([r.i32()?, r.i32()?]),
        16 => PVal::Rect([r.i32()?, r.i32()?, r.i32()?, r.i32()?]),
        17 => {
            let n = r.d()?;
            let et = r.w()?;
            if et > 19 {
                return Err(format!("element type {et}"));
            }
            let mut v = vec![];
            for _ in 0..n {
                let t = if et == 0 { r.w()? } else { et };
                v.push(value(r, t, depth + 1)?);
            }
            PVal::Vector(et, v)
        }
        18 => PVal::Map(props(r, depth + 1)?),
        19 => PVal::Uuid(r.arr()?),
        _ => return Err(format!("property type {t}")),
    })
}
