//! Reference encoder: document model -> bytes, with a map of where each field
//! that matters to corruption and zero-copy checks was written.

use crate::model::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    /// text bytes of a string
    Str,
    /// payload returned as a slice
    Payload,
    Magic,
    FrameSize,
    ChunkSize,
    ChunkType,
    Count,
    StrLen,
    PayloadLen,
    PropsSize,
    PropType,
    Index,
    Flags,
    Dim,
    Code,
    Value,
}

#[derive(Clone, Copy, Debug)]
pub struct Span {
    pub off: usize,
    pub len: usize,
    pub kind: Kind,
    pub frame: usize,
    pub chunk: usize,
}

#[derive(Default)]
pub struct Enc {
    pub out: Vec<u8>,
    pub spans: Vec<Span>,
    frame: usize,
    chunk: usize,
}

impl Enc {
    fn span(&mut self, kind: Kind, len: usize) {
        let off = self.out.len();
        self.spans.push(Span { off, len, kind, frame: self.frame, chunk: self.chunk });
    }
    fn b(&mut self, v: u8) {
        self.out.push(v)
    }
    fn raw(&mut self, v: &[u8]) {
        self.out.extend_from_slice(v)
    }
    fn w(&mut self, v: u16) {
        self.raw(&v.to_le_bytes())
    }
    fn d(&mut self, v: u32) {
        self.raw(&v.to_le_bytes())
    }
    fn kb(&mut self, k: Kind, v: u8) {
        self.span(k, 1);
        self.b(v)
    }
    fn kw(&mut self, k: Kind, v: u16) {
        self.span(k, 2);
        self.w(v)
    }
    fn kd(&mut self, k: Kind, v: u32) {
        self.span(k, 4);
        self.d(v)
    }
    fn str(&mut self, s: &str) {
        self.kw(Kind::StrLen, s.len() as u16);
        assert!(s.len() < 65536);
        self.span(Kind::Str, s.len());
        self.raw(s.as_bytes());
    }
    fn payload(&mut self, d: &[u8]) {
        self.span(Kind::Payload, d.len());
        self.raw(d);
    }
    fn patch32(&mut self, at: usize, v: u32) {
        self.out[at..at + 4].copy_from_slice(&v.to_le_bytes())
    }

    fn packets(&mut self, ps: &[Packet]) {
        self.kw(Kind::Count, ps.len() as u16);
        for p in ps {
            self.kb(Kind::Value, p.skip);
            self.kb(Kind::Count, p.colors.len() as u8); // 256 -> 0
            for c in &p.colors {
                self.raw(c)
            }
        }
    }

    pub fn value(&mut self, v: &PVal) {
        match v {
            PVal::Bool(x) | PVal::U8(x) => self.b(*x),
            PVal::I8(x) => self.b(*x as u8),
            PVal::I16(x) => self.w(*x as u16),
            PVal::U16(x) => self.w(*x),
            PVal::I32(x) => self.d(*x as u32),
            PVal::U32(x) | PVal::F32(x) => self.d(*x),
            PVal::Fixed(x) => self.d(*x),
            PVal::I64(x) => self.raw(&x.to_le_bytes()),
            PVal::U64(x) | PVal::F64(x) => self.raw(&x.to_le_bytes()),
            PVal::Str(s) => self.str(s),
            PVal::Point(a) | PVal::Size(a) => a.iter().for_each(|x| self.d(*x as u32)),
            PVal::Rect(a) => a.iter().for_each(|x| self.d(*x as u32)),
            PVal::Vector(t, xs) => {
                self.kd(Kind::Count, xs.len() as u32);
                self.kw(Kind::PropType, *t);
                for x in xs {
                    if *t == 0 {
                        self.kw(Kind::PropType, x.code());
                    }
                    self.value(x);
                }
            }
            PVal::Map(ps) => self.props(ps),
            PVal::Uuid(u) => self.raw(u),
        }
    }
    fn props(&mut self, ps: &[(String, PVal)]) {
        self.kd(Kind::Count, ps.len() as u32);
        for (n, v) in ps {
            self.str(n);
            self.kw(Kind::PropType, v.code());
            self.value(v);
        }
    }

    fn user(&mut self, u: &UserM) {
        self.kd(Kind::Flags, u.flags);
        if u.flags & 1 != 0 {
            self.str(&u.text);
        }
        if u.flags & 2 != 0 {
            self.raw(&u.color);
        }
        if u.flags & 4 != 0 {
            let at = self.out.len();
            self.kd(Kind::PropsSize, 0);
            match &u.props {
                Props::Maps(ms) => {
                    self.kd(Kind::Count, ms.len() as u32);
                    for m in ms {
                        self.d(m.key);
                        self.props(&m.props);
                    }
                }
                Props::Bad { num, data } | Props::Unjudged { num, data } => {
                    self.kd(Kind::Count, *num);
                    self.raw(data);
                }
            }
            let n = (self.out.len() - at) as u32;
            self.patch32(at, n);
        }
    }

    fn body(&mut self, b: &Body) {
        match b {
            Body::Pal4(ps) | Body::Pal11(ps) => self.packets(ps),
            Body::Layer(l) => {
                self.kw(Kind::Flags, l.flags);
                self.kw(Kind::Code, l.kind);
                self.kw(Kind::Value, l.level);
                self.w(l.dw);
                self.w(l.dh);
                self.kw(Kind::Code, l.blend);
                self.kb(Kind::Value, l.opacity);
                self.raw(&l.reserved);
                self.str(&l.name);
                if l.kind == 2 {
                    self.d(l.tileset);
                }
            }
            Body::Cel(c) => {
                self.kw(Kind::Index, c.layer);
                self.kw(Kind::Value, c.x as u16);
                self.kw(Kind::Value, c.y as u16);
                self.kb(Kind::Value, c.opacity);
                let kind = match &c.content {
                    Content::Raw { .. } => 0,
                    Content::Linked { .. } => 1,
                    Content::Zip { .. } => 2,
                    Content::Tilemap(_) => 3,
                    Content::Unknown { kind, .. } => *kind,
                };
                self.kw(Kind::Code, kind);
                self.kw(Kind::Value, c.z as u16);
                self.raw(&c.reserved);
                match &c.content {
                    Content::Raw { w, h, data } | Content::Zip { w, h, data } => {
                        self.kw(Kind::Dim, *w);
                        self.kw(Kind::Dim, *h);
                        self.payload(data);
                    }
                    Content::Linked { frame } => self.kw(Kind::Index, *frame),
                    Content::Tilemap(t) => {
                        self.kw(Kind::Dim, t.w);
                        self.kw(Kind::Dim, t.h);
                        self.w(t.bits);
                        self.d(t.id);
                        self.d(t.xf);
                        self.d(t.yf);
                        self.d(t.df);
                        self.raw(&t.reserved);
                        self.payload(&t.data);
                    }
                    Content::Unknown { data, .. } => self.payload(data),
                }
            }
            Body::CelExtra(c) => {
                self.kd(Kind::Flags, c.flags);
                c.vals.iter().for_each(|v| self.d(*v));
                self.payload(&c.rest);
            }
            Body::Profile(p) => {
                self.kw(Kind::Code, p.kind);
                self.kw(Kind::Flags, p.flags);
                self.d(p.gamma);
                self.raw(&p.reserved);
                if p.kind == 2 {
                    self.kd(Kind::PayloadLen, p.icc.len() as u32);
                    self.payload(&p.icc);
                }
            }
            Body::External(r, fs) => {
                self.kd(Kind::Count, fs.len() as u32);
                self.raw(r);
                for f in fs {
                    self.d(f.id);
                    self.kb(Kind::Code, f.kind);
                    self.raw(&f.reserved);
                    self.str(&f.name);
                }
            }
            Body::Mask(m) => {
                self.w(m.x as u16);
                self.w(m.y as u16);
                self.kw(Kind::Dim, m.w);
                self.kw(Kind::Dim, m.h);
                self.raw(&m.reserved);
                self.str(&m.name);
                self.payload(&m.data);
            }
            Body::Path(d) => self.raw(d),
            Body::Tags(r, ts) => {
                self.kw(Kind::Count, ts.len() as u16);
                self.raw(r);
                for t in ts {
                    self.kw(Kind::Index, t.from);
                    self.kw(Kind::Index, t.to);
                    self.kb(Kind::Code, t.dir);
                    self.kw(Kind::Value, t.repeat);
                    self.raw(&t.reserved);
                    self.raw(&t.color);
                    self.b(t.extra);
                    self.str(&t.name);
                }
            }
            Body::Palette(p) => {
                self.kd(Kind::Value, p.size);
                self.kd(Kind::Index, p.first);
                self.kd(Kind::Index, p.last);
                self.raw(&p.reserved);
                for e in &p.entries {
                    self.kw(Kind::Flags, e.flags);
                    self.raw(&e.color);
                    if e.flags & 1 != 0 {
                        self.str(&e.name);
                    }
                }
            }
            Body::User(u) => self.user(u),
            Body::Slice(s) => {
                self.kd(Kind::Count, s.keys.len() as u32);
                self.kd(Kind::Flags, s.flags);
                self.d(s.reserved);
                self.str(&s.name);
                for k in &s.keys {
                    self.d(k.frame);
                    self.d(k.x as u32);
                    self.d(k.y as u32);
                    self.d(k.w);
                    self.d(k.h);
                    if s.flags & 1 != 0 {
                        self.d(k.nine.0 as u32);
                        self.d(k.nine.1 as u32);
                        self.d(k.nine.2);
                        self.d(k.nine.3);
                    }
                    if s.flags & 2 != 0 {
                        self.d(k.pivot.0 as u32);
                        self.d(k.pivot.1 as u32);
                    }
                }
            }
            Body::Tileset(t) => {
                self.d(t.id);
                self.kd(Kind::Flags, t.flags);
                self.kd(Kind::Value, t.n);
                self.kw(Kind::Dim, t.w);
                self.kw(Kind::Dim, t.h);
                self.w(t.base as u16);
                self.raw(&t.reserved);
                self.str(&t.name);
                if t.flags & 1 != 0 {
                    self.d(t.ext[0]);
                    self.d(t.ext[1]);
                }
                if t.flags & 2 != 0 {
                    self.kd(Kind::PayloadLen, t.data.len() as u32);
                    self.payload(&t.data);
                }
            }
            Body::Unknown(_, d) => self.raw(d),
        }
    }

    pub fn frame(&mut self, f: &FrameM) {
        let at = self.out.len();
        self.kd(Kind::FrameSize, 0);
        self.kw(Kind::Magic, 0xF1FA);
        self.kw(Kind::Count, f.old_count);
        self.w(f.duration);
        self.raw(&f.reserved);
        self.kd(Kind::Count, f.new_count);
        for (i, c) in f.chunks.iter().enumerate() {
            self.chunk = i;
            let at = self.out.len();
            self.kd(Kind::ChunkSize, 0);
            self.kw(Kind::ChunkType, c.body.code());
            self.body(&c.body);
            self.raw(&c.tail);
            let n = (self.out.len() - at) as u32;
            self.patch32(at, n);
        }
        self.raw(&f.tail);
        let n = (self.out.len() - at) as u32;
        self.patch32(at, n);
    }
}

pub fn encode_spans(doc: &Doc) -> (Vec<u8>, Vec<Span>) {
    let mut e = Enc::default();
    let h = &doc.head;
    e.d(h.file_size);
    e.kw(Kind::Magic, 0xA5E0);
    e.kw(Kind::Value, h.frames);
    e.kw(Kind::Dim, h.width);
    e.kw(Kind::Dim, h.height);
    e.kw(Kind::Code, h.depth);
    e.kd(Kind::Flags, h.flags);
    e.w(h.speed);
    e.kd(Kind::Magic, 0);
    e.kd(Kind::Magic, 0);
    e.kb(Kind::Index, h.transparent);
    e.raw(&h.ignore);
    e.w(h.colors);
    e.b(h.pixel_w);
    e.b(h.pixel_h);
    e.w(h.grid_x as u16);
    e.w(h.grid_y as u16);
    e.w(h.grid_w);
    e.w(h.grid_h);
    e.raw(&h.future);
    assert_eq!(e.out.len(), 128);
    for (i, f) in doc.frames.iter().enumerate() {
        e.frame = i;
        e.frame(f);
    }
    (e.out, e.spans)
}

pub fn encode(doc: &Doc) -> Vec<u8> {
    encode_spans(doc).0
}

/// The bytes of the maps (without size and number) of a properties block.
pub fn encode_maps(ms: &[PMap]) -> Vec<u8> {
    let mut e = Enc::default();
    for m in ms {
        e.d(m.key);
        e.props(&m.props);
    }
    e.out
}

fn with(f: impl FnOnce(&mut Enc)) -> Vec<u8> {
    let mut e = Enc::default();
    f(&mut e);
    e.out
}

/// A chunk's body, without its size and type.
pub fn body_bytes(b: &Body) -> Vec<u8> {
    with(|e| e.body(b))
}

pub fn frame_bytes(f: &FrameM) -> Vec<u8> {
    with(|e| e.frame(f))
}

/// A value, without its type.
pub fn value_bytes(v: &PVal) -> Vec<u8> {
    with(|e| e.value(v))
}

pub fn string_bytes(s: &str) -> Vec<u8> {
    with(|e| e.str(s))
}

pub fn chunk_bytes(c: &ChunkM) -> Vec<u8> {
    let b = body_bytes(&c.body);
    let mut v = ((b.len() + c.tail.len() + 6) as u32).to_le_bytes().to_vec();
    v.extend(c.body.code().to_le_bytes());
    v.extend(b);
    v.extend(&c.tail);
    v
}
