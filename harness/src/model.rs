//! The document model: a tree with one node per record of the file format.

pub type P8 = [u8; 8];

#[derive(Clone, Debug, PartialEq)]
pub struct Doc {
    pub head: Head,
    pub frames: Vec<FrameM>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Head {
    pub file_size: u32,
    pub frames: u16,
    pub width: u16,
    pub height: u16,
    pub depth: u16,
    pub flags: u32,
    pub speed: u16,
    pub transparent: u8,
    pub ignore: [u8; 3],
    pub colors: u16,
    pub pixel_w: u8,
    pub pixel_h: u8,
    pub grid_x: i16,
    pub grid_y: i16,
    pub grid_w: u16,
    pub grid_h: u16,
    pub future: Vec<u8>, // 84 bytes
}

#[derive(Clone, Debug, PartialEq)]
pub struct FrameM {
    pub duration: u16,
    pub old_count: u16,
    pub new_count: u32,
    pub reserved: [u8; 2],
    pub chunks: Vec<ChunkM>,
    pub tail: Vec<u8>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct ChunkM {
    pub body: Body,
    /// Surplus bytes behind the record, inside the chunk.
    pub tail: Vec<u8>,
}

impl From<Body> for ChunkM {
    fn from(body: Body) -> Self {
        ChunkM { body, tail: vec![] }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Body {
    Pal4(Vec<Packet>),
    Pal11(Vec<Packet>),
    Layer(LayerM),
    Cel(CelM),
    CelExtra(CelExtraM),
    Profile(ProfileM),
    External(P8, Vec<ExtM>),
    Mask(MaskM),
    Path(Vec<u8>),
    Tags(P8, Vec<TagM>),
    Palette(PaletteM),
    User(UserM),
    Slice(SliceM),
    Tileset(TilesetM),
    Unknown(u16, Vec<u8>),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Packet {
    pub skip: u8,
    /// 1..=256 colours
    pub colors: Vec<[u8; 3]>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct LayerM {
    pub flags: u16,
    pub kind: u16,
    pub level: u16,
    pub dw: u16,
    pub dh: u16,
    pub blend: u16,
    pub opacity: u8,
    pub reserved: [u8; 3],
    pub name: String,
    /// only stored when kind == 2
    pub tileset: u32,
}

#[derive(Clone, Debug, PartialEq)]
pub struct CelM {
    pub layer: u16,
    pub x: i16,
    pub y: i16,
    pub opacity: u8,
    pub z: i16,
    pub reserved: [u8; 5],
    pub content: Content,
}

#[derive(Clone, PartialEq)]
pub enum Content {
    Raw { w: u16, h: u16, data: Vec<u8> },
    Linked { frame: u16 },
    Zip { w: u16, h: u16, data: Vec<u8> },
    Tilemap(TilemapM),
    Unknown { kind: u16, data: Vec<u8> },
}

impl std::fmt::Debug for Content {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let d = |d: &Vec<u8>| format!("{}B:{}", d.len(), crate::runner::hex(&d[..d.len().min(24)]));
        match self {
            Content::Raw { w, h, data } => write!(f, "Raw({w}x{h},{})", d(data)),
            Content::Zip { w, h, data } => write!(f, "Zip({w}x{h},{})", d(data)),
            Content::Linked { frame } => write!(f, "Linked({frame})"),
            Content::Tilemap(t) => write!(f, "{t:?}"),
            Content::Unknown { kind, data } => write!(f, "Unknown({kind},{})", d(data)),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct TilemapM {
    pub w: u16,
    pub h: u16,
    pub bits: u16,
    pub id: u32,
    pub xf: u32,
    pub yf: u32,
    pub df: u32,
    pub reserved: [u8; 10],
    pub data: Vec<u8>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct CelExtraM {
    pub flags: u32,
    /// x, y, width, height as 16.16 fixed point
    pub vals: [u32; 4],
    pub rest: Vec<u8>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct ProfileM {
    pub kind: u16,
    pub flags: u16,
    pub gamma: u32,
    pub reserved: P8,
    /// only stored when kind == 2
    pub icc: Vec<u8>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct ExtM {
    pub id: u32,
    pub kind: u8,
    pub reserved: [u8; 7],
    pub name: String,
}

#[derive(Clone, Debug, PartialEq)]
pub struct MaskM {
    pub x: i16,
    pub y: i16,
    pub w: u16,
    pub h: u16,
    pub reserved: P8,
    pub name: String,
    pub data: Vec<u8>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct TagM {
    pub from: u16,
    pub to: u16,
    pub dir: u8,
    pub repeat: u16,
    pub reserved: [u8; 6],
    pub color: [u8; 3],
    pub extra: u8,
    pub name: String,
}

#[derive(Clone, Debug, PartialEq)]
pub struct PaletteM {
    pub size: u32,
    pub first: u32,
    pub last: u32,
    pub reserved: P8,
    pub entries: Vec<EntryM>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct EntryM {
    pub flags: u16,
    pub color: [u8; 4],
    /// stored when flags & 1
    pub name: String,
}

#[derive(Clone, Debug, PartialEq)]
pub struct UserM {
    pub flags: u32,
    /// stored when flags & 1
    pub text: String,
    /// stored when flags & 2
    pub color: [u8; 4],
    /// stored when flags & 4
    pub props: Props,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Props {
    Maps(Vec<PMap>),
    /// A block with this declared number of maps and this content, which does
    /// not decode.
    Bad { num: u32, data: Vec<u8> },
    /// As `Bad`, but nested too deeply for the reference to judge.
    Unjudged { num: u32, data: Vec<u8> },
}

#[derive(Clone, Debug, PartialEq)]
pub struct PMap {
    pub key: u32,
    pub props: Vec<(String, PVal)>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum PVal {
    Bool(u8),
    I8(i8),
    U8(u8),
    I16(i16),
    U16(u16),
    I32(i32),
    U32(u32),
    I64(i64),
    U64(u64),
    Fixed(u32),
    F32(u32),
    F64(u64),
    Str(String),
    Point([i32; 2]),
    Size([i32; 2]),
    Rect([i32; 4]),
    /// element type (0 = mixed) and elements
    Vector(u16, Vec<PVal>),
    Map(Vec<(String, PVal)>),
    Uuid([u8; 16]),
}

impl PVal {
    pub fn code(&self) -> u16 {
        match self {
            PVal::Bool(_) => 1,
            PVal::I8(_) => 2,
            PVal::U8(_) => 3,
            PVal::I16(_) => 4,
            PVal::U16(_) => 5,
            PVal::I32(_) => 6,
            PVal::U32(_) => 7,
            PVal::I64(_) => 8,
            PVal::U64(_) => 9,
            PVal::Fixed(_) => 10,
            PVal::F32(_) => 11,
            PVal::F64(_) => 12,
            PVal::Str(_) => 13,
            PVal::Point(_) => 14,
            PVal::Size(_) => 15,
            PVal::Rect(_) => 16,
            PVal::Vector(..) => 17,
            PVal::Map(_) => 18,
            PVal::Uuid(_) => 19,
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct SliceM {
    pub flags: u32,
    pub reserved: u32,
    pub name: String,
    pub keys: Vec<KeyM>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct KeyM {
    pub frame: u32,
    pub x: i32,
    pub y: i32,
    pub w: u32,
    pub h: u32,
    /// stored when slice flags & 1: x, y, w, h
    pub nine: (i32, i32, u32, u32),
    /// stored when slice flags & 2
    pub pivot: (i32, i32),
}

#[derive(Clone, Debug, PartialEq)]
pub struct TilesetM {
    pub id: u32,
    pub flags: u32,
    pub n: u32,
    pub w: u16,
    pub h: u16,
    pub base: i16,
    pub reserved: [u8; 14],
    pub name: String,
    /// stored when flags & 1
    pub ext: [u32; 2],
    /// stored when flags & 2
    pub data: Vec<u8>,
}

impl Body {
    pub fn code(&self) -> u16 {
        match self {
            Body::Pal4(_) => 0x0004,
            Body::Pal11(_) => 0x0011,
            Body::Layer(_) => 0x2004,
            Body::Cel(_) => 0x2005,
            Body::CelExtra(_) => 0x2006,
            Body::Profile(_) => 0x2007,
            Body::External(..) => 0x2008,
            Body::Mask(_) => 0x2016,
            Body::Path(_) => 0x2017,
            Body::Tags(..) => 0x2018,
            Body::Palette(_) => 0x2019,
            Body::User(_) => 0x2020,
            Body::Slice(_) => 0x2022,
            Body::Tileset(_) => 0x2023,
            Body::Unknown(c, _) => *c,
        }
    }
    /// The record takes all bytes of the chunk, so no surplus can follow it.
    pub fn open_ended(&self) -> bool {
        match self {
            Body::Cel(c) => !matches!(c.content, Content::Linked { .. }),
            Body::CelExtra(_) | Body::Mask(_) | Body::Path(_) | Body::Unknown(..) => true,
            _ => false,
        }
    }
}

pub const KNOWN_CHUNKS: [u16; 14] = [
    0x0004, 0x0011, 0x2004, 0x2005, 0x2006, 0x2007, 0x2008, 0x2016, 0x2017, 0x2018, 0x2019, 0x2020,
    0x2022, 0x2023,
];

impl Default for Head {
    fn default() -> Self {
        Head {
            file_size: 0,
            frames: 1,
            width: 1,
            height: 1,
            depth: 32,
            flags: 1,
            speed: 100,
            transparent: 0,
            ignore: [0; 3],
            colors: 0,
            pixel_w: 1,
            pixel_h: 1,
            grid_x: 0,
            grid_y: 0,
            grid_w: 16,
            grid_h: 16,
            future: vec![0; 84],
        }
    }
}

impl FrameM {
    pub fn new(duration: u16, chunks: Vec<ChunkM>) -> Self {
        let mut f = FrameM {
            duration,
            old_count: 0,
            new_count: 0,
            reserved: [0; 2],
            chunks,
            tail: vec![],
        };
        f.recount(0);
        f
    }
    /// State the number of chunks in the fields as `mode` says:
    /// 0 both, 1 only old, 2 only new, 3 new with a misleading old one.
    pub fn recount(&mut self, mode: u8) {
        let n = self.chunks.len();
        let old = if n >= 0xffff { 0xffff } else { n as u16 };
        let (o, w) = match mode {
            1 if n < 0xffff => (old, 0),
            2 => (0, n as u32),
            3 if n > 0 => (old.wrapping_mul(7).wrapping_add(3), n as u32),
            _ => (old, n as u32),
        };
        self.old_count = o;
        self.new_count = w;
    }
}

impl Doc {
    pub fn chunks(&self) -> impl Iterator<Item = &ChunkM> {
        self.frames.iter().flat_map(|f| f.chunks.iter())
    }
    /// A compact description for samples and replay files.
    pub fn describe(&self) -> String {
        let mut s = format!(
            "{}x{} depth={} frames={} [",
            self.head.width,
            self.head.height,
            self.head.depth,
            self.frames.len()
        );
        for (i, f) in self.frames.iter().enumerate() {
            if i > 0 {
                s.push_str(" | ");
            }
            if i > 6 {
                s.push_str("...");
                break;
            }
            s.push_str(&format!("{}ms", f.duration));
            for (j, c) in f.chunks.iter().enumerate() {
                if j > 14 {
                    s.push_str(&format!(" ..{} chunks", f.chunks.len()));
                    break;
                }
                s.push(' ');
                let mut d = match &c.body {
                    Body::Layer(l) => format!(
                        "Layer(k{} l{} b{} o{} f{:x} {:?})",
                        l.kind, l.level, l.blend, l.opacity, l.flags,
                        l.name.chars().take(10).collect::<String>()
                    ),
                    Body::Cel(c) => format!(
                        "Cel(L{} {},{} o{} z{} {:?})",
                        c.layer, c.x, c.y, c.opacity, c.z, c.content
                    ),
                    b => {
                        let d = format!("{b:?}");
                        d.chars().take(120).collect()
                    }
                };
                if d.len() > 160 {
                    d = d.chars().take(150).collect();
                }
                s.push_str(&d);
            }
        }
        s.push(']');
        s
    }
}
