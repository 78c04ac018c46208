//! Choice source: generators draw every random decision from a byte string
//! ("choice sequence"). proptest generates and shrinks such byte strings,
//! libFuzzer mutates them. Once exhausted the source yields zeros, and zero
//! always selects the simplest alternative, so shorter and smaller is simpler.

/// The literals of the code under test (see build.rs).
mod dict {
    include!(concat!(env!("OUT_DIR"), "/dict.rs"));
}

pub struct Src<'a> {
    d: &'a [u8],
    p: usize,
    /// What follows the choice sequence instead of zeros.
    ext: Option<Bulk>,
    pub grow: Grow,
    /// Literals that are drawn again and again in this case (see `focus`).
    focus: [u32; FOCUS],
    focused: usize,
}

const FOCUS: usize = 4;

/// The string literals of the code under test.
pub fn strings() -> &'static [&'static str] {
    dict::STRS
}

/// Dimensions in which a document is larger than usual (see `Src::grow`).
#[derive(Clone, Copy)]
pub struct Grow {
    /// factors: number of layers, of frames, of the other things, of bytes
    pub layers: usize,
    pub frames: usize,
    pub counts: usize,
    pub bytes: usize,
    /// long strings, also of characters of several bytes
    pub strings: bool,
    /// deeply nested layers and properties
    pub deep: bool,
}

impl Grow {
    pub const NONE: Grow = Grow { layers: 1, frames: 1, counts: 1, bytes: 1, strings: false, deep: false };
    pub fn any(&self) -> bool {
        self.layers > 1 || self.frames > 1 || self.counts > 1 || self.bytes > 1 || self.strings || self.deep
    }
}

/// Small deterministic generator for bulk data (pixels, long fills), seeded by
/// a drawn choice: a pure function of the choice sequence.
#[derive(Clone)]
pub struct Bulk(u64);

impl Bulk {
    pub fn new(seed: u64) -> Self {
        Bulk(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n.max(1)
    }
    pub fn byte(&mut self) -> u8 {
        (self.next() >> 24) as u8
    }
}

impl<'a> Src<'a> {
    pub fn new(d: &'a [u8]) -> Self {
        Src { d, p: 0, ext: None, grow: Grow::NONE, focus: [0; FOCUS], focused: 0 }
    }
    /// In one case of four: some literals that stand together in the text of
    /// the code under test occur often, so that conditions on several values
    /// at once are met.
    pub fn focus(&mut self) {
        if self.byte() < 192 || dict::TEXT.is_empty() {
            return;
        }
        let at = self.below(dict::TEXT.len());
        let off = self.below(12);
        for i in 0..FOCUS {
            let v = dict::TEXT[(at + i) % dict::TEXT.len()];
            self.focus[i] = match off {
                10 => v.wrapping_add(1),
                11 => v.wrapping_sub(1),
                _ => v,
            };
        }
        self.focused = 1 + self.below(FOCUS);
    }
    /// In focus, and in one case of two: one of its literals, if it fits.
    fn focal(&mut self, max: usize) -> Option<usize> {
        if self.focused == 0 || !self.bool() {
            return None;
        }
        let v = self.focus[self.below(self.focused)] as usize;
        (v <= max).then_some(v)
    }
    pub fn byte(&mut self) -> u8 {
        let b = match (self.d.get(self.p), &mut self.ext) {
            (Some(b), _) => *b,
            // not for ever
            (None, Some(e)) if self.p < 400_000 => e.byte(),
            _ => 0,
        };
        self.p += 1;
        b
    }
    /// Makes what is generated from here on large in some dimensions. The
    /// choices go on for ever, behind the drawn ones they are pseudo-random.
    pub fn grow(&mut self) {
        self.ext = Some(Bulk::new(self.raw(2)));
        let which = match self.byte() {
            // mostly one dimension
            b if b < 200 => 1 << (b % 6),
            b => b & 63,
        };
        let mut g = Grow::NONE;
        if which & 1 != 0 {
            g.layers = self.pick(&[4, 40, 150]);
        }
        if which & 2 != 0 {
            g.frames = self.pick(&[4, 40, 200]);
        }
        if which & 4 != 0 {
            g.counts = self.pick(&[3, 30, 100]);
        }
        if which & 8 != 0 {
            g.bytes = self.pick(&[2, 30, 700]);
        }
        g.strings = which & 16 != 0;
        g.deep = which & 32 != 0;
        self.grow = g;
    }
    pub fn left(&self) -> usize {
        self.d.len().saturating_sub(self.p)
    }
    pub fn rest(&mut self) -> Vec<u8> {
        let r = self.d.get(self.p..).unwrap_or(&[]).to_vec();
        self.p = self.d.len();
        r
    }
    pub fn raw(&mut self, n: usize) -> u64 {
        let mut v = 0u64;
        for i in 0..n {
            v |= u64::from(self.byte()) << (8 * i);
        }
        v
    }
    pub fn u16(&mut self) -> u16 {
        self.raw(2) as u16
    }
    pub fn u32(&mut self) -> u32 {
        self.raw(4) as u32
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        let v = if n <= 256 {
            self.raw(1)
        } else if n <= 65536 {
            self.raw(2)
        } else {
            self.raw(4)
        };
        (v % n as u64) as usize
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as usize) as i64
    }
    /// True with probability about n/256; zero choice gives false.
    pub fn chance(&mut self, n: u8) -> bool {
        self.byte() > 255 - n
    }
    pub fn bool(&mut self) -> bool {
        self.byte() & 1 == 1
    }
    pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T {
        xs[self.below(xs.len())]
    }
    /// Index drawn with the given weights; zero choice gives index 0.
    pub fn weighted(&mut self, ws: &[u32]) -> usize {
        let total: u32 = ws.iter().sum();
        let mut v = self.below(total as usize) as u32;
        for (i, w) in ws.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= w;
        }
        ws.len() - 1
    }
    /// A literal of the code under test of at most `max`, or next to one.
    pub fn literal(&mut self, max: usize) -> Option<usize> {
        if let Some(v) = self.focal(max) {
            return Some(v);
        }
        let n = dict::INTS.partition_point(|v| *v as usize <= max);
        match n {
            0 => None,
            // those further up are the more telling ones
            _ => Some(dict::INTS[n - 1 - self.below(n)] as usize),
        }
    }
    /// Below `n`, in one case of eight a literal.
    pub fn below_or_literal(&mut self, n: usize) -> usize {
        if let Some(v) = self.focal(n.saturating_sub(1)) {
            return v;
        }
        if n > 16 && self.below(8) == 7 {
            if let Some(v) = self.literal(n - 1) {
                return v;
            }
        }
        self.below(n)
    }
    /// A string literal of the code under test, in one of several spellings.
    fn literal_string(&mut self) -> String {
        if dict::STRS.is_empty() {
            return String::new();
        }
        let t = self.pick(dict::STRS);
        match self.below(6) {
            0..3 => t.to_string(),
            3 => format!("{t}1"),
            4 => format!(" {t}"),
            _ => t.to_uppercase(),
        }
    }
    /// A large length: often a round one, or next to it.
    pub fn round(&mut self, max: usize) -> usize {
        let unit = match self.below(4) {
            0 => 1 << (4 + self.below(13)),
            1 => self.pick(&[1000usize, 100, 4096, 1024, 256, 512, 8192, 32768, 65535]),
            2 => self.literal(max).unwrap_or(1).max(1),
            _ => return self.below(max + 1),
        };
        let n = unit * (1 + self.below((max / unit).clamp(1, 16)));
        match self.below(6) {
            0 => n + 1,
            1 => n - 1,
            _ => n,
        }
        .min(max)
    }
    /// A length: mostly small, sometimes up to `max`.
    pub fn len(&mut self, max: usize) -> usize {
        self.len_by(max, self.grow.counts)
    }
    /// The same, with the maximum multiplied in one case of six.
    pub fn len_by(&mut self, max: usize, factor: usize) -> usize {
        if let Some(v) = self.focal(max) {
            return v;
        }
        if factor > 1 && max > 1 && self.below(6) == 0 {
            let most = self.pick(&[max * factor, max * factor / 4, max * 2]);
            return match self.below(4) {
                0 => self.round(most),
                _ => self.below_or_literal(most + 1),
            };
        }
        let cap = match self.weighted(&[4, 6, 4, 2, 1]) {
            0 => 1,
            1 => 4,
            2 => 12,
            3 => max,
            _ => match self.literal(max) {
                Some(v) => return v,
                None => max,
            },
        };
        self.below(cap.min(max) + 1)
    }
    pub fn u8b(&mut self) -> u8 {
        if let Some(v) = self.focal(255) {
            return v as u8;
        }
        match self.weighted(&[2, 2, 4, 1]) {
            0 => self.below(4) as u8,
            1 => self.pick(&[255u8, 254, 128, 127, 129, 64, 63, 1]),
            2 => self.byte(),
            _ => {
                let v = self.literal(255).unwrap_or(0) as u8;
                if self.below(8) == 7 {
                    v.wrapping_neg()
                } else {
                    v
                }
            }
        }
    }
    pub fn u16b(&mut self) -> u16 {
        if let Some(v) = self.focal(65535) {
            return v as u16;
        }
        match self.weighted(&[3, 3, 2, 4, 2]) {
            0 => self.below(8) as u16,
            1 => self.pick(&[
                255u16, 256, 257, 127, 128, 32767, 32768, 65535, 65534, 65280, 512, 1000, 16, 31, 64,
            ]),
            2 => u16::from(self.byte()),
            3 => self.u16(),
            _ => {
                let v = self.literal(65535).unwrap_or(0) as u16;
                if self.below(6) == 5 {
                    v.wrapping_neg()
                } else {
                    v
                }
            }
        }
    }
    pub fn i16b(&mut self) -> i16 {
        self.u16b() as i16
    }
    pub fn u32b(&mut self) -> u32 {
        if let Some(v) = self.focal(u32::MAX as usize) {
            return v as u32;
        }
        match self.weighted(&[3, 3, 2, 4, 2]) {
            0 => self.below(8) as u32,
            1 => self.pick(&[
                255u32,
                256,
                65535,
                65536,
                65537,
                0x7fff_ffff,
                0x8000_0000,
                0xffff_ffff,
                0xffff_fffe,
                0x00ff_ffff,
                0x0100_0000,
                0x1fff_ffff,
            ]),
            2 => u32::from(self.u16()),
            3 => self.u32(),
            _ => {
                let v = self.literal(u32::MAX as usize).unwrap_or(0) as u32;
                if self.below(6) == 5 {
                    v.wrapping_neg()
                } else {
                    v
                }
            }
        }
    }
    pub fn i32b(&mut self) -> i32 {
        self.u32b() as i32
    }
    pub fn bulk(&mut self) -> Bulk {
        Bulk::new(self.raw(2))
    }
    pub fn arr<const N: usize>(&mut self) -> [u8; N] {
        let mut a = [0u8; N];
        match self.weighted(&[3, 1, 1]) {
            0 => {}
            1 => a = [self.byte(); N],
            _ => {
                let mut b = self.bulk();
                a.iter_mut().for_each(|x| *x = b.byte());
            }
        }
        a
    }
    /// Arbitrary bytes of a biased length.
    pub fn bytes(&mut self, max: usize) -> Vec<u8> {
        let n = self.len_by(max, self.grow.bytes);
        self.fill(n)
    }
    /// In one case of four: the end, or the start, is all the same.
    pub fn pad(&mut self, v: &mut [u8]) {
        let n = v.len();
        let how = self.below(16);
        if how < 12 || n == 0 {
            return;
        }
        let k = match self.below(3) {
            0 => 1 + self.below(n.min(9)),
            _ => 1 + self.below(n),
        };
        let with = if how == 12 { 255 } else { 0 };
        if how == 15 {
            v[..k.min(n)].fill(with);
        } else {
            v[n - k.min(n)..].fill(with);
        }
    }
    pub fn fill(&mut self, n: usize) -> Vec<u8> {
        match self.weighted(&[1, 2, 2]) {
            0 => vec![self.byte(); n],
            1 if n <= 24 => (0..n).map(|_| self.byte()).collect(),
            _ => {
                let mut b = self.bulk();
                let mut v: Vec<u8> = (0..n).map(|_| b.byte()).collect();
                self.pad(&mut v);
                v
            }
        }
    }
    /// A string: mostly short, sometimes empty, multi-byte, or very long.
    pub fn string(&mut self) -> String {
        if let Some(n) = self.focal(300) {
            return self.letters(n);
        }
        if self.grow.strings && self.below(5) == 0 {
            return self.long_string();
        }
        match self.weighted(&[4, 3, 3, 2, 1, 1]) {
            0 => String::new(),
            1 => self.pick(&["a", "Layer 1", "b", "tag", "ab"]).to_string(),
            2 => {
                let n = self.below(10);
                (0..n).map(|_| char::from(b' ' + self.byte() % 95)).collect()
            }
            3 => {
                let n = self.below(8);
                (0..n)
                    .map(|_| self.pick(&['é', 'ß', '漢', '🎨', '\0', 'x', '\n', '\u{10FFFF}', '\u{7FF}']))
                    .collect()
            }
            5 => self.literal_string(),
            _ => {
                let n = self.pick(&[255usize, 256, 257, 300, 127, 128, 65535, 4096, 40000, 1000]);
                let n = match self.below(4) {
                    2 => self.literal(65535).unwrap_or(n),
                    3 => self.round(65535),
                    _ => n,
                };
                self.letters(n)
            }
        }
    }
    fn letters(&mut self, n: usize) -> String {
        let mut b = self.bulk();
        (0..n).map(|_| char::from(b'a' + (b.byte() % 26))).collect()
    }
    /// Up to 65535 bytes, of one to four bytes per character, also mixed.
    pub fn long_string(&mut self) -> String {
        let max = match self.below(4) {
            0 => self.pick(&[255usize, 256, 257, 127, 128, 129, 64, 63, 1023, 4096, 32767, 32768, 65534, 65535]),
            1 => 64 + self.below(600),
            2 if self.bool() => self.round(65535),
            2 => 16 + self.below(48),
            _ => self.below_or_literal(65536),
        };
        let kind = self.below(6);
        let mut b = self.bulk();
        let mut t = String::with_capacity(max);
        while t.len() < max {
            let c = match if kind == 5 { b.below(5) } else { kind as u64 } {
                0 => ['é', 'ß', '\u{7FF}', '\u{80}'][b.below(4) as usize],
                1 => ['漢', '字', '\u{FFFD}', '\u{FEFF}'][b.below(4) as usize],
                2 => ['🎨', '\u{10FFFF}', '\u{10000}', '👩'][b.below(4) as usize],
                3 => char::from(b' ' + b.byte() % 95),
                _ => ['\0', '\n', '\r', '\u{7f}', '\\', '/'][b.below(6) as usize],
            };
            if t.len() + c.len_utf8() > max {
                t.push('.');
            } else {
                t.push(c);
            }
        }
        t
    }
    pub fn short_string(&mut self) -> String {
        if let Some(n) = self.focal(300) {
            return self.letters(n);
        }
        if self.grow.strings && self.below(8) == 0 {
            return self.long_string();
        }
        match self.weighted(&[4, 12, 4, 1]) {
            0 => String::new(),
            1 => self.pick(&["a", "b", "c", "Layer", "x y"]).to_string(),
            3 => self.literal_string(),
            _ => {
                let n = self.below(6);
                (0..n).map(|_| char::from(b' ' + self.byte() % 95)).collect()
            }
        }
    }
}
