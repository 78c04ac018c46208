//! Reference compositing: Aseprite's RGBA blend functions (blend_funcs.cpp),
//! written down again from the C++ original.

pub type C = [u8; 4];

/// MUL_UN8
pub fn mul(a: i32, b: i32) -> i32 {
    let t = a * b + 0x80;
    ((t >> 8) + t) >> 8
}

/// DIV_UN8
fn div(a: i32, b: i32) -> i32 {
    (a * 0xff + b / 2) / b
}

fn channel(mode: u16, b: i32, s: i32) -> i32 {
    let screen = |b: i32, s: i32| b + s - mul(b, s);
    let hard = |b: i32, s: i32| if s < 128 { mul(b, s * 2) } else { screen(b, s * 2 - 255) };
    match mode {
        1 => mul(b, s),
        2 => screen(b, s),
        3 => hard(s, b),
        4 => b.min(s),
        5 => b.max(s),
        6 => match (b, 255 - s) {
            (0, _) => 0,
            (b, s) if b >= s => 255,
            (b, s) => div(b, s),
        },
        7 => match (255 - b, s) {
            (0, _) => 255,
            (b, s) if b >= s => 0,
            (b, s) => 255 - div(b, s),
        },
        8 => hard(b, s),
        9 => {
            let (b, s) = (f64::from(b) / 255.0, f64::from(s) / 255.0);
            let d = if b <= 0.25 { ((16.0 * b - 12.0) * b + 4.0) * b } else { b.sqrt() };
            let r = if s <= 0.5 { b - (1.0 - 2.0 * s) * b * (1.0 - b) } else { b + (2.0 * s - 1.0) * (d - b) };
            (r * 255.0 + 0.5) as u32 as i32
        }
        10 => (b - s).abs(),
        11 => b + s - 2 * mul(b, s),
        16 => (b + s).min(255),
        17 => (b - s).max(0),
        18 => match (b, s) {
            (0, _) => 0,
            (b, s) if b >= s => 255,
            (b, s) => div(b, s),
        },
        _ => unreachable!("not a channel mode"),
    }
}

fn lum(c: [f64; 3]) -> f64 {
    0.3 * c[0] + 0.59 * c[1] + 0.11 * c[2]
}

// the original's macros, with their treatment of equal values
fn fmin(x: f64, y: f64) -> f64 {
    if x < y {
        x
    } else {
        y
    }
}
fn fmax(x: f64, y: f64) -> f64 {
    if x > y {
        x
    } else {
        y
    }
}

fn sat(c: [f64; 3]) -> f64 {
    fmax(c[0], fmax(c[1], c[2])) - fmin(c[0], fmin(c[1], c[2]))
}

fn set_lum(c: [f64; 3], l: f64) -> [f64; 3] {
    let d = l - lum(c);
    let mut c = [c[0] + d, c[1] + d, c[2] + d];
    // clip_color
    let l = lum(c);
    let n = fmin(c[0], fmin(c[1], c[2]));
    let x = fmax(c[0], fmax(c[1], c[2]));
    if n < 0.0 {
        for v in &mut c {
            *v = l + (((*v - l) * l) / (l - n));
        }
    }
    if x > 1.0 {
        for v in &mut c {
            *v = l + (((*v - l) * (1.0 - l)) / (x - l));
        }
    }
    c
}

/// The original works on references to the smallest, middle and largest
/// channel, picked by macros that can alias when channels are equal.
fn set_sat(mut c: [f64; 3], s: f64) -> [f64; 3] {
    let [r, g, b] = c;
    let lo = if r < fmin(g, b) {
        0
    } else if g < b {
        1
    } else {
        2
    };
    let hi = if r > fmax(g, b) {
        0
    } else if g > b {
        1
    } else {
        2
    };
    // MID(x,y,z) = x > y ? (y > z ? y : (x > z ? z : x)) : (y > z ? (z > x ? z : x) : y)
    let mid = if r > g {
        if g > b {
            1
        } else if r > b {
            2
        } else {
            0
        }
    } else if g > b {
        if b > r {
            2
        } else {
            0
        }
    } else {
        1
    };
    if c[hi] > c[lo] {
        c[mid] = ((c[mid] - c[lo]) * s) / (c[hi] - c[lo]);
        c[hi] = s;
    } else {
        c[mid] = 0.0;
        c[hi] = 0.0;
    }
    c[lo] = 0.0;
    c
}

fn normal(b: C, s: C, opacity: u8) -> C {
    let o = i32::from(opacity);
    if b[3] == 0 {
        return [s[0], s[1], s[2], mul(s[3].into(), o) as u8];
    }
    if s[3] == 0 {
        return b;
    }
    let ba = i32::from(b[3]);
    let sa = mul(s[3].into(), o);
    let ra = sa + ba - mul(ba, sa);
    let mut r = [0, 0, 0, ra as u8];
    for i in 0..3 {
        let (bc, sc) = (i32::from(b[i]), i32::from(s[i]));
        r[i] = (bc + (sc - bc) * sa / ra) as u8;
    }
    r
}

fn merge(b: C, s: C, opacity: u8) -> C {
    let o = i32::from(opacity);
    let mix = |b: u8, s: u8| (i32::from(b) + mul(i32::from(s) - i32::from(b), o)) as u8;
    let a = mix(b[3], s[3]);
    if a == 0 {
        return [0; 4];
    }
    let mut r = [0, 0, 0, a];
    for i in 0..3 {
        r[i] = if b[3] == 0 {
            s[i]
        } else if s[3] == 0 {
            b[i]
        } else {
            mix(b[i], s[i])
        };
    }
    r
}

fn plain(mode: u16, b: C, s: C, opacity: u8) -> C {
    let f = |c: C| [f64::from(c[0]) / 255.0, f64::from(c[1]) / 255.0, f64::from(c[2]) / 255.0];
    let rgb = match mode {
        12..=15 => {
            let (fb, fs) = (f(b), f(s));
            let c = match mode {
                12 => set_lum(set_sat(fs, sat(fb)), lum(fb)),
                13 => set_lum(set_sat(fb, sat(fs)), lum(fb)),
                14 => set_lum(fs, lum(fb)),
                _ => set_lum(fb, lum(fs)),
            };
            c.map(|v| (255.0 * v) as i32 as u8)
        }
        _ => [0, 1, 2].map(|i| channel(mode, b[i].into(), s[i].into()) as u8),
    };
    normal(b, [rgb[0], rgb[1], rgb[2], s[3]], opacity)
}

/// Composite `s` with the given opacity onto `b`; `mode` is the code in the file.
pub fn blend(mode: u16, b: C, s: C, opacity: u8) -> C {
    if mode == 0 || b[3] == 0 {
        return normal(b, s, opacity);
    }
    let n = normal(b, s, opacity);
    let m = plain(mode, b, s, opacity);
    let merged = merge(n, m, b[3]);
    let alpha = mul(b[3].into(), mul(s[3].into(), opacity.into()));
    merge(merged, m, alpha as u8)
}
