//! P22: results depend on the bytes and the arguments only.

use super::*;
use crate::encode::{encode, encode_spans};
use crate::gen::{self, Images, Opts, Pic};
use crate::render;
use crate::runner::{fam, hash, Ctx, Prop, R};
use crate::src::Src;
use crate::view;
use crate::{ensure, eq};
use al::{AsepriteFile, LayerSelection};
use std::collections::HashMap;

// -------------------------------------------------- sharing between threads

/// `AsepriteFile` can be shared between threads at present. If it ever cannot,
/// this harness must still build: whether it can is found out without a bound.
struct Probe<T>(std::marker::PhantomData<T>);
#[allow(dead_code)] // used only when files cannot be shared
trait NotShared {
    fn shared(&self) -> bool {
        false
    }
}
impl<T> NotShared for &Probe<T> {}
impl<T: Sync> Probe<T> {
    fn shared(&self) -> bool {
        true
    }
}
fn sharing() -> bool {
    #[allow(clippy::needless_borrow)]
    (&Probe::<AsepriteFile<'static>>(std::marker::PhantomData)).shared()
}
/// Only used when `sharing()` says that the compiler knows it to be `Sync`.
struct Share<'a, T>(&'a T);
impl<T> Clone for Share<'_, T> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<T> Copy for Share<'_, T> {}
unsafe impl<T> Send for Share<'_, T> {}

impl<'a, T> Share<'a, T> {
    fn get(self) -> &'a T {
        self.0
    }
}

// ------------------------------------------------------------------ results

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Op {
    /// Parse, at all levels.
    Load,
    /// Everything the loaded file reports.
    Report,
    Image { index: usize, len: usize, fill: u8 },
    Render { frame: usize, sel: usize, len: usize, fill: u8 },
    Combined { frame: usize, len: usize, fill: u8 },
    Names(usize),
}

const NAMES: [&[&str]; 3] = [&["0", "2"], &[], &["1", "3", "a"]];

fn select(sel: usize) -> LayerSelection {
    match sel {
        0 => LayerSelection::Visible,
        1 => LayerSelection::All,
        n => LayerSelection::Mask((0..8).map(|i| n >> i & 1 == 1).collect()),
    }
}

/// What an operation gave: success or error, and all bytes of the buffer.
type Res = (Result<String, String>, Vec<u8>);

fn report(f: &AsepriteFile<'_>) -> String {
    let mut s = format!(
        "{:?} {:?} {:?} {:?} {:?} {:?}",
        f.size(),
        f.layers(),
        f.tags(),
        f.frames(),
        f.file.header,
        f.file.palette.as_ref().map(|p| p.colors.iter().map(|c| (c.red, c.green, c.blue, c.alpha)).collect::<Vec<_>>()),
    );
    for i in &f.images {
        s.push_str(&format!("{}x{} {} {:?};", i.width, i.height, i.compressed, i.data));
    }
    for l in &f.slices().iter().map(|l| (l.name, l.slice_keys.len())).collect::<Vec<_>>() {
        s.push_str(&format!("{l:?}"));
    }
    s
}

/// The buffer begins `at` bytes behind a multiple of eight or so.
fn perform(f: &AsepriteFile<'_>, op: &Op, at: usize) -> Result<Res, String> {
    Ok(match op {
        Op::Load => (Ok(String::new()), vec![]),
        Op::Report => (Ok(report(f)), vec![]),
        Op::Image { index, len, fill } => {
            if *index >= f.images.len() {
                // whatever comes of it, it must not matter afterwards
                let _ = decode_image(f, *index, &mut vec![*fill; *len]);
                return Ok((Ok("none".into()), vec![]));
            }
            let mut buf = vec![*fill; at + *len];
            let r = decode_image(f, *index, &mut buf[at..])?;
            (r.map(|()| String::new()), buf.split_off(at))
        }
        Op::Render { frame, sel, len, fill } => {
            if *frame >= f.frames().len() {
                let _ = render_frame(f, *frame, &mut vec![*fill; *len], &select(*sel));
                return Ok((Ok("none".into()), vec![]));
            }
            let mut buf = vec![*fill; at + *len];
            let r = render_frame(f, *frame, &mut buf[at..], &select(*sel))?;
            (r.map(|()| String::new()), buf.split_off(at))
        }
        Op::Combined { frame, len, fill } => {
            if *frame >= f.frames().len() {
                let _ = combined(f, *frame, &mut vec![*fill; *len]);
                return Ok((Ok("none".into()), vec![]));
            }
            let mut buf = vec![*fill; at + *len];
            let r = combined(f, *frame, &mut buf[at..])?;
            (r.map(|h| h.to_string()), buf.split_off(at))
        }
        Op::Names(i) => {
            let sel = guard("select_layers_by_name", || f.select_layers_by_name(NAMES[*i]))?;
            (Ok(format!("{sel:?}")), vec![])
        }
    })
}

/// On a load of its own, first thing.
fn fresh(bytes: &[u8], op: &Op) -> Result<Res, String> {
    match load(bytes)? {
        Ok(f) => perform(&f, op, 0),
        Err(_) => Ok((Err("not loaded".into()), vec![])),
    }
}

// --------------------------------------------------------------- histories

fn one_file(s: &mut Src<'_>, ctx: &mut Ctx) -> Vec<u8> {
    let mut d = match s.weighted(&[5, 2, 2]) {
        0 => gen::picture(s, &Pic { layers: 5, frames: 4, canvas: 6, link: 150, ..Pic::default() }),
        1 => {
            // with images that do not decode
            let o = Opts { images: Images::Any, odd_blend: true, canvas: 8, max_frames: 3, max_layers: 3, ..Opts::sprite() };
            gen::doc(s, &o)
        }
        _ => {
            let o = Opts { max_layers: 3, max_frames: 3, long: false, canvas: 8, cel_size: 6, ..Opts::loadable() };
            gen::doc(s, &o)
        }
    };
    if s.chance(30) {
        // one image of the picture damaged
        for c in d.frames.iter_mut().flat_map(|f| &mut f.chunks) {
            if let Body::Cel(CelM { content: Content::Zip { data, .. } | Content::Raw { data, .. }, .. }) = &mut c.body {
                let n = data.len();
                data.truncate(n.saturating_sub(1 + s.below(6)));
                ctx.label("damaged image");
                break;
            }
        }
    }
    if s.chance(24) {
        let (mut b, spans) = encode_spans(&d);
        super::robust::damage(s, &mut b, &spans, ctx);
        return b;
    }
    encode(&d)
}

/// A relative of a file: same shape, other contents at the same places.
fn sibling(s: &mut Src<'_>, b: &[u8]) -> Vec<u8> {
    let mut v = b.to_vec();
    if v.is_empty() {
        return v;
    }
    let k = 1 + s.below(4);
    for _ in 0..k {
        let n = v.len();
        let at = if n > 128 && s.chance(200) { 128 + s.below(n - 128) } else { s.below(n) };
        v[at] = v[at].wrapping_add(1 + s.below(255) as u8);
    }
    v
}

/// Sizes worth rendering; None for a file nobody should decode here.
struct Known {
    bytes: Vec<u8>,
    canvas: usize,
    images: Vec<usize>,
    frames: usize,
    loads: bool,
}

fn known(bytes: Vec<u8>) -> Result<Option<Known>, String> {
    let (canvas, images, frames, loads) = match load(&bytes)? {
        Ok(f) => {
            let (w, h) = f.size();
            let areas: Vec<usize> = f.images.iter().map(|i| usize::from(i.width) * usize::from(i.height)).collect();
            let c = usize::from(w) * usize::from(h);
            // decoding them again and again must stay cheap
            if c > 40_000 || areas.iter().any(|a| *a > 40_000) {
                return Ok(None);
            }
            (c * 4, areas.iter().map(|a| a * 4).collect(), f.frames().len(), true)
        }
        Err(_) => (0, vec![], 0, false),
    };
    const { assert!(40_000 < render::AREA_LIMIT) };
    Ok(Some(Known { bytes, canvas, images, frames, loads }))
}

fn op(s: &mut Src<'_>, k: &Known) -> Op {
    let len = |s: &mut Src<'_>, n: usize| match s.weighted(&[6, 2, 1]) {
        0 => n,
        1 => n + s.pick(&[1usize, 2, 3, 64]),
        _ => n.saturating_sub(1 + s.below(4)),
    };
    let fill = if s.chance(60) { s.byte() } else { 0 };
    if s.chance(10) {
        // out of range: such a call may panic
        let past = s.pick(&[0usize, 0, 1, 255, usize::MAX / 2]);
        return match s.below(3) {
            0 => Op::Image { index: k.images.len() + past, len: k.canvas, fill },
            1 => Op::Render { frame: k.frames + past, sel: s.below(2), len: k.canvas, fill },
            _ => Op::Combined { frame: k.frames + past, len: k.canvas, fill },
        };
    }
    match s.weighted(&[6, 3, 3, 2, 1, 1]) {
        0 => Op::Render {
            frame: s.below(k.frames.max(1)),
            sel: if s.chance(90) { s.byte().into() } else { s.below(2) },
            len: len(s, k.canvas),
            fill,
        },
        1 if !k.images.is_empty() => {
            let index = s.below(k.images.len());
            Op::Image { index, len: len(s, k.images[index]), fill }
        }
        2 => Op::Combined { frame: s.below(k.frames.max(1)), len: len(s, k.canvas), fill },
        3 => Op::Report,
        4 => Op::Names(s.below(NAMES.len())),
        _ => Op::Load,
    }
}

fn files(s: &mut Src<'_>, ctx: &mut Ctx) -> Result<Vec<Known>, String> {
    let n = 1 + s.below(3);
    let mut v = vec![];
    for _ in 0..n {
        let b = one_file(s, ctx);
        if s.chance(100) {
            let t = sibling(s, &b);
            v.extend(known(t)?);
        }
        v.extend(known(b)?);
    }
    Ok(v)
}

fn same(what: &str, op: &Op, got: &Res, want: &Res) -> R {
    match (&got.0, &want.0) {
        (Ok(a), Ok(b)) => ensure!(a == b, "{what}: {op:?} gives {a:.200} instead of {b:.200}"),
        (Err(_), Err(_)) => {}
        (a, b) => return Err(format!("{what}: {op:?} gives {a:.200?} instead of {b:.200?}")),
    }
    if let Some(p) = (0..want.1.len()).find(|p| got.1[*p] != want.1[*p]) {
        return Err(format!("{what}: {op:?} gives byte {p} = {} instead of {}", got.1[p], want.1[p]));
    }
    Ok(())
}

/// A long history on several loaded files, each result compared with that of
/// the same operation as the very first on a fresh load.
fn histories(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    let ks = files(s, ctx)?;
    if ks.is_empty() {
        ctx.label("files too large");
        return Ok(());
    }
    let n = 8 + s.below(24);
    let steps: Vec<(usize, Op)> = (0..n)
        .map(|_| {
            let i = s.below(ks.len());
            (i, op(s, &ks[i]))
        })
        .collect();
    check_history(s, ctx, &ks, &steps)
}

/// Hundreds of calls out of a few different ones, and as many loads.
fn long(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    s.grow();
    s.grow = crate::src::Grow::NONE;
    let ks = files(s, ctx)?;
    if ks.is_empty() {
        ctx.label("files too large");
        return Ok(());
    }
    let pool: Vec<(usize, Op)> = (0..1 + s.below(12))
        .map(|_| {
            let i = s.below(ks.len());
            (i, op(s, &ks[i]))
        })
        .collect();
    let n = s.pick(&[130usize, 260, 300, 520, 1100]) + s.below(20);
    let mut b = s.bulk();
    let reload = s.pick(&[2u64, 3, 10, 300]);
    let steps: Vec<(usize, Op)> = (0..n)
        .map(|_| {
            let (i, o) = pool[b.below(pool.len() as u64) as usize].clone();
            (i, if b.below(reload) == 0 { Op::Load } else { o })
        })
        .collect();
    check_history(s, ctx, &ks, &steps)
}

fn check_history(s: &mut Src<'_>, ctx: &mut Ctx, ks: &[Known], steps: &[(usize, Op)]) -> R {
    ctx.describe(|| format!("{} files, {:?}", ks.len(), steps));
    ctx.input(&ks[0].bytes);
    let mut want: HashMap<(usize, &Op), Res> = HashMap::new();
    for (i, o) in steps {
        if let std::collections::hash_map::Entry::Vacant(e) = want.entry((*i, o)) {
            e.insert(fresh(&ks[*i].bytes, o)?);
        }
    }
    // the instances, each at another place in memory and loaded at another time
    let places: Vec<Vec<u8>> = ks
        .iter()
        .map(|k| {
            let pad = s.below(17);
            let mut v = vec![0xcc; pad];
            v.extend(&k.bytes);
            // other bytes behind the file
            v.extend(&k.bytes[..k.bytes.len().min(40)]);
            v
        })
        .collect();
    let at = |i: usize| {
        let k = &ks[i];
        let pad = places[i].len() - k.bytes.len() - k.bytes.len().min(40);
        &places[i][pad..pad + k.bytes.len()]
    };
    let mut inst: Vec<Option<AsepriteFile<'_>>> = ks.iter().map(|_| None).collect();
    let mut failures = 0;
    for (step, (i, o)) in steps.iter().enumerate() {
        if inst[*i].is_none() || *o == Op::Load {
            let r = load(at(*i))?;
            eq!(format!("step {step}: file {i} loads"), r.is_ok(), ks[*i].loads);
            inst[*i] = r.ok();
        }
        let Some(f) = &inst[*i] else {
            failures += 1;
            continue;
        };
        let got = perform(f, o, step % 8)?;
        failures += usize::from(got.0.is_err());
        same(&format!("step {step}, file {i}"), o, &got, &want[&(*i, o)])?;
        ctx.evaluations(1);
    }
    ctx.label_if(failures > 0, "failures on the way");
    ctx.label_if(ks.len() > 1, "several files");
    if steps.len() >= 8 && ks.iter().any(|k| k.loads) {
        ctx.nontrivial(&(ks.iter().map(|k| &k.bytes).collect::<Vec<_>>(), steps));
    }
    Ok(())
}

/// The same operations from several threads at once.
fn threads(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    let ks = files(s, ctx)?;
    if ks.is_empty() {
        ctx.label("files too large");
        return Ok(());
    }
    let n = 2 + s.below(3);
    let mut plans: Vec<Vec<(usize, Op)>> = vec![];
    let like_first = s.bool();
    for t in 0..n {
        let m = 4 + s.below(12);
        if like_first && t > 0 {
            // the same work in another order
            let mut p = plans[0].clone();
            let by = s.below(p.len());
            p.rotate_left(by);
            plans.push(p);
            continue;
        }
        plans.push(
            (0..m)
                .map(|_| {
                    let i = s.below(ks.len());
                    (i, op(s, &ks[i]))
                })
                .collect(),
        );
    }
    ctx.describe(|| format!("{} files, threads {:?}", ks.len(), plans));
    ctx.input(&ks[0].bytes);
    let mut want: HashMap<(usize, &Op), Res> = HashMap::new();
    for (i, o) in plans.iter().flatten() {
        if let std::collections::hash_map::Entry::Vacant(e) = want.entry((*i, o)) {
            e.insert(fresh(&ks[*i].bytes, o)?);
        }
    }
    let shared: Vec<Option<AsepriteFile<'_>>> =
        ks.iter().map(|k| load(&k.bytes).map(|r| r.ok())).collect::<Result<_, _>>()?;
    let may_share = sharing();
    let rounds = 3;
    let gate = std::sync::Barrier::new(plans.len());
    let common = Share(&shared);
    let results: Vec<R> = std::thread::scope(|sc| {
        let hs: Vec<_> = plans
            .iter()
            .enumerate()
            .map(|(t, plan)| {
                let (gate, want, ks) = (&gate, &want, &ks);
                sc.spawn(move || -> R {
                    gate.wait();
                    for _ in 0..rounds {
                        for (i, o) in plan {
                            let own;
                            let f = if may_share && *o != Op::Load {
                                common.get()[*i].as_ref()
                            } else {
                                own = load(&ks[*i].bytes)?.ok();
                                own.as_ref()
                            };
                            eq!(format!("thread {t}: file {i} loads"), f.is_some(), ks[*i].loads);
                            if let Some(f) = f {
                                same(&format!("thread {t}, file {i}"), o, &perform(f, o, t % 8)?, &want[&(*i, o)])?;
                            }
                        }
                    }
                    Ok(())
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("thread died".into()))).collect()
    });
    ctx.evaluations((rounds * plans.iter().map(Vec::len).sum::<usize>()) as u64);
    ctx.label_if(may_share, "instances shared between threads");
    if ks.iter().any(|k| k.loads) {
        ctx.nontrivial(&(ks.iter().map(|k| &k.bytes).collect::<Vec<_>>(), &plans));
    }
    results.into_iter().collect()
}

/// Files of the same layout: every field at the same place, some pixels, colours, opacities
/// and letters different.
fn twins(s: &mut Src<'_>) -> Vec<Doc> {
    let mut d = gen::picture(s, &Pic { layers: 3, frames: 3, canvas: 6, link: 60, background: false, ..Pic::default() });
    let pixels = |c: &Content| -> Option<Vec<u8>> {
        match c {
            Content::Raw { data, .. } => Some(data.clone()),
            Content::Zip { data, .. } => {
                use std::io::Read;
                let mut v = vec![];
                flate2::read::ZlibDecoder::new(&data[..]).take(1 << 20).read_to_end(&mut v).ok()?;
                Some(v)
            }
            _ => None,
        }
    };
    // compressed without compressing: the length does not depend on the data
    let store = |c: &mut Content, px: Vec<u8>| match c {
        Content::Raw { data, .. } => *data = px,
        Content::Zip { data, .. } => {
            use std::io::Write;
            let mut z = flate2::write::ZlibEncoder::new(vec![], flate2::Compression::none());
            z.write_all(&px).and_then(|()| z.finish()).map(|v| *data = v).unwrap();
        }
        _ => {}
    };
    for c in d.frames.iter_mut().flat_map(|f| &mut f.chunks) {
        if let Body::Cel(c) = &mut c.body {
            if let Some(px) = pixels(&c.content) {
                store(&mut c.content, px);
            }
        }
    }
    let mut v = vec![d.clone()];
    for _ in 0..1 + s.below(3) {
        let mut changed = false;
        let n = d.frames.iter().map(|f| f.chunks.len()).sum::<usize>();
        for _ in 0..12 {
            let at = s.below(n.max(1));
            let Some(c) = d.frames.iter_mut().flat_map(|f| &mut f.chunks).nth(at) else { break };
            match &mut c.body {
                Body::Cel(c) => match pixels(&c.content) {
                    Some(mut px) if !px.is_empty() && s.chance(200) => {
                        let at = match s.below(3) {
                            0 => px.len() - 1,
                            1 => 0,
                            _ => s.below(px.len()),
                        };
                        px[at] = if d.head.depth == 8 { s.byte() % 4 } else { px[at] ^ (1 + s.below(255)) as u8 };
                        store(&mut c.content, px);
                        changed = true;
                    }
                    _ => {
                        c.opacity ^= 1 + s.below(255) as u8;
                        changed = true;
                    }
                },
                Body::Layer(l) => {
                    l.flags ^= 1;
                    l.name = l.name.chars().map(|c| if c.is_ascii_digit() { '7' } else { c }).collect();
                    changed = true;
                }
                Body::Palette(p) if !p.entries.is_empty() => {
                    let i = s.below(p.entries.len());
                    p.entries[i].color[s.below(3)] ^= 0x55;
                    changed = true;
                }
                _ => {}
            }
            if changed && s.bool() {
                break;
            }
        }
        v.push(d.clone());
    }
    v
}

/// One buffer that holds one file after the other, as a program does that
/// reads them in a loop.
fn same_place(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    let docs = twins(s);
    let mut ks = vec![];
    for d in &docs {
        ks.extend(known(encode(d))?);
    }
    eq!("files", ks.len(), docs.len());
    let n = 3 + s.below(8);
    let steps: Vec<(usize, Vec<Op>)> = (0..n)
        .map(|_| {
            let i = s.below(ks.len());
            let mut ops: Vec<Op> = (0..1 + s.below(4)).map(|_| op(s, &ks[i])).collect();
            if let Some(index) = (!ks[i].images.is_empty()).then(|| s.below(ks[i].images.len())) {
                ops.push(Op::Image { index, len: ks[i].images[index], fill: 0 });
            }
            (i, ops)
        })
        .collect();
    ctx.describe(|| format!("{} files in one place, {:?}", ks.len(), steps));
    ctx.input(&ks[0].bytes);
    ctx.label_if(ks.iter().all(|k| k.bytes.len() == ks[0].bytes.len()), "files of the same length");
    let mut place = vec![0; ks.iter().map(|k| k.bytes.len()).max().unwrap_or(0)];
    // expected: from the files at places of their own
    let mut wants: Vec<Vec<Res>> = vec![];
    for (i, ops) in &steps {
        wants.push(ops.iter().map(|o| fresh(&ks[*i].bytes, o)).collect::<Result<_, _>>()?);
    }
    for (step, (i, ops)) in steps.iter().enumerate() {
        let place = &mut place[..ks[*i].bytes.len()];
        place.copy_from_slice(&ks[*i].bytes);
        let f = load(place)?;
        eq!(format!("step {step}: file {i} loads"), f.is_ok(), ks[*i].loads);
        let Ok(f) = f else { continue };
        for (o, w) in ops.iter().zip(&wants[step]) {
            same(&format!("step {step}, file {i}"), o, &perform(&f, o, step % 8)?, w)?;
            ctx.evaluations(1);
        }
        // and whatever came before: what the format says
        let d = &docs[*i];
        let v = must(view::resolve(d));
        let lv = must(view::load_view(d, &v));
        view::loader(d, &v, &lv, &f).map_err(|e| format!("step {step}, file {i}: {e}"))?;
        for fi in 0..lv.frames.len() {
            let mut want = vec![0; canvas(d)];
            must(render::frame(d, &lv, fi, &|_| true, render::Background::SeeThrough, &mut want));
            let got = perform(&f, &Op::Render { frame: fi, sel: 1, len: want.len(), fill: 0 }, 0)?;
            same(&format!("step {step}, file {i}, frame {fi}"), &Op::Report, &got, &(Ok(String::new()), want))?;
        }
    }
    if ks.len() > 1 && ks.iter().any(|k| k.loads) {
        ctx.nontrivial(&(ks.iter().map(|k| &k.bytes).collect::<Vec<_>>(), &steps));
    }
    Ok(())
}

/// The same bytes at every alignment, with anything in front and behind.
fn places(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    let b = one_file(s, ctx);
    let Some(k) = known(b)? else { return Ok(()) };
    ctx.input(&k.bytes);
    ctx.describe(|| format!("{} bytes at all alignments", k.bytes.len()));
    let mut ops = vec![Op::Report];
    for frame in 0..k.frames.min(3) {
        ops.push(Op::Combined { frame, len: k.canvas, fill: 0 });
    }
    for (index, n) in k.images.iter().enumerate().take(3) {
        ops.push(Op::Image { index, len: *n, fill: 0 });
    }
    let want: Vec<Res> = ops.iter().map(|o| fresh(&k.bytes, o)).collect::<Result<_, _>>()?;
    for pad in 0..17usize {
        let before = s.byte();
        let mut v = vec![before; pad];
        v.extend(&k.bytes);
        // what lies behind could be read as more of the file
        let behind = s.below(64);
        v.extend((0..behind).map(|i| k.bytes.get(i * 7 % k.bytes.len().max(1)).copied().unwrap_or(before)));
        let place = &v[pad..pad + k.bytes.len()];
        let r = load(place)?;
        eq!(format!("loads at offset {pad}"), r.is_ok(), k.loads);
        if let Ok(f) = r {
            for (o, w) in ops.iter().zip(&want) {
                same(&format!("at offset {pad}"), o, &perform(&f, o, pad * 3 % 8)?, w)?;
            }
            // the target of a rendering at any place, too
            for (frame, w) in ops.iter().zip(&want).filter_map(|(o, w)| match o {
                Op::Combined { frame, .. } => Some((*frame, w)),
                _ => None,
            }) {
                let mut buf = vec![0; k.canvas + 32];
                let at = s.below(16);
                let r = combined(&f, frame, &mut buf[at..at + k.canvas])?;
                let got = (r.map(|h| h.to_string()), buf[at..at + k.canvas].to_vec());
                same(
                    &format!("target at offset {at}"),
                    &Op::Combined { frame, len: k.canvas, fill: 0 },
                    &got,
                    w,
                )?;
            }
        }
        ctx.evaluations(1);
    }
    if k.loads && k.frames > 0 {
        ctx.nontrivial(&k.bytes);
    }
    Ok(())
}

// ---------------------------------------------------------------- processes

/// All that a file gives, with hashes in place of pixels.
fn transcript(bytes: &[u8]) -> Result<Vec<String>, String> {
    let f = match load(bytes)? {
        Ok(f) => f,
        Err(e) => return Ok(vec![format!("not loaded: {}", e.escape_debug())]),
    };
    let mut v = vec![hash(&report(&f)).to_string()];
    let (w, h) = f.size();
    let canvas = usize::from(w) * usize::from(h) * 4;
    let mut ops = vec![];
    for index in 0..f.images.len().min(8) {
        let i = &f.images[index];
        ops.push(Op::Image { index, len: usize::from(i.width) * usize::from(i.height) * 4, fill: 0 });
    }
    for frame in 0..f.frames().len().min(8) {
        ops.push(Op::Combined { frame, len: canvas, fill: 0 });
        ops.push(Op::Render { frame, sel: 1, len: canvas, fill: 7 });
    }
    ops.extend((0..NAMES.len()).map(Op::Names));
    for o in &ops {
        let (r, px) = perform(&f, o, 0)?;
        v.push(match r {
            // the hash of a frame as it is
            Ok(t) => format!("{o:?}: {t} {:x}", hash(&px)),
            Err(e) => format!("{o:?}: {} {:x}", e.escape_debug(), hash(&px)),
        });
    }
    Ok(v)
}

/// The transcripts of the files on the standard input (`harness transcript`).
pub fn transcripts() -> i32 {
    use std::io::{Read, Write};
    let mut b = vec![];
    if std::io::stdin().read_to_end(&mut b).is_err() {
        return 2;
    }
    if std::env::args().any(|a| a == "alone") {
        // SAFETY: a plain bit set; on one processor only
        unsafe {
            let mut set: libc::cpu_set_t = std::mem::zeroed();
            if libc::sched_getaffinity(0, std::mem::size_of_val(&set), &mut set) == 0 {
                let first = (0..1024).find(|c| libc::CPU_ISSET(*c, &set)).unwrap_or(0);
                libc::CPU_ZERO(&mut set);
                libc::CPU_SET(first, &mut set);
                libc::sched_setaffinity(0, std::mem::size_of_val(&set), &set);
            }
        }
    }
    crate::runner::install_hook();
    let mut out = vec![];
    let mut at = 0;
    while at + 4 <= b.len() {
        let n = u32::from_le_bytes(b[at..at + 4].try_into().unwrap()) as usize;
        let t = transcript(&b[at + 4..at + 4 + n]).unwrap_or_else(|e| vec![e.escape_debug().to_string()]);
        out.push(t.join("\n"));
        at += 4 + n;
    }
    let text = out.join("\0");
    let mut o = std::io::stdout();
    i32::from(o.write_all(text.as_bytes()).and_then(|()| o.flush()).is_err())
}

/// What another process makes of the files; None if there is no such process.
fn elsewhere(input: &[u8], odd: bool) -> Option<String> {
    use std::io::Write;
    use std::process::{Command, Stdio};
    let mut c = Command::new(std::env::current_exe().ok()?);
    c.arg("transcript").current_dir("/").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null());
    if odd {
        c.arg("alone").env_clear();
        for (k, v) in [
            ("RUST_LOG", "trace"),
            ("RUST_BACKTRACE", "full"),
            ("DEBUG", "1"),
            ("CI", "1"),
            ("NO_COLOR", "1"),
            ("LANG", "tr_TR.ISO-8859-9"),
            ("LC_ALL", "tr_TR.ISO-8859-9"),
            ("TZ", "Pacific/Chatham"),
            ("HOME", "/nonexistent"),
        ] {
            c.env(k, v);
        }
        // names that occur in the code under test
        for k in crate::src::strings() {
            if !k.is_empty() && k.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'_') && !k.starts_with("LD_") {
                c.env(k, "1");
            }
        }
    }
    let mut child = c.spawn().ok()?;
    let mut to = child.stdin.take()?;
    to.write_all(input).ok()?;
    drop(to);
    let out = child.wait_with_output().ok()?;
    String::from_utf8(out.stdout).ok().filter(|_| out.status.success())
}

/// Other processes, with another environment and on other processors, get the
/// same results, down to the hashes of the frames.
pub fn processes(s: &mut Src<'_>, ctx: &mut Ctx) -> R {
    s.grow();
    s.grow = crate::src::Grow::NONE;
    let mut all = vec![];
    let n = 1 + s.below(24);
    for _ in 0..n {
        let b = one_file(s, ctx);
        all.extend(known(b)?);
    }
    if all.is_empty() {
        ctx.label("files too large");
        return Ok(());
    }
    ctx.describe(|| format!("{} files in other processes", all.len()));
    ctx.input(&all[0].bytes);
    let mut input = vec![];
    for k in &all {
        input.extend((k.bytes.len() as u32).to_le_bytes());
        input.extend(&k.bytes);
    }
    let want: Vec<String> =
        all.iter().map(|k| transcript(&k.bytes).map(|t| t.join("\n"))).collect::<Result<_, _>>()?;
    for odd in [false, true] {
        // a process may also be ended from outside: only answers count
        let Some(got) = elsewhere(&input, odd).or_else(|| elsewhere(&input, odd)) else {
            ctx.label("no other process");
            continue;
        };
        let got: Vec<&str> = got.split('\0').collect();
        eq!("number of transcripts", got.len(), want.len());
        for (i, (g, w)) in got.iter().zip(&want).enumerate() {
            if let Some((a, b)) = g.lines().zip(w.lines()).find(|(a, b)| a != b) {
                return Err(format!(
                    "file {i} ({} bytes): {a:.200} in another process{}, {b:.200} in this one",
                    all[i].bytes.len(),
                    if odd { " with another environment" } else { "" }
                ));
            }
            eq!(format!("file {i}: lines"), g.lines().count(), w.lines().count());
        }
        ctx.evaluations(got.len() as u64);
    }
    if all.iter().filter(|k| k.loads && k.frames > 0).count() > 1 {
        ctx.nontrivial(&input);
    }
    Ok(())
}

// ------------------------------------------------------------------ table

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "P22",
        rule: "a history of at least eight operations on files of which some load, a set of thread plans, a file at all alignments, files of which several load in other processes; distinct",
        assumptions: &[
            "interleavings of threads are those the machine happens to produce",
            "fresh results are themselves compared with the format by P14, P15 and P18",
        ],
        families: vec![
            fam("histories", histories, (240_000, 6_000_000), 500),
            fam("long", long, (12_000, 300_000), 400),
            fam("threads", threads, (16_000, 600_000), 400),
            fam("same place", same_place, (100_000, 2_500_000), 400),
            fam("places", places, (80_000, 1_600_000), 300),
            fam("processes", processes, (4_000, 100_000), 200),
        ],
    }]
}
