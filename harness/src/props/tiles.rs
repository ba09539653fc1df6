//! C21-C28: the tilemap and integer rectangles against models.

use crate::ensure;
use crate::gen::*;
use crate::geo::{self, v, Body};
use crate::query::EPS;
use crate::runner::{Ctx, Prop, Verdict};
use crate::src::Src;
use auburn::col2d::*;
use auburn::utils::rect2::Rect2i32;
use lk_math::vector::V2i32;
use std::collections::HashMap;

type P = (i32, i32);

fn v2(p: P) -> V2i32 {
    V2i32::from_xy(p.0, p.1)
}
fn pv(p: V2i32) -> P {
    (p.x(), p.y())
}
fn chunk_of(p: P) -> P {
    (p.0.div_euclid(16), p.1.div_euclid(16))
}

/// What a tilemap is supposed to be.
#[derive(Default, Clone)]
pub struct Model {
    pub chunks: HashMap<P, HashMap<P, u8>>,
}

#[derive(Debug, PartialEq, Clone, Copy)]
pub enum Ev {
    Created(P),
    Removed(P),
    Changed(P),
}

pub fn ev(e: &TilemapEvent) -> Ev {
    match e {
        TilemapEvent::ChunkCreated(c) => Ev::Created(pv(*c)),
        TilemapEvent::ChunkRemoved(c) => Ev::Removed(pv(*c)),
        TilemapEvent::ChunkChanged(c) => Ev::Changed(pv(*c)),
    }
}

impl Model {
    pub fn get(&self, p: P) -> u8 {
        self.chunks
            .get(&chunk_of(p))
            .and_then(|c| c.get(&p).copied())
            .unwrap_or(0)
    }
    pub fn set(&mut self, p: P, t: u8) -> Option<Ev> {
        let c = chunk_of(p);
        let old = self.get(p);
        let fresh = !self.chunks.contains_key(&c);
        let tiles = self.chunks.entry(c).or_default();
        if t == 0 {
            tiles.remove(&p);
        } else {
            tiles.insert(p, t);
        }
        if fresh {
            Some(Ev::Created(c))
        } else if old != t {
            Some(Ev::Changed(c))
        } else {
            None
        }
    }
    pub fn remove(&mut self, p: P) -> Option<Ev> {
        let c = chunk_of(p);
        let old = self.get(p);
        let tiles = self.chunks.get_mut(&c)?;
        tiles.remove(&p);
        if tiles.is_empty() {
            self.chunks.remove(&c);
            Some(Ev::Removed(c))
        } else if old != 0 {
            Some(Ev::Changed(c))
        } else {
            None
        }
    }
}

#[derive(Debug, Clone, Copy)]
pub enum Op {
    Set(P, u8),
    Remove(P),
}

/// Positions that revisit each other, sit on chunk borders, are negative, or extreme.
struct Places {
    base: P,
    spread: i64,
    used: Vec<P>,
}

impl Places {
    fn new(s: &mut Src) -> Places {
        let far = |s: &mut Src| match s.weighted(&[6, 2, 1, 1]) {
            0 => 0i32,
            1 => s.sint(100_000) as i32,
            2 => i32::MAX,
            _ => i32::MIN,
        };
        Places {
            base: (far(s), far(s)),
            spread: s.pick(&[2, 20, 40, 200]),
            used: vec![],
        }
    }
    fn coord(&self, s: &mut Src, base: i32) -> i32 {
        let k = match s.weighted(&[3, 3]) {
            0 => s.sint(self.spread) as i32,
            // next to a chunk border
            _ => (s.sint(3) * 16 + s.pick(&[0i64, -1, 15, 1, 8])) as i32,
        };
        base.saturating_add(k)
    }
    fn next(&mut self, s: &mut Src) -> P {
        if !self.used.is_empty() && s.chance(45) {
            return self.used[s.below(self.used.len())];
        }
        let p = (self.coord(s, self.base.0), self.coord(s, self.base.1));
        self.used.push(p);
        p
    }
}

/// Part of a history: one operation, or many described by a few numbers.
#[derive(Debug, Clone, Copy)]
enum Item {
    One(Op),
    /// Tiles of a rectangle, row by row.
    Fill { min: P, size: P, tile: u8 },
    Clear { min: P, size: P },
    /// Places `step` apart along a row or column.
    Line { from: P, step: P, count: i32, tile: u8 },
    Unline { from: P, step: P, count: i32 },
    /// One place changed again and again.
    Toggle { at: P, count: i32 },
}

impl Item {
    fn expand(&self, out: &mut Vec<Op>) {
        let at = |p: P, x: i32, y: i32| (p.0.saturating_add(x), p.1.saturating_add(y));
        let area = |min: P, size: P| (0..size.1).flat_map(move |y| (0..size.0).map(move |x| at(min, x, y)));
        let line = |from: P, step: P, count: i32| (0..count).map(move |i| at(from, i * step.0, i * step.1));
        match *self {
            Item::One(o) => out.push(o),
            Item::Fill { min, size, tile } => out.extend(area(min, size).map(|p| Op::Set(p, tile))),
            Item::Clear { min, size } => out.extend(area(min, size).map(Op::Remove)),
            Item::Line { from, step, count, tile } => out.extend(line(from, step, count).map(|p| Op::Set(p, tile))),
            Item::Unline { from, step, count } => out.extend(line(from, step, count).map(Op::Remove)),
            Item::Toggle { at, count } => out.extend((0..count).map(|i| match i % 5 {
                3 => Op::Remove(at),
                k => Op::Set(at, (i / 5 % 250) as u8 + k as u8 + 1),
            })),
        }
    }
}

struct History {
    items: Vec<Item>,
    ops: Vec<Op>,
    used: Vec<P>,
    bulk: bool,
}

fn history(s: &mut Src, n: i64) -> History {
    let mut places = Places::new(s);
    let n = s.int(1, n);
    let huge = s.below(4000) == 3999;
    let bulk = huge || s.chance(2);
    let tile = |s: &mut Src| match s.weighted(&[5, 2, 3]) {
        0 => 1,
        1 => 0,
        _ => s.below(256) as u8,
    };
    let mut last: Option<Item> = None;
    // now and then thousands of places at once
    let at = if huge { s.below(n as usize) as i64 } else { -1 };
    let items: Vec<Item> = (0..n)
        .map(|i| {
            let p = places.next(s);
            if i == at {
                let i = Item::Line {
                    from: p,
                    step: s.pick(&[(16, 0), (0, 16), (1, 0), (-16, -16), (5, 3)]),
                    count: s.pick(&[2200, 600, 5000]),
                    tile: tile(s),
                };
                last = Some(i);
                return i;
            }
            if bulk && s.chance(15) {
                // half of the time undo what an earlier one did, whole or in part
                let i = match last {
                    Some(Item::Fill { min, size, .. }) if s.chance(50) => Item::Clear {
                        min,
                        size: if s.chance(30) { (size.0, (size.1 - 1).max(1)) } else { size },
                    },
                    Some(Item::Line { from, step, count, .. }) if s.chance(50) => Item::Unline { from, step, count },
                    _ => match s.weighted(&[3, 3, 1]) {
                        0 => {
                            let size = s.pick(&[(16, 16), (17, 16), (16, 5), (3, 40), (40, 3), (33, 33)]);
                            // often a whole chunk
                            let min = if s.chance(60) { (p.0 & !15, p.1 & !15) } else { p };
                            Item::Fill { min, size, tile: tile(s) }
                        }
                        1 => Item::Line {
                            from: p,
                            step: s.pick(&[(1, 0), (0, 1), (16, 0), (0, 16), (-16, -16), (16, -16), (1, 16), (997, 31)]),
                            count: s.pick(&[300, 20, 40, 70, 130]),
                            tile: tile(s),
                        },
                        _ => Item::Toggle { at: p, count: s.pick(&[300, 70, 1100]) },
                    },
                };
                last = Some(i);
                return i;
            }
            Item::One(match s.weighted(&[6, 4]) {
                0 => Op::Set(p, tile(s)),
                _ => Op::Remove(p),
            })
        })
        .collect();
    let mut ops = vec![];
    for i in &items {
        i.expand(&mut ops);
    }
    let mut used = places.used;
    if bulk {
        for o in &ops {
            let (Op::Set(p, _) | Op::Remove(p)) = *o;
            used.push(p);
        }
        used.sort();
        used.dedup();
    }
    History { items, ops, used, bulk }
}

impl History {
    fn note(&self, ctx: &mut Ctx) {
        for i in &self.items {
            match i {
                Item::One(o) => note(ctx, &[*o]),
                Item::Fill { min: p, size: q, .. }
                | Item::Clear { min: p, size: q }
                | Item::Line { from: p, step: q, .. }
                | Item::Unline { from: p, step: q, .. } => {
                    ctx.id(p.0 as u32 as u64 | (p.1 as u32 as u64) << 32);
                    ctx.id(!(q.0 as u32 as u64 | (q.1 as u32 as u64) << 32));
                }
                Item::Toggle { at: p, count } => {
                    ctx.id(p.0 as u32 as u64 | (p.1 as u32 as u64) << 32);
                    ctx.id(!*count as u64);
                }
            }
        }
        if self.ops.len() > 2000 {
            ctx.label("over 2000 operations");
        }
        if self.bulk {
            ctx.label("with bulk operations");
        }
    }
}

fn note(ctx: &mut Ctx, ops: &[Op]) {
    for o in ops {
        match o {
            Op::Set(p, t) => {
                ctx.id(p.0 as u32 as u64 | (p.1 as u32 as u64) << 32);
                ctx.id(*t as u64);
            }
            Op::Remove(p) => ctx.id(!(p.0 as u32 as u64 | (p.1 as u32 as u64) << 32)),
        }
    }
}

fn apply(m: &mut Tilemap, o: &Op) {
    match o {
        Op::Set(p, t) => m.set_tile(v2(*p), *t),
        Op::Remove(p) => m.remove_tile(v2(*p)),
    }
}
fn apply_model(m: &mut Model, o: &Op) -> Option<Ev> {
    match o {
        Op::Set(p, t) => m.set(*p, *t),
        Op::Remove(p) => m.remove(*p),
    }
}

/// Every position used plus its neighbours and chunk mates.
fn probes(s: &mut Src, used: &[P]) -> Vec<P> {
    let mut out = used.to_vec();
    for _ in 0..6 {
        if used.is_empty() {
            break;
        }
        let p = used[s.below(used.len())];
        let d = s.pick(&[(1, 0), (-1, 0), (0, 1), (0, -1), (16, 0), (0, 16), (-16, 0), (0, -16)]);
        out.push((p.0.wrapping_add(d.0), p.1.wrapping_add(d.1)));
        out.push((p.1, p.0));
    }
    out
}

fn tiles(s: &mut Src, ctx: &mut Ctx) -> Verdict {
    let h = history(s, 40);
    let ops = &h.ops;
    h.note(ctx);
    ctx.desc(|| format!("{:?}", h.items));
    let mut map = Tilemap::default();
    let mut model = Model::default();
    let probe = probes(s, &h.used);
    let mut hit = false;
    let mut hash = 0usize;
    for o in ops {
        apply(&mut map, o);
        apply_model(&mut model, o);
        let (Op::Set(p, _) | Op::Remove(p)) = *o;
        // the place itself, another one used before or later, and the place again
        hash = hash.wrapping_mul(0x9E37_79B9).wrapping_add((p.0 ^ p.1.rotate_left(7)) as u32 as usize);
        let q = h.used[(hash >> 7) % h.used.len()];
        for p in [p, q, p] {
            let got = map.get_tile(v2(p));
            ensure!(got == model.get(p), "after {o:?}, get_tile({p:?}) = {got}, expected {}", model.get(p));
        }
    }
    for p in &probe {
        let want = model.get(*p);
        hit |= want != 0;
        ensure!(map.get_tile(v2(*p)) == want, "get_tile({p:?}) = {}, expected {want}", map.get_tile(v2(*p)));
    }
    ctx.nontrivial = hit && ops.len() > 2;
    Ok(())
}

fn chunk_agrees(map: &Tilemap, model: &Model, c: P) -> Verdict {
    let got = map.get_chunk(&v2(c));
    let want = model.chunks.get(&c);
    ensure!(
        got.is_some() == want.is_some(),
        "get_chunk({c:?}) is {}, expected {}",
        if got.is_some() { "there" } else { "missing" },
        if want.is_some() { "there" } else { "missing" }
    );
    let (Some(got), Some(want)) = (got, want) else { return Ok(()) };
    let mut n = 0;
    for y in 0..16 {
        for x in 0..16 {
            let Some(t) = got.array2d.get(v2((x, y))) else {
                return Err(format!("chunk {c:?} has no tile ({x}, {y})"));
            };
            n += (*t != 0) as usize;
        }
    }
    ensure!(n == want.len(), "chunk {c:?} holds {n} tiles, expected {}", want.len());
    for (p, t) in want {
        let l = (p.0.rem_euclid(16), p.1.rem_euclid(16));
        let g = got.array2d.get(v2(l)).copied();
        ensure!(g == Some(*t), "chunk {c:?} holds {g:?} at {l:?}, expected tile {t} set at {p:?}");
        let r = map.get_tile(v2(*p));
        ensure!(r == *t, "chunk {c:?} holds tile {t} for {p:?}, but get_tile({p:?}) = {r}");
    }
    Ok(())
}

fn chunks_of(used: &[P]) -> Vec<P> {
    let mut cs: Vec<P> = used.iter().map(|p| chunk_of(*p)).collect();
    cs.sort();
    cs.dedup();
    cs
}

fn chunks(s: &mut Src, ctx: &mut Ctx) -> Verdict {
    let h = history(s, 40);
    h.note(ctx);
    ctx.desc(|| format!("{:?}", h.items));
    let mut map = Tilemap::default();
    let mut model = Model::default();
    let mut removed = false;
    for (i, o) in h.ops.iter().enumerate() {
        apply(&mut map, o);
        removed |= matches!(apply_model(&mut model, o), Some(Ev::Removed(_)));
        let (Op::Set(p, _) | Op::Remove(p)) = *o;
        let c = chunk_of(p);
        ensure!(
            map.get_chunk(&v2(c)).is_some() == model.chunks.contains_key(&c),
            "after {o:?}, chunk {c:?} is {}", if map.get_chunk(&v2(c)).is_some() { "there" } else { "missing" }
        );
        // its contents too, now and then
        if i % 8 == 5 {
            chunk_agrees(&map, &model, c).map_err(|m| format!("after operation {i}, {o:?}, {m}"))?;
        }
    }
    for c in chunks_of(&h.used) {
        chunk_agrees(&map, &model, c)?;
        chunk_agrees(&map, &model, (c.0.wrapping_add(1), c.1))?;
        chunk_agrees(&map, &model, (c.1, c.0))?;
    }
    ctx.nontrivial = removed && !model.chunks.is_empty();
    Ok(())
}

/// The part of a list around its first difference to another.
fn head(a: &[Ev], b: &[Ev]) -> String {
    let i = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    let i = i.saturating_sub(2);
    format!("{}{:?}", if i > 0 { format!("[{i} equal].. ") } else { String::new() }, &a[i..a.len().min(i + 6)])
}

fn events(s: &mut Src, ctx: &mut Ctx) -> Verdict {
    let h = history(s, 40);
    h.note(ctx);
    ctx.desc(|| format!("{:?}", h.items));
    let mut map = Tilemap::default();
    let mut model = Model::default();
    ensure!(map.events.events.is_empty(), "a new tilemap has events");
    let mut want = vec![];
    let drain = s.chance(20);
    let (mut c, mut r, mut ch) = (false, false, false);
    for (i, o) in h.ops.iter().enumerate() {
        apply(&mut map, o);
        let e = apply_model(&mut model, o);
        match e {
            Some(Ev::Created(_)) => c = true,
            Some(Ev::Removed(_)) => r = true,
            Some(Ev::Changed(_)) => ch = true,
            None => {}
        }
        want.extend(e);
        // all of them for short lists and now and then, else the newest
        let all = want.len() < 64 || i % 128 == 0 || i + 1 == h.ops.len();
        let skip = if all { 0 } else { want.len() - 3 };
        let n = map.events.events.len();
        let got: Vec<Ev> = map.events.events.iter().skip(skip).map(ev).collect();
        ensure!(
            n == want.len() && got == want[skip..],
            "after operation {i}, {o:?}, there are {n} events, expected {}; from number {skip} on they are {}, expected {}",
            want.len(), head(&got, &want[skip..]), head(&want[skip..], &got)
        );
        if drain && want.len() > 3 {
            map.events.events.clear();
            want.clear();
        }
    }
    ctx.nontrivial = c && r && ch;
    Ok(())
}

thread_local! {
    static DIR: std::cell::OnceCell<&'static str> = const { std::cell::OnceCell::new() };
    static FILE: &'static str = {
        let dir = std::env::temp_dir().join(format!("auburn-verif-{}", std::process::id()));
        std::fs::create_dir_all(&dir).expect("scratch directory");
        static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        let n = N.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        Box::leak(dir.join(format!("map-{n}.json")).to_str().unwrap().to_string().into_boxed_str())
    };
}

/// Removes the scratch directory of this process.
pub fn clean() {
    let dir = std::env::temp_dir().join(format!("auburn-verif-{}", std::process::id()));
    let _ = std::fs::remove_dir_all(dir);
}

fn same_map(name: &str, map: &Tilemap, model: &Model, used: &[P]) -> Verdict {
    for p in used {
        let want = model.get(*p);
        ensure!(map.get_tile(v2(*p)) == want, "{name}, get_tile({p:?}) = {}, expected {want}", map.get_tile(v2(*p)));
    }
    for c in chunks_of(used) {
        chunk_agrees(map, model, c).map_err(|m| format!("{name}, {m}"))?;
    }
    Ok(())
}

fn storage(s: &mut Src, ctx: &mut Ctx) -> Verdict {
    let huge = s.below(1500) == 1499;
    let mut h = history(s, 30);
    if huge {
        // a file of over a megabyte
        ctx.label("thousands of chunks");
        let step = s.pick(&[(16, 0), (0, 16), (16, 16), (-16, 48)]);
        let i = Item::Line { from: (s.sint(40) as i32, s.sint(40) as i32), step, count: 2600, tile: s.pick(&[1, 255, 10]) };
        let k = h.ops.len();
        i.expand(&mut h.ops);
        h.used.extend(h.ops[k..].iter().map(|o| match *o {
            Op::Set(p, _) | Op::Remove(p) => p,
        }));
        h.items.push(i);
    }
    let l = history(s, 8);
    let later = &l.ops;
    let cut = s.f01();
    let noise = s.below(5);
    let after = match s.below(6) {
        0 => b" }".to_vec(),
        1 => vec![0; s.int(1, 3000) as usize],
        2 => b"null".to_vec(),
        3 => vec![],
        // the end of an earlier, longer file is not whitespace only
        4 => (0..s.int(1, 40)).map(|_| s.below(256) as u8).chain([b'1']).collect(),
        _ => vec![b'\n', b',', b'\n'],
    };
    let full = s.chance(10);
    h.note(ctx);
    ctx.desc(|| format!("{:?}, then saved, loaded, and {:?}", h.items, l.items));
    let mut map = Tilemap::default();
    let mut model = Model::default();
    for o in &h.ops {
        apply(&mut map, o);
        apply_model(&mut model, o);
    }
    ctx.nontrivial = !model.chunks.is_empty() && model.chunks.values().any(|c| !c.is_empty());
    if model.chunks.is_empty() {
        ctx.label("empty map");
    }
    let file = FILE.with(|f| *f);
    // over a file that is there already, or not
    let _ = std::fs::remove_file(file);
    if s.chance(30) {
        std::fs::write(file, vec![b'['; s.int(1, 100_000) as usize]).expect("scratch file");
        ctx.label("over an existing file");
    }
    let events = map.events.events.len();
    map.save(file).map_err(|e| format!("save failed: {e}"))?;
    ensure!(map.events.events.len() == events, "save changed the events");
    same_map("after saving", &map, &model, &h.used)?;
    let mut back = Tilemap::load(file).map_err(|e| format!("load of a saved map failed: {e}"))?;
    ensure!(back.events.events.is_empty(), "a loaded map has {} events", back.events.events.len());
    same_map("loaded", &back, &model, &h.used)?;
    // the text form alone, and the loaded map goes on like the saved one
    let text = serde_json::to_string(&map).map_err(|e| format!("serialize: {e}"))?;
    let copy: Tilemap = serde_json::from_str(&text).map_err(|e| format!("deserialize: {e}"))?;
    same_map("deserialized", &copy, &model, &h.used)?;
    let mut m2 = model.clone();
    let mut want = vec![];
    for o in later {
        apply(&mut back, o);
        want.extend(apply_model(&mut m2, o));
    }
    let got: Vec<Ev> = back.events.events.iter().map(ev).collect();
    ensure!(got == want, "the loaded map went on with events {}, expected {}", head(&got, &want), head(&want, &got));
    same_map("loaded and changed", &back, &m2, &h.used)?;
    same_map("loaded and changed", &back, &m2, &l.used)?;
    // saved once more, over what was saved before
    if s.chance(35) {
        ctx.label("saved twice");
        back.save(file).map_err(|e| format!("the second save failed: {e}"))?;
        let again = Tilemap::load(file).map_err(|e| format!("load of a map saved twice failed: {e}"))?;
        same_map("saved twice and loaded", &again, &m2, &h.used)?;
        same_map("saved twice and loaded", &again, &m2, &l.used)?;
        // and the first map is not touched by what happened to its copy
        same_map("after its copy was changed", &map, &model, &h.used)?;
    }
    // files that are not a whole map are refused
    let bytes = std::fs::read(file).expect("scratch file");
    let end = bytes.iter().rposition(|b| !b.is_ascii_whitespace()).map_or(0, |i| i);
    let part = match noise {
        0 => bytes[..(cut * (end + 1) as f64) as usize].to_vec(),
        // nothing: the whole file once more
        1 | 4 if after.is_empty() => [&bytes[..], &bytes[..]].concat(),
        1 | 4 => [&bytes[..], &after[..]].concat(),
        2 => bytes[..end].to_vec(),
        _ => vec![],
    };
    std::fs::write(file, &part).expect("scratch file");
    ensure!(Tilemap::load(file).is_err(), "load accepted a file of {} bytes cut or extended from a map of {}", part.len(), bytes.len());
    let _ = std::fs::remove_file(file);
    ensure!(Tilemap::load(file).is_err(), "load made a map of a missing file");
    ensure!(!std::path::Path::new(file).exists(), "load created the missing file");
    if full {
        let dir = std::path::Path::new(file).parent().expect("scratch directory");
        let dir: &'static str = DIR.with(|d| *d.get_or_init(|| Box::leak(dir.to_string_lossy().into_owned().into_boxed_str())));
        ensure!(map.save(dir).is_err(), "save reports success on writing over a directory");
        // a device on which every write fails, behind a link so that only the link can be replaced
        if std::path::Path::new("/dev/full").exists() && std::os::unix::fs::symlink("/dev/full", file).is_ok() {
            ctx.label("full disk");
            let saved = map.save(file);
            let link = std::fs::symlink_metadata(file).is_ok_and(|m| m.file_type().is_symlink());
            ensure!(saved.is_err() || !link, "save reports success on a full disk");
            let _ = std::fs::remove_file(file);
        }
    }
    Ok(())
}

fn world(s: &mut Src) -> f32 {
    match s.weighted(&[3, 3, 2, 2, 1]) {
        // halves
        0 => s.sint(200) as f32 * 0.5,
        // next to halves
        1 => {
            let h = s.sint(100) as f32 + 0.5;
            let k = s.sint(2) as i32;
            f32::from_bits((h.to_bits() as i32 + k) as u32)
        }
        2 => s.sym(100.0) as f32,
        3 => s.sym(1.0) as f32 * 10f64.powf(s.range(-3.0, 7.0)) as f32,
        _ => s.sym(1.0) as f32 * 10f64.powf(s.range(7.0, 38.0)) as f32,
    }
}

/// Nearest integer, halves to the even one, kept in range.
fn nearest(x: f64) -> i64 {
    let f = x.floor();
    let r = match (x - f).partial_cmp(&0.5) {
        Some(std::cmp::Ordering::Less) => f,
        Some(std::cmp::Ordering::Greater) => f + 1.0,
        _ => 2.0 * (x / 2.0).round(),
    };
    r.clamp(i32::MIN as f64, i32::MAX as f64) as i64
}

fn mapping(s: &mut Src, ctx: &mut Ctx) -> Verdict {
    let m = Tilemap::default();
    let w = Vec2::new(world(s), world(s));
    let far = |s: &mut Src| match s.weighted(&[4, 3, 1, 1]) {
        0 => s.sint(70) as i32,
        1 => s.sint(i32::MAX as i64) as i32,
        2 => i32::MIN.wrapping_add(s.below(40) as i32),
        _ => i32::MAX.wrapping_sub(s.below(40) as i32),
    };
    let t = (far(s), far(s));
    // any length, one reaching (almost) exactly to a border, or a tiny one
    let extent = |s: &mut Src, w: f32| match s.weighted(&[4, 3, 2, 1]) {
        3 => 10f64.powf(s.range(1.0, 8.5)) as f32,
        0 => length(s),
        1 => {
            let border = (w as f64).floor() + 0.5 + s.int(0, 8) as f64;
            let h = ((border - w as f64).abs() as f32).min(1e6);
            f32::from_bits((h.to_bits() as i32 + s.sint(3) as i32).max(0) as u32)
        }
        _ => 10f64.powf(s.range(-9.0, -1.0)) as f32,
    };
    let half = Vec2::new(extent(s, w.x), extent(s, w.y));
    for x in [w.x, w.y, half.x, half.y] {
        ctx.idf(x);
    }
    ctx.id(t.0 as u32 as u64 | (t.1 as u32 as u64) << 32);
    ctx.desc(|| format!("world ({:?}, {:?}), box ({:?}, {:?}), tile {t:?}", w.x, w.y, half.x, half.y));
    ctx.nontrivial = w != Vec2::ZERO && t != (0, 0);
    let got = pv(m.world_to_tile_pos(&w));
    let want = (nearest(w.x as f64), nearest(w.y as f64));
    ensure!((got.0 as i64, got.1 as i64) == want, "world_to_tile_pos(({:?}, {:?})) = {got:?}, expected {want:?}", w.x, w.y);
    let q = m.tile_to_world_pos(&v2(t));
    ensure!(q == Vec2::new(t.0 as f32, t.1 as f32), "tile_to_world_pos({t:?}) = {q:?}");
    if t.0.unsigned_abs() <= 1 << 24 && t.1.unsigned_abs() <= 1 << 24 {
        let b = pv(m.world_to_tile_pos(&q));
        ensure!(b == t, "tile {t:?} has its center at {q:?}, which is in tile {b:?}");
    }
    let (c, l) = m.tile_to_chunk_and_local_pos(&v2(t));
    let (c, l) = (pv(c), pv(l));
    ensure!((0..16).contains(&l.0) && (0..16).contains(&l.1), "tile {t:?} has the local position {l:?}");
    ensure!(
        c.0 as i64 * 16 + l.0 as i64 == t.0 as i64 && c.1 as i64 * 16 + l.1 as i64 == t.1 as i64,
        "tile {t:?} is in chunk {c:?} at {l:?}"
    );
    let c2 = pv(m.tile_to_chunk_pos(&v2(t)));
    ensure!(c2 == c, "tile_to_chunk_pos({t:?}) = {c2:?}, together with the local position {c:?}");
    // the tiles a box may touch
    let r = m.quantize(&Box2d::new(half), &w);
    for (name, got, e, p) in [
        ("min.x", r.min.x(), w.x as f64 - half.x as f64, w.x),
        ("min.y", r.min.y(), w.y as f64 - half.y as f64, w.y),
        ("max.x", r.max.x(), w.x as f64 + half.x as f64, w.x),
        ("max.y", r.max.y(), w.y as f64 + half.y as f64, w.y),
    ] {
        let d = EPS * (e.abs() + 0.0 * p as f64);
        let (lo, hi) = (nearest(e - d), nearest(e + d));
        ensure!(
            lo <= got as i64 && got as i64 <= hi,
            "quantize of a box of half size ({:?}, {:?}) at ({:?}, {:?}): {name} = {got}, expected {lo}..{hi}",
            half.x, half.y, w.x, w.y
        );
    }
    Ok(())
}

fn small_map(s: &mut Src, ctx: &mut Ctx, far: P, n: i64, spread: i64) -> (Tilemap, Model) {
    let mut map = Tilemap::default();
    let mut model = Model::default();
    let k = s.int(1, n);
    let base = s.pick(&[(0, 0), (0, 0), (-1, 16), (1000, -1000)]);
    let base = (base.0 + far.0, base.1 + far.1);
    if s.chance(6) {
        ctx.label("map with filled areas");
        for _ in 0..s.int(1, 3) {
            let min = (base.0 + s.sint(3 * spread) as i32, base.1 + s.sint(3 * spread) as i32);
            let size = s.pick(&[(3, 3), (40, 1), (1, 40), (2, 9), (18, 3)]);
            let mut ops = vec![];
            Item::Fill { min, size, tile: s.pick(&[1u8, 200, 0, 128]) }.expand(&mut ops);
            ctx.id(min.0 as u32 as u64 | (min.1 as u32 as u64) << 32);
            ctx.id(ops.len() as u64);
            for o in ops {
                apply(&mut map, &o);
                apply_model(&mut model, &o);
            }
        }
    }
    for _ in 0..k {
        let p = (base.0 + s.sint(spread) as i32, base.1 + s.sint(spread) as i32);
        let t = match s.below(8) {
            0..=2 => 1,
            3 => 0,
            4 => s.pick(&[255u8, 254, 128, 127, 2]),
            _ => s.below(256) as u8,
        };
        let o = if s.chance(12) { Op::Remove(p) } else { Op::Set(p, t) };
        note(ctx, &[o]);
        apply(&mut map, &o);
        apply_model(&mut model, &o);
    }
    (map, model)
}

fn col_pt<T: Transformation2d + DeltaTransform>(m: &Tilemap, a: &T, b: &T) -> (bool, bool) {
    let (ca, cb) = (Collider2d::new(m, a), Collider2d::new(&Point, b));
    (ca.collides(cb), ca.penetrates(cb).is_some())
}
fn rel_pt<T: Transformation2d>(m: &Tilemap, r: &T) -> (bool, bool) {
    (m.collides_rel(&Point, r), m.penetrates_rel(&Point, r).is_some())
}

fn solid_point(s: &mut Src, ctx: &mut Ctx) -> Verdict {
    let far = s.pick(&[(0, 0), (0, 0), (0, 0), (0, 0), (70_000, -5), (-2_000_000, 1_234_567)]);
    let (map, model) = small_map(s, ctx, far, 12, 3);
    // near one of the tiles
    let tiles: std::collections::BTreeSet<P> = model.chunks.values().flat_map(|c| c.keys()).copied().collect();
    let base = if tiles.is_empty() { far } else { *tiles.iter().nth(s.below(tiles.len())).unwrap() };
    // where the point is, in the map's space
    let p = if s.chance(40) {
        Vec2::new(base.0 as f32 + s.sint(8) as f32 * 0.5, base.1 as f32 + s.sint(8) as f32 * 0.5)
    } else {
        Vec2::new(base.0 as f32 + s.sym(3.0) as f32, base.1 as f32 + s.sym(3.0) as f32)
    };
    let mut ta = Tf::ID;
    let style = s.weighted(&[4, 2, 2, 3]);
    if style >= 1 {
        ta.pos = Vec2::new(s.sint(40) as f32 * 0.5, s.sint(40) as f32 * 0.5);
    }
    if style >= 2 {
        ta.scale = Vec2::splat(s.pick(&[1.0f32, 2.0, 0.5, 3.0]));
    }
    if style == 3 {
        ta.ang = angle(s);
    }
    ta.id(ctx);
    ctx.idf(p.x);
    ctx.idf(p.y);
    let w = fv(ta.point(vf(p)));
    // what the point's own rotation and scale are does not matter
    let mut tb = Tf { pos: w, ..Tf::ID };
    if style == 3 {
        tb.ang = angle(s);
        tb.scale = Vec2::splat(2.0);
    }
    // in exact terms
    let e = ta.unpoint(vf(w));
    let tol = 32.0 * EPS * (vf(w).len() + vf(ta.pos).len() + e.len()) / ta.scale.x as f64;
    let tol = if style == 0 { 0.0 } else { tol };
    let cells = |x: f64| (nearest(x - tol), nearest(x + tol));
    let ((x0, x1), (y0, y1)) = (cells(e.x), cells(e.y));
    ctx.desc(|| {
        format!(
            "map {:?} at {}, point at ({:?}, {:?})",
            model.chunks.values().collect::<Vec<_>>(),
            ta.show(), w.x, w.y
        )
    });
    if x0 != x1 || y0 != y1 {
        ctx.label("on a tile border within rounding");
        return Ok(());
    }
    let want = model.get((x0 as i32, y0 as i32)) != 0;
    ctx.label(if want { "solid" } else { "free" });
    ctx.nontrivial = !model.chunks.is_empty();
    let mut got = vec![("Transform2d colliders", col_pt(&map, &ta.t2d(), &tb.t2d()))];
    if style == 0 {
        got.push(("Vec2 relative", rel_pt(&map, &w)));
        got.push(("Translate2d relative", rel_pt(&map, &Translate2d::new(w))));
        got.push(("Transform2d relative", rel_pt(&map, &tb.t2d())));
    }
    if style <= 1 {
        got.push(("Vec2 colliders", col_pt(&map, &ta.pos, &tb.pos)));
        got.push(("Translate2d colliders", col_pt(&map, &Translate2d::new(ta.pos), &Translate2d::new(tb.pos))));
    }
    if style <= 2 {
        got.push((
            "AxisTransform2d colliders",
            col_pt(&map, &AxisTransform2d::new(ta.pos, ta.scale.x), &AxisTransform2d::new(tb.pos, 1.0)),
        ));
    }
    for (name, (c, p)) in got {
        ensure!(c == want, "{name}: collides answered {c}, the tile {:?} is {}", (x0, y0), model.get((x0 as i32, y0 as i32)));
        ensure!(p == want, "{name}: penetrates answered {}, the tile {:?} is {}", p, (x0, y0), model.get((x0 as i32, y0 as i32)));
    }
    Ok(())
}

/// Pushes a shape out of solid tiles one after the other, in the order of the direction.
fn pushed<S: PenetratesRel2d<Box2d, Vec2>>(model: &Model, shape: &S, half: Vec2, start: Vec2, dir: Vec2) -> (Vec2, usize) {
    let lo = (nearest((start.x - half.x) as f64) as i32, nearest((start.y - half.y) as f64) as i32);
    let hi = (nearest((start.x + half.x) as f64) as i32, nearest((start.y + half.y) as f64) as i32);
    let mut xs: Vec<i32> = (lo.0..=hi.0).collect();
    let mut ys: Vec<i32> = (lo.1..=hi.1).collect();
    if dir.x < 0.0 {
        xs.reverse();
    }
    if dir.y < 0.0 {
        ys.reverse();
    }
    let tile = Box2d::with_halfdims(0.5, 0.5);
    let mut pos = start;
    let mut n = 0;
    for y in &ys {
        for x in &xs {
            if model.get((*x, *y)) != 0 {
                if let Some(w) = shape.penetrates_rel(&tile, &(Vec2::new(*x as f32, *y as f32) - pos)) {
                    pos += w;
                    n += 1;
                }
            }
        }
    }
    (pos, n)
}

fn resolve(s: &mut Src, ctx: &mut Ctx) -> Verdict {
    let far = if s.chance(8) { s.pick(&[(4096, -70_000), (-300_000, 16), (-33_000, 40_000), (21_000, 12_500), (150_000, -9)]) } else { (0, 0) };
    let (map, model) = small_map(s, ctx, far, 14, 2);
    let base = model.chunks.values().flat_map(|c| c.keys()).min().copied().unwrap_or(far);
    let ball = s.chance(50);
    let size = |s: &mut Src| match s.weighted(&[30, 30, 10, 2, 3]) {
        4 => 10f64.powf(s.range(-6.0, -1.5)) as f32,
        0 => (s.below(6) + 1) as f32 * 0.25,
        1 => s.range(0.1, 1.5) as f32,
        2 => s.range(0.02, 3.0) as f32,
        _ => s.pick(&[5.0f32, 8.25, 17.5, 30.0]),
    };
    let half = if ball { Vec2::splat(size(s)) } else { Vec2::new(size(s), size(s)) };
    let start = if s.chance(15) {
        Vec2::new(base.0 as f32 + s.sint(14) as f32 * 0.25, base.1 as f32 + s.sint(14) as f32 * 0.25)
    } else {
        Vec2::new(base.0 as f32 + s.sym(3.5) as f32, base.1 as f32 + s.sym(3.5) as f32)
    };
    let speed = |s: &mut Src| (s.sym(1.0) * 10f64.powf(s.range(-40.0, 38.0))) as f32;
    let dir = match s.weighted(&[3, 1, 1, 1]) {
        0 => Vec2::new(s.sym(1.0) as f32, s.sym(1.0) as f32),
        1 => Vec2::new(s.pick(&[0.0f32, -0.0]), s.pick(&[0.0f32, -0.0])),
        2 => Vec2::new(s.sint(1) as f32, s.sint(1) as f32),
        _ => Vec2::new(speed(s), speed(s)),
    };
    for x in [half.x, half.y, start.x, start.y, dir.x, dir.y] {
        ctx.idf(x);
    }
    ctx.id(ball as u64);
    ctx.label(if ball { "ball" } else { "box" });
    ctx.desc(|| {
        format!(
            "map {:?}, {} half size ({:?}, {:?}) at ({:?}, {:?}) moving along ({:?}, {:?})",
            model.chunks.values().collect::<Vec<_>>(),
            if ball { "ball" } else { "box" },
            half.x, half.y, start.x, start.y, dir.x, dir.y
        )
    });
    let got = if ball {
        map.simple_resolve_ball(&Ball::new(half.x), start, &dir)
    } else {
        map.simple_resolve_box(&Box2d::new(half), start, &dir)
    };
    ensure!(vf(got).finite(), "resolved to {got:?}");
    let reference = |from: Vec2| {
        if ball {
            pushed(&model, &Ball::new(half.x), half, from, dir)
        } else {
            pushed(&model, &Box2d::new(half), half, from, dir)
        }
    };
    // how deep the start is in each solid tile
    let unit = Sh::Box(Box2d::with_halfdims(0.5, 0.5)).local();
    let body = if ball {
        Body::new(vec![v(0.0, 0.0)], half.x as f64)
    } else {
        Sh::Box(Box2d::new(half)).local()
    };
    let mag = vf(start).len() + 2.0 + vf(half).len();
    let tol = 64.0 * EPS * mag;
    let solid: Vec<P> = model.chunks.values().flat_map(|c| c.keys().copied()).collect();
    let sd = |pos: Vec2, t: P| {
        let m = geo::diff(&body.translated(vf(pos)), &unit.translated(v(t.0 as f64, t.1 as f64)));
        geo::sd(&m, v(0.0, 0.0))
    };
    let depths: Vec<f64> = solid.iter().map(|t| sd(start, *t)).collect();
    let deepest = depths.iter().cloned().fold(f64::INFINITY, f64::min);
    if deepest > tol {
        ctx.label("free");
        ensure!(got == start, "nothing solid is touched, but the position moves from {start:?} to {got:?}");
        return Ok(());
    }
    // only one tile can be touched before, during and after
    let reach = depths.iter().filter(|d| **d < tol - 1.1 * deepest).count();
    if reach == 1 && deepest < -tol {
        ctx.label("one tile");
        let t = solid[depths.iter().position(|d| *d == deepest).unwrap()];
        let left = sd(got, t);
        let moved = (vf(got) - vf(start)).len();
        ensure!(left.abs() <= 0.02 * -deepest + tol, "after resolving, the signed distance to the only touched tile {t:?} is {left:e} (it was {deepest:e})");
        ensure!((moved + deepest).abs() <= 0.02 * -deepest + tol, "moved by {moved:e} out of a tile penetrated by {:e}", -deepest);
    }
    let (want, n) = reference(start);
    ctx.label(match n {
        0 => "no push",
        1 => "one push",
        _ => "several pushes",
    });
    ctx.nontrivial = n > 0;
    let near = |a: Vec2, b: Vec2| (vf(a) - vf(b)).len() <= 1e-4 + tol;
    if !near(got, want) {
        // a decision on the way may hang on the last bits of the position
        let e = (16.0 * EPS * mag) as f32;
        let stable = [(1.0, 0.0), (-1.0, 0.0), (0.0, 1.0), (0.0, -1.0), (0.7, 0.7), (-0.7, -0.7)]
            .iter()
            .all(|(x, y)| near(reference(start + Vec2::new(*x, *y) * e).0, want));
        ctx.label(if stable { "stable" } else { "hangs on rounding" });
        ensure!(!stable, "resolved to {got:?}; pushing out of each solid tile in order gives {want:?}");
    }
    Ok(())
}

fn rect(s: &mut Src, ctx: &mut Ctx) -> Verdict {
    let base = |s: &mut Src| match s.weighted(&[5, 2, 1, 1]) {
        0 => s.sint(20) as i32,
        1 => s.sint(1 << 30) as i32,
        2 => i32::MIN + s.below(3) as i32,
        _ => i32::MAX - s.below(12) as i32,
    };
    let min = (base(s), base(s));
    // empty, small, or now and then long or large
    let (w, h) = match s.weighted(&[240, 1, 1, 1, 1]) {
        0 => (s.int(-2, 7), s.int(-2, 7)),
        1 => (s.int(-2, 3), s.int(200, 70_000)),
        2 => (s.int(200, 70_000), s.int(-2, 3)),
        3 => (s.int(60, 140), s.int(60, 140)),
        _ => (s.int(-3_000_000_000, -3), s.int(-2, 7)),
    };
    let to = |a: i32, d: i64| (a as i64 + d).clamp(i32::MIN as i64, i32::MAX as i64) as i32;
    let max = (to(min.0, w), to(min.1, h));
    let (dx, dy) = (
        s.pick(&[1.0f32, -1.0, 0.0, -0.0, f32::NAN, f32::MIN_POSITIVE, -f32::MIN_POSITIVE, f32::INFINITY, f32::NEG_INFINITY, -1e-40, 1e-42, f32::from_bits(1), 3.5e33, -7e-12]),
        s.pick(&[1.0f32, -1.0, 0.0, -0.0, f32::NAN, f32::MIN_POSITIVE, -f32::MIN_POSITIVE, f32::INFINITY, f32::NEG_INFINITY, -1e-40, 1e-42, f32::from_bits(1), 3.5e33, -7e-12]),
    );
    let padding = |s: &mut Src| match s.weighted(&[6, 2, 1]) {
        0 => s.int(0, 5) as i32,
        1 => -s.int(1, 5) as i32,
        _ => s.sint(1 << 30) as i32,
    };
    let pad = (padding(s), padding(s));
    for x in [min.0, min.1, max.0, max.1, pad.0, pad.1] {
        ctx.id(x as u32 as u64);
    }
    ctx.idf(dx);
    ctx.idf(dy);
    ctx.desc(|| format!("rectangle {min:?} to {max:?}, direction ({dx:?}, {dy:?}), padding {pad:?}"));
    ctx.nontrivial = max.0 > min.0 && max.1 > min.1;
    let r = Rect2i32::min_max(v2(min), v2(max));
    ensure!(pv(r.min) == min && pv(r.max) == max, "min_max({min:?}, {max:?}) = {r:?}");
    let all = |fx: bool, fy: bool| -> Vec<P> {
        let mut xs: Vec<i32> = (min.0..=max.0).collect();
        let mut ys: Vec<i32> = (min.1..=max.1).collect();
        if fx {
            xs.reverse();
        }
        if fy {
            ys.reverse();
        }
        ys.iter().flat_map(|y| xs.iter().map(move |x| (*x, *y))).collect()
    };
    let check = |name: &str, got: Vec<P>, want: Vec<P>| -> Verdict {
        if got != want {
            let i = got.iter().zip(&want).position(|(x, y)| x != y).unwrap_or(got.len().min(want.len()));
            return Err(format!(
                "{name} visits {} places, expected {}; at number {i} {:?}, expected {:?}",
                got.len(), want.len(), got.get(i), want.get(i)
            ));
        }
        Ok(())
    };
    check("iterate", r.iterate().map(pv).collect(), all(false, false))?;
    check("iterate_north_east", r.iterate_north_east().map(pv).collect(), all(false, false))?;
    check("iterate_north_west", r.iterate_north_west().map(pv).collect(), all(true, false))?;
    check("iterate_south_east", r.iterate_south_east().map(pv).collect(), all(false, true))?;
    check("iterate_south_west", r.iterate_south_west().map(pv).collect(), all(true, true))?;
    for (fx, fy) in [(false, false), (true, false), (false, true), (true, true)] {
        check("iterate_boxed", r.iterate_boxed(fx, fy).map(pv).collect(), all(fx, fy))?;
    }
    check(
        "iterate_with_direction_f32",
        r.iterate_with_direction_f32(dx, dy).map(pv).collect(),
        all(dx < 0.0, dy < 0.0),
    )?;
    let fits = min.0.checked_sub(pad.0).is_some()
        && min.1.checked_sub(pad.1).is_some()
        && max.0.checked_add(pad.0).is_some()
        && max.1.checked_add(pad.1).is_some();
    if fits {
        let g = Rect2i32::min_max(v2(min), v2(max)).pad(v2(pad));
        let want = ((min.0 - pad.0, min.1 - pad.1), (max.0 + pad.0, max.1 + pad.1));
        ensure!((pv(g.min), pv(g.max)) == want, "pad({pad:?}) gives {g:?}, expected {want:?}");
    }
    Ok(())
}

pub static PROPS: [Prop; 8] = [
    Prop { id: "C21", words: 330, quick: 600_000, thorough: 30_000_000, rule: "a case is a history of up to 40 set/remove operations on one map, at positions that revisit each other, sit on chunk borders, are negative or at the ends of the i32 range, compared with a plain map of tiles after every step; non-trivial = more than two operations and a non-zero tile among the probed positions", assumptions: &[], check: tiles },
    Prop { id: "C22", words: 330, quick: 300_000, thorough: 15_000_000, rule: "a case is a history of up to 40 set/remove operations on one map; after it every touched chunk is compared tile by tile; non-trivial = a chunk was removed on the way and another is there at the end", assumptions: &[], check: chunks },
    Prop { id: "C23", words: 330, quick: 500_000, thorough: 30_000_000, rule: "a case is a history of up to 40 set/remove operations on one map, the events compared after every step; non-trivial = chunks were created, changed and removed", assumptions: &["the events kept so far are only removed by their owner"], check: events },
    Prop { id: "C24", words: 240, quick: 60_000, thorough: 2_000_000, rule: "a case is a history, saved (over nothing or over a longer file), loaded, compared, and gone on with; then the file is cut at a generated byte or extended and must be refused; non-trivial = the saved map has a non-zero tile", assumptions: &["faults: cut files, trailing bytes, missing file, full device (/dev/full)"], check: storage },
    Prop { id: "C25", words: 24, quick: 6_000_000, thorough: 300_000_000, rule: "a case is a world position (halves, neighbours of halves, any size), a tile position over the i32 range and a box; non-trivial = neither position is zero", assumptions: &["finite world positions"], check: mapping },
    Prop { id: "C26", words: 110, quick: 1_500_000, thorough: 60_000_000, rule: "a case is a small map placed by any transform and a point, queried in every form; non-trivial = the map is not empty and the point is not on a tile border within rounding", assumptions: &["the vector of a tilemap penetration is documented as not implemented and is not judged"], check: solid_point },
    Prop { id: "C27", words: 120, quick: 1_500_000, thorough: 60_000_000, rule: "a case is a small map, a ball or box overlapping it and a direction; non-trivial = at least one push happens", assumptions: &["positions where a decision on the way hangs on f32 rounding are not judged"], check: resolve },
    Prop { id: "C28", words: 16, quick: 2_000_000, thorough: 60_000_000, rule: "a case is a rectangle (empty, small, at the ends of the i32 range), a direction with special values and a padding; non-trivial = at least two columns and rows", assumptions: &[], check: rect },
];
