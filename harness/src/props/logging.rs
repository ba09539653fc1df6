//! C35: the optional features (here: all of them) and an active trace logger change no answer.
//! Only in builds with the `interop` feature.

use crate::ensure;
use crate::gen::*;
use crate::query::*;
use crate::runner::{Ctx, Prop, Verdict};
use crate::src::Src;
use std::cell::Cell;
use std::fmt::Write;
use std::sync::RwLock;

/// Formats every record, as a logger that prints does, and keeps only how much there was.
struct Sink;

thread_local! {
    static SEEN: Cell<(u64, u64)> = const { Cell::new((0, 0)) };
}

struct Count(u64);
impl Write for Count {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 += s.len() as u64;
        Ok(())
    }
}

impl log::Log for Sink {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        let mut c = Count(0);
        let _ = write!(c, "{}", r.args());
        SEEN.with(|s| {
            let (n, b) = s.get();
            s.set((n + 1, b + c.0));
        });
    }
    fn flush(&self) {}
}

static SINK: Sink = Sink;
/// Read: a case runs with the level at Trace. Write: one thread changes the level.
static LEVEL: RwLock<()> = RwLock::new(());

fn install() {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        let _ = log::set_logger(&SINK);
        log::set_max_level(log::LevelFilter::Trace);
    });
}

fn bits(r: &Res) -> Vec<u32> {
    let o = |v: Option<auburn::Vec2>| v.map_or(vec![7], |v| vec![v.x.to_bits(), v.y.to_bits()]);
    let mut b = vec![r.collides as u32, r.sdfv.0 as u32, r.sdfv.1.x.to_bits(), r.sdfv.1.y.to_bits()];
    b.extend(o(r.pen));
    b.push(9);
    b.extend(o(r.dist));
    b
}

fn answers(s: &mut Src, ctx: &mut Ctx) -> Verdict {
    let mut other = vec![];
    let silent = s.chance(12);
    let (p, rep, t) = case(s, ctx, ALL);
    if silent {
        let _g = LEVEL.write().unwrap_or_else(|e| e.into_inner());
        for l in [log::LevelFilter::Off, log::LevelFilter::Debug] {
            log::set_max_level(l);
            let r = std::panic::catch_unwind(|| run(&p, rep));
            log::set_max_level(log::LevelFilter::Trace);
            other.push((l, r.map_err(|_| format!("the query panics at log level {l}"))?));
        }
    }
    let _g = LEVEL.read().unwrap_or_else(|e| e.into_inner());
    let r = run(&p, rep);
    for (l, o) in other {
        ctx.label("compared with other log levels");
        ensure!(bits(&r) == bits(&o), "at log level {l} the queries answer {o:?}, with a trace logger {r:?}");
    }
    if t.decisive() {
        let o = t.overlap();
        ensure!(
            r.collides == o && r.sdfv.0 == o && r.pen.is_some() == o && r.dist.is_none() == o,
            "with a trace logger the queries answer {r:?}, the signed distance is {:e}", t.sd
        );
        if let Some(w) = r.pen {
            t.vector("penetrates", w)?;
        }
        if let Some(w) = r.dist {
            t.vector("distance_to", w)?;
        }
        t.vector("sdfv", r.sdfv.1)?;
    }
    Ok(())
}

fn features(s: &mut Src, ctx: &mut Ctx) -> Verdict {
    install();
    SEEN.with(|s| s.set((0, 0)));
    let r = if s.chance(50) {
        let _g = LEVEL.read().unwrap_or_else(|e| e.into_inner());
        // any other property, judged in this build
        let all: Vec<&Prop> = crate::props::all();
        let all: Vec<&Prop> = all
            .into_iter()
            // C20 watches the process-wide streams, C24 writes files: both only on their own
            .filter(|p| !matches!(p.id, "C20" | "C24" | "C35"))
            .collect();
        let p = all[s.below(all.len())];
        ctx.label(p.id);
        ctx.desc(|| format!("as {}", p.id));
        ctx.id(p.id.bytes().fold(7, |h, b| h * 31 + b as u64));
        (p.check)(s, ctx).map_err(|e| format!("with every feature and a trace logger, {}: {e}", p.id))
    } else {
        answers(s, ctx)
    };
    let (n, b) = SEEN.with(|s| s.get());
    if n > 0 {
        ctx.label("something was logged");
    }
    ctx.id(n ^ b << 20);
    r
}

pub static PROPS: [Prop; 1] = [Prop {
    id: "C35",
    words: 110,
    quick: 400_000,
    thorough: 12_000_000,
    rule: "a case is either a placed pair of 2D shapes queried with a logger that formats every trace record (in an eighth of them also with logging off and at debug level, and the answers compared bit by bit), or a case of any other property judged in the build with every optional feature; non-trivial = as in that property",
    assumptions: &["the logger does not panic and does not call back into auburn"],
    check: features,
}];
