//! C29, C30, C37: approximate comparison, event publishers, scalar helpers.

use crate::ensure;
use crate::geo::v;
use crate::query::EPS;
use crate::runner::{Ctx, Prop, Verdict};
use crate::src::Src;
use auburn::assert_approx_eq;
use auburn::utils::approx::Approx;
use auburn::utils::publisher::*;
use auburn::{Lerp, Square, Vec2, Vec3};
use std::sync::{Arc, Mutex};

fn value(s: &mut Src) -> f32 {
    match s.weighted(&[4, 3, 4, 1, 1]) {
        0 => s.sint(20) as f32 * 0.5,
        1 => s.sym(1.0) as f32,
        2 => s.sym(1.0) as f32 * 10f64.powf(s.range(-37.0, 38.0)) as f32,
        3 => s.pick(&[0.0f32, -0.0, f32::MAX, f32::MIN, f32::MIN_POSITIVE, 1e-45]),
        _ => s.pick(&[f32::INFINITY, f32::NEG_INFINITY, f32::NAN]),
    }
}

/// A value at a chosen relative distance, so that the tolerance is met, missed, or nearly so.
fn nearby(s: &mut Src, a: f32, tol: f64) -> f32 {
    match s.weighted(&[2, 6, 2]) {
        0 => a,
        1 => {
            let k = tol * 2f64.powf(s.range(-4.0, 4.0));
            let k = if s.chance(50) { k } else { -k };
            (a as f64 * (1.0 + k)) as f32
        }
        _ => value(s),
    }
}

/// Some(verdict) when the comparison is clear of rounding.
fn want1(a: f32, b: f32, tol: f64) -> Option<bool> {
    if a.is_nan() || b.is_nan() {
        return Some(false);
    }
    // the same infinity twice is not judged
    if a.is_infinite() || b.is_infinite() {
        return if a == b { None } else { Some(false) };
    }
    let (x, y) = (a as f64, b as f64);
    let e = (x - y).abs();
    if a == 0.0 || b == 0.0 {
        return decide(e, tol);
    }
    // a tolerance beyond 1 may or may not forgive a difference that overflows
    if e > f32::MAX as f64 {
        return if tol < 0.99 { Some(false) } else { None };
    }
    if e == 0.0 {
        return Some(true);
    }
    decide(e / x.abs(), tol)
}

fn decide(e: f64, tol: f64) -> Option<bool> {
    if e < tol * (1.0 - 1e-3) || (e == 0.0 && tol > 0.0) {
        Some(true)
    } else if e > tol * (1.0 + 1e-3) {
        Some(false)
    } else {
        None
    }
}

fn want_n(a: &[f32], b: &[f32], tol: f64) -> Option<bool> {
    if a.iter().chain(b).any(|x| x.is_nan()) {
        return Some(false);
    }
    if a.iter().chain(b).any(|x| x.is_infinite()) {
        return if a.iter().zip(b).any(|(x, y)| x.is_infinite() && x == y) { None } else { Some(false) };
    }
    if a == b {
        return Some(true);
    }
    let len = |f: &dyn Fn(usize) -> f64| (0..a.len()).map(|i| f(i).powi(2)).sum::<f64>().sqrt();
    let e = len(&|i| a[i] as f64 - b[i] as f64);
    if (0..a.len()).any(|i| (a[i] as f64 - b[i] as f64).abs() > f32::MAX as f64) {
        return if tol < 0.99 { Some(false) } else { None };
    }
    let m = len(&|i| a[i] as f64).max(len(&|i| b[i] as f64));
    // subnormal vectors have too few bits left to judge
    if m < 1e-36 {
        return None;
    }
    // neither have the squares of the tiniest parts
    if e / m < 1e-17 && tol < 1e-17 {
        return None;
    }
    decide(e / m, tol)
}

fn approx(s: &mut Src, ctx: &mut Ctx) -> Verdict {
    let default = s.chance(40);
    let tol: f32 = if default { f32::DEFAULT_TOLERANCE } else {
        match s.weighted(&[12, 2, 1, 1]) {
            0 => 10f64.powf(s.range(-6.0, -0.5)) as f32,
            1 => 10f64.powf(s.range(-0.5, 2.0)) as f32,
            2 => 10f64.powf(s.range(-18.0, -6.0)) as f32,
            _ => 0.0,
        }
    };
    let t = tol as f64;
    let n = s.weighted(&[4, 3, 3]) + 1;
    let a: Vec<f32> = (0..n).map(|_| value(s)).collect();
    let mut b: Vec<f32> = a.iter().map(|x| if s.chance(40) { nearby(s, *x, t) } else { *x }).collect();
    // turn or grow the whole vector a little
    if n > 1 && s.chance(30) {
        let m = a.iter().map(|x| (*x as f64).powi(2)).sum::<f64>().sqrt();
        let i = s.below(n);
        b[i] = (a[i] as f64 + m * t * 2f64.powf(s.range(-3.0, 3.0))) as f32;
    }
    for x in a.iter().chain(&b) {
        ctx.idf(*x);
    }
    ctx.idf(tol);
    ctx.desc(|| format!("{a:?} against {b:?}, tolerance {tol:?}"));
    let (got, back, same) = match n {
        1 => {
            let f = |x: &f32, y: &f32| if default { x.approx_eq(y) } else { x.approx_eq_tolerance(y, tol) };
            (f(&a[0], &b[0]), None, f(&a[0], &a[0]))
        }
        2 => {
            let (x, y) = (Vec2::new(a[0], a[1]), Vec2::new(b[0], b[1]));
            let f = |x: &Vec2, y: &Vec2| if default { x.approx_eq(y) } else { x.approx_eq_tolerance(y, tol) };
            (f(&x, &y), Some(f(&y, &x)), f(&x, &x))
        }
        _ => {
            let (x, y) = (Vec3::new(a[0], a[1], a[2]), Vec3::new(b[0], b[1], b[2]));
            let f = |x: &Vec3, y: &Vec3| if default { x.approx_eq(y) } else { x.approx_eq_tolerance(y, tol) };
            (f(&x, &y), Some(f(&y, &x)), f(&x, &x))
        }
    };
    let want = if n == 1 { want1(a[0], b[0], t) } else { want_n(&a, &b, t) };
    ctx.nontrivial = want.is_some() && a != b;
    ctx.label(["f32", "Vec2", "Vec3"][n - 1]);
    ctx.label(match want {
        Some(true) => "within",
        Some(false) => "beyond",
        None => "too close to the tolerance",
    });
    if let Some(w) = want {
        ensure!(got == w, "{a:?} approx {b:?} with tolerance {tol:?} = {got}, expected {w}");
        if let Some(back) = back {
            ensure!(back == w, "{b:?} approx {a:?} with tolerance {tol:?} = {back}, the other way round {w}");
        }
        // catching a panic is slow
        if default && (w || s.chance(3)) {
            ctx.label("asserted");
            let r = std::panic::catch_unwind(|| match n {
                1 => assert_approx_eq!(a[0], b[0]),
                2 => assert_approx_eq!(Vec2::new(a[0], a[1]), Vec2::new(b[0], b[1])),
                _ => assert_approx_eq!(Vec3::new(a[0], a[1], a[2]), Vec3::new(b[0], b[1], b[2])),
            });
            ensure!(r.is_ok() == w, "assert_approx_eq of {a:?} and {b:?} {}", if w { "panics" } else { "passes" });
        }
    }
    let nan = a.iter().any(|x| x.is_nan());
    // the difference of infinities is not a number
    let inf = a.iter().any(|x| x.is_infinite());
    // zero is compared absolutely, and no difference is below a tolerance of zero
    if !inf && !(tol == 0.0 && n == 1 && a[0] == 0.0) {
        ensure!(same != nan, "{a:?} approx itself = {same}");
    }
    Ok(())
}

fn publishers(s: &mut Src, ctx: &mut Ctx) -> Verdict {
    // None: attach another subscriber; Some(e): notify e
    let n = s.int(1, 30);
    let deep = s.below(2000) == 1999;
    let many = deep || s.chance(2);
    let most = if deep { 1000 } else { 100 };
    let repeats = if deep { [70usize, 300, 1100, 6000] } else { [20, 40, 70, 300] };
    // how many times an operation is repeated, and how many kinds of events there are
    let kinds = s.pick(&[6usize, 6, 2, 256]);
    let mut ops: Vec<Option<u32>> = vec![];
    let mut items = vec![];
    let (mut subscribers, mut calls) = (0, 0);
    for _ in 0..n {
        let o = if s.chance(25) { None } else { Some(s.below(kinds) as u32) };
        let k = if many && s.chance(20) { s.pick(&repeats) } else { 1 };
        let vary = many && s.chance(50);
        items.push((o, k, vary));
        for i in 0..k {
            // enough subscribers, enough calls
            if (o.is_none() && subscribers >= most) || calls > 1_000_000 {
                break;
            }
            subscribers += o.is_none() as usize;
            calls += if o.is_none() { 0 } else { subscribers };
            ops.push(o.map(|e| if vary { e + (i * 7) as u32 } else { e }));
        }
    }
    ctx.label(match ops.iter().filter(|o| o.is_none()).count() {
        0 => "no subscribers",
        1..=8 => "up to 8 subscribers",
        9..=100 => "up to 100 subscribers",
        _ => "up to 1000 subscribers",
    });
    ctx.label(match ops.len() {
        0..=64 => "up to 64 operations",
        65..=2000 => "up to 2000 operations",
        _ => "thousands of operations",
    });
    for o in &ops {
        ctx.id(o.map_or(u64::MAX, |e| e as u64));
    }
    ctx.desc(|| {
        let l: Vec<String> = items
            .iter()
            .map(|(o, k, vary)| match (o, k) {
                (None, 1) => "attach".to_string(),
                (None, k) => format!("attach {k} times, up to {most} in all"),
                (Some(e), 1) => format!("notify {e}"),
                (Some(e), k) => format!("notify {e} {k} times{}", if *vary { ", stepping by 7" } else { "" }),
            })
            .collect();
        l.join("; ")
    });
    let mut ledger = Ledger::new();
    let mut set = HashsetLedger::new();
    let mut callbacks = CallbackPublisher::default();
    let log: Arc<Mutex<Vec<(usize, u32)>>> = Arc::default();
    let (mut want_ledger, mut want_set, mut want_log) = (vec![], std::collections::BTreeSet::new(), vec![]);
    let mut subs = 0;
    for (i, o) in ops.iter().enumerate() {
        let before = want_log.len();
        match o {
            None => {
                let (l, k) = (log.clone(), subs);
                callbacks.attach(move |e: &u32| l.lock().unwrap().push((k, *e)));
                subs += 1;
            }
            Some(e) => {
                ledger.notify(*e);
                set.notify(*e);
                callbacks.notify(*e);
                want_ledger.push(*e);
                want_set.insert(*e);
                want_log.extend((0..subs).map(|k| (k, *e)));
            }
        }
        let new = want_log.len() - before;
        // everything for short histories and now and then, else what is new
        let all = i < 40 || i % if ops.len() > 2000 { 2048 } else { 64 } == 0 || i + 1 == ops.len();
        let l = ledger.events.len();
        ensure!(l == want_ledger.len() && ledger.events.last() == want_ledger.last(), "the ledger holds {:?}, expected {want_ledger:?}", ledger.events);
        ensure!(set.events.len() == want_set.len(), "the set ledger holds {} events, expected {}", set.events.len(), want_set.len());
        let got = log.lock().unwrap();
        let from = want_log.len() - new;
        ensure!(
            got.len() == want_log.len() && got[from..] == want_log[from..],
            "{o:?} told subscribers (subscriber, event) {:?}, expected {:?}", got.get(from..), &want_log[from..]
        );
        if all {
            ensure!(ledger.events == want_ledger, "the ledger holds {:?}, expected {want_ledger:?}", ledger.events);
            ensure!(*got == want_log, "subscribers were told (subscriber, event) {:?}, expected {want_log:?}", *got);
            let got: std::collections::BTreeSet<u32> = set.events.iter().copied().collect();
            ensure!(got == want_set, "the set ledger holds {got:?}, expected {want_set:?}");
        }
    }
    ctx.nontrivial = subs > 1 && want_log.len() > want_ledger.len() && want_set.len() < want_ledger.len();
    let empty = Ledger::<u8>::default().events.len() + HashsetLedger::<u8>::default().events.len();
    ensure!(empty == 0, "new ledgers hold events");
    Ok(())
}

fn scalars(s: &mut Src, ctx: &mut Ctx) -> Verdict {
    let high = if s.chance(25) { s.range(-40.0, 36.0) } else { s.range(-6.0, 6.0) };
    let u = 10f64.powf(high);
    let val = |s: &mut Src| if s.chance(40) { s.sint(9) as f32 } else { s.sym(u) as f32 };
    let (a, mut b, c, mut d) = (val(s), val(s), val(s), val(s));
    if s.chance(8) {
        (b, d) = (a, c);
    }
    let t = match s.weighted(&[1, 1, 1, 4, 3, 1]) {
        0 => 0.0f32,
        1 => 1.0,
        2 => 0.5,
        3 => s.f01() as f32,
        4 => s.sym(3.0) as f32,
        _ => {
            // nothing may overflow on the way
            let far = 10f64.powf(s.range(0.0, 9.0).min(37.5 - high));
            s.sym(far) as f32
        }
    };
    for x in [a, b, c, d, t] {
        ctx.idf(x);
    }
    ctx.desc(|| format!("lerp from ({a:?}, {c:?}) to ({b:?}, {d:?}) by {t:?}; squares"));
    ctx.nontrivial = a != b && t != 0.0 && t != 1.0;
    let lerp = |a: f32, b: f32| a as f64 + t as f64 * (b as f64 - a as f64);
    let tol = |a: f32, b: f32| 4.0 * EPS * (1.0 + t.abs() as f64) * (a.abs() as f64 + b.abs() as f64) + 4.5e-45;
    let got = a.lerp(b, t);
    ensure!((got as f64 - lerp(a, b)).abs() <= tol(a, b), "{a:?}.lerp({b:?}, {t:?}) = {got:?}, expected {:e}", lerp(a, b));
    let got = Lerp::lerp(Vec2::new(a, c), Vec2::new(b, d), t);
    let e = v(got.x as f64 - lerp(a, b), got.y as f64 - lerp(c, d));
    ensure!(e.x.abs() <= tol(a, b) && e.y.abs() <= tol(c, d), "({a:?}, {c:?}).lerp(({b:?}, {d:?}), {t:?}) = {got:?}");
    let got = a.square();
    let want = a as f64 * a as f64;
    ensure!(got == want as f32 || (got as f64 - want).abs() <= 2.0 * EPS * want + 1.5e-45, "{a:?}.square() = {got:?}");
    Ok(())
}

pub static PROPS: [Prop; 3] = [
    Prop { id: "C29", words: 28, quick: 6_000_000, thorough: 300_000_000, rule: "a case is two numbers or vectors (equal, at 1/16 to 16 times the tolerance, unrelated, special values) and a tolerance; non-trivial = they differ and the comparison is not within 0.1% of the tolerance", assumptions: &["tolerances of 0 and 1e-18 to 100; vectors of subnormal size are not judged"], check: approx },
    Prop { id: "C30", words: 140, quick: 600_000, thorough: 20_000_000, rule: "a case is a history of attached subscribers and published events on all three publishers; non-trivial = several subscribers and a repeated event", assumptions: &[], check: publishers },
    Prop { id: "C37", words: 16, quick: 8_000_000, thorough: 300_000_000, rule: "a case is two points and a factor; non-trivial = they differ and the factor is neither 0 nor 1", assumptions: &["magnitudes up to 1e36, factors up to 1e9, no overflow on the way"], check: scalars },
];
