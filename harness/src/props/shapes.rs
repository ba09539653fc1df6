//! C10, C11, C12, C15, C16: extreme points, Minkowski differences, polygons, bounding boxes.

use crate::ensure;
use crate::gen::*;
use crate::geo::{self, v, Body, V};
use crate::query::*;
use crate::runner::{Ctx, Prop, Verdict};
use crate::src::Src;
use auburn::col2d::local_minkowski_diff::LocalMinkowskiDiff2d;
use auburn::col2d::*;

fn show(p: Vec2) -> String {
    format!("({:?}, {:?})", p.x, p.y)
}

/// A direction of any length, often along an axis, a diagonal or an edge normal of `b`.
/// `decades`: the longest ones are of length 10^decades, the shortest of 10^-decades. Dot products of
/// scaled directions and points must not overflow.
/// Powers of ten a direction's length may have so that its products with each of these stay in range.
fn lengths(of: &[f64]) -> (f64, f64) {
    let of = of.iter().map(|x| x.abs()).filter(|x| *x > 0.0);
    let (lo, hi) = of.fold((1.0f64, 1.0f64), |(a, b), x| (a.min(x), b.max(x)));
    ((-36.0 - lo.log10()).max(-36.0).min(0.0), (36.5 - hi.log10()).min(36.5).max(0.0))
}

/// The same for a shape's extreme point when placed: `body` of `sh` by `t`.
fn within(sh: &Sh, body: &Body, t: &Tf) -> (f64, f64) {
    lengths(&[t.scale.x as f64, t.scale.y as f64, sh.local().reach(v(0.0, 0.0)), body.reach(vf(t.pos))])
}

pub fn direction(s: &mut Src, b: &Body, (lo, hi): (f64, f64)) -> Vec2 {
    let d = match s.weighted(&[3, 2, 4, 3]) {
        0 => s.pick(&[Vec2::X, Vec2::Y, Vec2::NEG_X, Vec2::NEG_Y]),
        1 => s.pick(&[
            Vec2::new(1.0, 1.0),
            Vec2::new(-1.0, 1.0),
            Vec2::new(1.0, -1.0),
            Vec2::new(-1.0, -1.0),
        ]),
        2 => {
            let t = s.range(0.0, std::f64::consts::TAU);
            fv(v(t.cos(), t.sin()))
        }
        _ => {
            let n = b.pts.len();
            let i = s.below(n);
            let e = b.pts[(i + 1) % n] - b.pts[i];
            let e = v(e.y, -e.x).unit();
            let t = if s.chance(50) { s.sym(1e-3) } else { 0.0 };
            fv(v(e.x - t * e.y, e.y + t * e.x))
        }
    };
    match s.weighted(&[8, 4, 1, 1]) {
        0 => d,
        1 => d * s.range(0.1, 10.0) as f32,
        2 => d * 10f64.powf(s.range(lo.max(-12.0), hi.min(12.0))) as f32,
        _ => d * 10f64.powf(s.range(lo, hi)) as f32,
    }
}

/// `q` lies in the body and no point of the body is farther along `d`.
fn extreme(name: &str, b: &Body, d: Vec2, q: Vec2, tol: f64) -> Verdict {
    let u = vf(d).unit();
    let x = vf(q);
    ensure!(x.finite(), "{name} along {} is {q:?}", show(d));
    let h = b.support(u);
    ensure!(
        h - x.dot(u) <= tol,
        "{name} along {} is {}, at {:e} along it; the shape reaches to {:e}",
        show(d), show(q), x.dot(u), h
    );
    let out = geo::sd(b, x);
    ensure!(out <= tol, "{name} along {} is {}, which is {out:e} outside the shape", show(d), show(q));
    Ok(())
}

fn any_shape(s: &mut Src) -> Sh {
    let u = unit(s, true);
    let k = s.weighted(&[1, 3, 3, 6]);
    shape(s, k, u)
}

/// Now and then the polygon has been another one before, and was asked then.
fn was_another(s: &mut Src, ctx: &mut Ctx, sh: &mut Sh, d: Vec2) {
    let Sh::Poly(p) = sh else { return };
    if s.chance(10) {
        ctx.label("changed in place before");
        let points = p.points.clone();
        p.points.iter_mut().for_each(|q| *q *= 0.5);
        std::hint::black_box((p.symmetric_bounding_box(), p.extreme_point(d), p.extreme_point(-d)));
        p.points.copy_from_slice(&points);
    }
}

fn local(s: &mut Src, ctx: &mut Ctx) -> Verdict {
    let mut sh = any_shape(s);
    let b = sh.local();
    let d = direction(s, &b, if matches!(sh, Sh::Ball(_)) { (-37.0, 37.0) } else { lengths(&[b.reach(v(0.0, 0.0))]) });
    sh.id(ctx);
    ctx.idf(d.x);
    ctx.idf(d.y);
    ctx.label(sh.kind());
    ctx.desc(|| format!("{} along {}", sh.show(), show(d)));
    ctx.nontrivial = b.reach(v(0.0, 0.0)) > 0.0;
    was_another(s, ctx, &mut sh, d);
    let tol = 4.0 * EPS * b.reach(v(0.0, 0.0));
    let q = match &sh {
        Sh::Pt(p) => p.extreme_point(d),
        Sh::Ball(p) => p.extreme_point(d),
        Sh::Box(p) => p.extreme_point(d),
        Sh::Poly(p) => p.extreme_point(d),
    };
    extreme("the extreme point", &b, d, q, tol)?;
    if let Sh::Poly(p) = &sh {
        ensure!(p.points.contains(&q), "the extreme point {} of a polygon is none of its points", show(q));
    }
    if let Some(u) = sh.union() {
        let w = u.extreme_point(d);
        extreme("the extreme point of the shape as a Shape2d", &b, d, w, tol)?;
    }
    Ok(())
}

fn placement(s: &mut Src, u: f32, round: bool) -> Tf {
    let sc = |s: &mut Src| match s.weighted(&[12, 12, 16, 1]) {
        0 => 1.0f32,
        1 => s.pick(&[2.0f32, 0.5, 4.0, 0.25, 3.0]),
        2 => 2f64.powf(s.range(-4.0, 4.0)) as f32,
        _ => 2f64.powf(s.range(-12.0, 12.0)) as f32,
    };
    let mut t = Tf::ID;
    let style = s.weighted(&[2, 2, 6]);
    if style >= 1 {
        t.scale = Vec2::splat(sc(s));
    }
    if style == 2 {
        t.ang = angle(s);
        if !round && s.chance(40) {
            t.scale.y = sc(s);
            if s.chance(25) {
                t.scale.x = -t.scale.x;
            }
            if s.chance(25) {
                t.scale.y = -t.scale.y;
            }
        }
    }
    t.pos = match s.weighted(&[1, 3, 2]) {
        0 => Vec2::ZERO,
        1 => Vec2::new(s.sint(20) as f32, s.sint(20) as f32) * 0.5 * u,
        _ => Vec2::new(s.sym(20.0) as f32, s.sym(20.0) as f32) * u,
    };
    t
}

fn ext_t<S: ExtremePointT2d<T>, T: Transformation2d>(x: &S, t: &T, d: Vec2) -> (Vec2, Vec2) {
    (
        x.extreme_point_t(t, d),
        Collider2d::new(x, t).extreme_point(d),
    )
}

macro_rules! each_shape {
    ($sh:expr, |$x:ident| $e:expr) => {
        match $sh {
            Sh::Pt($x) => $e,
            Sh::Ball($x) => $e,
            Sh::Box($x) => $e,
            Sh::Poly($x) => $e,
        }
    };
}

/// As `placed`, with the transform represented by what `rep` makes of it.
#[cfg(feature = "interop")]
pub fn placed_by<T: Transformation2d>(s: &mut Src, ctx: &mut Ctx, rep: &dyn Fn(&Tf) -> T) -> Verdict {
    let u = unit(s, true);
    let k = s.weighted(&[1, 3, 4, 6]);
    let sh = shape(s, k, u);
    let t = placement(s, u, k == 1);
    let b = sh.body(&t);
    let d = direction(s, &b, within(&sh, &b, &t));
    sh.id(ctx);
    t.id(ctx);
    ctx.idf(d.x);
    ctx.idf(d.y);
    ctx.desc(|| format!("{} at {} along {}", sh.show(), t.show(), show(d)));
    ctx.nontrivial = !t.translation_only() && b.reach(vf(t.pos)) > 0.0;
    let tol = 24.0 * EPS * (vf(t.pos).len() + b.reach(vf(t.pos)));
    let (a, c) = each_shape!(&sh, |x| ext_t(x, &rep(&t), d));
    extreme("the extreme point of the placed shape", &b, d, a, tol)?;
    extreme("the extreme point of the collider", &b, d, c, tol)?;
    Ok(())
}

fn placed(s: &mut Src, ctx: &mut Ctx) -> Verdict {
    let u = unit(s, true);
    let k = s.weighted(&[1, 3, 4, 6]);
    let sh = shape(s, k, u);
    let union = k != 0 && s.chance(30);
    // a Shape2d never scales the radius by the larger of two scales, so keep balls uniform
    let t = placement(s, u, k == 1);
    let b = sh.body(&t);
    let d = direction(s, &b, within(&sh, &b, &t));
    sh.id(ctx);
    t.id(ctx);
    ctx.idf(d.x);
    ctx.idf(d.y);
    ctx.id(union as u64);
    ctx.label(sh.kind());
    if !t.uniform() {
        ctx.label("non-uniform or mirroring scale");
    }
    ctx.desc(|| format!("{}{} at {} along {}", sh.show(), if union { " as Shape2d" } else { "" }, t.show(), show(d)));
    ctx.nontrivial = !t.translation_only() && b.reach(vf(t.pos)) > 0.0;
    let tol = 12.0 * EPS * (vf(t.pos).len() + b.reach(vf(t.pos)));
    let mut answers = vec![];
    if union {
        let x = sh.union().unwrap();
        answers.push(ext_t(&x, &t.t2d(), d));
        if t.uniform() && t.scale.x > 0.0 {
            answers.push(ext_t(&x, &crate::query::Turned::from(&t), d));
        }
    } else {
        each_shape!(&sh, |x| {
            answers.push(ext_t(x, &t.t2d(), d));
            if t.axis_only() {
                answers.push(ext_t(x, &axis(&t), d));
            }
            if t.uniform() && t.scale.x > 0.0 {
                answers.push(ext_t(x, &crate::query::Turned::from(&t), d));
            }
            if t.translation_only() {
                answers.push(ext_t(x, &t.pos, d));
                answers.push(ext_t(x, &Translate2d::new(t.pos), d));
            }
        });
    }
    for (a, c) in answers {
        extreme("the extreme point of the placed shape", &b, d, a, tol)?;
        extreme("the extreme point of the collider", &b, d, c, tol)?;
    }
    Ok(())
}

/// Part of C17: extreme points of a shape inside `Shape2d`, by itself and placed by `t`.
pub fn in_union(s: &mut Src, ctx: &mut Ctx, sh: &Sh, t: &Tf) -> Verdict {
    let Some(x) = sh.union() else { return Ok(()) };
    let b = sh.local();
    let d = direction(s, &b, if matches!(sh, Sh::Ball(_)) { (-37.0, 37.0) } else { lengths(&[b.reach(v(0.0, 0.0))]) });
    ctx.idf(d.x);
    ctx.idf(d.y);
    let tol = 4.0 * EPS * b.reach(v(0.0, 0.0));
    extreme("the extreme point as a Shape2d", &b, d, x.extreme_point(d), tol)?;
    if matches!(sh, Sh::Ball(_)) && !t.uniform() {
        return Ok(());
    }
    let b = sh.body(t);
    let d = direction(s, &b, within(sh, &b, t));
    ctx.idf(d.x);
    ctx.idf(d.y);
    let tol = 12.0 * EPS * (vf(t.pos).len() + b.reach(vf(t.pos)));
    let (a, c) = ext_t(&x, &t.t2d(), d);
    extreme("the extreme point as a placed Shape2d", &b, d, a, tol)?;
    extreme("the extreme point of a Shape2d's collider", &b, d, c, tol)
}

fn difference(s: &mut Src, ctx: &mut Ctx) -> Verdict {
    let u = unit(s, true);
    let (ka, kb) = (s.weighted(&[1, 3, 4, 6]), s.weighted(&[1, 3, 4, 6]));
    let (a, b) = (shape(s, ka, u), shape(s, kb, u));
    let t = placement(s, u, kb == 1);
    let (ba, bb) = (a.local(), b.body(&t));
    let m = geo::diff(&ba, &bb);
    let d = {
        let (l, h) = within(&b, &bb, &t);
        let (l2, h2) = lengths(&[ba.reach(v(0.0, 0.0))]);
        direction(s, &m, (l.max(l2), h.min(h2)))
    };
    a.id(ctx);
    b.id(ctx);
    t.id(ctx);
    ctx.idf(d.x);
    ctx.idf(d.y);
    ctx.desc(|| format!("{} minus {} at {}, along {}", a.show(), b.show(), t.show(), show(d)));
    ctx.nontrivial = ka != 0 && kb != 0;
    // a Ball is scaled by the transform of the point it answers with
    let q = each_shape!(&a, |x| each_shape!(&b, |y| {
        LocalMinkowskiDiff2d::raw(x, y, &t.t2d()).extreme_point(d)
    }));
    let tol = 16.0 * EPS * (vf(t.pos).len() + bb.reach(vf(t.pos)) + ba.reach(v(0.0, 0.0)));
    extreme("the extreme point of the difference", &m, d, q, tol)
}

/// C38: the general convex query posed on a Minkowski difference itself, whose first shape may be a
/// placed one.
fn general(s: &mut Src, ctx: &mut Ctx) -> Verdict {
    let u = unit(s, true);
    let (ka, kb) = (s.weighted(&[1, 3, 4, 6]), s.weighted(&[1, 3, 4, 6]));
    let (a, b) = (shape(s, ka, u), shape(s, kb, u));
    // one object for both shapes
    let same = ka == kb && s.chance(10);
    let b = if same { a.clone() } else { b };
    let ta = if s.chance(50) { placement(s, u, ka == 1) } else { Tf::ID };
    let mut tb = placement(s, u, kb == 1);
    let ba = a.body(&ta);
    let b0 = b.body(&Tf { pos: Vec2::ZERO, ..tb });
    let size = ba.reach(vf(ta.pos)) + b0.reach(v(0.0, 0.0));
    tb.pos = match s.weighted(&[4, 4, 1, 1]) {
        0 => ta.pos + Vec2::new(s.sint(24) as f32, s.sint(24) as f32) * (0.25 * u),
        1 => fv(vf(ta.pos) + v(s.sym(size), s.sym(size))),
        2 => fv(vf(ta.pos) + v(s.sym(size * 0.01), s.sym(size * 0.01))),
        _ => fv(vf(ta.pos) + v(s.sym(size * 50.0), s.sym(size * 50.0))),
    };
    let bb = b.body(&tb);
    a.id(ctx);
    ta.id(ctx);
    b.id(ctx);
    tb.id(ctx);
    let m = geo::diff(&ba, &bb);
    let sd = geo::sd(&m, v(0.0, 0.0));
    let (pa, pb) = (vf(ta.pos), vf(tb.pos));
    let mag = size + pa.len() + pb.len() + (pb - pa).len();
    let t = Truth {
        near: sd < size,
        m,
        sd,
        margin: 24.0 * EPS * mag,
        slack: 48.0 * EPS * mag,
        rel: 0.015,
        mag,
    };
    ctx.desc(|| format!("{} at {}, {} at {}{}, signed distance {sd:e}", a.show(), ta.show(), b.show(), tb.show(), if same { " (the same object)" } else { "" }));
    ctx.label(if ta == Tf::ID { "plain first shape" } else { "placed first shape" });
    ctx.label(if sd < 0.0 { "overlapping" } else { "separated" });
    ctx.nontrivial = t.decisive() && t.near;
    fn go<A: ExtremePoint2d, B: ExtremePoint2d>(a: &A, b: &B, t: &Transform2d) -> [(bool, Vec2); 4] {
        let d = LocalMinkowskiDiff2d::raw(a, b, t);
        [
            SdfvMinkowski2d::<false, false>::sdfv_minkowski(&d),
            SdfvMinkowski2d::<true, false>::sdfv_minkowski(&d),
            SdfvMinkowski2d::<false, true>::sdfv_minkowski(&d),
            SdfvMinkowski2d::<true, true>::sdfv_minkowski(&d),
        ]
    }
    let r = each_shape!(&a, |x| each_shape!(if same { &a } else { &b }, |y| {
        if ta == Tf::ID {
            go(x, y, &tb.t2d())
        } else {
            go(&Collider2d::new(x, &ta.t2d()), y, &tb.t2d())
        }
    }));
    const NAMES: [&str; 4] = ["the verdict alone", "penetration", "distance", "penetration and distance"];
    for (i, (hit, w)) in r.into_iter().enumerate() {
        if t.decisive() {
            ensure!(hit == t.overlap(), "asked for {}, the difference answers {hit}, the signed distance is {sd:e} (margin {:e})", NAMES[i], t.margin);
        } else {
            ctx.measure("verdict", if hit != t.overlap() { sd.abs() / (mag * EPS) } else { 0.0 });
        }
        if (hit && i & 1 == 1) || (!hit && i & 2 == 2) {
            t.vector(&format!("asked for {}, the difference", NAMES[i]), w)?;
        }
    }
    Ok(())
}

fn eq_body(p: &[Vec2], want: &[V], tol: f64) -> bool {
    p.len() == want.len() && p.iter().zip(want).all(|(a, b)| (vf(*a) - *b).len() <= tol)
}

fn polygons(s: &mut Src, ctx: &mut Ctx) -> Verdict {
    match s.weighted(&[3, 2, 5]) {
        0 => {
            let n = if s.chance(2) { s.int(81, 3000) } else { s.int(1, 80) } as usize;
            let r = length(s) * unit(s, true);
            ctx.label("regular");
            ctx.id(n as u64);
            ctx.idf(r);
            ctx.desc(|| format!("regular polygons with {n} sides, radius {r:?}"));
            ctx.nontrivial = n >= 3;
            let tol = 16.0 * EPS * r as f64;
            let ring = |up: bool| -> Vec<V> {
                (0..n)
                    .map(|i| {
                        let t = i as f64 / n as f64 * std::f64::consts::TAU;
                        if up {
                            v(t.sin(), t.cos()) * r as f64
                        } else {
                            v(t.cos(), t.sin()) * r as f64
                        }
                    })
                    .collect()
            };
            let p = Poly2d::regular(n, r);
            ensure!(eq_body(&p.points, &ring(false), tol), "Poly2d::regular({n}, {r:?}) has the points {:?}", p.points);
            let q = Poly2d::regular_upright(n, r);
            ensure!(eq_body(&q.points, &ring(true), tol), "Poly2d::regular_upright({n}, {r:?}) has the points {:?}", q.points);
            if n >= 3 && n <= 300 {
                ensure!(p.strict_check() && q.strict_check(), "a regular polygon with {n} sides fails strict_check");
            }
        }
        1 => {
            let u = unit(s, true);
            let b = Box2d::with_halfdims(length(s) * u, length(s) * u);
            ctx.label("from a box");
            ctx.idf(b.halfsize.x);
            ctx.idf(b.halfsize.y);
            ctx.desc(|| format!("polygon of {}", Sh::Box(b).show()));
            ctx.nontrivial = true;
            let p: Poly2d = b.into();
            let have = Body::new(p.points.iter().map(|p| vf(*p)).collect(), 0.0);
            let want = Sh::Box(b).local();
            ensure!(have.pts == want.pts && p.points.len() == 4, "the polygon of the box has the points {:?}", p.points);
            // the corners of a needle tie within rounding
            let aspect = b.halfsize.min_element() / b.halfsize.max_element();
            ensure!(aspect < 1e-2 || p.strict_check(), "the polygon of a box fails strict_check");
        }
        _ => {
            // any points: convex position around the origin or not
            let u = unit(s, true);
            let pts: Vec<Vec2> = if s.chance(50) {
                let n = s.int(1, 8);
                (0..n)
                    .map(|_| Vec2::new(s.sint(5) as f32, s.sint(5) as f32) * u)
                    .collect()
            } else {
                poly(s, u).points
            };
            ctx.label("any points");
            for p in &pts {
                ctx.idf(p.x);
                ctx.idf(p.y);
            }
            let sh = Sh::Poly(Poly2d::new(&pts));
            ctx.desc(|| format!("strict_check of {}", sh.show()));
            let p = Poly2d::new(&pts);
            ensure!(p.points == pts, "Poly2d::new changed the points to {:?}", p.points);
            let mut want = true;
            let mut sure = true;
            for a in &pts {
                for b in &pts {
                    if a == b {
                        continue;
                    }
                    let (a, b) = (vf(*a), vf(*b));
                    let gap = a.dot(a) - a.dot(b);
                    if gap.abs() <= 8.0 * EPS * (a.dot(a) + a.len() * b.len()) {
                        sure = false;
                    }
                    if gap < 0.0 {
                        want = false;
                    }
                }
            }
            ctx.nontrivial = sure && pts.len() >= 3;
            ctx.label(if !sure { "undecided" } else if want { "accepted" } else { "rejected" });
            // a point that is certainly not the farthest along itself decides, ties or not
            let certainly_bad = pts.iter().any(|a| {
                pts.iter().any(|b| {
                    let (a, b) = (vf(*a), vf(*b));
                    a.dot(b) - a.dot(a) > 8.0 * EPS * (a.dot(a) + a.len() * b.len())
                })
            });
            let got = p.strict_check();
            if sure {
                ensure!(got == want, "strict_check() = {got}, farthest-point test by definition: {want}");
            } else if certainly_bad {
                ensure!(!got, "strict_check() accepts points that are not the farthest in their direction");
            }
        }
    }
    Ok(())
}

fn bounds(s: &mut Src, ctx: &mut Ctx) -> Verdict {
    let mut sh = any_shape(s);
    let u = unit(s, true);
    let n = if s.chance(2) { s.int(6, 24) } else { s.int(0, 5) };
    let start = if s.chance(30) {
        Vec2::ZERO
    } else {
        Vec2::new(length(s) * u, length(s) * u)
    };
    let pts: Vec<Vec2> = (0..n)
        .map(|_| {
            let k = if s.chance(50) { 1.0 } else { 20.0 };
            Vec2::new(s.sym(k) as f32, s.sym(k) as f32) * u
        })
        .collect();
    sh.id(ctx);
    for p in &pts {
        ctx.idf(p.x);
        ctx.idf(p.y);
    }
    ctx.idf(start.x);
    ctx.label(sh.kind());
    ctx.desc(|| format!("bounding box of {}; a box of half size {} covering {:?}", sh.show(), show(start), pts));
    ctx.nontrivial = sh.kind() != "Point" && n > 0;
    was_another(s, ctx, &mut sh, Vec2::X);
    let b = each_shape!(&sh, |x| x.symmetric_bounding_box());
    let l = sh.local();
    let want = l.pts.iter().fold(v(0.0, 0.0), |m, p| {
        v(m.x.max(p.x.abs() + l.r), m.y.max(p.y.abs() + l.r))
    });
    ensure!(
        vf(b.halfsize) == want,
        "the bounding box has half size {}, the shape reaches to {:?} from the center",
        show(b.halfsize), want
    );
    let mut c = Box2d::new(start);
    let mut m = start;
    for p in &pts {
        c.cover(p);
        m = m.max(p.abs());
        ensure!(c.halfsize == m, "after cover({}) the half size is {}, expected {}", show(*p), show(c.halfsize), show(m));
    }
    ensure!(Box2d::with_halfdims(start.x, start.y) == Box2d { halfsize: start }, "Box2d::with_halfdims");
    ensure!(Ball::with_radius(start.x) == Ball { radius: start.x }, "Ball::with_radius");
    Ok(())
}

const RULE_EXT: &str = "cases are shapes and directions along axes, diagonals, edge normals (exact or nearly) or anywhere, of any length whose products with the shape are representable (1e-37..1e37 for balls)";

pub static PROPS: [Prop; 6] = [
    Prop { id: "C10", words: 60, quick: 4_000_000, thorough: 150_000_000, rule: RULE_EXT, assumptions: &["non-zero directions"], check: local },
    Prop { id: "C11", words: 60, quick: 4_000_000, thorough: 150_000_000, rule: "cases are shapes placed by every representation able to express the transform, and directions along axes, diagonals, edge normals (exact or nearly) or anywhere, of any length whose products with the sizes and scales are representable (about 1e-36..1e36 for moderate ones); non-trivial = the transform rotates or scales and the shape has an extent", assumptions: &["balls are scaled uniformly; boxes and polygons by any non-zero factors per axis"], check: placed },
    Prop { id: "C38", words: 100, quick: 3_000_000, thorough: 120_000_000, rule: "cases are two 2D shapes of any kind, the first plain or as a collider placed by any transform, the second under any transform (negative and independent factors for boxes and polygons), queried through their Minkowski difference; non-trivial = the signed distance of the f64 reference is outside the rounding margin and below the size of the shapes", assumptions: &["balls are scaled uniformly; polygons as for C01"], check: general },
    Prop { id: "C12", words: 90, quick: 3_000_000, thorough: 100_000_000, rule: "cases are two shapes, a relative transform and a direction; non-trivial = neither shape is a point", assumptions: &["balls are scaled uniformly"], check: difference },
    Prop { id: "C15", words: 60, quick: 4_000_000, thorough: 150_000_000, rule: "cases are regular polygons of 1..3000 sides, boxes, and point sets in convex position or anywhere on a lattice; non-trivial = at least three points and no dot product within rounding of a tie", assumptions: &["polygons where a point ties with another within rounding are not judged by strict_check"], check: polygons },
    Prop { id: "C16", words: 60, quick: 4_000_000, thorough: 150_000_000, rule: "a case is a shape and a box covering up to 5 points; non-trivial = the shape is not a point and there is a point to cover", assumptions: &[], check: bounds },
];
