//! C18: shapes a user defines through an extreme point alone.

use crate::ensure;
use crate::gen::*;
use crate::geo::{self, v, Body, V};
use crate::query::{q_col, q_rel, Query, Res, Turned, EPS};
use crate::runner::{Ctx, Prop, Verdict};
use crate::src::Src;
use auburn::col2d::*;
use auburn::shape_union;
use std::cell::Cell;

thread_local! {
    static CALLS: Cell<u32> = const { Cell::new(0) };
}

/// Any point set within `r` of a polygon: capsules (two points), rounded polygons, points.
#[derive(Debug, Clone)]
pub struct Rounded {
    pts: Vec<Vec2>,
    r: f32,
}

impl ExtremePoint2d for Rounded {
    fn extreme_point(&self, d: Vec2) -> Vec2 {
        CALLS.with(|c| c.set(c.get() + 1));
        let p = self
            .pts
            .iter()
            .copied()
            .max_by(|a, b| vf(*a).dot(vf(d)).total_cmp(&vf(*b).dot(vf(d))))
            .unwrap();
        fv(vf(p) + vf(d).unit() * self.r as f64)
    }
}

/// An ellipse along its axes.
#[derive(Debug, Clone)]
pub struct Oval {
    half: Vec2,
}

impl ExtremePoint2d for Oval {
    fn extreme_point(&self, d: Vec2) -> Vec2 {
        CALLS.with(|c| c.set(c.get() + 1));
        let h = vf(self.half);
        let d = vf(d).unit();
        let w = v(h.x * d.x, h.y * d.y);
        let l = w.len();
        if l == 0.0 {
            return Vec2::new(self.half.x, 0.0);
        }
        fv(v(h.x * w.x / l, h.y * w.y / l))
    }
}

// every user-defined shape against every other, and against the provided ones
impl DefaultMinkowski<Rounded> for Rounded {}
impl DefaultMinkowski<Oval> for Rounded {}
impl DefaultMinkowski<Oval> for Oval {}
impl DefaultMinkowski<Box2d> for Rounded {}
impl DefaultMinkowski<Poly2d> for Oval {}
impl DefaultMinkowski<Ball> for Oval {}

shape_union!(Mine; Rounded, Oval, Ball, Box2d, Poly2d);

#[derive(Debug, Clone)]
enum Any {
    Rounded(Rounded),
    Oval(Oval),
    Own(Sh),
}

impl Any {
    fn mine(&self) -> Mine {
        match self {
            Any::Rounded(x) => Mine::Rounded(x.clone()),
            Any::Oval(x) => Mine::Oval(x.clone()),
            Any::Own(Sh::Ball(x)) => Mine::Ball(*x),
            Any::Own(Sh::Box(x)) => Mine::Box2d(*x),
            Any::Own(Sh::Poly(x)) => Mine::Poly2d(x.clone()),
            Any::Own(Sh::Pt(_)) => unreachable!(),
        }
    }
    fn show(&self) -> String {
        match self {
            Any::Rounded(x) => format!("points {:?} within {:?}", x.pts, x.r),
            Any::Oval(x) => format!("ellipse ({:?}, {:?})", x.half.x, x.half.y),
            Any::Own(x) => x.show(),
        }
    }
    fn id(&self, c: &mut Ctx) {
        match self {
            Any::Rounded(x) => {
                c.idf(x.r);
                for p in &x.pts {
                    c.idf(p.x);
                    c.idf(p.y);
                }
            }
            Any::Oval(x) => {
                c.idf(x.half.x);
                c.idf(x.half.y);
            }
            Any::Own(x) => x.id(c),
        }
    }
    fn size(&self) -> f64 {
        match self {
            Any::Rounded(x) => x.pts.iter().map(|p| vf(*p).len()).fold(0.0, f64::max) + x.r as f64,
            Any::Oval(x) => x.half.max_element() as f64,
            Any::Own(x) => x.local().reach(v(0.0, 0.0)),
        }
    }
    /// Farthest value along the unit direction `d`, for the shape under `t`.
    fn support(&self, t: &Tf, d: V) -> f64 {
        let l = t.undir(d);
        let k = t.scale.x as f64;
        let h = match self {
            Any::Rounded(x) => {
                x.pts.iter().map(|p| vf(*p).dot(l)).fold(f64::NEG_INFINITY, f64::max) + x.r as f64
            }
            Any::Oval(x) => (x.half.x as f64 * l.x).hypot(x.half.y as f64 * l.y),
            Any::Own(x) => x.local().support(l),
        };
        h * k + vf(t.pos).dot(d)
    }
    fn body(&self, t: &Tf) -> Option<Body> {
        match self {
            Any::Rounded(x) => Some(Body::new(
                x.pts.iter().map(|p| t.point(vf(*p))).collect(),
                x.r as f64 * t.scale.x as f64,
            )),
            Any::Oval(_) => None,
            Any::Own(x) => Some(x.body(t)),
        }
    }
}

fn any(s: &mut Src, u: f32, kind: usize) -> Any {
    match kind {
        0 => {
            let n = s.int(1, 5) as usize;
            let l = length(s) * u;
            let pts = match n {
                1 => vec![Vec2::ZERO],
                2 => {
                    let t = s.range(0.0, 6.3);
                    let d = fv(v(t.cos(), t.sin()) * l as f64);
                    vec![-d * s.range(0.3, 1.0) as f32, d]
                }
                _ => (0..n)
                    .map(|i| {
                        let t = (i as f64 + s.sym(0.3)) / n as f64 * std::f64::consts::TAU;
                        fv(v(t.cos(), t.sin()) * l as f64)
                    })
                    .collect(),
            };
            let r = if n <= 2 || s.chance(70) { length(s) * u } else { 0.0 };
            Any::Rounded(Rounded { pts, r })
        }
        1 => {
            let a = length(s) * u;
            let aspect = 2f64.powf(s.range(-3.0, 3.0)) as f32;
            Any::Oval(Oval { half: Vec2::new(a, a * aspect) })
        }
        k => Any::Own(shape(s, k - 1, u)),
    }
}

/// Signed distance from the origin to the difference of the placed shapes, from supports alone:
/// the largest separation over all directions.
fn sd(a: &Any, b: &Any, ta: &Tf, tb: &Tf, o: V) -> f64 {
    if let (Some(x), Some(y)) = (a.body(ta), b.body(tb)) {
        return geo::sd(&geo::diff(&x, &y), o);
    }
    let gap = |t: f64| {
        let d = v(t.cos(), t.sin());
        d.dot(o) - (a.support(ta, d) + b.support(tb, -d))
    };
    // the separation is smooth between the corners of the shapes: refine every local maximum
    let n = 96;
    let step = std::f64::consts::TAU / n as f64;
    let g: Vec<f64> = (0..n).map(|i| gap(i as f64 * step)).collect();
    let mut best = f64::NEG_INFINITY;
    for i in 0..n {
        best = best.max(g[i]);
        if g[i] >= g[(i + 1) % n] && g[i] >= g[(i + n - 1) % n] {
            let (mut lo, mut hi) = ((i as f64 - 1.0) * step, (i as f64 + 1.0) * step);
            for _ in 0..60 {
                let (m, w) = (lo + (hi - lo) * 0.382, lo + (hi - lo) * 0.618);
                if gap(m) < gap(w) {
                    lo = m
                } else {
                    hi = w
                }
            }
            best = best.max(gap(0.5 * (lo + hi)));
        }
    }
    best
}

/// How the query is posed: relative, as colliders, or either with a user's own transform.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Form {
    Rel,
    RelOwn,
    Col,
    ColOwn,
}

fn ask(a: &Any, ta: &Tf, b: &Any, tb: &Tf, union: bool, form: Form, same: bool) -> Res {
    let go = Go { ta, tb, form };
    impl Go<'_> {
        fn go<A, B>(&self, a: &A, b: &B) -> Res
        where
            A: Query<B, Transform2d> + Query<B, Vec2> + Query<B, Turned>,
        {
            let (ta, tb) = (self.ta, self.tb);
            match self.form {
                Form::Rel if tb.translation_only() => q_rel(a, b, &tb.pos),
                Form::Rel => q_rel(a, b, &tb.t2d()),
                Form::RelOwn => q_rel(a, b, &Turned::from(tb)),
                Form::Col if ta.translation_only() && tb.translation_only() => q_col(a, &ta.pos, b, &tb.pos),
                Form::Col => q_col(a, &ta.t2d(), b, &tb.t2d()),
                Form::ColOwn => q_col(a, &Turned::from(ta), b, &Turned::from(tb)),
            }
        }
    }
    struct Go<'a> {
        ta: &'a Tf,
        tb: &'a Tf,
        form: Form,
    }
    let b = if same { a } else { b };
    if !union {
        match (a, b) {
            (Any::Rounded(x), Any::Rounded(y)) => return go.go(x, y),
            (Any::Rounded(x), Any::Oval(y)) => return go.go(x, y),
            (Any::Oval(x), Any::Oval(y)) => return go.go(x, y),
            (Any::Rounded(x), Any::Own(Sh::Box(y))) => return go.go(x, y),
            (Any::Oval(x), Any::Own(Sh::Poly(y))) => return go.go(x, y),
            (Any::Oval(x), Any::Own(Sh::Ball(y))) => return go.go(x, y),
            _ => {}
        }
    }
    let (x, y) = (a.mine(), b.mine());
    go.go(&x, if same { &x } else { &y })
}

fn user_shapes(s: &mut Src, ctx: &mut Ctx) -> Verdict {
    let u = unit(s, true);
    let (ka, kb) = (s.weighted(&[5, 4, 1, 1, 1]), s.weighted(&[4, 4, 2, 3, 3]));
    let (a, b) = (any(s, u, ka), any(s, u, kb));
    // one object for both shapes
    let same = ka == kb && s.chance(10);
    let b = if same { a.clone() } else { b };
    let union = s.chance(30);
    let form = [Form::Rel, Form::Col, Form::RelOwn, Form::ColOwn][s.weighted(&[6, 4, 1, 1])];
    let mut tb = Tf::ID;
    if s.chance(60) {
        tb.ang = angle(s);
    }
    if s.chance(30) {
        tb.scale = Vec2::splat(s.pick(&[2.0f32, 0.5, 3.0]));
    }
    let size = a.size() + b.size() * tb.scale.x as f64;
    tb.pos = match s.weighted(&[5, 1, 1]) {
        0 => {
            let t = s.range(0.0, 6.3);
            let k = s.range(0.05, 1.3) * size;
            fv(v(t.cos(), t.sin()) * k)
        }
        1 => Vec2::new(s.sint(4) as f32, s.sint(4) as f32) * u,
        _ => fv(v(s.sym(size * 30.0), s.sym(size * 30.0))),
    };
    // as colliders the whole pair is placed somewhere
    let mut ta = Tf::ID;
    if matches!(form, Form::Col | Form::ColOwn) {
        if s.chance(60) {
            ta.ang = angle(s);
        }
        if s.chance(40) {
            ta.scale = Vec2::splat(s.pick(&[2.0f32, 0.5, 3.0]));
        }
        let far = s.pick(&[0.0, 1.0, 4.0]) * size;
        ta.pos = fv(v(s.sym(far), s.sym(far)));
        tb = Tf {
            pos: fv(ta.point(vf(tb.pos))),
            ang: ta.ang + tb.ang,
            scale: ta.scale * tb.scale,
        };
    }
    a.id(ctx);
    b.id(ctx);
    ta.id(ctx);
    tb.id(ctx);
    ctx.id(form as u64);
    let o = v(0.0, 0.0);
    let truth = sd(&a, &b, &ta, &tb, o);
    let size = size * ta.scale.x as f64;
    ctx.desc(|| format!("{} at {} and {} at {}{}{}, posed as {form:?}, signed distance {truth:e}", a.show(), ta.show(), b.show(), tb.show(), if same { " (the same object)" } else { "" }, if union { ", in a union" } else { "" }));
    let mag = size + vf(tb.pos).len() + 2.0 * vf(ta.pos).len();
    let margin = 1e-5 * mag;
    ctx.label(if truth < 0.0 { "overlapping" } else { "separated" });
    if ka == 1 || kb == 1 {
        ctx.label("ellipse");
    }
    ctx.nontrivial = truth.abs() > margin && truth < size;
    CALLS.with(|c| c.set(0));
    let r = ask(&a, &ta, &b, &tb, union, form, same);
    let calls = CALLS.with(|c| c.get());
    ctx.measure("calls", calls as f64);
    ensure!(calls <= 2000, "four queries took {calls} extreme points of the user's shapes");
    if truth.abs() > margin {
        let hit = truth < 0.0;
        ensure!(
            r.collides == hit && r.pen.is_some() == hit && r.dist.is_some() != hit && r.sdfv.0 == hit,
            "the signed distance is {truth:e}, the queries answered {r:?}"
        );
    }
    let tol = 0.015 * truth.abs() + margin + 64.0 * EPS * mag;
    for (name, w) in [("penetrates", r.pen), ("distance_to", r.dist), ("sdfv", Some(r.sdfv.1))] {
        let Some(w) = w else { continue };
        let x = vf(w);
        ensure!(x.finite(), "{name} returned {w:?}");
        ensure!((x.len() - truth.abs()).abs() <= tol, "{name} returned {w:?} of length {:e}, the signed distance is {truth:e} (tolerance {tol:e})", x.len());
        let left = sd(&a, &b, &ta, &tb, -x);
        ctx.measure("left", (left.abs() - margin) / truth.abs().max(1e-3 * mag));
        ensure!(left.abs() <= tol, "{name} returned {w:?}: after moving a by it the signed distance is {left:e} (it was {truth:e}, tolerance {tol:e})");
    }
    Ok(())
}

pub static PROPS: [Prop; 1] = [Prop {
    id: "C18",
    words: 100,
    quick: 400_000,
    thorough: 20_000_000,
    rule: "a case is two shapes, at least often user-defined (capsules, rounded polygons, ellipses) through the extreme-point interface or a generated union, and a relative transform; non-trivial = the signed distance is outside the margin and the shapes are near",
    assumptions: &["ellipses of aspect up to 8; positive uniform scales; the shapes contain their origin"],
    check: user_shapes,
}];
