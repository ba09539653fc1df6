//! Runs auburn's 2D queries on generated pairs.

use crate::gen::*;
use crate::geo::{self, Body};
use crate::runner::{Ctx, Verdict};
use crate::{ensure, src::Src};
use auburn::col2d::*;

#[derive(Clone, Copy, Debug)]
pub struct Res {
    pub collides: bool,
    pub pen: Option<Vec2>,
    pub dist: Option<Vec2>,
    pub sdfv: (bool, Vec2),
}

/// Every 2D query between `A` and `B` under `T`.
pub trait Query<B, T: Transformation2d>:
    CollidesRel2d<B, T> + PenetratesRel2d<B, T> + DistanceToRel2d<B, T> + SdfvRel2d<B, T>
{
}
impl<A, B, T: Transformation2d> Query<B, T> for A where
    A: CollidesRel2d<B, T> + PenetratesRel2d<B, T> + DistanceToRel2d<B, T> + SdfvRel2d<B, T>
{
}

pub fn q_rel<A: Query<B, T>, B, T: Transformation2d>(a: &A, b: &B, rel: &T) -> Res {
    Res {
        collides: a.collides_rel(b, rel),
        pen: a.penetrates_rel(b, rel),
        dist: a.distance_to_rel(b, rel),
        sdfv: a.sdfv_rel(b, rel),
    }
}

pub fn q_col<A: Query<B, T>, B, T: Transformation2d + DeltaTransform>(
    a: &A,
    ta: &T,
    b: &B,
    tb: &T,
) -> Res {
    let ca = Collider2d {
        shape: a,
        transform: ta,
    };
    let cb = Collider2d {
        shape: b,
        transform: tb,
    };
    Res {
        collides: ca.collides(cb),
        pen: ca.penetrates(cb),
        dist: ca.distance_to(cb),
        sdfv: ca.sdfv(cb),
    }
}

/// Calls `$e` with the concrete shapes bound to `$x`, `$y`.
#[macro_export]
macro_rules! with_pair {
    ($pair:expr, |$x:ident, $y:ident| $e:expr) => {{
        use $crate::gen::Sh::*;
        let p = $pair;
        if p.union {
            let sx = p.a.union().expect("union of a");
            let sy = p.b.union().expect("union of b");
            let ($x, $y) = (&sx, if p.same_shape { &sx } else { &sy });
            $e
        } else {
            match (&p.a, if p.same_shape { &p.a } else { &p.b }) {
                (Pt($x), Pt($y)) => $e,
                (Pt($x), Ball($y)) => $e,
                (Pt($x), Box($y)) => $e,
                (Ball($x), Pt($y)) => $e,
                (Ball($x), Ball($y)) => $e,
                (Ball($x), Box($y)) => $e,
                (Box($x), Pt($y)) => $e,
                (Box($x), Ball($y)) => $e,
                (Box($x), Box($y)) => $e,
                (Box($x), Poly($y)) => $e,
                (Poly($x), Box($y)) => $e,
                (Poly($x), Poly($y)) => $e,
                _ => unreachable!("unsupported pair"),
            }
        }
    }};
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Rep {
    Transform,
    Vector,
    Translate,
    Axis,
    User,
}

/// A user's own similarity, implementing only what the traits require.
#[derive(Clone, Copy, Debug)]
pub struct Turned {
    pos: geo::V,
    cos: f64,
    sin: f64,
    k: f64,
}

impl From<&Tf> for Turned {
    fn from(t: &Tf) -> Self {
        let (sin, cos) = (t.ang as f64).sin_cos();
        Turned { pos: vf(t.pos), cos, sin, k: t.scale.x as f64 }
    }
}

impl Turned {
    fn turn(&self, p: geo::V) -> geo::V {
        geo::v(self.cos * p.x - self.sin * p.y, self.sin * p.x + self.cos * p.y)
    }
    fn unturn(&self, p: geo::V) -> geo::V {
        geo::v(self.cos * p.x + self.sin * p.y, -self.sin * p.x + self.cos * p.y)
    }
}

impl Transformation2d for Turned {
    fn apply_origin(&self) -> Vec2 {
        fv(self.pos)
    }
    fn apply(&self, p: Vec2) -> Vec2 {
        fv(self.turn(vf(p)) * self.k + self.pos)
    }
    fn unapply(&self, p: Vec2) -> Vec2 {
        fv(self.unturn(vf(p) - self.pos) * (1.0 / self.k))
    }
    fn apply_normal(&self, d: Vec2) -> Vec2 {
        fv(self.turn(vf(d)))
    }
    fn unapply_normal(&self, d: Vec2) -> Vec2 {
        fv(self.unturn(vf(d)))
    }
    fn scaling_factor(&self) -> f32 {
        self.k as f32
    }
}

impl Invertible for Turned {
    fn inverse(&self) -> Self {
        let k = 1.0 / self.k;
        Turned { pos: self.unturn(-self.pos) * k, cos: self.cos, sin: -self.sin, k }
    }
}

impl Composable for Turned {
    fn compose(&self, o: &Self) -> Self {
        Turned {
            pos: self.turn(o.pos) * self.k + self.pos,
            cos: self.cos * o.cos - self.sin * o.sin,
            sin: self.sin * o.cos + self.cos * o.sin,
            k: self.k * o.k,
        }
    }
}

/// Representations able to express the pair's transforms.
pub fn reps(p: &Pair) -> &'static [Rep] {
    use Rep::*;
    if p.ta.translation_only() && p.tb.translation_only() {
        &[Transform, Vector, Translate, Axis, User]
    } else if p.ta.axis_only() && p.tb.axis_only() {
        &[Transform, Axis, User]
    } else if p.ta.uniform() && p.tb.uniform() {
        &[Transform, Transform, User]
    } else {
        &[Transform]
    }
}

pub fn axis(t: &Tf) -> AxisTransform2d {
    AxisTransform2d::new(t.pos, t.scale.x)
}

pub fn run(p: &Pair, rep: Rep) -> Res {
    // one object for both transforms, if the pair asks for it
    fn col<A: Query<B, T>, B, T: Transformation2d + DeltaTransform>(p: &Pair, x: &A, ta: &T, y: &B, tb: &T) -> Res {
        q_col(x, ta, y, if p.same_tf { ta } else { tb })
    }
    with_pair!(p, |x, y| if p.rel {
        match rep {
            Rep::Transform => q_rel(x, y, &p.tb.t2d()),
            Rep::Vector => q_rel(x, y, &p.tb.pos),
            Rep::Translate => q_rel(x, y, &Translate2d::from(p.tb.pos)),
            Rep::Axis => q_rel(x, y, &axis(&p.tb)),
            Rep::User => q_rel(x, y, &Turned::from(&p.tb)),
        }
    } else {
        match rep {
            Rep::Transform => col(p, x, &p.ta.t2d(), y, &p.tb.t2d()),
            Rep::Vector => col(p, x, &p.ta.pos, y, &p.tb.pos),
            Rep::Translate => col(
                p,
                x,
                &Translate2d::from(p.ta.pos),
                y,
                &Translate2d::from(p.tb.pos)
            ),
            Rep::Axis => col(p, x, &axis(&p.ta), y, &axis(&p.tb)),
            Rep::User => col(p, x, &Turned::from(&p.ta), y, &Turned::from(&p.tb)),
        }
    })
}

/// Reference answer for a pair with the tolerances its verdicts and vectors are judged with.
pub struct Truth {
    pub m: Body,
    pub sd: f64,
    /// below this |signed distance| the verdict is not judged
    pub margin: f64,
    /// absolute error allowed for vectors
    pub slack: f64,
    /// relative error allowed for vectors
    pub rel: f64,
    /// magnitude of the inputs
    pub mag: f64,
    pub near: bool,
}

pub const EPS: f64 = f32::EPSILON as f64;

pub fn truth(p: &Pair) -> Truth {
    let (ba, bb) = p.bodies();
    let m = geo::diff(&ba, &bb);
    let sd = geo::sd(&m, geo::v(0.0, 0.0));
    let mag = p.magnitude(&ba, &bb);
    let analytic = p.analytic();
    let reach = ba.reach(vf(p.ta.pos)) + bb.reach(vf(p.tb.pos));
    Truth {
        near: (vf(p.tb.pos) - vf(p.ta.pos)).len() < 1.5 * reach,
        m,
        sd,
        margin: mag * EPS * if analytic { 8.0 } else { 16.0 },
        slack: mag * EPS * if analytic { 12.0 } else { 32.0 },
        rel: if analytic { 1e-6 } else { 0.015 },
        mag,
    }
}

impl Truth {
    pub fn decisive(&self) -> bool {
        self.sd.abs() > self.margin
    }
    pub fn overlap(&self) -> bool {
        self.sd < 0.0
    }
    pub fn tol(&self) -> f64 {
        self.rel * self.sd.abs() + self.slack
    }
    /// Moving the first shape by the vector must leave the shapes just touching, and the vector
    /// must be as short as the signed distance says.
    pub fn vector(&self, name: &str, w: Vec2) -> Verdict {
        let x = vf(w);
        ensure!(x.finite(), "{name} returned {w:?}, not a finite vector");
        let left = geo::sd(&self.m, -x);
        ensure!(
            left.abs() <= self.tol(),
            "{name} returned {w:?}: after moving a by it the shapes are at signed distance {left:e} instead of touching (it was {:e}, tolerance {:e})",
            self.sd, self.tol()
        );
        ensure!(
            (x.len() - self.sd.abs()).abs() <= self.tol(),
            "{name} returned {w:?} of length {:e}, the signed distance is {:e} (tolerance {:e})",
            x.len(), self.sd, self.tol()
        );
        Ok(())
    }
    pub fn measure(&self, ctx: &mut Ctx, name: &'static str, w: Vec2) {
        let x = vf(w);
        let e = geo::sd(&self.m, -x).abs().max((x.len() - self.sd.abs()).abs());
        ctx.measure(name, (e - self.rel * 0.7333 * self.sd.abs()) / (self.mag * EPS));
    }
}

/// Generates a pair and its representation, and records it as the case.
pub fn case(s: &mut Src, ctx: &mut Ctx, o: Opts) -> (Pair, Rep, Truth) {
    let p = pair(s, o);
    let rs = reps(&p);
    let rep = rs[s.below(rs.len())];
    let t = truth(&p);
    p.id(ctx);
    ctx.id(rep as u64);
    ctx.desc(|| format!("{} ({rep:?}), signed distance {:e}", p.show(), t.sd));
    classify(ctx, &p, &t);
    (p, rep, t)
}

pub fn classify(ctx: &mut Ctx, p: &Pair, t: &Truth) {
    ctx.label(match (p.a.kind(), p.b.kind()) {
        ("Point", "Point") => "Point-Point",
        ("Point", "Ball") => "Point-Ball",
        ("Point", _) => "Point-Box",
        ("Ball", "Point") => "Ball-Point",
        ("Ball", "Ball") => "Ball-Ball",
        ("Ball", "Box") => "Ball-Box",
        ("Ball", _) => "Ball-Poly",
        ("Box", "Point") => "Box-Point",
        ("Box", "Ball") => "Box-Ball",
        ("Box", "Box") => "Box-Box",
        ("Box", _) => "Box-Poly",
        (_, "Ball") => "Poly-Ball",
        (_, "Box") => "Poly-Box",
        _ => "Poly-Poly",
    });
    ctx.label(if !t.decisive() {
        "touching within rounding"
    } else if t.overlap() {
        "overlapping"
    } else {
        "separated"
    });
    if t.sd.abs() < 0.02 * t.mag {
        ctx.label("within 2% of touching");
    }
    if p.union {
        ctx.label("through Shape2d");
    }
    if p.rel {
        ctx.label("relative transform");
    }
    if !p.tb.uniform() {
        ctx.label("non-uniform scale");
    }
    if p.ta.ang != 0.0 || p.tb.ang != 0.0 {
        ctx.label("rotated");
    }
    ctx.nontrivial = t.decisive() && t.near;
}
