//! C31, C32, C33, C36: the 3D queries, transforms and shapes against f64 models.

use crate::ensure;
use crate::gen::{angle, length, unit};
use crate::query::EPS;
use crate::runner::{Ctx, Prop, Verdict};
use crate::src::Src;
use auburn::col3d::*;

pub type W = [f64; 3];
pub fn w3(p: Vec3) -> W {
    [p.x as f64, p.y as f64, p.z as f64]
}
pub fn f3(p: W) -> Vec3 {
    Vec3::new(p[0] as f32, p[1] as f32, p[2] as f32)
}
pub fn add(a: W, b: W) -> W {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2]]
}
pub fn sub(a: W, b: W) -> W {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
pub fn mul(a: W, k: f64) -> W {
    [a[0] * k, a[1] * k, a[2] * k]
}
pub fn dot(a: W, b: W) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
pub fn len(a: W) -> f64 {
    dot(a, a).sqrt()
}
pub fn show(p: Vec3) -> String {
    format!("({:?}, {:?}, {:?})", p.x, p.y, p.z)
}

/// A similarity of space: uniform scale, then rotation, then translation. A user's own transform.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Sim {
    pub pos: Vec3,
    pub rot: [Vec3; 3],
    pub k: f32,
}

impl Sim {
    pub const ID: Sim = Sim { pos: Vec3::ZERO, rot: [Vec3::X, Vec3::Y, Vec3::Z], k: 1.0 };
    pub fn is_translation(&self) -> bool {
        self.k == 1.0 && self.rot == Sim::ID.rot
    }
    pub fn point(&self, p: W) -> W {
        add(mul(self.turn(p), self.k as f64), w3(self.pos))
    }
    pub fn turn(&self, p: W) -> W {
        let r = self.rot.map(w3);
        [dot(r[0], p), dot(r[1], p), dot(r[2], p)]
    }
    pub fn unturn(&self, p: W) -> W {
        let r = self.rot.map(w3);
        add(add(mul(r[0], p[0]), mul(r[1], p[1])), mul(r[2], p[2]))
    }
    pub fn unpoint(&self, p: W) -> W {
        mul(self.unturn(sub(p, w3(self.pos))), 1.0 / self.k as f64)
    }
    pub fn show(&self) -> String {
        format!("(pos {}, scale {:?}, rotation rows {:?})", show(self.pos), self.k, self.rot)
    }
    pub fn id(&self, c: &mut Ctx) {
        for x in [self.pos, self.rot[0], self.rot[1], self.rot[2]] {
            for y in [x.x, x.y, x.z] {
                c.idf(y);
            }
        }
        c.idf(self.k);
    }
}

impl Transformation3d for Sim {
    fn apply(&self, p: Vec3) -> Vec3 {
        f3(self.point(w3(p)))
    }
    fn unapply(&self, p: Vec3) -> Vec3 {
        f3(self.unpoint(w3(p)))
    }
}
impl Invertible for Sim {
    fn inverse(&self) -> Self {
        let r = self.rot;
        let rot = [
            Vec3::new(r[0].x, r[1].x, r[2].x),
            Vec3::new(r[0].y, r[1].y, r[2].y),
            Vec3::new(r[0].z, r[1].z, r[2].z),
        ];
        Sim { pos: self.unapply(Vec3::ZERO), rot, k: 1.0 / self.k }
    }
}
impl Composable for Sim {
    fn compose(&self, o: &Self) -> Self {
        let cols = [0, 1, 2].map(|i| self.turn([o.rot[0][i] as f64, o.rot[1][i] as f64, o.rot[2][i] as f64]));
        let rot = [0, 1, 2].map(|i| f3([cols[0][i], cols[1][i], cols[2][i]]));
        Sim { pos: self.apply(o.pos), rot, k: self.k * o.k }
    }
}

pub fn rotation(s: &mut Src) -> [Vec3; 3] {
    // none, or a permutation of the axes
    let axes = |s: &mut Src| {
        s.pick(&[
            [Vec3::Y, Vec3::Z, Vec3::X],
            [Vec3::NEG_X, Vec3::NEG_Y, Vec3::Z],
            [Vec3::NEG_Y, Vec3::X, Vec3::Z],
            [Vec3::Z, Vec3::Y, Vec3::NEG_X],
            Sim::ID.rot,
        ])
    };
    let (a, b, c) = match s.weighted(&[6, 3, 3, 12]) {
        0 => return axes(s),
        // about one axis
        1 => {
            let t = angle(s) as f64;
            let i = s.below(3);
            let w = |k: usize| if k == i { t } else { 0.0 };
            (w(0), w(1), w(2))
        }
        // hardly turned from the axes
        2 => {
            let m = axes(s);
            let k = 2f64.powf(-s.range(2.0, 22.0));
            let e = [0, 1, 2].map(|_| s.sym(k));
            let t = len(e);
            let u = if t > 0.0 { mul(e, 1.0 / t) } else { [1.0, 0.0, 0.0] };
            return m.map(|r| {
                let r = w3(r);
                // Rodrigues
                let cross = [u[1] * r[2] - u[2] * r[1], u[2] * r[0] - u[0] * r[2], u[0] * r[1] - u[1] * r[0]];
                f3(add(add(mul(r, t.cos()), mul(cross, t.sin())), mul(u, dot(u, r) * (1.0 - t.cos()))))
            });
        }
        _ => (s.sym(3.2), s.sym(1.6), s.sym(3.2)),
    };
    let (sa, ca) = a.sin_cos();
    let (sb, cb) = b.sin_cos();
    let (sc, cc) = c.sin_cos();
    [
        f3([ca * cb, ca * sb * sc - sa * cc, ca * sb * cc + sa * sc]),
        f3([sa * cb, sa * sb * sc + ca * cc, sa * sb * cc - ca * sc]),
        f3([-sb, cb * sc, cb * cc]),
    ]
}

/// Now and then the second of two transforms turns like the first, or back.
pub fn related(s: &mut Src, a: &Sim, b: &mut Sim) {
    match s.weighted(&[16, 2, 2, 1]) {
        0 => {}
        1 => b.rot = a.rot,
        2 => {
            let r = a.rot;
            b.rot = [Vec3::new(r[0].x, r[1].x, r[2].x), Vec3::new(r[0].y, r[1].y, r[2].y), Vec3::new(r[0].z, r[1].z, r[2].z)];
        }
        _ => b.k = a.k,
    }
}

#[derive(Clone, Copy, Debug)]
pub enum Solid {
    Pt,
    Ball(Ball),
    Box(Box3d),
}

impl Solid {
    /// Signed distance of `p` in the solid's own space.
    pub fn sd(&self, p: W) -> f64 {
        match self {
            Solid::Pt => len(p),
            Solid::Ball(b) => len(p) - b.radius as f64,
            Solid::Box(b) => {
                let h = w3(b.halfsize);
                let d = [p[0].abs() - h[0], p[1].abs() - h[1], p[2].abs() - h[2]];
                let m = d[0].max(d[1]).max(d[2]);
                if m < 0.0 {
                    m
                } else {
                    len(d.map(|x| x.max(0.0)))
                }
            }
        }
    }
    pub fn size(&self) -> f64 {
        match self {
            Solid::Pt => 0.0,
            Solid::Ball(b) => b.radius as f64,
            Solid::Box(b) => len(w3(b.halfsize)),
        }
    }
    pub fn show(&self) -> String {
        match self {
            Solid::Pt => "Point".into(),
            Solid::Ball(b) => format!("Ball r={:?}", b.radius),
            Solid::Box(b) => format!("Box3d half={}", show(b.halfsize)),
        }
    }
    pub fn id(&self, c: &mut Ctx) {
        match self {
            Solid::Pt => c.id(1),
            Solid::Ball(b) => c.idf(b.radius),
            Solid::Box(b) => {
                for x in [b.halfsize.x, b.halfsize.y, b.halfsize.z] {
                    c.idf(x)
                }
            }
        }
    }
}

pub fn solid(s: &mut Src, kind: usize, u: f32) -> Solid {
    match kind {
        0 => Solid::Pt,
        1 => Solid::Ball(Ball::new(length(s) * u)),
        _ => {
            let x = length(s) * u;
            Solid::Box(Box3d::with_halfdims(
                x,
                if s.chance(20) { x } else { length(s) * u },
                if s.chance(20) { x } else { length(s) * u },
            ))
        }
    }
}

/// A point in a solid's space: on a grid, near a face, edge, corner or the center, inside, or far.
pub fn spot(s: &mut Src, h: W) -> W {
    let m = h[0].max(h[1]).max(h[2]);
    match s.weighted(&[3, 4, 3, 1, 1]) {
        0 => [0, 1, 2].map(|i| h[i] * s.sint(8) as f64 * 0.25),
        1 => [0, 1, 2].map(|i| {
            let e = 2f64.powf(-s.range(0.0, 14.0));
            let e = if s.chance(50) { e } else { -e };
            match s.below(4) {
                0 => h[i] * (1.0 + e),
                1 => -h[i] * (1.0 + e),
                2 => h[i] * e,
                _ => h[i] * s.sym(1.5),
            }
        }),
        2 => [0, 1, 2].map(|i| h[i] * s.sym(1.6)),
        3 => {
            let e = m * 2f64.powf(-s.range(1.0, 20.0));
            [0, 1, 2].map(|_| s.sym(e))
        }
        _ => [0, 1, 2].map(|_| m * s.sym(100.0)),
    }
}

#[derive(Debug)]
pub struct Res3 {
    pub collides: bool,
    pub pen: Option<Vec3>,
    pub sdf: f32,
    pub sdfv: Vec3,
}

pub fn ask<A, B>(a: &A, b: &B, rel: &impl Transformation3d) -> Res3
where
    A: CollidesRel3d<B> + PenetratesRel3d<B> + SdfRel3d<B> + SdfvRel3d<B>,
{
    Res3 {
        collides: a.collides_rel(b, rel),
        pen: a.penetrates_rel(b, rel),
        sdf: a.sdf_rel(b, rel),
        sdfv: a.sdfv_rel(b, rel),
    }
}

#[derive(Debug)]
pub struct Col3 {
    pub verdicts: [bool; 3],
    pub pen: Option<Vec3>,
}

pub fn ask_col<A, B, T>(a: &A, ta: &T, b: &B, tb: &T) -> Col3
where
    A: CollidesRel3d<B> + PenetratesRel3d<B>,
    T: Transformation3d + DeltaTransform,
{
    Col3 {
        verdicts: [
            a.collides(ta, b, tb),
            (a, ta).collides_v2(b, tb),
            (a, ta).collides_v3((b, tb)),
        ],
        pen: a.penetrates(ta, b, tb),
    }
}

#[macro_export]
macro_rules! with_solids {
    ($a:expr, $b:expr, |$x:ident, $y:ident| $e:expr) => {{
        use $crate::props::three::Solid::*;
        let p = auburn::col3d::Point;
        match ($a, $b) {
            (Ball($x), Pt) => { let $y = &p; $e }
            (Box($x), Pt) => { let $y = &p; $e }
            (Pt, Ball($y)) => { let $x = &p; $e }
            (Pt, Box($y)) => { let $x = &p; $e }
            (Ball($x), Ball($y)) => $e,
            (Box($x), Box($y)) => $e,
            _ => unreachable!(),
        }
    }};
}

/// The expected answer: how far a point is from the solid that stands for the pair.
pub struct Truth3 {
    pub of: Solid,
    /// the place of a's origin, or of b seen from a, relative to the solid: moving a by w changes
    /// it to `at(w)`
    pub rel: Sim,
    pub reversed: bool,
    pub sd: f64,
    pub tol: f64,
}

impl Truth3 {
    pub fn new(a: &Solid, b: &Solid, rel: &Sim, mag: f64) -> Truth3 {
        let (of, reversed) = match (a, b) {
            (Solid::Pt, _) => (*b, true),
            (_, Solid::Pt) => (*a, false),
            (Solid::Ball(x), Solid::Ball(y)) => (Solid::Ball(Ball::new(x.radius + y.radius)), false),
            (Solid::Box(x), Solid::Box(y)) => (Solid::Box(Box3d::new(x.halfsize + y.halfsize)), false),
            _ => unreachable!(),
        };
        let mut t = Truth3 { of, rel: *rel, reversed, sd: 0.0, tol: 16.0 * EPS * mag };
        t.sd = t.after([0.0; 3]);
        t
    }
    /// Signed distance after moving a by `w` (in a's space).
    pub fn after(&self, w: W) -> f64 {
        if self.reversed {
            self.of.sd(self.rel.unpoint(w)) * self.rel.k as f64
        } else {
            self.of.sd(sub(w3(self.rel.pos), w))
        }
    }
    pub fn verdict(&self, name: &str, got: bool) -> Verdict {
        ensure!(
            self.sd.abs() <= self.tol || got == (self.sd < 0.0),
            "{name} answered {got}, the signed distance is {:e}", self.sd
        );
        Ok(())
    }
    pub fn vector(&self, name: &str, w: Vec3) -> Verdict {
        let x = w3(w);
        ensure!(x.iter().all(|x| x.is_finite()), "{name} returned {w:?}");
        let left = self.after(x);
        ensure!(left.abs() <= self.tol, "{name} returned {}: after moving a by it the signed distance is {left:e} (it was {:e}, tolerance {:e})", show(w), self.sd, self.tol);
        ensure!((len(x) - self.sd.abs()).abs() <= self.tol, "{name} returned {} of length {:e}, the signed distance is {:e}", show(w), len(x), self.sd);
        Ok(())
    }
    pub fn judge(&self, name: &str, r: &Res3) -> Verdict {
        self.verdict(&format!("{name} collides"), r.collides)?;
        self.verdict(&format!("{name} penetrates"), r.pen.is_some())?;
        ensure!(r.collides == r.pen.is_some() || self.sd.abs() <= self.tol, "{name} contradicts itself: {r:?}");
        if let Some(w) = r.pen {
            self.vector(&format!("{name} penetrates"), w)?;
        }
        ensure!((r.sdf as f64 - self.sd).abs() <= self.tol, "{name} sdf answered {:?}, the signed distance is {:e}", r.sdf, self.sd);
        self.vector(&format!("{name} sdfv"), r.sdfv)
    }
}

/// As `sim`, now and then with a scale far from one.
pub fn sim_wide(s: &mut Src, style: usize) -> Sim {
    let mut t = sim(s, style);
    if style >= 1 && s.chance(4) {
        t.k = 2f64.powf(s.range(-36.0, 36.0)) as f32;
    }
    t
}

pub fn sim(s: &mut Src, style: usize) -> Sim {
    let mut t = Sim::ID;
    if style >= 1 {
        t.k = match s.weighted(&[12, 12, 16, 1]) {
            0 => 1.0,
            1 => s.pick(&[2.0f32, 0.5, 4.0, 0.25, 3.0]),
            2 => 2f64.powf(s.range(-3.0, 3.0)) as f32,
            _ => 2f64.powf(s.range(-12.0, 12.0)) as f32,
        };
    }
    if style >= 2 {
        t.rot = rotation(s);
    }
    t
}

/// style of the transforms: 0 translations, 1 with scale, 2 with rotation
fn run3(s: &mut Src, ctx: &mut Ctx, ka: usize, kb: usize, style: usize) -> Verdict {
    let u = if s.chance(3) { 10f64.powf(s.range(-10.0, 10.0)) as f32 } else { unit(s, true) };
    let (a, b) = (solid(s, ka, u), solid(s, kb, u));
    // one object for both solids
    let same = ka == kb && s.chance(10);
    let b = if same { a } else { b };
    let br = if same { &a } else { &b };
    // solids of some extent both: placed by the same rotation and scale, balls turned at will
    let both = ka != 0 && kb != 0;
    let mut rel = sim(s, style);
    if both && ka == 1 && s.chance(30) {
        rel.rot = rotation(s);
    }
    // where b is, seen from a
    let h = |x: &Solid| match x {
        Solid::Pt => [0.0; 3],
        Solid::Ball(b) => [b.radius as f64; 3],
        Solid::Box(b) => w3(b.halfsize),
    };
    rel.pos = if ka == 0 {
        // the origin of a must come to a spot of b
        f3(sub([0.0; 3], mul(rel.turn(spot(s, h(&b))), rel.k as f64)))
    } else {
        let p = spot(s, add(h(&a), h(&b)));
        f3(p)
    };
    if same && s.chance(20) {
        rel = Sim::ID;
    }
    let common = if both { s.weighted(&[3, 1, 4]) } else { style };
    let mut ta = sim(s, common);
    let far = s.pick(&[0.0, 2.0, 50.0]) * u as f64;
    ta.pos = f3([s.sym(far), s.sym(far), s.sym(far)]);
    a.id(ctx);
    b.id(ctx);
    rel.id(ctx);
    ta.id(ctx);
    let k = rel.k as f64;
    let mag = a.size() + b.size() * k + len(w3(rel.pos));
    let t = Truth3::new(&a, &b, &rel, mag);
    ctx.desc(|| format!("{} and {}{}, relative transform {}, a at {}, signed distance {:e}", a.show(), b.show(), if same { " (the same object)" } else { "" }, rel.show(), ta.show(), t.sd));
    ctx.nontrivial = t.sd.abs() > t.tol && t.sd < a.size() + b.size() * k;
    ctx.label(if t.sd.abs() <= t.tol { "touching within rounding" } else if t.sd < 0.0 { "overlapping" } else { "separated" });
    t.judge("own transform", &with_solids!(&a, br, |x, y| ask(x, y, &rel)))?;
    if rel.is_translation() {
        t.judge("Vec3", &with_solids!(&a, br, |x, y| ask(x, y, &rel.pos)))?;
        t.judge("Translate3d", &with_solids!(&a, br, |x, y| ask(x, y, &Translate3d::new(rel.pos))))?;
    }
    if rel.rot == Sim::ID.rot {
        t.judge("AxisTransform3d", &with_solids!(&a, br, |x, y| ask(x, y, &AxisTransform3d::new(rel.pos, rel.k))))?;
    }
    if rel == Sim::ID {
        t.judge("IdentityTransform", &with_solids!(&a, br, |x, y| ask(x, y, &IdentityTransform)))?;
        t.judge("Transform3d", &with_solids!(&a, br, |x, y| ask(x, y, &Transform3d::default())))?;
        t.judge("Isotropic3d", &with_solids!(&a, br, |x, y| ask(x, y, &Isotropic3d::default())))?;
    }
    #[cfg(feature = "interop")]
    {
        // the rotation passes through a quaternion
        let mut t = Truth3::new(&a, &b, &rel, mag);
        t.tol *= 3.0;
        let q = super::bevy::of_sim(&rel);
        t.judge("bevy Transform", &with_solids!(&a, br, |x, y| ask(x, y, &q)))?;
        t.judge("Transform3d", &with_solids!(&a, br, |x, y| ask(x, y, &Transform3d::from(q))))?;
        t.judge("Isotropic3d", &with_solids!(&a, br, |x, y| ask(x, y, &Isotropic3d::from(q))))?;
    }
    // both placed in the world: answers are in the world's space
    let tb = ta.compose(&rel);
    // ... and for both transforms
    let tb = if same && rel == Sim::ID { &ta } else { &tb };
    let real = ta.inverse().compose(tb);
    let ka = ta.k as f64;
    let wmag = (len(w3(ta.pos)) * 3.0 + len(w3(tb.pos)) + mag * ka) / ka;
    let t = Truth3::new(&a, &b, &real, mag + 2.0 * wmag);
    let world = |name: &str, c: &Col3| -> Verdict {
        for (v, n) in c.verdicts.iter().zip(["collides", "collides_v2", "collides_v3"]) {
            t.verdict(&format!("{name} {n}"), *v)?;
        }
        t.verdict(&format!("{name} penetrates"), c.pen.is_some())?;
        if let Some(w) = c.pen {
            let local = mul(ta.unturn(w3(w)), 1.0 / ka);
            t.vector(&format!("{name} penetrates (brought into a's space)"), f3(local))?;
        }
        Ok(())
    };
    world("own transforms:", &with_solids!(&a, br, |x, y| ask_col(x, &ta, y, tb)))?;
    #[cfg(feature = "interop")]
    {
        let (qa, qb) = (super::bevy::of_sim(&ta), super::bevy::of_sim(tb));
        let mut t = Truth3::new(&a, &b, &real, mag + 2.0 * wmag);
        t.tol *= 3.0;
        let world = |name: &str, c: &Col3| -> Verdict {
            for (v, n) in c.verdicts.iter().zip(["collides", "collides_v2", "collides_v3"]) {
                t.verdict(&format!("{name} {n}"), *v)?;
            }
            t.verdict(&format!("{name} penetrates"), c.pen.is_some())?;
            if let Some(w) = c.pen {
                let local = mul(ta.unturn(w3(w)), 1.0 / ka);
                t.vector(&format!("{name} penetrates (brought into a's space)"), f3(local))?;
            }
            Ok(())
        };
        world("bevy Transform:", &with_solids!(&a, br, |x, y| ask_col(x, &qa, y, &qb)))?;
        world("Transform3d:", &with_solids!(&a, br, |x, y| ask_col(x, &Transform3d::from(qa), y, &Transform3d::from(qb))))?;
        world("Isotropic3d:", &with_solids!(&a, br, |x, y| ask_col(x, &Isotropic3d::from(&qa), y, &Isotropic3d::from(&qb))))?;
    }
    if ta.is_translation() && tb.is_translation() {
        world("Vec3:", &with_solids!(&a, br, |x, y| ask_col(x, &ta.pos, y, &tb.pos)))?;
        world("Translate3d:", &with_solids!(&a, br, |x, y| ask_col(x, &Translate3d::new(ta.pos), y, &Translate3d::new(tb.pos))))?;
    }
    if ta.rot == Sim::ID.rot && tb.rot == Sim::ID.rot {
        let ax = |t: &Sim| AxisTransform3d::new(t.pos, t.k);
        world("AxisTransform3d:", &with_solids!(&a, br, |x, y| ask_col(x, &ax(&ta), y, &ax(tb))))?;
    }
    Ok(())
}

pub fn points3(s: &mut Src, ctx: &mut Ctx) -> Verdict {
    let (ka, kb) = s.pick(&[(2, 0), (0, 2), (1, 0), (0, 1)]);
    let style = s.weighted(&[2, 2, 5]);
    ctx.label(["Ball-Point", "Point-Ball", "Box3d-Point", "Point-Box3d"][(ka + kb - 1) * 2 + (ka == 0) as usize]);
    run3(s, ctx, ka, kb, style)
}

pub fn solids3(s: &mut Src, ctx: &mut Ctx) -> Verdict {
    let k = s.pick(&[2, 1]);
    ctx.label(if k == 1 { "Ball-Ball" } else { "Box3d-Box3d" });
    run3(s, ctx, k, k, 0)
}

pub fn close(a: Vec3, b: W, tol: f64) -> bool {
    len(sub(w3(a), b)) <= tol
}

pub fn laws<T: Transformation3d + Invertible + Composable>(name: &str, a: &T, b: &T, ma: &Sim, mb: &Sim, p: Vec3) -> Verdict {
    laws_tol(name, a, b, ma, mb, p, 1.0)
}

/// `f`: how much more rounding than with exact rotations is allowed.
pub fn laws_tol<T: Transformation3d + Invertible + Composable>(name: &str, a: &T, b: &T, ma: &Sim, mb: &Sim, p: Vec3, f: f64) -> Verdict {
    let q = w3(p);
    let (ka, kb) = (ma.k as f64, mb.k as f64);
    let (la, lb) = (len(w3(ma.pos)), len(w3(mb.pos)));
    let tol = 8.0 * f * EPS * (la + ka * len(q));
    let r = a.apply(p);
    ensure!(close(r, ma.point(q), tol), "{name}: apply({}) = {}, expected {:?}", show(p), show(r), ma.point(q));
    ensure!(a.apply_origin() == ma.pos, "{name}: apply_origin() = {}", show(a.apply_origin()));
    let back = a.unapply(r);
    ensure!(close(back, q, 3.0 * tol / ka + 8.0 * f * EPS * len(q)), "{name}: unapply(apply({})) = {}", show(p), show(back));
    let utol = 8.0 * f * EPS * (len(q) + la) / ka;
    let r = a.unapply(p);
    ensure!(close(r, ma.unpoint(q), utol), "{name}: unapply({}) = {}, expected {:?}", show(p), show(r), ma.unpoint(q));
    let o = a.unapply_origin();
    ensure!(close(o, ma.unpoint([0.0; 3]), utol), "{name}: unapply_origin() = {}, expected {:?}", show(o), ma.unpoint([0.0; 3]));
    let r = a.inverse().apply(p);
    ensure!(close(r, ma.unpoint(q), 2.0 * utol), "{name}: inverse().apply({}) = {}, expected {:?}", show(p), show(r), ma.unpoint(q));
    let tol = 16.0 * f * EPS * (la + ka * (lb + kb * len(q)));
    let want = ma.point(mb.point(q));
    let r = a.compose(b).apply(p);
    ensure!(close(r, want, tol), "{name}: compose maps {} to {}, one after the other gives {want:?}", show(p), show(r));
    let want = ma.unpoint(mb.point(q));
    let tol = 32.0 * f * EPS * (la + lb + kb * len(q)) / ka;
    let r = a.delta_transform(b).apply(p);
    ensure!(close(r, want, tol), "{name}: delta_transform maps {} to {}, expected {want:?}", show(p), show(r));
    // with itself, as one object
    let tol = 16.0 * f * EPS * (la + ka * (la + ka * len(q)));
    let want = ma.point(ma.point(q));
    let r = a.compose(a).apply(p);
    ensure!(close(r, want, tol), "{name}: compose with itself maps {} to {}, expected {want:?}", show(p), show(r));
    let tol = 32.0 * f * EPS * (2.0 * la + ka * len(q)) / ka;
    let r = a.delta_transform(a).apply(p);
    ensure!(close(r, q, tol), "{name}: delta_transform to itself maps {} to {}", show(p), show(r));
    Ok(())
}

pub fn point3(s: &mut Src) -> Vec3 {
    let u = unit(s, true) as f64;
    if s.chance(30) {
        f3([0, 1, 2].map(|_| s.sint(6) as f64))
    } else {
        f3([0, 1, 2].map(|_| s.sym(10.0) * u))
    }
}

fn algebra3(s: &mut Src, ctx: &mut Ctx) -> Verdict {
    // Transform3d and Isotropic3d can only be made of bevy's Transform
    #[cfg(feature = "interop")]
    if s.chance(35) {
        return super::bevy::spatial(s, ctx);
    }
    let kind = s.weighted(&[2, 2, 5, 1]);
    let mut ma = sim_wide(s, (kind == 2) as usize);
    let mut mb = sim_wide(s, (kind == 2) as usize);
    ma.pos = point3(s);
    mb.pos = point3(s);
    if kind == 2 {
        related(s, &ma, &mut mb);
    }
    let p = point3(s);
    if kind == 3 {
        ma = Sim::ID;
        mb = Sim::ID;
    }
    ma.id(ctx);
    mb.id(ctx);
    for x in [p.x, p.y, p.z] {
        ctx.idf(x);
    }
    ctx.label(["Vec3", "Translate3d", "AxisTransform3d", "defaults"][kind]);
    ctx.desc(|| format!("a {}, b {}, point {}", ma.show(), mb.show(), show(p)));
    ctx.nontrivial = (kind == 3 || ma != mb) && p != Vec3::ZERO;
    match kind {
        0 => laws("Vec3", &ma.pos, &mb.pos, &ma, &mb, p),
        1 => laws("Translate3d", &Translate3d::new(ma.pos), &Translate3d::from(mb.pos), &ma, &mb, p),
        2 => laws("AxisTransform3d", &AxisTransform3d::new(ma.pos, ma.k), &AxisTransform3d::new(mb.pos, mb.k), &ma, &mb, p),
        _ => {
            laws("Translate3d::default()", &Translate3d::default(), &Translate3d::default(), &ma, &mb, p)?;
            laws("AxisTransform3d::default()", &AxisTransform3d::default(), &AxisTransform3d::default(), &ma, &mb, p)?;
            laws("Transform3d::default()", &Transform3d::default(), &Transform3d::default(), &ma, &mb, p)?;
            laws("Isotropic3d::default()", &Isotropic3d::default(), &Isotropic3d::default(), &ma, &mb, p)?;
            ensure!(
                Transformation3d::apply(&IdentityTransform, p) == p
                    && Transformation3d::unapply(&IdentityTransform, p) == p
                    && Transformation3d::apply_origin(&IdentityTransform) == Vec3::ZERO
                    && Transformation3d::unapply_origin(&IdentityTransform) == Vec3::ZERO,
                "IdentityTransform moves {}", show(p)
            );
            Ok(())
        }
    }
}

fn support(a: &Solid, d: W) -> f64 {
    match a {
        Solid::Pt => 0.0,
        Solid::Ball(b) => b.radius as f64 * len(d),
        Solid::Box(b) => {
            let h = w3(b.halfsize);
            (0..3).map(|i| h[i] * d[i].abs()).sum()
        }
    }
}

fn extreme(a: &Solid, d: Vec3) -> Vec3 {
    match a {
        Solid::Pt => ExtremePoint3d::extreme_point(&Point, d),
        Solid::Ball(b) => ExtremePoint3d::extreme_point(b, d),
        Solid::Box(b) => b.extreme_point(d),
    }
}

fn farthest(name: &str, a: &Solid, d: Vec3) -> Verdict {
    let q = w3(extreme(a, d));
    ensure!(q.iter().all(|x| x.is_finite()), "{name}: the extreme point along {} is {q:?}", show(d));
    let tol = 4.0 * EPS * a.size();
    let w = w3(d);
    let w = mul(w, 1.0 / len(w));
    ensure!(
        support(a, w) - dot(q, w) <= tol,
        "{name}: the extreme point of {} along {} is {q:?}, at {:e} along it, the shape reaches to {:e}",
        a.show(), show(d), dot(q, w), support(a, w)
    );
    let out = a.sd(q);
    ensure!(out <= tol, "{name}: the extreme point of {} along {} is {q:?}, outside by {out:e}", a.show(), show(d));
    Ok(())
}

fn shapes3(s: &mut Src, ctx: &mut Ctx) -> Verdict {
    let u = unit(s, true);
    let k = s.weighted(&[1, 3, 4]);
    let (a, b) = (solid(s, k, u), solid(s, k, u));
    let d = match s.weighted(&[2, 1, 4, 1]) {
        0 => s.pick(&[Vec3::X, Vec3::Y, Vec3::Z, Vec3::NEG_X, Vec3::NEG_Y, Vec3::NEG_Z]),
        1 => s.pick(&[Vec3::new(1.0, 1.0, 0.0), Vec3::new(-1.0, 0.0, 1.0), Vec3::new(0.0, -1.0, -1.0), Vec3::new(1.0, -1.0, 1.0)]),
        3 => f3([0, 1, 2].map(|_| s.pick(&[0.0, 1.0, -1.0, 1e-4, -1e-4, 0.5]) )),
        _ => {
            let (z, t) = (s.sym(1.0), s.sym(3.15));
            let r = (1.0 - z * z).sqrt();
            f3([r * t.cos(), r * t.sin(), z])
        }
    };
    let d = if d == Vec3::ZERO { Vec3::ONE } else { d };
    let d = d * s.pick(&[1.0f32, 1.0, 0.01, 1e6, 1e-10, 7.0, 1e-37, 1e37, 1e-20, 3e19]);
    let n = s.int(0, 5);
    let pts: Vec<Vec3> = (0..n)
        .map(|_| {
            // also points on axes, diagonals, or far away in one coordinate only
            let round = s.chance(25);
            f3([0, 1, 2].map(|_| {
                let k = if s.chance(50) { 1.0 } else { 9.0 };
                let x = if round { s.sint(4) as f64 * 2.0 } else { s.sym(k) };
                x * u as f64
            }))
        })
        .collect();
    // the covering box may start as a point
    let s0 = s.chance(20);
    a.id(ctx);
    b.id(ctx);
    for p in pts.iter().chain([&d]) {
        for x in [p.x, p.y, p.z] {
            ctx.idf(x);
        }
    }
    ctx.desc(|| format!("{} and {}, direction {}, covering {pts:?}", a.show(), b.show(), show(d)));
    ctx.nontrivial = k != 0;
    farthest("shape", &a, d)?;
    match (&a, &b) {
        (Solid::Ball(x), Solid::Ball(y)) => {
            for (name, m) in [("sum", x.minkowski_sum(y)), ("difference", x.minkowski_difference(y))] {
                let m = Solid::Ball(m);
                farthest(name, &m, d)?;
                let (h, want) = (m.size(), x.radius as f64 + y.radius as f64);
                ensure!((h - want).abs() <= 2.0 * EPS * want, "the Minkowski {name} of {} and {} is {}", a.show(), b.show(), m.show());
            }
            ensure!(Ball::with_radius(x.radius) == *x && x.radius == Ball { radius: x.radius }.radius, "Ball::with_radius");
        }
        (Solid::Box(x), Solid::Box(y)) => {
            for (name, m) in [("sum", x.minkowski_sum(y)), ("difference", x.minkowski_difference(y))] {
                farthest(name, &Solid::Box(m), d)?;
                let (got, want) = (w3(m.halfsize), add(w3(x.halfsize), w3(y.halfsize)));
                ensure!((0..3).all(|i| (got[i] - want[i]).abs() <= 2.0 * EPS * want[i]), "the Minkowski {name} of {} and {} is {m:?}", a.show(), b.show());
            }
            let h = x.halfsize;
            ensure!(Box3d::with_halfdims(h.x, h.y, h.z) == *x && Box3d::new(h) == *x, "constructors of Box3d");
            let (mut c, mut m) = (*x, h);
            if s0 {
                (c, m) = (Box3d::default(), Vec3::ZERO);
            }
            for p in &pts {
                c.cover(p);
                m = m.max(p.abs());
                ensure!(c.halfsize == m, "after cover({}) the half size is {}, expected {}", show(*p), show(c.halfsize), show(m));
            }
        }
        _ => {}
    }
    Ok(())
}

pub static PROPS: [Prop; 4] = [
    Prop { id: "C31", words: 60, quick: 4_000_000, thorough: 150_000_000, rule: "a case is a ball or box, a point near its faces, edges, corners, center or anywhere, and transforms (every provided kind able to express them and a user-defined similarity); non-trivial = the signed distance is beyond rounding and less than the size of the shape", assumptions: &["positive uniform scales"], check: points3 },
    Prop { id: "C32", words: 80, quick: 3_000_000, thorough: 150_000_000, rule: "a case is two balls or two boxes, a translation between them, and a common rotation and scale that places both in the world; non-trivial = the signed distance is beyond rounding and less than the size of the shapes", assumptions: &["the relative transform is a translation (balls: with any rotation): the 3D API has no oriented boxes or scaled balls as second shape"], check: solids3 },
    Prop { id: "C33", words: 115, quick: 5_000_000, thorough: 200_000_000, rule: "a case is two transforms of one kind and a point, or two bevy transforms with the Transform3d and Isotropic3d made from them and a point; non-trivial = they differ and the point is not the origin", assumptions: &["Transform3d and Isotropic3d can only be made, other than by default, from a bevy transform", "compositions of independently scaled transforms without half-turn rotations would need shear and are judged by where they take the origin"], check: algebra3 },
    Prop { id: "C36", words: 66, quick: 4_000_000, thorough: 200_000_000, rule: "a case is two solids of one kind, a direction and points to cover; non-trivial = they are not points", assumptions: &["non-zero directions"], check: shapes3 },
];
