//! Generators of 2D shapes, transforms and placed pairs, and their f64 meaning.

use crate::geo::{self, v, Body, V};
use crate::runner::Ctx;
use crate::src::Src;
use auburn::col2d::*;

#[derive(Clone, Debug)]
pub enum Sh {
    Pt(Point),
    Ball(Ball),
    Box(Box2d),
    Poly(Poly2d),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Tf {
    pub pos: Vec2,
    pub ang: f32,
    pub scale: Vec2,
}

impl Tf {
    pub const ID: Tf = Tf {
        pos: Vec2::ZERO,
        ang: 0.0,
        scale: Vec2::ONE,
    };
    pub fn t2d(&self) -> Transform2d {
        Transform2d {
            pos: self.pos,
            rot: Rotor2d::from_angle(self.ang),
            scale: self.scale,
        }
    }
    pub fn point(&self, p: V) -> V {
        self.dir(v(p.x * self.scale.x as f64, p.y * self.scale.y as f64)) + vf(self.pos)
    }
    /// Rotation only.
    pub fn dir(&self, p: V) -> V {
        let (s, c) = (self.ang as f64).sin_cos();
        v(c * p.x - s * p.y, s * p.x + c * p.y)
    }
    pub fn undir(&self, p: V) -> V {
        let (s, c) = (self.ang as f64).sin_cos();
        v(c * p.x + s * p.y, -s * p.x + c * p.y)
    }
    pub fn unpoint(&self, p: V) -> V {
        let q = self.undir(p - vf(self.pos));
        v(q.x / self.scale.x as f64, q.y / self.scale.y as f64)
    }
    pub fn uniform(&self) -> bool {
        self.scale.x == self.scale.y
    }
    pub fn translation_only(&self) -> bool {
        self.ang == 0.0 && self.scale == Vec2::ONE
    }
    pub fn axis_only(&self) -> bool {
        self.ang == 0.0 && self.uniform()
    }
    pub fn id(&self, c: &mut Ctx) {
        for x in [self.pos.x, self.pos.y, self.ang, self.scale.x, self.scale.y] {
            c.idf(x);
        }
    }
    pub fn show(&self) -> String {
        format!(
            "(pos ({:?}, {:?}), angle {:?}, scale ({:?}, {:?}))",
            self.pos.x, self.pos.y, self.ang, self.scale.x, self.scale.y
        )
    }
}

pub fn vf(p: Vec2) -> V {
    v(p.x as f64, p.y as f64)
}
pub fn fv(p: V) -> Vec2 {
    Vec2::new(p.x as f32, p.y as f32)
}

impl Sh {
    pub fn kind(&self) -> &'static str {
        match self {
            Sh::Pt(_) => "Point",
            Sh::Ball(_) => "Ball",
            Sh::Box(_) => "Box",
            Sh::Poly(_) => "Poly",
        }
    }
    pub fn local(&self) -> Body {
        match self {
            Sh::Pt(_) => Body::new(vec![v(0.0, 0.0)], 0.0),
            Sh::Ball(b) => Body::new(vec![v(0.0, 0.0)], b.radius as f64),
            Sh::Box(b) => {
                let h = vf(b.halfsize);
                Body::new(
                    vec![v(-h.x, -h.y), v(h.x, -h.y), v(h.x, h.y), v(-h.x, h.y)],
                    0.0,
                )
            }
            Sh::Poly(p) => Body::new(p.points.iter().map(|p| vf(*p)).collect(), 0.0),
        }
    }
    /// The shape under a transform; balls need a uniform scale.
    pub fn body(&self, t: &Tf) -> Body {
        let l = self.local();
        debug_assert!(l.r == 0.0 || t.uniform());
        Body::new(
            l.pts.iter().map(|p| t.point(*p)).collect(),
            l.r * t.scale.x as f64,
        )
    }
    pub fn union(&self) -> Option<Shape2d> {
        match self {
            Sh::Pt(_) => None,
            Sh::Ball(b) => Some(Shape2d::Ball(*b)),
            Sh::Box(b) => Some(Shape2d::Box2d(*b)),
            Sh::Poly(p) => Some(Shape2d::Poly2d(p.clone())),
        }
    }
    pub fn id(&self, c: &mut Ctx) {
        match self {
            Sh::Pt(_) => c.id(1),
            Sh::Ball(b) => {
                c.id(2);
                c.idf(b.radius)
            }
            Sh::Box(b) => {
                c.id(3);
                c.idf(b.halfsize.x);
                c.idf(b.halfsize.y)
            }
            Sh::Poly(p) => {
                c.id(4);
                for q in &p.points {
                    c.idf(q.x);
                    c.idf(q.y)
                }
            }
        }
    }
    pub fn show(&self) -> String {
        match self {
            Sh::Pt(_) => "Point".into(),
            Sh::Ball(b) => format!("Ball r={:?}", b.radius),
            Sh::Box(b) => format!("Box2d half=({:?}, {:?})", b.halfsize.x, b.halfsize.y),
            Sh::Poly(p) => format!(
                "Poly2d [{}]",
                p.points
                    .iter()
                    .map(|p| format!("({:?}, {:?})", p.x, p.y))
                    .collect::<Vec<_>>()
                    .join(", ")
            ),
        }
    }
}

/// A positive length, in units of 1: dyadic, moderate, or widely spread.
pub fn length(s: &mut Src) -> f32 {
    match s.weighted(&[4, 5, 2]) {
        0 => (s.below(12) + 1) as f32 * 0.5,
        1 => 2f64.powf(s.range(-2.0, 2.0)) as f32,
        _ => 2f64.powf(s.range(-7.0, 7.0)) as f32,
    }
}

pub fn angle(s: &mut Src) -> f32 {
    use std::f32::consts::*;
    match s.weighted(&[12, 8, 8, 24, 4, 2]) {
        0 => 0.0,
        1 => s.sint(4) as f32 * FRAC_PI_2,
        2 => s.sint(8) as f32 * FRAC_PI_4,
        3 => s.sym(std::f64::consts::PI) as f32,
        5 => s.sym(100.0) as f32,
        _ => {
            let q = s.sint(4) as f32 * FRAC_PI_2;
            let e = 2f64.powf(-s.range(2.0, 20.0)) as f32;
            q + if s.chance(50) { e } else { -e }
        }
    }
}

fn rot(p: Vec2, a: f64) -> Vec2 {
    let (s, c) = a.sin_cos();
    let (x, y) = (p.x as f64, p.y as f64);
    Vec2::new((c * x - s * y) as f32, (s * x + c * y) as f32)
}

/// A convex polygon containing the origin (the documented precondition of `Poly2d`), of at least
/// three vertices, listed in any order.
pub fn poly(s: &mut Src, unit: f32) -> Poly2d {
    let r = length(s) * unit;
    let mut p: Vec<Vec2> = match s.weighted(&[2, 2, 1, 6, 3, 4, 1]) {
        0 => Poly2d::from(Box2d::with_halfdims(r, length(s) * unit)).points,
        1 => Poly2d::regular(s.int(3, 12) as usize, r).points,
        2 => Poly2d::regular_upright(s.int(3, 12) as usize, r).points,
        // points on an ellipse around an off-centre origin
        3 => {
            let n = s.int(3, 9) as usize;
            let aspect = length(s);
            let (ox, oy) = (s.sym(0.3), s.sym(0.3));
            let tilt = s.sym(3.0);
            ring(s, n)
                .into_iter()
                .map(|t| {
                    rot(
                        Vec2::new(
                            (t.cos() + ox) as f32 * r,
                            (t.sin() + oy) as f32 * r * aspect,
                        ),
                        tilt,
                    )
                })
                .collect()
        }
        // lattice hulls: parallel edges, right angles, repeated slopes
        4 => {
            let n = s.int(3, 8) as usize;
            let mut pts = vec![
                V { x: 1.0, y: -1.0 },
                V { x: -1.0, y: 1.0 },
                V { x: 1.0, y: 1.0 },
                V { x: -1.0, y: -1.0 },
            ];
            let k = s.below(4);
            pts.truncate(4 - k.min(1));
            if pts.len() == 3 {
                pts.push(v(-1.0, -1.0));
            }
            for _ in 0..n {
                pts.push(v(s.sint(6) as f64, s.sint(6) as f64));
            }
            geo::hull(pts)
                .into_iter()
                .map(|p| fv(p * (0.5 * unit as f64)))
                .collect()
        }
        // many vertices
        5 => {
            let n = match s.below(1000) {
                0..=1 => s.int(301, 3000),
                2..=81 => s.int(65, 300),
                _ => s.int(10, 64),
            } as usize;
            let (ox, oy) = (s.sym(0.2), s.sym(0.2));
            let j = s.range(0.0, 0.9);
            let ph = s.range(0.0, 1.0);
            let jit = s.word() as u64;
            let (aspect, tilt) = if s.chance(40) {
                (2f64.powf(s.range(-6.0, 6.0)) as f32, s.sym(3.0))
            } else {
                (1.0, 0.0)
            };
            (0..n)
                .map(|i| {
                    // one word of jitter spread over the vertices
                    let h = (jit.wrapping_mul(0x9E37_79B9).wrapping_add(i as u64 * 0x85EB_CA6B))
                        % 1000;
                    let t = (i as f64 + ph + j * (h as f64 / 1000.0 - 0.5)) / n as f64
                        * std::f64::consts::TAU;
                    rot(Vec2::new((t.cos() + ox) as f32 * r, (t.sin() + oy) as f32 * r * aspect), tilt)
                })
                .collect()
        }
        // a triangle of arbitrary shape around the origin
        _ => {
            let a = s.range(0.0, std::f64::consts::TAU);
            let pts = [0.0, 1.0, 2.0].map(|i| {
                let t = a + (i + s.sym(0.24)) * std::f64::consts::TAU / 3.0;
                let q = length(s) as f64 * unit as f64;
                fv(v(t.cos() * q, t.sin() * q))
            });
            pts.to_vec()
        }
    };
    let shuffled = s.chance(30);
    match s.weighted(&[90, 5, 3, 3]) {
        0 => {}
        1 => {
            let i = s.below(p.len());
            let q = p[i];
            p.push(q);
        }
        // vertices repeated in place
        2 => {
            let k = s.int(1, 3) as usize;
            for _ in 0..k {
                let i = s.below(p.len());
                let q = p[i];
                p.insert(i, q);
            }
        }
        // vertices in the middle of a side
        _ => {
            let k = s.int(1, 3) as usize;
            for _ in 0..k {
                let i = s.below(p.len());
                let q = (p[i] + p[(i + 1) % p.len()]) * 0.5;
                p.insert(i + 1, q);
            }
        }
    }
    if shuffled {
        s.shuffle(&mut p);
    }
    Poly2d { points: p }
}

/// The polygon moved so that the origin is one of its vertices or lies on one of its sides.
fn on_boundary(s: &mut Src, p: Poly2d) -> Poly2d {
    let h = geo::hull(p.points.iter().map(|p| vf(*p)).collect());
    let i = s.below(h.len());
    let (a, b) = (fv(h[i]), fv(h[(i + 1) % h.len()]));
    let o = if s.chance(50) { a } else { (a + b) * 0.5 };
    Poly2d { points: p.points.into_iter().map(|p| p - o).collect() }
}

/// Sorted angles, one per sector, so that the hull of the points goes around.
fn ring(s: &mut Src, n: usize) -> Vec<f64> {
    (0..n)
        .map(|i| (i as f64 + 0.5 + s.sym(0.45)) / n as f64 * std::f64::consts::TAU)
        .collect()
}

pub fn shape(s: &mut Src, kind: usize, unit: f32) -> Sh {
    match kind {
        0 => Sh::Pt(Point),
        1 => Sh::Ball(Ball::new(length(s) * unit)),
        2 => {
            let x = length(s) * unit;
            let y = if s.chance(20) { x } else { length(s) * unit };
            Sh::Box(Box2d::with_halfdims(x, y))
        }
        _ => {
            let p = poly(s, unit);
            // the hull must contain the origin; otherwise fall back to a simple polygon
            let h = Body::new(p.points.iter().map(|p| vf(*p)).collect(), 0.0);
            if h.pts.len() >= 3 && geo::sd(&h, v(0.0, 0.0)) < -1e-3 * h.reach(v(0.0, 0.0)) {
                Sh::Poly(if s.chance(6) { on_boundary(s, p) } else { p })
            } else {
                Sh::Poly(Poly2d::regular(3, length(s) * unit))
            }
        }
    }
}

/// Pairs with a query implementation of their own, plus Ball/Poly which only exist in `Shape2d`.
pub const PAIRS: [(usize, usize); 14] = [
    (2, 2),
    (2, 1),
    (1, 1),
    (1, 2),
    (2, 0),
    (0, 2),
    (1, 0),
    (0, 1),
    (0, 0),
    (3, 3),
    (3, 2),
    (2, 3),
    (3, 1),
    (1, 3),
];
pub const PAIR_WEIGHTS: [usize; 14] = [5, 4, 3, 4, 3, 3, 2, 2, 1, 6, 4, 4, 3, 3];

/// Two placed shapes. With `rel` set, `ta` is the identity and `tb` is the relative transform.
#[derive(Clone, Debug)]
pub struct Pair {
    pub a: Sh,
    pub b: Sh,
    pub ta: Tf,
    pub tb: Tf,
    pub rel: bool,
    pub union: bool,
    pub unit: f32,
    /// one and the same object given for both shapes (which then are equal), for both transforms
    pub same_shape: bool,
    pub same_tf: bool,
}

#[derive(Clone, Copy)]
pub struct Opts {
    pub rel: Option<bool>,
    pub union: bool,
    pub nonuniform: bool,
    pub scaled: bool,
    pub rotated: bool,
    pub extreme_units: bool,
}

pub const ALL: Opts = Opts {
    rel: None,
    union: true,
    nonuniform: true,
    scaled: true,
    rotated: true,
    extreme_units: true,
};

pub fn unit(s: &mut Src, extreme: bool) -> f32 {
    match s.weighted(&[7, 2, if extreme { 2 } else { 0 }]) {
        0 => 1.0,
        1 => 10f64.powf(s.range(-2.0, 3.0)) as f32,
        _ => 10f64.powf(s.range(-5.0, 7.0)) as f32,
    }
}

pub fn pair(s: &mut Src, o: Opts) -> Pair {
    let k = s.weighted(&PAIR_WEIGHTS);
    pair_of(s, o, PAIRS[k])
}

pub fn pair_of(s: &mut Src, o: Opts, (ka, kb): (usize, usize)) -> Pair {
    let unit = unit(s, o.extreme_units);
    let a = shape(s, ka, unit);
    let same_shape = ka == kb && s.chance(10);
    let b = if same_shape { a.clone() } else { shape(s, kb, unit) };
    let ball_poly = (ka == 1 && kb == 3) || (ka == 3 && kb == 1);
    let union = ball_poly || (o.union && ka != 0 && kb != 0 && s.chance(25));
    let rel = o.rel.unwrap_or_else(|| s.chance(35));
    let mut ta = Tf::ID;
    let mut tb = Tf::ID;
    let style = s.weighted(&[3, if o.scaled { 2 } else { 0 }, if o.rotated { 7 } else { 0 }]);
    // 0: translations, 1: axis-aligned uniform scales, 2: anything
    let sc = |s: &mut Src| match s.weighted(&[12, 8, 8, 1]) {
        0 => 1.0f32,
        1 => s.pick(&[2.0f32, 0.5, 4.0, 0.25, 3.0]),
        2 => 2f64.powf(s.range(-3.0, 3.0)) as f32,
        _ => 2f64.powf(s.range(-9.0, 9.0)) as f32,
    };
    if style >= 1 && o.scaled {
        if !rel {
            ta.scale = Vec2::splat(sc(s));
        }
        tb.scale = Vec2::splat(sc(s));
        if style == 2 && o.nonuniform && ka >= 2 && kb >= 2 && s.chance(20) {
            tb.scale.y = sc(s);
            if s.chance(25) {
                tb.scale.y = -tb.scale.y;
            }
        }
    }
    if style == 2 {
        if !rel {
            ta.ang = angle(s);
        }
        tb.ang = angle(s);
    }
    let grid = s.chance(30);
    if !rel {
        ta.pos = match s.weighted(&[2, 3, 1]) {
            0 => Vec2::ZERO,
            1 if grid => Vec2::new(s.sint(20) as f32, s.sint(20) as f32) * 0.5 * unit,
            1 => Vec2::new(s.sym(4.0) as f32, s.sym(4.0) as f32) * unit,
            _ => Vec2::new(s.sym(500.0) as f32, s.sym(500.0) as f32) * unit,
        };
    }
    let same_tf = !rel && s.chance(4);
    // place b
    let ba = a.body(&ta);
    let b0 = b.body(&Tf {
        pos: Vec2::ZERO,
        ..tb
    });
    let size = (ba.reach(vf(ta.pos)) + b0.reach(v(0.0, 0.0))).max(unit as f64 * 1e-3);
    tb.pos = match s.weighted(&[if grid { 12 } else { 1 }, 4, 5, 2, 1]) {
        0 => ta.pos + Vec2::new(s.sint(24) as f32, s.sint(24) as f32) * (0.25 * unit),
        1 => {
            let k = s.range(0.0, 1.5);
            fv(vf(ta.pos) + v(s.sym(size * k), s.sym(size * k)))
        }
        2 => {
            // at a chosen signed distance along a chosen direction
            let th = if s.chance(30) {
                s.below(8) as f64 * std::f64::consts::FRAC_PI_4
            } else {
                s.range(0.0, std::f64::consts::TAU)
            };
            let u = v(th.cos(), th.sin());
            let m = size * 2f64.powf(-s.range(0.0, 16.0));
            let target = if s.chance(50) { -m } else { m };
            let md = geo::diff(&ba.translated(-vf(ta.pos)), &b0);
            let (mut lo, mut hi) = (0.0, 3.0 * size);
            for _ in 0..30 {
                let t = 0.5 * (lo + hi);
                if geo::sd(&md, u * t) < target {
                    lo = t
                } else {
                    hi = t
                }
            }
            fv(vf(ta.pos) + u * (0.5 * (lo + hi)))
        }
        3 => {
            // nearly or exactly concentric
            let e = if s.chance(60) {
                size * 2f64.powf(-s.range(1.0, 20.0))
            } else {
                0.0
            };
            fv(vf(ta.pos) + v(s.sym(e), s.sym(e)))
        }
        _ => {
            let k = size * 2f64.powf(s.range(1.0, 10.0));
            fv(vf(ta.pos) + v(s.sym(k), s.sym(k)))
        }
    };
    if same_tf {
        tb = ta;
    }
    Pair {
        a,
        b,
        ta,
        tb,
        rel,
        union,
        unit,
        same_shape,
        same_tf,
    }
}

impl Pair {
    pub fn id(&self, c: &mut Ctx) {
        self.a.id(c);
        self.b.id(c);
        self.ta.id(c);
        self.tb.id(c);
        c.id(self.rel as u64 + 2 * self.union as u64 + 4 * self.same_shape as u64 + 8 * self.same_tf as u64);
    }
    pub fn show(&self) -> String {
        format!(
            "a: {} at {}; b: {} at {}; {}{}{}",
            self.a.show(),
            self.ta.show(),
            self.b.show(),
            self.tb.show(),
            if self.rel { "b's transform given relative to a" } else { "two colliders" },
            if self.union { ", as Shape2d" } else { "" },
            match (self.same_shape, self.same_tf) {
                (true, true) => ", the same objects twice",
                (true, false) => ", the same shape object twice",
                (false, true) => ", the same transform object twice",
                _ => "",
            }
        )
    }
    pub fn bodies(&self) -> (Body, Body) {
        (self.a.body(&self.ta), self.b.body(&self.tb))
    }
    /// Length scale of the inputs: coordinates and extents that take part in f32 rounding.
    pub fn magnitude(&self, ba: &Body, bb: &Body) -> f64 {
        let o = v(0.0, 0.0);
        let (pa, pb) = (vf(self.ta.pos), vf(self.tb.pos));
        ba.reach(pa) + bb.reach(pb) + (pa - o).len().max((pb - o).len()) + (pb - pa).len()
    }
    /// The pair is answered by closed formulas rather than by iteration.
    pub fn analytic(&self) -> bool {
        if self.union {
            return false;
        }
        use Sh::*;
        !matches!(
            (&self.a, &self.b),
            (Ball(_), Box(_)) | (Box(_), Box(_)) | (Poly(_), _) | (_, Poly(_))
        )
    }
}
