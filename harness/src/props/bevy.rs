//! C34: bevy's Transform as a 2D and a 3D transform, and the conversions between it and auburn's.
//! Only in builds with the `interop` feature.

use super::three::{self, add, len, point3, sub, w3, Sim, W};
use super::{shapes, transforms};
use crate::ensure;
use crate::gen::*;
use crate::query::*;
use crate::runner::{Ctx, Prop, Verdict};
use crate::src::Src;
use crate::with_pair;
use auburn::col2d::*;
use auburn::col3d::{Isotropic3d, Transform3d, Transformation3d};
use auburn::{Quat, Vec3};
use bevy::prelude::Transform as Bevy;

/// The quaternion of a rotation matrix given by rows, computed in f64.
pub fn quat(r: [Vec3; 3]) -> Quat {
    let m = |i: usize, j: usize| r[i][j] as f64;
    let t = m(0, 0) + m(1, 1) + m(2, 2);
    let (x, y, z, w);
    if t > 0.0 {
        let s = (t + 1.0).sqrt() * 2.0;
        w = 0.25 * s;
        x = (m(2, 1) - m(1, 2)) / s;
        y = (m(0, 2) - m(2, 0)) / s;
        z = (m(1, 0) - m(0, 1)) / s;
    } else if m(0, 0) > m(1, 1) && m(0, 0) > m(2, 2) {
        let s = (1.0 + m(0, 0) - m(1, 1) - m(2, 2)).sqrt() * 2.0;
        w = (m(2, 1) - m(1, 2)) / s;
        x = 0.25 * s;
        y = (m(0, 1) + m(1, 0)) / s;
        z = (m(0, 2) + m(2, 0)) / s;
    } else if m(1, 1) > m(2, 2) {
        let s = (1.0 + m(1, 1) - m(0, 0) - m(2, 2)).sqrt() * 2.0;
        w = (m(0, 2) - m(2, 0)) / s;
        x = (m(0, 1) + m(1, 0)) / s;
        y = 0.25 * s;
        z = (m(1, 2) + m(2, 1)) / s;
    } else {
        let s = (1.0 + m(2, 2) - m(0, 0) - m(1, 1)).sqrt() * 2.0;
        w = (m(1, 0) - m(0, 1)) / s;
        x = (m(0, 2) + m(2, 0)) / s;
        y = (m(1, 2) + m(2, 1)) / s;
        z = 0.25 * s;
    }
    let n = (x * x + y * y + z * z + w * w).sqrt();
    Quat::from_xyzw((x / n) as f32, (y / n) as f32, (z / n) as f32, (w / n) as f32)
}

pub fn of_sim(t: &Sim) -> Bevy {
    Bevy {
        translation: t.pos,
        rotation: quat(t.rot),
        scale: Vec3::splat(t.k),
    }
}

/// What a 2D transform has no use for: depth, the scale along Z, the sign of the quaternion.
struct Extra {
    z: f32,
    sz: f32,
    flip: bool,
}

fn extra(s: &mut Src) -> Extra {
    Extra {
        z: s.pick(&[0.0f32, 1.0, -3.5, 900.0, 3e7, -1e-7]),
        sz: s.pick(&[1.0f32, 1.0, 2.0, 0.125, -1.0, 1e-4, 3e4]),
        flip: s.chance(40),
    }
}

fn of_tf(t: &Tf, e: &Extra) -> Bevy {
    let h = t.ang as f64 / 2.0;
    let q = Quat::from_xyzw(0.0, 0.0, h.sin() as f32, h.cos() as f32);
    Bevy {
        translation: Vec3::new(t.pos.x, t.pos.y, e.z),
        rotation: if e.flip { -q } else { q },
        scale: Vec3::new(t.scale.x, t.scale.y, e.sz),
    }
}

fn show(t: &Bevy) -> String {
    format!("bevy Transform {{ translation: {:?}, rotation: {:?}, scale: {:?} }}", t.translation, t.rotation, t.scale)
}

fn queries(s: &mut Src, ctx: &mut Ctx) -> Verdict {
    ctx.label("2D queries");
    let (p, _, mut t) = case(s, ctx, ALL);
    let (ea, eb) = (extra(s), extra(s));
    let (a, b) = (of_tf(&p.ta, &ea), of_tf(&p.tb, &eb));
    ctx.desc(|| format!("placed by {} and {}", show(&a), show(&b)));
    t.margin *= 3.0;
    t.slack *= 3.0;
    let r = with_pair!(&p, |x, y| if p.rel { q_rel(x, y, &b) } else { q_col(x, &a, y, if p.same_tf { &a } else { &b }) });
    if t.decisive() {
        ensure!(
            r.collides == t.overlap() && r.sdfv.0 == t.overlap() && r.pen.is_some() == t.overlap() && r.dist.is_none() == t.overlap(),
            "placed by bevy transforms the queries answered {r:?}, the signed distance is {:e}", t.sd
        );
        if let Some(w) = r.pen {
            t.vector("penetrates", w)?;
        }
        if let Some(w) = r.dist {
            t.vector("distance_to", w)?;
        }
        t.vector("sdfv", r.sdfv.1)?;
    }
    Ok(())
}

/// The 2D view of a bevy transform: XY of the translation and scale, the turn about Z.
fn view(s: &mut Src, ctx: &mut Ctx) -> Verdict {
    ctx.label("as a 2D transform");
    let kind = s.weighted(&[0, 0, 1, 2, 4]);
    let m = transforms::tf(s, kind);
    let (p, d) = (transforms::point(s), transforms::point(s));
    let e = extra(s);
    let t = of_tf(&m, &e);
    let tilted = s.chance(30);
    m.id(ctx);
    for x in [p.x, p.y, d.x, d.y, e.z, e.sz] {
        ctx.idf(x);
    }
    if !tilted {
        ctx.desc(|| format!("{}, point {p:?}, direction {d:?}", show(&t)));
        ctx.nontrivial = m != Tf::ID && p != Vec2::ZERO;
        let c = Transform2d::from(t);
        ensure!(c.pos == m.pos && c.scale == m.scale, "{} becomes {c:?}", show(&t));
        for (name, r) in [("bevy", transforms::single(&t, &m, p, d)), ("converted", transforms::single(&c, &m, p, d))] {
            if let Err(e) = r {
                return Err(format!("{name}: {e}"));
            }
        }
    } else {
        // any rotation: the transform acts as the Transform2d it converts to
        let t = Bevy { rotation: quat(three::rotation(s)), ..t };
        ctx.desc(|| format!("{}, point {p:?}, direction {d:?}", show(&t)));
        ctx.nontrivial = p != Vec2::ZERO;
        let c = Transform2d::from(t);
        ensure!(c.pos == m.pos && c.scale == m.scale, "{} becomes {c:?}", show(&t));
        let turn = Rotor2d::from_quaternion(t.rotation);
        let off = (c.rot * Vec2::X - turn * Vec2::X).length() + (c.rot * Vec2::Y - turn * Vec2::Y).length();
        ensure!(off <= 32.0 * f32::EPSILON, "{} becomes {c:?}", show(&t));
        let b: &dyn Fn(Vec2) -> [Vec2; 6] = &|p| {
            use auburn::col2d::Transformation2d as T;
            [T::apply_origin(&t), T::apply(&t, p), T::unapply(&t, p), T::apply_normal(&t, p), T::unapply_normal(&t, p), T::unapply_extreme_direction(&t, p)]
        };
        let w = [c.apply_origin(), c.apply(p), c.unapply(p), c.apply_normal(p), c.unapply_normal(p), c.unapply_extreme_direction(p)];
        let g = b(p);
        let scale = 16.0 * EPS * (vf(p).len() + vf(m.pos).len()) * 64.0 * 32.0;
        for i in 0..6 {
            ensure!((vf(g[i]) - vf(w[i])).len() <= scale, "{}: operation {i} on {p:?} gives {:?}, its Transform2d {:?}", show(&t), g[i], w[i]);
        }
        ensure!((Transformation2d::scaling_factor(&t) - c.scaling_factor()).abs() <= 4.0 * f32::EPSILON * c.scaling_factor().abs(), "{}: scaling factors differ", show(&t));
    }
    Ok(())
}

fn farthest(s: &mut Src, ctx: &mut Ctx) -> Verdict {
    ctx.label("2D extreme points");
    let e = extra(s);
    shapes::placed_by(s, ctx, &|t| of_tf(t, &e))
}

/// Scale per axis, then rotation, then translation.
struct Aff {
    pos: Vec3,
    rot: [Vec3; 3],
    scale: Vec3,
}
impl Aff {
    fn sim(&self) -> Sim {
        Sim { pos: Vec3::ZERO, rot: self.rot, k: 1.0 }
    }
    fn point(&self, p: W) -> W {
        let s = w3(self.scale);
        add(self.sim().turn([s[0] * p[0], s[1] * p[1], s[2] * p[2]]), w3(self.pos))
    }
    fn unpoint(&self, p: W) -> W {
        let s = w3(self.scale);
        let q = self.sim().unturn(sub(p, w3(self.pos)));
        [q[0] / s[0], q[1] / s[1], q[2] / s[2]]
    }
}

pub fn spatial(s: &mut Src, ctx: &mut Ctx) -> Verdict {
    ctx.label("3D transforms");
    let (mut ma, mut mb) = (three::sim_wide(s, 2), three::sim_wide(s, 2));
    ma.pos = point3(s);
    mb.pos = point3(s);
    three::related(s, &ma, &mut mb);
    let p = point3(s);
    let flips = s.below(8);
    let wide = if s.chance(15) { 14.0 } else { 4.0 };
    let sc = |s: &mut Src| {
        let e = s.range(-wide, wide);
        let e = if s.chance(20) { e.round() } else { e };
        2f64.powf(e) as f32 * if s.chance(20) { -1.0 } else { 1.0 }
    };
    let mut scale = Vec3::new(sc(s), sc(s), sc(s));
    // two alike
    match s.weighted(&[12, 1, 1, 1]) {
        0 => {}
        1 => scale.y = scale.x,
        2 => scale.z = scale.y,
        _ => scale.z = -scale.x,
    }
    ma.id(ctx);
    mb.id(ctx);
    for x in [p.x, p.y, p.z, scale.x, scale.y, scale.z] {
        ctx.idf(x);
    }
    let (mut a, mut b) = (of_sim(&ma), of_sim(&mb));
    // the same rotations
    if flips & 5 == 5 {
        a.rotation = -a.rotation;
    }
    if flips & 6 == 6 {
        b.rotation = -b.rotation;
    }
    ctx.desc(|| format!("{} and {}, other scale {scale:?}, point {p:?}", show(&a), show(&b)));
    ctx.nontrivial = ma != mb && p != Vec3::ZERO;
    let l = |name: &str, r: Verdict| r.map_err(|e| format!("{name}: {e}"));
    l("bevy", three::laws_tol("bevy Transform", &a, &b, &ma, &mb, p, 4.0))?;
    l("Transform3d", three::laws_tol("Transform3d", &Transform3d::from(a), &Transform3d::from(b), &ma, &mb, p, 4.0))?;
    l("Isotropic3d", three::laws_tol("Isotropic3d", &Isotropic3d::from(a), &Isotropic3d::from(&b), &ma, &mb, p, 4.0))?;
    ensure!(Isotropic3d::from(a) == Isotropic3d::from(&a), "Isotropic3d of a transform and of a reference to it differ: {}", show(&a));

    // independent scales
    let n = Bevy { scale, ..a };
    let m = Aff { pos: ma.pos, rot: ma.rot, scale };
    let back: Bevy = Transform3d::from(n).into();
    ensure!(back == n, "{} converted to Transform3d and back is {}", show(&n), show(&back));
    let c = Transform3d::from(n);
    let q = w3(p);
    let smax = scale.abs().max_element() as f64;
    let smin = scale.abs().min_element() as f64;
    let (lp, la) = (len(q), len(w3(ma.pos)));
    for (name, got, un, o) in [
        ("bevy Transform", Transformation3d::apply(&n, p), Transformation3d::unapply(&n, p), Transformation3d::apply_origin(&n)),
        ("Transform3d", c.apply(p), c.unapply(p), c.apply_origin()),
    ] {
        let w = m.point(q);
        ensure!(three::close(got, w, 32.0 * EPS * (la + smax * lp)), "{name} {}: apply({p:?}) = {got:?}, expected {w:?}", show(&n));
        let w = m.unpoint(q);
        ensure!(three::close(un, w, 32.0 * EPS * (la + lp) / smin), "{name} {}: unapply({p:?}) = {un:?}, expected {w:?}", show(&n));
        ensure!(o == ma.pos, "{name} {}: apply_origin() = {o:?}", show(&n));
    }
    // a uniform transform composed with any other
    let w = ma.point(Aff { pos: mb.pos, rot: mb.rot, scale }.point(q));
    let tol = 64.0 * EPS * (la + ma.k as f64 * (len(w3(mb.pos)) + smax * lp));
    let nb = Bevy { scale, ..b };
    for (name, got) in [
        ("bevy Transform", Transformation3d::apply(&Composable::compose(&a, &nb), p)),
        ("Transform3d", Transform3d::from(a).compose(&Transform3d::from(nb)).apply(p)),
    ] {
        ensure!(three::close(got, w, tol), "{name}: {} composed with {} maps {p:?} to {got:?}, one after the other gives {w:?}", show(&a), show(&nb));
    }
    // whatever the scales, the origin goes where one after the other takes it
    let w = m.point(w3(mb.pos));
    let tol = 32.0 * EPS * (la + smax * len(w3(mb.pos)));
    for (name, got) in [
        ("bevy Transform", Transformation3d::apply_origin(&Composable::compose(&n, &nb))),
        ("Transform3d", c.compose(&Transform3d::from(nb)).apply_origin()),
    ] {
        ensure!(three::close(got, w, tol), "{name}: {} composed with {} takes the origin to {got:?}, one after the other gives {w:?}", show(&n), show(&nb));
    }
    // turned by half turns, independent scales stay exact under every operation
    let half = [0, 1].map(|_| s.weighted(&[4, 1, 1, 1]));
    let other = Vec3::new(sc(s), sc(s), sc(s));
    let q = [half[0], half[1]].map(|h| [Quat::IDENTITY, Quat::from_xyzw(1.0, 0.0, 0.0, 0.0), Quat::from_xyzw(0.0, 1.0, 0.0, 0.0), Quat::from_xyzw(0.0, 0.0, 1.0, 0.0)][h]);
    let f = Bevy { translation: ma.pos, rotation: q[0], scale };
    let g = Bevy { translation: mb.pos, rotation: q[1], scale: other };
    let df = Diag::new(&f, half[0]);
    let dg = Diag::new(&g, half[1]);
    l("bevy", diagonal(&f, &g, &df, &dg, p))?;
    l("Transform3d", diagonal(&Transform3d::from(f), &Transform3d::from(g), &df, &dg, p))
}

/// A factor for each axis, then a translation.
struct Diag {
    k: W,
    pos: W,
    text: String,
}
impl Diag {
    fn new(t: &Bevy, half: usize) -> Diag {
        let mut k = w3(t.scale);
        for i in 0..3 {
            if half != 0 && half != i + 1 {
                k[i] = -k[i];
            }
        }
        Diag { k, pos: w3(t.translation), text: show(t) }
    }
    fn point(&self, p: W) -> W {
        [0, 1, 2].map(|i| self.k[i] * p[i] + self.pos[i])
    }
    fn unpoint(&self, p: W) -> W {
        [0, 1, 2].map(|i| (p[i] - self.pos[i]) / self.k[i])
    }
    fn max(&self) -> f64 {
        self.k.iter().fold(0.0, |m, k| k.abs().max(m))
    }
    fn min(&self) -> f64 {
        self.k.iter().fold(f64::INFINITY, |m, k| k.abs().min(m))
    }
}

fn diagonal<T: Transformation3d + Invertible + Composable>(f: &T, g: &T, df: &Diag, dg: &Diag, p: Vec3) -> Verdict {
    let q = w3(p);
    let (lf, lg, lp) = (len(df.pos), len(dg.pos), len(q));
    let back = 64.0 * EPS * (lf + lp) / df.min();
    for (what, got, w, tol) in [
        ("apply", f.apply(p), df.point(q), 32.0 * EPS * (lf + df.max() * lp)),
        ("unapply", f.unapply(p), df.unpoint(q), back),
        ("inverse().apply", f.inverse().apply(p), df.unpoint(q), back),
        ("inverse().unapply", f.inverse().unapply(p), df.point(q), 64.0 * EPS * (lf * df.max() / df.min() + df.max() * lp)),
        ("inverse().inverse().apply", f.inverse().inverse().apply(p), df.point(q), 128.0 * EPS * (lf * df.max() / df.min() + df.max() * lp)),
    ] {
        ensure!(three::close(got, w, tol), "{}: {what}({p:?}) = {got:?}, expected {w:?}", df.text);
    }
    let w = df.point(dg.point(q));
    let got = f.compose(g).apply(p);
    let tol = 64.0 * EPS * (lf + df.max() * (lg + dg.max() * lp));
    ensure!(three::close(got, w, tol), "{} composed with {} maps {p:?} to {got:?}, one after the other gives {w:?}", df.text, dg.text);
    let w = df.unpoint(dg.point(q));
    let got = f.delta_transform(g).apply(p);
    let tol = 64.0 * EPS * (lf + lg + dg.max() * lp) / df.min();
    ensure!(three::close(got, w, tol), "{}, delta transform to {} maps {p:?} to {got:?}, expected {w:?}", df.text, dg.text);
    Ok(())
}

fn solids(s: &mut Src, ctx: &mut Ctx) -> Verdict {
    ctx.label("3D queries");
    if s.chance(25) {
        three::solids3(s, ctx)
    } else {
        three::points3(s, ctx)
    }
}

fn interop(s: &mut Src, ctx: &mut Ctx) -> Verdict {
    match s.weighted(&[5, 4, 3, 4, 4]) {
        0 => queries(s, ctx),
        1 => view(s, ctx),
        2 => farthest(s, ctx),
        3 => spatial(s, ctx),
        _ => solids(s, ctx),
    }
}

pub static PROPS: [Prop; 1] = [Prop {
    id: "C34",
    words: 105,
    quick: 4_000_000,
    thorough: 150_000_000,
    rule: "a case is one of: a pair of 2D shapes placed by bevy transforms (with any depth, Z scale and quaternion sign) and queried; a bevy transform and a point acted on as a 2D transform; a 2D shape placed by one and a direction; two bevy transforms, their Transform3d and Isotropic3d, and a point; a 3D pair queried through them. Non-trivial = as for the property of the same kind without bevy (C01, C13, C11, C33, C31)",
    assumptions: &["in 2D queries rotations are about Z and scales positive (along Z: not zero, the transform would have no inverse); 3D compositions start with a uniform scale"],
    check: interop,
}];
