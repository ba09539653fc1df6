//! C01-C05: the 2D queries against the reference geometry.

use crate::ensure;
use crate::gen::*;
use crate::geo;
use crate::query::*;
use crate::runner::{Ctx, Prop, Verdict};
use crate::src::Src;
use auburn::Vec2;

const RULE: &str = "cases are placed pairs of 2D shapes (Point, Ball, Box2d, Poly2d, Shape2d) with translations, rotations and scales, placed on grids, near contact, concentric, deep or far apart; non-trivial = the signed distance of the f64 reference is outside the rounding margin and the shapes are within 1.5 times their combined reach";
const ASSUME: &[&str] = &[
    "polygons contain the origin (documented limitation), are convex and have at least 3 hull vertices",
    "scales are positive, or negative along one axis for the second of two boxes or polygons; balls, and the first collider, are scaled uniformly (C01 also judges the verdicts on unrotated stretched and mirrored ones); queries on pairs within the f32 rounding margin of touching are not judged",
];

/// Stretched and mirrored boxes and polygons: the second in any way, the first while nothing is rotated.
fn stretched(s: &mut Src, ctx: &mut Ctx) -> Verdict {
    let k = s.pick(&[(2, 2), (2, 3), (3, 2), (3, 3), (2, 0), (0, 2), (1, 2)]);
    // a ball can not be stretched, nor be seen from a stretched box
    let rel = k.0 == 1 || s.chance(40);
    let mut p = pair_of(s, Opts { rel: Some(rel), scaled: false, rotated: false, ..ALL }, k);
    // the two transforms become different below
    p.same_tf = false;
    let pos = p.tb.pos - p.ta.pos;
    fn factor(s: &mut Src) -> f32 {
        let f = if s.chance(50) { s.pick(&[1.0f32, 2.0, 0.5, 4.0, 0.25, 3.0]) } else { 2f64.powf(s.range(-4.0, 4.0)) as f32 };
        if s.chance(30) { -f } else { f }
    }
    if k.1 != 0 {
        p.tb.scale = Vec2::new(factor(s), factor(s));
        if rel {
            p.tb.ang = angle(s);
        }
    }
    if !rel && k.0 != 0 {
        p.ta.scale = Vec2::new(factor(s), factor(s));
    }
    // the distance the unscaled shapes were placed at, in units of the reach of the scaled ones
    let (before, after) = (
        p.a.body(&Tf::ID).reach(geo::v(0.0, 0.0)) + p.b.body(&Tf::ID).reach(geo::v(0.0, 0.0)),
        p.a.body(&p.ta).reach(vf(p.ta.pos)) + p.b.body(&p.tb).reach(vf(p.tb.pos)),
    );
    let q = vf(pos) * (after / before);
    p.tb.pos = if k.0 != 0 && !rel && s.chance(40) {
        // on a grid of the first shape
        p.ta.pos + fv(geo::v(q.x * (p.ta.scale.x.abs() as f64), q.y * (p.ta.scale.y.abs() as f64)))
    } else {
        p.ta.pos + fv(q)
    };
    let mut t = truth(&p);
    let (x, y) = (p.ta.scale.x.abs() as f64, p.ta.scale.y.abs() as f64);
    t.margin *= 2.0 * (x / y).max(y / x);
    p.id(ctx);
    ctx.desc(|| format!("{} (Transform), signed distance {:e}", p.show(), t.sd));
    classify(ctx, &p, &t);
    ctx.label("stretched");
    let r = run(&p, Rep::Transform);
    let got = [r.collides, r.pen.is_some(), r.dist.is_none(), r.sdfv.0];
    if t.decisive() {
        ensure!(
            got == [t.overlap(); 4],
            "collides, penetrates, distance_to and sdfv take the shapes as overlapping: {got:?}, but the signed distance is {:e} (margin {:e})",
            t.sd,
            t.margin
        );
    } else {
        ctx.measure("stretched verdict", if got != [t.overlap(); 4] { t.sd.abs() / t.margin } else { 0.0 });
    }
    Ok(())
}

fn collides(s: &mut Src, ctx: &mut Ctx) -> Verdict {
    if s.chance(8) {
        return stretched(s, ctx);
    }
    let (p, rep, t) = case(s, ctx, ALL);
    let r = run(&p, rep);
    if t.decisive() {
        ensure!(
            r.collides == t.overlap(),
            "collides answered {}, but the signed distance is {:e} (margin {:e})",
            r.collides,
            t.sd,
            t.margin
        );
    } else {
        if p.rel && !p.union && matches!((&p.a, &p.b), (Sh::Pt(_), Sh::Pt(_))) {
            let same = p.tb.pos == auburn::Vec2::ZERO;
            ensure!(r.collides == same, "collides answered {} for points at {:?} from each other", r.collides, p.tb.pos);
        }
        ctx.measure("verdict", if r.collides != t.overlap() { t.sd.abs() / (t.mag * EPS) } else { 0.0 });
    }
    Ok(())
}

fn penetrates(s: &mut Src, ctx: &mut Ctx) -> Verdict {
    let (p, rep, t) = case(s, ctx, ALL);
    let r = run(&p, rep);
    if t.decisive() {
        ensure!(
            r.pen.is_some() == t.overlap(),
            "penetrates answered {:?}, but the signed distance is {:e} (margin {:e})",
            r.pen,
            t.sd,
            t.margin
        );
        if let Some(w) = r.pen {
            t.measure(ctx, if p.analytic() { "analytic" } else { "gjk" }, w);
            t.vector("penetrates", w)?;
        }
    } else if let Some(w) = r.pen {
        t.vector("penetrates", w)?;
    }
    Ok(())
}

fn distance_to(s: &mut Src, ctx: &mut Ctx) -> Verdict {
    let (p, rep, t) = case(s, ctx, ALL);
    let r = run(&p, rep);
    if t.decisive() {
        ensure!(
            r.dist.is_some() != t.overlap(),
            "distance_to answered {:?}, but the signed distance is {:e} (margin {:e})",
            r.dist,
            t.sd,
            t.margin
        );
        if let Some(w) = r.dist {
            t.measure(ctx, if p.analytic() { "analytic" } else { "gjk" }, w);
            t.vector("distance_to", w)?;
        }
    } else if let Some(w) = r.dist {
        t.vector("distance_to", w)?;
    }
    Ok(())
}

fn sdfv(s: &mut Src, ctx: &mut Ctx) -> Verdict {
    let (p, rep, t) = case(s, ctx, ALL);
    let r = run(&p, rep);
    if t.decisive() {
        ensure!(
            r.sdfv.0 == t.overlap(),
            "sdfv answered {:?}, but the signed distance is {:e} (margin {:e})",
            r.sdfv,
            t.sd,
            t.margin
        );
        t.measure(ctx, if p.analytic() { "analytic" } else { "gjk" }, r.sdfv.1);
    }
    t.vector("sdfv", r.sdfv.1)
}

pub static PROPS: [Prop; 4] = [
    Prop { id: "C01", words: 90, quick: 5_000_000, thorough: 150_000_000, rule: RULE, assumptions: ASSUME, check: collides },
    Prop { id: "C02", words: 90, quick: 5_000_000, thorough: 150_000_000, rule: RULE, assumptions: ASSUME, check: penetrates },
    Prop { id: "C03", words: 90, quick: 5_000_000, thorough: 150_000_000, rule: RULE, assumptions: ASSUME, check: distance_to },
    Prop { id: "C04", words: 90, quick: 5_000_000, thorough: 150_000_000, rule: RULE, assumptions: ASSUME, check: sdfv },
];
