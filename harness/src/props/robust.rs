//! C19: every finite input is answered: no panic, no hang, no NaN, also for degenerate shapes.

use crate::ensure;
use crate::gen::*;
use crate::geo::{self, v};
use crate::query::*;
use crate::runner::{Ctx, Prop, Verdict};
use crate::src::Src;
use auburn::col2d::*;

fn degenerate_shape(s: &mut Src, kind: usize, unit: f32) -> (Sh, bool) {
    if s.chance(45) {
        return (shape(s, kind, unit), false);
    }
    let z = |s: &mut Src| match s.weighted(&[3, 1, 1]) {
        0 => 0.0f32,
        1 => length(s) * unit,
        _ => length(s) * unit * 2f64.powf(-s.range(5.0, 30.0)) as f32,
    };
    let sh = match kind {
        0 => Sh::Pt(Point),
        1 => Sh::Ball(Ball::new(z(s))),
        2 => Sh::Box(Box2d::with_halfdims(z(s), z(s))),
        _ => {
            let l = length(s) * unit;
            let pts = match s.weighted(&[1, 2, 2, 2, 2]) {
                // a single point at the origin
                0 => vec![Vec2::ZERO],
                // a segment through the origin
                1 => {
                    let d = Vec2::new(s.sint(3) as f32, s.sint(3) as f32) * l;
                    vec![-d, d]
                }
                // collinear points
                2 => {
                    let d = Vec2::new(s.sint(3) as f32, s.sint(3) as f32) * l;
                    (0..s.int(2, 5)).map(|i| d * (i as f32 - 2.0)).collect()
                }
                // the same points several times
                3 => {
                    let n = s.int(1, 4);
                    let mut p: Vec<Vec2> = (0..n)
                        .map(|_| Vec2::new(s.sint(2) as f32, s.sint(2) as f32) * l)
                        .collect();
                    p.push(Vec2::ZERO);
                    let q = p.clone();
                    p.extend(q);
                    p
                }
                // a sliver
                _ => {
                    let t = l * 2f64.powf(-s.range(5.0, 30.0)) as f32;
                    let d = Vec2::new(s.sint(3) as f32, 1.0) * l;
                    let e = Vec2::new(-d.y, d.x).normalize() * t;
                    vec![d, e, -d, -e]
                }
            };
            Sh::Poly(Poly2d { points: pts })
        }
    };
    (sh, true)
}

fn robust(s: &mut Src, ctx: &mut Ctx) -> Verdict {
    let (ka, kb) = PAIRS[s.weighted(&PAIR_WEIGHTS)];
    let unit = match s.weighted(&[6, 3]) {
        0 => 1.0,
        _ => 10f64.powf(s.range(-8.0, 8.0)) as f32,
    };
    let (a, da) = degenerate_shape(s, ka, unit);
    let (b, db) = degenerate_shape(s, kb, unit);
    let ball_poly = (ka == 1 && kb == 3) || (ka == 3 && kb == 1);
    let union = ball_poly || (ka != 0 && kb != 0 && s.chance(25));
    let mut tb = Tf::ID;
    if s.chance(60) {
        tb.ang = angle(s);
    }
    if s.chance(30) {
        tb.scale = Vec2::splat(2f64.powf(s.range(-4.0, 4.0)) as f32);
    }
    tb.pos = match s.weighted(&[3, 3, 2, 2]) {
        0 => Vec2::ZERO,
        1 => Vec2::new(s.sint(8) as f32, s.sint(8) as f32) * (0.5 * unit),
        2 => Vec2::new(s.sym(8.0) as f32, s.sym(8.0) as f32) * unit,
        _ => {
            let k = 2f64.powf(s.range(-20.0, 20.0));
            Vec2::new(s.sym(k) as f32, s.sym(k) as f32) * unit
        }
    };
    let p = Pair { a, b, ta: Tf::ID, tb, rel: true, union, unit, same_shape: false, same_tf: false };
    p.id(ctx);
    let t = truth(&p);
    ctx.desc(|| format!("{}, signed distance {:e}", p.show(), t.sd));
    ctx.nontrivial = da || db || !t.decisive();
    if da || db {
        ctx.label("degenerate shape");
    }
    if !t.decisive() {
        ctx.label("touching within rounding");
    }
    if unit != 1.0 {
        ctx.label("extreme size");
    }
    let r = run(&p, Rep::Transform);
    let fin = |w: Vec2| w.x.is_finite() && w.y.is_finite();
    ensure!(r.pen.map_or(true, fin), "penetrates returned {:?}", r.pen);
    ensure!(r.dist.map_or(true, fin), "distance_to returned {:?}", r.dist);
    ensure!(fin(r.sdfv.1), "sdfv returned {:?}", r.sdfv);
    let _ = geo::sd(&t.m, v(0.0, 0.0));
    if t.decisive() {
        ensure!(r.collides == t.overlap(), "collides answered {}, but the signed distance is {:e}", r.collides, t.sd);
        ensure!(r.pen.is_some() == t.overlap(), "penetrates answered {:?}, but the signed distance is {:e}", r.pen, t.sd);
        ensure!(r.dist.is_some() != t.overlap(), "distance_to answered {:?}, but the signed distance is {:e}", r.dist, t.sd);
        ensure!(r.sdfv.0 == t.overlap(), "sdfv answered {:?}, but the signed distance is {:e}", r.sdfv, t.sd);
    } else if da || db {
        return Ok(());
    }
    // products of four coordinates are subnormal below
    if t.mag < 1e-9 {
        return Ok(());
    }
    if let Some(w) = r.pen {
        t.vector("penetrates", w)?;
    }
    if let Some(w) = r.dist {
        t.vector("distance_to", w)?;
    }
    t.vector("sdfv", r.sdfv.1)
}

pub static PROPS: [Prop; 1] = [Prop {
    id: "C19",
    words: 60,
    quick: 4_000_000,
    thorough: 60_000_000,
    rule: "cases are pairs whose shapes may be degenerate (zero radius or extent, slivers, collinear, coincident or single points) and may be of sizes 1e-8..1e8, at positions that coincide, touch exactly, or are up to 1e6 sizes away; non-trivial = a shape is degenerate or the pair touches within rounding",
    assumptions: &["finite inputs", "for degenerate shapes touching within rounding only a finite answer is required", "vectors between shapes and at distances all below 1e-9 need only be finite"],
    check: robust,
}];
