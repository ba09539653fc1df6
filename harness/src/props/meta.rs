//! C05-C09, C17, C20: relations between queries.

use crate::ensure;
use crate::gen::*;
use crate::geo::v;
use crate::query::*;
use crate::runner::{Ctx, Prop, Verdict};
use crate::src::Src;
use crate::with_pair;
use auburn::col2d::*;

/// C05: the four queries tell one story.
fn agreement(s: &mut Src, ctx: &mut Ctx) -> Verdict {
    let (p, rep, t) = case(s, ctx, ALL);
    let r = run(&p, rep);
    if t.decisive() || p.analytic() {
        ensure!(
            r.pen.is_some() == r.collides && r.dist.is_some() != r.collides && r.sdfv.0 == r.collides,
            "the queries contradict each other: collides {}, penetrates {:?}, distance_to {:?}, sdfv {:?}",
            r.collides, r.pen, r.dist, r.sdfv
        );
    }
    // the vector of sdfv does what the vector of the other query does
    let other = if r.sdfv.0 { r.pen } else { r.dist };
    if let Some(w) = other {
        let (a, b) = (vf(w), vf(r.sdfv.1));
        if p.analytic() {
            // one rotation and scaling apart, in whatever order they are applied
            let slack = t.tol().max(8.0 * f32::EPSILON as f64 * a.len());
            ensure!(
                (a - b).len() <= slack,
                "sdfv answered {:?}, the separate query {w:?}", r.sdfv.1
            );
        } else {
            ensure!(
                (a.len() - b.len()).abs() <= 2.0 * t.tol(),
                "sdfv answered {:?} of length {:e}, the separate query {w:?} of length {:e}",
                r.sdfv.1, b.len(), a.len()
            );
        }
    }
    Ok(())
}

fn sdf_rel<A: SdfRel2d<B>, B>(a: &A, b: &B, p: &Pair, rep: Rep) -> f32 {
    match rep {
        Rep::Transform => a.sdf_rel(b, &p.tb.t2d()),
        Rep::Vector => a.sdf_rel(b, &p.tb.pos),
        Rep::Translate => a.sdf_rel(b, &Translate2d::from(p.tb.pos)),
        Rep::Axis => a.sdf_rel(b, &axis(&p.tb)),
        Rep::User => a.sdf_rel(b, &Turned::from(&p.tb)),
    }
}

fn sdf_col<A: SdfRel2d<B>, B>(a: &A, b: &B, p: &Pair, rep: Rep) -> f32 {
    fn go<A: SdfRel2d<B>, B, T: Transformation2d + DeltaTransform>(a: &A, ta: &T, b: &B, tb: &T) -> f32 {
        Collider2d::new(a, ta).sdf(Collider2d::new(b, tb))
    }
    match rep {
        Rep::Transform => go(a, &p.ta.t2d(), b, &p.tb.t2d()),
        Rep::Vector => go(a, &p.ta.pos, b, &p.tb.pos),
        Rep::Translate => go(a, &Translate2d::from(p.ta.pos), b, &Translate2d::from(p.tb.pos)),
        Rep::Axis => go(a, &axis(&p.ta), b, &axis(&p.tb)),
        Rep::User => go(a, &Turned::from(&p.ta), b, &Turned::from(&p.tb)),
    }
}

/// C06: the scalar signed distance.
fn scalar(s: &mut Src, ctx: &mut Ctx) -> Verdict {
    const SDF_PAIRS: [(usize, usize); 5] = [(2, 1), (2, 0), (1, 1), (1, 0), (0, 0)];
    let k = s.weighted(&[5, 4, 3, 3, 1]);
    let p = pair_of(s, Opts { union: false, ..ALL }, SDF_PAIRS[k]);
    let rs = reps(&p);
    let rep = rs[s.below(rs.len())];
    let t = truth(&p);
    p.id(ctx);
    ctx.id(rep as u64);
    ctx.desc(|| format!("{} ({rep:?}), signed distance {:e}", p.show(), t.sd));
    classify(ctx, &p, &t);
    let sdf = |a: &dyn Fn(&Pair, Rep) -> f32| a(&p, rep);
    use Sh::*;
    let got = match (&p.a, &p.b) {
        (Box(x), Ball(y)) => sdf(&|p, r| if p.rel { sdf_rel(x, y, p, r) } else { sdf_col(x, y, p, r) }),
        (Box(x), Pt(y)) => sdf(&|p, r| if p.rel { sdf_rel(x, y, p, r) } else { sdf_col(x, y, p, r) }),
        (Ball(x), Ball(y)) => sdf(&|p, r| if p.rel { sdf_rel(x, y, p, r) } else { sdf_col(x, y, p, r) }),
        (Ball(x), Pt(y)) => sdf(&|p, r| if p.rel { sdf_rel(x, y, p, r) } else { sdf_col(x, y, p, r) }),
        (Pt(x), Pt(y)) => sdf(&|p, r| if p.rel { sdf_rel(x, y, p, r) } else { sdf_col(x, y, p, r) }),
        _ => unreachable!(),
    } as f64;
    ctx.measure("sdf", (got - t.sd).abs() / (t.mag * EPS));
    // squares of lengths below 1e-19 are not representable
    let tol = 1e-6 * t.sd.abs() + t.slack + 1.2e-19;
    ensure!((got - t.sd).abs() <= tol, "sdf answered {got:e}, the signed distance is {:e} (tolerance {tol:e})", t.sd);
    Ok(())
}

/// C07: swapping the operands keeps the verdict and reverses the vector.
fn symmetry(s: &mut Src, ctx: &mut Ctx) -> Verdict {
    let (p, rep, t) = case(s, ctx, Opts { rel: Some(false), nonuniform: false, ..ALL });
    let q = Pair {
        a: p.b.clone(),
        b: p.a.clone(),
        ta: p.tb,
        tb: p.ta,
        ..p.clone()
    };
    let (r, w) = (run(&p, rep), run(&q, rep));
    // one order may have a closed formula where the other iterates
    let (tq, tol) = (truth(&q), t.tol());
    if t.decisive() && tq.decisive() {
        ensure!(
            r.collides == w.collides && r.pen.is_some() == w.pen.is_some() && r.dist.is_some() == w.dist.is_some() && r.sdfv.0 == w.sdfv.0,
            "the verdict depends on the order of the operands: {r:?} against {w:?}"
        );
    }
    for (name, x, y) in [
        ("penetrates", r.pen, w.pen),
        ("distance_to", r.dist, w.dist),
        ("sdfv", Some(r.sdfv.1), Some(w.sdfv.1)),
    ] {
        let (Some(x), Some(y)) = (x, y) else { continue };
        ensure!(
            (vf(x).len() - vf(y).len()).abs() <= tol + tq.tol(),
            "{name} answers {x:?} of length {:e}, with swapped operands {y:?} of length {:e}",
            vf(x).len(), vf(y).len()
        );
        // Moving b by y must do for the pair what moving a by -y does.
        let loose = Truth { m: t.m.clone(), rel: t.rel.max(tq.rel), slack: t.slack.max(tq.slack), ..t };
        loose.vector(&format!("with swapped operands, the reverse of what {name}"), -y)?;
    }
    Ok(())
}

/// C08: moving, turning or scaling the whole scene moves, turns and scales the answers with it.
fn invariance(s: &mut Src, ctx: &mut Ctx) -> Verdict {
    let mut p = pair(s, Opts { rel: Some(false), ..ALL });
    let ang = angle(s);
    let k = match s.weighted(&[3, 2, 2]) {
        0 => 1.0f32,
        1 => s.pick(&[2.0f32, 0.5, 4.0, 0.25]),
        _ => 2f64.powf(s.range(-4.0, 4.0)) as f32,
    };
    let reach = p.bodies().0.reach(vf(p.ta.pos)) + p.bodies().1.reach(vf(p.ta.pos));
    let far = reach * s.pick(&[0.0, 1.0, 10.0, 300.0]);
    let shift = v(s.sym(far), s.sym(far));
    if p.analytic() && s.chance(10) {
        p.union = false;
    }
    let scene = Tf {
        pos: fv(shift),
        ang,
        scale: Vec2::splat(k),
    };
    let moved = |t: &Tf| Tf {
        pos: fv(scene.point(vf(t.pos))),
        ang: (t.ang as f64 + ang as f64) as f32,
        scale: t.scale * k,
    };
    let q = Pair {
        ta: moved(&p.ta),
        tb: moved(&p.tb),
        ..p.clone()
    };
    p.id(ctx);
    scene.id(ctx);
    let t = truth(&p);
    // rounding of the moved positions and angles counts as input error
    let tq = truth(&q);
    let noise = 4.0 * EPS * (tq.mag + far * k as f64) / k as f64 * (1.0 + (p.ta.ang.abs() + p.tb.ang.abs() + ang.abs()) as f64);
    ctx.desc(|| format!("{}, signed distance {:e}; the scene moved by {}", p.show(), t.sd, scene.show()));
    classify(ctx, &p, &t);
    ctx.nontrivial = ctx.nontrivial && scene != Tf::ID;
    let (r, w) = (run(&p, Rep::Transform), run(&q, Rep::Transform));
    let margin = t.margin + tq.margin / k as f64 + noise;
    if t.sd.abs() > margin {
        ensure!(
            r.collides == w.collides && r.pen.is_some() == w.pen.is_some() && r.dist.is_some() == w.dist.is_some() && r.sdfv.0 == w.sdfv.0,
            "the verdict changes with the scene: {r:?} against {w:?}"
        );
    }
    let loose = Truth {
        slack: t.slack + tq.slack / k as f64 + noise,
        m: t.m.clone(),
        ..t
    };
    for (name, y) in [("penetrates", w.pen), ("distance_to", w.dist), ("sdfv", Some(w.sdfv.1))] {
        let Some(y) = y else { continue };
        let y = scene.undir(vf(y)) * (1.0 / k as f64);
        loose.vector(&format!("in the moved scene {name}, brought back,"), fv(y))?;
    }
    Ok(())
}

/// C09: every way to pose a query and every representation of a transform.
fn forms(s: &mut Src, ctx: &mut Ctx) -> Verdict {
    let mut o = ALL;
    // half of the cases expressible by all representations
    if s.chance(50) {
        o.rotated = false;
        o.scaled = s.chance(50);
    }
    o.rel = Some(false);
    let p = pair(s, o);
    let t = truth(&p);
    let rs = reps(&p);
    p.id(ctx);
    ctx.desc(|| format!("{}, signed distance {:e}, in every form", p.show(), t.sd));
    classify(ctx, &p, &t);
    if rs.len() > 1 {
        ctx.label("several representations");
    }
    let (ta, tb) = (p.ta.t2d(), p.tb.t2d());
    let r = run(&p, Rep::Transform);
    // struct literal, constructor, tuple: the very same answer
    let (tuple, built) = with_pair!(&p, |x, y| {
        let (a, b) = ((x, &ta), (y, &tb));
        (
            Res {
                collides: a.collides(b),
                pen: a.penetrates(b),
                dist: a.distance_to(b),
                sdfv: a.sdfv(b),
            },
            {
                let (a, b) = (Collider2d::new(x, &ta), Collider2d::from((y, &tb)));
                let (a, b) = (a.clone(), b);
                Res {
                    collides: a.collides(b),
                    pen: a.penetrates((y, &tb)),
                    dist: (x, &ta).distance_to(b),
                    sdfv: a.sdfv(b),
                }
            },
        )
    });
    let same = |a: &Res, b: &Res| {
        let bits = |w: Vec2| (w.x.to_bits(), w.y.to_bits());
        a.collides == b.collides
            && a.pen.map(bits) == b.pen.map(bits)
            && a.dist.map(bits) == b.dist.map(bits)
            && a.sdfv.0 == b.sdfv.0
            && bits(a.sdfv.1) == bits(b.sdfv.1)
    };
    ensure!(same(&r, &tuple), "two colliders answer {r:?}, the same as (shape, transform) tuples {tuple:?}");
    ensure!(same(&r, &built), "two colliders answer {r:?}, the same built by constructors {built:?}");
    // The relative query answers in a's space.
    let rel = ta.delta_transform(&tb);
    let loc = with_pair!(&p, |x, y| q_rel(x, y, &rel));
    let back = |w: Vec2| ta.scaling_factor() * ta.apply_normal(w);
    let world = Res {
        collides: loc.collides,
        pen: loc.pen.map(back),
        dist: loc.dist.map(back),
        sdfv: (loc.sdfv.0, back(loc.sdfv.1)),
    };
    judge(&t, "the query with the relative transform", &r, &world)?;
    for rep in &rs[1..] {
        judge(&t, &format!("{rep:?}"), &r, &run(&p, *rep))?;
    }
    if s.chance(8) {
        // both shapes about the origin, and no transform at all
        ctx.label("identity");
        let p = Pair { ta: Tf::ID, tb: Tf::ID, rel: true, union: false, same_tf: false, ..p.clone() };
        let i = &IdentityTransform;
        use Sh::*;
        let w = match (&p.a, &p.b) {
            (Pt(x), Pt(y)) => q_rel(x, y, i),
            (Ball(x), Pt(y)) => q_rel(x, y, i),
            (Ball(x), Ball(y)) => q_rel(x, y, i),
            (Box(x), Pt(y)) => q_rel(x, y, i),
            (Box(x), Ball(y)) => q_rel(x, y, i),
            (Box(x), Box(y)) => q_rel(x, y, i),
            (Box(x), Poly(y)) => q_rel(x, y, i),
            (Poly(x), Box(y)) => q_rel(x, y, i),
            (Poly(x), Poly(y)) => q_rel(x, y, i),
            _ => return Ok(()),
        };
        judge(&truth(&p), "IdentityTransform", &run(&p, Rep::Vector), &w)?;
    }
    Ok(())
}

fn judge(t: &Truth, name: &str, r: &Res, w: &Res) -> Verdict {
    if t.decisive() {
        ensure!(
            r.collides == w.collides && r.pen.is_some() == w.pen.is_some() && r.dist.is_some() == w.dist.is_some() && r.sdfv.0 == w.sdfv.0,
            "the verdict depends on the form of the query: {r:?}, by {name} {w:?}"
        );
    }
    if let Some(x) = w.pen {
        t.vector(&format!("by {name}, penetrates"), x)?;
    }
    if let Some(x) = w.dist {
        t.vector(&format!("by {name}, distance_to"), x)?;
    }
    t.vector(&format!("by {name}, sdfv"), w.sdfv.1)
}

/// C17: a shape inside `Shape2d` answers like the shape itself.
fn union(s: &mut Src, ctx: &mut Ctx) -> Verdict {
    const OWN: [(usize, usize); 7] = [(2, 2), (2, 1), (1, 1), (1, 2), (3, 3), (3, 2), (2, 3)];
    let pr = s.pick(&OWN);
    let mut p = pair_of(s, Opts { union: false, ..ALL }, pr);
    p.union = false;
    let t = truth(&p);
    p.id(ctx);
    ctx.desc(|| format!("{}, signed distance {:e}, as themselves and as Shape2d", p.show(), t.sd));
    classify(ctx, &p, &t);
    let r = run(&p, Rep::Transform);
    let u = Pair { union: true, ..p.clone() };
    let tu = truth(&u);
    let w = run(&u, Rep::Transform);
    judge(&tu, "Shape2d", &r, &w)?;
    super::shapes::in_union(s, ctx, &p.a, &p.ta)?;
    super::shapes::in_union(s, ctx, &p.b, &p.tb)?;
    // constructors of the union
    let (c, ok) = match &p.a {
        Sh::Ball(b) => {
            let c = Shape2d::ball(b.radius);
            let ok = matches!(&c, Shape2d::Ball(x) if x == b);
            (c, ok)
        }
        Sh::Box(b) => {
            let c = Shape2d::rect(b.halfsize.x, b.halfsize.y);
            let ok = matches!(&c, Shape2d::Box2d(x) if x == b);
            (c, ok)
        }
        Sh::Poly(b) => {
            let c = Shape2d::poly(&b.points);
            let ok = matches!(&c, Shape2d::Poly2d(x) if x.points == b.points);
            (c, ok)
        }
        Sh::Pt(_) => unreachable!(),
    };
    ensure!(ok, "the constructor of {} made {c:?}", p.a.show());
    Ok(())
}

/// C20: queries are pure: the same answer whatever was asked before, on any thread, and silent.
thread_local! {
    static MAP: Tilemap = {
        let mut m = Tilemap::default();
        for (x, y, t) in [(0, 0, 1), (3, -2, 200), (-4, 5, 2), (1, 0, 1)] {
            m.set_tile(lk_math::vector::V2i32::from_xy(x, y), t);
        }
        m
    };
}

/// What the other 2D queries say about the placements of a pair.
fn others(p: &Pair) -> String {
    let (ta, tb) = (p.ta.t2d(), p.tb.t2d());
    let d = tb.pos - ta.pos + Vec2::new(0.0, 1e-3);
    let ends = with_pair!(p, |x, y| (x.extreme_point_t(&ta, d), y.extreme_point_t(&tb, -d)));
    let (ball, rect) = (Ball::new(0.7), Box2d::with_halfdims(0.6, 1.3));
    let sdf = [
        Collider2d::new(&rect, &ta).sdf(Collider2d::new(&ball, &tb)),
        Collider2d::new(&rect, &ta).sdf(Collider2d::new(&Point, &tb)),
        Collider2d::new(&ball, &ta).sdf(Collider2d::new(&ball, &tb)),
        Collider2d::new(&ball, &ta).sdf(Collider2d::new(&Point, &tb)),
    ];
    let near = |v: Vec2| Vec2::new(v.x % 8.0, v.y % 8.0);
    let map = MAP.with(|m| {
        (
            Collider2d::new(m, &near(ta.pos)).collides(Collider2d::new(&Point, &near(tb.pos))),
            Collider2d::new(m, &near(ta.pos)).penetrates(Collider2d::new(&Point, &near(tb.pos))),
            m.simple_resolve_ball(&ball, near(tb.pos), &d),
            m.simple_resolve_box(&rect, near(tb.pos), &d),
        )
    });
    let bbox = |sh: &Sh| match sh {
        Sh::Pt(x) => x.symmetric_bounding_box(),
        Sh::Ball(x) => x.symmetric_bounding_box(),
        Sh::Box(x) => x.symmetric_bounding_box(),
        Sh::Poly(x) => x.symmetric_bounding_box(),
    };
    let boxes = (bbox(&p.a), bbox(&p.b));
    format!("extreme points {ends:?}, bounding boxes {boxes:?}, signed distances {sdf:?}, tilemap {map:?}")
}

fn pure(s: &mut Src, ctx: &mut Ctx) -> Verdict {
    let _one = crate::runner::quiet_lock();
    let before = crate::runner::output_len();
    let n = s.int(2, 6) as usize;
    let pairs: Vec<(Pair, Rep)> = (0..n)
        .map(|_| {
            let p = pair(s, ALL);
            let rs = reps(&p);
            let rep = rs[s.below(rs.len())];
            p.id(ctx);
            (p, rep)
        })
        .collect();
    let order: Vec<usize> = (0..2 * n).map(|_| s.below(n)).collect();
    ctx.desc(|| {
        format!(
            "asked in the order {order:?}: {}",
            pairs.iter().map(|p| p.0.show()).collect::<Vec<_>>().join(" | ")
        )
    });
    ctx.nontrivial = order.iter().any(|i| order[0] != *i);
    let ask = |p: &Pair, rep: Rep| format!("{:?}, {}", run(p, rep), others(p));
    let first: Vec<String> = pairs.iter().map(|(p, rep)| ask(p, *rep)).collect();
    for ((p, rep), f) in pairs.iter().zip(&first).filter(|((p, _), _)| p.same_shape || p.same_tf) {
        ctx.label("one object twice");
        let two = ask(&Pair { same_shape: false, same_tf: false, ..p.clone() }, *rep);
        ensure!(two == *f, "with equal, but not the same objects the answer changes from {f} to {two} for {}", p.show());
    }
    // an odd number of other queries now and then
    let between = |k: usize| {
        let (unit, rel) = (Box2d::with_halfdims(1.0, 1.0), Vec2::ZERO);
        for j in 0..k {
            let _ = if j % 2 == 0 { unit.collides_rel(&unit, &rel) } else { unit.penetrates_rel(&unit, &rel).is_some() };
        }
    };
    for i in &order {
        if s.chance(25) {
            between(s.below(4));
        }
        let again = ask(&pairs[*i].0, pairs[*i].1);
        ensure!(again == first[*i], "asked again, the answer changed from {} to {again} for {}", first[*i], pairs[*i].0.show());
    }
    if s.chance(25) {
        // an object changed in place answers like a new one
        ctx.label("changed in place");
        let k = s.below(n);
        let rep = pairs[k].1;
        let by = s.pick(&[0.5f32, 0.75, 2.0]);
        let mut p = pairs[k].0.clone();
        let one = ask(&p, rep);
        for sh in [&mut p.a, &mut p.b] {
            match sh {
                Sh::Pt(_) => (),
                Sh::Ball(x) => x.radius *= by,
                Sh::Box(x) => x.halfsize.y *= by,
                Sh::Poly(x) => x.points.iter_mut().for_each(|q| q.x *= by),
            }
        }
        let two = ask(&p, rep);
        let new = p.clone();
        let fresh = ask(&new, rep);
        ensure!(one == first[k], "a copy answers {one}, not {} for {}", first[k], pairs[k].0.show());
        ensure!(two == fresh, "after being changed in place by {by} it answers {two}, a new one {fresh} for {}", p.show());
    }
    if s.chance(3) {
        ctx.label("other threads");
        let bad = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..2)
                .map(|k| {
                    let (pairs, first) = (&pairs, &first);
                    sc.spawn(move || {
                        (0..pairs.len()).map(|i| (i + k) % pairs.len()).find(|&i| {
                            ask(&pairs[i].0, pairs[i].1) != first[i]
                        })
                    })
                })
                .collect();
            hs.into_iter().filter_map(|h| h.join().expect("query panicked on another thread")).next()
        });
        ensure!(bad.is_none(), "on another thread the answer for {} differs", pairs[bad.unwrap()].0.show());
    }
    let after = crate::runner::output_len();
    ensure!(before == after, "the queries wrote {} bytes to the standard output or error stream", after - before);
    Ok(())
}

const RULE: &str = "cases are placed pairs as for C01; non-trivial = the signed distance of the f64 reference is outside the rounding margin and the shapes are within 1.5 times their combined reach";
const ASSUME: &[&str] = &[
    "polygons contain the origin, are convex and have at least 3 hull vertices; scales are positive; balls, and the first collider, are scaled uniformly",
];

pub static PROPS: [Prop; 7] = [
    Prop { id: "C05", words: 90, quick: 4_000_000, thorough: 150_000_000, rule: RULE, assumptions: ASSUME, check: agreement },
    Prop { id: "C06", words: 60, quick: 5_000_000, thorough: 200_000_000, rule: RULE, assumptions: ASSUME, check: scalar },
    Prop { id: "C07", words: 90, quick: 3_000_000, thorough: 120_000_000, rule: RULE, assumptions: ASSUME, check: symmetry },
    Prop { id: "C08", words: 100, quick: 3_000_000, thorough: 120_000_000, rule: RULE, assumptions: ASSUME, check: invariance },
    Prop { id: "C09", words: 90, quick: 3_000_000, thorough: 120_000_000, rule: RULE, assumptions: ASSUME, check: forms },
    Prop { id: "C17", words: 90, quick: 3_000_000, thorough: 120_000_000, rule: RULE, assumptions: ASSUME, check: union },
    Prop { id: "C20", words: 400, quick: 150_000, thorough: 4_000_000, rule: "a case is 2..6 placed pairs queried once each and then again in a generated order (sometimes on other threads), with the standard streams captured; non-trivial = at least two different pairs take turns", assumptions: ASSUME, check: pure },
];
