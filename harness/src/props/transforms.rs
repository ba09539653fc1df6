//! C13, C14: the algebra of 2D transforms and rotors against an f64 model.

use crate::ensure;
use crate::gen::*;
use crate::geo::{v, V};
use crate::query::EPS;
use crate::runner::{Ctx, Prop, Verdict};
use crate::src::Src;
use auburn::col2d::*;

pub fn close(a: Vec2, b: V, tol: f64) -> bool {
    let d = vf(a) - b;
    d.len() <= tol
}

pub fn show(p: Vec2) -> String {
    format!("({:?}, {:?})", p.x, p.y)
}

pub fn point(s: &mut Src) -> Vec2 {
    let u = unit(s, true);
    match s.weighted(&[1, 3, 4]) {
        0 => Vec2::ZERO,
        1 => Vec2::new(s.sint(6) as f32, s.sint(6) as f32),
        _ => Vec2::new(s.sym(10.0) as f32, s.sym(10.0) as f32) * u,
    }
}

fn scale1(s: &mut Src, neg: bool) -> f32 {
    let k = match s.weighted(&[24, 24, 32, 2, 1]) {
        0 => 1.0f32,
        1 => s.pick(&[2.0f32, 0.5, 4.0, 0.25, 3.0]),
        2 => 2f64.powf(s.range(-5.0, 5.0)) as f32,
        3 => 2f64.powf(s.range(-12.0, 12.0)) as f32,
        _ => 2f64.powf(s.range(-36.0, 36.0)) as f32,
    };
    if neg && s.chance(20) {
        -k
    } else {
        k
    }
}

/// kind: 0 Vec2, 1 Translate2d, 2 AxisTransform2d, 3 Transform2d with one scale, 4 Transform2d
pub fn tf(s: &mut Src, kind: usize) -> Tf {
    let mut t = Tf::ID;
    t.pos = point(s);
    if kind >= 2 {
        t.scale = Vec2::splat(scale1(s, kind == 4));
    }
    if kind >= 3 {
        t.ang = angle(s);
    }
    if kind == 4 {
        t.scale.y = scale1(s, true);
    }
    t
}

pub struct Case {
    pub a: Tf,
    pub b: Tf,
    pub p: Vec2,
    pub d: Vec2,
}

fn mag(t: &Tf, p: V) -> f64 {
    vf(t.pos).len() + t.scale.abs().max_element() as f64 * p.len()
}

pub fn single<T: Transformation2d>(t: &T, m: &Tf, p: Vec2, d: Vec2) -> Verdict {
    let pv = vf(p);
    let tol = 8.0 * EPS * mag(m, pv);
    let q = t.apply(p);
    ensure!(close(q, m.point(pv), tol), "apply({}) = {}, expected {:?}", show(p), show(q), m.point(pv));
    let o = t.apply_origin();
    ensure!(o == m.pos, "apply_origin() = {}, the transform moves the origin to {}", show(o), show(m.pos));
    let smin = m.scale.abs().min_element() as f64;
    let back = t.unapply(q);
    let btol = 3.0 * tol / smin + 8.0 * EPS * pv.len();
    ensure!(close(back, pv, btol), "unapply(apply({})) = {}", show(p), show(back));
    // p taken as a point of the target space
    let u = t.unapply(p);
    let utol = 8.0 * EPS * (pv.len() + vf(m.pos).len()) / smin;
    ensure!(close(u, m.unpoint(pv), utol), "unapply({}) = {}, expected {:?}", show(p), show(u), m.unpoint(pv));
    let dn = t.apply_normal(d);
    let dtol = 8.0 * EPS * vf(d).len();
    ensure!(close(dn, m.dir(vf(d)), dtol), "apply_normal({}) = {}, expected {:?}", show(d), show(dn), m.dir(vf(d)));
    let du = t.unapply_normal(d);
    ensure!(close(du, m.undir(vf(d)), dtol), "unapply_normal({}) = {}, expected {:?}", show(d), show(du), m.undir(vf(d)));
    let dd = t.unapply_normal(dn);
    ensure!(close(dd, vf(d), 2.0 * dtol), "unapply_normal(apply_normal({})) = {}", show(d), show(dd));
    if m.uniform() && m.scale.x > 0.0 {
        ensure!(
            (t.scaling_factor() - m.scale.x).abs() <= 4.0 * f32::EPSILON * m.scale.x,
            "scaling_factor() = {:?}, the transform scales by {:?}",
            t.scaling_factor(),
            m.scale.x
        );
    }
    Ok(())
}

pub fn laws<T: Transformation2d + Invertible + Composable>(a: &T, b: &T, c: &Case) -> Verdict {
    single(a, &c.a, c.p, c.d)?;
    single(b, &c.b, c.p, c.d)?;
    let pv = vf(c.p);
    let (sa, sb) = (
        c.a.scale.abs().min_element() as f64,
        c.b.scale.abs().max_element() as f64,
    );
    let a_inverts = c.a.uniform() || c.a.ang == 0.0;
    if a_inverts {
        let i = a.inverse();
        let tol = 16.0 * EPS * (pv.len() + vf(c.a.pos).len()) / sa;
        let q = i.apply(c.p);
        ensure!(close(q, c.a.unpoint(pv), tol), "inverse().apply({}) = {}, expected {:?}", show(c.p), show(q), c.a.unpoint(pv));
        let back = i.apply(a.apply(c.p));
        let tol = 24.0 * EPS * (mag(&c.a, pv) + vf(c.a.pos).len()) / sa;
        ensure!(close(back, pv, tol), "inverse().apply(apply({})) = {}", show(c.p), show(back));
        let ii = i.inverse().apply(c.p);
        let tol = 24.0 * EPS * (mag(&c.a, pv) * c.a.scale.abs().max_element() as f64 / sa);
        ensure!(close(ii, c.a.point(pv), tol), "inverse().inverse().apply({}) = {}, expected {:?}", show(c.p), show(ii), c.a.point(pv));
    }
    if c.a.uniform() || c.b.ang == 0.0 {
        let q = a.compose(b).apply(c.p);
        let want = c.a.point(c.b.point(pv));
        let tol = 16.0 * EPS * (vf(c.a.pos).len() + c.a.scale.abs().max_element() as f64 * mag(&c.b, pv));
        ensure!(close(q, want, tol), "compose: applying the composition to {} gives {}, applying one after the other {:?}", show(c.p), show(q), want);
        let nested = a.apply(b.apply(c.p));
        ensure!(close(nested, want, tol), "a.apply(b.apply({})) = {}, expected {:?}", show(c.p), show(nested), want);
    }
    if a_inverts && (c.a.uniform() || c.b.ang == 0.0) {
        let q = a.delta_transform(b).apply(c.p);
        let want = c.a.unpoint(c.b.point(pv));
        let tol = 32.0 * EPS * (vf(c.a.pos).len() + vf(c.b.pos).len() + sb * pv.len()) / sa;
        ensure!(close(q, want, tol), "delta_transform: maps {} to {}, expected {:?}", show(c.p), show(q), want);
    }
    // with itself, as one object
    if a_inverts {
        let (smax, pa) = (c.a.scale.abs().max_element() as f64, vf(c.a.pos).len());
        let q = a.compose(a).apply(c.p);
        let want = c.a.point(c.a.point(pv));
        let tol = 16.0 * EPS * (pa + smax * mag(&c.a, pv));
        ensure!(close(q, want, tol), "compose with itself: maps {} to {}, expected {:?}", show(c.p), show(q), want);
        let q = a.delta_transform(a).apply(c.p);
        let tol = 32.0 * EPS * (2.0 * pa + smax * pv.len()) / sa;
        ensure!(close(q, pv, tol), "delta_transform to itself: maps {} to {}", show(c.p), show(q));
    }
    Ok(())
}

fn algebra(s: &mut Src, ctx: &mut Ctx) -> Verdict {
    let kind = s.weighted(&[2, 2, 4, 7, 5, 1]);
    if kind == 5 {
        let (p, d) = (point(s), point(s));
        ctx.label("IdentityTransform and defaults");
        ctx.desc(|| format!("identity transforms at {}", show(p)));
        ctx.idf(p.x);
        ctx.idf(p.y);
        ctx.nontrivial = p != Vec2::ZERO;
        single(&IdentityTransform, &Tf::ID, p, d)?;
        single(&Transform2d::IDENTITY, &Tf::ID, p, d)?;
        single(&Transform2d::default(), &Tf::ID, p, d)?;
        single(&Translate2d::default(), &Tf::ID, p, d)?;
        single(&AxisTransform2d::default(), &Tf::ID, p, d)?;
        return Ok(());
    }
    let c = Case {
        a: tf(s, kind),
        b: tf(s, kind),
        p: point(s),
        d: point(s),
    };
    c.a.id(ctx);
    c.b.id(ctx);
    ctx.id(kind as u64);
    for x in [c.p, c.d] {
        ctx.idf(x.x);
        ctx.idf(x.y);
    }
    const NAMES: [&str; 5] = [
        "Vec2",
        "Translate2d",
        "AxisTransform2d",
        "Transform2d, uniform scale",
        "Transform2d, any scale",
    ];
    ctx.label(NAMES[kind]);
    ctx.desc(|| format!("{}: a {}, b {}, point {}, direction {}", NAMES[kind], c.a.show(), c.b.show(), show(c.p), show(c.d)));
    ctx.nontrivial = c.a != Tf::ID && c.b != Tf::ID && c.a != c.b && c.p != Vec2::ZERO;
    match kind {
        0 => laws(&c.a.pos, &c.b.pos, &c),
        1 => laws(&Translate2d::new(c.a.pos), &Translate2d::from(c.b.pos), &c),
        2 => laws(
            &AxisTransform2d::new(c.a.pos, c.a.scale.x),
            &AxisTransform2d::new(c.b.pos, c.b.scale.x),
            &c,
        ),
        _ => {
            // a with the fields, b with the builders
            let b = Transform2d::from_translation(c.b.pos)
                .with_angle(c.b.ang)
                .with_scale(c.b.scale);
            ensure!(b == c.b.t2d(), "builder from_translation.with_angle.with_scale gives {b:?}, expected {:?}", c.b.t2d());
            let b2 = Transform2d::from_scale(c.b.scale)
                .with_rotation(Rotor2d::from_angle(c.b.ang))
                .with_translation(c.b.pos);
            ensure!(b2 == c.b.t2d(), "builder from_scale.with_rotation.with_translation gives {b2:?}, expected {:?}", c.b.t2d());
            let b3 = Transform2d::from_angle(c.b.ang);
            ensure!(b3 == Transform2d { rot: Rotor2d::from_angle(c.b.ang), ..Transform2d::IDENTITY }, "from_angle gives {b3:?}");
            let b4 = Transform2d::from_rotation(Rotor2d::from_angle(c.b.ang));
            ensure!(b4 == b3, "from_rotation gives {b4:?}, from_angle {b3:?}");
            // each setter replaces its own part of any transform
            let (a, w) = (c.a.t2d(), c.b.t2d());
            for (name, got, want) in [
                ("with_translation", a.clone().with_translation(w.pos), Transform2d { pos: w.pos, ..a.clone() }),
                ("with_angle", a.clone().with_angle(c.b.ang), Transform2d { rot: w.rot, ..a.clone() }),
                ("with_rotation", a.clone().with_rotation(w.rot), Transform2d { rot: w.rot, ..a.clone() }),
                ("with_scale", a.clone().with_scale(w.scale), Transform2d { scale: w.scale, ..a.clone() }),
            ] {
                ensure!(got == want, "{name} makes {got:?} of {a:?}, expected {want:?}");
            }
            laws(&c.a.t2d(), &b, &c)
        }
    }
}

fn wrap(a: f64) -> f64 {
    let t = std::f64::consts::TAU;
    a - t * (a / t).round()
}

fn rotor(s: &mut Src, ctx: &mut Ctx) -> Verdict {
    // now and then an angle of many turns, known only as well as its own last digit
    let wide = |s: &mut Src| {
        if s.chance(4) {
            let e = s.range(1.0, 6.5);
            (s.sym(1.0) * 10f64.powf(e)) as f32
        } else {
            angle(s)
        }
    };
    let (a, b) = (wide(s), wide(s));
    let p = point(s);
    let (ra, rb) = (Rotor2d::from_angle(a), Rotor2d::from_angle(b));
    let turn = |t: f64, p: V| {
        let (sn, cs) = t.sin_cos();
        v(cs * p.x - sn * p.y, sn * p.x + cs * p.y)
    };
    let pv = vf(p);
    ctx.idf(a);
    ctx.idf(b);
    ctx.idf(p.x);
    ctx.idf(p.y);
    let turns = if a.abs() > 100.0 || b.abs() > 100.0 { a.abs().max(b.abs()) as f64 } else { 0.0 };
    let tol = 8.0 * EPS * pv.len() * (1.0 + turns / 4.0);
    let (da, db) = (a as f64, b as f64);
    // a quaternion: a turn about Z with a tilt about an axis of the XY plane
    let quat_kind = s.weighted(&[3, 4, 1]);
    let (tilt, phi) = (s.range(0.0, 2.8), s.sym(std::f64::consts::PI));
    // about X or Y exactly
    let straight = s.chance(25);
    let phi = if straight { s.pick(&[0.0, 0.5, 1.0, -0.5]) * std::f64::consts::PI } else { phi };
    let exact = |x: f64| if straight { x.round() } else { x };
    // nearly upside down
    let tilt = if s.chance(15) { std::f64::consts::PI - 2f64.powf(-s.range(1.0, 16.0)) } else { tilt };
    let flip = s.chance(50);
    ctx.desc(|| {
        format!(
            "rotors of angles {a:?} and {b:?}, point {}, quaternion {}",
            show(p),
            match quat_kind {
                0 => "about Z".into(),
                1 => format!("tilted by {tilt:?} about the XY direction {phi:?}, negated: {flip}"),
                _ => format!("a half turn about the XY direction {phi:?}"),
            }
        )
    });
    ctx.nontrivial = a != 0.0 && b != 0.0 && p != Vec2::ZERO;
    let got = ra * p;
    ensure!(close(got, turn(da, pv), tol), "rotating {} by {a:?} gives {}, expected {:?}", show(p), show(got), turn(da, pv));
    ensure!((vf(got).len() - pv.len()).abs() <= tol, "rotating {} by {a:?} changes its length: {}", show(p), show(got));
    let got = (ra * rb) * p;
    ensure!(close(got, turn(da + db, pv), 2.0 * tol), "rotating {} by the product of rotors gives {}, expected {:?}", show(p), show(got), turn(da + db, pv));
    let got = ra.inverse() * p;
    ensure!(close(got, turn(-da, pv), tol), "the inverse rotor turns {} to {}, expected {:?}", show(p), show(got), turn(-da, pv));
    let got = ra.inverse() * (ra * p);
    ensure!(close(got, pv, 2.0 * tol), "the inverse rotor does not undo the rotor: {} becomes {}", show(p), show(got));
    ensure!(Rotor2d::IDENTITY * p == p && Rotor2d::default() * p == p, "the identity rotor moves {}", show(p));
    let back = ra.angle() as f64;
    ensure!(back.abs() <= 3.1415928, "angle() = {back:?} outside -pi..pi");
    ensure!(wrap(back - da).abs() <= 8.0 * EPS * (1.0 + da.abs()), "angle() = {back:?} for a rotor of angle {a:?}");
    let got = (ra * rb).angle() as f64;
    ensure!(wrap(got - da - db).abs() <= 16.0 * EPS * (1.0 + da.abs() + db.abs()), "the product has angle {got:?}, expected {:?}", wrap(da + db));

    use auburn::Quat;
    let z = |t: f64| Quat::from_xyzw(0.0, 0.0, (t / 2.0).sin() as f32, (t / 2.0).cos() as f32);
    match quat_kind {
        0 => {
            ctx.label("quaternion about Z");
            let q = if flip { -z(da) } else { z(da) };
            let r = Rotor2d::from_quaternion(q);
            let got = r * p;
            ensure!(close(got, turn(da, pv), 3.0 * tol), "from_quaternion of a turn by {a:?} about Z maps {} to {}, expected {:?}", show(p), show(got), turn(da, pv));
        }
        1 => {
            ctx.label("tilted quaternion");
            let h = tilt / 2.0;
            let t = Quat::from_xyzw(
                (h.sin() * exact(phi.cos())) as f32,
                (h.sin() * exact(phi.sin())) as f32,
                0.0,
                h.cos() as f32,
            );
            let q = t * z(da);
            let q = if flip { -q } else { q };
            let r = Rotor2d::from_quaternion(q);
            let got = r * p;
            ensure!((vf(got).len() - pv.len()).abs() <= 4.0 * tol, "from_quaternion({q:?}) is not a rotation: {} of length {} becomes {} of length {}", show(p), pv.len(), show(got), vf(got).len());
            let want = turn(da, pv);
            let tol = tol * 6.0 / h.cos();
            ensure!(close(got, want, tol), "from_quaternion({q:?}) maps {} to {}, the turn about Z alone maps it to {:?}", show(p), show(got), want);
        }
        _ => {
            ctx.label("half turn out of the plane");
            let q = Quat::from_xyzw(exact(phi.cos()) as f32, exact(phi.sin()) as f32, 0.0, 0.0);
            let got = Rotor2d::from_quaternion(q) * p;
            ensure!((vf(got).len() - pv.len()).abs() <= 4.0 * tol, "from_quaternion({q:?}) is not a rotation: {} becomes {}", show(p), show(got));
        }
    }
    Ok(())
}

pub static PROPS: [Prop; 2] = [
    Prop {
        id: "C13",
        words: 40,
        quick: 4_000_000,
        thorough: 200_000_000,
        rule: "a case is two transforms of one kind (Vec2, Translate2d, AxisTransform2d, Transform2d with one scale or independent, possibly negative, scales), a point and a direction; every law is judged on it against an f64 model; non-trivial = both transforms differ from the identity and from each other and the point is not the origin",
        assumptions: &["composition and inversion are not judged where non-uniform scaling meets a rotation (documented as approximate)", "scales are between 2^-36 and 2^36 in size, most of them between 1/32 and 32"],
        check: algebra,
    },
    Prop {
        id: "C14",
        words: 24,
        quick: 4_000_000,
        thorough: 200_000_000,
        rule: "a case is two angles, a point and a quaternion (about Z, tilted up to almost a half turn, or a half turn in the plane; either sign); non-trivial = both angles and the point are non-zero",
        assumptions: &["angles up to 100 radians, some up to 10^5 and then judged to the rounding of the angle itself"],
        check: rotor,
    },
];
