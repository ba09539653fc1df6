//! Reference geometry in f64: convex bodies as (hull vertices, radius), independent of auburn.

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct V {
    pub x: f64,
    pub y: f64,
}

pub fn v(x: f64, y: f64) -> V {
    V { x, y }
}

impl V {
    pub fn dot(self, o: V) -> f64 {
        self.x * o.x + self.y * o.y
    }
    pub fn cross(self, o: V) -> f64 {
        self.x * o.y - self.y * o.x
    }
    pub fn len(self) -> f64 {
        self.x.hypot(self.y)
    }
    pub fn unit(self) -> V {
        let l = self.len();
        if l > 0.0 {
            self * (1.0 / l)
        } else {
            v(1.0, 0.0)
        }
    }
    pub fn finite(self) -> bool {
        self.x.is_finite() && self.y.is_finite()
    }
}

impl std::ops::Add for V {
    type Output = V;
    fn add(self, o: V) -> V {
        v(self.x + o.x, self.y + o.y)
    }
}
impl std::ops::Sub for V {
    type Output = V;
    fn sub(self, o: V) -> V {
        v(self.x - o.x, self.y - o.y)
    }
}
impl std::ops::Neg for V {
    type Output = V;
    fn neg(self) -> V {
        v(-self.x, -self.y)
    }
}
impl std::ops::Mul<f64> for V {
    type Output = V;
    fn mul(self, k: f64) -> V {
        v(self.x * k, self.y * k)
    }
}

/// The set of points within `r` of the convex hull of `pts` (hull vertices, counter-clockwise).
#[derive(Clone, Debug)]
pub struct Body {
    pub pts: Vec<V>,
    pub r: f64,
}

/// Convex hull, counter-clockwise, without collinear points.
pub fn hull(mut p: Vec<V>) -> Vec<V> {
    // -0.0 and 0.0 are the same coordinate
    for q in &mut p {
        *q = v(q.x + 0.0, q.y + 0.0);
    }
    p.sort_by(|a, b| a.x.total_cmp(&b.x).then(a.y.total_cmp(&b.y)));
    p.dedup();
    if p.len() < 3 {
        return p;
    }
    let mut h: Vec<V> = Vec::with_capacity(p.len() + 1);
    for pass in 0..2 {
        let start = h.len();
        for i in 0..p.len() {
            let q = if pass == 0 { p[i] } else { p[p.len() - 1 - i] };
            while h.len() >= start + 2
                && (h[h.len() - 1] - h[h.len() - 2]).cross(q - h[h.len() - 1]) <= 0.0
            {
                h.pop();
            }
            h.push(q);
        }
        h.pop();
    }
    h
}

impl Body {
    pub fn new(pts: Vec<V>, r: f64) -> Body {
        Body { pts: hull(pts), r }
    }

    /// Largest distance of a point of the body from `o`.
    pub fn reach(&self, o: V) -> f64 {
        self.pts.iter().map(|p| (*p - o).len()).fold(0.0, f64::max) + self.r
    }

    /// Support value in the unit direction `d`.
    pub fn support(&self, d: V) -> f64 {
        self.pts
            .iter()
            .map(|p| p.dot(d))
            .fold(f64::NEG_INFINITY, f64::max)
            + self.r * d.len()
    }

    pub fn translated(&self, t: V) -> Body {
        Body {
            pts: self.pts.iter().map(|p| *p + t).collect(),
            r: self.r,
        }
    }
}

fn start(p: &[V]) -> usize {
    (0..p.len())
        .min_by(|&i, &j| p[i].y.total_cmp(&p[j].y).then(p[i].x.total_cmp(&p[j].x)))
        .unwrap()
}

/// Minkowski difference `a - b`.
pub fn diff(a: &Body, b: &Body) -> Body {
    let r = a.r + b.r;
    let nb: Vec<V> = b.pts.iter().map(|q| -*q).collect();
    if a.pts.len() < 3 || nb.len() < 3 || a.pts.len() * nb.len() <= 24 {
        let mut s = Vec::with_capacity(a.pts.len() * nb.len());
        for &p in &a.pts {
            for &q in &nb {
                s.push(p + q);
            }
        }
        return Body { pts: hull(s), r };
    }
    // Merge the edges of both counter-clockwise polygons by angle.
    let (p, q) = (&a.pts, &nb);
    let (sp, sq) = (start(p), start(q));
    let (n, m) = (p.len(), q.len());
    let (mut i, mut j) = (0, 0);
    let mut s = Vec::with_capacity(n + m);
    while i < n || j < m {
        s.push(p[(sp + i) % n] + q[(sq + j) % m]);
        let ep = p[(sp + i + 1) % n] - p[(sp + i) % n];
        let eq = q[(sq + j + 1) % m] - q[(sq + j) % m];
        let c = if i == n {
            -1.0
        } else if j == m {
            1.0
        } else {
            ep.cross(eq)
        };
        if c >= 0.0 && i < n {
            i += 1;
        }
        if c <= 0.0 && j < m {
            j += 1;
        }
    }
    Body { pts: hull(s), r }
}

/// Signed distance from `o` to the boundary of the body (negative inside).
pub fn sd(m: &Body, o: V) -> f64 {
    let n = m.pts.len();
    if n == 1 {
        return (m.pts[0] - o).len() - m.r;
    }
    let mut dist = f64::INFINITY;
    let mut inside = n >= 3;
    // whether the body has an inside
    let mut wide = false;
    for i in 0..n {
        let a = m.pts[i] - o;
        let b = m.pts[(i + 1) % n] - o;
        let ab = b - a;
        let l = ab.len();
        if l == 0.0 {
            continue;
        }
        let t = (-a.dot(ab) / (l * l)).clamp(0.0, 1.0);
        dist = dist.min((a + ab * t).len());
        // the line through an edge much shorter than its coordinates says nothing about far points
        let noise = 4e-16 * (a.len() * b.len() + (m.pts[i].len() + o.len()) * (a.len() + b.len())) / l;
        let s = a.cross(b) / l;
        if s < -noise {
            inside = false;
        }
        wide |= s > noise;
    }
    if inside && wide {
        -dist - m.r
    } else {
        dist - m.r
    }
}
