//! Reference geometry: everything the oracles need to know about lattices and crystals, written
//! from the definitions and without calling the code under test.
use crystsymm::structure::Structure;
use nalgebra::{Matrix3, Vector3};

pub type M = Matrix3<f64>;
pub type V = Vector3<f64>;
pub type IM = Matrix3<i64>;

/// A crystal: lattice columns (Å), species and fractional coordinates of one cell.
#[derive(Clone, Debug)]
pub struct Crystal {
    pub lat: M,
    pub sp: Vec<String>,
    pub frac: Vec<V>,
}

impl Crystal {
    pub fn n(&self) -> usize {
        self.sp.len()
    }
    pub fn cart(&self) -> Vec<V> {
        self.frac.iter().map(|f| self.lat * f).collect()
    }
    pub fn structure(&self, cart: bool) -> Structure {
        if cart {
            Structure::new(self.lat, self.sp.clone(), self.cart(), true)
        } else {
            Structure::new(self.lat, self.sp.clone(), self.frac.clone(), false)
        }
    }
    pub fn of(s: &Structure) -> Crystal {
        Crystal { lat: s.lattice, sp: s.species.clone(), frac: s.frac_coords.clone() }
    }
}

pub fn inv(m: &M) -> M {
    // adjugate / determinant, written out so the oracle shares no inversion routine with the code
    let (a, b, c) = (m.column(0).into_owned(), m.column(1).into_owned(), m.column(2).into_owned());
    let det = a.dot(&b.cross(&c));
    let r0 = b.cross(&c) / det;
    let r1 = c.cross(&a) / det;
    let r2 = a.cross(&b) / det;
    M::from_rows(&[r0.transpose(), r1.transpose(), r2.transpose()])
}

pub fn det(m: &M) -> f64 {
    m.column(0).dot(&m.column(1).cross(&m.column(2)))
}

pub fn idet(m: &IM) -> i64 {
    m[(0, 0)] * (m[(1, 1)] * m[(2, 2)] - m[(1, 2)] * m[(2, 1)])
        - m[(0, 1)] * (m[(1, 0)] * m[(2, 2)] - m[(1, 2)] * m[(2, 0)])
        + m[(0, 2)] * (m[(1, 0)] * m[(2, 1)] - m[(1, 1)] * m[(2, 0)])
}

pub fn to_f(m: &IM) -> M {
    m.map(|x| x as f64)
}

pub fn round_im(m: &M) -> IM {
    m.map(|x| x.round() as i64)
}

/// Largest deviation of any entry from an integer.
pub fn int_dev(m: &M) -> f64 {
    m.iter().map(|x| if x.is_finite() { (x - x.round()).abs() } else { f64::INFINITY }).fold(0.0, f64::max)
}

pub fn near(v: &V) -> V {
    v.map(|x| x - x.round())
}

pub fn max_abs(m: &M) -> f64 {
    m.iter().fold(0.0, |a: f64, x| if x.is_finite() { a.max(x.abs()) } else { f64::INFINITY })
}

pub fn finite(m: &M) -> bool {
    m.iter().all(|x| x.is_finite())
}

/// Minkowski-reduced basis (Semaev's greedy algorithm), columns ordered by length.
pub fn minkowski(m: &M) -> M {
    let mut v: Vec<V> = (0..3).map(|i| m.column(i).into_owned()).collect();
    for _ in 0..10_000 {
        v.sort_by(|a, b| a.norm_squared().partial_cmp(&b.norm_squared()).unwrap());
        // Gauss step on the two shortest
        let k = (v[0].dot(&v[1]) / v[0].norm_squared()).round();
        if k != 0.0 {
            let w = v[1] - v[0] * k;
            if w.norm_squared() < v[1].norm_squared() * (1.0 - 1e-12) {
                v[1] = w;
                continue;
            }
        }
        // closest vector of the plane lattice to v[2]
        let (g11, g12, g22) = (v[0].norm_squared(), v[0].dot(&v[1]), v[1].norm_squared());
        let (h1, h2) = (v[0].dot(&v[2]), v[1].dot(&v[2]));
        let d = g11 * g22 - g12 * g12;
        let (x, y) = ((h1 * g22 - h2 * g12) / d, (h2 * g11 - h1 * g12) / d);
        let mut best = v[2];
        for dx in -1..=1 {
            for dy in -1..=1 {
                let w = v[2] - v[0] * (x.round() + dx as f64) - v[1] * (y.round() + dy as f64);
                if w.norm_squared() < best.norm_squared() * (1.0 - 1e-12) {
                    best = w;
                }
            }
        }
        if best != v[2] {
            v[2] = best;
            continue;
        }
        return M::from_columns(&v);
    }
    panic!("oracle: minkowski reduction did not converge");
}

/// Shortest distance between two points modulo the lattice with the Minkowski-reduced basis `red`.
pub fn pdist(red: &M, red_inv: &M, dcart: &V) -> f64 {
    let f = near(&(red_inv * dcart));
    let mut best = f64::INFINITY;
    for i in -1..=1 {
        for j in -1..=1 {
            for k in -1..=1 {
                let w = red * (f + V::new(i as f64, j as f64, k as f64));
                best = best.min(w.norm());
            }
        }
    }
    best
}

/// Length of the shortest lattice vector.
pub fn shortest(m: &M) -> f64 {
    minkowski(m).column(0).norm()
}

/// Smallest distance between any two sites (or a site and its own image) of a crystal.
pub fn min_dist(c: &Crystal) -> f64 {
    let red = minkowski(&c.lat);
    let ri = inv(&red);
    let cart = c.cart();
    let mut best = red.column(0).norm();
    for i in 0..cart.len() {
        for j in 0..i {
            best = best.min(pdist(&red, &ri, &(cart[i] - cart[j])));
        }
    }
    best
}

/// Are two cartesian vectors equal modulo the lattice (inverse `li`), within `tol` Å?
pub fn congruent(l: &M, li: &M, d: &V, tol: f64) -> bool {
    let w = l * near(&(li * d));
    w.iter().all(|x| x.is_finite()) && w.norm() <= tol
}

/// Index of the site of `c` with species `sp` at cartesian position `p` modulo the lattice.
pub fn site_at(c: &Crystal, li: &M, cart: &[V], sp: &str, p: &V, tol: f64) -> Option<usize> {
    (0..c.n()).find(|&i| c.sp[i] == sp && congruent(&c.lat, li, &(p - cart[i]), tol))
}

/// Does the translation `t` (cartesian) map the crystal onto itself?
pub fn is_translation(c: &Crystal, t: &V, tol: f64) -> bool {
    let li = inv(&c.lat);
    let cart = c.cart();
    (0..c.n()).all(|i| site_at(c, &li, &cart, &c.sp[i], &(cart[i] + t), tol).is_some())
}

/// Check that `got` describes exactly the same crystal in the same cartesian frame as `want`
/// (possibly in another cell). Returns a description of the first discrepancy.
pub fn same_crystal(want: &Crystal, got: &Crystal, tol: f64) -> Result<(), String> {
    if got.sp.len() != got.frac.len() {
        return Err(format!("{} species but {} coordinates", got.sp.len(), got.frac.len()));
    }
    if !finite(&got.lat) || got.frac.iter().any(|f| f.iter().any(|x| !x.is_finite())) {
        return Err("non-finite lattice or coordinates".into());
    }
    let (vw, vg) = (det(&want.lat).abs(), det(&got.lat).abs());
    if vg < 1e-6 {
        return Err(format!("output lattice is singular (volume {:e})", vg));
    }
    // density
    let (lhs, rhs) = (want.n() as f64 * vg, got.n() as f64 * vw);
    if (lhs - rhs).abs() > 1e-6 * lhs.max(rhs) {
        return Err(format!(
            "site density changed: {} sites in {:.6} Å^3 became {} sites in {:.6} Å^3",
            want.n(), vw, got.n(), vg
        ));
    }
    let li = inv(&want.lat);
    let cart = want.cart();
    for k in 0..3 {
        let t = got.lat.column(k).into_owned();
        for i in 0..want.n() {
            if site_at(want, &li, &cart, &want.sp[i], &(cart[i] + t), tol).is_none() {
                return Err(format!(
                    "output lattice vector {} = {:?} is not a translation of the crystal",
                    k, t.as_slice()
                ));
            }
        }
    }
    let gc = got.cart();
    let gi = inv(&got.lat);
    for (i, p) in gc.iter().enumerate() {
        if site_at(want, &li, &cart, &got.sp[i], p, tol).is_none() {
            return Err(format!(
                "output site {} ({} at {:?}) is not a site of the crystal",
                i, got.sp[i], p.as_slice()
            ));
        }
        for j in 0..i {
            if congruent(&got.lat, &gi, &(p - gc[j]), tol) {
                return Err(format!("output sites {} and {} coincide", j, i));
            }
        }
    }
    Ok(())
}

/// Integer matrix U with `to = from * U`, if `to` spans a (sub)lattice of `from`.
pub fn int_transform(from: &M, to: &M, tol: f64) -> Option<IM> {
    let u = inv(from) * to;
    if int_dev(&u) > tol {
        return None;
    }
    Some(round_im(&u))
}

pub fn same_lattice(a: &M, b: &M, tol: f64) -> bool {
    match int_transform(a, b, tol) {
        Some(u) => idet(&u).abs() == 1,
        None => false,
    }
}

/// All pure translations (cartesian representatives, one per coset of `c.lat`) of the crystal.
pub fn translations(c: &Crystal, tol: f64) -> Vec<V> {
    if c.n() == 0 {
        return vec![V::zeros()];
    }
    let cart = c.cart();
    // rarest species
    let mut best: Option<(usize, usize)> = None;
    for i in 0..c.n() {
        if c.sp[..i].contains(&c.sp[i]) {
            continue;
        }
        let k = c.sp.iter().filter(|s| **s == c.sp[i]).count();
        if best.map_or(true, |b| k < b.1) {
            best = Some((i, k));
        }
    }
    let base = best.unwrap().0;
    let mut out = vec![];
    for j in 0..c.n() {
        if c.sp[j] == c.sp[base] {
            let t = cart[j] - cart[base];
            if is_translation(c, &t, tol) {
                out.push(t);
            }
        }
    }
    out
}

/// The same crystal described in the Minkowski-reduced basis of its own lattice.
pub fn reduced(c: &Crystal) -> Crystal {
    let red = minkowski(&c.lat);
    let ri = inv(&red);
    Crystal { lat: red, sp: c.sp.clone(), frac: c.cart().iter().map(|p| ri * p).collect() }
}

/// Number of translations counted with a loose tolerance (sites have to be farther apart than that).
pub fn loose_translations(c: &Crystal, tol: f64) -> usize {
    translations(&reduced(c), tol).len()
}

/// Basis of the lattice generated by the columns of `l` and extra vectors `ts` (all of which must be
/// rational combinations of `l` with common denominator `ts.len()`): brute-force search for a triple
/// of minimal non-zero volume among a closed candidate set.
pub fn lattice_with(l: &M, ts: &[V]) -> M {
    let n = ts.len() as f64;
    if ts.len() <= 1 {
        return minkowski(l);
    }
    let li = inv(l);
    // integer coordinates in units of 1/n!-free denominator: the group has order n, so n*t is a lattice vector
    let mut rows: Vec<[i64; 3]> = vec![];
    for t in ts {
        let f = li * t * n;
        rows.push([f[0].round() as i64, f[1].round() as i64, f[2].round() as i64]);
    }
    let nn = ts.len() as i64;
    rows.push([nn, 0, 0]);
    rows.push([0, nn, 0]);
    rows.push([0, 0, nn]);
    let h = hnf_rows(rows, nn);
    let cols: Vec<V> = h.iter().map(|r| l * V::new(r[0] as f64 / n, r[1] as f64 / n, r[2] as f64 / n)).collect();
    minkowski(&M::from_columns(&cols))
}

/// Basis (3 rows, echelon form) of the integer row span, which contains all multiples of `nn`; entries
/// are kept below `nn`, so that nothing is lost when they are turned into vectors.
fn hnf_rows(mut rows: Vec<[i64; 3]>, nn: i64) -> Vec<[i64; 3]> {
    let mut out = vec![];
    for col in 0..3 {
        loop {
            rows.retain(|r| r.iter().any(|x| *x != 0));
            let nz: Vec<usize> = (0..rows.len()).filter(|&i| rows[i][col] != 0).collect();
            if nz.is_empty() {
                panic!("oracle: rank deficient lattice");
            }
            let p = *nz.iter().min_by_key(|&&i| rows[i][col].abs()).unwrap();
            if nz.len() == 1 {
                out.push(rows.remove(p));
                break;
            }
            let pr = rows[p];
            for &i in &nz {
                if i != p {
                    let q = rows[i][col].div_euclid(pr[col]);
                    for k in 0..3 {
                        rows[i][k] -= q * pr[k];
                        if k > col {
                            rows[i][k] = rows[i][k].rem_euclid(nn);
                        }
                    }
                }
            }
        }
    }
    out
}

/// Primitive translation lattice of a crystal, Minkowski-reduced.
pub fn primitive_lattice(c: &Crystal, tol: f64) -> (M, usize) {
    let ts = translations(c, tol);
    (lattice_with(&c.lat, &ts), ts.len())
}

/// All integer matrices W (in the basis `red`, which must be Minkowski-reduced) that preserve the
/// metric to the relative tolerance `rel`.
pub fn holohedry(red: &M, rel: f64) -> Vec<IM> {
    let g = red.transpose() * red;
    let mut cols: [Vec<Vector3<i64>>; 3] = [vec![], vec![], vec![]];
    let close = |a: f64, b: f64, s: f64| (a - b).abs() <= rel * s;
    for x in -2i64..=2 {
        for y in -2i64..=2 {
            for z in -2i64..=2 {
                let w = Vector3::new(x, y, z);
                let wf = w.map(|v| v as f64);
                let q = (wf.transpose() * g * wf)[0];
                for k in 0..3 {
                    if close(q, g[(k, k)], g[(k, k)]) {
                        cols[k].push(w);
                    }
                }
            }
        }
    }
    let ip = |a: &Vector3<i64>, b: &Vector3<i64>| {
        (a.map(|v| v as f64).transpose() * g * b.map(|v| v as f64))[0]
    };
    let mut out = vec![];
    for a in &cols[0] {
        for b in &cols[1] {
            if !close(ip(a, b), g[(0, 1)], (g[(0, 0)] * g[(1, 1)]).sqrt()) {
                continue;
            }
            for c in &cols[2] {
                if close(ip(a, c), g[(0, 2)], (g[(0, 0)] * g[(2, 2)]).sqrt())
                    && close(ip(b, c), g[(1, 2)], (g[(1, 1)] * g[(2, 2)]).sqrt())
                {
                    let m = IM::from_columns(&[*a, *b, *c]);
                    if idet(&m).abs() == 1 {
                        out.push(m);
                    }
                }
            }
        }
    }
    out
}

#[derive(Clone, Debug)]
pub struct COp {
    /// cartesian rotation
    pub r: M,
    /// cartesian translation
    pub t: V,
}

/// Full space group of a crystal modulo its primitive translations, as cartesian operations:
/// one representative per rotation. `prim` must be the (Minkowski-reduced) primitive lattice.
pub fn space_group(c: &Crystal, prim: &M, tol: f64) -> Vec<COp> {
    let red = *prim;
    let ri = inv(&red);
    let rots = holohedry(&red, 1e-6);
    let cart = c.cart();
    // reduce sites to the primitive cell
    let mut p = Crystal { lat: red, sp: vec![], frac: vec![] };
    let mut pc: Vec<V> = vec![];
    for i in 0..c.n() {
        if !(0..p.n()).any(|j| p.sp[j] == c.sp[i] && congruent(&red, &ri, &(cart[i] - pc[j]), tol)) {
            p.sp.push(c.sp[i].clone());
            p.frac.push(ri * cart[i]);
            pc.push(cart[i]);
        }
    }
    let base = (0..p.n())
        .min_by_key(|&i| (p.sp.iter().filter(|s| **s == p.sp[i]).count(), i))
        .unwrap();
    let mut out = vec![];
    for w in rots {
        let rc = red * to_f(&w) * ri;
        let img = rc * pc[base];
        for j in 0..p.n() {
            if p.sp[j] != p.sp[base] {
                continue;
            }
            let t = pc[j] - img;
            if (0..p.n()).all(|i| site_at(&p, &ri, &pc, &p.sp[i], &(rc * pc[i] + t), tol).is_some()) {
                out.push(COp { r: rc, t });
            }
        }
    }
    out
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, serde::Serialize, serde::Deserialize)]
#[allow(non_camel_case_types)]
pub enum Br {
    aP,
    mP,
    mC,
    oP,
    oC,
    oI,
    oF,
    tP,
    tI,
    hR,
    hP,
    cP,
    cI,
    cF,
}

impl Br {
    pub const ALL: [Br; 14] = [
        Br::aP, Br::mP, Br::mC, Br::oP, Br::oC, Br::oI, Br::oF, Br::tP, Br::tI, Br::hR, Br::hP, Br::cP, Br::cI, Br::cF,
    ];
    pub fn mult(&self) -> i64 {
        match self {
            Br::mC | Br::oC | Br::oI | Br::tI | Br::cI => 2,
            Br::hR => 3,
            Br::oF | Br::cF => 4,
            _ => 1,
        }
    }
}

/// Shortest lattice vector along the rotation axis of the integer rotation `w` (proper, order > 1).
fn axis_vec(red: &M, w: &IM) -> V {
    let mut best: Option<V> = None;
    for x in -3i64..=3 {
        for y in -3i64..=3 {
            for z in -3i64..=3 {
                let v = Vector3::new(x, y, z);
                if (x, y, z) != (0, 0, 0) && w * v == v {
                    let c = red * v.map(|q| q as f64);
                    if best.map_or(true, |b| c.norm() < b.norm() * (1.0 - 1e-9)) {
                        best = Some(c);
                    }
                }
            }
        }
    }
    best.expect("oracle: rotation axis not found")
}

/// Independent Bravais classification of a lattice from its brute-force holohedry.
pub fn bravais(lat: &M, rel: f64) -> Option<Br> {
    let red = minkowski(lat);
    let h = holohedry(&red, rel);
    let vol = det(&red).abs();
    let tr = |m: &IM| m[(0, 0)] + m[(1, 1)] + m[(2, 2)];
    let two: Vec<V> = h.iter().filter(|m| idet(m) == 1 && tr(m) == -1).map(|m| axis_vec(&red, m)).collect();
    let four: Vec<V> = h.iter().filter(|m| idet(m) == 1 && tr(m) == 1).map(|m| axis_vec(&red, m)).collect();
    let ri = inv(&red);
    let in_lat = |v: V| int_dev_v(&(ri * v)) < 1e-3;
    match h.len() {
        2 => Some(Br::aP),
        4 => {
            let b = two[0];
            // lattice vectors orthogonal to b: shortest two independent
            let mut vs: Vec<V> = vec![];
            for x in -4i64..=4 {
                for y in -4i64..=4 {
                    for z in -4i64..=4 {
                        if (x, y, z) != (0, 0, 0) {
                            let c = red * V::new(x as f64, y as f64, z as f64);
                            if c.dot(&b).abs() < 1e-4 * c.norm() * b.norm() {
                                vs.push(c);
                            }
                        }
                    }
                }
            }
            vs.sort_by(|p, q| p.norm().partial_cmp(&q.norm()).unwrap());
            let a = *vs.first()?;
            let c = *vs.iter().find(|v| a.cross(v).norm() > 1e-4 * a.norm() * v.norm())?;
            let ratio = (a.cross(&c).dot(&b).abs() / vol).round() as i64;
            match ratio {
                1 => Some(Br::mP),
                2 => Some(Br::mC),
                _ => None,
            }
        }
        8 => {
            if two.len() != 3 {
                return None;
            }
            let ratio = (det(&M::from_columns(&two)).abs() / vol).round() as i64;
            match ratio {
                1 => Some(Br::oP),
                2 => {
                    if in_lat((two[0] + two[1] + two[2]) / 2.0) {
                        Some(Br::oI)
                    } else {
                        Some(Br::oC)
                    }
                }
                4 => Some(Br::oF),
                _ => None,
            }
        }
        16 => {
            let c = *four.first()?;
            let mut perp: Vec<V> = two.iter().filter(|v| v.dot(&c).abs() < 1e-4 * v.norm() * c.norm()).cloned().collect();
            perp.sort_by(|p, q| p.norm().partial_cmp(&q.norm()).unwrap());
            let a = *perp.first()?;
            let ratio = (a.norm_squared() * c.norm() / vol).round() as i64;
            match ratio {
                1 => Some(Br::tP),
                2 => Some(Br::tI),
                _ => None,
            }
        }
        12 => Some(Br::hR),
        24 => Some(Br::hP),
        48 => {
            let a = four[0].norm();
            match (a.powi(3) / vol).round() as i64 {
                1 => Some(Br::cP),
                2 => Some(Br::cI),
                4 => Some(Br::cF),
                _ => None,
            }
        }
        _ => None,
    }
}

pub fn int_dev_v(v: &V) -> f64 {
    v.iter().map(|x| if x.is_finite() { (x - x.round()).abs() } else { f64::INFINITY }).fold(0.0, f64::max)
}

/// Bravais type when it is unambiguous: the same with a tight and a loose tolerance.
pub fn bravais_robust(lat: &M) -> Option<Br> {
    let a = bravais(lat, 1e-8)?;
    let b = bravais(lat, 1e-4)?;
    if a == b {
        Some(a)
    } else {
        None
    }
}
