//! Generators. A property's case is a small serialisable *plan*; `build` functions turn plans into
//! concrete crystals by construction, so every generated value lies in the stated domain.
use crate::geom::*;
use crate::hall;
use proptest::prelude::*;
use proptest::collection::vec as pvec;
use serde::{Deserialize, Serialize};

/// Sets of species labels: ordinary ones; ones that differ in case, blanks or digits; long and
/// non-ASCII ones.
const SPECIES: [[&str; 8]; 3] = [
    ["Si", "S", "Na", "N", "Fe3+", "Fe2+", "co", "Co"],
    ["Fe", "Fe ", "fe", "Fe1", " Fe", "Fe10", "FE", "Fe2"],
    ["Uuo-label-A", "Uuo-label-B", "é", "e", "Ω", "Ωβ", "01", "1"],
];
pub fn species(set: u8, i: usize) -> String {
    SPECIES[set as usize % 3][i % 8].to_string()
}
pub fn names() -> impl Strategy<Value = u8> + Clone {
    prop_oneof![8 => Just(0u8), 1 => Just(1u8), 1 => Just(2u8)]
}

pub fn unit() -> impl Strategy<Value = f64> + Clone {
    0.0..1.0f64
}

// ---------------------------------------------------------------- lattices

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LatPlan {
    pub br: Br,
    pub p: [f64; 6],
    /// 0 = generic metric, otherwise a special (boundary) metric
    pub special: u8,
    /// small deformation of a special metric
    #[serde(default)]
    pub strain: Option<[f64; 4]>,
}

pub fn lat_plan(specials: bool) -> impl Strategy<Value = LatPlan> + Clone {
    let sp = if specials {
        prop_oneof![3 => Just(0u8), 2 => 1u8..=11, 3 => 101u8..=144].boxed()
    } else {
        Just(0u8).boxed()
    };
    let sp = std::sync::Arc::new(sp);
    let strain = if specials { prop::option::weighted(0.12, prop::array::uniform4(unit())).boxed() } else { Just(None).boxed() };
    let strain = std::sync::Arc::new(strain);
    ((0usize..14), prop::array::uniform6(unit()), sp, strain)
        .prop_map(|(i, p, special, strain)| LatPlan { br: Br::ALL[i], p, special, strain })
}

fn ratio(p: f64) -> f64 {
    if p < 0.03 {
        0.2 + p / 0.03 * 0.3
    } else if p < 0.4 {
        0.5 + (p - 0.03) / 0.37 * 0.42
    } else if p < 0.97 {
        1.09 + (p - 0.4) / 0.57 * 0.95
    } else {
        2.04 + (p - 0.97) / 0.03 * 3.5
    }
}

/// A factor that differs from one by 3e-4 to 2e-2.
fn near_one(x: f64) -> f64 {
    let (sign, y) = if x < 0.5 { (-1.0, x * 2.0) } else { (1.0, x * 2.0 - 1.0) };
    1.0 + sign * log_tol(y, 3e-4, 2e-2)
}

/// Conventional lattice of a Bravais type in the standard orientation (a along x, b in xy).
pub fn conv_lattice(pl: &LatPlan) -> M {
    let a = if pl.p[0] < 0.97 { 3.4 + 5.0 * pl.p[0] / 0.97 } else { 8.4 + (pl.p[0] - 0.97) / 0.03 * 16.0 };
    let mut r1 = ratio(pl.p[1]);
    let mut r2 = ratio(pl.p[2]);
    let s = pl.special;
    match s {
        1 => r1 = 1.0,
        2 => r2 = 1.0,
        3 => r2 = r1,
        4 => r1 = 2f64.sqrt(),
        5 => r2 = 2f64.sqrt(),
        6 => r1 = 3f64.sqrt(),
        7 => r2 = 1.5f64.sqrt(),
        8 => {
            r1 = 1.0;
            r2 = 0.5f64.sqrt()
        }
        _ => {}
    }
    // no cell thinner than half the usual length
    let a = a * (0.5 / r1.min(r2)).max(1.0);
    // near misses of a special metric
    if (1..=8).contains(&s) && pl.p[1] < 0.25 {
        r1 *= near_one(pl.p[1] * 4.0);
    }
    if (1..=8).contains(&s) && pl.p[2] < 0.25 {
        r2 *= near_one(pl.p[2] * 4.0);
    }
    // angles
    let deg = |x: f64| x.to_radians();
    let (al, be, ga) = match s {
        9 => (deg(90.0), deg(60.0), deg(60.0 + 30.0 * (pl.p[5] * 2.0).floor())),
        10 => {
            let k = |p: f64| [60.0, 75.0, 90.0, 105.0, 100.0][((p * 5.0) as usize).min(4)];
            (deg(k(pl.p[3])), deg(k(pl.p[4])), deg(k(pl.p[5])))
        }
        _ => (deg(66.0 + 50.0 * pl.p[3]), deg(66.0 + 50.0 * pl.p[4]), deg(66.0 + 50.0 * pl.p[5])),
    };
    let cell = |a: f64, b: f64, c: f64, al: f64, be: f64, ga: f64| {
        let cx = be.cos();
        let cy = (al.cos() - be.cos() * ga.cos()) / ga.sin();
        let cz = (1.0 - cx * cx - cy * cy).max(0.0).sqrt();
        M::from_columns(&[V::new(a, 0.0, 0.0), V::new(b * ga.cos(), b * ga.sin(), 0.0), V::new(c * cx, c * cy, c * cz)])
    };
    let diag = |a: f64, b: f64, c: f64| M::from_diagonal(&V::new(a, b, c));
    match pl.br {
        Br::aP => {
            let m = cell(a, a * r1, a * r2, al, be, ga);
            if det(&m).abs() < 0.25 * a * a * a * r1 * r2 {
                cell(a, a * r1, a * r2, deg(82.0), deg(97.0), deg(105.0))
            } else {
                m
            }
        }
        Br::mP | Br::mC => {
            let b = a * r1;
            let c = a * r2;
            let cosb = match s {
                // special skews: projections of c on a at rational fractions
                9 => -(a / (2.0 * c)).min(0.7),
                10 => -(c / (2.0 * a)).min(0.7),
                11 => -(a / (4.0 * c)).min(0.7),
                _ => -(0.035 + 0.5 * pl.p[3]),
            };
            let sinb = (1.0f64 - cosb * cosb).sqrt();
            M::from_columns(&[V::new(a, 0.0, 0.0), V::new(0.0, b, 0.0), V::new(c * cosb, 0.0, c * sinb)])
        }
        Br::oP | Br::oC | Br::oI | Br::oF => {
            // keep the three lengths apart unless the special code asks otherwise
            let (mut b, mut c) = (a * r1, a * r2);
            if s == 0 && (b / c - 1.0).abs() < 0.05 {
                c *= 1.13;
                if (c / a - 1.0).abs() < 0.05 {
                    b *= 1.09;
                    c *= 1.24;
                }
            }
            diag(a, b, c)
        }
        Br::tP | Br::tI => diag(a, a, a * r1),
        Br::hP | Br::hR => {
            let c = a * r1
                * match (pl.br, s) {
                    // the three cubic lattices in a rhombohedral description
                    (Br::hR, 1) => 6f64.sqrt(),
                    (Br::hR, 4) => 0.75f64.sqrt(),
                    (Br::hR, 8) => 0.375f64.sqrt(),
                    (Br::hR, _) => 1.6,
                    _ => 1.0,
                };
            M::from_columns(&[V::new(a, 0.0, 0.0), V::new(-a / 2.0, a * 3f64.sqrt() / 2.0, 0.0), V::new(0.0, 0.0, c)])
        }
        Br::cP | Br::cI | Br::cF => diag(a, a, a),
    }
}

/// Primitive basis in terms of the conventional one, written from the centring vectors (ITC).
pub fn prim_of(letter: char) -> M {
    let h = 0.5;
    let t = 1.0 / 3.0;
    let cols: [[f64; 3]; 3] = match letter {
        'C' => [[h, -h, 0.0], [h, h, 0.0], [0.0, 0.0, 1.0]],
        'A' => [[1.0, 0.0, 0.0], [0.0, h, h], [0.0, -h, h]],
        'I' => [[-h, h, h], [h, -h, h], [h, h, -h]],
        'F' => [[0.0, h, h], [h, 0.0, h], [h, h, 0.0]],
        'R' => [[2.0 * t, t, t], [-t, t, t], [-t, -2.0 * t, t]],
        _ => [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]],
    };
    M::from_columns(&[V::from(cols[0]), V::from(cols[1]), V::from(cols[2])])
}

pub fn centring_of(br: Br) -> char {
    match br {
        Br::mC | Br::oC => 'C',
        Br::oI | Br::tI | Br::cI => 'I',
        Br::oF | Br::cF => 'F',
        Br::hR => 'R',
        _ => 'P',
    }
}

/// Lattice given by the reduced metric of one of the 44 lattice characters (numbering and conditions
/// of the International Tables); `None` if the drawn parameters give no lattice.
pub fn character_lattice(ch: u8, p: &[f64; 6]) -> Option<M> {
    let a = (3.2 + 2.0 * p[0]).powi(2);
    let grow = |x: f64| 1.06 + 1.3 * x;
    let b = if (1..=17).contains(&ch) { a } else { a * grow(p[1]) };
    let c = if ch <= 8 {
        a
    } else if (18..=25).contains(&ch) {
        b
    } else {
        b * grow(p[2])
    };
    // free products in units of their bound, away from both ends
    let fr = |x: f64| 0.04 + 0.42 * x;
    let (d, e, f) = (fr(p[3]) * b, fr(p[4]) * a, fr(p[5]) * a);
    let q = |x: f64| a * (0.27 + 0.21 * x);
    let (d, e, f) = match ch {
        1 | 9 => (a / 2.0, a / 2.0, a / 2.0),
        2 => (d, d, d),
        3 | 11 | 21 | 32 => (0.0, 0.0, 0.0),
        5 => (-a / 3.0, -a / 3.0, -a / 3.0),
        4 => (-d * 0.6, -d * 0.6, -d * 0.6),
        6 | 16 => (-q(p[3]), -q(p[3]), -a + 2.0 * q(p[3])),
        7 => (-a + 2.0 * q(p[3]), -q(p[3]), -q(p[3])),
        8 | 17 => {
            let (d, e) = (a * (0.37 + 0.1 * p[3]), a * (0.28 + 0.07 * p[4]));
            (-d, -e, -a + d + e)
        }
        10 => (e, e, f),
        12 | 38 => (0.0, 0.0, -a / 2.0),
        13 | 34 => (0.0, 0.0, -f),
        15 => (-a / 2.0, -a / 2.0, 0.0),
        14 => (-e * 0.6, -e * 0.6, -f * 0.6),
        18 | 26 => (a / 4.0, a / 2.0, a / 2.0),
        19 | 27 => (d, a / 2.0, a / 2.0),
        20 => (d, e, e),
        22 | 40 => (-b / 2.0, 0.0, 0.0),
        23 | 35 => (-d, 0.0, 0.0),
        24 => (a / 6.0 - b / 2.0, -a / 3.0, -a / 3.0),
        25 => (-d * 0.6, -e * 0.6, -e * 0.6),
        28 => (f / 2.0, a / 2.0, f),
        29 => (e / 2.0, e, a / 2.0),
        30 => (b / 2.0, f / 2.0, f),
        31 => (d, e, f),
        36 => (0.0, -a / 2.0, 0.0),
        33 => (0.0, -e, 0.0),
        42 => (-b / 2.0, -a / 2.0, 0.0),
        41 => (-b / 2.0, -e, 0.0),
        37 => (-d, -a / 2.0, 0.0),
        39 => (-d, 0.0, -a / 2.0),
        43 => (-(b - f) / 2.0, -(a - f) / 2.0, -f),
        _ => (-d * 0.6, -e * 0.6, -f * 0.6),
    };
    let g = M::new(a, f, e, f, b, d, e, d, c);
    let l = nalgebra::Cholesky::new(g)?.l().transpose();
    (det(&l) > 0.2 * (a * b * c).sqrt()).then_some(l)
}

pub fn prim_lattice(pl: &LatPlan) -> M {
    let m = exact_lattice(pl);
    match pl.strain {
        None => m,
        Some(s) => {
            // stretch along one axis, or shear along two
            let (i, j) = ((s[0] * 3.0) as usize % 3, (s[1] * 3.0) as usize % 3);
            let mut e = M::identity();
            e[(i, j)] += near_one(s[2]) - 1.0;
            if s[3] < 0.3 {
                let k = (j + 1) % 3;
                e[(k, j)] += near_one(s[3] / 0.3) - 1.0;
            }
            m * e
        }
    }
}
fn exact_lattice(pl: &LatPlan) -> M {
    if pl.special > 100 {
        return character_lattice(pl.special - 100, &pl.p).unwrap_or_else(|| conv_lattice(pl) * prim_of(centring_of(pl.br)));
    }
    conv_lattice(pl) * prim_of(centring_of(pl.br))
}

// ---------------------------------------------------------------- bases

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BasisPlan {
    /// quaternion-like numbers; None = keep the standard orientation
    pub rot: Option<[f64; 4]>,
    /// elementary unimodular steps
    pub uni: Vec<(u8, u8, i8)>,
    pub left: bool,
    /// Hermite normal form of the supercell
    pub hnf: [u8; 6],
}

pub fn uni_steps(max: usize) -> impl Strategy<Value = Vec<(u8, u8, i8)>> + Clone {
    pvec((0u8..5, 0u8..3, prop_oneof![Just(1i8), Just(-1i8), Just(2i8), Just(-2i8)]), 0..=max)
}

pub fn hnf(maxdet: u8) -> impl Strategy<Value = [u8; 6]> + Clone {
    // now and then far larger cells
    let wide = if maxdet > 1 { 4 * maxdet } else { 1 };
    (prop_oneof![30 => 1u8..=maxdet, 1 => 1u8..=wide], any::<[u8; 2]>(), any::<[u8; 3]>()).prop_map(move |(d, f, o)| {
        // split the determinant into three factors
        let divs = |n: u8| (1..=n).filter(|k| n % k == 0).collect::<Vec<u8>>();
        let v = divs(d);
        let a = v[f[0] as usize % v.len()];
        let v = divs(d / a);
        let b = v[f[1] as usize % v.len()];
        [a, b, d / a / b, o[0], o[1], o[2]]
    })
}

pub fn basis_plan(maxdet: u8, maxuni: usize) -> impl Strategy<Value = BasisPlan> + Clone {
    (
        prop::option::weighted(0.6, prop::array::uniform4(-1.0..1.0f64)),
        prop_oneof![1 => Just(vec![]).boxed(), 3 => uni_steps(maxuni).boxed()].prop_map(|x| x),
        prop::bool::weighted(0.2),
        hnf(maxdet),
    )
        .prop_map(|(rot, uni, left, hnf)| BasisPlan { rot, uni, left, hnf })
        .boxed()
}

impl BasisPlan {
    pub fn trivial() -> Self {
        BasisPlan { rot: None, uni: vec![], left: false, hnf: [1, 1, 1, 0, 0, 0] }
    }
    pub fn rotation(&self) -> M {
        match self.rot {
            None => M::identity(),
            Some(q) => {
                let n = (q.iter().map(|x| x * x).sum::<f64>()).sqrt();
                if n < 1e-3 {
                    return M::identity();
                }
                let [w, x, y, z] = q.map(|v| v / n);
                M::new(
                    1.0 - 2.0 * (y * y + z * z), 2.0 * (x * y - w * z), 2.0 * (x * z + w * y),
                    2.0 * (x * y + w * z), 1.0 - 2.0 * (x * x + z * z), 2.0 * (y * z - w * x),
                    2.0 * (x * z - w * y), 2.0 * (y * z + w * x), 1.0 - 2.0 * (x * x + y * y),
                )
            }
        }
    }
    /// Unimodular matrix, entries bounded by `bound` (a step that would exceed it is skipped).
    pub fn unimodular(&self, bound: i64) -> IM {
        let mut u = IM::identity();
        for &(op, i, k) in &self.uni {
            let i = (i % 3) as usize;
            let mut e = IM::identity();
            match op {
                0 | 1 => e[((i + 1) % 3, i)] = k as i64,
                2 | 3 => e[((i + 2) % 3, i)] = k as i64,
                _ => {
                    // proper axis exchange: a<->b with one sign change
                    let j = (i + 1) % 3;
                    e[(i, i)] = 0;
                    e[(j, j)] = 0;
                    e[(i, j)] = 1;
                    e[(j, i)] = -1;
                }
            }
            let n = u * e;
            if n.iter().all(|x| x.abs() <= bound) {
                u = n;
            }
        }
        if self.left {
            u = -u;
        }
        u
    }
    pub fn hnf_matrix(&self) -> IM {
        let h = self.hnf;
        let (a, b, c) = (h[0].max(1) as i64, h[1].max(1) as i64, h[2].max(1) as i64);
        // column form: lower triangular with reduced off-diagonals
        IM::new(a, 0, 0, h[3] as i64 % b, b, 0, h[4] as i64 % c, h[5] as i64 % c, c)
    }
    pub fn supercell(&self, bound: i64) -> IM {
        let s = self.hnf_matrix() * self.unimodular(bound);
        if s.iter().all(|x| x.abs() <= 3 * bound) {
            s
        } else {
            self.hnf_matrix()
        }
    }
}

/// The cell `lat * t`, in its reduced basis if it is so long that the documented limit of 100 steps
/// of the reductions comes into reach.
pub fn moderate(lat: &M, t: IM) -> IM {
    let big = lat * to_f(&t);
    if big.column_iter().all(|c| c.norm() < 120.0) {
        return t;
    }
    round_im(&(inv(lat) * minkowski(&big)))
}

/// Representatives of the integer vectors modulo the columns of `s`.
pub fn cosets(s: &IM) -> Vec<V> {
    let n = idet(s).abs();
    let si = inv(&to_f(s));
    let mut reps: Vec<V> = vec![];
    let mut r = 0i64;
    while (reps.len() as i64) < n {
        for x in -r..=r {
            for y in -r..=r {
                for z in -r..=r {
                    if x.abs().max(y.abs()).max(z.abs()) != r {
                        continue;
                    }
                    let v = V::new(x as f64, y as f64, z as f64);
                    if !reps.iter().any(|w| int_dev_v(&(si * (v - w))) < 1e-6) {
                        reps.push(v);
                    }
                }
            }
        }
        r += 1;
    }
    reps
}

/// Build the cell `lat * s` of the crystal with lattice `lat` and sites `frac`.
pub fn supercell(c: &Crystal, s: &IM) -> Crystal {
    let sf = to_f(s);
    let si = inv(&sf);
    let reps = cosets(s);
    let mut out = Crystal { lat: c.lat * sf, sp: vec![], frac: vec![] };
    for (f, sp) in c.frac.iter().zip(&c.sp) {
        for rep in &reps {
            let mut g = si * (f + rep);
            for k in 0..3 {
                g[k] -= g[k].floor();
            }
            out.frac.push(g);
            out.sp.push(sp.clone());
        }
    }
    out
}

/// Permute the sites and add whole-number shifts, driven by plan bytes.
pub fn scramble(c: &Crystal, keys: &[u8], shifts: bool) -> Crystal {
    if keys.is_empty() {
        return c.clone();
    }
    let mut idx: Vec<usize> = (0..c.n()).collect();
    let key = |i: usize| (keys[i % keys.len()] as usize).wrapping_mul(i * 7 + 13) % 251;
    idx.sort_by_key(|&i| (key(i), i));
    let mut out = Crystal { lat: c.lat, sp: vec![], frac: vec![] };
    for i in idx {
        let mut f = c.frac[i];
        if shifts {
            let k = key(i);
            for d in 0..3 {
                let far = if keys[0] % 16 == 1 { 23.0 } else { 1.0 };
                f[d] += (((k / 5usize.pow(d as u32)) % 5) as f64 - 2.0) * far;
            }
        }
        out.sp.push(c.sp[i].clone());
        out.frac.push(f);
    }
    out
}

// ---------------------------------------------------------------- arbitrary crystals

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SitePlan {
    pub sp: u8,
    pub f: [f64; 3],
    /// bit k set: snap coordinate k to a multiple of 1/12
    pub snap: u8,
}

impl SitePlan {
    pub fn pos(&self) -> V {
        let mut v = V::from(self.f);
        for k in 0..3 {
            if self.snap & (1 << k) != 0 {
                v[k] = (v[k] * 12.0).floor() / 12.0;
            }
        }
        v
    }
}

pub fn site_plan(nsp: u8) -> impl Strategy<Value = SitePlan> + Clone {
    (prop_oneof![8 => 0..nsp, 1 => 0..8u8], prop::array::uniform3(unit()), prop_oneof![2 => Just(0u8), 2 => Just(7u8), 1 => 0u8..8])
        .prop_map(|(sp, f, snap)| SitePlan { sp, f, snap })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CrystalPlan {
    pub lat: LatPlan,
    pub sites: Vec<SitePlan>,
    pub basis: BasisPlan,
    pub keys: Vec<u8>,
    pub shifts: bool,
    pub cart: bool,
    /// position tolerance handed to the code under test, in log scale 0..1
    pub tol: f64,
    /// a superstructure by species only: cell multiple and pairs of sites which exchange their species
    #[serde(default)]
    pub swap: Option<([u8; 6], Vec<(u8, u8)>)>,
    /// set of species labels
    #[serde(default)]
    pub names: u8,
}

pub fn crystal_plan(maxsites: usize, maxdet: u8, specials: bool) -> impl Strategy<Value = CrystalPlan> + Clone {
    (
        lat_plan(specials),
        prop_oneof![199 => pvec(site_plan(4), 1..=maxsites), 1 => pvec(site_plan(4), 20..=36)],
        basis_plan(maxdet, 4),
        pvec(any::<u8>(), 0..6),
        any::<bool>(),
        any::<bool>(),
        unit(),
        (prop::option::weighted(0.2, (hnf(4), pvec((any::<u8>(), any::<u8>()), 1..4))), names()),
    )
        .prop_map(|(lat, sites, basis, keys, shifts, cart, tol, (swap, names))| CrystalPlan { lat, sites, basis, keys, shifts, cart, tol, swap, names })
        .boxed()
}

/// Distance tolerance in [lo, hi], log-uniform.
pub fn log_tol(p: f64, lo: f64, hi: f64) -> f64 {
    (lo.ln() + p * (hi / lo).ln()).exp()
}

impl CrystalPlan {
    pub fn dtol(&self) -> f64 {
        log_tol(self.tol, 1e-4, 0.1)
    }
    /// The crystal in its primitive description (standard orientation, rotated), all sites at least
    /// `dmin` apart.
    pub fn base(&self, dmin: f64) -> Crystal {
        let lat = self.basis.rotation() * prim_lattice(&self.lat);
        place_sites(&lat, &self.sites, dmin, self.names)
    }
    pub fn input(&self, dmin: f64) -> Crystal {
        let mut b = self.base(dmin);
        if let Some((h, pairs)) = &self.swap {
            if b.n() <= 4 {
                b = supercell(&b, &BasisPlan { hnf: *h, ..BasisPlan::trivial() }.hnf_matrix());
                // in a reduced cell, so that the skews of the two supercells do not add up
                let red = minkowski(&b.lat);
                let t = inv(&red) * b.lat;
                b.frac.iter_mut().for_each(|f| *f = t * *f);
                b.lat = red;
                let n = b.n();
                for (i, j) in pairs {
                    b.sp.swap(*i as usize % n, *j as usize % n);
                }
            }
        }
        let mut t = self.basis.supercell(4);
        if b.n() as i64 * idet(&t).abs() > 288 {
            t = self.basis.unimodular(4);
        }
        let t = moderate(&b.lat, t);
        scramble(&supercell(&b, &t), &self.keys, self.shifts)
    }
}

pub fn place_sites(lat: &M, sites: &[SitePlan], dmin: f64, names: u8) -> Crystal {
    let red = minkowski(lat);
    let ri = inv(&red);
    let mut c = Crystal { lat: *lat, sp: vec![], frac: vec![] };
    for s in sites {
        let f = s.pos();
        let p = lat * f;
        if c.frac.iter().all(|g| pdist(&red, &ri, &(p - lat * g)) >= dmin) {
            c.frac.push(f);
            c.sp.push(species(names, s.sp as usize));
        }
    }
    c
}

pub fn dmin_for(dtol: f64) -> f64 {
    (6.0 * dtol).max(0.6)
}

// ---------------------------------------------------------------- crystals of a given space group

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SgPlan {
    pub num: u8,
    pub p: [f64; 6],
    pub special: u8,
    /// candidate site positions in the conventional cell with a coordinate pattern
    pub sites: Vec<([f64; 3], u8)>,
    pub basis: BasisPlan,
    /// describe the crystal in the conventional cell before the change of basis
    pub conv: bool,
    pub keys: Vec<u8>,
    pub shifts: bool,
    pub cart: bool,
    pub tol: f64,
    /// number of species the orbits share
    #[serde(default = "eight")]
    pub nsp: u8,
    /// set of species labels
    #[serde(default)]
    pub names: u8,
    /// one site which breaks the symmetry: its index and how it differs
    #[serde(default)]
    pub defect: Option<(u8, u8)>,
}
fn eight() -> u8 {
    8
}

pub fn system(num: u8) -> char {
    match num {
        1..=2 => 'a',
        3..=15 => 'm',
        16..=74 => 'o',
        75..=142 => 't',
        143..=194 => 'h',
        _ => 'c',
    }
}

pub fn bravais_of(num: u8) -> Br {
    let l = hall::centring_letter(num as usize);
    match (system(num), l) {
        ('a', _) => Br::aP,
        ('m', 'P') => Br::mP,
        ('m', _) => Br::mC,
        ('o', 'P') => Br::oP,
        ('o', 'C') | ('o', 'A') => Br::oC,
        ('o', 'I') => Br::oI,
        ('o', _) => Br::oF,
        ('t', 'P') => Br::tP,
        ('t', _) => Br::tI,
        ('h', 'R') => Br::hR,
        ('h', _) => Br::hP,
        ('c', 'P') => Br::cP,
        ('c', 'I') => Br::cI,
        _ => Br::cF,
    }
}

pub fn sg_num() -> impl Strategy<Value = u8> + Clone {
    1u8..=230
}

pub fn sg_plan_for(num: impl Strategy<Value = u8> + Clone + 'static, maxdet: u8, specials: bool) -> BoxedStrategy<SgPlan> {
    (
        (num, prop::array::uniform6(unit()), if specials { prop_oneof![4 => Just(0u8), 1 => 1u8..=11].boxed() } else { Just(0u8).boxed() }),
        pvec((prop::array::uniform3(unit()), 0u8..12), 2..=6),
        basis_plan(maxdet, 3),
        prop::bool::weighted(0.4),
        pvec(any::<u8>(), 0..6),
        any::<bool>(),
        any::<bool>(),
        (unit(), prop_oneof![3 => Just(8u8), 2 => 1u8..4], names()),
    )
        .prop_map(|((num, p, special), sites, basis, conv, keys, shifts, cart, (tol, nsp, names))| SgPlan {
            num, p, special, sites, basis, conv, keys, shifts, cart, tol, nsp, names, defect: None,
        })
        .boxed()
}

pub struct SgCrystal {
    /// primitive description
    pub prim: Crystal,
    /// description handed to the code under test
    pub input: Crystal,
    /// conventional lattice, ITA setting and origin
    pub conv: M,
}

impl SgPlan {
    pub fn letter(&self) -> char {
        hall::centring_letter(self.num as usize)
    }
    pub fn conv(&self) -> M {
        let lp = LatPlan { br: bravais_of(self.num), p: self.p, special: self.special, strain: None };
        self.basis.rotation() * conv_lattice(&lp)
    }
    pub fn build(&self, dmin: f64, max_sites: usize) -> SgCrystal {
        let conv = self.conv();
        let letter = self.letter();
        let prim = conv * prim_of(letter);
        let red = minkowski(&prim);
        let ri = inv(&red);
        let pi = inv(&prim);
        let ops = hall::coset_reps(&hall::table()[self.num as usize - 1]);
        let mut c = Crystal { lat: prim, sp: vec![], frac: vec![] };
        let mut cart: Vec<V> = vec![];
        let mut orbits = 0;
        let try_orbit = |f: V, c: &mut Crystal, cart: &mut Vec<V>, orbits: &mut usize| -> bool {
            // orbit of f: exact duplicates merge, near misses reject the orbit
            let mut orb: Vec<V> = vec![];
            for op in &ops {
                let r = op.rf();
                let g = conv * (r * f + op.tf());
                let mut dup = false;
                for o in &orb {
                    let d = pdist(&red, &ri, &(g - o));
                    if d < 1e-7 {
                        dup = true;
                        break;
                    }
                    if d < dmin {
                        return false;
                    }
                }
                if !dup {
                    orb.push(g);
                }
            }
            if cart.len() + orb.len() > max_sites {
                return false;
            }
            if orb.iter().any(|g| cart.iter().any(|o| pdist(&red, &ri, &(g - o)) < dmin)) {
                return false;
            }
            for g in orb {
                c.frac.push((pi * g).map(|x| x - x.floor()));
                c.sp.push(species(self.names, *orbits % (self.nsp as usize).clamp(1, 8)));
                cart.push(g);
            }
            *orbits += 1;
            true
        };
        for (f, pat) in &self.sites {
            let cands = patterns(f, *pat);
            for g in cands {
                if try_orbit(g, &mut c, &mut cart, &mut orbits) {
                    break;
                }
            }
        }
        if orbits == 0 {
            // always at least one orbit: the origin or a point with well separated images
            for g in [V::zeros(), V::new(0.25, 0.25, 0.25), V::new(0.125, 0.125, 0.125), V::new(0.0, 0.25, 0.125), V::new(0.3, 0.1, 0.2)] {
                if try_orbit(g, &mut c, &mut cart, &mut orbits) {
                    break;
                }
            }
        }
        if let (Some((i, kind)), true) = (self.defect, c.n() > 1) {
            let i = i as usize % c.n();
            match kind % 4 {
                0 => c.sp[i] = species(self.names, kind as usize),
                1 => {
                    c.frac.remove(i);
                    c.sp.remove(i);
                }
                2 => {
                    let j = (i + 1 + kind as usize / 4) % c.n();
                    c.sp.swap(i, j);
                }
                _ => {
                    let k = kind as f64;
                    c.frac[i] += pi * V::new(k.cos(), k.sin(), 0.3).normalize() * (0.45 * dmin);
                }
            }
        }
        let base = if self.conv && letter != 'P' {
            let s = round_im(&inv(&prim_of(letter)));
            supercell(&c, &s)
        } else {
            c.clone()
        };
        let big = supercell(&base, &moderate(&base.lat, self.basis.supercell(2)));
        let input = scramble(&big, &self.keys, self.shifts);
        SgCrystal { prim: c, input, conv }
    }
}

/// A list of candidate points derived from one random point: the pattern first, then variations, so
/// that an orbit with too close images is replaced by another one instead of being thrown away.
fn patterns(f: &[f64; 3], pat: u8) -> Vec<V> {
    let [x, y, z] = *f;
    let s = |v: f64| (v * 8.0).floor() / 8.0;
    let mut out = vec![match pat {
        0..=3 => V::new(x, y, z),
        4 => V::new(x, x, z),
        5 => V::new(x, 0.0, z),
        6 => V::new(x, y, 0.0),
        7 => V::new(x, x, x),
        8 => V::new(x, 0.0, 0.0),
        9 => V::new(0.0, 0.0, z),
        10 => V::new(s(x), s(y), s(z)),
        _ => V::new(x, 2.0 * x, z),
    }];
    // golden-ratio sequence of further general points
    let g = [0.8191725133961645, 0.6710436067037893, 0.5497004779019703];
    for k in 1..=6 {
        let kf = k as f64;
        out.push(V::new((x + kf * g[0]).fract(), (y + kf * g[1]).fract(), (z + kf * g[2]).fract()));
    }
    out.push(V::new(x, x, z));
    out.push(V::new(x, y, 0.0));
    out.push(V::new(x, 0.0, z));
    out.push(V::new(0.5, y, z));
    out.push(V::new(x, x, x));
    out.push(V::new(x, 0.0, 0.0));
    out
}
