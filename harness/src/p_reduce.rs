//! R01..R05: primitive, Niggli and Delaunay reduction.
use crate::gen::*;
use crate::geom::*;
use crate::p_struct::{lat_case, none, LatCase};
use crate::runner::*;
use crystsymm::reduce::Reducer;
use crystsymm::structure::Structure;
use proptest::collection::vec as pvec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

fn consistent(s: &Structure) -> Result<(), String> {
    if s.species.len() != s.coords.len() || s.species.len() != s.frac_coords.len() {
        return Err("site lists of different length".into());
    }
    for i in 0..s.coords.len() {
        if !((s.coords[i] - s.lattice * s.frac_coords[i]).norm() <= 1e-7 * (1.0 + s.coords[i].norm())) {
            return Err("cartesian and fractional coordinates disagree".into());
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- R01
pub fn r01() -> Prop<CrystalPlan> {
    Prop {
        id: "R01",
        rule: "crystal of 1-6 (rarely 20-36) sites with generic or special positions on a lattice of any Bravais type, given in a supercell of 1-8 primitive cells, skewed/permuted/left-handed basis, rotated, sites shuffled and shifted by whole cells; non-trivial: the input cell holds more than one translation (found by brute force), or is left-handed or not already reduced",
        assumptions: &["sites at least six tolerances and 0.6 Å apart", "periodicity exact to rounding"],
        quick: 800_000,
        thorough: 6_400_000,
        budget: 100_000_000,
        strategy: || crystal_plan(6, 8, true).boxed(),
        check: |c, cx| {
            let tol = c.dtol();
            let input = c.input(dmin_for(tol));
            let (prim, n) = primitive_lattice(&input, 1e-6);
            if loose_translations(&input, 2.9 * tol) != n {
                cx.label("skipped: accidental near-translation");
                return Ok(());
            }
            let s = input.structure(c.cart);
            cx.label(format!("{:2} translations in the cell", n));
            cx.nontrivial = n > 1 || det(&input.lat) < 0.0 || !same_shape(&input.lat, &prim);
            if det(&input.lat) < 0.0 {
                cx.label("left-handed");
            }
            let r = Reducer { dtol: tol, atol: 5.0 };
            let p = must("primitive reduction", || r.find_primitive_cell(&s))?;
            consistent(&p)?;
            let got = Crystal::of(&p);
            same_crystal(&input, &got, 1e-5)?;
            let want = det(&input.lat).abs() / n as f64;
            let v = det(&got.lat);
            if v < 0.0 {
                return Err("primitive cell is left-handed".into());
            }
            if !((v - want).abs() <= 1e-6 * want) {
                return Err(format!("cell volume {} instead of the primitive volume {} ({} translations in the input cell)", v, want, n).into());
            }
            if !same_lattice(&prim, &got.lat, 1e-5) {
                return Err("lattice differs from the crystal's translation lattice".into());
            }
            let q = must("second primitive reduction", || r.find_primitive_cell(&p))?;
            let got2 = Crystal::of(&q);
            same_crystal(&input, &got2, 1e-5).map_err(|e| format!("second reduction: {}", e))?;
            if got2.n() != got.n() || !((det(&got2.lat) - v).abs() <= 1e-6 * v) {
                return Err("second reduction changes the cell volume or site count".into());
            }
            Ok(())
        },
        fixed: none,
    }
}

fn same_shape(a: &M, b: &M) -> bool {
    let mut x: Vec<f64> = (0..3).map(|i| a.column(i).norm()).collect();
    let mut y: Vec<f64> = (0..3).map(|i| b.column(i).norm()).collect();
    x.sort_by(|a, b| a.partial_cmp(b).unwrap());
    y.sort_by(|a, b| a.partial_cmp(b).unwrap());
    (0..3).all(|i| (x[i] - y[i]).abs() < 1e-6)
}

// ---------------------------------------------------------------- R02
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct R02 {
    c: CrystalPlan,
    noise: Vec<[f64; 3]>,
    /// displacement of one site in tolerances; 0 = only noise
    kick: Option<(u8, f64, [f64; 3])>,
}
/// max over axes of |a_k| |a_k*|: how far a displacement can reach in fractional units compared with
/// its length divided by the edge
pub fn skew(l: &M) -> f64 {
    let li = inv(l);
    (0..3).map(|k| l.column(k).norm() * li.row(k).norm()).fold(0.0, f64::max)
}
pub fn r02() -> Prop<R02> {
    Prop {
        id: "R02",
        rule: "crystal in a supercell as for R01 with every site displaced by up to a tenth of the tolerance, divided by the skewness of the cell and by the number of primitive vectors it spans, in half of the cases one site additionally by 4-9 tolerances; non-trivial: the undisturbed supercell holds more than one translation",
        assumptions: &["the displaced site keeps the required distance from all others", "displacements reduced by the cell's skewness factor |a||a*| and its extent in primitive vectors, over which the errors of the primitive vectors add up"],
        quick: 1_000_000,
        thorough: 8_000_000,
        budget: 100_000_000,
        strategy: || {
            (
                crystal_plan(5, 6, true),
                pvec(prop::array::uniform3(-1.0..1.0f64), 1..6),
                prop::option::of((any::<u8>(), 4.2..9.0f64, prop::array::uniform3(-1.0..1.0f64))),
            )
                .prop_map(|(c, noise, kick)| R02 { c, noise, kick })
                .boxed()
        },
        check: |c, cx| {
            let tol = log_tol(c.c.tol, 1e-3, 0.04);
            let base = c.c.base((20.0 * tol).max(0.6));
            let exact = scramble(&supercell(&base, &c.c.basis.supercell(2)), &c.c.keys, c.c.shifts);
            let (prim, n) = primitive_lattice(&exact, 1e-6);
            let sk = skew(&exact.lat).max(skew(&prim));
            // number of primitive vectors along the input cell: errors of the primitive vectors add up over them
            let reach = (inv(&prim) * exact.lat).iter().map(|x| x.abs()).sum::<f64>();
            let amp = (0.1 * tol / sk).min(0.8 * tol / (sk * (2.0 + 6.0 * reach)));
            let mut noisy = exact.clone();
            let li = inv(&exact.lat);
            for i in 0..noisy.n() {
                let v = V::from(c.noise[i % c.noise.len()]);
                // a different direction for every site
                let v = V::new(v[i % 3], v[(i + 1) % 3] * if i % 2 == 0 { 1.0 } else { -1.0 }, v[(i + 2) % 3]);
                let d = if v.norm() > 1.0 { v / v.norm() } else { v } * amp;
                noisy.frac[i] += li * d;
            }
            cx.nontrivial = n > 1;
            let mut broken = false;
            if let Some((i, k, dir)) = &c.kick {
                let d = V::from(*dir);
                if d.norm() > 0.1 {
                    let i = *i as usize % noisy.n();
                    // displaced modulo the lattice by k tolerances: no lattice vector is that short
                    noisy.frac[i] += li * (d / d.norm() * (*k * tol));
                    // a translation survives only if it maps every site, and the kicked one has no partner
                    broken = n > 1;
                }
            }
            if loose_translations(&noisy, 3.2 * tol) != if broken { 1 } else { n } {
                cx.label("skipped: accidental near-translation");
                cx.nontrivial = false;
                return Ok(());
            }
            let r = Reducer { dtol: tol, atol: 5.0 };
            let s = noisy.structure(c.c.cart);
            let p = must("primitive reduction", || r.find_primitive_cell(&s))?;
            consistent(&p)?;
            let (wn, wv) = if broken { (noisy.n(), det(&noisy.lat).abs()) } else { (noisy.n() / n, det(&noisy.lat).abs() / n as f64) };
            cx.label(if broken { "translation broken" } else if c.kick.is_some() { "kick without translation to break" } else { "noise only" });
            if p.num_sites() != wn {
                return Err(format!("{} sites instead of {}", p.num_sites(), wn).into());
            }
            if !((p.lattice.determinant() - wv).abs() <= 0.02 * wv) {
                return Err(format!("volume {} instead of {}", p.lattice.determinant(), wv).into());
            }
            // every output site lies near a displaced input site of its species
            let got = Crystal::of(&p);
            let li = inv(&noisy.lat);
            let cart = noisy.cart();
            for (i, q) in got.cart().iter().enumerate() {
                let ok = (0..noisy.n()).any(|j| noisy.sp[j] == got.sp[i] && congruent(&noisy.lat, &li, &(q - cart[j]), 6.0 * amp + 1e-6));
                if !ok && !broken && n > 1 {
                    // positions may differ by the noise in the lattice vectors used for wrapping
                    let near = (0..noisy.n()).any(|j| noisy.sp[j] == got.sp[i] && congruent(&noisy.lat, &li, &(q - cart[j]), 2.0 * tol));
                    if near {
                        continue;
                    }
                }
                if !ok {
                    return Err(format!("output site {} is no site of the input crystal", i).into());
                }
            }
            Ok(())
        },
        fixed: none,
    }
}

// ---------------------------------------------------------------- Niggli oracle

/// Check the Niggli conditions (International Tables, section on reduced bases) for the metric.
/// `eps` is the tolerance of the reduction; conditions which apply only to equal lengths or boundary
/// angles are tested when the equality holds to rounding, and skipped in the band in between.
pub fn niggli_conditions(l: &M, eps: f64) -> Result<(), String> {
    let g = l.transpose() * l;
    let (a, b, c) = (g[(0, 0)], g[(1, 1)], g[(2, 2)]);
    let (xi, et, ze) = (2.0 * g[(1, 2)], 2.0 * g[(0, 2)], 2.0 * g[(0, 1)]);
    let e = 3.0 * eps + 1e-9 * c;
    let rnd = 1e-10 * c;
    let eq = |x: f64, y: f64| (x - y).abs() <= rnd;
    let show = format!("A={:.6} B={:.6} C={:.6} xi={:.6} eta={:.6} zeta={:.6}", a, b, c, xi, et, ze);
    let fail = |m: &str| Err(format!("{}: {}", m, show));
    if a > b + e || b > c + e {
        return fail("lengths not ascending");
    }
    if xi.abs() > b + e || et.abs() > a + e || ze.abs() > a + e {
        return fail("a face diagonal is shorter than an edge");
    }
    if eq(a, b) && xi.abs() > et.abs() + e {
        return fail("A=B but |xi| > |eta|");
    }
    if eq(b, c) && et.abs() > ze.abs() + e {
        return fail("B=C but |eta| > |zeta|");
    }
    let pos = [xi, et, ze].iter().filter(|x| **x > e).count();
    let neg = [xi, et, ze].iter().filter(|x| **x < -e).count();
    if pos > 0 && neg > 0 {
        return fail("angles neither all acute nor all non-acute");
    }
    if pos > 0 && pos < 3 && [xi, et, ze].iter().any(|x| x.abs() <= rnd) {
        return fail("acute and right angles mixed");
    }
    if pos == 3 {
        if eq(xi, b) && ze > 2.0 * et + e {
            return fail("xi=B but zeta > 2 eta");
        }
        if eq(et, a) && ze > 2.0 * xi + e {
            return fail("eta=A but zeta > 2 xi");
        }
        if eq(ze, a) && et > 2.0 * xi + e {
            return fail("zeta=A but eta > 2 xi");
        }
    } else if pos == 0 {
        if eq(xi, -b) && ze.abs() > e {
            return fail("xi=-B but zeta is not zero");
        }
        if eq(et, -a) && ze.abs() > e {
            return fail("eta=-A but zeta is not zero");
        }
        if eq(ze, -a) && et.abs() > e {
            return fail("zeta=-A but eta is not zero");
        }
        let s = xi + et + ze + a + b;
        if s < -e {
            return fail("the body diagonal is shorter than c");
        }
        if s.abs() <= rnd && 2.0 * (a + et) + ze > e {
            return fail("body diagonal equals c but 2(A+eta)+zeta > 0");
        }
    }
    Ok(())
}

/// Distance of a Niggli metric from the nearest condition that is not satisfied exactly: true when the
/// choice of the reduced cell could depend on the tolerance.
pub fn niggli_ambiguous(l: &M, eps: f64) -> bool {
    let g = l.transpose() * l;
    let (a, b, c) = (g[(0, 0)], g[(1, 1)], g[(2, 2)]);
    let (xi, et, ze) = (2.0 * g[(1, 2)], 2.0 * g[(0, 2)], 2.0 * g[(0, 1)]);
    let v = [
        a - b, b - c, a - c, xi, et, ze,
        xi.abs() - et.abs(), et.abs() - ze.abs(), xi.abs() - ze.abs(),
        xi.abs() - b, et.abs() - a, ze.abs() - a, xi.abs() - a,
        ze - 2.0 * et, ze - 2.0 * xi, et - 2.0 * xi, xi - 2.0 * et, xi - 2.0 * ze, et - 2.0 * ze,
        xi + et + ze + a + b, 2.0 * (a + et) + ze,
        -xi + et + ze + a + b, xi - et + ze + a + b, xi + et - ze + a + b,
        -xi - et + ze + a + b, xi - et - ze + a + b, -xi + et - ze + a + b,
    ];
    v.iter().any(|x| x.abs() > 1e-10 * c && x.abs() < 20.0 * eps)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct R03 {
    lat: LatCase,
    sites: Vec<SitePlan>,
    tol: f64,
    /// a strong shear on top: one vector plus a large multiple of another
    #[serde(default)]
    shear: Option<(u8, i16)>,
}
fn r_strategy() -> BoxedStrategy<R03> {
    (
        lat_case(),
        prop_oneof![99 => pvec(site_plan(4), 0..6), 1 => pvec(site_plan(4), 20..60)],
        unit(),
        prop::option::weighted(0.06, (0u8..6, prop_oneof![1 => -40i16..=40, 2 => -300i16..=300])),
    )
        .prop_map(|(lat, sites, tol, shear)| R03 { lat, sites, tol, shear })
        .boxed()
}
impl R03 {
    fn crystal(&self) -> Crystal {
        let mut l = self.lat.lattice();
        let m = shortest(&l);
        if let Some((k, n)) = self.shear {
            let (i, j) = [(0, 1), (0, 2), (1, 0), (1, 2), (2, 0), (2, 1)][k as usize];
            let c = l.column(i) + l.column(j) * n as f64;
            l.set_column(i, &c);
        }
        place_sites(&l, &self.sites, 0.15 * m, 0)
    }
    /// The result, or None where a strong shear exhausts the documented number of steps.
    fn reduced(&self, what: &str, cx: &mut Ctx, f: impl FnOnce() -> Structure) -> Result<Option<Structure>, Fail> {
        match call(f) {
            Ok(s) => Ok(Some(s)),
            Err(m) if self.shear.is_some() => {
                cx.label(format!("strong shear, refused: {}", m));
                Ok(None)
            }
            Err(m) => Err(format!("{} panicked: {}", what, m).into()),
        }
    }
}

fn same_sites(inp: &Crystal, out: &Structure) -> Res {
    consistent(out)?;
    let got = Crystal::of(out);
    if !same_lattice(&inp.lat, &got.lat, 1e-6) {
        return Err("the reduced cell spans another lattice".into());
    }
    if got.n() != inp.n() {
        return Err("number of sites changed".into());
    }
    if inp.n() > 0 {
        same_crystal(inp, &got, 1e-5)?;
    }
    Ok(())
}

pub fn r03() -> Prop<R03> {
    Prop {
        id: "R03",
        rule: "lattice of any Bravais type with generic or boundary metric in a random basis (supercell, skew, permutation, rotation, either handedness) with 0-5 (rarely 20-60) sites, every sixteenth basis sheared by up to 300, tolerance 1e-8 (sheared: 1e-6) to 1e-4; non-trivial: the input basis does not already satisfy the Niggli conditions",
        assumptions: &["a sheared basis may be refused because of the documented limit of 100 steps; other bases (basis change entries up to 9) must not be", "boundary conditions are tested when the metric meets them to 1e-10 relative and skipped between that and the tolerance"],
        quick: 3_000_000,
        thorough: 24_000_000,
        budget: 50_000_000,
        strategy: r_strategy,
        check: |c, cx| {
            let inp = c.crystal();
            // rounding grows with the square of the shear
            let tol = log_tol(c.tol, if c.shear.is_some() { 1e-6 } else { 1e-8 }, 1e-4);
            let eps = tol * det(&inp.lat).abs().powf(1.0 / 3.0);
            cx.nontrivial = niggli_conditions(&inp.lat, eps).is_err();
            if det(&inp.lat) < 0.0 {
                cx.label("left-handed");
            }
            let s = inp.structure(false);
            let Some(out) = c.reduced("Niggli reduction", cx, || Reducer::default().niggli_reduce(&s, &tol))? else {
                return Ok(());
            };
            niggli_conditions(&out.lattice, eps)?;
            same_sites(&inp, &out)?;
            if det(&out.lattice) * det(&inp.lat) < 0.0 {
                return Err("handedness changed".into());
            }
            // lengths are the successive minima (Minkowski reduction)
            let mk = minkowski(&inp.lat);
            let mut lens: Vec<f64> = (0..3).map(|i| out.lattice.column(i).norm()).collect();
            lens.sort_by(|a, b| a.partial_cmp(b).unwrap());
            let e = (10.0 * eps + 1e-9) / lens[0] + 1e-7;
            for i in 0..3 {
                if !((lens[i] - mk.column(i).norm()).abs() <= e) {
                    return Err(format!("edge {} has length {}, the lattice minimum is {}", i, lens[i], mk.column(i).norm()).into());
                }
            }
            cx.label(if out.lattice.column(0).dot(&out.lattice.column(1)) > eps { "all acute" } else { "non-acute" });
            Ok(())
        },
        fixed: none,
    }
}

// ---------------------------------------------------------------- R04
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct R04 {
    lat: LatCase,
    other: BasisPlan,
    tol: f64,
}
pub fn r04() -> Prop<R04> {
    Prop {
        id: "R04",
        rule: "two random bases (unimodular change, rotation, handedness) of one lattice of any Bravais type, generic or boundary metric; non-trivial: the two input bases have different metric and the reduced metric is not within the tolerance band of a boundary",
        assumptions: &["metrics closer to a boundary than 20 tolerances, but not on it to 1e-10, are skipped and counted"],
        quick: 3_000_000,
        thorough: 24_000_000,
        budget: 50_000_000,
        strategy: || (lat_case(), basis_plan(1, 5), unit()).prop_map(|(lat, other, tol)| R04 { lat, other, tol }).boxed(),
        check: |c, cx| {
            let l1 = c.lat.lattice();
            let l2 = c.other.rotation() * l1 * to_f(&c.other.unimodular(4));
            let tol = log_tol(c.tol, 1e-8, 1e-5);
            let eps = tol * det(&l1).abs().powf(1.0 / 3.0);
            let red = |l: &M| {
                let s = Structure::new(*l, vec!["Si".into()], vec![V::zeros()], false);
                must("Niggli reduction", || Reducer::default().niggli_reduce(&s, &tol).lattice)
            };
            let n1 = red(&l1)?;
            let n2 = red(&l2)?;
            let n3 = red(&n1)?;
            if niggli_ambiguous(&n1, eps) || niggli_ambiguous(&n2, eps) {
                cx.label("near a boundary: skipped");
                return Ok(());
            }
            let g = |l: &M| l.transpose() * l;
            cx.nontrivial = max_abs(&(g(&l1) - g(&l2))) > 1e-6;
            let t = 1e-8 * max_abs(&g(&n1)) + 2.0 * eps;
            if !(max_abs(&(g(&n1) - g(&n2))) <= t) {
                return Err(format!("two bases of one lattice reduce to different cells: metric {:?} and {:?}", g(&n1).as_slice(), g(&n2).as_slice()).into());
            }
            if !(max_abs(&(g(&n1) - g(&n3))) <= t) {
                return Err("reducing a reduced cell changes its lengths or angles".into());
            }
            Ok(())
        },
        fixed: none,
    }
}

// ---------------------------------------------------------------- R05
/// The known defect of the full variant: an edge is replaced by a face diagonal when the diagonal is
/// longer instead of when it is shorter. True when `got` is what that rule makes of the superbase;
/// equal lengths and products allow either choice.
fn inverted_selection(sup: &[V], got: &M) -> bool {
    let e = 1e-5;
    for p in 0..24usize {
        let mut idx = vec![0, 1, 2, 3];
        let o: Vec<usize> = [p / 6, p / 2 % 3, p % 2, 0].iter().map(|k| idx.remove(*k)).collect();
        let v: Vec<V> = o.iter().map(|i| sup[*i]).collect();
        if (0..3).any(|i| v[i].norm() > v[i + 1].norm() + e) {
            continue;
        }
        let g = |i: usize, j: usize| v[i].dot(&v[j]);
        // amount by which each condition of the rule holds
        let c = [
            g(0, 1) - (g(0, 2) + g(0, 3)),
            g(1, 2) - (g(0, 1) + g(1, 3)),
            g(0, 2) - (g(0, 1) + g(0, 3)),
        ];
        let outs = [
            [-v[0], -(v[0] + v[1]), v[2]],
            [v[0], -v[1], -(v[1] + v[2])],
            [-v[0], v[1], -(v[0] + v[2])],
            [v[0], v[1], v[2]],
        ];
        for k in 0..4 {
            let before = (0..k).all(|i| c[i] < e);
            if before && (k == 3 || c[k] > -e) && max_abs(&(M::from_columns(&outs[k]) - got)) < e {
                return true;
            }
        }
    }
    false
}
pub fn r05() -> Prop<R03> {
    Prop {
        id: "R05",
        rule: "lattice and sites as for R03, both variants; non-trivial: the input superbase has a positive scalar product",
        assumptions: &["a strongly sheared basis may be refused because of the documented limit of 100 steps; other bases must not be"],
        quick: 3_000_000,
        thorough: 24_000_000,
        budget: 50_000_000,
        strategy: r_strategy,
        check: |c, cx| {
            let inp = c.crystal();
            let s = inp.structure(true);
            let sup = |l: &M| {
                let v: Vec<V> = (0..3).map(|i| l.column(i).into_owned()).collect();
                let d = -(v[0] + v[1] + v[2]);
                vec![v[0], v[1], v[2], d]
            };
            let worst = |v: &[V]| {
                let mut w = f64::NEG_INFINITY;
                for i in 0..4 {
                    for j in 0..i {
                        w = w.max(v[i].dot(&v[j]));
                    }
                }
                w
            };
            cx.nontrivial = worst(&sup(&inp.lat)) > 1e-5;
            let r = Reducer::default();
            let Some(a) = c.reduced("Delaunay reduction", cx, || r.delaunay_reduce(&s, false))? else {
                return Ok(());
            };
            same_sites(&inp, &a)?;
            let w = worst(&sup(&a.lattice));
            if !(w <= 2e-6) {
                return Err(format!("a scalar product of the reduced superbase is {} > 0", w).into());
            }
            let Some(b) = c.reduced("full Delaunay reduction", cx, || r.delaunay_reduce(&s, true))? else {
                return Ok(());
            };
            same_sites(&inp, &b).map_err(|e| match e {
                Fail::Violation(m) => Fail::Violation(format!("full reduction: {}", m)),
                k => k,
            })?;
            // the lattice minima occur among the superbase and the sums of two of its vectors
            let mk = minkowski(&inp.lat);
            let mut lens: Vec<f64> = (0..3).map(|i| b.lattice.column(i).norm()).collect();
            lens.sort_by(|a, b| a.partial_cmp(b).unwrap());
            if (0..3).all(|i| (lens[i] - mk.column(i).norm()).abs() < 1e-5 * (1.0 + lens[i])) {
                cx.label("full: lattice minima");
                return Ok(());
            }
            let msg = format!("full reduction has edges {:?}, the lattice minima are {:?}", lens, [mk.column(0).norm(), mk.column(1).norm(), mk.column(2).norm()]);
            if inverted_selection(&sup(&a.lattice), &b.lattice) {
                cx.label("full: not the lattice minima (inverted selection)");
                return Err(Fail::Known("full-delaunay-inverted-selection".into(), msg));
            }
            Err(msg.into())
        },
        fixed: none,
    }
}
