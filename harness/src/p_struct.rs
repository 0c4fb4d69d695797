//! S01..S06: structures, cells, transformations, formulas.
use crate::gen::*;
use crate::geom::*;
use crate::runner::*;
use crystsymm::structure::Structure;
use proptest::collection::vec as pvec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::f64::consts::PI;

pub fn none<C>() -> Vec<C> {
    vec![]
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LatCase {
    pub lat: LatPlan,
    pub basis: BasisPlan,
    /// overall scale 0..1 -> about 0.35..3
    pub scale: f64,
}
pub fn lat_case() -> BoxedStrategy<LatCase> {
    (lat_plan(true), basis_plan(3, 5), unit()).prop_map(|(lat, basis, scale)| LatCase { lat, basis, scale }).boxed()
}
impl LatCase {
    pub fn lattice(&self) -> M {
        self.basis.rotation() * prim_lattice(&self.lat) * to_f(&self.basis.supercell(3)) * log_tol(self.scale, 0.35, 3.0)
    }
}

fn close(a: f64, b: f64, tol: f64) -> bool {
    (a - b).abs() <= tol * (1.0 + a.abs().max(b.abs()))
}

// ---------------------------------------------------------------- S01
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct S01 {
    lat: LatCase,
    pts: Vec<[f64; 3]>,
    far: u8,
    cart: bool,
}
pub fn s01() -> Prop<S01> {
    Prop {
        id: "S01",
        rule: "random lattice (14 Bravais types, special metrics, supercell, skew, rotation, either handedness, scale 0.35-3) with 0-8 (every fiftieth case 20-80) sites placed in or up to 1000 cells outside the cell, given as cartesian or fractional; non-trivial: at least one site and a lattice that is neither diagonal nor symmetric",
        assumptions: &["lattice condition number below about 1e4, so 1e-9 relative accuracy is reachable"],
        quick: 4_000_000,
        thorough: 32_000_000,
        budget: 50_000_000,
        strategy: || {
            (lat_case(), prop_oneof![49 => pvec(prop::array::uniform3(-1.0..1.0f64), 0..8), 1 => pvec(prop::array::uniform3(-1.0..1.0f64), 20..80)], 0u8..4, any::<bool>())
                .prop_map(|(lat, pts, far, cart)| S01 { lat, pts, far, cart })
                .boxed()
        },
        check: |c, cx| {
            let l = c.lat.lattice();
            let s = [1.0, 3.0, 40.0, 1000.0][c.far as usize];
            let pts: Vec<V> = c.pts.iter().map(|p| V::from(*p) * s).collect();
            let sp: Vec<String> = (0..pts.len()).map(|i| species(0, i * 5 + 1)).collect();
            let sym = max_abs(&(l - l.transpose()));
            cx.nontrivial = !pts.is_empty() && sym > 1e-3;
            cx.label(if c.cart { "cartesian" } else { "fractional" });
            if det(&l) < 0.0 {
                cx.label("left-handed");
            }
            let st = must("construction", || Structure::new(l, sp.clone(), pts.clone(), c.cart))?;
            if st.lattice != l {
                return Err("lattice changed by construction".into());
            }
            if st.species != sp || st.num_sites() != pts.len() {
                return Err("species changed by construction".into());
            }
            let (given, other) = if c.cart { (&st.coords, &st.frac_coords) } else { (&st.frac_coords, &st.coords) };
            if given != &pts {
                return Err("given coordinates changed by construction".into());
            }
            if other.len() != pts.len() {
                return Err("coordinate count differs".into());
            }
            let li = inv(&l);
            for (p, o) in pts.iter().zip(other) {
                let want = if c.cart { li * p } else { l * p };
                // error bound: relative to the size of the numbers that were combined
                let size = if c.cart { max_abs(&li) } else { max_abs(&l) } * p.norm();
                if !((want - o).norm() <= 1e-7 * (1e-2 + size)) {
                    return Err(format!("derived coordinates {:?}, expected {:?}", o.as_slice(), want.as_slice()).into());
                }
            }
            // round trip through the conversion functions
            let f = must("to fractional", || Structure::get_frac_coords(&l, &pts))?;
            let back = must("to cartesian", || Structure::get_cart_coords(&l, &f))?;
            let k = must("to cartesian", || Structure::get_cart_coords(&l, &pts))?;
            let fb = must("to fractional", || Structure::get_frac_coords(&l, &k))?;
            let cond = max_abs(&l) * max_abs(&li) * 9.0;
            for i in 0..pts.len() {
                let t = 1e-8 * cond * (1e-2 + pts[i].norm());
                if !((back[i] - pts[i]).norm() <= t) || !((fb[i] - pts[i]).norm() <= t) {
                    return Err(format!("round trip moved {:?} to {:?} / {:?}", pts[i].as_slice(), back[i].as_slice(), fb[i].as_slice()).into());
                }
            }
            Ok(())
        },
        fixed: none,
    }
}

// ---------------------------------------------------------------- S02
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct S02 {
    lat: LatCase,
    rot: [f64; 4],
}
pub fn s02() -> Prop<S02> {
    Prop {
        id: "S02",
        rule: "random lattice as for S01 and a second random rotation; non-trivial: the three lengths and the three angles are pairwise different",
        assumptions: &[],
        quick: 4_000_000,
        thorough: 32_000_000,
        budget: 50_000_000,
        strategy: || (lat_case(), prop::array::uniform4(-1.0..1.0f64)).prop_map(|(lat, rot)| S02 { lat, rot }).boxed(),
        check: |c, cx| {
            let l = c.lat.lattice();
            let rot = BasisPlan { rot: Some(c.rot), ..BasisPlan::trivial() }.rotation();
            let mk = |m: M| Structure::new(m, vec!["Si".into()], vec![V::new(0.1, 0.2, 0.3)], false);
            let v: Vec<V> = (0..3).map(|i| l.column(i).into_owned()).collect();
            let len: Vec<f64> = v.iter().map(|x| (x[0] * x[0] + x[1] * x[1] + x[2] * x[2]).sqrt()).collect();
            let ang = |i: usize, j: usize| (v[i].cross(&v[j]).norm()).atan2(v[i].dot(&v[j])).to_degrees();
            let angs = [ang(1, 2), ang(0, 2), ang(0, 1)];
            let diff = |a: &[f64]| (a[0] - a[1]).abs() > 1e-3 && (a[0] - a[2]).abs() > 1e-3 && (a[1] - a[2]).abs() > 1e-3;
            cx.nontrivial = diff(&len) && diff(&angs);
            if det(&l) < 0.0 {
                cx.label("left-handed");
            }
            for (tag, m, r) in [("", l, M::identity()), (" after rotation", rot * l, rot)] {
                let s = mk(m);
                let got = must("cell scalars", || [s.a(), s.b(), s.c(), s.alpha(), s.beta(), s.gamma(), s.volume()])?;
                let want = [len[0], len[1], len[2], angs[0], angs[1], angs[2], det(&l).abs()];
                for i in 0..7 {
                    let tol = if (3..6).contains(&i) { 1e-7 } else { 1e-10 };
                    if !close(got[i], want[i], tol) {
                        let n = ["a", "b", "c", "alpha", "beta", "gamma", "volume"][i];
                        return Err(format!("{}{} is {}, expected {}", n, tag, got[i], want[i]).into());
                    }
                }
                let g = s.metric_tensor();
                for i in 0..3 {
                    for j in 0..3 {
                        if !close(g[(i, j)], v[i].dot(&v[j]), 1e-10 * 50.0) {
                            return Err(format!("metric tensor entry {},{}{} is {}, expected {}", i, j, tag, g[(i, j)], v[i].dot(&v[j])).into());
                        }
                    }
                }
                let rec = must("reciprocal lattice", || s.reciprocal_lattice())?;
                let want = r * inv(&l).transpose() * (2.0 * PI);
                if !(max_abs(&(rec - want)) <= 1e-9 * (1.0 + max_abs(&want))) {
                    return Err(format!("reciprocal lattice{} {:?}, expected {:?}", tag, rec.as_slice(), want.as_slice()).into());
                }
                let dm = s.delaunay_matrix();
                for k in 0..3 {
                    if !((dm.column(k) - m.column(k)).norm() <= 1e-9) {
                        return Err(format!("Delaunay matrix column {} differs from lattice vector{}", k, tag).into());
                    }
                }
                let d4: V = -(m.column(0) + m.column(1) + m.column(2));
                if !((dm.column(3) - d4).norm() <= 1e-9) {
                    return Err(format!("fourth Delaunay vector{} is {:?}, expected {:?}", tag, dm.column(3).as_slice(), d4.as_slice()).into());
                }
            }
            Ok(())
        },
        fixed: none,
    }
}

// ---------------------------------------------------------------- S03
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct S03 {
    lat: LatCase,
    /// species, and per component (kind, value, whole number)
    sites: Vec<(u8, [(u8, f64, i16); 3])>,
    tol: f64,
    #[serde(default)]
    cart: bool,
    #[serde(default)]
    names: u8,
}
pub fn s03() -> Prop<S03> {
    Prop {
        id: "S03",
        rule: "random cell with 0-10 (every fortieth case 20-60) sites, given as fractional or cartesian coordinates, whose fractional coordinates are generic, on a cell face, within or just outside the tolerance of a face, plus whole numbers up to 1000, up to eight species interleaved (a fifth with labels that differ in case, blanks, length or are not ASCII); non-trivial: at least two species out of order or a coordinate outside the unit interval",
        assumptions: &["coordinates exactly on the tolerance boundary are not generated"],
        quick: 3_000_000,
        thorough: 24_000_000,
        budget: 50_000_000,
        strategy: || {
            let comp = (0u8..8, unit(), prop_oneof![4 => Just(0i16), 2 => -3i16..=3, 1 => -1000i16..=1000]);
            let site = (0u8..8, [comp.clone(), comp.clone(), comp].prop_map(|x| x));
            (lat_case(), prop_oneof![39 => pvec(site.clone(), 0..10), 1 => pvec(site, 20..60)], unit(), prop::bool::weighted(0.3), names())
                .prop_map(|(lat, sites, tol, cart, names)| S03 { lat, sites, tol, cart, names })
                .boxed()
        },
        check: |c, cx| {
            let l = c.lat.lattice();
            let tol = log_tol(c.tol, 1e-4, 0.2);
            let ft: Vec<f64> = (0..3).map(|k| (tol / l.column(k).norm()).min(0.2)).collect();
            let tol = (0..3).map(|k| ft[k] * l.column(k).norm()).fold(f64::INFINITY, f64::min);
            let ft: Vec<f64> = (0..3).map(|k| tol / l.column(k).norm()).collect();
            let mut frac = vec![];
            let mut sp = vec![];
            for (s, comps) in &c.sites {
                let mut f = V::zeros();
                for k in 0..3 {
                    let (kind, v, n) = comps[k];
                    let base = match kind {
                        0 | 1 | 2 => v,
                        3 => 0.0,
                        4 => ft[k] * (0.1 + 0.8 * v),
                        5 => -ft[k] * (0.1 + 0.8 * v),
                        6 => -ft[k] * (1.05 + v),
                        _ => (v * 12.0).floor() / 12.0,
                    };
                    f[k] = base + n as f64;
                }
                frac.push(f);
                sp.push(species(c.names, *s as usize));
            }
            cx.nontrivial = sp.windows(2).any(|w| w[0] > w[1]) || frac.iter().any(|f| f.iter().any(|x| *x < 0.0 || *x >= 1.0));
            let mut s = if c.cart {
                let cart = frac.iter().map(|f| l * f).collect();
                must("construction", || Structure::new(l, sp.clone(), cart, true))?
            } else {
                Structure::new(l, sp.clone(), frac.clone(), false)
            };
            // S01 decides whether the conversion from cartesian coordinates is accurate
            let frac = if c.cart { s.frac_coords.clone() } else { frac };
            must("normalisation", || s.normalize_coords(&tol))?;
            if s.lattice != l {
                return Err("normalisation changed the lattice".into());
            }
            let mut idx: Vec<usize> = (0..sp.len()).collect();
            idx.sort_by(|&i, &j| sp[i].cmp(&sp[j]));
            if s.species.len() != sp.len() || s.frac_coords.len() != sp.len() || s.coords.len() != sp.len() {
                return Err("normalisation changed the number of sites".into());
            }
            for (pos, &i) in idx.iter().enumerate() {
                if s.species[pos] != sp[i] {
                    return Err(format!("site {} after normalisation is {}, expected {}", pos, s.species[pos], sp[i]).into());
                }
                let f = s.frac_coords[pos];
                let d = f - frac[i];
                for k in 0..3 {
                    if !((d[k] - d[k].round()).abs() <= 1e-10 * (10.0 + frac[i][k].abs())) {
                        return Err(format!("coordinate {} became {}: not a whole-cell shift", frac[i][k], f[k]).into());
                    }
                    if !(f[k] >= -ft[k] - 1e-9 && f[k] <= 1.0 - ft[k] + 1e-9) {
                        return Err(format!("coordinate {} became {}, outside the cell (tolerance {})", frac[i][k], f[k], ft[k]).into());
                    }
                }
                if !((l * f - s.coords[pos]).norm() <= 1e-8) {
                    return Err("cartesian and fractional coordinates disagree after normalisation".into());
                }
            }
            let mut t = s.clone();
            must("second normalisation", || t.normalize_coords(&tol))?;
            for i in 0..sp.len() {
                if t.species[i] != s.species[i] || !((t.frac_coords[i] - s.frac_coords[i]).norm() <= 1e-12) || !((t.coords[i] - s.coords[i]).norm() <= 1e-9) {
                    return Err("normalising twice differs from normalising once".into());
                }
            }
            Ok(())
        },
        fixed: none,
    }
}

// ---------------------------------------------------------------- S04
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct S04 {
    c: CrystalPlan,
    /// cells of the history, each relative to the primitive lattice; the bool returns to the previous cell
    steps: Vec<(BasisPlan, u8)>,
}
pub fn s04() -> Prop<S04> {
    Prop {
        id: "S04",
        rule: "crystal of 1-5 (rarely 20-36) sites (14 Bravais types, special metrics) described in a random cell, then 1-4 transformations: integer supercells and unimodular changes relative to the current cell, direct changes to another cell of the same translation lattice, or back to the previous cell; non-trivial: some step is neither the identity nor diagonal, or changes the volume",
        assumptions: &["site distance at least six tolerances and 0.6 Å", "transformation entries small enough for cells of at most 60 sites"],
        quick: 200_000,
        thorough: 1_600_000,
        budget: 400_000_000,
        strategy: || {
            (crystal_plan(5, 3, true), pvec((basis_plan(6, 3), 0u8..4), 1..=4)).prop_map(|(c, steps)| S04 { c, steps }).boxed()
        },
        check: |c, cx| {
            let tol = c.c.dtol();
            let base = c.c.base(dmin_for(tol));
            let mut k = c.c.basis.supercell(2);
            let start = scramble(&supercell(&base, &k), &c.c.keys, c.c.shifts);
            let mut s = start.structure(c.c.cart);
            let mut prev = k;
            for (step, (b, mode)) in c.steps.iter().enumerate() {
                let u = b.supercell(2);
                let target = match mode {
                    0 | 1 => k * u,
                    2 => u,
                    _ => prev,
                };
                let sites = base.n() as i64 * idet(&target).abs();
                if sites > 60 || target.iter().any(|x| x.abs() > 24) {
                    cx.label("step skipped (too large)");
                    continue;
                }
                let t = inv(&to_f(&k)) * to_f(&target);
                // integer transformations are passed as exact integers
                let t = if int_dev(&t) < 1e-9 { t.map(|x| x.round()) } else { t };
                let ratio = idet(&target) as f64 / idet(&k) as f64;
                let offdiag = t[(0, 1)].abs() + t[(0, 2)].abs() + t[(1, 2)].abs() + t[(1, 0)].abs() + t[(2, 0)].abs() + t[(2, 1)].abs();
                if offdiag > 1e-9 || (ratio.abs() - 1.0).abs() > 1e-9 {
                    cx.nontrivial = true;
                }
                cx.label(if int_dev(&t) < 1e-9 { "integer step" } else { "fractional step" });
                cx.label(format!("volume {}", if ratio.abs() > 1.0001 { "grows" } else if ratio.abs() < 0.9999 { "shrinks" } else { "kept" }));
                let before = s.lattice;
                must("transformation", || s.apply_transformation(&t, &tol))?;
                let want = before * t;
                if !(max_abs(&(s.lattice - want)) <= 1e-9 * (1.0 + max_abs(&want))) {
                    return Err(format!("step {}: lattice is not the old lattice times the matrix", step).into());
                }
                let got = Crystal::of(&s);
                same_crystal(&base, &got, 1e-5).map_err(|e| format!("step {}: {}", step, e))?;
                for i in 0..got.n() {
                    if !((s.coords[i] - s.lattice * s.frac_coords[i]).norm() <= 1e-7) {
                        return Err(format!("step {}: cartesian and fractional coordinates disagree", step).into());
                    }
                }
                prev = k;
                k = target;
            }
            Ok(())
        },
        fixed: none,
    }
}

// ---------------------------------------------------------------- S05
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct S05 {
    counts: Vec<(u8, u16)>,
    mult: u8,
    keys: Vec<u8>,
}
const LABELS: [&str; 16] = ["C", "Ca", "Cl", "H", "O", "Si", "Na", "X1", "Fe3+", "a", "B", "Zr", "CA", "é", "Uuo-label-A", "Uuo-label-B"];
pub fn s05() -> Prop<S05> {
    Prop {
        id: "S05",
        rule: "1-5 species labels (prefixes of each other included) with 1-400 sites each (one in 1800: 8000-13000), a common factor up to 12, sites interleaved; non-trivial: at least two species and a common divisor above one or a count above one",
        assumptions: &["at most 65535 sites, the capacity of the counts"],
        quick: 1_000_000,
        thorough: 8_000_000,
        budget: 50_000_000,
        strategy: || {
            (
                pvec((0u8..16, prop_oneof![1200 => 1u16..12, 400 => 1u16..60, 200 => 100u16..400, 1 => 8_000u16..13_000]), 1..=5),
                prop_oneof![3 => Just(1u8), 3 => 2u8..=12],
                pvec(any::<u8>(), 0..8),
            )
                .prop_map(|(counts, mult, keys)| S05 { counts, mult, keys })
                .boxed()
        },
        check: |c, cx| {
            let mut tally: std::collections::BTreeMap<String, u32> = Default::default();
            let mut sp: Vec<String> = vec![];
            for (l, n) in &c.counts {
                let m = if *n > 400 { *n as u32 } else { (*n as u32 * c.mult as u32).min(400) };
                for _ in 0..m {
                    sp.push(LABELS[*l as usize % 16].to_string());
                }
                *tally.entry(LABELS[*l as usize % 16].to_string()).or_insert(0) += m;
            }
            let n = sp.len();
            let cr = scramble(&Crystal { lat: M::identity() * 5.0, sp, frac: (0..n).map(|i| V::new(i as f64 / n as f64, 0.0, 0.0)).collect() }, &c.keys, false);
            let s = cr.structure(false);
            fn gcd(a: u32, b: u32) -> u32 {
                if b == 0 { a } else { gcd(b, a % b) }
            }
            let g = tally.values().fold(0, |a, b| gcd(a, *b));
            cx.nontrivial = tally.len() >= 2 && tally.values().any(|x| *x > 1);
            if g > 1 {
                cx.label("common factor");
            }
            if tally.values().any(|x| *x > 400) {
                cx.label("more than 400 of a species");
            }
            if tally.values().any(|x| *x > 127) {
                cx.label("more than 127 of a species");
            }
            let w = |x: u32| if x == 1 { String::new() } else { x.to_string() };
            let f: String = tally.iter().map(|(k, v)| format!("{}{}", k, w(*v))).collect();
            let r: String = tally.iter().map(|(k, v)| format!("{}{}", k, w(*v / g))).collect();
            let (gf, gr) = must("formulas", || s.formulas())?;
            if gf != f || gr != r {
                return Err(format!("formulas are {} / {}, expected {} / {}", gf, gr, f, r).into());
            }
            let (m, first, cnt) = must("rarest element", || s.get_min_element())?;
            let min = tally.values().min().unwrap();
            let want = tally.iter().find(|(_, v)| *v == min).unwrap().0;
            if &m != want {
                return Err(format!("rarest element is {}, expected {}", m, want).into());
            }
            if cnt.len() != tally.len() || first.len() != tally.len() {
                return Err("element maps have the wrong size".into());
            }
            for (k, v) in &tally {
                if cnt.get(k).map(|x| *x as u32) != Some(*v) {
                    return Err(format!("count of {} is {:?}, expected {}", k, cnt.get(k), v).into());
                }
                let pos = cr.sp.iter().position(|x| x == k).unwrap();
                if first.get(k).map(|x| *x as usize) != Some(pos) {
                    return Err(format!("first index of {} is {:?}, expected {}", k, first.get(k), pos).into());
                }
            }
            Ok(())
        },
        fixed: || {
            let f = |counts: &[(u8, u16)]| S05 { counts: counts.to_vec(), mult: 1, keys: vec![3, 1, 4] };
            vec![f(&[(0, 40_000), (1, 20_000)]), f(&[(1, 32_767), (0, 32_768)]), f(&[(6, 65_535)]), f(&[(2, 21_845), (6, 43_690)])]
        },
    }
}

// ---------------------------------------------------------------- S06
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct S06 {
    a: LatCase,
    b: LatCase,
    related: bool,
}
pub fn s06() -> Prop<S06> {
    Prop {
        id: "S06",
        rule: "two lattices, either independent or one an integer transformation of the other applied to the structure; non-trivial: the transformation is not symmetric",
        assumptions: &[],
        quick: 3_000_000,
        thorough: 24_000_000,
        budget: 50_000_000,
        strategy: || (lat_case(), lat_case(), any::<bool>()).prop_map(|(a, b, related)| S06 { a, b, related }).boxed(),
        check: |c, cx| {
            let l1 = c.a.lattice();
            let mk = |m: M| Structure::new(m, vec!["Si".into()], vec![V::new(0.1, 0.2, 0.3)], false);
            let (s1, s2, exact) = if c.related {
                let t = to_f(&c.b.basis.supercell(2));
                let s1 = mk(l1);
                let mut s2 = s1.clone();
                must("transformation", || s2.apply_transformation(&t, &0.01))?;
                (s1, s2, Some(t))
            } else {
                (mk(l1), mk(c.b.lattice()), None)
            };
            cx.label(if c.related { "related cells" } else { "unrelated cells" });
            let t = must("transformation recovery", || s1.get_transformation_matrix(&s2))?;
            let u = must("transformation recovery", || s2.get_transformation_matrix(&s1))?;
            cx.nontrivial = max_abs(&(t - t.transpose())) > 1e-3;
            let cond = max_abs(&s1.lattice) * max_abs(&inv(&s1.lattice)) * max_abs(&s2.lattice) * max_abs(&inv(&s2.lattice));
            let r = s1.lattice * t;
            if !(max_abs(&(r - s2.lattice)) <= 1e-8 * cond.max(10.0) * (1.0 + max_abs(&s2.lattice))) {
                return Err(format!("lattice times recovered matrix is {:?}, expected {:?}", r.as_slice(), s2.lattice.as_slice()).into());
            }
            if let Some(e) = exact {
                if !(max_abs(&(t - e)) <= 1e-7) {
                    return Err(format!("applied {:?}, recovered {:?}", e.as_slice(), t.as_slice()).into());
                }
            }
            if !(max_abs(&(t * u - M::identity())) <= 1e-8 * cond.max(10.0) * 10.0) {
                return Err("matrices of the two directions are not inverse".into());
            }
            Ok(())
        },
        fixed: none,
    }
}
