//! S07, R06, D04, D05: refusals, basis independence of the Delaunay superbase, tables and names.
use crate::gen::*;
use crate::geom::*;
use crate::hall;
use crate::p_analyze::metric_ok;
use crate::p_struct::{lat_case, none, LatCase};
use crate::runner::*;
use crystsymm::data::core::*;
use crystsymm::pointgroup::PointGroup;
use crystsymm::reduce::Reducer;
use crystsymm::spacegroup::SpaceGroup;
use crystsymm::structure::Structure;
use crystsymm::symmop::SymmOp;
use proptest::collection::vec as pvec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::str::FromStr;

// ---------------------------------------------------------------- S07
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct S07 {
    what: u8,
    /// two columns of whole numbers, and how the third is made of them
    cols: [[i8; 3]; 2],
    mix: [i8; 2],
    place: u8,
    /// added to the third column: zero keeps the matrix singular
    extra: [i8; 3],
    /// power of two
    scale: i8,
    lat: LatCase,
    sites: Vec<SitePlan>,
    num: u8,
}
impl S07 {
    fn matrix(&self) -> IM {
        let c: Vec<Vec<i64>> = self.cols.iter().map(|c| c.iter().map(|x| *x as i64).collect()).collect();
        let third: Vec<i64> = (0..3).map(|i| c[0][i] * self.mix[0] as i64 + c[1][i] * self.mix[1] as i64 + self.extra[i] as i64).collect();
        let mut cs = vec![c[0].clone(), c[1].clone()];
        cs.insert(self.place as usize % 3, third);
        let m = IM::from_fn(|i, j| cs[j][i]);
        if self.place >= 3 {
            m.transpose()
        } else {
            m
        }
    }
}
pub fn s07() -> Prop<S07> {
    Prop {
        id: "S07",
        rule: "matrix of small whole numbers, times a power of two where it serves as a cell or acts on a point group, whose determinant is zero by construction (rank 0 to 2) or not zero, used as transformation of a structure, a space group or a point group, or as the cell of a structure with cartesian sites, of a coordinate conversion, a reciprocal lattice or a recovered transformation; non-trivial: the determinant is zero and the matrix is not the zero matrix",
        assumptions: &["whole-number entries up to 15, so that the determinant is computed exactly"],
        quick: 3_000_000,
        thorough: 24_000_000,
        budget: 50_000_000,
        strategy: || {
            let e = || -2i8..=2;
            (
                (0u8..7, [[e(), e(), e()], [e(), e(), e()]], [-2i8..=2, -2i8..=2], 0u8..6),
                (prop_oneof![3 => Just([0i8; 3]), 1 => [e(), e(), e()]], -3i8..=3),
                lat_case(),
                pvec(site_plan(3), 0..4),
                1u8..=230,
            )
                .prop_map(|((what, cols, mix, place), (extra, scale), lat, sites, num)| S07 { what, cols, mix, place, extra, scale, lat, sites, num })
                .boxed()
        },
        check: |c, cx| {
            let im = c.matrix();
            let singular = idet(&im) == 0;
            let big = idet(&im).abs() > 6;
            let m = to_f(&im);
            cx.nontrivial = singular && max_abs(&m) > 0.0;
            let verdict = |what: &str, r: Result<(), String>| -> Res {
                match (singular, r) {
                    (true, Ok(())) => Err(format!("{}: a matrix with determinant zero was accepted", what).into()),
                    (false, Err(e)) => Err(format!("{}: a matrix with determinant {} was refused: {}", what, idet(&im), e).into()),
                    _ => Ok(()),
                }
            };
            let cell = m * 2f64.powi(c.scale as i32);
            let name = ["structure", "space group", "point group", "cartesian sites", "conversion", "reciprocal lattice", "recovered transformation"][c.what as usize];
            cx.label(format!("{}: {}", name, if singular { "singular" } else { "regular" }));
            match c.what {
                0 => {
                    if big {
                        return Ok(());
                    }
                    let l = c.lat.lattice();
                    let cr = place_sites(&l, &c.sites, 0.2 * shortest(&l), 0);
                    let mut s = cr.structure(false);
                    let before = s.clone();
                    let r = call(|| s.apply_transformation(&m, &1e-3));
                    if r.is_err() && (s.lattice != before.lattice || s.species != before.species || s.coords != before.coords || s.frac_coords != before.frac_coords) {
                        return Err("a refused transformation changed the structure".into());
                    }
                    verdict(name, r)
                }
                1 => {
                    if big || !singular {
                        return Ok(());
                    }
                    let ops: Vec<SymmOp> = hall::prim_table()[c.num as usize - 1].iter().map(crate::p_group::symm).collect();
                    let t = V::new(1e-3, 1e-3, 1e-3);
                    let mut g = must("space group", || SpaceGroup::from_generators(&ops, &t))?;
                    let before: Vec<(nalgebra::Matrix3<i8>, V)> = g.operations.iter().map(|o| (o.rotation, o.translation)).collect();
                    let r = call(|| g.apply_transformation(&m, &t));
                    if r.is_err() && g.operations.iter().map(|o| (o.rotation, o.translation)).collect::<Vec<_>>() != before {
                        return Err("a refused transformation changed the group".into());
                    }
                    verdict(name, r)
                }
                2 => {
                    let num = c.num % 32 + 1;
                    let mut g = must("point group", || PointGroup::from_number(&num))?;
                    let (ops, gens) = (g.operations.clone(), g.generators.clone());
                    let r = call(|| g.apply_transformation(&cell));
                    if r.is_err() && (ops != g.operations || gens != g.generators) {
                        return Err("a refused transformation changed the point group".into());
                    }
                    verdict(name, r)
                }
                3 => {
                    let pts: Vec<V> = c.sites.iter().map(|s| V::from(s.f) * 5.0).collect();
                    let sp = vec!["Si".to_string(); pts.len()];
                    verdict(name, call(|| drop(Structure::new(cell, sp, pts, true))))
                }
                4 => {
                    let pts: Vec<V> = c.sites.iter().map(|s| V::from(s.f) * 5.0).collect();
                    verdict(name, call(|| drop(Structure::get_frac_coords(&cell, &pts))))
                }
                5 => {
                    let s = must("construction", || Structure::new(cell, vec![], vec![], false))?;
                    verdict(name, call(|| drop(s.reciprocal_lattice())))
                }
                _ => {
                    let s = must("construction", || Structure::new(cell, vec![], vec![], false))?;
                    let t = must("construction", || Structure::new(c.lat.lattice(), vec![], vec![], false))?;
                    verdict(name, call(|| drop(s.get_transformation_matrix(&t))))
                }
            }
        },
        fixed: none,
    }
}

// ---------------------------------------------------------------- R06
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct R06 {
    lat: LatCase,
    other: BasisPlan,
}
pub fn r06() -> Prop<R06> {
    Prop {
        id: "R06",
        rule: "two random bases (unimodular change, rotation, handedness) of one lattice of any Bravais type, generic or boundary metric, both reduced (plain variant); oracle: the six scalar products are the same up to order and the sums of three of them at each vector give the norms of the brute-force shortest vectors of the cosets modulo two; non-trivial: the two input bases have different metric",
        assumptions: &["moderate skew, so that the documented limit of 100 steps is not reached"],
        quick: 3_000_000,
        thorough: 24_000_000,
        budget: 50_000_000,
        strategy: || (lat_case(), basis_plan(1, 5)).prop_map(|(lat, other)| R06 { lat, other }).boxed(),
        check: |c, cx| {
            let l1 = c.lat.lattice();
            let l2 = c.other.rotation() * l1 * to_f(&c.other.unimodular(4));
            let g = |l: &M| l.transpose() * l;
            cx.nontrivial = max_abs(&(g(&l1) - g(&l2))) > 1e-6;
            let red = |l: &M| {
                let s = Structure::new(*l, vec!["Si".into()], vec![V::zeros()], false);
                must("Delaunay reduction", || Reducer::default().delaunay_reduce(&s, false).lattice)
            };
            let sup = |l: &M| -> Vec<V> {
                let v: Vec<V> = (0..3).map(|i| l.column(i).into_owned()).collect();
                vec![v[0], v[1], v[2], -(v[0] + v[1] + v[2])]
            };
            let prods = |v: &[V]| -> Vec<f64> {
                let mut p = vec![];
                for i in 0..4 {
                    for j in 0..i {
                        p.push(v[i].dot(&v[j]));
                    }
                }
                p.sort_by(|a, b| a.partial_cmp(b).unwrap());
                p
            };
            let norms = |v: &[V]| -> Vec<f64> {
                let mut n: Vec<f64> = v.iter().map(|x| x.norm_squared()).collect();
                for i in 1..4 {
                    n.push((v[0] + v[i]).norm_squared());
                }
                n.sort_by(|a, b| a.partial_cmp(b).unwrap());
                n
            };
            let (r1, r2) = (red(&l1)?, red(&l2)?);
            let (s1, s2) = (sup(&r1), sup(&r2));
            let tol = 1e-5 + 1e-9 * max_abs(&g(&l1)).max(max_abs(&g(&l2)));
            let (p1, p2) = (prods(&s1), prods(&s2));
            if !p1.iter().zip(&p2).all(|(a, b)| (a - b).abs() <= tol) {
                return Err(format!("two bases of one lattice have scalar products {:?} and {:?}", p1, p2).into());
            }
            // Voronoi vectors: the shortest vectors of the seven classes modulo 2L
            let mk = minkowski(&l1);
            let mut best = [f64::INFINITY; 8];
            for x in -3i64..=3 {
                for y in -3i64..=3 {
                    for z in -3i64..=3 {
                        let k = ((x & 1) + 2 * (y & 1) + 4 * (z & 1)) as usize;
                        let n = (mk * V::new(x as f64, y as f64, z as f64)).norm_squared();
                        best[k] = best[k].min(n);
                    }
                }
            }
            let mut want = best[1..].to_vec();
            want.sort_by(|a, b| a.partial_cmp(b).unwrap());
            let got = norms(&s1);
            if !got.iter().zip(&want).all(|(a, b)| (a - b).abs() <= 4.0 * tol) {
                return Err(format!("the vectors and pair sums of the superbase have squared lengths {:?}, the shortest ones of the lattice are {:?}", got, want).into());
            }
            Ok(())
        },
        fixed: none,
    }
}

// ---------------------------------------------------------------- D04
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct D04 {
    ch: u8,
    p: [f64; 6],
    basis: BasisPlan,
}
/// Bravais type of each lattice character (International Tables, table of the 44 characters).
const CHARACTER: [Br; 44] = [
    Br::cF, Br::hR, Br::cP, Br::hR, Br::cI, Br::tI, Br::tI, Br::oI, Br::hR, Br::mC, Br::tP, Br::hP, Br::oC, Br::mC, Br::tI, Br::oF, Br::mC, Br::tI,
    Br::oI, Br::mC, Br::tP, Br::hP, Br::oC, Br::hR, Br::mC, Br::oF, Br::mC, Br::mC, Br::mC, Br::mC, Br::aP, Br::oP, Br::mP, Br::mP, Br::mP, Br::oC,
    Br::mC, Br::oC, Br::mC, Br::oC, Br::mC, Br::oI, Br::mC, Br::aP,
];
fn centred(conv: &M, letter: char) -> M {
    match letter {
        'B' => conv * M::from_columns(&[V::new(0.5, 0.0, 0.5), V::new(0.0, 1.0, 0.0), V::new(-0.5, 0.0, 0.5)]),
        l => conv * prim_of(l),
    }
}
fn d04_case(ch: u8, p: [f64; 6], basis: BasisPlan) -> D04 {
    D04 { ch, p, basis }
}
pub fn d04() -> Prop<D04> {
    Prop {
        id: "D04",
        rule: "reduced metric of each of the 44 lattice characters with random free parameters in a random orientation; the tabulated axes applied to it must give a cell with the metric, volume and centring of the tabulated Bravais type, which is the brute-force one; for each of the seven centrings a random cell times the tabulated primitive vectors must span the centred lattice; non-trivial: the lattice has no higher symmetry than its character",
        assumptions: &["parameters for which the metric is not positive definite or has a higher symmetry are skipped and counted"],
        quick: 1_500_000,
        thorough: 12_000_000,
        budget: 10_000_000,
        strategy: || (1u8..=51, prop::array::uniform6(unit()), basis_plan(1, 0)).prop_map(|(ch, p, basis)| d04_case(ch, p, basis)).boxed(),
        check: |c, cx| {
            if c.ch > 44 {
                let letter = ['P', 'A', 'B', 'C', 'I', 'F', 'R'][c.ch as usize - 45];
                let conv = c.basis.rotation() * conv_lattice(&LatPlan { br: if letter == 'R' { Br::hR } else { Br::aP }, p: c.p, special: 0, strain: None });
                let cen = Centering::from_str(&letter.to_string()).map_err(|_| format!("centring {} is unknown", letter))?;
                let t = CENTERING_TO_PRIM_TRANS.get(&cen).ok_or(format!("no primitive vectors for {}", letter))?;
                let t = M::from_fn(|i, j| t[(i, j)] as f64 / t[(3, 3)] as f64);
                let got = conv * t;
                cx.nontrivial = true;
                cx.label(format!("centring {}", letter));
                if !(det(&t) > 0.0) {
                    return Err(format!("primitive vectors of {} are not right-handed", letter).into());
                }
                if !same_lattice(&got, &centred(&conv, letter), 1e-6) {
                    return Err(format!("primitive vectors of {} span another lattice", letter).into());
                }
                return Ok(());
            }
            let Some(l) = character_lattice(c.ch, &c.p) else {
                cx.label("skipped: no lattice");
                return Ok(());
            };
            let l = c.basis.rotation() * l;
            let br = CHARACTER[c.ch as usize - 1];
            if bravais_robust(&l) != Some(br) {
                cx.label("skipped: higher symmetry");
                return Ok(());
            }
            cx.nontrivial = true;
            cx.label(format!("character {:02}", c.ch));
            let ty = LATTICE_CHAR_TO_BRAVAIS.get(&c.ch).ok_or("no Bravais type for the character")?;
            let letter = ty.centering().to_string().chars().next().unwrap_or('?');
            let name = ty.to_string();
            let want: &[&str] = match br {
                Br::mC => &["mC", "mI"],
                b => &[NAMES[Br::ALL.iter().position(|x| *x == b).unwrap()]],
            };
            if !want.contains(&name.as_str()) {
                return Err(format!("character {} has type {} instead of {:?}", c.ch, name, br).into());
            }
            let t = LATTICE_CHAR_TO_CONV_TRANS.get(&c.ch).ok_or("no axes for the character")?;
            let conv = l * M::from_fn(|i, j| t[(j, i)] as f64);
            metric_ok(&conv, br).map_err(|e| format!("character {}: {}", c.ch, e))?;
            let ratio = det(&conv) / det(&l);
            if !((ratio - br.mult() as f64).abs() < 1e-6) {
                return Err(format!("character {}: the axes give {} times the primitive volume", c.ch, ratio).into());
            }
            if !same_lattice(&l, &centred(&conv, letter), 1e-6) {
                return Err(format!("character {}: the axes do not give a cell with centring {}", c.ch, letter).into());
            }
            Ok(())
        },
        fixed: || (1..=51u8).map(|ch| d04_case(ch, [0.31, 0.52, 0.77, 0.23, 0.64, 0.41], BasisPlan::trivial())).collect(),
    }
}
const NAMES: [&str; 14] = ["aP", "mP", "mC", "oP", "oC", "oI", "oF", "tP", "tI", "hR", "hP", "cP", "cI", "cF"];

// ---------------------------------------------------------------- D05
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct D05 {
    text: String,
}
pub fn d05() -> Prop<D05> {
    const CENTRINGS: [&str; 7] = ["P", "A", "B", "C", "I", "F", "R"];
    const SYSTEMS: [(&str, char); 7] =
        [("Triclinic", 'a'), ("Monoclinic", 'm'), ("Orthorhombic", 'o'), ("Tetragonal", 't'), ("Rhombohedral", 'r'), ("Hexagonal", 'h'), ("Cubic", 'c')];
    Prop {
        id: "D05",
        rule: "names and one-letter symbols of the centrings and lattice systems, these with letters dropped, doubled, inserted, exchanged or put into the other case, and arbitrary short texts; the fifteen Bravais types are checked in every case; non-trivial: the text is a known name or at most two letters away from one",
        assumptions: &[],
        quick: 3_000_000,
        thorough: 24_000_000,
        budget: 1_000_000,
        strategy: || {
            let names: Vec<String> = CENTRINGS.iter().map(|s| s.to_string()).chain(SYSTEMS.iter().flat_map(|(s, c)| [s.to_string(), c.to_string()])).collect();
            let known = prop::sample::select(names);
            prop_oneof![
                1 => known.clone(),
                4 => (known, pvec((0u8..5, any::<u8>(), prop::char::range('A', 'z')), 1..3)).prop_map(|(s, ed)| {
                    let mut v: Vec<char> = s.chars().collect();
                    for (k, at, ch) in ed {
                        let i = at as usize % (v.len() + 1);
                        match k {
                            0 if i < v.len() => drop(v.remove(i)),
                            1 if i < v.len() => v.insert(i, v[i]),
                            2 => v.insert(i, ch),
                            3 if i < v.len() => v[i] = if v[i].is_lowercase() { v[i].to_ascii_uppercase() } else { v[i].to_ascii_lowercase() },
                            4 if i + 1 < v.len() => v.swap(i, i + 1),
                            _ => {}
                        }
                    }
                    v.into_iter().collect()
                }),
                1 => "\\PC{0,4}",
            ]
            .prop_map(|text| D05 { text })
            .boxed()
        },
        check: |c, cx| {
            let t = c.text.as_str();
            // centrings
            let want = CENTRINGS.contains(&t);
            match (want, must("reading a centring", || Centering::from_str(t))?) {
                (true, Ok(x)) => {
                    if x.to_string() != t {
                        return Err(format!("centring {:?} is written as {:?}", t, x.to_string()).into());
                    }
                }
                (false, Err(())) => {}
                (w, _) => return Err(format!("centring {:?}: {}", t, if w { "refused" } else { "accepted" }).into()),
            }
            // lattice systems
            let sys = SYSTEMS.iter().find(|(n, l)| *n == t || l.to_string() == t);
            cx.nontrivial = want || sys.is_some() || t.chars().all(|c| c.is_ascii_alphabetic() || ('A'..='z').contains(&c));
            cx.label(if want || sys.is_some() { "known name" } else { "unknown" });
            match (sys, must("reading a lattice system", || LatticeSystem::from_str(t))?) {
                (Some((n, _)), Ok(x)) => {
                    if x.to_string() != *n {
                        return Err(format!("lattice system {:?} is written as {:?}", t, x.to_string()).into());
                    }
                }
                (None, Err(())) => {}
                (w, _) => return Err(format!("lattice system {:?}: {}", t, if w.is_some() { "refused" } else { "accepted" }).into()),
            }
            // Bravais types
            use BravaisType::*;
            let all = [
                (aP, "aP", "Triclinic"), (mP, "mP", "Monoclinic"), (mC, "mC", "Monoclinic"), (mI, "mI", "Monoclinic"), (oP, "oP", "Orthorhombic"),
                (oC, "oC", "Orthorhombic"), (oI, "oI", "Orthorhombic"), (oF, "oF", "Orthorhombic"), (tP, "tP", "Tetragonal"), (tI, "tI", "Tetragonal"),
                (hR, "hR", "Rhombohedral"), (hP, "hP", "Hexagonal"), (cP, "cP", "Cubic"), (cI, "cI", "Cubic"), (cF, "cF", "Cubic"),
            ];
            for (b, name, system) in all {
                if b.to_string() != name {
                    return Err(format!("Bravais type {} is written as {}", name, b).into());
                }
                let (cen, sys) = (b.centering().to_string(), b.lattice_system().to_string());
                if cen != name[1..] || sys != system {
                    return Err(format!("Bravais type {} has centring {} and system {}", name, cen, sys).into());
                }
            }
            Ok(())
        },
        fixed: || CENTRINGS.iter().map(|s| s.to_string()).chain(SYSTEMS.iter().flat_map(|(s, c)| [s.to_string(), c.to_string()])).map(|text| D05 { text }).collect(),
    }
}
