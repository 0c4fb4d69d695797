//! A01..A07: standard cells and space groups.
use crate::gen::*;
use crate::geom::*;
use crate::hall;
use crate::p_group::{compare_ops, key, keyi, symbol_ok, I9};
use crate::p_struct::none;
use crate::runner::*;
use crystsymm::analyzer::SymmetryAnalyzer;
use crystsymm::structure::Structure;
use crystsymm::symmop::SymmOp;
use proptest::collection::vec as pvec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

pub fn analyzer(dtol: f64) -> SymmetryAnalyzer {
    SymmetryAnalyzer { dtol, atol: 5.0 }
}

fn lens(l: &M) -> [f64; 3] {
    [l.column(0).norm(), l.column(1).norm(), l.column(2).norm()]
}
/// Cosines of the angles between b and c, a and c, a and b.
fn cosines(l: &M) -> [f64; 3] {
    let n = lens(l);
    let d = |i: usize, j: usize| l.column(i).dot(&l.column(j)) / (n[i] * n[j]);
    [d(1, 2), d(0, 2), d(0, 1)]
}

/// Metric of a conventional cell of the given type.
pub fn metric_ok(l: &M, br: Br) -> Result<(), String> {
    let e = 2e-5;
    let n = lens(l);
    let c = cosines(l);
    let show = format!("lengths {:?}, cosines {:?}", n, c);
    let eq = |a: f64, b: f64| (a - b).abs() <= e * a.max(b);
    let zero = |x: f64| x.abs() <= e;
    let ok = match br {
        Br::aP => true,
        Br::mP | Br::mC => zero(c[0]) && zero(c[2]),
        Br::oP | Br::oC | Br::oI | Br::oF => c.iter().all(|x| zero(*x)),
        Br::tP | Br::tI => c.iter().all(|x| zero(*x)) && eq(n[0], n[1]),
        Br::hP | Br::hR => zero(c[0]) && zero(c[1]) && zero(c[2] + 0.5) && eq(n[0], n[1]),
        Br::cP | Br::cI | Br::cF => c.iter().all(|x| zero(*x)) && eq(n[0], n[1]) && eq(n[1], n[2]),
    };
    if ok {
        Ok(())
    } else {
        Err(format!("cell does not have the metric of {:?}: {}", br, show))
    }
}

/// Letters a conventional cell of the type may carry.
fn letters(br: Br) -> &'static [char] {
    match br {
        Br::mC => &['C', 'I'],
        Br::oC => &['C'],
        Br::oI | Br::tI | Br::cI => &['I'],
        Br::oF | Br::cF => &['F'],
        Br::hR => &['R'],
        _ => &['P'],
    }
}
/// Which of the allowed centrings does the conventional cell have with respect to the lattice?
fn centring_in(conv: &M, prim: &M, br: Br) -> Option<char> {
    letters(br).iter().copied().find(|c| same_lattice(prim, &(conv * prim_of(*c)), 1e-4))
}

pub fn consistent(s: &Structure) -> Result<(), String> {
    if s.species.len() != s.coords.len() || s.species.len() != s.frac_coords.len() {
        return Err("site lists of different length".into());
    }
    for i in 0..s.coords.len() {
        if !((s.coords[i] - s.lattice * s.frac_coords[i]).norm() <= 1e-7 * (1.0 + s.coords[i].norm())) {
            return Err("cartesian and fractional coordinates disagree".into());
        }
    }
    Ok(())
}

/// Input of A01/A02 with the facts found by brute force, or a reason for skipping.
fn cell_case(c: &CrystalPlan) -> Result<(Crystal, M, usize, Br, f64), &'static str> {
    let tol = c.dtol();
    let input = c.input(dmin_for(tol));
    let (prim, n) = primitive_lattice(&input, 1e-6);
    if loose_translations(&input, 2.9 * tol) != n {
        return Err("skipped: accidental near-translation");
    }
    match bravais_robust(&prim) {
        Some(br) => Ok((input, prim, n, br, tol)),
        None => Err("skipped: metric close to another Bravais type"),
    }
}

// ---------------------------------------------------------------- A01
pub fn a01() -> Prop<CrystalPlan> {
    Prop {
        id: "A01",
        rule: "crystal of 1-5 (rarely 20-36) sites on a lattice of any Bravais type with generic or special metric, given in any supercell up to 6, skewed, permuted, left-handed, rotated basis; expected Bravais type from the brute-force symmetry of the brute-force primitive lattice; non-trivial: the input cell is not the returned conventional cell",
        assumptions: &["metric exactly of its Bravais type or at least 0.01 % away from a higher one", "sites at least six tolerances apart"],
        quick: 1_000_000,
        thorough: 8_000_000,
        budget: 200_000_000,
        strategy: || crystal_plan(5, 6, true).boxed(),
        check: |c, cx| {
            let (input, prim, _n, br, tol) = match cell_case(c) {
                Ok(x) => x,
                Err(e) => {
                    cx.label(e);
                    return Ok(());
                }
            };
            let s = input.structure(c.cart);
            let sa = analyzer(tol);
            let g = must("conventional cell", || sa.get_standard_conventional_structure(&s))?;
            consistent(&g)?;
            let got = Crystal::of(&g);
            same_crystal(&input, &got, 1e-5)?;
            cx.nontrivial = max_abs(&(got.lat - input.lat)) > 1e-6;
            if det(&got.lat) < 0.0 {
                return Err("conventional cell is left-handed".into());
            }
            metric_ok(&got.lat, br)?;
            let ratio = det(&got.lat) / det(&prim).abs();
            if !((ratio - br.mult() as f64).abs() < 1e-5) {
                return Err(format!("conventional cell of {:?} has {} times the primitive volume", br, ratio).into());
            }
            match centring_in(&got.lat, &prim, br) {
                Some(l) => cx.label(format!("{:?} {}", br, l)),
                None => return Err(format!("conventional cell of {:?} has the wrong centring", br).into()),
            }
            Ok(())
        },
        fixed: none,
    }
}

// ---------------------------------------------------------------- A02
pub fn a02() -> Prop<CrystalPlan> {
    Prop {
        id: "A02",
        rule: "inputs as for A01; the standard primitive cell is compared with the conventional cell returned for the same input multiplied by the primitive vectors of its centring; non-trivial: the input cell is not the returned cell",
        assumptions: &["as for A01"],
        quick: 700_000,
        thorough: 5_600_000,
        budget: 200_000_000,
        strategy: || crystal_plan(5, 6, true).boxed(),
        check: |c, cx| {
            let (input, prim, _n, br, tol) = match cell_case(c) {
                Ok(x) => x,
                Err(e) => {
                    cx.label(e);
                    return Ok(());
                }
            };
            let s = input.structure(c.cart);
            let sa = analyzer(tol);
            let g = must("standard primitive cell", || sa.get_standard_primitive_structure(&s))?;
            consistent(&g)?;
            let got = Crystal::of(&g);
            same_crystal(&input, &got, 1e-5)?;
            cx.nontrivial = max_abs(&(got.lat - input.lat)) > 1e-6;
            if det(&got.lat) < 0.0 {
                return Err("standard primitive cell is left-handed".into());
            }
            if !same_lattice(&prim, &got.lat, 1e-5) {
                return Err("standard primitive cell is not primitive".into());
            }
            let h = must("conventional cell", || sa.get_standard_conventional_structure(&s))?;
            let conv = h.lattice;
            let ok = letters(br).iter().any(|l| max_abs(&(conv * prim_of(*l) - got.lat)) < 1e-5);
            if !ok {
                return Err(format!("standard primitive vectors are not those of the conventional cell ({:?})", br).into());
            }
            cx.label(format!("{:?}", br));
            Ok(())
        },
        fixed: none,
    }
}

// ---------------------------------------------------------------- crystals with a known space group
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ACase {
    pub plan: SgPlan,
    /// origin: None as tabulated, otherwise shifted (conventional fractions)
    pub shift: Option<[f64; 3]>,
    /// snap the shift to multiples of 1/24
    pub snap: bool,
    pub max_sites: u8,
    /// displace every site by up to this many tolerances (the symmetry becomes ambiguous)
    #[serde(default)]
    pub rough: Option<f64>,
}
fn site_limit() -> impl Strategy<Value = u8> + Clone {
    prop_oneof![120 => Just(8u8), 120 => Just(12u8), 60 => Just(16u8), 20 => Just(24u8), 1 => Just(48u8)]
}
pub fn a_case(maxdet: u8, specials: bool, shifted: f64) -> BoxedStrategy<ACase> {
    let sh = if shifted > 0.0 { prop::option::weighted(shifted, prop::array::uniform3(unit())).boxed() } else { Just(None).boxed() };
    (sg_plan_for(sg_num(), maxdet, specials), sh, any::<bool>(), site_limit())
        .prop_map(|(plan, shift, snap, max_sites)| ACase { plan, shift, snap, max_sites, rough: None })
        .boxed()
}

/// Some of the crystals get one site which breaks their symmetry.
pub fn with_defects(s: BoxedStrategy<ACase>) -> BoxedStrategy<ACase> {
    (s, prop::option::weighted(0.12, (any::<u8>(), any::<u8>())))
        .prop_map(|(mut c, d)| {
            c.plan.defect = d;
            c
        })
        .boxed()
}

/// A crystal with everything brute force finds out about it.
pub struct Facts {
    pub input: Crystal,
    /// primitive lattice (Minkowski-reduced)
    pub prim: M,
    /// symmetry operations modulo primitive translations
    pub ops: Vec<COp>,
    /// the number the crystal was built with, if it has no further symmetry
    pub num: Option<u8>,
    /// Bravais type of the lattice
    pub br: Br,
    pub dtol: f64,
}

impl Facts {
    /// The group whose reference setting the crystal has in the given standard primitive cell.
    pub fn setting(&self, std: &M) -> Option<u8> {
        if same_lattice(&self.prim, std, 1e-5) {
            as_reference(&ops_in(&self.ops, &self.prim, std), self.br, 1e-5)
        } else {
            None
        }
    }
    /// Whether an answer obtained in the given standard primitive cell is right for that cell: groups
    /// are reported if the operations are the tabulated ones within the tolerance, and not refused if
    /// they are so exactly.
    pub fn explains(&self, std: &M, identified: bool) -> bool {
        if !identified {
            return self.setting(std).is_none();
        }
        let tol = std.column_iter().map(|c| 1.01 * self.dtol / c.norm()).fold(1e-5, f64::max);
        same_lattice(&self.prim, std, 1e-5) && as_reference(&ops_in(&self.ops, &self.prim, std), self.br, tol).is_some()
    }
}

fn point_order(num: u8) -> usize {
    hall::prim_table()[num as usize - 1].len()
}

/// Symmetry of a crystal, if no operation or translation is ambiguous at the tolerance.
pub fn facts_of(input: &Crystal, dtol: f64) -> Result<(M, Vec<COp>, Br), &'static str> {
    if input.n() == 0 {
        return Err("skipped: no orbit fits");
    }
    let (prim, n) = primitive_lattice(input, 1e-6);
    if loose_translations(input, 5.0 * dtol) != n {
        return Err("skipped: accidental near-translation");
    }
    let br = match bravais_robust(&prim) {
        Some(b) => b,
        None => return Err("skipped: metric close to another Bravais type"),
    };
    let ops = space_group(input, &prim, 1e-6);
    if space_group(input, &prim, 5.0 * dtol).len() != ops.len() {
        return Err("skipped: accidental near-symmetry");
    }
    Ok((prim, ops, br))
}

impl ACase {
    pub fn dtol(&self) -> f64 {
        log_tol(self.plan.tol, 1e-4, 0.1)
    }
    pub fn build(&self, limit: usize) -> SgCrystal {
        let dtol = self.dtol();
        let dmin = (12.0 * dtol).max(0.6);
        let mut sc = self.plan.build(dmin, self.max_sites as usize);
        if sc.input.n() > limit {
            // too many sites: only a change of basis of the primitive cell
            let u = self.plan.basis.unimodular(2);
            sc.input = scramble(&supercell(&sc.prim, &u), &self.plan.keys, self.plan.shifts);
        }
        if let Some(s) = self.shift {
            let mut s = V::from(s);
            if self.snap {
                s = s.map(|x| (x * 24.0).floor() / 24.0);
            }
            let cart = sc.conv * s;
            for c in [&mut sc.prim, &mut sc.input] {
                let d = inv(&c.lat) * cart;
                for f in c.frac.iter_mut() {
                    *f += d;
                }
            }
        }
        sc
    }
    /// The input with every site displaced by up to `r` tolerances.
    pub fn rough_input(&self, r: f64) -> Crystal {
        let mut x = self.build(24).input;
        let li = inv(&x.lat);
        for i in 0..x.n() {
            let h = |k: usize| (((i * 3 + k) as f64 * 0.754877666 + self.plan.p[k]).fract() - 0.5) * 2.0;
            x.frac[i] += li * V::new(h(0), h(1), h(2)) * (r * self.dtol());
        }
        x
    }
    pub fn facts(&self, limit: usize) -> Result<Facts, &'static str> {
        let dtol = self.dtol();
        let sc = self.build(limit);
        if sc.prim.n() == 0 {
            return Err("skipped: no orbit fits");
        }
        let (prim, ops, br) = facts_of(&sc.prim, dtol)?;
        let same = same_lattice(&prim, &sc.prim.lat, 1e-6);
        let defect = self.plan.defect.is_some();
        assert!(ops.len() >= point_order(self.plan.num) || !same || defect, "oracle: the built crystal lacks symmetry");
        let num = (same && !defect && ops.len() == point_order(self.plan.num)).then_some(self.plan.num);
        Ok(Facts { input: sc.input, prim, ops, num, br, dtol })
    }
}

/// Operations in the basis `b` modulo whole numbers, all translations of the primitive lattice
/// included; only those whose rotation maps the lattice of `b` onto itself.
pub fn ops_in(ops: &[COp], prim: &M, b: &M) -> Vec<(I9, V)> {
    let bi = inv(b);
    let u = int_transform(prim, b, 1e-5).expect("oracle: not a sublattice");
    let trans: Vec<V> = cosets(&u).iter().map(|x| prim * x).collect();
    let mut out = vec![];
    for o in ops {
        let r = bi * o.r * b;
        if int_dev(&r) > 1e-4 {
            continue;
        }
        let k = keyi(&round_im(&r));
        for t in &trans {
            out.push((k, bi * (o.t + t)));
        }
    }
    out
}

/// Number of operations of every kind: (determinant, trace, has a fixed point for a suitable lattice
/// translation) -- invariants of the space-group type.
fn signature(ops: &[(I9, V)]) -> BTreeMap<(i64, i64, bool), usize> {
    let mut m = BTreeMap::new();
    for (k, t) in ops {
        let w = M::from_fn(|i, j| k[3 * i + j] as f64);
        let d = det(&w).round() as i64;
        let tr = k[0] + k[4] + k[8];
        // fixed points: a translation L with (sum W^i)(t + L) = 0
        let mut p = M::identity();
        let mut sum = M::zeros();
        for _ in 0..12 {
            sum += p;
            p = w * p;
            if max_abs(&(p - M::identity())) < 1e-9 {
                break;
            }
        }
        let target = sum * wrap(t);
        let mut fixed = false;
        'o: for x in -3i64..=3 {
            for y in -3i64..=3 {
                for z in -3i64..=3 {
                    if (target + sum * V::new(x as f64, y as f64, z as f64)).norm() < 1e-4 {
                        fixed = true;
                        break 'o;
                    }
                }
            }
        }
        *m.entry((d, tr, fixed)).or_default() += 1;
    }
    m
}

fn wrap(v: &V) -> V {
    v.map(|x| {
        let f = x - x.floor();
        if f > 1.0 - 1e-7 {
            0.0
        } else {
            f
        }
    })
}

/// Reference operations in the standard primitive cell; the A-centred groups are listed for an
/// A-centred cell, which becomes the C-centred standard cell with the axes c, -b, a.
pub fn reference(num: u8) -> &'static Vec<(I9, V)> {
    static T: std::sync::OnceLock<Vec<Vec<(I9, V)>>> = std::sync::OnceLock::new();
    &T.get_or_init(|| (1..=230u8).map(make_reference).collect())[num as usize - 1]
}
fn make_reference(num: u8) -> Vec<(I9, V)> {
    let n = num as usize;
    if hall::centring_letter(n) == 'A' {
        let conv = M::new(0.0, 0.0, 1.0, 0.0, -1.0, 0.0, 1.0, 0.0, 0.0) * prim_of('C');
        let ci = inv(&conv);
        let mut out: Vec<(I9, V)> = vec![];
        for o in &hall::table()[n - 1] {
            let k = keyi(&round_im(&(ci * o.rf() * conv)));
            let t = ci * o.tf();
            if !out.iter().any(|(k2, t2)| *k2 == k && int_dev_v(&(t - t2)) < 1e-6) {
                out.push((k, wrap(&t)));
            }
        }
        assert_eq!(out.len(), point_order(num), "oracle: A-centred reference");
        return out;
    }
    hall::prim_table()[n - 1].iter().map(|o| (keyi(&o.ri()), o.tf())).collect()
}

pub fn equal_ops(a: &[(I9, V)], b: &[(I9, V)], tol: f64) -> bool {
    a.len() == b.len() && a.iter().all(|(k, t)| b.iter().any(|(k2, t2)| k == k2 && int_dev_v(&(t - t2)) < tol))
}

/// Changes of the conventional axes which keep the cell standard for the Bravais type of the group.
fn axis_changes(br: Br) -> Vec<M> {
    let rows = |v: [i32; 9]| M::from_row_slice(&v.map(|x| x as f64));
    match br {
        Br::aP => vec![
            rows([1, 1, 0, 0, 1, 0, 0, 0, 1]),
            rows([0, -1, 0, 1, 0, 0, 0, 0, 1]),
            rows([1, 0, 0, 0, 0, -1, 0, 1, 0]),
        ],
        Br::mP => vec![
            rows([1, 0, 1, 0, 1, 0, 0, 0, 1]),
            rows([1, 0, 0, 0, 1, 0, 1, 0, 1]),
            rows([1, 0, 0, 0, -1, 0, 0, 0, -1]),
        ],
        Br::mC => vec![
            rows([1, 0, 1, 0, 1, 0, 0, 0, 1]),
            rows([1, 0, 0, 0, 1, 0, 2, 0, 1]),
            rows([1, 0, 0, 0, -1, 0, 0, 0, -1]),
            rows([-1, 0, 0, 0, 1, 0, 0, 0, -1]),
        ],
        Br::oP | Br::oI | Br::oF => vec![
            rows([0, 0, 1, 1, 0, 0, 0, 1, 0]),
            rows([0, 1, 0, 1, 0, 0, 0, 0, -1]),
            rows([1, 0, 0, 0, -1, 0, 0, 0, -1]),
            rows([-1, 0, 0, 0, 1, 0, 0, 0, -1]),
        ],
        Br::oC => vec![
            rows([0, 1, 0, 1, 0, 0, 0, 0, -1]),
            rows([1, 0, 0, 0, -1, 0, 0, 0, -1]),
            rows([-1, 0, 0, 0, 1, 0, 0, 0, -1]),
        ],
        Br::tP | Br::tI => vec![rows([0, -1, 0, 1, 0, 0, 0, 0, 1]), rows([1, 0, 0, 0, -1, 0, 0, 0, -1])],
        Br::hP => vec![rows([1, -1, 0, 1, 0, 0, 0, 0, 1]), rows([0, 1, 0, 1, 0, 0, 0, 0, -1])],
        Br::hR => vec![rows([0, -1, 0, 1, -1, 0, 0, 0, 1]), rows([0, 1, 0, 1, 0, 0, 0, 0, -1])],
        Br::cP | Br::cI | Br::cF => vec![rows([0, -1, 0, 1, 0, 0, 0, 0, 1]), rows([0, 0, 1, 1, 0, 0, 0, 1, 0])],
    }
}

/// Groups whose reference operations look the same in every standard cell with the same origin.
pub fn robust_groups() -> &'static Vec<bool> {
    static T: std::sync::OnceLock<Vec<bool>> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        (1..=230u8)
            .map(|n| {
                let br = bravais_of(n);
                let pc = prim_of(centring_of(br));
                let ops = reference(n);
                axis_changes(br).iter().all(|p| {
                    let q = inv(&pc) * p * pc;
                    assert!(int_dev(&q) < 1e-9, "oracle: axis change does not keep the centring");
                    let qi = inv(&q);
                    let new: Vec<(I9, V)> = ops
                        .iter()
                        .map(|(k, t)| {
                            let w = M::from_fn(|i, j| k[3 * i + j] as f64);
                            (keyi(&round_im(&(qi * w * q))), qi * t)
                        })
                        .collect();
                    equal_ops(&new, ops, 1e-6)
                })
            })
            .collect()
    })
}

/// The space group whose reference operations these are, if any.
fn as_reference(ops: &[(I9, V)], br: Br, tol: f64) -> Option<u8> {
    (1..=230u8).find(|n| point_order(*n) == ops.len() && bravais_of(*n) == br && equal_ops(ops, reference(*n), tol))
}

const REFUSED: &str = "Cannot identify spacegroup from operations!";

// ---------------------------------------------------------------- A03
pub fn a03() -> Prop<ACase> {
    Prop {
        id: "A03",
        rule: "crystal of one of the 230 groups (1-48 sites in the primitive cell, general and special positions), tabulated or shifted origin, generic or special metric, in any basis, supercell up to 3, conventional cell, rotation, handedness, site order; oracle: true type from construction when brute force finds no further symmetry, otherwise Bravais type, order, kinds and screw/glide content of the brute-force operations; non-trivial: the analysis returned a group and the true type is known from construction",
        assumptions: &["no operation or translation within five tolerances of being a symmetry without being one", "sites at least twelve tolerances and 0.6 Å apart"],
        quick: 30_000,
        thorough: 240_000,
        budget: 4_000_000_000,
        strategy: || {
            (with_defects(a_case(3, true, 0.4)), prop::option::weighted(0.15, 0.05..6.0f64)).prop_map(|(c, rough)| ACase { rough, ..c }).boxed()
        },
        check: |c, cx| {
            if let Some(r) = c.rough {
                // symmetry broken at the scale of the tolerance: any group or a refusal will do
                let x = c.rough_input(r);
                if x.n() == 0 {
                    return Ok(());
                }
                let s = x.structure(c.plan.cart);
                cx.label("ambiguous symmetry");
                if let Ok((num, sym, _)) = call(|| analyzer(c.dtol()).get_space_group_info(&s)) {
                    if !(1..=230).contains(&num) || !symbol_ok(num, &sym) {
                        return Err(format!("space group number {} with symbol {}", num, sym).into());
                    }
                    cx.label("ambiguous symmetry, identified");
                }
                return Ok(());
            }
            let f = match c.facts(48) {
                Ok(f) => f,
                Err(e) => {
                    cx.label(e);
                    return Ok(());
                }
            };
            let s = f.input.structure(c.plan.cart);
            let (num, sym, sg) = match call(|| analyzer(f.dtol).get_space_group_info(&s)) {
                Ok(x) => x,
                Err(_) => {
                    cx.label("refused");
                    return Ok(());
                }
            };
            if !(1..=230).contains(&num) {
                return Err(format!("space group number {}", num).into());
            }
            if !symbol_ok(num, &sym) {
                return Err(format!("symbol {} for space group number {}", sym, num).into());
            }
            match f.num {
                Some(n) => {
                    cx.nontrivial = true;
                    cx.label(match c.plan.num {
                        1..=2 => "known type: triclinic",
                        3..=15 => "known type: monoclinic",
                        16..=74 => "known type: orthorhombic",
                        75..=142 => "known type: tetragonal",
                        143..=167 => "known type: trigonal",
                        168..=194 => "known type: hexagonal",
                        _ => "known type: cubic",
                    });
                    if n != num {
                        return Err(format!("crystal of space group {} reported as {} ({})", n, num, sym).into());
                    }
                }
                None => {
                    let defect = c.plan.defect.is_some();
                    cx.label(if defect { "one site breaks the symmetry, identified" } else { "more symmetry than constructed" });
                    cx.nontrivial |= defect;
                    if f.br != bravais_of(num) && !defect {
                        return Err(format!("crystal with lattice {:?} reported as {} ({})", f.br, num, sym).into());
                    }
                    let truth = signature(&ops_in(&f.ops, &f.prim, &f.prim));
                    let claim = signature(reference(num));
                    if truth != claim {
                        return Err(format!("crystal reported as {} ({}), but its operations are of the kinds {:?} instead of {:?}", num, sym, truth, claim).into());
                    }
                }
            }
            // number of operations modulo primitive translations
            let n = idet(&int_transform(&f.prim, &f.input.lat, 1e-4).expect("oracle: input lattice")).unsigned_abs() as usize;
            if n == 1 && sg.operations.len() != point_order(num) {
                return Err(format!("{} operations for a group of order {} in a primitive cell", sg.operations.len(), point_order(num)).into());
            }
            if sg.operations.len() % n != 0 || sg.operations.len() / n > point_order(num) {
                return Err(format!("{} operations for a group of order {} in a cell with {} translations", sg.operations.len(), point_order(num), n).into());
            }
            Ok(())
        },
        fixed: none,
    }
}

// ---------------------------------------------------------------- A04
pub fn a04() -> Prop<ACase> {
    Prop {
        id: "A04",
        rule: "crystal of one of the 230 groups mostly with the tabulated origin and a generic metric of its lattice, in any basis, conventional cell, supercell up to 3, rotation, handedness, site order; when brute force finds the operations in the standard primitive cell to be the reference ones, or the group is one whose reference operations do not depend on the choice of axes, the analysis has to report it; non-trivial: identification is required",
        assumptions: &["no operation or translation within five tolerances of being a symmetry without being one", "sites at least twelve tolerances and 0.6 Å apart"],
        quick: 48_000,
        thorough: 384_000,
        budget: 4_000_000_000,
        strategy: || with_defects(a_case(3, true, 0.1)),
        check: |c, cx| {
            let f = match c.facts(48) {
                Ok(f) => f,
                Err(e) => {
                    cx.label(e);
                    return Ok(());
                }
            };
            let s = f.input.structure(c.plan.cart);
            let sa = analyzer(f.dtol);
            let std = must("standard primitive cell", || sa.get_standard_primitive_structure(&s))?;
            let found = f.setting(&std.lattice);
            let robust = match f.num {
                Some(n) => c.shift.is_none() && f.br == bravais_of(n) && robust_groups()[n as usize - 1],
                None => false,
            };
            let num = match (found, f.num) {
                (Some(n), Some(m)) => {
                    assert_eq!(n, m, "oracle: reference operations of two groups agree");
                    n
                }
                (Some(n), None) => {
                    cx.label("more symmetry than constructed");
                    n
                }
                (None, Some(n)) if robust => n,
                _ => {
                    cx.label("other setting");
                    return Ok(());
                }
            };
            cx.nontrivial = true;
            cx.label(if robust { "independent of the axes" } else { "reference axes" });
            match call(|| sa.get_space_group_info(&s)) {
                Ok((n, sym, _)) => {
                    if n != num || !symbol_ok(num, &sym) {
                        return Err(format!("crystal of space group {} reported as {} ({})", num, n, sym).into());
                    }
                    Ok(())
                }
                Err(m) => {
                    let msg = format!("crystal of space group {} in reference setting refused: {}", num, m);
                    if found.is_none() && f.br == Br::mC && m.contains(REFUSED) {
                        let conv = must("conventional cell", || sa.get_standard_conventional_structure(&s))?.lattice;
                        if centring_in(&conv, &f.prim, Br::mC) == Some('I') {
                            return Err(Fail::Known("monoclinic-body-centred-refused".into(), msg));
                        }
                    }
                    Err(msg.into())
                }
            }
        },
        fixed: none,
    }
}

// ---------------------------------------------------------------- A05
/// Operations have to be exactly the expected ones and form a group.
fn check_ops(got: &[SymmOp], want: &[(I9, V)], tol: f64) -> Result<(), String> {
    compare_ops(got, want, tol, "the returned list")?;
    // inverse and products of single pairs: the expected set is a group, but say so independently
    let n = got.len();
    for i in 0..n.min(12) {
        let (a, b) = (&got[i], &got[(i * 7 + 3) % n]);
        let r = a.rotation.cast::<f64>() * b.rotation.cast::<f64>();
        let t = a.rotation.cast::<f64>() * b.translation + a.translation;
        let k = keyi(&round_im(&r));
        if !got.iter().any(|o| key(&o.rotation) == k && int_dev_v(&(o.translation - t)) <= 2e2 * tol) {
            return Err("the product of two returned operations is not in the list".into());
        }
    }
    Ok(())
}
pub fn a05() -> Prop<ACase> {
    Prop {
        id: "A05",
        rule: "crystal of one of the 230 groups as for A03 (supercells up to 4, tabulated origin three times out of four, special metrics); expected operations by brute force over the lattice symmetries and the site permutations, transferred to the input basis; non-trivial: the analysis returned and the input cell is not a primitive reduced cell or the group has more than two operations",
        assumptions: &["as for A03"],
        quick: 36_000,
        thorough: 288_000,
        budget: 4_000_000_000,
        strategy: || with_defects(a_case(4, true, 0.25)),
        check: |c, cx| {
            let f = match c.facts(64) {
                Ok(f) => f,
                Err(e) => {
                    cx.label(e);
                    return Ok(());
                }
            };
            let s = f.input.structure(c.plan.cart);
            let sg = match call(|| analyzer(f.dtol).get_space_group_info(&s)) {
                Ok((_, _, sg)) => sg,
                Err(_) => {
                    cx.label("refused");
                    return Ok(());
                }
            };
            let want = ops_in(&f.ops, &f.prim, &f.input.lat);
            let n = idet(&int_transform(&f.prim, &f.input.lat, 1e-4).unwrap()).unsigned_abs() as usize;
            cx.label(if n == 1 { "primitive cell" } else { "larger cell" });
            if want.len() < f.ops.len() * n {
                cx.label("cell without some of the symmetry");
            }
            if det(&f.input.lat) < 0.0 {
                cx.label("left-handed cell");
            }
            cx.nontrivial = want.len() > 2 || n > 1;
            check_ops(&sg.operations, &want, 1e-5)?;
            Ok(())
        },
        fixed: none,
    }
}

// ---------------------------------------------------------------- A06
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct A06 {
    case: ACase,
    noise: Vec<[f64; 3]>,
    kick: Option<(u8, [f64; 3])>,
    /// displace a whole orbit of a crystal on special positions along an axis
    #[serde(default)]
    polar: Option<(u8, u8)>,
}
pub fn a06() -> Prop<A06> {
    Prop {
        id: "A06",
        rule: "crystal of one of the 230 groups in a random primitive basis; either every site displaced by up to a fiftieth of the tolerance divided by the skewness of the cell, compared with the undisturbed result, or one site, or one orbit of a crystal on special positions, displaced by ten tolerances, compared with the brute-force operations of the displaced crystal; non-trivial: the undisturbed crystal is identified and has more than the identity, or the displaced one is and lost symmetry",
        assumptions: &["sites at least 24 tolerances apart", "no operation within five tolerances of being a symmetry without being one"],
        quick: 36_000,
        thorough: 288_000,
        budget: 4_000_000_000,
        strategy: || {
            (
                a_case(1, false, 0.15),
                pvec(prop::array::uniform3(-1.0..1.0f64), 1..8),
                prop::option::weighted(0.15, (any::<u8>(), prop::array::uniform3(-1.0..1.0f64))),
                prop::option::weighted(0.35, (any::<u8>(), 0u8..5)),
            )
                .prop_map(|(case, noise, kick, polar)| A06 { case, noise, kick, polar })
                .boxed()
        },
        check: |c, cx| {
            let dtol = log_tol(c.case.plan.tol, 1e-3, 0.02);
            let dmin = (24.0 * dtol).max(0.6);
            let mut plan = c.case.plan.clone();
            plan.conv = false;
            let case = ACase { plan, ..c.case.clone() };
            if let Some((i, dir)) = c.polar {
                // undisplaced: only positions at multiples of an eighth
                let mut plan = case.plan.clone();
                let snap = |x: f64| (x * 8.0).floor() / 8.0;
                for s in plan.sites.iter_mut() {
                    *s = (s.0.map(snap), 10);
                }
                let flat = plan.build(dmin, case.max_sites as usize).input;
                let k = i as usize % plan.sites.len();
                let conv = plan.conv();
                let d = [V::new(1.0, 0.0, 0.0), V::new(0.0, 1.0, 0.0), V::new(0.0, 0.0, 1.0), V::new(1.0, 1.0, 0.0), V::new(1.0, 1.0, 1.0)][dir as usize];
                let d = d * (10.0 * dtol / (conv * d).norm());
                let f = plan.sites[k].0;
                plan.sites[k] = ([f[0] + d[0], f[1] + d[1], f[2] + d[2]], 0);
                let moved = plan.build(dmin, case.max_sites as usize).input;
                if moved.n() == 0 || flat.n() == 0 {
                    return Ok(());
                }
                let (p2, o2, _) = match facts_of(&moved, dtol) {
                    Ok(x) => x,
                    Err(e) => {
                        cx.label(e);
                        return Ok(());
                    }
                };
                let s = moved.structure(plan.cart);
                match call(|| analyzer(dtol).get_space_group_info(&s)) {
                    Ok((n, _, sg)) => {
                        cx.label("displaced orbit, identified");
                        let (p1, _) = primitive_lattice(&flat, 1e-6);
                        cx.nontrivial = o2.len() < space_group(&flat, &p1, 1e-6).len();
                        if cx.nontrivial {
                            cx.label("displaced orbit, identified, symmetry lost");
                        }
                        let want = ops_in(&o2, &p2, &moved.lat);
                        check_ops(&sg.operations, &want, 1e-5)?;
                        if point_order(n) != o2.len() {
                            return Err(format!("displaced crystal with {} operations reported as space group {}", o2.len(), n).into());
                        }
                    }
                    Err(_) => cx.label("displaced orbit, refused"),
                }
                return Ok(());
            }
            let mut sc = case.plan.build(dmin, case.max_sites as usize);
            if let Some(s) = case.shift {
                let d = inv(&sc.input.lat) * (sc.conv * V::from(s));
                for f in sc.input.frac.iter_mut() {
                    *f += d;
                }
            }
            let exact = sc.input;
            let (prim, ops, _br) = match facts_of(&exact, dtol) {
                Ok(x) => x,
                Err(e) => {
                    cx.label(e);
                    return Ok(());
                }
            };
            if !same_lattice(&prim, &exact.lat, 1e-6) {
                cx.label("skipped: extra translations");
                return Ok(());
            }
            let sa = analyzer(dtol);
            let li = inv(&exact.lat);
            if let Some((i, dir)) = &c.kick {
                let d = V::from(*dir);
                if d.norm() < 0.1 {
                    return Ok(());
                }
                let mut moved = exact.clone();
                let i = *i as usize % moved.n();
                moved.frac[i] += li * (d / d.norm() * 10.0 * dtol);
                let (p2, o2, _) = match facts_of(&moved, dtol) {
                    Ok(x) => x,
                    Err(e) => {
                        cx.label(e);
                        return Ok(());
                    }
                };
                let s = moved.structure(case.plan.cart);
                match call(|| sa.get_space_group_info(&s)) {
                    Ok((n, _, sg)) => {
                        cx.label("displaced crystal identified");
                        cx.nontrivial = o2.len() < ops.len();
                        let want = ops_in(&o2, &p2, &moved.lat);
                        check_ops(&sg.operations, &want, 1e-5)?;
                        if point_order(n) != o2.len() {
                            return Err(format!("displaced crystal with {} operations reported as space group {}", o2.len(), n).into());
                        }
                    }
                    Err(_) => cx.label("displaced crystal refused"),
                }
                return Ok(());
            }
            // displacements add up over the skewness of the cells used on the way
            let amp = dtol / 50.0;
            let mut noisy = exact.clone();
            for i in 0..noisy.n() {
                let v = V::from(c.noise[i % c.noise.len()]);
                let v = V::new(v[i % 3], v[(i + 1) % 3] * if i % 2 == 0 { 1.0 } else { -1.0 }, v[(i + 2) % 3]);
                let d = if v.norm() > 1.0 { v / v.norm() } else { v } * amp;
                noisy.frac[i] += li * d;
            }
            let s0 = exact.structure(case.plan.cart);
            let (n0, sg0) = match call(|| sa.get_space_group_info(&s0)) {
                Ok((n, _, g)) => (n, g),
                Err(_) => {
                    cx.label("refused without displacements");
                    return Ok(());
                }
            };
            cx.label("noise");
            cx.nontrivial = ops.len() > 1;
            let s1 = noisy.structure(case.plan.cart);
            let (n1, _, sg1) = must("space group of the slightly displaced crystal", || sa.get_space_group_info(&s1))?;
            if n0 != n1 {
                return Err(format!("space group {} becomes {} by displacements of {} with tolerance {}", n0, n1, amp, dtol).into());
            }
            if sg0.operations.len() != sg1.operations.len() {
                return Err(format!("{} operations become {}", sg0.operations.len(), sg1.operations.len()).into());
            }
            let red = minkowski(&noisy.lat);
            let ri = inv(&red);
            let cart = noisy.cart();
            for o in &sg1.operations {
                let r = o.rotation.cast::<f64>();
                for i in 0..noisy.n() {
                    let q = noisy.lat * (r * noisy.frac[i] + o.translation);
                    let ok = (0..noisy.n()).any(|j| noisy.sp[j] == noisy.sp[i] && pdist(&red, &ri, &(q - cart[j])) <= dtol);
                    if !ok {
                        return Err(format!("an operation found maps site {} to a place farther than the tolerance from any site of its species", i).into());
                    }
                }
            }
            Ok(())
        },
        fixed: none,
    }
}

// ---------------------------------------------------------------- A07
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct A07 {
    case: ACase,
    other: ACase,
    names: Vec<u8>,
    order: Vec<u8>,
}
const NAMES: [&str; 24] = [
    "Zr", "Ac", "B", "Yb", "C", "Xe", "D", "W2-", "Mn", "a", "O", "Si", "Zr4+ oct", "Zr4+ tet", "A", "AA", "AAAAAAAA", "AAAAAAAB", "1", "10",
    "\u{e9}", "\u{3a9}1", "\u{3a9}2", "H-",
];

fn same_structure(a: &Structure, b: &Structure) -> bool {
    a.lattice == b.lattice && a.species == b.species && a.coords == b.coords && a.frac_coords == b.frac_coords
}
pub fn metric_eq(a: &M, b: &M) -> bool {
    let (g, h) = (a.transpose() * a, b.transpose() * b);
    max_abs(&(g - h)) <= 1e-5 * max_abs(&g)
}
pub fn op_list(ops: &[SymmOp]) -> Vec<(I9, V)> {
    ops.iter().map(|o| (key(&o.rotation), o.translation)).collect()
}
fn close_cells(a: &Structure, b: &Structure) -> bool {
    max_abs(&(a.lattice - b.lattice)) < 1e-9
        && a.species == b.species
        && a.frac_coords.len() == b.frac_coords.len()
        && a.frac_coords.iter().zip(&b.frac_coords).all(|(x, y)| (x - y).norm() < 1e-9)
}
/// Sites displaced at the scale of the tolerance: whatever the analysis decides, it decides again.
fn repeated_rough(c: &ACase, r: f64, cx: &mut Ctx) -> Res {
    let x = c.rough_input(r);
    if x.n() == 0 {
        return Ok(());
    }
    let s = x.structure(c.plan.cart);
    let orig = s.clone();
    let sa = analyzer(c.dtol());
    let red = crystsymm::reduce::Reducer { dtol: c.dtol(), atol: 5.0 };
    let run = || {
        let cells = [
            call(|| red.find_primitive_cell(&s)).ok(),
            call(|| sa.get_standard_conventional_structure(&s)).ok(),
            call(|| sa.get_standard_primitive_structure(&s)).ok(),
        ];
        (cells, call(|| sa.get_space_group_info(&s)).ok())
    };
    let (c1, g1) = run();
    cx.label(if g1.is_some() { "displaced sites, identified" } else { "displaced sites, refused" });
    cx.nontrivial = g1.is_some() && x.n() > 1;
    for _ in 0..3 {
        let (c2, g2) = run();
        for k in 0..3 {
            let same = match (&c1[k], &c2[k]) {
                (Some(a), Some(b)) => close_cells(a, b),
                (a, b) => a.is_none() == b.is_none(),
            };
            if !same {
                return Err(format!("repeated with displaced sites: another {}", ["primitive cell", "conventional cell", "standard primitive cell"][k]).into());
            }
        }
        match (&g1, &g2) {
            (None, None) => {}
            (Some(a), Some(b)) => {
                if a.0 != b.0 || a.1 != b.1 || !equal_ops(&op_list(&a.2.operations), &op_list(&b.2.operations), 1e-9) {
                    return Err(format!("repeated with displaced sites: {} {} with other operations than {} {}", a.0, a.1, b.0, b.1).into());
                }
            }
            _ => return Err("repeated with displaced sites: identified once and refused once".into()),
        }
        if !same_structure(&s, &orig) {
            return Err("the analysis changed its input".into());
        }
    }
    Ok(())
}
pub fn a07() -> Prop<A07> {
    Prop {
        id: "A07",
        rule: "crystal of one of the 230 groups as for A03, analysed (primitive, Niggli, conventional, standard primitive cell, space group), analysed again after the analysis of another crystal, with injectively renamed species and with reordered sites; a third of the cases has sites displaced at the scale of the tolerance and is only repeated; non-trivial: the space group is identified, or the crystal has at least two species or four sites",
        assumptions: &["as for A03"],
        quick: 12_000,
        thorough: 96_000,
        budget: 8_000_000_000,
        strategy: || {
            (with_defects(a_case(3, true, 0.2)), a_case(1, false, 0.0), pvec(any::<u8>(), 1..6), pvec(any::<u8>(), 1..6), prop::option::weighted(0.3, unit().prop_map(|u| log_tol(u, 0.005, 1.5))))
                .prop_map(|(case, other, names, order, rough)| A07 { case: ACase { rough, ..case }, other, names, order })
                .boxed()
        },
        check: |c, cx| {
            if let Some(r) = c.case.rough {
                return repeated_rough(&c.case, r, cx);
            }
            let f = match c.case.facts(40) {
                Ok(f) => f,
                Err(e) => {
                    cx.label(e);
                    return Ok(());
                }
            };
            let sa = analyzer(f.dtol);
            let red = crystsymm::reduce::Reducer { dtol: f.dtol, atol: 5.0 };
            let input = f.input.clone();
            let s = input.structure(c.case.plan.cart);
            let orig = s.clone();
            type Cells = [Structure; 4];
            let cells = |s: &Structure| -> Result<Cells, Fail> {
                must("cells", || {
                    [
                        red.find_primitive_cell(s),
                        red.niggli_reduce(s, &1e-5),
                        sa.get_standard_conventional_structure(s),
                        sa.get_standard_primitive_structure(s),
                    ]
                })
            };
            let names = ["primitive cell", "Niggli cell", "conventional cell", "standard primitive cell"];
            let c1 = cells(&s)?;
            let g1 = call(|| sa.get_space_group_info(&s)).ok();
            if !same_structure(&s, &orig) {
                return Err("the analysis changed its input".into());
            }
            let species = input.sp.iter().collect::<std::collections::BTreeSet<_>>();
            cx.nontrivial = g1.is_some() || species.len() > 1 || input.n() > 3;
            cx.label(if g1.is_some() { "identified" } else { "refused" });
            // something else in between
            {
                let o = c.other.build(24);
                if o.input.n() > 0 {
                    let t = o.input.structure(true);
                    let _ = call(|| analyzer(c.other.dtol()).get_space_group_info(&t).0);
                }
            }
            let right1 = f.explains(&c1[3].lattice, g1.is_some());
            let same_group = |g: &Option<(u8, String, crystsymm::spacegroup::SpaceGroup)>, std: &M, what: &str| -> Res {
                match (&g1, g) {
                    (None, None) => Ok(()),
                    (Some(a), Some(b)) => {
                        if a.0 != b.0 || a.1 != b.1 {
                            return Err(format!("{}: space group {} {} becomes {} {}", what, a.0, a.1, b.0, b.1).into());
                        }
                        if !equal_ops(&op_list(&a.2.operations), &op_list(&b.2.operations), 1e-5) {
                            return Err(format!("{}: other operations", what).into());
                        }
                        Ok(())
                    }
                    _ => {
                        let msg = format!("{}: identified once and refused once", what);
                        if what != "repeated" && right1 && f.explains(std, g.is_some()) {
                            // the standard cells differ by a symmetry of the lattice which the crystal lacks
                            return Err(Fail::Known("setting-depends-on-site-order".into(), msg));
                        }
                        Err(msg.into())
                    }
                }
            };
            // again
            let c2 = cells(&s)?;
            let g2 = call(|| sa.get_space_group_info(&s)).ok();
            if !same_structure(&s, &orig) {
                return Err("the repeated analysis changed its input".into());
            }
            same_group(&g2, &c2[3].lattice, "repeated")?;
            for k in 0..4 {
                if !close_cells(&c1[k], &c2[k]) {
                    return Err(format!("repeated: another {}", names[k]).into());
                }
            }
            // renamed
            let mut pool: Vec<&str> = NAMES.to_vec();
            let mut map: BTreeMap<String, String> = BTreeMap::new();
            for (i, sp) in species.iter().enumerate() {
                let j = c.names[i % c.names.len()] as usize % pool.len();
                map.insert(sp.to_string(), pool.remove(j).to_string());
            }
            let mut ren = input.clone();
            for sp in ren.sp.iter_mut() {
                *sp = map[sp].clone();
            }
            let sr = ren.structure(c.case.plan.cart);
            let cr = cells(&sr)?;
            let gr = call(|| sa.get_space_group_info(&sr)).ok();
            same_group(&gr, &cr[3].lattice, "renamed")?;
            for k in 0..4 {
                if !metric_eq(&c1[k].lattice, &cr[k].lattice) && k != 0 {
                    return Err(format!("renamed: {} with other lengths or angles", names[k]).into());
                }
                same_crystal(&ren, &Crystal::of(&cr[k]), 1e-5).map_err(|e| format!("renamed: {}: {}", names[k], e))?;
                if c1[k].num_sites() != cr[k].num_sites() {
                    return Err(format!("renamed: {} with another number of sites", names[k]).into());
                }
            }
            // reordered
            let ord = scramble(&input, &c.order, false);
            let so = ord.structure(c.case.plan.cart);
            let co = cells(&so)?;
            let go = call(|| sa.get_space_group_info(&so)).ok();
            same_group(&go, &co[3].lattice, "reordered")?;
            for k in 0..4 {
                if !metric_eq(&c1[k].lattice, &co[k].lattice) && k != 0 {
                    return Err(format!("reordered: {} with other lengths or angles", names[k]).into());
                }
                same_crystal(&input, &Crystal::of(&co[k]), 1e-5).map_err(|e| format!("reordered: {}: {}", names[k], e))?;
                if c1[k].num_sites() != co[k].num_sites() {
                    return Err(format!("reordered: {} with another number of sites", names[k]).into());
                }
            }
            Ok(())
        },
        fixed: none,
    }
}
