//! A08, A09, A10: results under rotation, change of the unit of length and mirroring, and along sequences of calls.
use crate::gen::*;
use crate::geom::*;
use crate::p_analyze::*;
use crate::p_group::symbol_ok;
use crate::p_struct::none;
use crate::runner::*;
use crystsymm::reduce::Reducer;
use crystsymm::structure::Structure;
use proptest::collection::vec as pvec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

type Group = Option<(u8, String, crystsymm::spacegroup::SpaceGroup)>;

/// Two answers for the same crystal must agree. Where one of them is a refusal, it is the listed
/// finding exactly when both are right for the standard cell they were obtained in.
fn same_answer(f: &Facts, (g1, std1): (&Group, &M), (g2, std2): (&Group, &M), what: &str) -> Res {
    match (g1, g2) {
        (None, None) => Ok(()),
        (Some(a), Some(b)) => {
            if a.0 != b.0 || a.1 != b.1 {
                return Err(format!("{}: space group {} {} becomes {} {}", what, a.0, a.1, b.0, b.1).into());
            }
            Ok(())
        }
        _ => {
            let msg = format!("{}: identified once and refused once", what);
            if f.explains(std1, g1.is_some()) && f.explains(std2, g2.is_some()) {
                return Err(Fail::Known("setting-depends-on-description".into(), msg));
            }
            Err(msg.into())
        }
    }
}

// ---------------------------------------------------------------- A08
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct A08 {
    case: ACase,
    rot: Option<[f64; 4]>,
    /// unit of length: 0..1 for a factor of 0.1..10
    unit: f64,
    /// use the nearest power of two
    binary: bool,
    /// displace the sites at random by about this many tolerances; only for powers of two, which
    /// change no digit, without rotation
    #[serde(default)]
    noise: Option<f64>,
}
/// A crystal whose symmetry holds only within the tolerance, or not any more, in two units of length.
fn noisy_unit(c: &A08, r: f64, cx: &mut Ctx) -> Res {
    let mut case = c.case.clone();
    let dtol = case.dtol();
    let k = 2f64.powi(log_tol(c.unit, 0.05, 20.0).log2().round() as i32);
    case.plan.basis.hnf = [1, 1, 1, 0, 0, 0];
    case.plan.conv = false;
    let x = case.rough_input(r);
    if x.n() == 0 || loose_translations(&x, 2.5 * dtol) != 1 {
        cx.label("skipped: displaced sites with a translation");
        return Ok(());
    }
    let run = |k: f64| {
        let s = Crystal { lat: x.lat * k, ..x.clone() }.structure(case.plan.cart);
        call(|| analyzer(dtol * k).get_space_group_info(&s)).ok()
    };
    let (g1, g2) = (run(1.0), run(k));
    cx.nontrivial = k != 1.0;
    cx.label(if g1.is_some() { "displaced sites, identified" } else { "displaced sites, refused" });
    match (g1, g2) {
        (None, None) => Ok(()),
        (Some(a), Some(b)) if a.0 != b.0 => Err(format!("displaced sites: space group {} becomes {} in another unit of length", a.0, b.0).into()),
        (Some(a), Some(b)) if !equal_ops(&op_list(&a.2.operations), &op_list(&b.2.operations), 1e-6) => {
            Err("displaced sites: other operations in another unit of length".into())
        }
        (Some(_), Some(_)) => Ok(()),
        _ => Err("displaced sites: identified in one unit of length only".into()),
    }
}
pub fn a08() -> Prop<A08> {
    Prop {
        id: "A08",
        rule: "crystal of one of the 230 groups as for A03, analysed as it is and rotated as a whole and with all lengths and the distance tolerance multiplied by one factor (0.1 to 10, half of them powers of two); 15 % with sites displaced by 0.01-2 tolerances, unrotated and with powers of two, which change no digit; non-trivial: the space group is identified, or the crystal has at least two species or four sites",
        assumptions: &["as for A03"],
        quick: 24_000,
        thorough: 192_000,
        budget: 8_000_000_000,
        strategy: || {
            (with_defects(a_case(3, true, 0.3)), prop::option::weighted(0.7, prop::array::uniform4(-1.0..1.0f64)), unit(), any::<bool>(), prop::option::weighted(0.15, 0.01..2.0f64))
                .prop_map(|(case, rot, unit, binary, noise)| A08 { case, rot, unit, binary, noise })
                .boxed()
        },
        check: |c, cx| {
            if let Some(r) = c.noise {
                return noisy_unit(c, r, cx);
            }
            let f = match c.case.facts(40) {
                Ok(f) => f,
                Err(e) => {
                    cx.label(e);
                    return Ok(());
                }
            };
            let mut k = log_tol(c.unit, 0.1, 10.0);
            if c.binary {
                k = 2f64.powi(k.log2().round() as i32);
            }
            let rot = BasisPlan { rot: c.rot, ..BasisPlan::trivial() }.rotation();
            let turn = rot * k;
            let ti = inv(&turn);
            let mut other = f.input.clone();
            other.lat = turn * other.lat;
            let run = |x: &Crystal, dtol: f64| -> Result<([Structure; 4], Group), Fail> {
                let s = x.structure(c.case.plan.cart);
                let sa = analyzer(dtol);
                let red = Reducer { dtol, atol: 5.0 };
                let cells = must("cells", || {
                    [
                        red.find_primitive_cell(&s),
                        red.niggli_reduce(&s, &1e-5),
                        sa.get_standard_conventional_structure(&s),
                        sa.get_standard_primitive_structure(&s),
                    ]
                })?;
                Ok((cells, call(|| sa.get_space_group_info(&s)).ok()))
            };
            let (c1, g1) = run(&f.input, f.dtol)?;
            let (c2, g2) = run(&other, f.dtol * k)?;
            cx.nontrivial = g1.is_some() || f.input.n() > 3 || f.input.sp.iter().any(|s| *s != f.input.sp[0]);
            cx.label(if g1.is_some() { "identified" } else { "refused" });
            cx.label(if k < 0.5 { "smaller unit" } else if k > 2.0 { "larger unit" } else { "similar unit" });
            let names = ["primitive cell", "Niggli cell", "conventional cell", "standard primitive cell"];
            for i in 0..4 {
                // back in the original orientation and unit
                let mut b = Crystal::of(&c2[i]);
                b.lat = ti * b.lat;
                same_crystal(&f.input, &b, 1e-5).map_err(|e| format!("{}: {}", names[i], e))?;
                if c1[i].num_sites() != c2[i].num_sites() {
                    return Err(format!("{} with another number of sites", names[i]).into());
                }
                if i != 0 && !metric_eq(&c1[i].lattice, &b.lat) {
                    return Err(format!("{} with other lengths or angles", names[i]).into());
                }
            }
            same_answer(&f, (&g1, &c1[3].lattice), (&g2, &(ti * c2[3].lattice)), "turned or scaled")?;
            if let (Some(a), Some(b)) = (&g1, &g2) {
                if !equal_ops(&op_list(&a.2.operations), &op_list(&b.2.operations), 1e-5) {
                    return Err("turned or scaled: other operations in the input basis".into());
                }
            }
            Ok(())
        },
        fixed: none,
    }
}

// ---------------------------------------------------------------- A09
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct A09 {
    case: ACase,
    steps: Vec<(u8, BasisPlan)>,
}
pub fn a09() -> Prop<A09> {
    Prop {
        id: "A09",
        rule: "crystal of one of the 230 groups as for A03 led through 1-6 calls in random order (primitive, Niggli, plain and full Delaunay, conventional and standard primitive cell, change of basis or supercell up to 3, wrapping), analysed before and after; non-trivial: at least two calls changed the cell",
        assumptions: &["as for A03", "a change of basis that would give more than 72 sites is left out"],
        quick: 30_000,
        thorough: 240_000,
        budget: 8_000_000_000,
        strategy: || {
            (with_defects(a_case(2, true, 0.3)), pvec((0u8..9, basis_plan(3, 3)), 1..=6)).prop_map(|(case, steps)| A09 { case, steps }).boxed()
        },
        check: |c, cx| {
            let f = match c.case.facts(30) {
                Ok(f) => f,
                Err(e) => {
                    cx.label(e);
                    return Ok(());
                }
            };
            let sa = analyzer(f.dtol);
            let red = Reducer { dtol: f.dtol, atol: 5.0 };
            let start = f.input.structure(c.case.plan.cart);
            let mut s = start.clone();
            let mut changed = 0;
            let mut path = String::new();
            for (k, b) in &c.steps {
                let before = s.lattice;
                let name = ["primitive", "Niggli", "Delaunay", "full Delaunay", "conventional", "standard primitive", "basis", "basis", "wrap"][*k as usize];
                path = format!("{}{}{}", path, if path.is_empty() { "" } else { ", " }, name);
                s = must(&path, || match k {
                    0 => red.find_primitive_cell(&s),
                    1 => red.niggli_reduce(&s, &1e-5),
                    2 => red.delaunay_reduce(&s, false),
                    3 => red.delaunay_reduce(&s, true),
                    4 => sa.get_standard_conventional_structure(&s),
                    5 => sa.get_standard_primitive_structure(&s),
                    6 | 7 => {
                        let t = b.supercell(2);
                        let mut n = s.clone();
                        if n.num_sites() as i64 * idet(&t).abs() <= 72 {
                            n.apply_transformation(&to_f(&t), &f.dtol);
                        }
                        n
                    }
                    _ => {
                        let mut n = s.clone();
                        n.normalize_coords(&f.dtol);
                        n
                    }
                })?;
                if max_abs(&(before - s.lattice)) > 1e-6 {
                    changed += 1;
                }
                consistent(&s).map_err(|e| format!("after {}: {}", path, e))?;
                same_crystal(&f.input, &Crystal::of(&s), 1e-5).map_err(|e| format!("after {}: {}", path, e))?;
            }
            cx.nontrivial = changed > 1;
            let cells = |s: &Structure| {
                must(&format!("cells after {}", path), || {
                    let p = red.find_primitive_cell(s);
                    [red.niggli_reduce(&p, &1e-5), sa.get_standard_conventional_structure(s), sa.get_standard_primitive_structure(s)]
                })
            };
            let (c1, c2) = (cells(&start)?, cells(&s)?);
            let names = ["Niggli cell", "conventional cell", "standard primitive cell"];
            for i in 0..3 {
                if !metric_eq(&c1[i].lattice, &c2[i].lattice) {
                    return Err(format!("after {}: {} with other lengths or angles", path, names[i]).into());
                }
                if c1[i].num_sites() != c2[i].num_sites() {
                    return Err(format!("after {}: {} with another number of sites", path, names[i]).into());
                }
            }
            let g1 = call(|| sa.get_space_group_info(&start)).ok();
            let g2 = call(|| sa.get_space_group_info(&s)).ok();
            cx.label(if g1.is_some() { "identified" } else { "refused" });
            same_answer(&f, (&g1, &c1[2].lattice), (&g2, &c2[2].lattice), &format!("after {}", path))
        },
        fixed: none,
    }
}

// ---------------------------------------------------------------- A10
/// Numbers of the pairs of groups which are mirror images of each other.
const PAIRS: [(u8, u8); 11] =
    [(76, 78), (91, 95), (92, 96), (144, 145), (151, 153), (152, 154), (169, 170), (171, 172), (178, 179), (180, 181), (212, 213)];
fn mirror(n: u8) -> u8 {
    for (a, b) in PAIRS {
        if n == a {
            return b;
        }
        if n == b {
            return a;
        }
    }
    n
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct A10 {
    case: ACase,
    rot: Option<[f64; 4]>,
    /// mirror the crystal through a plane (0-2) or a point
    plane: u8,
}
pub fn a10() -> Prop<A10> {
    Prop {
        id: "A10",
        rule: "crystal of one of the 230 groups as for A03, three times in ten of one of the 22 groups which are not their own mirror image, analysed as it is and mirrored through a plane or a point (and possibly rotated); non-trivial: the space group is identified and has no rotoinversion, or the crystal is refused and has at least two species or four sites",
        assumptions: &["as for A03"],
        quick: 24_000,
        thorough: 192_000,
        budget: 8_000_000_000,
        strategy: || {
            (with_defects(a_case(3, true, 0.3)), prop::option::weighted(0.5, prop::array::uniform4(-1.0..1.0f64)), 0u8..4, prop::option::weighted(0.3, (0usize..11, any::<bool>())))
                .prop_map(|(mut case, rot, plane, pair)| {
                    if let Some((i, second)) = pair {
                        case.plan.num = if second { PAIRS[i].1 } else { PAIRS[i].0 };
                    }
                    A10 { case, rot, plane }
                })
                .boxed()
        },
        check: |c, cx| {
            let f = match c.case.facts(40) {
                Ok(f) => f,
                Err(e) => {
                    cx.label(e);
                    return Ok(());
                }
            };
            let mut turn = BasisPlan { rot: c.rot, ..BasisPlan::trivial() }.rotation();
            for k in 0..3 {
                if c.plane == 3 || c.plane == k as u8 {
                    turn.column_mut(k).neg_mut();
                }
            }
            let ti = inv(&turn);
            let mut other = f.input.clone();
            other.lat = turn * other.lat;
            let run = |x: &Crystal| -> Result<([Structure; 4], Group), Fail> {
                let s = x.structure(c.case.plan.cart);
                let sa = analyzer(f.dtol);
                let red = Reducer { dtol: f.dtol, atol: 5.0 };
                let cells = must("cells", || {
                    [
                        red.find_primitive_cell(&s),
                        red.niggli_reduce(&s, &1e-5),
                        sa.get_standard_conventional_structure(&s),
                        sa.get_standard_primitive_structure(&s),
                    ]
                })?;
                Ok((cells, call(|| sa.get_space_group_info(&s)).ok()))
            };
            let (c1, g1) = run(&f.input)?;
            let (c2, g2) = run(&other)?;
            let chiral = f.ops.iter().all(|o| det(&o.r) > 0.0);
            cx.nontrivial = if g1.is_some() { chiral } else { f.input.n() > 3 || f.input.sp.iter().any(|s| *s != f.input.sp[0]) };
            cx.label(match (g1.is_some(), chiral) {
                (true, true) => "identified, without rotoinversion",
                (true, false) => "identified, with rotoinversion",
                (false, _) => "refused",
            });
            let names = ["primitive cell", "Niggli cell", "conventional cell", "standard primitive cell"];
            for i in 0..4 {
                let mut b = Crystal::of(&c2[i]);
                b.lat = ti * b.lat;
                same_crystal(&f.input, &b, 1e-5).map_err(|e| format!("mirrored {}: {}", names[i], e))?;
                if c1[i].num_sites() != c2[i].num_sites() {
                    return Err(format!("mirrored: {} with another number of sites", names[i]).into());
                }
                if i != 0 && !metric_eq(&c1[i].lattice, &b.lat) {
                    return Err(format!("mirrored: {} with other lengths or angles", names[i]).into());
                }
            }
            if let (Some(a), Some(b)) = (&g1, &g2) {
                if b.0 != mirror(a.0) || !symbol_ok(b.0, &b.1) {
                    return Err(format!("mirrored: space group {} {} becomes {} {}", a.0, a.1, b.0, b.1).into());
                }
                if a.0 != b.0 {
                    cx.label("pair of groups");
                    // the hand itself, which exchanging both answers would not show
                    if f.num.map_or(false, |n| n == b.0) {
                        return Err(format!("crystal of space group {} reported as its mirror image {} {}", b.0, a.0, a.1).into());
                    }
                }
                if !equal_ops(&op_list(&a.2.operations), &op_list(&b.2.operations), 1e-5) {
                    return Err("mirrored: other operations in the input basis".into());
                }
                return Ok(());
            }
            same_answer(&f, (&g1, &c1[3].lattice), (&g2, &(ti * c2[3].lattice)), "mirrored")
        },
        fixed: none,
    }
}
