//! O01..O04, P01, P02, D01..D03, U01: operations, groups, tables, helpers.
use crate::gen::*;
use crate::geom::*;
use crate::hall;
use crate::p_struct::none;
use crate::runner::*;
use crystsymm::data::core::{BravaisType, LatticeSystem};
use crystsymm::data::pointgroup::{BRAVAIS_TO_HOLOHEDRY_NUM, PG_NUM_TO_SYMBOL};
use crystsymm::data::spacegroup::{SG_NUM_TO_FULL_MATRICES, SG_NUM_TO_SYMBOL};
use crystsymm::pointgroup::PointGroup;
use crystsymm::spacegroup::SpaceGroup;
use crystsymm::symmop::SymmOp;
use crystsymm::utils;
use nalgebra::Matrix3;
use proptest::collection::vec as pvec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub type I9 = [i64; 9];
/// Row-wise entries.
pub fn key(m: &Matrix3<i8>) -> I9 {
    let mut k = [0; 9];
    for i in 0..3 {
        for j in 0..3 {
            k[3 * i + j] = m[(i, j)] as i64;
        }
    }
    k
}
pub fn keyi(m: &IM) -> I9 {
    let mut k = [0; 9];
    for i in 0..3 {
        for j in 0..3 {
            k[3 * i + j] = m[(i, j)];
        }
    }
    k
}
fn mat8(k: &I9) -> Matrix3<i8> {
    Matrix3::from_fn(|i, j| k[3 * i + j] as i8)
}
fn matf(k: &I9) -> M {
    M::from_fn(|i, j| k[3 * i + j] as f64)
}
pub fn symm(o: &hall::Op) -> SymmOp {
    SymmOp { rotation: Matrix3::from_fn(|i, j| o.r[i][j] as i8), translation: o.tf() }
}

/// A random proper or improper crystallographic rotation: an operation of one of the two maximal
/// groups (order 48 and 24), conjugated by a unimodular matrix if that keeps the entries small.
fn rotations() -> &'static Vec<I9> {
    static T: std::sync::OnceLock<Vec<I9>> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        let mut v: Vec<I9> = vec![];
        for n in [221usize, 191] {
            for o in &hall::table()[n - 1] {
                v.push(keyi(&o.ri()));
            }
        }
        v.sort();
        v.dedup();
        v
    })
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RotPlan {
    i: u8,
    uni: Vec<(u8, u8, i8)>,
}
fn rot_plan() -> impl Strategy<Value = RotPlan> + Clone {
    (any::<u8>(), prop_oneof![1 => Just(vec![]).boxed(), 1 => uni_steps(2).boxed()].prop_map(|x| x)).prop_map(|(i, uni)| RotPlan { i, uni }).boxed()
}
impl RotPlan {
    fn get(&self) -> I9 {
        let r = rotations()[self.i as usize % rotations().len()];
        let b = BasisPlan { rot: None, uni: self.uni.clone(), left: false, hnf: [1, 1, 1, 0, 0, 0] };
        let u = to_f(&b.unimodular(2));
        let c = round_im(&(inv(&u) * matf(&r) * u));
        if c.iter().all(|x| x.abs() <= 60) {
            keyi(&c)
        } else {
            r
        }
    }
}

// ---------------------------------------------------------------- O01
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct O01 {
    r1: RotPlan,
    /// None: same rotation
    r2: Option<RotPlan>,
    t: [f64; 3],
    p: [f64; 3],
    tol: [f64; 3],
    whole: [i16; 3],
    /// difference in tolerances: below 0.9 inside, above 1.1 outside
    e: [f64; 3],
    outside: u8,
}
pub fn o01() -> Prop<O01> {
    Prop {
        id: "O01",
        rule: "random crystallographic rotation (also conjugated to skewed bases), translation and point in [-4,4], per-axis tolerances 1e-5 to 0.3, second operation differing by whole numbers (up to 4, at times 1000) plus 0-0.9 or 1.1-3 tolerances per component, or by rotation; non-trivial: the whole-number part or the sub-tolerance part of the difference is not zero",
        assumptions: &["differences between 0.9 and 1.1 tolerances are not generated"],
        quick: 6_000_000,
        thorough: 48_000_000,
        budget: 1_000_000,
        strategy: || {
            (
                rot_plan(),
                prop::option::weighted(0.2, rot_plan()),
                prop::array::uniform3(-4.0..4.0f64),
                prop::array::uniform3(-4.0..4.0f64),
                prop::array::uniform3(unit()),
                prop::array::uniform3(prop_oneof![6 => -4i16..=4, 1 => -1000i16..=1000]),
                prop::array::uniform3(-1.0..1.0f64),
                prop_oneof![2 => Just(0u8), 1 => 0u8..8],
            )
                .prop_map(|(r1, r2, t, p, tol, whole, e, outside)| O01 { r1, r2, t, p, tol, whole, e, outside })
                .boxed()
        },
        check: |c, cx| {
            let r1 = c.r1.get();
            let r2 = c.r2.as_ref().map(|r| r.get()).unwrap_or(r1);
            let tol = V::from(c.tol).map(|p| log_tol(p, 1e-5, 0.3));
            let t = V::from(c.t);
            let mut d = V::zeros();
            let mut equal = r1 == r2;
            for i in 0..3 {
                let mut e = c.e[i] * 0.9;
                if c.outside >> i & 1 == 1 {
                    // clearly outside, and not near the next whole number either
                    let m = (0.5 / tol[i]).min(3.0);
                    e = (1.1 + c.e[i].abs() * (m - 1.1)) * if c.e[i] < 0.0 { -1.0 } else { 1.0 };
                    equal = false;
                }
                d[i] = c.whole[i] as f64 + e * tol[i];
            }
            cx.nontrivial = c.whole != [0, 0, 0] || c.e.iter().any(|x| *x != 0.0);
            cx.label(if equal { "equal" } else if r1 != r2 { "other rotation" } else { "translations differ" });
            let a = SymmOp { rotation: mat8(&r1), translation: t };
            let b = SymmOp { rotation: mat8(&r2), translation: t + d };
            for (x, y, n) in [(&a, &b, "first with second"), (&b, &a, "second with first")] {
                let got = must("comparison", || x.is_approx_eq(y, &tol))?;
                if got != equal {
                    return Err(format!("comparing {} gives {}, expected {}", n, got, equal).into());
                }
            }
            if !must("comparison", || a.is_approx_eq(&a, &tol))? {
                return Err("an operation is not equal to itself".into());
            }
            // action
            let p = V::from(c.p);
            let got = must("action", || a.clone() * p)?;
            let want = matf(&r1) * p + t;
            if !((got - want).norm() <= 1e-10 * (1.0 + want.norm())) {
                return Err(format!("action on {:?} gives {:?}, expected {:?}", c.p, got.as_slice(), want.as_slice()).into());
            }
            // normalisation
            let mut n = b.clone();
            must("normalise", || n.normalize(&tol))?;
            if n.rotation != b.rotation {
                return Err("normalising changes the rotation".into());
            }
            for i in 0..3 {
                let w = n.translation[i] - b.translation[i];
                if !((w - w.round()).abs() < 1e-9) {
                    return Err("normalising shifts the translation by a fraction".into());
                }
                if !(n.translation[i] >= -tol[i] - 1e-12 && n.translation[i] <= 1.0 - tol[i] + 1e-12) {
                    return Err(format!("normalised translation {} outside the cell (tolerance {})", n.translation[i], tol[i]).into());
                }
            }
            if !must("comparison", || n.is_approx_eq(&b, &tol) && b.is_approx_eq(&n, &tol))? {
                return Err("a normalised operation is not equal to the original".into());
            }
            Ok(())
        },
        fixed: none,
    }
}

// ---------------------------------------------------------------- O02
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct O02 {
    r1: RotPlan,
    r2: RotPlan,
    t1: [f64; 3],
    t2: [f64; 3],
    p: [f64; 3],
}
pub fn o02() -> Prop<O02> {
    Prop {
        id: "O02",
        rule: "two random crystallographic operations and a point; non-trivial: the two rotations do not commute or both translations are non-zero",
        assumptions: &[],
        quick: 6_000_000,
        thorough: 48_000_000,
        budget: 1_000_000,
        strategy: || {
            let t = prop_oneof![3 => prop::array::uniform3(-2.0..2.0f64).boxed(), 1 => prop::array::uniform3((-12i8..12).prop_map(|k| k as f64 / 12.0)).boxed(), 1 => Just([0.0; 3]).boxed()].boxed();
            let t = std::sync::Arc::new(t);
            (rot_plan(), rot_plan(), t.clone(), t, prop::array::uniform3(-2.0..2.0f64))
                .prop_map(|(r1, r2, t1, t2, p)| O02 { r1, r2, t1, t2, p })
                .boxed()
        },
        check: |c, cx| {
            let (k1, k2) = (c.r1.get(), c.r2.get());
            let (r1, r2) = (matf(&k1), matf(&k2));
            let (t1, t2) = (V::from(c.t1), V::from(c.t2));
            let a = SymmOp { rotation: mat8(&k1), translation: t1 };
            let b = SymmOp { rotation: mat8(&k2), translation: t2 };
            cx.nontrivial = r1 * r2 != r2 * r1 || (t1.norm() > 0.0 && t2.norm() > 0.0);
            if max_abs(&(r1 * r2)) > 120.0 {
                cx.label("skipped: product exceeds the number type");
                cx.nontrivial = false;
                return Ok(());
            }
            let ab = must("product", || a.clone() * b.clone())?;
            let p = V::from(c.p);
            let one = must("action", || ab.clone() * p)?;
            let two = must("action", || a.clone() * (b.clone() * p))?;
            let e = 1e-9 * (1.0 + two.norm());
            if !((one - (matf(&key(&ab.rotation)) * p + ab.translation)).norm() <= e && (two - (r1 * (r2 * p + t2) + t1)).norm() <= e) {
                return Err("applying an operation to a point does not rotate and shift it".into());
            }
            // both the images and the parts have to agree
            if (one - two).norm() <= e && key(&ab.rotation) == keyi(&round_im(&(r1 * r2))) {
                cx.label("composition");
                return Ok(());
            }
            let msg = format!("product maps the point to {:?}, applying the factors one after the other gives {:?}", one.as_slice(), two.as_slice());
            if key(&ab.rotation) == keyi(&round_im(&(r1 * r2))) && (ab.translation - (r2 * t1 + t2)).norm() <= e {
                cx.label("translation of the reversed product");
                return Err(Fail::Known("symmop-product-translation".into(), msg));
            }
            Err(msg.into())
        },
        fixed: none,
    }
}

// ---------------------------------------------------------------- comparing operation lists
/// Compare a returned operation list with the exact set; every operation once modulo whole numbers.
pub fn compare_ops(got: &[SymmOp], want: &[(I9, V)], tol: f64, names: &str) -> Result<(), String> {
    let near1 = |a: &V, b: &V| int_dev_v(&(a - b)) <= tol;
    let mut by: HashMap<I9, Vec<(V, bool)>> = HashMap::new();
    for (r, t) in want {
        by.entry(*r).or_default().push((*t, false));
    }
    for o in got {
        let k = key(&o.rotation);
        let hit = by.get_mut(&k).and_then(|v| v.iter_mut().find(|(t, _)| near1(t, &o.translation)));
        match hit {
            None => {
                return Err(format!("{} contains {:?} + {:?}, which does not belong to the group", names, k, o.translation.as_slice()));
            }
            Some((_, seen)) => {
                if *seen {
                    return Err(format!("{} lists {:?} + {:?} twice", names, k, o.translation.as_slice()));
                }
                *seen = true;
            }
        }
    }
    for (r, v) in &by {
        for (t, seen) in v {
            if !seen {
                return Err(format!("{} lacks {:?} + {:?} ({} operations instead of {})", names, r, t.as_slice(), got.len(), want.len()));
            }
        }
    }
    Ok(())
}

/// Operations of a group, in the conventional cell (with centring) or in the primitive cell.
fn group_ops(num: u8, prim: bool) -> Vec<hall::Op> {
    if prim {
        hall::prim_table()[num as usize - 1].clone()
    } else {
        hall::table()[num as usize - 1].clone()
    }
}

// ---------------------------------------------------------------- O03
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct O03 {
    num: u8,
    prim: bool,
    /// indices of generators; all operations when `full`
    gens: Vec<u8>,
    full: bool,
    shift: [i8; 3],
    uni: Vec<(u8, u8, i8)>,
    tol: [f64; 3],
}
pub fn o03() -> Prop<O03> {
    Prop {
        id: "O03",
        rule: "1-5 operations (repeats and identity included) or all operations of one of the 230 groups in random order, in the conventional, primitive or a skewed basis, whole numbers added to translations, tolerances 1e-4 to 0.02; oracle: exact closure in integers; non-trivial: the generated group has at least 4 elements and the list is not already closed, or contains repeats",
        assumptions: &["tolerance below half the smallest difference of translations (1/24)", "at least one generator"],
        quick: 400_000,
        thorough: 3_200_000,
        budget: 400_000_000,
        strategy: || {
            (
                1u8..=230,
                prop::bool::weighted(0.75),
                pvec(any::<u8>(), 1..=5),
                prop::bool::weighted(0.1),
                prop::array::uniform3(-3i8..=3),
                prop_oneof![1 => Just(vec![]).boxed(), 1 => uni_steps(2).boxed()].prop_map(|x| x),
                prop::array::uniform3(unit()),
            )
                .prop_map(|(num, prim, gens, full, shift, uni, tol)| O03 { num, prim, gens, full, shift, uni, tol })
                .boxed()
        },
        check: |c, cx| {
            let all = group_ops(c.num, c.prim || (c.full && c.num > 195));
            let u = BasisPlan { rot: None, uni: c.uni.clone(), left: false, hnf: [1, 1, 1, 0, 0, 0] }.unimodular(2);
            let ui = round_im(&inv(&to_f(&u)));
            let rebased: Vec<hall::Op> = all.iter().map(|o| o.rebase(&ui, &to_f(&u))).collect();
            let ops = if rebased.iter().all(|o| o.r.iter().flatten().all(|x| x.abs() <= 5)) { rebased } else { all };
            let idx: Vec<usize> = if c.full {
                let k = ops.len();
                let off = c.gens[0] as usize;
                // a full list in a scrambled order
                let step = (off..).map(|s| s * 2 + 1).find(|s| gcd(*s, k) == 1).unwrap();
                (0..k).map(|i| (i * step + off) % k).collect()
            } else {
                c.gens.iter().map(|g| *g as usize % ops.len()).collect()
            };
            let gens: Vec<hall::Op> = idx.iter().map(|i| ops[*i]).collect();
            // exact closure
            let mut set: BTreeSet<hall::Op> = gens.iter().copied().collect();
            let base: Vec<hall::Op> = set.iter().copied().collect();
            let mut new: Vec<hall::Op> = base.clone();
            while !new.is_empty() {
                let mut next = vec![];
                for a in &new {
                    for g in &base {
                        let p = a.mul(g);
                        if set.insert(p) {
                            next.push(p);
                        }
                    }
                }
                new = next;
            }
            let repeats = base.len() < gens.len();
            cx.nontrivial = set.len() >= 4 && (set.len() > base.len() || repeats);
            cx.label(format!("order {:3}", set.len()));
            if repeats {
                cx.label("repeated generators");
            }
            let tol = V::from(c.tol).map(|p| log_tol(p, 1e-4, 0.02));
            let list: Vec<SymmOp> = gens
                .iter()
                .enumerate()
                .map(|(i, o)| {
                    let mut s = symm(o);
                    if i % 2 == 1 {
                        s.translation += V::new(c.shift[0] as f64, c.shift[1] as f64, c.shift[2] as f64);
                    }
                    s
                })
                .collect();
            let g = must("generation", || SpaceGroup::from_generators(&list, &tol))?;
            let want: Vec<(I9, V)> = set.iter().map(|o| (keyi(&o.ri()), o.tf())).collect();
            compare_ops(&g.operations, &want, 1e-6, "the generated group")?;
            Ok(())
        },
        fixed: none,
    }
}
fn gcd(a: usize, b: usize) -> usize {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}

// ---------------------------------------------------------------- O04
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Step {
    /// integer matrix
    Int(BasisPlan),
    /// inverse of the last step that is not undone yet
    Undo,
    /// conventional to primitive basis (only as first step from the conventional cell)
    Prim(BasisPlan),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct O04 {
    num: u8,
    prim: bool,
    steps: Vec<Step>,
    tol: [f64; 3],
}
/// One exact step on a list of operations: keep those whose rotation stays integer, add the
/// translations of the old lattice, drop duplicates.
fn rebase_ops(ops: &[(I9, V)], t: &M) -> Vec<(I9, V)> {
    let ti = inv(t);
    // translations of the old lattice modulo the new one
    let q = |v: &V| v.map(|x| {
        let y = (x - x.floor()) * 1e6;
        let k = y.round() as i64;
        k.rem_euclid(1_000_000)
    });
    let mut seen: BTreeSet<[i64; 3]> = BTreeSet::new();
    let mut trans = vec![V::zeros()];
    seen.insert([0, 0, 0]);
    let mut i = 0;
    while i < trans.len() {
        for k in 0..3 {
            let w = trans[i] + ti.column(k);
            let w = w.map(|x| {
                let f = x - x.floor();
                if f > 1.0 - 1e-9 { 0.0 } else { f }
            });
            let h = q(&w);
            if seen.insert([h[0], h[1], h[2]]) {
                trans.push(w);
            }
        }
        i += 1;
        assert!(trans.len() < 5000, "oracle: lattice translations do not close");
    }
    let mut out: BTreeMap<(I9, [i64; 3]), V> = BTreeMap::new();
    for (r, tr) in ops {
        let rf = ti * matf(r) * t;
        if int_dev(&rf) > 1e-6 {
            continue;
        }
        let k = keyi(&round_im(&rf));
        for g in &trans {
            let w = ti * tr + g;
            let h = q(&w);
            out.entry((k, [h[0], h[1], h[2]])).or_insert(w);
        }
    }
    out.into_iter().map(|((k, _), w)| (k, w)).collect()
}
pub fn o04() -> Prop<O04> {
    Prop {
        id: "O04",
        rule: "operations of one of the 230 groups in the conventional or primitive cell, 1-3 steps out of: integer matrices of determinant 1-6, rarely up to 24 (skew, axis exchange, inversion, supercell), conventional to primitive, undoing an earlier step; expected set by exact enumeration; non-trivial: a step changes the number of operations or the rotations",
        assumptions: &["the new lattice is a sublattice of the group's translation lattice", "cell volume up to 27 times the starting cell and 400 operations, rotation entries up to 30", "tolerance 1e-4 to 0.01"],
        quick: 1_000_000,
        thorough: 8_000_000,
        budget: 1_000_000_000,
        strategy: || {
            let step = prop_oneof![
                3 => basis_plan(4, 2).prop_map(Step::Int).boxed(),
                1 => basis_plan(6, 1).prop_map(Step::Int).boxed(),
                1 => Just(Step::Undo).boxed(),
                1 => basis_plan(1, 2).prop_map(Step::Prim).boxed(),
            ]
            .boxed();
            (1u8..=230, prop::bool::weighted(0.6), pvec(step, 1..=3), prop::array::uniform3(unit()))
                .prop_map(|(num, prim, steps, tol)| O04 { num, prim, steps, tol })
                .boxed()
        },
        check: |c, cx| {
            let letter = hall::centring_letter(c.num as usize);
            let prim = c.prim || (c.num >= 196 && letter == 'F');
            let start = group_ops(c.num, prim);
            let mut want: Vec<(I9, V)> = start.iter().map(|o| (keyi(&o.ri()), o.tf())).collect();
            let mut g = SpaceGroup { operations: start.iter().map(symm).collect() };
            let tol = V::from(c.tol).map(|p| log_tol(p, 1e-4, 0.01));
            let mut done: Vec<M> = vec![];
            let mut vol = 1.0;
            for (n, s) in c.steps.iter().enumerate() {
                let t: M = match s {
                    Step::Int(b) => to_f(&b.supercell(2)),
                    Step::Undo => match done.last() {
                        Some(l) => inv(l),
                        None => continue,
                    },
                    Step::Prim(b) => {
                        if n == 0 && !prim {
                            prim_of(letter) * to_f(&b.unimodular(2))
                        } else {
                            to_f(&b.unimodular(2))
                        }
                    }
                };
                let next = rebase_ops(&want, &t);
                let big = next.iter().any(|(k, _)| k.iter().any(|x| x.abs() > 30));
                if vol * det(&t).abs() > 27.01 || big || next.len() > 400 {
                    cx.label("step skipped (too large)");
                    continue;
                }
                vol *= det(&t).abs();
                if matches!(s, Step::Undo) {
                    done.pop();
                } else {
                    done.push(t);
                }
                cx.label(match s {
                    Step::Undo => "undo",
                    Step::Prim(_) if det(&t).abs() < 0.9 => "to the primitive cell",
                    _ if det(&t).abs() > 1.5 => "supercell",
                    _ => "unimodular",
                });
                let keys = |v: &[(I9, V)]| v.iter().map(|x| x.0).collect::<BTreeSet<_>>();
                if next.len() != want.len() || keys(&next) != keys(&want) {
                    cx.nontrivial = true;
                }
                let expect = (want.len() as f64 * det(&t).abs()).round() as usize;
                if next.len() < expect {
                    cx.label("operations that do not fit the new cell");
                }
                want = next;
                must("transformation", || g.apply_transformation(&t, &tol))?;
                compare_ops(&g.operations, &want, 1e-5, &format!("the group after step {}", n + 1))?;
            }
            Ok(())
        },
        fixed: none,
    }
}

// ---------------------------------------------------------------- P01
/// Symbol and a space group whose point group it is.
const PG: [(&str, usize); 32] = [
    ("1", 1), ("-1", 2), ("2", 3), ("m", 6), ("2/m", 10), ("222", 16), ("mm2", 25), ("mmm", 47), ("4", 75), ("-4", 81),
    ("4/m", 83), ("422", 89), ("4mm", 99), ("-42m", 111), ("4/mmm", 123), ("3", 143), ("-3", 147), ("32", 150), ("3m", 156),
    ("-3m", 164), ("6", 168), ("-6", 174), ("6/m", 175), ("622", 177), ("6mm", 183), ("-6m2", 187), ("6/mmm", 191),
    ("23", 195), ("m-3", 200), ("432", 207), ("-43m", 215), ("m-3m", 221),
];
fn closure_rot(gens: &[I9]) -> BTreeSet<I9> {
    let mul = |a: &I9, b: &I9| keyi(&round_im(&(matf(a) * matf(b))));
    let mut set: BTreeSet<I9> = gens.iter().copied().collect();
    let mut new: Vec<I9> = set.iter().copied().collect();
    while !new.is_empty() {
        let mut next = vec![];
        for a in &new {
            for g in gens {
                let p = mul(a, g);
                assert!(p.iter().all(|x| x.abs() < 1000), "oracle: rotation entries explode");
                if set.insert(p) {
                    next.push(p);
                }
            }
        }
        new = next;
        if set.len() > 200 {
            break;
        }
    }
    set
}
fn kinds<'a>(it: impl Iterator<Item = &'a I9>) -> BTreeMap<(i64, i64), usize> {
    let mut m = BTreeMap::new();
    for k in it {
        let f = matf(k);
        *m.entry((det(&f).round() as i64, k[0] + k[4] + k[8])).or_default() += 1;
    }
    m
}
fn bravais_type(br: Br) -> BravaisType {
    match br {
        Br::aP => BravaisType::aP,
        Br::mP => BravaisType::mP,
        Br::mC => BravaisType::mC,
        Br::oP => BravaisType::oP,
        Br::oC => BravaisType::oC,
        Br::oI => BravaisType::oI,
        Br::oF => BravaisType::oF,
        Br::tP => BravaisType::tP,
        Br::tI => BravaisType::tI,
        Br::hR => BravaisType::hR,
        Br::hP => BravaisType::hP,
        Br::cP => BravaisType::cP,
        Br::cI => BravaisType::cI,
        Br::cF => BravaisType::cF,
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct P01 {
    num: u8,
    lat: LatPlan,
}
pub fn p01() -> Prop<P01> {
    Prop {
        id: "P01",
        rule: "each of the 32 numbers (symbol, order, kinds of rotations, closure, generators) together with a random generic lattice of one of the 14 Bravais types, whose symmetry group in the conventional cell is found by brute force and compared with the listed holohedry; non-trivial: every case (distinct number and lattice)",
        assumptions: &["lattices generic within their Bravais type"],
        quick: 800_000,
        thorough: 6_400_000,
        budget: 300_000,
        strategy: || (1u8..=32, lat_plan(false)).prop_map(|(num, lat)| P01 { num, lat }).boxed(),
        check: |c, cx| {
            cx.nontrivial = true;
            cx.label(format!("{:?}", c.lat.br));
            let g = must("construction", || PointGroup::from_number(&c.num))?;
            if PG_NUM_TO_SYMBOL.get(&c.num) != Some(&g.symbol) {
                return Err(format!("point group {} carries the symbol {}", c.num, g.symbol).into());
            }
            let (_, sg) = match PG.iter().find(|p| p.0 == g.symbol) {
                Some(p) => p,
                None => return Err(format!("unknown point group symbol {}", g.symbol).into()),
            };
            // every symbol belongs to exactly one number
            for n in 1..=32u8 {
                if n != c.num && PG_NUM_TO_SYMBOL.get(&n) == Some(&g.symbol) {
                    return Err(format!("numbers {} and {} share the symbol {}", n, c.num, g.symbol).into());
                }
            }
            let ops: Vec<I9> = g.operations.iter().map(key).collect();
            let set: BTreeSet<I9> = ops.iter().copied().collect();
            if set.len() != ops.len() {
                return Err(format!("point group {} lists an operation twice", g.symbol).into());
            }
            let reference: BTreeSet<I9> = hall::table()[sg - 1].iter().map(|o| keyi(&o.ri())).collect();
            if kinds(set.iter()) != kinds(reference.iter()) {
                return Err(format!("point group {} has operations of kinds {:?}, expected {:?}", g.symbol, kinds(set.iter()), kinds(reference.iter())).into());
            }
            for a in &set {
                for b in &set {
                    if !set.contains(&keyi(&round_im(&(matf(a) * matf(b))))) {
                        return Err(format!("point group {} is not closed", g.symbol).into());
                    }
                }
            }
            let gens: Vec<I9> = g.generators.iter().map(key).collect();
            if closure_rot(&gens) != set {
                return Err(format!("the generators of point group {} do not generate it", g.symbol).into());
            }
            // holohedry of a random lattice
            let conv = conv_lattice(&c.lat);
            let prim = prim_lattice(&c.lat);
            let red = minkowski(&prim);
            let back = inv(&conv) * red;
            let want: BTreeSet<I9> = holohedry(&red, 1e-7)
                .iter()
                .map(|w| {
                    let f = back * to_f(w) * inv(&back);
                    assert!(int_dev(&f) < 1e-6, "oracle: holohedry is not integer in the conventional cell");
                    keyi(&round_im(&f))
                })
                .collect();
            let mut types = vec![bravais_type(c.lat.br)];
            if c.lat.br == Br::mC {
                types.push(BravaisType::mI);
            }
            for b in types {
                let n = match BRAVAIS_TO_HOLOHEDRY_NUM.get(&b) {
                    Some(n) => *n,
                    None => return Err(format!("no holohedry listed for {}", b).into()),
                };
                let h = must("construction", || PointGroup::from_number(&n))?;
                let got: BTreeSet<I9> = h.operations.iter().map(key).collect();
                if got != want {
                    return Err(format!("holohedry of {} has {} operations in another orientation or number, the lattice has {}", b, got.len(), want.len()).into());
                }
            }
            Ok(())
        },
        fixed: || (1..=32u8).map(|num| P01 { num, lat: LatPlan { br: Br::ALL[num as usize % 14], p: [0.31, 0.52, 0.77, 0.23, 0.64, 0.41], special: 0, strain: None } }).collect(),
    }
}

// ---------------------------------------------------------------- P02
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct P02 {
    num: u8,
    steps: Vec<(BasisPlan, u8)>,
}
pub fn p02() -> Prop<P02> {
    Prop {
        id: "P02",
        rule: "one of the 32 point groups and 1-3 basis changes (unimodular, supercell or centring matrices, kept when all conjugates are integer and small), then all the way back; non-trivial: some operation changes its matrix",
        assumptions: &["conjugates are integer with entries up to 100"],
        quick: 2_000_000,
        thorough: 16_000_000,
        budget: 10_000_000,
        strategy: || (1u8..=32, pvec((basis_plan(4, 2), 0u8..10), 1..=3)).prop_map(|(num, steps)| P02 { num, steps }).boxed(),
        check: |c, cx| {
            let mut g = must("construction", || PointGroup::from_number(&c.num))?;
            let start: BTreeSet<I9> = g.operations.iter().map(key).collect();
            let mut done = vec![];
            let conj = |ks: &[I9], t: &M| -> Option<Vec<I9>> {
                let ti = inv(t);
                ks.iter()
                    .map(|k| {
                        let f = ti * matf(k) * t;
                        (int_dev(&f) < 1e-7 && max_abs(&f) < 100.5).then(|| keyi(&round_im(&f)))
                    })
                    .collect()
            };
            let step = |g: &mut PointGroup, t: &M, name: &str, cx: &mut Ctx| -> Result<bool, Fail> {
                let ops: Vec<I9> = g.operations.iter().map(key).collect();
                let gens: Vec<I9> = g.generators.iter().map(key).collect();
                let (wo, wg) = match (conj(&ops, t), conj(&gens, t)) {
                    (Some(a), Some(b)) => (a, b),
                    _ => return Ok(false),
                };
                cx.label(name.to_string());
                must("transformation", || g.apply_transformation(t))?;
                let a: BTreeSet<I9> = g.operations.iter().map(key).collect();
                let b: BTreeSet<I9> = wo.iter().copied().collect();
                if a != b || g.operations.len() != ops.len() {
                    return Err(format!("{}: operations are not the conjugates of the original ones", name).into());
                }
                if a != ops.iter().copied().collect::<BTreeSet<I9>>() || g.operations.iter().map(key).collect::<Vec<_>>() != ops {
                    cx.nontrivial = true;
                }
                if g.generators.iter().map(key).collect::<Vec<_>>() != wg {
                    return Err(format!("{}: generators are not the conjugates of the original ones", name).into());
                }
                if closure_rot(&wg) != a {
                    return Err(format!("{}: transformed generators do not generate the group", name).into());
                }
                Ok(true)
            };
            for (b, k) in &c.steps {
                let (t, name): (M, &str) = match k {
                    0 => (prim_of('C'), "C to primitive"),
                    1 => (prim_of('I'), "I to primitive"),
                    2 => (prim_of('F'), "F to primitive"),
                    3 => (prim_of('R'), "R to primitive"),
                    4 => (prim_of('A'), "A to primitive"),
                    5 | 6 => (to_f(&b.supercell(2)), "integer matrix"),
                    _ => (to_f(&b.unimodular(2)), "unimodular"),
                };
                if step(&mut g, &t, name, cx)? {
                    done.push(t);
                }
            }
            while let Some(t) = done.pop() {
                step(&mut g, &inv(&t), "back", cx)?;
            }
            let end: BTreeSet<I9> = g.operations.iter().map(key).collect();
            if end != start {
                return Err("transforming back does not restore the group".into());
            }
            Ok(())
        },
        fixed: none,
    }
}

// ---------------------------------------------------------------- D01
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct D01 {
    num: u8,
    pts: Vec<[f64; 3]>,
}
fn lattice_system_of(num: u8) -> LatticeSystem {
    match bravais_of(num) {
        Br::aP => LatticeSystem::Triclinic,
        Br::mP | Br::mC => LatticeSystem::Monoclinic,
        Br::oP | Br::oC | Br::oI | Br::oF => LatticeSystem::Orthorhombic,
        Br::tP | Br::tI => LatticeSystem::Tetragonal,
        Br::hR => LatticeSystem::Rhombohedral,
        Br::hP => LatticeSystem::Hexagonal,
        _ => LatticeSystem::Cubic,
    }
}
pub fn d01() -> Prop<D01> {
    Prop {
        id: "D01",
        rule: "each of the 230 numbers (all of them in every run) and random points: the decoded operations are compared with the ones expanded from the Hall symbol, as sets and by their images of the points; non-trivial: every case",
        assumptions: &["reference setting: unique axis b, cell choice 1, first origin choice, hexagonal axes with obverse rhombohedral cell, standard primitive vectors"],
        quick: 500_000,
        thorough: 4_000_000,
        budget: 10_000_000,
        strategy: || (1u8..=230, pvec(prop::array::uniform3(-1.0..1.0f64), 1..4)).prop_map(|(num, pts)| D01 { num, pts }).boxed(),
        check: |c, cx| {
            cx.nontrivial = true;
            cx.label(format!("{}", lattice_system_of(c.num)));
            let mut places = vec![];
            for (ls, by_order) in SG_NUM_TO_FULL_MATRICES.iter() {
                for (order, by_num) in by_order {
                    if let Some(codes) = by_num.get(&c.num) {
                        places.push((ls, *order, codes));
                    }
                }
            }
            if places.len() != 1 {
                return Err(format!("space group {} is listed {} times", c.num, places.len()).into());
            }
            let (ls, order, codes) = places[0];
            if *ls != lattice_system_of(c.num) {
                return Err(format!("space group {} is listed as {}", c.num, ls).into());
            }
            let want = &hall::prim_table()[c.num as usize - 1];
            if order as usize != want.len() || codes.len() != want.len() {
                return Err(format!("space group {} is listed with order {} and {} operations, expected {}", c.num, order, codes.len(), want.len()).into());
            }
            let mut got: Vec<SymmOp> = vec![];
            for code in codes {
                let (r, t) = must("decoding", || utils::decode_spg_op(*code))?;
                if r.len() != 9 || t.len() != 3 {
                    return Err("decoded operation has the wrong length".into());
                }
                got.push(SymmOp { rotation: Matrix3::from_row_slice(&r), translation: V::new(t[0] as f64, t[1] as f64, t[2] as f64) / 12.0 });
            }
            let w: Vec<(I9, V)> = want.iter().map(|o| (keyi(&o.ri()), o.tf())).collect();
            compare_ops(&got, &w, 1e-9, &format!("the table entry of space group {}", c.num))?;
            // images of points
            for p in &c.pts {
                let p = V::from(*p);
                for o in &got {
                    let a = must("action", || o.clone() * p)?;
                    if !w.iter().any(|(k, t)| int_dev_v(&(matf(k) * p + t - a)) < 1e-9) {
                        return Err(format!("operation of space group {} maps {:?} to {:?}", c.num, p.as_slice(), a.as_slice()).into());
                    }
                }
            }
            // no number outside 1..230
            if c.num == 1 {
                for by_order in SG_NUM_TO_FULL_MATRICES.values() {
                    for by_num in by_order.values() {
                        if by_num.keys().any(|n| *n < 1 || *n > 230) {
                            return Err("a number outside 1 to 230 is listed".into());
                        }
                    }
                }
            }
            Ok(())
        },
        fixed: || (1..=230u8).map(|num| D01 { num, pts: vec![[0.1234, 0.3771, 0.6173]] }).collect(),
    }
}

// ---------------------------------------------------------------- D02
/// Hermann-Mauguin symbols (International Tables A, 5th edition), monoclinic ones with the full
/// three positions for unique axis b.
const HM: [&str; 230] = [
    "P1", "P-1", "P121", "P12_11", "C121", "P1m1", "P1c1", "C1m1", "C1c1", "P12/m1", "P12_1/m1", "C12/m1", "P12/c1", "P12_1/c1", "C12/c1",
    "P222", "P222_1", "P2_12_12", "P2_12_12_1", "C222_1", "C222", "F222", "I222", "I2_12_12_1",
    "Pmm2", "Pmc2_1", "Pcc2", "Pma2", "Pca2_1", "Pnc2", "Pmn2_1", "Pba2", "Pna2_1", "Pnn2", "Cmm2", "Cmc2_1", "Ccc2", "Amm2", "Aem2", "Ama2", "Aea2", "Fmm2", "Fdd2", "Imm2", "Iba2", "Ima2",
    "Pmmm", "Pnnn", "Pccm", "Pban", "Pmma", "Pnna", "Pmna", "Pcca", "Pbam", "Pccn", "Pbcm", "Pnnm", "Pmmn", "Pbcn", "Pbca", "Pnma", "Cmcm", "Cmce", "Cmmm", "Cccm", "Cmme", "Ccce", "Fmmm", "Fddd", "Immm", "Ibam", "Ibca", "Imma",
    "P4", "P4_1", "P4_2", "P4_3", "I4", "I4_1", "P-4", "I-4", "P4/m", "P4_2/m", "P4/n", "P4_2/n", "I4/m", "I4_1/a",
    "P422", "P42_12", "P4_122", "P4_12_12", "P4_222", "P4_22_12", "P4_322", "P4_32_12", "I422", "I4_122",
    "P4mm", "P4bm", "P4_2cm", "P4_2nm", "P4cc", "P4nc", "P4_2mc", "P4_2bc", "I4mm", "I4cm", "I4_1md", "I4_1cd",
    "P-42m", "P-42c", "P-42_1m", "P-42_1c", "P-4m2", "P-4c2", "P-4b2", "P-4n2", "I-4m2", "I-4c2", "I-42m", "I-42d",
    "P4/mmm", "P4/mcc", "P4/nbm", "P4/nnc", "P4/mbm", "P4/mnc", "P4/nmm", "P4/ncc", "P4_2/mmc", "P4_2/mcm", "P4_2/nbc", "P4_2/nnm", "P4_2/mbc", "P4_2/mnm", "P4_2/nmc", "P4_2/ncm", "I4/mmm", "I4/mcm", "I4_1/amd", "I4_1/acd",
    "P3", "P3_1", "P3_2", "R3", "P-3", "R-3", "P312", "P321", "P3_112", "P3_121", "P3_212", "P3_221", "R32", "P3m1", "P31m", "P3c1", "P31c", "R3m", "R3c", "P-31m", "P-31c", "P-3m1", "P-3c1", "R-3m", "R-3c",
    "P6", "P6_1", "P6_5", "P6_2", "P6_4", "P6_3", "P-6", "P6/m", "P6_3/m", "P622", "P6_122", "P6_522", "P6_222", "P6_422", "P6_322", "P6mm", "P6cc", "P6_3cm", "P6_3mc", "P-6m2", "P-6c2", "P-62m", "P-62c", "P6/mmm", "P6/mcc", "P6_3/mcm", "P6_3/mmc",
    "P23", "F23", "I23", "P2_13", "I2_13", "Pm-3", "Pn-3", "Fm-3", "Fd-3", "Im-3", "Pa-3", "Ia-3", "P432", "P4_232", "F432", "F4_132", "I432", "P4_332", "P4_132", "I4_132",
    "P-43m", "F-43m", "I-43m", "P-43n", "F-43c", "I-43d", "Pm-3m", "Pn-3n", "Pm-3n", "Pn-3m", "Fm-3m", "Fm-3c", "Fd-3m", "Fd-3c", "Im-3m", "Ia-3d",
];
const TWO_ORIGINS: [u8; 24] = [48, 50, 59, 68, 70, 85, 86, 88, 125, 126, 129, 130, 133, 134, 137, 138, 141, 142, 201, 203, 222, 224, 227, 228];

/// Is `sym` the symbol of `num`? A trailing origin choice "1" (groups with two tabulated origins) or
/// "H" (rhombohedral groups on hexagonal axes) is accepted.
pub fn symbol_ok(num: u8, sym: &str) -> bool {
    let hm = HM[num as usize - 1];
    sym == hm || (TWO_ORIGINS.contains(&num) && sym == format!("{}1", hm)) || (hm.starts_with('R') && sym == format!("{}H", hm))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct D02 {
    num: u8,
    other: u8,
}
pub fn d02() -> Prop<D02> {
    Prop {
        id: "D02",
        rule: "each of the 230 numbers, and random pairs of numbers: symbol against an independent list, centring letter against the Hall symbol, no shared symbol; non-trivial: the two numbers differ",
        assumptions: &["a trailing origin-choice or axes mark is accepted"],
        quick: 300_000,
        thorough: 2_400_000,
        budget: 1_000_000,
        strategy: || (1u8..=230, 1u8..=230).prop_map(|(num, other)| D02 { num, other }).boxed(),
        check: |c, cx| {
            cx.nontrivial = c.num != c.other;
            let get = |n: u8| SG_NUM_TO_SYMBOL.get(&n).copied().ok_or_else(|| Fail::Violation(format!("no symbol for number {}", n)));
            let (a, b) = (get(c.num)?, get(c.other)?);
            if !symbol_ok(c.num, a) {
                return Err(format!("symbol of number {} is {}, expected {}", c.num, a, HM[c.num as usize - 1]).into());
            }
            if a.chars().next() != Some(hall::centring_letter(c.num as usize)) {
                return Err(format!("symbol {} of number {} starts with the wrong lattice letter", a, c.num).into());
            }
            if c.num != c.other && a == b {
                return Err(format!("numbers {} and {} share the symbol {}", c.num, c.other, a).into());
            }
            if SG_NUM_TO_SYMBOL.len() != 230 {
                return Err(format!("{} symbols listed", SG_NUM_TO_SYMBOL.len()).into());
            }
            Ok(())
        },
        fixed: || (1..=230u8).map(|num| D02 { num, other: num % 230 + 1 }).collect(),
    }
}

// ---------------------------------------------------------------- D03
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum D03 {
    Digits { base: u8, sub: i8, digits: Vec<u8> },
    Op { rot: [i8; 9], tr: [u8; 3] },
}
/// Allowed translation components in twelfths, ascending.
const TWELFTHS: [i8; 8] = [0, 2, 3, 4, 6, 8, 9, 10];
pub fn d03() -> Prop<D03> {
    Prop {
        id: "D03",
        rule: "random digit list in base 2-12 (as many digits as fit 32 bits, leading zeros included) with offset 0-6, encoded by Horner's rule, or a random operation (nine entries -1..1, translations in the eight allowed twelfths) encoded as base-3 rotation plus 3^9 times base-8 translation; non-trivial: at least two digits differ",
        assumptions: &[],
        quick: 6_000_000,
        thorough: 48_000_000,
        budget: 1_000_000,
        strategy: || {
            prop_oneof![
                (2u8..=12, 0i8..=6, pvec(any::<u8>(), 1..=31)).prop_map(|(base, sub, d)| {
                    let mut max = 0;
                    let mut v: u64 = 1;
                    while v * base as u64 <= u32::MAX as u64 + 1 {
                        v *= base as u64;
                        max += 1;
                    }
                    let digits = d.iter().take(max).map(|x| x % base).collect();
                    D03::Digits { base, sub, digits }
                }),
                (prop::array::uniform9(-1i8..=1), prop::array::uniform3(0u8..8)).prop_map(|(rot, tr)| D03::Op { rot, tr }),
            ]
            .boxed()
        },
        check: |c, cx| match c {
            D03::Digits { base, sub, digits } => {
                let mut e: u64 = 0;
                for d in digits {
                    e = e * *base as u64 + *d as u64;
                }
                cx.nontrivial = digits.iter().any(|d| d != &digits[0]);
                cx.label("digits");
                let got = must("decoding", || utils::decode(e as u32, *base, *sub, digits.len() as i8))?;
                let want: Vec<i8> = digits.iter().map(|d| *d as i8 - sub).collect();
                if got != want {
                    return Err(format!("{} in base {} decodes to {:?}, expected {:?}", e, base, got, want).into());
                }
                Ok(())
            }
            D03::Op { rot, tr } => {
                let mut r: u32 = 0;
                for d in rot {
                    r = r * 3 + (d + 1) as u32;
                }
                let mut t: u32 = 0;
                for d in tr {
                    t = t * 8 + *d as u32;
                }
                cx.nontrivial = rot.iter().any(|d| d != &rot[0]);
                cx.label("operation");
                let (gr, gt) = must("decoding", || utils::decode_spg_op(r + 19683 * t))?;
                let want: Vec<i8> = tr.iter().map(|d| TWELFTHS[*d as usize]).collect();
                if gr != rot.to_vec() || gt != want {
                    return Err(format!("code {} decodes to {:?} {:?}, expected {:?} {:?}", r + 19683 * t, gr, gt, rot, want).into());
                }
                Ok(())
            }
        },
        fixed: || {
            // every digit alone in every place
            let mut v = vec![];
            for k in 0..9 {
                for d in -1i8..=1 {
                    let mut rot = [0; 9];
                    rot[k] = d;
                    v.push(D03::Op { rot, tr: [0, 0, 0] });
                }
            }
            for k in 0..3 {
                for d in 0..8 {
                    let mut tr = [0; 3];
                    tr[k] = d;
                    v.push(D03::Op { rot: [1, 0, 0, 0, 1, 0, 0, 0, 1], tr });
                }
            }
            v
        },
    }
}

// ---------------------------------------------------------------- U01
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct U01 {
    vecs: Vec<[f64; 3]>,
    far: u8,
    /// place components next to a boundary: (whole part, boundary 0..4, offset in tolerances)
    edge: Vec<(i8, u8, f64)>,
    tol: [f64; 3],
    eps: f64,
    a: [f64; 9],
    e: [f64; 9],
    out: u16,
    n: u8,
}
pub fn u01() -> Prop<U01> {
    Prop {
        id: "U01",
        rule: "vectors with components anywhere up to 1e4 and next to the faces and tolerance band edges (whole number plus 0, +-tol, 1-tol, each plus a small offset), tolerances 1e-8 to 0.3; pairs of numbers and 3x3 matrices differing by 0-0.99 or 1.01-3 tolerances; number lists around zero; non-trivial: some component is moved, or some pair differs by less than the tolerance without being equal",
        assumptions: &["values closer to a decision boundary than 1 % of the tolerance are only used for the wrapping bounds, not for equality decisions"],
        quick: 6_000_000,
        thorough: 48_000_000,
        budget: 1_000_000,
        strategy: || {
            (
                (pvec(prop::array::uniform3(-1.0..1.0f64), 0..4), 0u8..4, pvec((-4i8..=4, 0u8..5, -1.0..1.0f64), 0..6)),
                prop::array::uniform3(unit()),
                unit(),
                prop::array::uniform9(-3.0..3.0f64),
                prop::array::uniform9(-1.0..1.0f64),
                prop_oneof![2 => Just(0u16), 1 => (0u16..9).prop_map(|i| 1 << i), 1 => 0u16..512],
                0u8..9,
            )
                .prop_map(|((vecs, far, edge), tol, eps, a, e, out, n)| U01 { vecs, far, edge, tol, eps, a, e, out, n })
                .boxed()
        },
        check: |c, cx| {
            let tol = V::from(c.tol).map(|p| log_tol(p, 1e-8, 0.3));
            let scale = [1.0, 3.0, 100.0, 1e4][c.far as usize];
            let mut vs: Vec<V> = c.vecs.iter().map(|v| V::from(*v) * scale).collect();
            for (i, ch) in c.edge.chunks(3).enumerate() {
                let mut v = V::new(0.3, -0.4, 2.7);
                for (k, (w, b, o)) in ch.iter().enumerate() {
                    let t = tol[k];
                    let off = match b {
                        0 => 0.0,
                        1 => t,
                        2 => -t,
                        3 => 1.0 - t,
                        _ => 0.5,
                    };
                    v[k] = *w as f64 + off + if i % 2 == 0 { o * t * 0.5 } else { o * 1e-13 };
                }
                vs.push(v);
            }
            let mut out = vs.clone();
            must("wrapping", || utils::normalize_frac_vectors(&mut out, &tol))?;
            if out.len() != vs.len() {
                return Err("wrapping changes the number of vectors".into());
            }
            for (a, b) in vs.iter().zip(&out) {
                for i in 0..3 {
                    let d = b[i] - a[i];
                    if !((d - d.round()).abs() <= 1e-12 * (1.0 + a[i].abs())) {
                        return Err(format!("wrapping {} to {} is no whole step", a[i], b[i]).into());
                    }
                    if d != 0.0 {
                        cx.nontrivial = true;
                    }
                    let s = 1e-12 * (1.0 + a[i].abs());
                    if !(b[i] >= -tol[i] - s && b[i] <= 1.0 - tol[i] + s) {
                        return Err(format!("{} wrapped to {}, outside [-{}, 1-{}]", a[i], b[i], tol[i], tol[i]).into());
                    }
                }
            }
            // equality helpers
            let eps = log_tol(c.eps, 1e-8, 0.3);
            let mut b = c.a;
            let mut inside = [true; 9];
            let mut tols = [0.0; 9];
            for i in 0..9 {
                // a different tolerance for every entry of the matrices
                tols[i] = eps * (1.0 + i as f64 * 0.5);
                let o = c.out >> i & 1 == 1;
                let e = if o { (1.01 + 2.0 * c.e[i].abs()) * if c.e[i] < 0.0 { -1.0 } else { 1.0 } } else { c.e[i] * 0.99 };
                inside[i] = !o;
                b[i] = c.a[i] + e * tols[i];
                if !o && e != 0.0 {
                    cx.nontrivial = true;
                }
            }
            for i in 0..9 {
                for (x, y) in [(c.a[i], b[i]), (b[i], c.a[i])] {
                    if must("comparison", || utils::cust_eq(&x, &y, &tols[i]))? != inside[i] {
                        return Err(format!("{} and {} with tolerance {}: equality should be {}", x, y, tols[i], inside[i]).into());
                    }
                    if must("comparison", || utils::approx_equal(&x, &y, &tols[i]))? != inside[i] {
                        return Err(format!("{} and {} with tolerance {}: approximate equality should be {}", x, y, tols[i], inside[i]).into());
                    }
                }
            }
            let (ma, mb) = (Matrix3::from_column_slice(&c.a), Matrix3::from_column_slice(&b));
            let want = inside.iter().all(|x| *x);
            for (x, y) in [(&ma, &mb), (&mb, &ma)] {
                if must("comparison", || utils::compare_matrices(x, y, &tols))? != want {
                    return Err(format!("matrix comparison should be {}", want).into());
                }
            }
            // lists with one common tolerance
            let n = c.n as usize;
            let b1: Vec<f64> = (0..n).map(|i| c.a[i] + (b[i] - c.a[i]) * eps / tols[i]).collect();
            let want = inside[..n].iter().all(|x| *x);
            for (x, y) in [(&c.a[..n], &b1[..]), (&b1[..], &c.a[..n])] {
                if must("comparison", || utils::approx_equal_iter(x.iter(), y.iter(), &eps))? != want {
                    return Err(format!("list comparison should be {}", want).into());
                }
            }
            // counting around zero
            let vals: Vec<f64> = (0..n)
                .map(|i| match (c.e[i].abs() * 4.0) as i32 {
                    0 => c.e[i] * 3.9 * eps,
                    1 => -eps * 1.02 - c.e[i].abs(),
                    2 => eps * 1.02 + c.e[i].abs(),
                    _ => 0.0,
                })
                .collect();
            let neg = vals.iter().filter(|x| **x < -eps).count();
            let zero = vals.iter().filter(|x| x.abs() < eps).count();
            let got = must("counting", || utils::num_negative_zero(&vals, &eps))?;
            if (got.0 as usize, got.1 as usize) != (neg, zero) {
                return Err(format!("counting {:?} with tolerance {} gives {:?}, expected {} negative and {} zero", vals, eps, got, neg, zero).into());
            }
            Ok(())
        },
        fixed: none,
    }
}
