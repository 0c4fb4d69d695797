//! The Python functions, called in real Python processes, against the Rust functions.
use crate::gen::*;
use crate::geom::*;
use crate::p_struct::none;
use crate::runner::*;
use crystsymm::analyzer::SymmetryAnalyzer;
use crystsymm::reduce::Reducer;
use crystsymm::structure::Structure;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

struct Driver {
    child: Child,
    to: Option<ChildStdin>,
    from: BufReader<ChildStdout>,
}
impl Driver {
    fn start() -> Driver {
        let exe = std::env::current_exe().expect("oracle: own path");
        let so = exe.parent().expect("oracle: own directory").join("deps/libcrystsymm.so");
        assert!(so.exists(), "oracle: no extension module at {}", so.display());
        let py = std::env::var("PYO3_PYTHON").unwrap_or_else(|_| "/usr/bin/python3".into());
        let mut child = Command::new(py)
            .args(["-I", "-B", "-c", include_str!("driver.py")])
            .arg(&so)
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("oracle: python does not start");
        let to = child.stdin.take();
        let from = BufReader::new(child.stdout.take().unwrap());
        let mut d = Driver { child, to, from };
        let mut l = String::new();
        d.from.read_line(&mut l).expect("oracle: python driver");
        assert!(l.trim() == "ready", "oracle: the extension module cannot be imported");
        d
    }
    /// None: the Python process died.
    fn ask(&mut self, q: &Value) -> Option<Value> {
        let to = self.to.as_mut().unwrap();
        writeln!(to, "{}", q).ok()?;
        to.flush().ok()?;
        let mut l = String::new();
        if self.from.read_line(&mut l).ok()? == 0 {
            return None;
        }
        // python writes NaN and infinities, which are no JSON
        Some(serde_json::from_str(&l).unwrap_or_else(|_| json!({ "err": format!("numbers which are not finite: {}", l.trim()) })))
    }
}
impl Drop for Driver {
    fn drop(&mut self) {
        self.to = None;
        let _ = self.child.wait();
    }
}
thread_local! { static DRIVER: RefCell<Option<Driver>> = const { RefCell::new(None) }; }

fn python(f: &str, tuples: bool, args: Value) -> Result<Result<Value, String>, Fail> {
    DRIVER.with(|d| {
        let mut d = d.borrow_mut();
        let drv = d.get_or_insert_with(Driver::start);
        match drv.ask(&json!({"f": f, "tuples": tuples, "args": args})) {
            Some(v) => Ok(match v.get("err") {
                Some(e) => Err(e.as_str().unwrap_or("").to_string()),
                None => Ok(v["ok"].clone()),
            }),
            None => {
                use std::os::unix::process::ExitStatusExt;
                let st = drv.child.wait().expect("oracle: python driver");
                *d = None;
                // killed from outside (e.g. out of memory) says nothing about the code
                assert!(st.signal() != Some(9), "oracle: the python process was killed");
                Err(Fail::Violation(format!("{}: the Python process died ({})", f, st)))
            }
        }
    })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Source {
    Sites(CrystalPlan),
    Group(SgPlan),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct B01 {
    func: u8,
    src: Source,
    cart: bool,
    tuples: bool,
    dtol: f64,
    atol: f64,
    ntol: f64,
    /// displacement of the sites in units of the distance tolerance, with its direction seed
    noise: Option<(f64, u32)>,
    /// relative distortion of the lattice, log scale
    strain: Option<(f64, [f64; 6])>,
}
const FUNCS: [&str; 5] =
    ["find_primitive", "niggli_reduce", "get_space_group_info", "get_standard_conventional_structure", "get_standard_primitive_structure"];

fn b01_case() -> BoxedStrategy<B01> {
    let src = prop_oneof![
        1 => crystal_plan(5, 4, true).prop_map(Source::Sites),
        2 => sg_plan_for(sg_num(), 2, true).prop_map(Source::Group),
    ];
    (
        0u8..5,
        src,
        any::<bool>(),
        any::<bool>(),
        unit(),
        unit(),
        unit(),
        prop::option::weighted(0.4, (unit(), any::<u32>())),
        prop::option::weighted(0.4, (unit(), prop::array::uniform6(unit()))),
    )
        .prop_map(|(func, src, cart, tuples, dtol, atol, ntol, noise, strain)| B01 { func, src, cart, tuples, dtol, atol, ntol, noise, strain })
        .boxed()
}

fn noise_of(seed: u32, i: usize) -> V {
    let mut x = (seed as u64) ^ ((i as u64 + 1).wrapping_mul(0x9E3779B97F4A7C15));
    let mut next = || {
        x ^= x >> 30;
        x = x.wrapping_mul(0xBF58476D1CE4E5B9);
        x ^= x >> 27;
        (x >> 11) as f64 / (1u64 << 53) as f64 - 0.5
    };
    let v = V::new(next(), next(), next());
    v / v.norm().max(0.1)
}

#[derive(Clone, Debug)]
enum Out {
    Cell(Vec<f64>, Vec<(String, Vec<f64>)>),
    Group(u64, String, Vec<(Vec<i64>, Vec<f64>)>),
}
fn near(a: &[f64], b: &[f64]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| (x - y).abs() <= 1e-9 * (1.0 + x.abs()))
}
/// Equal as lists of pairs in any order.
fn same_pairs<T: PartialEq>(a: &[(T, Vec<f64>)], b: &[(T, Vec<f64>)]) -> bool {
    let mut used = vec![false; b.len()];
    a.len() == b.len()
        && a.iter().all(|x| match (0..b.len()).find(|&j| !used[j] && b[j].0 == x.0 && near(&x.1, &b[j].1)) {
            Some(j) => {
                used[j] = true;
                true
            }
            None => false,
        })
}
fn same_out(a: &Out, b: &Out) -> bool {
    match (a, b) {
        (Out::Cell(l, s), Out::Cell(m, t)) => near(l, m) && same_pairs(s, t),
        (Out::Group(n, s, o), Out::Group(m, t, p)) => n == m && s == t && same_pairs(o, p),
        _ => false,
    }
}

fn rust(func: u8, s: &Structure, dtol: f64, atol: f64, ntol: f64) -> Result<Out, String> {
    let cell = |t: Structure| {
        let mut l = vec![];
        for j in 0..3 {
            for i in 0..3 {
                l.push(t.lattice[(i, j)]);
            }
        }
        Out::Cell(l, t.species.iter().cloned().zip(t.frac_coords.iter().map(|v| vec![v.x, v.y, v.z])).collect())
    };
    call(|| match func {
        0 => cell(Reducer { dtol, atol }.find_primitive_cell(s)),
        1 => cell(Reducer::default().niggli_reduce(s, &ntol)),
        2 => {
            let (n, sy, g) = SymmetryAnalyzer { dtol, atol }.get_space_group_info(s);
            let ops = g.operations.iter().map(|o| {
                let mut r = vec![];
                for i in 0..3 {
                    for j in 0..3 {
                        r.push(o.rotation[(i, j)] as i64);
                    }
                }
                (r, vec![o.translation.x, o.translation.y, o.translation.z])
            });
            Out::Group(n as u64, sy, ops.collect())
        }
        3 => cell(SymmetryAnalyzer { dtol, atol }.get_standard_conventional_structure(s)),
        _ => cell(SymmetryAnalyzer { dtol, atol }.get_standard_primitive_structure(s)),
    })
}

fn floats(v: &Value) -> Option<Vec<f64>> {
    v.as_array()?.iter().map(|x| x.as_f64()).collect()
}
fn parse(func: u8, v: &Value) -> Option<Out> {
    let a = v.as_array()?;
    if a.len() != 3 {
        return None;
    }
    if func == 2 {
        let ops: Option<Vec<_>> = a[2]
            .as_array()?
            .iter()
            .map(|o| {
                let o = o.as_array()?;
                let r: Option<Vec<i64>> = o.first()?.as_array()?.iter().map(|x| x.as_i64()).collect();
                Some((r?, floats(o.get(1)?)?))
            })
            .collect();
        return Some(Out::Group(a[0].as_u64()?, a[1].as_str()?.to_string(), ops?));
    }
    let sp: Option<Vec<String>> = a[1].as_array()?.iter().map(|x| x.as_str().map(|s| s.to_string())).collect();
    let co: Option<Vec<Vec<f64>>> = a[2].as_array()?.iter().map(floats).collect();
    let (sp, co) = (sp?, co?);
    if sp.len() != co.len() {
        return None;
    }
    Some(Out::Cell(floats(&a[0])?, sp.into_iter().zip(co).collect()))
}

/// One call in Python and in Rust.
fn compare_call(c: &B01, cx: &mut Ctx) -> Res {
    let dtol = log_tol(c.dtol, 1e-3, 0.2);
    let atol = log_tol(c.atol, 1e-2, 10.0);
    let ntol = log_tol(c.ntol, 1e-8, 1e-1);
    let mut x = match &c.src {
        Source::Sites(p) => p.input(dmin_for(dtol)),
        Source::Group(p) => p.build((6.0 * dtol).max(0.6), 12).input,
    };
    if x.n() == 0 || x.n() > 60 {
        cx.label("skipped: size");
        return Ok(());
    }
    if let Some((a, q)) = &c.strain {
        let e = log_tol(*a, 1e-5, 0.1);
        let q = q.map(|v| (v - 0.5) * e);
        x.lat = (M::identity() + M::new(q[0], q[1], q[2], q[1], q[3], q[4], q[2], q[4], q[5])) * x.lat;
    }
    if let Some((a, s)) = &c.noise {
        let li = inv(&x.lat);
        for (i, f) in x.frac.iter_mut().enumerate() {
            *f += li * (noise_of(*s, i) * (log_tol(*a, 0.02, 2.0) * dtol));
        }
    }
    let coords: Vec<V> = if c.cart { x.frac.iter().map(|f| x.lat * f).collect() } else { x.frac.clone() };
    let s = must("building the structure", || Structure::new(x.lat, x.sp.clone(), coords.clone(), c.cart))?;
    let f = FUNCS[c.func as usize];
    let want = rust(c.func, &s, dtol, atol, ntol);
    let lat: Vec<f64> = (0..3).flat_map(|j| (0..3).map(move |i| (i, j))).map(|ij| x.lat[ij]).collect();
    let co: Vec<[f64; 3]> = coords.iter().map(|v| [v.x, v.y, v.z]).collect();
    let args = if c.func == 1 { json!([lat, x.sp, co, c.cart, ntol]) } else { json!([lat, x.sp, co, c.cart, dtol, atol]) };
    let got = python(f, c.tuples, args)?;
    cx.label(format!("{}: {}", f, if want.is_ok() { "result" } else { "refused" }));
    match (want, got) {
        (Ok(w), Ok(v)) => {
            cx.nontrivial = true;
            // would other tolerances give another answer?
            let other = if c.func == 1 {
                rust(c.func, &s, dtol, atol, 1e-5)
            } else {
                let d = Reducer::default();
                rust(c.func, &s, d.dtol, atol, ntol).and_then(|o| if same_out(&w, &o) { rust(c.func, &s, dtol, d.atol, ntol) } else { Ok(o) })
            };
            if !matches!(&other, Ok(o) if same_out(&w, o)) {
                cx.label(format!("{}: depends on the tolerances", f));
            }
            match parse(c.func, &v) {
                None => Err(format!("{}: unexpected form of the result: {}", f, v).into()),
                Some(g) if same_out(&w, &g) => Ok(()),
                Some(g) => Err(format!("{}: Python returns {:?}, the library {:?}", f, g, w).into()),
            }
        }
        (Ok(_), Err(e)) => Err(format!("{}: Python raises '{}', the library returns a result", f, e).into()),
        (Err(_), Err(_)) => Ok(()),
        (Err(e), Ok(v)) => Err(format!("{}: the library refuses ({}), Python returns {}", f, e, v).into()),
    }
}

pub fn b01() -> Prop<B01> {
    Prop {
        id: "B01",
        rule: "the library function returns a result for the input, and the Python function was called with it in a separate Python process",
        assumptions: &[
            "the extension module is the one built together with the harness from the same sources and with the same compiler options",
            "sites and operations are compared as unordered lists of pairs, numbers with a relative deviation of 1e-9",
        ],
        quick: 40_000,
        thorough: 320_000,
        budget: 2_000_000_000,
        strategy: b01_case,
        check: compare_call,
        fixed: none,
    }
}

// ---------------------------------------------------------------- B02
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum PyStep {
    Call(B01),
    /// function, kind of defect, numbers for it
    Bad(u8, u8, [u8; 3], [f64; 9]),
}
pub fn b02() -> Prop<Vec<PyStep>> {
    Prop {
        id: "B02",
        rule: "2-6 calls in one Python process: well-formed calls as for B01 mixed with calls that have a cell of fewer than nine numbers, linearly dependent cell vectors of whole numbers with cartesian sites, a site of fewer than three numbers, a wrong type, or too few or too many arguments; non-trivial: a well-formed call follows a malformed one",
        assumptions: &["as for B01"],
        quick: 12_000,
        thorough: 96_000,
        budget: 2_000_000_000,
        strategy: || {
            let bad = (0u8..5, 0u8..12, any::<[u8; 3]>(), prop::array::uniform9(0.5..6.0f64)).prop_map(|(f, k, n, x)| PyStep::Bad(f, k, n, x));
            proptest::collection::vec(prop_oneof![1 => b01_case().prop_map(PyStep::Call), 1 => bad], 2..=6).boxed()
        },
        check: |steps, cx| {
            let mut seen = false;
            for st in steps {
                match st {
                    PyStep::Call(c) => {
                        let mut sub = Ctx::default();
                        compare_call(c, &mut sub)?;
                        cx.nontrivial |= seen && sub.nontrivial;
                    }
                    PyStep::Bad(f, kind, n, x) => {
                        let f = FUNCS[*f as usize % 5];
                        let mut lat: Vec<Value> = x.iter().map(|v| json!(v)).collect();
                        let mut sp = vec![json!("Na"), json!("Cl")];
                        let mut co = vec![json!([0.1, 0.2, 0.3]), json!([0.6, 0.7, 0.8])];
                        let mut cart = json!(n[2] % 2 == 0);
                        let mut tol = vec![json!(0.01), json!(5.0)];
                        if f == "niggli_reduce" {
                            tol.truncate(1);
                        }
                        let at = n[1] as usize;
                        let name = match kind {
                            0 | 1 => {
                                lat.truncate(n[0] as usize % 9);
                                "short cell"
                            }
                            2 | 3 => {
                                let w = |k: usize| x[k].floor();
                                let a = [w(0), w(1), w(2)];
                                let b = [w(3), w(4), w(5)];
                                let (p, q) = ((n[0] % 3) as f64, (n[1] % 3) as f64);
                                let c: Vec<f64> = (0..3).map(|i| p * a[i] + q * b[i]).collect();
                                lat = a.iter().chain(&b).chain(&c).map(|v| json!(v)).collect();
                                cart = json!(true);
                                "dependent cell vectors"
                            }
                            4 | 5 => {
                                co[at % 2] = json!(vec![0.5; n[0] as usize % 3]);
                                "short site"
                            }
                            6 => {
                                lat[at % 9] = json!("1.0");
                                "text in the cell"
                            }
                            7 => {
                                sp[at % 2] = json!(11);
                                "number as species"
                            }
                            8 => {
                                co[at % 2] = json!(null);
                                "no site"
                            }
                            9 => {
                                tol[0] = json!("0.01");
                                "text as tolerance"
                            }
                            10 => {
                                tol.pop();
                                "argument missing"
                            }
                            _ => {
                                tol.push(json!(1.0));
                                "additional argument"
                            }
                        };
                        let mut args = vec![json!(lat), json!(sp), json!(co), cart];
                        args.extend(tol);
                        match python(f, false, json!(args))? {
                            Ok(v) => return Err(format!("{}: {} is accepted and gives {}", f, name, v).into()),
                            Err(e) => {
                                seen = true;
                                cx.label(format!("{}: {}", name, e.split(':').next().unwrap_or("")));
                            }
                        }
                    }
                }
            }
            Ok(())
        },
        fixed: none,
    }
}
