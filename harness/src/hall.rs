//! Independent source of truth for the 230 space-group types: the Hall symbols of the ITA default
//! settings (unique axis b / cell choice 1, origin choice 1, hexagonal axes), expanded to exact
//! operations. Nothing in here reads the tables of the code under test.

pub type IM = [[i32; 3]; 3];

/// Symmetry operation in the conventional basis; translation in units of 1/24.
#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
pub struct Op {
    pub r: IM,
    pub t: [i32; 3],
}

pub const DEN: i32 = 24;

pub const HALL: [&str; 230] = [
    "P 1", "-P 1", "P 2y", "P 2yb", "C 2y", "P -2y", "P -2yc", "C -2y", "C -2yc", "-P 2y",
    "-P 2yb", "-C 2y", "-P 2yc", "-P 2ybc", "-C 2yc", "P 2 2", "P 2c 2", "P 2 2ab", "P 2ac 2ab", "C 2c 2",
    "C 2 2", "F 2 2", "I 2 2", "I 2b 2c", "P 2 -2", "P 2c -2", "P 2 -2c", "P 2 -2a", "P 2c -2ac", "P 2 -2bc",
    "P 2ac -2", "P 2 -2ab", "P 2c -2n", "P 2 -2n", "C 2 -2", "C 2c -2", "C 2 -2c", "A 2 -2", "A 2 -2c", "A 2 -2a",
    "A 2 -2ac", "F 2 -2", "F 2 -2d", "I 2 -2", "I 2 -2c", "I 2 -2a", "-P 2 2", "P 2 2 -1n", "-P 2 2c", "P 2 2 -1ab",
    "-P 2a 2a", "-P 2a 2bc", "-P 2ac 2", "-P 2a 2ac", "-P 2 2ab", "-P 2ab 2ac", "-P 2c 2b", "-P 2 2n", "P 2 2ab -1ab", "-P 2n 2ab",
    "-P 2ac 2ab", "-P 2ac 2n", "-C 2c 2", "-C 2bc 2", "-C 2 2", "-C 2 2c", "-C 2b 2", "C 2 2 -1bc", "-F 2 2", "F 2 2 -1d",
    "-I 2 2", "-I 2 2c", "-I 2b 2c", "-I 2b 2", "P 4", "P 4w", "P 4c", "P 4cw", "I 4", "I 4bw",
    "P -4", "I -4", "-P 4", "-P 4c", "P 4ab -1ab", "P 4n -1n", "-I 4", "I 4bw -1bw", "P 4 2", "P 4ab 2ab",
    "P 4w 2c", "P 4abw 2nw", "P 4c 2", "P 4n 2n", "P 4cw 2c", "P 4nw 2abw", "I 4 2", "I 4bw 2bw", "P 4 -2", "P 4 -2ab",
    "P 4c -2c", "P 4n -2n", "P 4 -2c", "P 4 -2n", "P 4c -2", "P 4c -2ab", "I 4 -2", "I 4 -2c", "I 4bw -2", "I 4bw -2c",
    "P -4 2", "P -4 2c", "P -4 2ab", "P -4 2n", "P -4 -2", "P -4 -2c", "P -4 -2ab", "P -4 -2n", "I -4 -2", "I -4 -2c",
    "I -4 2", "I -4 2bw", "-P 4 2", "-P 4 2c", "P 4 2 -1ab", "P 4 2 -1n", "-P 4 2ab", "-P 4 2n", "P 4ab 2ab -1ab", "P 4ab 2n -1ab",
    "-P 4c 2", "-P 4c 2c", "P 4n 2c -1n", "P 4n 2 -1n", "-P 4c 2ab", "-P 4n 2n", "P 4n 2n -1n", "P 4n 2ab -1n", "-I 4 2", "-I 4 2c",
    "I 4bw 2bw -1bw", "I 4bw 2aw -1bw", "P 3", "P 31", "P 32", "R 3", "-P 3", "-R 3", "P 3 2", "P 3 2\"",
    "P 31 2c (0 0 1)", "P 31 2\"", "P 32 2c (0 0 -1)", "P 32 2\"", "R 3 2\"", "P 3 -2\"", "P 3 -2", "P 3 -2\"c", "P 3 -2c", "R 3 -2\"",
    "R 3 -2\"c", "-P 3 2", "-P 3 2c", "-P 3 2\"", "-P 3 2\"c", "-R 3 2\"", "-R 3 2\"c", "P 6", "P 61", "P 65",
    "P 62", "P 64", "P 6c", "P -6", "-P 6", "-P 6c", "P 6 2", "P 61 2 (0 0 -1)", "P 65 2 (0 0 1)", "P 62 2c (0 0 1)",
    "P 64 2c (0 0 -1)", "P 6c 2c", "P 6 -2", "P 6 -2c", "P 6c -2", "P 6c -2c", "P -6 2", "P -6c 2", "P -6 -2", "P -6c -2c",
    "-P 6 2", "-P 6 2c", "-P 6c 2", "-P 6c 2c", "P 2 2 3", "F 2 2 3", "I 2 2 3", "P 2ac 2ab 3", "I 2b 2c 3", "-P 2 2 3",
    "P 2 2 3 -1n", "-F 2 2 3", "F 2 2 3 -1d", "-I 2 2 3", "-P 2ac 2ab 3", "-I 2b 2c 3", "P 4 2 3", "P 4n 2 3", "F 4 2 3", "F 4d 2 3",
    "I 4 2 3", "P 4acd 2ab 3", "P 4bd 2ab 3", "I 4bd 2c 3", "P -4 2 3", "F -4 2 3", "I -4 2 3", "P -4n 2 3", "F -4a 2 3", "I -4bd 2c 3",
    "-P 4 2 3", "P 4 2 3 -1n", "-P 4n 2 3", "P 4n 2 3 -1n", "-F 4 2 3", "-F 4a 2 3", "F 4d 2 3 -1d", "F 4d 2 3 -1ad", "-I 4 2 3", "-I 4bd 2c 3",
];

/// The ITA full/short international symbols, in the spelling the code under test documents by example
/// ("_" marks a screw subscript), used only for the leading letter = centring cross-check.
pub fn centring_letter(num: usize) -> char {
    HALL[num - 1].trim_start_matches('-').chars().next().unwrap()
}

pub const ID: IM = [[1, 0, 0], [0, 1, 0], [0, 0, 1]];

pub fn imul(a: &IM, b: &IM) -> IM {
    let mut c = [[0; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            for k in 0..3 {
                c[i][j] += a[i][k] * b[k][j];
            }
        }
    }
    c
}

pub fn imulv(a: &IM, v: &[i32; 3]) -> [i32; 3] {
    let mut o = [0; 3];
    for i in 0..3 {
        for k in 0..3 {
            o[i] += a[i][k] * v[k];
        }
    }
    o
}

pub fn idet(m: &IM) -> i32 {
    m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1])
        - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
        + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0])
}

impl Op {
    /// Composition "self after rhs", translations reduced modulo 1.
    pub fn mul(&self, rhs: &Op) -> Op {
        let r = imul(&self.r, &rhs.r);
        let rt = imulv(&self.r, &rhs.t);
        let mut t = [0; 3];
        for i in 0..3 {
            t[i] = (rt[i] + self.t[i]).rem_euclid(DEN);
        }
        Op { r, t }
    }
}

fn neg(m: &IM) -> IM {
    let mut o = *m;
    for r in o.iter_mut() {
        for x in r.iter_mut() {
            *x = -*x;
        }
    }
    o
}

/// Centring translations of a lattice letter, in 1/24.
pub fn centring(letter: char) -> Vec<[i32; 3]> {
    match letter {
        'P' => vec![[0, 0, 0]],
        'A' => vec![[0, 0, 0], [0, 12, 12]],
        'B' => vec![[0, 0, 0], [12, 0, 12]],
        'C' => vec![[0, 0, 0], [12, 12, 0]],
        'I' => vec![[0, 0, 0], [12, 12, 12]],
        'F' => vec![[0, 0, 0], [0, 12, 12], [12, 0, 12], [12, 12, 0]],
        'R' => vec![[0, 0, 0], [16, 8, 8], [8, 16, 16]],
        _ => panic!("letter"),
    }
}

/// Expand a Hall symbol to all operations of the conventional cell (centring included).
pub fn expand(hall: &str) -> Vec<Op> {
    let mut s = hall;
    let mut shift = [0i32; 3];
    if let Some(p) = hall.find('(') {
        let nums: Vec<i32> = hall[p + 1..hall.len() - 1]
            .split_whitespace()
            .map(|x| x.parse().unwrap())
            .collect();
        shift = [nums[0] * 2, nums[1] * 2, nums[2] * 2];
        s = hall[..p].trim();
    }
    let mut toks = s.split_whitespace();
    let lat = toks.next().unwrap();
    let centro = lat.starts_with('-');
    let letter = lat.trim_start_matches('-').chars().next().unwrap();
    let mut gens: Vec<Op> = vec![];
    for t in centring(letter) {
        gens.push(Op { r: ID, t });
    }
    if centro {
        gens.push(Op { r: neg(&ID), t: [0; 3] });
    }
    let mut prev_n = 0;
    for (idx, tok) in toks.enumerate() {
        let mut chars: Vec<char> = tok.chars().collect();
        let mut improper = false;
        if chars[0] == '-' {
            improper = true;
            chars.remove(0);
        }
        let n = chars[0].to_digit(10).unwrap() as i32;
        let mut axis: Option<char> = None;
        let mut t = [0i32; 3];
        let mut screw = 0;
        for &c in &chars[1..] {
            match c {
                '1'..='5' => screw = c.to_digit(10).unwrap() as i32,
                'x' | 'y' | 'z' | '\'' | '"' | '*' => axis = Some(c),
                'a' => t[0] += 12,
                'b' => t[1] += 12,
                'c' => t[2] += 12,
                'n' => {
                    for v in t.iter_mut() {
                        *v += 12
                    }
                }
                'u' => t[0] += 6,
                'v' => t[1] += 6,
                'w' => t[2] += 6,
                'd' => {
                    for v in t.iter_mut() {
                        *v += 6
                    }
                }
                _ => panic!("hall char {}", c),
            }
        }
        let ax = axis.unwrap_or(match (idx, n) {
            (_, 1) => 'z',
            (0, _) => 'z',
            (1, 2) => {
                if prev_n == 2 || prev_n == 4 {
                    'x'
                } else {
                    '\''
                }
            }
            (2, 3) => '*',
            _ => panic!("hall axis {}", hall),
        });
        let mut r: IM = match (n, ax) {
            (1, _) => ID,
            (2, 'z') => [[-1, 0, 0], [0, -1, 0], [0, 0, 1]],
            (2, 'y') => [[-1, 0, 0], [0, 1, 0], [0, 0, -1]],
            (2, 'x') => [[1, 0, 0], [0, -1, 0], [0, 0, -1]],
            (2, '\'') => [[0, -1, 0], [-1, 0, 0], [0, 0, -1]],
            (2, '"') => [[0, 1, 0], [1, 0, 0], [0, 0, -1]],
            (3, 'z') => [[0, -1, 0], [1, -1, 0], [0, 0, 1]],
            (3, '*') => [[0, 0, 1], [1, 0, 0], [0, 1, 0]],
            (4, 'z') => [[0, -1, 0], [1, 0, 0], [0, 0, 1]],
            (6, 'z') => [[1, -1, 0], [1, 0, 0], [0, 0, 1]],
            _ => panic!("hall op {} {}", n, ax),
        };
        if improper {
            r = neg(&r);
        }
        if screw != 0 {
            t[2] += screw * DEN / n;
        }
        gens.push(Op { r, t });
        prev_n = n;
    }
    // Change of origin: t' = t + v - R v
    for g in gens.iter_mut() {
        let rv = imulv(&g.r, &shift);
        for i in 0..3 {
            g.t[i] = (g.t[i] + shift[i] - rv[i]).rem_euclid(DEN);
        }
    }
    // Closure
    let mut set: std::collections::BTreeSet<Op> = gens.iter().copied().collect();
    loop {
        let cur: Vec<Op> = set.iter().copied().collect();
        let before = set.len();
        for a in &cur {
            for g in &gens {
                set.insert(a.mul(g));
            }
        }
        assert!(set.len() <= 192, "closure blew up for {}", hall);
        if set.len() == before {
            break;
        }
    }
    set.into_iter().collect()
}

pub fn ops(num: usize) -> Vec<Op> {
    expand(HALL[num - 1])
}

/// One representative per rotation (any one), i.e. the coset representatives modulo centring.
pub fn coset_reps(all: &[Op]) -> Vec<Op> {
    let mut seen = std::collections::BTreeMap::new();
    for o in all {
        seen.entry(o.r).or_insert(*o);
    }
    seen.into_values().collect()
}

impl Op {
    pub fn rf(&self) -> nalgebra::Matrix3<f64> {
        nalgebra::Matrix3::from_fn(|i, j| self.r[i][j] as f64)
    }
    pub fn ri(&self) -> nalgebra::Matrix3<i64> {
        nalgebra::Matrix3::from_fn(|i, j| self.r[i][j] as i64)
    }
    pub fn tf(&self) -> nalgebra::Vector3<f64> {
        nalgebra::Vector3::from_fn(|i, _| self.t[i] as f64 / DEN as f64)
    }
    pub fn from_im(r: &nalgebra::Matrix3<i64>, t: [i32; 3]) -> Op {
        let mut m = [[0; 3]; 3];
        for i in 0..3 {
            for j in 0..3 {
                m[i][j] = r[(i, j)] as i32;
            }
        }
        Op { r: m, t: [t[0].rem_euclid(DEN), t[1].rem_euclid(DEN), t[2].rem_euclid(DEN)] }
    }
    /// The operation in the basis `old * p`, where the inverse of `p` is the integer matrix `pinv`.
    pub fn rebase(&self, pinv: &nalgebra::Matrix3<i64>, p: &nalgebra::Matrix3<f64>) -> Op {
        let r = (pinv.map(|x| x as f64) * self.rf() * p).map(|x| x.round() as i64);
        let t = pinv * nalgebra::Vector3::new(self.t[0] as i64, self.t[1] as i64, self.t[2] as i64);
        Op::from_im(&r, [t[0] as i32, t[1] as i32, t[2] as i32])
    }
}

/// Cached operations of all 230 groups (conventional basis, centring included).
pub fn table() -> &'static Vec<Vec<Op>> {
    static T: std::sync::OnceLock<Vec<Vec<Op>>> = std::sync::OnceLock::new();
    T.get_or_init(|| (1..=230).map(ops).collect())
}

/// Cached operations in the standard primitive basis, one per rotation.
pub fn prim_table() -> &'static Vec<Vec<Op>> {
    static T: std::sync::OnceLock<Vec<Vec<Op>>> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        (1..=230usize)
            .map(|n| {
                let p = crate::gen::prim_of(centring_letter(n));
                let pi = crate::geom::round_im(&crate::geom::inv(&p));
                let mut v: Vec<Op> = table()[n - 1].iter().map(|o| o.rebase(&pi, &p)).collect();
                v.sort();
                v.dedup();
                v
            })
            .collect()
    })
}
