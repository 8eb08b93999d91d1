//! Longer files.  The order of the statements is that of the `i`th file of a
//! fixed family; names, digits and coordinates in them are symbolic.

use super::bad::{self, expect_line, line_at};
use super::index::lit;
use super::layout::{same_line, same_obj};
use super::lit::FIXED;
use super::model::*;
use super::seq::*;
use super::sx;
use wavefront_obj::obj;

pub struct Rng(u64);

/// A symbolic digit or name, unless the file is to have none (for display).
fn dig() -> u8 {
    if sx::param(0) == NONE { b'7' } else { sx::digit() }
}
fn nam(n: usize) -> Tok {
    if sx::param(0) == NONE { vec![b'k'; n] } else { name(n) }
}
pub const NONE: u64 = 128;

impl Rng {
    pub fn new(k: u64) -> Rng {
        let mut r = Rng(k.wrapping_mul(0x9e3779b97f4a7c15) ^ 0x1234567);
        r.below(2);
        r.below(2);
        r
    }
    pub fn below(&mut self, n: usize) -> usize {
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        ((self.0 >> 33) as usize) % n
    }
    pub fn of<'a>(&mut self, a: &[&'a str]) -> &'a str {
        a[self.below(a.len())]
    }
}

/// Names that recur in a file.
pub struct Pool(Vec<Tok>);

impl Pool {
    pub fn new() -> Pool {
        let long = nam(14);
        let mut twin = long.clone();
        twin[13] = nam(1)[0];
        Pool(vec![nam(1), nam(2), nam(2), tok("default"), long, twin, tok("off"), nam(5)])
    }
    pub fn any(&self, r: &mut Rng) -> Tok {
        self.0[r.below(self.0.len())].clone()
    }
}

pub fn coord(r: &mut Rng) -> Tok {
    match r.below(6) {
        0 => vec![dig()],
        1 => vec![b'-', dig()],
        2 => tok(FIXED[r.below(FIXED.len())].0),
        3 => tok("0"),
        4 => tok(r.of(&["1", "2.5", "-3", "0.25", "1e3", "+7", ".5", "8."])),
        _ => tok(r.of(&["1", "1.0", "0.0", "-0"])),
    }
}

fn index(g: &Gen, r: &mut Rng, form: u8, neg: bool) -> Ix {
    let mut p = [no_num(), no_num(), no_num()];
    for j in 0..3 {
        if j > 0 && (form >> (j - 1)) & 1 == 0 {
            continue;
        }
        let (lo, hi) = (g.first[j], g.last[j]);
        p[j] = match (neg, if sx::param(0) == NONE { 1 } else { r.below(3) }) {
            (false, 0) if hi < 10 => digit_num(lo + 1, hi),
            (true, 0) if hi - lo < 10 => neg_num(1, hi - lo),
            (false, _) => lit((lo + 1 + r.below(hi - lo)) as i64),
            (true, _) => lit(-1 - r.below(hi - lo) as i64),
        };
    }
    Ix { form, p }
}

/// The `k`th file of about `n` statements.
pub fn file(k: u64, n: usize) -> (Vec<Tok>, Gen) {
    file_of(k, n, false)
}

/// The same, on request with negative indices only.
pub fn file_of(k: u64, n: usize, relative: bool) -> (Vec<Tok>, Gen) {
    let mut r = Rng::new(k.wrapping_mul(1000).wrapping_add(n as u64));
    let pool = Pool::new();
    let mut g = Gen::new();
    let mut libs = Vec::new();
    for _ in 0..r.below(4) {
        libs.push(pool.any(&mut r));
    }
    // how often each kind of statement occurs differs between files
    let mut weight = [0usize; 8];
    for w in weight.iter_mut() {
        *w = 1 + r.below(5);
    }
    weight[0] += 1; // v
    weight[6] = 1 + r.below(2); // o
    weight[7] += 3; // elements
    let total: usize = weight.iter().sum();
    for _ in 0..n {
        let mut x = r.below(total);
        let mut kind = 0;
        while x >= weight[kind] {
            x -= weight[kind];
            kind += 1;
        }
        if kind == 7 && g.first[0] == g.last[0] {
            kind = 0;
        }
        match kind {
            0 => {
                let a = (0..3 + r.below(2)).map(|_| coord(&mut r)).collect();
                g.sts.push(St::V(a));
                g.last[0] += 1;
            }
            1 => {
                let a = (0..1 + r.below(3)).map(|_| coord(&mut r)).collect();
                g.sts.push(St::T(a));
                g.last[1] += 1;
            }
            2 => {
                let a = (0..3).map(|_| coord(&mut r)).collect();
                g.sts.push(St::N(a));
                g.last[2] += 1;
            }
            3 => {
                let a = (0..r.below(4)).map(|_| pool.any(&mut r)).collect();
                g.sts.push(St::G(a));
            }
            4 => match r.below(4) {
                0 => g.sts.push(St::S(tok("off"), 0)),
                1 if sx::param(0) != NONE => {
                    let d = digit_num(0, 9);
                    let v = d.val as u64;
                    g.sts.push(St::S(d.text, v));
                }
                2 => g.sts.push(St::S(tok("1"), 1)),
                _ => {
                    let v = r.below(2000);
                    g.sts.push(St::S(v.to_string().into_bytes(), v as u64));
                }
            },
            5 => {
                let t = pool.any(&mut r);
                g.sts.push(St::U(t));
            }
            6 => {
                let t = pool.any(&mut r);
                g.o(t);
            }
            _ => {
                let t = (g.last[1] > g.first[1]) as u8;
                let m = (g.last[2] > g.first[2]) as u8;
                let form = r.below(4) as u8 & (t | 2 * m);
                let kind = r.below(3);
                let form = if kind == 0 { 0 } else { form };
                let neg = r.below(3) == 0 || relative;
                let len = kind + 1 + [0, 0, 1, 2, 5][r.below(5)];
                let a = (0..len).map(|_| index(&g, &mut r, form, neg)).collect();
                g.sts.push(match kind {
                    0 => St::P(a),
                    1 => St::L(a),
                    _ => St::F(a),
                });
            }
        }
    }
    (libs, g)
}

pub fn lines(libs: &[Tok], g: &Gen) -> Vec<Vec<Tok>> {
    let mut l = Vec::new();
    // the names of libraries on one line or more
    for c in libs.chunks(2) {
        let mut a = vec![tok("mtllib")];
        a.extend_from_slice(c);
        l.push(a);
    }
    for s in &g.sts {
        l.push(tokens(s));
    }
    l
}

/// Lines in some layout.
pub fn layout(l: &[Vec<Tok>], k: u64, v: &mut Vec<u8>) {
    let mut r = Rng::new(k + 77);
    let s = |v: &mut Vec<u8>, t: &str| v.extend_from_slice(t.as_bytes());
    for a in l {
        s(v, r.of(&["", "", "", " ", "\t", "\n", "# c\n", "\r\n", "#\r", "  \\\t", " # v 1 2 3\n\n", "\n\n\n"]));
        for (i, t) in a.iter().enumerate() {
            if i > 0 {
                s(v, r.of(&[" ", " ", " ", "  ", "\t", "\\", " \\ ", "\t \t", "           "]));
            }
            v.extend_from_slice(t);
        }
        s(v, r.of(&["", "", "", " ", "\t\t", "#", " # g a", "#o b", "\\"]));
        s(v, r.of(&["\n", "\n", "\r\n", "\r"]));
    }
}

pub fn text(libs: &[Tok], g: &Gen, k: u64, laid: bool) -> Vec<u8> {
    let mut v = Vec::new();
    let l = lines(libs, g);
    if laid {
        layout(&l, k, &mut v);
    } else {
        for a in &l {
            put_line(&mut v, a, b"\n");
        }
    }
    v
}

/// params: properties, statements, layout, number of files
pub fn h_mix() {
    let k = sx::choose(sx::param(3) as u32) as u64;
    let (libs, g) = file(k, sx::param(1) as usize);
    let t = exact(text(&libs, &g, k, sx::param(2) == 1));
    let r = obj::parse(&t);
    let m = interpret(&g.sts);
    compare(&r, &m, &libs, sx::param(0));
    if sx::param(0) == NONE {
        if let Ok(r) = &r {
            super::api::ck_shown(r);
        }
    }
}

/// The same file in two layouts.  params: statements, number of files
pub fn h_mix_layout() {
    let k = sx::choose(sx::param(1) as u32) as u64;
    let (libs, g) = file(k, sx::param(0) as usize);
    let a = exact(text(&libs, &g, k, false));
    let b = exact(text(&libs, &g, k, true));
    same_obj(&obj::parse(&a), &obj::parse(&b), false);
}

/// Faults that are such in every file.
pub const WRONG: &[&str] = &[
    "v 1 x 3", "v", "v 1", "v 1 2", "vt", "vt x", "vn 1 2", "vn 1 2 x", "p x", "p", "p 1 1 0", "l 1", "l", "l 1 x", "l 1 1 1/1",
    "f", "f 1 1", "f 1 1 1 x", "f 1 1 1 1/1/1/1", "f 1 1//1 1", "s", "s x", "usemtl", "o", "o a b", "foo", "vp 1 2", "1",
    "v 1 2 3 4 5", "vn 1 2 3 4", "s 1 2", "usemtl a b", "f 1 1 1 -1000", "l 1 1 1000", "p 99999", "p 0", "deg 3", "call x.obj",
    "shadow_obj x", "lod 1", "mg 1 2", "end", "vt 0 0 0 0",
];

/// A fault in a longer file: rejected, on its line.
/// params: statements, number of files, faults per file, what: 0 rejection, 1 line, 2 kind
pub fn h_mix_fault() {
    let k = sx::choose(sx::param(1) as u32) as u64;
    let (libs, g) = file(k, sx::param(0) as usize);
    let mut r = Rng::new(k + 5);
    let l = lines(&libs, &g);
    let at = libs.len() + r.below(l.len() - libs.len() + 1);
    let at = if at > l.len() { l.len() } else { at };
    let mut v = Vec::new();
    layout(&l[..at], k, &mut v);
    let pos = v.len();
    let n = sx::param(2) as usize;
    let (w, kind) = super::ctx::fault_of(k as usize, n);
    super::ctx::put_fault(&mut v, w);
    v.extend_from_slice(r.of(&["\n", " \r\n", "# c\n", "\r", " # x\n\n\n"]).as_bytes());
    layout(&l[at..], k + 1, &mut v);
    if sx::param(3) == 1 {
        expect_line(v, pos);
    } else if sx::param(3) == 2 {
        super::ctx::kind_in_file(v, w, kind);
    } else {
        bad::must_fail(v, "a file with a malformed statement is rejected");
    }
    let _ = line_at;
}

/// Files parsed one after the other: each gives what it says.
/// params: statements, number of pairs, repetitions
pub fn h_mix_pure() {
    let k = sx::choose(sx::param(1) as u32) as u64;
    let n = sx::param(0) as usize;
    // the second file has the structure of the first, or another one
    let (l1, g1) = file(k, n);
    let (l2, g2) = file(if sx::flip() { k } else { k + 1 }, n);
    let a = exact(text(&l1, &g1, k, false));
    let b = exact(text(&l2, &g2, k, false));
    let all = P03 | P05 | P07 | P08 | P09 | P10;
    let m = interpret(&g1.sts);
    let x = obj::parse(&a);
    compare(&x, &m, &l1, all);
    for _ in 0..sx::param(2) {
        let y = obj::parse(&b);
        compare(&y, &interpret(&g2.sts), &l2, all);
    }
    let y = obj::parse(&a);
    compare(&y, &m, &l1, all);
    same_obj(&x, &y, false);
    same_line(&x, &y);
}
