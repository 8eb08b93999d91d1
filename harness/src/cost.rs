//! What parsing costs (C31).

use super::model::*;
use super::sx;
use super::total;
use wavefront_obj::{mtl, obj};

/// Four times the repetitions take about four times the time and the memory: less than
/// six times, and some for what does not depend on them.
fn grows(m: bool, t: &dyn Fn(usize) -> Vec<u8>, n: usize) {
    let n = n * sx::scale();
    let cost = |t: &str| {
        if m {
            sx::cost(|| mtl::parse(t).map(|_| String::new()))
        } else {
            // with its text, if asked for
            sx::cost(|| obj::parse(t).map(|s| if sx::param(3) == 1 { s.to_string() } else { String::new() }))
        }
    };
    let (a, b) = (exact(t(n)), exact(t(4 * n)));
    let (a, b) = (cost(&a), cost(&b));
    sx::check(b.0 <= 6 * a.0 + 20000, "time in proportion to the text");
    sx::check(b.1 <= 6 * a.1 + 4096, "memory in proportion to the text");
}

const OBJ_HEADS: &[&str] = &[
    "",
    "mtllib",
    "v 0 0 0\nvt 0\nvn 0 0 0\n",
    "o a\nv 0 0 0\nvt 0\nvn 0 0 0\ng a\ns 1\nusemtl m\n",
    "g",
    "v 1 2 3\no ",
    "usemtl a",
    "v 0 0 0\nf 1 1 1 ",
    "v 0 0 0\nvt 0\nvn 0 0 0\nl 1/1/1 1/1/1 ",
    "v 0 0 0\np 1",
    "p -1",
    "v 1 2",
];
const MTL_HEADS: &[&str] = &["", "newmtl a\n", "newmtl ", "newmtl a\nKa 1 1 1\nKd 1 1 1\nmap_Kd x\n", "newmtl a\nmap_Ka ", "newmtl a\nillum ", "newmtl a\nKa 1 2 "];
const TAILS: &[&str] = &["", "\n", "\nzz", " 1 1\n"];

/// A head, some bytes many times, a tail.  params: 0 OBJ / 1 MTL, bytes, repetitions
pub fn h_cost_unit() {
    let m = sx::param(0) == 1;
    let h = if m { MTL_HEADS } else { OBJ_HEADS };
    // the last ones make long numbers: with one symbolic digit only
    let cut = if sx::param(1) == 1 { 0 } else if m { 2 } else { 5 };
    let h = h[sx::choose(h.len() as u32 - cut) as usize];
    let e = TAILS[sx::choose(TAILS.len() as u32) as usize];
    let mut u = Vec::new();
    for _ in 0..sx::param(1) {
        u.push(sx::byte_in(1, 126));
    }
    grows(
        m,
        &|n| {
            let mut v = Vec::with_capacity(h.len() + n * u.len() + e.len());
            v.extend_from_slice(h.as_bytes());
            for _ in 0..n {
                v.extend_from_slice(&u);
            }
            v.extend_from_slice(e.as_bytes());
            v
        },
        sx::param(2) as usize,
    );
}

/// `%` the number of the repetition, `~` that from the other end, `@` a symbolic letter,
/// `$` a symbolic digit.
const OBJ_UNITS: &[&str] = &[
    "v 0 % 0\n", "v $ % 0.5 ~\n", "vt %\n", "vt 0 % $\n", "vn 0 0 -%\n", "p 1\n", "l 1 1\n", "l 1/1/1 1/1/1 1/1/1\n", "f 1 1 1\n", "f 1//1 1//1 1//1 1//1\n",
    "v % 0 0\np -1\n", "o n%\n", "o n~\n", "o @\nv 0 0 0\nf -1 -1 -1\n", "o n%\nv 0 0 0\np -1\n", "g a%\n", "g a~ b%\np 1\n", "g @\np 1\n", "g\np 1\n", "s %\n", "s ~\np 1\n", "s off\np 1\n",
    "usemtl m%\n", "usemtl m~\np 1\n", "usemtl @\nf 1 1 1\n", "\n", "\r\n", "# %\n", "  # @\n", "\\ \n", "g a%\ns %\nusemtl m%\nf 1 1 1\n",
    "v 1e% 0 0\n", "v 0.% 0 0\n", "usemtl averyveryverylongname%\n",
];
const MTL_UNITS: &[&str] = &[
    "newmtl m%\n", "newmtl m~\nKa 1 1 1\n", "newmtl @\nKd 0 1 %\n", "Ka % 0 0\n", "Kd 0 % 0\n", "Ks 0 0 0.%\n", "Ke $ $ $\n", "Ns %\n", "d 0.%\n", "Ni 1.%\n", "illum 2\n", "map_Ka a%\n",
    "map_Kd a~\n", "map_Ks @\n", "map_Ke @%\n", "map_Ns n%\n", "map_Bump n%\n", "bump n~\n", "disp d%\n", "decal d%\n", "map_d d%\n", "\n", "\r\n", "# %\n",
    "newmtl m%\nKa 1 1 1\nKd 1 1 1\nKs 1 1 1\nNs 2\nmap_Kd t%.png\n", "newmtl averyveryverylongname%\nmap_Ka t%\nmap_Kd t%\nmap_Ks t%\n",
];
/// Head, what is repeated within a line, tail.
const OBJ_LINES: &[(&str, &str, &str)] = &[
    ("mtllib", " l%", "\n"), ("mtllib", " l~", "\nv 0 0 0\n"), ("mtllib", " @", "\n"), ("", "mtllib l%\n", ""), ("", "mtllib l~ k%\n", "v 1 1 1\n"), ("", "mtllib @\n", ""),
    ("v 0 0 0\nf 1 1", " 1", "\n"), ("v 0 0 0\nl 1", " 1", "\n"), ("v 0 0 0\np", " 1", "\n"), ("v 0 0 0\nv 0 0 0\nf 1 2", " -1 -2", "\n"),
    ("v 0 0 0\nvt 0\nvn 0 0 0\nf 1/1/1 1/1/1", " 1/-1/1", "\np 1\n"), ("v 0 0 0\ng", " a%", "\np 1\n"), ("v 0 0 0\ng", " a~", "\n"),
    ("o ", "@", "\nv 0 0 0\n"), ("v 0 0 0\nusemtl ", "@", "\np 1\n"), ("v 0 0 0\ng ", "@", "\np 1\n"), ("mtllib ", "@", "\n"), ("v 0 0 ", "$", "\n"), ("v 0 0 0.", "$", "\n"),
    ("v 0 0 0\np ", "0", "1\n"), ("v 0 0 0\ns ", "0", "1\n"), ("v 0 0 1e-", "0", "1\n"), ("", "@", "\n"), ("v 0 0 ", "@", "\n"), ("v 0 0 0\np ", "@", "\n"), ("v 0 0 0\ns ", "@", "\n"),
    ("v 0 0 0\n", "p 1\n", "zz 1\n"), ("v 0 0 0\n", "g a%\nf 1 1 1\n", "p 2\n"), ("", "o n%\nv 0 0 0\np -1\n", "v 1 x 1\n"), ("v 0 0 0\np 1", " ", "\n"), ("#", "@", "\nv 0 0 0\n"), ("v 0 0 0 #", "# ", ""),
    ("v 0 0 0\nvt 0\np 1", "/1", "\n"), ("v 0 0 0\np 1", "/", "\n"),
];
const MTL_LINES: &[(&str, &str, &str)] = &[
    ("newmtl ", "@", "\nKa 1 1 1\n"), ("newmtl a\nmap_Kd ", "@", "\n"), ("newmtl a\nNs ", "$", "\n"), ("newmtl a\nNs 0.", "$", "\n"), ("newmtl a\nillum ", "0", "2\n"), ("newmtl a\nKa 1 1 ", "@", "\n"),
    ("newmtl a\n", "@", "\n"), ("newmtl a\nillum ", "@", "\n"), ("", "@", "\n"), ("", "newmtl m%\nKd 1 1 1\n", "zz\n"), ("newmtl a\n", "Ka 1 1 1\n", "Ka x\n"), ("newmtl a\nd 1", " ", "\n"), ("#", "@", "\nnewmtl a\n"),
    ("", "newmtl m%\n", "illum 99\n"), ("newmtl a", " b%", "\n"), ("newmtl a\nmap_Ka b", " b%", "\n"),
];

/// Parts of lines, for runs.
const MORE: &[&str] = &["x", "@", " ", "#", " 1", "\\", "\r", "mtllib l%\n", " w%", "v ", "# c\r"];

fn put(v: &mut Vec<u8>, u: &str, i: usize, n: usize, at: u8, digit: u8) {
    for &b in u.as_bytes() {
        match b {
            b'%' => v.extend_from_slice(i.to_string().as_bytes()),
            b'~' => v.extend_from_slice((n - i).to_string().as_bytes()),
            b'@' => v.push(at),
            b'$' => v.push(digit),
            _ => v.push(b),
        }
    }
}

/// A head, something many times in turn or in runs, a tail.
pub struct Pattern {
    head: &'static str,
    pub units: Vec<&'static str>,
    tail: &'static str,
    runs: bool,
    at: u8,
    digit: u8,
}

impl Pattern {
    /// `k` 0: parts of lines, 1 to 3: statements in turn, from 10: runs of them.
    pub fn some(m: bool, k: u64) -> Pattern {
        let u = if m { MTL_UNITS } else { OBJ_UNITS };
        let (at, digit) = (sx::byte_in(b'a', b'z'), sx::digit());
        if k == 0 {
            let l = if m { MTL_LINES } else { OBJ_LINES };
            let l = l[sx::choose(l.len() as u32) as usize];
            return Pattern { head: l.0, units: vec![l.1], tail: l.2, runs: false, at, digit };
        }
        let mut w = Vec::new();
        let runs = k >= 10;
        for _ in 0..k % 10 {
            let k = sx::choose((u.len() + if runs { MORE.len() } else { 0 }) as u32) as usize;
            w.push(if k < u.len() { u[k] } else { MORE[k - u.len()] });
        }
        Pattern { head: if m { "newmtl a\n" } else { "v 0 0 0\nvt 0\nvn 0 0 0\n" }, units: w, tail: "", runs, at, digit }
    }

    pub fn text(&self, n: usize) -> Vec<u8> {
        let mut v = Vec::new();
        v.extend_from_slice(self.head.as_bytes());
        if self.runs {
            for u in &self.units {
                for i in 0..n {
                    put(&mut v, u, i, n, self.at, self.digit);
                }
            }
        } else {
            for i in 0..n {
                for u in &self.units {
                    put(&mut v, u, i, n, self.at, self.digit);
                }
            }
        }
        v.extend_from_slice(self.tail.as_bytes());
        v
    }
}

/// Statements, many times.  params: 0 OBJ / 1 MTL, statements, repetitions, with
/// the text
pub fn h_cost() {
    let m = sx::param(0) == 1;
    let p = Pattern::some(m, sx::param(1));
    grows(m, &|n| p.text(n), sx::param(2) as usize);
}

/// Statements, many times: no panic.  params: 0, 0 OBJ / 1 MTL, statements, repetitions
pub fn h_repeat() {
    let m = sx::param(1) == 1;
    let p = Pattern::some(m, sx::param(2));
    let t = exact(p.text(sx::param(3) as usize));
    if m {
        total::run_mtl(&t)
    } else {
        total::run_obj(&t)
    }
}

/// A template of a statement, filled, many times.  params: 0 OBJ / 1 MTL, bytes, repetitions
pub fn h_cost_tmpl() {
    let m = sx::param(0) == 1;
    let t = if m { total::MTL } else { total::OBJ };
    let mut u = total::fill(t[sx::choose(t.len() as u32) as usize], sx::param(1) as usize);
    u.push(b'\n');
    grows(m, &|n| u.repeat(n), sx::param(2) as usize);
}
