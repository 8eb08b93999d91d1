//! Parsers that exist, or run, at the same time (C30).

use super::layout::{eq_material, eq_sets};
use super::mat;
use super::mix;
use super::model::*;
use super::sx;
use super::total;
use wavefront_obj::{
    mtl::{self, MaterialSet},
    obj::{self, ObjectSet},
};

enum Ret {
    O(Result<ObjectSet, obj::ParseError>),
    M(Result<MaterialSet, mtl::ParseError>),
}

fn run(m: bool, t: &str) -> Ret {
    if m {
        Ret::M(mtl::parse(t))
    } else {
        Ret::O(obj::parse(t))
    }
}

fn same(a: &Ret, b: &Ret) {
    let e = match (a, b) {
        (Ret::O(Ok(x)), Ret::O(Ok(y))) => eq_sets(x, y),
        (Ret::O(Err(x)), Ret::O(Err(y))) => {
            (x.kind == y.kind) & (x.line_number == y.line_number) & beq(x.message.as_bytes(), y.message.as_bytes())
        }
        (Ret::M(Ok(x)), Ret::M(Ok(y))) => {
            let mut r = x.materials.len() == y.materials.len();
            for (p, q) in x.materials.iter().zip(&y.materials) {
                r &= eq_material(p, q);
            }
            r
        }
        (Ret::M(Err(x)), Ret::M(Err(y))) => beq(format!("{:?}", x).as_bytes(), format!("{:?}", y).as_bytes()),
        _ => false,
    };
    sx::check(e, "the result is that of the text alone");
}

fn see(a: &Ret) {
    sx::reach(match a {
        Ret::O(Ok(_)) | Ret::M(Ok(_)) => "accepted",
        _ => "rejected",
    });
    sx::observe(match a {
        Ret::O(Ok(x)) => x.objects.len(),
        Ret::M(Ok(x)) => x.materials.len(),
        Ret::O(Err(x)) => 100 + x.line_number,
        Ret::M(Err(_)) => 99,
    } as u64);
}

const OBJ: &[&str] = &[
    "",
    "v 1 2 3\nvt 1\nvn 0 0 1\ng a b\ns 2\nusemtl m\nf 1/1/1 1/1/1 1/1/1 1/1/1\no x\nv 4 5 6\ng c\nl 2 -1\np 2\n",
    "mtllib q r\n\n\n\n\n# c\nv 0 0 0\nv 1 1 1\nv 2 2 2\no y\nv 0 0 0\np 9\n",
    "\n\nv 0 0 z\n",
];
const MTL: &[&str] = &[
    "",
    "newmtl m\nKa 1 2 3\nd 0.5\nillum 0\nNs 7\nNi 2\nmap_Kd q\nbump z\nnewmtl n\nKe 1 1 1\n",
    "# c\n\n\n\nnewmtl m\nmap_Ka x\nKd 1 y 1\n",
    "\n\nnewmtl k\nillum 7\n",
];

/// Files that use everything, with other names, numbers and orders for each `v`.
fn rich_obj(v: usize, fault: usize) -> Vec<u8> {
    let mut t = String::new();
    let n = |k: usize, l: usize| {
        let mut s = format!("{}n{}", (b'a' + (v % 26) as u8) as char, k * 7 + v);
        while s.len() < l {
            s.push((b'a' + ((s.len() * (v + 3) + k) % 26) as u8) as char);
        }
        s
    };
    t += &format!("# file {}\nmtllib {} {}.mtl\r\nmtllib {}\n\n", v, n(1, 20), n(2, 3), n(3, 70));
    for o in 0..3 {
        t += &format!("o {}\n", n(10 + o, [40, 3, 300][o]));
        let c = 12 + v % 3;
        for i in 0..c {
            t += &format!("v {}.{} {}{}.5e{} +{} {}\n", i * 3 + v, i, ["-", ""][(i + v) % 2], i + v, i % 5, v * i, 17 * i + v);
            t += &[format!("vt .{}", i + v), format!("vt {} {}", v, i), format!("vt 1 {} 0.1234567890123456{}", i, v)][(i + v) % 3];
            t += &format!("\nvn 0 {} -{}.75 # normal\n", i * v, i);
        }
        for sides in 3..=c {
            if (sides + v) % 4 == 0 {
                t += &format!("g {} {}\n", n(sides, 18), n(sides + 1, 4));
            }
            if (sides + v) % 3 == 0 {
                t += &["s off\n".to_owned(), format!("s {}\n", 3 + v + sides), "s 1\n".to_owned()][(sides + o) % 3];
            }
            if (sides + 2 * v) % 5 == 0 {
                t += &format!("usemtl {}\n", n(sides, 33));
            }
            t += if sides % 2 == 0 { "f" } else { "l" };
            for i in 0..sides {
                let (j, k) = ((i * 5 + v) % c + 1, (i + v * 7) % c + 1);
                let (j, k) = if o == 0 { (j as isize, k as isize) } else { (-(j as isize), -(k as isize)) };
                t += &[format!(" {}", j), format!(" {}/{}", j, k), format!(" {}//{}", j, k), format!(" {}/{}/{}", j, k, j)][(sides + v) % 4];
            }
            t += "\n";
        }
        t += &format!("p -1 -{}\n\n", 2 + v % 3);
    }
    t += &match fault {
        0 => "".to_owned(),
        1 => format!("v 1 2 z{}\n", v),
        2 => format!("p {}000000\n", v + 1),
        3 => format!("f -1 -2 {}\n", n(4, 40)),
        4 => format!("{} 1\n", n(6, 5)),
        5 => "f -1 -2\n".to_owned(),
        6 => "l -1 -1/-1\n".to_owned(),
        7 => format!("s {}\n", n(4, 9)),
        _ => "usemtl\n".to_owned(),
    };
    t.into_bytes()
}

fn rich_mtl(v: usize, fault: usize) -> Vec<u8> {
    let mut t = format!("# file {}\n\n", v);
    let n = |k: usize, l: usize| {
        let mut s = format!("{}m{}", (b'a' + (v % 26) as u8) as char, k * 7 + v);
        while s.len() < l {
            s.push((b'a' + ((s.len() * (v + 3) + k) % 26) as u8) as char);
        }
        s
    };
    for m in 0..4 {
        t += &format!("newmtl {}\n", n(m, [3, 20, 70, 300][m]));
        let w = [
            format!("Ka {} .{} +{}", v, m, v + m),
            format!("Kd 0.{} 1e-{} {}", v, m, m),
            format!("Ks {} 1 -0.{}", m, v),
            format!("Ke 0.1234567890123456{} 2 {}", m, v),
            format!("Ns {}.{}", v, m),
            format!("d 0.{}", v + m),
            format!("Ni 1.{}", v + 2 * m),
            format!("illum {}", (v + m) % 3),
            format!("map_Ka {}", n(m + 10, 18)),
            format!("map_Kd {}.png", n(m + 11, 3)),
            format!("map_Ks {}", n(m + 12, 33)),
            format!("map_Ke {}", n(m + 13, 6)),
            format!("map_Ns {}", n(m + 14, 6)),
            format!("map_d {}", n(m + 15, 6)),
            format!("map_Bump {}", n(m + 16, 6)),
            format!("disp {}", n(m + 17, 65)),
            format!("decal {}", n(m + 18, 6)),
            format!("bump {}", n(m + 19, 6)),
        ];
        for i in 0..w.len() {
            if (i + v + m) % 4 != 0 {
                t += &w[(i * 5 + v) % w.len()];
                t += ["\n", "\r\n", " # c\n"][(i + m) % 3];
            }
        }
    }
    t += &match fault {
        0 => "".to_owned(),
        1 => format!("Kd 1 {} 2\n", n(9, 30)),
        2 => format!("illum {}\n", 11 + v),
        3 => format!("{} 1\n", n(6, 5)),
        4 => "map_Kd\n".to_owned(),
        _ => "newmtl".to_owned(),
    };
    t.into_bytes()
}

fn mixed(m: bool, k: u64) -> Vec<u8> {
    if m {
        mat::lay(&mat::mix(k, 12).0, k, true)
    } else {
        let (l, g) = mix::file(k, 12);
        let mut v = Vec::new();
        mix::layout(&mix::lines(&l, &g), k, &mut v);
        v
    }
}

/// Two texts.  params: 0 OBJ / 1 MTL / 2 one of each, bytes (0: mixed files, 9: files that
/// use everything), how many files
fn texts() -> (bool, String, bool, String) {
    let f = sx::param(0);
    let n = sx::param(1) as usize;
    let (ma, mb) = (f == 1, f != 0);
    if n == 9 {
        let mut one = |m: bool, v: usize| {
            if m {
                rich_mtl(v, sx::choose(6) as usize)
            } else {
                rich_obj(v, sx::choose(9) as usize)
            }
        };
        let (a, b) = (one(ma, 1), one(mb, 2));
        return (ma, exact(a), mb, exact(b));
    }
    if n == 0 {
        let k = sx::choose(sx::param(2) as u32) as u64;
        return (ma, exact(mixed(ma, k)), mb, exact(mixed(mb, k + 1)));
    }
    let t = if ma { total::MTL } else { total::OBJ };
    let a = total::fill(t[sx::choose(t.len() as u32) as usize], n);
    let b = if mb { MTL } else { OBJ };
    let b = tok(b[sx::choose(b.len() as u32) as usize]);
    (ma, exact(a), mb, exact(b))
}

/// Both are parsed by threads that run at the same time.  param 3: how many more threads
pub fn h_beside() {
    let (ma, a, mb, b) = texts();
    let (x, y) = (run(ma, &a), run(mb, &b));
    see(&x);
    see(&y);
    let n = sx::beside(|| same(&x, &run(ma, &a)), || same(&y, &run(mb, &b)), sx::param(3));
    // what the parsers share, if anything
    if n > 0 {
        sx::reach("shared");
    }
    same(&x, &run(ma, &a));
}

/// The first two parses of a process run at the same time.  params: 0 OBJ / 1 MTL / 2 one
/// of each, statements, how many files, how many more threads
pub fn h_beside_first() {
    let f = sx::param(0);
    let (ma, mb) = (f == 1, f != 0);
    let k = sx::choose(sx::param(2) as u32) as u64;
    let n = sx::param(1) as usize;
    let one = |m: bool, k: u64| {
        if m {
            let (l, m) = mat::mix(k, n);
            (exact(mat::lay(&l, k, false)), None, Some(m))
        } else {
            let (l, g) = mix::file(k, n);
            let t = exact(mix::text(&l, &g, k, false));
            (t, Some((l, interpret(&g.sts))), None)
        }
    };
    let (a, b) = (one(ma, k), one(mb, k + 1));
    let go = |t: &(String, Option<(Vec<Tok>, Result<Vec<MObj>, usize>)>, Option<Vec<mat::M>>)| match (&t.1, &t.2) {
        (Some((l, m)), _) => compare(&obj::parse(&t.0), m, l, 127),
        (_, Some(m)) => mat::expect(&t.0, m),
        _ => (),
    };
    sx::beside(|| go(&a), || go(&b), sx::param(3));
    go(&a);
}

struct Nested<'a>(&'a str, &'a dyn Fn());

impl AsRef<str> for Nested<'_> {
    fn as_ref(&self) -> &str {
        (self.1)();
        self.0
    }
}

/// Parser objects that exist at the same time.
pub fn h_two() {
    let (ma, a, mb, b) = texts();
    let (x, y) = (run(ma, &a), run(mb, &b));
    see(&x);
    see(&y);
    // as many parser objects, or parses under way
    let many = sx::param(3);
    if many > 0 {
        crowd(ma, &a, &x, many);
        return;
    }
    let how = sx::choose(5);
    if how == 4 {
        let f = || same(&y, &run(mb, &b));
        let n = Nested(&a, &f);
        same(&x, &if ma { Ret::M(mtl::parse(n)) } else { Ret::O(obj::parse(n)) });
        return;
    }
    macro_rules! go {
        ($p:expr, $run:ident, $c:path, $q:expr, $qrun:ident, $d:path) => {{
            let mut p = $p;
            let mut q = $q;
            match how {
                0 => {
                    same(&x, &$c(p.$run()));
                    same(&y, &$d(q.$qrun()));
                }
                1 => {
                    same(&y, &$d(q.$qrun()));
                    same(&x, &$c(p.$run()));
                }
                2 => {
                    same(&y, &run(mb, &b));
                    same(&x, &$c(p.$run()));
                    same(&y, &$d(q.$qrun()));
                }
                _ => {
                    drop(q);
                    same(&x, &$c(p.$run()));
                }
            }
        }};
    }
    match (ma, mb) {
        (false, false) => go!(obj::Parser::new(&a), parse_objset, Ret::O, obj::Parser::new(&b), parse_objset, Ret::O),
        (true, true) => go!(mtl::Parser::new(&a), parse_mtlset, Ret::M, mtl::Parser::new(&b), parse_mtlset, Ret::M),
        (false, true) => go!(obj::Parser::new(&a), parse_objset, Ret::O, mtl::Parser::new(&b), parse_mtlset, Ret::M),
        (true, false) => go!(mtl::Parser::new(&a), parse_mtlset, Ret::M, obj::Parser::new(&b), parse_objset, Ret::O),
    }
}

fn crowd(m: bool, t: &str, x: &Ret, n: u64) {
    fn deep(m: bool, t: &str, x: &Ret, n: u64) {
        let f = || {
            if n > 0 {
                deep(m, t, x, n - 1)
            }
        };
        let s = Nested(t, &f);
        same(x, &if m { Ret::M(mtl::parse(s)) } else { Ret::O(obj::parse(s)) });
    }
    if sx::choose(2) == 0 {
        deep(m, t, x, n);
    } else if m {
        let mut p: Vec<_> = (0..n).map(|_| mtl::Parser::new(t)).collect();
        for p in p.iter_mut().rev() {
            same(x, &Ret::M(p.parse_mtlset()));
        }
    } else {
        let mut p: Vec<_> = (0..n).map(|_| obj::Parser::new(t)).collect();
        for p in p.iter_mut().rev() {
            same(x, &Ret::O(p.parse_objset()));
        }
    }
}
