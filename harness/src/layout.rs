//! Layout does not matter (C11, C18); parsing depends on the text alone (C23).

use super::bad::{comment_byte, newline};
use super::model::*;
use super::sx;
use wavefront_obj::mtl::{self, Material, MaterialSet};
use wavefront_obj::obj::{self, ObjectSet};

fn s(v: &mut Vec<u8>, t: &str) {
    v.extend_from_slice(t.as_bytes());
}

pub type Lines = Vec<Vec<Tok>>;

/// `@` in a token stands for a symbolic name byte, `$` for a symbolic digit.
fn lines(t: &str) -> Lines {
    let mut r: Lines = Vec::new();
    for l in t.split('\n') {
        let mut row: Vec<Tok> = Vec::new();
        for w in l.split(' ') {
            if !w.is_empty() {
                row.push(
                    w.bytes()
                        .map(|b| match b {
                            b'@' => sx::name_byte(),
                            b'$' => sx::digit(),
                            b => b,
                        })
                        .collect(),
                );
            }
        }
        r.push(row);
    }
    r
}

const OBJ: &[&str] = &[
    "v 0 $ 0\nvt 0\nvn 0 0 1\nf 1/1/1 1/1/1 1/1/1",
    "mtllib a@ b\nmtllib c\no x@\nv 1 2 3 $\nusemtl m\ng a b\ns 1\nf 1 1 1 1\no y\nv 0 0 0\nl -1 2",
    "v 0 0 0\nv 1 1 1\ng @\np 1 2\ng\np 2\ns off\nl 1 2 1",
    "vt 1\nvt 1 $\nvt 1 2 3\nvn 1 2 3\nv 1 2 3",
    "o a\no b@\nv 0 0 0\nusemtl x\nusemtl y\np 1\nusemtl z",
    "v 0 0 0\nf 1 1",
    "v 0 0 0\nf 1 1 1 x@",
    "v 0 x 0",
    "v 0 0\nv 1 1 1",
    "g a\nfoo 1 2\nv 0 0 0",
    "s\nv 0 0 0",
    "usemtl\nv 0 0 0",
    "o\nv 0 0 0",
    "v 0 0 0\np 1\nl 1\nf 1 1 1",
    "v 0 0 0\nl 1 $ 1\np 1",
    "v 0 0 0\np\nv 0 0 0",
    "s 1\ns @\nv 0 0 0\np 1",
    "mtllib\nmtllib a\nv 0 0 0",
    "v 0 0 0 v 1 1 1 p 1\nvt 1 vt 2 vn 0 0 0 s 1 usemtl a s 2",
];

const MTL: &[&str] = &[
    "newmtl a@\nKa 0 $ 0\nKd 1 2 3\nKs 1 1 1\nKe 0 0 1",
    "newmtl a\nillum 2\nd 0.$\nNs 1$\nNi 1\nnewmtl b@\nillum 0",
    "newmtl a\nmap_Ka x@\nmap_Kd y\nmap_Ks z\nmap_Ke w\nmap_Ns v",
    "newmtl a\nmap_Bump x\nbump y@\ndisp d\nmap_d e\ndecal f\nnewmtl b\nbump q",
    "newmtl a\nnewmtl b\nnewmtl c",
    "newmtl\nKa 0 0 0",
    "newmtl a\nKa 0 0\nKd 1 1 1",
    "newmtl a\nillum 3",
    "newmtl a\nmap_Ka\nmap_Kd x",
    "newmtl a\nfoo 1\nd 1",
    "Ka 0 0 0\nnewmtl a",
    "newmtl a b\nd 1",
    "newmtl a\nd 1 2",
    "newmtl a\nd x@\nNs 1",
    "newmtl a Ka 1 2 3 d 0.5\nNs 1 Ni 2 newmtl b d 1",
];

const SOUP: &[&str] = &["v", "vt", "vn", "f", "l", "p", "g", "s", "o", "usemtl", "mtllib", "1", "-1", "1/1", "x", "0.5", "off"];
const MSOUP: &[&str] = &["newmtl", "Ka", "d", "illum", "map_Ka", "bump", "1", "0.5", "x", "-1", "Kd", "Ns"];

fn plain(l: &Lines) -> Vec<u8> {
    let mut v = Vec::new();
    for r in l {
        put_line(&mut v, r, b"\n");
    }
    v
}

fn blanks(v: &mut Vec<u8>, n: usize) {
    for _ in 0..n {
        v.push(sx::blank());
    }
}

fn comment(v: &mut Vec<u8>) {
    match sx::choose(4) {
        0 => v.push(b'#'),
        1 => {
            v.push(b'#');
            v.push(comment_byte());
            v.push(comment_byte());
        }
        2 => {
            s(v, "#f 1 2 3 # v ");
            v.push(sx::byte_in(0xc2, 0xdf));
            v.push(sx::byte_in(0x80, 0xbf));
        }
        _ => {
            v.push(sx::blank());
            s(v, "# newmtl v");
            v.push(comment_byte());
        }
    }
}

/// A long run of one byte, with another in the middle.
fn run(v: &mut Vec<u8>, b: u8, n: usize, other: u8) {
    v.extend(std::iter::repeat(b).take(n / 2));
    v.push(other);
    v.extend(std::iter::repeat(b).take(n / 2));
}

/// One long blank or comment or many blank lines at some place.
fn stretched(l: &Lines, n: usize) -> Vec<u8> {
    let mut v = Vec::new();
    let at = sx::choose(l.len() as u32) as usize;
    let mode = sx::choose(if sx::param(2) == 1 { 4 } else { 6 });
    sx::assume(mode != 0 || l[at].len() > 1);
    for (i, r) in l.iter().enumerate() {
        let here = i == at;
        match mode {
            1 if here => run(&mut v, [b' ', b'\t', b'\\'][i % 3], n, sx::blank()),
            4 if here => {
                for k in 0..n {
                    s(&mut v, ["\n", "\r\n", "\r", " # x\n"][k % 4]);
                }
            }
            5 if here => {
                v.push(b'#');
                run(&mut v, b'#', n, comment_byte());
                s(&mut v, "\r");
            }
            _ => {}
        }
        for (j, t) in r.iter().enumerate() {
            if j > 0 {
                if mode == 0 && here && j == 1 + (n + i) % (r.len() - 1) {
                    run(&mut v, [b' ', b'\t', b'\\'][i % 3], n, sx::blank());
                } else {
                    v.push(b' ');
                }
            }
            v.extend_from_slice(t);
        }
        match mode {
            2 if here => run(&mut v, [b' ', b'\t', b'\\'][i % 3], n, sx::blank()),
            3 if here => {
                v.push(b'#');
                run(&mut v, [b'x', b'#', b' '][i % 3], n, comment_byte());
            }
            _ => {}
        }
        v.push(b'\n');
    }
    v
}

/// params: 0 OBJ / 1 MTL, length, 1: lines of errors
pub fn h_layout_long() {
    let n = sx::param(1) as usize;
    if sx::param(0) == 0 {
        let l = lines(OBJ[sx::choose(OBJ.len() as u32) as usize]);
        let (a, b) = (exact(plain(&l)), exact(stretched(&l, n)));
        let (x, y) = (obj::parse(&a), obj::parse(&b));
        if sx::param(2) == 0 {
            return same_obj(&x, &y, false);
        }
        if let (Err(x), Err(y)) = (x, y) {
            sx::reach("rejected");
            sx::observe(y.line_number as u64);
            sx::check(x.line_number == y.line_number, "blanks and comments within a line do not change the line of an error");
        }
    } else {
        let l = lines(MTL[sx::choose(MTL.len() as u32) as usize]);
        let (a, b) = (exact(plain(&l)), exact(stretched(&l, n)));
        let (x, y) = (mtl::parse(&a), mtl::parse(&b));
        if sx::param(2) == 0 {
            return same_mtl(&x, &y);
        }
        if let (Err(x), Err(y)) = (x, y) {
            sx::reach("rejected");
            let (m, n) = (super::rel::line_of(&format!("{}", x)), super::rel::line_of(&format!("{}", y)));
            sx::observe(n as u64);
            sx::check(m == n, "blanks and comments within a line do not change the line of an error");
        }
    }
}

/// The same lines in another layout; true if only a final break is missing.
fn varied(l: &Lines, mode: u32, n: usize) -> (Vec<u8>, bool) {
    let mut v = Vec::new();
    let at = match mode {
        6 | 7 | 8 => 0,
        4 => sx::choose(l.len() as u32 + 1) as usize,
        _ => sx::choose(l.len() as u32) as usize,
    };
    let gap = if mode == 0 {
        sx::assume(l[at].len() > 1);
        1 + sx::choose(l[at].len() as u32 - 1) as usize
    } else {
        0
    };
    let all = if mode == 6 { 1 + sx::choose(2) } else { 0 };
    let none: Vec<Tok> = Vec::new();
    for (i, r) in l.iter().chain(std::iter::once(&none)).enumerate() {
        let here = i == at;
        if i == l.len() && !(mode == 4 && here) {
            break;
        }
        if mode == 1 && here {
            blanks(&mut v, n);
        }
        if mode == 4 && here {
            // additional lines before this one
            for _ in 0..n {
                match sx::choose(3) {
                    0 => {}
                    1 => blanks(&mut v, 1),
                    _ => comment(&mut v),
                }
                newline(&mut v);
            }
        }
        if mode == 8 {
            match i % 3 {
                0 => s(&mut v, "\t"),
                1 => s(&mut v, "\r\n  # x\n\n\\ "),
                _ => {}
            }
        }
        for (j, t) in r.iter().enumerate() {
            if j > 0 {
                if mode == 0 && here && j == gap {
                    blanks(&mut v, n);
                } else if mode == 8 {
                    s(&mut v, ["  ", "\t", " \\ ", "\\"][(i + j) % 4]);
                } else {
                    v.push(b' ');
                }
            }
            v.extend_from_slice(t);
        }
        match mode {
            2 if here => blanks(&mut v, n),
            3 if here => comment(&mut v),
            8 => match i % 4 {
                0 => s(&mut v, "#c"),
                1 => s(&mut v, " \t # c # d"),
                2 => s(&mut v, "\\"),
                _ => {}
            },
            _ => {}
        }
        let last = i + 1 == l.len();
        match mode {
            5 if here => newline(&mut v),
            6 => s(&mut v, ["\n", "\r\n", "\r"][all as usize]),
            7 if last => match sx::choose(3) {
                0 => {}
                1 => blanks(&mut v, n),
                _ => comment(&mut v),
            },
            8 => s(&mut v, ["\r\n", "\n", "\r", "\n\r"][i % 4]),
            _ => v.push(b'\n'),
        }
    }
    (v, mode == 7)
}

fn pick(base: &[&str], soup: &[&str]) -> Lines {
    let k = sx::param(0) as usize;
    if k == 0 {
        lines(base[sx::choose(base.len() as u32) as usize])
    } else {
        // k tokens in any order, on one or two lines
        let mut a: Vec<Tok> = Vec::new();
        for _ in 0..k {
            a.push(tok(soup[sx::choose(soup.len() as u32) as usize]));
        }
        let cut = sx::choose(k as u32 + 1) as usize;
        let b = a.split_off(cut);
        let mut r: Lines = vec![];
        if base.len() == OBJ.len() {
            r.push(vec![tok("v"), tok("0"), tok("0"), tok("0")]);
        }
        if !a.is_empty() {
            r.push(a);
        }
        if !b.is_empty() {
            r.push(b);
        }
        r
    }
}

/// params: 0 listed files / k random tokens, mode, length
pub fn h_layout_obj() {
    let l = pick(OBJ, SOUP);
    let a = plain(&l);
    let (b, cut) = varied(&l, sx::param(1) as u32, sx::param(2) as usize);
    if cut {
        // an object statement needs its line break
        let r = &l[l.len() - 1];
        let mut o = false;
        for t in r {
            o |= beq(t, b"o");
        }
        sx::assume(!o);
    }
    let (a, b) = (exact(a), exact(b));
    let x = obj::parse(&a);
    let y = obj::parse(&b);
    same_obj(&x, &y, cut);
}

pub fn h_layout_mtl() {
    let l = pick(MTL, MSOUP);
    let a = plain(&l);
    let (b, _) = varied(&l, sx::param(1) as u32, sx::param(2) as usize);
    let (a, b) = (exact(a), exact(b));
    let x = mtl::parse(&a);
    let y = mtl::parse(&b);
    same_mtl(&x, &y);
}

/// params: 0 OBJ / 1 MTL
pub fn h_pure() {
    if sx::param(0) == 0 {
        let i = sx::choose(OBJ.len() as u32) as usize;
        let j = sx::choose(OBJ.len() as u32) as usize;
        let a = exact(plain(&lines(OBJ[i])));
        let b = exact(plain(&lines(OBJ[j])));
        let x = obj::parse(&a);
        let _ = obj::parse(&b);
        let y = obj::parse(&a);
        same_obj(&x, &y, false);
        same_line(&x, &y);
        let y = obj::Parser::new(&a).parse_objset();
        same_obj(&x, &y, false);
        same_line(&x, &y);
        let y = obj::parse(a.clone());
        same_obj(&x, &y, false);
        let y = obj::parse(a.as_str());
        same_obj(&x, &y, false);
        let y = obj::Parser::new(&a).clone().parse_objset();
        same_obj(&x, &y, false);
        if let Ok(x) = &x {
            sx::check(*x == x.clone(), "a result equals its copy");
        }
    } else {
        let i = sx::choose(MTL.len() as u32) as usize;
        let j = sx::choose(MTL.len() as u32) as usize;
        let a = exact(plain(&lines(MTL[i])));
        let b = exact(plain(&lines(MTL[j])));
        let x = mtl::parse(&a);
        let _ = mtl::parse(&b);
        let y = mtl::parse(&a);
        same_mtl(&x, &y);
        sx::check(x.is_ok() || x == y, "parsing again gives the same error");
        let y = mtl::Parser::new(&a).parse_mtlset();
        same_mtl(&x, &y);
        sx::check(x.is_ok() || x == y, "both entry points give the same error");
        let y = mtl::parse(a.clone());
        same_mtl(&x, &y);
        let y = mtl::parse(a.as_str());
        same_mtl(&x, &y);
        if let Ok(x) = &x {
            sx::check(*x == x.clone(), "a result equals its copy");
        }
    }
}

const AROUND: [(&str, &str); 8] = [
    ("", "0"), ("x", "x"), ("\n", "/1 1"), ("v 0 0 0\n", " 1\n"), ("12345", "\n"), ("#", "#"), ("newmtl q\n  ", "e5\nd 1\n"), ("aaaaaaaaaaaaaaaaaaaaaaa", ".5"),
];

/// A text as part of a longer one.  params: 0 OBJ / 1 MTL, 0 listed files / n: templates with n arbitrary bytes
pub fn h_pure_slice() {
    let mtl = sx::param(0) == 1;
    let n = sx::param(1) as usize;
    let t = if n == 0 {
        let l = if mtl { lines(MTL[sx::choose(MTL.len() as u32) as usize]) } else { lines(OBJ[sx::choose(OBJ.len() as u32) as usize]) };
        let mut v = plain(&l);
        if sx::flip() {
            v.pop();
        }
        v
    } else {
        let t = if mtl { super::total::MTL } else { super::total::OBJ };
        super::total::fill(t[sx::choose(t.len() as u32) as usize], n)
    };
    let (a, z) = AROUND[sx::choose(8) as usize];
    let mut w = tok(a);
    w.extend_from_slice(&t);
    s(&mut w, z);
    let (from, to) = (a.len(), a.len() + t.len());
    let (t, w) = (exact(t), exact(w));
    if mtl {
        let (x, y) = (mtl::parse(&t), mtl::parse(&w[from..to]));
        same_mtl(&x, &y);
        sx::check(x.is_ok() || x == y, "the same text gives the same error");
    } else {
        let (x, y) = (obj::parse(&t), obj::parse(&w[from..to]));
        same_obj(&x, &y, false);
        same_line(&x, &y);
    }
}

const GOOD_OBJ: [&str; 2] = ["v @ 0 0\np 1\n", "mtllib a\no b\nv @ 0 0\ng c\ns @\nusemtl d\nf 1 1 1\n"];
const BAD_OBJ: [&str; 6] = ["w@\n", "v 0 0\n", "v 0 0 0\n\nf 1 1 x@\n", "v 0 0 0\np @@\n", "o a\nv 0 0 0\no b\nl 1 1\n", "s x\n"];
const GOOD_MTL: [&str; 2] = ["newmtl a\nd @\n", "newmtl a\nKa @ 0 0\nmap_Kd x@\nillum 1\nnewmtl b\n"];
const BAD_MTL: [&str; 6] = ["w@\n", "newmtl\n", "newmtl a\n\nd x@\n", "newmtl a\nillum @@\n", "newmtl a\nKa 0 0\n", "newmtl a\nnewmtl b\nq\n"];

fn digits(t: &str) -> String {
    let mut v = Vec::new();
    for &b in t.as_bytes() {
        v.push(if b == b'@' { sx::byte_in(b'3', b'9') } else { b });
    }
    exact(v)
}

/// Many parses between two of the same text.  params: 0 OBJ / 1 MTL, parses, 1 of
/// tiny texts
pub fn h_pure_many() {
    let mtl = sx::param(0) == 1;
    let (good, bad) = if mtl { (GOOD_MTL, BAD_MTL) } else { (GOOD_OBJ, BAD_OBJ) };
    let tiny = sx::param(2) == 1;
    let i = sx::choose(if tiny { 3 } else { 8 }) as usize;
    let a = digits(if i < 2 { good[i] } else { bad[i - 2] });
    let j = if tiny { 3 + sx::choose(2) } else { sx::choose(3) } as usize;
    let b = digits(match j {
        0 | 1 => good[j],
        2 => bad[2],
        3 => ["mtllib a\n", "newmtl a\n"][mtl as usize],
        _ => ["o a\nb", "newmtl a\nb"][mtl as usize],
    });
    if mtl {
        let x = mtl::parse(&a);
        let w = mtl::parse(&b);
        for _ in 0..sx::param(1) {
            let z = mtl::parse(&b);
            sx::check(w.is_ok() == z.is_ok() && (!tiny || w == z), "parsing again gives the same result");
        }
        let y = mtl::parse(&a);
        same_mtl(&x, &y);
        sx::check(x.is_ok() || x == y, "parsing again gives the same error");
    } else {
        let x = obj::parse(&a);
        let w = obj::parse(&b);
        for _ in 0..sx::param(1) {
            let z = obj::parse(&b);
            sx::check(w.is_ok() == z.is_ok() && (!tiny || w == z), "parsing again gives the same result");
        }
        let y = obj::parse(&a);
        same_obj(&x, &y, false);
        same_line(&x, &y);
    }
}

pub fn same_line(x: &Result<ObjectSet, obj::ParseError>, y: &Result<ObjectSet, obj::ParseError>) {
    if let (Err(a), Err(b)) = (x, y) {
        sx::check(a.line_number == b.line_number, "the same text gives the same line");
        sx::check(beq(a.message.as_bytes(), b.message.as_bytes()), "the same text gives the same message");
    }
}

pub fn same_obj(x: &Result<ObjectSet, obj::ParseError>, y: &Result<ObjectSet, obj::ParseError>, cut: bool) {
    match (x, y) {
        (Ok(a), Ok(b)) => {
            sx::reach("accepted");
            sx::observe(a.objects.len() as u64);
            sx::check(eq_sets(a, b), "equal object sets");
        }
        (Err(a), Err(b)) => {
            sx::reach("rejected");
            sx::observe(a.line_number as u64);
            if !cut {
                sx::check(a.kind == b.kind, "errors of the same kind");
            }
        }
        _ => sx::check(false, "both are accepted or both rejected"),
    }
}

pub fn eq_sets(a: &ObjectSet, b: &ObjectSet) -> bool {
    if a.material_libraries.len() != b.material_libraries.len() || a.objects.len() != b.objects.len() {
        return false;
    }
    let mut r = true;
    for (x, y) in a.material_libraries.iter().zip(&b.material_libraries) {
        r &= beq(x.as_bytes(), y.as_bytes());
    }
    for (x, y) in a.objects.iter().zip(&b.objects) {
        r &= eq_object(x, y);
    }
    r
}

pub fn eq_object(x: &obj::Object, y: &obj::Object) -> bool {
    let mut r = true;
    if x.vertex_set.len() != y.vertex_set.len()
        || x.texture_vertex_set.len() != y.texture_vertex_set.len()
        || x.normal_vertex_set.len() != y.normal_vertex_set.len()
        || x.group_set.len() != y.group_set.len()
        || x.smoothing_group_set.len() != y.smoothing_group_set.len()
        || x.element_set.len() != y.element_set.len()
        || x.shape_set.len() != y.shape_set.len()
        || x.geometry_set.len() != y.geometry_set.len()
    {
        return false;
    }
    r &= beq(x.name.as_bytes(), y.name.as_bytes());
    for (p, q) in x.vertex_set.iter().zip(&y.vertex_set) {
        r &= (p.x.to_bits() == q.x.to_bits())
            & (p.y.to_bits() == q.y.to_bits())
            & (p.z.to_bits() == q.z.to_bits())
            & (p.w.to_bits() == q.w.to_bits());
    }
    for (p, q) in x.texture_vertex_set.iter().zip(&y.texture_vertex_set) {
        r &= (p.u.to_bits() == q.u.to_bits()) & (p.v.to_bits() == q.v.to_bits()) & (p.w.to_bits() == q.w.to_bits());
    }
    for (p, q) in x.normal_vertex_set.iter().zip(&y.normal_vertex_set) {
        r &= (p.x.to_bits() == q.x.to_bits()) & (p.y.to_bits() == q.y.to_bits()) & (p.z.to_bits() == q.z.to_bits());
    }
    for (p, q) in x.group_set.iter().zip(&y.group_set) {
        r &= beq(p.0.as_bytes(), q.0.as_bytes());
    }
    for (p, q) in x.smoothing_group_set.iter().zip(&y.smoothing_group_set) {
        r &= p.0 == q.0;
    }
    for (p, q) in x.element_set.iter().zip(&y.element_set) {
        let (p, q) = (parts(p), parts(q));
        r &= p.len() == q.len();
        for (c, d) in p.iter().zip(&q) {
            r &= (c.0 == d.0) & (c.1[0] == d.1[0]) & (c.1[1] == d.1[1]) & (c.1[2] == d.1[2]);
        }
    }
    for (p, q) in x.shape_set.iter().zip(&y.shape_set) {
        r &= (p.element == q.element) & (p.smoothing_group == q.smoothing_group) & (p.groups == q.groups);
    }
    for (p, q) in x.geometry_set.iter().zip(&y.geometry_set) {
        r &= p.shapes == q.shapes;
        r &= match (&p.material_name, &q.material_name) {
            (None, None) => true,
            (Some(c), Some(d)) => beq(c.as_bytes(), d.as_bytes()),
            _ => false,
        };
    }
    r
}

fn opt(a: &Option<String>, b: &Option<String>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(c), Some(d)) => beq(c.as_bytes(), d.as_bytes()),
        _ => false,
    }
}

fn col(a: &mtl::Color, b: &mtl::Color) -> bool {
    (a.r.to_bits() == b.r.to_bits()) & (a.g.to_bits() == b.g.to_bits()) & (a.b.to_bits() == b.b.to_bits())
}

pub fn eq_material(a: &Material, b: &Material) -> bool {
    beq(a.name.as_bytes(), b.name.as_bytes())
        & col(&a.color_ambient, &b.color_ambient)
        & col(&a.color_diffuse, &b.color_diffuse)
        & col(&a.color_specular, &b.color_specular)
        & col(&a.color_emissive, &b.color_emissive)
        & (a.specular_exponent.to_bits() == b.specular_exponent.to_bits())
        & (a.dissolve.to_bits() == b.dissolve.to_bits())
        & (a.optical_density.map(f64::to_bits) == b.optical_density.map(f64::to_bits))
        & (a.illumination_model == b.illumination_model)
        & opt(&a.map_ambient, &b.map_ambient)
        & opt(&a.map_diffuse, &b.map_diffuse)
        & opt(&a.map_specular, &b.map_specular)
        & opt(&a.map_emissive, &b.map_emissive)
        & opt(&a.map_specular_exponent, &b.map_specular_exponent)
        & opt(&a.map_bump, &b.map_bump)
        & opt(&a.map_displacement, &b.map_displacement)
        & opt(&a.map_dissolve, &b.map_dissolve)
        & opt(&a.map_decal, &b.map_decal)
}

pub fn same_mtl(x: &Result<MaterialSet, mtl::ParseError>, y: &Result<MaterialSet, mtl::ParseError>) {
    match (x, y) {
        (Ok(a), Ok(b)) => {
            sx::reach("accepted");
            sx::observe(a.materials.len() as u64);
            sx::check(a.materials.len() == b.materials.len(), "equal numbers of materials");
            let mut r = true;
            for (p, q) in a.materials.iter().zip(&b.materials) {
                r &= eq_material(p, q);
            }
            sx::check(r, "equal material sets");
        }
        (Err(_), Err(_)) => {
            sx::reach("rejected");
            sx::observe(99);
        }
        _ => sx::check(false, "both are accepted or both rejected"),
    }
}

