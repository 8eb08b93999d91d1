//! Properties of texts in which something occurs many times: what comes after it
//! (C12 to C14, C16, C17, C25 to C28), and what does not matter (C11, C18, C23, C29).

use super::bad::{letters, line_at};
use super::cost::Pattern;
use super::errs::contains;
use super::layout::{same_line, same_mtl, same_obj};
use super::model::*;
use super::rel::{ck_concat, ck_first, ck_mtl_concat, ck_mtl_first};
use super::sx;
use wavefront_obj::{mtl, obj};

fn s(v: &mut Vec<u8>, t: &str) {
    v.extend_from_slice(t.as_bytes());
}

/// Faults that do not depend on what precedes them; `@` is named by the message.
const OBJ_FAULT: &[&str] = &[
    "z@ 1\n", "v @ 0 0", "v 0 0 @\n", "vn 0 @ 0\n", "vt @\n", "s @\n", "p @\n", "v 0 0 0 1 z@\n", "vn 0 0 0\n1@\n", "usemtl a z@\n", "o b z@\n", "s\n", "usemtl", "v 0 0 0\nf -1 -1\n",
    "v 0 0 0\nvt 0\nf -1 -1 -1/-1\n", "v 0 0 0\nvt 0\nvn 0 0 0\nl -1/-1/-1/-1 -1\n", "v 0 0\n", "mtllib z\n", "o\n", "v 0 0 0\nf -1 -1 -1 @\n", "v 0 0 0\no b\np -1\n",
];
const MTL_FAULT: &[&str] = &[
    "z@ 1\n", "Ka @ 0 0", "Kd 0 @ 0\n", "Ks 0 0 @\n", "Ke 0 @ 0\n", "d @\n", "Ni @\n", "Ns @", "illum @\n", "illum 3\n", "map_Kd\n", "map_d", "Ka 0 0 0 @\n", "map_Ka a @\n", "newmtl\n",
    "newmtl b @\n", "bump\n", "Kd 0 0",
];

/// A fault after many statements is reported as after none.  params: 0 rejection / 1 line / 2
/// kind / 3 message, 0 OBJ / 1 MTL, statements, repetitions, 1: one fault per pattern
pub fn h_rep_fault() {
    let (what, m) = (sx::param(0), sx::param(1) == 1);
    let p = Pattern::some(m, sx::param(2));
    let f = if m { MTL_FAULT } else { OBJ_FAULT };
    let f = f[pick(f.len(), &p, 4)];
    let w = letters(1);
    let fault: Vec<u8> = f.bytes().map(|b| if b == b'@' { w[0] } else { b }).collect();
    let mut a = tok(if m { "newmtl a\n" } else { "v 0 0 0\nvt 0\nvn 0 0 0\n" });
    let mut v = p.text(sx::param(3) as usize);
    if v.last() != Some(&b'\n') {
        v.push(b'\n');
    }
    let (la, lv) = (line_at(&a, a.len()), line_at(&v, v.len()));
    a.extend_from_slice(&fault);
    let good = exact(v.clone());
    v.extend_from_slice(&fault);
    let (a, v) = (exact(a), exact(v));
    if m {
        match (mtl::parse(&good), mtl::parse(&a), mtl::parse(&v)) {
            (Err(_), ..) => {}
            (_, Err(x), Err(y)) => {
                sx::reach("rejected");
                if what == 2 {
                    sx::check(kind(&x) == kind(&y), "the kind does not depend on what precedes the fault");
                }
                let (x, y) = (x.to_string(), y.to_string());
                sx::observe(y.len() as u64);
                if what == 1 || what == 3 {
                    let head = |l: &str| l.find(": ").map_or(0, |k| k + 2);
                    let (j, k) = (head(&x), head(&y));
                    sx::check(j > 0 && k > 0, "an error displays its line");
                    if what == 3 {
                        sx::check(beq(&x.as_bytes()[j..], &y.as_bytes()[k..]), "the message does not depend on what precedes the fault");
                        sx::check(!f.contains('@') || contains(&y.as_bytes()[k..], &w), "the message of an error contains the token at fault");
                    }
                    let line = |l: &str, k: usize| l[..k].bytes().filter(|b| b.is_ascii_digit()).fold(0, |n, b| 10 * n + (b - b'0') as usize);
                    sx::check(line(&y, k) == line(&x, j) + lv - la, "an error names the line of the fault");
                }
            }
            _ => sx::check(false, "a faulty file is rejected"),
        }
    } else {
        match (obj::parse(&good), obj::parse(&a), obj::parse(&v)) {
            (Err(_), ..) => {}
            (_, Err(x), Err(y)) => {
                sx::reach("rejected");
                sx::observe(y.line_number as u64);
                if what == 2 {
                    sx::check(x.kind == y.kind, "the kind does not depend on what precedes the fault");
                }
                if what == 1 || what == 3 {
                    sx::check(y.line_number == x.line_number + lv - la, "an error names the line of the fault");
                }
                if what == 3 && x.kind != obj::ErrorKind::VTNIndexOutOfRange {
                    sx::check(beq(x.message.as_bytes(), y.message.as_bytes()), "the message does not depend on what precedes the fault");
                    sx::check(!f.contains('@') || contains(y.message.as_bytes(), &w), "the message of an error contains the token at fault");
                }
            }
            _ => sx::check(false, "a faulty file is rejected"),
        }
    }
}

/// One of `n`; if asked for, one that the pattern decides.
fn pick(n: usize, p: &Pattern, one: u32) -> usize {
    if sx::param(one) == 1 {
        (p.units[0].len() + p.units[0].bytes().last().map_or(0, |b| b as usize)) % n
    } else {
        sx::choose(n as u32) as usize
    }
}

fn kind(e: &mtl::ParseError) -> String {
    let t = format!("{:?}", e);
    let k = t.find("kind: ").map_or(0, |k| k + 6);
    t[k..].chars().take_while(|c| c.is_ascii_alphabetic()).collect()
}

/// What follows a fault after many statements.  params: 0 OBJ / 1 MTL, statements, repetitions
pub fn h_rep_first() {
    let m = sx::param(0) == 1;
    let p = Pattern::some(m, sx::param(1));
    let f = if m { MTL_FAULT } else { OBJ_FAULT };
    let f = f[pick(f.len(), &p, 3)];
    let w = letters(1);
    let n = sx::param(2) as usize;
    let mut a = tok(if m { "newmtl a\n" } else { "v 0 0 0\n" });
    if sx::flip() {
        a.extend_from_slice(&p.text(n));
        if a.last() != Some(&b'\n') {
            a.push(b'\n');
        }
    }
    a.extend(f.bytes().map(|b| if b == b'@' { w[0] } else { b }));
    if a.last() != Some(&b'\n') {
        a.push(b'\n');
    }
    let mut b = p.text(n);
    s(&mut b, "\nzz\n");
    if m {
        ck_mtl_first(a, &b)
    } else {
        ck_first(a, &b)
    }
}

const OBJ_NEXT: &[&str] = &[
    "o b\n", "o b\nv 0 0 0\nvt 0\nvn 0 0 0\nf -1/-1/-1 -1/-1/-1 -1/-1/-1\np -1\n", "o b\nv 0 0 0\np -1\ng x\nl -1 -1\ns 3\no c\nv 1 2 3\nusemtl a\np -1\n", "o b\np -1\n", "o b\nv 0 0 0\np -2\n",
    "o b\nzz\n", "o b\n\nv 0 x 0\n",
];
const MTL_NEXT: &[&str] = &["newmtl b\n", "newmtl b\nKa 1 0 1\nmap_Kd x\nnewmtl c\nd 0\n", "newmtl b\nillum 7\n", "newmtl b\n\nzz\n", "newmtl a\nNi 2\n"];

/// Many statements, and another file after them.  params: 0 OBJ / 1 MTL, statements, repetitions
pub fn h_rep_concat() {
    let m = sx::param(0) == 1;
    let p = Pattern::some(m, sx::param(1));
    let b = if m { MTL_NEXT } else { OBJ_NEXT };
    let b = tok(b[pick(b.len(), &p, 3)]);
    let mut a = p.text(sx::param(2) as usize);
    if a.last() != Some(&b'\n') {
        a.push(b'\n');
    }
    if m {
        ck_mtl_concat(a, b)
    } else {
        ck_concat(a, b)
    }
}

/// The same text twice, another between.  params: 0 OBJ / 1 MTL, statements, repetitions
pub fn h_rep_pure() {
    let m = sx::param(0) == 1;
    let p = Pattern::some(m, sx::param(1));
    let a = exact(p.text(sx::param(2) as usize));
    if m {
        let b = MTL_NEXT[pick(4, &p, 3)];
        let x = mtl::parse(&a);
        let u = mtl::parse(b);
        let y = mtl::parse(&a);
        let v = mtl::parse(b);
        same_mtl(&x, &y);
        sx::check(x.is_ok() || x == y, "parsing again gives the same error");
        same_mtl(&u, &v);
    } else {
        let b = OBJ_NEXT[pick(6, &p, 3)];
        let x = obj::parse(&a);
        let u = obj::parse(b);
        let y = obj::Parser::new(&a).parse_objset();
        let v = obj::parse(b);
        same_obj(&x, &y, false);
        same_line(&x, &y);
        same_obj(&u, &v, false);
        same_line(&u, &v);
    }
}

/// Another layout.  params: 0 OBJ / 1 MTL, statements, repetitions
pub fn h_rep_layout() {
    let m = sx::param(0) == 1;
    let p = Pattern::some(m, sx::param(1));
    let mut a = p.text(sx::param(2) as usize);
    if a.last() != Some(&b'\n') {
        a.push(b'\n');
    }
    let k = pick(6, &p, 3);
    let mut b = Vec::with_capacity(2 * a.len());
    if k == 4 {
        s(&mut b, "\n\t#\n \n");
    }
    for &c in &a {
        match (k, c) {
            (0, b'\n') => s(&mut b, "\r\n"),
            (1, b'\n') => s(&mut b, " # v 0\n"),
            (2, b' ') => s(&mut b, "\t \\"),
            (3, b'\n') => s(&mut b, "\n\n \t\n"),
            (4, b'\n') => s(&mut b, "\t\n "),
            (5, b'\n') => s(&mut b, "\r"),
            _ => b.push(c),
        }
    }
    let (a, b) = (exact(a), exact(b));
    if m {
        same_mtl(&mtl::parse(&a), &mtl::parse(&b))
    } else {
        same_obj(&obj::parse(&a), &obj::parse(&b), false)
    }
}

/// Long lists that differ in one place.  params: length
pub fn h_eq_long() {
    let n = sx::param(0) as usize;
    let at = [0, n / 2, n - 1][sx::choose(3) as usize];
    let (p, q) = (sx::digit(), sx::digit());
    let x = |i: usize, d: u8| if i == at { (d - b'0') as usize } else { i % 7 };
    let w = |i: usize, d: u8| exact(vec![if i == at { d } else { b'a' }]);
    let want = p == q;
    let differ = |a: bool, b: bool, same: bool| {
        sx::reach("compared");
        sx::check(a == want, "values are equal exactly if their parts are");
        sx::check(b == want, "equality is symmetric");
        sx::check(same, "a copy equals the original");
    };
    if sx::flip() {
        let k = sx::choose(3);
        let make = |d: u8| mtl::MaterialSet {
            materials: (0..n)
                .map(|i| mtl::Material {
                    name: if k == 0 { w(i, d) } else { String::from("m") },
                    color_ambient: mtl::Color { r: 0.0, g: 0.0, b: 0.0 },
                    color_diffuse: mtl::Color { r: 0.0, g: 0.0, b: 0.0 },
                    color_specular: mtl::Color { r: 0.0, g: 0.0, b: 0.0 },
                    color_emissive: mtl::Color { r: 0.0, g: 0.0, b: 0.0 },
                    specular_exponent: if k == 1 { x(i, d) as f64 } else { 0.0 },
                    dissolve: 1.0,
                    optical_density: None,
                    illumination_model: mtl::IlluminationModel::Ambient,
                    map_ambient: None,
                    map_diffuse: None,
                    map_specular: None,
                    map_emissive: None,
                    map_specular_exponent: None,
                    map_bump: None,
                    map_displacement: None,
                    map_dissolve: None,
                    map_decal: if k == 2 { Some(w(i, d)) } else { None },
                })
                .collect(),
        };
        let (a, b) = (make(p), make(q));
        differ(a == b, b == a, a == a.clone());
        return;
    }
    let k = sx::choose(12);
    let make = |d: u8| {
        let mut o = obj::Object::default();
        match k {
            0 => o.vertex_set = (0..n).map(|i| obj::Vertex { x: 0.0, y: x(i, d) as f64, z: 0.0, w: 1.0 }).collect(),
            1 => o.texture_vertex_set = (0..n).map(|i| obj::TextureVertex { u: 0.0, v: x(i, d) as f64, w: 0.0 }).collect(),
            2 => o.normal_vertex_set = (0..n).map(|i| obj::NormalVertex { x: 0.0, y: x(i, d) as f64, z: 0.0 }).collect(),
            3 => o.group_set = (0..n).map(|i| obj::Group(w(i, d))).collect(),
            4 => o.smoothing_group_set = (0..n).map(|i| obj::SmoothingGroup(x(i, d))).collect(),
            5 => o.element_set = (0..n).map(|i| obj::Element::Point(obj::VTNIndex::V(x(i, d)))).collect(),
            6 => o.shape_set = (0..n).map(|i| obj::ShapeEntry { element: i, groups: vec![0], smoothing_group: x(i, d) }).collect(),
            7 => o.shape_set = vec![obj::ShapeEntry { element: 0, groups: (0..n).map(|i| x(i, d)).collect(), smoothing_group: 0 }],
            8 => o.geometry_set = (0..n).map(|i| obj::Geometry { material_name: Some(w(i, d)), shapes: vec![i] }).collect(),
            9 => o.geometry_set = vec![obj::Geometry { material_name: None, shapes: (0..n).map(|i| x(i, d)).collect() }],
            10 => o.name = exact((0..n).map(|i| if i == at { d } else { b'x' }).collect()),
            _ => {}
        }
        obj::ObjectSet {
            material_libraries: if k == 11 { (0..n).map(|i| w(i, d)).collect() } else { vec![] },
            objects: vec![obj::Object::default(), o],
        }
    };
    let (a, b) = (make(p), make(q));
    differ(a == b, b == a, a == a.clone());
    differ(a.objects[1] == b.objects[1] && a.material_libraries == b.material_libraries, want, a.objects == a.objects.clone());
}

const OBJ_LINE: &[&str] = &[
    "v 1 2 3", "v 1 2 3 4", "vt 1", "vt 1 2", "vt 1 2 3", "vn 1 2 3", "p 1 1", "l 1 1 1", "f 1 1 1 1", "f 1/1 1/1 1/1", "f 1//1 1//1 1//1", "l 1/1/1 1/1/1", "g a b", "s 1", "s off", "usemtl a",
    "o a", "v 1e3 -2.5 .5", "f -1 -1 -1",
];
const MTL_LINE: &[&str] = &[
    "newmtl b", "Ka 1 0 1", "Kd 0 1 0", "Ks 1 1 1", "Ke 0 0 0.5", "d 1", "Ns 10", "Ni 1.5", "illum 2", "map_Ka a.png", "map_Kd a.png", "map_Ks a.png", "map_Ke a.png", "map_Ns a.png", "map_Bump a.png",
    "bump a.png", "disp a.png", "map_d a.png", "decal a.png",
];

/// A statement broken in two, or after which the rest of another stands.  The first
/// part is a fault if it is one alone.  params: 0 OBJ / 1 MTL, other statement
pub fn h_broken() {
    let m = sx::param(0) == 1;
    let lines = if m { MTL_LINE } else { OBJ_LINE };
    let i = sx::choose(lines.len() as u32) as usize;
    let l = lines[i];
    let r = if sx::param(1) == 0 { l } else { lines[sx::choose(lines.len() as u32) as usize] };
    let words: Vec<&str> = l.split(' ').collect();
    let rest: Vec<&str> = r.split(' ').collect();
    let k = 1 + sx::choose(words.len() as u32) as usize;
    let j = if sx::param(1) == 0 { k } else { sx::choose(rest.len() as u32) as usize };
    sx::assume(k < words.len() || sx::param(1) == 1);
    let mut a = tok(if m { "newmtl a\n" } else { "v 0 0 0\nvt 0\nvn 0 0 0\n" });
    s(&mut a, &words[..k].join(" "));
    s(&mut a, ["", " ", " \\", " # c", "\\", " -", "\r", "\n"][sx::choose(8) as usize]);
    a.push(b'\n');
    let mut b = tok(["", "  ", "\n", "# c\n", "\\ "][sx::choose(5) as usize]);
    b.extend_from_slice(rest[j..].join(" ").as_bytes());
    // with another number
    let d = sx::digit();
    let b: Vec<u8> = b.iter().map(|&c| if c == b'1' { d } else { c }).chain(*b"\n").collect();
    if m {
        ck_mtl_first(a, &b)
    } else {
        ck_first(a, &b)
    }
}
