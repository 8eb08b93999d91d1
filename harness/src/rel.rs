//! Relations between parses: the first fault decides (C27), files compose
//! (C28), equality is equality of the parts (C29).

use super::bad::line_at;
use super::layout::{eq_material, eq_object, eq_sets};
use super::mat;
use super::mix;
use super::model::*;
use super::seq::name;
use super::sx;
use super::total;
use wavefront_obj::{mtl, obj};

fn s(v: &mut Vec<u8>, t: &str) {
    v.extend_from_slice(t.as_bytes());
}

// ------------------------------------------------------------------ the first fault

pub fn ck_first(a: Vec<u8>, b: &[u8]) {
    let mut v = a.clone();
    v.extend_from_slice(b);
    let (a, v) = (exact(a), exact(v));
    if let Err(x) = obj::parse(&a) {
        sx::reach("rejected");
        match obj::parse(&v) {
            Ok(_) => sx::check(false, "a file that starts with a faulty part is rejected"),
            Err(y) => {
                sx::observe(y.line_number as u64);
                sx::check(x.line_number == y.line_number, "what follows a fault does not change its line");
                sx::check(x.kind == y.kind, "what follows a fault does not change its kind");
                sx::check(beq(x.message.as_bytes(), y.message.as_bytes()), "what follows a fault does not change its message");
            }
        }
    }
}

pub fn ck_mtl_first(a: Vec<u8>, b: &[u8]) {
    let mut v = a.clone();
    v.extend_from_slice(b);
    let (a, v) = (exact(a), exact(v));
    if let Err(x) = mtl::parse(&a) {
        sx::reach("rejected");
        match mtl::parse(&v) {
            Ok(_) => sx::check(false, "a file that starts with a faulty part is rejected"),
            Err(y) => {
                let (c, d) = (format!("{}", x), format!("{}", y));
                sx::observe(d.len() as u64);
                sx::check(beq(c.as_bytes(), d.as_bytes()), "what follows a fault does not change its report");
                sx::check(x == y, "what follows a fault does not change its kind");
            }
        }
    }
}

const AFTER: [&str; 12] = [
    "\n", "v 0 0 0\n", "o b\n", "foo\n", "mtllib x\n", "p 1\n", "f", " 1 2 3\n", "s off\nusemtl a\n", "# c\n\n", "v 0 0 0\nvt 0\nvn 0 0 0\nf 1/1/1 1/1/1 1/1/1\n", "o",
];
const MTL_AFTER: [&str; 12] =
    ["\n", "d 1\n", "newmtl b\n", "foo\n", "newmtl", "Ka 1 1 1\n", "d", " 1 2 3\n", "illum 9\n", "# c\n\n", "newmtl c\nd 1\nillum 2\nmap_Kd x\n", "bump x\nbump y\n"];

fn start(t: &[&str]) -> Vec<u8> {
    let mut v = if sx::param(0) == 0 {
        let mut v = Vec::new();
        total::raw(&mut v, sx::param(1) as usize);
        total::utf8(&v);
        v
    } else {
        total::fill(t[sx::choose(t.len() as u32) as usize], sx::param(1) as usize)
    };
    v.push(b'\n');
    v
}

/// params: 0 arbitrary bytes / 1 templates, bytes
pub fn h_first() {
    let a = start(total::OBJ);
    let k = sx::choose(13) as usize;
    if k < 12 {
        ck_first(a, AFTER[k].as_bytes());
    } else {
        let mut b = Vec::new();
        total::ascii(&mut b, 1);
        ck_first(a, &b);
    }
}

pub fn h_mtl_first() {
    let a = start(total::MTL);
    let k = sx::choose(13) as usize;
    if k < 12 {
        ck_mtl_first(a, MTL_AFTER[k].as_bytes());
    } else {
        let mut b = Vec::new();
        total::ascii(&mut b, 1);
        ck_mtl_first(a, &b);
    }
}

/// A file with a fault, and the same with more after it, also faults.
/// params: statements, number of files
pub fn h_mix_first() {
    let k = sx::choose(sx::param(1) as u32) as u64;
    let n = sx::param(0) as usize;
    let mut r = mix::Rng::new(k + 9);
    let (libs, g) = mix::file(k, n);
    let l = mix::lines(&libs, &g);
    let mut a = Vec::new();
    mix::layout(&l, k, &mut a);
    s(&mut a, mix::WRONG[r.below(mix::WRONG.len())]);
    s(&mut a, "\n");
    let (_, g) = mix::file(k + 1, 1 + r.below(n));
    let l = mix::lines(&[], &g);
    let mut b = Vec::new();
    mix::layout(&l, k + 1, &mut b);
    if sx::flip() {
        s(&mut b, mix::WRONG[r.below(mix::WRONG.len())]);
    }
    ck_first(a, &b);
}

pub fn h_mtl_mix_first() {
    let k = sx::choose(sx::param(1) as u32) as u64;
    let n = sx::param(0) as usize;
    let mut r = mix::Rng::new(k + 9);
    let (l, _) = mat::mix(k, n);
    let mut a = mat::lay(&l, k, true);
    s(&mut a, mat::FAULT[r.below(mat::FAULT.len())]);
    s(&mut a, "\n");
    let (l, _) = mat::mix(k + 1, 1 + r.below(n));
    let mut b = mat::lay(&l, k + 1, true);
    if sx::flip() {
        s(&mut b, mat::FAULT[r.below(mat::FAULT.len())]);
    }
    ck_mtl_first(a, &b);
}

// ------------------------------------------------------------------ composition

/// `b` starts with an object statement and has no positive indices.
pub fn ck_concat(a: Vec<u8>, b: Vec<u8>) {
    let above = line_at(&a, a.len()) - 1;
    let mut v = a.clone();
    v.extend_from_slice(&b);
    let (a, b, v) = (exact(a), exact(b), exact(v));
    let x = match obj::parse(&a) {
        Ok(x) => x,
        Err(_) => return,
    };
    match (obj::parse(&b), obj::parse(&v)) {
        (Ok(y), Ok(z)) => {
            sx::reach("accepted");
            let (m, n) = (x.objects.len(), y.objects.len());
            sx::observe((m + n) as u64);
            sx::check(z.objects.len() == m + n, "the objects of two files put together are those of both");
            let mut ok = z.material_libraries.len() == x.material_libraries.len();
            for (p, q) in x.material_libraries.iter().zip(&z.material_libraries) {
                ok &= beq(p.as_bytes(), q.as_bytes());
            }
            for (p, q) in x.objects.iter().chain(&y.objects).zip(&z.objects) {
                ok &= eq_object(p, q);
            }
            sx::check(ok, "objects do not depend on those before and after them");
        }
        (Err(e), Err(f)) => {
            sx::reach("rejected");
            sx::observe(f.line_number as u64);
            sx::check(f.line_number == above + e.line_number, "the line of a fault moves with the lines before it");
            sx::check(f.kind == e.kind, "the kind of a fault does not depend on objects before it");
        }
        _ => sx::check(false, "two good files put together are accepted, and a good and a faulty one rejected"),
    }
}

pub fn line_of(d: &str) -> usize {
    let mut n = 0;
    for &b in d.as_bytes()["Parse error at line ".len()..].iter().take_while(|b| b.is_ascii_digit()) {
        n = n * 10 + (b - b'0') as usize;
    }
    n
}

/// `b` starts with a material statement.
pub fn ck_mtl_concat(a: Vec<u8>, b: Vec<u8>) {
    let above = line_at(&a, a.len()) - 1;
    let mut v = a.clone();
    v.extend_from_slice(&b);
    let (a, b, v) = (exact(a), exact(b), exact(v));
    let x = match mtl::parse(&a) {
        Ok(x) => x,
        Err(_) => return,
    };
    match (mtl::parse(&b), mtl::parse(&v)) {
        (Ok(y), Ok(z)) => {
            sx::reach("accepted");
            let (m, n) = (x.materials.len(), y.materials.len());
            sx::observe((m + n) as u64);
            sx::check(z.materials.len() == m + n, "the materials of two files put together are those of both");
            let mut ok = true;
            for (p, q) in x.materials.iter().chain(&y.materials).zip(&z.materials) {
                ok &= eq_material(p, q);
            }
            sx::check(ok, "materials do not depend on those before and after them");
        }
        (Err(e), Err(f)) => {
            sx::reach("rejected");
            let (e, f) = (format!("{}", e), format!("{}", f));
            sx::observe(f.len() as u64);
            sx::check(line_of(&f) == above + line_of(&e), "the line of a fault moves with the lines before it");
        }
        _ => sx::check(false, "two good files put together are accepted, and a good and a faulty one rejected"),
    }
}

const OBJ_A: [&str; 12] = [
    "\n", "# c\r\n", "mtllib a b\n", "o a\n", "v 1 2 3\np 1\n", "g a b\nv 1 2 3\nf 1 1 1\n", "v 1 2 3\ns 3\nusemtl x\nl 1 1\n", "o a\nv 1 2 3\ng c\n",
    "o a\nv 0 0 0\nvt 0\nvn 0 0 0\ns 5\nusemtl y\ng q\nf 1/1/1 1/1/1 1/1/1 1/1/1\n\n\n", "vt 0\no a\nv 0 0 0\nusemtl z\n", "s 2\n", "mtllib c\no a\no b\nvn 0 0 0\ng\ns off\n",
];
const OBJ_B: [&str; 12] = [
    "@", "@\nv 0 0 0\np -1\n", "g @\nv 0 0 0\np -1\n", "usemtl @\nv 0 0 0\np -1\n", "s @\n", "v 0 0 0\np -1\n@\np -1\n", "v 0 0 0\nvt 0\nf -1/-1 -1/-1 -1/-1\n@",
    "v 0 0 0\nvn 0 0 0\nl -1//-1 -1//-1\no @\nv 0 0 0\np -1\n", "vt 0 @\n", "v 0 0 0\np -1 @\n", "v 0 0 0\nl -1 -1\no d\nv 0 0 0\ng @\np -1\n", "v 0 0 @",
];

fn no_digits(t: &str, n: usize) -> Vec<u8> {
    let mut v = Vec::new();
    for &b in t.as_bytes() {
        if b == b'@' {
            let at = v.len();
            total::ascii(&mut v, n);
            for &b in &v[at..] {
                sx::assume((b < b'0') | (b > b'9'));
            }
        } else {
            v.push(b);
        }
    }
    v
}

/// params: 0 listed first part / n arbitrary bytes, bytes in the second part
pub fn h_concat() {
    let mut a = Vec::new();
    let n = sx::param(0) as usize;
    if n == 0 {
        s(&mut a, OBJ_A[sx::choose(12) as usize]);
    } else {
        total::raw(&mut a, n);
        total::utf8(&a);
        a.push(b'\n');
    }
    let mut b = tok("o ");
    b.push(sx::name_byte());
    s(&mut b, ["\n", " # c\r\n\n"][sx::choose(2) as usize]);
    b.extend_from_slice(&no_digits(OBJ_B[sx::choose(12) as usize], sx::param(1) as usize));
    ck_concat(a, b);
}

const MTL_B: [&str; 10] = [
    "@", "@\nd 1\n", "Ka 1 1 @\n", "d @\n", "map_Kd @\n", "illum @", "bump x\nnewmtl @\nKs 0 0 0\n", "Ni 1\n@\n", "newmtl d\nKe 1 0 0\nmap_d y\n@", "Ns 1\ndecal @",
];
const MTL_A: [&str; 8] = [
    "\n", "# c\r\n", "newmtl a\n", "newmtl a\nKa 1 1 1\nKd 1 1 1\nKs 1 1 1\nKe 1 1 1\n", "newmtl a\nd 1\nNi 2\nNs 3\nillum 1\n\n\n", "newmtl a\nmap_Ka x\nmap_Kd x\nmap_Ks x\nmap_Ke x\nmap_Ns x\nmap_d x\nbump x\ndisp x\ndecal x\n",
    "newmtl a\nnewmtl a\nillum 0\n", "newmtl a # c\r\nNi 1 \r\r",
];

pub fn h_mtl_concat() {
    let mut a = Vec::new();
    let n = sx::param(0) as usize;
    if n == 0 {
        s(&mut a, MTL_A[sx::choose(8) as usize]);
    } else {
        s(&mut a, "newmtl ");
        total::raw(&mut a, n);
        total::utf8(&a);
        a.push(b'\n');
    }
    let mut b = tok("newmtl ");
    b.push(sx::name_byte());
    s(&mut b, ["\n", " # c\r\n\n"][sx::choose(2) as usize]);
    b.extend_from_slice(&total::fill(MTL_B[sx::choose(10) as usize], sx::param(1) as usize));
    ck_mtl_concat(a, b);
}

/// params: statements, number of files
pub fn h_mix_concat() {
    let k = sx::choose(sx::param(1) as u32) as u64;
    let n = sx::param(0) as usize;
    let mut r = mix::Rng::new(k + 11);
    let (libs, g) = mix::file(k, n);
    let mut a = Vec::new();
    mix::layout(&mix::lines(&libs, &g), k, &mut a);
    s(&mut a, "\n");
    let mut b = tok("o ");
    b.extend_from_slice(&name(2));
    s(&mut b, "\n");
    let (_, g) = mix::file_of(k + 1, 1 + r.below(n), true);
    mix::layout(&mix::lines(&[], &g), k + 1, &mut b);
    if r.below(4) == 0 {
        s(&mut b, ["x", "f -1 -1", "v 0", "o"][r.below(4)]);
    }
    ck_concat(a, b);
}

pub fn h_mtl_mix_concat() {
    let k = sx::choose(sx::param(1) as u32) as u64;
    let n = sx::param(0) as usize;
    let mut r = mix::Rng::new(k + 11);
    let (l, _) = mat::mix(k, n);
    let mut a = mat::lay(&l, k, true);
    s(&mut a, "\n");
    let (l, _) = mat::mix(k + 1, 1 + r.below(n));
    // the first line is a material statement; blank lines may stand before it
    let mut b = mat::lay(&l, k + 1, true);
    if r.below(4) == 0 {
        s(&mut b, ["x", "Ka 1 1", "d", "illum 7"][r.below(4)]);
    }
    ck_mtl_concat(a, b);
}

// ------------------------------------------------------------------ equality

fn f() -> f64 {
    f64::from_bits(sx::u64())
}

fn u() -> usize {
    sx::u64() as usize
}

fn ix(k: u32) -> (obj::VTNIndex, [usize; 3]) {
    let p = [u(), u(), u()];
    let i = match k {
        0 => obj::VTNIndex::V(p[0]),
        1 => obj::VTNIndex::VT(p[0], p[1]),
        2 => obj::VTNIndex::VN(p[0], p[2]),
        _ => obj::VTNIndex::VTN(p[0], p[1], p[2]),
    };
    (i, p)
}

fn eq_ix(j: u32, k: u32, p: [usize; 3], q: [usize; 3]) -> bool {
    (j == k) & (p[0] == q[0]) & ((p[1] == q[1]) | (j == 0) | (j == 2)) & ((p[2] == q[2]) | (j == 0) | (j == 1))
}

fn string(t: &[u8]) -> String {
    unsafe { String::from_utf8_unchecked(t.to_vec()) }
}

fn opt(a: &Option<String>, b: &Option<String>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(c), Some(d)) => beq(c.as_bytes(), d.as_bytes()),
        _ => false,
    }
}

/// Two objects with arbitrary entries in one of their lists, and whether they are equal.
fn objects() -> (obj::Object, obj::Object, bool) {
    let mut base = obj::Object {
        name: String::from("o"),
        vertex_set: vec![obj::Vertex { x: 1.0, y: 2.0, z: 3.0, w: 1.0 }],
        texture_vertex_set: vec![],
        normal_vertex_set: vec![obj::NormalVertex { x: 1.0, y: 2.0, z: 3.0 }],
        group_set: vec![obj::Group(String::from("g"))],
        smoothing_group_set: vec![obj::SmoothingGroup(1)],
        element_set: vec![],
        shape_set: vec![obj::ShapeEntry { element: 0, groups: vec![0], smoothing_group: 0 }],
        geometry_set: vec![],
    };
    if sx::flip() {
        base = obj::Object::default();
    }
    let (mut a, mut b) = (base.clone(), base);
    let (m, n) = (sx::choose(3) as usize, sx::choose(3) as usize);
    let mut w = m == n;
    // pairs of values, the latter as many as the lists have
    let p: Vec<u64> = (0..m).map(|_| sx::u64()).collect();
    let q: Vec<u64> = (0..n).map(|_| sx::u64()).collect();
    let ints = |p: &[u64], q: &[u64]| p.iter().zip(q).fold(true, |r, (x, y)| r & (x == y));
    let floats = |p: &[u64], q: &[u64]| p.iter().zip(q).fold(true, |r, (&x, &y)| r & (f64::from_bits(x) == f64::from_bits(y)));
    match sx::choose(9) {
        0 => {
            let f = |p: &[u64]| p.iter().map(|&x| obj::Vertex { x: 0.0, y: f64::from_bits(x), z: 1.0, w: 1.0 }).collect();
            w &= floats(&p, &q);
            a.vertex_set = f(&p);
            b.vertex_set = f(&q);
        }
        1 => {
            let f = |p: &[u64]| p.iter().map(|&x| obj::TextureVertex { u: 0.0, v: f64::from_bits(x), w: 1.0 }).collect();
            w &= floats(&p, &q);
            a.texture_vertex_set = f(&p);
            b.texture_vertex_set = f(&q);
        }
        2 => {
            let f = |p: &[u64]| p.iter().map(|&x| obj::NormalVertex { x: 0.0, y: f64::from_bits(x), z: 1.0 }).collect();
            w &= floats(&p, &q);
            a.normal_vertex_set = f(&p);
            b.normal_vertex_set = f(&q);
        }
        3 => {
            let c: Vec<Tok> = (0..m).map(|_| name(1)).collect();
            let d: Vec<Tok> = (0..n).map(|_| name(1)).collect();
            for (x, y) in c.iter().zip(&d) {
                w &= beq(x, y);
            }
            a.group_set = c.iter().map(|t| obj::Group(string(t))).collect();
            b.group_set = d.iter().map(|t| obj::Group(string(t))).collect();
        }
        4 => {
            w &= ints(&p, &q);
            a.smoothing_group_set = p.iter().map(|&x| obj::SmoothingGroup(x as usize)).collect();
            b.smoothing_group_set = q.iter().map(|&x| obj::SmoothingGroup(x as usize)).collect();
        }
        5 => {
            w &= ints(&p, &q);
            let f = |p: &[u64]| p.iter().map(|&x| obj::Element::Point(obj::VTNIndex::V(x as usize))).collect();
            a.element_set = f(&p);
            b.element_set = f(&q);
        }
        6 => {
            w &= ints(&p, &q);
            let f = |p: &[u64]| p.iter().map(|&x| obj::ShapeEntry { element: 0, groups: vec![x as usize], smoothing_group: 0 }).collect();
            a.shape_set = f(&p);
            b.shape_set = f(&q);
        }
        7 => {
            w &= ints(&p, &q);
            let f = |p: &[u64]| p.iter().map(|&x| obj::Geometry { material_name: None, shapes: vec![x as usize] }).collect();
            a.geometry_set = f(&p);
            b.geometry_set = f(&q);
        }
        _ => {
            let (c, d) = (name(m), name(n));
            w &= beq(&c, &d);
            a.name = string(&c);
            b.name = string(&d);
        }
    }
    (a, b, w)
}

fn color() -> mtl::Color {
    mtl::Color { r: f(), g: f(), b: f() }
}

fn eq_color(a: &mtl::Color, b: &mtl::Color) -> bool {
    (a.r == b.r) & (a.g == b.g) & (a.b == b.b)
}

/// Two materials with one arbitrary part, and whether they are equal.
fn materials() -> (mtl::Material, mtl::Material, bool) {
    let c = mtl::Color { r: 0.5, g: 0.0, b: 1.0 };
    let some = || if sx::param(0) == 0 { None } else { Some(String::from("x")) };
    let mut a = mtl::Material {
        name: String::from("m"),
        color_ambient: c,
        color_diffuse: c,
        color_specular: c,
        color_emissive: c,
        specular_exponent: 1.0,
        dissolve: 1.0,
        optical_density: None,
        illumination_model: mtl::IlluminationModel::Ambient,
        map_ambient: some(),
        map_diffuse: some(),
        map_specular: some(),
        map_emissive: some(),
        map_specular_exponent: some(),
        map_bump: some(),
        map_displacement: some(),
        map_dissolve: some(),
        map_decal: some(),
    };
    let mut b = a.clone();
    let k = sx::choose(18);
    let w = match k {
        0..=3 => {
            let (p, q) = (color(), color());
            let w = eq_color(&p, &q);
            match k {
                0 => (a.color_ambient = p, b.color_ambient = q),
                1 => (a.color_diffuse = p, b.color_diffuse = q),
                2 => (a.color_specular = p, b.color_specular = q),
                _ => (a.color_emissive = p, b.color_emissive = q),
            };
            w
        }
        4 => {
            a.specular_exponent = f();
            b.specular_exponent = f();
            a.specular_exponent == b.specular_exponent
        }
        5 => {
            a.dissolve = f();
            b.dissolve = f();
            a.dissolve == b.dissolve
        }
        6 => {
            a.optical_density = if sx::flip() { Some(f()) } else { None };
            b.optical_density = if sx::flip() { Some(f()) } else { None };
            match (a.optical_density, b.optical_density) {
                (Some(x), Some(y)) => x == y,
                (None, None) => true,
                _ => false,
            }
        }
        7 => {
            let m = [mtl::IlluminationModel::Ambient, mtl::IlluminationModel::AmbientDiffuse, mtl::IlluminationModel::AmbientDiffuseSpecular];
            let (i, j) = (sx::choose(3) as usize, sx::choose(3) as usize);
            a.illumination_model = m[i];
            b.illumination_model = m[j];
            i == j
        }
        8 => {
            let (p, q) = (name(sx::choose(3) as usize), name(sx::choose(3) as usize));
            a.name = string(&p);
            b.name = string(&q);
            beq(&p, &q)
        }
        _ => {
            let pick = |k: u32| if k == 0 { None } else { Some(string(&name(k as usize - 1))) };
            let (p, q) = (pick(sx::choose(4)), pick(sx::choose(4)));
            let w = opt(&p, &q);
            match k {
                9 => (a.map_ambient = p, b.map_ambient = q),
                10 => (a.map_diffuse = p, b.map_diffuse = q),
                11 => (a.map_specular = p, b.map_specular = q),
                12 => (a.map_emissive = p, b.map_emissive = q),
                13 => (a.map_specular_exponent = p, b.map_specular_exponent = q),
                14 => (a.map_bump = p, b.map_bump = q),
                15 => (a.map_displacement = p, b.map_displacement = q),
                16 => (a.map_dissolve = p, b.map_dissolve = q),
                _ => (a.map_decal = p, b.map_decal = q),
            };
            w
        }
    };
    (a, b, w)
}

const KINDS: [obj::ErrorKind; 13] = [
    obj::ErrorKind::EndOfFile,
    obj::ErrorKind::ExpectedTagStatement,
    obj::ErrorKind::ExpectedFloat,
    obj::ErrorKind::ExpectedInteger,
    obj::ErrorKind::ExpectedVTNIndex,
    obj::ErrorKind::VTNIndexOutOfRange,
    obj::ErrorKind::EveryFaceElementMustHaveAtLeastThreeVertices,
    obj::ErrorKind::EveryVTNIndexMustHaveTheSameFormForAGivenElement,
    obj::ErrorKind::InvalidObjectStatement,
    obj::ErrorKind::ElementMustBeAPointLineOrFace,
    obj::ErrorKind::SmoothingGroupNameMustBeOffOrInteger,
    obj::ErrorKind::SmoothingGroupDeclarationHasNoName,
    obj::ErrorKind::MaterialStatementHasNoName,
];
const MTL_KINDS: [mtl::ErrorKind; 7] = [
    mtl::ErrorKind::EndOfFile,
    mtl::ErrorKind::ExpectedTagStatement,
    mtl::ErrorKind::ExpectedFloat,
    mtl::ErrorKind::ExpectedInteger,
    mtl::ErrorKind::ExpectedEndOfInput,
    mtl::ErrorKind::UnknownIlluminationModel,
    mtl::ErrorKind::ErrorParsingMaterial,
];

/// Values with arbitrary parts are equal exactly if their parts are.
pub fn h_eq() {
    let (got, want) = match sx::choose(17) {
        12 => {
            let (j, k) = (sx::choose(13) as usize, sx::choose(13) as usize);
            let (m, n) = (sx::choose(3) as usize, sx::choose(3) as usize);
            let (p, q) = (name(m), name(n));
            let make = |j: usize, t: &Tok| obj::ParseError { line_number: u(), kind: KINDS[j].clone(), message: string(t) };
            let (a, b) = (make(j, &p), make(k, &q));
            let w = (j == k) & (a.line_number == b.line_number) & beq(&p, &q);
            (a == b, w)
        }
        13 => {
            let (m, n) = (sx::choose(2) as usize, sx::choose(2) as usize);
            let (j, k) = (sx::choose(2) as usize, sx::choose(2) as usize);
            let make = |m: usize, j: usize| obj::Shape {
                element: obj::Element::Point(obj::VTNIndex::V(u())),
                groups: (0..m).map(|_| obj::Group(string(&name(1)))).collect(),
                smoothing_groups: (0..j).map(|_| obj::SmoothingGroup(u())).collect(),
            };
            let at = |s: &obj::Shape| match s.element {
                obj::Element::Point(obj::VTNIndex::V(v)) => v,
                _ => 0,
            };
            let (a, b) = (make(m, j), make(n, k));
            let mut w = (m == n) & (j == k) & (at(&a) == at(&b));
            for (p, q) in a.groups.iter().zip(&b.groups) {
                w &= beq(p.0.as_bytes(), q.0.as_bytes());
            }
            for (p, q) in a.smoothing_groups.iter().zip(&b.smoothing_groups) {
                w &= p.0 == q.0;
            }
            (a == b, w)
        }
        14 => {
            let v = || obj::Vertex { x: f(), y: f(), z: f(), w: f() };
            let vt = || obj::TextureVertex { u: f(), v: f(), w: f() };
            let vn = || obj::NormalVertex { x: f(), y: f(), z: f() };
            let (a, b) = ((v(), vt(), vn()), (v(), vt(), vn()));
            let (j, k) = (sx::choose(4), sx::choose(4));
            fn make<'a>(k: u32, d: &'a (obj::Vertex, obj::TextureVertex, obj::NormalVertex)) -> obj::VTNTriple<'a> {
                match k {
                    0 => obj::VTNTriple::V(&d.0),
                    1 => obj::VTNTriple::VT(&d.0, &d.1),
                    2 => obj::VTNTriple::VN(&d.0, &d.2),
                    _ => obj::VTNTriple::VTN(&d.0, &d.1, &d.2),
                }
            }
            let (p, q) = ((a.0, a.1, a.2), (b.0, b.1, b.2));
            let mut w = (j == k) & (p.0.x == q.0.x) & (p.0.y == q.0.y) & (p.0.z == q.0.z) & (p.0.w == q.0.w);
            if j == 1 || j == 3 {
                w &= (p.1.u == q.1.u) & (p.1.v == q.1.v) & (p.1.w == q.1.w);
            }
            if j >= 2 {
                w &= (p.2.x == q.2.x) & (p.2.y == q.2.y) & (p.2.z == q.2.z);
            }
            (make(j, &a) == make(k, &b), w)
        }
        15 => {
            if sx::flip() {
                let (j, k) = (sx::choose(13) as usize, sx::choose(13) as usize);
                (KINDS[j] == KINDS[k], j == k)
            } else {
                let (j, k) = (sx::choose(7) as usize, sx::choose(7) as usize);
                (MTL_KINDS[j] == MTL_KINDS[k], j == k)
            }
        }
        16 => {
            // an order, where there is one, agrees with equality
            use std::cmp::Ordering;
            if sx::flip() {
                let (a, b) = (color(), color());
                let (c, d) = (a.partial_cmp(&b), b.partial_cmp(&a));
                sx::check((c == Some(Ordering::Less)) == (d == Some(Ordering::Greater)), "an order is antisymmetric");
                (c == Some(Ordering::Equal), eq_color(&a, &b))
            } else {
                let m = [mtl::IlluminationModel::Ambient, mtl::IlluminationModel::AmbientDiffuse, mtl::IlluminationModel::AmbientDiffuseSpecular];
                let (i, j) = (sx::choose(3) as usize, sx::choose(3) as usize);
                sx::check((m[i] < m[j]) == (m[j] > m[i]), "an order is antisymmetric");
                sx::check(m[i].partial_cmp(&m[j]) == Some(m[i].cmp(&m[j])), "the two orders agree");
                (m[i].cmp(&m[j]) == Ordering::Equal, i == j)
            }
        }
        0 => {
            let a = obj::Vertex { x: f(), y: f(), z: f(), w: f() };
            let b = obj::Vertex { x: f(), y: f(), z: f(), w: f() };
            (a == b, (a.x == b.x) & (a.y == b.y) & (a.z == b.z) & (a.w == b.w))
        }
        1 => {
            let a = obj::TextureVertex { u: f(), v: f(), w: f() };
            let b = obj::TextureVertex { u: f(), v: f(), w: f() };
            (a == b, (a.u == b.u) & (a.v == b.v) & (a.w == b.w))
        }
        2 => {
            let a = obj::NormalVertex { x: f(), y: f(), z: f() };
            let b = obj::NormalVertex { x: f(), y: f(), z: f() };
            (a == b, (a.x == b.x) & (a.y == b.y) & (a.z == b.z))
        }
        3 => {
            let (j, k) = (sx::choose(4), sx::choose(4));
            let ((a, p), (b, q)) = (ix(j), ix(k));
            (a == b, eq_ix(j, k, p, q))
        }
        4 => {
            let (j, k, m, n) = (sx::choose(3), sx::choose(3), sx::choose(4), sx::choose(4));
            let make = |j: u32, m: u32| {
                let ((a, p), (b, q), (c, r)) = (ix(m), ix(m), ix(m));
                let e = match j {
                    0 => obj::Element::Point(a),
                    1 => obj::Element::Line(a, b),
                    _ => obj::Element::Face(a, b, c),
                };
                (e, [p, q, r])
            };
            let ((a, p), (b, q)) = (make(j, m), make(k, n));
            let mut w = (j == k) & eq_ix(m, n, p[0], q[0]);
            for i in 1..3 {
                w &= (i as u32 > j) | eq_ix(m, n, p[i], q[i]);
            }
            (a == b, w)
        }
        5 => {
            let (a, b) = (u(), u());
            (obj::SmoothingGroup(a) == obj::SmoothingGroup(b), a == b)
        }
        6 => {
            let a = mtl::Color { r: f(), g: f(), b: f() };
            let b = mtl::Color { r: f(), g: f(), b: f() };
            (a == b, (a.r == b.r) & (a.g == b.g) & (a.b == b.b))
        }
        7 => {
            let (m, n) = (sx::choose(4) as usize, sx::choose(4) as usize);
            let (p, q) = (name(m), name(n));
            let (a, b) = (obj::Group(string(&p)), obj::Group(string(&q)));
            (a == b, beq(&p, &q))
        }
        8 => {
            let (m, n) = (sx::choose(3) as usize, sx::choose(3) as usize);
            let (j, k) = (sx::choose(4), sx::choose(4));
            let make = |j: u32, n: usize| obj::Geometry {
                material_name: if j == 0 { None } else { Some(string(&name(j as usize - 1))) },
                shapes: (0..n).map(|_| u()).collect(),
            };
            let (a, b) = (make(j, m), make(k, n));
            let mut w = (m == n) & opt(&a.material_name, &b.material_name);
            if m == n {
                for i in 0..n {
                    w &= a.shapes[i] == b.shapes[i];
                }
            }
            (a == b, w)
        }
        9 => {
            let (a, b, w) = objects();
            let eq = a == b;
            let lib = |t: &str| vec![String::from("l"), String::from(t)];
            let set = |o: &obj::Object, t: &str| obj::ObjectSet { material_libraries: lib(t), objects: vec![obj::Object::default(), o.clone()] };
            sx::check((set(&a, "m") == set(&b, "m")) == w, "object sets are equal exactly if their objects are");
            sx::check(set(&a, "m") != set(&b, "M"), "object sets of different libraries are not equal");
            (eq, w)
        }
        10 => {
            let (a, b, w) = materials();
            let eq = a == b;
            let set = |m: &mtl::Material| mtl::MaterialSet { materials: vec![m.clone(), m.clone()] };
            sx::check((set(&a) == set(&b)) == w, "material sets are equal exactly if their materials are");
            (eq, w)
        }
        _ => {
            let (m, n) = (sx::choose(3) as usize, sx::choose(3) as usize);
            let make = |n: usize| obj::ShapeEntry { element: u(), groups: (0..n).map(|_| u()).collect(), smoothing_group: u() };
            let (a, b) = (make(m), make(n));
            let mut w = (m == n) & (a.element == b.element) & (a.smoothing_group == b.smoothing_group);
            if m == n {
                for i in 0..n {
                    w &= a.groups[i] == b.groups[i];
                }
            }
            (a == b, w)
        }
    };
    sx::reach("compared");
    sx::observe(got as u64);
    sx::check(got == want, "values are equal exactly if their parts are");
}

const SAME_OBJ: [&str; 6] = [
    "mtllib a@\no b@\nv 0 @ 0\nvt 0 @\nvn @ 0 0\ng c@ d\ns @\nusemtl e@\nf 1/1/1 1/1/1 1/1/1\n",
    "v 1 2 3 $\nv 1.$ 0 0\nvt @ 1 1\nvt 0 0 .$\nvn 0 0 1e$\nv 0 0 1e-1$\nv 10000000000.0$ 0 0\n",
    "o a\nv 0 0 0\nv 0 0 0\nv 0 0 0\nv 0 0 0\nv 0 0 0\nv 0 0 0\nv 0 0 0\nv 0 0 0\nv 0 0 0\np @\nl 1 @\nl @ 1\nf 1 1 @\nf 1 @ 1\n",
    "v 0 0 0\np 1\ng g@\np 1\ns @\np 1\nusemtl m@\np 1\no o@\nv 0 0 0\ns 1@\np -1\n",
    "mtllib x\no a\nv 0 0 0\no b\nv 0 0 0\no c@\n",
    "v 0 0 0\ng a@ b@ c@\np 1\nusemtl ab@\np 1\nusemtl ab@\np 1\n",
];
const SAME_MTL: [&str; 3] = [
    "newmtl a@\nKa @ 0 0\nKd 0 @ 0\nKs 0 0 @\nKe @ 0 0\nd 0.$\nNs @\nNi 1.$\nillum 1\n",
    "newmtl a\nmap_Ka x@\nmap_Kd x@\nmap_Ks x@\nmap_Ke x@\nmap_Ns x@\nmap_d x@\nbump x@\ndisp x@\ndecal x@\n",
    "newmtl a\nnewmtl b@\nNi 1000000000.0$\nnewmtl c\nKe 0 0 1e-1$\nKa 0 0 -0.$\n",
];
/// Files with a fault.
const BAD_OBJ: [&str; 12] = [
    "foo@\n", "v 0 0 0\n\nbar@", "v 0 0 x@", "vt y@ 0\n", "o a\nv 0 0 0\np z@\n", "v 0 0 0\nf 1 1 1@\n", "v 0 0 0\nl 1 -@\n", "s t@\n", "g a\nq 1@ 2\n", "v 0 0 0\nf 1/@/@/1 1 1\n", "v 0 0 0\nl 1 @x/1\n", "o a b@\n",
];
const BAD_MTL: [&str; 8] = ["foo@\n", "newmtl a\n\nbar@", "newmtl a\nKa 0 0 x@", "newmtl a\nd y@\n", "newmtl a\nillum z@\n", "newmtl a\nillum @3\n", "newmtl a\nmap_Kd a b@\n", "\n\nKa@"];
/// Added to a file, these make it a different one.
const MORE_OBJ: [&str; 8] = ["v 0 0 0\n", "vt 0\n", "vn 0 0 0\n", "g q\n", "o q\n", "p -1\n", "s 77\nv 1 1 1\np -1\n", "v 0 0 0\nusemtl q\np -1\n"];
const MORE_MTL: [&str; 14] = [
    "newmtl q\n", "Ni 7\n", "d 7\n", "Ns 77\n", "illum 0\n", "map_Ka q\n", "map_Kd q\n", "map_Ks q\n", "map_Ke q\n", "map_Ns q\n", "map_d q\n", "bump q\n", "disp q\n", "decal q\n",
];

/// Two texts: the same but for one digit, or with one statement more.
/// params: 0 OBJ / 1 MTL
pub fn h_eq_sets() {
    let is_mtl = sx::param(0) == 1;
    let bad = sx::flip();
    let t = match (bad, is_mtl) {
        (false, true) => SAME_MTL[sx::choose(3) as usize],
        (false, false) => SAME_OBJ[sx::choose(6) as usize],
        (true, true) => BAD_MTL[sx::choose(8) as usize],
        (true, false) => BAD_OBJ[sx::choose(12) as usize],
    };
    let holes = t.bytes().filter(|&b| b == b'@' || b == b'$').count();
    let at = sx::choose(holes as u32 + !bad as u32) as usize;
    let more = at == holes;
    let (mut a, mut b) = (Vec::new(), Vec::new());
    let mut seen = 0;
    for &c in t.as_bytes() {
        if c != b'@' && c != b'$' {
            a.push(c);
            b.push(c);
            continue;
        }
        if seen == at && c == b'$' {
            let k = sx::choose(4) as usize;
            a.push(b"1123"[k]);
            b.push(b"1294"[k]);
        } else if seen == at {
            a.push(sx::byte_in(b'1', b'9'));
            b.push(sx::byte_in(b'1', b'9'));
        } else {
            a.push(b'1');
            b.push(b'1');
        }
        seen += 1;
    }
    if more {
        if is_mtl {
            s(&mut b, MORE_MTL[sx::choose(14) as usize]);
        } else {
            s(&mut b, MORE_OBJ[sx::choose(8) as usize]);
        }
    }
    let (a, b) = (exact(a), exact(b));
    let (got, want) = if is_mtl {
        match (mtl::parse(&a), mtl::parse(&b)) {
            (Ok(x), Ok(y)) => {
                let mut w = x.materials.len() == y.materials.len();
                for (p, q) in x.materials.iter().zip(&y.materials) {
                    w &= eq_material(p, q);
                }
                let c = x.clone();
                sx::check(c == x && x == c, "a copy equals the original");
                sx::check((y == x) == (x == y), "equality is symmetric");
                (x == y, w)
            }
            (Err(x), Err(y)) => (x == y, beq(format!("{:?}", x).as_bytes(), format!("{:?}", y).as_bytes())),
            _ => return,
        }
    } else {
        match (obj::parse(&a), obj::parse(&b)) {
            (Ok(x), Ok(y)) => {
                let c = x.clone();
                sx::check(c == x && x == c, "a copy equals the original");
                sx::check((y == x) == (x == y), "equality is symmetric");
                (x == y, eq_sets(&x, &y))
            }
            (Err(x), Err(y)) => {
                (x == y, (x.line_number == y.line_number) & (x.kind == y.kind) & beq(x.message.as_bytes(), y.message.as_bytes()))
            }
            _ => return,
        }
    };
    sx::reach("compared");
    sx::observe(got as u64);
    sx::check(got == want, "results are equal exactly if their parts are");
    if more {
        sx::check(!got, "results of different content are not equal");
    }
}

// ------------------------------------------------------------------ pairs of materials

const PROP: [(&str, &str); 18] = [
    ("Ka", " 0.5 @ 1"), ("Kd", " 0.5 @ 1"), ("Ks", " 0.5 @ 1"), ("Ke", " 0.5 @ 1"), ("Ns", " 1@"), ("d", " 0.@"), ("Ni", " 1.@"), ("illum", " 1"), ("map_Ka", " x@"), ("map_Kd", " x@"),
    ("map_Ks", " x@"), ("map_Ke", " x@"), ("map_Ns", " x@"), ("map_Bump", " x@"), ("disp", " x@"), ("map_d", " x@"), ("decal", " x@"), ("illum", " 0"),
];

/// Two materials with the same values.
/// params: 0 all properties, in the second all but one / 1 all but two
/// / 2 two properties, in the second one / 3 one, in the second another two
pub fn h_mtl_pair() {
    let what = sx::param(0);
    let d = sx::byte_in(b'1', b'9');
    let put = |v: &mut Vec<u8>, i: usize| {
        s(v, PROP[i].0);
        for &b in PROP[i].1.as_bytes() {
            v.push(if b == b'@' { d } else { b });
        }
        v.push(b'\n');
    };
    let (i, j) = (sx::choose(17) as usize, sx::choose(18) as usize);
    let (mut a, mut b) = (tok("newmtl m\n"), tok("newmtl "));
    s(&mut b, ["m\n", "n\n"][sx::choose(2) as usize]);
    match what {
        0 | 1 => {
            sx::assume(what == 1 || j == 17);
            for k in 0..17 {
                put(&mut a, k);
                if k != i && k != j {
                    put(&mut b, k);
                }
            }
        }
        2 => {
            sx::assume(i != j);
            put(&mut a, i);
            put(&mut a, j);
            put(&mut b, if sx::flip() { i } else { j });
        }
        _ => {
            put(&mut a, i);
            put(&mut b, j);
            put(&mut b, sx::choose(18) as usize);
        }
    }
    if sx::flip() {
        // a third without any
        s(&mut b, "newmtl o\n");
    }
    ck_mtl_concat(a, b);
}

const LINE: [&str; 12] = [
    "v 0 0 @", "vt 0 @", "vn 0 0 @", "p -1", "l -1 -1 -1", "f -1 -1 -1", "g a@", "g a@ b", "g", "s @", "s off", "usemtl m@",
];

/// Two objects of the same name, the second without some of the statements of
/// the first.  params: statements
pub fn h_obj_pair() {
    let d = sx::byte_in(b'1', b'9');
    let n = sx::param(0) as usize;
    let put = |v: &mut Vec<u8>, t: &str| {
        for &b in t.as_bytes() {
            v.push(if b == b'@' { d } else { b });
        }
        v.push(b'\n');
    };
    let (mut a, mut b) = (tok("o m\nv 0 0 0\n"), tok("o "));
    s(&mut b, ["m\nv 0 0 0\n", "n\nv 0 0 0\n"][sx::choose(2) as usize]);
    let skip = sx::choose(n as u32 + 1) as usize;
    for i in 0..n {
        let t = LINE[sx::choose(12) as usize];
        put(&mut a, t);
        if i != skip {
            put(&mut b, t);
        }
    }
    s(&mut a, "p -1\n");
    s(&mut b, "p -1\n");
    ck_concat(a, b);
}
