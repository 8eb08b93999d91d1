//! Looking up and comparing indices (C20, C21), display (C22, C24).

use super::index::digits;
use super::model::*;
use super::seq::{any_name, name};
use super::sx;
use wavefront_obj::obj::*;

fn index(form: u32, a: usize, b: usize, c: usize) -> VTNIndex {
    match form {
        0 => VTNIndex::V(a),
        1 => VTNIndex::VT(a, b),
        2 => VTNIndex::VN(a, c),
        _ => VTNIndex::VTN(a, b, c),
    }
}

const SIZE: [usize; 5] = [0, 1, 2, 3, 5];

/// Symbolic 64-bit indices into objects of several sizes.
pub fn h_lookup() {
    let nv = SIZE[sx::choose(5) as usize];
    let nt = SIZE[sx::choose(5) as usize];
    let nn = SIZE[sx::choose(5) as usize];
    let mut o = Object::default();
    for i in 0..nv {
        o.vertex_set.push(Vertex { x: i as f64, y: 0.0, z: 0.0, w: 1.0 });
    }
    for i in 0..nt {
        o.texture_vertex_set.push(TextureVertex { u: i as f64, v: 0.0, w: 0.0 });
    }
    for i in 0..nn {
        o.normal_vertex_set.push(NormalVertex { x: i as f64, y: 0.0, z: 0.0 });
    }
    look(&o, sx::choose(4), sx::u64() as usize, sx::u64() as usize, sx::u64() as usize);
}

fn look(o: &Object, f: u32, a: usize, b: usize, c: usize) {
    let (nv, nt, nn) = (o.vertex_set.len(), o.texture_vertex_set.len(), o.normal_vertex_set.len());
    let inside = (a < nv) & ((f & 1 == 0) | (b < nt)) & ((f & 2 == 0) | (c < nn));
    let r = o.get_vtn_triple(index(f, a, b, c));
    match r {
        None => {
            sx::observe(0);
            sx::check(!inside, "an index within range is found");
            sx::reach("out of range");
        }
        Some(x) => {
            sx::observe(1);
            sx::reach("found");
            sx::check(inside, "an index out of range is not found");
            let form = match x {
                VTNTriple::V(_) => 0,
                VTNTriple::VT(_, _) => 1,
                VTNTriple::VN(_, _) => 2,
                VTNTriple::VTN(_, _, _) => 3,
            };
            sx::check(form == f, "the result has the form of the index");
            let (v, t, n) = match x {
                VTNTriple::V(v) => (v, None, None),
                VTNTriple::VT(v, t) => (v, Some(t), None),
                VTNTriple::VN(v, n) => (v, None, Some(n)),
                VTNTriple::VTN(v, t, n) => (v, Some(t), Some(n)),
            };
            sx::check(std::ptr::eq(v, &o.vertex_set[a]), "the vertex is the one denoted");
            if let Some(t) = t {
                sx::check(std::ptr::eq(t, &o.texture_vertex_set[b]), "the texture vertex is the one denoted");
            }
            if let Some(n) = n {
                sx::check(std::ptr::eq(n, &o.normal_vertex_set[c]), "the normal is the one denoted");
            }
        }
    }
}

/// A large object, the index of three symbolic digits.
pub fn h_lookup_big() {
    let n = sx::param(0) as usize;
    let mut o = Object::default();
    for i in 0..n {
        o.vertex_set.push(Vertex { x: i as f64, y: 0.0, z: 0.0, w: 1.0 });
        if i % 2 == 0 {
            o.texture_vertex_set.push(TextureVertex { u: i as f64, v: 0.0, w: 0.0 });
        }
        if i % 3 == 0 {
            o.normal_vertex_set.push(NormalVertex { x: i as f64, y: 0.0, z: 0.0 });
        }
    }
    let f = sx::choose(4);
    let at = |m: usize| match sx::choose(6) {
        0 => 0,
        1 => m - 1,
        2 => m,
        3 => m / 2,
        4 => m + 1,
        _ => usize::MAX,
    };
    let (a, b, c) = (at(n), at(o.texture_vertex_set.len()), at(o.normal_vertex_set.len()));
    look(&o, f, a, b, c);
}

/// Forms of two indices with arbitrary parts.
pub fn h_form() {
    let f = sx::choose(4);
    let g = sx::choose(4);
    let x = index(f, sx::u64() as usize, sx::u64() as usize, sx::u64() as usize);
    let y = index(g, sx::u64() as usize, sx::u64() as usize, sx::u64() as usize);
    let r = x.has_same_type_as(&y);
    sx::observe(r as u64);
    sx::reach(if f == g { "same" } else { "different" });
    sx::check(r == (f == g), "indices compare by form alone");
    sx::check(y.has_same_type_as(&x) == r, "the comparison is symmetric");
    sx::check(x.has_same_type_as(&x) && y.has_same_type_as(&y.clone()), "the comparison is reflexive");
}

// ------------------------------------------------------------------ display

/// The words of a text.
fn words(t: &[u8]) -> Vec<&[u8]> {
    let mut r = Vec::new();
    let mut i = 0;
    while i < t.len() {
        if t[i] == b' ' || t[i] == b'\t' {
            i += 1;
            continue;
        }
        let a = i;
        while i < t.len() && t[i] != b' ' && t[i] != b'\t' {
            i += 1;
        }
        r.push(&t[a..i]);
    }
    r
}

/// A number below 10^n with its decimal text.
fn number(n: usize) -> (usize, Tok) {
    let mut d = digits(n);
    sx::assume((d.text[0] != b'0') | (n == 1));
    sx::assume(d.val > 0);
    (d.val as usize, std::mem::take(&mut d.text))
}

const LIMIT: &[(usize, &str)] = &[
    (9, "10"),
    (99, "100"),
    (254, "255"),
    (255, "256"),
    (999, "1000"),
    (65534, "65535"),
    (65535, "65536"),
    (4294967294, "4294967295"),
    (4294967295, "4294967296"),
    (9223372036854775806, "9223372036854775807"),
    (9223372036854775807, "9223372036854775808"),
    (18446744073709551614, "18446744073709551615"),
];

const STEM: &[usize] = &[
    10, 12, 99, 100, 409, 819, 999, 1000, 1234, 6553, 6554, 9999, 10000, 12345, 99999, 100000, 999999, 1000000, 1677721, 99999999, 123456789, 429496729, 900719925474099, 1000000000000, 1844674407370955160,
];

/// A stored index and its one-based text.
fn stored(n: usize) -> (usize, Tok) {
    if n == 10 {
        // a listed number of which the last digit is symbolic
        let k = STEM[sx::choose(STEM.len() as u32) as usize];
        let d = sx::digit();
        let mut t = tok(&k.to_string());
        t.push(d);
        (k * 10 + (d - b'0') as usize - 1, t)
    } else if n == 0 {
        let (i, t) = LIMIT[sx::choose(LIMIT.len() as u32) as usize];
        (i, tok(t))
    } else {
        let (v, t) = number(n);
        (v - 1, t)
    }
}

fn ix_of(f: u32, n: usize) -> (VTNIndex, Tok) {
    // with listed numbers, one part is such a number
    let part = if n == 10 && f > 0 { sx::choose(if f == 3 { 3 } else { 2 }) } else { 0 };
    let m = |i: u32| if n == 10 && part != i { 1 } else { n };
    let (a, at) = stored(m(0));
    let (b, bt) = if f & 1 != 0 { stored(m(1)) } else { (0, vec![]) };
    let (c, ct) = if f & 2 != 0 { stored(m(if f == 3 { 2 } else { 1 })) } else { (0, vec![]) };
    let mut t = at;
    match f {
        0 => {}
        1 => {
            t.push(b'/');
            t.extend(bt);
        }
        2 => {
            t.extend_from_slice(b"//");
            t.extend(ct);
        }
        _ => {
            t.push(b'/');
            t.extend(bt);
            t.push(b'/');
            t.extend(ct);
        }
    }
    (index(f, a, b, c), t)
}

/// params: digits of the indices (0: values at limits)
pub fn h_show_index() {
    let f = sx::choose(4);
    let (x, t) = ix_of(f, sx::param(0) as usize);
    let m = format!("{}", x);
    sx::input(&t);
    sx::observe(m.len() as u64);
    sx::reach("shown");
    sx::check(beq(m.as_bytes(), &t), "an index displays as one-based OBJ text");
}

/// params: digits
pub fn h_show_element() {
    let n = sx::param(0) as usize;
    let f = sx::choose(4);
    let g = if n == 0 || n == 10 { f } else { sx::choose(4) };
    let k = sx::choose(3);
    let mut ix = Vec::new();
    for i in 0..k + 1 {
        // indices of small size except one
        ix.push(if (n == 0 || n == 10) && i > 0 { (index(f, i as usize, 6, 7), text_small(f, i + 1)) } else { ix_of(if i == 0 { f } else { g }, n) });
    }
    let e = match k {
        0 => Element::Point(ix[0].0),
        1 => Element::Line(ix[0].0, ix[1].0),
        _ => Element::Face(ix[0].0, ix[1].0, ix[2].0),
    };
    let m = format!("{}", e);
    let w = words(m.as_bytes());
    sx::observe(m.len() as u64);
    sx::reach("shown");
    sx::check(w.len() == ix.len() + 1, "an element displays as keyword and indices");
    sx::check(beq(w[0], ["p", "l", "f"][k as usize].as_bytes()), "an element displays its keyword");
    for (a, b) in w[1..].iter().zip(&ix) {
        sx::check(beq(a, &b.1), "an element displays its indices in order");
    }
}

fn text_small(f: u32, i: u32) -> Tok {
    let a = i.to_string();
    tok(&match f {
        0 => a,
        1 => format!("{}/7", a),
        2 => format!("{}//8", a),
        _ => format!("{}/7/8", a),
    })
}

pub fn h_show_groups() {
    let n = any_name();
    let g = Group(unsafe { String::from_utf8_unchecked(n.clone()) });
    let m = format!("{}", g);
    sx::observe(m.len() as u64);
    sx::check(beq(m.as_bytes(), &n), "a group displays its name");
    let (v, t) = match sx::choose(5) {
        0 => {
            let (v, t) = number(1);
            (v, t)
        }
        4 => {
            let (i, t) = stored(10);
            (i + 1, t)
        }
        1 => number(2),
        2 => {
            let (i, t) = LIMIT[sx::choose(LIMIT.len() as u32) as usize];
            (i + 1, tok(t))
        }
        _ => (0, tok("off")),
    };
    let m = format!("{}", SmoothingGroup(v));
    sx::observe(m.len() as u64);
    sx::reach("shown");
    sx::check(beq(m.as_bytes(), &t), "a smoothing group displays its number or `off`");
}

/// Elements parsed, displayed and parsed again.
pub fn h_reparse() {
    let head = "v 0 0 0\nv 1 0 0\nv 2 0 0\nvt 0\nvt 1\nvn 0 0 0\nvn 1 0 0\nvn 2 0 0\nv 3 0 0\n";
    let f = sx::choose(4);
    let k = sx::choose(3);
    sx::assume(k > 0 || f == 0);
    let mut v: Vec<u8> = head.as_bytes().to_vec();
    v.extend_from_slice(["p", "l", "f"][k as usize].as_bytes());
    for _ in 0..k + 1 {
        v.push(b' ');
        v.push(sx::byte_in(b'1', b'4'));
        if f & 1 != 0 {
            v.push(b'/');
            v.push(sx::byte_in(b'1', b'2'));
        }
        if f == 2 {
            v.push(b'/');
        }
        if f & 2 != 0 {
            v.push(b'/');
            v.push(sx::byte_in(b'1', b'3'));
        }
    }
    v.push(b'\n');
    let t = exact(v);
    let r = parse(&t);
    let r = match r {
        Ok(r) => r,
        Err(_) => {
            sx::check(false, "a well-formed file is accepted");
            return;
        }
    };
    let e = r.objects[0].element_set[0];
    let mut u = String::from(head);
    u.push_str(&format!("{}", e));
    u.push('\n');
    let q = parse(&u);
    match q {
        Err(_) => sx::check(false, "a displayed element is OBJ text"),
        Ok(q) => {
            sx::reach("reparsed");
            sx::observe(1);
            sx::check(q.objects.len() == 1 && q.objects[0].element_set.len() == 1, "a displayed element is one element");
            let (a, b) = (parts(&e), parts(&q.objects[0].element_set[0]));
            sx::check(a.len() == b.len(), "a displayed element is of the same kind");
            for (x, y) in a.iter().zip(&b) {
                sx::check(
                    (x.0 == y.0) & (x.1[0] == y.1[0]) & (x.1[1] == y.1[1]) & (x.1[2] == y.1[2]),
                    "a displayed element is the same element",
                );
            }
        }
    }
}

/// Vertices, texture vertices and normals displayed and parsed again.
pub fn h_show_data() {
    let mut c = [[1.5f64, -2.25, 1e10, 0.1], [0.0, 0.0, 0.0, 1.0], [1.0, 0.0, 0.0, 0.0]][sx::choose(3) as usize];
    let at = sx::choose(4) as usize;
    let (f, t) = (super::lit::FIXED, super::lit::TABLE);
    let i = sx::choose((f.len() + t.len()) as u32) as usize;
    c[at] = f64::from_bits(if i < f.len() { f[i].1 } else { t[i - f.len()].1 });
    let k = sx::choose(3);
    sx::assume(k == 0 || at < 3);
    let m = match k {
        0 => format!("{}", Vertex { x: c[0], y: c[1], z: c[2], w: c[3] }),
        1 => format!("{}", TextureVertex { u: c[0], v: c[1], w: c[2] }),
        _ => format!("{}", NormalVertex { x: c[0], y: c[1], z: c[2] }),
    };
    sx::input(m.as_bytes());
    sx::observe(m.len() as u64);
    let w = words(m.as_bytes());
    sx::check(w.len() == if k == 0 { 5 } else { 4 }, "data displays all its coordinates");
    sx::check(beq(w[0], ["v", "vt", "vn"][k as usize].as_bytes()), "data displays its keyword");
    match parse(&m) {
        Err(_) => sx::check(false, "displayed data is OBJ text"),
        Ok(r) => {
            sx::reach("reparsed");
            sx::check(r.objects.len() == 1, "displayed data is one statement");
            let o = &r.objects[0];
            let (a, b, d) = (o.vertex_set.len(), o.texture_vertex_set.len(), o.normal_vertex_set.len());
            sx::check(a + b + d == 1, "displayed data is one statement");
            let got: Vec<f64> = match k {
                0 => o.vertex_set.iter().flat_map(|q| vec![q.x, q.y, q.z, q.w]).collect(),
                1 => o.texture_vertex_set.iter().flat_map(|q| vec![q.u, q.v, q.w]).collect(),
                _ => o.normal_vertex_set.iter().flat_map(|q| vec![q.x, q.y, q.z]).collect(),
            };
            sx::check(got.len() == if k == 0 { 4 } else { 3 }, "displayed data is of the same kind");
            for (x, y) in got.iter().zip(&c) {
                sx::check(x.to_bits() == y.to_bits(), "displayed coordinates read back as the same numbers");
            }
        }
    }
}

/// Where a text first occurs in another after some place, comparing a mixture of
/// symbolic and constant bytes.
fn after(t: &[u8], from: usize, x: &[u8]) -> Option<usize> {
    let mut i = from;
    while i + x.len() <= t.len() {
        if beq(&t[i..i + x.len()], x) {
            return Some(i + x.len());
        }
        i += 1;
    }
    None
}

/// Displaying whole results.
pub fn h_show_set() {
    let n = name(2);
    let mut v: Vec<u8> = Vec::new();
    if sx::flip() {
        v.extend_from_slice(b"v 1 2 3\np 1\n");
    }
    v.extend_from_slice(b"o ");
    v.extend_from_slice(&n);
    v.push(b'\n');
    let k = [sx::choose(4), sx::choose(3), sx::choose(3), sx::choose(3), sx::choose(3)];
    for i in 0..k[0] as usize {
        v.extend_from_slice([&b"v 1 2.5 -3\n"[..], b"v 4 5 6 7\n", b"v 0.125 0 9\n"][i]);
    }
    for i in 0..k[1] as usize {
        v.extend_from_slice([&b"vt 1 2\n"[..], b"vt 3\n"][i]);
    }
    for i in 0..k[2] as usize {
        v.extend_from_slice([&b"vn 0 0 1\n"[..], b"vn 0 1 0\n"][i]);
    }
    if k[0] > 0 {
        for i in 0..k[3] as usize {
            v.extend_from_slice([&b"g a b\n"[..], b"g c\n"][i]);
            v.extend_from_slice(b"p -1\n");
        }
        for i in 0..k[4] as usize {
            v.extend_from_slice([&b"s 4\n"[..], b"s 12\n"][i]);
            v.extend_from_slice([&b"f -1 -1 -1\n"[..], b"l -1 -1\n"][i]);
        }
    }
    let more = [0usize, 1, 2, 4][sx::choose(4) as usize];
    sx::assume(more == 0 || (k[1] == k[2] && k[3] == k[4]));
    for i in 0..more {
        v.extend_from_slice(b"o ");
        v.extend_from_slice([&b"x"[..], b"yy", b"x", b"z1"][i]);
        v.extend_from_slice(b"\n");
        v.extend_from_slice([&b""[..], b"v 7 8 9\np -1\n", b"vt 7\n", b"vn 7 8 9\nv 1 1 1\ns 9\n"][i]);
    }
    let t = exact(v);
    match parse(&t) {
        Err(_) => sx::check(false, "a well-formed file is accepted"),
        Ok(r) => {
            sx::reach("shown");
            ck_shown(&r);
        }
    }
}

/// Objects made by hand: any name, any lists.
pub fn h_show_made() {
    let mut k = [sx::choose(3) as usize; 6];
    k[sx::choose(6) as usize] = sx::choose(3) as usize;
    let plain = [1, 3][sx::choose(2) as usize];
    let a = exact(name(plain));
    let pick = |i: usize| [a.clone(), String::new(), String::from("a b"), String::from("]) length: 3")][i].clone();
    let x = |i: usize| i as f64 + 0.5;
    let made = |name: String| Object {
        name,
        vertex_set: (0..k[0]).map(|i| Vertex { x: x(i), y: 2.0, z: 3.0, w: 1.0 }).collect(),
        texture_vertex_set: (0..k[1]).map(|i| TextureVertex { u: x(i), v: 2.0, w: 0.0 }).collect(),
        normal_vertex_set: (0..k[2]).map(|i| NormalVertex { x: x(i), y: 2.0, z: 3.0 }).collect(),
        group_set: (0..k[3]).map(|i| Group(pick(i))).collect(),
        smoothing_group_set: (0..k[4]).map(SmoothingGroup).collect(),
        element_set: (0..k[5]).map(|i| Element::Point(VTNIndex::V(i))).collect(),
        ..Object::default()
    };
    let o = made(pick(sx::choose(4) as usize));
    // what is shown of an object differs from what is shown of a namesake
    // with another name in the name only
    let p = format!("{}", o);
    let q = format!("{}", made(String::from("@@name@@")));
    sx::observe(p.len() as u64);
    sx::reach("shown");
    match after(q.as_bytes(), 0, b"@@name@@") {
        None => sx::check(false, "a displayed object shows its name"),
        Some(e) => {
            let mut w = Vec::new();
            w.extend_from_slice(&q.as_bytes()[..e - 8]);
            w.extend_from_slice(o.name.as_bytes());
            w.extend_from_slice(&q.as_bytes()[e..]);
            sx::check(beq(p.as_bytes(), &w), "a displayed object shows its name as it is");
        }
    }
    if !o.name.contains("length") && k[3] < 2 {
        let l = [Object::default(), o];
        ck_shown(&ObjectSet { material_libraries: vec![], objects: if sx::flip() { vec![l[1].clone()] } else { l.to_vec() } });
    }
}

/// A displayed object with many entries.  params: how many
pub fn h_show_big() {
    let n = sx::param(0) as usize;
    let few = sx::choose(3) as usize;
    // one list, or all of them
    let which = sx::choose(7) as usize;
    let len = |k: usize| if which == k || which == 6 { n } else { few };
    let x = |i: usize| i as f64 + 0.5;
    let o = Object {
        name: String::from("a"),
        vertex_set: (0..len(0)).map(|i| Vertex { x: x(i), y: 2.0, z: 3.0, w: 1.0 }).collect(),
        texture_vertex_set: (0..len(1)).map(|i| TextureVertex { u: x(i), v: 2.0, w: 0.0 }).collect(),
        normal_vertex_set: (0..len(2)).map(|i| NormalVertex { x: x(i), y: 2.0, z: 3.0 }).collect(),
        group_set: (0..len(3)).map(|i| Group(String::from(["g", "h", "i"][i % 3]))).collect(),
        smoothing_group_set: (0..len(4)).map(SmoothingGroup).collect(),
        element_set: (0..len(5)).map(|i| Element::Point(VTNIndex::V(i))).collect(),
        ..Object::default()
    };
    sx::reach("shown");
    ck_shown(&ObjectSet { material_libraries: vec![], objects: vec![o.clone(), o] });
}

/// A displayed set shows its objects.
pub fn ck_shown(r: &ObjectSet) {
    let m = format!("{}", r);
    sx::observe(m.len() as u64);
    let mut at = 0;
    for o in &r.objects {
        let p = format!("{}", o);
        let names = o.name.len() + o.group_set.first().map_or(0, |g| g.0.len()) + o.group_set.last().map_or(0, |g| g.0.len());
        sx::check(p.len() < 2000 + names, "a displayed object is a summary");
        match after(m.as_bytes(), at, p.as_bytes()) {
            Some(k) => at = k,
            None => sx::check(false, "a displayed set shows its objects in order"),
        }
        let p = p.as_bytes();
        let mut q = 0;
        let mut see = |x: &str, what: &'static str| match after(p, q, x.as_bytes()) {
            Some(k) => q = k,
            None => sx::check(false, what),
        };
        see(&o.name, "a displayed object shows its name");
        fn ends<T: std::fmt::Display>(a: &[T]) -> (Option<(String, String)>, usize) {
            (a.first().map(|x| (x.to_string(), a[a.len() - 1].to_string())), a.len())
        }
        for (e, l) in [
            ends(&o.vertex_set),
            ends(&o.texture_vertex_set),
            ends(&o.normal_vertex_set),
            ends(&o.group_set),
            ends(&o.smoothing_group_set),
            ends(&o.element_set),
        ] {
            match e {
                Some((a, b)) => see(&format!("[({}) ... ({})]", a, b), "a displayed list shows its first and last entry"),
                None => see("[]", "a displayed list shows that it is empty"),
            }
            see(&format!("length: {}\n", l), "a displayed list shows its length");
        }
    }
}

/// Displayed objects with long names.  params: length
pub fn h_show_name() {
    let n = sx::param(0) as usize;
    let mut w = vec![b'x'; n];
    for i in [0, n / 2, n - 1] {
        w[i] = sx::name_byte();
    }
    if n > 9 && sx::flip() {
        let at = [1, n / 3, n - 4][sx::choose(3) as usize];
        w[at] = 0xc3;
        w[at + 1] = 0xa9;
    }
    let w = exact(w);
    let at = sx::choose(3);
    let pick = |k: u32| if k == at { w.clone() } else { String::from("a") };
    let o = Object {
        name: pick(0),
        group_set: vec![Group(pick(1)), Group(String::from("b")), Group(pick(2))],
        ..Object::default()
    };
    sx::reach("shown");
    sx::check(beq(o.group_set[1].to_string().as_bytes(), b"b"), "a group shows its name");
    let g = Group(w.clone()).to_string();
    sx::check(after(g.as_bytes(), 0, w.as_bytes()).is_some(), "a group shows its name");
    ck_shown(&ObjectSet { material_libraries: vec![w.clone()], objects: vec![Object::default(), o] });
}
