//! Large instances: long elements, many groups, materials, objects, long names.

use super::index::lit;
use super::model::*;
use super::seq::*;
use super::sx;
use wavefront_obj::obj;

fn label(p: &str, i: usize) -> Tok {
    let mut t = tok(p);
    t.extend_from_slice(i.to_string().as_bytes());
    t
}

/// params: properties, shape, number
pub fn h_big() {
    let what = sx::param(0);
    let shape = sx::param(1);
    let n = sx::param(2) as usize;
    let mut g = Gen::new();
    if n > 1000 {
        g.fixed.set(1);
    }
    let mut libs: Vec<Tok> = Vec::new();
    let two = |g: &mut Gen| {
        g.v();
        g.v();
    };
    let point = |g: &mut Gen| {
        let a = g.ixs(0, 1, false);
        g.sts.push(St::P(a.unwrap()));
    };
    match shape {
        // one element statement with n indices
        0 | 1 | 2 => {
            for _ in 0..9 {
                g.v_bare();
                g.t();
                g.n();
            }
            let form = if shape == 2 { 0 } else { sx::choose(4) as u8 };
            let neg = sx::flip();
            let a = g.ixs(form, n, neg).unwrap();
            g.sts.push(match shape {
                0 => St::F(a),
                1 => St::L(a),
                _ => St::P(a),
            });
            point(&mut g);
        }
        // one group statement with n names
        3 => {
            two(&mut g);
            point(&mut g);
            let mut a = Vec::new();
            for _ in 0..n {
                a.push(name(1));
            }
            g.sts.push(St::G(a));
            point(&mut g);
            g.sts.push(St::G(vec![name(2)]));
            point(&mut g);
        }
        // n group statements, each followed by an element
        4 => {
            two(&mut g);
            for i in 0..n {
                let mut a = vec![label("g", i)];
                if i % 3 == 1 {
                    a.push(name(1));
                }
                g.sts.push(St::G(a));
                if i % 5 != 3 {
                    point(&mut g);
                }
                if i % 7 == 2 {
                    let a = g.ixs(0, 4, false);
                    g.sts.push(St::F(a.unwrap()));
                }
            }
        }
        // n smoothing groups
        5 => {
            two(&mut g);
            for i in 0..n {
                if i % 4 == 2 {
                    g.sts.push(St::S(tok("off"), 0));
                } else {
                    g.sts.push(St::S(label("", i), i as u64));
                }
                if i % 5 != 3 {
                    point(&mut g);
                }
            }
        }
        // n materials
        6 => {
            two(&mut g);
            for i in 0..n {
                let t = if i % 3 == 2 { name(2) } else { label("m", i) };
                g.sts.push(St::U(t));
                if i % 5 != 3 {
                    point(&mut g);
                }
                if i % 7 == 2 {
                    let a = g.ixs(0, 4, false);
                    g.sts.push(St::F(a.unwrap()));
                }
            }
        }
        // n objects with data, groups and elements of their own
        7 => {
            for i in 0..n {
                if i > 0 {
                    g.o(label("o", i));
                }
                two(&mut g);
                if i % 3 == 0 {
                    g.sts.push(St::G(vec![name(1)]));
                }
                if i % 4 == 1 {
                    g.sts.push(St::U(name(1)));
                }
                let p = (2 * i + 1) as i64;
                let p = [lit(p), lit(-1), lit(p + 1)];
                g.sts.push(St::L(p.iter().map(|x| Ix { form: 0, p: [x.clone(), no_num(), no_num()] }).collect()));
            }
        }
        // n element statements under one group and material
        8 => {
            two(&mut g);
            g.sts.push(St::G(vec![name(1), name(1)]));
            g.sts.push(St::U(name(2)));
            g.sts.push(St::S(tok("3"), 3));
            for i in 0..n {
                let a = g.ixs(0, if i % 2 == 0 { 2 } else { 3 }, false);
                g.sts.push(if i % 2 == 0 { St::L(a.unwrap()) } else { St::F(a.unwrap()) });
            }
        }
        // n data of each kind
        9 => {
            for i in 0..n {
                let d = |k: usize| vec![sx::digit(), b'0' + (k % 10) as u8];
                let mut a = vec![d(i), d(i + 1), d(i + 2)];
                if i % 3 == 1 {
                    a.push(tok("2"));
                }
                g.sts.push(St::V(a));
                let mut a = vec![d(i)];
                if i % 3 > 0 {
                    a.push(tok("3"));
                }
                if i % 3 > 1 {
                    a.push(tok("4"));
                }
                g.sts.push(St::T(a));
                g.sts.push(St::N(vec![d(i + 5), d(i), d(i + 3)]));
            }
        }
        // names of n bytes
        10 => {
            libs.push(name(n));
            g.o(name(n));
            two(&mut g);
            g.sts.push(St::G(vec![name(n), name(n)]));
            g.sts.push(St::U(name(n)));
            point(&mut g);
            g.sts.push(St::G(vec![name(n)]));
            g.sts.push(St::U(name(n)));
            point(&mut g);
            g.o(name(n));
            two(&mut g);
        }
        // n library names on one line
        11 => {
            for _ in 0..n {
                libs.push(name(2));
            }
            g.o(name(1));
        }
        // a group statement between every two of n elements and materials at
        // other places
        _ => {
            two(&mut g);
            for i in 0..n {
                point(&mut g);
                match i % 3 {
                    0 => g.sts.push(St::U(label("m", i))),
                    1 => g.sts.push(St::G(vec![label("g", i)])),
                    _ => g.sts.push(St::S(label("", i), i as u64)),
                }
            }
            point(&mut g);
        }
    }
    let mut v = Vec::new();
    if shape == 11 && n > 3 {
        // on two lines
        let (a, b) = libs.split_at(n / 2);
        for x in [a, b] {
            let mut l = vec![tok("mtllib")];
            l.extend_from_slice(x);
            put_line(&mut v, &l, b"\n");
        }
    } else if !libs.is_empty() {
        let mut l = vec![tok("mtllib")];
        l.extend_from_slice(&libs);
        put_line(&mut v, &l, b"\n");
    }
    v.extend_from_slice(&render(&g.sts));
    let t = exact(v);
    let r = obj::parse(&t);
    let m = interpret(&g.sts);
    compare(&r, &m, &libs, what);
}

/// Every name position with a symbolic name of several shapes, also equal to
/// keywords, numbers and other special words.  params: properties
pub fn h_names() {
    let what = sx::param(0);
    let mut g = Gen::new();
    let mut libs: Vec<Tok> = Vec::new();
    let x = match sx::choose(2) {
        0 => any_name(),
        _ => tok(WORDS[sx::choose(WORDS.len() as u32) as usize]),
    };
    let k = sx::choose(5);
    libs.push(if k == 0 { x.clone() } else { tok("lib") });
    if sx::flip() {
        libs.push(if k == 0 { x.clone() } else { tok("lob") });
    }
    g.o(if k == 1 { x.clone() } else { tok("obj") });
    g.v();
    g.sts.push(St::G(match k {
        2 => vec![x.clone()],
        3 => vec![tok("a"), x.clone(), tok("b")],
        _ => vec![tok("grp")],
    }));
    g.sts.push(St::U(if k == 4 { x.clone() } else { tok("mat") }));
    let a = g.ixs(0, 1, false);
    g.sts.push(St::P(a.unwrap()));
    g.o(if k == 1 { x } else { tok("other") });
    g.v();
    let mut v = Vec::new();
    let mut l = vec![tok("mtllib")];
    l.extend_from_slice(&libs);
    put_line(&mut v, &l, b"\n");
    v.extend_from_slice(&render(&g.sts));
    let t = exact(v);
    let r = obj::parse(&t);
    let m = interpret(&g.sts);
    compare(&r, &m, &libs, what);
}

/// Words with a meaning elsewhere: they are ordinary names.
pub const WORDS: &[&str] = &[
    "v", "vt", "vn", "g", "s", "o", "p", "l", "f", "usemtl", "mtllib", "off", "on", "default", "Default", "none", "None",
    "null", "(null)", "0", "1", "-1", "1/1", "1.0", "nan", "a.b", "a/b", "dir/file.mtl", "a-b_c", "\"q\"", "newmtl",
    "\u{e9}t\u{e9}", "\u{65e5}\u{672c}", "\u{a0}", "\u{feff}", "\u{2028}",
];

/// Very many objects.  params: how many
pub fn h_obj_count() {
    let n = sx::param(0) as usize;
    let shape = sx::choose(4);
    let at = [0, n / 2, n - 2][sx::choose(3) as usize];
    let c = name(1)[0];
    let mut v = Vec::with_capacity(n * 16);
    let named = |i: usize| if i == at { c } else { b'a' + (i % 7) as u8 };
    for i in 0..n {
        v.extend_from_slice(b"o ");
        v.push(named(i));
        v.push(b'\n');
        if i == at || shape == 1 {
            v.extend_from_slice(b"v 0 0 0\n");
        }
        if i == at || (shape == 2 && i % 2 == 0) {
            v.extend_from_slice(b"g ");
            v.push(named(i));
            v.push(b'\n');
        }
        if i == at || shape == 3 {
            v.extend_from_slice(b"usemtl ");
            v.push(named(i));
            v.push(b'\n');
        }
    }
    match wavefront_obj::obj::parse(&exact(v)) {
        Err(_) => sx::check(false, "a well-formed file is accepted"),
        Ok(x) => {
            sx::reach("accepted");
            sx::check(x.objects.len() == n, "number of objects");
            for (i, o) in x.objects.iter().enumerate() {
                let here = i == at;
                sx::check(beq(o.name.as_bytes(), &[named(i)]), "object name");
                sx::check(o.vertex_set.len() == (here || shape == 1) as usize, "number of vertices");
                let g = here || (shape == 2 && i % 2 == 0);
                sx::check(o.group_set.len() == g as usize, "number of groups");
                sx::check(!g || beq(o.group_set[0].0.as_bytes(), &[named(i)]), "group name");
                let m = o.geometry_set.iter().filter_map(|g| g.material_name.as_ref()).last();
                sx::check(m.is_some() == (here || shape == 3), "material");
                sx::check(m.map_or(true, |m| beq(m.as_bytes(), &[named(i)])), "material name");
            }
        }
    }
}
