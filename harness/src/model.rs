//! A reference reading of OBJ statements, written from the properties, and the
//! comparison of a parse result with it.

use super::sx;
use wavefront_obj::obj::{Element, ErrorKind, Object, ObjectSet, ParseError, VTNIndex};

pub type Tok = Vec<u8>;

/// An integer as written and its value.
#[derive(Clone)]
pub struct Num {
    pub text: Tok,
    pub val: i64,
}

/// 0: v, 1: v/vt, 2: v//vn, 3: v/vt/vn
#[derive(Clone)]
pub struct Ix {
    pub form: u8,
    pub p: [Num; 3],
}

#[derive(Clone)]
pub enum St {
    V(Vec<Tok>),
    T(Vec<Tok>),
    N(Vec<Tok>),
    G(Vec<Tok>),
    S(Tok, u64),
    U(Tok),
    O(Tok),
    P(Vec<Ix>),
    L(Vec<Ix>),
    F(Vec<Ix>),
}

pub fn tok(s: &str) -> Tok {
    s.as_bytes().to_vec()
}

pub fn no_num() -> Num {
    Num { text: Vec::new(), val: 0 }
}

pub fn ix_text(i: &Ix) -> Tok {
    let mut t = i.p[0].text.clone();
    match i.form {
        0 => {}
        1 => {
            t.push(b'/');
            t.extend_from_slice(&i.p[1].text);
        }
        2 => {
            t.extend_from_slice(b"//");
            t.extend_from_slice(&i.p[2].text);
        }
        _ => {
            t.push(b'/');
            t.extend_from_slice(&i.p[1].text);
            t.push(b'/');
            t.extend_from_slice(&i.p[2].text);
        }
    }
    t
}

/// The tokens of a statement.
pub fn tokens(s: &St) -> Vec<Tok> {
    let mut r: Vec<Tok> = Vec::new();
    let list = |r: &mut Vec<Tok>, k: &str, a: &[Tok]| {
        r.push(tok(k));
        for t in a {
            r.push(t.clone());
        }
    };
    match s {
        St::V(a) => list(&mut r, "v", a),
        St::T(a) => list(&mut r, "vt", a),
        St::N(a) => list(&mut r, "vn", a),
        St::G(a) => list(&mut r, "g", a),
        St::S(t, _) => {
            r.push(tok("s"));
            r.push(t.clone());
        }
        St::U(t) => {
            r.push(tok("usemtl"));
            r.push(t.clone());
        }
        St::O(t) => {
            r.push(tok("o"));
            r.push(t.clone());
        }
        St::P(a) | St::L(a) | St::F(a) => {
            r.push(tok(match s {
                St::P(_) => "p",
                St::L(_) => "l",
                _ => "f",
            }));
            for i in a {
                r.push(ix_text(i));
            }
        }
    }
    r
}

pub fn put_line(out: &mut Vec<u8>, toks: &[Tok], end: &[u8]) {
    for (i, t) in toks.iter().enumerate() {
        if i > 0 {
            out.push(b' ');
        }
        out.extend_from_slice(t);
    }
    out.extend_from_slice(end);
}

pub fn render(sts: &[St]) -> Vec<u8> {
    let mut o = Vec::new();
    for s in sts {
        put_line(&mut o, &tokens(s), b"\n");
    }
    o
}

/// An exactly sized copy of the text, so that reads past its end are noticed.
pub fn exact(v: Vec<u8>) -> String {
    sx::input(&v);
    #[cfg(feature = "native")]
    sx::assume(std::str::from_utf8(&v).is_ok());
    let b: Box<[u8]> = v.into_boxed_slice();
    unsafe { String::from_utf8_unchecked(b.into_vec()) }
}

pub struct MEl {
    /// 1, 2 or 3 indices
    pub ix: Vec<(u8, [usize; 3])>,
    pub groups: Vec<Tok>,
    pub smooth: u64,
    pub mat: Option<Tok>,
}

#[derive(Default)]
pub struct MObj {
    pub name: Tok,
    pub v: Vec<[u64; 4]>,
    pub t: Vec<[u64; 3]>,
    pub n: Vec<[u64; 3]>,
    pub els: Vec<MEl>,
    /// names written in group statements
    pub gset: Vec<Tok>,
    pub sset: Vec<u64>,
}

/// The double nearest to a decimal literal.
pub fn num(t: &[u8]) -> u64 {
    match unsafe { std::str::from_utf8_unchecked(t) }.parse::<f64>() {
        Ok(x) => x.to_bits(),
        Err(_) => {
            sx::assume(false);
            0
        }
    }
}

/// The zero-based position within the object of what an index denotes; `first`
/// is the number of data before the object, `last` the number so far.
pub fn resolve(val: i64, first: usize, last: usize) -> Option<usize> {
    let k: i64 = if val > 0 {
        val - 1
    } else if val < 0 {
        // -1 is the most recent one
        if val < -(last as i64) {
            return None;
        }
        last as i64 + val
    } else {
        return None;
    };
    if k < first as i64 || k >= last as i64 {
        return None;
    }
    Some((k - first as i64) as usize)
}

/// The objects that the statements describe, or the number of the first
/// statement with an index out of range.
pub fn interpret(sts: &[St]) -> Result<Vec<MObj>, usize> {
    let mut objs: Vec<MObj> = Vec::new();
    let mut cur: Option<MObj> = None;
    let mut first = [0usize; 3];
    let mut last = [0usize; 3];
    let mut groups: Vec<Tok> = Vec::new();
    let mut smooth = 0u64;
    let mut mat: Option<Tok> = None;
    for (k, s) in sts.iter().enumerate() {
        if let St::O(name) = s {
            if let Some(o) = cur.take() {
                objs.push(o);
            }
            cur = Some(MObj { name: name.clone(), ..Default::default() });
            first = last;
            groups = vec![tok("default")];
            smooth = 0;
            mat = None;
            continue;
        }
        if cur.is_none() {
            cur = Some(MObj::default());
            groups = vec![tok("default")];
        }
        let o = cur.as_mut().unwrap();
        match s {
            St::V(a) => {
                o.v.push([num(&a[0]), num(&a[1]), num(&a[2]), if a.len() > 3 { num(&a[3]) } else { 1f64.to_bits() }]);
                last[0] += 1;
            }
            St::T(a) => {
                let g = |i: usize| if a.len() > i { num(&a[i]) } else { 0 };
                o.t.push([g(0), g(1), g(2)]);
                last[1] += 1;
            }
            St::N(a) => {
                o.n.push([num(&a[0]), num(&a[1]), num(&a[2])]);
                last[2] += 1;
            }
            St::G(a) => {
                groups = if a.is_empty() { vec![tok("default")] } else { a.clone() };
                for t in a {
                    o.gset.push(t.clone());
                }
            }
            St::S(_, x) => {
                smooth = *x;
                o.sset.push(*x);
            }
            St::U(t) => mat = Some(t.clone()),
            St::O(_) => {}
            St::P(a) | St::L(a) | St::F(a) => {
                let mut r: Vec<(u8, [usize; 3])> = Vec::new();
                for i in a {
                    let mut q = [0usize; 3];
                    for j in 0..3 {
                        let used = match j {
                            0 => true,
                            1 => i.form & 1 != 0,
                            _ => i.form & 2 != 0,
                        };
                        if used {
                            match resolve(i.p[j].val, first[j], last[j]) {
                                Some(x) => q[j] = x,
                                None => return Err(k),
                            }
                        }
                    }
                    r.push((i.form, q));
                }
                let mut add = |ix: Vec<(u8, [usize; 3])>| {
                    o.els.push(MEl { ix, groups: groups.clone(), smooth, mat: mat.clone() });
                };
                match s {
                    St::P(_) => {
                        for x in r {
                            add(vec![x]);
                        }
                    }
                    St::L(_) => {
                        for j in 0..r.len() - 1 {
                            add(vec![r[j], r[j + 1]]);
                        }
                    }
                    _ => {
                        for j in 1..r.len() - 1 {
                            add(vec![r[0], r[j], r[j + 1]]);
                        }
                    }
                }
            }
        }
    }
    if let Some(o) = cur.take() {
        objs.push(o);
    }
    Ok(objs)
}

// ------------------------------------------------------------------ comparison

/// Equality without branching on the bytes.
pub fn beq(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut r = true;
    for i in 0..a.len() {
        r &= a[i] == b[i];
    }
    r
}

pub fn form_parts(i: &VTNIndex) -> (u8, [usize; 3]) {
    match *i {
        VTNIndex::V(v) => (0, [v, 0, 0]),
        VTNIndex::VT(v, t) => (1, [v, t, 0]),
        VTNIndex::VN(v, n) => (2, [v, 0, n]),
        VTNIndex::VTN(v, t, n) => (3, [v, t, n]),
    }
}

pub fn parts(e: &Element) -> Vec<(u8, [usize; 3])> {
    match e {
        Element::Point(a) => vec![form_parts(a)],
        Element::Line(a, b) => vec![form_parts(a), form_parts(b)],
        Element::Face(a, b, c) => vec![form_parts(a), form_parts(b), form_parts(c)],
    }
}

/// C03: integrity of one object, from the result alone.
pub fn ck_integrity(o: &Object) {
    let n = o.element_set.len();
    let (nv, nt, nn) = (o.vertex_set.len(), o.texture_vertex_set.len(), o.normal_vertex_set.len());
    let mut ok = true;
    for e in &o.element_set {
        for (f, q) in parts(e) {
            ok &= q[0] < nv;
            if f & 1 != 0 {
                ok &= q[1] < nt;
            }
            if f & 2 != 0 {
                ok &= q[2] < nn;
            }
        }
    }
    sx::check(ok, "every index of an element lies within its object's data");
    sx::check(o.shape_set.len() == n, "there is exactly one shape entry per element");
    let mut ok = true;
    let mut gok = true;
    for (i, s) in o.shape_set.iter().enumerate() {
        ok &= s.element == i;
        gok &= !s.groups.is_empty();
        for &g in &s.groups {
            gok &= g < o.group_set.len();
        }
        gok &= s.smoothing_group < o.smoothing_group_set.len();
    }
    sx::check(ok, "shape entries are in element order");
    sx::check(gok, "groups and smoothing group of every shape entry exist");
    let mut ok = true;
    for g in &o.geometry_set {
        for &s in &g.shapes {
            ok &= s < o.shape_set.len();
        }
    }
    sx::check(ok, "every shape listed by a geometry exists");
}

/// C05 (and the stored positions of C04).
pub fn ck_elements(o: &Object, m: &MObj) {
    sx::check(o.element_set.len() == m.els.len(), "number of elements");
    for (e, x) in o.element_set.iter().zip(m.els.iter()) {
        let p = parts(e);
        sx::check(p.len() == x.ix.len(), "kind of element");
        for (a, b) in p.iter().zip(x.ix.iter()) {
            sx::check(a.0 == b.0, "an index keeps its form");
            sx::check(
                (a.1[0] == b.1[0]) & (a.1[1] == b.1[1]) & (a.1[2] == b.1[2]),
                "an index is stored as the position of the datum it denotes",
            );
        }
    }
}

/// C07
pub fn ck_groups(o: &Object, m: &MObj) {
    sx::check(o.shape_set.len() == m.els.len(), "one shape entry per element");
    for (s, x) in o.shape_set.iter().zip(m.els.iter()) {
        sx::check(s.groups.len() == x.groups.len(), "number of groups of an element");
        for (&g, n) in s.groups.iter().zip(x.groups.iter()) {
            sx::check(g < o.group_set.len(), "group of an element exists");
            sx::check(beq(o.group_set[g].0.as_bytes(), n), "group of an element is the current one");
        }
        sx::check(s.smoothing_group < o.smoothing_group_set.len(), "smoothing group of an element exists");
        sx::check(
            o.smoothing_group_set[s.smoothing_group].0 as u64 == x.smooth,
            "smoothing group of an element is the current one",
        );
    }
    // Names written, in order; the implicit group `default` may stand among them.
    let mut k = 0;
    for g in &o.group_set {
        if k < m.gset.len() && beq(g.0.as_bytes(), &m.gset[k]) {
            k += 1;
        } else {
            sx::check(beq(g.0.as_bytes(), b"default"), "the group set lists only names of group statements");
        }
    }
    sx::check(k == m.gset.len(), "the group set lists all names of group statements in order");
    let l = o.smoothing_group_set.len();
    let skip = l.wrapping_sub(m.sset.len());
    sx::check(skip <= 1, "the smoothing group set lists the smoothing statements");
    if skip == 1 {
        sx::check(o.smoothing_group_set[0].0 == 0, "the implicit smoothing group is off");
    }
    for i in 0..m.sset.len() {
        sx::check(
            o.smoothing_group_set[i + skip].0 as u64 == m.sset[i],
            "the smoothing group set lists the numbers in order",
        );
    }
}

/// C08
pub fn ck_geometry(o: &Object, m: &MObj) {
    let mut k = 0usize;
    for g in &o.geometry_set {
        for &s in &g.shapes {
            sx::check(s < o.shape_set.len(), "a geometry lists existing shapes");
            sx::check(o.shape_set[s].element == k, "geometries list every element once and in order");
            if k < m.els.len() {
                let same = match (&g.material_name, &m.els[k].mat) {
                    (None, None) => true,
                    (Some(a), Some(b)) => beq(a.as_bytes(), b),
                    _ => false,
                };
                sx::check(same, "an element's geometry bears its current material");
            }
            k += 1;
        }
    }
    sx::check(k == m.els.len(), "geometries list every element");
}

/// C09
pub fn ck_data(o: &Object, m: &MObj) {
    sx::check(o.vertex_set.len() == m.v.len(), "number of vertices");
    sx::check(o.texture_vertex_set.len() == m.t.len(), "number of texture vertices");
    sx::check(o.normal_vertex_set.len() == m.n.len(), "number of normals");
    for (a, b) in o.vertex_set.iter().zip(m.v.iter()) {
        sx::check(a.x.to_bits() == b[0], "vertex x");
        sx::check(a.y.to_bits() == b[1], "vertex y");
        sx::check(a.z.to_bits() == b[2], "vertex z");
        sx::check(a.w.to_bits() == b[3], "vertex w");
    }
    for (a, b) in o.texture_vertex_set.iter().zip(m.t.iter()) {
        sx::check(a.u.to_bits() == b[0], "texture vertex u");
        sx::check(a.v.to_bits() == b[1], "texture vertex v");
        sx::check(a.w.to_bits() == b[2], "texture vertex w");
    }
    for (a, b) in o.normal_vertex_set.iter().zip(m.n.iter()) {
        sx::check(a.x.to_bits() == b[0], "normal x");
        sx::check(a.y.to_bits() == b[1], "normal y");
        sx::check(a.z.to_bits() == b[2], "normal z");
    }
}

/// C10: objects, names, what belongs to which object.
pub fn ck_objects(r: &ObjectSet, m: &[MObj], libs: &[Tok]) {
    sx::check(r.material_libraries.len() == libs.len(), "number of material libraries");
    for (a, b) in r.material_libraries.iter().zip(libs.iter()) {
        sx::check(beq(a.as_bytes(), b), "material library name");
    }
    sx::check(r.objects.len() == m.len(), "number of objects");
    for (o, x) in r.objects.iter().zip(m.iter()) {
        sx::check(beq(o.name.as_bytes(), &x.name), "object name");
        sx::check(o.vertex_set.len() == x.v.len(), "an object holds its own vertices");
        sx::check(o.texture_vertex_set.len() == x.t.len(), "an object holds its own texture vertices");
        sx::check(o.normal_vertex_set.len() == x.n.len(), "an object holds its own normals");
        sx::check(o.element_set.len() == x.els.len(), "an object holds its own elements");
        let mut same = true;
        for (a, b) in o.vertex_set.iter().zip(x.v.iter()) {
            same &= a.x.to_bits() == b[0];
        }
        sx::check(same, "an object's vertices are its own");
        // every written group name is listed by its object
        let mut k = 0;
        for g in &o.group_set {
            if k < x.gset.len() && beq(g.0.as_bytes(), &x.gset[k]) {
                k += 1;
            }
        }
        sx::check(k == x.gset.len(), "group names are reproduced in order");
        let mut j = 0;
        for g in &o.geometry_set {
            for _ in &g.shapes {
                if j < x.els.len() {
                    if let (Some(a), Some(b)) = (&g.material_name, &x.els[j].mat) {
                        sx::check(beq(a.as_bytes(), b), "material name");
                    }
                }
                j += 1;
            }
        }
    }
}

pub const P03: u64 = 1;
pub const P05: u64 = 2;
pub const P07: u64 = 4;
pub const P08: u64 = 8;
pub const P09: u64 = 16;
pub const P10: u64 = 32;
pub const P04: u64 = 64;

/// Compare a result with the model for the selected properties.
pub fn compare(r: &Result<ObjectSet, ParseError>, m: &Result<Vec<MObj>, usize>, libs: &[Tok], what: u64) {
    match (r, m) {
        (Ok(r), Ok(m)) => {
            sx::reach("accepted");
            sx::observe(r.objects.len() as u64);
            if what & P10 != 0 {
                ck_objects(r, m, libs);
            }
            sx::check(r.objects.len() == m.len(), "number of objects");
            for (o, x) in r.objects.iter().zip(m.iter()) {
                sx::observe(o.element_set.len() as u64);
                if !x.els.is_empty() {
                    sx::reach("an object with elements");
                }
                if what & P03 != 0 {
                    ck_integrity(o);
                }
                if what & (P05 | P04) != 0 {
                    ck_elements(o, x);
                }
                if what & P07 != 0 {
                    ck_groups(o, x);
                }
                if what & P08 != 0 {
                    ck_geometry(o, x);
                }
                if what & P09 != 0 {
                    ck_data(o, x);
                }
                // further observations, for the comparison with native runs
                for e in &o.element_set {
                    for (f, q) in parts(e) {
                        sx::observe(f as u64);
                        sx::observe(q[0] as u64);
                    }
                }
                for g in &o.geometry_set {
                    sx::observe(g.shapes.len() as u64);
                }
            }
        }
        (Err(e), Ok(_)) => {
            sx::observe(1000 + e.line_number as u64);
            sx::check(false, "a well-formed file is accepted");
        }
        (Ok(r), Err(_)) => {
            sx::observe(r.objects.len() as u64);
            sx::check(false, "an index that is out of range is rejected");
        }
        (Err(e), Err(_)) => {
            sx::reach("index out of range");
            sx::observe(2000 + e.line_number as u64);
            if what & P04 != 0 {
                sx::check(e.kind == ErrorKind::VTNIndexOutOfRange, "an index out of range is reported as such");
            }
        }
    }
}
