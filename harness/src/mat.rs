//! MTL files: contents (C15), rejection (C16), error lines (C17).

use super::bad::{comment_byte, letters, line_at, newline};
use super::lit::literal;
use super::model::*;
use super::seq::{any_name, name};
use super::sx;
use wavefront_obj::mtl::{self, Color, IlluminationModel, Material, MaterialSet, ParseError};

fn s(v: &mut Vec<u8>, t: &str) {
    v.extend_from_slice(t.as_bytes());
}

#[derive(Clone)]
pub struct M {
    name: Tok,
    col: [[u64; 3]; 4],
    ns: u64,
    d: u64,
    ni: Option<u64>,
    illum: u8,
    map: [Option<Tok>; 9],
}

impl M {
    fn new(name: Tok) -> M {
        M { name, col: [[0; 3]; 4], ns: 0, d: 1f64.to_bits(), ni: None, illum: 2, map: Default::default() }
    }
}

const COL: [&str; 4] = ["Ka", "Kd", "Ks", "Ke"];
/// `map_Bump` and `bump` set the same map.
const MAP: [(&str, usize); 10] = [
    ("map_Ka", 0),
    ("map_Kd", 1),
    ("map_Ks", 2),
    ("map_Ke", 3),
    ("map_Ns", 4),
    ("map_Bump", 5),
    ("bump", 5),
    ("disp", 6),
    ("map_d", 7),
    ("decal", 8),
];
const KINDS: u32 = 19;

pub struct File {
    text: Vec<u8>,
    m: Vec<M>,
}

impl File {
    fn new() -> File {
        File { text: Vec::new(), m: Vec::new() }
    }
    fn newmtl(&mut self, n: Tok) {
        put_line(&mut self.text, &[tok("newmtl"), n.clone()], b"\n");
        self.m.push(M::new(n));
    }
    /// A number of one symbolic digit, or some literal.
    fn number(&self, rich: bool) -> (Tok, u64) {
        if rich {
            literal()
        } else {
            let t = vec![sx::digit()];
            let v = num(&t);
            (t, v)
        }
    }
    /// 0..3 colors, 4 Ns, 5 d, 6 Ni, 7 illum, 8 newmtl, 9.. maps
    fn add(&mut self, k: usize, rich: bool) {
        match k {
            0..=3 => {
                let mut l = vec![tok(COL[k])];
                let at = if rich { sx::choose(3) } else { 0 };
                let mut c = [0u64; 3];
                for i in 0..3 {
                    let (t, v) = if i == at || !rich { self.number(rich) } else { (tok("3"), 3f64.to_bits()) };
                    l.push(t);
                    c[i as usize] = v;
                }
                put_line(&mut self.text, &l, b"\n");
                self.cur().col[k] = c;
            }
            4 | 5 | 6 => {
                let (t, v) = self.number(rich);
                put_line(&mut self.text, &[tok(["Ns", "d", "Ni"][k - 4]), t], b"\n");
                let m = self.cur();
                match k {
                    4 => m.ns = v,
                    5 => m.d = v,
                    _ => m.ni = Some(v),
                }
            }
            7 => {
                let d = sx::byte_in(b'0', b'2');
                self.illum(d);
            }
            8 => {
                let n = if rich { any_name() } else { name(2) };
                self.newmtl(n);
            }
            _ => {
                let (w, f) = MAP[k - 9];
                let n = if rich { any_name() } else { name(2) };
                put_line(&mut self.text, &[tok(w), n.clone()], b"\n");
                self.cur().map[f] = Some(n);
            }
        }
    }
    fn illum(&mut self, d: u8) {
        put_line(&mut self.text, &[tok("illum"), vec![d]], b"\n");
        self.cur().illum = d - b'0';
    }
    fn cur(&mut self) -> &mut M {
        self.m.last_mut().unwrap()
    }
}

fn eq_col(a: &Color, b: &[u64; 3]) -> bool {
    (a.r.to_bits() == b[0]) & (a.g.to_bits() == b[1]) & (a.b.to_bits() == b[2])
}

fn eq_opt(a: &Option<String>, b: &Option<Tok>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(x), Some(y)) => beq(x.as_bytes(), y),
        _ => false,
    }
}

pub fn ck_material(a: &Material, b: &M) {
    sx::check(beq(a.name.as_bytes(), &b.name), "material name");
    sx::check(eq_col(&a.color_ambient, &b.col[0]), "ambient color");
    sx::check(eq_col(&a.color_diffuse, &b.col[1]), "diffuse color");
    sx::check(eq_col(&a.color_specular, &b.col[2]), "specular color");
    sx::check(eq_col(&a.color_emissive, &b.col[3]), "emissive color");
    sx::check(a.specular_exponent.to_bits() == b.ns, "specular exponent");
    sx::check(a.dissolve.to_bits() == b.d, "dissolve");
    let ni = match (a.optical_density, b.ni) {
        (None, None) => true,
        (Some(x), Some(y)) => x.to_bits() == y,
        _ => false,
    };
    sx::check(ni, "optical density");
    let i = match a.illumination_model {
        IlluminationModel::Ambient => 0,
        IlluminationModel::AmbientDiffuse => 1,
        IlluminationModel::AmbientDiffuseSpecular => 2,
    };
    sx::check(i == b.illum, "illumination model");
    sx::check(eq_opt(&a.map_ambient, &b.map[0]), "ambient map");
    sx::check(eq_opt(&a.map_diffuse, &b.map[1]), "diffuse map");
    sx::check(eq_opt(&a.map_specular, &b.map[2]), "specular map");
    sx::check(eq_opt(&a.map_emissive, &b.map[3]), "emissive map");
    sx::check(eq_opt(&a.map_specular_exponent, &b.map[4]), "specular exponent map");
    sx::check(eq_opt(&a.map_bump, &b.map[5]), "bump map");
    sx::check(eq_opt(&a.map_displacement, &b.map[6]), "displacement map");
    sx::check(eq_opt(&a.map_dissolve, &b.map[7]), "dissolve map");
    sx::check(eq_opt(&a.map_decal, &b.map[8]), "decal map");
}

fn see(r: &Result<MaterialSet, ParseError>) {
    match r {
        Ok(x) => {
            sx::observe(x.materials.len() as u64);
            for m in &x.materials {
                sx::observe(m.name.len() as u64);
                sx::observe(m.illumination_model as u64);
            }
        }
        Err(_) => sx::observe(100),
    }
}

fn finish(f: File) {
    expect(&exact(f.text), &f.m);
}

pub fn expect(t: &str, m: &[M]) {
    let r = mtl::parse(t);
    see(&r);
    match &r {
        Err(_) => sx::check(false, "a well-formed file is accepted"),
        Ok(x) => {
            sx::reach("accepted");
            sx::check(x.materials.len() == m.len(), "one material per statement");
            for (a, b) in x.materials.iter().zip(m) {
                ck_material(a, b);
            }
        }
    }
}

/// Sequences of statements.  params: number of statements, rich contents
pub fn h_mtl_seq() {
    let n = sx::param(0) as usize;
    let rich = sx::param(1) == 1;
    let mut f = File::new();
    f.newmtl(name(1));
    for _ in 0..n {
        let k = sx::choose(KINDS) as usize;
        f.add(k, rich);
    }
    finish(f);
}

/// One statement of every kind in some rotation, then a second material, then
/// a repeated statement.  params: none
pub fn h_mtl_all() {
    let mut f = File::new();
    f.newmtl(name(2));
    let r = sx::choose(KINDS) as usize;
    let rev = sx::flip();
    for i in 0..KINDS as usize {
        let k = if rev { (r + 2 * KINDS as usize - i) % KINDS as usize } else { (r + i) % KINDS as usize };
        if k != 8 {
            f.add(k, false);
        }
    }
    f.newmtl(name(2));
    let k = sx::choose(KINDS) as usize;
    f.add(k, false);
    f.add(k, false);
    f.newmtl(name(1));
    finish(f);
}

/// Many materials, long names.  params: number
pub fn h_mtl_many() {
    let n = sx::param(0) as usize;
    let mut f = File::new();
    match sx::choose(3) {
        0 => {
            for i in 0..n {
                f.newmtl(name(2));
                let k = i % KINDS as usize;
                if k == 7 {
                    f.illum(b"201"[i / KINDS as usize % 3]);
                } else if k != 8 {
                    f.add(k, false);
                }
            }
        }
        1 => {
            for _ in 0..2 {
                f.newmtl(name(n));
                for k in 9..KINDS as usize {
                    let (w, j) = MAP[k - 9];
                    let x = name(n);
                    put_line(&mut f.text, &[tok(w), x.clone()], b"\n");
                    f.cur().map[j] = Some(x);
                }
            }
        }
        _ => {
            f.newmtl(name(1));
            for i in 0..n {
                let k = i % KINDS as usize;
                if k == 7 {
                    f.illum(b"201"[i / KINDS as usize % 3]);
                } else if k != 8 {
                    f.add(k, false);
                }
            }
            f.newmtl(name(1));
        }
    }
    finish(f);
}

/// Very many materials.  params: how many
pub fn h_mtl_count() {
    let n = sx::param(0) as usize;
    let shape = sx::choose(3);
    let at = [0, n / 2, n - 2][sx::choose(3) as usize];
    let (c, d) = (name(1)[0], sx::digit());
    let mut v = Vec::with_capacity(n * 16);
    for i in 0..n {
        v.extend_from_slice(b"newmtl ");
        v.push(if i == at { c } else { b'a' + (i % 7) as u8 });
        v.push(b'\n');
        if i == at || shape == 1 {
            v.extend_from_slice(b"d ");
            v.push(if i == at { d } else { b'0' });
            v.push(b'\n');
        }
        if i == at || (shape == 2 && i % 2 == 0) {
            v.extend_from_slice(b"bump ");
            v.push(if i == at { c } else { b'x' });
            v.push(b'\n');
        }
    }
    match mtl::parse(&exact(v)) {
        Err(_) => sx::check(false, "a well-formed file is accepted"),
        Ok(x) => {
            sx::reach("accepted");
            sx::check(x.materials.len() == n, "one material per statement");
            let value = f64::from_bits(super::model::num(&[d]));
            for (i, m) in x.materials.iter().enumerate() {
                let here = i == at;
                sx::check(beq(m.name.as_bytes(), &[if here { c } else { b'a' + (i % 7) as u8 }]), "material name");
                sx::check(m.dissolve == if here { value } else if shape == 1 { 0.0 } else { 1.0 }, "dissolve");
                let b = if here { Some(c) } else if shape == 2 && i % 2 == 0 { Some(b'x') } else { None };
                sx::check(
                    match (&m.map_bump, b) {
                        (None, None) => true,
                        (Some(m), Some(b)) => beq(m.as_bytes(), &[b]),
                        _ => false,
                    },
                    "map name",
                );
            }
        }
    }
}

/// Long literals (or listed ones) in every number position, or short ones of many digits.
/// params: length (or 0), digits
pub fn h_mtl_lit_long() {
    let n = sx::param(0) as usize;
    let (t, v) = if sx::param(1) > 0 {
        super::lit::dense(n)
    } else if n > 0 {
        super::lit::long_literal(n)
    } else {
        let k = sx::choose(super::lit::TABLE.len() as u32) as usize;
        (tok(super::lit::TABLE[k].0), super::lit::TABLE[k].1)
    };
    let mut f = File::new();
    f.newmtl(name(1));
    let k = if sx::param(1) > 0 { 2 + n % 5 } else { sx::choose(7) as usize };
    if k < 4 {
        let at = if sx::param(1) > 0 { n % 3 } else { sx::choose(3) as usize };
        let mut l = vec![tok(COL[k])];
        let mut c = [3f64.to_bits(); 3];
        for i in 0..3 {
            l.push(if i == at { t.clone() } else { tok("3") });
        }
        c[at] = v;
        put_line(&mut f.text, &l, b"\n");
        f.cur().col[k] = c;
    } else {
        put_line(&mut f.text, &[tok(["Ns", "d", "Ni"][k - 4]), t], b"\n");
        match k {
            4 => f.cur().ns = v,
            5 => f.cur().d = v,
            _ => f.cur().ni = Some(v),
        }
    }
    f.newmtl(name(1));
    finish(f);
}

/// Words that mean something elsewhere as names.
pub fn h_mtl_words() {
    let w = super::big::WORDS[sx::choose(super::big::WORDS.len() as u32) as usize];
    let mut f = File::new();
    let k = sx::choose(11) as usize;
    f.newmtl(if k == 10 { tok(w) } else { tok("a") });
    f.add(0, false);
    if k < 10 {
        let (x, j) = MAP[k];
        put_line(&mut f.text, &[tok(x), tok(w)], b"\n");
        f.cur().map[j] = Some(tok(w));
    }
    f.add(4, false);
    finish(f);
}

// ------------------------------------------------------------------ rejection

const KEY: [&str; 19] = [
    "newmtl", "Ka", "Kd", "Ks", "Ke", "d", "illum", "Ns", "Ni", "map_Ka", "map_Kd", "map_Ks", "map_Ke", "map_Ns", "map_Bump",
    "bump", "disp", "map_d", "decal",
];

pub fn no_keyword(w: &[u8]) -> bool {
    let mut k = false;
    for x in KEY {
        k |= beq(w, x.as_bytes());
    }
    !k
}

pub fn must_fail(v: Vec<u8>, m: &'static str) {
    let t = exact(v);
    let r = mtl::parse(&t);
    see(&r);
    if r.is_err() {
        sx::reach("rejected");
    }
    sx::check(r.is_err(), m);
}

const UNKNOWN: &[&str] = &[
    "Tf 1 1 1", "Tr 0.5", "sharpness 60", "refl -type sphere x", "map_refl x", "map_aat on", "map_Pr x", "Pr 1", "Pm 1", "Ps 1",
    "norm x", "aniso 1", "xyz 1 1 1", "spectral a 1", "ka 1 1 1", "KA 1 1 1", "map_ka x", "map_bump x", "Bump x", "map_D x",
    "D 1", "ns 1", "NS 1", "Illum 1", "illum2 1", "Newmtl b", "map_", "map_K x", "K 1 1 1", "map_Kaa x", "map_Disp x", "1", "v 0 0 0",
    "usemtl a", "0.5 0.5", "newmtl2 a", "Km 1", "N 1", "bump2 x", "map_opacity x",
];

/// params: 0 symbolic keyword, 1 listed, 2 before the first material; bytes
pub fn h_mtl_unknown() {
    let mut v = Vec::new();
    let what = sx::param(0);
    if what == 2 {
        match sx::choose(4) {
            0 => {}
            1 => s(&mut v, "\n"),
            2 => s(&mut v, "# c\n\n"),
            _ => s(&mut v, " "),
        }
        let w = name(sx::param(1) as usize);
        sx::assume(!beq(&w, b"newmtl"));
        v.extend_from_slice(&w);
        match sx::choose(4) {
            0 => {}
            1 => s(&mut v, " 1 1 1\n"),
            2 => s(&mut v, "\nnewmtl a\n"),
            _ => s(&mut v, " newmtl a\n"),
        }
    } else {
        s(&mut v, "newmtl a\n");
        match sx::choose(6) {
            0 => {}
            1 => s(&mut v, "Ka 1 1 1\n"),
            2 => s(&mut v, "map_Kd x\n\n"),
            3 => s(&mut v, "illum 1\nnewmtl b\n"),
            4 => s(&mut v, "d 1\n# c\nNi 1\n"),
            _ => s(&mut v, "bump x\r\n"),
        }
        if what == 0 {
            let w = name(sx::param(1) as usize);
            sx::assume(no_keyword(&w));
            v.extend_from_slice(&w);
            s(&mut v, ["", " 1", " x"][sx::choose(3) as usize]);
        } else {
            s(&mut v, UNKNOWN[sx::choose(UNKNOWN.len() as u32) as usize]);
        }
        s(&mut v, ["", "\n", "\nd 1\n", "\nnewmtl c\n"][sx::choose(4) as usize]);
    }
    must_fail(v, "an unknown statement is rejected");
}

pub const COMPLETE: &[&str] = &[
    "Ka 1 1 1", "Kd 0 0 0", "Ks 1 1 1", "Ke 1 1 1", "d 1", "illum 1", "Ns 1", "Ni 1", "map_Ka x", "map_Kd x", "map_Ks x", "map_Ke x",
    "map_Ns x", "map_Bump x", "bump x", "disp x", "map_d x", "decal x", "newmtl b",
];

/// Surplus words, missing arguments, arguments of the wrong type.  params: bytes
pub fn h_mtl_args() {
    let k = sx::choose(KEY.len() as u32) as usize;
    let c = COMPLETE[k];
    let n = sx::param(0) as usize;
    let mut v = Vec::new();
    s(&mut v, "newmtl a\n");
    s(&mut v, ["", "Ka 1 1 1\n", "map_d y\n"][sx::choose(3) as usize]);
    let words: Vec<&str> = c.split(' ').collect();
    let numeric = k < 8;
    match sx::choose(3) {
        0 => {
            // surplus
            s(&mut v, c);
            v.push(sx::blank());
            let w = name(n);
            sx::assume(no_keyword(&w));
            v.extend_from_slice(&w);
        }
        1 => {
            // too few
            let m = 1 + sx::choose(words.len() as u32 - 1) as usize;
            for (i, w) in words[..m].iter().enumerate() {
                if i > 0 {
                    v.push(b' ');
                }
                s(&mut v, w);
            }
        }
        _ => {
            sx::assume(numeric);
            let at = 1 + sx::choose(words.len() as u32 - 1) as usize;
            for (i, w) in words.iter().enumerate() {
                if i > 0 {
                    v.push(b' ');
                }
                if i == at {
                    if c.starts_with("illum") {
                        match sx::choose(4) {
                            0 => v.push(sx::byte_in(b'3', b'9')),
                            1 => {
                                v.push(sx::byte_in(b'1', b'9'));
                                v.push(sx::digit());
                                v.push(sx::digit());
                            }
                            2 => s(&mut v, ["1.0", "-1", "0x1", "-0.5", "2.", "1e0", "256", "65537", "4294967296", "18446744073709551616", "18446744073709551617"][sx::choose(11) as usize]),
                            _ => v.extend_from_slice(&letters(n)),
                        }
                    } else {
                        match sx::choose(2) {
                            0 => v.extend_from_slice(&letters(n)),
                            _ => s(&mut v, ["1,0", "0x1", "1/2", "--1", "1..0", "1e", ".", "-", "1f", "1_0", "\u{bd}", "1-", "0.5.5"][sx::choose(13) as usize]),
                        }
                    }
                } else {
                    s(&mut v, w);
                }
            }
        }
    }
    s(&mut v, ["", "\n", "\nd 1\n", " # c\n", "\r\nnewmtl c\n", "\n\n"][sx::choose(6) as usize]);
    must_fail(v, "a malformed property is rejected");
}

// ------------------------------------------------------------------ lines

pub const FAULT: &[&str] = &[
    "Ka 1 x 1", "Ka", "Kd 1", "Ks 1 1", "Ke 1 1 1 1", "d", "d x", "illum", "illum 3", "illum x", "Ns", "Ni x", "map_Ka", "map_Kd x y",
    "map_Bump", "bump", "disp", "map_d", "decal", "newmtl", "newmtl a b", "foo", "1", "Tf 1 1 1", "map_Ns", "map_Ke", "map_Ks", "illum 1.0",
];

fn good_line(v: &mut Vec<u8>) {
    match sx::choose(8) {
        0 => {}
        1 => {
            v.push(sx::blank());
            v.push(sx::blank());
        }
        2 => {
            v.push(b'#');
            v.push(comment_byte());
            v.push(comment_byte());
        }
        3 => s(v, "Ka 1 2 3"),
        4 => {
            s(v, "d 1 #");
            v.push(comment_byte());
        }
        5 => {
            s(v, "map_Ka a");
            v.push(sx::blank());
        }
        6 => s(v, "newmtl b"),
        _ => s(v, "illum 1#"),
    }
}

/// params: number of lines before, 0 listed / 1 symbolic / 2 before the first material
pub fn h_mtl_line() {
    let k = sx::param(0) as usize;
    let what = sx::param(1);
    let mut v = Vec::new();
    if what != 2 {
        s(&mut v, "newmtl a");
        newline(&mut v);
    }
    for _ in 0..k {
        if what == 2 {
            match sx::choose(3) {
                0 => {}
                1 => v.push(sx::blank()),
                _ => {
                    v.push(b'#');
                    v.push(comment_byte());
                }
            }
        } else {
            good_line(&mut v);
        }
        newline(&mut v);
    }
    let at = v.len();
    if what == 0 {
        s(&mut v, FAULT[sx::choose(FAULT.len() as u32) as usize]);
    } else {
        let w = name(2);
        sx::assume(no_keyword(&w));
        v.extend_from_slice(&w);
    }
    match sx::choose(6) {
        0 => {}
        1 => newline(&mut v),
        2 => {
            newline(&mut v);
            s(&mut v, "newmtl x\n");
        }
        3 => {
            s(&mut v, " #");
            v.push(comment_byte());
            newline(&mut v);
            newline(&mut v);
        }
        4 => {
            newline(&mut v);
            s(&mut v, "\n\n  # c\n");
        }
        _ => {
            newline(&mut v);
            s(&mut v, "d 1\n");
        }
    }
    expect_line(v, at);
}

pub fn expect_line(v: Vec<u8>, at: usize) {
    let want = line_at(&v, at);
    let t = exact(v);
    let r = mtl::parse(&t);
    see(&r);
    if let Err(e) = &r {
        sx::reach("rejected");
        let m = format!("{}", e);
        let w = format!("Parse error at line {}: ", want);
        sx::check(m.as_bytes().starts_with(w.as_bytes()), "a displayed error names the offending line");
    }
}

const EVERY: &[&str] = &[
    "decal x\n", "disp x\n", "map_d x\n", "bump x\n", "map_Bump x\n", "map_Ns x\n", "map_Ke x\n", "map_Ks x\n", "map_Kd x\n", "map_Ka x\n",
    "Ka 1 1 1\n", "Kd 1 1 1\n", "Ks 1 1 1\n", "Ke 1 1 1\n", "illum 1\n", "d 1\n", "Ni 1\n", "Ns 1\n", "newmtl b\n", "# c\n", "\n", "  \n", "d 1\r\n", "\r\n",
];

/// params: number of lines
pub fn h_mtl_line_many() {
    let n = sx::param(0) as usize;
    let shape = sx::choose(6);
    let mut v = Vec::with_capacity(n * 12 + 100);
    s(&mut v, "newmtl a\n");
    for i in 0..n {
        s(&mut v, match shape {
            0 => "\n",
            1 => "# c\n",
            2 => "\r\n",
            3 => "d 1\r",
            4 => "newmtl b\n",
            _ => EVERY[(n - 1 - i) % EVERY.len()],
        });
    }
    let at = v.len();
    s(&mut v, FAULT[[0, 2, 7, 8, 12, 19, 21][sx::choose(7) as usize]]);
    if sx::flip() {
        s(&mut v, "\nd 1\n");
    }
    expect_line(v, at);
}

// ------------------------------------------------------------------ longer files

const OPTION: &[&str] = &[
    "-s 1 1 1 x", "-o 0 0 0 x", "-t 1 1 1 x", "-clamp on x", "-clamp off x", "-blendu on x", "-blendv off x", "-bm 1 x", "-boost 2 x",
    "-cc on x", "-imfchan l x", "-mm 0 1 x", "-texres 512 x", "-type sphere x", "x y", "x y z", "a b.png", "\"a b.png\"", "x -clamp on",
    "-clamp on -s 1 1 1 x", "-halo 1", "1 2", "x 1", "x d 1", "spectral a.rfl 1", "xyz 1 1 1", "-halo 0.5", "on off", "a ,", "-bm 0.5 x -clamp on",
];

/// Options, further words.
pub fn h_mtl_options() {
    let k = [0usize, 5, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18][sx::choose(14) as usize];
    let mut v = Vec::new();
    s(&mut v, "newmtl a\n");
    s(&mut v, ["", "map_Ka y\n", "d 1\nnewmtl b\n"][sx::choose(3) as usize]);
    s(&mut v, KEY[k]);
    v.push(sx::blank());
    let o = OPTION[sx::choose(OPTION.len() as u32) as usize];
    // a complete statement of one line may be followed by another one
    sx::assume(o != "x d 1");
    if k == 5 || k == 7 || k == 8 {
        s(&mut v, ["", "1 "][sx::choose(2) as usize]);
    }
    s(&mut v, o);
    s(&mut v, ["", "\n", "\nd 1\n", " # c\n"][sx::choose(4) as usize]);
    must_fail(v, "a property with options or further words is rejected");
}

use super::mix::{coord, layout, Pool, Rng};

/// The `k`th file of about `n` statements.
pub fn mix(k: u64, n: usize) -> (Vec<Vec<Tok>>, Vec<M>) {
    let mut r = Rng::new(k.wrapping_mul(1000).wrapping_add(n as u64) ^ 0x5555);
    let pool = Pool::new();
    let mut l: Vec<Vec<Tok>> = Vec::new();
    let mut m: Vec<M> = Vec::new();
    let often = 4 + r.below(12);
    for i in 0..n {
        let k = if i == 0 || r.below(often) == 0 { 8 } else { r.below(KINDS as usize) };
        match k {
            0..=3 => {
                let mut a = vec![tok(COL[k])];
                let mut c = [0u64; 3];
                for j in 0..3 {
                    let t = coord(&mut r);
                    c[j] = num(&t);
                    a.push(t);
                }
                if let Some(x) = m.last_mut() {
                    x.col[k] = c;
                }
                l.push(a);
            }
            4 | 5 | 6 => {
                let t = coord(&mut r);
                let v = num(&t);
                l.push(vec![tok(["Ns", "d", "Ni"][k - 4]), t]);
                if let Some(x) = m.last_mut() {
                    match k {
                        4 => x.ns = v,
                        5 => x.d = v,
                        _ => x.ni = Some(v),
                    }
                }
            }
            7 => {
                let d = b'0' + r.below(3) as u8;
                l.push(vec![tok("illum"), vec![d]]);
                if let Some(x) = m.last_mut() {
                    x.illum = d - b'0';
                }
            }
            8 => {
                let t = pool.any(&mut r);
                l.push(vec![tok("newmtl"), t.clone()]);
                m.push(M::new(t));
            }
            _ => {
                let (w, f) = MAP[k - 9];
                let t = pool.any(&mut r);
                l.push(vec![tok(w), t.clone()]);
                if let Some(x) = m.last_mut() {
                    x.map[f] = Some(t);
                }
            }
        }
    }
    (l, m)
}

pub fn lay(l: &[Vec<Tok>], k: u64, laid: bool) -> Vec<u8> {
    let mut v = Vec::new();
    if laid {
        layout(l, k, &mut v);
    } else {
        for a in l {
            put_line(&mut v, a, b"\n");
        }
    }
    v
}

/// params: statements, layout, number of files
pub fn h_mtl_mix() {
    let k = sx::choose(sx::param(2) as u32) as u64;
    let (l, m) = mix(k, sx::param(0) as usize);
    finish(File { text: lay(&l, k, sx::param(1) == 1), m });
}

/// params: statements, number of files
pub fn h_mtl_mix_layout() {
    let k = sx::choose(sx::param(1) as u32) as u64;
    let (l, _) = mix(k, sx::param(0) as usize);
    let a = exact(lay(&l, k, false));
    let b = exact(lay(&l, k, true));
    super::layout::same_mtl(&mtl::parse(&a), &mtl::parse(&b));
}

/// params: statements, number of files, faults per file, what: 0 rejection, 1 line, 2 kind
pub fn h_mtl_mix_fault() {
    let k = sx::choose(sx::param(1) as u32) as u64;
    let (l, _) = mix(k, sx::param(0) as usize);
    let mut r = Rng::new(k + 5);
    let at = 1 + r.below(l.len());
    let mut v = Vec::new();
    layout(&l[..at], k, &mut v);
    let pos = v.len();
    let n = sx::param(2) as usize;
    let (w, kind) = super::ctx::mtl_fault_of(k as usize, n);
    super::ctx::put_fault(&mut v, w);
    s(&mut v, r.of(&["\n", " \r\n", "# c\n", "\r", " # x\n\n\n"]));
    layout(&l[at..], k + 1, &mut v);
    if sx::param(3) == 1 {
        expect_line(v, pos);
    } else if sx::param(3) == 2 {
        sx::assume(!kind.is_empty());
        let t = exact(v);
        match mtl::parse(&t) {
            Ok(_) => sx::check(false, "a faulty file is rejected"),
            Err(e) => {
                sx::reach("rejected");
                super::errs::ck_kind(&e, kind);
            }
        }
    } else {
        must_fail(v, "a file with a malformed statement is rejected");
    }
}

/// params: statements, number of pairs, repetitions
pub fn h_mtl_mix_pure() {
    let k = sx::choose(sx::param(1) as u32) as u64;
    let n = sx::param(0) as usize;
    let (a, x) = mix(k, n);
    let (b, y) = mix(if sx::flip() { k } else { k + 1 }, n);
    finish(File { text: lay(&a, k, false), m: x.clone() });
    for _ in 0..sx::param(2) {
        finish(File { text: lay(&b, k, false), m: y.clone() });
    }
    finish(File { text: lay(&a, k, false), m: x });
}
