//! Malformed OBJ files: rejection (C06, C12), error lines (C13), error kinds (C14).

use super::model::*;
use super::seq::*;
use super::sx;
use wavefront_obj::obj::{self, ErrorKind, ObjectSet, ParseError};

fn s(v: &mut Vec<u8>, t: &str) {
    v.extend_from_slice(t.as_bytes());
}

fn see(r: &Result<ObjectSet, ParseError>) {
    match r {
        Ok(x) => sx::observe(x.objects.len() as u64),
        Err(e) => sx::observe(100 + e.line_number as u64),
    }
}

pub fn must_fail(v: Vec<u8>, m: &'static str) {
    let t = exact(v);
    let r = obj::parse(&t);
    see(&r);
    if r.is_err() {
        sx::reach("rejected");
    }
    sx::check(r.is_err(), m);
}

/// A letter with no role in numbers.
pub fn letter() -> u8 {
    let b = sx::byte();
    let c = b | 0x20;
    sx::assume((c >= b'a') & (c <= b'z') & (c != b'e') & (c != b'i') & (c != b'n'));
    b
}

pub fn letters(n: usize) -> Tok {
    (0..n).map(|_| letter()).collect()
}

/// Is this surely no index (of the form v, v/vt, v//vn or v/vt/vn, where parts
/// after the first may be empty)?
pub fn no_index(t: &[u8], plain: bool) -> bool {
    let mut bad = false;
    let mut slashes = 0u32;
    for (i, &b) in t.iter().enumerate() {
        let digit = (b >= b'0') & (b <= b'9');
        let sign = (b == b'-') | (b == b'+');
        let slash = b == b'/';
        bad |= !(digit | sign | slash);
        slashes += slash as u32;
        if i == 0 {
            bad |= slash;
        }
        if i > 0 {
            let p = t[i - 1];
            bad |= sign & (p != b'/');
        }
        if i + 1 == t.len() {
            bad |= sign;
        } else {
            bad |= sign & (t[i + 1] == b'/');
        }
    }
    if plain {
        // forms with `/` in a point statement are left open
        bad & (slashes == 0)
    } else {
        bad | (slashes > 2)
    }
}

const JUNK: &[&str] = &[
    "1.5", "1.0", "abc", "1/1/1/1", "1/1/1/", "1///1", "/1", "//1", "1/a", "1//a", "1/1/a", "a/1/1", "1/1.0", "1/1/1.0",
    "1-2", "--1", "1e0", "0x1", "1,1", "1;", "+-1", "1/+", "1/-/1", "1:1", "1|1", "\u{b9}", "1\u{a0}", "\u{ff11}", "1_0",
    "1/1/1/1/1", "1////", "off", "nan", "inf", "1f", "1u", "''", "1/1/-", "-/1/1", "1/ⅷ/1",
];

/// An element with an offending index at some place.
/// params: 0 symbolic token / 1 listed token, bytes, number of indices
pub fn h_bad_index() {
    let n = sx::param(2) as usize;
    let kind = sx::choose(3);
    let at = if n <= 5 { sx::choose(n as u32) as usize } else { [0, 1, n / 2, n - 2, n - 1][sx::choose(5) as usize] };
    sx::assume(n >= [1, 2, 3][kind as usize]);
    let w: Tok = if sx::param(0) == 0 {
        let w = name(sx::param(1) as usize);
        sx::assume(no_index(&w, kind == 0));
        w
    } else {
        let w = tok(JUNK[sx::choose(JUNK.len() as u32) as usize]);
        sx::assume(no_index(&w, kind == 0));
        w
    };
    let form = if kind == 0 { 0 } else { sx::choose(4) };
    let mut v = Vec::new();
    s(&mut v, "v 0 0 0\nvt 0\nvn 0 0 0\n");
    s(&mut v, ["p", "l", "f"][kind as usize]);
    for i in 0..n {
        v.push(b' ');
        if i == at {
            v.extend_from_slice(&w);
        } else {
            s(&mut v, ["1", "1/1", "1//1", "1/1/1"][form as usize]);
        }
    }
    match sx::choose(3) {
        0 => {}
        1 => s(&mut v, "\n"),
        _ => s(&mut v, " # c\nv 0 0 0\np 1\n"),
    }
    must_fail(v, "an element with an index that is none is rejected");
}

/// Indices of different forms.  params: number of indices
pub fn h_mixed() {
    let n = sx::param(0) as usize;
    let kind = 1 + sx::choose(2);
    sx::assume(n > kind as usize);
    let a = sx::choose(4);
    let b = sx::choose(4);
    sx::assume(a != b);
    // one odd index, or all from some place on
    let at = if n <= 5 { sx::choose(n as u32) as usize } else { [0, 1, n / 2, n - 2, n - 1][sx::choose(5) as usize] };
    let tail = sx::flip();
    sx::assume(!(tail && at == 0));
    let mut v = Vec::new();
    s(&mut v, "v 0 0 0\nvt 0\nvn 0 0 0\nv 0 0 0\nvt 0\nvn 0 0 0\n");
    s(&mut v, ["p", "l", "f"][kind as usize]);
    for i in 0..n {
        v.push(b' ');
        let f = if i == at || (tail && i > at) { b } else { a };
        let d = sx::byte_in(b'1', b'2');
        for &c in ["1", "1/1", "1//1", "1/1/1"][f as usize].as_bytes() {
            v.push(if c == b'1' { d } else { c });
        }
    }
    if sx::flip() {
        s(&mut v, "\np 1\n");
    }
    let t = exact(v);
    let r = obj::parse(&t);
    see(&r);
    sx::check(r.is_err(), "an element with indices of different forms is rejected");
    if sx::param(1) == 1 {
        if let Err(e) = &r {
            sx::reach("rejected");
            sx::check(
                e.kind == ErrorKind::EveryVTNIndexMustHaveTheSameFormForAGivenElement,
                "mixed index forms are reported as such",
            );
        }
    }
}

/// One faulty part of one index at any place.  params: number of indices, 0 kind /
/// 1 line and message
pub fn h_at() {
    let n = sx::param(0) as usize;
    let kind = sx::choose(3);
    sx::assume(n > kind as usize);
    let form = if kind == 0 { 0 } else { sx::choose(4) as usize };
    let at = if n <= 9 { sx::choose(n as u32) as usize } else { [0, 1, n / 3, n / 2, n - 3, n - 2, n - 1][sx::choose(7) as usize] };
    // v, vt, vn that the form has
    let has: &[usize] = [&[0][..], &[0, 1], &[0, 2], &[0, 1, 2]][form];
    let part = has[sx::choose(has.len() as u32) as usize];
    let far = sx::byte_in(b'3', b'9');
    let (w, want): (Tok, ErrorKind) = match sx::choose(6) {
        0 => (tok("0"), ErrorKind::VTNIndexOutOfRange),
        1 => (vec![far], ErrorKind::VTNIndexOutOfRange),
        2 => (vec![b'-', far], ErrorKind::VTNIndexOutOfRange),
        3 => (vec![far, b'0', b'0', b'0', b'0', b'0'], ErrorKind::VTNIndexOutOfRange),
        4 => (letters(1), ErrorKind::ExpectedInteger),
        _ => (vec![b'1', b'.', far], ErrorKind::ExpectedInteger),
    };
    let minus = sx::flip();
    let mut v = Vec::new();
    s(&mut v, "v 0 0 0\nvt 0\nvn 0 0 0\nv 0 0 0\nvt 0\nvn 0 0 0\n");
    s(&mut v, ["p 1", "l 1 2", "f 1/1 2/2 1/1 2/2"][kind as usize]);
    s(&mut v, "\n");
    s(&mut v, ["p", "l", "f"][kind as usize]);
    for i in 0..n {
        v.push(b' ');
        for k in 0..3 {
            if k > 0 && has.iter().any(|&h| h >= k) {
                v.push(b'/');
            }
            if !has.contains(&k) {
            } else if i == at && k == part {
                v.extend_from_slice(&w);
            } else {
                s(&mut v, if minus { ["-2", "-1"][(i + k) % 2] } else { ["1", "2"][(i + k) % 2] });
            }
        }
    }
    s(&mut v, ["", "\n", " # c\nv 0 0 0\np 1\nzz\n"][sx::choose(3) as usize]);
    let t = exact(v);
    match obj::parse(&t) {
        Ok(_) => sx::check(false, "an element with a faulty index is rejected"),
        Err(e) => {
            sx::reach("rejected");
            sx::observe(e.line_number as u64);
            if sx::param(1) == 0 {
                sx::check(e.kind == want, "the kind of an error is the documented one");
            } else {
                sx::check(e.line_number == 8, "an error names the line of the fault");
                sx::check(want != ErrorKind::ExpectedInteger || super::errs::contains(e.message.as_bytes(), &w), "the message of an error contains the token at fault");
            }
        }
    }
}

/// Too few indices.
pub fn h_few() {
    let mut v = Vec::new();
    s(&mut v, "v 0 0 0\nv 0 0 0\nvt 0\nvn 0 0 0\n");
    if sx::flip() {
        s(&mut v, "f 1 1 1\nl 1 1\np 1\n");
    }
    let (k, n) = match sx::choose(6) {
        0 => ("f", 0),
        1 => ("f", 1),
        2 => ("f", 2),
        3 => ("l", 0),
        4 => ("l", 1),
        _ => ("p", 0),
    };
    s(&mut v, k);
    let form = sx::choose(4) as usize;
    for _ in 0..n {
        v.push(sx::blank());
        s(&mut v, ["1", "1/1", "2//1", "2/1/1"][form]);
    }
    match sx::choose(7) {
        0 => {}
        1 => s(&mut v, "\n"),
        2 => s(&mut v, " \n"),
        3 => s(&mut v, " # 1 2 3\n"),
        4 => s(&mut v, "\r\n1 1 1\n"),
        5 => s(&mut v, "\nf 1 1 1\n"),
        _ => s(&mut v, "\n\nv 0 0 0\no b\n"),
    }
    must_fail(v, "an element with too few vertices is rejected");
}

// ------------------------------------------------------------------ statements

const KEY: &[&str] = &["v", "vt", "vn", "p", "l", "f", "g", "s", "usemtl", "o", "mtllib"];

pub fn no_keyword(w: &[u8]) -> bool {
    let mut k = false;
    for x in KEY {
        k |= beq(w, x.as_bytes());
    }
    !k
}

pub const FREE: &[&str] = &[
    "vp 0 0", "deg 3", "bmat u 1 1", "step 1", "cstype bezier", "curv 0 1 1 1", "curv2 1 1", "surf 0 1 0 1 1", "parm u 0 1",
    "trim 0 1 1", "hole 0 1 1", "scrv 0 1 1", "sp 1", "end", "con 1 0 1 1 1 0 1 1", "mg 1 2", "bevel on", "c_interp on",
    "d_interp on", "lod 1", "usemap m", "maplib m", "shadow_obj a", "trace_obj a", "ctech cparm 1", "stech cparma 1 1",
    "fo 1 1 1", "bsp 1", "bzp 1", "cdc 1", "cdp 1", "res 1", "call a", "csh a", "V 0 0 0", "F 1 1 1", "vv", "vta", "ff",
    "usemtl2", "Usemtl a", "g1", "\u{feff}v 0 0 0", "1", "1 1 1", "off", "newmtl a", "//", "/", "-", "v,", "vn1 0 0 1",
];

/// Places where a statement may stand.
pub const PLACE: &[(&str, &str)] = &[
    ("", "\n"),
    ("", ""),
    ("\n# c\n", "\nv 0 0 0\n"),
    ("mtllib a\n", "\no b\n"),
    ("mtllib a b\n\n", "\n"),
    ("o a\n", "\n"),
    ("o a\nv 0 0 0\n", "\no b\n"),
    ("v 0 0 0\n", "\np 1\n"),
    ("v 0 0 0\nvt 0\nvn 0 0 0\n", ""),
    ("v 0 0 0\np 1\n", "\n"),
    ("v 0 0 0\nf 1 1 1\n", "\nf 1 1 1\n"),
    ("v 0 0 0\nl 1 1\n", " # c"),
    ("g a\n", "\nv 0 0 0\n"),
    ("s 1\n", "\n"),
    ("usemtl a\n", "\n"),
    ("v 0 0 0\ng a\nusemtl b\ns off\nf 1 1 1\n\n", "\n\n"),
    ("v 0 0 0\r\n", "\r\n"),
];

/// An unknown statement.  params: 0 symbolic keyword / 1 listed, bytes
pub fn h_bad_kw() {
    let (a, b) = PLACE[sx::choose(PLACE.len() as u32) as usize];
    let mut v = Vec::new();
    s(&mut v, a);
    if sx::param(0) == 0 {
        let w = name(sx::param(1) as usize);
        sx::assume(no_keyword(&w));
        v.extend_from_slice(&w);
        match sx::choose(3) {
            0 => {}
            1 => s(&mut v, " 1"),
            _ => s(&mut v, " 1 2 3"),
        }
    } else {
        s(&mut v, FREE[sx::choose(FREE.len() as u32) as usize]);
    }
    s(&mut v, b);
    must_fail(v, "an unknown statement is rejected");
}

/// A material library statement after the head of the file.  params: bytes
pub fn h_late_lib() {
    let (a, b) = PLACE[5 + sx::choose(PLACE.len() as u32 - 5) as usize];
    let mut v = Vec::new();
    if sx::flip() {
        s(&mut v, "mtllib l\n");
    }
    s(&mut v, a);
    s(&mut v, "mtllib");
    let n = 1 + sx::choose(2) as usize;
    let names: Vec<Tok> = (0..n).map(|_| name(sx::param(0) as usize)).collect();
    for w in &names {
        v.push(b' ');
        v.extend_from_slice(w);
    }
    s(&mut v, b);
    if b.ends_with('\n') && sx::flip() {
        s(&mut v, "o c\nv 0 0 0\n");
    }
    let t = exact(v);
    let r = obj::parse(&t);
    see(&r);
    let mut told = true;
    match &r {
        Err(_) => sx::reach("rejected"),
        Ok(x) => {
            for w in &names {
                let mut found = false;
                for l in &x.material_libraries {
                    found |= beq(l.as_bytes(), w);
                }
                told &= found;
            }
        }
    }
    sx::check(told, "a material library statement is not skipped");
}

const COMPLETE: &[(&str, bool)] = &[
    // statement, may it take a further number?
    ("v 0 0 0", true),
    ("v 0 0 0 1", false),
    ("vt 0", true),
    ("vt 0 0", true),
    ("vt 0 0 0", false),
    ("vn 0 0 0", false),
    ("s 1", false),
    ("s off", false),
    ("usemtl a", false),
    ("o a", false),
    ("p 1", true),
    ("l 1 1", true),
    ("f 1 1 1", true),
    ("f 1 1 1 1", true),
];

/// Surplus words.  params: bytes
pub fn h_surplus() {
    let (c, more) = COMPLETE[sx::choose(COMPLETE.len() as u32) as usize];
    let n = sx::param(0) as usize;
    let mut v = Vec::new();
    s(&mut v, "v 0 0 0\n");
    if sx::flip() {
        s(&mut v, "g a\nusemtl m\np 1\n");
    }
    s(&mut v, c);
    v.push(sx::blank());
    let w = if more { letters(n) } else { name(n) };
    sx::assume(no_keyword(&w));
    v.extend_from_slice(&w);
    match sx::choose(4) {
        0 => {}
        1 => s(&mut v, "\n"),
        2 => s(&mut v, "\nv 0 0 0\n"),
        _ => s(&mut v, " 1 # c\n"),
    }
    must_fail(v, "surplus words after a complete statement are rejected");
}

const EXTRA: &[&str] = &[
    "off", "on", "default", "1", "0.5", "1/1", "-1", "x.mtl", "\"a\"", "-clamp", "+", "g1", "nan", "inf", "0 0 0", "a b", "1 1 1 1 1", "a v 0 0 0",
    "\u{e9}", "off off", "on 1", "usemap x", "smooth", "//", "/",
];

/// Listed surplus words.
pub fn h_surplus_listed() {
    let (c, more) = COMPLETE[sx::choose(COMPLETE.len() as u32) as usize];
    let w = EXTRA[sx::choose(EXTRA.len() as u32) as usize];
    let number = w.parse::<f64>().is_ok() || w.contains('0') || w.contains('1');
    sx::assume(!(more && (number || w == "//" || w == "/")));
    let mut v = Vec::new();
    s(&mut v, "v 0 0 0\n");
    if sx::flip() {
        s(&mut v, "g a\nusemtl m\np 1\n");
    }
    s(&mut v, c);
    v.push(sx::blank());
    s(&mut v, w);
    match sx::choose(4) {
        0 => {}
        1 => s(&mut v, "\n"),
        2 => s(&mut v, "\nv 0 0 0\n"),
        _ => s(&mut v, " # c\n"),
    }
    must_fail(v, "surplus words after a complete statement are rejected");
}

// ------------------------------------------------------------------ lines

/// The 1-based number of the line at an offset.
pub fn line_at(t: &[u8], at: usize) -> usize {
    let mut n = 1;
    let mut i = 0;
    while i < at {
        if t[i] == b'\r' {
            n += 1;
            if i + 1 < at && t[i + 1] == b'\n' {
                i += 1;
            }
        } else if t[i] == b'\n' {
            n += 1;
        }
        i += 1;
    }
    n
}

pub fn newline(v: &mut Vec<u8>) {
    match sx::choose(3) {
        0 => s(v, "\n"),
        1 => s(v, "\r\n"),
        _ => s(v, "\r"),
    }
}

/// A byte of a comment.
pub fn comment_byte() -> u8 {
    let b = sx::byte();
    sx::assume((b != b'\n') & (b != b'\r') & (b < 0x80));
    b
}

/// A line that has no fault, without its break.
fn good_line(v: &mut Vec<u8>) {
    match sx::choose(9) {
        0 => {}
        1 => {
            v.push(sx::blank());
            v.push(sx::blank());
        }
        2 => {
            v.push(b'#');
            v.push(comment_byte());
            v.push(comment_byte());
        }
        3 => s(v, "v 1 2 3"),
        4 => {
            s(v, "vt 1 2 #");
            v.push(comment_byte());
        }
        5 => {
            s(v, "g a");
            v.push(sx::blank());
        }
        6 => s(v, "p 1 -1"),
        7 => s(v, "o b"),
        _ => s(v, "f 1 1 1#"),
    }
}

/// Faulty lines; `!`: also faulty if the input ends there, `%`: only there.
const FAULT: &[&str] = &[
    "v 1 x 3", "v", "v 1", "v 1 2", "vt", "vt x", "vn 1 2", "vn 1 2 x", "p x", "p 1 x", "p", "p 9", "p 1 1 0", "l 1", "l",
    "l 1 x", "l 1 1 9", "l 1 1 1/1", "f", "f 1 1", "f 1 1 1 9", "f 1 1 1 x", "f 1 1 1 1/1/1/1", "f 1 1//1 1", "f -9 1 1",
    "s", "s x", "usemtl", "o", "o a b", "foo", "vp 1 2", "1", "v 1 2 3 4 5", "vn 1 2 3 4", "s 1 2", "usemtl a b", "mtllib x",
];

/// params: number of lines before, 0 fault listed / 1 symbolic
pub fn h_line() {
    let k = sx::param(0) as usize;
    let mut v = Vec::new();
    s(&mut v, "v 0 0 0");
    newline(&mut v);
    for i in 0..k {
        good_line(&mut v);
        // an object statement starts anew
        let o = v[v.len() - 1] == b'b' && v.len() > 2 && v[v.len() - 3] == b'o';
        newline(&mut v);
        if o {
            sx::assume(i + 1 == k);
        }
    }
    let at = v.len();
    if sx::param(1) == 0 {
        s(&mut v, FAULT[sx::choose(FAULT.len() as u32) as usize]);
    } else {
        match sx::choose(4) {
            0 => {
                let w = name(2);
                sx::assume(no_keyword(&w));
                v.extend_from_slice(&w);
            }
            1 => {
                s(&mut v, "v 1 2 ");
                v.extend_from_slice(&letters(2));
            }
            2 => {
                s(&mut v, "f 1 1 1 ");
                let w = name(2);
                sx::assume(no_index(&w, false));
                v.extend_from_slice(&w);
            }
            _ => {
                s(&mut v, "s ");
                v.extend_from_slice(&letters(2));
            }
        }
    }
    match sx::choose(7) {
        0 => {}
        1 => newline(&mut v),
        2 => {
            newline(&mut v);
            s(&mut v, "v 0 0 0\n");
        }
        3 => {
            s(&mut v, " #");
            v.push(comment_byte());
            newline(&mut v);
            newline(&mut v);
        }
        4 => {
            v.push(sx::blank());
            s(&mut v, "#");
        }
        5 => {
            newline(&mut v);
            s(&mut v, "\n\n  # c\n");
        }
        _ => {
            newline(&mut v);
            s(&mut v, "f 1 1 1\no x\n");
        }
    }
    expect_line(v, at);
}

pub fn expect_line(v: Vec<u8>, at: usize) {
    let want = line_at(&v, at);
    let t = exact(v);
    let r = obj::parse(&t);
    see(&r);
    if let Err(e) = &r {
        sx::reach("rejected");
        sx::check(e.line_number == want, "an error names the offending line");
        let m = format!("{}", e);
        let w = format!("Parse error at line {}: ", want);
        sx::check(m.as_bytes().starts_with(w.as_bytes()), "a displayed error names the offending line");
    }
}

const EVERY: &[&str] = &[
    "f 1 1 1\n", "l 1 1\n", "p 1\n", "g a\n", "g\n", "g a b c\n", "s 1\n", "s off\n", "usemtl m\n", "v 0 0 0 1\n", "vt 0 1\n", "vn 0 0 1\n",
    "f 1/1/1 1/1/1 1/1/1 1/1/1\n", "# c\n", "\n", "  \n", "v 1 2 3\r\n", "\r\n",
];

/// A fault after many lines.  params: number of lines
pub fn h_line_many() {
    let n = sx::param(0) as usize;
    let shape = sx::choose(6);
    let mut v = Vec::with_capacity(n * 12 + 100);
    s(&mut v, "v 0 0 0\nvt 0\nvn 0 0 0\n");
    for i in 0..n {
        s(&mut v, match shape {
            0 => "\n",
            1 => "# c\n",
            2 => "\r\n",
            3 => "v 0 0 0\r",
            4 => "p 1\n",
            _ => EVERY[(n - 1 - i) % EVERY.len()],
        });
    }
    let at = v.len();
    s(&mut v, FAULT[[0, 2, 10, 18, 22, 26, 30][sx::choose(7) as usize]]);
    if sx::flip() {
        s(&mut v, "\nv 1 2 3\n");
    }
    expect_line(v, at);
}

// ------------------------------------------------------------------ kinds

/// params: none
pub fn h_kind() {
    use ErrorKind::*;
    let mut v = Vec::new();
    // data of two vertices, one texture vertex, one normal, with or without content before
    match sx::choose(3) {
        0 => s(&mut v, "v 0 0 0\nv 0 0 0\nvt 0\nvn 0 0 0\n"),
        1 => s(&mut v, "mtllib m\no a\nv 0 0 0\nv 0 0 0\nvt 0\nvn 0 0 0\ng a\ns 1\nusemtl b\np 1\n"),
        _ => s(&mut v, "v 0 0 0\nv 0 0 0\nvt 0\nvn 0 0 0\nf 1 2 1\n"),
    }
    // 0: any ending, 1: end of the input, 2: not at the end of the input
    let mut ending = 0;
    let big = |v: &mut Vec<u8>| match sx::choose(4) {
        0 => {
            let d = sx::byte_in(b'3', b'9');
            v.push(d);
        }
        1 => {
            v.push(b'-');
            v.push(sx::byte_in(b'3', b'9'));
        }
        2 => s(v, "0"),
        _ => {
            v.push(sx::byte_in(b'1', b'9'));
            v.push(sx::digit());
            v.push(sx::digit());
        }
    };
    let want = match sx::choose(18) {
        0 => {
            s(&mut v, "p ");
            if sx::flip() {
                s(&mut v, "1 ");
            }
            big(&mut v);
            VTNIndexOutOfRange
        }
        1 => {
            s(&mut v, "l 1 ");
            if sx::flip() {
                s(&mut v, "1 ");
            }
            big(&mut v);
            VTNIndexOutOfRange
        }
        2 => {
            s(&mut v, "f 1/1/1 ");
            match sx::choose(3) {
                0 => {
                    big(&mut v);
                    s(&mut v, "/1/1");
                }
                1 => {
                    s(&mut v, "1/");
                    big(&mut v);
                    s(&mut v, "/1");
                }
                _ => {
                    s(&mut v, "1/1/");
                    big(&mut v);
                }
            }
            s(&mut v, " 1/1/1");
            VTNIndexOutOfRange
        }
        3 => {
            // a coordinate that is not a number
            let (k, n) = [("v", 3), ("vn", 3), ("vt", 1)][sx::choose(3) as usize];
            let at = sx::choose(n);
            s(&mut v, k);
            for i in 0..n {
                v.push(b' ');
                if i == at {
                    let m = 1 + sx::choose(3) as usize;
                    v.extend_from_slice(&letters(m));
                } else {
                    s(&mut v, "1");
                }
            }
            ExpectedFloat
        }
        4 => {
            s(&mut v, "p ");
            if sx::flip() {
                s(&mut v, "1 2 ");
            }
            v.extend_from_slice(&letters(2));
            ExpectedInteger
        }
        5 => {
            s(&mut v, ["l 1 ", "f 1 2 ", "f 1 2 1 ", "l 1 2 "][sx::choose(4) as usize]);
            let w = letters(2);
            v.extend_from_slice(&w);
            ExpectedInteger
        }
        6 => {
            s(&mut v, "f 1/1/1 2/1/1 ");
            let w = letters(1);
            match sx::choose(3) {
                0 => {
                    v.extend_from_slice(&w);
                    s(&mut v, "/1/1");
                }
                1 => {
                    s(&mut v, "1/");
                    v.extend_from_slice(&w);
                    s(&mut v, "/1");
                }
                _ => {
                    s(&mut v, "1/1/");
                    v.extend_from_slice(&w);
                }
            }
            ExpectedInteger
        }
        7 => {
            s(&mut v, ["l 1/1/1 ", "f 1/1/1 1/1/1 ", "f 1/1/1 1/1/1 1/1/1 ", "l 1/1/1 1/1/1 "][sx::choose(4) as usize]);
            s(&mut v, ["1/1/1/1", "2/1/1/2", "1/1/1/1/1"][sx::choose(3) as usize]);
            ExpectedVTNIndex
        }
        8 => {
            s(&mut v, ["f", "f 1", "f 1 2", "f 1/1", "f 1//1 2//1"][sx::choose(5) as usize]);
            EveryFaceElementMustHaveAtLeastThreeVertices
        }
        9 => {
            s(&mut v, ["f 1 2/1 1", "f 1/1 2//1 1/1", "f 1//1 1//1 1/1/1", "l 1 2/1", "l 1/1 1/1/1", "f 1 2 1 2 1/1"][sx::choose(6) as usize]);
            EveryVTNIndexMustHaveTheSameFormForAGivenElement
        }
        10 => {
            let n = 1 + sx::choose(4) as usize;
            let w = name(n);
            sx::assume(no_keyword(&w));
            v.extend_from_slice(&w);
            s(&mut v, ["", " 1", " 1 2 3"][sx::choose(3) as usize]);
            InvalidObjectStatement
        }
        11 => {
            s(&mut v, "s ");
            let n = 1 + sx::choose(4) as usize;
            let w = letters(n);
            sx::assume(!beq(&w, b"off"));
            v.extend_from_slice(&w);
            SmoothingGroupNameMustBeOffOrInteger
        }
        12 => {
            s(&mut v, ["s -1", "s 1.0", "s 1.5", "s on", "s OFF", "s offf", "s of", "s 0x1", "s 1/1"][sx::choose(9) as usize]);
            SmoothingGroupNameMustBeOffOrInteger
        }
        13 => {
            s(&mut v, "s");
            SmoothingGroupDeclarationHasNoName
        }
        14 => {
            s(&mut v, "usemtl");
            MaterialStatementHasNoName
        }
        15 => {
            ending = 1;
            s(&mut v, ["v", "v 1", "v 1 2", "vt", "vn", "vn 1", "vn 1 2", "l", "l 1", "p"][sx::choose(10) as usize]);
            EndOfFile
        }
        16 => {
            s(&mut v, FREE[sx::choose(FREE.len() as u32) as usize]);
            InvalidObjectStatement
        }
        _ => {
            // missing altogether, but the line goes on with a comment
            s(&mut v, "f 1 # 2 1");
            EveryFaceElementMustHaveAtLeastThreeVertices
        }
    };
    let e = if ending == 1 { sx::choose(2) } else { sx::choose(6) };
    match e {
        0 => {}
        1 => s(&mut v, " # c"),
        2 => s(&mut v, "\n"),
        3 => s(&mut v, "\r\nv 0 0 0\n"),
        4 => s(&mut v, " #\n"),
        _ => s(&mut v, "\no b\nv 0 0 0\np -1\n"),
    }
    let t = exact(v);
    let r = obj::parse(&t);
    see(&r);
    match &r {
        Ok(_) => sx::check(false, "a faulty file is rejected"),
        Err(e) => {
            sx::reach("rejected");
            sx::check(e.kind == want, "an error is of the documented kind");
        }
    }
}
