//! What errors say: display and message (C25), kinds of MTL errors (C26).

use super::bad::{letters, no_keyword as no_obj_keyword};
use super::mat;
use super::model::*;
use super::near::odd_byte;
use super::seq::name;
use super::sx;
use wavefront_obj::{mtl, obj};

fn s(v: &mut Vec<u8>, t: &str) {
    v.extend_from_slice(t.as_bytes());
}

/// Does `t` stand somewhere in `m`?
pub fn contains(m: &[u8], t: &[u8]) -> bool {
    let mut found = false;
    let mut i = 0;
    while i + t.len() <= m.len() {
        found |= beq(&m[i..i + t.len()], t);
        i += 1;
    }
    found
}

/// A word that is neither number nor keyword, of some `n` bytes.
fn word(n: usize) -> Tok {
    if n <= 4 {
        return letters(n);
    }
    // long: symbolic at the ends and in the middle, or with multi-byte characters
    let mut t: Tok = (0..n).map(|i| b"abcdfghjklmopqrstuvwxyz_.()"[i % 27]).collect();
    match sx::choose(3) {
        0 => {}
        1 => {
            let at = 1 + sx::choose(3) as usize * (n - 4) / 2;
            t[at] = 0xc3;
            t[at + 1] = 0xa9;
        }
        _ => {
            t[1] = b'q';
        }
    }
    t[0] = letters(1)[0];
    t[n - 1] = letters(1)[0];
    t
}

/// A word of digits, signs and points with `n` other bytes in it.
fn nearly(n: usize) -> Tok {
    let b = ["1", "+", "-", "-2", "+3", "12", "1.5", "-.25", "1e3", "0x"][sx::choose(10) as usize].as_bytes();
    let p = sx::choose(b.len() as u32 + 1) as usize;
    let mut w = Vec::new();
    w.extend_from_slice(&b[..p]);
    for _ in 0..n {
        let c = odd_byte();
        sx::assume(c != b'/');
        w.push(c);
    }
    w.extend_from_slice(&b[p..]);
    w
}

/// A word that is no number.
fn no_number(n: usize) -> Tok {
    if n <= 2 && sx::flip() {
        return nearly(n);
    }
    word(n)
}

const LINES: [usize; 5] = [0, 1, 9, 98, 300];

fn shown(text: &str, line: usize, m: &str) -> bool {
    let w = format!("Parse error at line {}: {}", line, m);
    beq(text.as_bytes(), w.as_bytes())
}

/// (before, after, what may stand between: 0 letters, 1 any non-keyword, 2 any, 3 not `off`)
const OBJ: &[(&str, &str, u8)] = &[
    ("v ", " 0 0", 0),
    ("v 0 ", " 0", 0),
    ("v 0 0 ", "", 0),
    ("vt ", "", 0),
    ("vt ", " 0 0", 0),
    ("vn ", " 0 0", 0),
    ("vn 0 0 ", "", 0),
    ("p ", "", 0),
    ("p 1 1 ", " 1", 0),
    ("l ", " 1", 0),
    ("l 1 ", "", 0),
    ("l 1 1 ", " 1", 0),
    ("f ", " 1 1", 0),
    ("f 1 1 ", "", 0),
    ("f 1 1 1 ", " 1", 0),
    ("f 1/", " 1/1 1/1", 0),
    ("f 1//1 1//", " 1//1", 0),
    ("f 1/1/1 1/1/1 1/1/", "", 0),
    ("f 1/1/1 1/1/1 1/", "/1", 0),
    ("s ", "", 3),
    ("", "", 1),
    ("", " 1 2 3", 1),
    ("usemtl a ", "", 1),
    ("s 1 ", "", 1),
    ("v 0 0 0 0 ", "", 1),
    ("vn 0 0 0 ", " 1", 1),
    ("vt 0 0 0 ", "", 1),
    ("o b ", "", 2),
    ("o b ", " c", 2),
];

const STEM: &[usize] = &[
    0, 1, 9, 10, 12, 25, 99, 100, 409, 819, 999, 1000, 1234, 3276, 6553, 9999, 10000, 12345, 99999, 100000, 999999, 1677721, 99999999, 214748364, 429496729, 900719925474099,
    922337203685477580, 1844674407370955160,
];

/// Errors made by hand: listed line numbers, last digit symbolic.
pub fn h_error_made() {
    let k = STEM[sx::choose(STEM.len() as u32) as usize];
    let d = sx::byte_in(b'0', b'5');
    let line = k * 10 + (d - b'0') as usize;
    let n = sx::choose(4) as usize;
    let m = exact(name(n));
    let mut n = k.to_string().into_bytes();
    if k == 0 {
        n.clear();
    }
    n.push(d);
    let n = exact(n);
    let e = obj::ParseError { line_number: line, kind: obj::ErrorKind::ExpectedFloat, message: m };
    let t = format!("{}", e);
    let mut w = Vec::new();
    s(&mut w, "Parse error at line ");
    s(&mut w, &n);
    s(&mut w, ": ");
    s(&mut w, &e.message);
    sx::reach("shown");
    sx::check(beq(t.as_bytes(), &w), "an error displays its line and message");
}

/// A fault after many lines.  params: lines, format
pub fn h_msg_lines() {
    let n = sx::param(0) as usize;
    let mut v = Vec::with_capacity(n + 100);
    for _ in 0..n {
        v.push(b'\n');
    }
    let w = letters(2);
    if sx::param(1) == 0 {
        s(&mut v, ["", "v 1 1 "][sx::choose(2) as usize]);
    }
    sx::assume(no_obj_keyword(&w));
    v.extend_from_slice(&w);
    let t = exact(v);
    let head = format!("Parse error at line {}: ", n + 1);
    let d = if sx::param(1) == 0 { obj::parse(&t).err().map(|e| format!("{}", e)) } else { mtl::parse(&t).err().map(|e| format!("{}", e)) };
    match d {
        None => sx::check(false, "a faulty file is rejected"),
        Some(d) => {
            sx::reach("rejected");
            sx::check(d.len() > head.len() && beq(&d.as_bytes()[..head.len()], head.as_bytes()), "an error displays its line");
            sx::check(contains(d.as_bytes(), &w), "the message of an error contains the token at fault");
        }
    }
}

/// The message of an error contains the token at fault.  params: bytes
pub fn h_msg() {
    let n = sx::param(0) as usize;
    let (a, z, k) = OBJ[sx::choose(OBJ.len() as u32) as usize];
    let w = if k == 0 || k == 3 { no_number(n) } else if n > 4 { word(n) } else { name(n) };
    match k {
        1 => sx::assume(no_obj_keyword(&w)),
        3 => sx::assume(!beq(&w, b"off")),
        _ => {}
    }
    let mut v = Vec::new();
    let lines = LINES[sx::choose(if n > 2 { 2 } else { 5 }) as usize];
    for _ in 0..lines {
        v.push(b'\n');
    }
    s(&mut v, "v 0 0 0\nvt 0\nvn 0 0 0\n");
    s(&mut v, a);
    v.extend_from_slice(&w);
    s(&mut v, z);
    s(&mut v, ["", "\n", " # c\nv 0 0 0\n"][sx::choose(3) as usize]);
    let t = exact(v);
    match obj::parse(&t) {
        Ok(_) => sx::check(false, "a faulty file is rejected"),
        Err(e) => {
            sx::reach("rejected");
            sx::check(contains(e.message.as_bytes(), &w), "the message of an error contains the token at fault");
            let d = format!("{}", e);
            sx::observe(d.len() as u64);
            sx::check(shown(&d, lines + 4, &e.message), "an error displays its line and message");
        }
    }
}

const MTL: &[(&str, &str, u8)] = &[
    ("Ka ", " 0 0", 0),
    ("Kd 0 ", " 0", 0),
    ("Ks 0 0 ", "", 0),
    ("Ke ", " 0 0", 0),
    ("d ", "", 0),
    ("Ns ", "", 0),
    ("Ni ", "", 0),
    ("illum ", "", 0),
    ("", "", 1),
    ("", " 1 1 1", 1),
    ("Ka 0 0 0 ", "", 1),
    ("d 1 ", "", 1),
    ("illum 1 ", " 1", 1),
    ("map_Kd x ", "", 1),
    ("bump x ", " y", 1),
    ("newmtl b ", "", 1),
];

/// The same for MTL files.  params: bytes, 0 message / 1 kind
pub fn h_mtl_msg() {
    let n = sx::param(0) as usize;
    let at = sx::choose(MTL.len() as u32) as usize;
    let (a, z, k) = MTL[at];
    let w = if k == 0 { no_number(n) } else if n > 4 { word(n) } else { name(n) };
    if k == 1 {
        sx::assume(mat::no_keyword(&w));
    }
    let mut v = Vec::new();
    let lines = LINES[sx::choose(if n > 2 { 2 } else { 5 }) as usize];
    for _ in 0..lines {
        v.push(b'\n');
    }
    // an unknown word may also stand before the first material
    let first = at == 8 && sx::flip();
    if !first {
        s(&mut v, "newmtl a\n");
    }
    s(&mut v, a);
    v.extend_from_slice(&w);
    s(&mut v, z);
    s(&mut v, ["", "\n", " # c\nnewmtl c\n"][sx::choose(3) as usize]);
    let t = exact(v);
    match mtl::parse(&t) {
        Ok(_) => sx::check(false, "a faulty file is rejected"),
        Err(e) => {
            sx::reach("rejected");
            let d = format!("{}", e);
            sx::observe(d.len() as u64);
            if sx::param(1) == 0 {
                let head = format!("Parse error at line {}: ", lines + if first { 1 } else { 2 });
                sx::check(d.len() > head.len() && beq(&d.as_bytes()[..head.len()], head.as_bytes()), "an error displays its line");
                sx::check(contains(d.as_bytes(), &w), "the message of an error contains the token at fault");
            } else {
                let want = match at {
                    _ if first => "ExpectedEndOfInput",
                    7 => "ExpectedInteger",
                    0..=6 => "ExpectedFloat",
                    _ => "ErrorParsingMaterial",
                };
                ck_kind(&e, want);
            }
        }
    }
}

pub fn ck_kind(e: &mtl::ParseError, want: &str) {
    let d = format!("{:?}", e);
    let w = format!("kind: {},", want);
    sx::check(contains(d.as_bytes(), w.as_bytes()), "an error is of the documented kind");
}

/// Other causes of MTL errors.
pub fn h_mtl_kind() {
    let mut v = Vec::new();
    s(&mut v, ["newmtl a\n", "newmtl a\nKa 1 1 1\nd 1\n", "# c\n\nnewmtl a\nmap_d x\nnewmtl b\n"][sx::choose(3) as usize]);
    let want = match sx::choose(3) {
        0 => {
            s(&mut v, "illum ");
            match sx::choose(3) {
                0 => v.push(sx::byte_in(b'3', b'9')),
                1 => {
                    v.push(sx::byte_in(b'1', b'9'));
                    v.push(sx::digit());
                    v.push(sx::digit());
                }
                _ => s(&mut v, ["256", "257", "65536", "4294967297", "18446744073709551615"][sx::choose(5) as usize]),
            }
            s(&mut v, ["", "\n", " # c\n", "\nd 1\n", " 1"][sx::choose(5) as usize]);
            "UnknownIlluminationModel"
        }
        1 => {
            let c = mat::COMPLETE[sx::choose(mat::COMPLETE.len() as u32) as usize];
            let words: Vec<&str> = c.split(' ').collect();
            let m = 1 + sx::choose(words.len() as u32 - 1) as usize;
            for (i, w) in words[..m].iter().enumerate() {
                if i > 0 {
                    v.push(sx::blank());
                }
                s(&mut v, w);
            }
            s(&mut v, ["", " ", " # c"][sx::choose(3) as usize]);
            "EndOfFile"
        }
        _ => {
            s(&mut v, "illum ");
            s(&mut v, ["1.0", "-1", "x", "0x1", "1e0", "18446744073709551616", "2.", "on"][sx::choose(8) as usize]);
            s(&mut v, ["", "\n", " # c\n", "\nd 1\n"][sx::choose(4) as usize]);
            "ExpectedInteger"
        }
    };
    let t = exact(v);
    match mtl::parse(&t) {
        Ok(_) => sx::check(false, "a faulty file is rejected"),
        Err(e) => {
            sx::reach("rejected");
            ck_kind(&e, want);
        }
    }
}
