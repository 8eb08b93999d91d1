//! Texts one or two bytes away from correct ones: malformed indices (C06),
//! keywords (C12, C16) and numbers (C12, C14, C16), and numbers at the limits (C07).

use super::bad::{must_fail, no_index, no_keyword as no_obj_keyword, PLACE};
use super::mat;
use super::model::*;
use super::sx;
use wavefront_obj::obj::{self, ErrorKind};

fn s(v: &mut Vec<u8>, t: &str) {
    v.extend_from_slice(t.as_bytes());
}

/// The text with `n` bytes inserted (0), one replaced (1) or one removed (2) at some place.
fn edit(t: &str, n: usize, byte: fn() -> u8) -> Tok {
    let t = t.as_bytes();
    let mut w = Vec::new();
    match sx::choose(if n == 1 { 3 } else { 1 }) {
        0 => {
            let at = sx::choose(t.len() as u32 + 1) as usize;
            w.extend_from_slice(&t[..at]);
            for _ in 0..n {
                w.push(byte());
            }
            w.extend_from_slice(&t[at..]);
        }
        1 => {
            let at = sx::choose(t.len() as u32) as usize;
            w.extend_from_slice(t);
            w[at] = byte();
        }
        _ => {
            let at = sx::choose(t.len() as u32) as usize;
            w.extend_from_slice(&t[..at]);
            w.extend_from_slice(&t[at + 1..]);
        }
    }
    w
}

/// A byte that has no role in numbers.
pub fn odd_byte() -> u8 {
    let b = sx::name_byte();
    let digit = (b >= b'0') & (b <= b'9');
    sx::assume(!(digit | (b == b'+') | (b == b'-') | (b == b'.') | (b == b'e') | (b == b'E')));
    b
}

const INDEX: [&str; 9] = ["1", "1/1", "1//1", "1/1/1", "-1", "-1/-1", "-1//-1", "-1/1/-1", "12/12/12"];

/// A misspelt index in an element of otherwise good ones.  params: bytes
pub fn h_near_index() {
    let b = INDEX[sx::choose(9) as usize];
    let kind = sx::choose(3);
    let w = edit(b, sx::param(0) as usize, sx::name_byte);
    sx::assume(!w.is_empty());
    sx::assume(no_index(&w, kind == 0));
    sx::assume(kind != 0 || !b.contains('/'));
    let mut v = Vec::new();
    for _ in 0..12 {
        s(&mut v, "v 0 0 0\nvt 0\nvn 0 0 0\n");
    }
    s(&mut v, ["p", "l", "f"][kind as usize]);
    let n = [1, 2, 3][kind as usize] + sx::choose(2) as usize;
    let at = sx::choose(n as u32 + 1) as usize;
    for i in 0..n {
        v.push(b' ');
        // at some place, or at all
        if i == at || at == n {
            v.extend_from_slice(&w);
        } else {
            s(&mut v, b);
        }
    }
    s(&mut v, ["", "\n", "\nv 0 0 0\n"][sx::choose(3) as usize]);
    must_fail(v, "an element with an index that is none is rejected");
}

const NUMBER: [&str; 8] = ["1", "-2.5", "1e3", "+.5", "12.50E-2", "0.000001", "7.", "1234567890"];

/// A misspelt number.  params: bytes, 1: its kind
pub fn h_near_number() {
    let kind = sx::param(1) == 1;
    let (k, need, all) = [("v", 3, 4), ("vt", 1, 3), ("vn", 3, 3)][sx::choose(3) as usize];
    let n = need + sx::choose(all - need + 1);
    let at = sx::choose(n);
    sx::assume(!kind || at < need);
    let b = NUMBER[sx::choose(8) as usize];
    let mut w = Vec::new();
    let p = sx::choose(b.len() as u32 + 1) as usize;
    w.extend_from_slice(&b.as_bytes()[..p]);
    for _ in 0..sx::param(0) {
        w.push(odd_byte());
    }
    w.extend_from_slice(&b.as_bytes()[p..]);
    let mut v = Vec::new();
    s(&mut v, ["", "v 0 0 0\np 1\n"][sx::choose(2) as usize]);
    s(&mut v, k);
    for i in 0..n {
        v.push(b' ');
        if i == at {
            v.extend_from_slice(&w);
        } else {
            s(&mut v, b);
        }
    }
    s(&mut v, ["", "\n", "\nv 0 0 0\n", " # c\n"][sx::choose(4) as usize]);
    if !kind {
        return must_fail(v, "a statement with a coordinate that is no number is rejected");
    }
    let t = exact(v);
    match obj::parse(&t) {
        Ok(_) => sx::check(false, "a faulty file is rejected"),
        Err(e) => {
            sx::reach("rejected");
            sx::observe(e.line_number as u64);
            sx::check(e.kind == ErrorKind::ExpectedFloat, "an error is of the documented kind");
        }
    }
}

const STATEMENT: [(&str, &str); 12] = [
    ("v", " 0 0 0"), ("vt", " 0"), ("vn", " 0 0 0"), ("p", " 1"), ("l", " 1 1"), ("f", " 1 1 1"), ("g", " a"), ("s", " 1"), ("s", " off"),
    ("usemtl", " a"), ("o", " a"), ("mtllib", " a"),
];

/// A misspelt keyword.  params: bytes
pub fn h_near_kw() {
    let (a, z) = PLACE[sx::choose(PLACE.len() as u32) as usize];
    let (k, args) = STATEMENT[sx::choose(12) as usize];
    let w = edit(k, sx::param(0) as usize, sx::name_byte);
    sx::assume(!w.is_empty());
    sx::assume(no_obj_keyword(&w));
    let mut v = Vec::new();
    s(&mut v, a);
    v.extend_from_slice(&w);
    s(&mut v, args);
    s(&mut v, z);
    must_fail(v, "an unknown statement is rejected");
}

/// A misspelt MTL keyword.  params: bytes
pub fn h_mtl_near_kw() {
    let c = mat::COMPLETE[sx::choose(mat::COMPLETE.len() as u32) as usize];
    let (k, args) = c.split_at(c.find(' ').unwrap());
    let w = edit(k, sx::param(0) as usize, sx::name_byte);
    sx::assume(!w.is_empty());
    sx::assume(mat::no_keyword(&w));
    let mut v = Vec::new();
    s(&mut v, ["", "\n", "newmtl a\n", "newmtl a\nKa 1 1 1\n", "newmtl a\nmap_d x\n", "newmtl a\nd 1\n# c\n\n", "newmtl a\nillum 1\nnewmtl b\r\n"][sx::choose(7) as usize]);
    v.extend_from_slice(&w);
    s(&mut v, args);
    s(&mut v, ["", "\n", "\nd 1\n", "\nnewmtl c\n"][sx::choose(4) as usize]);
    mat::must_fail(v, "an unknown statement is rejected");
}

/// A misspelt MTL number.  params: bytes
pub fn h_mtl_near_number() {
    let (k, n) = [("Ka", 3), ("Kd", 3), ("Ks", 3), ("Ke", 3), ("d", 1), ("Ns", 1), ("Ni", 1), ("illum", 1)][sx::choose(8) as usize];
    let b = if k == "illum" { ["0", "1", "2", "01"][sx::choose(4) as usize] } else { NUMBER[sx::choose(8) as usize] };
    let mut w = Vec::new();
    let p = sx::choose(b.len() as u32 + 1) as usize;
    w.extend_from_slice(&b.as_bytes()[..p]);
    for _ in 0..sx::param(0) {
        w.push(odd_byte());
    }
    w.extend_from_slice(&b.as_bytes()[p..]);
    let at = sx::choose(n);
    let mut v = Vec::new();
    s(&mut v, ["newmtl a\n", "newmtl a\nKa 1 1 1\nmap_d x\n"][sx::choose(2) as usize]);
    s(&mut v, k);
    for i in 0..n {
        v.push(b' ');
        if i == at {
            v.extend_from_slice(&w);
        } else {
            s(&mut v, b);
        }
    }
    s(&mut v, ["", "\n", "\nd 1\n", " # c\n"][sx::choose(4) as usize]);
    mat::must_fail(v, "a property with a number that is none is rejected");
}

/// Smoothing group numbers at the limits of machine types.
pub fn h_smooth() {
    let p = [
        "", "1", "12", "25", "3276", "6553", "6554", "1677721", "214748364", "214748365", "429496729", "429496730", "999999999",
        "900719925474099", "922337203685477580", "922337203685477581", "1844674407370955160", "1844674407370955161", "00000", "0000000000000000000000",
    ][sx::choose(20) as usize];
    let mut t = tok(p);
    let d = if p == "1844674407370955161" { sx::byte_in(b'0', b'5') } else { sx::digit() };
    t.push(d);
    let mut want = 0u64;
    for &b in &t {
        want = want.wrapping_mul(10).wrapping_add((b - b'0') as u64);
    }
    let mut v = Vec::new();
    s(&mut v, "v 0 0 0\n");
    let before = sx::choose(3);
    s(&mut v, ["", "s off\np 1\n", "s 1\np 1\ns 2\n"][before as usize]);
    s(&mut v, "s ");
    v.extend_from_slice(&t);
    s(&mut v, "\np 1\n");
    let t = exact(v);
    match obj::parse(&t) {
        Err(_) => sx::check(false, "a well-formed file is accepted"),
        Ok(r) => {
            sx::reach("smoothed");
            let o = &r.objects[0];
            let k = o.shape_set[o.shape_set.len() - 1].smoothing_group;
            sx::check(k < o.smoothing_group_set.len(), "a smoothing group exists");
            let got = o.smoothing_group_set[k].0 as u64;
            sx::observe(got);
            sx::check(got == want, "an element's smoothing group is the one in effect");
        }
    }
}
