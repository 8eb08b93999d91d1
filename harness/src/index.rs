//! What an element index denotes (C04).

use super::model::*;
use super::seq::*;
use super::sx;
use wavefront_obj::obj::{self, ErrorKind};

/// A number of symbolic digits; the value is exact.
pub fn digits(n: usize) -> Num {
    let mut text = Vec::new();
    let mut val = 0i64;
    for _ in 0..n {
        let d = sx::digit();
        text.push(d);
        val = val * 10 + (d - b'0') as i64;
    }
    Num { text, val }
}

pub fn negate(n: Num) -> Num {
    let mut text = vec![b'-'];
    text.extend_from_slice(&n.text);
    Num { text, val: -n.val }
}

pub fn lit(v: i64) -> Num {
    Num { text: v.to_string().into_bytes(), val: v }
}

fn data(g: &mut Gen, c: [usize; 3]) {
    for _ in 0..c[0] {
        g.v_bare();
    }
    for _ in 0..c[1] {
        g.sts.push(St::T(vec![tok("0")]));
        g.last[1] += 1;
    }
    for _ in 0..c[2] {
        g.sts.push(St::N(vec![tok("0"), tok("0"), tok("1")]));
        g.last[2] += 1;
    }
}

const PREV: &[[usize; 3]] = &[[0, 0, 0], [2, 1, 3], [11, 0, 0]];
const CUR: &[[usize; 3]] = &[[1, 1, 1], [3, 1, 2], [1, 3, 1], [2, 1, 12], [12, 2, 3]];

/// One element of which one index part is symbolic, in a file with an earlier
/// and a later object and data declared after the element.
/// params: digits of the index (1 to 3), 0 no sign / 1 negative / 2 a plus sign, leading zeros
pub fn h_ix() {
    let nd = sx::param(0) as usize;
    let neg = sx::param(1) == 1;
    let plus = sx::param(1) == 2;
    let zeros = sx::param(2) as usize;
    let mut g = Gen::new();
    let p = PREV[sx::choose(PREV.len() as u32) as usize];
    if p[0] > 0 {
        g.o(tok("a"));
        data(&mut g, p);
        g.o(tok("b"));
    }
    let c = CUR[sx::choose(CUR.len() as u32) as usize];
    data(&mut g, c);
    let kind = sx::choose(3); // p, l, f
    let form = if kind == 0 { 0 } else { sx::choose(4) as u8 };
    let n = match kind {
        0 => 2,
        1 => 3,
        _ => 4,
    };
    let part = sx::choose(3) as usize;
    sx::assume(part == 0 || (form >> (part - 1)) & 1 == 1);
    let at = sx::choose(2) as usize; // first or last
    let at = if at == 0 { 0 } else { n - 1 };
    let mut x = digits(nd);
    for _ in 0..zeros {
        x.text.insert(0, b'0');
    }
    if neg {
        x = negate(x);
    }
    if plus {
        x.text.insert(0, b'+');
    }
    let mut ixs = Vec::new();
    for i in 0..n {
        let mut q = [no_num(), no_num(), no_num()];
        for j in 0..3 {
            q[j] = lit(if i % 2 == 0 { (g.first[j] + 1) as i64 } else { -1 });
        }
        if i == at {
            q[part] = x.clone();
        }
        ixs.push(Ix { form, p: q });
    }
    g.sts.push(match kind {
        0 => St::P(ixs),
        1 => St::L(ixs),
        _ => St::F(ixs),
    });
    // data declared later is not available to the element
    data(&mut g, [2, 2, 2]);
    if sx::flip() {
        g.o(tok("c"));
        data(&mut g, [3, 3, 3]);
    }
    if plus {
        // such an index may be rejected as malformed
        let t = exact(render(&g.sts));
        let r = obj::parse(&t);
        let m = interpret(&g.sts);
        if r.is_ok() {
            compare(&r, &m, &[], P04);
        } else {
            sx::reach("rejected");
        }
        return;
    }
    run(&g);
}

/// Objects without data of some kinds, after and before objects with data.
/// params: what, digits of one index part (0: all parts listed)
pub fn h_ix_none() {
    let mut g = Gen::new();
    let full = [[2, 2, 2], [1, 3, 2], [0, 2, 0], [0, 0, 3]][sx::choose(4) as usize];
    g.o(tok("a"));
    data(&mut g, full);
    if sx::flip() {
        g.o(tok("m"));
        data(&mut g, [0, 0, 0]);
    }
    g.o(tok("b"));
    let bits = sx::choose(8) as usize;
    let c = [2 * (bits & 1), bits & 2, 2 * (bits >> 2)];
    data(&mut g, c);
    let kind = sx::choose(3);
    let form = if kind == 0 { 0 } else { sx::choose(4) as u8 };
    let n = kind as usize + 1;
    let nd = sx::param(1) as usize;
    let part = sx::choose(3) as usize;
    sx::assume(part == 0 || (form >> (part - 1)) & 1 == 1);
    let neg = sx::flip();
    let mut q = [no_num(), no_num(), no_num()];
    for j in 0..3 {
        q[j] = if nd > 0 && j == part {
            let x = digits(nd);
            if neg { negate(x) } else { x }
        } else {
            // the last datum so far, of whichever object
            lit(if neg { -1 } else { (full[j] + c[j]) as i64 })
        };
    }
    let ixs: Vec<Ix> = (0..n).map(|_| Ix { form, p: q.clone() }).collect();
    g.sts.push(match kind {
        0 => St::P(ixs),
        1 => St::L(ixs),
        _ => St::F(ixs),
    });
    if sx::flip() {
        data(&mut g, [2, 2, 2]);
    } else {
        g.o(tok("c"));
        data(&mut g, [3, 3, 3]);
    }
    let t = exact(render(&g.sts));
    let r = obj::parse(&t);
    compare(&r, &interpret(&g.sts), &[], sx::param(0));
}

fn run(g: &Gen) {
    let t = exact(render(&g.sts));
    let r = obj::parse(&t);
    let m = interpret(&g.sts);
    compare(&r, &m, &[], P04);
}

const STEM: &[&str] = &[
    "1", "2", "12", "25", "26", "51", "102", "3276", "3277", "6553", "6554", "13107", "214748364", "214748365",
    "429496729", "429496730", "858993459", "922337203685477580", "1844674407370955161", "1844674407370955162",
    "9999999999999999999999999", "34028236692093846346337460743176821145", "340282366920938463463374607431768211456",
];

/// Indices around the limits of the machine types.
pub fn h_ix_limit() {
    let s = STEM[sx::choose(STEM.len() as u32) as usize];
    let neg = sx::flip();
    let d = sx::digit();
    let kind = sx::choose(4);
    let mut w: Vec<u8> = Vec::new();
    if neg {
        w.push(b'-');
    }
    w.extend_from_slice(s.as_bytes());
    w.push(d);
    let mut t: Vec<u8> = b"v 0 0 0\nv 0 0 0\nvt 0\nvn 0 0 0\n".to_vec();
    let put = |t: &mut Vec<u8>, a: &str, w: &[u8], b: &str| {
        t.extend_from_slice(a.as_bytes());
        t.extend_from_slice(w);
        t.extend_from_slice(b.as_bytes());
    };
    match kind {
        0 => put(&mut t, "p 1 ", &w, "\n"),
        1 => put(&mut t, "l 1 ", &w, " 2\n"),
        2 => put(&mut t, "f 1/1/1 2/", &w, "/1 1/1/1\n"),
        _ => put(&mut t, "f 1//1 2//1 1//", &w, "\n"),
    }
    t.extend_from_slice(b"v 0 0 0\n");
    let t = exact(t);
    let r = obj::parse(&t);
    match &r {
        Ok(_) => {
            sx::observe(0);
            sx::check(false, "an index that is out of range is rejected");
        }
        Err(e) => {
            sx::reach("index out of range");
            sx::observe(e.line_number as u64);
            let fits = s.len() < 18;
            let range = e.kind == ErrorKind::VTNIndexOutOfRange;
            sx::check(
                range | (!fits & (e.kind == ErrorKind::ExpectedInteger)),
                "an index out of range is reported as such",
            );
        }
    }
}

/// Many data.  params: number, objects, digits of the index, 0/1/2 part
pub fn h_ix_many() {
    let n = sx::param(0) as usize;
    let objs = sx::param(1) as usize;
    let nd = sx::param(2) as usize;
    let part = sx::param(3) as usize;
    let mut t: Vec<u8> = Vec::with_capacity(n * objs * 12 + 200);
    for k in 0..objs {
        t.extend_from_slice(b"o a\n");
        if part != 0 {
            t.extend_from_slice(b"v 0 0 0\n");
        }
        for _ in 0..n {
            t.extend_from_slice(match part {
                0 => b"v 0 0 0\n",
                1 => b"vt 0\n",
                _ => b"vn 0 0 0\n",
            });
        }
        if k + 1 < objs {
            continue;
        }
    }
    let total = (n * objs) as i64;
    let first = (n * (objs - 1)) as i64;
    let neg = sx::flip();
    // the last digits are symbolic, the leading ones those of the count
    let stem = match sx::choose(4) {
        0 => total,
        1 => first,
        2 => (first + total) / 2,
        _ => n as i64,
    };
    let p10 = 10i64.pow(nd as u32);
    let stem = stem / p10;
    let d = digits(nd);
    let mut w: Vec<u8> = Vec::new();
    if neg {
        w.push(b'-');
    }
    if stem > 0 {
        w.extend_from_slice(stem.to_string().as_bytes());
    }
    w.extend_from_slice(&d.text);
    let val = stem * p10 + d.val;
    let val = if neg { -val } else { val };
    t.extend_from_slice(b"l ");
    let other = if part == 0 { total } else { objs as i64 };
    let o = other.to_string().into_bytes();
    for i in 0..2 {
        if part == 0 && i == 0 {
            t.extend_from_slice(&w);
        } else {
            t.extend_from_slice(&o);
        }
        if part != 0 {
            t.extend_from_slice(if part == 1 { b"/" } else { b"//" });
            if i == 0 {
                t.extend_from_slice(&w);
            } else {
                t.extend_from_slice(b"-1");
            }
        }
        t.push(if i == 0 { b' ' } else { b'\n' });
    }
    let t = exact(t);
    let r = obj::parse(&t);
    let m = resolve(val, first as usize, total as usize);
    match (&r, m) {
        (Ok(s), Some(x)) => {
            sx::reach("accepted");
            let o = s.objects.last();
            sx::check(s.objects.len() == objs, "number of objects");
            let e = &o.unwrap().element_set;
            sx::check(e.len() == 1, "number of elements");
            let p = parts(&e[0]);
            sx::observe(p[0].1[part] as u64);
            sx::check(p[0].1[part] == x, "an index is stored as the position of the datum it denotes");
            let last = if part == 0 { n - 1 } else { 0 };
            sx::check(p[1].1[0] == last, "an index is stored as the position of the datum it denotes");
            if part != 0 {
                sx::check(p[1].1[part] == n - 1, "an index is stored as the position of the datum it denotes");
            }
        }
        (Err(e), None) => {
            sx::reach("index out of range");
            sx::observe(e.line_number as u64);
            sx::check(e.kind == ErrorKind::VTNIndexOutOfRange, "an index out of range is reported as such");
        }
        (Ok(_), None) => sx::check(false, "an index that is out of range is rejected"),
        (Err(_), Some(_)) => sx::check(false, "an index within range is accepted"),
    }
}
