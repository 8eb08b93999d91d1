//! Files made of a bounded number of statements with symbolic contents.

use super::model::*;
use super::sx;
use wavefront_obj::obj;

pub struct Gen {
    pub sts: Vec<St>,
    pub first: [usize; 3],
    pub last: [usize; 3],
    pub shared: Tok,
    /// Take this many-th choice instead of a symbolic one.
    pub fixed: std::cell::Cell<usize>,
}

/// A symbolic name of `n` ASCII bytes.
pub fn name(n: usize) -> Tok {
    let mut t = Vec::with_capacity(n);
    for _ in 0..n {
        t.push(sx::name_byte());
    }
    t
}

/// A symbolic name of some shape, also with multi-byte characters.
pub fn any_name() -> Tok {
    match sx::choose(5) {
        0 => name(1),
        1 => name(2),
        2 => name(5),
        3 => {
            // a two-byte character between two ASCII bytes
            vec![sx::name_byte(), sx::byte_in(0xc2, 0xdf), sx::byte_in(0x80, 0xbf), sx::name_byte()]
        }
        _ => {
            // a three-byte and a four-byte character
            vec![
                0xe0 | sx::byte_in(1, 12),
                sx::byte_in(0x80, 0xbf),
                sx::byte_in(0x80, 0xbf),
                0xf1,
                sx::byte_in(0x80, 0xbf),
                sx::byte_in(0x80, 0xbf),
                sx::byte_in(0x80, 0xbf),
            ]
        }
    }
}

/// A one-digit number between `lo` and `hi` (at most 9).
pub fn digit_num(lo: usize, hi: usize) -> Num {
    let d = sx::byte_in(b'0' + lo as u8, b'0' + hi as u8);
    Num { text: vec![d], val: (d - b'0') as i64 }
}

/// The same, written as a negative index relative to `last`.
pub fn neg_num(lo: usize, hi: usize) -> Num {
    let d = sx::byte_in(b'0' + lo as u8, b'0' + hi as u8);
    Num { text: vec![b'-', d], val: -((d - b'0') as i64) }
}

impl Gen {
    pub fn new() -> Gen {
        Gen { sts: Vec::new(), first: [0; 3], last: [0; 3], shared: Vec::new(), fixed: std::cell::Cell::new(0) }
    }

    pub fn coord(&self) -> Tok {
        vec![sx::digit()]
    }

    pub fn v(&mut self) {
        let c = self.coord();
        self.sts.push(St::V(vec![c, tok("0"), tok("0")]));
        self.last[0] += 1;
    }
    pub fn t(&mut self) {
        let c = self.coord();
        self.sts.push(St::T(vec![c, tok("0")]));
        self.last[1] += 1;
    }
    pub fn n(&mut self) {
        let c = self.coord();
        self.sts.push(St::N(vec![tok("0"), tok("0"), c]));
        self.last[2] += 1;
    }
    pub fn v_bare(&mut self) {
        self.sts.push(St::V(vec![tok("0"), tok("0"), tok("0")]));
        self.last[0] += 1;
    }
    pub fn o(&mut self, n: Tok) {
        self.sts.push(St::O(n));
        self.first = self.last;
    }

    /// A valid index of a form, if the object has the data for it.
    pub fn ix(&self, form: u8, neg: bool) -> Option<Ix> {
        let mut p = [no_num(), no_num(), no_num()];
        for j in 0..3 {
            let used = match j {
                0 => true,
                1 => form & 1 != 0,
                _ => form & 2 != 0,
            };
            if !used {
                continue;
            }
            let (lo, hi) = (self.first[j], self.last[j]);
            if lo == hi || hi > 9 {
                return None;
            }
            let c = self.fixed.get();
            p[j] = if c > 0 {
                self.fixed.set(c * 5 % 8191);
                let k = (c % (hi - lo)) as i64;
                super::index::lit(if neg { -1 - k } else { lo as i64 + 1 + k })
            } else if neg { neg_num(1, hi - lo) } else { digit_num(lo + 1, hi) };
        }
        Some(Ix { form, p })
    }

    pub fn ixs(&self, form: u8, n: usize, neg: bool) -> Option<Vec<Ix>> {
        let mut r = Vec::with_capacity(n);
        for _ in 0..n {
            r.push(self.ix(form, neg)?);
        }
        Some(r)
    }

    fn need(&mut self, a: Option<Vec<Ix>>, k: u8) {
        match a {
            None => sx::assume(false),
            Some(a) => self.sts.push(match k {
                0 => St::P(a),
                1 => St::L(a),
                _ => St::F(a),
            }),
        }
    }

    /// One statement (or two) of a kind.
    pub fn add(&mut self, kind: u8) {
        match kind {
            b'v' => self.v(),
            b't' => self.t(),
            b'n' => self.n(),
            b'p' => {
                let a = self.ixs(0, 1, false);
                self.need(a, 0)
            }
            b'P' => {
                let a = self.ixs(0, 2, false);
                self.need(a, 0)
            }
            b'l' => {
                let a = self.ixs(0, 2, false);
                self.need(a, 1)
            }
            b'L' => {
                let a = self.ixs(0, 3, false);
                self.need(a, 1)
            }
            b'f' => {
                let a = self.ixs(0, 3, false);
                self.need(a, 2)
            }
            b'F' => {
                let a = self.ixs(0, 4, false);
                self.need(a, 2)
            }
            b'-' => {
                let a = self.ixs(0, 3, true);
                self.need(a, 2)
            }
            // richest form the object allows
            b'x' => {
                let f = (self.last[1] > self.first[1]) as u8 + 2 * (self.last[2] > self.first[2]) as u8;
                let a = self.ixs(f, 3, false);
                self.need(a, 2)
            }
            b'y' => {
                let f = (self.last[1] > self.first[1]) as u8 + 2 * (self.last[2] > self.first[2]) as u8;
                let a = self.ixs(f, 3, true);
                self.need(a, 1)
            }
            b'g' => self.sts.push(St::G(vec![name(2)])),
            b'G' => self.sts.push(St::G(vec![name(1), name(2)])),
            b'H' => self.sts.push(St::G(vec![name(1), name(1), name(1)])),
            b'0' => self.sts.push(St::G(vec![])),
            b'h' => {
                let s = self.shared();
                self.sts.push(St::G(vec![s]))
            }
            b's' => {
                let d = digit_num(0, 9);
                let v = d.val as u64;
                self.sts.push(St::S(d.text, v))
            }
            b'S' => self.sts.push(St::S(tok("off"), 0)),
            b'u' => self.sts.push(St::U(name(2))),
            b'U' => {
                let s = self.shared();
                self.sts.push(St::U(s))
            }
            b'o' => self.o(name(2)),
            b'O' => {
                self.o(name(1));
                self.v()
            }
            _ => {}
        }
    }

    /// A name that is the same wherever it is used on this path.
    pub fn shared(&mut self) -> Tok {
        if self.shared.is_empty() {
            self.shared = name(2);
        }
        self.shared.clone()
    }
}

/// Alphabets of statement kinds, by number.
const ALPHA: &[(&[u8], &[u8])] = &[
    // (statements always present first, statements to choose from)
    (b"vv", b"vpFLgG0suoO"),     // 0: references (C03)
    (b"vvtn", b"pPlLfF-xyvO"),   // 1: decomposition (C05)
    (b"vv", b"gGH0hsSpLO"),      // 2: groups and smoothing (C07)
    (b"vv", b"uUpLFgsO"),        // 3: materials (C08)
    (b"", b"oOvgupLt"),          // 4: objects and names (C10)
    (b"", b"vtnxyO"),            // 5: indices across objects (C04)
    (b"v", b"vtnO"),             // 6: data (C09)
    (b"vv", b"gspO"),            // 7: longer group sequences
    (b"vv", b"UupO"),            // 8: longer material sequences
    (b"vv", b"g0pLo"),           // 9
    (b"vv", b"sSpLO"),           // 10
    (b"vvtntn", b"xyO"),         // 11
    (b"", b"oOp"),               // 12: many objects
];

/// params: properties, alphabet, number of statements
pub fn h_seq() {
    let what = sx::param(0);
    let (pre, alpha) = ALPHA[sx::param(1) as usize];
    let k = sx::param(2) as usize;
    let mut g = Gen::new();
    for &c in pre {
        g.add(c);
    }
    for _ in 0..k {
        let c = sx::choose(alpha.len() as u32) as usize;
        g.add(alpha[c]);
    }
    // an object statement needs the line break after it, which render writes
    let t = exact(render(&g.sts));
    let r = obj::parse(&t);
    let m = interpret(&g.sts);
    compare(&r, &m, &[], what);
}
