//! Reader for LLVM's textual IR; functions are decoded to a compact form in
//! which aggregates and vectors are split into scalar slots.

use crate::expr::{Fx, FxMap, Op};
use std::collections::HashMap;
use std::hash::BuildHasherDefault;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    F32,
    F64,
    Ptr,
    Arr(u64, Box<Ty>),
    Vec(u64, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Other,
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = ((*w as u64 + 7) / 8).next_power_of_two();
                b.min(16)
            }
            Ty::F32 => 4,
            Ty::F64 | Ty::Ptr => 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.size().next_power_of_two().min(64),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }

    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = (*w as u64 + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::F32 => 4,
            Ty::F64 | Ty::Ptr => 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => {
                if let Ty::Int(w) = **t {
                    (n * w as u64 + 7) / 8
                } else {
                    n * t.size()
                }
            }
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                let a = self.align();
                (o + a - 1) / a * a
            }
            _ => 0,
        }
    }

    fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (j, t) in f.iter().enumerate() {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if j == i {
                        return o;
                    }
                    o += t.size();
                }
                o
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => t.size() * i as u64,
            _ => 0,
        }
    }

    fn field(&self, i: usize) -> &Ty {
        match self {
            Ty::Struct(f, _) => &f[i],
            Ty::Arr(_, t) | Ty::Vec(_, t) => t,
            _ => self,
        }
    }

    /// Bit width of a scalar.
    pub fn width(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::F32 => 32,
            Ty::F64 | Ty::Ptr => 64,
            _ => 0,
        }
    }

    /// Scalar leaves: offset, width, is pointer.
    pub fn leaves(&self, base: u64, out: &mut Vec<(u64, u32, bool)>) {
        match self {
            Ty::Struct(f, _) => {
                for (i, t) in f.iter().enumerate() {
                    t.leaves(base + self.field_off(i), out);
                }
            }
            Ty::Arr(n, t) => {
                for i in 0..*n {
                    t.leaves(base + i * t.size(), out);
                }
            }
            Ty::Vec(n, t) => {
                let s = match **t {
                    Ty::Int(w) => (w as u64) / 8,
                    _ => t.size(),
                };
                for i in 0..*n {
                    t.leaves(base + i * s, out);
                }
            }
            Ty::Void | Ty::Other => {}
            _ => out.push((base, self.width(), *self == Ty::Ptr)),
        }
    }

    pub fn slots(&self) -> usize {
        match self {
            Ty::Struct(f, _) => f.iter().map(|t| t.slots()).sum(),
            Ty::Arr(n, t) | Ty::Vec(n, t) => *n as usize * t.slots(),
            Ty::Void | Ty::Other => 0,
            _ => 1,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Opn {
    R(u32),
    K(u64),
    /// index into Module::big
    Big(u32),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}

#[derive(Clone, Debug)]
pub enum Target {
    Fn(u32),
    Ptr(Opn),
    Intr(Intr, u32),
    Ext(String),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Intr {
    FRound(u8),
    Copysign,
    FMin,
    FMax,
    Nop,
    Memcpy,
    Memmove,
    Memset,
    Umax,
    Umin,
    Smax,
    Smin,
    UsubSat,
    UaddSat,
    SaddSat,
    SsubSat,
    Ctlz,
    Cttz,
    Ctpop,
    Bswap,
    Bitreverse,
    Fshl,
    Fshr,
    Abs,
    Ucmp,
    Scmp,
    SaddO,
    UaddO,
    SsubO,
    UsubO,
    SmulO,
    UmulO,
    IsConstant,
    TlsAddr,
    Trap,
    Expect,
    FptouiSat,
    FptosiSat,
    Fabs,
    ReduceOr,
    ReduceAnd,
    ReduceAdd,
    ReduceUmax,
    ReduceUmin,
}

#[derive(Clone, Debug)]
pub enum I {
    Bin { op: Op, w: u8, d: u32, a: Opn, b: Opn },
    Icmp { p: Pred, w: u8, d: u32, a: Opn, b: Opn },
    FBin { op: Op, w: u8, d: u32, a: Opn, b: Opn },
    FNeg { w: u8, d: u32, a: Opn },
    FCmp { p: u8, w: u8, d: u32, a: Opn, b: Opn },
    Cast { op: Op, fw: u8, tw: u8, d: u32, a: Opn },
    Mov { d: u32, a: Opn },
    Sel { w: u8, ptr: bool, d: u32, c: Opn, a: Opn, b: Opn },
    Load { d: u32, w: u8, p: Opn, off: u32 },
    Store { w: u8, v: Opn, p: Opn, off: u32 },
    Gep { d: u32, base: Opn, k: i64, idx: Box<[(Opn, u8, u64)]> },
    Alloca { d: u32, off: u32 },
    Call { t: Box<Target>, args: Box<[Opn]>, d: u32, n: u32, w: u8 },
    Br { e: u32 },
    CondBr { c: Opn, t: u32, f: u32 },
    Switch { w: u8, v: Opn, cases: Box<[(u64, u32)]>, def: u32 },
    Ret { v: Box<[Opn]> },
    Unreachable,
    Rmw { op: u8, w: u8, d: u32, p: Opn, v: Opn },
    CmpXchg { w: u8, d: u32, p: Opn, c: Opn, n: Opn },
    /// lanes to one integer (first lane lowest)
    Pack { d: u32, lw: u8, lanes: Box<[Opn]> },
    Unpack { d: u32, lw: u8, n: u32, fw: u8, a: Opn },
    /// the low tw bits of (zext a * c) >> s over 256 bits
    MulShr { d: u32, fw: u8, tw: u8, a: Opn, c: u128, s: u8 },
    Unsupported(String),
}

pub struct Edge {
    pub pc: u32,
    pub moves: Box<[(u32, Opn)]>,
}

pub struct Func {
    pub name: String,
    pub code: Vec<I>,
    /// source line number entry (into Module::dbg) for each instruction; 0 = none
    pub dbg: Vec<u32>,
    pub edges: Vec<Edge>,
    pub nregs: u32,
    pub nargs: u32,
    pub frame: u32,
    pub defined: bool,
    pub id: u32,
}

pub struct Global {
    pub name: String,
    pub data: Vec<u8>,
    pub constant: bool,
    pub tls: bool,
    pub external: bool,
}

pub struct Module {
    pub funcs: Vec<Func>,
    pub fn_ids: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub big: Vec<u128>,
    /// metadata number -> (file, function name, line) of a debug location
    pub locs: FxMap<u32, (u32, u32)>,
    pub scopes: FxMap<u32, Scope>,
}

#[derive(Clone, Debug, Default)]
pub struct Scope {
    pub name: String,
    pub file: String,
    pub parent: u32,
}

pub const FN_BASE: u64 = 0x4000_0000;

type NameMap<V> = HashMap<String, V, BuildHasherDefault<Fx>>;

struct Cur<'a> {
    s: &'a [u8],
    p: usize,
}

impl<'a> Cur<'a> {
    fn new(s: &'a str) -> Cur<'a> {
        Cur { s: s.as_bytes(), p: 0 }
    }
    fn ws(&mut self) {
        while self.p < self.s.len() && (self.s[self.p] == b' ' || self.s[self.p] == b'\t' || self.s[self.p] == b'\n') {
            self.p += 1;
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        *self.s.get(self.p).unwrap_or(&0)
    }
    fn eat(&mut self, t: &str) -> bool {
        self.ws();
        if self.s[self.p..].starts_with(t.as_bytes()) {
            // whole words only
            let e = self.p + t.len();
            let lw = t.as_bytes()[t.len() - 1];
            if (lw.is_ascii_alphanumeric() || lw == b'_')
                && e < self.s.len()
                && (self.s[e].is_ascii_alphanumeric() || self.s[e] == b'_' || self.s[e] == b'.')
            {
                return false;
            }
            self.p = e;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, t: &str) -> Result<(), String> {
        if self.eat(t) {
            Ok(())
        } else {
            Err(format!("expected `{}` at `{}`", t, self.rest()))
        }
    }
    fn rest(&self) -> String {
        let e = (self.p + 60).min(self.s.len());
        String::from_utf8_lossy(&self.s[self.p..e]).into_owned()
    }
    fn word(&mut self) -> &'a str {
        self.ws();
        let st = self.p;
        while self.p < self.s.len()
            && (self.s[self.p].is_ascii_alphanumeric() || matches!(self.s[self.p], b'_' | b'.' | b'-' | b'+'))
        {
            self.p += 1;
        }
        unsafe { std::str::from_utf8_unchecked(&self.s[st..self.p]) }
    }
    /// A name after % or @ (the sigil is consumed here).
    fn name(&mut self) -> String {
        self.ws();
        self.p += 1;
        if self.p < self.s.len() && self.s[self.p] == b'"' {
            let st = self.p + 1;
            self.p += 1;
            while self.s[self.p] != b'"' {
                self.p += 1;
            }
            let r = String::from_utf8_lossy(&self.s[st..self.p]).into_owned();
            self.p += 1;
            return r;
        }
        let st = self.p;
        while self.p < self.s.len()
            && (self.s[self.p].is_ascii_alphanumeric() || matches!(self.s[self.p], b'_' | b'.' | b'-' | b'$'))
        {
            self.p += 1;
        }
        String::from_utf8_lossy(&self.s[st..self.p]).into_owned()
    }
    fn int(&mut self) -> Option<i128> {
        self.ws();
        let st = self.p;
        if self.p < self.s.len() && self.s[self.p] == b'-' {
            self.p += 1;
        }
        while self.p < self.s.len() && self.s[self.p].is_ascii_digit() {
            self.p += 1;
        }
        let t = std::str::from_utf8(&self.s[st..self.p]).ok()?;
        match t.parse::<i128>() {
            Ok(v) => Some(v),
            Err(_) => t.parse::<u128>().ok().map(|v| v as i128),
        }
    }
    fn skip_parens(&mut self) {
        // at '('
        let mut d = 0;
        while self.p < self.s.len() {
            match self.s[self.p] {
                b'(' | b'[' | b'{' => d += 1,
                b')' | b']' | b'}' => {
                    d -= 1;
                    if d == 0 {
                        self.p += 1;
                        return;
                    }
                }
                b'"' => {
                    self.p += 1;
                    while self.s[self.p] != b'"' {
                        self.p += 1;
                    }
                }
                _ => {}
            }
            self.p += 1;
        }
    }
}

pub struct Reader<'a> {
    types: HashMap<String, Ty>,
    gids: NameMap<u32>,
    gext: Vec<bool>,
    m: Module,
    src: &'a str,
    /// an integer type of more than 128 bits was read
    wide: std::cell::Cell<bool>,
}

/// A value of more than 128 bits: (`a` zero extended * `c`) >> `s`.
#[derive(Clone, Copy)]
struct Wide {
    a: Opn,
    fw: u8,
    c: u128,
    s: u32,
}

struct FnCtx {
    wide: HashMap<String, Wide>,
    slots: NameMap<u32>,
    nregs: u32,
    blocks: NameMap<u32>,
    nblocks: u32,
    frame: u64,
}

impl FnCtx {
    fn slot(&mut self, n: &str, k: usize) -> u32 {
        if let Some(&s) = self.slots.get(n) {
            return s;
        }
        let s = self.nregs;
        self.nregs += k as u32;
        self.slots.insert(n.to_string(), s);
        s
    }
    fn block(&mut self, n: &str) -> u32 {
        if let Some(&s) = self.blocks.get(n) {
            return s;
        }
        let s = self.nblocks;
        self.nblocks += 1;
        self.blocks.insert(n.to_string(), s);
        s
    }
}

const FN_ATTR_WORDS: &[&str] = &[
    "noundef", "zeroext", "signext", "noalias", "nonnull", "readonly", "readnone", "writeonly", "nofree", "inreg",
    "returned", "nocapture", "immarg", "swiftself", "nest", "dead_on_unwind", "writable", "allocptr", "allocalign",
    "noext", "initializes", "fastcc", "ccc", "coldcc", "dead_on_return", "nofpclass",
];

impl<'a> Reader<'a> {
    pub fn read(src: &'a str) -> Result<Module, String> {
        let mut r = Reader {
            types: HashMap::new(),
            gids: NameMap::default(),
            gext: vec![],
            m: Module {
                funcs: vec![],
                fn_ids: HashMap::new(),
                globals: vec![],
                big: vec![],
                locs: FxMap::default(),
                scopes: FxMap::default(),
            },
            src,
            wide: std::cell::Cell::new(false),
        };
        r.module()?;
        Ok(r.m)
    }

    fn ty(&self, c: &mut Cur) -> Result<Ty, String> {
        let ch = c.peek();
        let t = match ch {
            b'[' => {
                c.p += 1;
                let n = c.int().ok_or("array size")? as u64;
                c.expect("x")?;
                let e = self.ty(c)?;
                c.expect("]")?;
                Ty::Arr(n, Box::new(e))
            }
            b'{' => {
                c.p += 1;
                Ty::Struct(self.tylist(c, "}")?, false)
            }
            b'<' => {
                c.p += 1;
                if c.peek() == b'{' {
                    c.p += 1;
                    let l = self.tylist(c, "}")?;
                    c.expect(">")?;
                    Ty::Struct(l, true)
                } else {
                    let n = c.int().ok_or("vector size")? as u64;
                    c.expect("x")?;
                    let e = self.ty(c)?;
                    c.expect(">")?;
                    Ty::Vec(n, Box::new(e))
                }
            }
            b'%' => {
                let n = c.name();
                self.types.get(&n).cloned().ok_or(format!("unknown type {}", n))?
            }
            _ => {
                let w = c.word();
                match w {
                    "void" => Ty::Void,
                    "ptr" => Ty::Ptr,
                    "double" => Ty::F64,
                    "float" => Ty::F32,
                    "label" | "metadata" | "token" => Ty::Other,
                    _ if w.starts_with('i') && w[1..].parse::<u32>().is_ok() => {
                        let n: u32 = w[1..].parse().unwrap();
                        if n > 128 {
                            self.wide.set(true);
                        }
                        Ty::Int(n)
                    }
                    _ => return Err(format!("type `{}` at `{}`", w, c.rest())),
                }
            }
        };
        Ok(t)
    }

    fn tylist(&self, c: &mut Cur, end: &str) -> Result<Vec<Ty>, String> {
        let mut v = vec![];
        if c.eat(end) {
            return Ok(v);
        }
        loop {
            v.push(self.ty(c)?);
            if c.eat(end) {
                return Ok(v);
            }
            c.expect(",")?;
        }
    }

    fn attrs(&self, c: &mut Cur) {
        loop {
            c.ws();
            let save = c.p;
            if c.peek() == b'#' {
                c.p += 1;
                c.int();
                continue;
            }
            if c.peek() == b'"' {
                c.p += 1;
                while c.s[c.p] != b'"' {
                    c.p += 1;
                }
                c.p += 1;
                if c.peek() == b'=' {
                    c.p += 1;
                }
                continue;
            }
            let w = c.word();
            match w {
                "align" => {
                    if c.peek() == b'(' {
                        c.skip_parens();
                    } else {
                        c.int();
                    }
                }
                "dereferenceable" | "dereferenceable_or_null" | "sret" | "byval" | "captures" | "range" | "elementtype"
                | "memory" | "byref" | "preallocated" | "inalloca" => {
                    c.ws();
                    if c.peek() == b'(' {
                        c.skip_parens();
                    }
                }
                _ if FN_ATTR_WORDS.contains(&w) => {
                    if c.peek() == b'(' && (w == "initializes" || w == "nofpclass" || w == "dead_on_return") {
                        c.skip_parens();
                    }
                }
                _ => {
                    c.p = save;
                    return;
                }
            }
        }
    }

    fn gaddr(&self, n: &str) -> Result<u64, String> {
        if let Some(&g) = self.gids.get(n) {
            if self.gext[g as usize] {
                return Ok(0);
            }
            return Ok((g as u64 + 1) << 32);
        }
        if let Some(&f) = self.m.fn_ids.get(n) {
            return Ok((FN_BASE + f as u64) << 32);
        }
        Err(format!("unknown global {}", n))
    }

    /// A constant scalar, evaluated.
    fn const_scalar(&self, c: &mut Cur, t: &Ty) -> Result<u128, String> {
        let ch = c.peek();
        let w = t.width();
        let m = crate::expr::mask(w);
        if ch == b'@' {
            let n = c.name();
            return Ok(self.gaddr(&n)? as u128);
        }
        match t {
            Ty::F64 | Ty::F32 => {
                let save = c.p;
                let tok = c.word();
                let bits64 = match tok {
                    "undef" | "poison" | "zeroinitializer" => 0,
                    "+inf" => f64::INFINITY.to_bits(),
                    "-inf" => f64::NEG_INFINITY.to_bits(),
                    "+qnan" => f64::NAN.to_bits(),
                    "-qnan" => f64::NAN.to_bits() | 1 << 63,
                    _ => {
                        if let Some(h) = tok.strip_prefix("f0x") {
                            // exact bits in the type's own width
                            return u128::from_str_radix(h, 16).map_err(|e| e.to_string());
                        } else if let Some(h) = tok.strip_prefix("0x") {
                            u64::from_str_radix(h, 16).map_err(|e| e.to_string())?
                        } else {
                            match tok.parse::<f64>() {
                                Ok(v) => v.to_bits(),
                                Err(_) => {
                                    c.p = save;
                                    return Err(format!("float constant `{}`", tok));
                                }
                            }
                        }
                    }
                };
                return Ok(if *t == Ty::F64 {
                    bits64 as u128
                } else {
                    (f64::from_bits(bits64) as f32).to_bits() as u128
                });
            }
            _ => {}
        }
        if ch == b'-' || ch.is_ascii_digit() {
            let v = c.int().ok_or("int")?;
            return Ok(v as u128 & m);
        }
        let wd = c.word();
        match wd {
            "true" => Ok(1),
            "false" => Ok(0),
            "null" | "undef" | "poison" | "zeroinitializer" | "none" => Ok(0),
            "getelementptr" => {
                loop {
                    let save = c.p;
                    let x = c.word();
                    if matches!(x, "inbounds" | "nuw" | "nusw" | "inrange") {
                        if c.peek() == b'(' && x == "inrange" {
                            c.skip_parens();
                        }
                        continue;
                    }
                    c.p = save;
                    break;
                }
                c.expect("(")?;
                let st = self.ty(c)?;
                c.expect(",")?;
                let pt = self.ty(c)?;
                let mut a = self.const_scalar(c, &pt)? as u64;
                let mut cur = st;
                let mut first = true;
                while c.eat(",") {
                    c.eat("inrange");
                    let it = self.ty(c)?;
                    let i = self.const_scalar(c, &it)?;
                    let i = crate::expr::sext(i, it.width()) as i64;
                    if first {
                        a = a.wrapping_add((cur.size() as i64).wrapping_mul(i) as u64);
                        first = false;
                    } else {
                        a = a.wrapping_add(match &cur {
                            Ty::Struct(..) => cur.field_off(i as usize),
                            _ => (cur.field(0).size() as i64).wrapping_mul(i) as u64,
                        });
                        cur = cur.field(i as usize).clone();
                    }
                }
                c.expect(")")?;
                Ok(a as u128)
            }
            "inttoptr" | "ptrtoint" | "ptrtoaddr" | "bitcast" | "trunc" | "zext" => {
                c.expect("(")?;
                let ft = self.ty(c)?;
                let v = self.const_scalar(c, &ft)?;
                c.expect("to")?;
                let tt = self.ty(c)?;
                c.expect(")")?;
                Ok(v & crate::expr::mask(tt.width()))
            }
            "add" | "sub" | "xor" => {
                while c.eat("nuw") || c.eat("nsw") {}
                c.expect("(")?;
                let t1 = self.ty(c)?;
                let a = self.const_scalar(c, &t1)?;
                c.expect(",")?;
                let t2 = self.ty(c)?;
                let b = self.const_scalar(c, &t2)?;
                c.expect(")")?;
                Ok(match wd {
                    "add" => a.wrapping_add(b),
                    "sub" => a.wrapping_sub(b),
                    _ => a ^ b,
                } & m)
            }
            _ => Err(format!("constant `{}` {}", wd, c.rest())),
        }
    }

    fn const_bytes(&self, c: &mut Cur, t: &Ty, out: &mut [u8], off: u64) -> Result<(), String> {
        match t {
            Ty::Arr(..) | Ty::Struct(..) | Ty::Vec(..) => {
                let ch = c.peek();
                if ch == b'c' && c.s[c.p + 1] == b'"' {
                    c.p += 2;
                    let mut o = off as usize;
                    while c.s[c.p] != b'"' {
                        if c.s[c.p] == b'\\' {
                            if c.s[c.p + 1] == b'\\' {
                                out[o] = b'\\';
                                c.p += 2;
                            } else {
                                let h = std::str::from_utf8(&c.s[c.p + 1..c.p + 3]).unwrap();
                                out[o] = u8::from_str_radix(h, 16).map_err(|e| e.to_string())?;
                                c.p += 3;
                            }
                        } else {
                            out[o] = c.s[c.p];
                            c.p += 1;
                        }
                        o += 1;
                    }
                    c.p += 1;
                    return Ok(());
                }
                if ch.is_ascii_alphabetic() {
                    let w = c.word();
                    return match w {
                        "zeroinitializer" | "undef" | "poison" => Ok(()),
                        _ => Err(format!("aggregate constant {}", w)),
                    };
                }
                // opening: [ { <{ <
                let close = match ch {
                    b'[' => {
                        c.p += 1;
                        "]"
                    }
                    b'{' => {
                        c.p += 1;
                        "}"
                    }
                    b'<' => {
                        c.p += 1;
                        if c.peek() == b'{' {
                            c.p += 1;
                            "}>"
                        } else {
                            ">"
                        }
                    }
                    _ => return Err(format!("aggregate {}", c.rest())),
                };
                let mut i = 0;
                if c.eat(close) {
                    return Ok(());
                }
                loop {
                    let et = self.ty(c)?;
                    let o = match t {
                        Ty::Struct(..) => t.field_off(i),
                        _ => t.field(0).size() * i as u64,
                    };
                    self.const_bytes(c, &et, out, off + o)?;
                    i += 1;
                    if c.eat(close) {
                        return Ok(());
                    }
                    c.expect(",")?;
                }
            }
            _ => {
                let v = self.const_scalar(c, t)?;
                let n = ((t.width() + 7) / 8) as usize;
                for i in 0..n {
                    out[off as usize + i] = (v >> (8 * i)) as u8;
                }
                Ok(())
            }
        }
    }

    fn scalar_opn(&mut self, v: u128, w: u32) -> Opn {
        if w <= 64 {
            Opn::K(v as u64)
        } else {
            self.m.big.push(v);
            Opn::Big(self.m.big.len() as u32 - 1)
        }
    }

    /// An operand of type `t`, as scalar slots.
    fn value(&mut self, c: &mut Cur, t: &Ty, f: &mut FnCtx) -> Result<Vec<Opn>, String> {
        let ch = c.peek();
        if ch == b'%' {
            let n = c.name();
            let k = t.slots();
            let s = f.slot(&n, k);
            return Ok((0..k as u32).map(|i| Opn::R(s + i)).collect());
        }
        match t {
            Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..) => {
                let mut lv = vec![];
                t.leaves(0, &mut lv);
                if ch.is_ascii_alphabetic() {
                    let save = c.p;
                    let w = c.word();
                    match w {
                        "zeroinitializer" | "undef" | "poison" => {
                            return Ok(lv.iter().map(|l| if l.1 <= 64 { Opn::K(0) } else { self.scalar_opn(0, 128) }).collect());
                        }
                        "splat" => {
                            c.expect("(")?;
                            let et = self.ty(c)?;
                            let v = self.const_scalar(c, &et)?;
                            c.expect(")")?;
                            let o = self.scalar_opn(v, et.width());
                            return Ok(vec![o; lv.len()]);
                        }
                        _ => c.p = save,
                    }
                }
                if ch == b'c' {
                    let mut buf = vec![0u8; t.size() as usize];
                    self.const_bytes(c, t, &mut buf, 0)?;
                    return Ok(buf.iter().map(|&b| Opn::K(b as u64)).collect());
                }
                // explicit aggregate
                let close = match ch {
                    b'[' => {
                        c.p += 1;
                        "]"
                    }
                    b'{' => {
                        c.p += 1;
                        "}"
                    }
                    b'<' => {
                        c.p += 1;
                        if c.peek() == b'{' {
                            c.p += 1;
                            "}>"
                        } else {
                            ">"
                        }
                    }
                    _ => return Err(format!("aggregate value {}", c.rest())),
                };
                let mut out = vec![];
                loop {
                    let et = self.ty(c)?;
                    out.extend(self.value(c, &et, f)?);
                    if c.eat(close) {
                        return Ok(out);
                    }
                    c.expect(",")?;
                }
            }
            Ty::Other => {
                // metadata operand: skip to the closing parenthesis or comma
                while c.p < c.s.len() && c.s[c.p] != b')' && c.s[c.p] != b',' {
                    if c.s[c.p] == b'(' {
                        c.skip_parens();
                    } else {
                        c.p += 1;
                    }
                }
                Ok(vec![])
            }
            _ => {
                let v = self.const_scalar(c, t)?;
                Ok(vec![self.scalar_opn(v, t.width())])
            }
        }
    }

    fn value1(&mut self, c: &mut Cur, t: &Ty, f: &mut FnCtx) -> Result<Opn, String> {
        let v = self.value(c, t, f)?;
        v.first().copied().ok_or_else(|| "empty operand".to_string())
    }

    fn module(&mut self) -> Result<(), String> {
        let src = self.src;
        let lines: Vec<&str> = src.lines().collect();
        // Pass 1: names.
        let mut i = 0;
        let mut gl: Vec<usize> = vec![];
        let mut bodies: Vec<(u32, usize, usize)> = vec![];
        while i < lines.len() {
            let l = lines[i];
            let b = l.as_bytes();
            if b.is_empty() {
                i += 1;
                continue;
            }
            match b[0] {
                b'@' => {
                    let mut c = Cur::new(l);
                    let n = c.name();
                    let ext = l.contains(" = external ") || l.contains(" = extern_weak ");
                    // alias
                    if l.contains(" alias ") {
                        i += 1;
                        continue;
                    }
                    self.gids.insert(n.clone(), gl.len() as u32);
                    self.gext.push(ext);
                    gl.push(i);
                }
                b'%' => {
                    // named types
                    let mut c = Cur::new(l);
                    let n = c.name();
                    if c.eat("=") && c.eat("type") {
                        if let Ok(t) = self.ty(&mut c) {
                            self.types.insert(n, t);
                        }
                    }
                }
                b'd' if l.starts_with("define ") || l.starts_with("declare ") => {
                    let at = l.find('@').ok_or("function name")?;
                    let mut c = Cur { s: b, p: at };
                    let n = c.name();
                    let id = self.m.funcs.len() as u32;
                    let def = l.starts_with("define ");
                    self.m.fn_ids.insert(n.clone(), id);
                    self.m.funcs.push(Func {
                        name: n,
                        code: vec![],
                        dbg: vec![],
                        edges: vec![],
                        nregs: 0,
                        nargs: 0,
                        frame: 0,
                        defined: def,
                        id,
                    });
                    if def {
                        let st = i;
                        while lines[i] != "}" {
                            i += 1;
                        }
                        bodies.push((id, st, i));
                    }
                }
                b'!' => self.metadata(l),
                _ => {}
            }
            i += 1;
        }
        // Globals.
        for &li in &gl {
            let l = lines[li];
            let mut c = Cur::new(l);
            let name = c.name();
            c.expect("=")?;
            let mut constant = false;
            let tls = l.contains(" thread_local");
            loop {
                c.ws();
                let save = c.p;
                let w = c.word();
                match w {
                    "constant" => {
                        constant = true;
                        break;
                    }
                    "global" => break,
                    "" => return Err(format!("global {}", l)),
                    _ => {
                        if c.peek() == b'(' {
                            c.skip_parens();
                        }
                        if c.p == save {
                            return Err(format!("global {}", l));
                        }
                    }
                }
            }
            let t = self.ty(&mut c)?;
            let mut data = vec![0u8; t.size() as usize];
            let external = self.gext[self.gids[&name] as usize];
            if !external && c.peek() != b',' && c.peek() != 0 {
                if let Err(e) = self.const_bytes(&mut c, &t, &mut data, 0) {
                    return Err(format!("global {}: {}", name, e));
                }
            }
            self.m.globals.push(Global { name, data, constant, tls, external });
        }
        for (id, st, en) in bodies {
            self.function(id, &lines[st..en]).map_err(|e| format!("{}: {}", lines[st], e))?;
        }
        Ok(())
    }

    fn metadata(&mut self, l: &str) {
        // Debug locations and scopes, to report the source lines executed.
        let Some(eq) = l.find(" = ") else { return };
        let Ok(id) = l[1..eq].parse::<u32>() else { return };
        let rest = l[eq + 3..].trim_start_matches("distinct ");
        let field = |k: &str| -> Option<&str> {
            let p = rest.find(k)? + k.len();
            let t = &rest[p..];
            let e = t.find([',', ')']).unwrap_or(t.len());
            Some(t[..e].trim())
        };
        let mref = |k: &str| field(k).and_then(|s| s.strip_prefix('!')).and_then(|s| s.parse::<u32>().ok()).unwrap_or(0);
        if rest.starts_with("!DILocation(") {
            let line = field("line: ").and_then(|s| s.parse().ok()).unwrap_or(0);
            self.m.locs.insert(id, (line, mref("scope: ")));
        } else if rest.starts_with("!DISubprogram(") {
            let name = field("name: \"").map(|s| s.trim_matches('"').to_string()).unwrap_or_default();
            self.m.scopes.insert(id, Scope { name, file: format!("!{}", mref("file: ")), parent: 0 });
        } else if rest.starts_with("!DILexicalBlock") {
            self.m.scopes.insert(id, Scope { name: String::new(), file: format!("!{}", mref("file: ")), parent: mref("scope: ") });
        } else if rest.starts_with("!DIFile(") {
            let name = field("filename: \"").map(|s| s.trim_matches('"').to_string()).unwrap_or_default();
            self.m.scopes.insert(id, Scope { name, file: String::from("F"), parent: 0 });
        }
    }

    fn function(&mut self, id: u32, lines: &[&str]) -> Result<(), String> {
        let mut f = FnCtx {
            wide: HashMap::new(),
            slots: NameMap::default(),
            nregs: 0,
            blocks: NameMap::default(),
            nblocks: 0,
            frame: 0,
        };
        // Parameters.
        let hd = lines[0];
        let at = hd.find('@').unwrap();
        let mut c = Cur { s: hd.as_bytes(), p: at };
        c.name();
        c.expect("(")?;
        let mut unnamed = 0u32;
        if !c.eat(")") {
            loop {
                if c.eat("...") {
                    c.expect(")")?;
                    break;
                }
                let t = self.ty(&mut c)?;
                self.attrs(&mut c);
                if c.peek() == b'%' {
                    let n = c.name();
                    f.slot(&n, t.slots());
                } else {
                    f.slot(&unnamed.to_string(), t.slots());
                }
                unnamed += 1;
                if c.eat(")") {
                    break;
                }
                c.expect(",")?;
            }
        }
        let nargs = f.nregs;
        let mut code: Vec<I> = vec![];
        let mut dbg: Vec<u32> = vec![];
        let mut starts: HashMap<u32, u32> = HashMap::new();
        // (block, dst slot, [(values, pred)])
        let mut phis: HashMap<u32, Vec<(u32, Vec<(Vec<Opn>, u32)>)>> = HashMap::new();
        // edges: (from block, to block)
        let mut edges: Vec<(u32, u32)> = vec![];
        let mut cur = u32::MAX;
        let mut i = 1;
        let mut jumped = true;
        while i < lines.len() {
            let l = lines[i];
            i += 1;
            let b = l.as_bytes();
            if b.is_empty() || b[0] == b';' {
                continue;
            }
            if b[0] != b' ' {
                // label
                let mut c = Cur { s: b, p: 0 };
                let n = if b[0] == b'"' {
                    c.p = 0;
                    let st = 1;
                    let mut e = 1;
                    while b[e] != b'"' {
                        e += 1;
                    }
                    l[st..e].to_string()
                } else {
                    let e = l.find(':').ok_or("label")?;
                    l[..e].to_string()
                };
                cur = f.block(&n);
                starts.insert(cur, code.len() as u32);
                continue;
            }
            let t = l.trim_start();
            if t.starts_with(';') {
                continue;
            }
            if cur == u32::MAX {
                // unnamed entry block
                cur = f.block(&unnamed.to_string());
                starts.insert(cur, code.len() as u32);
            }
            let _ = jumped;
            // join continuation lines (switch, invoke, landingpad)
            let mut full = String::new();
            let text: &str = if t.starts_with("switch") {
                full.push_str(t);
                if !t.contains(']') {
                    while !lines[i].trim_start().starts_with(']') {
                        full.push(' ');
                        full.push_str(lines[i].trim_start());
                        i += 1;
                    }
                    full.push_str(" ]");
                    let tail = lines[i].trim_start();
                    full.push_str(&tail[1..]);
                    i += 1;
                }
                &full
            } else if t.starts_with("invoke") || (t.starts_with('%') && t.contains(" = invoke ")) {
                full.push_str(t);
                while i < lines.len() && lines[i].trim_start().starts_with("to label") {
                    full.push(' ');
                    full.push_str(lines[i].trim_start());
                    i += 1;
                }
                &full
            } else {
                if t.contains("landingpad") {
                    while i < lines.len() {
                        let n = lines[i].trim_start();
                        if n.starts_with("cleanup") || n.starts_with("catch ") || n.starts_with("filter ") {
                            i += 1;
                        } else {
                            break;
                        }
                    }
                }
                t
            };
            let before = code.len();
            let nslots = f.nregs;
            self.wide.set(false);
            let mut r = self.instr(text, &mut f, cur, &mut code, &mut edges, &mut phis);
            if r.is_ok() && self.wide.get() {
                code.truncate(before);
                r = self.wide_instr(text, &mut f, &mut code);
            }
            if let Err(e) = r {
                code.truncate(before);
                let _ = nslots;
                code.push(I::Unsupported(format!("{}: {}", e, &text[..text.len().min(160)])));
            }
            jumped = false;
            let d = match text.rfind("!dbg !") {
                Some(p) => {
                    let s = &text[p + 6..];
                    let e = s.find(|ch: char| !ch.is_ascii_digit()).unwrap_or(s.len());
                    s[..e].parse().unwrap_or(0)
                }
                None => 0,
            };
            while dbg.len() < code.len() {
                dbg.push(d);
            }
        }
        let mut es = vec![];
        for (from, to) in edges {
            let pc = *starts.get(&to).ok_or("missing block")?;
            let mut moves: Vec<(u32, Opn)> = vec![];
            if let Some(ps) = phis.get(&to) {
                for (d, ins) in ps {
                    let (vals, _) = ins.iter().find(|x| x.1 == from).ok_or("phi without predecessor")?;
                    for (k, v) in vals.iter().enumerate() {
                        if *v != Opn::R(d + k as u32) {
                            moves.push((d + k as u32, *v));
                        }
                    }
                }
            }
            es.push(Edge { pc, moves: moves.into_boxed_slice() });
        }
        let fr = ((f.frame + 63) / 64 * 64) as u32;
        let fun = &mut self.m.funcs[id as usize];
        fun.code = code;
        fun.dbg = dbg;
        fun.edges = es;
        fun.nregs = f.nregs;
        fun.nargs = nargs;
        fun.frame = fr;
        Ok(())
    }

    /// The high part of a 128 by 128 bit product is all that is known of wider integers.
    fn wide_instr(&mut self, t: &str, f: &mut FnCtx, code: &mut Vec<I>) -> Result<(), String> {
        let bad = || "integer of more than 128 bits".to_string();
        let mut c = Cur::new(t);
        let c = &mut c;
        if c.peek() != b'%' {
            return Err(bad());
        }
        let dn = c.name();
        c.expect("=")?;
        let op = c.word();
        loop {
            c.ws();
            let save = c.p;
            if !matches!(c.word(), "nuw" | "nsw" | "exact" | "nneg") {
                c.p = save;
                break;
            }
        }
        let ty = self.ty(c)?;
        match op {
            "zext" => {
                let a = self.value(c, &ty, f)?;
                if a.len() != 1 || ty.width() > 128 {
                    return Err(bad());
                }
                f.wide.insert(dn, Wide { a: a[0], fw: ty.width() as u8, c: 1, s: 0 });
            }
            "mul" | "lshr" => {
                if c.peek() != b'%' {
                    return Err(bad());
                }
                let mut x = *f.wide.get(&c.name()).ok_or_else(bad)?;
                c.expect(",")?;
                let k = match self.value(c, &ty, f)?[..] {
                    [Opn::Big(i)] => self.m.big[i as usize],
                    [Opn::K(k)] => k as u128,
                    _ => return Err(bad()),
                };
                if op == "mul" && x.c == 1 && x.s == 0 {
                    x.c = k;
                } else if op == "lshr" && k < 256 && x.s == 0 {
                    x.s = k as u32;
                } else {
                    return Err(bad());
                }
                f.wide.insert(dn, x);
            }
            "trunc" => {
                if c.peek() != b'%' {
                    return Err(bad());
                }
                let x = *f.wide.get(&c.name()).ok_or_else(bad)?;
                c.expect("to")?;
                let tt = self.ty(c)?;
                if tt.width() > 128 || ty.width() != 256 {
                    return Err(bad());
                }
                let d = f.slot(&dn, 1);
                code.push(I::MulShr { d, fw: x.fw, tw: tt.width() as u8, a: x.a, c: x.c, s: x.s as u8 });
            }
            _ => return Err(bad()),
        }
        Ok(())
    }

    #[allow(clippy::too_many_arguments)]
    fn instr(
        &mut self,
        t: &str,
        f: &mut FnCtx,
        cur: u32,
        code: &mut Vec<I>,
        edges: &mut Vec<(u32, u32)>,
        phis: &mut HashMap<u32, Vec<(u32, Vec<(Vec<Opn>, u32)>)>>,
    ) -> Result<(), String> {
        let mut c = Cur::new(t);
        let c = &mut c;
        let mut dst: Option<String> = None;
        if c.peek() == b'%' {
            dst = Some(c.name());
            c.expect("=")?;
        }
        let mut op = c.word();
        while matches!(op, "tail" | "musttail" | "notail") {
            op = c.word();
        }
        let dn = dst.as_deref().unwrap_or("");
        macro_rules! edge {
            ($to:expr) => {{
                edges.push((cur, $to));
                edges.len() as u32 - 1
            }};
        }
        fn skip_flags(c: &mut Cur) {
            loop {
                c.ws();
                let save = c.p;
                let w = c.word();
                if !matches!(
                    w,
                    "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "samesign" | "inbounds" | "nusw" | "fast" | "nnan" | "ninf"
                        | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "volatile" | "atomic" | "weak"
                ) {
                    c.p = save;
                    return;
                }
            }
        }
        let scal = |t: &Ty| -> Ty {
            match t {
                Ty::Vec(_, e) => (**e).clone(),
                _ => t.clone(),
            }
        };
        match op {
            "add" | "sub" | "mul" | "udiv" | "urem" | "sdiv" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" => {
                skip_flags(c);
                let ty = self.ty(c)?;
                let a = self.value(c, &ty, f)?;
                c.expect(",")?;
                let b = self.value(c, &ty, f)?;
                let o = match op {
                    "add" => Op::Add,
                    "sub" => Op::Sub,
                    "mul" => Op::Mul,
                    "udiv" => Op::UDiv,
                    "urem" => Op::URem,
                    "sdiv" => Op::SDiv,
                    "srem" => Op::SRem,
                    "shl" => Op::Shl,
                    "lshr" => Op::LShr,
                    "ashr" => Op::AShr,
                    "and" => Op::And,
                    "or" => Op::Or,
                    _ => Op::Xor,
                };
                let w = scal(&ty).width() as u8;
                let d = f.slot(dn, a.len());
                for k in 0..a.len() {
                    code.push(I::Bin { op: o, w, d: d + k as u32, a: a[k], b: b[k] });
                }
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                skip_flags(c);
                let ty = self.ty(c)?;
                let a = self.value(c, &ty, f)?;
                c.expect(",")?;
                let b = self.value(c, &ty, f)?;
                let o = match op {
                    "fadd" => Op::FAdd,
                    "fsub" => Op::FSub,
                    "fmul" => Op::FMul,
                    "fdiv" => Op::FDiv,
                    _ => Op::FRem,
                };
                let w = scal(&ty).width() as u8;
                let d = f.slot(dn, a.len());
                for k in 0..a.len() {
                    code.push(I::FBin { op: o, w, d: d + k as u32, a: a[k], b: b[k] });
                }
            }
            "fneg" => {
                skip_flags(c);
                let ty = self.ty(c)?;
                let a = self.value(c, &ty, f)?;
                let d = f.slot(dn, a.len());
                for k in 0..a.len() {
                    code.push(I::FNeg { w: scal(&ty).width() as u8, d: d + k as u32, a: a[k] });
                }
            }
            "icmp" => {
                skip_flags(c);
                let p = match c.word() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    x => return Err(format!("icmp {}", x)),
                };
                skip_flags(c);
                let ty = self.ty(c)?;
                let a = self.value(c, &ty, f)?;
                c.expect(",")?;
                let b = self.value(c, &ty, f)?;
                let d = f.slot(dn, a.len());
                let w = scal(&ty).width() as u8;
                for k in 0..a.len() {
                    code.push(I::Icmp { p, w, d: d + k as u32, a: a[k], b: b[k] });
                }
            }
            "fcmp" => {
                skip_flags(c);
                let p = match c.word() {
                    "false" => 0,
                    "oeq" => 1,
                    "ogt" => 2,
                    "oge" => 3,
                    "olt" => 4,
                    "ole" => 5,
                    "one" => 6,
                    "ord" => 7,
                    "uno" => 8,
                    "ueq" => 9,
                    "ugt" => 10,
                    "uge" => 11,
                    "ult" => 12,
                    "ule" => 13,
                    "une" => 14,
                    "true" => 15,
                    x => return Err(format!("fcmp {}", x)),
                };
                let ty = self.ty(c)?;
                let a = self.value(c, &ty, f)?;
                c.expect(",")?;
                let b = self.value(c, &ty, f)?;
                let d = f.slot(dn, a.len());
                for k in 0..a.len() {
                    code.push(I::FCmp { p, w: scal(&ty).width() as u8, d: d + k as u32, a: a[k], b: b[k] });
                }
            }
            "zext" | "sext" | "trunc" | "uitofp" | "sitofp" | "fptoui" | "fptosi" | "fpext" | "fptrunc" | "ptrtoint" | "inttoptr"
            | "bitcast" | "ptrtoaddr" => {
                skip_flags(c);
                let ft = self.ty(c)?;
                let a = self.value(c, &ft, f)?;
                c.expect("to")?;
                let tt = self.ty(c)?;
                if op == "bitcast" {
                    let (fs, ts) = (scal(&ft), scal(&tt));
                    if a.len() == tt.slots() {
                        let d = f.slot(dn, a.len());
                        for k in 0..a.len() {
                            code.push(I::Mov { d: d + k as u32, a: a[k] });
                        }
                    } else if tt.slots() == 1 {
                        let d = f.slot(dn, 1);
                        code.push(I::Pack { d, lw: fs.width() as u8, lanes: a.into_boxed_slice() });
                    } else if a.len() == 1 {
                        let n = tt.slots() as u32;
                        let d = f.slot(dn, n as usize);
                        code.push(I::Unpack { d, lw: ts.width() as u8, n, fw: fs.width() as u8, a: a[0] });
                    } else {
                        // vector to vector with other lane count: via packing groups
                        let (fw, tw) = (fs.width(), ts.width());
                        let n = tt.slots();
                        let d = f.slot(dn, n);
                        if tw > fw {
                            let g = (tw / fw) as usize;
                            for k in 0..n {
                                code.push(I::Pack {
                                    d: d + k as u32,
                                    lw: fw as u8,
                                    lanes: a[k * g..k * g + g].to_vec().into_boxed_slice(),
                                });
                            }
                        } else {
                            let g = fw / tw;
                            for (k, x) in a.iter().enumerate() {
                                code.push(I::Unpack { d: d + k as u32 * g, lw: tw as u8, n: g, fw: fw as u8, a: *x });
                            }
                        }
                    }
                } else {
                    let (fw, tw) = (scal(&ft).width() as u8, scal(&tt).width() as u8);
                    let o = match op {
                        "zext" => Op::ZExt,
                        "sext" => Op::SExt,
                        "trunc" => Op::Extract,
                        "uitofp" => Op::UiToFp,
                        "sitofp" => Op::SiToFp,
                        "fptoui" => Op::FpToUi,
                        "fptosi" => Op::FpToSi,
                        "fpext" | "fptrunc" => Op::FpCast,
                        _ => {
                            if tw < fw {
                                Op::Extract
                            } else {
                                Op::ZExt
                            }
                        }
                    };
                    let d = f.slot(dn, a.len());
                    for k in 0..a.len() {
                        if fw == tw && matches!(o, Op::ZExt | Op::Extract | Op::FpCast) {
                            code.push(I::Mov { d: d + k as u32, a: a[k] });
                        } else {
                            code.push(I::Cast { op: o, fw, tw, d: d + k as u32, a: a[k] });
                        }
                    }
                }
            }
            "select" => {
                skip_flags(c);
                let ct = self.ty(c)?;
                let cv = self.value(c, &ct, f)?;
                c.expect(",")?;
                let ty = self.ty(c)?;
                let a = self.value(c, &ty, f)?;
                c.expect(",")?;
                let ty2 = self.ty(c)?;
                let b = self.value(c, &ty2, f)?;
                let mut lv = vec![];
                ty.leaves(0, &mut lv);
                let d = f.slot(dn, a.len());
                for k in 0..a.len() {
                    let cc = if cv.len() > 1 { cv[k] } else { cv[0] };
                    code.push(I::Sel { w: lv[k].1 as u8, ptr: lv[k].2, d: d + k as u32, c: cc, a: a[k], b: b[k] });
                }
            }
            "freeze" => {
                let ty = self.ty(c)?;
                let a = self.value(c, &ty, f)?;
                let d = f.slot(dn, a.len());
                for k in 0..a.len() {
                    code.push(I::Mov { d: d + k as u32, a: a[k] });
                }
            }
            "load" => {
                skip_flags(c);
                let ty = self.ty(c)?;
                c.expect(",")?;
                let pt = self.ty(c)?;
                let p = self.value1(c, &pt, f)?;
                let mut lv = vec![];
                ty.leaves(0, &mut lv);
                if let Ty::Vec(_, e) = &ty {
                    if e.width() % 8 != 0 {
                        return Err("load of a bit vector".into());
                    }
                }
                let d = f.slot(dn, lv.len());
                // The address register may be overwritten by the first slot only if
                // it is the destination, which SSA excludes.
                for (k, l) in lv.iter().enumerate() {
                    code.push(I::Load { d: d + k as u32, w: l.1 as u8, p, off: l.0 as u32 });
                }
            }
            "store" => {
                skip_flags(c);
                let ty = self.ty(c)?;
                let v = self.value(c, &ty, f)?;
                c.expect(",")?;
                let pt = self.ty(c)?;
                let p = self.value1(c, &pt, f)?;
                let mut lv = vec![];
                ty.leaves(0, &mut lv);
                if let Ty::Vec(_, e) = &ty {
                    if e.width() % 8 != 0 {
                        return Err("store of a bit vector".into());
                    }
                }
                for (k, l) in lv.iter().enumerate() {
                    code.push(I::Store { w: l.1 as u8, v: v[k], p, off: l.0 as u32 });
                }
            }
            "getelementptr" => {
                loop {
                    skip_flags(c);
                    if c.eat("inrange") {
                        c.skip_parens();
                    } else {
                        break;
                    }
                }
                let st = self.ty(c)?;
                c.expect(",")?;
                let pt = self.ty(c)?;
                if let Ty::Vec(..) = pt {
                    return Err("vector gep".into());
                }
                let base = self.value1(c, &pt, f)?;
                let mut k: i64 = 0;
                let mut idx = vec![];
                let mut curt = st;
                let mut first = true;
                while c.eat(",") {
                    if c.peek() == b'!' {
                        break;
                    }
                    let it = self.ty(c)?;
                    let iv = self.value1(c, &it, f)?;
                    let w = it.width();
                    let scale = if first {
                        curt.size()
                    } else if let Ty::Struct(..) = curt {
                        let Opn::K(i) = iv else { return Err("struct index".into()) };
                        k += curt.field_off(i as usize) as i64;
                        curt = curt.field(i as usize).clone();
                        continue;
                    } else {
                        let s = curt.field(0).size();
                        curt = curt.field(0).clone();
                        s
                    };
                    first = false;
                    match iv {
                        Opn::K(i) => k = k.wrapping_add((crate::expr::sext(i as u128, w) as i64).wrapping_mul(scale as i64)),
                        _ => idx.push((iv, w as u8, scale)),
                    }
                }
                let d = f.slot(dn, 1);
                code.push(I::Gep { d, base, k, idx: idx.into_boxed_slice() });
            }
            "alloca" => {
                c.eat("inalloca");
                let ty = self.ty(c)?;
                let mut al = ty.align();
                let mut count = 1u64;
                while c.eat(",") {
                    if c.eat("align") {
                        al = al.max(c.int().unwrap_or(1) as u64);
                    } else if c.peek() == b'!' {
                        break;
                    } else {
                        let it = self.ty(c)?;
                        match self.value1(c, &it, f)? {
                            Opn::K(n) => count = n,
                            _ => return Err("dynamic alloca".into()),
                        }
                    }
                }
                f.frame = (f.frame + al - 1) / al * al;
                let off = f.frame as u32;
                f.frame += (ty.size() * count).max(1);
                let d = f.slot(dn, 1);
                code.push(I::Alloca { d, off });
            }
            "call" | "invoke" => {
                skip_flags(c);
                self.attrs(c);
                let rt = self.ty(c)?;
                // function type of a variadic callee
                if c.peek() == b'(' {
                    c.skip_parens();
                }
                let tgt;
                let ch = c.peek();
                let mut name = String::new();
                if ch == b'@' {
                    name = c.name();
                    tgt = None;
                } else if ch == b'%' {
                    tgt = Some(self.value1(c, &Ty::Ptr, f)?);
                } else if c.eat("asm") {
                    // barriers without output only
                    if rt != Ty::Void {
                        return Err("inline assembly".into());
                    }
                    return Ok(());
                } else {
                    let v = self.const_scalar(c, &Ty::Ptr)?;
                    tgt = Some(Opn::K(v as u64));
                }
                c.expect("(")?;
                let mut args = vec![];
                let mut argw = 0;
                let mut argn: Vec<usize> = vec![];
                if !c.eat(")") {
                    loop {
                        let at = self.ty(c)?;
                        self.attrs(c);
                        let v = self.value(c, &at, f)?;
                        if argn.is_empty() {
                            argw = scal(&at).width();
                        }
                        argn.push(v.len());
                        args.extend(v);
                        if c.eat(")") {
                            break;
                        }
                        c.expect(",")?;
                    }
                }
                let n = rt.slots();
                let d = if n > 0 && !dn.is_empty() { f.slot(dn, n) } else { u32::MAX };
                let rw = scal(&rt).width() as u8;
                let target = match tgt {
                    Some(o) => Target::Ptr(o),
                    None => {
                        if let Some(i) = name.strip_prefix("llvm.") {
                            let (k, w) = match intrinsic(i, &rt, argw) {
                                Some(x) => x,
                                None => return Err(format!("intrinsic {}", name)),
                            };
                            // Element-wise intrinsics on vectors.
                            if n > 1
                                && matches!(rt, Ty::Vec(..))
                                && argn.iter().all(|&x| x == n || x == 1)
                            {
                                for l in 0..n {
                                    let mut la = vec![];
                                    let mut o = 0;
                                    for &an in &argn {
                                        la.push(if an == n { args[o + l] } else { args[o] });
                                        o += an;
                                    }
                                    code.push(I::Call {
                                        t: Box::new(Target::Intr(k, w)),
                                        args: la.into_boxed_slice(),
                                        d: d + l as u32,
                                        n: 1,
                                        w: rw,
                                    });
                                }
                                return Ok(());
                            }
                            if k == Intr::Nop {
                                if op == "invoke" {
                                    return Err("invoke of an intrinsic".into());
                                }
                                return Ok(());
                            }
                            Target::Intr(k, w)
                        } else {
                            let id = *self.m.fn_ids.get(&name).ok_or(format!("unknown callee {}", name))?;
                            if self.m.funcs[id as usize].defined {
                                Target::Fn(id)
                            } else {
                                Target::Ext(name)
                            }
                        }
                    }
                };
                code.push(I::Call { t: Box::new(target), args: args.into_boxed_slice(), d, n: n as u32, w: rw });
                if op == "invoke" {
                    let p = t.rfind("to label %").ok_or("invoke destination")?;
                    c.p = p + "to label ".len();
                    let l = c.name();
                    let b = f.block(&l);
                    let e = edge!(b);
                    code.push(I::Br { e });
                }
            }
            "br" => {
                if c.eat("label") {
                    let l = c.name();
                    let b = f.block(&l);
                    let e = edge!(b);
                    code.push(I::Br { e });
                } else {
                    let ty = self.ty(c)?;
                    let v = self.value1(c, &ty, f)?;
                    c.expect(",")?;
                    c.expect("label")?;
                    let l1 = c.name();
                    c.expect(",")?;
                    c.expect("label")?;
                    let l2 = c.name();
                    let b1 = f.block(&l1);
                    let b2 = f.block(&l2);
                    let t = edge!(b1);
                    let fe = edge!(b2);
                    code.push(I::CondBr { c: v, t, f: fe });
                }
            }
            "switch" => {
                let ty = self.ty(c)?;
                let v = self.value1(c, &ty, f)?;
                c.expect(",")?;
                c.expect("label")?;
                let l = c.name();
                let b = f.block(&l);
                let def = edge!(b);
                c.expect("[")?;
                let mut cases = vec![];
                while !c.eat("]") {
                    let ct = self.ty(c)?;
                    let k = self.const_scalar(c, &ct)?;
                    c.expect(",")?;
                    c.expect("label")?;
                    let l = c.name();
                    let b = f.block(&l);
                    let e = edge!(b);
                    if ct.width() > 64 && k > u64::MAX as u128 {
                        return Err("wide switch".into());
                    }
                    cases.push((k as u64, e));
                }
                code.push(I::Switch { w: ty.width() as u8, v, cases: cases.into_boxed_slice(), def });
            }
            "phi" => {
                skip_flags(c);
                let ty = self.ty(c)?;
                let d = f.slot(dn, ty.slots());
                let mut ins = vec![];
                loop {
                    c.expect("[")?;
                    let v = self.value(c, &ty, f)?;
                    c.expect(",")?;
                    let l = c.name();
                    let b = f.block(&l);
                    c.expect("]")?;
                    ins.push((v, b));
                    if !c.eat(",") {
                        break;
                    }
                    if c.peek() == b'!' {
                        break;
                    }
                }
                phis.entry(cur).or_default().push((d, ins));
            }
            "ret" => {
                let ty = self.ty(c)?;
                let v = if ty == Ty::Void { vec![] } else { self.value(c, &ty, f)? };
                code.push(I::Ret { v: v.into_boxed_slice() });
            }
            "unreachable" => code.push(I::Unreachable),
            "extractvalue" => {
                let ty = self.ty(c)?;
                let v = self.value(c, &ty, f)?;
                let (mut off, mut t) = (0, ty);
                while c.eat(",") {
                    if c.peek() == b'!' {
                        break;
                    }
                    let i = c.int().ok_or("index")? as usize;
                    for j in 0..i {
                        off += t.field(j).slots();
                    }
                    t = t.field(i).clone();
                }
                let n = t.slots();
                let d = f.slot(dn, n);
                for k in 0..n {
                    code.push(I::Mov { d: d + k as u32, a: v[off + k] });
                }
            }
            "insertvalue" => {
                let ty = self.ty(c)?;
                let v = self.value(c, &ty, f)?;
                c.expect(",")?;
                let et = self.ty(c)?;
                let e = self.value(c, &et, f)?;
                let (mut off, mut t) = (0, ty);
                while c.eat(",") {
                    if c.peek() == b'!' {
                        break;
                    }
                    let i = c.int().ok_or("index")? as usize;
                    for j in 0..i {
                        off += t.field(j).slots();
                    }
                    t = t.field(i).clone();
                }
                let d = f.slot(dn, v.len());
                for k in 0..v.len() {
                    let a = if k >= off && k < off + e.len() { e[k - off] } else { v[k] };
                    code.push(I::Mov { d: d + k as u32, a });
                }
            }
            "extractelement" => {
                let ty = self.ty(c)?;
                let v = self.value(c, &ty, f)?;
                c.expect(",")?;
                let it = self.ty(c)?;
                match self.value1(c, &it, f)? {
                    Opn::K(i) => {
                        let d = f.slot(dn, 1);
                        code.push(I::Mov { d, a: v[i as usize] });
                    }
                    _ => return Err("variable vector index".into()),
                }
            }
            "insertelement" => {
                let ty = self.ty(c)?;
                let v = self.value(c, &ty, f)?;
                c.expect(",")?;
                let et = self.ty(c)?;
                let e = self.value1(c, &et, f)?;
                c.expect(",")?;
                let it = self.ty(c)?;
                match self.value1(c, &it, f)? {
                    Opn::K(i) => {
                        let d = f.slot(dn, v.len());
                        for k in 0..v.len() {
                            code.push(I::Mov { d: d + k as u32, a: if k as u64 == i { e } else { v[k] } });
                        }
                    }
                    _ => return Err("variable vector index".into()),
                }
            }
            "shufflevector" => {
                let ty = self.ty(c)?;
                let a = self.value(c, &ty, f)?;
                c.expect(",")?;
                let ty2 = self.ty(c)?;
                let b = self.value(c, &ty2, f)?;
                c.expect(",")?;
                let mt = self.ty(c)?;
                let m = self.value(c, &mt, f)?;
                let d = f.slot(dn, m.len());
                for (k, x) in m.iter().enumerate() {
                    let Opn::K(i) = x else { return Err("shuffle mask".into()) };
                    let i = *i as usize;
                    let v = if i < a.len() {
                        a[i]
                    } else if i - a.len() < b.len() {
                        b[i - a.len()]
                    } else {
                        Opn::K(0)
                    };
                    code.push(I::Mov { d: d + k as u32, a: v });
                }
            }
            "fence" => {}
            "atomicrmw" => {
                skip_flags(c);
                let k = c.word();
                let o = match k {
                    "add" => 0,
                    "sub" => 1,
                    "and" => 2,
                    "or" => 3,
                    "xor" => 4,
                    "xchg" => 5,
                    "umax" => 6,
                    "umin" => 7,
                    _ => return Err(format!("atomicrmw {}", k)),
                };
                let pt = self.ty(c)?;
                let p = self.value1(c, &pt, f)?;
                c.expect(",")?;
                let ty = self.ty(c)?;
                let v = self.value1(c, &ty, f)?;
                let d = f.slot(dn, 1);
                code.push(I::Rmw { op: o, w: ty.width() as u8, d, p, v });
            }
            "cmpxchg" => {
                skip_flags(c);
                let pt = self.ty(c)?;
                let p = self.value1(c, &pt, f)?;
                c.expect(",")?;
                let ty = self.ty(c)?;
                let e = self.value1(c, &ty, f)?;
                c.expect(",")?;
                let ty2 = self.ty(c)?;
                let n = self.value1(c, &ty2, f)?;
                let d = f.slot(dn, 2);
                code.push(I::CmpXchg { w: ty.width() as u8, d, p, c: e, n });
            }
            "landingpad" | "resume" | "cleanupret" => {
                code.push(I::Unsupported("unwinding".into()));
            }
            _ => return Err(format!("instruction {}", op)),
        }
        Ok(())
    }
}

fn intrinsic(n: &str, rt: &Ty, argw: u32) -> Option<(Intr, u32)> {
    let w = match rt {
        Ty::Vec(_, t) => t.width(),
        Ty::Struct(f, _) => f[0].width(),
        Ty::Void => 0,
        t => t.width(),
    };
    let starts = |p: &str| n.starts_with(p);
    let k = if starts("lifetime.")
        || starts("assume")
        || starts("experimental.noalias")
        || starts("dbg.")
        || starts("donothing")
        || starts("x86.sse2.pause")
        || starts("invariant.")
        || starts("prefetch")
        || starts("fake.use")
    {
        Intr::Nop
    } else if starts("memcpy.inline") || starts("memcpy.p0") {
        Intr::Memcpy
    } else if starts("memmove.p0") {
        Intr::Memmove
    } else if starts("memset.p0") || starts("memset.inline") {
        Intr::Memset
    } else if starts("umax.") {
        Intr::Umax
    } else if starts("umin.") {
        Intr::Umin
    } else if starts("smax.") {
        Intr::Smax
    } else if starts("smin.") {
        Intr::Smin
    } else if starts("usub.sat") {
        Intr::UsubSat
    } else if starts("uadd.sat") {
        Intr::UaddSat
    } else if starts("sadd.sat") {
        Intr::SaddSat
    } else if starts("ssub.sat") {
        Intr::SsubSat
    } else if starts("ctlz.") {
        Intr::Ctlz
    } else if starts("cttz.") {
        Intr::Cttz
    } else if starts("ctpop.") {
        Intr::Ctpop
    } else if starts("bswap.") {
        Intr::Bswap
    } else if starts("bitreverse.") {
        Intr::Bitreverse
    } else if starts("fshl.") {
        Intr::Fshl
    } else if starts("fshr.") {
        Intr::Fshr
    } else if starts("abs.") {
        Intr::Abs
    } else if starts("ucmp.") {
        return Some((Intr::Ucmp, argw));
    } else if starts("scmp.") {
        return Some((Intr::Scmp, argw));
    } else if starts("sadd.with.overflow") {
        Intr::SaddO
    } else if starts("uadd.with.overflow") {
        Intr::UaddO
    } else if starts("ssub.with.overflow") {
        Intr::SsubO
    } else if starts("usub.with.overflow") {
        Intr::UsubO
    } else if starts("smul.with.overflow") {
        Intr::SmulO
    } else if starts("umul.with.overflow") {
        Intr::UmulO
    } else if starts("is.constant") {
        Intr::IsConstant
    } else if starts("threadlocal.address") {
        Intr::TlsAddr
    } else if starts("trap") || starts("ubsantrap") {
        Intr::Trap
    } else if starts("expect") {
        Intr::Expect
    } else if starts("fptoui.sat") {
        return Some((Intr::FptouiSat, argw));
    } else if starts("fptosi.sat") {
        return Some((Intr::FptosiSat, argw));
    } else if starts("fabs.") {
        Intr::Fabs
    } else if starts("trunc.") {
        Intr::FRound(0)
    } else if starts("floor.") {
        Intr::FRound(1)
    } else if starts("ceil.") {
        Intr::FRound(2)
    } else if starts("roundeven.") || starts("rint.") || starts("nearbyint.") {
        Intr::FRound(3)
    } else if starts("round.") {
        Intr::FRound(4)
    } else if starts("copysign.") {
        Intr::Copysign
    } else if starts("minnum") || starts("minimumnum") {
        Intr::FMin
    } else if starts("maxnum") || starts("maximumnum") {
        Intr::FMax
    } else if starts("vector.reduce.or") {
        Intr::ReduceOr
    } else if starts("vector.reduce.and") {
        Intr::ReduceAnd
    } else if starts("vector.reduce.add") {
        Intr::ReduceAdd
    } else if starts("vector.reduce.umax") {
        Intr::ReduceUmax
    } else if starts("vector.reduce.umin") {
        Intr::ReduceUmin
    } else {
        return None;
    };
    Some((k, w))
}
