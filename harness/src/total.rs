//! Totality (C01, C02) and clean names (C19) on arbitrary bytes.

use super::model::{beq, exact};
use super::sx;
use wavefront_obj::{mtl, obj};

/// `n` arbitrary bytes.
pub fn raw(v: &mut Vec<u8>, n: usize) {
    for _ in 0..n {
        v.push(sx::byte());
    }
}

pub fn ascii(v: &mut Vec<u8>, n: usize) {
    for _ in 0..n {
        let b = sx::byte();
        sx::assume(b < 0x80);
        v.push(b);
    }
}

/// Exclude what is not a string.
pub fn utf8(v: &[u8]) {
    let ok = std::str::from_utf8(v).is_ok();
    sx::assume(ok);
}

/// A template with `@` replaced by `n` symbolic ASCII bytes.
pub fn fill(t: &str, n: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(t.len() + n);
    for &b in t.as_bytes() {
        if b == b'@' {
            ascii(&mut v, n);
        } else {
            v.push(b);
        }
    }
    v
}

pub const OBJ: &[&str] = &[
    "v @\n",
    "v 1 2 @\nf 1 1 1\n",
    "vt @",
    "vn 1 2 @",
    "v 1 2 3\nf 1 1 @\n",
    "v 1 2 3\nl 1 @",
    "v 1 2 3\np @\n",
    "g @\nv 1 2 3\np 1\n",
    "s @\n",
    "usemtl @\nv 1 2 3\np 1\n",
    "o @\n",
    "mtllib @\no a\n",
    "v 1 2 3\nf 1 1 1\n@",
    "v 0 0 0\nvt 0\nvn 0 0 0\nf 1/1/@ 1/1/1 1/1/1\n",
    "v 0 0 0\nvn 0 0 0\nf 1//@ 1//1 1//1",
    "v 0 0 0\nvt 0 0\nf 1/@",
    "o a\nv 0 0 0\no b\nv 0 0 0\nl @\n",
    "v 0 0 0\ns 1\ng a\nusemtl b\np 1\n@",
    "o a\n@\no b\n",
    "@\nv 0 0 0\np 1\n",
];

pub const MTL: &[&str] = &[
    "newmtl @\n",
    "newmtl a\nKa @\n",
    "newmtl a\nKa 0 0 @",
    "newmtl a\nd @\n",
    "newmtl a\nillum @\n",
    "newmtl a\nNs @",
    "newmtl a\nmap_Ka @\n",
    "newmtl a\nmap_Bump @",
    "newmtl a\nbump @",
    "newmtl a\ndisp @\nnewmtl b\n",
    "newmtl a\nmap_@ b\n",
    "newmtl a\n@\n",
    "newmtl a\nN@\n",
    "@\nnewmtl a\n",
    "newmtl a\nKd 1 1 1\n@\nnewmtl b\n",
    "newmtl a\ndecal @\n",
];

/// Long integers around the limits of the machine types.
pub const LONG: &[&str] = &[
    "v 0 0 0\np 922337203685477580@\n",
    "v 0 0 0\np -922337203685477580@\n",
    "v 0 0 0\nl 1 1844674407370955161@\n",
    "v 0 0 0\nf 1 1 -1844674407370955161@\n",
    "v 0 0 0\nf 1 1 42949672@\n",
    "v 0 0 0\np -21474836@\n",
    "v 0 0 0\ns 1844674407370955161@\np 1\n",
    "v 0 0 0\ns @00000000000000000000000000000000\n",
    "v 1e@ 0 0\n",
    "v 1e-@ 0 0\n",
    "v 1.@e5 0 0\n",
    "v 0 0 0\nvn 0 0 0\nf 1//9223372036854775@ 1//1 1//1\n",
];

fn see_obj(r: &Result<obj::ObjectSet, obj::ParseError>) {
    match r {
        Ok(s) => {
            sx::reach("accepted");
            sx::observe(s.objects.len() as u64);
            for o in &s.objects {
                sx::observe(o.element_set.len() as u64);
                sx::observe(o.vertex_set.len() as u64);
            }
        }
        Err(e) => {
            sx::reach("rejected");
            sx::observe(100 + e.line_number as u64);
        }
    }
}

fn see_mtl(r: &Result<mtl::MaterialSet, mtl::ParseError>) {
    match r {
        Ok(s) => {
            sx::reach("accepted");
            sx::observe(s.materials.len() as u64);
        }
        Err(_) => {
            sx::reach("rejected");
            sx::observe(100);
        }
    }
}

/// params: what (0 totality, 1 names, 2 errors), number of bytes
pub fn h_obj_raw() {
    let mut v = Vec::new();
    raw(&mut v, sx::param(1) as usize);
    utf8(&v);
    let t = exact(v);
    run_obj(&t);
}

pub fn h_mtl_raw() {
    let mut v = Vec::new();
    raw(&mut v, sx::param(1) as usize);
    utf8(&v);
    let t = exact(v);
    run_mtl(&t);
}

pub fn run_obj(t: &str) {
    let r = obj::parse(t);
    see_obj(&r);
    if sx::param(0) == 1 {
        if let Ok(s) = &r {
            obj_names(t, s);
        }
    } else if sx::param(0) == 2 {
        if let Err(e) = &r {
            let m = format!("{}", e);
            let w = format!("Parse error at line {}: {}", e.line_number, e.message);
            sx::check(!e.message.is_empty(), "the message of an error is not empty");
            sx::check(beq(m.as_bytes(), w.as_bytes()), "an error displays its line and message");
        }
    } else if let Err(e) = &r {
        // errors can be shown
        let m = format!("{}", e);
        sx::check(!m.is_empty(), "an error has a description");
    }
}

pub fn run_mtl(t: &str) {
    let r = mtl::parse(t);
    see_mtl(&r);
    if sx::param(0) == 1 {
        if let Ok(s) = &r {
            mtl_names(t, s);
        }
    } else if sx::param(0) == 2 {
        if let Err(e) = &r {
            let m = format!("{}", e);
            let m = m.as_bytes();
            let h = b"Parse error at line ";
            let n = h.len();
            sx::check(m.len() > n && beq(&m[..n], h), "an error displays its line");
            let mut i = n;
            while i < m.len() && m[i].is_ascii_digit() {
                i += 1;
            }
            sx::check(i > n && m.len() > i + 2 && m[i] == b':' && m[i + 1] == b' ', "an error displays its line and message");
        }
    } else if let Err(e) = &r {
        let m = format!("{}", e);
        sx::check(!m.is_empty(), "an error has a description");
    }
}

/// params: what, bytes per hole
pub fn h_obj_tmpl() {
    let k = sx::choose(OBJ.len() as u32) as usize;
    let t = exact(fill(OBJ[k], sx::param(1) as usize));
    run_obj(&t);
}

pub fn h_mtl_tmpl() {
    let k = sx::choose(MTL.len() as u32) as usize;
    let t = exact(fill(MTL[k], sx::param(1) as usize));
    run_mtl(&t);
}

pub fn h_obj_long() {
    let k = sx::choose(LONG.len() as u32) as usize;
    let t = exact(fill(LONG[k], sx::param(1) as usize));
    run_obj(&t);
}

/// Non-ASCII bytes in every kind of token.  params: what
pub fn h_obj_utf8() {
    let k = sx::choose(OBJ.len() as u32) as usize;
    let mut v = Vec::new();
    for &b in OBJ[k].as_bytes() {
        if b == b'@' {
            wide(&mut v);
        } else {
            v.push(b);
        }
    }
    let t = exact(v);
    run_obj(&t);
}

pub fn h_mtl_utf8() {
    let k = sx::choose(MTL.len() as u32) as usize;
    let mut v = Vec::new();
    for &b in MTL[k].as_bytes() {
        if b == b'@' {
            wide(&mut v);
        } else {
            v.push(b);
        }
    }
    let t = exact(v);
    run_mtl(&t);
}

/// A byte, a multi-byte character, a byte.
fn wide(v: &mut Vec<u8>) {
    ascii(v, 1);
    match sx::choose(3) {
        0 => {
            v.push(sx::byte_in(0xc2, 0xdf));
            v.push(sx::byte_in(0x80, 0xbf));
        }
        1 => {
            v.push(sx::byte_in(0xe1, 0xec));
            v.push(sx::byte_in(0x80, 0xbf));
            v.push(sx::byte_in(0x80, 0xbf));
        }
        _ => {
            v.push(sx::byte_in(0xf1, 0xf3));
            v.push(sx::byte_in(0x80, 0xbf));
            v.push(sx::byte_in(0x80, 0xbf));
            v.push(sx::byte_in(0x80, 0xbf));
        }
    }
    ascii(v, 1);
}

/// Long words, with multi-byte characters at every offset or long numbers, in
/// every template.  params: what, 0 OBJ / 1 MTL, length
pub fn h_word() {
    let is_mtl = sx::param(1) == 1;
    let n = sx::param(2) as usize;
    let t = if is_mtl { MTL } else { OBJ };
    let k = sx::choose(t.len() as u32) as usize;
    let mut w: Vec<u8> = Vec::with_capacity(n + 8);
    let shape = sx::choose(6);
    if shape < 3 {
        // characters of two to four bytes from every offset on
        for _ in 0..sx::choose(shape as u32 + 2) {
            w.push(b'a');
        }
        while w.len() < n {
            match shape {
                0 => w.push(sx::byte_in(0xc2, 0xdf)),
                1 => {
                    w.push(sx::byte_in(0xe1, 0xec));
                    w.push(sx::byte_in(0x80, 0xbf));
                }
                _ => {
                    w.push(sx::byte_in(0xf1, 0xf3));
                    w.push(sx::byte_in(0x80, 0xbf));
                    w.push(sx::byte_in(0x80, 0xbf));
                }
            }
            w.push(sx::byte_in(0x80, 0xbf));
        }
    } else {
        match shape {
            3 => w.extend(std::iter::repeat(b'1').take(n)),
            4 => {
                w.extend_from_slice(b"-0.");
                w.extend(std::iter::repeat(b'0').take(n));
                w.push(b'7');
            }
            _ => w.extend(std::iter::repeat(b'/').take(n)),
        }
        if sx::flip() {
            ascii(&mut w, 1);
        }
    }
    let mut v = Vec::new();
    for &b in t[k].as_bytes() {
        if b == b'@' {
            v.extend_from_slice(&w);
        } else {
            v.push(b);
        }
    }
    let t = exact(v);
    if is_mtl {
        run_mtl(&t)
    } else {
        run_obj(&t)
    }
}

/// Long files: many lines, long tokens, long comments, with a symbolic byte.
/// params: what, length, 0 OBJ / 1 MTL
pub fn h_long() {
    let n = sx::param(1) as usize;
    let is_mtl = sx::param(2) == 1;
    let mut v: Vec<u8> = Vec::with_capacity(n * 2 + 64);
    let shape = sx::choose(6);
    let c = sx::byte();
    sx::assume(c < 0x80);
    if is_mtl {
        v.extend_from_slice(b"newmtl a\n");
    } else {
        v.extend_from_slice(b"v 0 0 0\n");
    }
    match shape {
        0 => v.extend(std::iter::repeat(b'\n').take(n)),
        1 => {
            for _ in 0..n / 4 {
                v.extend_from_slice(b"#\r\n ");
            }
        }
        2 => v.extend(std::iter::repeat(b' ').take(n)),
        3 => {
            v.extend_from_slice(if is_mtl { b"newmtl " } else { b"g " });
            v.extend(std::iter::repeat(b'x').take(n));
        }
        4 => {
            v.push(b'#');
            v.extend(std::iter::repeat(b'x').take(n));
        }
        _ => {
            for _ in 0..n / 8 {
                v.extend_from_slice(if is_mtl { b"Ns 1\n" } else { b"p 1\n" });
            }
        }
    }
    v.push(c);
    v.push(b'\n');
    let t = exact(v);
    if is_mtl {
        run_mtl(&t)
    } else {
        run_obj(&t)
    }
}

// ------------------------------------------------------------------ names

fn is_break(b: u8) -> bool {
    (b == b' ') | (b == b'\t') | (b == b'\\') | (b == b'\n') | (b == b'\r') | (b == b'#')
}

/// Is the name a whole word of the text?
fn word_of(t: &[u8], n: &[u8]) -> bool {
    let mut found = false;
    if n.len() > t.len() {
        return false;
    }
    for i in 0..t.len() - n.len() + 1 {
        let mut here = beq(&t[i..i + n.len()], n);
        if i > 0 {
            here &= is_break(t[i - 1]);
        }
        if i + n.len() < t.len() {
            here &= is_break(t[i + n.len()]);
        }
        found |= here;
    }
    found
}

fn clean(t: &str, n: &str) {
    sx::reach("a name");
    sx::observe(n.len() as u64);
    sx::check(!n.is_empty(), "a name is not empty");
    let mut ok = true;
    for &b in n.as_bytes() {
        ok &= !is_break(b);
    }
    sx::check(ok, "a name contains no blank, line break or comment sign");
    sx::check(word_of(t.as_bytes(), n.as_bytes()), "a name is a whole word of the input");
    let u = std::str::from_utf8(n.as_bytes()).is_ok();
    sx::check(u, "a name is valid UTF-8");
}

fn obj_names(t: &str, s: &obj::ObjectSet) {
    for n in &s.material_libraries {
        clean(t, n);
    }
    for (i, o) in s.objects.iter().enumerate() {
        if !(i == 0 && o.name.is_empty()) {
            clean(t, &o.name);
        }
        for g in &o.group_set {
            if !beq(g.0.as_bytes(), b"default") {
                clean(t, &g.0);
            }
        }
        for g in &o.geometry_set {
            if let Some(n) = &g.material_name {
                clean(t, n);
            }
        }
    }
}

fn mtl_names(t: &str, s: &mtl::MaterialSet) {
    for m in &s.materials {
        clean(t, &m.name);
        for x in [
            &m.map_ambient,
            &m.map_diffuse,
            &m.map_specular,
            &m.map_emissive,
            &m.map_specular_exponent,
            &m.map_bump,
            &m.map_displacement,
            &m.map_dissolve,
            &m.map_decal,
        ] {
            if let Some(n) = x {
                clean(t, n);
            }
        }
    }
}

/// Names of `n` bytes in every position, the first, middle and last bytes arbitrary.
/// params: 1: names only, 0: accepted, too; 0 OBJ / 1 MTL, length
pub fn h_longname() {
    let is_mtl = sx::param(1) == 1;
    let n = sx::param(2) as usize;
    let mut w = vec![b'x'; n];
    for i in [0, 1, n / 2, n - 2, n - 1] {
        let b = sx::name_byte();
        w[i] = b;
    }
    let t: &[&str] = if is_mtl {
        &[
            "newmtl @", "newmtl @\nd 1\n", "newmtl a\nmap_Ka @\n", "newmtl a\nmap_Kd @\nd 1\n", "newmtl a\nmap_Ks @", "newmtl a\nmap_Ke @\n", "newmtl a\nmap_Ns @\n",
            "newmtl a\nmap_Bump @\n", "newmtl a\nbump @\n", "newmtl a\ndisp @\n", "newmtl a\nmap_d @\n", "newmtl a\ndecal @#\n",
        ]
    } else {
        &[
            "mtllib @\no a\n", "mtllib a @ b\no a\n", "o @\n", "o a\no @ # c\nv 0 0 0\n", "g @\nv 0 0 0\np 1\n", "v 0 0 0\ng a @\np 1\n", "v 0 0 0\np 1\ng @ b",
            "usemtl @\nv 0 0 0\np 1\n", "v 0 0 0\nusemtl a\np 1\nusemtl @\np 1\n",
        ]
    };
    let t = t[sx::choose(t.len() as u32) as usize];
    let mut v = Vec::with_capacity(n + t.len());
    for &b in t.as_bytes() {
        if b == b'@' {
            v.extend_from_slice(&w);
        } else {
            v.push(b);
        }
    }
    let t = exact(v);
    if is_mtl {
        match mtl::parse(&t) {
            Err(_) => sx::check(sx::param(0) == 1, "a well-formed file is accepted"),
            Ok(r) => {
                sx::observe(r.materials.len() as u64);
                mtl_names_in(&w, &r);
            }
        }
    } else {
        match obj::parse(&t) {
            Err(_) => sx::check(sx::param(0) == 1, "a well-formed file is accepted"),
            Ok(r) => {
                sx::observe(r.objects.len() as u64);
                obj_names_in(&w, &r);
            }
        }
    }
}

/// A long name is the one written; the others are of one byte.
fn whole(w: &[u8], n: &str) {
    if n.len() > 1 && n != "default" {
        sx::reach("a name");
        sx::check(beq(n.as_bytes(), w), "a name is a whole word of the input");
    }
}

fn obj_names_in(w: &[u8], s: &obj::ObjectSet) {
    for n in &s.material_libraries {
        whole(w, n);
    }
    for o in &s.objects {
        whole(w, &o.name);
        for g in &o.group_set {
            whole(w, &g.0);
        }
        for g in &o.geometry_set {
            if let Some(n) = &g.material_name {
                whole(w, n);
            }
        }
    }
}

fn mtl_names_in(w: &[u8], s: &mtl::MaterialSet) {
    for m in &s.materials {
        whole(w, &m.name);
        for x in [
            &m.map_ambient, &m.map_diffuse, &m.map_specular, &m.map_emissive, &m.map_specular_exponent, &m.map_bump, &m.map_displacement, &m.map_dissolve, &m.map_decal,
        ] {
            if let Some(n) = x {
                whole(w, n);
            }
        }
    }
}

const EXTREME: &[&str] = &[
    "0", "1", "7", "65535", "65536", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616",
    "-1", "-9223372036854775808", "99999999999999999999999999999999", "1e308", "1e309", "-1e-400", "nan", "inf", "off", "1.5", "0x7fffffffffffffff", "1000000000000",
    "1099511627776", "281474976710656", "2147483648",
];

/// Statements with extreme numbers, in listed orders.
/// params: statements, number of files, format
pub fn h_mix_total() {
    use super::mix::Rng;
    let k = sx::choose(sx::param(1) as u32) as u64;
    let mut r = Rng::new(k + 31 * sx::param(0));
    let mut v = Vec::new();
    let mtl = sx::param(2) == 1;
    let p = |v: &mut Vec<u8>, t: &str| v.extend_from_slice(t.as_bytes());
    // in some files, most numbers are good
    let tame = r.below(3);
    if mtl {
        p(&mut v, "newmtl a\n");
    } else {
        p(&mut v, "v 0 0 0\nvt 0\nvn 0 0 0\n");
    }
    // one kind of statement is often in the majority
    let major = r.below(20);
    for _ in 0..sx::param(0) {
        let x = if r.below(2) == 0 { major } else { r.below(20) };
        let mut num = |good: &[&str], r: &mut Rng, v: &mut Vec<u8>| {
            v.push(b' ');
            if r.below(tame * 4 + 1) > 0 {
                p(v, r.of(good));
            } else {
                p(v, r.of(EXTREME));
            }
        };
        if mtl {
            let (w, n) = [("Ka", 3), ("Kd", 3), ("Ks", 3), ("Ke", 3), ("d", 1), ("Ns", 1), ("Ni", 1), ("illum", 1), ("map_Kd", 1), ("bump", 1), ("newmtl", 1)][x % 11];
            p(&mut v, w);
            for _ in 0..n {
                num(&["1", "2", "0"], &mut r, &mut v);
            }
        } else {
            match x {
                0..=5 => {
                    p(&mut v, "s");
                    num(&["1", "9223372036854775807", "4294967296", "18446744073709551615", "off", "0", "1099511627776"], &mut r, &mut v);
                }
                6 | 7 => {
                    p(&mut v, "v");
                    for _ in 0..3 {
                        num(&["1", "1e308", "-1e308", "1e-300", "inf"], &mut r, &mut v);
                    }
                }
                8 => {
                    p(&mut v, "vn");
                    for _ in 0..3 {
                        num(&["0", "1e308", "nan"], &mut r, &mut v);
                    }
                }
                9 => {
                    p(&mut v, "vt");
                    num(&["0", "1e308", "nan"], &mut r, &mut v);
                }
                10 => {
                    p(&mut v, "g");
                    for _ in 0..r.below(4) {
                        num(&["a", "default", "0"], &mut r, &mut v);
                    }
                }
                11 => {
                    p(&mut v, "usemtl");
                    num(&["a", "off", "1"], &mut r, &mut v);
                }
                12 => {
                    p(&mut v, "o");
                    num(&["a", "off", "1"], &mut r, &mut v);
                    p(&mut v, "\nv 0 0 0\nvt 0\nvn 0 0 0");
                }
                _ => {
                    p(&mut v, ["p", "l", "f"][x % 3]);
                    let form = if x % 3 == 0 { 0 } else { r.below(4) };
                    for _ in 0..x % 3 + 1 {
                        num(&["-1", "-1", "1"], &mut r, &mut v);
                        for j in 0..2 {
                            let has = form >> j & 1 == 1;
                            if has || (j == 0 && form == 2) {
                                v.push(b'/');
                            }
                            if has {
                                let at = v.len();
                                num(&["-1", "-1", "1"], &mut r, &mut v);
                                v.remove(at);
                            }
                        }
                    }
                }
            }
        }
        p(&mut v, r.of(&["\n", "\n", "\r\n", " # c\n", "\r"]));
    }
    // a last statement cut short, or a byte of any kind
    let cut = sx::choose(4) as usize;
    let n = v.len();
    if cut < 3 {
        v.truncate(n - cut);
    } else {
        raw(&mut v, 1);
        utf8(&v);
    }
    let t = exact(v);
    if mtl {
        see_mtl(&mtl::parse(&t));
    } else {
        see_obj(&obj::parse(&t));
    }
}
