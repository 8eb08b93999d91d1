//! Faults after statements of every kind: rejection, line, kind of error.

use super::bad::{self, letter, newline};
use super::errs::ck_kind;
use super::mat;
use super::model::*;
use super::seq::name;
use super::sx;
use wavefront_obj::{
    mtl,
    obj::{self, ErrorKind, ErrorKind::*},
};

/// `@` any name of one byte, `%` a digit, `~` a letter.
fn put(v: &mut Vec<u8>, t: &str) {
    for &b in t.as_bytes() {
        match b {
            b'@' => v.push(name(1)[0]),
            b'%' => v.push(sx::digit()),
            b'~' => v.push(letter()),
            _ => v.push(b),
        }
    }
}

/// Statements that may stand before any other.
const OBJ: &[&str] = &[
    "", " \t", "#", "# @ v x", " \t#@", "v 1 2 3", "v %.5 -2 3e1 1", "vt 1", "vt 1 2", "vt 0 0 %", "vn 0 0 %", "p -1", "p -1 -1 -1", "l -1 -1",
    "l -1/-1 -1/-1 -1/-1", "f -1 -1 -1", "f -1/-1/-1 -1/-1/-1 -1/-1/-1", "f -1//-1 -1//-1 -1//-1 -1//-1", "g", "g @", "g a b", "s %", "s off", "usemtl @",
    "o @\nv 0 0 0\nvt 0\nvn 0 0 0", "p -1 # @", "g a#",
];

/// Faults in any place where there is data of every kind.
const OBJ_FAULT: &[(&str, Option<ErrorKind>)] = &[
    ("v 1 x 3", Some(ExpectedFloat)),
    ("v ~ 2 3", Some(ExpectedFloat)),
    ("v 1 2 ~", Some(ExpectedFloat)),
    ("v 1 2 1-", Some(ExpectedFloat)),
    ("vt ~", Some(ExpectedFloat)),
    ("vn 1 ~ 1", Some(ExpectedFloat)),
    ("v", None),
    ("v 1", None),
    ("v 1 2", None),
    ("v 1 2 # 3", None),
    ("v 1 2 3 4 5", None),
    ("v 1 2 3 x 5", None),
    ("vt", None),
    ("vt 0 0 0 0", None),
    ("vn 1 2", None),
    ("vn 1 2 3 4", None),
    ("p", None),
    ("p 0", Some(VTNIndexOutOfRange)),
    ("p -1 0", Some(VTNIndexOutOfRange)),
    ("p 99%", Some(VTNIndexOutOfRange)),
    ("p -99%", Some(VTNIndexOutOfRange)),
    ("p x", Some(ExpectedInteger)),
    ("p -1 ~~", Some(ExpectedInteger)),
    ("p -", None),
    ("l", None),
    ("l -1", None),
    ("l -1 0", Some(VTNIndexOutOfRange)),
    ("l 99% -1", Some(VTNIndexOutOfRange)),
    ("l -1/-1 -1/99%", Some(VTNIndexOutOfRange)),
    ("l -1//-1 -1//0", Some(VTNIndexOutOfRange)),
    ("l -1 ~", Some(ExpectedInteger)),
    ("l -1 -1/-1", Some(EveryVTNIndexMustHaveTheSameFormForAGivenElement)),
    ("l -1//-1 -1", Some(EveryVTNIndexMustHaveTheSameFormForAGivenElement)),
    ("f", Some(EveryFaceElementMustHaveAtLeastThreeVertices)),
    ("f -1", Some(EveryFaceElementMustHaveAtLeastThreeVertices)),
    ("f -1/-1/-1 -1/-1/-1", Some(EveryFaceElementMustHaveAtLeastThreeVertices)),
    ("f 0 -1 -1", Some(VTNIndexOutOfRange)),
    ("f -1 -1 0", Some(VTNIndexOutOfRange)),
    ("f -1 -1 99%", Some(VTNIndexOutOfRange)),
    ("f -1/-1 -1/-1 -1/0", Some(VTNIndexOutOfRange)),
    ("f -1//-1 -1//-1 -1//99%", Some(VTNIndexOutOfRange)),
    ("f -1//-1 -1//0 -1//-1", Some(VTNIndexOutOfRange)),
    ("f -1/-1/-1 -1/-1/-1 -1/-1/-99%", Some(VTNIndexOutOfRange)),
    ("f -1/-1/-1 -1/0/-1 -1/-1/-1", Some(VTNIndexOutOfRange)),
    ("f ~ -1 -1", Some(ExpectedInteger)),
    ("f -1 -1 ~", Some(ExpectedInteger)),
    ("f -1/-1/-1 -1/~/-1 -1/-1/-1", Some(ExpectedInteger)),
    ("f -1/-1/-1/-1 -1/-1/-1/-1 -1/-1/-1/-1", None),
    ("f -1/-1/-1 -1/-1/-1 -1/-1/-1/-1", Some(ExpectedVTNIndex)),
    ("f -1 -1 -1/-1", Some(EveryVTNIndexMustHaveTheSameFormForAGivenElement)),
    ("f -1/-1 -1//-1 -1/-1", Some(EveryVTNIndexMustHaveTheSameFormForAGivenElement)),
    ("f -1/-1/-1 -1/-1/-1 -1//-1", Some(EveryVTNIndexMustHaveTheSameFormForAGivenElement)),
    ("f -1/-1/-1 -1/-1/-1 -1/-1/-1 -1", Some(EveryVTNIndexMustHaveTheSameFormForAGivenElement)),
    ("s", Some(SmoothingGroupDeclarationHasNoName)),
    ("s # 1", Some(SmoothingGroupDeclarationHasNoName)),
    ("s ~", Some(SmoothingGroupNameMustBeOffOrInteger)),
    ("s -1", Some(SmoothingGroupNameMustBeOffOrInteger)),
    ("s 1.5", Some(SmoothingGroupNameMustBeOffOrInteger)),
    ("s 1 2", None),
    ("s off off", None),
    ("usemtl", Some(MaterialStatementHasNoName)),
    ("usemtl # a", Some(MaterialStatementHasNoName)),
    ("usemtl a b", None),
    ("o", None),
    ("o # a", None),
    ("o a b", None),
    ("foo", Some(InvalidObjectStatement)),
    ("~~~ 1", Some(InvalidObjectStatement)),
    ("1", Some(InvalidObjectStatement)),
    ("1 2 3", Some(InvalidObjectStatement)),
    ("vp 1 2", Some(InvalidObjectStatement)),
    ("deg 3", Some(InvalidObjectStatement)),
    ("call x.obj", Some(InvalidObjectStatement)),
    ("shadow_obj x", Some(InvalidObjectStatement)),
    ("lod 1", Some(InvalidObjectStatement)),
    ("mg 1 2", Some(InvalidObjectStatement)),
    ("end", Some(InvalidObjectStatement)),
    ("newmtl a", Some(InvalidObjectStatement)),
    ("usemap a", Some(InvalidObjectStatement)),
    ("maplib a", Some(InvalidObjectStatement)),
    ("bevel on", Some(InvalidObjectStatement)),
    ("c_interp off", Some(InvalidObjectStatement)),
    ("V 1 2 3", Some(InvalidObjectStatement)),
    ("fo -1 -1 -1", Some(InvalidObjectStatement)),
    ("cstype bezier\ndeg 3\ncurv 0 1 -1 -1\nparm u 0 1\nend", Some(InvalidObjectStatement)),
    ("vp 0.1\nvp 0.2\ncstype bspline\ndeg 1\ncurv2 -1 -1\nparm u 0 1\nend", Some(InvalidObjectStatement)),
    ("cstype rat bspline\ndeg 1 1\nsurf 0 1 0 1 -1 -1 -1 -1\nparm u 0 1\nparm v 0 1\ntrim 0 1 1\nhole 0 1 1\nscrv 0 1 1\nsp 1\nend", Some(InvalidObjectStatement)),
    ("con 1 0 1 1 2 0 1 1", Some(InvalidObjectStatement)),
    ("ctech curv 0.1 1\nstech curv 0.1 1", Some(InvalidObjectStatement)),
    ("bmat u 1 0 0 1\nstep 1 1", Some(InvalidObjectStatement)),
];

const HEAD: &[&str] = &["v 0 0 0\nvt 0\nvn 0 0 0\n", "mtllib m\r\no a\r\nv 0 0 0\r\nvt 0\r\nvn 0 0 0\r\n", ""];

fn data_needed(w: &str) -> bool {
    w.contains("-1")
}

/// params: statements before, what: 0 rejection / 1 line / 2 kind
pub fn h_ctx() {
    let n = sx::param(0) as usize;
    // of more than two statements, blank lines and comments at the head only
    let h = if n > 2 { 2 } else { sx::choose(3) as usize };
    let mut v = Vec::new();
    v.extend_from_slice(HEAD[h].as_bytes());
    for _ in 0..n {
        // before the first statement, blank lines and comments only
        let c = sx::choose(if h == 2 { 5 } else { OBJ.len() as u32 }) as usize;
        put(&mut v, OBJ[c]);
        if n == 1 {
            newline(&mut v);
        } else {
            v.push(b'\n');
        }
    }
    let at = v.len();
    let what = sx::param(1);
    let (w, kind) = OBJ_FAULT[sx::choose(OBJ_FAULT.len() as u32) as usize].clone();
    sx::assume(what != 2 || (kind.is_some() && (h != 2 || !data_needed(w))));
    put(&mut v, w);
    let e: &[&str] = if n > 1 { &["\n", ""] } else { &["\n", "", "#", " # c\n\nv 0 0 0\n", "\r\no c\nv 0 0 0\np -1\n", "\nf -1 -1 -1\n", "\n# end\nvn 1 1 1\n\n", "\rv 1 1 1\r"] };
    v.extend_from_slice(e[sx::choose(e.len() as u32) as usize].as_bytes());
    match what {
        0 => bad::must_fail(v, "a malformed statement is rejected wherever it stands"),
        1 => bad::expect_line(v, at),
        _ => must_be(v, kind),
    }
}

fn must_be(v: Vec<u8>, kind: Option<ErrorKind>) {
    let t = exact(v);
    match obj::parse(&t) {
        Ok(_) => sx::check(false, "a faulty file is rejected"),
        Err(e) => {
            sx::reach("rejected");
            sx::observe(e.line_number as u64);
            sx::check(Some(e.kind) == kind, "an error is of the documented kind");
        }
    }
}

// ------------------------------------------------------------------ materials

const MTL: &[&str] = &[
    "", " \t", "#", "# @ Ka x", " \t#@", "Ka 1 0 %", "Kd 0 1 0", "Ks 1 1 1", "Ke 0 0 0", "d %", "d 0.5", "illum 0", "illum 1", "illum 2", "Ns 10", "Ni %.5",
    "map_Ka @", "map_Kd a", "map_Ks a", "map_Ke a", "map_Ns a", "map_Bump a", "bump @", "disp a", "map_d a", "decal a", "newmtl @", "d 1 # @", "illum 1#",
];

const MTL_FAULT: &[(&str, &str)] = &[
    ("illum 3", "UnknownIlluminationModel"),
    ("illum 4", "UnknownIlluminationModel"),
    ("illum 5", "UnknownIlluminationModel"),
    ("illum 6", "UnknownIlluminationModel"),
    ("illum 7", "UnknownIlluminationModel"),
    ("illum 8", "UnknownIlluminationModel"),
    ("illum 9", "UnknownIlluminationModel"),
    ("illum 1%", "UnknownIlluminationModel"),
    ("illum 9%%", "UnknownIlluminationModel"),
    ("illum 256", "UnknownIlluminationModel"),
    ("illum 4294967297", "UnknownIlluminationModel"),
    ("illum -1", "ExpectedInteger"),
    ("illum 1.0", "ExpectedInteger"),
    ("illum ~", "ExpectedInteger"),
    ("illum on", "ExpectedInteger"),
    ("illum", ""),
    ("illum 1 1", ""),
    ("Ka ~ 1 1", "ExpectedFloat"),
    ("Ka 1 ~ 1", "ExpectedFloat"),
    ("Ka 1 1 ~", "ExpectedFloat"),
    ("Kd 1 1 x", "ExpectedFloat"),
    ("Ks x 1 1", "ExpectedFloat"),
    ("Ke 1 x 1", "ExpectedFloat"),
    ("Ka 1 1 1.2.3", "ExpectedFloat"),
    ("Ka", ""),
    ("Ka 1", ""),
    ("Ka 1 1", ""),
    ("Kd", ""),
    ("Kd 1", ""),
    ("Kd 1 1", ""),
    ("Ks 1 1 # 1", ""),
    ("Ke 1", ""),
    ("Ka 1 1 1 1", ""),
    ("Kd 1 1 1 ~", ""),
    ("Ks 1 1 1 1", ""),
    ("Ke 1 1 1 1", ""),
    ("Kd spectral a.rfl 1", "ExpectedFloat"),
    ("Ka xyz 1 1 1", "ExpectedFloat"),
    ("d", ""),
    ("d ~", "ExpectedFloat"),
    ("d -halo 0.5", "ExpectedFloat"),
    ("d 1 1", ""),
    ("Ns", ""),
    ("Ns ~", "ExpectedFloat"),
    ("Ns 1 1", ""),
    ("Ni", ""),
    ("Ni ~", "ExpectedFloat"),
    ("Ni 1 1", ""),
    ("map_Ka", ""),
    ("map_Kd", ""),
    ("map_Ks", ""),
    ("map_Ke", ""),
    ("map_Ns", ""),
    ("map_Bump", ""),
    ("bump", ""),
    ("disp", ""),
    ("map_d", ""),
    ("decal", ""),
    ("map_Ka x y", ""),
    ("map_Kd -s 1 1 1 x", ""),
    ("map_Ks -clamp on x", ""),
    ("map_Ke x ~", ""),
    ("map_Ns x 1", ""),
    ("map_Bump -bm 1 x", ""),
    ("bump x -bm 1", ""),
    ("bump -bm 0.5 x", ""),
    ("disp -s 1 1 1 x", ""),
    ("map_d x y", ""),
    ("decal x y", ""),
    ("newmtl", ""),
    ("newmtl # a", ""),
    ("newmtl a b", ""),
    ("foo", "ErrorParsingMaterial"),
    ("~~~ 1", "ErrorParsingMaterial"),
    ("1", "ErrorParsingMaterial"),
    ("0.5 0.5 0.5", "ErrorParsingMaterial"),
    ("Tf 1 1 1", "ErrorParsingMaterial"),
    ("Tr 0.5", "ErrorParsingMaterial"),
    ("Tr 0", "ErrorParsingMaterial"),
    ("sharpness 60", "ErrorParsingMaterial"),
    ("refl -type sphere x", "ErrorParsingMaterial"),
    ("refl x", "ErrorParsingMaterial"),
    ("map_refl x", "ErrorParsingMaterial"),
    ("map_aat on", "ErrorParsingMaterial"),
    ("map_Tr x", "ErrorParsingMaterial"),
    ("map_Ni x", "ErrorParsingMaterial"),
    ("Pr 1", "ErrorParsingMaterial"),
    ("Pm 0", "ErrorParsingMaterial"),
    ("Ps 0", "ErrorParsingMaterial"),
    ("Pc 0", "ErrorParsingMaterial"),
    ("Pcr 0", "ErrorParsingMaterial"),
    ("map_Pr x", "ErrorParsingMaterial"),
    ("map_RMA x", "ErrorParsingMaterial"),
    ("norm x", "ErrorParsingMaterial"),
    ("aniso 1", "ErrorParsingMaterial"),
    ("anisor 0", "ErrorParsingMaterial"),
    ("ka 1 1 1", "ErrorParsingMaterial"),
    ("KD 1 1 1", "ErrorParsingMaterial"),
    ("map_ka x", "ErrorParsingMaterial"),
    ("map_bump x", "ErrorParsingMaterial"),
    ("Bump x", "ErrorParsingMaterial"),
    ("map_D x", "ErrorParsingMaterial"),
    ("map_disp x", "ErrorParsingMaterial"),
    ("map_decal x", "ErrorParsingMaterial"),
    ("Disp x", "ErrorParsingMaterial"),
    ("D 1", "ErrorParsingMaterial"),
    ("Illum 1", "ErrorParsingMaterial"),
    ("ns 1", "ErrorParsingMaterial"),
    ("Newmtl b", "ErrorParsingMaterial"),
    ("v 0 0 0", "ErrorParsingMaterial"),
    ("usemtl a", "ErrorParsingMaterial"),
    ("mtllib a", "ErrorParsingMaterial"),
    ("bump_map x", "ErrorParsingMaterial"),
];

/// The same for MTL files.
pub fn h_mtl_ctx() {
    let n = sx::param(0) as usize;
    let mut v = Vec::new();
    let h = if n > 2 { 2 } else { sx::choose(3) as usize };
    v.extend_from_slice([&b"newmtl a\n"[..], b"# c\r\n\r\nnewmtl a\r\nKa 1 1 1\r\nnewmtl a\r\n", b""][h]);
    for _ in 0..n {
        put(&mut v, MTL[sx::choose(if h == 2 { 5 } else { MTL.len() as u32 }) as usize]);
        if n == 1 {
            newline(&mut v);
        } else {
            v.push(b'\n');
        }
    }
    let at = v.len();
    let what = sx::param(1);
    let (w, kind) = MTL_FAULT[sx::choose(MTL_FAULT.len() as u32) as usize];
    // at the head of the file all words but newmtl are unknown
    sx::assume(what != 2 || (!kind.is_empty() && h != 2));
    put(&mut v, w);
    let e: &[&str] = if n > 1 { &["\n", ""] } else { &["\n", "", "#", " # c\n\nd 1\n", "\r\nnewmtl c\nd 1\n", "\nmap_Kd x\n", "\n# end\nillum 1\n\n", "\rd 1\r"] };
    v.extend_from_slice(e[sx::choose(e.len() as u32) as usize].as_bytes());
    match what {
        0 => mat::must_fail(v, "a malformed property is rejected wherever it stands"),
        1 => mat::expect_line(v, at),
        _ => {
            let t = exact(v);
            match mtl::parse(&t) {
                Ok(_) => sx::check(false, "a faulty file is rejected"),
                Err(e) => {
                    sx::reach("rejected");
                    ck_kind(&e, kind);
                }
            }
        }
    }
}

/// A fault in a longer file; kinds of errors.  params: statements, number of files, faults per file
pub fn fault_of(k: usize, n: usize) -> (&'static str, Option<ErrorKind>) {
    OBJ_FAULT[(k * n + sx::choose(n as u32) as usize) % OBJ_FAULT.len()].clone()
}
pub fn mtl_fault_of(k: usize, n: usize) -> (&'static str, &'static str) {
    MTL_FAULT[(k * n + sx::choose(n as u32) as usize) % MTL_FAULT.len()]
}
pub fn put_fault(v: &mut Vec<u8>, w: &str) {
    put(v, w)
}

/// The same for faults in longer files.
pub fn kind_in_file(v: Vec<u8>, w: &str, kind: Option<ErrorKind>) {
    sx::assume(kind.is_some() && !data_needed(w));
    must_be(v, kind);
}
