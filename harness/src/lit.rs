//! Decimal literals (C09, and numbers of materials).

use super::model::*;
use super::sx;
use wavefront_obj::obj;

/// `D`: a symbolic digit; everything else stands for itself.
pub const SHAPE: &[&str] = &[
    "D", "-D", "+D", "DD", "0D", "-DD", "D.D", "-D.D", ".D", "D.", "DDD", "D.DD", "DD.D", "0.0D", "00D", "DeD", "De+1",
    "De-1", "D.De2", "DE1", "-D.De-D", "D.DDD", "D00", "D.0", "1.D", "-0.D", "D.50", "D.000000", "-D.000001", "0.DDD",
];

/// Literals with the double nearest to them.
pub const FIXED: &[(&str, u64)] = &[
    ("0", 0x0000000000000000),
    ("-0", 0x8000000000000000),
    ("-0.0", 0x8000000000000000),
    ("1", 0x3ff0000000000000),
    ("0.1", 0x3fb999999999999a),
    ("-0.1", 0xbfb999999999999a),
    ("3.141592653589793", 0x400921fb54442d18),
    ("0.333333333333333333333333333333", 0x3fd5555555555555),
    ("16777217", 0x4170000010000000),
    ("9007199254740993", 0x4340000000000000),
    ("9007199254740993.0000001", 0x4340000000000001),
    ("123456789.123456789", 0x419d6f34547e6b75),
    ("1e23", 0x44b52d02c7e14af6),
    ("8.41e21", 0x447c7e83209e90b2),
    ("1e-7", 0x3e7ad7f29abcaf48),
    ("1.7976931348623157e308", 0x7fefffffffffffff),
    ("1e309", 0x7ff0000000000000),
    ("-1e309", 0xfff0000000000000),
    ("2.2250738585072014e-308", 0x0010000000000000),
    ("4.9e-324", 0x0000000000000001),
    ("1e-400", 0x0000000000000000),
    ("100000000000000000000000000000000000000000", 0x48725dfa371a19e7),
    ("0.000000000000000000000000000000000000000000001", 0x3696d601ad376ab9),
    ("1.255298", 0x3ff415b35b0bbf51),
    ("2147483648", 0x41e0000000000000),
    ("4294967297", 0x41f0000000100000),
    ("-65537", 0xc0f0001000000000),
];

/// A literal and the bits of its value.
pub fn literal() -> (Tok, u64) {
    let k = sx::choose((SHAPE.len() + FIXED.len()) as u32) as usize;
    if k < SHAPE.len() {
        let mut t = Vec::new();
        for &b in SHAPE[k].as_bytes() {
            t.push(if b == b'D' { sx::digit() } else { b });
        }
        let v = num(&t);
        (t, v)
    } else {
        let (s, v) = FIXED[k - SHAPE.len()];
        (tok(s), v)
    }
}

/// A literal in every coordinate position of every kind of statement.
pub fn h_lit() {
    let (kind, n) = match sx::choose(6) {
        0 => (0, 3),
        1 => (0, 4),
        2 => (1, 1),
        3 => (1, 2),
        4 => (1, 3),
        _ => (2, 3),
    };
    let at = sx::choose(n) as usize;
    let (x, xv) = literal();
    let mut a: Vec<Tok> = Vec::new();
    let mut want: Vec<u64> = Vec::new();
    for i in 0..n as usize {
        if i == at {
            a.push(x.clone());
            want.push(xv);
        } else {
            let d = 2 + i;
            a.push(tok(["2", "3", "4", "5"][i]));
            want.push((d as f64).to_bits());
        }
    }
    let mut v: Vec<u8> = b"v 9 8 7 6\nvt 5 4 3\nvn 2 1 0\n".to_vec();
    let mut l = vec![tok(["v", "vt", "vn"][kind])];
    l.extend(a);
    put_line(&mut v, &l, b"\n");
    v.extend_from_slice(b"v 1 2 3\nvt 1\nvn 1 2 3\n");
    let t = exact(v);
    let r = obj::parse(&t);
    match &r {
        Err(e) => {
            sx::observe(e.line_number as u64);
            sx::check(false, "a decimal number is accepted");
        }
        Ok(s) => {
            sx::reach("accepted");
            sx::check(s.objects.len() == 1, "number of objects");
            let o = &s.objects[0];
            let c = |k: usize, n: usize| sx::check(n == 2 + (k == kind) as usize, "one entry per statement");
            c(0, o.vertex_set.len());
            c(1, o.texture_vertex_set.len());
            c(2, o.normal_vertex_set.len());
            let got: Vec<u64> = match kind {
                0 => {
                    let q = o.vertex_set[1];
                    if want.len() == 3 {
                        want.push(1f64.to_bits());
                    }
                    vec![q.x.to_bits(), q.y.to_bits(), q.z.to_bits(), q.w.to_bits()]
                }
                1 => {
                    let q = o.texture_vertex_set[1];
                    while want.len() < 3 {
                        want.push(0);
                    }
                    vec![q.u.to_bits(), q.v.to_bits(), q.w.to_bits()]
                }
                _ => {
                    let q = o.normal_vertex_set[1];
                    vec![q.x.to_bits(), q.y.to_bits(), q.z.to_bits()]
                }
            };
            for (a, b) in got.iter().zip(want.iter()) {
                sx::observe(*a);
                sx::check(a == b, "a coordinate is the double nearest to its literal");
            }
            let q = o.vertex_set[o.vertex_set.len() - 1];
            sx::check((q.x == 1.0) & (q.y == 2.0) & (q.z == 3.0) & (q.w == 1.0), "the following vertex is unaffected");
        }
    }
}

/// Two statements of one kind, every coordinate a symbolic digit.  params: sign
pub fn h_coords() {
    let (kind, n) = [(0, 3), (0, 4), (1, 1), (1, 2), (1, 3), (2, 3)][sx::choose(6) as usize];
    let m = if kind == 2 || sx::flip() { n } else { [4, 3, 3][kind] };
    let mut sts = Vec::new();
    for len in [n, m] {
        let a: Vec<Tok> = (0..len)
            .map(|_| match sx::param(0) {
                0 => vec![sx::digit()],
                1 => vec![b'-', sx::digit()],
                _ => vec![sx::digit(), b'.', b'5'],
            })
            .collect();
        sts.push(match kind {
            0 => St::V(a),
            1 => St::T(a),
            _ => St::N(a),
        });
    }
    let t = exact(render(&sts));
    let r = obj::parse(&t);
    compare(&r, &interpret(&sts), &[], P09);
}

/// A literal of about `n` bytes and its value.
pub fn long_literal(n: usize) -> (Tok, u64) {
    let zeros = |t: &mut Tok, n: usize| t.extend(std::iter::repeat(b'0').take(n));
    let mut t = Vec::new();
    let d = sx::digit();
    let small = num(&[d]);
    let v = match sx::choose(7) {
        0 => {
            zeros(&mut t, n);
            t.push(d);
            small
        }
        1 => {
            t.push(d);
            t.push(b'.');
            zeros(&mut t, n);
            small
        }
        2 => {
            // off by less than half a unit in the last place
            t.push(d);
            t.push(b'.');
            zeros(&mut t, n);
            t.push(b'1');
            sx::assume(n > 30);
            sx::assume(d != b'0');
            small
        }
        3 => {
            t.push(d);
            zeros(&mut t, n);
            t.extend_from_slice(b"e-");
            t.extend_from_slice(n.to_string().as_bytes());
            small
        }
        4 => {
            t.extend_from_slice(b"0.");
            zeros(&mut t, n);
            t.push(d);
            t.push(b'e');
            t.extend_from_slice((n + 1).to_string().as_bytes());
            small
        }
        5 => {
            // halfway between 1 and the next double, and above it by the last digit
            t.extend_from_slice(b"1.00000000000000011102230246251565404236316680908203125");
            zeros(&mut t, n);
            let up = sx::flip();
            t.push(if up { sx::byte_in(b'1', b'9') } else { b'0' });
            0x3ff0000000000000 + up as u64
        }
        _ => {
            t.push(b'-');
            zeros(&mut t, n);
            t.extend_from_slice(b".");
            t.extend(std::iter::repeat(b'9').take(n));
            sx::assume(n > 20);
            0xbff0000000000000
        }
    };
    (t, v)
}

/// Long literals in every coordinate position.  params: length
pub fn h_lit_long() {
    let n = sx::param(0) as usize;
    let (kind, len) = [(0, 3), (0, 4), (1, 1), (1, 2), (1, 3), (2, 3)][sx::choose(6) as usize];
    let at = sx::choose(len) as usize;
    let (x, want) = long_literal(n);
    let mut l = vec![tok(["v", "vt", "vn"][kind])];
    for i in 0..len as usize {
        l.push(if i == at { x.clone() } else { tok("2") });
    }
    let mut v: Vec<u8> = b"v 9 8 7 6\nvt 5 4 3\nvn 2 1 0\n".to_vec();
    put_line(&mut v, &l, b"\n");
    let t = exact(v);
    match obj::parse(&t) {
        Err(_) => sx::check(false, "a decimal number is accepted"),
        Ok(s) => {
            sx::reach("accepted");
            let o = &s.objects[0];
            let got = match kind {
                0 => {
                    sx::check(o.vertex_set.len() == 2, "one entry per statement");
                    let q = o.vertex_set[1];
                    [q.x, q.y, q.z, q.w][at]
                }
                1 => {
                    sx::check(o.texture_vertex_set.len() == 2, "one entry per statement");
                    let q = o.texture_vertex_set[1];
                    [q.u, q.v, q.w][at]
                }
                _ => {
                    sx::check(o.normal_vertex_set.len() == 2, "one entry per statement");
                    let q = o.normal_vertex_set[1];
                    [q.x, q.y, q.z][at]
                }
            };
            sx::observe(got.to_bits());
            sx::check(got.to_bits() == want, "a coordinate is the double nearest to its literal");
        }
    }
}

/// A literal of `n` digits with a symbolic one, and the bits of its value.
pub fn dense(n: usize) -> (Tok, u64) {
    let (seed, at) = (sx::choose(8) as u64, sx::choose(4) as usize);
    let mut x = 0x9e3779b97f4a7c15u64.wrapping_mul(seed * 64 + n as u64);
    let mut d: Tok = (0..n)
        .map(|i| {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            match seed {
                0 => b'9',
                1 => [b'1', b'0'][(i > 0) as usize],
                _ => b'0' + (x % 10) as u8,
            }
        })
        .collect();
    d[[n - 1, 0, n / 2, 2 * n / 3][at]] = sx::digit();
    let p = [n, 1, n - 1, n / 2, 0, n / 3][sx::choose(6) as usize];
    if p < n {
        d.insert(p, b'.');
    }
    d.extend_from_slice(["", "e5", "e-7", "E+22", "e-30", "e280"][sx::choose(6) as usize].as_bytes());
    if seed == 3 {
        d.insert(0, b'-');
    }
    let v = num(&d);
    (d, v)
}

/// Such a literal as a coordinate.  params: digits
pub fn h_lit_dense() {
    let (x, want) = dense(sx::param(0) as usize);
    let mut v: Vec<u8> = Vec::new();
    put_line(&mut v, &[tok("v"), tok("1"), x, tok("2")], b"\n");
    let t = exact(v);
    match obj::parse(&t) {
        Err(_) => sx::check(false, "a decimal number is accepted"),
        Ok(s) => {
            sx::reach("accepted");
            let got = s.objects[0].vertex_set[0].y.to_bits();
            sx::observe(got);
            sx::check(got == want, "a coordinate is the double nearest to its literal");
        }
    }
}

/// More literals: random, extreme, and at or beside the middle of two doubles.
pub const TABLE: &[(&str, u64)] = &[
    ("-60.1815908301", 0xc04e173e5e4a4439),
    ("31.8609139099603", 0x403fdc64da9ff373),
    ("4628.1948219935181", 0x40b21431dfdaaab4),
    ("-786579.754323194875", 0xc12801278236a659),
    ("118625276.0", 0x419c484ff0000000),
    ("-95559797114710497.4650", 0xc37537f2111d4a9e),
    ("91.7034236671", 0x4056ed04e4b35b52),
    ("842684656321.2233", 0x4268867d6d582725),
    ("-44026.85995289078", 0xc0e57f5b84bbecc0),
    ("617603137215.901", 0x4261f9807fd7fcd5),
    ("-8159.01396245957117", 0xc0bfdf03930b333b),
    ("-412154728038528.0", 0xc2f76da402840800),
    ("-48.52538885393363387", 0xc048433ff124a9f8),
    ("0.04743957551313735379", 0x3fa84a0002bae77d),
    ("11637265167.61222", 0x4205ad14987ce5d4),
    ("2997528.8", 0x4146de8c66666666),
    ("0.182633", 0x3fc76084a515ce9e),
    ("-483.9548620", 0xc07e3f471d606317),
    ("6828288072902227.0", 0x4338424ab5026653),
    ("5.8887180334018780", 0x40178e0c19a34e56),
    ("-9898347887.838483", 0xc2026fe66b7eb537),
    ("167513.61", 0x410472cce147ae14),
    ("125242731.6723268656", 0x419ddc35aeb07674),
    ("-15058.7706589", 0xc0cd6962a4f369f0),
    ("-13.114402426462889", 0xc02a3a92f4707b78),
    ("-1402614014.1931417058", 0xc1d4e68c3f8c5c6f),
    ("-208312402.3", 0xc1a8d530a499999a),
    ("-834782450.4000883873", 0xc1c8e0e279333619),
    ("-786843.3", 0xc12803369999999a),
    ("65.0201462", 0x4050414a134988e0),
    ("849340.7", 0x4129eb7966666666),
    ("7045.5853", 0x40bb8595d6388659),
    ("520.5617483", 0x4080447e75e488ab),
    ("-0.14126906044319829", 0xbfc2151ac54524bf),
    ("7249208682.88909310025", 0x41fb016256ae39ba),
    ("-80083740718818.1", 0xc2d2357cbabdb886),
    ("4.333776174", 0x401155c96bde0e57),
    ("-192544.992070741374", 0xc1078107efc2c8ec),
    ("71834170471874.63", 0x42d0554c8dad70a8),
    ("-2.845298", 0xc006c32b990afe61),
    ("-37760.20", 0xc0e2700666666666),
    ("64265651505561.30445", 0x42cd3981aa24cca7),
    ("-915640410423.468", 0xc26aa60d7c26eefa),
    ("-60688.3106", 0xc0eda209f06f6944),
    ("-4708.22765444463478", 0xc0b2643a478fca7f),
    ("-21.38783", 0xc0356348d3ae685e),
    ("762833125815.0", 0x4266338cb836e000),
    ("-9306.66836450", 0xc0c22d558cf7caa7),
    ("-528831436.6", 0xc1bf8553cc99999a),
    ("020679701.687731", 0x4173b8c15b00f239),
    ("81.718002", 0x40546df3bea91d9b),
    ("-4.24861114893643900", 0xc010fe93ebc86976),
    ("-53783830.64003761", 0xc189a568b51ecc0a),
    ("537056.563", 0x412063c120418937),
    ("813734337.344197923760", 0x41c8404ce0ac0ead),
    ("3.09260026751125", 0x4008bda535847e4d),
    ("70465572.0", 0x4190cce090000000),
    ("0.415618", 0x3fda997c3d68405b),
    ("46107358735.5706", 0x4225786cec1f2426),
    ("60607104319554590454.4", 0x440a48bd8225c0c1),
    ("-1.4E-200", 0x96712566421dad5f),
    ("-5.783831534668629473e5", 0xc121a69e4e93356b),
    ("-9.9637225242788343784E-100", 0xab616f3d30e3e091),
    ("-5.65548434435462e38", 0xc7fa978aa9ef61b4),
    ("2.8121848E+30", 0x4641bf545f6bc491),
    ("4E-21", 0x3bb2e3b40a0e9b4f),
    ("-8.51e-200", 0x969a0e51cbc97110),
    ("6e+23", 0x44dfc3842bd1f072),
    ("1.41676352418982E39", 0x4810a76aeb0b4ba6),
    ("-9.23E38", 0xc805b31aabc26e64),
    ("7.15677164774173e+100", 0x54e05c3609011d2b),
    ("8.3311937269336539e-23", 0x3b592df2ed2481b6),
    ("8.453186172347483417E+309", 0x7ff0000000000000),
    ("-4.41e-320", 0x80000000000022de),
    ("8.957547768983118848E+290", 0x7c56faa74cbe191f),
    ("-3.6e100", 0xd4d075823b6c498a),
    ("1E-50", 0x358dee7a4ad4b81f),
    ("1.9e37", 0x47ac9688a65fd70d),
    ("-4.3e307", 0xffce9df4c79fc9b7),
    ("-2.6536583e10", 0xc218b6d07d600000),
    ("-6.6143735e22", 0xc4ac03517033f1f8),
    ("-2.91689925976576E-30", 0xb9cd94b414176d67),
    ("8.4E-22", 0x3b8fbbfb44188a0b),
    ("5.61143577961384e-320", 0x0000000000002c5e),
    ("6E21", 0x4474542ba12a337c),
    ("-5.346833143822357511E+24", 0xc511b0f19f41494b),
    ("1E-310", 0x000012688b70e62b),
    ("4.31e-200", 0x168a648a34665e11),
    ("-7.49e308", 0xfff0000000000000),
    ("5.1E300", 0x7e5e763393cd62c0),
    ("2.8342541265159795542e+308", 0x7ff0000000000000),
    ("-4.3647647e300", 0xfe5a11fbb587fce8),
    ("4.547233112236311131e-308", 0x0020595bf693d9f5),
    ("-4.9272444211258232E-10", 0xbe00ee0cce9418d4),
    ("-7.5165516698517179E-200", 0x969703a22eac1374),
    ("9E-10", 0x3e0eec7bd512b572),
    ("-7.19e-21", 0xbbc0fa169c3d20b5),
    ("6E307", 0x7fd55c576d815726),
    ("8.69E10", 0x42343ba4c5000000),
    ("8.3228926E24", 0x451b89c3a5ccd472),
    ("0.4221877822902793397918941309399087913334369659423828125", 0x3fdb051fe76d47f8),
    ("0.42218778229027933979189413093990879133343696594238281251", 0x3fdb051fe76d47f9),
    ("0.42218778229027933979189413093990879133343696594238281249", 0x3fdb051fe76d47f8),
    ("0.2632691014686080743789631242179893888533115386962890625", 0x3fd0d966a536b7f2),
    ("0.26326910146860807437896312421798938885331153869628906251", 0x3fd0d966a536b7f3),
    ("0.26326910146860807437896312421798938885331153869628906249", 0x3fd0d966a536b7f2),
    ("1.25178526905668652258185602477169595658779144287109375", 0x3ff4074ffd836892),
    ("1.251785269056686522581856024771695956587791442871093751", 0x3ff4074ffd836892),
    ("1.251785269056686522581856024771695956587791442871093749", 0x3ff4074ffd836891),
    ("0.594128935102375022037080043446621857583522796630859375", 0x3fe3031aaf3be77c),
    ("0.5941289351023750220370800434466218575835227966308593751", 0x3fe3031aaf3be77c),
    ("0.5941289351023750220370800434466218575835227966308593749", 0x3fe3031aaf3be77b),
    ("646300.2376758313621394336223602294921875", 0x4123b93879b0a586),
    ("646300.23767583136213943362236022949218751", 0x4123b93879b0a586),
    ("646300.23767583136213943362236022949218749", 0x4123b93879b0a585),
    ("0.4503615462953892423225710217593587003648281097412109375", 0x3fdcd2b93c2dbd6e),
    ("0.45036154629538924232257102175935870036482810974121093751", 0x3fdcd2b93c2dbd6e),
    ("0.45036154629538924232257102175935870036482810974121093749", 0x3fdcd2b93c2dbd6d),
    ("169551.364512724205269478261470794677734375", 0x4104b27aea85a5ac),
    ("169551.3645127242052694782614707946777343751", 0x4104b27aea85a5ac),
    ("169551.3645127242052694782614707946777343749", 0x4104b27aea85a5ab),
    ("0.4620717712881912409006446296189096756279468536376953125", 0x3fdd92957a859acc),
    ("0.46207177128819124090064462961890967562794685363769531251", 0x3fdd92957a859acd),
    ("0.46207177128819124090064462961890967562794685363769531249", 0x3fdd92957a859acc),
    ("0.3015775439125262524786563744783052243292331695556640625", 0x3fd34d0be613fcca),
    ("0.30157754391252625247865637447830522432923316955566406251", 0x3fd34d0be613fccb),
    ("0.30157754391252625247865637447830522432923316955566406249", 0x3fd34d0be613fcca),
    ("1.73978608299414461146881194508750922977924346923828125", 0x3ffbd629ee87eec4),
    ("1.739786082994144611468811945087509229779243469238281251", 0x3ffbd629ee87eec5),
    ("1.739786082994144611468811945087509229779243469238281249", 0x3ffbd629ee87eec4),
    ("1.58473983399453655085409309322130866348743438720703125", 0x3ff95b1827faccd0),
    ("1.584739833994536550854093093221308663487434387207031251", 0x3ff95b1827faccd1),
    ("1.584739833994536550854093093221308663487434387207031249", 0x3ff95b1827faccd0),
    ("0.975150693283028890956387613186961971223354339599609375", 0x3fef346f3a0a5094),
    ("0.9751506932830288909563876131869619712233543395996093751", 0x3fef346f3a0a5094),
    ("0.9751506932830288909563876131869619712233543395996093749", 0x3fef346f3a0a5093),
    ("1.99238800371222091190048786302213557064533233642578125", 0x3fffe0d23e4e2ffc),
    ("1.992388003712220911900487863022135570645332336425781251", 0x3fffe0d23e4e2ffd),
    ("1.992388003712220911900487863022135570645332336425781249", 0x3fffe0d23e4e2ffc),
    ("0.794908309515379885024088935097097419202327728271484375", 0x3fe96fe38d15fd90),
    ("0.7949083095153798850240889350970974192023277282714843751", 0x3fe96fe38d15fd90),
    ("0.7949083095153798850240889350970974192023277282714843749", 0x3fe96fe38d15fd8f),
    ("0.946106606367114910671745064973947592079639434814453125", 0x3fee46815c9c0aae),
    ("0.9461066063671149106717450649739475920796394348144531251", 0x3fee46815c9c0aaf),
    ("0.9461066063671149106717450649739475920796394348144531249", 0x3fee46815c9c0aae),
    ("0.921206606996550603216888930546701885759830474853515625", 0x3fed7a86473d1910),
    ("0.9212066069965506032168889305467018857598304748535156251", 0x3fed7a86473d1911),
    ("0.9212066069965506032168889305467018857598304748535156249", 0x3fed7a86473d1910),
    ("0.693470007254406273222713252835092134773731231689453125", 0x3fe630e8033d440e),
    ("0.6934700072544062732227132528350921347737312316894531251", 0x3fe630e8033d440f),
    ("0.6934700072544062732227132528350921347737312316894531249", 0x3fe630e8033d440e),
    ("296213.97647213030722923576831817626953125", 0x41121457e7e84f64),
    ("296213.976472130307229235768318176269531251", 0x41121457e7e84f65),
    ("296213.976472130307229235768318176269531249", 0x41121457e7e84f64),
    ("404713.96523368838825263082981109619140625", 0x4118b3a7dc663852),
    ("404713.965233688388252630829811096191406251", 0x4118b3a7dc663853),
    ("404713.965233688388252630829811096191406249", 0x4118b3a7dc663852),
    ("1.55174287677531730356150774241541512310504913330078125", 0x3ff8d3f056b8d0ac),
    ("1.551742876775317303561507742415415123105049133300781251", 0x3ff8d3f056b8d0ad),
    ("1.551742876775317303561507742415415123105049133300781249", 0x3ff8d3f056b8d0ac),
    ("0.877619270270101281550267913189600221812725067138671875", 0x3fec15750204c876),
    ("0.8776192702701012815502679131896002218127250671386718751", 0x3fec15750204c876),
    ("0.8776192702701012815502679131896002218127250671386718749", 0x3fec15750204c875),
    ("0.679628562660416990492961986092268489301204681396484375", 0x3fe5bf846641ba30),
    ("0.6796285626604169904929619860922684893012046813964843751", 0x3fe5bf846641ba30),
    ("0.6796285626604169904929619860922684893012046813964843749", 0x3fe5bf846641ba2f),
    ("0.2598821022809602865333289400950889103114604949951171875", 0x3fd0a1e88a873268),
    ("0.25988210228096028653332894009508891031146049499511718751", 0x3fd0a1e88a873268),
    ("0.25988210228096028653332894009508891031146049499511718749", 0x3fd0a1e88a873267),
    ("0.782399812880843426032839715844602324068546295166015625", 0x3fe9096b55170820),
    ("0.7823998128808434260328397158446023240685462951660156251", 0x3fe9096b55170821),
    ("0.7823998128808434260328397158446023240685462951660156249", 0x3fe9096b55170820),
    ("156459.238144000832107849419116973876953125", 0x41031959e7b80aba),
    ("156459.2381440008321078494191169738769531251", 0x41031959e7b80abb),
    ("156459.2381440008321078494191169738769531249", 0x41031959e7b80aba),
    ("0.3", 0x3fd3333333333333),
    ("0.7", 0x3fe6666666666666),
    ("1.1", 0x3ff199999999999a),
    ("2.675", 0x4005666666666666),
    ("1.005", 0x3ff0147ae147ae14),
    ("33.3", 0x4040a66666666666),
    ("99.99", 0x4058ff5c28f5c28f),
    ("100.01", 0x405900a3d70a3d71),
    ("255.255", 0x406fe828f5c28f5c),
    ("1023.999", 0x408ffffdf3b645a2),
    ("1024.0001", 0x409000001a36e2eb),
    ("65535.5", 0x40effff000000000),
    ("65536.5", 0x40f0000800000000),
    ("131071.9", 0x40fffffe66666666),
    ("1000000.1", 0x412e848033333333),
    ("16777216.5", 0x4170000008000000),
    ("33554433", 0x4180000008000000),
    ("4294967295.5", 0x41effffffff00000),
    ("0.0001", 0x3f1a36e2eb1c432d),
    ("0.00001", 0x3ee4f8b588e368f1),
    ("0.000001", 0x3eb0c6f7a0b5ed8d),
    ("0.0000001", 0x3e7ad7f29abcaf48),
    ("1e5", 0x40f86a0000000000),
    ("1e+5", 0x40f86a0000000000),
    ("1E05", 0x40f86a0000000000),
    ("1e-05", 0x3ee4f8b588e368f1),
    ("+1.5", 0x3ff8000000000000),
    ("-.5", 0xbfe0000000000000),
    ("+.25", 0x3fd0000000000000),
    ("5.", 0x4014000000000000),
    ("-5.", 0xc014000000000000),
    ("00.5", 0x3fe0000000000000),
    ("007", 0x401c000000000000),
    ("-007.70", 0xc01ecccccccccccd),
    ("1e0", 0x3ff0000000000000),
    ("0e0", 0x0000000000000000),
    ("0e99", 0x0000000000000000),
    ("-0e5", 0x8000000000000000),
    ("0.0e-9", 0x0000000000000000),
    ("1.5e1", 0x402e000000000000),
    ("15e-1", 0x3ff8000000000000),
    ("123e-2", 0x3ff3ae147ae147ae),
    ("1e22", 0x4480f0cf064dd592),
    ("1e-22", 0x3b5e392010175ee6),
    ("1e15", 0x430c6bf526340000),
    ("1e16", 0x4341c37937e08000),
    ("1e17", 0x4376345785d8a000),
    ("9999999", 0x416312cfe0000000),
    ("99999999", 0x4197d783fc000000),
    ("999999999", 0x41cdcd64ff800000),
    ("9999999999", 0x4202a05f1ff80000),
    ("0.9999999", 0x3fefffffca501acb),
    ("0.99999999", 0x3feffffffaa19c47),
    ("1.0000001", 0x3ff000001ad7f29b),
    ("1.00000001", 0x3ff0000002af31dc),
    ("3.4028235e38", 0x47efffffe54daff8),
    ("3.4028236e38", 0x47effffff514a7bc),
    ("1.17549435e-38", 0x380fffffff9fdba8),
    ("1e-45", 0x3696d601ad376ab9),
    ("1.4e-45", 0x369ff868bf4d956a),
    ("7e-46", 0x368ff868bf4d956a),
];

/// Listed literals in every coordinate position.
pub fn h_lit_table() {
    let (kind, len) = [(0, 4), (1, 3), (2, 3)][sx::choose(3) as usize];
    let at = sx::choose(len) as usize;
    let k = sx::choose(TABLE.len() as u32) as usize;
    let (x, want) = TABLE[k];
    let d = sx::digit();
    let mut l = vec![tok(["v", "vt", "vn"][kind])];
    for i in 0..len as usize {
        l.push(if i == at { tok(x) } else { vec![d] });
    }
    let mut v: Vec<u8> = Vec::new();
    put_line(&mut v, &l, b"\n");
    let t = exact(v);
    match obj::parse(&t) {
        Err(_) => sx::check(false, "a decimal number is accepted"),
        Ok(s) => {
            sx::reach("accepted");
            let o = &s.objects[0];
            let got = match kind {
                0 => {
                    let q = o.vertex_set[0];
                    [q.x, q.y, q.z, q.w]
                }
                1 => {
                    let q = o.texture_vertex_set[0];
                    [q.u, q.v, q.w, 0.0]
                }
                _ => {
                    let q = o.normal_vertex_set[0];
                    [q.x, q.y, q.z, 0.0]
                }
            };
            sx::observe(got[at].to_bits());
            sx::check(got[at].to_bits() == want, "a coordinate is the double nearest to its literal");
            let other = got[(at + 1) % len as usize];
            sx::check(other.to_bits() == num(&[d]), "a coordinate is the double nearest to its literal");
        }
    }
}
