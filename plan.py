"""Which harnesses decide which property, within which bounds."""


def step(h, p, bound, **kw):
    return dict(h=h, p=list(p), bound=bound, **kw)


SUMMARY = {"assumptions": [
    "rustc's translation to LLVM IR (opt-level 1, overflow checks and debug assertions on) is the code under test",
    "symx's reading of LLVM IR is faithful; sampled paths of every run are compared with a native execution",
    "memory allocation never fails",
    "decimal literals: the standard library's correctly rounded f64 parser is the oracle for symbolic digits, "
    "listed bit patterns for fixed literals",
]}

M03, M05, M07, M08, M09, M10, M04 = 1, 2, 4, 8, 16, 32, 64

ALPHABET = [
    "vertices, points, faces, lines, groups, smoothing, materials, objects",
    "points, lines, faces of all sizes and forms, vertices, objects",
    "group statements of 0 to 3 symbolic names, smoothing, elements, objects",
    "material statements (also repeated names), elements, groups, smoothing, objects",
    "objects with and without content, data, groups, materials, elements",
    "data of three kinds, elements with positive and negative indices, objects",
    "data of three kinds and objects",
    "groups, smoothing, points, objects",
    "materials, points, objects",
    "groups, nameless groups, points, lines, objects",
    "smoothing numbers, smoothing off, points, lines, objects",
    "elements with v/vt/vn indices of both signs, objects",
    "objects and points",
]
SHAPE = [
    "a face of %d indices of every form and sign", "a line of %d indices of every form and sign",
    "a point statement of %d indices", "a group statement of %d symbolic names",
    "%d group statements with elements between", "%d smoothing statements with elements between",
    "%d material statements with elements between", "%d objects with data, groups, materials and elements",
    "%d elements under one group statement", "%d data of each kind with symbolic digits",
    "names of %d symbolic bytes", "%d library names", "%d interleaved material, group and smoothing statements",
]


def seq(mask, alpha, k, **kw):
    return step("h_seq", [mask, alpha, k], "all sequences of %d statements: %s" % (k, ALPHABET[alpha]), **kw)


def big(mask, shape, ns, **kw):
    return [step("h_big", [mask, shape, n], SHAPE[shape] % n, **kw) for n in ns]


HUGE = dict(steps=4000000000, time=300)
N = 66000
SIZES = [4, 5, 6, 7, 8, 9, 10, 11, 12, 16, 17, 32, 33, 64, 65, 128, 129, 255, 256, 257, 300]
LARGE = [1, 2, 3, 4, 5, 6, 7, 8, 9, 17, 33, 65, 129, 257, 300]


def total(fmt, what):
    mtl = int(fmt == "mtl")
    q = [step("h_%s_raw" % fmt, [what, n], "all strings of %d bytes" % n) for n in range(0, 6)]
    q += [
        step("h_%s_tmpl" % fmt, [what, 1], "every template, each hole 1 arbitrary ASCII byte"),
        step("h_%s_tmpl" % fmt, [what, 2], "every template, each hole 2 arbitrary ASCII bytes"),
        step("h_%s_tmpl" % fmt, [what, 3], "every template, each hole 3 arbitrary ASCII bytes"),
        step("h_%s_utf8" % fmt, [what], "every template, holes with multi-byte characters"),
    ]
    if not mtl:
        q += [step("h_obj_long", [what, n], "long integers at the machine limits, holes of %d bytes" % n) for n in (0, 1, 2)]
    q += [step("h_long", [what, n, mtl], "files with runs of %d and an arbitrary byte" % n) for n in (100, 1000)]
    q += [step("h_word", [what, mtl, n], "every template with words of %d bytes: multi-byte characters at every offset, long numbers" % n) for n in (5, 20, 40, 70, 140, 300)]
    if mtl:
        q += [step("h_mtl_raw", [what, n], "all strings of %d bytes" % n) for n in (6, 7)]
    elif what == 0:
        q += [step("h_obj_raw", [what, 6], "all strings of 6 bytes", time=200)]
    if what == 0:
        q += [step("h_long", [what, 200000, mtl], "files with runs of 200000 and an arbitrary byte", steps=2000000000, time=200)]
    t = q + [
        step("h_%s_raw" % fmt, [what, 6 + 2 * mtl], "all strings of %d bytes" % (6 + 2 * mtl)),
        step("h_%s_raw" % fmt, [what, 7 + 2 * mtl], "all strings of %d bytes" % (7 + 2 * mtl)),
        step("h_%s_tmpl" % fmt, [what, 4], "every template, each hole 4 arbitrary ASCII bytes"),
        step("h_%s_tmpl" % fmt, [what, 5], "every template, each hole 5 arbitrary ASCII bytes"),
    ]
    return {"quick": q, "thorough": t}


def both(*parts):
    return {"quick": sum((p["quick"] for p in parts), []), "thorough": sum((p["thorough"] for p in parts), [])}


NAMES = lambda mask: step("h_names", [mask], "every name position: symbolic names of 5 shapes, listed special words")

C03q = [seq(M03, a, k) for a, k in ((0, 0), (0, 1), (0, 2), (0, 3), (5, 3), (9, 4), (11, 3))] + \
    big(M03, 4, [17, 129, 300]) + big(M03, 6, [129]) + big(M03, 7, [20, 129]) + big(M03, 8, [300]) + \
    big(M03, 12, [17, 300]) + big(M03, 0, [12, 300]) + big(M03, 3, [33]) + big(M03, 12, [N], **HUGE) + big(M03, 8, [N], **HUGE)
C04q = [seq(M04, 5, 3), seq(M04, 5, 4), seq(M04, 11, 4)] + [
    step("h_ix", [d, s, z], "one %sindex part of %d symbolic digits%s, all forms, kinds and places, data declared before and after in three objects" % ("negative " if s else "", d, " with leading zeros" if z else ""))
    for d, s, z in ((1, 0, 0), (1, 1, 0), (1, 0, 1), (1, 1, 1), (2, 0, 0), (2, 1, 0))
] + [step("h_ix_limit", [], "indices at the limits of machine types")] + [
    step("h_ix_many", [n, o, d, part], "%d data in %d objects, an index of %d symbolic digits in part %d" % (n, o, d, part))
    for n, o, d, part in ((12, 2, 2, 0), (12, 2, 2, 1), (12, 2, 2, 2), (120, 2, 2, 0), (300, 1, 2, 0), (300, 3, 2, 1), (300, 2, 2, 2))
] + big(M04, 7, [20, 129]) + [
    step("h_ix_many", [70000, 1, 2, part], "70000 data, the last two digits of the index in part %d symbolic" % part, **HUGE) for part in (0, 1, 2)
]
C05q = [seq(M05, 1, 1), seq(M05, 1, 2), seq(M05, 1, 3), seq(M05, 11, 3)] + \
    big(M05, 0, [3] + SIZES) + big(M05, 1, [2, 3] + SIZES) + big(M05, 2, [1, 2, 3] + SIZES) + big(M05, 8, [300]) + \
    big(M05, 0, [N], **HUGE) + big(M05, 1, [N], **HUGE) + big(M05, 2, [N], **HUGE) + big(M05, 8, [N], **HUGE)
C06q = [step("h_bad_index", [1, 0, n], "a listed malformed index at every place among %d" % n) for n in (3, 4, 6, 20)] + \
    [step("h_bad_index", [0, b, n], "a symbolic malformed index of %d bytes at every place among %d" % (b, n))
     for b, n in ((1, 3), (2, 3), (3, 3), (1, 5), (2, 9))] + \
    [step("h_mixed", [n, 0], "%d indices, one of another form at any place" % n) for n in (2, 3, 4, 5, 6, 9, 20, 70)] + \
    [step("h_few", [], "elements with too few indices")]
C07q = [seq(M07, a, k) for a, k in ((2, 1), (2, 2), (2, 3), (7, 4), (7, 5), (9, 4), (10, 4))] + \
    big(M07, 3, LARGE) + big(M07, 4, [9, 33, 257]) + big(M07, 5, [9, 33, 300]) + big(M07, 12, [10, 60, 300]) + \
    big(M07, 7, [129]) + big(M07, 8, [300]) + [NAMES(M07)] + big(M07, 5, [N], **HUGE) + big(M07, 12, [N], **HUGE) + big(M07, 3, [N], **HUGE)
C08q = [seq(M08, a, k) for a, k in ((3, 1), (3, 2), (3, 3), (8, 4), (8, 5))] + \
    big(M08, 6, LARGE) + big(M08, 8, [33, 257, 300]) + big(M08, 12, [10, 60, 300]) + big(M08, 7, [129]) + \
    big(M08, 0, [3, 5, 40]) + [NAMES(M08)] + big(M08, 6, [N], **HUGE) + big(M08, 12, [N], **HUGE) + big(M08, 8, [N], **HUGE)
C09q = [step("h_lit", [], "listed literals and 30 shapes with symbolic digits in every coordinate position")] + \
    [seq(M09, 6, k) for k in (1, 2, 3, 4)] + big(M09, 9, [1, 2, 17, 65, 300]) + big(M09, 7, [40]) + big(M09, 9, [22000], **HUGE)
C10q = [seq(M10, a, k) for a, k in ((4, 0), (4, 1), (4, 2), (4, 3), (4, 4), (12, 5))] + \
    big(M10, 7, [1, 2, 9, 33, 129, 300]) + big(M10, 10, [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 23, 24, 25, 32, 33, 64, 65, 128, 129, 256, 300]) + \
    big(M10, 11, [1, 2, 3, 4, 9, 33, 129, 300]) + [NAMES(M10)] + big(M10, 11, [N], **HUGE) + big(M10, 7, [10000], **HUGE)
MODE = "layout change %d"
C11q = [step("h_layout_obj", [0, m, 1], "listed files with symbolic names and digits, layout change %d at every place, symbolic runs of 1" % m) for m in range(9)] + \
    [step("h_layout_obj", [0, m, 2], "the same, runs of 2", time=60) for m in range(9)] + \
    [step("h_layout_obj", [k, m, 1], "all sequences of %d words and line breaks, layout change %d" % (k, m), time=90) for k, m in
     [(2, m) for m in range(9)] + [(3, 8), (3, 7)]]
C12q = [step("h_bad_kw", [1, 0], "listed foreign keywords at every place")] + \
    [step("h_bad_kw", [0, b], "all foreign keywords of %d bytes at every place" % b) for b in (1, 2, 3, 4)] + \
    [step("h_surplus", [b], "surplus words of %d bytes after every statement" % b) for b in (1, 2, 3)]
C13q = [step("h_line", [k, s], "%d preceding lines of every kind, %s fault" % (k, "symbolic" if s else "every listed"), time=100)
        for k, s in ((0, 0), (0, 1), (1, 0), (1, 1))] + \
    [step("h_line_many", [n], "a fault after %d lines" % n) for n in (9, 10, 40, 130, 260, 300, 1000)] + \
    [step("h_line_many", [70000], "a fault after 70000 lines", **HUGE)]
C14q = [step("h_kind", [], "every documented cause, with symbolic tokens")] + [step("h_mixed", [n, 1], "%d indices, one of another form at any place" % n) for n in (3, 5, 9)]
C15q = [step("h_mtl_seq", [n, r], "all sequences of %d MTL statements%s" % (n, ", all argument shapes" if r else "")) for n, r in ((0, 0), (1, 0), (1, 1), (2, 0), (3, 0))] + \
    [step("h_mtl_all", [], "every property once, in every rotation, second material, repetition")] + \
    [step("h_mtl_many", [n], "%d materials, names of %d bytes" % (n, n)) for n in (1, 2, 9, 17, 33, 65, 129, 300, 2000)] + \
    [step("h_mtl_words", [], "special words as names")]
C16q = [step("h_mtl_unknown", [0, b], "all unknown keywords of %d bytes" % b) for b in (1, 2, 3)] + \
    [step("h_mtl_unknown", [1, 0], "listed unknown keywords")] + \
    [step("h_mtl_unknown", [2, b], "text before the first material, words of %d bytes" % b) for b in (1, 2, 3)] + \
    [step("h_mtl_args", [b], "surplus, missing and wrong arguments of %d bytes" % b) for b in (1, 2, 3)]
C17q = [step("h_mtl_line", [k, s], "%d preceding lines of every kind, fault %d" % (k, s), time=100)
        for k, s in ((0, 0), (0, 1), (0, 2), (1, 0), (1, 1), (1, 2))] + \
    [step("h_mtl_line_many", [n], "a fault after %d lines" % n) for n in (9, 10, 40, 130, 260, 300, 1000)] + \
    [step("h_mtl_line_many", [70000], "a fault after 70000 lines", **HUGE)]
C18q = [step("h_layout_mtl", [0, m, 1], "listed files with symbolic names and digits, layout change %d at every place, symbolic runs of 1" % m) for m in range(9)] + \
    [step("h_layout_mtl", [0, m, 2], "the same, runs of 2", time=60) for m in range(9)] + \
    [step("h_layout_mtl", [k, m, 1], "all sequences of %d words and line breaks, layout change %d" % (k, m), time=90) for k in (2, 3) for m in range(9)]
C20q = [step("h_lookup", [], "arbitrary 64-bit indices of every form in objects of 0 to 3 data of each kind")] + \
    [step("h_lookup_big", [n], "%d data, index of three symbolic digits" % n) for n in (20, 300)]
C21q = [step("h_form", [], "all pairs of forms with arbitrary 64-bit values")]
C22q = [step("h_show_index", [d], "indices of %d symbolic digits (0: machine limits, 10: listed numbers, last digit symbolic), all forms" % d) for d in (0, 1, 2, 3, 4, 10)] + \
    [step("h_show_element", [d], "elements with indices of %d symbolic digits" % d) for d in (0, 1, 2, 3, 10)] + \
    [step("h_show_groups", [], "groups and smoothing groups"), step("h_reparse", [], "parsed elements displayed and parsed again"),
     step("h_show_data", [], "vertex data displayed and parsed again")]
C23q = [step("h_pure", [0], "OBJ: two parses of equal text, another text parsed between"), step("h_pure", [1], "the same for MTL")]
C24q = [step("h_show_set", [], "object sets and material sets")]

LAID = ["", " in varied layout"]


def mix(mask, sizes=((8, 0, 500), (20, 1, 300), (60, 1, 100), (300, 1, 40))):
    return [step("h_mix", [mask, n, l, c], "%d listed statement orders of %d statements%s, names and digits symbolic" % (c, n, LAID[l])) for n, l, c in sizes]


def mtlmix(h, *extra, sizes=((8, 0, 500), (20, 1, 300), (60, 1, 100), (300, 1, 40))):
    return [step(h, [n] + ([l] if h == "h_mtl_mix" else []) + [c] + list(extra),
                 "%d listed statement orders of %d statements, names and digits symbolic" % (c, n)) for n, l, c in sizes]


def faults(h, what):
    return [step(h, [n, c, 4, what], "%d listed statement orders of %d statements with a fault among them" % (c, n)) for n, c in ((8, 300), (20, 200), (60, 100), (300, 40))]


MIX_MORE = ((5, 0, 5000), (12, 1, 3000), (33, 1, 1000), (1000, 1, 60), (3000, 1, 20))

for m, q in ((M03, C03q), (M04, C04q), (M05, C05q), (M07, C07q), (M08, C08q), (M09, C09q), (M10, C10q)):
    q += mix(m)
C06q += faults("h_mix_fault", 0)
C12q += faults("h_mix_fault", 0) + [step("h_surplus_listed", [], "listed surplus words after every statement")]
C13q += faults("h_mix_fault", 1)
C16q += faults("h_mtl_mix_fault", 0) + [step("h_mtl_options", [], "listed options and further words after every name and number")]
C17q += faults("h_mtl_mix_fault", 1)
C15q += mtlmix("h_mtl_mix")
C11q += mtlmix("h_mix_layout")
C18q += mtlmix("h_mtl_mix_layout")
C09q += [step("h_coords", [k], "two statements of one kind, every coordinate symbolic, spelling %d" % k) for k in (0, 1, 2)]
for h in ("h_mix_pure", "h_mtl_mix_pure"):
    C23q += [step(h, [n, c, r], "%d listed pairs of files of %d statements, the second parsed %d times between two parses of the first" % (c, n, r))
             for n, c, r in ((4, 300, 1), (10, 200, 1), (40, 60, 2), (6, 10, 300))]
C24q += [step("h_mix", [128, n, 0, c], "%d listed files of %d statements" % (c, n)) for n, c in ((8, 300), (30, 100), (100, 20))]

NEAR = lambda h, ns, what, *x: [step(h, [n] + list(x), "%s, %d byte(s) off at every place" % (what, n)) for n in ns]
C06q += NEAR("h_near_index", (1, 2), "good indices of every form")
C07q += [step("h_smooth", [], "smoothing numbers at the limits of machine types, last digit symbolic")]
C12q += NEAR("h_near_kw", (1, 2), "every keyword") + NEAR("h_near_number", (1, 2), "numbers of every shape", 0)
C14q += NEAR("h_near_number", (1,), "numbers of every shape", 1)
C16q += NEAR("h_mtl_near_kw", (1, 2), "every keyword") + NEAR("h_mtl_near_number", (1, 2), "numbers of every shape")
C23q += [step("h_pure_many", [m, n], "%s: 8 listed texts, good and faulty, %d parses of others between" % ("MTL" if m else "OBJ", n), **HUGE) for m in (0, 1) for n in (300, 5000)] + [step("h_pure_many", [m, 70000, 1], "%s: 3 listed texts, 70000 parses of others between" % ("MTL" if m else "OBJ"), **HUGE) for m in (0, 1)]
C24q += [step("h_show_big", [n], "lists of %d entries" % n, **HUGE) for n in (999, 1000, 1001, 1024, 10000, 70000)]
WORDS = "faulty words of %d bytes in every position, up to 300 lines before"
C25q = [step("h_msg", [n], WORDS % n) for n in (1, 2, 3, 4, 5, 40, 300)] + [step("h_mtl_msg", [n, 0], "MTL: " + WORDS % n) for n in (1, 2, 3, 4, 5, 40, 300)]
C25q += sum(([step("h_%s_raw" % f, [2, n], "all strings of %d bytes" % n) for n in range(0, 5)] + [step("h_%s_tmpl" % f, [2, n], "every template, each hole %d arbitrary ASCII bytes" % n) for n in (1, 2, 3)] +
             [step("h_%s_utf8" % f, [2], "every template, holes with multi-byte characters")] for f in ("obj", "mtl")), [])
C26q = [step("h_mtl_msg", [n, 1], WORDS % n) for n in (1, 2, 3, 5, 40)] + [step("h_mtl_kind", [], "illumination models, missing arguments at the end of input, words that are no integer")]
RAWS = "%s: all strings of %d bytes and a line break, 13 continuations"
TMPL = "%s: every template, holes of %d arbitrary ASCII bytes, 13 continuations"
C27q = sum(([step(h, [0, n], RAWS % (f, n)) for n in range(0, 5)] + [step(h, [1, n], TMPL % (f, n)) for n in (1, 2)] +
            [step(m, [n, c], "%s: %d listed files of %d statements with a fault, and more after it" % (f, c, n)) for n, c in ((4, 300), (12, 300), (40, 100), (300, 40))]
            for f, h, m in (("OBJ", "h_first", "h_mix_first"), ("MTL", "h_mtl_first", "h_mtl_mix_first"))), [])
C28q = sum(([step(h, [a, b], "%s: %s, second part a template with %d arbitrary bytes" % (f, "first part of %d arbitrary bytes" % a if a else "listed first part", b)) for a, b in ((0, 1), (0, 2), (1, 1), (2, 1), (3, 1), (1, 2))] +
            [step(m, [n, c], "%s: %d listed pairs of files of up to %d statements" % (f, c, n)) for n, c in ((4, 300), (12, 300), (40, 100), (300, 40))]
            for f, h, m in (("OBJ", "h_concat", "h_mix_concat"), ("MTL", "h_mtl_concat", "h_mtl_mix_concat"))), [])
C28q += [step("h_mtl_pair", [k], "MTL: two materials of the same values: " + w) for k, w in enumerate(("all properties, all but one", "all properties, all but two", "any two properties, one of them", "any property, any two"))] + \
    [step("h_obj_pair", [n], "OBJ: two objects of %d statements of the same values, one left out" % n) for n in (1, 2, 3)]
LEN = (25, 300, 1000, 1023, 1024, 1025, 2100, 4096, 5000, 65535, 65536, 65537, 70000)
C09q += [step("h_lit_long", [n], "literals of %d digits in every position" % n, **HUGE) for n in LEN]
DENSE = (2, 5, 9, 12, 14, 15, 16, 17, 18, 19, 40)
C09q += [step("h_lit_dense", [n], "literals of %d digits, one symbolic, with points and exponents" % n) for n in DENSE]
C09q += [step("h_lit_table", [], "235 listed literals in every position: random, extreme, at and beside the middle of two doubles")]
C23q += [step("h_pure_slice", [m, n], "%s: %s alone and within longer ones" % (("OBJ", "MTL")[m], "templates with %d arbitrary bytes" % n if n else "listed files")) for m in (0, 1) for n in (0, 1, 2)]
C10q += [step("h_longname", [0, 0, n], "names of %d bytes, first, middle and last symbolic, in every position" % n, **HUGE) for n in LEN + (200000,)]
C11q += [step("h_layout_long", [0, n, 0], "listed files, %d blanks, comment bytes or blank lines at every place" % n, **HUGE) for n in LEN]
C13q += [step("h_layout_long", [0, n, 1], "listed files, %d blanks or comment bytes at every place" % n, **HUGE) for n in LEN]
C15q += [step("h_mtl_lit_long", [n, 1], "literals of %d digits, one symbolic, with points and exponents" % n) for n in DENSE]
C15q += [step("h_mtl_lit_long", [0], "235 listed literals in every position")] + [step("h_mtl_lit_long", [n], "literals of %d digits in every position" % n, **HUGE) for n in LEN] + \
    [step("h_longname", [0, 1, n], "names of %d bytes, first, middle and last symbolic, in every position" % n, **HUGE) for n in LEN + (200000,)]
C15q += [step("h_mtl_pair", [k], "two materials of the same values, properties left out in the second, variant %d" % k) for k in range(4)]
C17q += [step("h_layout_long", [1, n, 1], "listed files, %d blanks or comment bytes at every place" % n, **HUGE) for n in LEN]
C18q += [step("h_layout_long", [1, n, 0], "listed files, %d blanks, comment bytes or blank lines at every place" % n, **HUGE) for n in LEN]
C04q += [step("h_ix", [d, 2, z], "one index part of %d symbolic digits with a plus sign" % d) for d, z in ((1, 0), (2, 0), (1, 3))] + [step("h_ix", [1, s, z], "one index part with %d leading zeros" % z) for s in (0, 1) for z in (20, 70, 300)]
C29q = [step("h_eq", [0], "arbitrary 64-bit values and names of up to 3 bytes in every part"), step("h_eq", [1], "the same, materials with all maps"), step("h_eq_sets", [0], "object sets that differ in one symbolic digit or one statement"), step("h_eq_sets", [1], "material sets likewise")]

for m, q in ((M03, C03q), (M04, C04q)):
    q += [step("h_ix_none", [m, d], "objects without data of some kinds among others, %s" % ("one index part of %d symbolic digits" % d if d else "indices of the last data")) for d in (0, 1, 2)[:2 + (m == M04)]]
C12q += [step("h_late_lib", [n], "library statements after the head of the file, names of %d bytes" % n) for n in (1, 2)]

CTX = "%d statement(s) of every kind, then each of %s listed faults with symbolic letters and digits"
for c, m, h, w, n in ((C06q, 0, "h_ctx", 0, 95), (C12q, 0, "h_ctx", 0, 95), (C13q, 0, "h_ctx", 1, 95), (C14q, 0, "h_ctx", 2, 95),
                      (C16q, 1, "h_mtl_ctx", 0, 115), (C17q, 1, "h_mtl_ctx", 1, 115), (C26q, 1, "h_mtl_ctx", 2, 115)):
    c += [step(h, [k, w], CTX % (k, n)) for k in ((0, 1, 2, 3, 4) if w != 2 or not m else (0, 1))]
C14q += faults("h_mix_fault", 2)
AT_PLACE = (1, 2, 3, 4, 5, 6, 7, 8, 9, 20, 70, 300)
C14q += [step("h_at", [n, 0], "one faulty part of one index at any place among %d" % n) for n in AT_PLACE]
C13q += [step("h_at", [n, 1], "one faulty part of one index at any place among %d" % n) for n in AT_PLACE]
C25q += [step("h_at", [n, 1], "one faulty part of one index at any place among %d" % n) for n in AT_PLACE]
C25q += [step("h_msg", [n], WORDS % n, **HUGE) for n in (1100, 5000)] + [step("h_mtl_msg", [n, 0], "MTL: " + WORDS % n, **HUGE) for n in (1100, 5000)]
C26q += faults("h_mtl_mix_fault", 2)
C24q += [step("h_show_made", [], "objects made through public fields: symbolic and odd names, lists of 0 to 2 entries")]
C25q += [step("h_error_made", [], "errors made through public fields: listed line numbers, last digit symbolic")] + \
    [step("h_msg_lines", [n, m], "%s: a fault after %d lines" % (("OBJ", "MTL")[m], n), **HUGE) for n in (998, 999, 1000, 9998, 9999, 10000, 65534, 65535, 65536, 70000, 100000) for m in (0, 1)]
EXTREMES = lambda m: [step("h_mix_total", [n, c, m], "%d listed orders of %d statements, extreme numbers among them, arbitrary last byte" % (c, n), time=200) for n, c in ((3, 3000), (8, 2000), (20, 1000), (60, 200))]

C19q = [step("h_longname", [1, m, n], "names of %d bytes, first, middle and last symbolic, in every position" % n, **HUGE) for m in (0, 1) for n in LEN + (200000,)]

BESIDE = ("OBJ beside OBJ", "MTL beside MTL", "OBJ beside MTL")
AT = "%s, another thread's parse at any access to shared memory: "
TWO = "%s, parser objects or nested parses at the same time: "
FIRST = "%s, the first two parses of a process, the second at any access to shared memory of the first: %d mixed files"
C30q = sum(([step("h_beside", [f, n], AT % w + "templates with %d arbitrary bytes, 4 listed texts" % n) for n in (1, 2)] +
            [step("h_beside", [f, 0, 100], AT % w + "100 pairs of mixed files"), step("h_beside", [f, 9], AT % w + "files that use everything, with and without a fault"),
             step("h_beside", [f, 9, 0, 70], AT % w + "the same, and 70 more threads stopped at such an access each"),
             step("h_beside_first", [f, 8, 50], FIRST % (w, 50)), step("h_beside_first", [f, 20, 20, 10], FIRST % (w, 20) + ", 10 more threads")] +
            [step("h_two", [f, n], TWO % w + "templates with %d arbitrary bytes, 4 listed texts" % n) for n in (1, 2)] +
            [step("h_two", [f, 0, 30], TWO % w + "30 pairs of mixed files"), step("h_two", [f, 9], TWO % w + "files that use everything"), step("h_two", [f, 1, 0, 100], TWO % w + "100 of them, templates")] for f, w in enumerate(BESIDE)), [])

COST = "%s, costs of %d and %d repetitions compared: "
C31q = sum(([step("h_cost", [f, 0, n], COST % (w, n, 4 * n) + "%s" % "parts of lines, statements between a head and a tail", **HUGE) for n in (300, 3000)] +
            [step("h_cost", [f, 1, n], COST % (w, n, 4 * n) + "each statement", **HUGE) for n in (300, 3000)] +
            [step("h_cost", [f, 2, 80], COST % (w, 80, 320) + "any two statements", **HUGE), step("h_cost", [f, 12, 100], COST % (w, 100, 400) + "runs of any two statements or parts of lines", **HUGE)] +
            [step("h_cost_unit", [f, b, n], COST % (w, n, 4 * n) + "%d arbitrary ASCII bytes, between listed heads and tails" % b, **HUGE) for b, n in ((1, 300), (1, 2000), (2, 300), (3, 50))] +
            [step("h_cost_tmpl", [f, b, 100], COST % (w, 100, 400) + "templates with %d arbitrary bytes" % b, **HUGE) for b in (1, 2)] for f, w in enumerate(("OBJ", "MTL"))), [])
C31q += [step("h_cost", [0, k, n, 1], COST % ("OBJ and its text", n, 4 * n) + w, **HUGE) for k, n, w in ((0, 300, "parts of lines"), (1, 300, "each statement"), (2, 40, "any two statements"))]
C31t = C31q + sum(([step("h_cost", [f, 3, 40], COST % (w, 40, 160) + "any three statements", **HUGE), step("h_cost", [f, 2, 500], COST % (w, 500, 2000) + "any two statements", **HUGE), step("h_cost", [f, 13, 40], COST % (w, 40, 160) + "runs of any three statements or parts of lines", **HUGE)] + [
            step("h_cost_unit", [f, b, n], COST % (w, n, 4 * n) + "%d arbitrary ASCII bytes, between listed heads and tails" % b, **HUGE) for b, n in ((2, 2000), (3, 300))] + [step("h_cost", [f, 0, 20000], COST % (w, 20000, 80000) + "parts of lines", **HUGE), step("h_cost", [f, 1, 20000], COST % (w, 20000, 80000) + "each statement", **HUGE)] for f, w in enumerate(("OBJ", "MTL"))), [])

UNITS = {0: "parts of lines, statements between a head and a tail", 1: "each statement", 2: "any two statements", 12: "runs of any two statements or parts of lines"}
REP = "%s, %d times: %s"
FM = ("OBJ", "MTL")


def rep(h, f, pre=(), long=66000):
    """One thing said many times, and what is asserted of it."""
    return [step(h, [*pre, f, k, n], REP % (FM[f], n, UNITS[k]), **HUGE) for k, n in ((1, 300), (2, 40))] + \
        [step(h, [*pre, f, 1, long, 1], REP % (FM[f], long, UNITS[1]), **HUGE)]


for q, f, m in ((C12q, 0, 0), (C13q, 1, 0), (C14q, 2, 0), (C16q, 0, 1), (C17q, 1, 1), (C25q, 3, 0), (C25q, 3, 1), (C26q, 2, 1)):
    q += rep("h_rep_fault", m, (f,))
C11q += rep("h_rep_layout", 0)
C18q += rep("h_rep_layout", 1)
for m in (0, 1):
    C23q += rep("h_rep_pure", m)
    C27q += rep("h_rep_first", m) + [step("h_broken", [m, o], "%s: every statement broken anywhere, the rest of %s one after" % (FM[m], ("the same", "any")[o])) for o in (0, 1)]
    C28q += rep("h_rep_concat", m)
C29q += [step("h_eq_long", [n], "lists of %d entries that differ in one place" % n, **HUGE) for n in (3, 300, 70000)]
C24q += [step("h_show_name", [n], "names of %d bytes" % n) for n in (3, 10, 20, 33, 40, 65, 100, 129, 300, 5000)]
C06q += [step("h_mixed", [n, 0], "%d indices, one of another form at any place" % n) for n in (300, 3000)]
C10q += [step("h_obj_count", [70000], "70000 objects", **HUGE)]
C15q += [step("h_mtl_count", [70000], "70000 materials", **HUGE)]
REPEAT = lambda m: [step("h_repeat", [0, m, k, n], REP % (FM[m], n, UNITS[k]), **HUGE) for k, n in ((0, 300), (1, 300), (2, 300), (12, 300), (0, 70000), (1, 70000))]

PLAN = {
    "C01": both(total("obj", 0), {"quick": EXTREMES(0) + REPEAT(0), "thorough": EXTREMES(0) + REPEAT(0)}), "C02": both(total("mtl", 0), {"quick": EXTREMES(1) + REPEAT(1), "thorough": EXTREMES(1) + REPEAT(1)}),
    "C03": {"quick": C03q, "thorough": C03q + [seq(M03, a, k) for a, k in ((0, 4), (5, 4), (5, 5), (9, 6), (0, 5), (11, 5))] + big(M03, 4, [N], **HUGE)},
    "C04": {"quick": C04q, "thorough": C04q + [seq(M04, 5, k) for k in (5, 6)] + [seq(M04, 11, 6)] +
            [step("h_ix", [3, s, 0], "one index part of 3 symbolic digits, negative %d" % s) for s in (0, 1)] +
            [step("h_ix_many", [n, o, 3, part], "%d data in %d objects, an index of 3 symbolic digits in part %d" % (n, o, part)) for n, o, part in ((300, 2, 0), (999, 2, 1), (999, 1, 2))]},
    "C05": {"quick": C05q, "thorough": C05q + [seq(M05, 1, k) for k in (4, 5)]},
    "C06": {"quick": C06q, "thorough": C06q + [step("h_bad_index", [0, b, n], "a symbolic malformed index of %d bytes among %d" % (b, n)) for b, n in ((3, 9), (4, 3), (5, 3), (2, 40))] +
            [step("h_mixed", [n, 0], "%d indices, one of another form" % n) for n in (130, 300)] + [step("h_bad_index", [1, 0, n], "a listed malformed index among %d" % n) for n in (70, 130)]},
    "C07": {"quick": C07q, "thorough": C07q + [seq(M07, a, k) for a, k in ((2, 4), (2, 5), (7, 7), (9, 6), (10, 6))] + big(M07, 4, [N], **HUGE)},
    "C08": {"quick": C08q, "thorough": C08q + [seq(M08, a, k) for a, k in ((3, 4), (3, 5), (8, 7))]},
    "C09": {"quick": C09q, "thorough": C09q + [seq(M09, 6, k) for k in (5, 6)] + big(M09, 9, [66000], **HUGE)},
    "C10": {"quick": C10q, "thorough": C10q + [seq(M10, 4, 5), seq(M10, 12, 8)] + big(M10, 7, [N], **HUGE) + big(M10, 10, [1000]) },
    "C11": {"quick": C11q, "thorough": C11q + [step("h_layout_obj", [k, m, n], "all sequences of %d words and line breaks, layout change %d, runs of %d" % (k, m, n), time=900) for k, n in ((3, 1), (2, 2), (4, 1)) for m in range(9)]},
    "C12": {"quick": C12q, "thorough": C12q + [step("h_bad_kw", [0, b], "all foreign keywords of %d bytes" % b) for b in (5, 6, 7)] + [step("h_surplus", [b], "surplus words of %d bytes" % b) for b in (4, 5)]},
    "C13": {"quick": C13q, "thorough": C13q + [step("h_line", [2, s], "2 preceding lines, fault %d" % s) for s in (0, 1)]},
    "C14": {"quick": C14q, "thorough": C14q + [step("h_mixed", [n, 1], "%d indices, one of another form at any place" % n) for n in (20, 70)]},
    "C15": {"quick": C15q, "thorough": C15q + [step("h_mtl_seq", [n, r], "all sequences of %d MTL statements, rich %d" % (n, r)) for n, r in ((2, 1), (4, 0), (5, 0), (3, 1))]},
    "C16": {"quick": C16q, "thorough": C16q + [step("h_mtl_unknown", [0, b], "all unknown keywords of %d bytes" % b) for b in (4, 5, 6)] + [step("h_mtl_args", [b], "wrong arguments of %d bytes" % b) for b in (4, 5)]},
    "C17": {"quick": C17q, "thorough": C17q + [step("h_mtl_line", [2, s], "2 preceding lines, fault %d" % s) for s in (0, 1, 2)]},
    "C18": {"quick": C18q, "thorough": C18q + [step("h_layout_mtl", [k, m, n], "all sequences of %d words and line breaks, layout change %d, runs of %d" % (k, m, n), time=900) for k, n in ((4, 1), (3, 2)) for m in range(9)]},
    "C19": both(both(total("obj", 1), total("mtl", 1)), {"quick": C19q, "thorough": C19q}),
    "C20": {"quick": C20q}, "C21": {"quick": C21q}, "C22": {"quick": C22q}, "C23": {"quick": C23q}, "C24": {"quick": C24q}, "C25": {"quick": C25q}, "C26": {"quick": C26q},
    "C27": {"quick": C27q, "thorough": C27q + sum(([step(h, [0, 5], RAWS % (f, 5)), step(h, [1, 3], TMPL % (f, 3))] for f, h in (("OBJ", "h_first"), ("MTL", "h_mtl_first"))), [])},
    "C28": {"quick": C28q, "thorough": C28q + [step(h, [a, b], "parts of %d and %d arbitrary bytes" % (a, b)) for h in ("h_concat", "h_mtl_concat") for a, b in ((0, 3), (4, 1), (2, 2))] +
            [step(h, [n, c], "%d listed pairs of files of up to %d statements" % (c, n)) for h in ("h_mix_concat", "h_mtl_mix_concat") for n, c in ((8, 3000), (1000, 40), (3000, 20))]},
    "C29": {"quick": C29q}, "C31": {"quick": C31q, "thorough": C31t},
    "C30": {"quick": C30q, "thorough": C30q + [step(h, [f, 3], "%s, 3 arbitrary bytes" % w) for f, w in enumerate(BESIDE) for h in ("h_beside", "h_two")] + [step(h, [f, 0, 1000], "%s, 1000 pairs of mixed files" % w) for f, w in enumerate(BESIDE) for h in ("h_beside", "h_two")]},
}

for k, m in (("C03", M03), ("C04", M04), ("C05", M05), ("C07", M07), ("C08", M08), ("C09", M09), ("C10", M10)):
    PLAN[k]["thorough"] += mix(m, MIX_MORE)
PLAN["C15"]["thorough"] += mtlmix("h_mtl_mix", sizes=MIX_MORE)
PLAN["C11"]["thorough"] += mtlmix("h_mix_layout", sizes=MIX_MORE)
PLAN["C18"]["thorough"] += mtlmix("h_mtl_mix_layout", sizes=MIX_MORE)
PLAN["C23"]["thorough"] = C23q + [step(h, [3, 2, 66000], "66000 parses between", **HUGE) for h in ("h_mix_pure", "h_mtl_mix_pure")]
PLAN["C24"]["thorough"] = C24q + [step("h_mix", [128, n, 0, c], "%d listed files of %d statements" % (c, n)) for n, c in ((5, 2000), (12, 1000), (300, 20))]
