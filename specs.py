"""What each check explores.  SPECS[id] = {groups(tier) -> [(features, [(unit, entry, params)])], bounds, ...}"""
from symlib import *

ASSUMPTIONS = [
    "LLVM IR produced by rustc from /repo's current sources (opt-level 2, debug assertions and overflow checks on) is what is executed",
    "z3 decides multi-byte path conditions; single-byte conditions are decided by exhaustive 256-entry tables certified by z3",
    "the allocator never fails and memory objects are separate; the engine checks every access against object bounds",
]
SPECS = {}


def units(entry, pre, ts):
    """ts: {name: template parts}"""
    return [(n, entry, list(pre) + tmpl(*parts)) for n, parts in ts.items()]


def rep(c, n):
    return ("rep", c, n)


A = ASCII
STRUCT = "a-:,[]{}?&*#|>'\"! \n"
HEX = "0123456789abcdefABCDEF"
# contexts in which a few arbitrary bytes are placed: prefix, suffix
CTX = {
    "directive": ("%", "\n--- a"),
    "yamldir": ("%YAML ", "\n---\n"),
    "tagdir": ("%TAG !", "\n--- !e!a b"),
    "literal_hdr": ("|", "\n  a\n b"),
    "literal_body": ("- |\n  a", "  b\n"),
    "folded_body": ("k: >\n  a", "\n  b\n"),
    "dq": ("\"", "\": b"),
    "dq_esc": ("\"\\", "\""),
    "sq": ("- 'a", "b'\n"),
    "tag": ("!", " x"),
    "verbatim": ("!<", "> x"),
    "flowmap": ("[{", "}]"),
    "flowseq": ("{[", "]}"),
    "flowpair": ("[a", ": b, c: {d}]"),
    "explicit": ("? ", "\n: b"),
    "mapping": ("a: b\n", ""),
    "mapval": ("a:", "\n  b: c\n"),
    "nestseq": ("- - a\n", ""),
    "alias": ("&a ", "*a"),
    "anchor": ("- &", " b\n- *a\n"),
    "docstart": ("---", "\n..."),
    "docend": ("a\n...", "\n---\nb"),
    "docend2": ("a\n...\n", ""),
    "plain": ("ab", "cd"),
    "plainml": ("a:\n  b", "c"),
    "comment": ("a: #", "\n  b"),
}
DEEP = {
    "plain127": ("x" * 124, ": a"),
    "key1024": ("x" * 1021, ": a"),
    "blk130": ("- >\n" + " " * 130, "\n" + " " * 130 + "y\n"),
    "blk127": ("a:\n" + " " * 125 + "b: |", "\n" + " " * 127 + "x\n" + " " * 126),
    "nest126": ("a:\n" + " " * 126 + "- |\n" + " " * 128, "\n" + " " * 126),
    "ver": ("%YAML 25", "\n---\n"),
    "flow20": ("[" * 20, "]" * 20),
    "flow260": ("[" * 260, "]" * 260),
    "seq260": ("- " * 260, "\n"),
}


def parser_units(mode, n_all, n_ctx, n_deep, extra=()):
    ts = {}
    for n in range(0, n_all + 1):
        ts["any_ascii_%d" % n] = [rep(A, n)]
    for k in (1, 2):
        ts["any_utf8_%d" % k] = [rep(ANY, k)]
    ts["utf8_mix"] = ["a", ANY, A, ANY, ":", A]
    for c, (p, s) in CTX.items():
        ts["ctx_" + c] = [p, rep(A, n_ctx), s]
        ts["ctx8_" + c] = [p, ANY, A, s]
    for c, (p, s) in DEEP.items():
        ts["deep_" + c] = [p, rep(A, n_deep), s]
    ts["esc_U"] = ["\"\\U", ("set", HEX + "g\"", 8), "\""]
    ts["esc_u"] = ["'", "\"\\u", ("set", HEX + "g\"", 4), "\""]
    ts["uri_esc"] = ["!%", ("set", HEX, 2), "%", ("set", HEX, 2), "%", ("set", HEX, 2), " x"]
    ts["version"] = ["%YAML ", ("set", "0123456789.", 5), "\n---\n"]
    for i, e in enumerate(extra):
        ts["extra%d" % i] = e
    return units("h_events", [mode], ts)


def c01(tier):
    q = tier == "quick"
    return [((), parser_units(1, 4 if q else 5, 3 if q else 4, 2 if q else 3, [[("set", STRUCT, 5 if q else 6)]]))]


SPECS["C01"] = dict(steps=2000000, groups=c01, bounds="every ASCII text of up to 4 bytes (thorough: 5); every UTF-8 text of up to 2 characters; 26 contexts x 3 (4) arbitrary bytes; long-input contexts x 2 (3) arbitrary bytes; 5 (6) bytes over the 19-character structural alphabet; up to 4 calls after an error; 2000000 instructions per path")


def c02(tier):
    q = tier == "quick"
    return [((), parser_units(9, 4 if q else 5, 3 if q else 4, 2 if q else 3, [[("set", STRUCT, 5 if q else 6)]]))]


SPECS["C02"] = dict(steps=2000000, groups=c02, bounds="as C01")


def c03(tier):
    q = tier == "quick"
    return [((), parser_units(2, 4 if q else 5, 3 if q else 4, 2 if q else 3, [[("set", STRUCT, 5 if q else 6)]]))]


SPECS["C03"] = dict(steps=2000000, groups=c03, bounds="as C01")


def c04(tier):
    q = tier == "quick"
    return [((), parser_units(4, 4 if q else 5, 3 if q else 4, 2 if q else 3, [[("set", STRUCT, 5 if q else 6)]]))]


SPECS["C04"] = dict(steps=8000000, groups=c04, bounds="as C01")


def c05(tier):
    q = tier == "quick"
    ts = {}
    for n in range(0, (3 if q else 4) + 1):
        ts["any_ascii_%d" % n] = [rep(A, n)]
    ts["any_utf8"] = [ANY] if q else [ANY, ANY]
    ts["struct"] = [("set", STRUCT, 4 if q else 5)]
    for c, (p, s) in CTX.items():
        ts["ctx_" + c] = [p, rep(A, 2 if q else 3), s]
    ts["docs"] = ["a\n", ("set", "-.%", 3), ("set", "\n -", 1), ("set", "-.%\n", 3 if not q else 2), "\nb"]
    ts["aliases"] = ["&a b\n--- ", A, "\n- &", ("set", "ab"), " x\n- *", ("set", "ab"), "\n"]
    return [((), units("h_front", [], ts))]


SPECS["C05"] = dict(groups=c05, bounds="every ASCII text of up to 3 (thorough: 4) bytes, every UTF-8 character (pair), 4 (5) structural characters, 26 contexts x 2 (3) arbitrary bytes, multi-document and alias contexts; every interface driven to its end on the same text")

# `$` end-of-line slot, `^` own-line slot, `_` space slot, `~` end-of-line slot without line break, `%` a symbolic letter or digit
NEUTRAL = {
    "map": "^%:_%%$\n^b: c$\n^",
    "map2": "^a:$\n^  b:_%$\n^  %: d$\n^e: f$\n^",
    "seq": "^-_%$\n^- -_b$\n^  -_c$\n^-$\n^- a: b$\n^  c:_d$\n^",
    "seqinmap": "a:$\n^-_%$\n^- b$\n^c:$\n^ -_d$\n^",
    "dir": "^%YAML_1.2$\n^%TAG_!e!_tag:x,$\n^---_!e!%_a$\n^...$\n^---$\n^b$\n^",
    "doc": "^---$\n^%$\n^---$\n^b: %$\n^...$\n^",
    "tag": "^!t_&a_%$\n^",
    "props": "^!t$\n^&a$\n^- !u_%$\n^- &b$\n^ x$\n^-_*a$\n^",
    "exp": "^? %$\n^:_b$\n^?$\n^  - c$\n^:$\n^  - %$\n^",
    "sq": "^'%''b'_:_c$\n^",
    "dq": "- \"%\\\"\"$\n^-_\"b\"$\n^",
    "flow": "^[_%_,_{_b:_c_,$\n^ d_:_%_}$\n^ ,_!t_x$\n^ ]$\n^",
    "flow2": "k:_{_a$\n^ ,_?_b_:_%$\n^ ,_\"c\":d_,_[_e_]_}$\n^l:_m$\n^",
    "lit": "a: |~\n  %  x\n #  y\nb:_>-~\n  %\n  z\n\nc:_d$\n^",
    "lit2": "- |+2~\n   %\n\n- >1~\n  a\n- b$\n^",
    "plain": "- a\n  %\n\n  b$\n^- c$\n^",
}
SLOT = {"$": 300, "^": 301, "_": 302, "~": 303}


def neutral_units(q, texts=NEUTRAL):
    r = []
    for n, t in texts.items():
        w = [256 if c == "%" and not t[i:].startswith(("%YAML", "%TAG")) else SLOT.get(c) or ord(c) for i, c in enumerate(t)]
        k = sum(300 <= x <= 303 for x in w)
        for s in range(k):
            r.append(("%s_%d" % (n, s), "h_comments", [s, len(w)] + w))
        if not q:
            for s in range(k):
                for s2 in range(s + 1, k):
                    r.append(("%s_%d_%d" % (n, s, s2), "h_comments", [1000 + s * 1000 + s2, len(w)] + w))
    return r


SPECS["C15"] = dict(groups=lambda tier: [((), neutral_units(tier == "quick"))], bounds="16 document skeletons covering every construct with symbolic scalar letters; every end-of-line, own-line and separation position is filled with each of 3-6 comment/blank shapes containing up to 2 arbitrary comment bytes (thorough: every pair of positions)")


def c16(tier):
    q = tier == "quick"
    n = 3 if q else 4
    NL = "a \n'#:-"
    ctx = {
        "any": [rep(A, n)],
        "struct": [("set", STRUCT, 4 if q else 5)],
        "literal": ["- |", A, "\n a\n", rep(A, n - 1), "\n b\n\n- c\n"],
        "folded": ["k: >", A, "\n  a\n", rep(A, n - 1), "\n  b\n\nl: c\n"],
        "dq": ["\"a", rep(A, n), "b\"\n"],
        "sq": ["'a", rep(A, n), "b'\n"],
        "plain": ["- a", rep(A, n), "b\n- c\n"],
        "docs": ["%YAML 1.2\n---", rep(A, n - 1), "\n...", A, "\n--- a\n"],
        "map": ["a: b\n", rep(A, n), "\nc:\n  d: e\n"],
        "flow": ["[a,\n", rep(A, n - 1), "b: {c\n:\n d}]\n"],
        "runs": ["\"", ("set", NL, 4 if q else 5), "\""],
        "esc": ["\"a\\\n", rep(A, n - 1), "\""],
    }
    r = []
    for m in (0, 1):
        r += [("m%d_%s" % (m, k), e, p) for k, e, p in units("h_breaks", [m], ctx)]
    # mixtures: 3 styles per break, so fewer arbitrary bytes
    n = 2 if q else 3
    mix = dict(ctx)
    mix.update({
        "literal": ["|", ("set", "+- 1\n"), "\n a\n", rep(A, n), "b"],
        "folded": [">", ("set", "+- 1\n"), "\n a\n", rep(A, n), "b"],
        "docs": ["---", rep(A, n), "\n...\n", "a"],
        "map": ["a: b\n", rep(A, n), "\n b: c\n"],
        "struct": [("set", "a-: \n#'>", 5 if q else 6)],
    })
    r += [("m2_" + k, e, p) for k, e, p in units("h_breaks", [2], mix)]
    return [((), r)]


SPECS["C16"] = dict(groups=c16, bounds="12 contexts (block and flow scalars of every style, collections, directives, document markers) with 3 (thorough: 4) arbitrary ASCII bytes, 4 (5) structural characters; LF replaced by CRLF, CR, or any mixture")


def scalar_spec(st, alpha, extra):
    def g(tier):
        q = tier == "quick"
        n = 4 if q else 5
        r = []
        for c in range(15):
            ts = {"any%d" % k: [rep(A, k)] for k in range(0 if st else 1, n + 1)}
            ts["mid"] = ["a", ("set", alpha, 5 if q else 6), "b"]
            ts["utf8"] = [ANY, A, ANY]
            ts["utf8b"] = ["a\n ", ANY, " ", A, "\n   ", ANY, "b"]
            ts["lines"] = ["a", ("set", " \t\nb"), "\n   ", ("set", " \t\n#-"), ("set", alpha, 2), "\n   ", ("set", alpha), "b"]
            for i, e in enumerate(extra if c in (0, 5, 6, 9) or not q else ()):
                ts["extra%d" % i] = e
            r += [("ctx%d_%s" % (c, k), e, p) for k, e, p in units("h_scalar", [st, c], ts)]
        return [((), r)]
    return g


SCB = "15 contexts (document, block sequence/mapping value, implicit and explicit key, flow sequence/mapping, nested); bodies of up to 4 (thorough: 5) arbitrary ASCII bytes, 5 (6) structural characters, multi-byte characters, multi-line skeletons"
SPECS["C06"] = dict(groups=scalar_spec(2, "a \n\t\\-.'\"#:e", [
    ["\\x", ("set", HEX + "g", 2)], ["\\u", ("set", HEX + "g", 4), "z"], ["\\U", ("set", HEX + "g", 8)], ["\\U0010", ("set", HEX, 4)],
    ["a ", "\\\n", ("set", " \t\n\\a", 4), "b"], ["\\", A, "\\", A, A]]), bounds=SCB + "; all \\x, \\u and \\U digit strings", time={"quick": 200, "thorough": 2400})
SPECS["C07"] = dict(groups=scalar_spec(1, "a \n\t'\"\\-.#:", [["''", ("set", "' \n", 4), "''"]]), bounds=SCB, time={"quick": 200, "thorough": 2400})
SPECS["C08"] = dict(groups=scalar_spec(0, "a \n\t-.#:?,!&*]'\"%", [["-", A, A], ["?", A, A], [":", A, A], ["http:", A, A, "b", A, "c"]]), bounds=SCB, time={"quick": 200, "thorough": 2400})


def c09(tier):
    q = tier == "quick"
    r = []
    for c in range(12):
        for f in (0, 1):
            for ch in (0, 1, 2):
                for x in (0, 1, 2, 3):
                    hs = (0,) if q and x else (0, 2, 4) if x == 0 else (0, 1, 3, 5)
                    for h in hs:
                        ts = {"any": [rep(A, (5 if x == 0 else 6) + (0 if q else 1))], "struct": [("set", "a \n\t#", 7 if q else 9)],
                              "utf8": ["   ", ANY, "\n  ", ANY, A, "\n   ", ANY, "\n"], "more": ["    ab\n", ("set", "a \n\t", 4 if q else 6), "\n    c\n"]}
                        if h and q:
                            ts = {"h": ["   ab\n", A, A, "\n    c\n\n"]}
                        if x == 0 and h == 0 and (c in (0, 2, 5) or not q) and (f + ch) % 3 == c % 3:
                            ts["wide"] = [" " * 129 + "a\n" + " " * 128, ("set", " a\n", 3), "\n" + " " * 129, ("set", " a\n", 2), "b\n"]
                            ts["long"] = ["     " + "x" * 126, ("set", " a\n", 4), "\n     b\n"]
                        r += [("c%d_%s%s%d_h%d_%s" % (c, "|>"[f], "_-+"[ch], x, h, n), e, p) for n, e, p in units("h_block", [c, f, ch, x, h], ts)]
    return [((), r)]


SPECS["C09"] = dict(groups=c09, bounds="12 positions x literal/folded x 3 chomping modes x no or 1-3 indentation indicator x header order and trailing comment; bodies of up to 5-6 (thorough: 6-7) arbitrary ASCII bytes, 7 (9) of `a`, space, line feed, tab, #, and multi-byte characters; lines indented by 129 and lines of 128 characters", time={"quick": 300, "thorough": 2400})


def c10(tier):
    q = tier == "quick"
    r = []
    for k in (0, 1):
        for s in range(5):
            for c in range(6):
                r.append(("k%d_s%d_c%d_leaf" % (k, s, c), "h_flow", [c, s, 7, k, 0, 1, 0]))
                if not q or c == 0 or s == 2:
                    r.append(("k%d_s%d_c%d_two" % (k, s, c), "h_flow", [c, s, 2, k, 0, 2, 0]))
                if not q or c == s:
                    r.append(("k%d_s%d_c%d_chain" % (k, s, c), "h_flow", [c, s, 2, k, 1, 1, 1]))
                    r.append(("k%d_s%d_c%d_nest" % (k, s, c), "h_flow", [c, s, 1, k, 1, 1, 0]))
            if not q or s in (0, 2):
                r.append(("k%d_s%d_deep" % (k, s), "h_flow", [3 + s % 2, s, 1, k, 2, 1, 1]))
                if not q:
                    r.append(("k%d_s%d_nest2" % (k, s), "h_flow", [5, s, 2, k, 1, 1, 0]))
                    r.append(("k%d_s%d_three" % (k, s), "h_flow", [2, s, 1, k, 0, 3, 0]))
                    r.append(("k%d_s%d_two2" % (k, s), "h_flow", [2, s, 1, k, 1, 2, 1]))
    return [((), r)]


SPECS["C10"] = dict(groups=c10, bounds="flow sequences and mappings in 6 contexts x 5 separation styles (none, spaces, line breaks, comments, tabs): 1 entry of 7 kinds of leaves, 2 entries (thorough: 3), one nesting level in both nodes of a pair, two levels in one of them; every entry form of both collections", time={"quick": 300, "thorough": 2400})


def c11(tier):
    q = tier == "quick"
    r = []
    for c in range(4):
        ps = [(1, 1, 2), (2, 1, 1), (2, 0, 2), (1, 0, 3), (3, 0, 1), (1, 3, 1), (3, 1, 0)]
        if q and c == 0:
            ps += [(4, 1, 0), (2, 2, 1)]
        if not q:
            ps += [(2, 2, 1), (3, 1, 1), (2, 1, 2), (4, 2, 0), (3, 0, 2), (1, 1, 3), (4, 0, 1), (5, 1, 0)]
        for p in ps:
            r.append(("c%d_%d_%d_%d" % ((c,) + p), "h_tree", [c] + list(p)))
    return [((), r)]


SPECS["C11"] = dict(groups=c11, bounds="every block tree of up to 4 (thorough: 5) nested or sibling collections and 3 additional entries with up to 3 departures from the plainest layout (tree, entry and departure budgets as listed in the units), scalar letters symbolic; bare, after ---, without final line break, followed by another document", time={"quick": 300, "thorough": 2400})


def c12(tier):
    q = tier == "quick"
    r = []
    for k in (0, 1):
        for p in [(1, 3), (2, 2), (3, 2), (4, 1)] + ([(2, 3)] if k == 0 or not q else []) + ([] if q else [(1, 5), (3, 3), (5, 2)]):
            r.append(("docs%d_%d_%d" % (k, *p), "h_docs", list(p) + [k]))
    for m in (0, 1):
        for s in range(5):
            ts = {"any%d" % n: [rep(A, n)] for n in range(0, 5 if q else 6)}
            ts["utf8"] = [ANY, A]
            ts["long"] = [("set", " \tx\n"), ("set", " \tx#"), ("set", STRUCT, 3 if q else 4)]
            r += [("m%d_s%d_%s" % (m, s, k), e, p) for k, e, p in units("h_marker", [m, s], ts)]
    return [((), r)]


SPECS["C12"] = dict(groups=c12, bounds="every stream of up to 4 (thorough: 5) documents from 13 contents, 9 directive forms, 6 ways to write the start and 6 the end, with up to 3 (5) departures from the plainest form; marker lines inside 5 kinds of open nodes followed by up to 4 (5) arbitrary ASCII bytes", time={"quick": 300, "thorough": 2400})


def c13(tier):
    q = tier == "quick"
    r = []
    for l in range(6):
        ps = [(1, 1, 1), (2, 0, 1), (1, 0, 2), (3, 0, 1)]
        if q and l in (0, 5):
            ps.append((2, 1, 1))
        if not q:
            ps += [(2, 1, 1), (2, 0, 2), (4, 0, 1)]
        for p in ps:
            r.append(("l%d_%d_%d_%d" % ((l,) + p), "h_anchor", [l] + list(p)))
    k = 4 if q else 5
    ts = {"any": [rep(A, k)], "seq": ["- &", ("set", "ab,:&*! \n", k), " x\n- *", ("set", "ab:,", 2)], "map": [("set", "&!"), ("set", "ab\n "), ("set", "\n&a "), ("set", "ab "), "\nk: &", ("set", "ab"), ("opt", "b"), " c\nl: *", ("set", "ab"), ("opt", "b")],
          "flow": ["{&", ("set", "ab,:]", 2), " [&", ("set", "abc"), ("set", " b"), " ]: *", ("set", "abc", 2), " }"], "docs": ["&", ("set", "ab"), " x\n---\n- &", ("set", "ab"), ("opt", " "), "\n- *", ("set", "ab")],
          "re": ["- &", ("set", "ab"), "\n- &", ("set", "ab"), " {}\n- *", ("set", "ab"), "\n- &", ("set", "ab"), ("set", " \n"), ("set", "-ab"), "\n- *", ("set", "ab")], "utf8": ["- &", ANY, A, "\n- *", ANY, A]}
    r += [("name_%s" % a, b, c) for a, b, c in units("h_names", [], ts)]
    return [((), r)]


SPECS["C13"] = dict(groups=c13, bounds="6 layouts with up to 3 (thorough: 4) anchored nodes and aliases per document, 1-2 documents; names of one arbitrary symbolic character (optionally followed by one of three more); the name get_anchor gives for every anchor and alias of 7 kinds of texts with 4-8 symbolic characters", time={"quick": 300, "thorough": 2400})


def c14(tier):
    q = tier == "quick"
    r = []
    for f in (0, 1, 2, 3, 4, 5, 6, 7, 8, 10):
        ts = {"any%d" % k: [rep(A, k)] for k in (1, 2, 3) if k < 3 or not q or f in (0, 3, 7)}
        if f in (0, 1, 2, 3, 7):
            ts["esc1"] = ["a%", ("set", HEX + "g", 2), "b"]
            ts["esc2"] = ["%", ("set", HEX + "g", 2), "%", ("set", HEX, 2)]
            ts["esc2b"] = ["%", ("set", HEX, 2), A, ("set", HEX, 2)]
            if not q or f in (0, 3):
                ts["esc3"] = ["%", ("set", HEX, 2), "%", ("set", HEX, 2), "%", ("set", HEX, 2)]
            ts["esc4"] = ["%F", ("set", HEX), "%", ("set", HEX), "0%80%", ("set", HEX, 2)]
        r += [("f%d_%s" % (f, k), e, p) for k, e, p in units("h_tag", [f, 0], ts)]
        for p in range(1, 12):
            ts = {"any": [rep(A, 1 if q else 2)], "two": ["a", A, "b"]}
            r += [("f%d_p%d_%s" % (f, p, k), e, w) for k, e, w in units("h_tag", [f, p], ts)]
    for p in range(12):
        r += units("h_tag", [9, p], {"nonspec_p%d" % p: [""]})
    return [((), r)]


SPECS["C14"] = dict(groups=c14, bounds="11 forms (local, secondary, named, verbatim, redefined primary and secondary handles, undeclared, directive prefix, directive handle, non-specific, unknown directives) x 12 positions; variable part of up to 3 arbitrary visible ASCII characters, every 1-3 byte percent-encoded sequence and 4-byte sequences with 4 free digits", time={"quick": 300, "thorough": 2400})


def c17(tier):
    q = tier == "quick"
    num = "0123456789+-.eExoaF~"
    D = "0123456789"
    pre = [0, 1, 2, 3, 4, 5, 7, 8]
    r = []
    for m in pre:
        ts = {"any%d" % n: [rep(A, n)] for n in range(0, (5 if m in (0, 2, 3) else 4) + (0 if q else 1))}
        ts["utf8"] = [ANY, A]
        r += [("m%d_%s" % (m, k), e, p) for k, e, p in units("h_resolve", [m], ts)]
    r += units("h_resolve", [6], {"m6": [rep(A, 2)]})
    for m in (0, 2, 3, 7, 16, 18, 19):
        ts = {"num5": [("set", num, 5 if q else 6)], "dec": [("set", "+-"), ("set", D, 5)], "hex": ["0x", ("set", HEX, 3 if q else 4)], "oct": ["0o", ("set", "01234567", 4)],
              "exp": [("set", "+-1"), "1", ("set", ".e"), ("set", D + "e"), ("set", "eE+-1"), ("set", D), ("set", D + "x")],
              "max": ["92233720368547758", ("set", D, 3)], "min": ["-92233720368547758", ("set", D, 3)], "hmax": ["0x7FffFFFfFFffFF", ("set", HEX, 2)], "hbig": ["0x", ("set", "178fF"), "fffffffffffffF", ("set", HEX)],
              "omax": ["0o7777777777777777777", ("set", "01234567", 2)], "omax2": ["0o", ("set", "01234567"), "77777777777777777777", ("set", "01234567")],
              "lead0": ["0", ("set", "0o"), "0000", ("set", D, 2)], "word": [("set", "fFtTnN+-."), ("set", "aAiInN"), ("set", "lLnNfFaA"), ("set", "sSfFnN"), ("set", "eE01i")],
              "inf": [("set", "+-.iI"), ("set", ".iInN"), ("set", "iInNfF"), ("set", "nNaAfF"), ("set", "fFnN1")], "infinity": [("opt", "+-."), ("set", "iI"), "nfinit", ("set", "yY")]}
        r += [("m%d_%s" % (m, k), e, p) for k, e, p in units("h_resolve", [m], ts)]
    for m in (1, 4, 5, 8, 17, 20):
        ts = {"word": [("set", "fFtTnN"), ("set", "aArRuU"), ("set", "lLuU"), ("set", "sSeElL"), ("opt", "eEx0 ")], "long": [("set", "+-."), ("set", ".iIn"), ("set", "nNa"), ("set", "fFn"), ("set", "0x ")]}
        r += [("m%d_%s" % (m, k), e, p) for k, e, p in units("h_resolve", [m], ts)]
    ts = {"any3": [rep(A, 3 if q else 4)], "num": [("set", num, 4)], "word": [("set", "fFtTnN"), ("set", "aArRuU"), ("set", "lLuU"), ("set", "sSeElL"), ("opt", "eE")], "empty": [""], "hex": ["0x", ("set", HEX + "-+ ", 3)]}
    r += [("load_%s" % k, e, p) for k, e, p in units("h_resolve", [9], ts)]
    return [((), r)]


SPECS["C17"] = dict(groups=c17, bounds="scalar texts of up to 4 arbitrary ASCII characters (5 in the thorough tier), up to 5 (6) characters over the numeric alphabet, structured decimal, octal, hexadecimal, float and word shapes of up to 22 characters including both ends of the i64 range; 8 tag and style settings; borrowed and owned; through YamlScalar and through Yaml::load_from",
                    time={"quick": 250, "thorough": 2400}, assumptions=["the value of f64::from_str on symbolic text is modelled by an injective function of the text; its grammar is Rust's"])


def c18(tier):
    q = tier == "quick"
    r = []
    for m in range(5):
        ts = {"any%d" % n: [rep(A, n)] for n in range(0, 4 if q else 5)}
        ts["struct"] = [("set", STRUCT, 4 if q else 5)]
        ts["utf8"] = [ANY, A]
        ts["docs"] = ["a\n", ("set", "-.%"), ("set", "-.Y"), ("set", "-.A"), ("set", " \n"), ("set", "b[{*-\n"), ("set", "\n:]}x"), "\n---\nc: ", A]
        ts["alias"] = ["&a ", ("set", STRUCT + "1", 3), "\n- *a\n"]
        ts["recursive"] = ["&a [ &b ", ("set", "x{[1"), ("set", "]}: ,"), " , *", ("set", "ab"), ", *", ("set", "ab"), "]"]
        ts["tagkeys"] = ["{!t ", ("set", "a1[]{}"), ": &x ", ("set", "[]{}ab,"), ", *x : !!int ", ("set", "1a[]"), "}"]
        ts["dup"] = [("set", "ab1~"), ": 1\n", ("set", "ab1~?"), ": 2\n", ("set", "ab*!"), ": 3\n"]
        if m in (0, 1):
            for c, (p, s) in CTX.items():
                ts["ctx_" + c] = [p, rep(A, 2 if q else 3), s]
        r += [("v%d_%s" % (m, k), e, p) for k, e, p in units("h_load", [m], ts)]
    for p in [(1, 1, 1), (2, 2, 1), (3, 1, 1), (3, 2, 1), (5, 0, 1), (1, 1, 3), (2, 1, 2), (4, 1, 1)] + ([] if q else [(4, 2, 1), (5, 1, 1), (3, 3, 1), (3, 1, 2), (6, 0, 1)]):
        r.append(("tree%d_%d_%d" % p, "h_loadtree", list(p)))
    return [((), r)]


SPECS["C18"] = dict(groups=c18, bounds="five loader entry points on every ASCII text of up to 3 (thorough: 4) bytes, structural texts of 4 (5) bytes, 2 (3) arbitrary bytes in 26 contexts, and templates around documents, aliases, recursive aliases, tagged and repeated keys; generated flow documents of up to 4 nodes with up to 2 properties (5 nodes without), 1-3 documents", time={"quick": 300, "thorough": 2400})


def c19(tier):
    q = tier == "quick"
    r = [("kinds_yaml", "h_kinds", [0]), ("kinds_spanned", "h_kinds", [1]), ("equal0", "h_equal", [0]), ("equal1", "h_equal", [1]), ("from", "h_from", [0])]
    for n in (1, 2, 3) if q else (1, 2, 3, 4):
        r.append(("index_seq%d" % n, "h_index", [n, 0]))
        for m in (1, 2):
            r.append(("index_map%d_%d" % (n, m), "h_index", [n, m, 0]))
    for m in (1, 2):
        r.append(("index_map2_%d_deep" % m, "h_index", [2, m, 1]))
        if not q:
            r.append(("index_map3_%d_deep" % m, "h_index", [3, m, 1]))
    return [((), r)]


SPECS["C19"] = dict(groups=c19, bounds="every node kind with every 64-bit integer and float, strings of up to 2 arbitrary ASCII characters, collections of up to 2 elements, tags nested up to 2 deep; equality of every pair of nodes of depth up to 1; mappings of up to 3 (thorough: 4) entries with arbitrary keys of depth 0 and 2 entries of depth 1", time={"quick": 250, "thorough": 2400})


def c27(tier):
    import badspec
    n = 3 if tier == "quick" else 4
    return [((), [(k, "h_bad", tmpl(*p)) for k, p in badspec.bad(n, tier != "quick").items()])]


SPECS["C27"] = dict(groups=c27, bounds="291 families of malformed texts in 30 classes (each class in block, flow, key and value positions), free parts of 1 to 3 (thorough: 4) characters", time={"quick": 250, "thorough": 1200})


def c20(tier):
    q = tier == "quick"
    r = []

    def add(t, ts):
        r.extend(("t%d_%s" % (t, k), e, p) for k, e, p in units("h_de", [t], ts))
    any_ = {"any%d" % n: [rep(A, n)] for n in range(0, 4 if q else 5)}
    any_["struct"] = [("set", STRUCT, 4 if q else 5)]
    any_["utf8"] = [ANY, A]
    any_["docs"] = ["a\n", ("set", "-.%"), ("set", "-.Y"), ("set", "-.A"), ("set", " \n"), ("set", "b[{*-\n"), ("set", "\n:]}x")]
    any_["after"] = ["[a]", rep(A, 3)]
    any_["nested"] = ["[[", ("set", "1~[]{}"), ("set", "]},: a"), "], {a: [", ("set", "1[{]}"), ("set", "]},: "), "]}]"]
    any_["block"] = ["- ", ("set", "-?a[&"), ("set", " \n:a"), ("set", "a-{b"), "\n", ("opt", " "), ("set", "-a "), ("set", " -:"), ("set", "b:\n")]
    any_["tags"] = ["[!!", ("set", "ifnsb"), "nt ", ("set", "1a~'"), ", !!int ", ("set", "1a~.'"), ", !a ", ("set", "1a~[{"), ("set", "1]},"), "]"]
    any_["typed"] = ["{ ", ("set", "a~1"), ": !!null ", ("opt", "~a"), ", b: !!str ", ("opt", "1~"), ", c: !!bool ", ("set", "tT"), "rue, d: *", ("set", "ab"), "}"]
    for c, (p, s) in CTX.items():
        any_["ctx_" + c] = [p, rep(A, 2), s]
    add(0, any_)
    D = "0123456789"
    num = {"any%d" % n: [rep(A, n)] for n in range(0, 3 if q else 4)}
    num.update({"num": [("set", "+-0123456789x.e_", 3 if q else 4)], "hex": ["0x", ("set", HEX, 3)], "oct": ["0o", ("set", "01234567", 3)], "quoted": [("set", "'\""), ("set", D), ("set", "'\"")], "tag": ["!!", ("set", "isf"), ("set", "ntl"), ("set", "trno"), ("opt", "a"), ("opt", "t"), " ", ("set", D), ("opt", D)],
                "b8": [("opt", "+-"), ("set", "12"), ("set", D, 2)], "b16": [("opt", "-"), ("set", "36"), ("set", "25"), ("set", "75"), ("set", D, 2)],
                "b32": [("opt", "-"), ("set", "24"), "1474836", ("set", D, 2)], "u32": ["42949672", ("set", D, 2)], "b64": [("opt", "-"), "92233720368547758", ("set", D, 2)], "u64": ["184467440737095516", ("set", D, 2), ("opt", D)], "coll": [("set", "[{-"), ("set", " 1]}")]})
    for t in range(1, 9):
        add(t, num)
    sc = {"any%d" % n: [rep(A, n)] for n in range(0, 4 if q else 5)}
    sc.update({"utf8": [ANY], "utf8b": [ANY, A], "word": [("set", "tfnTFN~"), ("set", "arRuUA"), ("set", "lLuU"), ("set", "sSeElL"), ("opt", "eE")], "quoted": [("set", "'\""), rep(A, 2), ("set", "'\"")], "tag": ["!!", ("set", "nsfb"), ("set", "utlo"), ("set", "lro"), ("opt", "lao"), ("opt", "lt"), " ", ("opt", "1~at"), ("opt", "r")],
               "float": [("opt", "+-"), ("set", "1.i"), ("set", "0.in"), ("set", "e0nf"), ("set", "1f")], "lit": ["|", ("opt", "-"), "\n ", ("set", "1~ab")]})
    for t in (9, 10, 11, 12, 13, 14):
        # integers seen as f64 are expensive: fewer free bytes in the quick tier
        add(t, {k: v for k, v in sc.items() if not (q and t == 10 and k in ("any3", "utf8b", "any2"))})
    if q:
        add(10, {"dig2": [("set", "0123456789.-+~a", 2)], "any1t": [rep(A, 1), ("set", "0'.f")]})
    V = ("set", "12a~[]{},: ")
    E = "[]{},: 12~a"
    add(15, {"one": ["[", rep(A, 2), "]"], "many": ["[", ("set", "1~,"), ("set", ",~ "), ("set", "1~]"), ("set", ",]"), " ", ("set", "25~a"), "]"], "block": ["- ", ("set", "1~\n"), "\n- ", ("set", "1~-"), ("set", "\n "), "- ", ("set", "~1a")], "any": [("set", "[1~,]", 4)]})
    add(16, {"free": ["[[[1,", ("set", E, 2), "],[", ("set", E, 2), "4]],5]"], "free2": ["[[[1,2],[3,4]", ("set", E, 2), "5", ("set", E), "]"], "len": ["[[[1,2", ("opt", ","), ("opt", "3"), "],[3,4", ("opt", ","), ("opt", "5"), "]", ("opt", ","), ("opt", "6"), "],5", ("opt", ","), ("opt", "7"), "]"], "block": ["- - - 1\n    - 2\n  - - 3\n", ("set", " -"), ("set", " -"), ("set", " -"), ("set", " -"), "- 4\n", ("set", "- "), ("set", " -"), ("set", "5 ")]})
    add(17, {"one": ["[{a: ", rep(A, 2), "}]"], "two": ["[{a: 1}, {", ("set", "ab"), ": ", ("set", "1{~"), ("set", "23}a"), ("set", ":} ,"), ("set", " 1}"), "}]"], "keys": ["- ", ("set", "abc1~"), ": ", ("set", "12~a"), "\n  ", ("set", "abc'"), ": ", ("set", "1~{["), ("set", "]}\n 2"), "\n- a: ", ("set", "34a")], "seq": ["[[", ("set", "12~"), ",", ("set", "~[{1"), ("set", "]}, "), ("set", "]}a,1"), "]"], "deep": ["[{b: {b: {a: 1, b: ", ("set", "~1{"), ("set", "}a]"), "}, a: 2}, a: ", ("set", "34~"), "}]"], "unknown": ["[{c: ", ("set", "[{1*"), ("set", "]}a:"), ", a: ", ("set", "12~"), "}]"]})
    etxt = {"unit": [("set", "U'\""), ("set", "nU"), ("set", "n "), ("opt", "'\"")], "umap": ["{Un: ", ("opt", "~1[{a"), ("opt", "]}"), "}"], "int": ["Int: ", rep(A, 2)], "int2": ["{Int: ", ("set", "12"), ("set", " ,}"), ("set", "Uab1 "), ("opt", "n:}"), "}"], "tup": ["Tup: [", ("set", E, 4), "]"], "str": ["Str: {a: [", ("set", "12~"), "], b: ", ("set", "tf~1"), ("opt", "r"), ("opt", "u"), ("opt", "e"), "}"], "str2": ["Str:\n  ", ("set", "abc"), ": ", ("set", "[1~"), ("set", "]1,"), ("opt", "]"), "\n  ", ("set", "abc"), ": ", ("set", "[~"), ("opt", "]"), "\n"], "strseq": ["Str: [[", ("set", "12"), "], ~]"], "new": ["New: {New: ", ("set", "U{"), ("set", "nI"), ("opt", "n"), ("opt", "t"), ("set", ": "), ("set", " ~1}"), ("opt", "1}"), ("opt", "}"), "}"], "name": [("set", "UNITS"), ("set", "neptU"), ("set", "wunt"), ("opt", "tpr"), ": ", ("set", "1~[{")], "empty": ["{", ("opt", " a,"), "}"], "any": [("set", "".join(chr(c) for c in range(128) if c != 46), 3)]}
    add(18, etxt)
    add(19, {k: (["[", *[x for x in v], "]"] if k in ("umap", "int2", "empty", "unit") else ["- Un\n- {", *v, "}"]) for k, v in etxt.items() if k in ("unit", "umap", "int", "int2", "tup", "empty")})
    add(20, {"one": [("set", "ab1~'"), ("set", ": '"), ("set", ": '"), "[", ("set", E, 2), "]"], "two": ["{a: [1, 2], ", ("set", "ab1"), ": [", ("set", E, 3), "]}"], "block": ["a:\n- ", ("set", "12~"), "\n", ("set", "b-"), ("set", ": "), ("set", "\n3 "), ("set", "-\n "), ("set", " 4"), ("set", "45")], "dup": ["{a: [1], 'a': [", ("set", "12"), "], ", ("set", "ab"), ": []}"]})
    add(21, {"any": ["[", ("set", "1,2~[]", 3), "]"], "block": ["- ", ("set", "12a["), ("opt", "]0"), "\n- ", ("set", "-35")]})
    add(22, {"any": ["[[", ("set", "12],", 2), "]", ("set", ",] "), ("set", "4,~"), ("set", "]5,"), ("opt", "]")], "block": ["- [1]\n- ", ("set", "12~["), ("opt", "0]"), "\n", ("opt", "-"), ("opt", " "), ("opt", "5")]})
    add(23, {"any": ["[", ("set", "~,1 n", 3), "]"], "block": ["- ", ("opt", "~a"), "\n-", ("opt", " "), ("opt", "~")]})
    add(24, {"map": ["{", ("set", "ab"), ": ", ("set", "1~[{"), ("set", "2]},"), ("set", " ,b}"), ("opt", "b}"), ("set", ":}"), ("opt", " ~1"), "}"], "dup": ["a: 1\n", ("set", "abc"), ": ", ("set", "~12"), "\n", ("set", "abc"), ": ", ("set", "~1"), "\n"], "seq": ["[1, ", ("set", "~1[{"), ("set", "a]}~"), ("set", ": ]}2"), ("set", "] 1,}"), ("opt", "]}")]})
    add(25, {"any": ["{1: [", ("set", E, 3), "]}"], "two": ["{", ("set", "12a"), ": [", ("set", "1~[{"), ("opt", "]}"), ", [", ("set", "1~[{"), ("opt", "]}"), "]], ", ("set", "1~"), ": [~, []]}"]})
    add(26, {"any": ["[[[", ("set", "12],[", 3), "]], ", ("set", "~["), ("set", "]t~"), ", ", ("set", "a1~'"), ("opt", "'")], "block": ["- - - 1\n  - [", ("set", "2,a"), "]\n- ", ("set", "~-["), ("set", " ]\n"), ("opt", "t"), ("opt", "rue"), "\n- ", ("set", "x1'"), ("opt", "'")]})
    add(27, {"any": ["[", ("set", "U{"), ("set", "nI"), ("opt", "n"), ("opt", "t"), ("opt", ":"), ("opt", " "), ("opt", "1"), ("opt", "}"), ", {a: 1}, ", ("set", "~1"), "]"], "block": ["- Tup: [1, ", ("set", "2~"), "]\n- a: ", ("set", "12"), "\n  b:\n    a: ", ("set", "34~"), "\n-", ("opt", " "), ("opt", "~")]})
    return [((), r)]


SPECS["C20"] = dict(groups=c20, bounds="28 target types; any value: every ASCII text of up to 3 (thorough: 4) bytes, 4 (5) structural characters, 26 contexts x 2 arbitrary bytes, multi-document, nested, tagged templates; 8 integer types: every text of 2 (3) bytes, numeric texts up to 20 digits around every limit; bool, string, char, null, option: every text of 3 (4) bytes, f64: of 1 (4); sequences, tuples, structures, maps, options, enums, newtypes: shaped texts with up to 8 free characters", time={"quick": 300, "thorough": 2400})


def c21(tier):
    """what to_pretty_string writes, from_str reads back"""
    q = tier == "quick"
    r = []

    def add(n, kind, fmt, ln, parts, raw=None):
        r.append((n, "h_ser", [kind, fmt, ln] + (raw if raw is not None else tmpl(*parts))))

    W = "a \n\t-.'\"\\:#"
    texts = {"any%d" % n: [rep(A, n)] for n in range(0, 4)}
    texts["esc"] = ["\\", ("set", "abefnrtvxuUNLP_0/ \"\\\t"), ("set", "0123abAB\\\" "), ("opt", "01fF"), ("opt", "01\\"), ("opt", "0\""), ("opt", "a")]
    # one free byte completes a character of several bytes
    for name, pre in (("c2", b"\xc2"), ("c3", b"\xc3"), ("comb", b"a\xcc"), ("arab", b"\xd9"), ("deva", b"\xe0\xa4"), ("jamo", b"\xe1\x84"), ("punct", b"\xe2\x80"), ("bom", b"\xef\xbb"), ("last", b"\xef\xbf"), ("flag", b"\xf0\x9f\x87"), ("emoji", b"\xf0\x9f\x98"), ("max", b"\xf4\x8f\xbf")):
        texts["u_" + name] = [("opt", "a \n\""), pre, 261, ("opt", "a \n\"\\")]
    texts["flags"] = [b"\xf0\x9f\x87", 261, b"\xf0\x9f\x87", 261]
    for n, p in texts.items():
        add("s_" + n, 0, 0, 0, p)
    for ln in ((0, 3, 6) if q else (0, 1, 2, 3, 4, 5, 6, 8)):
        for n, p in {"any2": [rep(A, 2)], "mid": ["a ", A, " b"], "ws": ["a", ("set", W, 3), "b"], "marker": ["ab ", ("set", "-. a", 3), ("set", " a-.\n"), "c"], "edge": [("set", " \n\ta"), "ab", ("set", " \n\t"), "c", ("set", " \n\ta")], "uws": ["ab ", b"\xe2\x80", 261, " c"], "nl": ["a\n", ("set", "b \n"), ("set", " \nc"), ("opt", "\n ")], "words": ["ab", ("set", " \n"), ("set", "c#%&-"), ("set", "d :"), ("set", " \n"), ("set", "e\"\\")]}.items():
            add("f%d_%s" % (ln, n), 0, 1, ln, p)
        if not q:
            add("f%d_any3" % ln, 0, 1, ln, [rep(A, 3)])
            add("f%d_ws5" % ln, 0, 1, ln, ["a", ("set", W, 5), "b"])
            add("f%d_long" % ln, 0, 1, ln, ["ab ", rep(A, 1), "cd", rep(A, 1), "ef ", rep(A, 1), "g"])
    long = "0123456 8901234 678901 3456789 123456 8901234 67890123 5678 012345 789 12"
    add("s_long", 0, 0, 0, [long, ("set", W), "b", ("set", W), "cde", ("set", " \n"), ("set", "f-."), "gh ijkl m"])
    add("s_default", 0, 2, 0, [rep(A, 2)])
    add("o_any", 1, 0, 0, [rep(A, 2)])
    add("o_word", 1, 0, 0, [("set", "nNt~"), ("opt", "ur"), ("opt", "lu"), ("opt", "le")])
    for n, p in {"ascii": [A], "c2": [b"\xc2", 261], "c3": [b"\xc3", 261], "punct": [b"\xe2\x80", 261], "bom": [b"\xef\xbb", 261], "last": [b"\xef\xbf", 261], "emoji": [b"\xf0\x9f\x98", 261]}.items():
        add("c_" + n, 2, 0, 0, p)
        add("cd_" + n, 2, 2, 0, p)
    add("bool", 3, 0, 0, [])
    add("none", 4, 0, 0, [])
    add("f64", 5, 0, 0, [])
    add("f32", 6, 0, 0, [])
    add("f64d", 5, 2, 0, [])
    M = 2**64
    for t, lo, hi in ((10, -2**7, 2**7 - 1), (11, 0, 2**8 - 1), (12, -2**15, 2**15 - 1), (13, 0, 2**16 - 1), (14, -2**31, 2**31 - 1), (15, 0, 2**32 - 1), (16, -2**63, 2**63 - 1), (17, 0, M - 1), (18, -2**63, 2**63 - 1)):
        for i, b in enumerate((0, lo, hi, -1 if lo else 10**6)):
            add("i%d_%d" % (t, i), t, 0, 0, None, [b % M & ~0xff, 1, 0])
        if t in (12, 13) and not q:
            add("i%d_w" % t, t, 0, 0, None, [0, 2, 0])
        if t >= 14:
            for pos in (1, 2, 3):
                add("i%d_p%d" % (t, pos), t, 0, 0, None, [0, 1, pos])
    if not q:
        texts = {"any4": [rep(A, 4)], "esc6": ["\\", ("set", "xuU\\"), ("set", "01ab\\\"\n ", 5)], "quote": [("set", "'\"\\\n \t-", 7)]}
        for n, p in texts.items():
            add("s_" + n, 0, 0, 0, p)
    return [((), r)]


SPECS["C21"] = dict(groups=c21, bounds="strings: every ASCII text of up to 3 (thorough: 4) bytes at line length 80, every 2 (3) bytes and 8 (11) blank/marker/word shapes at 3 (8) line lengths from 0 to 8, 12 blocks of 64 non-ASCII characters between optional ASCII neighbours, escape-like texts of up to 7 characters, a line of over 80 columns; characters: ASCII and 6 blocks; every i8 and u8, 256 consecutive values at the limits of every integer type (thorough: every i16/u16) and one free byte at positions 1-3; 13 floats of each width including infinities and NaN; bool, unit, None, Some", time={"quick": 300, "thorough": 2400})


def c28(tier):
    q = tier == "quick"
    r = []
    # without the comment the skeleton itself contains
    for n, e, p in neutral_units(q, dict(NEUTRAL, lit=NEUTRAL["lit"].replace(" #  y", "  #  y"))):
        r.append((n, "h_reported", p))
    anyc = {
        "struct": ["", ("set", "a-: #\n", 6 if q else 7)],
        "flow": ["[", ("set", "a, #\n]", 5 if q else 6), "]"],
        "fmap": ["{", ("set", "a,: #\n", 5 if q else 6), "}"],
        "props": ["- ", ("set", "&a !#\n", 4 if q else 5), "\n- b"],
        "any": ["a:", A, "#", A, A, "b: ", A],
        "any3": [rep(A, 2 if q else 3), "#", rep(A, 2)],
        "keys": ["? ", ("set", "a# \n:", 5 if q else 6), "\n: b"],
        "quote": ["- 'a'", A, "#", A, "\n- ", A],
        "doc": ["#", A, "\n---", A, "#", A, "\na\n...", A, "#", A],
        "breaks": ["a: b #", ("set", "a\r\n#", 3), "\r\n#", ("set", "a\r\n ", 3), "\r- #\r\n  b"],
    }
    r += [("any_" + k, e, p) for k, e, p in units("h_reported_any", [], anyc)]
    fr = {
        "struct": [("set", "a-:# \n", 4 if q else 5)],
        "comment": ["- a #", A, "\n", A, "#", A, "\n- b"],
        "flow": ["[a #", A, "\n", A, "#", A, "\n, b]"],
        "docs": ["#", A, "\n---", A, "#", A, "\na\n...", A, "#", A],
    }
    r += [("iface_" + k, e, p) for k, e, p in units("h_front", [], fr)]
    return [(("comment",), r)]


SPECS["C28"] = dict(groups=c28, bounds="16 document skeletons covering every construct, every end-of-line, own-line and separation position filled with each of 3-6 comment/blank shapes with up to 2 arbitrary comment bytes (thorough: every pair of positions); 6 contexts of arbitrary or structural characters around #; all interfaces on 4 contexts")


def c22(tier):
    q = tier == "quick"
    n = 5 if q else 6
    ts = {
        "block": [("set", "a-: \n", n)],
        "scalar": [("set", "a>\n |+", n)],
        "literal": ["|", ("set", "a \n#-+", n), "b"],
        "folded": [">", ("set", "a\n -", 1), "\n ", ("set", "ab \n", n), "\n c"],
        "flow": [("set", "[a,]\n ", n)],
        "fmap": ["{", ("set", "a,:? \n}", n)],
        "quote": [("set", "a\n'#: ", n)],
        "dq": ["\"", ("set", "a\n \\#\"", n), "\""],
        "dqtab": ["- \"b", ("set", "a\n \t\"", n), "\""],
        "sqtab": ["'b", ("set", "a\n \t'", n), "'"],
        "pltab": ["b", ("set", "a\n \t:", n), "c"],
        "fltab": ["[b,", ("set", "a\n \t]", n), "c]"],
        "props": [("set", "&a!* \n", n)],
        "key": [("set", "?a: \n", n)],
        "tab": [("set", "\ta:\n -", n - 1)],
        "any": [rep(A, 2 if q else 3)],
        "plain": ["a", rep(A, 1 if q else 2), "b\nc", rep(A, 1), "d"],
        "map": ["a: b\n", rep(A, 2), "c: d"],
        "seq": ["- a\n", rep(A, 2), "b\n"],
        "deep": ["a:\n  - b\n", ("set", " -a\n:", n), "c"],
        "deep2": ["- - a\n", ("set", " -b:\n", n)],
    }
    # one of the four places is enough for each context in the quick tier, so that every place meets most contexts
    r = []
    for i, (k, e, p) in enumerate(units("h_nested", [], ts)):
        for m in range(4):
            if m == 0 and k in ("any",) and q:
                continue
            r.append(("%s_m%d" % (k, m), e, [m] + p))
    return [((), r)]


SPECS["C22"] = dict(groups=c22, bounds="21 kinds of texts with 5 (thorough: 6) structural or 2-3 (3) arbitrary characters, nested as a block value (indented by 1 to 3), a sequence entry, an explicit key and an explicit value, each followed by a sibling")


def c23(tier):
    q = tier == "quick"
    n = 3 if q else 4
    S = lambda s, k=None: ("set", s, k or n)
    ts = {
        "block": ([S("a-: \n", n + 1)], [S("a-: \n", n - 1)]),
        "block2": ([S("a-: \n", n - 1)], [S("a-: \n", n + 1)]),
        "flow": ([S("[a]: \n", n)], [S("[a],\n", n - 1)]),
        "anchor": ([S("&a *\n")], [S("&a *\n")]),
        "anchor2": (["&a b\n--- ", S("&a *\n", n - 1)], [S("- &*a\n", n)]),
        "anchors": (["- &a b\n- &b ", S("*&a \n", n - 1)], ["&b ", S("-*&a \n", n - 1), "*b\n- &a c\n- *a"]),
        "redef": (["- &a b\n- &a c\n- &b d\n"], ["- &a b\n- *", S("ab\n", 2), "\n- &b c\n"]),
        "mark": ([S("a-.\n ")], [S("a-.\n ")]),
        "mark2": (["a\n", ("opt", "...\n"), ("opt", "...\n"), S("a\n ", 1)], [("opt", "...\n"), ("opt", "---\n"), S("a\n", 1)]),
        "mark3": ([S("a\n", 1)], [("opt", "...\n"), ("opt", "...\n"), ("opt", "#c\n"), S("a\n", 1)]),
        "scalar": ([S("|+>a\n")], [S("'a\n\"")]),
        "scalar2": ([S("'a\n\"")], [S("|+>a\n ")]),
        "tag": (["%TAG !a! b\n--- ", S("!a \n")], [S("!a -\n")]),
        "tag2": (["%TAG !a! b\n--- ", S("!a \n", 2)], ["%TAG ", S("!ab ", n), " c\n--- ", S("!a ", 3)]),
        "version": (["%YAML 1.2\n---", S("a \n", 2)], ["%YAML ", S("1.2", 2), "2\n---", S("a \n-", 2)]),
        "long": (["a:\n - b\n", S("a-: \n", n - 1)], ["- a\n", S("a-: \n", n - 1)]),
        "any21": ([rep(A, 2)], [A]),
        "any12": ([A], [rep(A, 2)]),
    }
    if not q:
        ts["any22"] = ([rep(A, 2)], [rep(A, 2)])
        ts["any31"] = ([rep(A, 3)], [A])
        ts["any13"] = ([A], [rep(A, 3)])
    return [((), [("%s_m%d" % (k, m), "h_concat", [m] + tmpl(*a) + tmpl(*b)) for k, (a, b) in ts.items() for m in (0, 1) if not (m == 1 and str(b[0])[:1] == "%")])]


SPECS["C23"] = dict(groups=c23, bounds="pairs of texts of up to 3-4 (thorough: 4-5) structural or 1-2 (1-3) arbitrary characters each, in 18 (21) contexts with anchors, tags, directives and open scalars, joined by `...` or `---`")


def c24(tier):
    q = tier == "quick"
    n = 7 if q else 9
    S = lambda s, k=n: ("set", s, k)
    ts = {
        "struct": [S("[]{},:\"1 \n\t", n)],
        "object": ["{\"a", S("\": 1\n,"), "}"],
        "object2": ["{\"a\":{", S("\"b: 1}\n\t"), "}"],
        "array": ["[", S("[],{}\"1 \n\t", n - 1), "]"],
        "mixed": ["[{\"a\":[", S("]},{[\"1: ", n - 1), "]}]"],
        "any": [rep(A, 4 if q else 5)],
        "string": ["[\"", rep(A, 3 if q else 4), "\"]"],
        "utf8": ["[\"", ANY, "\", \"", ANY, "\"]"],
        "escape": ["\"\\", rep(A, 3), "\""],
        "uescape": ["{\"a\": \"\\u", ("set", HEX, 4), "\"}"],
        "layout": ["{", A, "\"a\"", rep(A, 2), ":", A, "1", A, "}"],
        "number": [S("01-.eE+", 7 if q else 9)],
        "number2": ["[-1", S("0.eE+-1", 5), ", ", S("0.eE-1", 4), "]"],
        "words": ["[", S("truefalsn", 4), "]"],
        "words2": ["{\"a\":", S("fales", 5), "}"],
        "long": ["{\"" + "x" * 1030, A, "\"", S(" :1", 3), "}"],
        "apart": ["{\"a\"", S(" \n:[1", 4), "]}"],
        "key": ["{\"", rep(A, 2), "\":", S(" \n\t", 1), "\"", rep(A, 2), "\"}"],
        "lines": ["{\n\t\"a\": [\n\t\t1,", S("\n\t 2,]", 4), "\n\t]\n}\n"],
        "top": [S(" \n\t\r", 2), "[", S(" \n\t\r", 2), "1", S(" \n\t\r", 2), "]", S(" \n\t\r", 2)],
        "deep": ["[" * 12, S("[]{}1", 3), "]" * 12],
        "deep260": ["[" * 260, S("[]1", 2), "]" * 260],
        "deepobj": ["{\"a\":" * 258, S("{}1", 2), "}" * 258],
    }
    return [((), units("h_json", [], ts))]


SPECS["C24"] = dict(steps=8000000, groups=c24, bounds="23 kinds of texts with up to 7 (thorough: 9) symbolic structural characters or 4 (5) arbitrary ones; a reference JSON reader decides which are JSON and what they mean")


def c25(tier):
    q = tier == "quick"
    n = 4 if q else 5
    S = lambda s, k=n: ("set", s, k)
    ts = {
        "block": [S("a-: \n")],
        "key": ["a", S(" a:\n"), "\n", S("a :?", 2), "a"],
        "flow": ["[", S("a,]: {}\n", n - 1), "]"],
        "fmap": ["{a", S("a: ,}", n - 1), "}"],
        "squote": ["- ", S("a'\n#")],
        "dquote": [S("\"a\n# :", n + 1)],
        "literal": ["|", S("a\n ", n + 1)],
        "folded": ["- >\n a\n", S(" a\n", n + 1)],
        "anchor": ["&a ", S("*a \n-")],
        "anchor2": ["- &aa b\n- *", S("a\n "), "\n"],
        "comment": ["a #", S("a\n #"), "\na: b"],
        "plain": ["- a", S("a#: \n"), "a\n- b"],
        "explicit": ["? a", S("\n :?a"), "a"],
        "any_": [A, A, "a"],
        "_any": ["a", A, A],
        "a_a": ["a", A, "a", A],
        "any_any": [A, "a", A],
        "docs": ["a\n", S("-.a\n"), " a"],
        "key1024": ["x" * 1021, "a", S("a: ", 2), " b"],
    }
    return [((), units("h_letters", [], ts))]


SPECS["C25"] = dict(groups=c25, bounds="19 kinds of texts with 4 (thorough: 5) structural or 2 arbitrary characters; the letter of each text replaced by every ASCII letter and every printable character of 2, 3 and 4 bytes")


def c26(tier):
    q = tier == "quick"
    n = 4 if q else 5
    S = lambda s, k=None: ("set", s, k or n)
    pre = {
        "root": [], "sp": [" "], "doc": ["---\n"], "mark": ["---"], "seq": ["- "], "dash": ["-"], "next": ["- a\n- "],
        "nseq": ["-\n "], "map": ["a:\n "], "val": ["a:"], "val2": ["a: b\nc: "], "key": ["? "], "qm": ["?"], "exp": ["? a\n: "], "col": ["? a\n:"],
        "deep": ["- a:\n   "], "deep2": ["- - "], "anchor": ["&x\n"], "tag": ["- !t\n "], "anchor2": ["a: &x"], "flow": ["["], "flow2": ["{a: [b,\n"],
        "prop0": ["- &x\n"], "two": ["a:\n  b:\n  "], "two2": ["- - !t\n "], "sflow": ["- [b,\n"], "sflow2": ["- - {b,\n "], "mflow": ["a:\n  b: [c,\n  "], "keyprop": ["? !t\n"], "expl": ["? a\n: &x\n"],
        "plain": ["- b\n"], "mplain": ["a:\n b: c\n "],
    }
    after = {
        "block": [S("a-: \n", n)],
        "key": [S("?a: \n", n)],
        "quote": ["\"", S("a\": \n", n)],
        "flow": [S("[a],: \n", n)],
        "props": [S("&*a: \n", n)],
        "mark": [S("!-a#\n", n)],
        "scalar": [S("|>a\n ", n)],
    }
    us = []
    for i, (k, p) in enumerate(pre.items()):
        for j, (m, a) in enumerate(after.items()):
            for l, b in enumerate(["\t", " \t", "\t "]):
                if q and (i + j + l) % 3:
                    continue
                z = {"flow": [" b]"], "flow2": [" c]}"], "sflow": ["]"], "sflow2": ["}"], "mflow": ["]"]}.get(k, [])
                us.append(("%s_%s_%d" % (k, m, l), "h_tabs", tmpl(*p) + tmpl(b) + tmpl(*a, *z)))
        us.append(("%s_any" % k, "h_tabs", tmpl(*p) + tmpl("\t") + tmpl(rep(A, 2 if q else 3))))
        us.append(("%s_sib" % k, "h_tabs", tmpl(*p) + tmpl("\t") + tmpl(rep(A, 1), "a: b\n")))
    return [((), us)]


SPECS["C26"] = dict(groups=c26, bounds="a tab, alone or with a space before or after it, in 32 places at the start of a line or after an indicator, followed by 4 (thorough: 5) structural characters of 7 kinds or 1-2 (1-3) arbitrary characters")


def c29(tier):
    q = tier == "quick"
    n = 6 if q else 8
    S = lambda s, k=n: ("set", s, k)
    ts = {
        "block": [S("a-: \n")],
        "explicit": [S("?a: \n")],
        "explicit2": ["? a\n", S("a-: \n?")],
        "map": ["a:\n  b: c\n", S("b: \n-", n)],
        "seq": ["- - a\n", S("-a \n:", n), "c"],
        "seqmap": ["- a: b\n", S(" b:\n-", n), "c"],
        "mapseq": ["a:\n- b\n", S("- \nb:", n)],
        "flow": ["a: [b", S(",]\n c\"", n), "d]"],
        "flow2": ["- {b", S(",}\n c:", n), "}"],
        "flow3": ["- - [{b", S("},\n [", n), "}]"],
        "flow4": ["a:\n b: [[c],", S("]\n \"\t", n), "]]"],
        "plain": ["- a\n", S(" b\n:#", n)],
        "plain2": ["a:\n b: c\n", S(" b\n\t", n), ": d"],
        "quote": ["a:\n - 'b", S("\n '\tc", n)],
        "quote2": ["a: \"b", S("\n \":c", n)],
        "block_scalar": ["- a: |\n", S(" b\n:-", n)],
        "block_scalar2": ["a:\n - >", S("1+\n b", n), ": c"],
        "props": ["a:\n &x", S("&! \n:b", n), "c"],
        "props2": ["- &x\n", S("!a- \n:", n)],
        "comment": ["a:\n # x\n", S(" #b\n:", n), "c"],
        "any": ["a: b\n", rep(A, 3 if q else 4)],
        "any2": ["- a\n", rep(A, 2), "b: c\n", A, "d"],
        "any3": ["? a\n", rep(A, 2), " b\n", A, "c"],
        "deep": ["a:\n  b:\n    c: d\n", S(" e:-\n", n), "f"],
    }
    for i, c in enumerate(["- &x [", "- !t [", "? [", "? &x [", "a: !t [", "-\n [", "- - [", "- a: [", "- [[", "- {a: [", "? a\n: [", "? a\n: &x ["]):
        e = {"- [[": "]]", "- {a: [": "]}"}.get(c, "]")
        ts["in%d" % i] = [c, S("\n \"b,", n - 1), e]
        ts["im%d" % i] = [c.replace("[", "{"), S("\n 'b:", n - 1), e.replace("]", "}")] if "{" not in c else [c, "'", S("\n '", n - 1), e]
    return [((), units("h_columns", [], ts))]


SPECS["C29"] = dict(groups=c29, bounds="48 kinds of texts with 5-6 (thorough: 7-8) structural or 3 (4) arbitrary characters; the spans of the events of every accepted text against the columns of the text")


def c30(tier):
    q = tier == "quick"
    ts = {}
    for n in range(1, (4 if q else 5) + 1):
        ts["any%d" % n] = [rep(A, n)]
    ts["utf8"] = [ANY, A, ANY]
    ts["struct"] = [("set", STRUCT, 5 if q else 6)]
    for c, (p, s) in CTX.items():
        ts["ctx_" + c] = [p, rep(A, 3 if q else 4), s]
        ts["ctx8_" + c] = [p, ANY, A, s]
    ts["twodocs"] = ["a\n", ("set", "-.%\n "), ("set", "-.Y\n"), ("set", "-.A\n"), ("set", " \n"), ("set", "b[{*-\n#"), ("set", "\n:]}x")]
    ts["flow"] = ["[a", ("set", ",: [{]}?b", 5 if q else 6), "]"]
    ts["flow2"] = ["{? a", ("set", ",: [{]}?b", 5 if q else 6), "}"]
    ts["flow3"] = ["{'a'", ("set", ",:\" \n[]b#", 5 if q else 6), "}"]
    ts["props"] = [("set", "&!"), ("set", "a!<"), ("set", "a b>"), ("set", "&! \n"), ("set", "ab!,"), ("set", " :\n,["), ("set", "c],\n ")]
    ts["block"] = ["- a: |", ("set", "12+-# \n", 3), "\n   b", ("set", " \n#:", 2 if q else 3), "\n  c"]
    ts["plainml"] = ["a:\n  b", ("set", "\n #:c-", 5 if q else 6), "d"]
    ts["dqml"] = ["a: \"b", ("set", "\n \\\":", 4 if q else 5), "\n  d\""]
    ts["sqml"] = ["- 'b", ("set", "\n ':,", 5 if q else 6), "d'"]
    ts["entries"] = ["- a\n", ("set", "-a :?\n", 5 if q else 6), "b"]
    ts["pairs"] = ["a: b\n", ("set", "-a :?\n", 5 if q else 6), "c"]
    return [((), units("h_account", [], ts))]


SPECS["C30"] = dict(groups=c30, bounds="every ASCII text of up to 4 (thorough: 5) bytes, 5 (6) structural characters, 26 contexts with 3 (4) arbitrary bytes or a multi-byte character, and 12 templates of flow collections, node properties, multi-line scalars, entries and documents with 4-6 (5-7) symbolic characters; the events and spans of every accepted text against the text")


def c31(tier):
    q = tier == "quick"
    r = []
    n = 4 if q else 5
    for m in range(4):
        qs = "" if m < 2 else ("'" if m == 2 else "\"")
        ts = {}
        for c, (p, s) in CTX.items():
            ts["ctx_" + c] = [p, qs, rep(A, 2 if q else 3), qs, s]
        if m < 2:
            ts["any"] = [rep(A, n)]
            ts["struct"] = [("set", STRUCT, n + 1)]
        S = lambda s, k=n: ("set", s, k)
        ts["utf8"] = [qs, ANY, A, ANY, qs]
        ts["doc"] = [qs, "a", S("\n #:-b\t"), "c", qs, ("opt", "\n")]
        ts["seq"] = ["- ", qs, "a", S("\n #:-b\t"), "c", qs, "\n- d"]
        ts["map"] = ["k: ", qs, "a", S("\n #:-b\t"), "c", qs, "\nl: d"]
        ts["key"] = [qs, "a", S("\n #:-b\t"), "c", qs, ": d"]
        ts["exp"] = ["? ", qs, "a", S("\n #:?b\t"), "c", qs, "\n: d"]
        ts["expval"] = ["? e\n: ", qs, "a", S("\n #:?b\t"), "c", qs]
        ts["flow"] = ["[", qs, "a", S("\n #:-b,{]"), "c", qs, "]"]
        ts["flowmap"] = ["{", qs, "a", S("\n #:-b,["), "c", qs, ": d}"]
        ts["flowval"] = ["- {a: ", qs, "a", S("\n #:-b,["), "c", qs, ", d}"]
        ts["pair"] = ["[", qs, "a", S("\n #:b,?"), qs, ": d]"]
        ts["around"] = [("set", " -?&!"), ("set", " xa"), ("set", " \n"), qs, "a", qs, ("set", " :#\n"), ("set", " :#b\n"), ("set", " :-\nb")]
        ts["around_flow"] = ["[", ("set", " {?,:"), ("set", " :?"), qs, "a", qs, ("set", " :,\n"), ("set", " :,]"), ("set", "]}b "), "]"]
        ts["two"] = [qs, "a", qs, ":", S("\n -:"), qs, "b", qs, S("\n :", 3), qs, "c", qs]
        ts["props"] = ["- ", ("set", "&!"), "x", ("set", " \n"), ("opt", " "), qs, "a", S("\n #:b", 3), qs, "\n- c"]
        ts["multi"] = ["a:\n  b:\n   ", qs, "c\n", S(" \n\td"), "e", qs, "\n  f: g"]
        r += [("m%d_%s" % (m, k), e, p) for k, e, p in units("h_requote", [m], ts)]
    return [((), r)]


SPECS["C31"] = dict(groups=c31, bounds="scalars of up to 6 (thorough: 7) symbolic characters (line breaks, comments, indicators) in 16 places, 2 (3) arbitrary bytes in 26 contexts, any text of 4 (5) bytes or 5 (6) structural characters; plain to double and single quotes, and single to double quotes and back")


def c32(tier):
    q = tier == "quick"
    d = 0 if q else 1
    ts = {}
    S = lambda a, k: ("set", a, k + d)
    for n in range(0, (4 if q else 5) + 1):
        ts["any%d" % n] = [rep(A, n)]
    ts["struct"] = [S("a-:,[]{}?&*#'\"! \n", 5)]
    ts["flow"] = ["[", S("[]{},:?a \n", 5), "]"]
    ts["flowmap"] = ["{", S("[]{},:?a \n", 5), "}"]
    ts["flowq"] = ["[", S("\"',:?a \n", 5), "]"]
    ts["flowmapq"] = ["{", S("\"',:?a \n", 5), "}"]
    ts["flowprop"] = ["[", S("&!*a,[]: ", 5), "]"]
    ts["flowmapprop"] = ["{", S("&!*a,[]: ", 5), "}"]
    ts["flowcomment"] = ["- [a", S("#,]:b \n", 5), "]"]
    ts["flowkey"] = ["[a", S("]:b?, \n", 4), "]: b"]
    ts["flowkey2"] = ["? {a", S("}:b?, \n", 4), "}\n: b"]
    ts["flowkey3"] = ["k: {'a'", S("}:b?, \n", 5), "}"]
    ts["block"] = [S("-?:a \n", 6)]
    ts["blockq"] = [S("-:a' \n#", 5)]
    ts["blockprop"] = [S("-:a&! \n", 5), "b"]
    ts["alias"] = ["&a ", S("*a:-[], \n", 5)]
    ts["alias2"] = ["- &a b\n", S("*a:- \n", 5)]
    ts["map"] = ["a: b\n", S("-?:a \n", 5)]
    ts["map2"] = ["a:\n  b: c\n", S("-?:a \n", 5)]
    ts["map3"] = ["a:\n", S("-b: \n#", 5), ": c"]
    ts["seq"] = ["- a\n", S("-?:a \n", 5)]
    ts["seq2"] = ["- - a\n", S("-:a \n", 5), "b"]
    ts["seq3"] = ["- a: b\n", S("-:a \n", 5), "c"]
    ts["seq4"] = ["-", S("- a:\n", 5), "- c: d"]
    ts["exp"] = ["? a\n", S("-?:a \n", 5)]
    ts["exp2"] = ["? - a\n", S("-?:a \n", 5), "b"]
    ts["exp3"] = ["? a: b\n", S(":-a \n", 5), "c"]
    ts["exp4"] = ["?", S(" a:-?\n", 5), ": b"]
    ts["indentless"] = ["a:\n- b\n", S("-a: \n", 5), "c"]
    ts["indentless2"] = ["- a:\n  - b\n", S("-a: \n", 5), "c"]
    ts["plain"] = ["a", S("\n #:-b", 5), "c"]
    ts["plain2"] = ["- a", S("\n #:-b", 5), "c"]
    ts["plain3"] = ["a: b", S("\n #:-c", 5), "d: e"]
    ts["plain4"] = ["[a", S("\n #:-,b", 5), "c]"]
    ts["dq"] = ["\"a", S("\n :b\"", 5), "\": c"]
    ts["dq2"] = ["- \"a", S("\n #:b\"", 5), "c\""]
    ts["sq"] = ["k: 'a", S("\n #:b'", 5), "c'"]
    ts["sq2"] = ["{'a", S("\n :b'", 5), "': c}"]
    ts["docs"] = ["a\n", S("-. \nb#", 5), "c"]
    ts["docs2"] = ["---", S("-. \nb:", 5)]
    ts["docs3"] = ["a: b\n...\n", S("-. \nb#", 5)]
    ts["docs4"] = ["--- [a,", S("\n-. ]", 5), "]"]
    ts["docs5"] = ["- a\n--", S("-. \nb", 5), "c"]
    ts["docs6"] = [("opt", "a\n"), ("opt", "...\n"), ("opt", "...\n"), ("opt", "#c\n"), ("opt", "...\n"), ("opt", "---\n"), S("a: \n", 3)]
    ts["props"] = ["&a", S(" !b\n-:", 5), "c: d"]
    ts["props2"] = ["- !a", S(" &b\n-:", 5), "c"]
    ts["props3"] = ["k: &a", S(" !b\n-:", 5), "c"]
    ts["props4"] = ["[&a", S(" !b\n:,[", 5), "]"]
    ts["props5"] = ["? !a", S(" &b\n-:", 5), "c"]
    ts["comment"] = ["a:", S(" #\nb:-", 5), "c"]
    ts["comment2"] = ["- ", S(" #\nb:-", 5), "c"]
    ts["tab"] = ["a:", S("\t \nb:-", 5), "c"]
    ts["tab2"] = ["-", S("\t \nb:-", 5), "c"]
    ts["tab3"] = ["a: b\n", S("\t \n#c", 5), "d"]
    ts["tab4"] = ["- [a,", S("\t \n#b", 5), "]"]
    ts["deep"] = ["a:\n  b:\n    c: d\n", S(" e:-\n", 5), "f"]
    ts["dir"] = ["%", S("YAML 1.2#", 5), "\n--- a"]
    ts["dir2"] = ["%YAML", S(" 1.2#\n", 5), "\n---", S(" \na", 2)]
    ts["dir3"] = ["%TAG", S(" !a#\n", 5), "\n--- !a!b c"]
    ts["dir4"] = ["%TAG ", S("!a \n", 3), " b\n--- ", S("!ab \n", 4)]
    ts["dir5"] = ["%a", S(" b#\n-%", 5), "\n---\n"]
    ts["dir6"] = ["%TAG !a! b\n", ("set", "-%#"), ("opt", "-- !a!c d\n"), ("set", "-."), ("opt", "-- "), ("opt", ".."), S("!a\n%", 4)]
    ts["dir7"] = [("opt", "a\n"), ("opt", "...\n"), "%YAML 1.2\n", S("-#\n%", 3), ("opt", "---"), S(" \na", 2)]
    ts["tags"] = ["- ", S("!a! ", 5), "b"]
    ts["tags2"] = ["{", S("!a!, ", 5), ": b}"]
    ts["esc"] = ["- \"a", S("\\\n b\"", 5), "c\""]
    ts["esc2"] = ["k: \"", S("\\\n \t\"", 5), "\""]
    ts["esc3"] = ["{\"a", S("\\\"n :b", 5), "\": c}"]
    ts["esc4"] = ["\"", ("set", "\\"), A, ("set", "\\\" "), A, "\""]
    ts["key"] = ["- ", S("?&!\"':a ", 5), "b: c"]
    ts["key2"] = [S("?&!\"'[]a ", 4), ": c"]
    ts["key3"] = ["[", S("&!\"':a ,", 5), ": b]"]
    ts["key4"] = ["{? ", S("&!\"':a ,", 5), ": b}"]
    ts["key5"] = ["? ", S("&!\"':a[]\n", 5), "\n: b"]
    ts["val"] = ["a: ", S("&!\"':-? \n", 5), "b"]
    ts["val2"] = ["- a: &b", S(" !'\n-c:", 5), "d: e"]
    ts["flow2"] = ["k: [a,", S("\n #b:,]", 5), "]\nl: m"]
    ts["flow3"] = ["- {a: b", S("\n #c:,?", 5), "}\n- d"]
    ts["flow4"] = ["[[a", S("],: b{}", 5), "]]"]
    ts["flow5"] = ["{a: {b", S("},: c[]", 5), "}}"]
    ts["flow6"] = ["[a, ? b", S(" :,c\n]", 5), "d]"]
    ts["lit"] = ["a: |", S("b \n+-#", 5), "c"]
    ts["lit2"] = ["- |\n", S("b \n#-", 6), "c"]
    ts["lit3"] = ["a:\n  b: |\n", S("c \n#", 6), ": d"]
    ts["lit4"] = ["- - >\n", S("b \n-", 6)]
    ts["lit5"] = [("set", "|>"), S("a \n#-\t", 5)]
    ts["lit6"] = ["--- ", ("set", "|>"), "\n", S("a \n#-.", 6)]
    ts["lit7"] = ["- ", ("set", "|>"), ("set", "123"), ("set", "+-\n"), "\n", S("a \n#", 5)]
    ts["lit8"] = ["- &a", S(" |!\n", 3), "\n", S("b \n-:", 4)]
    ts["lit9"] = ["? |\n", S("b \n:", 6), "c"]
    ts["lit10"] = ["a:\n- ", ("set", "|>"), "\n", S("b \n-:", 5), "c"]
    ts["fold"] = ["k: >\n a", S("b \n#\t", 5), "c"]
    ts["fold2"] = ["- >", ("set", "+-\n"), "\n  a\n", S("b \n#-", 5)]
    ts["fold3"] = [">\n\n", S("b \n#-", 6)]
    ts["deep2"] = ["- - - a\n", S(" b:-\n", 5), "c"]
    return [((), units("h_spec", [], ts))]


SPECS["C32"] = dict(groups=c32, bounds="every text of up to 4 (thorough: 5) bytes of the alphabet, 5-6 (6-7) characters out of those of a construct alone or within 90 contexts (flow and block collections, keys, properties, aliases, multi-line, quoted and block scalars, escapes, comments, tabs, directives, document markers)")
