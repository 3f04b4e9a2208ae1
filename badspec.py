"""C27: texts that YAML 1.2 rejects, with free parts."""
from symlib import *
L = ("set", "abxyz01_")
ALLBUT = lambda s: "".join(chr(c) for c in range(128) if chr(c) not in s)
VIS = "".join(chr(c) for c in range(0x21, 0x7f))
HEX = "0123456789abcdefABCDEF"
W = ("opt", " ")


def bad(n, long):
    """n: number of free characters where a run is free"""
    t = {}

    def add(name, *alts):
        for i, a in enumerate(alts):
            t["%s_%d" % (name, i)] = a
    add("unclosed_flow", ["[", ("set", "ab ,\n", n)], ["{", ("set", "ab :,\n", n)], ["[a, {b: ", ("set", "ab ,[\n", n)], ["- [", L, "\n- b"], ["k: {", L, ": ", L, "\n"], ["[[", L, "]", W, ("opt", ","), ("opt", "\n")], ["? [", L, "\n: b"])
    add("mismatch", ["[", L, ":", W, "}]"], ["[", L, ": ", L, W, "}]"], ["['", L, "':", W, "}]"], ["[: ", W, "}]"], ["[{}:", W, "}]"], ["[? ", L, "}]"], ["[? ", L, " : b}]"], ["- [a, b: ", L, "\n }]"], ["{k: [", L, ": b}]}"], ["[a: [", L, ": b}]]"], ["[", L, W, "}"], ["{", L, W, "]"], ["[{", L, "]}"], ["{[", L, "}]"], ["{a: [", L, "}}"], ["[", L, "]]"], ["{", L, "}}"], [L, ": [a]]"], ["- {", L, "}]"], ["- [", L, "]]"])
    add("unclosed_quote", ["'", ("set", ALLBUT("'"), n)], ["\"", ("set", ALLBUT("\"\\"), n)], ["- '", L, "''", ("set", ALLBUT("'"), n - 1)], ["k: \"", L, "\\\"", ("set", ALLBUT("\"\\"), n - 1)], ["[\"", ("set", "ab], \n", n)], ["{'", ("set", "ab}: \n", n)])
    add("escape", ["\"\\", ("set", ALLBUT("0abtnvfre \"/\\N_LPxuU\t\n\r")), "\""], ["- \"a\\x", ("set", HEX), ("set", ALLBUT(HEX)), "\""], ["\"\\x", ("set", ALLBUT(HEX)), ("set", HEX), "\""], ["\"\\u", ("set", HEX, 3), ("set", ALLBUT(HEX)), "\""], ["\"\\u", ("set", HEX, 1), ("set", ALLBUT(HEX)), ("set", HEX, 2), "\""],
        ["\"\\U0000", ("set", HEX, 3), ("set", ALLBUT(HEX)), "\""], ["\"\\ud", ("set", "89abcdefABCDEF"), ("set", HEX, 2), "\""], ["\"\\U0000d", ("set", "89abcdefABCDEF"), ("set", HEX, 2), "\""], ["\"\\U", ("set", "123456789abcdefABCDEF"), ("set", HEX, 7), "\""], ["\"\\U00", ("set", "23456789abcdefABCDEF"), ("set", HEX, 5), "\""], ["\"\\U001", ("set", "123456789abcdefABCDEF"), ("set", HEX, 4), "\""], ["\"\\U0", ("set", "123456789abcdefABCDEF"), ("set", HEX, 6), "\""])
    add("tab_indent", ["a:\n\t", L, ": c\n"], ["a:\n\t- ", L], ["-\n\t- ", L], ["a: b\n\t", L, ": c"], ["a:\n  b: c\n\td: ", L], ["- a\n\t- ", L])
    add("handle", ["!", L, "!", L, " a"], ["- !", L, ("opt", "-"), "! a"], ["{!", L, "!", L, " a: b}"])
    add("handle_scope", ["%TAG !e! tag:e:\n--- a\n--- !e!", L, " b"], ["%TAG !e! tag:e:\n--- a\n...\n--- !e!", L, " b"], ["%TAG !e! tag:e:\n--- !", ("set", "abf"), "!", L, " b"])
    add("alias", ["*", L], ["- &a b\n- *", ("set", "bxyz01_")], ["- &ab b\n- *a"], ["- &a b\n- *a", L], ["&a b\n---\n*a"], ["[*", L, "]"], ["k: *", L], ["- *a\n- &a b"], ["{*", L, " : a}"])
    add("yamldir", ["%YAML 1.", ("set", "0123"), "\n%YAML 1.2\n---\n", L], ["%YAML 1.2 ", ("set", VIS.replace("#", "")), "\n---\na"], ["%YAML 1", ("set", VIS.replace(".", "").translate({ord(c): None for c in "0123456789"})), "2\n---\na"], ["%YAML ", ("set", ALLBUT("0123456789 \t")), "1.2\n---\na"], ["%YAML 1.", ("set", ALLBUT("0123456789")), "\n---\na"], ["%YAML 1.2\n"], ["%YAML 1.2\n", L], ["%YAML 1.2\n", L, ": b\n---\n"], ["%YAML 1.2\n...\n"], ["%YAML 1.2\n# c\n"])
    add("tagdir", ["%TAG !", L, "! a\n%TAG ! x\n%TAG ! ", L, "\n---\na"], ["%TAG !a! x\n%TAG !a! ", L, "\n--- a"], ["%TAG ", L, " x\n--- a"], ["%TAG !\n--- a"], ["%TAG !", L, "!\n--- a"], ["%TAG !", L, " x\n--- a"], ["%TAG\n--- a"], ["%TAG !! ", L, " ", L, "\n--- a"], ["%TAG ! x\n"], ["%TAG ! x\n", L])
    add("late_directive", ["'", L, "'\n%YAML 1.2\n---\n"], ["[", L, "]\n%TAG ! x\n---\n"], ["- ", L, "\n%YAML 1.2\n---\n"], [L, ": b\n%YAML 1.2\n---\n"], ["*a\n%YAML 1.2\n---\n"])
    add("header", [("set", "|>"), ("set", ALLBUT("+-123456789 \t\n\r#\0")), "\n a"], [("set", "|>"), "0\n a"], [("set", "|>"), ("set", "0123456789", 2), "\n a"], [("set", "|>"), ("set", "+-", 2), "\n a"], [("set", "|>"), ("set", "+-"), "0\n a"], [("set", "|>"), ("set", "+-"), ("set", "12"), ("set", "+-12"), "\n a"], [("set", "|>"), ("set", "12"), ("set", "+-"), ("set", "+-12xb"), "\n a"], [("set", "|>"), "#c\n a"], [("set", "|>"), ("set", "+-12"), "#c\n a"], ["- ", ("set", "|>"), " ", ("set", VIS.replace("#", "")), "\n  a"], ["k: ", ("set", "|>"), ("set", "abxyz_"), "\n  a"])
    add("lead", ["a: ", ("set", "|>"), "\n   \n  ", L, "\n"], ["- ", ("set", "|>"), "\n \n   \n  ", L, "\n"], [("set", "|>"), "\n  \n ", L, "\n"])
    add("after_quote", ["'", L, "'", L], ["\"", L, "\" ", L], ["k: '", L, "' ", L], ["- \"", L, "\"", W, "'b'"], ["'", L, "' [b]"], ["'", L, "'\n", L], ["k: 'a'\n ", L], ["- \"a\"\n  ", L], ["'a'", W, "&b"], ["'a' !b"], ["'a' - b"], ["'a' | \n b"])
    add("after_flow", ["[", L, "]", W, L], ["{", L, ": b}", W, L], ["k: [", L, "] ", L], ["- {", L, "} [b]"], ["[", L, "]\n", L], ["{", L, ": b}\n[c]"], ["- [a]\n  ", L], ["k: {a: b}\n  ", L], ["[a] 'b'"], ["[a]-"], ["- []- ", L])
    add("no_comma", ["['", L, "' ", L, "]"], ["['a'", W, "\"", L, "\"]"], ["[[", L, "] ", L, "]"], ["[{", L, ": b} ", L, "]"], ["{'", L, "' ", L, ": c}"], ["{a: 'b' ", L, ": c}"], ["{a: [b] ", L, ": c}"], ["[[a]", W, "[", L, "]]"], ["[a [", L, "]"], ["[a {", L, "}"], ["[*", L, " ", L, "]"], ["{a: b\nc: ", L, "}"], ["[[a]\n[", L, "]]"])
    add("comma", ["[", L, ",,", L, "]"], ["[,", L, "]"], ["{,", L, "}"], ["{", L, ": b,,c: d}"], ["[", W, ",", W, "]"], ["[", L, ", ,]"], ["- ,", L], [",", L], ["k: ,", L], ["- a: ,"])
    add("value", [L, ": ", L, ": c"], [L, ": '", L, "': c"], ["- ", L, ": b: ", L], [L, ": b\n c: ", L], [L, "\n", L, ": c"], ["'", L, "\n b': c"], ["\"", L, "\n b\": c"], ["[", L, "\n]: c"], ["{", L, ":\n b}: c"], [L, ": [b]: c"], [L, ": {b: c}: ", L], ["- ", L, "\n  b: ", L], ["? a\n  b: ", L][:0] or ["k:\n  ", L, "\n  b: c"], ["&a\n*", L, ": c"][:0] or [L, ": *", L, ": c"])
    add("longkey", ["x" * 1030, L, ": a"], ["- '" + "x" * 1030, L, "': a"], ["a: b\n\"" + "x" * 1030, L, "\": a"])
    add("props", ["&a &", L, " c"], ["!a !", L, " c"], ["- &a b\n- &", L, " *a"], ["- &a b\n- !", L, " *a"], ["&a\n&", L, " c"], ["!a &b !", L, " c"], ["&a !b &", L, " c"], ["[&a &", L, " b]"], ["k: !a\n  !", L, " c"], ["- &a b\n- *a &", L], ["- &a b\n- *a ", L], ["- &a b\n- *a !", L], ["&a - ", L], ["!t - ", L], ["k: &a - ", L], ["&", L, "\n  *a"][:0] or ["- &a b\n- &", L, "\n  *a"])
    add("indent", ["a:\n  b: c\n d: ", L], ["- ", L, "\n b: c"], [" - ", L, "\n- b"], ["  ", L, ": b\n c: d"], ["a:\n  - b\n - ", L], ["- - ", L, "\n - b"], ["a:\n   b:\n     c: d\n    e: ", L], ["- a:\n    b\n c: ", L], ["  - a\n ", L], ["a:\n    - b\n  - ", L], [" a: b\n", L, ": d"], ["- a: b\n   c: ", L][:0] or ["- a: 'b'\n   c: ", L], ["a:\n - b\n c: ", L])
    add("first", [("set", "@`"), L], ["- ", ("set", "@`%"), L], ["k: ", ("set", "@`%")], ["[", ("set", "@`%"), "]"], ["{", ("set", "@`%"), L, ": b}"], ["- ", ("set", "]}"), L], ["k: ", ("set", "]},")], ["a: b\n", ("set", "@`]},"), L])
    add("marker", ["[", L, "\n---\n]"], ["{", L, ":\n---\nb}"], ["'", L, "\n---\nb'"], ["\"", L, "\n--- b\""], ["'", L, "\n...\nb'"], ["\"", L, "\n... \""], ["[a,\n...", ("set", " \n\t"), L, "]"], ["[a,\n---", ("set", " \n\t"), L, "]"], ["- [\n--- ]"])
    add("block_in_flow", ["[- ", L, "]"], ["{- ", L, "}"], ["[a, - ", L, "]"], ["[-]"], ["[-,", L, "]"], ["{a: - ", L, "}"], ["[|\n a]"], ["{a: >-\n b\n}"])
    add("inline_block", [L, ": - b"], [L, ": ? b"], ["--- ", L, ": b"], ["--- ", L, ": b\nc: d"], ["--- - a\n", L, ": b"], [L, ": - b\n   - c"], ["'", L, "': - b"], ["? - a\n- ", L], [L, ": b - \n- c"])
    add("flow_indent", ["a: [\n", L, "]"], ["a:\n  b: [\n c]"], ["a: {\n", L, ": b\n}"], ["- [\n", L, "]"], ["a:\n  b: {\n  c: d\n  }"][:0] or ["a: ['\n", L, "']"], ["k: 'a\n", L, "'"], ["a:\n  - \"b\n c\""])
    add("flow_key", ["[", L, "\n: b]"], ["['", L, "'\n:b]"], ["[[", L, "]\n: b]"], ["[\"a", "\n", L, "\": b]"], ["[", L, "\n ", L, ": c]"])
    add("docend", [L, "\n... ", ("set", VIS.replace("#", ""))], ["'a'\n...", W, "\n... ", L], ["- a\n... ", ("set", VIS.replace("#", "")), "\nb"], ["--- |\n a\n... ", L])
    add("mixed", ["- ", L, "\nb: c"], [L, ": b\n- c"], [L, ": b\n", L], [L, ": b\n'c'"], ["- ", L, "\nb"], ["- a\n'", L, "'"], ["- a\n[", L, "]"], ["? ", L, "\n- b"], [L, ": b\n[c]"], ["- a\n? ", L], [L, ": b\n{c: d}"], ["? a\n", L, "\n: b"], [L, ": b\n*c"], ["- 'a'\n-b"], ["- a\n- b\n", L])
    add("nocolon", ["? 'a'\n'", L, "'\n"], ["{", L, ": b, 'c' d}"], ["k:\n  a: b\n  ", L], ["- a: b\n  ", L, "\n  c: d"])
    add("comment", ["{\"", L, "\":#", ("opt", "c"), "\n", ("opt", " "), "b}"], ["['", L, "':#\n]"], ["[[", L, "]:#c\n]"], ["{a: {", L, ": b}:#\n}"], ["{'", L, "'\n:#\n}"], ["'", L, "'#c"], ["[", L, "]#c"], ["k: {a: b}#c"], ["- \"", L, "\"#"], ["'a'\t#c\n#\n", L], ["[a,#c\n b]"], ["{a: 'b',#c\n}"], ["- &a b\n- *a#c"], ["---\n'a'#"], ["%YAML 1.2#c\n---\n"][:0] or ["[[a]#c\n]"], ["a # c\n", L], ["a\n# c\n", L], ["- a #c\n  ", L], ["k: a\n  #c\n  ", L])
    add("tag", ["!<", L, " x"], ["!<a b> x"], ["!", L, "%", ("set", ALLBUT(HEX)), ("set", HEX), " x"], ["!", L, "%", ("set", HEX), ("set", ALLBUT(HEX)), " x"], ["!<%", ("set", ALLBUT(HEX)), "0> x"], ["!", L, ("set", ",{}"), " c"], ["!<", L, ">", L, " x"], ["!!", L, ("set", ",{}"), "x"], ["!e", L, "!!x y"], ["- !a\"b\""], ["!a|\n b"])
    add("anchor", ["& ", L], ["&\n", L], ["- * "], ["- *\n"], ["[&, ", L, "]"], ["{*: a}"][:0] or ["[*]"], ["&"], ["*"], ["k: &"][:0] or ["- &a b\n- *a*a"], ["&a[b]"][:0] or ["[*,a]"])
    return t
