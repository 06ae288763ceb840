"""Character class expressions with their membership oracle."""
import random
ASCII = "control blank newline other_space space digit lower upper alpha alpha_underscore alpha_digit word punct graph print character".split()
UNI = "control blank newline other_space space digit lower upper alpha alpha_digit word graph print character xid_start xid_start_underscore xid_continue".split()
CATS = "Lu Ll Lt Lm Lo Mn Mc Me Nd Nl No Pc Pd Ps Pe Pi Pf Po Sm Sc Sk So Zs Zl Zp Cc Cf Cs Co Cn".split()
GROUPS = {"LC": "Lu Ll Lt", "L": "Lu Ll Lt Lm Lo", "M": "Mn Mc Me", "N": "Nd Nl No", "P": "Pc Pd Ps Pe Pi Pf Po", "S": "Sm Sc Sk So", "Z": "Zs Zl Zp",
          "C": "Cc Cf Cs Co Cn"}


def base():
    """(expr, oracle, level, only ASCII)"""
    r = []
    for a in ASCII:
        r.append((f"dsl::ascii::{a}", f"a_{a}(c)", 0, True))
    for u in UNI:
        exhaustive = u in "space lower upper alpha word xid_start xid_continue character".split()
        r.append((f"dsl::unicode::{u}", f"u_{u}(c)", 2 if exhaustive else 0, u == "other_space"))
    for k in CATS:
        r.append((f"dsl::code_point.general_category<lexy::code_point::{k}>()", f"cats<lexy::code_point::{k}>(c)", 0, False))
    for g, cs in GROUPS.items():
        cc = ", ".join("lexy::code_point::" + x for x in cs.split())
        r.append((f"dsl::code_point.general_category<lexy::code_point::{g}>()", f"(cats<{cc}>(c))", 0, False))
    r += [("dsl::code_point", "true", 2, False), ("dsl::code_point.ascii()", "c < 0x80", 0, False), ("dsl::code_point.bmp()", "c < 0x10000", 0, False),
          ("dsl::code_point.noncharacter()", "((c & 0xFFFE) == 0xFFFE || (c >= 0xFDD0 && c <= 0xFDEF))", 0, False),
          ("(dsl::code_point.range<0x61, 0x3FF>())", "c >= 0x61 && c <= 0x3FF", 0, False),
          ("(dsl::code_point.range<0xFFFF, 0x10000>())", "c == 0xFFFF || c == 0x10000", 0, False),
          ("(dsl::code_point.set<0x41, 0xE4, 0x20AC, 0x1F600>())", "c == 0x41 || c == 0xE4 || c == 0x20AC || c == 0x1F600", 0, False),
          ("dsl::code_point.if_<h07::odd>()", "c % 2 == 1", 0, False),
          ("(LEXY_ASCII_ONE_OF(\"a_-\\x7f~ \"))", "isin(c, \"a_-\\x7f~ \")", 0, True),
          ("(-dsl::unicode::control)", "!u_control(c)", 0, False),
          ("(dsl::unicode::graph - dsl::ascii::digit)", "u_graph(c) && !a_digit(c)", 0, False),
          ("(LEXY_LIT(\"a\") / dsl::lit_c<'z'>)", "c == 'a' || c == 'z'", 0, True),
          ("(dsl::lit_cp<0xE4> / dsl::lit_cp<0x1F600>)", "c == 0xE4 || c == 0x1F600", 0, False),
          ("(LEXY_LIT(U\"\\u20AC\") / dsl::lit_c<'e'>)", "c == 0x20AC || c == 'e'", 0, False),
          ]
    return r


LITS = [("dsl::lit_c<'x'>", "c == 'x'", True), ("dsl::lit_cp<0x3B1>", "c == 0x3B1", False), ("dsl::lit_cp<0x10FFFF>", "c == 0x10FFFF", False),
        ("dsl::lit_cp<0x7F>", "c == 0x7F", True), ("dsl::lit_cp<0x80>", "c == 0x80", False), ("LEXY_LIT(U\"\\uFFFD\")", "c == 0xFFFD", False)]


def expr(rng, bs, depth, lit_ok=False):
    """returns (expr, oracle, ascii only, is literal)"""
    if lit_ok and rng.random() < 0.15:
        e, o, a = rng.choice(LITS)
        return e, o, a, True
    if depth == 0 or rng.random() < 0.25:
        e, o, _, a = rng.choice(bs)
        return e, o, a, False
    k = rng.choice("/-&~m")
    if k == "~":
        e, o, a, _ = expr(rng, bs, depth - 1, True)
        return f"(-{e})", f"!({o})", False, False
    if k == "m":
        e, o, a, _ = expr(rng, bs, depth - 1)
        return f'(LEXY_CHAR_CLASS("named", {e}))', o, a, False
    x = expr(rng, bs, depth - 1, True)
    y = expr(rng, bs, depth - 1, not x[3])
    if k == "-" and x[3]:
        x, y = y, x
    c = {"/": "||", "-": "&& !", "&": "&&"}[k]
    ao = {"/": x[2] and y[2], "-": x[2], "&": x[2] and y[2]}[k]
    return f"({x[0]} {k} {y[0]})", f"(({x[1]}) {c} ({y[1]}))", ao, False


def entries(seed, n):
    bs = base()
    r = [(e, o, l, a) for e, o, l, a in bs]
    for s, m in ((4711, n), (seed, n)):
        rng = random.Random(s)
        for _ in range(m):
            e, o, a, _ = expr(rng, bs, rng.randint(1, 3))
            r.append((e, o, 0, a))
    return r


def emit(seed, n, parts):
    es = entries(seed, n)
    files = []
    for p in range(parts):
        t = '#include "h07.hpp"\n'
        for i, (e, o, l, a) in enumerate(es):
            if i % parts == p:
                t += "H07_CLASS(%d, (%s), (%s), %d, %s)\n" % (i, e, o, l, "true" if a else "false")
        files.append(t)
    return files


if __name__ == "__main__":
    import sys
    for i, t in enumerate(emit(int(sys.argv[1]), int(sys.argv[2]), 8)):
        open("%s/h07g%d.cpp" % (sys.argv[3], i), "w").write(t)
