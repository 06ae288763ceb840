"""Literal, keyword, symbol and identifier rules for h09."""
import random
IDS = [  # leading, trailing, oracles, closed under folding, letters usable for words
    ("dsl::ascii::alpha", "dsl::ascii::alpha_digit_underscore", "h07::a_alpha", "h07::a_word", True, "abkS"),
    ("dsl::ascii::alpha_underscore", "dsl::ascii::word", "h07::a_alpha_underscore", "h07::a_word", True, "ab_s"),
    ("dsl::ascii::alpha", "dsl::ascii::alpha", "h07::a_alpha", "h07::a_alpha", True, "abik"),
    ("dsl::unicode::xid_start_underscore", "dsl::unicode::xid_continue", "h07::u_xid_start_underscore", "h07::u_xid_continue", True, "abks"),
    ("dsl::ascii::lower", "dsl::ascii::lower / dsl::ascii::digit", "h07::a_lower", "[](h07::cp_t c) { return h07::a_lower(c) || h07::a_digit(c); }", False, "abk"),
    ("dsl::ascii::alpha / dsl::lit_c<'$'>", "dsl::ascii::alpha / dsl::lit_c<'-'>", "[](h07::cp_t c) { return h07::a_alpha(c) || c == '$'; }",
     "[](h07::cp_t c) { return h07::a_alpha(c) || c == '-'; }", True, "abc"),
    ("dsl::unicode::alpha - dsl::ascii::digit", "dsl::unicode::word", "h07::u_alpha", "h07::u_word", True, "abz"),
]
FOLD = ["", "dsl::ascii::case_folding", "dsl::unicode::simple_case_folding"]
CPS = [0x61, 0x62, 0x6B, 0x73, 0xE9, 0x3C3, 0x10428, 0xDF, 0x1F600, 0x20AC, 0x7F, 0x80, 0x7FF, 0x800, 0xFFFF, 0x10000]
FCPS = [0x61, 0x62, 0x6B, 0x73, 0xE9, 0x3C3, 0x10428, 0xDF, 0x1F600, 0x20AC]


def ctext(cps):
    return 'U"' + "".join(chr(c) if 0x20 < c < 0x7F and c not in (34, 92) else "\\U%08x" % c for c in cps) + '"'


def lit(s):
    return 'LEXY_LIT("%s")' % s


class E:
    def __init__(self, r):
        self.r = r
        self.pre = ""

    def word(self, letters, lo=1, hi=5):
        return "".join(self.r.choice(letters) for _ in range(self.r.randint(lo, hi)))

    def words(self, letters, n, lo=1, hi=5):
        res = []
        for _ in range(60):
            w = self.word(letters, lo, hi) if not res or self.r.random() < .4 else (self.r.choice(res) + self.word(letters, 1, 2) if self.r.random() < .7 else self.r.choice(res)[:-1])
            if w and w not in res:
                res.append(w)
            if len(res) == n:
                break
        return res

    def ident(self, fold):
        c = [i for i in IDS if i[4] or not fold]
        i = self.r.choice(c)
        one = i[0] == i[1]
        return (f"dsl::identifier({i[0]})" if one else f"dsl::identifier({i[0]}, {i[1]})"), i

    def fold(self, p=.5):
        return 0 if self.r.random() > p else self.r.choice([1, 2])

    def wrapf(self, f, x):
        return f"{FOLD[f]}({x})" if f else x

    def make(self, i, kind):
        r = self.r
        f = self.fold()
        if kind == "lit":
            if r.random() < .5:
                w = self.word("abkS+-_=" if not f else "abks+-_=", 1, r.choice([1, 2, 3, 8, 9, 17]))
                return "(" + self.wrapf(f, lit(w)) + ")", f"h09::k_lit, {f}, {{{{{ctext(map(ord, w))}}}}}"
            cps = [r.choice(FCPS if f else CPS) for _ in range(r.randint(1, 4))]
            return "(" + self.wrapf(f, "dsl::lit_cp<%s>" % ", ".join(map(hex, cps))) + ")", f"h09::k_lit, {f}, {{{{{ctext(cps)}}}}}"
        if kind == "set":
            idc, idn = self.ident(f)
            kws = r.random() < .5
            ws = self.words(idn[5].lower() if f else idn[5], r.randint(2, 7))
            lits, specs = [], []
            for w in ws:
                k = kws and r.random() < .5
                x = f'LEXY_KEYWORD("{w}", {idc})' if k else lit(w)
                if f and (not lits or r.random() < .7):
                    x = self.wrapf(f, x)
                lits.append(x)
                specs.append("{%s, %s}" % (ctext(map(ord, w)), "true" if k else "false"))
            if r.random() < .5:
                cps = [r.choice(FCPS) for _ in range(r.randint(1, 3))] + [0x20AC]
                lits.append("dsl::lit_cp<%s>" % ", ".join(map(hex, cps)))
                specs.append("{%s}" % ctext(cps))
            how = r.randrange(3)
            if how == 0:
                rule = "dsl::literal_set(%s)" % ", ".join(lits)
            elif how == 1:
                rule = "LEXY_LITERAL_SET(%s)" % ", ".join(lits)
            else:
                rule = "dsl::literal_set(%s)" % lits[0] + "".join(" / " + (x if r.random() < .5 else f"dsl::literal_set({x})") for x in lits[1:])
            return f"({rule})", f"h09::k_set, {f}, {{{', '.join(specs)}}}, {idn[2]}, {idn[3]}"
        if kind == "kw":
            idc, idn = self.ident(f)
            w = self.word(idn[5].lower() if f else idn[5], 1, 8)
            return f"({self.wrapf(f, f'LEXY_KEYWORD(%s{w}%s, {idc})' % (chr(34), chr(34)))})", f"h09::k_kw, {f}, {{{{{ctext(map(ord, w))}}}}}, {idn[2]}, {idn[3]}"
        if kind in ("sym", "symtok", "symid", "symset"):
            idc, idn = self.ident(f)
            if f == 2 and kind != "sym" and kind != "symset":
                idn = IDS[3]
                idc = f"dsl::identifier({idn[0]}, {idn[1]})"
            ws = self.words(idn[5].lower() if f else idn[5], r.randint(1, 9))
            if kind == "sym" and not f and r.random() < .3:
                ws = self.words("+-=<>", r.randint(2, 8), 1, 3)
            t = f"lexy::symbol_table<int>"
            if f and r.random() < .5:
                t += f".case_folding({FOLD[f]})"
            for j, w in enumerate(ws):
                t += f'.map<LEXY_SYMBOL("{w}")>({j * 3 + 1})' if r.random() < .7 else f'.map(LEXY_LIT("{w}"), {j * 3 + 1})'
            if f and "case_folding" not in t:
                t += f".case_folding({FOLD[f]})"
            self.pre = f"static constexpr auto table{i} = {t};\n"
            specs = ", ".join("{%s}" % ctext(map(ord, w)) for w in ws)
            if kind == "symset":
                return f"(dsl::literal_set(table{i}))", f"h09::k_set, {f}, {{{specs}}}, {idn[2]}, {idn[3]}"
            if kind == "sym":
                rule = f"dsl::symbol<table{i}>"
            elif kind == "symtok":
                rule = f"dsl::symbol<table{i}>(dsl::token(dsl::while_one({idn[1]})))"
            else:
                rule = f"dsl::symbol<table{i}>({idc}{r.choice(['', '.pattern()'])})"
            return f"({rule})", f"h09::k_{kind}, {f}, {{{specs}}}, {idn[2]}, {idn[3]}"
        # identifier
        idc, idn = self.ident(1)
        rule = idc
        res = []
        for _ in range(r.randint(0, 3)):
            how = r.choice(["", "_prefix", "_containing", "_suffix"])
            f = self.fold(.4)
            ws = self.words(idn[5].lower() if f else idn[5], r.randint(1, 4), 1 if how == "" else 2, 4)
            xs = []
            for w in ws:
                k = r.random() < .4
                x = f'LEXY_KEYWORD("{w}", {idc})' if k else lit(w)
                if f and (not xs or r.random() < .5):
                    x = self.wrapf(f, x)
                if r.random() < .3 and not k:
                    x = f"dsl::literal_set({x})"
                xs.append(x)
            rule += f".reserve{how}({', '.join(xs)})"
            res.append("{'%s', %d, {%s}}" % (how[1] if how else "e", f, ", ".join(ctext(map(ord, w)) for w in ws)))
        return f"({rule})", f"h09::k_id, 0, {{}}, {idn[2]}, {idn[3]}, {{{', '.join(res)}}}"


KINDS = ["lit", "set", "kw", "sym", "symtok", "symid", "symset", "id", "id", "set", "id"]


def emit(seed, n, parts):
    texts = ['#include "h09.hpp"\n'] * parts
    i = 0
    for s, m in ((7, 44), (100 + seed, n)):
        r = random.Random(s)
        for j in range(m):
            e = E(r)
            rule, spec = e.make(i, KINDS[j % len(KINDS)])
            texts[i % parts] += e.pre + f"H09({i}, {rule}, {spec})\n"
            i += 1
    return texts


if __name__ == "__main__":
    import sys
    for i, t in enumerate(emit(int(sys.argv[1]), int(sys.argv[2]), 8)):
        open("%s/h09g%d.cpp" % (sys.argv[3], i), "w").write(t)
