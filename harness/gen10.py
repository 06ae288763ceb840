"""Delimited rules for h10."""
import random
from gen09 import ctext, lit, FOLD

CLS = [  # expression, oracle, unicode
    ("dsl::ascii::character", "[](h07::cp_t c) { return c < 0x80; }", False),
    ("dsl::ascii::print", "h07::a_print", False),
    ("dsl::ascii::alpha_digit / dsl::ascii::punct", "[](h07::cp_t c) { return h07::a_alpha_digit(c) || h07::a_punct(c); }", False),
    ("dsl::ascii::graph - dsl::lit_c<'!'>", "[](h07::cp_t c) { return h07::a_graph(c) && c != '!'; }", False),
    ("dsl::unicode::character", "h07::u_character", True),
    ("dsl::unicode::print", "h07::u_print", True),
    ("-dsl::unicode::control", "[](h07::cp_t c) { return !h07::u_control(c); }", True),
    ("dsl::code_point", "[](h07::cp_t) { return true; }", True),
    ("-dsl::ascii::control", "[](h07::cp_t c) { return !h07::a_control(c); }", True),
    ("dsl::code_point - dsl::ascii::digit", "[](h07::cp_t c) { return !h07::a_digit(c); }", True),
    ("dsl::unicode::alpha / dsl::ascii::space", "[](h07::cp_t c) { return h07::u_alpha(c) || h07::a_space(c); }", True),
    ("-LEXY_ASCII_ONE_OF(\"xyz\\n\")", "[](h07::cp_t c) { return c != 'x' && c != 'y' && c != 'z' && c != 10; }", True),
    ("dsl::ascii::word", "h07::a_word", False),
    ("-dsl::lit_c<'q'>", "[](h07::cp_t c) { return c != 'q'; }", True),
]
# The classes of which several characters can be checked at once.
FAST = [("dsl::ascii::character", "[](h07::cp_t c) { return c < 0x80; }", False), ("dsl::ascii::print", "h07::a_print", False), ("dsl::ascii::graph", "h07::a_graph", False),
        ("dsl::ascii::alpha_digit", "h07::a_alpha_digit", False), ("dsl::ascii::word", "h07::a_word", False), ("dsl::ascii::alpha", "h07::a_alpha", False),
        ("dsl::unicode::print", "h07::u_print", True), ("dsl::unicode::character", "h07::u_character", True)]
LIMITS = [("dsl::ascii::newline", "h07::a_newline"), ("dsl::unicode::newline", "h07::u_newline"), ("dsl::lit_c<';'> / dsl::lit_c<'\\n'>", "[](h07::cp_t c) { return c == ';' || c == 10; }"),
          ("dsl::ascii::control", "h07::a_control")]


def s(text):
    return text.replace("\\", "\\\\").replace('"', '\\"')


def ct(text):
    return 'U"' + s(text) + '"'


class E:
    def __init__(self, r, i):
        self.r, self.i, self.pre, self.ntab = r, i, "", 0

    def tok(self, choices, kinds):
        """(rule, Toks)"""
        r = self.r
        k = r.choice(kinds)
        t = r.choice(choices)
        if k == "lit":
            return f'LEXY_LIT("{s(t)}")', f"{{{{{ct(t)}}}}}"
        if k == "tok":
            return f'dsl::token(LEXY_LIT("{s(t)}"))', f"{{{{{ct(t)}}}}}"
        if k == "cp":
            c = r.choice([0x3C3, 0x20AC, 0x1F600, 0xE9, 0x2028])
            return f"dsl::lit_cp<{c}>", f"{{{{{ctext([c])}}}}}"
        if k == "fold":
            f = r.choice([1, 2])
            t = r.choice(["end", "k", "stop", "s"])
            return f'{FOLD[f]}(LEXY_LIT("{t}"))', f"{{{{{ct(t)}}}, {f}}}"
        if k == "set":
            ts = sorted(set(r.choice(choices) for _ in range(3)) | {t + "-", "zz"})
            return "dsl::literal_set(%s)" % ", ".join(f'LEXY_LIT("{s(x)}")' for x in ts), "{{%s}}" % ", ".join(map(ct, ts))
        if k == "cls":
            ts = r.sample("\\%~&", 2)
            return "(%s)" % " / ".join("dsl::lit_c<'%s'>" % s(x) for x in ts), "{{%s}}" % ", ".join(map(ct, ts))
        if k == "eol":
            return "dsl::eol", '{{U"\\n", U"\\r\\n"}, 0, true}'
        if k == "nl":
            return "dsl::newline", '{{U"\\n", U"\\r\\n"}}'
        raise Exception(k)

    def table(self, words):
        name = f"t{self.i}_{self.ntab}"
        self.ntab += 1
        self.pre += f"static constexpr auto {name} = lexy::symbol_table<char>" + "".join(f'.map<LEXY_SYMBOL("{s(w)}")>(char({j} + \'0\'))' for j, w in enumerate(words)) + ";\n"
        return name

    def escape(self, tokens):
        r = self.r
        if not tokens:
            tok, toks = "", ""
        which = tokens.pop()
        if which == "\\" and r.random() < .5:
            rule, toks = "dsl::backslash_escape", '{{U"\\\\"}}'
        elif which == "$" and r.random() < .5:
            rule, toks = "dsl::dollar_escape", '{{U"$"}}'
        elif which == "fold":
            rule, toks = "dsl::escape(dsl::ascii::case_folding(LEXY_LIT(\"esc\")))", '{{U"esc"}, 1}'
        elif which == "cls":
            rule, toks = "dsl::escape(dsl::lit_c<'%'> / dsl::lit_c<'^'>)", '{{U"%", U"^"}}'
        elif which == "set":
            rule, toks = 'dsl::escape(dsl::literal_set(LEXY_LIT("@"), LEXY_LIT("@@")))', '{{U"@", U"@@"}}'
        else:
            rule, toks = f'dsl::escape(LEXY_LIT("{s(which)}"))', f"{{{{{ct(which)}}}}}"
        ints = False
        bs = []
        for k in r.sample(["sym", "symtok", "cap", "cap2", "u", "u6", "x", "two", "none"], r.randint(1, 4)):
            if k == "sym":
                ws = r.sample(['"', "\\", "n", "nn", "t", "$", "b", "nt", "0"], r.randint(1, 6))
                rule += f".symbol<{self.table(ws)}>()"
                bs.append("{h10::b_sym, {%s}}" % ", ".join(map(ct, ws)))
            elif k == "symtok":
                ws = r.sample(["n", "amp", "lt", "ltx", "u", "quot", "b", "x"], r.randint(1, 5))
                rule += f".symbol<{self.table(ws)}>(dsl::token(dsl::while_one(dsl::ascii::alpha)))"
                bs.append("{h10::b_symtok, {%s}, 0, h07::a_alpha}" % ", ".join(map(ct, ws)))
            elif k == "cap":
                c = r.choice([("dsl::ascii::punct", "h07::a_punct"), ("dsl::ascii::newline", "h07::a_newline"), ("dsl::unicode::alpha", "h07::u_alpha"), ("dsl::ascii::character", "[](h07::cp_t c) { return c < 0x80; }")])
                rule += f".capture({c[0]})"
                bs.append("{h10::b_cap, {}, 0, %s}" % c[1])
            elif k == "cap2":
                rule += ".capture(dsl::token(dsl::ascii::digit + dsl::ascii::digit))"
                bs.append("{h10::b_cap2, {}, 0, h07::a_digit}")
            elif k == "u":
                n = r.choice([2, 3, 4])
                rule += f".rule(dsl::lit_c<'u'> >> dsl::code_point_id<{n}>)"
                bs.append("{h10::b_cp, {U\"u\"}, %d}" % n)
            elif k == "u6":
                rule += ".rule(dsl::lit_c<'U'> >> dsl::code_point_id<6>)"
                bs.append("{h10::b_cp, {U\"U\"}, 6}")
            elif k == "x":
                rule += ".rule(LEXY_LIT(\"xx\") >> dsl::integer<int>(dsl::n_digits<2>))"
                bs.append("{h10::b_int, {U\"xx\"}, 2}")
                ints = True
            elif k == "two":
                rule += ".rule(dsl::lit_c<'w'> >> dsl::integer<int>(dsl::n_digits<2>) + dsl::integer<int>(dsl::n_digits<2>))"
                bs.append("{h10::b_two, {U\"w\"}}")
                ints = True
            else:
                rule += ".rule(LEXY_LIT(\"e\"))"
                bs.append("{h10::b_none, {U\"e\"}}")
        if r.random() < .15:
            rule += ".rule(dsl::else_ >> dsl::if_(dsl::lit_c<'~'>))"
            bs.append("{h10::b_else, {U\"~\"}}")
        return rule, f"{{{toks}, {{{', '.join(bs)}}}}}", ints

    def make(self):
        r = self.r
        fast = self.i % 4 == 3  # only what the vectorised loop supports
        named = [("dsl::quoted", '"'), ("dsl::triple_quoted", '"""'), ("dsl::single_quoted", "'"), ("dsl::backticked", "`"), ("dsl::double_backticked", "``"), ("dsl::triple_backticked", "```")]
        p = r.random()
        if p < .35:
            d, q = r.choice(named)
            o = c = f"{{{{{ct(q)}}}}}"
        elif p < .5:
            x, o = self.tok(["'", "''", "|", "ab", "aab", "--", "====="], ["lit"] if fast else ["lit", "lit", "tok", "cp"])
            c = o
            d = f"dsl::delimited({x})"
        else:
            x, o = self.tok(["<", "(", "/*", "[[", "\"", "<!--"], ["lit", "lit", "set", "fold", "cp"])
            y, c = self.tok([">", ")", "*/", "]]", "-->", "]=]", "aa", "aab"], ["lit"] if fast else ["lit", "lit", "lit", "set", "fold", "tok", "cp", "eol", "nl"])
            d = f"dsl::delimited({x}, {y})"
        lim, err = "nullptr", '"missing delimiter"'
        if r.random() < .3:
            lr, lim = r.choice(LIMITS)
            if r.random() < .5:
                d += f".limit<h10::my_tag>({lr})"
                err = '"my tag"'
            else:
                d += f".limit({lr})"
        ce, co, cu = r.choice(FAST if fast else CLS)
        tokens = ["\\", "$", "\\\\", "&#", "%", "!"] if fast else ["\\", "$", "\\\\", "fold", "cls", "set", "&#"]
        r.shuffle(tokens)
        if "\\" in tokens and "\\\\" in tokens:
            tokens.remove(r.choice(["\\", "\\\\"]))
        args, escs, ints = [ce], [], False
        for _ in range(r.choice([0, 1, 2, 2, 3] if fast else [0, 1, 1, 1, 2])):
            a, b, i = self.escape(tokens)
            args.append(a)
            escs.append(b)
            ints = ints or i
        return not ints, f"({d}({', '.join(args)}))", f"{o}, {c}, {co}, {'true' if cu else 'false'}, {lim}, {err}, {{{', '.join(escs)}}}"


def emit(seed, n, parts):
    texts = ['#include "h10.hpp"\n'] * parts
    i = 0
    for sd, m in ((11, 32), (100 + seed, n)):
        r = random.Random(sd)
        for j in range(m):
            e = E(r, i)
            a, rule, spec = e.make()
            texts[i % parts] += e.pre + f"H10({i}, {'true' if a else 'false'}, {rule}, {spec})\n"
            i += 1
    return texts


if __name__ == "__main__":
    import sys
    for i, t in enumerate(emit(int(sys.argv[1]), int(sys.argv[2]), 8)):
        open("%s/h10g%d.cpp" % (sys.argv[3], i), "w").write(t)
