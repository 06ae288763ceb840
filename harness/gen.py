"""Random grammar generator: emits each grammar both as lexy DSL code and as text for the reference model."""
import random, re, zlib

LITS = ["a", "b", "ab", "abc", "x", "if", "(", ")", "[", "]", ",", ";", ":", "+", "-", "->", "=", "==", "let", "elif",
        "abcdefgh", "abcdefghi", "!", "<", ">", "begin", "end", ".", "..", "{", "}"]
CLASSES = {  # name -> (C++, error name, example characters)
    "digit": ("dsl::ascii::digit", "ASCII.digit", "07"),
    "lower": ("dsl::ascii::lower", "ASCII.lower", "aq"),
    "upper": ("dsl::ascii::upper", "ASCII.upper", "AZ"),
    "alpha": ("dsl::ascii::alpha", "ASCII.alpha", "aZ"),
    "alnum": ("dsl::ascii::alpha_digit", "ASCII.alpha-digit", "a9"),
    "space": ("dsl::ascii::space", "ASCII.space", " \n"),
    "blank": ("dsl::ascii::blank", "ASCII.blank", " \t"),
    "punct": ("dsl::ascii::punct", "ASCII.punct", "!~"),
    "vowel": ("gobs::vowel", "vowel", "ae"),
}
IDENT = "dsl::identifier(dsl::ascii::alpha, dsl::ascii::alpha_digit)"
TAGS = ["tag0", "tag1", "tag2"]


def q(s):
    r = '"'
    for c in s:
        if c == '"' or c == '\\':
            r += '\\' + c
        elif c == '\n':
            r += '\\n'
        elif c == '\r':
            r += '\\r'
        elif c == '\t':
            r += '\\t'
        else:
            r += c
    return r + '"'


class R:
    """A rule: C++ text, model text and the static facts needed to combine it legally."""
    __slots__ = ("cpp", "sx", "br", "un", "tok", "lit", "vals", "nr", "nb", "ops", "chars", "ret", "noinl")

    def __init__(s, cpp, sx, br=False, un=False, tok=False, lit=False, vals=False, nr=True, nb=None, ops=(), chars="",
                 ret=False, noinl=False):
        s.cpp, s.sx, s.br, s.un, s.tok, s.lit, s.vals = cpp, sx, br, un, tok, lit, vals
        s.nr, s.nb = nr, nr if nb is None else nb
        s.ops, s.chars, s.ret, s.noinl = frozenset(ops), chars, ret, noinl


def mk(op, cpp, sx, kids=(), **kw):
    ops = {op}
    chars = kw.pop("chars", "")
    for k in kids:
        ops |= k.ops
        chars += k.chars
        top = k.sx[1:].split(" ", 1)[0].rstrip(")")
        ops.add(op + ">" + top)
    ret = kw.pop("ret", False) or any(k.ret for k in kids)
    return R(cpp, sx, ops=ops, chars=chars, ret=ret, **kw)


# ---- tokens
def lit(s):
    return mk("lit", f"LEXY_LIT({q(s)})", f"(lit {q(s)})", br=True, tok=True, lit=True, nr=False, chars=s)


def litcf(s):
    return mk("litcf", f"dsl::ascii::case_folding(LEXY_LIT({q(s)}))", f"(litcf {q(s)})", br=True, tok=True, nr=False,
              chars=s + s.upper())


def cc(c):
    cpp, err, ch = CLASSES[c]
    return mk("cc", cpp, f"(cc {c} {q(err)})", br=True, tok=True, nr=False, chars=ch)


def ccnot(c):
    cpp, err, ch = CLASSES[c]
    return mk("ccnot", f"(-{cpp})", f'(ccnot {c} "complement")', br=True, tok=True, nr=False, chars=ch)


def lset(ls):
    return mk("lset", "dsl::literal_set(" + ", ".join(f"LEXY_LIT({q(x)})" for x in ls) + ")",
              "(lset " + " ".join(map(q, ls)) + ")", br=True, tok=True, nr=False, chars="".join(ls))


def limset(ls):
    return "(lset" + "".join(" " + q(x) for x in ls) + ")"


def nl():
    return mk("nl", "dsl::newline", "(nl)", br=True, tok=True, nr=False, chars="\n\r")


def kw(s):
    return mk("kw", f"LEXY_KEYWORD({q(s)}, {IDENT})", f"(kw {q(s)})", br=True, tok=True, nr=False, chars=s + "1")


def nf(s, c):
    return mk("nf", f"dsl::not_followed_by(LEXY_LIT({q(s)}), {CLASSES[c][0]})", f"(nf {q(s)} {c})", br=True, tok=True,
              nr=False, chars=s + CLASSES[c][2])


def idpat():
    return mk("idpat", IDENT + ".pattern()", "(idpat)", br=True, tok=True, nr=False, chars="ab1")


def digits():
    return mk("digits", "dsl::digits<>", "(digits)", br=True, tok=True, nr=False, chars="019")


def digit1():
    return mk("digit1", "dsl::digit<>", "(digit1)", br=True, tok=True, nr=False, chars="05")


def any_():
    return mk("any", "dsl::any", "(any)", br=True, un=True, tok=True, nr=True)


def until(t):
    return mk("until", f"dsl::until({t.cpp})", f"(until {t.sx})", [t], br=True, tok=True, nr=False)


def untileof(t):
    return mk("untileof", f"dsl::until({t.cpp}).or_eof()", f"(untileof {t.sx})", [t], br=True, tok=True, un=True, nr=True)


def toke(t, tag):
    return mk("toke", f"({t.cpp}).error<gobs::{tag}>", f"(toke {tag} {t.sx})", [t], br=True, tok=True, nr=t.nr)


def tokk(t):
    return mk("tokk", f"({t.cpp}).kind<gobs::Kind::k>", f"(tokk {t.sx})", [t], br=True, tok=True, nr=False)


def tok(r):
    return mk("tok", f"dsl::token({r.cpp})", f"(tok {r.sx})", [r], br=True, tok=True, nr=r.nr)


# ---- simple rules
def cap(t):
    return mk("cap", f"dsl::capture({t.cpp})", f"(cap {t.sx})", [t], br=True, vals=True, nr=t.nr)


def pos():
    return mk("pos", "dsl::position", "(pos)", vals=True, nr=True)


def posr(r):
    return mk("posr", f"dsl::position({r.cpp})", f"(posr {r.sx})", [r], br=r.br, un=r.un, vals=True, nr=r.nr, nb=r.nb)


def ident(reserved):
    cpp = IDENT
    if reserved:
        cpp += ".reserve(" + ", ".join(f"LEXY_KEYWORD({q(x)}, {IDENT})" for x in reserved) + ")"
    return mk("ident", cpp, "(ident" + "".join(" " + q(x) for x in reserved) + ")", br=True, vals=True, nr=False,
              chars="abz" + "".join(reserved))


def int1():
    return mk("int1", "dsl::integer<int, dsl::decimal>(dsl::digit<>)", "(int1)", br=True, vals=True, nr=False, chars="08")


def seq(*rs):
    return mk("seq", "(" + " + ".join(r.cpp for r in rs) + ")", "(seq " + " ".join(r.sx for r in rs) + ")", rs,
              vals=any(r.vals for r in rs), nr=all(r.nr for r in rs))


def br(c, *rs):
    body = " + ".join(r.cpp for r in rs)
    return mk("br", f"({c.cpp} >> ({body}))", f"(br {c.sx} " + " ".join(r.sx for r in rs) + ")", (c,) + rs, br=True, un=c.un,
              vals=c.vals or any(r.vals for r in rs), nr=c.nr and all(r.nr for r in rs),
              nb=c.nb and all(r.nr for r in rs))


def else_(r):
    return mk("else", f"(dsl::else_ >> {r.cpp})", f"(br (else) {r.sx})", [r], br=True, un=True, vals=r.vals, nr=r.nr)


def choice(*rs):
    return mk("choice", "(" + " | ".join(r.cpp for r in rs) + ")", "(choice " + " ".join(r.sx for r in rs) + ")", rs,
              br=True, un=rs[-1].un, vals=any(r.vals for r in rs), nr=any(r.nb for r in rs))


def un(op, name, r, **kw):
    return mk(op, f"dsl::{name}({r.cpp})", f"({op} {r.sx})", [r], **kw)


def opt(r):
    return un("opt", "opt", r, vals=True)


def if_(r):
    return un("if", "if_", r, vals=r.vals)


def nullopt():
    return mk("nullopt", "dsl::nullopt", "(nullopt)", vals=True)


def loop(r):
    return un("loop", "loop", r)


def brk():
    return mk("break", "dsl::break_", "(break)", br=True, un=True)


def while_(r):
    return un("while", "while_", r)


def whileone(r):
    return un("whileone", "while_one", r, br=True, nr=r.nr, nb=r.nb)


def dowhile(r, c):
    return mk("dowhile", f"dsl::do_while({r.cpp}, {c.cpp})", f"(dowhile {r.sx} {c.sx})", [r, c], br=r.br and not r.un, nr=r.nr,
              nb=r.nb)


def sep(kind, r, tag=None):
    name = {"sep": "sep", "tsep": "trailing_sep", "isep": "ignore_trailing_sep"}[kind]
    cpp = f"dsl::{name}({r.cpp})"
    sx = f"(sepr {kind}"
    if tag:
        cpp += f".trailing_error<gobs::{tag}>"
        sx += " " + tag
    return mk(kind, cpp, sx + f" {r.sx})", [r], vals=r.vals, nr=r.nr)


def times(n, r, s=None):
    k = [r] + ([s] if s else [])
    return mk("times", f"dsl::times<{n}>({', '.join(x.cpp for x in k)})", f"(times {n} {' '.join(x.sx for x in k)})", k,
              vals=any(x.vals for x in k), nr=r.nr)


def twice(r):
    return mk("times", f"dsl::twice({r.cpp})", f"(times 2 {r.sx})", [r], vals=r.vals, nr=r.nr)


def repeat(kind, r, s=None):
    k = [r] + ([s] if s else [])
    m = {"discard": "", "list": ".list", "capture": ".capture"}[kind]
    return mk("repeat." + kind, f"dsl::repeat(dsl::integer<int, dsl::decimal>(dsl::digit<>)){m}({', '.join(x.cpp for x in k)})",
              f"(repeat {kind} {' '.join(x.sx for x in k)})", k, br=True, vals=kind != "discard", nr=False, chars="0123")


def brule(r):
    return "branch" if r.br else "rule"


def list_(r, s=None):
    k = [r] + ([s] if s else [])
    return mk("list", f"dsl::list({', '.join(x.cpp for x in k)})", f"(list {brule(r)} {' '.join(x.sx for x in k)})", k,
              br=r.br and not r.un, vals=True, nr=r.nr, nb=r.nb)


TK = {"call": "", "try": ".try_", "opt": ".opt", "list": ".list", "optlist": ".opt_list"}


def term(kind, r, t, lim, s=None):
    k = [r] + ([s] if s else [])
    l = ".limit(" + ", ".join(f"LEXY_LIT({q(x)})" for x in lim) + ")" if lim else ""
    return mk("term." + kind, f"dsl::terminator({t.cpp}){l}{TK[kind]}({', '.join(x.cpp for x in k)})",
              f"(term {kind} {brule(r)} {r.sx} {t.sx} {limset(lim)}" + (f" {s.sx}" if s else "") + ")", k + [t],
              br=r.br and not r.un and kind == "call",
              vals=t.vals or kind in ("list", "optlist", "opt") or any(x.vals for x in k), nr=t.nb, nb=t.nb, chars="".join(lim))


def brackets(kind, o, r, c, lim, s=None):
    k = [r] + ([s] if s else [])
    l = ".limit(" + ", ".join(f"LEXY_LIT({q(x)})" for x in lim) + ")" if lim else ""
    return mk("brackets." + kind, f"dsl::brackets({o.cpp}, {c.cpp}){l}{TK[kind]}({', '.join(x.cpp for x in k)})",
              f"(brackets {kind} {brule(r)} {o.sx} {r.sx} {c.sx} {limset(lim)}" + (f" {s.sx}" if s else "") + ")",
              k + [o, c], br=True, vals=kind in ("list", "optlist", "opt") or any(x.vals for x in k), nr=False, nb=False,
              chars="".join(lim))


def try_(r, rec=None):
    k = [r] + ([rec] if rec else [])
    kind = "none" if not rec else rec.sx[1:].split(" ", 1)[0]
    if kind not in ("none", "find", "recover"):
        kind = "rule"
    return mk("try." + kind, f"dsl::try_({', '.join(x.cpp for x in k)})", f"(try {kind} {' '.join(x.sx for x in k)})", k,
              br=r.br and not r.un, vals=any(x.vals for x in k), nr=True, nb=r.nb if r.br else True)


def limtxt(lim):
    return ".limit(" + ", ".join(f"LEXY_LIT({q(x)})" for x in lim) + ")" if lim else ""


def find(ls, lim):
    return mk("find", "dsl::find(" + ", ".join(f"LEXY_LIT({q(x)})" for x in ls) + ")" + limtxt(lim),
              f"(find {limset(ls)} {limset(lim)})", chars="".join(ls + lim))


def recover(rs, lim):
    return mk("recover", "dsl::recover(" + ", ".join(r.cpp for r in rs) + ")" + limtxt(lim),
              f"(recover {limset(lim)} {' '.join(r.sx for r in rs)})", rs, vals=any(r.vals for r in rs), chars="".join(lim))


def comb(partial, rs, dup, miss):
    cpp = f"dsl::{'partial_' if partial else ''}combination(" + ", ".join(r.cpp for r in rs) + ")"
    if miss and not partial:
        cpp += f".missing_error<gobs::{miss}>"
    if dup:
        cpp += f".duplicate_error<gobs::{dup}>"
    return mk("pcomb" if partial else "comb", cpp,
              f"({'pcomb' if partial else 'comb'} {q(dup or 'combination duplicate')} {(miss if not partial else None) or '-'} "
              + " ".join(r.sx for r in rs) + ")", rs, vals=True, nr=True if partial else all(r.nb for r in rs))


def flag(r):
    return un("flag", "flag", r, vals=True)


def peek(r, tag=None):
    t = f".error<gobs::{tag}>" if tag else ""
    return mk("peek", f"dsl::peek({r.cpp}){t}", f"(peek {tag or ''} {r.sx})", [r], br=True, nr=True)


def peeknot(r, tag=None):
    t = f".error<gobs::{tag}>" if tag else ""
    return mk("peeknot", f"dsl::peek_not({r.cpp}){t}", f"(peeknot {tag or ''} {r.sx})", [r], br=True, nr=True)


def look(a, b, tag=None):
    t = f".error<gobs::{tag}>" if tag else ""
    return mk("look", f"dsl::lookahead({a.cpp}, {b.cpp}){t}", f"(look {tag or ''} {a.sx} {b.sx})", [a, b], br=True, nr=True)


def error(tag, r=None):
    return mk("error", f"dsl::error<gobs::{tag}>" + (f"({r.cpp})" if r else ""), f"(error {tag}" + (f" {r.sx}" if r else "") + ")",
              [r] if r else [], br=True, un=True, nr=False)


def must(b, tag, r=None):
    return mk("must", f"dsl::must({b.cpp}).error<gobs::{tag}>" + (f"({r.cpp})" if r else ""),
              f"(must {b.sx} {error(tag, r).sx})", [b], br=True, vals=b.vals, nr=b.nb, nb=b.nb)


def eof():
    return mk("eof", "dsl::eof", "(eof)", br=True, nr=True)


def eol():
    return mk("eol", "dsl::eol", "(eol)", br=True, nr=True, chars="\n")


def nows(r):
    return mk("nows", f"dsl::no_whitespace({r.cpp})", f"(nows {r.sx})", [r], br=r.br and not r.un, vals=r.vals, nr=r.nr, nb=r.nb)


def wsr(r):
    return mk("wsr", f"dsl::whitespace({r.cpp})", f"(wsr {r.sx})", [r], nr=True)


def pas(r):
    if "pas" in r.ops:
        return posr(r)
    return mk("pas", f"dsl::parse_as<gobs::As>({r.cpp})", f"(pas {r.sx})", [r], br=r.br and not r.un, vals=True, nr=r.nr, nb=r.nb)


def eff(n):
    return mk("eff", f"dsl::effect<gobs::eff<{n}>>", f"(eff {n})", vals=True)


# ---- context
def ctx(cpp, sx, op, **kw):
    return mk(op, cpp, sx, **kw)


class Prod:
    def __init__(s, name, rule, ws=None, token=False, transparent=False, void=False, depth=0, local=False):
        s.name, s.rule, s.ws, s.token, s.transparent, s.void, s.depth = name, rule, ws, token, transparent, void, depth
        s.sub = s.subused = False
        s.scan = None  # (rule before dsl::scan or None, C++ statements driving the scanner as the rule says)

    def ref(s):
        r = s.rule
        return mk("p", f"dsl::p<{s.name}>", f"(p {s.name})", [r], br=r.br and not s.ws and not r.un, vals=not s.void, nr=r.nr,
                  nb=r.nb)

    def nref(s):
        """A reference where a branch is not needed: some productions are used as a subgrammar there."""
        if not s.sub:
            return s.ref()
        s.subused = True
        r = s.rule
        return mk("subgrammar", f"dsl::subgrammar<{s.name}, {'void' if s.void else 'gobs::Str'}>", f"(p {s.name})", [r], vals=not s.void, nr=r.nr, nb=r.nb)


class Grammar:
    def __init__(s):
        s.prods = []  # in definition order (root last)
        s.tables = []

    def ops(s):
        r = set()
        for p in s.prods:
            r |= p.rule.ops
            if p.ws:
                r |= {"ws"} | {"ws:" + o for o in p.ws.ops}
            for a in ("token", "transparent", "void"):
                if getattr(p, a):
                    r.add("prod:" + a)
            if p is not s.prods[-1] and p.ws:
                r.add("prod:localws")
        return r

    def alphabet(s):
        chars = "".join(p.rule.chars + (p.ws.chars if p.ws else "") for p in s.prods)
        base = sorted(set(chars))
        return "".join(base) + "z9 #"

    def model(s):
        out = "(g " + q(s.alphabet())
        for p in reversed(s.prods):
            out += f" (prod {p.name}" + (" token" if p.token else "") + (" transparent" if p.transparent else "") + \
                (" void" if p.void else "") + (f" depth={p.depth}" if p.depth else "") + f" {p.rule.sx}" + \
                (f" {p.ws.sx}" if p.ws else "") + ")"
        return out + ")"

    def cpp(s, ns):
        out = f"namespace {ns} {{\n"
        for p in s.prods:
            out += f"struct {p.name};\n"
        subs = [p for p in s.prods if p.subused]
        if subs:
            out += "}\n" + "".join(f"LEXY_DECLARE_SUBGRAMMAR({ns}::{p.name})\n" for p in subs) + f"namespace {ns} {{\n"
        for t in s.tables:
            out += t + "\n"
        for p in s.prods:
            base = [b for b, c in (("lexy::token_production", p.token), ("lexy::transparent_production", p.transparent)) if c]
            out += f"struct {p.name}" + (" : " + ", ".join(base) if base else "") + " {\n"
            out += f"  static constexpr auto name = \"{p.name}\";\n"
            if p.depth:
                out += f"  static constexpr auto max_recursion_depth = {p.depth};\n"
            if p.ws:
                out += f"  static constexpr auto whitespace = {p.ws.cpp};\n"
            if p.scan:
                pre, code = p.scan
                out += "  static constexpr auto rule = " + (f"{pre.cpp} {'>>' if pre.br else '+'} " if pre else "") + "dsl::scan;\n"
                out += "  using scan_result = lexy::scan_result<std::string>;\n"
                sinks = re.search(r"\((list|p?comb|repeat (list|capture)|(term|brackets) (list|optlist)) ", p.rule.sx)
                out += f"  static constexpr bool sinks = {'true' if sinks else 'false'};\n"
                out += "  template <class S> static void prefix(S& s, g19::V& v) {" + \
                    ("" if not pre else f" g19::{'one' if pre.vals else 'none'}(s, v, {pre.cpp});") + " }\n"
                out += "  template <class S> static void program(S& s, g19::V& v) {\n" + code + "  }\n"
                out += "  template <class S, class... A> static scan_result scan(S& s, A&&... a) { return g19::run<" + p.name + \
                    ">(s, a...); }\n"
            else:
                out += f"  static constexpr auto rule = {p.rule.cpp};\n"
            out += "  static constexpr auto value = " + ("lexy::noop" if p.void else f"gobs::Val{{\"{p.name}\"}}") + ";\n};\n"
        return out + "}\n" + "".join(f"LEXY_DEFINE_SUBGRAMMAR({ns}::{p.name})\n" for p in subs)


class Gen:
    def __init__(s, rng, profile):
        s.r, s.w = rng, profile
        s.g = Grammar()
        s.refs = []
        s.rec = None
        s.ntab = 0
        s.ctx = []       # available context variables: (kind, id)
        s.infix = rng.sample(LITS, 12)

    def L(s):
        return s.r.choice(s.infix)

    def Ls(s, a=1, b=3):
        return s.r.sample(s.infix, s.r.randint(a, b))

    def pick(s, opts):
        opts = [(w * s.w.get(n, 1.0), f) for n, w, f in opts if w * s.w.get(n, 1.0) > 0]
        t = s.r.random() * sum(w for w, _ in opts)
        for w, f in opts:
            t -= w
            if t <= 0:
                return f()
        return opts[-1][1]()

    # a token that consumes at least one character and is a proper branch
    def token(s, depth=1):
        C = list(CLASSES)
        o = [("lit", 6, lambda: lit(s.L())), ("litcf", 1, lambda: litcf(s.r.choice(["ab", "abc", "let", "x", "abcdefgh"]))),
             ("cc", 2, lambda: cc(s.r.choice(C))), ("ccnot", .5, lambda: ccnot(s.r.choice(C))),
             ("lset", 1.5, lambda: lset(s.Ls(2, 4))), ("nl", .4, nl), ("kw", 1, lambda: kw(s.r.choice(["if", "let", "ab", "x"]))),
             ("nf", .6, lambda: nf(s.L(), s.r.choice(C))), ("idpat", .8, idpat), ("digits", 1, digits), ("digit1", .6, digit1)]
        if depth > 0:
            o += [("until", .7, lambda: until(s.token(0))), ("toke", .8, lambda: toke(s.token(0), s.r.choice(TAGS))),
                  ("tokk", .4, lambda: tokk(s.token(0))), ("tok", .9, lambda: tok(s.tokrule()))]
        return s.pick(o)

    def tokrule(s):
        """Body of token(): no values, no productions, consuming."""
        a, b = s.token(0), s.token(0)
        k = s.r.randint(0, 6)
        if k == 0:
            return seq(a, b)
        if k == 1:
            return seq(a, if_(br(b, s.token(0))))
        if k == 2:
            return whileone(a)
        if k == 3:
            return seq(a, while_(b))
        if k == 4:
            return choice(br(a, b), s.token(0))
        if k == 5:
            return seq(a, peeknot(b))
        return seq(dowhile(a, b))

    def sepr(s, vals=True, ignore=True):
        r = s.token(0)
        if vals and s.r.random() < .25:
            r = cap(r)
        elif s.r.random() < .15:
            r = br(r, if_(s.token(0)))
        kind = s.r.choice(["sep", "sep", "tsep"] + (["isep"] if ignore else []))
        return sep(kind, r, s.r.choice(TAGS) if kind == "sep" and s.r.random() < .4 else None)

    # ---- rules
    def branch(s, d, vals=True, consume=True):
        """A branch rule that consumes when taken as branch."""
        o = [("token", 3, s.token)]
        if vals:
            o += [("cap", 2, lambda: cap(s.token())), ("ident", 1, lambda: ident(s.r.sample(["if", "let", "x"], s.r.randint(0, 2)))),
                  ("int1", .5, int1)]
        if d > 0:
            o += [("br", 3, lambda: br(s.branch(0, vals), *s.body(d - 1, vals))),
                  ("brn", .8, lambda: br(s.guard(), *([s.rule(d - 1, vals, True)] + s.body(d - 2, vals)))),
                  ("whileone", .6, lambda: whileone(s.branch(d - 1, False))),
                  ("must", .5, lambda: must(s.branch(d - 1, vals), s.r.choice(TAGS), s.token(0) if s.r.random() < .3 else None)),
                  ("try", 1, lambda: s.tryr(d, vals, True)),
                  ("dowhile", .4, lambda: dowhile(s.branch(d - 1, False), s.branch(0, False)))]
            o += [("brackets", 1.5, lambda: s.brk(d, vals)),
                  ("termcall", .4, lambda: term("call", s.branch(d - 1, vals), s.token(0), []))]
            if vals:
                o += [("posr", .5, lambda: posr(s.branch(d - 1))), ("list", 1, lambda: s.list(d, True)),
                      ("pas", .5, lambda: pas(s.branch(d - 1))),
                      ("repeat", .7, lambda: s.rep(d))]
            else:
                o += [("repeatd", .4, lambda: s.rep(d, "discard"))]
            o += [("choice", 1, lambda: choice(*[s.branch(d - 1, vals) for _ in range(s.r.randint(2, 3))]))]
            rs = [p for p in s.refs if p.ref().br and not p.ref().nb and (vals or p.void)]
            if rs:
                o += [("p", 3, lambda: s.r.choice(rs).ref())]
                if vals:
                    ts = [p for p in rs if p.token and not p.void]
                    if ts:
                        o += [("capp", 1, lambda: s.capp(s.r.choice(ts)))]
                il = [p for p in rs if not p.rule.ret and not p.rule.noinl and not p.token and (vals or not p.rule.vals)]
                if il:
                    o += [("inline", .5, lambda: s.inline(s.r.choice(il)))]
            if s.rec and vals:
                o += [("rec", 2, lambda: br(lit(s.L()), s.recr()))]
            if s.ctx:
                o += [("ctx", 3, lambda: s.ctxb(d, vals))]
            o += [("nows", .6 if s.w.get("_ws") else .1, lambda: nows(s.flat(vals)))]
        return s.pick(o)

    def capp(s, p):
        r = p.ref()
        return mk("capp", f"dsl::capture({r.cpp})", f"(capp {r.sx})", [r], br=True, vals=True, nr=r.nr, nb=r.nb)

    def inline(s, p):
        r = p.rule
        return mk("inline", f"dsl::inline_<{p.name}>", f"(inline {p.name})", [r], br=r.br, vals=r.vals, nr=r.nr, nb=r.nb)

    def recr(s):
        tag = ""
        k = s.r.random()
        if k < .5:
            return mk("rec", f"dsl::recurse<{s.rec}>", f"(rec {s.rec})", vals=True, nr=True, noinl=True)
        if k < .8:
            return mk("recb", f"dsl::recurse_branch<{s.rec}>", f"(recb {s.rec})", br=True, vals=True, nr=True, noinl=True)
        return opt(mk("recb", f"dsl::recurse_branch<{s.rec}>", f"(recb {s.rec})", br=True, vals=True, nr=True, noinl=True))

    def flat(s, vals):
        """Simple consuming branch without productions/whitespace control."""
        t = lambda: cap(s.token()) if vals and s.r.random() < .6 else s.token()
        k = s.r.randint(0, 5)
        if k == 0:
            return t()
        if k == 1:
            return br(t(), t())
        if k == 2 and vals:
            return list_(t(), sep("sep", s.token(0)))
        if k == 3:
            return br(t(), if_(br(s.token(0), t())))
        if k == 4:
            return whileone(s.token(0))
        return br(t(), while_(s.token(0)), t())

    def guard(s):
        k = s.r.randint(0, 3)
        tag = None
        if k == 0:
            return peek(s.token())
        if k == 1:
            return peeknot(s.token())
        if k == 2:
            return look(lset(s.Ls(1, 2)) if s.r.random() < .5 else lit(s.L()), lset(s.Ls(1, 2)))
        return peek(s.tokrule())

    def body(s, d, vals):
        n = s.r.choice([1, 1, 2])
        return [s.rule(max(d, 0), vals) for _ in range(n)]

    def tryr(s, d, vals, branch=False):
        r = s.branch(d - 1, vals) if branch else s.rule(d - 1, vals)
        if r.un:
            r = s.branch(0, vals)
        k = s.r.random()
        if k < .15:
            return try_(r)
        if k < .55:
            return try_(r, find(s.Ls(1, 2), s.Ls(0, 1)))
        if k < .8:
            return try_(r, recover([s.branch(0, vals) for _ in range(s.r.randint(1, 2))], s.Ls(0, 1)))
        rec = s.rule(0, vals)
        return try_(r, rec)

    def term_tok(s):
        t = s.token(0)
        k = s.r.random()
        if k < .15:
            return br(t, s.token(0))
        if k < .25:
            return eof()
        return t

    def brk(s, d, vals):
        o, c = s.r.choice([("(", ")"), ("[", "]"), ("{", "}"), ("<", ">"), ("begin", "end"), ("a", "b")])
        o, c = lit(o), lit(c)
        if s.r.random() < .2 and vals:
            c = cap(c)
        return s.terms(d, vals, lambda k, r, lim, sp: brackets(k, o, r, c, lim, sp))

    def terms(s, d, vals, f):
        kinds = ["call", "try", "try"] + (["opt", "list", "optlist", "list"] if vals else [])
        k = s.r.choice(kinds)
        lim = s.Ls(1, 1) if s.r.random() < .4 else []
        if k in ("list", "optlist"):
            sp = s.sepr() if s.r.random() < .7 else None
            br_ = s.r.random() < .7
            it = s.branch(d - 1, vals) if br_ else s.rule(d - 1, vals, consume=True)
            if s.w.get("_items") and s.r.random() < s.w["_items"]:
                # alternatives that are productions
                rs = [p for p in s.refs if p.ref().br and not p.ref().nb and (vals or p.void)]
                if rs:
                    alts = [p.ref() for p in s.r.sample(rs, min(len(rs), s.r.randint(1, 3)))]
                    if s.r.random() < .5:
                        alts.insert(s.r.randint(0, len(alts)), s.branch(d - 1, vals))
                    it = choice(*alts) if len(alts) > 1 else alts[0]
            if it.un or it.nb or it.nr:
                it = s.branch(0, vals)
            return f(k, it, lim, sp)
        if k == "call":
            lim = []
        return f(k, s.rule(d - 1, vals), lim, None)

    def list(s, d, branch=False):
        sp = s.sepr(ignore=False) if s.r.random() < .7 else None
        if branch or s.r.random() < .5 or not sp:
            it = s.branch(d - 1)
        else:
            it = s.rule(d - 1, True, consume=True)
        if it.un or (not sp and it.nb) or (sp and not it.br and "tsep" in sp.ops):
            it = s.branch(0)
        # without separator, the first item is parsed as rule
        return list_(it, sp)

    def rep(s, d, kind=None):
        kind = kind or s.r.choice(["discard", "list", "capture"])
        v = kind == "list"
        it = s.branch(d - 1, v) if s.r.random() < .6 else s.rule(d - 1, v)
        return repeat(kind, it, s.sepr(v) if s.r.random() < .5 else None)

    def flags(s):
        names = s.r.sample(["a", "ab", "abc", "x", "if", "let", "+", "=="], s.r.randint(2, 4))
        vals = [s.r.choice([1, 2, 4, 8]) for _ in names]
        t = f"flags{s.ntab}"
        s.ntab += 1
        s.g.tables.append(f"constexpr auto {t} = lexy::symbol_table<gobs::Flag>" +
                          "".join(f".map<LEXY_SYMBOL({q(n)})>(gobs::Flag({v}))" for n, v in zip(names, vals)) + ";")
        return mk("flags", f"dsl::flags(dsl::symbol<{t}>)", "(flags " + " ".join(f"{q(n)} {v}" for n, v in zip(names, vals)) + ")",
                  vals=True, chars="".join(names))

    def loopr(s, d):
        alts = [s.branch(d - 1, False) for _ in range(s.r.randint(1, 2))]
        if s.r.random() < .3:
            alts.append(br(s.token(0), brk()))
        last = brk() if s.r.random() < .7 else error(s.r.choice(TAGS))
        if last.sx == "(break)":
            return loop(choice(*alts, last))
        alts.insert(0, br(lit(s.L()), brk()))
        return loop(choice(*alts, last))

    def ceq(s, cs):
        ids = s.r.sample(cs, s.r.randint(2, len(cs)))
        return ctx("dsl::equal_counts(" + ", ".join(f"dsl::context_counter<gobs::{a}>" for a in ids) + ")",
                   "(ceq " + " ".join(ids) + ")", "ceq%d" % len(ids), br=True, nr=True)

    def ctxb(s, d, vals):
        kind, i = s.r.choice(s.ctx)
        if kind == "counter":
            cs = [x for kk, x in s.ctx if kk == "counter"]
            if len(cs) > 1 and s.r.random() < .25:
                return br(s.ceq(cs), s.rule(max(d - 1, 0), vals, True))
            n = s.r.choice([0, 1, 2, -1])
            f = f"dsl::context_counter<gobs::{i}>"
            k = s.r.randint(0, 2)
            c = ctx(f"{f}.is<{n}>()", f"(cis {i} {n})", "cis", br=True, nr=True) if n or k else \
                ctx(f"{f}.is_zero()", f"(cis {i} 0)", "cis0", br=True, nr=True)
            return br(c, s.rule(max(d - 1, 0), vals, True))
        if kind == "flag":
            n = s.r.randint(0, 1)
            c = ctx(f"dsl::context_flag<gobs::{i}>.is_{'set' if n else 'reset'}()", f"(cis {i} {n})", "fis", br=True, nr=True)
            return br(c, s.rule(max(d - 1, 0), vals, True))
        f = f"dsl::context_identifier<gobs::{i}>({IDENT})"
        if vals and s.r.random() < .5:
            return ctx(f"{f}.capture()", f"(icap {i})", "icap", br=True, vals=True, nr=False, chars="abc")
        return ctx(f"{f}.rematch()", f"(irem {i})", "irem", br=True, vals=False, nr=False, chars="abc")

    def ctxr(s, d, vals):
        kind, i = s.r.choice(s.ctx)
        if kind == "counter":
            f = f"dsl::context_counter<gobs::{i}>"
            k = s.r.randint(0, 5)
            if k <= 1:
                dl = s.r.choice([1, -1])
                return ctx(f"{f}.{'inc' if dl > 0 else 'dec'}()", f"(cadd {i} {dl})", "cadd")
            if k == 2 and vals:
                return ctx(f"{f}.value()", f"(cval {i})", "cval", vals=True)
            if k == 3 and not s.w.get("_ws"):
                w = s.r.choice(["push", "pop"])
                r = s.branch(0, False)
                return mk(w, f"{f}.{w}({r.cpp})", f"({w} {i} {r.sx})", [r], br=False, nr=r.nr)
            cs = [x for kk, x in s.ctx if kk == "counter"]
            if k == 4 and len(cs) > 1:
                return s.ceq(cs)
            return seq(ctx(f"{f}.inc()", f"(cadd {i} 1)", "cadd"), s.branch(0, vals))
        if kind == "flag":
            f = f"dsl::context_flag<gobs::{i}>"
            k = s.r.randint(0, 3)
            if k == 0:
                return ctx(f"{f}.set()", f"(fset {i} 1)", "fset")
            if k == 1:
                return ctx(f"{f}.reset()", f"(fset {i} 0)", "fset")
            if k == 2 and vals:
                return ctx(f"{f}.value()", f"(fval {i})", "fval", vals=True)
            return ctx(f"{f}.toggle()", f"(ftog {i})", "ftog")
        return s.ctxb(d, vals)

    def rule(s, d, vals=True, consume=False):
        for _ in range(30):
            r = s._rule(d, vals)
            if r.un and not consume:
                pass
            if consume and (r.nr or r.nb):
                continue
            return r
        return s.token(0)

    def _rule(s, d, vals):
        o = [("token", 2, s.token), ("anyt", .06, any_), ("untileof", .1, lambda: untileof(s.token(0))),
             ("eof", .12, eof), ("eol", .3, eol), ("peek", .25, lambda: peek(s.token(), s.r.choice([None] + TAGS))),
             ("peeknot", .4, lambda: peeknot(s.token(), s.r.choice([None] + TAGS))),
             ("look", .2, lambda: look(lit(s.L()), lset(s.Ls(1, 2)), s.r.choice([None] + TAGS))),
             ("error", .03, lambda: error(s.r.choice(TAGS), s.token(0) if s.r.random() < .5 else None))]
        if vals:
            o += [("pos", .6, pos), ("nullopt", .2, nullopt), ("eff", .3, lambda: eff(s.r.randint(0, 3))),
                  ("capany", .04, lambda: cap(any_()))]
        if s.ctx:
            o += [("ctx", 4, lambda: s.ctxr(d, vals))]
        if d > 0:
            o += [("branch", 5, lambda: s.branch(d, vals)), ("seq", 2.5, lambda: seq(*[s.rule(d - 1, vals) for _ in range(s.r.randint(2, 3))])),
                  ("if", 1.2, lambda: if_(s.branch(d - 1, vals))), ("while", 1, lambda: while_(s.branch(d - 1, False))),
                  ("loop", .7, lambda: s.loopr(d)),
                  ("choiceelse", 1, lambda: choice(*([s.branch(d - 1, vals) for _ in range(s.r.randint(1, 2))] + [else_(s.rule(d - 1, vals))]))),
                  ("choiceg", .5, lambda: choice(br(s.guard(), s.rule(d - 1, vals)), s.branch(d - 1, vals))),
                  ("tryr", 1, lambda: s.tryr(d, vals)),
                  ("termr", 1.2, lambda: s.terms(d, vals, lambda k, r, lim, sp: term(k, r, s.term_tok_c(k), lim, sp))),
                  ("times", .5, lambda: s.timesr(d, vals)),
                  ("wsr", .2 if not s.w.get("_ws") else .5, lambda: wsr(s.wsrule()))]
            if vals:
                o += [("opt", 1.5, lambda: opt(s.branch(d - 1))), ("listr", 1, lambda: s.list(d)), ("flag", .4, lambda: flag(s.branch(d - 1))),
                      ("flags", .5, s.flags), ("pasr", .4, lambda: pas(s.rule(d - 1))),
                      ("comb", .8, lambda: comb(s.r.random() < .4, [s.branch(d - 1) for _ in range(s.r.randint(2, 3))],
                                                s.r.choice([None] + TAGS), s.r.choice([None] + TAGS)))]
            rs = [p for p in s.refs if vals or p.void]
            if rs:
                o += [("pr", 3, lambda: s.r.choice(rs).nref())]
            if s.rec and vals:
                o += [("recr", 1, lambda: seq(lit(s.L()), s.recr(), lit(s.L())))]
        return s.pick(o)

    def term_tok_c(s, kind):
        t = s.term_tok()
        if kind == "call" and t.sx == "(eof)":
            return s.token(0)
        return t

    def timesr(s, d, vals):
        n = s.r.choice([2, 2, 3])
        if s.r.random() < .3:
            return twice(s.rule(d - 1, vals))
        return times(n, s.rule(d - 1, vals), s.sepr(False) if s.r.random() < .5 else None)

    def wsrule(s):
        k = s.r.randint(0, 6)
        if k <= 1:
            return cc(s.r.choice(["space", "blank"]))
        if k == 2:
            return choice(cc("space"), br(lit("#"), until(nl())))
        if k == 3:
            return choice(cc("blank"), br(lit("/*"), until(lit("*/"))))
        if k == 4:
            return choice(cc("space"), br(lit("#"), lit("!")), lit("//"))
        if k == 5:
            return choice(cc("blank"), lit("_"), nl())
        return tok(seq(lit("_"), while_(cc("blank"))))

    # ---- scanner programs: the same behaviour as a rule (for the model) and as statements
    def nopas(s, f):
        for _ in range(40):
            r = f()
            if "pas" not in r.ops and not r.ret:
                return r
        return cap(s.token(0))

    def step(s, d, vals):
        def none():
            r = s.rule(d, False)
            return r, f"g19::none(s, v, {r.cpp});"

        def one():
            r = s.nopas(lambda: s.rule(d, True))
            return pas(r), s.r.choice(["g19::one(s, v, %s);", "g19::one2(s, v, %s);"]) % r.cpp

        def opts():
            b = s.nopas(lambda: s.branch(d, True))
            return opt(pas(b)), f"g19::maybe(s, v, {b.cpp});"

        def iff():
            b = s.branch(d, False)
            a, ac = s.steps(d - 1, vals, 1)
            e, ec = s.steps(d - 1, vals, 1)
            r = choice(br(b, *a), else_(e[0] if len(e) == 1 else seq(*e)))
            return r, f"if (g19::branch(s, {b.cpp})) {{\n{ac}}} else {{\n{ec}}}"

        def wh():
            b = s.branch(d, False)
            a, ac = s.steps(d - 1, False, 1)
            return while_(br(b, *a)), f"while (g19::branch(s, {b.cpp})) {{\n{ac}}}"

        def pk():
            b = s.token() if s.r.random() < .6 else s.tokrule()
            a, ac = s.steps(d - 1, vals, 1)
            e, ec = s.steps(d - 1, vals, 1)
            r = choice(br(peek(b), *a), else_(e[0] if len(e) == 1 else seq(*e)))
            return r, f"if (g19::peek(s, {b.cpp})) {{\n{ac}}} else {{\n{ec}}}"

        def capt():
            t = s.token()
            return cap(t), f"g19::capture(s, v, {t.cpp});"

        def integer():
            return int1(), "g19::integer(s, v);"

        def err():
            tag = s.r.choice(TAGS)
            return try_(error(tag)), f"g19::error(s, gobs::{tag}{{}});"

        def fatal():
            tag = s.r.choice(TAGS)
            t = s.token(0)
            return if_(br(t, error(tag))), f"if (g19::branch(s, {t.cpp})) g19::fatal(s, gobs::{tag}{{}});"

        def recov():
            v = vals and s.r.random() < .5
            r = s.nopas(lambda: s.rule(d, True)) if v else s.rule(d, False)
            if r.un:
                r = s.branch(0, v)
            call = f"g19::{'one' if v else 'none'}(s, v, {r.cpp});"
            rr = pas(r) if v else r
            t = s.Ls(1, 2)
            lim = s.Ls(0, 1)
            if s.r.random() < .5:
                rec, code = find(t, lim), "g19::find(s, %s, %s);" % (lset(t).cpp, lset(lim).cpp if lim else "g19::nothing{}")
            else:
                rec, code = recover([lset(t)], lim), "g19::recover(s, %s, %s);" % (lset(t).cpp, lset(lim).cpp if lim else "g19::nothing{}")
            return try_(rr, rec), f"if (s) {{ {call} if (!s) {code} }}"
        o = [("s.none", 2, none), ("s.if", 1.5, iff), ("s.peek", 1, pk), ("s.err", .4, err), ("s.fatal", .5, fatal), ("s.rec", 2, recov),
             ("s.while", 1, wh)] if d > 0 else [("s.none", 2, none), ("s.err", .2, err)]
        if vals:
            o += [("s.one", 3, one), ("s.opt", 2, opts), ("s.cap", 1, capt), ("s.int", .6, integer)]
            ps = [p for p in s.refs if not p.void]
            if ps:
                def prod():
                    p = s.r.choice(ps)
                    return p.ref(), s.r.choice(["g19::prod<%s>(s, v);", "g19::prod2<%s>(s, v);"]) % p.name

                def prodb():
                    p = s.r.choice([p for p in ps if p.ref().br])
                    return opt(p.ref()), f"g19::maybe_prod<{p.name}>(s, v);"
                o += [("s.prod", 3, prod)]
                if any(p.ref().br for p in ps):
                    o += [("s.prodb", 2, prodb)]
            if True:
                ts = [p for p in s.refs if p.token and p.void and p.ref().br]
                if ts:
                    def capp():
                        p = s.r.choice(ts)
                        return s.capp(p), f"g19::capture(s, v, dsl::p<{p.name}>);"
                    o += [("s.capp", 2, capp)]
            if s.rec:
                def rec():
                    t = lit(s.L())
                    return if_(br(t, mk("rec", f"dsl::recurse<{s.rec}>", f"(rec {s.rec})", vals=True, nr=True, noinl=True))), \
                        f"if (g19::branch(s, {t.cpp})) g19::prodr<{s.rec}>(s, v);"
                o += [("s.recurse", 2, rec)]
        return s.pick(o)

    def steps(s, d, vals, n):
        rs, code = [], ""
        for _ in range(n + s.r.randint(0, 1)):
            r, c = s.step(max(d, 0), vals)
            rs.append(r)
            code += "    " + c + "\n"
        return rs, code

    def program(s, d, branch=False):
        """(rule, scan) of a production that is parsed manually"""
        pre = None
        x = s.r.random()
        if x < .25:
            pre = s.token()
        elif x < .5 or branch:
            pre = pas(s.nopas(lambda: s.branch(0, True)))
        rs, code = s.steps(d, True, s.r.randint(2, 4))
        if not pre:
            r = seq(*rs) if len(rs) > 1 else rs[0]
            if r.br:
                return s.program(d, branch)
            return r, (None, code)
        return br(pre, *rs), (pre, code)

    def grammar(s):
        R_ = s.r
        ws = R_.random() < s.w.get("_wsprob", .4)
        if ws:
            s.w = dict(s.w, _ws=1)
        recursive = R_.random() < s.w.get("_recprob", .3)
        usectx = R_.random() < s.w.get("_ctxprob", .2)
        n = R_.randint(2, 4)
        if recursive:
            s.rec = "PR"
        ids = []
        if usectx:
            ids = R_.sample([("counter", "c0"), ("counter", "c1"), ("counter", "c2"), ("flag", "f0"), ("ident", "i0")], R_.randint(1, 4))

        def creates(ids):
            create = []
            for kind, i in ids:
                if kind == "counter":
                    v = R_.choice([0, 0, 1, 2, -1])
                    create.append(ctx(f"dsl::context_counter<gobs::{i}>.create<{v}>()", f"(cnew {i} {v})", "cnew"))
                elif kind == "flag":
                    v = R_.randint(0, 1)
                    create.append(ctx(f"dsl::context_flag<gobs::{i}>.create<{'true' if v else 'false'}>()", f"(fnew {i} {v})", "fnew"))
                else:
                    create.append(ctx(f"dsl::context_identifier<gobs::{i}>({IDENT}).create()", f"(inew {i})", "inew"))
            return create
        create = creates(ids)
        s.ctx = ids
        for k in range(n, -1, -1):
            d = R_.choice([1, 2, 2]) if k else R_.choice([2, 2, 3])
            token = transparent = void = False
            lws = None
            if k:
                x = R_.random()
                if x < .2 * s.w.get("_tokprob", 1):
                    token = True
                    void = bool(s.w.get("_scan")) and R_.random() < .5
                elif x < .35:
                    transparent = True
                elif x < .42:
                    void = True
                elif x < .42 + .15 * s.w.get("_lwsprob", 1) and ws:
                    lws = s.wsrule()
            x = R_.random()
            hasctx = s.ctx
            prog = None
            if s.w.get("_scan") and not token and not void and (k == 0 or R_.random() < .4):
                rule, prog = s.program(d, k == 0 and recursive)
                if R_.random() < .3 and k == 0 and not recursive:
                    rule = seq(rule, eof())
                    prog = (prog[0], prog[1] + "    g19::none(s, v, dsl::eof);\n")
            elif k == 0:
                parts = [s.rule(d) for _ in range(R_.randint(1, 2))]
                if R_.random() < .15:
                    parts.append(if_(br(s.token(0), pos(), mk("return", "dsl::return_", "(return)", ret=True))))
                    parts.append(s.rule(1))
                for p in s.refs:
                    if not any(f"(p {p.name})" in r.sx for r in parts) and R_.random() < .7:
                        parts.append(p.nref())
                rule = parts[0] if len(parts) == 1 else seq(*parts)
                if rule.un:
                    rule = seq(lit(s.L()), rule)
                if create:
                    rule = seq(*create, rule)
                if recursive:
                    rule = br(lit(s.L()), rule)
                if R_.random() < .4:
                    rule = seq(rule, eof()) if not recursive else br(rule, if_(lit(s.L())))
            elif x < .5:
                rule = s.branch(d)
            else:
                rule = s.rule(d)
                if R_.random() < .1:
                    rule = seq(rule, if_(br(s.token(0), mk("return", "dsl::return_", "(return)", ret=True))), s.token(0))
            if k and usectx and R_.random() < .5:
                # variables of its own, which hide those of the parents
                local = creates(R_.sample(ids, R_.randint(1, len(ids))))
                if rule.un or R_.random() < .6:
                    rule = br(s.token(0), *local, rule)
                else:
                    rule = seq(*local, rule)
                rule.noinl = True  # the scope would be the enclosing rule's
            if rule.un:
                rule = br(lit(s.L()), rule)
                assert not prog
            rule.noinl = rule.noinl or bool(prog)
            wsr_ = s.wsrule() if ws else None
            if k == 0 and recursive:
                pr = Prod("PR", rule)
                pr.scan, prog = prog, None
                s.g.prods.append(pr)
                rule = pr.ref() if R_.random() < .5 else seq(pr.ref(), eof())
            p = Prod(f"P{k}", rule, ws=wsr_ if k == 0 else lws, token=token, transparent=transparent, void=void,
                     depth=R_.choice([1, 2, 3, 5, 8]) if k == 0 and recursive else 0)
            p.scan = prog
            # A subgrammar sees neither the whitespace nor the variables of the grammar around it.
            p.sub = k > 0 and not ws and not usectx and not prog and not s.w.get("_scan") and (void or not s.w.get("_valueless")) and zlib.crc32(rule.sx.encode()) % 10 < 4
            s.g.prods.append(p)
            s.refs.append(p)
        return s.g


def generate(seed, profile):
    for k in range(1000):
        g = Gen(random.Random(seed * 1000003 + k), profile).grammar()
        # bounded size keeps compile times in check
        size = sum(len(p.rule.sx) for p in g.prods)
        if size < profile.get("_max", 900) and size > 60:
            return g
    raise RuntimeError("generator")


def select(n, pool, base, profile):
    """Greedy choice of n grammars out of a pool, maximising the construct combinations covered."""
    cands = [generate(base + i, profile) for i in range(pool)]
    need = profile.get("_need")
    out, seen = [], {}
    infos = [(g, g.ops()) for g in cands]
    while len(out) < n and infos:
        best = max(infos, key=lambda t: sum(1.0 / (1 + 3 * seen.get(o, 0)) for o in t[1]) / (200 + sum(len(p.rule.sx) for p in t[0].prods)))
        infos.remove(best)
        out.append(best[0])
        for o in best[1]:
            seen[o] = seen.get(o, 0) + 1
    return out


def emit(grammars, prefix, header, per_tu):
    """Returns C++ translation units registering the grammars with the driver header's REGISTER macro."""
    tus = []
    for t in range(0, len(grammars), per_tu):
        out = f'#include "{header}"\n'
        for i, g in enumerate(grammars[t:t + per_tu]):
            ns = f"{prefix}{t + i}"
            out += g.cpp(ns)
            out += f"GDRIVE_REGISTER({ns}::P0, \"{ns}\", {q(g.model())})\n"
        tus.append(out)
    return tus


# profile -> (weights, number of fixed grammars)
PROFILES = {
    "all": ({}, 40),
    "recovery": ({"try": 4, "tryr": 4, "termr": 4, "brackets": 4, "list": 1.5, "must": 2, "_items": .4, "_ctxprob": .05, "_recprob": .15}, 32),
    "space": ({"nows": 3, "wsr": 3, "p": 2, "pr": 2, "_wsprob": 1, "_ctxprob": .05, "_lwsprob": 2, "_tokprob": 2}, 32),
    "context": ({"ctx": 2, "try": 2, "tryr": 3, "pr": 2, "rec": 3, "recr": 4, "_ctxprob": .8, "_recprob": .6, "_wsprob": .2}, 32),
    # restricted to what every encoding supports
    "inputs": ({"ccnot": 0, "_max": 500}, 12),
    "actions": ({"_max": 700, "_valueless": 1, "termr": 2, "brackets": 2, "_items": .6}, 24),
    "values": ({"pas": 3, "eff": 2, "cap": 2, "pos": 1.5, "list": 2, "comb": 2, "pr": 1.5, "p": 1.5, "try": 1.5, "tryr": 2, "brackets": 1.5, "_max": 900, "_ctxprob": .05}, 28),
    "scan": ({"_scan": 1, "_max": 700, "_ctxprob": 0, "_recprob": .25}, 24),
    "trees": ({"pr": 2, "p": 2, "_max": 700, "_recprob": .3}, 24),
    "diagnostics": ({"_max": 600, "_items": .6, "_ctxprob": .1}, 20),
}


if __name__ == "__main__":
    import sys
    g = generate(int(sys.argv[1]) if len(sys.argv) > 1 else 1, {})
    print(g.cpp("t"))
    print(g.model())
