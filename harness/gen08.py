"""Integer rules for h08: a fixed covering set and a random one per seed."""
import random
BASES = {"binary": ("01", 2, 0, "digit.binary"), "octal": ("01234567", 8, 0, "digit.octal"), "decimal": ("0123456789", 10, 0, "digit.decimal"),
         "hex_lower": ("0123456789abcdef", 16, 0, "digit.hex-lower"), "hex_upper": ("0123456789ABCDEF", 16, 1, "digit.hex-upper"),
         "hex": ("0123456789abcdef", 16, 2, "digit.hex")}
PLAIN = ["char", "signed char", "unsigned char", "short", "unsigned short", "int", "unsigned", "long", "unsigned long", "long long", "unsigned long long",
         "__int128", "unsigned __int128", "char8_t", "char16_t", "char32_t", "wchar_t"]
SEPS = ["_", "'", "--", "x", None, None]


def types(r):
    k = r.random()
    if k < .6:
        t = r.choice(PLAIN)
        return t, True, f"h08::max_of<{t}>"
    if k < .7:
        return "lexy::code_point", True, "0x10FFFF"
    if k < .85:
        t, lo, hi = r.choice([("unsigned char", 16, 255), ("int", 16, 2**31 - 1), ("unsigned", 16, 2**32 - 1), ("long long", 16, 2**63 - 1), ("unsigned short", 16, 65535)])
        m = r.choice([lo, r.randint(lo, hi), r.randint(lo, min(hi, 1000)), 16 ** r.randint(1, 7) - 1, 10 ** r.randint(2, 9), hi, hi - 1])
        m = max(lo, min(m, hi))
        return f"lexy::bounded<{t}, {m}{'ull' if t == 'long long' and 0 else ''}>", True, f"{m}ull"
    t = r.choice(["unsigned char", "unsigned short", "unsigned", "unsigned long long"])
    return f"lexy::unbounded<{t}>", False, f"h08::max_of<{t}>"


def entry(r, base=None, form=None):
    base = base or r.choice(list(BASES))
    d, radix, upper, cls = BASES[base]
    form = form or r.choice(["f_digits", "f_digits", "f_nlz", "f_n", "f_token", "cp", "cu"])
    n, sep = 0, None
    tag = "integer overflow"
    if form in ("cp", "cu"):
        n = r.choice([2, 3, 4, 5, 6, 7, 8])
        form2 = "f_n"
        if form == "cp":
            rule, bounded, mx, tag = f"(dsl::code_point_id<{n}, dsl::{base}>)", True, "0x10FFFF", "invalid code point"
        else:
            e, m = r.choice([("utf8_encoding", "255"), ("utf16_encoding", "65535"), ("utf32_encoding", "0xFFFFFFFFull"), ("byte_encoding", "255"), ("ascii_encoding", "127")])
            if e == "ascii_encoding" and radix == 16 and n < 2:
                n = 2
            rule, bounded, mx, tag = f"(dsl::code_unit_id<lexy::{e}, {n}, dsl::{base}>)", True, m, "invalid code unit"
        form = form2
    else:
        t, bounded, mx = types(r)
        sep = r.choice(SEPS)
        if form == "f_token":
            sep = None
            rule = f"(dsl::integer<{t}, dsl::{base}>(dsl::token(dsl::while_one(dsl::digit<dsl::{base}> / dsl::lit_c<'.'> / dsl::lit_c<'u'>))))"
        else:
            s = f".sep(LEXY_LIT(\"{sep}\"))" if sep else ""
            if form == "f_n":
                n = r.choice([2, 2, 3, 4, 5, 8, 10, 11, 16, 20])
                dg = f"dsl::n_digits<{n}, dsl::{base}>{s}"
            elif form == "f_nlz":
                dg = f"dsl::digits<dsl::{base}>" + (f"{s}.no_leading_zero()" if r.random() < .5 or not sep else f".no_leading_zero(){s}")
            else:
                dg = f"dsl::digits<dsl::{base}>{s}"
            rule = f"(dsl::integer<{t}>({dg}))"
    spec = f'"{d}", {radix}, {upper}, "{cls}", h08::{form}, {n}, ' + (f'"{sep}"' if sep else "nullptr") + f', {"true" if bounded else "false"}, {mx}, "{tag}"'
    return rule, spec


def entries(seed, n):
    r = random.Random(99)
    es = []
    for base in BASES:
        for form in ("f_digits", "f_nlz", "f_n", "f_token"):
            es.append(entry(r, base, form))
    for t in PLAIN:
        es.append((f"(dsl::integer<{t}>)", f'"0123456789", 10, 0, "digit.decimal", h08::f_digits, 0, nullptr, true, h08::max_of<{t}>, "integer overflow"'))
    for form in ("cp", "cu", "cu", "cp", "cu"):
        es.append(entry(r, None, form))
    r = random.Random(seed)
    es += [entry(r) for _ in range(n)]
    return es


def emit(seed, n, parts):
    es = entries(seed, n)
    return ['#include "h08.hpp"\n' + "".join(f"H08({i}, {a}, {b})\n" for i, (a, b) in enumerate(es) if i % parts == p) for p in range(parts)]


if __name__ == "__main__":
    import sys
    for i, t in enumerate(emit(int(sys.argv[1]), int(sys.argv[2]), 8)):
        open("%s/h08g%d.cpp" % (sys.argv[3], i), "w").write(t)
