"""Expression productions for h11."""
import random
POST = [["+", "++"], ["-", "->"], ["*", "**"], ["/"], ["%", "%%"], ["^"], ["&", "&&"], ["|", "||", "|||"], ["<", "<<", "<="], ["~"], ["@"], ["$", "$$"], [",", ",,"], [";"], ["!", "!!"],
        ["and"], ["or", "orx"], [":="], ["'"]]
PRE = [["+"], ["-", "--"], ["~"], ["!", "!!"], ["not", "nota"], ["*"], ["&", "&&"], ["#"], ["@@"]]
KINDS = ["left", "right", "list", "single", "prefix", "postfix"]
BASE = dict(left="infix_op_left", right="infix_op_right", list="infix_op_list", single="infix_op_single", prefix="prefix_op", postfix="postfix_op")


class E:
    def __init__(self, r, i):
        self.r, self.i = r, i
        self.post, self.pre = [list(f) for f in POST], [list(f) for f in PRE]
        r.shuffle(self.post)
        r.shuffle(self.pre)
        self.eq = r.random() < .4  # '=' and '==' at different levels
        self.n = 0
        self.fold = r.random() < .5  # folding of one literal extends to all that are matched together
        self.structs = []

    def op(self, text):
        """(rule, Op)"""
        r = self.r
        self.n += 1
        word = text.isalpha()
        fold, nf, close = 0, 0, ""
        if word:
            k = r.choice([1, 2] if self.fold else [0, 3])
            if k == 0:
                rule, nf = f'LEXY_KEYWORD("{text}", dsl::identifier(dsl::ascii::alpha))', "'a'"
            elif k == 1:
                rule, fold = f'dsl::ascii::case_folding(LEXY_LIT("{text}"))', 1
            elif k == 2:
                rule, fold, nf = f'dsl::ascii::case_folding(LEXY_KEYWORD("{text}", dsl::identifier(dsl::ascii::alpha)))', 1, "'a'"
            else:
                rule = f'LEXY_LIT("{text}")'
        elif text == "=":
            rule, nf = "dsl::not_followed_by(LEXY_LIT(\"=\"), dsl::lit_c<'='>)", "'='"
        else:
            rule = f'LEXY_LIT("{text}")'
        if r.random() < .15 and not nf:
            close = r.choice(["]", ":", "}"])
            rule = f'({rule} >> dsl::recurse<E{self.i}> + dsl::lit_c<\'{close}\'>)'
        tag = r.choice(["void", "unique", "value", "pos"])
        t = dict(void="<void>", unique="", value=f"<{self.n}>", pos=f"<h11::Pos<{self.n}>>")[tag]
        return f"dsl::op{t}({rule})", f'{{"{text}", {fold}, {nf}, h11::t_{tag}, {self.n}, "{close}"}}'

    def operation(self, kind, operand):
        r = self.r
        if kind != "prefix" and self.eq and r.random() < .3 and self.eq is not None:
            texts = ["=="] if self.eq is True else ["="]
            self.eq = "x" if self.eq is True else None
        else:
            pool = self.pre if kind == "prefix" else self.post
            fam = pool.pop() if pool else None
            if not fam:
                return None
            texts = fam if r.random() < .5 else [r.choice(fam)]
            if pool and r.random() < .25:
                texts = texts + pool.pop()
            r.shuffle(texts)
        ops = [self.op(t) for t in texts]
        name = f"o{self.i}_{len(self.structs)}"
        self.structs.append(f"  struct {name} : dsl::{BASE[kind]} {{ static constexpr auto name = \"{name}\"; static constexpr auto op = {' / '.join(o[0] for o in ops)}; using operand = {operand}; }};\n")
        return name, '{"%s", h11::k_%s, {%s}}' % (name, kind, ", ".join(o[1] for o in ops))

    def chain(self, n, operand):
        """n operations, the lowest level first; built from the highest level down"""
        specs, cur = [], operand
        kinds = [self.r.choice(KINDS) for _ in range(n)]
        for k in kinds:
            x = self.operation(k, cur)
            if x:
                cur = x[0]
                specs.insert(0, x)
        return cur, specs

    def make(self):
        r = self.r
        groups, operand, gtop = [], "dsl::atom", []
        if r.random() < .35:
            for _ in range(r.randint(2, 3)):
                c, sp = self.chain(r.randint(1, 2), "dsl::atom")
                if sp:
                    groups.append(sp)
                    gtop.append(c)
            operand = "dsl::groups<%s>" % ", ".join(gtop)
        n = r.randint(0 if groups else 1, 5 - len(groups))
        top, specs = self.chain(n, operand)
        if not specs and not groups:
            return self.make()
        ws = r.random() < .5
        mx = r.choice([256, 256, 256, 2, 3, 5, 9])
        root = r.randrange(len(specs)) if specs else 0
        flat = [x[0] for x in specs]
        i = self.i
        text = f"struct E{i} : lexy::expression_production {{\n  static constexpr auto name = \"E\";\n  static constexpr auto atom = h11::atom_of<E{i}>;\n"
        if mx != 256:
            text += f"  static constexpr auto max_operator_nesting = {mx};\n"
        text += "".join(self.structs)
        text += f"  using operation = {top};\n  static constexpr auto value = h11::value{{}};\n}};\n"
        rootop = f"E{i}::" + specs[root][0] if specs else f"E{i}::operation"
        if specs:
            text += f"struct S{i} : lexy::subexpression_production<E{i}, {rootop}> {{ static constexpr auto name = \"S\"; }};\n"
        else:
            text += f"using S{i} = E{i};\n"
        spec = "%s, %d, %d, {%s}, {%s}" % ("true" if ws else "false", mx, root if specs else 9999, ", ".join(s[1] for s in specs), ", ".join("{%s}" % ", ".join(s[1] for s in g) for g in groups))
        desc = "; ".join(s.strip() for s in self.structs) + " top " + top
        text += f"static h11::Reg reg{i}{{{{R\"~~({desc})~~\", {{{spec}}}, &h11::run<E{i}, S{i}, {'true' if ws else 'false'}>}}}};\n"
        return text


def emit(seed, n, parts):
    texts = ['#include "h11.hpp"\n'] * parts
    i = 0
    for s, m in ((17, 24), (100 + seed, n)):
        r = random.Random(s)
        for j in range(m):
            texts[i % parts] += E(r, i).make()
            i += 1
    return texts


if __name__ == "__main__":
    import sys
    for i, t in enumerate(emit(int(sys.argv[1]), int(sys.argv[2]), 8)):
        open("%s/h11g%d.cpp" % (sys.argv[3], i), "w").write(t)
