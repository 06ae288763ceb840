"""Development tool: chooses the fixed grammars of each profile (by behaviours reached in the model), writes corpus.json."""
import json, os, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import gen

def main():
    names = sys.argv[1:] or list(gen.PROFILES)
    tmp = tempfile.mkdtemp()
    exe = os.path.join(tmp, "gsel")
    subprocess.check_call(["clang++", "-std=c++20", "-O2", "-I", here, os.path.join(here, "gsel.cpp"), os.path.join(here, "gm.cpp"),
                           os.path.join(here, "vh.cpp"), "-DVH_NO_MAIN", "-o", exe])
    path = os.path.join(here, "corpus.json")
    corpus = json.load(open(path)) if os.path.exists(path) else {}
    for name in names:
        prof, count = gen.PROFILES[name]
        pool = {}
        text = ""
        for seed in range(1, 1 + count * 14):
            g = gen.generate(seed, prof)
            pool[str(seed)] = (sum(len(p.rule.sx) for p in g.prods), len([1 for p in g.prods]))
            text += f"{seed}\t{g.model()}\n"
        out = subprocess.run([exe, "600"], input=text, capture_output=True, text=True, check=True).stdout
        infos = []
        for line in out.splitlines():
            f = line.split()
            infos.append((f[0], int(f[1]), int(f[2]), set(f[3:])))
        infos = [i for i in infos if i[1] >= 15]
        seen, chosen = {}, []
        while len(chosen) < count and infos:
            best = max(infos, key=lambda t: sum(1.0 / (1 + 2 * seen.get(o, 0)) for o in t[3]) / (250 + pool[t[0]][0]))
            infos.remove(best)
            chosen.append(int(best[0]))
            for o in best[3]:
                seen[o] = seen.get(o, 0) + 1
        corpus[name] = chosen
        print(name, len(chosen), "features", len(seen), file=sys.stderr)
    json.dump(corpus, open(path, "w"))

main()
