"""dev: strength of the contracts.  One operator of every extracted body is changed at once (a caller is checked against contracts, so each
function fails on its own); functions whose obligations still hold are printed as survivors: an equivalent change or a gap of the contract.
mut.py MODULE:fn WHICH SEED [FILTER of the VFile name]"""
import sys, re, random, importlib, time
sys.path[:0] = ["/verif/tools", "/verif/contracts"]
import vlib
RULES = [(r"(?<=[\w)\]] )\+(?= [\w(])", "-"), (r"(?<=[\w)\]] )-(?= [\w(])", "+"), (r"(?<=[\w)\]] )\*(?= [\w(])", "+"), (r"(?<= )<=(?= )", "<"), (r"(?<= )>=(?= )", ">"),
    (r"(?<= )==(?= )", "!="), (r"(?<= )!=(?= )", "=="), (r"&&", "||"), (r"\|\|", "&&"), (r"(?<= )>>(?= )", "<<"), (r"(?<= )<<(?= )", ">>"), (r"(?<=[\w)] )&(?= [\w(])", "|"),
    (r"(?<=[\w)] )\^(?= [\w(])", "|"), (r"(?<=[\w)] )\|(?= [\w(])", "^"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"(?<![\w.])0(?![\w.])", "1"), (r"(?<![\w.])1(?![\w.])", "2"), (r"(?<![\w.])2(?![\w.])", "1"),
    (r"\+=", "-="), (r"-=", "+="), (r"(?<=[a-z0-9)] )<(?= [a-z0-9(])", "<="), (r"(?<=[a-z0-9)] )>(?= [a-z0-9(])", ">="), (r"\badd_", "sub_"), (r"\bsub_", "add_"), (r"\bzero \(", "one ("), (r"\bone \(", "zero ("),
    (r"\bmin\b", "max"), (r"\bmul_", "add_"), (r"\bZERO\b", "ONE"), (r"\bONE\b", "ZERO"), (r"(?<=[=(,{;] )- (?=[\w(])", ""), (r"! (?=[\w(])", ""), (r"(?<=[;}] )[a-z_][\w .]*\([^;{}]*\) ;", ";"), (r"\. a\b", ". b"), (r"\. b\b", ". a"), (r"\bif (?=[^{]*\{)", "if true || "), (r"(?<=[;}] )\* ?[^;={}]*=[^;{}]*;", ";")]
def points(b):
    out = []
    dead = [(m.start() - 1, m.end() + 90) for m in re.finditer(r"if true \{", b)]
    for a, c in RULES:
        for m in re.finditer(a, b):
            w = b[max(0, m.start() - 14):m.end() + 14]
            if any(x <= m.start() <= y for x, y in dead): continue
            if re.search(r"__[inchlos]\d|__VX|__lo|__acc", w): continue
            out.append((m.start(), m.end(), c))
    return out
def main():
    mod, which, seed = sys.argv[1], int(sys.argv[2]), sys.argv[3]
    flt = sys.argv[4] if len(sys.argv) > 4 else ""
    mod, fn = mod.split(":")
    vs = getattr(importlib.import_module(mod), fn)()
    vs = vs if isinstance(vs, list) else [vs]
    for v in vs:
        if not re.search(flt, v.name): continue
        done = {}
        def mutate(f, b):
            ps = points(b)
            k = f.id
            if not ps or done.get(k) == "skip": return b
            r = random.Random(seed + k)
            r.shuffle(ps)
            if which >= len(ps): return b
            s, e, c = ps[which]
            done[k] = b[max(0, s - 40):s] + "[[" + b[s:e] + " -> " + c + "]]" + b[e:e + 40]
            return b[:s] + c + b[e:]
        vlib.MUTATE = mutate
        v.name += "_mut"
        v.where = lambda x, v=v: (lambda l: (l[-1] if "precondition" in x["message"] else l[0]) if l else "")(v.wheres(x))
        t = time.time()
        r = v.verify(vacuity=False, timeout=900)
        killed = {x[0].split(" -- ")[0] for x in r["failed"]}
        soft = {x[0] for x in r.get("soft", [])}
        und = set(r["undecided"])
        base = lambda x: x.split("::inner::")[0].strip()
        kl = {base(x) for x in killed}
        sv = [x for x in done if base(x) not in kl and x not in und and re.sub(r"(?<=\w)::\w+$", "", x) not in und and base(x) not in {base(y) for y in soft}]
        print("##", v.name, r["status"], "mutated", len(done), "killed", len([x for x in done if base(x) in kl]), "front end", len(und), "soft", len(soft), "survive", len(sv), "%.0fs" % (time.time() - t), r["detail"][:150] if not r["failed"] else "", flush=True)
        if not r["failed"]: sv = []
        if "-d" in sys.argv: print(sorted(killed))
        for x in sv: print("   ", x, ":", re.sub(r"\s+", " ", done[x]), flush=True)
main()
