"""race, left_race, gather and join: spec/Comb*.tla, harness/comb.cpp"""
import random

DRIVERS = ["comb"]
TRACE = "CombTrace"
#           interruptible, void per child (None: all the same)
RANGED = {"i": (True, False), "n": (False, False), "m": (True, False), "c": (True, False), "C": (False, False),
          "v": (True, True), "w": (False, True), "l": (True, False), "r": (False, False)}
VARIADIC = {"2": ([True, False], [False, False]), "3": ([False, True, True], [False, True, False]),
            "4": ([True, True], [True, True]), "5": ([True, False], [False, False])}


def models(tier, pid):
    if tier == "quick":
        return [("CombMC", "CombMC_a.cfg", 3000, None)]
    return [("CombMC", "CombMC_a.cfg", 20000, None), ("CombMC", "CombMC_t.cfg", 40000, None)]


def parse(s):
    """tree string -> arrays of the specification"""
    t = {"kind": [], "kids": [], "par": [], "idx": [], "anc": [], "itb": [], "vd": []}
    pos = 0
    def node(par, anc):
        nonlocal pos
        n = len(t["kind"]) + 1
        for k in t:
            t[k].append(None)
        t["kids"][n - 1] = []
        t["par"][n - 1] = par
        t["anc"][n - 1] = [n] + anc
        t["idx"][n - 1], t["itb"][n - 1], t["vd"][n - 1] = 1, True, False
        if s[pos] == "p":
            t["kind"][n - 1] = "p"
            pos += 1
            return n
        k, fl = s[pos], s[pos + 1]
        t["kind"][n - 1] = k
        pos += 3
        while s[pos] != ")":
            c = node(n, [n] + anc)
            t["kids"][n - 1].append(c)
            i = len(t["kids"][n - 1])
            t["idx"][c - 1] = i
            if fl in RANGED:
                t["itb"][c - 1], t["vd"][c - 1] = RANGED[fl]
            else:
                t["itb"][c - 1], t["vd"][c - 1] = VARIADIC[fl][0][i - 1], VARIADIC[fl][1][i - 1]
            if s[pos] == ",":
                pos += 1
        pos += 1
        return n
    node(0, [])
    return t


def to_trace(line, ev):
    head = dict(w.split("=", 1) for w in line.split("|")[1].split() if "=" in w)
    t = parse(head["tree"])
    t["rdy"] = [head.get(f"l{n}", "saa")[0] in "ret" for n in range(1, len(t["kind"]) + 1)]
    t["refused"] = any(k in "RZLJ" and not c for k, c in zip(t["kind"], t["kids"]))
    return {"t": t, "ev": ev}


def _header(rnd, tree, scripts):
    return (f"tree={tree} " + "".join(f"l{n}={s} " for n, s in sorted(scripts.items()))
            + f"style={rnd.choice('xtr')} seed={rnd.randrange(10000)}")


def from_gen(n, g, rnd):
    kind, kids, itb = g["kind"], g["kids"], g["itb"]
    def tree(i):
        if kind[i - 1] == "p":
            return "p"
        ks = kids[i - 1]
        fl = rnd.choice("iimcvl" if itb else "nnCwr")
        k = kind[i - 1]
        if k == "Z":
            fl = "i" if itb else "2"
        elif itb and len(ks) == 2 and rnd.random() < .25:
            fl = "4"
        return f"{k}{fl}({','.join(tree(c) for c in ks)})"
    cmds = []
    for h in g["h"]:
        if h["a"] in "FET":
            cmds.append(f"{h['a']} {h['n']}")
        elif h["a"] == "C":
            cmds.append(f"C {h['t'][0]}")
        elif h["a"] == "I":
            cmds.append("I")
    return f"g{n}|{_header(rnd, tree(1), {int(k): v for k, v in g['sc'].items()})}|" + ";".join(cmds)


def rand_tree(rnd, depth, leaves, only=None):
    k = rnd.choice(only or "RRLZGGJJ")
    if k == "Z":
        fl = rnd.choice("i2")
    else:
        fl = rnd.choice("inmcCvwlr2345")
    n = 2 if fl in "245" else 3 if fl == "3" else rnd.choice([1, 2, 2, 3, 3, 4])
    if fl in "inm" and rnd.random() < .01:
        n = 0
    out = []
    for _ in range(n):
        out.append("p" if depth == 0 or rnd.random() < .65 else rand_tree(rnd, depth - 1, leaves))
    return f"{k}{fl}({','.join(out)})"


def rand(n, rnd, kinds=None, faults=1.0):
    tree = rand_tree(rnd, rnd.choice([0, 0, 1, 1, 2]), None, kinds)
    t = parse(tree)
    leaves = [i + 1 for i, k in enumerate(t["kind"]) if k == "p"]
    calm = rnd.random() < .4
    sc = {}
    for l in leaves:
        st = "s" if rnd.random() < (.9 if calm else .72) else rnd.choice("rrefgtu")
        sc[l] = st + rnd.choice("aaapkv") + rnd.choice("aak")
    cmds = []
    for _ in range(rnd.randint(1, 3 + 2 * len(leaves))):
        x = rnd.random()
        if x < .45 and leaves:
            cmds.append(f"F {rnd.choice(leaves)}")
        elif x < .58 and leaves:
            cmds.append(f"E {rnd.choice(leaves)}")
        elif x < .68 and leaves:
            cmds.append(f"T {rnd.choice(leaves)}")
        elif x < .68 + .12 * faults:
            cmds.append(f"C {rnd.choice('aapto')}")
        elif x < .68 + .18 * faults:
            cmds.append("I")
        elif x < .9:
            cmds.append("P")
        else:
            cmds.append("Q")
    if rnd.random() < .6:
        rnd.shuffle(leaves)
        cmds += [f"{rnd.choice('FFE')} {l}" for l in leaves]
        if rnd.random() < .5:
            cmds += ["Q", "C " + rnd.choice("at")]
    return f"r{n}|{_header(rnd, tree, sc)}|" + ";".join(cmds)


KINDS = {"C04": "RRLLZ", "C05": "RRLZ", "C06": "GGGRJ", "C07": "JJJRG"}


def scenarios(tier, seed, gens, pid):
    rnd = random.Random(f"{seed}/{pid}/comb")
    out = [from_gen(i, g, rnd) for i, g in enumerate(gens)]
    n = 6000 if tier == "quick" else 100000
    out += [rand(i, rnd, KINDS.get(pid), 3.0 if pid == "C08" else 1.0) for i in range(n)]
    return out
