"""operations, compositions and the result adaptors: spec/Op*.tla, harness/op.cpp"""
import random

DRIVERS = ["op"]
TRACE = "OpTrace"
SIGS = "viImeEFMxXY"


def models(tier, pid):
    if tier == "quick":
        return [("OpMC", "OpMC.cfg", 5000, None)]
    return [("OpMC", "OpMC.cfg", 30000, None), ("OpMC", "OpMC_t.cfg", 60000, None)]


def to_trace(line, ev):
    head = dict(w.split("=", 1) for w in line.split("|")[1].split() if "=" in w)
    ops = {int(k[1:]): v for k, v in head.items() if k[0] == "o" and k[1:].isdigit()}
    n = max(ops) if ops else 0
    p = {"kind": head["kind"], "aw": [{"n": int(a[:-1]), "f": "d" if a[-1] == "s" else a[-1]} for a in head["aw"].split(",")], "op": []}
    for i in range(1, n + 1):
        src, sig, out, rdy, *st = ops[i].split(":")
        st = st[0] if st else ""
        kids = [int(x) for x in st.split(",") if x] if src == "c" else []
        p["op"].append({"src": src, "sig": sig, "out": out, "rdy": rdy, "steps": [] if src == "c" else list(st), "kids": kids, "par": 0})
    for i, o in enumerate(p["op"], 1):
        for k in o["kids"]:
            p["op"][k - 1]["par"] = i
    return {"p": p, "ev": ev}


def line(i, kind, aw, ops, cmds):
    return (f"{i}|kind={kind} aw={','.join(f'{n}{f}' for n, f in aw)} "
            + " ".join(f"o{n}={o}" for n, o in sorted(ops.items())) + "|" + ";".join(cmds))


def from_gen(n, g, rnd):
    """a history of OpMC: the environment's choices; what the model leaves open is drawn here"""
    ops = {}
    for i, o in enumerate(g["op"], 1):
        st = ",".join(map(str, o["kids"])) if o["src"] == "c" else "".join(o["steps"])
        src = o["src"]
        if src == "o" and o["rdy"] == "-":
            src = rnd.choice("oud")
        ops[i] = f"{src}:{o['sig']}:{o['out']}:{o['rdy']}:{st}"
        if src == "g":
            if o["sig"] in "mI" and o["out"] == "n":
                ops[i] = ops[i].replace(":n:", ":o:")
            ops[i] += ":" + rnd.choice("aAmMfF")
    return line(f"g{n}", rnd.choice("apgd") if g["kind"] == "p" and g["op"][0]["src"] != "g" else g["kind"], [(a["n"], a["f"]) for a in g["aw"]], ops,
                [" ".join([h["a"]] + ([str(h["n"])] if "n" in h else []) + ([h["t"][0]] if "t" in h else [])) for h in g["h"]])


STEPS = ["", "i", "p", "ip", "pi", "h", "ih", "H", "j", "n", "in", "ini", "np", "hp", "hi", "hn", "pn", "ni", "inni", "hh", "lp", "ilfp", "llfp",
         "lhfp", "pp", "ii", "iii", "iip", "Hp", "jp", "jh", "lph", "lnip"]


def steps(rnd, faults):
    s = rnd.choice(STEPS)
    x = rnd.random()
    if x < .06 * faults:
        return s + "x"
    if x < .14 * faults:
        return s + "d"
    return s + rnd.choice(["", "c"])


def rand(n, rnd, faults=1.0, forms="dddrrtt", own=.2):
    kind = rnd.choice("appptgd")
    ops, nxt = {}, [1]
    aw = []
    def mk(depth):
        i = nxt[0]
        nxt[0] += 1
        ops[i] = None
        sig = rnd.choice(SIGS)
        out = rnd.choice("oooe")
        src = rnd.choice("ooouuddccc" if depth == 0 else "ooouuddc" if depth < 3 else "oud")
        if src == "c":
            kids = [mk(depth + 1) for _ in range(rnd.choice([0, 1, 1, 2, 2, 3]))]
            ops[i] = f"c:{sig}:{out}:-:{','.join(map(str, kids))}{':b' if rnd.random() < .3 else ''}"
        else:
            rdy = "-"
            if src == "o" and sig not in "mM":
                rdy = rnd.choice("-----rt" if rnd.random() < faults else "-----r")
            ops[i] = f"{src}:{sig}:{out}:{rdy}:{steps(rnd, faults)}"
        return i
    for _ in range(rnd.choice([1, 1, 2, 3, 4])):
        if kind == "p" and rnd.random() < own:
            i = nxt[0]
            nxt[0] += 1
            sig = rnd.choice("vviiIm")
            out = rnd.choice("ooeen" if sig in "vi" else "ooe")
            st = rnd.choice(["", "", "c", "p", "h", "hp", "ph", "pp", "hh", "x"])
            ops[i] = f"g:{sig}:{out}:{rnd.choice('-----rrt')}:{st}:{rnd.choice('aAmMfF')}"
            aw.append((i, rnd.choice("drtTRtt")))
        elif rnd.random() < .06:
            i = nxt[0]
            nxt[0] += 1
            ops[i] = f"n:{rnd.choice('vi')}:o:-:"
            aw.append((i, rnd.choice("drtTR")))
            if aw[-1][1] == "T" and ops[i][2] == "v":
                aw[-1] = (i, "d")
        else:
            i = mk(0)
            f = rnd.choice(forms)
            aw.append((i, "s" if f == "d" and kind == "p" and rnd.random() < .35 else f))
    cmds = []
    for _ in range(rnd.randint(1, 3 + 2 * nxt[0])):
        x = rnd.random()
        k = rnd.randrange(1, nxt[0])
        if x < .4:
            cmds.append(f"C {k}")
        elif x < .4 + .06 * faults:
            cmds.append(f"D {k}")
        elif x < .6:
            cmds.append(f"X {rnd.choice('aptoa')}")
        elif x < .75:
            cmds.append("P")
        else:
            cmds.append("Q")
    if rnd.random() < .6:
        cmds += ["Q"] + [f"C {k}" for k in range(1, nxt[0])] + ["Q"]
        if rnd.random() < .5:
            cmds += [f"C {k}" for k in range(1, nxt[0])] + ["Q"]
    return line(f"r{n}", kind, aw, ops, cmds)


def scenarios(tier, seed, gens, pid):
    rnd = random.Random(f"{seed}/{pid}/op")
    out = [from_gen(i, g, rnd) for i, g in enumerate(gens)]
    n = 8000 if tier == "quick" else 120000
    return out + [rand_for(i, rnd, pid) for i in range(n)]


def rand_for(i, rnd, pid):
    return rand(i, rnd, .3, own=.4) if pid == "C20" else rand(i, rnd)
