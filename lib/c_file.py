"""files: spec/File*.tla, harness/file.cpp"""
import random

DRIVERS = ["file"]
TRACE = "FileTrace"


def models(tier, pid):
    if tier == "quick":
        return [("FileMC", "FileMC.cfg", 3000, None)]
    return [("FileMC", "FileMC.cfg", 20000, None), ("FileMC", "FileMC_t.cfg", 40000, None)]


def to_trace(line, ev):
    _, head, cmds = line.split("|", 2)
    h = dict(w.split("=", 1) for w in head.split() if "=" in w)
    forms = []
    for c in cmds.split(";"):
        w = c.split()
        forms.append(w[4] if w and w[0] in "RWAB" else "")
    return {"p": {"fin": h["fin"], "form": forms}, "ev": ev}


ACCESS = "rwb"


def flags(rnd, f):
    if f == 2:
        return "b"
    m = rnd.choice("rwbbb")
    s = m
    if rnd.random() < (.7 if f == 1 else .3):
        s += "c"
        if rnd.random() < .3:
            s += "x"
    if m != "r" and rnd.random() < .25:
        s += "t"
    if m != "r" and rnd.random() < .25:
        s += "a"
    if rnd.random() < .1:
        s += "y"
    return s


def rw(rnd, h, c=None):
    c = c or rnd.choice("RRRWWWAB")
    off = 999999 if c in "RA" and rnd.random() < .03 else rnd.choice([0, 0, 1, 2, 3, 5, 9])
    n = rnd.choice([0, 1, 1, 2, 3, 4, 6, 8])
    return f"{c} {h} {off} {n} {rnd.choice('drt')} {rnd.choice([1, 1, 2, 3, 4])}"


def from_gen(n, g, rnd):
    cmds = []
    pend = {}
    for c in g["h"]:
        k = c["c"]
        if k == "P":
            fl = c["m"] + ("a" if c["app"] else "") + ("c" if c["cr"] else "") + ("x" if c["ex"] else "") + ("t" if c["tr"] else "")
            cmds.append(f"P {c['h']} {c['t']} {c['f']} {fl} {rnd.choice('cs')}" if rnd.random() < .5 or not c["ok"] else f"N {c['h']} {c['t']}")
            if cmds[-1][0] == "N":
                cmds.append(f"o {c['h']} {c['f']} {fl} {rnd.choice('cs')}")
        elif k == "u":
            cmds.append(f"u {c['h']} {c['t']} {c['h2']} c")
        elif k in "RWAB":
            cmds.append(f"{k} {c['h']} {c['off']} {c['n']} {rnd.choice('drt')} {rnd.choice([1, 1, 2, 3])}")
            pend[c["i"]] = len(cmds)
        elif k == "s":
            cmds.append(f"s {c['h']} {c['a']} {c['wh']}")
        elif k == "z":
            cmds.append(f"z {c['h']} {c['n']}")
        elif k in "klc":
            cmds.append(f"{k} {c['h']}")
        elif k == "X":
            cmds.append(f"X {pend[c['i']]}")
        elif k == "Q":
            cmds.append("Q")
    hs = sorted({c.split()[1] for c in cmds if c[0] in "PNu"})
    for h in hs:
        if rnd.random() < .3:
            cmds.append(rnd.choice([f"Z {h}", f"i {h}", f"s {h} 0 C"]))
    return f"g{n}|fin={rnd.choice('sd')}|" + ";".join(cmds)


def rand(n, rnd):
    cmds, types, ops = [], {}, []
    fifo = rnd.random() < .2
    ln = rnd.randint(4, 24)
    while len(cmds) < ln:
        x = rnd.random()
        hs = list(types)
        if not hs or (x < .12 and len(hs) < 4):
            h = max(hs, default=0) + 1
            t = rnd.choice("sr")
            y = rnd.random()
            f = 3 if rnd.random() < .03 else rnd.choice([0, 0, 1] + ([2, 2, 2] if fifo else []))
            if f == 2:
                t = "s"
            if y < .3 and hs:
                h2 = rnd.choice(hs)
                cmds.append(f"u {h} {t} {h2} c")
            elif y < .5:
                cmds.append(f"N {h} {t}")
            else:
                cmds.append(f"P {h} {t} {f} {flags(rnd, f)} {rnd.choice('cs')}")
            types[h] = t
            continue
        h = rnd.choice(hs)
        if x < .62:
            cmds.append(rw(rnd, h))
            ops.append(len(cmds))
        elif x < .70:
            cmds.append("Q")
        elif x < .78:
            a = rnd.choice([0, 0, 1, 2, 4, -1, -2, 7, 999999])
            cmds.append(f"s {h} {a} {'S' if a == 999999 else rnd.choice('SCE')}")
        elif x < .81:
            cmds.append(f"z {h} {rnd.choice([0, 1, 2, 5, 12])}")
        elif x < .84:
            cmds.append(f"Z {h}")
        elif x < .85:
            cmds.append(f"y {h} {rnd.choice('ad')}")
        elif x < .90:
            f = rnd.choice([0, 0, 1, 1] + ([2, 2] if fifo else []))
            if rnd.random() < .3:
                cmds.append(f"k {h}")
            cmds.append(f"o {h} {f} {flags(rnd, f)} {rnd.choice('cs')}")
        elif x < .92 and len(hs) > 1:
            cmds.append(f"u {h} {types[h]} {rnd.choice(hs)} a")
        elif x < .94:
            h2 = max(hs) + 1
            if h2 < 7:
                cmds.append(f"m {h} {h2}")
                types[h2] = types[h]
        elif x < .96 and ops:
            cmds.append(f"X {rnd.choice(ops)}")
        else:
            c = rnd.choice("ckllii" + "D")
            cmds.append(f"{c} {h}")
            if c == "D":
                del types[h]
    if rnd.random() < .4:
        cmds.append("Q")
    return f"r{n}|fin={rnd.choice('ssd')}|" + ";".join(cmds[:26])


def scenarios(tier, seed, gens, pid):
    rnd = random.Random(f"{seed}/{pid}/file")
    out = [from_gen(i, g, rnd) for i, g in enumerate(gens)]
    for i in range(4000 if tier == "quick" else 40000):
        out.append(rand(len(out), rnd))
    return out
