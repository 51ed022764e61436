"""composed transfers and buffer sequences: spec/Xfer*.tla, harness/xfer.cpp"""
import random

DRIVERS = ["xfer"]
TRACE = "XferTrace"


def models(tier, pid):
    if tier == "quick":
        return [("XferMC", "XferMC.cfg", 3000, None)]
    return [("XferMC", "XferMC.cfg", 20000, None), ("XferMC", "XferMC_t.cfg", 40000, None)]


def to_trace(line, ev):
    h = dict(w.split("=", 1) for w in line.split("|")[1].split() if "=" in w)
    bufs = [int(x) for x in h["bufs"].split(",") if x]
    steps = []
    for s in h.get("steps", "").split(","):
        if s:
            e = s.endswith("e")
            s = s.rstrip("e")
            steps.append({"n": int(s[:-1]), "how": s[-1], "err": e})
    return {"p": {"kind": h["kind"], "form": h.get("form", "d"), "total": sum(bufs), "off": int(h.get("off", 0)), "steps": steps}, "ev": ev}


def line(i, kind, form, bufs, ctor, off, steps, cmds):
    return f"{i}|kind={kind} form={form} bufs={','.join(map(str, bufs))} ctor={ctor} off={off} steps={','.join(steps)}|" + ";".join(cmds)


def cut(total, rnd):
    """buffers of that much altogether, some of them empty"""
    b = []
    while total:
        k = rnd.randint(0, total)
        b.append(k)
        total -= k
    if rnd.random() < .3 or not b:
        b.insert(rnd.randint(0, len(b)), 0)
    return b


def ctor(bufs, rnd):
    return rnd.choice("vp" + ("sg" * 2 if len(bufs) == 1 else "") + ("aa" if len(bufs) == 2 else ""))


def kinds(k, rnd):
    return rnd.choice("rw" if k in "rw" else "RW")


def from_gen(n, g, rnd):
    p = g["p"]
    bufs = cut(p["total"], rnd)
    steps = [f"{s['n']}{s['how']}{'e' if s['err'] else ''}" for s in p["steps"]]
    cmds = [f"X {rnd.choice('tpoa')}" if h["c"] == "X" else h["c"] for h in g["h"]]
    form = rnd.choice("drj") if p["form"] == "d" else p["form"]
    return line(f"g{n}", kinds(p["kind"], rnd), form, bufs, ctor(bufs, rnd), rnd.choice([0, 1, 7]), steps, cmds + rnd.choice([["Q"], []]))


def rand(n, rnd):
    bufs = cut(rnd.choice([0, 1, 2, 3, 5, 8, 13, 40, 90]), rnd)
    if rnd.random() < .2:
        cmds = []
        for _ in range(rnd.randint(1, 6)):
            cmds.append(rnd.choice(["O", "O", "Y", f"A {rnd.choice([0, 1, 1, 2, 3, 5, 50, sum(bufs), bufs[0]])}"]))
        return line(f"r{n}", rnd.choice("mc"), "d", bufs, ctor(bufs, rnd), 0, [], cmds + ["O"])
    tot = sum(bufs)
    steps = []
    for _ in range(rnd.randint(0, 8)):
        k = rnd.choice([0, 1, 1, 2, 3, 5, 9, 1000] + bufs)
        steps.append(f"{k}{rnd.choice('rrripphhj')}{'e' if rnd.random() < .07 else ''}")
    cmds = ["go"]
    for _ in range(rnd.randint(0, 10)):
        cmds.append(rnd.choice(["C", "C", "C", "Q", "Q", f"X {rnd.choice('tpoa')}"] if rnd.random() < .7 else ["C", "Q"]))
    if rnd.random() < .7:
        cmds += ["Q", "C"] * rnd.randint(1, 5) + ["Q"]
    return line(f"r{n}", rnd.choice("rwRW"), rnd.choice("drtj"), bufs, ctor(bufs, rnd), rnd.choice([0, 1, 5, 1 << 30]), steps, cmds)


def scenarios(tier, seed, gens, pid):
    rnd = random.Random(f"{seed}/{pid}/xfer")
    out = [from_gen(i, g, rnd) for i, g in enumerate(gens)]
    n = 6000 if tier == "quick" else 100000
    return out + [rand(i, rnd) for i in range(n)]
