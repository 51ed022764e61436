"""cobalt::channel: spec/Channel*.tla, harness/channel.cpp"""
import json, random

DRIVERS = ["channel"]
TRACE = "ChannelTrace"
TYPES = "ismv"


def models(tier, pid):
    # (module, cfg, keep, simulate)
    if tier == "quick":
        return [("ChannelMC", "ChannelMC_a.cfg", 2500, None), ("ChannelMC", "ChannelMC_b.cfg", 2500, None)]
    return [("ChannelMC", "ChannelMC_a5.cfg", 20000, None), ("ChannelMC", "ChannelMC_b1.cfg", 30000, None)]


def to_trace(line, ev):
    head = dict(w.split("=") for w in line.split("|")[1].split() if "=" in w)
    return {"lim": [int(x) for x in head["lim"].split(",")], "ev": ev}


def _op(o, how, style, alts):
    return f"{o}:{how}:{style}:" + "+".join(f"w{c}={v}" if k == "w" else f"r{c}" for k, c, v in alts)


def from_gen(n, g, rnd):
    cmds = []
    ty = rnd.choice(TYPES)
    for h in g["h"]:
        if h["a"] == "S":
            alts = [(a["k"], a["c"] - 1, a["v"]) for a in h["alts"]]
            how = h["how"]
            if how == "l" and ty != "m" and all(a[0] == "r" for a in alts) and rnd.random() < .4:
                how = "v"
            cmds.append("S " + _op(h["o"], how, rnd.choice("xtr"), alts))
        elif h["a"] in "CI":
            cmds.append(f"{h['a']} {h['o']}")
        elif h["a"] == "X":
            cmds.append(f"X {h['c'] - 1}")
        else:
            cmds.append("P")
    q = " q" if rnd.random() < .8 else ""
    return f"g{n}|lim={','.join(map(str, g['lim']))} ty={ty} end={rnd.choice('cx')}{q}|" + ";".join(cmds)


def rand(n, rnd, faults=1.0):
    nch = rnd.choice([1, 1, 1, 2, 2, 3])
    lims = [rnd.choice([0, 0, 1, 1, 2, 3]) for _ in range(nch)]
    ty = rnd.choice(TYPES)
    cmds, o, v = [], 0, 0
    started = []
    closing = rnd.random() < .5 * faults
    for _ in range(rnd.randint(4, 18)):
        x = rnd.random()
        if x < .6:
            ops = []
            for _ in range(rnd.choice([1, 1, 1, 2, 3])):
                o += 1
                def alt(c, k=None):
                    nonlocal v
                    k = k or rnd.choice("rw")
                    if k == "w":
                        v += 1
                    return (k, c, v if k == "w" else 0)
                if nch > 1 and rnd.random() < .35:
                    a, b = rnd.sample(range(nch), 2)
                    alts = [alt(a), alt(b)]
                    how = rnd.choice("lr")
                    if ty != "m" and all(t[0] == "r" for t in alts) and rnd.random() < .4:
                        how = "v"
                elif rnd.random() < .1:      # same kind on the same channel twice
                    k = rnd.choice("rw")
                    c = rnd.randrange(nch)
                    alts, how = [alt(c, k), alt(c, k)], rnd.choice("lr")
                else:
                    alts, how = [alt(rnd.randrange(nch))], "p"
                ops.append(_op(o, how, rnd.choice("xtr"), alts))
                started.append(o)
            cmds.append("S " + ",".join(ops))
        elif x < .72:
            cmds += ["P"] * rnd.randint(1, 3)
        elif x < .76:
            cmds.append("Q")
        elif started and x < .76 + .1 * faults:
            cmds.append(f"C {rnd.choice(started)}")
        elif started and x < .76 + .18 * faults:
            cmds.append(f"I {rnd.choice(started)}")
        elif closing and x < .76 + .22 * faults:
            cmds.append(f"X {rnd.randrange(nch)}")
    q = " q" if rnd.random() < .8 else ""
    return f"r{n}|lim={','.join(map(str, lims))} ty={ty} end={rnd.choice('cx')}{q}|" + ";".join(cmds)


def scenarios(tier, seed, gens, pid):
    rnd = random.Random(f"{seed}/{pid}/channel")
    out = [from_gen(i, g, rnd) for i, g in enumerate(gens)]
    n = 4000 if tier == "quick" else 60000
    faults = {"C01": .6, "C02": .6, "C03": 1.6}.get(pid, 1)
    out += [rand(i, rnd, faults) for i in range(n)]
    return out
