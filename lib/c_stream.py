"""pipes and pairs of sockets: spec/Stream*.tla, harness/stream.cpp"""
import random

DRIVERS = ["stream"]
TRACE = "StreamTrace"


def models(tier, pid):
    if tier == "quick":
        return [("StreamMC", "StreamMC.cfg", 3000, None)]
    return [("StreamMC", "StreamMC.cfg", 20000, None), ("StreamMC", "StreamMC_t.cfg", 40000, None)]


def to_trace(line, ev):
    h = dict(w.split("=", 1) for w in line.split("|")[1].split() if "=" in w)
    return {"p": {"kind": h["kind"], "fin": h.get("fin", "s"), "tcp": h.get("sock") == "s", "none": "none" in h}, "ev": ev}


def op(rnd, kind, e, n=None, c=None):
    sizes = [0, 1, 2, 3, 7, 20, 100] if kind != "q" else [1, 2, 3, 7, 20, 100]
    f = rnd.choice("drt")
    rd = rnd.random() < .5 if kind != "p" else e == 0
    if c is None:
        if kind != "p" and rnd.random() < .12:
            return f"V {e} {f} {rnd.choice('rrrw')}"
        if rd:
            c = rnd.choice("RRRA" if kind in "ps" else "R" if kind == "d" else "RRKO")
        else:
            c = rnd.choice("WWB" if kind in "ps" else "W")
    if n is None:
        n = rnd.choice(sizes)
        if kind in "ps" and rnd.random() < .04:
            n = rnd.choice([5000, 70000, 400000])
    return f"{c} {e} {n} {f} {rnd.choice([1, 1, 2, 3, 4])}"


def other(rnd, kind, e, nops):
    x = rnd.random()
    if x < .2 and nops:
        return f"X {rnd.choice(nops)} {rnd.choice('tpoa')}"
    c = rnd.choice("cckhhyyymgiiD")
    if c == "h":
        return f"h {e} {rnd.choice('rwwb')}"
    if c == "g":
        return f"g {e} {rnd.choice('cap')}"
    return f"{c} {e}"


def from_gen(n, g, rnd):
    kind = g["kind"]
    cmds, num, at = [], {}, 0
    for h in g["h"]:
        at += 1
        c = h["c"]
        if c == "op":
            num[h["i"]] = at
            d = h["d"]
            size = h["n"] if h["n"] <= 3 else 300000
            if d == "V":
                cmds.append(f"V {h['e']} {rnd.choice('drt')} r")
            else:
                cmds.append(f"{d} {h['e']} {size} {h['f']} {rnd.choice([1, 2, 3, 4])}")
        elif c == "X":
            cmds.append(f"X {num[h['i']]} {rnd.choice('tpoa')}")
        elif c == "Q":
            cmds.append("Q")
        elif c == "h":
            cmds.append(f"h {h['e']} {h['w']}")
        elif c == "g":
            cmds.append(f"g {h['e']} {rnd.choice('cap')}")
        else:
            cmds.append(f"{c} {h['e']}")
    return f"g{n}|kind={kind} fin={rnd.choice('ssd')}|" + ";".join(cmds + rnd.choice([["Q"], []]))


OPTS = ["debug", "do_not_route", "enable_connection_aborted", "keep_alive", "receive_buffer_size", "send_buffer_size",
        "receive_low_watermark", "reuse_address", "no_delay", "linger", "send_low_watermark"]


def options(n, rnd):
    cmds = ["open"] if rnd.random() < .9 else []
    some = rnd.sample(OPTS, rnd.randint(2, 6))
    for _ in range(rnd.randint(2, 25)):
        k = rnd.choice(some)
        if rnd.random() < .5:
            v = (rnd.choice([4096, 8192, 10000]) if "buffer" in k else rnd.randint(1, 900) if "water" in k
                 else rnd.choice([0, 1, 11, 61, 20]) if k == "linger" else rnd.randint(0, 1))
            cmds.append(f"s {k} {v}")
        else:
            cmds.append(f"g {k}")
        if rnd.random() < .03:
            cmds.append(rnd.choice(["open", "close"]))
    return f"o{n}|kind=o sock={rnd.choice('sssd')}|" + ";".join(cmds + [f"g {k}" for k in some])


def rand(n, rnd):
    if rnd.random() < .12:
        return options(n, rnd)
    kind = rnd.choice("ppsssddqq")
    cmds, ops = [], []
    wild = rnd.choice([.05, .2, .4])
    for _ in range(rnd.randint(2, 30)):
        e = rnd.randint(0, 1)
        x = rnd.random()
        if x < wild:
            cmds.append(other(rnd, kind, e, ops))
            if cmds[-1][0] in "kDh" and rnd.random() < .5:
                cmds.pop()
        elif x < wild + .2:
            cmds.append("Q")
        else:
            cmds.append(op(rnd, kind, e))
            ops.append(len(cmds))
    if rnd.random() < .5:
        cmds.append("Q")
    return f"r{n}|kind={kind} fin={rnd.choice('ssd')}|" + ";".join(cmds)


def scenarios(tier, seed, gens, pid):
    rnd = random.Random(f"{seed}/{pid}/stream")
    out = [from_gen(i, g, rnd) for i, g in enumerate(gens)]
    n = 6000 if tier == "quick" else 80000
    return out + [rand(i, rnd) for i in range(n)] + [f"n{k}|kind={k} fin=s none=1|" for k in "psdq"]
