"""timers, sleeps and signals: spec/Timer*.tla, harness/timer.cpp"""
import random

DRIVERS = ["timer"]
TRACE = "TimerTrace"


def models(tier, pid):
    if tier == "quick":
        return [("TimerMC", "TimerMC.cfg", 3000, None)]
    return [("TimerMC", "TimerMC.cfg", 20000, None), ("TimerMC", "TimerMC_t.cfg", 40000, None)]


def to_trace(line, ev):
    h = dict(w.split("=", 1) for w in line.split("|")[1].split() if "=" in w)
    return {"p": {"kind": h["kind"], "fin": h["fin"]}, "ev": ev}


def tv(v):
    return "M" if v == 1000000 else v


def from_gen(n, g, rnd):
    cmds, at = [], {}
    for c in g["h"]:
        k = c["c"]
        f = rnd.choice("drt")
        if "i" in c and k != "X":
            at[c["i"]] = len(cmds) + 1
        if k == "T":
            cmds.append(f"T {c['t']} {c['k']} {c['how']} {tv(c['v'])}")
        elif k == "r" and g["kind"] == "t":
            cmds.append(f"r {c['t']} {c['how']} {tv(c['v'])}")
        elif k == "S":
            cmds.append(f"S {c['k']} {c['how']} {tv(c['v'])} {f}")
        elif k in "+=":
            cmds.append(f"{k} {c['v']}")
        elif k == "X":
            cmds.append(f"X {at[c['i']]}")
        elif k == "Q":
            cmds.append("Q")
        elif k == "w":
            cmds.append(f"w {c['t']} {f}")
        elif k in "mM":
            cmds.append(f"{k} {c['t']} {3 - c['t']}")
        elif k == "G":
            cmds.append(" ".join(["G", str(c["t"])] + [str(x) for x in c["ns"]]))
        elif k in "ra":
            cmds.append(f"{k} {c['t']} {c['n']}")
        elif k == "!":
            cmds.append(f"! {c['n']}")
        else:
            cmds.append(f"{k} {c['t']}")
    if rnd.random() < .5:
        cmds.append(rnd.choice(["Q", "+ 2;Q"] if g["kind"] == "t" else ["Q", "! 1;Q", "! 2;Q"]))
    return f"g{n}|kind={g['kind']} fin={rnd.choice('sd')}|" + ";".join(cmds)


def timers(n, rnd):
    cmds, have, ops = [], [], []
    now = 10
    for _ in range(rnd.randint(4, 26)):
        x = rnd.random()

        def when():
            if rnd.random() < .05:
                return rnd.choice("ai"), "M"
            if rnd.random() < .5:
                return "a", now + rnd.choice([-8, -1, 0, 1, 2, 5, 9])
            return "i", rnd.choice([-3, 0, 0, 1, 2, 3, 8])
        f = rnd.choice("drt")
        if not have or (x < .1 and len(have) < 4):
            t = max(have, default=0) + 1
            h, v = rnd.choice([("d", 0), when(), when(), when()])
            cmds.append(f"T {t} {rnd.choice('yys')} {h} {v}")
            have.append(t)
            continue
        t = rnd.choice(have)
        if x < .35:
            cmds.append(f"w {t} {f}")
            ops.append(len(cmds))
        elif x < .45:
            h, v = when()
            k = rnd.choice("ys")
            cmds.append(f"S {k} {'a' if k == 's' else h} {v if k != 's' or v == 'M' or h == 'a' else now + v} {f}")
            ops.append(len(cmds))
        elif x < .60:
            d = rnd.choice([1, 1, 2, 3, 5])
            now += d
            cmds.append(f"+ {d}")
        elif x < .72:
            cmds.append("Q")
        elif x < .80:
            h, v = when()
            cmds.append(f"r {t} {h} {v}")
        elif x < .84:
            cmds.append(f"c {t}")
        elif x < .86 and ops:
            cmds.append(f"X {rnd.choice(ops)}")
        elif x < .92:
            cmds.append(f"{rnd.choice('xe')} {t}")
        elif x < .94:
            cmds.append(f"= {now + rnd.choice([-6, -1, 3, 9])}")
        elif x < .96:
            u = max(have) + 1
            cmds.append(f"m {t} {u}")
            have.remove(t)
            have.append(u)
        elif x < .98 and len(have) > 1:
            u = rnd.choice(have)
            cmds.append(f"M {t} {u}")
        else:
            cmds.append(f"D {t}")
            have.remove(t)
    if rnd.random() < .5:
        cmds += ["+ 2", "Q"]
    return f"r{n}|kind=t fin={rnd.choice('ssd')}|" + ";".join(cmds)


def signals(n, rnd):
    cmds, have, ops = [], [], []
    for _ in range(rnd.randint(4, 26)):
        x = rnd.random()
        if not have or (x < .08 and len(have) < 3):
            s = max(have, default=0) + 1
            ns = [rnd.choice([1, 2, 3, 1, 2, 3, 1, 2, 0 if rnd.random() < .2 else 3]) for _ in range(rnd.randint(0, 2))]
            cmds.append(" ".join(["G", str(s)] + [str(x) for x in ns]))
            if 0 not in ns:
                have.append(s)
            continue
        s = rnd.choice(have)
        if x < .35:
            cmds.append(f"w {s} {rnd.choice('drt')}")
            ops.append(len(cmds))
        elif x < .58:
            cmds.append(f"! {rnd.choice([1, 2, 3])}")
        elif x < .76:
            cmds.append("Q")
        elif x < .84:
            cmds.append(f"a {s} {rnd.choice([1, 2, 3, 1, 2, 3, 0])}")
        elif x < .90:
            cmds.append(f"r {s} {rnd.choice([1, 2, 3, 1, 2, 3, 0])}")
        elif x < .93 and ops:
            cmds.append(f"X {rnd.choice(ops)}")
        elif x < .99:
            cmds.append(f"{rnd.choice('Cc')} {s}")
        else:
            cmds.append(f"D {s}")
            have.remove(s)
    if rnd.random() < .5:
        cmds.append("Q")
    return f"r{n}|kind=g fin={rnd.choice('ssd')}|" + ";".join(cmds)


def scenarios(tier, seed, gens, pid):
    rnd = random.Random(f"{seed}/{pid}/timer")
    out = [from_gen(i, g, rnd) for i, g in enumerate(gens)]
    n = 6000 if tier == "quick" else 80000
    return out + [(timers if i % 5 < 3 else signals)(i, rnd) for i in range(n)]
