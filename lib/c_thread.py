"""threads and their owners: spec/Thread*.tla, harness/thread.cpp"""
import random

DRIVERS = ["thread"]
TRACE = "ThreadTrace"


def models(tier, pid):
    x = "" if tier == "quick" else "_t"
    return [("ThreadMC", f"ThreadMC{x}.cfg", 0, None), ("ThreadMC", "ThreadMC_g.cfg" if tier == "quick" else "ThreadMC_gt.cfg", 3000 if tier == "quick" else 60000, None)]


def to_trace(line, ev):
    head = dict(w.split("=", 1) for w in line.split("|")[1].split() if "=" in w)
    body = [{"k": s[0], "a": int(s[1:] or 0)} for s in head["body"].split(",") if s]
    cmds = []
    for c in line.split("|")[2].split(";"):
        w = c.split()
        r = {"c": w[0]}
        if w[0] == "c":
            r["t"] = w[1]
        elif w[0] == "a":
            r["f"], r["rv"] = w[1], w[2] == "r"
        elif w[0] == "C":
            r["j"], r["t"] = int(w[1]), w[2]
        elif w[0] == "O":
            r["k"] = int(w[1])
        elif w[0] == "S":
            r["k"], r["g"] = int(w[1]), int(w[2][1:] or 0)
        elif w[0] == "Z":
            r["k"], r["t"] = int(w[1]), w[2]
        cmds.append(r)
    return {"p": {"body": body, "cmds": cmds}, "ev": ev, "dev": []}


def line(i, body, sch, aw, cmds):
    return f"{i}|body={','.join(body)} sch={sch} aw={aw}|" + ";".join(cmds)


def from_gen(n, g, rnd):
    """a history of ThreadMC; the schedule and what the model does not distinguish are drawn here"""
    cmds = []
    for h in g["h"]:
        c = h["c"]
        if c == "c":
            cmds.append(f"c {rnd.choice('tpoa')}")
        elif c == "a":
            cmds.append(f"a {rnd.choice('drt')} {'r' if h['rv'] else 'l'}")
        elif c == "C":
            cmds.append(f"C {h['j']} {rnd.choice('tpoa')}")
        elif c == "O":
            cmds.append(f"O {h['k']}")
        elif c == "S":
            cmds.append(f"S {h['k']} {'g' + str(h['g']) if h['g'] else 'i'} {rnd.choice('vi')}")
        elif c == "Z":
            cmds.append(f"Z {h['k']} {rnd.choice('tpoa')}")
        else:
            cmds.append(c)
    body = [s["k"] + (str(s["a"]) if s["k"] == "g" else "") for s in g["body"]]
    return line(f"g{n}", body, rnd.randrange(1, 1 << 40), rnd.choice("ap"), finish(cmds, body, rnd))


def gates(body, cmds):
    g = {int(s[1:]) for s in body if s[0] == "g"}
    return sorted(g | {int(c.split()[2][1:]) for c in cmds if c[0] == "S" and c.split()[2][0] == "g"})


def finish(cmds, body, rnd):
    """an end that lets everybody get there"""
    def others(cs):
        return [f"O {k}" for k in gates(body, cmds) if f"O {k}" not in cs]
    out = []
    for c in cmds:
        if c in ("j", "W") and rnd.random() < .93:     # would rarely return otherwise
            out += others(out)
            if "d" in body:
                continue
        out.append(c)
    if rnd.random() < .3:
        out += ["x"] if "a" not in [c[0] for c in cmds] and "d" not in cmds else []
    out += others(out)
    if "d" not in body or any(s in body for s in "st"):
        out += rnd.choice([["W"], ["j", "W"], []])
    if rnd.random() < .8:
        out.append("P")
    return out + ["x"] + rnd.choice([["P"], []])


def rand(n, rnd):
    det = rnd.random() < .1
    body = []
    for _ in range(rnd.choice([0, 1, 1, 2, 2, 3, 4])):
        k = rnd.choice("lyyggggppr" + ("d" if det else ""))
        body.append(k + (str(rnd.choice([1, 1, 2])) if k == "g" else ""))
    det = "d" in body
    end = rnd.random()
    if end < .15:
        body.append("t")
    elif end < .3:
        body.insert(rnd.randint(0, len(body)), "s")
    hard = "t" in body or "s" in body
    cmds = ["n"]
    taken = False        # the state has moved to somebody who awaits
    ended = False        # joined or detached
    stuck = det and not hard
    spawned = 0
    if det:
        stuck = True
    for i in range(rnd.randint(0, 7)):
        k = rnd.choice("cccaaaCCCPPWjdmqJOOOSSZZ")
        if k == "c":
            cmds.append(f"c {rnd.choice('tpoa')}")
        elif k == "a":
            if stuck or (taken and rnd.random() < .5):
                continue
            rv = rnd.random() < .5
            cmds.append(f"a {rnd.choice('drt')} {'r' if rv and not taken else 'l'}")
            taken = True
        elif k == "C":
            aws = [j for j, c in enumerate(cmds, 1) if c[0] == "a"]
            if aws:
                cmds.append(f"C {rnd.choice(aws)} {rnd.choice('tpoa')}")
        elif k in "Wj":
            if not stuck:
                cmds.append(k)
                ended |= k == "j"
        elif k == "d":
            if rnd.random() < .4 and not stuck and not hard and not spawned:
                cmds.append(k)
                ended = True
        elif k == "O":
            cmds.append(f"O {rnd.choice([1, 1, 2, 3])}")
        elif k == "S":
            if "d" in cmds:
                continue
            spawned += 1
            cmds.append(f"S {spawned} {rnd.choice(['i', 'g1', 'g2', 'g3'])} {rnd.choice('vi')}")
        elif k == "Z":
            if spawned:
                cmds.append(f"Z {rnd.randint(1, spawned)} {rnd.choice('tpoa')}")
        else:
            cmds.append(k)
    if stuck:     # only destroying it ends it
        return line(f"r{n}", body, rnd.randrange(1, 1 << 40), rnd.choice("ap"), cmds + ["x", "P"])
    return line(f"r{n}", body, rnd.randrange(1, 1 << 40), rnd.choice("ap"), renumber(cmds, finish(cmds, body, rnd)))


def renumber(old, new):
    """awaiters are named by the position of their command"""
    pos, j = {}, 0
    for i, c in enumerate(new, 1):
        if j < len(old) and c == old[j]:
            pos[j + 1] = i
            j += 1
    out = []
    for c in new:
        if c[0] == "C":
            _, k, t = c.split()
            c = f"C {pos.get(int(k), 0)} {t}"
        out.append(c)
    return out


def rand_for(i, rnd, pid):
    return rand(i, rnd)


def scenarios(tier, seed, gens, pid):
    rnd = random.Random(f"{seed}/{pid}/thread")
    out = [from_gen(i, g, rnd) for i, g in enumerate(gens)]
    n = 9000 if tier == "quick" else 120000
    return out + [rand(i, rnd) for i in range(n)]
