"""promise, task, generator, detached, spawn: spec/Coro*.tla, harness/coro.cpp"""
import random

DRIVERS = ["coro"]
TRACE = "CoroTrace"


MODELS = {"C09": "p", "C10": "pc", "C11": "pc", "C12": "tx", "C13": "t", "C14": "g", "C15": "g", "C16": "g", "C17": "w", "C18": "q", "C20": "p", "C22": "pg", "C23": "x"}


def models(tier, pid):
    x = "" if tier == "quick" else "t"
    keep = (3000 if tier == "quick" else 60000) // len(MODELS[pid])
    return [("CoroMC", f"CoroMC_{m}{x}.cfg", keep, None) for m in MODELS[pid]]


def unparse(i):
    """instruction of the specification -> text"""
    o, a, b = i["op"], i["a"], i["b"]
    if o == "w":
        t = f"{i['mode']}{a}:{b}"
        return t[0].upper() + t[1:] if i["up"] else t
    if o == "o":
        return ("O" if i["up"] else "o") + str(a) + (":p" if i["r"] == "p" else "")
    if o in "izbRh":
        return o.upper() if i["up"] else o
    if o == "s":
        return "s" if i["n"] == 0 else f"s{a}" if i["n"] == 1 and b == 0 else f"s{a}:{b}"
    if o == "A":
        return f"A{a}" + (":1" if i["up"] else "")
    if o == "B":
        return f"B{a}:{b}" + (":1" if i["up"] else "")
    if o in "nkaNGpKg":
        return f"{o}{a}:{b}"
    return f"{o}{a}"


def from_gen(n, g, rnd):
    body = [f"c{c}={p['kind']}:" + ",".join(unparse(i) for i in p["body"]) for c, p in enumerate(g["prog"], 1)]
    xs = ",".join(str(c) for c, p in enumerate(g["prog"], 1) if p["x"])
    xs = f" x={xs}" if xs else ""
    cmds = [f"{i['op']} {i['a']} {i['b']}" if i["op"] in "CEID" else i["op"] if i["op"] in "PQX" else unparse(i) for i in g["h"]]
    return f"g{n}|{' '.join(body)}{xs} end={rnd.choice('vc')} hx={int(g['hx'])}|" + ";".join(cmds)


def num(s):
    n = ""
    for ch in s:
        if not ch.isdigit():
            break
        n += ch
    return int(n or 0)


def parse(tok):
    """the same as parse() of the driver"""
    o, args = tok[0], (tok[1:].split(":") if len(tok) > 1 else [])
    i = {"op": o, "up": False, "a": 0, "b": 0, "n": len(args), "r": "a", "mode": "w"}
    if args:
        i["a"] = num(args[0])
    if len(args) > 1:
        i["b"] = num(args[1])
    if any(a[:1] == "p" for a in args[1:3]):
        i["r"] = "p"
    if o in "WUVOH":
        i["up"], i["op"] = True, o.lower()
    if o == "A":
        i["up"] = i["b"] == 1
    if o == "B":
        i["up"] = len(args) > 2 and args[2] == "1"
    if i["op"] in "wuv":
        i["mode"], i["op"] = i["op"], "w"
    if i["op"] == "o" and len(args) > 1 and args[1][:1] in ("w", "u", "v"):
        i["mode"] = args[1][0]
    return i


def command(words):
    if words[0][0] in "CEIDPQX" and len(words[0]) == 1:
        return {"op": words[0], "up": False, "a": int(words[1]) if len(words) > 1 else 0, "b": int(words[2]) if len(words) > 2 else 0,
                "n": len(words) - 1, "r": "a", "mode": "w"}
    return parse(words[0])


def to_trace(line, ev):
    parts = line.split("|")
    prog, nops, hx, ctxfirst, xs = {}, 0, False, False, set()
    for w in parts[1].split():
        k, _, v = w.partition("=")
        if k[0] == "c" and len(k) > 1:
            prog[int(k[1:])] = {"kind": v[0], "body": [parse(t) for t in v[2:].split(",") if t], "x": False}
        elif k == "hx":
            hx = v == "1"
        elif k == "x":
            for t in v.split(","):
                xs.add(int(t))
        elif k == "end":
            ctxfirst = v == "c"
    for c, p in prog.items():
        p["x"] = c in xs
        for i in p["body"]:
            if i["op"] == "o":
                nops = max(nops, i["a"])
    cmds = [command(c.split()) for c in parts[2].split(";") if c.strip()] if len(parts) > 2 else []
    return {"prog": [prog[c] for c in sorted(prog)], "nops": nops, "hx": hx, "ctxfirst": ctxfirst, "dev": [], "cmds": cmds, "ev": ev}


# ---------------------------------------------------------------------------------------------- scenarios
# weights: kinds, instructions of coroutines, commands
DEF = dict(kinds="ppPttTggGGd", co=dict(m=3, l=3, w=9, o=6, h=1, x=1, n=1, k=.5, a=.3, e=.3, q=.5, j=.4, S=1, N=.3, c=.5, z=.6, s=.6, b=.3, t=.5),
           cmd=dict(m=6, C=7, E=2, n=3, x=2, k=1, a=.6, e=.7, q=1.2, j=.8, S=1.5, N=.8, I=2, D=.8, P=4, Q=3, X=1),
           start=.2, up=.3, hx=.5, endc=.5, calm=.3, withs=.06, groups=.1, other=.2)


def prof(**kw):
    p = {**DEF, **{k: v for k, v in kw.items() if k not in ("co", "cmd")}}
    p["co"] = {**DEF["co"], **kw.get("co", {})}
    p["cmd"] = {**DEF["cmd"], **kw.get("cmd", {})}
    return p


PROF = {
    "C09": prof(kinds="pppPPptg", cmd=dict(q=3, k=3, j=2, a=1, S=.3, N=.1), co=dict(q=1, k=1, j=1, w=12)),
    "C10": prof(kinds="pppPPtgd", cmd=dict(x=5, n=5, e=4, a=2, S=.5), co=dict(x=3, e=2, n=2, a=1, z=2)),
    "C11": prof(kinds="ppPttTgGd", cmd=dict(n=8, D=3, N=3, S=2, I=1), co=dict(c=2, z=3, s=3, w=12, h=2)),
    "C12": prof(kinds="ttttTTpPg", other=.4, co=dict(l=5, w=14, k=1.5, x=2, S=2, b=1.5), cmd=dict(k=3, S=3, x=3)),
    "C13": prof(kinds="tttTTpg", other=.3, co=dict(S=3, N=1, w=9, b=1), cmd=dict(S=8, N=5, X=3), start=.7),
    "C14": prof(kinds="gggggpptd", co=dict(y=0, w=16, q=1.5, j=1.5, k=1), cmd=dict(q=3, j=3, k=2, I=4), calm=.5),
    "C15": prof(kinds="GGGGGpptd", co=dict(w=16, q=.5, j=1.5), cmd=dict(j=2.5, I=5, S=.5), calm=.5),
    "C16": prof(kinds="gGgGGptd", co=dict(w=10, x=3, n=3, a=1, l=5), cmd=dict(x=6, n=6, a=2, I=3)),
    "C17": prof(kinds="pppPPttTgd", withs=.4, cmd=dict(n=4, x=2, S=2, q=.3, j=.3), co=dict(c=1, s=.5, z=.6), start=.5),
    "C18": prof(kinds="pPPPPPPPT", groups=.95, calm=.5, up=.5, withs=.15, cmd=dict(C=10, E=4, j=.1, a=.2, e=.4, S=.4, N=.1), co=dict(o=8)),
    "C23": prof(other=1, kinds="pPttTTgGd", co=dict(b=4, o=9, w=12), cmd=dict(X=4, S=2), calm=.6, start=.3),
    "C22": prof(groups=.25, withs=.12),
}


def pick(rnd, w):
    return rnd.choices(list(w), list(w.values()))[0]


def rand(n, rnd, p):
    nco = rnd.choice([2, 2, 3, 3, 4, 5, 6])
    kinds = [rnd.choice(p["kinds"]) for _ in range(nco)]
    gens = [c for c in range(1, nco + 1) if kinds[c - 1] in "gG"]
    if kinds[0] in "gGtT" and rnd.random() < .8:   # somebody has to await
        kinds[0] = rnd.choice("pPd")
    for c in range(2, nco):
        if rnd.random() < p["withs"]:
            kinds[c - 1] = "w"
            for d in range(c + 1, nco + 1):
                if rnd.random() < .7:
                    kinds[d - 1] = rnd.choice("pPtT")
    gens = [c for c in range(1, nco + 1) if kinds[c - 1] in "gG"]
    nops = 0
    calm = rnd.random() < p["calm"]
    val = iter(range(1, 10000))
    def up(o):
        return o.upper() if rnd.random() < p["up"] else o
    def ctype():
        return rnd.choice([7, 7, 7, 1, 2, 4, 4, 3, 9])
    def var(lo):
        if rnd.random() < .1:
            return rnd.choice([20, 20, 21, 22])
        return rnd.randint(lo, nco) if lo <= nco else 20
    grp = rnd.random() < p["groups"]
    def gtypes():
        return 10 * rnd.choice([0, 0, 7, 7, 1, 4]) + rnd.choice([7, 7, 0, 4])
    def ginstr(c):      # instructions on groups
        g = rnd.choice([1, 1, 1, 2])
        x = rnd.random()
        Ps = [d for d in range(c + 1, nco + 1) if kinds[d - 1] == "P"]
        if x < .1:
            return [f"G{g}:{gtypes()}"]
        if x < .5 and Ps:
            d = rnd.choice(Ps)
            return [f"{'l' if c else 'm'}{d}", f"p{d}:{g}"]
        if x < .6:
            return [f"p{rnd.randint(1, nco)}:{g}"]
        if x < .7:
            return [f"K{g}:{ctype()}"]
        if x < .8:
            return [f"Y{g}"]
        if x < .9:
            return [f"M{g}"]
        if x < .92:
            return [f"F{g}"]
        return [f"B{g}:{rnd.choice([1, 1, 2, 3])}" + rnd.choice(["", ":1"])] if c else [f"M{g}"]
    progs = []
    opdir = rnd.random() < .9
    for c in range(1, nco + 1):
        k = kinds[c - 1]
        b = []
        if k == "w":
            subs = [d for d in range(c + 1, nco + 1) if kinds[d - 1] in "pPtT"]
            rnd.shuffle(subs)
            for part in (0, 1):
                x = rnd.random()
                if subs and x < .55:
                    if part and kinds[subs[-1] - 1] == "t":
                        kinds[subs[-1] - 1] = "T"
                    b.append(f"c{subs.pop()}")
                elif part and grp and x < .8:
                    b.append(f"g{rnd.choice([1, 1, 2])}:{gtypes()}")
                elif x < .8:
                    nops += 1
                    b.append(f"o{nops}" + (":p" if rnd.random() < .3 else ""))
                elif part or x < .85:
                    b.append(f"e{next(val)}")
                else:
                    b.append(rnd.choice("sSSzZ") + str(next(val)))
            if rnd.random() < .35:
                b.append(f"m{next(val)}")
            if rnd.random() < .3:
                b.append("n")
            if rnd.random() < .4:
                b.append("x")
            progs.append(f"c{c}=w:{','.join(b)}")
            continue
        if k in "gG" and rnd.random() < .5:
            b.append("i")
        if k == "d" and rnd.random() < .6:
            b.append("R")
        ln = rnd.choice([1, 2, 3, 4, 5, 6]) + (2 if c < nco and k not in "gG" else 0) + (rnd.choice([0, 2, 4]) if k in "gG" else 0)
        made = []
        while len(b) < ln:
            o = pick(rnd, p["co"]) if not (k in "gG" and rnd.random() < .45) else "y"
            if calm and o in "nkaetxN" and rnd.random() < .8:
                continue
            if grp and rnd.random() < .35:
                b.extend(ginstr(c))
                while rnd.random() < .4:
                    b.extend(ginstr(c))
                if b[-1][0] == "p" and rnd.random() < .4:
                    b.append(f"B{b[-1].split(':')[1]}:{rnd.choice([1, 1, 2, 3])}" + rnd.choice(["", ":1"]))
                continue
            if o == "y":
                if k in "gG":
                    b.append(f"y{next(val)}")
            elif o in "ml":
                fresh = [d for d in range(c + 1, nco + 1) if d not in made]
                if fresh:
                    d = fresh[0] if rnd.random() < .7 else rnd.choice(fresh)
                    made.append(d)
                    if kinds[d - 1] == "w":
                        b.append(f"A{d}" + rnd.choice(["", "", ":1"]))
                        continue
                    b.append(f"{o}{d}")
                    if rnd.random() < .8:
                        cnt = rnd.randint(1, 5) if kinds[d - 1] in "gG" else 1
                        for _ in range(cnt):
                            w = up(rnd.choice("wwuv"))
                            b.append(f"{w}{d}" + (f":{next(val)}" if kinds[d - 1] == "G" else ""))
            elif o == "w":
                d = var(c + 1)
                if gens and rnd.random() < .4 and gens[-1] > c:
                    d = rnd.choice([g for g in gens if g > c])
                b.append(f"{up(rnd.choice('wwuv'))}{d}:{next(val)}")
            elif o == "o":
                nops += 1
                s = up("o") + str(nops if opdir else rnd.randint(1, nops))
                if rnd.random() < .4:
                    s += ":" + rnd.choice("wuv")
                if rnd.random() < .3:
                    s += ":p"
                b.append(s)
            elif o == "h":
                b.append(up("h"))
            elif o in "xefqjS":
                b.append(f"{o}{var(c + 1)}")
                if o == "e" and rnd.random() < .3:
                    b[-1] += ":1"
                if o == "e" and rnd.random() < .3:
                    b.append(f"f{b[-1][1:].split(':')[0]}")
            elif o == "n":
                b.append(f"n{rnd.randint(1, nco)}:{ctype()}")
            elif o == "N":
                b.append(f"N{rnd.randint(1, nco)}:{rnd.choice([7, 1, 4])}")
            elif o == "k":
                b.append(f"k{var(c + 1)}:{rnd.choice([20, 21, 22])}")
            elif o == "a":
                b.append(f"a{var(c + 1)}:{var(c + 1)}")
            elif o == "c":
                b.append(f"c{rnd.choice([0, 0, 1])}")
            elif o == "s":
                b.append(rnd.choice(["s", f"s{rnd.choice([7, 4, 1, 0, 3])}", f"s{rnd.choice([7, 4, 3])}:{rnd.choice([7, 4, 1, 0])}"]))
            elif o in "zb":
                b.append(o)
            elif o == "t":
                if rnd.random() < .5:
                    b.append(f"t{next(val)}")
                    break
        if not b or b[-1][0] not in "rt":
            x = rnd.random()
            if x < .15:
                b.append(f"t{next(val)}")
            elif x < .9:
                b.append(f"r{next(val)}")
        progs.append(f"c{c}={kinds[c-1]}:{','.join(b)}")
    cmds = []
    others = sorted({rnd.randint(1, nco) for _ in range(rnd.choice([1, 1, 2, 3]))}) if rnd.random() < p["other"] else []
    if grp:
        cmds.append(f"G1:{gtypes()}")
        if rnd.random() < .3:
            cmds.append(f"G2:{gtypes()}")
    if rnd.random() < .9:
        cmds.append("m1")
        if kinds[0] in "tT" and rnd.random() < p["start"]:
            cmds.append("S1")
    for _ in range(rnd.randint(1, 14)):
        if grp and rnd.random() < .25:
            cmds.extend(ginstr(0))
            continue
        o = pick(rnd, p["cmd"]) if not others or rnd.random() < .85 else "X"
        if calm and o in "nkaexEN" and rnd.random() < .8:
            continue
        if o == "m":
            d = rnd.randint(1, nco)
            cmds.append(f"m{d}")
            if kinds[d - 1] in "tT" and rnd.random() < p["start"]:
                cmds.append(f"S{d}")
        elif o in "CE":
            if nops:
                for _ in range(rnd.choice([1, 1, 2])):
                    cmds.append(f"{o} {rnd.randint(1, nops)} {next(val)}")
        elif o == "I":
            cmds.append(f"I {rnd.randint(1, nco)}")
        elif o == "D":
            cmds.append(f"D {rnd.randint(1, nco)} {rnd.choice([7, 1, 4])}")
        elif o in "PQX":
            cmds.append(o)
        elif o == "n":
            cmds.append(f"n{rnd.randint(1, nco)}:{ctype()}")
        elif o == "N":
            cmds.append(f"N{rnd.randint(1, nco)}:{rnd.choice([7, 1, 4])}")
        elif o == "k":
            cmds.append(f"k{var(1)}:{rnd.choice([20, 21, 22])}")
        elif o == "a":
            cmds.append(f"a{var(1)}:{var(1)}")
        elif o == "e":
            d = var(1)
            cmds.append(f"e{d}" + (":1" if rnd.random() < .3 else ""))
            if rnd.random() < .3:
                cmds.append(f"f{d}")
        else:
            cmds.append(f"{o}{var(1)}")
    if rnd.random() < .6:
        for k in range(1, nops + 1):
            if rnd.random() < .8:
                cmds.append(f"C {k} {next(val)}")
                if rnd.random() < .5:
                    cmds.append(rnd.choice("QX") if others else "Q")
        cmds.append("Q")
        if rnd.random() < .5:
            cmds += ["X", "X", "Q", "X"] if others else ["X"]
    head = " ".join(progs) + (" x=" + ",".join(map(str, others)) if others else "") + f" end={'c' if rnd.random() < p['endc'] else 'v'} hx={1 if rnd.random() < p['hx'] else 0}"
    return f"r{n}|{head}|" + ";".join(cmds)


def rand_group(n, rnd):
    """one coroutine that fills a group and waits for it, members that fail or complete in any order"""
    nm = rnd.randint(1, 5)
    owned = rnd.random() < .4        # by a with: c1 awaits c2, its body c3 uses the group
    first = 4 if owned else 2
    val = iter(range(1, 10000))
    ops = 0
    members = []
    for _ in range(nm):
        b = []
        for _ in range(rnd.randint(0, 2)):
            x = rnd.random()
            if x < .8:
                ops += 1
                b.append(rnd.choice("oOO") + f"{ops}" + rnd.choice(["", "", ":p"]))
            elif x < .9:
                b.append(rnd.choice(["c0", "z", "s4", "h", "s7:4", "n1:7", "K1:7", "M1", "Y1"]))
            elif x < .95:
                b.append(f"t{next(val)}")
        b.append(rnd.choice(["r", "r", "r", "t"]) + str(next(val)))
        members.append(b)
    def types():
        return 10 * rnd.choice([0, 0, 7, 7, 1, 4]) + rnd.choice([7, 7, 0, 4])
    def use(lst):
        lst = list(lst)
        b = []
        while lst or rnd.random() < .5:
            x = rnd.random()
            if lst and x < .55:
                d = lst.pop()
                b += [f"l{d}", f"p{d}:1"]
                if rnd.random() < .1:
                    b.insert(-1, f"e{d}")
            elif x < .75:
                b.append(f"B1:{rnd.choice([1, 1, 1, 2, 3])}" + rnd.choice(["", "", ":1"]))
            elif x < .8:
                b.append(f"K1:{rnd.choice([7, 1, 4, 9])}")
            elif x < .9:
                b.append(rnd.choice(["M1", "Y1"]))
            elif x < .94:
                b.append(rnd.choice(["c0", "n1:7", "s4", "h"]))
        for _ in range(rnd.randint(0, 3)):
            b.append(f"B1:{rnd.choice([1, 1, 2, 3])}" + rnd.choice(["", "", ":1"]))
        b.append(rnd.choice(["r", "r", "t"]) + str(next(val)))
        return b
    ids = list(range(first, first + nm))
    late = [d for d in ids if rnd.random() < .2]      # pushed by the main program
    mine = [d for d in ids if d not in late]
    if owned:
        progs = [["A2" + rnd.choice(["", ":1"]), f"r{next(val)}"], None, use(mine)]
        k3 = rnd.choice("pPtT")
        tail = rnd.choice(["", "", ",n", f",m{next(val)}"])
        heads = [f"c1={rnd.choice('pPd')}:{','.join(progs[0])}", f"c2=w:c3,g1:{types()}{tail}", f"c3={k3}:{','.join(progs[2])}"]
    else:
        heads = [f"c1={rnd.choice('ppPd')}:{','.join(use(mine))}"]
    heads += [f"c{d}=P:{','.join(b)}" for d, b in zip(ids, members)]
    cmds = ([] if owned else [f"G1:{types()}"]) + (["m1"] if rnd.random() < .8 else [])
    todo = [f"{rnd.choice('CCE')} {k} {next(val)}" for k in range(1, ops + 1)]
    rnd.shuffle(todo)
    for d in late:
        todo.insert(rnd.randint(0, len(todo)), f"m{d};p{d}:1")
    if "m1" not in cmds:
        todo.insert(rnd.randint(0, len(todo)), "m1")
    for t in todo:
        if rnd.random() < .9:
            cmds.append(t)
        while rnd.random() < .5:
            cmds.append(rnd.choice(["P", "P", "Q", "M1", "Y1", f"K1:{rnd.choice([7, 1, 4])}", f"n1:{rnd.choice([7, 1, 4])}", "F1", "x1", "e1", "D 1 7"]))
    if rnd.random() < .7:
        cmds += ["Q", "M1", "Y1"]
    return f"q{n}|{' '.join(heads)} end={rnd.choice('vc')} hx=0|" + ";".join(cmds)


def rand_moves(n, rnd, kinds):
    """objects of one kind that are moved, assigned and overwritten while they work, and a coroutine that awaits them"""
    k = rnd.choice(kinds)
    nm = rnd.randint(2, 3)
    inner = rnd.random() < .5        # the coroutine owns them
    val = iter(range(1, 10000))
    ids = list(range(2, 2 + nm))
    ops = 0
    bodies = []
    for _ in ids:
        b = ["i"] if k in "gG" and rnd.random() < .4 else []
        for _ in range(rnd.randint(1, 5)):
            x = rnd.random()
            if x < .4:
                ops += 1
                b.append(rnd.choice("oO") + f"{ops}" + rnd.choice(["", "", "", ":p"]))
            elif k in "gG" and x < .95:
                b.append(f"y{next(val)}")
            elif x < .97:
                b.append(rnd.choice(["h", "z", "c0", "s4"]))
            else:
                break
        b.append(rnd.choice(["r", "r", "r", "t"]) + str(next(val)))
        bodies.append(b)
    def v():
        return rnd.choice(ids + ids + [20, 21])
    def change():
        x = rnd.random()
        if x < .5:
            return f"a{v()}:{v()}"
        if x < .8:
            return f"k{v()}:{rnd.choice([20, 21])}"
        return f"x{v()}"
    def wait():
        return rnd.choice("wwWuv") + f"{v()}:{next(val)}"
    me = []
    if inner:
        for d in ids:
            me.append(f"l{d}")
            if rnd.random() < .6:
                me.append(f"w{d}:{next(val)}")
    for _ in range(rnd.randint(3, 10)):
        x = rnd.random()
        if x < .55:
            me.append(wait())
        elif x < .75 and inner:
            me.append(change())
        elif x < .85:
            ops += 1
            me.append(f"o{ops}")
        elif x < .92:
            me.append(rnd.choice("qj") + str(v()))
        elif x < .97:
            me.append(f"n{v()}:{rnd.choice([7, 1, 4])}")
    cmds = ([] if inner else [f"m{d}" for d in ids]) + ["m1"]
    if rnd.random() < .3:
        rnd.shuffle(cmds)
    todo = [f"{rnd.choice('CCCE')} {j} {next(val)}" for j in range(1, ops + 1)]
    if rnd.random() < .5:
        rnd.shuffle(todo)
    for t in todo:
        if rnd.random() < .9:
            cmds.append(t)
        while rnd.random() < .5:
            x = rnd.random()
            cmds.append(rnd.choice(["P", "P", "Q"]) if x < .5 or (inner and x < .8) else change() if x < .8 else rnd.choice(["I 1", f"n{v()}:7", f"q{v()}", f"j{v()}", "Q"]))
    cmds += ["Q", f"q{v()}"]
    heads = [f"c1={rnd.choice('ppPtd')}:{','.join(me)},r1"] + [f"c{d}={k}:{','.join(b)}" for d, b in zip(ids, bodies)]
    if heads[0][3] == "t":
        cmds[cmds.index("m1"):cmds.index("m1") + 1] = ["m1", "S1", "P"]
    return f"v{n}|{' '.join(heads)} end={rnd.choice('vc')} hx=0|" + ";".join(cmds)


MOVES = {"C09": ("pP", .3), "C10": ("pP", .3), "C14": ("gG", .3), "C15": ("G", .35), "C16": ("gG", .4), "C22": ("pPgG", .15), "C12": ("tT", .1)}


def rand_for(i, rnd, pid):
    if pid in MOVES and rnd.random() < MOVES[pid][1]:
        return rand_moves(i, rnd, MOVES[pid][0])
    return rand_group(i, rnd) if pid == "C18" and rnd.random() < .7 else rand(i, rnd, PROF.get(pid, DEF))


def scenarios(tier, seed, gens, pid):
    rnd = random.Random(f"{seed}/{pid}/coro")
    n = 6000 if tier == "quick" else 100000
    out = [from_gen(i, g, rnd) for i, g in enumerate(gens)]
    return out + [rand_for(i, rnd, pid) for i in range(n)]
