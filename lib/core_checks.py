"""Scripts for dcspark-core (C01..C06). The judgement is in the trace specifications."""
import itertools, shutil
from core import *

U64 = 2**64 - 1


def run(chk, module, traces, what, chunk=None, keep=None):
    binp = build("hcore")
    outp = f"{rundir()}/{module}.out"
    got, todo, k = [], traces, 0
    while todo:
        k += 1
        p = run_harness([binp, chk.file(f"{module}.script", todo), outp], timeout=600)
        rows = [r for r in read_ndjson(outp) if "ev" in r]
        got += rows
        if len(rows) >= len(todo):
            break
        chk.violation(dict(kind="crash" if p else "hang", what=what, trace=todo[len(rows)],
                           detail=f"process ended with {p.returncode}: {p.stderr[-400:]}" if p else "did not finish"))
        todo = todo[len(rows) + 1:]
        if len(chk.violations) > 3:
            break
    if keep:
        for t in got:
            keep(t)
    chk.validate(module, got, what=what, chunk=chunk)


# -- numbers --------------------------------------------------------------------------------------
def c05(chk):
    rng, big = chk.rng, chk.thorough
    pool = {0, 1, 2, 9, 10, 99, 9999, 10000, 10001}
    for k in (8, 16, 31, 32, 33, 48, 52, 53, 63, 64):
        pool |= {2**k + d for d in (-2, -1, 0, 1) if 0 <= 2**k + d <= U64}
    for k in range(1, 20):
        pool |= {10**k - 1, 10**k}
    pool |= {U64 - k for k in range(0, 12)}
    if big:
        for _ in range(400):
            pool.add(rng.getrandbits(rng.randrange(1, 65)))
    pool = sorted(x for x in pool if x <= U64)
    small = [x for x in pool if x < 20 or x > 2**63 - 4] if not big else pool
    types = ["block", "slot", "output", "time"]
    ops = []
    for ty in types:
        for x in pool:
            for op in ("new", "show", "write", "checked_next", "saturating_next"):
                ops.append(dict(ty=ty, op=op, x=str(x), y="0"))
            for t, o in ((str(x), "parse"), (str(x), "json"), (f'"{x}"', "json"), (str(x), "from_value"), (f'"{x}"', "from_value")):
                ops.append(dict(ty=ty, op=o, x="0", y="0", t=t))
        for x, y in itertools.product(small if not big else pool[::2], small if not big else pool[1::2]):
            for op in ("cmp", "checked_add", "saturating_add", "saturating_sub"):
                ops.append(dict(ty=ty, op=op, x=str(x), y=str(y)))
        # pairs around the limit: x + y is 2^64 - 1 + d
        for x in pool:
            for d in (-2, -1, 0, 1, 2):
                y = U64 + d - x
                if 0 <= y <= U64:
                    for op in ("checked_add", "saturating_add"):
                        ops.append(dict(ty=ty, op=op, x=str(x), y=str(y)))
            for d in (-1, 0, 1):
                if 0 <= x + d <= U64:
                    for op in ("cmp", "saturating_sub"):
                        ops.append(dict(ty=ty, op=op, x=str(x), y=str(x + d)))
        texts = [str(U64 + 1), str(U64 + 2), str(10**19), str(10**20 - 1), str(10**20), str(2**65), str(2**128), str(2**64 + 10**19), "184467440737095516150",
                 "", " ", "-", "+", "-0", "-1", "+1", "00", "01", "0001", "0" * 25, "0" * 25 + "1", "000018446744073709551615", "000018446744073709551616",
                 "1.0", "1.", ".1", "1e3", "1E3", "0x10", "1_000", "1 ", " 1", "1 2", "1\n", "\t1", "\u0661", "１", "a", "1a", "a1", "null", "true", "NaN", "inf", "--1", "1-1", "1+1", "'1'", "1,000"]
        for t in texts:
            ops.append(dict(ty=ty, op="parse", x="0", y="0", t=t))
            for o in ("json", "from_value"):
                ops.append(dict(ty=ty, op=o, x="0", y="0", t=t))
                ops.append(dict(ty=ty, op=o, x="0", y="0", t=json.dumps(t)))
        for t in ["[1]", "{}", "[]", '{"n":1}', "false", '"1', '1"', '""', '"\\u0031"', '"1\\n"', "1.5", "-5", "1e0", "10e1", "1.0e2", '"-5"', '"1.0"', '"true"']:
            if "\\u0031" in t:
                continue
            for o in ("json", "from_value"):
                ops.append(dict(ty=ty, op=o, x="0", y="0", t=t))
    for _ in range(40000 if big else 3000):
        ty, x = rng.choice(types), rng.getrandbits(rng.randrange(1, 65))
        op = rng.choice(["checked_add", "saturating_add", "saturating_sub", "cmp", "checked_next", "show", "parse", "json"])
        o = dict(ty=ty, op=op, x=str(x), y=str(rng.getrandbits(rng.randrange(1, 65))))
        if op in ("parse", "json"):
            s = str(rng.getrandbits(rng.randrange(1, 70)))
            if rng.random() < 0.3:
                j = rng.randrange(len(s) + 1)
                s = s[:j] + rng.choice("+-. eE0_x") + s[j:]
            o["t"] = s if op == "parse" or rng.random() < 0.5 else f'"{s}"'
        ops.append(o)
    n = 60
    tr = [dict(id=f"n-{k}", kind="num", ops=ops[k:k + n]) for k in range(0, len(ops), n)]
    chk.cov["operations"] = len(ops)
    run(chk, "NumbersTrace", tr, "boundary values and texts", chunk=4000)


# -- decimals -------------------------------------------------------------------------------------
def d(n, s=0):
    r = dict(d=str(abs(n)), s=s)
    if n < 0:
        r["neg"] = True
    return r


def magnitude(rng, digits=40):
    """Numbers whose decimal picture is special: few digits, zeros at the end, carries, long ones."""
    x = rng.random()
    if x < 0.25:
        return rng.randrange(0, 20)
    if x < 0.4:
        return 10 ** rng.randrange(0, digits) + rng.choice([-1, 0, 0, 1])
    if x < 0.55:
        return rng.randrange(1, 1000) * 10 ** rng.randrange(0, digits - 3)
    if x < 0.7:
        return 2 ** rng.randrange(0, 128) + rng.choice([-1, 0, 1])
    return rng.randrange(0, 10 ** rng.randrange(1, digits))


def decimals(chk):
    """The arithmetic the judgement relies on is itself checked against the integers."""
    if chk.thorough:
        for k in (1, 2, 4):
            chk.model("DecMC", f"DecMC_{k}.cfg", f"decimal arithmetic with limbs of {k} digits agrees with the integers")
    else:
        chk.model("DecMC", "DecMC_q.cfg", "decimal arithmetic agrees with the integers")


def c03(chk):
    rng, n = chk.rng, chk.thorough
    decimals(chk)
    chk.model_bad("BalanceGen", "BalanceGen_bad.cfg", "a debt paid exactly stays a debt of zero")
    tr = []
    hs = chk.histories("BalanceGen", "BalanceGen.cfg", 4000 if n else 900)
    for k, h in enumerate(hs):
        unit, sc = magnitude(rng, 30) or 1, rng.choice([0, 0, 0, 1, 6, 18])
        ops = []
        for o in h:
            e = dict(op=o["op"], a=o["a"], how=rng.choice(["owned", "ref", "assign", "assignref"]))
            if o["op"] == "join":
                e["b"] = o["b"]
            else:
                # the same number may be written with zeros at the end
                z = rng.choice([0, 0, 0, 1, 3, 7])
                e["v"] = d(o["v"] * unit * 10**z, sc + z)
            ops.append(e)
            if rng.random() < 0.04:
                ops.append(dict(op="zero", a=rng.choice([1, 2])))
        tr.append(dict(id=f"b-{k}", kind="balance", n=2, ops=ops))
    for k in range(3000 if n else 300):
        regs, ops, tot = rng.choice([1, 2, 4]), [], {}
        sc = rng.choice([0, 2, 6])
        for _ in range(rng.choice([10, 30, 60])):
            a, x = rng.randrange(regs) + 1, rng.random()
            if x < 0.42:
                v = rng.choice([magnitude(rng, 25), abs(tot.get(a, 0)), abs(tot.get(a, 0)) + rng.choice([0, 1])])
                s = 1
            elif x < 0.84:
                v = rng.choice([magnitude(rng, 25), abs(tot.get(a, 0)), max(0, abs(tot.get(a, 0)) + rng.choice([-1, 0, 1]))])
                s = -1
            elif x < 0.96:
                b = rng.randrange(regs) + 1
                ops.append(dict(op="join", a=a, b=b))
                tot[a] = tot.get(a, 0) + tot.get(b, 0)
                if abs(tot[a]) > 10**40:
                    ops.append(dict(op="zero", a=a))
                    tot[a] = 0
                continue
            else:
                ops.append(dict(op="zero", a=a))
                tot[a] = 0
                continue
            ops.append(dict(op="add" if s == 1 else "sub", a=a, v=d(v, sc), how=rng.choice(["owned", "ref", "assign", "assignref"])))
            tot[a] = tot.get(a, 0) + s * v
        tr.append(dict(id=f"r-{k}", kind="balance", n=regs, ops=ops))
    run(chk, "BalanceTrace", tr, "histories of additions, removals and joins", chunk=4000)


UNITS = dict(normalized=18, regulated=18, ether=18, ada=6, algo=6, lovelace=0, wei=0, microalgo=0)
CONV = dict(ada=["normalize", "to_lovelace", "into_lovelace", "into_normalized"], lovelace=["normalize", "to_ada", "to_regulated", "into_normalized"],
            regulated=["to_lovelace", "from_mainchain", "from_sidechain"],
            normalized=["to_mainchain", "to_sidechain", "to_ada", "into_ada", "to_lovelace", "into_lovelace", "to_ether", "into_ether", "to_wei", "into_wei", "to_algo", "to_microalgo", "into_microalgo"],
            ether=["normalize", "to_wei", "into_normalized"], wei=["normalize", "to_ether", "into_normalized"],
            algo=["normalize", "to_microalgo", "into_normalized"], microalgo=["normalize", "to_algo", "into_normalized"])
GIVES = {"normalize": "normalized", "into_normalized": "normalized", "from_mainchain": "normalized", "from_sidechain": "normalized", "to_mainchain": "regulated", "to_sidechain": "regulated"}


def gives(f):
    return GIVES.get(f) or f.split("_")[1]


def text(rng, u):
    """A text to be read as an amount of u: well-formed, at the limits, or not a number."""
    mx, x = UNITS[u], rng.random()
    i = str(magnitude(rng, 25)) if rng.random() < 0.7 else rng.choice(["0", "00", "1", "45000000000000000", "18446744073709551616"])
    f = rng.choice([0, 0, mx, mx, max(mx - 1, 0), mx + 1, mx + 2, rng.randrange(0, 25)])
    fr = "".join(rng.choice("0123456789") for _ in range(f))
    if f and rng.random() < 0.4:
        fr = rng.choice(["0" * f, "0" * (f - 1) + "1", "9" * f, fr[:-1] + "0", "0" * (f - 1) + "5"])
    t = i + ("." + fr if fr else "")
    if x < 0.7:
        return t
    return rng.choice(["-" + t, "+" + t, t + "e0", t + "E3", t + "e-2", t + "e-20", "." + (fr or "5"), i + ".", "", " ", "-", ".", "e5", "1e", t + " ", " " + t, t + ".1", "1,5", "0x1F", "NaN", "inf", "-0", "-0.0",
                       "--1", "+-1", "1-", t + "x", "x" + t, "1..2", "1.2.3", "٣", "1 000", "-" + i, "-0.000001", "-0." + "0" * 19 + "1"])


def setv(rng, u, a):
    mx = UNITS[u]
    s = rng.choice([0, 0, mx, rng.randrange(0, mx + 1), rng.choice([-3, -16, -20])])
    return dict(op="set", a=a, u=u, v=d(magnitude(rng, 30), s))


def c04(chk):
    rng, n = chk.rng, chk.thorough
    decimals(chk)
    chk.model_bad("ValuesGen", "ValuesGen_bad.cfg", "a conversion shifts twice")
    tr = []

    def number(k):
        return str(rng.choice([0, 1, 2, 3, 7, 10, 1000, 10**6, 2**32 - 1, rng.randrange(1, 2**32)] + ([2**32, 2**63, 2**64 - 1, rng.getrandbits(64)] if k else [])))

    def mul(a, x):
        how = rng.choice(["u32", "ru32", "usize", "rusize"])
        return dict(op="mul", a=a, x=x, how=how, n=number("u32" not in how))

    def div(a, x):
        return dict(op="div", a=a, x=x, how=rng.choice(["owned", "ref"]), n=str(rng.choice([1, 2, 4, 5, 8, 10, 100, 2**20, 10**18, 3, 7, rng.randrange(1, 1000)])))

    def addsub(o, a, x, y):
        return dict(op=o, a=a, x=x, y=y, how=rng.choice(["oo", "ro", "rr", "or", "assign", "assignref"] if o == "add" else ["oo", "rr", "or", "assign", "assignref"]))

    for k, h in enumerate(chk.histories("ValuesGen", "ValuesGen.cfg", 6000 if n else 1200)):
        ops, pm, ps = [setv(rng, "lovelace", 1), setv(rng, "lovelace", 2)], rng.choice([6, 6, 0, 3, 18]), rng.choice([18, 18, 6, 0])
        for o in h:
            e = dict(op=o["op"], a=o["a"], x=o["x"], y=o["y"], how=o["how"])
            if o["op"] == "set":
                e = setv(rng, o["u"], o["a"])
            elif o["op"] == "conv":
                e.update(pm=pm, ps=ps)
                if (pm, ps) == (0, 18) and rng.random() < 0.5:
                    e["erc20"] = True
            elif o["op"] in ("add", "sub"):
                e = addsub(o["op"], o["a"], 1, 2)
            elif o["op"] == "mul":
                e = mul(o["a"], o["x"])
            elif o["op"] == "div":
                e = div(o["a"], o["x"])
            ops.append(e)
            # the result is shown, compared and truncated
            if o["op"] == "conv" and rng.random() < 0.5:
                ops.append(dict(op="trunc", a=3, x=o["a"], y=o["a"]))
                ops.append(dict(op="show", a=3, x=3, y=3))
        tr.append(dict(id=f"g-{k}", kind="value", n=3, ops=ops))
    for k in range(4000 if n else 500):
        # a calculator with registers of any unit
        R, unit, ops = 4, ["lovelace"] * 5, []
        for _ in range(rng.choice([10, 20, 40])):
            a, x, c = rng.randrange(R) + 1, rng.randrange(R) + 1, rng.random()
            u = unit[x]
            same = [r for r in range(1, R + 1) if unit[r] == u]
            y = rng.choice(same)
            if c < 0.14:
                u = rng.choice(list(UNITS))
                ops.append(setv(rng, u, a))
                unit[a] = u
            elif c < 0.2:
                u = rng.choice(list(UNITS))
                ops.append(dict(op="const", a=a, u=u, how=rng.choice(["zero", "one", "u64"]), n=number(True)))
                unit[a] = u
            elif c < 0.36:
                u = rng.choice(list(UNITS))
                t = text(rng, u)
                if rng.random() < 0.7:
                    ops.append(dict(op="parse", a=a, u=u, t=t))
                else:
                    ops.append(dict(op="json", a=a, u=u, t=rng.choice([json.dumps(t), t, str(rng.getrandbits(rng.randrange(1, 64)))])))
                # whether it is accepted, and with it the unit of the register, is not known here: start afresh
                ops.append(dict(op="show", a=a, x=a))
                ops.append(setv(rng, u, a))
                unit[a] = u
            elif c < 0.58:
                f = rng.choice(CONV[u])
                ops.append(dict(op="conv", a=a, x=x, how=f, pm=rng.choice([0, 1, 6, 8, 18, 20]), ps=rng.choice([0, 6, 18])))
                unit[a] = gives(f)
            elif c < 0.74:
                ops.append(addsub(rng.choice(["add", "add", "sub"]), a, x, y))
                unit[a] = u
            elif c < 0.8:
                ops.append(mul(a, x) if rng.random() < 0.6 else div(a, x))
                unit[a] = u
            elif c < 0.84:
                xs = [rng.choice(same) for _ in range(rng.randrange(0, 6))]
                ops.append(dict(op="sum", a=a, u=u, xs=xs, how=rng.choice(["ref", "owned"])))
                unit[a] = u
            elif c < 0.9:
                ops.append(dict(op=rng.choice(["trunc", "copy"]), a=a, x=x))
                unit[a] = u
            elif c < 0.96:
                ops.append(dict(op="cmp", a=a, x=x, y=y))
            else:
                ops.append(dict(op=rng.choice(["show", "prim"]), a=a, x=x))
        tr.append(dict(id=f"c-{k}", kind="value", n=R, ops=ops))
    # the same number written in many ways: equal, not less, hashed alike
    for k in range(1500 if n else 200):
        u, m, s = rng.choice(list(UNITS)), magnitude(rng, 30), rng.randrange(-5, 19)
        ops = []
        for r in range(1, 4):
            z = rng.choice([0, 1, 2, 5, 17])
            e = rng.choice([0, 0, 0, 1, -1]) if r > 1 else 0
            ops.append(dict(op="set", a=r, u=u, v=d(max(0, m * 10**z + e), s + z)))
        ops += [dict(op="cmp", a=1, x=x, y=y) for x in (1, 2, 3) for y in (1, 2, 3)]
        ops += [addsub("sub", 3, 1, 2), dict(op="trunc", a=3, x=1), dict(op="prim", a=1, x=1)]
        tr.append(dict(id=f"e-{k}", kind="value", n=3, ops=ops))
    run(chk, "ValuesTrace", tr, "conversions, arithmetic, reading and comparing", chunk=4000)


# -- the store ------------------------------------------------------------------------------------
def table(rng, npt, ntok, scale):
    """UTxOs: pointers that several of them share, equal and nearly equal amounts."""
    n = npt + rng.randrange(0, 4)
    pool = [magnitude(rng, 20) for _ in range(rng.choice([1, 2, 3, 8]))]
    out = []
    for j in range(n):
        p = j + 1 if j < npt else rng.randrange(npt) + 1

        def q():
            x = rng.choice(pool) if rng.random() < 0.8 else magnitude(rng, 20)
            z = rng.choice([0, 0, 0, 1, 4])
            return d((x or 1) * 10**z, scale + z)
        toks = [k for k in range(1, ntok + 1) if rng.random() < 0.5]
        rng.shuffle(toks)
        v = q() if rng.random() < 0.95 else d(0)
        out.append(dict(p=p, v=v, t=[dict(k=k, q=q()) for k in toks]))
    return out


def store_scripts(chk, n_model, n_random):
    rng, tr = chk.rng, []
    tabs = {"a": ([(1, 2, (1, 0)), (1, 3, (0, 2)), (2, 2, (1, 2)), (3, 1, (2, 0))], 3, n_model), "b": ([(1, 1, (1, 0)), (2, 1, (1, 1))], 2, n_model)}
    for cfg, (tab, npt, n) in tabs.items():
        for k, h in enumerate(chk.histories("UtxoStoreGen", f"UtxoStoreGen_{cfg}.cfg", n)):
            base = sorted({magnitude(rng, 20) or 1 for _ in range(6)} | {1, 2, 3})[:: rng.choice([1, 1, 2])][:3]
            sc = rng.choice([0, 0, 6])
            us = [dict(p=p, v=d(base[v - 1], sc), t=[dict(k=i + 1, q=d(base[q - 1] * 10**z, sc + z)) for i, q in enumerate(t) if q for z in [rng.choice([0, 0, 2])]]) for p, v, t in tab]
            ops = []
            for o in h:
                e = dict(op=o["op"])
                if o["s"]:
                    e["s"] = o["s"]
                if o["m"]:
                    e["m"] = o["m"]
                if o["op"] == "insert":
                    e.update(u=o["x"], compat=rng.random() < 0.3)
                elif o["op"] == "remove":
                    e["p"] = o["x"]
                ops.append(e)
            tr.append((f"{cfg}-{k}", us, 2, npt, ops))
    for k in range(n_random):
        npt, ntok = rng.choice([2, 4, 8, 20]), rng.choice([0, 1, 2, 5])
        us = table(rng, npt, ntok, rng.choice([0, 0, 6]))
        ops, snaps, muts, cnt = [], ["s0"], {}, 0
        for _ in range(rng.choice([20, 50, 90])):
            x = rng.random()
            if not muts or (x < 0.06 and len(muts) < 3):
                m = f"m{rng.randrange(3)}"
                ops.append(dict(op="thaw", s=rng.choice(snaps[-3:]), m=m))
                muts[m] = True
            elif x < 0.14:
                m = rng.choice(sorted(muts))
                cnt += 1
                s = f"s{cnt}" if rng.random() < 0.7 else rng.choice(snaps)
                ops.append(dict(op="freeze", s=s, m=m))
                del muts[m]
                if s not in snaps:
                    snaps.append(s)
            elif x < 0.17:
                cnt += 1
                ops.append(dict(op="clone", s=rng.choice(snaps), to=f"s{cnt}"))
                snaps.append(f"s{cnt}")
            elif x < 0.19 and len(snaps) > 2:
                s = rng.choice(snaps)
                ops.append(dict(op="drop", s=s))
                snaps.remove(s)
            elif x < 0.65:
                ops.append(dict(op="insert", m=rng.choice(sorted(muts)), u=rng.randrange(len(us)) + 1, compat=rng.random() < 0.3))
            else:
                ops.append(dict(op="remove", m=rng.choice(sorted(muts)), p=rng.randrange(npt) + 1))
        tr.append((f"r-{k}", us, ntok, npt, ops))
    return tr


def store_traces(chk, scripts, judge):
    """Between the operations, snapshots and thawed copies are asked (for C02 all of them, again and again)."""
    rng, out = chk.rng, []
    for name, us, ntok, npt, ops in scripts:
        new, snaps, muts = [], {"s0"}, set()
        for o in ops:
            new.append(o)
            if o["op"] == "thaw":
                muts.add(o["m"])
            elif o["op"] == "freeze":
                muts.discard(o["m"])
                snaps.add(o["s"])
            elif o["op"] == "clone":
                snaps.add(o["to"])
            elif o["op"] == "drop":
                snaps.discard(o["s"])
            full = judge == "versions"
            if full or o["op"] in ("freeze", "clone"):
                for s in sorted(snaps):
                    if rng.random() < (0.5 if full else 0.4) or o.get("s") == s:
                        new.append(dict(op="look", s=s))
            for m in sorted(muts):
                if o.get("m") == m or rng.random() < 0.2:
                    new.append(dict(op="lookm", m=m))
                    if rng.random() < (0.5 if judge == "answers" else 0.2):
                        # what a thawed copy holds is seen by freezing it and going on from there
                        new += [dict(op="freeze", s="tmp", m=m), dict(op="look", s="tmp"), dict(op="thaw", s="tmp", m=m)]
                        snaps.add("tmp")
        for m in sorted(muts):
            new += [dict(op="freeze", s="z" + m, m=m)]
            snaps.add("z" + m)
        new += [dict(op="look", s=s) for s in sorted(snaps)]
        out.append(dict(id=name, kind="store", style=rng.randrange(3), tokens=ntok, pointers=npt, utxos=us, ops=new, judge=judge))
    return out


def c01(chk):
    n = chk.thorough
    decimals(chk)
    chk.model_bad("UtxoStoreGen", "UtxoStoreGen_bad_equal.cfg", "a UTxO of equal quantity replaces the other one in the order")
    chk.model_bad("UtxoStoreGen", "UtxoStoreGen_bad_keep.cfg", "a token nobody holds keeps its entry")
    tr = store_traces(chk, store_scripts(chk, 4000 if n else 500, 3000 if n else 250), "answers")
    run(chk, "UtxoStoreTrace", tr, "stores after insertions and removals", chunk=2000, keep=lambda t: t.update(judge="answers"))


def c02(chk):
    n = chk.thorough
    chk.model_bad("UtxoStoreGen", "UtxoStoreGen_bad_alias.cfg", "a thawed copy shares its structure with the snapshot")
    tr = store_traces(chk, store_scripts(chk, 4000 if n else 500, 3000 if n else 250), "versions")
    run(chk, "UtxoStoreTrace", tr, "snapshots asked again while copies of them change", chunk=2000, keep=lambda t: t.update(judge="versions"))


# -- JSON -----------------------------------------------------------------------------------------
STRINGS = ["", "a", "x y", "\"", "\\", "\n\t", "é", "日本", "\U0001f600", "\u0000", "null", "0", "1e5", "{}", "N/A", "asset1abc", "\u2028", "</script>", "\u007f", "a" * 300]


def item(rng, ty):
    """What the harness makes an item of."""
    def st():
        if rng.random() < 0.5:
            return rng.choice(STRINGS)
        return "".join(rng.choice("abc012_-\"\\/ äß\u20ac\n") for _ in range(rng.randrange(0, 20)))

    def num(places):
        # amounts the unit can have
        return d(magnitude(rng, 30), rng.choice([0, 0, places, rng.randrange(0, places + 1), -2, -17, -25]))

    def j(depth=0):
        x = rng.random()
        if x < 0.5 or depth > 3:
            return rng.choice([None, True, False, 0, 1, -1, 2**53, 2**63, 2**64 - 1, -2**63, "", st(), 0.5, 1.25, -0.0625, 1e3])
        if x < 0.75:
            return [j(depth + 1) for _ in range(rng.randrange(0, 4))]
        return {st(): j(depth + 1) for _ in range(rng.randrange(0, 4))}

    n64 = str(rng.choice([0, 1, 2**32, 2**53 + 1, 2**63, U64, U64 - 1, rng.getrandbits(64)]))
    if ty in UNITS:
        return num(UNITS[ty])
    if ty in ("block", "slot", "output", "time"):
        return dict(n=n64)
    if ty in ("token", "policy", "name", "blockid", "txid", "address"):
        return dict(s=st())
    if ty == "pointer":
        return dict(t=st(), i=n64)
    if ty == "asset":
        return dict(p=st(), a=st(), f=st(), q=num(18))
    ext = rng.choice([None, "", "null", st()])
    if ty in ("utxo", "builder"):
        r = dict(addr=st(), v=num(18), **{"as": [item(rng, "asset") for _ in range(rng.choice([0, 1, 2, 5]))]})
        if ext is not None:
            r["x"] = ext
        if ty == "utxo":
            r.update(ptr=item(rng, "pointer"), m=j())
        return r
    if ty == "rule":
        return dict(f=st(), pm=rng.choice([0, 6, 18, -3, 2**63 - 1, -2**63]), ps=rng.choice([0, 6, 18]))
    return dict(id=st(), **{"in": [item(rng, "pointer") for _ in range(rng.choice([0, 1, 3]))]}, out=[item(rng, "utxo") for _ in range(rng.choice([0, 1, 2]))], m=j())


TYPES = list(UNITS) + ["block", "slot", "output", "time", "token", "policy", "name", "blockid", "txid", "address", "pointer", "asset", "utxo", "builder", "rule", "transaction"]


def c06(chk):
    rng, n = chk.rng, chk.thorough
    chk.model_bad("WireGen", "WireGen_bad.cfg", "a mandatory field has a default")
    ops = []
    for _ in range(900 if n else 90):
        for ty in TYPES:
            ops.append(dict(op="round", ty=ty, item=item(rng, ty), via=rng.choice(["text", "pretty", "bytes", "reader", "twice", "value"])))
    r = tlc("WireGen", "WireGen.cfg", workers=1)
    if not r.ok:
        raise Inconclusive(f"WireGen failed: {r.out[-2000:]}")
    chk.cov["states"] += r.distinct
    objs = [json.loads(json.loads(x)) for x in r.printed("HIST")]
    chk.cov.setdefault("generated", []).append(dict(module="WireGen", objects=len(objs)))
    for o in objs:
        # an unknown field: another name, or the name of a field written in another way
        bad = rng.choice(["unknown", "Metadata", "metadata ", "", "transaction_id", "policy_id", "TransactionId", "asset_name", "extra", "pointer", "value"])
        ops.append(dict(op="read", ty=o["ty"], fields=[bad if f == "unknown" else f for f in o["fields"]], item=item(rng, o["ty"])))
    for _ in range(60):
        ty = rng.choice(["asset", "transaction"])
        fs = ["policyId", "assetName", "fingerprint", "quantity"] if ty == "asset" else ["transactionId", "inputs", "outputs", "metadata"]
        ops.append(dict(op="read", ty=ty, fields=fs + [rng.choice(fs)], item=item(rng, ty)))
    rng.shuffle(ops)
    # the specification compares what it sees: absent options are empty sequences
    tr = [dict(id=f"w-{k}", kind="wire", ops=ops[k:k + 20]) for k in range(0, len(ops), 20)]
    run(chk, "WireTrace", tr, "items written and read, objects with some of the fields", chunk=3000)


CHECKS = dict(C01=c01, C02=c02, C03=c03, C04=c04, C05=c05, C06=c06)
