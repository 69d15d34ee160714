"""Scripts for utxo-selection (S01..S06). The judgement is Select.tla through SelectTrace."""
from core import *

MAIN = "0" * 64
GEN = [dict(v=5, t=[0, 0]), dict(v=5, t=[2, 0]), dict(v=1, t=[0, 0]), dict(v=2, t=[1, 2]), dict(v=3, t=[0, 1]), dict(v=4, t=[1, 0])]
CHG = [dict(v=5, t=[0, 0]), dict(v=2, t=[2, 0]), dict(v=3, t=[1, 1])]


def run(chk, scripts, what):
    binp = build("hselect")
    outp = f"{rundir()}/select.out"
    got, todo, i = [], scripts, {t["id"]: k for k, t in enumerate(scripts)}
    while todo:
        p = run_harness([binp, chk.file("select.script", todo), outp], timeout=500)
        rows = read_ndjson(outp)
        got += [r for r in rows if "ev" in r]
        done = [r["done"] for r in rows if "done" in r]
        if len(done) >= len(todo):
            break
        bad = todo[len(done)]
        chk.violation(dict(kind="crash" if p else "hang", what=what, trace=bad,
                           detail=f"process ended with {p.returncode}: {p.stderr[-400:]}" if p else "did not finish"))
        todo = todo[len(done) + 1:]
        if len(chk.violations) > 3:
            break
    chk.cov["scripts"] = chk.cov.get("scripts", 0) + len(scripts)
    c = chk.cov.setdefault("answers", {})
    for r in got:
        for e in r["ev"]:
            k = f"{e.get('algo', e['op'])} {e.get('res', '')}".strip()
            c[k] = c.get(k, 0) + 1
    if got:
        chk.validate("SelectTrace", got, what=what, chunk=6000, timeout=700)


def unit(rng, algo):
    """Amounts are multiples of it. The answers have to scale."""
    if algo == "thermostat":
        return {}
    if algo == "random":
        return dict(unit=str(rng.choice([1, 1, 10**6, 10**9, 123457])))
    x = rng.random()
    if x < 0.4:
        return {}
    return dict(unit=str(rng.choice([1, 7, 10**6, 2**64, 10**30 + 1, rng.randrange(1, 10**12)])), scale=rng.choice([0, 0, 0, 6, 20]))


def generated(chk, cfg, judge, n, algo, reps, extra=None, chain=False):
    """Rounds of the model with its pools, requests and fees."""
    rng, tr = chk.rng, []
    for k, h in enumerate(chk.histories("SelectGen", cfg, n)):
        ops = []
        for o in h[1:]:
            if o["op"] == "select":
                # a fixed input is spent by then: it is used in one round only
                f = [] if any(x["op"] == "select" and x["fixed"] for x in ops) else o["fixed"]
                ops.append(dict(op="select", fixed=f, outs=o["outs"], change=7))
                if chain:
                    ops[-1]["chain"] = rng.choice(["fee", "single", "single"])
                    ops[-1]["change"] = rng.choice([0, 7, 7])
            else:
                ops.append(dict(op="offer", pool=o["pool"], via=rng.choice(["store", "set"])))
        est = h[0]["est"]
        t = dict(id=f"{judge}-{algo}-g{k}", judge=judge, algo=algo, via=rng.choice(["new", "newstore", "store", "set"]), style=rng.choice(["", "same", "pair"]),
                 nt=2, ut=GEN, pool=h[0]["pool"], est=est, ops=ops, reps=reps, **unit(rng, algo))
        t.update(extra or {})
        tr.append(t)
    return tr


def toks(rng, nt, p, hi):
    return [rng.choice([1, 2, 3, rng.randrange(1, hi)]) if rng.random() < p else 0 for _ in range(nt)]


def amounts(rng, hi):
    """Ways a pool can look: anything, equal amounts, a few values, powers, zeros among them."""
    x = rng.random()
    if x < 0.4:
        return lambda: rng.randrange(0, hi)
    if x < 0.55:
        c = rng.randrange(1, hi)
        return lambda: c
    if x < 0.7:
        c = [rng.randrange(0, hi) for _ in range(2)]
        return lambda: rng.choice(c)
    if x < 0.85:
        return lambda: rng.choice([0, 1, 2, 4, 8, 16, 32, 64])
    return lambda: rng.choice([0, 1, hi, hi + 1])


def random_script(rng, ident, judge, algo, reps, rounds, npool, chain=False):
    nt = rng.choice([0, 1, 1, 2, 2, 3])
    n = rng.randrange(1, npool)
    val = amounts(rng, 60)
    ut = [dict(v=val(), t=toks(rng, nt, 0.4, 20)) for _ in range(n)]
    ids = list(range(1, n + 1))
    rng.shuffle(ids)
    f = ids[:rng.choice([0, 0, 1, 2])]
    if algo in ("fee", "single"):
        f = ids
    pool = [u for u in ids if u not in f]
    est = dict(base=rng.choice([0, 1, 4]), out=rng.choice([0, 1, 2]), ina=0, outa=0, **{"in": rng.choice([0, 1, 3])})
    if rng.random() < 0.4:
        est["ina"], est["outa"] = rng.choice([0, 1]), rng.choice([0, 1, 2])
    ops = []
    total = sum(ut[u - 1]["v"] for u in ids)
    for _ in range(rng.randrange(1, rounds + 1)):
        outs = [dict(v=rng.randrange(0, 50), t=toks(rng, nt, 0.35, 12), a=rng.choice([1, 1, 2])) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
        if outs and rng.random() < 0.3:
            # close to all there is
            outs[0]["v"] = max(0, total - rng.randrange(0, 8) - sum(o["v"] for o in outs[1:]))
        if outs and nt and rng.random() < 0.3:
            k = rng.randrange(nt)
            outs[0]["t"][k] = max(0, sum(ut[u - 1]["t"][k] for u in ids) - rng.choice([0, 0, 1]) - sum(o["t"][k] for o in outs[1:]))
        if len(outs) > 1 and rng.random() < 0.25:
            outs[1] = dict(outs[0])
        for x in outs:
            # an output may name a token twice; what that costs is left out
            if not est["outa"] and rng.random() < 0.2:
                x["twice"] = True
        o = dict(op="select", fixed=f, outs=outs, change=rng.choice([0, 7, 7, 7]))
        if rng.random() < 0.15 and not chain:
            o["pre"] = False
        if chain:
            o["chain"] = rng.choice(["fee", "single", "single"])
        ops.append(o)
        f = []
        if rng.random() < 0.15 and algo not in ("fee", "single"):
            back = rng.sample(pool, rng.randrange(0, len(pool) + 1))
            ops.append(dict(op="offer", pool=back, via=rng.choice(["store", "set"])))
    return dict(id=ident, judge=judge, algo=algo, via=rng.choice(["new", "newstore", "store", "set"]), style=rng.choice(["", "same", "pair"]),
                nt=nt, ut=ut, pool=pool, est=est, ops=ops, reps=reps, **unit(rng, algo))


def shared_token(rng, ident, judge):
    """Several outputs of one token, few UTxOs with it, and enough of the main coin elsewhere."""
    n = rng.randrange(2, 5)
    outs = [dict(v=rng.randrange(1, 9), t=[rng.randrange(1, 10)], a=1) for _ in range(rng.choice([2, 2, 3]))]
    ut = [dict(v=rng.choice([1, rng.randrange(1, 30), 2 * rng.choice(outs)["v"], 60, 90]), t=[rng.choice([rng.randrange(1, 16), rng.choice(outs)["t"][0], sum(o["t"][0] for o in outs)])]) for _ in range(n)]
    ut += [dict(v=20, t=[0]) for _ in range(4)]
    return dict(id=ident, judge=judge, algo="random", via="new", style="", nt=1, ut=ut, pool=list(range(1, len(ut) + 1)),
                est=dict(base=0, out=0, ina=0, outa=0, **{"in": rng.choice([0, 1])}), ops=[dict(op="select", fixed=[], outs=outs, change=7)], reps=60)


def thermostat_script(rng, ident, judge, rounds=1):
    nt = rng.choice([0, 1, 1, 2])
    n = rng.randrange(2, 14)
    hi = rng.choice([30, 80, 200])
    ut = []
    mixed = rng.random() < 0.15
    for _ in range(n):
        t = toks(rng, nt, 0.4, 20)
        # the algorithm only ever takes UTxOs with one token
        if not mixed and sum(1 for x in t if x) > 1:
            j = rng.choice([i for i, x in enumerate(t) if x])
            t = [x if i == j else 0 for i, x in enumerate(t)]
        ut.append(dict(v=rng.randrange(0, hi), t=t))
    ids = list(range(1, n + 1))
    rng.shuffle(ids)
    f = ids[:rng.choice([0, 0, 0, 1])]
    pool = [u for u in ids if u not in f]
    est = dict(base=rng.choice([0, 1, 4]), out=rng.choice([0, 1, 2]), ina=0, outa=0, min=rng.choice([0, 1, 3]), max=rng.choice([0, 6, 10, 30, 100]), sin=2, sout=2)
    est["in"] = rng.choice([1, 1, 3])
    ops = []
    for _ in range(rng.randrange(1, rounds + 1)):
        outs = [dict(v=rng.randrange(0, 50), t=toks(rng, nt, 0.4, 12), a=1, twice=rng.random() < 0.1) for _ in range(rng.choice([1, 1, 2]))]
        ops.append(dict(op="select", fixed=f, outs=outs, change=rng.choice([7, 7, 7, 7, 0])))
        f = []
        if rng.random() < 0.2:
            ops.append(dict(op="offer", pool=rng.sample(pool, rng.randrange(0, len(pool) + 1)), via=rng.choice(["store", "set"])))
    a = rng.choice([0, 5, 10, 20])
    return dict(id=ident, judge=judge, algo="thermostat", via=rng.choice(["store", "set"]), nt=nt, ut=ut, pool=pool, est=est, ops=ops, reps=rng.choice([1, 2, 4]),
                thermo=dict(num_accumulators=rng.choice([1, 2, 20]), num_accumulators_assets=rng.choice([1, 2, 20]),
                            native_utxo_thermostat_min=str(a), native_utxo_thermostat_max=str(a * rng.choice([1, 2, 4])), main_token=MAIN))


def s01(chk):
    t = chk.thorough
    chk.model_bad("SelectGen", "SelectGen_bad_smallest.cfg", "the smallest UTxO first")
    chk.model_bad("SelectGen", "SelectGen_bad_nofee.cfg", "stopping before the fee is covered")
    chk.assumptions += ["fees are linear in inputs, outputs and their tokens", "no UTxO lists a token twice or with quantity zero"]
    s = generated(chk, "SelectGen_t.cfg" if t else "SelectGen_q.cfg", "S01", 6000 if t else 900, "largest", 2)
    for k in range(12000 if t else 1500):
        # the judgement explores the order of equal UTxOs: pools stay small
        s.append(random_script(chk.rng, f"S01-r{k}", "S01", "largest", 2, 3, chk.rng.choice([4, 6, 8, 8])))
    run(chk, s, "largest-first selections")


def models(chk, names, bad):
    for m in names:
        chk.model(m, f"{m}_{'t' if chk.thorough else 'q'}.cfg", f"{m}: the algorithm with all its choices")
    for m, b, what in bad:
        chk.model_bad(m, f"{m}_bad_{b}.cfg", what)


def s02(chk):
    t, rng = chk.thorough, chk.rng
    models(chk, ["RandomImprove"], [("RandomImprove", "sharedkey", "equal outputs share their inputs"), ("SelectGen", "respend", "chosen UTxOs stay available")])
    chk.assumptions += ["fees are linear in inputs, outputs and their tokens", "main values stay below a third of 2^64 for random improve"]
    s = []
    for algo, n, reps in (("largest", 500, 2), ("random", 700, 12)):
        s += generated(chk, "SelectGen_q.cfg", "S02", n * (6 if t else 1) // 2, algo, reps)
        for k in range(n * (6 if t else 1)):
            s.append(random_script(rng, f"S02-{algo}-r{k}", "S02", algo, reps, 3, rng.choice([4, 8, 14])))
    for k in range(6000 if t else 900):
        s.append(thermostat_script(rng, f"S02-th{k}", "S02"))
    run(chk, s, "selections and their accounts")


def s03(chk):
    t, rng = chk.thorough, chk.rng
    models(chk, ["RandomImprove", "Thermostat"], [("RandomImprove", "noguard", "swaps that uncover an output"), ("RandomImprove", "nofee", "a last phase without the fee"),
                                                  ("Thermostat", "nofinal", "no comparison with the required fee at the end")])
    chk.assumptions += ["fees are linear in inputs, outputs and their tokens", "main values stay below a third of 2^64 for random improve", "the fee of an input is positive and there is at least one accumulator for the thermostat"]
    s = []
    for algo, n, reps in (("largest", 300, 2), ("random", 900, 16)):
        s += generated(chk, "SelectGen_q.cfg", "S03", n * (6 if t else 1) // 2, algo, reps)
        for k in range(n * (6 if t else 1)):
            s.append(random_script(rng, f"S03-{algo}-r{k}", "S03", algo, reps, 2, rng.choice([4, 8, 14])))
    for k in range(9000 if t else 1300):
        s.append(thermostat_script(rng, f"S03-th{k}", "S03"))
    for k in range(1500 if t else 250):
        s.append(shared_token(rng, f"S03-sh{k}", "S03"))
    run(chk, s, "selections and what they cover")


def s04(chk):
    t, rng = chk.thorough, chk.rng
    chk.model_bad("ChangeGen", "ChangeGen_bad.cfg", "a change output the excess cannot pay for")
    chk.assumptions += ["fees are linear in inputs, outputs and their tokens"]
    s = []
    for k, h in enumerate(chk.histories("ChangeGen", "ChangeGen_t.cfg" if t else "ChangeGen_q.cfg", 100000 if t else 2500)):
        o = h[0]
        s.append(dict(id=f"S04-g{k}", judge="S04", algo=o["algo"], via="set", style=rng.choice(["", "same", "pair"]), nt=2, ut=CHG, pool=[], est=o["est"],
                      ops=[dict(op="select", fixed=o["fixed"], outs=o["outs"], change=o["change"], pre=o["pre"])], **unit(rng, o["algo"]),
                      **(dict(extra="x") if rng.random() < .2 else {})))
    for k in range(5000 if t else 700):
        for a in ("fee", "single"):
            s.append(random_script(rng, f"S04-{a}-r{k}", "S04", a, 1, 1, rng.choice([2, 4, 8])))
            # what is left over is the fee, its cost, or one around it
            x = s[-1]
            o, e = x["ops"][0], x["est"]
            o["fixed"] = list(range(1, len(x["ut"]) + 1))
            if o["outs"] and rng.random() < 0.85:
                for j in range(x["nt"]):
                    q = sum(u["t"][j] for u in x["ut"])
                    if a == "fee" or rng.random() < .4:
                        q += rng.choice([0] * 12 + [-1, 1])
                    else:
                        q -= rng.randrange(-1 if rng.random() < .1 else 0, max(q, 1))
                    for y in o["outs"][1:]:
                        y["t"][j] = 0
                    o["outs"][0]["t"][j] = max(q, 0)
                fee = e["base"]
                if o.get("pre", True):
                    fee += sum(e["in"] + e["ina"] * sum(1 for q in u["t"] if q) for u in x["ut"])
                    fee += sum(e["out"] + e["outa"] * sum(1 for q in y["t"] if q) for y in o["outs"])
                rest = sum(u["v"] for u in x["ut"]) - fee - sum(y["v"] for y in o["outs"][1:])
                o["outs"][0]["v"] = max(0, rest - rng.choice([0, 0, 1, -1, e["out"], e["out"] + 1, max(e["out"] - 1, 0), e["out"] + e["outa"], e["out"] + 2 * e["outa"], e["out"] + e["outa"] - 1, 9]))
    s += generated(chk, "SelectGen_q.cfg", "S04", 2000 if t else 400, "largest", 1, chain=True)
    for k in range(3000 if t else 500):
        a = rng.choice(["largest", "random"])
        s.append(random_script(rng, f"S04-c{k}", "S04", a, 3, 2, rng.choice([4, 8]), chain=True))
    # balancers see no pool of their own; what was selected before is judged elsewhere
    run(chk, s, "balanced changes")


def s05(chk):
    t, rng = chk.thorough, chk.rng
    models(chk, ["Thermostat"], [("Thermostat", "splitloses", "tokens of a change that is not split after all disappear")])
    chk.assumptions += ["fees are linear in inputs and outputs", "the fee of an input is positive and there is at least one accumulator"]
    s = [thermostat_script(rng, f"S05-{k}", "S05", 2) for k in range(25000 if t else 3500)]
    run(chk, s, "thermostat selections")


def s06(chk):
    t, rng = chk.thorough, chk.rng
    models(chk, ["RandomImprove"], [("RandomImprove", "lostonfail", "a failed selection loses what it had drawn"), ("SelectGen", "respend", "chosen UTxOs stay available"),
                                    ("SelectGen", "forget", "a failed selection loses what it had picked")])
    s = []
    for algo, n, reps in (("largest", 500, 1), ("random", 600, 6)):
        s += generated(chk, "SelectGen_t.cfg" if t else "SelectGen_q.cfg", "S06", n * (6 if t else 1), algo, reps)
        for k in range(n * (6 if t else 1)):
            s.append(random_script(rng, f"S06-{algo}-r{k}", "S06", algo, reps, 8, rng.choice([6, 10, 16])))
    for k in range(6000 if t else 900):
        s.append(thermostat_script(rng, f"S06-th{k}", "S06", 6))
    run(chk, s, "rounds of selections from one pool")


def spread(rng, total, n):
    """n amounts that add up."""
    cut = sorted(rng.choice([rng.randrange(0, total + 1), total // max(n, 1)]) for _ in range(n - 1))
    return [b - a for a, b in zip([0] + cut, cut + [total])]


def enough_script(rng, ident, algo, reps):
    """Requests the pool can just pay for: everything, or everything short of what drawing may waste."""
    nt = rng.choice([0, 0, 1, 2, 2])
    n, hi = rng.randrange(1, 12), rng.choice([5, 20, 60, 200])
    val = rng.choice([amounts(rng, hi), lambda: hi, lambda: rng.randrange(hi // 2, hi + 1)])
    ut = []
    for _ in range(n):
        t = [0] * nt
        if nt and rng.random() < .5:
            t[rng.randrange(nt)] = rng.choice([1, 3, rng.randrange(1, 30)])
            if algo == "random" and rng.random() < .1:
                t = toks(rng, nt, .6, 20)
        ut.append(dict(v=val(), t=t))
    ids = list(range(1, n + 1))
    rng.shuffle(ids)
    f = ids[:rng.choice([0, 0, 0, 1, 2, n])]
    pool = ids[len(f):]
    est = dict(base=rng.choice([0, 1, 4]), out=rng.choice([0, 1, 2, 5]), ina=0, outa=0, **{"in": rng.choice([0, 1, 1, 3])})
    thermo = {}
    if algo == "thermostat":
        a = rng.choice([0, 0, 2, 5, 20])
        b = a * rng.choice([1, 2, 4])
        acc = rng.choice([1, 2, 20, 20])
        est.update({"in": rng.choice([1, 1, 3]), "min": rng.choice([0, 1, 3]), "max": rng.choice([0, 0, 6, 10, 30, 100]), "sin": 2, "sout": 2, "hi": b, "acc": acc})
        thermo = dict(thermo=dict(num_accumulators=acc, num_accumulators_assets=rng.choice([1, 2, 20]), native_utxo_thermostat_min=str(a), native_utxo_thermostat_max=str(b), main_token=MAIN))
    elif rng.random() < .3:
        est["ina"], est["outa"] = rng.choice([0, 1]), rng.choice([0, 1, 2])
    k = rng.choice([0, 1, 1, 1, 2, 3])
    outs = [dict(v=0, t=[0] * nt, a=1) for _ in range(k)]
    V = lambda us: sum(ut[u - 1]["v"] for u in us)
    T = lambda us, j: sum(ut[u - 1]["t"][j] for u in us)
    cost = lambda us: sum(est["in"] + est["ina"] * sum(1 for q in ut[u - 1]["t"] if q) for u in us)
    if outs:
        wanted = [j for j in range(nt) if rng.random() < .6]
        for j in wanted:
            top = max([ut[u - 1]["t"][j] for u in pool] + [0])
            lim = T(pool, j) - (k - 1) * top if algo == "random" else T(ids, j)
            for o, q in zip(outs, spread(rng, max(0, lim - rng.choice([0, 0, 1, 4])), k)):
                o["t"][j] = q
        wanted = [j for j in wanted if any(o["t"][j] for o in outs)]
        if algo == "thermostat":
            held = [j for j in range(nt) if j in wanted or T(f, j)]
            plain = [u for u in pool if not any(ut[u - 1]["t"])]
            used = [u for u in pool if any(ut[u - 1]["t"][j] for j in held)]
            lim = V(f) + V(plain) - cost(plain) - cost(used) - len(held) * (est["hi"] + est["out"])
        else:
            lim = V(f) + V(pool) - cost(pool)
        pre = est["base"] + cost(f) + sum(est["out"] + est["outa"] * sum(1 for q in o["t"] if q) for o in outs)
        lim -= pre
        if algo == "random":
            free = [u for u in pool if not any(ut[u - 1]["t"][j] for j in wanted)]
            lim = min(lim, V(free) - (k - 1) * max([ut[u - 1]["v"] for u in pool] + [0]))
        for o, v in zip(outs, spread(rng, max(0, lim - rng.choice([0, 0, 0, 1, 3, 9, lim // 2 if lim > 0 else 0, -1])), k)):
            o["v"] = v
        rng.shuffle(outs)
    t = dict(id=ident, judge="S07", algo=algo, via=rng.choice(["new", "newstore", "store", "set"] if algo != "thermostat" else ["store", "set"]), style="" if algo == "thermostat" else rng.choice(["", "same", "pair"]),
             nt=nt, ut=ut, pool=pool, est=est, ops=[dict(op="select", fixed=f, outs=outs, change=rng.choice([7, 7, 7, 7, 0]))], reps=reps, **unit(rng, algo))
    t.update(thermo)
    if rng.random() < .4:
        # a request that cannot be met leaves nothing behind
        t["ops"].insert(0, dict(op="select", fixed=[], outs=[dict(v=10**6, t=[rng.choice([0, 1, 10**6]) if rng.random() < .6 else 0 for _ in range(nt)], a=1)], change=7))
    if rng.random() < .4:
        t["ops"].append(dict(op="select", fixed=[], outs=[dict(v=rng.randrange(1, hi), t=[0] * nt, a=1)], change=7))
    return t


def s07(chk):
    t, rng = chk.thorough, chk.rng
    models(chk, ["RandomImprove", "Thermostat"], [("RandomImprove", "norest", "no inputs drawn for what the fee still needs"), ("Thermostat", "feetwice", "the fee of the change is taken out twice")])
    chk.assumptions += ["fees are linear in inputs, outputs and their tokens", "main values stay below a third of 2^64 for random improve",
                        "the fee of an input is positive and there is at least one accumulator for the thermostat"]
    s = [enough_script(rng, f"S07-{a}-{k}", a, r) for a, n, r in (("largest", 600, 1), ("random", 1500, 6), ("thermostat", 2500, 2)) for k in range(n * (8 if t else 1))]
    run(chk, s, "requests the pool plainly covers")


CHECKS = dict(S01=s01, S02=s02, S03=s03, S04=s04, S05=s05, S06=s06, S07=s07)
