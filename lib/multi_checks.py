"""Scripts for the multiverse (M01..M05). The judgement is MultiverseTrace."""
import shutil
from core import *

TREES = {1: [(0, 0), (1, 1), (1, 1), (2, 2), (3, 2)], 2: [(0, 1), (1, 3), (2, 4), (0, 3), (4, 5)],
         3: [(0, 0), (1, 1), (1, 1), (1, 1), (2, 2)], 4: [(0, 0), (1, 1), (2, 2), (3, 3)]}
SEL = [[d, g] for d in (0, 1, 2, 3, 5, -1) for g in (0, 1, 2, 7, -1)]


def blocks(tree):
    return [dict(p=p, n=n) for p, n in tree]


def base(rng, top):
    return str(rng.choice([0, 0, 1, 250, 65530, 2**32 - 3, 2**63 - 2, 2**64 - 1 - top]))


def look(rng, m="m", n=5, hold=False, full=False):
    sel = SEL if full else rng.sample(SEL, n)
    if hold:
        sel = [[d, 0] for d in range(6)] + sel
    o = dict(op="look", m=m, sel=sel)
    if hold:
        o["hold"] = True
    return o


def model_scripts(chk, cfg, tree, n, ask):
    rng, out = chk.rng, []
    for k, h in enumerate(chk.histories("MultiverseGen", f"MultiverseGen_{cfg}.cfg", n)):
        t = TREES[tree]
        frm = h[0]["b"]
        how = "db" if any(o["op"] in ("reload",) for o in h) or frm else rng.choice(["temp", "db", "db"])
        op_open = dict(op="open", m="m", db="s", dom="d", **{"from": frm}, how=how)
        ops = [op_open]
        present = set()
        for o in h[1:]:
            b = o["b"]
            if o["op"] == "insert":
                ops.append(dict(op="insert", m="m", b=b))
                present.add(b)
                if rng.random() < 0.15:
                    ops.append(dict(op="insert", m="m", b=rng.choice(sorted(present))))
            elif o["op"] == "remove":
                ops.append(dict(op="remove", m="m", b=b))
                present.discard(b)
            elif o["op"] == "hold":
                ops.append(look(rng, hold=True))
            elif o["op"] == "release":
                ops.append(dict(op="release"))
            elif o["op"] == "reload":
                ops.append(dict(op="drop", m="m"))
                if rng.random() < 0.4:
                    ops.append(dict(op="closedb", db="s"))
                ops.append(op_open)
                present = {x for x in present if t[x - 1][1] >= frm}
            elif o["op"] == "clear":
                ops.append(dict(op="clear", m="m"))
                present = set()
            if rng.random() < 0.15:
                ab = [x for x in range(1, len(t) + 1) if x not in present]
                if ab:
                    ops.append(dict(op="remove", m="m", b=rng.choice(ab)))
            ops.append(look(rng))
        ops.append(look(rng, full=True))
        out.append(dict(id=f"{cfg}-{k}", blocks=blocks(t), base=base(rng, 6), style=rng.randrange(6), ops=ops, ask=ask))
    return out


def grow(rng, n, bushy):
    """A random tree: parents have smaller numbers than their children."""
    t = []
    for j in range(1, n + 1):
        if j == 1 or rng.random() < 0.05:
            t.append((0, rng.randrange(3)))
        else:
            lo = 1 if rng.random() < bushy else max(1, j - 3)
            p = rng.randrange(lo, j)
            t.append((p, t[p - 1][1] + (1 if rng.random() < 0.85 else rng.choice([2, 3, 10]))))
    return t


def random_scripts(chk, n, ask, hold=False, domains=1, strict=True, gc=True, reopen=0.0, destroy=0.0):
    """strict: a parent is never inserted while a child of it is present (which the properties exclude)."""
    rng, out = chk.rng, []
    for k in range(n):
        t = grow(rng, rng.choice([4, 8, 15, 30]), rng.random())
        N = len(t)
        top = max(x[1] for x in t)
        ms = [f"m{j}" for j in range(domains if rng.random() < 0.8 else 1)]
        names = rng.choice([["a", "b", "ab"], ["x", "x-", "xx"], ["main", "mainnet", "m"]])
        dom, frm, here, disk, ops = {}, {}, {}, {}, []
        for j, m in enumerate(ms):
            dom[m], frm[m] = names[j], rng.choice([0, 0, 1, top // 2, top + 1])
            here[m], disk[m] = set(), set()
            how = "db" if domains > 1 or reopen else rng.choice(["temp", "db"])
            ops.append(dict(op="open", m=m, db="s", dom=dom[m], **{"from": frm[m] if how == "db" else 0}, how=how))
            if how != "db":
                frm[m] = 0
        closed, nxt = set(), {m: 1 for m in ms}
        for _ in range(rng.choice([15, 40, 80])):
            m = rng.choice(ms)
            x = rng.random()
            if x < 0.5:
                b = nxt[m] if nxt[m] <= N and rng.random() < 0.75 else rng.randrange(1, N + 1)
                if b in here[m] or not strict or not any(t[c - 1][0] == b for c in here[m]):
                    ops.append(dict(op="insert", m=m, b=b))
                    here[m].add(b)
                    nxt[m] = max(nxt[m], b + 1)
            elif x < 0.68:
                b = rng.choice(sorted(here[m])) if here[m] and rng.random() < 0.9 else rng.randrange(1, N + 1)
                o = dict(op="remove", m=m, b=b)
                if hold and rng.random() < 0.5:
                    o["hold"] = True
                ops.append(o)
                here[m].discard(b)
            elif x < 0.78 and gc:
                d, g = rng.choice([0, 1, 2, 3]), rng.choice([0, 1, 2, 4])
                # which variant of the highest ones is taken is not determined: only this query knows what goes
                high = max((t[b - 1][1] for b in here[m]), default=None)
                if high is not None and sum(t[b - 1][1] == high for b in here[m]) == 1 and strict:
                    s = next(b for b in here[m] if t[b - 1][1] == high)
                    for _ in range(d):
                        s = t[s - 1][0] if s and t[s - 1][0] in here[m] else 0
                    ops.append(dict(op="gc", m=m, d=d, g=g, **(dict(hold=True) if hold else {})))
                    if s:
                        here[m] = {b for b in here[m] if not t[b - 1][1] < t[s - 1][1] - g}
            elif reopen and x < 0.78 + reopen:
                if rng.random() < 0.3:
                    for q in ms:
                        ops.append(dict(op="drop", m=q))
                    if rng.random() < 0.6:
                        ops.append(dict(op="closedb", db="s"))
                    again = ms
                else:
                    ops.append(dict(op="drop", m=m))
                    again = [m]
                for q in again:
                    here[q] = {b for b in here[q] if t[b - 1][1] >= frm[q]}
                    if rng.random() < 0.3:
                        frm[q] = rng.choice([0, 1, top // 2])
                    ops.append(dict(op="open", m=q, db="s", dom=dom[q], **{"from": frm[q]}, how="db"))
                    ops.append(look(rng, q))
            elif destroy and x < 0.78 + reopen + destroy:
                if rng.random() < 0.5:
                    ops.append(dict(op="clear", m=m))
                else:
                    ops.append(dict(op="destroy", m=m))
                    ops.append(dict(op="open", m=m, db="s", dom=dom[m], **{"from": frm[m]}, how="db"))
                here[m], nxt[m] = set(), 1
            elif hold and rng.random() < 0.7:
                ops.append(look(rng, m, hold=True) if rng.random() < 0.85 else dict(op="release"))
            for q in ms:
                if q == m or rng.random() < 0.2:
                    ops.append(look(rng, q, n=3))
        for m in ms:
            ops.append(look(rng, m, full=True))
        if reopen:
            ops += [dict(op="drop", m=m) for m in ms] + [dict(op="closedb", db="s")]
            for m in ms:
                if rng.random() < 0.5 and len(ms) == 1:
                    ops.append(dict(op="open", m=m, db="s", dom=dom[m], **{"from": 0}, how="path"))
                else:
                    ops.append(dict(op="open", m=m, db="s", dom=dom[m], **{"from": 0}, how="db"))
                ops.append(look(rng, m, full=True))
        out.append(dict(id=f"rnd-{k}", blocks=blocks(t), base=base(rng, top + 1), style=rng.randrange(6), ops=ops, ask=ask))
    return out


def run(chk, name, traces, what):
    binp = build("hmulti")
    outp, sc = f"{rundir()}/{name}.out", chk.scratch()
    asks = {t["id"]: t["ask"] for t in traces}
    got, todo = [], traces
    while todo:
        p = run_harness([binp, chk.file(f"{name}.script", todo), outp, f"{sc}/{len(todo)}"], timeout=600)
        rows = [r for r in read_ndjson(outp) if "ev" in r]
        got += rows
        if len(rows) >= len(todo):
            break
        chk.violation(dict(kind="crash" if p else "hang", what=what, trace=todo[len(rows)],
                           detail=f"process ended with {p.returncode}: {p.stderr[-400:]}" if p else "did not finish"))
        todo = todo[len(rows) + 1:]
        if len(chk.violations) > 3:
            break
    shutil.rmtree(sc, ignore_errors=True)
    for t in got:
        t["ask"] = asks[t["id"]]
        if "sel" not in t["ask"] or "iter" not in t["ask"]:
            for e in t["ev"]:
                if e["op"] == "look":
                    if "sel" not in t["ask"]:
                        e["sel"] = []
                    if "iter" not in t["ask"]:
                        e["iter"] = []
    for t in got:
        t["ask"] = t["ask"] or []
    chk.validate("MultiverseTrace", got, what=what, chunk=2500)


def m01(chk):
    n = chk.thorough
    chk.model_bad("MultiverseGen", "MultiverseGen_bad_tip.cfg", "a parent stays a tip")
    ask = ["has", "tips"]
    tr = []
    for t in (1, 2, 3):
        tr += model_scripts(chk, f"t{t}", t, 3000 if n else 400, ask)
    tr += random_scripts(chk, 2500 if n else 150, ask)
    run(chk, "m01", tr, "insertions and removals")


def m02(chk):
    n = chk.thorough
    ask = ["sel"]
    tr = []
    for t in (1, 2, 3):
        tr += model_scripts(chk, f"t{t}", t, 3000 if n else 400, ask)
    tr += random_scripts(chk, 2500 if n else 150, ask)
    run(chk, "m02", tr, "selections after insertions, removals and discarding")


def m03(chk):
    n = chk.thorough
    if n:
        chk.model("MultiverseGen", "MultiverseGen_d1.cfg", "several versions of every key, two reloads")
    chk.model_bad("MultiverseGen", "MultiverseGen_bad_db.cfg", "a removed variant stays in the store")
    ask = ["has", "tips", "sel"]
    tr = []
    for t in (1, 2, 3):
        tr += model_scripts(chk, f"p{t}", t, 6000 if n else 300, ask)
    tr += random_scripts(chk, 1500 if n else 120, ask, domains=3, reopen=0.1, destroy=0.06)
    run(chk, "m03", tr, "histories that reload, clear and destroy domains of a store")


def m04(chk):
    n = chk.thorough
    ask = ["iter"]
    tr = []
    for t in (1, 2, 3):
        tr += model_scripts(chk, f"t{t}", t, 3000 if n else 300, ask)
    tr += random_scripts(chk, 2500 if n else 150, ask)
    tr += random_scripts(chk, 300 if n else 30, ask, reopen=0.1)
    run(chk, "m04", tr, "traversals after insertions and removals")


def m05(chk):
    n = chk.thorough
    chk.model_bad("MultiverseGen", "MultiverseGen_bad_weak.cfg", "children keep referring to a removed parent somebody holds")
    ask = ["has", "tips", "sel"]
    tr = []
    for c, t in (("h1", 1), ("h4", 4)):
        tr += model_scripts(chk, c, t, 6000 if n else 300, ask)
    tr += random_scripts(chk, 2500 if n else 150, ask, hold=True)
    tr += random_scripts(chk, 1500 if n else 100, ask, hold=True, strict=False, gc=False)
    run(chk, "m05", tr, "histories in which what was handed out is kept")


CHECKS = dict(M01=m01, M02=m02, M03=m03, M04=m04, M05=m05)
