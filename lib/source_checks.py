"""Scripts for blockchain-source (B01..B03). The judgement is EraTrace and SourceTrace."""
from concurrent.futures import ThreadPoolExecutor

from core import *

WORKERS = 8

U64 = 2**64 - 1


def run(chk, module, scripts, what, chunk=None):
    binp, base = build("hsource"), chk.scratch()
    scripts = list(scripts)
    chk.rng.shuffle(scripts)
    # pulls that wait for what never comes are slow: what was reached by then is judged
    end = time.time() + (480 if chk.thorough else 150)

    def part(n):
        outp = f"{rundir()}/source{n}.out"
        got, bad, todo, k = [], [], scripts[n::WORKERS], 0
        while todo and len(bad) < 2:
            k += 1
            d = f"{base}/{n}-{k}"
            os.makedirs(d)
            p = run_harness([binp, chk.file(f"source{n}.script", todo), outp, d, str(max(1, int(end - time.time())))], timeout=max(60, int(end + 60 - time.time())))
            rows = read_ndjson(outp)
            stopped = any("stopped" in r for r in rows)
            rows = [r for r in rows if "ev" in r]
            got += rows
            if len(rows) >= len(todo) or stopped:
                break
            bad.append(dict(kind="crash" if p else "hang", what=what, trace=todo[len(rows)],
                            detail=f"process ended with {p.returncode}: {p.stderr[-400:]}" if p else "did not finish"))
            todo = todo[len(rows) + 1:]
        return got, bad

    with ThreadPoolExecutor(WORKERS) as ex:
        res = list(ex.map(part, range(WORKERS)))
    got = [r for g, _ in res for r in g]
    for b in [b for _, bs in res for b in bs]:
        chk.violation(b)
    c = chk.cov.setdefault("answers", {})
    for r in got:
        for e in r["ev"]:
            key = f"{e['op']} {e.get('ans', '')}".strip()
            c[key] = c.get(key, 0) + 1
    if got:
        chk.validate(module, got, what=what, chunk=chunk)
    if len(got) < len(scripts):
        chk.cov["not reached"] = chk.cov.get("not reached", 0) + len(scripts) - len(got)
        if len(got) < min(200, len(scripts) // 2) and not chk.violations:
            raise Inconclusive(f"{what}: only {len(got)} of {len(scripts)} histories ended in time")


# -- eras -----------------------------------------------------------------------------------------
def b01(chk):
    rng, t = chk.rng, chk.thorough
    chk.model("EraMC", "EraMC_t.cfg" if t else "EraMC_q.cfg", "the clock of every small era and its closed form")
    chk.model_bad("EraMC", "EraMC_bad.cfg", "as many slots in an epoch as it has seconds, whatever a slot takes")
    chk.assumptions += ["epochs are whole numbers of slots, lengths are positive", "times fit in 64 bits"]
    tr = []

    def script(ident, e, net=None, n=40):
        per = e["secs"] // e["len"]
        # the last slot with a time
        top = min(U64, e["first"] + (U64 - e["known"]) // e["len"], e["first"] + (U64 - e["start"]) * per)
        slots = []
        near = [e["first"], e["first"] - 3] + [e["first"] + per * k for k in (1, 2, 3, 10, 100, 1000, rng.randrange(1, 10**6), rng.randrange(1, 10**12))]
        near += [top - 2, U64 - 2, e["first"] + rng.getrandbits(rng.randrange(1, 65)), e["first"] + per * rng.getrandbits(rng.randrange(1, 40))]
        for c in near:
            for s in range(c - 2, c + 3):
                if 0 <= s <= U64 and (s < e["first"] or e["start"] + (s - e["first"]) // per <= U64):
                    slots.append(s)
        ops = [dict(op="at", slot=str(s), timed=e["first"] <= s <= top) for s in slots]
        if net:
            for k in (0, e["start"], max(e["start"] - 1, 0), 1, rng.randrange(300)):
                for s in (0, 1, 21599, rng.randrange(21600)):
                    ops.append(dict(op="byron", epoch=str(k), slot=str(s)))
            run_ = rng.randrange(0, 10**8)
            ops += [dict(op="at", slot=str(e["first"] + run_ + j), timed=True) for j in range(n)]
        return dict(id=ident, kind="era", net=net, era={k: str(v) for k, v in e.items()}, per=str(per), ops=ops)

    nets = dict(mainnet=(4492800, 208, 1596059091, 432000), testnet=(1598400, 74, 1595967616, 432000), preprod=(86400, 4, 1655769600, 432000),
                preview=(0, 0, 1666656000, 86400), sancho=(0, 0, 1686789000, 86400))
    for k, (f, s, kn, secs) in nets.items():
        for j in range(10 if t else 2):
            tr.append(script(f"net-{k}-{j}", dict(first=f, start=s, known=kn, len=1, secs=secs), k))
    for k in range(4000 if t else 400):
        ln = rng.choice([1, 1, 2, 5, 20, rng.randrange(1, 1000)])
        per = rng.choice([1, 2, 3, 10, 21600, 86400, 432000, rng.randrange(1, 10**6)])
        big = rng.choice([0, 1, rng.randrange(1, 10**8), rng.getrandbits(40), rng.getrandbits(60)])
        tr.append(script(f"era-{k}", dict(first=big, start=rng.choice([0, 1, rng.randrange(1000)]), known=rng.choice([0, 1, 1596059091, rng.getrandbits(50)]), len=ln, secs=ln * per)))
    # a whole small era, slot after slot
    for k in range(200 if t else 30):
        ln, per, f = rng.randrange(1, 30), rng.randrange(1, 12), rng.randrange(0, 50)
        tr.append(dict(id=f"run-{k}", kind="era", era=dict(first=str(f), start=str(rng.randrange(5)), known=str(rng.randrange(1000)), len=str(ln), secs=str(ln * per)), per=str(per),
                       ops=[dict(op="at", slot=str(f + j), timed=True) for j in range(3 * per + 2)]))
    run(chk, "EraTrace", tr, "conversions around the boundaries of eras", chunk=500)


# -- sources --------------------------------------------------------------------------------------
class Node:
    """Only to keep the scripts within the forks the properties speak about."""

    def __init__(self):
        self.par, self.cur = [], 0

    def path(self, b):
        p = []
        while b:
            p.append(b)
            b = self.par[b - 1]
        return p[::-1]

    def within(self, p, depth, root):
        hs = {b: len(self.path(b)) for b in range(1, len(self.par) + 1)}
        m = max(hs.values(), default=0)
        up = self.path(p)
        for b, h in hs.items():
            if h == m:
                c = self.path(b)[h - depth - 1] if h > depth else 0
                if c and c not in up:
                    return False
        return not (root and p == 0 and self.par)


def scripts_random(chk, n, kind, depths):
    rng, out = chk.rng, []
    for k in range(n):
        depth = rng.choice(depths)
        node, ops = Node(), []
        start = rng.choice(["point", "point", "none"])
        disk = kind == "confirmed" and rng.random() < 0.6
        forky, lazy = rng.choice([0, 0.1, 0.3, 0.6]), rng.choice([0.3, 0.6, 0.9])
        for _ in range(rng.choice([15, 30, 60])):
            x = rng.random()
            if x < 0.4:
                for _ in range(rng.choice([1, 1, 2, 4])):
                    p = node.cur
                    if rng.random() < forky:
                        c = [b for b in range(0, len(node.par) + 1) if node.within(b, depth, start == "none")]
                        # mostly low ones
                        p = rng.choice(c) if rng.random() < 0.7 else min(c)
                    if node.within(p, depth, start == "none"):
                        node.par.append(p)
                        node.cur = len(node.par)
                        ops.append(dict(op="block", p=p))
            elif x < 0.45 and forky:
                c = [b for b in range(1, len(node.par) + 1) if b != node.cur and node.within(b, depth, False)]
                if c:
                    node.cur = rng.choice(c)
                    ops.append(dict(op="turn", b=node.cur))
            elif x < 0.48:
                ops.append(dict(op="fault"))
            elif x < 0.54 and disk:
                ops.append(dict(op="restart"))
            else:
                for _ in range(rng.choice([1, 2, 5])):
                    ops.append(dict(op="pull"))
                    if rng.random() < lazy:
                        ops.append(dict(op="ack"))
        ops.append(dict(op="drain"))
        pol = rng.choice(["top", "start"])
        # before anything is confirmed, a fork may leave a client that names no earlier position behind
        live = start == "point" and (kind == "confirmed" or pol == "start")
        out.append({"id": f"{kind}-r{k}", "kind": kind, "depth": depth, "base": rng.choice([0, 1, 1000, 2**40]), "tips": rng.random() < 0.4, "disk": disk,
                    "start": start, "from": pol, "live": live, "ops": ops})
    return out


def scripts_model(chk, module, kind, n):
    rng, out = chk.rng, []
    for depth in (1, 2):
        for k, h in enumerate(chk.histories(module, f"{module}_h{depth}.cfg", n)):
            ops, more = [], False
            for o in h:
                more = more or o["op"] == "restart"
                ops.append(o)
            ops.append(dict(op="drain"))
            forks = any(o["op"] == "block" and o["p"] == 0 for o in [x for x in h if x["op"] == "block"][1:])
            start = "point" if forks or rng.random() < 0.7 else "none"
            pol = rng.choice(["top", "start"])
            out.append({"id": f"{kind}-g{depth}-{k}", "kind": kind, "depth": depth, "base": rng.choice([0, 7]), "tips": rng.random() < 0.3, "disk": more or (kind == "confirmed" and rng.random() < 0.2),
                        "start": start, "from": pol, "live": start == "point" and (kind == "confirmed" or pol == "start"), "ops": ops})
    return out


def b02(chk):
    t = chk.thorough
    chk.model("ConfirmedGen", "ConfirmedGen_t.cfg" if t else "ConfirmedGen_q.cfg", "the confirming source over every node history")
    for v, w in (("shallow", "releasing a block one too early"), ("tipsonly", "asking for the tips only"), ("forgets", "starting again without the position"),
                 ("strict", "refusing the start as the position before the first block")):
        chk.model_bad("ConfirmedGen", f"ConfirmedGen_bad_{v}.cfg", w)
    chk.assumptions += ["the upstream's forks stay within the confirmation depth", "the client pulls from what it was told last or the position before it"]
    s = scripts_model(chk, "ConfirmedGen", "confirmed", 3000 if t else 500) + scripts_random(chk, 4000 if t else 500, "confirmed", [0, 1, 2, 3, 5, 8])
    run(chk, "SourceTrace", s, "pulls from the confirming source", chunk=1500)


def b03(chk):
    t = chk.thorough
    chk.model("ForkGen", "ForkGen_t.cfg" if t else "ForkGen_q.cfg", "the fork-handling source over every node history")
    chk.model("ForkGen", "ForkGen_qs.cfg", "the same with a consumer that always names the start")
    for v, w in (("blind", "no rollbacks"), ("reverse", "the new branch from its end"), ("highest", "comparing with the highest block instead of the last one"), ("tips", "asking without the confirmed position")):
        chk.model_bad("ForkGen", f"ForkGen_bad_{v}.cfg", w)
    chk.assumptions += ["the upstream's forks stay within the confirmation depth; without a starting point they leave the first block in place"]
    s = scripts_model(chk, "ForkGen", "fork", 3000 if t else 500) + scripts_random(chk, 4000 if t else 600, "fork", [1, 2, 3, 5, 8])
    run(chk, "SourceTrace", s, "pulls from the fork-handling source", chunk=1500)


# -- the node's protocols --------------------------------------------------------------------------
class Net:
    """The blocks of a script, with slots, kinds and epochs that fit each other."""

    def __init__(self, rng, bad=0.0, big=False):
        self.rng, self.bad = rng, bad
        self.first, self.per = rng.choice([0, 3, 12, 40]), rng.choice([1, 5, 20])
        self.len = rng.choice([1, 1, 20])
        self.epoch = rng.randrange(0, 300)
        self.b = [dict(p=0, slot=0, kind="ebb", epoch=0, fill=rng.choice([0, 0, 30]))] if not (self.first == 0 and rng.random() < 0.5) else [dict(p=0, slot=0, kind="shelley", epoch=9, fill=0)]
        self.big = big

    def block(self, p):
        r = self.rng
        slot = self.b[p - 1]["slot"] + r.choice([1, 1, 2, 5, 20, r.randrange(1, 300)] if not self.big else [1, 2])
        kind = "shelley" if slot >= self.first else r.choice(["byron", "byron", "ebb"])
        b = dict(op="block", p=p, slot=slot, kind=kind, epoch=r.randrange(0, 50), fill=r.choice([0, 0, 0, 7, 2000, 70000]) if not self.big else 0)
        if r.random() < self.bad:
            b["kind"], b["junk"] = "bad", slot >= self.first or r.random() < 0.5
        self.b.append(b)
        return b

    def path(self, b):
        p = []
        while b:
            p.append(b)
            b = self.b[b - 1]["p"]
        return p[::-1]

    def script(self, ident, ops, pace, start=0, **kw):
        return dict(dict(id=ident, kind="network", secs=self.rng.choice([3600, 10**6, 10**9, U64]), base=str(self.rng.choice([0, 1, 4490510])), start=start, pace=pace, ms=0, genesis=self.b[0],
                         era=dict(first=self.first, epoch=self.epoch, per=self.per, len=self.len), ops=ops), **kw)


def net_model(chk, n):
    rng, out = chk.rng, []
    for k, h in enumerate(chk.histories("CardanoSourceGen", "CardanoSourceGen_h.cfg", n)):
        net, ops, must = Net(rng), [], False
        for o in h:
            if o["op"] == "block":
                o = net.block(o["p"])
            if o["op"] == "down":
                o = dict(o, how=rng.choice(["closed", "refuse", "silent"]))
            if o["op"] in ("release", "pull"):
                must = o["op"] == "release"
            ops.append(o)
        ops += [dict(op="release"), dict(op="up"), dict(op="drain", wait=True), dict(op="drain", wait=True)]
        if rng.random() < 0.3:
            ops.append(dict(op="stop"))
        out.append(net.script(f"net-g{k}", ops, rng.choice(["always", "once"])))
    return out


def net_random(chk, n):
    """Longer ones, with positions of every sort."""
    rng, out = chk.rng, []
    for k in range(n):
        net = Net(rng, bad=rng.choice([0, 0, 0.1]))
        ops, cur, held, must, down = [], 1, False, False, False
        forky, faulty, follow = rng.choice([0, 0.1, 0.4]), rng.choice([0, 0.1, 0.3]), rng.choice([0.9, 0.5, 0])

        def position():
            x = rng.random()
            n = len(net.b)
            if x < 0.6:
                v = [rng.randrange(1, n + 1) for _ in range(rng.choice([1, 1, 2, 4]))]
            elif x < 0.75:
                v = [-rng.randrange(1, 50) for _ in range(rng.choice([1, 2]))] + [rng.randrange(1, n + 1)]
                rng.shuffle(v)
            elif x < 0.85:
                v = [0] + ([rng.randrange(1, n + 1)] if rng.random() < 0.5 else [])
            elif x < 0.93:
                v = []
            else:
                v = [-rng.randrange(1, 50)]
            return v

        for _ in range(rng.choice([10, 25, 50])):
            x = rng.random()
            if must or x < 0.45:
                # while the node may be holding an answer, nobody waits for it
                ops.append(dict(op="pull", wait=not held, **({"from": rng.choice(["last", "told"])} if rng.random() < follow else {"from": position()})))
                must = False
            elif held and x < 0.6:
                ops.append(dict(op="release"))
                held, must = False, True
            elif x < 0.7:
                for _ in range(rng.choice([1, 1, 2, 5])):
                    ops.append(net.block(rng.randrange(1, len(net.b) + 1) if rng.random() < forky else cur))
                    cur = len(net.b)
            elif x < 0.74 and forky:
                cur = rng.randrange(1, len(net.b) + 1)
                ops.append(dict(op="turn", b=cur))
            elif x < 0.84 and rng.random() < faulty * 3 and not held:
                y = rng.random()
                if down:
                    ops.append(dict(op="up"))
                    down = False
                elif y < 0.25:
                    ops.append(dict(op="down", how=rng.choice(["closed", "refuse", "silent"])))
                    down = True
                elif y < 0.45:
                    ops.append(dict(op="drop"))
                else:
                    at = rng.choice(["intersect", "range", "block", "block"])
                    act = rng.choice(["cut", "hold"] + (["turn"] if at == "range" and forky else []))
                    b = rng.randrange(1, len(net.b) + 1) if act == "turn" else 0
                    ops.append(dict(op="plan", at=at, k=rng.randrange(0, 5) if at == "block" else 0, act=act, b=b))
                    held = act == "hold"
                    if act == "turn":
                        # the node's tip is not known to the script until the plan has been carried out
                        cur = rng.choice([cur, b])
            elif x < 0.9:
                ops.append(dict(op="clear"))
        ops += ([dict(op="release"), dict(op="pull", wait=True, **{"from": "told"})] if held else []) + [dict(op="up"), dict(op="drain", wait=True, **{"from": rng.choice(["last", "told"])})]
        if rng.random() < 0.3:
            ops.append(dict(op="stop"))
        start = rng.choice([0, 0, 1, rng.randrange(1, len(net.b) + 1), -3])
        # a start the node does not have yet when it is named is an unknown position; its slot is not
        start = start if start < 2 else 1
        out.append(net.script(f"net-r{k}", ops, rng.choice(["always", "once"]), start=start))
    return out


def net_timed(chk, n):
    rng, out = chk.rng, []
    for k in range(n):
        net, ops, ms = Net(rng), [], rng.choice([150, 400])
        for _ in range(rng.choice([5, 9])):
            for _ in range(rng.choice([1, 2])):
                ops.append(net.block(len(net.b)))
            if rng.random() < 0.6:
                ops.append(dict(op="sleep", ms=rng.choice([ms + 60, ms * 2 // 3, ms // 2])))
            ops.append(dict(op="drain", wait=True))
        out.append(net.script(f"net-t{k}", ops, "timed", ms=ms))
    return out


def net_big(chk, n):
    """More blocks than any buffer holds."""
    rng, out = chk.rng, []
    for k in range(n):
        net = Net(rng, big=True)
        ops = [net.block(len(net.b)) for _ in range(rng.choice([1001, 1100, 1300]))]
        if k % 2:
            ops += [dict(op="pull", wait=True, **{"from": "told"}) for _ in range(5)] + [dict(op="clear")]
        ops += [dict(op="drain", wait=True, max=3000, **{"from": "last"})]
        out.append(net.script(f"net-b{k}", ops, "once", big=True))
    return out


def b04(chk):
    t = chk.thorough
    chk.model("CardanoSourceGen", "CardanoSourceGen_t.cfg" if t else "CardanoSourceGen_q.cfg", "client, service and node in every interleaving, one chain")
    chk.model("CardanoSourceGen", "CardanoSourceGen_ft.cfg" if t else "CardanoSourceGen_f.cfg", "the same with forks")
    for v, w in (("noskip", "the position itself handed over"), ("skipgenesis", "genesis skipped like a position"), ("lowest", "going on from the lowest known position"),
                 ("keeps", "cleared buffers that are not"), ("giveup", "no new connection after a lost one")):
        chk.model_bad("CardanoSourceGen", f"CardanoSourceGen_bad_{v}.cfg", w)
    chk.assumptions += ["the node is a stand-in that speaks the three protocols over TCP; cardano-net and cardano-sdk are the real ones, the block decoder is a stand-in",
                        "slots grow along a chain"]
    s = net_model(chk, 5000 if t else 1200) + net_random(chk, 5000 if t else 1200) + net_timed(chk, 80 if t else 16)
    run(chk, "CardanoSourceTrace", s, "pulls over the node's protocols", chunk=1500)
    if chk.violations:
        return
    run(chk, "CardanoSourceTrace", net_big(chk, 8 if t else 2), "more blocks than the channel holds")


CHECKS = dict(B04=b04, B01=b01, B02=b02, B03=b03)
