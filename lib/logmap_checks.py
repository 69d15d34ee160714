"""Scripts for the indexed log map (L01..L03). The judgement is LogMapTrace / LogMapConcTrace."""
from core import *
from fraos_checks import run_seq, run_conc

KEYS = ["s:a", "s:", "s:b", "n:0", "n:1", "n:256", f"n:{2**64 - 1}", "b:", "b:0", "b:0,0", "b:1,255", "p:-3:x", "p:0:", "p:0:x", "u", "s:0", "s:aa"]


def reads(rng, h, keys, its=None, idx=True, full=False):
    """Every kind of question, some of them left out when not full."""
    ops = []
    for k in keys:
        for o in ("get", "contains", "iterfrom", "next"):
            if full or rng.random() < 0.5:
                ops.append(dict(op=o, h=h, key=k))
    for o in ("empty", "iter", "last", "next"):
        if full or rng.random() < 0.6:
            ops.append(dict(op=o, h=h))
    for it in its or []:
        if rng.random() < 0.5:
            ops.append(dict(op="itnext", it=it))
    return ops


def values(rng, v):
    """New values mostly; sometimes the one the key was given last, or one of another key."""
    given = {}

    def value(key):
        nonlocal v
        x = rng.random()
        if x < 0.2 and key in given:
            return given[key]
        if x < 0.27 and given:
            given[key] = rng.choice(list(given.values()))
            return given[key]
        v += 1
        given[key] = v
        return v
    return value


def model_scripts(chk, n, mode, cfg="LogMapGen.cfg"):
    rng, out = chk.rng, []
    value = values(rng, 0)
    for k, h in enumerate(chk.histories("LogMapGen", cfg, 100000)):
        if mode == "mem" and any(o["op"] != "put" for o in h):
            continue
        if len(out) >= n:
            break
        names = dict(zip("abc", rng.sample(KEYS, 3)))
        other = rng.choice([x for x in KEYS if x not in names.values()])
        cur, nh = "m0", 0
        ops = [dict(op="open", h=cur, dir="d", mode=mode, idx=True, ro=False)]
        its, nit = [], 0
        for o in h:
            if o["op"] == "put":
                ops.append(dict(op="put", h=cur, key=names[o["key"]], v=value(names[o["key"]])))
                if rng.random() < 0.4:
                    nit += 1
                    its.append(f"i{nit}")
                    ops.append(dict(op="it", h=cur, it=its[-1], key=rng.choice([None, names[o["key"]]])))
            elif o["op"] == "close":
                ops.append(dict(op="close", h=cur))
                cur, its = None, []
            else:
                nh += 1
                cur = f"m{nh}"
                ops.append(dict(op="open", h=cur, dir="d", mode=mode, idx=o["op"] != "noidx", ro=o["op"] == "ro"))
            if cur:
                ops += reads(rng, cur, list(names.values()) + [other], its, full=o["op"] != "put")
        if cur:
            ops.append(dict(op="close", h=cur))
        ops += [dict(op="open", h="z", dir="d", mode=mode, idx=True, ro=False)] + reads(rng, "z", list(names.values()), full=True) if mode != "mem" else []
        out.append(dict(id=f"gen-{mode}-{k}", ops=[{k: v for k, v in o.items() if v is not None} for o in ops]))
    return out


def random_scripts(chk, n, reopen):
    rng, out = chk.rng, []
    value = values(rng, 1000)
    for k in range(n):
        mode = "file" if reopen or k % 2 else "mem"
        keys = rng.sample(KEYS, rng.choice([2, 4, 8])) + [f"n:{rng.randrange(10)}" for _ in range(3)]
        keys = list(dict.fromkeys(keys))
        ops = [dict(op="open", h="m0", dir="d", mode=mode, idx=True, ro=False)]
        cur, idx, ro, nh, its, side, nit, stale = "m0", True, False, 0, [], None, 0, []
        for _ in range(rng.choice([10, 25, 40])):
            x = rng.random()
            if x < 0.55:
                key = rng.choice(keys[: max(1, len(keys) - 2)])
                ops.append(dict(op="put", h=cur, key=key, v=value(key)))
            elif x < 0.65 and idx:
                nit += 1
                its.append(f"i{nit}")
                ops.append(dict(op="it", h=cur, it=its[-1], **({} if rng.random() < .3 else dict(key=rng.choice(keys)))))
            elif x < 0.78 and reopen:
                ops.append(dict(op="close", h=cur))
                if side:
                    ops.append(dict(op="close", h=side))
                    side = None
                nh += 1
                stale += its
                cur, its = f"m{nh}", []
                idx, ro = rng.choice([(True, False), (True, False), (True, True), (False, False), (False, True)])
                ops.append(dict(op="open", h=cur, dir="d", mode=mode, idx=idx, ro=ro))
                ops += reads(rng, cur, keys, full=True)
            elif x < 0.83 and reopen and not ro and idx and not side:
                nh += 1
                side = f"m{nh}"
                ops.append(dict(op="open", h=side, dir="d", mode=mode, idx=False, ro=True))
                ops += [dict(op="iter", h=side), dict(op="last", h=side)]
            if stale and rng.random() < 0.2:
                ops.append(dict(op="itdrop", it=stale.pop(rng.randrange(len(stale)))))
            ops += reads(rng, cur, rng.sample(keys, min(3, len(keys))), its)
        ops += reads(rng, cur, keys, its, full=True)
        out.append(dict(id=f"rnd-{mode}-{k}", ops=ops))
    # no two positions of one key ever compare wrongly: more than 10, 100, 1000 entries
    for mode in ("mem", "file"):
        ops = [dict(op="open", h="m", dir="d", mode=mode, idx=True, ro=False)]
        for j in range(1300):
            ops.append(dict(op="put", h="m", key=f"n:{j % 7}", v=500000 + 7 * j + 4))
            if j in (9, 10, 11, 99, 100, 101, 255, 256, 257, 999, 1000, 1001, 1299):
                ops += reads(rng, "m", [f"n:{x}" for x in range(8)], full=True)
        if reopen and mode == "file":
            ops += [dict(op="close", h="m"), dict(op="open", h="m2", dir="d", mode=mode, idx=True, ro=False)] + reads(rng, "m2", [f"n:{x}" for x in range(8)], full=True)
        out.append(dict(id=f"long-{mode}", ops=ops))
    return out


def l01(chk):
    chk.model_bad("LogMapGen", "LogMapGen_bad.cfg", "an index that keeps the first position of a key")
    t = chk.thorough
    traces = model_scripts(chk, 400 if t else 60, "mem") + model_scripts(chk, 1500 if t else 120, "file") + random_scripts(chk, 1500 if t else 120, False)
    got = run_seq(chk, "l01", traces, cmd="logmap")
    chk.validate("LogMapTrace", got, what="histories of inserts, lookups and iterators", chunk=500)


def l02(chk):
    t = chk.thorough
    traces = model_scripts(chk, 3000 if t else 200, "file") + random_scripts(chk, 1500 if t else 120, True)
    got = run_seq(chk, "l02", traces, cmd="logmap")
    chk.validate("LogMapTrace", got, what="histories that close and open the map again", chunk=500)


def l03(chk):
    chk.model("LogMapConc", "LogMapConc_t.cfg" if chk.thorough else "LogMapConc.cfg", "inserting and looking up threads, step by step")
    chk.model_bad("LogMapConc", "LogMapConc_bad.cfg", "the index takes the position of whoever writes last")
    rng, traces, v = chk.rng, [], 0
    for k in range(4000 if chk.thorough else 400):
        nt = rng.choice([2, 2, 3, 4, 8])
        keys = rng.sample(KEYS, rng.choice([1, 1, 1, 2, 3]))
        setup = []
        for _ in range(rng.choice([0, 0, 1, 3])):
            v += 1
            setup.append(dict(key=rng.choice(keys), v=v))
        threads = []
        for t in range(nt):
            ops = []
            for _ in range(rng.choice([1, 2, 4, 8])):
                if rng.random() < 0.75:
                    v += 1
                    ops.append(dict(op="put", key=rng.choice(keys), v=v))
                else:
                    ops.append(dict(op="get", key=rng.choice(keys)))
            threads.append(ops)
        traces.append(dict(id=f"l03-{k}", mode=rng.choice(["mem", "file"]), setup=setup, threads=threads, keys=keys,
                           delay=rng.choice([0, 50, 200, 1000]), seed=rng.randrange(1 << 31)))
    got = run_conc(chk, "l03", traces, cmd="logmap-conc")
    chk.validate("LogMapConcTrace", got, what="concurrent inserts and lookups", chunk=1000)


CHECKS = dict(L01=l01, L02=l02, L03=l03)
