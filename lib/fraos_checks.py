"""Scripts for the append-only log (F01..F07): what is run against the real code. The judgement is
FraosLogTrace / FraosConcTrace / FraosCrashTrace."""
import json, os, shutil, subprocess
from core import *

C = 4096 * 128  # size at which the code starts a new chunk: only used to aim at the boundary
HUGE = [2**31, 2**32, 2**59, 2**60 - 1, 2**60, 2**60 + 1, 2**61, 2**63 - 1, 2**63, 2**64 - 2, 2**64 - 1]


class Gen:
    """Histories of one log, aiming at the boundaries of its chunks."""

    def __init__(self, rng, big=0.25):
        self.rng, self.big = rng, big
        self.n, self.used, self.cap, self.seed = 0, 0, 0, rng.randrange(1 << 30)

    def size(self):
        r = self.rng
        rem = self.cap - self.used
        x = r.random()
        if x > self.big:
            return r.choice([1, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 100, 255, 256, 1000, 4095, 4096, 4097])
        if x < self.big * 0.5 and rem > 2:
            return max(1, rem + r.choice([-2, -1, 0, 1]))
        return r.choice([C - 1, C, C + 1, C // 2, C // 2 + 1, 2 * C, C + 4096, 3 * C // 2 + 5, 65536])

    def note(self, total):
        # mirrors the chunk arithmetic well enough to aim at it; nothing depends on it being right
        if self.cap and self.used + total < self.cap:
            self.used += total
        else:
            self.cap, self.used = max(total, C), total

    def rec(self, size=None):
        self.seed += 1
        return [self.seed, self.size() if size is None else size]

    def batch(self, k=None):
        k = k or self.rng.choice([1, 1, 1, 2, 3, 5])
        b, tot = [], 0
        for _ in range(k):
            x = self.rec()
            if tot + x[1] > 4 * C:
                x[1] = 5
            tot += x[1]
            b.append(x)
        self.note(tot)
        self.n += len(b)
        return b

    def index(self):
        r = self.rng
        x = r.random()
        if x < 0.6 and self.n:
            return r.randrange(self.n)
        if x < 0.85:
            return self.n + r.choice([0, 0, 1, 2, 1000])
        return str(r.choice(HUGE))


def run_seq(chk, name, traces, timeout=600, cmd="seq"):
    """Runs histories on the real code; a history during which the process dies is reported."""
    binp, so = build("hfraos"), shim()
    script = chk.file(f"{name}.script", traces)
    outp = f"{rundir()}/{name}.out"
    sc = chk.scratch()
    done, todo = [], traces
    while todo:
        script = chk.file(f"{name}.script", todo)
        p = run_harness([binp, cmd, script, outp, f"{sc}/{len(todo)}"], env=dict(LD_PRELOAD=so), timeout=timeout)
        rows = read_ndjson(outp)
        got = [r for r in rows if "ev" in r]
        done += got
        if len(got) == len(todo):
            break
        if p is None:
            crashed = todo[len(got)]
            chk.violation(dict(kind="hang", what=name, detail=f"history did not finish within {timeout}s", trace=crashed))
        else:
            crashed = todo[len(got)]
            chk.violation(dict(kind="crash", what=name, detail=f"process ended with {p.returncode}: {p.stderr[-500:]}", trace=crashed))
        todo = todo[len(got) + 1:]
        if len(chk.violations) > 5:
            break
    shutil.rmtree(sc, ignore_errors=True)
    return done


UNIT = C // 4    # the model's data chunk has 4 units
ENTRY = 10923    # the model's index chunk has 3 entries, the real one 32768
MMAP, MUNMAP, TRUNC, MSYNC, FSYNC = 1 << 1, 1 << 2, 1 << 3, 1 << 4, 1 << 6


def model_scripts(chk, cfg, n, mode="rw", reads=True, index_scale=0):
    """Histories generated by FraosGen, as scripts for the real log. A record of l units becomes a
    record of l quarter chunks; with index_scale it becomes a third of an index chunk of small ones."""
    out = []
    hs = chk.histories("FraosGen", f"FraosGen_{cfg}.cfg", n)
    for k, h in enumerate(hs):
        scale = k < index_scale
        seed = 100000 * (k + 1)
        ops = [dict(op="open", h="a", dir="d", mode=mode)]
        hs_, total, nh = ["a"], 0, 1
        for o in h:
            if o["op"] == "append":
                recs = []
                for l in o["b"]:
                    if scale:
                        recs += [[seed + j, 1 + (j * 7 + l) % 9] for j in range(ENTRY)]
                        seed += ENTRY
                    else:
                        seed += 1
                        recs.append([seed, l * UNIT])
                op = dict(op="append", h=hs_[-1], recs=recs, api="seqno")
                if o["at"] != "none":
                    kinds = dict(dmap=TRUNC if seed % 2 else MMAP, imap=TRUNC if seed % 2 else MMAP, dflush=MSYNC, iflush=MSYNC)[o["at"]]
                    op.update(fault=o["n"], errno={TRUNC: 28, MMAP: 12, MSYNC: 5}[kinds], kinds=kinds)
                ops.append(op)
                total += len(recs)
                if reads:
                    ops += [dict(op="len", h=hs_[0]), dict(op="last", h=hs_[0]), dict(op="get", h=hs_[0], i=total)]
                    ops += [dict(op="get", h=hs_[0], i=chk.rng.randrange(total)) for _ in range(2)]
                    if not scale:
                        ops.append(dict(op="all", h=hs_[-1], i=0))
            elif o["op"] == "clone":
                nh += 1
                ops.append(dict(op="clone", h=f"a{nh}", **{"from": hs_[-1]}))
                hs_.append(f"a{nh}")
            elif o["op"] == "drop":
                d = hs_.pop(chk.rng.randrange(len(hs_)))
                ops.append(dict(op="drop", h=d))
                if hs_:
                    ops.append(dict(op="all", h=hs_[0], i=0))
            elif o["op"] == "open":
                nh += 1
                ops.append(dict(op="open", h=f"a{nh}", dir="d", mode=mode))
                hs_.append(f"a{nh}")
                if reads:
                    ops.append(dict(op="all", h=f"a{nh}", i=0))
        if hs_:
            ops += [dict(op="all", h=hs_[0], i=0), dict(op="len", h=hs_[0])]
        out.append(dict(id=f"model-{cfg}-{k}", ops=ops))
    return out


def f01(chk):
    chk.model("MCFraosStore", "MCFraosStore_seq.cfg", "append, chunk roll-over, merging and lookup: reads equal the appended sequence")
    chk.model("MCFraosStore", "MCFraosStore_mem.cfg", "the same in memory")
    chk.model_bad("MCFraosStore", "MCFraosStore_bad_pub_early.cfg", "length published before the entries are written")
    rng = chk.rng
    traces = model_scripts(chk, "seq", 60 if not chk.thorough else 2000) + model_scripts(chk, "mem", 20 if not chk.thorough else 400, mode="mem")
    nseq = 60 if not chk.thorough else 900
    for k in range(nseq):
        g = Gen(rng, rng.choice([0.02, 0.15, 0.5]))
        mode = "mem" if k % 3 == 0 else "rw"
        ops = [dict(op="open", h="a", dir="d", mode=mode)]
        for _ in range(rng.choice([6, 12, 30])):
            x = rng.random()
            if x < 0.5:
                if rng.random() < 0.05:
                    ops.append(dict(op="append", h="a", recs=[]))
                else:
                    b = g.batch()
                    ops.append(dict(op="append", h="a", recs=b, api="put" if len(b) == 1 and rng.random() < 0.5 else "seqno"))
            elif x < 0.8:
                ops.append(dict(op="get", h="a", i=g.index()))
            elif x < 0.87:
                ops.append(dict(op="last", h="a"))
            elif x < 0.95:
                ops.append(dict(op="len", h="a"))
            else:
                ops.append(dict(op="all", h="a", i=g.index()))
        # iterators that run beside appends
        ops.append(dict(op="iter", h="a", it="i", i=0 if rng.random() < .5 or not g.n else rng.randrange(g.n)))
        for _ in range(4):
            ops.append(dict(op="next", it="i"))
        ops.append(dict(op="append", h="a", recs=g.batch()))
        for _ in range(rng.choice([2, g.n + 1])):
            ops.append(dict(op="next", it="i"))
        # iterators taken from behind the end, which the appends reach later
        for j in range(2):
            ops.append(dict(op="iter", h="a", it=f"b{j}", i=g.n + rng.choice([0, 1, 1, 2, 3])))
            ops += [dict(op="next", it=f"b{j}")] * rng.choice([0, 1, 2])
        for _ in range(3):
            ops.append(dict(op="append", h="a", recs=g.batch()))
            ops += [dict(op="next", it=rng.choice(["b0", "b1"])) for _ in range(3)]
        ops += [dict(op="len", h="a"), dict(op="last", h="a"), dict(op="all", h="a", i=0), dict(op="get", h="a", i=g.n),
                dict(op="get", h="a", i=str(rng.choice(HUGE))), dict(op="all", h="a", i=str(rng.choice(HUGE))), dict(op="drop", h="a")]
        traces.append(dict(id=f"f01-{k}", ops=ops))
    # every huge number once, on an empty and on a filled log
    ops = [dict(op="open", h="a", dir="d", mode="mem")]
    for rnd in range(2):
        for h in HUGE:
            ops += [dict(op="get", h="a", i=str(h)), dict(op="all", h="a", i=str(h))]
        ops += [dict(op="len", h="a"), dict(op="last", h="a")]
        if not rnd:
            ops.append(dict(op="append", h="a", recs=[[1, 5], [2, 6]]))
    traces.append(dict(id="f01-huge", ops=ops))
    # more chunks than the code keeps mapped separately: consolidation, then more appends
    for mode in ["rw"] + (["mem"] if chk.thorough else []):
        ops = [dict(op="open", h="a", dir="d", mode=mode)]
        seed = 1000
        for j in range(21 if not chk.thorough else 43):
            # batches of one record each would cost one append per chunk: that is what is needed
            for _ in range(100):
                seed += 1
                ops.append(dict(op="append", h="a", recs=[[seed, C // 2 + 1 + (seed * 7919) % 4099]]))
            ops.append(dict(op="get", h="a", i=j * 100 + 7))
            ops.append(dict(op="get", h="a", i=max(0, j * 100 - 1999)))
        ops += [dict(op="all", h="a", i=0), dict(op="len", h="a"), dict(op="drop", h="a"),
                dict(op="open", h="a", dir="d", mode=mode if mode == "rw" else "mem")]
        ops += [dict(op="len", h="a"), dict(op="all", h="a", i=0)] if mode == "rw" else []
        ops.append(dict(op="drop", h="a"))
        if mode == "mem":
            ops = ops[:-2]
        traces.append(dict(id=f"f01-many-{mode}", ops=ops))
    # more index entries than fit one index chunk, in batches that straddle its end
    for k, sizes in enumerate([[32766, 1, 1, 1], [32760, 20, 3], [40000, 2]][: 2 if not chk.thorough else 3]):
        ops = [dict(op="open", h="a", dir="d", mode="rw" if k != 1 else "mem")]
        seed = 5000
        for s in sizes:
            ops.append(dict(op="append", h="a", recs=[[seed + j, 1 + (seed + j) % 13] for j in range(s)]))
            seed += s
            ops += [dict(op="len", h="a"), dict(op="last", h="a"), dict(op="get", h="a", i=seed - 5000 - 1), dict(op="get", h="a", i=seed - 5000)]
        ops += [dict(op="get", h="a", i=x) for x in (0, 32765, 32766, 32767, 32768)]
        ops += [dict(op="all", h="a", i=32755)]
        traces.append(dict(id=f"f01-index-{k}", ops=ops))
    got = run_seq(chk, "f01", traces)
    chk.validate("FraosLogTrace", got, what="sequential histories of one log")



def f02(chk):
    chk.model("MCFraosStore", "MCFraosStore_fault.cfg", "any step of an append may fail: the log shows exactly the acknowledged records")
    chk.model("MCFraosStore", "MCFraosStore_faultcrash.cfg", "the same with a crash afterwards")
    chk.model_bad("MCFraosStore", "MCFraosStore_bad_no_rollback.cfg", "a failed flush leaves its records behind")
    chk.model_bad("MCFraosStore", "MCFraosStore_bad_merge_fails.cfg", "a failed merge of chunks fails the append after it was done")
    if chk.thorough:
        chk.model("MCFraosStore", "MCFraosStore_deep.cfg", "faults, crashes and several handles together")
    rng = chk.rng
    traces = model_scripts(chk, "fault", 150 if not chk.thorough else 4000)
    for t in traces:
        # closed and opened once more at the end
        live = [o["h"] for o in t["ops"] if o["op"] == "open"][-1]
        if not any(o["op"] == "drop" and o["h"] == live for o in t["ops"]):
            t["ops"].append(dict(op="drop", h=live))
        t["ops"] += [dict(op="open", h="z", dir="d", mode="rw"), dict(op="all", h="z", i=0), dict(op="len", h="z"),
                     dict(op="append", h="z", recs=[[7, 9], [8, 5]]), dict(op="all", h="z", i=0)]
    # every call of an append made to fail, in every kind of place
    layouts = dict(
        empty=[], small=[[5, 7]], inside=[[C // 2], [3, 4]], nearly=[[C - 10]], exact=[[C - 5, 4]], over=[[C], [C], [17]],
        reopened=[[10, 20], "reopen"], reopened_big=[[C, 5], "reopen", [9]])
    batches = dict(one=[6], fill=[9], three=[1, 2, 3], roll=[C // 2 + 1], big=[C + 1, 1], exactly=[C])
    seed = 1
    for lname, lay in layouts.items():
        for bname, bat in batches.items():
            for kinds, errno in ((TRUNC, 28), (TRUNC, 27), (MMAP, 12), (MSYNC, 5), (FSYNC, 5)):
                for nth in (1, 2) if not chk.thorough else (1, 2, 3):
                    if kinds == FSYNC and (nth > 1 or bname != "one"):
                        continue
                    if not chk.thorough and rng.random() < 0.45:
                        continue
                    mode = "mem" if kinds != TRUNC and rng.random() < 0.15 and "reopen" not in lay else "rw"
                    h, n, ops = "a", 0, [dict(op="open", h="a", dir="d", mode=mode)]
                    for b in lay:
                        if b == "reopen":
                            ops += [dict(op="drop", h=h), dict(op="open", h=h + "r", dir="d", mode=mode)]
                            h += "r"
                            continue
                        recs = []
                        for l in b:
                            seed += 1
                            recs.append([seed, l])
                        ops.append(dict(op="append", h=h, recs=recs))
                        n += len(b)
                    def batch(ls):
                        nonlocal seed
                        r = []
                        for l in ls:
                            seed += 1
                            r.append([seed, l])
                        return r
                    ops.append(dict(op="append", h=h, recs=batch(bat), fault=nth, errno=errno, kinds=kinds))
                    ops += [dict(op="len", h=h), dict(op="last", h=h), dict(op="get", h=h, i=n), dict(op="get", h=h, i=n + 1), dict(op="all", h=h, i=0)]
                    if rng.random() < 0.3:
                        ops.append(dict(op="append", h=h, recs=batch(rng.choice([[4, 0, 5], [0], [0, 3], [C, 0]]))))
                        ops.append(dict(op="all", h=h, i=0))
                    if rng.random() < 0.4:
                        ops.append(dict(op="append", h=h, recs=batch(rng.choice(list(batches.values()))), fault=rng.choice([1, 2]), errno=5, kinds=rng.choice([TRUNC, MMAP, MSYNC])))
                        ops += [dict(op="len", h=h), dict(op="all", h=h, i=0)]
                    ops.append(dict(op="append", h=h, recs=batch(rng.choice(list(batches.values())))))
                    ops += [dict(op="len", h=h), dict(op="all", h=h, i=0)]
                    ops.append(dict(op="append", h=h, recs=batch([2, 2])))
                    ops += [dict(op="last", h=h), dict(op="len", h=h), dict(op="all", h=h, i=0), dict(op="drop", h=h)]
                    if mode == "rw":
                        ops += [dict(op="open", h="z", dir="d", mode="rw"), dict(op="len", h="z"), dict(op="all", h="z", i=0),
                                dict(op="append", h="z", recs=batch([11])), dict(op="all", h="z", i=0), dict(op="drop", h="z")]
                    traces.append(dict(id=f"f02-{lname}-{bname}-{kinds}-{nth}", ops=ops))
    # batches with an empty record at every place
    for k in range(25 if not chk.thorough else 300):
        g = Gen(rng, 0.2)
        ops = [dict(op="open", h="a", dir="d", mode=rng.choice(["mem", "rw"]))]
        for _ in range(8):
            if rng.random() < 0.5:
                b = [g.rec(rng.choice([1, 5, 4096])) for _ in range(rng.choice([1, 2, 3, 6]))]
                b[rng.randrange(len(b))][1] = 0
                ops.append(dict(op="append", h="a", recs=b, api="put" if len(b) == 1 and rng.random() < .5 else "seqno"))
            else:
                ops.append(dict(op="append", h="a", recs=g.batch()))
            ops += [dict(op="len", h="a"), dict(op="last", h="a"), dict(op="all", h="a", i=0)]
        traces.append(dict(id=f"f02-empty-{k}", ops=ops))
    # the failed call happens when old chunks are to be merged
    for nth in (1, 2, 3, 4):
        ops, seed = [dict(op="open", h="a", dir="d", mode="rw")], 900000
        if not chk.thorough and nth > 2:
            continue
        for j in range(2050):
            seed += 1
            op = dict(op="append", h="a", recs=[[seed, C // 2 + 1]])
            if j == 2049:
                op.update(fault=nth, errno=12, kinds=MMAP)
            ops.append(op)
        ops += [dict(op="len", h="a"), dict(op="get", h="a", i=2049), dict(op="get", h="a", i=2048), dict(op="get", h="a", i=5),
                dict(op="append", h="a", recs=[[1, 5], [2, C]]), dict(op="append", h="a", recs=[[3, C]]), dict(op="all", h="a", i=0), dict(op="drop", h="a"),
                dict(op="open", h="b", dir="d", mode="rw"), dict(op="all", h="b", i=2040), dict(op="len", h="b")]
        traces.append(dict(id=f"f02-merge-{nth}", ops=ops))
    got = run_seq(chk, "f02", traces)
    fired = sum(1 for t in got for e in t["ev"] if e.get("fired"))
    chk.cov["faults_fired"] = fired
    chk.validate("FraosLogTrace", got, what="histories with failing system calls and rejected batches")


def conc_traces(chk, n):
    rng = chk.rng
    traces = []
    for k in range(n):
        nt = rng.choice([2, 2, 3, 4, 6])
        mode = rng.choice(["mem", "rw", "rw"])
        seed = rng.randrange(1 << 40)
        def recs(m):
            nonlocal seed
            out = []
            for _ in range(m):
                seed += 1
                out.append([seed, rng.choice([1, 3, 8, 100, 5000, C // 4 + 1, C // 2] if k % 3 == 0 else [1, 2, 8, 9, 64, 300])])
            return out
        setup = [dict(op="append", recs=recs(rng.choice([1, 2, 5]))) for _ in range(rng.choice([0, 0, 1, 3]))]
        ns = sum(len(o["recs"]) for o in setup)
        threads = []
        for t in range(nt):
            writer = t == 0 or rng.random() < 0.5
            ops = []
            for _ in range(rng.choice([4, 8, 12])):
                x = rng.random()
                if writer and x < 0.6:
                    ops.append(dict(op="append", recs=recs(rng.choice([1, 1, 2, 3, 6])), api="seqno"))
                elif x < 0.75:
                    ops.append(dict(op="get", i=max(0, ns + rng.randrange(-1, 14))))
                elif x < 0.82:
                    ops.append(dict(op="last"))
                elif x < 0.9:
                    ops.append(dict(op="len"))
                elif x < 0.98:
                    ops.append(dict(op="next"))
                else:
                    ops.append(dict(op="dropclone"))
            if rng.random() < 0.3:
                ops.append(dict(op="drop"))
            threads.append(ops)
        traces.append(dict(id=f"conc-{k}", mode=mode, setup=setup, threads=threads, delay=rng.choice([0, 0, 30, 200]), seed=rng.randrange(1 << 31)))
    return traces


def run_conc(chk, name, traces, timeout=500, cmd="conc"):
    binp, so = build("hfraos"), shim()
    done, todo = [], traces
    outp, sc = f"{rundir()}/{name}.out", chk.scratch()
    while todo:
        p = run_harness([binp, cmd, chk.file(f"{name}.script", todo), outp, f"{sc}/{len(todo)}"], env=dict(LD_PRELOAD=so), timeout=timeout)
        got = [r for r in read_ndjson(outp) if "ev" in r]
        done += got
        if len(got) >= len(todo):
            break
        chk.violation(dict(kind="crash" if p else "hang", what=name, trace=todo[len(got)],
                           detail=f"process ended with {p.returncode}: {p.stderr[-400:]}" if p else "did not finish (deadlock?)"))
        todo = todo[len(got) + 1:]
        if len(chk.violations) > 3:
            break
    return done


def f03(chk):
    chk.model("FraosConc", "FraosConc_q.cfg", "appending and reading threads, step by step")
    if chk.thorough:
        chk.model("FraosConc", "FraosConc_t.cfg", "three threads")
    chk.model_bad("FraosConc", "FraosConc_bad_no_lock.cfg", "appends without the write lock")
    chk.model_bad("FraosConc", "FraosConc_bad_index_first.cfg", "index entry visible before the data")
    got = run_conc(chk, "f03", conc_traces(chk, 250 if not chk.thorough else 4000))
    chk.validate("FraosConcTrace", got, what="concurrent appends and reads", chunk=1000)
    overlap = 0
    for t in got:
        live = set()
        for e in t["ev"]:
            if e["c"] == "inv":
                overlap += len(live)
                live.add(e["t"])
            elif e["c"] == "ret":
                live.discard(e["t"])
    chk.cov["overlapping_operation_pairs"] = overlap


def f04(chk):
    chk.model("MCFraosStore", "MCFraosStore_handles.cfg", "closing and opening again; files are cut to size by the last handle only")
    rng = chk.rng
    traces = model_scripts(chk, "seq", 80 if not chk.thorough else 1500)
    for t in traces:
        h = [o["h"] for o in t["ops"] if o["op"] == "open"][-1]
        if not any(o["op"] == "drop" and o["h"] == h for o in t["ops"]):
            t["ops"].append(dict(op="drop", h=h))
        t["ops"] += [dict(op="files", dir="d"), dict(op="open", h="ro", dir="d", mode="ro"), dict(op="all", h="ro", i=0), dict(op="len", h="ro"),
                     dict(op="drop", h="ro"), dict(op="files", dir="d"), dict(op="open", h="z", dir="d", mode="rw"), dict(op="all", h="z", i=0),
                     dict(op="append", h="z", recs=[[5, 6]]), dict(op="all", h="z", i=0), dict(op="drop", h="z"), dict(op="files", dir="d")]
    for k in range(120 if not chk.thorough else 2500):
        g = Gen(rng, rng.choice([0.02, 0.3, 0.6]))
        ops, cur, nh = [], None, 0
        ro = []
        for _ in range(rng.choice([8, 16, 24])):
            x = rng.random()
            if cur is None:
                nh += 1
                ops.append(dict(op="open", h=f"w{nh}", dir="d", mode="rw"))
                cur = f"w{nh}"
                g.cap = 0
            elif x < 0.42:
                ops.append(dict(op="append", h=cur, recs=g.batch()))
            elif x < 0.5:
                ops += [dict(op="all", h=cur, i=0), dict(op="len", h=cur), dict(op="last", h=cur)]
            elif x < 0.68:
                ops.append(dict(op="drop", h=cur))
                cur = None
                if rng.random() < 0.7:
                    ops.append(dict(op="files", dir="d"))
                if rng.random() < 0.2:
                    # opened and closed without a change
                    ops += [dict(op="open", h=f"x{len(ops)}", dir="d", mode="rw")]
                    ops += [dict(op="drop", h=ops[-1]["h"]), dict(op="files", dir="d")]
            else:
                # a reader beside whatever is open
                h = f"r{len(ops)}"
                ops += [dict(op="files", dir="d"), dict(op="open", h=h, dir="d", mode="ro"), dict(op="all", h=h, i=0), dict(op="len", h=h), dict(op="last", h=h),
                        dict(op="get", h=h, i=g.n), dict(op="get", h=h, i=max(0, g.n - 1))]
                if rng.random() < 0.3:
                    ops += [dict(op="iter", h=h, it=h + "i", i=0), dict(op="next", it=h + "i"), dict(op="files", dir="d"), dict(op="dropiter", it=h + "i")]
                if rng.random() < 0.7:
                    ops += [dict(op="drop", h=h), dict(op="files", dir="d")]
                else:
                    ops.append(dict(op="files", dir="d"))
                    ro.append(h)
        for h in ro:
            ops += [dict(op="all", h=h, i=0), dict(op="len", h=h), dict(op="files", dir="d"), dict(op="drop", h=h), dict(op="files", dir="d")]
        if cur:
            ops += [dict(op="drop", h=cur), dict(op="files", dir="d")]
        ops += [dict(op="open", h="end", dir="d", mode="rw"), dict(op="all", h="end", i=0), dict(op="append", h="end", recs=g.batch()),
                dict(op="all", h="end", i=0), dict(op="drop", h="end"), dict(op="open", h="end2", dir="d", mode="ro"), dict(op="all", h="end2", i=0), dict(op="len", h="end2")]
        traces.append(dict(id=f"f04-{k}", ops=ops))
    # a log whose index needs more than one chunk
    ops, seed = [], 70000
    for r, sizes in enumerate([[32767], [1, 5], [40000 if chk.thorough else 300]]):
        ops.append(dict(op="open", h=f"a{r}", dir="d", mode="rw"))
        for s in sizes:
            ops.append(dict(op="append", h=f"a{r}", recs=[[seed + j, 1 + j % 5] for j in range(s)]))
            seed += s
        ops += [dict(op="len", h=f"a{r}"), dict(op="last", h=f"a{r}"), dict(op="drop", h=f"a{r}"), dict(op="files", dir="d")]
    ops += [dict(op="open", h="q", dir="d", mode="ro"), dict(op="len", h="q"), dict(op="all", h="q", i=32760), dict(op="get", h="q", i=32767)]
    traces.append(dict(id="f04-index", ops=ops))
    got = run_seq(chk, "f04", traces)
    chk.validate("FraosLogTrace", got, what="closing, opening again, reading beside a writer")


def f07(chk):
    chk.model("MCFraosStore", "MCFraosStore_handles.cfg", "several handles, dropped one by one")
    chk.model_bad("MCFraosStore", "MCFraosStore_bad_shrink_any.cfg", "every dropped handle cuts the files")
    rng = chk.rng
    traces = model_scripts(chk, "handles", 120 if not chk.thorough else 3000)
    for k in range(120 if not chk.thorough else 2500):
        g = Gen(rng, rng.choice([0.02, 0.3]))
        mode = "mem" if k % 4 == 0 else "rw"
        ops = [dict(op="open", h="h0", dir="d", mode=mode)]
        hs, its, n = ["h0"], [], 0
        for _ in range(rng.choice([10, 20, 40])):
            x = rng.random()
            if x < 0.2:
                n += 1
                ops.append(dict(op="clone", h=f"h{n}", **{"from": rng.choice(hs)}))
                hs.append(f"h{n}")
            elif x < 0.32 and len(hs) > 1:
                ops.append(dict(op="drop", h=hs.pop(rng.randrange(len(hs)))))
            elif x < 0.62:
                ops.append(dict(op="append", h=rng.choice(hs), recs=g.batch()))
            elif x < 0.72:
                n += 1
                ops.append(dict(op="iter", h=rng.choice(hs), it=f"i{n}", i=rng.randrange(g.n + 1)))
                its.append(f"i{n}")
            elif x < 0.82 and its:
                ops.append(dict(op="next", it=rng.choice(its)))
            elif x < 0.88 and its:
                ops.append(dict(op="dropiter", it=its.pop(rng.randrange(len(its)))))
            else:
                h = rng.choice(hs)
                ops += [dict(op="all", h=h, i=rng.randrange(g.n + 1)), dict(op="len", h=h), dict(op="last", h=h), dict(op="get", h=h, i=rng.randrange(g.n + 1))]
        # all handles go; iterators keep reading
        if its and rng.random() < 0.7:
            for h in hs:
                ops.append(dict(op="drop", h=h))
            hs = []
            for it in its:
                ops += [dict(op="next", it=it) for _ in range(3)]
        for h in hs:
            ops.append(dict(op="drop", h=h))
        # a new opening while iterators of the old one live on; they go at any moment
        if mode == "rw" and rng.random() < 0.6:
            ops += [dict(op="open", h="y", dir="d", mode="rw"), dict(op="all", h="y", i=0)]
            rng.shuffle(its)
            for _ in range(rng.choice([2, 5])):
                ops.append(dict(op="append", h="y", recs=g.batch()))
                if its:
                    ops.append(dict(op="next", it=rng.choice(its)))
                    if rng.random() < 0.6:
                        ops.append(dict(op="dropiter", it=its.pop()))
                ops += [dict(op="all", h="y", i=rng.randrange(g.n + 1)), dict(op="len", h="y")]
            ops.append(dict(op="drop", h="y"))
        for it in its:
            ops.append(dict(op="dropiter", it=it))
        if mode == "rw":
            ops += [dict(op="files", dir="d"), dict(op="open", h="z", dir="d", mode="rw"), dict(op="all", h="z", i=0), dict(op="len", h="z"), dict(op="drop", h="z")]
        traces.append(dict(id=f"f07-{k}", ops=ops))
    # the last handle closed after a handle was lost without closing, or after an append that failed
    for k in range(60 if not chk.thorough else 800):
        g, h, ops = Gen(rng, rng.choice([0.02, 0.3, 0.6])), 0, []
        for rnd in range(rng.choice([2, 3, 4])):
            h += 1
            ops.append(dict(op="open", h=f"h{h}", dir="d", mode="rw"))
            ops.append(dict(op="all", h=f"h{h}", i=0))
            for _ in range(rng.choice([0, 0, 1, 2])):
                if rng.random() < 0.4:
                    kinds, errno = rng.choice([(TRUNC, 28), (MMAP, 12), (MSYNC, 5)])
                    ops.append(dict(op="append", h=f"h{h}", recs=[[77 + k, rng.choice([3, 300, C + 1])]], api="seqno", fault=rng.choice([1, 2]), errno=errno, kinds=kinds))
                else:
                    ops.append(dict(op="append", h=f"h{h}", recs=g.batch()))
            if rng.random() < 0.5:
                ops.append(dict(op="lose", h=f"h{h}"))
            else:
                ops += [dict(op="drop", h=f"h{h}"), dict(op="files", dir="d")]
        ops += [dict(op="open", h="y", dir="d", mode="rw"), dict(op="len", h="y"), dict(op="drop", h="y"), dict(op="files", dir="d"),
                dict(op="open", h="z", dir="d", mode="rw"), dict(op="all", h="z", i=0), dict(op="drop", h="z"), dict(op="files", dir="d")]
        traces.append(dict(id=f"f07-left-{k}", ops=ops))
    got = run_seq(chk, "f07", traces)
    chk.validate("FraosLogTrace", got, what="clones and iterators dropped in any order")
    # handles dropped while other threads append and read
    ct = conc_traces(chk, 60 if not chk.thorough else 1000)
    for t in ct:
        for ops in t["threads"]:
            ops[:] = [o for x in ops for o in ([x, dict(op="dropclone")] if rng.random() < 0.4 else [x])]
            if ops[-1]["op"] != "drop" and rng.random() < 0.6:
                ops.append(dict(op="drop"))
    got = run_conc(chk, "f07c", ct)
    chk.validate("FraosConcTrace", got, what="handles dropped by other threads")


# ---- crashes -------------------------------------------------------------------------------
from concurrent.futures import ThreadPoolExecutor


class Crash:
    """Runs a history in a directory and ends it at a chosen call; then looks at what is left."""

    def __init__(self, chk):
        self.chk, self.bin, self.so = chk, build("hfraos"), shim()
        self.root = chk.scratch()
        self.n = 0

    def dir(self):
        self.n += 1
        d = f"{self.root}/k{self.n}"
        os.makedirs(f"{d}/db")
        return d

    def run(self, d, ops, n, mode, shadow=False, tag="0"):
        """-> (rows of the acknowledgement file, exit code)"""
        tr = dict(id="k", ops=ops)
        if shadow:
            tr["shadow"] = f"{d}/sh"
            os.makedirs(f"{d}/sh", exist_ok=True)
        sp = f"{d}/script{tag}"
        with open(sp, "w") as f:
            f.write(json.dumps(tr) + "\n")
        p = run_harness([self.bin, "kill", sp, f"{d}/acks{tag}", f"{d}/db", str(n), str(mode)], env=dict(LD_PRELOAD=self.so), timeout=120)
        return read_ndjson(f"{d}/acks{tag}"), (p.returncode if p else None)

    def steps(self, ops, n, f, words):
        """-> the stores into f between calls n and n + 1, in the order in which they happened"""
        d = self.dir()
        with open(f"{d}/script", "w") as fh:
            fh.write(json.dumps(dict(id="k", ops=ops)) + "\n")
        run_harness([self.bin, "steps", f"{d}/script", f"{d}/acks", f"{d}/db", str(n), f, ",".join(str(o) for o, b in words), f"{d}/steps"],
                    env=dict(LD_PRELOAD=self.so), timeout=60)
        rows = read_ndjson(f"{d}/steps") if os.path.exists(f"{d}/steps") else []
        if not rows or not rows[-1].get("end"):
            return None
        order = [[(o, bytes(b)) for o, b in r["changes"]] for r in rows if "changes" in r]
        last = {o: b for y in order for o, b in y}
        shutil.rmtree(d, ignore_errors=True)
        return order if last == dict(words) else None

    def events(self, rows):
        """history as far as it got: operations that returned, then the one that did not"""
        ev, call = [], None
        for r in rows:
            if r["c"] == "call":
                call = r
            elif r["c"] == "ret":
                ev.append(dict(c="done", op=call["op"], k=r["k"], n=r["n"], recs=call["recs"], msg=r.get("msg", "")))
                if r["k"] in ("err", "panic"):
                    pass
                call = None
        return ev, (call["recs"] if call else None), call is not None

    def dump(self, items):
        """items: (directory, trace) -> the traces with what a fresh opening shows appended"""
        out, todo = [], list(items)
        while todo:
            lp, op = self.chk.file("dump.list", [dict(dir=d, recs=[[9000 + i % 50, 11], [9100 + i % 50, 3]]) for i, (d, t) in enumerate(todo)]), f"{rundir()}/dump.out"
            p = run_harness([self.bin, "dump", lp, op], timeout=600)
            got = [r for r in read_ndjson(op) if "ev" in r]
            for (d, t), g in zip(todo, got):
                for e in g["ev"]:
                    o = e.get("op", "show")
                    t["ev"].append(dict(c="show" if o == "show" else "more", k=e["k"], t=e["t"], n=e["n"], recs=e.get("recs", []), msg=e.get("msg", "")))
                out.append(t)
            if len(got) == len(todo):
                break
            d, t = todo[len(got)]
            self.chk.violation(dict(kind="crash", what="opening the files that are left", detail=f"process ended with {p.returncode if p else 'a timeout'}", trace=t))
            todo = todo[len(got) + 1:]
            if len(self.chk.violations) > 5:
                break
        return out


def crash_history(g, rng, closes=True, small=False):
    ops = [dict(op="open")]
    isopen = True
    for _ in range(rng.choice([2, 3, 4])):
        if isopen:
            ops.append(dict(op="append", recs=[g.rec(rng.choice([1, 7, 8, 40, 300])) for _ in range(rng.choice([1, 2, 3]))] if small or rng.random() < 0.5 else g.batch()))
            if closes and rng.random() < 0.3:
                ops.append(dict(op="close"))
                isopen = False
        else:
            ops.append(dict(op="open"))
            isopen = True
    if closes and isopen and rng.random() < 0.5:
        ops.append(dict(op="close"))
    return ops


def from_model(hs):
    out, seed = [], 31
    for h in hs:
        ops, up = [dict(op="open")], True
        for o in h:
            if o["op"] == "append":
                recs = []
                for l in o["b"]:
                    seed += 1
                    recs.append([seed, l * UNIT])
                ops.append(dict(op="append", recs=recs))
            elif o["op"] == "drop":
                ops.append(dict(op="close"))
            elif o["op"] == "open":
                ops.append(dict(op="open"))
        out.append(ops)
    return out


def words_that_differ(a, b):
    """-> list of (offset, bytes) of the 8-byte words in which b differs from a, ascending; None if sizes differ"""
    if len(a) != len(b):
        return None
    out = []
    step = 4096
    for p in range(0, len(a), step):
        x, y = a[p:p + step], b[p:p + step]
        if x != y:
            for q in range(0, len(x), 8):
                if x[q:q + 8] != y[q:q + 8]:
                    out.append((p + q, y[q:q + 8]))
    return out


def f05(chk):
    chk.model("MCFraosStore", "MCFraosStore_crash.cfg", "death at every step, twice: what is opened afterwards")
    chk.model("MCFraosStore", "MCFraosStore_faultcrash.cfg", "death after a failed append")
    chk.model_bad("MCFraosStore", "MCFraosStore_bad_index_first.cfg", "index before data")
    chk.model_bad("MCFraosStore", "MCFraosStore_bad_no_find_end.cfg", "opening without looking for the end of the index")
    rng = chk.rng
    cr = Crash(chk)
    hists = from_model(chk.histories("FraosGen", "FraosGen_seq.cfg", 5 if not chk.thorough else 120))
    for k in range(8 if not chk.thorough else 150):
        hists.append(crash_history(Gen(rng, 0.3), rng, small=k % 2 == 0))
    items, jobs = [], []
    for hi, ops in enumerate(hists):
        d = cr.dir()
        rows, code = cr.run(d, ops, 0, 0)
        ev, pend, hanging = cr.events(rows)
        end = [r for r in rows if r["c"] == "end"]
        if not end:
            chk.violation(dict(kind="crash", what="history without a fault", detail=f"process ended with {code}", trace=dict(ops=ops)))
            continue
        items.append((f"{d}/db", dict(id=f"h{hi}-whole", ev=ev + [dict(c="died", recs=[])])))
        total = end[0]["calls"]
        points = [(n, m) for n in range(1, total + 1) for m in (0, 1)]
        if not chk.thorough and len(points) > 60:
            points = sorted(rng.sample(points, 60))
        jobs += [(hi, ops, n, m) for n, m in points]

    def one(job):
        hi, ops, n, m = job
        d = cr.dir()
        rows, code = cr.run(d, ops, n, m)
        return job, d, rows, code

    torn = 0
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, jobs))
    byjob = {}
    for (hi, ops, n, m), d, rows, code in res:
        ev, pend, hanging = cr.events(rows)
        if code != 137 and not any(r["c"] == "end" for r in rows):
            chk.violation(dict(kind="crash", what="history with a kill", detail=f"process ended with {code}", trace=dict(ops=ops, n=n)))
            continue
        byjob[(hi, n, m)] = (d, ev, pend)
        if pend is None and code == 137:
            pend = []
        items.append((f"{d}/db", dict(id=f"h{hi}-call{n}-{'after' if m else 'before'}", ev=ev + [dict(c="died", recs=pend or [])])))
    # in the middle of the stores between two calls
    stepped = 0
    for (hi, n, m), (d, ev, pend) in sorted(byjob.items()):
        if m != 0 or (hi, n - 1, 1) not in byjob or not pend:
            continue
        d0, ev0, pend0 = byjob[(hi, n - 1, 1)]
        if ev0 != ev:
            continue
        diffs = {}
        for f in sorted(os.listdir(f"{d}/db")):
            a = open(f"{d0}/db/{f}", "rb").read() if os.path.exists(f"{d0}/db/{f}") else b""
            b = open(f"{d}/db/{f}", "rb").read()
            w = words_that_differ(a, b)
            if w is None or w:
                diffs[f] = w
        if len(diffs) != 1 or None in diffs.values():
            continue
        (f, w), = diffs.items()
        # the order in which the words were stored, from stepping through the code; ascending where that is not known
        order = [[x] for x in w]
        if len(w) <= 64:
            got = cr.steps(hists[hi], n - 1, f, w)
            if got:
                order, stepped = got, stepped + 1
        js = range(1, len(order)) if len(order) <= 14 else sorted(set([1, 2, 3, 4, 5, len(order) - 2, len(order) - 1] + [rng.randrange(1, len(order)) for _ in range(3)]))
        for j in js:
            if f != "seqno" and len(w) > 14 and j not in (1, len(order) - 1):
                continue
            t = cr.dir()
            shutil.rmtree(f"{t}/db")
            shutil.copytree(f"{d0}/db", f"{t}/db")
            with open(f"{t}/db/{f}", "r+b") as fh:
                for off, by in [x for y in order[:j] for x in y]:
                    fh.seek(off)
                    fh.write(by)
            torn += 1
            items.append((f"{t}/db", dict(id=f"h{hi}-torn{n}-{j}", ev=ev + [dict(c="died", recs=pend)])))
    chk.cov["kill_points"] = len(jobs)
    chk.cov["torn_images"] = torn
    chk.cov["windows_stepped"] = stepped
    # a second death after the reopening
    second = 0
    for (hi, n, m), (d, ev, pend) in sorted(byjob.items()):
        if rng.random() > (0.25 if not chk.thorough else 0.6):
            continue
        g = Gen(rng, 0.2)
        ops2 = [dict(op="open"), dict(op="append", recs=g.batch()), dict(op="append", recs=[g.rec(5), g.rec(6)]), dict(op="close")]
        t = cr.dir()
        shutil.rmtree(f"{t}/db")
        shutil.copytree(f"{d}/db", f"{t}/db")
        rows, code = cr.run(t, ops2, rng.randrange(1, 22), rng.choice([0, 1]))
        ev2, pend2, _ = cr.events(rows)
        if code not in (137, 0):
            chk.violation(dict(kind="crash", what="history after a kill", detail=f"process ended with {code}", trace=dict(ops=ops2, n=n, ev=ev)))
            continue
        second += 1
        items.append((f"{t}/db", dict(id=f"h{hi}-second{n}-{m}", ev=ev + [dict(c="died", recs=pend or [])] + ev2 + [dict(c="died", recs=pend2 or [])])))
    chk.cov["second_kills"] = second
    # logs are opened and shown again; the copies made above were taken before
    traces = cr.dump(items)
    chk.validate("FraosCrashTrace", traces, what="what is left after the process died", chunk=3000)


def f06(chk):
    chk.model("MCFraosStore", "MCFraosStore_crash.cfg", "power failure at every step, also after an earlier death: acknowledged records are on stable storage")
    for v, w in (("no_dflush", "data not flushed"), ("no_iflush", "index not flushed"), ("flush_early", "flush before the write"), ("no_opensync", "opening after a crash without synchronising")):
        chk.model_bad("MCFraosStore", f"MCFraosStore_bad_{v}.cfg", w)
    rng = chk.rng
    cr = Crash(chk)
    hists = from_model(chk.histories("FraosGen", "FraosGen_seq.cfg", 30 if not chk.thorough else 600))
    for k in range(40 if not chk.thorough else 800):
        hists.append(crash_history(Gen(rng, 0.3), rng, small=k % 2 == 0))
    # batches whose index entries span many pages
    for k in range(2):
        g = Gen(rng)
        hists.append([dict(op="open"), dict(op="append", recs=[g.rec(3) for _ in range(700)]), dict(op="append", recs=[g.rec(9)]), dict(op="append", recs=[g.rec(2) for _ in range(300)])])
    items = []

    def snaps(hi, ev0, rows, tag):
        ev, call = list(ev0), None
        out = []
        for r in rows:
            if r["c"] == "call":
                call = r
            elif r["c"] == "ret":
                ev = ev + [dict(c="done", op=call["op"], k=r["k"], n=r["n"], recs=call["recs"], msg=r.get("msg", ""))]
                if r.get("snap"):
                    out.append((r["snap"], dict(id=f"h{hi}-{tag}-ack{call['i']}", ev=ev + [dict(c="died", recs=[])])))
        return out

    for hi, ops in enumerate(hists):
        d = cr.dir()
        rows, code = cr.run(d, ops, 0, 0, shadow=True)
        if code != 0:
            chk.violation(dict(kind="crash", what="history without a fault", detail=f"process ended with {code}", trace=dict(ops=ops)))
            continue
        items += snaps(hi, [], rows, "whole")
        total = [r for r in rows if r["c"] == "end"][0]["calls"]
        # the power fails in the middle; or the process dies, the log is opened again, and then the power fails
        big = max(len(o.get("recs", [])) for o in ops) > 250
        for n in sorted(rng.sample(range(1, total + 1), min(total, 5 if not chk.thorough and not big else 40))):
            d = cr.dir()
            rows, code = cr.run(d, ops, n, rng.choice([0, 1]), shadow=True)
            ev, pend, _ = cr.events(rows)
            cur = f"{d}/power"
            shutil.copytree(f"{d}/sh/cur", cur)
            for f in os.listdir(f"{d}/db"):
                if not os.path.exists(f"{cur}/{f}"):
                    open(f"{cur}/{f}", "w").close()
            items.append((cur, dict(id=f"h{hi}-power{n}", ev=ev + [dict(c="died", recs=pend or [])])))
            g = Gen(rng, 0.2)
            ops2 = [dict(op="open"), dict(op="append", recs=[g.rec(3)]), dict(op="append", recs=g.batch())]
            rows2, code2 = cr.run(d, ops2, 0, 0, shadow=True, tag="2")
            if code2 != 0:
                chk.violation(dict(kind="crash", what="history after a kill", detail=f"process ended with {code2}", trace=dict(ops=ops, n=n)))
                continue
            items += [x for x in snaps(hi, ev + [dict(c="died", recs=pend or [])], rows2, f"second{n}") if x[1]["ev"][-2]["op"] == "append"]
    chk.cov["power_failure_images"] = len(items)
    traces = cr.dump(items)
    chk.validate("FraosCrashTrace", traces, what="files holding only what was synchronised", chunk=3000)


CHECKS = dict(F01=f01, F02=f02, F03=f03, F04=f04, F05=f05, F06=f06, F07=f07)
