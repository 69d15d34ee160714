"""Scripts for cardano-utils (K01). The judgement is FingerprintTrace."""
import hashlib

from core import *

# CIP-14's own vectors: policy, name, hash
VECTORS = [
    ("7eae28af2208be856f7a119668ae52a49b73725e326dc16579dcc373", "", "1cadfc0e7068801d51d240d14a4085f2a3673cbb"),
    ("7eae28af2208be856f7a119668ae52a49b73725e326dc16579dcc37e", "", "9fde1e38dbbf6074f5c609e66ae5408bb3641745"),
    ("1e349c9bdea19fd6c147626a5260bc44b71635f398b67c59881df209", "", "e1386b734f20334f4f9000a4689fbd9c52a70350"),
    ("7eae28af2208be856f7a119668ae52a49b73725e326dc16579dcc373", "504154415445", "8cd54e31e4ea696e42344ed563eb00269e2a1da5"),
    ("1e349c9bdea19fd6c147626a5260bc44b71635f398b67c59881df209", "504154415445", "bb2a1a2d8ae9e3ed880382df56bdb80adb2dff80"),
    ("1e349c9bdea19fd6c147626a5260bc44b71635f398b67c59881df209", "7eae28af2208be856f7a119668ae52a49b73725e326dc16579dcc373", "e806d2051ad1648e887c653b77fa7c2032f71a57"),
    ("7eae28af2208be856f7a119668ae52a49b73725e326dc16579dcc373", "1e349c9bdea19fd6c147626a5260bc44b71635f398b67c59881df209", "f49be3bb96bac73dcaf14cd02ec0db38f167fd43"),
    ("7eae28af2208be856f7a119668ae52a49b73725e326dc16579dcc373", "0000000000000000000000000000000000000000000000000000000000000000", "0d82e25a7f673fee89e631f02bff4f0933fad061"),
]
ABC = "ba80a53f981c4d0d6a2797b69f12f6e94c212f14685ac4b74b12bb6fdbffa2d17d87c5392aab792dc252d5de4533cc9518d38aa8dbf1925ab92386edd4009923"


def run(chk, module, scripts, what, chunk=None):
    outp = f"{rundir()}/utils.out"
    p = run_harness([build("hutils"), chk.file("utils.script", scripts), outp], timeout=600)
    rows = [r for r in read_ndjson(outp) if "ev" in r]
    if len(rows) < len(scripts):
        chk.violation(dict(kind="crash" if p else "hang", what=what, trace=scripts[len(rows)], detail=p.stderr[-400:] if p else "did not finish"))
    chk.cov["answers"] = dict(given=sum(e["ok"] == "yes" for r in rows for e in r["ev"]), refused=sum(e["ok"] == "no" for r in rows for e in r["ev"]))
    chk.validate(module, rows, what=what, chunk=chunk)


def k01(chk):
    rng, t = chk.rng, chk.thorough
    vec = [dict(a=list(bytes.fromhex(p)), b=list(bytes.fromhex(n)), hash=list(bytes.fromhex(h))) for p, n, h in VECTORS]
    vec.append(dict(a=list(b"ab"), b=list(b"c"), hash=list(bytes.fromhex(ABC))))
    for n in list(range(0, 400, 1 if t else 9)) + [127, 128, 129, 255, 256, 257]:
        d, nn = rng.randbytes(n), rng.choice([20, 20, 1, 32, 64])
        k = min(n, 28)
        vec.append(dict(a=list(d[:k]), b=list(d[k:]), hash=list(hashlib.blake2b(d, digest_size=nn).digest())))
    env = dict(TRACES=chk.file("vectors.ndjson", vec))
    chk.model("FingerprintMC", "FingerprintMC_q.cfg", "the hash, against known vectors and another implementation", env=env)
    chk.model_bad("FingerprintMC", "FingerprintMC_bad.cfg", "hashing the name before the policy", env=env)
    hx = lambda n: rng.randbytes(n).hex()

    def case(s):
        return "".join(rng.choice([c, c.upper()]) for c in s)

    def spoil(s):
        k, c = rng.randrange(len(s) + 1), rng.choice("gGz/:@`G[{ -+_.é０\n\u0000x")
        return rng.choice([s[:k] + c + s[k:], s[:k] + c + s[k + 1:], s[:k] + s[k + 1:], s[:k] + c + s[k + 2:], s[:max(0, k - 2)] + s[k:], "0x" + s, s + " "])

    def name():
        return hx(rng.choice([0, 1, 2, 4, 8, 31, 32, 33, rng.randrange(65), rng.choice([99, 100, 101, 102, 228, 229]), rng.randrange(300)]))

    tr = []
    for k in range(4000 if t else 500):
        ops = []
        pol, nam = hx(28), name()
        for _ in range(rng.randrange(2, 5)):
            x = rng.random()
            if x < 0.35:
                p, n = pol, nam
            elif x < 0.45:
                p, n = case(pol), case(nam)
            elif x < 0.55:    # the same bytes, cut elsewhere
                j = 2 * rng.randrange(0, 29)
                p, n = pol[:j], pol[j:] + nam
            elif x < 0.65:
                p, n = pol + nam[:2], nam[2:]
            elif x < 0.75:
                p, n = spoil(pol), nam
            elif x < 0.85:
                p, n = pol, spoil(nam)
            elif x < 0.9:     # one bit away
                b = bytearray.fromhex(pol + nam)
                b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
                p, n = b[:28].hex(), b[28:].hex()
            else:
                p, n = rng.choice([hx(28), "00" * 28, "ff" * 28, hx(27), hx(29), "", hx(32)]), rng.choice(["", "00", "0000", "ff" * 32, name()])
            ops.append(dict(policy=p, name=n))
        ops.append(ops[0])
        tr.append(dict(id=f"asset-{k}", ops=ops))
    run(chk, "FingerprintTrace", tr, "fingerprints of assets", chunk=100 if not t else 500)


CHECKS = dict(K01=k01)
