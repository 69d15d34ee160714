"""Scripts for the parts on top of cardano-multiplatform-lib (K02, K03), which is a stand-in here.
The judgement is LedgerFormTrace and LedgerSizeTrace."""
from core import *

TOP = 2**64
QS = [0, 1, 2, 9999, 10000, 10**6, 45 * 10**15, 2**32, 2**53 + 1, 2**63, TOP - 1, TOP, TOP + 1, 10**30]


def bech32(hrp, data):
    al = "qpzry9x8gf2tvdw0s3jn54khce6mua7l"
    acc = bits = 0
    d = []
    for b in data:
        acc, bits = acc << 8 | b, bits + 8
        while bits >= 5:
            bits -= 5
            d.append(acc >> bits & 31)
    if bits:
        d.append(acc << 5 - bits & 31)
    c = 1
    for v in [ord(x) >> 5 for x in hrp] + [0] + [ord(x) & 31 for x in hrp] + d + [0] * 6:
        top = c >> 25
        c = (c & 0x1ffffff) << 5 ^ v
        for i, g in enumerate((0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3)):
            c ^= g if top >> i & 1 else 0
    return hrp + "1" + "".join(al[x] for x in d + [(c ^ 1) >> 5 * (5 - i) & 31 for i in range(6)])


def run(chk, module, scripts, what, chunk=None):
    outp = f"{rundir()}/ledger.out"
    p = run_harness([build("hledger"), chk.file("ledger.script", scripts), outp], timeout=500)
    rows = [r for r in read_ndjson(outp) if "ev" in r]
    if len(rows) < len(scripts):
        chk.violation(dict(kind="crash" if p else "hang", what=what, trace=scripts[len(rows)], detail=p.stderr[-400:] if p else "did not finish"))
    c = chk.cov.setdefault("answers", {})
    for r in rows:
        for e in r["ev"]:
            k = f"{e['op']} {e['got']['res'] if 'got' in e else ''}".strip()
            c[k] = c.get(k, 0) + 1
    chk.validate(module, rows, what=what, chunk=chunk)


def limbs(n):
    out = []
    while n:
        out.append(n % 10000)
        n //= 10000
    return out


def amount(n):
    return dict(neg=n < 0, l=limbs(abs(n)))


def k02(chk):
    rng, t = chk.rng, chk.thorough
    chk.model("LedgerFormMC", "LedgerFormMC_t.cfg" if t else "LedgerFormMC_q.cfg", "token totals under every way to list them")
    chk.model_bad("LedgerFormMC", "LedgerFormMC_bad.cfg", "only the last part of a token counts")
    chk.assumptions += ["cardano-multiplatform-lib is a stand-in that carries what it is given", "whole amounts that are not negative", "names of tokens read from the ledger are left out"]
    q = lambda: rng.choice(QS + [rng.randrange(TOP), rng.randrange(10**6)] * 4)
    small = lambda: rng.choice([0, 1, 5, 9999, 10000, rng.randrange(10**9)])

    def address():
        b = bytes([rng.choice([0x00, 0x01, 0x60, 0x61, 0x71])])
        b += rng.randbytes(28 if b[0] >= 0x60 else 56)
        return b, bech32("addr" if b[0] & 15 == 1 else "addr_test", b)

    def one():
        op = rng.choice(["output", "output", "input", "input", "from", "fromio"])
        raw, adr = address()
        okaddr = True
        tx, idx = rng.randbytes(32).hex(), rng.choice([0, 1, 255, 65535, rng.randrange(TOP), TOP - 1])
        datum, script = rng.choice(["", "", "d87980"]), rng.choice(["", "", "82004746"])
        coin = q() if rng.random() < .8 else small()
        if op in ("from", "fromio"):
            coin %= TOP
            return dict(op=op, addr=adr, coin=str(coin), datum=datum, script=script, tx=tx, index=str(idx),
                        ask=dict(coin=amount(coin), address=adr, datum=datum, script=script, tx=tx, index=limbs(idx)))
        assets, ask = [], []
        pol = [rng.randbytes(28).hex() for _ in range(2)]
        nam = ["", rng.randbytes(rng.choice([1, 4, 23, 24, 31, 32])).hex()]
        parts = rng.choice([0, 1, 1, 2, 3, 4, 6])
        for k in range(parts):
            p, n, v, ok = rng.choice(pol), rng.choice(nam), (q() if rng.random() < .3 else small()), True
            pp, nn = p, n
            x = rng.random()
            if x < .02:
                pp, ok = rng.choice([p[:-2], p + "00", p[:-1], "zz" + p[2:], ""]), False
            elif x < .04:
                nn, ok = rng.choice([n + "0", "g" + n[1:] if n else "g", rng.randbytes(33).hex()]), False
            assets.append(dict(policy=pp, name=nn, q=str(v)))
            ask.append(dict(p=pp, n=nn, q=amount(v), ok=ok))
        oktx = True
        x = rng.random()
        if x < .03:
            adr, okaddr = rng.choice([adr[:-1], adr[:-1] + ("q" if adr[-1] != "q" else "p"), "", "addr1", adr + "é"]), False
        elif x < .06:
            tx, oktx = rng.choice([tx[:-2], tx + "00", "x" + tx[1:], ""]), False
        extra = None if not datum and not script and rng.random() < .7 else json.dumps(dict(datum=datum or None, script_ref=script or None))
        o = dict(op=op, addr=adr, coin=str(coin), assets=assets, extra=extra, tx=tx, index=str(idx), kind=rng.choice(["key", "native", "plutus"]))
        o["ask"] = dict(okaddr=okaddr, oktx=oktx, address=raw.hex(), coin=amount(coin), assets=ask, datum=datum, script=script, tx=tx, index=limbs(idx), kind=o["kind"])
        return o

    run(chk, "LedgerFormTrace", [dict(id=f"K02-{k}", ops=[one() for _ in range(5)]) for k in range(12000 if t else 1500)], "conversions to and from the ledger", chunk=1500)


def k03(chk):
    rng, t = chk.rng, chk.thorough
    chk.model("LedgerSizeMC", "LedgerSizeMC_t.cfg" if t else "LedgerSizeMC_q.cfg", "the estimate next to the size of the transaction, part by part")
    for v, w in (("magicsets", "the metadata's size replaces what was there"), ("nowitness", "signatures left out")):
        chk.model_bad("LedgerSizeMC", f"LedgerSizeMC_bad_{v}.cfg", w)
    chk.assumptions += ["the ledger's sizes are specified from its CBOR and agree with those the repository's tests measured with the real library",
                        "outputs with at most one token and no datum or script, output indices below 65536, metadata texts up to 64 bytes"]
    num = lambda n: 1 if n < 24 else 2 if n < 256 else 3 if n < 65536 else 5 if n < 2**32 else 9
    amt = lambda: rng.choice([0, 23, 24, 65536, 2**32, 45 * 10**15, TOP - 1, TOP - 1])

    def session(k):
        a, b, limit, net = 44, 155381, 16384, rng.choice(["mainnet", "testnet"])
        if rng.random() < .4:
            a, b, limit = rng.choice([1, 44, 100, 1000]), rng.choice([0, 1, 155381]), rng.choice([16384, 4096, 100000])
            net = dict(custom=dict(protocol_magic=rng.randrange(2**32), network_id=rng.randrange(2), linear_fee_coefficient=str(a), linear_fee_constant=str(b), coins_per_utxo_word="34482",
                                   pool_deposit="500000000", key_deposit="2000000", max_value_size=5000, max_tx_size=limit))
        kk = rng.choice([1, 2, 3, 5, 24, 30])
        qq = rng.choice([0, 1, kk, rng.randrange(kk + 1)])
        worst, magic, ops = rng.random() < .4, rng.choice([None, None, 0, 1]), []
        for j in range(rng.choice([0, 3, 12, 40, 90 if limit > 9000 else 20])):
            if magic is not None and j == magic * rng.choice([0, 1, 5]):
                n = rng.choice([0, 5, 22, 23, 24, 64, 64])
                ops.append(dict(op="magic", magic="m" * n, note=dict(len=n)))
                magic = None
            if rng.random() < rng.choice([.2, .5, .8]):
                i = 65535 if worst else rng.choice([0, 1, 23, 24, 255, 256, 65535])
                ops.append(dict(op="input", tx=rng.randbytes(32).hex(), index=str(i), addr="a", coin="5", assets=[], note=dict(idx=i)))
            else:
                c, v, n = (TOP - 1, TOP - 1, 32) if worst else (amt(), amt(), rng.choice([-1, 0, 4, 23, 24, 28, 32]))
                long = worst or rng.random() < .8
                ops.append(dict(op="output", addr=bech32("addr", bytes([1 if long else 0x61]) + bytes(56 if long else 28)), coin=str(c), assets=[] if n < 0 else [dict(policy="ab" * 28, name="cd" * n, q=str(v))],
                                note=dict(addr=57 if long else 29, coin=num(c), name=n, qty=num(v))))
        return dict(id=f"K03-{k}", kind="estimate", a=a, b=b, q=qq, k=kk, limit=limit, net=net, plan=dict(quorum=qq, keys=[rng.randbytes(28).hex() for _ in range(kk)]), ops=ops)

    run(chk, "LedgerSizeTrace", [session(k) for k in range(5000 if t else 600)], "estimates of a growing transaction", chunk=800)


CHECKS = dict(K02=k02, K03=k03)
