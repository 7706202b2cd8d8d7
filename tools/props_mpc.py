"""Checks decided on the multi-protocol commitment specification."""
import itertools, json, os
import vlib, gen_mpc as gm
from gen_mpc import le, pid_of, commit
from vlib import QUICK, SEED, BUILD

P = pid_of
Z8 = "00" * 8


def run_gen(c, module, jobs, tag):
    d = os.path.join(BUILD, "run")
    os.makedirs(d, exist_ok=True)
    jf, of = (os.path.join(d, f"{c.prop}-{tag}-{os.getpid()}.{x}") for x in ("jobs", "out"))
    with open(jf, "w") as f:
        f.write("".join(json.dumps(j) + "\n" for j in jobs))
    r = vlib.tlc(module, env={"JOBS": jf, "OUT": of}, name=f"{module}-{tag}", workers=1)
    os.remove(jf)
    c.parts.append({"generator": module, "what": tag, "jobs": len(jobs), "seconds": round(r.wall, 1)})
    return of


def pools(c, jobs, tag):
    """Pools of all cuts of trees; the driver and TLC read them through POOLS."""
    of = run_gen(c, "MpcGen", jobs, tag)
    os.environ["POOLS"] = of
    return of, [len(json.loads(l)) for l in open(of)]


def wire(c, jobs, tag):
    of = run_gen(c, "WireGen", jobs, tag)
    r = [json.loads(l) for l in open(of)]
    os.remove(of)
    return r


def msg_of(p, k=0):
    return le((int.from_bytes(bytes.fromhex(p), "little") * 7 + 1 + k) % (1 << 255), 32)


def small_jobs():
    """All occupancy patterns of trees of depth 0, 1 and 2, two trees per pool."""
    jobs = []
    for d in (0, 1, 2):
        for m in range(1 if d == 0 else 0, 1 << (1 << d)):
            ps = [P(i) for i in range(1 << d) if (m >> i) & 1]
            a = [d, Z8, [[p, msg_of(p)] for p in ps]]
            b = [d, le(1, 8), [[p, msg_of(p, 1 if i == 0 else 0)] for i, p in enumerate(ps)]]
            jobs.append([a, b] if d < 2 else [a, [d, le(1, 8), a[2]]] if m % 2 else [a, b])
    # with a cofactor
    jobs.append([[2, Z8, [[p, msg_of(p)] for p in (P(0), P(4), P(5))]]])
    jobs.append([[1, Z8, [[p, msg_of(p)] for p in (P(0), P(2))]]])
    return jobs


def jobs_pids(job):
    return sorted({x[0] for t in job for x in t[2]})


def jobs_msgs(job):
    return sorted({x[1] for t in job for x in t[2]})


D3 = [[3, le(1, 8), [[P(i), msg_of(P(i))] for i in range(8)]]]
D3H = [[3, le(1, 8), [[P(i), msg_of(P(i))] for i in (0, 1, 3, 6, 7)]]]


def rows(c, kind, jobs, sizes, mk, limit=None):
    """One trace per row of the table of each pool."""
    tr = []
    for k, (job, n) in enumerate(zip(jobs, sizes), 1):
        idx = list(range(1, n + 1))
        if limit and n > limit:
            idx = sorted(c.rng.sample(idx, limit))
        for i in idx:
            op = {"op": kind, "k": k, "i": i}
            op.update(mk(job) if mk else {})
            tr.append({"id": f"{kind}-{k}-{i}", "ops": [{"op": "pool", "k": k}, op]})
    return tr


def batch(traces, n):
    """Joins row traces of the same pool, so that the pool is loaded once."""
    out = {}
    for t in traces:
        out.setdefault(t["ops"][0]["k"], []).append(t)
    res = []
    for k, ts in out.items():
        for j in range(0, len(ts), n):
            part = ts[j:j + n]
            res.append({"id": part[0]["id"], "ops": [part[0]["ops"][0]] + [t["ops"][1] for t in part]})
    return res


def tables(c, kind, mk=None, big=(D3,), limit=48, what=""):
    jobs = small_jobs() + [b for b in big]
    of, sizes = pools(c, jobs, kind)
    tr = batch(rows(c, kind, jobs, sizes, mk, limit if QUICK else None), 8)
    c.conform(tr, "TraceMpc", "mpc", what or f"exhaustive {kind} tables", env={"POOLS": of}, builds=("dev", "rel"))
    os.remove(of)
    c.extra[f"{kind}_pools"] = sizes


def histories(c, n, **kw):
    r = c.rng
    tr = [{"id": f"h{i}", "ops": gm.history(r, **kw)} for i in range(n)]
    # a few with wide trees
    for i in range(max(2, n // 40)):
        tr.append({"id": f"w{i}", "ops": gm.history(r, nmax=60, dmax=9, steps=10)})
    c.conform(tr, "TraceMpc", "mpc", "random histories of commit, conceal, merge, prove, verify")
    deep(c, n)
    c.conform([{"id": f"crowd{i}", "ops": gm.crowd(r, k)} for i, k in enumerate((255, 256, 257, 300, 1030))]
              + [wide(r)], "TraceMpc", "mpc", "histories over trees of 255 to 1030 messages, and a tree of depth 17")


def deep(c, n):
    """What can be known of trees of depth up to 31 through their proofs and partial blocks."""
    c.conform([{"id": f"deep{i}", "ops": gm.deep_history(c.rng)} for i in range(n)], "TraceMpc", "mpc",
              "histories over partially known trees of depth 4..31")


MC = {"entropy": "equal messages, different entropy", "message": "one message differs",
      "protocol": "one protocol differs", "full": "full tree, different entropy",
      "cofactor": "collision resolved by the cofactor"}


def design(c, *insts):
    for i in (insts if QUICK else MC):
        c.model("MC_MpcInst", "MC_Mpc_free", f"two trees: {MC[i]}; all histories and forged proofs, ideal hash",
                env={"INST": i}, name=f"MC_Mpc-{i}")


def set_of(ps):
    return [[ps[j] for j in range(len(ps)) if (m >> j) & 1] for m in range(1 << len(ps))]


# --------------------------------------------------------------------------
def wide(r):
    """A tree with positions which take three bytes: its root and its block."""
    ms = gm.rand_msgs(r, 3)
    return {"id": "wide", "ops": [commit(0, ms, 17, gm.rand_entropy(r)), {"op": "tree_root", "x": 0, "only": True},
                                  {"op": "block", "x": 0, "s": 2}, {"op": "known", "x": 2}]}


def C01(c):
    c.build()
    design(c, "cofactor")
    tables(c, "proof_row", lambda j: {"ps": jobs_pids(j) + [P(777)], "ms": jobs_msgs(j)}, big=(D3, D3H), limit=200)
    histories(c, 120 if QUICK else 2500)


def C02(c):
    c.build()
    design(c, "message")
    r = c.rng
    # exhaustive forging on small trees
    jobs = [[1, Z8, [[P(0), msg_of(P(0))], [P(1), msg_of(P(1))]]],
            [2, Z8, [[P(0), msg_of(P(0))], [P(2), msg_of(P(2))], [P(3), msg_of(P(3))]]],
            [2, Z8, [[P(0), msg_of(P(0))], [P(4), msg_of(P(4))], [P(5), msg_of(P(5))]]],
            [2, le(5, 8), [[p, msg_of(p)] for p in gm.rand_pids(r, 2, "rand")]]]
    ws = wire(c, jobs, "forge")
    tr = []
    for k, (j, w) in enumerate(zip(jobs, ws)):
        ps = w["pids"] + [P(9), P(1)]
        ms = sorted({x[1] for x in j[2]})
        for d in (0, 1, 2):
            for pos in range((1 << d) + 1):
                for cof in sorted({0, 1, 2, w["c"], 1 << d, (1 << d) - 1} - {-1}):
                    tr.append({"id": f"forge-{k}-{d}-{pos}-{cof}",
                               "ops": [{"op": "forge_row", "d": d, "c": cof, "pos": le(pos, 4), "hs": w["hashes"],
                                        "ps": sorted(set(ps)), "ms": ms}]})
    c.conform(tr, "TraceMpc", "mpc", "every proof of depth 0..2 over the hashes of a tree, every protocol and message",
              builds=("dev", "rel"))
    # single alterations of honest proofs of larger trees
    jobs = []
    for i in range(6 if QUICK else 60):
        d = r.randrange(0, 6)
        n = r.randrange(1, 12)
        jobs.append([d, gm.rand_entropy(r), gm.rand_msgs(r, n)])
    ws = wire(c, jobs, "alter")
    tr = []
    for k, (j, w) in enumerate(zip(jobs, ws)):
        ms = dict(map(tuple, j[2]))
        for p, h in zip(w["pids"], w["proofs"]):
            others = r.sample(w["pids"], min(2, len(w["pids"]))) + [P(r.getrandbits(256)), gm.flip(r, p)]
            for nm, a in alterations(r, h, w["hashes"]):
                ops = [{"op": "load", "k": "proof", "s": 7, "h": a}, {"op": "proof_info", "x": 7}]
                for pp in [p] + others:
                    ops.append({"op": "convolve", "x": 7, "p": pp, "m": ms[p]})
                ops += [{"op": "convolve", "x": 7, "p": p, "m": gm.flip(r, ms[p])},
                        {"op": "convolve", "x": 7, "p": others[0], "m": ms.get(others[0], ms[p])}]
                for pp in (p, others[-1]):
                    ops += [{"op": "load", "k": "block", "s": 2, "h": w["blocks"][1]},
                            {"op": "merge_path", "x": 2, "y": 7, "p": pp, "m": ms[p]},
                            {"op": "with", "x": 7, "p": pp, "m": ms[p], "s": 3}]
                tr.append({"id": f"alter-{k}-{nm}", "ops": ops})
    r.shuffle(tr)
    tr = tr[:600 if QUICK else 20000]
    # proofs of deep trees
    for k in range(24 if QUICK else 600):
        t = gm.sparse(r, n=r.choice([1, 2, 3]))
        w = (1 << t.d) - t.c
        p, m = r.choice(t.ms)
        v = int.from_bytes(bytes.fromhex(p), "little")
        near = [P(v + w), P(v + (1 << t.d)), P(v ^ 1), P(v ^ 1 << r.randrange(256)), P(v ^ 1 << r.randrange(t.d))]
        for nm, a in alterations(r, t.proof(p), [x["h"].hex() for x in (t.root, t.root.get("a", t.root))]):
            ops = [{"op": "load", "k": "proof", "s": 7, "h": a}, {"op": "proof_info", "x": 7}]
            ops += [{"op": "convolve", "x": 7, "p": q, "m": m} for q in [p] + r.sample(near, 2)]
            for q in (p, r.choice(near)):
                ops += [{"op": "load", "k": "block", "s": 2, "h": t.block(r.choice([[], [p], [x[0] for x in t.ms]]))},
                        {"op": "merge_path", "x": 2, "y": 7, "p": q, "m": m},
                        {"op": "with", "x": 7, "p": q, "m": m, "s": 3}]
            tr.append({"id": f"deep-{k}-{nm}", "ops": ops})
    c.conform(tr, "TraceMpc", "mpc", "altered proofs, protocols and messages")


def alterations(r, h, hashes):
    b = bytes.fromhex(h)
    pos, cof, n = int.from_bytes(b[1:5], "little"), int.from_bytes(b[5:7], "little"), b[7]
    path = [b[8 + 32 * i:40 + 32 * i] for i in range(n)]

    def mk(pos=pos, cof=cof, path=path):
        return (b"\0" + (pos % (1 << 32)).to_bytes(4, "little") + (cof % 65536).to_bytes(2, "little")
                + bytes([len(path)]) + b"".join(path)).hex()
    yield "same", h
    for k in {0, 1, n - 1, 31, r.randrange(32)}:
        if k >= 0:
            yield f"pos^{k}", mk(pos=pos ^ (1 << k))
    yield "pos+w", mk(pos=pos + (1 << n))
    yield "pos+w-c", mk(pos=pos + (1 << n) - cof)
    yield "pos-1", mk(pos=pos - 1)
    for x in (1, -1, 1 << n, (1 << n) - 1, 1 << 15):
        yield f"cof{x}", mk(cof=cof + x)
    yield "longer", mk(path=path + [r.randbytes(32)])
    yield "longer0", mk(path=[r.randbytes(32)] + path)
    yield "long31", mk(path=path + [r.randbytes(32) for _ in range(31 - n)])
    if n:
        yield "shorter", mk(path=path[:-1])
        yield "shorter0", mk(path=path[1:])
        i = r.randrange(n)
        yield "flip", mk(path=[bytes.fromhex(gm.flip(r, x.hex())) if j == i else x for j, x in enumerate(path)])
        yield "swap", mk(path=path[::-1])
        yield "other", mk(path=[bytes.fromhex(r.choice(hashes)) if j == i else x for j, x in enumerate(path)])
        yield "mirror", mk(pos=(1 << n) - 1 - pos)


def C04(c):
    c.build()
    design(c, "entropy")
    tables(c, "except_row", lambda j: {"sets": set_of(jobs_pids(j)) + [[P(99)], [P(98), P(99)]] +
                                       [[p, P(99)] for p in jobs_pids(j)] + [[p, p] for p in jobs_pids(j)]},
           big=(D3, D3H), limit=64)
    histories(c, 120 if QUICK else 2500)


def C05(c):
    c.build()
    design(c, "protocol")
    tables(c, "merge_row", big=(D3, D3H), limit=40)
    histories(c, 100 if QUICK else 2500)


def C06(c):
    c.build()
    design(c, "full")
    tables(c, "match_row", big=(D3H,), limit=64)
    r = c.rng
    tr = []
    for i in range(150 if QUICK else 2500):
        n = r.choice([0, 1, 1, 2, 3, 4, 6, 9, 20])
        d = r.choice([0, 1, 2, 3, 4, 5, 7]) if n else r.randrange(1, 7)
        ms = gm.rand_msgs(r, n)
        ps = [x[0] for x in ms]
        ops = [commit(0, ms, d, gm.rand_entropy(r)), {"op": "tree_root", "x": 0}, {"op": "block", "x": 0, "s": 2},
               {"op": "block_id", "x": 2}]
        qs = r.sample(ps, min(3, n)) + [P(r.getrandbits(256)), P(r.choice([0, 1, (1 << 256) - 1]))]
        ops += [{"op": o, "x": x, "p": q} for q in qs for o, x in (("tree_info", 0), ("block_info", 2))]
        for k, q in enumerate(qs[:2]):
            ops += [{"op": "proof", "x": 2, "p": q, "s": 7 + k}, {"op": "proof_info", "x": 7 + k},
                    {"op": "convolve", "x": 7 + k, "p": q, "m": dict(map(tuple, ms)).get(q, "00" * 32)}]
        ops += [{"op": "matches", "x": 7, "y": 8}, {"op": "copy", "x": 2, "s": 3},
                {"op": "except", "x": 3, "ps": r.sample(ps, r.randrange(0, n + 1))}, {"op": "block_id", "x": 3},
                {"op": "block_info", "x": 3, "p": qs[0]}, {"op": "matches", "x": 2, "y": 3}]
        # a sibling commitment
        k = r.randrange(4)
        ms2 = [list(x) for x in ms]
        d2, e2 = d, ops[0]["fe"]
        if k == 0 and n:
            ms2[0][1] = gm.flip(r, ms2[0][1])
        elif k == 1:
            e2 = gm.rand_entropy(r)
        elif k == 2:
            d2 = d + 1
        ops += [commit(1, ms2, d2, e2), {"op": "matches", "x": 0, "y": 1}, {"op": "block", "x": 1, "s": 4},
                {"op": "matches", "x": 4, "y": 3}, {"op": "matches", "x": 2, "y": 4}]
        tr.append({"id": f"forms{i}", "ops": ops})
    c.conform(tr, "TraceMpc", "mpc", "ids, roots, summaries and geometry of all forms")
    c.conform(siblings(c), "TraceMpc", "mpc", "ids and equivalence of decoded forms which differ in one field")
    histories(c, 40 if QUICK else 1000)


def siblings(c):
    """Decoded trees, blocks and proofs next to copies with another cofactor, depth or entropy: the id
    and the answer of matches follow the root, the depth and the cofactor and nothing else."""
    r = c.rng
    jobs = [[0, Z8, [[P(5), msg_of(P(5))]]], [1, Z8, []], [1, le(9, 8), [[P(0), "00" * 32], [P(1), "ff" * 32]]],
            [2, Z8, [[P(0), msg_of(P(0))], [P(4), msg_of(P(4))], [P(5), msg_of(P(5))]]]]
    for _ in range(6 if QUICK else 80):
        jobs.append([r.randrange(0, 5), gm.rand_entropy(r), gm.rand_msgs(r, r.randrange(1, 9))])
    tr = []
    for k, w in enumerate(wire(c, jobs, "siblings")):
        def trace(nm, kind, a, b, x=2, y=3):
            ops = [{"op": "load", "k": kind, "s": x, "h": a}, {"op": "load", "k": kind, "s": y, "h": b}]
            if kind == "block":
                ops += [{"op": "block_id", "x": x}, {"op": "block_id", "x": y}]
                ops += [{"op": "block_info", "x": y, "p": p} for p in w["pids"][:2]]
            elif kind == "tree":
                ops += [{"op": "tree_root", "x": x}, {"op": "tree_root", "x": y}]
                ops += [{"op": "block", "x": y, "s": 4}, {"op": "block_id", "x": 4}]
            else:
                ops += [{"op": "proof_info", "x": x}, {"op": "proof_info", "x": y}]
            tr.append({"id": f"sibling-{k}-{kind}-{nm}", "ops": ops + [{"op": "matches", "x": x, "y": y}]})
        # blocks
        bs = [bytes.fromhex(x) for x in w["blocks"]]
        for a in bs:
            hd, _, ent = block_parts(a)
            for b in r.sample(bs, min(3, len(bs))):
                trace("cut", "block", a.hex(), b.hex())
                for cf in (hd[2] ^ 1, hd[2] + 1 & 255, r.randrange(256)):
                    trace(f"cofactor{cf}", "block", a.hex(), (b[:2] + bytes([cf]) + b[3:]).hex())
                trace("cofactor-high", "block", a.hex(), (b[:3] + bytes([b[3] ^ 1 << r.randrange(8)]) + b[4:]).hex())
                trace("cofactor-both", "block", (a[:2] + b"\x03\x01" + a[4:]).hex(), (b[:2] + b"\x03\x01" + b[4:]).hex())
                _, _, eb = block_parts(b)
                for e in ("00", "01" + "00" * 8, "01" + r.randbytes(8).hex()):
                    trace("entropy", "block", a.hex(), b.hex()[:len(b.hex()) - len(eb.hex())] + e)
        # trees
        t = bytes.fromhex(w["tree"])
        for o, vs in ((1, (t[1], t[1] + 1)), (2, (t[2] ^ 1,)), (9, (t[9] ^ 128,)), (10, (t[10] ^ 1, 0, 1, 2)), (11, (1, t[11]))):
            for v in vs:
                trace(f"tree-{o}-{v}", "tree", t.hex(), (t[:o] + bytes([v]) + t[o + 1:]).hex(), 0, 1)
        # messages and map of a tree are separate on the wire: the map decides
        n = len(w["pids"])
        for o in [15 + 64 * i + x for i in range(n) for x in (r.randrange(32), 31, 32, 32 + r.randrange(32))] + \
                 [18 + 64 * n + 68 * i + x for i in range(n) for x in (0, r.randrange(4), 4 + r.randrange(32), 36 + r.randrange(32))]:
            v = t[o] ^ (1 << r.randrange(8) if r.random() < 0.7 else 1)
            trace(f"tree-{o}", "tree", t.hex(), (t[:o] + bytes([v]) + t[o + 1:]).hex(), 0, 1)
            u = r.randrange(15, len(t))
            trace(f"tree-{o}-{u}", "tree", (t[:u] + bytes([t[u] ^ 1]) + t[u + 1:]).hex(), (t[:o] + bytes([v]) + t[o + 1:]).hex(), 0, 1)
        # proofs
        ps = [bytes.fromhex(x) for x in w["proofs"]]
        for a in ps:
            for b in r.sample(ps, min(2, len(ps))):
                trace("proof", "proof", a.hex(), b.hex(), 7, 8)
                for o in (5, 6, 1, 4):
                    trace(f"proof-{o}", "proof", a.hex(), (b[:o] + bytes([b[o] ^ 1 << r.randrange(8)]) + b[o + 1:]).hex(), 7, 8)
    return tr


def place_trace(i, ms, d, e, width=True):
    ops = [commit(0, ms, d, e)]
    for p in [x[0] for x in ms][:3]:
        ops.append({"op": "tree_info", "x": 0, "p": p})
    ops += [{"op": "tree_root", "x": 0}] if width else []
    return {"id": f"place-{i}", "ops": ops}


def C03(c):
    c.build()
    r = c.rng
    c.model("MC_Place", "MC_Place", "placement is the least collision-free (depth, cofactor): every small id set")
    tr = []
    # every set of up to 7 small protocol ids, every minimal depth up to 3
    span = 7 if QUICK else 9
    for m in range(1 << span):
        ps = [P(i) for i in range(span) if (m >> i) & 1]
        for d in range(4):
            ops = [commit(0, [[p, msg_of(p)] for p in ps], d, Z8)]
            if ps or d:
                ops.append({"op": "tree_root", "x": 0})
                if m % 8 == 0:
                    ops += [{"op": "block", "x": 0, "s": 2}, {"op": "known", "x": 2}]
            tr.append({"id": f"small-{m}-{d}", "ops": ops})
    # crafted sets around the cofactor limits of each depth
    for d in range(1, 13):
        maxc = min(500, 1 << (d - 1))
        for cc in sorted({0, 1, 2, maxc - 1, maxc, maxc + 1} | ({255, 256, 257, 300} if d > 9 else set())):
            w = (1 << d) - cc
            if w <= 0:
                continue
            for t in range(2 if QUICK else 6):
                n = min(w, r.choice([int(4 * w ** 0.5), int(3 * w ** 0.5), int(6 * w ** 0.5), w] if d < 6 else [int(5 * w ** 0.5), int(4 * w ** .5)]))
                ps = gm.crafted_pids(r, max(1, n), d, cc)
                for mind in ({d, d - 1} if d > 9 else {d, d - 1, max(0, d - 3)}):
                    ms = [[p, msg_of(p)] for p in ps]
                    tr.append(place_trace(f"craft-{d}-{cc}-{t}-{mind}", ms, mind, gm.rand_entropy(r), d <= 6))
    # id sets which never fit at the largest depth, sets which do with the last cofactor
    for x in (1, 2):
        a = (1 << 31) * ((1 << 31) - 1)
        base = r.getrandbits(100)
        tr.append(place_trace(f"cantfit{x}", [[P(base), "00" * 32], [P(base + x * a), "11" * 32]], 31, Z8, False))
        tr.append(place_trace(f"cantfit3{x}", [[P(base), "00" * 32], [P(base + 5), "00" * 32], [P(base + x * a), "11" * 32]], 31, Z8, False))
        tr.append(place_trace(f"lastfit{x}", [[P(base), "00" * 32], [P(base + x * (1 << 31)), "11" * 32]], 31, Z8, False))
        tr.append(place_trace(f"d30-{x}", [[P(base), "00" * 32], [P(base + x * a), "11" * 32]], 30, Z8, False))
    for d in range(13, 32):
        for n in (0, 1, 5):
            tr.append(place_trace(f"deep-{d}-{n}", gm.rand_msgs(r, n), d, gm.rand_entropy(r), d <= 11))
    # more than two thousand attempts over many depths before the set fits
    for n in (150, 300, 600, 1000) if QUICK else (150, 300, 600, 800, 1000, 1500, 2000, 3000):
        for d in (0, 9, 12):
            tr.append(place_trace(f"many-{n}-{d}", gm.rand_msgs(r, n, "rand"), d, gm.rand_entropy(r), False))
    tr.append(wide(r))
    # more messages than two bytes count, protocols with consecutive ids
    for n, d in [(65535, 0), (65536, 16), (65537, 3)] if QUICK else [(65535, 0), (65536, 0), (65536, 16), (65537, 3), (65537, 17), (131072, 4), (140000, 5)]:
        tr.append({"id": f"seq-{n}-{d}", "ops": [dict(commit(0, [], d, gm.rand_entropy(r)), seq=n, m="5a" * 32, **{"from": r.choice([0, 7, 1 << 20])}),
                                                {"op": "tree_info", "x": 0, "p": P(n)}]})
    # sources which state neither method nor minimal depth
    for i in range(20 if QUICK else 200):
        ms, e = gm.rand_msgs(r, r.choice([0, 1, 2, 3, 5, 8, 9, 20])), r.choice(["", gm.rand_entropy(r)])
        ops = [dict(commit(0, ms, 3, e), dflt=True), {"op": "tree_info", "x": 0, "p": P(77)}, {"op": "tree_root", "x": 0}]
        if e:
            ops += [dict(commit(1, ms, 3, e)), {"op": "matches", "x": 0, "y": 1},
                    {"op": "verify_tree", "x": 0, "ms": ms, "d": 3, "fe": e, "dflt": True}]
        tr.append(dict({"id": f"default{i}", "ops": ops}, **({} if e else {"full": True})))
    for mode in ("rand", "small", "stride", "near", "high", "edge"):
        for t in range(8 if QUICK else 150):
            n = r.choice([1, 2, 3, 5, 9, 17, 40, 100])
            d = r.randrange(0, 10)
            ms = gm.rand_msgs(r, n, mode)
            e = gm.rand_entropy(r)
            tr.append(place_trace(f"{mode}-{t}", ms, d, e, True))
            # the same source in another order: the same tree
            ms2 = ms[::-1]
            tr.append({"id": f"{mode}-{t}-again", "ops": [commit(0, ms, d, e), commit(1, ms2, d, e),
                       {"op": "matches", "x": 0, "y": 1}, {"op": "verify_tree", "x": 0, "ms": ms2, "d": d, "fe": e}]})
    c.conform(tr, "TraceMpc", "mpc", "placement of all small id sets, boundary cofactors and depths, large sets")


def C11_tree(c):
    """A tree verifies against exactly the sources which build it."""
    r = c.rng
    tr = []
    for i in range(150 if QUICK else 2500):
        n = r.choice([0, 1, 2, 3, 5, 8, 12])
        d = r.choice([0, 1, 2, 3, 4]) if n else r.randrange(1, 4)
        ms, e = gm.rand_msgs(r, n), gm.rand_entropy(r)
        v = {"op": "verify_tree", "x": 0}
        ops = [commit(0, ms, d, e), dict(v, ms=ms, d=d, fe=e), dict(v, ms=ms[::-1], d=d, fe=e),
               dict(v, ms=ms, d=d, fe=gm.flip(r, e)), dict(v, ms=[], d=0, fe=e)]
        for dd in range(0, 7):
            ops.append(dict(v, ms=ms, d=dd, fe=e))
        if n:
            k = r.randrange(n)
            m2 = [list(x) for x in ms]
            m2[k][1] = gm.flip(r, m2[k][1])
            ops.append(dict(v, ms=m2, d=d, fe=e))
            m2 = [list(x) for x in ms]
            m2[k][0] = gm.flip(r, m2[k][0])
            ops.append(dict(v, ms=m2, d=d, fe=e))
            ops.append(dict(v, ms=ms[:k] + ms[k + 1:], d=max(d, 1), fe=e))
        ops.append(dict(v, ms=ms + gm.rand_msgs(r, 1), d=d, fe=e))
        a = (1 << 31) * ((1 << 31) - 1)
        ops.append(dict(v, ms=[[P(1), "00" * 32], [P(1 + a), "00" * 32]], d=31, fe=e))
        tr.append({"id": f"verify{i}", "ops": ops})
    c.conform(tr, "TraceMpc", "mpc", "verification of trees against equal and altered sources")


def C22(c):
    c.build()
    r = c.rng
    tr = []
    for i in range(14 if QUICK else 80):
        n = r.choice([1, 1, 2, 3, 6]) if i >= 4 else (0, 2, 0, 16)[i]
        ms, d = gm.rand_msgs(r, n), r.randrange(0, 5) if n else 1 + i
        tr.append({"id": f"fresh{i}", "full": True, "ops": [
            {"op": "fresh", "n": 512 if QUICK else 4096, "procs": 2, "ms": ms, "d": d}]})
    # with and without a fixed value: the value in the tree, in the placeholders, nowhere after concealing
    for i in range(150 if QUICK else 3000):
        n = r.choice([0, 1, 1, 2, 3, 5])
        d = r.choice([1, 2, 3, 4, 5])
        ms = gm.rand_msgs(r, n)
        for e in (("", "") if i % 2 else (gm.rand_entropy(r), gm.rand_entropy(r))):
            ps = [x[0] for x in ms]
            q = P(r.getrandbits(256))
            ops = [commit(0, ms, d, e), {"op": "tree_info", "x": 0, "p": q}, {"op": "tree_root", "x": 0},
                   {"op": "block", "x": 0, "s": 2}, {"op": "block_info", "x": 2, "p": q}, {"op": "block_id", "x": 2},
                   commit(1, ms, d, e), {"op": "matches", "x": 0, "y": 1}, {"op": "block", "x": 1, "s": 3},
                   {"op": "copy", "x": 2, "s": 4},
                   {"op": "except", "x": 4, "ps": r.sample(ps, r.randrange(0, n + 1))},
                   {"op": "block_info", "x": 4, "p": q},
                   {"op": "copy", "x": 2, "s": 4}, {"op": "except", "x": 4, "ps": ps},
                   {"op": "block_info", "x": 4, "p": q}]
            if ps:
                ops += [{"op": "copy", "x": 2, "s": 4}, {"op": "other", "x": 4, "p": ps[0]},
                        {"op": "block_info", "x": 4, "p": q},
                        {"op": "proof", "x": 2, "p": ps[0], "s": 7}, {"op": "with", "x": 7, "p": ps[0], "m": ms[0][1], "s": 5},
                        {"op": "block_info", "x": 5, "p": q}, {"op": "merge", "x": 5, "y": 2},
                        {"op": "block_info", "x": 5, "p": q}]
            ops.append({"op": "merge", "x": 2, "y": 4})
            ops.append({"op": "block_info", "x": 2, "p": q})
            tr.append({"id": f"seed{i}", "full": e == "", "ops": ops})
    for e in ("0000000000000000", "0100000000000000", "ffffffffffffffff", "0000000000000080", "00000000ffffffff"):
        tr.append({"id": f"edge{e}", "ops": [commit(0, [[P(1), "00" * 32]], 3, e), {"op": "tree_root", "x": 0},
                                              {"op": "block", "x": 0, "s": 2}]})
    for d in (8, 9, 12, 14) if QUICK else (8, 9, 10, 11, 12, 13, 14, 15, 16, 17):      # positions of more than one byte, and a digit of it
        ms = gm.rand_msgs(r, 2)
        tr.append({"id": f"high{d}", "ops": [commit(0, ms, d, gm.rand_entropy(r)), {"op": "tree_root", "x": 0},
                                             {"op": "block", "x": 0, "s": 2}, {"op": "block_id", "x": 2}, {"op": "proof", "x": 2, "p": ms[0][0], "s": 7}]})
    tr.append(wide(r))
    c.conform(tr, "TraceMpc", "mpc", "fresh and fixed entropy: distribution, use in placeholders, absence after concealing")
    tr = []
    for i in range(16 if QUICK else 200):
        e = gm.rand_entropy(r)
        ps = {0, 1} | {(1 << k) + j for k in range(1, 32) for j in (-1, 0, 1)} | {r.getrandbits(r.randrange(1, 32)) for _ in range(20)}
        tr.append({"id": f"holder{i}", "ops": [{"op": "m_leaf", "e": e, "pos": p} for p in sorted(ps) if p < 1 << 31]})
    c.conform(tr, "TraceLib", "merkle", "placeholder leaves of one seed at positions over the whole range")


def wire_jobs(c, n):
    r = c.rng
    jobs = [[0, Z8, [[P(5), msg_of(P(5))]]], [1, Z8, []], [1, le(9, 8), [[P(0), "00" * 32], [P(1), "ff" * 32]]],
            [2, Z8, [[P(0), msg_of(P(0))], [P(4), msg_of(P(4))], [P(5), msg_of(P(5))]]],
            [3, "ff" * 8, [[P((1 << 256) - 1), "ff" * 32], [P(1 << 255), "00" * 32]]]]
    for _ in range(n):
        m = r.randrange(1, 8)
        jobs.append([r.randrange(0, 5), gm.rand_entropy(r), gm.rand_msgs(r, m)])
    return jobs, wire(c, jobs, "wire")


def mutations(r, kind, h, n):
    """Truncations, extensions, bit flips and field-aware changes of an encoding. A block which claims
    more than 2^25 nodes is left out: the decoder of strict_encoding allocates them beforehand."""
    for x in _mutations(r, kind, h, n):
        if kind != "block" or x[14:16] in ("", "00", "01"):
            yield x


def _mutations(r, kind, h, n):
    b = bytes.fromhex(h)
    L = len(b)

    def put(i, x):
        return (b[:i] + x + b[i + len(x):]).hex()
    yield h
    for x in {0, 1, L - 1, L - 2, L - 32, L // 2, 8, 9, 14, 15, 35, r.randrange(L + 1)}:
        if 0 <= x < L:
            yield b[:x].hex()
    for x in ("00", "01", "ff", "00" * 32):
        yield h + x
    for i in range(min(L, 24)):                      # headers: every byte
        for v in {0, 1, 2, 0x20, 0x1f, 0x80, 0xff, b[i] ^ 1, (b[i] + 1) % 256, (b[i] - 1) % 256}:
            yield put(i, bytes([v]))
    for i in range(max(0, L - 10), L):               # trailers
        for v in {0, 1, 2, 0xff, b[i] ^ 1}:
            yield put(i, bytes([v]))
    for _ in range(n):
        i = r.randrange(L)
        yield put(i, bytes([b[i] ^ (1 << r.randrange(8))]))
        i = r.randrange(L)
        yield (b[:i] + b[i + 1:]).hex()
        yield (b[:i] + bytes([r.randrange(256)]) + b[i:]).hex()
    if kind == "block" and L > 9:
        for x in block_mutations(r, b):
            yield x
    if kind == "tree" and L >= 18:
        for x in tree_mutations(r, b):
            yield x
    if kind == "proof":
        pos, cof, k = b[1:5], b[5:7], b[7]
        path = [b[8 + 32 * i:40 + 32 * i] for i in range(k)]
        for kk in (0, 1, 30, 31, 32, 33, 64, 255):
            yield (b"\0" + pos + cof + bytes([kk]) + b"".join((path * 40 + [bytes(32)] * 300)[:kk])).hex()
            yield (b"\0" + pos + cof + bytes([k]) + b"".join((path * 40 + [bytes(32)] * 300)[:kk])).hex()


def block_parts(b):
    n = int.from_bytes(b[4:8], "little")
    o, nodes = 8, []
    for _ in range(n):
        w = 34 if b[o] == 0 else 65
        nodes.append(b[o:o + w])
        o += w
    return b[:4], nodes, b[o:]


def block_mutations(r, b):
    hd, nodes, ent = block_parts(b)

    def mk(nodes, hd=hd, ent=ent, n=None):
        return (hd + (len(nodes) if n is None else n).to_bytes(4, "little") + b"".join(nodes) + ent).hex()
    yield mk([])
    yield mk(nodes, n=len(nodes) + 1)
    yield mk(nodes, n=max(0, len(nodes) - 1))
    yield mk(nodes[1:])
    yield mk(nodes[:-1])
    yield mk(nodes + nodes[-1:])
    yield mk(nodes[:1] + nodes)
    yield mk(nodes[::-1])
    if len(nodes) > 1:
        i = r.randrange(len(nodes) - 1)
        yield mk(nodes[:i] + [nodes[i + 1], nodes[i]] + nodes[i + 2:])
    for i in {0, len(nodes) - 1, r.randrange(len(nodes))}:
        x = nodes[i]
        if x[0] == 0:
            for d in {0, 1, 2, x[1] + 1, max(0, x[1] - 1), 30, 31, 32, 255}:
                yield mk(nodes[:i] + [bytes([0, d % 256]) + x[2:]] + nodes[i + 1:])
            # split into two
            yield mk(nodes[:i] + [bytes([0, (x[1] + 1) % 256]) + r.randbytes(32)] * 2 + nodes[i + 1:])
        else:
            yield mk(nodes[:i] + [bytes([0, b[1]]) + x[1:33]] + nodes[i + 1:])
        yield mk(nodes[:i] + [b"\x01" + r.randbytes(64)] + nodes[i + 1:])
        yield mk(nodes[:i] + [bytes([2]) + x[1:]] + nodes[i + 1:])
    lf = [x for x in nodes if x[0] == 1]
    if len(lf) > 1:        # the same protocol twice
        yield mk([(lf[0][:33] + x[33:]) if x[0] == 1 else x for x in nodes])
        yield mk([lf[0] if x[0] == 1 else x for x in nodes])
    for d in {0, 1, 2, 3, b[1] + 1, max(0, b[1] - 1), 31, 32}:
        yield mk(nodes, hd=bytes([hd[0], d % 256]) + hd[2:])
    for e in ("00", "01", "01" + "00" * 8, "01" + "ff" * 8, "01" + "00" * 7, "02", "00" + "00" * 8, ""):
        yield mk(nodes, ent=bytes.fromhex(e))
    # random cross sections
    for _ in range(6):
        d = r.randrange(0, 6)

        def cut(k):
            if k < d and r.random() < 0.6:
                return cut(k + 1) + cut(k + 1)
            if k == d and r.random() < 0.5:
                return [b"\x01" + r.randbytes(64)]
            return [bytes([0, k]) + r.randbytes(32)]
        nn = cut(0)
        yield mk(nn, hd=bytes([0, d]) + r.choice([0, 1, 2, 7, 65535]).to_bytes(2, "little"))
        if len(nn) > 1:
            r.shuffle(nn)
            yield mk(nn, hd=bytes([0, d]) + r.choice([0, 1, 2, 7, 65535]).to_bytes(2, "little"))


def tree_mutations(r, b):
    n = int.from_bytes(b[12:15], "little")
    ms = [b[15 + 64 * i:79 + 64 * i] for i in range(n)]
    o = 15 + 64 * n
    k = int.from_bytes(b[o:o + 3], "little")
    es = [b[o + 3 + 68 * i:o + 71 + 68 * i] for i in range(k)]

    def mk(ms=ms, es=es, n=None, k=None, hd=b[:12]):
        return (hd + (len(ms) if n is None else n).to_bytes(3, "little") + b"".join(ms)
                + (len(es) if k is None else k).to_bytes(3, "little") + b"".join(es)).hex()
    yield mk(ms=ms[::-1])
    yield mk(es=es[::-1])
    yield mk(ms=ms[1:])
    yield mk(es=es[1:])
    yield mk(ms=[], es=[])
    yield mk(n=n + 1)
    yield mk(k=k + 1)
    if n:
        yield mk(ms=ms + ms[-1:])
        yield mk(ms=ms + [ms[-1][:32] + r.randbytes(32)])
        yield mk(es=es + es[-1:])
        yield mk(es=es + [b"\xff\xff\xff\xff" + es[-1][4:]])
        yield mk(es=[b"\x07\0\0\0" + es[0][4:]])
        yield mk(es=[b"\0\0\0\0" + es[0][4:], b"\1\0\0\0" + es[0][4:]])
        yield mk(es=[x[:4] + r.randbytes(64) for x in es])
        yield mk(ms=sorted([ms[0], r.randbytes(64)]))
    for d in (0, 1, 2, 3, 6):
        yield mk(hd=bytes([b[0], d]) + b[2:12])
    for cf in (0, 1, 2, 3, 255, 256, 65535):
        yield mk(hd=b[:10] + cf.to_bytes(2, "little"))


def objects(w):
    yield "tree", w["tree"]
    yield "concealed", w["concealed"]
    for x in w["blocks"]:
        yield "block", x
    for x in w["proofs"]:
        yield "proof", x


SIMPLE = [("leaf", "10" + "aa" * 32 + "bb" * 32), ("leaf", "11" + "cc" * 8 + "01020304"),
          ("mnode", "00" + "03" + "08" + "00" * 31 + "ff" * 64), ("mnode", "01" + "00" + "03" + "00" * 31 + "12" * 64),
          ("mnode", "02" + "ff" + "ff" * 32 + "12" * 64), ("pid", "01" * 32), ("msg", "02" * 32), ("cid", "03" * 32),
          ("mhash", "04" * 32), ("shash", "05" * 32)]


def C21(c):
    c.build()
    r = c.rng
    jobs, ws = wire_jobs(c, 12 if QUICK else 120)
    tr = []
    seen = set()
    for k, w in enumerate(ws):
        for kind, h in objects(w):
            ms = [x for x in dict.fromkeys(mutations(r, kind, h, 12 if QUICK else 100)) if (kind, x) not in seen]
            seen |= {(kind, x) for x in ms}
            if QUICK and k > 4:
                ms = r.sample(ms, min(len(ms), 60))
            for j in range(0, len(ms), 100):
                tr.append({"id": f"{kind}-{k}-{len(tr)}", "ops": [{"op": "load", "k": kind, "s": 0, "h": x} for x in ms[j:j + 100]]})
    for kind, h in SIMPLE:
        b = bytes.fromhex(h)
        ms = list(mutations(r, kind, h, 40))
        ms += [(bytes([v]) + b[1:]).hex() for v in range(256)]
        ops = []
        for x in dict.fromkeys(ms):
            ops.append({"op": "load", "k": kind, "s": 0, "h": x})
            if kind in ("leaf", "mnode"):
                ops.append({"op": "leaf_id", "x": 0})
        tr.append({"id": kind, "ops": ops})
    # every bit of one object of each kind, every truncation
    w = ws[3]
    for kind, h in list(objects(w))[:4] + [("proof", w["proofs"][0])]:
        b = bytes.fromhex(h)
        ms = [b[:i].hex() for i in range(len(b))]
        ms += [(b[:i // 8] + bytes([b[i // 8] ^ (1 << (i % 8))]) + b[i // 8 + 1:]).hex() for i in range(8 * len(b))
               if kind != "block" or i not in range(57, 64)]
        for j in range(0, len(ms), 200):
            tr.append({"id": f"bits-{kind}-{j}", "ops": [{"op": "load", "k": kind, "s": 0, "h": x} for x in ms[j:j + 200]]})
    # what is known of deep trees
    for k in range(20 if QUICK else 400):
        t = gm.sparse(r)
        ps = [x[0] for x in t.ms]
        hs = [("proof", t.proof(p)) for p in ps[:2]] + [("block", t.block(r.sample(ps, r.randrange(len(ps) + 1)), f, e))
                                                        for f, e in ((1, ""), (0, "01" * 8), (0.5, ""))]
        for kind, h in hs:
            ms = list(dict.fromkeys(mutations(r, kind, h, 4)))
            ms = ms[:1] + r.sample(ms[1:], min(len(ms) - 1, 25))
            seen |= {(kind, x) for x in ms}
            tr.append({"id": f"deep-{kind}-{len(tr)}", "ops": [{"op": "load", "k": kind, "s": 0, "h": x} for x in ms]})
    # decoded objects are the ones which were encoded: they act alike
    for i in range(60 if QUICK else 1000):
        n = r.randrange(0, 6)
        d = r.randrange(0, 4) if n else r.randrange(1, 4)
        j = [d, gm.rand_entropy(r), gm.rand_msgs(r, n)]
        tr.append({"id": f"enc{i}", "ops": [commit(0, j[2], d, j[1]), {"op": "block", "x": 0, "s": 2}, {"op": "tree_root", "x": 0}]})
    for k, (j, w) in enumerate(zip(jobs, ws)):
        ms = dict(map(tuple, j[2]))
        ops = [{"op": "load", "k": "tree", "s": 0, "h": w["tree"]}, {"op": "tree_root", "x": 0},
               {"op": "tree_info", "x": 0, "p": P(3)}, {"op": "block", "x": 0, "s": 1},
               {"op": "load", "k": "concealed", "s": 9, "h": w["concealed"]}, {"op": "concealed", "x": 9}]
        for b in w["blocks"]:
            ops += [{"op": "load", "k": "block", "s": 2, "h": b}, {"op": "block_id", "x": 2}, {"op": "known", "x": 2},
                    {"op": "block_info", "x": 2, "p": P(4)}, {"op": "matches", "x": 1, "y": 2}]
        for p, q in zip(w["pids"], w["proofs"]):
            ops += [{"op": "load", "k": "proof", "s": 3, "h": q}, {"op": "proof_info", "x": 3},
                    {"op": "convolve", "x": 3, "p": p, "m": ms[p]}]
        tr.append({"id": f"acts-{k}", "ops": ops})
    c.conform(tr, "TraceMpc", "mpc", "decoding of encodings, altered encodings and arbitrary bytes; encodings of built objects")
    c.extra["wire_strings"] = len(seen)


def C20(c):
    c.build()
    r = c.rng
    jobs, ws = wire_jobs(c, 6 if QUICK else 80)
    tr = []
    lim = 40 if QUICK else 400
    for k, (j, w) in enumerate(zip(jobs, ws)):
        ms = dict(map(tuple, j[2]))
        ps = w["pids"] + [P(r.getrandbits(256)), P(0), P((1 << 256) - 1)]
        honest = [x for x in w["blocks"]]
        for kind, h in objects(w):
            if kind == "concealed":
                continue
            muts = list(dict.fromkeys(mutations(r, kind, h, 10 if QUICK else 60)))
            if len(muts) > lim:
                muts = muts[:1] + r.sample(muts[1:], lim)
            for i, x in enumerate(muts):
                ops = [{"op": "load", "k": kind, "s": 0, "h": x}]
                p = r.choice(ps)
                m = ms.get(p, "ab" * 32)
                if kind == "tree":
                    if len(x) >= 4 and int(x[2:4], 16) > 12:
                        continue
                    ops += [{"op": "tree_info", "x": 0, "p": p}, {"op": "tree_root", "x": 0}, {"op": "tree_proofs", "x": 0},
                            {"op": "verify_tree", "x": 0, "ms": j[2], "d": max(1, j[0]), "fe": j[1]},
                            {"op": "matches", "x": 0, "y": 0}, {"op": "block", "x": 0, "s": 2}, {"op": "block_id", "x": 2},
                            {"op": "proof", "x": 2, "p": p, "s": 3}, {"op": "block_info", "x": 2, "p": p},
                            {"op": "proof", "x": 2, "p": (w["pids"] + [p])[0], "s": 3}]
                elif kind == "block":
                    ops += [{"op": "block_info", "x": 0, "p": p}, {"op": "block_id", "x": 0}, {"op": "known", "x": 0},
                            {"op": "proof", "x": 0, "p": p, "s": 3}, {"op": "known_proofs", "x": 0},
                            {"op": "load", "k": "block", "s": 2, "h": r.choice(honest)},
                            {"op": "load", "k": "block", "s": 4, "h": honest[0]},
                            {"op": "matches", "x": 0, "y": 2}, {"op": "merge", "x": 2, "y": 0},
                            {"op": "copy", "x": 0, "s": 5}, {"op": "merge", "x": 5, "y": 4},
                            {"op": "copy", "x": 0, "s": 5}, {"op": "except", "x": 5, "ps": r.sample(ps, min(2, len(ps)))},
                            {"op": "copy", "x": 0, "s": 5}, {"op": "except", "x": 5, "ps": []},
                            {"op": "copy", "x": 0, "s": 5}, {"op": "other", "x": 5, "p": p},
                            {"op": "load", "k": "proof", "s": 7, "h": r.choice(w["proofs"]) if w["proofs"] else "00" * 8},
                            {"op": "copy", "x": 0, "s": 5}, {"op": "merge_path", "x": 5, "y": 7, "p": p, "m": m}]
                else:
                    pp = w["pids"][w["proofs"].index(h)]
                    for q in (pp, p):
                        ops += [{"op": "proof_info", "x": 0}, {"op": "convolve", "x": 0, "p": q, "m": ms.get(q, m)},
                                {"op": "with", "x": 0, "p": q, "m": m, "s": 3}, {"op": "block_id", "x": 3},
                                {"op": "load", "k": "block", "s": 2, "h": r.choice(honest)},
                                {"op": "merge_path", "x": 2, "y": 0, "p": q, "m": ms.get(q, m)}, {"op": "block_id", "x": 2},
                                {"op": "matches", "x": 0, "y": 0}]
                for o in ops:
                    o["risky"] = False
                tr.append({"id": f"{kind}-{k}-{i}", "ops": ops})
    # the listed known findings, each by one fixed input
    leaf = "aa" * 32 + "bb" * 32
    tree = "0001" + Z8 + "0000" + "010000" + leaf + "020000" + "00000000" + leaf + "01000000" + leaf
    raw = "00020000" + "02000000" + "01" + leaf + "0001" + "cc" * 32 + "00"
    dup = "00010000" + "02000000" + ("01" + leaf) * 2 + "00"
    proof = "00" + "00000000" + "0000" + "20" + "11" * 1024
    hon, hq, hp = ws[2]["blocks"][0], ws[2]["proofs"][0], ws[2]["pids"][0]
    ld = lambda k, s, h: {"op": "load", "k": k, "s": s, "h": h}
    fixed = [[ld("tree", 0, tree), {"op": "tree_proofs", "x": 0}],
             [ld("tree", 0, tree), {"op": "block", "x": 0, "s": 2}, {"op": "proof", "x": 2, "p": "aa" * 32, "s": 3}],
             [ld("block", 0, dup), {"op": "proof", "x": 0, "p": "aa" * 32, "s": 3}],
             [ld("block", 0, dup), {"op": "known_proofs", "x": 0}],
             [ld("proof", 0, proof), {"op": "convolve", "x": 0, "p": P(0), "m": "00" * 32}]]
    for o in ({"op": "block_id"}, {"op": "except", "ps": []}, {"op": "other", "p": "aa" * 32}, {"op": "matches", "y": 2},
              {"op": "merge", "y": 2}, {"op": "merge_path", "y": 7, "p": hp, "m": "00" * 32},
              {"op": "proof", "p": "aa" * 32, "s": 3}, {"op": "known_proofs"}):
        fixed.append([ld("block", 0, raw), ld("block", 2, hon), ld("proof", 7, hq), dict(o, x=0)])
    tr += [{"id": f"fixed{i}", "ops": o} for i, o in enumerate(fixed)]
    # arbitrary proofs: every path length, positions and cofactors at their limits
    for n in range(33):
        for cof in {0, 1, 2, 500, 65535, ((1 << n) - 1) % 65536, (1 << n) % 65536, ((1 << n) + 1) % 65536}:
            w = max(1, (1 << n) - cof)
            p = P(r.getrandbits(256))
            pos = int.from_bytes(bytes.fromhex(p), "little") % w
            for ps_ in {pos, 0, w - 1, (1 << 32) - 1, (1 << n) % (1 << 32), 1 << 31} if n % 5 == 0 or not QUICK else {pos, (1 << 32) - 1}:
                h = (b"\0" + (ps_ % (1 << 32)).to_bytes(4, "little") + cof.to_bytes(2, "little") + bytes([n]) + r.randbytes(32 * n)).hex()
                tr.append({"id": f"path{n}-{cof}-{ps_}", "ops": [
                    {"op": "load", "k": "proof", "s": 0, "h": h}, {"op": "proof_info", "x": 0},
                    {"op": "convolve", "x": 0, "p": p, "m": "11" * 32}, {"op": "with", "x": 0, "p": p, "m": "11" * 32, "s": 2},
                    {"op": "load", "k": "block", "s": 4, "h": ws[3]["blocks"][0]},
                    {"op": "merge_path", "x": 4, "y": 0, "p": p, "m": "11" * 32},
                    {"op": "block_id", "x": 2}, {"op": "known_proofs", "x": 2}, {"op": "block_info", "x": 2, "p": p},
                    {"op": "copy", "x": 2, "s": 3}, {"op": "except", "x": 3, "ps": []}, {"op": "block_id", "x": 3},
                    {"op": "merge", "x": 2, "y": 3}]})
    # deep blocks, whole and damaged
    for i in range(40 if QUICK else 800):
        t = gm.sparse(r)
        ps = [x[0] for x in t.ms]
        p = r.choice(ps)
        h = t.block(r.sample(ps, r.randrange(len(ps) + 1)), r.choice([0, 0.5, 1]))
        if i % 2:
            h = r.choice(list(mutations(r, "block", h, 2)))
        tr.append({"id": f"deep{i}", "ops": [dict(o, risky=False) for o in (
            {"op": "load", "k": "block", "s": 0, "h": h}, {"op": "block_id", "x": 0}, {"op": "known", "x": 0},
            {"op": "block_info", "x": 0, "p": p}, {"op": "proof", "x": 0, "p": p, "s": 3}, {"op": "known_proofs", "x": 0},
            {"op": "load", "k": "block", "s": 2, "h": t.block([p])}, {"op": "load", "k": "proof", "s": 7, "h": t.proof(p)},
            {"op": "matches", "x": 0, "y": 2}, {"op": "copy", "x": 2, "s": 5}, {"op": "merge", "x": 5, "y": 0},
            {"op": "copy", "x": 0, "s": 5}, {"op": "merge", "x": 5, "y": 2},
            {"op": "copy", "x": 0, "s": 5}, {"op": "except", "x": 5, "ps": [p]},
            {"op": "copy", "x": 0, "s": 5}, {"op": "except", "x": 5, "ps": []},
            {"op": "copy", "x": 0, "s": 5}, {"op": "other", "x": 5, "p": p},
            {"op": "copy", "x": 0, "s": 5}, {"op": "merge_path", "x": 5, "y": 7, "p": p, "m": dict(map(tuple, t.ms))[p]})]})
    # building a tree from any messages
    for i in range(120 if QUICK else 2000):
        n = r.choice([0, 1, 2, 3, 10, 64, 200])
        d = r.choice([0, 1, 5, 8, 16, 17, 30, 31])
        tr.append({"id": f"build{i}", "ops": [commit(0, gm.rand_msgs(r, n), d, gm.rand_entropy(r)),
                                              {"op": "tree_info", "x": 0, "p": P(r.getrandbits(256))}]})
    c.conform(tr, "TraceMpc", "mpc", "decodable but arbitrary proofs, blocks and trees through every operation")
