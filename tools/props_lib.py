"""Checks decided on the specifications of the library parts (TraceLib)."""
import itertools

import vlib
import gen_mpc as gm
from gen_mpc import le
from props_mpc import C11_tree
from vlib import QUICK

T = "TraceLib"


def hx(r, n):
    return r.randbytes(n).hex()


def chunks(xs, n):
    for i in range(0, len(xs), n):
        yield xs[i:i + n]


# ------------------------------------------------------------------- C07
COLS = ["vec8", "vec16", "vec32", "nvec8", "nvec16", "nvec32", "vec8min2",
        "set8", "set16", "set32", "nset8", "nset16", "nset32", "set16min2"]


def mpc_leaf(r):
    return "10" + hx(r, 64) if r.random() < 0.7 else "11" + hx(r, 12)


def C07(c):
    c.build()
    c.model("MC_Merkle", what="with an ideal hash the root determines leaves, order and number; shape; leaves are never inner nodes")
    r = c.rng
    tr = []
    for n in list(range(0, 41 if QUICK else 130)) + [63, 64, 65, 127, 128, 129, 254, 255, 256, 257]:
        vs = [hx(r, 8) for _ in range(n)]
        ops = [{"op": "m_root", "col": col, "leaf": "b", "vs": vs} for col in (COLS if n < 20 or n > 250 or not QUICK else r.sample(COLS, 4))]
        ls = [mpc_leaf(r) for _ in range(n)]
        ops += [{"op": "m_root", "col": col, "leaf": "mpc", "vs": ls} for col in r.sample(COLS[:7], 2)]
        if n:
            k, j = r.randrange(n), r.randrange(n)
            w = list(vs)
            w[k] = gm.flip(r, w[k])
            ops.append({"op": "m_root", "col": "vec16", "leaf": "b", "vs": w})
            w = list(vs)
            w[k], w[j] = w[j], w[k]
            ops.append({"op": "m_root", "col": "vec16", "leaf": "b", "vs": w})
            ops.append({"op": "m_root", "col": "set16", "leaf": "b", "vs": w + w[:2]})
            ops.append({"op": "m_root", "col": "nvec16", "leaf": "b", "vs": [vs[k]] * n})
        tr.append({"id": f"root{n}", "ops": ops})
    big = [(65534, 3), (65535, 4), (65536, 4), (65537, 2), (200003, 1)] if QUICK else [(n, 6) for n in (65534, 65535, 65536, 65537, 70001, 131071, 131073, 200003, 300001)]
    for n, k in big:
        cols = [x for x in COLS if "8" not in x and (n < 100000 or "32" in x)]
        for col in r.sample(cols, k):
            tr.append({"id": f"many{n}-{col}", "ops": [{"op": "m_many", "col": col, "n": n, "from": 0}]})
    for i in range(12 if QUICK else 100):
        n = r.choice([1000, 1023, 1024, 1025, 3000, 4096, 4097]) + r.randrange(0, 5)
        tr.append({"id": f"mid{i}", "ops": [{"op": "m_many", "col": col, "n": n, "from": r.choice([0, 1, 255])} for col in r.sample(COLS, 2)]})
    ops = []
    for k in ("void", "single", "branch"):
        for d in (0, 1, 2, 15, 16, 31, 32, 127, 128, 255):
            for w in (le(0, 32), le(1, 32), le(255, 32), le(256, 32), le(1 << 128, 32), "ff" * 32, hx(r, 32)):
                a = hx(r, 32)
                ops.append({"op": "m_node", "k": k, "depth": d, "width": w, "a": a, "b": r.choice([a, hx(r, 32), "00" * 32, "ff" * 32])})
    tr += [{"id": f"node{i}", "ops": o} for i, o in enumerate(chunks(ops, 40))]
    ops = [{"op": "m_leaf", "e": hx(r, 8), "pos": p} for p in (0, 1, 2, 255, 256, 65535, 65536, 2147483647)]
    ops += [{"op": "m_leaf", "p": r.choice([hx(r, 32), "00" * 32, "ff" * 32]), "m": r.choice([hx(r, 32), "00" * 32])} for _ in range(30)]
    tr.append({"id": "leaves", "ops": ops})
    c.conform(tr, T, "merkle", "roots of lists and sets in every collection type, nodes and leaves")


# ------------------------------------------------------------- C08 and C09
SIZES = {"ValA": 1, "ValB": 3, "ValC": 4, "HashA": 2, "HashB": 2, "Sec": 6, "SecHid": 2, "Slf": 2, "BLeaf": 8,
         "IdA": 32, "U8": 1, "U16": 2, "U32": 4, "U64": 8}
BOUNDS = [("0..FF", 0, 0xFF), ("1..FF", 1, 0xFF), ("0..FFFF", 0, 0xFFFF), ("0..FFFFFF", 0, 0xFFFFFF),
          ("0..FFFFFFFF", 0, 0xFFFFFFFF), ("0..FFFFFFFFFFFFFFFF", 0, (1 << 64) - 1), ("2..5", 2, 5), ("0..100", 0, 0x100),
          ("1..FFFF", 1, 0xFFFF), ("1..10000", 1, 0x10000), ("0..1000000", 0, 0x1000000), ("3..100000000", 3, 0x100000000),
          ("2..2", 2, 2), ("1..1", 1, 1)]
MERKLES = {"BLeaf": [("list0..FF", 0, 255), ("list1..FF", 1, 255), ("list0..FFFF", 0, 65535), ("list0..FFFFFFFF", 0, 65535),
                     ("set0..FF", 0, 255), ("set0..FFFF", 0, 65535), ("set1..FFFFFFFF", 1, 65535)],
           "Leaf": [("list0..FF", 0, 255), ("list0..FFFF", 0, 65535), ("list1..FFFFFFFF", 1, 65535)]}
IDS = ["IdA", "IdB", "IdE", "StrictHash", "MerkleHash", "Commitment"]


def val(r, t):
    if t == "ValE":
        return r.choice(["00", "01" + hx(r, 1), "07" + hx(r, 3)])
    if t == "Reserved":
        return "07" * 4
    return r.choice([hx(r, SIZES[t]), "00" * SIZES[t], "ff" * SIZES[t]])


def count(r, mn, mx):
    return r.choice([mn, mn, mn + 1, mn + 2, mn + r.randrange(0, 8)] + ([min(mx, 255), min(mx, 256), min(mx, 300)] if r.random() < 0.1 else [mn])) if mx > 5 \
        else r.randrange(mn, mx + 1)


def step(r, kind=None, small=False):
    k = kind or r.choice(["ser", "ser", "opt", "hash", "conc", "merkle", "list", "set", "map"])
    if k == "ser":
        t = r.choice(list(SIZES) + ["ValE", "Reserved"])
        return {"k": k, "t": t, "v": val(r, t)}
    if k == "opt":
        t = r.choice(["ValA", "ValB", "ValC", "ValE", "HashA", "U8", "U32"])
        return {"k": k, "t": t, "o": [val(r, t)] if r.random() < 0.6 else []}
    if k == "hash":
        t = r.choice(["HashA", "HashB", "Reserved"])
        return {"k": k, "t": t, "v": val(r, t)}
    if k == "conc":
        t = r.choice(["Sec", "Slf"])
        return {"k": k, "t": t, "v": val(r, t)}
    if k == "merkle":
        t = r.choice(["BLeaf", "BLeaf", "Leaf"])
        b, mn, mx = r.choice(MERKLES[t])
        n = mn if small else count(r, mn, mx)
        return {"k": k, "t": t, "b": b, "vs": [hx(r, 8) if t == "BLeaf" else mpc_leaf(r) for _ in range(n)]}
    b, mn, mx = r.choice(BOUNDS)
    n = mn if small else count(r, mn, mx)
    s = {"k": k, "b": b, "min": mn, "max": le(mx, 8)}
    if k == "list":
        s["t"] = t = r.choice(["ValA", "ValB", "ValC", "ValE", "U8", "U16"])
        s["vs"] = [val(r, t) for _ in range(n)]
    elif k == "set":
        s["t"] = t = r.choice(["ValA", "ValC", "BLeaf"]) if n <= 256 else "ValC"
        vs = []
        while len(vs) < n:
            v = hx(r, SIZES[t])
            if v not in vs:
                vs.append(v)
        if t == "ValA" and n == 256:
            r.shuffle(vs)
        s["vs"] = vs
    else:
        s["t"] = t = r.choice(["ValA", "ValB", "ValE", "U8"])
        s["kt"] = kt = r.choice(["ValA", "ValC", "BLeaf"]) if n <= 256 else "ValC"
        ks = []
        while len(ks) < n:
            v = hx(r, SIZES[kt])
            if v not in ks:
                ks.append(v)
        s["vs"] = [[x, val(r, t)] for x in ks]
    return s


def every_step(r):
    """One step of every kind, type and bounds."""
    for t in list(SIZES) + ["ValE", "Reserved"]:
        yield {"k": "ser", "t": t, "v": val(r, t)}
    for t in ["ValA", "ValB", "ValC", "ValE", "HashA", "U8", "U32"]:
        yield {"k": "opt", "t": t, "o": [val(r, t)]}
        yield {"k": "opt", "t": t, "o": []}
    for t in ["HashA", "HashB", "Reserved"]:
        yield {"k": "hash", "t": t, "v": val(r, t)}
    for t in ["Sec", "Slf"]:
        yield {"k": "conc", "t": t, "v": val(r, t)}
    for t in MERKLES:
        for b, mn, mx in MERKLES[t]:
            for n in (mn, 1, 2, 3, 5):
                yield {"k": "merkle", "t": t, "b": b, "vs": [hx(r, 8) if t == "BLeaf" else mpc_leaf(r) for _ in range(n)]}
    for b, mn, mx in BOUNDS:
        for n in {mn, min(mx, mn + 1), min(mx, mn + 3)}:
            s = {"b": b, "min": mn, "max": le(mx, 8)}
            vs = [f"{i * 37 % 251:02x}" for i in range(n)]
            yield dict(s, k="list", t="U8", vs=vs)
            yield dict(s, k="list", t="ValE", vs=[val(r, "ValE") for _ in vs])
            yield dict(s, k="set", t="ValA", vs=vs)
            yield dict(s, k="map", kt="ValA", t="U8", vs=[[x, val(r, "U8")] for x in vs])
            yield dict(s, k="map", kt="ValC", t="ValB", vs=[[x * 4, val(r, "ValB")] for x in vs])


def blob(r, n):
    return le(n, 3) + hx(r, n)


def blobs(r):
    """Every kind of part with values of all sizes."""
    for n in (0, 1, 31, 32, 33, 252, 253, 254, 255, 256, 1000, 4096, 65532, 65533, 65535, 65536, 70000):
        b = blob(r, n)
        yield [{"k": "ser", "t": "Blob", "v": b}]
        yield [{"k": "opt", "t": "Blob", "o": [b]}, {"k": "conc", "t": "Blob", "v": b}, {"k": "hash", "t": "Blob", "v": b}]
        s = {"b": "0..FF", "min": 0, "max": le(0xFF, 8), "t": "Blob"}
        two = [b, blob(r, n + 1)]
        yield [dict(s, k="list", vs=two), dict(s, k="map", kt="ValA", vs=[["01", two[0]], ["02", two[1]]])]


def large_minima(r):
    """Collections which must have many elements."""
    for b, mn, mx in (("12c..FFFF", 300, 0xFFFF), ("11170..FFFFFFFF", 70000, 0xFFFFFFFF)):
        s = {"b": b, "min": mn, "max": le(mx, 8)}
        ks = [f"{i:06x}" for i in r.sample(range(1 << 24), mn)]
        yield dict(s, k="list", t="U8", vs=["5b"], rep=mn)
        yield dict(s, k="set", t="ValC", vs=[x + "ab" for x in ks])
        yield dict(s, k="map", kt="ValC", t="U8", vs=[[x + "cd", x[:2]] for x in ks])


def histories(c, n):
    r = c.rng
    for i in range(n):
        yield [step(r) for _ in range(r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 8, 12]))]
    # pairs that could be confused if anything were missing
    for _ in range(n // 4):
        st = [step(r) for _ in range(r.randrange(1, 5))]
        yield st
        yield st + st
        yield st[::-1]
        yield st[:-1]
        yield [x for x in st if x["k"] != "opt"]
        yield st + [step(r, st[-1]["k"])]


def C08(c):
    c.build()
    c.model("MC_Engine", what="with an ideal hash different parts under the same types absorb different strings")
    r = c.rng
    tr = []
    for i, s in enumerate(every_step(r)):
        tr.append({"id": f"one{i}", "ops": [{"op": "e_commit", "id": IDS[i % 6], "steps": [s]}]})
    for i, h in enumerate(histories(c, 250 if QUICK else 4000)):
        ops = [{"op": "e_commit", "id": r.choice(IDS), "steps": h}]
        ops.append(dict(ops[0], id=r.choice(IDS)))
        tr.append({"id": f"hist{i}", "ops": ops})
    for n in (255, 256, 65535, 65536, 70000, 0x1000001):
        tr.append({"id": f"rep{n}", "ops": [{"op": "e_commit", "id": "IdA", "steps": [{"k": "list", "t": "U8", "b": "0..FFFFFFFF", "min": 0, "max": le(0xFFFFFFFF, 8), "vs": ["5a"], "rep": n}]}]})
    for i, s in enumerate(blobs(r)):
        tr.append({"id": f"blob{i}", "ops": [{"op": "e_commit", "id": IDS[i % 6], "steps": s}]})
    for i, s in enumerate(large_minima(r)):
        tr.append({"id": f"large{i}", "ops": [{"op": "e_commit", "id": "IdB", "steps": [s]}]})
    for n in (254, 255, 256, 300):
        tr.append({"id": f"long{n}", "ops": [{"op": "e_commit", "id": "IdA", "steps": [step(r, small=True) for _ in range(n)]}]})
    c.conform(tr, T, "engine", "commitments to histories of parts")


def C09(c):
    c.build()
    c.model("MC_Engine", what="one layout entry per part, in order, dependent on the types only")
    r = c.rng
    tr = []
    kinds = ["e_layout", "e_text", "e_commit"]
    for i, s in enumerate(every_step(r)):
        tr.append({"id": f"one{i}", "ops": [{"op": k, "id": IDS[i % 6], "steps": [s]} for k in kinds]})
    for i in IDS:
        tr.append({"id": f"empty-{i}", "ops": [{"op": k, "id": i, "steps": []} for k in kinds]})
    for i, h in enumerate(histories(c, 150 if QUICK else 3000)):
        tr.append({"id": f"hist{i}", "ops": [{"op": k, "id": r.choice(IDS), "steps": h} for k in kinds]})
    for n in (254, 255, 256):
        tr.append({"id": f"long{n}", "ops": [{"op": k, "id": "IdB", "steps": [step(r, small=True) for _ in range(n)]} for k in kinds]})
    for i, s in enumerate(large_minima(r)):
        tr.append({"id": f"large{i}", "ops": [{"op": k, "id": "IdA", "steps": [s]} for k in ("e_layout", "e_text")]})
    # the types of the library
    pid, h = hx(r, 32), hx(r, 32)
    lib = {"MerkleTree": ["0003" + hx(r, 8) + "0000" + "000000" + "000000", "0001" + hx(r, 8) + "0000" + "010000" + pid + h + "010000" + le(int(pid[:2], 16) & 1, 4) + pid + h],
           "MerkleBlock": ["0000" + "0000" + "01000000" + "01" + pid + h + "00", "0003" + "0100" + "01000000" + "0000" + h + "01" + hx(r, 8)],
           "MerkleConcealed": ["05" + "0300" + h], "Leaf": ["10" + pid + h, "11" + hx(r, 12)],
           "MerkleNode": ["02" + "01" + le(4, 32) + h + pid, "00" + "00" + "00" * 32 + "ff" * 64], "ReservedBytes47": ["07" * 4]}
    for t, vs in lib.items():
        tr.append({"id": f"lib-{t}", "ops": [{"op": "e_lib", "ty": t, "v": v} for v in vs]})
    # looking at the layout or finishing closes the engine; such parts are refused (debug assertions)
    late = [step(r, k, small=True) for k in ("ser", "opt", "hash", "conc", "merkle", "list", "set", "map")]
    fins = [[], ["clone"], ["layout"], ["set"], ["layout", "clone"], ["set", "clone"], ["clone", "layout"], ["layout", "set"], ["layout", "layout"]]
    for i, f in enumerate(fins):
        ops = []
        for s in late + [None]:
            for pre in ([], [step(r, small=True)], [step(r, small=True) for _ in range(r.randrange(2, 6))]):
                ops.append({"op": "e_late", "id": r.choice(IDS), "steps": pre, "fin": f, "late": [s] if s else []})
        tr.append({"id": f"closed{i}", "full": True, "ops": ops})
    ops = []
    for t in ("MerkleHash", "StrictHash"):
        g = {"k": "ser", "t": t, "v": hx(r, 32)}
        for pre in ([], [step(r, small=True)]):
            ops += [{"op": "e_late", "id": r.choice(IDS), "steps": pre + [g], "fin": [], "late": []},
                    {"op": "e_late", "id": r.choice(IDS), "steps": pre, "fin": [], "late": [g, step(r, small=True)]}]
    tr.append({"id": "guarded", "full": True, "ops": ops})
    c.conform(tr, T, "engine", "layouts of histories of parts, as data and as text")


# ------------------------------------------------------- C11, C12 and C13
def veq(r, n):
    """A relation of values which counts as equality: reflexive and symmetric."""
    v = [[int(r.random() < 0.5) for _ in range(n)] for _ in range(n)]
    return [[1 if i == j else v[min(i, j)][max(i, j)] for j in range(n)] for i in range(n)]


def C11(c):
    c.build()
    c.model("MC_Schemes", what="over all small schemes: honest commitments verify, and what verifies is what committing gives")
    r = c.rng
    tr = []
    cases = [[cm, m, k] for cm in range(4) for m in range(3) for k in range(3)]
    # all functions of three messages, and histories of them
    for op, lo in (("s_commit", 0), ("s_try", -1)):
        for eq in ("plain", "class"):
            fs = [[list(f)] for f in itertools.product(range(lo, 4), repeat=3)]
            fs += [[[r.randrange(lo, 4) for _ in range(3)] for _ in range(3)] for _ in range(100 if QUICK else 3000)]
            for j, q in enumerate(chunks(fs, 8)):
                tr.append({"id": f"{op}-{eq}-{j}", "ops": [{"op": op, "eq": eq, "t": {"fs": f}, "cases": cases} for f in q]})
    c.conform(tr, T, "schemes", "all functions and histories of functions as commitment schemes")
    C11_tree(c)


def C12(c):
    c.build()
    c.model("MC_Schemes", what="over all small embedding schemes: completeness and soundness of verification")
    r = c.rng
    errs = [-1, -2, -3, -9, -10]
    cases = [[x, m, p] for x in range(3) for m in range(2) for p in range(3)]
    tabs = []
    # one path through the tables, the rest are decoys of other values
    for restore in errs + [0, 1, 2]:
        for em in ([[-9, 0], [-1, 0]] + [[a, b] for a in range(3) for b in range(3)]) if restore >= 0 else [[0, 0]]:
            for x, p, m in ((0, 0, 0), (1, 0, 1), (0, 1, 0), (2, 1, 1)):
                d = r.choice([0, 1])
                t = {"restore": [[(restore + 1 + d) % 3 if restore >= 0 else 1] * 3 for _ in range(3)],
                     "embed": [[[(em[0] + 1) % 3, (em[1] + 1) % 3] for _ in range(2)] for _ in range(3)], "veq": veq(r, 3)}
                t["restore"][p][x] = restore
                if restore >= 0:
                    t["embed"][restore][m] = em
                tabs.append(t)
    for _ in range(150 if QUICK else 5000):
        tabs.append({"restore": [[r.choice(errs + [0, 1, 2] * 4) for _ in range(3)] for _ in range(3)],
                     "embed": [[[r.choice([-9, 0, 1, 2, 0, 1, 2]), r.randrange(3)] for _ in range(2)] for _ in range(3)], "veq": veq(r, 3)})
    # proper schemes: containers are (original, message), the proof is the original
    for _ in range(10):
        o = [0, 1, 2]
        tabs.append({"restore": [[p] * 3 for p in o], "embed": [[[(x + m) % 3, x] for m in range(2)] for x in o], "veq": veq(r, 3)})
        tabs.append({"restore": [[(x - p) % 3 for x in o] for p in o], "embed": [[[(x + m) % 3, m] for m in range(2)] for x in o], "veq": veq(r, 3)})
    tr = []
    for j, t in enumerate(tabs):
        tr.append({"id": f"embed-{j}", "ops": [{"op": "s_embed", "eq": eq, "t": t, "cases": cases} for eq in ("plain", "class", "table")]})
    c.conform(tr, T, "schemes", "tables as embedding schemes, every container, message and proof")


def C13(c):
    c.build()
    c.model("MC_Schemes", what="over all small convolution schemes: completeness and soundness of verification")
    r = c.rng
    cases = [[x, m, p] for x in range(3) for m in range(2) for p in range(3)]
    tabs = []
    for src in range(3):
        for sup in range(3):
            for cv in [[-9, 0], [-1, 0]] + [[a, b] for a in range(3) for b in range(3)]:
                x, p, m = r.randrange(3), r.randrange(3), r.randrange(2)
                t = {"restore": [[(src + 1) % 3] * 3 for _ in range(3)], "suppl": [(sup + 1) % 3] * 3,
                     "conv": [[[[(cv[0] + 1) % 3, (cv[1] + 1) % 3] for _ in range(2)] for _ in range(3)] for _ in range(3)], "veq": veq(r, 3)}
                t["restore"][p][x] = src
                t["suppl"][p] = sup
                t["conv"][src][sup][m] = cv
                tabs.append(t)
    for _ in range(150 if QUICK else 5000):
        tabs.append({"restore": [[r.randrange(3) for _ in range(3)] for _ in range(3)], "suppl": [r.randrange(3) for _ in range(3)],
                     "conv": [[[[r.choice([-9, 0, 1, 2, 0, 1, 2]), r.randrange(3)] for _ in range(2)] for _ in range(3)] for _ in range(3)],
                     "veq": veq(r, 3)})
    tr = [{"id": f"conv-{j}", "ops": [{"op": "s_convolve", "eq": eq, "t": t, "cases": cases} for eq in ("plain", "class", "table")]}
          for j, t in enumerate(tabs)]
    c.conform(tr, T, "schemes", "tables as convolution schemes, every commitment, message and proof")


# ------------------------------------------------------------------- C14
def C14(c):
    c.build()
    c.model("MC_Seals", what="over all small media: a list closes iff each of its seals does; errors name the first failure")
    r = c.rng
    lists = [list(x) for n in range(0, 4) for x in itertools.product(range(3), repeat=n)]
    tr = []
    tabs = []
    for incl in itertools.product((0, 1), repeat=6):
        tabs.append([list(incl[2 * s:2 * s + 2]) for s in range(3)])
    for j, incl in enumerate(tabs):
        ops = []
        for _ in range(2 if QUICK else 20):
            p, cl = r.randrange(3), r.randrange(2)
            t = {"incl": incl, "pub": p, "cli": cl, "conv": [[r.choice([-1, -7, 0, 1, 2, 3]) for _ in range(2)] for _ in range(2)],
                 "acc": [[r.choice([-1, -5, 0, 0, 0]) for _ in range(4)] for _ in range(3)]}
            ls = lists if not QUICK else lists[:13] + r.sample(lists[13:], 9)
            cases = [[q, m] for q in ls for m in range(2)]
            ops.append({"op": "c_seals", "p": p, "c": cl, "t": t, "cases": cases})
            ops.append({"op": "c_nowit", "p": p, "t": t, "cases": cases})
        tr.append({"id": f"incl{j}", "ops": ops})
    # every combination of outcomes for a full list, included or not
    ops = []
    for conv in (-1, 0, 1, 2, 3):
        for acc in (-1, 0):
            for p in range(3):
                t = {"incl": [[1, 1]] * 3, "pub": p, "cli": 1, "conv": [[2, 2], [conv, 3]],
                     "acc": [[acc if (a == max(conv, 0) and q == p) else (-2 if acc == 0 else 0) for a in range(4)] for q in range(3)]}
                cases = [[q, m] for q in ([], [0], [1, 2], [2, 1, 0], [0, 0]) for m in range(2)]
                ops.append({"op": "c_seals", "p": p, "c": 1, "t": t, "cases": cases})
                ops.append({"op": "c_nowit", "p": p, "t": t, "cases": cases})
    tr += [{"id": f"out{i}", "ops": o} for i, o in enumerate(chunks(ops, 10))]
    # lists longer than any counter of one byte, the seal of interest anywhere
    ops = []
    for acc in (-1, 0):
        for incl in ([[1, 1]] * 3, [[1, 1], [0, 0], [1, 1]], [[1, 1], [1, 1], [0, 1]]):
            t = {"incl": incl, "pub": 1, "cli": 1, "conv": [[2, 2], [2, 3]],
                 "acc": [[acc if q == 1 else 0 for a in range(4)] for q in range(3)]}
            cases = []
            for n in (17, 64, 255, 256, 257, 300, 1025):
                k = r.randrange(n)
                cases += [[[0] * n, 0], [[0] * k + [1] + [0] * (n - k - 1), 0], [[0] * (n - 1) + [1], 1], [[1] + [0] * (n - 1), 0],
                          [[r.randrange(3) for _ in range(n)], 1], [[2] * n, 0], [[2] * (n - 1) + [1], 1], [[1] * n, 0]]
            ops.append({"op": "c_seals", "p": 1, "c": 1, "t": t, "cases": cases})
            ops.append({"op": "c_nowit", "p": 1, "t": t, "cases": cases})
    tr += [{"id": f"long{i}", "ops": o} for i, o in enumerate(chunks(ops, 2))]
    # ... or of two bytes
    ops = []
    for incl in ([[1, 1]] * 3, [[1, 1], [0, 0], [1, 1]], [[1, 1], [1, 1], [0, 0]]):
        t = {"incl": incl, "pub": 1, "cli": 1, "conv": [[2, 2], [2, 3]], "acc": [[-1 if q == 1 else 0 for a in range(4)] for q in range(3)]}
        ops.append({"op": "c_runs", "p": 1, "c": 1, "t": t, "cases": [
            [[[n, 0], [a, 1], [b, 2], [2, 0]], 0] for n in (0, 1, 65534, 65535, 65536, 65537, 100003) for a in (0, 1) for b in (0, 1)]})
        ops.append(dict(ops[-1], p=0, t=dict(t, pub=0), cases=[[[[r.randrange(3) * 40000, 0], [r.randrange(3) * 40000, 2], [r.randrange(2), 1]], 1] for _ in range(8)]))
    tr += [{"id": f"runs{i}", "ops": [o]} for i, o in enumerate(ops)]
    tr.append({"id": "nowitness", "ops": [{"op": "c_now", "m": m} for m in range(256)]})
    tr.append({"id": "wire", "ops": [{"op": "c_enc", "d": hx(r, n)} for n in list(range(0, 9)) + [6] * 20]})
    c.conform(tr, T, "seals", "lists of seals over messages with every table of inclusions")


# ------------------------------------------------------------ C15 and C16
NAMES = ["a", "b", "c", "same", ""]


def entries(r, k, issues=False):
    return [(r.choice("xyz") + "/" if issues else "") + r.choice("pqr") + (str(r.randrange(3))) for _ in range(k)]


def rstatus(r, p=0.4):
    k = lambda: 0 if r.random() > p else r.choice([1, 1, 2, 3])
    return [entries(r, k(), True), entries(r, k()), entries(r, k()), entries(r, k())]


EMPTY = [[], [], [], []]


def C15(c):
    c.build()
    c.model("MC_Validation", what="over all small data and resolvers: the traversal visits everything once and drops nothing")
    r = c.rng
    tr = []
    ops = []
    # all shapes with up to three items of up to two seals, a report at every place or answer in turn
    for shape in [s for n in range(0, 4) for s in itertools.product(range(3), repeat=n)]:
        total = sum(shape)
        seal = iter("stuvwxyz")
        items = [{"name": f"i{k}", "seals": [next(seal) for _ in range(n)], "st": [[f"q/i{k}"], [f"f{k}"], [f"w{k}"], [f"n{k}"]]}
                 for k, n in enumerate(shape)]
        base = {"op": "v_validate", "own": [["o/own"], ["fo"], ["wo"], ["no"]], "seals": ["own"], "items": items, "answers": []}
        ops.append(base)
        ops.append(dict(base, own=EMPTY, answers=[f"x{k}" for k in range(total)]))
        for k in range(total):
            ops.append(dict(base, own=EMPTY, items=[dict(i, st=EMPTY) for i in items], answers=[""] * k + ["bad"]))
        for k in range(len(shape)):
            for kind in range(4):
                st = [["z/1", "z/2"] if j == kind == 0 else ["one", "one"] if j == kind else [] for j in range(4)]
                ops.append(dict(base, own=EMPTY, items=[dict(i, st=st if j == k else EMPTY) for j, i in enumerate(items)]))
    tr += [{"id": f"shape{i}", "ops": o} for i, o in enumerate(chunks(ops, 10))]
    for i in range(250 if QUICK else 5000):
        n = r.choice([0, 1, 2, 3, 5, 10, 30])
        items = [{"name": r.choice(NAMES), "seals": [r.choice("stu") for _ in range(r.choice([0, 0, 1, 2, 3, 7]))], "st": rstatus(r)}
                 for _ in range(n)]
        if items and i % 4 > 1:        # one item at several places, next to each other or not
            for _ in range(r.randrange(1, 4)):
                items.insert(r.randrange(len(items) + 1), r.choice(items))
            items += [items[-1]] * r.randrange(3)
        k = sum(len(x["seals"]) for x in items)
        p = r.choice([0, 0.1, 0.5, 1])
        tr.append({"id": f"data{i}", "ops": [{"op": "v_validate", "share": i % 2 == 1, "own": rstatus(r), "seals": entries(r, r.randrange(3)), "items": items,
                                              "answers": [r.choice(["e", "f"]) if r.random() < p else "" for _ in range(k + r.randrange(-1, 3))]}]})
    # more items, seals, reports and failing answers than any counter of one byte holds
    for j, (n, k) in enumerate([(256, 1), (300, 0), (300, 2), (1, 255), (1, 256), (2, 300), (17, 17), (1, 1025), (1100, 1)]):
        for p in (0, 1, 0.02):
            items = [{"name": f"i{i}", "seals": [f"s{i}-{x}" for x in range(k)], "st": rstatus(r, 0.1)} for i in range(n)]
            big = [[f"o/{i}" for i in range(300)] if p else [], [f"f{i}" for i in range(257)], [], [f"n{i}" for i in range(256)]]
            tr.append({"id": f"many{j}-{p}", "ops": [
                {"op": "v_validate", "own": big if j % 2 else EMPTY, "seals": [], "items": items,
                 "answers": [f"e{i}" if r.random() < p else "" for i in range(n * k)]}]})
    for t in tr:                       # iterators which know their length, or do not
        for o in t["ops"]:
            o["hint"] = r.randrange(4)
    c.conform(tr, T, "csv", "validation of data with any items, seals, reports and resolver answers, with the calls made")


def C16(c):
    c.build()
    c.model("MC_Validation", what="over all small statuses: verdict, accumulation, monotonicity, associativity")
    r = c.rng
    tr = []
    kinds = ["issue", "failure", "warning", "info"]

    def text(k):
        return ("s/" if k == "issue" else "") + r.choice(["a", "b", "same"])
    # all histories of additions up to length four
    for i, h in enumerate(itertools.chain.from_iterable(itertools.product(kinds, repeat=n) for n in range(5))):
        if QUICK and len(h) == 4 and i % 3:
            continue
        ops = [{"op": "v_new", "s": 0, "how": "new"}] + [{"op": "v_add", "s": 0, "k": k, "x": text(k)} for k in h]
        ops += [{"op": "v_new", "s": 1, "how": "default"}, {"op": "v_merge", "s": 1, "y": 0}, {"op": "v_eq", "s": 0, "y": 1},
                {"op": "v_merge", "s": 0, "y": 1}]
        tr.append({"id": f"adds{i}", "ops": ops})
    # all pairs of statuses with none or one entry per list, merged both ways
    one = [[["s/i"] if m & 1 else [], ["f"] if m & 2 else [], ["w"] if m & 4 else [], ["n"] if m & 8 else []] for m in range(16)]
    for a in range(16):
        for b in range(16):
            tr.append({"id": f"pair{a}-{b}", "ops": [
                {"op": "v_new", "s": 0, "how": "raw", "st": one[a]}, {"op": "v_new", "s": 1, "how": "raw", "st": one[b]},
                {"op": "v_eq", "s": 0, "y": 1}, {"op": "v_merge", "s": 0, "y": 1}, {"op": "v_merge", "s": 1, "y": 0},
                {"op": "v_eq", "s": 1, "y": 0}]})
    for i in range(300 if QUICK else 5000):
        ops = [{"op": "v_new", "s": s, "how": h, "x": "f0", "xs": entries(r, r.randrange(4)), "st": rstatus(r)}
               for s, h in zip(range(4), r.sample(["new", "default", "failure", "iter", "raw"], 4))]
        for _ in range(r.randrange(3, 25)):
            x = r.random()
            if x < 0.45:
                k = r.choice(kinds)
                ops.append({"op": "v_add", "s": r.randrange(4), "k": k, "x": text(k)})
            elif x < 0.8:
                if sum(o["op"] == "v_merge" for o in ops) < 8:
                    ops.append({"op": "v_merge", "s": r.randrange(4), "y": r.randrange(4)})
            elif x < 0.9:
                ops.append({"op": "v_eq", "s": r.randrange(4), "y": r.randrange(4)})
            else:
                ops.append({"op": "v_new", "s": r.randrange(4), "how": r.choice(["new", "default", "failure", "iter", "raw"]), "x": "f0",
                            "xs": entries(r, r.randrange(4)), "st": rstatus(r)})
        for o in ops:                  # iterators which know their length, or do not
            if o.get("how") == "iter":
                o["hint"] = r.randrange(4)
        tr.append({"id": f"hist{i}", "ops": ops})
    for i, n in enumerate((16, 64, 128, 255, 256, 257, 300, 1025)):
        for m in range(16):
            st = [[(f"o/{x % 7}" if j == 0 else f"{j}{x}") for x in range(n)] if m >> j & 1 else [] for j in range(4)]
            ops = [{"op": "v_new", "s": 0, "how": "raw", "st": st}, {"op": "v_new", "s": 1, "how": "raw", "st": rstatus(r)},
                   {"op": "v_new", "s": 2, "how": "iter", "x": "f0", "xs": [f"q/{x}" for x in range(n)], "st": EMPTY}]
            ops += [{"op": "v_add", "s": 0, "k": k, "x": text(k)} for k in r.sample(kinds, 2)]
            ops += [{"op": "v_merge", "s": 1, "y": 0}, {"op": "v_eq", "s": 0, "y": 1}, {"op": "v_merge", "s": 2, "y": 1},
                    {"op": "v_add", "s": 1, "k": "failure", "x": "last"},
                    {"op": "v_new", "s": 3, "how": "raw", "st": [["s/one"], ["fone"], ["wone"], ["none"]]},
                    {"op": "v_merge", "s": 0, "y": 3}, {"op": "v_new", "s": 3, "how": "raw", "st": st},
                    {"op": "v_merge", "s": 3, "y": 0}]
            tr.append({"id": f"many{i}-{m}", "ops": ops})
    for j, k in enumerate(kinds):      # more entries than two bytes count
        lj = {"issue": 0, "failure": 1, "warning": 2, "info": 3}[k]
        st = [[f"s/{x % 9}" if lj == 0 else f"{x}" for x in range(65535)] if i == lj else [] for i in range(4)]
        tr.append({"id": f"huge-{k}", "ops": [{"op": "v_new", "s": 0, "how": "raw", "st": st}] +
                   [{"op": "v_add", "s": 0, "k": k, "x": text(k)} for _ in range(2)] +
                   [{"op": "v_new", "s": 1, "how": "raw", "st": [["s/one"], ["fone"], ["wone"], ["none"]]},
                    {"op": "v_merge", "s": 1, "y": 0}, {"op": "v_merge", "s": 0, "y": 1}]})
    c.conform(tr, T, "csv", "histories of additions and merges over statuses")


# ------------------------------------------------------------------- C17
RSV = [(1, 0), (2, 0), (3, 0), (4, 0), (8, 0), (16, 0), (32, 0), (1, 1), (1, 255), (2, 255), (3, 90), (4, 127), (8, 1), (32, 255), (33, 0), (64, 0), (255, 9), (256, 1), (300, 0)]


def C17(c):
    c.build()
    r = c.rng
    tr = []
    for n, v in RSV:
        ok = bytes([v]) * n
        base = {"len": n, "val": v}
        ops = [dict(base, op="r_default"), dict(base, op="r_from", d=ok.hex()), dict(base, op="r_dec", d=ok.hex())]
        bad = set()
        for i in range(n):
            for x in (range(256) if n <= 4 or not QUICK else {v ^ 1, r.randrange(256)} if n > 40 else {0, 1, 2, 127, 128, 254, 255, v ^ 1, v ^ 128, r.randrange(256)}):
                if x != v:
                    bad.add(ok[:i] + bytes([x]) + ok[i + 1:])
        for x in range(256):
            if x != v:
                bad.add(bytes([x]) * n)
        for _ in range(50):        # pairs of deviations which cancel in sums, xors, ...
            i, j = r.randrange(n), r.randrange(n)
            y = bytearray(ok)
            x = r.randrange(1, 256)
            y[i], y[j] = (v + x) % 256, (v - x) % 256
            bad.add(bytes(y))
            y[i] = y[j] = v ^ x
            bad.add(bytes(y))
        for x in sorted(bad):
            ops.append(dict(base, op="r_from", d=x.hex()))
            ops.append(dict(base, op="r_dec", d=x.hex()))
        for k in range(0, n + 3):
            ops.append(dict(base, op="r_dec", d=(bytes([v]) * k).hex()))
            ops.append(dict(base, op="r_dec", d="00" * k))
        ops = [o for o in ops if o["op"] == "r_default" or len(o["d"]) == 2 * n or o["op"] == "r_dec"]
        tr += [{"id": f"reserved{n}-{v}-{i}", "ops": o} for i, o in enumerate(chunks(ops, 300))]
        tr.append({"id": f"text{n}-{v}", "full": True, "ops": [dict(base, op="r_serde", t=t) for t in ("", "null", "0", "[]", '"00"', "{}")]})
    c.conform(tr, T, "reserved", "every single-byte deviation, pairs of deviations and lengths of reserved fields")


# ------------------------------------------------------------------- C18
MAXIMA = ["0x0", "0x1", "0x7F", "0xFE", "0xFF", "0x100", "0x101", "0x7FFF", "0xFFFE", "0xFFFF", "0x10000", "0x10001", "0xFFFFFE",
          "0xFFFFFF", "0x1000000", "0x1000001", "0xFFFFFFFE", "0xFFFFFFFF", "0x100000000", "0xFFFFFFFFFFFFFFFF"]


def C18(c):
    c.build()
    c.model("MC_Digest", what="sequences of inputs within their maxima are absorbed injectively")
    r = c.rng
    tr = []
    tags = ["", "a", "test", "urn:lnp-bp:mpc:tree", "x" * 63, "x" * 64, "x" * 65, "tag#2024", "été",
            " a", "a ", "a\n", "\ta", "a\0", "\0", "\0a", "A", "Urn:LNP-BP:MPC:Tree", "urn:lnp-bp:mpc:tree#"]
    tags += ["ab" * (n // 2) + "c" * (n % 2) for n in (31, 32, 33, 55, 56, 100, 119, 120, 127, 128, 129, 191, 192, 255, 256, 257,
                                                    300, 320, 511, 512, 513, 1000, 1024, 4096, 65535, 65536, 70000)]
    for h in ("sha256", "ripemd160"):
        for m in MAXIMA:
            mx = int(m, 16)
            ops = [{"op": "d_new", "h": h}]
            for n in [0, 1, 2, 55, 56, 63, 64, 127, 128, 254, 255, 256, 257, 1000, 65535, 65536, 70000]:
                if n <= mx:
                    ops.append({"op": "d_len", "max": m, "d": hx(r, 1), "rep": n})
            if mx >= 0xFFFFFF and (not QUICK or m in ("0xFFFFFF", "0x1000000") and h == "sha256"):
                ops.append({"op": "d_len", "max": m, "d": "5a", "rep": 0xFFFFFF})
                if mx > 0xFFFFFF:
                    ops.append({"op": "d_len", "max": m, "d": "5a", "rep": 0x1000000})
            if mx <= 70000:
                ops.append({"op": "d_len", "max": m, "d": "a5", "rep": mx})
            tr.append({"id": f"len-{h}-{m}", "ops": ops})
        for t in tags:
            d = t.encode().hex()
            tr.append({"id": f"tag-{h}-{t[:8]}-{len(t)}", "ops": [{"op": "d_tag", "h": h, "d": d}, {"op": "d_raw", "d": hx(r, 5)},
                                                                {"op": "d_tag", "h": h, "d": d + "ff"}, {"op": "d_raw", "d": ""}]})
    for i in range(250 if QUICK else 6000):
        h = r.choice(["sha256", "ripemd160"])
        ops = [{"op": "d_new", "h": h} if r.random() < 0.5 else {"op": "d_tag", "h": h, "d": hx(r, r.choice([0, 1, 20, 32, 64, 200]))}]
        for _ in range(r.randrange(1, 9)):
            if r.random() < 0.3:
                ops.append({"op": "d_raw", "d": hx(r, r.choice([0, 1, 3, 64, 65]))})
            else:
                m = r.choice(MAXIMA[:-2])
                ops.append({"op": "d_len", "max": m, "d": hx(r, min(int(m, 16), r.choice([0, 1, 1, 2, 5, 31, 32, 64, 255, 256, 300])))})
        tr.append({"id": f"seq{i}", "ops": ops})
    c.conform(tr, T, "digest", "tags, raw input and length-prefixed input at every declared maximum")


# ------------------------------------------------------------------- C19
def C19(c):
    c.build()
    c.model("MC_Buoy", "MC_Buoy" if not QUICK else "MC_Buoy_q", what="the nested algorithm refines joining; cuts of trees surface exactly when complete")
    r = c.rng
    tr = []
    # every sequence up to length 6 over depths up to 3 (4 symbols), for every top
    for ty in ("u5", "u8"):
        for top in (None, 0, 1, 2, 3, 4):
            t = {"ty": ty} if top is None else {"ty": ty, "top": top}
            ops = [dict(t, op="b_row", pre=[], max=3, len=n) for n in range(0, 4)]
            if QUICK:
                pres = itertools.product(range(4), repeat=2) if ty == "u5" else [(1, 2), (3, 3), (2, 1)]
                ops += [dict(t, op="b_row", pre=list(p), max=3, len=4) for p in pres]
            else:
                ops += [dict(t, op="b_row", pre=list(p), max=4, len=5) for p in itertools.product(range(5), repeat=2)]
            tr += [{"id": f"rows-{ty}-{top}-{i}", "ops": o} for i, o in enumerate(chunks(ops, 5))]

    # cuts of deep trees in order, complete and broken, and random pushes
    def cut(k, mx):
        if k >= mx or r.random() < 0.3:
            return [k]
        return cut(k + 1, mx) + cut(k + 1, mx)

    def spine(mx):
        """a path down to depth mx: n siblings, then everything joins at once"""
        a = list(range(1, mx + 1)) + [mx]
        return a if r.random() < 0.5 else a[::-1]
    for i in range(300 if QUICK else 6000):
        ty = r.choice(["u5", "u8"])
        lim = 31 if ty == "u5" else 255
        x = r.random()
        if x < 0.35:
            k = r.randrange(0, 3)
            seq = cut(k, k + r.randrange(1, 7))
        elif x < 0.5:
            seq = spine(r.choice([1, 2, 5, 16, 30, 31] + ([60, 150, 255] if ty == "u8" else [])))
        elif x < 0.75:
            seq = [r.randrange(0, r.choice([2, 4, lim + 1])) for _ in range(r.randrange(1, 40))]
        else:
            seq = cut(0, r.randrange(1, 5))
            seq.insert(r.randrange(len(seq) + 1), r.randrange(0, 6))
        ops = [{"op": "b_new", "ty": ty} if r.random() < 0.2 else {"op": "b_new", "ty": ty, "top": seq[0]}]
        ops += [{"op": "b_push", "d": d} for d in (seq if "top" not in ops[0] else seq[1:])]
        tr.append({"id": f"push{i}", "ops": ops})
    c.conform(tr, T, "buoy", "all short sequences of depths; cuts of trees, spines and random sequences")


# ------------------------------------------------------------------- C10
def derived(r, ty):
    def u(n):
        return r.choice([hx(r, n), hx(r, n), "00" * n, "ff" * n])

    def named():
        return u(2) + u(8) + u(1)

    def assoc():
        return r.choice(["00" + u(4) + u(1), "01" + u(1) + u(2) + u(4), "02"])

    def prim():
        return r.choice(["03", "07", "80"])

    def coll():
        n, m = r.choice([0, 1, 2, 5, 255]), r.choice([0, 1, 7, 255, 256, 3000])
        ks = sorted(r.sample(range(256), r.choice([0, 1, 2, 9])))
        return (le(n, 1) + u(2 * n) + le(m, 2) + u(m) + le(len(ks), 1) + "".join(le(k, 1) + u(2) for k in ks)
                + r.choice(["00", "01" + u(1)]))
    if ty in ("Named", "Tuple", "TransNamed"):
        return named()
    if ty in ("Assoc", "TransAssoc"):
        return assoc()
    if ty == "TransGen":
        return assoc()
    if ty == "XEnum" and r.random() < 0.4:
        return "00" + u(4)
    if ty in ("XTuple", "XEnum"):
        n = r.choice([0, 1, 2, 3, 4, 5, 8, 9, 33, 255])
        return ("01" if ty == "XEnum" else "") + le(n, 1) + hx(r, 2 * n) + (u(2) if ty == "XEnum" else "")
    if ty == "XTree":
        n = r.choice([0, 1, 2, 3, 4, 5, 8, 9, 33, 255])
        return le(n, 1) + hx(r, 2 * n) + u(1)
    return {"Pathed": lambda: u(4), "Hashed": lambda: u(4), "Collections": coll, "Nested": lambda: named() + assoc() + prim(),
            "Prim": prim, "Custom": lambda: r.choice(["09" + u(2), "02" + u(1), "fe"]), "GenericU16": lambda: u(3),
            "GenericNamed": lambda: named() + u(1), "Wheres": lambda: u(1) + assoc(), "XLeaf": lambda: u(2), "TransU16": lambda: u(2),
            "SecretEnum": lambda: r.choice(["00" + u(4), "01" + u(1)]), "SecretStruct": lambda: u(3), "SecretOther": lambda: u(6),
            "Single": lambda: u(4), "BoundedU8U16": lambda: u(1) + u(2) + u(1), "TransMarked": lambda: u(3), "SecretTuple": lambda: u(3),
            "SecretGen": lambda: u(10)}[ty]()


DERIVED = ["Named", "Tuple", "Pathed", "Hashed", "Collections", "Nested", "Prim", "Assoc", "Custom", "GenericU16", "GenericNamed", "Wheres",
           "XLeaf", "TransU16", "TransNamed", "TransAssoc", "SecretEnum", "SecretStruct", "SecretOther", "XTree",
           "Single", "BoundedU8U16", "TransMarked", "TransGen", "SecretTuple", "SecretGen", "XTuple", "XEnum"]


def C10(c):
    c.build()
    try:
        c.bins = vlib.build(bin="derive_driver")
    except vlib.BuildError as e:
        # the library builds, types which derive its encodings do not
        c.violate("build", {"what": "types deriving a commitment encoding do not compile", "output": str(e)})
        return
    r = c.rng
    tr = []
    for ty in DERIVED:
        vs = {derived(r, ty) for _ in range(60 if QUICK else 2000)}
        ops = [{"op": "x_id", "ty": ty, "v": v} for v in sorted(vs)]
        for v in sorted(vs)[:20]:            # neighbours: one bit apart, in parts that do not tell variants or lengths apart
            w = gm.flip(r, v[2:]) if ty in ("Named", "Tuple", "TransNamed", "Pathed", "Hashed", "SecretStruct", "SecretOther", "GenericU16") else None
            if w:
                ops.append({"op": "x_id", "ty": ty, "v": v[:2] + w})
        ops.append({"op": "x_layout", "ty": ty})
        tr += [{"id": f"{ty}-{i}", "ops": o} for i, o in enumerate(chunks(ops, 50))]
    for x in range(65536 if not QUICK else 600):
        v = le(x if not QUICK else r.randrange(65536), 2)
        tr.append({"id": f"u16-{x}", "ops": [{"op": "x_id", "ty": t, "v": v} for t in ("TransU16", "XLeaf")]})
    c.conform(tr, T, "derive", "values of types with derived encodings: structs, tuples, enums, generics, wrappers, concealed and merklized")


# ------------------------------------------------------------------- C24
FORMS = ["json", "pretty", "value", "bin"]
BROKEN = ["short1", "short2", "long1", "long2", "zeros", "empty", "double", "letter", "space", "prefix"]
IDTYPES = ["ProtocolId", "Message", "Commitment", "StrictHash", "MerkleHash"]


def with_serde(r, ops):
    """After operations that made or changed an object, it is replaced by its copy read back."""
    out = []
    for o in ops:
        out.append(o)
        reg = {"block": "s", "proof": "s", "copy": "s", "with": "s", "except": "x", "other": "x", "merge": "x",
               "merge_path": "x", "load": "s"}.get(o["op"])
        if reg and r.random() < 0.6:
            x = o[reg]
            out.append({"op": "serde", "x": x, "s": x, "f": r.choice(FORMS)})
            if r.random() < 0.3:
                out.append({"op": "serde_bad", "x": x, "f": r.choice(["value", "value", "bin"]), "k": r.randrange(1000),
                            "how": r.choice(BROKEN)})
        if o["op"] == "convolve":
            out.append({"op": "serde_err", "x": o["x"], "p": o["p"], "m": o["m"], "f": r.choice(FORMS)})
    return out


def C24(c):
    c.build(release=False)
    c.model("MC_Text", what="all texts up to four characters: length, digits, reading back of what is shown")
    r = c.rng
    tr = []
    for i in range(120 if QUICK else 3000):
        tr.append({"id": f"h{i}", "ops": with_serde(r, gm.history(r, nmax=r.choice([4, 12]), dmax=6, steps=12))})
    for i in range(40 if QUICK else 600):
        h = r.choice(["00", "05", "1f", hx(r, 1)[0] + "0"])
        d = r.randrange(32)
        conc = le(d, 1) + r.choice(["0000", "0100", "ffff", "f401", hx(r, 2)]) + r.choice([hx(r, 32), "00" * 32, "ff" * 32])
        k = r.choice([0, 1, 2, 3, 5, 8, 16, 30, 31])
        pr = "00" + r.choice([hx(r, 4), "00000000", "ffffffff", "00000080"]) + r.choice(["0000", "ffff", hx(r, 2)]) + le(k, 1) + hx(r, 32 * k)
        ent = r.choice(["00", "01" + "00" * 8, "01" + "ff" * 8, "01" + hx(r, 8), "01" + le(1, 8), "01" + le((1 << 53) + 1, 8)])
        n = r.choice([1, 1, 2])
        dep = r.randrange(1, 32)
        nodes = "0000" + hx(r, 32) if n == 1 else "".join("00" + le(1, 1) + hx(r, 32) for _ in range(n))
        bl = "00" + le(dep, 1) + r.choice(["0000", "ffff", hx(r, 2)]) + le(n, 4) + nodes + ent
        ops = []
        for kind, x, s_ in (("concealed", conc, 9), ("proof", pr, 8), ("block", bl, 2)):
            ops.append({"op": "load", "k": kind, "s": s_, "h": x})
            for f in FORMS:
                ops.append({"op": "serde", "x": s_, "s": s_, "f": f})
            for how in BROKEN:
                ops.append({"op": "serde_bad", "x": s_, "f": "value", "k": r.randrange(1000), "how": how})
            ops.append({"op": "serde_bad", "x": s_, "f": "bin", "k": r.choice([0, 1, 31, r.randrange(1000)]), "how": ""})
        ops += [{"op": "concealed", "x": 9}, {"op": "proof_info", "x": 8}, {"op": "block_info", "x": 2, "p": gm.pid_of(5)}]
        for p in (gm.pid_of(r.getrandbits(256)), gm.pid_of(0), "ff" * 32):
            ops.append({"op": "serde_err", "x": 8, "p": p, "m": "00" * 32, "f": r.choice(FORMS)})
        tr.append({"id": f"wire{i}", "ops": ops})
    c.conform(tr, "TraceMpc", "mpc", "histories in which objects are replaced by their copies read back from text")
    tr = []
    for ty in IDTYPES:
        ops = []
        vals = ["00" * 32, "ff" * 32, bytes(range(32)).hex(), bytes(range(255, 223, -1)).hex(), "0a" * 32, "a0" * 32]
        vals += [hx(r, 32) for _ in range(20 if QUICK else 500)]
        for v in vals:
            ops += [{"op": "t_show", "ty": ty, "v": v}, {"op": "t_array", "ty": ty, "v": v}]
        texts = ["", "0", "00", "0" * 63, "0" * 65, "0" * 66, "0" * 62, "0" * 128, "0x" + "0" * 62, "0x" + "0" * 64]
        v = hx(r, 32)
        texts += [v, v.upper(), v[:32] + v[32:].upper(), v[:-1], v[:-2], v + "0", v + "00", " " + v, v + " ", v + "\n", v + v,
                  "-" + v[1:], v[:10] + "g" + v[11:], v[:63] + "G", v[:20] + "_" + v[21:], '"' + v + '"', v[2:], "00" + v, v[:62] + "/:",
                  v[:62] + "@`"]
        for k in range(0, 70):
            texts.append(hx(r, 40)[:k])
        for t in texts:
            for via in ("str", "hex", "json", "value"):
                ops.append({"op": "t_parse", "ty": ty, "t": t, "via": via})
        for k in list(range(0, 40)) + [63, 64, 65, 255, 256]:
            d = hx(r, k)
            ops.append({"op": "t_parse", "ty": ty, "t": d, "via": "bin"})
            if ty in ("ProtocolId", "Message", "Commitment"):
                ops.append({"op": "t_slice", "ty": ty, "t": d})
        tr += [{"id": f"{ty}{i}", "full": True, "ops": x} for i, x in enumerate(chunks(ops, 150))]
    tr.append({"id": "other", "full": True, "ops": [{"op": "t_method"}, {"op": "t_verr"}, {"op": "r_rt"}]})
    c.conform(tr, T, "text", "ids: shown, read, from text, arrays and slices of every length")
    tr = []
    for i in range(60 if QUICK else 600):
        ops = []
        for s_ in range(4):
            ops += [{"op": "v_new", "s": s_, "how": r.choice(["raw"] * 4 + ["new", "iter", "failure"]), "x": "f0",
                     "xs": entries(r, r.randrange(4)), "st": rstatus(r)}]
            ops += [{"op": "v_serde", "s": s_, "f": f} for f in FORMS]
        ops += [{"op": "v_merge", "s": 0, "y": 1}, {"op": "v_serde", "s": 0, "f": r.choice(FORMS)}, {"op": "v_eq", "s": 0, "y": 1},
                {"op": "v_add", "s": 2, "k": "failure", "x": "f"}, {"op": "v_serde", "s": 2, "f": r.choice(FORMS)}]
        tr.append({"id": f"status{i}", "full": True, "ops": ops})
    c.conform(tr, T, "csv", "statuses replaced by their copies read back")
    ops = [{"op": "c_serde", "d": d, "f": f} for f in FORMS for d in
           ["00" * 6, "ff" * 6, "0100000200" + "00", "000000000100", "010203040506"] + [hx(r, 6) for _ in range(40)]]
    c.conform([{"id": "witness", "full": True, "ops": ops}], T, "seals", "seal witnesses read back")
