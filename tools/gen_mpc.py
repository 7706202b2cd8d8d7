"""Random and boundary histories over the multi-protocol commitment machine.
The generator only picks inputs; the oracle is the specification."""
import hashlib
import random


def le(n, k):
    return n.to_bytes(k, "little").hex()


def pid_of(n):
    return le(n % (1 << 256), 32)


def pos(p, c, d):
    return int.from_bytes(bytes.fromhex(p), "little") % max(1, (1 << d) - c)


def rand_pids(r, n, mode=None):
    mode = mode or r.choice(["rand", "rand", "rand", "small", "stride", "near", "high", "edge"])
    out = set()
    k = 0
    while len(out) < n:
        k += 1
        if mode == "rand" or k > 50 * n + 50:
            v = r.getrandbits(256)
        elif mode == "small":
            v = r.randrange(0, 4 * n + 4)
        elif mode == "stride":
            v = r.randrange(0, 3 * n + 3) << r.choice([1, 2, 3, 8])
        elif mode == "near":
            v = (1 << 256) - 1 - r.randrange(0, 4 * n + 4)
        elif mode == "high":
            v = r.randrange(0, 4 * n + 4) << r.choice([8, 64, 200, 248])
        else:
            v = r.choice([0, 1, 2, 255, 256, (1 << 32) - 1, 1 << 32, (1 << 64) - 1, 1 << 64, (1 << 128), (1 << 255),
                          (1 << 256) - 1, r.getrandbits(256), r.getrandbits(64)])
        out.add(pid_of(v))
    out = list(out)
    r.shuffle(out)
    return out


def rand_msg(r):
    return r.choice([r.randbytes(32).hex(), r.randbytes(32).hex(), "00" * 32, "ff" * 32, le(r.randrange(4), 32)])


def rand_msgs(r, n, mode=None):
    return [[p, rand_msg(r)] for p in rand_pids(r, n, mode)]


def rand_entropy(r):
    return r.choice([r.randbytes(8).hex(), r.randbytes(8).hex(), "00" * 8, "ff" * 8, le(1, 8)])


def commit(s, ms, d=3, e="0000000000000000"):
    return {"op": "commit", "s": s, "ms": ms, "d": d, "fe": e}


def flip(r, h):
    b = bytearray(bytes.fromhex(h))
    i = r.randrange(len(b))
    b[i] ^= 1 << r.randrange(8)
    return b.hex()


def history(r, nmax=12, dmax=6, steps=24, focus=None):
    """One random history: trees in 0,1; blocks 2..6; proofs 7..9."""
    n = r.choice([0, 1, 1, 2, 2, 3, 4, 5, r.randrange(1, nmax + 1), r.randrange(1, nmax + 1)])
    d = r.choice([0, 0, 1, 2, 3, 3, 3, r.randrange(0, dmax + 1)])
    if n == 0 and d == 0:
        d = r.randrange(1, 4)
    ms = rand_msgs(r, n)
    e = rand_entropy(r)
    ops = [commit(0, ms, d, e)]
    # the second tree: the same, the same with other entropy, one message altered, other depth, unrelated
    k = r.randrange(6)
    ms2, d2, e2 = [list(x) for x in ms], d, e
    if k == 1:
        e2 = rand_entropy(r)
    elif k == 2 and ms2:
        ms2[r.randrange(n)][1] = rand_msg(r)
    elif k == 3:
        d2 = d + 1
    elif k == 4:
        ms2 = rand_msgs(r, r.randrange(1, nmax + 1))
    elif k == 5 and n > 1:
        ms2 = ms2[:-1]
    if not ms2 and d2 == 0:
        d2 = 1
    r.shuffle(ms2)
    ops.append(commit(1, ms2, d2, e2))
    ps, ps2 = [x[0] for x in ms], [x[0] for x in ms2]
    msg1, msg2 = dict(map(tuple, ms)), dict(map(tuple, ms2))
    absent = pid_of(r.getrandbits(256))
    anyp = ps + ps2 + [absent]

    def info(b):
        return [{"op": "block_info", "x": b, "p": r.choice(anyp)}, {"op": "block_id", "x": b}]

    def anymsg(p):
        return r.choice([msg1.get(p), msg2.get(p), rand_msg(r)]) or rand_msg(r)

    ops += [{"op": "tree_info", "x": 0, "p": r.choice(anyp)}, {"op": "tree_root", "x": 0},
            {"op": "tree_proofs", "x": 0}, {"op": "matches", "x": 0, "y": 1},
            {"op": "block", "x": 0, "s": 2}, {"op": "block", "x": 1, "s": 3}, {"op": "copy", "x": 2, "s": 4},
            {"op": "copy", "x": 2, "s": 5}, {"op": "copy", "x": 3, "s": 6},
            {"op": "known", "x": 2}, {"op": "known_proofs", "x": 2}] + info(2)
    rev = {b: set(ps) for b in (2, 4, 5)}
    rev.update({b: set(ps2) for b in (3, 6)})
    orig = {2: 0, 4: 0, 5: 0, 3: 1, 6: 1}
    proofs = {}          # register -> (protocol, tree)
    for _ in range(steps):
        b = r.choice([2, 4, 4, 5, 5, 6])
        k = r.choice(["except", "except", "other", "merge", "merge", "merge", "proof", "proof", "convolve", "with",
                      "mpath", "known", "kproofs", "info", "matches", "copy", "missing", "verify", "reset"])
        if k == "except":
            sub = [p for p in rev[b] if r.random() < r.choice([0.2, 0.5, 0.8])]
            r.shuffle(sub)
            if sub and r.random() < 0.2:
                sub.append(sub[0])
            ops.append({"op": "except", "x": b, "ps": sub})
            rev[b] = set(sub)
            ops += [{"op": "block_id", "x": b}]
        elif k == "missing":
            sub = [p for p in rev[b] if r.random() < 0.5] + r.sample(anyp, min(len(anyp), r.randrange(1, 4)))
            r.shuffle(sub)
            ops.append({"op": "except", "x": b, "ps": sub})
            if set(sub) <= rev[b]:
                rev[b] = set(sub)
        elif k == "other":
            p = r.choice(list(rev[b]) + [r.choice(anyp)])
            ops.append({"op": "other", "x": b, "p": p})
            if p in rev[b]:
                rev[b] = {p}
        elif k == "merge":
            y = r.choice([x for x in (2, 4, 5, 6, 3) if x != b] + [b])
            ops.append({"op": "merge", "x": b, "y": y})
            same = orig[b] == orig[y]
            if same:
                rev[b] = rev[b] | rev[y]
            ops += info(b)
            if not same:
                # commitments of both trees may be equal: resynchronise with a fresh copy
                ops.append({"op": "copy", "x": 2 if orig[b] == 0 else 3, "s": b})
                rev[b] = set(rev[2 if orig[b] == 0 else 3])
        elif k == "proof":
            s = r.choice([7, 8, 9])
            p = r.choice(list(rev[b]) * 3 + [r.choice(anyp)])
            ops.append({"op": "proof", "x": b, "p": p, "s": s})
            if p in rev[b]:
                proofs[s] = (p, orig[b])
                ops.append({"op": "convolve", "x": s, "p": p, "m": anymsg(p)})
        elif proofs and k in ("convolve", "with", "mpath"):
            s = r.choice(list(proofs))
            p, o = proofs[s]
            right = r.random() < 0.6
            m = ((msg1 if o == 0 else msg2).get(p) if right else None) or anymsg(p)
            pp = p if right or r.random() < 0.5 else r.choice(anyp)
            if k == "convolve":
                ops += [{"op": "convolve", "x": s, "p": pp, "m": m}, {"op": "proof_info", "x": s}]
            elif k == "with":
                ops.append({"op": "with", "x": s, "p": pp, "m": m, "s": b})
                # what b holds now is only known if the proof was right: resynchronise
                if right:
                    rev[b], orig[b] = {p}, o
                    ops += info(b)
                else:
                    ops.append({"op": "copy", "x": 2, "s": b})
                    rev[b], orig[b] = set(rev[2]), 0
            else:
                ops.append({"op": "merge_path", "x": b, "y": s, "p": pp, "m": m})
                if right and o == orig[b]:
                    rev[b] = rev[b] | {p}
                else:
                    ops.append({"op": "copy", "x": 2 if orig[b] == 0 else 3, "s": b})
                    rev[b] = set(rev[2 if orig[b] == 0 else 3])
                ops += info(b)
        elif k == "known":
            ops.append({"op": "known", "x": b})
        elif k == "kproofs":
            ops.append({"op": "known_proofs", "x": b})
        elif k == "info":
            ops += info(b)
        elif k == "matches":
            if proofs and r.random() < 0.5:
                ops.append({"op": "matches", "x": r.choice(list(proofs)), "y": r.choice(list(proofs))})
            else:
                ops.append({"op": "matches", "x": b, "y": r.choice([2, 3, 4, 5, 6])})
        elif k == "copy":
            x = r.choice([2, 3])
            ops.append({"op": "copy", "x": x, "s": b})
            rev[b], orig[b] = set(rev[x]), orig[x]
        elif k == "reset" and r.random() < 0.3:
            ops.append({"op": "copy", "x": 2, "s": b})
            rev[b], orig[b] = set(rev[2]), orig[2]
        elif k == "verify":
            t = r.choice([0, 1])
            src = r.choice([(ms, d, e), (ms2, d2, e2), (ms2, d2, e)])
            ops.append({"op": "verify_tree", "x": t, "ms": src[0], "d": src[1], "fe": src[2]})
    return ops


def crafted_pids(r, n, d, c, tries=60):
    """Protocol ids placed without collision by depth d and cofactor c, most likely not by less."""
    w = max(1, (1 << d) - c)
    n = min(n, w)
    for _ in range(tries):
        res = r.sample(range(w), n)
        out = [x + w * r.randrange(((1 << 256) - 1 - x) // w) for x in res]
        if all(len({p % max(1, (1 << d) - k) for p in out}) < n for k in range(c)):
            break
    return [pid_of(x) for x in out]


def crowd(r, n, d=None):
    """A dense tree of more messages than a byte counts through every operation."""
    d = d or (n - 1).bit_length()
    base = r.randrange(1 << 200)
    ms = [[pid_of((base << d) * r.choice([0, 1, 3]) + i), rand_msg(r)] for i in r.sample(range(1 << d), n)]
    ps = [x[0] for x in ms]
    msg = dict(map(tuple, ms))
    many, few = r.sample(ps, n - 3), r.sample(ps, 3)
    p, q = r.choice(ps), few[0]
    ops = [commit(0, ms, d, rand_entropy(r)), {"op": "tree_root", "x": 0}, {"op": "block", "x": 0, "s": 2},
           {"op": "block_id", "x": 2}, {"op": "known", "x": 2}, {"op": "tree_info", "x": 0, "p": p},
           {"op": "proof", "x": 2, "p": p, "s": 7}, {"op": "convolve", "x": 7, "p": p, "m": msg[p]},
           {"op": "copy", "x": 2, "s": 3}, {"op": "except", "x": 3, "ps": many}, {"op": "block_id", "x": 3}, {"op": "known", "x": 3},
           {"op": "copy", "x": 2, "s": 4}, {"op": "except", "x": 4, "ps": few}, {"op": "block_id", "x": 4}, {"op": "known", "x": 4},
           {"op": "copy", "x": 4, "s": 5}, {"op": "merge", "x": 5, "y": 3}, {"op": "block_id", "x": 5}, {"op": "known", "x": 5},
           {"op": "merge", "x": 3, "y": 4}, {"op": "matches", "x": 3, "y": 5}, {"op": "known_proofs", "x": 4},
           {"op": "copy", "x": 4, "s": 6}, {"op": "other", "x": 6, "p": q}, {"op": "merge_path", "x": 6, "y": 7, "p": p, "m": msg[p]},
           {"op": "proof", "x": 3, "p": q, "s": 8}, {"op": "convolve", "x": 8, "p": q, "m": msg[q]},
           {"op": "except", "x": 5, "ps": ps + few}, {"op": "except", "x": 5, "ps": many + [pid_of(1 << 255)]},
           {"op": "except", "x": 5, "ps": []}, {"op": "block_id", "x": 5},
           {"op": "copy", "x": 2, "s": 9}, {"op": "except", "x": 9, "ps": ps}, {"op": "block_id", "x": 9}]
    if n <= 300:
        ops += [{"op": "known_proofs", "x": 2}, {"op": "tree_proofs", "x": 0}]
    return ops


# ---- sparse trees of any depth: what one learns of a deep tree from its proofs ----
def sha(*xs):
    return hashlib.sha256(b"".join(xs)).digest()


def tagged(tag, data):
    t = sha(tag.encode())
    return sha(t, t, data)


def merkle(data):
    return tagged("urn:ubideco:merkle:node#2024-01-31", data)


class Sparse:
    """A tree of depth d whose leaves ms are known and whose other subtrees are known by their hash,
    some of them opened for a level or two."""

    def __init__(s, r, d, c, ms):
        s.r, s.d, s.c, s.ms = r, d, c, ms
        s.at = {pos(p, c, d): (p, m) for p, m in ms}
        assert len(s.at) == len(ms)
        s.root = s.build(0, 0, 2)

    def build(s, k, lo, opened):
        size = 1 << (s.d - k)
        inside = any(lo <= q < lo + size for q in s.at)
        if k == s.d and inside:
            p, m = s.at[lo]
            return {"k": 1, "h": merkle(bytes.fromhex("10" + p + m)), "p": p, "m": m, "d": k, "ps": {p}}
        if k == s.d or not inside and (not opened or s.r.random() < 0.8):
            return {"k": 0, "h": s.r.randbytes(32), "d": k, "ps": set()}
        a = s.build(k + 1, lo, opened - (not inside))
        b = s.build(k + 1, lo + size // 2, opened - (not inside))
        h = merkle(bytes([2, k]) + (1 << s.d).to_bytes(32, "little") + a["h"] + b["h"])
        return {"k": 2, "h": h, "d": k, "ps": a["ps"] | b["ps"], "a": a, "b": b}

    def cut(s, t, ps, fold):
        if t["k"] == 2 and (t["ps"] & ps or s.r.random() > fold):
            return s.cut(t["a"], ps, fold) + s.cut(t["b"], ps, fold)
        if t["k"] == 1 and t["p"] in ps:
            return [bytes.fromhex("01" + t["p"] + t["m"])]
        return [bytes([0, t["d"]]) + t["h"]]

    def block(s, ps, fold=1.0, ent=""):
        n = s.cut(s.root, set(ps), fold)
        return (bytes([0, s.d]) + s.c.to_bytes(2, "little") + len(n).to_bytes(4, "little") + b"".join(n)).hex() \
            + ("01" + ent if ent else "00")

    def proof(s, p):
        t, path = s.root, []
        while t["k"] == 2:
            t, o = (t["a"], t["b"]) if p in t["a"]["ps"] else (t["b"], t["a"])
            path.append(o["h"])
        assert t["k"] == 1
        return ("00" + le(pos(p, s.c, s.d), 4) + le(s.c, 2) + le(s.d, 1)) + b"".join(path).hex()


def deep_pids(r, n, d, c):
    """Protocols next to each other and to the ends, the middle and the byte borders of the width."""
    w = (1 << d) - c
    marks = [0, 1, w - 1, w - 2, w // 2, w // 2 - 1, 1 << (d - 1), (1 << d - 1) - 1] + \
            [x for k in (8, 16, 24) for x in ((1 << k) - 1, 1 << k, (1 << k) + 1, w - (1 << k))]
    res = set()
    while len(res) < n:
        x = r.choice([r.choice(marks), r.randrange(w), r.randrange(w)])
        if r.random() < 0.3 and res:
            x = r.choice(list(res)) ^ r.choice([1, 2, 3, 1 << r.randrange(d)])
        if 0 <= x < w:
            res.add(x)
    top = (1 << 256) - 1
    res = list(res)
    r.shuffle(res)
    return [pid_of(x + w * r.choice([0, r.randrange((top - x) // w), (top - x) // w])) for x in res]


def sparse(r, d=None, n=None):
    d = d or r.choice([10, 13, 15, 16, 17, 20, 24, 25, 30, 31, 31, r.randrange(4, 32)])
    c = r.choice([0, 0, 1, 2, 255, 256, 499, 500, r.randrange(501)]) if d > 9 else r.choice([0, 1, (1 << d) // 2 - 1])
    n = n or r.choice([1, 2, 2, 3, 3, 4, 6])
    return Sparse(r, d, c, [[p, rand_msg(r)] for p in deep_pids(r, n, d, c)])


def deep_history(r, steps=10):
    """Blocks and proofs of a deep tree through merging, concealing, proving and verifying."""
    t = sparse(r)
    ps = [x[0] for x in t.ms]
    msg = dict(map(tuple, t.ms))
    w = (1 << t.d) - t.c
    ent = r.choice(["", rand_entropy(r)])

    def shift(p):
        """another protocol at the same position or one next to it"""
        v = int.from_bytes(bytes.fromhex(p), "little")
        return pid_of(r.choice([v + w, v + 1, v - 1, v ^ 1 << r.randrange(256), v + (1 << t.d)]))

    def sub():
        return [p for p in ps if r.random() < 0.5]

    def load(b, rev=None):
        return {"op": "load", "k": "block", "s": b,
                "h": t.block(sub() if rev is None else rev, r.choice([1, 1, 0.5, 0]), r.choice(["", ent]))}
    ops = [load(2, ps), load(4), load(5), {"op": "block_id", "x": 2}, {"op": "known", "x": 2},
           {"op": "known_proofs", "x": 2}, {"op": "block_info", "x": 2, "p": r.choice(ps)}]
    for s, p in zip((7, 8, 9), ps):
        ops += [{"op": "load", "k": "proof", "s": s, "h": t.proof(p)}, {"op": "proof_info", "x": s},
                {"op": "convolve", "x": s, "p": p, "m": msg[p]}]
    k = min(3, len(ps))
    for _ in range(steps):
        b = r.choice([4, 5, 6])
        s = r.randrange(k)
        p = ps[s]
        o = r.choice(["merge", "merge", "merge", "except", "except", "other", "proof", "with", "mpath", "mpath",
                      "wrong", "matches", "load", "known"])
        if o == "merge":
            ops += [load(b), {"op": "merge", "x": b, "y": r.choice([2, 4, 5])}, {"op": "block_id", "x": b}, {"op": "known", "x": b}]
        elif o == "except":
            q = sub()
            r.shuffle(q)
            ops += [load(b, r.choice([ps, q])), {"op": "except", "x": b, "ps": q + ([shift(p)] if r.random() < 0.2 else [])},
                    {"op": "block_id", "x": b}, {"op": "block_info", "x": b, "p": p}]
        elif o == "other":
            ops += [load(b, r.choice([ps, [p]])), {"op": "other", "x": b, "p": r.choice([p, p, shift(p)])}, {"op": "block_id", "x": b}]
        elif o == "proof":
            ops += [load(b, r.choice([ps, sub()])), {"op": "proof", "x": b, "p": r.choice([p, p, shift(p)]), "s": 0},
                    {"op": "known_proofs", "x": b}]
        elif o == "with":
            ops += [{"op": "with", "x": 7 + s, "p": p, "m": msg[p], "s": b}, {"op": "block_id", "x": b},
                    {"op": "merge", "x": b, "y": r.choice([2, 4, 5])}, {"op": "known_proofs", "x": b},
                    {"op": "with", "x": 7 + s, "p": shift(p), "m": msg[p], "s": 1},
                    {"op": "except", "x": b, "ps": [p]}, {"op": "block_id", "x": b}]
        elif o == "mpath":
            ops += [load(b, r.choice([[], sub(), ps])), {"op": "merge_path", "x": b, "y": 7 + s, "p": p, "m": msg[p]},
                    {"op": "block_id", "x": b}, {"op": "known", "x": b}]
        elif o == "wrong":
            q = shift(p)
            ops += [{"op": "convolve", "x": 7 + s, "p": q, "m": msg[p]}, {"op": "convolve", "x": 7 + s, "p": p, "m": flip(r, msg[p])},
                    load(b), {"op": "merge_path", "x": b, "y": 7 + s, "p": q, "m": msg[p]}, load(b),
                    {"op": "merge_path", "x": b, "y": 7 + s, "p": p, "m": flip(r, msg[p])}, {"op": "block_id", "x": b}]
            h = t.block(ps)
            n = int.from_bytes(bytes.fromhex(h[8:16]), "little")
            i = r.randrange(len(h) - 2 - 32, len(h) - 2) if n else 20
            ops += [{"op": "load", "k": "block", "s": b, "h": h[:i] + format(int(h[i], 16) ^ 1 << r.randrange(4), "x") + h[i + 1:]},
                    {"op": "merge", "x": b, "y": 2}]
        elif o == "matches":
            ops += [load(b), {"op": "matches", "x": b, "y": r.choice([2, 4, 5])}]
        elif o == "load":
            ops += [load(b), {"op": "block_id", "x": b}, {"op": "block_info", "x": b, "p": p}]
        else:
            ops += [{"op": "known", "x": 4}, {"op": "known_proofs", "x": 4}, {"op": "known", "x": 5}]
    return ops
