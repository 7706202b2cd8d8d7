"""C23: the composed system. Histories are generated with a picture of what is honest, which is asserted
of the specification; the oracle for every observation is the specification."""
import itertools, json, os
import vlib
from vlib import QUICK, BUILD
from gen_mpc import le, pid_of, rand_pids, rand_msg, rand_entropy


class Sys:
    """Generates one history of the system."""

    def __init__(self, r, nprot=None, extra=3, dmax=5):
        self.r = r
        self.ps = rand_pids(r, nprot or r.choice([1, 2, 2, 3, 4]))
        self.ev = []
        self.nops = 0
        self.ntx = 0
        self.fresh = 100
        self.extra = extra
        self.dmax = dmax
        self.open = {p: {10 * i + k for k in (1, 2, 3)} for i, p in enumerate(self.ps)}
        self.genesis = {p: sorted(s) for p, s in self.open.items()}
        self.hist = {p: [] for p in self.ps}       # honest items: (op, tx, step, ins)
        self.steps = []                            # committed steps: tree contents
        self.op_p = []
        self.op_ins = []
        self.spent = set()
        self.txins = []
        self.txtree = []                           # what the transaction commits to

    def seal(self):
        self.fresh += 1
        return self.fresh

    def define(self, p, ins, outs):
        self.ev.append({"op": "y_op", "p": p, "n": self.r.randrange(1 << 32), "ins": ins, "outs": outs})
        self.op_p.append(p)
        self.op_ins.append(ins)
        self.nops += 1
        return self.nops - 1

    def commit(self, slot, ops):
        r = self.r
        extra = []
        for p in rand_pids(r, r.randrange(self.extra + 1), r.choice(["rand", "small"])):
            if p not in self.ps:
                extra.append([p, rand_msg(r)])
        d = r.choice([0, 1, 3, r.randrange(self.dmax)])
        if not ops and not extra and d == 0:
            d = 1
        self.ev.append({"op": "y_tree", "s": slot, "ops": ops, "extra": extra, "d": d, "e": rand_entropy(r)})
        return [self.op_p[k] for k in ops], [x[0] for x in extra]

    def publish(self, slot, ins, tree):
        self.ev.append({"op": "y_pub", "ins": ins, "t": slot})
        ok = bool(ins) and not set(ins) & self.spent
        if ok:
            self.spent |= set(ins)
        self.txins.append(ins)
        self.txtree.append(tree)
        self.ntx += 1
        return self.ntx - 1, ok

    def step(self, slot):
        """Honest issuers of some of the protocols commit together and publish."""
        r = self.r
        ops = []
        for p in r.sample(self.ps, r.randrange(1, len(self.ps) + 1)):
            av = sorted(self.open[p] - self.spent)
            if not av:
                continue
            ins = r.sample(av, min(len(av), r.choice([1, 1, 2, 3])))
            outs = [self.seal() for _ in range(r.choice([0, 1, 1, 2]))]
            k = self.define(p, ins, outs)
            self.open[p] = (self.open[p] - set(ins)) | set(outs)
            ops.append((k, p, ins))
        if not ops:
            return None
        ps, ex = self.commit(slot, [k for k, _, _ in ops])
        ins = [i for _, _, x in ops for i in x] + ([self.seal()] if r.random() < 0.3 else [])
        r.shuffle(ins)
        tx, ok = self.publish(slot, ins, (ps, ex))
        assert ok
        for k, p, x in ops:
            self.hist[p].append((k, tx, len(self.steps), x))
        self.steps.append((slot, ps, ex, [k for k, _, _ in ops], tx))
        return self.steps[-1]

    def anchor(self, w, step, keep):
        """An anchor of the step which is good for the protocols `keep`, made on some way."""
        r = self.r
        slot, ps, ex = step[0], step[1], step[2]
        allp = ps + ex
        how = r.choice(["proof", "block", "conceal", "conceal", "merge", "merge2"]) if len(keep) == 1 else \
            r.choice(["block", "conceal", "merge", "merge2"])
        sup = keep + [p for p in allp if p not in keep and r.random() < 0.5]
        r.shuffle(sup)
        e = self.ev
        if how == "proof":
            e.append({"op": "y_anchor", "s": w, "t": slot, "k": "proof", "p": keep[0], "ps": []})
        elif how == "block":
            e.append({"op": "y_anchor", "s": w, "t": slot, "k": "block", "p": "", "ps": sup})
        elif how == "conceal":
            e.append({"op": "y_anchor", "s": w, "t": slot, "k": "block", "p": "", "ps": allp})
            e.append({"op": "y_conceal", "x": w, "ps": sup})
            if r.random() < 0.5:
                e.append({"op": "y_conceal", "x": w, "ps": keep + [p for p in sup if p not in keep and r.random() < 0.5]})
        else:
            x = [p for p in sup if r.random() < 0.5]
            y = [p for p in sup if p not in x] + [p for p in x if r.random() < 0.2]
            z = [p for p in sup if r.random() < 0.3]
            e.append({"op": "y_anchor", "s": w, "t": slot, "k": "block", "p": "", "ps": x})
            e.append({"op": "y_anchor", "s": 9, "t": slot, "k": "block", "p": "", "ps": y})
            if how == "merge2":
                e.append({"op": "y_anchor", "s": 8, "t": slot, "k": "block", "p": "", "ps": z})
                e.append({"op": "y_merge", "x": 9, "y": 8} if r.random() < 0.5 else {"op": "y_merge", "x": w, "y": 8})
            e.append({"op": "y_merge", "x": w, "y": 9})
            if r.random() < 0.3:
                e.append({"op": "y_merge", "x": w, "y": w})
            if r.random() < 0.3:
                e.append({"op": "y_conceal", "x": w, "ps": keep})

    def validate(self, p, items, **kw):
        self.ev.append(dict({"op": "y_validate", "p": p, "genesis": self.genesis[p], "items": items}, **kw))

    def rand_verify(self, k=None):
        r = self.r
        k = r.randrange(self.nops) if k is None else k
        tx = r.randrange(self.ntx)
        seals = r.choice([self.op_ins[k], self.op_ins[k][:1], self.txins[tx], [], [r.randrange(1, self.fresh + 1)],
                          self.op_ins[k] + [r.randrange(1, self.fresh + 1)]])
        self.ev.append({"op": "y_verify", "tx": tx, "x": r.randrange(10), "seals": list(seals), "k": k,
                        "p": r.choice(["", "", "", r.choice(self.ps)])})


def honest(r, nsteps):
    """Steps, anchors transferred in pieces, complete histories validated by everyone."""
    y = Sys(r)
    anchors = {}
    for s in range(nsteps):
        st = y.step(r.randrange(4))
        if st is None:
            continue
        w = len(y.steps) - 1
        if w < 8:
            y.anchor(w, st, list(st[1]))
            anchors[w] = w
            for k in st[3]:
                y.ev.append({"op": "y_verify", "tx": st[4], "x": w, "seals": y.op_ins[k], "k": k, "p": "", "honest": True})
        for p in y.ps:
            items = y.hist[p]
            if items and all(i[2] in anchors for i in items):
                y.validate(p, [[k, tx, anchors[n]] for k, tx, n, _ in items], honest=True)
    return y


def adversarial(r, nsteps):
    y = honest(r, nsteps)
    full = {p: [[k, tx, n] for k, tx, n, _ in y.hist[p] if n < 8] for p in y.ps}
    for _ in range(r.randrange(2, 6)):
        p = r.choice(y.ps)
        h = [list(x) for x in full[p]]
        k = r.choice(["conflict", "swap", "drop", "foreign", "anchor", "again", "unpub", "tx", "genesis", "empty", "narrow"])
        if k == "conflict":
            # another operation spending something spent already, committed and published (or not)
            old = r.choice([x for x in y.hist[p]] or [None])
            if old is None:
                continue
            o2 = y.define(p, list(old[3]), [y.seal()])
            ps, ex = y.commit(3, [o2])
            ins = r.choice([list(old[3]), [y.seal()], [], list(old[3]) + [y.seal()], [r.choice(old[3]), y.seal()]])
            tx, _ = y.publish(3, ins, (ps, ex))
            y.ev.append({"op": "y_anchor", "s": 9, "t": 3, "k": r.choice(["proof", "block"]), "p": p, "ps": [p]})
            y.ev.append({"op": "y_verify", "tx": tx, "x": 9, "seals": list(old[3]), "k": o2, "p": ""})
            g = [([o2, tx, 9] if x[0] == old[0] else x) for x in h]
            y.validate(p, g, attack=old[0] in [x[0] for x in h])
            y.validate(p, [([o2, x[1], x[2]] if x[0] == old[0] else x) for x in h], attack=old[0] in [x[0] for x in h])
            y.validate(p, [([o2, x[1], 9] if x[0] == old[0] else x) for x in h], attack=old[0] in [x[0] for x in h])
            y.validate(p, h + [[o2, tx, 9]], attack=True)
        elif k == "swap" and len(h) > 1:
            i, j = r.sample(range(len(h)), 2)
            h[i], h[j] = h[j], h[i]
            y.validate(p, h)
        elif k == "drop" and h:
            del h[r.randrange(len(h))]
            y.validate(p, h)
        elif k == "again" and h:
            h.insert(r.randrange(len(h) + 1), list(r.choice(h)))
            y.validate(p, h, attack=True)
        elif k == "foreign":
            q = r.choice(y.ps)
            y.validate(p, h + full[q], attack=p != q and bool(full[q]))
            y.validate(p, full[q])
        elif k == "anchor" and len(h) > 1:
            i, j = r.sample(range(len(h)), 2)
            h[i][2], h[j][2] = h[j][2], h[i][2]
            y.validate(p, h)          # proofs at depth zero are interchangeable
        elif k == "tx" and len(h) > 1:
            i, j = r.sample(range(len(h)), 2)
            h[i][1], h[j][1] = h[j][1], h[i][1]
            y.validate(p, h, attack=h[i][1] != h[j][1])
        elif k == "unpub" and h:
            # the same commitment in a transaction the medium rejects
            x = r.choice(h)
            st = y.steps[x[2]]
            tx, ok = y.publish(st[0], list(y.txins[x[1]]), None)
            i = h.index(x)
            h[i] = [x[0], tx, x[2]]
            y.validate(p, h, attack=not ok)
        elif k == "genesis" and h:
            g = [s for s in y.genesis[p]]
            g.remove(r.choice(g))
            y.ev.append({"op": "y_validate", "p": p, "genesis": g, "items": h})
            y.ev.append({"op": "y_validate", "p": r.choice(y.ps), "genesis": y.genesis[p] + [y.seal()], "items": h})
        elif k == "narrow":
            for x in h:
                if r.random() < 0.7:
                    y.ev.append({"op": "y_conceal", "x": x[2], "ps": [p]})
            for q in y.ps:
                y.validate(q, full[q])
        elif k == "empty":
            y.validate(p, [], honest=True)
            o = y.define(p, [], [y.seal()])
            y.validate(p, h + [[o, r.randrange(y.ntx), r.randrange(10)]])
    for _ in range(20):
        y.rand_verify()
    return y


def small_world(r):
    """One protocol, two conflicting operations and an unrelated one; every answer there is."""
    y = Sys(r, nprot=2, extra=2)
    a, b = y.ps
    ops = [y.define(a, [1], [50]), y.define(a, [1], [51]), y.define(b, [11], []), y.define(a, [1, 2], [])]
    sets = [[ops[0], ops[2]], [ops[1]], [ops[3], ops[2]], []]
    for t, s in enumerate(sets):
        y.commit(t, s)
    for t, ins in ((0, [1, 11]), (1, [1]), (1, [2, 11]), (2, [1, 2]), (3, [2]), (0, [])):
        y.publish(t, ins, None)
    for w, (t, k, p) in enumerate(((0, "proof", a), (0, "block", a), (0, "block", b), (0, "block", ""), (1, "proof", a),
                                   (2, "block", a), (2, "proof", b), (1, "block", ""))):
        y.ev.append({"op": "y_anchor", "s": w, "t": t, "k": k, "p": p, "ps": [p] if p else []})
    y.ev += [{"op": "y_anchor", "s": 8, "t": 0, "k": "block", "p": "", "ps": []}, {"op": "y_merge", "x": 8, "y": 1},
             {"op": "y_merge", "x": 8, "y": 2}, {"op": "y_merge", "x": 8, "y": 5}, {"op": "y_merge", "x": 0, "y": 1},
             {"op": "y_merge", "x": 0, "y": 0}, {"op": "y_merge", "x": 0, "y": 4}]
    for tx in range(6):
        for x in range(10):
            for k in ops:
                for seals in ([1], [1, 2], [11, 1], []) if not QUICK else (r.choice(([1], [1, 2], [11, 1], [], [2, 1])),):
                    y.ev.append({"op": "y_verify", "tx": tx, "x": x, "seals": seals, "k": k, "p": r.choice(["", "", a, b])})
    for k in ops:
        for tx in range(6):
            for x in range(9):
                if not QUICK or r.random() < 0.4:
                    y.validate(a, [[k, tx, x]])
    return y


def tamper(r, h):
    """The bytes of an anchor with one detail altered which keeps it well-formed."""
    b = bytearray(bytes.fromhex(h))
    if b[0] == 0:                       # proof: method, pos, cofactor, length, hashes
        k = r.choice(["pos", "cof", "hash", "cut", "swap"]) if b[8] else r.choice(["pos", "cof"])
        if k == "pos":
            b[2 + r.randrange(r.choice([1, 4]))] ^= 1 << r.randrange(8)
        elif k == "cof":
            b[6] ^= 1 << r.randrange(8)
        elif k == "hash":
            b[9 + r.randrange(len(b) - 9)] ^= 1 << r.randrange(8)
        elif k == "cut":
            b[8] -= 1
            b = b[:9] + (b[41:] if r.random() < 0.5 else b[9:-32])
        elif k == "swap" and b[8] > 1:
            i = r.randrange(b[8] - 1)
            o = 9 + 32 * i
            b[o:o + 32], b[o + 32:o + 64] = b[o + 32:o + 64], b[o:o + 32]
        return b.hex()
    # block: method, depth, cofactor, count, nodes, entropy
    n = int.from_bytes(b[5:9], "little")
    o = 9
    spots = [(3, 5)]
    for _ in range(n):
        if b[o] == 1:
            spots.append((o + 33, o + 65))
            o += 65
        else:
            spots.append((o + 2, o + 34))
            o += 34
    lo, hi = r.choice(spots + [(3, 4)])
    b[r.randrange(lo, hi)] ^= 1 << r.randrange(8)
    return b.hex()


def with_tampering(c, ys):
    """What the honest anchors look like is asked from the code, then they are altered."""
    r = c.rng
    rd = os.path.join(BUILD, "run")
    os.makedirs(rd, exist_ok=True)
    script = os.path.join(rd, f"{c.prop}-anchors-{os.getpid()}.script")
    with open(script, "w") as f:
        for i, y in enumerate(ys):
            f.write(json.dumps({"id": f"t{i}", "w": "system", "ops": y.ev}) + "\n")
    res = vlib.run_driver(c.bins["dev"], script, f"{c.prop}-anchors")
    os.remove(script)
    tr = []
    for i, y in enumerate(ys):
        seen = []
        for j, e in enumerate(y.ev):
            if e["op"] in ("y_anchor", "y_conceal", "y_merge"):
                o = res[(i, j)][0]
                if len(o) == 2 and len(o[1]) > 18:
                    seen.append(o[1])
        ev = list(y.ev)
        y.ev = ev
        for _ in range(25):
            if not seen:
                break
            h = r.choice(seen)
            for _ in range(r.choice([1, 1, 1, 2])):
                try:
                    h = tamper(r, h)
                except (IndexError, ValueError):
                    pass
            w = r.randrange(10)
            ev.append({"op": "y_load", "s": w, "h": h})
            p = r.choice(y.ps)
            items = [x for x in y.hist[p]]
            for _ in range(2):
                k = r.randrange(y.nops)
                tx = r.randrange(y.ntx)
                ev.append({"op": "y_verify", "tx": tx, "x": w, "seals": y.op_ins[k], "k": k, "p": ""})
            for k, tx, n, ins in items:
                ev.append({"op": "y_verify", "tx": tx, "x": w, "seals": ins, "k": k, "p": ""})
            y.validate(p, [[k, tx, w] for k, tx, n, ins in items])
        ev += [{"op": "y_merge", "x": r.randrange(10), "y": r.randrange(10)} for _ in range(3)]
        tr.append({"id": f"tamper{i}", "ops": ev})
    return tr


def C23(c):
    c.build()
    c.model("MC_System", "MC_System_q" if QUICK else "MC_System",
            what="every publication over conflicting operations, every anchor an adversary can show: no double spend, honest closes, valid histories agree")
    c.model("MC_System", "MC_System_wits_q" if QUICK else "MC_System_wits",
            what="anchors concealed, merged and exchanged stay good for what they reveal, and for nothing else")
    if not QUICK:
        c.model("MC_System", "MC_System_3", what="three publications")
    r = c.rng
    tr = []
    q = 1 if QUICK else 12
    for i in range(60 * q):
        tr.append({"id": f"honest{i}", "ops": honest(r, r.choice([1, 2, 3, 5, 8])).ev})
    for i in range(90 * q):
        tr.append({"id": f"adv{i}", "ops": adversarial(r, r.choice([1, 2, 3, 5])).ev})
    for i in range(3 * q):
        tr.append({"id": f"small{i}", "ops": small_world(r).ev})
    tr += with_tampering(c, [honest(r, r.choice([1, 2, 3])) for _ in range(40 * q)])
    c.assumptions.append("the medium and the resolver are the harness's; operations, anchors, verification and validation are the library's")
    c.conform(tr, "TraceSystem", "system", "honest and adversarial histories of issuers, medium and verifiers")
