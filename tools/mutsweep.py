#!/usr/bin/env python3
"""mutsweep.py dump | clean | run K N | list | report: development aid, not a check.

Mutates /repo's sources line by line in scratch copies and compares what the driver observes on the stimuli of
all the checks with what it observes on the unchanged tree (which the checks validate against the
specification). A mutant no stimulus tells apart is printed for review: it is equivalent, or a gap."""
import sys, os, re, json, glob, shutil, subprocess, random, time
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
W = "/tmp/mut"
STIM = W + "/stim"
BASE = W + "/base"          # git archive HEAD of /repo
ENV = vlib.cargo_env()
FILES = ["commit_verify/src/" + f for f in ("commit.rs", "conceal.rs", "convolve.rs", "digest.rs", "embed.rs", "id.rs", "lib.rs",
         "merkle.rs", "vesper.rs", "mpc/atoms.rs", "mpc/block.rs", "mpc/tree.rs")] + ["single_use_seals/src/lib.rs", "src/api.rs"]


def dump():
    import props
    shutil.rmtree(STIM, ignore_errors=True)
    os.makedirs(STIM)

    def conform(self, traces, module, world, what="", builds=("dev", "rel"), **kw):
        n = sum(f.startswith(self.prop + "-") for f in os.listdir(STIM))
        b = "derive" if "derive_driver" in self.bins.get("dev", "") else "csv"
        pf = ""
        if os.environ.get("POOLS"):
            pf = f"{STIM}/{os.path.basename(os.environ['POOLS'])}.pool"
            if not os.path.exists(pf):
                shutil.copy(os.environ["POOLS"], pf)
        with open(f"{STIM}/{self.prop}-{n:02}-{b}.script", "w") as f:
            for t in traces:
                f.write(json.dumps({"id": t["id"], "w": world, "ops": t["ops"], "pools": pf, "full": bool(t.get("full"))}) + "\n")
        return False
    vlib.Check.conform = conform
    vlib.Check.model = lambda *a, **k: None
    for i in range(1, 25):
        p = f"C{i:02}"
        c = vlib.Check(p)
        try:
            getattr(props, p)(c)
        except vlib.ToolError as e:
            print(p, "tool error", e)
        print(p, flush=True)


def scripts():
    def cost(f):
        t = f[:-7] + ".time"
        return float(open(t).read()) if os.path.exists(t) else 0
    return sorted(glob.glob(STIM + "/*.script"), key=cost)


def observe(binary, script, tag, limit):
    """Runs one script file; returns {(t, i): obs}."""
    env = ""
    with open(script) as f:
        for l in f:
            env = json.loads(l)["pools"]
            break
    if env:
        os.environ["POOLS"] = env
    r = vlib.run_driver(binary, script, tag, timeout=300, op_limit_ms=limit, shards=2)
    return {k: v[0] for k, v in r.items()}


def clean():
    shutil.rmtree(BASE, ignore_errors=True)
    os.makedirs(BASE)
    subprocess.run(f"git -C /repo archive HEAD | tar -x -C {BASE}", shell=True, check=True)
    b = {k: vlib.build(bin=k + "_driver")["dev"] for k in ("csv", "derive")}
    tot = 0
    for s in scripts():
        t0 = time.time()
        k = "derive" if s.endswith("-derive.script") else "csv"
        a = observe(b[k], s, "mutc", 60000)
        dt = time.time() - t0
        z = observe(b[k], s, "mutc", 60000)
        json.dump([[t, i, o] for (t, i), o in a.items() if z[(t, i)] == o], open(s[:-7] + ".clean", "w"))
        open(s[:-7] + ".time", "w").write(str(dt))
        tot += dt
        print(os.path.basename(s), len(a), sum(z[q] != a[q] for q in a), f"{dt:.1f}s", flush=True)
    print("total", tot)


RULES = [(r"==", "!="), (r"!=", "=="), (r" <= ", " < "), (r" >= ", " > "), (r" < ", " <= "), (r" > ", " >= "),
         (r" < ", " > "), (r" > ", " < "),
         (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "), (r" / ", " * "), (r" % ", " / "), (r" \+= ", " -= "), (r" -= ", " += "),
         (r" && ", " || "), (r" \|\| ", " && "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\bif (?!let)(.*) \{$", r"if !(\1) {"),
         (r"\bif (?!let)(.*) \{$", r"if false && (\1) {"), (r"\bif (?!let)(.*) \{$", r"if true || (\1) {"),
         (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\b1\b", "2"), (r"\b2\b", "1"), (r"\b2\b", "3"), (r"\b32\b", "31"),
         (r"\.max\(", ".min("), (r"\.min\(", ".max("), (r"\.rev\(\)", ""), (r"\.next\(\)", ".next_back()"), (r"\.any\(", ".all("), (r"\.all\(", ".any("),
         (r"\.is_some\(\)", ".is_none()"), (r"\.is_none\(\)", ".is_some()"), (r"\.is_empty\(\)", ".len() == 1"), (r"!(\w)", r"\1"),
         (r"\.extend\(", ".clone_from(&"), (r"\bMIN\b", "MAX"), (r"\bMAX\b", "MIN"), (r"_le_", "_be_"),
         (r"\bSome\((\w+)\)", "None"), (r"break;", "continue;"), (r"continue;", "break;"), (r"\bdepth\b", "0u8.into()"),
         (r"saturating_sub\((.*?)\)", r"saturating_add(\1)"), (r"u16", "u8"), (r"u32", "u16"), (r"u64", "u32"),
         (r"\.take\((\w+)\)", r".take(\1 + 1)"), (r"\.skip\((\w+)\)", r".skip(\1 + 1)"), (r"\.\.=", ".."), (r"pow\(", "wrapping_mul("),
         (r"Ok\(\(\)\)", "Ok::<(), ()>(())"), (r"\bLeft\b", "Right"), (r"\bNone\b", "Some(Default::default())")]


def mutants():
    out = []
    for f in FILES:
        src = open(BASE + "/" + f).read().split("\n")
        end = next((i for i, l in enumerate(src) if l.startswith("#[cfg(test)]")), len(src))
        depth_attr = 0
        for i, l in enumerate(src[:end]):
            s = l.strip()
            if depth_attr:
                depth_attr += s.count("[") - s.count("]")
                continue
            if s.startswith("#"):
                depth_attr = s.count("[") - s.count("]")
                continue
            if not s or s.startswith(("//", "use ", "pub use", "extern", "mod ", "pub mod", "///", "*")):
                continue
            code = l.split("//")[0]
            seen = set()
            for a, b in RULES:
                for m in re.finditer(a, code):
                    n = code[:m.start()] + m.expand(b) + code[m.end():]
                    if n != code and n not in seen:
                        seen.add(n)
                        out.append((f, i, l, n))
            if re.match(r"^(self|dir|rev|status|cross_section|buoy|engine|.*\.)\S.*;$", s) and s.count("(") == s.count(")") and not s.startswith("let") \
                    or re.match(r"^\w+ [-+]?= .*;$", s) or s.endswith("?;") and s.count("(") == s.count(")") and not s.startswith(("let", ".", "return")):
                out.append((f, i, l, "// deleted"))
            if s.endswith("?;") or "?" in s and not s.startswith("return"):
                n = code.replace("?;", ".ok();", 1)
                if n != code:
                    out.append((f, i, l, n))
    return out


def setup(k):
    r, h = f"{W}/r{k}", f"{W}/h{k}"
    if not os.path.isdir(r):
        subprocess.run(["cp", "-a", "/repo", r], check=True)
        shutil.rmtree(r + "/target", ignore_errors=True)
    subprocess.run(["git", "checkout", "-q", "--", "."], cwd=r, check=True)
    if not os.path.isdir(h):
        subprocess.run(["cp", "-a", vlib.HARNESS, h], check=True)
        shutil.rmtree(h + "/target/release", ignore_errors=True)
        t = open(h + "/Cargo.toml").read().replace('"/repo', f'"{r}')
        open(h + "/Cargo.toml", "w").write(t)
    return r, h


def build(h, bins):
    p = subprocess.run(["timeout", "300", "cargo", "build", "--offline", "-j", "4", "--features", "full", "--target-dir", h + "/target"] +
                       [x for b in bins for x in ("--bin", b)], cwd=h, env=ENV, capture_output=True, text=True)
    return p.returncode == 0, p.stderr


def one(k, m, cleans):
    r, h = f"{W}/r{k}", f"{W}/h{k}"
    f, i, old, new = m
    p = f"{r}/{f}"
    src = open(BASE + "/" + f).read().split("\n")
    src[i] = new
    open(p, "w").write("\n".join(src))
    try:
        ok, err = build(h, ["csv_driver", "derive_driver"])
        if not ok:
            return "nobuild"
        for s in scripts():
            b = f"{h}/target/debug/" + ("derive_driver" if s.endswith("-derive.script") else "csv_driver")
            tmp = f"{W}/s{k}.script"
            shutil.copy(s, tmp)
            try:
                got = observe(b, tmp, f"mut{k}", 20000)
            except vlib.ToolError as e:
                return f"KILLED {os.path.basename(s)} tool {str(e)[:60]}"
            for (t, j), o in cleans[s].items():
                if got.get((t, j)) != o:
                    return f"KILLED {os.path.basename(s)}"
        return "SURVIVED"
    finally:
        open(p, "w").write(open(BASE + "/" + f).read())


def run(k, n):
    """Worker k of n (processes, as the pools are named in the environment)."""
    cleans = {s: {(t, i): o for t, i, o in json.load(open(s[:-7] + ".clean"))} for s in scripts()}
    done = {tuple(json.loads(l)["m"]) for g in glob.glob(W + "/log.*") for l in open(g)}
    ms = mutants()
    random.Random(1).shuffle(ms)
    setup(k)
    for m in ms[k::n]:
        if m in done:
            continue
        t0 = time.time()
        try:
            r = one(k, m, cleans)
        except Exception as e:
            r = f"exc {e!r}"
        with open(f"{W}/log.{k}", "a") as f:
            f.write(json.dumps({"m": m, "r": r}) + "\n")
        if r == "SURVIVED" or r.startswith("exc"):
            print(f"{r} {m[0]}:{m[1]+1} {time.time()-t0:.0f}s\n  - {m[2].strip()}\n  + {m[3].strip()}", flush=True)


c = sys.argv[1]
if c == "dump":
    dump()
elif c == "clean":
    clean()
elif c == "list":
    print(len(mutants()))
elif c == "run":
    run(int(sys.argv[2]), int(sys.argv[3]))
elif c == "report":
    from collections import Counter
    print(Counter(json.loads(l)["r"].split()[0] for g in glob.glob(W + "/log.*") for l in open(g)))
