"""Running the command line tool in a scratch scene and recording everything it does there."""
import hashlib
import json
import os
import re
import shutil
import stat
import subprocess
import tempfile
import time

from common import *
import conform as cf

EXT = {"Solidity": ".sol", "Vyper": ".vy"}


def sha(data):
    return hashlib.sha256(data).hexdigest()[:20]


class Scene:
    """w: working directory of the tool, t: its temporary directory, s: stand-ins for compilers."""

    def __init__(self, work, cli):
        self.dir = tempfile.mkdtemp(prefix="r.", dir=work.dir)
        self.cli, self.stubexe = cli
        for d in "wts":
            os.mkdir(self.path(d))

    def path(self, *p):
        return os.path.join(self.dir, *p)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def put(self, rel, data):
        p = self.path(rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(data if isinstance(data, bytes) else data.encode())
        return p

    def stub(self, name, kind, **policy):
        """A compiler in s/; asts: pairs of source text and syntax tree text."""
        p = self.path("s", name)
        os.link(self.stubexe, p)
        ast = []
        for n, (src, tree) in enumerate(policy.pop("asts", [])):
            q = "%s.%d" % (p, n)
            for ext, text in ((".src", src), (".ast", tree)):
                with open(q + ext, "wb") as f:
                    f.write(text if isinstance(text, bytes) else text.encode())
            ast.append([q + ".src", q + ".ast"])
        with open(p + ".json", "w") as f:
            json.dump(dict(policy, kind=kind, name=name, asts=ast), f)
        return p

    def log(self, name):
        p = self.path("s", name + ".log")
        out = [json.loads(l) for l in open(p)] if os.path.exists(p) else []
        for e in out:
            if "seen" in e:
                with open(e["seen"], "rb") as f:
                    e["sha"] = sha(f.read())
        return out

    def clear_logs(self):
        for n in os.listdir(self.path("s")):
            if n.endswith(".log"):
                os.unlink(self.path("s", n))

    def snapshot(self):
        out = {}
        for top in ("w", "t"):
            for d, ds, fs in os.walk(self.path(top)):
                for x in ds:
                    p = os.path.join(d, x)
                    out[os.path.relpath(p, self.dir)] = "link:" + os.readlink(p) if os.path.islink(p) else "dir"
                for x in fs:
                    p = os.path.join(d, x)
                    if os.path.islink(p):
                        out[os.path.relpath(p, self.dir)] = "link:" + os.readlink(p)
                    elif stat.S_ISREG(os.lstat(p).st_mode):
                        with open(p, "rb") as f:
                            out[os.path.relpath(p, self.dir)] = sha(f.read())
                    else:
                        out[os.path.relpath(p, self.dir)] = "other"
        return out

    def run(self, args, cwd="w", timeout=120, path=True):
        e = env()
        e["TMPDIR"] = self.path("t")
        e["PATH"] = (self.path("s") + ":" if path else "") + "/usr/bin:/bin"
        e.pop("RUST_LOG", None)
        e["RUST_BACKTRACE"] = "0"
        try:
            p = subprocess.run([self.cli] + args, cwd=self.path(cwd), env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, timeout=timeout)
        except subprocess.TimeoutExpired:
            return {"args": args, "rc": -999, "out": "", "err": "no end within %d s" % timeout, "crash": True}
        err = p.stderr.decode("utf-8", "replace")
        return {"args": args, "rc": p.returncode, "out": p.stdout.decode("utf-8", "replace"), "err": err,
                "crash": p.returncode not in (0, 1, 2) or "panicked at" in err}


PATTERNS = [
    ("algs", re.compile(r"^Of the requested mutation algorithms, the AST contains nodes for (\[.*\])$")),
    ("total", re.compile(r"^AST supports at most (\d+) different mutations using the requested mutation algorithms$")),
    ("lower", re.compile(r"^Reached the limit of mutable nodes in the AST, lowering requested mutants by (\d+) to (\d+)$")),
    ("mutant", re.compile(r"^(\w+) used to create mutant written to (.*)$")),
    ("orig", re.compile(r'^Pretty-printing original file (".*") to (.*)$')),
    ("noorig", re.compile(r"^Unable to pretty-print original file: (.*)$")),
    ("config", re.compile(r"^Writing configuration file (.*)$")),
    ("noconfig", re.compile(r"^Unable to write configuration file: (.*)$")),
    ("error", re.compile(r"^Unable to generate mutations: (.*)$")),
    ("noprint", re.compile(r'^Unable to pretty-print (.*): (.*)$')),
    ("time", re.compile(r"^Elapsed time: .*s$")),
]


def events(out):
    """The report of a run as a list of [kind, fields...]; what is not part of the report is text."""
    ev = []
    for line in out.splitlines():
        for k, rx in PATTERNS:
            m = rx.match(line)
            if m:
                g = list(m.groups())
                if k == "algs":
                    g = [json.loads(g[0])]
                elif k in ("total", "lower"):
                    g = [int(x) for x in g]
                elif k == "time":
                    break
                ev.append([k] + g)
                break
        else:
            if ev and ev[-1][0] == "text":
                ev[-1][1] += line + "\n"
            else:
                ev.append(["text", line + "\n"])
    return ev


def segments(ev):
    """One segment per input file: what precedes the list of algorithms belongs to it."""
    segs, cur = [], []
    seen = False
    for e in ev:
        if e[0] in ("orig", "noorig", "config", "noconfig", "error") and seen:
            segs.append(cur)
            cur, seen = [], False
        if e[0] == "algs":
            if seen:
                segs.append(cur)
                cur = []
            seen = True
        cur.append(e)
    if cur:
        segs.append(cur)
    return segs


def tries(log):
    """Candidates given to the compiler in order, a second call for the same candidate joined to the first."""
    out = []
    for e in log:
        if e.get("task") != "compile":
            continue
        if e.get("retry") and out:
            out[-1]["ok"] = out[-1]["ok"] or e["ok"]
        else:
            out.append({"content": e.get("sha", ""), "ok": e["ok"]})
    return out


# ---------------------------------------------------------------------------------------------
def mutants_of(scene, seg, lang, cwd="w"):
    """The mutants a segment announces, as read back from the disk."""
    out = []
    for e in seg:
        if e[0] != "mutant":
            continue
        p = scene.path(cwd, e[2])
        try:
            with open(p, "rb") as f:
                data = f.read()
        except OSError:
            out.append({"alg": e[1], "path": e[2], "number": -1, "content": "missing", "toks": [], "plain": [], "comments": []})
            continue
        m = re.search(r"_(\d+)\.(sol|vy)$", e[2])
        o = cf.observe(data.decode("utf-8", "replace"), lang.mod)
        o.update(alg=e[1], path=e[2], number=int(m.group(1)) if m else -1, content=sha(data))
        out.append(o)
    return out


def run_case(tree, lang, setting, funcs, seg, scene, log=(), taken=()):
    """One input file of one run, in the form the Runs specification reads."""
    d = {e[0]: e for e in seg}
    ms = mutants_of(scene, seg, lang)
    algs = lang.algs + ["Require", "UncheckedBlock", "ElimDelegateCall"] if setting["all"] else setting["algs"]
    return {"tree": lang.mod.for_spec(tree), "funcs": funcs, "algs": algs, "num": setting["num"], "validate": setting["validate"],
            "taken": list(taken), "need": setting.get("need", 0), "every": setting.get("every", 1), "kind": "unsure" if setting.get("unsure") else "sure",
            "plan": d["algs"][1] if "algs" in d else [], "total": d["total"][1] if "total" in d else -1,
            "lowered": "lower" in d, "by": d["lower"][1] if "lower" in d else 0, "to": d["lower"][2] if "lower" in d else 0,
            "error": d["error"][1] if "error" in d else "", "mutants": ms, "tries": tries(log),
            "weight": sum(len(m["toks"]) for m in ms) + 2000}


def judge_runs(ctx, lang, cases):
    probs, st = cf.judge(ctx.work, {"Solidity": "SolRuns", "Vyper": "VyRuns"}[lang.name], cases)
    return probs, st


def mutate_args(setting, files, out="out"):
    a = ["mutate", "-o", out, "--num-mutants", str(setting["num"]), "--rng-seed", setting["seed"]]
    for f in files:
        a += ["-f", f]
    if setting["all"]:
        a.append("--all-mutations")
    for x in setting["algs"]:
        a += ["--mutation", x]
    if setting["validate"]:
        a.append("--validate-mutants")
    return a


def describe_run(p):
    return "%s: %s" % (p["what"], json.dumps(p["info"])[:500])


def wanted(p, want):
    """want: property ids, beginnings of messages (with a space), or a pair of these and the algorithms of interest."""
    for x in want:
        algs = None
        if isinstance(x, tuple):
            x, algs = x
        if (p["what"].startswith(x) if " " in x else p["what"].split()[0] == x) and (algs is None or p["info"].get("alg") in algs):
            return True
    return False


def generator_runs(ctx, lang, trees, settings, want, funcs=None, stubs=False):
    """Run the tool once per tree and judge the runs; want: property ids of interest."""
    t0 = time.time()
    cli = ctx.cli

    def one(k):
        t, s = trees[k], settings[k]
        fs = funcs[k] if funcs else []
        with Scene(ctx.work, cli) as sc:
            comp = "solc" if lang.name == "Solidity" else "vyper"
            name, asts = "in.json", []
            if k % 5 == 3:                # a source whose tree comes from the compiler
                name = "in" + EXT[lang.name]
                asts = [("source text of the program", json.dumps(lang.mod.to_json(t)))]
                sc.put("w/" + name, asts[0][0])
            else:
                sc.put("w/in.json", json.dumps(lang.mod.to_json(t)))
            if s["validate"] or stubs or asts or k % 8 == 0:
                sc.stub(comp, comp, compile=s["verdict"], asts=asts)
            if fs and k % 3 == 2:
                sc.put("w/c.mgnx", json.dumps({"language": lang.name, "filenames": [name], "functions": fs}))
                args = mutate_args(s, ["c.mgnx"])
            else:
                args = mutate_args(s, [name])
                for f in fs:
                    args += ["--function", f]
            r = sc.run(args)
            if r["crash"]:
                return {"crash": r, "args": args}
            segs = segments(events(r["out"]))
            seg = segs[0] if segs else []
            c = run_case(t, lang, s, fs, seg, sc, sc.log(comp))
            names = sorted(os.listdir(sc.path("w", "out"))) if os.path.isdir(sc.path("w", "out")) else []
            c["extra"] = [n for n in names if "out/" + n not in [m["path"] for m in c["mutants"]]]
            c["raw"] = {"args": args, "out": r["out"], "segments": len(segs)}
            return c
    res = parallel(one, list(range(len(trees))))
    cases, src = [], []
    for k, c in enumerate(res):
        if "crash" in c:
            if "P22" in want:
                ctx.rep.violation("%s run crashed: %s" % (lang.name, c["crash"]["err"][:300]), {"args": c["args"], "run": c["crash"], "ast": lang.mod.to_json(trees[k])})
            continue
        if "P01" in want and (c["extra"] or c["raw"]["segments"] > 1):
            ctx.rep.violation("%s files not announced: %s" % (lang.name, c["extra"]), {"run": c["raw"], "ast": lang.mod.to_json(trees[k])})
        cases.append(c)
        src.append(k)
    t1 = time.time()
    raws = [c.pop("raw") for c in cases]
    probs, st = judge_runs(ctx, lang, cases)
    seen = {}
    for p in probs:
        if not wanted(p, want):
            continue
        seen[p["what"]] = seen.get(p["what"], 0) + 1
        if seen[p["what"]] > 2:
            continue
        k = p["case"]
        ctx.rep.violation("%s %s" % (lang.name, describe_run(p)), {"run": raws[k], "problem": p, "ast": lang.mod.to_json(trees[src[k]])})
    ctx.rep.add(states=st["states"], transitions=st["transitions"], traces_validated_against_impl=len(cases),
                exact_runs=st["sure"], mutants=sum(len(c["mutants"]) for c in cases), compiler_verdicts=sum(len(c["tries"]) for c in cases))
    if raws:
        ctx.rep.sample({"language": lang.name, "args": raws[0]["args"], "report": raws[0]["out"][:400]})
    ctx.rep.time(run=t1 - t0, judge=time.time() - t1)
    return cases, probs


def namesakes(ctx, lang, trees, settings, want):
    """Several inputs of one name in one run: each is numbered around the others, and around inputs in the output directory."""
    t0 = time.time()

    def one(k):
        ts, s = trees[3 * k:3 * k + 3], settings[k]
        with Scene(ctx.work, ctx.cli) as sc:
            names = ["a/in.json", "b/in.json"]
            taken = []
            if k % 2:
                n = k % 3
                names.insert(k % 3, "out/in.json_%d%s" % (n, EXT[lang.name]))
                taken = [n]
            for t, n in zip(ts, names):
                sc.put("w/" + n, json.dumps(lang.mod.to_json(t)))
            comp = "solc" if lang.name == "Solidity" else "vyper"
            if s["validate"]:
                sc.stub(comp, comp, compile=s["verdict"])
            r = sc.run(mutate_args(s, names))
            out = []
            for t, n, seg in zip(ts, names, segments(events(r["out"]))):
                c = run_case(t, lang, dict(s, unsure=s["validate"] or s.get("unsure")), [], seg, sc, taken=taken if n.endswith("/in.json") else [])
                c["tries"] = []
                c["validate"] = False           # the compiler's log is not split among the files
                if n.endswith("/in.json"):
                    taken = taken + [m["number"] for m in c["mutants"]]
                c["raw"] = {"args": r["args"], "out": r["out"], "file": n}
                out.append(c)
                if c["error"]:
                    break
            return out, r
    n = len(trees) // 3
    res = parallel(one, list(range(n)))
    t1 = time.time()
    cases = [c for x, _ in res for c in x]
    for x, r in res:
        if r["crash"]:
            ctx.rep.violation("%s run crashed: %s" % (lang.name, r["err"][:300]), {"run": r})
    raws = [c.pop("raw") for c in cases]
    probs, st = judge_runs(ctx, lang, cases)
    seen = {}
    for p in probs:
        if not wanted(p, want):
            continue
        seen[p["what"]] = seen.get(p["what"], 0) + 1
        if seen[p["what"]] <= 2:
            ctx.rep.violation("%s %s" % (lang.name, describe_run(p)), {"run": raws[p["case"]], "problem": p})
    ctx.rep.add(states=st["states"], transitions=st["transitions"], traces_validated_against_impl=len(cases), namesakes=n,
                mutants=sum(len(c["mutants"]) for c in cases))
    ctx.rep.time(run=t1 - t0, judge=time.time() - t1)
    return cases, probs
