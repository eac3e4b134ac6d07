"""Sessions: several inputs and configurations in one run, compared with runs of each job on its own."""
import json
import os
import time

from common import *
import conform as cf
from conform import SOL, VY
import runs
from runs import Scene, sha

POLICY = {"A": {"mode": "accept"}, "B": {"mode": "hash", "n": 2, "k": 0}, "C": {"mode": "hash", "n": 3, "k": 1}}
COMP = {"Solidity": "solc", "Vyper": "vyper"}
KEYS = {"num": "num-mutants", "seed": "seed", "algs": "mutations", "all": "all-mutations", "funcs": "functions",
        "validate": "validate-mutants", "print": "print-original", "out": "output-directory"}


def rec(x):
    return x if isinstance(x, dict) else {}


def report(out):
    """The report line by line, without the time."""
    return [l for l in out.splitlines() if not runs.PATTERNS[-1][1].match(l)]


def files_of(scene, before, top="w"):
    """What a run left behind: path relative to the working directory -> content."""
    after = scene.snapshot()
    return {os.path.relpath(p, top): h for p, h in after.items()
            if h != "dir" and p.startswith(top + "/") and before.get(p) != h}


class Material:
    """Files with programs, by number."""

    def __init__(self, items):
        self.items = items           # list of (lang, tree)

    def name(self, k):
        return "src%d/f%d.json" % (k, k)

    def lang(self, k):
        return self.items[(k - 1) % len(self.items)][0]

    def tree(self, k):
        return self.items[(k - 1) % len(self.items)][1]

    def place(self, sc, k, top="w"):
        sc.put(top + "/" + self.name(k), json.dumps(self.lang(k).mod.to_json(self.tree(k))))


def stubs(sc):
    for l, c in COMP.items():
        for n, p in POLICY.items():
            sc.stub(c + n, c, compile=p)


def cli_args(cli, files, sc):
    a = ["mutate"]
    for f in files:
        a += ["-f", f]
    if "seed" in cli and cli["seed"] != "":
        a += ["--rng-seed", cli["seed"]]
    if "num" in cli:
        a += ["--num-mutants", str(cli["num"])]
    if cli.get("all"):
        a.append("-a")
    for x in cli.get("algs", []):
        a += ["--mutation", x]
    for x in cli.get("funcs", []):
        a += ["--function", x]
    if cli.get("validate"):
        a.append("--validate-mutants")
    if cli.get("print"):
        a.append("--print-original")
    if cli.get("stdout"):
        a.append("--stdout")
    if "out" in cli:
        a += ["-o", cli["out"]]
    n = cli.get("compiler", "A")
    a += ["--solidity-compiler", sc.path("s", "solc" + n), "--vyper-compiler", sc.path("s", "vyper" + n)]
    return a


def config_text(cfg, files, lang, sc):
    d = {"language": lang.name, "filenames": files}
    for k, v in cfg.items():
        if k == "compiler":
            d["compiler-details"] = {"path": sc.path("s", COMP[lang.name] + v)}
        elif k == "seed":
            d["seed"] = int(v)
        else:
            d[KEYS[k]] = v
    return json.dumps(d)


def alone(ctx, mat, job, extra=()):
    """One job with its settings on the command line; a seed beyond the command line's range needs a configuration."""
    with Scene(ctx.work, ctx.cli) as sc:
        stubs(sc)
        mat.place(sc, job["file"])
        j = dict(job)
        files = [mat.name(job["file"])]
        if int(j["seed"]) > 2 ** 63 - 1:
            sc.put("w/seed.mgnx", json.dumps({"language": mat.lang(job["file"]).name, "filenames": files, "seed": int(j["seed"])}))
            files = ["seed.mgnx"]
            j["seed"] = "1"
        if j["stdout"]:
            j.pop("out")
        before = sc.snapshot()
        args = cli_args(j, files, sc) + list(extra)
        r = sc.run(args)
        return result(sc, r, before, args)


def result(sc, r, before, args):
    ev = runs.events(r["out"])
    return {"report": report(r["out"]), "files": files_of(sc, before), "crash": r["crash"], "err": r["err"],
            "error": next((e[1] for e in ev if e[0] == "error"), "crash" if r["crash"] else ""),
            "mutants": [e[2] for e in ev if e[0] == "mutant"], "args": args}


def session(ctx, mat, s, keep=None):
    with Scene(ctx.work, ctx.cli) as sc:
        stubs(sc)
        names = []
        for n, inp in enumerate(s["inputs"]):
            for k in inp["files"]:
                mat.place(sc, k)
            if inp["kind"] == "file":
                names.append(mat.name(inp["files"][0]))
            else:
                c = "conf%d.mgnx" % n
                sc.put("w/" + c, config_text(rec(inp["cfg"]), [mat.name(k) for k in inp["files"]], mat.lang(inp["files"][0]), sc))
                names.append(c)
        before = sc.snapshot()
        args = cli_args(s["cli"], names, sc)
        r = sc.run(args)
        return result(sc, r, before, args)


def slim(r):
    return {k: r[k] for k in ("report", "files", "error", "mutants")}


def material(ctx, n, seed=0):
    """Odd and even numbers k, k + 1 share their language, as the files of one configuration must."""
    out = []
    ts = {l.name: [l.mod.prepare(x["tree"]) for x in cf.gen(ctx.work, l.gen + "Funcs", Seed=ctx.seed * 31 + seed, Count=n, ND=9, D=1)] for l in (SOL, VY)}
    for k in range(n):
        l = (SOL, VY)[(k // 2) % 2]
        out.append((l, ts[l.name][k]))
    return out


def check_sessions(ctx, n, configs, seed=0, nfiles=3, prop=""):
    t0 = time.time()
    ss = cf.gen(ctx.work, "GenSessions", Seed=ctx.seed * 61 + seed, Count=n, NFiles=nfiles, Configs=configs)
    items = material(ctx, 48, seed)

    def one(k):
        s = ss[k]
        mat = Material(items[(4 * k) % 32:] + items[:(4 * k) % 32])
        seen = session(ctx, mat, s)
        al = [alone(ctx, mat, j) for j in s["jobs"]]
        return seen, al
    res = parallel(one, list(range(len(ss))))
    t1 = time.time()
    cases = []
    for s, (seen, al) in zip(ss, res):
        for r in [seen] + al:
            if r["crash"]:
                ctx.rep.violation("a run crashed: " + r["err"][:300], {"args": r["args"], "session": s})
        cases.append({"session": {"cli": s["cli"], "inputs": s["inputs"]}, "seen": slim(seen), "alone": [slim(a) for a in al],
                      "weight": len(al)})
    probs, st = cf.judge(ctx.work, "Sessions", cases)
    seenp = {}
    for p in probs:
        seenp[p["what"]] = seenp.get(p["what"], 0) + 1
        if seenp[p["what"]] > 2:
            continue
        k = p["case"]
        ctx.rep.violation("%s: %s" % (p["what"], json.dumps(p["info"])[:500]),
                          {"session": ss[k], "problem": p, "args": res[k][0]["args"], "seen": res[k][0], "alone": res[k][1]})
    ctx.rep.add(states=st["states"], transitions=st["transitions"], traces_validated_against_impl=len(cases),
                runs=sum(1 + len(a) for _, a in res), mutants=sum(len(a["mutants"]) for _, al in res for a in al),
                failing_jobs=sum(1 for _, al in res for a in al if a["error"]))
    ctx.rep.sample({"session": {"cli": ss[0]["cli"], "inputs": ss[0]["inputs"]}, "report": res[0][0]["report"][:8]})
    ctx.rep.time(run=t1 - t0, judge=time.time() - t1)
    return res


# ---------------------------------------------------------------------------------------------
def placed(ctx, mat, job, how):
    """A job run in a given way: where input and output lie and how they are named."""
    with Scene(ctx.work, ctx.cli) as sc:
        stubs(sc)
        k = job["file"]
        j = dict(job)
        cwd = "w"
        if how == "plain" or how == "again":
            mat.place(sc, k)
            name = mat.name(k)
        elif how == "absolute":
            mat.place(sc, k)
            name = sc.path("w", mat.name(k))
            j["out"] = sc.path("w", "elsewhere", "o")
        elif how == "inside":
            mat.place(sc, k)
            cwd = "w/" + os.path.dirname(mat.name(k))
            name = os.path.basename(mat.name(k))
            j["out"] = "../x/../other"
        elif how == "dotted":
            mat.place(sc, k, "w/a/b")
            name = "./a/../a/b/" + mat.name(k)
            j["out"] = "."
        elif how == "existing":           # output of an earlier run is there already
            mat.place(sc, k)
            name = mat.name(k)
            sc.put("w/%s/%s_0%s" % (j["out"], os.path.basename(name), runs.EXT[mat.lang(k).name]), "old\n")
            os.makedirs(sc.path("w", "x"), exist_ok=True)
        os.makedirs(sc.path("w", "x"), exist_ok=True)
        if j["stdout"]:
            j.pop("out")
        before = sc.snapshot()
        args = cli_args(j, [name], sc)
        r = sc.run(args, cwd=cwd)
        out = os.path.normpath(os.path.join(sc.path(cwd), j["out"])) if "out" in j else ""
        files = {}
        for p, h in sc.snapshot().items():
            if h != "dir" and before.get(p) != h:
                files[os.path.relpath(sc.path(p), out) if out else p] = h
        rep = [l.replace(" to " + j["out"], " to <out>") if "out" in j else l for l in report(r["out"])]
        return {"value": {"report": rep, "files": files, "crash": r["crash"]}, "how": how, "args": args}


HOW = ["plain", "again", "absolute", "inside", "dotted", "existing"]


def check_repeat(ctx, n, seed=0):
    t0 = time.time()
    ss = cf.gen(ctx.work, "GenSessions", Seed=ctx.seed * 67 + seed, Count=n, NFiles=1, Configs="no")
    items = material(ctx, 48, seed)
    jobs = []
    for k, s in enumerate(ss):
        jobs.append((Material(items[(4 * k) % 32:] + items[:(4 * k) % 32]), s["jobs"][0]))

    def one(x):
        k, how = x
        return placed(ctx, jobs[k][0], jobs[k][1], how)
    todo = [(k, h) for h in HOW for k in range(n)]
    res = parallel(one, todo)
    cases = [{"obs": []} for _ in range(n)]
    for (k, h), r in zip(todo, res):
        cases[k]["obs"].append({"key": str(k), "how": h, "value": r["value"]})
        if r["value"]["crash"]:
            ctx.rep.violation("a run crashed", {"args": r["args"]})
    t1 = time.time()
    probs, st = cf.judge(ctx.work, "Repro", cases)
    for p in probs[:4]:
        ctx.rep.violation("%s: %s" % (p["what"], json.dumps(p["info"])),
                          {"case": cases[p["case"]], "job": jobs[p["case"]][1]})
    ctx.rep.add(states=st["states"], transitions=st["transitions"], traces_validated_against_impl=len(res), runs=len(res))
    ctx.rep.time(run=t1 - t0, judge=time.time() - t1)


# ---------------------------------------------------------------------------------------------
def find_json(lines):
    """The configuration printed on standard output, and the report without it."""
    text = "\n".join(lines) + "\n"
    at = 0
    while True:
        at = text.find("{\n", at)
        if at < 0:
            return None, lines
        if at == 0 or text[at - 1] == "\n":
            try:
                v, end = json.JSONDecoder().raw_decode(text, at)
                if "language" in v:
                    return v, (text[:at] + text[end + 1:]).splitlines()
            except ValueError:
                pass
        at += 1


def config_record(v, sc):
    """A configuration file in the words of the specification."""
    inv = {y: x for x, y in KEYS.items()}
    out = {}
    for k, x in v.items():
        if k in inv:
            out[inv[k]] = str(x) if k == "seed" else x
        elif k == "compiler-details":
            p = x.get("path", "")
            out["compiler"] = p[-1] if p.startswith(sc.path("s")) and set(x) == {"path"} else json.dumps(x)
    return out


def check_saved(ctx, n, configs, seed=0, nfiles=3):
    t0 = time.time()
    ss = cf.gen(ctx.work, "GenSessions", Seed=ctx.seed * 71 + seed, Count=n, NFiles=nfiles, Configs=configs)
    items = material(ctx, 48, seed)

    def one(k):
        s = ss[k]
        mat = Material(items[(4 * k) % 32:] + items[:(4 * k) % 32])
        noseed = k % 3 == 0 and not any("seed" in rec(i["cfg"]) for i in s["inputs"])
        if noseed:
            s["cli"]["seed"] = ""
        with Scene(ctx.work, ctx.cli) as sc:
            stubs(sc)
            names = []
            for m, inp in enumerate(s["inputs"]):
                for f in inp["files"]:
                    mat.place(sc, f)
                if inp["kind"] == "file":
                    names.append(mat.name(inp["files"][0]))
                else:
                    c = "conf%d.mgnx" % m
                    sc.put("w/" + c, config_text(rec(inp["cfg"]), [mat.name(f) for f in inp["files"]], mat.lang(inp["files"][0]), sc))
                    names.append(c)
            before = sc.snapshot()
            args = cli_args(s["cli"], names, sc) + ["--save-config-files"]
            r = sc.run(args)
            first = result(sc, r, before, args)
            done = [dict(j, n=m + 1) for m, j in enumerate(s["jobs"])]
            segs = runs.segments(runs.events(r["out"]))
            if first["error"]:
                # the jobs before the failing one
                done = done[:sum(1 for g in segs if any(e[0] == "algs" for e in g))]
            saved, again, reports = [], {}, []
            rest = first["report"]
            conffiles = [p for p in first["files"] if p.endswith(".mgnx")]
            sources = []
            for j in done:
                name = mat.name(j["file"])
                if j["stdout"]:
                    v, rest = find_json(rest)
                    if v is None:
                        continue
                    p = "saved%d.mgnx" % j["n"]
                    sc.put("w/" + p, json.dumps(v))
                else:
                    p = os.path.join(j["out"], os.path.basename(name)[:-5] + ".mgnx")
                    try:
                        v = json.load(open(sc.path("w", p)))
                    except (OSError, ValueError):
                        continue
                sources.append((j, name, p, v))
            rest = [l for l in rest if not (l.startswith("Writing configuration file") or l.startswith("Unable to generate mutations"))]
            # what the first run wrote goes away, except the configurations
            for p in first["files"]:
                if not p.endswith(".mgnx"):
                    os.unlink(sc.path("w", p))
            crash = r["crash"]
            for j, name, p, v in sources:
                mid = sc.snapshot()
                r2 = sc.run(["mutate", "-f", p])
                x = result(sc, r2, mid, ["mutate", "-f", p])
                crash = crash or r2["crash"]
                again.update(x["files"])
                reports += x["report"]
                saved.append({"job": j["n"], "cfg": config_record(v, sc), "files": v.get("filenames"), "language": v.get("language"),
                              "name": name, "lang": mat.lang(j["file"]).name, "error": x["error"]})
            ff = {p: h for p, h in first["files"].items() if not p.endswith(".mgnx")}
            extra = [p for p in conffiles if p not in [x[2] for x in sources]]
            return {"session": {"cli": dict(s["cli"], seed=s["cli"]["seed"] or "none"), "inputs": s["inputs"]}, "noseed": noseed, "saved": saved,
                    "done": len(done), "first": {"files": ff, "report": rest}, "again": {"files": again, "report": reports}}, args, crash, extra
    res = parallel(one, list(range(len(ss))))
    t1 = time.time()
    cases = [r[0] for r in res]
    for c, args, crash, extra in res:
        if crash:
            ctx.rep.violation("a run crashed", {"args": args, "session": c["session"]})
        if extra:
            ctx.rep.violation("configurations that no job asked for: %s" % extra, {"args": args, "session": c["session"]})
    probs, st = cf.judge(ctx.work, "Saved", cases)
    seenp = {}
    for p in probs:
        seenp[p["what"]] = seenp.get(p["what"], 0) + 1
        if seenp[p["what"]] <= 2:
            k = p["case"]
            ctx.rep.violation("%s: %s" % (p["what"], json.dumps(p["info"])[:500]), {"case": cases[k], "problem": p, "args": res[k][1]})
    ctx.rep.add(states=st["states"], transitions=st["transitions"], traces_validated_against_impl=len(cases),
                saved=sum(len(c["saved"]) for c in cases), files=sum(len(c["again"]["files"]) for c in cases),
                without_seed=sum(c["noseed"] for c in cases))
    ctx.rep.sample({"args": res[0][1], "saved": cases[0]["saved"][:2]})
    ctx.rep.time(run=t1 - t0, judge=time.time() - t1)
    return res
