"""Which compilers are called and how, judged against the Calls specification."""
import json
import os
import re
import time

from common import *
import conform as cf
import runs
from runs import Scene
from inputs import Stock, verdicts

EXES = {"solc": "solc", "solcA": "solc", "solcB": "solc", "vyper": "vyper", "vyperA": "vyper", "vyperB": "vyper"}


def cli_settings(sc, cli):
    def exe(n):
        return n if n in ("solc", "vyper") else sc.path("s", n)
    s, v = cli["Solidity"], cli["Vyper"]
    a = []
    if s["exe"] != "solc":
        a += ["--solidity-compiler", exe(s["exe"])]
    for key, opt in (("base", "base-path"), ("include", "include-path"), ("allow", "allow-paths"), ("remap", "remapping"), ("stop", "stop-after")):
        for x in s[key]:
            a += ["--solidity-" + opt, x]
    if v["exe"] != "vyper":
        a += ["--vyper-compiler", exe(v["exe"])]
    for x in v["root"]:
        a += ["--vyper-root-path", x]
    return a


def details(sc, lang, s):
    d = {}
    if s["exe"] not in ("solc", "vyper"):
        d["path"] = sc.path("s", s["exe"])
    if lang == "Vyper":
        if s["root"]:
            d["root-path"] = s["root"][0]
        return d
    for key, opt in (("include", "include-paths"), ("allow", "allow-paths"), ("remap", "remappings")):
        if s[key]:
            d[opt] = s[key]
    for key, opt in (("base", "base-path"), ("stop", "stop-after")):
        if s[key]:
            d[opt] = s[key][0]
    return d


def collect(sc):
    out = []
    for n in list(EXES) + ["docker"]:
        for e in sc.log(n):
            f = e["files"][-1] if e["files"] else ""
            m = re.match(r"c(\d+)\.", os.path.basename(f))
            task = e["task"]
            if task == "nofile":
                task = "ast" if "--ast-compact-json" in e["flags"] or "ast" in e["format"] else "compile"
            out.append({"exe": n, "kind": e["kind"], "argv": e["argv"], "task": task, "job": int(m.group(1)) if m else 0})
    return out


def run_session(ctx, stock, s, k):
    with Scene(ctx.work, ctx.cli) as sc:
        names, asts = [], {"Solidity": [], "Vyper": []}
        for n, j in enumerate(s["jobs"], 1):
            tree, _ = stock.get(j["lang"], k + n)
            name = "d%d/c%d%s" % (n, n, (".sol" if j["lang"] == "Solidity" else ".vy") if j["source"] else ".json")
            text = "// %d %d\n" % (k, n) if j["lang"] == "Solidity" else "# %d %d\n" % (k, n)
            if j["source"]:
                asts[j["lang"]].append((text, tree))
            sc.put("w/" + name, text if j["source"] else tree)
            if j["config"] and s["command"] == "mutate":
                c = {"language": j["lang"], "filenames": [name], "num-mutants": 2}
                if j["details"]:
                    c["compiler-details"] = details(sc, j["lang"], j["settings"])
                name = "conf%d.mgnx" % n
                sc.put("w/" + name, json.dumps(c))
            names.append(name)
        if s["command"] != "mutate":
            s = dict(s, jobs=[dict(j, config=False, details=False) for j in s["jobs"]])
        for n, kind in EXES.items():
            lang = "Solidity" if kind == "solc" else "Vyper"
            a = asts[lang] if not (s["docker"] and kind == "vyper") else []
            sc.stub(n, kind, asts=a, compile={"mode": s["verdict"], "n": 2, "k": 0}, version=s["version"])
        if s["docker"]:
            sc.stub("docker", "docker", asts=asts["Vyper"], compile={"mode": s["verdict"], "n": 2, "k": 0})
        a = [s["command"]]
        for x in names:
            a += ["-f", x]
        if s["command"] == "mutate":
            a += ["-a", "--num-mutants", "2", "--rng-seed", s["seed"], "--save-config-files"]
            if s["validate"]:
                a.append("--validate-mutants")
        a += cli_settings(sc, s["cli"])

        def case(r, again):
            ms = [e[2] for e in runs.events(r["out"]) if e[0] == "mutant"]
            n = [sum(os.path.basename(m).startswith("c%d." % q) for m in ms) for q in range(1, len(s["jobs"]) + 1)]
            return ({"session": s, "again": again, "calls": collect(sc), "mutants": n}, {"args": r["args"], "out": r["out"][:1500], "err": r["err"][:500]})
        r = sc.run(a)
        out = [case(r, False)]
        saved = ["out/c%d.mgnx" % n for n in range(1, len(s["jobs"]) + 1) if os.path.exists(sc.path("w/out/c%d.mgnx" % n))]
        if len(saved) == len(s["jobs"]):
            sc.clear_logs()
            a = ["mutate", "-a"]
            for x in saved:
                a += ["-f", x]
            out.append(case(sc.run(a), True))
        if r["crash"]:
            ctx.rep.violation("a run crashed: " + r["err"][:300], {"args": a, "session": s})
        return out


def check_calls(ctx, n, seed=0):
    t0 = time.time()
    stock = Stock(ctx, seed=seed + 500)
    ss = cf.gen(ctx.work, "GenCalls", Seed=ctx.seed * 89 + seed, Count=n)
    res = [x for r in parallel(lambda k: run_session(ctx, stock, ss[k], k), list(range(n))) for x in r]
    t1 = time.time()
    verdicts(ctx, "CallTrace", res)
    ctx.rep.add(compiler_calls=sum(len(c["calls"]) for c, _ in res), mutants=sum(sum(c["mutants"]) for c, _ in res), runs_from_saved=sum(c["again"] for c, _ in res))
    ctx.rep.sample({"args": res[0][1]["args"], "calls": res[0][0]["calls"][:4]})
    ctx.rep.time(run=t1 - t0, judge=time.time() - t1)
    return res
