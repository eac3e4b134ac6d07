"""Scenes: what a run leaves behind, judged against the Files specification."""
import json
import os
import time

from common import *
import conform as cf
from conform import SOL, VY
import runs
from runs import Scene

LANGS = {"Solidity": SOL, "Vyper": VY}


def spell(sc, path, how, isdir=False):
    """A path of the scene, spelled in some way, as seen from the working directory."""
    if how == "abs" or not path.startswith("w"):
        return sc.path(path) + ("/" if how == "slash" else "")
    rel = os.path.relpath(path, "w")
    if how == "plain":
        return rel
    if how == "dot":
        return "./" + rel
    if how == "up":
        return "../w/" + rel
    if how == "slashes":
        return "./" + rel.replace("/", "//")
    if how == "slash":
        return rel + "/"
    return rel


def source_text(lang, n):
    return ("// source %d\ncontract A { }\n" if lang == "Solidity" else "# source %d\n") % n


def build(sc, s, items):
    """Lay out a scene; returns what to run."""
    inputs, asts, jobs, names = [], {"Solidity": [], "Vyper": []}, [], []
    for n, i in enumerate(s["inputs"]):
        p = os.path.normpath(os.path.join(i["dir"], i["base"]))
        if p not in [x["path"] for x in inputs]:
            lang = LANGS[i["lang"]]
            tree = json.dumps(lang.mod.to_json(items[i["lang"]][n % len(items[i["lang"]])]))
            if i["source"]:
                text = source_text(i["lang"], n)
                asts[i["lang"]].append((text, tree))
            else:
                text = tree
            sc.put(p, text)
            inputs.append(dict(i, path=p))
        i = next(x for x in inputs if x["path"] == p)
        names.append((i, spell(sc, p, s["inputs"][n]["spell"])))
    if s["twice"]:
        names.append(names[0])
    out = "w/out" if s["noout"] else s["out"]
    for o in s["old"]:
        p = os.path.normpath(os.path.join(out if o["dir"] == "out" else o["dir"], o["name"]))
        if not os.path.lexists(sc.path(p)):
            try:
                sc.put(p, "old file\n")
            except OSError:
                pass
    first = inputs[0]
    ext = runs.EXT[first["lang"]]
    if s["link"]:
        p = sc.path(out, first["base"] + "_0" + ext)
        try:
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if not os.path.lexists(p):
                os.symlink(sc.path(first["path"]), p)
        except OSError:
            pass
    for i, name in names:
        jobs.append({"dir": i["dir"], "base": i["base"], "ext": runs.EXT[i["lang"]], "out": os.path.normpath(out), "stdout": s["stdout"],
                     "print": s["print"] or s["command"] != "mutate", "save": s["save"] and s["command"] == "mutate", "num": s["num"],
                     "command": s["command"], "done": False})
    files = [x for _, x in names]
    prot = [i["path"] for i in inputs]
    if s["config"] and s["command"] == "mutate" and len({i["lang"] for i in inputs}) == 1:
        stem = first["base"].rsplit(".", 1)[0] if "." in first["base"] else first["base"]
        c = "w/" + stem + ".mgnx"
        if not os.path.lexists(sc.path(c)):
            sc.put(c, json.dumps({"language": first["lang"], "filenames": files, "num-mutants": s["num"]}))
            prot.append(c)
            files = [stem + ".mgnx"]
    if s["bad"]:
        if s["bad"] == "dir":
            os.makedirs(sc.path("w/bad.sol"))
        elif s["bad"] == "text":
            sc.put("w/bad.sol", b"\xff not a program\n")
            prot.append("w/bad.sol")
        files.append("bad.sol")
    a = [s["command"]]
    for f in files:
        a += ["-f", f]
    if not s["noout"]:
        a += ["-o", spell(sc, s["out"], s["spell"])]
    if s["stdout"]:
        a.append("--stdout")
    if s["command"] == "mutate":
        a += ["--num-mutants", str(s["num"]), "--rng-seed", s["seed"], "-a"]
        for k, o in (("print", "--print-original"), ("save", "--save-config-files"), ("validate", "--validate-mutants")):
            if s[k]:
                a.append(o)
    v = {"mode": s["verdict"], "n": 2, "k": 0}
    sc.stub("solc", "solc", compile=v, asts=asts["Solidity"])
    sc.stub("vyper", "vyper", compile=v, asts=asts["Vyper"], version=["0.3.7+commit.6020b8b", "3.1.0", "0.2.16"][s["num"] % 3])
    return a, jobs, prot


def run_scene(ctx, s, items):
    with Scene(ctx.work, ctx.cli) as sc:
        args, jobs, prot = build(sc, s, items)
        before = sc.snapshot()
        r = sc.run(args)
        after = sc.snapshot()
        ev = runs.events(r["out"])
        segs = [g for g in runs.segments(ev) if any(e[0] == "algs" for e in g)]
        for j in jobs[:len(segs)]:
            j["done"] = True
        failed = any(e[0] in ("error", "noprint") for e in ev)
        ann = [os.path.relpath(os.path.realpath(os.path.join(sc.path("w"), os.path.dirname(e[2]))), os.path.realpath(sc.dir)) + "/" + os.path.basename(e[2])
               for e in ev if e[0] == "mutant"]
        return {"before": before, "after": after, "inputs": prot, "jobs": jobs, "announced": ann, "failed": failed,
                "numbers": sum(j["num"] for j in jobs) + 6, "weight": len(after)}, args, r


def check_scenes(ctx, n, seed=0):
    t0 = time.time()
    ss = cf.gen(ctx.work, "GenScenes", Seed=ctx.seed * 73 + seed, Count=n)
    items = {l.name: [l.mod.prepare(t) for t in cf.gen(ctx.work, l.gen + "Main", Seed=ctx.seed * 37 + seed, Count=24, ND=8, D=1)] for l in (SOL, VY)}
    res = parallel(lambda k: run_scene(ctx, ss[k], {l: x[(5 * k) % 24:] + x[:(5 * k) % 24] for l, x in items.items()}), list(range(n)))
    t1 = time.time()
    cases = [r[0] for r in res]
    for (c, args, r), s in zip(res, ss):
        if r["crash"]:
            ctx.rep.violation("a run crashed: " + r["err"][:300], {"args": args, "scene": s})
    probs, st = cf.judge(ctx.work, "Files", cases)
    seen = {}
    for p in probs:
        seen[p["what"]] = seen.get(p["what"], 0) + 1
        if seen[p["what"]] <= 2:
            k = p["case"]
            ctx.rep.violation("%s: %s" % (p["what"], json.dumps(p["info"])[:400]),
                              {"scene": ss[k], "problem": p, "args": res[k][1], "case": cases[k], "out": res[k][2]["out"]})
    ctx.rep.add(states=st["states"], transitions=st["transitions"], traces_validated_against_impl=len(cases),
                mutants=sum(len(c["announced"]) for c in cases), failing_runs=sum(c["failed"] for c in cases),
                files_watched=sum(len(c["before"]) for c in cases))
    ctx.rep.sample({"args": res[0][1], "before": sorted(cases[0]["before"]), "after": sorted(cases[0]["after"])})
    ctx.rep.time(run=t1 - t0, judge=time.time() - t1)
    return res
