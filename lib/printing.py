"""Lists of files printed by the tool, judged against the Printing specification."""
import json
import os
import re
import time

from common import *
import conform as cf
from conform import SOL, VY
import inputs
import runs
from runs import Scene


def base_of(f):
    return f["base"] + ("." + f["ext"] if f["ext"] else "")


def path_of(f):
    return base_of(f) if f["dir"] == "." else f["dir"] + "/" + base_of(f)


def lay_out(sc, stock, fs, env, k):
    """Put the files and the compilers of a job into a scene."""
    pairs = {"Solidity": [], "Vyper": []}
    done = set()
    for f in fs:
        p = path_of(f)
        if p in done:
            continue
        done.add(p)
        os.makedirs(sc.path("w", f["dir"]), exist_ok=True)
        data, own, comp = inputs.content(stock, f, k + 3 * f["n"])
        if f["what"] == "dir":
            os.makedirs(sc.path("w", p), exist_ok=True)
        elif f["what"] == "file":
            sc.put("w/" + p, data)
        for l, b in (("Solidity", ("sol-source", "both-source", "sol-tree-source")), ("Vyper", ("vy-source", "both-source"))):
            if f["body"] in b:
                pairs[l].append((data, comp[l][0]))
    for name, lang in (("solc", "Solidity"), ("vyper", "Vyper"), ("docker", "Vyper")):
        how = env[name]
        if how != "absent":
            a = [] if how == "rejects" else [(d, t if how == "good" else "nonsense {") for d, t in pairs[lang]]
            sc.stub(name, name, asts=a, version=env["version"])


def shown(out, fs):
    """Standard output as texts and messages."""
    names = sorted({path_of(f) for f in fs} | {base_of(f) for f in fs}, key=len, reverse=True)
    rx = re.compile(r'Unable to pretty-print ("?)(%s)\1: [^\n]+\n' % "|".join(re.escape(n) for n in names))
    out = re.sub(r"Elapsed time: [^\n]*s\n$", "", out)
    res, at = [], 0
    for m in rx.finditer(out):
        if m.start() > at:
            res.append({"kind": "text", "text": out[at:m.start()]})
        res.append({"kind": "error", "text": os.path.basename(m.group(2))})
        at = m.end()
    if at < len(out):
        res.append({"kind": "text", "text": out[at:]})
    return res


def read(p):
    with open(p, errors="replace", newline="") as f:
        return f.read()


def run_job(ctx, stock, job, k):
    fs = job["files"]
    with Scene(ctx.work, ctx.cli) as sc:
        lay_out(sc, stock, fs, job["env"], k)
        before = sc.snapshot()
        a = ["pretty-print"]
        for f in fs:
            a += ["-f", path_of(f)]
        if job["form"] == "stdout":
            a.append("--stdout")
        if job["out"] != "out" or k % 2:
            a += ["-o", job["out"]]
        r = sc.run(a)
        crash = r["crash"]
        after = sc.snapshot()
        new = [p for p, h in after.items() if before.get(p) != h and h != "dir"]
        disk = [{"to": p[2:] if p.startswith("w/") else p, "text": read(sc.path(p))} for p in sorted(new)]
        for p in new:
            if p not in before:
                os.unlink(sc.path(p))
        alone, beside, done = [], [], {}
        for n, f in enumerate(fs):
            p = path_of(f)
            if p in done:
                alone.append(alone[done[p]])
                beside.append(beside[done[p]])
                continue
            done[p] = n
            q = sc.run(["pretty-print", "-f", p, "-o", "ALONE%d" % n])
            crash = crash or q["crash"]
            d = sc.path("w", "ALONE%d" % n)
            got = sorted(os.listdir(d)) if os.path.isdir(d) else []
            alone.append({"ok": len(got) == 1, "name": got[0] if got else "", "text": read(os.path.join(d, got[0])) if got else ""})
            b = {"ok": False, "tried": False, "text": ""}
            if f["what"] == "file" and f["body"] != "config" and (k + n) % 2 == 0:
                b["tried"] = True
                q = sc.run(["mutate", "-f", p, "-o", "BESIDE%d" % n, "-a", "--num-mutants", "1", "--print-original", "--rng-seed", job["seed"]])
                crash = crash or q["crash"]
                d = sc.path("w", "BESIDE%d" % n)
                got = [x for x in (sorted(os.listdir(d)) if os.path.isdir(d) else []) if x == base_of(f) or x.startswith(base_of(f) + ".")]
                if len(got) == 1:
                    b.update(ok=True, text=read(os.path.join(d, got[0])))
            beside.append(b)
        c = {"job": job, "alone": alone, "beside": beside, "disk": disk, "shown": shown(r["out"], fs), "crash": crash}
        return c, {"args": a, "out": r["out"][:3000], "err": r["err"][:1000]}


def check_lists(ctx, n, seed=0):
    t0 = time.time()
    stock = inputs.Stock(ctx, seed=seed)
    jobs = [j for j in cf.gen(ctx.work, "GenPrinting", Seed=ctx.seed * 59 + seed, Count=n) if j["files"]]
    res = parallel(lambda k: run_job(ctx, stock, jobs[k], k), list(range(len(jobs))))
    t1 = time.time()
    inputs.verdicts(ctx, "PrintTrace", res)
    ctx.rep.add(lists=len(res), files_printed=sum(len(c["disk"]) for c, _ in res), beside=sum(b["ok"] for c, _ in res for b in c["beside"]),
                messages=sum(x["kind"] == "error" for c, _ in res for x in c["shown"]))
    ctx.rep.sample({"args": res[0][1]["args"], "shown": res[0][0]["shown"][:2], "disk": [d["to"] for d in res[0][0]["disk"]]})
    ctx.rep.time(run=t1 - t0, judge=time.time() - t1)


def check_texts(ctx, lang, trees):
    """The command's texts are the programs of the trees."""
    def one(k):
        t = trees[k]
        with Scene(ctx.work, ctx.cli) as sc:
            sc.put("w/in.json", json.dumps(lang.mod.to_json(t)))
            a = ["pretty-print", "-f", "in.json"] + (["--stdout"] if k % 2 else [])
            r = sc.run(a)
            p = sc.path("w", "out", "in.json" + runs.EXT[lang.name])
            text = re.sub(r"Elapsed time: [^\n]*s\n$", "", r["out"]) if k % 2 else read(p) if os.path.exists(p) else ""
            return {"tree": lang.mod.for_spec(t), "funcs": [], "full": False, "original": lang.mod.lex(text)[0], "algs": {}, "weight": len(text)}, {"args": a, "text": text}
    res = parallel(one, list(range(len(trees))))
    probs, st = cf.judge(ctx.work, lang.judge, [c for c, _ in res])
    for p in probs[:3]:
        ctx.rep.violation("%s printed by the command: %s" % (lang.name, cf.describe(p)), {"problem": p, "run": res[p["case"]][1], "ast": lang.mod.to_json(trees[p["case"]])})
    ctx.rep.add(states=st["states"], transitions=st["transitions"], traces_validated_against_impl=len(res))
