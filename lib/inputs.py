"""Files of all kinds given to the tool, judged against the Recognize specification."""
import json
import os
import random
import time

from common import *
import conform as cf
from conform import SOL, VY
import runs
from runs import Scene

LANGS = {"Solidity": SOL, "Vyper": VY}


class Stock:
    """Trees with places to mutate, and how they print."""

    def __init__(self, ctx, n=24, seed=0):
        self.trees, self.texts = {}, {}
        for l in (SOL, VY):
            ts = [l.mod.to_json(l.mod.prepare(t)) for t in cf.gen(ctx.work, l.gen + "Main", Seed=ctx.seed * 41 + seed, Count=2 * n, ND=7, D=1)]
            reps = ctx.pool.map([{"op": "sweep", "lang": l.name, "text": json.dumps(t), "algs": l.algs, "functions": [], "count_only": True} for t in ts], 30)
            self.trees[l.name] = [t for t, r in zip(ts, reps) if "ok" in r and r["ok"]["counts"]][:n]
            pr = ctx.pool.map([{"op": "print", "lang": l.name, "text": json.dumps(t)} for t in self.trees[l.name]], 30)
            self.texts[l.name] = [r.get("ok", {}).get("text", "") for r in pr]

    def get(self, lang, k):
        k %= len(self.trees[lang])
        return json.dumps(self.trees[lang][k]), self.texts[lang][k]


def content(stock, f, k, files=()):
    """The content of a file, and what its own tree and the trees of the compilers print as."""
    b = f["body"]
    st, stext = stock.get("Solidity", k)
    vt, vtext = stock.get("Vyper", k)
    st2, stext2 = stock.get("Solidity", k + 1)
    own, comp = {}, {"Solidity": (st2, stext2), "Vyper": (vt, vtext)}
    data = {"sol-source": "// source %d\ncontract C { }\n" % k, "vy-source": "# source %d\nx: uint256\n" % k, "both-source": "// both %d" % k,
            "text": "nothing known %d\n" % k, "binary": b"\xff\xfe\x00\x01%d" % k, "empty": "", "sol-tree": st, "vy-tree": vt,
            "sol-tree-cut": st[:-2], "vy-tree-cut": vt[:len(vt) // 2], "sol-tree-bare": '{"nodeType": "SourceUnit", "nodes": []}',
            "vy-tree-bare": '{"contract_name": "x", "ast": {"ast_type": "Module", "body": []}}', "sol-tree-source": st,
            "object": "{}", "array": "[%s]" % st, "number": "17", "null": "null", "string": '"SourceUnit"',
            "sol-part": '{"nodeType": "ContractDefinition", "nodes": [%s]}' % st, "sol-case": st.replace('"SourceUnit"', '"sourceUnit"'),
            "sol-number": '{"nodeType": 3, "SourceUnit": "nodeType"}', "vy-noast": '{"contract_name": "x"}', "vy-noname": '{"ast": %s}' % vt,
            "two-trees": '{"nodeType": "SourceUnit", "contract_name": "x", "ast": {}}'}.get(b)
    if b == "config":
        d = {"num-mutants": 1}
        l = f["cfg"]["language"]
        if l != "absent":
            d["language"] = 3 if l == "number" else l
        if f["cfg"]["names"] == "list":
            d["filenames"] = list(files)
        elif f["cfg"]["names"] == "other":
            d["filenames"] = files[0] if files else "f1.sol"
        data = json.dumps(d)
    if b in ("sol-tree", "sol-tree-source"):
        own["Solidity"] = stext
    if b == "vy-tree":
        own["Vyper"] = vtext
    return data if isinstance(data, bytes) else data.encode(), own, comp


def run_input(ctx, stock, s, k):
    with Scene(ctx.work, ctx.cli) as sc:
        fs = [s["file"]] + s["listed"]
        names, texts, pairs = [], [], {"Solidity": [], "Vyper": []}
        for n, f in enumerate(fs):
            names.append(("in/dir/" if f["how"] == "deep" else "") + "f%d" % n + ("." + f["ext"] if f["ext"] else ""))
        for n, f in enumerate(fs):
            data, own, comp = content(stock, f, k + 3 * n, names[1:])
            p = "w/" + names[n]
            if f["what"] == "dir":
                os.makedirs(sc.path(p), exist_ok=True)
            elif f["what"] == "missing":
                if f["how"] == "link":
                    os.symlink("nowhere", sc.path(p))
            elif f["how"] == "link":
                sc.put("w/real/%d.dat" % n, data)
                os.symlink("real/%d.dat" % n, sc.path(p))
            else:
                sc.put(p, data)
            t = {("Solidity", "tree"): own.get("Solidity", ""), ("Vyper", "tree"): own.get("Vyper", "")}
            for l, b in (("Solidity", ("sol-source", "both-source", "sol-tree-source")), ("Vyper", ("vy-source", "both-source"))):
                if f["body"] in b:
                    pairs[l].append((data, comp[l][0]))
                    t[(l, "source")] = comp[l][1]
            texts.append(t)
        e = s["env"]

        def stub(name, kind, how, lang):
            if how == "absent":
                return
            other = {"Solidity": "Vyper", "Vyper": "Solidity"}[lang]
            a = [] if how == "rejects" else [(d, t if how == "good" else "nonsense {" if how == "garbage" else stock.get(other, k)[0]) for d, t in pairs[lang]]
            sc.stub(name, kind, asts=a, silent=how == "silent", version="" if how == "noversion" else e["version"])
        stub("solc", "solc", e["solc"], "Solidity")
        stub("vyper", "vyper", e["vyper"], "Vyper")
        stub("docker", "docker", e["docker"], "Vyper")
        before = sc.snapshot()
        a = [s["command"], "-f", names[0]]
        if s["command"] == "mutate":
            a += ["-a", "--print-original", "--rng-seed", s["seed"]]
        r = sc.run(a)
        ev = runs.events(r["out"])
        after = sc.snapshot()
        new = {p: h for p, h in after.items() if before.get(p) != h and h != "dir"}
        langs, used = [], set()
        for n in range(len(names)) if s["file"]["body"] != "config" else range(1, len(names)):
            base = os.path.basename(names[n])
            found = []
            for l, ext in runs.EXT.items():
                orig = "w/out/" + base + ("" if base.endswith(ext) else ext)
                mut = "w/out/%s_0%s" % (base, ext)
                if orig in new and (mut in new or s["command"] != "mutate"):
                    used |= {orig, mut}
                    with open(sc.path(orig), errors="replace") as g:
                        text = g.read()
                    ts = [t for t in ("source", "tree") if texts[n].get((l, t)) == text]
                    if not ts and fs[n]["body"] in ("sol-tree-bare", "vy-tree-bare", "two-trees"):
                        ts = ["tree"]
                    found.append(l + "/" + (ts[0] if ts else "?"))
            if found:
                langs.append("+".join(found))
        seen = {"crash": r["crash"], "error": any(x[0] in ("error", "noprint") and len(x[-1]) > 3 for x in ev), "langs": langs,
                "extra": sorted(set(new) - used)}
        return {"input": s, "seen": seen, "damaged": False}, {"args": a, "out": r["out"][:2000], "err": r["err"][:1000]}


def check_inputs(ctx, n, seed=0):
    t0 = time.time()
    stock = Stock(ctx, seed=seed)
    ss = cf.gen(ctx.work, "GenInputs", Seed=ctx.seed * 83 + seed, Count=n)
    res = parallel(lambda k: run_input(ctx, stock, ss[k], k), list(range(n)))
    t1 = time.time()
    verdicts(ctx, "Inputs", res)
    ctx.rep.add(errors=sum(c["seen"]["error"] for c, _ in res), with_results=sum(bool(c["seen"]["langs"]) for c, _ in res))
    ctx.rep.sample({"input": ss[0], "seen": res[0][0]["seen"]})
    ctx.rep.time(run=t1 - t0, judge=time.time() - t1)
    return res


def verdicts(ctx, module, res, limit=2):
    """res: pairs of a case and what to show when it fails."""
    probs, st = cf.judge(ctx.work, module, [c for c, _ in res])
    seen = {}
    for p in probs:
        seen[p["what"]] = seen.get(p["what"], 0) + 1
        if seen[p["what"]] <= limit:
            c, show = res[p["case"]]
            ctx.rep.violation("%s: %s" % (p["what"], json.dumps(p["info"])[:500]), {"problem": p, "case": c, "run": show})
    ctx.rep.add(states=st["states"], transitions=st["transitions"], traces_validated_against_impl=len(res))


def subnodes(v, acc):
    if isinstance(v, dict):
        if v:
            acc.append(v)
        for x in v.values():
            subnodes(x, acc)
    elif isinstance(v, list):
        for x in v:
            subnodes(x, acc)
    return acc


def check_damaged(ctx, n, seed=0):
    """Syntax trees in which one part of one node is missing."""
    res, reqs = [], []
    rnd = random.Random(ctx.seed * 101 + seed)
    for l in (SOL, VY):
        ts = [l.mod.to_json(l.mod.prepare(t)) for t in cf.gen(ctx.work, l.gen + "Main", Seed=ctx.seed * 47 + seed, Count=max(1, n // 12), ND=6, D=1)]
        for t in ts:
            for _ in range(6):
                v = json.loads(json.dumps(t))
                x = rnd.choice(subnodes(v, []))
                key = rnd.choice(sorted(x))
                del x[key]
                reqs.append({"op": "sweep", "lang": l.name, "text": json.dumps(v), "algs": l.algs, "functions": [], "seeds": 2, "seed": 1, "cap": 1})
    for q, r in zip(reqs, ctx.pool.map(reqs, 30)):
        bad = [p for xs in r.get("ok", {}).get("algs", {}).values() for x in xs for p in x["problems"] if p["kind"] == "panic"]
        crash = bool(bad) or not ("ok" in r or "error" in r)
        res.append(({"damaged": True, "seen": {"crash": crash}}, {"request": q, "reply": bad or (r if crash else "")}))
    verdicts(ctx, "Inputs", res)
    ctx.rep.add(damaged_trees=len(res))
