"""Generation of programs from the specification, recording of the tool's behaviour, and its judgement."""
import json
import os
import time

from common import *
import sol
import vy

SOL_ALGS = ["ArithmeticBinaryOp", "LogicalBinaryOp", "BitwiseBinaryOp", "BitshiftBinaryOp", "ComparisonBinaryOp",
            "Assignment", "DeleteStatement", "FunctionCall", "SwapFunctionArguments", "IfStatement", "Integer",
            "SwapOperatorArguments", "SwapLines", "UnaryOp", "Require", "UncheckedBlock", "ElimDelegateCall"]


def group_comments(toks, comments):
    """Put '@' where comments stand; adjacent comment lines make one comment."""
    out, groups = [], []
    ci = 0
    comments = sorted(comments, key=lambda c: c[0])
    for i in range(len(toks) + 1):
        lines = []
        while ci < len(comments) and comments[ci][0] == i:
            lines.append(comments[ci][1])
            ci += 1
        if lines:
            out.append("@")
            groups.append(" ".join(lines))
        if i < len(toks):
            out.append(toks[i])
    return out, groups


def blind(t):
    for p in ("str:", "ustr:", "hex:", "doc:", "bytes:"):
        if t.startswith(p):
            return p
    return t


def observe(text, lang):
    toks, comments = lang.lex(text)
    w, groups = group_comments(toks, comments)
    return {"toks": w, "plain": toks, "comments": [[blind(t) for t in lang.lex(g, True)[0]] for g in groups]}


def chunks(xs, n):
    """Deal xs into at most n hands."""
    return [xs[i::n] for i in range(min(n, len(xs)))]


def gen(work, module, **c):
    return tlc_eval(work, module, c)


def record(pool, trees, lang, langname, algs, funcs=None, seeds=24, seed=1, cap=64, timeout=60):
    reqs = []
    for i, t in enumerate(trees):
        f = funcs[i] if funcs else []
        reqs.append({"op": "sweep", "lang": langname, "text": json.dumps(lang.to_json(t)), "algs": algs, "functions": f,
                     "seeds": seeds, "seed": seed + i, "cap": cap})
    return reqs, pool.map(reqs, timeout)


def judge(work, module, cases, hands=NCPU):
    """Let TLC judge the cases; returns problems with 'case' rewritten to the index in cases."""
    order = sorted(range(len(cases)), key=lambda j: -cases[j].get("weight", 0))
    parts = chunks(order, hands)

    def one(ix):
        inp = work.path("in%s%d.json" % (module, ix[0]))
        with open(inp, "w") as f:
            json.dump([cases[j] for j in ix], f)
        out = work.path("out%s%d.json" % (module, ix[0]))
        _, _, st = tlc(work, module, {"In": inp, "Out": out}, "SPECIFICATION Spec\nPOSTCONDITION Finished\nCHECK_DEADLOCK FALSE", timeout=880)
        r = json.load(open(out))
        for p in r["problems"]:
            p["case"] = ix[p["case"] - 1]
        os.unlink(inp)
        os.unlink(out)
        return r, st
    res = parallel(one, parts)
    probs = [p for r, _ in res for p in r["problems"]]
    return probs, {"states": sum(s["states"] for _, s in res), "transitions": sum(r["steps"] for r, _ in res),
                   "sure": sum(r.get("sure", 0) for r, _ in res)}


class Lang:
    def __init__(self, name, mod, judge, gen, algs):
        self.name, self.mod, self.judge, self.gen, self.algs = name, mod, judge, gen, algs


SOL = Lang("Solidity", sol, "SolTrace", "GenSol", SOL_ALGS)
VY = Lang("Vyper", vy, "VyTrace", "GenVy", SOL_ALGS[:14])


def window(got, want):
    j = next((j for j in range(min(len(got), len(want))) if got[j] != want[j]), min(len(got), len(want)))
    return "at token %d: got ...%s... where ...%s... was expected" % (
        j, " ".join(got[max(0, j - 6):j + 8]), " ".join(want[max(0, j - 6):j + 8]))


def describe(p):
    f, k = p["info"], p["kind"]
    if k == "print":
        return "printed program differs " + window(f["got"], f["want"])
    if k == "nomatch":
        return "%s: a mutant that the algorithm does not describe, %s" % (p["alg"], window(f["got"], f["want"]) if f["want"] else " ".join(f["got"])[:300])
    if k == "count":
        return "%s: %d places offered, the program has %d" % (p["alg"], f["got"], f["want"])
    if k == "comment-place":
        return "%s: comment misplaced, %s" % (p["alg"], window(f["got"], f["want"]))
    if k == "comment-text":
        return "%s: comment %s does not quote %s" % (p["alg"], json.dumps(f["got"])[:300], json.dumps(f["want"])[:300])
    if k == "uncovered":
        return "%s: no index mutates the place %s" % (p["alg"], json.dumps(f["site"]))
    if k == "twice":
        return "%s: indexes %d and %d mutate the same place" % (p["alg"], p["idx"] - 1, f["other"] - 1)
    if k == "reach":
        return "%s: alternatives %s never occur at index %d" % (p["alg"], json.dumps(f["missing"]), p["idx"] - 1)
    return "%s: %s %s" % (p["alg"], k, json.dumps(f)[:300])


def conform(rep, work, pool, lang, trees, algs, want, funcs=None, seeds=12, full=False, seed=1, timeout=120, cap=64):
    """Record the tool on the trees and judge; report the problems that want(problem) selects."""
    t0 = time.time()
    m = lang.mod
    reqs, reps = record(pool, trees, m, lang.name, algs, funcs, seeds, seed, cap, timeout)
    t1 = time.time()
    cases, src, nm = [], [], 0
    for i, (t, r) in enumerate(zip(trees, reps)):
        def crash(what, alg=""):
            p = {"kind": "crash", "alg": alg, "idx": 0, "info": what}
            if want(p):
                rep.violation("%s %s: %s" % (lang.name, alg, what), {"request": reqs[i], "what": what})
        if "ok" not in r:
            crash(json.dumps(r)[:400])
            continue
        o = r["ok"]
        table = {}
        for al in algs:
            idx = []
            for n, it in enumerate(o["algs"].get(al, [])):
                for q in it["problems"]:
                    crash("index %d: %s" % (n, json.dumps(q)), al)
                idx.append([observe(x, m) for x in it["texts"]])
                nm += len(it["texts"])
            table[al] = {"count": o["counts"].get(al, 0), "idx": idx}
        toks, comments = m.lex(o["original"])
        cases.append({"tree": m.for_spec(t), "funcs": funcs[i] if funcs else [], "full": full, "original": toks,
                      "algs": table, "weight": sum(len(x["toks"]) for a in table.values() for ix in a["idx"] for x in ix) + len(toks)})
        src.append(i)
    t2 = time.time()
    probs, st = judge(work, lang.judge, cases) if cases else ([], {"states": 0, "transitions": 0})
    seen = {}
    for p in probs:
        if not want(p):
            continue
        k = (p["kind"], p["alg"])
        seen[k] = seen.get(k, 0) + 1
        if seen[k] > 2:
            continue
        i = src[p["case"]]
        rep.violation(lang.name + " " + describe(p), {"request": reqs[i], "problem": p, "original": reps[i]["ok"]["original"]})
    rep.add(states=st["states"], transitions=st["transitions"], traces_validated_against_impl=len(cases), mutants=nm)
    rep.sample({"language": lang.name, "program": reps[src[0]]["ok"]["original"][:400], "algorithms": algs,
                "functions": funcs[src[0]] if funcs else []} if src else {})
    rep.time(record=t1 - t0, lex=t2 - t1, judge=time.time() - t2)
    return probs
