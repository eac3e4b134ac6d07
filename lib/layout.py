"""The printer's layout, judged against the Layout specification."""
import json
import re
import time

from common import *
import conform as cf

WIDE = {"a": "ä", "e": "é", "o": "ω", "n": "中", "s": "😀"}


def widen(x):
    return "".join(WIDE.get(c, c) for c in x)


def check_layout(ctx, n, full, seed=0):
    t0 = time.time()
    cs = cf.gen(ctx.work, "GenLayout", Seed=ctx.seed * 43 + seed, Count=n, Full=full)
    # a part of the cases again with characters of several bytes: widths are then not exact
    for c in cs[-(n // 3):] if n >= 3 else []:
        cs.append(dict(c, exact=False, ops=[dict(o, s=widen(o["s"])) if o["op"] not in ("inc", "dec") else o for o in c["ops"]]))
    reqs = [{"op": "layout", "tab": c["tab"], "page": c["page"], "ops": c["ops"]} for c in cs]
    reps = ctx.pool.map(reqs, 20)
    t1 = time.time()
    cases, src = [], []
    bad = 0
    for k, (c, r) in enumerate(zip(cs, reps)):
        if "ok" not in r:
            bad += 1
            if bad <= 3:
                ctx.rep.violation("the printer does not finish: %s" % json.dumps(r)[:300], {"request": reqs[k]})
            continue
        cases.append(dict(c, text=r["ok"]["text"]))
        src.append(k)
    probs, st = cf.judge(ctx.work, "LayoutTrace", cases)
    seen = {}
    for p in probs:
        w = re.sub(r" \(operation .*", "", p["what"])
        seen[w] = seen.get(w, 0) + 1
        if seen[w] <= 2:
            ctx.rep.violation("%s: %s" % (p["what"], json.dumps(p["info"])[:600]), {"request": reqs[src[p["case"]]], "problem": p})
    ctx.rep.add(states=st["states"], transitions=st["transitions"], traces_validated_against_impl=len(cases), operations=sum(len(c["ops"]) for c in cases))
    ctx.rep.sample({"ops": cs[-1]["ops"][:6], "page": cs[-1]["page"], "text": reps[-1].get("ok", {}).get("text", "")[:300]})
    ctx.rep.time(run=t1 - t0, judge=time.time() - t1)
