"""Names of algorithms: lists shown, requests taken up; judged against Names and Runs."""
import fcntl
import json
import os
import pty
import re
import select
import struct
import subprocess
import termios
import time

from common import *
import conform as cf
import inputs
import runs
from runs import Scene


def on_terminal(sc, args, cols, timeout=60):
    """Run the tool on a terminal with so many columns."""
    m, s = pty.openpty()
    fcntl.ioctl(s, termios.TIOCSWINSZ, struct.pack("HHHH", 50, cols, 0, 0))
    t = termios.tcgetattr(s)
    t[1] &= ~termios.OPOST
    termios.tcsetattr(s, termios.TCSANOW, t)
    p = subprocess.Popen([sc.cli] + args, cwd=sc.path("w"), env=dict(env(), RUST_BACKTRACE="0"), stdout=s, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL)
    os.close(s)
    out, end = b"", time.time() + timeout
    while time.time() < end:
        r, _, _ = select.select([m], [], [], 1)
        if not r:
            continue
        try:
            d = os.read(m, 65536)
        except OSError:
            break
        if not d:
            break
        out += d
    else:
        p.kill()
    os.close(m)
    rc = p.wait()
    p.stderr.close()
    return {"out": out.decode("utf-8", "replace"), "crash": rc not in (0, 1, 2)}


def entries(text):
    """A line that does not start with a space begins the entry of an algorithm."""
    out = []
    for line in text.splitlines():
        if line[:1].strip():
            w = line.split()
            out.append({"name": w[0], "words": w[1:]})
        elif out:
            out[-1]["words"] += line.split()
    for e in out:
        m = re.search(r"Operators: -+ (\[.*?\])(?= Examples:|$)", " ".join(e["words"]))
        e["operators"] = json.loads(m.group(1)) if m else []
    return out


def check_lists(ctx, widths):
    res = []
    with Scene(ctx.work, ctx.cli) as sc:
        for kind, o in (("list", ["--list", "-l"]), ("describe", ["--describe", "-d"])):
            got = [(0, sc.run(["algorithms", o[0]]))] + [(w, on_terminal(sc, ["algorithms", o[1]], w)) for w in widths]
            ref = "".join(got[-1][1]["out"].split())
            for w, r in got:
                narrow = 0 < w < 60
                res.append(({"kind": kind, "width": w, "narrow": narrow, "entries": [] if narrow else entries(r["out"]), "glued": "".join(r["out"].split()),
                             "reference": ref, "crash": r["crash"]}, {"out": r["out"][:3000]}))
    inputs.verdicts(ctx, "NamesTrace", res)
    ctx.rep.add(lists=len(res))


PLAN = ("P01 the algorithms reported", "P01 an algorithm is reported twice", "P01 a mutant of an algorithm", "P01 the number of mutations reported",
        "P06", "P19 no error", "P01 mutants for a file", "P22")


def check_requests(ctx, lang, trees, seed=0):
    """Requests of all kinds; the reports and the mutants are those of the algorithms selected."""
    t0 = time.time()
    reqs = cf.gen(ctx.work, "GenNames", Seed=ctx.seed * 61 + seed, Count=len(trees))

    def one(k):
        q, t = reqs[k], trees[k]
        with Scene(ctx.work, ctx.cli) as sc:
            sc.put("w/in.json", json.dumps(lang.mod.to_json(t)))
            s = {"num": q["num"], "seed": q["seed"], "all": q["all"], "algs": q["names"], "validate": False}
            if q["via"] == "cli":
                a = runs.mutate_args(s, ["in.json"])
            else:
                d = {"language": lang.name, "filenames": ["in.json"]}
                if q["all"]:
                    d["all-mutations"] = True
                if q["names"]:
                    d["mutations"] = q["names"]
                sc.put("w/c.mgnx", json.dumps(d))
                a = runs.mutate_args(dict(s, all=False, algs=[]), ["c.mgnx"])
            r = sc.run(a)
            segs = runs.segments(runs.events(r["out"]))
            c = runs.run_case(t, lang, s, [], segs[0] if segs else [], sc)
            c["kind"] = "unsure"
            if r["crash"]:
                c["error"] = "crash: " + r["err"][:300]
            return c, {"args": a, "request": q, "out": r["out"][:3000]}
    res = parallel(one, list(range(len(trees))))
    t1 = time.time()
    probs, st = runs.judge_runs(ctx, lang, [c for c, _ in res])
    seen = {}
    for p in probs:
        if not p["what"].startswith(PLAN):
            continue
        seen[p["what"]] = seen.get(p["what"], 0) + 1
        if seen[p["what"]] <= 2:
            ctx.rep.violation("%s %s" % (lang.name, runs.describe_run(p)), {"problem": p, "run": res[p["case"]][1], "ast": lang.mod.to_json(trees[p["case"]])})
    ctx.rep.add(states=st["states"], transitions=st["transitions"], traces_validated_against_impl=len(res), mutants=sum(len(c["mutants"]) for c, _ in res))
    ctx.rep.sample({"language": lang.name, "request": res[-1][1]["request"], "report": res[-1][1]["out"][:300]})
    ctx.rep.time(run=t1 - t0, judge=time.time() - t1)
