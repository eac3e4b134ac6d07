"""What each property's check runs."""
import json
import threading

from common import *
import conform as cf
from conform import SOL, VY, gen
import runs
import sessions
import files
import layout
import inputs
import calls
import names
import printing as prn

OPS = ["ArithmeticBinaryOp", "LogicalBinaryOp", "BitwiseBinaryOp", "BitshiftBinaryOp", "ComparisonBinaryOp", "UnaryOp"]
SWAPS = ["SwapLines", "SwapFunctionArguments", "SwapOperatorArguments"]
REWRITES = ["DeleteStatement", "IfStatement", "Require", "UncheckedBlock", "FunctionCall", "ElimDelegateCall"]
VALUES = ["Integer", "Assignment"]

CHANGE = {"nomatch", "count", "uncovered", "twice", "place", "reach"}


class Ctx:
    def __init__(self, rep, work, tier, seed):
        self.rep, self.work, self.tier, self.seed = rep, work, tier, seed
        self.quick = tier == "quick"
        self._pool = None
        self._cli = None
        self._lock = threading.Lock()

    @property
    def pool(self):
        with self._lock:
            if self._pool is None:
                self._pool = Pool(build_harness())
            return self._pool

    @property
    def cli(self):
        with self._lock:        # built once, before anything uses it
            if self._cli is None:
                self._cli = (build_cli(), build_stub())
            return self._cli

    def n(self, quick, thorough):
        return quick if self.quick else thorough


# ---------------------------------------------------------------------------------------------
def trees(ctx, lang, n, nd=3, d=1, seed=0):
    return [lang.mod.prepare(t) for t in gen(ctx.work, lang.gen + "Main", Seed=ctx.seed * 97 + seed, Count=n, ND=nd, D=d)]


def pairs(ctx, lang, per=8):
    return [lang.mod.prepare(t) for t in gen(ctx.work, lang.gen + "Pairs", Seed=ctx.seed, Per=per)]


def cases(ctx, lang, per=6):
    """Everything an algorithm decides on, in small programs."""
    return [lang.mod.prepare(t) for t in gen(ctx.work, lang.gen + "Cases", Seed=ctx.seed, Per=per)]


def brackets(ctx, lang, per=24):
    """Every kind of operand in every position of every operator."""
    return [lang.mod.prepare(t) for t in gen(ctx.work, lang.gen + "Prec", Seed=ctx.seed, Per=per)]


def conform(ctx, lang, trees, algs, want, **kw):
    return cf.conform(ctx.rep, ctx.work, ctx.pool, lang, trees, algs, want, **kw)


def algs_check(ctx, algs, kinds, want=None):
    """The algorithms on random programs and on systematic combinations."""
    f = want or (lambda p: p["kind"] in kinds)
    for lang in (SOL, VY):
        la = [a for a in lang.algs if a in algs]
        for r in range(ctx.n(1, 12)):
            conform(ctx, lang, trees(ctx, lang, ctx.n(48, 160), seed=r) + trees(ctx, lang, ctx.n(8, 40), nd=2, d=2, seed=40 + r), la, f, seeds=12, seed=1000 * ctx.seed + r)
            if "reach" in kinds:
                conform(ctx, lang, trees(ctx, lang, ctx.n(16, 40), nd=2, seed=50 + r), la, f, seeds=150, full=True, seed=2000 * ctx.seed + r, cap=40)
        conform(ctx, lang, pairs(ctx, lang), la, f, seeds=ctx.n(3, 12), seed=ctx.seed)
        if "reach" in kinds:
            conform(ctx, lang, cases(ctx, lang), la, f, seeds=200, full=True, seed=3000 * ctx.seed, cap=40)
        else:
            conform(ctx, lang, cases(ctx, lang), la, f, seeds=10, seed=3000 * ctx.seed)


def model(ctx, module, constants, cfg, heap="6g"):
    """Model-check a module; a violation there means that the specification itself is wrong: no answer."""
    _, _, st = tlc(ctx.work, module, constants, cfg + "\nCHECK_DEADLOCK FALSE", workers=NCPU, heap=heap, timeout=860)
    ctx.rep.add(states=st["states"], transitions=st["transitions"], model_states=st["states"])


def generator_model(ctx, props, liveness=False):
    cfg = "SPECIFICATION Spec\nINVARIANTS " + props + (" NotStuck\nPROPERTY Ends" if liveness else "")
    sizes = [(2, 2, 2, 2, 1, 1), (1, 2, 2, 2, 2, 2)] if ctx.quick else [(2, 2, 3, 2, 2, 1), (1, 2, 3, 2, 3, 2), (2, 2, 4, 2, 2, 1), (1, 3, 3, 3, 3, 1), (3, 1, 3, 2, 3, 1)]
    for z in sizes:
        model(ctx, "GeneratorMC", dict(zip(["AlgN", "SiteN", "ReqN", "TryN", "ProgN", "AltN"], z)), cfg)


def run_settings(ctx, lang, n, seed=0, validate="no"):
    return gen(ctx.work, "GenRuns", Seed=ctx.seed * 89 + seed, Count=n, Lang=lang.name, Validate=validate)


PLAN = ["P01 the algorithms reported", "P01 the number of mutations", "P01 mutants for a file", "P22"]


def cli(ctx, algs, want, n=None, seed=0, validate="no", few=False):
    """Runs of the tool for single algorithms or several of these, with small and large requests."""
    for lang in (SOL, VY):
        la = [a for a in lang.algs if a in algs]
        for r in range(ctx.n(1, 6)):
            m = n or ctx.n(80, 250)
            ss = run_settings(ctx, lang, m, seed + r, validate)
            for k, s in enumerate(ss):
                s["all"] = False
                s["algs"] = [la[k % len(la)]] if k % 3 else la
                if validate == "no":
                    s["num"] = [500, 60, 3, 12][k % 4]
            runs.generator_runs(ctx, lang, (same if few else trees)(ctx, lang, m, nd=3, seed=seed + r), ss, want)


def P01(ctx):
    """Budget, numbering, report."""
    generator_model(ctx, "BudgetKept Numbered FairEnd", True)
    for lang in (SOL, VY):
        for r in range(ctx.n(1, 8)):
            n = ctx.n(240, 500)
            runs.generator_runs(ctx, lang, trees(ctx, lang, n, nd=3, seed=r), run_settings(ctx, lang, n, 10 + r), {"P01"})
            n = ctx.n(80, 200)
            runs.generator_runs(ctx, lang, trees(ctx, lang, n, nd=3, seed=20 + r), run_settings(ctx, lang, n, 20 + r, "some"), {"P01"})
            runs.generator_runs(ctx, lang, same(ctx, lang, n, seed=r), run_settings(ctx, lang, n, 30 + r), {"P01"})
            m = ctx.n(40, 150)
            ss = run_settings(ctx, lang, m, 120 + r, "hard")
            for k, s in enumerate(ss):
                s["all"] = k % 4 < 3
            runs.generator_runs(ctx, lang, trees(ctx, lang, m, nd=2, seed=120 + r), ss, {"P01"})
            runs.namesakes(ctx, lang, trees(ctx, lang, 3 * m, nd=3, seed=130 + r), run_settings(ctx, lang, m, 130 + r), {"P01"})
            xs = gen(ctx.work, lang.gen + "Funcs", Seed=ctx.seed * 97 + r, Count=n, ND=4, D=1)
            runs.generator_runs(ctx, lang, [lang.mod.prepare(x["tree"]) for x in xs], run_settings(ctx, lang, n, 40 + r), {"P01"},
                                funcs=[x["funcs"] for x in xs])


def P02(ctx):
    """No two mutants alike, none like the original."""
    generator_model(ctx, "Distinct")
    for lang in (SOL, VY):
        for r in range(ctx.n(1, 10)):
            n = ctx.n(300, 600)
            ss = run_settings(ctx, lang, n, r)
            for k, s in enumerate(ss):
                s["num"] = [4, 12, 60][k % 3]
            runs.generator_runs(ctx, lang, same(ctx, lang, n, seed=r), ss, {"P02"})
            n = ctx.n(120, 300)
            runs.generator_runs(ctx, lang, trees(ctx, lang, n, nd=3, seed=r), run_settings(ctx, lang, n, 50 + r), {"P02"})


def P04(ctx):
    """Only what the compiler accepted."""
    generator_model(ctx, "OnlyAccepted FairEnd")
    for lang in (SOL, VY):
        for r in range(ctx.n(1, 8)):
            n = ctx.n(200, 400)
            runs.generator_runs(ctx, lang, trees(ctx, lang, n, nd=3, seed=60 + r), run_settings(ctx, lang, n, 60 + r, "yes"), {"P04"})
            n = ctx.n(40, 100)
            runs.generator_runs(ctx, lang, trees(ctx, lang, n, nd=3, seed=60 + r), run_settings(ctx, lang, n, 70 + r, "no"), {"P04", "P01"}, stubs=True)


def P03(ctx):
    """A run is a function of command, content and seed, file by file."""
    for r in range(ctx.n(1, 8)):
        sessions.check_sessions(ctx, ctx.n(120, 250), "no", seed=10 + r, nfiles=5)
        sessions.check_sessions(ctx, ctx.n(40, 100), "some", seed=20 + r, nfiles=4)
        sessions.check_repeat(ctx, ctx.n(120, 300), seed=r)


def P05(ctx):
    """What a run may change on the disk."""
    for r in range(ctx.n(2, 16)):
        files.check_scenes(ctx, ctx.n(250, 400), seed=r)


def P16(ctx):
    """Layout of tokens and flowing text."""
    model(ctx, "LayoutMC", {"MaxOps": ctx.n(2, 3)}, "  Pages = {1,2,5,7,10,14}\n  Tabs = {1,3}\nSPECIFICATION Spec\nINVARIANTS PrinterAccepted Noticed LossNoticed")
    layout.check_layout(ctx, ctx.n(3000, 6000), ctx.n(3, 4))
    for r in range(ctx.n(0, 10)):
        layout.check_layout(ctx, 6000, 0, seed=1 + r)


def P17(ctx):
    """Command line and configurations combine."""
    model(ctx, "SettingsMC", {"MaxInputs": ctx.n(2, 3)}, "SPECIFICATION Spec\nINVARIANTS Complete NoLeak Governs RoundTrip")
    for r in range(ctx.n(1, 8)):
        sessions.check_sessions(ctx, ctx.n(200, 300), "yes", seed=30 + r, nfiles=3)
        sessions.check_sessions(ctx, ctx.n(120, 200), "some", seed=40 + r, nfiles=4)


def P18(ctx):
    """A saved configuration means the run it was saved from."""
    model(ctx, "SettingsMC", {"MaxInputs": 2}, "SPECIFICATION Spec\nINVARIANTS RoundTrip")
    for r in range(ctx.n(1, 8)):
        sessions.check_saved(ctx, ctx.n(150, 300), "no", seed=50 + r)
        sessions.check_saved(ctx, ctx.n(100, 200), "some", seed=60 + r)


def same(ctx, lang, n, nd=2, d=1, seed=0):
    """Programs with few different names and numbers."""
    return [lang.mod.prepare(t) for t in gen(ctx.work, lang.gen + "Same", Seed=ctx.seed * 97 + seed, Count=n, ND=nd, D=d)]


def P06(ctx):
    for lang in (SOL, VY):
        n = ctx.n(80, 400)
        runs.generator_runs(ctx, lang, trees(ctx, lang, n, nd=3, seed=80), run_settings(ctx, lang, n, 80), {"P06"})
    algs_check(ctx, SOL.algs, {"nomatch"})


def P07(ctx):
    algs_check(ctx, SOL.algs, {"count", "uncovered", "twice", "place"})
    cli(ctx, SOL.algs, PLAN + ["P01 fewer mutants"], seed=200)


def P08(ctx):
    algs_check(ctx, OPS, CHANGE)
    cli(ctx, OPS, PLAN + ["P01 fewer mutants", "P06"], seed=210)


def P09(ctx):
    algs_check(ctx, SWAPS, CHANGE)
    cli(ctx, SWAPS, PLAN + ["P01 fewer mutants", "P06"], seed=220)


def P10(ctx):
    algs_check(ctx, REWRITES, CHANGE)
    cli(ctx, REWRITES, PLAN + ["P01 fewer mutants", "P06"], seed=230)


def P11(ctx):
    algs_check(ctx, VALUES, CHANGE)
    cli(ctx, VALUES, PLAN + ["P01 fewer mutants", "P06"], seed=240)


def P12(ctx):
    for lang in (SOL, VY):
        for r in range(ctx.n(1, 12)):
            xs = gen(ctx.work, lang.gen + "Funcs", Seed=ctx.seed * 97 + r, Count=ctx.n(72, 160), ND=4, D=1)
            conform(ctx, lang, [lang.mod.prepare(x["tree"]) for x in xs], lang.algs,
                    lambda p: p["kind"] in {"count", "uncovered", "nomatch", "place"}, funcs=[x["funcs"] for x in xs], seeds=6, seed=ctx.seed + r)
            n = ctx.n(100, 200)
            xs = gen(ctx.work, lang.gen + "Funcs", Seed=ctx.seed * 97 + 40 + r, Count=n, ND=5, D=1)
            runs.generator_runs(ctx, lang, [lang.mod.prepare(x["tree"]) for x in xs], run_settings(ctx, lang, n, 90 + r),
                                {"P06", "P01 the algorithms reported", "P01 the number of mutations", "P01 mutants for a file"}, funcs=[x["funcs"] for x in xs])


def P13(ctx):
    algs_check(ctx, SOL.algs, {"comment-place", "comment-text"})
    cli(ctx, SOL.algs, ["P13"], seed=250)


def printing(ctx, lang):
    f = lambda p: p["kind"] == "print" or (p["kind"] == "crash" and p["alg"] == "")     # noqa
    for r in range(ctx.n(1, 10)):
        conform(ctx, lang, trees(ctx, lang, ctx.n(200, 400), seed=r, d=2), [], f)
        conform(ctx, lang, trees(ctx, lang, ctx.n(24, 80), seed=200 + r, nd=2, d=3), [], f)
    conform(ctx, lang, pairs(ctx, lang) + cases(ctx, lang) + brackets(ctx, lang), [], f)
    conform(ctx, lang, trees(ctx, lang, ctx.n(24, 60), nd=12, d=2, seed=33), [], f)


def P14(ctx):
    printing(ctx, SOL)
    prn.check_texts(ctx, SOL, trees(ctx, SOL, ctx.n(60, 200), seed=300, nd=4))


def P15(ctx):
    printing(ctx, VY)
    prn.check_texts(ctx, VY, trees(ctx, VY, ctx.n(60, 200), seed=300, nd=4))


def P19(ctx):
    model(ctx, "RecognizeMC", {}, "SPECIFICATION Spec\nINVARIANTS Agrees Quiet Sound Trees\nPROPERTY Ends")
    for r in range(ctx.n(1, 8)):
        inputs.check_inputs(ctx, ctx.n(900, 2500), seed=r)
        inputs.check_damaged(ctx, ctx.n(240, 1200), seed=r)


def P20(ctx):
    """Names listed, described, accepted, selected."""
    model(ctx, "NamesMC", {"Max": ctx.n(4, 5)}, "SPECIFICATION Spec\nINVARIANTS Whole Unaffected Order AllMeansAll Only\nPROPERTY Ends")
    names.check_lists(ctx, [1, 7, 22, 30, 60, 80, 133, 400] if ctx.quick else list(range(1, 140, 3)) + [200, 500])
    for lang in (SOL, VY):
        for r in range(ctx.n(1, 10)):
            names.check_requests(ctx, lang, trees(ctx, lang, ctx.n(160, 300), nd=5, seed=70 + r), seed=r)


def P21(ctx):
    model(ctx, "CallsMC", {"Max": ctx.n(4, 6)}, "SPECIFICATION Spec\nINVARIANTS Quiet Distinct")
    for r in range(ctx.n(1, 10)):
        calls.check_calls(ctx, ctx.n(400, 800), seed=r)


def P22(ctx):
    algs_check(ctx, SOL.algs, {"crash"})
    cli(ctx, SOL.algs, ["P22", "P01 fewer mutants"], seed=260)
    cli(ctx, SOL.algs, ["P22", "P01 fewer mutants"], seed=270, validate="some", few=True)


def P23(ctx):
    """Lists of files to print."""
    model(ctx, "PrintingMC", {"Max": ctx.n(3, 4)}, "SPECIFICATION Spec\nINVARIANTS InOrder NothingLost Safe Sum Steps Whole\nPROPERTY Ends")
    for r in range(ctx.n(1, 10)):
        prn.check_lists(ctx, ctx.n(400, 800), seed=r)
        for lang in (SOL, VY):
            prn.check_texts(ctx, lang, trees(ctx, lang, ctx.n(60, 200), seed=90 + r, nd=4))


ALL = {k: v for k, v in globals().items() if k[0] == "P" and k[1:].isdigit()}


def run(pid, tier, seed):
    if pid not in ALL:
        raise ToolError("no check for " + pid)
    rep = Report(pid, tier, seed)
    with Work() as w:
        ALL[pid](Ctx(rep, w, tier, seed))
    return rep.finish("model_checking")


def replay(v):
    d = v["detail"]
    if "request" in d:
        h = Harness(build_harness())
        print(json.dumps(h.ask(d["request"]), indent=1))
        h.stop()
    else:
        print(json.dumps(d, indent=1))
    return 0
