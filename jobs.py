"""Which jobs decide which property."""

ASSUME = [
    "TLC, the TLA+ standard and community modules, CPython, numpy and scipy are trusted",
    "recorders observe the code only through its documented interface",
    "within the bounds of the models and for the recorded cases of this seed",
]


NOTES = {}

# sensitivity runs of the model of shared memory: flaw -> invariant that must break
HEAP_FLAWS = {"reload": "Learned", "callerscores": "Refines", "callerfeatures": "Refines", "stale": "Refines",
              "numbering": "Refines", "ftrows": "Refines", "table": "Refines", "pair1": "Refines",
              "pair2": "Refines"}

SPLIT_FLAWS = {"ceil": "Even", "remainder": "Even", "blocks": "Woven", "sharedrng": "Repeatable",
               "floor": "Sizable", "rest": "Sizable", "alltrain": "Sizable", "workarray": "Kept"}

SCORE_FLAWS = {"cached": "DigitIsNearest", "less": "Threshold", "offset": "DigitIsNearest", "floor": "DigitIsNearest",
               "closed": "CountedOnce"}

METRIC_FLAWS = {"signed": "AbsoluteError", "pooled": "FoldMeans", "notreset": "Begins", "firstrank": "Curve",
                "steps": "Curve"}

FOLD_FLAWS = {"nodraw": "Numbered", "leak": "NoLeak", "ranon": "Independent", "unaligned": "Aligned",
              "position": "Numbered", "keepfirst": "Union", "renumber": "Independent"}

LATENT_FLAWS = {"smoothclasses": "ProperAlways", "once": "ProperAlways", "firstlevel": "Steps"}

TREE_FLAWS = {"falsy": "Kept", "inlist": "AllPlain", "flatarray": "AllPlain", "nested": "AllPlain", "singlelast": "Kept"}

READ_FLAWS = {"hash": "Complete", "torn": "Refused", "header": "Complete", "lastline": "Complete", "repeated": "Complete",
              "untilblank": "Complete", "tableorder": "Joined"}

WORK_FLAWS = {"append": "LoadedIsConverted", "keeptable": "LoadedIsConverted", "cutoriginal": "LoadedIsConverted",
              "samefile": "Undisturbed", "cutinplace": "Undisturbed"}


def trace(suite, module, *args, **k):
    return dict(kind="trace", suite=suite, module=module, args=list(args), **k)


def mc(module, cfg, expect="ok", **k):
    return dict(kind="mc", module=module, cfg=cfg, expect=expect, **k)


def replay(gen, cfg, suite, module, *args, **k):
    return dict(kind="replay", gen=(gen, cfg), suite=suite, module=module, args=list(args), **k)


def jobs(prop, tier):
    T = tier == "thorough"
    data = trace("heap", "HeapTrace", "data", 4000 if T else 600)
    rec = trace("heap", "HeapTrace", "rec", 2500 if T else 500)
    scores = trace("scores", "ScoreTrace", 12000 if T else 2500)
    metrics = trace("metrics", "MetricsTrace", 12000 if T else 2500)
    splits = trace("splits", "SplitTrace", 12000 if T else 3000)
    fac = lambda m: trace("factor", "FactorTrace", m, 8000 if T else 700)
    plsa = trace("plsa", "LatentTrace", 4000 if T else 260)
    facs = trace("factor", "FactorTrace", "all", 6000 if T else 300)
    plsas = trace("plsa", "LatentTrace", 3000 if T else 150)
    big = trace("big", "BigTrace", 60 if T else 5)
    # behaviours of the specification of containers over shared memory
    hist = replay("Heap", "Heap_gen.cfg", "history", "HeapTrace", limit=None if T else 1200)
    walk = replay("Heap", "Heap_walk.cfg", "history", "HeapTrace", walks=2000 if T else 60, depth=11)
    heap = mc("Heap", "Heap.cfg" if T else "Heap_quick.cfg", timeout=840)
    flaw = lambda f: mc("Heap", "Heap_%s.cfg" % f, expect=HEAP_FLAWS[f])
    safe = [mc("Heap", "Heap_single%d.cfg" % i) for i in (1, 2, 3)] if T else []
    smc = lambda *a: [mc("SplitRun", "SplitRun_%s.cfg" % x) for x in a]
    sflaw = lambda *a: [mc("SplitRun", "SplitRun_%s.cfg" % x, expect=SPLIT_FLAWS[x]) for x in a]
    scmc = lambda five: [mc("ScoreRun", "ScoreRun_deep.cfg" if T else "ScoreRun_quick.cfg", timeout=840)] + [
        mc("ScoreRun", "ScoreRun_%s.cfg" % x, expect=SCORE_FLAWS[x])
        for x in (("cached", "less", "offset", "floor") if five else ("closed", "cached", "floor"))]
    schist = replay("ScoreRun", "ScoreRun_gen.cfg", "scores", "ScoreTrace", limit=None if T else 800)
    mmc = lambda q, d, fl, gen, case: [mc("MetricRun", "MetricRun_%s.cfg" % x) for x in q + (d if T else [])] + [
        mc("MetricRun", "MetricRun_%s.cfg" % x, expect=METRIC_FLAWS[x]) for x in fl] + [
        replay("MetricRun", "MetricRun_%s.cfg" % gen, "metrics", "MetricsTrace", case)]
    fmc = lambda *fl: [mc("FoldRun", "FoldRun_deep.cfg" if T else "FoldRun_quick.cfg")] + [
        mc("FoldRun", "FoldRun_%s.cfg" % x, expect=FOLD_FLAWS[x]) for x in fl]
    num = mc("NumCheck", "NumCheck.cfg")
    facrun = lambda m, *fl: [mc("FactorRun", "FactorRun_deep.cfg" if T else "FactorRun_quick.cfg", timeout=840)] + [
        mc("FactorRun", "FactorRun_%s.cfg" % x, expect="Accumulated") for x in fl] + [
        replay("FactorRun", "FactorRun_gen.cfg", "factor", "FactorTrace", m, limit=None if T else 200), fac(m)]
    latrun = [mc("LatentRun", "LatentRun_%s.cfg" % x, timeout=840)
              for x in (("deep", "deepnoal") if T else ("quick", "noal"))] + [
        mc("LatentRun", "LatentRun_%s.cfg" % x, expect=LATENT_FLAWS[x]) for x in sorted(LATENT_FLAWS)] + [
        replay("LatentRun", "LatentRun_gen.cfg", "plsa", "LatentTrace", 1, limit=None if T else 100)]
    load = trace("files", "FilesTrace", "load", 12000 if T else 1500)
    conv = trace("files", "FilesTrace", "conv", 8000 if T else 800)
    pipe = lambda m, q, t: trace("exp", "PipelineTrace", m, t if T else q)
    table = {
        "C22": fmc("leak", "unaligned") + [pipe("exp", 500, 5000)],
        "C23": fmc("nodraw", "ranon", "position", "keepfirst", "renumber")
               + [replay("FoldRun", "FoldRun_gen2.cfg", "exp", "PipelineTrace", "folds"),
                  replay("FoldRun", "FoldRun_gen3.cfg", "exp", "PipelineTrace", "folds", limit=None if T else 120),
                  pipe("folds", 200, 2500)],
        "C24": [mc("TreeRun", "TreeRun_deep.cfg" if T else "TreeRun_quick.cfg")] + [
            mc("TreeRun", "TreeRun_%s.cfg" % x, expect=TREE_FLAWS[x]) for x in sorted(TREE_FLAWS)] + [
            replay("TreeRun", "TreeRun_gen.cfg", "exp", "PipelineTrace", "stat", limit=None if T else 1000),
            pipe("stat", 2500, 20000)],
        "C20": [mc("ReadRun", "ReadRun_deep.cfg" if T else "ReadRun_quick.cfg")] + [
            mc("ReadRun", "ReadRun_%s.cfg" % x, expect=READ_FLAWS[x]) for x in sorted(READ_FLAWS)] + [
            replay("ReadRun", "ReadRun_gen.cfg", "files", "FilesTrace", "load", 1, limit=None if T else 500), load, big],
        "C21": [mc("WorkRun", "WorkRun_deep.cfg" if T else "WorkRun_quick.cfg")] + [
            mc("WorkRun", "WorkRun_%s.cfg" % x, expect=WORK_FLAWS[x]) for x in sorted(WORK_FLAWS)] + [
            replay("WorkRun", "WorkRun_gen.cfg", "files", "FilesTrace", "conv", 1),
            replay("WorkRun", "WorkRun_walk.cfg", "files", "FilesTrace", "conv", 1, walks=600 if T else 60, depth=13), conv],
        "C13": [num] + latrun + [plsa],
        "C10": [num] + facrun("pmf", "lastevent", "qq"), "C11": [num] + facrun("log", "lastevent", "regmean"),
        "C12": [num] + facrun("imp", "lastevent", "qq"),
        "C18": smc("kfold", "kshuf") + (smc("kfoldbig", "kshufbig") if T else []) + sflaw("ceil", "remainder", "blocks", "sharedrng")
               + [replay("SplitRun", "SplitRun_gen.cfg", "splits", "SplitTrace"), splits],
        "C19": smc("shuf", "order") + (smc("shufbig") if T else []) + sflaw("floor", "rest", "alltrain", "workarray")
               + [replay("SplitRun", "SplitRun_genshuf.cfg", "splits", "SplitTrace", limit=None if T else 3000), splits],
        "C05": scmc(True) + [schist, scores, data, big], "C15": scmc(False) + [schist, scores],
        "C14": mmc(["rating"], ["deeprating"], ["signed"], "gensp", "rating") + [metrics],
        "C16": mmc(["quick"], ["deep"], ["firstrank", "steps"], "genif", "finder") + [metrics],
        "C17": mmc(["rating"], ["deeprating"], ["pooled", "notreset"], "genmean", "mean") + [metrics],
        "C01": [heap, flaw("numbering"), hist, data, big],
        "C02": [walk, data, rec, big],
        "C03": [heap, flaw("numbering"), flaw("pair2"), hist, data, big],
        "C04": [heap, flaw("stale"), flaw("ftrows"), hist, data, big],
        "C06": [heap, flaw("reload"), flaw("callerscores"), flaw("callerfeatures"), flaw("table"),
                flaw("pair1"), flaw("pair2")] + safe + [hist, walk, data, rec],
        "C07": [walk, rec, facs, plsas, big], "C08": [walk, rec, facs, plsas, big], "C09": [walk, rec],
    }
    return table[prop]
