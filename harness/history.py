"""Drives behaviours of spec/Heap.tla through the code; recorded like heap.py (spec/HeapTrace.tla)."""
import numpy as np
from common import *  # noqa
import common as cm
import heap as H


def feats(R, vals):
    """feature rows that tell the values apart, in one of the supported forms"""
    k = R.randint(0, 3)
    n = len(vals)
    if k == 0:
        return np.array(vals, dtype=int)
    if k == 1:
        return np.array([[v, v + 0.5] for v in vals], dtype=float).reshape(n, 2)
    if k == 2:
        return np.array(["w%d" % v for v in vals], dtype="U8")
    a = np.empty(n, dtype=np.dtype([("age", int), ("name", "U8")]))
    for i, v in enumerate(vals):
        a[i] = (v, "n%d" % v)
    return a


CLS = ["PMF", "LogisticPMF", "ImplicitLogisticPMF", "MultinomialPLSA"]


def play(K, R, hist):
    g = H.Gen(K, R, "rec")
    g.unit = 1
    w = g.w
    w.unit = 1
    shape = hist["shape"]
    nt, cols = shape["nt"], list(shape["cols"])
    ids = {i + 1: x for i, x in enumerate(g.ids.pool[:4])}
    name = {}
    for c in ("a", "b"):
        name[c] = g.new(cls="score", nt=nt, cols=cols)
        if name[c] is None:
            return {"steps": w.steps, "profile": "model", "kind": g.ids.kind}
    rcls = R.choice(CLS)
    for op in hist["ops"]:
        o = op["op"]
        if o == "load":
            t = name[op["n"]]
            c = w.objs[t]
            ev = g.ids.arr([[ids[x] for x in r] for r in op["ev"]], len(cols))
            n = len(op["ev"])
            sc = [((2 * (i + 1)) % 3) + 1 for i in range(n)]
            ef = feats(R, [100 + i for i in range(n)]) if op["hasEf"] else None
            sca = np.array(sc, dtype=R.choice([int, float]))
            dom = R.choice([tuple, list, np.array])([1, 3, 1])
            kw = {} if ef is None else {"event_feature": ef}
            given = [ev, sca, dom] + ([] if ef is None else [ef])
            s = {"op": "set_event", "t": t, "ev": [[tok(x) for x in r] for r in ev],
                 "ef": H.NOV if ef is None else {"has": True, "v": [vtok(x) for x in ef]},
                 "sc": sc, "dom": {"has": True, "v": [1, 3, 1]}}
            w.run(s, lambda: c.set_event(ev, sca, score_domain=dom, **kw), given)
            w.settle(s)
            g.kept += [x for x in given if isinstance(x, (np.ndarray, list)) and len(x)]
        elif o == "filter":
            t = name[op["n"]]
            if not w.last[t]["loaded"]:
                continue
            nm = w.name()
            v = op["mask"]
            s = {"op": "filter", "t": t, "id": nm, "kind": "mask", "v": list(v)}
            m = np.array(v, dtype=bool)
            out, res = w.run(s, lambda: w.objs[t].filter_event(m), [m])
            if out == "ok" and res is not None:
                w.objs[nm] = res
                old = name[op["d"]]
                name[op["d"]] = nm
                w.objs.pop(old, None)
                w.last.pop(old, None)
            elif res is None and out == "ok":
                s["out"] = "none"
            w.settle(s)
            g.kept.append(m)
        elif o == "feature":
            t = name[op["n"]]
            c = w.objs[t]
            tb = [ids[x] for x in op["ids"]]
            f = feats(R, [10 * x + op["v"] for x in op["ids"]])
            ia = g.ids.arr([[x] for x in tb], 1)[:, 0]
            s = {"op": "set_feature", "t": t, "typ": op["t"], "tbl": [[tok(x), vtok(r)] for x, r in zip(ia, f)]}
            w.run(s, lambda: c.set_feature(op["t"], ia, f), [ia, f])
            w.settle(s)
            g.kept += [f, ia]
        elif o == "binarize":
            t = name[op["n"]]
            s = {"op": "binarize", "t": t, "thr": {"has": True, "v": [op["thr"]]}, "unit": 1}
            w.run(s, lambda: w.objs[t].binarize_score(op["thr"]))
            w.settle(s)
        elif o == "fit":
            if "r" not in name:
                name["r"] = g.rec_new(rcls)
            r = w.objs[name["r"]]
            d = name[op["n"]]
            eix = list(op["eix"])
            s = {"op": "fit", "t": name["r"], "data": d, "cls": r.cls, "eix": eix, "hyper": H.hyper_of(r),
                 "seed": r.seed, "nf": r.k, "inj": r.inj, "report": r.report, "unit": 1}
            ea = np.array(eix)
            w.run(s, lambda: r.obj.fit(w.objs[d], event_index=ea), [ea])
            g.kept.append(ea)
            w.settle(s)
        elif o == "predict":
            g.predict()
        elif o == "clobber":
            g.clobber()
    return {"steps": w.steps, "profile": "model", "kind": g.ids.kind}


def build():
    K = H.imports()
    with open(os.environ["HIST_IN"]) as f:
        hists = json.load(f)
    R0 = rng_for("history")
    cases = []
    for h in hists:
        cases.append(play(K, random.Random(R0.random()), h))
    return cases


if __name__ == "__main__":
    main(build)
