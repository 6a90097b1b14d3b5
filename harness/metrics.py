"""Recorder of metrics (spec/MetricsTrace.tla)."""
import contextlib
import io
import json
import os
import pickle
import sys
import numpy as np
from common import *  # noqa


def frozen(a):
    if isinstance(a, np.ndarray):
        return (a.dtype.str, a.shape, a.tolist())
    return a


def build():
    from kamrecsys import metrics as M
    from kamrecsys.metrics import (mean_absolute_error, mean_squared_error, score_predictor_report,
                                   score_predictor_statistics, item_finder_report, item_finder_statistics,
                                   variance_with_gamma_prior, statistics_mean)
    from kamrecsys.utils import is_binary_score
    R0 = rng_for("metrics")

    def numeric(R, xs, E, forms):
        """(value, digits of precision)"""
        v = [x / E for x in xs]
        f = R.choice(forms)
        if f == "list":
            return (list(xs) if E == 1 else v), 9
        if f == "f8":
            return np.array(v, dtype=float), 9
        if f == "f4":
            return np.array(v, dtype=np.float32), 4
        if f == "int":
            return np.array(xs, dtype=R.choice([np.int64, np.uint64 if min(xs) >= 0 else np.int64])), 9
        if f == "i4":
            return np.array(xs, dtype=R.choice([np.int32, np.int16])), 4
        if f == "i1":
            return np.array(xs, dtype=np.int8 if min(xs) < 0 else np.uint8), 4
        if f == "bool":
            return np.array(xs, dtype=bool), 4

    def forms_for(xs, E):
        f = ["f8", "f8", "list"]
        if E <= 4:
            f.append("f4")
        if E == 1:
            f += ["int", "i4"]
            if all(-128 <= x < 128 for x in xs):
                f.append("i1")
            if set(xs) <= {0, 1}:
                f += ["bool", "bool"]
        return f

    def quiet(fn):
        err = io.StringIO()
        with contextlib.redirect_stderr(err):
            r = fn()
        return r, err.getvalue()

    def flat(d, pre=""):
        r = {}
        for k, v in d.items():
            if isinstance(v, dict):
                r.update(flat(v, pre + k + "/"))
            else:
                r[pre + k] = v
        return r

    SPR = {"mean absolute error": "mae", "root mean squared error": "rmse", "n_samples": "n", "true/mean": "tm",
           "true/stdev": "ts", "predicted/mean": "pm", "predicted/stdev": "ps"}
    SPS = {"n_samples": "n", "mean absolute error/mean": "mae", "mean absolute error/stdev": "maesd",
           "mean squared error/mean": "mse", "mean squared error/rmse": "rmse", "mean squared error/stdev": "msesd",
           "true/mean": "tm", "true/stdev": "ts", "predicted/mean": "pm", "predicted/stdev": "ps"}
    SKIP = {"score levels", "true/histogram", "true/histogram density", "predicted/histogram",
            "predicted/histogram density"}
    IFR = {"n_samples": "n", "true/mean": "tm", "true/stdev": "ts", "predicted/mean": "pm", "predicted/stdev": "ps",
           "area under the curve": "auc"}

    def observe(who, fn, args, want, names, isif=False):
        o = {"who": who, "want": sorted(want), "fields": []}
        before = pickle.dumps([frozen(a) for a in args])
        out, r = call(fn)
        o["out"] = out
        o["argsok"] = before == pickle.dumps([frozen(a) for a in args])
        if isif:
            o["hasauc"], o["auc"] = False, bigint(0)
        if out == "ok":
            try:
                for k, v in r.items():
                    if k in SKIP:
                        continue
                    o["fields"].append(k)
                    if k in names:
                        nm = names[k]
                        if nm == "n":
                            o["n"] = scaled(v, 1)
                        else:
                            o[nm] = big(v)
                        if nm == "auc":
                            o["hasauc"] = True
                o["fields"].sort()
                if isif and "area under the curve" in o["fields"]:
                    o["fields"].remove("area under the curve")
            except Exception as e:
                o["out"] = "exc:" + type(e).__name__
        return o

    def rating_case(R, given=None):
        E = R.choice([1, 1, 2, 4, 10, 1000])
        m = R.choice([1, 2, 3, 5, 8, 20, 50]) if R.random() > .015 else R.choice([200, 300, 1100])
        lo, hi = R.choice([(1, 5), (0, 1), (-5, 5), (0, 100), (1, 2), (0, 1000 if E == 1 else 300)])
        t = [R.randint(lo * E, hi * E) for _ in range(m)]
        p = [R.randint(lo * E, hi * E) for _ in range(m)]
        q = R.random()
        if q < .1:
            p = list(t)
        elif q < .2:
            p = [x + 3 for x in t]
        elif q < .3:
            t = [t[0]] * m
        if R.random() < .3:
            o = list(range(m))
            R.shuffle(o)
            t, p = [t[i] for i in o], [p[i] for i in o]
        if given:
            # a behaviour of spec/MetricRun.tla
            t, p = given
            m = len(t)
            lo, hi = 0, 5
            if R.random() < .3:
                sh = R.choice([1, -3, 100])
                t, p, lo, hi = [x + sh for x in t], [x + sh for x in p], lo + sh, hi + sh
        # errors, and sometimes scores, that are much larger than their spread
        off = 0
        if R.random() < .12 and not given:
            off = R.choice([10 ** 4, 10 ** 6, 10 ** 6, -10 ** 6])
            E = min(E, 10)
            t, p = [x % (100 * E) for x in t], [x % (100 * E) + off * E for x in p]
            if R.random() < .3:
                t = [x + off * E for x in t]
        ta, d1 = numeric(R, t, E, forms_for(t, E) if not off else ["f8", "f8", "list"])
        pa, d2 = numeric(R, p, E, forms_for(p, E) if not off else ["f8", "f8", "list"])
        if off:
            d1 = 5
        rep = R.choice([300, 3000, 70000 // m + 1, 200000 // m + 1]) if R.random() < .06 and not off else 1
        if rep > 1:
            # the same samples many times over
            ta, pa = np.tile(ta, rep), np.tile(pa, rep)
            d1 = min(d1, 7)
        s = {"op": "metrics", "tag": "C14", "t": t, "p": p, "E": E, "rep": rep, "prec": min(d1, d2), "obs": []}

        def mae():
            a, b = mean_absolute_error(ta, pa)
            return {"mean": a, "sd": b}

        def mse():
            a, b, c = mean_squared_error(ta, pa)
            return {"rmse": a, "mean": b, "sd": c}

        def rep(disp):
            def f():
                r, err = quiet(lambda: score_predictor_report(ta, pa, disp=disp))
                if disp:
                    r2 = flat(json.loads(err))
                    if set(r2) != set(flat(r)):
                        return {"printed report differs": 0}
                    return r2
                if err.strip():
                    return {"printed although disp is False": 0}
                return flat(r)
            return f
        dom = (lo, hi, 1) if not off else (0, 5, 1)
        s["obs"] = [
            observe("mean_absolute_error", mae, [ta, pa], ["mean", "sd"], {"mean": "mae", "sd": "maesd"}),
            observe("mean_squared_error", mse, [ta, pa], ["mean", "sd", "rmse"], {"mean": "mse", "sd": "msesd", "rmse": "rmse"}),
            observe("report", rep(False), [ta, pa], SPR, SPR),
            observe("statistics", lambda: flat(score_predictor_statistics(ta, pa, score_domain=dom)), [ta, pa], SPS, SPS)]
        if R.random() < .5:
            s["obs"].append(observe("displayed report", rep(True), [ta, pa], SPR, SPR))
        return s

    def finder_case(R, given=None):
        m = R.choice([1, 2, 3, 5, 8, 20, 40])
        E = R.choice([1, 10, 4, 100])
        q = R.random()
        t = [R.randint(0, 1) for _ in range(m)]
        if R.random() < .015:
            # very few of one kind
            m = R.choice([300, 1200, 2500])
            few = R.randint(0, 1)
            t = [1 - few] * m
            for _ in range(R.choice([1, 1, 2])):
                t[R.randrange(m)] = few
        if q < .1:
            t = [t[0]] * m
        rng = R.choice([1, 2, 5, 100])
        p = [R.randint(-rng if R.random() < .3 else 0, rng) for _ in range(m)]
        if q > .9:
            p = [x * E for x in t]
        if given:
            t, p = given
            m = len(t)
            k = R.choice([1, 1, 3, -1, 1000]) if E == 1 else R.choice([1, -2])
            p = [x * k for x in p]
        elif R.random() < .1:
            # predictions that nearly coincide
            E = 10 ** 8
            near = R.choice([0, E // 2, E, 7 * E])
            p = [near + R.randint(0, R.choice([1, 3, 20])) for _ in range(m)]
        ta, d1 = numeric(R, t, 1, ["int", "f8", "bool", "i1", "i4", "f4", "list"])
        rank = None
        if not given and R.random() < .12:
            # predictions that differ by less than any unit: at a distance from
            # zero neighbouring floats, around zero as small as 10^-300
            rank = [R.randint(0, R.choice([1, 3, 20])) for _ in range(m)]
            near, tiny = R.choice([(0, 1e-12), (0, 1e-15), (0, -1e-14), (0, 1e-300), (E, 2. ** -52), (E // 2, 1e-14)])
            p = [near] * m
            if tiny < 0:
                rank = [-x for x in rank]
            pa, d2 = np.array([near / E + x * abs(tiny) for x in rank]), 9
            if R.random() < .2:
                pa = pa.tolist()
        else:
            pa, d2 = numeric(R, p, E, forms_for(p, E))
        rep = R.choice([300, 3000, 70000 // m + 1, 200000 // m + 1]) if R.random() < .04 else 1
        if rep > 1:
            ta, pa = np.tile(ta, rep), np.tile(pa, rep)
            d1 = min(d1, 7 if d1 > 4 else 3)
            d2 = min(d2, 7 if d2 > 4 else 3)
        s = {"op": "metrics", "rep": rep, "tag": "C16", "t": [x * E for x in t], "t01": t, "p": p, "E": E, "prec": min(d1, d2), "obs": []}
        if rank:
            s["rank"] = rank

        def rep(disp):
            def f():
                r, err = quiet(lambda: item_finder_report(ta, pa, disp=disp))
                if disp:
                    r2 = flat(json.loads(err))
                    if set(r2) != set(flat(r)):
                        return {"printed report differs": 0}
                    return r2
                if err.strip():
                    return {"printed although disp is False": 0}
                return flat(r)
            return f
        want = [k for k in IFR if k != "area under the curve"]
        s["obs"] = [observe("report", rep(False), [ta, pa], want, IFR, True),
                    observe("statistics", lambda: flat(item_finder_statistics(ta, pa)), [ta, pa], want, IFR, True)]
        if R.random() < .5:
            s["obs"].append(observe("displayed report", rep(True), [ta, pa], want, IFR, True))
        return s

    def refuse_case(R):
        m = R.choice([1, 2, 5])
        t = [float(R.randint(0, 1)) for _ in range(m)]
        p = [R.random() for _ in range(m)]
        why = R.choice(["different lengths", "nan", "inf", "-inf", "not binary"])
        i = R.randrange(m)
        who = R.randint(0, 1)
        if why == "different lengths":
            (t if who else p).append(0.5 if not who else 1.0)
        elif why != "not binary":
            (t if who else p)[i] = float(why)
        else:
            t[i] = R.choice([2.0, 0.5, -1.0])
        t, p = np.array(t), np.array(p)
        fif = [("item_finder_report", lambda: item_finder_report(t, p, disp=False)),
               ("item_finder_statistics", lambda: item_finder_statistics(t, p))]
        fsp = [("mean_absolute_error", lambda: mean_absolute_error(t, p)),
               ("mean_squared_error", lambda: mean_squared_error(t, p)),
               ("score_predictor_report", lambda: score_predictor_report(t, p, disp=False)),
               ("score_predictor_statistics", lambda: score_predictor_statistics(t, p, score_domain=(0, 1, .5)))]
        isif = why == "not binary" or R.random() < .4
        return {"op": "refuse", "tag": "C16" if isif else "C14", "why": why,
                "outs": [[w, call(f)[0]] for w, f in (fif if isif else fsp)]}

    def binary_case(R):
        pool = R.choice([[0, 2], [0, 2], [0], [2], [0, 2, 4], [0, 1, 2], [-2, 0, 2], [4], [1], [2, 4], [0, 2, 99]])
        x = [R.choice(pool) for _ in range(R.choice([1, 2, 3, 10, 40]))]
        v = [float("nan") if a == 99 else a / 2 for a in x]
        if all(a % 2 == 0 for a in x) and 99 not in x:
            w = [a // 2 for a in x]
            f = [np.array(w), np.array(w, dtype=np.int8), np.array(w, dtype=float), w, v, np.array(v, dtype=np.float32)]
            if set(x) <= {0, 2}:
                f += [np.array(w, dtype=bool)]
            a = R.choice(f)
        else:
            a = R.choice([v, np.array(v)])
        s = {"op": "binary", "x": x, "uniform": False, "mixed": False}

        def fn():
            s["uniform"] = bool(is_binary_score(a)) if R.random() < .5 else bool(is_binary_score(a, allow_uniform=True))
            s["mixed"] = bool(is_binary_score(a, allow_uniform=False))
        s["out"] = call(fn)[0]
        return s

    def var_case(R):
        E = R.choice([1, 2, 10])
        m = R.choice([0, 1, 2, 5, 20])
        hi = R.choice([1, 5, 100])
        x = [R.randint(-hi, hi) for _ in range(m)]
        if R.random() < .2:
            x = [x[0]] * m if x else x
        nonf = R.random() < .35
        v = [z / E for z in x]
        if nonf:
            for _ in range(R.randint(1, 3)):
                v.insert(R.randint(0, len(v)), R.choice([float("nan"), float("inf"), float("-inf")]))
        force = R.random() < .4
        full = R.random() < .5
        a, b = R.choice([(1e-8, 1e-8), (1e-8, 1e-8), (0.5, 2.0), (1, 3), (0.001, 1e-6)])
        arr = np.array(v, dtype=float)
        prec = 10
        q = R.random()
        if q < .2:
            given = list(v)
        elif q < .35 and len(v) % 2 == 0:
            given = arr.reshape(2, -1)
        elif q < .45 and E == 1 and not nonf:
            given = np.array(x, dtype=R.choice([int, np.int8]))
        elif q < .5:
            given = arr.reshape(1, -1)
        else:
            given = arr
        s = {"op": "var", "x": x, "E": E, "nonfinite": nonf, "force": force, "full": full, "a": big(a), "b": big(b),
             "prec": prec, "var": bigint(0), "pos": False, "cnt": 0}
        before = pickle.dumps(frozen(given))
        kw = {}
        if (a, b) != (1e-8, 1e-8):
            kw = dict(a=a, b=b)
        if force or R.random() < .3:
            kw["force_all_finite"] = force
        if full or R.random() < .3:
            kw["full_output"] = full

        def fn():
            r = variance_with_gamma_prior(given, **kw)
            if full:
                r, s["cnt"] = r[0], int(r[1])
            s["var"] = big(r)
            s["pos"] = bool(r > 0)
        s["out"] = call(fn)[0]
        s["argsok"] = before == pickle.dumps(frozen(given))
        return s

    def mean_case(R, given=None):
        K = R.choice([1, 2, 3, 5, 11])
        kind = R.choice(["one", "two", "vec"])
        na = 1 if kind == "one" else 2
        folds = []
        for _ in range(K):
            m = R.choice([1, 2, 4])
            folds.append([[R.randint(-20, 20) for _ in range(m)] for _ in range(na)])
        if given:
            kind = R.choice(["two", "vec"])
            K, na, folds = len(given), 2, [[d["t"], d["p"]] for d in given]
        if kind == "one":
            fun = lambda a: float(np.sum(a))  # noqa
        elif kind == "two":
            fun = lambda a, b: float(np.sum(a) * np.sum(b) - 2 * np.sum(b))  # noqa
        else:
            ty = R.choice([list, tuple, np.array])
            fun = lambda a, b: ty([float(np.sum(a)), float(np.sum(b)), float(len(a)), float(np.sum(a) * len(a) * np.sum(b))])  # noqa
        form = R.choice(["dict", "list", "tuple"])
        args = []
        for j in range(na):
            col = [np.array(f[j]) for f in folds]
            if form == "dict":
                keys = ["k%d" % i for i in range(K)] if R.random() < .5 else list(range(K))
                order = list(range(K))
                R.shuffle(order)
                if j == 0:
                    keys0 = keys
                args.append({keys0[i]: col[i] for i in order})
            else:
                args.append(col if form == "list" else tuple(col))
        gap = na == 2 and given is None and R.random() < .15
        if gap:                   # an argument lacks a fold
            if form == "dict":
                del args[1][R.choice(list(args[1]))]
            else:
                args[1] = args[1][:-1]
            fun = lambda *a: float(sum(np.sum(x) for x in a))  # noqa
        s = {"op": "mean", "gap": gap, "kind": kind, "folds": folds, "res": [], "shapeok": False, "prec": 9}
        before = pickle.dumps([[(k, frozen(v)) for k, v in (a.items() if isinstance(a, dict) else enumerate(a))] for a in args])

        def fn():
            r = np.asarray(statistics_mean(fun, *args), dtype=float)
            s["shapeok"] = r.shape == (() if kind != "vec" else (4,))
            s["res"] = [big(v) for v in np.ravel(r)]
        s["out"] = call(fn)[0]
        s["argsok"] = before == pickle.dumps([[(k, frozen(v)) for k, v in (a.items() if isinstance(a, dict) else enumerate(a))] for a in args])
        return s

    cases = []
    if "HIST_IN" in os.environ:
        case = {"rating": rating_case, "finder": finder_case, "mean": mean_case}[sys.argv[2]]
        with open(os.environ["HIST_IN"]) as f_:
            for h in json.load(f_):
                R = random.Random(R0.random())
                cases.append(case(R, h) if case is mean_case else case(R, (h[0]["t"], h[0]["p"])))
        return cases
    n = int(sys.argv[2])
    for i in range(n):
        R = random.Random(R0.random())
        cases.append(R.choices([rating_case, finder_case, refuse_case, binary_case, var_case, mean_case],
                               [5, 5, 2, 2, 4, 3])[0](R))
    return cases


if __name__ == "__main__":
    main(build)
