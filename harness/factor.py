"""Recorder of factor models (spec/FactorTrace.tla)."""
import json
import math
import os
import sys
import numpy as np
from common import *  # noqa


def build():
    only = sys.argv[2]
    from scipy.optimize import OptimizeResult
    from kamrecsys.data import EventData, EventWithScoreData
    from kamrecsys.score_predictor import PMF
    from kamrecsys.item_finder import LogisticPMF, ImplicitLogisticPMF
    R0 = rng_for("factor")
    CLS = {"pmf": PMF, "log": LogisticPMF, "imp": ImplicitLogisticPMF}

    def make_data(R, model, given=None):
        """(container, recorded description, object types of the columns, event_index)"""
        shape = R.choices(["plain", "three", "same", "swap"], [6, 1, 1, 1])[0]
        ot = {"plain": [0, 1], "three": [0, 1, 2], "same": [0, 0], "swap": [1, 0]}[shape]
        ix = R.choice([[0, 1], [0, 1], [1, 0]]) if shape != "three" else R.choice([[0, 1], [0, 2], [2, 1], [1, 2]])
        n = R.choice([1, 2, 3, 4, 6, 8, 12])
        big_ = R.choice([1, 2, 3, 3, 4])
        off = [R.choice([0, 1, 10, -3]) for _ in range(3)]
        strs = R.random() < .3
        ids = [[("%s%d" % ("abc"[t], 7 - j) if strs else off[t] + j * R.choice([1, 1, 2, 5])) for j in range(big_)] for t in range(3)]
        ev = [[R.choice(ids[t]) for t in ot] for _ in range(n)]
        if R.random() < .5:
            ev += [list(R.choice(ev)) for _ in range(R.randint(1, 3))]
        if given:
            # a behaviour of spec/FactorRun.tla
            big_ = 2
            ids = [x[:1] + x[-1:] if len(x) > 1 else x + ["b9" if strs else 99] for x in ids]
            ev = []
            for u, i, _ in given:
                e = [R.choice(ids[t]) for t in ot]
                e[ix[0]], e[ix[1]] = ids[ot[ix[0]]][u - 1], ids[ot[ix[1]]][i - 1]
                ev.append(e)
        n = len(ev)
        kind = "plain" if R.random() < (.6 if model == "imp" else .06) else "scored"
        dom, sc = [0, 8, 8], []
        after = None
        if kind == "scored":
            if model == "pmf":
                dom = R.choice([[8, 40, 8], [0, 8, 8], [4, 40, 4], [-16, 16, 8], [0, 800, 8]])
                lv = list(range(dom[0], dom[1] + 1, dom[2]))
                sc = [R.choice(lv) for _ in range(n)]
            elif given:
                sc = [8 * s for _, _, s in given]
            else:
                q = R.random()
                if q < .75 or n < 2:
                    sc = [R.choice([0, 8]) for _ in range(n)]
                    if n >= 2 and R.random() < .9:
                        sc[0], sc[1] = R.choice([(0, 8), (8, 0)])
                elif q < .85:
                    dom = R.choice([[8, 16, 8], [8, 40, 8], [0, 16, 8], [0, 8, 4], [-8, 8, 8], [0, 8, 2]])
                    lv = list(range(dom[0], dom[1] + 1, dom[2]))
                    sc = [R.choice(lv) for _ in range(n)]
                    if R.random() < .4:
                        sc = [min(lv, key=lambda v: abs(v - R.choice([0, 8]))) for _ in range(n)]
                else:
                    sc = [R.choice([0, 8, R.choice([4, 8, 16, -8, 0])]) for _ in range(n)]
        a = np.array(ev, dtype=object if strs and R.random() < .2 else None)
        if not strs and R.random() < .2:
            a = a.astype(np.int16)
        # data given many times over
        times = R.choice([256, 1024, 4096]) if model != "imp" and kind == "scored" and R.random() < .05 else 1
        a = np.tile(a, (times, 1))
        cls = EventData if kind == "plain" else EventWithScoreData
        nt = 3 if shape == "three" else 2 if shape != "same" else R.choice([1, 2])
        c = cls(n_otypes=nt, event_otypes=np.array(ot) if ot != list(range(nt)) or R.random() < .3 else None)
        rows = list(range(n))
        if kind == "plain":
            c.set_event(a)
        else:
            s = np.array([x / 8 for x in sc])
            if all(x % 8 == 0 for x in sc) and R.random() < .5:
                s = s.astype(R.choice([int, np.int8, np.int32]))
            s = np.tile(s, times)
            if times > 1 and model == "log" and not set(sc) <= {0, 8}:
                # the unsuitable scores are among the last ones only
                s[:-n] = np.arange(len(s) - n) % 2
            d = tuple(x / 8 if x % 8 else x // 8 for x in dom)
            if R.random() < .3:
                d = np.array(d, dtype=float)
            elif R.random() < .3:
                d = list(d)
            c.set_event(a, s, score_domain=d)
            if model != "imp" and times == 1 and R.random() < .15:
                t = R.choice([0, 8, 16, dom[0] + dom[2] // 2])
                c.binarize_score(t / 8)
                sc = [0 if x <= t else 8 for x in sc]
                dom = [0, 8, 8]
        if times == 1 and R.random() < .3:
            m = [R.random() < .7 for _ in range(n)]
            m[R.randrange(n)] = True
            c = c.filter_event(np.array(m))
            rows = [i for i in range(n) if m[i]]
        d = {"kind": kind, "ev": [[tok(x) for x in ev[i]] for i in rows], "sc": [sc[i] for i in rows] if sc else [],
             "dom": dom, "times": times, "levels": int(c.n_score_levels) if kind == "scored" else 0}
        return c, d, ot, ix, ids, strs

    def find_layout(mk, data, ix):
        """position in the vector of parameters of every parameter of the model"""
        seen = {}

        def opt(fun, x0, args=(), jac=None, **kw):
            x = np.arange(1., x0.size + 1)
            seen["n"] = x0.size
            return OptimizeResult(x=x, fun=1., success=True, status=0, message="", nit=1, nfev=1, njev=1)
        m = mk(opt)
        out, _ = call(m.fit, data, event_index=tuple(ix))
        if out != "ok":
            return out, None, m
        nu, ni = [int(x) for x in m.n_objects]
        P = attrs(m, nu, ni)
        if P is None:
            return out, None, m
        L = {k: np.asarray(v) - 1 for k, v in P.items()}
        flat = np.sort(np.concatenate([np.ravel(v) for v in L.values()]))
        if not np.array_equal(flat, np.arange(seen["n"])):
            return out, None, m
        return out, {k: v.astype(int) for k, v in L.items()}, m

    def attrs(m, nu, ni):
        def f():
            return {"mu": np.array(np.ravel(m.mu_)[0], dtype=float), "bu": np.array(m.bu_, dtype=float)[:nu],
                    "bi": np.array(m.bi_, dtype=float)[:ni], "p": np.array(m.p_, dtype=float)[:nu],
                    "q": np.array(m.q_, dtype=float)[:ni]}
        return call(f)[1]

    def rec(P):
        """parameters as bignums"""
        return {"mu": big(float(P["mu"])), "bu": [big(v) for v in P["bu"]], "bi": [big(v) for v in P["bi"]],
                "p": [[big(v) for v in r] for r in P["p"]], "q": [[big(v) for v in r] for r in P["q"]]}

    EMPTY = {"mu": big(0), "bu": [], "bi": [], "p": [], "q": []}

    def view(x, L):
        return {k: x[v] for k, v in L.items()}

    def softplus(x):
        return max(x, 0.) + math.log1p(math.exp(-abs(x)))

    def terms(model, d, ix, users, items):
        rows = [(users.index(e[ix[0]]) if e[ix[0]] in users else -1,
                 items.index(e[ix[1]]) if e[ix[1]] in items else -1) for e in d["ev"]]
        if model == "imp":
            pos = set(rows)
            return [(u, i, 1. if (u, i) in pos else 0.) for u in range(len(users)) for i in range(len(items))]
        return [(u, i, s / 8) for (u, i), s in zip(rows, d["sc"])]

    def witnesses(model, P, T):
        if model == "pmf":
            return []
        w = []
        for u, i, y in T:
            z = float(P["mu"]) + (float(P["bu"][u]) if u >= 0 else 0.) + (float(P["bi"][i]) if i >= 0 else 0.)
            if u >= 0 and i >= 0:
                z += float(np.dot(P["p"][u], P["q"][i]))
            z = max(-40., min(40., z))
            w.append([big(softplus(-z if y == 1 else z)), big(1 / (1 + math.exp(-z)))])
        return w

    def point(R, n, how):
        if how == "zero":
            return np.zeros(n)
        if how == "unit":
            x = np.zeros(n)
            x[R.randrange(n)] = R.choice([1., -1.])
            return x
        if how == "extreme":
            return np.array([R.choice([-1, 1]) * R.choice([0, 3, 50, 500, 1e4]) for _ in range(n)], dtype=float)
        return np.array([R.randint(-12, 12) / 8 for _ in range(n)])

    def predict_step(R, m, ids, ot, extreme, scored_col):
        unknown = "zzz" if isinstance(ids[0][0], str) else 7777
        n = R.choice([1, 2, 5, 8])
        ee = [[R.choice(ids[t] + [unknown]) for t in ot] for _ in range(n)]
        s = {"op": "predict", "eev": [[tok(x) for x in e] for e in ee], "val": [], "unit": [], "extreme": extreme}

        def f():
            if n == 1 and R.random() < .7:
                r = [float(m.predict(ee[0]))]
            else:
                r = [float(v) for v in np.atleast_1d(m.predict(np.array(ee) if R.random() < .5 else ee))]
            s["val"] = [big(v) if np.isfinite(v) and abs(v) < 1e12 else big(-99) for v in r]
            s["unit"] = [bool(0. < v < 1.) for v in r]
        s["out"] = call(f)[0]
        return s

    def fit_steps(R, model, shared, steps, given=None):
        """one fit of the model and what follows"""
        data, d, ot, ix, ids, strs = make_data(R, model, given)
        kk, C8, seed = shared["k"], shared["C"], shared["seed"]
        holder = {}

        def mk(opt, **kw):
            if opt is not None:
                kw["method"] = opt
            if kk != 1 or not shared["defaults"]:
                kw["k"] = kk
            if C8 != 8 or not shared["defaults"]:
                kw["C"] = C8 / 8
            return CLS[model](random_state=seed, **kw)
        out, L, m0 = find_layout(mk, data, ix)
        if out != "ok":
            # refused (or broken): the fit with the default optimizer has to agree
            out2, _ = call(mk(None).fit, data, event_index=tuple(ix))
            steps.append({"op": "fit", "model": model, "d": d, "ix": ix, "ot": ot, "k": kk, "C": C8, "users": [],
                          "items": [], "out": out if out == out2 else "exc:Differs"})
            return
        users = [tok(x) for x in m0.eid[ot[ix[0]]]]
        items = [tok(x) for x in m0.eid[ot[ix[1]]]]
        nu, ni = len(users), len(items)
        T = terms(model, d, ix, users, items)
        steps.append({"op": "fit", "model": model, "d": d, "ix": ix, "ot": ot, "k": kk, "C": C8, "users": users,
                      "items": items, "out": "ok"})
        if L is None:
            steps.append({"op": "final", "injected": True, "same": False, "calls": True, "answered": [], "reported": [],
                          "asked": {"maxiter": [], "tol": [], "options": []}, "got": [["disp", "False"]], "initial": big(0),
                          "final": big(0), "answer": big(0), "par": EMPTY, "w": []})
            return
        probes = []
        ret = {}
        extreme = R.random() < .15
        hows = R.choice([["free"], ["free", "free"], ["unit", "free"], ["zero"], ["free", "extreme"]])

        def probe(fun, jac, args, x, start, finite):
            P = view(x, L)
            s = {"op": "probe", "start": start, "finite": finite, "x": rec(P) if finite else EMPTY,
                 "w": witnesses(model, P, T) if finite else [], "f": big(0), "g": EMPTY, "fl": False}

            def f():
                before = x.copy()
                # in between, the optimizer may ask for points that differ in a part only
                near = x.copy()
                part = R.choice(list(L))
                if finite and L[part].size:
                    near[np.ravel(L[part])] += R.choice([1., -.5])
                fun(near.copy(), *args)
                g = np.array(jac(x.copy(), *args), dtype=float)
                jac(near.copy(), *args)
                v = float(fun(x.copy(), *args))
                s["fl"] = bool(np.isfinite(v) and np.all(np.isfinite(g)) and g.shape == before.shape)
                if s["fl"] and finite:
                    s["f"], s["g"] = big(v / d["times"]), rec(view(g / d["times"], L))
            call(f)
            return s

        def opt(fun, x0, args=(), jac=None, **kw):
            x0 = np.array(x0, dtype=float)
            ret["calls"] = callable(fun) and callable(jac)
            ret["kw"] = [[str(a), str(v)] for a, v in sorted(kw.items()) if a not in ("hess", "hessp", "bounds", "constraints", "callback")]
            if shared["tiny"] or R.random() < .5:
                probes.append(probe(fun, jac, args, x0, True, bool(np.max(np.abs(x0)) < 4)))
            for h in hows:
                probes.append(probe(fun, jac, args, point(R, x0.size, h), False, h != "extreme"))
            if model == "imp":
                m = holder["m"]
                s = {"op": "matrix", "cells": [], "bad": call(m.get_event_array, "dense")[0]}

                def f():
                    t = R.choice(["csr", "csc", "lil", "array", None])
                    a, no = m.get_event_array() if t is None else m.get_event_array(t)
                    a = a if t == "array" else a.toarray()
                    s["cells"] = [int(v) for v in a.ravel()] if [int(v) for v in no] == [nu, ni] and a.shape == (nu, ni) else []
                s["out"] = call(f)[0]
                probes.append(s)
            x = point(R, x0.size, "extreme" if extreme else R.choice(["free", "free", "unit"]))
            ret["x"] = x.copy()
            v = float(fun(x.copy(), *args))
            ret["f"] = v
            ret["rep"] = {"n_iterations": R.randint(0, 9), "func_calls": R.randint(1, 99), "grad_calls": R.randint(0, 99),
                          "status": R.choice([0, 0, 1, 2]), "success": R.random() < .7, "message": R.choice(["", "stopped"])}
            a = ret["rep"]
            return OptimizeResult(x=x, fun=v, success=a["success"], status=a["status"], message=a["message"],
                                  nit=a["n_iterations"], nfev=a["func_calls"], njev=a["grad_calls"])

        if "m" in shared and R.random() < .7:
            m = shared["m"]
            shared["opt"] = opt
        else:
            # one model object may be fitted several times
            shared["opt"] = opt

            def relay(*a, **kw):
                return shared["opt"](*a, **kw)
            asked, kwo = {}, {}
            if R.random() < .6:
                asked["maxiter"] = kwo["maxiter"] = R.choice([0, 0, 1, 7, 300])
            if R.random() < .4:
                asked["options"] = kwo["options"] = dict(R.sample([("gtol", 1e-7), ("disp", R.random() < .5), ("norm", 2), ("eps", 0)], R.randint(0, 3)))
            if R.random() < .3:
                asked["tol"] = kwo["tol"] = R.choice([0, 1e-9])
            shared["asked"] = {"maxiter": [str(asked["maxiter"])] if "maxiter" in asked else [],
                               "tol": [str(asked["tol"])] if "tol" in asked else [],
                               "options": [[a, str(v)] for a, v in sorted(asked.get("options", {}).items())]}
            m = mk(relay, **kwo)
            shared["m"] = m
        holder["m"] = m
        out, _ = call(m.fit, data, event_index=tuple(ix))
        steps.extend(probes)
        P = attrs(m, nu, ni) if out == "ok" else None
        gr = call(lambda: [[a, str(m.fit_results_[a])] for a in sorted(ret["rep"])])[1]
        s = {"op": "final", "injected": True, "same": False, "calls": bool(ret.get("calls", False)), "initial": big(0),
             "asked": shared["asked"], "got": ret.get("kw", []), "answered": [[a, str(v)] for a, v in sorted(ret.get("rep", {}).items())],
             "reported": gr or [],
             "final": big(0), "answer": big(1), "par": EMPTY, "w": []}
        if P is not None and "x" in ret:
            V = view(ret["x"], L)
            s["same"] = all(P[k].shape == V[k].shape and np.array_equal(P[k], V[k]) for k in V)
            a, b = float(m.fit_results_["initial_loss"]), float(m.fit_results_["final_loss"])
            if np.isfinite([a, b, ret["f"]]).all():
                s["initial"], s["final"], s["answer"] = [big(v / d["times"]) for v in (a, b, ret["f"])]
            s["par"] = rec(P)
        steps.append(s)
        for _ in range(R.choice([1, 2])):
            steps.append(predict_step(R, m, ids, ot, extreme, None))

        # the default optimizer, and others of scipy
        if R.random() < .4:
            kw = R.choice(([{}] if d["times"] == 1 else []) + [{"maxiter": 3}, {"options": {"maxiter": 5}}, {"method": "L-BFGS-B"}, {"method": "BFGS", "maxiter": 7}])
            m = mk(None, **kw)
            out, _ = call(m.fit, data, event_index=tuple(ix))
            P = attrs(m, nu, ni) if out == "ok" else None
            if P is not None and max(np.max(np.abs(v)) if v.size else 0. for v in P.values()) > 200:
                return
            s = {"op": "final", "injected": False, "same": P is not None, "calls": True, "initial": big(0), "final": big(0),
                 "answer": big(0), "par": EMPTY, "w": []}
            if P is not None:
                zmax = max(abs(float(P["mu"]) + float(P["bu"][u]) + float(P["bi"][i]) + float(np.dot(P["p"][u], P["q"][i])))
                           for u, i, _ in T)
                if model != "pmf" and zmax > 14:
                    return
                s["par"], s["w"] = rec(P), witnesses(model, P, T)
                s["initial"] = big(float(m.fit_results_["initial_loss"]) / d["times"])
                s["final"] = big(float(m.fit_results_["final_loss"]) / d["times"])
            steps.append(s)
            steps.append(predict_step(R, m, ids, ot, False, None))

    def wide_step(R, model):
        nu, ni = R.choice([(300, 300), (1100, 60), (60, 1100), (257, 257)])
        n = max(nu, ni) + R.randint(0, 50)
        ev = [[i % nu, j % ni] for i, j in zip(R.sample(range(nu), nu) * 20, R.sample(range(ni), ni) * 20)][:n]
        ev[-1] = list(ev[0])
        R.shuffle(ev)
        ids = [R.sample(range(-5000, 40000), x) for x in (nu, ni)]
        if R.random() < .4:
            ids = [["%s%d" % ("uv"[t], x) for x in ids[t]] for t in (0, 1)]
        a = [[ids[0][u], ids[1][i]] for u, i in ev]
        y = [R.choice([0, 8]) for _ in ev]
        y[0], y[-1] = 0, 8
        kk, C8, z8, f8 = R.choice([1, 2]), R.choice([0, 1, 8]), R.choice([0, 3, -5, 12]), R.choice([0, 4, -9])
        s = {"op": "wide", "model": model, "d": {"ev": [[tok(x) for x in r] for r in a], "sc": [] if model == "imp" else y},
             "ot": [0, 1], "k": kk, "C": C8, "z": z8, "f": f8, "users": [], "items": [], "value": big(0), "g": EMPTY, "w": [],
             "nz": [], "ones": False}
        for t in (0, 1):
            v = z8 / 8
            s["w"].append([big(softplus(-v if t else v)), big(1 / (1 + math.exp(-v)))])
        if model == "imp":
            c = EventData()
            c.set_event(np.array(a))
        else:
            c = EventWithScoreData()
            c.set_event(np.array(a), np.array(y) // 8, score_domain=(0, 1, 1))

        def mk(opt):
            return CLS[model](C=C8 / 8, k=kk, random_state=0, method=opt)

        def f():
            out, L, m0 = find_layout(mk, c, (0, 1))
            s["users"], s["items"] = [tok(x) for x in m0.eid[0]], [tok(x) for x in m0.eid[1]]

            def opt(fun, x0, args=(), jac=None, **kw):
                x = np.zeros(x0.size)
                x[L["mu"]] = z8 / 8
                x[L["p"][:, 0]] = f8 / 8
                s["value"] = big(float(fun(x.copy(), *args)))
                s["g"] = rec(view(np.array(jac(x.copy(), *args), dtype=float), L))
                if model == "imp":
                    t = R.choice(["csr", "csc", "lil", "array"])
                    e, no = m.get_event_array(t)
                    e = np.asarray(e if t == "array" else e.toarray())
                    s["nz"] = [[int(u) + 1, int(i) + 1] for u, i in zip(*np.nonzero(e))]
                    s["ones"] = e.shape == (nu, ni) and [int(v) for v in no] == [nu, ni] and bool(np.all(e[np.nonzero(e)] == 1))
                return OptimizeResult(x=x, fun=1., success=True, status=0, message="", nit=1, nfev=1, njev=1)
            m = mk(opt)
            m.fit(c, event_index=(0, 1))
        s["out"] = call(f)[0]
        return s

    cases = []
    given = [None] * int(sys.argv[3] if len(sys.argv) > 3 else 0)
    if "HIST_IN" in os.environ:
        with open(os.environ["HIST_IN"]) as f_:
            given = json.load(f_)
    for h in given:
        R = random.Random(R0.random())
        model = only if only != "all" else R.choice(["pmf", "log", "imp"])
        shared = {"k": R.choice([1, 1, 1, 1, 2, 2, 2, 2, 3, 3, R.choice([5, 9, 17, 33])]), "defaults": R.random() < .5, "C": R.choice([0, 1, 4, 8, 8, 20, 80]), "seed": R.choice([0, 1, 1234]),
                  "tiny": R.random() < .5}
        steps = []
        for _ in range(R.choice([1, 1, 1, 2])):
            fit_steps(R, model, shared, steps, h and h["ev"])
        cases.append({"steps": steps})
    if "HIST_IN" not in os.environ:
        for j in range(max(1, len(given) // 300)):
            R = random.Random(R0.random())
            cases.append({"steps": [wide_step(R, only if only != "all" else "imp" if j == 0 else R.choice(["pmf", "log", "imp"]))]})
    return cases


if __name__ == "__main__":
    main(build)
