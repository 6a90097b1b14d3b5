"""Recorder of latent class models (spec/LatentTrace.tla)."""
import json
import math
import os
import sys
import numpy as np
from common import *  # noqa
import logging


def build():
    n_cases = int(sys.argv[2])
    from kamrecsys.data import EventWithScoreData
    from kamrecsys.score_predictor import MultinomialPLSA
    R0 = rng_for("plsa")
    logging.getLogger("kamrecsys").setLevel(logging.CRITICAL)

    def rec(m, nu, ni):
        """the parameters, scaled by 10^24"""
        b = lambda v: big(float(v), 24)
        M = lambda a, n: [[b(v) for v in r] for r in np.asarray(a)[:n]]
        return {"z": [b(v) for v in m.pZ_], "x": M(m.pXgZ_, nu), "y": M(m.pYgZ_, ni), "r": M(m.pRgZ_, 10 ** 9)}

    def joint(m, T):
        return [[float(m.pZ_[k] * m.pRgZ_[l][k] * m.pXgZ_[u][k] * m.pYgZ_[i][k]) for k in range(len(m.pZ_))]
                for u, i, l in T]

    def case(R, given=None):
        shape = R.choices(["plain", "three", "same", "swap"], [6, 1, 1, 1])[0]
        ot = {"plain": [0, 1], "three": [0, 1, 2], "same": [0, 0], "swap": [1, 0]}[shape]
        ix = R.choice([[0, 1], [0, 1], [1, 0]]) if shape != "three" else R.choice([[0, 1], [0, 2], [2, 1]])
        n = R.choice([1, 2, 3, 4, 6, 8, 10])
        nid = R.choice([1, 2, 3, 4])
        ids = [[R.choice([0, 10, -3]) + j * R.choice([1, 2]) + 100 * t for j in range(nid)] for t in range(3)]
        if R.random() < .3:
            ids = [["%s%d" % ("abc"[t], 7 - j) for j in range(nid)] for t in range(3)]
        ev = [[R.choice(ids[t]) for t in ot] for _ in range(n)]
        E, A, S, nl = R.choice([(1, 1, 1, 5), (1, 0, 1, 2), (2, 1, 1, 4), (1, -2, 2, 3), (1, 0, 1, 1), (10, 5, 5, 4), (1, 0, 1, 3)])
        sc = [A + S * R.randrange(nl) for _ in range(n)]
        if nl > 1 and R.random() < .2:
            sc = [x + R.choice([0, 1, -1]) * (1 if S > 2 else 0) for x in sc]
        if given:                 # a behaviour of the specification: users, items and levels by index
            shape, ot, n = "plain", [0, 1], len(given)
            ix = R.choice([[0, 1], [1, 0]])
            if len(ids[0]) < 2:
                ids = [[5, 9], [7, 3], []]
            E, A, S, nl = R.choice([(1, 0, 1, 2), (1, 1, 1, 5), (10, 5, 5, 4), (1, -2, 2, 3)])
            top = R.choice([1, nl - 1])
            ev = [[ids[0][u - 1], ids[1][i - 1]] for u, i, _ in given]
            sc = [A + S * (top if l == 2 else 0) for _, _, l in given]
        K = R.choice([1, 2, 2, 3, 3, 5]) if R.random() < .95 else R.choice([8, 11, 17])
        al = R.choice([0, 0, 0, 1, 4, 8, 8, 24])
        seed = R.choice([0, 1, 99])
        c = EventWithScoreData(n_otypes=3 if shape == "three" else 2 if shape != "same" else 1, event_otypes=np.array(ot))
        s = np.array([x / E for x in sc]) if E > 1 or R.random() < .5 else np.array(sc)
        mx = A + S * (nl - 1)
        dom = tuple(v / E if v % E else v // E for v in (A, mx, S))
        # the events given many times over: the same as fewer prior counts
        times = R.choice([300, 3000, 20000]) if R.random() < .04 else 1
        c.set_event(np.tile(np.array(ev), (times, 1)), np.tile(s, times), score_domain=dom if R.random() < .7 else np.array(dom, dtype=float))
        rows = list(range(n))
        if times == 1 and R.random() < .25:
            msk = [R.random() < .7 for _ in range(n)]
            msk[R.randrange(n)] = True
            c = c.filter_event(np.array(msk))
            rows = [i for i in range(n) if msk[i]]
        tev = [[tok(x) for x in ev[i]] for i in rows]
        tsc = [sc[i] for i in rows]

        def mk(**kw):
            if R.random() < .9 or al != 8:
                kw["alpha"] = al / 8
            if K != 1 or R.random() < .8:
                kw["k"] = K
            return MultinomialPLSA(random_state=seed, **kw)

        shared = mk(maxiter=0, tol=0.0)
        out, _ = call(shared.fit, c, event_index=tuple(ix))
        f = {"op": "fit", "out": out, "ev": tev, "sc": tsc, "A": A, "S": S, "n": nl, "E": E, "ot": ot, "ix": ix, "k": K,
             "al": al, "times": times, "users": [], "items": []}
        steps = [f]
        if out != "ok":
            return {"steps": steps}
        users = [tok(x) for x in shared.eid[ot[ix[0]]]]
        items = [tok(x) for x in shared.eid[ot[ix[1]]]]
        f["users"], f["items"] = users, items
        nu, ni = len(users), len(items)
        T = []
        for e, x in zip(tev, tsc):
            l = min(range(nl), key=lambda j: abs(x - A - S * j))
            T.append((users.index(e[ix[0]]), items.index(e[ix[1]]), l))

        def results(m, s):
            r = m.fit_results_
            s["nit"], s["status"], s["success"] = int(r["n_iterations"]), int(r["status"]), bool(r["success"])
            a, b = float(r["initial_loss"]), float(r["final_loss"])
            if not np.isfinite([a, b]).all():
                raise ValueError
            s["initial"], s["loss"] = big(a), big(b)

        def blank(op, **k):
            return dict({"op": op, "nit": -1, "status": -1, "success": False, "initial": big(-9), "loss": big(-9)}, **k)

        def iteration(t, prev):
            s = blank("iter", t=t, th={"z": [], "x": [], "y": [], "r": []}, q=[], w=[])
            # a model object fitted again is as good as a new one
            if t > 0 and R.random() < .3:
                m = prev if R.random() < .5 else shared
                call(lambda: m.optimizer_kwargs.update(maxiter=t))
                if prev is m:
                    prev = None
            else:
                m = mk(maxiter=t, tol=0.0)
            old = prev.__dict__.copy() if prev is not None else None

            def g():
                m.fit(c, event_index=tuple(ix))
                results(m, s)
                s["th"] = rec(m, nu, ni)
                s["w"] = [big(-math.log(max(1e-300, sum(j)))) for j in joint(m, T)]
            s["out"] = call(g)[0]
            return s, m

        M = R.choice([1, 2, 3, 5]) if times == 1 else R.choice([1, 2])
        mode = R.random() < .4
        s0, m = iteration(0, None)
        steps.append(s0)
        lastJ = joint(m, T) if s0["out"] == "ok" else None
        ok = s0["out"] == "ok"

        def predict(m):
            n = R.choice([1, 3, 6])
            unknown = "zzz" if isinstance(ids[0][0], str) else 7777
            ee = [[R.choice(ids[t] + [unknown]) for t in ot] for _ in range(n)]
            md = R.random() < .4
            s = {"op": "predict", "mode": md, "eev": [[tok(x) for x in e] for e in ee], "val": []}

            def g():
                m.use_expectation = not md
                if n == 1 and R.random() < .6:
                    r = [float(m.predict(ee[0]))]
                else:
                    r = [float(v) for v in np.atleast_1d(m.predict(np.array(ee) if R.random() < .5 else ee))]
                s["val"] = [big(v) if np.isfinite(v) else big(-10 ** 6) for v in r]
            s["out"] = call(g)[0]
            return s
        if ok and R.random() < .3:
            steps.append(predict(m))
        for t in range(1, M + 1):
            if not ok:
                break
            tot = [sum(j) for j in lastJ]
            if min(tot) < 1e-7 or al == 0 and min(float(np.min(m.pZ_)), 1) < 1e-6:
                break
            q = [[big(x / y, 24) for x in j] for j, y in zip(lastJ, tot)]
            s, m = iteration(t, m)
            s["q"] = q
            steps.append(s)
            ok = s["out"] == "ok"
            lastJ = joint(m, T) if ok else None
            if ok and R.random() < .4:
                steps.append(predict(m))
        if ok:
            full = M
            L = M
            if times == 1 and R.random() < .5 and steps[-1]["op"] != "fit" and t == M:
                for t in range(M + 1, M + R.choice([3, 8, 15])):
                    s = blank("loss", t=t)
                    m2 = mk(maxiter=t, tol=0.0)

                    def g():
                        m2.fit(c, event_index=tuple(ix))
                        results(m2, s)
                    s["out"] = call(g)[0]
                    if al == 0 and min(float(np.min(m2.pZ_)), 1) < 1e-9:
                        break
                    steps.append(s)
                    L = t
            for _ in range(2):
                e = R.choice([1, 2, 2, 3, 3, 4, 5, 6])
                s = blank("tol", tol=big(10. ** -e), z=[], maxiter=R.choice([0, 1, 2, 3, L, L, L + 5, 100] if times == 1 else [0, 1, 2, 3, L]))
                m3 = mk(maxiter=s["maxiter"], tol=10. ** -e)
                if R.random() < .5:         # a model object that has been fitted before, perhaps in vain
                    m3 = R.choice([m, shared])
                    m3.optimizer_kwargs.update(maxiter=s["maxiter"], tol=10. ** -e)

                def g():
                    m3.fit(c, event_index=tuple(ix))
                    results(m3, s)
                    s["z"] = [big(float(v)) for v in m3.pZ_]
                s["out"] = call(g)[0]
                steps.append(s)
        return {"steps": steps}

    given = [{"ev": None}] * n_cases
    if "HIST_IN" in os.environ:
        with open(os.environ["HIST_IN"]) as f_:
            given = json.load(f_)
    return [case(random.Random(R0.random()), h["ev"]) for h in given]


if __name__ == "__main__":
    main(build)
