"""Recorder of score domains, digitization and histograms (spec/ScoreTrace.tla)."""
import json
import os
import sys
import numpy as np
from common import *  # noqa
import common as cm


def build():
    from kamrecsys.data import EventWithScoreData
    from kamrecsys.metrics import score_histogram, score_predictor_statistics
    from kamrecsys.score_predictor import MultinomialPLSA
    R0 = rng_for("scores")

    def val(x, E):
        return x / E

    def arr(R, xs, E):
        if E == 1:
            t = R.choice([int, float, np.int8 if all(abs(v) < 100 for v in xs) else int, np.int64])
            return np.array(xs, dtype=t)
        return np.array([x / E for x in xs], dtype=float)

    def holder(who, h, E, x, own, dig):
        o = {"who": who, "out": "ok", "lv": 0, "levels": [], "nbins": 0, "inner": [], "lowopen": False,
             "highopen": False, "hasdig": dig, "dig": [], "digx": [], "own": own}

        def f():
            o["lv"] = int(h.n_score_levels)
            o["levels"] = [rnd(v, 1000 * E) for v in h.get_score_levels()]
            b = np.asarray(h.generate_score_bins(), dtype=float)
            o["nbins"] = len(b) - 1
            o["inner"] = [rnd(v, 1000 * E) for v in b[1:-1]]
            o["lowopen"] = bool(b[0] == -np.inf)
            o["highopen"] = bool(b[-1] == np.inf)
            if dig:
                o["dig"] = [int(v) for v in h.digitize_score()]
                o["digx"] = [int(v) for v in h.digitize_score(x)]
        o["out"] = call(f)[0]
        return o

    def hist(who, fn, E, dens=False):
        o = {"who": who, "out": "ok", "hist": [], "levels": [], "hasdens": dens, "dens": []}

        def f():
            h, s, d = fn()
            o["hist"] = [scaled(v, 1) for v in h]
            o["levels"] = [rnd(v, 1000 * E) for v in s]
            if dens:
                o["dens"] = [rnd(v, 1000000) for v in d]
        o["out"] = call(f)[0]
        return o

    def domain_case(R):
        E = R.choice([1, 1, 2, 4, 10, 10, 10, 100, 20, 8, 1000, 10000, 1, 10 ** 6, 10 ** 9])
        st = R.choice([1, 1, 2, 3, 5, 7, E, E] if E <= 10000 else [1, 2, 5, 7])
        nl = R.choice([1, 2, 2, 3, 4, 5, 5, 6, 10, 11, 17, 41])
        A = st * R.choice([0, 1, -1, 2, -5]) + R.choice([0, 0, 0, 1, 3])
        mx = A + st * (nl - 1)
        if R.random() < .06:
            A += R.choice([500, -500, 100]) * min(E, 1000)
            mx = A + st * (nl - 1)
        # half-units so that boundaries can be hit
        if R.random() < .3 and E <= 20:
            E, st, A, mx = 2 * E, 2 * st, 2 * A, 2 * mx
        lv = [A + st * i for i in range(nl)]
        m = R.choice([1, 2, 5, 12, 30])
        xs = []
        for _ in range(m):
            q = R.random()
            if q < .5:
                xs.append(R.choice(lv))
            elif q < .8:
                xs.append(R.randint(A - 2 * st, mx + 2 * st))
            elif q < .9 and st % 2 == 0:
                xs.append(R.choice(lv) + R.choice([-1, 1]) * st // 2)
            else:
                xs.append(R.choice([A - 7 * st, mx + 9 * st, A, mx]))
        own = [R.choice(lv) for _ in range(R.choice([1, 3, 9]))]
        dom = R.choice([tuple, list, np.array])([A, mx, st] if E == 1 else [A / E, mx / E, st / E])
        x = arr(R, xs, E)
        c = EventWithScoreData()
        ev = np.array([[R.randint(0, 3), R.randint(0, 3)] for _ in own])
        s = {"op": "domain", "A": A, "S": st, "n": nl, "E": E, "x": xs, "holders": [], "hists": []}

        def load():
            c.set_event(ev, arr(R, own, E), score_domain=dom)
        out = call(load)[0]
        h = holder("container", c, E, x, own, True)
        if out != "ok":
            h["out"] = out
        s["holders"].append(h)
        if out == "ok":
            mask = [R.random() < .6 for _ in own]
            out, f = call(c.filter_event, np.array(mask))
            own2 = [v for v, k in zip(own, mask) if k]
            if out == "ok" and f is not None:
                s["holders"].append(holder("filtered container", f, E, x, own2, True))
            if R.random() < .25 and len(own) > 1:
                m = MultinomialPLSA(k=1, maxiter=1, random_state=0)
                out = call(m.fit, c)[0]
                h = holder("recommender", m, E, x, [], False)
                if out != "ok":
                    h["out"] = out
                s["holders"].append(h)
        xl = x.tolist() if R.random() < .2 else x
        # the same scores many times over
        rep = R.choice([50, 300, 70000 // len(xs) + 1]) if R.random() < .03 else 1
        s["rep"] = rep
        if rep > 1:
            xl = x = np.tile(x, rep)

        def h1():
            a, b = score_histogram(xl, score_domain=dom)
            return a, b, None
        s["hists"].append(hist("score_histogram", h1, E))

        def stat(key):
            def g():
                y = x if key == "true" else x[::-1]
                z = x[::-1] if key == "true" else x
                st_ = score_predictor_statistics(y.astype(float), z.astype(float), score_domain=dom)
                return st_[key]["histogram"], st_["score levels"], st_[key]["histogram density"]
            return g
        s["hists"].append(hist("statistics of true scores", stat("true"), E, True))
        s["hists"].append(hist("statistics of predicted scores", stat("predicted"), E, True))
        if (A, st, nl, E) == (1, 1, 5, 1) or R.random() < .01:
            def h2():
                a, b = score_histogram(x)
                return a, b, None
            if (A, st, nl, E) == (1, 1, 5, 1):
                s["hists"].append(hist("default domain", h2, E))
        return s

    def bins_case(R):
        E = R.choice([1, 1, 2, 10])
        m = R.choice([1, 2, 3, 8, 30])
        nb = R.choice([1, 2, 3, 4, 7, 10])
        xs = [R.randint(-20, 60) for _ in range(m)]
        if R.random() < .15:
            xs = [xs[0]] * m
        s = {"op": "bins", "x": xs, "nb": nb, "hist": [], "levels": []}
        x = arr(R, xs, E)
        b = R.choice([int, np.int64, np.int32])(nb)

        def f():
            h, lv = score_histogram(x, score_domain=b)
            s["hist"] = [scaled(v, 1) for v in h]
            s["levels"] = [rnd(v, 1000 * E) for v in lv]
        s["out"] = call(f)[0]
        return s

    def est_case(R):
        E = R.choice([1, 1, 2, 4, 10, 10, 100, 10 ** 6, 10 ** 9])
        st = R.choice([1, 1, 2, 5])
        A = R.choice([0, 1, -4, 3])
        m = R.choice([2, 3, 6, 20])
        while True:
            xs = [A + st * R.choice([0, 1, 2, 3, 4, 7]) for _ in range(m)]
            if len(set(xs)) > 1:
                break
        s = {"op": "est", "x": xs, "dom": [], "lv": 0, "dig": []}
        c = EventWithScoreData()
        ev = np.array([[R.randint(0, 3), R.randint(0, 3)] for _ in xs])

        def f():
            if R.random() < .5:
                c.set_event(ev, arr(R, xs, E))
            else:
                c.set_event(ev, arr(R, xs, E), None)
            s["dom"] = [rnd(v, 1000 * E) for v in c.score_domain]
            s["lv"] = int(c.n_score_levels)
            s["dig"] = [int(v) for v in c.digitize_score()]
        s["out"] = call(f)[0]
        return s

    def bin_case(R):
        E = R.choice([1, 1, 2, 4, 10, 100, 10 ** 6])
        A, st, nl = R.choice([0, 1, -3]), R.choice([1, 2, 5]), R.choice([2, 3, 5, 9])
        lv = [A + st * i for i in range(nl)]
        xs = [R.choice(lv) for _ in range(R.choice([1, 4, 15]))]
        mx = lv[-1]
        c = EventWithScoreData()
        ev = np.array([[R.randint(0, 3), R.randint(0, 3)] for _ in xs])
        s = {"op": "binarize", "x": xs, "thr": 0, "dom": [], "lv": 0, "sc": []}
        # the centre of a decimal domain is not exact: use it only where no score is there
        mid_ok = E in (1, 2, 4) or all(2 * x != A + mx for x in xs)

        def f():
            c.set_event(ev, arr(R, xs, E), score_domain=([A, mx, st] if E == 1 else [A / E, mx / E, st / E]))
            if mid_ok and R.random() < .5:
                s["thr"] = (A + mx) // 2
                c.binarize_score()
            else:
                t = R.randint(A - 1, mx + 1)
                s["thr"] = t
                c.binarize_score(t if E == 1 else t / E)
            s["sc"] = [scaled(v, 1) for v in c.score]
            s["dom"] = [rnd(v, 1000) for v in c.score_domain]
            s["lv"] = int(c.n_score_levels)
        s["out"] = call(f)[0]
        return s

    def history_case(R, ops):
        """a behaviour of spec/ScoreRun.tla; its unit is 1/2"""
        E = 2 * R.choice([1, 1, 2, 4, 32])
        cs = []
        s = {"op": "history", "E": E, "steps": []}
        floats = lambda xs: [v / E for v in xs]
        for h in ops:
            h = dict(h)

            def do():
                if h["op"] == "load":
                    # the order of scores is free
                    R.shuffle(h["sc"])
                    c = EventWithScoreData()
                    ev = np.array([[R.randint(0, 3), R.randint(0, 3)] for _ in h["sc"]])
                    dom = floats([h["A"], h["A"] + h["S"] * (h["n"] - 1), h["S"]])
                    if all(float(v).is_integer() for v in dom) and R.random() < .5:
                        dom = [int(v) for v in dom]
                    c.set_event(ev, R.choice([np.array, list])(floats(h["sc"])), score_domain=R.choice([tuple, list, np.array])(dom))
                    cs.append(c)
                    return
                c = cs[h["at"] - 1]
                if h["op"] == "filter":
                    cs.append(c.filter_event(np.array(h["keep"]) == 1))
                elif h["op"] == "binarize":
                    c.binarize_score(h["thr"] / E)
                else:
                    c.binarize_score()
            out = call(do)[0]
            st = {"what": h, "out": out, "obs": []}
            s["steps"].append(st)
            if out != "ok":
                break
            for j, c in enumerate(cs):
                xs = [R.randint(-12, 24) for _ in range(4)]
                x = np.array(floats(xs))
                o = holder("container", c, E, x, [], True)
                o["x"] = xs
                o["own"] = []
                call(lambda: o["own"].extend(scaled(v, E) for v in c.score))
                # the histogram of the same scores over the domain of the container
                o["h"] = hist("histogram", lambda: score_histogram(x, score_domain=c.score_domain) + (None,), E)
                st["obs"].append(o)
        return s

    cases = []
    if "HIST_IN" in os.environ:
        with open(os.environ["HIST_IN"]) as f_:
            for h in json.load(f_):
                cases.append(history_case(random.Random(R0.random()), h))
        return cases
    n = int(sys.argv[2])
    for i in range(n):
        R = random.Random(R0.random())
        cases.append(R.choices([domain_case, bins_case, est_case, bin_case], [6, 1.5, 2, 1.5])[0](R))
    return cases


if __name__ == "__main__":
    main(build)
