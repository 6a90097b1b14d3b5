"""Recorder of splits of data (spec/SplitTrace.tla)."""
import json
import os
import pickle
import sys
import numpy as np
from common import *  # noqa


def build():
    from kamrecsys.model_selection import KFoldWithinGroups, InterlacedKFold, ShuffleSplitWithinGroups
    R0 = rng_for("splits")

    def folds_of(it):
        r = []
        for tr, te in it:
            r.append({"tr": [int(x) for x in tr], "te": [int(x) for x in te]})
        return r

    def interleaved(cv, X, g, limit):
        """two iterations of one object, advanced in turn"""
        a, b = cv.split(X, groups=g), cv.split(X, groups=g)
        fa, fb = [], []
        while True:
            x = next(a, None)
            y = next(b, None)
            if x is None and y is None:
                break
            if x is not None:
                fa.append(x)
            if y is not None:
                fb.append(y)
            if len(fa) > limit:
                break
        return folds_of(fa), folds_of(fb)

    def labels(R, n, small=False):
        q = R.random()
        if q < .2:
            return [0] * n
        ng = R.choice([1, 2, 2, 3, 4, 6])
        if R.random() < .4:
            lab = sorted(R.randrange(ng) for _ in range(n))
        else:
            lab = [R.randrange(ng) for _ in range(n)]
            if R.random() < .5:
                lab = [i % ng for i in range(n)]
        return lab

    def label_array(R, lab):
        q = R.randint(0, 9)
        if q == 0:
            return np.array(lab), None
        if q == 5:          # plain sequences of names
            return R.choice([list, tuple])("g%d" % x for x in lab), None
        if q == 6:          # labels that are easily taken for one another
            return [2 ** 53 + x for x in lab], None
        if q == 7:
            return np.array(["user-%020d" % x for x in lab]), None
        if q == 8:
            return np.array([1 + x / 16 for x in lab]), None
        if q == 9:
            return np.array(["%d" % x for x in lab], dtype=object), None
        if q == 1:
            return np.array(["g%d" % (9 - x) for x in lab]), None
        if q == 2:
            return np.array([x * 1000 - 1500 for x in lab]), None
        if q == 3:
            return [x - 2 for x in lab], None
        return np.array([x / 2 for x in lab]), None

    def data(R, n):
        q = R.randint(0, 3)
        if q == 0:
            return np.arange(n)
        if q == 1:
            return np.zeros((n, 2))
        if q == 2:
            return list(range(n))
        return np.array(["e%d" % i for i in range(n)])

    def one_by_one(cv, X, g, sched):
        """two iterations of one object, advanced in the given order; a refused
        or finished iteration must do so for both"""
        its = [cv.split(X, groups=g), cv.split(X, groups=g)]
        got = [[], []]
        for j in list(sched) + [1, 2]:
            x = next(its[j - 1], None)
            if x is not None:
                got[j - 1].append(x)
        return folds_of(got[0]), folds_of(got[1])

    def history_case(R, h):
        """a behaviour of spec/SplitRun.tla"""
        n, lab, K = h["n"], h["lab"], h["K"]
        X = data(R, n)
        g, _ = label_array(R, lab)
        if set(lab) == {0} and (h["kind"] == "interlaced" or R.random() < .5):
            g = None
        seed = R.choice([0, 1, 42, 7])
        shuffle = h["kind"] != "interlaced" and R.random() < .5
        before = pickle.dumps((X, g))
        s = {"n": n, "lab": lab, "K": K, "shuffle": shuffle, "folds": [], "again": [], "nsplits": 0, "diverse": False}
        if h["kind"] == "shuffle":
            s.update(op="shuffle", tr=h["tr"], te=h["te"])
            if h["tr"]["kind"] == "none" and h["te"]["kind"] == "none":
                return None

            def mk():
                return ShuffleSplitWithinGroups(n_splits=K, test_size=py(h["te"]), train_size=py(h["tr"]),
                                                shuffle=shuffle, random_state=seed)
        else:
            s.update(op="kfold", cls=h["kind"])

            def mk():
                if h["kind"] == "interlaced":
                    return InterlacedKFold(n_splits=K)
                return KFoldWithinGroups(n_splits=K, shuffle=shuffle, random_state=seed)

        def f():
            cv = mk()
            s["nsplits"] = int(cv.get_n_splits())
            # an empty order stands for a request that may be refused
            s["folds"], s["again"] = one_by_one(cv, X, g, h["sched"] or [1, 2] * K)
        s["out"] = call(f)[0]
        s["argsok"] = before == pickle.dumps((X, g))
        return s

    def kfold_case(R, wide=False):
        cls = R.choice(["kfold", "kfold", "kfold", "interlaced"])
        n = R.choice([1, 2, 3, 5, 6, 7, 10, 13, 20, 30])
        lab = labels(R, n)
        sizes = [lab.count(g) for g in set(lab)]
        K = R.choice([2, 3, 3, 4, 5, max(2, min(sizes)), min(sizes) + 1, n, n + 1, 1, 0, 2, 2])
        if R.random() < .6:
            if min(sizes) < 2 and n >= 4 and cls == "kfold":
                lab = [i % max(1, n // 3) for i in range(n)]
                R.shuffle(lab)
                sizes = [lab.count(g) for g in set(lab)]
            top = n if cls == "interlaced" else min(sizes)
            K = R.randint(2, max(2, min(top, 7)))
        if wide:
            # many samples, folds and groups
            cls = R.choice(["kfold", "interlaced"])
            n = R.choice([140, 280, 300])
            K = R.choice([2, 10, 70, 130]) if cls == "kfold" else R.choice([128, 129, 137])
            if R.random() < .4:
                n = R.choice([520, 600])
                K = R.choice([257, 260, 300] if cls == "interlaced" else [257, 260])
            ng = max(1, n // K // R.choice([1, 1, 2]))
            lab = [i % ng for i in range(n)]
            R.shuffle(lab)
        shuffle = cls == "kfold" and R.random() < .5
        seed = R.choice([0, 1, 42])
        X = data(R, n)
        g, _ = label_array(R, lab)
        if set(lab) == {0} and R.random() < .6 or cls == "interlaced" and R.random() < .7:
            g = None
            if cls == "kfold":
                lab = [0] * n
        s = {"op": "kfold", "cls": cls, "n": n, "lab": lab, "K": K, "shuffle": shuffle, "folds": [], "again": [], "nsplits": 0}
        before = pickle.dumps((X, g))

        def mk():
            if cls == "interlaced":
                return InterlacedKFold(n_splits=K)
            if not shuffle:
                return KFoldWithinGroups(n_splits=K) if R.random() < .5 else KFoldWithinGroups(n_splits=K, shuffle=False, random_state=seed)
            return KFoldWithinGroups(n_splits=K, shuffle=True, random_state=seed)

        def f():
            cv = mk()
            s["nsplits"] = int(cv.get_n_splits())
            if R.random() < .5:
                s["folds"] = folds_of(cv.split(X, groups=g))
                s["again"] = folds_of((cv if R.random() < .5 else mk()).split(X, groups=g))
            else:
                s["folds"], s["again"] = interleaved(cv, X, g, K + 2)
        s["out"] = call(f)[0]
        s["argsok"] = before == pickle.dumps((X, g))
        return s

    def size(R, m):
        q = R.random()
        if q < .55:
            b = R.choice([10, 10, 4, 100, 3, 1000])
            a = R.randint(1, b - 1)
            if R.random() < .03:
                a = R.choice([b, b + 1])
            return {"kind": "frac", "a": a, "b": b}
        if q < .95:
            return {"kind": "abs", "a": R.choice([1, 1, 1, 1, 2, 2, 3, max(1, m // 2), max(1, m // 2), max(1, m - 1), R.choice([m, m + 1])]), "b": 1}
        return {"kind": "none", "a": 0, "b": 1}

    def py(s):
        if s["kind"] == "none":
            return None
        return int(s["a"]) if s["kind"] == "abs" else s["a"] / s["b"]

    def shuffle_case(R, wide=False):
        n = R.choice([2, 3, 4, 6, 8, 10, 15, 20, 30])
        lab = labels(R, n)
        if R.random() < .6 and n >= 4:
            lab = [i % max(1, n // R.choice([3, 4, 6])) for i in range(n)]
            R.shuffle(lab)
        if wide:
            n = R.choice([300, 600])
            ng = R.choice([1, 2, 5, n // 4, n // 3, n // 5, n // 6, n // 6])
            lab = [i % ng for i in range(n)]
            R.shuffle(lab)
        m = min(lab.count(g) for g in set(lab))
        te = size(R, m)
        tr = size(R, m) if R.random() < .5 else {"kind": "none", "a": 0, "b": 1}
        if R.random() < .15:
            te = {"kind": "none", "a": 0, "b": 1}
        if te["kind"] == "none" and tr["kind"] == "none":
            out = call(lambda: list(ShuffleSplitWithinGroups(test_size=None, train_size=None).split(np.zeros((n, 1)))))[0]
            return {"op": "nosizes", "out": out}
        if wide and R.random() < .5:
            te, tr = R.choice([{"kind": "frac", "a": 2, "b": 10}, {"kind": "frac", "a": 1, "b": 3}, {"kind": "frac", "a": 1, "b": 4},
                               {"kind": "frac", "a": 3, "b": 10}, {"kind": "abs", "a": 2, "b": 1}]), {"kind": "none", "a": 0, "b": 1}
        K = R.choice([1, 2, 3, 5, 10] if not wide else [1, 2, 20])
        shuffle = R.random() < .7
        seed = R.choice([0, 1, 42])
        X = data(R, n)
        g, _ = label_array(R, lab)
        if set(lab) == {0} and R.random() < .6:
            g = None
        s = {"op": "shuffle", "n": n, "lab": lab, "tr": tr, "te": te, "K": K, "shuffle": shuffle, "folds": [],
             "again": [], "nsplits": 0, "diverse": False}
        before = pickle.dumps((X, g))

        def mk():
            kw = dict(n_splits=K, random_state=seed, shuffle=shuffle)
            if shuffle and R.random() < .5:
                del kw["shuffle"]
            if te["kind"] == "frac" and te["a"] * 10 == te["b"] and R.random() < .5:
                pass
            else:
                kw["test_size"] = py(te)
            if tr["kind"] != "none" or R.random() < .3:
                kw["train_size"] = py(tr)
            return ShuffleSplitWithinGroups(**kw)

        def f():
            cv = mk()
            s["nsplits"] = int(cv.get_n_splits())
            if R.random() < .5:
                s["folds"] = folds_of(cv.split(X, groups=g))
                s["again"] = folds_of((cv if R.random() < .5 else mk()).split(X, groups=g))
            else:
                s["folds"], s["again"] = interleaved(cv, X, g, K + 2)
        s["out"] = call(f)[0]
        s["argsok"] = before == pickle.dumps((X, g))
        # many equally likely splits: at least C(16, 8)^1 and few draws
        big = [g_ for g_ in set(lab) if lab.count(g_) >= 15]
        if s["out"] == "ok" and shuffle and big and K <= 3 and s["folds"]:
            q = min(sum(1 for i in f_["te"] if lab[i] == big[0]) for f_ in s["folds"])
            t = lab.count(big[0])
            s["diverse"] = 5 <= q <= t - 5
        return s

    cases = []
    if "HIST_IN" in os.environ:
        with open(os.environ["HIST_IN"]) as f_:
            for h in json.load(f_):
                cases.append(history_case(random.Random(R0.random()), h))
        return [c for c in cases if c is not None]
    n_cases = int(sys.argv[2])
    for i in range(n_cases):
        R = random.Random(R0.random())
        if i % 300 < 8:
            cases.append((kfold_case if i % 300 < 3 else shuffle_case)(R, True))
        else:
            cases.append(R.choices([kfold_case, shuffle_case], [1, 1])[0](R))
    return cases


if __name__ == "__main__":
    main(build)
