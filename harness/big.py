"""Recorder of large collections of events (spec/BigTrace.tla)."""
import math
import shutil
import sys
import tempfile
import numpy as np
from common import *  # noqa


def build():
    n_cases = int(sys.argv[2])
    from scipy.optimize import OptimizeResult
    from kamrecsys.data import EventWithScoreData
    from kamrecsys.datasets import load_event_with_score
    from kamrecsys.score_predictor import PMF
    R0 = rng_for("big")

    def case(R, size):
        three = R.random() < .3
        nc = 3 if three else 2
        N = size
        ot = [0, 1, 2] if three else R.choice([[0, 1], [0, 1], [1, 0], [0, 0]])
        nt = max(ot) + 1
        m = [R.choice([N, N - 1, N // 2, N // 3 + 1, 3 * N // 4]) if R.random() < .7 else R.choice([7, 300]) for _ in ot]
        if max(m) < N // 3:
            m[R.randrange(nc)] = N
        m[-1] = min(m[-1], N)
        top = (2 ** 31 - 1) // (N + 1) - 2
        a = []
        for x in m:
            while True:
                v = R.randint(1, max(1, min(top, x - 1)))
                if math.gcd(v, x) == 1:
                    break
            a.append(v)
        s = [R.choice([1, 1, 2, 3, -1]) for _ in ot]
        b = [R.choice([0, 1, -500, 1000000]) + (10 ** 8 * j if ot == [0, 0] else 0) for j in range(nc)]
        if ot == [0, 0] and R.random() < .4:
            m[0] = N // 2
            while math.gcd(a[0], m[0]) != 1:
                a[0] -= 1
            m[1], s[1], b[1], a[1] = m[0], s[0], b[0], a[0]
        d = {"N": N, "ot": ot, "m": m, "a": a, "c": [R.randrange(x) for x in m], "s": s, "b": b,
             "A": R.choice([0, 1, -2]), "S": R.choice([1, 1, 2]), "n": R.choice([2, 5, 10]), "e": R.choice([1, 3, 7]),
             "f": R.choice([1, 17, 1001])}
        r = np.arange(N, dtype=np.int64)
        ev = np.stack([b[j] + s[j] * ((a[j] * r + d["c"][j]) % m[j]) for j in range(nc)], axis=1)
        sc = d["A"] + d["S"] * ((d["e"] * r) % d["n"])
        ts = (d["f"] * r) % 1000003
        dom = (d["A"], d["A"] + d["S"] * (d["n"] - 1), d["S"])
        steps = []
        big_rows = [0, 1, N - 1, N - 2] + [x for x in (255, 256, 32767, 32768, 65535, 65536) if x < N]

        def look(who, c, filt, kept, file=False, bins=None, hasts=True, hasfe=False):
            pos = {int(x): i for i, x in enumerate(kept)}
            rows = sorted({x for x in big_rows if x in pos} | {int(kept[R.randrange(len(kept))]) for _ in range(25)})
            # rows that refer to the largest internal ids
            st = {"op": "look", "who": who, "filter": filt, "file": file, "rows": rows, "at": [pos[x] for x in rows],
                  "bin": bins is not None, "thr": bins if bins is not None else 0, "nev": 0, "nob": [], "distinct": [],
                  "lo": [], "hi": [], "tab": [], "ev": [], "ext": [], "int": [], "eid": [], "iid": [], "sc": [], "dig": [],
                  "hasts": hasts, "ts": [], "hasfe": hasfe, "fe": []}

            def f():
                E = np.asarray(c.event)
                for i in range(nc):
                    w = np.asarray(E[:, i])
                    for x in (w.min(), w.max()):
                        p = int(np.flatnonzero(w == x)[0])
                        if int(kept[p]) not in rows:
                            rows.append(int(kept[p]))
                            st["at"].append(p)
                at = st["at"]
                st["nev"] = int(c.n_events)
                if st["nev"] != E.shape[0]:
                    raise ValueError
                st["nob"] = [int(x) for x in c.n_objects]
                for t in range(len(st["nob"])):
                    w = np.concatenate([E[:, j] for j in range(nc) if ot[j] == t]) if t in ot else np.zeros(1)
                    u = np.unique(w)
                    st["distinct"].append(int(u.size))
                    st["lo"].append(int(u[0]))
                    st["hi"].append(int(u[-1]))
                st["ev"] = [[int(x) for x in E[i]] for i in at]
                st["tab"] = [[scaled(c.eid[ot[j]][int(E[i, j])], 1) for j in range(nc)] for i in at]
                if R.random() < .5:
                    x = c.to_eid_event(c.event)
                    st["ext"] = [[scaled(v, 1) for v in x[i]] for i in at]
                    y = c.to_iid_event(ev[kept])
                    st["int"] = [[int(v) for v in y[i]] for i in at]
                else:
                    st["ext"] = [[scaled(v, 1) for v in e] for e in c.to_eid_event(E[at])]
                    st["int"] = [[int(v) for v in e] for e in c.to_iid_event(ev[kept][at])]
                st["eid"] = [[scaled(c.to_eid(ot[j], int(E[i, j])), 1) for j in range(nc)] for i in at]
                st["iid"] = [[int(c.to_iid(ot[j], int(ev[kept[i], j]))) for j in range(nc)] for i in at]
                st["sc"] = [scaled(c.score[i], 1) for i in at]
                g = c.digitize_score()
                if len(g) != st["nev"]:
                    raise ValueError
                st["dig"] = [int(g[i]) for i in at]
                if hasts:
                    st["ts"] = [int(c.event_feature["timestamp"][i]) for i in at]
                if hasfe:
                    st["fe"] = [[int(c.feature[ot[j]]["x"][int(E[i, j])]) for j in range(nc)] for i in at]
            st["out"] = call(f)[0]
            steps.append(st)

        def predict(c):
            eix = R.choice([[0, 1], [1, 0]]) if not three else R.choice([[0, 1], [0, 2], [2, 1]])
            seen = {}

            def first(fun, x0, args=(), jac=None, **kw):
                return OptimizeResult(x=np.arange(1., x0.size + 1), fun=1., success=True, status=0, message="", nit=1, nfev=1, njev=1)

            def second(fun, x0, args=(), jac=None, **kw):
                return OptimizeResult(x=seen["x"], fun=1., success=True, status=0, message="", nit=1, nfev=1, njev=1)
            rows = sorted({x for x in big_rows if x < N} | {R.randrange(N) for _ in range(25)})
            st = {"op": "predict", "eix": eix, "rows": rows, "len": 0, "iu": [], "ii": [], "eu": [], "ei": [], "val": [], "unk": []}

            def f():
                k = PMF(C=1., k=1, random_state=0, method=first)
                k.fit(c, event_index=tuple(eix))
                nu, ni = [int(x) for x in k.n_objects]
                x = np.zeros(1 + 2 * nu + 2 * ni)
                u, i = np.arange(nu), np.arange(ni)
                for at, v in ((np.ravel(k.mu_)[:1], 2.), (k.bu_[:nu], u % 5.), (k.bi_[:ni], i % 7.),
                              (k.p_[:nu, 0], u % 3.), (k.q_[:ni, 0], i % 4. - 1)):
                    x[np.asarray(at).astype(int) - 1] = v
                seen["x"] = x
                k = PMF(C=1., k=1, random_state=0, method=second)
                k.fit(c, event_index=tuple(eix))
                tu, ti = ot[eix[0]], ot[eix[1]]
                given = ev if R.random() < .7 else ev.tolist()
                p = np.asarray(k.predict(given), dtype=float)
                st["len"] = int(p.shape[0])
                st["iu"] = [int(k.to_iid(tu, int(ev[r, eix[0]]))) for r in rows]
                st["ii"] = [int(k.to_iid(ti, int(ev[r, eix[1]]))) for r in rows]
                st["eu"] = [scaled(k.to_eid(tu, z), 1) for z in st["iu"]]
                st["ei"] = [scaled(k.to_eid(ti, z), 1) for z in st["ii"]]
                st["val"] = [scaled(p[r], 1) for r in rows]
                w = ev.copy()
                w[:, eix[0]] = 2000000011
                p = np.asarray(k.predict(w), dtype=float)
                st["unk"] = [scaled(p[r], 1) for r in rows]
            st["out"] = call(f, limit=200)[0]
            steps.append(st)

        # containers
        holder = {}
        file = R.random() < .3

        def load():
            if file:
                tmp = tempfile.mkdtemp(prefix="vbig")
                try:
                    with open(tmp + "/x.event", "w") as o:
                        for i in range(N):
                            o.write("\t".join(str(v) for v in ev[i]) + "\t%d\t%d\n" % (sc[i], ts[i]))
                    holder["c"] = load_event_with_score(
                        tmp + "/x.event", n_otypes=nt, event_otypes=tuple(ot), score_domain=dom,
                        event_dtype=np.dtype([("timestamp", int)]))
                finally:
                    shutil.rmtree(tmp, ignore_errors=True)
            else:
                c = EventWithScoreData(n_otypes=nt, event_otypes=np.array(ot))
                f = np.zeros(N, dtype=[("timestamp", int)])
                f["timestamp"] = ts
                c.set_event(ev, sc if R.random() < .5 else sc.astype(float), score_domain=dom, event_feature=f)
                holder["c"] = c
        out = call(load, limit=200)[0]
        NF = {"p": 0, "q": 0}
        if out != "ok":
            steps.append({"op": "look", "who": "container", "filter": NF, "file": file, "out": out})
            return {"d": d, "steps": steps}
        c = holder["c"]
        hasfe = R.random() < .6
        if hasfe:
            def feats():
                for t in sorted(set(ot)):
                    x = np.unique(np.concatenate([ev[:, j] for j in range(nc) if ot[j] == t] + [[1900000001 + t]]))
                    g = np.random.RandomState(R.randrange(1000)).permutation(x.size)
                    x = x[g]
                    f = np.zeros(x.size, dtype=[("x", int)])
                    f["x"] = (x % 97) * (t + 2)
                    c.set_feature(t, x, f)
            out = call(feats, limit=200)[0]
            if out != "ok":
                steps.append({"op": "look", "who": "object features", "filter": NF, "file": False, "out": out})
                return {"d": d, "steps": steps}
        look("loaded container" if file else "container", c, NF, r, file=file, hasfe=hasfe)
        if R.random() < .6:
            predict(c)
        p = R.choice([2, 3, 10, 1000])
        fl = {"p": p, "q": R.randrange(p)}
        kept = r[r % p != fl["q"]]

        def filt():
            k = R.randint(0, 1)
            holder["f"] = c.filter_event(r % p != fl["q"] if k == 0 else kept)
        out = call(filt, limit=200)[0]
        if out != "ok":
            steps.append({"op": "look", "who": "filtered container", "filter": fl, "file": False, "out": out})
            return {"d": d, "steps": steps}
        look("filtered container", holder["f"], fl, kept, hasfe=hasfe)
        if R.random() < .5:
            t = R.choice([dom[0], (dom[0] + dom[1]) // 2, dom[1] - 1])
            if call(holder["f"].binarize_score, t)[0] == "ok":
                look("binarized container", holder["f"], fl, kept, hasfe=hasfe, bins=t)
        return {"d": d, "steps": steps}

    sizes = [300, 66000, 33000, 40000, 20000]
    return [case(random.Random(R0.random()), sizes[i % 5] if i % 5 else R0.choice([300, 600, 1100, 5000]))
            for i in range(SHARD * n_cases, SHARD * n_cases + n_cases)]


if __name__ == "__main__":
    main(build)
