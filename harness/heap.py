"""Recorder of histories of containers and recommenders (spec/HeapTrace.tla)."""
import copy
import pickle

import numpy as np
from common import *  # noqa
import common as cm


def imports():
    from kamrecsys.data import EventData, EventWithScoreData
    from kamrecsys.score_predictor import PMF, MultinomialPLSA
    from kamrecsys.item_finder import LogisticPMF, ImplicitLogisticPMF
    return dict(EventData=EventData, EventWithScoreData=EventWithScoreData,
                PMF=PMF, MultinomialPLSA=MultinomialPLSA, LogisticPMF=LogisticPMF,
                ImplicitLogisticPMF=ImplicitLogisticPMF)


NOV = {"has": False, "v": []}
ZSC = 10000        # scale of observed predictions
CAP = 12 * ZSC     # cap of logits


# ------------------------------------------------------------ projections
def obs_container(K, c, unit):
    o = {"k": "c", "wf": True, "cls": "score" if isinstance(c, K["EventWithScoreData"]) else "event",
         "nt": 1, "cols": [], "loaded": False, "nobj": [], "eid": [], "iid": [], "ev": [],
         "nev": 0, "sev": 0, "ef": NOV, "sc": NOV, "dom": [], "lv": 0, "ft": []}
    try:
        nt = int(c.n_otypes)
        o["nt"] = nt
        o["cols"] = [int(x) for x in c.event_otypes]
        o["loaded"] = c.event is not None
        o["nobj"] = [int(x) for x in c.n_objects]
        o["nev"] = int(c.n_events)
        o["sev"] = int(c.s_event)
        o["eid"] = [[] for _ in range(nt)]
        o["iid"] = [[] for _ in range(nt)]
        if o["loaded"]:
            o["eid"] = [[tok(x) for x in c.eid[t]] for t in range(nt)]
            o["iid"] = [sorted([tok(k), int(v)] for k, v in c.iid[t].items()) for t in range(nt)]
            ev = np.asarray(c.event)
            if ev.ndim != 2 or not np.issubdtype(ev.dtype, np.integer):
                o["wf"] = False
            o["ev"] = [[int(x) for x in row] for row in ev]
        if c.event_feature is not None:
            o["ef"] = {"has": True, "v": [vtok(x) for x in c.event_feature]}
        for t in range(nt):
            f = c.feature[t]
            o["ft"].append(NOV if f is None else {"has": True, "v": [vtok(x) for x in f]})
        if o["cls"] == "score":
            if c.score is not None:
                o["sc"] = {"has": True, "v": [scaled(x, unit) for x in np.asarray(c.score).ravel()]}
            if c.score_domain is not None:
                o["dom"] = [scaled(x, unit) for x in c.score_domain]
                o["lv"] = int(c.n_score_levels)
                if len(o["dom"]) != 3:
                    o["wf"] = False
    except BaseException:  # noqa
        o["wf"] = False
    return o


UNKNOWN_INT = 1234567890


class Rec:
    def __init__(self, cls, obj, hyper, inj):
        self.cls, self.obj, self.hyper, self.inj = cls, obj, hyper, inj


def known_array(vals, like):
    """event array with the kind of ids of `like` (an eid array)"""
    kind = np.asarray(like).dtype.kind
    if kind == "O":
        a = np.empty((len(vals), len(vals[0]) if vals else 0), dtype=object)
        for i, r in enumerate(vals):
            for j, x in enumerate(r):
                a[i, j] = x
        return a
    if kind in "US":
        return np.array([[str(x) for x in r] for r in vals])
    if kind == "f":
        return np.array([[float(x) for x in r] for r in vals])
    return np.array([[int(x) for x in r] for r in vals], dtype=np.int64)


def unknown_id(like):
    like = np.asarray(like)
    if like.dtype.kind in "US" or like.dtype.kind == "O" and any(isinstance(x, str) for x in like.flat):
        return "~unknown~"
    return UNKNOWN_INT


def obs_rec(K, r, unit):
    m = r.obj
    o = {"k": "r", "cls": r.cls, "wf": True, "fitted": False, "nt": 0, "cols": [], "sev": 0, "eid": [],
         "iid": [], "eix": [], "us": [], "is": [], "grid": False, "z": [],
         "par": {"mu": 0, "bu": [], "bi": [], "p": [], "q": []},
         "fr": {"n_users": 0, "n_items": 0, "n_events": 0, "n_parameters": 0, "finite": False, "report": ""},
         "dropped": True, "hyper": "", "unit": ZSC, "cap": 2000000000}
    try:
        o["hyper"] = hyper_of(r)
        lat = getattr(m, "mu_", None) if r.cls != "MultinomialPLSA" else getattr(m, "pZ_", None)
        o["fitted"] = lat is not None and m.eid is not None
        if not o["fitted"]:
            return o
        nt = int(m.n_otypes)
        o["nt"] = nt
        o["cols"] = [int(x) for x in m.event_otypes]
        o["sev"] = int(m.s_event)
        o["eid"] = [[tok(x) for x in m.eid[t]] for t in range(nt)]
        o["iid"] = [sorted([tok(k), int(v)] for k, v in m.iid[t].items()) for t in range(nt)]
        o["eix"] = [int(x) for x in m.event_index]
        fr = m.fit_results_
        o["fr"] = {k: int(fr[k]) for k in ("n_users", "n_items", "n_events", "n_parameters")}
        o["fr"]["finite"] = finite([fr["initial_loss"], fr["final_loss"]])
        o["fr"]["report"] = report(fr)
        o["dropped"] = all(getattr(m, a, None) is None for a in ("event", "event_feature", "score"))
        logistic = "Logistic" in r.cls
        if logistic:
            o["cap"] = CAP
        cu, ci = o["eix"][0], o["eix"][1]
        eu, ei = m.eid[o["cols"][cu]], m.eid[o["cols"][ci]]
        o["us"] = [tok(x) for x in eu]
        o["is"] = [tok(x) for x in ei]
        like = m.eid[0]
        us = list(eu) + [unknown_id(like)]
        its = list(ei) + [unknown_id(like)]
        fill = [m.eid[t][0] if len(m.eid[t]) else unknown_id(like) for t in o["cols"]]
        rows = []
        for u in us:
            for i in its:
                row = list(fill)
                row[cu] = u
                row[ci] = i
                rows.append(row)
        out, p = call(m.predict, known_array(rows, like))
        if out == "ok":
            p = np.asarray(p, dtype=float).reshape(len(us), len(its))
            if np.all(np.isfinite(p)):
                o["grid"] = True
                o["z"] = [[zval(x, r.cls) for x in row] for row in p]
        if r.cls != "MultinomialPLSA":
            s = 1 if r.inj else ZSC
            o["par"] = {"mu": rnd(np.ravel(m.mu_)[0], s),
                        "bu": [rnd(x, s) for x in m.bu_], "bi": [rnd(x, s) for x in m.bi_],
                        "p": [[rnd(x, s) for x in row] for row in m.p_],
                        "q": [[rnd(x, s) for x in row] for row in m.q_]}
    except BaseException:  # noqa
        o["wf"] = False
    return o


def report(fr):
    """what the optimizer reported"""
    return "|".join(str(fr.get(k, None)) for k in ("n_iterations", "func_calls", "grad_calls", "status", "success", "message"))


def zval(x, cls):
    if "Logistic" in cls:
        if x <= 0 or x >= 1:
            if x < 0 or x > 1:
                return BAD
            return CAP if x >= 1 else -CAP
        v = np.log(x) - np.log1p(-x)
        return int(max(-CAP, min(CAP, round(v * ZSC))))
    return rnd(x, ZSC)


def hyper_of(r):
    m = r.obj
    if r.cls == "MultinomialPLSA":
        return "%s|%s|%s|%s|%s" % (m.k, float(m.alpha), m.use_expectation, m.random_state, r.hyper)
    return "%s|%s|%s|%s" % (int(m.k), float(m.C), m.random_state, r.hyper)


# ------------------------------------------------------------ the world
class World:
    def __init__(self, K, unit):
        self.K, self.unit = K, unit
        self.objs, self.last, self.steps = {}, {}, []
        self.guarded = []      # (array given away, its copy)
        self.names = 0

    def name(self):
        self.names += 1
        return "x%d" % self.names

    def project(self, n):
        x = self.objs[n]
        return obs_rec(self.K, x, self.unit) if isinstance(x, Rec) else obs_container(self.K, x, self.unit)

    def settle(self, step):
        upd = []
        for n in self.objs:
            o = self.project(n)
            if self.last.get(n) != o:
                upd.append([n, o])
                self.last[n] = o
        step["upd"] = upd
        self.steps.append(step)

    def run(self, step, fn, args=()):
        """args: values whose state the operation must not change"""
        before = [pickle.dumps(frozen(a)) for a in args]
        out, res = call(fn)
        step["out"] = out
        step["argsok"] = before == [pickle.dumps(frozen(a)) for a in args]
        return out, res


def frozen(a):
    if isinstance(a, np.ndarray):
        return ("nd", a.dtype.str, a.shape, a.tolist())
    if isinstance(a, dict):
        return ("d", [(k, frozen(v)) for k, v in a.items()])
    if isinstance(a, (list, tuple)):
        return (type(a).__name__, [frozen(x) for x in a])
    if callable(a):
        return "callable"
    return a


# ------------------------------------------------------------ generators
class Ids:
    """pools of external ids for one world"""

    def __init__(self, R, kind, n=8):
        self.kind = kind
        if kind == "small":
            self.pool, self.dtype = list(range(n)), np.int64
        elif kind == "i32":
            self.pool, self.dtype = R.sample(range(-50, 1000), n), np.int32
        elif kind == "wide":
            self.pool, self.dtype = R.sample(range(-2 ** 40, 2 ** 40), n - 2) + [2 ** 62, -2 ** 62], np.int64
        elif kind == "u32":
            self.pool, self.dtype = R.sample(range(0, 2 ** 32 - 1), n), np.uint32
        elif kind == "i8":
            self.pool, self.dtype = R.sample(range(-128, 128), n), np.int8
        elif kind == "i16":
            self.pool, self.dtype = R.sample(range(-32768, 32768), n - 1) + [0], np.int16
        elif kind == "str":
            ws = ["a", "b", "ab", "A", "a ", " a", "zz", "user10", "user9", "", "0", "00", "1", "10", "-1", "1.0", "x y", "x\ty",
                  "longer-name-of-item", "e\u0301", "\u00e9", "b\n", "\u3042"]
            self.pool, self.dtype = R.sample(ws, n), None
        elif kind == "obj":
            ws = ["a", "b", "ab", "A", "a ", " a", "zz", "user10", "user9", "0", "00", "1", "10", "-1", "item:77", "e\u0301", "\u00e9"]
            self.pool, self.dtype = R.sample(ws, n), object
        elif kind == "objint":
            self.pool, self.dtype = R.sample(range(-50, 1000), n - 1) + [2 ** 40], object
        elif kind == "float":
            self.pool, self.dtype = [x / 4 for x in R.sample(range(-40, 400), n)], np.float64
        self.plain = {"str": str, "obj": str, "float": float}.get(kind, int)
        self.pool = list(self.pool)
        R.shuffle(self.pool)

    def arr(self, rows, ncol):
        if self.dtype is None:
            return np.array(rows, dtype=str).reshape(len(rows), ncol) if rows else np.empty((0, ncol), dtype="U5")
        a = np.empty((len(rows), ncol), dtype=self.dtype)
        for i, r in enumerate(rows):
            for j, x in enumerate(r):
                a[i, j] = x
        return a

    def strange(self, R):
        if self.plain is float:
            return R.choice([R.randint(-50, 500) / 4, R.randint(-9, 9) + .125, 1e300, -0.001])
        if self.kind == "objint":
            return R.choice([R.randint(-60, 1100), 2 ** 40 + 1, 2 ** 33])
        if self.plain is str:
            return R.choice(["nobody", "zzz", "B", "~", "user1", "A ", " zz", "user10 ", "longer-name-of-items"])
        info = np.iinfo(self.dtype)
        while True:
            x = R.choice([R.randint(-3, 12), R.randint(int(info.min), int(info.max)), 0, -1, 99])
            if info.min <= x <= info.max:
                return x


KINDS = ["small", "small", "i32", "wide", "str", "str", "u32", "i8", "i16", "obj", "objint", "float"]


def gen_features(R, n):
    k = R.randint(0, 4)
    base = R.randint(0, 50)
    vals = [base + 3 * i + R.randint(0, 2) for i in range(n)]
    if k == 0:
        return np.array(vals)
    if k == 1:
        a = np.array([[v, v + 0.5] for v in vals], dtype=R.choice([float, float, np.float32])).reshape(n, 2)
        if R.random() < .4:      # values that are missing
            for r in a:
                if R.random() < .3:
                    r[R.randrange(2)] = R.choice([np.nan, np.nan, np.inf, -np.inf])
        return a
    if k == 2:
        return np.array(["w%d" % v for v in vals])
    if k == 3:
        a = np.empty(n, dtype=np.dtype([("age", int), ("name", "U8")]))
        for i, v in enumerate(vals):
            a[i] = (v, "n%d" % v)
        return a
    return np.array([[v % 2, v % 3, v] for v in vals], dtype=np.int8).reshape(n, 3)


class Gen:
    def __init__(self, K, R, profile):
        self.K, self.R, self.profile = K, R, profile
        self.unit = R.choice([1, 1, 2, 4, 10] if profile == "data" else [1, 1, 2])
        self.w = World(K, self.unit)
        self.ids = Ids(R, R.choice(KINDS))
        self.kept = []

    # ---- helpers
    def conts(self, loaded=None, cls=None, nonempty=False):
        r = []
        for n, x in self.w.objs.items():
            if isinstance(x, Rec):
                continue
            o = self.w.last[n]
            if not o["wf"]:
                continue
            if loaded is not None and o["loaded"] != loaded:
                continue
            if cls is not None and o["cls"] != cls:
                continue
            if nonempty and o["nev"] == 0:
                continue
            r.append(n)
        return r

    def recs(self, fitted=None):
        return [n for n, x in self.w.objs.items()
                if isinstance(x, Rec) and (fitted is None or self.w.last[n]["fitted"] == fitted)]

    def sc_arr(self, sc):
        u = self.unit
        if u == 1:
            return np.array(sc, dtype=self.R.choice([int, float, np.int8]) if sc else float)
        return np.array([x / u for x in sc], dtype=float)

    # ---- operations
    def new(self, cls=None, nt=None, cols=None, legal=True):
        R, w = self.R, self.w
        if nt is None:
            nt = R.choice([1, 2, 2, 2, 3, 3, 4]) if self.profile == "data" else R.choice([2, 2, 2, 3, 3, 1])
        ident = False
        if cols is None:
            ncol = R.choice([1, 2, 2, 3, 3, 4]) if self.profile == "data" else R.choice([2, 2, 3, 3, 4])
            if R.random() < 0.3 and (self.profile == "data" or nt >= 2):
                cols, ident = list(range(nt)), True
            else:
                cols = [R.randrange(nt) for _ in range(ncol)]
        if not legal:
            cols = R.choice([cols + [nt], cols + [-1], [nt + 3]])
            ident = False
        cls = cls or R.choice(["event", "score", "score"])
        n = w.name()
        C = self.K["EventData" if cls == "event" else "EventWithScoreData"]
        form = R.choice([list, tuple, np.array])
        co = form(cols)
        s = {"op": "new", "id": n, "cls": cls, "nt": nt, "cols": cols}
        fn = (lambda: C(n_otypes=nt)) if ident and R.random() < 0.5 else (lambda: C(n_otypes=nt, event_otypes=co))
        out, res = w.run(s, fn, [co])
        if out == "ok":
            w.objs[n] = res
            if isinstance(co, np.ndarray):
                self.kept.append(co)
        w.settle(s)
        return n if out == "ok" else None

    def aslist(self, p):
        # array-likes are given as lists, which cannot say that ids are objects
        return self.ids.dtype is not object and self.R.random() < p

    def set_event(self, t=None, nev=None, binary=False):
        R, w = self.R, self.w
        t = t or R.choice(self.conts() or [None])
        if t is None:
            return
        o = w.last[t]
        nc = len(o["cols"])
        if nev is None:
            nev = R.choice([0, 1, 2, 3, 5, 8, 12] if self.profile == "data" else [1, 3, 5, 8, 12])
        pool = R.sample(self.ids.pool, R.randint(1, len(self.ids.pool)))
        rows = [[R.choice(pool) for _ in range(nc)] for _ in range(nev)]
        if nev >= 2 and R.random() < 0.3:
            rows[-1] = list(rows[0])
        ev = self.ids.arr(rows, nc)
        if nev and self.aslist(.15):
            ev = ev.tolist()
        ef = None
        if R.random() < 0.5:
            ef = gen_features(R, nev)
        given = [ev]
        kw = {}
        if ef is not None:
            efa = ef if R.random() < 0.7 or ef.dtype.names else ef.tolist()
            kw["event_feature"] = efa
            given.append(efa)
        s = {"op": "set_event", "t": t, "ev": [[tok(x) for x in r] for r in np.asarray(ev)],
             "ef": NOV if ef is None else {"has": True, "v": [vtok(x) for x in ef]},
             "sc": [], "dom": dict(NOV)}
        c = w.objs[t]
        if o["cls"] == "score":
            u, outside = self.unit, False
            if binary:
                sc = [u * R.randint(0, 1) for _ in range(nev)]
                if nev >= 2:
                    sc[0], sc[1] = 0, u
                dom = [0, u, u]
            else:
                st = R.choice([1, 1, 2, 3]) * (1 if R.random() < .6 else u)
                lo = R.choice([0, 1, -2, 5])
                nl = R.randint(2, 6)
                dom = [lo * st, (lo + nl - 1) * st, st]
                sc = [R.choice(range(dom[0], dom[1] + 1, st)) for _ in range(nev)]
                if R.random() < .12:
                    # a score outside of the given domain
                    outside = True
                    for i in range(nev):
                        if R.random() < .3:
                            sc[i] = R.choice([dom[0] - 1, dom[1] + st, dom[1] + 3])
                elif u > 1 and st % u and R.random() < .3:
                    # whole scores in a domain of fractions, as whole numbers
                    whole = [x for x in range(dom[0], dom[1] + 1, st) if x % u == 0]
                    if whole:
                        sc = [R.choice(whole) for _ in range(nev)]
            sca = self.sc_arr(sc)
            if u > 1 and all(x % u == 0 for x in sc) and R.random() < .6:
                sca = np.array([x // u for x in sc])
            if R.random() < 0.2:
                sca = sca.tolist()
            s["sc"] = sc
            given.append(sca)
            if binary or outside or len(set(sc)) < 2 or R.random() < 0.6:
                s["dom"] = {"has": True, "v": dom}
                d = [x / u if u > 1 else x for x in dom]
                d = R.choice([tuple, list, np.array])(d)
                kw["score_domain"] = d
                given.append(d)
            w.run(s, lambda: c.set_event(ev, sca, **kw), given)
        else:
            w.run(s, lambda: c.set_event(ev, **kw), given)
        w.settle(s)
        self.kept += [g for g in given if isinstance(g, (np.ndarray, list)) and len(g)]

    def set_feature(self, t=None):
        R, w = self.R, self.w
        cs = self.conts(loaded=True)
        t = t or (R.choice(cs) if cs else None)
        if t is None:
            return
        o = w.last[t]
        ty = R.randrange(o["nt"])
        c = w.objs[t]
        have = [x for x in c.eid[ty]]
        have = [self.ids.plain(x) for x in have]
        extra = [x for x in self.ids.pool if x not in have]
        R.shuffle(extra)
        tbl = have + extra[:R.choice([0, 0, 1, 3])]
        if have and R.random() < 0.2:
            tbl.remove(R.choice(have))          # incomplete
        R.shuffle(tbl)
        if R.random() < 0.2:
            tbl = sorted(tbl) if R.random() < .3 else list(have)     # in the order of the internal ids
        f = gen_features(R, len(tbl))
        ids = self.ids.arr([[x] for x in tbl], 1)[:, 0]
        if R.random() < 0.3:
            ids = ids.tolist()
        s = {"op": "set_feature", "t": t, "typ": ty,
             "tbl": [[tok(x), vtok(r)] for x, r in zip(ids, f)]}
        if len(f) and not f.dtype.names and self.aslist(.15):
            f = f.tolist()
        w.run(s, lambda: c.set_feature(ty, ids, f), [ids, f])
        w.settle(s)
        self.kept += [x for x in (f, ids) if isinstance(x, np.ndarray)]

    def filter(self, t=None):
        R, w = self.R, self.w
        cs = self.conts()
        t = t or (R.choice(cs) if cs else None)
        if t is None:
            return
        n = w.last[t]["nev"]
        c = w.objs[t]
        if R.random() < 0.65:
            q = R.choice([0.0, 0.3, 0.5, 0.8, 1.0])
            v = [R.random() < q for _ in range(n)]
            if n and R.random() < .2:
                v = [i == R.randrange(n) for i in range(n)]
            kind = "mask"
            fc = np.array(v, dtype=bool) if R.random() < 0.85 or n == 0 else list(v)
        else:
            kind = "idx"
            v = [R.randrange(-n, n) for _ in range(R.randint(1, n + 2))] if n else []
            if R.random() < 0.3:
                v = [x % n for x in v] if n else []
            fc = np.array(v, dtype=R.choice([np.int64, np.int32, np.int8]))
            if v and R.random() < 0.2:
                fc = list(v)
        nm = w.name()
        s = {"op": "filter", "t": t, "id": nm, "kind": kind, "v": v}
        out, res = w.run(s, lambda: c.filter_event(fc), [fc])
        if out == "ok":
            if res is None:
                s["out"] = "none"
            else:
                w.objs[nm] = res
        w.settle(s)
        if isinstance(fc, np.ndarray):
            self.kept.append(fc)
        return nm

    def binarize(self, t=None):
        R, w = self.R, self.w
        cs = self.conts(loaded=True, cls="score")
        t = t or (R.choice(cs) if cs else None)
        if t is None:
            return
        o = w.last[t]
        if len(o["dom"]) != 3 or BAD in o["dom"]:
            return
        c = w.objs[t]
        u = self.unit
        if u == 10 or R.random() < 0.5:
            x = R.randint(o["dom"][0] - 1, o["dom"][1] + 1)
            s = {"op": "binarize", "t": t, "thr": {"has": True, "v": [x]}, "unit": u}
            w.run(s, lambda: c.binarize_score(x / u if u > 1 else x))
        else:
            s = {"op": "binarize", "t": t, "thr": {"has": False, "v": []}, "unit": u}
            w.run(s, lambda: c.binarize_score())
        w.settle(s)

    def convertible(self):
        return self.conts(loaded=True) + self.recs(fitted=True)

    def target(self, n):
        x = self.w.objs[n]
        return x.obj if isinstance(x, Rec) else x

    def some_id(self, p_unknown=0.25):
        R = self.R
        return self.ids.strange(R) if R.random() < p_unknown else R.choice(self.ids.pool)

    def convert(self):
        R, w = self.R, self.w
        ts = self.convertible()
        if not ts:
            return
        t = R.choice(ts)
        x, o = self.target(t), w.last[t]
        if not o["wf"]:
            return
        k = R.randint(0, 3)
        nc = len(o["cols"])
        if k == 0:
            ty = R.randrange(o["nt"])
            e = self.some_id()
            if len(x.eid[ty]) and R.random() < 0.5:
                e = R.choice(list(x.eid[ty]))
            s = {"op": "to_iid", "t": t, "typ": ty, "tok": tok(e), "res": 0}
            out, res = w.run(s, lambda: x.to_iid(ty, e))
            if out == "ok":
                s["res"] = scaled(res, 1)
        elif k == 1:
            ty = R.randrange(o["nt"])
            m = len(o["eid"][ty])
            i = R.choice([0, m - 1, m, -1, m + 5, R.randint(0, m), -m])
            ii = i if R.random() < .5 else np.int64(i)
            s = {"op": "to_eid", "t": t, "typ": ty, "iid": i, "res": ""}
            out, res = w.run(s, lambda: x.to_eid(ty, ii))
            if out == "ok":
                s["res"] = tok(res)
        elif k == 2:
            single = R.random() < 0.3
            rows = [[self.some_id() for _ in range(nc)] for _ in range(1 if single else R.randint(0, 5))]
            bad = R.random() < 0.12
            if bad:
                rows = [r + [r[0]] for r in rows] or [[self.some_id()] * (nc + 1)]
            a = self.ids.arr(rows, nc + 1 if bad else nc)
            if single:
                a = a[0]
            al = a.tolist() if len(a) and self.aslist(.2) else a
            m = R.randint(0, 3)
            miss = [] if m <= 1 else [R.choice([-1, 0, 99])] if m == 2 else [R.choice([-1, 5, 0, 100 + j]) for j in range(nc)]
            if len(miss) == 1:
                mv = R.choice([miss[0], list(miss) if nc == 1 else miss[0]])
            else:
                mv = R.choice([list, np.array])(miss) if miss else None
            s = {"op": "to_iid_event", "t": t, "rows": [[tok(e) for e in r] for r in np.atleast_2d(a)],
                 "miss": miss, "badshape": bad, "res": []}
            out, res = w.run(s, lambda: x.to_iid_event(al) if mv is None and R.random() < .8
                             else x.to_iid_event(al, missing_values=mv), [al, mv])
            if out == "ok":
                res = np.asarray(res)
                s["res"] = [[scaled(v, 1) for v in r] for r in np.atleast_2d(res)] if res.shape == a.shape else [[BAD]]
                if res.size:
                    res[...] = 0          # the result belongs to the caller
        else:
            if any(len(o["eid"][ty]) == 0 for ty in o["cols"]):
                return
            single = R.random() < 0.3
            rows = [[R.randrange(len(o["eid"][ty])) for ty in o["cols"]] for _ in range(1 if single else R.randint(0, 5))]
            bad = R.random() < 0.12
            if bad:
                rows = [r + [0] for r in rows] or [[0] * (nc + 1)]
            a = np.array(rows, dtype=int).reshape(len(rows), nc + 1 if bad else nc)
            if single:
                a = a[0]
            s = {"op": "to_eid_event", "t": t, "rows": np.atleast_2d(a).tolist(), "badshape": bad, "res": []}
            al = a.tolist() if len(a) and R.random() < .2 else a
            out, res = w.run(s, lambda: x.to_eid_event(al), [al])
            if out == "ok":
                res = np.asarray(res)
                s["res"] = [[tok(v) for v in r] for r in np.atleast_2d(res)] if res.shape == a.shape else [["?"]]
                if res.size:
                    res[...] = res.flat[0]
        w.settle(s)

    def readonly(self):
        R, w = self.R, self.w
        cs = self.conts(loaded=True, cls="score")
        if not cs:
            return
        t = R.choice(cs)
        c = w.objs[t]
        k = R.randint(0, 3)

        def fn():
            if k == 0:
                r = c.get_score_levels()
                r[:] = -7
            elif k == 1:
                r = c.generate_score_bins()
                r[:] = -7
            elif k == 2:
                r = c.digitize_score()
                r[:] = -7
            else:
                r = c.digitize_score(np.array(c.score))
                r[:] = -7
        s = {"op": "nothing", "tags": "C06,C05", "must": True}
        w.run(s, fn)
        w.settle(s)

    def clobber(self):
        """the caller changes arrays it has passed before"""
        R, w = self.R, self.w
        if not self.kept:
            return
        s = {"op": "nothing", "tags": "C06", "must": False}

        def fn():
            for a in self.kept:
                if isinstance(a, np.ndarray):
                    if a.size == 0:
                        continue
                    if a.dtype.names:
                        a[...] = a[0]
                    elif a.dtype.kind in "USO":
                        a[...] = "q"
                    elif a.dtype.kind == "b":
                        a[...] = ~a
                    else:
                        a[...] = a.flat[0] + 1 if a.dtype.kind == "f" else 1
                elif isinstance(a, dict):
                    a.clear()
                    a["maxiter"] = 1
                else:
                    a[:] = [a[0]] * len(a)
        w.run(s, fn)
        self.kept = []
        w.settle(s)

    # ---- recommenders
    def rec_new(self, cls=None):
        R, w = self.R, self.w
        cls = cls or R.choice(["PMF", "PMF", "LogisticPMF", "ImplicitLogisticPMF", "MultinomialPLSA"])
        n = w.name()
        seed = R.choice([0, 1, 7])
        inj = False
        if cls == "MultinomialPLSA":
            k = R.choice([1, 2, 3])
            al = R.choice([0.5, 1.0, 2])
            it = R.choice([1, 3, 6])
            ue = R.random() < 0.6
            hy = "it%d" % it
            fn = lambda: self.K[cls](k=k, alpha=al, use_expectation=ue, random_state=seed, maxiter=it)  # noqa
            args = []
        else:
            k = R.choice([1, 1, 2, 3])
            C = R.choice([0.1, 0.5, 1, 3.0])
            inj = R.random() < 0.6
            it = R.choice([2, 5])
            hy = "inj%d" % w.names if inj else "it%d" % it
            opt = {"disp": False}
            kw = {"maxiter": it} if R.random() < .5 else {"options": dict(opt, maxiter=it)}
            if R.random() < .2:
                kw = {"maxiter": it, "options": opt}
            if inj:
                kw = {"method": injector(R.randint(0, 10 ** 6), cls), "options": opt}
            fn = lambda: self.K[cls](C=C, k=k, random_state=seed, **kw)  # noqa
            args = [kw]
        s = {"op": "rec_new", "id": n}
        out, res = w.run(s, fn, args)
        if out == "ok":
            r = Rec(cls, res, hy, inj)
            r.k, r.seed = k, seed
            r.report = args[0]["method"].report if inj else ""
            w.objs[n] = r
            if args and "options" in args[0]:
                self.kept.append(args[0]["options"])
        w.settle(s)
        return n if out == "ok" else None

    def fit(self, t=None, d=None):
        R, w = self.R, self.w
        rs = self.recs()
        t = t or (R.choice(rs) if rs else None)
        if t is None:
            return
        r = w.objs[t]
        if d is None:
            ds = [n for n in self.conts(loaded=True, nonempty=True) if len(w.last[n]["cols"]) >= 2]
            if r.cls == "LogisticPMF" and R.random() < 0.75:
                ds2 = [n for n in ds if w.last[n]["cls"] == "score" and w.last[n]["dom"] == [0, self.unit, self.unit]]
                ds = ds2 or ds
            elif R.random() < 0.85:
                ds = [n for n in ds if w.last[n]["cls"] == "score"] or ds
            if R.random() < 0.04 and len(rs) > 1:
                ds = rs
            if not ds:
                return
            d = R.choice(ds)
        do = w.last[d]
        x = w.objs[d]
        data = x.obj if isinstance(x, Rec) else x
        nc = len(do["cols"]) if do["k"] == "c" else 2
        eix = [0, 1]
        if nc >= 2 and R.random() < 0.6:
            eix = R.sample(range(nc), 2)
        ea = R.choice([tuple, list, np.array])(eix)
        hyper = hyper_of(r)
        s = {"op": "fit", "t": t, "data": d, "cls": r.cls, "eix": eix, "hyper": hyper, "seed": r.seed,
             "nf": r.k, "inj": r.inj, "report": r.report, "unit": self.unit}
        if eix == [0, 1] and R.random() < 0.5:
            w.run(s, lambda: r.obj.fit(data))
        else:
            w.run(s, lambda: r.obj.fit(data, event_index=ea), [ea])
            if not isinstance(ea, tuple):
                self.kept.append(ea)
        w.settle(s)

    def fit_bad(self):
        R, w = self.R, self.w
        rs = self.recs()
        if not rs:
            return
        t = R.choice(rs)
        r = w.objs[t]
        junk = R.choice([None, 3, [[0, 1], [1, 0]], np.zeros((3, 2), dtype=int)])
        s = {"op": "fit_bad", "t": t}
        w.run(s, lambda: r.obj.fit(junk))
        w.settle(s)

    def predict(self):
        R, w = self.R, self.w
        rs = self.recs(fitted=True)
        if not rs:
            return
        t = R.choice(rs)
        m, o = w.objs[t].obj, w.last[t]
        if not o["wf"] or not o["grid"]:
            return
        nc = len(o["cols"])
        single = R.random() < 0.25
        n = 1 if single else R.choice([1, 2, 5, 9])
        if not single and R.random() < .04:
            n = R.choice([130, 300, 1100])       # large batches
        pu = R.choice([0.0, 0.2, 0.6, 1.0])
        rows = [[self.some_id(pu) for _ in range(nc)] for _ in range(n)]
        a = self.ids.arr(rows, nc)
        if self.ids.dtype is np.uint32 and R.random() < .5:
            a = a.astype(np.int64)
        if single and R.random() < 0.7:
            a = a[0]
        given = a.tolist() if R.random() < 0.25 and self.ids.dtype is not object else a
        s = {"op": "predict", "t": t, "rows": [[tok(e) for e in r] for r in np.atleast_2d(a)], "res": []}
        out, res = w.run(s, lambda: m.predict(given), [given])
        if out == "ok":
            s["res"] = [zval(x, w.objs[t].cls) for x in np.ravel(np.asarray(res, dtype=float))]
            if isinstance(res, np.ndarray) and res.size:
                try:
                    res[...] = -5.0
                except Exception:
                    pass
        w.settle(s)

    def copies(self):
        """copies made by the caller are separate objects"""
        R, w = self.R, self.w
        cs = self.conts(loaded=True)
        if not cs:
            return
        t = R.choice(cs)
        n = w.name()
        o = w.last[t]
        s = {"op": "filter", "t": t, "id": n, "kind": "mask", "v": [True] * o["nev"]}
        out, res = w.run(s, lambda: copy.deepcopy(w.objs[t]))
        if out == "ok":
            w.objs[n] = res
        w.settle(s)


def injector(seed, cls):
    """an optimizer that returns small distinct-ish integer parameters"""
    from scipy.optimize import OptimizeResult

    def method(fun, x0, args=(), **kw):
        R = random.Random(seed)
        hi = 2 if "Logistic" in cls else 6
        x = np.array([float(R.randint(-hi, hi)) for _ in range(len(x0))])
        f = float(fun(x, *args))
        return OptimizeResult(x=x, fun=f, **rep)
    rep = {"success": seed % 3 > 0, "status": seed % 3, "message": "injected", "nit": 1 + seed % 5, "nfev": 7 + seed % 4,
           "njev": seed % 7}
    method.report = report({"n_iterations": rep["nit"], "func_calls": rep["nfev"], "grad_calls": rep["njev"],
                            "status": rep["status"], "success": rep["success"], "message": rep["message"]})
    return method


def history(K, R, profile, length):
    g = Gen(K, R, profile)
    if profile == "data":
        g.new()
        g.set_event()
        ops = [(g.set_event, 3), (g.set_feature, 3), (g.filter, 4), (g.convert, 3), (g.binarize, 1),
               (g.readonly, 1), (g.clobber, 2), (lambda: g.new(), 1), (lambda: g.new(legal=False), .4),
               (g.copies, .3)]
    else:
        c = g.new(cls="score")
        g.set_event(c)
        c2 = g.new(cls="score")
        g.set_event(c2, binary=True)
        g.rec_new()
        g.fit()
        ops = [(g.set_event, 1), (lambda: g.set_event(binary=True), 1), (g.set_feature, .5), (g.filter, 2),
               (g.convert, 2), (g.binarize, .7), (g.clobber, 1.5), (g.rec_new, 1.5), (g.fit, 4),
               (g.predict, 5), (g.fit_bad, .4), (lambda: g.new(cls="event"), .4)]
    while len(g.w.steps) < length:
        if len(g.w.objs) > 9:
            # forget an object
            nm = R.choice(list(g.w.objs))
            if nm in g.w.objs and len(g.conts()) > 2:
                del g.w.objs[nm]
                g.w.last.pop(nm, None)
        f = R.choices([o[0] for o in ops], [o[1] for o in ops])[0]
        f()
    return {"steps": g.w.steps, "profile": profile, "kind": g.ids.kind}


def big_history(K, R, n, kind="small"):
    """many objects: ids, events and filters beyond small integer types"""
    g = Gen(K, R, "data")
    g.unit = g.w.unit = 1
    w = g.w
    pool = list(range(n))
    g.ids.kind, g.ids.dtype, g.ids.plain = "big", np.int64, int
    g.ids.pool = [3 * x - n for x in pool]
    c = g.new(cls="score", nt=2, cols=[0, 1])
    perm = pool[:]
    R.shuffle(perm)
    rows = [[g.ids.pool[i], g.ids.pool[perm[i]]] for i in range(n)]
    ev = g.ids.arr(rows, 2)
    sc = [i % 5 + 1 for i in range(n)]
    s = {"op": "set_event", "t": c, "ev": [[tok(x) for x in r] for r in ev.tolist()], "ef": dict(NOV),
         "sc": sc, "dom": {"has": True, "v": [1, 5, 1]}}
    w.run(s, lambda: w.objs[c].set_event(ev, np.array(sc), score_domain=(1, 5, 1)), [ev])
    w.settle(s)
    v = [i % 7 != 0 for i in range(n)]
    s = {"op": "filter", "t": c, "id": "y", "kind": "mask", "v": v}
    out, res = w.run(s, lambda: w.objs[c].filter_event(np.array(v)))
    if out == "ok":
        w.objs["y"] = res
    w.settle(s)
    for _ in range(8):
        g.convert()
    return {"steps": w.steps, "profile": "big", "kind": "big"}


def build():
    import sys as _s
    K = imports()
    which = _s.argv[2]
    n = int(_s.argv[3])
    R0 = rng_for("heap", which)
    cases = []
    for i in range(n):
        R = random.Random(R0.random())
        cases.append(history(K, R, which, R.choice([10, 16, 24]) if which == "data" else R.choice([12, 18, 26])))
    if which == "data":
        for m in (300, 700):
            cases.append(big_history(K, random.Random(R0.random()), m))
        if THOROUGH:
            cases.append(big_history(K, random.Random(R0.random()), 33500))
    return cases


if __name__ == "__main__":
    main(build)
