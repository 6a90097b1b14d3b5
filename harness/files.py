"""Recorder of data files: conversion and loading (spec/FilesTrace.tla)."""
import io
import json
import os
import runpy
import shutil
import sys
import tempfile
import numpy as np
from common import *  # noqa
import common as cm


def build():
    what, n_cases = sys.argv[2], int(sys.argv[3])
    scratch = tempfile.mkdtemp(prefix="vfiles")
    try:
        return build_in(scratch, what, n_cases)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def build_in(scratch, what, n_cases):
    # a copy of the working tree, whose sample directories can be written to
    tree = os.path.join(scratch, "tree")
    for d in ("kamrecsys", "data", "scripts"):
        shutil.copytree(os.path.join(cm.REPO, d), os.path.join(tree, d),
                        ignore=shutil.ignore_patterns("__pycache__", "*.pyc"))
    DATA = os.path.join(tree, "data")
    sys.path[:] = [tree] + [p for p in sys.path if os.path.abspath(p or ".") != os.path.abspath(cm.REPO)]
    import kamrecsys
    assert os.path.abspath(kamrecsys.__file__).startswith(tree)
    from kamrecsys import datasets as ds
    SAMPLE = os.path.join(tree, "kamrecsys", "datasets", "data")
    os.makedirs(SAMPLE, exist_ok=True)
    R0 = rng_for("files", what)

    def leaf(x):
        """fields of a feature, flattened"""
        if isinstance(x, np.void) or isinstance(x, tuple):
            return [z for y in x for z in leaf(y)]
        if isinstance(x, np.ndarray):
            return [z for y in (x if x.ndim else [x[()]]) for z in leaf(y)]
        if isinstance(x, bytes):
            return ["y" + x.decode("latin-1")]
        if isinstance(x, str):
            return ["s" + str(x)]
        if isinstance(x, (float, np.floating)):
            return [repr(float(x))]
        return [str(int(x))]

    def idtok(x):
        return leaf(x)[0]

    JUNK = -777                 # a score that is not a number

    def observe(data, E, scored, feats):
        """what a container consists of, in external ids"""
        ev = np.asarray(data.event)
        cols = [int(t) for t in data.event_otypes]
        o = {"ev": [[idtok(data.eid[t][i]) for t, i in zip(cols, r)] for r in ev], "nt": int(data.n_otypes), "cols": cols,
             "sc": [JUNK if v != v else scaled(v, E) for v in data.score] if scored else [-1] * len(ev),
             # scores are the numbers as they are read, not only close to them
             "exact": not scored or all(v != v or float(v) == scaled(v, E) / E for v in data.score),
             "dom": [scaled(v, E) for v in data.score_domain] if scored else [],
             "ef": [leaf(r) for r in data.event_feature] if data.event_feature is not None else [[]] * len(ev),
             "u": {"has": False, "rows": []}, "i": {"has": False, "rows": []},
             "ordered": all(len(set(map(idtok, data.eid[t]))) == len(data.eid[t]) == int(data.n_objects[t])
                            for t in set(cols))}
        for key, t in (("u", 0), ("i", 1)):
            if feats and data.feature[t] is not None:
                o[key] = {"has": True, "rows": [[idtok(e), leaf(f)] for e, f in zip(data.eid[t], data.feature[t])]
                          + [["surplus", []]] * (len(data.feature[t]) - len(data.eid[t]))}
        return o

    def load(fn, E=1, scored=True, feats=True):
        o = {"ev": [], "nt": 0, "cols": [], "sc": [], "exact": False, "dom": [], "ef": [], "u": {"has": False, "rows": []},
             "i": {"has": False, "rows": []}, "ordered": False}

        def f():
            o.update(observe(fn(), E, scored, feats))
        o["out"] = call(f)[0]
        return o

    def number(v, E):
        """v/E as text"""
        if v % E == 0:
            return str(v // E)
        return repr(v / E)

    def given(R, path, text):
        """a path or an opened file"""
        q = R.random()
        if q < .6:
            return lambda: path
        if q < .8:
            return lambda: open(path, "rb") if R.random() < .3 else open(path)
        return lambda: io.StringIO(text)

    def put(path, text, enc="utf-8", newline=""):
        with io.open(path, "w", encoding=enc, newline=newline) as f:
            f.write(text)

    def comments(R, body):
        """lines of text for data lines, with comment and blank lines between"""
        out = []
        for line in body:
            while R.random() < .15:
                out.append(R.choice(["# a comment\t1\t2", "#", "", "   ", "# 1\t2\t3\t4"]) if R.random() < .7 else "#1\t1\t1")
            out.append(line)
        if R.random() < .3:
            out.append(R.choice(["# end", ""]))
        return out

    big = [1]        # size of the tables
    whole = [False]  # tables have rows for all objects

    # ---- event files in general -------------------------------------------------
    def events_case(R, given_=None):
        scored = R.random() < .6
        nt = R.choice([1, 2, 2, 2, 3])
        cols = None
        if R.random() < .5:
            cols = [R.randrange(nt) for _ in range(R.choice([1, 2, 3, 4]))]
        elif nt == 1:
            cols = [0, 0]
        ncol = len(cols) if cols is not None else nt
        n = R.choice([1, 1, 2, 3, 5, 12, 40]) if big[0] == 1 else 300
        E = R.choice([1, 1, 2, 10, 4])
        idrange = R.choice([(0, 5), (1, 3), (-4, 4), (10 ** 9, 10 ** 9 + 3), (10 ** 12, 10 ** 12 + 2), (0, 1000)])
        pool = None
        if R.random() < .2:      # ids that are easily taken for one another
            pool = R.sample([7 + d for d in (0, 2 ** 8, 2 ** 15, 2 ** 16, 2 ** 24, 2 ** 31, 2 ** 32, 2 ** 53, 2 ** 53 + 1)] + [-7, 70], 4)
        fk = R.choice([None, None, "int", "two", "float", "str", "sub", "ts"])
        dt = {None: None, "int": np.dtype([("a", int)]), "two": np.dtype([("a", int), ("b", "U6")]),
              "float": np.dtype([("x", float), ("y", int)]), "str": np.dtype([("w", "U5")]),
              "sub": np.dtype([("g", "i1", 3), ("z", int)]), "ts": ds.event_dtype_timestamp}[fk]
        if fk == "sub":
            dt = np.dtype([("g", "i1", (3,)), ("z", int)])

        def feat():
            w = lambda: R.choice(["a", "bc", "x y", "Z9", "q"])
            i = lambda: R.randint(-9, 99) if R.random() < .9 or fk in ("float", "sub") else R.choice([-1, 1]) * R.randint(2 ** 31, 2 ** 60)
            return {None: lambda: [], "int": lambda: [i()], "ts": lambda: [R.choice([R.randint(10 ** 8, 10 ** 9), R.randint(2 ** 31, 2 ** 40), R.randint(-2 ** 40, 0), R.randint(-9, 9)])], "two": lambda: [i(), w()],
                    "float": lambda: [i() / 4, i()], "str": lambda: [w()], "sub": lambda: [R.randint(0, 1) for _ in range(3)] + [i()]}[fk]()
        lines, body = [], []
        junk = not given_ and ncol > 1 and R.random() < .1
        kinds = None
        if given_:                # a behaviour of the specification: kinds of lines
            kinds = given_["ev"]
            n = sum(x in ("one", "two", "three") for x in kinds)
        for _ in range(n):
            ids = [R.choice(pool) if pool else R.randint(*idrange) for _ in range(ncol)]
            sc = R.randint(1, 5 * E)
            ef = feat()
            lines.append({"kind": "data", "ev": [str(x) for x in ids], "sc": sc if scored else -1,
                          "ef": [("s" + x) if isinstance(x, str) else repr(x) for x in ef]})
            if scored and junk and R.random() < .3:
                lines[-1]["sc"] = JUNK
            body.append("\t".join([str(x) for x in ids] + ([number(sc, E) if lines[-1]["sc"] != JUNK else R.choice(["", "nan", "n/a", "x", "NaN"])]
                                                           if scored else []) + [str(x) for x in ef]))
        fields = len(body[0].split("\t"))

        def torn(kind):
            row = R.choice(body).split("\t")
            if kind == "short" and fields > 1:
                row.pop(R.randrange(fields))
            else:
                row.insert(R.randint(0, fields), R.choice(["1", "", "3.5", "a"]))
            return "\t".join(row)
        if not kinds and R.random() < .1:
            bad = [torn(R.choice(["short", "surplus"])) for _ in range(R.choice([1, 1, 2]))]
            body = list(body)
            for t in bad:
                j = R.randint(0, len(body))
                body.insert(j, t)
                lines.insert(j, {"kind": "torn"})
        text = comments(R, body)
        if kinds:
            first = {}
            data = [x for x in kinds if x in ("one", "two", "three")]
            for j, x in enumerate(data):          # equal lines are equal
                first.setdefault(x, j)
                lines[j], body[j] = lines[first[x]], body[first[x]]
            it = iter(body)
            text = [{"comment": R.choice(["# words", "#", "#a\tb"]), "hash": "#" + body[0], "blank": "",
                     "spaces": R.choice([" ", "   ", "    "])}.get(x) for x in kinds]
            text = [torn(x) if x in ("short", "surplus") else next(it) if t is None else t for x, t in zip(kinds, text)]
            tornrows = [j for j, x in enumerate(y for y in kinds if y in ("one", "two", "three", "short", "surplus"))
                        if x in ("short", "surplus")]
            for j in tornrows:
                lines.insert(j, {"kind": "torn"})
        # describe the lines of the file as they are
        rows = iter(lines)
        lines = [{"kind": "other"} if not t.strip() or t.startswith("#") else next(rows) for t in text]
        text = R.choice(["\n", "\n", "\r\n"]).join(text) + (R.choice(["\n", "\n", ""]) if not kinds else "\n" if given_["final"] else "")
        path = os.path.join(scratch, "x.event")
        put(path, text)
        junk = any(l.get("sc") == JUNK for l in lines)
        dom = None if scored and not junk and len({l["sc"] for l in lines if l["kind"] == "data"}) > 1 and R.random() < .4 \
            else R.choice([(1, 5 * E, 1), (E, 5 * E, E), (0, 6 * E, E)])
        src = given(R, path, text)
        kw = {}
        if cols is not None:
            kw["event_otypes"] = R.choice([tuple, list, np.array])(cols)
        if nt != 2 or R.random() < .5:
            kw["n_otypes"] = nt
        if dt is not None:
            kw["event_dtype"] = dt

        def go():
            if not scored:
                return ds.load_event(src(), **kw)
            d = None if dom is None else tuple(x / E if x % E else x // E for x in dom)
            if d == (1, 5, 1) and R.random() < .5:
                return ds.load_event_with_score(src(), **kw)
            return ds.load_event_with_score(src(), score_domain=d, **kw)
        return {"op": "events", "who": "load_event_with_score" if scored else "load_event", "scored": scored, "junk": junk, "lines": lines,
                "dom": list(dom) if dom is not None else [], "nt": nt, "cols": cols if cols is not None else list(range(nt)),
                "o": load(go, E, scored, False)}

    # ---- originals --------------------------------------------------------------
    OCC = ["none", "other", "administrator", "artist", "doctor", "educator", "engineer", "entertainment", "executive",
           "healthcare", "homemaker", "lawyer", "librarian", "marketing", "programmer", "retired", "salesman", "scientist",
           "student", "technician", "writer"]
    MON = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"]
    GEN = ["Action", "Adventure", "Animation", "Children's", "Comedy", "Crime", "Documentary", "Drama", "Fantasy", "Film-Noir",
           "Horror", "Musical", "Mystery", "Romance", "Sci-Fi", "Thriller", "War", "Western"]

    def words(R, hi):
        w = " ".join(R.choice(["Toy", "Story", "L\u00e9on", "the", "(a.k.a. X)", "\u00fcber", "Mis\u00e9rables,", "Les", "2",
                               "\"Q\"", "it's", "100%", "a", "\u00c0"]) for _ in range(R.randint(1, 9)))
        return w[:hi].strip() or "T"

    def ratings(R, nu, ni, ts, scale=lambda R: (R.randint(1, 5),) * 2, lo=1):
        n = R.choice([1, 2, 5, 15, 40]) if big[0] == 1 else 500
        us = R.sample(range(lo, nu + lo), min(nu, R.choice([1, 2, 4, 8]) if big[0] == 1 else 300))
        its = R.sample(range(lo, ni + lo), min(ni, R.choice([1, 2, 4, 8]) if big[0] == 1 else 300))
        rows, seen = [], set()
        for _ in range(n):
            u, i = R.choice(us), R.choice(its)
            s, txt = scale(R)
            t = R.randint(8 * 10 ** 8, 9 * 10 ** 8)
            rows.append((u, i, s, str(txt), t))
        lines = [{"kind": "data", "ev": [str(u), str(i)], "iu": u, "ii": i, "sc": s, "ef": [str(t)] if ts else []}
                 for u, i, s, _, t in rows]
        return rows, lines

    def zipcode(R):
        return R.choice(["%05d" % R.randint(0, 99999), "V5A2B", "00001", "T8H1N", "E2A4H"])

    def nl(R):
        return R.choice(["\n", "\n", "\n", "\r\n"])

    def convert(R, script, needs=()):
        """run a converter as a program; returns (outcome, directory of the results or None for the default one)"""
        target = None
        argv = [os.path.join(DATA, script)]
        if R.random() < .35:
            target = os.path.join(scratch, "out")
            shutil.rmtree(os.path.join(scratch, "out"), ignore_errors=True)
            os.makedirs(target)
            for f in needs:
                shutil.copy(os.path.join(SAMPLE, f), target)
            argv.append(target)
        old, cwd = sys.argv, os.getcwd()
        try:
            sys.argv = argv
            if R.random() < .3:
                os.chdir(DATA)
                argv[0] = script
            elif R.random() < .5:
                os.chdir(scratch)
            out = call(runpy.run_path, argv[0], run_name="__main__")[0]
        finally:
            sys.argv = old
            os.chdir(cwd)
        if target is not None:
            # the loaders read the default directory
            for f in os.listdir(target):
                shutil.copy(os.path.join(target, f), SAMPLE)
        return out

    def fresh():
        for d in (SAMPLE,):
            for f in os.listdir(d):
                if f.endswith((".event", ".user", ".item")):
                    os.remove(os.path.join(d, f))
        for f in os.listdir(DATA):
            if not f.endswith((".py", ".md")):
                os.remove(os.path.join(DATA, f))

    def table(R, ids, used, mk):
        """rows for all the used ids and some others, in any order"""
        keep = [i for i in ids if i in used or whole[0] or R.random() < .6]
        if R.random() < .4:
            R.shuffle(keep)
        return [mk(i) for i in keep]

    def data_100k(R, small=False):
        rows, lines = ratings(R, 14 * big[0], 14 * big[0], True)
        while small and not any(l["iu"] <= 10 and l["ii"] <= 10 for l in lines):
            rows, lines = ratings(R, 14 * big[0], 14 * big[0], True)
        users = table(R, range(1, 14 * big[0] + 1), {r[0] for r in rows}, lambda i: {
            "id": str(i), "age": str(R.randint(7, 73)), "sex": R.choice("MF"), "job": R.choice(OCC), "zip": zipcode(R)})
        items = table(R, range(1, 14 * big[0] + 1), {r[1] for r in rows}, lambda i: {
            "id": str(i), "title": "%s (19%02d)" % (words(R, 70), R.randint(10, 99)) if R.random() < .9 else "unknown",
            "date": [str(R.randint(1, 31)), R.choice(MON), str(R.randint(1922, 1998))] if R.random() < .9 else [],
            "url": "http://us.imdb.com/M/title-exact?" + R.choice(["Toy%20Story%20(1995)", "x" * 100, "Ta%20(1%)", "A"]) if R.random() < .9 else "",
            "flags": [str(int(R.random() < .25)) for _ in range(19)]})
        return rows, lines, users, items

    def put_100k(R, small=False):
        rows, lines, users, items = data_100k(R, small)
        e = nl(R)
        put(os.path.join(DATA, "u.data"), "".join("%d\t%d\t%s\t%d%s" % (u, i, t, ts, e) for u, i, s, t, ts in rows))
        put(os.path.join(DATA, "u.user"), "".join("|".join([r["id"], r["age"], r["sex"], r["job"], r["zip"]]) + e for r in users))
        put(os.path.join(DATA, "u.item"), "".join("|".join(
            [r["id"], r["title"], "%02d-%s-%s" % (int(r["date"][0]), r["date"][1], r["date"][2]) if r["date"] else "", "", r["url"]]
            + r["flags"]) + e for r in items), enc="cp1252")
        return {"op": "100k", "lines": lines, "users": users, "items": items}

    def case_100k(R):
        fresh()
        s = dict(put_100k(R), mini=[], convmini="ok")
        s["conv"] = convert(R, "movielens100k.py")
        s["o"] = load(lambda: ds.load_movielens100k())
        if any(l["iu"] <= 10 and l["ii"] <= 10 for l in s["lines"]):
            s["convmini"] = convert(R, "movielens_mini.py", ["movielens100k.event"])
            s["mini"] = [load(lambda: ds.load_movielens_mini())]
        return s

    def put_1m(R):
        rows, lines = ratings(R, 14 * big[0], 14 * big[0], True)
        dots = R.random() < .3
        if dots:
            for r, l in zip(rows, lines):
                if r[1] == rows[0][1]:
                    l["ev"][1], l["ii"] = "3845", 3845
            was = rows[0][1]
            rows = [(u, 3845 if i == was else i, s, t, ts) for u, i, s, t, ts in rows]
        users = table(R, range(1, 14 * big[0] + 1), {r[0] for r in rows}, lambda i: {
            "id": str(i), "sex": R.choice("MF"), "age": R.choice(["1", "18", "25", "35", "45", "50", "56"]),
            "job": str(R.randint(0, 20)), "zip": list(R.choice([zipcode(R), "%05d-%04d" % (R.randint(0, 99999), R.randint(0, 9999)), "123456789"]))})

        def item(i):
            y = R.randint(1919, 2000)
            t = [words(R, 60) + (" (1%03d)" % R.randint(0, 999) if R.random() < .2 else "")]
            if i == 3845:
                t = ["And ", "&#8230;", "God "] if R.random() < .7 else ["And", "&#8230;", " x ", "&#8230;"]
            return {"id": str(i), "title": t + [" (%d)" % y], "year": str(y), "genres": R.sample(GEN, R.choice([1, 1, 2, 3, 6]))}
        items = table(R, list(range(1, 14 * big[0] + 1)) + ([3845] if dots else []), {r[1] for r in rows}, item)
        e = nl(R)
        put(os.path.join(DATA, "ratings.dat"), "".join("%d::%d::%s::%d%s" % (u, i, t, ts, e) for u, i, s, t, ts in rows))
        put(os.path.join(DATA, "users.dat"), "".join("::".join([r["id"], r["sex"], r["age"], r["job"], "".join(r["zip"])]) + e for r in users))
        put(os.path.join(DATA, "movies.dat"), "".join("::".join([r["id"], "".join(r["title"]), "|".join(r["genres"])]) + e for r in items), enc="cp1252")
        return {"op": "1m", "lines": lines, "users": users, "items": items, "dots": "\u2026"}

    def case_1m(R):
        fresh()
        s = put_1m(R)
        s["conv"] = convert(R, "movielens1m.py")
        s["o"] = load(lambda: ds.load_movielens1m())
        return s

    def halves(R):
        v = R.randint(1, 10)
        return v, R.choice(["%.1f" % (v / 2), "%.1f" % (v / 2), str(v // 2) if v % 2 == 0 else repr(v / 2)])

    def put_flixster(R):
        rows, lines = ratings(R, 2000, 50, False, halves)
        put(os.path.join(DATA, "ratings.txt"), "".join("%d\t%d\t%s%s" % (u, i, t, e) for e in [nl(R)] for u, i, s, t, ts in rows))
        return {"op": "flixster", "lines": lines}

    def case_flixster(R):
        fresh()
        s = put_flixster(R)
        s["conv"] = convert(R, "flixster.py")
        s["o"] = load(lambda: ds.load_flixster_rating(), 2)
        return s

    def put_sushi(R):
        nu, ni = R.choice([1, 2, 3, 8]) if big[0] == 1 else 300, R.choice([1, 2, 5, 20])
        m = [[R.randint(0, 4) if R.random() < .4 else -1 for _ in range(ni)] for _ in range(nu)]
        m[R.randrange(nu)][R.randrange(ni)] = R.randint(0, 4)
        users = [[str(R.randint(0, 99999)), str(R.randint(0, 1)), str(R.randint(0, 5)), str(R.randint(10, 9999))]
                 + [str(R.randint(0, 11)) for _ in range(7)] for _ in range(nu)]
        dec = lambda hi: repr(R.randint(0, hi * 10 ** 6) / 10 ** 6)
        items = [[str(i), [R.choice(["ebi", "anago", "\u3042\u306a\u3054", "ika", "toro salmon", "uni", "\u9b5a"]), str(R.randint(0, 1)),
                           str(R.randint(0, 1)), str(R.randint(0, 11)), dec(4), dec(3), dec(5), dec(1)]] for i in range(ni)]
        e = nl(R)
        put(os.path.join(DATA, "sushi3b.5000.10.score"), "".join(" ".join(str(x) for x in r) + e for r in m))
        put(os.path.join(DATA, "sushi3.udata"), "".join("\t".join(u) + e for u in users))
        put(os.path.join(DATA, "sushi3.idata"), "".join("\t".join([i] + f) + e for i, f in items))
        return {"op": "sushi", "matrix": m, "users": users, "items": [[i, ["s" + f[0]] + f[1:4] + [repr(float(x)) for x in f[4:]]] for i, f in items]}

    def case_sushi(R):
        fresh()
        s = put_sushi(R)
        s["conv"] = convert(R, "sushi3.py")
        s["o"] = load(lambda: ds.load_sushi3b_score())
        return s

    # ---- a workspace: originals are replaced, converted, and loaded in any order
    PUT = {"100k": put_100k, "1m": put_1m, "flixster": put_flixster, "sushi": put_sushi}
    SCRIPT = {"100k": "movielens100k.py", "1m": "movielens1m.py", "flixster": "flixster.py", "sushi": "sushi3.py"}
    LOAD = {"100k": lambda: load(lambda: ds.load_movielens100k()), "1m": lambda: load(lambda: ds.load_movielens1m()),
            "flixster": lambda: load(lambda: ds.load_flixster_rating(), 2), "sushi": lambda: load(lambda: ds.load_sushi3b_score())}

    def originals():
        out = {}
        for f in sorted(os.listdir(DATA)):
            if os.path.isfile(os.path.join(DATA, f)):
                with open(os.path.join(DATA, f), "rb") as g:
                    out[f] = g.read()
        return out

    def work_case(R, todo, second=None):
        fresh()
        whole[0] = True
        fams = ["100k", second or R.choice(["1m", "flixster", "sushi"])]
        versions, acts = {}, []
        for a, f, d in todo:
            fam = fams[f - 1]
            was = originals()
            s = {"a": a, "f": f, "v": 0, "out": "ok", "o": [], "kept": True}
            if a == "put":
                if (f, d) not in versions:
                    v = put_100k(R, True) if f == 1 else PUT[fam](R)
                    now = originals()
                    versions[f, d] = len(versions) + 1, v, {n: t for n, t in now.items() if was.get(n) != t}
                else:
                    for n, t in versions[f, d][2].items():
                        with open(os.path.join(DATA, n), "wb") as g:
                            g.write(t)
                s["v"] = versions[f, d][0]
            elif a == "convert":
                s["out"] = convert(R, SCRIPT[fam])
            elif a == "mini":
                s["out"] = convert(R, "movielens_mini.py", ["movielens100k.event"])
            else:
                s["o"] = [LOAD[fam]() if a == "load" else load(lambda: ds.load_movielens_mini())]
            s["kept"] = a == "put" or originals() == was
            acts.append(s)
        return {"op": "work", "versions": [v for _, v, _ in sorted(versions.values(), key=lambda x: x[0])], "acts": acts}

    # ---- loaders of the sample data sets, from files written here -----------------
    def sample_case(R):
        fresh()
        which = R.choice(["100k", "100k", "mini", "1m", "sushi", "flixster", "pci"])
        none = {"has": False, "rows": []}
        infile = None

        def write(stem, lines, raw):
            text = "\n".join(comments(R, raw)) + R.choice(["\n", ""])
            name = stem + ".event"
            path = os.path.join(SAMPLE, name)
            if which in ("100k", "1m", "sushi", "flixster") and R.random() < .3:
                path = os.path.join(scratch, "own.event")
                put(path, text)
                return given(R, path, text)
            put(path, text)
            return None

        def feature_file(name, tab):
            raw = ["\t".join([t[0]] + t[1]) for t in tab]
            put(os.path.join(SAMPLE, name), "\n".join(comments(R, raw)) + "\n")

        bare = lambda t: [[r[0], [x[1:] if x.startswith("s") else x for x in r[1]]] for r in t]
        if which == "pci":
            names = ["Lisa Rose", "Gene", "Toby", "O'Hara", "\u00c9ric", "Jack M.", "123"]
            its = ["Snakes on a Plane", "Dupree", "Just \"My\" Luck", "42", "The Night"]
            n = R.choice([1, 3, 12])
            rows = [(R.choice(names[:4] + names[5:]), R.choice(its), R.randint(2, 10)) for _ in range(n)]
            lines = [{"kind": "data", "ev": ["s" + u, "s" + i], "sc": s, "ef": []} for u, i, s in rows]
            raw = ["%s\t%s\t%s" % (u, i, s / 2) for u, i, s in rows]
            src = write("pci", lines, raw)
            if R.random() < .4:
                path = os.path.join(scratch, "own.event")
                put(path, "\n".join(raw) + "\n")
                fn = lambda: ds.load_pci_sample(path)
            else:
                fn = lambda: ds.load_pci_sample()
            return {"op": "sample", "who": "load_pci_sample", "lines": lines, "dom": [2, 10, 1], "users": none, "items": none,
                    "o": load(fn, 2)}
        if which in ("100k", "mini"):
            rows, lines = ratings(R, 10 * big[0], 10 * big[0], True)
            users = table(R, range(1, 14 * big[0] + 1), {r[0] for r in rows}, lambda i: [str(i), [str(R.randint(1, 99)), str(R.randint(0, 1)), str(R.randint(0, 20)), "s" + zipcode(R)]])
            items = table(R, range(1, 14 * big[0] + 1), {r[1] for r in rows}, lambda i: [str(i), ["s" + words(R, 81), str(R.randint(0, 31)), str(R.randint(0, 12)), str(R.choice([0, 1995]))]
                                                                          + [str(R.randint(0, 1)) for _ in range(18)] + ["s" + R.choice(["http://x", ""])]])
            feature_file("movielens100k.user", bare(users))
            feature_file("movielens100k.item", bare(items))
            stem, E, dom = "movielens100k" if which == "100k" else "movielens_mini", 1, [1, 5, 1]
            f0 = ds.load_movielens100k if which == "100k" else ds.load_movielens_mini
        elif which == "1m":
            rows, lines = ratings(R, 10 * big[0], 10 * big[0], True)
            users = table(R, range(1, 14 * big[0] + 1), {r[0] for r in rows}, lambda i: [str(i), [str(R.randint(0, 1)), str(R.randint(0, 6)), str(R.randint(0, 20)), "s" + zipcode(R)]])
            items = table(R, range(1, 14 * big[0] + 1), {r[1] for r in rows}, lambda i: [str(i), ["s" + words(R, 82), str(R.randint(1919, 2000))] + [str(R.randint(0, 1)) for _ in range(18)]])
            feature_file("movielens1m.user", bare(users))
            feature_file("movielens1m.item", bare(items))
            stem, E, dom, f0 = "movielens1m", 1, [1, 5, 1], ds.load_movielens1m
        elif which == "sushi":
            rows, lines = ratings(R, 10 * big[0], 10 * big[0], False, lambda R: (R.randint(0, 4),) * 2, 0)
            users = table(R, range(0, 14 * big[0] + 1), {r[0] for r in rows}, lambda i: [str(i), [str(R.randint(0, 99999)) for _ in range(11)]])
            items = table(R, range(0, 14 * big[0] + 1), {r[1] for r in rows}, lambda i: [str(i), ["s" + R.choice(["ebi", "\u9b5a", "a b"])] + [str(R.randint(0, 11)) for _ in range(3)]
                                                                          + [repr(R.randint(0, 4000) / 1000) for _ in range(4)]])
            feature_file("sushi3.user", bare(users))
            feature_file("sushi3.item", bare(items))
            stem, E, dom, f0 = "sushi3b_score", 1, [0, 4, 1], ds.load_sushi3b_score
        else:
            rows, lines = ratings(R, 2000, 50, False, halves)
            users = items = None
            stem, E, dom, f0 = "flixster", 2, [1, 10, 1], ds.load_flixster_rating
        raw = ["\t".join([str(u), str(i), t] + ([str(ts)] if lines[0]["ef"] else [])) for u, i, s, t, ts in rows]
        src = write(stem, lines, raw)
        fn = (lambda: f0()) if src is None else (lambda: f0(src()) if R.random() < .5 else f0(infile=src()))
        tab = lambda t: none if t is None else {"has": True, "rows": t}
        return {"op": "sample", "who": f0.__name__, "lines": lines, "dom": dom, "users": tab(users), "items": tab(items),
                "o": load(fn, E)}

    cases = []
    if "HIST_IN" in os.environ:
        with open(os.environ["HIST_IN"]) as f_:
            for h in json.load(f_):
                R = random.Random(R0.random())
                big[0] = 1
                if what != "conv":
                    cases.append(events_case(R, h))
                    continue
                # histories in which a data set is converted again: with every family, several times
                again = [a[1] for i, a in enumerate(h["ev"]) if a[0] == "convert" and a in h["ev"][:i]]
                for _ in range(4 if again and len(h["ev"]) < 6 else 1):
                    for second in ["1m", "flixster", "sushi"] if 2 in again else [None]:
                        cases.append(work_case(R, h["ev"], second))
        return cases
    for i in range(n_cases):
        R = random.Random(R0.random())
        if what == "load":
            f = R.choice([events_case, events_case, sample_case])
        else:
            f = R.choice([case_100k, case_100k, case_1m, case_flixster, case_sushi])
        big[0] = 30 if R.random() < .01 else 1
        cases.append(f(R))
    return cases


if __name__ == "__main__":
    main(build)
