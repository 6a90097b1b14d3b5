"""Recorder of runs of the experiment scripts (spec/PipelineTrace.tla)."""
import datetime
import io
import logging
import os
import runpy
import shutil
import sys
import tempfile
import numpy as np
from common import *  # noqa

logging.basicConfig(stream=open(os.devnull, "w"))


def build():
    what = sys.argv[2]
    from kamrecsys.datasets import event_dtype_timestamp, load_event_with_score
    from kamrecsys.utils import json_decodable
    R0 = rng_for("exp", what)
    scripts = os.path.join(REPO, "scripts")
    sys.path.insert(0, scripts)
    scratch = tempfile.mkdtemp(dir=os.environ.get("VERIF_SCRATCH"))
    serial = [0]

    def fresh(stem, ext=".txt"):
        serial[0] += 1
        return os.path.join(scratch, "%s%d%s" % (stem, serial[0], ext))

    def run(script, args, stdin=None):
        """(outcome, standard output) of a script"""
        keep = sys.argv, sys.stdin, sys.stdout, sys.stderr, np.geterr()
        for m in [m for m in sys.modules if m.startswith("exp_recsys")]:
            del sys.modules[m]
        sys.argv = [os.path.join(scripts, script)] + [str(a) for a in args]
        sys.stdin = open(stdin if stdin else os.devnull)
        sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
        text = sys.stdout

        def go():
            try:
                runpy.run_path(os.path.join(scripts, script), run_name="__main__")
            except SystemExit as e:
                if e.code not in (None, 0):
                    raise RuntimeError("exit")
            except BaseException:
                if os.environ.get("DBG"):
                    import traceback
                    traceback.print_exc(file=keep[3])
                raise
        try:
            out = call(go, limit=120)[0]
        finally:
            sys.stdin.close()
            sys.argv, sys.stdin, sys.stdout, sys.stderr = keep[:4]
            np.seterr(**keep[4])
        return out, text.getvalue()

    def output(script, args, R, stdin=None):
        """run a script that writes JSON; (outcome, parsed output, name of the output file)"""
        q = R.random()
        name = None
        if q < .8:
            name = fresh("out", ".json")
            args = args + [R.choice(["-o", "--out"]), name]
        out, text = run(script, args, stdin)
        if out != "ok":
            return out, None, name
        try:
            if name is not None:
                with open(name) as f:
                    text = f.read()
                os.remove(name)
            return "ok", json.loads(text), name
        except Exception as e:
            return "exc:" + type(e).__name__, None, name

    # ---- input files

    def rating_rows(R, E, lo, hi, users, items, m, least=2):
        """different user and item pairs in any order; every user at least `least` times"""
        us = R.sample(users, R.randint(2, min(len(users), 5)))
        its = R.sample(items, min(len(items), max(least + 1, R.randint(3, 7))))
        cells = [(u, i) for u in us for i in its]
        R.shuffle(cells)
        take = cells[:m]
        for u in us:
            k = [c for c in take if c[0] == u]
            if k and len(k) < least:
                take += [c for c in cells if c[0] == u and c not in take][:least - len(k)]
        R.shuffle(take)
        rows = [{"ev": list(c), "sc": R.randint(lo, hi), "ts": str(R.randint(1, 10 ** 6))} for c in take]
        if R.random() < .2 and least == 2:          # repeated ratings
            rows += [dict(R.choice(rows), ts=str(R.randint(1, 99))) for _ in range(R.randint(1, 3))]
        if len({r["sc"] for r in rows}) < 2:
            rows[0]["sc"] = lo if rows[0]["sc"] != lo else hi
        return rows

    def score_text(x, E):
        return str(x // E) if x % E == 0 else repr(x / E)

    def write_rows(rows, E, ts, stem="in"):
        p = fresh(stem)
        with open(p, "w") as f:
            for r in rows:
                f.write("\t".join(r["ev"] + [score_text(r["sc"], E)] + ([r["ts"]] if ts else [])) + "\n")
        return p

    def fmt(x):
        return vtok(x)

    def sig(x):
        """rounded values, for comparison as text"""
        if isinstance(x, dict):
            return {k: sig(v) for k, v in x.items()}
        if isinstance(x, list):
            return [sig(v) for v in x]
        if isinstance(x, float):
            return "%.9g" % x
        return x

    def canon(x):
        return json.dumps(x, sort_keys=True)

    def micro(t, base=datetime.datetime(2000, 1, 1)):
        for f in ("%Y-%m-%dT%H:%M:%S.%f", "%Y-%m-%dT%H:%M:%S"):
            try:
                d = datetime.datetime.strptime(t, f) - base
                return (d.days * 86400 + d.seconds) * 10 ** 6 + d.microseconds
            except ValueError:
                pass
        raise ValueError(t)

    def elapsed(t):
        h, m, s = t.split(":")
        if "." not in s:
            s += ".0"
        a, b = s.split(".")
        return (int(h) * 3600 + int(m) * 60 + int(a)) * 10 ** 6 + int((b + "000000")[:6])

    def setting(R, scheme, det=False):
        """parameters of an experiment"""
        binary = R.random() < .3
        method = "lpmf" if binary else R.choice(["pmf", "pmf", "plsam", "plsamm"])
        script = "exp_recsys_if.py" if binary else "exp_recsys_sp.py"
        E = R.choice([1, 1, 2])
        lo, hi = R.choice([(1, 5), (1, 5), (0, 4), (1, 3), (-2, 2)]) if not binary else R.choice([(0, 1), (1, 5), (0, 4)])
        lo, hi = lo * E, hi * E
        shift = R.choice([1, 1, 5, 100, 123450])
        apart = R.choice([1] * 8 + [2 ** 8, 2 ** 15, 2 ** 16, 2 ** 32])
        users = [str(i * apart + shift) for i in range(11)]
        step = R.choice([1, 7])
        items = [str(i * step + shift) for i in range(1, 12)]
        rows = rating_rows(R, E, lo, hi, users, items, R.randint(6, 24), 3 if binary else 2)
        auto = R.random() < .4
        stride = 1 if R.random() < .7 else E
        if stride == E and not auto:
            for r in rows:
                r["sc"] = lo + (r["sc"] - lo) // E * E
            if len({r["sc"] for r in rows}) < 2:
                rows[0]["sc"] = lo if rows[0]["sc"] != lo else hi
        if binary:            # training sets have to contain both of the binary scores
            rows[0]["sc"], rows[1]["sc"] = lo, hi
            for n, r in enumerate(rows[2:]):
                if (2 * r["sc"] <= lo + hi) != (n % 2 == 0):
                    r["sc"] = lo if n % 2 == 0 else hi
        dom = [] if auto else [lo, hi, stride]
        ts = R.random() < .5
        args = []
        if not ts:
            args.append("--no-timestamp")
        elif R.random() < .3:
            args.append("--timestamp")
        if dom:
            args += [R.choice(["-d", "--domain"])] + [score_text(x, E) for x in dom]
        if R.random() < .4:
            args.append(R.choice(["-q", "--quiet", "--verbose"]))
        if method not in ("pmf", "lpmf") or R.random() < .5:
            args += [R.choice(["-m", "--method"]), method]
        opts = {"k": 1, "tol": 1e-05}
        if method in ("pmf", "lpmf"):
            opts["C"] = 0.01
            if R.random() < .7:
                opts["C"] = R.choice([0.1, 0.5, 2.0])
                args += [R.choice(["-C", "--lambda"]), opts["C"]]
        else:
            opts["alpha"] = 1.0
            opts["use_expectation"] = method == "plsam"
            if R.random() < .6:
                opts["alpha"] = R.choice([0.5, 2.0])
                args += ["--alpha", opts["alpha"]]
        if R.random() < .6:
            opts["k"] = R.choice([1, 2, 3] * 4 + [25])
            args += [R.choice(["-k", "--dim"]), opts["k"]]
        if R.random() < .5:
            opts["tol"] = R.choice([1e-3, 1e-4])
            args += ["--tol", opts["tol"]]
        if R.random() < .5:
            opts["maxiter"] = R.choice([1, 5, 50])
            args += ["--maxiter", opts["maxiter"]]
        opts["random_state"] = None
        if det or R.random() < .85:
            opts["random_state"] = R.randint(0, 10 ** 6)
            args += ["--rseed", opts["random_state"]]
        if scheme == "cv":
            args += [R.choice(["-v", "--validation"]), "cv"]
        elif R.random() < .5:
            args += ["-v", "holdout"]
        return dict(script=script, binary=binary, method=method, E=E, rows=rows, dom=dom, hasts=ts, args=args, opts=opts,
                    users=users, items=items, lo=lo, hi=hi, stride=stride)

    def recommender(s):
        from kamrecsys.score_predictor import PMF, MultinomialPLSA
        from kamrecsys.item_finder import LogisticPMF
        return {"pmf": PMF, "plsam": MultinomialPLSA, "plsamm": MultinomialPLSA, "lpmf": LogisticPMF}[s["method"]]

    def reload(s, path, dom=None):
        d = dom if dom is not None else ([x / s["E"] for x in s["dom"]] or None)
        data = load_event_with_score(path, event_dtype=event_dtype_timestamp if s["hasts"] else None, score_domain=d)
        full = list(data.score_domain)
        if s["binary"]:
            data.binarize_score()
        return data, full

    def entries(d):
        r = []
        for k, v in d.items():
            if k in ("start_time", "end_time", "elapsed_time", "elapsed_utime"):
                continue
            isnum = isinstance(v, (int, float)) and not isinstance(v, bool)
            r.append({"key": k, "num": isnum, "v": big(v) if isnum else bigint(0), "t": "" if isnum else str(v)})
        return r

    NOREF = {"has": False, "prec": 0, "pred": [], "info": []}

    def reference(s, train, ev, prec=6):
        """predictions of a model fitted to the training data only"""
        rec = recommender(s)(**{k: v for k, v in s["opts"].items()})
        rec.fit(train)
        pred = np.atleast_1d(rec.predict(ev))
        info = dict(rec.fit_results_)
        json_decodable(info)
        return {"has": True, "prec": prec, "pred": [big(x) for x in pred], "info": entries(info)}

    def one_fold(s, js, f, path, data):
        """observation of a fold; f is None for a hold-out"""
        P = js["prediction"]
        at = lambda x: x if f is None else x[f]  # noqa
        tr, te = js["training"]["results"][f or "0"], js["test"]["results"][f or "0"]
        ef = P.get("event_feature")
        o = {"f": f or "0", "mask": [int(x) for x in P["mask"][f]] if f is not None else [],
             "ev": [[str(y) for y in x] for x in at(P["event"])],
             "sc": [scaled(x, s["E"]) for x in at(P["true"])],
             "pred": [big(x) for x in at(P["predicted"])],
             "hasts": ef is not None and list(ef) == ["timestamp"],
             "ts": [str(x) for x in at(ef["timestamp"])] if ef is not None else [],
             "info": entries(tr), "nev": int(te["n_events"]), "ref": NOREF}
        t = [micro(tr["start_time"]), micro(tr["end_time"]), micro(te["start_time"]), micro(te["end_time"])]
        o["t"] = [max(-10 ** 9, min(10 ** 9, x - t[0])) for x in t]
        o["el"] = [elapsed(tr["elapsed_time"]), elapsed(te["elapsed_time"])]
        return o

    def common(s, js, infile, test, outname):
        C, M = js["condition"], js["model"]
        env = js["environment"]
        import kamrecsys
        cls = recommender(s)
        inside = lambda p, t: p is None or os.path.basename(p) in str(t)  # noqa
        ver = env["version"]
        return {"dom": [scaled(x, s["E"]) for x in C["score_domain"]], "scheme": C["scheme"], "nfolds": int(C["n_folds"]),
                "opts": sorted([k, fmt(v)] for k, v in M["options"].items()),
                "model": [M["name"], M["module"], M["task_type"], fmt(M["explicit_ratings"])],
                "tsflag": C["has_timestamp"] is True, "trfile": inside(infile, js["training"]["file"]),
                "tefile": inside(test, js["test"]["file"]), "outfile": inside(outname, C["out_file"]),
                "env": bool(env["script"]["name"] == s["script"] and ver["kamrecsys"] == kamrecsys.__version__
                            and ver["numpy"] == np.__version__ and len(env["system"]) > 0),
                "trsize": [int(js["training"][k]) for k in ("n_events", "n_users", "n_items")],
                "tesize": [int(js["test"][k]) for k in ("n_events", "n_users", "n_items")]}

    def exp_case(R):
        scheme = R.choice(["cv", "cv", "holdout"])
        s = setting(R, scheme)
        path = write_rows(s["rows"], s["E"], s["hasts"])
        args = list(s["args"])
        K, only, test = 0, [], []
        tpath = None
        if scheme == "cv":
            K = R.choice([1, 2, 3, 5])
            if K != 5 or R.random() < .5:
                args += [R.choice(["-f", "--fold"]), K]
            if R.random() < .25:
                only = [R.randrange(K)]
                args += [R.choice(["-n", "--fold-no"]), only[0]]
        else:
            test = rating_rows(R, s["E"], s["lo"], s["hi"], s["users"], s["items"], R.choice([1, 1, 2, 6, 12]), 1)
            if R.random() < .3:
                test = test[:1]
            if s["dom"] and s["stride"] != 1:
                for r in test:
                    r["sc"] = s["lo"] + (r["sc"] - s["lo"]) // s["stride"] * s["stride"]
            tpath = write_rows(test, s["E"], s["hasts"], "test")
            args += [R.choice(["-t", "--test"]), tpath]
        stdin, named = None, path
        q = R.random()
        if q < .45:
            args += [R.choice(["-i", "--in"]), path]
        elif q < .85:
            args = args + ["-q", path] if args and args[-1] == "--domain" else [path] + args
        else:
            stdin, named = path, None
        R2 = random.Random(R.random())
        out, js, outname = output(s["script"], args, R2, stdin)
        case = {"op": "exp", "scheme": scheme, "K": K, "only": only, "E": s["E"], "rows": s["rows"], "test": test,
                "dom": s["dom"], "hasts": s["hasts"], "binary": s["binary"],
                "opts": sorted([k, fmt("None" if v is None else v)] for k, v in s["opts"].items())}
        cls = recommender(s)
        case["model"] = [cls.__name__, cls.__module__, cls.task_type, fmt(cls.explicit_ratings)]
        o = {"out": out}
        case["o"] = o
        if out != "ok":
            return case

        def observe():
            o.update(common(s, js, named, tpath if scheme == "holdout" else named, outname))
            data, full = reload(s, path)
            seed = s["opts"]["random_state"]
            if scheme == "holdout":
                o["keys"] = []
                f = one_fold(s, js, None, path, data)
                o["folds"] = [f]
                if seed is not None:
                    td, _ = reload(s, tpath, full)
                    f["ref"] = reference(s, data, td.to_eid_event(td.event))
                return
            P = js["prediction"]
            o["keys"] = [sorted(x) for x in [js["training"]["results"], js["test"]["results"], P["event"], P["true"], P["predicted"],
                                             P["mask"]] + ([P["event_feature"]["timestamp"]] if s["hasts"] else [])]
            o["folds"] = []
            ev = data.to_eid_event(data.event)
            for key in sorted(set.intersection(*[set(x) for x in o["keys"]])):
                f = one_fold(s, js, key, path, data)
                o["folds"].append(f)
                ok = len(set(f["mask"])) == len(f["mask"]) and all(0 <= x < len(ev) for x in f["mask"])
                if seed is not None and ok:
                    rest = np.array(sorted(set(range(len(ev))) - set(f["mask"])), dtype=int)
                    f["ref"] = reference(s, data.filter_event(rest), ev[np.array(f["mask"], dtype=int)])
        with np.errstate(all="ignore"):
            oo, _ = call(observe, limit=300)
        if oo != "ok":
            o["out"] = "unreadable " + oo
        return case

    # ---- C23

    def results(js):
        r = []
        P = js["prediction"]
        drop = ("start_time", "end_time", "elapsed_time", "elapsed_utime")
        for f in sorted(set(js["training"]["results"]) | set(js["test"]["results"])):
            al = {"train": js["training"]["results"].get(f), "test": js["test"]["results"].get(f)}
            for kk, v in P.items():
                if kk == "event_feature":
                    for a in v:
                        al["ef " + a] = v[a].get(f)
                else:
                    al["p " + kk] = v.get(f)
            same = dict(al)
            for kk in ("train", "test"):
                same[kk] = {a: b for a, b in (al[kk] or {}).items() if a not in drop}
            r.append({"f": f, "same": canon(sig(same)), "all": canon(al)})
        return r

    def head(js):
        C = {k: v for k, v in js["condition"].items() if k not in ("out_file", "merged")}
        T = {k: v for k, v in js["training"].items() if k != "results"}
        E = {k: v for k, v in js["test"].items() if k != "results"}
        return canon(sig([C, T, E, js["model"]]))

    def folds_case(R, given=None):
        s = setting(R, "cv", det=True)
        path = write_rows(s["rows"], s["E"], s["hasts"])
        K = given["K"] if given else R.choice([1, 2, 3, 3, 4])
        base = s["args"] + ["-f", K, "-i", path]
        out, js, _ = output(s["script"], base, R)
        case = {"op": "folds", "K": K, "fullout": out, "full": [], "head": "", "steps": [], "refused": []}
        bad = R.choice([None, -1, K, K + 3])
        if bad is not None:
            case["refused"].append(run(s["script"], base + ["--fold-no=%d" % bad, "-o", fresh("out", ".json")])[0])
        if out != "ok":
            return case
        more = R.random() < .4

        def enrich(js):
            """a second event feature, if there is one at all"""
            P = js["prediction"]
            if more and "event_feature" in P:
                P["event_feature"]["weight"] = {f: ["w%d" % m for m in P["mask"][f]] for f in P["mask"]}
        full = js
        enrich(js)
        case["full"], case["head"] = results(js), head(js)
        order = list(range(K))
        R.shuffle(order)
        if R.random() < .25:
            order = order[:R.randint(1, K)]
        files = {}

        def step_run(f):
            out, js, _ = output(s["script"], base + [R.choice(["-n", "--fold-no"]), f], R)
            st = {"kind": "run", "f": str(f), "out": out, "r": [], "head": "", "env": ""}
            case["steps"].append(st)
            if out != "ok":
                return
            enrich(js)
            js["environment"]["system"]["machine"] = "machine of fold %d" % f      # ran somewhere else
            st["r"], st["head"], st["env"] = results(js), head(js), canon(js["environment"])
            p = fresh("fold", ".json")
            with open(p, "w") as h:
                json.dump(js, h)
            files[f] = (p, len(case["steps"]))

        def step_merge(fs):
            fs = [f for f in fs if f in files]
            if not fs:
                return
            args = [files[f][0] for f in fs]
            out, js, _ = output("exp_recsys_fold_merge.py", (["-q"] if R.random() < .5 else []) + args, R)
            st = {"kind": "merge", "of": [files[f][1] for f in fs], "out": out, "r": [], "head": "", "envs": []}
            case["steps"].append(st)
            if out == "ok":
                st["r"], st["head"] = results(js), head(js)
                st["envs"] = [[f, canon(e)] for f, e in js["environment"].get("environment_fold", {}).items()]
        if given:
            # a behaviour of spec/FoldRun.tla
            ran = {}
            for n, st in enumerate(given["steps"]):
                if st["op"] == "run":
                    ran[len(ran) + 1 + sum(1 for x in given["steps"][:n] if x["op"] == "merge")] = st["f"]
                    step_run(st["f"])
                else:
                    step_merge([ran[i] for i in st["of"]])
            return case
        done = []
        for f in order:
            step_run(f)
            done.append(f)
            if R.random() < .3:
                m = list(done)
                R.shuffle(m)
                step_merge(m)
        m = list(done)
        R.shuffle(m)
        step_merge(m)
        return case

    # ---- C24

    def leaf_text(v):
        if isinstance(v, (bool, np.bool_)):
            return "b:%s" % bool(v)
        if isinstance(v, (int, np.integer)):
            return "i:%d" % int(v)
        if isinstance(v, (float, np.floating)):
            return "f:%r" % float(v)
        if isinstance(v, str):
            return "s:" + str(v)
        return "?:%s" % type(v).__name__

    def random_json(R, depth=0):
        q = R.random()
        if q < .35 and depth < 3:
            return {"k%d" % i: random_json(R, depth + 1) for i in range(R.randint(0, 3))}
        if q < .55 and depth < 3:
            return [random_json(R, depth + 1) for _ in range(R.randint(0, 3))]
        return R.choice([1, 0, -7, 0.5, 1e-8, "text", "", "\u00e9", True, False, None])

    def paths(x, pre=""):
        if isinstance(x, dict):
            r = [[pre, "{}"]]
            for k, v in x.items():
                r += paths(v, pre + "/" + k)
            return r
        if isinstance(x, list):
            r = [[pre, "[%d]" % len(x)]]
            for i, v in enumerate(x):
                r += paths(v, pre + "/%d" % i)
            return r
        return [[pre, leaf_text(x) if x is not None else "null"]]

    SPS = {"n_samples": "n", "mean absolute error/mean": "mae", "mean absolute error/stdev": "maesd",
           "mean squared error/mean": "mse", "mean squared error/rmse": "rmse", "mean squared error/stdev": "msesd",
           "true/mean": "tm", "true/stdev": "ts", "predicted/mean": "pm", "predicted/stdev": "ps"}
    SKIP = {"score levels", "true/histogram", "true/histogram density", "predicted/histogram",
            "predicted/histogram density"}
    IFR = {"n_samples": "n", "true/mean": "tm", "true/stdev": "ts", "predicted/mean": "pm", "predicted/stdev": "ps",
           "area under the curve": "auc"}

    def flat(d, pre=""):
        r = {}
        for k, v in d.items():
            if isinstance(v, dict):
                r.update(flat(v, pre + k + "/"))
            else:
                r[pre + k] = v
        return r

    def stats_case(R):
        finder = R.random() < .4
        E = R.choice([1, 2, 4, 10])
        lo, hi = (0, 1) if finder else R.choice([(1, 5), (0, 4), (-2, 3), (1, 2)])
        nf = R.choice([0, 0, 1, 2, 3, 5, 11])
        folds = []
        for _ in range(max(nf, 1)):
            m = R.choice([1, 2, 3, 8])
            t = [R.choice([0, E]) for _ in range(m)] if finder else [R.randint(lo * E, hi * E) for _ in range(m)]
            folds.append({"t": t, "p": [R.randint(lo * E, hi * E) for _ in range(m)]})
        num = lambda v: [x // E if x % E == 0 and R.random() < .2 else x / E for x in v]  # noqa
        P = {"event": [], "true": [], "predicted": []}
        ev = [[["u%d" % i, "i%d" % (i * 2 % 3)] for i in range(len(f["t"]))] for f in folds]
        if nf == 0:
            P.update(event=ev[0], true=num(folds[0]["t"]), predicted=num(folds[0]["p"]))
        else:
            names = [str(i) for i in range(nf)]
            R.shuffle(names)             # order of merging
            P = {"event": dict(zip(names, ev)), "true": dict(zip(names, (num(f["t"]) for f in folds))),
                 "predicted": dict(zip(names, (num(f["p"]) for f in folds))),
                 "mask": {k: list(range(len(folds[i]["t"]))) for i, k in enumerate(names)}}
        if R.random() < .4:
            P["event_feature"] = {"timestamp": [1, 2]}
        st = R.choice([1, E])
        nl = (hi - lo) * E // st + 1
        info = {"condition": {"score_domain": [lo * 1.0, hi * 1.0, st / E], "x": random_json(R)},
                "environment": random_json(R), "training": {"results": random_json(R)}, "test": {"results": random_json(R)},
                "model": {"task_type": "item_finder" if finder else "score_predictor", "options": random_json(R)}, "prediction": P}
        ks = list(info)
        R.shuffle(ks)
        info = {k: info[k] for k in ks}
        path = fresh("res", ".json")
        with open(path, "w") as f:
            json.dump(info, f)
        keep = R.random() < .5
        args = ["--keepdata"] if keep else (["--no-keepdata"] if R.random() < .4 else [])
        stdin = None
        q = R.random()
        if q < .4:
            args += [R.choice(["-i", "--in"]), path]
        elif q < .8:
            args = [path] + args
        else:
            stdin = path
        out, js, _ = output("stats_recsys.py", args, R, stdin)
        o = {"who": "stats_recsys", "out": out, "argsok": True, "want": [], "fields": [], "levels": [], "hist": [[], []],
             "after": [], "haspred": False, "pred": ""}
        case = {"op": "stats", "folds": folds, "E": E, "prec": 9, "keep": keep, "dom": [] if finder else [lo * E, st, nl],
                "before": paths({k: v for k, v in info.items() if k != "prediction"}), "pred": canon(P), "o": o, "again": []}
        names = IFR if finder else SPS
        o["want"] = sorted(k for k in names if k != "area under the curve")
        if finder:
            o["hasauc"], o["auc"] = False, bigint(0)
        if out != "ok":
            return case
        try:
            S = flat(js["statistics"])
            for k, v in S.items():
                if k in SKIP:
                    continue
                if k != "area under the curve":
                    o["fields"].append(k)
                if k in names:
                    o[names[k]] = scaled(v, 1) if names[k] == "n" else big(v)
                    if names[k] == "auc":
                        o["hasauc"] = True
            o["fields"].sort()
            if not finder:
                o["levels"] = [scaled(x, E) for x in S["score levels"]]
                o["hist"] = [[scaled(x, 1) for x in S[k + "/histogram"]] for k in ("true", "predicted")]
            o["after"] = paths({k: v for k, v in js.items() if k not in ("prediction", "statistics")})
            o["haspred"] = "prediction" in js
            if o["haspred"]:
                o["pred"] = canon(js["prediction"])
                if R.random() < .5:
                    # statistics of a file that has statistics already, perhaps of others
                    q = fresh("res", ".json")
                    first = canon(js["statistics"])
                    if R.random() < .5:
                        js["statistics"] = {"n_samples": -1, "old": 1}
                    with open(q, "w") as f:
                        json.dump(js, f)
                    out2, js2, _ = output("stats_recsys.py", ["--keepdata"] * R.randint(0, 1) + [q], R)
                    case["again"] = [{"out": out2, "first": first, "second": canon((js2 or {}).get("statistics")),
                                      "after": paths({k: v for k, v in (js2 or {}).items() if k not in ("prediction", "statistics")})}]
        except Exception as e:
            o["out"] = "exc:" + type(e).__name__
        return case

    def scalar(R):
        """(python or numpy scalar, tree)"""
        v = R.choice([R.randint(-9, 9), R.randint(-40, 40) / 8, R.random() < .5, R.choice(["a", "", "\u3042", "x y"]), 0, 1, 0.0])
        if isinstance(v, str) or R.random() < .4:
            return (np.str_(v) if isinstance(v, str) and R.random() < .3 else v), {"k": "leaf", "v": leaf_text(v)}
        if isinstance(v, bool):
            w = np.bool_(v)
        elif isinstance(v, int):
            ty = R.choice([np.int8, np.int16, np.int32, np.int64, np.uint8, np.intp])
            w = ty(abs(v))
            v = abs(v)
        else:
            w = R.choice([np.float16, np.float32, np.float64, np.longdouble])(v)
        return w, {"k": "np", "v": leaf_text(v)}

    def array(R, depth):
        shape = R.choice([[0], [1], [3], [5], [2, 2], [1, 3], [3, 1], [0, 2], [2, 0], [2, 1, 2], [1, 1, 1, 2], []])
        n = 1
        for x in shape:
            n *= x
        q = R.randint(0, 5)
        if q == 0:
            v = [R.randint(-9, 9) for _ in range(n)]
            a = np.array(v, dtype=R.choice([int, np.int8, np.int32, np.int64]))
        elif q == 1:
            v = [R.randint(-40, 40) / 8 for _ in range(n)]
            a = np.array(v, dtype=R.choice([float, np.float16, np.float32] + ([np.longdouble] if shape else [])))
        elif q == 2:
            v = [R.random() < .5 for _ in range(n)]
            a = np.array(v, dtype=bool)
        elif q == 3:
            v = [R.choice(["a", "bc", "", "\u00e9"]) for _ in range(n)]
            a = np.array(v, dtype="U2")
        elif q == 4 and len(shape) == 1 and depth < 3:
            sub = [tree(R, depth + 2) for _ in range(n)]
            a = np.empty(n, dtype=object)
            for i in range(n):
                a[i] = sub[i][0]
            return a, {"k": "arr", "shape": shape, "v": [t for _, t in sub]}
        else:
            v = [R.randint(0, 5) for _ in range(n)]
            a = np.array(v)
        a = a.reshape(shape)
        if R.random() < .2 and a.ndim == 2:
            a = np.asfortranarray(a)
        return a, {"k": "arr", "shape": shape, "v": [{"k": "leaf", "v": leaf_text(x)} for x in v]}

    def sparse(R):
        import scipy.sparse as sp
        r, c = R.randint(1, 4), R.randint(1, 4)
        isf = R.random() < .5
        cells = R.sample([(i, j) for i in range(r) for j in range(c)], R.randint(0, r * c))
        vals = [R.randint(1, 9) / (4 if isf else 1) for _ in cells]
        if not isf:
            vals = [int(v) for v in vals]
        m = sp.coo_matrix((np.array(vals, dtype=float if isf else int),
                           (np.array([i for i, _ in cells], dtype=int), np.array([j for _, j in cells], dtype=int))), shape=(r, c))
        m = m.asformat(R.choice(["csr", "csc", "coo", "lil", "dok"]))
        return m, {"k": "sp", "shape": [r, c], "v": [[i, j, leaf_text(float(v) if isf else v)] for (i, j), v in zip(cells, vals)],
                   "zero": "f:0.0" if isf else "i:0"}

    def tree(R, depth=0):
        q = R.random()
        if depth == 0 or (q < .25 and depth < 4):
            ks = ["k%d" % i for i in range(R.choice([0, 1, 2, 4]))]
            sub = [tree(R, depth + 1) for _ in ks]
            return {k: t[0] for k, t in zip(ks, sub)}, {"k": "dict", "v": [[k, t[1]] for k, t in zip(ks, sub)]}
        if q < .45 and depth < 4:
            sub = [tree(R, depth + 1) for _ in range(R.choice([0, 1, 2, 4]))]
            return [t[0] for t in sub], {"k": "list", "v": [t[1] for t in sub]}
        if q < .7:
            return array(R, depth)
        if q < .78:
            return sparse(R)
        return scalar(R)

    def encode(x, d=0):
        if isinstance(x, dict):
            return {"k": "dict", "v": [[k, encode(v, d + 1)] for k, v in x.items()]}
        if isinstance(x, list):
            return {"k": "list", "v": [encode(v, d + 1) for v in x]}
        if type(x) in (bool, int, float) or isinstance(x, str):
            return {"k": "leaf", "v": leaf_text(x)}
        return {"k": "leaf", "v": "?:" + type(x).__name__}

    def held(R, mem):
        """(result, tree) of a memory of spec/TreeRun.tla: what is held twice is one object"""
        val, tr = {}, {}
        for n in range(len(mem), 0, -1):
            x = mem[n - 1]
            sub = [(val[j], tr[j]) for j in x["v"]]
            if x["k"] == "list":
                val[n], tr[n] = [a for a, _ in sub], {"k": "list", "v": [b for _, b in sub]}
            elif x["k"] == "dict":
                val[n] = {"k%d" % i: a for i, (a, _) in enumerate(sub)}
                tr[n] = {"k": "dict", "v": [["k%d" % i, b] for i, (_, b) in enumerate(sub)]}
            elif x["k"] == "arr":
                val[n], tr[n] = np.empty(len(sub), dtype=object), {"k": "arr", "shape": [len(sub)], "v": [b for _, b in sub]}
                for i, (a, _) in enumerate(sub):
                    val[n][i] = a
            elif x["k"] == "np" and R.random() < .3:
                val[n], tr[n] = sparse(R)
            else:
                while True:
                    val[n], tr[n] = scalar(R)
                    falsy = not bool(val[n])
                    if (tr[n]["k"] == "np") == (x["k"] == "np") and (x["k"] != "zero" or falsy):
                        break
        return val[1], tr[1]

    def json_case(R, given=None):
        v, t = held(R, given["mem"]) if given else tree(R)
        if not given and R.random() < .3:
            v, t = [v], {"k": "list", "v": [t]}
        case = {"op": "json", "x": t, "y": {"k": "leaf", "v": ""}, "z": {"k": "leaf", "v": ""}, "dumps": False}
        case["out"], _ = call(json_decodable, v)
        if case["out"] == "ok":
            case["y"] = encode(v)
            try:
                case["z"] = encode(json.loads(json.dumps(v)))
                case["dumps"] = True
            except Exception:
                pass
        return case

    kinds = {"exp": [exp_case], "folds": [folds_case], "stat": [stats_case, json_case, json_case, json_case]}[what]
    cases = []
    given = [None] * int(sys.argv[3] if len(sys.argv) > 3 else 0)
    if "HIST_IN" in os.environ:
        with open(os.environ["HIST_IN"]) as f_:
            given = json.load(f_)
    try:
        for i, h in enumerate(given):
            R = random.Random(R0.random())
            cases.append(json_case(R, h) if h and "mem" in h else folds_case(R, h) if h else R.choice(kinds)(R))
            if i % 50 == 49:
                for f in os.listdir(scratch):
                    os.remove(os.path.join(scratch, f))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return cases


if __name__ == "__main__":
    main(build)
