#!/usr/bin/env python3
"""Runs the checks of one property:  run.py <property> [quick|thorough]

Each property is decided by jobs (see jobs.py):
  mc     TLC checks a model of spec/ exhaustively within its constants;
         a job may instead be a sensitivity run, which must be violated
  trace  a recorder of harness/ drives the code in /repo and TLC decides
         every recorded case with a trace specification of spec/
  replay TLC generates behaviours from a model, they are driven through the
         code by a recorder, and TLC decides the recorded cases
Exit 0: held; 1: VIOLATION lines were printed; 2: the machinery failed.
"""
import glob
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(HERE, "spec")
EVID = os.path.join(HERE, "evidence")
TLA = "/opt/veriftools/tla"
CP = TLA + "/tla2tools.jar:" + TLA + "/CommunityModules-deps.jar"
PY = os.environ.get("VERIF_PYTHON", "/opt/venv/bin/python")
REPO = os.environ.get("VERIF_REPO", "/repo")

from concurrent.futures import ThreadPoolExecutor  # noqa: E402

sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import jobs as J  # noqa: E402


class Broken(Exception):
    """the machinery failed, which is neither 0 nor 1"""


def log(*a):
    print(*a, flush=True)


def tlc(scratch, module, cfg, env=None, workers=8, timeout=800, extra=(), heap="6g"):
    meta = tempfile.mkdtemp(dir=scratch)
    cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap, "-Djava.io.tmpdir=" + scratch,
           "-DTLA-Library=" + SPEC, "-cp", CP, "tlc2.TLC",
           "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
           "-config", os.path.join(SPEC, cfg)] + list(extra) + [os.path.join(SPEC, module + ".tla")]
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=scratch, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Broken("TLC ran out of time on %s/%s" % (module, cfg))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return p.returncode, p.stdout.decode("utf-8", "replace")


def stats(out):
    m = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", out)
    if not m:
        return 0, 0
    g, d = m[-1]
    return int(g.replace(",", "")), int(d.replace(",", ""))


def printed(out, tag):
    """values printed by the specification as  "TAG|payload"  """
    r = []
    pre = '"' + tag + "|"
    for line in out.splitlines():
        if line.startswith(pre) and line.endswith('"'):
            body = line[len(pre):-1]
            r.append(body.replace('\\"', '"').replace("\\\\", "\\"))
    return r


def record(scratch, suite, args, seed, tier, extra_env=None, timeout=800, shards=4):
    """cases of a recorder, recorded in parallel by processes with a share of the cases each"""
    if shards > 1:
        args = list(args)
        n = args.pop()
        share = [n // shards + (i < n % shards) for i in range(shards)]
        with ThreadPoolExecutor(shards) as ex:
            fs = [ex.submit(record, scratch, suite, args + [k], seed, tier,
                            dict(extra_env or {}, VERIF_SHARD=str(i)), timeout, 1)
                  for i, k in enumerate(share) if k]
            outs = [f.result() for f in fs]
        return merged(scratch, outs)
    out = tempfile.mktemp(suffix=".json", dir=scratch)
    env = dict(os.environ)
    env.update(PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1",
               OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", VERIF_SEED=str(seed), VERIF_TIER=tier,
               VERIF_REPO=REPO, VERIF_SCRATCH=scratch, PYTHONHASHSEED="0", TMPDIR=scratch)
    env.update(extra_env or {})
    try:
        p = subprocess.run([PY, os.path.join(HERE, "harness", suite + ".py"), out] + [str(a) for a in args],
                           cwd=scratch, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Broken("recorder %s ran out of time" % suite)
    if p.returncode or not os.path.exists(out):
        raise Broken("recorder %s failed:\n%s" % (suite, p.stdout.decode("utf-8", "replace")[-3000:]))
    return out


def merged(scratch, outs):
    cases = []
    for o in outs:
        with open(o) as f:
            cases += json.load(f)
    out = tempfile.mktemp(suffix=".json", dir=scratch)
    with open(out, "w") as f:
        json.dump(cases, f, separators=(",", ":"))
    return out


def behaviours(scratch, job, seed):
    """behaviours generated by TLC: (list of JSON texts, generated, distinct, how many there were)"""
    gen = job["gen"]
    extra = []
    if job.get("walks"):
        # random walks of the specification instead of all behaviours
        extra = ["-simulate", "num=%d" % job["walks"], "-depth", str(job["depth"]), "-seed", str(seed)]
    rc, out = tlc(scratch, gen[0], gen[1], timeout=job.get("timeout", 800), extra=extra,
                  workers=1 if extra else 4)
    g, d = stats(out)
    hist = sorted(set(printed(out, "HIST")))
    if rc != 0 or not hist:
        raise Broken("generation by %s failed (rc %d):\n%s" % (gen, rc, out[-2000:]))
    total = len(hist)
    if job.get("limit") and total > job["limit"]:
        hist = random.Random(seed).sample(hist, job["limit"])
    return hist, g, d, total


def record_behaviours(scratch, job, seed, tier, shards=4):
    """generate behaviours and drive them through the code"""
    t0 = time.time()
    hist, g, d, total = behaviours(scratch, job, seed)
    t1 = time.time()
    share = [hist[i::shards] for i in range(shards)]

    def one(i):
        hf = tempfile.mktemp(suffix=".json", dir=scratch)
        with open(hf, "w") as f:
            f.write("[" + ",".join(share[i]) + "]")
        return record(scratch, job["suite"], job.get("args", []), seed, tier,
                      {"HIST_IN": hf, "VERIF_SHARD": str(i)}, job.get("timeout", 800), 1)
    with ThreadPoolExecutor(shards) as ex:
        outs = list(ex.map(one, [i for i in range(shards) if share[i]]))
    run = {"model": job["gen"][0], "cfg": job["gen"][1], "distinct_states": d, "states_generated": g,
           "behaviours": total, "behaviours_replayed": len(hist), "wall_s": round(t1 - t0, 1)}
    return merged(scratch, outs), run


def decide(scratch, module, trace, cfg="Trace.cfg", timeout=800):
    """TLC's verdicts on the cases of a trace file: (bad, done, generated, distinct)"""
    with open(trace) as f:
        cases = json.load(f)
    n = len(cases)
    if n == 0:
        raise Broken("%s: nothing was recorded" % module)
    rc, out = tlc(scratch, module, cfg, {"TRACE_IN": trace}, timeout=timeout)
    bad = [json.loads(x) for x in printed(out, "BAD")]
    done = {int(x) for x in printed(out, "DONE")}
    gen, dist = stats(out)
    if rc != 0:
        # the observation is outside what the specification can even read:
        # find the cases at fault one by one
        if "Parse Error" in out or "semantic error" in out.lower() or not done and n == 1:
            raise Broken("TLC failed on %s:\n%s" % (module, out[-3000:]))
        for i in [i for i in range(1, n + 1) if i not in done]:
            one = tempfile.mktemp(suffix=".json", dir=scratch)
            with open(one, "w") as f:
                json.dump([cases[i - 1]], f)
            rc1, out1 = tlc(scratch, module, cfg, {"TRACE_IN": one}, timeout=timeout, workers=1)
            g1, d1 = stats(out1)
            gen, dist = gen + g1, dist + d1
            for x in printed(out1, "BAD"):
                b = json.loads(x)
                b["case"] = i
                if b not in bad:
                    bad.append(b)
            done.add(i)
            if rc1 != 0:
                err = [x for x in out1.splitlines() if x.startswith("Error") or "ttempt" in x or "evaluat" in x]
                bad.append({"case": i, "step": 0, "op": cases[i - 1].get("op", "case"),
                            "bad": [["*", "observation outside the specification: " + " / ".join(err)[:300]]]})
            if len([b for b in bad if b["step"] == 0]) >= 3:
                done = set(range(1, n + 1))
                break
    if done != set(range(1, n + 1)):
        raise Broken("%s: %d of %d cases were not decided\n%s" % (module, n - len(done), n, out[-2000:]))
    return cases, bad, gen, dist


def shorten(x, depth=0):
    if isinstance(x, dict):
        return {k: shorten(v, depth + 1) for k, v in list(x.items())[:14]} if depth < 5 else "..."
    if isinstance(x, list):
        return [shorten(v, depth + 1) for v in x[:6]] + (["... %d more" % (len(x) - 6)] if len(x) > 6 else []) \
            if depth < 6 else "..."
    return x


def known():
    r = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\S+) match="([^"]*)" (.*)', line)
            if m:
                r.append(m.groups())
    return r


def check(prop, tier, seed):
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="verif_")
    rdir = os.path.join(EVID, "replay")
    os.makedirs(rdir, exist_ok=True)
    for f in glob.glob(os.path.join(rdir, prop + "_*.json")):
        os.remove(f)
    violations, findings, samples, notes = [], [], [], []
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0,
           "model_runs": [], "trace_runs": []}
    try:
        todo = J.jobs(prop, tier)
        # recording of traces goes on while others are decided
        ahead = ThreadPoolExecutor(1)
        recorded = {i: ahead.submit(record, scratch, j["suite"], j.get("args", []), seed, tier, {},
                                    timeout=j.get("timeout", 800), shards=j.get("shards", 4))
                    for i, j in enumerate(todo) if j["kind"] == "trace"}
        recorded.update({i: ahead.submit(record_behaviours, scratch, j, seed, tier)
                         for i, j in enumerate(todo) if j["kind"] == "replay"})
        for at, job in enumerate(todo):
            j0 = time.time()
            kind = job["kind"]
            if kind == "mc":
                rc, out = tlc(scratch, job["module"], job["cfg"], job.get("env"), timeout=job.get("timeout", 800))
                gen, dist = stats(out)
                if job.get("expect", "ok") == "ok":
                    if rc != 0:
                        raise Broken("model %s/%s does not hold (rc %d):\n%s" % (job["module"], job["cfg"], rc, out[-3000:]))
                else:
                    if rc not in (12, 13) or job["expect"] not in out:
                        raise Broken("sensitivity run %s/%s was not violated as expected (rc %d):\n%s"
                                     % (job["module"], job["cfg"], rc, out[-2000:]))
                if dist == 0:
                    raise Broken("model %s/%s has no states" % (job["module"], job["cfg"]))
                cov["states"] += dist
                cov["transitions"] += gen
                cov["model_runs"].append({"model": job["module"], "cfg": job["cfg"], "distinct_states": dist,
                                          "states_generated": gen, "outcome": job.get("expect", "ok"),
                                          "wall_s": round(time.time() - j0, 1)})
                continue
            if kind == "replay":
                trace, run = recorded[at].result()
                cov["states"] += run["distinct_states"]
                cov["transitions"] += run["states_generated"]
                cov["model_runs"].append(run)
            else:
                trace = recorded[at].result()
            j1 = time.time()
            cases, bad, gen, dist = decide(scratch, job["module"], trace, timeout=job.get("timeout", 800))
            mine = {}
            for b in bad:
                for tags, name in b["bad"]:
                    if tags == "*" or prop in tags.split(","):
                        mine.setdefault(b["case"], []).append((b["step"], b["op"], name))
            cov["states"] += dist
            cov["transitions"] += gen
            cov["traces_validated_against_impl"] += len(cases) - len(mine)
            cov["trace_runs"].append({"recorder": job["suite"], "args": job.get("args", []), "spec": job["module"],
                                      "cases": len(cases), "rejected_for_this_property": len(mine),
                                      "rejected_for_other_properties": len({b["case"] for b in bad} - set(mine)),
                                      "record_s": round(j1 - j0, 1), "decide_s": round(time.time() - j1, 1)})
            if len(samples) < 3:
                samples.append({"recorder": job["suite"], "case": shorten(cases[len(cases) // 2])})
            for c, vs in sorted(mine.items()):
                vs.sort()
                step, op, name = vs[0]
                key = "%s:%s:%s" % (job["module"], op, name)
                hit = [k for k in known() if k[0] == prop and k[1] and k[1] in key + ":" + json.dumps(cases[c - 1].get("what", ""))]
                if hit:
                    findings.append((prop, hit[0][2]))
                    continue
                path = os.path.join(rdir, "%s_%s_%d.json" % (prop, job["suite"], len(violations) + 1))
                if len(violations) < 20:
                    with open(path, "w") as f:
                        json.dump({"property": prop, "module": job["module"], "recorder": job["suite"],
                                   "args": job.get("args", []), "seed": seed, "tier": tier, "failing": vs,
                                   "case": cases[c - 1]}, f)
                violations.append((prop, path if len(violations) < 20 else violations[0][1],
                                   "%s step %d %s: %s" % (job["suite"], step, op, name)))
    except Broken as e:
        log("MACHINERY FAILURE:", e)
        if not violations:
            return 2
    finally:
        try:
            ahead.shutdown(wait=True, cancel_futures=True)
        except NameError:
            pass
        shutil.rmtree(scratch, ignore_errors=True)
    cov["samples"] = samples or [{"model_runs": cov["model_runs"][:2]}]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": J.ASSUME, "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for p, what in sorted(set(findings)):
        log("KNOWN-FINDING: property=%s %s" % (p, what))
    for p, path, what in violations[:20]:
        log("VIOLATION property=%s replay=%s  %s" % (p, os.path.relpath(path, HERE), what))
    if not violations:
        log("OK property=%s states=%d traces=%d wall=%.1fs" % (prop, cov["states"], cov["traces_validated_against_impl"], ev["wall_s"]))
    return 1 if violations else 0


def replay(path):
    """decide a saved case again"""
    with open(path) as f:
        r = json.load(f)
    scratch = tempfile.mkdtemp(prefix="verif_")
    try:
        t = os.path.join(scratch, "t.json")
        with open(t, "w") as f:
            json.dump([r["case"]], f)
        _, bad, _, _ = decide(scratch, r["module"], t)
        for b in bad:
            log(json.dumps(b))
        return 1 if bad else 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1] == "replay":
        sys.exit(replay(sys.argv[2]))
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    try:
        code = check(sys.argv[1], tier, seed)
    except Broken as e:
        log("MACHINERY FAILURE:", e)
        code = 2
    sys.exit(code)
