"""Shared parts of the recorders.

A recorder drives the code in /repo through its documented interface and
writes what it observed as JSON; judging is left to the TLA+ specification.
"""
from __future__ import annotations

import json
import os
import random
import signal
import sys
import warnings

warnings.filterwarnings("ignore")
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")

import numpy as np  # noqa: E402

SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
REPO = os.environ.get("VERIF_REPO", "/repo")
THOROUGH = TIER == "thorough"

BAD = 987654321          # stands for a value that has no faithful encoding


SHARD = int(os.environ.get("VERIF_SHARD", "0"))


def rng_for(*parts):
    return random.Random("|".join(str(p) for p in (SEED, SHARD) + parts))


class Timeout(Exception):
    pass


def _alarm(signum, frame):
    raise Timeout()


signal.signal(signal.SIGALRM, _alarm)
_hung = 0


def call(fn, *a, limit=60, **k):
    """(outcome, result): outcome is "ok" or "exc:Name"; never raises."""
    global _hung
    # code that hangs again and again is given less and less time
    signal.alarm(limit if _hung == 0 else min(limit, 8 if _hung < 4 else 1))
    try:
        with np.errstate(all="ignore"):
            r = fn(*a, **k)
        return "ok", r
    except Timeout:
        _hung += 1
        return "exc:Timeout", None
    except (KeyboardInterrupt, SystemExit) as e:
        return "exc:" + type(e).__name__, None
    except ValueError:
        return "exc:ValueError", None       # subclasses of it are one
    except TypeError:
        return "exc:TypeError", None
    except BaseException as e:  # noqa
        return "exc:" + type(e).__name__, None
    finally:
        signal.alarm(0)


def tok(x):
    """token of an external id"""
    if isinstance(x, (bool, np.bool_)):
        return "b%d" % int(x)
    if isinstance(x, (int, np.integer)):
        return "i%d" % int(x)
    if isinstance(x, (float, np.floating)) and float(x).is_integer():
        return "f%d" % int(x)
    if isinstance(x, bytes):
        return "y" + x.decode("latin-1")
    if isinstance(x, str):
        return "s" + str(x)
    return "?" + repr(x)


def vtok(x):
    """token of a value in a feature row, whatever its type"""
    if isinstance(x, np.void) or isinstance(x, tuple):
        return "(" + ",".join(vtok(y) for y in x) + ")"
    if isinstance(x, np.ndarray):
        if x.ndim == 0:
            return vtok(x[()])
        return "[" + ",".join(vtok(y) for y in x) + "]"
    if isinstance(x, list):
        return "[" + ",".join(vtok(y) for y in x) + "]"
    if isinstance(x, (bool, np.bool_)):
        return str(int(x))
    if isinstance(x, (int, np.integer)):
        return str(int(x))
    if isinstance(x, (float, np.floating)):
        return str(int(x)) if float(x).is_integer() else repr(float(x))
    return "s" + str(x)


def scaled(x, unit, tol=1e-6):
    """x * unit as an int, BAD unless it is (nearly) one"""
    try:
        v = float(x) * unit
    except Exception:
        return BAD
    if not np.isfinite(v) or abs(v) > 2e9:
        return BAD
    r = int(round(v))
    if abs(v - r) > tol * max(1.0, abs(v)):
        return BAD
    return r


def rnd(x, unit):
    v = float(x) * unit
    if not np.isfinite(v) or abs(v) > 2e9:
        return BAD
    return int(round(v))


def big(x, nd=12):
    """a float as the bignum of spec/Num.tla: round(x * 10^nd)"""
    from fractions import Fraction
    if isinstance(x, (int, np.integer)):
        n = int(x) * 10 ** nd
    else:
        f = float(x)
        if not np.isfinite(f):
            return {"s": 0, "m": [], "nan": True}
        fr = Fraction(f) * 10 ** nd
        n = round(fr)
    return bigint(n)


def bigint(n):
    n = int(n)
    s = (n > 0) - (n < 0)
    n = abs(n)
    m = []
    while n:
        n, r = divmod(n, 10000)
        m.append(r)
    return {"s": s, "m": m}


def finite(x):
    try:
        return bool(np.all(np.isfinite(np.asarray(x, dtype=float))))
    except Exception:
        return False


def write(path, cases):
    with open(path, "w") as f:
        json.dump(cases, f, separators=(",", ":"), allow_nan=False)


def main(build):
    """build() -> list of cases (each a dict); argv[1] is the output file"""
    out = sys.argv[1]
    sys.stdout = sys.stderr
    sys.path.insert(0, REPO)
    cases = build()
    write(out, cases)
