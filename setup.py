#!/usr/bin/env python3
"""setup_cmd: checks that the toolchain is there and that the specifications parse."""
import glob, os, subprocess, sys, tempfile, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
d = tempfile.mkdtemp(prefix="verif_setup_")
try:
    os.makedirs(os.path.join(HERE, "evidence", "replay"), exist_ok=True)
    bad = 0
    mods = sorted(glob.glob(os.path.join(HERE, "spec", "*.tla")))
    p = subprocess.run(["java", "-Djava.io.tmpdir=" + d, "-DTLA-Library=" + os.path.join(HERE, "spec"), "-cp", CP,
                        "tla2sany.SANY"] + mods, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        print(p.stdout.decode()[-3000:])
        bad = 1
    print("%d modules parsed" % len(mods) if not bad else "specifications do not parse")
    q = subprocess.run(["/opt/venv/bin/python", "-c", "import numpy, scipy, sklearn, six"])
    bad |= q.returncode
finally:
    shutil.rmtree(d, ignore_errors=True)
sys.exit(1 if bad else 0)
