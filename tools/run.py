#!/usr/bin/env python3
"""run.py <property> [--tier quick|thorough] [args...]: build from /repo, then decide."""
import os, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build as B

# property -> list of (executable, variant); later parts are merged by the
# executable itself, so one entry is the normal case
VARIANT = {"C09": "asan", "C10": "asan"}
# source files whose memory accesses are scheduling points in this check
RACE = {
    "C12": ["util/DirectorySourceQueue.cpp"],
    "C13": ["util/ThreadTransferHistory.cpp", "util/DirectorySourceQueue.cpp"],
    "C14": ["util/FileCreator.cpp"],
    "C19": ["util/ThreadsController.cpp", "util/CommonImpl.cpp"],
    "C20": ["Throttler.cpp"],
    "C21": ["WdtResourceController.cpp"],
    "C25": ["util/Stats.cpp", "Reporting.cpp"],
}


def main():
    prop = sys.argv[1]
    args = sys.argv[2:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        i = args.index("--tier")
        tier = args[i + 1]
        del args[i:i + 2]
    if prop == "--setup":
        r = B.build({"selftest": ["checks/selftest.cpp"]}, "plain")
        if not r:
            return 2
        return subprocess.call([r["selftest"], "--tier", "quick", "--evidence", os.path.join(B.BUILD, "selftest.json")], cwd=B.VERIF)
    v = VARIANT.get(prop, "plain")
    os.makedirs(os.path.join(B.VERIF, "evidence"), exist_ok=True)
    r = B.build({prop: [f"checks/{prop}.cpp"]}, v, wdt=prop != "C27", race=RACE.get(prop, ()), standalone=prop == "C34")
    if not r:
        print(f"{prop}: cannot build from {B.REPO}", flush=True)
        return 2
    env = dict(os.environ)
    for k in ("VMC_LOG", "VMC_TRACE"):
        env.pop(k, None) if "--replay" not in args else None
    cmd = [r[prop], "--tier", tier, "--evidence", f"evidence/{prop}.json", "--known", "known_findings.tsv"] + args
    return subprocess.call(cmd, cwd=B.VERIF, env=env)


sys.exit(main())
