#!/usr/bin/env python3
"""matrix.py PATCH... [-p C01,C02]: all checks on copies of the repository with one patch each (development aid)."""
import importlib.machinery
import importlib.util
import multiprocessing as mp
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
l = importlib.machinery.SourceFileLoader("chk", os.path.join(HERE, "check"))
chk = importlib.util.module_from_spec(importlib.util.spec_from_loader("chk", l))
sys.modules["chk"] = chk
l.exec_module(chk)
import jobs  # noqa: E402
from facts import Facts  # noqa: E402

args = sys.argv[1:]
props = sorted(jobs.JOBS)
if "-p" in args:
    i = args.index("-p")
    props = args[i + 1].split(",")
    del args[i:i + 2]
tier = "quick"
if "-t" in args:
    args.remove("-t")
    tier = "thorough"
auto = "-a" in args    # only the property a patch is named after
if auto:
    args.remove("-a")
base = tempfile.mkdtemp(prefix="matrix-")
try:
    for patch in args or ["clean"]:
        t0 = time.time()
        repo = os.path.join(base, "repo")
        shutil.rmtree(repo, ignore_errors=True)
        shutil.copytree("/repo", repo, symlinks=True, ignore=shutil.ignore_patterns("target"))
        if patch != "clean":
            r = subprocess.run(["git", "apply", os.path.abspath(patch)], cwd=repo, capture_output=True, text=True)
            if r.returncode:
                print(patch, "DOES NOT APPLY", r.stderr[:300])
                continue
        chk.REPO = repo
        out = os.path.join(base, "facts")
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        name = os.path.basename(os.path.dirname(patch)) + "/" + os.path.basename(patch)
        try:
            chk.F = Facts(chk.facts(out))
        except chk.BuildFailed as e:
            print(name, "DOES NOT BUILD", str(e)[-600:])
            continue
        if auto:
            props = [os.path.basename(patch)[:3].upper()]
        lst = [(p, j) for p in props for j in jobs.JOBS[p] if tier == "thorough" or not j.thorough]
        chk.JOBLIST = [(j, 200) for p, j in lst]
        order = sorted(range(len(lst)), key=lambda i: not lst[i][1].root.startswith("fn:::start"))
        with mp.get_context("fork").Pool(8, maxtasksperchild=1) as pool:
            got = dict(pool.imap_unordered(chk.run_job, order, chunksize=1))
        print("== %s (%d s)" % (name, time.time() - t0), flush=True)
        found = 0
        for p in props:
            ids = [i for i in range(len(lst)) if lst[i][0] == p]
            res = [got[i] for i in ids]
            vs = chk.judge(p, [chk.JOBLIST[i] for i in ids], res, [])
            slow = max(r["seconds"] for r in res)
            found += len(vs)
            for v in vs:
                print("   %s VIOLATION %s: %s\n        in %s at %s" % (p, v["key"], v["message"][:300], v["function"], v["at"]))
            bad = [r["root"] + " " + r["rule"] for r in res if not r["complete"]]
            if bad:
                print("   %s INCOMPLETE %s" % (p, bad))
        if auto and not found:
            print("   MISSED")
        sys.stdout.flush()
finally:
    shutil.rmtree(base, ignore_errors=True)
