#!/usr/bin/env python3
"""Quick trials of small behaviour changes, run in scratch copies under /tmp/mut.

usage: mutants.py [ID-PREFIX..]      applies each change to a copy of /repo and runs the named checks
of a copy of /verif on it; prints which were caught. Not part of any check.
"""
import os, re, subprocess, sys, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MUT = os.environ.get("MUT", "/tmp/mut")
from mutant_list import LIST

def sh(c, cwd=None, env=None):
    return subprocess.run(c, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)

def setup():
    if not os.path.isdir(MUT + "/repo"):
        os.makedirs(MUT)
        sh("git clone -q /repo %s/repo && cp /repo/Cargo.lock %s/repo/" % (MUT, MUT))
    sh("git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD", MUT + "/repo")
    sh("rsync -a --delete --exclude target --exclude .git --exclude replays --exclude evidence %s/ %s/verif/ || (mkdir -p %s/verif && cd %s && cp -a build.sh check.sh env.sh dst known-findings.txt properties.jsonl tools %s/verif/)" % (VERIF, MUT, MUT, VERIF, MUT))
    sh("mkdir -p %s/verif/evidence %s/verif/replays" % (MUT, MUT))
    r = sh("grep -rlI '/repo\\b' verif --include=*.toml --include=*.sh --include=*.rs --include=*.py --exclude-dir=target --exclude-dir=tools | xargs sed -i 's#/repo\\b#%s/repo#g'" % MUT, MUT)
    r = sh("grep -rlI '/verif\\b' verif --include=*.toml --include=*.sh --include=*.rs --exclude-dir=target --exclude-dir=tools | xargs sed -i 's#/verif\\b#%s/verif#g'" % MUT, MUT)

def main():
    pre = sys.argv[1:]
    setup()
    env = dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick")
    import json
    seeds = [("seed:" + d, json.load(open("%s/seeded/%s/meta.json" % (VERIF, d)))["property"], None, None, None) for d in sorted(os.listdir(VERIF + "/seeded"))]
    for (i, props, f, old, new) in LIST + (seeds if any(p.startswith("seed:") for p in pre) else []):
        if pre and not any(i.startswith(p) for p in pre):
            continue
        sh("git checkout -q -f .", MUT + "/repo")
        if f is None:
            r = sh("git apply %s/seeded/%s/patch.diff" % (VERIF, i[5:]), MUT + "/repo")
            if r.returncode:
                print(i, "does not apply", flush=True); continue
        else:
            p = os.path.join(MUT, "repo", f)
            s = open(p).read()
            if s.count(old) != 1:
                print(i, "%d matches" % s.count(old), flush=True); continue
            open(p, "w").write(s.replace(old, new))
        for q in props.split():
            t = time.time()
            r = sh("./check.sh %s quick" % q, MUT + "/verif", env)
            v = [l for l in r.stdout.splitlines() if "VIOLATION" in l]
            k = r.stdout.splitlines().index(v[0]) if v else 0
            why = r.stdout.splitlines()[k - 1][:110] if v else ""
            if r.returncode == 2:
                why = " / ".join([l for l in r.stdout.splitlines() if l.startswith("error")][:2])
            print("%-28s %s %s %3ds %s" % (i, q, {0: "MISSED", 1: "caught", 2: "BUILD?"}.get(r.returncode, r.returncode), time.time() - t, why), flush=True)
    sh("git checkout -q -f .", MUT + "/repo")
main()
