#!/usr/bin/env python3
"""Systematic mutation trial: draws single-token changes from the non-test source of a copy of /repo and
runs the checks of the file they touch until one catches the change. Not part of any check.

usage: MUT=/tmp/mut automut.py SEED COUNT [FILE-PREFIX]
"""
import os, random, re, subprocess, sys, time, importlib.util
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MUT = os.environ.get("MUT", "/tmp/mut")
CH = {
 "src/multicore.rs": "C01 C02 C03 C29 C25", "src/domain.rs": "C04 C25 C07", "src/multiexp.rs": "C05 C06 C29",
 "src/lib.rs": "C08 C18 C07 C11", "groth16/src/generator.rs": "C07 C17 C11", "groth16/src/prover.rs": "C08 C10 C17 C11",
 "groth16/src/verifier.rs": "C09", "groth16/src/verifier/batch.rs": "C16 C28", "groth16/src/lib.rs": "C12 C13 C14 C10",
 "src/gadgets/boolean.rs": "C19 C18 C11", "src/gadgets/num.rs": "C21 C18 C11", "src/gadgets/uint32.rs": "C20 C18 C11",
 "src/gadgets/multieq.rs": "C20 C18 C11", "src/gadgets/lookup.rs": "C22 C18 C11", "src/gadgets/multipack.rs": "C22 C18",
 "src/gadgets/sha256.rs": "C23 C18", "src/gadgets/blake2s.rs": "C24 C18", "src/gadgets/test/mod.rs": "C27",
}
OPS = [(r"<=", "<"), (r">=", ">"), (r"(?<![<=>-])<(?![<=])(?= )", "<="), (r"(?<![-=>])>(?![>=])(?= )", ">="), (r"==", "!="), (r"!=", "=="),
 (r"&&", "||"), (r"\|\|(?= [a-z!(])", "&&"), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "), (r" / ", " * "), (r" % ", " / "),
 (r"\+=", "-="), (r"-=", "+="), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"<<", ">>"), (r">>(?= )", "<<"),
 (r"\b(\d+)\b(?!\.\w)", lambda m: str(int(m.group(1)) + 1)), (r"\b([1-9]\d*)\b(?!\.\w)", lambda m: str(int(m.group(1)) - 1)),
 (r"!(?=[a-z(])(?<!\w!)", ""), (r"\?;", ".ok();"), (r"\.add_assign\(", ".sub_assign("), (r"add_assign", "sub_assign"), (r"sub_assign", "add_assign"),
 (r"\bone\(\)", "zero()"), (r"\bzero\(\)", "one()"), (r"::ONE\b", "::ZERO"), (r"::ZERO\b", "::ONE"), (r"\.rev\(\)", ""), (r"\.double\(\)", ""),
 (r"\.not\(\)", ""), (r"\.min\(", ".max("), (r"\.max\(", ".min("), (r"\.skip\(1\)", ""), (r"Is\(", "Not("), (r"Not\(", "Is("),
 (r"\bg1\b", "g2"), (r"\balpha\b", "beta"), (r"\bbeta\b", "alpha"), (r"\bgamma\b", "delta"), (r"\bdelta\b", "gamma"), (r"\bat\b", "bt"), (r"\bbt\b", "ct"),
 (r"\br\b", "s"), (r"\bs\b", "r"), (r"\ba\b", "b"), (r"\bb\b", "c"), (r"\bc\b", "a"), (r"_inputs", "_aux"), (r"_aux", "_inputs"), (r"\bxor\b", "and"), (r"\.square\(\)", ".double()"),
 (r"^(\s+)([a-z_.]+[^=]*\([^=]*\);)\s*$", r"\1"), (r"^(\s+)(\w+ [-+*^|&]?= [^{}]*;)\s*$", r"\1")]

def sh(c, cwd=None, env=None):
    return subprocess.run(c, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)

def sites(root, pre):
    out = []
    for f in CH:
        if pre and not f.startswith(pre):
            continue
        com = False
        for n, l in enumerate(open(root + "/" + f).read().split("\n")):
            if (l.startswith(("#[cfg(test)]", "mod test")) and n > 60) or l.startswith("#[test]"):
                break
            if l.strip().startswith("/*"):
                com = True
            if com:
                com = "*/" not in l
                continue
            t = l.strip()
            if not t or t.startswith(("//", "#[", "use ", "pub use", "fn ", "pub fn", "impl", "where", "pub struct", "trace!", "debug!", "log::")):
                continue
            code = l.split(" //")[0]
            for k, (a, b) in enumerate(OPS):
                for m in re.finditer(a, code):
                    new = code[:m.start()] + m.expand(b) + code[m.end():] if isinstance(b, str) else code[:m.start()] + b(m) + code[m.end():]
                    if new != code:
                        out.append((f, n, l, new))
    return out

def main():
    seed, count, pre = int(sys.argv[1]), int(sys.argv[2]), (sys.argv[3] if len(sys.argv) > 3 else "")
    src = open(VERIF + "/tools/mutants.py").read().replace("\nmain()\n", "\n")
    g = {"__file__": VERIF + "/tools/mutants.py", "__name__": "m"}
    sys.path.insert(0, VERIF + "/tools")
    exec(src, g); g["setup"]()
    env = dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick")
    sh("git checkout -q -f .", MUT + "/repo")
    s = sites(MUT + "/repo", pre)
    rng = random.Random(seed)
    byf = {}
    for x in s: byf.setdefault(x[0], []).append(x)
    print(len(s), "sites", flush=True)
    done = 0
    while done < count:
        f = rng.choice(sorted(byf)); f, n, old, new = rng.choice(byf[f])
        sh("git checkout -q -f .", MUT + "/repo")
        p = MUT + "/repo/" + f
        L = open(p).read().split("\n"); L[n] = new; open(p, "w").write("\n".join(L))
        c = sh(". %s/verif/env.sh; unset RUSTC_WRAPPER; cd %s/repo && CARGO_TARGET_DIR=%s/ct cargo check --offline --workspace --all-features -q 2>&1 | grep -q '^error'" % (MUT, MUT, MUT))
        if c.returncode == 0:
            continue
        done += 1
        t = time.time(); hit = None; rcs = []
        for q in CH[f].split():
            r = sh("timeout 900 ./check.sh %s quick" % q, MUT + "/verif", env)
            rcs.append(r.returncode)
            if r.returncode == 1:
                hit = q; break
        print("%-7s %s:%d  %s  =>  %s  %s %ds" % (hit or "MISSED", f, n + 1, old.strip(), new.strip(), "" if hit else rcs, time.time() - t), flush=True)
    sh("git checkout -q -f .", MUT + "/repo")
main()
