"""tools/mutants.py [name or property ...]: run checks against small textual changes of scratch copies of /repo.

A development aid: shows which single changes a property's check notices.  Mutants are listed in mutants.txt as
    name | properties | file
    - old line(s)
    + new line(s)
"""
import os, re, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load():
    out, cur = [], None
    for line in open(os.path.join(V, "tools", "mutants.txt")):
        line = line.rstrip("\n")
        if line.startswith("- "):
            cur[3].append(line[2:])
        elif line.startswith("+ "):
            cur[4].append(line[2:])
        elif line == "+":
            cur[4].append("")
        elif line.strip() and not line.startswith("#"):
            n, p, f = [x.strip() for x in line.split("|")]
            cur = (n, p.split(), f, [], [])
            out.append(cur)
    return out


def main(args):
    env0 = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick")
    for name, props, f, old, new in load():
        if args and name not in args and not set(props) & set(args):
            continue
        d = tempfile.mkdtemp(prefix="mutant-")
        try:
            shutil.copytree(os.environ.get("MUTANT_REPO", "/repo"), d + "/repo", ignore=shutil.ignore_patterns(".git", "tests"))
            p = d + "/repo/cyclic_boosting/" + f
            s = open(p).read()
            o, n = "\n".join(old), "\n".join(new)
            if s.count(o) != 1:
                print("%s: text found %d times" % (name, s.count(o)), flush=True)
                continue
            open(p, "w").write(s.replace(o, n))
            for prop in [x for x in props if not args or x in args or name in args]:
                t = time.time()
                r = subprocess.run(["bash", V + "/check.sh", prop], capture_output=True, text=True,
                                   env=dict(env0, VERIF_REPO=d + "/repo", VERIF_EVIDENCE=d + "/ev"))
                m = re.search(r"mismatch: (.*)", r.stdout)
                verdict = {0: "MISSED", 1: "caught"}.get(r.returncode, "ERROR")
                print("%-28s %s %s %.0fs %s" % (name, prop, verdict, time.time() - t, (m.group(1) if m else r.stdout[-300:] if r.returncode > 1 else "")[:170]), flush=True)
        finally:
            shutil.rmtree(d, ignore_errors=True)


main(sys.argv[1:])
