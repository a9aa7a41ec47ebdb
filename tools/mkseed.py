"""mkseed.seed(id, prop, edits, needs, breaks, demo): write seeded/<id>/ from textual edits of /repo files."""
import difflib, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def seed(id, prop, edits, needs, breaks, demo):
    d = os.path.join(V, "seeded", id)
    os.makedirs(d, exist_ok=True)
    patch = ""
    byfile = {}
    for f, old, new in edits:
        byfile.setdefault(f, []).append((old, new))
    for f, eds in byfile.items():
        src = open("/repo/" + f).read()
        dst = src
        for old, new in eds:
            assert dst.count(old) == 1, (f, old, dst.count(old))
            dst = dst.replace(old, new)
        patch += "".join(difflib.unified_diff(src.splitlines(True), dst.splitlines(True), "a/" + f, "b/" + f))
    open(d + "/patch.diff", "w").write(patch)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexport MPLBACKEND=Agg\nPYTHONPATH="$PWD" exec /opt/venv/bin/python -B -W ignore "$(dirname "$0")/demo.py"\n')
    open(d + "/demo.py", "w").write(demo.lstrip("\n"))
