#!/bin/bash
# Nothing to build: the specifications are interpreted by TLC and the harness by
# Python.  Check that both run and that every specification module parses.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
tmp=$(mktemp -d) || exit 1
trap 'rm -rf "$tmp"' EXIT
cp spec/*.tla "$tmp"/ || exit 1
cd "$tmp" || exit 1
for m in *.tla; do
    java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$m" > sany.log 2>&1 || { cat sany.log; exit 1; }
    grep -qE 'Fatal|\*\*\* Errors|Could not' sany.log && { cat sany.log; exit 1; }
done
/opt/venv/bin/python -c "import cyclic_boosting, numpy, pandas" || exit 1
exit 0
