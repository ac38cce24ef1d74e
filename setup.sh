#!/bin/bash
# Nothing to build: check that the tools are there and that every specification parses.
cd "$(dirname "$0")" || exit 1
set -e
command -v java >/dev/null
test -x /opt/venv/bin/python
d=$(mktemp -d /tmp/verif_setup_XXXXXX); trap 'rm -rf "$d"' EXIT
cp specs/*.tla "$d"/
cd "$d"
for f in Trace_*.tla Gen_*.tla; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$f" > sany.out 2>&1 || { cat sany.out; exit 1; }
  if grep -qE "^\*\*\* Errors|Fatal errors|Could not parse" sany.out; then cat sany.out; exit 1; fi
done
echo "setup ok"
