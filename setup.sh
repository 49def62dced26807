#!/bin/bash
# Nothing to compile: the specification is interpreted by TLC, the harness by /opt/venv.  Check both answer.
cd "$(dirname "$0")" || exit 1
chmod +x run.sh
mkdir -p evidence
for f in spec/MC_*.tla; do
  (cd spec && java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$(basename "$f")" >/dev/null 2>&1) || { echo "cannot parse $f"; exit 1; }
done
/opt/venv/bin/python -c "import casadi, networkx" || exit 1
echo ok
