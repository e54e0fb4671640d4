#!/bin/bash
# Nothing is compiled: parse the specification once and make sure the tools answer.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence/replay
/opt/venv/bin/python -c "import csvw" || exit 1
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
for f in spec/Trace*.tla; do
  (cd spec && java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$(basename "$f")" > "$d/out" 2>&1) || { cat "$d/out"; exit 1; }
done
echo ok
