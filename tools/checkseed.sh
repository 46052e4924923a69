#!/bin/bash
# tools/checkseed.sh ID [--checks]: confirms a planted bug in a scratch copy of /repo: it applies, builds,
# passes the stable tests, and its demo passes without and fails with it. With --checks, also runs the
# property's quick check against the scratch copy (VERIF_REPO).
set -u
id=$1; S=${SEEDDIR:-/verif/seeded}/$id
W=$(mktemp -d /tmp/seed_XXXXXX); cp -a /repo "$W/repo"
cd "$W/repo" || exit 1
git checkout -q -- . 
D=$(mktemp -d /tmp/demo_XXXXXX); cp -a "$S"/. "$D"/; rm -f "$D"/*.diff "$D"/meta.json
run_demo() { (cd "$W/repo" && bash "$D/demo.sh" >"$W/demo.log" 2>&1); echo $?; }
echo "demo on unchanged: $(run_demo)"; tail -2 "$W/demo.log"
git apply --whitespace=nowarn "$S/patch.diff" || { echo "DOES NOT APPLY"; exit 1; }
git diff --stat | tail -1
r=$(run_demo); echo "demo with patch: $r"; tail -3 "$W/demo.log"
. /opt/vp/env.sh; export QUGAR_SHIM_CACHE=$W/shim
(cd cpp && for f in $(cd .. && git diff --name-only | grep -E '\.(cpp|hpp)$' | grep ^cpp/); do
  g++ -std=c++20 -I/repo/cpp/include -I../cpp/include -M -MG -x c++ -w "../$f" | grep -q algoim/ || g++ -std=c++20 -I../cpp/include -fsyntax-only -x c++ -w "../$f" || echo "SYNTAX $f"; done)
cd python/test && PYTHONPATH=$W/vp:/opt/vp bash -c "mkdir -p $W/vp; sed 's#/repo#$W/repo#g' /opt/vp/qugar_pkg.py > $W/vp/qugar_pkg.py; PYTHONPATH=$W/vp $PY -m pytest --noconftest -p qugar_pkg -p no:cacheprovider -q --basetemp=$W/tmp test_onthefly_shim.py test_onthefly_parallel_build.py test_complex_packing.py 2>&1 | tail -2"
if [ "${2:-}" = --checks ]; then
  p=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  cd /verif && VERIF_REPO=$W/repo timeout 900 python3 run.py "$p" | cut -c1-400 | tail -6; echo "check rc=${PIPESTATUS[0]}"
fi
cd /; for d in "$W" "$D"; do rm -rf "$d"; done
