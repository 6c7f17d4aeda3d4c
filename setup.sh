#!/bin/bash
# Checks the tools, parses every specification and warms the build cache.
set -e
cd "$(dirname "$0")"
TLA=/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar
cd spec
for f in *.tla; do
  java -cp "$TLA" tla2sany.SANY "$f" > /tmp/vp_sany.$$ 2>&1 || { cat /tmp/vp_sany.$$; exit 1; }
done
rm -f /tmp/vp_sany.$$
cd ..
python3 - <<'P'
import shutil, tempfile
import check
for area in check.AREAS:
    w = tempfile.mkdtemp(prefix="vp_setup_")
    try:
        check.build(area, w)
    finally:
        shutil.rmtree(w, ignore_errors=True)
P
mkdir -p evidence out
