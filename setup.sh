#!/bin/sh
# One-time preparation: nothing is cached; verify that the toolchain the checks need is present.
set -e
cd "$(dirname "$0")"
mkdir -p build evidence replay
/opt/venv/bin/python -c "import amaranth, amaranth_yosys, m5meta, m5pre"
g++ --version >/dev/null
gcc --version >/dev/null
PYTHONPATH=lib PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -m vt.xval top 300 "${VERIF_SEED:-1}" build
rm -f build/xv_top build/xv_top.c build/xv_top.in build/xv_top.out
