#!/bin/bash
# builds the Java accelerator of spec/BigFloat.tla and compares it with the TLA+ definitions
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh >/dev/null 2>&1
"${PY:-/opt/venv/bin/python}" -B harness/selftest.py
