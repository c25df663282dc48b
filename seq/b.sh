#!/bin/bash
cd "$(dirname "$0")/.."; . /opt/vp/env.sh 2>/dev/null
python3 - "$@" <<'P'
import sys, engines
rc, out = engines.seq_build(sys.argv[1:])
if rc: print(engines.errors(out, 60))
P
