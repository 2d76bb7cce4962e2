#!/bin/bash
# everything is interpreted: check the tools and that the specifications parse
set -e
cd "$(dirname "$0")"
mkdir -p evidence
java -version >/dev/null 2>&1
/opt/venv/bin/python -c 'import numpy, pandas, h5py, tables'
python3 - <<'P'
import json; json.load(open('MANIFEST.json'))
P
echo setup ok
