#!/bin/bash
# offline sanity check of the tools the checks need; the checks build what they need themselves
cd "$(dirname "$0")/.." && /opt/venv/bin/python - <<'P'
import numpy, scipy, sklearn, Cython
print("ok")
P
which g++ clang++ >/dev/null
