#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
cd "$t"; export PYTHONDONTWRITEBYTECODE=1 LD_LIBRARY_PATH=/repo/_build/src/lib PYTHONPATH=/repo/_build/python
timeout 100 python3 "$d/demo.py"
