#!/bin/bash
# builds the SSA dumper and dumps /repo once (the checks redo this whenever the source changed)
cd "$(dirname "$0")/.." && exec python3-vt -c 'import sys; sys.path.insert(0, "engine"); import front; print(front.dump()[1])'
