#!/bin/bash
# nothing to build: checks that the tools are present and the contracts load
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replays
python3-vt -B -m pvc.run --list > /dev/null || exit 1
test -x /opt/venv/bin/python
