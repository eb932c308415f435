#!/bin/bash
# nothing to build ahead of time: every check compiles what it needs from /repo; make sure the tools are there
cd "$(dirname "$0")" || exit 1
command -v clang >/dev/null && command -v cbmc >/dev/null && command -v python3-vt >/dev/null || exit 1
python3-vt -c 'import z3; import vf.specs' || exit 1
mkdir -p evidence replay_out
