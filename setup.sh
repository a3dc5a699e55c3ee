#!/bin/bash
# Builds the contract harness and the programs of /repo ahead of the checks (every check rebuilds what is missing or stale).
set -e
cd "$(dirname "$0")"
python3 - <<'P'
import sys
sys.argv = ["setup"]
import check
env = check.base_env()
check.build_harness(env)
check.build_programs(env)
P
