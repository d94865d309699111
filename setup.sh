#!/bin/bash
# compiles the Java part of the specification and the harness
cd "$(dirname "$0")"
exec python3 - <<'P'
import sys
sys.path.insert(0, "lib")
from vf import build
build.java()
build.harness()
P
