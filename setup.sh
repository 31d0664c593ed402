#!/bin/bash
# Builds the symbolic execution engine and the runtime models.
set -e
cd "$(dirname "$0")"
make -s -C engine -j8
python3 - <<'P'
import importlib.machinery, importlib.util
l = importlib.machinery.SourceFileLoader("check", "./check")
m = importlib.util.module_from_spec(importlib.util.spec_from_loader("check", l)); l.exec_module(m)
m.build_runtime()
P
