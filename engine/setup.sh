#!/bin/bash
# builds the compiler driver and the dependencies once
cd "$(dirname "$0")/.." && python3 - <<'P'
import sys; sys.path.insert(0, "engine"); sys.argv = ["run.py"]
import run, os
os.makedirs(run.BUILD, exist_ok=True)
e = run.env_(); print(run.build_driver(e))
P
