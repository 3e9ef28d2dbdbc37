#!/bin/bash
# Compiles the fixed-point overrides (every check does this itself when it finds them missing).
cd "$(dirname "$0")" && exec /opt/venv/bin/python -c 'import tlc; tlc.ensure_overrides(); print("ok")'
