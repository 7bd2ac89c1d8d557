#!/bin/bash
# Builds the transpiler from /repo once, so that a broken toolchain shows here.
cd "$(dirname "$0")" && exec /opt/spl-venv/bin/python lib/build.py
