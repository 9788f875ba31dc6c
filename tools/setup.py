#!/usr/bin/env python3
"""Setup: nothing to build (pure Python); checks that the interpreter works."""
import os
import subprocess
import sys

PY = '/opt/venv/bin/python'
py = PY if os.path.exists(PY) else sys.executable
sys.exit(subprocess.call(
    [py, '-c', 'import numpy, scipy, pydantic, click; print("setup ok")']))
