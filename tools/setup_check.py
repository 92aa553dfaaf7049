#!/usr/bin/env python3
"""Nothing has to be built; verify that the interpreter, Hypothesis and the code under test import."""
import os, subprocess, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
code = ("import sys; sys.path.insert(0, %r); import harness; harness.setup_paths(); import hypothesis, numpy, scipy, "
        "CADMium; print('hypothesis', hypothesis.__version__, 'numpy', numpy.__version__, 'CADMium', CADMium.__file__)"
        % os.path.join(here, "lib"))
sys.exit(subprocess.call(["/opt/venv/bin/python", "-B", "-c", code]))
