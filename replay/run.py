#!/usr/bin/env python3-vt
"""replay/run.py NAME SEED: compile the real code and run one replay program"""
import sys, os, tempfile, subprocess, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'vc'))
import native
w = tempfile.mkdtemp(); x, err = native.build_for(w, sys.argv[1])
if not x: print(err); sys.exit(2)
r = subprocess.run([x] + sys.argv[2:]); shutil.rmtree(w); sys.exit(r.returncode)
