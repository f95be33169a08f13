#!/bin/bash
# development helper: build and run one harness  (hrun.sh NAME PROP SEED COUNT)
exec /opt/veriftools/pyvenv/bin/python - "$@" <<'P'
import sys, os, tempfile, shutil
sys.path.insert(0, '/verif'); sys.argv = ['x'] + sys.argv[1:]
import check
w = tempfile.mkdtemp(); check.gen_config(w)
h = check.Harness(sys.argv[1], w, sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), 900)
import time; t = time.time()
if h.build():
    print('built', round(time.time() - t, 1)); t = time.time(); h.run(); print('run', round(time.time() - t, 1))
print(h.status, h.cases); print('\n'.join(h.fails[:12])); 
if h.status != 'passed': print(h.out[-1500:])
shutil.rmtree(w)
P
