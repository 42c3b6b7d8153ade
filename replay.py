#!/usr/bin/env python3
"""replay.py FILE [-v]: rebuild from /repo's current tree and re-execute a recorded simulation. Exit 1 if it reproduces, 0 if the run is clean."""
import os, re, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE); sys.path.insert(0, HERE + '/sim')
import build as B
from check import ENV, symbolise
f = sys.argv[1]; b = re.search(r'^build (\w+)', open(f, errors='replace').read(), re.M).group(1)
from catalogue import PROPS
prop = re.search(r'^property (\S+)', open(f, errors='replace').read(), re.M).group(1)
exe = B.build([b], PROPS[prop]['real'] == 'rt')[b]; q = subprocess.run([exe, 'replay', f] + sys.argv[2:], env=ENV, stdout=subprocess.PIPE, text=True)
print(symbolise(exe, q.stdout)); sys.exit(q.returncode)
