#!/usr/bin/env python3
"""replay.py FILE: re-run the counterexample recorded by check.py against the natively compiled sources of /repo.
Exit 42/45/46 (or a crash) with a REPLAY-VIOLATION line means that the property is violated on this input."""
import sys, re, importlib.util, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sp = importlib.util.spec_from_file_location('check', V + '/bin/check.py'); C = importlib.util.module_from_spec(sp); sp.loader.exec_module(C)
f = sys.argv[1]; t = open(f).read(); m = re.search(r'# property (\S+) harness (\S+) entry (\S+) tier (\S+)', t); k = re.search(r'\n# (\w+) at', t).group(1)
os.makedirs(C.B, exist_ok=True); exe, err = C.native_exe(V + '/' + m.group(2), m.group(3), m.group(4) == 'thorough', k == 'memory')
if not exe: print(err); sys.exit(2)
c, e = C.run_native(exe, os.path.abspath(f)); print(e); print('exit', c); sys.exit(0 if c == 0 else 1)
