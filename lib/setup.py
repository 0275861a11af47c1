"""Checks that the tools are there and that the specification parses."""
import os
import subprocess
import sys

import build
import check

r = subprocess.run(['go', 'version'], env=build.go_env(), stdout=subprocess.PIPE, text=True)
print(r.stdout.strip())
for m in sorted(os.listdir(check.SPEC)):
    if m.endswith('.tla'):
        r = subprocess.run(['java', '-cp', check.JARS, 'tla2sany.SANY', m], cwd=check.SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0 or 'Errors:' in r.stdout:
            print(r.stdout)
            sys.exit(1)
        print(m, 'ok')
