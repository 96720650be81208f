#!/usr/bin/env python3
# Nothing is kept between runs; this only verifies that the tools the checks use are present.
import subprocess, sys
for c in (['java', '-version'], ['g++', '--version']):
    if subprocess.run(c, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode:
        sys.exit('missing tool: ' + c[0])
