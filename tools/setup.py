#!/usr/bin/env python3
"""Checks that the tools are here and builds what does not depend on /repo."""
import os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for t in ('cargo', 'cargo-kani', 'verus', 'rustfmt'):
    if not shutil.which(t):
        sys.exit('missing tool: ' + t)
sys.exit(subprocess.call(['cargo', 'build', '--offline', '--locked', '--target-dir', os.path.join(V, '.build', 'extract')],
                         cwd=os.path.join(V, 'extract')))
