#!/usr/bin/env python3
"""setup_cmd: checks that the tools are there. Everything is built by each check from /repo's working tree."""
import shutil, subprocess, sys, os
for t in ('g++', 'java', 'python3'):
    if not shutil.which(t):
        sys.exit('missing tool: ' + t)
for f in ('/opt/veriftools/tla/tla2tools.jar', '/opt/veriftools/tla/CommunityModules-deps.jar'):
    if not os.path.exists(f):
        sys.exit('missing ' + f)
print('ok')
