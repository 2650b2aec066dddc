"""nothing is prebuilt: every check builds what it needs from /repo.  This only verifies that the tools are there."""
import os, shutil, subprocess, sys
for t in ('java', 'g++', 'python3'):
    if not shutil.which(t):
        sys.exit('missing tool ' + t)
for f in ('/opt/veriftools/tla/tla2tools.jar', '/opt/veriftools/tla/CommunityModules-deps.jar'):
    if not os.path.exists(f):
        sys.exit('missing ' + f)
print('ok')
