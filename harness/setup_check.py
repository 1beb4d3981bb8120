"""setup: the tools the checks need are there (nothing is installed)."""
import os, subprocess, sys
ok = True
for p in ('/opt/venv/bin/python', '/opt/veriftools/tla/tla2tools.jar', '/opt/veriftools/tla/CommunityModules-deps.jar'):
    if not os.path.exists(p):
        print('missing ' + p); ok = False
ok = ok and subprocess.call(['java', '-version'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL) == 0
sys.exit(0 if ok else 1)
