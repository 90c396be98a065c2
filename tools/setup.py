#!/usr/bin/env python3
"""Nothing is built ahead of time (every check rebuilds from /repo); confirm the tools are there."""
import os, shutil, sys
bad = [t for t in ('gcc', 'ar', 'java') if not shutil.which(t)]
bad += [f for f in ('/opt/veriftools/tla/tla2tools.jar', '/opt/veriftools/tla/CommunityModules-deps.jar') if not os.path.exists(f)]
print('missing: %s' % bad if bad else 'ok')
sys.exit(1 if bad else 0)
