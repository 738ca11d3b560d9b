#!/usr/bin/env python3
"""setup_cmd: nothing is cached between runs; verify that the tools the checks need are present."""
import shutil, sys, os
need=[t for t in ('g++','java','python3') if not shutil.which(t)]
jars=[j for j in ('/opt/veriftools/tla/tla2tools.jar','/opt/veriftools/tla/CommunityModules-deps.jar') if not os.path.exists(j)]
if need or jars: print('missing',need,jars); sys.exit(1)
print('setup ok')
