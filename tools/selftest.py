#!/usr/bin/env python3
"""setup_cmd: checks that the compilers the checks need are present. The checks build everything themselves."""
import shutil, sys
missing = [t for t in ('g++', 'ninja', 'ar') if not shutil.which(t)]
if missing:
    sys.exit('missing tools: ' + ', '.join(missing))
print('ok')
