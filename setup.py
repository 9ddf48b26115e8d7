#!/usr/bin/env python3
"""Check that what the checks need is installed; they build everything themselves."""
import shutil,sys
missing=[t for t in ('clang','clang++','gzip','bzip2','xz','zstd') if not shutil.which(t)]
if missing: print('missing: '+' '.join(missing)); sys.exit(1)
print('ready')
