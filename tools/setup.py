#!/usr/bin/env python3
"""nothing to build ahead of time: confirms the tools the checks use are present"""
import shutil, sys
need = ['clang', 'gcc', 'as', 'objdump', 'readelf', 'opt-18' if shutil.which('opt-18') else 'opt']
miss = [t for t in need if not shutil.which(t)]
print('missing: %s' % miss if miss else 'ok')
sys.exit(1 if miss else 0)
