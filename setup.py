#!/usr/bin/env python3
"""Checks that the tools are there; every check builds what it needs itself."""
import shutil, sys
missing = [t for t in ('cargo', 'verus', 'cargo-kani') if not shutil.which(t)]
if missing: print('missing tools:', missing); sys.exit(1)
print('tools found')
