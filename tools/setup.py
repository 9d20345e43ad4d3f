#!/usr/bin/env python3
"""Nothing to build ahead: every check compiles /repo's current source itself. Reports missing tools."""
import shutil, sys
bad = [t for t in ('clang++', 'opt', 'g++', 'cvc5', 'c++filt') if not (shutil.which(t) or shutil.which(t + '-18'))]
try:
    import z3
except ImportError:
    bad.append('z3 (python)')
print('missing: ' + ', '.join(bad) if bad else 'tools present')
sys.exit(1 if bad else 0)
