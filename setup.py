#!/usr/bin/env python3
"""Checks the toolchain and builds the IR extractor once (each check rebuilds it when it is missing)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import frontend
f = frontend.Front()
v = f.view()
print('functions:', sum(1 for x in v['functions'].values() if not x['decl']))
f.close()
