#!/usr/bin/env python3
"""setup: nothing to install; compile the analysed unit once so that the first check finds it in the cache."""
import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
import build
try:
    print('analysed unit:', build.compile_ir())
except build.BuildError as x:
    print('unit does not compile yet:', x)
