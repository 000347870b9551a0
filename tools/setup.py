#!/usr/bin/env python3
"""setup_cmd: builds the front end (extract/extract.cc) into build/."""
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'engine'))
import load
print(load.extractor())
