#!/usr/bin/env python3
"""setup: build the IR extractor (the checks rebuild it themselves when it is missing)"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "sa"))
import build
print(build.irdump())
