#!/usr/bin/env python3
"""builds the MIR dump driver and the dependencies of the witness crates"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'checks'))
import build
print(build.build_driver())
