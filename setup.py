#!/usr/bin/env python3-vt
"""builds the engine and the instrumented objects once (a cache keyed by content; every check rebuilds what changed)"""
import os, sys
V = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, V + '/engine'); sys.path.insert(0, V)
import build
build.passlib()
try: build.executable(V + '/harness/h_force.cpp', 'sym')
except build.BuildError as e: print(e)
