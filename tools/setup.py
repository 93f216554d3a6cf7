#!/usr/bin/env python3
"""Builds the harness against /repo once, and checks that TLC starts."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib
print(lib.build())
