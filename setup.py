#!/usr/bin/env python3
"""Compiles the Java operators of the specifications and the fault injection library."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import vlib
print(vlib.java_classes())
print(vlib.faultfs())
