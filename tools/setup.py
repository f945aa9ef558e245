#!/usr/bin/env python3
"""One-time setup: compile the Java evaluation of spec/Num.tla."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
check.setup()
