#!/usr/bin/env python3
"""Builds the harness once, to show that it builds offline (checks build again, from /repo's current tree)."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.exit(subprocess.run([sys.executable, os.path.join(V, 'check.py'), 'C31', '--tier', 'quick', '--scale', '1', '--shards', '1'], cwd=V).returncode)
