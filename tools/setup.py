#!/usr/bin/env python3
"""Checks that the compilers the checks use are there. Every check builds what it needs from /repo itself (cached by content under build/)."""
import shutil, sys
sys.exit("missing: " + ", ".join(m) if (m := [t for t in ("g++", "python3") if not shutil.which(t)]) else 0)
