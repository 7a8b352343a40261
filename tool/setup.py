#!/usr/bin/env python3
"""Builds the extractor (offline, from the committed source)."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import prog  # noqa: E402

print(prog.build_plugin())
