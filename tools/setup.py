#!/usr/bin/env python3
"""Builds the harness once and checks that TLC starts."""
import sys
from pathlib import Path
sys.path.insert(0, str(Path(__file__).resolve().parent.parent))
from vp import lib
lib.build()()
