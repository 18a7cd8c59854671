#!/usr/bin/env python3
"""Builds the engine and the harness crates once (every check does the same, incrementally)."""
import sys
from pathlib import Path
sys.path.insert(0, str(Path(__file__).resolve().parent.parent))
import check
print(*check.build())
print(*check.build("cli"))
