#!/usr/bin/env python3-vt
"""setup_cmd: builds the executable once (checks rebuild what changed)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from lib import core
core.build("plain/grazer")
