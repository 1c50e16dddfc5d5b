#!/usr/bin/python3
"""run.py <property> [--tier=quick|thorough]"""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from vp.core import main  # noqa: E402

sys.exit(main(sys.argv))
