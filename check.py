#!/usr/bin/env python3-vt
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from symx import run
run.main()
