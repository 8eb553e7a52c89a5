"""Compile the number layer of the specifications."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
vlib.build()
