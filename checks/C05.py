import os, sys; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
sys.exit(c_main("C05", [("w8", "h_any.cpp", ""), ("w4f4", "h_any.cpp", "-DWORD_SIZE=4 -DFP_WORD_SIZE=4")]))
