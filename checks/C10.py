import os, sys; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
sys.exit(c_main("C10", [("w8", "h_xer.cpp", ""), ("w4", "h_xer.cpp", "-DWORD_SIZE=4"), ("f4", "h_xer.cpp", "-DFP_WORD_SIZE=4")]))
