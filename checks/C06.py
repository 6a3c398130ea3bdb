import os, sys; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
sys.exit(c_main("C06", [("w8", "h_acn_int.cpp", ""), ("w4", "h_acn_int.cpp", "-DWORD_SIZE=4")]))
