import os, sys; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
sys.exit(c_main("C08", [("w8", "h_acn_det.cpp", ""), ("w4", "h_acn_det.cpp", "-DWORD_SIZE=4")]))
