import os, sys; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
sys.exit(c_main("C04", [("w8", "h_str.cpp", "")] + ([("w4", "h_str.cpp", "-DWORD_SIZE=4")] if THOROUGH else [])))
