import os, sys; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
sys.exit(c_main("C02", [("w8", "h_bits.cpp", "")] + ([("w4", "h_bits.cpp", "-DWORD_SIZE=4")] if THOROUGH else [])))
