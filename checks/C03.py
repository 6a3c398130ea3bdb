import os, sys; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
sys.exit(c_main("C03", [("w8f8", "h_real.cpp", ""), ("w4f4", "h_real.cpp", "-DWORD_SIZE=4 -DFP_WORD_SIZE=4")] + ([("w8f4", "h_real.cpp", "-DFP_WORD_SIZE=4"), ("w4f8", "h_real.cpp", "-DWORD_SIZE=4")] if THOROUGH else []),
    ["the encoding may use any X.690 8.5 binary form that denotes exactly the value; inexact foreign encodings may be off by one unit in the last place"]))
