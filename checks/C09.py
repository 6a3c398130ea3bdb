import os, sys; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
A16, A32 = 31, 32   # indices of the align16 / align32 items in h_stream.cpp
def key(part, cid, key, case, msg):
    m = re.match(r"items ([-\d,]+) offset \d+ buffer of (\d+) bytes", case)
    if m:
        it = [int(x) for x in m.group(1).split(",")]; n = int(m.group(2))
        if (A16 in it and n % 2) or (A32 in it and n % 4): return "align-in-odd-buffer"
    return None
sys.exit(c_main("C09", [("w8", "h_stream.cpp", "-DASN1SCC_STREAMING")] + ([("w4", "h_stream.cpp", "-DASN1SCC_STREAMING -DWORD_SIZE=4")] if THOROUGH else []), keyfn=key))
