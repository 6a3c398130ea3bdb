import os, sys; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
W = os.path.join(REPO, "PUSCScalaTest/asn1-pusc-lib-asn1CompilerTestInput/wrappers/c")
sys.exit(c_main("P01", [("c", "h_pusc.cpp", "-I%s -I%s/c/pusc" % (W, VERIF))], extra=[os.path.join(W, f + ".c") for f in ("Crc", "IsoChecksum", "PacketLength", "PacketErrorControl", "UInt16Coder", "Errors")]))
