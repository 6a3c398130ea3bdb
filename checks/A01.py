import os, sys; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import ada
sys.exit(c_main("A01", [("rt", lambda o: ada.build(o, False)), ("contracts", lambda o: ada.build(o, True))]))
