import os, sys; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import scala
sys.exit(c_main("S01", [("rt", scala.build)]))
