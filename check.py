#!/usr/bin/env python3
import gc, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
gc.set_threshold(300000, 20, 50)
sys.dont_write_bytecode = False
from sa.runner import main
sys.exit(main(sys.argv))
