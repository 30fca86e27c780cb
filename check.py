#!/usr/bin/env python3
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from sa.run import main

if __name__ == "__main__":
    sys.exit(main(sys.argv))
