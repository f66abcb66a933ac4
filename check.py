#!/usr/bin/env python3
"""check.py <property> [--thorough]: decides one property on the source in /repo/src (see DESIGN.md)."""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import threading
from sa.driver import main

if __name__ == '__main__':
    rc = []
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=lambda: rc.append(main(sys.argv[1:])))
    t.start()
    t.join()
    sys.stdout.flush()
    sys.exit(rc[0] if rc else 2)
