#!/usr/bin/env python3
"""check.py Pxx [repo]: decide one property on the current source of the repository"""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import threading
threading.stack_size(512 * 1024 * 1024)
from sa.harness import main
rc = []
t = threading.Thread(target=lambda: rc.append(main(sys.argv)))
t.start()
t.join()
sys.stdout.flush()
os._exit(rc[0] if rc else 3)
