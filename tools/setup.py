#!/usr/bin/env python3
"""setup_cmd: builds IWYU from /repo once, into the content-addressed cache."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import build
print(build.iwyu())
with open(os.path.join(build.CACHE if hasattr(build, 'CACHE') else '.cache', 'stamp'), 'w') as f:
    f.write('setup')
