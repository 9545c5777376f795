"""setup_cmd: builds the IR reader and warms nothing else; offline"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
build.ensure_irdump()
print('setup done')
