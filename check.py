#!/usr/bin/env python3
import os,sys
if 'KIOVC_PY' not in os.environ:
    os.environ['KIOVC_PY']='1'
    os.execvp('python3-vt',['python3-vt']+sys.argv)
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
from kiovc import check
sys.exit(check.main(sys.argv[1:]))
