#!/usr/bin/env python3
"""parses the specifications; nothing needs to be installed or prebuilt"""
import os,sys,glob
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
from lib import *
def main():
    for t in("clang++","java","python3"):
        if not shutil.which(t): print("missing",t); return 1
    for f in sorted(glob.glob(os.path.join(SPEC,"*.tla"))):
        rc,o,e=sh(["java","-cp",JAR,"tla2sany.SANY",f],cwd=SPEC,timeout=120)
        if rc!=0 or "*** Errors" in o or "Fatal" in o: print(f,o[-2000:]); return 1
    print("ok"); return 0
if __name__=="__main__": sys.exit(main())
