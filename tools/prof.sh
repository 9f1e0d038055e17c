#!/bin/bash
# stack of the symbolic leg after N seconds: tools/prof.sh N contracts/CXX.ts [--only label]
N=$1; shift
timeout -k 1 $((N+5)) python3-vt - "$@" <<P 2>&1 | grep -v "^$" | head -${L:-80}
import threading, sys, traceback, time, os
sys.path.insert(0,'/verif/engine')
main=threading.main_thread().ident
def w():
    time.sleep($N)
    st=traceback.extract_stack(sys._current_frames()[main])
    for f in st: print(os.path.basename(f.filename), f.lineno, f.name)
    os._exit(1)
threading.Thread(target=w,daemon=True).start()
import runpy; sys.argv[0]='/verif/engine/verify.py'
runpy.run_path('/verif/engine/verify.py',run_name='__main__')
P
