#!/bin/bash
# symbolic leg of contract files, condensed output: tools/sym.sh contracts/CXX.ts [verify.py options]
python3-vt "$(dirname "$0")/../engine/verify.py" "$@" 2>/tmp/sym.err | grep -v '^   fn' | cut -c1-${W:-700} | awk '/NOT PROVED/ { if (++c > 6) next } { print }'
grep -A1 'File' /tmp/sym.err | tail -6
