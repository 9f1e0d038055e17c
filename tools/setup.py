"""Checks that the pre-installed tools the checks use are there; nothing is built ahead of time."""
import subprocess, sys
for c in (['node', '--version'], ['python3-vt', '-c', 'import z3; print(z3.get_version_string())'], ['node', '-e', "require('/opt/veriftools/node/node_modules/esbuild'); require('/opt/veriftools/node/node_modules/typescript'); console.log('esbuild, typescript')"]):
    r = subprocess.run(c, capture_output=True, text=True); print(' '.join(c[:2]), r.stdout.strip() or r.stderr[-300:])
    if r.returncode: sys.exit(1)
