#!/usr/bin/env python3
"""tools/plant.py ID PROPERTY FILE <<< JSON {"edits": [[file, old, new], ...], "needs":..., "breaks":..., "demo": C++ text, "extra_sources": [...]}
makes /verif/seeded/ID from textual replacements in a scratch copy of /repo"""
import json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# run with cwd /repo after build.sh; exit 0 iff the property holds in the demonstrated case
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
R=$PWD; B=$R/_build; L=/usr/lib/x86_64-linux-gnu
g++ -O1 -std=gnu++14 -fopenmp -w -DALSVINN_USE_MPI -DBOOST_LOG_DYN_LINK -DCOMPILING_ALSVINN -DMPICH_SKIP_MPICXX -DOMPI_SKIP_MPICXX \\
  -I$R -I$R/alsfvm/include -I$R/alsutils/include -I$R/alsuq/include -I$B/alsutils/include \\
  -isystem $L/openmpi/include -isystem $L/openmpi/include/openmpi -isystem /usr/include/python3.12 -isystem /usr/include/hdf5/openmpi \\
  "$D/demo.cpp" -o "$T/demo" -L$B/alsuq -L$B/alsfvm -L$B/alsutils -L$B/addons/qmc -Wl,-rpath,$B/alsuq:$B/alsfvm:$B/alsutils:$B/addons/qmc:$L/openmpi/lib:$L/hdf5/openmpi \\
  -lalsuq -lalsfvm -lalsutils -lqmc_base $L/libboost_log.so $L/libboost_thread.so $L/libboost_filesystem.so $L/openmpi/lib/libmpi.so -lpthread || exit 2
cd "$T" && OMP_NUM_THREADS=2 ./demo
'''


def plant(id, prop, edits, needs, breaks, demo, demo_sh=None):
    t = tempfile.mkdtemp(prefix='plant_')
    d = os.path.join(t, 'r')
    subprocess.run(['git', '-C', '/repo', 'worktree', 'add', '-q', '--detach', d, 'HEAD'], check=True)
    try:
        base = subprocess.run(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD'], capture_output=True, text=True).stdout.split()[-1]
        for f, old, new in edits:
            p = os.path.join(d, f)
            s = open(p).read()
            assert s.count(old) == 1, (f, s.count(old), old)
            if '\n' not in old:
                b = subprocess.run(['git', '-C', '/repo', 'show', 'ac5aec1:' + f], capture_output=True, text=True).stdout
                ln = [l for l in s.split('\n') if old in l][0]
                assert ln in b.split('\n'), 'not an original line: ' + ln
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.run(['git', '-C', d, 'diff'], capture_output=True, text=True).stdout
        assert diff
        o = os.path.join(ROOT, 'seeded', id)
        os.makedirs(o, exist_ok=True)
        open(os.path.join(o, 'patch.diff'), 'w').write(diff)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(o, 'meta.json'), 'w'), indent=1)
        open(os.path.join(o, 'demo.sh'), 'w').write(demo_sh or DEMO)
        os.chmod(os.path.join(o, 'demo.sh'), 0o755)
        if demo:
            open(os.path.join(o, 'demo.cpp'), 'w').write(demo)
    finally:
        subprocess.run(['git', '-C', '/repo', 'worktree', 'remove', '--force', d])
        shutil.rmtree(t, ignore_errors=True)
