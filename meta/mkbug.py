"""mkbug.py ID PROPERTY NEEDS BREAKS FILE OLD NEW [OLD NEW ...] [--demo FILE] [--np N]: writes seeded/ID from a textual edit of /repo
(the edit is undone at once). The demonstration's source is read from standard input."""
import json, os, subprocess, sys
a = sys.argv[1:]
np = None
if '--np' in a:
    i = a.index('--np'); np = a[i + 1]; del a[i:i + 2]
id, p, needs, breaks = a[:4]
edits = a[4:]
R = os.environ['BUG_REPO']
try:
    f = None
    while edits:
        if os.path.exists(os.path.join(R, edits[0])):
            f = os.path.join(R, edits.pop(0)); continue
        old, new = edits[0], edits[1]; edits = edits[2:]
        s = open(f).read()
        n = s.count(old)
        if n != 1: sys.exit('%s: %d occurrences of %r' % (f, n, old))
        open(f, 'w').write(s.replace(old, new))
    d = subprocess.run(['git', '-C', R, 'diff'], capture_output=True, text=True).stdout
finally:
    subprocess.run(['git', '-C', R, 'checkout', '-q', '--', '.'])
S = os.environ['BUG_DIR'] + id
os.makedirs(S, exist_ok=True)
open(S + '/patch.diff', 'w').write(d)
open(S + '/demo.cpp', 'w').write(sys.stdin.read())
json.dump(dict(property=p, needs=needs, what_it_breaks=breaks), open(S + '/meta.json', 'w'), indent=1)
run = 'export TMPDIR=$t OMPI_MCA_ess_singleton_isolated=1\n"$t/demo"'
if np:
    run = ('export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_rmaps_base_oversubscribe=1 OMPI_MCA_btl=self,vader OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_plm_rsh_agent=/bin/true\n'
           'timeout -k 5 120 mpirun --oversubscribe -np %s "$t/demo"' % np)

open(S + '/demo.sh', 'w').write('''#!/bin/bash
# Builds the demonstration against /repo (headers and library) and runs it: exit 0 when the property holds.
set -e
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++ -std=gnu++14 -O1 -w -pthread -DOMPI_SKIP_MPICXX -I/repo/_build/src -I/repo/src -I/usr/lib/x86_64-linux-gnu/openmpi/include "$d/demo.cpp" -o "$t/demo" /repo/_build/lib/libovxx.a -lfftw3f -lfftw3 -lopenblas -L/usr/lib/x86_64-linux-gnu/openmpi/lib -lmpi -pthread
%s
''' % run)
os.chmod(S + '/demo.sh', 0o755)
print(id, len(d.splitlines()), 'lines of diff')
