#!/usr/bin/env python3
"""mkseed.py FILE: FILE defines SEEDS=[dict(id,property,edits=[(file,old,new[,nth])],demo=cpp text,needs,what, files={name:text})]; writes /verif/seeded/<id>/ (development helper)"""
import sys, os, subprocess, json, runpy
R = os.environ.get('SEEDREPO', '/repo')
def sh(*a): return subprocess.run(a, capture_output=True, text=True, check=True).stdout
DEMO = '''#!/bin/bash
# compiles the library sources of the current directory together with demo.cpp and runs it in a scratch directory
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd); W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
printf '#define INSTALL_DATADIR "/nonexistent"\\n#define BUILD_DATADIR "%s/data"\\n' "$R" > "$W/cgmf_config.h"
cd "$W" || exit 2
F="-std=gnu++14 -O1 -w -I$R/libcgmf/include -I$R/libcgmf -I$W -I$D"
for f in "$R"/libcgmf/src/*.cpp; do echo "$f"; done | grep -v -F EXCLUDE | xargs -P 8 -I{} sh -c "g++ $F -c {} -o \\$(basename {}).o" || exit 2
g++ $F -DREPO=\\"$R\\" -c "$D/demo.cpp" -o demo.o && g++ *.o -o demo || exit 2
: > discreteLevels.dat
[ -f "$D/levels.py" ] && python3 "$D/levels.py" discreteLevels.dat
[ -f "$D/levels.dat" ] && cp "$D/levels.dat" discreteLevels.dat
CGMFDATA="$R/data/" timeout 200 ./demo
'''
ns = runpy.run_path(sys.argv[1])
only = set(sys.argv[2:])
for s in ns['SEEDS']:
    if only and s['id'] not in only: continue
    assert sh('git', '-C', R, 'status', '--porcelain', '-uno') == '', 'repo dirty'
    try:
        for e in s['edits']:
            f, a, b = e[:3]; p = os.path.join(R, f); t = open(p).read()
            n = e[3] if len(e) > 3 else 1
            assert t.count(a) >= n, (s['id'], a, t.count(a))
            if len(e) <= 3: assert t.count(a) == 1, (s['id'], 'not unique', a, t.count(a))
            i = -1
            for _ in range(n): i = t.index(a, i + 1)
            open(p, 'w').write(t[:i] + b + t[i + len(a):])
        d = '/verif/seeded/' + s['id']; os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(sh('git', '-C', R, 'diff'))
    finally: sh('git', '-C', R, 'checkout', '--', '.')
    open(d + '/demo.cpp', 'w').write(s['demo'])
    open(d + '/demo.sh', 'w').write(s.get('sh') or DEMO.replace('EXCLUDE', s.get('exclude', '@none@')))
    os.chmod(d + '/demo.sh', 0o755)
    for n, t in s.get('files', {}).items(): open(d + '/' + n, 'w').write(t)
    json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['what']), open(d + '/meta.json', 'w'), indent=1)
    print('wrote', s['id'])
