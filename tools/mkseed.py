"""mkseed.py: makes seeded/<id>/ from an edit list and a demo program (used while developing; no check reads it)."""
import difflib, json, os, sys
REPO = os.environ.get('VERIF_REPO', '/repo')
DEMO = '''#!/bin/bash
# exit 0: the property holds on this input; nonzero: it does not
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
o=/repo/_build/main
gcc -std=gnu11 -w -g -D_DEBUG %s -I/repo/inc -I$o/generate -I/repo "$d/demo.c" -o "$t/demo" %s -lpthread -ldl -lm || exit 4
cd "$t" && ASAN_OPTIONS=detect_leaks=0 timeout 60 ./demo
'''
LIB = '$o/deploy/debug/linux_x64/liblcu_a.a'
def seed(id, prop, edits, demo, needs, breaks, cflags='', link=LIB):
    d = '/verif/seeded/' + id
    os.makedirs(d, exist_ok=True)
    out, by = [], {}
    for f, a, b in edits:
        by.setdefault(f, []).append((a, b))
    for f, l in by.items():
        raw = open(os.path.join(REPO, f), newline='').read()
        new = raw
        for a, b in l:
            if new.count(a) != 1 and '\r\n' in raw:
                a, b = a.replace('\n', '\r\n'), b.replace('\n', '\r\n')
            assert new.count(a) == 1, (id, f, new.count(a), a)
            new = new.replace(a, b)
        x, y = raw.split('\n'), new.split('\n')
        x = [l + '\n' for l in x[:-1]] + ([x[-1]] if x[-1] else [])
        y = [l + '\n' for l in y[:-1]] + ([y[-1]] if y[-1] else [])
        for line in difflib.unified_diff(x, y, 'a/' + f, 'b/' + f):
            out.append(line if line.endswith('\n') else line + '\n\\ No newline at end of file\n')
    open(d + '/patch.diff', 'w', newline='').write(''.join(out))
    open(d + '/demo.c', 'w').write(demo.lstrip('\n'))
    open(d + '/demo.sh', 'w').write(DEMO % (cflags, link))
    os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
