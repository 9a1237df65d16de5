#!/usr/bin/env python3
"""Development aid: rewrite the lists of monitors in DESIGN.md from the code.
Run with /opt/venv/bin/python and PYTHONPATH=/repo/src."""
import importlib, re, sys
sys.path.insert(0, '/verif')
s = open('/verif/DESIGN.md').read()
for i in range(1, 32):
    m = importlib.import_module(f'vh.props.c{i:02d}')
    rows = [f'`{x.name}` ({x.quick} / {x.thorough} cases): ' + (x.fn.__doc__ or '').strip().split('\n')[0].rstrip('.')[:1].lower() + (x.fn.__doc__ or '').strip().split('\n')[0].rstrip('.')[1:] + '.' for x in m.MONITORS]
    a = re.search(rf'^### C{i:02d} ', s, re.M).start()
    b = s.find('\n### ', a + 5)
    b = len(s) if b < 0 else b
    sec = s[a:b]
    new = re.sub(r'Monitors:\n(?:`.*\n)+', lambda _: 'Monitors:\n' + '\n'.join(rows) + '\n', sec)
    if new == sec and 'Monitors:\n' + '\n'.join(rows) + '\n' not in sec:
        print('not placed', i)
    s = s[:a] + new + s[b:]
open('/verif/DESIGN.md', 'w').write(s)
