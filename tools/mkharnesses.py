"""Regenerate HARNESSES.md: every harness with bounds, stand-ins and
assumptions, from the check modules."""
import glob
import importlib
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
os.environ.setdefault('PATH_TO_POSYDON', '/repo/')
os.environ.setdefault('PATH_TO_POSYDON_DATA',
                      '/repo/posydon/unit_tests/_data/')
props, meta = {}, {}
for f in sorted(glob.glob(os.path.join(ROOT, 'checks', '*.py'))):
    n = os.path.basename(f)[:-3]
    if n == '__init__':
        continue
    m = importlib.import_module('checks.' + n)
    for h in getattr(m, 'REG', []):
        props.setdefault(h.prop, []).append((n, h))
    for k, v in getattr(m, 'META', {}).items():
        meta.setdefault(k, []).extend(v.get('assumptions', []))
out = ['# Harness catalogue (generated by tools/mkharnesses.py)', '']
for p in sorted(props):
    out += ['## ' + p, '']
    for a in meta.get(p, []):
        out += ['*Assumes:* ' + a, '']
    for n, h in props[p]:
        d = ' '.join((h.fn.__doc__ or '').split())
        out.append('- `%s.%s` — bounds: %s%s%s' % (
            n, h.name, h.bounds or 'see assumptions',
            '; stand-ins: ' + '; '.join(h.stubs) if h.stubs else '',
            '. ' + d if d else ''))
    out.append('')
open(os.path.join(ROOT, 'HARNESSES.md'), 'w').write('\n'.join(out))
