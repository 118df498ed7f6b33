"""Regenerates /verif/DESIGN.md from head.md, the harnesses' own descriptions, tail.md and the planted bugs:
/opt/venv/bin/python tools/mkdesign.py"""
import importlib
import json
import pathlib
import sys

HERE = pathlib.Path(__file__).parent
sys.path.insert(0, str(HERE.parent))
import vf
from vf import loader, props
loader.install()

out = (HERE / 'head.md').read_text()
titles = {json.loads(l)['id']: json.loads(l) for l in open(HERE.parent / 'properties.jsonl')}
for p in props.all_props():
    hs = props.load(p)
    m = importlib.import_module('vf.props.' + p.lower())
    out += '### %s  %s\n\n' % (p, titles[p]['title'])
    for n, h in hs.items():
        out += '* `%s` — %s. *Bounds:* %s. (%d configurations, thorough %d)\n' % (
            n, h.note.replace('\n', ' '), h.bounds, len(h.configs['quick']), len(h.configs['thorough']))
    for a in getattr(m, 'ASSUMPTIONS', []):
        out += '* Assumed: %s\n' % a
    out += '\n'
out += (HERE / 'tail.md').read_text()
caught = json.load(open(HERE / 'caught.json'))
for d in sorted((HERE.parent / 'seeded').iterdir()):
    meta = json.load(open(d / 'meta.json'))
    out += '| `%s` | %s | %s | %s |\n' % (d.name, meta['property'], meta['what_it_breaks'], caught.get(d.name, '?'))
(HERE.parent / 'DESIGN.md').write_text(out)
