"""Writes the generated parts of DESIGN.md: the table of checks and the table of planted bugs."""
import importlib
import json
import os
import re
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from props import registry


def checks():
    out = []
    for line in open(os.path.join(ROOT, 'properties.jsonl')):
        p = json.loads(line)
        c = importlib.import_module('props.' + registry.GROUP[p['id']]).CHECKS[p['id']]
        out += ['### %s %s' % (p['id'], p['title']), '',
                '- Generated and compared: %s.' % c.rule.replace('; non-trivial:', '. Non-trivial:'),
                '- Cases: %d quick, %d thorough.' % (c.quick, c.thorough)]
        if c.assumptions:
            out.append('- Limits: %s.' % '; '.join(c.assumptions))
        out.append('')
    return '\n'.join(out)


def bugs():
    out = ['| planted bug | caught by | what it breaks | needs |', '|---|---|---|---|']
    base = os.path.join(ROOT, 'seeded')
    for d in sorted(os.listdir(base)):
        m = json.load(open(os.path.join(base, d, 'meta.json')))
        out.append('| %s | %s | %s | %s |' % (d, m['property'], m['what_it_breaks'], m['needs']))
    return '\n'.join(out)


path = os.path.join(ROOT, 'DESIGN.md')
s = open(path).read()
for name, f in (('checks', checks), ('bugs', bugs)):
    s = re.sub(r'(<!-- begin %s -->\n).*?(<!-- end %s -->)' % (name, name),
               lambda m: m.group(1) + f() + '\n' + m.group(2), s, flags=re.S)
open(path, 'w').write(s)
