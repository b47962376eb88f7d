"""Writes DESIGN.md: the text below, the per-property tables and the lists of
findings and planted bugs."""
import json, os, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
import specs
from bounds import BOUNDS

HEAD = open(os.path.join(V, 'tools', 'design_head.md')).read()
TAIL = open(os.path.join(V, 'tools', 'design_tail.md')).read()
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
o = [HEAD.rstrip(), '', '## Properties: what is decided, within which bounds', '']
for p in props:
    i = p['id']
    if i not in specs.SPECS:
        continue
    s = specs.SPECS[i]
    b = BOUNDS[i]
    o += ['### %s: %s' % (i, p['title']), '']
    a = p.get('anchors', {})
    o += ['Code: ' + ', '.join('`%s`' % f for f in a.get('files', [])), '',
          'Symbolic and bounds: ' + b[0] + '.', '', 'Outside: ' + b[1] + '.', '']
    if s['assumptions']:
        o += ['Assumed: ' + '; '.join(s['assumptions']) + '.', '']

    def show(r):
        return '`%s` (%s%s)' % (r['name'], r['file'], ''.join(' %s' % (k if v is None else '%s=%s' % (k, v))
                                                            for k, v in r['defs'].items()))
    names = lambda rs: {r['name'] + str(r['defs']) for r in rs}
    o += ['Quick: ' + ', '.join(show(r) for r in s['quick']), '']
    if names(s['thorough']) - names(s['quick']):
        o += ['Thorough: ' + ', '.join(show(r) for r in s['thorough'] if r['name'] + str(r['defs']) not in names(s['quick'])), '']
o += ['## Genuine defects found', '', 'Repaired in /repo (commits "fix:"), listed in `known_findings.jsonl`:', '']
for l in open(os.path.join(V, 'known_findings.jsonl')):
    l = l.strip()
    if l.startswith('fixed: '):
        w = l.split(' ', 3)
        o.append('- %s `%s` %s' % (w[1].split('=')[1], w[2], w[3]))
o += ['', 'Recorded, not repaired:', '']
for l in open(os.path.join(V, 'known_findings.jsonl')):
    if l.startswith('{'):
        k = json.loads(l)
        o.append('- %s (%s, harness `%s`): %s' % (k['id'], k['property'], k['harness'], k['title']))
o += ['', '## Planted bugs', '', 'Each is caught by the quick check of its property (exit 1, VIOLATION line).', '',
      '| seed | property | needs | what breaks |', '|---|---|---|---|']
for f in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f))
    o.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), m['property'],
                                        m['needs'].replace('|', '/'), m['what_it_breaks'].replace('|', '/')))
o += ['', TAIL.rstrip(), '']
open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(o))
