#!/usr/bin/env python3
"""Writes DESIGN.md: the fixed text of design_intro.md and design_end.md, and for each property its
statement, the rules its check decides (taken from the last evidence), the notes below and its seeded changes."""
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
N = {}
exec(open(os.path.join(HERE, 'tools', 'design_notes.py'), encoding='utf8').read(), N)
NOTES = N['NOTES']


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'), encoding='utf8')]
    man = json.load(open(os.path.join(HERE, 'MANIFEST.json'), encoding='utf8'))
    tech = {c['property']: c['technique'] for c in man['checks']}
    na = {d['property']: d['reason'] for d in man['not_applicable']}
    seeds = {}
    for p in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
        d = json.load(open(p, encoding='utf8'))
        seeds.setdefault(d['property'], []).append((os.path.basename(os.path.dirname(p)), d))
    out = [open(os.path.join(HERE, 'tools', 'design_intro.md'), encoding='utf8').read()]
    out.append('\n## 3. The properties, one by one\n')
    for p in props:
        i = p['id']
        out.append('### %s %s\n' % (i, p['title']))
        out.append(p['statement'] + '\n')
        if i in na:
            out.append('**Not applicable.** ' + na[i] + '\n')
            continue
        out.append('*Method:* ' + tech[i] + '.\n')
        ev = json.load(open(os.path.join(HERE, 'evidence', i + '.json'), encoding='utf8'))
        c = ev['coverage']
        out.append('*Rules decided* (%d obligations on the unchanged tree, %d functions analysed, %d path classes):\n'
                   % (c['obligations'], len(c['functions_analysed']) if isinstance(c['functions_analysed'], list) else c['functions_analysed'], c['path_classes']))
        for k, v in c['rules'].items():
            out.append('- `%s`: %s' % (k, v))
        out.append('')
        if i in NOTES:
            out.append('*Oracle, bounds, limits:* ' + ' '.join(NOTES[i].split()) + '\n')
        if i in seeds:
            out.append('*Seeded changes (all caught):* ' + '; '.join('`%s` (%s; needs %s)' % (
                n, d['what_it_breaks'].rstrip('.'), d['needs'].rstrip('.')) for n, d in seeds[i]) + '.\n')
    out.append(open(os.path.join(HERE, 'tools', 'design_end.md'), encoding='utf8').read())
    open(os.path.join(HERE, 'DESIGN.md'), 'w', encoding='utf8').write('\n'.join(out))


main()
