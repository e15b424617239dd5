#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run: python3 tools/meta.py)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mechanism,
         level_note, technique):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over,
                  text=text, why=why, files=files, mechanism=mechanism,
                  level_note=level_note, technique=technique))


exec(open(os.path.join(HERE, 'tools', 'properties_src.py')).read())


def main():
    implemented = {f[:-3] for f in os.listdir(os.path.join(HERE, 'checks'))
                   if f.startswith('C') and f.endswith('.py')}
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'],
                'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']},
                'why_tests_cant': p['why'],
                'anchors': {'files': p['files'],
                            'mechanism': [{'name': a, 'where': b} for a, b in p['mechanism']]}}) + '\n')
    checks, na = [], []
    for p in P:
        if p['id'] in implemented:
            checks.append({
                'property': p['id'],
                'quick_cmd': './check.sh %s --tier quick' % p['id'],
                'thorough_cmd': './check.sh %s --tier thorough' % p['id'],
                'technique': p['technique'],
                'level': 'exploration',
                'level_note': p['level_note']})
        else:
            na.append({'property': p['id'],
                       'reason': 'check not built yet (work in progress)'})
    m = {'version': 1,
         'setup_cmd': './setup.sh',
         'checks': checks, 'not_applicable': na,
         'notes': 'All checks: Hypothesis (vendored in vendor/) driving the '
                  'code imported from /repo; see DESIGN.md.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    design()


def design():
    import re
    t = os.path.join(HERE, 'tools')
    out = [open(os.path.join(t, 'design_head.md')).read()]
    for p in P:
        out.append('### %s: %s\n\n' % (p['id'], p['title']))
        out.append('%s\n\n' % p['statement'])
        out.append('* Over: %s.\n' % p['text'])
        out.append('* Deciding method: %s.\n' % p['technique'])
        fn = os.path.join(HERE, 'checks', p['id'] + '.py')
        if os.path.exists(fn):
            src = open(fn).read()
            # sub-check names with their rules
            for m in re.finditer(r"@sub\('C\d+',\s*'([^']+)'(.*?)\ndef ", src, re.S):
                r = re.search(r"rule=\(?((?:\s*'(?:[^'\\]|\\.)*')+)", m.group(2))
                rule = ''.join(re.findall(r"'((?:[^'\\]|\\.)*)'", r.group(1))) if r else ''
                n = re.search(r'quick=(\d+),\s*thorough=(\d+)', m.group(2))
                out.append('* `%s` (%s cases quick, %s thorough): %s.\n' % (
                    m.group(1), n.group(1) if n else '?', n.group(2) if n else '?', rule))
        out.append('* Bounds and trust: %s\n' % p['level_note'])
        out.append('* Why tests cannot settle it: %s.\n\n' % p['why'])
    out.append(open(os.path.join(t, 'design_tail.md')).read())
    rp = os.path.join(t, 'plant_results.json')
    if os.path.exists(rp):
        d = json.load(open(rp))
        out.append('| planted bug | property | caught by the quick check | by |\n|---|---|---|---|\n')
        for k in sorted(d):
            h = d[k]['how'].replace('|', '/').split(':')[0].replace('FAILED ', '')
            out.append('| %s | %s | %s | %s |\n' % (k, d[k]['property'], 'yes' if d[k]['caught'] else 'no', h if d[k]['caught'] else ''))
    with open(os.path.join(HERE, 'DESIGN.md'), 'w') as f:
        f.write(''.join(out))


main()
