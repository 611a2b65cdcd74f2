#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the catalogue below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COMMON = ('No code of the repository is executed: its source is interpreted abstractly (values are algebraic '
          'normal forms over symbolic inputs, merged with guards at joins, loops summarised). Trusted: the '
          'interpreter and its models of Python, numpy and polynomial algebra, and real arithmetic in place of '
          'floating point (rounding is not analysed). ')
CATALOGUE = []


def prop(id, title, statement, over, text, why, files, mechanism, technique, note, observe=None):
    CATALOGUE.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                          files=files, mechanism=mechanism, technique=technique, note=note, observe=observe))


NA = []


def na(id, title, statement, over, text, why, files, mechanism, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                   mechanism=mechanism, reason=reason))


exec(open(os.path.join(HERE, 'tools', 'entries.py')).read())


def main():
    have = []
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for e in CATALOGUE + NA:
            if 'technique' in e and not os.path.exists(os.path.join(HERE, 'checks', e['id'].lower() + '.py')):
                continue
            have.append(e)
            assert len(e['title']) <= 80, e['id']
            a = {'files': e['files'], 'mechanism': e['mechanism']}
            if e.get('observe'):
                a['observe_at'] = e['observe']
            f.write(json.dumps({'id': e['id'], 'title': e['title'], 'statement': e['statement'],
                                'quantifier': {'over': e['over'], 'text': e['text']},
                                'why_tests_cant': e['why'], 'anchors': a}) + '\n')
    man = {'version': 1, 'setup_cmd': 'python3 -c "import sa.harness"', 'checks': [], 'not_applicable': [],
           'notes': 'Every check analyses the working tree of /repo afresh with the Python standard library '
                    'only; VERIF_TIER=thorough raises the polynomial orders and case bounds. '
                    'No hooks are needed in /repo.'}
    for e in have:
        if 'technique' in e:
            man['checks'].append({
                'property': e['id'], 'quick_cmd': 'python3 check.py ' + e['id'],
                'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + e['id'],
                'evidence_file': 'evidence/%s.json' % e['id'],
                'technique': e['technique'], 'level': 'other', 'level_note': COMMON + e['note']})
        else:
            man['not_applicable'].append({'property': e['id'], 'reason': e['reason']})
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


main()
