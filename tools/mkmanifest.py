"""Write MANIFEST.json: a check per property that has a module in checks/."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VALUE = ('static analysis: value-flow abstract interpretation (gated SSA / value numbering with algebraic normal forms); '
         'summaries compared with reference definitions by normal form, remaining ones by random interpretation')
TECH = {
    'C05': 'static analysis: ownership/alias and effect analysis on abstract heap summaries of every public operation',
    'C15': VALUE + '; key table agreement between writer and reader',
    'C16': VALUE + '; column table agreement between writers and readers',
    'C17': 'static analysis: constant propagation of launched command lines, cross-checked against the option tables of '
           'the launched programs',
    'C18': 'static analysis: column table agreement between header, row writer and reader; dataflow of row values',
    'C19': VALUE + '; configuration table cross-agreement',
    'C20': 'static analysis: control-flow/effect analysis of process launches, exit status and output existence tests',
    'C22': 'static analysis: definite assignment, name/attribute resolution, call-signature and tuple-arity checking',
}
NOTE = ('static, over all inputs described by the summaries; obligations whose summary is not resolved are reported as '
        'undecided in the evidence and do not count as discharged')
NA = {}


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        i = p['id']
        if os.path.exists(os.path.join(HERE, 'checks', i.lower() + '.py')):
            checks.append({'property': i, 'quick_cmd': 'python3 /verif/check.py %s' % i,
                           'thorough_cmd': 'python3 /verif/check.py %s --thorough' % i,
                             'technique': TECH.get(i, VALUE),
                           'level': 'other', 'level_note': NOTE})
        else:
            na.append({'property': i, 'reason': NA.get(i, 'check not built yet')})
    m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
         'notes': 'All checks only parse the sources below /repo; nothing from /repo is imported or executed.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
