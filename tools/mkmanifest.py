"""Writes MANIFEST.json from the properties and the rule modules present."""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

NOT_APPLICABLE = {
    'C22': 'the results are numbers computed at run time from the data; no '
           'static rule decides that a value is the right one',
    'C23': 'equality of data written to a file and read back quantifies over '
           'run-time values and text formats of three libraries',
    'C24': 'which values a merge or join produces depends on the run-time '
           'content of both objects',
    'C25': 'equality of run-time values across storage types; its structural '
           'part (overrides, signatures, options) is C12',
    'C26': 'which type the content of a file or list is converted to depends '
           'on every value in it',
}
TECH = {
    'C01': 'interprocedural effect analysis (abstract interpretation)',
    'C02': 'interprocedural effect and alias analysis, assume/guarantee',
    'C03': 'interprocedural alias and escape analysis',
    'C04': 'interprocedural path-count analysis of log events',
    'C05': 'taint of SQL text, must-pass and table agreement analysis',
    'C06': 'typestate analysis',
    'C07': 'who-may-call, seed dataflow and restore typestate analysis',
    'C08': 'save/restore typestate over exceptional exits',
    'C09': 'must-pass-through analysis of metadata updates',
    'C10': 'typestate: no raise after the first write',
    'C11': 'must-pass guard analysis',
    'C12': 'override/signature agreement and exhaustiveness analysis',
    'C13': 'faint-variable dataflow over the call graph, argument-to-parameter binding, mirrored-code comparison',
    'C14': 'constant propagation of operator names',
    'C15': 'guard must-pass analysis',
    'C16': 'effect analysis of configuration state and files',
    'C17': 'dead message and unraised exception analysis',
    'C18': 'guard dominance analysis',
    'C19': 'interprocedural provenance dataflow (context- and path-sensitive abstract interpretation)',
    'C20': 'declaration and direction dataflow analysis',
    'C21': 'interprocedural must-pass (validation before sink) dataflow',
}
LEVEL_NOTE = ('sound up to the stated library model and assumptions; decides '
              'the property from the source for all inputs')


def main():
    props = [json.loads(l) for l in open(os.path.join(
        HERE, 'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        pid = p['id']
        if os.path.exists(os.path.join(HERE, 'sa', 'rules',
                                       pid.lower() + '.py')):
            mod = importlib.import_module('sa.rules.' + pid.lower())
            checks.append({
                'property': pid,
                'quick_cmd': 'python3 check.py ' + pid,
                'thorough_cmd': 'python3 check.py %s --thorough' % pid,
                'evidence_file': 'evidence/%s.json' % pid,
                'technique': TECH[pid],
                'level': 'other',
                'level_note': getattr(mod, 'LEVEL_NOTE', LEVEL_NOTE)})
        else:
            na.append({'property': pid, 'reason': NOT_APPLICABLE.get(
                pid, 'not built yet: no rule decides it soundly so far')})
    json.dump({'version': 1,
               'setup_cmd': 'python3 -m py_compile check.py sa/*.py '
                            'sa/rules/*.py',
               'checks': checks, 'not_applicable': na,
               'notes': 'pure static analysis of /repo/nimble; nothing of '
                        'nimble is imported or run by a check'},
              open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
    print(len(checks), 'checks', len(na), 'not applicable')


main()
