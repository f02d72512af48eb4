"""Writes properties.jsonl and MANIFEST.json (run by hand after editing)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS, CHECKED, NA = [], {}, {}
CPUFILES = ['src/z80.rs', 'src/z80/instructions.rs', 'src/z80/internal.rs', 'src/z80/macros.rs', 'src/z80/opcodes.rs', 'src/z80/ops.rs',
            'src/cpu/flags.rs', 'src/cpu/parse.rs', 'src/cpu/registers.rs', 'src/z80/flavours.rs']
SYM = 'symbolic execution of the LLVM IR compiled from /repo + z3 (bit-vectors); '
NOTE = ('Bounded: holds for every value of the symbolic inputs within the stated scenarios. Trusts rustc\'s IR at opt-level 1 (debug assertions and '
        'overflow checks on), the IR interpreter in engine/llir.py (validated natively on sampled traces each run), z3, and the oracle.')


def P(pid, title, stmt, over, text, cant, files, mech, state=None, observe=None, how=None, note=None, level='model_checking', na=None):
    a = {'files': files, 'mechanism': [dict(zip(('name', 'where'), m)) for m in mech], 'hook_needed': None}
    if state:
        a['state'] = [dict(zip(('name', 'meaning', 'where'), m)) for m in state]
    if observe:
        a['observe_at'] = observe
    assert len(title) <= 80, (pid, len(title))
    PROPS.append({'id': pid, 'title': title, 'statement': stmt, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': cant, 'anchors': a})
    if na:
        NA[pid] = na
    else:
        CHECKED[pid] = (SYM + how, level, note or NOTE)


REF = 'differential against an independent reference Z80 model'
CANT = ('The unit tests and the ZEXALL-style programs sample fixed operand values and fixed starting states; the claim is over all register, flag, '
        'operand and bus values at once.')
exec(open(os.path.join(V, 'tools', 'proplist.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        f.write(json.dumps(p) + '\n')
man = {
    'version': 1,
    'setup_cmd': 'true',
    'checks': [{'property': p, 'quick_cmd': './check %s quick' % p, 'thorough_cmd': './check %s thorough' % p, 'technique': t, 'level': l,
                'level_note': n, 'evidence_file': 'evidence/%s.json' % p} for p, (t, l, n) in CHECKED.items()],
    'not_applicable': [{'property': p, 'reason': r} for p, r in NA.items()],
    'notes': 'Every check rebuilds the IR and the native library of its harness crate from /repo in its own directory under /verif/build. '
             'Set ZV_CACHE=<dir> to reuse builds between runs of unchanged sources. No hooks in /repo are needed.',
}
json.dump(man, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
ids = [p['id'] for p in PROPS]
assert len(ids) == len(set(ids))
print(len(ids), 'properties,', len(CHECKED), 'checked')
