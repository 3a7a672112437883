"""Writes MANIFEST.json for the checks that exist: python3 -m vf.manifest (needs no third-party package)"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TECHNIQUE = {
    'C01': 'runtime monitoring: online differential oracle (big-step reference interpreter) over enumerated and random structured programs',
    'C02': 'runtime monitoring: differential oracle (second precedence-climbing recogniser) over exhaustive operator chains, random trees, token soup',
    'C03': 'runtime monitoring: differential oracle with effect-logging operands; operator matrix over all value types; alias comparison',
    'C04': 'runtime monitoring: differential oracle (reference environments) on collision-heavy programs; exhaustive arity and shadowing matrices',
    'C05': 'runtime monitoring: exception/value-domain/debug-log monitor over library, operator and program fuzzing with injected host faults',
    'C06': 'runtime monitoring: statement accounting, diagnostic-position oracle and metamorphic prefixing over hostile texts',
    'C07': 'runtime monitoring: label/jump census, schema validation, lint and execution of every enumerated block shape',
    'C08': 'runtime monitoring: differential oracle (reference jump executor) over exhaustive statement lists; model snapshots; repeated runs',
    'C09': 'runtime monitoring: statement-budget sweep with prefix oracle over loops, recursion, callbacks, data functions, includes',
    'C10': 'runtime monitoring: metamorphic oracle (layout rewrites, chunkings, interleaved calls) on parsed models',
    'C11': 'runtime monitoring: preorder axioms and reference comparator observed over pairs, triples and every comparison consumer',
    'C12': 'runtime monitoring: two-run metamorphic oracle (int versus float spelling) over every library function and operator',
    'C13': 'runtime monitoring: round-trip oracle over random doubles, boundary numbers and near-miss texts',
    'C14': 'runtime monitoring: independent JSON decoder and injectivity oracle over exhaustive short strings and random values',
    'C15': 'runtime monitoring: history checking against an executable list/dict/str model with aliasing',
    'C16': 'runtime monitoring: proleptic-Gregorian integer oracle and round-trip monitor in several process time zones',
    'C17': 'runtime monitoring: fetch/log event trace against a virtual file-system reference with injected fetch and syntax faults',
    'C18': 'runtime monitoring: purity snapshots, warning census oracle and execution of every warning-justified edit',
    'C19': 'runtime monitoring: naive relational reference over random tables; CSV writer/reader round trip',
    'C20': 'runtime monitoring: reconstruction oracle over exhaustive and random line lists; parse/validate/lint monitor of shipped scripts',
}
NOTE = ('Held on the executions observed, with the counts and samples in the evidence file; nothing is claimed about executions not produced. '
        'Trusts the reference model in /verif/vf and the host Python.')


def main():
    checks = []
    missing = []
    for prop in sorted(TECHNIQUE):
        if os.path.exists(os.path.join(HERE, 'vf', 'checks', f'{prop.lower()}.py')):
            checks.append({
                'property': prop, 'quick_cmd': f'./check {prop} quick', 'thorough_cmd': f'./check {prop} thorough',
                'evidence_file': f'evidence/{prop}.json', 'technique': TECHNIQUE[prop], 'level': 'exploration', 'level_note': NOTE
            })
        else:
            missing.append({'property': prop, 'reason': 'The check is not built yet.'})
    manifest = {
        'version': 1, 'setup_cmd': './check --selftest', 'checks': checks, 'not_applicable': missing,
        'notes': 'No hooks in /repo: every event is observable at the public API, so MANIFEST has no "hooks" entry. '
                 'known_findings.txt lists the repairs made in /repo ("fixed:" entries).'
    }
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w', encoding='utf-8') as fh:
        json.dump(manifest, fh, indent=1)
        fh.write('\n')


if __name__ == '__main__':
    main()
