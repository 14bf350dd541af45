"""
Fills the tables of DESIGN.md in: ``python3 tools/design.py`` after a run of
all checks (counts are taken from ``evidence``).
"""
import json
from pathlib import Path

import catalogue

ROOT = Path(__file__).resolve().parent.parent


def cell(text):
    return ' '.join(str(text).split()).replace('|', '\\|')


def summary():
    rows = ['| id | functions under contract | obligations | closed by | '
            'only bounded | cross-checks (samples) | wall, s |',
            '|----|---:|---:|----|---:|----|---:|']
    for p in catalogue.PROPERTIES:
        evidence = load(p['id'])
        if evidence is None:
            continue
        c = evidence['coverage']
        backends = ', '.join(f'{k} {v}' for k, v in c['backends'].items())
        checks = ', '.join(f'{k} {v}' for k, v in c['bounded_checks'].items())
        rows.append(f"| {p['id']} | {len(c['functions_under_contract'])} | "
                    f"{c['discharged']}/{c['obligations']} | {cell(backends)}"
                    f" | {len(c['functions_only_bounded'])} | "
                    f"{cell(checks)} | {evidence['wall_s']:.0f} |")
    return '\n'.join(rows)


def load(id_):
    path = ROOT / 'evidence' / f'{id_}.json'
    return json.loads(path.read_text()) if path.exists() else None


def sections():
    result = []
    for p in catalogue.PROPERTIES:
        id_ = p['id']
        result.append(f"### {id_} {p['title']}\n")
        result.append(f"{p['statement']}\n")
        if id_ not in catalogue.CHECKS:
            result.append('Not applicable: '
                          + catalogue.NOT_APPLICABLE[id_] + '\n')
            continue
        evidence = load(id_)
        result.append('*Decided by*: '
                      + cell(catalogue.CHECKS[id_]['level_note'] or '') + '\n')
        c = evidence['coverage'] if evidence else {'contracts': []}
        for contract in c['contracts']:
            result.append(f"* `{contract['contract']}`"
                          + (f" ({', '.join(contract['functions'])})"
                             if contract['functions']
                             and contract['functions']
                             != [contract['contract']] else '')
                          + f": {contract['verdict']}, "
                            f"{contract['obligations']} obligations on "
                            f"{contract['paths']} paths")
        assumptions = [a for a in (evidence or {}).get('assumptions', [])
                       if a != 'termination is not verified (all loops are '
                               'over finite inputs)']
        if assumptions:
            result.append('\n*Assumed*: ' + cell('; '.join(assumptions))
                          + '.\n')
        result.append('*Beyond tests*: ' + cell(p['why_tests_cant'])
                      + '.\n')
    return '\n'.join(result)


def seeds():
    rows = ['| seeded | property | needs | breaks | caught by |',
            '|---|---|---|---|---|']
    for path in sorted((ROOT / 'seeded').glob('*/meta.json')):
        meta = json.loads(path.read_text())
        rows.append(f"| {path.parent.name} | {meta['property']} | "
                    f"{cell(meta['needs'])} | {cell(meta['what_it_breaks'])}"
                    f" | {cell(meta.get('caught', meta['property']))} |")
    return '\n'.join(rows)


def main():
    text = (ROOT / 'tools' / 'design.md').read_text()
    quiet = ROOT / 'tools' / 'quiet.md'
    for key, value in (('@TABLE@', summary()), ('@SECTIONS@', sections()),
                       ('@SEEDS@', seeds()),
                       ('@QUIET@', quiet.read_text().strip())):
        text = text.replace(key, value)
    (ROOT / 'DESIGN.md').write_text(text.rstrip() + '\n')


if __name__ == '__main__':
    main()
