#!/usr/bin/env python3
"""
Decides one property of the code in /repo: ``check.py C01``.

The sources of /repo's working tree are copied (without the generated caches)
to a scratch folder, the functions named by the property are verified from
their text there, and the bounded checks are executed against the same copy.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
from pathlib import Path

ROOT = Path(__file__).resolve().parent
PYTHON = '/opt/venv/bin/python'
REPO = Path(os.environ.get('VERIF_REPO', '/repo'))
LIMITS = {'quick': 700, 'thorough': 850}


def is_generated(name):
    """Caches written by the package on the first import."""
    return name.startswith('_') and name.endswith(('_stubs.py',
                                                   '_modules.py'))


def snapshot(target):
    def ignore(directory, names):
        return [name for name in names
                if name == '__pycache__' or name.endswith('.pyc')
                or (Path(directory).name == '_core' and is_generated(name))]

    shutil.copytree(REPO / 'paradigm', target / 'paradigm', ignore=ignore)


def main():
    property_id = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    started = time.time()
    scratch = Path(tempfile.mkdtemp(prefix='paradigm-verif-'))
    try:
        snapshot(scratch)
        output = scratch / 'result.json'
        environment = dict(os.environ)
        environment.update(PYTHONPATH=f'{scratch}{os.pathsep}{ROOT}',
                           PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
                           VERIF_TIER=tier, VERIF_SEED=str(seed))
        environment.pop('PYTHONSTARTUP', None)
        log = ''
        try:
            process = subprocess.run(
                    [PYTHON, '-m', 'harness.worker', property_id,
                     str(scratch), str(output)],
                    env=environment, cwd=str(scratch),
                    timeout=LIMITS.get(tier, 240), stdout=subprocess.PIPE,
                    stderr=subprocess.STDOUT, text=True,
                    start_new_session=True)
            log = process.stdout
            code = process.returncode
        except subprocess.TimeoutExpired as error:
            code = 'timeout'
            log = error.stdout or ''
            if isinstance(log, bytes):
                log = log.decode(errors='replace')
        if not output.exists():
            print(log[-4000:])
            print(f'check of {property_id} gave no result: {code}')
            return 2
        result = json.loads(output.read_text())
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return report(property_id, tier, seed, result, time.time() - started)


def report(property_id, tier, seed, result, wall):
    evidence = ROOT / 'evidence'
    evidence.mkdir(exist_ok=True)
    known = load_known(property_id)
    fresh, old = [], []
    for violation in result['violations']:
        (old if violation.get('key') in known else fresh).append(violation)
    coverage = result['coverage']
    coverage['checker_cmd'] = f'python3 check.py {property_id}'
    (evidence / f'{property_id}.json').write_text(json.dumps({
        'property': property_id, 'tier': tier, 'seed': seed,
        'level': result['level'], 'coverage': coverage,
        'assumptions': result['assumptions'], 'wall_s': round(wall, 2),
        'violations': len(fresh)}, indent=1) + '\n')
    print(result['summary'])
    for key in dict.fromkeys(v['key'] for v in old):
        print(f'KNOWN-FINDING: property={property_id} {known[key]}')
    if not fresh:
        return 0
    violation = fresh[0]
    replays = evidence / 'replays'
    replays.mkdir(exist_ok=True)
    path = replays / f'{property_id}.json'
    path.write_text(json.dumps({'property': property_id,
                                'violations': fresh[:10]}, indent=1) + '\n')
    print(json.dumps(violation, indent=1)[:3000])
    suffix = '' if violation.get('input') else ' no-failing-input-found'
    print(f'VIOLATION property={property_id} replay={path}{suffix}')
    return 1


def load_known(property_id):
    path = ROOT / 'known_findings.json'
    if not path.exists():
        return {}
    return {entry['key']: entry['what']
            for entry in json.loads(path.read_text())
            if entry['property'] == property_id
            and entry['status'] == 'finding'}


if __name__ == '__main__':
    sys.exit(main())
