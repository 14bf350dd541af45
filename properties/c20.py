import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

from contracts.cached import (ModulesKept, ModulesUnusable, StubsKept,
                              StubsUnusable)
from contracts.caches import Load, SaveFailing

from .common import TERMINATION

PROOFS = [StubsUnusable, StubsKept, ModulesUnusable, ModulesKept, Load,
          SaveFailing]
SOURCES = ('paradigm/_core/stubs.py', 'paradigm/_core/modules.py',
           'paradigm/_core/caching.py', 'paradigm/_core/execution.py')
ASSUMPTIONS = (
    TERMINATION,
    'a proper prefix of a saved cache (but for its last end of line) lacks a '
    'field or is not Python: the text of every field begins with a bracket '
    'or a quote closed by its last character; checked for sampled prefixes',
    'caches of the same version of the package, Python and mypy were made '
    'from the same stubs')

ROOT = str(Path(__file__).resolve().parent.parent)

SIGNATURES = '''
import sys, json, hashlib, builtins, datetime, collections, re, decimal
import multiprocessing
def obtain():
    from paradigm.base import signature_from_callable
    result = {}
    for owner in (builtins, datetime, collections, re, decimal, str, int,
                  float, dict, list, bytes, datetime.datetime, re.Pattern,
                  collections.OrderedDict):
        for name, value in sorted(vars(owner).items()):
            if callable(value):
                try:
                    text = repr(signature_from_callable(value))
                except Exception as error:
                    text = type(error).__name__
                result[getattr(owner, "__name__") + "." + name] = text
    with open(sys.argv[2], "w") as file:
        json.dump(result, file)
if __name__ == "__main__":
    if sys.argv[1] == "main":
        obtain()
    elif sys.argv[1] == "renamed":
        multiprocessing.current_process().name = "Renamed"
        obtain()
    else:
        method, _, daemon = sys.argv[1].partition("-")
        process = multiprocessing.get_context(method).Process(
                target=obtain, daemon=bool(daemon))
        process.start()
        process.join()
'''


class Package:
    """Own copy of the package, caches are put next to it."""

    def __init__(self, report, folder):
        self.folder = Path(folder)
        shutil.copytree(
                Path(report.scratch) / 'paradigm', self.folder / 'paradigm',
                ignore=lambda directory, names: [
                    name for name in names
                    if name == '__pycache__' or name.startswith('_mypy_')])
        self.core = self.folder / 'paradigm' / '_core'
        self.before = set(self.core.iterdir())
        self.script = self.folder / 'obtain_signatures.py'
        self.script.write_text(SIGNATURES)

    def caches(self):
        return sorted(file for file in self.core.iterdir()
                      if file not in self.before and file.suffix == '.py')

    def environment(self):
        result = dict(os.environ)
        result['PYTHONPATH'] = f'{self.folder}{os.pathsep}{ROOT}'
        return result

    def signatures(self, mode):
        output = self.folder / f'signatures-{mode}.json'
        if output.exists():
            output.unlink()
        try:
            process = subprocess.run(
                    [sys.executable, str(self.script), mode, str(output)],
                    env=self.environment(), cwd=str(self.folder),
                    stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                    timeout=100)
        except subprocess.TimeoutExpired:
            return 'no answer in 100 seconds'
        if not output.exists():
            return process.stdout.decode(errors='replace')[-1500:]
        return json.loads(output.read_text())


def histories(report):
    """Every kind of file in place of caches, in a miniature library."""
    with tempfile.TemporaryDirectory(prefix='paradigm-verif-') as folder:
        package = Package(report, folder)
        output = package.folder / 'result.json'
        process = subprocess.run(
                [sys.executable, '-m', 'harness.crash', str(output),
                 str(report.seed), '1500' if report.thorough else '250'],
                env=package.environment(), cwd=folder,
                stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if not output.exists():
            raise RuntimeError(process.stdout.decode()[-1500:])
        result = json.loads(output.read_text())
    for kind, count in result['counts'].items():
        report.count(f'histories of caches: {kind}', by=count)
    for violation in result['violations']:
        report.violation(violation['key'], violation['input'],
                         violation['expected'], violation['actual'])


def states(contents, random):
    """Contents of the caches by names and the kind of the process."""
    names = sorted(contents)

    def put(**changes):
        result = {name: contents[name] for name in names}
        for name in names:
            for key, change in changes.items():
                if key in name:
                    result[name] = change(contents[name])
        return result

    def torn(content):
        return content[:random.randrange(1, len(content) - 1)]

    def missing(content):
        return None

    def last(content):
        """Without the last field."""
        lines = content.rstrip().split(b'\n')
        starts = [i for i, line in enumerate(lines)
                  if line[:1].isalpha() or line[:1] == b'_']
        return b'\n'.join(lines[:starts[-1]]) + b'\n'

    def older(content):
        from paradigm import __version__
        return b'\n'.join(
                line.partition(b'=')[0] + b"= '0.0.0'"
                if line.rstrip().endswith(f'= {__version__!r}'.encode())
                else line.partition(b'=')[0] + b'= {}'
                for line in content.split(b'\n')
                if line[:1].isalpha() or line[:1] == b'_') + b'\n'

    yield 'complete caches', put(), 'main'
    yield 'torn caches', put(_=torn), 'main'
    yield 'torn cache of stubs', put(_stubs=torn), 'main'
    yield 'torn cache of modules', put(_modules=torn), 'main'
    yield 'caches without a field', put(_=last), 'main'
    yield 'caches of other version', put(_=older), 'main'
    yield 'no caches', put(_=missing), 'fork'
    yield 'no caches', put(_=missing), 'spawn'
    yield 'torn cache of modules', put(_modules=torn), 'fork'
    yield 'no caches', put(_=missing), 'renamed'
    yield 'no caches', put(_=missing), 'fork-daemon'


def processes(report):
    """Signatures obtained in new processes."""
    with tempfile.TemporaryDirectory(prefix='paradigm-verif-') as folder:
        package = Package(report, Path(folder) / 'first')
        expected = package.signatures('main')
        report.count('processes', 'no caches')
        if not isinstance(expected, dict):
            report.violation('import', 'no caches', 'signatures', expected)
            return
        if 'str' not in expected.get('float.hex', 'str'):
            report.violation('import', 'signature of float.hex with no '
                             'caches', 'annotations of the stub',
                             expected['float.hex'])
            return
        contents = {file.name: file.read_bytes()
                    for file in package.caches()}
        cases = list(states(contents, report.random))

        def run(case):
            index, (label, files, mode) = case
            package = Package(report, Path(folder) / str(index))
            for name, content in files.items():
                if content is not None:
                    (package.core / name).write_bytes(content)
            return package.signatures(mode)

        with ThreadPoolExecutor(os.cpu_count()) as pool:
            results = list(pool.map(run, enumerate(cases)))
    for (label, files, mode), actual in zip(cases, results):
        report.count('processes', f'{label}, {mode} process')
        if actual == expected:
            continue
        if isinstance(actual, dict):
            name = next(name for name in [*expected, *actual]
                        if expected.get(name) != actual.get(name))
            expected_, actual_ = expected.get(name), actual.get(name)
        else:
            name, expected_, actual_ = 'all', 'signatures', actual
        report.violation(f'{label}: {mode} process',
                         f'signature of {name} with {label} '
                         + str({name: content and len(content)
                                for name, content in files.items()})
                         + f' in {mode} process', expected_, actual_)


PROBES = [histories, processes]
