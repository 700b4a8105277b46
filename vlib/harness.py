"""Harness shared by every check.

A check drives the real package with generated workloads and hands every
observation to an oracle.  The harness owns the seeded generator, the tallies of
what was observed, the three-valued verdict, the known-findings filter, the
replay files and the evidence file.
"""

import contextlib
import hashlib
import json
import os
import pathlib
import random
import shutil
import sys
import tempfile
import time
import traceback
import typing
import warnings

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get('VERIF_REPO', '/repo')).resolve()
sys.dont_write_bytecode = True
sys.path.insert(0, str(REPO / 'src'))

import numpy  # noqa: E402

warnings.simplefilter('ignore')
numpy.seterr(all='ignore')

KNOWN = VERIF / 'known-findings.txt'
MAX_REPORT = 10


class Stop(Exception):
    """Raised internally to end the workload early."""


def load_known(pid: str) -> typing.Dict[str, str]:
    """Listed findings for this property: key -> description.

    Line format: ``finding: property=<id> key=<mechanism> <what fails>``.
    Lines starting with ``fixed:`` suppress nothing.
    """
    found = {}
    if not KNOWN.exists():
        return found
    for line in KNOWN.read_text().splitlines():
        line = line.strip()
        if not line.startswith('finding:'):
            continue
        fields = line[len('finding:'):].strip().split(maxsplit=2)
        if len(fields) < 3:
            continue
        prop, key, what = fields
        if prop == f'property={pid}' and key.startswith('key='):
            found[key[4:]] = what
    return found


class Check:
    """The state of one check run."""

    def __init__(self, pid: str, rule: str, assumptions=()) -> None:
        self.pid = pid
        self.rule = rule
        self.assumptions = list(assumptions)
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        tier = os.environ.get('VERIF_TIER', 'quick')
        self.tier = tier if tier in ('quick', 'thorough') else 'quick'
        self.thorough = self.tier == 'thorough'
        digest = hashlib.sha256(f'{pid}:{self.seed}'.encode()).digest()
        base = int.from_bytes(digest[:8], 'big')
        self.rng = numpy.random.default_rng(base)
        self.py = random.Random(base)
        self.t0 = time.monotonic()
        self.evaluations = 0
        self.distinct: typing.Set[bytes] = set()
        self.events: typing.Dict[str, int] = {}
        self.samples: typing.List[typing.Any] = []
        self.failures: typing.List[dict] = []
        self.known = load_known(pid)
        self.hit_known: typing.Set[str] = set()
        self.required: typing.Dict[str, int] = {}
        self._scratch: typing.List[pathlib.Path] = []
        self._failkeys: typing.Dict[str, int] = {}

    # -- workload size --------------------------------------------------
    def scale(self, quick: int, thorough: int) -> int:
        return thorough if self.thorough else quick

    def elapsed(self) -> float:
        return time.monotonic() - self.t0

    def budget(self, quick: float, thorough: float) -> bool:
        """True while there is time left; the watchdog never decides."""
        return self.elapsed() < (thorough if self.thorough else quick)

    def scratch(self) -> pathlib.Path:
        """A directory that disappears when the check ends."""
        path = pathlib.Path(tempfile.mkdtemp(prefix=f'vf-{self.pid}-'))
        self._scratch.append(path)
        return path

    # -- observations ---------------------------------------------------
    def saw(self, event: str, case: typing.Any=None, n: int=1) -> None:
        """Record one judged observation of the named kind."""
        self.events[event] = self.events.get(event, 0) + n
        self.evaluations += n
        if case is not None:
            text = f'{event}|{case!r}'
            self.distinct.add(hashlib.md5(text.encode()).digest()[:10])
            k = self.events[event]
            if k in (1, 50, 2000) and len(self.samples) < 40:
                self.samples.append({'event': event, 'case': repr(case)[:400]})

    def require(self, event: str, atleast: int=1) -> None:
        """The run decides nothing unless `event` was observed this often."""
        self.required[event] = max(atleast, self.required.get(event, 0))

    def fail(self, key: str, case: typing.Any, detail: str='') -> None:
        """Report an observation that contradicts the property."""
        if key in self.known:
            self.hit_known.add(key)
            return
        count = self._failkeys.get(key, 0) + 1
        self._failkeys[key] = count
        if count <= 3 and len(self.failures) < 200:
            self.failures.append({
                'key': key,
                'case': repr(case)[:4000],
                'detail': str(detail)[:4000],
            })

    def check(self, ok: bool, key: str, case, detail='') -> bool:
        """Judge one observation."""
        self.saw(key, case)
        if not ok:
            self.fail(key, case, detail() if callable(detail) else detail)
        return bool(ok)

    def probe(self, key: str, case, call, right, known) -> None:
        """Observe the specific input of a listed finding.

        `right` and `known` judge the outcome of `call()`: the returned object
        or the raised exception.  Only the recorded wrong outcome is filed
        under `key`; any other wrong outcome is a different violation.
        """
        self.saw(key, case)
        try:
            result = call()
        except Exception as err:
            result = err
        try:
            good = bool(right(result))
        except Exception:
            good = False
        if good:
            return
        try:
            listed = bool(known(result))
        except Exception:
            listed = False
        try:
            text = repr(result)
        except Exception:
            text = object.__repr__(result)
        self.fail(key if listed else f'{key}-changed', case, text[:500])

    @contextlib.contextmanager
    def guard(self, key: str, case):
        """An exception on input the property covers is a violation."""
        try:
            yield
        except Stop:
            raise
        except Exception as err:
            self.saw(key, case)
            tb = traceback.format_exc(limit=-6)
            self.fail(key, case, f'{type(err).__name__}: {err}\n{tb}')

    def rejects(self, key: str, case, call, allowed=(Exception,)) -> bool:
        """The call must raise one of the allowed exceptions."""
        self.saw(key, case)
        if isinstance(allowed, type):
            allowed = (allowed,)
        try:
            result = call()
        except allowed:
            return True
        except Exception as err:
            self.fail(
                key, case,
                f'raised {type(err).__name__}: {err}; expected '
                f'{[a.__name__ for a in allowed]}'
            )
            return False
        try:
            text = repr(result)
        except Exception:
            text = object.__repr__(result)
        self.fail(key, case, f'accepted; returned {text[:500]}')
        return False

    # -- verdict ---------------------------------------------------------
    def finish(self) -> int:
        for path in self._scratch:
            shutil.rmtree(path, ignore_errors=True)
        wall = time.monotonic() - self.t0
        missing = {
            k: n for k, n in self.required.items()
            if self.events.get(k, 0) < n
        }
        nviol = sum(self._failkeys.values())
        evidence = {
            'property': self.pid,
            'tier': self.tier,
            'seed': self.seed,
            'level': 'exploration',
            'coverage': {
                'evaluations': self.evaluations,
                'distinct_nontrivial': len(self.distinct),
                'rule': self.rule,
                'samples': self.samples[:40] or ['none'],
                'observed_events': dict(sorted(self.events.items())),
                'unreached_monitors': missing,
                'known_findings_seen': sorted(self.hit_known),
            },
            'assumptions': self.assumptions,
            'wall_s': round(wall, 3),
            'violations': nviol,
        }
        outdir = VERIF / 'evidence'
        outdir.mkdir(exist_ok=True)
        (outdir / f'{self.pid}.json').write_text(
            json.dumps(evidence, indent=1) + '\n'
        )
        for key in sorted(self.hit_known):
            print(f'KNOWN-FINDING: property={self.pid} [{key}] '
                  f'{self.known[key]}')
        if nviol:
            replays = VERIF / 'replays'
            replays.mkdir(exist_ok=True)
            path = replays / f'{self.pid}-{self.tier}-{self.seed}.json'
            path.write_text(json.dumps({
                'property': self.pid,
                'seed': self.seed,
                'tier': self.tier,
                'replay': f'VERIF_SEED={self.seed} VERIF_TIER={self.tier} '
                          f'/verif/run {self.pid}',
                'failures': self.failures,
                'counts': self._failkeys,
            }, indent=1) + '\n')
            print(f'VIOLATION property={self.pid} replay={path}')
            for f in self.failures[:MAX_REPORT]:
                print(f"  [{f['key']}] case={f['case'][:600]}")
                print('     ' + f['detail'][:1500].replace('\n', '\n     '))
            return 1
        if missing:
            print(f'INCONCLUSIVE property={self.pid}: monitors not reached: '
                  f'{missing}')
            return 3
        print(f'HELD property={self.pid} tier={self.tier} seed={self.seed} '
              f'evaluations={self.evaluations} '
              f'distinct={len(self.distinct)} wall={wall:.1f}s')
        return 0


def main(pid: str, rule: str, body: typing.Callable[[Check], None],
         assumptions=()) -> int:
    """Run one check body to its verdict."""
    ck = Check(pid, rule, assumptions)
    try:
        body(ck)
    except Stop:
        pass
    except Exception as err:
        # The workload itself is valid use of the package: an exception that
        # no monitor expected means valid use failed.
        ck.fail('workload-exception', f'{type(err).__name__}: {err}',
                traceback.format_exc(limit=-8))
    return ck.finish()


# -- numeric comparison helpers ------------------------------------------

def length(py, low, high):
    """Usually within the bounds, at times (up to 40) well beyond."""
    return py.randint(low, high if py.random() < .94 else 40)


def close(a, b, rtol=1e-9, atol=0.0) -> bool:
    """Elementwise closeness with matching shapes; nan equals nan."""
    a = numpy.asarray(a, dtype=float)
    b = numpy.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    return bool(numpy.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))


def describe(a, b) -> str:
    a = numpy.asarray(a)
    b = numpy.asarray(b)
    return (f'got shape {a.shape}: {a.ravel()[:8]} ; '
            f'expected shape {b.shape}: {b.ravel()[:8]}')
