"""A small property-based testing engine (choice sequences with integrated shrinking).

Hypothesis needs CPython >= 3.11 and amazon.ion of this revision only imports on the PyPy 3.9 the repository is built
and tested with, so the engine is our own.  Every random decision of a case is an integer in ``[0, n]`` drawn through
:class:`Data`; a case is fully determined by that list of integers, so replaying and shrinking are operations on
the list.  Nothing here reads the clock or any other source of randomness to decide what a case is.
"""
import hashlib
import random
import signal
import sys
import time
import traceback

MAX_CHOICES = 200000


class Violation(Exception):
    """The property does not hold for this case."""


class Discard(Exception):
    """The generated case is outside of the property's domain."""


class HarnessError(Exception):
    """A mistake in the machinery itself (never reported as a violation)."""


class CaseTimeout(BaseException):
    pass


class Data(object):
    """The source of all decisions made while generating one case."""

    __slots__ = ('rng', 'prefix', 'choices', 'spans', 'labels', 'is_nontrivial', 'in_check', 'key', 'sample', 'tier', 'memory')

    def __init__(self, rng=None, prefix=(), tier='quick'):
        self.rng = rng
        self.prefix = prefix
        self.choices = []
        self.spans = []
        self.labels = {}
        self.is_nontrivial = False
        self.in_check = False
        self.key = None
        self.sample = None
        self.tier = tier
        self.memory = []                    # what was generated before, for use by generators

    # -- primitive draws ------------------------------------------------------------------------------------------
    def draw(self, n):
        """An integer in [0, n]; 0 is the simplest."""
        choices = self.choices
        i = len(choices)
        if i < len(self.prefix):
            v = self.prefix[i]
            if v > n:
                v = n
        elif self.rng is not None:
            if i >= MAX_CHOICES:
                v = 0
            else:
                v = int(self.rng.random() * (n + 1)) if n < (1 << 30) else self.rng.randint(0, n)
        else:
            v = 0
        choices.append(v)
        return v

    def integer(self, lo, hi):
        return lo + self.draw(hi - lo)

    def chance(self, percent):
        """True in about ``percent`` % of the cases; shrinks to False."""
        return self.draw(999) >= 1000 - int(percent * 10)

    def boolean(self):
        return self.draw(1) == 1

    def choice(self, seq):
        return seq[self.draw(len(seq) - 1)]

    def weighted(self, pairs):
        """``pairs`` is a sequence of (weight, item); shrinks towards the first item."""
        total = 0
        for w, _ in pairs:
            total += w
        x = self.draw(total - 1)
        for w, item in pairs:
            if x < w:
                return item
            x -= w
        raise HarnessError('weighted')

    def small(self, hi, lo=0):
        """An integer in [lo, hi], biased to small values."""
        if hi <= lo:
            return lo
        m = hi - lo + 1
        x = self.draw(m * (m + 1) // 2 - 1)  # value v has weight m - v
        v = 0
        while x >= m - v:
            x -= m - v
            v += 1
        return lo + v

    def bits(self, n):
        return self.draw((1 << n) - 1) if n > 0 else 0

    def bytes(self, n):
        return bytes(bytearray(self.draw(255) for _ in range(n)))

    def subset(self, seq, percent=50):
        return [x for x in seq if self.chance(percent)]

    def shuffle(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1):
            j = i + self.draw(len(seq) - 1 - i)
            seq[i], seq[j] = seq[j], seq[i]
        return seq

    def begin(self):
        return len(self.choices)

    def end(self, start):
        self.spans.append((start, len(self.choices)))

    # -- bookkeeping ----------------------------------------------------------------------------------------------
    def case(self, key, sample=None):
        """Generation is over; ``key`` identifies the case, ``sample`` describes it."""
        self.key = key
        self.sample = sample if sample is not None else key
        self.in_check = True

    def label(self, name):
        self.labels[name] = self.labels.get(name, 0) + 1

    def nontrivial(self, cond=True):
        if cond:
            self.is_nontrivial = True


class Unit(object):
    """One executable check over generated cases."""

    def __init__(self, name, fn, quick, thorough, rule, weight=1):
        self.name = name
        self.fn = fn
        self.quick = quick
        self.thorough = thorough
        self.rule = rule

    def count(self, tier):
        return self.thorough if tier == 'thorough' else self.quick


def case_rng(seed, prop, unit, index):
    return random.Random('%s/%s/%s/%s' % (seed, prop, unit, index))


def _clip(text, n=4000):
    return text if len(text) <= n else text[:n] + '... (%d characters)' % len(text)


def in_code_under_test(tb):
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if '/amazon/ion/' in fn:
            return True
        tb = tb.tb_next
    return False


CASE_CPU_LIMIT = 60.0  # a case normally takes milliseconds


def _on_alarm(signum, frame):
    raise CaseTimeout()


def run_case(unit, data):
    """Runs one case.  Returns None, or (message, traceback text) when the property is violated."""
    signal.signal(signal.SIGVTALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_LIMIT)
    try:
        try:
            unit.fn(data)
            return None
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    except Discard:
        data.label('discarded')
        data.is_nontrivial = False
        data.key = None
        return None
    except Violation as e:
        return _clip(str(e)), _clip(traceback.format_exc(), 6000)
    except CaseTimeout:
        if not data.in_check:
            raise HarnessError('generation did not finish: ' + _clip(traceback.format_exc()))
        return ('no answer within %d s of CPU time (a case takes milliseconds)' % CASE_CPU_LIMIT,
                _clip(traceback.format_exc(), 6000))
    except HarnessError:
        raise
    except Exception as e:
        if data.in_check or in_code_under_test(sys.exc_info()[2]):
            # raised by the code under test, or by what it returned being unusable
            return (_clip('unexpected %s: %s' % (type(e).__name__, e)), _clip(traceback.format_exc(), 6000))
        raise HarnessError('%s in unit %s (choices %s)\n%s' % (
            type(e).__name__, unit.name, _clip(repr(data.choices)), traceback.format_exc()))


def digest(key):
    return hashlib.blake2b(repr(key).encode('utf-8', 'backslashreplace'), digest_size=8).hexdigest()


def shrink(unit, choices, tier, max_evals=1500, max_seconds=60.0):
    """Reduces a failing choice sequence.  The wall clock only bounds how far the reduction goes."""
    started = time.time()
    state = {'best': list(choices), 'evals': 0, 'spans': []}

    def fails(cand):
        if state['evals'] >= max_evals or time.time() - started > max_seconds:
            return False
        state['evals'] += 1
        data = Data(prefix=cand, tier=tier)
        try:
            bad = run_case(unit, data)
        except HarnessError:
            return False
        if bad is None:
            return False
        got = data.choices
        while got and got[-1] == 0:
            got = got[:-1]
        best = state['best']
        if (len(got), got) < (len(best), best):
            state['best'] = list(got)
            state['spans'] = data.spans
            return True
        return False

    data = Data(prefix=choices, tier=tier)
    if run_case(unit, data) is None:
        return None
    state['spans'] = data.spans
    improved = True
    while improved and state['evals'] < max_evals and time.time() - started <= max_seconds:
        improved = False
        # delete or blank whole spans, biggest first
        for a, b in sorted(set(state['spans']), key=lambda s: s[0] - s[1]):
            best = state['best']
            if a >= len(best) or b <= a:
                continue
            if fails(best[:a] + best[b:]):
                improved = True
                continue
            best = state['best']
            if any(best[a:b]) and fails(best[:a] + [0] * (min(b, len(best)) - a) + best[b:]):
                improved = True
        # lower a count and delete a span after it
        i = 0
        while i < len(state['best']) and i < 400:
            if state['best'][i]:
                for a, b in sorted(set(state['spans'])):
                    best = state['best']
                    if a > i and b <= len(best) and best[i]:
                        for lower in (best[i] - 1, best[i] // 2, best[i] - best[i] // 3):
                            if 0 <= lower < best[i] and fails(best[:i] + [lower] + best[i + 1:a] + best[b:]):
                                improved = True
                                break
            i += 1
        # delete windows
        for size in (16, 8, 4, 2, 1):
            i = len(state['best']) - size
            while i >= 0:
                best = state['best']
                if fails(best[:i] + best[i + size:]):
                    improved = True
                i -= 1 if size < 8 else size // 2
                i = min(i, len(state['best']) - size)
        # lower single choices
        i = 0
        while i < len(state['best']):
            best = state['best']
            v = best[i]
            if v:
                if fails(best[:i] + [0] + best[i + 1:]):
                    improved = True
                else:
                    lo, hi = 0, v
                    while lo + 1 < hi:
                        mid = (lo + hi) // 2
                        best = state['best']
                        if i < len(best) and fails(best[:i] + [mid] + best[i + 1:]):
                            hi = mid
                            improved = True
                        else:
                            lo = mid
            i += 1
    return state['best']
