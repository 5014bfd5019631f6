# -*- coding: utf-8 -*-
"""Case runner, verdict bookkeeping and the problem recorder (Jython 2.7)."""
import hashlib
import imp
import json
import os
import random
import sys
import tempfile
import thread
import threading
import time
import traceback


class Violation(Exception):
  """The property was observed to be broken."""


def u(x):
  """Anything as printable unicode."""
  if isinstance(x, unicode):
    return x
  if isinstance(x, str):
    return x.decode('utf-8', 'replace')
  try:
    return repr(x).decode('utf-8', 'replace')
  except Exception:
    return u'<unprintable>'


DATA_ERRORS = (AttributeError, TypeError, LookupError, ValueError)


class Rng(random.Random):
  """random.Random with a few helpers."""

  def chance(self, p):
    return self.random() < p

  def pick(self, seq):
    return seq[int(self.random() * len(seq))]

  def sub(self, seq, p=0.5):
    return [x for x in seq if self.random() < p]

  def shuffled(self, seq):
    seq = list(seq)
    self.shuffle(seq)
    return seq


def case_seed(*parts):
  return int(hashlib.md5('/'.join(str(p) for p in parts)).hexdigest()[:12], 16)


class Ctx(object):
  def __init__(self, prop, tier, seed, repo, root):
    self.prop = prop
    self.tier = tier
    self.thorough = tier == 'thorough'
    self.seed = seed
    self.repo = repo
    self.root = root
    self.case = -1
    self.counters = {}
    self.nontrivial = set()
    self.samples = []
    self.violations = []
    self.findings = {}
    self.errors = []
    self.exhaustive = None
    self._tmpn = 0

  def count(self, name, n=1):
    self.counters[name] = self.counters.get(name, 0) + n

  def seen(self, sig):
    """Record that this case was non-trivial, with a signature."""
    if isinstance(sig, unicode):
      sig = sig.encode('utf-8')
    elif not isinstance(sig, str):
      sig = repr(sig)
    self.nontrivial.add(hashlib.md5(sig).hexdigest()[:16])

  def sample(self, obj):
    if len(self.samples) < 2:
      self.samples.append(obj)

  def fail(self, message):
    """Record a violation and go on with the case."""
    if len(self.violations) < 50:
      self.violations.append({'case': self.case, 'message': u(message)})

  def check(self, cond, message, *args):
    if not cond:
      if args:
        message = u(message) % tuple(u(a) for a in args)
      self.fail(message)
    return cond

  def equal(self, got, want, what):
    if got != want:
      self.fail(u'%s: got %s, expected %s' % (u(what), u(repr(got))[:1500], u(repr(want))[:1500]))
      return False
    return True

  def finding(self, key, message):
    """A violation of a mechanism that may be listed in known_findings.txt."""
    self.findings.setdefault(key, {'case': self.case, 'message': u'[%s] %s' % (key, u(message))})

  def tmpdir(self):
    return tempfile.mkdtemp(prefix='case')


def _innermost_in_repo(tb, repo):
  """True if repository code is on the stack of the traceback."""
  for entry in traceback.extract_tb(tb):
    f = os.path.abspath(entry[0])
    if f.startswith(repo + os.sep):
      return True
  return False


HANG_SECONDS = 200


def _start_hang_monitor(ctx, state, repo, write):
  """A case that runs 200 s (normal cases take well under one) never ends.

  It is a violation if the code under test is on the stack of the case, and a
  failure of the harness otherwise.
  """
  main_id = thread.get_ident()

  def watch():
    while not state['done']:
      time.sleep(1)
      if state['start'] is None or time.time() - state['start'] < HANG_SECONDS:
        continue
      frame = sys._current_frames().get(main_id)
      stack = []
      while frame is not None:
        stack.append((frame.f_code.co_filename, frame.f_lineno, frame.f_code.co_name))
        frame = frame.f_back
      text = u'case %d still running after %d s at\n%s' % (
          ctx.case, HANG_SECONDS, u'\n'.join(u'  %s:%s %s' % x for x in stack))
      if any(os.path.abspath(x[0]).startswith(repo + os.sep) for x in stack):
        ctx.fail(u'the code under test does not end: ' + text)
      else:
        ctx.errors.append(text)
      write()
      os._exit(3)

  t = threading.Thread(target=watch)
  t.setDaemon(True)
  t.start()


def main(argv, root, repo):
  prop, tier, seed, shard, nshards, out = argv[:6]
  seed, shard, nshards = int(seed), int(shard), int(nshards)
  only = int(argv[6]) if len(argv) > 6 else None
  tempfile.tempdir = os.getcwd()
  ctx = Ctx(prop, tier, seed, repo, root)
  result = dict(rule='', minimum={}, assumptions=[])
  state = {'done': False, 'start': None}

  def write():
    result.update(cases=getattr(ctx, 'cases', 0), nontrivial=sorted(ctx.nontrivial),
                  counters=ctx.counters, samples=ctx.samples,
                  violations=ctx.violations, findings=ctx.findings,
                  errors=ctx.errors, exhaustive=ctx.exhaustive)
    tmp = out + '.tmp'
    f = open(tmp, 'wb')
    f.write(json.dumps(result, default=u))
    f.close()
    os.rename(tmp, out)

  _start_hang_monitor(ctx, state, repo, write)
  try:
    mod = imp.load_source('check_' + prop.lower(),
                          os.path.join(root, 'checks', prop.lower() + '.py'))
    result['rule'] = mod.RULE
    result['minimum'] = mod.MINIMUM
    result['assumptions'] = getattr(mod, 'ASSUMPTIONS', [])
    n = mod.CASES[tier]
    if hasattr(mod, 'setup'):
      mod.setup(ctx)
    indices = [only] if only is not None else range(shard, n, nshards)
    for i in indices:
      ctx.case = i
      state['start'] = time.time()
      rng = Rng(case_seed(prop, seed, i))
      random.seed(case_seed('global', prop, seed, i))
      try:
        mod.run_case(ctx, rng, i)
      except Violation as e:
        ctx.fail(e.args[0] if e.args else 'violation')
      except (KeyboardInterrupt, SystemExit):
        raise
      except:  # also Java throwables
        et, ev, tb = sys.exc_info()
        text = u''.join(u(x) for x in traceback.format_exception(et, ev, tb))
        if _innermost_in_repo(tb, repo):
          ctx.fail(u'unexpected exception from the code under test:\n' + text)
        elif isinstance(ev, DATA_ERRORS):
          # The monitors handle everything the library documents that it may return.
          ctx.fail(u'the monitor can not make sense of what the code under test returned:\n' + text)
        else:
          ctx.errors.append(u'case %d: %s' % (i, text))
          if len(ctx.errors) > 5:
            break
      ctx.cases = getattr(ctx, 'cases', 0) + 1
      if len(ctx.violations) >= int(os.environ.get('VERIF_ENOUGH', 40)):
        break
    state['start'] = None
    if hasattr(mod, 'finish'):
      mod.finish(ctx)
  except Exception:
    et, ev, tb = sys.exc_info()
    text = u''.join(u(x) for x in traceback.format_exception(et, ev, tb))
    if _innermost_in_repo(tb, repo):
      ctx.fail(u'unexpected exception from the code under test outside any case:\n' + text)
    else:
      ctx.errors.append(text)
  state['done'] = True
  write()
