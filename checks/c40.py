# -*- coding: utf-8 -*-
"""C40: a reported problem is delivered once, where it is, readable, and in order."""
import sys
import time

import transitfeed
from transitfeed import problems as problems_module

from harness import recorder
from harness.core import u

CASES = {'quick': 15000, 'thorough': 250000}
RULE = ('a case is a history of reports, changes of the current place and of the accumulator of one problem reporter; '
        'distinct by the reports')
MINIMUM = {'changes of accumulator': 1500, 'errors raised': 1300,
           'kinds ordered by significance': 13000, 'lines printed': 11000,
           'order keys compared': 6800, 'places given with the report': 5300,
           'places left out': 4600, 'places of the reporter': 3700, 'problems printed': 3600,
           'reports': 9100, 'reasons': 730, 'warnings not raised': 1000, 'warnings raised': 550,
           'words judged': 26000}
ASSUMPTIONS = ['texts are Unicode or UTF-8']

ERROR, WARNING, NOTICE = recorder.ERROR, recorder.WARNING, recorder.NOTICE
WORDS = [u'a', u'Stop 1', u'Zürich', u'北京 站', u'100%', u'%s', u'%(value)s', u'"q"', u'<b>', u'a&b', u'x,y', u'\u2013',
         u'it\'s', u'0', u'S' * 90, u'long name of a stop that goes on and on, past the end of any line of a console']
FILES = [u'stops.txt', u'trips.txt', u'größe.txt', u'a.txt', 'stop_times.txt']

# method -> (default severity, arguments, further keywords it takes)
# T text, N number, I whole number, S seconds, D date (seconds of the epoch), F flat text without default
METHODS = {
    'NewVersionAvailable': (NOTICE, 'version:T', ''),
    'FeedNotFound': (ERROR, 'feed_name:T', 'ct'),
    'UnknownFormat': (ERROR, 'feed_name:T', 'ct'),
    'FileFormat': (ERROR, 'problem:T', 'cft'),
    'MissingFile': (ERROR, 'file_name:T', 'ct'),
    'UnknownFile': (WARNING, 'file_name:T', 'ct'),
    'EmptyFile': (ERROR, 'file_name:T', 'ct'),
    'MissingColumn': (ERROR, 'file_name:T column_name:T', 'ct'),
    'UnrecognizedColumn': (WARNING, 'file_name:T column_name:T', 'ct'),
    'DuplicateColumn': (ERROR, 'file_name:T header:T count:I', 'ct'),
    'MissingValue': (ERROR, 'column_name:T', 'crt'),
    'InvalidValue': (ERROR, 'column_name:T value:TN', 'crt'),
    'InvalidFloatValue': (WARNING, 'value:T', 'crt'),
    'InvalidNonNegativeIntegerValue': (WARNING, 'value:T', 'crt'),
    'CsvSyntax': (ERROR, 'description:T', 'ct'),
    'InvalidAgencyID': (ERROR, 'column_name:T value:T relating_type:T relating_id:T', 'ct'),
    'UnusedStop': (WARNING, 'stop_id:T stop_name:T', 'ct'),
    'UsedStation': (ERROR, 'stop_id:T stop_name:T', 'ct'),
    'StopTooFarFromParentStation': (WARNING, 'stop_id:T stop_name:T parent_stop_id:T parent_stop_name:T distance:N', 'ct'),
    'StopsTooClose': (WARNING, 'stop_name_a:T stop_id_a:T stop_name_b:T stop_id_b:T distance:N', 'ct'),
    'StationsTooClose': (WARNING, 'stop_name_a:T stop_id_a:T stop_name_b:T stop_id_b:T distance:N', 'ct'),
    'DifferentStationTooClose': (WARNING, 'stop_name:T stop_id:T station_stop_name:T station_stop_id:T distance:N', 'ct'),
    'StopTooFarFromShapeWithDistTraveled': (
        WARNING, 'trip_id:T stop_name:T stop_id:T shape_dist_traveled:N shape_id:T distance:N max_distance:N', 't'),
    'DateOutsideValidRange': (ERROR, 'column_name:T value:T range_start_year:I range_end_year:I', 'crt'),
    'NoServiceExceptions': (WARNING, 'start:T end:T', 'ct'),
    'InvalidLineEnd': (WARNING, 'bad_line_end:T', 'ct'),
    'TooFastTravel': (ERROR, 'trip_id:T prev_stop:T next_stop:T dist:N time:I speed:NN', 'pt'),
    'StopWithMultipleRouteTypes': (WARNING, 'stop_name:T stop_id:T route_id1:T route_id2:T', 'ct'),
    'DuplicateTrip': (WARNING, 'trip_id1:T route_id1:T trip_id2:T route_id2:T', 'ct'),
    'OverlappingTripsInSameBlock': (WARNING, 'trip_id1:T trip_id2:T block_id:T', 'ct'),
    'TransferDistanceTooBig': (ERROR, 'from_stop_id:T to_stop_id:T distance:N', 'ct'),
    'TransferWalkingSpeedTooFast': (WARNING, 'from_stop_id:T to_stop_id:T distance:N transfer_time:I', 'ct'),
    'OtherProblem': (ERROR, 'description:T', 'ct'),
    'TooManyDaysWithoutService': (
        WARNING, 'first_day_without_service:T last_day_without_service:T consecutive_days_without_service:I', 'ct'),
    'MinimumTransferTimeSetWithInvalidTransferType': (ERROR, 'transfer_type:I', 'ct'),
    'TooManyConsecutiveStopTimesWithSameTime': (WARNING, 'trip_id:T number_of_stop_times:I time_in_secs:S', 'pt'),
    'ExpirationDate': (WARNING, 'expiration:D expiration_origin_file:T', 'c'),
    'FutureService': (WARNING, 'start_date:D start_date_origin_file:T', 'c'),
    'DeprecatedColumn': (WARNING, 'file_name:T column_name:T new_name:TE', 'ct'),
    'DuplicateID': (ERROR, 'column_names:L values:L', 'ct'),
}
# kind -> (value it is ordered by, whether the greatest comes first)
ORDERED = {'StopTooFarFromParentStation': ('distance', True), 'StopsTooClose': ('distance', False),
           'StationsTooClose': ('distance', False), 'DifferentStationTooClose': ('distance', False),
           'StopTooFarFromShapeWithDistTraveled': ('distance', True), 'TooFastTravel': ('dist', True)}


def text(rng):
  x = rng.pick(WORDS)
  if rng.chance(0.3):
    x = u' '.join(rng.pick(WORDS) for _ in range(rng.randint(2, 12)))
  return x.encode('utf-8') if rng.chance(0.3) else x


def value(rng, kind):
  """(argument, texts the report must have)"""
  if kind == 'TN':
    kind = rng.pick('TI')
  if kind == 'TE' and rng.chance(0.4):
    return rng.pick([None, u'']), []
  if kind == 'NN' and rng.chance(0.3):
    return None, []
  kind = kind[0]
  if kind == 'T':
    x = text(rng)
    return x, [u(x)]
  if kind == 'N':
    x = rng.pick([rng.uniform(0, 10), rng.uniform(0, 5000), float(rng.randint(0, 99))])
    return x, []
  if kind == 'I':
    x = rng.pick([0, 1, 7, 2026, rng.randint(0, 100000)])
    return x, [u'%d' % x]
  if kind == 'S':
    x = rng.randint(0, 200000)
    return x, [u'%02d:%02d:%02d' % (x // 3600, x // 60 % 60, x % 60)]
  if kind == 'D':
    x = time.mktime((rng.randint(2000, 2040), rng.randint(1, 12), rng.randint(1, 28), 12, 0, 0, 0, 0, -1))
    t = time.localtime(x)
    return x, [u'%s %02d, %d' % (MONTHS[t.tm_mon - 1], t.tm_mday, t.tm_year)]
  xs = [rng.pick(WORDS) for _ in range(rng.randint(1, 3))]
  if rng.chance(0.4):
    return xs[0], xs[:1]
  return tuple(xs), xs


MONTHS = [u'January', u'February', u'March', u'April', u'May', u'June', u'July', u'August', u'September', u'October',
          u'November', u'December']


def place(rng):
  n = rng.randint(1, 4)
  headers = [rng.pick([u'stop_id', u'stop_name', u'größe', 'x']) for _ in range(n)]
  row = [rng.pick([text(rng), u'']) for _ in range(n)]
  return (rng.pick(FILES), rng.pick([0, 1, 2, 17, 100000]), row, headers)


class Log(problems_module.ProblemAccumulatorInterface):
  def __init__(self):
    self.seen = []

  def _Report(self, e):
    self.seen.append(e)


class Paper(object):
  encoding = 'utf-8'

  def __init__(self):
    self.text = ''

  def write(self, x):
    self.text += x.encode('utf-8') if isinstance(x, unicode) else x

  def flush(self):
    pass


def report(ctx, rng, rep, place_now, name=None):
  """Makes a report; returns (call, what is expected of the problem)."""
  name = name or rng.pick(sorted(METHODS))
  default, args, more = METHODS[name]
  want = {'cls': name, 'type': default, 'texts': [], 'attrs': {}}
  kw = {}
  for a in args.split():
    arg, kind = a.split(':')
    kw[arg], texts = value(rng, kind)
    want['texts'] += texts
    if kind not in ('L', 'S') and arg != 'new_name':
      want['attrs'][arg] = kw[arg]
  want['place'] = place_now if 'c' in more or 'p' in more else None
  if 'c' in more and rng.chance(0.35):
    kw['context'] = want['place'] = place(rng)
    if rng.chance(0.2):
      kw['context'] = want['place'] = want['place'][:2]
    ctx.count('places given with the report')
  elif want['place']:
    ctx.count('places of the reporter')
  if name in ('FileFormat',) and not want['place']:
    # Its text names the file
    kw['context'] = want['place'] = place(rng)
  if name == 'FileFormat':
    want['texts'].append(u(want['place'][0]))
  if 'r' in more and rng.chance(0.4):
    kw['reason'] = text(rng)
    want['texts'].append(u(kw['reason']))
    ctx.count('reasons')
  if 't' in more and rng.chance(0.3):
    kw['type'] = want['type'] = rng.pick([ERROR, WARNING, NOTICE])
  return (lambda: getattr(rep, name)(**kw)), want, u'%s(%s)' % (
      name, u', '.join(u'%s=%r' % (k, kw[k]) for k in sorted(kw)))


def judge(ctx, e, want, what):
  ctx.check(e.__class__.__name__ == want['cls'], u'%s is delivered as %s', what, e.__class__.__name__)
  ctx.check(e.GetType() == want['type'], u'%s has severity %r, expected %r', what, e.GetType(), want['type'])
  ctx.check((bool(e.IsError()), bool(e.IsWarning()), bool(e.IsNotice())) ==
            tuple(want['type'] == t for t in (ERROR, WARNING, NOTICE)), u'%s: severity %r is told wrongly', what,
            want['type'])
  # Where it is
  expect = dict(zip(('file_name', 'row_num', 'row', 'headers'), want['place'] or ()))
  for k in ('file_name', 'row_num', 'row', 'headers'):
    x = want['attrs'].get(k, expect.get(k))
    ctx.check(getattr(e, k, None) == x, u'%s: %s is %r, expected %r', what, k, getattr(e, k, None), x)
  if not want['place']:
    ctx.count('places left out')
  for k, v in want['attrs'].items():
    ctx.check(getattr(e, k, None) == v, u'%s: %s is %r, expected %r', what, k, getattr(e, k, None), v)
  before = dict(e.__dict__)
  words = e.FormatProblem()
  where = e.FormatContext()
  ctx.check(isinstance(words, str) and isinstance(where, str), u'%s: texts are %r and %r', what, words, where)
  said = u(words)
  for t in want['texts']:
    ctx.count('words judged')
    ctx.check(t in said, u'%s: %r does not say %r', what, said, t)
  ctx.check(u'%(' not in said or any(u'%(' in t for t in want['texts']), u'%s: %r', what, said)
  name = want['attrs'].get('file_name', expect.get('file_name'))
  parts = []
  if 'feed_name' in want['attrs']:
    parts.append(u"'%s'" % u(want['attrs']['feed_name']))
  if name is not None:
    parts.append(u(name))
  if expect.get('row_num') is not None:
    parts.append(u':%d' % expect['row_num'])
  if 'column_name' in want['attrs']:
    parts.append(u' column ' + u(want['attrs']['column_name']))
  at, shown = 0, u(where)
  for p in parts:
    k = shown.find(p, at)
    if not ctx.check(k >= 0, u'%s: the place %r does not have %r after %r', what, shown, p, shown[:at]):
      break
    at = k + len(p)
  ctx.check(bool(shown) == bool(parts or hasattr(e, 'column_name')), u'%s: the place is %r', what, shown)
  ctx.check(str(e) == words and e.FormatProblem() == words and e.FormatContext() == where,
            u'%s: reads otherwise the second time', what)
  ctx.check(e.__dict__ == before, u'%s: changes when it is read', what)


def judge_print(ctx, printed, e, what):
  """The context line, then all words, on lines of a console where the words allow it."""
  words, where = e.FormatProblem(), e.FormatContext()
  if where:
    if not ctx.check(printed.startswith(where + '\n'), u'%s: prints %r, not the place %r first', what, u(printed), u(where)):
      return
    printed = printed[len(where) + 1:]
  ctx.check(printed.endswith('\n'), u'%s: prints %r', what, u(printed))
  printed = printed[:-1]
  ctx.check(printed.replace('\n', ' ') == words.replace('\n', ' '), u'%s: prints %r for %r', what, u(printed), u(words))
  old = words.split('\n')
  k = 0
  for line in printed.split('\n'):
    ctx.count('lines printed')
    ctx.check(len(u(line)) <= 78 or ' ' not in line.strip(' '), u'%s: prints a line of %d columns: %r', what,
              len(u(line)), u(line))
  # The line breaks of the text are kept
  for i, line in enumerate(old[:-1]):
    k += len(line)
    ctx.check(printed[k:k + 1] == '\n', u'%s: prints %r for %r', what, u(printed), u(words))
    k += 1


def history(ctx, rng):
  accs = [Log(), Log()]
  now = 0
  rep = problems_module.ProblemReporter(accs[now])
  at, counts, said = None, [0, 0], []
  for n in range(rng.randint(2, 8)):
    step = rng.pick(['report'] * 6 + ['place', 'place', 'place', 'clear', 'accumulator'])
    if step == 'place':
      at = place(rng)
      rep.SetFileContext(*at)
      ctx.check(rep.GetFileContext() == at, u'the place is %r after %r is set', rep.GetFileContext(), at)
    elif step == 'clear':
      at = None
      rep.ClearContext()
      ctx.check(rep.GetFileContext() is None, u'the place is %r after it is cleared', rep.GetFileContext())
    elif step == 'accumulator':
      now = 1 - now
      rep.SetAccumulator(accs[now])
      ctx.check(rep.GetAccumulator() is accs[now], u'the accumulator is not the one set')
      ctx.count('changes of accumulator')
    else:
      call, want, what = report(ctx, rng, rep, at)
      call()
      counts[now] += 1
      said.append(what)
      ctx.count('reports')
      if not ctx.check([len(a.seen) for a in accs] == counts, u'%s: the accumulators have %r problems, expected %r', what,
                       [len(a.seen) for a in accs], counts):
        return
      judge(ctx, accs[now].seen[-1], want, what)
  ctx.seen(tuple(said))
  ctx.sample(u'; '.join(said[:2]))


def stock(ctx, rng):
  """The accumulators that come with the library."""
  log = Log()
  at = place(rng) if rng.chance(0.5) else None
  strict = rng.chance(0.5)
  which = rng.pick(['simple', 'default', 'raising', 'raising', 'shared'])
  if which == 'simple':
    rep = problems_module.ProblemReporter(transitfeed.SimpleProblemAccumulator())
  elif which == 'default':
    rep = problems_module.ProblemReporter()
  elif which == 'raising':
    rep = problems_module.ProblemReporter(transitfeed.ExceptionProblemAccumulator(raise_warnings=strict))
  else:
    rep, at, strict = problems_module.default_problem_reporter, None, False
    rep.ClearContext()
  if at:
    rep.SetFileContext(*at)
  said = []
  for _ in range(rng.randint(1, 4)):
    call, want, what = report(ctx, rng, rep, at)
    raises = which in ('raising', 'shared') and (want['type'] == ERROR or want['type'] == WARNING and strict)
    if want['type'] == NOTICE and which == 'raising' and strict:
      continue
    old, sys.stdout = sys.stdout, Paper()
    raised = None
    try:
      try:
        call()
      except problems_module.ExceptionWithContext as e:
        raised = e
      printed = sys.stdout.text
    finally:
      sys.stdout = old
    what = u'%s, %s accumulator%s' % (what, which, u' raising warnings' if strict else u'')
    said.append(what)
    if not ctx.check((raised is not None) == raises, u'%s: raises %r', what, raised):
      return
    if raises:
      judge(ctx, raised, want, what)
      ctx.check(not printed, u'%s: prints %r', what, u(printed))
      ctx.count('errors raised' if want['type'] == ERROR else 'warnings raised')
    else:
      # The same problem, made again for its words
      mine = rep.GetAccumulator()
      rep.SetAccumulator(log)
      call()
      rep.SetAccumulator(mine)
      judge_print(ctx, printed, log.seen[-1], what)
      ctx.count('problems printed')
      if which in ('raising', 'shared') and want['type'] == WARNING:
        ctx.count('warnings not raised')
  ctx.seen(tuple(said))


def orders(ctx, rng):
  """By significance and by order keys."""
  log = Log()
  rep = problems_module.ProblemReporter(log)
  name = rng.pick(sorted(ORDERED) + ['other'] * 3)
  n = rng.randint(2, 6)
  if name != 'other':
    for _ in range(n):
      report(ctx, rng, rep, None, name)[0]()
    attr, greatest = ORDERED[name]
    for a in log.seen:
      for b in log.seen:
        x, y = getattr(a, attr), getattr(b, attr)
        want = cmp(y, x) if greatest else cmp(x, y)
        ctx.count('kinds ordered by significance')
        ctx.check(cmp(cmp(a, b), 0) == want if a is not b else True, u'%s of %r and %r compare as %r', name, x, y, cmp(a, b))
    got = [getattr(e, attr) for e in sorted(log.seen)]
    ctx.check(got == sorted(got, reverse=greatest), u'%s sort to %r', name, got)
    ctx.seen((name, tuple(got)))
    return
  keys = []
  for _ in range(n):
    at = rng.pick([None, (rng.pick(FILES), rng.pick([1, 2, 10])), (rng.pick(FILES), 5, [u'a'], [u'b'])])
    rep.ClearContext()
    if at:
      rep.SetFileContext(*(at + (None, None))[:4])
    kind = rng.pick(['OtherProblem', 'MissingValue', 'CsvSyntax'])
    t = rng.pick([ERROR, WARNING, NOTICE])
    getattr(rep, kind)(rng.pick(WORDS), type=t)
    keys.append((t, at[0] if at else None, at[1] if at else None))
  for a, ka in zip(log.seen, keys):
    for b, kb in zip(log.seen, keys):
      ctx.count('order keys compared')
      got = cmp(list(a.GetOrderKey()), list(b.GetOrderKey()))
      if ka != kb:
        # None sorts first
        ctx.check(cmp(got, 0) == cmp(ka, kb), u'order of problems at %r and %r is %r', ka, kb, got)
      elif a is b:
        ctx.check(got == 0, u'order of a problem and itself is %r', got)
  ctx.seen(tuple(keys))


def run_case(ctx, rng, i):
  k = i % 6
  if k < 3:
    history(ctx, rng)
  elif k < 5:
    stock(ctx, rng)
  else:
    orders(ctx, rng)
