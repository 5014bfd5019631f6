# -*- coding: utf-8 -*-
"""C12: frequency-based trips expand to exactly their runs."""
import os

import transitfeed

from harness import feedgen, recorder, render

CASES = {'quick': 1100, 'thorough': 40000}
RULE = ('a case is a schedule of 1-3 trips whose frequency periods are set by a random sequence of '
        'API calls, expanded after every call, written and loaded again with malformed rows added; '
        'distinct by the stop patterns and periods')
MINIMUM = {'calls adding a period': 3000, 'malformed periods given': 700, 'runs expanded': 25000,
           'stop times of runs compared': 60000, 'trips with overlapping periods': 150,
           'trips with several periods and no overlap': 150, 'periods without positive length': 150,
           'malformed rows loaded': 300, 'periods reloaded': 800, 'unsorted period lists': 100,
           'exact_times given as 1': 300}

MAXRUNS = 300
FIELDS = ('stop_headsign', 'pickup_type', 'drop_off_type', 'shape_dist_traveled', 'stop_sequence',
          'timepoint')


class Model(object):
  def __init__(self):
    self.periods = []
    self.stops = []      # (stop_id, arrival, departure, {attributes})

  def starts(self):
    out = []
    for s, e, h, _ in self.periods:
      t = s
      while t < e:
        out.append(t)
        t += h
    return sorted(out)

  def overlaps(self):
    n = 0
    p = self.periods
    for i in range(len(p)):
      for j in range(i + 1, len(p)):
        # intersection of the half-open intervals, in the validator's sense
        if p[j][0] < p[i][1] and p[j][1] > p[i][0]:
          n += 1
    return n


def random_period(rng):
  start = rng.pick([0, 1, 3600, rng.randint(0, 86400), rng.randint(80000, 180000)])
  head = rng.pick([1, 7, 60, 599, 600, 3600, rng.randint(1, 4000)])
  length = rng.pick([head, head * 2, head * 3, head - 1, head + 1, head * 3 - 1, head * 3 + 1, 1,
                     rng.randint(1, 9000)])
  length = max(1, min(length, head * MAXRUNS // 5))
  return start, start + length, head, rng.pick([0, 0, 1])


def give_time(rng, secs):
  k = rng.randint(0, 3)
  if k == 0:
    return feedgen.hms(secs)
  if k == 1:
    return str(feedgen.hms(secs, 1))
  return secs


BAD_TIMES = [(None, 'MissingValue'), (u'', 'MissingValue'), (u'6:5:00', 'InvalidValue'),
             (u'noon', 'InvalidValue'), (u'06:00:60', 'InvalidValue'), (u'-1:00:00', 'InvalidValue'),
             (-1, 'InvalidValue'), (u'06:00', 'InvalidValue')]
BAD_HEAD = [(None, ('MissingValue',)), (u'', ('MissingValue',)), (0, ('MissingValue', 'InvalidValue')),
            (u'0', ('InvalidValue', 'MissingValue')), (-5, ('InvalidValue',)), (u'-5', ('InvalidValue',)),
            (u'10m', ('InvalidValue',)), (u'x', ('InvalidValue',))]


def add(ctx, rng, trip, m, rec, rep):
  """One API call adding a period, well-formed or not."""
  ctx.count('calls adding a period')
  s, e, h, x = random_period(rng)
  if m.periods and rng.chance(0.4):
    s = rng.pick(m.periods)[1]    # start where another one ends
    e = s + rng.randint(1, 9000)
    h = max(h, (e - s) // 60 + 1)
  start, end, head = give_time(rng, s), give_time(rng, e), rng.pick([h, unicode(h), str(h), float(h)])
  want, keep = [], True
  k = rng.random()
  if k < 0.07:
    start, cls = rng.pick(BAD_TIMES)
    want, keep = [((cls,), 'start_time')], False
  elif k < 0.14:
    end, cls = rng.pick(BAD_TIMES)
    want, keep = [((cls,), 'end_time')], False
  elif k < 0.21:
    head, cls = rng.pick(BAD_HEAD)
    want, keep = [(cls, 'headway_secs')], False
  elif k < 0.27:
    e = s - rng.pick([0, 0, 1, 100])
    if e < 0:
      e = 0
    end = give_time(rng, e)
    want = [(('InvalidValue',), 'end_time')]
    ctx.count('periods without positive length')
  if not keep:
    ctx.count('malformed periods given')
  if x:
    ctx.count('exact_times given as 1')
  rec.take()
  how = rng.randint(0, 4)
  if how == 0:
    trip.AddFrequency(start, end, head, x, problem_reporter=rep)
  elif how == 1:
    trip.AddFrequency(start, end, head, exact_times=x, problem_reporter=rep)
  elif how == 2 and x == 0:
    rng.pick([trip.AddFrequency, trip.AddHeadwayPeriod])(start, end, head, problem_reporter=rep)
  else:
    f = transitfeed.Frequency({'trip_id': trip.trip_id, 'start_time': start, 'end_time': end,
                               'headway_secs': head, 'exact_times': x})
    rng.pick([trip.AddFrequencyObject, trip.AddHeadwayPeriodObject])(f, rep)
  got = sorted((p.cls, p.column_name) for p in rec.take())
  ok = len(got) == len(want) and all(c[0] in w[0] and c[1] == w[1] for c, w in zip(got, want))
  if not ok:
    ctx.fail(u'adding the period (%r, %r, %r) reported %r, expected %r' % (
        start, end, head, got, want))
  if keep:
    m.periods.append((s, e, h, x))


def attributes(st):
  return dict((f, None if getattr(st, f) == u'' else getattr(st, f)) for f in FIELDS)


def look(ctx, rng, trip, m):
  """Everything observable of the periods of a trip."""
  starts = m.starts()
  if not ctx.equal(list(rng.pick([trip.GetFrequencyStartTimes, trip.GetHeadwayStartTimes])()),
                   starts, u'run start times of %r' % (m.periods,)):
    return False
  ok = ctx.equal([tuple(p) for p in trip.GetFrequencyTuples()], m.periods, u'periods')
  want = [(trip.trip_id, feedgen.hms(s), feedgen.hms(e), unicode(h), unicode(x))
          for s, e, h, x in m.periods]
  ok &= ctx.equal([tuple(p) for p in trip.GetFrequencyOutputTuples()], want, u'output tuples')
  return ok


def expand(ctx, rng, trip, m):
  starts = m.starts()
  runs = trip.GetFrequencyStopTimes() if rng.chance(0.5) else trip.GetHeadwayStopTimes()
  if not m.stops:
    starts = []
  if not ctx.equal(len(runs), len(starts), u'number of runs of %r' % (m.periods,)):
    return
  ctx.count('runs expanded', len(runs))
  check = range(len(runs))
  if len(check) > 40:
    check = sorted(rng.sample(check, 40))
  for k in check:
    shift = starts[k] - (m.stops[0][1])
    got = [(st.stop.stop_id, st.arrival_secs, st.departure_secs,
            attributes(st)) for st in runs[k]]
    want = [(sid, None if a is None else a + shift, None if d is None else d + shift, x)
            for sid, a, d, x in m.stops]
    ctx.count('stop times of runs compared', len(got))
    if not ctx.equal(got, want, u'stop times of the run at %d' % starts[k]):
      return
  # the trip itself is not changed by expanding it
  got = [(st.stop.stop_id, st.arrival_secs, st.departure_secs,
          attributes(st)) for st in trip.GetStopTimes()]
  ctx.equal(got, m.stops, u'stop times of the trip after expanding')


def add_stop_times(rng, s, trip, m, stops):
  t = rng.pick([0, 3600, rng.randint(0, 90000)])
  n = rng.randint(2, 6)
  dist = rng.chance(0.5)
  for k in range(n):
    timed = k in (0, n - 1) or rng.chance(0.7)
    a = d = None
    if timed:
      a = t
      d = t + rng.pick([0, 0, 30, 200])
      t = d + rng.randint(200, 1000)
    x = dict(stop_headsign=rng.pick([None, u'to X', u'é']), pickup_type=rng.pick([None, 0, 2, 3]),
             drop_off_type=rng.pick([None, 0, 1, 2]), timepoint=rng.pick([None, 0, 1]),
             shape_dist_traveled=float(k * 3) if dist else None)
    stop = rng.pick(stops)
    trip.AddStopTime(stop, arrival_secs=a, departure_secs=d, **x)
    x['stop_sequence'] = k + 1
    m.stops.append((stop.stop_id, a, d, x))


def overlap_reports(rec):
  return [e for e in rec.entries if e.cls == 'OtherProblem' and 'overlap' in e.text().lower()]


def run_case(ctx, rng, i):
  rec, rep = recorder.new()
  s = transitfeed.Schedule(rep)
  s.AddAgency(u'A', u'http://a.example', u'UTC')
  p = s.GetDefaultServicePeriod()
  p.SetStartDate(feedgen.ymd(feedgen.today()))
  p.SetEndDate(u'20991231')
  p.SetWeekdayService(True)
  stops = [s.AddStop(lat=10.0 + k * 0.001, lng=20.0, name=u'S%d' % k) for k in range(3)]
  route = s.AddRoute(short_name=u'R', long_name=u'', route_type=3)
  models = {}
  for k in range(rng.randint(1, 3)):
    trip = route.AddTrip(s, headsign=u'h', trip_id=rng.pick([u'T%d', u'é,%d']) % k)
    m = models[trip.trip_id] = Model()
    if not rng.chance(0.04):
      add_stop_times(rng, s, trip, m, stops)
  for k in range(rng.randint(1, 9)):
    tid = rng.pick(sorted(models))
    trip, m = s.GetTrip(tid), models[tid]
    if rng.chance(0.06):
      trip.ClearFrequencies()
      m.periods = []
    elif rng.chance(0.03):
      trip.AddFrequencyObject(None, rep)
    else:
      add(ctx, rng, trip, m, rec, rep)
    for other in sorted(models):
      if not look(ctx, rng, s.GetTrip(other), models[other]):
        return
  for tid in sorted(models):
    m = models[tid]
    rec.take()
    expand(ctx, rng, s.GetTrip(tid), m)
    rec.take()
    s.GetTrip(tid).Validate(rep)
    n = m.overlaps()
    if len(overlap_reports(rec)) != n:
      ctx.fail(u'%d overlaps reported instead of %d for %r' % (
          len(overlap_reports(rec)), n, m.periods))
    if n:
      ctx.count('trips with overlapping periods')
    elif len(m.periods) > 1:
      ctx.count('trips with several periods and no overlap')
    if m.periods != sorted(m.periods):
      ctx.count('unsorted period lists')
  ctx.seen(sorted((k, m.periods, m.stops) for k, m in models.items()))
  ctx.sample({'case': i, 'periods': dict((k, m.periods) for k, m in models.items())})
  reload_them(ctx, rng, i, s, models)


def reload_them(ctx, rng, i, s, models):
  """Written as given; malformed rows are reported where they are and ignored."""
  path = os.path.join(os.getcwd(), 'f%d.zip' % i)
  s.WriteGoogleTransitFeed(path)
  contents = render.read_zip(path)
  rows = []
  if 'frequencies.txt' in contents:
    rows = [dict(r) for r in render.parse_table(contents['frequencies.txt'])[1]]
  got = sorted((r['trip_id'], r['start_time'], r['end_time'], r['headway_secs'],
                r.get('exact_times', u'')) for r in rows)
  want = sorted((tid, feedgen.hms(a), feedgen.hms(b), unicode(h), unicode(x))
                for tid, m in models.items() for a, b, h, x in m.periods)
  ctx.equal(got, want, u'frequencies.txt')
  # rows of the file in a new order, some of them malformed
  rows = rng.shuffled(rows)
  order = dict((tid, []) for tid in models)
  expected = []
  final = []
  for r in rows:
    final.append((r, True))
    if rng.chance(0.25):
      bad = dict(r)
      c, v, cls = rng.pick([
          (u'start_time', u'', 'MissingValue'), (u'end_time', u'', 'MissingValue'),
          (u'headway_secs', u'', 'MissingValue'), (u'start_time', u'6:1:00', 'InvalidValue'),
          (u'end_time', u'24:61:00', 'InvalidValue'), (u'headway_secs', u'x', 'InvalidValue'),
          (u'headway_secs', u'0', 'InvalidValue'), (u'headway_secs', u'-60', 'InvalidValue'),
          (u'trip_id', u'nowhere', 'InvalidValue')])
      bad[c] = v
      final.append((bad, (cls, c)))
      ctx.count('malformed rows loaded')
  # the header row is row 1
  for k, (r, what) in enumerate(final):
    secs = lambda t: sum(int(x) * y for x, y in zip(t.split(u':'), (3600, 60, 1)))
    if what is True:
      a, b = secs(r['start_time']), secs(r['end_time'])
      order[r['trip_id']].append((a, b, int(r['headway_secs']), int(r['exact_times'])))
      if b <= a:
        expected.append(('InvalidValue', 'end_time', k + 2))
    else:
      expected.append(what + (k + 2,))
  if not final:
    os.remove(path)
    return
  columns = [u'trip_id', u'start_time', u'end_time', u'headway_secs', u'exact_times']
  contents['frequencies.txt'] = render.table_bytes(rng.shuffled(columns), [r for r, _ in final],
                                                   render.Style(rng, eol=rng.pick(['\n', '\r\n'])))
  render.write_zip(contents, path)
  s2, rec = recorder.load(path)
  os.remove(path)
  got = sorted((e.cls, e.column_name, e.row_num) for e in rec.entries
               if e.file_name == 'frequencies.txt')
  ctx.equal(got, sorted(expected), u'problems reported in frequencies.txt')
  n = sum(m.overlaps() for m in models.values())
  ctx.equal(len(overlap_reports(rec)), n, u'overlaps reported after loading')
  for tid, m in models.items():
    m2 = Model()
    m2.stops = m.stops
    m2.periods = order[tid]
    look(ctx, rng, s2.GetTrip(tid), m2)
    ctx.count('periods reloaded', len(m2.periods))
  tid = rng.pick(sorted(models))
  m2 = Model()
  m2.stops, m2.periods = models[tid].stops, order[tid]
  expand(ctx, rng, s2.GetTrip(tid), m2)
