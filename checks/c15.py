# -*- coding: utf-8 -*-
"""C15: the stop-time store behaves as one ordered list per trip."""
import StringIO
import zipfile

import transitfeed

from harness import feedgen, recorder

CASES = {'quick': 700, 'thorough': 30000}
RULE = ('a case is a random history of adding, replacing and clearing stop times of the trips of one '
        'or two schedules, in memory or on disk, with everything observed after every operation; '
        'distinct by the final lists and the number of operations')
MINIMUM = {'operations': 3700, 'lists compared': 10000, 'stop times compared': 28000,
           'stop listings compared': 17000, 'replacements': 440, 'refused replacements': 110,
           'clearings': 210, 'out-of-order additions': 190, 'untimed first stop times': 84,
           'on-disk schedules': 120, 'histories with two schedules': 43,
           'trips visiting a stop twice': 5900, 'pattern groupings compared': 4200,
           'stop visits with interpolated times compared': 5400,
           'schedules started from a feed': 110}

ATTRS = ('stop_headsign', 'pickup_type', 'drop_off_type', 'shape_dist_traveled', 'timepoint')


class Row(object):
  def __init__(self, seq, stop, arr, dep, attrs):
    self.seq, self.stop, self.arr, self.dep, self.attrs = seq, stop, arr, dep, attrs

  def key(self):
    return (self.seq, self.stop, self.arr, self.dep,
            tuple(self.attrs[a] for a in ATTRS))


def observed(st):
  return (st.stop_sequence, st.stop.stop_id, st.arrival_secs, st.departure_secs,
          tuple(getattr(st, a) if getattr(st, a) != u'' else None for a in ATTRS))


class World(object):
  """A schedule and its model."""

  def __init__(self, rng, k):
    self.rec, self.rep = recorder.new()
    self.disk = rng.chance(0.35)
    self.loaded = rng.chance(0.35)
    if self.loaded:
      self.load(rng)
      return
    s = self.s = transitfeed.Schedule(self.rep, memory_db=not self.disk)
    s.AddAgency(u'A', u'http://a.example', u'UTC')
    s.GetDefaultServicePeriod().SetDateHasService(u'20260101')
    sids = rng.pick([[u'a', u'b', u'c', u'd'], [u'1', u'01', u'1.0', u'10'],
                     [u'é', u'e', u'É', u'"x"'], [u"a'b", u'a', u'%', u'_']])
    self.stops = [s.AddStop(10 + i * .003, 20, u'S%d' % i, stop_id=sid)
                  for i, sid in enumerate(sids)]
    tids = rng.pick([[u't', u'T', u't '], [u'1', u'01', u'1.0'], [u'é', u'e', u'_'],
                     [u"o'x", u'%', u'T1']])
    self.routes = [s.AddRoute(short_name=u'R', long_name=u'', route_type=3),
                   s.AddRoute(short_name=u'Q', long_name=u'', route_type=3)]
    self.model = {}
    for i in range(rng.randint(2, 3)):
      tid = tids[i].strip() + (u'' if tids[i].strip() == tids[i] else u'2')
      self.routes[i % 2 if rng.chance(0.3) else 0].AddTrip(s, trip_id=tid)
      self.model[tid] = []

  def load(self, rng):
    """Start from a feed: sequence numbers with gaps, rows in any order."""
    sids = rng.pick([[u'a', u'b', u'c', u'd'], [u'1', u'01', u'1.0', u'10'],
                     [u'é', u'e', u'É', u'"x"'], [u"a'b", u'a', u'%', u'_']])
    tids = rng.pick([[u't', u'T', u't2'], [u'1', u'01', u'1.0'], [u'é', u'e', u'_'],
                     [u"o'x", u'%', u'T1']])[:rng.randint(2, 3)]
    self.model = dict((t, []) for t in tids)
    lines = []
    for t in tids:
      seq, secs = rng.pick([0, 0, 1, 1, 2, 7, 100]), rng.randint(0, 80000)
      for _ in range(rng.randint(0, 5)):
        attrs = random_attrs(rng)
        arr = dep = None
        if rng.chance(0.75):
          arr = secs + rng.randint(0, 900)
          secs = dep = arr + rng.pick([0, 0, 60])
        stop = rng.pick(sids)
        self.model[t].append(Row(seq, stop, arr, dep, attrs))
        lines.append([t, feedgen.hms(arr) if arr is not None else u'',
                      feedgen.hms(dep) if dep is not None else u'', stop, unicode(seq)] +
                     [u'' if attrs[a] is None else unicode(attrs[a]) for a in ATTRS])
        seq += rng.pick([1, 1, 2, 5, 1000])
    rng.shuffle(lines)

    def csv(rows):
      return u''.join(u','.join(u'"%s"' % v.replace(u'"', u'""') for v in r) + u'\n'
                      for r in rows).encode('utf-8')
    out = StringIO.StringIO()
    z = zipfile.ZipFile(out, 'w')
    z.writestr('agency.txt', csv([[u'agency_id', u'agency_name', u'agency_url', u'agency_timezone'],
                                  [u'A', u'A', u'http://a.example', u'UTC']]))
    z.writestr('stops.txt', csv([[u'stop_id', u'stop_name', u'stop_lat', u'stop_lon']] +
                                [[x, u'S%d' % k, unicode(10 + k * .003), u'20']
                                 for k, x in enumerate(sids)]))
    z.writestr('routes.txt', csv([[u'route_id', u'agency_id', u'route_short_name',
                                   u'route_long_name', u'route_type']] +
                                 [[x, u'A', x, u'', u'3'] for x in (u'R', u'Q')]))
    z.writestr('calendar_dates.txt', csv([[u'service_id', u'date', u'exception_type'],
                                          [u'C', u'20260101', u'1']]))
    z.writestr('trips.txt', csv([[u'route_id', u'service_id', u'trip_id']] +
                                [[rng.pick([u'R', u'R', u'Q']), u'C', t] for t in tids]))
    z.writestr('stop_times.txt', csv([[u'trip_id', u'arrival_time', u'departure_time', u'stop_id',
                                       u'stop_sequence'] + list(ATTRS)] + lines))
    z.close()
    loader = transitfeed.Loader(StringIO.StringIO(out.getvalue()), problems=self.rep,
                                memory_db=not self.disk)
    s = self.s = loader.Load()
    self.stops = [s.GetStop(x) for x in sids]
    self.routes = [s.GetRoute(u'R'), s.GetRoute(u'Q')]


def random_attrs(rng):
  return dict(stop_headsign=rng.pick([None, None, u'to é', u'0']),
              pickup_type=rng.pick([None, 0, 2, 3]), drop_off_type=rng.pick([None, 0, 1, 3]),
              shape_dist_traveled=rng.pick([None, 0.0, 1.5, 100.0]),
              timepoint=rng.pick([None, 0, 1]))


def times(rng, rows, first):
  if rng.chance(0.12 if first else 0.25):
    return None, None
  last = max([0] + [t for r in rows for t in (r.arr, r.dep) if t is not None])
  if rng.chance(0.12):
    a = rng.randint(0, max(1, last))          # may be out of order
  elif rng.chance(0.1):
    a = last
  else:
    a = last + rng.randint(1, 2000)
  return a, a + rng.pick([0, 0, 0, 60, 5])


def make(rng, stop, arr, dep, attrs, rep):
  kw = dict((k, v) for k, v in attrs.items() if v is not None or rng.chance(0.3))
  if arr is not None:
    how = rng.randint(0, 2)
    if how == 0:
      kw.update(arrival_secs=arr, departure_secs=dep)
    elif how == 1 or arr != dep:
      kw.update(arrival_time=feedgen.hms(arr, rng.randint(0, 1)), departure_time=feedgen.hms(dep))
    else:
      kw.update(stop_time=feedgen.hms(arr))
  elif rng.chance(0.3):
    kw.update(arrival_time=u'', departure_time=u'')
  return kw


def step(ctx, rng, w):
  s, rec = w.s, w.rec
  tid = rng.pick(sorted(w.model))
  trip, rows = s.GetTrip(tid), w.model[tid]
  rec.take()
  ctx.count('operations')
  op = rng.random()
  want = 0
  what = u''
  if op < 0.06:
    trip.ClearStopTimes()
    w.model[tid] = []
    ctx.count('clearings')
    what = u'ClearStopTimes'
  elif op < 0.25 and rows:
    r = rng.pick(rows)
    seq, stop = r.seq, r.stop
    exists = True
    if rng.chance(0.2):
      if rng.chance(0.5):
        seq = rng.pick([-2, -1, max(x.seq for x in rows) + 1])
      else:
        stop = rng.pick([x.stop_id for x in w.stops if x.stop_id != stop])
      exists = False
    arr, dep = times(rng, [x for x in rows if x.seq < seq], False)
    attrs = random_attrs(rng)
    st = transitfeed.StopTime(w.rep, s.GetStop(stop), stop_sequence=seq,
                              **make(rng, stop, arr, dep, attrs, w.rep))
    what = u'ReplaceStopTimeObject'
    try:
      if rng.chance(0.5):
        trip.ReplaceStopTimeObject(st)
      else:
        trip.ReplaceStopTimeObject(st, s)
      refused = False
    except transitfeed.Error:
      refused = True
    if refused == exists:
      ctx.fail(u'replacing stop time (%s, %s, %s) was %s' % (
          tid, seq, stop, u'refused' if refused else u'accepted'))
    if exists:
      ctx.count('replacements')
      r.arr, r.dep, r.attrs = arr, dep, attrs
    else:
      ctx.count('refused replacements')
  else:
    stop = rng.pick(w.stops)
    if rows and rng.chance(0.2):
      stop = s.GetStop(rng.pick(rows).stop)
    arr, dep = times(rng, rows, not rows)
    attrs = random_attrs(rng)
    kw = make(rng, stop, arr, dep, attrs, w.rep)
    last = [t for r in rows for t in (r.arr, r.dep) if t is not None]
    if not rows and arr is None:
      want = 1
      ctx.count('untimed first stop times')
    if rows and arr is not None and last and arr < max(last):
      want = 1
      ctx.count('out-of-order additions')
    how = rng.randint(0, 3)
    what = u'AddStopTime'
    if how == 0:
      trip.AddStopTime(stop, **kw)
    elif how == 1:
      trip.AddStopTime(stop, problems=w.rep, schedule=s, **kw)
    elif how == 2:
      trip.AddStopTimeObject(transitfeed.StopTime(w.rep, stop, **kw))
    else:
      trip.AddStopTimeObject(transitfeed.StopTime(w.rep, stop, **kw), schedule=s, problems=w.rep)
    rows.append(Row(max([0] + [r.seq for r in rows]) + 1, stop.stop_id, arr, dep, attrs))
  if len(rec.entries) != want:
    ctx.fail(u'%s on trip %s reported %r, expected %d problems' % (what, tid, rec.entries, want))


def interpolable(rows):
  return rows and rows[0].arr is not None and rows[-1].arr is not None


def observe(ctx, rng, w):
  s = w.s
  ok = True
  visits = {}
  for tid, rows in sorted(w.model.items()):
    trip = s.GetTrip(tid)
    ctx.count('lists compared')
    ctx.count('stop times compared', len(rows))
    ok &= ctx.equal([observed(st) for st in trip.GetStopTimes()], [r.key() for r in rows],
                    u'stop times of %s' % tid)
    ok &= ctx.equal(trip.GetCountStopTimes(), len(rows), u'number of stop times of %s' % tid)
    ok &= ctx.equal([(a, d, x.stop_id) for a, d, x in trip.GetTimeStops()],
                    [(r.arr, r.dep, r.stop) for r in rows], u'time stops of %s' % tid)
    ok &= ctx.equal([x.stop_id for x in trip.GetPattern()], [r.stop for r in rows],
                    u'pattern of %s' % tid)
    if rows and rows[0].arr is not None:
      ok &= ctx.equal(trip.GetStartTime(), rows[0].arr, u'start time of %s' % tid)
    if rows and rows[-1].arr is not None:
      ok &= ctx.equal(trip.GetEndTime(), rows[-1].dep, u'end time of %s' % tid)
    if rng.chance(0.2):
      got = [(t[0], t[1], t[2], t[3], int(t[4])) for t in trip.GetStopTimesTuples()]
      ok &= ctx.equal(got, [(tid, u'' if r.arr is None else feedgen.hms(r.arr),
                             u'' if r.dep is None else feedgen.hms(r.dep), r.stop, r.seq)
                            for r in rows], u'output tuples of %s' % tid)
    for k, r in enumerate(rows):
      visits.setdefault(r.stop, []).append((tid, k))
  for stop in w.stops:
    want = sorted(visits.get(stop.stop_id, []))
    ctx.count('stop listings compared')
    if len(set(t for t, _ in want)) < len(want):
      ctx.count('trips visiting a stop twice')
    ok &= ctx.equal(sorted(t.trip_id for t in stop.GetTrips()), [t for t, _ in want],
                    u'trips visiting %s' % stop.stop_id)
    ok &= ctx.equal(sorted((t.trip_id, k) for t, k in stop.trip_index), want,
                    u'trips and positions of stop %s' % stop.stop_id)
    if want and rng.chance(0.4) and all(interpolable(w.model[t]) for t, _ in want):
      got = sorted((t.trip_id, k, bool(tp), secs if tp else None)
                   for secs, (t, k), tp in stop.GetStopTimeTrips())
      exp = sorted((t, k, w.model[t][k].arr is not None, w.model[t][k].arr) for t, k in want)
      ctx.count('stop visits with interpolated times compared', len(exp))
      ok &= ctx.equal(got, exp, u'visits of stop %s' % stop.stop_id)
  if rng.chance(0.5):
    for route in w.routes:
      ctx.count('pattern groupings compared')
      got = sorted(sorted(t.trip_id for t in ts) for ts in route.GetPatternIdTripDict().values())
      groups = {}
      for t in route.trips:
        groups.setdefault(tuple(r.stop for r in w.model[t.trip_id]), []).append(t.trip_id)
      ok &= ctx.equal(got, sorted(sorted(g) for g in groups.values()), u'trips grouped by pattern')
  return ok


def run_case(ctx, rng, i):
  worlds = [World(rng, k) for k in range(2 if rng.chance(0.15) else 1)]
  if len(worlds) == 2:
    ctx.count('histories with two schedules')
  n = rng.randint(4, 20)
  for w in worlds:
    if w.disk:
      ctx.count('on-disk schedules')
    if w.loaded:
      ctx.count('schedules started from a feed')
      if w.rec.entries:
        ctx.fail(u'loading a sound feed reported %r' % (w.rec.entries,))
  for _ in range(n):
    step(ctx, rng, rng.pick(worlds))
    if not all([observe(ctx, rng, w) for w in worlds]):
      return
  ctx.seen([n] + [sorted((t, [r.key() for r in rows]) for t, rows in w.model.items())
                  for w in worlds])
  ctx.sample({'case': i, 'operations': n,
              'lengths': dict((t, len(r)) for t, r in worlds[0].model.items())})
