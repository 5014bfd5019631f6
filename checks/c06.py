# -*- coding: utf-8 -*-
"""C06: the first definition of an identifier wins, every repeat is reported."""
import os
import shutil

import transitfeed

from harness import canon, feedgen, recorder, render
from harness.core import u

CASES = {'quick': 700, 'thorough': 40000}
RULE = ('a case is one feed with repeated definitions, or one sequence of API additions with '
        'repeats; distinct by the repeated identifiers')
MINIMUM = {'feeds': 150, 'feeds without repeats': 1, 'first additions': 2800, 'histories': 150,
           'repeated additions of agency': 97, 'repeated additions of date': 45,
           'repeated additions of fare': 57, 'repeated additions of point': 21,
           'repeated additions of route': 91, 'repeated additions of service': 90,
           'repeated additions of shape': 55, 'repeated additions of stop': 53,
           'repeated additions of transfer': 61, 'repeated additions of trip': 47,
           'repeats in agency': 64, 'repeats in calendar': 52, 'repeats in calendar_dates': 67,
           'repeats in fare_attributes': 70, 'repeats in routes': 70, 'repeats in shapes': 41,
           'repeats in stop_times': 71, 'repeats in stops': 80, 'repeats in transfers': 48,
           'repeats in trips': 70}
ERROR, WARNING = recorder.ERROR, recorder.WARNING

# table: (identifying columns, severity of a repeat)
KEYS = {
    'agency': (('agency_id',), ERROR), 'stops': (('stop_id',), ERROR),
    'routes': (('route_id',), ERROR), 'trips': (('trip_id',), ERROR),
    'fare_attributes': (('fare_id',), ERROR), 'calendar': (('service_id',), ERROR),
    'calendar_dates': (('service_id', 'date'), WARNING),
    'transfers': (('from_stop_id', 'to_stop_id'), WARNING),
    'shapes': (('shape_id', 'shape_pt_sequence'), ERROR),
    'stop_times': (('trip_id', 'stop_sequence'), ERROR)}
POINTS = {'shapes': 'shape_pt_sequence', 'stop_times': 'stop_sequence'}


def key_of(t, r):
  return tuple(r.get(c, u'') for c in KEYS[t][0])


def names(cols):
  if isinstance(cols, (tuple, list)):
    return tuple(cols)
  return tuple(c.strip() for c in cols.strip('()').split(','))


def text(v):
  """Values of one or several columns, as reported or as a tuple."""
  if isinstance(v, (tuple, list)):
    return u'(%s)' % u', '.join(u(x) for x in v) if len(v) > 1 else u(v[0])
  return u(v)


def insert_repeat(f, rng):
  t = rng.pick(sorted(x for x in KEYS if f.table(x)))
  rows = f.rows[t]
  base = rng.pick(rows)
  if u'' in key_of(t, base):
    return
  donor = base if rng.chance(0.3) or t in POINTS else rng.pick(rows)
  row = dict(donor)
  for c in KEYS[t][0]:
    row[c] = base[c]
  if t == 'calendar_dates' and rng.chance(0.6):
    row['exception_type'] = u'1' if row['exception_type'] == u'2' else u'2'
  first = min(j for j, r in enumerate(rows) if key_of(t, r) == key_of(t, base))
  at = rng.pick([first + 1, len(rows), rng.randint(first + 1, len(rows))])
  rows.insert(at, row)


def feed_case(ctx, rng, i):
  d = ctx.tmpdir()
  try:
    m = feedgen.generate(rng, fares=0.8, freqs=0.4, transfers=0.8, shapes=0.6, agencies=(1, 4))
    f = m.copy()
    if rng.chance(0.9):
      for _ in range(rng.pick([1, 1, 2, 3, 6, 12])):
        insert_repeat(f, rng)
    # What the repeats are, and what is left in effect.
    g = f.copy()
    want, points, reported = [], [], set()
    twice = {'shapes': set(), 'stop_times': set()}
    for t in KEYS:
      seen, keep = {}, []
      for j, r in enumerate(f.table(t)):
        k = key_of(t, r)
        if u'' in k:
          keep.append(r)
          continue
        if k in seen:
          if t == 'stop_times' and k in reported:
            # Reported once per number of a trip, whatever the number of repeats.
            continue
          if t in POINTS:
            reported.add(k)
            points.append((t + '.txt' if t == 'shapes' else None,
                           j + 2 if t == 'shapes' else None, POINTS[t], int(k[1])))
            twice[t].add(k[0])
          else:
            want.append((t + '.txt', j + 2, KEYS[t][0], text(k), KEYS[t][1]))
          ctx.count('repeats in ' + t)
          if t == 'calendar_dates':
            seen[k]['exception_type'] = r['exception_type']
          elif t == 'transfers':
            keep.append(r)
        else:
          seen[k] = dict(r)
          keep.append(seen[k])
      if t not in POINTS and t in g.rows:
        g.rows[t] = keep
    st = render.random_style(rng)
    st.shuffle_rows = False
    st.blank = 0.0
    path = os.path.join(d, 'feed.zip')
    render.write_zip(render.files(f, st), path)
    s, rec = recorder.load(path)
    got = []
    for e in rec.of('DuplicateID'):
      got.append((e.file_name, e.row_num, names(e.column_name), text(e.value), e.type))
    if sorted(got) != sorted(want):
      ctx.fail(u'repeats reported: %r, expected: %r' % (sorted(got), sorted(want)))
    got = []
    for e in rec.of('InvalidValue'):
      if e.column_name in POINTS.values():
        got.append((e.file_name, e.row_num, e.column_name, int(e.value)))
        if e.type != ERROR:
          ctx.fail(u'a repeated sequence number is not an error: %r' % e)
    if sorted(got) != sorted(points):
      ctx.fail(u'repeated sequence numbers reported: %r, expected: %r' % (sorted(got), sorted(points)))
    a, b = canon.of_schedule(s), canon.of_feed(g)
    for c in (a, b):
      for x in twice['shapes']:
        c['shapes'].pop(x, None)
      for x in twice['stop_times']:
        # The rows are kept; which of two with one number comes first is not defined.
        c['stop_times'][x] = sorted(r[0] for r in c['stop_times'].get(x, []))
    for x in canon.diff(a, b):
      ctx.fail(u'with repeated definitions, %s' % x)
    by_route = {}
    for r in g.table('trips'):
      by_route.setdefault(r['route_id'], []).append(r['trip_id'])
    for r in s.GetRouteList():
      ctx.equal(sorted(t.trip_id for t in r.trips), sorted(by_route.get(r.route_id, [])),
                u'trips of route %s' % r.route_id)
    ctx.count('feeds')
    if want or points:
      ctx.seen([i, want, points])
      ctx.sample({'case': i, 'repeats': [list(w[:2]) for w in want][:6]})
    else:
      ctx.count('feeds without repeats')
  finally:
    shutil.rmtree(d, ignore_errors=True)


def api_case(ctx, rng, i):
  """Additions one by one, each with the schedule's or with its own reporter."""
  main, main_reporter = recorder.new()
  s = transitfeed.Schedule(problem_reporter=main_reporter)
  first = {}
  ids = [u'1', u'01', u'a', u'A', u'é', u'x y', u'0', u"q'"]
  s.AddAgencyObject(transitfeed.Agency(u'Agency', u'http://x.org', u'UTC', id=u'1'))
  first['agency', u'1'] = s.GetAgency(u'1')
  s.AddRouteObject(transitfeed.Route(short_name=u'1', long_name=u'', route_type=3, route_id=u'1',
                                     agency_id=u'1'))
  first['route', u'1'] = s.GetRoute(u'1')
  transfers = []
  dates = {}
  service = transitfeed.ServicePeriod(u'1')
  service.SetStartDate(u'20260101')
  service.SetEndDate(u'20261231')
  service.SetWeekdayService(True)
  s.AddServicePeriodObject(service)
  first['service', u'1'] = service
  shape = transitfeed.Shape(u'1')
  sequences = {}
  trips = {}
  log = []
  for n in range(rng.randint(5, 40)):
    kind = rng.pick(['agency', 'stop', 'route', 'service', 'fare', 'shape', 'trip', 'transfer',
                     'date', 'point'])
    v = rng.pick(ids)
    own, own_reporter = recorder.new()
    use_own = rng.chance(0.5)
    given = own_reporter if use_own else None
    how = {} if not use_own else {'problem_reporter': given}
    expected = None
    value = v
    columns = (kind + '_id',)
    severity = ERROR
    if kind == 'agency':
      o = transitfeed.Agency(u'A %d' % n, u'http://x.org/%d' % n, u'UTC', id=v)
      s.AddAgencyObject(o, **how)
    elif kind == 'stop':
      o = transitfeed.Stop(lat=1 + n / 10., lng=2, name=u'Stop %d' % n, stop_id=v)
      s.AddStopObject(o, **how)
    elif kind == 'route':
      o = transitfeed.Route(short_name=u'%d' % n, long_name=u'', route_type=3, route_id=v,
                            agency_id=u'1')
      s.AddRouteObject(o, **how)
    elif kind == 'service':
      o = transitfeed.ServicePeriod(v)
      o.SetStartDate(u'20260101')
      o.SetEndDate(u'2026%02d28' % (1 + n % 12))
      o.SetWeekdayService(True)
      s.AddServicePeriodObject(o, **how)
    elif kind == 'fare':
      o = transitfeed.FareAttribute(v, u'%d.5' % n, u'EUR', u'0', u'')
      s.AddFareAttributeObject(o, **how)
    elif kind == 'shape':
      o = transitfeed.Shape(v)
      o.AddPoint(1, 2 + n / 10.)
      o.AddPoint(1.1, 2)
      s.AddShapeObject(o, **how)
    elif kind == 'trip':
      o = transitfeed.Trip()
      o.route_id = rng.pick([r.route_id for r in s.GetRouteList()])
      o.service_id = u'1'
      o.trip_id = v
      o.trip_headsign = u'to %d' % n
      s.AddTripObject(o, **how)
      if (kind, v) not in first:
        trips.setdefault(o.route_id, []).append(v)
    elif kind == 'transfer':
      stops = [x[1] for x in sorted(first) if x[0] == 'stop']
      if not stops:
        continue
      pair = (rng.pick(stops), rng.pick(stops))
      o = transitfeed.Transfer(from_stop_id=pair[0], to_stop_id=pair[1],
                               transfer_type=rng.pick([0, 1, 3]))
      s.AddTransferObject(o, **how)
      columns, severity, value = ('from_stop_id', 'to_stop_id'), WARNING, pair
      transfers.append(o)
    elif kind == 'date':
      date = u'202602%02d' % rng.randint(1, 9)
      has = rng.chance(0.5)
      given = own_reporter if use_own else main_reporter
      service.SetDateHasService(date, has, given)
      dates[date] = has
      columns, severity, value = ('service_id', 'date'), WARNING, (u'1', date)
      v = date
    else:
      seq = rng.randint(0, 20)
      given = own_reporter if use_own else main_reporter
      p = transitfeed.ShapePoint(u'1', 1 + seq, n, seq, None)
      p.ParseAttributes(given)
      shape.AddShapePointObjectUnsorted(p, given)
      columns, value = ('shape_pt_sequence',), seq
      v = seq
    what = u'%s %r added %s' % (kind, value, u'with a reporter' if use_own else u'without a reporter')
    log.append(what)
    key = (kind, value if kind == 'transfer' else v)
    there, elsewhere = (own, main) if use_own else (main, own)
    dup = [e for e in there.take()
           if e.cls == ('InvalidValue' if kind == 'point' else 'DuplicateID')]
    other = elsewhere.take()
    if other:
      ctx.fail(u'%s: reported to the wrong reporter: %r; history: %s' % (what, other, u'; '.join(log)))
    if key in first:
      ctx.count('repeated additions of %s' % kind)
      if len(dup) != 1:
        ctx.fail(u'%s: the repeat is reported %d times; history: %s' % (what, len(dup), u'; '.join(log)))
      else:
        e = dup[0]
        if names(e.column_name) != columns or e.type != severity or text(e.value) != text(value):
          ctx.fail(u'%s: expected %r %r severity %s, got %r' % (what, columns, value, severity, e))
    else:
      ctx.count('first additions')
      first[key] = None if kind in ('date', 'point', 'transfer') else o
      if dup:
        ctx.fail(u'%s: the first definition is reported as a repeat: %r; history: %s' %
                 (what, dup, u'; '.join(log)))
    if kind == 'point':
      sequences[seq] = sequences.get(seq, 0) + 1
    for name, get, lst in (('agency', s.GetAgency, s.GetAgencyList), ('stop', s.GetStop, s.GetStopList),
                           ('route', s.GetRoute, s.GetRouteList), ('trip', s.GetTrip, s.GetTripList),
                           ('service', s.GetServicePeriod, s.GetServicePeriodList),
                           ('fare', s.GetFareAttribute, s.GetFareAttributeList),
                           ('shape', s.GetShape, s.GetShapeList)):
      if name != kind:
        continue
      mine = dict((k[1], o) for k, o in first.items() if k[0] == name)
      if len(lst()) != len(mine):
        ctx.fail(u'%s: there are %d of them, expected %d' % (what, len(lst()), len(mine)))
      if get(v) is not mine[v]:
        ctx.fail(u'%s: the first definition does not stay in effect' % what)
  if len(s.GetTransferList()) != len(transfers):
    ctx.fail(u'%d transfers kept of %d' % (len(s.GetTransferList()), len(transfers)))
  for o in transfers:
    if not any(x is o for x in s.GetTransferList()):
      ctx.fail(u'a transfer is lost')
  got = dict((d, int(x) == 1) for _, d, x in service.GetCalendarDatesFieldValuesTuples())
  ctx.equal(got, dates, 'calendar exceptions in effect')
  for r in s.GetRouteList():
    ctx.equal(sorted(t.trip_id for t in r.trips), sorted(trips.get(r.route_id, [])),
              u'trips of route %s' % r.route_id)
  ctx.count('histories')
  ctx.seen([i, log])


def run_case(ctx, rng, i):
  if i % 2:
    api_case(ctx, rng, i)
  else:
    feed_case(ctx, rng, i)
