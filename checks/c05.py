# -*- coding: utf-8 -*-
"""C05: dangling references are reported exactly, valid ones never."""
import os
import shutil

from harness import canon, feedgen, recorder, render
from harness.core import u

CASES = {'quick': 700, 'thorough': 40000}
RULE = ('a case is one generated feed in which references were made dangling by rewriting them '
        'or by removing what they name; distinct by feed and references')
MINIMUM = {'dangling fare_rules.contains_id': 52, 'dangling fare_rules.destination_id': 48,
           'dangling fare_rules.fare_id': 72, 'dangling fare_rules.origin_id': 46,
           'dangling fare_rules.route_id': 58, 'dangling frequencies.trip_id': 50,
           'dangling routes.agency_id': 93, 'dangling stop_times.stop_id': 250,
           'dangling stop_times.trip_id': 190, 'dangling stops.parent_station': 92,
           'dangling transfers.from_stop_id': 46, 'dangling transfers.to_stop_id': 54,
           'dangling trips.route_id': 170, 'dangling trips.service_id': 140,
           'dangling trips.shape_id': 110, 'feeds': 310, 'feeds with dangling references': 250,
           'feeds without dangling references': 64, 'references followed': 18000,
           'stop times without stop and trip': 1}
ASSUMPTIONS = ['a stop time whose stop and trip are both undefined needs one report only; '
               'references to a route that was itself refused may be reported or not']

# table, column, (defining table, defining column)
REFS = [
    ('routes', 'agency_id', 'agency'), ('trips', 'route_id', 'route'),
    ('trips', 'service_id', 'service'), ('trips', 'shape_id', 'shape'),
    ('stop_times', 'stop_id', 'stop'), ('stop_times', 'trip_id', 'trip'),
    ('stops', 'parent_station', 'stop'), ('fare_rules', 'fare_id', 'fare'),
    ('fare_rules', 'route_id', 'route'), ('fare_rules', 'origin_id', 'zone'),
    ('fare_rules', 'destination_id', 'zone'), ('fare_rules', 'contains_id', 'zone'),
    ('transfers', 'from_stop_id', 'stop'), ('transfers', 'to_stop_id', 'stop'),
    ('frequencies', 'trip_id', 'trip')]
DEFINED = {'agency': [('agency', 'agency_id')], 'route': [('routes', 'route_id')],
           'service': [('calendar', 'service_id'), ('calendar_dates', 'service_id')],
           'shape': [('shapes', 'shape_id')], 'stop': [('stops', 'stop_id')],
           'trip': [('trips', 'trip_id')], 'fare': [('fare_attributes', 'fare_id')],
           'zone': [('stops', 'zone_id')]}
COLUMNS = set(r[1] for r in REFS)


def defined(f, kind):
  return set(r.get(c, u'') for t, c in DEFINED[kind] for r in f.table(t)) - set([u''])


def undefined(rng, f, kind, old):
  """An identifier that is not defined, but looks like one that is."""
  ids = defined(f, kind)
  while True:
    k = rng.randint(0, 5)
    base = old or (rng.pick(sorted(ids)) if ids else u'x')
    if k == 0:
      v = base + rng.pick([u'x', u'0', u'_', u'.', u'\u0301', u'%'])
    elif k == 1:
      v = base.swapcase()
    elif k == 2:
      v = rng.pick([u'0', u'None', u'nowhere', u'*', u'-1', u'東', u'é', u"'", u'%s', u'a,b', u'00'])
    elif k == 3:
      v = base[:-1].strip()
    elif k == 4:
      other = rng.pick(sorted(DEFINED))
      pool = sorted(defined(f, other))
      v = rng.pick(pool) if pool else u'y'
    else:
      v = u'0' + base
    if v and v == v.strip() and v not in ids:
      return v


def remove(f, rng):
  """Take the definition of one object out of the feed."""
  kind = rng.pick(['agency', 'route', 'service', 'shape', 'stop', 'trip', 'fare'])
  ids = sorted(defined(f, kind))
  if kind in ('service', 'shape', 'fare', 'trip') and rng.chance(0.25):
    for t, _ in DEFINED[kind]:
      if t in f.rows:
        f.rows[t] = []
    return
  if len(ids) < 2:
    return
  v = rng.pick(ids)
  for t, c in DEFINED[kind]:
    if t in f.rows:
      left = [r for r in f.rows[t] if r.get(c, u'') != v]
      if t == 'agency' and not left:
        return
      f.rows[t] = left


def rewrite(f, rng):
  """Make one reference dangle."""
  for _ in range(20):
    t, c, kind = rng.pick(REFS)
    rows = [r for r in f.table(t) if r.get(c, u'') != u'']
    if c == 'parent_station':
      rows = [r for r in f.table(t) if r.get('location_type', u'') in (u'', u'0')]
    elif c in ('shape_id', 'route_id', 'origin_id', 'destination_id', 'contains_id') and \
        t != 'trips' or c == 'shape_id':
      rows = f.table(t)
    if not rows:
      continue
    r = rng.pick(rows)
    r[c] = undefined(rng, f, kind, r.get(c, u''))
    if c not in f.cols[t]:
      f.cols[t].append(c)
    return


def expect(f):
  """Reports that must be there, those that may be, and what is refused."""
  ids = dict((k, defined(f, k)) for k in DEFINED)
  must, may = [], []
  agencies = [r.get('agency_id', u'') for r in f.table('agency')]
  g = f.copy()
  keep = []
  refused = set()
  for j, r in enumerate(f.table('routes')):
    a = r.get('agency_id', u'')
    if a == u'' and (len(agencies) == 1 or u'' in agencies) or a in agencies:
      keep.append(g.rows['routes'][j])
      continue
    if a != u'':
      must.append(('routes.txt', j + 2, 'agency_id', a))
    else:
      may.append(('routes.txt', j + 2, 'agency_id', a))
    refused.add(r['route_id'])
  if 'routes' in g.rows:
    g.rows['routes'] = keep

  for t, c, kind in REFS:
    if t in ('routes', 'stop_times'):
      continue
    for j, r in enumerate(f.table(t)):
      v = r.get(c, u'')
      if v == u'':
        continue
      where = (t + '.txt', j + 2, c, v)
      if c == 'parent_station':
        where = (None, None, c, v)
        if r.get('location_type') == u'1':
          continue
      if v not in ids[kind]:
        must.append(where)
      elif kind == 'route' and v in refused:
        may.append(where)
  either = []
  keep = []
  for j, r in enumerate(f.table('stop_times')):
    bad = [('stop_times.txt', j + 2, c, r[c]) for c, kind in (('stop_id', 'stop'), ('trip_id', 'trip'))
           if r[c] not in ids[kind]]
    if len(bad) == 1:
      must += bad
    elif bad:
      either.append(bad)
    else:
      keep.append(g.rows['stop_times'][j])
  g.rows['stop_times'] = keep
  for t, c, kind in (('frequencies', 'trip_id', 'trip'), ('fare_rules', 'fare_id', 'fare')):
    if t in g.rows:
      g.rows[t] = [r for r in g.rows[t] if r[c] in ids[kind]]
  return must, may, either, g


def links(ctx, s, g, what):
  """Every valid reference leads to the object with that identifier."""
  routes = dict((o.route_id, o) for o in s.GetRouteList())
  stops = dict((o.stop_id, o) for o in s.GetStopList())
  trips = dict((o.trip_id, o) for o in s.GetTripList())
  services = dict((o.service_id, o) for o in s.GetServicePeriodList())
  shapes = dict((o.shape_id, o) for o in s.GetShapeList())
  n = 0
  of_route, of_stop = {}, {}
  for r in g.table('trips'):
    of_route.setdefault(r['route_id'], []).append(r['trip_id'])
    t = trips[r['trip_id']]
    if r['route_id'] in routes:
      n += ctx.check(s.GetRoute(t.route_id) is routes[r['route_id']],
                     u'%s: trip %s leads to another route', what, r['trip_id'])
    if r['service_id'] in services:
      n += ctx.check(t.service_period is services[r['service_id']] and
                     s.GetServicePeriod(t.service_id) is services[r['service_id']],
                     u'%s: trip %s leads to another service', what, r['trip_id'])
    if r.get('shape_id') in shapes:
      n += ctx.check(s.GetShape(t.shape_id) is shapes[r['shape_id']],
                     u'%s: trip %s leads to another shape', what, r['trip_id'])
  for r in g.table('stop_times'):
    of_stop.setdefault(r['stop_id'], set()).add(r['trip_id'])
  for t in trips.values():
    for x in t.GetStopTimes():
      n += ctx.check(x.stop is stops.get(x.stop_id), u'%s: a stop time of trip %s leads to stop %s',
                     what, t.trip_id, x.stop_id)
  for rid, r in routes.items():
    n += ctx.equal(sorted(t.trip_id for t in r.trips), sorted(of_route.get(rid, [])),
                   u'%s: trips of route %s' % (what, rid))
  for sid, o in stops.items():
    n += ctx.equal(sorted(set(t.trip_id for t in o.GetTrips())), sorted(of_stop.get(sid, ())),
                   u'%s: trips of stop %s' % (what, sid))
  ctx.count('references followed', n)


def run_case(ctx, rng, i):
  d = ctx.tmpdir()
  try:
    m = feedgen.generate(rng, fares=0.8, freqs=0.6, transfers=0.7, stations=0.6,
                         agencies=(1, 4), shapes=0.7)
    f = m.copy()
    if i % 8:
      for _ in range(rng.pick([0, 0, 1, 2])):
        remove(f, rng)
      for _ in range(rng.pick([0, 1, 1, 2, 3, 6, 15])):
        rewrite(f, rng)
    must, may, either, g = expect(f)
    st = render.random_style(rng)
    st.shuffle_rows = False
    st.blank = 0.0
    path = os.path.join(d, 'feed.zip')
    render.write_zip(render.files(f, st), path)
    s, rec = recorder.load(path)
    got = []
    for e in rec.of('InvalidValue'):
      if e.column_name in COLUMNS:
        got.append((e.file_name, e.row_num, e.column_name, u(e.value)))
        if e.type != recorder.ERROR:
          ctx.fail(u'a dangling reference is not an error: %r' % e)
    left = list(got)
    what = u'case %d' % i
    for w in must:
      if w in left:
        left.remove(w)
        ctx.count('dangling %s.%s' % ((w[0] or 'stops.txt')[:-4], w[2]))
      else:
        ctx.fail(u'dangling reference not reported (or not there): %r; reported: %r' % (w, got))
    for bad in either:
      hit = [w for w in bad if w in left]
      if not hit:
        ctx.fail(u'stop time with two dangling references not reported: %r' % bad)
      for w in hit:
        left.remove(w)
      ctx.count('stop times without stop and trip')
    for w in left:
      if w in may:
        may.remove(w)
      else:
        ctx.fail(u'reported without reason or twice: %r' % (w,))
    for x in canon.diff(canon.of_schedule(s), canon.of_feed(g)):
      ctx.fail(u'with dangling references, %s' % x)
    links(ctx, s, g, what)
    ctx.count('feeds')
    if must or either:
      ctx.count('feeds with dangling references')
      ctx.seen([i, must, either])
      ctx.sample({'case': i, 'dangling': [list(w) for w in must][:6]})
    else:
      ctx.count('feeds without dangling references')
  finally:
    shutil.rmtree(d, ignore_errors=True)
