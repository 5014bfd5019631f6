# -*- coding: utf-8 -*-
"""C23: unusual trips and unused stops are recognised exactly."""
import collections
import os
import runpy
import shutil
import sys
from StringIO import StringIO

import transitfeed
import unusual_trip_filter

from harness import canon, feedgen, merges, recorder, render

CASES = {'quick': 560, 'thorough': 20000}
RULE = ('a case is one random feed whose routes have known shares of stop patterns, filtered by the class, '
        'by the command or after edits of its trips, or one feed with unused stops filtered by the example; '
        'distinct by the patterns, types and options')
MINIMUM = {'commands run': 63, 'regular trips left alone': 760, 'regular trips set': 1400,
           'schedules filtered': 120, 'stations of visited stops': 52,
           'trips at the threshold': 76, 'trips edited: anew': 230, 'trips edited: empty': 220,
           'trips edited: longer': 240, 'trips of other route types': 1100, 'unused stops': 150,
           'unusual trips': 1200, 'visited stops kept': 260}
ASSUMPTIONS = ['a share closer to the threshold than 1e-9 is only judged where both are exact binary fractions',
               'no transfer refers to a stop that goes away']

NAMES = {'Tram': 0, 'Subway': 1, 'Rail': 2, 'Bus': 3, 'Ferry': 4, 'Cable Car': 5, 'Gondola': 6, 'Funicular': 7}
EXACT = [0.5, 0.25, 0.125, 0.75, 1.0, 0.0]


def repattern(rng, m):
  """Spreads the trips of every route over a few patterns of skewed shares."""
  stops = [s['stop_id'] for s in m.table('stops') if s.get('location_type', u'') in (u'', u'0')]
  m.rows['stop_times'] = []
  for t in m.table('trips'):
    t['shape_id'] = t['block_id'] = u''
  for t in ('shapes', 'frequencies'):
    m.rows.pop(t, None)
  for r in m.table('routes'):
    pats = []
    for _ in range(rng.randint(1, 5)):
      p = [rng.pick(stops) for _ in range(rng.randint(2, 6))]
      if pats and rng.chance(0.5):
        p = list(rng.pick(pats))
        how = rng.randint(0, 4)
        if how == 0:
          p.reverse()
        elif how == 1:
          p.append(rng.pick(stops))
        elif how == 2 and len(p) > 2:
          p.pop(rng.randint(0, len(p) - 1))
        elif how == 3:
          p[rng.randint(0, len(p) - 1)] = rng.pick(stops)
        else:
          p = rng.shuffled(p)
      pats.append(p)
    weights = [rng.pick([1, 1, 3, 20]) for _ in pats]
    bag = [k for k, w in enumerate(weights) for _ in range(w)]
    for t in m.table('trips'):
      if t['route_id'] == r['route_id']:
        start = rng.randint(0, 90000)
        for n, st in enumerate(pats[rng.pick(bag)]):
          x = feedgen.hms(start + 3600 * n)
          m.add('stop_times', trip_id=t['trip_id'], arrival_time=x, departure_time=x, stop_id=st,
                stop_sequence=unicode(n * 2 + 1))


def patterns(m):
  seqs = collections.defaultdict(list)
  for r in m.table('stop_times'):
    seqs[r['trip_id']].append((int(r['stop_sequence']), r['stop_id']))
  return dict((k, tuple(x[1] for x in sorted(v))) for k, v in seqs.items())


def unusual(threshold, share, total):
  """Whether a share is below the threshold; None when too close to say."""
  if threshold in EXACT and (total & (total - 1)) == 0:
    return share < threshold * total
  if abs(share / float(total) - threshold) < 1e-9:
    return None
  return share / float(total) < threshold


def expected(ctx, types, pats, routes, threshold, force, kind):
  """trip -> expected trip_type (None: not judged); types: trip -> before,
  routes: route -> (type, [trip])."""
  want = {}
  for rtype, trips in routes.values():
    count = collections.Counter(pats.get(t, ()) for t in trips)
    for t in trips:
      if kind is not None and rtype != kind:
        want[t] = types[t]
        ctx.count('trips of other route types')
        continue
      is_unusual = unusual(threshold, count[pats.get(t, ())], len(trips))
      if is_unusual is None:
        want[t] = None
        ctx.count('trips at the threshold')
      elif is_unusual:
        want[t] = u'1'
        ctx.count('unusual trips')
      elif force:
        want[t] = u'0'
        ctx.count('regular trips set')
      else:
        want[t] = types[t]
        ctx.count('regular trips left alone')
  return want


def text(x):
  return u'' if x is None else x if isinstance(x, basestring) else u'%s' % x


def judge(ctx, got, want, where):
  ctx.check(sorted(got) == sorted(want), '%s: trips are %r, expected %r', where, sorted(got), sorted(want))
  for t, w in want.items():
    if w is not None:
      ctx.check(got.get(t) == w, '%s: trip_type of %r is %r, expected %r', where, t, got.get(t), w)


def threshold_of(rng):
  return rng.pick([0.1, 0.1, 0.3, 0.5, 0.25, 0.125, 1.0, 0.0, 2.0, rng.uniform(0, 0.6)])


def quietly(f):
  out = sys.stdout
  sys.stdout = StringIO()
  try:
    return f()
  finally:
    sys.stdout = out


def drop_types(c):
  for d in c['trips'].values():
    d.pop('trip_type', None)
  return c


def kind_of(rng):
  """(route type or None, how it is given)"""
  if rng.chance(0.5):
    return None, None
  name = rng.pick(sorted(NAMES))
  return NAMES[name], rng.pick([name, NAMES[name], str(NAMES[name])])


def feed(rng):
  m = feedgen.generate(rng, trips=(1, rng.pick([4, 12, 25])), routes=(1, 3), extra=0.2)
  repattern(rng, m)
  if rng.chance(0.5):
    for t in m.table('trips'):
      t['trip_type'] = rng.pick([u'', u'0', u'1', u'2', u'odd'])
  m.finish_columns(rng)
  return m


def routes_of(m):
  out = {}
  for r in m.table('routes'):
    out[r['route_id']] = (int(r['route_type']),
                          [t['trip_id'] for t in m.table('trips') if t['route_id'] == r['route_id']])
  return out


def by_class(ctx, rng):
  m = feed(rng)
  d = ctx.tmpdir()
  try:
    p = render.write_zip(render.files(m), os.path.join(d, 'in.zip'))
    s, rec = recorder.load(p)
  finally:
    shutil.rmtree(d)
  th, force = threshold_of(rng), rng.chance(0.4)
  kind, given = kind_of(rng)
  if rng.chance(0.5):
    given = kind
  types = dict((t['trip_id'], t.get('trip_type', u'')) for t in m.table('trips'))
  pats = patterns(m)
  want = expected(ctx, types, pats, routes_of(m), th, force, kind)
  before = drop_types(canon.of_schedule(s))
  f = unusual_trip_filter.UnusualTripFilter(th, force=force, quiet=rng.chance(0.7), route_type=given)
  quietly(lambda: f.filter(s))
  judge(ctx, dict((t.trip_id, text(t['trip_type'])) for t in s.GetTripList()), want, 'filter')
  for line in canon.diff(drop_types(canon.of_schedule(s)), before):
    ctx.fail('the filter changed more than trip types: %s' % line)
  ctx.count('schedules filtered')
  # The trips change, and everything is judged anew
  rec.take()
  stops = sorted(m.ids('stop_times', 'stop_id'))
  for t in rng.sub(s.GetTripList(), 0.4):
    how = rng.pick(['longer', 'anew', 'empty'])
    if how != 'longer':
      t.ClearStopTimes()
      pats.pop(t.trip_id, None)
    if how != 'empty':
      for n in range(rng.randint(1, 3)):
        st = rng.pick(stops)
        t.AddStopTime(s.GetStop(st), rec.reporter(), stop_time='%02d:00:00' % (60 + n))
        pats[t.trip_id] = pats.get(t.trip_id, ()) + (st,)
    ctx.count('trips edited: ' + how)
  types = dict((t.trip_id, text(t['trip_type'])) for t in s.GetTripList())
  th2 = threshold_of(rng)
  want = expected(ctx, types, pats, routes_of(m), th2, True, None)
  quietly(lambda: unusual_trip_filter.UnusualTripFilter(th2, force=True, quiet=True).filter(s))
  judge(ctx, dict((t.trip_id, text(t['trip_type'])) for t in s.GetTripList()), want, 'filter after edits')
  ctx.seen((sorted(pats.items()), th, th2, force, given))
  ctx.sample('threshold %r, force %r, route type %r, %d trips' % (th, force, given, len(types)))


def run_script(ctx, name, args):
  old, out, err = sys.argv, sys.stdout, sys.stderr
  sys.argv = [name] + args
  sys.stdout, sys.stderr = StringIO(), StringIO()
  code = None
  try:
    try:
      runpy.run_path(os.path.join(ctx.repo, *name.split('/')), run_name='__main__')
    except SystemExit as e:
      code = e.code
    text = sys.stdout.getvalue() + sys.stderr.getvalue()
  finally:
    sys.argv, sys.stdout, sys.stderr = old, out, err
  return code, text


def by_command(ctx, rng):
  m = feed(rng)
  th = threshold_of(rng)
  force = rng.chance(0.4)
  kind, given = kind_of(rng)
  d = ctx.tmpdir()
  try:
    p = os.path.join(d, 'in.zip')
    render.write_zip(render.files(m), p)
    data = open(p, 'rb')
    original = data.read()
    data.close()
    args = []
    if rng.chance(0.8):
      args += [rng.pick(['-t', '--threshold']), repr(th)]
    else:
      th = 0.1
    if force:
      args.append(rng.pick(['-f', '--override_trip_type']))
    if given is not None:
      args += [rng.pick(['-r', '--route_type']), str(given)]
    if rng.chance(0.5):
      args.append(rng.pick(['-q', '--quiet']))
    if rng.chance(0.3):
      args.append(rng.pick(['-m', '--memory_db']))
    out = p
    if rng.chance(0.6):
      out = os.path.join(d, 'out.zip')
      args += [rng.pick(['-o', '--output']), out]
    args = args + [p] if rng.chance(0.7) else [p] + args
    code, said = run_script(ctx, 'unusual_trip_filter.py', args)
    ctx.check(code in (None, 0), 'the command %r ended with %r: %s', args, code, said[-300:])
    if not os.path.exists(out):
      ctx.fail('the command %r wrote nothing: %s' % (args, said[-300:]))
      return
    w = merges.written(out)
    if out != p:
      data = open(p, 'rb')
      ctx.check(data.read() == original, 'the command changed its input although told to write elsewhere')
      data.close()
  finally:
    shutil.rmtree(d)
  types = dict((t['trip_id'], t.get('trip_type', u'')) for t in m.table('trips'))
  want = expected(ctx, types, patterns(m), routes_of(m), th, force, kind)
  judge(ctx, dict((t['trip_id'], t.get('trip_type', u'')) for t in w.table('trips')), want, 'command %r' % args)
  for line in canon.diff(drop_types(canon.of_feed(w)), drop_types(canon.of_feed(m))):
    ctx.fail('the command changed more than trip types: %s' % line)
  ctx.count('commands run')
  ctx.seen((sorted(patterns(m).items()), args[:-1]))


def unused(ctx, rng):
  m = feedgen.generate(rng, trips=(1, 3), stations=0.8, fares=0)
  n = len(m.table('stops'))
  for k in range(rng.randint(0, 3)):
    s = dict(rng.pick(m.table('stops')))
    s.update(stop_id=u'unused %d' % k, stop_name=u'Unused %d' % k)
    if rng.chance(0.5):
      s['location_type'] = u'1'
      s['parent_station'] = u''
    m.rows['stops'].insert(rng.randint(0, n), s)
  trips = m.ids('trips', 'trip_id')
  gone = set(rng.sub(trips, 0.4)) if rng.chance(0.6) else set()
  if len(gone) < len(trips):
    for t in ('stop_times', 'frequencies'):
      if t in m.rows:
        m.rows[t] = [r for r in m.rows[t] if r['trip_id'] not in gone]
  visited = set(m.ids('stop_times', 'stop_id'))
  keep, stations = set(visited), set()
  for s in m.table('stops'):
    if s['stop_id'] in visited and s.get('parent_station'):
      keep.add(s['parent_station'])
      stations.add(s['parent_station'])
      ctx.count('stations of visited stops')
  m.rows['transfers'] = [r for r in m.table('transfers')
                         if r['from_stop_id'] in keep and r['to_stop_id'] in keep]
  if not m.rows['transfers']:
    del m.rows['transfers']
  m.finish_columns(rng)
  d = ctx.tmpdir()
  try:
    p = render.write_zip(render.files(m), os.path.join(d, 'in.zip'))
    out = os.path.join(d, 'out.zip')
    args = (['-l'] if rng.chance(0.4) else []) + [p, out]
    code, said = run_script(ctx, 'examples/filter_unused_stops.py', args)
    ctx.check(code in (None, 0), 'the example ended with %r: %s', code, said[-300:])
    if not os.path.exists(out):
      ctx.fail('the example wrote nothing: %s' % said[-300:])
      return
    w = merges.written(out)
  finally:
    shutil.rmtree(d)
  want = canon.of_feed(m)
  for s in m.ids('stops', 'stop_id'):
    if s not in keep:
      del want['stops'][s]
      ctx.count('unused stops')
  lost = stations - visited - set(w.ids('stops', 'stop_id'))
  for s in lost:
    ctx.finding('filter-unused-stations', u'station %r of visited stops is removed' % s)
    del want['stops'][s]
  for line in canon.diff(canon.of_feed(w), want):
    ctx.fail('filtering unused stops: %s' % line)
  ctx.count('visited stops kept', len(visited))
  ctx.seen((sorted(keep), m.ids('stops', 'stop_id')))


def run_case(ctx, rng, i):
  if i % 4 == 2:
    by_command(ctx, rng)
  elif i % 4 == 3:
    unused(ctx, rng)
  else:
    by_class(ctx, rng)
