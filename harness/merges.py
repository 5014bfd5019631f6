# -*- coding: utf-8 -*-
"""Pairs of model feeds, merging them with merge.py, and the model of a merge."""
import datetime
import os
import sys

import transitfeed

from harness import canon, feedgen, geo, recorder, render
from harness.core import u

REFS = {
    'agency': [('agency', 'agency_id'), ('routes', 'agency_id')],
    'stop': [('stops', 'stop_id'), ('stops', 'parent_station'), ('stop_times', 'stop_id'),
             ('transfers', 'from_stop_id'), ('transfers', 'to_stop_id')],
    'route': [('routes', 'route_id'), ('trips', 'route_id'), ('fare_rules', 'route_id')],
    'trip': [('trips', 'trip_id'), ('stop_times', 'trip_id'), ('frequencies', 'trip_id')],
    'service': [('calendar', 'service_id'), ('calendar_dates', 'service_id'),
                ('trips', 'service_id')],
    'fare': [('fare_attributes', 'fare_id'), ('fare_rules', 'fare_id')],
    'shape': [('shapes', 'shape_id'), ('trips', 'shape_id')],
    'zone': [('stops', 'zone_id'), ('fare_rules', 'origin_id'), ('fare_rules', 'destination_id'),
             ('fare_rules', 'contains_id')],
    'block': [('trips', 'block_id')]}
TAGGED = {'agency': ('agency', 'agency_id'), 'stop': ('stops', 'stop_id'),
          'route': ('routes', 'route_id'), 'trip': ('trips', 'trip_id')}
TABLES = {'agency': 'agency', 'stop': 'stops', 'route': 'routes', 'trip': 'trips',
          'fare': 'fare_attributes'}
ENTITY = {'agency': 'agency', 'stop': 'stop', 'route': 'route', 'fare': 'fare attribute',
          'shape': 'shape'}


def ids(f, kind):
  """Identifiers a feed defines, in order."""
  out = []
  defs = REFS[kind][:2] if kind == 'service' else REFS[kind][:1]
  for t, c in defs:
    for r in f.table(t):
      v = r.get(c, u'')
      if v not in out and (v != u'' or kind == 'agency'):
        out.append(v)
  return out


def rename(f, maps):
  """A copy of the feed with identifiers replaced (unknown ones marked)."""
  g = f.copy()
  for kind, m in maps.items():
    for t, c in REFS[kind]:
      for r in g.table(t):
        v = r.get(c, u'')
        if v != u'' or kind == 'agency':
          r[c] = m.get(v, u'?' + v)
  return g


def service_content(f, sid):
  cal = [tuple(r[k] for k in ['start_date', 'end_date'] + feedgen.DAYS)
         for r in f.table('calendar') if r['service_id'] == sid]
  exc = sorted((r['date'], r['exception_type']) for r in f.table('calendar_dates')
               if r['service_id'] == sid)
  return (tuple(cal), tuple(exc))


def fare_content(r):
  c = canon._int
  return (float(r['price']), r['currency_type'], int(r['payment_method']), c(r.get('transfers')),
          c(r.get('transfer_duration')))


def shape_points(f):
  out = {}
  for r in f.table('shapes'):
    out.setdefault(r['shape_id'], []).append((
        int(r['shape_pt_sequence']), float(r['shape_pt_lat']), float(r['shape_pt_lon']),
        canon._float(r.get('shape_dist_traveled'))))
  return dict((k, tuple(p[1:] for p in sorted(v))) for k, v in out.items())


# --- pairs ----------------------------------------------------------------------------

def _move(rng, r, lat, lon, metres):
  la, lo = geo.offset(float(r[lat]), float(r[lon]), metres * rng.pick([-1, 1]), 0.0)
  r[lat], r[lon] = u'%.8f' % la, u'%.8f' % lo


def edit(rng, b, limits):
  """Change some entities of b: some changes leave them mergeable, some do not."""
  stop_limit, shape_limit = limits
  for r in b.table('agency'):
    if rng.chance(0.3):
      r['agency_phone'] = u'555'
      r['agency_fare_url'] = rng.pick([u'', u'http://fare.x'])
    if rng.chance(0.2):
      r['agency_name'] += rng.pick([u'x', u' ', u'é']).strip() or u'y'
    elif rng.chance(0.1):
      r['agency_url'] += u'/z'
  moved = {}
  for r in b.table('stops'):
    p = rng.random()
    if p < 0.12:
      r['stop_name'] = rng.pick([r['stop_name'].upper(), r['stop_name'].lower(),
                                 r['stop_name'].swapcase()])
    elif p < 0.24:
      _move(rng, r, 'stop_lat', 'stop_lon', stop_limit * rng.pick([0.3, 0.9, 0.98]))
    elif p < 0.36:
      r['stop_desc'] = rng.pick([u'', u'other'])
      r['stop_code'] = rng.pick([u'', u'77'])
    elif p < 0.46:
      r['stop_name'] += u'!'
    elif p < 0.56:
      _move(rng, r, 'stop_lat', 'stop_lon', stop_limit * rng.pick([1.02, 1.1, 3]))
    elif p < 0.64:
      r['zone_id'] = rng.pick([x for x in [u'', u'zz', u'ZZ'] if x != r.get('zone_id', u'')])
    elif p < 0.68 and r.get('location_type', u'') == u'0':
      r['location_type'] = u''
  for r in b.table('routes'):
    p = rng.random()
    if p < 0.15:
      r['route_desc'] = u'other words'
    elif p < 0.3:
      r['route_url'] = rng.pick([u'', u'http://other.x'])
    elif p < 0.4:
      r['route_color'], r['route_text_color'] = rng.pick(feedgen.COLOR_PAIRS)
    elif p < 0.5:
      r['route_long_name'] += u' x' if r['route_long_name'] else u'x'
    elif p < 0.6:
      r['route_type'] = rng.pick([u'3', u'2'])
    elif p < 0.65:
      r['agency_id'] = rng.pick(b.ids('agency', 'agency_id'))
  for r in b.table('fare_attributes'):
    p = rng.random()
    if p < 0.15:
      r['currency_type'] = u'SEK'
    elif p < 0.3:
      r['transfers'] = rng.pick([x for x in [u'', u'0', u'1'] if x != r['transfers']])
    elif p < 0.4:
      r['transfer_duration'] = rng.pick([x for x in [u'', u'0', u'60'] if x != r['transfer_duration']])
    elif p < 0.5:
      r['payment_method'] = u'1' if r['payment_method'] == u'0' else u'0'
  for s in ids(b, 'shape'):
    pts = sorted([r for r in b.table('shapes') if r['shape_id'] == s],
                 key=lambda r: int(r['shape_pt_sequence']))
    p = rng.random()
    if p < 0.15:
      _move(rng, rng.pick([pts[0], pts[-1]]), 'shape_pt_lat', 'shape_pt_lon', shape_limit * 0.9)
    elif p < 0.3:
      _move(rng, rng.pick([pts[0], pts[-1]]), 'shape_pt_lat', 'shape_pt_lon', shape_limit * 1.1)
    elif p < 0.4 and len(pts) > 2:
      _move(rng, pts[1], 'shape_pt_lat', 'shape_pt_lon', 300)


def fresh(old, taken, rng):
  while True:
    v = rng.pick([old + u'x', old + u'_merged_1', u'n%d' % rng.randint(0, 99), old + u'9', u'a_' + old,
                  old.swapcase()])
    if v and v not in taken:
      return v


def rename_some(rng, b, p):
  maps = {}
  for kind in REFS:
    m, taken = {}, set(ids(b, kind))
    for v in ids(b, kind):
      m[v] = v
      if v != u'' and rng.chance(p):
        m[v] = fresh(v, taken, rng)
        taken.add(m[v])
    maps[kind] = m
  return rename(b, maps)


def swap_some(rng, b):
  """Exchange two identifiers of one kind."""
  kind = rng.pick(sorted(REFS))
  l = [v for v in ids(b, kind) if v != u'']
  if len(l) < 2:
    return b
  x, y = rng.sample(l, 2)
  m = dict((v, v) for v in ids(b, kind))
  m[x], m[y] = y, x
  return rename(b, {kind: m})


def shift(f, days):
  def move(text):
    d = datetime.date(int(text[:4]), int(text[4:6]), int(text[6:])) + datetime.timedelta(days=days)
    return feedgen.ymd(d)
  for r in f.table('calendar'):
    r['start_date'], r['end_date'] = move(r['start_date']), move(r['end_date'])
  for r in f.table('calendar_dates'):
    r['date'] = move(r['date'])


def dates_of(f):
  out = [r['date'] for r in f.table('calendar_dates')]
  for r in f.table('calendar'):
    out += [r['start_date'], r['end_date']]
  return out


def unique_contents(rng, a, b):
  """Make every service, fare and shape recognisable by its content.

  Fares and shapes of the two feeds stay equal where their identifiers are.
  """
  seen = set()
  day = [0]
  for f in (a, b):
    for s in ids(f, 'service'):
      while service_content(f, s) in seen:
        day[0] += 1
        f.add('calendar_dates', service_id=s, exception_type=u'2',
              date=u'2001%02d%02d' % (1 + day[0] // 28, 1 + day[0] % 28))
      seen.add(service_content(f, s))
    if f.table('calendar_dates') and not f.cols.get('calendar_dates'):
      f.cols['calendar_dates'] = list(feedgen.COLUMNS['calendar_dates'])
  seen = {}
  price = [200]
  for f in (a, b):
    here = {}
    for r in f.table('fare_attributes'):
      while fare_content(r) in here or seen.get(fare_content(r), r['fare_id']) != r['fare_id']:
        price[0] += 1
        r['price'] = u'%.2f' % (price[0] / 4.)
      here[fare_content(r)] = r['fare_id']
    seen.update(here)
  seen = {}
  for f in (a, b):
    here = {}
    for s in ids(f, 'shape'):
      first = min((r for r in f.table('shapes') if r['shape_id'] == s),
                  key=lambda r: int(r['shape_pt_sequence']))
      while shape_points(f)[s] in here or seen.get(shape_points(f)[s], s) != s:
        first['shape_pt_lat'] = u'%.6f' % (float(first['shape_pt_lat']) + 0.000001)
      here[shape_points(f)[s]] = s
    seen.update(here)


def tag(f, letter):
  for kind, (t, _) in TAGGED.items():
    for n, r in enumerate(f.table(t)):
      r['vtag'] = u'%s %s %d' % (letter, kind, n)
    if f.table(t) and 'vtag' not in f.cols[t]:
      f.cols[t].append('vtag')
  for n, r in enumerate(f.table('transfers')):
    r['vtag'] = u'%s transfer %d' % (letter, n)
  if f.table('transfers') and 'vtag' not in f.cols['transfers']:
    f.cols['transfers'].append('vtag')


def refresh_columns(rng, f):
  f.finish_columns(rng, keep_empty=rng.pick([0.0, 0.4, 1.0]))


def pair(rng, limits, same=None):
  """Two feeds that have some entities in common."""
  opt = dict(fares=0.7, freqs=0.4, transfers=0.7, stations=0.5, shapes=0.6, agencies=(1, 3),
             trips=(1, 4), blocks=0.4)
  a = feedgen.generate(rng, **opt)
  mode = rng.random() if same is None else (0.0 if same else 1.0)
  if mode < 0.1:
    b = a.copy()
    how = 'unchanged copy'
  elif mode < 0.8:
    b = a.copy()
    edit(rng, b, limits)
    if rng.chance(0.6):
      b = rename_some(rng, b, rng.pick([0.1, 0.3]))
    if rng.chance(0.2):
      b = swap_some(rng, b)
    how = 'edited copy'
  else:
    b = feedgen.generate(rng, **opt)
    how = 'other feed'
  return a, b, how


def finish_pair(rng, a, b):
  unique_contents(rng, a, b)
  refresh_columns(rng, a)
  refresh_columns(rng, b)
  tag(a, u'a')
  tag(b, u'b')


# --- the model of a merge -------------------------------------------------------------

def near(p, q, limit):
  return geo.dist(p[0], p[1], q[0], q[1]) <= limit


def clear_of(p, q, limit):
  """The distance is not within half a percent of the limit."""
  return abs(geo.dist(p[0], p[1], q[0], q[1]) - limit) > 0.005 * limit


def same_text(a, b, col):
  return a.get(col, u'') == b.get(col, u'')


class Model(object):
  """Which entities are the same, and what the merged feed must contain."""

  def __init__(self, a, b, limits):
    self.a, self.b = a, b
    self.limits = limits
    self.doubtful = False
    self.unified = dict((k, set()) for k in REFS)
    self.conflicts = dict((k, set()) for k in REFS)
    self.decide()
    self.maps_a, self.maps_b = self.names(a, u'a'), self.names(b, u'b')

  def default_agency(self, f, v):
    if v == u'' and len(f.table('agency')) == 1:
      return f.table('agency')[0].get('agency_id', u'')
    return v

  def decide(self):
    a, b = self.a, self.b
    for kind in ('agency', 'stop', 'route', 'fare', 'shape', 'service', 'trip'):
      both = [v for v in ids(a, kind) if v in ids(b, kind)]
      for v in both:
        if self.same(kind, v):
          self.unified[kind].add(v)
        else:
          self.conflicts[kind].add(v)
    for v in self.unified['stop']:
      z = a.find('stops', 'stop_id', v).get('zone_id', u'')
      if z:
        self.unified['zone'].add(z)

  def same(self, kind, v):
    if kind in ('service', 'trip'):
      return False
    if kind == 'shape':
      p, q = shape_points(self.a)[v], shape_points(self.b)[v]
      limit = self.limits[1]
      for x, y in ((p[0], q[0]), (p[-1], q[-1])):
        if not clear_of(x, y, limit):
          self.doubtful = True
      return near(p[0], q[0], limit) and near(p[-1], q[-1], limit)
    t, c = TABLES[kind], REFS[kind][0][1]
    r, s = self.a.find(t, c, v), self.b.find(t, c, v)
    if kind == 'agency':
      return all(same_text(r, s, x) for x in ('agency_name', 'agency_url', 'agency_timezone'))
    if kind == 'stop':
      p, q = [(float(x['stop_lat']), float(x['stop_lon'])) for x in (r, s)]
      if not clear_of(p, q, self.limits[0]):
        self.doubtful = True
      return (near(p, q, self.limits[0]) and r['stop_name'].lower() == s['stop_name'].lower() and
              same_text(r, s, 'zone_id') and
              (r.get('location_type') or u'0') == (s.get('location_type') or u'0'))
    if kind == 'fare':
      return fare_content(r) == fare_content(s)
    x = self.default_agency(self.a, r.get('agency_id', u''))
    y = self.default_agency(self.b, s.get('agency_id', u''))
    if x != y or x not in self.unified['agency']:
      return False
    if not all(same_text(r, s, c) for c in ('route_short_name', 'route_long_name', 'route_type')):
      return False
    return all(same_text(r, s, c) or not r.get(c) or not s.get(c)
               for c in ('route_url', 'route_color', 'route_text_color'))

  def names(self, f, letter):
    maps = {}
    for kind in REFS:
      maps[kind] = dict((v, (u'm|' if v in self.unified[kind] else letter + u'|') + v)
                        for v in ids(f, kind))
    for r in f.table('fare_rules'):
      for c in ('origin_id', 'destination_id', 'contains_id'):
        if r.get(c):
          maps['zone'].setdefault(r[c], letter + u'|' + r[c])
    return maps

  def tags(self):
    """tag of the merged feed -> (kind, name)."""
    out = {}
    for f, maps, letter in ((self.a, self.maps_a, u'a'), (self.b, self.maps_b, u'b')):
      for kind, (t, c) in TAGGED.items():
        for r in f.table(t):
          v = r.get(c, u'')
          if letter == u'a' and v in self.unified[kind]:
            continue
          out[r['vtag']] = (kind, maps[kind][v])
    return out

  def expected(self):
    a, b = rename(self.normal(self.a), self.maps_a), rename(self.normal(self.b), self.maps_b)
    e = feedgen.Feed()
    for kind in ('agency', 'stop', 'route', 'fare'):
      t, c = TABLES[kind], REFS[kind][0][1]
      merged = set(self.maps_a[kind][v] for v in self.unified[kind])
      e.rows[t] = [r for r in a.table(t) if r[c] not in merged] + b.table(t)
      if kind == 'route':
        for r in e.rows[t]:
          if r[c] in merged:
            other = a.find(t, c, r[c])
            for x in ('route_url', 'route_color', 'route_text_color'):
              r[x] = r.get(x) or other.get(x, u'')
    merged = set(self.maps_a['shape'][v] for v in self.unified['shape'])
    e.rows['shapes'] = [r for r in a.table('shapes') if r['shape_id'] not in merged] + b.table('shapes')
    for t in ('trips', 'stop_times', 'calendar', 'calendar_dates', 'frequencies'):
      e.rows[t] = a.table(t) + b.table(t)
    for r in e.rows['trips']:
      v = r['trip_id'][2:]
      if v in self.conflicts['trip']:
        r['original_trip_id'] = v
    rules = set()
    for f in (a, b):
      for r in f.table('fare_rules'):
        rules.add(tuple(r.get(c) or u'' for c in feedgen.COLUMNS['fare_rules']))
    e.rows['fare_rules'] = [dict(zip(feedgen.COLUMNS['fare_rules'], x)) for x in sorted(rules)]
    pairs = {}
    for f in (a, b):
      for r in f.table('transfers'):
        pairs[r['from_stop_id'], r['to_stop_id']] = r
    e.rows['transfers'] = [pairs[k] for k in sorted(pairs)]
    return e

  def normal(self, f):
    g = f.copy()
    for r in g.table('routes'):
      r['agency_id'] = self.default_agency(f, r.get('agency_id', u''))
    return g


def ranked(c):
  """Canonical contents with stop sequence numbers replaced by the order."""
  c['stop_times'] = dict((k, [(n,) + x[1:] for n, x in enumerate(v)])
                         for k, v in c['stop_times'].items())
  c.pop('feed_info', None)
  return c


class Observed(object):
  """The merged feed, with every entity given the name of the one it stands for."""

  def __init__(self, ctx, model, merged, what):
    self.ok = True
    self.m = merged
    self.maps = dict((k, {}) for k in REFS)
    tags = model.tags()
    seen = set()

    def bad(message, *args):
      self.ok = False
      ctx.fail(u'%s: ' % what + message % tuple(u(x) for x in args))

    def put(kind, actual, name):
      old = self.maps[kind].get(actual)
      if old is not None and old != name:
        bad(u'%s %s stands for both %s and %s', kind, actual, old, name)
      if old is None and name in self.maps[kind].values():
        bad(u'%s %s is there as %s and under another identifier', kind, name, actual)
      self.maps[kind][actual] = name

    e = model.expected()
    for kind, (t, c) in TAGGED.items():
      for r in merged.table(t):
        g = r.get('vtag', u'')
        if g not in tags or tags[g][0] != kind:
          bad(u'%s %s stands for no entity that should be there (%s)', kind, r.get(c), g)
        elif g in seen:
          bad(u'%s is there twice', g)
        else:
          seen.add(g)
          put(kind, r.get(c, u''), tags[g][1])
    for g in sorted(set(tags) - seen):
      bad(u'nothing stands for %s (%s)', g, tags[g][1])
    for r in merged.table('routes'):
      r['agency_id'] = model.default_agency(merged, r.get('agency_id', u''))
    want = dict((service_content(e, s), s) for s in ids(e, 'service'))
    for s in ids(merged, 'service'):
      k = service_content(merged, s)
      if k not in want:
        bad(u'service %s is none of the services of the feeds: %r', s, k)
      else:
        put('service', s, want[k])
    want = dict((fare_content(r), r['fare_id']) for r in e.table('fare_attributes'))
    for r in merged.table('fare_attributes'):
      k = fare_content(r)
      if k not in want:
        bad(u'fare %s is none of the fares of the feeds: %r', r['fare_id'], k)
      else:
        put('fare', r['fare_id'], want[k])
    want = dict((p, s) for s, p in shape_points(e).items())
    for s, p in sorted(shape_points(merged).items()):
      if p not in want:
        bad(u'shape %s is none of the shapes of the feeds', s)
      else:
        put('shape', s, want[p])
    stops = dict((r['vtag'], r) for r in merged.table('stops') if r.get('vtag'))
    for r in e.table('stops'):
      z = stops.get(r['vtag'], {}).get('zone_id', u'')
      if r.get('zone_id') and z:
        put('zone', z, r['zone_id'])
    trips = dict((r['vtag'], r) for r in merged.table('trips') if r.get('vtag'))
    for r in e.table('trips'):
      v = trips.get(r['vtag'], {}).get('block_id', u'')
      if r.get('block_id') and v:
        put('block', v, r['block_id'])
    if self.ok:
      got = ranked(canon.of_feed(rename(merged, self.maps)))
      for x in canon.diff(got, ranked(canon.of_feed(e))):
        bad(u'%s', x)


# --- running merge.py -----------------------------------------------------------------

def load(feed, path, rng):
  style = render.random_style(rng)
  render.write_zip(render.files(feed, style), path)
  schedule, rec = recorder.load(path)
  return schedule, [e for e in rec.entries if e.type == recorder.ERROR]


class Quiet(object):
  def __enter__(self):
    self.out = sys.stdout
    sys.stdout = open(os.devnull, 'w')

  def __exit__(self, *args):
    sys.stdout.close()
    sys.stdout = self.out


class Run(object):
  """One run of the feed merger."""

  def __init__(self, a, b, limits, disjoint, cutoff=None):
    import merge
    self.rec = recorder.Recorder()
    self.merged_rec, reporter = recorder.new()
    self.merged = transitfeed.Schedule(problem_reporter=reporter)
    self.merger = merge.FeedMerger(a, b, self.merged, merge.MergeProblemReporter(self.rec))
    self.merger.AddDefaultMergers()
    if not any(isinstance(x, merge.TransferMerger) for x in self.merger.GetMergerList()):
      self.no_transfers = True
    else:
      self.no_transfers = False
    self.merger.GetMerger(merge.StopMerger).SetLargestStopDistance(limits[0])
    self.merger.GetMerger(merge.ShapeMerger).SetLargestShapeDistance(limits[1])
    self.periods = self.merger.GetMerger(merge.ServicePeriodMerger)
    self.periods.require_disjoint_calendars = disjoint
    if cutoff:
      self.periods.DisjoinCalendars(cutoff)
    with Quiet():
      self.result = self.merger.MergeSchedules()


def written(path):
  """The model of a feed file, read with an own parser."""
  f = feedgen.Feed()
  for t, (cols, rows) in render.read_feed(render.read_zip(path)).items():
    f.cols[t] = cols
    f.rows[t] = rows
  return f
