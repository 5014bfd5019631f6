# -*- coding: utf-8 -*-
"""C34: the googletransit extension adds its rules and changes nothing else."""
import os
import shutil

import extensions.googletransit as googletransit
import transitfeed

from harness import feedgen, geo, merges, mutate, recorder, render
from harness.core import u

CASES = {'quick': 420, 'thorough': 24000}
RULE = ('a case is one feed with the columns of the extension, loaded as it is and then with single defects, '
        'or one hostile feed without them loaded with and without the extension, or trips near the speed limit '
        'of a vehicle type; distinct by feed and defects')
MINIMUM = {'clean feeds': 94, 'defect: child with vehicle type': 22,
           'defect: emission no number': 31, 'defect: entrance with time zone': 21,
           'defect: entrance with vehicle type': 21, 'defect: entrance without station': 17,
           'defect: fare of no agency': 1, 'defect: fare of unknown agency': 29,
           'defect: location type no number': 35, 'defect: location type no number, nameless': 30,
           'defect: location type unknown': 34, 'defect: location type unknown, nameless': 29,
           'defect: nameless entrance': 20, 'defect: nameless entrance without station': 20,
           'defect: nameless stop': 37, 'defect: other tag': 25,
           'defect: route type no number': 39, 'defect: route type unknown': 35,
           'defect: tag not valid': 23, 'defect: tag not well-formed': 21,
           'defect: vehicle type no number': 33, 'defect: vehicle type unknown': 31,
           'feeds compared: clean': 18, 'feeds compared: problems': 31, 'feeds not compared': 1,
           'speed limits tried': 450, 'values compared': 920}
ASSUMPTIONS = ['location types above 2, which the extension remarks and the library does not, are not judged',
               'the registry of language tags is judged by C25']

ERROR, WARNING = recorder.ERROR, recorder.WARNING
SPEEDS = dict(feedgen.MAXSPEED)
SPEEDS.update({
    8: 50, 9: 120, 10: 150, 11: 100, 12: 150, 100: 300, 101: 300, 102: 300, 103: 300, 105: 300, 106: 300, 107: 300,
    108: 300, 109: 300, 200: 120, 201: 120, 202: 120, 204: 120, 208: 120, 400: 150, 401: 150, 402: 150, 403: 150,
    405: 150, 700: 100, 701: 120, 702: 120, 704: 100, 715: 120, 717: 120, 800: 100, 900: 100, 1000: 80, 1100: 1000,
    1300: 50, 1400: 50, 1500: 100, 1501: 100, 1700: 100, 1701: 50, 1702: 50})
EXTENDED = sorted(set(SPEEDS) - set(feedgen.MAXSPEED))
TAGS = [u'en', u'de', u'de-CH', u'zh-Hant-TW', u'sr-Latn', u'de-1996', u'en-x-private', u'es-419', u'EN-us',
        u'sl-rozaj', u'i-klingon', u'x-whatever']
NOT_WELL_FORMED = [u'lang123456789', u'e', u'en--US', u'en_US', u'-en', u'en-', u'de-x', u'1a', u'en us']
NOT_VALID = [u'xq', u'en-Qmxy', u'de-Zzzx', u'en-ZW-abcde', u'qq']
# columns whose values the extension judges otherwise
OWN = ('route_type', 'location_type', 'agency_lang', 'feed_lang', 'vehicle_type', 'platform_code', 'co2_per_km')


def load(d, feed, factory, rng=None, style=None):
  p = os.path.join(d, 'f.zip')
  render.write_zip(render.files(feed, style), p)
  kw = {}
  if factory is not None:
    kw['gtfs_factory'] = factory
  return recorder.load(p, **kw)


def bad(rec):
  return [e for e in rec.entries if e.type in (ERROR, WARNING)]


def decorate(rng, f):
  """Give a valid feed valid extension values."""
  f.rows.pop('feed_info', None)
  for s in f.table('stops'):
    if s.get('location_type', u'') not in (u'', u'0', u'1', u'2'):
      s['location_type'] = u'2'
  for a in f.table('agency'):
    a['agency_lang'] = u''
  if rng.chance(0.6):
    lang = rng.pick(TAGS)
    for a in f.table('agency'):
      a['agency_lang'] = lang
  types = [int(r['route_type']) for r in f.table('routes')]
  need = max(SPEEDS[t] for t in types)
  if rng.chance(0.6):
    new = rng.pick([t for t in EXTENDED if SPEEDS[t] >= need])
    for r in f.table('routes'):
      r['route_type'] = u'%d' % new
  for r in f.table('routes'):
    r['co2_per_km'] = rng.pick([u'', u'', u'0', u'15.5', u'120', u'0.001', u'3.0'])
  stations = [s for s in f.table('stops') if s.get('location_type') == u'1']
  for s in f.table('stops'):
    if rng.chance(0.4):
      s['platform_code'] = rng.pick([u'1', u'2a', u'Gleis 3', u'\xe9', u'0'])
    if not s.get('parent_station') and rng.chance(0.4):
      s['vehicle_type'] = u'%d' % rng.pick(sorted(SPEEDS))
  for k in range(rng.randint(0, 3) if stations else 0):
    st = rng.pick(stations)
    la, lo = geo.offset(float(st['stop_lat']), float(st['stop_lon']), 10 + 10 * k, -60 + 15 * k)
    f.add('stops', stop_id=u'entrance-%d-of-it' % k, stop_name=rng.pick([u'', u'Door %d' % k]),
          stop_lat=feedgen.num(la, 6), stop_lon=feedgen.num(lo, 6), location_type=u'2',
          parent_station=st['stop_id'])
  ids = [a.get('agency_id', u'') for a in f.table('agency')]
  for r in f.table('fare_attributes'):
    if all(ids):
      r['agency_id'] = rng.pick(ids + ([u''] if len(ids) == 1 else []))
    elif rng.chance(0.5):
      r['agency_id'] = u''
  # the rows must not be empty in all but one column
  feedgen.Feed.finish_columns(f, rng)
  return f


class Defect(object):
  def __init__(self, name, table, index, changes, expect):
    self.name, self.table, self.index, self.changes, self.expect = name, table, index, changes, expect


def defects(rng, f):
  """Single defects of a feed: what to change, and the reports expected as (class, type, column, value)."""
  out = []
  for i, s in enumerate(f.table('stops')):
    kind, parent = s.get('location_type', u''), s.get('parent_station', u'')

    def d(name, expect, **changes):
      out.append(Defect(name, 'stops', i, changes, expect))

    v = rng.pick([u'abc', u'1.5', u'-', u'bus', u'3x'])
    d('vehicle type no number', [('InvalidValue', ERROR, 'vehicle_type', v)], vehicle_type=v)
    v = rng.pick([u'2557', u'99', u'13', u'110', u'-1', u'1703', u'104', u'300'])
    if kind != u'2' and not parent:
      d('vehicle type unknown', [('InvalidValue', WARNING, 'vehicle_type', v)], vehicle_type=v)
    v = u'%d' % rng.pick(sorted(SPEEDS))
    if rng.chance(0.3):
      v = u'0'
    if kind == u'2':
      d('entrance with vehicle type', [('InvalidValue', ERROR, 'vehicle_type', v)], vehicle_type=v)
      d('entrance without station', [('InvalidValue', ERROR, 'location_type', u'2')], parent_station=u'')
      d('nameless entrance', [], stop_name=u'')
      d('nameless entrance without station', [('InvalidValue', ERROR, 'location_type', u'2')], parent_station=u'',
        stop_name=u'')
      d('entrance with time zone', [('InvalidValue', WARNING, 'stop_timezone', u'UTC')], stop_timezone=u'UTC')
    elif parent:
      d('child with vehicle type', [('InvalidValue', WARNING, 'vehicle_type', v)], vehicle_type=v)
    if kind in (u'', u'0') and f.find('stop_times', 'stop_id', s['stop_id']):
      d('nameless stop', [('MissingValue', ERROR, 'stop_name', None)], stop_name=u'')
      x = rng.pick([u'x', u'1.0', u'none'])
      d('location type no number', [('InvalidValue', ERROR, 'location_type', x)], location_type=x)
      d('location type no number, nameless', [('InvalidValue', ERROR, 'location_type', x),
                                              ('MissingValue', ERROR, 'stop_name', None)],
        location_type=x, stop_name=u'')
      if not parent:
        x = rng.pick([u'5', u'-1', u'12'])
        d('location type unknown', [('InvalidValue', WARNING, 'location_type', x)], location_type=x)
        d('location type unknown, nameless', [('InvalidValue', WARNING, 'location_type', x),
                                              ('MissingValue', ERROR, 'stop_name', None)],
          location_type=x, stop_name=u'')
  for i, r in enumerate(f.table('routes')):
    v = rng.pick([u'15.5mg', u'-', u'many', u'1,5', u'nan', u'inf', u'-inf', u'1.2.3'])
    out.append(Defect('emission no number', 'routes', i, {'co2_per_km': v},
                      [('InvalidValue', ERROR, 'co2_per_km', v)]))
    v = rng.pick([u'2557', u'99', u'13', u'110', u'-1', u'1703', u'104', u'300'])
    out.append(Defect('route type unknown', 'routes', i, {'route_type': v},
                      [('InvalidValue', ERROR if v == u'-1' else WARNING, 'route_type', v)]))
    v = rng.pick([u'abc', u'RegionalBus', u'1.5'])
    out.append(Defect('route type no number', 'routes', i, {'route_type': v},
                      [('InvalidValue', ERROR, 'route_type', v)]))
  for i, r in enumerate(f.table('fare_attributes')):
    ids = [a.get('agency_id', u'') for a in f.table('agency')]
    v = rng.pick([u'nobody', u'0', (ids[0] or u'a') + u'x', u' \xe9 z'.strip()])
    if v not in ids:
      out.append(Defect('fare of unknown agency', 'fare_attributes', i, {'agency_id': v},
                        [('InvalidAgencyID', ERROR, 'agency_id', v)]))
    if len(ids) > 1:
      out.append(Defect('fare of no agency', 'fare_attributes', i, {'agency_id': u''},
                        [('InvalidAgencyID', ERROR, 'agency_id', u'')]))
  if len(f.table('agency')) == 1:
    v = rng.pick(NOT_WELL_FORMED)
    out.append(Defect('tag not well-formed', 'agency', 0, {'agency_lang': v},
                      [('InvalidValue', ERROR, 'agency_lang', v)]))
    v = rng.pick(NOT_VALID)
    out.append(Defect('tag not valid', 'agency', 0, {'agency_lang': v},
                      [('InvalidValue', WARNING, 'agency_lang', v)]))
    out.append(Defect('other tag', 'agency', 0, {'agency_lang': rng.pick(TAGS)}, []))
  return out


def value_of(e):
  v = e.value
  return None if v is None or e.cls == 'MissingValue' else u(v) if isinstance(v, basestring) else u(str(v))


# Remarks a defect may cause besides, about the feed as a whole
ALSO = ('UnusedStop', 'UsedStation', 'TooFastTravel', 'StopWithMultipleRouteTypes', 'StopsTooClose',
        'StationsTooClose', 'DifferentStationTooClose', 'DuplicateTrip')


def own_rules(ctx, rng, i):
  d = ctx.tmpdir()
  try:
    factory = googletransit.GetGtfsFactory()
    f = decorate(rng, feedgen.generate(rng, stations=0.8, fares=0.8, freqs=0.2, agencies=rng.pick([(1, 1), (1, 3)])))
    style = None
    s, rec = load(d, f, factory)
    what = u'case %d' % i
    got = bad(rec)
    ctx.check(not got, u'%s: a valid feed has problems: %r', what, got[:4])
    if got:
      return
    ctx.count('clean feeds')
    # The values, in memory and written.
    for r in f.table('routes'):
      o = s.GetRoute(r['route_id'])
      ctx.check(isinstance(o, factory.Route), u'%s: route %s is a %r', what, r['route_id'], type(o))
      ctx.equal(o.route_type, int(r['route_type']), u'%s: type of route %s' % (what, r['route_id']))
      v = r.get('co2_per_km', u'')
      ctx.equal(o.co2_per_km, float(v) if v else o.co2_per_km and 'something' or o.co2_per_km,
                u'%s: emission of route %s' % (what, r['route_id']))
      ctx.count('values compared')
    for r in f.table('stops'):
      o = s.GetStop(r['stop_id'])
      v = r.get('vehicle_type', u'')
      ctx.equal(o.vehicle_type, int(v) if v else None, u'%s: vehicle type of stop %s' % (what, r['stop_id']))
      ctx.equal(o.platform_code or u'', r.get('platform_code', u''), u'%s: platform of stop %s' % (what, r['stop_id']))
      ctx.equal(int(o.location_type), int(r.get('location_type') or 0),
                u'%s: location type of stop %s' % (what, r['stop_id']))
      ctx.count('values compared')
    for r in f.table('fare_attributes'):
      o = s.GetFareAttribute(r['fare_id'])
      ctx.equal(o.agency_id or u'', r.get('agency_id', u''), u'%s: agency of fare %s' % (what, r['fare_id']))
    out = os.path.join(d, 'out.zip')
    s.WriteGoogleTransitFeed(out)
    w = merges.written(out)
    for table, key, cols in (('routes', 'route_id', ['co2_per_km', 'route_type']),
                             ('stops', 'stop_id', ['vehicle_type', 'platform_code', 'location_type', 'parent_station']),
                             ('fare_attributes', 'fare_id', ['agency_id']), ('agency', 'agency_name', ['agency_lang'])):
      for r in f.table(table):
        x = w.find(table, key, r[key])
        if not ctx.check(x is not None, u'%s: %s %s is not written', what, table, r[key]):
          continue
        for c in cols:
          p, q = x.get(c, u''), r.get(c, u'')
          if c in ('co2_per_km', 'location_type'):
            p, q = float(p or 0), float(q or 0)
          ctx.equal(p, q, u'%s: written %s of %s' % (what, c, r[key]))
    ctx.seen((sorted(f.rows), [sorted(r.items()) for r in f.table('stops')]))
    # One defect at a time.
    todo = {}
    for x in defects(rng, f):
      todo.setdefault(x.name, []).append(x)
    for name in rng.shuffled(sorted(todo))[:8 if ctx.thorough else 6]:
      x = rng.pick(todo[name])
      g = f.copy()
      row = g.rows[x.table][x.index]
      row.update(x.changes)
      for c in x.changes:
        if c not in g.cols[x.table]:
          g.cols[x.table].append(c)
      s, rec = load(d, g, factory)
      left = list(x.expect)
      wrong = []
      for e in bad(rec):
        k = (e.cls, e.type, e.column_name, value_of(e))
        if e.file_name is None and e.cls in ALSO and ('location_type' in x.changes or 'route_type' in x.changes
                                                      or 'vehicle_type' in x.changes):
          continue
        if e.row_num not in (None, x.index + 2):
          wrong.append(e)
        elif k in left:
          left.remove(k)
        else:
          wrong.append(e)
      w2 = u'%s: %s (row %d of %s: %r)' % (what, name, x.index + 2, x.table, x.changes)
      ctx.check(not left, u'%s: not reported: %r; reports: %r', w2, left, bad(rec)[:4])
      ctx.check(not wrong, u'%s: wrongly reported: %r', w2, wrong[:4])
      ctx.count('defect: ' + name)
  finally:
    shutil.rmtree(d)


def same_rules(ctx, rng, i):
  """Without its columns the extension reports what the library reports."""
  d = ctx.tmpdir()
  try:
    f = feedgen.generate(rng, stations=0.5, fares=0.6)
    for _ in range(rng.pick([0, 1, 1, 2, 4])):
      mutate.cell_edit(rng, f)
    for c in OWN:
      for t in f.cols:
        if c in ('route_type', 'location_type', 'agency_lang', 'feed_lang'):
          continue
        if c in f.cols[t]:
          ctx.count('feeds not compared')
          return
    if 'agency_id' in f.cols.get('fare_attributes', []):
      return
    got = []
    for factory in (None, googletransit.GetGtfsFactory()):
      s, rec = load(d, f, factory)
      got.append(rec.entries)
    if any(e.column_name in OWN for x in got for e in x):
      ctx.count('feeds not compared')
      return
    # Agencies of an unreadable table, and columns the extension knows
    keys = [sorted(repr(e.key()) + repr(e.text()) for e in x 
                   if e.cls not in ('UnrecognizedColumn', 'UnknownFile') and
                   (e.cls, e.column_name) != ('InvalidAgencyID', 'agency_id')) for x in got]
    types = [s for s in f.table('stops') if s.get('location_type', u'').strip() not in (u'', u'0', u'1', u'2')]
    if types:
      return
    if not ctx.equal(keys[1], keys[0], u'case %d: reports with the extension' % i):
      return
    ctx.count('feeds compared: ' + ('problems' if keys[0] else 'clean'))
    ctx.seen(('same', keys[0], sorted(f.rows), len(f.table('trips'))))
  finally:
    shutil.rmtree(d)


def speeds(ctx, rng, i):
  """Trips just below and above the speed limit of each type."""
  factory = googletransit.GetGtfsFactory()
  d = ctx.tmpdir()
  try:
    for t in rng.sub(sorted(SPEEDS), 0.3):
      f = feedgen.Feed()
      f.add('agency', agency_id=u'a', agency_name=u'A', agency_url=u'http://a.b/', agency_timezone=u'UTC')
      lat = rng.uniform(-50, 50)
      lat += 3 if lat > 0 else -3
      far = geo.offset(lat, 20.0, 0, 60000.0)
      f.add('stops', stop_id=u's1', stop_name=u'one', stop_lat=feedgen.num(lat, 6), stop_lon=u'20.0')
      f.add('stops', stop_id=u's2', stop_name=u'two', stop_lat=feedgen.num(far[0], 6), stop_lon=feedgen.num(far[1], 6))
      f.add('routes', route_id=u'r', route_short_name=u'1', route_long_name=u'Long', route_type=u'%d' % t, agency_id=u'a')
      f.add('calendar', service_id=u'w', start_date=feedgen.ymd(feedgen.today()), end_date=u'20991231',
            **dict((day, u'1') for day in feedgen.DAYS))
      dist = geo.dist(float(f.rows['stops'][0]['stop_lat']), 20.0, float(f.rows['stops'][1]['stop_lat']),
                      float(f.rows['stops'][1]['stop_lon']))
      want = []
      for k in range(4):
        fast = k % 2 == 1
        factor = rng.uniform(1.04, 1.4) if fast else rng.uniform(0.5, 0.96)
        secs = int(round(dist / (SPEEDS[t] * factor / 3.6)))
        f.add('trips', trip_id=u't%d' % k, route_id=u'r', service_id=u'w')
        start = 3600 * (6 + k)
        f.add('stop_times', trip_id=u't%d' % k, stop_id=u's1', stop_sequence=u'1', arrival_time=feedgen.hms(start),
              departure_time=feedgen.hms(start))
        f.add('stop_times', trip_id=u't%d' % k, stop_id=u's2', stop_sequence=u'2',
              arrival_time=feedgen.hms(start + secs), departure_time=feedgen.hms(start + secs))
        if fast:
          want.append(u't%d' % k)
      f.finish_columns()
      s, rec = load(d, f, factory)
      got = sorted(u(e.get('trip_id')) for e in rec.of('TooFastTravel'))
      ctx.equal(got, want, u'case %d: trips too fast for vehicle type %d' % (i, t))
      # The same trips, built and not loaded.
      rec = recorder.Recorder()
      s = transitfeed.Schedule(problem_reporter=rec.reporter(), gtfs_factory=factory)
      a, b = [s.AddStop(float(r['stop_lat']), float(r['stop_lon']), r['stop_name'], r['stop_id'])
              for r in f.rows['stops']]
      if rng.chance(0.3):
        a.vehicle_type = b.vehicle_type = t
      route = s.AddRoute('1', 'Long', 'Bus', 'r')
      route.route_type = t
      period = s.GetDefaultServicePeriod()
      for trip in f.rows['trips']:
        times = [r for r in f.rows['stop_times'] if r['trip_id'] == trip['trip_id']]
        new = route.AddTrip(s, trip_id=trip['trip_id'], service_period=period)
        new.AddStopTime(a, stop_time=times[0]['arrival_time'])
        new.AddStopTime(b, stop_time=times[1]['arrival_time'])
      s.Validate()
      got = sorted(u(e.get('trip_id')) for e in rec.of('TooFastTravel'))
      ctx.equal(got, want, u'case %d: trips too fast for vehicle type %d, built' % (i, t))
      types = [e for e in rec.entries if e.column_name in ('vehicle_type', 'route_type')]
      ctx.check(not types, u'case %d: built with type %d: %s' % (i, t, u(repr(types[:2]))))
      ctx.count('speed limits tried')
      ctx.seen(('speed', t, lat))
  finally:
    shutil.rmtree(d)


def run_case(ctx, rng, i):
  if i % 6 == 5:
    speeds(ctx, rng, i)
  elif i % 3 == 1:
    same_rules(ctx, rng, i)
  else:
    own_rules(ctx, rng, i)
