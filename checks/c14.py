# -*- coding: utf-8 -*-
"""C14: stop location problems are found exactly, wherever on earth."""
import math
import os

import transitfeed

from harness import feedgen, geo, recorder, render
from harness.core import u

CASES = {'quick': 900, 'thorough': 40000}
RULE = ('a case is a schedule of 2-25 stops, stations, entrances and unlocated stops clustered '
        'around places all over the earth (equator, zero meridian, date line, poles), validated after '
        'being built or loaded and queried by box and by nearness; all pairs are judged by an '
        'independent distance formula; distinct by the stops')
MINIMUM = {'pairs judged': 23000, 'UnusedStop': 1100, 'UsedStation': 140,
           'box queries cut by the limit': 390, 'close pairs at any': 220,
           'close pairs at dateline': 160, 'close pairs at equator': 190,
           'close pairs at far north': 350, 'close pairs at meridian': 170,
           'close pairs at north': 290, 'close pairs at origin': 180, 'close pairs at south': 250,
           'close pairs of other kinds': 990, 'close: DifferentStationTooClose': 760,
           'close: StationsTooClose': 250, 'close: StopsTooClose': 820, 'feeds loaded': 45,
           'nearest stops compared': 6700, 'pairs just far enough': 630,
           'pairs too close to call': 18, 'parent far: error': 610, 'parent far: no': 390,
           'parent far: warning': 180, 'parents judged without location': 110,
           'parents that are no station': 200, 'parents too close to call': 1,
           'parents unknown': 100, 'stations with a parent': 440,
           'stop close to its own station': 130, 'stops found in boxes': 2700}

CLOSE = {(0, 0): 'StopsTooClose', (1, 1): 'StationsTooClose', (0, 1): 'DifferentStationTooClose'}
PLACES = ['any', 'equator', 'meridian', 'dateline', 'north', 'south', 'far north', 'origin']


def place(rng):
  k = rng.pick(PLACES)
  lat, lon = rng.uniform(-85, 85), rng.uniform(-180, 180)
  if k == 'equator':
    lat = 0.0
  elif k == 'meridian':
    lon = 0.0
  elif k == 'dateline':
    lon = rng.pick([180.0, -180.0, 179.9999999])
  elif k == 'north':
    lat = rng.pick([90.0, 89.99999, 89.99])
  elif k == 'south':
    lat = rng.pick([-90.0, -89.99999])
  elif k == 'far north':
    lat = rng.uniform(60, 80)
  elif k == 'origin':
    lat, lon = rng.pick([(0.0, 0.0), (0.0, 5.0), (5.0, 0.0)])
  return k, lat, lon


def wrap(lat, lon):
  if lat > 90:
    lat, lon = 180 - lat, lon + 180
  if lat < -90:
    lat, lon = -180 - lat, lon + 180
  while lon > 180:
    lon -= 360
  while lon < -180:
    lon += 360
  return lat, lon


class Stop(object):
  pass


def near(rng, lat, lon, metres):
  """A point about `metres` away in a random direction."""
  b = rng.uniform(0, 2 * math.pi)
  if rng.chance(0.3):
    b = rng.pick([0, 1, 2, 3]) * math.pi / 2
  d = metres / geo.R
  a = math.radians(lat)
  s = math.sin(a) * math.cos(d) + math.cos(a) * math.sin(d) * math.cos(b)
  lat2 = math.asin(max(-1.0, min(1.0, s)))
  lon2 = math.radians(lon) + math.atan2(math.sin(b) * math.sin(d) * math.cos(a),
                                        math.cos(d) - math.sin(a) * math.sin(lat2))
  return wrap(math.degrees(lat2), math.degrees(lon2))


def dist(a, b):
  return geo.dist(a.lat, a.lon, b.lat, b.lon)


def sure(d, limit):
  """True/False when clearly above/below the limit, None when too close to call."""
  if d > limit * 1.003 + 0.003:
    return True
  if d < limit * 0.997 - 0.003:
    return False
  return None


def run_case(ctx, rng, i):
  rec, rep = recorder.new()
  s = transitfeed.Schedule(rep)
  s.AddAgency(u'Agency', u'http://example.com', u'America/Los_Angeles')
  s.GetDefaultServicePeriod().SetServiceId(u'WK')
  s.GetDefaultServicePeriod().SetStartDate(u'20260101')
  s.GetDefaultServicePeriod().SetEndDate(u'20271231')
  s.GetDefaultServicePeriod().SetWeekdayService(True)
  ids = feedgen.Ids(rng, u'S')
  centres = [place(rng) for _ in range(rng.randint(1, 4))]
  stops = []
  n = rng.randint(2, rng.pick([5, 12, 25]))
  for k in range(n):
    x = Stop()
    x.id = ids.new()
    x.name = u'%s %d' % (feedgen.words(rng, 1, 2), k)
    x.type = rng.pick([0, 0, 0, 0, 1, 1, 2, 3])
    x.parent = None
    kind, x.lat, x.lon = rng.pick(centres)
    x.kind = kind
    if rng.chance(0.8):
      if stops and rng.chance(0.7):
        o = rng.pick(stops)
        if o.lat is not None:
          x.lat, x.lon, x.kind = o.lat, o.lon, o.kind
      x.lat, x.lon = near(rng, x.lat, x.lon, rng.pick([0, 0.5, 1.5, 1.9, 1.98, 2.02, 2.1, 5, 50, 98, 102,
                                                       500, 990, 1010, 5000, rng.uniform(0, 3)]))
    if x.type == 3 and rng.chance(0.6):
      x.lat = x.lon = None
    stops.append(x)
    if rng.chance(0.1):
      # exactly the same place, maybe written with another longitude
      y = Stop()
      y.id, y.name, y.type, y.parent, y.kind = ids.new(), u'Twin %d' % k, rng.pick([0, 1]), None, x.kind
      y.lat, y.lon = x.lat, x.lon
      if y.lat is not None and abs(y.lon) == 180.0:
        y.lon = -y.lon
      if y.lat is not None and abs(y.lat) == 90.0:
        y.lon = rng.uniform(-180, 180)
      if y.lat is not None:
        stops.append(y)
  stations = [x for x in stops if x.type == 1]
  for x in stops:
    r = rng.random()
    if x.type != 1 and stations and r < 0.5:
      x.parent = rng.pick(stations).id
    elif r < 0.56:
      x.parent = rng.pick(stops).id       # often not a station
    elif r < 0.60:
      x.parent = u'nosuchstop'
    if x.parent == x.id and x.type != 1:
      x.parent = None
  objs = {}
  for x in rng.shuffled(stops):
    d = {'stop_id': x.id, 'stop_name': x.name}
    if x.lat is not None:
      d['stop_lat'], d['stop_lon'] = x.lat, x.lon
    if x.type or rng.chance(0.5):
      d['location_type'] = x.type
    if x.parent is not None:
      d['parent_station'] = x.parent
    objs[x.id] = transitfeed.Stop(field_dict=d)
    s.AddStopObject(objs[x.id])
  used = set()
  route = s.AddRoute(short_name=u'1', long_name=u'Eins', route_type=3)
  route.agency_id = s.GetDefaultAgency().agency_id
  located = [x for x in stops if x.lat is not None]
  for k in range(rng.randint(0, 2)):
    t = route.AddTrip(s, headsign=u'T%d' % k)
    seq = [x for x in located if x.type == 0 or rng.chance(0.3)]
    seq = rng.shuffled(seq)[:rng.randint(0, 8)]
    for j, x in enumerate(seq):
      t.AddStopTime(objs[x.id], arrival_secs=30000 + 3600 * j, departure_secs=30000 + 3600 * j)
      used.add(x.id)
  children = True
  if i % 5 == 0 and all(x.lat is not None for x in stops):
    path = os.path.join(os.getcwd(), 'y%d.zip' % i)
    s.WriteGoogleTransitFeed(path)
    s, out = recorder.load(path)
    os.remove(path)
    ctx.count('feeds loaded')
    if set(s.stops) != set(x.id for x in stops):
      ctx.fail(u'stops after loading: %r' % sorted(s.stops))
      return
    for x in stops:
      # the coordinates as they were written
      x.lat, x.lon = s.stops[x.id].stop_lat, s.stops[x.id].stop_lon
    dup = True
  else:
    children = rng.chance(0.7)
    out, out_rep = recorder.new()
    s.Validate(out_rep, validate_children=children)
    dup = False
  by_id = dict((x.id, x) for x in stops)
  # pairs too close
  got = {}
  for e in out.of(*CLOSE.values()):
    if e.cls == 'DifferentStationTooClose':
      pair = (u(e.get('stop_id')), u(e.get('station_stop_id')))
      names = (u(e.get('stop_name')), u(e.get('station_stop_name')))
    else:
      pair = (u(e.get('stop_id_a')), u(e.get('stop_id_b')))
      names = (u(e.get('stop_name_a')), u(e.get('stop_name_b')))
    ctx.equal(names, tuple(by_id[p].name if p in by_id else None for p in pair), u'names in %s' % e)
    ctx.check(e.type == recorder.WARNING and e.text(), u'%s is not a readable warning', e)
    got.setdefault((e.cls, frozenset(pair)), []).append((pair, e.get('distance')))
  for a in range(len(located)):
    for b in range(a + 1, len(located)):
      x, y = located[a], located[b]
      d = dist(x, y)
      far = sure(d, 2)
      ctx.count('pairs judged')
      key = None
      if x.type in (0, 1) and y.type in (0, 1):
        cls = CLOSE[tuple(sorted((x.type, y.type)))]
        key = (cls, frozenset((x.id, y.id)))
        if cls == 'DifferentStationTooClose':
          stop, station = (x, y) if x.type == 0 else (y, x)
          if stop.parent == station.id:
            ctx.count('stop close to its own station', far is False)
            key = None
      reports = [k for k in got if k[1] == frozenset((x.id, y.id))]
      n = sum(len(got[k]) for k in reports)
      if far is None:
        ctx.count('pairs too close to call')
        for k in reports:
          got.pop(k)
        continue
      want = int(key is not None and far is False)
      if want:
        ctx.count('close: ' + key[0])
        ctx.count('close pairs at ' + x.kind)
      elif far is False:
        ctx.count('close pairs of other kinds')
      elif d < 2.2:
        ctx.count('pairs just far enough')
      if n != want or (want and key not in got):
        ctx.fail(u'%s at %r,%r (type %s) and %s at %r,%r (type %s), %.3f m apart, parents %r %r: '
                 u'reported %r, expected %s' % (
                     x.id, x.lat, x.lon, x.type, y.id, y.lat, y.lon, y.type, d, x.parent, y.parent,
                     [(k[0], got[k]) for k in reports], key[0] if want else None))
      elif want:
        pair, dd = got[key][0]
        if abs(dd - d) > 0.01:
          ctx.fail(u'distance in the report of %r: %r, expected %r' % (pair, dd, d))
        if key[0] == 'DifferentStationTooClose' and by_id[pair[0]].type != 0:
          ctx.fail(u'stop and station exchanged in the report of %r' % (pair,))
      for k in reports:
        got.pop(k)
  ctx.equal(got, {}, u'reports of close stops without location')
  # parents
  far_reports = {}
  for e in out.of('StopTooFarFromParentStation'):
    far_reports.setdefault((e.get('stop_id'), e.get('parent_stop_id')), []).append(e)
    ctx.check(e.text(), u'%s has no text', e)
  bad = {}
  for e in out.of('InvalidValue'):
    if e.column_name == 'parent_station':
      bad[u(e.value)] = bad.get(u(e.value), 0) + 1
      ctx.check(e.type == recorder.ERROR and e.text(), u'%s is not a readable error', e)
  want_bad = {}
  for x in stops:
    p = by_id.get(x.parent)
    if x.parent is None:
      continue
    if x.type == 1:
      if children:
        # once per check of the stop itself
        want_bad[x.parent] = want_bad.get(x.parent, 0) + (2 if dup else 1)
        ctx.count('stations with a parent')
      continue
    if p is None or p.type != 1:
      want_bad[x.parent] = want_bad.get(x.parent, 0) + 1
      ctx.count('parents unknown' if p is None else 'parents that are no station')
      continue
    if x.lat is None or p.lat is None:
      ctx.count('parents judged without location')
      ctx.equal(far_reports.pop((x.id, p.id), []), [], u'distance reports of an unlocated stop')
      continue
    d = dist(x, p)
    e = far_reports.pop((x.id, p.id), [])
    if sure(d, 100) is None or sure(d, 1000) is None:
      ctx.count('parents too close to call')
      continue
    want = [recorder.ERROR] if d > 1000 else [recorder.WARNING] if d > 100 else []
    ctx.count('parent far: %s' % {0: 'error', 1: 'warning', None: 'no'}[want[0] if want else None])
    if [y.type for y in e] != want:
      ctx.fail(u'stop %s %.2f m from its parent %s: reported %r, expected types %r' % (
          x.id, d, p.id, e, want))
    elif e and (abs(e[0].get('distance') - d) > 0.01 * d or
                u(e[0].get('stop_name')) != x.name or u(e[0].get('parent_stop_name')) != p.name):
      ctx.fail(u'wrong details in %s, distance %.2f' % (e[0], d))
  ctx.equal(sorted(far_reports), [], u'other reports of far parents')
  if dup:
    # the row check may repeat what the feed check says about stations with a parent
    ctx.equal(sorted(bad), sorted(want_bad), u'values of bad parent_station reported')
  else:
    ctx.equal(bad, want_bad, u'bad parent_station values reported')
  # usage
  for cls, t, inuse, kind in (('UnusedStop', 0, False, recorder.WARNING),
                              ('UsedStation', 1, True, recorder.ERROR)):
    es = out.of(cls)
    want = sorted(x.id for x in stops if x.type == t and (x.id in used) == inuse)
    ctx.equal(sorted(e.get('stop_id') for e in es), want, u'stops reported as %s' % cls)
    ctx.count(cls, len(want))
    for e in es:
      ctx.check(e.type == kind and e.text(), u'%s has the wrong severity or no text', e)
      x = by_id.get(e.get('stop_id'))
      ctx.check(x is not None and u(e.get('stop_name')) == x.name, u'wrong name in %s', e)
  # box queries
  for _ in range(4):
    if rng.chance(0.6) and located:
      c = rng.pick(located)
      w = rng.pick([1e-6, 1e-4, 0.01, 1, 20])
      north, south = c.lat + w * rng.random(), c.lat - w * rng.random()
      east, west = c.lon + w * rng.random(), c.lon - w * rng.random()
      if rng.chance(0.4):
        # the border belongs to the box
        side = rng.pick('nesw')
        north, south = c.lat if side == 'n' else north, c.lat if side == 's' else south
        east, west = c.lon if side == 'e' else east, c.lon if side == 'w' else west
        ctx.count('boxes that end at a stop')
    else:
      north, south, east, west = rng.uniform(0, 90), rng.uniform(-90, 0), rng.uniform(0, 180), rng.uniform(-180, 0)
    inside = set(x.id for x in located if south <= x.lat <= north and west <= x.lon <= east)
    limit = rng.pick([1, 2, 5, 100])
    g = [x.stop_id for x in s.GetStopsInBoundingBox(north, east, south, west, limit)]
    ctx.count('stops found in boxes', len(g))
    ctx.count('box queries cut by the limit', len(inside) > limit)
    if len(set(g)) != len(g) or not set(g) <= inside or len(g) != min(limit, len(inside)):
      ctx.fail(u'stops in box n%r e%r s%r w%r, at most %d: %r, expected %r' % (
          north, east, south, west, limit, g, sorted(inside)))
  # nearest
  for _ in range(4):
    if rng.chance(0.7) and located:
      c = rng.pick(located)
      lat, lon = near(rng, c.lat, c.lon, rng.pick([0, 1, 100, 10000, 1000000]))
    else:
      _, lat, lon = place(rng)
    limit = rng.pick([1, 2, 3, 10, 40])
    g = [x.stop_id for x in s.GetNearestStops(lat, lon, limit)] if limit > 1 or rng.chance(0.5) else [
        x.stop_id for x in s.GetNearestStops(lat, lon)]
    if len(set(g)) != len(g) or not set(g) <= set(x.id for x in located):
      ctx.fail(u'nearest stops to %r,%r: %r' % (lat, lon, g))
      continue
    want = sorted(geo.dist(lat, lon, x.lat, x.lon) for x in located)[:limit]
    have = [geo.dist(lat, lon, by_id[x].lat, by_id[x].lon) for x in g]
    ctx.count('nearest stops compared', len(want))
    if len(have) != len(want) or any(abs(p - q) > 0.01 + 1e-6 * q for p, q in zip(have, want)):
      ctx.fail(u'the %d nearest stops to %r,%r: %r at %r, expected distances %r' % (
          limit, lat, lon, g, have, want))
  ctx.seen(sorted((x.id, x.type, x.parent, x.lat, x.lon, x.id in used) for x in stops))
  ctx.sample({'case': i, 'stops': len(stops), 'places': [c[0] for c in centres]})
