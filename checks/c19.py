# -*- coding: utf-8 -*-
"""C19: shapes keep point order and interpolate along it."""
import os

import transitfeed

from harness import feedgen, geo, recorder, render

CASES = {'quick': 1000, 'thorough': 50000}
RULE = ('a case is a shape whose points are added in random order (and cleared at times), observed '
        'after every addition and queried at many distances, and a trip along it whose stops lie '
        'near to and far from the shape, built or loaded; distinct by the points')
MINIMUM = {'points added': 3000, 'points added out of order': 1000, 'repeated sequence numbers': 40,
           'decreasing distances': 200, 'clearings': 40, 'distance queries': 15000,
           'interpolated answers': 5000, 'clamped answers': 3000, 'far stops reported': 200,
           'near stops passed': 400, 'stops on the equator or zero meridian': 15,
           'shapes loaded': 250}
LIMIT = 1000.0


def same(a, b, tol=1e-9):
  return a is not None and b is not None and abs(a - b) <= tol * max(1.0, abs(a), abs(b))


class Model(object):
  def __init__(self):
    self.pts = []        # (seq, lat, lon, dist) by sequence

  def insert(self, p):
    """Returns (repeated, number of inverted neighbours)."""
    repeated = any(q[0] == p[0] for q in self.pts)
    self.pts.append(p)
    self.pts.sort(key=lambda q: q[0])
    k = self.pts.index(p)
    bad = 0
    if p[3] is not None:
      if k > 0 and self.pts[k - 1][3] is not None and p[3] < self.pts[k - 1][3]:
        bad += 1
      if k + 1 < len(self.pts) and self.pts[k + 1][3] is not None and p[3] > self.pts[k + 1][3]:
        bad += 1
    return repeated, bad

  def unique(self):
    s = [p[0] for p in self.pts]
    return len(s) == len(set(s))

  def usable(self):
    """All points have a distance and these never decrease."""
    d = [p[3] for p in self.pts]
    return d and None not in d and d == sorted(d)

  def max(self):
    return max([0] + [p[3] for p in self.pts if p[3] is not None])

  def at(self, x):
    """All acceptable answers (lat, lon)."""
    if x <= self.pts[0][3]:
      return [p[1:3] for p in self.pts if p[3] == self.pts[0][3]], True
    if x >= self.pts[-1][3]:
      return [p[1:3] for p in self.pts if p[3] == self.pts[-1][3]], True
    out = []
    for a, b in zip(self.pts, self.pts[1:]):
      if a[3] <= x <= b[3]:
        if a[3] == b[3]:
          out += [a[1:3], b[1:3]]
        else:
          f = (x - a[3]) / float(b[3] - a[3])
          out.append((a[1] + (b[1] - a[1]) * f, a[2] + (b[2] - a[2]) * f))
    return out, False


def look(ctx, shape, m):
  pts = list(shape.points)
  if m.unique():
    ok = ctx.equal([tuple(p) for p in pts], [p[1:] for p in m.pts], u'points of the shape')
    ok &= ctx.equal(list(shape.sequence), [p[0] for p in m.pts], u'sequence of the shape')
  else:
    # equal sequence numbers may come in any order among themselves
    ok = ctx.equal(list(shape.sequence), [p[0] for p in m.pts], u'sequence of the shape')
    got = sorted(zip(list(shape.sequence), [tuple(p) for p in pts]))
    ok &= ctx.equal(got, sorted((p[0], p[1:]) for p in m.pts), u'points of the shape')
  ok &= ctx.equal(shape.max_distance, m.max(), u'maximum distance of %r' % (m.pts,))
  return ok


def query(ctx, rng, shape, m):
  xs = []
  for p in m.pts:
    xs += [p[3], p[3] + rng.uniform(-3, 3)]
  xs += [-1, 0, m.max() * 2 + 1, m.max(), rng.uniform(0, m.max() + 1)]
  for a, b in zip(m.pts, m.pts[1:]):
    xs.append((a[3] + b[3]) / 2.0)
    xs.append(a[3] + (b[3] - a[3]) * 0.01)
  for x in xs:
    got = shape.GetPointWithDistanceTraveled(x)
    want, clamped = m.at(x)
    ctx.count('distance queries')
    ctx.count('clamped answers' if clamped else 'interpolated answers')
    ok = got is not None and any(same(got[0], w[0]) and same(got[1], w[1]) for w in want)
    if ok and not clamped:
      ok = same(got[2], x)
    if not ok:
      ctx.fail(u'point at distance %r of %r: got %r, expected one of %r' % (x, m.pts, got, want))
      return


def run_case(ctx, rng, i):
  rec, rep = recorder.new()
  m = Model()
  n = rng.pick([2, 3, 5, 8, 12, 20])
  lat, lon = rng.pick([-1, 1]) * rng.uniform(1.5, 60), rng.pick([-1, 1]) * rng.uniform(1.5, 170)
  if rng.chance(0.1):
    lat = rng.pick([0.0, 0.001])
  elif rng.chance(0.1):
    lon = 0.0
  kind = rng.pick(['all', 'all', 'all', 'all', 'none', 'some'])
  mono = rng.chance(0.7)
  pts, d, seq = [], rng.pick([0, 0, 0.5, 100]), rng.pick([0, 1, 7])
  for k in range(n):
    la, lo = geo.offset(lat, lon, k * rng.uniform(-500, 900), k * 400)
    if rng.chance(0.1):
      la = lat
    if not mono and rng.chance(0.3):
      d = max(0, d - rng.pick([1, 50, 0.5]))
    dist = d if kind == 'all' or kind == 'some' and rng.chance(0.6) else None
    pts.append((seq, la, lo, dist))
    d += rng.pick([0, 1, 1, 0.25, rng.uniform(0, 300), 1000])
    seq += rng.pick([1, 1, 1, 2, 100])
    if rng.chance(0.04):
      seq -= 1
  sid = rng.pick([u'S', u'é "1"', u'0'])
  if i % 3 == 0:
    loaded(ctx, rng, i, sid, pts)
    return
  shape = transitfeed.Shape(sid)
  order = pts if rng.chance(0.3) else rng.shuffled(pts)
  if rng.chance(0.2):
    order = order[::-1]
  api = rng.chance(0.25)
  for k, p in enumerate(order):
    if rng.chance(0.03):
      shape.ClearPoints()
      m.pts = []
      ctx.count('clearings')
      if not look(ctx, shape, m):
        return
    rec.take()
    if api:
      p = (len(m.pts),) + p[1:]
      shape.AddPoint(p[1], p[2], p[3], rep)
    else:
      text = lambda v: v if v is None or rng.chance(0.5) else repr(v)
      sp = transitfeed.ShapePoint(sid, text(p[1]) if abs(p[1]) > .001 else p[1],
                                  text(p[2]) if abs(p[2]) > .001 else p[2],
                                  p[0] if rng.chance(0.5) else unicode(p[0]), text(p[3]))
      if not sp.ParseAttributes(rep):
        ctx.fail(u'valid shape point %r refused: %r' % (p, rec.entries))
        return
      if rec.entries:
        ctx.fail(u'valid shape point %r reported: %r' % (p, rec.entries))
      shape.AddShapePointObjectUnsorted(sp, rep)
    unique = m.unique()
    if m.pts and p[0] < m.pts[-1][0]:
      ctx.count('points added out of order')
    repeated, bad = m.insert(p)
    ctx.count('points added')
    if repeated:
      ctx.count('repeated sequence numbers')
    got = [e.column_name for e in rec.entries if e.cls == 'InvalidValue']
    if len(got) != len(rec.entries) or got.count('shape_pt_sequence') != int(repeated):
      ctx.fail(u'adding %r reported %r, repeated: %r' % (p, rec.entries, repeated))
    if unique and not repeated:
      if bad:
        ctx.count('decreasing distances')
      if got.count('shape_dist_traveled') != bad:
        ctx.fail(u'adding %r to %r reported %r, expected %d decreasing distances' % (
            p, m.pts, rec.entries, bad))
    if not look(ctx, shape, m):
      return
    if m.unique() and m.usable() and rng.chance(0.2):
      query(ctx, rng, shape, m)
  ctx.seen(m.pts)
  ctx.sample({'case': i, 'points': m.pts[:4]})
  if m.unique() and m.usable():
    query(ctx, rng, shape, m)
    # a different shape is not equal, the same points are
    other = transitfeed.Shape(u'other')
    for p in m.pts:
      other.AddPoint(p[1], p[2], p[3], rep)
    if m.pts and (not (shape == other) or shape != other):
      ctx.fail(u'shapes with the same points compare unequal')
    other.AddPoint(12.0, 13.0, m.max(), rep)
    if shape == other or not shape != other:
      ctx.fail(u'shapes with different points compare equal')
    rec.take()
    if m.max() > 0:
      trip_along(ctx, rng, rec, rep, shape, m)


def place_stops(ctx, rng, m):
  """[(lat, lon, travelled distance or None, far)] of stops along the shape."""
  out = []
  for x in sorted(rng.uniform(0, m.max()) if rng.chance(0.7) else rng.pick(m.pts)[3]
                  for _ in range(rng.randint(2, 5))):
    if out and x <= out[-1][4]:
      continue
    # the text of a double has 12 digits in some of its ways
    x = float('%.3f' % x)
    places, _ = m.at(x)
    if len(places) > 1 and any(geo.dist(p[0], p[1], places[0][0], places[0][1]) > 1 for p in places):
      continue
    off = rng.pick([0, 5, 500, 985, 998, 1002, 1020, 3000])
    la, lo = geo.offset(places[0][0], places[0][1], *rng.pick([(off, 0), (0, off), (-off, 0), (0, -off)]))
    if abs(places[0][0]) < 0.0005 and off and rng.chance(0.5):
      la = 0.0
    elif abs(places[0][1]) < 0.0005 and rng.chance(0.5):
      lo = 0.0
    la, lo = round(la, 7), round(lo, 7)
    d = geo.dist(la, lo, places[0][0], places[0][1])
    if abs(d - LIMIT) < 1.0 or (abs(la) < 1 and abs(lo) < 1):
      continue
    if la == 0 or lo == 0:
      ctx.count('stops on the equator or zero meridian')
    out.append((la, lo, None if rng.chance(0.1) else x, d > LIMIT, x))
  return out


def judge_trip(ctx, rec, places, ids, m, sid, tid):
  got = sorted((e.get('trip_id'), e.get('stop_id'), e.get('shape_id')) for e in rec.entries
               if e.cls == 'StopTooFarFromShapeWithDistTraveled')
  want = sorted((tid, ids[k], sid) for k, p in enumerate(places) if p[3] and p[2] is not None)
  ctx.equal(got, want, u'stops reported too far from shape %r with stops %r' % (m.pts, places))
  ctx.count('far stops reported', len(want))
  ctx.count('near stops passed', sum(1 for p in places if not p[3] and p[2] is not None))


def trip_along(ctx, rng, rec, rep, shape, m):
  places = place_stops(ctx, rng, m)
  if not places:
    return
  s = transitfeed.Schedule(rep)
  s.AddAgency(u'A', u'http://a.example', u'UTC')
  s.GetDefaultServicePeriod().SetDateHasService(u'20260101')
  s.AddShapeObject(shape, rep)
  trip = s.AddRoute(short_name=u'R', long_name=u'', route_type=2).AddTrip(s, trip_id=u't')
  trip.shape_id = shape.shape_id
  ids = []
  for k, (la, lo, x, far, _) in enumerate(places):
    stop = s.AddStop(la, lo, u'Stop %d' % k)
    ids.append(stop.stop_id)
    trip.AddStopTime(stop, problems=rep, arrival_secs=k * 3000, departure_secs=k * 3000,
                     shape_dist_traveled=x)
  rec.take()
  trip.Validate(rep)
  judge_trip(ctx, rec, places, ids, m, shape.shape_id, u't')


def loaded(ctx, rng, i, sid, pts):
  """The same, from a feed with the points in random order."""
  m = Model()
  repeats, bad = 0, 0
  rows = [(s, round(la, 6), round(lo, 6), None if d is None else float('%.3f' % d))
          for s, la, lo, d in pts]
  rows = rng.shuffled(rows)
  dup = False
  for p in rows:
    r, b = m.insert(p)
    repeats += int(r)
    dup = dup or r
    bad += b
  places = []
  if m.unique() and m.usable() and m.max() > 0:
    places = place_stops(ctx, rng, m)
  f = feedgen.Feed()
  f.add('agency', agency_id=u'A', agency_name=u'A', agency_url=u'http://a.example',
        agency_timezone=u'UTC')
  f.add('routes', route_id=u'R', route_short_name=u'R', route_long_name=u'', route_type=u'2')
  f.add('calendar_dates', service_id=u'W', date=feedgen.ymd(feedgen.today()), exception_type=u'1')
  f.add('trips', route_id=u'R', service_id=u'W', trip_id=u't', shape_id=sid)
  for s, la, lo, d in rows:
    f.add('shapes', shape_id=sid, shape_pt_lat=u'%.6f' % la, shape_pt_lon=u'%.6f' % lo,
          shape_pt_sequence=unicode(s), shape_dist_traveled=u'' if d is None else u'%.3f' % d)
  if not places:
    for k in range(2):
      f.add('stops', stop_id=u's%d' % k, stop_name=u's', stop_lat=unicode(20 + k * .01), stop_lon=u'30')
      f.add('stop_times', trip_id=u't', stop_id=u's%d' % k, stop_sequence=unicode(k),
            arrival_time=u'0%d:00:00' % k, departure_time=u'0%d:00:00' % k)
  for k, (la, lo, x, far, _) in enumerate(places):
    f.add('stops', stop_id=u's%d' % k, stop_name=u's', stop_lat=u'%.7f' % la, stop_lon=u'%.7f' % lo)
    f.add('stop_times', trip_id=u't', stop_id=u's%d' % k, stop_sequence=unicode(k),
          arrival_time=u'0%d:00:00' % k, departure_time=u'0%d:00:00' % k,
          shape_dist_traveled=u'' if x is None else u'%.3f' % x)
  f.finish_columns(rng)
  path = os.path.join(os.getcwd(), 'f%d.zip' % i)
  render.write_zip(render.files(f, render.Style(rng, shuffle_columns=True)), path)
  s, rec = recorder.load(path)
  os.remove(path)
  ctx.count('shapes loaded')
  ctx.seen(m.pts)
  look(ctx, s.GetShape(sid), m)
  got = [e.column_name for e in rec.entries if e.file_name == 'shapes.txt']
  ctx.equal(got.count('shape_pt_sequence'), repeats, u'repeated sequence numbers reported')
  if not dup:
    ctx.equal(got.count('shape_dist_traveled'), bad, u'decreasing distances reported for %r' % rows)
  if m.unique() and m.usable():
    query(ctx, rng, s.GetShape(sid), m)
  if places:
    judge_trip(ctx, rec, places, [u's%d' % k for k in range(len(places))], m, sid, u't')
