# -*- coding: utf-8 -*-
"""C32: Marey graphs plot every stop and trip where the timetable puts it."""
import re
import sys
import urllib
from StringIO import StringIO
from xml.etree import ElementTree

import schedule_viewer
import transitfeed
from gtfsscheduleviewer.marey_graph import MareyGraph

from harness import feedgen, geo, recorder

CASES = {'quick': 1600, 'thorough': 50000}
RULE = ('a case is one pattern of 2 to 9 stops with 1 to 8 trips, drawn with random heights, spans and '
        'decorations, its SVG read and compared with the timetable; distinct by timetable and settings')
MINIMUM = {'steps of the scale': 5600, 'graphs decorated': 720, 'graphs drawn': 720,
           'graphs with stations by distance': 930, 'graphs with stations by time': 510,
           'graphs with stations by uniform': 270, 'spans compared': 290,
           'station lines compared': 9400, 'stop times compared': 63000,
           'trips after midnight': 2700, 'graphs of the viewer': 290, 'patterns not drawn': 580}
ASSUMPTIONS = ['the trips of a graph visit the same stops', 'positions are exact to 2 pixels']

NS = '{http://www.w3.org/2000/svg}'


def make(ctx, rng):
  rec, reporter = recorder.new()
  s = transitfeed.Schedule(problem_reporter=reporter)
  s.AddAgency('A', 'http://a.example', 'Europe/Berlin', agency_id='a')
  ids = feedgen.Ids(rng, u't')
  n = rng.randint(2, 9)
  lat, lon = rng.uniform(-60, 60), rng.uniform(-170, 170)
  places = []
  same = rng.chance(0.2)
  for k in range(n):
    if k == 0 or not same:
      p = geo.offset(lat, lon, rng.uniform(-20000, 20000), rng.uniform(-20000, 20000))
      if places and rng.chance(0.15):
        p = places[-1]
      p = (round(p[0], 6), round(p[1], 6))
    places.append(p)
  stops = [s.AddStop(p[0], p[1], u'Stop %d' % k, stop_id=u's%d' % k) for k, p in enumerate(places)]
  for k in range(2, n):
    if rng.chance(0.1):     # a stop visited again
      stops[k], places[k] = stops[0], places[0]
  route = s.AddRoute('1', 'One', 'Bus')
  services = []
  for k in range(rng.randint(1, 4)):
    sp = transitfeed.ServicePeriod('sv%d' % k)
    sp.SetWeekdayService(True)
    sp.SetStartDate('20260101')
    sp.SetEndDate('20271231')
    s.AddServicePeriodObject(sp)
    services.append(sp)
  trips, times = [], {}
  base = rng.pick([0, 5 * 3600, 22 * 3600, 30 * 3600])
  for k in range(rng.randint(1, 8)):
    tid = ids.new()
    t = route.AddTrip(service_period=rng.pick(services), trip_id=tid)
    now = base + rng.randint(0, 20000)
    mine = []
    untimed = rng.chance(0.4)
    frozen = rng.chance(0.03)
    for j, st in enumerate(stops):
      if untimed and 0 < j < n - 1 and rng.chance(0.5):
        t.AddStopTime(st)
        mine.append(None)
      else:
        dep = now + rng.pick([0, 0, 60, 100]) * (not frozen)
        t.AddStopTime(st, arrival_secs=now, departure_secs=dep)
        mine.append((now, dep))
        now = dep
      now += rng.randint(30, 4000) * (not frozen)
    trips.append(t)
    times[tid] = mine
  return s, stops, places, trips, times


def points(e):
  out = []
  for p in re.findall(r'(-?[0-9.]+)\s*,\s*(-?[0-9.]+)', e.get('points')):
    out.append((float(p[0]), float(p[1])))
  return out


def read(ctx, data):
  if isinstance(data, unicode):
    data = data.encode('utf-8')
  try:
    return ElementTree.fromstring(data)
  except Exception as e:
    ctx.fail('the graph is not well-formed XML: %s' % e)
    return None


def shapes(root, cls):
  return [e for e in root.iter() if e.get('class') == cls]


def script_texts(text):
  """The string literals of a script."""
  out = []
  for m in re.finditer(r"'((?:[^'\\]|\\.)*)'", text, re.S):
    out.append(re.sub(r'\\(.)', r'\1', m.group(1), flags=re.S))
  return out


def judge(ctx, root, stops, places, trips, times, height, given):
  n = len(stops)
  if root.tag != NS + 'svg':
    ctx.fail('the graph is a %r' % root.tag)
  # Hours
  hours = [(float(e.get('x')), int(e.text)) for e in shapes(root, 'Label')]
  for (x, h), (x2, h2) in zip(hours, hours[1:]):
    ctx.check(x2 > x and (h2 - h) % 24 == 1, 'hours are labelled %r', hours)
  ctx.check(len(hours) >= 2, 'hours are labelled %r', hours)
  per_minute = (hours[1][0] - hours[0][0]) / 60.0
  # Stations
  lines = []
  for e in shapes(root, 'Station'):
    p = points(e)
    ctx.check(len(p) == 2 and p[0][1] == p[1][1] and p[0][0] < p[1][0], 'station line %r', p)
    lines.append(p[0][1])
  ctx.check(len(lines) == n, '%d station lines for %d stops', len(lines), n)
  if len(lines) != n:
    return
  ctx.check(lines == sorted(lines), 'station lines at %r', lines)
  cum = [0.0]
  for a, b in zip(places, places[1:]):
    cum.append(cum[-1] + geo.dist(a[0], a[1], b[0], b[1]))
  if given and cum[-1] > 1:
    how = 'distance'
  elif cum[-1] <= 1 or not given:
    first = times[trips[0].trip_id]
    if None in first or sum(max(b[0] - a[1], 0) for a, b in zip(first, first[1:])) == 0:
      how, cum = 'uniform', [float(k) for k in range(n)]
    else:
      how, cum = 'time', [0.0]
      for a, b in zip(first, first[1:]):
        cum.append(cum[-1] + (b[0] - a[1]))
  ctx.count('graphs with stations by ' + how)
  ctx.check(0 <= lines[0] <= 25 and lines[-1] <= height + 2 and lines[-1] - lines[0] > 0.8 * (height - 20),
            'station lines from %r to %r in a graph %r high', lines[0], lines[-1], height)
  for k in range(n):
    want = lines[0] + (lines[-1] - lines[0]) * cum[k] / cum[-1]
    ctx.check(abs(lines[k] - want) <= 2 + 0.005 * height, 'station %d lies at %r, expected %r (by %s)', k, lines[k],
              want, how)
    ctx.count('station lines compared')
  # Trips
  drawn = shapes(root, 'T')
  ctx.check(sorted(e.get('id') for e in drawn) == sorted(t.trip_id for t in trips), 'trips drawn: %r, expected %r',
            [e.get('id') for e in drawn], [t.trip_id for t in trips])
  for e in drawn:
    tid = e.get('id')
    mine = times.get(tid)
    if mine is None:
      continue
    said = script_texts(e.get('onmouseover') or '')
    ctx.check(tid in said, 'trip %r calls %r', tid, e.get('onmouseover'))
    ctx.check(any(tid in x and feedgen.hms(mine[0][0]) in x for x in said), 'trip %r starting %s says %r', tid,
              feedgen.hms(mine[0][0]), said)
    want = []
    for k, x in enumerate(mine):
      if x is not None:
        want += [(k, x[0]), (k, x[1])]
    got = points(e)
    if len(got) != len(want):
      got = [p for k, p in enumerate(got) if k == 0 or p != got[k - 1]]
      want = [p for k, p in enumerate(want) if k == 0 or p != want[k - 1]]
    ctx.check(len(got) == len(want), 'trip %r is drawn through %r, expected %r', tid, got, want)
    base = None
    for (x, y), (k, secs) in zip(got, want):
      ctx.check(abs(y - lines[k]) <= 1, 'trip %r passes stop %d at height %r, its line is at %r', tid, k, y, lines[k])
      at = hours[0][0] + (secs / 60.0 - 60 * hours[0][1]) * per_minute
      # The labels tell hours modulo 24
      days = round((x - at) / (24 * 60 * per_minute))
      base = days if base is None else base
      at += days * 24 * 60 * per_minute
      ctx.check(abs(x - at) <= 2 and days == base, 'trip %r is at stop %d at %r, %s should be %r', tid, k, x,
                feedgen.hms(secs), at)
      ctx.count('stop times compared')
    ctx.check(all(a[0] <= b[0] for a, b in zip(got, got[1:])), 'trip %r goes back in time: %r', tid, got)
    if mine[0][0] >= 86400:
      ctx.count('trips after midnight')


def quietly(f, *a, **kw):
  out = sys.stdout
  sys.stdout = StringIO()
  try:
    return f(*a, **kw)
  finally:
    sys.stdout = out


class Wire(object):
  """A connection whose peer has sent everything."""

  def __init__(self, data):
    self.data, self.out = data, Kept()

  def makefile(self, mode='r', *args):
    return StringIO(self.data) if 'r' in mode else self.out

  def sendall(self, data):
    self.out.write(data)

  def __getattr__(self, name):
    return lambda *args: None


class Kept(StringIO):
  def close(self):
    pass


class Handler(schedule_viewer.ScheduleRequestHandler):
  def log_message(self, *args):
    pass


class Viewer(object):
  pass


def viewed(ctx, rng, s, stops, places, trips, times):
  """The graph of a pattern, from the viewer."""
  route = s.GetRoute(trips[0].route_id)
  others = []
  if len(stops) > 2 or stops[0] is not stops[-1]:
    # A trip of another pattern, and of another route
    for r, visited in ((route, stops[1:] + stops[:1]), (s.AddRoute('2', 'Two', 'Bus'), stops)):
      t = r.AddTrip(service_period=s.GetServicePeriodList()[0], trip_id=u'other %d' % len(others))
      for k, st in enumerate(visited):
        t.AddStopTime(st, arrival_secs=k * 60, departure_secs=k * 60)
      if [x.stop_id for x in visited] != [x.stop_id for x in stops] or r is not route:
        others.append(t)
      else:
        times[t.trip_id] = [(k * 60, k * 60) for k in range(len(stops))]
        trips.append(t)
  viewer = Viewer()
  viewer.schedule = s
  height = rng.pick([None, 300, 100, 1000])
  trip = rng.pick(trips)
  query = 'trip=' + urllib.quote(trip.trip_id.encode('utf-8'), safe='')
  if height:
    query += '&height=%d' % height
  wire = Wire('GET /ttablegraph?%s HTTP/1.0\r\n\r\n' % query)
  quietly(Handler, wire, ('127.0.0.1', 1), viewer)
  head, _, body = wire.out.getvalue().partition('\r\n\r\n')
  if not ctx.check(head.split()[1:2] == ['200'], 'the viewer answers %r for the graph of %r', head, trip.trip_id):
    return
  sizes = re.findall(r'(?im)^content-length: *(\d+)', head)
  ctx.check(sizes == ['%d' % len(body)], 'the viewer says %r for %d bytes', sizes, len(body))
  root = read(ctx, body)
  if root is None:
    return
  judge(ctx, root, stops, places, trips, times, height or 300, True)
  xs = [p[0] for e in shapes(root, 'T') for p in points(e)]
  first = min(t[0][0] for t in times.values())
  last = max(t[-1][1] for t in times.values())
  if last - first < 27 * 3600 and first < 23 * 3600:
    ctx.check(0 <= min(xs) and max(xs) <= float(root.get('width')), 'trips from %r to %r on a graph %r wide', min(xs),
              max(xs), root.get('width'))
  ctx.count('graphs of the viewer')
  ctx.count('patterns not drawn', len(others))


def run_case(ctx, rng, i):
  s, stops, places, trips, times = make(ctx, rng)
  g = MareyGraph()
  height = rng.pick([520, 300, 100, 1000, rng.randint(60, 2000)])
  spanned = rng.chance(0.7)
  first = min(t[0][0] for t in times.values())
  last = max(t[-1][1] for t in times.values())
  if spanned:
    g.SetSpan(first, last)
  given = rng.chance(0.8)
  args = dict(triplist=list(trips))
  if given:
    args['stoplist'] = rng.pick([tuple(stops), list(stops)])
  if height != 520:
    args['height'] = height
  a = quietly(g.Draw, **args)
  root = read(ctx, a)
  if root is None:
    return
  judge(ctx, root, stops, places, trips, times, height, given)
  if spanned:
    xs = [p[0] for e in shapes(root, 'T') for p in points(e)]
    width = float(root.get('width'))
    if last - first < 27 * 3600 and first < 23 * 3600:
      ctx.check(0 <= min(xs) and max(xs) <= width, 'trips from %r to %r on a graph %r wide', min(xs), max(xs), width)
      ctx.count('spans compared')
  ctx.check(quietly(g.Draw) == a, 'the same graph is drawn differently again')
  # Decorations come on top and go away
  k = rng.randint(0, len(stops) - 1)
  g.AddStationDecoration(k, '#abc')
  some = rng.sub(trips, 0.4)
  if some:
    g.AddTripDecoration(some, '#123')
  root = read(ctx, quietly(g.Draw))
  if root is None:
    return
  dec = shapes(root, 'Dec')
  lines = [points(e) for e in shapes(root, 'Station')]
  ctx.check(len(dec) == 1 and points(dec[0]) == lines[k] and dec[0].get('stroke') == '#abc',
            'station %d at %r is decorated with %r', k, lines[k], [points(e) for e in dec])
  marked = [e for e in shapes(root, 'T') if e.get('stroke') == '#123']
  ctx.check(sorted(e.get('id') for e in marked) == sorted(t.trip_id for t in some), 'trips decorated: %r, expected %r',
            [e.get('id') for e in marked], [t.trip_id for t in some])
  plain = dict((e.get('id'), points(e)) for e in shapes(root, 'T') if e.get('stroke') != '#123')
  for e in marked:
    ctx.check(plain.get(e.get('id')) == points(e), 'trip %r is decorated elsewhere: %r', e.get('id'), points(e))
  ctx.count('graphs decorated')
  g.ClearDecorators()
  ctx.check(quietly(g.Draw) == a, 'the graph differs after its decorations are gone')
  # The scale
  z = rng.pick([0.3, 1.0, 2.5])
  g.ChangeScaleFactor(z)
  for bad in rng.sub([0, -1, 5.5, 100], 0.5):
    g.ChangeScaleFactor(bad)
  b = quietly(g.Draw)
  ctx.check('scale(%s)' % z in b, 'the graph is not scaled by %r', z)
  ctx.check(b.replace('scale(%s)' % z, '') == re.sub(r'scale\([^)]*\)', '', a, 1), 'the scale changes the graph')
  # Step by step, within what is possible
  z = float(z)
  for _ in range(rng.pick([0, 3, 12, 60])):
    up = rng.chance(0.5) if rng.chance(0.3) else z > 1
    (g.ScaleLarger if up else g.ScaleSmaller)()
    step = z + (0.1 if up else -0.1)
    if min(abs(step), abs(step - 5)) < 1e-6:
      break
    if 0 < step < 5:
      z = step
    ctx.count('steps of the scale')
    found = re.findall(r'scale\(([^)]*)\)', quietly(g.Draw))
    ctx.check(len(found) == 1 and abs(float(found[0]) - z) < 1e-6, 'the graph is scaled by %r, expected %r', found, z)
  # Another graph with the same object
  more = trips[:rng.randint(1, len(trips))]
  again = rng.chance(0.5)
  if rng.chance(0.3):
    g.AddStationDecoration(rng.randint(0, len(stops) - 1), '#def')
  root = read(ctx, quietly(g.Draw, list(stops), more, height) if again else
              quietly(g.Draw, triplist=more, height=height))
  if root is not None:
    judge(ctx, root, stops, places, more, times, height, again)
    ctx.equal([e.get('stroke') for e in shapes(root, 'Dec')], [], 'decorations of another graph')
  if rng.chance(0.4):
    viewed(ctx, rng, s, stops, places, trips, times)
  ctx.count('graphs drawn')
  ctx.seen((sorted(times.items()), places, height, given, spanned))
  ctx.sample('%d stops, %d trips, height %d' % (len(stops), len(trips), height))
