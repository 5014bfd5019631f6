# -*- coding: utf-8 -*-
"""C24: the schedule viewer answers queries as the feed says."""
import datetime
import json
import os
import shutil
import socket
import sys
import threading
import traceback
import urllib

import schedule_viewer

from harness import canon, feedgen, geo, recorder, render
from harness.core import u
from harness.tables import Feed

CASES = {'quick': 260, 'thorough': 4000}
RULE = ('a case is one feed served by the real HTTP server on a loopback port, asked some 45 valid '
        'and malformed queries over sockets; distinct by the feed')
MINIMUM = {'departures left out by their date': 210, 'departures returned': 1700,
           'files fetched': 390, 'home pages': 110, 'malformed queries': 350,
           'malformed requests': 230, 'paths out of the directory': 390,
           'patterns of more trips than sampled': 120, 'patterns returned': 1400,
           'queries: boundboxstops': 290, 'queries: neareststops': 280,
           'queries: routepatterns': 570, 'queries: routerow': 280, 'queries: routes': 530,
           'queries: stopsearch': 190, 'queries: stoptrips': 790, 'queries: triprows': 270,
           'queries: tripshape': 270, 'queries: tripstoptimes': 300, 'shapes returned': 99,
           'stop times returned': 1100, 'stops found': 480, 'stops in boxes': 610,
           'times within a stay': 63, 'unknown paths': 700, 'titles of several agencies': 73}
ASSUMPTIONS = ['a query is refused by any status other than 200, by an empty answer (null, an '
               'empty list) or by closing the connection',
               'feeds have no frequencies, whose runs the viewer does not expand',
               'a time within the stay of a trip at a stop is not asked for']
SECRET = 'TOP-SECRET-7f3a'


class Server(schedule_viewer.StoppableHTTPServer):
  trouble = []

  def handle_error(self, request, client_address):
    self.trouble.append(traceback.format_exc())


class Handler(schedule_viewer.ScheduleRequestHandler):
  def log_message(self, *args):
    pass


STATE = {}


def setup(ctx):
  srv = Server(('127.0.0.1', 0), Handler)
  STATE['server'] = srv
  STATE['port'] = srv.socket.getsockname()[1]
  t = threading.Thread(target=srv.serve_forever)
  t.setDaemon(True)
  t.start()
  STATE['thread'] = t


def talk(data):
  """Everything the server answers to the bytes of a request."""
  s = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
  s.settimeout(60)
  out = []
  try:
    s.connect(('127.0.0.1', STATE['port']))
    try:
      s.sendall(data)
      s.shutdown(socket.SHUT_WR)
    except socket.error:
      pass                 # the server may have closed already
    while True:
      try:
        got = s.recv(65536)
      except socket.timeout:
        out[:] = []
        break
      except socket.error:
        break
      if not got:
        break
      out.append(got)
  finally:
    s.close()
  return ''.join(out)


def get(path):
  """(status or None, headers, body)"""
  answer = talk('GET %s HTTP/1.0\r\n\r\n' % path)
  head, sep, body = answer.partition('\r\n\r\n')
  lines = head.split('\r\n')
  try:
    status = int(lines[0].split()[1])
  except (IndexError, ValueError):
    return None, {}, ''
  headers = dict((l.partition(':')[0].strip().lower(), l.partition(':')[2].strip()) for l in lines[1:])
  return status, headers, body


def ask(ctx, what, name, **params):
  """The decoded JSON answer of a valid query; None after reporting a failure."""
  query = '&'.join('%s=%s' % (k, urllib.quote((v if isinstance(v, unicode) else u'%s' % v).encode('utf-8'), safe=''))
                   for k, v in sorted(params.items()))
  del Server.trouble[:]
  for _ in range(3):
    status, headers, body = get('/json/%s%s' % (name, '?' + query if query else ''))
    if status is not None or Server.trouble:
      break
    ctx.count('connections lost')
  ctx.count('queries: ' + name)
  if not ctx.check(status == 200, u'%s: %s %r is answered %r %s' %
                   (what, name, params, status, u'\n'.join(u(t) for t in Server.trouble))):
    return None
  ctx.equal(int(headers.get('content-length', -1)), len(body), u'%s: %s length' % (what, name))
  return [json.loads(body)]


def number(x):
  return float(x)


def close(a, b, tol=1e-7):
  return isinstance(a, (int, long, float)) and abs(a - float(b)) <= tol


def same_stops(ctx, got, want, what):
  key = lambda s: s[0]
  norm = lambda l: sorted([s[0], s[1], round(s[2], 7), round(s[3], 7), int(s[4])] for s in l)
  return ctx.equal(norm(got), norm(want), what)


def query_routes(ctx, rng, m, what):
  got = ask(ctx, what, 'routes')
  if got:
    ctx.equal(sorted([x or u'' for x in r] for r in got[0]),
              sorted([r['route_id'], r['route_short_name'], r['route_long_name']] for r in m.routes.values()),
              what + u': routes')


def same_row(ctx, got, row, what):
  for col, cell in sorted(row.items()):
    value = got.get(col)
    text = u'' if value is None else u'%s' % value
    if cell == u'':
      if text in (u'', u'0', u'None'):
        continue
    elif text == cell:
      continue
    else:
      try:
        if float(text) == float(cell):
          continue
      except ValueError:
        pass
    ctx.fail(u'%s: %s is %r, expected %r' % (what, col, value, cell))


def query_routerow(ctx, rng, m, what):
  rid = rng.pick(sorted(m.routes))
  got = ask(ctx, what, 'routerow', route=rid)
  if got:
    names, values = got[0]
    if ctx.check(len(names) == len(values), what + u': routerow lengths'):
      same_row(ctx, dict(zip(names, values)),
               dict((k, v) for k, v in m.routes[rid].items() if k in feedgen.COLUMNS['routes']
                    and k != 'bikes_allowed'),
               what + u': row of route %s' % rid)


def query_triprows(ctx, rng, m, what):
  tid = rng.pick(sorted(m.trips))
  got = ask(ctx, what, 'triprows', trip=tid)
  if got:
    rows = dict((n, r) for n, r in got[0])
    if ctx.equal(sorted(rows), ['routes.txt', 'trips.txt'], what + u': files of triprows'):
      same_row(ctx, rows['trips.txt'], m.trips[tid], what + u': row of trip %s' % tid)
      same_row(ctx, rows['routes.txt'], m.routes[m.trips[tid]['route_id']], what + u': route of trip %s' % tid)


def query_tripstoptimes(ctx, rng, m, what):
  tid = rng.pick(sorted(m.trips))
  got = ask(ctx, what, 'tripstoptimes', trip=tid)
  if got:
    stops, arr, dep = got[0]
    want = m.sts[tid]
    ctx.count('stop times returned', len(want))
    ctx.equal([[s[0], s[1], round(s[2], 7), round(s[3], 7), int(s[4])] for s in stops],
              [[s[0], s[1], round(s[2], 7), round(s[3], 7), s[4]] for s in
               [m.stop_tuple(r['stop_id']) for r in want]], what + u': stops of trip %s' % tid)
    ctx.equal(arr, [canon.secs(r['arrival_time']) for r in want], what + u': arrivals of %s' % tid)
    ctx.equal(dep, [canon.secs(r['departure_time']) for r in want], what + u': departures of %s' % tid)


def query_tripshape(ctx, rng, m, what):
  tid = rng.pick(sorted(m.trips))
  got = ask(ctx, what, 'tripshape', trip=tid)
  if got:
    trip = m.trips[tid]
    sid = trip.get('shape_id', u'')
    if sid:
      ctx.count('shapes returned')
      want = [(r['shape_pt_lat'], r['shape_pt_lon']) for r in m.shapes[sid]]
    else:
      want = [(m.stops[r['stop_id']]['stop_lat'], m.stops[r['stop_id']]['stop_lon']) for r in m.sts[tid]]
    pts = got[0].get('points')
    ctx.check(len(pts) == len(want) and all(close(p[0], a) and close(p[1], b)
                                            for p, (a, b) in zip(pts, want)),
              what + u': points of trip %s are %r, expected %r' % (tid, pts, want))
    color = m.routes[trip['route_id']].get('route_color', u'')
    ctx.equal(got[0].get('color', u'').lower(), u'#' + color.lower() if color else u'', what + u': color of trip %s' % tid)


def query_boundboxstops(ctx, rng, m, what):
  lat = sorted(float(r['stop_lat']) for r in m.stops.values())
  lon = sorted(float(r['stop_lon']) for r in m.stops.values())
  def span(xs):
    a, b = rng.pick(xs), rng.pick(xs)
    return (min(a, b) - rng.pick([1e-4, 0.01]) * rng.random(), max(a, b) + rng.pick([1e-4, 0.01]) * rng.random())
  s, n = span(lat)
  w, e = span(lon)
  if rng.chance(0.1):
    s, n = n, s
  limit = rng.pick([1, 2, 3, 5, 1000])
  edges = [float(repr(x)) for x in (n, e, s, w)]
  inside = [sid for sid, r in m.stops.items()
            if s <= float(r['stop_lat']) <= n and w <= float(r['stop_lon']) <= e]
  near = [1 for r in m.stops.values() for x, y in ((r['stop_lat'], s), (r['stop_lat'], n),
                                                   (r['stop_lon'], w), (r['stop_lon'], e))
          if abs(float(x) - y) < 1e-9]
  if near:
    return
  got = ask(ctx, what, 'boundboxstops', n=repr(n), e=repr(e), s=repr(s), w=repr(w), limit=limit)
  if got:
    ctx.count('stops in boxes', len(inside))
    ids = [x[0] for x in got[0]]
    ctx.check(len(set(ids)) == len(ids) == min(limit, len(inside)) and set(ids) <= set(inside),
              what + u': stops in a box (limit %d) are %r, expected %r' % (limit, ids, inside))
    same_stops(ctx, got[0], [m.stop_tuple(x) for x in ids if x in m.stops], what + u': stops in a box')


def query_neareststops(ctx, rng, m, what):
  r = rng.pick(sorted(m.stops.values(), key=lambda r: r['stop_id']))
  lat, lon = geo.offset(float(r['stop_lat']), float(r['stop_lon']), rng.uniform(-500, 500), rng.uniform(-500, 500))
  limit = rng.pick([1, 2, 5, 100])
  got = ask(ctx, what, 'neareststops', lat=repr(lat), lon=repr(lon), limit=limit)
  if got:
    d = dict((sid, geo.dist(lat, lon, float(x['stop_lat']), float(x['stop_lon']))) for sid, x in m.stops.items())
    ids = [x[0] for x in got[0]]
    ctx.check(len(set(ids)) == len(ids) == min(limit, len(d)) and set(ids) <= set(d),
              what + u': %d nearest stops are %r' % (limit, ids))
    best = sorted(d.values())[:limit]
    ctx.check(all(abs(d[x] - b) < 0.01 + 1e-6 * b for x, b in zip(ids, best) if x in d),
              what + u': nearest stops are %r m away, expected %r' % ([d.get(x) for x in ids], best))
    same_stops(ctx, got[0], [m.stop_tuple(x) for x in ids if x in m.stops], what + u': nearest stops')


def query_stopsearch(ctx, rng, m, what):
  r = m.stops[rng.pick(sorted(m.stops))]
  text = rng.pick([r['stop_id'], r['stop_name'], r['stop_name'], u'zzz?&=', u's', u''])
  if text:
    a = rng.randint(0, len(text) - 1)
    text = text[a:a + rng.randint(1, 8)]
  text = rng.pick([text, text.upper(), text.lower()])
  low = text.lower()
  if any(len(x.lower()) != len(x) or x.upper().lower() != x.lower()
         for x in [text] + [y for s in m.stops.values() for y in (s['stop_id'], s['stop_name'])]):
    return
  got = ask(ctx, what, 'stopsearch', q=text)
  if got:
    want = [sid for sid, s in m.stops.items() if low in sid.lower() or low in s['stop_name'].lower()]
    ctx.count('stops found', len(want))
    same_stops(ctx, got[0], [m.stop_tuple(x) for x in want], what + u': stops found by %r' % text)


def query_stoptrips(ctx, rng, m, what):
  sid = rng.pick(sorted(set(r['stop_id'] for r in m.f.table('stop_times'))))
  visits = []
  for tid in m.trips:
    for k, (lo, hi, s, timed) in enumerate(m.times(tid)):
      if s == sid:
        visits.append((lo, hi, tid, k, timed))
  visits.sort()
  t = rng.pick([0, 0, int(rng.pick(visits)[0]), int(rng.pick(visits)[0]) + 1, rng.randint(0, 100000)])
  date = rng.pick([None, rng.pick(m.dates), rng.pick(m.dates)])
  if any(lo < t <= hi for lo, hi, _, _, _ in visits):
    ctx.count('times within a stay')
    return
  args = dict(stop=sid, time=t)
  if date is not None:
    args['date'] = feedgen.ymd(date)
  elif rng.chance(0.3):
    args['date'] = u''
  if t == 0 and rng.chance(0.3):
    del args['time']
  got = ask(ctx, what, 'stoptrips', **args)
  if not got:
    return
  want = [v for v in visits if v[0] >= t and m.runs(v[2], date)]
  if len([v for v in visits if v[0] >= t]) > 5 and len(want) < len([v for v in visits if v[0] >= t]):
    ctx.count('departures left out by their date')
  what = u'%s: trips at %s from %d on %s: %r' % (what, sid, t, date, got[0])
  left, ok = list(want), True
  last = -1
  for time, (tid, name, service), timed in got[0]:
    hit = [v for v in left if v[2] == tid and v[0] <= time <= v[1] and bool(timed) == v[4]
           and m.label(tid, v[3]) == name]
    if not ctx.check(hit, what + u': no such departure %r, %r, %r of %r' % (time, tid, name, left)):
      return
    left.remove(hit[0])
    ctx.equal(service, m.trips[tid]['service_id'], what + u': service of %s' % tid)
    ctx.check(time >= last, what + u': order')
    last = time
  ctx.count('departures returned', len(got[0]))
  ctx.equal(len(got[0]), min(5, len(want)), what + u': number of departures of %r' % (want,))
  for v in left:
    ctx.check(v[1] >= last, what + u': an earlier departure is left out: %r' % (v,))


def query_routepatterns(ctx, rng, m, what):
  rid = rng.pick(sorted(m.routes))
  groups = {}
  for tid, trip in m.trips.items():
    if trip['route_id'] == rid and m.sts[tid]:
      groups.setdefault(tuple(r['stop_id'] for r in m.sts[tid]), []).append(tid)
  starts = dict((tid, m.times(tid)[0][0]) for tids in groups.values() for tid in tids)
  date = rng.pick([None, rng.pick(m.dates), rng.pick(m.dates)])
  t = rng.pick([0, rng.randint(0, 100000)] + sorted(starts.values()) + [x + 1 for x in sorted(starts.values())])
  args = dict(route=rid)
  if t or rng.chance(0.5):
    args['time'] = t
  if date is not None:
    args['date'] = feedgen.ymd(date)
  got = ask(ctx, what, 'routepatterns', **args)
  if not got:
    return
  what = u'%s: patterns of %s at %d on %s: %r' % (what, rid, t, date, got[0])
  left = dict(groups)
  for name, pid, before, sample, after, special in got[0]:
    ids = [x[1] for x in sample]
    hits = [p for p in left if (not ids or ids[0] in left[p]) and
            (ids or not any(m.runs(x, date) for x in left[p])) and
            name == u'%s to %s, %d stops' % (m.stops[p[0]]['stop_name'], m.stops[p[-1]]['stop_name'], len(p))]
    if not ctx.check(hits, what + u': no such pattern %r' % name):
      return
    tids = [x for x in left.pop(hits[0]) if m.runs(x, date)]
    ctx.count('patterns returned')
    order = sorted(starts[x] for x in tids)
    early = len([x for x in order if x < t])
    first = 0 if len(tids) <= 3 else min(early, len(tids) - 3)
    if len(tids) > 3:
      ctx.count('patterns of more trips than sampled')
    ctx.equal([before, [x[0] for x in sample], after], [first, order[first:first + 3], max(0, len(tids) - first - 3)],
              what + u': sample of %r' % (tids,))
    ctx.check(len(set(ids)) == len(ids) and all(x in tids and starts[x] == s for s, x in sample),
              what + u': trips of %r' % (tids,))
    kinds = [m.trips[x].get('trip_type', u'') for x in tids]
    ctx.equal(special, 1 if any(k not in (u'', u'0') for k in kinds) else 0, what + u': special trips')
  for p, tids in left.items():
    ctx.check(not any(m.runs(x, date) for x in tids), what + u': pattern of %r is missing' % tids)


QUERIES = [query_routes, query_routerow, query_triprows, query_tripstoptimes, query_tripshape,
           query_boundboxstops, query_neareststops, query_stopsearch, query_stoptrips, query_stoptrips,
           query_stoptrips, query_routepatterns, query_routepatterns]


def static(ctx, rng, files, what):
  name = rng.pick(sorted(files))
  status, headers, body = get('/file/' + name)
  ctx.count('files fetched')
  ctx.check(status == 200 and body == files[name], what + u': file %s is answered %r, %d bytes' % (name, status, len(body)))
  ctx.check(headers.get('content-type', '').startswith({'html': 'text/html', 'css': 'text/css', 'png': 'image/png',
                                                        'txt': 'text/plain', 'vbs': 'text/plain'}[name.split('.')[1]]),
            what + u': type of %s is %r' % (name, headers))
  up = rng.pick(['..', '%2e%2e', '..%2f..', '%2E%2E', '....', '..\\', '..;', '.', 'sub/..', 'sub', '..%00', '%c0%ae%c0%ae'])
  tail = rng.pick(['secret.txt', 'files/../secret.txt', '../secret.txt', 'secret.txt?x=1', 'secret.txt#a',
                   'secret.txt/', 'secret.txt%00.png', '%73ecret.txt', 'secret.txt;x'])
  path = rng.pick(['/file/', '/file', '/', '//file/', '/file//', '/json/', '/FILE/', 'file/', '/file/%2f',
                   'http://x/file/', '/file/' + STATE['base'] + '/', '/' + STATE['base'] + '/',
                   'file://' + STATE['base'] + '/']) + rng.pick([up + '/', up + '%2f', up, '', up + '\\']) + tail
  answer = talk('GET %s HTTP/1.0\r\n\r\n' % path)
  ctx.count('paths out of the directory')
  ctx.check(SECRET not in answer, what + u': %r answers the content of a file outside' % path)
  for path in ('/file/nosuch.txt', '/file/nosuch', '/nosuch', '/file/', '/json/nosuch', '/file/secret.txt'):
    if rng.chance(0.3):
      status, _, body = get(path)
      ctx.count('unknown paths')
      ctx.check(status != 200 and SECRET not in body, what + u': %r is answered %r' % (path, status))


BAD = ['/json/stoptrips?stop=%ff', '/json/stoptrips', '/json/stoptrips?stop=nosuchstop&time=0',
       '/json/stoptrips?time=x', '/json/boundboxstops', '/json/boundboxstops?n=a&e=b&s=c&w=d&limit=e',
       '/json/boundboxstops?n=1&e=1&s=0&w=0', '/json/neareststops?lat=&lon=&limit=', '/json/stopsearch',
       '/json/tripshape', '/json/tripshape?trip=nosuchtrip', '/json/tripstoptimes?trip=nosuchtrip',
       '/json/triprows?trip=nosuchtrip', '/json/triprows', '/json/routerow?route=nosuchroute',
       '/json/routepatterns?route=nosuchroute', '/json/routepatterns', '/json/routerow',
       '/json/wrapper', '/json/x' * 30, '/json/', '/json', '/ttablegraph', '/ttablegraph?trip=nosuchtrip',
       '/default', '/home/', '?', '/json/stoptrips?stop=%ZZ&&&=', '/json/routepatterns?route=%C3%28']
RAW = ['\r\n\r\n', 'GET\r\n\r\n', 'POST /json/routes HTTP/1.0\r\n\r\n', 'PUT /file/index.html HTTP/1.0\r\n\r\nx',
       'DELETE /file/index.html HTTP/1.0\r\n\r\n', 'GET /json/routes HTTP/9.9\r\n\r\n', '\x00\x01\xff\xfe\r\n\r\n',
       'GET /json/routes HTTP/1.0\r\nContent-Length: x\r\n\r\n', 'HEAD /json/routes HTTP/1.0\r\n\r\n',
       'GET ' + '/a' * 40000 + ' HTTP/1.0\r\n\r\n', 'GET /json/nosuch\xff HTTP/1.0\r\n\r\n']


def malformed(ctx, rng, m, what):
  if rng.chance(0.6):
    path = rng.pick(BAD)
    status, _, body = get(path)
    ctx.count('malformed queries')
    empty = body.strip() in ('', 'null', '[]')
    ctx.check(status != 200 or empty, what + u': %r is answered %r %r' % (path, status, body[:200]))
  else:
    data = rng.pick(RAW)
    answer = talk(data)
    ctx.count('malformed requests')
    if not data.startswith('GET /json/routes'):
      ctx.check(' 200 ' not in answer.split('\r\n')[0], what + u': request %r is answered %r' % (data[:60], answer[:200]))
  ctx.check(STATE['thread'].isAlive(), what + u': server is still running')


def home(ctx, m, schedule, what):
  """The page of index.html is filled in."""
  status, _, body = get('/')
  ctx.count('home pages')
  lines = u(body).split(u'\n')
  if not ctx.check(status == 200 and len(lines) >= 6, what + u': home page is answered %r: %r' % (status, body[:200])):
    return
  lines = [u'\n'.join(lines[:len(lines) - 5])] + lines[len(lines) - 5:]
  title = lines[0].replace(u'<title>', u'').replace(u'</title>', u'')
  names = [u(a['agency_name']) for a in m.f.table('agency')]
  if len(names) > 1:
    ctx.count('titles of several agencies')
  for n in names:
    ctx.check(n in title, what + u': title %r of the home page lacks agency %r' % (title, n))
  points = [(float(r['stop_lat']), float(r['stop_lon'])) for r in m.f.table('stops')]
  box = [f(p[k] for p in points) for f in (min, max) for k in (0, 1)]
  try:
    got = [float(x) for x in lines[1].split()]
  except ValueError:
    got = None
  ctx.check(got is not None and len(got) == 4 and all(abs(a - b) < 1e-6 for a, b in zip(got, box)),
            what + u': box %r on the home page, the stops are in %r' % (lines[1], box))
  ctx.check(lines[2:5] == [u'key', u'host', u'true'], what + u': home page has %r' % lines[2:])


def run_case(ctx, rng, i):
  d = ctx.tmpdir()
  try:
    f = feedgen.generate(rng, freqs=0, trips=(1, 9), zero_values=0.5)
    if rng.chance(0.3):
      # Many trips of one pattern
      t = rng.pick(f.table('trips'))
      rows = [r for r in f.table('stop_times') if r['trip_id'] == t['trip_id']]
      for k in range(rng.randint(3, 9)):
        new = dict(t, trip_id=u'%s+%d' % (t['trip_id'], k), block_id=u'',
                   service_id=rng.pick(f.table('trips'))['service_id'])
        f.add('trips', **new)
        shift = rng.randint(0, 30) * 600
        for r in rows:
          r = dict(r, trip_id=new['trip_id'])
          for c in ('arrival_time', 'departure_time'):
            if r[c]:
              r[c] = feedgen.hms(canon.secs(r[c]) + shift)
          f.add('stop_times', **r)
    if rng.chance(0.3):
      for t in f.table('trips'):
        t['trip_type'] = rng.pick([u'', u'0', u'1', u'2'])
      f.cols['trips'] = list(f.cols['trips']) + ['trip_type']
    path = os.path.join(d, 'f.zip')
    render.write_zip(render.files(f, render.random_style(rng)), path)
    schedule, rec = recorder.load(path, extra_validation=False, memory_db=rng.chance(0.5))
    errors = [e for e in rec.entries if e.type == recorder.ERROR]
    what = u'case %d' % i
    if errors:
      ctx.errors.append(u'%s: feed has errors %r' % (what, [e.text() for e in errors][:3]))
      return
    m = Feed(f)
    m.dates = []
    for s in m.services.values():
      a, b = s.range()
      if a is not None:
        m.dates += [a, b, a + datetime.timedelta(days=rng.randint(0, (b - a).days))]
      m.dates += list(s.exc)
    m.dates = sorted(set(m.dates))
    srv = STATE['server']
    srv.schedule = schedule
    srv.key, srv.host, srv.feed_path = 'key', 'host', path
    base = os.path.join(d, 'web')
    STATE['base'] = os.path.abspath(base)
    srv.file_dir = os.path.join(base, 'files')
    os.makedirs(os.path.join(srv.file_dir, 'sub'))
    files = {}
    for name in ('index.html', 'style.css', 'mm_20_blue.png', 'a-b.txt', 'svgcheck.vbs'):
      files[name] = ''.join(chr(rng.randint(0, 255)) for _ in range(rng.pick([0, 1, 100, 3000])))
      if name == 'index.html':
        files[name] = ('<title>[agency]</title>\n[min_lat] [min_lon] [max_lat] [max_lon]\n[key]\n[host]\n'
                       '[forbid_editing]\n')
      g = open(os.path.join(srv.file_dir, name), 'wb')
      g.write(files[name])
      g.close()
    for name in ('secret.txt', 'files/.hidden.txt'):
      g = open(os.path.join(base, name), 'wb')
      g.write(SECRET)
      g.close()
    ctx.seen(repr(sorted(m.sts.items()))[:20000])
    todo = [query_routes] + [rng.pick(QUERIES) for _ in range(32)]
    for q in todo:
      q(ctx, rng, m, what)
      if rng.chance(0.15):
        malformed(ctx, rng, m, what)
      if rng.chance(0.1):
        static(ctx, rng, files, what)
      if len(ctx.violations) > 20:
        break
    home(ctx, m, schedule, what)
    query_routes(ctx, rng, m, what)
  finally:
    shutil.rmtree(d, True)
