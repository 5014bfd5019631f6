# -*- coding: utf-8 -*-
"""C36: the shape importer gives trips the shapes that fit them."""
import itertools
import math
import os
import runpy
import shutil
import sys
import types

from harness import canon, feedgen, geo, merges, render
from harness.core import u

CASES = {'quick': 260, 'thorough': 9000}
RULE = ('a case is one feed with trips in regions of their own, each with lines or pieces of lines that fit, nearly fit '
        'or do not fit, run through the tool with a stand-in for ogr; distinct by the situations and options')
MINIMUM = {'backwards line': 24, 'backwards piece': 21, 'calls refused': 1, 'columns shown': 1,
           'extra shapes': 100, 'features named by columns': 94, 'features named by number': 16,
           'features that share names': 36, 'lines in another order': 40, 'features twice': 37,
           'feeds with shapes of such names': 44, 'no line fits': 25, 'nothing near': 55,
           'pieces: far': 1, 'pieces: gap': 1, 'pieces: joined': 22, 'pieces: missing': 1,
           'trips left alone': 230, 'trips matched': 320, 'whole line': 110}
ASSUMPTIONS = ['ogr is not installed: a stand-in with the functions the tool calls delivers the layers',
               'fits closer than 2 metres to the limit or to each other are not generated']

R = 6371010.0


# --- the stand-in for ogr ---------------------------------------------------------------

class Geometry(object):
  def __init__(self, points):
    self.points = points

  def GetPointCount(self):
    return len(self.points)

  def GetX(self, i):
    return self.points[i][1]

  def GetY(self, i):
    return self.points[i][0]


class FieldDefn(object):
  def __init__(self, name):
    self.name = name

  def GetName(self):
    return self.name


class Feature(object):
  """A feature with fields [(name, value)] and points [(lat, lon)]."""

  def __init__(self, fields, points):
    self.fields = fields
    self.points = points

  def GetGeometryRef(self):
    return Geometry(self.points)

  def GetField(self, name):
    if isinstance(name, int):
      return self.fields[name][1]
    for n, v in self.fields:
      if n == name:
        return v
    raise ValueError('Invalid field name: %r' % name)

  def GetFieldCount(self):
    return len(self.fields)

  def GetFieldDefnRef(self, i):
    return FieldDefn(self.fields[i][0])

  def GetFieldAsString(self, i):
    return str(self.fields[i][1])


class Layer(object):
  def __init__(self, features):
    self.features = features

  def __len__(self):
    return len(self.features)

  def GetFeatureCount(self):
    return len(self.features)

  def GetFeature(self, i):
    return self.features[i]


class Source(object):
  def __init__(self, features):
    self.layer = Layer(features)

  def GetLayer(self, i=0):
    if i != 0:
      raise ValueError('layer %r' % i)
    return self.layer

  def GetLayerCount(self):
    return 1


def stand_in(layers):
  """A module ogr that knows the files of layers: path -> features."""
  ogr = types.ModuleType('ogr')
  ogr.Open = lambda path, *args: Source(layers[path]) if path in layers else None
  return ogr


class Terminal(object):
  def __init__(self):
    self.text = ''

  def write(self, x):
    self.text += x.encode('utf-8') if isinstance(x, unicode) else x

  def flush(self):
    pass


def run(ctx, d, args, layers):
  old = sys.argv, sys.stdout, sys.stderr, os.getcwd()
  had = sys.modules.get('ogr')
  sys.modules['ogr'] = stand_in(layers)
  sys.argv = ['shape_importer.py'] + args
  sys.stdout, sys.stderr = Terminal(), Terminal()
  os.chdir(d)
  code = None
  try:
    try:
      runpy.run_path(os.path.join(ctx.repo, 'shape_importer.py'), run_name='__main__')
    except SystemExit as e:
      code = e.code
    return code, u(sys.stdout.text) + u(sys.stderr.text)
  finally:
    sys.argv, sys.stdout, sys.stderr = old[:3]
    os.chdir(old[3])
    if had is None:
      del sys.modules['ogr']
    else:
      sys.modules['ogr'] = had


# --- distances --------------------------------------------------------------------------

def vec(p):
  return tuple(x * R for x in geo.vec(*p))


def sub(a, b):
  return (a[0] - b[0], a[1] - b[1], a[2] - b[2])


def dot(a, b):
  return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def metres(a, b):
  v = sub(vec(a), vec(b))
  return math.sqrt(dot(v, v))


def from_line(p, line):
  """Metres from a point to a line of points (chords instead of arcs; lines are cut into short pieces)."""
  p = vec(p)
  best = None
  for a, b in zip(line, line[1:]):
    a, b = vec(a), vec(b)
    d = sub(b, a)
    n = dot(d, d)
    t = 0 if n == 0 else max(0.0, min(1.0, dot(sub(p, a), d) / n))
    w = sub(p, (a[0] + t * d[0], a[1] + t * d[1], a[2] + t * d[2]))
    best = min(x for x in (best, math.sqrt(dot(w, w))) if x is not None)
  return best


def score(stops, line):
  return max(from_line(s, line) for s in stops)


def length(line):
  return sum(metres(a, b) for a, b in zip(line, line[1:]))


# --- regions ----------------------------------------------------------------------------

class Region(object):
  """Stops about a kilometre apart on a wavy line eastwards, and positions relative to it."""

  def __init__(self, rng, k):
    self.rng = rng
    # Far from the feeds of feedgen, and from each other
    self.lat = rng.uniform(-20, 20)
    self.lon = -170 + 3.0 * k + rng.uniform(0, 1)
    self.way = []
    x, y = 0.0, 0.0
    for _ in range(rng.pick([2, 2, 3, 4, 6])):
      self.way.append((x, y))
      x += rng.uniform(900, 1600)
      y += rng.uniform(-300, 300)
    self.stops = [self.at(*p) for p in self.way]

  def at(self, x, y):
    lat, lon = geo.offset(self.lat, self.lon, y, x)
    return (round(lat, 7), round(lon, 7))

  def near(self, k, lo, hi):
    """A position between lo and hi metres from stop k, sidewards."""
    x, y = self.way[k]
    a = self.rng.uniform(math.pi / 3, 2 * math.pi / 3) * self.rng.pick([1, -1])
    r = self.rng.uniform(lo, hi)
    return self.at(x + r * math.cos(a), y + r * math.sin(a))

  def between(self, k, t, off=0):
    (x0, y0), (x1, y1) = self.way[k], self.way[k + 1]
    return self.at(x0 + t * (x1 - x0), y0 + t * (y1 - y0) + off)

  def line(self, offs):
    """A line that keeps (lo, hi) metres from each stop."""
    out = []
    for k, (lo, hi) in enumerate(offs):
      out.append(self.near(k, lo, hi))
      if k + 1 < len(offs):
        for t in sorted(self.rng.uniform(0.2, 0.8) for _ in range(self.rng.randint(0, 3))):
          out.append(self.between(k, t, self.rng.uniform(-60, 60)))
    return out


def disordered(rng, reg, limit):
  """A line that passes all stops, but two of them in the other order, far from them in between."""
  n = len(reg.way)
  j = rng.randint(1, n - 3)
  side = rng.pick([1000, -1000])
  out = []
  for k in range(j):
    out.append(reg.near(k, 0, limit * 0.3))
  for k, off in ((j, side), (j + 1, 0), (j, 0), (j + 1, -side)):
    x, y = reg.way[k]
    out.append(reg.at(x, y + off) if off else reg.near(k, 0, limit * 0.3))
  for k in range(j + 2, n):
    out.append(reg.near(k, 0, limit * 0.3))
  return out


def whole(ctx, rng, reg, limit):
  """Lines along the whole of the region: (lines, the one that fits best or None)."""
  n = len(reg.way)
  lines = []
  for _ in range(rng.randint(1, 3)):
    offs = [(0, limit * 0.9)] * n
    how = rng.pick(['fits', 'fits', 'tight', 'far middle', 'far end', 'far start'])
    if how == 'tight':
      offs = [(0, 20)] * n
    elif how == 'far middle' and n > 2:
      offs[rng.randint(1, n - 2)] = (limit * 1.3, limit * 2.5)
    elif how == 'far end':
      offs[-1] = (limit * 1.3, limit * 2)
    elif how == 'far start':
      offs[0] = (limit * 1.3, limit * 2)
    lines.append(reg.line(offs))
  scored = []
  for line in lines:
    ends = metres(line[0], reg.stops[0]), metres(line[-1], reg.stops[-1])
    if any(abs(x - limit) < 2 for x in ends):
      return None
    if max(ends) < limit:
      scored.append((score(reg.stops, line), line))
  scored.sort()
  if n > 3 and rng.chance(0.6):
    lines.append(disordered(rng, reg, limit))
    ctx.count('lines in another order')
  if not scored:
    # Only the ends of lines are nodes; two stops alone could be joined by other means
    return (lines, None) if n > 2 else None
  if any(abs(s - limit) < 2 for s, _ in scored) or any(b[0] - a[0] < 2 for a, b in zip(scored, scored[1:])):
    return None
  return lines, scored[0][1] if scored[0][0] < limit else None


def pieces(rng, reg, limit):
  """Pieces of lines between consecutive stops: (lines, the joined line or None, what)."""
  n = len(reg.way)
  nodes = [reg.near(k, 0, limit * 0.8) for k in range(n)]
  lines, best = [], [nodes[0]]
  what = rng.pick(['joined', 'joined', 'joined', 'gap', 'missing', 'far'])
  if n == 2 and what == 'gap':
    what = 'joined'
  broken = rng.randint(0, n - 2)
  for k in range(n - 1):
    a, b = nodes[k], nodes[k + 1]
    options = []
    for _ in range(rng.pick([1, 1, 2, 3])):
      mid = [reg.between(k, t, rng.uniform(-250, 250))
             for t in sorted(rng.uniform(0.1, 0.9) for _ in range(rng.randint(0, 3)))]
      options.append([a] + mid + [b])
    if rng.chance(0.3):
      # in two pieces
      c = reg.between(k, rng.uniform(0.4, 0.6), rng.uniform(-300, 300))
      options.append([a, c, b])
    if what == 'missing' and k == broken:
      continue
    options.sort(key=length)
    if any(length(y) - length(x) < 5 for x, y in zip(options, options[1:])):
      return None
    best += options[0][1:]
    for o in options:
      parts = [o]
      if len(o) > 2 and rng.chance(0.4):
        cut = rng.randint(1, len(o) - 2)
        if metres(o[cut], reg.stops[k]) > 1.2 * limit and metres(o[cut], reg.stops[k + 1]) > 1.2 * limit:
          parts = [o[:cut + 1], o[cut:]]
      if what == 'gap' and k == broken + 1:
        # Starts beside the end of the piece before
        parts[0] = [reg.near(k, 0, limit * 0.8)] + parts[0][1:]
      elif what == 'far' and k == broken:
        parts = [[reg.near(k, limit * 1.4, limit * 2)] + parts[0][1:]] + parts[1:]
      for p in parts:
        lines.append(p[::-1] if rng.chance(0.4) else p)
  if what == 'gap' and broken + 1 >= n - 1:
    what = 'joined'
  if what == 'joined':
    # A piece in the other direction or of another way must not run all the way
    return lines, best, what
  if n == 2 or (what == 'far' and broken > 0):
    return None
  return lines, None, what


def situation(ctx, rng, reg, limit):
  """(lines, line expected or None, what)"""
  n = len(reg.way)
  while True:
    how = rng.pick(['whole', 'whole', 'whole', 'pieces', 'pieces', 'backwards', 'nothing'])
    if how == 'whole':
      r = whole(ctx, rng, reg, limit)
      if r:
        return r[0], r[1], 'whole line' if r[1] else 'no line fits'
    elif how == 'pieces':
      r = pieces(rng, reg, limit)
      if r:
        if r[1] and n == 2:
          # Pieces that run from stop to stop are lines as well: only judged when there is one
          if len(r[0]) > 1 or r[0][0][0] != r[1][0]:
            continue
        return r[0], r[1], 'pieces: ' + r[2]
    elif how == 'backwards':
      line = reg.line([(0, limit * 0.8)] * n)[::-1]
      if n == 2:
        return [line], line[::-1], 'backwards piece'
      return [line], None, 'backwards line'
    else:
      return [], None, 'nothing near'


def base(rng):
  """A feed whose own trips are far from all lines."""
  return feedgen.generate(rng, trips=(1, rng.pick([1, 4])), routes=(1, 2))


def patterns(m):
  """route -> set of patterns, trip -> pattern"""
  seqs = dict((t['trip_id'], []) for t in m.table('trips'))
  for r in m.table('stop_times'):
    seqs[r['trip_id']].append((int(r['stop_sequence']), r['stop_id']))
  of = dict((k, tuple(x[1] for x in sorted(v))) for k, v in seqs.items())
  return len(set((t['route_id'], of[t['trip_id']]) for t in m.table('trips'))), of


def add_trips(rng, m, reg, k, shapes):
  """A pattern at the region's stops; returns its trips."""
  ids = []
  for i, (lat, lon) in enumerate(reg.stops):
    sid = u'region %d s%d' % (k, i)
    m.add('stops', stop_id=sid, stop_name=u'Region %d stop %d%s' % (k, i, rng.pick([u'', u' Zürich', u' 中'])),
          stop_lat=u'%.7f' % lat, stop_lon=u'%.7f' % lon)
    ids.append(sid)
  routes = m.ids('routes', 'route_id')
  route = rng.pick(routes)
  if rng.chance(0.4):
    r = dict(rng.pick(m.table('routes')), route_id=u'region %d' % k, route_short_name=u'R%d' % k,
             route_long_name=u'Region %d' % k, route_type=u'3')
    m.rows['routes'].append(r)
    route = r['route_id']
  services = sorted(set(m.ids('calendar', 'service_id')) | set(m.ids('calendar_dates', 'service_id')))
  trips = []
  for i in range(rng.randint(1, 3)):
    tid = u'region %d t%d' % (k, i)
    m.add('trips', route_id=route, service_id=rng.pick(services), trip_id=tid,
          shape_id=rng.pick(shapes) if shapes and rng.chance(0.3) else u'')
    at = rng.randint(20000, 60000) + 7 * i
    for j, sid in enumerate(ids):
      m.add('stop_times', trip_id=tid, arrival_time=feedgen.hms(at), departure_time=feedgen.hms(at), stop_id=sid,
            stop_sequence=unicode(j + 1))
      at += rng.randint(120, 300)
    trips.append(tid)
  return trips


def fields(rng, counter):
  n = next(counter)
  return [('ID', n), ('LINE', 'line%d' % n), ('NAME', rng.pick(['Bahn', 'Z\xc3\xbcrich', ''])),
          ('LENGTH', n * 1.5), ('NONE', None)]


def same_line(got, want):
  return len(got) == len(want) and all(abs(a[0] - b[0]) < 2e-6 and abs(a[1] - b[1]) < 2e-6
                                       for a, b in zip(got, want))


def distinct(features):
  """No two lines run along each other."""
  lines = []
  for f in features:
    if f.points not in lines:
      lines.append(f.points)
  return all(score(a, b) > 15 for a in lines for b in lines if a is not b)


def importing(ctx, rng):
  m = base(rng)
  limit = rng.pick([150, 150, 100, 60, 250])
  shapes = sorted(set(m.ids('shapes', 'shape_id')))
  if rng.chance(0.5):
    # Shapes the feed has already, perhaps of the names the tool gives
    for name in rng.pick([[u'shape_1'], [u'shape_2', u'shape_3'], [u'own'], [u'shape_2', u'own']]):
      for i in range(rng.randint(2, 4)):
        m.add('shapes', shape_id=name, shape_pt_lat=u'%.6f' % (60 + i * 0.01), shape_pt_lon=u'100.5',
              shape_pt_sequence=unicode(i))
      shapes.append(name)
  own = [s for s in shapes if s in (u'shape_1', u'shape_2', u'shape_3', u'own')]
  wanted = {}
  lines = []
  whats = []
  for k in range(rng.randint(1, 4)):
    reg = Region(rng, k)
    ls, line, what = situation(ctx, rng, reg, limit)
    lines += ls
    whats.append(what)
    for t in add_trips(rng, m, reg, k, []):
      wanted[t] = line
    for t in m.table('trips'):
      if t['trip_id'] in wanted and own and rng.chance(0.2):
        t['shape_id'] = rng.pick(own)
  m.finish_columns(rng)
  count, of = patterns(m)
  # The lines go to files, or to extra shapes
  counter = itertools.count(1)
  rng.shuffle(lines)
  names = ['a.shp', 'lines \xc3\xa4.shp', 'b.shp'][:rng.randint(1, 3)]
  layers = dict((n, []) for n in names)
  extra = []
  for line in lines:
    if rng.chance(0.2):
      extra.append(line)
    else:
      feature = Feature(fields(rng, counter), line)
      layers[rng.pick(names)].append(feature)
      if rng.chance(0.1):
        layers[rng.pick(names)].append(feature)
        ctx.count('features twice')
  d = ctx.tmpdir()
  try:
    src = 'in.zip'
    if rng.chance(0.2):
      src = 'in'
      render.write_dir(render.files(m), os.path.join(d, src))
    else:
      render.write_zip(render.files(m), os.path.join(d, src))
    before = snapshot(d)
    args = ['--source_gtfs=' + src, rng.pick(['--dest_gtfs=out.zip', '--dest_gtfs=out.feed'])]
    out = args[1].split('=')[1]
    if limit != 150 or rng.chance(0.5):
      args.append('--max_distance=%d' % limit)
    key = rng.pick([None, None, 'ID', 'LINE', 'NAME,ID', 'LENGTH,LINE', 'NONE,ID'])
    if rng.chance(0.4) and distinct(sum(layers.values(), [])):
      key = 'NAME'
      ctx.count('features that share names')
    if key:
      args.append('--keycols=' + key)
      ctx.count('features named by columns')
    else:
      ctx.count('features named by number')
    if extra:
      rows = []
      for n, line in enumerate(extra):
        for i, (lat, lon) in enumerate(line):
          rows.append('x%d,%.9f,%.9f,%d' % (n, lat, lon, i * 3))
      if rng.chance(0.5):
        rng.shuffle(rows)
      f = open(os.path.join(d, 'more.txt'), 'wb')
      f.write('shape_id,shape_pt_lat,shape_pt_lon,shape_pt_sequence\n' + '\n'.join(rows) + '\n')
      f.close()
      before = snapshot(d)
      args.append('--extra_shapes=more.txt')
      ctx.count('extra shapes', len(extra))
    if rng.chance(0.3):
      args.append('--verbosity=%d' % rng.randint(1, 3))
    args = rng.shuffled(args) + names
    code, said = run(ctx, d, args, layers)
    where = u'%r (%s)' % (args, u', '.join(whats))
    ctx.check(code in (None, 0), u'%s: ends with %r: %s', where, code, said[-600:])
    after = snapshot(d)
    ctx.check(all(after.get(n) == x for n, x in before.items()), u'%s: an input is changed', where)
    ctx.check(sorted(set(after) - set(before)) == [out], u'%s: the files written are %r', where,
              sorted(set(after) - set(before)))
    if out not in after:
      return
    w = merges.written(os.path.join(d, out))
  finally:
    shutil.rmtree(d)
  # The trips' shapes
  got = canon.of_feed(w)
  want = canon.of_feed(m)
  old = set(want['shapes'])
  by_pattern = {}
  for t, line in sorted(wanted.items()):
    sid = got['trips'].get(t, {}).get('shape_id')
    if line is None:
      ctx.check(sid == want['trips'][t].get('shape_id'), u'%s: trip %r has shape %r now, nothing fits', where, t, sid)
      ctx.count('trips left alone')
      continue
    ctx.count('trips matched')
    ctx.check(sid is not None and sid not in old, u'%s: trip %r has shape %r, a new one is expected', where, t, sid)
    points = [p[:2] for p in got['shapes'].get(sid, [])]
    ctx.check(same_line(points, line), u'%s: trip %r has the shape %r, expected %r', where, t, points, line)
    by_pattern.setdefault(of[t], set()).add(sid)
    if sid is not None:
      want['trips'][t]['shape_id'] = sid
  for p, sids in by_pattern.items():
    ctx.check(len(sids) == 1, u'%s: the trips of a pattern have the shapes %r', where, sorted(sids, key=repr))
  news = set(got['shapes']) - old
  ctx.check(len(news) == len(by_pattern), u'%s: %d new shapes for %d patterns', where, len(news), len(by_pattern))
  ctx.check(u'Matched %d shapes out of %d patterns' % (len(by_pattern), count) in said,
            u'%s: says %r, expected %d of %d', where, said[-200:], len(by_pattern), count)
  for sid in news:
    got['shapes'].pop(sid)
  for line in canon.diff(got, want):
    ctx.fail(u'%s: besides the shapes: %s' % (where, line))
  for x in whats:
    ctx.count(x)
  if [s for s in old if s.startswith(u'shape_')]:
    ctx.count('feeds with shapes of such names')
  ctx.seen((tuple(sorted(whats)), limit, key, len(extra), tuple(len(x.points) for x in sum(layers.values(), []))))
  ctx.sample(where)


def snapshot(d):
  out = {}
  for b, _, names in os.walk(d):
    for name in names:
      p = os.path.join(b, name)
      f = open(p, 'rb')
      out[os.path.relpath(p, d)] = f.read()
      f.close()
  return out


def columns(ctx, rng):
  """--print_columns, and calls without what is needed."""
  d = ctx.tmpdir()
  try:
    counter = itertools.count(1)
    layers = {'a.shp': [Feature(rng.sub(fields(rng, counter), 0.8), [(1, 2), (1, 3)]) for _ in range(rng.randint(1, 3))]}
    args = ['--print_columns', '--source_gtfs=x.zip', '--dest_gtfs=y.zip', 'a.shp']
    if rng.chance(0.5):
      code, said = run(ctx, d, args, layers)
      ctx.check(code in (None, 0), u'%r ends with %r', args, code)
      for name, value in layers['a.shp'][0].fields:
        ctx.check(u'%s: %s' % (name, u(str(value))) in said, u'%r does not show %r: %r', args, name, said)
      ctx.count('columns shown')
    else:
      drop = rng.pick(args[1:])
      args.remove(drop)
      code, said = run(ctx, d, args, layers)
      ctx.check(code not in (None, 0), u'%r is accepted: %r', args, said)
      ctx.count('calls refused')
    ctx.check(not os.listdir(d), u'%r writes %r', args, os.listdir(d))
  finally:
    shutil.rmtree(d)
  ctx.seen((tuple(args), tuple(x for x, _ in layers['a.shp'][0].fields)))


def run_case(ctx, rng, i):
  if i % 20 == 19:
    columns(ctx, rng)
  else:
    importing(ctx, rng)
