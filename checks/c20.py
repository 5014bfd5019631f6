# -*- coding: utf-8 -*-
"""C20: polyline geometry and graph search."""
import math
import StringIO
import sys

from transitfeed import shapelib, util

from harness import geo

CASES = {'quick': 5000, 'thorough': 90000}
RULE = ('a case is one set of points and polylines with all geometry operations checked, or one '
        'polyline graph searched between all kinds of node pairs and along sequences of points; '
        'distinct by the coordinates')
MINIMUM = {'lines measured while they grow': 500, 'closest points of polylines': 2200, 'closest points of segments': 680,
           'closest points: end': 380, 'closest points: inside': 300,
           'coordinates converted': 3400, 'cross products': 2700, 'cuts': 2200, 'distances': 2000,
           'duplicate names refused': 1, 'end point queries': 2000, 'graph edges': 5300,
           'graph nodes': 3700, 'greedy matches': 540, 'joined polylines': 1400, 'long chains': 1,
           'paths missing': 1400, 'paths of several polylines': 1900, 'paths searched': 5600,
           'polylines collected': 1400, 'polylines found': 2300, 'sequences searched': 1200,
           'sequences with a far point': 130, 'sequences with a path': 810,
           'sequences with pruned paths': 53, 'sequences without a path': 290,
           'variants added': 160}
ASSUMPTIONS = ['distances are judged to 1e-6 relative and 1 mm; ties within that are not judged',
               'paths from a node to itself are not judged']
RADIUS = 6371010.0
Point, Poly = shapelib.Point, shapelib.Poly


def vec(p):
  return (p.x, p.y, p.z)


def sub(a, b):
  return (a[0] - b[0], a[1] - b[1], a[2] - b[2])


def add(a, b):
  return (a[0] + b[0], a[1] + b[1], a[2] + b[2])


def dot(a, b):
  return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def mul(a, k):
  return (a[0] * k, a[1] * k, a[2] * k)


def cross(a, b):
  return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


def norm(a):
  return math.sqrt(dot(a, a))


def dist(a, b):
  """Metres between unit vectors, by the chord (another formula than the code's)."""
  c = norm(sub(a, b)) / 2.0
  if c < 0.9:
    return RADIUS * 2.0 * math.asin(c)
  return RADIUS * 2.0 * math.atan2(c, norm(add(a, b)) / 2.0)


def length(vs):
  return sum(dist(a, b) for a, b in zip(vs, vs[1:]))


def close(a, b, rel=1e-6, tol=1e-3):
  return abs(a - b) <= tol + rel * max(abs(a), abs(b))


def slerp(a, b, t):
  c = add(mul(a, 1.0 - t), mul(b, t))
  n = norm(c)
  return mul(c, 1.0 / n) if n > 1e-9 else a


def nearest(x, a, b):
  """(distance, point) of the point of segment ab nearest to x, by ternary search
  around the best of a coarse sampling by angle."""
  n = 32
  ts = [k / float(n) for k in range(n + 1)]
  ds = [dist(x, slerp(a, b, t)) for t in ts]
  k = min(range(n + 1), key=lambda j: ds[j])
  lo, hi = ts[max(0, k - 1)], ts[min(n, k + 1)]
  for _ in range(70):
    m1, m2 = lo + (hi - lo) / 3.0, hi - (hi - lo) / 3.0
    if dist(x, slerp(a, b, m1)) <= dist(x, slerp(a, b, m2)):
      hi = m2
    else:
      lo = m1
  best = min([a, b, slerp(a, b, (lo + hi) / 2.0)], key=lambda q: dist(x, q))
  return dist(x, best), best


def quiet(call):
  """Run call() without its messages on stdout."""
  old = sys.stdout
  sys.stdout = StringIO.StringIO()
  try:
    return call()
  finally:
    sys.stdout = old


class Place(object):
  """Random coordinates: in a town, on a continent, or anywhere."""

  def __init__(self, rng):
    self.rng = rng
    self.kind = rng.pick(['town', 'town', 'street', 'continent', 'globe', 'grid', 'edge'])
    self.lat = rng.uniform(-80, 80)
    self.lon = rng.uniform(-180, 180)
    if self.kind == 'edge':
      self.lat, self.lon = rng.pick([(0.0, 0.0), (0.0, 180.0), (89.99, 10.0), (-89.99, 0.0),
                                     (50.0, -180.0), (0.0, 90.0), (90.0, 0.0)])

  def latlon(self):
    r = self.rng
    if self.kind == 'globe':
      return math.degrees(math.asin(r.uniform(-1, 1))), r.uniform(-180, 180)
    if self.kind == 'grid':
      return float(r.randint(-3, 3) * 15), float(r.randint(-3, 3) * 15)
    size = {'town': 0.1, 'street': 0.002, 'continent': 10.0, 'edge': 0.05}[self.kind]
    lat = self.lat + r.uniform(-size, size)
    lon = self.lon + r.uniform(-size, size)
    if lat > 90:
      lat = 180 - lat
    if lat < -90:
      lat = -180 - lat
    return lat, lon

  def point(self):
    return Point.FromLatLng(*self.latlon())


def points_case(ctx, rng, i):
  place = Place(rng)
  what = u'case %d (%s)' % (i, place.kind)
  ll = [place.latlon() for _ in range(rng.randint(3, 7))]
  pts = [Point.FromLatLng(*x) for x in ll]
  for (lat, lon), p in zip(ll, pts):
    v = geo.vec(lat, lon)
    ctx.check(norm(sub(vec(p), v)) < 1e-12 and p.IsUnitLength(), what + u': FromLatLng(%r, %r)' % (lat, lon))
    back = p.ToLatLng()
    ctx.count('coordinates converted')
    if not ctx.check(abs(back[0] - lat) < 1e-9 and
                     (abs(lat) > 89.999999 or abs((back[1] - lon + 180) % 360 - 180) < 1e-6),
                     what + u': ToLatLng gives %r for %r, %r' % (back, lat, lon)):
      return
  a, b, c = pts[0], pts[1], pts[2]
  A, B, C = vec(a), vec(b), vec(c)
  k = rng.uniform(-3, 3)
  for got, want, name in ((vec(a.Plus(b)), add(A, B), u'Plus'), (vec(a.Minus(b)), sub(A, B), u'Minus'),
                          (vec(a.Times(k)), mul(A, k), u'Times'),
                          (vec(a.CrossProd(b)), cross(A, B), u'CrossProd'),
                          ((a.DotProd(b), 0, 0), (dot(A, B), 0, 0), u'DotProd'),
                          ((a.Plus(b).Norm2(), 0, 0), (norm(add(A, B)), 0, 0), u'Norm2'),
                          (vec(a.Times(2.5).Normalize()), A, u'Normalize')):
    ctx.check(norm(sub(got, want)) < 1e-12, what + u': %s of %r and %r is %r' % (name, A, B, got))
  for p, q in ((a, b), (a, a), (b, c), (a, Point.FromLatLng(ll[0][0] + 1e-10, ll[0][1]))):
    x = vec(p.RobustCrossProd(q))
    ctx.check(abs(norm(x) - 1) < 1e-9 and abs(dot(x, vec(p))) < 1e-6,
              what + u': RobustCrossProd of %r and %r is %r' % (vec(p), vec(q), x))
    ctx.count('cross products')
    if dist(vec(p), vec(q)) > 1e3 and dist(vec(p), vec(q)) < 19e6:
      n = cross(vec(p), vec(q))
      ctx.check(norm(sub(x, mul(n, 1 / norm(n)))) < 1e-6, what + u': RobustCrossProd direction')
  for p in pts:
    o = vec(p.Ortho())
    ctx.check(abs(norm(o) - 1) < 1e-9 and abs(dot(o, vec(p))) < 1e-9, what + u': Ortho of %r' % (vec(p),))
  for p, q, m, n in ((a, b, ll[0], ll[1]), (b, c, ll[1], ll[2]), (a, a, ll[0], ll[0])):
    d = p.GetDistanceMeters(q)
    ctx.count('distances')
    ctx.check(close(d, dist(vec(p), vec(q))), what + u': distance of %r and %r is %r' % (m, n, d))
    ctx.check(close(d, q.GetDistanceMeters(p)), what + u': distance is symmetric')
    e = util.ApproximateDistance(m[0], m[1], n[0], n[1])
    ctx.check(close(e, geo.dist(m[0], m[1], n[0], n[1])), what + u': ApproximateDistance of %r and %r is %r' % (m, n, e))
    ctx.equal(bool(p.Equals(q)), max(abs(g) for g in sub(vec(p), vec(q))) < 1e-11, what + u': Equals')
    ctx.equal(p == q, vec(p) == vec(q), what + u': ==')
  x = pts[-1]
  if dist(A, B) < 19e6:
    got = vec(shapelib.GetClosestPoint(x, a, b))
    want, at = nearest(vec(x), A, B)
    on = nearest(got, A, B)[0]
    ctx.count('closest points of segments')
    ctx.check(on < 0.01 and close(dist(vec(x), got), want, tol=0.01),
              what + u': closest point of %r to %r is %r, %.3f m away and %.3f m off; %.3f m is possible'
              % (ll[:2], ll[-1], got, dist(vec(x), got), on, want))
    inside = dist(at, A) > 1 and dist(at, B) > 1
    ctx.count('closest points: ' + ('inside' if inside else 'end'))


def near_all(x, vs):
  """[(distance, segment, point)] of the segments of vs."""
  return [nearest(x, a, b) + (k,) for k, (a, b) in enumerate(zip(vs, vs[1:]))]


def polys_case(ctx, rng, i):
  place = Place(rng)
  while place.kind == 'globe':
    place = Place(rng)
  what = u'case %d (%s)' % (i, place.kind)
  n = rng.randint(1, 7)
  pts = [place.point() for _ in range(n)]
  if n > 2 and rng.chance(0.2):
    pts[rng.randint(1, n - 1)] = pts[rng.randint(0, n - 2)]
  name = rng.pick([None, 'one', u'zw\xf6lf'.encode('utf-8'), ''])
  poly = Poly(pts, name)
  vs = [vec(p) for p in pts]
  if rng.chance(0.5):
    poly = Poly(pts[:1], name)
    for k, p in enumerate(pts[1:], 1):
      if rng.chance(0.5):
        # what is asked of a line that is not yet complete
        ctx.count('lines measured while they grow')
        ctx.check(close(poly.LengthMeters(), length(vs[:k])), what + u': LengthMeters of the first %d points' % k)
        ctx.equal([vec(x) for x in poly.Reversed().GetPoints()], vs[:k][::-1],
                  what + u': Reversed of the first %d points' % k)
        X = place.point()
        ctx.check(close(dist(vec(X), vec(poly.GetClosestPoint(X)[0])), min(
            [f[0] for f in near_all(vec(X), vs[:k])] or [dist(vec(X), vs[0])]), tol=0.01),
                  what + u': closest point of the first %d points' % k)
      poly.AddPoint(p)
  ctx.equal([vec(p) for p in poly.GetPoints()], vs, what + u': GetPoints')
  ctx.equal(poly.GetNumPoints(), n, what + u': GetNumPoints')
  ctx.equal(vec(poly.GetPoint(-1)), vs[-1], what + u': GetPoint')
  ctx.check(close(poly.LengthMeters(), length(vs)), what + u': LengthMeters is %r, expected %r' %
            (poly.LengthMeters(), length(vs)))
  back = poly.Reversed()
  ctx.equal(([vec(p) for p in back.GetPoints()], back.GetName()), (vs[::-1], name), what + u': Reversed')
  ctx.equal([vec(p) for p in poly.GetPoints()], vs, what + u': GetPoints after Reversed')
  for _ in range(4):
    if rng.chance(0.25):
      x = rng.pick(pts)
    elif rng.chance(0.3) and n > 1:
      k = rng.randint(0, n - 2)
      x = Point(*slerp(vs[k], vs[k + 1], rng.random())).Normalize()
    else:
      x = place.point()
    X = vec(x)
    found = near_all(X, vs)
    want = min(f[0] for f in found) if found else dist(X, vs[0])
    q, k = poly.GetClosestPoint(x)
    Q = vec(q)
    ctx.count('closest points of polylines')
    ctx.check(close(dist(X, Q), want, tol=0.01), what + u': closest point is %.3f m away, expected %.3f'
              % (dist(X, Q), want))
    ctx.check(0 <= k < max(1, n - 1), what + u': closest index %r of %d points' % (k, n))
    off = nearest(Q, vs[k], vs[k + 1])[0] if n > 1 else dist(Q, vs[0])
    ctx.check(off < 0.01, what + u': closest point is %.3f m off segment %d' % (off, k))
    one, two = poly.CutAtClosestPoint(x)
    one, two = [vec(p) for p in one.GetPoints()], [vec(p) for p in two.GetPoints()]
    ctx.count('cuts')
    ctx.check(bool(two) and close(dist(two[0], X), want, tol=0.01), what + u': second part starts at closest point')
    ctx.equal(one + two[1:], vs, what + u': points of both parts of the cut')
    ctx.check(close(length(one) + (dist(one[-1], two[0]) if one else 0) + length(two), length(vs), tol=0.02),
              what + u': length of both parts of the cut')
    ctx.equal([vec(p) for p in poly.GetPoints()], vs, what + u': GetPoints after a cut')
  # greedy matching, judged where every choice is clear
  other = [place.point() for _ in range(rng.randint(1, 4))]
  if rng.chance(0.5):
    other = rng.sub(pts, 0.6) or pts[:1]
  rest, radius, clear = list(vs), 0.0, True
  for p in other:
    P = vec(p)
    found = sorted(near_all(P, rest))
    if not found:
      q, k = rest[0], 0
    else:
      d, q, k = found[0]
      if any(abs(f[0] - d) < 0.1 and dist(f[1], q) > 1e-5 for f in found[1:]):
        clear = False
      if len(found) > 1 and any(dist(f[1], q) <= 1e-5 and f[2] != k for f in found[1:]):
        same = [f[2] for f in found if dist(f[1], q) <= 1e-5]
        k = min(same)
        if max(same) > k + 1:
          clear = False      # the line passes the place twice
    radius = max(radius, dist(P, q))
    rest = [q] + rest[k + 1:]
  if clear:
    ctx.count('greedy matches')
    got = Poly(other).GreedyPolyMatchDist(poly)
    ctx.check(close(got, radius, tol=0.05), what + u': GreedyPolyMatchDist is %r, expected %r' % (got, radius))
  # joining
  parts, names, threshold = [], [], rng.pick([None, 0, 10, 500, 1e5])
  last = None
  for _ in range(rng.randint(0, 5)):
    part = [place.latlon() for _ in range(rng.pick([0, 1, 1, 2, 3, 4]))]
    if part and last and rng.chance(0.6):
      d = rng.pick([0.0, 0.0, 3.0, 9.0, 11.0, 400.0])
      lat = last[0] + math.degrees(d / RADIUS) * (1 if last[0] < 0 else -1)
      part[0] = (lat, last[1])
    if part:
      last = part[-1]
    parts.append([Point.FromLatLng(*x) for x in part])
    names.append(rng.pick([None, '', 'a', 'b c', 'd']))
  limit = 10 if threshold is None else threshold
  want, doubtful = [], False
  for part in parts:
    part = [vec(p) for p in part]
    if part and want:
      d = dist(want[-1], part[0])
      if d and abs(d - limit) < 1e-3 * max(1, limit):
        doubtful = True
      if d <= limit:
        part = part[1:]
    want.extend(part)
  if not doubtful:
    polys = [Poly(p, nm) for p, nm in zip(parts, names)]
    args = (polys,) if threshold is None else (polys, threshold)
    got = Poly.MergePolys(*args)
    ctx.count('joined polylines', len(parts))
    ctx.equal([vec(p) for p in got.GetPoints()], want, what + u': joined points (threshold %s)' % threshold)
    ctx.equal(got.GetName(), ';'.join(nm or '' for nm in names), what + u': joined name')
    ctx.equal([[vec(p) for p in q.GetPoints()] for q in polys], [[vec(p) for p in part] for part in parts],
              what + u': joined polylines are unchanged')


def collection_case(ctx, rng, i):
  place = Place(rng)
  while place.kind in ('globe', 'grid'):
    place = Place(rng)
  what = u'case %d (%s)' % (i, place.kind)
  coll = rng.pick([shapelib.PolyCollection, shapelib.PolyGraph])()
  ends = [place.point() for _ in range(rng.randint(2, 4))]
  kept = []
  names = ['s%d' % k for k in range(4)] + ['s%d-%d' % (k, j) for k in range(2) for j in range(1, 7)]
  for k in range(rng.randint(1, 8)):
    a, b = rng.pick(ends), rng.pick(ends)
    pts = [a] + [place.point() for _ in range(rng.randint(0, 3))] + [b]
    name = rng.pick(names)
    vs = [vec(p) for p in pts]
    twin = [w for nm, w, _ in kept if nm == name]
    strict = rng.chance(0.15) and '-' not in name
    if strict and twin:
      try:
        quiet(lambda: coll.AddPoly(Poly(pts, name), smart_duplicate_handling=False))
        ctx.fail(what + u': a duplicate name is accepted')
      except shapelib.ShapeError:
        ctx.count('duplicate names refused')
      continue
    # a variant must be far from all of the same origin to be kept for sure
    # name (which may be one made unique before)
    like = [w for nm, w, _ in kept if nm.split('-')[0] == name.split('-')[0]]
    if any(max(min(f[0] for f in near_all(v, w)) for v in vs) < 20 for w in like):
      continue
    if twin:
      ctx.count('variants added')
    quiet(lambda: coll.AddPoly(Poly(pts, name), smart_duplicate_handling=not strict))
    kept.append((name, vs, k))
    ctx.count('polylines collected')
  ctx.equal(coll.NumPolys(), len(kept), what + u': NumPolys')
  for _ in range(6):
    a, b = rng.pick(ends + [place.point()]), rng.pick(ends + [place.point()])
    radius = rng.pick([None, 150, 10, 1000.0, 20000.0])
    r = radius or 150
    A, B = vec(a), vec(b)
    if any(abs(dist(X, v) - r) < 0.01 for X, v in [(A, vs[0]) for _, vs, _ in kept] +
           [(B, vs[-1]) for _, vs, _ in kept]):
      continue
    want = sorted(vs for _, vs, _ in kept if dist(A, vs[0]) < r and dist(B, vs[-1]) < r)
    got = coll.FindMatchingPolys(a, b) if radius is None else coll.FindMatchingPolys(a, b, radius)
    ctx.count('end point queries')
    ctx.count('polylines found', len(want))
    ctx.equal(sorted([vec(p) for p in q.GetPoints()] for q in got), want,
              what + u': polylines found between ends (radius %s)' % radius)


class Net(object):
  """The reference graph: nodes are vectors."""

  def __init__(self):
    self.edges = []      # (list of vectors)
    self.at = {}         # node -> [(other, length, oriented points)]

  def add(self, vs):
    self.edges.append(vs)
    w = length(vs)
    self.at.setdefault(vs[0], []).append((vs[-1], w, vs))
    self.at.setdefault(vs[-1], []).append((vs[0], w, vs[::-1]))

  def distances(self, start):
    """Bellman-Ford: distances of all reachable nodes."""
    best = {start: 0.0}
    changed = True
    while changed:
      changed = False
      for a in list(best):
        for b, w, _ in self.at[a]:
          if b not in best or best[a] + w < best[b] - 1e-9:
            best[b] = best[a] + w
            changed = True
    return best

  def walks(self, start, goal, pts):
    """True if pts runs from start to goal along edges."""
    todo, done = [(start, 0)], set()
    if not pts or pts[0] != start:
      return False
    while todo:
      node, k = todo.pop()
      if (node, k) in done:
        continue
      done.add((node, k))
      if k == len(pts) - 1 and node == goal:
        return True
      for other, _, run in self.at[node]:
        if pts[k:k + len(run)] == run:
          todo.append((other, k + len(run) - 1))
    return False


def graph_case(ctx, rng, i):
  place = Place(rng)
  what = u'case %d (%s)' % (i, place.kind)
  nodes = []
  for _ in range(rng.randint(2, 14)):
    p = place.point()
    if all(dist(vec(p), vec(q)) > 1 for q in nodes):
      nodes.append(p)
  if len(nodes) < 2:
    return
  net, graph = Net(), shapelib.PolyGraph()
  count = rng.randint(1, 3 * len(nodes))
  pieces = rng.pick([1, 1, 1, 2, 3])
  for k in range(count):
    a = rng.randint(0, len(nodes) - 1)
    b = rng.randint(0, len(nodes) - 1)
    if a % pieces != b % pieces:
      continue
    if a == b and rng.chance(0.8):
      continue
    # straight edges, detours through a point and long detours
    mid = [place.point() for _ in range(rng.pick([0, 0, 0, 1, 1, 2, 5]))]
    pts = [nodes[a]] + mid + [nodes[b]]
    if rng.chance(0.05):
      pts.insert(1, nodes[a])
    if rng.chance(0.1):
      pts = [Point(p.x, p.y, p.z) for p in pts]
    quiet(lambda: graph.AddPoly(Poly(pts, 'e%d' % k)))
    net.add([vec(p) for p in pts])
  known = [p for p in nodes if vec(p) in net.at]
  if len(known) < 2:
    return
  ctx.seen(sorted(vec(p) for p in nodes))
  ctx.count('graph nodes', len(known))
  ctx.count('graph edges', len(net.edges))
  best = {}
  for s in known:
    best[vec(s)] = net.distances(vec(s))
  pairs = [(s, g) for s in known for g in known if s is not g]
  for s, g in rng.shuffled(pairs)[:12]:
    S, G = vec(s), vec(g)
    path = graph.ShortestPath(s, g)
    want = best[S].get(G)
    ctx.count('paths searched')
    if want is None:
      ctx.count('paths missing')
      ctx.check(path is None, what + u': a path is found between unconnected nodes')
      continue
    if not ctx.check(path is not None, what + u': no path is found of %.1f m' % want):
      continue
    pts = [vec(p) for p in path.GetPoints()]
    if not ctx.check(net.walks(S, G, pts), what + u': path does not follow the polylines: %r' % (pts,)):
      continue
    ctx.check(close(length(pts), want), what + u': path is %.3f m long, the shortest %.3f m' % (length(pts), want))
    if all(b != G for b, _, _ in net.at[S]):
      ctx.count('paths of several polylines')
  # paths along sequences of points, each near some nodes
  for _ in range(3):
    radius = rng.pick([None, 150, 50, 2000.0, 20000.0])
    r = radius or 150
    n = rng.pick([2, 2, 3, 3, 4, 5])
    seq, near = [], []
    for _ in range(n):
      p = rng.pick(known)
      if rng.chance(0.5):
        lat, lon = p.ToLatLng()
        if abs(lat) > 80:
          continue
        p = Point.FromLatLng(*geo.offset(lat, lon, rng.uniform(-r, r) / 2, rng.uniform(-r, r) / 2))
      ds = [(dist(vec(p), vec(q)), q) for q in known]
      if any(abs(d - r) < 0.01 for d, _ in ds):
        continue
      group = [vec(q) for d, q in ds if d < r]
      if near and set(near[-1]) & set(group):
        continue           # a node itself as a path is not judged
      seq.append(p)
      near.append(group)
    if rng.chance(0.1):
      p = place.point()
      if all(dist(vec(p), vec(q)) > r + 1 for q in known):
        seq.append(p)
        near.append([])
    if len(seq) < 2:
      continue
    keep = rng.pick([None, 10, 3, 1, 1, 2])
    k = keep or 10
    kw = {}
    if radius:
      kw['max_radius'] = radius
    if keep:
      kw['keep_best_n'] = keep
    got = quiet(lambda: graph.FindShortestMultiPointPath(seq, **kw))
    ctx.count('sequences searched')
    if not all(near):
      ctx.check(got is None, what + u': a path is found though a point has no node near')
      ctx.count('sequences with a far point')
      continue
    beam, clear = [(0.0, [s]) for s in near[0]], True
    for step, group in enumerate(near[1:]):
      new = sorted((w + best[t[-1]][g], t + [g]) for w, t in beam for g in group if g in best[t[-1]])
      if len(new) > k:
        ctx.count('sequences with pruned paths')
        if close(new[k - 1][0], new[k][0]):
          clear = False
      beam = new[:k]
    if not clear:
      continue
    if not beam:
      ctx.count('sequences without a path')
      ctx.check(got is None, what + u': a path is found along unconnected points')
      continue
    if not ctx.check(got is not None, what + u': no path along %d points is found of %.1f m' % (len(seq), beam[0][0])):
      continue
    pts = [vec(p) for p in got.GetPoints()]
    ctx.count('sequences with a path')
    ctx.check(pts[0] in near[0] and pts[-1] in near[-1] and net.walks(pts[0], pts[-1], pts),
              what + u': path along points does not follow the polylines')
    ctx.check(close(length(pts), beam[0][0]), what + u': path along %d points (keeping %s) is %.3f m long, '
              u'the shortest %.3f m' % (len(seq), keep, length(pts), beam[0][0]))


def chain_case(ctx, rng, i):
  """A graph with very many nodes in a row."""
  graph = shapelib.PolyGraph()
  n = rng.randint(1050, 1300)
  pts = [Point.FromLatLng(10.0 + k * 0.001, 20.0 + (k % 2) * 0.001) for k in range(n)]
  for k in range(n - 1):
    graph.AddPoly(Poly(pts[k:k + 2], 'c%d' % k))
  path = graph.ShortestPath(pts[0], pts[-1])
  ctx.count('long chains')
  ctx.equal(path and [vec(p) for p in path.GetPoints()], [vec(p) for p in pts],
            u'case %d: path along a chain of %d nodes' % (i, n))


def run_case(ctx, rng, i):
  if i % 400 == 7:
    return chain_case(ctx, rng, i)
  kind = rng.random()
  if kind < 0.3:
    points_case(ctx, rng, i)
  elif kind < 0.55:
    polys_case(ctx, rng, i)
  elif kind < 0.7:
    collection_case(ctx, rng, i)
  else:
    return graph_case(ctx, rng, i)
  ctx.seen(repr(i))
