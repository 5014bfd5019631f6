# -*- coding: utf-8 -*-
"""C22: KML export draws the feed and KML import reads it back."""
import os
import re
import shutil
import xml.dom.minidom
import xml.etree.ElementTree as ET
from xml.sax import saxutils

import kmlparser
import kmlwriter
import transitfeed

from harness import feedgen, recorder, render
from harness.tables import Feed

CASES = {'quick': 900, 'thorough': 25000}
RULE = ('a case is one feed exported with random options, its document parsed and compared with '
        'the feed and imported again, or one generated KML document imported into a feed; distinct '
        'by the document')
MINIMUM = {'connections to stations': 120, 'documents exported': 210, 'documents imported': 180,
           'documents not in utf-8': 18, 'documents with lines of the same name': 63,
           'patterns drawn': 1100, 'placemarks without geometry': 110, 'routes drawn': 540,
           'shape points drawn': 640, 'shapes drawn': 430, 'shapes imported': 3500,
           'stops drawn': 1400, 'stops imported': 2700, 'texts: cdata': 220,
           'texts: charrefs': 200, 'texts: comment': 220, 'texts: mixed': 210,
           'texts: plain': 460, 'trips drawn': 870, 'trips drawn with altitude': 500,
           'lines with colour': 1800, 'routes without name': 35, 'stops by level': 530,
           "trips from four o'clock": 160, 'widths of several vehicles': 290}
ASSUMPTIONS = ['names contain no control characters, which XML cannot hold',
               'documents use the default namespace, single geometries and no line of one point']
NS = '{http://earth.google.com/kml/2.1}'


def local(e):
  return e.tag.split('}')[-1] if isinstance(e.tag, basestring) else None


def kids(e, tag):
  return [c for c in e if local(c) == tag]


def text(e, tag):
  k = kids(e, tag)
  return u'' if not k else (k[0].text or u'') if isinstance(k[0].text or u'', unicode) else k[0].text.decode('utf-8')


def coords(e):
  """Coordinates of the geometry e, as numbers (lon, lat[, alt])."""
  return [tuple(float(x) for x in p.split(',')) for p in text(e, 'coordinates').split()]


class Mark(object):
  def __init__(self, e):
    self.name = text(e, 'name')
    self.desc = text(e, 'description')
    self.point = [coords(p)[0] for p in kids(e, 'Point')]
    self.line = [coords(p) for p in kids(e, 'LineString')]
    self.abs = [text(p, 'altitudeMode') for p in kids(e, 'LineString')]

  def __repr__(self):
    return 'Mark(%r, %r, %r)' % (self.name, self.point, self.line)


def marks(e):
  """Placemarks directly in a folder."""
  return [Mark(p) for p in kids(e, 'Placemark')]


def all_marks(e):
  return [Mark(p) for p in e.iter() if local(p) == 'Placemark']


def near(p, q):
  return len(p) >= 2 and abs(p[0] - q[0]) <= 6e-7 and abs(p[1] - q[1]) <= 6e-7


def same_line(got, want):
  return len(got) == len(want) and all(near(a, b) for a, b in zip(got, want))


def match(ctx, got, want, what):
  """got: [(name, pts)], want: [(name, pts)] as multisets."""
  left = list(want)
  for name, pts in got:
    hit = [k for k, (n, p) in enumerate(left) if n == name and same_line(pts, p)]
    if not ctx.check(hit, u'%s: unexpected %r %r' % (what, name, pts)):
      return
    left.pop(hit[0])
  ctx.check(not left, u'%s: missing %r' % (what, left[:3]))


def lonlat(r, a='stop_lon', b='stop_lat'):
  return float(r[a]), float(r[b])


def export_case(ctx, rng, i):
  d = ctx.tmpdir()
  try:
    f = feedgen.generate(rng, trips=(1, 7), stations=0.7, freqs=0.1)
    for t in ('stops', 'routes', 'trips'):
      if rng.chance(0.3) and f.table(t):
        r = rng.pick(f.table(t))
        col = {'stops': 'stop_name', 'routes': 'route_long_name', 'trips': 'trip_headsign'}[t]
        r[col] = rng.pick([u'<b>A</b> & "B"', u']]> &amp; x', u"it's <!-- y", u'\u4e2d\U0001f68b']) + unicode(rng.randint(0, 9))
        if col not in f.cols[t]:
          f.cols[t] = list(f.cols[t]) + [col]
    for t in f.table('trips'):
      rows = sorted((r for r in f.table('stop_times') if r['trip_id'] == t['trip_id']),
                    key=lambda r: int(r['stop_sequence']))
      if rng.chance(0.2) and len(rows) > 1 and rows[0]['arrival_time'] >= u'04:00:00' and len(rows[0]['arrival_time']) == 8:
        # at sea level
        rows[0]['arrival_time'] = rows[0]['departure_time'] = u'04:00:00'
        ctx.count('trips from four o\'clock')
    path = os.path.join(d, 'f.zip')
    render.write_zip(render.files(f), path)
    s, rec = recorder.load(path, extra_validation=False)
    if any(e.type == recorder.ERROR for e in rec.entries):
      ctx.count('feeds with errors')
      return
    if rng.chance(0.2):
      r = rng.pick(f.table('routes'))
      s.GetRoute(r['route_id']).route_short_name = r['route_short_name'] = u''
      s.GetRoute(r['route_id']).route_long_name = r['route_long_name'] = u''
      ctx.count('routes without name')
    m = Feed(f)
    w = kmlwriter.KMLWriter()
    w.show_trips = rng.chance(0.5)
    w.show_stop_hierarchy = rng.chance(0.4)
    w.split_routes = rng.chance(0.4)
    w.shape_points = rng.chance(0.3)
    w.altitude_per_sec = rng.pick([0.0, 0.0, 1.0, 0.5])
    day = None
    if rng.chance(0.4):
      ds = sorted(x for c in m.services.values() for x in [c.start, c.end] + list(c.exc) if x)
      day = rng.pick(ds)
      w.date_filter = feedgen.ymd(day)
    out = os.path.join(d, 'f.kml')
    if rng.chance(0.5):
      w.Write(s, out)
    else:
      g = open(out, 'w')
      w.Write(s, g)
      g.close()
    data = open(out, 'rb').read()
    ctx.seen(data)
    what = u'case %d (%s)' % (i, ', '.join('%s=%s' % x for x in sorted(vars(w).items()) if x[1]))
    try:
      root = ET.fromstring(data)
    except Exception as e:
      ctx.fail(u'%s: export is not well-formed: %r ... %r' % (what, e, data[-200:]))
      return
    ctx.equal(root.tag, NS + 'kml', what + u': root')
    docs = kids(root, 'Document')
    if not ctx.equal(len(docs), 1, what + u': documents'):
      return
    doc = docs[0]
    folders = dict((text(x, 'name'), x) for x in kids(doc, 'Folder'))
    ctx.equal(len(folders), len(kids(doc, 'Folder')), what + u': folders of the document')
    ctx.count('documents exported')
    # stops
    got = all_marks(folders['Stops']) if 'Stops' in folders else []
    seen = []
    for k in got:
      if k.point:
        x = re.match(r'Stop id: (.*?)(<br/>|$)', k.desc, re.S)
        sid = x and x.group(1)
        known = sorted(m.stops, key=len, reverse=True)
        hit = [y for y in known if k.desc == u'Stop id: ' + y or k.desc.startswith(u'Stop id: ' + y + u'<br/>')]
        if not ctx.check(hit, u'%s: stop of %r' % (what, k.desc)):
          return
        seen.append(hit[0])
        r = m.stops[hit[0]]
        ctx.check(k.name == r['stop_name'] and near(k.point[0], lonlat(r)),
                  u'%s: stop %s is %r' % (what, hit[0], k))
        for col in ('stop_desc', 'stop_url'):
          ctx.check(r.get(col, u'') in k.desc, u'%s: %s of stop %s in %r' % (what, col, hit[0], k.desc))
    ctx.equal(sorted(seen), sorted(m.stops), what + u': stops drawn')
    ctx.count('stops drawn', len(seen))
    want = []
    if w.show_stop_hierarchy:
      want = [(r['stop_name'], [lonlat(r), lonlat(m.stops[r['parent_station']])]) for r in m.stops.values()
              if r.get('parent_station', u'') and r.get('location_type', u'') != u'1']
      ctx.count('connections to stations', len(want))
    match(ctx, [(k.name, k.line[0]) for k in got if k.line], want, what + u': connections to stations')
    if w.show_stop_hierarchy and 'Stops' in folders:
      levels(ctx, m, folders['Stops'], what)
    styles = dict((x.get('id'), x) for x in kids(doc, 'Style'))
    widths = {}
    # shapes
    lines = dict((sid, [lonlat(r, 'shape_pt_lon', 'shape_pt_lat') for r in rs]) for sid, rs in m.shapes.items())
    ctx.equal('Shapes' in folders, bool(lines), what + u': folder of shapes')
    if lines:
      match(ctx, [(k.name, k.line[0] if k.line else []) for k in marks(folders['Shapes'])],
            lines.items(), what + u': shapes')
      sub = dict((text(x, 'name'), marks(x)) for x in kids(folders['Shapes'], 'Folder'))
      want = dict((u'%s Shape Points' % sid, pts) for sid, pts in lines.items()) if w.shape_points else {}
      if ctx.equal(sorted(sub), sorted(want), what + u': folders of shape points'):
        for n in want:
          ctx.check(all(len(k.point) == 1 for k in sub[n]) and same_line([k.point[0] for k in sub[n]], want[n])
                    and [k.name for k in sub[n]] == [u'%d' % (j + 1) for j in range(len(sub[n]))],
                    u'%s: %s' % (what, n))
          ctx.count('shape points drawn', len(want[n]))
      ctx.count('shapes drawn', len(lines))
    # routes
    kinds = {0: 'Tram, Streetcar or Light rail', 1: 'Subway or Metro', 2: 'Rail', 3: 'Bus', 4: 'Ferry',
             5: 'Cable car', 6: 'Gondola or suspended cable car', 7: 'Funicular'}
    def name(r):
      parts = [u'<b>%s</b>' % r['route_short_name']] if r['route_short_name'] else []
      parts += [r['route_long_name']] if r['route_long_name'] else []
      return u' - '.join(parts) or r['route_id']
    groups = {}
    for r in m.routes.values():
      groups.setdefault(u'Routes - ' + kinds[int(r['route_type'])] if w.split_routes else u'Routes', []).append(r)
    ctx.equal(sorted(x for x in folders if x.startswith('Routes')), sorted(groups), what + u': folders of routes')
    for g in groups:
      if g not in folders:
        continue
      subs = kids(folders[g], 'Folder')
      if not ctx.equal(sorted(text(x, 'name') for x in subs), sorted(name(r) for r in groups[g]), what + u': ' + g):
        continue
      for x in subs:
        rs = [r for r in groups[g] if name(r) == text(x, 'name')]
        if len(rs) > 1:
          continue
        route_marks(ctx, w, m, rs[0], x, lines, day, what + u': route ' + rs[0]['route_id'])
        strokes(ctx, rs[0], x, styles, widths, what + u': route ' + rs[0]['route_id'])
    # import
    back = transitfeed.Schedule(recorder.new()[1])
    kmlparser.KmlParser().Parse(out, back)
    every = all_marks(doc)
    pts = [(k.name.split(u'\n')[0], [k.point[0]]) for k in every if k.point]
    pts += [(k.name, k.line[0]) for k in every if k.line and len(k.line[0]) == 1]
    match(ctx, [(t.stop_name, [(t.stop_lon, t.stop_lat)]) for t in back.GetStopList()], pts,
          what + u': stops imported')
    ctx.count('stops imported', len(pts))
    want = [(k.name, tuple(p[:2] for p in k.line[0])) for k in every if k.line and len(k.line[0]) > 1]
    shapes_imported(ctx, back, want, what)
  finally:
    shutil.rmtree(d, True)


def levels(ctx, m, stops, what):
  """Stations, platforms, entrances and other stops lie in folders of their own."""
  sub = dict((text(x, 'name'), x) for x in kids(stops, 'Folder'))
  want = dict((n, []) for n in ('Stations', 'Platforms', 'Entrances', 'Stand-Alone'))
  for r in m.stops.values():
    kind = r.get('location_type', u'')
    want['Stations' if kind == u'1' else 'Entrances' if kind == u'2' else
         'Platforms' if r.get('parent_station', u'') else 'Stand-Alone'].append(r['stop_name'])
  for n in want:
    got = [k.name for k in marks(sub[n]) if k.point] if n in sub else []
    ctx.check(sorted(got) == sorted(want[n]), u'%s: %s are %r, expected %r' % (what, n, sorted(got), sorted(want[n])))
  ctx.count('stops by level', len(m.stops))


def strokes(ctx, r, x, styles, widths, what):
  """Lines of a route have its colour, and a width that depends on the vehicle only."""
  for p in x.iter():
    if local(p) != 'Placemark':
      continue
    ref = text(p, 'styleUrl')
    style = styles.get(ref[1:]) if ref.startswith(u'#') else None
    if not ctx.check(style is not None, u'%s: there is no style %r' % (what, ref)):
      return
    line = kids(style, 'LineStyle')
    c = r.get('route_color', u'').lower()
    color = text(line[0], 'color') if line else u''
    ctx.check(color.lower() == (u'ff' + c[4:6] + c[2:4] + c[0:2] if c else u''),
              u'%s: the colour is %r, that of the route %r' % (what, color, c))
    wide = text(line[0], 'width') if line else u''
    ctx.check(widths.setdefault(int(r['route_type']), wide) == wide, u'%s: its width is %r, that of others of type %s is %r' % (
        what, wide, r['route_type'], widths[int(r['route_type'])]))
    ctx.count('lines with colour', bool(c))
  if len(widths) > 1:
    rank = {2: 3, 0: 2, 1: 2, 3: 1}
    ws = [(rank[t], float(v)) for t, v in widths.items() if t in rank]
    ctx.check(all((a[0] > b[0]) == (a[1] > b[1]) for a in ws for b in ws), u'%s: widths by type are %r' % (what, widths))
    ctx.count('widths of several vehicles')


def shapes_imported(ctx, back, lines, what):
  want = set(lines)
  got = []
  for sh in back.GetShapeList():
    got.append((sh.shape_id, [(p[1], p[0]) for p in sh.points]))
  ctx.count('shapes imported', len(want))
  names = set(n for n, _ in want)
  ctx.check(names <= set(g[0] for g in got), u'%s: names of shapes imported: %r, expected %r' %
            (what, sorted(g[0] for g in got)[:9], sorted(names)[:9]))
  # a line may become the shape that another line of its points made under its name
  for sid, pts in got:
    ctx.check(any(sid.startswith(n) and same_line(pts, p) for n, p in want),
              u'%s: unexpected shape %r %r' % (what, sid, pts))
  for n, p in want:
    ctx.check(any(sid.startswith(n) and same_line(pts, p) for sid, pts in got),
              u'%s: shape %r not imported: %r' % (what, n, p))
  ctx.check(len(names) <= len(got) <= len(lines), u'%s: %d shapes of %d lines' % (what, len(got), len(lines)))


def size(x):
  return len(x.encode('utf-16-le')) // 2


def route_marks(ctx, w, m, r, x, lines, day, what):
  ctx.count('routes drawn')
  desc = text(x, 'description')
  for col in ('route_desc', 'route_url'):
    ctx.check(r.get(col, u'') in desc, u'%s: %s in %r' % (what, col, desc))
  trips = [t for t in m.trips.values() if t['route_id'] == r['route_id']]
  sub = dict((text(y, 'name'), y) for y in kids(x, 'Folder'))
  ctx.equal(len(sub), len(kids(x, 'Folder')), what + u': folders')
  used = {}
  for t in trips:
    if t.get('shape_id', u''):
      used.setdefault(t['shape_id'], []).append(t)
  match(ctx, [(k.name, k.line[0] if k.line else []) for k in marks(sub['Shapes'])] if 'Shapes' in sub else [],
        [(u'%s (trips: %d)' % (s, len(ts)), lines[s]) for s, ts in used.items()], what + u': shapes')
  groups = {}
  for t in trips:
    groups.setdefault(tuple(y['stop_id'] for y in m.sts[t['trip_id']]), []).append(t['trip_id'])
  got = marks(sub['Patterns']) if 'Patterns' in sub else []
  left = dict(groups)
  ctx.equal(len(got), len(groups), what + u': patterns')
  for k in got:
    hit = [p for p in left if same_line(k.line[0] if k.line else [], [lonlat(m.stops[y]) for y in p])
           and k.name.endswith(u'(trips: %d)' % len(left[p]))
           and k.desc.startswith(u'Trips using this pattern (%d in total): ' % len(left[p]))
           and size(k.desc.split(u': ', 1)[1]) == sum(size(y) for y in left[p]) + 2 * len(left[p]) - 2
           and all(y in k.desc for y in left[p])]
    if not ctx.check(hit, u'%s: pattern %r %r is not one of %r' % (what, k, k.desc, left)):
      return
    del left[hit[0]]
  counts = [int(re.search(r'trips: (\d+)\)$', k.name).group(1)) for k in got]
  ctx.check(counts == sorted(counts, reverse=True) and all(k.name.startswith(u'Pattern %d ' % (j + 1)) for j, k in enumerate(got)),
            u'%s: patterns are %r' % (what, [k.name for k in got]))
  ctx.count('patterns drawn', len(groups))
  want = dict((t['trip_id'], t) for t in trips if m.runs(t['trip_id'], day)) if w.show_trips else {}
  got = marks(sub['Trips']) if 'Trips' in sub else []
  if ctx.equal(sorted(k.name for k in got), sorted(want), what + u': trips drawn'):
    for k in got:
      times = m.times(k.name)
      pts = k.line[0] if k.line else []
      ctx.count('trips drawn')
      ctx.check(same_line(pts, [lonlat(m.stops[y[2]]) for y in times]), u'%s: line of trip %s is %r' % (what, k.name, pts))
      sign = want[k.name].get('trip_headsign', u'')
      ctx.check(sign in k.desc, u'%s: headsign of trip %s in %r' % (what, k.name, k.desc))
      if w.altitude_per_sec > 0 and pts:
        a = w.altitude_per_sec
        ctx.equal(k.abs, ['absolute'], what + u': altitude mode')
        ctx.check(all(len(p) == 3 and (lo - 14400) * a - 1e-3 <= p[2] <= (hi2 - 14400) * a + 1e-3
                      for p, (lo, hi, _, timed) in zip(pts, times) for hi2 in [lo if timed else hi]),
                  u'%s: altitudes of trip %s are %r, expected %r' % (what, k.name, pts, times))
        ctx.count('trips drawn with altitude')
      else:
        ctx.check(all(len(p) == 2 for p in pts), what + u': no altitudes')
  ctx.equal(sorted(n for n in sub if n not in ('Shapes', 'Patterns', 'Trips')), [], what + u': folders')


NAMES = [u'Main St', u'A & B', u'<b>1</b>', u'Z\xfcrich', u'\u4e2d\u6587', u'\U0001f68b', u'x "y"', u"it's",
         u'', u'a, b', u'10%', u'line', u'line_1', u'line_2', u'line_3', u'line', u'line']


def esc(rng, ctx, s):
  """A text as XML, in one of several spellings."""
  how = rng.pick(['plain', 'plain', 'cdata', 'charrefs', 'mixed', 'comment'])
  if not s:
    how = 'plain'
  ctx.count('texts: ' + how)
  if how == 'cdata':
    return u'<![CDATA[%s]]>' % s
  if how == 'charrefs':
    return u''.join(u'&#%d;' % ord(c) for c in s if not 0xd800 <= ord(c) < 0xe000) if not any(
        0xd800 <= ord(c) < 0xe000 for c in s) else saxutils.escape(s)
  k = rng.randint(0, len(s))
  if any(0xd800 <= ord(c) < 0xe000 for c in s):
    k = len(s)
  if how == 'mixed':
    return saxutils.escape(s[:k]) + (u'<![CDATA[%s]]>' % s[k:] if s[k:] else u'')
  if how == 'comment':
    return saxutils.escape(s[:k]) + u'<!-- no, 1,2 -->' + saxutils.escape(s[k:])
  return saxutils.escape(s)


def number(rng, x):
  return rng.pick([u'%.6f', u'%.7f', u'%r']) % x


def import_case(ctx, rng, i):
  d = ctx.tmpdir()
  try:
    points, lines, body = [], [], []
    def coordinate(p):
      c = [number(rng, p[0]), number(rng, p[1])]
      if rng.chance(0.4):
        c.append(rng.pick([u'0', u'12.5', u'-3']))
      return u','.join(c)
    def spot():
      # points at 0, 0 count as mistakes
      return (round(rng.uniform(-180, 180), 5), round(rng.pick([-1, 1]) * rng.uniform(1.1, 85), 5))
    base = [spot() for _ in range(4)]
    alike = rng.chance(0.15)
    def mark(depth):
      name = rng.pick(NAMES) + (unicode(rng.randint(0, 99)) if rng.chance(0.4) else u'')
      parts = []
      kind = rng.random()
      if name or rng.chance(0.5):
        parts.append(u'<name>%s</name>' % esc(rng, ctx, name))
      for x in rng.sub([u'<description><![CDATA[<b>desc</b>, 1,2]]></description>', u'<visibility>1</visibility>',
                        u'<styleUrl>#s</styleUrl>', u'<LookAt><longitude>1</longitude><latitude>2</latitude></LookAt>',
                        u'<!-- <Point><coordinates>5,6</coordinates></Point> -->', u'<ExtendedData><Data name="name"><value>v</value></Data></ExtendedData>'], 0.25):
        parts.insert(rng.randint(0, len(parts)), x)
      if kind < 0.45:
        p = rng.pick(base) if rng.chance(0.3) else spot()
        points.append((name, [p]))
        geo = u'<Point>%s<coordinates>%s</coordinates></Point>' % (
            rng.pick([u'', u'<altitudeMode>absolute</altitudeMode>', u'\n  ']),
            esc_ws(coordinate(p)))
      elif kind < 0.9:
        if alike and rng.chance(0.8):
          name = u'line'
          parts = [u'<name>%s</name>' % name]
        elif rng.chance(0.25) and lines:
          name = rng.pick(lines)[0]
          parts = [u'<name>%s</name>' % esc(rng, ctx, name)]
        if not name:
          name = u'l%d' % len(lines)
          parts = [u'<name>%s</name>' % name]
        pts = [rng.pick(base) if rng.chance(0.3) else spot() for _ in range(rng.randint(2, 6))]
        if rng.chance(0.2) and lines:
          pts = list(rng.pick(lines)[1])
        lines.append((name, tuple(pts)))
        geo = u'<LineString>%s<coordinates>%s</coordinates></LineString>' % (
            rng.pick([u'', u'<tessellate>1</tessellate>', u'<!-- 9,9 -->']),
            esc_ws(rng.pick([u' ', u'\n', u'  \t', u' <!-- 7,7 --> ']).join(coordinate(p) for p in pts)))
      else:
        geo = u''
        ctx.count('placemarks without geometry')
      parts.insert(rng.randint(0, len(parts)), geo)
      return u'<Placemark%s>%s</Placemark>' % (rng.pick([u'', u' id="p"']), sep.join(parts))
    def esc_ws(x):
      return rng.pick([u'%s', u' %s ', u'\n    %s\n  ']) % x
    sep = rng.pick([u'', u'\n'])
    def folder(depth):
      out = [u'<name>Folder %d</name>' % depth]
      for _ in range(rng.randint(0, 4)):
        out.append(folder(depth + 1) if depth < 3 and rng.chance(0.3) else mark(depth))
      return u'<Folder>' + sep.join(out) + u'</Folder>'
    for _ in range(rng.randint(0, 8)):
      body.append(folder(1) if rng.chance(0.3) else mark(0))
    doc = u'<kml xmlns="http://www.opengis.net/kml/2.2"><Document><name>doc</name>%s</Document></kml>' % sep.join(body)
    enc = rng.pick(['utf-8', 'utf-8', 'iso-8859-1', 'ascii'])
    head = u'<?xml version="1.0" encoding="%s"?>\n' % enc
    if enc != 'utf-8' and u'CDATA' not in doc and u'\U0001f68b' not in doc:
      data = (head + doc).encode(enc, 'xmlcharrefreplace')
      ctx.count('documents not in utf-8')
    else:
      data = (rng.pick([u'', u'<?xml version="1.0"?>', u'<?xml version="1.0" encoding="UTF-8"?>\n']) + doc).encode('utf-8')
    ctx.seen(data)
    ctx.count('documents imported')
    path = os.path.join(d, 'i.kml')
    g = open(path, 'wb')
    g.write(data)
    g.close()
    s = transitfeed.Schedule(recorder.new()[1])
    have = 0
    if rng.chance(0.3):
      s.AddStop(1.5, 2.5, u'there', u'0')
      points.append((u'there', [(2.5, 1.5)]))
      have = 1
    parser = kmlparser.KmlParser()
    if rng.chance(0.5):
      parser.Parse(path, s)
    else:
      parser.ParseDom(xml.dom.minidom.parseString(data), s)
    what = u'case %d: %s' % (i, doc if len(doc) < 1500 else doc[:1500])
    match(ctx, [(t.stop_name or u'', [(t.stop_lon, t.stop_lat)]) for t in s.GetStopList()], points, what + u': stops imported')
    ctx.count('stops imported', len(points))
    ctx.equal(len(set(t.stop_id for t in s.GetStopList())), len(points), what + u': ids of stops')
    shapes_imported(ctx, s, lines, what)
    if len(set(lines)) > len(set(n for n, _ in lines)):
      ctx.count('documents with lines of the same name')
  finally:
    shutil.rmtree(d, True)


def run_case(ctx, rng, i):
  if rng.chance(0.55):
    export_case(ctx, rng, i)
  else:
    import_case(ctx, rng, i)
