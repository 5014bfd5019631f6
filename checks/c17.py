# -*- coding: utf-8 -*-
"""C17: merging unifies exactly the entities that are the same."""
import HTMLParser
import os
import shutil
import StringIO

from harness import canon, feedgen, merges, recorder
from harness.core import u

CASES = {'quick': 400, 'thorough': 14000}
RULE = ('a case is one pair of feeds merged, with the decisions taken for every identifier they '
        'share; distinct by the values of both sides of the shared entities')
MINIMUM = {'chosen attribute: agency agency_fare_url': 1,
           'chosen attribute: agency agency_lang': 1, 'chosen attribute: agency agency_name': 1,
           'chosen attribute: agency agency_phone': 1, 'chosen attribute: agency agency_url': 1,
           'chosen attribute: fare currency_type': 1, 'chosen attribute: fare payment_method': 1,
           'chosen attribute: fare price': 1, 'chosen attribute: fare transfer_duration': 1,
           'chosen attribute: fare transfers': 1, 'chosen attribute: route route_color': 1,
           'chosen attribute: route route_desc': 1, 'chosen attribute: route route_long_name': 1,
           'chosen attribute: route route_short_name': 1,
           'chosen attribute: route route_text_color': 1, 'chosen attribute: route route_type': 1,
           'chosen attribute: route route_url': 1, 'chosen attribute: shape first': 1,
           'chosen attribute: shape last': 1, 'chosen attribute: shape middle': 1,
           'chosen attribute: stop location_type': 1, 'chosen attribute: stop stop_code': 1,
           'chosen attribute: stop stop_desc': 1, 'chosen attribute: stop stop_lat': 1,
           'chosen attribute: stop stop_name': 1, 'chosen attribute: stop stop_url': 1,
           'chosen attribute: stop zone_id': 1, 'in one feed only: agency': 210,
           'in one feed only: fare': 180, 'in one feed only: route': 280,
           'in one feed only: shape': 190, 'in one feed only: stop': 650,
           'pairs merged: edited copy': 1, 'pairs merged: other feed': 62,
           'pairs merged: single attributes': 70, 'pairs merged: unchanged copy': 38,
           'pairs with errors in the edited feed': 1, 'problems on report pages': 680,
           'report pages read': 170, 'same identifier kept apart: agency': 39,
           'same identifier kept apart: fare': 23, 'same identifier kept apart: route': 48,
           'same identifier kept apart: shape': 18, 'same identifier kept apart: stop': 69,
           'unified: agency': 200, 'unified: fare': 140, 'unified: route': 230,
           'unified: shape': 180, 'unified: stop': 620,
           'chosen attribute: agency agency_timezone': 1, 'chosen attribute: shape direction': 1,
           'chosen attribute: stop location_type of an odd place': 1}
ASSUMPTIONS = ['services and trips are never unified by the default mergers, as their warnings say']

COLUMNS = {
    'agency': ['agency_name', 'agency_url', 'agency_lang', 'agency_phone', 'agency_fare_url',
               'agency_timezone'],
    'stop': ['stop_name', 'stop_code', 'stop_desc', 'zone_id', 'stop_url', 'location_type',
             'stop_lat'],
    'route': ['route_short_name', 'route_long_name', 'route_desc', 'route_type', 'route_url',
              'route_color', 'route_text_color'],
    'fare': ['price', 'currency_type', 'payment_method', 'transfers', 'transfer_duration'],
    'shape': ['first', 'middle', 'last']}
VALUES = {
    'agency_name': [u'Metro', u'metro', u'Metro Süd', u'<b>M&amp;</b>'],
    'agency_url': [u'http://a.x', u'http://a.x/', u'https://a.x'],
    'agency_lang': [u'en', u'de', u''], 'agency_phone': [u'1', u'', u'2'],
    'agency_fare_url': [u'http://a.x/f', u''],
    'stop_name': [u'Plaza', u'PLAZA', u'plaza', u'Plazá', u'PLAZÁ', u'Plaza 2'],
    'stop_code': [u'1', u'', u'2'], 'stop_desc': [u'here', u'', u'there'],
    'zone_id': [u'z1', u'Z1', u'', u'z2'], 'stop_url': [u'http://s.x', u'', u'http://s.x/2'],
    'location_type': [u'', u'0'],
    'route_short_name': [u'7', u'8', u'7a', u'7A'], 'route_long_name': [u'To the lake', u'to the lake', u'Éast line'],
    'route_desc': [u'', u'words', u'other'], 'route_type': [u'3', u'2', u'0'],
    'route_url': [u'', u'http://r.x', u'http://r.x/2'], 'route_color': [u'', u'FFFFFF', u'00FF00'],
    'route_text_color': [u'', u'000000', u'0000FF'],
    'price': [u'1.5', u'1.50', u'2', u'1.5001', u'0'], 'currency_type': [u'EUR', u'USD'],
    'payment_method': [u'0', u'1'], 'transfers': [u'', u'0', u'1', u'2'],
    'transfer_duration': [u'', u'0', u'60', u'3600']}


def one_attribute(rng, a, b, limits, notes):
  """Give both sides of one shared entity chosen values of one attribute."""
  kind = rng.pick(sorted(COLUMNS))
  both = [v for v in merges.ids(a, kind) if v in merges.ids(b, kind)]
  if not both:
    return
  v = rng.pick(both)
  c = rng.pick(COLUMNS[kind])
  notes.append((kind, c))
  if kind == 'shape':
    rows = sorted([r for r in b.table('shapes') if r['shape_id'] == v],
                  key=lambda r: int(r['shape_pt_sequence']))
    if rng.chance(0.15):
      # The other direction
      places = [(r['shape_pt_lat'], r['shape_pt_lon']) for r in rows]
      for r, (lat, lon) in zip(rows, places[::-1]):
        r['shape_pt_lat'], r['shape_pt_lon'] = lat, lon
      notes[-1] = (kind, 'direction')
      return
    row = rows[0] if c == 'first' else rows[-1] if c == 'last' else rows[len(rows) // 2]
    merges._move(rng, row, 'shape_pt_lat', 'shape_pt_lon',
                 limits[1] * rng.pick([0.5, 0.97, 0.99, 1.01, 1.03, 2]))
    return
  t, key = merges.TABLES[kind], merges.REFS[kind][0][1]
  r, s = a.find(t, key, v), b.find(t, key, v)
  if c == 'stop_lat':
    merges._move(rng, s, 'stop_lat', 'stop_lon',
                 limits[0] * rng.pick([0.5, 0.97, 0.99, 1.01, 1.03, 2]))
  elif c == 'agency_timezone':
    # All agencies of a feed have the same
    zone = rng.pick([u'Europe/Oslo', u'America/Lima', r[c]])
    for row in b.table('agency'):
      row[c] = zone
  elif c == 'location_type':
    if rng.chance(0.8) and not a.find('stops', 'stop_id', u'place'):
      # A place no trip goes to may be a station in one feed and a stop in the other
      r, s = dict(r), dict(s)
      for f, row in ((a, r), (b, s)):
        row.update(stop_id=u'place', stop_name=u'Odd place', parent_station=u'')
        row[c] = rng.pick([u'', u'0', u'1', u'1'])
        f.add('stops', **row)
      s['stop_lat'], s['stop_lon'] = r['stop_lat'], r['stop_lon']
      s['zone_id'] = r.get('zone_id', u'')
      notes[-1] = (kind, 'location_type of an odd place')
    elif r.get(c, u'') in (u'', u'0') and s.get(c, u'') in (u'', u'0'):
      r[c], s[c] = rng.pick(VALUES[c]), rng.pick(VALUES[c])
  else:
    r[c], s[c] = rng.pick(VALUES[c]), rng.pick(VALUES[c])


FILES = {'agency': u'agency.txt', 'stop': u'stops.txt', 'route': u'routes.txt', 'trip': u'trips.txt',
         'fare attribute': u'fare_attributes.txt', 'fare rule': u'fare_rules.txt', 'shape': u'shapes.txt',
         'transfer': u'transfers.txt', 'service period': u'calendar.txt/calendar_dates.txt'}


class Page(HTMLParser.HTMLParser):
  """The list items and the nesting of an HTML page."""
  VOID = ('br', 'meta')

  def __init__(self):
    HTMLParser.HTMLParser.__init__(self)
    self.stack, self.items, self.bad, self.cells = [], [], [], []
    self.heads, self.places = {'h2': u'', 'h3': u''}, []

  def handle_starttag(self, tag, attrs):
    if tag not in self.VOID:
      self.stack.append(tag)
    if tag == 'li':
      self.items.append(u'')
      self.places.append((self.heads['h2'].strip(), self.heads['h3'].strip()))
    if tag in self.heads:
      self.heads[tag] = u''
    if tag in ('td', 'th'):
      self.cells.append(u'')
    if tag == 'br':
      self.handle_data(u'\n')

  def handle_startendtag(self, tag, attrs):
    if tag == 'th':
      self.cells.append(u'')

  def handle_endtag(self, tag):
    if not self.stack or self.stack[-1] != tag:
      self.bad.append(tag)
    else:
      self.stack.pop()

  def handle_data(self, data):
    if 'li' in self.stack:
      self.items[-1] += data
    if self.stack and self.stack[-1] in ('td', 'th'):
      self.cells[-1] += data
    if self.stack and self.stack[-1] in self.heads:
      self.heads[self.stack[-1]] += data

  def handle_entityref(self, name):
    self.handle_data({'lt': u'<', 'gt': u'>', 'amp': u'&', 'quot': u'"'}[name])

  def handle_charref(self, name):
    self.handle_data(unichr(int(name)))


def check_page(ctx, run, entries, what):
  import merge
  acc = merge.HTMLProblemAccumulator()
  for e in entries:
    acc._Report(e.e)
  out = StringIO.StringIO()
  acc.WriteOutput(out, run.merger, 'old.zip', 'new.zip', 'merged.zip')
  text = out.getvalue()
  if not isinstance(text, unicode):
    text = text.decode('utf-8')
  p = Page()
  p.feed(text)
  p.close()
  if p.bad or p.stack:
    ctx.fail(u'%s: the report page is not well nested: %r %r' % (what, p.bad, p.stack))
  got = sorted(zip(p.places, (x.strip() for x in p.items)))
  want = sorted(((u'Warnings:' if e.type == recorder.WARNING else u'Errors:', FILES[e.get('entity_type_name')]),
                 e.text().strip()) for e in entries)
  ctx.equal(got, want, what + u': problems on the report page')
  if (u'warnings: %d' % len(entries)) not in text and entries:
    ctx.fail(u'%s: the report page does not give the number of warnings (%d)' % (what, len(entries)))
  ctx.count('report pages read')
  ctx.count('problems on report pages', len(entries))


def run_case(ctx, rng, i):
  d = ctx.tmpdir()
  try:
    limits = (10.0, 10.0) if rng.chance(0.5) else (rng.pick([1.0, 50.0, 200.0]), rng.pick([2.0, 100.0]))
    notes = []
    mode = rng.pick(['same', 'attributes', 'attributes', 'pair', 'pair'])
    if mode == 'pair':
      a, b, how = merges.pair(rng, limits, False if rng.chance(0.8) else None)
    else:
      a, b, how = merges.pair(rng, limits, True)
    if mode == 'attributes':
      how = 'single attributes'
      for _ in range(rng.randint(1, 4)):
        one_attribute(rng, a, b, limits, notes)
    merges.finish_pair(rng, a, b)
    model = merges.Model(a, b, limits)
    if model.doubtful:
      ctx.count('pairs with distances at the limit')
      return
    sa, ea = merges.load(a, os.path.join(d, 'a.zip'), rng)
    sb, eb = merges.load(b, os.path.join(d, 'b.zip'), rng)
    if ea or eb:
      ctx.count('pairs with errors in the edited feed')
      return
    run = merges.Run(sa, sb, limits, False)
    what = u'case %d (%s)' % (i, how)
    if not run.result:
      ctx.fail(u'%s: merging is refused: %r' % (what, run.rec.entries[:5]))
      return
    out = os.path.join(d, 'out.zip')
    run.merged.WriteGoogleTransitFeed(out)
    merged = merges.written(out)
    obs = merges.Observed(ctx, model, merged, what)
    if obs.ok:
      for kind in ('agency', 'stop', 'route', 'fare', 'shape', 'trip', 'service'):
        for actual, name in obs.maps[kind].items():
          old = name[2:]
          if kind == 'agency' and old == u'':
            continue
          if old in model.conflicts[kind]:
            if actual == old:
              ctx.fail(u'%s: %s %s keeps the identifier of a conflict' % (what, kind, name))
          elif actual != old:
            ctx.fail(u'%s: %s %s is renamed to %s without need' % (what, kind, name, actual))
    got = sorted((e.get('entity_type_name'), u(e.get('id') or u''))
                 for e in run.rec.of('SameIdButNotMerged'))
    want = sorted((merges.ENTITY[k], v) for k in merges.ENTITY for v in model.conflicts[k])
    ctx.equal(got, want, what + u': identifiers reported as not merged')
    bad = [e for e in run.rec.entries if e.type != recorder.WARNING]
    if bad:
      ctx.fail(u'%s: merging reports %r' % (what, bad[:3]))
    others = [e.cls for e in run.rec.without('SameIdButNotMerged', 'MergeNotImplemented', 'FareRulesBroken')]
    ctx.equal(others, [], what + u': other problems')
    import merge
    for kind, cls in (('agency', merge.AgencyMerger), ('stop', merge.StopMerger),
                      ('route', merge.RouteMerger), ('fare', merge.FareMerger),
                      ('shape', merge.ShapeMerger)):
      n = len(model.unified[kind])
      want = (n, len(merges.ids(a, kind)) - n, len(merges.ids(b, kind)) - n)
      ctx.equal(tuple(run.merger.GetMerger(cls).GetMergeStats()), want, u'%s: statistics of %s' % (what, kind))
    if how == 'unchanged copy':
      for kind in ('agency', 'stop', 'route', 'fare', 'shape'):
        ctx.equal(sorted(merges.ids(merged, kind)), sorted(merges.ids(a, kind)),
                  u'%s: %s identifiers of the merged feed' % (what, kind))
      ctx.equal(len(merged.table('trips')), 2 * len(a.table('trips')), what + u': trips')
    check_page(ctx, run, run.rec.entries, what)
    ctx.count('pairs merged: ' + how)
    for kind in merges.ENTITY:
      ctx.count('unified: ' + kind, len(model.unified[kind]))
      ctx.count('same identifier kept apart: ' + kind, len(model.conflicts[kind]))
      only = set(merges.ids(a, kind)) ^ set(merges.ids(b, kind))
      ctx.count('in one feed only: ' + kind, len(only))
    for kind, c in notes:
      ctx.count('chosen attribute: %s %s' % (kind, c))
    ctx.seen([i, model.maps_a, model.maps_b, notes])
    ctx.sample({'case': i, 'how': how, 'conflicts': dict((k, sorted(v)) for k, v in model.conflicts.items())})
  finally:
    shutil.rmtree(d, ignore_errors=True)
