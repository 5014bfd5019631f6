# -*- coding: utf-8 -*-
"""C39: remarks on the feed as a whole are given exactly when called for."""
import os
import re
import shutil

from harness import feedgen, recorder, render
from harness.core import u

CASES = {'quick': 900, 'thorough': 30000}
RULE = ('a case is one feed with any number of things to remark at once (time zones, languages, agencies without '
        'identifier, routes of equal names, unused shapes, trips of no or one stop), loaded with validation; distinct by '
        'these things')
MINIMUM = {'agencies without identifier among others': 120, 'feeds with nothing to remark': 29,
           'feeds with remarks': 370, 'languages that agree': 600, 'languages that differ': 260,
           'one time zone': 280, 'remarks': 1100, 'routes that share their names': 320,
           'several time zones': 120, 'trips of 0 stops': 81,
           'trips of 0 stops with frequencies': 86, 'trips of 1 stops': 81,
           'trips of 1 stops with frequencies': 89, 'trips of 2 stops': 94,
           'trips of 2 stops with frequencies': 86, 'unused shapes': 290}
ASSUMPTIONS = ['remarks are recognised by class, column and the identifiers they name']

ZONES = [u'America/Los_Angeles', u'Europe/Zurich', u'UTC', u'Asia/Tokyo']
LANGS = [u'en', u'de', u'fr', u'pt']
SHORT = [u'12', u'N1', u'', u'7b', u'Ä']
LONG = [u'Main Line', u'Güterlinie', u'', u'Ring 中', u'Main']


def variant(rng, text):
  """The same name in other letters or with spaces around."""
  text = rng.pick([text, text, text.upper(), text.lower(), text.title()])
  return rng.pick([u'', u'', u' ', u'  ']) + text + rng.pick([u'', u'', u' '])


def agencies(ctx, rng, m):
  """Returns what is to be remarked on agencies and feed info."""
  rows = m.table('agency')
  want = []
  named = dict((r['agency_id'], r) for r in rows if r.get('agency_id'))
  if named:
    for k in range(rng.pick([0, 0, 1, 3])):
      r = dict(rng.pick(rows), agency_id=u'more%d' % k, agency_name=u'More of %d' % k)
      rows.insert(rng.randint(0, len(rows)), r)
    if rng.chance(0.3):
      rows.insert(rng.randint(0, len(rows)), dict(rng.pick(rows), agency_id=u'', agency_name=u'Nameless & Co %d' % rng.randint(1, 99)))
  zone = rng.pick(ZONES)
  spread = rng.pick([0, 0, 0.3, 1])
  for r in rows:
    r['agency_timezone'] = rng.pick(ZONES) if rng.chance(spread) else zone
  if len(set(r['agency_timezone'] for r in rows)) > 1:
    want.append(('InvalidValue', recorder.ERROR, 'agency_timezone', sorted(set(r['agency_timezone'] for r in rows))))
    ctx.count('several time zones')
  else:
    ctx.count('one time zone')
  if len(rows) > 1:
    for r in rows:
      if not r.get('agency_id'):
        want.append(('OtherProblem', recorder.ERROR, None, [r['agency_name']]))
        ctx.count('agencies without identifier among others')
  lang = rng.pick(LANGS)
  for r in rows:
    r['agency_lang'] = rng.pick([lang, lang, lang, u'', rng.pick(LANGS)])
  m.rows.pop('feed_info', None)
  if rng.chance(0.8):
    m.cols.pop('feed_info', None)
    m.add('feed_info', feed_publisher_name=u'Publisher', feed_publisher_url=u'http://example.com',
          feed_lang=rng.pick([lang, lang, lang, rng.pick(LANGS)]))
    fl = m.table('feed_info')[0]['feed_lang']
    for r in rows:
      if r['agency_lang'] and r['agency_lang'] != fl:
        want.append(('InvalidValue', recorder.ERROR, 'feed_lang', [r['agency_id']] if r.get('agency_id') else []))
        ctx.count('languages that differ')
      elif r['agency_lang']:
        ctx.count('languages that agree')
  return want


def routes(ctx, rng, m):
  """Adds routes; returns the groups of equal names."""
  ids = [r['agency_id'] for r in m.table('agency') if r.get('agency_id')]
  for k in range(rng.pick([0, 2, 5, 9])):
    short, long_ = rng.pick(SHORT), rng.pick(LONG)
    if not short and not long_:
      long_ = u'Other'
    m.add('routes', route_id=u'extra route %d' % k, route_short_name=variant(rng, short),
          route_long_name=variant(rng, long_), route_type=u'3', agency_id=rng.pick(ids) if ids else u'')
  groups = {}
  for r in m.table('routes'):
    key = tuple((r.get(c) or u'').strip().lower() for c in ('route_short_name', 'route_long_name'))
    groups.setdefault(key, []).append(r['route_id'])
  return dict((k, v) for k, v in groups.items() if len(v) > 1)


def shapes(ctx, rng, m):
  used = set(t.get('shape_id') for t in m.table('trips'))
  for k in range(rng.pick([0, 0, 1, 3])):
    name = u'shape-%d-%s' % (k, rng.pick([u'é', u'x']))
    for n in range(2):
      m.add('shapes', shape_id=name, shape_pt_lat=u'%.4f' % (10 + n * 0.01), shape_pt_lon=u'20', shape_pt_sequence=u'%d' % n)
    if rng.chance(0.4):
      t = rng.pick(m.table('trips'))
      t['shape_id'] = name
      for r in m.table('stop_times'):
        if r['trip_id'] == t['trip_id']:
          r['shape_dist_traveled'] = u''
  used = set(t.get('shape_id') for t in m.table('trips'))
  unused = sorted(s for s in set(m.ids('shapes', 'shape_id')) if s not in used)
  if unused:
    ctx.count('unused shapes', len(unused))
    return [('OtherProblem', recorder.WARNING, None, unused)], [s for s in used if s and s.startswith(u'shape-')]
  return [], []


def trips(ctx, rng, m):
  want = []
  services = sorted(set(m.ids('calendar', 'service_id')) | set(m.ids('calendar_dates', 'service_id')))
  stops = [s['stop_id'] for s in m.table('stops') if s.get('location_type', u'') in (u'', u'0')]
  for k in range(rng.pick([0, 1, 3])):
    tid = u'short trip %d' % k
    m.add('trips', trip_id=tid, route_id=rng.pick(m.table('routes'))['route_id'], service_id=rng.pick(services))
    n = rng.randint(0, 2)
    for i in range(n):
      x = feedgen.hms(30000 + 7000 * i)
      m.add('stop_times', trip_id=tid, arrival_time=x, departure_time=x, stop_id=rng.pick(stops), stop_sequence=unicode(i))
    runs = rng.pick([0, 0, 1, 2])
    for i in range(runs):
      m.add('frequencies', trip_id=tid, start_time=feedgen.hms(30000 + 9000 * i), end_time=feedgen.hms(36000 + 9000 * i),
            headway_secs=u'600')
    if n == 0:
      want.append(('OtherProblem', recorder.WARNING, None, [tid]))
      if runs:
        want.append(('OtherProblem', recorder.ERROR, None, [tid]))
    elif n == 1:
      want.append(('OtherProblem', recorder.WARNING, None, [tid]))
    ctx.count('trips of %d stops%s' % (n, ' with frequencies' if runs else ''))
  return want


def names(text, word):
  return re.search(u'(?<!\\w)%s(?!\\w)' % re.escape(word), text, re.UNICODE) is not None


def run_case(ctx, rng, i):
  m = feedgen.generate(rng, trips=(1, 3), routes=(1, 3))
  want = agencies(ctx, rng, m)
  more, used = shapes(ctx, rng, m)
  want += more + trips(ctx, rng, m)
  groups = routes(ctx, rng, m)
  m.finish_columns(rng)
  d = ctx.tmpdir()
  try:
    path = render.write_zip(render.files(m, render.random_style(rng)), os.path.join(d, 'f.zip'))
    s, rec = recorder.load(path, extra_validation=True, memory_db=rng.chance(0.5))
  finally:
    shutil.rmtree(d)
  got = [e for e in rec.entries if e.cls == 'OtherProblem' or (e.cls == 'InvalidValue' and e.column_name in (
      'agency_timezone', 'feed_lang', 'route_long_name'))]
  # Routes of equal names
  seen = {}
  for e in [e for e in got if e.column_name == 'route_long_name']:
    got.remove(e)
    text = u(e.text())
    ctx.check(e.type == recorder.WARNING, u'%s is no warning', e)
    fit = [k for k, v in groups.items() if len([r for r in v if u'"%s"' % r in text]) == 2]
    if ctx.check(len(fit) == 1, u'%s names no two routes of the same name', text):
      seen[fit[0]] = seen.get(fit[0], 0) + 1
  for k, v in groups.items():
    ctx.count('routes that share their names', len(v))
    ctx.check(seen.get(k, 0) == len(v) - 1, u'routes %r are all called %r, reported %d times', v, k, seen.get(k, 0))
  # The rest
  for cls, typ, column, words in want:
    fit = [e for e in got if e.cls == cls and e.type == typ and (column is None or e.column_name == column) and
           all(names(u(e.text()), w) for w in words)]
    if not ctx.check(fit, u'no %s of type %r on %s %r; there are %r', cls, typ, column, words, [u(e.text()) for e in got]):
      continue
    # Of several, the one that says least else
    fit.sort(key=lambda e: len(u(e.text())))
    got.remove(fit[0])
    if cls == 'OtherProblem' and len(words) and used:
      ctx.check(not any(x in u(fit[0].text()) for x in used), u'%r names a shape that is used (%r)', fit[0].text(), used)
    ctx.count('remarks')
  for e in got:
    ctx.fail(u'uncalled for: %s (%s)' % (u(e.text()), e.type))
  ctx.count('feeds with nothing to remark' if not want and not groups else 'feeds with remarks')
  ctx.seen((sorted(repr(x) for x in want), sorted(groups)))
