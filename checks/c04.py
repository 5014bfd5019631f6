# -*- coding: utf-8 -*-
"""C04: each defect is reported where it is, and no other row is blamed."""
import os
import shutil

from harness import feedgen, recorder, render
from harness.core import u

CASES = {'quick': 150, 'thorough': 9000}
RULE = ('a case is one generated valid feed, first loaded as it is, then with one defect at a time; '
        'distinct by feed and defects')
MINIMUM = {'cells of several lines': 320, 'cells that are not UTF-8': 42, 'clean feeds': 67,
           'defects in agency': 44, 'defects in calendar': 70, 'defects in calendar_dates': 21,
           'defects in fare_attributes': 27, 'defects in fare_rules': 17,
           'defects in feed_info': 27, 'defects in frequencies': 23, 'defects in routes': 62,
           'defects in shapes': 1, 'defects in stop_times': 74, 'defects in stops': 69,
           'defects in transfers': 22, 'defects in trips': 52, 'defects judged': 520,
           'references to what the defect removed': 78, 'rows with too many cells': 40}
ASSUMPTIONS = ['rows are laid out without blank lines; follow-up remarks about the feed as a whole '
               '(without a row) are not judged, except that defects marked harmless must cause none']

ERROR, WARNING = recorder.ERROR, recorder.WARNING
ANY = object()

URL = [u'example.com', u'ftp://a.b', u'http:/x', u'HTTP//x', u'x http://a.b', u'www.a.b', u'-']
NUM = [u'abc', u'1,5', u'1.2.3', u'--1', u'0x10', u'12 34', u'N48', u'1e', u'ten', u'.']
INT = [u'abc', u'1.5', u'-', u'1 2', u'0x1', u'x1', u'one']
YNU = [u'3', u'-1', u'9', u'yes', u'1.0', u'00', u'true']
TIME = [u'1000', u'10:00', u'10:60:00', u'10:00:60', u'10:0:00', u'noon', u'10:00:00 AM', u'-1:00:00',
        u'1000:00:00', u'10.00.00', u'10:00:5', u'1:2:3:4', u'10:00:0a']
DATE = [u'2026-01-01', u'20260230', u'20261301', u'2026101', u'202601011', u'today', u'20260100',
        u'01012026x', u'20250229']
LANG = [u'xx', u'eng', u'e', u'english', u'q1', u'--']
TZ = [u'Mars/Phobos', u'GMT+25', u'America/Los Angeles', u'utc+1', u'CEST2', u'america/los_angeles']
COLOR = [u'red', u'12345', u'1234567', u'#123456', u'12345g', u'0x1234', u'#fff']


class M(object):
  """One kind of defect: cells to set, and the report it must cause."""

  def __init__(self, table, column, values, cls='InvalidValue', typ=ERROR, at=None, value=None,
               when=None, also=None, harmless=False, drops=None):
    self.table, self.column, self.values = table, column, values
    self.cls, self.typ, self.at, self.value = cls, typ, at or column, value
    self.when, self.also, self.harmless = when, also, harmless
    # column whose identifier may become undefined because of this defect
    self.drops = drops


def has(*cols):
  return lambda m, r: all(r.get(c, u'') != u'' for c in cols)


def lacks(*cols):
  return lambda m, r: all(r.get(c, u'') == u'' for c in cols)


def no_transfers(m, r):
  return not any(r['stop_id'] in (t['from_stop_id'], t['to_stop_id']) for t in m.table('transfers'))


def other_day(d):
  return lambda m, r: any(r[x] == u'1' for x in feedgen.DAYS if x != d)


def timed(m, r):
  return r['arrival_time'] != u'' and r['departure_time'] != u''


def one_name(m, r):
  return (r['route_short_name'] == u'') != (r['route_long_name'] == u'')


MISS = 'MissingValue'
KINDS = [
    M('agency', 'agency_name', [u''], MISS, value=ANY, harmless=True),
    M('agency', 'agency_url', [u''], MISS, value=ANY, harmless=True),
    M('agency', 'agency_timezone', [u''], MISS, value=ANY),
    M('agency', 'agency_url', URL, harmless=True),
    M('agency', 'agency_fare_url', URL, harmless=True),
    M('agency', 'agency_timezone', TZ),
    M('agency', 'agency_lang', LANG),
    M('agency', 'agency_email', [u'a', u'a@b', u'@b.c', u'a.b', u'a@@b.c', u'@'], harmless=True),

    M('stops', 'stop_id', [u''], MISS, value=ANY, drops='stop_id'),
    M('stops', 'stop_name', [u''], MISS, value=ANY),
    M('stops', 'stop_lat', [u''], MISS, value=ANY),
    M('stops', 'stop_lon', [u''], MISS, value=ANY),
    M('stops', 'stop_lat', NUM + [u'nan', u'inf']),
    M('stops', 'stop_lon', NUM + [u'nan', u'-inf']),
    M('stops', 'stop_lat', [u'90.001', u'-91', u'480'], when=no_transfers),
    M('stops', 'stop_lon', [u'180.001', u'-181', u'4800'], when=no_transfers),
    M('stops', 'stop_url', URL, harmless=True),
    M('stops', 'location_type', [u'abc', u'x', u'1.5'], when=lambda m, r: not is_station(m, r)),
    M('stops', 'location_type', [u'5', u'-1', u'17'], typ=WARNING,
      when=lambda m, r: not is_station(m, r)),
    M('stops', 'wheelchair_boarding', YNU, harmless=True),
    M('stops', 'stop_timezone', TZ, when=lacks('parent_station'), harmless=True),
    M('stops', 'stop_timezone', [u'Asia/Tokyo', u'Europe/Zurich'], typ=WARNING,
      when=has('parent_station'), harmless=True),
    M('stops', 'stop_desc', lambda rng, m, r: rng.pick(
        [r['stop_name'], r['stop_name'].upper(), r['stop_name'].lower()]), typ=WARNING,
      when=lambda m, r: r['stop_name'].upper().lower() == r['stop_name'].lower(), harmless=True),
    M('stops', 'stop_lat', [u'0.5', u'0', u'-0.99'], typ=WARNING, value=ANY,
      when=no_transfers,
      also=lambda rng, r: r.__setitem__('stop_lon', rng.pick([u'0', u'0.25', u'-0.75']))),
    M('stops', 'parent_station', lambda rng, m, r: rng.pick(m.ids('stops', 'stop_id')),
      when=lambda m, r: r.get('location_type', u'') == u'1' and not r.get('stop_timezone'),
      harmless=True),

    M('routes', 'route_id', [u''], MISS, value=ANY, drops='route_id'),
    M('routes', 'route_type', [u''], MISS, value=ANY, at='route_type'),
    M('routes', 'route_type', [u'abc', u'1.5', u'-1', u'x']),
    M('routes', 'route_type', [u'8', u'99', u'1000', u'123456'], typ=WARNING),
    M('routes', 'route_url', URL, harmless=True),
    M('routes', 'route_color', COLOR, when=lambda m, r: r.get('route_text_color', u'') in (
        u'', u'000000', u'000001'), harmless=True),
    M('routes', 'route_text_color', COLOR, when=lambda m, r: r.get('route_color', u'') in (
        u'', u'FFFFFF', u'FFFF00', u'00FF00'), harmless=True),
    M('routes', 'route_color', lambda rng, m, r: rng.pick([u'000000', u'101010', u'200020']),
      typ=WARNING, when=lambda m, r: r.get('route_text_color', u'') in (u'', u'000000', u'000001'),
      harmless=True),
    M('routes', 'bikes_allowed', YNU, harmless=True),
    M('routes', 'route_short_name', [u'1234567', u'Central Station', u'äöüßéèà'], typ=WARNING,
      when=lambda m, r: r['route_long_name'] == u'', harmless=True),
    M('routes', 'route_short_name', [u''], value=ANY, at='route_short_name', when=one_name,
      also=lambda rng, r: r.__setitem__('route_long_name', u'')),
    M('routes', 'route_desc', lambda rng, m, r: r['route_short_name'] or r['route_long_name'],
      harmless=True),
    M('routes', 'route_long_name', lambda rng, m, r: r['route_short_name'] + rng.pick(
        [u' x', u'(x)', u'-x', u' ']).rstrip() if False else r['route_short_name'] + rng.pick(
            [u' x', u'(x)', u'-x', u'']), typ=WARNING,
      when=lambda m, r: 0 < len(r['route_short_name']) <= 6 and not r.get('route_desc'),
      harmless=True),

    M('trips', 'route_id', [u''], MISS, value=ANY),
    M('trips', 'service_id', [u''], MISS, value=ANY),
    M('trips', 'route_id', [u'no such route', u'0 0', u'\u0661']),
    M('trips', 'service_id', [u'no such service', u'0 0']),
    M('trips', 'shape_id', [u'no such shape', u'0 0']),
    M('trips', 'trip_id', [u''], MISS, value=ANY, drops='trip_id'),
    M('trips', 'direction_id', [u'2', u'-1', u'N', u'01', u'0.0']),
    M('trips', 'bikes_allowed', YNU, harmless=True),
    M('trips', 'wheelchair_accessible', YNU, harmless=True),

    M('stop_times', 'arrival_time', TIME, when=timed),
    M('stop_times', 'departure_time', TIME, when=timed),
    M('stop_times', 'arrival_time', [u''], MISS, value=ANY, when=timed),
    M('stop_times', 'departure_time', [u''], MISS, value=ANY, when=timed),
    M('stop_times', 'stop_id', [u'no such stop', u'0 0']),
    M('stop_times', 'trip_id', [u'no such trip', u'0 0']),
    M('stop_times', 'stop_sequence', INT + [u'']),
    M('stop_times', 'stop_sequence', [u'-1', u'-20']),
    M('stop_times', 'pickup_type', INT),
    M('stop_times', 'drop_off_type', INT),
    M('stop_times', 'timepoint', INT),
    M('stop_times', 'pickup_type', [u'4', u'-1', u'10'], typ=WARNING),
    M('stop_times', 'drop_off_type', [u'4', u'-1', u'10'], typ=WARNING),
    M('stop_times', 'timepoint', [u'2', u'-1', u'10'], typ=WARNING),
    M('stop_times', 'shape_dist_traveled', [u'abc', u'1,5', u'1.2.3', u'--1']),

    M('calendar', 'service_id', [u''], MISS, value=ANY, drops='service_id',
      when=lambda m, r: not m.find('calendar_dates', 'service_id', r['service_id'])),
    M('calendar', 'start_date', [u''], MISS, value=ANY),
    M('calendar', 'end_date', [u''], MISS, value=ANY),
    M('calendar', 'start_date', DATE),
    M('calendar', 'end_date', DATE),
    M('calendar', 'start_date', [u'18991231', u'00010101'], 'DateOutsideValidRange'),
    M('calendar', 'end_date', [u'21010101', u'99991231'], 'DateOutsideValidRange'),
    M('calendar', 'end_date', lambda rng, m, r: unicode(int(r['start_date']) - 10000)),
] + [
    M('calendar', d, [u''], MISS, value=ANY, when=other_day(d)) for d in feedgen.DAYS
] + [
    M('calendar', d, [u'2', u'x', u'-1', u'true', u'01'], when=other_day(d)) for d in feedgen.DAYS
] + [
    M('calendar_dates', 'date', [u''], MISS, value=ANY),
    M('calendar_dates', 'date', DATE),
    M('calendar_dates', 'date', [u'18991231', u'21010101'], 'DateOutsideValidRange'),
    M('calendar_dates', 'exception_type', [u'', u'0', u'3', u'x', u'-1', u'01', u'1.0']),

    M('fare_attributes', 'fare_id', [u''], MISS, value=ANY, drops='fare_id'),
    M('fare_attributes', 'price', [u'abc', u'1,5', u'$2', u'1.2.3', u'-1', u'-0.01'], harmless=True),
    M('fare_attributes', 'currency_type', [u''], MISS, value=ANY, harmless=True),
    M('fare_attributes', 'currency_type', [u'US', u'usd', u'USDX', u'$', u'ZZZ'], harmless=True),
    M('fare_attributes', 'payment_method', [u''], MISS, value=ANY, harmless=True),
    M('fare_attributes', 'payment_method', [u'2', u'-1', u'x', u'1.0'], harmless=True),
    M('fare_attributes', 'transfers', [u'3', u'-1', u'x', u'1.5'], harmless=True),
    M('fare_attributes', 'transfer_duration', [u'x', u'1.5', u'-1', u'-3600'], harmless=True),

    M('fare_rules', 'fare_id', [u''], MISS, value=ANY, harmless=True),
    M('fare_rules', 'fare_id', [u'no such fare'], harmless=True),
    M('fare_rules', 'route_id', [u'no such route'], harmless=True),
    M('fare_rules', 'origin_id', [u'no such zone'], harmless=True),
    M('fare_rules', 'destination_id', [u'no such zone'], harmless=True),
    M('fare_rules', 'contains_id', [u'no such zone'], harmless=True),

    M('frequencies', 'trip_id', [u'no such trip', u''], harmless=True),
    M('frequencies', 'start_time', [u''], MISS, value=ANY, harmless=True),
    M('frequencies', 'end_time', [u''], MISS, value=ANY, harmless=True),
    M('frequencies', 'headway_secs', [u''], MISS, value=ANY, harmless=True),
    M('frequencies', 'start_time', TIME, harmless=True),
    M('frequencies', 'end_time', TIME, harmless=True),
    M('frequencies', 'headway_secs', [u'x', u'1.5', u'-60', u'0', u'10:00'], harmless=True),
    M('frequencies', 'exact_times', [u'2', u'x', u'-1', u'0.5']),
    M('frequencies', 'end_time', lambda rng, m, r: r['start_time'], value=ANY),

    M('shapes', 'shape_id', [u''], MISS, value=ANY),
    M('shapes', 'shape_pt_lat', NUM + [u'', u'90.01', u'-91', u'nan']),
    M('shapes', 'shape_pt_lon', NUM + [u'', u'180.01', u'-181', u'inf']),
    M('shapes', 'shape_pt_sequence', [u'', u'x', u'-1', u'1.5', u'1 2']),
    M('shapes', 'shape_dist_traveled', [u'x', u'-1', u'-0.001', u'1,5', u'nan']),
    M('shapes', 'shape_pt_lat', [u'0', u'0.5', u'-0.99'], typ=WARNING, value=ANY,
      also=lambda rng, r: r.__setitem__('shape_pt_lon', rng.pick([u'0', u'0.5', u'-0.99']))),

    M('transfers', 'from_stop_id', [u''], MISS, value=ANY, harmless=True),
    M('transfers', 'to_stop_id', [u''], MISS, value=ANY, harmless=True),
    M('transfers', 'from_stop_id', [u'no such stop', u'0 0'], harmless=True),
    M('transfers', 'to_stop_id', [u'no such stop', u'0 0'], harmless=True),
    M('transfers', 'transfer_type', [u'4', u'x', u'-1', u'1.5', u'10'],
      when=lacks('min_transfer_time'), harmless=True),
    M('transfers', 'min_transfer_time', [u'x', u'1.5', u'-1', u'5 min'],
      when=lambda m, r: r.get('transfer_type') == u'2', harmless=True),
    M('transfers', 'min_transfer_time', [u'86400', u'100000'],
      when=lambda m, r: r.get('transfer_type') == u'2', harmless=True),
    M('transfers', 'min_transfer_time', [u'10800', u'86399'], typ=WARNING,
      when=lambda m, r: r.get('transfer_type') == u'2', harmless=True),
    M('transfers', 'min_transfer_time', [u'3600', u'600'],
      'MinimumTransferTimeSetWithInvalidTransferType', at=ANY, value=ANY,
      when=lambda m, r: r.get('transfer_type', u'') in (u'', u'0', u'1', u'3') and close(m, r),
      harmless=True),

    M('feed_info', 'feed_publisher_name', [u''], MISS, value=ANY),
    M('feed_info', 'feed_publisher_url', [u''], MISS, value=ANY),
    M('feed_info', 'feed_lang', [u''], MISS, value=ANY),
    M('feed_info', 'feed_publisher_url', URL, harmless=True),
    M('feed_info', 'feed_lang', LANG),
    M('feed_info', 'feed_start_date', DATE),
    M('feed_info', 'feed_end_date', DATE),
    M('feed_info', 'feed_end_date', lambda rng, m, r: unicode(int(r['feed_start_date']) - 10000),
      when=has('feed_start_date')),
]

# free text cells into which a byte that is not UTF-8 is put
TEXT = [('agency', 'agency_name'), ('stops', 'stop_name'), ('stops', 'stop_desc'),
        ('routes', 'route_desc'), ('trips', 'trip_headsign'), ('stop_times', 'stop_headsign'),
        ('feed_info', 'feed_publisher_name')]
MARK = u'\ue123'
# stands for a line break in a cell until the file is laid out
BREAK = u'\ue124'
LONG = [('stops', 'stop_desc'), ('routes', 'route_desc'), ('trips', 'trip_headsign'), ('stop_times', 'stop_headsign')]
REFERS = {'service_id': ['service_id'],
          'stop_id': ['stop_id', 'parent_station', 'from_stop_id', 'to_stop_id'],
          'route_id': ['route_id'], 'trip_id': ['trip_id'], 'fare_id': ['fare_id']}


def is_station(m, r):
  return any(x.get('parent_station', u'') == r['stop_id'] for x in m.table('stops')) or \
      r.get('location_type', u'') == u'1'


def close(m, r):
  a, b = m.find('stops', 'stop_id', r['from_stop_id']), m.find('stops', 'stop_id', r['to_stop_id'])
  return all(abs(float(a[c]) - float(b[c])) < 0.0005 for c in ('stop_lat', 'stop_lon'))


def same_value(got, want):
  if u(got).strip() == u(want):
    return True
  try:
    return float(got) == float(want)
  except (TypeError, ValueError):
    return u(got) == u'None' and want == u''


def style_of(rng):
  st = render.random_style(rng)
  st.shuffle_rows = False
  st.blank = 0.0
  return st


def lay_out(f, style):
  contents = render.files(f, style)
  return dict((n, x.replace(BREAK.encode('utf-8'), style.eol)) for n, x in contents.items())


def break_lines(ctx, rng, m):
  """Cells of more than one line."""
  for t, c in LONG:
    if c in m.cols.get(t, ()):
      for r in m.table(t):
        if rng.chance(0.3):
          r[c] = u'First, line' + BREAK + rng.pick([u'second line', u'', BREAK + u'third'])
          ctx.count('cells of several lines')


def harness_load(contents, d):
  p = render.write_zip(contents, os.path.join(d, 'f.zip'))
  _, rec = recorder.load(p)
  return rec


def expect_one(ctx, what, rec, m, table, row, cls, typ, column, value, harmless, gone):
  """Exactly the expected report for the row; no other row blamed."""
  found = []
  for e in rec.entries:
    if e.file_name is None and e.row_num is None:
      if harmless:
        ctx.fail(u'%s: reported besides: %r' % (what, e))
      continue
    if e.row_num is None:
      ctx.fail(u'%s: reported besides, for a file: %r' % (what, e))
      continue
    if (e.file_name, e.row_num) == (table + '.txt', row):
      found.append(e)
      continue
    # another row: only for references to what the defect removed
    if gone is not None and e.cls == 'InvalidValue' and e.column_name in REFERS[gone[0]] and \
        u(e.value) == gone[1]:
      ctx.count('references to what the defect removed')
      continue
    if gone is not None and gone[0] == 'stop_id' and e.cls == 'InvalidValue' and \
        e.file_name == 'fare_rules.txt' and u(e.value) == gone[2]:
      continue
    ctx.fail(u'%s: another row is blamed: %r' % (what, e))
  if len(found) != 1:
    ctx.fail(u'%s: reported %d times at %s row %d: %r' % (what, len(found), table, row, found))
    return
  e = found[0]
  if e.cls != cls or e.type != typ:
    ctx.fail(u'%s: expected %s of severity %s, got %r' % (what, cls, typ, e))
  if column is not ANY and e.column_name != column:
    ctx.fail(u'%s: expected column %s, got %s in %r' % (what, column, e.column_name, e))
  if value is not ANY and not same_value(e.value, value):
    ctx.fail(u'%s: expected value %r, got %r in %r' % (what, value, e.value, e))


def defect(ctx, rng, m, d):
  """Put one defect in a copy of the feed, load, judge.  False if not applicable."""
  k = rng.pick(KINDS)
  f = m.copy()
  rows = f.table(k.table)
  idx = [j for j, r in enumerate(rows) if k.when is None or k.when(f, r)]
  if not idx:
    return False
  j = rng.pick(idx)
  r = rows[j]
  old = r.get(k.column, u'')
  value = k.values(rng, f, r) if callable(k.values) else rng.pick(k.values)
  if value == old:
    return False
  r[k.column] = value
  if k.also:
    k.also(rng, r)
  for c in r:
    if c not in f.cols[k.table]:
      f.cols[k.table].append(c)
  gone = (k.drops, old, r.get('zone_id')) if k.drops else None
  what = u'%s row %d: %s = %r instead of %r' % (k.table, j + 2, k.column, value, old)
  rec = harness_load(lay_out(f, style_of(rng)), d)
  want = value if k.value is None else k.value
  expect_one(ctx, what, rec, f, k.table, j + 2, k.cls, k.typ, k.at, want, k.harmless, gone)
  ctx.count('defects judged')
  ctx.count('defects in ' + k.table)
  ctx.kinds.add((k.table, k.column, k.cls, k.typ))
  return True


def bad_bytes(ctx, rng, m, d):
  t, c = rng.pick(TEXT)
  f = m.copy()
  if not f.table(t):
    return False
  j = rng.randint(0, len(f.table(t)) - 1)
  f.table(t)[j][c] = u'x' + MARK + u'y'
  if c not in f.cols[t]:
    f.cols[t].append(c)
  contents = lay_out(f, style_of(rng))
  bad = rng.pick(['\xff', '\xc3', '\xe2\x82', '\xed'])
  contents[t + '.txt'] = contents[t + '.txt'].replace(MARK.encode('utf-8'), bad)
  rec = harness_load(contents, d)
  what = u'%s row %d: %s with the bytes %r' % (t, j + 2, c, bad)
  expect_one(ctx, what, rec, f, t, j + 2, 'InvalidValue', ERROR, c, ANY, False, None)
  ctx.count('cells that are not UTF-8')
  return True


def extra_cell(ctx, rng, m, d):
  t = rng.pick(sorted(x for x in m.rows if m.rows[x]))
  st = style_of(rng)
  contents = render.files(m, st)
  data = contents[t + '.txt']
  lines = data.split(st.eol)
  j = rng.randint(0, len(m.rows[t]) - 1)
  # no line ends in cells yet
  extra = rng.pick([',', ',x', ',,', ',"y"'])
  lines[j + 1] += extra
  contents[t + '.txt'] = st.eol.join(lines)
  contents = dict((n, x.replace(BREAK.encode('utf-8'), st.eol)) for n, x in contents.items())
  rec = harness_load(contents, d)
  expect_one(ctx, u'%s row %d with %r appended' % (t, j + 2, extra), rec, m, t, j + 2,
             'OtherProblem', WARNING, ANY, ANY, True, None)
  ctx.count('rows with too many cells')
  return True


def run_case(ctx, rng, i):
  d = ctx.tmpdir()
  if not hasattr(ctx, 'kinds'):
    ctx.kinds = set()
  try:
    m = feedgen.generate(rng, fares=0.8, freqs=0.6, transfers=0.8, feed_info=0.8, stations=0.6)
    if rng.chance(0.4):
      break_lines(ctx, rng, m)
    rec = harness_load(lay_out(m, style_of(rng)), d)
    if rec.entries:
      ctx.fail(u'a valid feed is not clean: %r' % rec.entries[:5])
      return
    ctx.count('clean feeds')
    n = 0
    tries = 0
    while n < 9 and tries < 40:
      tries += 1
      if len(ctx.violations) > 30:
        return
      kind = rng.random()
      if kind < 0.9:
        n += defect(ctx, rng, m, d)
      elif kind < 0.95:
        n += bad_bytes(ctx, rng, m, d)
      else:
        n += extra_cell(ctx, rng, m, d)
    ctx.seen([i, sorted(m.rows), n])
    ctx.sample({'case': i, 'defects': n, 'rows': dict((t, len(m.rows[t])) for t in m.rows)})
  finally:
    shutil.rmtree(d, ignore_errors=True)


def finish(ctx):
  for k in getattr(ctx, 'kinds', ()):
    ctx.count('kind %s %s %s %s' % k)
