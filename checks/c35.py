# -*- coding: utf-8 -*-
"""C35: feed objects are equal exactly when their fields are, and copy and index as records."""
import copy

import transitfeed

from harness import recorder

CASES = {'quick': 12000, 'thorough': 400000}
RULE = ('a case is a random object of a random kind with random fields, compared with twins, altered twins and '
        'copies, read as a mapping and added to a schedule; distinct by the kind and the fields')
MINIMUM = {'altered twins': 20000, 'copies': 2500, 'objects added to a schedule': 2500, 'fields read': 30000,
           'columns compared': 15000}
ASSUMPTIONS = ['a location_type that is not set is not compared with one that is 0',
               'columns that GTFS does not define are not compared for fares']

TEXTS = [u'a', u'b', u'A', u'a ', u'Z\xfcrich', u'x, y', u'"q"', u'\u5317\u4eac', u'0', u'1', u'12', u'01', u'0.0']
DAYS = ['20270101', '20270201', '20271231', '20280229']
EXTRA = ['my_note', 'x', 'zone_colour', 'route_mood']


def number(rng):
  return rng.pick([0, 1, 2, 3, 60, 900])


class Kind(object):
  def __init__(self, name, cls, fields, numbers=(), floats=(), extra=True, defaults=(), copies=True, add=None):
    self.name, self.cls, self.fields = name, cls, fields
    self.numbers, self.floats, self.extra = numbers, floats, extra
    self.defaults, self.copies, self.add = dict(defaults), copies, add

  def value(self, rng, field):
    if field in self.numbers:
      return number(rng)
    if field in self.floats:
      return rng.pick([0.0, 1.5, -12.25, 47.000001, 47.0, 100.125])
    return rng.pick(TEXTS)

  def random(self, rng):
    names = rng.sub(self.fields, rng.pick([0.3, 0.7, 1.0]))
    if self.extra:
      names = names + rng.sub(EXTRA, 0.2)
    return dict((n, self.value(rng, n)) for n in names)

  def make(self, row):
    return self.cls(field_dict=dict(row))


KINDS = [
    Kind('agency', transitfeed.Agency, ['agency_id', 'agency_name', 'agency_url', 'agency_timezone', 'agency_lang',
                                        'agency_phone', 'agency_fare_url', 'agency_email'],
         add=lambda s, o: s.AddAgencyObject(o)),
    Kind('stops', transitfeed.Stop, ['stop_id', 'stop_code', 'stop_name', 'stop_desc', 'stop_lat', 'stop_lon',
                                     'zone_id', 'stop_url', 'parent_station', 'stop_timezone',
                                     'wheelchair_boarding'],
         floats=('stop_lat', 'stop_lon'), add=lambda s, o: s.AddStopObject(o)),
    Kind('routes', transitfeed.Route, ['route_id', 'agency_id', 'route_short_name', 'route_long_name', 'route_desc',
                                       'route_type', 'route_url', 'route_color', 'route_text_color',
                                       'bikes_allowed'],
         numbers=('route_type',), add=lambda s, o: s.AddRouteObject(o)),
    Kind('trips', transitfeed.Trip, ['route_id', 'service_id', 'trip_id', 'trip_headsign', 'trip_short_name',
                                     'direction_id', 'block_id', 'shape_id', 'bikes_allowed',
                                     'wheelchair_accessible', 'original_trip_id'], copies=False),
    Kind('transfers', transitfeed.Transfer, ['from_stop_id', 'to_stop_id', 'transfer_type', 'min_transfer_time'],
         numbers=('transfer_type', 'min_transfer_time'), defaults={'transfer_type': 0},
         add=lambda s, o: s.AddTransferObject(o)),
    Kind('feed_info', transitfeed.FeedInfo, ['feed_publisher_name', 'feed_publisher_url', 'feed_lang',
                                             'feed_start_date', 'feed_end_date', 'feed_version'],
         add=lambda s, o: s.AddFeedInfoObject(o)),
    Kind('fare_attributes', transitfeed.FareAttribute, ['fare_id', 'price', 'currency_type', 'payment_method',
                                                        'transfers', 'transfer_duration'],
         numbers=('payment_method', 'transfers', 'transfer_duration'), floats=('price',), extra=False),
    Kind('fare_rules', transitfeed.FareRule, ['fare_id', 'route_id', 'origin_id', 'destination_id', 'contains_id'],
         extra=False),
]


def same(ctx, a, b, want, what):
  """All four comparisons of a and b."""
  got = (bool(a == b), bool(b == a), not (a != b), not (b != a))
  ctx.check(got == (want,) * 4, u'%s: a == b, b == a, not a != b, not b != a are %r; all should be %r', what,
            got, want)


def is_set(v):
  return v is not None and v != u''


def record_case(ctx, rng, kind):
  row = kind.random(rng)
  if not row:
    row = {kind.fields[0]: u'only'}
  what = u'%s %r' % (kind.name, sorted(row.items()))
  a, b = kind.make(row), kind.make(row)
  same(ctx, a, a, True, what + u' and itself')
  same(ctx, a, b, True, what + u' and its twin')
  ctx.check(not (a == None) and (a != None), what + u' equals None')  # pylint: disable=C0121
  # As a mapping and by attributes
  full = dict(row)
  for n, v in kind.defaults.items():
    full.setdefault(n, v)
  for n in kind.fields:
    v = full.get(n)
    ctx.check(getattr(a, n) == v, u'%s: attribute %s is %r', what, n, getattr(a, n))
    if kind.extra:
      ctx.check(a[n] == (u'' if v is None else u'%s' % v), u'%s: [%s] is %r', what, n, a[n])
    else:
      ctx.check(a[n] == v, u'%s: [%s] is %r', what, n, a[n])
    ctx.count('fields read')
  if kind.extra:
    ctx.check(a['no_such_column'] == u'', u'%s: [no_such_column] is %r', what, a['no_such_column'])
    for n in EXTRA:
      ctx.check(a[n] == u'%s' % row.get(n, u''), u'%s: [%s] is %r', what, n, a[n])
  for n in ['no_such_column'] + [n for n in EXTRA if n not in row]:
    try:
      ctx.fail(u'%s: attribute %s is %r' % (what, n, getattr(a, n)))
    except AttributeError:
      pass
  got = dict((k, v) for k, v in a.iteritems() if is_set(v) and k != 'rules')
  ctx.check(got == full, u'%s: iteritems are %r', what, got)
  got = set(a.keys()) - set(['rules'])
  ctx.check(got >= set(full) and all(not is_set(getattr(a, k)) for k in got - set(full)), u'%s: keys are %r', what,
            sorted(got))
  # Twins that differ in one field
  names = list(kind.fields) + (EXTRA if kind.extra else [])
  for n in rng.sample(names, min(len(names), 4)):
    old = full.get(n)
    new = kind.value(rng, n)
    if rng.chance(0.3):
      new = None
    if new is not None and not is_set(new):
      continue
    old_text, new_text = [u'' if x is None else u'%s' % x for x in (old, new)]
    if not kind.extra:
      equal = old == new
    else:
      equal = old_text == new_text
    setattr(b, n, new)
    ctx.count('altered twins')
    same(ctx, a, b, equal, u'%s and its twin with %s %r' % (what, n, new))
    if kind.extra:
      ctx.check(b[n] == new_text, u'%s: [%s] is %r after setting it to %r', what, n, b[n], new)
      if not new_text:
        # nothing, an empty text and no such attribute are the same
        setattr(b, n, u'')
        same(ctx, a, b, equal, u'%s and its twin with %s empty' % (what, n))
        delattr(b, n)
        same(ctx, a, b, equal, u'%s and its twin without %s' % (what, n))
    setattr(b, n, old)
    same(ctx, a, b, True, u'%s and its twin with %s restored' % (what, n))
    ctx.check(dict((k, v) for k, v in a.iteritems() if is_set(v) and k != 'rules') == full,
              u'%s changes with its twin', what)
  # Copies
  if kind.copies:
    c = kind.cls(field_dict=a)
    ctx.count('copies')
    same(ctx, a, c, True, what + u' and its copy')
    n = kind.fields[0]
    setattr(c, n, u'changed')
    ctx.check(getattr(a, n) == full.get(n), u'%s: %s changes with a copy', what, n)
    same(ctx, a, c, False, what + u' and its changed copy')
  if kind.name == 'fare_attributes' and rng.chance(0.5):
    # Fares are their rules too, in any order
    rules = [dict((f, rng.pick(TEXTS)) for f in KINDS[-1].fields) for _ in range(rng.randint(1, 3))]
    b = kind.make(row)
    for r in rules:
      a.rules.append(transitfeed.FareRule(field_dict=dict(r)))
    same(ctx, a, b, False, what + u' and its twin without rules')
    for r in rng.shuffled(rules):
      b.GetFareRuleList().append(transitfeed.FareRule(field_dict=dict(r)))
    same(ctx, a, b, True, what + u' and its twin with the same rules')
    last = b.rules[-1]
    last.contains_id = u'elsewhere'
    same(ctx, a, b, False, what + u' and its twin with another rule')
    b.ClearFareRules()
    ctx.equal(b.GetFareRuleList(), [], what + u': rules after clearing them')
    ctx.check(len(a.rules) == len(rules), what + u': rules are cleared with those of a twin')
    same(ctx, a, b, False, what + u' and its twin without rules again')
  if kind.add:
    added_case(ctx, rng, kind, row, what)
  ctx.seen((kind.name, sorted(row.items())))
  ctx.sample(what)


def added_case(ctx, rng, kind, row, what):
  """An object in a schedule: equal as before, and what it sets is a column of its table."""
  _, rep = recorder.new()
  s = transitfeed.Schedule(rep)
  if kind.name in ('routes',) or rng.chance(0.2):
    s.AddAgency(u'A', u'http://a.example', u'Europe/Berlin', agency_id=u'A')
  row = dict(row)
  key = {'agency': 'agency_id', 'stops': 'stop_id', 'routes': 'route_id'}.get(kind.name)
  if key:
    row[key] = u'key'
  if kind.name == 'routes':
    row['agency_id'] = u'A'
    row['route_type'] = 3
  if kind.name == 'stops':
    row['stop_lat'], row['stop_lon'] = 47.5, 8.5
  a, free = kind.make(row), kind.make(row)
  kind.add(s, a)
  ctx.count('objects added to a schedule')
  same(ctx, a, free, True, what + u' in a schedule and its twin outside')
  columns = s.GetTableColumns(kind.name)
  ctx.check(len(set(columns)) == len(columns), u'%s: columns are repeated: %r', what, columns)
  for n, v in row.items():
    ctx.check(n in columns, u'%s: %s is not a column of %r', what, n, columns)
    ctx.count('columns compared')
  before = list(columns)
  n = rng.pick(EXTRA + kind.fields)
  setattr(a, n, u'later')
  now = s.GetTableColumns(kind.name)
  ctx.check(now == before + ([] if n in before else [n]), u'%s: columns after setting %s: %r, before %r', what, n,
            now, before)
  n = '_private'
  setattr(a, n, u'x')
  ctx.check(s.GetTableColumns(kind.name) == now and n not in a.keys(), what + u': a private attribute is a column')


def service(row):
  p = transitfeed.ServicePeriod(row['id'])
  for k, on in enumerate(row['days']):
    p.SetDayOfWeekHasService(k, on)
  p.SetStartDate(row['start'])
  p.SetEndDate(row['end'])
  for d, on in row['dates']:
    p.SetDateHasService(d, on)
  return p


def service_case(ctx, rng):
  """Services are equal when their calendar and their exceptions are."""
  row = dict(id=rng.pick(TEXTS), days=[rng.chance(0.5) for _ in range(7)], start=DAYS[0], end=DAYS[2],
             dates=rng.shuffled([(d, rng.chance(0.5)) for d in rng.sub(DAYS, 0.5)]))
  if rng.chance(0.4):
    row['dates'] += [('202706%02d' % d, rng.chance(0.5)) for d in rng.sample(range(1, 31), rng.randint(5, 30))]
  if rng.chance(0.2):
    row.update(start=None, end=None, days=[False] * 7, dates=row['dates'] or [(DAYS[1], True)])
  what = u'service %r' % sorted(row.items())
  a = service(row)
  same(ctx, a, service(dict(row, dates=rng.shuffled(row['dates']))), True, what + u' and its twin')
  ctx.check(not (a == None) and (a != None), what + u' equals None')  # pylint: disable=C0121
  other = copy.deepcopy(row)
  change = rng.pick(['id', 'days', 'start', 'end', 'dates', 'dates'])
  if change == 'id':
    other['id'] = other['id'] + u'x'
  elif change == 'days' and row['start']:
    k = rng.randint(0, 6)
    other['days'][k] = not other['days'][k]
  elif change in ('start', 'end') and row['start']:
    other[change] = DAYS[1]
  elif row['dates'] and rng.chance(0.6):
    k = rng.randint(0, len(row['dates']) - 1)
    d, on = other['dates'].pop(k)
    if rng.chance(0.6):
      other['dates'].append((d, not on))
  else:
    other['dates'].append(('20290301', True))
  ctx.count('altered twins')
  same(ctx, a, service(other), False, u'%s and %r' % (what, sorted(other.items())))
  b = service(dict(row, dates=row['dates'] + [('20290301', True)]))
  b.ResetDateToNormalService('20290301')
  same(ctx, a, b, True, what + u' and its twin after an exception is taken back')
  ctx.seen(what)
  ctx.sample(what)


def shape_case(ctx, rng):
  _, rep = recorder.new()
  pts = [(round(rng.uniform(-50, 50), 5), round(rng.uniform(-100, 100), 5), 10.0 * k)
         for k in range(rng.randint(1, 5))]

  def make(pts, name):
    s = transitfeed.Shape(name)
    for p in pts:
      s.AddPoint(*p, problems=rep)
    return s
  what = u'shape %r' % pts
  a = make(pts, u'one')
  same(ctx, a, make(pts, rng.pick([u'one', u'two'])), True, what + u' and its twin')
  k = rng.randint(0, len(pts) - 1)
  x, y, d = pts[k]
  for altered in (pts[:k] + [rng.pick([(x + 1e-4, y, d), (x, y + 1e-4, d), (x, y, d + 1)])] + pts[k + 1:], pts[:-1],
                  pts + [(1.0, 2.0, 1000.0)]):
    ctx.count('altered twins')
    same(ctx, a, make(altered, u'one'), False, u'%s and %r' % (what, altered))
  ctx.check(not (a == None), what + u' equals None')  # pylint: disable=C0121
  ctx.seen(what)
  ctx.sample(what)


def run_case(ctx, rng, i):
  k = i % (len(KINDS) + 2)
  if k < len(KINDS):
    record_case(ctx, rng, KINDS[k])
  elif k == len(KINDS):
    service_case(ctx, rng)
  else:
    shape_case(ctx, rng)
