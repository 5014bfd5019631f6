# -*- coding: utf-8 -*-
"""Generator of model feeds, valid by construction, as tables of text cells.

A Feed maps a table name ('stops') to a list of columns and a list of rows
(dict column -> unicode text, '' when empty).  It is the independent model
that loaded schedules are compared with; nothing here uses transitfeed.
"""
import copy
import datetime
import math

from harness import geo

COLUMNS = {
    'agency': ['agency_id', 'agency_name', 'agency_url', 'agency_timezone',
               'agency_lang', 'agency_phone', 'agency_fare_url', 'agency_email'],
    'stops': ['stop_id', 'stop_name', 'stop_lat', 'stop_lon', 'stop_desc',
              'zone_id', 'stop_url', 'stop_code', 'location_type',
              'parent_station', 'stop_timezone', 'wheelchair_boarding'],
    'routes': ['route_id', 'route_short_name', 'route_long_name', 'route_type',
               'agency_id', 'route_desc', 'route_url', 'route_color',
               'route_text_color', 'bikes_allowed'],
    'trips': ['route_id', 'service_id', 'trip_id', 'trip_headsign',
              'trip_short_name', 'direction_id', 'block_id', 'shape_id',
              'bikes_allowed', 'wheelchair_accessible', 'original_trip_id'],
    'stop_times': ['trip_id', 'arrival_time', 'departure_time', 'stop_id',
                   'stop_sequence', 'stop_headsign', 'pickup_type',
                   'drop_off_type', 'shape_dist_traveled', 'timepoint'],
    'calendar': ['service_id', 'start_date', 'end_date', 'monday', 'tuesday',
                 'wednesday', 'thursday', 'friday', 'saturday', 'sunday'],
    'calendar_dates': ['service_id', 'date', 'exception_type'],
    'fare_attributes': ['fare_id', 'price', 'currency_type', 'payment_method',
                        'transfers', 'transfer_duration'],
    'fare_rules': ['fare_id', 'route_id', 'origin_id', 'destination_id',
                   'contains_id'],
    'frequencies': ['trip_id', 'start_time', 'end_time', 'headway_secs',
                    'exact_times'],
    'shapes': ['shape_id', 'shape_pt_lat', 'shape_pt_lon', 'shape_pt_sequence',
               'shape_dist_traveled'],
    'transfers': ['from_stop_id', 'to_stop_id', 'transfer_type',
                  'min_transfer_time'],
    'feed_info': ['feed_publisher_name', 'feed_publisher_url', 'feed_lang',
                  'feed_start_date', 'feed_end_date', 'feed_version'],
}
REQUIRED = {
    'agency': ['agency_name', 'agency_url', 'agency_timezone'],
    'stops': ['stop_id', 'stop_name', 'stop_lat', 'stop_lon'],
    'routes': ['route_id', 'route_short_name', 'route_long_name', 'route_type'],
    'trips': ['route_id', 'service_id', 'trip_id'],
    'stop_times': ['trip_id', 'arrival_time', 'departure_time', 'stop_id',
                   'stop_sequence'],
    'calendar': COLUMNS['calendar'],
    'calendar_dates': COLUMNS['calendar_dates'],
    'fare_attributes': ['fare_id', 'price', 'currency_type', 'payment_method',
                        'transfers'],
    'fare_rules': ['fare_id'],
    'frequencies': ['trip_id', 'start_time', 'end_time', 'headway_secs'],
    'shapes': ['shape_id', 'shape_pt_lat', 'shape_pt_lon', 'shape_pt_sequence'],
    'transfers': ['from_stop_id', 'to_stop_id', 'transfer_type'],
    'feed_info': ['feed_publisher_name', 'feed_publisher_url', 'feed_lang'],
}
EXTRA_TABLES = ['agency', 'stops', 'routes', 'trips', 'transfers', 'feed_info']
DAYS = ['monday', 'tuesday', 'wednesday', 'thursday', 'friday', 'saturday',
        'sunday']
TIMEZONES = [u'America/Los_Angeles', u'Europe/Zurich', u'Asia/Tokyo', u'UTC',
             u'America/Argentina/Buenos_Aires']
LANGS = [u'en', u'de', u'fr', u'ja', u'EN', u'zu']
CURRENCIES = [u'USD', u'EUR', u'CHF', u'JPY', u'XXX']
WORDS = [u'Main', u'St', u'Zürich', u'Bahnhof', u'東京', u'Café', u"O'Hare",
         u'"Quoted"', u'A, B', u'1st', u'&amp;', u'<b>', u'Straße', u'Ñandú',
         u'\u0416\u0443\u043a', u'a;b', u'100%', u'%s', u'x=y', u'\U0001f68c',
         u'0', u'None', u'null', u'-', u'...', u'C\\D', u'#7', u'\u05d0\u05d1']
COLOR_PAIRS = [(u'', u''), (u'FFFFFF', u'000000'), (u'000000', u'FFFFFF'),
               (u'0000ff', u'FFFF00'), (u'', u'000000'), (u'FFFF00', u''),
               (u'FFFF00', u'000001'), (u'00FF00', u'000000'),
               (u'1A2b3C', u'fffffe')]
MAXSPEED = {0: 100, 1: 150, 2: 300, 3: 100, 4: 80, 5: 50, 6: 50, 7: 50}


def today():
  return datetime.date.today()


def ymd(d):
  return unicode(d.strftime('%Y%m%d'))


def hms(secs, style=0):
  h, m, s = secs // 3600, secs // 60 % 60, secs % 60
  if style == 1:
    return u'%d:%02d:%02d' % (h, m, s)
  if style == 2 and h < 100:
    return u'%03d:%02d:%02d' % (h, m, s)
  return u'%02d:%02d:%02d' % (h, m, s)


def words(rng, lo=1, hi=3):
  return u' '.join(rng.pick(WORDS) for _ in range(rng.randint(lo, hi)))


class Ids(object):
  """Unique identifiers of assorted ugly kinds."""

  def __init__(self, rng, prefix, plain=False):
    self.rng = rng
    self.prefix = prefix
    self.used = set()
    self.plain = plain
    self.style = 0 if plain else rng.randint(0, 5)

  def new(self):
    rng = self.rng
    while True:
      n = len(self.used)
      style = self.style
      if style == 5:
        style = rng.randint(0, 4)
      if style == 0:
        v = u'%s%d' % (self.prefix, n)
      elif style == 1:
        v = u'%d' % n
      elif style == 2:
        v = rng.pick([u'0', u'00', u'01', u'1', u'1.0', u'a', u'A', u'à', u'á',
                      u'a b', u'a  b', u'a,b', u'a"b', u"a'b", u'-1', u'None',
                      u'é%s', u'東', u'x' * 60, u'%', u'_', u'a_', u'A%',
                      u'true', u'1e5', u'100000', u'٣'])
        if rng.chance(0.3):
          v = v + unicode(n)
      elif style == 3:
        v = u'%s %s %d' % (self.prefix, rng.pick(WORDS), n)
      else:
        v = u'%s' % rng.pick(u'abcABC') + unicode(rng.randint(0, 30))
      v = v.strip()
      if v and v not in self.used:
        self.used.add(v)
        return v
      if style == 2 and rng.chance(0.3):
        self.style = 3


class Feed(object):
  def __init__(self):
    self.cols = {}
    self.rows = {}
    self.meta = {}

  def table(self, name):
    return self.rows.get(name, [])

  def add(self, table, **row):
    self.rows.setdefault(table, []).append(row)
    return row

  def copy(self):
    f = Feed()
    f.cols = copy.deepcopy(self.cols)
    f.rows = copy.deepcopy(self.rows)
    f.meta = copy.deepcopy(self.meta)
    return f

  def find(self, table, column, value):
    for r in self.table(table):
      if r.get(column, u'') == value:
        return r
    return None

  def ids(self, table, column):
    return [r.get(column, u'') for r in self.table(table)]

  def finish_columns(self, rng=None, keep_empty=0.4):
    """Choose each table's columns: all used ones, required ones, some empty."""
    self.cols = {}
    for t, rows in self.rows.items():
      used = set()
      for r in rows:
        for k, v in r.items():
          if v != u'':
            used.add(k)
      cols = []
      for c in COLUMNS[t]:
        if c in used or c in REQUIRED[t] or (
            rng is not None and rng.chance(keep_empty)) or rng is None:
          cols.append(c)
      for c in sorted(used - set(COLUMNS[t])):
        cols.append(c)
      self.cols[t] = cols
    return self


def jitter(rng, x, digits=6):
  return round(x, digits)


def num(x, digits):
  s = u'%.*f' % (digits, x)
  return s


class Gen(object):
  """One feed.  Options may be overridden by keyword."""

  def __init__(self, rng, **opt):
    self.rng = rng
    o = dict(stops=(2, 9), routes=(1, 4), trips=(1, 6), services=(1, 4),
             agencies=(1, 3), shapes=0.5, fares=0.5, freqs=0.3, transfers=0.5,
             feed_info=0.5, stations=0.4, blocks=0.3, extra=0.0,
             zero_values=0.3, untimed=0.3, plain_ids=False, sparse=0.5,
             long_day=0.2, lat=None, lon=None, seq_zero=0.3, idless=0.15,
             round_trip=0.3, calendar_only_dates=0.25, times_style=True,
             plain_text=False, prefix=u'')
    o.update(opt)
    self.o = o
    self.f = Feed()
    self.plain = o['plain_ids'] or rng.chance(0.3)

  def n(self, key):
    lo, hi = self.o[key]
    return self.rng.randint(lo, hi)

  def maybe(self, value, p=0.5):
    return value if self.rng.chance(p * (1 - self.sparse)) else u''

  def text(self, lo=1, hi=3):
    if self.o['plain_text']:
      return u'text %d' % self.rng.randint(0, 99999)
    return words(self.rng, lo, hi).strip()

  def make(self):
    rng = self.rng
    self.sparse = rng.random() * self.o['sparse'] * 2 * 0.5
    self.ids = dict((t, Ids(rng, self.o['prefix'] + p, self.plain)) for t, p in [
        ('agency', u'ag'), ('stop', u's'), ('route', u'r'), ('trip', u't'),
        ('service', u'sv'), ('fare', u'f'), ('shape', u'sh'), ('zone', u'z'),
        ('block', u'b')])
    self.lang = rng.pick(LANGS)
    self.agencies()
    self.routes()
    self.services()
    self.stops()
    self.trips()
    self.prune_stops()
    self.fares()
    self.transfers()
    self.feed_info()
    self.extra()
    self.f.finish_columns(rng)
    return self.f

  def url(self):
    return self.rng.pick([u'http://', u'https://']) + self.rng.pick(
        [u'example.com', u'a.b/c?d=e&f=g', u'x.org/ä', u'y'])

  def agencies(self):
    rng = self.rng
    n = self.n('agencies')
    tz = rng.pick(TIMEZONES)
    for i in range(n):
      aid = self.ids['agency'].new()
      if n == 1 and rng.chance(self.o['idless']):
        aid = u''
      self.f.add('agency', agency_id=aid, agency_name=self.text(),
                 agency_url=self.url(), agency_timezone=tz,
                 agency_lang=self.maybe(self.lang),
                 agency_phone=self.maybe(u'(0%d) 55-5' % i),
                 agency_fare_url=self.maybe(self.url()),
                 agency_email=self.maybe(u'a%d@b.c' % i))

  def routes(self):
    rng = self.rng
    types = [0, 1, 2, 3, 4, 5, 6, 7]
    types.remove(rng.pick([1, 3]))
    agencies = self.f.table('agency')
    for i in range(self.n('routes')):
      rid = self.ids['route'].new()
      short = u'%s%d' % (rng.pick([u'R', u'', u'Ü', u'N"', u'0']), i)
      long_ = u'%s %s %d' % (rng.pick([u'Line', u'Tür, to', u'Über "x"']),
                             self.text(1, 2), i)
      which = rng.randint(0, 2)
      if which == 0:
        short = u''
      elif which == 1:
        long_ = u''
      ag = rng.pick(agencies)['agency_id']
      if len(agencies) == 1 and rng.chance(0.3):
        ag = u''
      bg, fg = rng.pick(COLOR_PAIRS)
      self.f.add('routes', route_id=rid, route_short_name=short,
                 route_long_name=long_, route_type=unicode(rng.pick(types)),
                 agency_id=ag, route_desc=self.maybe(u'desc ' + self.text()),
                 route_url=self.maybe(self.url()), route_color=bg,
                 route_text_color=fg,
                 bikes_allowed=self.maybe(rng.pick([u'0', u'1', u'2'])))

  def services(self):
    rng = self.rng
    t = today()
    base = t - datetime.timedelta(days=rng.randint(10, 200))
    dates_only = rng.chance(self.o['calendar_only_dates'])
    first = True
    any_cal = False
    for i in range(self.n('services')):
      sid = self.ids['service'].new()
      start = base + datetime.timedelta(days=0 if first else rng.randint(0, 100))
      end = t + datetime.timedelta(days=rng.randint(80, 300))
      if not first and rng.chance(0.2):
        # A service of one day, or of a few
        end = start + datetime.timedelta(days=rng.pick([0, 0, 1, 6]))
      kind = 1 if dates_only else rng.pick([0, 0, 1, 2])
      exc = {}
      if kind != 1:
        days = [rng.chance(0.5) for _ in DAYS]
        if not any(days):
          days[rng.randint(0, 6)] = True
        row = dict(service_id=sid, start_date=ymd(start), end_date=ymd(end))
        for d, v in zip(DAYS, days):
          row[d] = u'1' if v else u'0'
        if kind == 2 and not first and rng.chance(0.2):
          # Runs on its exceptional days only
          row.update((d, u'0') for d in DAYS)
          exc[ymd(start + datetime.timedelta(days=rng.randint(0, (end - start).days)))] = u'1'
        self.f.add('calendar', **row)
        any_cal = True
      if kind != 0 or first:
        for _ in range(rng.randint(1, 5)):
          d = base + datetime.timedelta(days=rng.randint(0, (end - base).days))
          exc.setdefault(ymd(d), rng.pick([u'1', u'2']))
        if kind == 1:
          exc[ymd(end)] = u'1'
          exc[ymd(base)] = u'1'
      for d in rng.shuffled(exc):
        self.f.add('calendar_dates', service_id=sid, date=d,
                   exception_type=exc[d])
      first = False

  def service_ids(self):
    ids = []
    for t in ('calendar', 'calendar_dates'):
      for s in self.f.ids(t, 'service_id'):
        if s not in ids:
          ids.append(s)
    return ids

  def stops(self):
    rng = self.rng
    lat = self.o['lat']
    lon = self.o['lon']
    if lat is None:
      lat = rng.pick([-1, 1]) * rng.uniform(2, 70)
    if lon is None:
      lon = rng.pick([-1, 1]) * rng.uniform(2, 178)
    self.base = (lat, lon)
    zones = [self.ids['zone'].new() for _ in range(rng.randint(0, 3))]
    n = max(2, self.n('stops'))
    digits = rng.pick([4, 5, 6, 7])
    step = rng.pick([300, 800, 2000])
    for i in range(n):
      la, lo = geo.offset(lat, lon, (i // 4) * step + rng.uniform(-0.2, 0.2) * step,
                          (i % 4) * step + rng.uniform(-0.2, 0.2) * step)
      name = self.text()
      lat_text = num(la, digits)
      lon_text = num(lo, digits)
      row = dict(stop_id=self.ids['stop'].new(), stop_name=name,
                 stop_lat=lat_text, stop_lon=lon_text,
                 stop_desc=self.maybe(u'd: ' + self.text()),
                 zone_id=rng.pick(zones) if zones and rng.chance(0.7) else u'',
                 stop_url=self.maybe(self.url()),
                 stop_code=self.maybe(u'%03d' % i),
                 location_type=self.maybe(u'0'),
                 parent_station=u'', stop_timezone=u'',
                 wheelchair_boarding=self.maybe(rng.pick([u'0', u'1', u'2'])))
      if rng.chance(0.15):
        row['stop_timezone'] = rng.pick(TIMEZONES)
      self.f.add('stops', **row)
    if rng.chance(self.o['stations']):
      for k in range(rng.randint(1, 2)):
        child = rng.pick(self.f.table('stops')[:n])
        if child['parent_station']:
          continue
        la, lo = geo.offset(float(child['stop_lat']), float(child['stop_lon']),
                            rng.uniform(25, 40), rng.uniform(25, 40))
        sid = self.ids['stop'].new()
        self.f.add('stops', stop_id=sid, stop_name=u'Station ' + self.text(),
                   stop_lat=num(la, 6), stop_lon=num(lo, 6),
                   location_type=u'1', zone_id=self.maybe(u'zstation'),
                   stop_timezone=self.maybe(rng.pick(TIMEZONES)))
        child['parent_station'] = sid
        child['stop_timezone'] = u''
        if rng.chance(0.5):
          la, lo = geo.offset(la, lo, rng.uniform(5, 20), -rng.uniform(5, 20))
          self.f.add('stops', stop_id=self.ids['stop'].new(),
                     stop_name=u'Entrance ' + self.text(),
                     stop_lat=num(la, 6), stop_lon=num(lo, 6),
                     location_type=rng.pick([u'2', u'3']), parent_station=sid)

  def pos(self, stop):
    return float(stop['stop_lat']), float(stop['stop_lon'])

  def trips(self):
    rng = self.rng
    stops = [s for s in self.f.table('stops')
             if s.get('location_type', u'') in (u'', u'0')]
    services = self.service_ids()
    self.block_end = {}
    blocks = [self.ids['block'].new() for _ in range(2)]
    use_blocks = rng.chance(self.o['blocks'])
    use_shapes = rng.chance(self.o['shapes'])
    use_freq = rng.chance(self.o['freqs'])
    trip_ids = []
    for route in self.f.table('routes'):
      ntrips = self.n('trips')
      pattern = None
      for k in range(ntrips):
        if pattern is None or rng.chance(0.4):
          pattern, shape_id, dists = self.pattern(stops, use_shapes)
        tid = self.ids['trip'].new()
        block = u''
        start = rng.randint(0, 23 * 3600) if rng.chance(0.8) else 0
        if rng.chance(self.o['long_day'] * 0.5):
          start += 3600 * rng.randint(1, 30)
        if rng.chance(0.5):
          start -= start % 60
        if use_blocks and rng.chance(0.6):
          block = rng.pick(blocks)
          start = self.block_end.get(block, start)
        self.f.add('trips', route_id=route['route_id'],
                   service_id=rng.pick(services), trip_id=tid,
                   trip_headsign=self.maybe(self.text()),
                   trip_short_name=self.maybe(u'T%d' % k),
                   direction_id=self.maybe(rng.pick([u'0', u'1']), 0.8),
                   block_id=block, shape_id=shape_id,
                   bikes_allowed=self.maybe(rng.pick([u'0', u'1', u'2'])),
                   wheelchair_accessible=self.maybe(rng.pick([u'0', u'1', u'2'])),
                   original_trip_id=self.maybe(u'orig %d' % k))
        end = self.stop_times(tid, pattern, dists, start,
                              MAXSPEED[int(route['route_type'])])
        if block:
          self.block_end[block] = end + rng.pick([0, 60, 300])
        if use_freq and rng.chance(0.4):
          self.frequencies(tid)

  def pattern(self, stops, use_shapes):
    rng = self.rng
    k = rng.randint(2, min(len(stops), 7)) if len(stops) > 1 else 2
    chosen = [rng.pick(stops)]
    while len(chosen) < k:
      s = rng.pick(stops)
      if s is not chosen[-1]:
        chosen.append(s)
    shape_id = u''
    dists = None
    if use_shapes and rng.chance(0.7):
      shape_id = self.ids['shape'].new()
      dists = []
      with_dist = rng.chance(0.7)
      seq = rng.pick([0, 1, 5])
      d = 0.0 if rng.chance(0.6) else round(rng.uniform(0, 5), 2)
      unit = rng.pick([1.0, 0.001])
      prev = None
      for s in chosen:
        la, lo = self.pos(s)
        if prev is not None:
          if rng.chance(0.4):
            mid = ((prev[0] + la) / 2, (prev[1] + lo) / 2)
            half = geo.dist(prev[0], prev[1], mid[0], mid[1])
            d += round(half * unit, 3)
            self.shape_point(shape_id, mid, seq, d if with_dist else None)
            seq += rng.randint(1, 3)
            d += round(half * unit, 3)
          else:
            d += round(geo.dist(prev[0], prev[1], la, lo) * unit, 3)
        self.shape_point(shape_id, (la, lo), seq, d if with_dist else None)
        seq += rng.randint(1, 3)
        dists.append(round(d, 3))
        prev = (la, lo)
      if not with_dist:
        dists = None
      elif rng.chance(0.3):
        dists = None
    elif rng.chance(0.3):
      dists = []
      d = 0
      for i in range(len(chosen)):
        dists.append(round(d, 3))
        d += rng.uniform(0.5, 3)
    return chosen, shape_id, dists

  def shape_point(self, shape_id, p, seq, d):
    rng = self.rng
    self.f.add('shapes', shape_id=shape_id, shape_pt_lat=num(p[0], 6),
               shape_pt_lon=num(p[1], 6), shape_pt_sequence=unicode(seq),
               shape_dist_traveled=u'' if d is None else num(d, 3))

  def stop_times(self, tid, pattern, dists, start, max_speed):
    rng = self.rng
    t = start
    seq = rng.pick([0, 0, 1, 1, 3]) if rng.chance(self.o['seq_zero'] * 2) else 1
    gap = rng.random() < 0.3
    untimed = rng.chance(self.o['untimed'])
    prev = None
    style = rng.randint(0, 2) if self.o['times_style'] else 0
    n = len(pattern)
    for i, s in enumerate(pattern):
      la, lo = self.pos(s)
      if prev is not None:
        d = geo.dist(prev[0], prev[1], la, lo)
        t += int(math.ceil(d / (max_speed / 3.6) * rng.uniform(1.1, 3))) + rng.randint(1, 60)
      dep = t + (rng.randint(1, 120) if rng.chance(0.3) else 0)
      timed = not (untimed and 0 < i < n - 1 and rng.chance(0.5))
      pick, drop = u'', u''
      if rng.chance(0.3):
        pick = rng.pick([u'0', u'1', u'2', u'3'])
        drop = rng.pick([u'0', u'2', u'3'])
      self.f.add('stop_times', trip_id=tid,
                 arrival_time=hms(t, style) if timed else u'',
                 departure_time=hms(dep, style) if timed else u'',
                 stop_id=s['stop_id'], stop_sequence=unicode(seq),
                 stop_headsign=self.maybe(self.text(), 0.3),
                 pickup_type=pick, drop_off_type=drop,
                 shape_dist_traveled=(u'' if dists is None or rng.chance(0.1)
                                      else num(dists[i], 3)),
                 timepoint=rng.pick([u'0', u'1']) if rng.chance(0.3) else u'')
      seq += rng.randint(1, 9) if gap else 1
      t = dep
      prev = (la, lo)
    return t

  def frequencies(self, tid):
    rng = self.rng
    t = rng.pick([0, 3600 * 5, rng.randint(0, 30000)])
    for _ in range(rng.randint(1, 3)):
      end = t + rng.randint(60, 9000)
      self.f.add('frequencies', trip_id=tid, start_time=hms(t), end_time=hms(end),
                 headway_secs=unicode(rng.pick([60, 600, 601, 7])),
                 exact_times=rng.pick([u'', u'0', u'1']))
      t = end + rng.pick([0, 0, 100])

  def prune_stops(self):
    """Drop plain stops no trip visits (they would be reported as unused)."""
    used = set(self.f.ids('stop_times', 'stop_id'))
    keep = []
    for s in self.f.table('stops'):
      if s.get('location_type', u'') in (u'', u'0') and s['stop_id'] not in used:
        continue
      keep.append(s)
    self.f.rows['stops'] = keep

  def fares(self):
    rng = self.rng
    if not rng.chance(self.o['fares']):
      return
    zones = sorted(set(z for z in self.f.ids('stops', 'zone_id') if z))
    routes = self.f.ids('routes', 'route_id')
    for i in range(rng.randint(1, 3)):
      fid = self.ids['fare'].new()
      self.f.add('fare_attributes', fare_id=fid,
                 price=rng.pick([u'0', u'0.00', u'1.75', u'12', u'3.5', u'100.25']),
                 currency_type=rng.pick(CURRENCIES),
                 payment_method=rng.pick([u'0', u'1']),
                 transfers=rng.pick([u'', u'0', u'1', u'2']),
                 transfer_duration=rng.pick([u'', u'0', u'3600', u'7']))
      for _ in range(rng.randint(0, 3)):
        self.f.add('fare_rules', fare_id=fid,
                   route_id=rng.pick(routes) if rng.chance(0.5) else u'',
                   origin_id=rng.pick(zones) if zones and rng.chance(0.4) else u'',
                   destination_id=rng.pick(zones) if zones and rng.chance(0.4) else u'',
                   contains_id=rng.pick(zones) if zones and rng.chance(0.4) else u'')

  def transfers(self):
    rng = self.rng
    if not rng.chance(self.o['transfers']):
      return
    stops = [s for s in self.f.table('stops')
             if s.get('location_type', u'') in (u'', u'0', u'1')]
    pairs = set()
    for _ in range(rng.randint(1, 4)):
      a, b = rng.pick(stops), rng.pick(stops)
      pa, pb = self.pos(a), self.pos(b)
      d = geo.dist(pa[0], pa[1], pb[0], pb[1])
      if d > 1990 or (a['stop_id'], b['stop_id']) in pairs:
        continue
      pairs.add((a['stop_id'], b['stop_id']))
      tt = rng.pick([u'', u'0', u'1', u'2', u'3'])
      mt = u''
      if tt == u'2':
        mt = unicode(int(max(0, d / 2 - 118)) + rng.pick([0, 0, 60, 300])) if rng.chance(0.8) else u''
      self.f.add('transfers', from_stop_id=a['stop_id'], to_stop_id=b['stop_id'],
                 transfer_type=tt, min_transfer_time=mt)

  def feed_info(self):
    rng = self.rng
    if not rng.chance(self.o['feed_info']):
      return
    t = today()
    start, end = u'', u''
    if rng.chance(0.5):
      start = ymd(t - datetime.timedelta(days=rng.randint(1, 100)))
    if rng.chance(0.5):
      end = ymd(t + datetime.timedelta(days=rng.randint(70, 400)))
    self.f.add('feed_info', feed_publisher_name=self.text(),
               feed_publisher_url=self.url(), feed_lang=self.lang,
               feed_start_date=start, feed_end_date=end,
               feed_version=self.maybe(u'v ' + self.text()))

  def extra(self):
    rng = self.rng
    if not rng.chance(self.o['extra']):
      return
    for t in EXTRA_TABLES:
      if not self.f.table(t) or not rng.chance(0.6):
        continue
      for c in rng.sub([u'x_note', u'Extra Col', u'ete', u'zz'], 0.5):
        for r in self.f.table(t):
          if rng.chance(0.7):
            r[c] = self.text()


def generate(rng, **opt):
  return Gen(rng, **opt).make()
