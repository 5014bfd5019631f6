# -*- coding: utf-8 -*-
"""C27: field validation accepts exactly the values GTFS allows."""
import collections
import datetime
import os
import re
import shutil

import transitfeed

from harness import geo, recorder, render

CASES = {'quick': 420, 'thorough': 12000}
RULE = ('a case is one feed with about 130 rows of random good and bad values loaded, and 12 objects '
        'with native values validated; distinct by the rows')
MINIMUM = {'errors of agency': 2100, 'errors of calendar': 2600, 'errors of calendar_dates': 1300,
           'errors of fare_attributes': 2300, 'errors of feed_info': 1700,
           'errors of frequencies': 1900, 'errors of routes': 1600, 'errors of shapes': 1900,
           'errors of stop_times': 1900, 'errors of stops': 1800, 'errors of transfers': 2000,
           'errors of trips': 2200, 'feed infos compared': 69, 'frequencies kept': 590,
           'objects with native values': 3400, 'rows judged: agency': 2200,
           'rows judged: calendar': 2500, 'rows judged: calendar_dates': 1800,
           'rows judged: fare_attributes': 2000, 'rows judged: feed_info': 2000,
           'rows judged: frequencies': 2100, 'rows judged: routes': 2400,
           'rows judged: shapes': 2500, 'rows judged: stop_times': 2000,
           'rows judged: stops': 3300, 'rows judged: transfers': 2000, 'rows judged: trips': 4400,
           'rows with kept values: agency': 570, 'rows with kept values: calendar': 490,
           'rows with kept values: calendar_dates': 500,
           'rows with kept values: fare_attributes': 410, 'rows with kept values: feed_info': 740,
           'rows with kept values: routes': 860, 'rows with kept values: shapes': 610,
           'rows with kept values: stop_times': 800, 'rows with kept values: stops': 810,
           'rows with kept values: transfers': 610, 'rows with kept values: trips': 560,
           'warnings of calendar': 54, 'warnings of calendar_dates': 820,
           'warnings of routes': 700, 'warnings of shapes': 260, 'warnings of stop_times': 430,
           'warnings of stops': 610, 'warnings of transfers': 280}
ASSUMPTIONS = ['numbers in other spellings (leading zeros, signs, exponents, other digits) are judged '
               'only in the columns that have a dedicated warning for them',
               'rows of transfers, shapes, frequencies and stop times with several bad values are '
               'judged for reporting at least one and nothing else',
               'URLs and colours on the borders of the documented rules are not generated']

ERR, WARN = 0, 1
EARLY = ('transfers', 'shapes', 'frequencies', 'stop_times')
LANGS = ('aa ab af am ar az ba be bg bn bo br bs ca cs cy da de dz el en eo es et eu fa fi fo fr fy ga gd '
         'gl gn gu ha he hi hr hu hy id is it iu ja ka kk kl km kn ko ku ky la lb ln lo lt lv mg mi mk ml '
         'mn mr ms mt my nb ne nl nn no oc or pa pl ps pt qu rm ro ru sa sd se si sk sl so sq sr sv sw ta '
         'te tg th ti tk tl tr tt uk ur uz vi wo xh yi yo zh zu').split()
BAD_LANGS = ['xx', 'qq', 'zz', 'e', 'eng', 'deu', 'xy', 'english', '12', 'e n', u'\xe9n', '-', 'qx']
# The codes of countries' present currencies
MONEY = ('AED AFN ALL AMD AOA ARS AUD AWG AZN BAM BBD BDT BHD BIF BMD BND BOB BRL BSD BTN BWP BYN BZD CAD '
         'CDF CHF CLP CNY COP CRC CUP CVE CZK DJF DKK DOP DZD EGP ERN ETB EUR FJD FKP GBP GEL GHS GIP GMD '
         'GNF GTQ GYD HKD HNL HTG HUF IDR ILS INR IQD IRR ISK JMD JOD JPY KES KGS KHR KMF KPW KRW KWD KYD '
         'KZT LAK LBP LKR LRD LSL LYD MAD MDL MGA MKD MMK MNT MOP MRU MUR MVR MWK MXN MYR MZN NAD NGN NIO '
         'NOK NPR NZD OMR PAB PEN PGK PHP PKR PLN PYG QAR RON RSD RUB RWF SAR SBD SCR SDG SEK SGD SHP SOS '
         'SRD SSP STN SVC SYP SZL THB TJS TMT TND TOP TRY TTD TWD TZS UAH UGX USD UYU UZS VES VND VUV WST '
         'XAF XCD XOF XPF YER ZAR ZMW').split()
BAD_MONEY = ['usd', 'Eur', 'US', 'USDD', 'XYZ', 'ABC', '$', '840', 'QQQ', 'EURO', u'\u20ac']
try:
  import pytz
  ZONES = list(pytz.common_timezones)
except ImportError:
  ZONES = None
BAD_ZONES = ['America/Los_Angelos', 'PST', 'UTC+1', 'Europe/', 'europe/paris', 'Mars/Phobos', '1',
             'America/New York', 'Europe/Berlin/Mitte']
URLS = ['http://example.com', 'https://a.b/c?d=e,f&g="h"', 'http://x', u'https://ex.com/\xfc',
        'http://localhost:80/', 'https://example.com/http://']
BAD_URLS = ['www.example.com', 'example.com', 'ftp://example.com', '//example.com', 'http:/x.com',
            'htp://x.com', 'https:/x', 'mailto:a@b.c', 'http//x.com', 'xhttp://a.com', 'http:\\\\x.com',
            'x https://a.com', 'httpss://x.com', 'file:///http://x']
MAILS = ['a@b.c', 'info@transit.example.com', 'x.y+z@ex-am.org', 'a@b..c', u'\xe4@\xf6.de']
BAD_MAILS = ['a', 'a@', '@b.c', 'a@b', 'a@.c', 'a@b.', 'a.b', 'a@b@c.d', 'a@b.c@d', 'a@b.c@d.e', '@', '.@.',
             'a@@b.c', 'info(at)b.c', 'a@b.c, d@e.f', 'www.b.c']
WORDS = [u'Main St', u'Central', u'\xc4pfel', u'12', u'A-B', u'x, y', u'"Q"', u'North', u'\u5317', u'0']
TIME = re.compile(r'([0-9]{1,3}):([0-5][0-9]):([0-5][0-9])$')
TIMES = ['0:00:00', '00:00:00', '05:59:59', '7:00:00', '08:15:00', '12:34:56', '23:59:59', '24:00:00',
         '25:10:01', '99:00:00', '100:00:00']
BAD_TIMES = ['24:60:00', '1:2:3', '0800', '08:00', '-1:00:00', '1000:00:00', '8:00:00 AM', '08:00:0x',
             '08:00:60', '08-00-00', 'noon', '8.00.00', ':00:00', '08:00:00:00', '08:000:0', '8:00:00Z',
             '+8:00:00']
DATES = ['20260101', '20251231', '20240229', '20260630', '20990101', '19000101', '21001231', '20000229',
         '20260102', '20260831']
BAD_DATES = ['20250229', '20260431', '20261301', '20260001', '20260100', '2026010', '202601011', '2026-01-01',
             'x', '01/01/2026', '2026010x', '00000101', '19000229', '20260132', '21000229']
FAR_DATES = ['18991231', '21010101', '10660101', '22000101', '99991231']
FLAGS = ['', '0', '1', '2']
BAD_FLAGS = ['3', '-1', 'x', 'yes', '1.0', '12', 'true', '10', '0.5']
PLAIN = re.compile(r'[+-]?[0-9]+(\.[0-9]+)?$')
ODD = re.compile(r'[+-]?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][+-]?[0-9]+)?$')
INT = re.compile(r'(0|[1-9][0-9]*)$')
ODDINT = re.compile(r'([+-]?0+|\+?[0-9]+)$')
NOT_NUMBERS = ['abc', '1,5', '--1', '1.2.3', '0x10', 'nan', 'inf', '-inf', 'NaN', 'Infinity', '1e400', '-1e999',
               '5 5', u'1\xb0', '1.5d', '1f', '.', '-', 'e5', '1e', u'\xbd']
NOT_INTS = ['abc', '1.0', '1.5', '--1', '0x1', '1e3', '-1', '-7', '2 3', '5s', 'nan', '.', u'\xb2']


def decimal(s):
  """(number or None, it is written plainly)"""
  if PLAIN.match(s):
    return float(s), True
  if ODD.match(s):
    x = float(s)
    if x - x == 0:
      return x, False
  return None, False


def nonneg(s):
  if INT.match(s):
    return int(s), True
  if ODDINT.match(s):
    return int(s), False
  return None, False


def secs(s):
  m = TIME.match(s)
  return int(m.group(1)) * 3600 + int(m.group(2)) * 60 + int(m.group(3)) if m else None


def date(s):
  if not re.match('[0-9]{8}$', s):
    return None
  try:
    return datetime.date(int(s[:4]), int(s[4:6]), int(s[6:]))
  except ValueError:
    return None


def mail_ok(s):
  parts = s.split('@')
  return len(parts) == 2 and parts[0] != '' and '.' in parts[1][1:-1]


class Row(object):
  """Expected problems of a row, and the values expected afterwards."""

  def __init__(self, row):
    self.row = row
    self.want = collections.Counter()
    self.unjudged = set()

  def __getitem__(self, c):
    return self.row.get(c, u'')

  def add(self, cls, column, type=ERR):
    self.want[cls, column, type] += 1

  def bad(self, column, type=ERR):
    self.add('InvalidValue' if self[column] != '' else 'MissingValue', column, type)

  def missing(self, *columns):
    for c in columns:
      if self[c] == '':
        self.add('MissingValue', c)

  def url(self, c):
    v = self[c]
    if v and v[:7] != 'http://' and v[:8] != 'https://':
      self.bad(c)

  def lang(self, c):
    if self[c] and self[c].lower() not in LANGS:
      self.bad(c)

  def zone(self, c):
    if self[c] and ZONES is not None and self[c] not in ZONES:
      self.bad(c)

  def flag(self, c, allowed=('0', '1', '2')):
    if self[c] and self[c] not in allowed:
      self.bad(c)

  def number(self, c, low, high):
    """A required number; its value or None."""
    v = self[c]
    x, plain = decimal(v)
    if v == '' or x is None:
      self.bad(c)
      return None
    if not plain:
      self.add('InvalidFloatValue', v, WARN)
    if not low <= x <= high:
      self.bad(c)
    return x

  def errors(self):
    return [k for k in self.want if k[2] == ERR]


def t(rng):
  return rng.pick(WORDS)


def o(rng, good, bad=(), p=0.0):
  """'' or a good value."""
  return rng.pick(['', rng.pick(good)])


def near_contrast(rng):
  """A colour about as far from black as the remark on contrast asks for."""
  while True:
    c = (rng.randint(0, 255), rng.randint(0, 120), rng.randint(0, 255))
    if 71.8 < (299 * c[0] + 587 * c[1] + 114 * c[2]) / 1000.0 < 73.9:
      return '%02x%02X%02x' % c


# Tables: for each column (good values, bad values); '' among them where it may be blank.

def columns(rng):
  zones = (rng.pick(ZONES) if ZONES else 'Europe/Berlin')
  lat = '%.6f' % rng.uniform(10, 60)
  lon = '%.6f' % rng.uniform(-120, 120)
  numbers = [lat, '45', '-45.5', '+12.25', '90', '-90', '0.0', '60.0']
  return {
      'agency': [
          ('agency_name', [t(rng)], ['']), ('agency_url', URLS, BAD_URLS + ['']),
          ('agency_timezone', [zones], BAD_ZONES + ['']),
          ('agency_lang', [rng.pick(LANGS), rng.pick(LANGS).upper(), ''], BAD_LANGS),
          ('agency_phone', ['', '555 1234'], []), ('agency_fare_url', URLS + [''], BAD_URLS),
          ('agency_email', MAILS + [''], BAD_MAILS)],
      'stops': [
          ('stop_name', [t(rng), t(rng)], ['']),
          ('stop_desc', ['', 'Near the park', 'x'], ['SAME', 'same']),
          ('stop_lat', numbers, NOT_NUMBERS + ['90.000001', '-91', '1e3', '100', '.5', '5.', '1.5e1', '0.5', '']),
          ('stop_lon', [lon, '180', '-180', '12', '+0.5'],
           NOT_NUMBERS + ['180.000001', '-181', '200', '.25', '7.', '1.2e1', '0.25', '']),
          ('zone_id', ['', 'z1'], []), ('stop_url', URLS + [''], BAD_URLS),
          ('location_type', ['', '0', '1', '2', '3', '4'], ['5', '-1', 'x', '1.0', '99', 'stop']),
          ('parent_station', ['', ''], ['S0']),
          ('stop_timezone', ['', '', zones], BAD_ZONES),
          ('wheelchair_boarding', FLAGS, BAD_FLAGS)],
      'routes': [
          ('route_short_name', [rng.pick(['12', 'A', 'S7', 'Blue', 'N1'])], ['', 'Longer7', 'Northern Express']),
          ('route_long_name', [rng.pick(['Airport Line', 'Central to North', u'\xc4u\xdfere Linie'])],
           ['', 'SHORT', 'SHORT x', 'SHORT(x)', 'SHORT-x', 'SHORTx', 'SHORT: x']),
          ('route_desc', ['', 'Runs daily'], ['IS SHORT', 'IS LONG']),
          ('route_type', ['0', '1', '2', '3', '4', '5', '6', '7'],
           ['8', '100', '03', '+3', '007', ''] + NOT_INTS),
          ('route_url', URLS + [''], BAD_URLS),
          ('route_color', ['', 'FFFFFF', 'ffff00', 'e0E0e0', 'FFAABB'],
           ['FFF', '#FFFFFF', 'FFFFFG', 'red', '1234567', '000000', '101010', '0000AA', '808080',
            near_contrast(rng), near_contrast(rng)]),
          ('route_text_color', ['', '000000', '101010', '202000'],
           ['000', '#00000', '00000g', 'black', '0000000', 'FFFFFF', 'F0F0F0', 'FFFF99', u'00000\uff10']),
          ('bikes_allowed', FLAGS, BAD_FLAGS)],
      'trips': [
          ('route_id', ['R0', 'R1'], ['', 'nope']), ('service_id', ['C0', 'C1'], ['', 'nope']),
          ('trip_headsign', ['', t(rng)], []), ('direction_id', ['', '0', '1'], ['2', '-1', 'x', '1.0', '01', 'in']),
          ('shape_id', ['', 'H0'], ['nope']), ('wheelchair_accessible', FLAGS, BAD_FLAGS),
          ('bikes_allowed', FLAGS, BAD_FLAGS)],
      'fare_attributes': [
          ('price', ['0', '1.25', '3', '0.00', '100000'], ['', '-1', '-0.01'] + NOT_NUMBERS),
          ('currency_type', [rng.pick(MONEY), rng.pick(MONEY)], BAD_MONEY + ['']),
          ('payment_method', ['0', '1'], ['', '2', '-1', 'x', '0.0', '10']),
          ('transfers', ['', '0', '1', '2'], ['3', '-1', 'x', '1.0', '100']),
          ('transfer_duration', ['', '0', '1', '7200', '100000'], ['-1', '-3600', 'x', '1.5', '2:00', '1h'])],
      'transfers': [
          ('from_stop_id', ['S0', 'S1', 'S2'], ['', 'nope']),
          ('to_stop_id', ['S0', 'S1', 'S2'], ['', 'nope', 'S3', 'S4', 'S5', 'S6']),
          ('transfer_type', ['', '0', '1', '2', '3'], ['4', '-1', 'x', '2.0', '22']),
          ('min_transfer_time', ['', ''],
           ['0', '60', '1', '10799', '10800', '86399', '86400', '100000', '-1', 'x', '1.5', '5:00', '600'])],
      'feed_info': [
          ('feed_publisher_name', [t(rng)], ['']), ('feed_publisher_url', URLS, BAD_URLS + ['']),
          ('feed_lang', [rng.pick(LANGS)], BAD_LANGS + ['']),
          ('feed_start_date', ['', '20260101', '20200229'], DATES + BAD_DATES),
          ('feed_end_date', ['', '20261231', '20300101'], DATES + BAD_DATES),
          ('feed_version', ['', '1.0'], [])],
      'shapes': [
          ('shape_pt_lat', numbers, NOT_NUMBERS + ['90.000001', '-91', '.5', '5.', '1.5e1', '0.5', '']),
          ('shape_pt_lon', [lon, '180', '-180', '12'], NOT_NUMBERS + ['180.000001', '-181', '.25', '7.', '0.25', '']),
          ('shape_pt_sequence', ['0', '1', '7', '1000'], ['01', '+1', '000', ''] + NOT_INTS),
          ('shape_dist_traveled', ['', '0', '1.5', '1000'], NOT_NUMBERS + ['-1', '-0.001', '.5', '1e2'])],
      'frequencies': [
          ('trip_id', ['T0', 'T1'], ['', 'nope']),
          ('start_time', ['5:00:00', '06:30:00', '0:00:00'], TIMES + BAD_TIMES + ['']),
          ('end_time', ['100:00:01', '101:00:00'], TIMES + BAD_TIMES + ['']),
          ('headway_secs', ['60', '1', '3600'], ['0', '-60', 'x', '1.5', '', '5:00']),
          ('exact_times', ['', '0', '1'], ['2', '-1', 'x', '1.0', 'yes'])],
      'calendar': [
          (d, ['0', '1'], ['2', 'x', '', '-1', '1.0', 'yes', '11', '01']) for d in
          ['monday', 'tuesday', 'wednesday', 'thursday', 'friday', 'saturday', 'sunday']] + [
          ('start_date', ['20260101', '20240229', '19000101'], DATES + BAD_DATES + FAR_DATES + ['']),
          ('end_date', ['20261231', '20270101', '21001231'], DATES + BAD_DATES + FAR_DATES + [''])],
      'calendar_dates': [
          ('date', DATES, BAD_DATES + FAR_DATES + ['']),
          ('exception_type', ['1', '2'], ['0', '3', 'x', '', '-1', '1.0', '12', 'added'])],
      'stop_times': [
          ('arrival_time', ['8:00:00', '07:30:00', '25:00:00'], TIMES + BAD_TIMES + ['']),
          ('departure_time', ['25:00:00', '26:00:00'], TIMES + BAD_TIMES + ['']),
          ('stop_id', ['S0', 'S1'], ['', 'nope']), ('stop_sequence', ['0', '1', '12'], ['', 'x', '1.5', '-1', '-20']),
          ('stop_headsign', ['', t(rng)], []),
          ('pickup_type', ['', '0', '1', '2', '3'], ['4', '-1', 'x', '1.0', '11', 'yes']),
          ('drop_off_type', ['', '0', '1', '2', '3'], ['4', '-1', 'x', '1.0', '11', 'yes']),
          ('shape_dist_traveled', ['', '0', '1.5', '1000'],
           ['abc', '1,5', '--1', 'nan', 'inf', 'NaN', 'Infinity', '1e400', '0x10', '1.2.3', '1f']),
          ('timepoint', ['', '0', '1'], ['2', '-1', 'x', '1.0', 'yes'])]}

KEYS = {'agency': ('agency_id', 'A'), 'stops': ('stop_id', 'P'), 'routes': ('route_id', 'Q'),
        'trips': ('trip_id', 'U'), 'fare_attributes': ('fare_id', 'F'), 'shapes': ('shape_id', 'G'),
        'calendar': ('service_id', 'D'), 'calendar_dates': ('service_id', 'E'), 'stop_times': ('trip_id', 'V')}
MAY_LACK_ID = ('stops', 'routes', 'trips', 'fare_attributes', 'calendar')


def make_row(rng, table, cols, i):
  row = {}
  k = rng.pick([0, 0, 1, 1, 1, 1, 1, 2, 2, len(cols)])
  chosen = set(rng.sub([c[0] for c in cols], 0.5)) if k == len(cols) else \
      set(rng.pick(cols)[0] for _ in range(k))
  for c, good, bad in cols:
    row[c] = u'%s' % rng.pick(bad if c in chosen and bad else good)
  if table in KEYS:
    c, p = KEYS[table]
    row[c] = u'%s%d' % (p, i)
  if table == 'stops':
    if row['stop_desc'] in ('SAME', 'same'):
      v = row['stop_name']
      row['stop_desc'] = v if row['stop_desc'] == 'SAME' else v.swapcase()
  if table == 'routes':
    row['agency_id'] = u'BASE'
    s = row['route_short_name']
    v = row['route_long_name']
    if v.startswith('SHORT'):
      row['route_long_name'] = ((s if rng.chance(0.5) else s.swapcase()) + v[5:]).strip()
    if row['route_desc'] == 'IS SHORT':
      row['route_desc'] = s
    elif row['route_desc'] == 'IS LONG':
      row['route_desc'] = row['route_long_name']
  return row


# The oracles

def judge_agency(r, w):
  r.missing('agency_name', 'agency_url', 'agency_timezone')
  r.url('agency_url')
  r.url('agency_fare_url')
  r.lang('agency_lang')
  r.zone('agency_timezone')
  if r['agency_email'] and not mail_ok(r['agency_email']):
    r.bad('agency_email')


def judge_stops(r, w):
  r.missing('stop_id', 'stop_name')
  lat = r.number('stop_lat', -90, 90)
  lon = r.number('stop_lon', -180, 180)
  r.url('stop_url')
  v = r['location_type']
  kind = 0
  if v:
    if not re.match('-?[0-9]+$', v):
      r.bad('location_type')
    else:
      kind = int(v)
      if kind not in range(5):
        r.bad('location_type', WARN)
  r.zone('stop_timezone')
  if r['stop_timezone'] and r['parent_station']:
    r.bad('stop_timezone', WARN)
  r.flag('wheelchair_boarding')
  if lat is not None and lon is not None and abs(lat) < 1 and abs(lon) < 1:
    r.bad('stop_lat', WARN)
  if r['stop_desc'] and r['stop_desc'].lower() == r['stop_name'].lower():
    r.bad('stop_desc', WARN)
  if kind == 1 and r['parent_station']:
    r.bad('parent_station')


def luminance(c):
  return (299 * int(c[:2], 16) + 587 * int(c[2:4], 16) + 114 * int(c[4:], 16)) / 1000.0


def judge_routes(r, w):
  r.missing('route_id', 'route_type')
  s, n, d = r['route_short_name'], r['route_long_name'], r['route_desc']
  if not s and not n:
    r.bad('route_short_name')
  if len(s) > 6:
    r.bad('route_short_name', WARN)
  if s and n:
    a, b = s.lower(), n.lower()
    if a == b or (b.startswith(a) and b[len(a)] in ' (-'):
      r.bad('route_long_name', WARN)
  if d and d in (s, n):
    r.bad('route_desc')
  if r['route_type']:
    x, plain = nonneg(r['route_type'])
    if x is None:
      r.bad('route_type')
    else:
      if not plain:
        r.add('InvalidNonNegativeIntegerValue', r['route_type'], WARN)
      if x > 7:
        r.bad('route_type', WARN)
  r.url('route_url')
  colours = []
  for c, default in (('route_color', 'FFFFFF'), ('route_text_color', '000000')):
    v = r[c] or default
    if not re.match('[0-9a-fA-F]{6}$', v):
      r.bad(c)
      v = default
    colours.append(luminance(v))
  gap = abs(colours[0] - colours[1])
  if abs(gap - 510 / 7.0) < 0.01:
    r.unjudged.add('route_color')
  elif gap < 510 / 7.0:
    # The value reported is the colour that was left, perhaps none.
    r.add('InvalidValue' if re.match('[0-9a-fA-F]{6}$', r['route_color']) else 'MissingValue',
          'route_color', WARN)
  r.flag('bikes_allowed')


def judge_trips(r, w):
  r.missing('trip_id')
  for c in ('route_id', 'service_id'):
    if r[c] in ('', 'nope'):
      r.bad(c)
  if r['shape_id'] == 'nope':
    r.bad('shape_id')
  r.flag('direction_id', ('0', '1'))
  r.flag('bikes_allowed')
  r.flag('wheelchair_accessible')


def judge_fare_attributes(r, w):
  r.missing('fare_id', 'currency_type', 'payment_method')
  x, _ = decimal(r['price'])
  if x is None or x < 0:
    r.bad('price')
  if r['currency_type'] and r['currency_type'] not in MONEY:
    r.bad('currency_type')
  r.flag('payment_method', ('0', '1'))
  r.flag('transfers')
  if r['transfer_duration'] and nonneg(r['transfer_duration'])[0] is None:
    r.bad('transfer_duration')


def judge_transfers(r, w):
  known = True
  for c in ('from_stop_id', 'to_stop_id'):
    if r[c] not in w.stops:
      r.bad(c)
      known = False
  kind = r['transfer_type'] or '0'
  if kind not in ('0', '1', '2', '3'):
    r.bad('transfer_type')
  v = r['min_transfer_time']
  x = None
  if v:
    if kind != '2':
      r.add('MinimumTransferTimeSetWithInvalidTransferType', None)
    x = nonneg(v)[0]
    if x is None or x >= 86400:
      r.bad('min_transfer_time')
    elif x >= 10800:
      r.bad('min_transfer_time', WARN)
  if known:
    a, b = w.stops[r['from_stop_id']], w.stops[r['to_stop_id']]
    m = geo.dist(a[0], a[1], b[0], b[1])
    if m > 2000:
      r.add('TransferDistanceTooBig', None, ERR if m > 10000 else WARN)
    if x is not None and x + 120 < m / 2:
      r.add('TransferWalkingSpeedTooFast', None, WARN)


def judge_feed_info(r, w):
  r.missing('feed_publisher_name', 'feed_publisher_url', 'feed_lang')
  r.url('feed_publisher_url')
  r.lang('feed_lang')
  both = []
  for c in ('feed_start_date', 'feed_end_date'):
    d = date(r[c])
    both.append(d)
    if r[c] and d is None:
      r.bad(c)
  if both[0] and both[1] and both[1] < both[0]:
    r.bad('feed_end_date')


def judge_shapes(r, w):
  r.missing('shape_id')
  x, plain = nonneg(r['shape_pt_sequence'])
  if x is None:
    r.bad('shape_pt_sequence')
  elif not plain:
    r.add('InvalidNonNegativeIntegerValue', r['shape_pt_sequence'], WARN)
  lat = r.number('shape_pt_lat', -90, 90)
  lon = r.number('shape_pt_lon', -180, 180)
  if lat is not None and lon is not None and abs(lat) < 1 and abs(lon) < 1:
    r.bad('shape_pt_lat', WARN)
  if r['shape_dist_traveled']:
    r.number('shape_dist_traveled', 0, 1e300)


def judge_frequencies(r, w):
  if r['trip_id'] == '' and w.blank_trip:
    r.unjudged.add('trip_id')
  elif r['trip_id'] not in ('T0', 'T1'):
    r.bad('trip_id')
  a, b = secs(r['start_time']), secs(r['end_time'])
  if a is None:
    r.bad('start_time')
  if b is None:
    r.bad('end_time')
  if a is not None and b is not None and b <= a:
    r.bad('end_time')
  if not nonneg(r['headway_secs'])[0]:
    r.bad('headway_secs')
  r.flag('exact_times', ('0', '1'))


DAYS = ['monday', 'tuesday', 'wednesday', 'thursday', 'friday', 'saturday', 'sunday']


def service_date(r, c):
  d = date(r[c])
  if d is None:
    r.bad(c)
  elif not 1900 <= d.year <= 2100:
    r.add('DateOutsideValidRange', c)
    d = None
  return d


def judge_calendar(r, w):
  r.missing('service_id')
  a, b = service_date(r, 'start_date'), service_date(r, 'end_date')
  if a and b and b < a:
    r.bad('end_date')
  for d in DAYS:
    if r[d] not in ('0', '1'):
      r.bad(d)
  e = w.exceptions.get(r['service_id'])
  if e and e['exception_type'] == '1':
    if date(e['date']) is None:
      r.unjudged.add('weekly')
  elif '1' not in [r[d] for d in DAYS]:
    r.add('OtherProblem', 'weekly', WARN)


def judge_calendar_dates(r, w):
  if r['exception_type'] in ('1', '2'):
    service_date(r, 'date')
  else:
    r.bad('exception_type')
    if date(r['date']) is None:  # whether both are reported is not judged
      r.unjudged.add('date')
  if r['service_id'] not in w.services:
    if r['exception_type'] != '1':
      r.add('OtherProblem', 'weekly', WARN)
    elif date(r['date']) is None:
      r.unjudged.add('weekly')


def judge_stop_times(r, w):
  if not re.match('-?[0-9]+$', r['stop_sequence']) or int(r['stop_sequence']) < 0:
    r.bad('stop_sequence')
  if r['stop_id'] not in w.stops:
    r.bad('stop_id')
  a, b = secs(r['arrival_time']), secs(r['departure_time'])
  for c, x in (('arrival_time', a), ('departure_time', b)):
    if r[c] and x is None:
      r.bad(c)
  if a is not None and b is not None and b < a:
    r.bad('departure_time')
  if a is not None and r['departure_time'] == '':
    r.bad('departure_time')
  if b is not None and r['arrival_time'] == '':
    r.bad('arrival_time')
  for c, n in (('pickup_type', 4), ('drop_off_type', 4), ('timepoint', 2)):
    v = r[c]
    if v and not re.match('-?[0-9]+$', v):
      r.bad(c)
    elif v and int(v) not in range(n):
      r.bad(c, WARN)
  if r['shape_dist_traveled'] and decimal(r['shape_dist_traveled'])[0] is None:
    r.bad('shape_dist_traveled')
  if r['pickup_type'] == r['drop_off_type'] == '1' and a is None and b is None:
    r.add('OtherProblem', 'useless', WARN)


JUDGES = dict((k[6:], v) for k, v in globals().items() if k.startswith('judge_'))


class World(object):
  pass


def base(rng):
  """The rows that other rows refer to; all of them good."""
  w = World()
  lat, lon = rng.uniform(20, 55), rng.uniform(-100, 100)
  w.stops = {}
  for k, (north, east) in enumerate([(0, 0), (rng.uniform(50, 200), 30), (0, rng.uniform(300, 900)),
                                     (rng.uniform(1000, 1900), 0), (0, rng.uniform(2100, 3500)),
                                     (rng.uniform(4000, 7000), 500), (rng.uniform(11000, 20000), 0)]):
    a, b = geo.offset(lat, lon, north, east)
    w.stops[u'S%d' % k] = (round(a, 7), round(b, 7))
  w.tables = {
      'agency': [dict(agency_id='BASE', agency_name='Agency', agency_url='http://a.com',
                      agency_timezone='Europe/Berlin')],
      'stops': [dict(stop_id=k, stop_name='Stop ' + k, stop_lat='%.7f' % p[0], stop_lon='%.7f' % p[1],
                     location_type='1' if k == 'S0' else '') for k, p in sorted(w.stops.items())],
      'routes': [dict(route_id=k, agency_id='BASE', route_short_name=k, route_long_name='Line', route_type='3')
                 for k in ('R0', 'R1')],
      'calendar': [dict([(d, '1') for d in DAYS], service_id=k, start_date='20260101', end_date='20261231')
                   for k in ('C0', 'C1')],
      'shapes': [dict(shape_id='H0', shape_pt_lat='50.%d' % k, shape_pt_lon='10', shape_pt_sequence='%d' % k)
                 for k in range(2)],
      'trips': [dict(trip_id=k, route_id='R0', service_id='C0') for k in ('T0', 'T1')]}
  return w


def normal(e):
  """The observed form of what Row.add is told."""
  cls, column = e.cls, e.column_name
  if cls in ('InvalidFloatValue', 'InvalidNonNegativeIntegerValue'):
    column = e.value
  elif cls == 'InvalidValue' and e.value in (None, u''):
    cls = 'MissingValue'
  elif cls == 'OtherProblem':
    text = e.text()
    column = 'weekly' if 'service on any days' in text else 'useless' if 'serves no purpose' in text else text
  elif cls not in ('InvalidValue', 'MissingValue', 'DateOutsideValidRange'):
    column = None
  return (cls, column, e.type)


def table_rows(rng, w, table, cols, n):
  rows = []
  lacks = False
  for i in range(n):
    row = make_row(rng, table, cols, i)
    if table in MAY_LACK_ID and not lacks and rng.chance(0.03):
      row[KEYS[table][0]] = u''
      lacks = True
    if table == 'calendar_dates' and rng.chance(0.4) and w.fuzzed['calendar']:
      row['service_id'] = rng.pick(w.fuzzed['calendar'])['service_id']
    rows.append(row)
  if table == 'calendar_dates':
    unique = {}
    for row in rows:
      if row['service_id']:
        unique.setdefault(row['service_id'], row)
    rows = [r for r in rows if unique.get(r['service_id']) is r]
    w.exceptions = unique
  if table == 'stop_times':
    for row in rows:
      if rng.chance(0.03):
        row['trip_id'] = u'nope'
  return rows


def close(a, b):
  return a == b or (isinstance(a, float) and abs(a - b) < 1e-9 * max(1, abs(b)))


def values(ctx, w, s, table, r, points):
  """A row without errors: its values were kept."""
  row = r.row
  def same(got, column, want=None):
    want = row[column] if want is None else want
    ctx.check(close(got, want), '%s: %s is %r after loading %r', table, column, got, row)
  def text(obj, *names):
    for c in names:
      if row.get(c):
        same(getattr(obj, c), c)
  def whole(obj, *names):
    for c in names:
      if row[c]:
        same(getattr(obj, c), c, int(row[c]))
  def number(obj, *names):
    for c in names:
      if row[c]:
        same(getattr(obj, c), c, float(row[c]))
  key = row.get(KEYS.get(table, [''])[0])
  ctx.count('rows with kept values: ' + table)
  if table == 'agency':
    text(s.GetAgency(key), *row)
  elif table == 'stops':
    st = s.stops[key]
    number(st, 'stop_lat', 'stop_lon')
    whole(st, 'location_type')
    text(st, *[c for c in row if c not in ('stop_lat', 'stop_lon', 'location_type')])
  elif table == 'routes':
    ro = s.routes[key]
    whole(ro, 'route_type')
    text(ro, *[c for c in row if c != 'route_type'])
  elif table == 'trips':
    text(s.trips[key], *row)
  elif table == 'fare_attributes':
    fa = s.GetFareAttribute(key)
    number(fa, 'price')
    whole(fa, 'payment_method', 'transfers', 'transfer_duration')
    text(fa, 'fare_id', 'currency_type')
    for c in ('transfers', 'transfer_duration'):
      if row[c] == '':
        ctx.check(getattr(fa, c) is None, 'fare: blank %s became %r', c, getattr(fa, c))
  elif table == 'shapes':
    want = (float(row['shape_pt_lat']), float(row['shape_pt_lon']))
    if not (abs(want[0]) < 1 and abs(want[1]) < 1):
      sh = s.GetShape(key)
      ctx.check(len(sh.points) == 1 and close(sh.points[0][0], want[0]) and close(sh.points[0][1], want[1]),
                'shape points %r after loading %r', sh.points, row)
  elif table == 'calendar':
    p = s.GetServicePeriod(key)
    same(p.start_date, 'start_date')
    same(p.end_date, 'end_date')
    for k, d in enumerate(DAYS):
      same(bool(p.day_of_week[k]), d, row[d] == '1')
  elif table == 'calendar_dates':
    p = s.GetServicePeriod(key)
    ctx.check(p.HasDateExceptionOn(row['date'], int(row['exception_type'])),
              'no exception after loading %r', row)
  elif table == 'feed_info':
    pass
  elif table == 'stop_times':
    sts = s.trips[key].GetStopTimes()
    ctx.equal(len(sts), 1, 'stop times loaded from %r' % row)
    st = sts[0]
    whole(st, 'pickup_type', 'drop_off_type', 'timepoint', 'stop_sequence')
    number(st, 'shape_dist_traveled')
    text(st, 'stop_id', 'stop_headsign')
    for c, d in (('arrival_time', 'arrival_secs'), ('departure_time', 'departure_secs')):
      if row[c]:
        same(getattr(st, d), c, secs(row[c]))


def loaded(ctx, rng, i):
  w = base(rng)
  w.fuzzed = {}
  w.exceptions = {}
  w.services = set()
  for table in ['agency', 'stops', 'routes', 'calendar', 'calendar_dates', 'shapes', 'trips',
                'fare_attributes', 'transfers', 'feed_info', 'frequencies', 'stop_times']:
    rows = []
    for _ in range(rng.randint(6, 16)):
      rows.append(None)
    cols = columns(rng)
    w.fuzzed[table] = table_rows(rng, w, table, cols[table], len(rows))
    if table == 'calendar':
      w.services = set(['C0', 'C1'] + [r['service_id'] for r in w.fuzzed[table]])
  w.blank_trip = '' in [r['trip_id'] for r in w.fuzzed['trips']]
  for row in w.fuzzed['stop_times']:
    if row['trip_id'] != 'nope':
      w.tables['trips'].append(dict(trip_id=row['trip_id'], route_id='R1', service_id='C1'))
  files, order = {}, {}
  for table, rows in w.fuzzed.items():
    good = w.tables.get(table, [])
    names = sorted(set(c for r in rows + good for c in r))
    every = rng.shuffled(rows)
    # what is referred to comes first or last; both are legal
    every = good + every if rng.chance(0.5) or table == 'agency' else every + good
    style = render.Style(rng, quote=rng.pick([0, 0, 0.3]), shuffle_columns=False)
    cols = rng.shuffled(names)
    files[table + '.txt'] = render.table_bytes(cols, every, style)
    order[table] = every
  ctx.seen(tuple(sorted(files.items())))
  d = ctx.tmpdir()
  try:
    render.write_dir(files, os.path.join(d, 'feed'))
    s, rec = recorder.load(os.path.join(d, 'feed'), extra_validation=False)
    reported = collections.defaultdict(collections.Counter)
    for e in rec.entries:
      if e.cls == 'DuplicateID':
        continue
      if e.file_name and e.row_num:
        reported[e.file_name[:-4], e.row_num][normal(e)] += 1
      else:
        ctx.check(e.cls not in ('InvalidValue', 'MissingValue', 'InvalidFloatValue'),
                  'reported without a row: %r', e)
    freqs = collections.defaultdict(list)
    for table, every in sorted(order.items()):
      for k, row in enumerate(every):
        r = Row(row)
        if table == 'stop_times' and row['trip_id'] == 'nope':
          r.bad('trip_id')
        JUDGES[table](r, w)
        got = reported.get((table, k + 2), collections.Counter())
        for keys in (got, r.want):
          for x in list(keys):
            if x[1] in r.unjudged:
              del keys[x]
        ctx.count('rows judged: ' + table)
        extra, lacking = got - r.want, r.want - got
        what = '%s row %r' % (table, sorted(row.items()))
        ctx.check(not extra, '%s: wrongly reported %r', what, sorted(extra.items()))
        if table in EARLY and sum(r.want.values()) > 1:
          if r.errors() and table != 'shapes':
            ctx.check([x for x in got if x[2] == ERR], '%s: none of the errors %r reported', what,
                      sorted(r.want.items()))
          elif r.want:
            ctx.check(got, '%s: none of %r reported', what, sorted(r.want.items()))
        else:
          ctx.check(not lacking, '%s: not reported %r', what, sorted(lacking.items()))
        for x in r.want:
          if table == 'feed_info' and x[2] == WARN:
            continue
          ctx.count('%s of %s' % ('errors' if x[2] == ERR else 'warnings', table))
        if table == 'frequencies':
          if not r.errors():
            freqs[row['trip_id']].append((secs(row['start_time']), secs(row['end_time']),
                                          int(row['headway_secs']), int(row['exact_times'] or 0)))
        elif not r.errors() and row in w.fuzzed[table] and (table not in KEYS or row[KEYS[table][0]]):
          values(ctx, w, s, table, r, None)
    for row in w.fuzzed['calendar_dates']:
      if row['service_id'] in s.service_periods and date(row['date']) is None:
        # What is no date can not be a day of the service.
        p = s.GetServicePeriod(row['service_id'])
        for t in ('1', '2'):
          ctx.check(not p.HasDateExceptionOn(row['date'], int(t)), 'exception on no date after loading %r', row)
        p.ActiveDates()
        ctx.count('services without dates they cannot have')
    for trip in ('T0', 'T1'):
      got = [tuple(int(x) for x in f) for f in s.trips[trip].GetFrequencyTuples()]
      missing = collections.Counter(freqs[trip]) - collections.Counter(got)
      ctx.check(not missing, 'frequencies of %s: %r lack %r', trip, got, missing)
      ctx.count('frequencies kept', len(freqs[trip]))
    last = order['feed_info'][-1]
    r = Row(last)
    judge_feed_info(r, w)
    if not r.want:
      for c in last:
        if last[c]:
          ctx.equal(getattr(s.feed_info, c), last[c], 'feed info ' + c)
      ctx.count('feed infos compared')
  finally:
    shutil.rmtree(d)


def native(ctx, rng, i):
  """Objects with native values, as built through the API."""
  for _ in range(3):
    # Stops
    lat = rng.pick([rng.uniform(2, 90), -90.0, 90, 91, -90.5, 1000, None, 0.5])
    lon = rng.pick([rng.uniform(2, 180), -180.0, 180, 181, -180.5, None, 0.5, -0.9])
    kind = rng.pick([None, 0, 1, 2, 3, 4, 5])
    d = dict(stop_id=u'x', stop_name=u'X', stop_lat=lat, stop_lon=lon)
    if kind is not None:
      d['location_type'] = kind
    rec, reporter = recorder.new()
    transitfeed.Stop(field_dict=d).Validate(reporter)
    want = collections.Counter()
    for c, x, limit in (('stop_lat', lat, 90), ('stop_lon', lon, 180)):
      if x is None:
        want['MissingValue', c, ERR] += 1
      elif not abs(x) <= limit:
        want['InvalidValue', c, ERR] += 1
    if lat is not None and lon is not None and abs(lat) < 1 and abs(lon) < 1:
      want['InvalidValue', 'stop_lat', WARN] += 1
    if kind == 5:
      want['InvalidValue', 'location_type', WARN] += 1
    got = collections.Counter(normal(e) for e in rec.entries)
    ctx.check(got == want, 'stop %r: reported %r, expected %r', d, got, want)
    # Transfers
    d = dict(from_stop_id=u'a', to_stop_id=u'b', transfer_type=rng.pick([None, 0, 1, 2, 3, 4, -1, 17]),
             min_transfer_time=rng.pick([None, 0, 5, 10799, 10800, 86399, 86400, -1, -500, 1.5]))
    rec, reporter = recorder.new()
    transitfeed.Transfer(field_dict=dict(d)).Validate(reporter)
    want = collections.Counter()
    if d['transfer_type'] not in (None, 0, 1, 2, 3):
      want['InvalidValue', 'transfer_type', ERR] += 1
    x = d['min_transfer_time']
    if x is not None:
      if d['transfer_type'] != 2:
        want['MinimumTransferTimeSetWithInvalidTransferType', None, ERR] += 1
      if x < 0 or x >= 86400 or x == 1.5:
        want['InvalidValue', 'min_transfer_time', ERR] += 1
      elif x >= 10800:
        want['InvalidValue', 'min_transfer_time', WARN] += 1
    got = collections.Counter(normal(e) for e in rec.entries)
    ctx.check(got == want, 'transfer %r: reported %r, expected %r', d, got, want)
    # Fares
    d = dict(fare_id=u'f', price=rng.pick([0, 0.0, 1.5, 3, -1, -0.5, float('nan'), float('inf'), None]),
             currency_type=rng.pick(MONEY), payment_method=rng.pick([0, 1, 2, -1, None]),
             transfers=rng.pick([None, 0, 1, 2, 3, -1]), transfer_duration=rng.pick([None, 0, 10, -1]))
    rec, reporter = recorder.new()
    transitfeed.FareAttribute(field_dict=dict(d)).Validate(reporter)
    want = collections.Counter()
    x = d['price']
    if x is None:
      want['MissingValue', 'price', ERR] += 1
    elif not 0 <= x < 1e300:
      want['InvalidValue', 'price', ERR] += 1
    if d['payment_method'] is None:
      want['MissingValue', 'payment_method', ERR] += 1
    elif d['payment_method'] not in (0, 1):
      want['InvalidValue', 'payment_method', ERR] += 1
    if d['transfers'] not in (None, 0, 1, 2):
      want['InvalidValue', 'transfers', ERR] += 1
    if d['transfer_duration'] == -1:
      want['InvalidValue', 'transfer_duration', ERR] += 1
    got = collections.Counter(normal(e) for e in rec.entries)
    ctx.check(got == want, 'fare %r: reported %r, expected %r', d, got, want)
    # Routes
    d = dict(route_id=u'r', route_short_name=u'9', route_long_name=u'Nine',
             route_type=rng.pick([0, 1, 2, 3, 4, 5, 6, 7, 8, 700, None]))
    rec, reporter = recorder.new()
    transitfeed.Route(field_dict=dict(d)).Validate(reporter)
    want = collections.Counter()
    if d['route_type'] is None:
      want['MissingValue', 'route_type', ERR] += 1
    elif d['route_type'] > 7:
      want['InvalidValue', 'route_type', WARN] += 1
    got = collections.Counter(normal(e) for e in rec.entries)
    ctx.check(got == want, 'route %r: reported %r, expected %r', d, got, want)
    # Colours and addresses, where the end of the text counts
    d = dict(route_id=u'r', route_short_name=u'9', route_long_name=u'Nine', route_type=3,
             route_color=rng.pick([near_contrast(rng), near_contrast(rng), 'FFFFFF', None, 'FFFFFF\n', 'ffffff\r']),
             route_text_color=rng.pick(['000000', None, '000000\n', '000000\n\n', ' 000000']))
    rec, reporter = recorder.new()
    transitfeed.Route(field_dict=dict(d)).Validate(reporter)
    r = Row(dict((k, v or '') for k, v in d.items()))
    gap = []
    for c, default in (('route_color', 'FFFFFF'), ('route_text_color', '000000')):
      v = d[c] or default
      if len(v) != 6:
        r.bad(c)
        v = default
      gap.append(luminance(v))
    if abs(gap[0] - gap[1]) < 510 / 7.0:
      r.bad('route_color', WARN)
    got = collections.Counter(normal(e) for e in rec.entries)
    ctx.check(got == r.want, 'route %r: reported %r, expected %r', d, got, r.want)
    mail = rng.pick(MAILS) + rng.pick(['', '\n', '\n', '@x', '\n@x'])
    d = dict(agency_id=u'a', agency_name=u'A', agency_url=u'http://a', agency_timezone=u'Europe/Berlin',
             agency_email=mail)
    rec, reporter = recorder.new()
    transitfeed.Agency(field_dict=dict(d)).Validate(reporter)
    got = [normal(e) for e in rec.entries]
    # A line end belongs to what may follow the last dot
    ctx.equal(('InvalidValue', 'agency_email', ERR) in got, '@x' in mail, 'address %r is refused' % mail)
    ctx.count('objects with native values', 6)


def run_case(ctx, rng, i):
  loaded(ctx, rng, i)
  native(ctx, rng, i)
