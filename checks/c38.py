# -*- coding: utf-8 -*-
"""C38: the Zurich importer writes the timetable of the export."""
import datetime
import os
import runpy
import shutil
import sys
import urllib
import zipfile

from harness import merges
from harness.core import u

CASES = {'quick': 1500, 'thorough': 25000}
RULE = ('a case is one random export of the DIVA planning system, converted by the tool; distinct by the numbers of rows '
        'and what is odd about them')
MINIMUM = {'advertisements of unknown stations': 660, 'boarding rules': 1400, 'imports': 670,
           'night buses': 260, 'numbers of several lines': 91, 'other trips': 450,
           'patterns with gaps': 400, 'restrictions': 1000, 'stops not advertised': 1700,
           'stops of trips': 7500, 'trams': 270, 'trips': 2300,
           'trips of patterns with gaps': 270, 'values compared': 250000}
ASSUMPTIONS = ['the layout of the export is what the importer reads: no sample of it is in the repository',
               'fields have no separators or line ends and no quotes but within names; a trip number that two lines share has no boarding rules']

TRAMS = {u'2': u'FF3300', u'3': u'009933', u'4': u'333399', u'5': u'996600', u'6': u'CC9933', u'7': u'000000',
         u'8': u'99CC00', u'9': u'333399', u'10': u'FF6699', u'11': u'009933', u'12': u'FFFFFF', u'13': u'FFCC33',
         u'14': u'3399CC', u'15': u'FF3300'}
BLACK_ON_TRAM = (u'8', u'12', u'13')

# name -> (stop_name, stop_city)
NAMES = {
    u'Triemli': (u'Triemli', u'Zürich'),
    u'Neue Forch': (u'Neue Forch', u'Zürich'),
    u'Zentrum Glatt': (u'Zentrum Glatt', u'Wallisellen'),
    u'Spital Zollikerberg': (u'Spital', u'Zollikerberg'),
    u'Oberrieden Dorf Bahnhof': (u'Oberrieden Dorf', u'Oberrieden'),
    u'Freienbach SOB, Bahnhof': (u'Freienbach SOB', u'Freienbach'),
    u'Herrliberg-Feldmeilen,Bhf West': (u'Bahnhof West', u'Herrliberg-Feldmeilen'),
    u'Zürich, Bahnhofstr.': (u'Bahnhofstrasse', u'Zürich'),
    u'Uster, Bahnhof': (u'Uster Bahnhof', u'Uster'),
    u'Zürich, Dorfstr./Bergstr.': (u'Dorfstr./Bergstrasse', u'Zürich'),
    u'Uster, "Krone"': (u'"Krone"', u'Uster'),
    u'Uster, Krone "alt"': (u'Krone "alt"', u'Uster'),
    u'Uster, Post': (u'Post', u'Uster'),
    u'Thalwil, Schiffst.': (u'Thalwil Schiffstation', u'Thalwil'),
    u'Küsnacht, Zentrum': (u'Küsnacht Zentrum', u'Küsnacht'),
    u'Maur, Dorf': (u'Maur Dorf', u'Maur'),
    u'Egg, Dorfplatz': (u'Egg Dorfplatz', u'Egg'),
    u'Esslingen, Zentrum/Bahnhof': (u'Esslingen Zentrum/Bahnhof', u'Esslingen'),
    u'Rüti, Station': (u'Rüti Station', u'Rüti'),
    u'Volketswil, Dorfzentrum': (u'Volketswil Dorfzentrum', u'Volketswil'),
    u'Wangen b. D., Kirche': (u'Kirche', u'Wangen'),
    u'Affoltern a. A., Bahnhof': (u'Affoltern a. A. Bahnhof', u'Affoltern am Albis'),
    u'Zürich Enge': (u'Zürich Enge', u'Zürich'),
    u'Paradeplatz': (u'Paradeplatz', u'Paradeplatz'),
    u'Meilen, Seestr.': (u'Seestrasse', u'Meilen'),
    u'Zürich, Albisrieden, Post': (u'Albisrieden, Post', u'Zürich'),
    u'Langstr.': (u'Langstrasse', u'Langstrasse'),
    u'Dübendorf, Bahnhof Ost': (u'Bahnhof Ost', u'Dübendorf'),
}


def wgs84(x, y):
  """The approximation of swisstopo (formulas for the reference system CH1903)."""
  a, b = (x - 600000) / 1000000.0, (y - 200000) / 1000000.0
  lon = 2.6779094 + 4.728982 * a + 0.791484 * a * b + 0.1306 * a * b ** 2 - 0.0436 * a ** 3
  lat = (16.9023892 + 3.238272 * b - 0.270978 * a ** 2 - 0.002528 * b ** 2 - 0.0447 * a ** 2 * b
         - 0.0140 * b ** 3)
  return lat * 100 / 36, lon * 100 / 36


def hms(t):
  return u'%02d:%02d:%02d' % (t // 3600, t // 60 % 60, t % 60)


class Table(object):
  """A file of the export: its columns in some order, among others."""

  def __init__(self, rng, columns, sep, more=True):
    self.rng = rng
    self.columns = rng.shuffled(columns)
    if more:
      for k in range(rng.randint(0, 3)):
        self.columns.insert(rng.randint(0, len(self.columns)), u'MORE_%d' % k)
    self.sep = sep
    self.pad = rng.chance(0.3)
    self.rows = []

  def add(self, **row):
    self.rows.append(row)

  def cell(self, x):
    x = unicode(x)
    return x + u' ' * self.rng.randint(0, 2) if self.pad else x

  def data(self, shuffle=False):
    rows = self.rng.shuffled(self.rows) if shuffle else self.rows
    lines = [self.sep.join(self.columns)]
    for r in rows:
      lines.append(self.sep.join(self.cell(r.get(c, u'x')) for c in self.columns))
    end = self.rng.pick([u'\n', u'\r\n'])
    return (end.join(lines) + self.rng.pick([u'', end])).encode('iso-8859-1')


def dates(rng):
  start = datetime.date(2009, 12, 1) + datetime.timedelta(days=rng.randint(0, 700))
  return start, start + datetime.timedelta(days=rng.randint(0, rng.pick([200, 200, 200, 900])))


def num(d):
  return u'%04d%02d%02d' % (d.year, d.month, d.day)


def export(ctx, rng):
  """(files, feed expected: table -> rows)"""
  sep = rng.pick([u';', u';', u','])
  files, want = {}, dict((t, []) for t in ('stops', 'routes', 'trips', 'stop_times', 'calendar', 'calendar_dates'))
  # Lines
  lines = []
  table = Table(rng, [u'LI_NR', u'LINIEN_BEZ_DRUCK'], sep)
  for k in range(rng.randint(1, 4)):
    name = rng.pick([rng.pick(sorted(TRAMS)), u'N%d' % rng.randint(1, 20), u'%d' % rng.randint(31, 990),
                     u'S%d' % rng.randint(2, 18), u'Bähnli', u'Dolderbahn', u'Linie Nord'])
    line = u'%d' % (100 * k + rng.randint(1, 99))
    if rng.chance(0.1):
      line = rng.pick([u'B', u'Ä']) + line
    lines.append(line)
    table.add(LI_NR=line, LINIEN_BEZ_DRUCK=name)
    color, text = u'FFFFFF', u'000000'
    if name in TRAMS:
      color, text = TRAMS[name], u'000000' if name in BLACK_ON_TRAM else u'FFFFFF'
      ctx.count('trams')
    elif name[0] == u'N':
      color, text = u'000000', u'FFFF00'
      ctx.count('night buses')
    want['routes'].append(dict(route_id=line, route_short_name=name, route_long_name=name,
                               route_type=u'0' if name in TRAMS else u'3', route_color=color, route_text_color=text))
  files['rec_lin_ber.mdv'] = table.data()
  # Stations
  stations = {}
  table = Table(rng, [u'ORT_NR', u'ORT_NAME', u'ORT_POS_X', u'ORT_POS_Y', u'ORT_NR_NATIONAL'], sep)
  for k in range(rng.randint(2, 9)):
    names = sorted(NAMES)
    if sep == u',':
      names = [n for n in names if u',' not in n]
    name = rng.pick(names)
    x, y = rng.randint(480000, 840000), rng.randint(70000, 300000)
    if rng.chance(0.7):
      x, y = rng.randint(670000, 710000), rng.randint(230000, 265000)
    uic = rng.pick([u'', u'8503000', u'85030001', u'8703000', u'8588888'])
    sid = u'%d' % (1000 + 17 * k)
    stations[sid] = NAMES[name][0]
    table.add(ORT_NR=sid, ORT_NAME=name, ORT_POS_X=x, ORT_POS_Y=y, ORT_NR_NATIONAL=uic)
    lat, lon = wgs84(x, y)
    want['stops'].append(dict(
        stop_id=sid, stop_uic_code=uic if len(uic) == 7 and uic.startswith(u'85') else u'', stop_name=NAMES[name][0],
        stop_city=NAMES[name][1], stop_country=u'CH', stop_lat=lat, stop_lon=lon,
        stop_url=u'http://fahrplan.zvv.ch/?to.0=' + urllib.quote(name.encode('iso-8859-1')).decode('ascii')))
  files['rec_ort.mdv'] = table.data()
  # Advertised lines: no header
  advertised = set()
  adv = []
  for sid in sorted(stations):
    for line in lines:
      if rng.chance(0.7):
        advertised.add((sid, line))
        adv.append(u'%s;%s;a;b;;' % (sid, u'0' * rng.randint(0, 3) + line))
  for _ in range(rng.randint(0, 2)):
    adv.append(u'99999;%s;;;;' % rng.pick(lines))
    ctx.count('advertisements of unknown stations')
  rng.shuffle(adv)
  files['bedienendeLinien_google.csv'] = u'\n'.join(adv + [u'']).encode('iso-8859-1')
  # Patterns and stop times
  ptable = Table(rng, [u'LI_NR', u'STR_LI_VAR', u'LI_RI_NR', u'LI_LFD_NR', u'ORT_NR'], sep)
  ttable = Table(rng, [u'LI_NR', u'STR_LI_VAR', u'LI_RI_NR', u'LI_LFD_NR', u'FGR_NR', u'FZT_REL', u'HZEIT'], sep)
  patterns = []
  for line in lines:
    for variant in range(rng.randint(1, 2)):
      for direction in rng.pick([[1], [1, 2]]):
        key = (line, u'%d' % variant, u'%d' % direction)
        stops = [rng.pick(sorted(stations)) for _ in range(rng.randint(2, 6))]
        bad = rng.chance(0.1)
        rows = [dict(LI_NR=line, STR_LI_VAR=key[1], LI_RI_NR=key[2], LI_LFD_NR=k + 1, ORT_NR=s)
                for k, s in enumerate(stops)]
        if bad:
          del rows[rng.randint(0, len(rows) - 2)]
          ctx.count('patterns with gaps')
        for r in rows if rng.chance(0.5) else rng.shuffled(rows):
          ptable.add(**r)
        times = {}
        for group in range(rng.randint(1, 3)):
          times[u'%d' % group] = [(0 if k == 0 and rng.chance(0.8) else rng.randint(0, 400),
                                   rng.pick([0, 0, 0, 30, rng.randint(0, 200)])) for k in range(len(stops))]
        patterns.append((key, stops, times, bad))
  entries = []
  for key, stops, times, bad in patterns:
    for group, ts in times.items():
      entries.append([dict(LI_NR=key[0], STR_LI_VAR=key[1], LI_RI_NR=key[2], LI_LFD_NR=k + 1, FGR_NR=group,
                           FZT_REL=a, HZEIT=b) for k, (a, b) in enumerate(ts)])
  while entries:
    # Groups interleave, each in its order
    e = rng.pick(entries)
    ttable.add(**e.pop(0))
    if not e:
      entries.remove(e)
  files['lid_verlauf.mdv'] = ptable.data()
  files['lid_fahrzeitart.mdv'] = ttable.data()
  # Services
  services = {}
  table = Table(rng, [u'FPL_KUERZEL', u'TAGESART_NR', u'BETRIEBSTAG'], sep)
  types = Table(rng, [u'TAGESART_NR', u'TAGESMERKMAL_NR'], sep)
  schedules = rng.sub([u'j10', u'p27', u'f2'], 0.6) or [u'j10']
  kinds = [u'%d' % k for k in range(1, rng.randint(2, 5))]
  days = {}
  for s in schedules:
    start, end = dates(rng)
    for kind in kinds:
      n = (end - start).days
      ds = sorted(set(start + datetime.timedelta(days=rng.randint(0, n)) for _ in range(rng.randint(1, 12))))
      days[s, kind] = ds
      for d in ds:
        table.add(FPL_KUERZEL=s, TAGESART_NR=kind, BETRIEBSTAG=num(d))
  for kind in kinds:
    for mark in rng.sub([u'H1', u'H2', u'9'], 0.5) or [u'H1']:
      types.add(TAGESART_NR=kind, TAGESMERKMAL_NR=mark)
      for s in schedules:
        services.setdefault((u'C', s, mark), set()).update(days[s, kind])
  files['firmenkalender.mdv'] = table.data(True)
  files['tagesart_merkmal.mdv'] = types.data(True)
  table = Table(rng, [u'FPL_KUERZEL', u'VB', u'VB_DATUM', u'DATUM_VON', u'DATUM_BIS'], sep)
  for k in range(rng.randint(0, 3)):
    start, end = dates(rng)
    months = (end.year - start.year) * 12 + end.month - start.month + 1
    n = (end - start).days
    ds = set(start + datetime.timedelta(days=rng.randint(0, n)) for _ in range(rng.pick([1, 3, 30])))
    if rng.chance(0.3):
      ds |= set(x for x in (start, end))
    masks = [0] * months
    for d in ds:
      masks[(d.year - start.year) * 12 + d.month - start.month] |= 1 << (d.day - 1)
    s = rng.pick(schedules)
    bits = u''.join(u'%08x' % x for x in masks)
    table.add(FPL_KUERZEL=s, VB=u'%d' % k, VB_DATUM=bits.upper() if rng.chance(0.5) else bits, DATUM_VON=num(start),
              DATUM_BIS=num(end))
    services[u'VB', s, u'%d' % k] = ds
    ctx.count('restrictions')
  files['vb_regio.mdv'] = table.data()
  for (kind, s, x), ds in services.items():
    ds = sorted(ds)
    sid = u'%s%s.%s' % (kind, s, x)
    want['calendar'].append(dict(
        [(day, u'0') for day in (u'monday', u'tuesday', u'wednesday', u'thursday', u'friday', u'saturday', u'sunday')],
        service_id=sid, start_date=num(ds[0]), end_date=num(ds[-1])))
    for d in ds:
      want['calendar_dates'].append(dict(service_id=sid, date=num(d), exception_type=u'1'))
  # Trips
  drop = rng.chance(0.6)
  board = Table(rng, [u'FRT_FID', u'LI_LFD_NR', u'BEDVERB_CODE'], sep)
  table = Table(rng, [u'FRT_FID', u'FRT_START', u'LI_NR', u'STR_LI_VAR', u'LI_RI_NR', u'FGR_NR', u'FPL_KUERZEL',
                      u'TAGESMERKMAL_NR', u'VB', u'FRT_HP_AUS', u'HALTEPUNKT_NR_ZIEL', u'FAHRTART_NR'], sep)
  used = {}
  for k in range(rng.randint(1, 8)):
    key, stops, times, bad = rng.pick(patterns)
    line = key[0]
    fid = u'%d' % (5000 + k)
    if rng.chance(0.1):
      others = [f for f, ls in used.items() if line not in ls and not [r for r in board.rows if r['FRT_FID'] == f]]
      if others:
        fid = rng.pick(sorted(others))
        ctx.count('numbers of several lines')
    shared = fid in used
    used.setdefault(fid, []).append(line)
    kind, sched, mark = rng.pick(sorted(services))
    normal = not rng.chance(0.15)
    start = rng.randint(14000, 95000)
    group = rng.pick(sorted(times))
    table.add(FRT_FID=fid, FRT_START=start, LI_NR=line, STR_LI_VAR=key[1], LI_RI_NR=key[2], FGR_NR=group,
              FPL_KUERZEL=sched, TAGESMERKMAL_NR=mark if kind == u'C' else rng.pick([u'', u'H1']),
              VB=mark if kind == u'VB' else u'', FRT_HP_AUS=stops[-1], HALTEPUNKT_NR_ZIEL=u'1',
              FAHRTART_NR=u'1' if normal else rng.pick([u'2', u'3', u'4', u'5']))
    rules = {}
    if not shared:
      for n in range(len(stops)):
        if rng.chance(0.2):
          codes = rng.pick([u'A', u'E', u'B', u'AE'])
          rules[n] = codes
          for c in codes:
            board.add(FRT_FID=fid, LI_LFD_NR=n + 1, BEDVERB_CODE=c)
    if not normal:
      ctx.count('other trips')
      continue
    if bad:
      ctx.count('trips of patterns with gaps')
      continue
    tid = u'%s_%s' % (fid, line)
    want['trips'].append(dict(trip_id=tid, route_id=line, service_id=u'%s%s.%s' % (kind, sched, mark),
                              trip_headsign=stations[stops[-1]]))
    ctx.count('trips')
    t = start
    for n, (drive, wait) in enumerate(times[group]):
      t += drive
      if not drop or (stops[n], line) in advertised:
        rule = rules.get(n, u'')
        if rule:
          ctx.count('boarding rules')
        want['stop_times'].append(dict(
            trip_id=tid, stop_sequence=unicode(n + 1), stop_id=stops[n], arrival_time=hms(t),
            departure_time=hms(t + wait), pickup_type=u'1' if u'A' in rule else u'0',
            drop_off_type=u'1' if u'E' in rule else u'0'))
        ctx.count('stops of trips')
      else:
        ctx.count('stops not advertised')
      t += wait
  files['rec_frt.mdv'] = table.data(True)
  files['bedverb.mdv'] = board.data(True)
  return files, want, drop


KEYS = dict(stops='stop_id', routes='route_id', trips='trip_id', calendar='service_id')


def key_of(table, row):
  if table == 'stop_times':
    return row.get('trip_id'), row.get('stop_sequence')
  if table == 'calendar_dates':
    return row.get('service_id'), row.get('date')
  return row.get(KEYS[table])


class Terminal(object):
  def __init__(self):
    self.text = ''

  def write(self, x):
    self.text += x.encode('utf-8') if isinstance(x, unicode) else x


def compare(ctx, w, want, where):
  for table in sorted(want):
    got = {}
    for r in w.table(table):
      k = key_of(table, r)
      ctx.check(k not in got, u'%s: %s has %r twice', where, table, k)
      got[k] = r
    exp = dict((key_of(table, r), r) for r in want[table])
    ctx.check(sorted(got) == sorted(exp), u'%s: %s has %r, expected %r', where, table,
              sorted(set(got) - set(exp)), sorted(set(exp) - set(got)))
    for k, r in exp.items():
      for col, v in r.items():
        g = got.get(k, {}).get(col)
        if k not in got:
          continue
        if isinstance(v, float):
          ctx.check(abs(float(g) - v) < 2e-7, u'%s: %s %r: %s is %r, expected %r', where, table, k, col, g, v)
        else:
          ctx.check(g == v, u'%s: %s %r: %s is %r, expected %r', where, table, k, col, g, v)
        ctx.count('values compared')


def run_case(ctx, rng, i):
  files, want, drop = export(ctx, rng)
  d = ctx.tmpdir()
  try:
    z = zipfile.ZipFile(os.path.join(d, 'in.zip'), 'w')
    for name in rng.shuffled(sorted(files)):
      z.writestr(name, files[name])
    z.close()
    args = ['import_ch_zurich.py', '--in_file', os.path.join(d, 'in.zip'), '--out_file', os.path.join(d, 'out.zip')]
    if not drop:
      args.append('--nodrop_unadvertised_lines')
    elif rng.chance(0.5):
      args.append('--drop_unadvertised_lines')
    old = sys.stdout, sys.argv
    sys.stdout = Terminal()
    try:
      sys.argv = args
      runpy.run_path(os.path.join(ctx.repo, 'misc', 'import_ch_zurich.py'), run_name='__main__')
      said = u(sys.stdout.text)
    finally:
      sys.stdout, sys.argv = old
    w = merges.written(os.path.join(d, 'out.zip'))
  finally:
    shutil.rmtree(d)
  compare(ctx, w, want, u'import')
  a = w.table('agency')
  ctx.check(len(a) == 1 and a[0].get('agency_timezone') == u'Europe/Zurich' and a[0].get('agency_name') == u'VBZ',
            u'the agency is %r', a)
  ctx.check(u'out.zip' in said, u'the tool says %r', said)
  ctx.count('imports')
  ctx.seen(tuple(sorted((t, len(r)) for t, r in want.items())))
