# -*- coding: utf-8 -*-
"""C21: the validation report counts and shows what was found."""
import datetime
import optparse
import os
import re
import shutil
import sys

import transitfeed

from harness import days, feedgen, mutate, page, recorder, render
from harness.core import u

CASES = {'quick': 700, 'thorough': 30000}
RULE = ('a case is a sequence of problems reported to the report writers, or a feed run through the '
        'validator with random options; distinct by the kinds, counts and settings')
MINIMUM = {'feeds validated: all problems ignored': 24, 'feeds validated: clean': 32,
           'feeds validated: problems': 120, 'pages read': 310,
           'pages with bytes that are not UTF-8': 1, 'problems ignored': 730,
           'pages with a summary': 20, 'pages without a summary': 5, 'days in summaries': 1000,
           'problems left out': 2600, 'problems reported': 4200, 'problems shown': 2400,
           'rows shown': 480, 'sections cut by significance': 76, 'sequences reported': 150}
NAMES = {0: 'Error', 1: 'Warning', 2: 'Notice'}
TEXTS = [u'plain', u'Zürich HB', u'<b>bold</b>', u'a & b', u'"quoted"', u"it's", u'</td></table>', u'&lt;',
         u'&amp;amp;', u'<script>alert(1)</script>', u'日本', u'a < b > c', u'x' * 100, u'%s', u'%(value)s',
         u'two  words', u'', u'<!-- c', u'<li>', u'é' * 30, u'the quick brown fox ' * 9, u'#', u"' onclick='x"]
# What each kind of problem must tell, by name of the attribute.
KINDS = {
    'FeedNotFound': ['feed_name'], 'UnknownFormat': ['feed_name'], 'FileFormat': ['problem'],
    'MissingFile': ['file_name'], 'UnknownFile': ['file_name'], 'EmptyFile': ['file_name'],
    'MissingColumn': ['file_name', 'column_name'], 'UnrecognizedColumn': ['file_name', 'column_name'],
    'DeprecatedColumn': ['file_name', 'column_name', 'new_name'], 'CsvSyntax': ['description'],
    'DuplicateColumn': ['file_name', 'header', '#count'], 'MissingValue': ['column_name', '?reason'],
    'InvalidValue': ['column_name', 'value', '?reason'], 'InvalidFloatValue': ['value', '?reason'],
    'InvalidNonNegativeIntegerValue': ['value', '?reason'],
    'InvalidAgencyID': ['column_name', 'value', 'relating_type', 'relating_id'],
    'UnusedStop': ['stop_id', 'stop_name'], 'UsedStation': ['stop_id', 'stop_name'],
    'StopTooFarFromParentStation': ['stop_id', 'stop_name', 'parent_stop_id', 'parent_stop_name', '!distance'],
    'StopsTooClose': ['stop_name_a', 'stop_id_a', 'stop_name_b', 'stop_id_b', '!distance'],
    'StationsTooClose': ['stop_name_a', 'stop_id_a', 'stop_name_b', 'stop_id_b', '!distance'],
    'DifferentStationTooClose': ['stop_name', 'stop_id', 'station_stop_name', 'station_stop_id', '!distance'],
    'StopTooFarFromShapeWithDistTraveled': ['trip_id', 'stop_name', 'stop_id', '!shape_dist_traveled',
                                            'shape_id', '!distance', '!max_distance'],
    'NoServiceExceptions': ['start', 'end'], 'InvalidLineEnd': ['bad_line_end'],
    'TooFastTravel': ['trip_id', 'prev_stop', 'next_stop', '!dist', '#time', '!speed'],
    'StopWithMultipleRouteTypes': ['stop_name', 'stop_id', 'route_id1', 'route_id2'],
    'DuplicateTrip': ['trip_id1', 'route_id1', 'trip_id2', 'route_id2'],
    'OverlappingTripsInSameBlock': ['trip_id1', 'trip_id2', 'block_id'],
    'TransferDistanceTooBig': ['from_stop_id', 'to_stop_id', '!distance'],
    'TransferWalkingSpeedTooFast': ['from_stop_id', 'to_stop_id', '!distance', '#transfer_time'],
    'OtherProblem': ['description']}
# kinds with an order of significance: attribute, sign (+1: the smaller comes first)
ORDER = {'StopTooFarFromParentStation': ('distance', -1), 'StopsTooClose': ('distance', 1),
         'StationsTooClose': ('distance', 1), 'DifferentStationTooClose': ('distance', 1),
         'StopTooFarFromShapeWithDistTraveled': ('distance', -1), 'TooFastTravel': ('dist', -1)}
NO_TYPE = ()
NO_CONTEXT = ('StopTooFarFromShapeWithDistTraveled', 'TooFastTravel')


def form(rng, text):
  """A text as the library passes it: unicode, or bytes of UTF-8."""
  return text if rng.chance(0.7) else text.encode('utf-8')


def report(ctx, rng, rep, kind):
  """Report one random problem; returns the texts it must show."""
  kw, shown = {}, []
  for f in KINDS[kind]:
    name = f.strip('#!?')
    if f[0] == '#':
      kw[name] = rng.randint(0, 300)
    elif f[0] == '!':
      kw[name] = rng.pick([rng.uniform(0, 5), rng.uniform(0, 5000), float(rng.randint(1, 4)), rng.randint(1, 9)])
    elif f[0] == '?':
      if rng.chance(0.5):
        kw[name] = form(rng, rng.pick(TEXTS))
        shown.append(u(kw[name]))
    else:
      kw[name] = form(rng, rng.pick(TEXTS))
      shown.append(u(kw[name]))
  if kind == 'InvalidValue' and rng.chance(0.2):
    kw['value'] = rng.pick([5, 1.5, None, -1])
    shown = [x for x in shown if x == u(kw['column_name'])]
  if kind == 'MissingColumn' or kind == 'UnrecognizedColumn':
    pass
  if rng.chance(0.6):
    kw['type'] = rng.pick([0, 0, 1, 1, 2])
  if kind == 'FileFormat' or kind not in NO_CONTEXT and rng.chance(0.3):
    kw['context'] = context(rng)
  getattr(rep, kind)(**kw)
  return shown


def context(rng):
  name = rng.pick(['stops.txt', 'trips.txt', 'stop_times.txt', 'agency.txt'])
  n = rng.randint(1, 5)
  p = rng.random()
  headers = [rng.pick(['stop_id', 'stop_name', 'value', u'é', u'<h>', u'a&b', 'column']) for _ in range(n)]
  row = [rng.pick(TEXTS) for _ in range(n)]
  if p < 0.15:
    return (name,)
  if p < 0.3:
    return (name, rng.randint(1, 999))
  if p < 0.4:
    return (name, rng.randint(1, 999), row[:-1], headers)
  if p < 0.5:
    return (name, 1, [''] * n, [h.encode('utf-8') if isinstance(h, unicode) else h for h in headers])
  return (name, rng.randint(0, 999), row, headers)


class Model(object):
  """What the reports must say about a sequence of problems."""

  def __init__(self, entries, limit, ignored):
    self.kept = [e for e in entries if e.cls not in (ignored or ())]
    self.groups = {}
    for e in self.kept:
      self.groups.setdefault((e.type, e.cls), []).append(e)
    self.limit = limit

  def count(self, type_):
    return len([e for e in self.kept if e.type == type_])

  def issues(self):
    return bool(self.count(0) or self.count(1))

  def shown(self, key):
    l = self.groups[key]
    if key[1] in ORDER:
      attr, sign = ORDER[key[1]]
      l = sorted(l, key=lambda e: sign * e.get(attr))
    return l[:self.limit]


def where(e):
  row, headers = e.row, e.headers
  table = None
  if e.file_name is not None and row is not None and headers is not None:
    table = [(u(h), u(v), h == e.column_name) for h, v in zip(headers, row)]
  return table


def check_item(ctx, li, e, what):
  """One list item of the page against the problem it must show."""
  divs = li.find('div')
  if not divs or 'problem' not in divs[0].attrs.get('class', u'').split():
    ctx.fail(u'%s: no problem text in an item of the page: %s' % (what, li.text()))
    return
  ctx.equal(page.squeeze(divs[0].text()), page.squeeze(e.text()), what + u': text of a problem')
  if (e.type == recorder.NOTICE) != ('notice' in divs[0].attrs['class'].split()):
    ctx.fail(what + u': a notice is not marked as one, or another problem is')
  rest = [n for n in li.nodes() if n is not divs[0]]
  codes = [n for n in rest if n.tag == 'code']
  tables = [n for n in rest if n.tag == 'table']
  ctx.equal([n.text() for n in codes], [] if e.file_name is None else [u(e.file_name)], what + u': file of a problem')
  outside = u''.join(c if not isinstance(c, page.Node) else u'' for c in li.children)
  m = re.search(ur'line (-?\d+) of', outside)
  ctx.equal(int(m.group(1)) if m else None, e.row_num if e.file_name is not None else None, what + u': line of a problem')
  want = where(e)
  if want is None:
    ctx.equal(len(tables), 0, what + u': tables of a problem without a row')
    return
  if not tables and e.get('column_name') is None:
    return  # A row without a column to point at need not be shown.
  if len(tables) != 1:
    ctx.fail(u'%s: %d tables for the row of a problem' % (what, len(tables)))
    return
  head = tables[0].find('th')
  data = tables[0].find('td')
  marked = [('problem' in n.attrs.get('class', u'')) for n in head]
  got = [(h.text(), d.text(), k) for h, d, k in zip(head, data, marked)]
  ctx.equal((got, len(head), len(data)), (want, len(want), len(want)), what + u': row of a problem')
  ctx.count('rows shown')


def check_page(ctx, text, model, what):
  root, bad = page.read(text)
  if bad:
    ctx.fail(u'%s: the structure of the page is broken: %s' % (what, u'; '.join(bad[:4])))
    return
  # totals
  outside = [t for t in root.find('table') if t.attrs.get('class') == u'count_outside']
  spans = [n.text() for n in root.find('span') if n.attrs.get('class') in (u'pass', u'fail')]
  if model.issues():
    if len(outside) != 1:
      ctx.fail(u'%s: %d summary tables' % (what, len(outside)))
      return
    totals = []
    for n, word in ((0, u'error'), (1, u'warning')):
      k = model.count(n)
      if k:
        totals.append(u'%d %s%s' % (k, word, u'' if k == 1 else u's'))
    ctx.equal([n.text() for n in outside[0].find('span')], totals, what + u': totals of the page')
    rows = []
    for tr in outside[0].find('tr'):
      cells = [n for n in tr.nodes() if n.tag == 'td']
      links = cells[-1].find('a') if cells else []
      if len(cells) == 2 and re.match(ur'\d+$', cells[0].text()) and len(links) == 1 and links[0].attrs.get('href', u'').startswith(u'#'):
        rows.append((links[0].attrs['href'][1:], int(cells[0].text())))
    want = [(NAMES[k[0]] + k[1], len(v)) for k, v in model.groups.items() if k[0] in (0, 1)]
    ctx.equal(sorted(rows), sorted(want), what + u': numbers per kind')
    if u'feed validated successfully' in spans:
      ctx.fail(what + u': the page says that the feed is valid')
  else:
    ctx.equal((len(outside), u'feed validated successfully' in spans), (0, True), what + u': verdict of the page')
  # items
  want = {}
  for key, l in model.groups.items():
    want[NAMES[key[0]] + key[1]] = key
  seen = []
  pending = None
  for n in root.find('h4', 'ul'):
    if n.tag == 'h4':
      a = n.find('a')
      pending = a[0].attrs.get('name') if a else None
      continue
    if pending is None:
      ctx.fail(what + u': a list of problems without a heading')
      continue
    seen.append(pending)
    if pending not in want:
      ctx.fail(u'%s: unexpected section %s' % (what, pending))
      continue
    key = want[pending]
    expected = model.shown(key)
    items = [x for x in n.nodes() if x.tag == 'li']
    dropped = len(model.groups[key]) - len(expected)
    if dropped:
      last = items.pop() if items else None
      if last is None or (u'%d more' % dropped) not in last.text():
        ctx.fail(u'%s: section %s does not say that %d are not shown' % (what, pending, dropped))
    if len(items) != len(expected):
      ctx.fail(u'%s: section %s shows %d problems, expected %d' % (what, pending, len(items), len(expected)))
      continue
    for li, e in zip(items, expected):
      check_item(ctx, li, e, what)
    ctx.count('problems shown', len(items))
    ctx.count('problems left out', dropped)
    if key[1] in ORDER and dropped:
      ctx.count('sections cut by significance')
    pending = None
  ctx.equal(sorted(seen), sorted(want), what + u': sections of the page')
  ctx.count('pages read')


class Stdout(object):
  """Standard output as a file, as when the output of a program is redirected."""

  def __init__(self, path):
    self.path = path

  def __enter__(self):
    self.old = sys.stdout
    sys.stdout = open(self.path, 'w')

  def __exit__(self, *args):
    sys.stdout.close()
    sys.stdout = self.old

  def text(self):
    f = open(self.path, 'rb')
    data = f.read()
    f.close()
    return data.decode('utf-8', 'replace')


def context_text(e):
  """What the console says about the place of a problem."""
  t = u''
  if e.get('feed_name') is not None:
    t += u"In feed '%s': " % u(e.get('feed_name'))
  if e.file_name is not None:
    t += u(e.file_name)
  if e.row_num is not None:
    t += u':%d' % e.row_num
  if e.get('column_name') is not None:
    t += u' column %s' % u(e.get('column_name'))
  return t


def console_text(entries):
  return page.squeeze(u'\n'.join(context_text(e) + u'\n' + e.text() for e in entries))


def counts_text(model):
  l = []
  for n, word in ((0, u'error'), (1, u'warning')):
    k = model.count(n)
    if k:
      l.append(u'%d %s%s' % (k, word, u'' if k == 1 else u's'))
  return u' and '.join(l)


def check_accumulators(ctx, rng, d, i):
  import feedvalidator
  limit = rng.pick([0, 1, 2, 3, 5, 5, 50])
  kinds = rng.sample(sorted(KINDS), rng.randint(1, 8))
  if rng.chance(0.5):
    kinds.append(rng.pick(sorted(ORDER)))
  ignored = None
  if rng.chance(0.4):
    ignored = rng.sample(kinds, rng.randint(0, len(kinds))) + [rng.pick(['Nonsense', 'ExpirationDate', 'Invalid'])]
  html = feedvalidator.HTMLCountingProblemAccumulator(limit, ignored)
  console = feedvalidator.CountingConsoleProblemAccumulator(ignored)
  rec = recorder.Recorder()

  class Tee(transitfeed.ProblemAccumulatorInterface):
    def _Report(self, e):
      rec._Report(e)
      html._Report(e)
      console._Report(e)

  rep = transitfeed.ProblemReporter(Tee())
  what = u'case %d' % i
  out = Stdout(os.path.join(d, 'out.txt'))
  with out:
    for _ in range(rng.pick([0, 1, 1, 2, 10, 40, 120])):
      if rng.chance(0.4):
        c = context(rng)
        if len(c) == 4:
          rep.SetFileContext(*c)
      if rng.chance(0.2):
        rep.ClearContext()
      shown = report(ctx, rng, rep, rng.pick(kinds))
      text = page.squeeze(rec.entries[-1].text())
      for x in shown:
        if page.squeeze(x) not in text:
          ctx.fail(u'%s: the text of %s does not give %s: %s' % (what, rec.entries[-1].cls, x, text))
  model = Model(rec.entries, limit, ignored)
  for acc, name in ((html, u'HTML'), (console, u'console')):
    ctx.equal((acc.ErrorCount(), acc.WarningCount(), bool(acc.HasIssues()), bool(acc.HasNotices()), acc.FormatCount()),
              (model.count(0), model.count(1), model.issues(), bool(model.count(2)), counts_text(model)),
              u'%s: totals of the %s report' % (what, name))
  ctx.equal(console.NoticeCount(), model.count(2), what + u': notices on the console')
  ctx.equal(page.squeeze(out.text()), console_text(model.kept), what + u': console output')
  for key in model.groups:
    l = html.ProblemList(*key)
    ctx.equal((l.count, l.dropped_count, [id(e) for e in l.problems]),
              (len(model.groups[key]), len(model.groups[key]) - len(model.shown(key)),
               [id(e.e) for e in model.shown(key)]), u'%s: list of %s' % (what, key[1]))
  s = transitfeed.Schedule(problem_reporter=transitfeed.ProblemReporter(recorder.Recorder()))
  if rng.chance(0.6):
    s.AddAgency(rng.pick(TEXTS) or 'x', 'http://a.x/?a=1&b="2"', 'Europe/Zurich')
  path = os.path.join(d, 'out.html')
  f = open(path, 'wb')
  html.WriteOutput(os.path.join(d, rng.pick(['feed.zip', 'a&b.zip', '<i>.zip'])), f, s, None)
  f.close()
  check_page(ctx, open(path, 'rb').read(), model, what)
  ctx.count('sequences reported')
  ctx.count('problems reported', len(rec.entries))
  ctx.count('problems ignored', len(rec.entries) - len(model.kept))
  return [limit, sorted((k, len(v)) for k, v in model.groups.items())]


def options(**kw):
  v = dict(manual_entry=False, performance=None, memory_db=True, check_duplicate_trips=False, limit_per_type=5,
           latest_version=transitfeed.__version__, service_gap_interval=13, extension=None,
           error_types_ignore_list=None)
  v.update(kw)
  return optparse.Values(v)


def check_validator(ctx, rng, d, i):
  import feedvalidator
  f = feedgen.generate(rng, stops=(2, 8), routes=(1, 3))
  if rng.chance(0.85):
    for _ in range(rng.pick([1, 1, 3, 10])):
      mutate.cell_edit(rng, f)
  contents = render.files(f, render.random_style(rng))
  if rng.chance(0.3):
    for _ in range(rng.randint(1, 2)):
      if contents:
        mutate.byte_edit(rng, contents)
  path = os.path.join(d, rng.pick(['feed.zip', 'a&b.zip', "it's.zip"]))
  render.write_zip(contents, path)
  if rng.chance(0.03):
    os.remove(path)
  elif rng.chance(0.03):
    bad = open(path, 'wb')
    bad.write('nonsense ' * 9)
    bad.close()
  opt = dict(check_duplicate_trips=rng.chance(0.5), memory_db=rng.chance(0.8), limit_per_type=rng.pick([1, 2, 5, 100]),
             service_gap_interval=rng.pick([2, 13]), error_types_ignore_list=None)
  # What there is to report, from the library
  rec = recorder.Recorder()
  newer = rng.chance(0.2)
  rep = rec.reporter()
  if newer:
    opt['latest_version'] = '100.0.0'
    rep.NewVersionAvailable('100.0.0')
  s = transitfeed.Loader(path, problems=rep, extra_validation=False, memory_db=opt['memory_db'],
                         check_duplicate_trips=opt['check_duplicate_trips']).Load()
  s.Validate(service_gap_interval=opt['service_gap_interval'], validate_children=False)
  if rng.chance(0.4):
    present = sorted(set(e.cls for e in rec.entries))
    opt['error_types_ignore_list'] = rng.sample(present, rng.randint(0, len(present))) + ['Nonsense']
    if rng.chance(0.3):
      opt['error_types_ignore_list'] = present or ['Nonsense']
  model = Model(rec.entries, opt['limit_per_type'], opt['error_types_ignore_list'])
  want = 1 if model.issues() else 0
  what = u'case %d' % i
  out = Stdout(os.path.join(d, 'out.txt'))
  html = os.path.join(d, 'out.html')
  with out:
    code = feedvalidator.RunValidationFromOptions(path, options(output=html, **opt))
  ctx.equal(code, want, what + u': exit status')
  text = out.text()
  verdict = (u'ERROR: %s found' % counts_text(model)) if want else u'feed validated successfully'
  if verdict not in text:
    ctx.fail(u'%s: the output does not say %r: %s' % (what, verdict, text[-300:]))
  data = open(html, 'rb').read()
  try:
    data.decode('utf-8')
  except UnicodeDecodeError:
    # A header that is not UTF-8 is shown as it is; what is after it depends on the reader.
    ctx.count('pages with bytes that are not UTF-8')
    return [i]
  check_page(ctx, data, model, what)
  root, _ = page.read(data)
  cells = [n for n in root.find('tr')]
  facts = {}
  for tr in cells:
    c = tr.nodes()
    if len(c) == 2 and c[0].text().endswith(u':'):
      facts[c[0].text()] = c[1]
  for name, n in ((u'Routes:', len(s.GetRouteList())), (u'Stops:', len(s.GetStopList())),
                  (u'Trips:', len(s.GetTripList())), (u'Shapes:', len(s.GetShapeList()))):
    ctx.equal(facts[name].text().strip() if name in facts else None, u'%d' % n, what + u': ' + name)
  names = [(u(a.agency_name), u(a.agency_url)) for a in s.GetAgencyList()]
  got = [(n.text(), n.attrs.get('href')) for n in facts[u'Agencies:'].find('a')]
  ctx.equal([(page.squeeze(x), page.squeeze(y or u'')) for x, y in got],
            [(page.squeeze(x), page.squeeze(y)) for x, y in names], what + u': agencies on the page')
  out = Stdout(os.path.join(d, 'out2.txt'))
  with out:
    code = feedvalidator.RunValidationFromOptions(path, options(output=rng.pick(['CONSOLE', 'console']), **opt))
  ctx.equal(code, want, what + u': exit status on the console')
  text = page.squeeze(out.text())
  first = [e for e in model.kept if newer and e is rec.entries[0]]
  if console_text(first) not in text:
    ctx.fail(what + u': the console does not tell of the new version')
  text = text.replace(console_text(first), u'', 1)
  body = console_text([e for e in model.kept if e not in first])
  if body not in text:
    ctx.fail(u'%s: the console does not list the problems: got %s, expected %s' % (what, text[:1500], body[:1500]))
  if verdict not in text:
    ctx.fail(u'%s: the console does not say %r' % (what, verdict))
  rest = text.replace(body, u'', 1)
  if len(rest) > 400 + len(path):
    ctx.fail(u'%s: the console says more than the problems: %s' % (what, rest[:500]))
  ctx.count('feeds validated: ' + ('problems' if want else 'clean'))
  if not want and (rec.of(*[e.cls for e in rec.entries]) and any(e.type < 2 for e in rec.entries)):
    ctx.count('feeds validated: all problems ignored')
  return [opt['limit_per_type'], sorted((k, len(v)) for k, v in model.groups.items())]


SHORT = ('Mon Tue Wed Thu Fri Sat Sun'.split(), 'Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec'.split())
MONTHS = 'January February March April May June July August September October November December'.split()


def short_date(d):
  return '%s %s %02d' % (SHORT[0][d.weekday()], SHORT[1][d.month - 1], d.day)


def long_date(d):
  return '%s %02d, %04d' % (MONTHS[d.month - 1], d.day, d.year)


def date_list(dates):
  """A number of dates and the first three of them."""
  return '%d service date%s (%s)' % (len(dates), '' if len(dates) == 1 else 's', ', '.join(
      [short_date(d) for d in dates[:3]] + (['...'] if len(dates) > 3 else [])))


def check_summary(ctx, rng, d, i):
  """The head of the page: dates and the summary of the next 60 days, against a recount per day."""
  import feedvalidator
  what = u'case %d' % i
  today = datetime.date.today()
  rec, rep = recorder.new()
  made = days.make(ctx, rng, today, rep, False, None)
  if made is None:
    return None
  s, models, trips, info = made
  path = os.path.join(d, 'feed.zip')
  s.WriteGoogleTransitFeed(path)
  # services that define no date at all do not appear in any file
  models = dict((k, m) for k, m in models.items() if m.start is not None or m.exc)
  trips = [t for t in trips if t.sid in models]
  html = os.path.join(d, 'out.html')
  with Stdout(os.path.join(d, 'out.txt')):
    feedvalidator.RunValidationFromOptions(path, options(output=html))
  if datetime.date.today() != today:
    return None
  root, _ = page.read(open(html, 'rb').read())
  facts = {}
  for tr in root.find('tr'):
    c = tr.nodes()
    if len(c) == 2 and c[0].text().endswith(u':'):
      facts[page.squeeze(c[0].text())] = page.squeeze(c[1].text())
  lasting = days.effective_range(models, info)
  head = page.squeeze(root.text())
  want = page.squeeze(u'%s to %s' % tuple(long_date(x) for x in lasting[:2])) if lasting else page.squeeze(
      u'No valid service dates found')
  ctx.equal(facts.get(page.squeeze(u'Effective:')), want, what + u': dates on the page')
  first, last = None, None
  if lasting:
    first, last = max(today, lasting[0]), min(today + datetime.timedelta(days=60), lasting[1])
  counts = []
  while lasting and first < last:
    counts.append((first, days.recount(models, trips, first)[0]))
    first += days.ONE
  names = [page.squeeze(x) for x in (u'Average trips per date:', u'Most trips on a date:', u'Least trips on a date:')]
  if not counts:
    ctx.count('pages without a summary')
    ctx.equal([x for x in names if x in facts], [], what + u': summary of no days')
    return [0]
  ctx.count('pages with a summary')
  ctx.count('days in summaries', len(counts))
  period = page.squeeze(u'During the upcoming service dates %s to %s:' % (
      short_date(counts[0][0]), short_date(counts[-1][0])))
  ctx.check(period in head, what + u': the summary is not for %r', period)
  most, least = max(n for _, n in counts), min(n for _, n in counts)
  for name, n in ((names[1], most), (names[2], least)):
    ctx.equal(facts.get(name), page.squeeze(u'%d, on %s' % (n, date_list([x for x, y in counts if y == n]))),
              u'%s: %s' % (what, name))
  mean = sum(n for _, n in counts) / float(len(counts))
  try:
    got = float(facts.get(names[0]) or 'nan')
  except ValueError:
    got = float('nan')
  ctx.check(abs(got - mean) < 1, what + u': average trips %r, expected %r', facts.get(names[0]), mean)
  return [len(counts), most, least, mean]


def run_case(ctx, rng, i):
  d = ctx.tmpdir()
  try:
    if i % 8 == 7:
      sig = check_summary(ctx, rng, d, i)
    elif i % 2:
      sig = check_accumulators(ctx, rng, d, i)
    else:
      sig = check_validator(ctx, rng, d, i)
    ctx.seen([i % 2, sig])
    ctx.sample({'case': i, 'what': repr(sig)[:300]})
  finally:
    shutil.rmtree(d, ignore_errors=True)
