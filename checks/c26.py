# -*- coding: utf-8 -*-
"""C26: factory mappings take effect, only consistently, and for one factory."""
import os
import shutil

import extensions.googletransit as googletransit
import transitfeed
from transitfeed import problems as problems_module

from harness import feedgen, recorder, render

CASES = {'quick': 1100, 'thorough': 28000}
RULE = ('a case is a random history of changes to up to three factories compared with a model after '
        'every change, or a generated feed with added tables and columns loaded with a changed '
        'factory (and with an unchanged one beside it); distinct by the history or the feed')
MINIMUM = {'objects built': 100, 'changes made': 5200, 'columns added': 220, 'columns written': 220,
           'feeds loaded': 120, 'objects of mapped classes: Agency': 80,
           'objects of mapped classes: FareAttribute': 69,
           'objects of mapped classes: FareRule': 56, 'objects of mapped classes: FeedInfo': 54,
           'objects of mapped classes: Frequency': 42, 'objects of mapped classes: Route': 81,
           'objects of mapped classes: Schedule': 70,
           'objects of mapped classes: ServicePeriod': 69, 'objects of mapped classes: Shape': 54,
           'objects of mapped classes: ShapePoint': 59, 'objects of mapped classes: Stop': 83,
           'objects of mapped classes: StopTime': 76, 'objects of mapped classes: Transfer': 48,
           'objects of mapped classes: Trip': 72, 'refusals': 2000, 'states compared': 10000,
           'states with files of the same loading order': 1000, 'tables added': 100}
ASSUMPTIONS = ['mappings name at least one class; class names do not clash with factory methods']

BASE_CLASSES = ['Agency', 'ServicePeriod', 'FareAttribute', 'FareRule', 'Frequency', 'FeedInfo',
                'Shape', 'ShapePoint', 'Stop', 'StopTime', 'Route', 'Transfer', 'Trip', 'Schedule',
                'Loader']
BASE_FILES = {
    'agency.txt': (True, 0, ['Agency']),
    'calendar.txt': (False, None, ['ServicePeriod']),
    'calendar_dates.txt': (False, None, ['ServicePeriod']),
    'fare_attributes.txt': (False, 50, ['FareAttribute']),
    'fare_rules.txt': (False, 60, ['FareRule']),
    'feed_info.txt': (False, 100, ['FeedInfo']),
    'frequencies.txt': (False, 70, ['Frequency']),
    'shapes.txt': (False, None, ['Shape', 'ShapePoint']),
    'stops.txt': (True, 10, ['Stop']),
    'stop_times.txt': (True, None, ['StopTime']),
    'routes.txt': (True, 20, ['Route']),
    'transfers.txt': (False, 30, ['Transfer']),
    'trips.txt': (True, 40, ['Trip'])}


class Model(object):
  def __init__(self):
    self.files = dict((k, dict(required=a, loading_order=b, classes=list(c)))
                      for k, (a, b, c) in BASE_FILES.items())
    self.classes = dict((c, getattr(transitfeed, c)) for c in BASE_CLASSES)


def judge(ctx, g, m, what, names, cnames):
  """All queries of the factory g yield what the model m says."""
  known = list(g.GetKnownFilenames())
  ctx.equal(sorted(known), sorted(m.files), what + ': known file names')
  order = list(g.GetLoadingOrder())
  want = [(v['loading_order'], k) for k, v in m.files.items() if v['loading_order'] is not None]
  ctx.equal(sorted(order), sorted(k for _, k in want), what + ': files in the loading order')
  ranks = [m.files[k]['loading_order'] for k in order if k in m.files]
  ctx.equal(ranks, sorted(ranks), what + ': loading order')
  if len(set(r for r, _ in want)) != len(want):
    ctx.count('states with files of the same loading order')
  for f in names:
    e = m.files.get(f)
    ctx.equal(bool(g.IsFileRequired(f)), bool(e and e['required']), what + ': required %r' % f)
    if e and len(e['classes']) > 1:
      try:
        got = g.GetGtfsClassByFileName(f)
      except problems_module.NonStandardMapping:
        got = 'refused'
      ctx.equal(got, 'refused', what + ': class of the file %r of several classes' % f)
    elif e and e['classes'][0] not in m.classes:
      continue
    else:
      ctx.equal(g.GetGtfsClassByFileName(f), m.classes[e['classes'][0]] if e else None,
                what + ': class of file %r' % f)
  for c in cnames:
    ctx.equal(getattr(g, c, None), m.classes.get(c), what + ': class %r' % c)
    ctx.equal(hasattr(g, c), c in m.classes, what + ': has class %r' % c)
  ctx.count('states compared')


def refused(f, *exceptions):
  try:
    f()
  except exceptions as e:
    return True
  return False


def history(ctx, rng, i):
  n = rng.randint(1, 3)
  gs = [transitfeed.GetGtfsFactory() if rng.chance(0.7) else transitfeed.GtfsFactory()
        for _ in range(n)]
  ms = [Model() for _ in range(n)]
  names = sorted(BASE_FILES)
  names = rng.sub(names, 0.4) + ['x.txt', 'y.txt', 'z.txt', u'agency.txt']
  cnames = rng.sub(BASE_CLASSES, 0.4) + ['Thing', 'Other', 'Third']
  shared = []
  log = []
  for step in range(rng.randint(3, 25)):
    k = rng.randint(0, n - 1)
    g, m = gs[k], ms[k]
    f = rng.pick(names)
    c = rng.pick(cnames)
    op = rng.pick(['add', 'add', 'update', 'update', 'remove', 'addclass', 'addclass',
                   'updateclass', 'updateclass', 'removeclass', 'query'])
    what = 'case %d, factory %d after %s' % (i, k, ', '.join(log[-8:]))
    if op == 'add':
      if shared and rng.chance(0.5):
        d = rng.pick(shared)
      else:
        d = dict(required=rng.chance(0.3), classes=[rng.pick(cnames)],
                 loading_order=rng.pick([None, 0, 5, 5, 10, 20, 35, 50, 101, -3]))
        if rng.chance(0.2):
          d['classes'].append(rng.pick(cnames))
        if rng.chance(0.2):
          del d[rng.pick(sorted(d))]
        if rng.chance(0.1):
          d['note'] = 'more'
        shared.append(d)
      log.append('AddMapping(%r, %r)' % (f, d))
      missing = [x for x in ('classes', 'required', 'loading_order') if x not in d]
      want = []
      if missing:
        want.append(problems_module.InvalidMapping)
      if f in m.files:
        want.append(problems_module.DuplicateMapping)
      if want:
        ctx.check(refused(lambda: g.AddMapping(f, d), *want), '%s: %s was not refused', what, log[-1])
        ctx.count('refusals')
      else:
        g.AddMapping(f, d)
        m.files[f] = dict(d, classes=list(d['classes']))
    elif op == 'update':
      d = rng.pick([{'required': rng.chance(0.5)}, {'loading_order': rng.pick([None, 1, 10, 55, 7])},
                    {'classes': [rng.pick(cnames)]}, {'classes': ['Stop', 'Route']}, {},
                    {'required': True, 'loading_order': 3}])
      log.append('UpdateMapping(%r, %r)' % (f, d))
      if f in m.files:
        g.UpdateMapping(f, d)
        m.files[f].update(d)
      else:
        ctx.check(refused(lambda: g.UpdateMapping(f, d), problems_module.NonexistentMapping),
                  '%s: %s was not refused', what, log[-1])
        ctx.count('refusals')
    elif op == 'remove':
      log.append('RemoveMapping(%r)' % f)
      g.RemoveMapping(f)
      m.files.pop(f, None)
    elif op == 'addclass':
      cls = rng.pick([transitfeed.Stop, object, str, Model])
      log.append('AddClass(%r)' % c)
      if c in m.classes:
        ctx.check(refused(lambda: g.AddClass(c, cls), problems_module.DuplicateMapping),
                  '%s: %s was not refused', what, log[-1])
        ctx.count('refusals')
      else:
        g.AddClass(c, cls)
        m.classes[c] = cls
    elif op == 'updateclass':
      cls = rng.pick([transitfeed.Trip, int, Model, object])
      log.append('UpdateClass(%r)' % c)
      if c in m.classes:
        g.UpdateClass(c, cls)
        m.classes[c] = cls
      else:
        ctx.check(refused(lambda: g.UpdateClass(c, cls), problems_module.NonexistentMapping),
                  '%s: %s was not refused', what, log[-1])
        ctx.count('refusals')
    elif op == 'removeclass':
      log.append('RemoveClass(%r)' % c)
      if c in m.classes:
        g.RemoveClass(c)
        del m.classes[c]
      else:
        ctx.check(refused(lambda: g.RemoveClass(c), problems_module.NonexistentMapping),
                  '%s: %s was not refused', what, log[-1])
        ctx.count('refusals')
    else:
      # A list of names handed out is the caller's own.
      log.append('lists changed')
      for x in (g.GetKnownFilenames(), g.GetLoadingOrder()):
        if isinstance(x, list):
          del x[:]
    ctx.count('changes made')
    log[-1] = '%d.%s' % (k, log[-1])
    what = 'case %d after %s' % (i, ', '.join(log[-8:]))
    for j in range(n):
      judge(ctx, gs[j], ms[j], what + ' of factory %d' % j, names, cnames)
    if ctx.violations:
      return
  # A new factory is as if nothing had happened.
  judge(ctx, transitfeed.GetGtfsFactory(), Model(), what + ' of a new factory', names, cnames)
  ctx.seen(repr(log))
  if i % 2 == 0:
    ctx.sample(log[:6])


# --- loading ---------------------------------------------------------------

TABLES = {'Agency': 'agency', 'Stop': 'stops', 'Route': 'routes', 'Trip': 'trips',
          'FareAttribute': 'fare_attributes', 'FareRule': 'fare_rules', 'Frequency': 'frequencies',
          'Transfer': 'transfers', 'FeedInfo': 'feed_info'}
# Tables whose objects keep their columns as attributes.
KEEPS = ('Agency', 'Stop', 'Route', 'Trip', 'Transfer', 'FeedInfo', 'FareAttribute')
WRITES = ('Agency', 'Stop', 'Route', 'Trip', 'Transfer', 'FeedInfo', 'FareAttribute')


def subclass(name, base, made, extra):
  """A subclass that notes its instances in made."""

  class Sub(base):
    def __init__(self, *args, **kw):
      made.append((name, kw.get('field_dict') is not None))
      base.__init__(self, *args, **kw)

  if extra:
    Sub._FIELD_NAMES = list(base._FIELD_NAMES) + extra
  Sub.__name__ = 'My' + name
  return Sub


def custom_class(made, rows, name, columns):
  class Thing(transitfeed.GtfsObjectBase):
    _REQUIRED_FIELD_NAMES = columns[:1]
    _FIELD_NAMES = list(columns)
    _TABLE_NAME = name

    def __init__(self, field_dict=None):
      self._schedule = None
      if field_dict:
        self.__dict__.update(field_dict)
      made.append((name, True))

    def ValidateBeforeAdd(self, problems):
      return self.what != u'skip'

    def AddToSchedule(self, schedule=None, problems=None):
      rows.append(tuple(getattr(self, c) or u'' for c in columns))

    def ValidateAfterAdd(self, problems):
      pass
  return Thing


def types_in(s):
  """{class name: set of types} of everything in the schedule."""
  out = {}

  def add(n, xs):
    out[n] = set(type(x) for x in xs)
  add('Schedule', [s])
  add('Agency', s.GetAgencyList())
  add('Stop', s.GetStopList())
  add('Route', s.GetRouteList())
  add('Trip', s.GetTripList())
  add('ServicePeriod', s.GetServicePeriodList())
  add('Transfer', s.GetTransferList())
  add('Shape', s.GetShapeList())
  add('FareAttribute', s.GetFareAttributeList())
  add('FareRule', [r for f in s.GetFareAttributeList() for r in f.GetFareRuleList()])
  add('StopTime', [t for trip in s.GetTripList() for t in trip.GetStopTimes()])
  if s.feed_info is not None:
    add('FeedInfo', [s.feed_info])
  return out


def loading(ctx, rng, i):
  d = ctx.tmpdir()
  try:
    f = feedgen.generate(rng, trips=(1, 4), fares=0.9, transfers=0.9, shapes=0.8, freqs=0.8,
                         feed_info=0.9, plain_ids=rng.chance(0.5))
    made = []
    extras = {}
    g = googletransit.GetGtfsFactory() if rng.chance(0.15) else transitfeed.GetGtfsFactory()
    google = type(g.Stop) != type(transitfeed.Stop) or g.Stop is not transitfeed.Stop
    mapped = dict((c, getattr(g, c)) for c in BASE_CLASSES)
    for c in rng.sub(BASE_CLASSES, 0.6):
      extra = []
      if c in KEEPS and f.table(TABLES[c]) and rng.chance(0.5):
        extra = [rng.pick(['x_note', 'x_level', 'zz'])]
        extras[c] = extra[0]
      mapped[c] = subclass(c, mapped[c], made, extra)
      g.UpdateClass(c, mapped[c])
    for c, col in extras.items():
      t = TABLES[c]
      for r in f.table(t):
        r[col] = rng.pick([u'', u'a', u'b c', u'7'])
      f.table(t)[0][col] = u'first'
      f.cols[t] = rng.shuffled(list(f.cols[t]) + [col])
    files = render.files(f, render.random_style(rng))
    # Tables of its own, anywhere in the loading order.
    taken = [BASE_FILES[x][1] for x in BASE_FILES if BASE_FILES[x][1] is not None]
    custom, unknown, missing = {}, [], []
    for k in range(rng.randint(0, 3)):
      name = 'things%d' % k
      rows = []
      columns = ['what', 'size', 'x_free']
      order = rng.pick([15, 15, 45, 200, -1] + taken)
      if rng.chance(0.15):
        order = None
      required = rng.chance(0.3)
      g.AddClass('Thing%d' % k, custom_class(made, rows, name, columns))
      g.AddMapping(name + '.txt', dict(required=required, loading_order=order,
                                       classes=['Thing%d' % k]))
      want = []
      if rng.chance(0.75):
        data = [[rng.pick([u'a', u'ü', u'skip', u'c d']), unicode(n),
                 rng.pick([u'', u'v'])] for n in range(rng.randint(1, 5))]
        files[name + '.txt'] = render.table_bytes(
            columns, [dict(zip(columns, r)) for r in data], render.Style(rng))
        if order is not None:
          want = [tuple(r) for r in data if r[0] != u'skip']
          ctx.count('tables added')
      elif required and order is not None:
        missing.append(name + '.txt')
      custom[name] = (order, rows, want)
    if rng.chance(0.3):
      files['other.txt'] = 'a,b\n1,2\n'
      unknown.append('other.txt')
    removed = []
    for x in ('transfers.txt', 'feed_info.txt', 'frequencies.txt'):
      if rng.chance(0.15):
        g.RemoveMapping(x)
        removed.append(x)
        if x in files:
          unknown.append(x)
      elif rng.chance(0.2):
        if x != 'frequencies.txt':
          g.UpdateMapping(x, {'loading_order': rng.randint(101, 300) if x == 'feed_info.txt'
                              else rng.randint(21, 39)})
        if rng.chance(0.5):
          g.UpdateMapping(x, {'required': True})
          if x not in files:
            missing.append(x)
    path = os.path.join(d, 'f.zip')
    render.write_zip(files, path)
    ctx.seen(open(path, 'rb').read())
    what = 'case %d' % i
    rec = recorder.Recorder()
    s = g.Loader(path, problems=rec.reporter(), gtfs_factory=g,
                 extra_validation=rng.chance(0.5)).Load()
    # Problems about files.
    ctx.equal(sorted(e.file_name for e in rec.of('UnknownFile')), sorted(unknown),
              what + ': files reported as unknown')
    ctx.equal(sorted(e.file_name for e in rec.of('MissingFile')), sorted(missing),
              what + ': files reported as missing')
    for c, col in extras.items():
      ctx.check(not [e for e in rec.of('UnrecognizedColumn')
                     if e.column_name == col and e.file_name == TABLES[c] + '.txt'],
                '%s: column %s is reported though the class %s has it', what, col, c)
    # Classes of everything.
    for n, ts in types_in(s).items():
      ctx.check(not ts or ts == set([mapped[n]]), '%s: objects of class %s are %s', what, n,
                repr(ts))
      if ts and mapped[n] is not getattr(transitfeed, n):
        ctx.count('objects of mapped classes: ' + n)
    for n in ('ShapePoint', 'Frequency'):
      t = {'ShapePoint': 'shapes', 'Frequency': 'frequencies'}[n]
      if mapped[n].__name__ == 'My' + n and not (t + '.txt' in removed):
        ctx.equal(len([1 for x, fd in made if x == n and fd]), len(f.table(t)),
                  what + ': objects made of ' + t)
        ctx.count('objects of mapped classes: ' + n, 1 if f.table(t) else 0)
    if 'transfers.txt' in removed:
      ctx.equal(list(s.GetTransferList()), [], what + ': transfers of a removed file')
    else:
      ctx.equal(len(s.GetTransferList()), len(f.table('transfers')), what + ': transfers')
    ctx.equal(s.feed_info is not None, 'feed_info.txt' not in removed and bool(f.table('feed_info')),
              what + ': feed info')
    for name, (order, rows, want) in custom.items():
      ctx.equal(rows, want, what + ': rows of the added table ' + name)
    # Objects were made in the loading order.
    back = dict((v, k) for k, v in TABLES.items())
    rank = dict((k, o) for k, (o, _, _) in custom.items())
    for x in ('agency.txt', 'stops.txt', 'routes.txt', 'trips.txt', 'fare_attributes.txt',
              'fare_rules.txt'):
      rank[back[x[:-4]]] = BASE_FILES[x][1]
    seq = [rank[n] for n, fd in made if fd and n in rank]
    ctx.equal(seq, sorted(seq), what + ': order of loading')
    # Values of the added columns.
    for c, col in extras.items():
      if TABLES[c] + '.txt' in removed:
        continue
      objs = {'Agency': s.GetAgencyList, 'Stop': s.GetStopList, 'Route': s.GetRouteList,
              'Trip': s.GetTripList, 'Transfer': s.GetTransferList,
              'FareAttribute': s.GetFareAttributeList, 'FeedInfo': lambda: [s.feed_info]}[c]()
      ctx.equal(sorted(getattr(o, col) or u'' for o in objs),
                sorted(r.get(col, u'') for r in f.table(TABLES[c])), what + ': column %s of %s' % (col, c))
      ctx.count('columns added')
    # The schedule makes and writes objects of the mapped classes.
    new = s.AddStop(1.5, 2.5, 'New stop')
    ctx.check(type(new) is mapped['Stop'], '%s: AddStop made a %s', what, repr(type(new)))
    built = transitfeed.Schedule(gtfs_factory=g)
    stop = built.AddStop(1.5, 2.5, 'A stop')
    route = built.AddRoute('1', 'One', 'Bus')
    trip = route.AddTrip(built, headsign='There', service_period=built.GetDefaultServicePeriod())
    trip.AddStopTime(stop, stop_time='08:00:00')
    for c, o in (('Stop', stop), ('Route', route), ('Trip', trip), ('Agency', built.GetDefaultAgency()),
                 ('ServicePeriod', built.GetDefaultServicePeriod()), ('StopTime', trip.GetStopTimes()[0])):
      ctx.check(type(o) is mapped[c], '%s: a schedule built with the factory has a %s that is a %s', what, c,
                repr(type(o)))
      ctx.count('objects built')
    out = os.path.join(d, 'o.zip')
    s.WriteGoogleTransitFeed(out)
    written = render.read_feed(render.read_zip(out))
    for c in WRITES:
      t = TABLES[c]
      if c not in extras or t + '.txt' in removed:
        continue
      cols, rows = written[t]
      ctx.check(extras[c] in cols, '%s: column %s is not written to %s', what, extras[c], t)
      got = sorted(row.get(extras[c], u'') for row in rows)
      want = sorted([r.get(extras[c], u'') for r in f.table(t)] + ([u''] if c == 'Stop' else []))
      ctx.equal(got, want, what + ': column %s written to %s' % (extras[c], t))
      ctx.count('columns written')
    if f.table('fare_attributes'):
      table = render.parse_csv(render.read_zip(out)['fare_attributes.txt'])
      cols = table[0]
      for row in table[1:]:
        ctx.equal(len(row), len(cols), what + ': cells of fare_attributes.txt')
    # Another factory is not affected.
    rec2 = recorder.Recorder()
    s2 = transitfeed.Loader(path, problems=rec2.reporter()).Load()
    for n, ts in types_in(s2).items():
      ctx.check(not ts or ts == set([getattr(transitfeed, n)]),
                '%s: with another factory objects of class %s are %s', what, n, repr(ts))
    ctx.equal(sorted(e.file_name for e in rec2.of('UnknownFile')),
              sorted(x for x in files if x not in BASE_FILES),
              what + ': files unknown to another factory')
    ctx.count('feeds loaded')
  finally:
    shutil.rmtree(d)


def run_case(ctx, rng, i):
  if i % 4 == 3:
    loading(ctx, rng, i)
  else:
    history(ctx, rng, i)
