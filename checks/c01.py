# -*- coding: utf-8 -*-
"""C01: writing a feed and loading it back loses nothing."""
import os
import shutil
from StringIO import StringIO

import transitfeed

from harness import build, canon, core, feedgen, recorder, render

CASES = {'quick': 360, 'thorough': 12000}
RULE = ('a case is one generated feed, loaded or built through the API, possibly edited, '
        'written, loaded, written again; non-trivial and distinct by its table sizes '
        'and contents')
MINIMUM = {'schedules written from loaded feeds': 150, 'schedules built through the API': 60,
           'reloads compared': 200, 'zero values': 50, 'extra columns': 20,
           'edited schedules': 20, 'header-only tables': 20}

OK_PROBLEMS = ('UnrecognizedColumn',)


def serious(rec):
  return rec.without(*OK_PROBLEMS)


def edit(ctx, rng, s, m):
  """Change some attributes of added objects, in schedule and model alike."""
  for _ in range(rng.randint(1, 4)):
    t = rng.pick(['stops', 'routes', 'trips', 'agency'])
    if not m.table(t):
      continue
    r = rng.pick(m.table(t))
    if t == 'stops':
      o, cols = s.GetStop(r['stop_id']), ['stop_desc', 'stop_code', 'x_new', 'platform_code']
    elif t == 'routes':
      o, cols = s.GetRoute(r['route_id']), ['route_desc', 'x_new', 'route_sort_order']
    elif t == 'trips':
      o, cols = s.GetTrip(r['trip_id']), ['trip_short_name', 'x_new', 'trip_headsign']
    else:
      o = [a for a in s.GetAgencyList() if (a.agency_id or u'') == r.get('agency_id', u'')][0]
      cols = ['agency_phone', 'x_new']
    c = rng.pick(cols)
    v = rng.pick([u'0', u'Edited "%d", ü' % rng.randint(0, 99), u'x,y'])
    setattr(o, c, v)
    r[c] = v
  ctx.count('edited schedules')


def write(s, path, rng):
  if rng.chance(0.3):
    out = StringIO()
    s.WriteGoogleTransitFeed(out)
    f = open(path, 'wb')
    f.write(out.getvalue())
    f.close()
  else:
    s.WriteGoogleTransitFeed(path)


def model_of_written(path):
  """What the written bytes say, read by the harness' own CSV reader."""
  f = feedgen.Feed()
  contents = render.read_zip(path)
  for name, data in sorted(contents.items()):
    try:
      data.decode('utf-8')
    except UnicodeError as e:
      raise core.Violation(u'written %s is not UTF-8 (%s): %r' % (name, e, data[:300]))
  for t, (cols, rows) in render.read_feed(contents).items():
    f.cols[t] = cols
    f.rows[t] = rows
  try:
    return canon.of_feed(f)
  except (ValueError, KeyError, TypeError) as e:
    raise core.Violation(u'the written file can not be read: %r' % e)


def run_case(ctx, rng, i):
  d = ctx.tmpdir()
  try:
    _run(ctx, rng, d)
  finally:
    shutil.rmtree(d, ignore_errors=True)


def _run(ctx, rng, d):
  m = feedgen.generate(rng, extra=0.4)
  api = rng.chance(0.35)
  if not api and rng.chance(0.3):
    t = rng.pick(['transfers', 'feed_info', 'frequencies', 'fare_rules', 'fare_attributes',
                  'shapes', 'calendar_dates'])
    if not m.table(t):
      m.rows[t] = []
      m.cols[t] = list(feedgen.COLUMNS[t])
      ctx.count('header-only tables')
  rec, rep = recorder.new()
  if api:
    s = build.schedule(m, rng, rep, memory_db=rng.chance(0.7))
    m = build.renumbered(m)
    ctx.count('schedules built through the API')
  else:
    p = render.write_zip(render.files(m), os.path.join(d, 'in.zip'))
    s, _ = recorder.load(p, rec, memory_db=rng.chance(0.7))
    ctx.count('schedules written from loaded feeds')
  if rng.chance(0.2):
    edit(ctx, rng, s, m)
  s.Validate(rep)
  if serious(rec):
    ctx.count('skipped: source schedule has problems')
    ctx.skipped = rec.entries
    return
  want = canon.of_feed(m)
  out1 = os.path.join(d, 'out1.zip')
  write(s, out1, rng)
  del s
  # what is in the file, by an independent reader
  for line in canon.diff(model_of_written(out1), want):
    ctx.fail(u'written file differs from the schedule: ' + line)
  # what comes back
  s2, rec2 = recorder.load(out1, extra_validation=True)
  for e in serious(rec2)[:3]:
    ctx.fail(u'new problem after writing and loading: %r' % e)
  got = canon.of_schedule(s2)
  for line in canon.diff(got, want):
    ctx.fail(u'reloaded schedule differs: ' + line)
  ctx.count('reloads compared')
  # writing again changes nothing more
  out2 = os.path.join(d, 'out2.zip')
  write(s2, out2, rng)
  del s2
  for line in canon.diff(model_of_written(out2),
                         model_of_written(out1)):
    ctx.fail(u'second writing differs from the first: ' + line)
  zeros = sum(1 for t in m.rows for r in m.rows[t] for v in r.values() if v in (u'0', u'0.000', u'0.00'))
  if zeros:
    ctx.count('zero values', zeros)
  for t in m.rows:
    ctx.count('rows of ' + t, len(m.rows[t]))
    if any(c not in feedgen.COLUMNS[t] for r in m.rows[t] for c in r):
      ctx.count('extra columns')
  ctx.seen(want)
  ctx.sample({'case': ctx.case, 'rows': dict((t, len(m.rows[t])) for t in m.rows)})
