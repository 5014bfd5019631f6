# -*- coding: utf-8 -*-
"""C18: merging with a cutoff date splits service exactly at the cutoff."""
import datetime
import os
import shutil

from harness import feedgen, merges, recorder
from harness.core import u
from harness.service import Model, ymd

CASES = {'quick': 200, 'thorough': 12000}
RULE = ('a case is one pair of feeds, checked for disjoint calendars and merged at a cutoff date, '
        'with the trips running on every date of both compared; distinct by calendars and cutoff')
MINIMUM = {'dates compared': 170000, 'disjoint pairs': 20, 'overlapping pairs': 65,
           'pairs merged at a cutoff': 85, 'pairs with errors in the edited feed': 1,
           'services cut: new': 81, 'services cut: old': 76, 'services dates only': 170,
           'services kept whole: new': 78, 'services kept whole: old': 49,
           'services removed: new': 48, 'services removed: old': 79, 'services with a range': 230,
           'trip dates before the cutoff': 16000, 'trip dates from the cutoff on': 19000,
           'trips next to the cutoff': 120}
ASSUMPTIONS = ['trips that never run any more stay in the merged feed']
ONE = datetime.timedelta(days=1)


def day(text):
  return datetime.datetime.strptime(text, '%Y%m%d').date()


def calendars(f):
  out = dict((s, Model()) for s in merges.ids(f, 'service'))
  for r in f.table('calendar'):
    m = out[r['service_id']]
    m.start, m.end = day(r['start_date']), day(r['end_date'])
    m.days = [r[d] == u'1' for d in feedgen.DAYS]
  for r in f.table('calendar_dates'):
    out[r['service_id']].exc[day(r['date'])] = r['exception_type'] == u'1'
  return out


def overlap(a, b):
  for x in a.values():
    for y in b.values():
      p, q = x.range(), y.range()
      if p[0] is None or q[0] is None:
        continue
      if max(p[0], q[0]) <= min(p[1], q[1]):
        return True
  return False


def change_calendars(rng, f):
  """Services of unusual forms: short ones, ones that only take dates away, ..."""
  for s in merges.ids(f, 'service'):
    p = rng.random()
    cal = [r for r in f.table('calendar') if r['service_id'] == s]
    if p < 0.15 and cal:
      d = rng.pick([cal[0]['start_date'], cal[0]['end_date']])
      cal[0]['start_date'] = cal[0]['end_date'] = d
    elif p < 0.3:
      have = [r['date'] for r in f.table('calendar_dates') if r['service_id'] == s]
      for _ in range(rng.randint(1, 3)):
        d = feedgen.ymd(day(rng.pick(merges.dates_of(f))) + ONE * rng.randint(-40, 40))
        if d not in have:
          have.append(d)
          f.add('calendar_dates', service_id=s, date=d, exception_type=rng.pick([u'1', u'2']))
    elif p < 0.4:
      for r in f.table('calendar_dates'):
        if r['service_id'] == s and rng.chance(0.7) and cal:
          r['exception_type'] = u'2'
  f.cols['calendar_dates'] = list(feedgen.COLUMNS['calendar_dates'])


def running(f, cal, d):
  return sorted(r['vtag'] for r in f.table('trips') if cal[r['service_id']].active(d))


def run_case(ctx, rng, i):
  d = ctx.tmpdir()
  try:
    limits = (10.0, 10.0)
    a, b, how = merges.pair(rng, limits)
    for f in (a, b):
      if rng.chance(0.7):
        change_calendars(rng, f)
    how2 = rng.pick(['same time', 'later', 'earlier', 'next', 'overlap one day'])
    A, B = sorted(merges.dates_of(a)), sorted(merges.dates_of(b))
    gap = (day(A[-1]) - day(B[0])).days
    back = (day(A[0]) - day(B[-1])).days
    if how2 == 'later':
      merges.shift(b, rng.randint(1, 300))
    elif how2 == 'earlier':
      merges.shift(b, -rng.randint(1, 300))
    elif how2 == 'next':
      merges.shift(b, rng.pick([gap + 1, gap + 1, back - 1]))
    elif how2 == 'overlap one day':
      merges.shift(b, rng.pick([gap, back]))
    merges.finish_pair(rng, a, b)
    model = merges.Model(a, b, limits)
    if model.doubtful:
      return
    # disjointness, without a cutoff
    sa, ea = merges.load(a, os.path.join(d, 'a.zip'), rng)
    sb, eb = merges.load(b, os.path.join(d, 'b.zip'), rng)
    if ea or eb:
      ctx.count('pairs with errors in the edited feed')
      return
    what = u'case %d (%s, %s)' % (i, how, how2)
    ca, cb = calendars(a), calendars(b)
    disjoint = not overlap(ca, cb)
    run = merges.Run(sa, sb, limits, True)
    ctx.count('disjoint pairs' if disjoint else 'overlapping pairs')
    ctx.equal(bool(run.periods.CheckDisjointCalendars()), disjoint, what + u': calendars are disjoint')
    ctx.equal(bool(run.result), disjoint, what + u': merging is done')
    n = len(run.rec.of('CalendarsNotDisjoint'))
    ctx.equal(n, 0 if disjoint else 1, what + u': reports of calendars that are not disjoint')
    for e in run.rec.of('CalendarsNotDisjoint'):
      ctx.equal(e.type, recorder.ERROR, what + u': severity')
    # with a cutoff
    sa, _ = merges.load(a, os.path.join(d, 'a.zip'), rng)
    sb, _ = merges.load(b, os.path.join(d, 'b.zip'), rng)
    dates = [day(x) for x in merges.dates_of(a) + merges.dates_of(b)]
    lo, hi = min(dates), max(dates)
    p = rng.random()
    if p < 0.45:
      cutoff = rng.pick(dates) + ONE * rng.pick([-1, 0, 0, 1, 1])
    elif p < 0.9:
      cutoff = lo + ONE * rng.randint(0, (hi - lo).days)
      if rng.chance(0.3):
        cutoff = cutoff.replace(day=1)
      if rng.chance(0.1):
        cutoff = cutoff.replace(month=rng.pick([1, 3]), day=1)
    else:
      cutoff = rng.pick([lo - ONE * 30, hi + ONE * 30])
    form = rng.pick([str, unicode])
    run = merges.Run(sa, sb, limits, rng.chance(0.7), form(ymd(cutoff)))
    what += u' cutoff %s' % ymd(cutoff)
    if not run.result:
      ctx.fail(u'%s: merging is refused: %r' % (what, run.rec.of('CalendarsNotDisjoint')))
      return
    ctx.equal(bool(run.periods.CheckDisjointCalendars()), True, what + u': disjoint after the cutoff')
    out = os.path.join(d, 'out.zip')
    run.merged.WriteGoogleTransitFeed(out)
    merged = merges.written(out)
    cm = calendars(merged)
    missing = sorted(set(r['service_id'] for r in merged.table('trips')) - set(cm))
    if missing:
      ctx.fail(u'%s: services of trips are not in the merged feed: %r' % (what, missing))
      return
    by_tag = dict((t.vtag, t) for t in run.merged.GetTripList())
    x = lo - ONE * 35
    while x <= hi + ONE * 35:
      src, cal = (a, ca) if x < cutoff else (b, cb)
      want = running(src, cal, x)
      got = running(merged, cm, x)
      if got != want:
        ctx.fail(u'%s: on %s run %r, expected %r' % (what, x, got, want))
        break
      text = ymd(x)
      mem = sorted(g for g, t in by_tag.items() if t.service_period.IsActiveOn(text))
      if mem != want:
        ctx.fail(u'%s: on %s the merged schedule runs %r, expected %r' % (what, x, mem, want))
        break
      ctx.count('dates compared')
      ctx.count('trip dates before the cutoff' if x < cutoff else 'trip dates from the cutoff on', len(want))
      if x in (cutoff, cutoff - ONE) and want:
        ctx.count('trips next to the cutoff', len(want))
      x += ONE
    per_day = dict((k, n) for k, n in
                   ((k, len(v)) for k, v in run.merged.GetServicePeriodsActiveEachDate(
                       cutoff - ONE * 3, cutoff + ONE * 4)))
    for k, n in sorted(per_day.items()):
      src = ca if k < cutoff else cb
      ctx.equal(n, len([m for m in src.values() if m.active(k)]), u'%s: services on %s' % (what, k))
    back, rec = recorder.load(out)
    bad = [e for e in rec.entries if e.type == recorder.ERROR and e.column_name != 'agency_timezone' and
           e.cls in ('InvalidValue', 'DuplicateID', 'MissingValue')]
    if bad:
      ctx.fail(u'%s: the merged feed does not load without errors: %r' % (what, bad[:4]))
    for c, letter in ((ca, 'old'), (cb, 'new')):
      for m in c.values():
        r = m.range()
        if r[0] is None:
          ctx.count('services without any date')
          continue
        ctx.count('services dates only' if m.start is None else 'services with a range')
        if r[0] < cutoff <= r[1]:
          ctx.count('services cut: ' + letter)
        elif (r[1] < cutoff) == (letter == 'old'):
          ctx.count('services kept whole: ' + letter)
        else:
          ctx.count('services removed: ' + letter)
    ctx.count('pairs merged at a cutoff')
    ctx.seen([i, sorted(repr(m.key()) for m in ca.values()), sorted(repr(m.key()) for m in cb.values()), cutoff])
    ctx.sample({'case': i, 'how': how, 'cutoff': ymd(cutoff)})
  finally:
    shutil.rmtree(d, ignore_errors=True)
