# -*- coding: utf-8 -*-
"""C08: service calendars answer date queries as GTFS defines."""
import datetime
import os

import transitfeed

from harness import feedgen, recorder, render
from harness.service import ONE, Model, ymd

CASES = {'quick': 1400, 'thorough': 60000}
RULE = ('a case is a schedule of 1-5 services, edited through the API by a random sequence of calls '
        'or loaded from a feed, queried for every date of a window around its dates; distinct by '
        'the resulting calendars')
MINIMUM = {'dates queried': 200000, 'active answers': 30000, 'inactive answers': 60000,
           'edits': 8000, 'added exceptions': 1500, 'removed exceptions': 1500,
           'exceptions reset': 150, 'services loaded from feeds': 200,
           'exceptions overriding an exception': 200, 'day listings compared': 5000,
           'services without dates': 40, 'equality comparisons': 1000}

def random_date(rng, base):
  return base + datetime.timedelta(days=rng.randint(0, rng.pick([3, 20, 70])))


def edit(ctx, rng, p, m, base):
  op = rng.randint(0, 9)
  ctx.count('edits')
  form = rng.pick([unicode, str])
  if op == 0:
    d = random_date(rng, base)
    p.SetStartDate(form(ymd(d)))
    m.start = d
  elif op == 1:
    d = random_date(rng, base) + datetime.timedelta(days=rng.randint(0, 60))
    p.SetEndDate(form(ymd(d)))
    m.end = d
  elif op == 2:
    dow, on = rng.randint(0, 6), rng.chance(0.6)
    if on and rng.chance(0.5):
      p.SetDayOfWeekHasService(dow)
    else:
      p.SetDayOfWeekHasService(dow, on)
    m.days[dow] = on
  elif op == 3:
    on = rng.chance(0.6)
    p.SetWeekdayService(on)
    m.days[:5] = [on] * 5
  elif op == 4:
    on = rng.chance(0.6)
    p.SetWeekendService(on)
    m.days[5:] = [on] * 2
  elif op in (5, 6, 7):
    d, on = random_date(rng, base), rng.chance(0.5)
    if rng.chance(0.3) and m.exc:
      d = rng.pick(sorted(m.exc))
    if d in m.exc:
      ctx.count('exceptions overriding an exception')
    if on and rng.chance(0.5):
      p.SetDateHasService(form(ymd(d)))
    else:
      p.SetDateHasService(form(ymd(d)), on)
    m.exc[d] = on
    ctx.count('added exceptions' if on else 'removed exceptions')
  else:
    d = rng.pick(sorted(m.exc)) if m.exc and rng.chance(0.7) else random_date(rng, base)
    if d in m.exc:
      ctx.count('exceptions reset')
    p.ResetDateToNormalService(form(ymd(d)))
    m.exc.pop(d, None)


def query(ctx, rng, p, m, name, lo, hi):
  d = lo
  while d <= hi:
    text = ymd(d)
    got = p.IsActiveOn(text, d) if rng.chance(0.5) else p.IsActiveOn(text)
    want = m.active(d)
    ctx.count('dates queried')
    ctx.count('active answers' if want else 'inactive answers')
    if bool(got) != want:
      ctx.fail(u'service %s on %s: active %r, expected %r (%r)' % (name, text, got, want, m.key()))
      break
    if (p.HasDateExceptionOn(text) != (m.exc.get(d) is True) or
        p.HasDateExceptionOn(text, 2) != (m.exc.get(d) is False)):
      ctx.fail(u'service %s on %s: wrong answer about exceptions (%r)' % (name, text, m.key()))
      break
    d += ONE
  r = m.range()
  if r != 'half open':
    ctx.equal(p.ActiveDates(), [ymd(x) for x in m.dates()],
              u'active dates of %s %r' % (name, m.key()))
    if r != 'reversed':
      ctx.equal(tuple(p.GetDateRange()),
                (None, None) if r[0] is None else (ymd(r[0]), ymd(r[1])),
                u'date range of %s %r' % (name, m.key()))
      if r[0] is None:
        ctx.count('services without dates')
  ctx.equal(bool(p.HasExceptions()), bool(m.exc), u'HasExceptions of %s' % name)
  for dow, day in enumerate(feedgen.DAYS):
    ctx.equal((p[day], getattr(p, day)), (int(m.days[dow]),) * 2, u'%s of %s' % (day, name))


def run_case(ctx, rng, i):
  base = datetime.date(rng.pick([1999, 2004, 2019, 2020, 2024, 2099]), rng.pick([1, 2, 2, 6, 12]),
                       rng.randint(1, 28))
  rec, rep = recorder.new()
  models = {}
  if i % 7 == 0:
    f = feedgen.generate(rng, services=(1, 5), stops=(2, 3), trips=(1, 2), routes=(1, 1))
    path = os.path.join(os.getcwd(), 'f%d.zip' % i)
    render.write_zip(render.files(f, render.random_style(rng)), path)
    s, rec = recorder.load(path)
    os.remove(path)
    for r in f.table('calendar'):
      m = models.setdefault(r['service_id'], Model())
      m.start = datetime.datetime.strptime(r['start_date'], '%Y%m%d').date()
      m.end = datetime.datetime.strptime(r['end_date'], '%Y%m%d').date()
      m.days = [r[d] == u'1' for d in feedgen.DAYS]
    for r in f.table('calendar_dates'):
      m = models.setdefault(r['service_id'], Model())
      m.exc[datetime.datetime.strptime(r['date'], '%Y%m%d').date()] = r['exception_type'] == u'1'
    ctx.count('services loaded from feeds', len(models))
    base = datetime.date.today()
    later = rng.chance(0.5)
  else:
    s = transitfeed.Schedule(rep)
    for k in range(rng.randint(1, 5)):
      sid = rng.pick([u'S%d', u'É%d', u'%d', u'wk %d']) % k
      p = transitfeed.ServicePeriod(sid) if rng.chance(0.5) else transitfeed.ServicePeriod()
      p.SetServiceId(sid)
      m = models[sid] = Model()
      if rng.chance(0.7):
        m.start = base + datetime.timedelta(days=rng.randint(-3, 10))
        m.end = m.start + datetime.timedelta(days=rng.randint(0, 60))
        p.SetStartDate(ymd(m.start))
        p.SetEndDate(ymd(m.end))
        for dow in range(7):
          m.days[dow] = rng.chance(0.6)
          p.SetDayOfWeekHasService(dow, m.days[dow])
      s.AddServicePeriodObject(p, validate=False)
    later = True
  if later:
    for k in range(rng.randint(0, 25)):
      sid = rng.pick(sorted(models))
      edit(ctx, rng, s.GetServicePeriod(sid), models[sid], base)
      if rng.chance(0.05):
        # a look in between must not change anything
        s.GetServicePeriod(sid).ActiveDates() if models[sid].range() != 'half open' else None
  lo, hi = base - 5 * ONE, base + 45 * ONE
  ctx.equal(sorted(p.service_id for p in s.GetServicePeriodList()), sorted(models),
            u'services of the schedule')
  for sid in sorted(models):
    query(ctx, rng, s.GetServicePeriod(sid), models[sid], sid, lo, hi)
  # the listing of active services over an interval
  a = lo + datetime.timedelta(days=rng.randint(0, 30))
  b = a + datetime.timedelta(days=rng.pick([-1, 0, 1, 2, rng.randint(0, 60)]))
  got = [(d, sorted(p.service_id for p in ps))
         for d, ps in s.GetServicePeriodsActiveEachDate(a, b)]
  want = []
  d = a
  while d < b:
    want.append((d, sorted(sid for sid in models if models[sid].active(d))))
    d += ONE
  ctx.equal(got, want, u'active services from %s to %s' % (a, b))
  ctx.count('day listings compared', len(want))
  # the range of the whole schedule
  ranges = [m.range() for m in models.values()]
  if not any(isinstance(r, str) for r in ranges) and s.feed_info is None:
    ends = [r for r in ranges if r[0] is not None]
    want = (None, None)
    if ends:
      want = (ymd(min(r[0] for r in ends)), ymd(max(r[1] for r in ends)))
    ctx.equal(tuple(s.GetDateRange()), want, u'date range of the schedule %r' % (
        sorted((k, m.key()) for k, m in models.items()),))
    if ends:
      _, _, o1, o2 = s.GetDateRangeWithOrigins()
      for origin, j, words in ((o1, 0, 'earliest'), (o2, 1, 'last')):
        day = (min if j == 0 else max)(r[j] for r in ends)
        ok = set()
        for m in models.values():
          r = m.range()
          if r[j] == day:
            ok.add('calendar_dates.txt' if m.exc.get(day) else 'calendar.txt')
        name = origin.split()[-1]
        if name not in ok or words not in origin:
          ctx.fail(u'the %s date %s is said to come from %r, expected %r' % (
              words, day, origin, sorted(ok)))
  # equality: same calendar and exceptions, whatever the edits that led there
  items = sorted(models.items())
  for k in range(len(items)):
    sid, m = items[k]
    if m.start is None or m.end is None:
      continue
    q = transitfeed.ServicePeriod(sid)
    q.SetStartDate(ymd(m.start))
    q.SetEndDate(ymd(m.end))
    for dow in range(7):
      q.SetDayOfWeekHasService(dow, m.days[dow])
    for d in rng.shuffled(sorted(m.exc)):
      q.SetDateHasService(ymd(d), m.exc[d])
    p = s.GetServicePeriod(sid)
    if not (p == q) or p != q:
      ctx.fail(u'equal calendars compare unequal: %s %r' % (sid, m.key()))
    day = lo + datetime.timedelta(days=rng.randint(0, 40))
    if day in m.exc:
      q.SetDateHasService(ymd(day), not m.exc[day])
    else:
      q.SetDateHasService(ymd(day), rng.chance(0.5))
    if p == q or not (p != q):
      ctx.fail(u'different calendars compare equal: %s %r' % (sid, m.key()))
    ctx.count('equality comparisons', 2)
  ctx.seen(sorted((k, m.key()) for k, m in models.items()))
  ctx.sample({'case': i, 'services': dict((k, repr(m.key())) for k, m in items[:2])})
