# -*- coding: utf-8 -*-
"""C09: daily service counts, gaps and expiry warnings match the timetable."""
import datetime

import transitfeed

from harness import recorder
from harness.days import effective_range, make, recount
from harness.service import ONE

CASES = {'quick': 1100, 'thorough': 40000}
RULE = ('a case is a schedule of 0-5 services and 0-12 trips, built through the API or loaded, '
        'validated on an assumed day with a random gap length; every day of a window is compared with '
        'a per-day recount; distinct by the calendars, trips, day and gap length')
MINIMUM = {'days recounted': 32000, 'days with service': 9000, 'days without service': 23000,
           'gaps reported': 3600, 'gaps just too short': 1300, 'gaps of exactly the length': 2600,
           'expiry warnings': 82, 'expiry: exactly 60 days left': 1, 'future start warnings': 67,
           'start today': 31, 'no service warnings': 100, 'missing exceptions warnings': 60,
           'feed info overriding dates': 160, 'trips with frequencies': 700,
           'trips without stop times': 390, 'feeds loaded': 65, 'long ranges with exceptions': 170}

DATES = ('TooManyDaysWithoutService', 'ExpirationDate', 'FutureService', 'NoServiceExceptions')
EXPIRY_DAYS = 60
HALF_YEAR = 182


def day_of(secs):
  return datetime.date.fromtimestamp(secs)


def iso(d):
  return d if isinstance(d, datetime.date) else datetime.datetime.strptime(str(d), '%Y%m%d').date()


def expected_gaps(models, trips, start, end, today, interval):
  lo = max(start, today - (interval - 1) * ONE)
  hi = min(end, today + 365 * ONE)
  gaps, run = [], []
  d = lo
  while d < hi:
    if recount(models, trips, d)[0] == 0:
      run.append(d)
    else:
      gaps.append(run)
      run = []
    d += ONE
  gaps.append(run)
  return [g for g in gaps if g]


def run_case(ctx, rng, i):
  rec, rep = recorder.new()
  # validation of a loaded feed may look at the real day too
  today = datetime.date.today() if rng.chance(0.4) else datetime.date(
      rng.pick([2005, 2019, 2020, 2023, 2024]), rng.pick([1, 2, 2, 3, 10, 12]), rng.randint(1, 28))
  made = make(ctx, rng, today, rep, i % 6 == 0, 'w%d.zip' % i)
  if made is None:
    return
  s, models, trips, info = made
  # per-day counts
  a = today + datetime.timedelta(days=rng.randint(-80, 20))
  b = a + datetime.timedelta(days=rng.pick([0, 1, 2, 90, 90, 200]))
  want = []
  d = a
  while d < b:
    want.append((d,) + recount(models, trips, d))
    d += ONE
  got = s.GenerateDateTripsDeparturesList(a, b)
  ctx.count('days recounted', len(want))
  ctx.count('days with service', sum(1 for w in want if w[1]))
  ctx.count('days without service', sum(1 for w in want if not w[1]))
  if [tuple(x) for x in got] != want:
    bad = [(x, y) for x, y in zip(got, want) if tuple(x) != y][:3]
    ctx.fail(u'trips and departures from %s to %s (%d days): got/expected %r' % (a, b, len(got), bad))
  # warnings
  rng_ = effective_range(models, info)
  interval = rng.pick([None, 1, 2, 7, 13, 13, 20, rng.randint(1, 40)])
  if rng_ and rng.chance(0.5):
    # aim at the length of a gap that exists
    gs = expected_gaps(models, trips, rng_[0], rng_[1], today, interval or 13)
    if gs:
      interval = max(1, len(rng.pick(gs)) + rng.pick([-1, 0, 0, 1]))
  rec.take()
  out, out_rep = recorder.new()
  if rng.chance(0.5):
    s.Validate(out_rep, validate_children=rng.chance(0.5), today=today, service_gap_interval=interval)
  else:
    s.ValidateServiceRangeAndExceptions(out_rep, today, interval)
  got = out.of(*DATES)
  none = [e for e in out.of('OtherProblem') if 'service dates' in e.text()]
  want_text = []
  if rng_ is None:
    ctx.count('no service warnings')
    if len(none) != 1 or none[0].type != recorder.WARNING:
      ctx.fail(u'a schedule without service dates is reported as %r' % none)
    ctx.equal([repr(e) for e in got], [], u'date warnings of a schedule without service dates')
  else:
    start, end, origins = rng_
    ctx.equal([repr(e) for e in none], [], u'reports of no service in %s..%s' % (start, end))
    ids_of = lambda cls: [e for e in got if e.cls == cls]
    # gaps
    want = []
    if interval is not None:
      gaps = expected_gaps(models, trips, start, end, today, interval)
      want = [(g[0], g[-1], len(g)) for g in gaps if len(g) >= interval]
      ctx.count('gaps just too short', sum(1 for g in gaps if len(g) == interval - 1))
      ctx.count('gaps of exactly the length', sum(1 for g in gaps if len(g) == interval))
    rep_gaps = [(iso(e.get('first_day_without_service')), iso(e.get('last_day_without_service')),
                 e.get('consecutive_days_without_service')) for e in ids_of('TooManyDaysWithoutService')]
    ctx.count('gaps reported', len(rep_gaps))
    ctx.equal(rep_gaps, want, u'gaps of at least %s days in %s..%s seen on %s' % (
        interval, start, end, today))
    # expiry
    e = ids_of('ExpirationDate')
    left = (end - today).days
    ctx.count('expiry: exactly 60 days left', left == EXPIRY_DAYS)
    if left < EXPIRY_DAYS:
      ctx.count('expiry warnings')
      if len(e) != 1 or day_of(e[0].get('expiration')) != end or (
          e[0].get('expiration_origin_file').split()[-1] not in origins[1]):
        ctx.fail(u'expiry on %s (%s), today %s: reported %r' % (end, sorted(origins[1]), today, e))
    else:
      ctx.equal(len(e), 0, u'expiry warnings %d days before the end' % left)
    # future start
    e = ids_of('FutureService')
    ctx.count('start today', start == today)
    if start > today:
      ctx.count('future start warnings')
      if len(e) != 1 or day_of(e[0].get('start_date')) != start or (
          e[0].get('start_date_origin_file').split()[-1] not in origins[0]):
        ctx.fail(u'start on %s (%s), today %s: reported %r' % (start, sorted(origins[0]), today, e))
    else:
      ctx.equal(len(e), 0, u'future start warnings for start %s on %s' % (start, today))
    # no exceptions
    e = ids_of('NoServiceExceptions')
    has = any(m.exc for m in models.values())
    if (end - start).days >= HALF_YEAR and not has:
      ctx.count('missing exceptions warnings')
      if len(e) != 1 or (iso(e[0].get('start')), iso(e[0].get('end'))) != (start, end):
        ctx.fail(u'no exceptions in %s..%s: reported %r' % (start, end, e))
    else:
      ctx.count('long ranges with exceptions', has and (end - start).days >= HALF_YEAR)
      ctx.equal(len(e), 0, u'no-exceptions warnings for %s..%s, exceptions %s' % (start, end, has))
    for e in got:
      ctx.check(e.type == recorder.WARNING, u'%s is not a warning', e)
      ctx.check(e.text(), u'%s has no text', e)
  ctx.seen((today, interval, sorted((k, m.key()) for k, m in models.items()),
            sorted((t.sid, t.stops, tuple(t.periods)) for t in trips), sorted(info.items())))
  ctx.sample({'case': i, 'today': str(today), 'gap': interval, 'services': len(models),
              'trips': len(trips), 'warnings': [e.text() for e in got][:4]})
