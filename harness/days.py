# -*- coding: utf-8 -*-
"""Schedules whose service on every day is known from a model that shares no code with the library."""
import datetime
import os

import transitfeed

from harness import feedgen, recorder
from harness.service import ONE, Model, ymd


def random_service(rng, today):
  m = Model()
  kind = rng.random()
  if kind < 0.85:
    m.start = today + datetime.timedelta(days=rng.pick([-400, -100, -30, -12, -1, 0, 1, 20,
                                                        rng.randint(-200, 100)]))
    length = rng.pick([0, 1, 13, 30, 59, 60, 61, 180, 181, 182, 183, 365, 400, 500,
                       rng.randint(0, 300)])
    m.end = m.start + datetime.timedelta(days=length)
    if rng.chance(0.3):
      m.end = today + datetime.timedelta(days=rng.pick([58, 59, 60, 61, 364, 365, 366]))
      if m.end < m.start:
        m.start = m.end - datetime.timedelta(days=rng.randint(0, 50))
    m.days = [rng.chance(0.8) for _ in range(7)]
    if rng.chance(0.3):
      m.days = [False] * 7
      m.days[rng.randint(0, 6)] = True
  if kind > 0.5:
    for _ in range(rng.randint(0, 6)):
      m.exc[today + datetime.timedelta(days=rng.randint(-60, 120))] = rng.chance(0.5)
    if m.start is not None and rng.chance(0.4):
      # a pause of the service
      d = m.start + datetime.timedelta(days=rng.randint(0, max(0, (m.end - m.start).days)))
      for k in range(rng.randint(1, 30)):
        m.exc[d + k * ONE] = False
  return m


class Trip(object):
  def __init__(self, tid, sid, stops, periods):
    self.tid, self.sid, self.stops, self.periods = tid, sid, stops, periods

  def runs(self):
    if not self.periods:
      return 1
    n = 0
    for s, e, h in self.periods:
      t = s
      while t < e:
        n += 1
        t += h
    return n

  def departures(self):
    return max(0, self.stops - 1) * self.runs()


def recount(models, trips, d):
  running = [t for t in trips if models[t.sid].active(d)]
  return sum(t.runs() for t in running), sum(t.departures() for t in running)


def effective_range(models, info):
  lo = [r for r in (m.range() for m in models.values()) if r[0] is not None]
  if not lo:
    return None
  start, end = min(r[0] for r in lo), max(r[1] for r in lo)
  origins = [set(), set()]
  for m in models.values():
    for j, day in enumerate((start, end)):
      if m.range()[j] == day:
        origins[j].add('calendar_dates.txt' if m.exc.get(day) else 'calendar.txt')
  if info.get('start'):
    start, origins[0] = info['start'], set(['feed_info.txt'])
  if info.get('end'):
    end, origins[1] = info['end'], set(['feed_info.txt'])
  return start, end, origins


def make(ctx, rng, today, rep, loaded, name):
  """A random schedule: (schedule, {service id: Model}, trips, feed info); None if loading loses
  services."""
  ids = feedgen.Ids(rng, u'S')
  models = {}
  for _ in range(rng.pick([0, 1, 1, 2, 3, 5])):
    models[ids.new()] = random_service(rng, today)
  tids = feedgen.Ids(rng, u'T')
  trips = []
  for _ in range(rng.randint(0, 12) if models else 0):
    periods = []
    if rng.chance(0.3):
      t = rng.randint(0, 80000)
      for _ in range(rng.randint(1, 3)):
        h = rng.randint(1, 4000)
        n = h * rng.randint(1, 8) + rng.pick([0, 0, 1, -1])
        if n > 0:
          periods.append((t, t + n, h))
          t += n + rng.pick([0, 100])
    n = rng.pick([2, 3, 5, 9, 1, 0])
    if n == 0 and rng.chance(0.5):
      periods = []
    trips.append(Trip(tids.new(), rng.pick(sorted(models)), n, periods))
    ctx.count('trips with frequencies', bool(periods))
    ctx.count('trips without stop times', n == 0)
  info = {}
  if rng.chance(0.35):
    info['is'] = True
    if rng.chance(0.7):
      info['start'] = today + datetime.timedelta(days=rng.pick([-200, -20, -1, 0, 1, 30]))
    if rng.chance(0.7):
      info['end'] = (info.get('start') or today) + datetime.timedelta(
          days=rng.pick([0, 10, 60, 61, 59, 90, 182, 183, 400]))
    if info.get('start') or info.get('end'):
      ctx.count('feed info overriding dates')
  # the schedule
  s = transitfeed.Schedule(rep)
  s.AddAgency(u'Agency', u'http://example.com', u'America/Los_Angeles')
  stops = [s.AddStop(lat=47.0 + k * 0.01, lng=8.0, name=u'Stop %d' % k) for k in range(9)]
  route = s.AddRoute(short_name=u'1', long_name=u'Eins', route_type=3)
  for sid in rng.shuffled(sorted(models)):
    m = models[sid]
    p = transitfeed.ServicePeriod(sid)
    if m.start is not None:
      p.SetStartDate(ymd(m.start))
      p.SetEndDate(ymd(m.end))
    for dow in range(7):
      p.SetDayOfWeekHasService(dow, m.days[dow])
    for d in rng.shuffled(sorted(m.exc)):
      p.SetDateHasService(ymd(d), m.exc[d])
    s.AddServicePeriodObject(p, validate=False)
  for t in trips:
    o = transitfeed.Trip()
    o.trip_id, o.route_id, o.service_id = t.tid, route.route_id, t.sid
    s.AddTripObject(o)
    for k in range(t.stops):
      secs = 30000 + 600 * k
      o.AddStopTime(stops[k], arrival_secs=secs, departure_secs=secs)
    for a, b, h in t.periods:
      o.AddFrequency(a, b, h)
  if info:
    fi = {'feed_publisher_name': u'P', 'feed_publisher_url': u'http://example.com', 'feed_lang': u'en'}
    if info.get('start'):
      fi['feed_start_date'] = ymd(info['start'])
    if info.get('end'):
      fi['feed_end_date'] = ymd(info['end'])
    s.AddFeedInfoObject(transitfeed.FeedInfo(field_dict=fi))
  loaded = loaded and models
  if loaded:
    path = os.path.join(os.getcwd(), name)
    s.WriteGoogleTransitFeed(path)
    s, _ = recorder.load(path, extra_validation=False)
    os.remove(path)
    ctx.count('feeds loaded')
    # services that define no date at all do not appear in any file
    models = dict((k, m) for k, m in models.items() if m.start is not None or m.exc)
    trips = [t for t in trips if t.sid in models]
    if sorted(s.service_periods) != sorted(models):
      ctx.fail(u'services after loading: %r' % sorted(s.service_periods))
      return None
  return s, models, trips, info
