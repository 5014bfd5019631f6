# -*- coding: utf-8 -*-
"""C11: interpolated stop times are exact at timepoints and follow distance."""
import os

import transitfeed

from harness import feedgen, geo, recorder, render

CASES = {'quick': 1100, 'thorough': 40000}
RULE = ('a case is a schedule of 1-6 trips over stops of which some lie at the same place, with a '
        'random subset of stops timed, built or loaded; every interpolated time is compared with the '
        'proportion of an independently computed distance; distinct by the stop times')
MINIMUM = {'trips interpolated': 1500, 'feeds loaded': 120,
           'interpolated at the place of the stop before': 730, 'interpolated by distance': 2000,
           'interpolated stops': 2300, 'stops visited twice by a trip': 1000, 'timed stops': 4700,
           'trips refused': 160, 'visits of stops compared': 5600}


class ST(object):
  def __init__(self, stop, arr, dep):
    self.stop, self.arr, self.dep = stop, arr, dep

  def time(self):
    return self.arr if self.arr is not None else self.dep

  def key(self):
    return (self.stop, self.arr, self.dep)


def make(rng, stops):
  n = rng.pick([0, 1, 2, 3, 5, 8, 14])
  t = rng.pick([0, 0, 30, 86395, 90000, rng.randint(0, 100000)])
  out = []
  x = rng.randint(0, len(stops) - 1)
  p = rng.random()
  for k in range(n):
    wait = rng.pick([0, 0, 0, 1, 60])
    if k in (0, n - 1) or rng.chance(p):
      st = ST(stops[x][0], t, t + wait)
      t += wait
    else:
      st = ST(stops[x][0], None, None)
    if k in (0, n - 1) and rng.chance(0.06):
      st.arr = st.dep = None
    out.append(st)
    t += rng.pick([0, 1, 7, 60, 61, 100, 3600, rng.randint(0, 1000)])
    if rng.chance(0.8):
      x = (x + rng.pick([1, 1, 1, 0, 2, len(stops) - 1])) % len(stops)
  return out


def bounds(sts, by):
  """For each stop (low, high, timed), None if the trip cannot be interpolated."""
  if not sts:
    return []
  if sts[0].time() is None or sts[-1].time() is None:
    return None
  d = [0.0]
  for a, b in zip(sts, sts[1:]):
    p, q = by[a.stop], by[b.stop]
    d.append(d[-1] + geo.dist(p[1], p[2], q[1], q[2]))
  out = []
  for k, st in enumerate(sts):
    if st.time() is not None:
      out.append((st.time(), st.time(), True))
      continue
    i = max(j for j in range(k) if sts[j].time() is not None)
    j = min(j for j in range(k + 1, len(sts)) if sts[j].time() is not None)
    a, b = sts[i].time(), sts[j].time()
    if d[j] - d[i] < 1e-6:
      out.append((a, b, False))        # all at one place
    else:
      x = a + (b - a) * (d[k] - d[i]) / (d[j] - d[i])
      out.append((x - 0.5 - 1e-3, x + 0.5 + 1e-3, False))
  return out


def run_case(ctx, rng, i):
  rec, rep = recorder.new()
  ids = feedgen.Ids(rng, u'S')
  lat, lon = rng.uniform(-80, 80), rng.uniform(-179.9, 179.9)
  if rng.chance(0.1):
    lon = 179.9999
  stops = []
  for k in range(rng.randint(2, 8)):
    if stops and rng.chance(0.25):
      p = rng.pick(stops)[1:]
    else:
      p = (lat + rng.uniform(-1, 1) * rng.pick([1e-5, 0.01, 0.5]),
           lon + rng.uniform(-1, 1) * rng.pick([1e-5, 0.01, 0.5]))
      p = (round(p[0], 7), round((p[1] + 180) % 360 - 180, 7))
    stops.append((ids.new(),) + p)
  by = dict((x[0], x) for x in stops)
  s = transitfeed.Schedule(rep, memory_db=rng.chance(0.7))
  s.AddAgency(u'Agency', u'http://example.com', u'UTC', agency_id=u'A')
  p = s.GetDefaultServicePeriod()
  p.SetStartDate(u'20260101')
  p.SetEndDate(u'20271231')
  p.SetWeekdayService()
  route = s.AddRoute(short_name=u'1', long_name=u'Eins', route_type=3)
  for x in stops:
    s.AddStop(lat=x[1], lng=x[2], name=u'N ' + x[0], stop_id=x[0])
  tids = feedgen.Ids(rng, u'T')
  trips = {}
  for _ in range(rng.randint(1, 6)):
    tid = tids.new()
    trips[tid] = make(rng, stops)
    t = route.AddTrip(s, trip_id=tid)
    for st in trips[tid]:
      kw = dict(arrival_secs=st.arr, departure_secs=st.dep)
      if st.arr is not None and st.arr == st.dep and rng.chance(0.3):
        kw = dict(stop_time=feedgen.hms(st.arr))
      t.AddStopTime(s.GetStop(st.stop), **kw)
  if i % 4 == 0:
    path = os.path.join(os.getcwd(), 'i%d.zip' % i)
    s.WriteGoogleTransitFeed(path)
    s, _ = recorder.load(path, extra_validation=rng.chance(0.5), memory_db=rng.chance(0.5))
    os.remove(path)
    ctx.count('feeds loaded')
    for x in stops:
      o = s.GetStop(x[0])
      by[x[0]] = (x[0], o.stop_lat, o.stop_lon)
  visits = {}
  broken = set()
  for tid in sorted(trips):
    sts = trips[tid]
    trip = s.GetTrip(tid)
    want = bounds(sts, by)
    if want is None:
      ctx.count('trips refused')
      broken.update(st.stop for st in sts)
      try:
        got = trip.GetTimeInterpolatedStops()
      except ValueError:
        continue
      ctx.fail(u'trip %s without first or last time gives %r' % (tid, got))
      continue
    got = trip.GetTimeInterpolatedStops()
    ctx.count('trips interpolated')
    desc = u'trip %s %r: times %r, expected %r' % (
        tid, [st.key() + by[st.stop][1:] for st in sts], [(g[0], g[2]) for g in got], want)
    if [g[1].stop.stop_id for g in got] != [st.stop for st in sts]:
      ctx.fail(u'other stops: ' + desc)
      continue
    if [(g[1].arrival_secs, g[1].departure_secs) for g in got] != [(st.arr, st.dep) for st in sts]:
      ctx.fail(u'other stop times: ' + desc)
      continue
    last = None
    for k, ((secs, _, timed), (lo, hi, is_timed)) in enumerate(zip(got, want)):
      ctx.count('timed stops' if is_timed else 'interpolated stops')
      if not is_timed and hi - lo != int(hi - lo):
        ctx.count('interpolated by distance')
        if k and geo.dist(*(by[sts[k].stop][1:] + by[sts[k - 1].stop][1:])) == 0:
          ctx.count('interpolated at the place of the stop before')
      if bool(timed) != is_timed or int(secs) != secs or not lo <= secs <= hi:
        ctx.fail(u'stop %d: ' % k + desc)
        break
      if last is not None and secs < last:
        ctx.fail(u'times decrease: ' + desc)
        break
      last = secs
    for k, g in enumerate(got):
      visits.setdefault(sts[k].stop, []).append((g[0], tid, k, bool(g[2])))
    # starting and ending times
    if sts:
      ctx.equal((trip.GetStartTime(), trip.GetEndTime()),
                (sts[0].time(), sts[-1].dep if sts[-1].dep is not None else sts[-1].arr),
                u'first and last time of %s' % desc)
    if all(st.arr is not None and st.dep is not None for st in sts):
      ctx.equal([(a, d, x.stop_id) for a, d, x in trip.GetTimeStops()],
                [(st.arr, st.dep, st.stop) for st in sts], u'timed stops of trip %s' % tid)
  for x in stops:
    if x[0] in broken:
      continue
    stop = s.GetStop(x[0])
    want = sorted(visits.get(x[0], []))
    got = sorted((secs, trip.trip_id, k, bool(timed))
                 for secs, (trip, k), timed in stop.GetStopTimeTrips())
    ctx.count('visits of stops compared', len(want))
    ctx.count('stops visited twice by a trip', len(set(w[1] for w in want)) < len(want))
    ctx.equal(got, want, u'visits of stop %s' % x[0])
  ctx.seen(sorted((t, tuple(st.key() + by[st.stop][1:] for st in sts)) for t, sts in trips.items()))
  ctx.sample({'case': i, 'trips': dict((t, [st.key() for st in sts]) for t, sts in trips.items()[:2])})
