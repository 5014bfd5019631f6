# -*- coding: utf-8 -*-
"""What a model feed says: its tables, indexed, with times, runs and labels."""
import datetime

from harness import canon, feedgen, geo
from harness.service import Model


class Feed(object):
  """What the feed says, from its tables."""

  def __init__(self, f):
    self.f = f
    self.stops = dict((r['stop_id'], r) for r in f.table('stops'))
    self.routes = dict((r['route_id'], r) for r in f.table('routes'))
    self.trips = dict((r['trip_id'], r) for r in f.table('trips'))
    self.sts = dict((t, []) for t in self.trips)
    for r in f.table('stop_times'):
      self.sts[r['trip_id']].append(r)
    for t in self.sts:
      self.sts[t].sort(key=lambda r: int(r['stop_sequence']))
    self.shapes = {}
    for r in f.table('shapes'):
      self.shapes.setdefault(r['shape_id'], []).append(r)
    for s in self.shapes:
      self.shapes[s].sort(key=lambda r: int(r['shape_pt_sequence']))
    self.services = {}
    day = lambda x: datetime.datetime.strptime(x, '%Y%m%d').date()
    for t in ('calendar', 'calendar_dates'):
      for r in f.table(t):
        m = self.services.setdefault(r['service_id'], Model())
        if t == 'calendar':
          m.start, m.end = day(r['start_date']), day(r['end_date'])
          m.days = [r[d] == u'1' for d in feedgen.DAYS]
        else:
          m.exc[day(r['date'])] = r['exception_type'] == u'1'

  def runs(self, tid, date):
    return date is None or self.services[self.trips[tid]['service_id']].active(date)

  def times(self, tid):
    """[(lo, hi, stop_id, timed)] of the visits of a trip."""
    sts = self.sts[tid]
    t = [(canon.secs(r['arrival_time']), canon.secs(r['departure_time'])) for r in sts]
    t = [(a if a is not None else b, b if b is not None else a) for a, b in t]
    d = [0.0]
    for a, b in zip(sts, sts[1:]):
      p, q = self.stops[a['stop_id']], self.stops[b['stop_id']]
      d.append(d[-1] + geo.dist(float(p['stop_lat']), float(p['stop_lon']),
                                float(q['stop_lat']), float(q['stop_lon'])))
    out = []
    for k, r in enumerate(sts):
      if t[k][0] is not None:
        out.append((t[k][0], t[k][1], r['stop_id'], True))
        continue
      i = max(j for j in range(k) if t[j][0] is not None)
      j = min(j for j in range(k + 1, len(sts)) if t[j][0] is not None)
      a, b = t[i][0], t[j][0]
      if d[j] - d[i] < 1e-6:
        out.append((a, b, r['stop_id'], False))
      else:
        x = a + (b - a) * (d[k] - d[i]) / (d[j] - d[i])
        out.append((x - 0.6, x + 0.6, r['stop_id'], False))
    return out

  def label(self, tid, k):
    trip = self.trips[tid]
    route = self.routes[trip['route_id']]
    name = u' - '.join(x for x in (route['route_short_name'], route['route_long_name']) if x)
    sign = u''
    for r in self.sts[tid][:k + 1]:
      sign = r.get('stop_headsign', u'') or sign
    sign = sign or trip.get('trip_headsign', u'')
    return name + (u' (Direction: %s)' % sign if sign else u'')

  def stop_tuple(self, sid):
    r = self.stops[sid]
    return [sid, r['stop_name'], float(r['stop_lat']), float(r['stop_lon']),
            int(r.get('location_type', u'') or 0)]
