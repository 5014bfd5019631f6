# -*- coding: utf-8 -*-
"""C10: stop-time sequence problems are reported exactly when present."""
import os

import transitfeed

from harness import feedgen, geo, recorder, render
from harness.core import u

CASES = {'quick': 900, 'thorough': 40000}
RULE = ('a case is a feed of 1-6 trips, each valid or with up to three sequence, time, distance or '
        'speed defects planted, loaded from files in shuffled row order or built through the API; an '
        'independent reading of every trip says which problems must and must not be reported; '
        'distinct by the stop times')
MINIMUM = {'trips judged': 1300, 'feeds loaded': 290, 'found: back': 100,
           'found: beyond shape': 24, 'found: crowd': 49, 'found: departs early': 57,
           'found: dist': 140, 'found: fast': 340, 'found: half': 56, 'found: no first time': 52,
           'found: no last time': 88, 'found: no stops': 84, 'found: one stop': 89,
           'found: repeated sequence number': 67, 'schedules built': 110,
           'trips with a repeated sequence number': 67, 'trips without defect': 530}

MAXSPEED = {0: 100, 1: 150, 2: 300, 3: 100, 4: 80, 5: 50, 6: 50, 7: 50}
KMH = 3.6


class ST(object):
  def __init__(self, seq, stop, arr, dep, dist):
    self.seq, self.stop, self.arr, self.dep, self.dist = seq, stop, arr, dep, dist

  def key(self):
    return (self.seq, self.stop, self.arr, self.dep, self.dist)


def make_trip(ctx, rng, stops, kind):
  n = rng.pick([0, 1, 2, 3, 8, 9, 9, 12]) if rng.chance(0.5) else rng.randint(2, 7)
  t = rng.randint(5, 30) * 3600 + rng.pick([0, 0, 30, 17])
  seq = rng.randint(0, 5)
  dist = rng.pick([None, 0.0, 0.0, 1.5])
  out = []
  prev = None
  for k in range(n):
    x = rng.pick(stops) if rng.chance(0.3) else stops[k % len(stops)]
    if prev is not None:
      d = geo.dist(prev[1], prev[2], x[1], x[2])
      need = d * KMH / MAXSPEED[kind]
      t += int(need * rng.pick([1.1, 1.5, 3])) + rng.pick([1, 20, 60])
      if rng.chance(0.3):
        t = t // 60 * 60 + 60
    wait = rng.pick([0, 0, 0, 10, 60])
    out.append(ST(seq, x[0], t, t + wait, dist))
    t += wait
    seq += rng.pick([1, 1, 1, 2, 10])
    if dist is not None:
      dist = round(dist + rng.pick([0.001, 1, 250.5]), 3)
    prev = x
  # untimed stops in between
  for st in out[1:-1]:
    if rng.chance(0.3):
      st.arr = st.dep = None
    if rng.chance(0.1):
      st.dist = None
  return out


KINDS = ['dup', 'depart early', 'time travel', 'no first', 'no last', 'dist same', 'dist less',
         'dist negative', 'beyond shape', 'fast', 'just fast', 'just slow', 'same minute', 'same off minute',
         'crowd', 'crowd', 'crowd', 'crowd', 'swap', 'half']


def plant(ctx, rng, sts, stops, kind, limit):
  """Make a change that may be a defect; the judge decides what it is."""
  by = dict((x[0], x) for x in stops)
  what = rng.pick(KINDS)
  timed = [k for k, st in enumerate(sts) if st.arr is not None]
  if len(sts) < 2 or any((st.arr is None) != (st.dep is None) for st in sts):
    return
  k = rng.randint(1, len(sts) - 1)
  if what == 'dup':
    sts[k].seq = sts[k - 1].seq
  elif what == 'depart early':
    st = sts[rng.pick(timed)]
    st.dep = st.arr - rng.pick([1, 60, 4000])
  elif what == 'time travel' and len(timed) > 1:
    j = rng.randint(1, len(timed) - 1)
    st = sts[timed[j]]
    st.arr = sts[timed[j - 1]].dep - rng.pick([1, 1, 30, 600])
    st.dep = max(st.dep, st.arr)
  elif what == 'no first':
    sts[0].arr = sts[0].dep = None
  elif what == 'no last':
    sts[-1].arr = sts[-1].dep = None
  elif what.startswith('dist') and sts[0].dist is not None:
    have = [st.dist for st in sts[:k] if st.dist is not None]
    if have:
      sts[k].dist = {'dist same': max(have), 'dist less': max(have) - rng.pick([0.001, 1.0]),
                     'dist negative': -rng.pick([0.5, 3.0])}[what]
  elif what == 'beyond shape' and sts[-1].dist is not None and limit:
    sts[-1].dist = limit + rng.pick([0.001, 0.0, 50.0])
  elif what in ('fast', 'just fast', 'just slow') and len(timed) > 1:
    j = rng.randint(1, len(timed) - 1)
    a, b = by[sts[timed[j - 1]].stop], by[sts[timed[j]].stop]
    need = geo.dist(a[1], a[2], b[1], b[2]) * KMH / MAXSPEED[kind]
    secs = int(need * {'fast': 0.3, 'just fast': 0.98, 'just slow': 1.02}[what])
    delta = sts[timed[j - 1]].dep + secs - sts[timed[j]].arr
    for st in sts[timed[j]:]:
      if st.arr is not None:
        st.arr += delta
        st.dep += delta
  elif what in ('same minute', 'same off minute') and len(timed) > 1:
    j = rng.randint(1, len(timed) - 1)
    t = sts[timed[j - 1]].dep
    t = t // 60 * 60 + (0 if what == 'same minute' else rng.pick([1, 30, 59]))
    sts[timed[j - 1]].dep = max(t, sts[timed[j - 1]].arr)
    delta = sts[timed[j - 1]].dep - sts[timed[j]].arr
    for st in sts[timed[j]:]:
      if st.arr is not None:
        st.arr += delta
        st.dep += delta
  elif what == 'crowd':
    m = rng.pick([4, 5, 6, 6, 7, 8])
    k = rng.randint(1, max(1, len(sts) - m + 1))
    t = sts[k - 1].dep or sts[k - 1].arr or 30000
    t = t // 60 * 60
    for j, st in enumerate(sts[k - 1:k - 1 + m]):
      st.arr = st.dep = t
      if 0 < j < m - 1 and rng.chance(0.3):
        st.arr = st.dep = None
    if rng.chance(0.3):
      sts[k - 1].arr = t - rng.pick([0, 60])
    if k - 2 + m < len(sts) and rng.chance(0.3):
      sts[k - 2 + m].dep = t + 60
  elif what == 'swap':
    sts[k].arr, sts[k - 1].arr = sts[k - 1].arr, sts[k].arr
    sts[k].dep, sts[k - 1].dep = sts[k - 1].dep, sts[k].dep
  elif what == 'half':
    if sts[k].arr is not None:
      if rng.chance(0.5):
        sts[k].dep = None
      else:
        sts[k].arr = None


def margin(x, limit):
  """-1 below, 1 above, 0 too close to the limit to call."""
  if x > limit * 1.0005 + 1e-9:
    return 1
  if x < limit * 0.9995 - 1e-9:
    return -1
  return 0


def judge(sts, by, kind, limit, has_shape):
  """[(kind of report, identifying parts...)] that must be there, and that may be there."""
  must, may = [], []
  if len(sts) == 0:
    return [('no stops',)], may
  if len(sts) == 1:
    must.append(('one stop',))
  seqs = [st.seq for st in sts]
  dups = sorted(set(q for q in seqs if seqs.count(q) > 1))
  for q in dups:
    must.append(('dup', q))
  if dups:
    # the order of these stops is undefined, nothing else can be said about them
    return must, None
  sts = sorted(sts, key=lambda st: st.seq)
  for st in sts:
    if st.arr is not None and st.dep is not None and st.dep < st.arr:
      must.append(('departs early', st.seq))
    if (st.arr is None) != (st.dep is None):
      must.append(('half', st.seq))
  if len(sts) > 1:
    if sts[0].arr is None and sts[0].dep is None:
      must.append(('no first time',))
    if sts[-1].arr is None and sts[-1].dep is None:
      must.append(('no last time',))
  best = None
  for st in sts:
    if st.dist is not None:
      if st.dist >= 0 and (best is None or st.dist > best):
        best = st.dist
      else:
        must.append(('dist', st.stop, st.dist, 'same' if st.dist == best else 'less'))
  last = sts[-1]
  if has_shape and last.dist is not None and last.dist > limit:
    must.append(('beyond shape', last.seq))
  # times: strict reading against the previous timed stop, tolerant after a step back
  sure = True
  prev = None
  for st in sts:
    if (st.arr is None) != (st.dep is None):
      sure = False
      prev = None
      continue
    if st.arr is None:
      continue
    if prev is not None:
      back = st.arr < prev.dep
      d = geo.dist(by[prev.stop][1], by[prev.stop][2], by[st.stop][1], by[st.stop][2])
      dt = st.arr - prev.dep
      fast = 0
      if dt == 0:
        fast = 1 if prev.dep % 60 else margin(d / 1000 * 60, MAXSPEED[kind])
        if not prev.dep % 60 and d == 0:
          fast = -1
      elif dt > 0:
        fast = margin(d / 1000 / (dt / 3600.0), MAXSPEED[kind])
      else:
        fast = -1      # the speed between a later and an earlier time means nothing
      where = (must if sure else may)
      if back:
        where.append(('back', st.seq))
        sure = False
      if fast == 1:
        where.append(('fast', prev.stop, st.stop, dt))
      elif fast == 0 or not sure:
        may.append(('fast', prev.stop, st.stop, dt))
    prev = st
    if not sure:
      may.append(('tolerant',))
  # more than five stops at the same time
  if not any((st.arr is None) != (st.dep is None) for st in sts):
    k = 0
    while k < len(sts):
      if sts[k].arr is None:
        k += 1
        continue
      t, end, j = sts[k].dep, k, k + 1
      while j < len(sts) and (sts[j].arr is None or sts[j].arr == t == sts[j].dep):
        if sts[j].arr is not None:
          end = j
        j += 1
      if end - k + 1 > 5:
        must.append(('crowd', end - k + 1, t))
      k = end + 1
  else:
    may.append(('crowd?',))
  return must, may


def run_case(ctx, rng, i):
  today = feedgen.today()
  feed = feedgen.Feed()
  feed.add('agency', agency_id=u'A', agency_name=u'Agency', agency_url=u'http://example.com',
           agency_timezone=u'UTC')
  feed.add('calendar', service_id=u'WK', start_date=feedgen.ymd(today), end_date=feedgen.ymd(
      today + feedgen.datetime.timedelta(days=100)), **dict((d, u'1') for d in feedgen.DAYS))
  ids = feedgen.Ids(rng, u'S')
  lat, lon = rng.uniform(-70, 70), rng.uniform(-179, 178)
  stops = []
  for k in range(rng.randint(3, 8)):
    x = (ids.new(), round(lat + 0.0001 + k * rng.pick([0.0005, 0.003, 0.01]), 6), round(lon + k * 0.002, 6))
    stops.append(x)
    feed.add('stops', stop_id=x[0], stop_name=u'Name %d' % k, stop_lat=u'%r' % x[1], stop_lon=u'%r' % x[2])
  by = dict((x[0], x) for x in stops)
  names = dict((x[0], u'Name %d' % k) for k, x in enumerate(stops))
  tids = feedgen.Ids(rng, u'T')
  trips = {}
  kinds = {}
  limits = {}
  for k in range(rng.randint(1, 6)):
    tid = tids.new()
    kind = rng.pick([0, 1, 2, 3, 3, 4, 5, 6, 7])
    rid = u'R%d' % kind
    if not feed.find('routes', 'route_id', rid):
      feed.add('routes', route_id=rid, agency_id=u'A', route_short_name=u'r%d' % kind,
               route_long_name=u'Route %d' % kind, route_type=unicode(kind))
    sts = make_trip(ctx, rng, stops, kind)
    row = feed.add('trips', trip_id=tid, route_id=rid, service_id=u'WK')
    limit = None
    if sts and sts[0].dist is not None and sts[-1].dist is not None and rng.chance(0.7):
      limit = sts[-1].dist + rng.pick([0.0, 0.5, 100.0])
      if limit > 0:
        row['shape_id'] = u'sh%d' % k
        for j, d in enumerate((0.0, limit)):
          feed.add('shapes', shape_id=u'sh%d' % k, shape_pt_lat=repr(stops[-j][1]).decode('ascii'),
                   shape_pt_lon=repr(stops[-j][2]).decode('ascii'), shape_pt_sequence=unicode(j + 1),
                   shape_dist_traveled=repr(d).decode('ascii'))
      else:
        limit = None
    for _ in range(rng.pick([0, 0, 1, 1, 2, 3])):
      plant(ctx, rng, sts, stops, kind, limit)
    ok = True
    for st in sts:
      for v in (st.arr, st.dep):
        if v is not None and v < 0:
          ok = False
    if not ok:
      feed.rows['trips'].pop()
      continue
    trips[tid], kinds[tid], limits[tid] = sts, kind, limit
  if not trips:
    return
  api = i % 3 == 0 and all(len(set(st.seq for st in sts)) == len(sts) for sts in trips.values())
  hm = lambda v: u'' if v is None else feedgen.hms(v)
  row_of = {}
  rows = [(tid, st) for tid in sorted(trips) for st in trips[tid]]
  for tid, st in rng.shuffled(rows):
    feed.add('stop_times', trip_id=tid, stop_id=st.stop, stop_sequence=unicode(st.seq),
             arrival_time=hm(st.arr), departure_time=hm(st.dep),
             shape_dist_traveled=u'' if st.dist is None else repr(st.dist).decode('ascii'))
    row_of[(tid, st.seq)] = len(feed.table('stop_times')) + 1
  if not feed.table('stop_times'):
    feed.rows['stop_times'] = []
  feed.finish_columns(rng)
  if api:
    rec, rep = recorder.new()
    s = transitfeed.Schedule(rep, memory_db=rng.chance(0.7))
    s.AddAgencyObject(transitfeed.Agency(field_dict=feed.table('agency')[0]))
    p = s.GetDefaultServicePeriod()
    p.SetServiceId(u'WK')
    p.SetStartDate(feedgen.ymd(today))
    p.SetEndDate(feedgen.ymd(today + feedgen.datetime.timedelta(days=100)))
    for d in range(7):
      p.SetDayOfWeekHasService(d)
    for x in stops:
      s.AddStop(lat=x[1], lng=x[2], name=names[x[0]], stop_id=x[0])
    for r in feed.table('routes'):
      s.AddRouteObject(transitfeed.Route(field_dict=dict(r, route_type=int(r['route_type']))))
    for r in feed.table('shapes'):
      if r['shape_id'] not in [x.shape_id for x in s.GetShapeList()]:
        s.AddShapeObject(transitfeed.Shape(r['shape_id']))
      s.GetShape(r['shape_id']).AddPoint(float(r['shape_pt_lat']), float(r['shape_pt_lon']),
                                         float(r['shape_dist_traveled']))
    for r in feed.table('trips'):
      t = transitfeed.Trip(field_dict=r)
      s.AddTripObject(t)
      trips[r['trip_id']].sort(key=lambda st: st.seq)
      for k, st in enumerate(trips[r['trip_id']]):
        st.seq = k + 1      # the API numbers them itself
        t.AddStopTimeObject(transitfeed.StopTime(
            rep, s.GetStop(st.stop), arrival_secs=st.arr, departure_secs=st.dep,
            shape_dist_traveled=st.dist))
    rec.take()
    s.Validate(rep, validate_children=rng.chance(0.5))
    out = rec
    ctx.count('schedules built')
  else:
    path = os.path.join(os.getcwd(), 'z%d.zip' % i)
    style = render.random_style(rng)
    style.shuffle_rows = False
    style.blank = 0.0      # blank lines would move the row numbers
    render.write_zip(render.files(feed, style), path)
    s, out = recorder.load(path, memory_db=rng.chance(0.7))
    os.remove(path)
    ctx.count('feeds loaded')
  left = list(out.entries)

  def take(pred):
    hit = [e for e in left if pred(e)]
    for e in hit:
      left.remove(e)
    return hit

  def quoted(e, tid):
    return tid in e.text()

  take(lambda e: e.cls in ('UnusedStop', 'StopTooFarFromShapeWithDistTraveled', 'UnrecognizedColumn',
                           'StopWithMultipleRouteTypes', 'ExpirationDate'))
  # reports that repeat what is wrong with a single stop time
  early = take(lambda e: e.cls == 'InvalidValue' and e.column_name == 'departure_time' and
               'missing' not in e.text())
  half = take(lambda e: e.cls == 'MissingValue' and e.column_name in ('arrival_time', 'departure_time'))
  want_early, want_half = set(), set()
  loose = []
  for tid in sorted(trips, key=lambda t: -len(t)):
    sts = trips[tid]
    must, may = judge(sts, by, kinds[tid], limits[tid] or 0, limits[tid] is not None)
    ctx.count('trips judged')
    if may is None:
      ctx.count('trips with a repeated sequence number')
      for st in sts:
        if st.arr is not None and st.dep is not None and st.dep < st.arr:
          want_early.add((tid, st.seq))
        if (st.arr is None) != (st.dep is None):
          want_half.add((tid, st.seq))
      for m in must:
        if m[0] == 'dup':
          hit = take(lambda e: e.cls == 'InvalidValue' and e.column_name == 'stop_sequence' and
                     u(e.value) == unicode(m[1]) and quoted(e, tid))
          # other trips may have names that contain this one's
          if not hit or hit[0].type != recorder.ERROR:
            ctx.fail(u'trip %s: repeated stop_sequence %r reported as %r' % (tid, m[1], hit))
          elif len(hit) > 1:
            for e in hit[1:]:
              left.append(e)
          ctx.count('found: repeated sequence number')
      loose.append((tid, None))
      continue
    if not must and not may:
      ctx.count('trips without defect')
    for m in must:
      ctx.count('found: ' + m[0])
      hit = None
      if m[0] == 'no stops':
        hit = [e for e in left if e.cls == 'OtherProblem' and e.type == recorder.WARNING and
               quoted(e, u'"%s"' % tid) and "doesn't have" in e.text()]
      elif m[0] == 'one stop':
        hit = [e for e in left if e.cls == 'OtherProblem' and e.type == recorder.WARNING and
               quoted(e, u'"%s"' % tid) and 'only has one' in e.text()]
      elif m[0] == 'departs early':
        want_early.add((tid, m[1]))
        continue
      elif m[0] == 'half':
        want_half.add((tid, m[1]))
        continue
      elif m[0] in ('no first time', 'no last time'):
        col = 'departure_time' if 'first' in m[0] else 'arrival_time'
        hit = [e for e in left + early if e.cls == 'InvalidValue' and e.column_name == col and
               quoted(e, tid + u' ') and ('first' if 'first' in m[0] else 'last') in e.text()]
      elif m[0] == 'dist':
        t = recorder.WARNING if m[3] == 'same' else recorder.ERROR
        hit = [e for e in left if e.cls == 'InvalidValue' and
               'shape_dist_traveled' in e.column_name and e.type == t and
               e.value == m[2] and u'trip %s the stop %s ' % (tid, m[1]) in e.text()]
      elif m[0] == 'beyond shape':
        hit = [e for e in left if e.cls == 'OtherProblem' and e.type == recorder.WARNING and
               u'trip_id=%s ' % tid in e.text() and u'stop_sequence=%d ' % m[1] in e.text()]
      elif m[0] == 'back':
        hit = [e for e in left if e.cls == 'OtherProblem' and e.type == recorder.ERROR and
               e.text().strip().endswith(u'at sequence number %d in trip %s' % (m[1], tid))]
      elif m[0] == 'fast':
        hit = [e for e in left if e.cls == 'TooFastTravel' and e.type == recorder.WARNING and
               e.get('trip_id') == tid and e.get('prev_stop') == names[m[1]] and
               e.get('next_stop') == names[m[2]] and e.get('time') == m[3]]
        if hit:
          d = geo.dist(by[m[1]][1], by[m[1]][2], by[m[2]][1], by[m[2]][2])
          sp = d / 1000 / (m[3] / 3600.0) if m[3] else None
          if abs(hit[0].get('dist') - d) > 0.01 + 1e-6 * d or (
              (sp is None) != (hit[0].get('speed') is None)) or (
              sp is not None and abs(sp - hit[0].get('speed')) > 1e-3 * sp + 0.05):
            ctx.fail(u'trip %s: wrong distance or speed in %s, expected %r %r' % (tid, hit[0], d, sp))
      elif m[0] == 'crowd':
        hit = [e for e in left if e.cls == 'TooManyConsecutiveStopTimesWithSameTime' and
               e.type == recorder.WARNING and e.get('trip_id') == tid and
               e.get('number_of_stop_times') == m[1] and u(e.get('stop_time')) == feedgen.hms(m[2])]
      if not hit:
        ctx.fail(u'trip %s (type %d, shape length %r): %r is not reported; stop times %r; reports %r' % (
            tid, kinds[tid], limits[tid], m, [st.key() for st in sts],
            [repr(e) for e in out.entries if quoted(e, tid) or e.get('trip_id') == tid][:6]))
      else:
        ctx.check(hit[0].text(), u'%s has no text', hit[0])
        (left if hit[0] in left else early).remove(hit[0])
    if may:
      loose.append((tid, may))
  for tid, may in loose:
    if may is None:
      # the order being undefined, any order problem of this trip may be reported
      take(lambda e: (e.get('trip_id') == tid or quoted(e, tid)) and not (
          e.cls == 'InvalidValue' and e.column_name == 'stop_sequence'))
    else:
      # after a step back in time or half a time, what follows may be read in two ways
      take(lambda e: (e.cls == 'OtherProblem' and u'in trip %s' % tid in e.text() and
                      'sequence number' in e.text()) or
           (e.cls == 'TooFastTravel' and e.get('trip_id') == tid) or
           (('crowd?',) in may and e.cls == 'TooManyConsecutiveStopTimesWithSameTime' and
            e.get('trip_id') == tid))
  # single stop times: each row reported at least once, with its place when loaded
  for what, es, want, in (('departure before arrival', early, want_early),
                          ('half a time', half, want_half)):
    if not want:
      if es:
        ctx.fail(u'%s reported but not there: %r' % (what, es[:3]))
    elif len(es) < len(want):
      ctx.fail(u'%s: %d reports for %r' % (what, len(es), sorted(want)))
    if not api:
      rows = sorted(e.row_num for e in es if e.file_name == 'stop_times.txt')
      expect = sorted(row_of[w] for w in want)
      if not any(len(set(st.seq for st in sts)) != len(sts) for sts in trips.values()):
        ctx.equal(rows, expect, u'rows reported with %s' % what)
  if left:
    ctx.fail(u'reported without reason: %r; trips %r' % (
        [repr(e) for e in left[:4]],
        dict((t, (kinds[t], limits[t], [st.key() for st in trips[t]])) for t in trips
             if any(quoted(e, t) or e.get('trip_id') == t for e in left))))
  ctx.seen(sorted((t, kinds[t], limits[t], tuple(st.key() for st in sts)) for t, sts in trips.items()))
  ctx.sample({'case': i, 'trips': len(trips), 'reports': [repr(e) for e in out.entries[:4]]})
