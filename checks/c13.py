# -*- coding: utf-8 -*-
"""C13: overlapping trips in a block are reported exactly (also duplicates, bus+subway stops)."""
import datetime
import os

import transitfeed

from harness import feedgen, recorder, render
from harness.service import ONE, Model, ymd

CASES = {'quick': 1000, 'thorough': 40000}
RULE = ('a case is a schedule of 2-20 trips on few blocks, services, routes of mixed vehicle types '
        'and start times, validated after being built or loaded; all pairs of trips are judged; '
        'distinct by the trips, blocks and services')
MINIMUM = {'pairs of trips in a block': 4300, 'pairs overlapping': 970,
           'pairs overlapping in time on services without a common day': 300,
           'pairs touching in time': 340, 'pairs overlapping across services': 120,
           'pairs with an unknown service': 580, 'duplicate trips': 240,
           'trips equal but for one thing': 61, 'check for duplicates disabled': 180,
           'stops with bus and subway': 200, 'feeds loaded': 90, 'trips without block': 690}

SUBWAY, BUS = 1, 3


def run_case(ctx, rng, i):
  rec, rep = recorder.new()
  base = datetime.date(2026, 11, 1)
  ids = feedgen.Ids(rng, u'S')
  models = {}
  names = [ids.new() for _ in range(rng.randint(1, 5))]
  alike = False
  if rng.chance(0.2):
    # Joined, different pairs of these read the same
    alike = True
    sep = rng.pick([u'', u'', u'', u'', u',', u'-', u' ', u'|'])
    names = rng.pick([[u'A', u'A' + sep + u'B', u'B' + sep + u'A'],
                      [u'A', u'A' + sep + u'B', u'B' + sep + u'C', u'C']])
    ctx.count('services whose names join alike')
  for name in names:
    m = models[name] = Model()
    if rng.chance(0.75):
      m.start = base + datetime.timedelta(days=rng.pick([0, 0, 7, 30, 14]))
      m.end = m.start + datetime.timedelta(days=rng.pick([0, 6, 20, 40]))
      m.days = rng.pick([[True] * 5 + [False] * 2, [False] * 5 + [True] * 2, [True] * 7,
                         [rng.chance(0.5) for _ in range(7)]])
    for _ in range(rng.pick([0, 0, 1, 3]) if m.start else rng.randint(1, 3)):
      m.exc[base + datetime.timedelta(days=rng.randint(0, 14))] = rng.chance(0.5)
  check_dup = rng.chance(0.6)
  ctx.count('check for duplicates disabled', not check_dup)
  s = transitfeed.Schedule(rep, check_duplicate_trips=check_dup)
  s.AddAgency(u'Agency', u'http://example.com', u'America/Los_Angeles')
  sids = feedgen.Ids(rng, u'P')
  stops = []
  for k in range(rng.randint(2, 6)):
    stops.append(s.AddStop(lat=47.0 + k * 0.001, lng=8.0, name=u'Stop %d' % k, stop_id=sids.new()))
  routes = {}
  rids = feedgen.Ids(rng, u'R')
  for k in range(rng.randint(1, 4)):
    r = transitfeed.Route(short_name=u'r%d' % k, long_name=u'Route %d' % k,
                          route_type=rng.pick([BUS, BUS, SUBWAY, SUBWAY, 0, 2]), route_id=rids.new())
    s.AddRouteObject(r)
    routes[r.route_id] = r.route_type
  for sid in rng.shuffled(sorted(models)):
    m = models[sid]
    p = transitfeed.ServicePeriod(sid)
    if m.start is not None:
      p.SetStartDate(ymd(m.start))
      p.SetEndDate(ymd(m.end))
    for dow in range(7):
      p.SetDayOfWeekHasService(dow, m.days[dow])
    for d in sorted(m.exc):
      p.SetDateHasService(ymd(d), m.exc[d])
    s.AddServicePeriodObject(p, validate=False)
  dates = dict((sid, set(m.dates())) for sid, m in models.items())
  blocks = [u'b1', u'Block é', u'0', u'B1'][:rng.randint(1, 4)]
  unknown = rng.chance(0.4)
  tids = feedgen.Ids(rng, u'T')
  trips = []
  for _ in range(rng.randint(2, rng.pick([4, 8, 20])) if not alike else 20):
    t = {}
    if trips and rng.chance(0.35):
      # a copy of an earlier trip, or one that differs in a single thing
      t.update(rng.pick(trips))
      t['times'] = list(t['times'])
      k = rng.randint(0, 5)
      if k == 0:
        t['service'] = rng.pick(sorted(models))
      elif k == 1:
        t['times'] = [x + 60 for x in t['times']]
      elif k == 2:
        t['times'] = [t['times'][0]] + [x + 60 for x in t['times'][1:]]
      elif k == 3:
        t['stops'] = rng.shuffled(t['stops'])
        if rng.chance(0.5) and len(t['stops']) > 2:
          # only a stop on the way differs
          t['stops'] = list(t['stops'])
          t['stops'][rng.randint(1, len(t['stops']) - 2)] = rng.pick(stops).stop_id
      elif k == 4:
        t['route'] = rng.pick(sorted(routes))
    else:
      n = rng.randint(2, 5)
      t['stops'] = [rng.pick(stops).stop_id for _ in range(n)]
      start = 600 * rng.randint(30, 60) if rng.chance(0.85) else 0
      t['times'] = [start + rng.pick([600, 1200]) * k for k in range(n)]
      t['service'] = rng.pick(sorted(models))
      if unknown and rng.chance(0.25):
        t['service'] = rng.pick([u'nowhere', u'missing'])
      t['route'] = rng.pick(sorted(routes))
      t['block'] = rng.pick(blocks) if rng.chance(0.75) else rng.pick([None, u''])
    t['id'] = tids.new()
    trips.append(t)
    ctx.count('trips without block', not t['block'])
  # a start equal to the end of another trip of the block
  for t in trips:
    o = rng.pick(trips)
    if o is not t and rng.chance(0.15):
      shift = o['times'][-1] - t['times'][0]
      t['times'] = [x + shift for x in t['times']]
  for t in trips:
    o = transitfeed.Trip()
    o.trip_id, o.route_id, o.service_id = t['id'], t['route'], t['service']
    if t['block'] is not None:
      o.block_id = t['block']
    s.AddTripObject(o, validate=False)
    for sid, secs in zip(t['stops'], t['times']):
      o.AddStopTime(s.GetStop(sid), arrival_secs=secs, departure_secs=secs)
  if i % 5 == 0:
    path = os.path.join(os.getcwd(), 'x%d.zip' % i)
    s.WriteGoogleTransitFeed(path)
    ok = all(t['service'] in models for t in trips)
    s, out = recorder.load(path, check_duplicate_trips=check_dup)
    os.remove(path)
    ctx.count('feeds loaded')
    if not ok:
      # rows with an unknown service may be left out by the loader; C05 judges that
      trips = [t for t in trips if t['id'] in s.trips]
  else:
    out, out_rep = recorder.new()
    if rng.chance(0.5):
      s.Validate(out_rep, today=base)
    else:
      s.ValidateTrips(out_rep)
  # blocks
  got = []
  for e in out.of('OverlappingTripsInSameBlock'):
    got.append((tuple(sorted((e.get('trip_id1'), e.get('trip_id2')))), e.get('block_id')))
    ctx.check(e.type == recorder.WARNING and e.text(), u'%s is not a readable warning', e)
  want, free = [], set()
  for x in range(len(trips)):
    for y in range(x + 1, len(trips)):
      a, b = trips[x], trips[y]
      pair = tuple(sorted((a['id'], b['id'])))
      if not a['block'] or a['block'] != b['block']:
        continue
      ctx.count('pairs of trips in a block')
      lo, hi = max(a['times'][0], b['times'][0]), min(a['times'][-1], b['times'][-1])
      if lo == hi:
        ctx.count('pairs touching in time')
      da, db = dates.get(a['service'], set()), dates.get(b['service'], set())
      if a['service'] not in models or b['service'] not in models:
        ctx.count('pairs with an unknown service')
      if lo >= hi:
        continue
      if a['service'] == b['service'] and not da:
        free.add(pair)     # no date at all: nothing to say
      elif da & db:
        ctx.count('pairs overlapping')
        ctx.count('pairs overlapping across services', a['service'] != b['service'])
        want.append((pair, a['block']))
      else:
        ctx.count('pairs overlapping in time on services without a common day')
  got = [g for g in got if g[0] not in free]
  if sorted(got) != sorted(want):
    ctx.fail(u'overlaps in blocks: not reported %r, reported too much %r' % (
        [w for w in want if w not in got][:4],
        [g for g in set(got) if got.count(g) > want.count(g)][:4]))
  # duplicates
  groups = {}
  for t in trips:
    groups.setdefault((t['service'], tuple(t['stops']), t['times'][0]), []).append(t)
  got = out.of('DuplicateTrip')
  by_id = dict((t['id'], t) for t in trips)
  n = 0
  for g in groups.values():
    if len(g) > 1:
      n += len(g) - 1
  near = {}
  for t in trips:
    near.setdefault((tuple(t['stops']), t['times'][0]), set()).add(t['service'])
  ctx.count('trips equal but for one thing', sum(len(v) - 1 for v in near.values()))
  if not check_dup:
    ctx.equal(len(got), 0, u'duplicate trips reported although the check is off')
  else:
    ctx.count('duplicate trips', n)
    seen = []
    for e in got:
      one, two = e.get('trip_id1'), e.get('trip_id2')
      if one not in by_id or two not in by_id or one == two:
        ctx.fail(u'duplicate trips %r and %r are no two trips' % (one, two))
        continue
      a, b = by_id[one], by_id[two]
      if (a['service'], a['stops'], a['times'][0]) != (b['service'], b['stops'], b['times'][0]):
        ctx.fail(u'trips reported as duplicates differ: %r %r' % (a, b))
      ctx.equal((e.get('route_id1'), e.get('route_id2')), (a['route'], b['route']),
                u'routes of the duplicate trips %s' % e)
      seen.append(tuple(sorted((one, two))))
      ctx.check(e.type == recorder.WARNING and e.text(), u'%s is not a readable warning', e)
    # every member of a group is tied to the others by the reports, each pair once
    ctx.equal(len(set(seen)), len(seen), u'different pairs of duplicates reported')
    for key, g in groups.items():
      if len(g) < 2:
        continue
      members = set(t['id'] for t in g)
      linked = [p for p in seen if p[0] in members]
      reach, grown = set([g[0]['id']]), True
      while grown:
        grown = False
        for p in linked:
          if (p[0] in reach) != (p[1] in reach):
            reach.update(p)
            grown = True
      if reach != members:
        ctx.fail(u'duplicates %r not all reported: %r' % (sorted(members), linked))
  # stops served by bus and subway
  serve = {}
  for t in trips:
    for sid in t['stops']:
      serve.setdefault(sid, {}).setdefault(routes[t['route']], set()).add(t['route'])
  both = sorted(sid for sid in serve if SUBWAY in serve[sid] and BUS in serve[sid])
  ctx.count('stops with bus and subway', len(both))
  got = out.of('StopWithMultipleRouteTypes')
  ctx.equal(sorted(e.get('stop_id') for e in got), both, u'stops reported to have bus and subway')
  for e in got:
    sid = e.get('stop_id')
    if sid in both and (e.get('route_id1') not in serve[sid][SUBWAY] or
                        e.get('route_id2') not in serve[sid][BUS]):
      ctx.fail(u'wrong routes in %s' % e)
    ctx.check(e.type == recorder.WARNING and e.text(), u'%s is not a readable warning', e)
  ctx.seen([(t['id'], t['block'], t['service'], t['route'], tuple(t['stops']), tuple(t['times']))
            for t in trips])
  ctx.sample({'case': i, 'trips': len(trips), 'overlaps': len(want), 'duplicates': n,
              'bus and subway': len(both)})
