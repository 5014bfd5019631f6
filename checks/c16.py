# -*- coding: utf-8 -*-
"""C16: merging conserves every entity and rewires every reference."""
import os
import shutil

from harness import canon, merges, recorder
from harness.core import u

CASES = {'quick': 170, 'thorough': 12000}
RULE = ('a case is one pair of generated feeds merged with the default mergers; distinct by the '
        'identifiers of both feeds and which of them are the same entity')
MINIMUM = {'fare rules compared': 350, 'followed: agency': 320, 'followed: block': 130,
           'followed: fare': 220, 'followed: route': 410, 'followed: service': 540,
           'followed: shape': 250, 'followed: stop': 930, 'followed: trip': 1300,
           'followed: zone': 250, 'pairs merged: edited copy': 46, 'pairs merged: other feed': 15,
           'pairs merged: unchanged copy': 1, 'pairs with errors in the edited feed': 1,
           'same identifier kept apart: agency': 45, 'same identifier kept apart: fare': 39,
           'same identifier kept apart: route': 81, 'same identifier kept apart: service': 190,
           'same identifier kept apart: shape': 21, 'same identifier kept apart: stop': 140,
           'same identifier kept apart: trip': 500, 'stop times compared': 4600,
           'transfers compared': 170, 'unified: agency': 130, 'unified: fare': 61,
           'unified: route': 110, 'unified: shape': 110, 'unified: stop': 310,
           'unified: zone': 86, 'identifiers as generated: agency': 1,
           'identifiers as generated: fare': 1, 'identifiers as generated: route': 1,
           'identifiers as generated: service': 1, 'identifiers as generated: stop': 1,
           'identifiers as generated: trip': 1, 'identifiers as generated: zone': 1,
           'pairs merged: names as generated': 38}
ASSUMPTIONS = ['feed_info.txt describes a feed as a whole and is not carried over by merging; '
               'stop sequence numbers may be renumbered in the same order']


def taken_names(rng, a, b, merged):
  """The pair with one identifier replaced by one that merging has just generated."""
  made = []
  for kind in merges.REFS:
    known = set(merges.ids(a, kind)) | set(merges.ids(b, kind))
    made += [(kind, v) for v in merges.ids(merged, kind) if v not in known and kind != 'block']
  if not made:
    return None
  kind = rng.pick(sorted(set(k for k, _ in made)))
  v = rng.pick([x for k, x in made if k == kind])
  pair = [a, b]
  where = [rng.randint(0, 1)]
  own = [x for x in merges.ids(pair[where[0]], kind) if x != u'' and not v.startswith(x + u'_merged_')]
  both = [x for x in own if x in merges.ids(pair[1 - where[0]], kind)]
  if both and rng.chance(0.8 if kind == 'zone' else 0.4):
    # An entity of both feeds has the name
    own, where = both, [0, 1]
  if not own:
    return None
  old = rng.pick(own)
  for n in where:
    m = dict((x, x) for x in merges.ids(pair[n], kind))
    m[old] = v
    if kind == 'zone':
      for r in pair[n].table('fare_rules'):
        for c in ('origin_id', 'destination_id', 'contains_id'):
          m.setdefault(r.get(c, u''), r.get(c, u''))
    pair[n] = merges.rename(pair[n], {kind: m})
  merges.unique_contents(rng, *pair)
  return pair[0], pair[1], kind


def run_case(ctx, rng, i):
  d = ctx.tmpdir()
  try:
    limits = (10.0, 10.0) if rng.chance(0.6) else (rng.pick([1.0, 50.0, 200.0]), rng.pick([2.0, 100.0]))
    a, b, how = merges.pair(rng, limits)
    disjoint = rng.chance(0.5)
    if disjoint:
      merges.shift(b, 1500)
    merges.finish_pair(rng, a, b)
    merged = one_pair(ctx, rng, i, d, a, b, how, limits, disjoint)
    if merged is not None and rng.chance(0.7):
      again = taken_names(rng, a, b, merged)
      if again is not None:
        if one_pair(ctx, rng, i, d, again[0], again[1], u'names as generated', limits, disjoint) is not None:
          ctx.count('identifiers as generated: ' + again[2])
  finally:
    shutil.rmtree(d, ignore_errors=True)


def one_pair(ctx, rng, i, d, a, b, how, limits, disjoint):
  model = merges.Model(a, b, limits)
  if model.doubtful:
    ctx.count('pairs with distances at the limit')
    return
  sa, ea = merges.load(a, os.path.join(d, how[:1] + 'a.zip'), rng)
  sb, eb = merges.load(b, os.path.join(d, how[:1] + 'b.zip'), rng)
  if ea:
    ctx.errors.append(u'feed a of case %d has errors: %r' % (i, ea[:3]))
    return
  if eb:
    ctx.count('pairs with errors in the edited feed')
    return
  before = canon.of_schedule(sa), canon.of_schedule(sb)
  run = merges.Run(sa, sb, limits, disjoint)
  if not run.result:
    ctx.fail(u'case %d (%s): merging is refused: %r' % (i, how, run.rec.entries[:5]))
    return
  out = os.path.join(d, how[:1] + 'out.zip')
  run.merged.WriteGoogleTransitFeed(out)
  merged = merges.written(out)
  what = u'case %d (%s)' % (i, how)
  obs = merges.Observed(ctx, model, merged, what)
  # The schedule in memory is the feed that was written.
  back, rec = recorder.load(out)
  for x in canon.diff(canon.of_schedule(run.merged), canon.of_schedule(back)):
    ctx.fail(u'%s: in memory against written: %s' % (what, x))
  bad = [e for e in rec.entries if e.type == recorder.ERROR and e.column_name != 'agency_timezone' and
         e.cls in ('InvalidValue', 'DuplicateID', 'MissingValue')]
  if bad:
    ctx.fail(u'%s: the merged feed does not load without errors: %r' % (what, bad[:5]))
  by_route = {}
  for r in merged.table('trips'):
    by_route.setdefault(r['route_id'], []).append(r['trip_id'])
  for r in run.merged.GetRouteList():
    ctx.equal(sorted(t.trip_id for t in r.trips), sorted(by_route.get(r.route_id, [])),
              u'%s: trips of route %s' % (what, r.route_id))
  for t in run.merged.GetTripList():
    for x in t.GetStopTimes():
      if x.stop is not run.merged.GetStop(x.stop_id):
        ctx.fail(u'%s: a stop time of trip %s leads to a stop of another feed' % (what, t.trip_id))
  after = canon.of_schedule(sa), canon.of_schedule(sb)
  for n in (0, 1):
    for x in canon.diff(after[n], before[n]):
      ctx.fail(u'%s: merging changed its input %s: %s' % (what, u'ab'[n], x))
  ctx.count('pairs merged: ' + how)
  for kind in merges.REFS:
    ctx.count('unified: ' + kind, len(model.unified[kind]))
    ctx.count('same identifier kept apart: ' + kind, len(model.conflicts[kind]))
  if obs.ok:
    for kind in obs.maps:
      ctx.count('followed: ' + kind, len(obs.maps[kind]))
  ctx.count('stop times compared', len(merged.table('stop_times')))
  ctx.count('fare rules compared', len(merged.table('fare_rules')))
  ctx.count('transfers compared', len(merged.table('transfers')))
  ctx.seen([i, model.maps_a, model.maps_b])
  ctx.sample({'case': i, 'how': how, 'unified': dict((k, len(v)) for k, v in model.unified.items())})
  return merged
