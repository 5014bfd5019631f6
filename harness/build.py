# -*- coding: utf-8 -*-
"""Builds a transitfeed.Schedule for a model feed through the public API."""
import transitfeed

from harness import canon


def _clean(row):
  return dict((k, v) for k, v in row.items() if v != u'')


def _ascii(row):
  return all(ord(c) < 128 for k in row for c in k)


def schedule(feed, rng, reporter, memory_db=True, validate=False):
  """Add everything of the model by API calls, in a random valid order."""
  s = transitfeed.Schedule(problem_reporter=reporter, memory_db=memory_db)
  for r in feed.table('agency'):
    d = _clean(r)
    if rng.chance(0.5) or not _ascii(d):
      a = transitfeed.Agency(field_dict=d)
    else:
      a = transitfeed.Agency(name=d['agency_name'], url=d['agency_url'],
                             timezone=d['agency_timezone'],
                             id=d.get('agency_id'), lang=d.get('agency_lang'),
                             email=d.get('agency_email'))
      for k, v in d.items():
        if a[k] != v:
          setattr(a, k, v)
    if 'agency_id' not in d:
      a.agency_id = u''
    s.AddAgencyObject(a)
  late = []
  for r in rng.shuffled(feed.table('stops')):
    d = _clean(r)
    d['stop_lat'] = float(d['stop_lat'])
    d['stop_lon'] = float(d['stop_lon'])
    if 'location_type' in d:
      d['location_type'] = int(d['location_type'])
    if rng.chance(0.5):
      s.AddStopObject(transitfeed.Stop(field_dict=d))
    else:
      o = s.AddStop(lat=d['stop_lat'], lng=d['stop_lon'], name=d['stop_name'],
                    stop_id=d['stop_id'])
      for k, v in d.items():
        if k not in ('stop_lat', 'stop_lon', 'stop_name', 'stop_id'):
          if k == 'zone_id':
            s.fare_zones[v] = True
          setattr(o, k, v)
  for r in rng.shuffled(feed.table('routes')):
    d = _clean(r)
    d['route_type'] = int(d['route_type'])
    if 'agency_id' not in d:
      d['agency_id'] = u''
    s.AddRouteObject(transitfeed.Route(field_dict=d))
  periods = {}
  for r in feed.table('calendar'):
    p = transitfeed.ServicePeriod(r['service_id'])
    p.SetStartDate(r['start_date'])
    p.SetEndDate(r['end_date'])
    for i, day in enumerate(('monday', 'tuesday', 'wednesday', 'thursday',
                             'friday', 'saturday', 'sunday')):
      p.SetDayOfWeekHasService(i, r[day] == u'1')
    periods[r['service_id']] = p
  for r in feed.table('calendar_dates'):
    p = periods.setdefault(r['service_id'], transitfeed.ServicePeriod(r['service_id']))
    p.SetDateHasService(r['date'], r['exception_type'] == u'1')
  for k in rng.shuffled(sorted(periods)):
    s.AddServicePeriodObject(periods[k])
  pts = {}
  for r in feed.table('shapes'):
    pts.setdefault(r['shape_id'], []).append(r)
  for sid in rng.shuffled(sorted(pts)):
    sh = transitfeed.Shape(sid)
    for r in sorted(pts[sid], key=lambda r: int(r['shape_pt_sequence'])):
      d = r.get('shape_dist_traveled')
      sh.AddPoint(float(r['shape_pt_lat']), float(r['shape_pt_lon']),
                  float(d) if d else None)
    s.AddShapeObject(sh)
  trips = {}
  for r in rng.shuffled(feed.table('trips')):
    d = _clean(r)
    if rng.chance(0.5) or not _ascii(d):
      t = transitfeed.Trip(field_dict=d)
      s.AddTripObject(t)
    else:
      t = s.GetRoute(d['route_id']).AddTrip(
          headsign=d.get('trip_headsign'),
          service_period=s.GetServicePeriod(d['service_id']), trip_id=d['trip_id'])
      for k, v in d.items():
        if k not in ('route_id', 'service_id', 'trip_id', 'trip_headsign'):
          setattr(t, k, v)
    trips[d['trip_id']] = t
  by_trip = {}
  for r in feed.table('stop_times'):
    by_trip.setdefault(r['trip_id'], []).append(r)
  order = {}
  for tid in rng.shuffled(sorted(by_trip)):
    rows = sorted(by_trip[tid], key=lambda r: int(r['stop_sequence']))
    seq = 1
    for r in rows:
      kw = dict(pickup_type=r.get('pickup_type') or None,
                drop_off_type=r.get('drop_off_type') or None,
                stop_headsign=r.get('stop_headsign') or None,
                timepoint=r.get('timepoint') or None,
                shape_dist_traveled=r.get('shape_dist_traveled') or None)
      if rng.chance(0.5):
        if r['arrival_time']:
          kw['arrival_secs'] = canon.secs(r['arrival_time'])
          kw['departure_secs'] = canon.secs(r['departure_time'])
      else:
        kw['arrival_time'] = r['arrival_time'] or None
        kw['departure_time'] = r['departure_time'] or None
      trips[tid].AddStopTime(s.GetStop(r['stop_id']), **kw)
      order[id(r)] = seq
      seq += 1
  for r in feed.table('frequencies'):
    trips[r['trip_id']].AddFrequency(r['start_time'], r['end_time'],
                                     r['headway_secs'], int(r['exact_times'] or 0))
  for r in feed.table('fare_attributes'):
    s.AddFareAttributeObject(transitfeed.FareAttribute(
        r['fare_id'], r['price'], r['currency_type'], r['payment_method'],
        r['transfers'], r['transfer_duration']))
  for r in feed.table('fare_rules'):
    s.AddFareRuleObject(transitfeed.FareRule(
        r['fare_id'], r['route_id'], r['origin_id'], r['destination_id'],
        r['contains_id']))
  for r in feed.table('transfers'):
    s.AddTransferObject(transitfeed.Transfer(field_dict=_clean(r)))
  for r in feed.table('feed_info'):
    s.AddFeedInfoObject(transitfeed.FeedInfo(field_dict=_clean(r)))
  return s


def renumbered(feed):
  """The model with the stop sequence numbers the API gives: 1, 2, ..."""
  f = feed.copy()
  by_trip = {}
  for r in f.table('stop_times'):
    by_trip.setdefault(r['trip_id'], []).append(r)
  for rows in by_trip.values():
    rows.sort(key=lambda r: int(r['stop_sequence']))
    for i, r in enumerate(rows):
      r['stop_sequence'] = unicode(i + 1)
  return f
