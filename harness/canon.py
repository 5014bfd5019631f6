# -*- coding: utf-8 -*-
"""Canonical contents of a model feed and of a loaded schedule.

Both give nested dictionaries of plain values, so that two feeds are the same
exactly when the dictionaries are equal.  `of_schedule` uses only the public
accessors of transitfeed.Schedule.
"""
from harness.core import u


def secs(text):
  if text in (u'', None):
    return None
  h, m, s = text.strip().split(u':')
  return int(h) * 3600 + int(m) * 60 + int(s)


def _int(text):
  return None if text in (u'', None) else int(text)


def _float(text):
  return None if text in (u'', None) else float(text)


def _attrs(row, drop=()):
  return dict((k, v) for k, v in row.items() if v not in (u'', None) and k not in drop)


def of_feed(f):
  c = {}
  c['agency'] = dict((r.get('agency_id', u''), _attrs(r)) for r in f.table('agency'))
  stops = {}
  for r in f.table('stops'):
    d = _attrs(r, ('stop_lat', 'stop_lon', 'location_type'))
    d['stop_lat'] = float(r['stop_lat'])
    d['stop_lon'] = float(r['stop_lon'])
    d['location_type'] = _int(r.get('location_type')) or 0
    stops[r['stop_id']] = d
  c['stops'] = stops
  routes = {}
  for r in f.table('routes'):
    d = _attrs(r, ('route_type',))
    d['route_type'] = int(r['route_type'])
    routes[r['route_id']] = d
  c['routes'] = routes
  c['trips'] = dict((r['trip_id'], _attrs(r)) for r in f.table('trips'))
  st = dict((r['trip_id'], []) for r in f.table('trips'))
  for r in f.table('stop_times'):
    st[r['trip_id']].append((
        int(r['stop_sequence']), r['stop_id'], secs(r.get('arrival_time')),
        secs(r.get('departure_time')), r.get('stop_headsign') or None,
        _int(r.get('pickup_type')), _int(r.get('drop_off_type')),
        _float(r.get('shape_dist_traveled')), _int(r.get('timepoint'))))
  for v in st.values():
    v.sort()
  c['stop_times'] = st
  cal = {}
  for r in f.table('calendar'):
    cal[r['service_id']] = (r['start_date'], r['end_date'], tuple(
        r[d] == u'1' for d in ('monday', 'tuesday', 'wednesday', 'thursday',
                               'friday', 'saturday', 'sunday')), {})
  for r in f.table('calendar_dates'):
    cal.setdefault(r['service_id'], (None, None, (False,) * 7, {}))[3][
        r['date']] = int(r['exception_type'])
  c['calendar'] = cal
  fares = {}
  for r in f.table('fare_attributes'):
    fares[r['fare_id']] = (
        float(r['price']), r['currency_type'], int(r['payment_method']),
        _int(r.get('transfers')), _int(r.get('transfer_duration')))
  c['fares'] = fares
  rules = dict((fid, []) for fid in fares)
  for r in f.table('fare_rules'):
    rules[r['fare_id']].append(tuple(
        r.get(k) or None for k in ('route_id', 'origin_id', 'destination_id',
                                   'contains_id')))
  for v in rules.values():
    v.sort()
  c['rules'] = rules
  fr = dict((r['trip_id'], []) for r in f.table('trips'))
  for r in f.table('frequencies'):
    fr[r['trip_id']].append((secs(r['start_time']), secs(r['end_time']),
                             int(r['headway_secs']), _int(r.get('exact_times')) or 0))
  for v in fr.values():
    v.sort()
  c['frequencies'] = fr
  sh = {}
  for r in f.table('shapes'):
    sh.setdefault(r['shape_id'], []).append((
        int(r['shape_pt_sequence']), float(r['shape_pt_lat']),
        float(r['shape_pt_lon']), _float(r.get('shape_dist_traveled'))))
  for k in sh:
    sh[k] = [p[1:] for p in sorted(sh[k])]
  c['shapes'] = sh
  tr = []
  for r in f.table('transfers'):
    d = _attrs(r, ('transfer_type', 'min_transfer_time'))
    d['transfer_type'] = _int(r.get('transfer_type')) or 0
    if r.get('min_transfer_time'):
      d['min_transfer_time'] = int(r['min_transfer_time'])
    tr.append(d)
  c['transfers'] = sorted(sorted(d.items()) for d in tr)
  fi = f.table('feed_info')
  c['feed_info'] = _attrs(fi[-1]) if fi else None
  return c


def _obj(o, drop=()):
  d = {}
  for k in o.keys():
    if k in drop:
      continue
    v = o[k]
    if isinstance(v, str):
      v = v.decode('utf-8')
    if v != u'':
      d[u(k)] = v
  return d


def of_schedule(s):
  c = {}
  c['agency'] = dict((a['agency_id'], _obj(a)) for a in s.GetAgencyList())
  stops = {}
  for o in s.GetStopList():
    d = _obj(o, ('stop_lat', 'stop_lon', 'location_type', 'trip_index'))
    d['stop_lat'] = o.stop_lat
    d['stop_lon'] = o.stop_lon
    d['location_type'] = o.location_type
    stops[o.stop_id] = d
  c['stops'] = stops
  routes = {}
  for o in s.GetRouteList():
    d = _obj(o, ('route_type',))
    d['route_type'] = o.route_type
    routes[o.route_id] = d
  c['routes'] = routes
  c['trips'] = dict((t.trip_id, _obj(t)) for t in s.GetTripList())
  st = {}
  fr = {}
  for t in s.GetTripList():
    rows = []
    for x in t.GetStopTimes():
      rows.append((x.stop_sequence, x.stop_id, x.arrival_secs, x.departure_secs,
                   x.stop_headsign or None, x.pickup_type, x.drop_off_type,
                   x.shape_dist_traveled, x.timepoint))
    st[t.trip_id] = rows
    fr[t.trip_id] = sorted(tuple(x) for x in t.GetFrequencyTuples())
  c['stop_times'] = st
  c['frequencies'] = fr
  cal = {}
  for p in s.GetServicePeriodList():
    exc = dict((d, int(x)) for _, d, x in p.GetCalendarDatesFieldValuesTuples())
    cal[p.service_id] = (p.start_date or None, p.end_date or None,
                         tuple(bool(x) for x in p.day_of_week), exc)
  c['calendar'] = cal
  fares, rules = {}, {}
  for f in s.GetFareAttributeList():
    fares[f.fare_id] = (f.price, f.currency_type, f.payment_method, f.transfers,
                        f.transfer_duration)
    rules[f.fare_id] = sorted((r.route_id, r.origin_id, r.destination_id,
                               r.contains_id) for r in f.GetFareRuleList())
  c['fares'] = fares
  c['rules'] = rules
  c['shapes'] = dict((x.shape_id, [tuple(p) for p in x.points])
                     for x in s.GetShapeList())
  tr = []
  for o in s.GetTransferList():
    d = _obj(o, ('transfer_type', 'min_transfer_time'))
    d['transfer_type'] = o.transfer_type
    if o.min_transfer_time not in (None, u''):
      d['min_transfer_time'] = o.min_transfer_time
    tr.append(d)
  c['transfers'] = sorted(sorted(d.items()) for d in tr)
  c['feed_info'] = None if s.feed_info is None else _obj(s.feed_info)
  return c


def diff(a, b, limit=6):
  """Readable differences of two canonical contents (a: got, b: expected)."""
  out = []

  def walk(path, x, y):
    if len(out) >= limit:
      return
    if isinstance(x, dict) and isinstance(y, dict):
      for k in sorted(set(x) | set(y), key=u):
        if k not in x:
          out.append(u'%s/%s missing (expected %s)' % (path, u(k), u(repr(y[k]))[:300]))
        elif k not in y:
          out.append(u'%s/%s unexpected: %s' % (path, u(k), u(repr(x[k]))[:300]))
        else:
          walk(u'%s/%s' % (path, u(k)), x[k], y[k])
    elif (isinstance(x, (list, tuple)) and isinstance(y, (list, tuple)) and
          len(x) == len(y)):
      for i in range(len(x)):
        walk(u'%s[%d]' % (path, i), x[i], y[i])
    elif x != y or type(x) != type(y) and not (
        isinstance(x, (int, long, float)) and isinstance(y, (int, long, float)) or
        isinstance(x, basestring) and isinstance(y, basestring)):
      out.append(u'%s: got %s, expected %s' % (path, u(repr(x))[:400], u(repr(y))[:400]))
  walk(u'', a, b)
  return out
