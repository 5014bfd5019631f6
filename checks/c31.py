# -*- coding: utf-8 -*-
"""C31: building a schedule through the API yields a consistent feed."""
import collections
import os
import shutil

import transitfeed

from harness import geo, recorder, render

CASES = {'quick': 900, 'thorough': 26000}
RULE = ('a case is one random history of 15 to 70 API calls building a schedule, compared with a relational '
        'model after every few calls, then validated, written and read; distinct by the history')
MINIMUM = {'small feeds written': 40, 'fares compared': 2000, 'attributes set after adding': 1600,
           'calls': 17000, 'default agencies asked for': 2000, 'default services asked for': 1700,
           'duplicates refused: agency': 72, 'duplicates refused: calendar': 67,
           'duplicates refused: fares': 44, 'duplicates refused: routes': 63,
           'duplicates refused: stops': 88, 'duplicates refused: trips': 49, 'feeds written': 400,
           'ids generated: agency': 400, 'ids generated: route': 850,
           'ids generated: service': 410, 'ids generated: stop': 2000, 'ids generated: trip': 910,
           'rows compared: agency': 810, 'rows compared: routes': 1900,
           'rows compared: stops': 4100, 'rows compared: trips': 2100, 'schedules validated': 400,
           'states compared': 2100, 'stop times compared': 7600, 'zones referred to': 640,
           'identifiers chosen': 130}
ASSUMPTIONS = ['agencies and services are only left out where the schedule has a default or can choose one',
               'the fields of agencies and services made by default are filled in before validation']

TEXTS = [u'Main', u'Z\xfcrich', u'a, b', u'say "hi"', u'\u5317', u'x y', u'0', u'12']
RULE_FIELDS = ('fare_id', 'route_id', 'origin_id', 'destination_id', 'contains_id')
DAYS = ['monday', 'tuesday', 'wednesday', 'thursday', 'friday', 'saturday', 'sunday']


class Model(object):
  def __init__(self):
    self.agency = {}      # id -> row; the id may be None
    self.stops = {}
    self.routes = {}
    self.trips = {}
    self.calendar = {}    # id -> (days, start, end, {date: type})
    self.stop_times = {}  # trip id -> [(stop id, arrival, departure, extras)]
    self.frequencies = collections.defaultdict(list)
    self.fares = {}
    self.rules = []
    self.transfers = []
    self.shapes = {}
    self.default_agency = ()
    self.default_service = ()
    self.objects = {}     # (kind, id) -> object


class Builder(object):
  def __init__(self, ctx, rng):
    self.ctx, self.rng = ctx, rng
    self.rec, reporter = recorder.new()
    self.s = transitfeed.Schedule(problem_reporter=reporter)
    self.reporter = reporter
    self.m = Model()
    self.log = []
    self.lat, self.lon = rng.uniform(20, 55), rng.uniform(-100, 100)
    self.meridian = rng.chance(0.15)
    if self.meridian:
      self.lon = -0.04
    self.clock = 5 * 3600

  def say(self, *a):
    self.log.append(a)

  def new_id(self, known):
    """An unused id; often one that a generated id could clash with."""
    for _ in range(50):
      x = self.rng.pick([u'%d' % self.rng.randint(0, 12), u'%s%d' % (self.rng.pick(TEXTS), self.rng.randint(0, 99)),
                         u'%d' % (len(known) + self.rng.randint(0, 2)), '%d' % len(known)])
      if x not in known:
        return x
    return u'id%d' % len(self.log)

  def generated(self, kind, new, known):
    self.ctx.check(isinstance(new, basestring) and new.strip() != '', '%s: generated id %r', kind, new)
    self.ctx.check(new not in known, '%s: generated id %r is not new', kind, new)
    self.ctx.count('ids generated: ' + kind)

  def no_problems(self, what):
    if self.rec.entries:
      self.ctx.fail('%s reported %r; history %r' % (what, self.rec.entries[:3], self.log[-6:]))
    self.rec.take()

  def put(self, kind, key, obj, row):
    getattr(self.m, kind)[key] = row
    self.m.objects[kind, key] = obj

  # Agencies

  def agency_row(self):
    return dict(agency_name=self.rng.pick(TEXTS), agency_url=u'http://a.example', agency_timezone=u'Europe/Berlin')

  def fill(self, kind, obj, row):
    for k, v in sorted(row.items()):
      setattr(obj, k, v)
    getattr(self.m, kind)[getattr(obj, {'agency': 'agency_id'}[kind])].update(row)

  def add_agency(self):
    m, r = self.m, self.agency_row()
    if None in m.agency:  # an agency without ID is only allowed alone
      return
    how = self.rng.pick(['given', 'given', 'object', 'default', 'default given', 'set default'])
    if not m.agency and self.rng.chance(0.15):
      how = 'none'
    key = self.new_id(m.agency)
    self.say('agency', how, key)
    args = (r['agency_name'], r['agency_url'], r['agency_timezone'])
    if how == 'none':
      if len(m.agency):
        return
      key = None
      obj = self.s.AddAgency(*args)
    elif how == 'given':
      obj = self.s.AddAgency(*args, agency_id=key)
      r['agency_id'] = key
    elif how == 'object':
      r.update(agency_id=key, agency_phone=u'555')
      obj = transitfeed.Agency(field_dict=dict(r))
      self.s.AddAgencyObject(obj, validate=self.rng.chance(0.5))
    elif how == 'default':
      obj = self.s.NewDefaultAgency(agency_name=args[0], agency_url=args[1], agency_timezone=args[2])
      key = obj.agency_id
      self.generated('agency', key, m.agency)
      r['agency_id'] = key
      m.default_agency = (key,)
    elif how == 'default given':
      obj = self.s.NewDefaultAgency(agency_name=args[0], agency_url=args[1], agency_timezone=args[2], agency_id=key)
      self.ctx.equal(obj.agency_id, key, 'id of the new default agency')
      r['agency_id'] = key
      m.default_agency = (key,)
    else:
      r['agency_id'] = key
      obj = transitfeed.Agency(field_dict=dict(r))
      self.s.SetDefaultAgency(obj)
      m.default_agency = (key,)
    self.put('agency', key, obj, r)
    self.no_problems('adding an agency (%s)' % how)

  def default_agency(self):
    """The key of the default agency as a tuple; () when there is none."""
    m = self.m
    if not m.default_agency:
      if not m.agency:
        obj = self.s.GetDefaultAgency()
        self.say('new default agency', obj.agency_id)
        self.generated('agency', obj.agency_id, m.agency)
        m.default_agency = (obj.agency_id,)
        self.put('agency', obj.agency_id, obj, dict(agency_id=obj.agency_id))
        self.fill('agency', obj, self.agency_row())
      elif len(m.agency) == 1:
        m.default_agency = (list(m.agency)[0],)
    got = self.s.GetDefaultAgency()
    self.ctx.count('default agencies asked for')
    if m.default_agency:
      self.ctx.check(got is m.objects['agency', m.default_agency[0]], 'default agency is %r, not %r', got,
                     m.default_agency)
    else:
      self.ctx.check(got is None, 'default agency is %r though none was chosen among several', got)
    return m.default_agency

  def choose_default_agency(self):
    if self.m.agency:
      key = self.rng.pick(sorted(self.m.agency))
      self.say('choose agency', key)
      self.s.SetDefaultAgency(self.m.objects['agency', key])
      self.m.default_agency = (key,)
      self.ctx.equal(len(self.s.GetAgencyList()), len(self.m.agency), 'agencies after choosing a default')
      self.no_problems('choosing the default agency')

  # Services

  def service_fields(self, obj):
    rng = self.rng
    days = [rng.chance(0.6) for _ in range(7)]
    if not any(days):
      days[2] = True
    for k, on in enumerate(days):
      obj.SetDayOfWeekHasService(k, on)
    start, end = rng.pick([('20260101', '20271231'), ('20261001', '20270301')])
    obj.SetStartDate(start)
    obj.SetEndDate(end)
    dates = {}
    for d in rng.sub(['20261105', '20261225', '20270101', '20280229'], 0.3):
      on = rng.chance(0.5)
      obj.SetDateHasService(d, on)
      dates[d] = u'1' if on else u'2'
    return (days, start, end, dates)

  def add_service(self):
    m = self.m
    how = self.rng.pick(['default', 'object', 'object', 'set default'])
    if how == 'default':
      obj = self.s.NewDefaultServicePeriod()
      key = obj.service_id
      self.generated('service', key, m.calendar)
      m.default_service = (key,)
      row = self.service_fields(obj)
    else:
      key = self.new_id(m.calendar)
      obj = transitfeed.ServicePeriod(key)
      row = self.service_fields(obj)
      if how == 'object':
        self.s.AddServicePeriodObject(obj)
      else:
        self.s.SetDefaultServicePeriod(obj)
        m.default_service = (key,)
    self.say('service', how, key)
    self.put('calendar', key, obj, row)
    self.no_problems('adding a service (%s)' % how)

  def default_service(self):
    m = self.m
    if not m.default_service:
      if not m.calendar:
        obj = self.s.GetDefaultServicePeriod()
        self.say('new default service', obj.service_id)
        self.generated('service', obj.service_id, m.calendar)
        m.default_service = (obj.service_id,)
        self.put('calendar', obj.service_id, obj, self.service_fields(obj))
      elif len(m.calendar) == 1:
        m.default_service = (list(m.calendar)[0],)
    got = self.s.GetDefaultServicePeriod()
    self.ctx.count('default services asked for')
    if m.default_service:
      self.ctx.check(got is m.objects['calendar', m.default_service[0]], 'default service is %r, not %r', got,
                     m.default_service)
    else:
      self.ctx.check(got is None, 'default service is %r though none was chosen among several', got)
    return m.default_service

  def choose_default_service(self):
    if self.m.calendar:
      key = self.rng.pick(sorted(self.m.calendar))
      self.say('choose service', key)
      self.s.SetDefaultServicePeriod(self.m.objects['calendar', key])
      self.m.default_service = (key,)
      self.no_problems('choosing the default service')

  # Stops, routes, trips

  def add_stop(self):
    m, rng = self.m, self.rng
    n = len(m.stops)
    lat, lon = geo.offset(self.lat, self.lon, 150.0 * (n % 20), 150.0 * (n // 20) + 10)
    lat, lon = round(lat, 6), round(lon, 6)
    if self.meridian and (rng.chance(0.3) or lon > 0):
      lon = 0.0
    row = dict(stop_name=u'%s %d' % (rng.pick(TEXTS), n), stop_lat=lat, stop_lon=lon)
    how = rng.pick(['none', 'none', 'given', 'string', 'object', 'fields'])
    key = self.new_id(m.stops)
    if how in ('none', 'given'):
      kw = {} if how == 'none' else {'stop_id': key}
      obj = self.s.AddStop(lat=lat, lng=lon, name=row['stop_name'], **kw)
      if how == 'none':
        key = obj.stop_id
        self.generated('stop', key, m.stops)
    elif how == 'string':
      obj = self.s.AddStop('%.6f' % lat, '%.6f' % lon, row['stop_name'])
      key = obj.stop_id
      self.generated('stop', key, m.stops)
    elif how == 'object':
      obj = transitfeed.Stop(lat, lon, row['stop_name'], key)
      if rng.chance(0.6):
        obj.zone_id = row['zone_id'] = rng.pick([u'z1', u'z2', u'z3'])
      if rng.chance(0.4):
        obj.stop_note = row['stop_note'] = rng.pick(TEXTS)
      self.s.AddStopObject(obj)
    else:
      row.update(stop_code=u'c%d' % n, zone_id=u'z9')
      obj = transitfeed.Stop(field_dict=dict(row, stop_id=key))
      self.s.AddStopObject(obj)
    self.say('stop', how, key)
    row['stop_id'] = key
    self.put('stops', key, obj, row)
    self.no_problems('adding a stop (%s)' % how)

  def add_route(self):
    m, rng = self.m, self.rng
    n = len(m.routes)
    name, kind = rng.pick([('Bus', 3), ('Tram', 0), ('Subway', 1), ('Rail', 2), (3, 3), (2, 2)])
    row = dict(route_short_name=u'R%d' % n, route_long_name=u'%s line' % rng.pick(TEXTS), route_type=kind)
    key = self.new_id(m.routes)
    if rng.chance(0.7):
      d = self.default_agency()
      if not d:
        return
      given = rng.chance(0.4)
      kw = {'route_id': key} if given else {}
      obj = self.s.AddRoute(row['route_short_name'], row['route_long_name'], name, **kw)
      if not given:
        key = obj.route_id
        self.generated('route', key, m.routes)
      agency = d[0]
    else:
      if not m.agency:
        return
      agency = rng.pick(sorted(m.agency))
      obj = transitfeed.Route(row['route_short_name'], row['route_long_name'], name, key, agency)
      if rng.chance(0.4):
        obj.route_color = row['route_color'] = u'FFEE00'
      self.s.AddRouteObject(obj)
    self.say('route', key, agency)
    row.update(route_id=key, agency_id=agency)
    self.ctx.equal(obj.agency_id, agency, 'agency of a new route')
    self.put('routes', key, obj, row)
    self.no_problems('adding a route')

  def add_trip(self):
    m, rng = self.m, self.rng
    if not m.routes or len(m.stops) < 2:
      return
    rid = rng.pick(sorted(m.routes))
    route = m.objects['routes', rid]
    key = self.new_id(m.trips)
    given = rng.chance(0.5)
    row = dict(route_id=rid)
    kw = {}
    if given:
      kw['trip_id'] = key
    if rng.chance(0.6):
      kw['headsign'] = row['trip_headsign'] = rng.pick(TEXTS)
    late = None
    if rng.chance(0.5) and m.calendar:
      sid = rng.pick(sorted(m.calendar))
      kw['service_period'] = m.objects['calendar', sid]
    else:
      d = self.default_service()
      if not d:
        late = rng.pick(sorted(m.calendar))
      sid = late or d[0]
    if rng.chance(0.85):
      args = rng.pick([(), (self.s,)])
      obj = route.AddTrip(*args, **kw)
      if late:
        obj.service_id = late
      if not given:
        key = obj.trip_id
        self.generated('trip', key, m.trips)
    else:
      obj = transitfeed.Trip(field_dict=dict(row, trip_id=key, service_id=sid))
      if 'trip_headsign' in row and rng.chance(0.5):
        obj.block_id = row['block_id'] = u'b1'
      self.s.AddTripObject(obj)
    row.update(trip_id=key, service_id=sid)
    self.say('trip', key, rid, sid)
    self.put('trips', key, obj, row)
    m.stop_times[key] = []
    # Stop times
    n = rng.randint(2, 5)
    t = self.clock
    self.clock += 60
    for k in range(n):
      st = rng.pick(sorted(m.stops))
      so = m.objects['stops', st]
      extras = {}
      if rng.chance(0.2):
        extras['pickup_type'] = rng.randint(0, 3)
      if rng.chance(0.2):
        extras['stop_headsign'] = rng.pick(TEXTS)
      if 0 < k < n - 1 and rng.chance(0.3):
        obj.AddStopTime(so, self.reporter, **extras)
        m.stop_times[key].append((st, None, None, extras))
        t += 3600
        continue
      form = rng.pick(['one', 'two', 'secs'])
      dep = t if form == 'one' else t + rng.randint(0, 90)
      text = lambda x: '%02d:%02d:%02d' % (x // 3600, x // 60 % 60, x % 60)
      if form == 'one':
        obj.AddStopTime(so, stop_time=text(t), **extras)
      elif form == 'two':
        obj.AddStopTime(so, self.reporter, arrival_time=text(t), departure_time=text(dep), **extras)
      else:
        obj.AddStopTime(so, self.reporter, arrival_secs=t, departure_secs=dep, **extras)
      m.stop_times[key].append((st, t, dep, extras))
      t = dep + rng.randint(1800, 7200)
    self.no_problems('adding a trip and its stop times')

  # The rest

  def set_attribute(self):
    m, rng = self.m, self.rng
    kind = rng.pick(['stops', 'routes', 'trips', 'agency'])
    rows = getattr(m, kind)
    if not rows:
      return
    key = rng.pick(sorted(rows))
    name, pool = rng.pick({
        'stops': [('stop_desc', TEXTS), ('stop_code', TEXTS), ('zone_id', [u'z1', u'z4', u'z5']),
                  ('my_note', TEXTS), ('stop_name', [u'Renamed %d' % len(self.log)])],
        'routes': [('route_desc', [u'A long ride']), ('route_url', [u'http://r.example']), ('my_route_note', TEXTS),
                   ('route_long_name', [u'Other line'])],
        'trips': [('trip_headsign', TEXTS), ('block_id', TEXTS), ('direction_id', [u'0', u'1']),
                  ('trip_short_name', TEXTS), ('my_trip_note', TEXTS)],
        'agency': [('agency_phone', [u'123']), ('my_agency_note', TEXTS), ('agency_lang', [u'en'])]}[kind])
    value = rng.pick(pool)
    self.say('set', kind, key, name, value)
    setattr(m.objects[kind, key], name, value)
    rows[key][name] = value
    self.ctx.count('attributes set after adding')
    self.no_problems('setting an attribute')

  def duplicate(self):
    m, rng = self.m, self.rng
    kind = rng.pick(['stops', 'routes', 'trips', 'calendar', 'agency', 'fares'])
    rows = getattr(m, kind)
    keys = sorted(k for k in rows if k is not None)
    if not keys:
      return
    key = rng.pick(keys)
    self.say('duplicate', kind, key)
    if kind == 'stops':
      self.s.AddStop(self.lat, self.lon, u'Other', stop_id=key)
    elif kind == 'routes':
      if not self.default_agency():
        return
      self.s.AddRoute(u'X', u'Other', 'Bus', route_id=key)
    elif kind == 'trips':
      if not m.calendar:
        return
      rid = rng.pick(sorted(m.routes))
      m.objects['routes', rid].AddTrip(self.s, service_period=m.objects['calendar', sorted(m.calendar)[0]],
                                       trip_id=key)
    elif kind == 'calendar':
      p = transitfeed.ServicePeriod(key)
      self.service_fields(p)
      self.s.AddServicePeriodObject(p)
    elif kind == 'agency':
      self.s.AddAgency(u'X', u'http://x.example', u'Europe/Berlin', agency_id=key)
    else:
      self.s.AddFareAttributeObject(transitfeed.FareAttribute(key, '1', 'EUR', 0, None))
    got = self.rec.take()
    self.ctx.check([e.cls for e in got] == ['DuplicateID'], 'duplicate id in %s: reported %r', kind, got)
    self.ctx.count('duplicates refused: ' + kind)

  def add_fare(self):
    m, rng = self.m, self.rng
    key = self.new_id(m.fares)
    row = (key, rng.pick([0, 1.5, 2.25]), rng.pick(['EUR', 'USD']), rng.pick([0, 1]), rng.pick([None, 0, 1, 2]),
           rng.pick([None, 0, 3600]))
    obj = transitfeed.FareAttribute(*row)
    self.s.AddFareAttributeObject(obj)
    self.say('fare', key)
    self.put('fares', key, obj, row)
    self.no_problems('adding a fare')

  def add_rule(self):
    m, rng = self.m, self.rng
    if not m.fares:
      return
    zones = sorted(set(r['zone_id'] for r in m.stops.values() if 'zone_id' in r))
    row = [rng.pick(sorted(m.fares)), None, None, None, None]
    if m.routes and rng.chance(0.5):
      row[1] = rng.pick(sorted(m.routes))
    for k in (2, 3, 4):
      if zones and rng.chance(0.5):
        row[k] = rng.pick(zones)
        self.ctx.count('zones referred to')
    self.say('rule', row)
    self.s.AddFareRuleObject(transitfeed.FareRule(*row))
    m.rules.append(tuple(row))
    self.no_problems('adding a fare rule')

  def add_frequency(self):
    m, rng = self.m, self.rng
    if not m.trips:
      return
    key = rng.pick(sorted(m.trips))
    n = len(m.frequencies[key])
    a = 3600 * (4 + 3 * n)
    b = a + rng.randint(1, 10000)
    h, x = rng.randint(1, 3000), rng.pick([0, 1])
    if rng.chance(0.5):
      text = lambda s: '%02d:%02d:%02d' % (s // 3600, s // 60 % 60, s % 60)
      m.objects['trips', key].AddFrequency(text(a), text(b), h, x, self.reporter)
    else:
      m.objects['trips', key].AddFrequency(a, b, h, x, self.reporter)
    self.say('frequency', key)
    m.frequencies[key].append((a, b, h, x))
    self.no_problems('adding a frequency')

  def add_transfer(self):
    m, rng = self.m, self.rng
    if not m.stops:
      return
    a, b = rng.pick(sorted(m.stops)), rng.pick(sorted(m.stops))
    if (a, b) in [x[:2] for x in m.transfers]:
      return
    t = rng.pick([0, 1, 2, 3])
    s = 7200 if t == 2 else None
    self.say('transfer', a, b)
    if rng.chance(0.5):
      self.s.AddTransferObject(transitfeed.Transfer(None, a, b, t, s))
    else:
      transitfeed.Transfer(self.s, a, b, t, s)
    m.transfers.append((a, b, t, s))
    self.no_problems('adding a transfer')

  def add_shape(self):
    m, rng = self.m, self.rng
    key = self.new_id(m.shapes)
    obj = transitfeed.Shape(key)
    pts = []
    for k in range(rng.randint(1, 5)):
      lat, lon = geo.offset(self.lat, self.lon, 100 * k, 50)
      pts.append((round(lat, 6), round(lon, 6)))
      obj.AddPoint(pts[-1][0], pts[-1][1], problems=self.reporter)
    self.s.AddShapeObject(obj)
    self.say('shape', key)
    self.put('shapes', key, obj, pts)
    if m.trips and rng.chance(0.7):
      t = rng.pick(sorted(m.trips))
      m.objects['trips', t].shape_id = key
      m.trips[t]['shape_id'] = key
    self.no_problems('adding a shape')

  # Comparison

  def same_objects(self, kind, listed, get):
    rows = getattr(self.m, kind)
    mine = dict((k, self.m.objects[kind, k]) for k in rows)
    self.ctx.check(len(listed) == len(mine) and set(map(id, listed)) == set(map(id, mine.values())),
                   '%s: the schedule lists %r, added were %r', kind, listed, sorted(mine))
    for k, obj in mine.items():
      self.ctx.check(get(k) is obj, '%s %r: the schedule finds %r', kind, k, get(k))

  def compare(self):
    s, m, ctx = self.s, self.m, self.ctx
    self.same_objects('agency', s.GetAgencyList(), s.GetAgency)
    self.same_objects('stops', s.GetStopList(), s.GetStop)
    self.same_objects('routes', s.GetRouteList(), s.GetRoute)
    self.same_objects('trips', s.GetTripList(), s.GetTrip)
    self.same_objects('calendar', s.GetServicePeriodList(), s.GetServicePeriod)
    self.same_objects('fares', s.GetFareAttributeList(), s.GetFareAttribute)
    self.same_objects('shapes', s.GetShapeList(), s.GetShape)
    for k in m.routes:
      want = [m.objects['trips', t] for t in m.trips if m.trips[t]['route_id'] == k]
      got = m.objects['routes', k].trips
      ctx.check(sorted(map(id, got)) == sorted(map(id, want)), 'route %r has the trips %r, expected %r', k,
                [t.trip_id for t in got], [t.trip_id for t in want])
    visits = collections.Counter()
    for k, sts in m.stop_times.items():
      trip = m.objects['trips', k]
      got = [(st.stop_id, st.arrival_secs, st.departure_secs) for st in trip.GetStopTimes()]
      ctx.check(got == [x[:3] for x in sts], 'trip %r has the stop times %r, expected %r', k, got, sts)
      ctx.check(trip.service_id == m.trips[k]['service_id'], 'trip %r has the service %r, expected %r', k,
                trip.service_id, m.trips[k]['service_id'])
      for x in sts:
        visits[x[0], k] += 1
    for k in m.stops:
      got = collections.Counter(t.trip_id for t in m.objects['stops', k].GetTrips())
      want = collections.Counter(dict((b, n) for (a, b), n in visits.items() if a == k))
      ctx.check(got == want, 'stop %r is visited by %r, expected %r', k, got, want)
    ctx.equal(sorted(
        set(s.GetFareZones()) & set(r.get('zone_id') for r in m.stops.values())),
              sorted(set(r['zone_id'] for r in m.stops.values() if 'zone_id' in r)), 'fare zones')
    ctx.equal(len(s.GetTransferList()), len(m.transfers), 'transfers')
    if m.stops:
      lats, lons = [[r[c] for r in m.stops.values()] for c in ('stop_lat', 'stop_lon')]
      ctx.equal(tuple(float(x) for x in s.GetStopBoundingBox()), (min(lats), min(lons), max(lats), max(lons)),
                'box around the stops')
    text = lambda v: u'' if v is None else v
    for k in m.fares:
      got = sorted(tuple(text(getattr(r, c)) for c in RULE_FIELDS) for r in s.GetFareAttribute(k).GetFareRuleList())
      ctx.equal(got, sorted(tuple(text(x) for x in r) for r in m.rules if r[0] == k), 'rules of fare %r' % k)
      ctx.count('fares compared')
    for k, fs in m.frequencies.items():
      ctx.equal([tuple(x) for x in m.objects['trips', k].GetFrequencyTuples()], fs, 'frequencies of trip %r' % k)
    ctx.count('states compared')

  def written(self):
    s, m, ctx = self.s, self.m, self.ctx
    s.Validate(self.reporter)
    errors = [e for e in self.rec.take() if e.type == recorder.ERROR]
    ctx.check(not errors, 'validation of the built schedule reported %r', errors[:4])
    ctx.count('schedules validated')
    d = ctx.tmpdir()
    try:
      path = os.path.join(d, 'out.zip')
      s.WriteGoogleTransitFeed(path)
      feed = render.read_feed(render.read_zip(path))
    finally:
      shutil.rmtree(d)
    text = lambda v: u'' if v is None else v if isinstance(v, basestring) else u'%s' % v
    def rows(t):
      return feed[t][1] if t in feed else []
    for t, kind, key in (('agency', 'agency', 'agency_id'), ('stops', 'stops', 'stop_id'),
                         ('routes', 'routes', 'route_id'), ('trips', 'trips', 'trip_id')):
      mine = getattr(m, kind)
      got = dict((r.get(key, u''), r) for r in rows(t))
      ctx.check(len(rows(t)) == len(mine) and sorted(got) == sorted(text(k) for k in mine),
                '%s.txt has %r, added were %r', t, sorted(got), sorted(mine))
      for k, row in mine.items():
        out = got.get(text(k), {})
        for c in set(row) | set(out):
          a, b = out.get(c, u''), text(row.get(c))
          if c == 'location_type':
            a = a or u'0'
            b = b or u'0'
          if c in ('stop_lat', 'stop_lon'):
            ctx.check(a != '' and abs(float(a) - row[c]) < 1e-9, '%s.txt %r: %s is %r, set to %r', t, k, c, a, row[c])
          else:
            ctx.check(a == b, '%s.txt %r: %s is %r, set to %r', t, k, c, a, b)
        ctx.count('rows compared: ' + t)
    got = collections.defaultdict(list)
    def hms(x):
      if x == '':
        return None
      h, mi, se = x.split(':')
      return int(h) * 3600 + int(mi) * 60 + int(se)
    for r in rows('stop_times'):
      got[r['trip_id']].append((int(r['stop_sequence']), r['stop_id'], hms(r['arrival_time']),
                                hms(r['departure_time']), r['pickup_type'], r['stop_headsign']))
    for k, sts in m.stop_times.items():
      want = [x[:3] + (text(x[3].get('pickup_type')), text(x[3].get('stop_headsign'))) for x in sts]
      have = [x[1:] for x in sorted(got.pop(k, []))]
      ctx.check(have == want, 'stop_times.txt of %r: %r, added were %r', k, have, want)
      ctx.count('stop times compared', len(want))
    ctx.check(not got, 'stop_times.txt has rows of %r', sorted(got))
    have = dict((r['service_id'], r) for r in rows('calendar'))
    ctx.check(sorted(have) == sorted(m.calendar), 'calendar.txt has %r, added were %r', sorted(have),
              sorted(m.calendar))
    dates = set((r['service_id'], r['date'], r['exception_type']) for r in rows('calendar_dates'))
    want = set()
    for k, (days, start, end, exc) in m.calendar.items():
      r = have.get(k)
      if r:
        ctx.equal([r[c] == '1' for c in DAYS] + [r['start_date'], r['end_date']], days + [start, end],
                  'calendar.txt %r' % k)
      want |= set((k, a, b) for a, b in exc.items())
    ctx.equal(dates, want, 'calendar_dates.txt')
    have = sorted((r['fare_id'], float(r['price']), r['currency_type'], r['payment_method'], r['transfers'],
                   r['transfer_duration']) for r in rows('fare_attributes'))
    ctx.equal(have, sorted((a, float(b), c, text(x), text(y), text(z)) for a, b, c, x, y, z in m.fares.values()),
              'fare_attributes.txt')
    have = sorted(tuple(r[c] for c in ('fare_id', 'route_id', 'origin_id', 'destination_id', 'contains_id'))
                  for r in rows('fare_rules'))
    ctx.equal(have, sorted(tuple(text(x) for x in r) for r in m.rules), 'fare_rules.txt')
    have = sorted((r['trip_id'], hms(r['start_time']), hms(r['end_time']), int(r['headway_secs']),
                   int(r['exact_times'])) for r in rows('frequencies'))
    ctx.equal(have, sorted((k,) + f for k, fs in m.frequencies.items() for f in fs), 'frequencies.txt')
    have = sorted(tuple(r[c] for c in ('from_stop_id', 'to_stop_id', 'transfer_type', 'min_transfer_time'))
                  if 'min_transfer_time' in r else
                  tuple(r[c] for c in ('from_stop_id', 'to_stop_id', 'transfer_type')) + (u'',)
                  for r in rows('transfers'))
    ctx.equal(have, sorted(tuple(text(x) for x in t) for t in m.transfers), 'transfers.txt')
    have = collections.defaultdict(list)
    for r in rows('shapes'):
      have[r['shape_id']].append((int(r['shape_pt_sequence']), round(float(r['shape_pt_lat']), 6),
                                  round(float(r['shape_pt_lon']), 6)))
    ctx.equal(dict((k, [x[1:] for x in sorted(v)]) for k, v in have.items()), m.shapes, 'shapes.txt')
    ctx.count('feeds written')


def empty_case(ctx, rng):
  """What is written has the files that every feed must have, however little is in it."""
  _, reporter = recorder.new()
  s = transitfeed.Schedule(problem_reporter=reporter)
  did = [0] * 4
  if rng.chance(0.5):
    s.AddAgency(u'A', u'http://a.example', u'Europe/Berlin', agency_id=u'A')
    did[0] = 1
    if rng.chance(0.5):
      s.AddRoute(u'1', u'One', 'Bus')
      did[1] = 1
  if rng.chance(0.5):
    s.AddStop(47, 8, u'Stop')
    did[2] = 1
  week = dates = False
  for k in range(rng.randint(0, 2)):
    p = transitfeed.ServicePeriod(u'S%d' % k)
    if rng.chance(0.3):
      p.SetStartDate('20260101')
      p.SetEndDate('20271231')
      p.SetWeekdayService()
      week = True
    if rng.chance(0.5):
      p.SetDateHasService('20261105')
      dates = True
    s.AddServicePeriodObject(p)
  d = ctx.tmpdir()
  try:
    path = os.path.join(d, 'out.zip')
    s.WriteGoogleTransitFeed(path)
    names = set(render.read_zip(path))
  finally:
    shutil.rmtree(d)
  what = 'written schedule with agency, route, stop %r, calendar %r, exceptions %r has the files %r' % (
      did[:3], week, dates, sorted(names))
  ctx.check('stop_times.txt' in names, what)
  ctx.check(not did[0] or 'agency.txt' in names, what)
  ctx.check(not did[1] or 'routes.txt' in names, what)
  ctx.check(not did[2] or 'stops.txt' in names, what)
  ctx.check(('calendar_dates.txt' in names) == dates, what)
  ctx.check(('calendar.txt' in names) == (week or not dates), what)
  ctx.count('small feeds written')


def chosen_ids(ctx, rng):
  """Identifiers are chosen free, even where what was chosen before is taken."""
  n = rng.randint(1, 40)
  taken = dict((str(k), k) for k in rng.pick([range(n), range(1, n + 1), range(n, 2 * n)]))
  for _ in range(12 if hasattr(transitfeed, 'FindUniqueId') else 0):
    got = transitfeed.FindUniqueId(taken)
    ctx.check(got not in taken, 'FindUniqueId chose %r, which is one of %r', got, sorted(taken))
    ctx.check(isinstance(got, basestring), 'FindUniqueId chose %r', got)
    others = [k for k in taken if k != str(len(taken))]
    if others and rng.chance(0.8):  # as many as before
      del taken[rng.pick(sorted(others))]
    taken[got] = 1
  given, n = [], rng.randint(2, 12)
  kind = rng.pick(['stop', 'route'])
  for _ in range(4):
    s = transitfeed.Schedule(memory_db=True, problem_reporter=recorder.new()[1])
    ids = given[-(n - 1):] + ['x%d' % k for k in range(n - 1 - len(given))] + [str(n)]
    s.AddAgency('A', 'http://a', 'Europe/Berlin')
    def add(id=None):
      if kind == 'stop':
        return s.AddStop(48.0, 16.0, 'S', stop_id=id).stop_id
      return s.AddRoute('R', 'Long', 'Bus', route_id=id).route_id
    for k in ids:
      add(k)
    got = add()
    ctx.check(got not in ids, 'the new %s is called %r, as one of %r', kind, got, ids)
    given.append(got)
  ctx.count('identifiers chosen')


def run_case(ctx, rng, i):
  if i % 3 == 0:
    chosen_ids(ctx, rng)
  if i % 10 == 9:
    empty_case(ctx, rng)
  b = Builder(ctx, rng)
  menu = ([b.add_agency] * rng.pick([0, 1, 2]) + [b.add_service] * rng.pick([0, 1, 2]) + [b.add_stop] * 6 +
          [b.add_route] * 3 + [b.add_trip] * 5 + [b.set_attribute] * 4 + [b.duplicate, b.add_fare, b.add_rule,
          b.add_rule, b.add_frequency, b.add_transfer, b.add_shape, b.default_agency, b.default_service,
          b.choose_default_agency, b.choose_default_service])
  for k in range(rng.randint(15, 70)):
    rng.pick(menu)()
    ctx.count('calls')
    if k % 9 == 8:
      b.compare()
  for _ in range(2):
    b.add_stop()
  if not b.m.agency:
    b.default_agency()
  b.add_route()
  b.add_trip()
  b.compare()
  b.written()
  ctx.seen(repr(b.log))
  ctx.sample(repr(b.log)[:300])
