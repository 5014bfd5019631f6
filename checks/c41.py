# -*- coding: utf-8 -*-
"""C41: schedules in one process do not influence one another."""
import os
import re
import shutil
import threading
import time
import zipfile

import extensions.googletransit as googletransit
import transitfeed

from harness import canon, feedgen, mutate, recorder, render
from harness.core import Rng, u

CASES = {'quick': 80, 'thorough': 5000}
RULE = ('a case is two to four feeds, valid or hostile, each loaded, asked, changed, validated, written and loaded '
        'again: alone, then all of them step by step in turns, one inside a report of another, or each in a thread '
        'of its own, then alone again; distinct by the feeds and the order of the steps')
MINIMUM = {'changes of turn': 120, 'executions inside a report': 18, 'feeds: hostile': 48,
           'feeds: nested': 30, 'feeds: threads': 54, 'feeds: turns': 28,
           'feeds: with the extension': 43, 'problems compared': 1300, 'steps compared': 1100,
           'threads': 54}
ASSUMPTIONS = ['threads share no schedule, factory or reporter', 'the text of problems without a row is not compared']

HANG = 150

# A hostile header such as _schedule makes the library write the text of an object
ADDRESS = re.compile(r'0x[0-9a-f]+')


class Listener(recorder.Recorder):
  """Records, and calls a function at each report."""

  def __init__(self):
    recorder.Recorder.__init__(self)
    self.hook = None
    self.total = 0

  def _Report(self, e):
    recorder.Recorder._Report(self, e)
    self.total += 1
    if self.hook is not None:
      self.hook(self.total)


class Job(object):
  """One feed and what is done with it."""

  def __init__(self, rng, d, k):
    self.name = u'job %d' % k
    m = feedgen.generate(rng, extra=0.3, stops=(2, 6), trips=(1, 3), routes=(1, 3), fares=0.5, freqs=0.5,
                         transfers=0.5, shapes=0.5)
    self.hostile = rng.chance(0.5)
    if self.hostile:
      for _ in range(rng.randint(1, 4)):
        mutate.cell_edit(rng, m)
    contents = render.files(m, render.random_style(rng))
    self.path = render.write_zip(contents, os.path.join(d, 'in%d.zip' % k))
    self.contents = contents
    self.out = os.path.join(d, 'out%d' % k)
    self.memory_db = rng.chance(0.7)
    self.extended = rng.chance(0.4)
    self.seed = rng.randint(0, 10 ** 9)
    order = ['ask', 'change', 'validate', 'write', 'ask', 'change']
    self.order = ['load'] + rng.shuffled(order)[:rng.randint(2, 5)] + ['write', 'reload', 'close']

  def start(self, tag):
    run = Run(self)
    run.out = '%s-%s.zip' % (self.out, tag)
    return run


def problems(entries):
  return sorted(repr((e.cls, e.type, e.file_name, e.row_num, e.column_name, e.value,
                      e.text() if e.row_num is not None else u'')) for e in entries)


def tables(path):
  z = zipfile.ZipFile(path)
  try:
    out = {}
    for n in z.namelist():
      header, rows = render.parse_table(z.read(n))
      out[n] = (sorted(header), sorted(sorted((k, ADDRESS.sub('', v)) for k, v in r.items()) for r in rows))
    return out
  finally:
    z.close()


class Run(object):
  """One execution of a job, step by step."""

  def __init__(self, job):
    self.job = job
    self.rec = Listener()
    self.rng = Rng(job.seed)
    self.seen = []
    self.todo = list(job.order)
    self.schedule = None
    self.changes = 0
    self.refused = []

  def step(self):
    name = self.todo.pop(0)
    try:
      got = getattr(self, name)()
    except Exception as e:
      # Hostile feeds may refuse a step, alone as well as among others
      got = 'raised %s: %s' % (e.__class__.__name__, ADDRESS.sub('', u(e)))
      self.refused.append(got)
    self.seen.append((name, got, problems(self.rec.take())))

  def all(self):
    while self.todo:
      self.step()

  def load(self):
    kw = dict(gtfs_factory=googletransit.GetGtfsFactory()) if self.job.extended else {}
    self.schedule = transitfeed.Loader(self.job.path, problems=self.rec.reporter(), extra_validation=True,
                                       memory_db=self.job.memory_db, **kw).Load()
    return self.schedule.__class__.__name__

  def ask(self):
    s = self.schedule
    out = [canon.of_schedule(s)]
    for kind in (s.GetAgencyList(), s.GetStopList(), s.GetRouteList(), s.GetTripList()):
      out.append(sorted(set(o.__class__.__module__ for o in kind)))
    out.append([x.stop_id for x in s.GetNearestStops(10.0, 20.0, 3)])
    out.append(sorted((t.trip_id, [x.stop_id for x in t.GetPattern()], t.GetFrequencyStartTimes(),
                       t.GetStartTime(), t.GetEndTime()) for t in s.GetTripList()))
    out.append(sorted((p.service_id, p.ActiveDates()) for p in s.GetServicePeriodList()))
    # Each is asked again and again while others are: the same stops, those of this schedule
    for t in s.GetTripList() * 3:
      for x in t.GetStopTimes():
        if x.stop is not s.stops.get(x.stop_id):
          out.append([t.trip_id, x.stop_id, x.stop and x.stop.stop_name, 'is no stop of this schedule'])
    for p in s.GetServicePeriodList():
      if s.service_periods.get(p.service_id) is not p:
        out.append([p.service_id, 'is no service period of this schedule'])
    for t in s.GetTripList():
      if t.route_id in s.routes and t not in s.routes[t.route_id].trips:
        out.append([t.trip_id, 'is no trip of its route'])
    out.append(sorted((x.stop_id, sorted((t.trip_id, n) for t, n in x._GetTripIndex())) for x in s.GetStopList()))
    out.append(sorted((r.route_id, sorted(t.trip_id for t in r.trips)) for r in s.GetRouteList()))
    a = s.GetDefaultAgency()
    out.append(a and a.agency_id)
    return out

  def change(self):
    s, rng = self.schedule, self.rng
    # Identifiers are given: those the library makes up are random where the first choice is taken
    self.changes += 1
    k = '-new-%d' % self.changes
    a = s.GetDefaultAgency()
    if a is None:
      a = s.NewDefaultAgency(agency_id='a' + k, agency_name='Default', agency_url='http://example.com',
                             agency_timezone='America/Los_Angeles')
    stop = s.AddStop(lat=rng.randint(-60, 60) + 0.5, lng=rng.randint(-100, 100) + 0.25,
                     name='New %d' % rng.randint(0, 9), stop_id='s' + k)
    stop.remark = 'r%d' % rng.randint(0, 9)
    other = s.AddStop(lat=stop.stop_lat + 0.01, lng=stop.stop_lon, name='Other %d' % rng.randint(0, 9),
                      stop_id='o' + k)
    route = s.AddRoute(short_name='N%d' % rng.randint(0, 99), long_name='Night',
                       route_type=rng.pick(['Bus', 'Tram']), route_id='r' + k)
    period = transitfeed.ServicePeriod('p' + k)
    period.SetDateHasService('2030010%d' % rng.randint(1, 9))
    s.AddServicePeriodObject(period)
    trip = route.AddTrip(s, headsign='To %d' % rng.randint(0, 9), trip_id='t' + k, service_period=period)
    setattr(trip, 'mark%d' % rng.randint(0, 3), 'x')
    t = rng.randint(0, 80000)
    trip.AddStopTime(stop, stop_time='%02d:%02d:%02d' % (t // 3600, t // 60 % 60, t % 60))
    trip.AddStopTime(other, arrival_secs=t + 600, departure_secs=t + 660)
    if rng.chance(0.5):
      trip.AddFrequency(3600, 7200, rng.pick([300, 600]), problem_reporter=s.problem_reporter)
    return [a.agency_id, a.agency_name, route.agency_id, trip.service_id, sorted(t.trip_id for t in route.trips),
            [x.stop_id for x in trip.GetPattern()], trip.GetStartTime(), trip.GetEndTime()]

  def validate(self):
    self.schedule.Validate()

  def write(self):
    self.schedule.WriteGoogleTransitFeed(self.out)
    return tables(self.out)

  def reload(self):
    kw = dict(gtfs_factory=googletransit.GetGtfsFactory()) if self.job.extended else {}
    s = transitfeed.Loader(self.out, problems=self.rec.reporter(), extra_validation=True, **kw).Load()
    return re.sub(ADDRESS, '', repr(canon.of_schedule(s)))

  def close(self):
    self.schedule = None


def compare(ctx, job, alone, run, what):
  for n, (want, got) in enumerate(zip(alone.seen, run.seen)):
    if want == got:
      continue
    name = want[0]
    if want[1] != got[1]:
      if name == 'ask' and isinstance(want[1], list) and isinstance(got[1], list):
        pairs = [(x, y) for x, y in zip(want[1], got[1]) if x != y]
      else:
        pairs = [(want[1], got[1])]
      x, y = pairs[0]
      if isinstance(x, dict) and isinstance(y, dict):
        x, y = [dict((k, v) for k, v in a.items() if v != b.get(k)) for a, b in ((x, y), (y, x))]
      ctx.fail(u'%s, %s: step %d (%s) gives %s, alone %s' % (what, job.name, n, name, u(repr(y))[:1200],
                                                             u(repr(x))[:1200]))
    else:
      extra = [p for p in got[2] if p not in want[2]][:5]
      missing = [p for p in want[2] if p not in got[2]][:5]
      ctx.fail(u'%s, %s: step %d (%s) reports %d problems, alone %d: more: %s, missing: %s' % (
          what, job.name, n, name, len(got[2]), len(want[2]), u(repr(extra)), u(repr(missing))))
    return
  ctx.equal(len(run.seen), len(alone.seen), u'%s, %s: steps' % (what, job.name))
  ctx.count('steps compared', len(run.seen))
  ctx.count('problems compared', sum(len(x[2]) for x in run.seen))
  ctx.count('steps refused', len(run.refused))
  if run.refused:
    ctx.sample({'refused': run.refused[:3]})


def in_turns(ctx, rng, jobs):
  runs = [j.start('turns') for j in jobs]
  trace = []
  while any(r.todo for r in runs):
    k = rng.pick([n for n, r in enumerate(runs) if r.todo])
    trace.append(k)
    runs[k].step()
  ctx.count('changes of turn', sum(1 for x, y in zip(trace, trace[1:]) if x != y))
  return runs, trace


def nested(ctx, rng, jobs, alone):
  """All others run while a report of the first is delivered."""
  runs = [j.start('nested') for j in jobs]
  total = alone[0].rec.total
  at = [rng.randint(1, max(1, total)) for _ in runs[1:]]

  def hook(n):
    for k, r in enumerate(runs[1:]):
      if at[k] == n and r.todo:
        # Not again if the code under test reports the same again
        ctx.count('executions inside a report')
        r.all()

  runs[0].rec.hook = hook
  runs[0].all()
  for r in runs[1:]:
    r.all()
  return runs, at


def threads(ctx, rng, jobs):
  runs = [j.start('threads') for j in jobs]
  go = threading.Event()
  failed = []

  def work(r, pauses):
    def hook(n):
      time.sleep(pauses[n % len(pauses)])
    r.rec.hook = hook
    go.wait()
    try:
      r.all()
    except BaseException as e:
      failed.append((r.job.name, e))

  ts = []
  for r in runs:
    t = threading.Thread(target=work, args=(r, [rng.pick([0, 0, 0.0005, 0.002]) for _ in range(17)]))
    t.setDaemon(True)
    t.start()
    ts.append(t)
  go.set()
  end = time.time() + HANG
  for t in ts:
    t.join(max(0.1, end - time.time()))
  if any(t.isAlive() for t in ts):
    ctx.fail(u'case %d: a thread has not ended after %d s' % (ctx.case, HANG))
  for name, e in failed:
    ctx.fail(u'case %d: the thread of %s ends with %s: %s' % (ctx.case, name, e.__class__.__name__, u(e)))
  ctx.count('threads', len(ts))
  return runs, 0


def run_case(ctx, rng, i):
  d = ctx.tmpdir()
  try:
    jobs = [Job(rng, d, k) for k in range(rng.randint(2, 4))]
    if rng.chance(0.3):
      # The same feed twice, done with otherwise
      jobs[1].path, jobs[1].contents = jobs[0].path, jobs[0].contents
    alone = [j.start('alone') for j in jobs]
    for r in alone:
      r.all()
    mode = ['turns', 'nested', 'threads', 'threads'][i % 4]
    if mode == 'turns':
      runs, how = in_turns(ctx, rng, jobs)
    elif mode == 'nested':
      runs, how = nested(ctx, rng, jobs, alone)
    else:
      runs, how = threads(ctx, rng, jobs)
    for j, a, r in zip(jobs, alone, runs):
      compare(ctx, j, a, r, u'case %d, %s' % (i, mode))
    k = rng.randint(0, len(jobs) - 1)
    again = jobs[k].start('again')
    again.all()
    compare(ctx, jobs[k], alone[k], again, u'case %d, afterwards' % i)
    ctx.count('feeds: ' + mode, len(jobs))
    ctx.count('feeds: hostile', sum(1 for j in jobs if j.hostile))
    ctx.count('feeds: with the extension', sum(1 for j in jobs if j.extended))
    ctx.seen(repr([(sorted(j.contents.items()), j.order) for j in jobs] + [how]))
    ctx.sample({'case': i, 'mode': mode, 'how': how, 'steps': [j.order for j in jobs]})
  finally:
    shutil.rmtree(d, ignore_errors=True)
