# -*- coding: utf-8 -*-
"""C33: the command-line tools do what the library does."""
import __builtin__
import os
import re
import runpy
import shutil
import subprocess
import sys
import webbrowser
from StringIO import StringIO
from xml.sax import saxutils

import transitfeed
from transitfeed import util

from harness import canon, feedgen, geo, merges, mutate, recorder, render
from harness.core import u

CASES = {'quick': 1300, 'thorough': 40000}
RULE = ('a case is one run of a tool on generated files with random options, in a scratch directory; '
        'distinct by tool, options and what the tool had to say')
MINIMUM = {'KML of feeds with errors': 1, 'crashes': 23, 'exit codes passed on': 22,
           'feeds that are doubtful': 48, 'feeds that are faulty': 73, 'feeds that are fine': 85,
           'merges compared': 52, 'merges given up': 15, 'merges of feeds with errors': 1,
           'merges refused': 1, 'merges with a cutoff date': 18, 'places near stops': 180,
           'random queries': 27, 'refusals: extension': 1, 'refusals: missing': 1,
           'refusals: none': 1, 'refusals: number': 1, 'refusals: option': 1,
           'refusals: output': 1, 'refusals: two': 1,
           'runs of examples/google_random_queries.py': 27,
           'runs of examples/shuttle_from_xmlfeed.py': 24, 'runs of examples/table.py': 38,
           'runs of feedvalidator.py': 210, 'runs of feedvalidator_googletransit.py': 33,
           'runs of kmlparser.py': 39, 'runs of kmlwriter.py': 59, 'runs of merge.py': 92,
           'shuttle files converted': 24, 'spreadsheets converted': 38, 'stops found in KML': 230,
           'stops from KML': 87, 'tools made to crash': 1, 'tools run as programs': 1,
           'validated to the console': 51, 'validated with extension': 59,
           'validated without extension': 140, 'pages without an answer': 32,
           'releases that are newer': 23, 'releases that are not newer': 15}
ASSUMPTIONS = ['the sandbox has no network, so the version to compare with is always given']

JYTHON = '/opt/jy/bin/jython'


# --- running a tool ---------------------------------------------------------------------

class Ran(object):
  """What a run of a tool did."""


class Ending(object):
  """Flushes the files left open, as the end of a program does (Jython does not count references)."""

  def __enter__(self):
    self.files = []
    self.open = __builtin__.open

    def opened(*args):
      f = self.open(*args)
      self.files.append(f)
      return f

    __builtin__.open = opened

  def __exit__(self, *args):
    __builtin__.open = self.open
    for f in self.files:
      if not f.closed:
        f.close()


def snapshot(d):
  out = {}
  for base, dirs, names in os.walk(d):
    for name in names:
      p = os.path.join(base, name)
      f = open(p, 'rb')
      out[os.path.relpath(p, d)] = f.read()
      f.close()
  return out


def run(ctx, d, name, args, stdin='', outside=False):
  """Run a tool in directory d."""
  r = Ran()
  before = snapshot(d)
  r.opened = []
  if outside:
    ctx.count('tools run as programs')
    p = subprocess.Popen([JYTHON, os.path.join(ctx.repo, *name.split('/'))] + args, cwd=d,
                         stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         env=dict(os.environ, JYTHONPATH=ctx.repo, PYTHONPATH=ctx.repo))
    r.out, r.err = p.communicate(stdin)
    r.code = p.returncode
  else:
    old = sys.argv, sys.stdin, sys.stdout, sys.stderr, webbrowser.open, os.getcwd()
    sys.argv = [name] + args
    sys.stdin, sys.stdout, sys.stderr = StringIO(stdin), StringIO(), StringIO()
    webbrowser.open = r.opened.append
    r.code = 0
    os.chdir(d)
    try:
      try:
        with Ending():
          runpy.run_path(os.path.join(ctx.repo, *name.split('/')), run_name='__main__')
      except SystemExit as e:
        r.code = e.code
        if r.code is None:
          r.code = 0
        elif not isinstance(r.code, int):
          r.code = 1
      r.out, r.err = sys.stdout.getvalue(), sys.stderr.getvalue()
    finally:
      sys.argv, sys.stdin, sys.stdout, sys.stderr, webbrowser.open = old[:5]
      os.chdir(old[5])
  r.after = snapshot(d)
  r.new = sorted(n for n in r.after if n not in before)
  r.changed = sorted(n for n in before if r.after.get(n) != before[n])
  r.text = u(r.out) + u(r.err)
  ctx.count('runs of %s' % name)
  return r


def judge(ctx, r, what, code, new, opened=None):
  """Exit status and files as expected."""
  ok = ctx.check(r.code == code, u'%s: exit status %r, expected %r\n%s', what, r.code, code, r.text[-1500:])
  ok &= ctx.check(r.new == sorted(new), u'%s: the files written are %r, expected %r', what, r.new, sorted(new))
  ok &= ctx.check(not r.changed, u'%s: the input files %r are changed', what, r.changed)
  if opened is not None:
    ok &= ctx.check([u(x) for x in r.opened] == [u(x) for x in opened],
                    u'%s: pages opened %r, expected %r', what, r.opened, opened)
  return ok


def put_feed(rng, d, contents, name='feed', odd=True):
  """Write a feed as file or directory; returns the name."""
  name = name + rng.pick(['', ' 1', '.v2', '-\xc3\xa9'])
  if rng.chance(0.2):
    render.write_dir(contents, os.path.join(d, name))
    return name
  name += '.gtfs' if odd and rng.chance(0.05) else '.zip'
  render.write_zip(contents, os.path.join(d, name))
  return name


def version_option(rng):
  """(arguments, is a newer version announced)"""
  v, newer = rng.pick([(transitfeed.__version__, False), ('0.9.30', False), ('1.2.9', False), ('99.1.0', True),
                       ('1.10.0', True), ('1.2.100', True)])
  return rng.pick([['--latest_version=' + v], ['--latest_version', v]]), newer


def faulty(rng, **opt):
  """A feed, valid or with a few hostile edits."""
  m = feedgen.generate(rng, **opt)
  if rng.chance(0.6):
    for _ in range(rng.pick([1, 1, 2, 4])):
      mutate.cell_edit(rng, m)
  return m


def counts(text, word):
  """The number of errors or warnings a text tells."""
  m = re.search(r'(\d+) %ss?\b' % word, text)
  return int(m.group(1)) if m else 0


# --- the tools ---------------------------------------------------------------------------

def validator(ctx, rng, i):
  d = ctx.tmpdir()
  try:
    m = faulty(rng)
    try:
      contents = render.files(m, render.random_style(rng))
      name = put_feed(rng, d, contents)
    except Exception:
      return
    transit = rng.chance(0.15)
    tool = 'feedvalidator_googletransit.py' if transit else 'feedvalidator.py'
    version, newer = version_option(rng)
    args = list(version)
    report = 'validation-results.html'
    if rng.chance(0.6):
      report = rng.pick(['CONSOLE', 'console', 'r.html', 'out put.htm', '\xc3\xa9.html'])
      args += rng.pick([['-o', report], ['--output=' + report]])
    console = report.upper() == 'CONSOLE'
    prompt = rng.chance(0.3) and i >= 3
    if not prompt:
      args.append(rng.pick(['-n', '--noprompt']))
    if rng.chance(0.3):
      args.append(rng.pick(['-m', '--memory_db']))
    dup = rng.chance(0.4)
    if dup:
      args.append(rng.pick(['-d', '--duplicate_trip_check']))
    gap = 13
    if rng.chance(0.5):
      gap = rng.pick([1, 2, 5, 13, 100])
      args += rng.pick([['--service_gap_interval', str(gap)], ['--service_gap_interval=%d' % gap]])
    limit = 5
    if rng.chance(0.5):
      limit = rng.pick([1, 2, 50])
      args += rng.pick([['-l', str(limit)], ['--limit_per_type=%d' % limit]])
    factory = transitfeed
    if transit or rng.chance(0.15):
      import extensions.googletransit
      factory = extensions.googletransit
      if not transit:
        args.append('--extension=extensions.googletransit')
    ctx.count('validated with%s extension' % ('' if factory is not transitfeed else 'out'))
    # The library's own verdict.
    rec = recorder.Recorder()
    path = os.path.join(d, name)
    with merges.Quiet():
      loader = factory.GetGtfsFactory().Loader(
          path, problems=rec.reporter(), extra_validation=False, memory_db=True, check_duplicate_trips=dup,
          gtfs_factory=factory.GetGtfsFactory())
      schedule = loader.Load()
      schedule.Validate(service_gap_interval=gap, validate_children=False)
    ignored = []
    if rng.chance(0.4):
      known = sorted(set(e.cls for e in rec.entries))
      ignored = rng.sub(known, rng.pick([0.5, 1.0])) + rng.sub(['NoSuchProblem', 'MissingFile'], 0.5)
      if ignored:
        args += rng.pick([['--error_types_ignore_list=' + ','.join(ignored)],
                          ['--error_types_ignore_list', ','.join(ignored)]])
    left = [e for e in rec.entries if e.cls not in ignored]
    errors = len([e for e in left if e.type == recorder.ERROR])
    warnings = len([e for e in left if e.type == recorder.WARNING])
    stdin = ''
    if prompt and rng.chance(0.6):
      stdin = rng.pick(['%s\n', '"%s"\n', '%s']) % name
    else:
      args.insert(rng.pick([0, len(args)]), rng.pick([name, os.path.join('.', name), path]))
    r = run(ctx, d, tool, args, stdin, outside=i < 3)
    what = u'case %d: %s %s' % (i, tool, u(' '.join(args)))
    if not judge(ctx, r, what, 1 if errors or warnings else 0, [] if console else [report],
                 None if i < 3 else (['file://' + os.path.join(d, report)] if prompt and not console else [])):
      return
    ctx.count('feeds that are %s' % ('faulty' if errors else 'doubtful' if warnings else 'fine'))
    ctx.seen((tool, errors, warnings, sorted(e.key() for e in left)[:5], gap, limit, console))
    if errors or warnings:
      m = re.search(r'^ERROR: (.*) found$', r.text, re.M)
      if ctx.check(m, u'%s: the output does not sum up the problems: %s', what, r.text[-500:]):
        ctx.equal((counts(m.group(1), 'error'), counts(m.group(1), 'warning')), (errors, warnings),
                  u'%s: errors and warnings told' % what)
    else:
      ctx.check(u'feed validated successfully' in r.text, u'%s: no success is told: %s', what, r.text[-500:])
    page = r.text if console else u(r.after[report])
    if newer and 'NewVersionAvailable' not in ignored and not console:
      ctx.check(u(args[args.index('--latest_version') + 1] if '--latest_version' in args else
                  version[0].split('=')[1]) in page, u'%s: the newer version is not told', what)
    if not console:
      found = [(u(a), u(b)) for a, b in re.findall(
          r'<span class="fail">(\d+) (error|warning)s?</span>', r.after[report])]
      ctx.equal(sorted(found), sorted([(u'%d' % n, x) for n, x in ((errors, u'error'), (warnings, u'warning')) if n]),
                u'%s: errors and warnings counted in the page' % what)
      listed = ''.join(page.partition('<h3 class="issueHeader">Errors:')[1:]) or ''.join(
          page.partition('<h3 class="issueHeader">Warnings:')[1:])
      shown = {}
      for e in left:
        if e.type in (recorder.ERROR, recorder.WARNING):
          shown[(e.type, e.cls)] = shown.get((e.type, e.cls), 0) + 1
      ctx.equal(listed.count('<li>'), sum(min(limit + 1, n) for n in shown.values()),
                u'%s: problems listed in the page' % what)
    else:
      ctx.count('validated to the console')
  finally:
    shutil.rmtree(d)


def validator_refusals(ctx, rng, i):
  """What the validator cannot do it says, and the exit status tells so."""
  d = ctx.tmpdir()
  try:
    m = feedgen.generate(rng)
    name = put_feed(rng, d, render.files(m))
    base = ['-n', '--latest_version=' + transitfeed.__version__]
    kind = rng.pick(['extension', 'output', 'none', 'two', 'option', 'missing', 'number'])
    new, code = [], 2
    if kind == 'extension':
      args = base + ['--extension=' + rng.pick(['no_such_module', 'transitfeed.nothing', 'extensions.googletransi']), name]
    elif kind == 'output':
      args = base + ['-o', rng.pick(['nowhere/report.html', '.', name + '/x'])
                     if not os.path.isdir(os.path.join(d, name)) else '.', name]
    elif kind == 'none':
      args = base
    elif kind == 'two':
      args = base + [name, name]
    elif kind == 'option':
      args = base + [rng.pick(['--no_such_option', '-z']), name]
    elif kind == 'number':
      args = base + [rng.pick(['--service_gap_interval=x', '-l', '--limit_per_type=']), name]
    else:
      args = base + [rng.pick(['nothing.zip', 'no/feed', ''])]
      new, code = ['validation-results.html'], 1
    r = run(ctx, d, 'feedvalidator.py', args)
    if kind == 'extension':
      # An empty page may be left behind
      r.new = [n for n in r.new if n != 'validation-results.html']
    judge(ctx, r, u'case %d: feedvalidator.py %s' % (i, u(' '.join(args))), code, new, [])
    ctx.check(r.text.strip(), u'case %d: feedvalidator.py %s fails silently', i, ' '.join(args))
    ctx.count('refusals: ' + kind)
    ctx.seen(('refusal', kind, args[2:]))
  finally:
    shutil.rmtree(d)


def merger(ctx, rng, i):
  d = ctx.tmpdir()
  try:
    limits = (10.0, 10.0) if rng.chance(0.5) else (rng.pick([1.0, 50.0, 200.5]), rng.pick([2.0, 100.0]))
    a, b, how = merges.pair(rng, limits)
    if rng.chance(0.7):
      merges.shift(b, 1500)
    merges.finish_pair(rng, a, b)
    if rng.chance(0.15):
      mutate.cell_edit(rng, rng.pick([a, b]))
    names = [put_feed(rng, d, render.files(m, render.random_style(rng)), x) for m, x in ((a, 'old'), (b, 'new'))]
    version, newer = version_option(rng)
    args = list(version)
    if limits != (10.0, 10.0) or rng.chance(0.3):
      args += ['--largest_stop_distance=%r' % limits[0], '--largest_shape_distance', '%r' % limits[1]]
    cutoff = None
    if rng.chance(0.3):
      cutoff = feedgen.ymd(rng.pick([feedgen.today(), feedgen.today().replace(month=1, day=1)])).encode('ascii')
      args += ['--cutoff_date', cutoff]
    report = 'merge-results.html'
    if rng.chance(0.5):
      report = rng.pick(['r.html', 're port.htm'])
      args += ['--html_output_path', report]
    browser = rng.chance(0.3) and i >= 10
    if not browser:
      args.append('--no_browser')
    if rng.chance(0.3):
      args.append(rng.pick(['-m', '--memory_db']))
    out = rng.pick(['out.zip', 'mer ged.zip'])
    what = u'case %d: merge.py %s' % (i, u(' '.join(args)))
    # The library's own result.
    loaded = []
    bad = False
    for name in names:
      s, rec = recorder.load(os.path.join(d, name))
      loaded.append(s)
      bad |= any(e.type == recorder.ERROR for e in rec.entries)
    if rng.chance(0.1):
      k = rng.pick(['one', 'four', 'distance'])
      if k == 'distance':
        args.append('--no_such_distance=3')
      args += (names + [out, out])[:{'one': 2, 'four': 4}.get(k, 3)]
      r = run(ctx, d, 'merge.py', args)
      judge(ctx, r, what, 2, [], [])
      ctx.count('merges refused')
      return
    args += names + [out]
    if bad:
      r = run(ctx, d, 'merge.py', args, outside=False)
      if judge(ctx, r, what, 1, [], []):
        ctx.check(r.text.strip(), u'%s: the error is not told', what)
      ctx.count('merges of feeds with errors')
      ctx.seen(('merge', 'errors', a.rows['trips'], b.rows['trips']))
      return
    ref = None
    try:
      ref = merges.Run(loaded[0], loaded[1], limits, True, cutoff)
    except Exception as e:
      ctx.fail(u'%s: the library raises %r' % (what, e))
      return
    r = run(ctx, d, 'merge.py', args, outside=i < 10)
    opened = None if i < 10 else ['file://' + os.path.join(d, report)] if browser else []
    if ref.result:
      if not judge(ctx, r, what, 0, [report, out], opened):
        return
      ref.merged.WriteGoogleTransitFeed(os.path.join(d, 'ref.zip'))
      got, want = merges.written(os.path.join(d, out)), merges.written(os.path.join(d, 'ref.zip'))
      for x in canon.diff(canon.of_feed(got), canon.of_feed(want)):
        ctx.fail(u'%s: the written feed differs: %s' % (what, x))
      ctx.count('merges compared')
      if cutoff:
        ctx.count('merges with a cutoff date')
    else:
      judge(ctx, r, what, r.code, [report], opened)
      ctx.count('merges given up')
    page = u(r.after[report])
    for name in names:
      ctx.check(saxutils.escape(u(name)) in page, u'%s: the page does not name %s', what, u(name))
    ctx.seen(('merge', ref.result, cutoff, limits, len(page), sorted(a.rows)))
  finally:
    shutil.rmtree(d)


def kmlwriter(ctx, rng, i):
  import kmlwriter as library
  d = ctx.tmpdir()
  try:
    m = feedgen.generate(rng, shapes=0.7, stations=0.5)
    if rng.chance(0.2):
      mutate.cell_edit(rng, m)
    name = put_feed(rng, d, render.files(m, render.random_style(rng)))
    w = library.KMLWriter()
    w.altitude_per_sec = 1.0
    args = []
    if rng.chance(0.5):
      args.append(rng.pick(['-t', '--showtrips']))
      w.show_trips = True
    if rng.chance(0.5):
      w.altitude_per_sec = rng.pick([0.0, 0.5, 2.0, 10.0])
      args += rng.pick([['-a', str(w.altitude_per_sec)], ['--altitude_per_sec=%s' % w.altitude_per_sec]])
    if rng.chance(0.5):
      args.append(rng.pick(['-s', '--splitroutes']))
      w.split_routes = True
    if rng.chance(0.3):
      w.date_filter = feedgen.ymd(feedgen.today()).encode('ascii')
      args += rng.pick([['-d', w.date_filter], ['--date_filter=' + w.date_filter]])
    if rng.chance(0.4):
      args.append(rng.pick(['-p', '--display_shape_points']))
      w.shape_points = True
    if rng.chance(0.4):
      args.append('--show_stop_hierarchy')
      w.show_stop_hierarchy = True
    what = u'case %d: kmlwriter.py %s %s' % (i, u(' '.join(args)), u(name))
    s, rec = recorder.load(os.path.join(d, name), extra_validation=False)
    args.append(name)
    if rng.chance(0.5):
      out = rng.pick(['o.kml', 'o p.kml', '\xc3\xa9.kml'])
      args.append(out)
    else:
      out = (name.rsplit('.', 1)[0] if '.' in name else name) + '.kml'
    if any(e.type == recorder.ERROR for e in rec.entries):
      r = run(ctx, d, 'kmlwriter.py', args)
      if judge(ctx, r, what, 1, []):
        ctx.check(r.text.strip(), u'%s: the error is not told', what)
      ctx.count('KML of feeds with errors')
      return
    r = run(ctx, d, 'kmlwriter.py', args)
    if not judge(ctx, r, what, 0, [out]):
      return
    ref = os.path.join(d, 'ref')
    with merges.Quiet():
      w.Write(s, ref)
    f = open(ref, 'rb')
    want = f.read()
    f.close()
    # The order of patterns is that of a hash table.
    ctx.check(sorted(r.after[out].split('\n')) == sorted(want.split('\n')),
              u'%s: the file differs from what the library writes', what)
    for s in m.table('stops'):
      if s.get('location_type', u'') in (u'', u'0') and s.get('stop_name', u'').strip():
        ctx.check(saxutils.escape(s['stop_name'].strip()) in u(r.after[out]) or u'&' in s['stop_name'],
                  u'%s: stop %s is not drawn', what, s['stop_id'])
        ctx.count('stops found in KML')
    ctx.seen(('kml', args[:-1], len(want)))
  finally:
    shutil.rmtree(d)


def kmlparser(ctx, rng, i):
  d = ctx.tmpdir()
  try:
    places = []
    text = [u'<?xml version="1.0" encoding="UTF-8"?>', u'<kml xmlns="http://earth.google.com/kml/2.1"><Document>']
    for k in range(rng.randint(1, 8)):
      name = u'%s %d' % (feedgen.words(rng), k)
      lat, lon = round(rng.uniform(-80, 80), 6), round(rng.uniform(-179, 179), 6)
      places.append((name, lat, lon))
      folder = rng.chance(0.3)
      text.append(u'%s<Placemark><name>%s</name><Point><coordinates>%r,%r%s</coordinates></Point></Placemark>%s' % (
          u'<Folder>' if folder else u'', saxutils.escape(name), lon, lat, rng.pick([u'', u',0', u',12.5']),
          u'</Folder>' if folder else u''))
    text.append(u'</Document></kml>')
    f = open(os.path.join(d, 'in.kml'), 'wb')
    f.write(u'\n'.join(text).encode('utf-8'))
    f.close()
    r = run(ctx, d, 'kmlparser.py', ['in.kml', 'out.zip'])
    what = u'case %d: kmlparser.py' % i
    if judge(ctx, r, what, 0, ['out.zip'], []):
      m = merges.written(os.path.join(d, 'out.zip'))
      got = sorted((s['stop_name'], round(float(s['stop_lat']), 6), round(float(s['stop_lon']), 6))
                   for s in m.table('stops'))
      ctx.equal(got, sorted(places), u'%s: the stops' % what)
      ctx.count('stops from KML', len(places))
      ctx.seen(('kmlparser', places))
    r = run(ctx, d, 'kmlparser.py', rng.pick([[], ['in.kml'], ['in.kml', 'a.zip', 'b.zip']]))
    judge(ctx, r, what + u' with wrong arguments', 2, [])
  finally:
    shutil.rmtree(d)


def times_of(m, trip_id):
  return [(t['stop_id'], t['arrival_time'], t['departure_time'])
          for t in sorted((t for t in m.table('stop_times') if t['trip_id'] == trip_id),
                          key=lambda t: int(t['stop_sequence']))]


def patterns(m, names):
  """Trips as they appear to riders: route names -> list of [(stop name, time)]."""
  routes = dict((r['route_id'], (r.get('route_short_name', u''), r.get('route_long_name', u'')))
                for r in m.table('routes'))
  out = {}
  for t in m.table('trips'):
    st = times_of(m, t['trip_id'])
    if any(x[1] != x[2] for x in st):
      st = ['arrival and departure differ'] + st
    out.setdefault(routes[t['route_id']], []).append(
        (t.get('trip_headsign', u''), [(names[x[0]], canon.secs(x[1])) for x in st]))
  for k in out:
    out[k].sort()
  return out


def spreadsheet(ctx, rng, i):
  """examples/table.py: a spreadsheet becomes a feed."""
  d = ctx.tmpdir()
  try:
    lines = []
    stops = []
    for k in range(rng.randint(2, 7)):
      stops.append((u'%s %d' % (feedgen.words(rng).replace(u'\t', u' ').strip(), k),
                    round(rng.uniform(-80, 80), 5), round(rng.uniform(-179, 179), 5)))
    weekday = rng.chance(0.7)
    start, end = u'20260105', u'20261120'
    added = sorted(set(u'202603%02d' % rng.randint(1, 31) for _ in range(rng.randint(0 if weekday else 1, 3))))
    removed = sorted(set(u'202604%02d' % rng.randint(1, 30) for _ in range(rng.randint(0, 3))))
    opts = [[u'agency_name', u'My Ag\xe9ncy' if rng.chance(0.3) else u'My Agency'],
            [u'agency_url', u'http://a.example/'], [u'agency_timezone', u'America/Los_Angeles']]
    agency = opts[0][1]
    if weekday:
      opts.append([rng.pick([u'weekday', u'Weekday'])])
    opts.append([u'start_date', start])
    opts.append([u'end_date', end])
    opts += [[u'add_date', x] for x in added] + [[u'remove_date', x] for x in removed]
    if rng.chance(0.3):
      opts.append([u'a remark', u'of no meaning'])
    sheet = [[[rng.pick([u'options', u'Options'])]] + rng.shuffled(opts),
             [[rng.pick([u'stops', u'Stops']), u'lat', u'lng']] + [[n, repr(a), repr(o)] for n, a, o in stops]]
    want = {}
    for k in range(rng.randint(1, 3)):
      names = (u'%d' % k, u'Line %s' % k)
      rows = [list(names)]
      seq = rng.shuffled(stops)[:rng.randint(2, len(stops))]
      n = rng.randint(1, 4)
      starts = [3600 * rng.randint(4, 22) + 60 * rng.randint(0, 59) for _ in range(n)]
      table = []
      for x, s in enumerate(seq):
        row = [rng.pick([s[0], s[0].encode('utf-8').upper().decode('utf-8')])]
        for c in range(n):
          skip = 1 < x < len(seq) and rng.chance(0.2)
          secs = starts[c] + 300 * x
          row.append(u'' if skip else feedgen.hms(secs))
        table.append(row)
      for c in range(n):
        want.setdefault(names, []).append((u'My headsign', [(s[0], starts[c] + 300 * x) for x, s in enumerate(seq)
                                                            if table[x][c + 1]]))
      want[names].sort()
      if rng.chance(0.3):
        table = rng.shuffled(table)
      sheet.append(rows + table)
    text = u'\n\n'.join(u'\n'.join(u'\t'.join(r) for r in t) for t in sheet) + rng.pick([u'', u'\n'])
    f = open(os.path.join(d, 'in.txt'), 'wb')
    f.write(text.encode('utf-8'))
    f.close()
    args = ['--input', 'in.txt']
    out = 'feed.zip'
    if rng.chance(0.7):
      out = 'x.zip'
      args += ['--output', out]
    what = u'case %d: table.py on\n%s' % (i, text)
    # Trailing white space is removed from each line, which shortens rows
    short = [t for t in sheet[2:]
             if len(set(len(u'\t'.join(r).rstrip().split(u'\t')) for r in t[1:])) > 1]
    try:
      r = run(ctx, d, 'examples/table.py', args)
    except TypeError as e:
      if not short or u'string' not in u(str(e)):
        raise
      ctx.finding('table-short-columns', u'%s: a column ends before the others: %s' % (what, e))
      return
    if not judge(ctx, r, what, 0, [out], []):
      return
    m = merges.written(os.path.join(d, out))
    names = {}
    for s in m.table('stops'):
      names[s['stop_id']] = s['stop_name']
    got_stops = sorted((s['stop_name'], round(float(s['stop_lat']), 5), round(float(s['stop_lon']), 5))
                       for s in m.table('stops'))
    ctx.equal(got_stops, sorted(stops), u'%s: the stops' % what)
    ctx.equal(patterns(m, names), want, u'%s: the trips' % what)
    ctx.equal([x['agency_name'] for x in m.table('agency')], [agency], u'%s: the agency' % what)
    dates = sorted((x['date'], x['exception_type']) for x in m.table('calendar_dates'))
    ctx.equal(dates, sorted([(x, u'1') for x in added] + [(x, u'2') for x in removed]), u'%s: the dates' % what)
    cal = m.table('calendar')
    days = (u'monday', u'tuesday', u'wednesday', u'thursday', u'friday', u'saturday', u'sunday')
    got = [tuple(c[x] for x in days) + (c['start_date'], c['end_date']) for c in cal]
    ctx.check((not cal and not weekday) or got == [(u'1' if weekday else u'0',) * 5 + (u'0', u'0', start, end)],
              u'%s: the calendar is %r', what, got)
    ctx.count('spreadsheets converted')
    ctx.seen(('table', text))
  finally:
    shutil.rmtree(d)


def shuttle(ctx, rng, i):
  """examples/shuttle_from_xmlfeed.py: XML becomes a feed."""
  d = ctx.tmpdir()
  try:
    stops = [(u's%d' % k, u'%s %d' % (feedgen.words(rng).strip(), k), round(37 + 0.01 * k, 5),
              round(-122 + 0.01 * rng.randint(0, 9), 5)) for k in range(rng.randint(2, 8))]
    x = [u'<?xml version="1.0" encoding="UTF-8"?>', u'<shuttle><office><stops>']
    for s in stops:
      x.append(u'<stop id=%s name=%s lat=%s lng=%s/>' % tuple(
          saxutils.quoteattr(v) for v in (s[0], s[1], repr(s[2]), repr(s[3]))))
    x.append(u'</stops>')
    by = dict((s[0], s[1]) for s in stops)
    want, n = {}, 0
    for g in range(rng.randint(1, 3)):
      test = g > 0 and rng.chance(0.3)
      gname = u'Test' if test else u'Line %s %d' % (feedgen.words(rng).strip(), g)
      x.append(u'<shuttleGroup name=%s>' % saxutils.quoteattr(gname))
      for k in range(rng.randint(1, 3)):
        n += 1
        head = u'To %s' % feedgen.words(rng).strip()
        seq = rng.shuffled(stops)[:rng.randint(2, len(stops))]
        start = 3600 * rng.randint(5, 22)
        times = [(start + 400 * c, s[0]) for c, s in enumerate(seq)]
        x.append(u'<route id="%d" name=%s>' % (n, saxutils.quoteattr(head)))
        for t, s in rng.shuffled(times):
          x.append(u'<schedule time="%d" stopId="%s"/>' % (t * 1000, s))
        x.append(u'</route>')
        if not test:
          want.setdefault((u'', gname), []).append((head, [(by[s], t) for t, s in times]))
      x.append(u'</shuttleGroup>')
    x.append(u'</office></shuttle>')
    for k in want:
      want[k].sort()
    f = open(os.path.join(d, 'in.xml'), 'wb')
    f.write(u'\n'.join(x).encode('utf-8'))
    f.close()
    pat = rng.pick(['out.zip', 'gbusYYYYMMDD.zip'])
    out = pat.replace('YYYYMMDD', feedgen.ymd(feedgen.today()).encode('ascii'))
    args = ['--input', os.path.join(d, 'in.xml'), '--output', os.path.join(d, pat)]
    if rng.chance(0.3):
      args += ['--execute', 'cp %%(path)s %s/copy-%%(name)s' % d]
    r = run(ctx, d, 'examples/shuttle_from_xmlfeed.py', args)
    what = u'case %d: shuttle_from_xmlfeed.py' % i
    new = [out] + (['copy-' + out] if '--execute' in args else [])
    if not judge(ctx, r, what, 0, new, []):
      return
    m = merges.written(os.path.join(d, out))
    names = dict((s['stop_id'], s['stop_name']) for s in m.table('stops'))
    ctx.equal(patterns(m, names), want, u'%s: the trips' % what)
    ctx.equal(sorted((s['stop_name'], round(float(s['stop_lat']), 5), round(float(s['stop_lon']), 5))
                     for s in m.table('stops')), sorted(s[1:] for s in stops), u'%s: the stops' % what)
    if len(new) == 2:
      ctx.check(r.after[new[0]] == r.after[new[1]], u'%s: the copy differs', what)
    ctx.count('shuttle files converted')
    ctx.seen(('shuttle', want))
  finally:
    shutil.rmtree(d)


def builder(ctx, rng, i):
  d = ctx.tmpdir()
  try:
    out = rng.pick(['google_transit.zip', 'b.zip'])
    r = run(ctx, d, 'examples/small_builder.py', [] if out == 'google_transit.zip' else ['--output', out])
    what = u'case %d: small_builder.py' % i
    if not judge(ctx, r, what, 0, [out], []):
      return
    m = merges.written(os.path.join(d, out))
    names = dict((s['stop_id'], s['stop_name']) for s in m.table('stops'))
    ctx.equal(patterns(m, names), {(u'22', u'Civic Center Express'): [
        (u'To Downtown', [(u'Suburbia', 32400), (u'Civic Center', 33300)]),
        (u'To Suburbia', [(u'Suburbia', 63000), (u'Civic Center', 63900)])]}, u'%s: the trips' % what)
    _, rec = recorder.load(os.path.join(d, out))
    bad = [e for e in rec.entries if e.type == recorder.ERROR]
    ctx.check(not bad, u'%s: the feed has errors: %r', what, bad)
    ctx.count('example feeds built')
  finally:
    shutil.rmtree(d)


def queries(ctx, rng, i):
  """examples/google_random_queries.py: links between places near stops."""
  d = ctx.tmpdir()
  try:
    m = feedgen.generate(rng)
    name = put_feed(rng, d, render.files(m, render.random_style(rng)), odd=False)
    out, limit = 'google_random_queries.html', 50
    args = [rng.pick([name, os.path.join(d, name)])]
    if rng.chance(0.6):
      out = 'q.html'
      args += rng.pick([['-o', out], ['--output=' + out]])
    if rng.chance(0.6):
      limit = rng.pick([1, 2, 3, 10])
      args += rng.pick([['-l', str(limit)], ['--limit=%d' % limit]])
    what = u'case %d: google_random_queries.py %s' % (i, u(' '.join(args)))
    try:
      r = run(ctx, d, 'examples/google_random_queries.py', args)
    except UnicodeError as e:
      if all(ord(c) < 128 for c in u(name)):
        raise
      ctx.finding('queries-non-ascii', u'%s: the path is not ASCII: %s' % (what, e))
      return
    if not judge(ctx, r, what, 0, [out], []):
      return
    links = [[u(x) for x in g] for g in re.findall(r"<a href='([^']*)'>from:(\S+) to:(\S+) on", r.after[out])]
    places = [(float(s['stop_lat']), float(s['stop_lon'])) for s in m.table('stops')
              if s.get('stop_lat') and s.get('stop_lon')]
    ctx.equal(len(links), min(limit, len(places) - 1), u'%s: the number of links' % what)
    for href, a, b in links:
      ctx.check(u'saddr=' + a.replace(u',', u'%2C') in href and u'daddr=' + b.replace(u',', u'%2C') in href,
                u'%s: the link %s is not from %s to %s', what, href, a, b)
      for x in (a, b):
        lat, lon = [float(v) for v in x.split(u',')]
        near = min(geo.dist(lat, lon, p, q) for p, q in places)
        ctx.check(near <= 760, u'%s: %s is %s m from every stop', what, x, near)
        ctx.count('places near stops')
    ctx.count('random queries')
    ctx.seen(('queries', args[1:], places))
  finally:
    shutil.rmtree(d)


class Odd(object):
  def __init__(self, text):
    self.text = text

  def __str__(self):
    if self.text is None:
      raise ValueError('no text')
    return self.text


def crash(ctx, rng, i):
  """RunWithCrashHandler around functions that end in all ways."""
  d = ctx.tmpdir()
  old = sys.stdin, sys.stdout, sys.stderr, os.getcwd()
  what = u'case %d: the crash handler' % i
  kind = rng.pick(['code', 'exit', 'crash', 'crash', 'crash', 'tool'])
  try:
    if kind == 'tool':
      tool = rng.pick(['feedvalidator.py', 'merge.py', 'kmlwriter.py', 'kmlparser.py'])
      args = {'feedvalidator.py': ['-n', '--latest_version=1.0.0', 'IWantMyvalidation-crash.txt'],
              'merge.py': ['--no_browser', 'IWantMyCrash', 'b', 'c'],
              'kmlwriter.py': ['IWantMyCrash', 'x'], 'kmlparser.py': ['IWantMyCrash', 'x']}[tool]
      r = run(ctx, d, tool, args, outside=rng.chance(0.1))
      r.new = [n for n in r.new if n != 'validation-results.html']
      if judge(ctx, r, u'%s in %s' % (what, tool), 127, ['transitfeedcrash.txt'], []):
        ctx.check(u'Exception: For test' in u(r.after['transitfeedcrash.txt']),
                  u'%s in %s: the report does not tell the exception', what, tool)
        ctx.check(u'Yikes' in r.text, u'%s in %s: nothing is told', what, tool)
      ctx.count('tools made to crash')
      ctx.seen(('crash', tool))
      return
    value = rng.pick([0, 1, 2, None, 77])
    message = rng.pick([u'plain', u'caf\xe9 \u20ac', u'', u'50% %s', u'a\nb'])
    marker = 'local-%d' % rng.randint(0, 10 ** 6)
    cls = rng.pick([ValueError, KeyError, Exception, RuntimeError, UnicodeError, AssertionError])
    as_bytes = rng.chance(0.5)

    def inner(depth, local_value, nice):
      unicode_local = message
      bytes_local = message.encode('utf-8')
      odd_local = Odd(rng.pick([None, 'odd', 'x' * 3000]))
      if depth:
        return inner(depth - 1, local_value, nice)
      if kind == 'code':
        return value
      if kind == 'exit':
        sys.exit(value)
      raise cls(bytes_local if as_bytes else message)

    sys.stdin, sys.stdout, sys.stderr = StringIO(''), StringIO(), StringIO()
    os.chdir(d)
    code, raised = 'no exit', None
    try:
      with Ending():
        util.RunWithCrashHandler(lambda: inner(rng.randint(0, 3), marker, ['x' * rng.randint(0, 2000)]))
    except SystemExit as e:
      code = e.code
    except Exception as e:
      raised = e
    text = u(sys.stdout.getvalue()) + u(sys.stderr.getvalue())
    ctx.seen(('crash', kind, message, cls, value, as_bytes))
    if not ctx.check(raised is None, u'%s itself raises %r on %s(%r)', what, raised, cls.__name__, message):
      return
    if kind in ('code', 'exit'):
      ctx.check(code == value, u'%s: the exit status is %r, not %r', what, code, value)
      ctx.check(not os.listdir(d), u'%s: files %r are left', what, os.listdir(d))
      ctx.count('exit codes passed on')
      return
    ctx.check(code == 127, u'%s: the exit status is %r after a crash', what, code)
    files = snapshot(d)
    if ctx.check(files.keys() == ['transitfeedcrash.txt'], u'%s: files %r', what, files.keys()):
      report = u(files['transitfeedcrash.txt'])
      for x in (cls.__name__, marker, transitfeed.__version__, u'c33.py'):
        ctx.check(u(x) in report, u'%s: %s is not in the report: %s', what, x, report[:3000])
      if message == u'plain':
        ctx.check(message in report.split(u'\n')[-2], u'%s: the message is not in the report', what)
      ctx.check(len(report) < 60000, u'%s: the report has %d characters', what, len(report))
    ctx.check(u'Yikes' in text, u'%s: nothing is told', what)
    ctx.count('crashes')
  finally:
    sys.stdin, sys.stdout, sys.stderr = old[:3]
    os.chdir(old[3])
    shutil.rmtree(d)


def released(ctx, rng, i):
  """What is said of the newest release, as the project page has it."""
  import urllib2
  from transitfeed import util
  have = tuple(int(x) for x in transitfeed.__version__.split('.'))
  for _ in range(40):
    v = rng.pick([have, have[:2] + (have[2] + rng.randint(-9, 200),), have[:2] + (rng.randint(0, 9),),
                  (have[0], have[1] + 1, 0), (have[0] + 1, 0, 0), (0, 99, 99), have[:1] + (have[1], have[2] * 10),
                  (rng.randint(0, 12), rng.randint(0, 12), rng.randint(0, 120))])
    v = (v[0], v[1], max(0, v[2]))
    text = '.'.join(str(x) for x in v)
    kind = rng.pick(['page', 'page', 'page', 'bare', 'empty', 'away', 'refused', 'given'])
    page = rng.pick(['version=%s', 'The latest\nversion=%s\nversion=0.0.1', '<p>version=%s</p>', 'x version=%s.']) % text
    if kind in ('bare', 'empty'):
      page = text if kind == 'bare' else ''
    asked = []
    def answer(request, *args, **kw):
      asked.append(request.get_full_url() if hasattr(request, 'get_full_url') else request)
      if kind == 'away':
        raise urllib2.URLError('no route')
      if kind == 'refused':
        raise urllib2.HTTPError(asked[-1], 404, 'not there', {}, None)
      return StringIO(page)
    rec = recorder.Recorder()
    old = urllib2.urlopen
    urllib2.urlopen = answer
    try:
      util.CheckVersion(rec.reporter(), text if kind == 'given' else None)
    finally:
      urllib2.urlopen = old
    ctx.equal(len(asked), 0 if kind == 'given' else 1, 'requests for the newest version')
    got = [(e.cls, e.type) for e in rec.entries]
    if kind in ('page', 'given'):
      want = [('NewVersionAvailable', recorder.NOTICE)] if v > have else []
      ctx.count('releases that are %s' % ('newer' if v > have else 'not newer'))
      if want and got == want:
        ctx.check(text in u(rec.entries[0].text()), 'the notice does not name %s: %r', text, rec.entries[0].text())
    else:
      want = [('OtherProblem', recorder.NOTICE)]
      ctx.count('pages without an answer')
    ctx.check(got == want, 'version %s (%s, page %r): reported %r, expected %r', text, kind, page, got, want)
    ctx.seen((kind, v))


def run_case(ctx, rng, i):
  if 30 <= i < 34:
    released(ctx, rng, i)
    return
  if i == 20:
    builder(ctx, rng, i)
  elif i < 3:
    validator(ctx, rng, i)
  elif 8 <= i < 10:
    merger(ctx, rng, i)
  else:
    rng.pick([validator] * 7 + [validator_refusals, merger, merger, merger, kmlwriter, kmlwriter, kmlparser,
                               spreadsheet, spreadsheet, shuttle, queries, crash, crash])(ctx, rng, i)
