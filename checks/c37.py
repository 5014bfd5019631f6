# -*- coding: utf-8 -*-
"""C37: the location editor moves the stops it is told to move, and saves nothing else."""
import json
import os
import runpy
import shutil
import socket
import sys
import threading
import traceback
import urllib
from StringIO import StringIO

import location_editor
import schedule_viewer
from transitfeed import util

from harness import canon, feedgen, geo, merges, recorder, render
from harness.core import u

CASES = {'quick': 420, 'thorough': 12000}
RULE = ('a case is one feed served by the real server of the editor (sometimes of the viewer), with a random session of '
        'moves, refused moves, queries and saves over sockets; distinct by the session')
MINIMUM = {'changes not saved yet': 850, 'edits asked of the viewer': 31, 'moves': 470,
           'moves refused': 150, 'pages': 140, 'saves': 150, 'stops found where they are': 160,
           'unknown stops': 170, 'stops asked for nearby': 1000, 'programs started': 15, 'starts refused': 1}
ASSUMPTIONS = ['feeds are zip files: the editor does not save directories']


class Server(schedule_viewer.StoppableHTTPServer):
  trouble = []

  def handle_error(self, request, client_address):
    self.trouble.append(traceback.format_exc())


class Editor(location_editor.LocationEditorRequestHandler):
  def log_message(self, *args):
    pass


class Viewer(schedule_viewer.ScheduleRequestHandler):
  def log_message(self, *args):
    pass


STATE = {}


def setup(ctx):
  STATE['servers'] = {}
  for name, handler in (('editor', Editor), ('viewer', Viewer)):
    srv = Server(('127.0.0.1', 0), handler)
    t = threading.Thread(target=srv.serve_forever)
    t.setDaemon(True)
    t.start()
    STATE['servers'][name] = srv
  STATE['files'] = os.path.join(ctx.repo, 'gtfsscheduleviewer', 'files')


class Console(object):
  """A console that shows ASCII only, like that of a program with its output redirected, or any text."""

  def __init__(self, encoding):
    self.encoding = encoding
    self.text = ''

  def write(self, x):
    self.text += x.encode(self.encoding) if isinstance(x, unicode) else x

  def flush(self):
    pass


def get(srv, path):
  """(status or None, body)"""
  s = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
  s.settimeout(60)
  out = []
  try:
    s.connect(('127.0.0.1', srv.socket.getsockname()[1]))
    s.sendall('GET %s HTTP/1.0\r\n\r\n' % path)
    while True:
      try:
        got = s.recv(65536)
      except socket.error:
        break
      if not got:
        break
      out.append(got)
  finally:
    s.close()
  head, sep, body = ''.join(out).partition('\r\n\r\n')
  try:
    return int(head.split('\r\n')[0].split()[1]), body
  except (IndexError, ValueError):
    return None, ''


def query(name, params):
  q = '&'.join('%s=%s' % (k, urllib.quote(v.encode('utf-8'), safe='')) for k, v in params)
  return '/json/%s?%s' % (name, q)


def ask(ctx, srv, name, params, what):
  """The decoded answer or None; a query that is lost on its way is asked again only if it did nothing."""
  del Server.trouble[:]
  for _ in range(3):
    status, body = get(srv, query(name, params))
    if status is not None or Server.trouble:
      break
    ctx.count('connections lost')
  if not ctx.check(status == 200, u'%s: %s %r is answered %r %s', what, name, params, status,
                   u'\n'.join(u(t) for t in Server.trouble)):
    return None
  return json.loads(body)


def coordinate(rng, lo, hi):
  """(text, number)"""
  x = rng.pick([rng.uniform(lo, hi), rng.uniform(lo, hi), rng.uniform(-1, 1), float(rng.randint(lo, hi)), lo, hi, 0])
  text = rng.pick([u'%.6f', u'%.12f', u'%.2f', u'%r']) % x
  if rng.chance(0.1):
    text = u' ' + text
  return text, float(text)


def bad(rng, lat, lon):
  """Parameters that make no location, although one of them may do."""
  how = rng.pick(['no lat', 'no lon', 'neither', 'text lat', 'text lon', 'empty lon', 'empty lat', 'far lat', 'far lon',
                  'nan', 'inf'])
  wrong = rng.pick([u'x', u'12,5', u'1.2.3', u'--1', u'ü'])
  if how == 'no lat':
    return [('lng', lon)], how
  if how == 'no lon':
    return [('lat', lat)], how
  if how == 'neither':
    return [], how
  if how == 'nan':
    return rng.pick([[('lat', u'nan'), ('lng', lon)], [('lat', lat), ('lng', u'nan')]]), how
  if how == 'inf':
    return rng.pick([[('lat', u'inf'), ('lng', lon)], [('lat', lat), ('lng', u'-inf')]]), how
  if how == 'text lat':
    lat = wrong
  elif how == 'text lon':
    lon = wrong
  elif how == 'empty lon':
    lon = u''
  elif how == 'empty lat':
    lat = u''
  elif how == 'far lat':
    lat = rng.pick([u'90.1', u'-91', u'1234'])
  elif how == 'far lon':
    lon = rng.pick([u'180.5', u'-181', u'99999'])
  return [('lat', lat), ('lng', lon)], how


def memory(schedule):
  return dict((s.stop_id, (s.stop_lat, s.stop_lon)) for s in schedule.GetStopList())


def at(pos, want):
  return pos is not None and all(abs(float(a) - b) <= 1e-9 for a, b in zip(pos, want))


def judge_memory(ctx, schedule, want, what):
  got = memory(schedule)
  ctx.check(sorted(got) == sorted(want), u'%s: the stops are %r', what, sorted(got))
  for s, pos in want.items():
    ctx.check(at(got.get(s), pos), u'%s: stop %r is at %r, expected %r', what, s, got.get(s), pos)


def judge_nearby(ctx, schedule, want, what):
  """The stops at the same few places, asked again and again."""
  for lat, lon in ((47.4, 8.5), (0.0, 0.0), sorted(want.values())[0]):
    far = sorted((geo.dist(lat, lon, x, y), s) for s, (x, y) in want.items())
    got = schedule.GetNearestStops(lat, lon, 1)
    if ctx.check(len(got) == 1, u'%s: nearest to %r: %r', what, (lat, lon), got):
      d = dict((s, m) for m, s in far)[got[0].stop_id]
      ctx.check(d <= far[0][0] + 1 + 1e-4 * d, u'%s: nearest to %r is %r at %.0f m, not %r', what, (lat, lon),
                got[0].stop_id, d, far[0])
  inside = sorted(s for s, (x, y) in want.items() if -45 <= x <= 45 and 0 <= y <= 90)
  got = sorted(s.stop_id for s in schedule.GetStopsInBoundingBox(45, 90, -45, 0, len(want) + 1))
  ctx.check(got == inside, u'%s: in the box are %r, expected %r', what, got, inside)
  ctx.count('stops asked for nearby')


def judge_file(ctx, path, m, want, what):
  w = merges.written(path)
  exp = canon.of_feed(m)
  for s, (lat, lon) in want.items():
    exp['stops'][s]['stop_lat'] = lat
    exp['stops'][s]['stop_lon'] = lon
  got = canon.of_feed(w)
  for s, e in exp['stops'].items():
    g = got['stops'].get(s, {})
    for c in ('stop_lat', 'stop_lon'):
      if abs(g.get(c, 999) - e[c]) < 1e-8:
        g[c] = e[c]
  for line in canon.diff(got, exp):
    ctx.fail(u'%s: the saved feed: %s' % (what, line))


def session(ctx, rng, srv, m, schedule, path, i):
  ids = m.ids('stops', 'stop_id')
  names = dict((s['stop_id'], s['stop_name']) for s in m.table('stops'))
  want = dict((s['stop_id'], (float(s['stop_lat']), float(s['stop_lon']))) for s in m.table('stops'))
  saved = dict(want)
  steps = []
  for n in range(rng.randint(3, 14)):
    step = rng.pick(['move', 'move', 'move', 'refused', 'unknown', 'save', 'find', 'home'])
    what = u'case %d step %d: %s' % (i, n, step)
    if step in ('move', 'refused'):
      s = rng.pick(ids)
      (lat, x), (lon, y) = coordinate(rng, -90, 90), coordinate(rng, -180, 180)
      params = [('lat', lat), ('lng', lon)]
      if step == 'refused':
        params, how = bad(rng, lat, lon)
        step += ': ' + how
        status, body = get(srv, query('setstoplocation', rng.shuffled([('id', s)] + params)))
        ctx.check(status != 200 or 'set to' not in body, u'%s: %r is answered %r', what, params, body)
        ctx.count('moves refused')
      else:
        told = ask(ctx, srv, 'setstoplocation', rng.shuffled([('id', s)] + params), what)
        want[s] = (x, y)
        for part in (s, names[s], lat, lon):
          ctx.check(told is not None and part in told, u'%s: answers %r, without %r', what, told, part)
        ctx.count('moves')
    elif step == 'unknown':
      s = rng.pick([u'no such stop', u'nöne', u''] + [x + u'x' for x in ids[:2]])
      if s in ids:
        continue
      told = ask(ctx, srv, 'setstoplocation', [('id', s), ('lat', u'1.5'), ('lng', u'2.5')], what)
      ctx.check(told is not None and u'not found' in told and s in told, u'%s: %r is answered %r', what, s, told)
      ctx.count('unknown stops')
    elif step == 'save':
      told = ask(ctx, srv, 'savedata', [], what)
      ctx.check(told is not None and u(path) in told, u'%s: answers %r', what, told)
      judge_file(ctx, path, m, want, what)
      saved = dict(want)
      ctx.count('saves')
    elif step == 'find':
      s = rng.pick(ids)
      lat, lon = want[s]
      got = ask(ctx, srv, 'boundboxstops', [('n', u'%r' % (lat + 1e-7)), ('e', u'%r' % (lon + 1e-7)),
                                            ('s', u'%r' % (lat - 1e-7)), ('w', u'%r' % (lon - 1e-7)),
                                            ('limit', u'%d' % (len(ids) + 1))], what)
      ctx.check(got is not None and s in [x[0] for x in got], u'%s: stop %r is not found where it is: %r', what, s, got)
      ctx.count('stops found where they are')
    else:
      status, body = get(srv, '/')
      ctx.check(status == 200 and 'forbid_editing: false' in body, u'%s: the page forbids editing (%r)', what, status)
      ctx.count('pages')
    judge_memory(ctx, schedule, want, what)
    judge_nearby(ctx, schedule, want, what)
    if saved != want:
      ctx.count('changes not saved yet')
    steps.append(step)
  judge_file(ctx, path, m, saved, u'case %d, at the end' % i)
  ctx.seen(tuple(steps))
  ctx.sample(u', '.join(steps))


def viewing(ctx, rng, srv, m, schedule, path, i):
  """The viewer has none of this."""
  f = open(path, 'rb')
  before = f.read()
  f.close()
  want = dict((s['stop_id'], (float(s['stop_lat']), float(s['stop_lon']))) for s in m.table('stops'))
  s = rng.pick(sorted(want))
  for name, params in (('setstoplocation', [('id', s), ('lat', u'1.5'), ('lng', u'2.5')]), ('savedata', [])):
    status, body = get(srv, query(name, params))
    ctx.check(status != 200 or body.strip() in ('', 'null', '[]'), u'case %d: the viewer answers %s: %r %r', i, name,
              status, body)
    ctx.count('edits asked of the viewer')
  status, body = get(srv, '/')
  ctx.check(status == 200 and 'forbid_editing: true' in body, u'case %d: the page of the viewer permits editing', i)
  judge_memory(ctx, schedule, want, u'case %d: viewer' % i)
  f = open(path, 'rb')
  ctx.check(f.read() == before, u'case %d: the viewer changed the feed', i)
  f.close()
  ctx.seen(('viewer', s))


class Started(object):
  """Stands in for the server class: remembers how it is started."""
  last = None

  def __init__(self, server_address, RequestHandlerClass):
    self.address, self.handler = server_address, RequestHandlerClass
    self.server_port = server_address[1]
    self.served = False
    Started.last = self

  def serve_forever(self):
    self.served = True


def starting(ctx, rng, d, m, path, i):
  """The command line of both programs."""
  name = rng.pick(['schedule_viewer.py', 'location_editor.py'])
  # A path with odd characters is as good as any, but quotes around a typed one are taken away
  args, typed = [], ''
  how = rng.pick(['option', 'option', 'feed', 'argument', 'typed'])
  if how == 'option':
    args = ['--feed_filename', path]
  elif how == 'feed':
    args = ['--feed=' + path]
  elif how == 'argument':
    args = [path]
  else:
    typed = rng.pick([path, '"%s"' % path]) + '\n'
  if rng.chance(0.5) and how != 'typed':
    args.insert(0, rng.pick(['-n', '--noprompt']))
  key = None
  where = os.path.join(d, 'cwd')
  os.mkdir(where)
  given = rng.pick(['none', 'default file', 'text', 'file', 'both'])
  if given in ('default file', 'both'):
    f = open(os.path.join(where, 'key.txt'), 'w')
    f.write(' default-key\n')
    f.close()
    key = 'default-key'
  if given in ('text', 'both'):
    key = 'KEY-%d' % rng.randint(1, 999)
    args = ['--key', key] + args
  elif given == 'file':
    key = 'KEY-%d' % rng.randint(1, 999)
    f = open(os.path.join(d, 'mykey'), 'w')
    f.write('\n%s\n' % key)
    f.close()
    args = ['--key=' + os.path.join(d, 'mykey')] + args
  port, host, files = 8765, 'maps.google.com', None
  if rng.chance(0.5):
    port = rng.randint(1024, 65000)
    args = ['--port=%d' % port] + args
  if rng.chance(0.3):
    host = 'maps.example.org'
    args = ['--host', host] + args
  if rng.chance(0.3):
    files = os.path.join(d, 'static')
    os.mkdir(files)
    if rng.chance(0.7):
      open(os.path.join(files, 'index.html'), 'w').close()
    args = ['--file_dir=' + files] + args
  old = sys.argv, sys.stdin, schedule_viewer.StoppableHTTPServer, util.CheckVersion, os.getcwd()
  asked = []
  Started.last, code = None, None
  what = u'case %d: %s %r' % (i, name, args)
  try:
    sys.argv, sys.stdin = [name] + args, StringIO(typed)
    schedule_viewer.StoppableHTTPServer = Started
    util.CheckVersion = lambda *x: asked.append(x)
    os.chdir(where)
    try:
      if name == 'schedule_viewer.py':
        schedule_viewer.main()
      else:
        runpy.run_path(os.path.join(ctx.repo, name), run_name='__main__')
    except SystemExit as e:
      code = e.code
  finally:
    sys.argv, sys.stdin, schedule_viewer.StoppableHTTPServer, util.CheckVersion = old[:4]
    os.chdir(old[4])
  srv = Started.last
  ctx.count('programs started')
  ctx.seen((name, how, given, port, host, files is not None))
  if files and not os.path.isfile(os.path.join(files, 'index.html')):
    ctx.check(code not in (None, 0) and srv is None, u'%s: starts without index.html (%r)', what, code)
    ctx.count('starts refused')
    return
  if not ctx.check(srv is not None and srv.served, u'%s: does not serve (%r): %s', what, code, u(sys.stdout.text)[-500:]):
    return
  for attr, value in (('feed_path', path), ('host', host), ('file_dir', files), ('key', key)):
    if value is not None:
      ctx.check(getattr(srv, attr, None) == value, u'%s: %s is %r, expected %r', what, attr, getattr(srv, attr, None), value)
  ctx.check(srv.key, u'%s: there is no key', what)
  ctx.check(os.path.isfile(os.path.join(srv.file_dir, 'index.html')), u'%s: no files at %r', what, srv.file_dir)
  ctx.check(srv.address == ('', port), u'%s: serves at %r', what, srv.address)
  handler = srv.handler.__name__
  ctx.check(handler == ('ScheduleRequestHandler' if name == 'schedule_viewer.py' else 'LocationEditorRequestHandler'),
            u'%s: requests are handled by %r', what, handler)
  ctx.check((u'localhost:%d' % port) in u(sys.stdout.text), u'%s: says %r', what, sys.stdout.text[-200:])
  for line in canon.diff(canon.of_schedule(srv.schedule), canon.of_feed(m)):
    ctx.fail(u'%s: serves another feed: %s' % (what, line))


def run_case(ctx, rng, i):
  d = ctx.tmpdir()
  out = sys.stdout
  try:
    m = feedgen.generate(rng, trips=(1, 4))
    m.finish_columns(rng)
    path = os.path.join(d, rng.pick(['f.zip', 'f\xc3\xa4.zip', 'feed 1.zip']))
    render.write_zip(render.files(m), path)
    if i % 12 == 5:
      sys.stdout = Console('utf-8')
      starting(ctx, rng, d, m, path, i)
      return
    schedule, rec = recorder.load(path, extra_validation=False, memory_db=rng.chance(0.5))
    name = 'viewer' if i % 12 == 11 else 'editor'
    srv = STATE['servers'][name]
    srv.schedule, srv.key, srv.host, srv.feed_path, srv.file_dir = schedule, 'key', 'host', path, STATE['files']
    sys.stdout = Console(rng.pick(['ascii', 'utf-8']))
    (viewing if name == 'viewer' else session)(ctx, rng, srv, m, schedule, path, i)
  finally:
    sys.stdout = out
    shutil.rmtree(d)
