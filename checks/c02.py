# -*- coding: utf-8 -*-
"""C02: loading does not depend on how a feed is physically represented."""
import os
import shutil
import tempfile
import time
import zipfile
from StringIO import StringIO

import java.lang.System

import transitfeed

from harness import canon, feedgen, recorder, render

CASES = {'quick': 230, 'thorough': 8000}
RULE = ('a case is one generated feed laid out and loaded three times in different random '
        'physical styles and through different sources; distinct by contents and styles')
MINIMUM = {'loads compared': 600, 'source zip path': 40, 'source file object': 40,
           'source ZipFile': 40, 'source directory': 40, 'style crlf': 100, 'style bom': 80,
           'style padded': 60, 'style quoted': 150, 'style shuffled rows': 100,
           'style shuffled columns': 100, 'style blank lines': 60, 'style no final eol': 60,
           'on-disk databases': 100, 'on-disk database files seen': 100,
           'on-disk database files gone': 100}
ASSUMPTIONS = ['the Java garbage collector finalises dropped schedules within 30 s of '
               'System.gc() calls']

databases = []


def open_feed(ctx, rng, contents, d, n):
  """Returns (Loader keywords, what to close afterwards)."""
  how = rng.pick(['zip path', 'file object', 'ZipFile', 'directory', 'directory named .zip'])
  ctx.count('source ' + how)
  order = rng.shuffled(contents)
  comp = rng.pick([zipfile.ZIP_DEFLATED, zipfile.ZIP_STORED])
  if how.startswith('directory'):
    p = os.path.join(d, 'feed%d%s' % (n, '.zip' if 'named' in how else ''))
    return {'feed_path': render.write_dir(contents, p)}
  p = render.write_zip(contents, os.path.join(d, 'in%d.zip' % n), order, comp)
  if how == 'zip path':
    return {'feed_path': p}
  if how == 'ZipFile':
    return {'zip': zipfile.ZipFile(p)}
  if rng.chance(0.5):
    f = open(p, 'rb')
    data = f.read()
    f.close()
    return {'feed_path': StringIO(data)}
  return {'feed_path': open(p, 'rb')}


def run_case(ctx, rng, i):
  d = ctx.tmpdir()
  old = tempfile.tempdir
  dbdir = tempfile.mkdtemp(prefix='db')
  tempfile.tempdir = dbdir
  try:
    _run(ctx, rng, d, dbdir)
  finally:
    tempfile.tempdir = old
    shutil.rmtree(d, ignore_errors=True)


def _run(ctx, rng, d, dbdir):
  m = feedgen.generate(rng)
  want = canon.of_feed(m)
  sig = []
  for n in range(3):
    # columns that are optional and empty come and go between layouts
    m.finish_columns(rng, rng.pick([0.0, 0.5, 1.0]))
    style = render.random_style(rng)
    for name, on in [('crlf', style.eol == '\r\n'), ('bom', style.bom), ('padded', style.pad),
                     ('quoted', style.quote), ('shuffled rows', style.shuffle_rows),
                     ('shuffled columns', style.shuffle_columns),
                     ('blank lines', style.blank), ('no final eol', not style.final_eol)]:
      if on:
        ctx.count('style ' + name)
    contents = render.files(m, style)
    kw = open_feed(ctx, rng, contents, d, n)
    memory = rng.chance(0.7)
    before = set(os.listdir(dbdir))
    rec = recorder.Recorder()
    loader = transitfeed.Loader(problems=rec.reporter(), extra_validation=True,
                                memory_db=memory, **kw)
    s = loader.Load()
    if not memory:
      ctx.count('on-disk databases')
      new = set(os.listdir(dbdir)) - before
      if new:
        ctx.count('on-disk database files seen')
    for e in rec.entries[:3]:
      ctx.fail(u'problem reported on a valid feed (layout %d, %r): %r' % (
          n, style.__dict__, e))
    for line in canon.diff(canon.of_schedule(s), want):
      ctx.fail(u'loaded schedule differs from the tables (layout %d, %r): %s' % (
          n, style.__dict__, line))
    ctx.count('loads compared')
    sig.append((style.eol, style.bom, style.quote, style.pad, memory, sorted(kw)))
    del s, loader, kw
  databases.append(dbdir)
  ctx.seen((want, sig))
  ctx.sample({'case': ctx.case, 'layouts': [repr(x) for x in sig],
              'rows': dict((t, len(m.rows[t])) for t in m.rows)})


def finish(ctx):
  """The schedules of all cases are gone: so must be their database files."""
  seen = sum(len(os.listdir(x)) for x in databases)
  left = []
  for _ in range(60):
    java.lang.System.gc()
    java.lang.System.runFinalization()
    left = [os.path.join(x, f) for x in databases for f in os.listdir(x)]
    if not left:
      break
    time.sleep(0.5)
  if left:
    ctx.fail(u'%d stop-time database files are left of schedules that are gone: %r' % (
        len(left), left[:5]))
  ctx.count('on-disk database files gone', ctx.counters.get('on-disk database files seen', 0) - len(left))
