# -*- coding: utf-8 -*-
"""C03: no feed content can crash loading and validation."""
import os
import shutil

import transitfeed

from harness import feedgen, mutate, recorder, render
from harness.core import u

CASES = {'quick': 1500, 'thorough': 60000}
RULE = ('a case is a generated feed after 1-6 random edits of its cells, rows, headers, bytes '
        'or files, loaded with full validation; distinct by its bytes')
MINIMUM = {'hostile feeds loaded': 1300, 'problems rendered': 4000, 'problem kinds seen': 15,
           'edited cells and headers': 1500, 'edited bytes and files': 700}
kinds = set()


def run_case(ctx, rng, i):
  d = ctx.tmpdir()
  try:
    _run(ctx, rng, d)
  finally:
    shutil.rmtree(d, ignore_errors=True)


def _run(ctx, rng, d):
  m = feedgen.generate(rng, extra=0.2, stops=(2, 6), trips=(1, 3), routes=(1, 3))
  log = []
  n = rng.randint(1, 6)
  nbytes = rng.pick([0, 0, 1, 1, 2])
  for _ in range(n):
    log.append(mutate.cell_edit(rng, m))
    ctx.count('edited cells and headers')
  contents = render.files(m, render.random_style(rng))
  for _ in range(nbytes):
    if contents:
      log.append(mutate.byte_edit(rng, contents))
      ctx.count('edited bytes and files')
  if rng.chance(0.3) and not any('/' in x for x in contents):
    try:
      path = render.write_dir(contents, os.path.join(d, 'feed'))
    except (IOError, OSError, UnicodeError):
      path = render.write_zip(contents, os.path.join(d, 'in.zip'))
  else:
    path = render.write_zip(contents, os.path.join(d, 'in.zip'))
  rec = recorder.Recorder()
  try:
    s = transitfeed.Loader(path, problems=rec.reporter(), extra_validation=True,
                           memory_db=rng.chance(0.9)).Load()
  except Exception:
    ctx.last = log
    raise
  if not isinstance(s, transitfeed.Schedule):
    ctx.fail('loading returned %r' % s)
  ctx.count('hostile feeds loaded')
  for e in rec.entries[:300]:
    kinds.add(e.cls)
    try:
      text = u(e.e.FormatProblem())
      where = u(e.e.FormatContext())
      str(e.e)
      sorted(e.e.GetDictToFormat())
      e.e.GetOrderKey()
    except Exception as ex:
      ctx.fail(u'problem %s (%s) can not be rendered: %r' % (e.cls, u(repr(e.e.__dict__))[:600], ex))
      continue
    if not text.strip():
      ctx.fail(u'problem %s has no text' % e.cls)
    if e.file_name is not None and u(e.file_name) not in where:
      ctx.fail(u'the location of %s lacks the file: %r' % (e.cls, where))
    if e.row_num is not None and (u':%d' % e.row_num) not in where:
      ctx.fail(u'the location of %s lacks the row: %r' % (e.cls, where))
    ctx.count('problems rendered')
  ctx.seen(repr(sorted(contents.items())))
  ctx.sample({'case': ctx.case, 'edits': log, 'problems': len(rec.entries)})


def finish(ctx):
  ctx.counters['problem kinds seen'] = len(kinds)
