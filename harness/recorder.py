# -*- coding: utf-8 -*-
"""The monitor behind a ProblemReporter: records every reported problem."""
import transitfeed

from harness.core import u

ERROR, WARNING, NOTICE = 0, 1, 2


class Entry(object):
  """What was observable of one reported problem when it was reported."""

  def __init__(self, e):
    self.e = e
    self.cls = e.__class__.__name__
    self.type = e.GetType()
    self.file_name = getattr(e, 'file_name', None)
    self.row_num = getattr(e, 'row_num', None)
    self.row = getattr(e, 'row', None)
    self.headers = getattr(e, 'headers', None)
    self.column_name = getattr(e, 'column_name', None)
    self.value = getattr(e, 'value', None)

  def get(self, name):
    return getattr(self.e, name, None)

  def text(self):
    return u(self.e.FormatProblem())

  def key(self):
    return (self.cls, self.type, self.file_name, self.row_num,
            self.column_name, u(self.value))

  def __repr__(self):
    try:
      t = self.text()
    except Exception as e:
      t = 'UNFORMATTABLE %r' % e
    return '<%s type=%s at %s:%s %s>' % (
        self.cls, self.type, self.file_name, self.row_num,
        u(t).encode('ascii', 'backslashreplace'))


class Recorder(transitfeed.ProblemAccumulatorInterface):
  def __init__(self):
    self.entries = []

  def _Report(self, e):
    self.entries.append(Entry(e))

  def reporter(self):
    return transitfeed.ProblemReporter(self)

  def take(self):
    r = self.entries
    self.entries = []
    return r

  def of(self, *classes):
    return [e for e in self.entries if e.cls in classes]

  def without(self, *classes):
    return [e for e in self.entries if e.cls not in classes]


def new():
  r = Recorder()
  return r, r.reporter()


def load(path=None, recorder=None, **kw):
  """Load a feed with full validation; returns (schedule, recorder)."""
  if recorder is None:
    recorder = Recorder()
  kw.setdefault('extra_validation', True)
  loader = transitfeed.Loader(path, problems=recorder.reporter(), **kw)
  return loader.Load(), recorder
