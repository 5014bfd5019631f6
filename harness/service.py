# -*- coding: utf-8 -*-
"""The model of a service calendar, as GTFS defines it."""
import datetime

ONE = datetime.timedelta(days=1)


class Model(object):
  """What GTFS says about one service."""

  def __init__(self):
    self.days = [False] * 7
    self.start = None
    self.end = None
    self.exc = {}

  def active(self, d):
    if d in self.exc:
      return self.exc[d]
    if self.start is None or self.end is None:
      return False
    return self.start <= d <= self.end and self.days[(d.toordinal() - 1) % 7]

  def dates(self):
    """All dates that could be active, ascending."""
    c = [d for d in self.exc if self.exc[d]]
    if self.start is not None and self.end is not None:
      c += [self.start, self.end]
    if not c:
      return []
    out, d = [], min(c)
    while d <= max(c):
      if self.active(d):
        out.append(d)
      d += ONE
    return out

  def range(self):
    c = [d for d in self.exc if self.exc[d]]
    if self.start is not None and self.end is not None:
      if self.start > self.end:
        return 'reversed'
      c += [self.start, self.end]
    elif self.start is not None or self.end is not None:
      return 'half open'
    if not c:
      return (None, None)
    return (min(c), max(c))

  def key(self):
    return (self.start, self.end, tuple(self.days), tuple(sorted(self.exc.items())))


def ymd(d):
  return u'%04d%02d%02d' % (d.year, d.month, d.day)
