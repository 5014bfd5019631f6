# -*- coding: utf-8 -*-
"""C07: times, dates and numbers are parsed exactly and formatted back."""
import datetime
from decimal import Decimal

import transitfeed
from transitfeed import util

from harness import recorder

BLOCK = 10000
NBLOCKS = 360
CASES = {'quick': NBLOCKS + 240, 'thorough': NBLOCKS + 6000}
RULE = ('a case is a block of 10000 consecutive second counts formatted and '
        'parsed back, or 300 generated strings given to every parser; distinct '
        'non-trivial cases are distinct second counts blocks and string batches')
MINIMUM = {'seconds round-tripped': 3600000, 'time strings accepted': 1500,
           'time strings rejected': 3000, 'date strings accepted': 1500,
           'date strings rejected': 3000, 'float strings accepted': 1500,
           'float strings rejected': 1500, 'int strings accepted': 1000,
           'int strings rejected': 1500}


# --- independent recognisers, by hand, without regular expressions ---------
def is_digits(s):
  return len(s) > 0 and all(u'0' <= c <= u'9' for c in s)


def want_time(s):
  parts = s.split(u':')
  if len(parts) != 3 or not all(is_digits(p) for p in parts):
    return None
  h, m, sec = parts
  if not 1 <= len(h) <= 3 or len(m) != 2 or len(sec) != 2:
    return None
  if m[0] > u'5' or sec[0] > u'5':
    return None

  def val(d):
    n = 0
    for c in d:
      n = n * 10 + (ord(c) - 48)
    return n
  return val(h) * 3600 + val(m) * 60 + val(sec)


MONTH = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def want_date(s):
  if len(s) != 8 or not is_digits(s):
    return None
  y, m, d = int(s[:4]), int(s[4:6]), int(s[6:])
  if y < 1 or not 1 <= m <= 12:
    return None
  n = MONTH[m - 1]
  if m == 2 and (y % 4 == 0 and y % 100 != 0 or y % 400 == 0):
    n = 29
  if not 1 <= d <= n:
    return None
  return (y, m, d)


def plain_decimal(s):
  t = s[1:] if s[:1] in (u'+', u'-') else s
  parts = t.split(u'.')
  return 1 <= len(parts) <= 2 and all(is_digits(p) for p in parts)


def plain_int(s):
  return is_digits(s) and (s == u'0' or s[0] != u'0')


# --- generators --------------------------------------------------------------
ODD = [u'', u' ', u'\n', u'\t', u'a', u':', u'::', u'.', u'-', u'+', u'٣', u'１', u'²',
       u'\u00a0', u'0x', u'e', u'E5', u'L', u'_', u'\0', u',', u'6', u'0', u'9', u'inf', u'nan']


def mutate(rng, s):
  s = list(s)
  for _ in range(rng.pick([1, 1, 1, 2, 3])):
    op = rng.randint(0, 3)
    pos = rng.randint(0, len(s))
    if op == 0:
      s.insert(pos, rng.pick(ODD))
    elif op == 1 and s:
      del s[min(pos, len(s) - 1)]
    elif op == 2 and s:
      s[min(pos, len(s) - 1)] = rng.pick(ODD)
    elif s:
      s[min(pos, len(s) - 1)] = unicode(rng.randint(0, 9))
  return u''.join(s)


def gen_time(rng):
  h = rng.pick([u'%d', u'%02d', u'%03d']) % rng.pick(
      [0, 5, 9, 10, 23, 24, 25, 99, 100, 999, rng.randint(0, 999)])
  return u'%s:%02d:%02d' % (h, rng.pick([0, 9, 59, 60, 61, rng.randint(0, 99)]) if
                            rng.chance(0.3) else rng.randint(0, 59),
                            rng.pick([0, 9, 59, 60, 99]) if rng.chance(0.3) else rng.randint(0, 59))


def gen_date(rng):
  y = rng.pick([1, 4, 99, 100, 400, 1582, 1899, 1900, 1999, 2000, 2004, 2016, 2019, 2020, 2100, 9999,
                rng.randint(0, 9999)])
  m = rng.pick([0, 1, 2, 2, 2, 4, 6, 9, 11, 12, 13, rng.randint(0, 13)])
  d = rng.pick([0, 1, 28, 29, 30, 31, 32, rng.randint(0, 32)])
  return u'%04d%02d%02d' % (y, m, d)


def gen_float(rng):
  w = rng.pick([u'0', u'00', u'7', u'12', u'123456789', unicode(rng.randint(0, 10 ** 6))])
  s = rng.pick([u'', u'', u'-', u'+']) + w
  if rng.chance(0.7):
    s += u'.' + rng.pick([u'0', u'5', u'000', u'000001', unicode(rng.randint(0, 10 ** 8))])
  return s


def gen_int(rng):
  return rng.pick([u'0', u'1', u'10', u'2147483647', u'2147483648', u'99999999999',
                   unicode(rng.randint(0, 10 ** 5))])


def as_arg(rng, s):
  if rng.chance(0.3):
    try:
      return s.encode('ascii')
    except UnicodeError:
      pass
  return s


def check_time(ctx, rng):
  s = gen_time(rng)
  if rng.chance(0.5):
    s = mutate(rng, s)
  want = want_time(s)
  arg = as_arg(rng, s)
  try:
    got = util.TimeToSecondsSinceMidnight(arg)
  except transitfeed.Error:
    got = None
  ctx.count('time strings accepted' if want is not None else 'time strings rejected')
  if got != want:
    ctx.fail(u'TimeToSecondsSinceMidnight(%r): %r, expected %r' % (s, got, want))
  if want is not None and want < 3600000:
    ctx.equal(util.TimeToSecondsSinceMidnight(util.FormatSecondsSinceMidnight(got)),
              want, 'format and parse of %r' % s)


def check_date(ctx, rng):
  s = gen_date(rng)
  if rng.chance(0.4):
    s = mutate(rng, s)
  want = want_date(s)
  got = util.DateStringToDateObject(as_arg(rng, s))
  ctx.count('date strings accepted' if want is not None else 'date strings rejected')
  got_t = got and (got.year, got.month, got.day)
  if got_t != want:
    ctx.fail(u'DateStringToDateObject(%r): %r, expected %r' % (s, got_t, want))
  if bool(util.IsValidDate(s)) != (want is not None):
    ctx.fail(u'IsValidDate(%r) is %r' % (s, util.IsValidDate(s)))
  rec, rep = recorder.new()
  ok = util.ValidateDate(s, 'feed_start_date', rep)
  blank = s.strip() == u''
  expect_ok = want is not None or blank
  if bool(ok) != expect_ok or len(rec.entries) != (0 if expect_ok else 1):
    ctx.fail(u'ValidateDate(%r): %r with %r' % (s, ok, rec.entries))


def check_float(ctx, rng):
  s = gen_float(rng)
  if rng.chance(0.5):
    s = mutate(rng, s)
  rec, rep = recorder.new()
  try:
    got = util.FloatStringToFloat(as_arg(rng, s), rep)
    rejected = False
  except (ValueError, TypeError, UnicodeError):
    rejected = True
  if plain_decimal(s):
    ctx.count('float strings accepted')
    want = float(Decimal(s))
    if rejected or got != want or rec.entries:
      ctx.fail(u'FloatStringToFloat(%r): %s, problems %r, expected %r' % (
          s, 'rejected' if rejected else repr(got), rec.entries, want))
  else:
    ctx.count('float strings rejected')
    if not rejected and [e.cls for e in rec.entries] != ['InvalidFloatValue']:
      ctx.fail(u'FloatStringToFloat(%r) gave %r without any report: %r' % (s, got, rec.entries))


def check_int(ctx, rng):
  s = gen_int(rng)
  if rng.chance(0.5):
    s = mutate(rng, s)
  rec, rep = recorder.new()
  try:
    got = util.NonNegIntStringToInt(as_arg(rng, s), rep)
    rejected = False
  except (ValueError, TypeError, UnicodeError):
    rejected = True
  if plain_int(s):
    ctx.count('int strings accepted')
    want = int(Decimal(s))
    if rejected or got != want or rec.entries:
      ctx.fail(u'NonNegIntStringToInt(%r): %s, problems %r, expected %r' % (
          s, 'rejected' if rejected else repr(got), rec.entries, want))
  else:
    ctx.count('int strings rejected')
    if not rejected and (got < 0 or [e.cls for e in rec.entries] != [
        'InvalidNonNegativeIntegerValue']):
      ctx.fail(u'NonNegIntStringToInt(%r) gave %r with %r' % (s, got, rec.entries))


def run_case(ctx, rng, i):
  if i < NBLOCKS:
    fmt, parse = util.FormatSecondsSinceMidnight, util.TimeToSecondsSinceMidnight
    for s in xrange(i * BLOCK, (i + 1) * BLOCK):
      t = fmt(s)
      h = s // 3600
      m = s // 60 % 60
      x = s % 60
      if t != '%02d:%02d:%02d' % (h, m, x) or parse(t) != s:
        ctx.fail('%d seconds: formatted %r, read back %r' % (s, t, parse(t)))
        break
      ctx.count('seconds round-tripped')
    ctx.seen('block %d' % i)
    return
  for _ in range(300):
    for f in (check_time, check_date, check_float, check_int):
      f(ctx, rng)
  ctx.seen('strings %d' % i)
  ctx.sample({'case': i, 'example time string': gen_time(rng)})
