# -*- coding: utf-8 -*-
"""Hostile edits of feed contents."""
from harness import feedgen

TEXTS = [u'', u' ', u'-1', u'-0', u'+1', u'1', u'0', u'2', u'00', u'1.5', u'.5', u'5.', u'1e5', u'1e400', u'-1e400',
         u'nan', u'inf', u'-inf', u'99999999999999999999', u'2147483648', u'-2147483649',
         u'0x10', u'1_0', u'٣', u'１', u'25:61:00', u'0:00:00', u'999:00:00', u'999:59:59', u'1000:00:00', u'-1:00:00',
         u'24:00:00', u'5:00', u'05:00:0', u'::', u'00010101', u'99991231', u'20200230',
         u'20201301', u'2020', u'2020-01-01', u'00000000', u'%s', u'%(a)s', u'{0}', u'%', u'\\', u"'", u"';--",
         u'a' * 3000, u'\u2028', u'\x85', u'\x0c', u'\u00a0', u'\U0001f68c', u'\ufeff', u'\ufffd',
         u'http://', u'ftp://x', u'http://[', u'http://a b', u'FFFFFF', u'GGGGGG', u'12345', u'#FFFFFF',
         u'Europe/Nowhere', u'en-US-x-a', u'zz-zz-zz', u'true', u'None', u'a\x00b', u'90', u'-90', u'91', u'180',
         u'-180', u'181', u'1000000', u'0.0000001', u'USD', u'usd', u'ZZZ', u'a@b', u'8', u'100', u'1700', u'3',
         u'line\nbreak', u'"', u'""', u'a,b', u'<script>', u'&', u'é' * 40]
ODD_HEADERS = [u'', u' ', u'a', u'stop_id', u'trip_id', u'route_id', u'shape_id', u'lat', u'points', u'trips', u'stops',
               u'schedule', u'_schedule', u'_trips', u'Validate', u'ValidateBeforeAdd', u'ValidateAfterAdd',
               u'AddToSchedule', u'GetStopTimes', u'keys', u'problems', u'service_period', u'service_id',
               u'__class__', u'__dict__', u'é', u'%s', u'%(file_name)s', u'self', u'trip_index', u'stop_lat ',
               u'"', u'\u2028', u'agency_id', u'date', u'from_stop_id', u'_TABLE_NAME', u'_FIELD_NAMES', u'items',
               u'GetGtfsFactory', u'_gtfs_factory', u'_stop_time_index', u'rules', u'ParseAttributes', u'GetFieldValuesTuple',
               u'stop_name', u'agency_lang', u'feed_lang', u'parent_station', u'a' * 500]
RAW = ['\0', '\xff', '\xfe\xff', '\xff\xfe', '\xef\xbb\xbf', '\r', '\n', '\r\n', '"', '""', ',', '\x0c', '\x85',
       '\xe2\x80\xa8', '\xc2\x85', '\xc3', '\xed\xa0\x80', '\xf4\x90\x80\x80', '\t', '\x1a', '\x1b[', '%', '\\', "'", ' ',
       ',,,,', '\n\n\n', '-', '.', '0', '9', ':', '\x7f', '\xa0']
EXTRA_FILES = ['foo.txt', 'Stops.txt', 'STOPS.TXT', 'sub/stops.txt', 'sub/', '.hidden', '\xc3\xa9.txt', '%s.txt', 'stops.txt.bak',
               '__MACOSX/._stops.txt', 'pathways.txt', 'levels.txt', 'translations.txt', 'a b.txt', '<b>.txt']


def cell_edit(rng, feed):
  """One cell, row or column edit of the model; returns a description."""
  t = rng.pick(sorted(x for x in feed.rows if x in feed.cols))
  rows = feed.rows[t]
  cols = feed.cols[t]
  op = rng.pick(['cell', 'cell', 'cell', 'cell', 'cell', 'cell', 'column', 'swap', 'dup', 'drop', 'head', 'headdrop',
                 'headdup', 'headadd', 'norows', 'other', 'other'])
  c = rng.pick(cols) if cols else None
  if op == 'cell' and rows and cols:
    rng.pick(rows)[c] = rng.pick(TEXTS)
  elif op == 'other' and rows and cols:
    # a value from another table or column
    t2 = rng.pick(sorted(x for x in feed.rows if feed.rows[x] and feed.cols.get(x)))
    rng.pick(rows)[c] = rng.pick(feed.rows[t2]).get(rng.pick(feed.cols[t2]), u'')
  elif op == 'column' and rows and cols:
    v = rng.pick(TEXTS)
    for r in rows:
      r[c] = v
  elif op == 'swap' and len(rows) > 1 and cols:
    a, b = rng.pick(rows), rng.pick(rows)
    a[c], b[c] = b.get(c, u''), a.get(c, u'')
  elif op == 'dup' and rows:
    rows.insert(rng.randint(0, len(rows)), dict(rng.pick(rows)))
  elif op == 'drop' and rows:
    rows.remove(rng.pick(rows))
  elif op == 'norows':
    if rng.chance(0.3):
      feed.rows[t] = []
  elif op == 'headdrop' and cols:
    cols.remove(c)
  elif op == 'headdup' and cols:
    cols.insert(rng.randint(0, len(cols)), c)
  elif op == 'headadd':
    n = rng.pick(ODD_HEADERS)
    cols.insert(rng.randint(0, len(cols)), n)
    for r in rows:
      if n not in r and rng.chance(0.8):
        r[n] = rng.pick(TEXTS)
  elif op == 'head' and cols:
    n = rng.pick(ODD_HEADERS)
    i = cols.index(c)
    cols[i] = n
    for r in rows:
      r[n] = r.get(c, u'')
  return '%s %s' % (op, t)


def byte_edit(rng, contents):
  """One edit of the bytes or of the set of files."""
  names = sorted(contents)
  name = rng.pick(names)
  data = contents[name]
  op = rng.pick(['raw', 'raw', 'raw', 'flip', 'cut', 'chunk', 'double', 'delete', 'empty', 'white', 'utf16', 'file', 'rename',
                 'junk', 'headonly', 'cr', 'cells', 'cells'])
  n = len(data)
  pos = rng.randint(0, n)
  if op == 'raw':
    k = rng.randint(0, 3)
    data = data[:pos] + ''.join(rng.pick(RAW) for _ in range(rng.randint(1, 3))) + data[pos + k:]
  elif op == 'flip' and n:
    pos = min(pos, n - 1)
    data = data[:pos] + chr(rng.randint(0, 255)) + data[pos + 1:]
  elif op == 'cut':
    data = data[:pos]
  elif op == 'chunk':
    e = min(n, pos + rng.randint(1, 200))
    data = data[:pos] + data[e:]
  elif op == 'double':
    e = min(n, pos + rng.randint(1, 200))
    data = data[:e] + data[pos:]
  elif op == 'delete':
    del contents[name]
    return '%s %s' % (op, name)
  elif op == 'empty':
    data = ''
  elif op == 'white':
    data = rng.pick(['\n', '\r\n', ' ', ',', '\xef\xbb\xbf', '\xef\xbb\xbf\n', '"', '""', '\n\n\n', ',,,\n', '\xff\xfe', '\xfe\xff\x00'])
  elif op == 'utf16':
    try:
      data = data.decode('utf-8').encode(rng.pick(['utf-16', 'utf-16-le', 'utf-16-be']))
      if rng.chance(0.5):
        data = rng.pick(['\xff\xfe', '\xfe\xff']) + data
      if rng.chance(0.3):
        data = data[:-1]
    except UnicodeError:
      pass
  elif op == 'file':
    other = rng.pick(EXTRA_FILES)
    contents[other] = data if rng.chance(0.5) else ''
    return '%s %r' % (op, other)
  elif op == 'rename':
    other = rng.pick(names + EXTRA_FILES)
    contents[other] = contents.pop(name)
    return '%s %s %r' % (op, name, other)
  elif op == 'junk':
    data = ''.join(chr(rng.randint(0, 255)) for _ in range(rng.randint(1, 300)))
  elif op == 'headonly':
    data = data.split('\n')[0] + rng.pick(['', '\n'])
  elif op == 'cr':
    data = data.replace('\n', rng.pick(['\r', '\r\r\n', '\n\r', '\r\n', '\x0c\n']))
  elif op == 'cells':
    lines = data.split('\n')
    i = rng.randint(0, len(lines) - 1)
    lines[i] = rng.pick([lines[i] + ',', lines[i] + ',x,y', lines[i].rsplit(',', rng.randint(1, 4))[0], ',' + lines[i], ''])
    data = '\n'.join(lines)
  contents[name] = data
  return '%s %s' % (op, name)
