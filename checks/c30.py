# -*- coding: utf-8 -*-
"""C30: anomalies of line ends, headers and rows are reported exactly."""
import collections
import os
import re
import shutil
import StringIO

import transitfeed
from transitfeed import util

from harness import feedgen, recorder, render

CASES = {'quick': 1000, 'thorough': 26000}
RULE = ('a case is one byte string read line by line, or one feed whose files got random header, '
        'row and line end anomalies; distinct by the bytes')
MINIMUM = {'blank header in agency.txt': 29, 'blank header in calendar.txt': 18,
           'blank header in calendar_dates.txt': 35, 'blank header in fare_attributes.txt': 18,
           'blank header in fare_rules.txt': 18, 'blank header in feed_info.txt': 21,
           'blank header in frequencies.txt': 18, 'blank header in routes.txt': 27,
           'blank header in shapes.txt': 19, 'blank header in stop_times.txt': 31,
           'blank header in stops.txt': 25, 'blank header in transfers.txt': 22,
           'blank header in trips.txt': 28, 'deprecated': 42, 'duplicate in agency.txt': 31,
           'duplicate in calendar.txt': 20, 'duplicate in calendar_dates.txt': 27,
           'duplicate in fare_attributes.txt': 16, 'duplicate in fare_rules.txt': 1,
           'duplicate in feed_info.txt': 17, 'duplicate in frequencies.txt': 1,
           'duplicate in routes.txt': 29, 'duplicate in shapes.txt': 1,
           'duplicate in stop_times.txt': 27, 'duplicate in stops.txt': 35,
           'duplicate in transfers.txt': 1, 'duplicate in trips.txt': 25, 'files judged': 2300,
           'line problems observed': 2900, 'lines read': 4500, 'missing': 320,
           'missing cells': 150, 'padded header in agency.txt': 28,
           'padded header in calendar.txt': 16, 'padded header in calendar_dates.txt': 22,
           'padded header in fare_attributes.txt': 22, 'padded header in fare_rules.txt': 16,
           'padded header in feed_info.txt': 18, 'padded header in frequencies.txt': 1,
           'padded header in routes.txt': 28, 'padded header in shapes.txt': 15,
           'padded header in stop_times.txt': 26, 'padded header in stops.txt': 27,
           'padded header in transfers.txt': 19, 'padded header in trips.txt': 21,
           'too many cells': 140, 'unknown': 790, 'invalid utf-8': 4000, 'not csv': 40,
           'unknown files': 340, 'whole files: absent': 20, 'whole files: empty': 1,
           'whole files: null': 23, 'whole files: utf-16': 19}
ASSUMPTIONS = ['no quoted line breaks; leading spaces of header cells, which the csv reader skips, '
               'are not judged', 'files with no known column at all are judged only for being reported']

SEPARATORS = ['\x0c', '\r', '\xe2\x80\xa8', '\xe2\x80\xa9', '\xc2\x85']
LIKE = ['\x0b', '\xc2\xa0', '\xe2\x80\xa7', '\xe2\x81\xa8', '\xc3\x85', '\xe2\x80\xaa', '\x85', '\xa8',
        '\xe2\x80', '\xc2', '\x1c', '\t', '']
DEPRECATED = {'agency': ['agency_ticket_url'],
              'feed_info': ['feed_valid_from', 'feed_valid_until', 'feed_timezone']}
STRANGERS = ['README', 'stops', 'stops.csv', 'Stops.txt', 'stops.txt.bak', '.svn', '.stops.txt',
             'trips.txt~', 'stop_times.TXT', 'fares.txt', 'x y.txt', '_.txt', 'pathways', 'calendar-dates.txt']
INVALID = ['\xff', 'a\xe9', '\xc3(x', '\xe2\x82', 'x\xfe\xffy', '\xed\xa0', '8\x80']
BY_COLUMN = ('calendar', 'calendar_dates', 'stop_times')   # read without their unknown columns
MARKS = {'\x0c': '0x0C', '\r': '0x0D', '\xe2\x80\xa8': 'U+2028', '\xe2\x80\xa9': 'U+2029',
         '\xc2\x85': 'U+0085'}


def split(data):
  """[(content, end)] of the lines of data; only LF ends a line."""
  out = []
  parts = data.split('\n')
  for k, p in enumerate(parts):
    last = k == len(parts) - 1
    if last and p == '':
      break
    line = p if last else p + '\n'
    content = line.rstrip('\r\n')
    out.append((content, line[len(content):]))
  return out


def expected_lines(data):
  """Expected line problems: a Counter of (kind, row, detail)."""
  want = collections.Counter()
  lf, crlf = [], []
  for k, (content, end) in enumerate(split(data)):
    row = k + 1
    if end == '\n':
      lf.append(row)
    elif end == '\r\n':
      crlf.append(row)
    elif end:
      want['line end', row, end.replace('\r', '\\r').replace('\n', '\\n')] += 1
    for s, mark in MARKS.items():
      if s in content:
        want['separator', row, mark] += 1
  if lf and crlf:
    want['mixed', None, (len(crlf), tuple(crlf[:5]), len(crlf) > 5, len(lf), tuple(lf[:5]),
                         len(lf) > 5)] += 1
  return want


def observed_lines(entries):
  """The line problems among entries, in the form of expected_lines."""
  got = collections.Counter()
  for e in entries:
    if e.cls == 'InvalidLineEnd':
      got['line end', e.row_num, e.get('bad_line_end')] += 1
    elif e.cls == 'OtherProblem':
      t = e.text()
      if 'Line contains' in t:
        marks = [m for m in MARKS.values() if m in t]
        got['separator', e.row_num, marks[0] if len(marks) == 1 else t] += 1
      elif 'line end' in t:
        parts = re.findall(r'(\d+) (CR LF|LF) "[^"]*" line end(s?) \(line(s?) ([^)]*)\)', t)
        if [p[1] for p in parts] != ['CR LF', 'LF']:
          got['mixed', e.row_num, t] += 1
          continue
        detail = ()
        for n, _, s1, s2, examples in parts:
          more = examples.endswith(', ...')
          rows = tuple(int(x) for x in (examples[:-5] if more else examples).split(', '))
          detail += (int(n), rows, more)
          if (s1 == 's') != (int(n) > 1) or s1 != s2:
            detail += ('plural',)
        got['mixed', e.row_num, detail] += 1
  return got


def diff(ctx, got, want, what):
  extra, missing = got - want, want - got
  ctx.check(not extra, '%s: reported though absent: %s', what, repr(sorted(extra.items())[:6]))
  ctx.check(not missing, '%s: not reported: %s', what, repr(sorted(missing.items())[:6]))


def direct(ctx, rng, i):
  n = rng.pick([0, 1, 2, 3, 5, 8, 14])
  style = rng.pick(['lf', 'crlf', 'mixed', 'mixed', 'wild'])
  data = ''
  for _ in range(n):
    for _ in range(rng.randint(0, 4)):
      data += rng.pick(['a', ',', 'b"c', ' ', '\xc3\xa9', 'x', ''])
      if rng.chance(0.12):
        data += rng.pick(SEPARATORS)
      elif rng.chance(0.12):
        data += rng.pick(LIKE)
    data += {'lf': '\n', 'crlf': '\r\n', 'mixed': rng.pick(['\n', '\r\n']),
             'wild': rng.pick(['\n', '\r\n', '\r\r\n', '\r', '\n\r', '\n\n', '\r\n\r\n'])}[style]
  if rng.chance(0.3) and data:
    data = data[:-1]
  elif rng.chance(0.2):
    data += rng.pick(['x', '\r', 'y\r', 'z\r\r', ' '])
  rec, problems = recorder.new()
  name = rng.pick(['a.txt', 'stops.txt'])
  got = list(util.EndOfLineChecker(StringIO.StringIO(data), name, problems))
  what = 'case %d, %r' % (i, data[:300])
  ctx.equal(got, [c for c, _ in split(data)], what + ': lines')
  diff(ctx, observed_lines(rec.entries), expected_lines(data), what)
  for e in rec.entries:
    ctx.check(e.file_name == name, '%s: problem of file %s', what, repr(e.file_name))
  ctx.count('line problems observed', len(rec.entries))
  ctx.count('lines read', len(got))
  ctx.seen(data)


# --- feeds -----------------------------------------------------------------

def quote(s):
  return '"' + s.replace('"', '""') + '"' if any(c in s for c in ',"\r\n') or s != s.strip() else s


def spoil(rng, table, columns, rows):
  """(bytes, expected Counter of the header and row problems) of one file."""
  want = collections.Counter()
  known = feedgen.COLUMNS[table]
  required = feedgen.REQUIRED[table]
  deprecated = DEPRECATED.get(table, [])
  header = [(c, c) for c in columns]         # (column of the model, cell text)
  if rng.chance(0.5):
    for _ in range(rng.randint(1, 3)):
      k = rng.randint(0, len(header) - 1)
      what = rng.randint(0, 7)
      if what == 0:
        header.insert(rng.randint(0, len(header)), (None, rng.pick(['', ' ', '  '])))
      elif what == 1:
        header[k] = (header[k][0], header[k][1] + rng.pick([' ', '  ', '\t', ' \t']))
      elif what == 2:
        header.insert(rng.randint(0, len(header)), header[rng.randint(0, len(header) - 1)])
      elif what == 3:
        header.insert(rng.randint(0, len(header)),
                      (None, rng.pick(['colour', 'stopid', 'Stop_Id', 'x y', u'naïve'.encode('utf-8'),
                                       'a.b', 'x', 'route_ids', 'None'])))
      elif what == 4 and deprecated:
        header.insert(rng.randint(0, len(header)), (None, rng.pick(deprecated)))
      elif what == 5 and len(header) > 1:
        del header[k]
      elif what == 6:
        c = rng.pick([c for t in feedgen.COLUMNS for c in feedgen.COLUMNS[t]])
        header.insert(rng.randint(0, len(header)), (None, c))
      elif what == 7:
        header[k] = (header[k][0], rng.pick([header[k][1].upper(), header[k][1] + '_', header[k][1][:-1] or 'q']))
  cells = [c for _, c in header]
  names = [c.strip() for c in cells]
  # Expectations for the header.
  blank = len([n for n in names if not n])
  if blank:
    want['blank header', 1, ''] += blank
  padded = len([1 for c, n in zip(cells, names) if n and c != n])
  if padded:
    want['padded header', 1, ''] += padded
  real = [n for n in names if n]
  for n, k in collections.Counter(real).items():
    if k > 1:
      want['duplicate', None, (n, k)] += 1
  no_known = not [n for n in real if n in known or n in deprecated]
  for n in set(real):
    if n not in known and n not in deprecated:
      want['unknown', 1, n] += 1
    if n in deprecated:
      want['deprecated', 1, n] += 1
  for n in required:
    if n not in real:
      want['missing', 1, n] += 1
  # Lines.
  mode = rng.pick(['\n', '\n', '\r\n', 'mixed', 'mixed', 'bad'])
  sep = 0.08 if rng.chance(0.3) else 0
  short = 0.15 if rng.chance(0.4) else 0
  invalid = 0.2 if rng.chance(0.4) else 0
  huge = 0.3 if rng.chance(0.02) else 0

  def end():
    if mode == 'mixed':
      return rng.pick(['\n', '\r\n'])
    if mode == 'bad':
      return rng.pick(['\n', '\n', '\r\r\n'])
    return mode

  out = ','.join(quote(c) for c in cells) + end()
  line = 1
  for r in rows:
    line += 1
    row = [quote((r.get(c) or u'').encode('utf-8')) if c else rng.pick(['', 'v']) for c, _ in header]
    if rng.chance(sep):
      k = rng.randint(0, len(row) - 1)
      row[k] = '"a%sb"' % rng.pick(SEPARATORS + LIKE[:6])
    broken = set()
    for k in range(len(row)):
      if rng.chance(invalid):
        row[k] = rng.pick(INVALID)
        broken.add(k)
    if rng.chance(short):
      k = rng.randint(0, 2)
      if k == 0:
        row += [rng.pick(['', 'x'])] * rng.randint(1, 3)
      elif k == 1 and len(row) > 1:
        row = row[:rng.randint(1, len(row) - 1)]
      else:
        row = []
    if not row:
      out += rng.pick(['', '', '']) + end()
      continue
    if rng.chance(huge):
      k = rng.randint(0, len(row) - 1)
      row[k] = 'x' * 131073           # more than the csv reader takes
      want['not csv', line, ''] += 1
      out += ','.join(row) + end()
      continue
    text = ','.join(row)
    if text == '':
      text = '""'
    seen = set()
    for k, n in enumerate(names[:len(row)]):
      if k in broken and n and (table not in BY_COLUMN or (n in known and n not in seen)):
        want['invalid utf-8', line, n] += 1
      seen.add(n)
    if len(row) > len(cells):
      want['too many cells', line, ''] += 1
    elif len(row) < len(cells):
      want['missing cells', line, ''] += 1
    out += text + end()
  if rng.chance(0.3):
    out = out.rstrip('\r\n')
    if mode == 'bad' and rng.chance(0.5):
      out += '\r'
  return out, want, no_known


def observed_table(entries):
  got = collections.Counter()
  for e in entries:
    v = e.column_name
    if isinstance(v, unicode):
      v = v.encode('utf-8')
    if e.cls == 'UnrecognizedColumn':
      got['unknown', e.row_num, v] += 1
    elif e.cls == 'MissingColumn':
      got['missing', e.row_num, v] += 1
    elif e.cls == 'DeprecatedColumn':
      got['deprecated', e.row_num, v] += 1
    elif e.cls == 'DuplicateColumn':
      h = e.get('header')
      got['duplicate', None if e.row_num == 1 else e.row_num,
          (h.encode('utf-8') if isinstance(h, unicode) else h, e.get('count'))] += 1
    elif e.cls == 'CsvSyntax':
      t = e.text()
      got['not csv' if 'not valid csv' in t else 'blank header' if 'blank' in t else 'padded header' if 'space' in t else t, e.row_num, ''] += 1
    elif e.cls == 'InvalidValue' and 'Unicode error' in e.text():
      got['invalid utf-8', e.row_num, v] += 1
    elif e.cls == 'OtherProblem':
      t = e.text()
      for k in ('too many cells', 'missing cells'):
        if k in t:
          got[k, e.row_num, ''] += 1
  return got


def feed_case(ctx, rng, i):
  d = ctx.tmpdir()
  try:
    f = feedgen.generate(rng, trips=(1, 2), stops=(2, 5), routes=(1, 2), fares=0.7, transfers=0.7,
                         shapes=0.6, freqs=0.7, feed_info=0.7)
    files, wants, unknown = {}, {}, set()
    for t in sorted(f.cols):
      if not f.table(t):
        continue
      files[t + '.txt'], wants[t + '.txt'], no_known = spoil(rng, t, f.cols[t], f.table(t))
      if no_known:
        unknown.add(t + '.txt')
    strangers = dict((n, rng.pick(['', 'x\r', 'stop_id\r\nx\n'])) for n in
                     (rng.pick(STRANGERS) for _ in range(rng.randint(0, 3))))
    files.update(strangers)
    path = os.path.join(d, 'f.zip') if rng.chance(0.7) else os.path.join(d, 'f')
    if path.endswith('.zip'):
      render.write_zip(files, path)
    else:
      os.mkdir(path)
      render.write_dir(files, path)
    s, rec = recorder.load(path, extra_validation=rng.chance(0.3))
    ctx.equal(sorted(e.file_name for e in rec.entries if e.cls == 'UnknownFile'),
              sorted(n for n in strangers if not n.startswith('.')), 'case %d: unknown files' % i)
    ctx.check(not [e for e in rec.entries if e.file_name in strangers and e.cls != 'UnknownFile'],
              'case %d: problems of files that are not read', i)
    ctx.count('unknown files', len(strangers))
    for name in sorted(wants):
      mine = [e for e in rec.entries if e.file_name == name]
      what = 'case %d, %s' % (i, name)
      diff(ctx, observed_lines(mine), expected_lines(files[name]), what)
      got = observed_table(mine)
      want = wants[name]
      if name in unknown:
        ctx.check([k for k in got if k[0] == 'unknown' or 'known column' in k[0]],
                  '%s: no known column, but nothing is reported', what)
        ctx.count('files without known columns')
      else:
        diff(ctx, got, want, what + u' with header %r' % files[name].split('\n')[0])
      for k, n in want.items():
        ctx.count(k[0] + (' in ' + name if k[0] in ('blank header', 'padded header', 'duplicate') else ''), n)
      for e in mine:
        if e.cls in ('DuplicateColumn', 'CsvSyntax') and 'known column' not in e.text():
          sev = 1 if 'space characters' in e.text() else 0
          ctx.equal(e.type, sev, what + ': severity of ' + repr(e))
        elif e.cls in ('UnrecognizedColumn', 'DeprecatedColumn', 'InvalidLineEnd'):
          ctx.equal(e.type, 1, what + ': severity of ' + repr(e))
        elif e.cls == 'MissingColumn':
          ctx.equal(e.type, 0, what + ': severity of ' + repr(e))
      ctx.count('line problems observed', sum(observed_lines(mine).values()))
      ctx.count('files judged')
    ctx.seen(repr(sorted(files.items())))
    if i % 3 == 0:
      ctx.sample(dict((n, repr(b[:60])) for n, b in files.items()))
  finally:
    shutil.rmtree(d)


REQUIRED_FILES = ('agency.txt', 'stops.txt', 'routes.txt', 'trips.txt', 'stop_times.txt')


def whole_files(ctx, rng, i):
  """Files that are empty, absent, in UTF-16 or with null bytes."""
  d = ctx.tmpdir()
  try:
    f = feedgen.generate(rng, trips=(1, 2), stops=(2, 5), routes=(1, 2), fares=0.7, transfers=0.7,
                         shapes=0.6, freqs=0.7, feed_info=0.7)
    files = dict((n, b) for n, b in render.files(f).items())
    want = collections.Counter()
    for n in rng.sample(sorted(files), min(len(files), rng.pick([0, 1, 1, 2, 4]))):
      kind = rng.pick(['empty', 'absent', 'null', 'utf-16'])
      if kind == 'empty':
        files[n] = ''
        want['EmptyFile', n, ''] += 1
      elif kind == 'absent':
        del files[n]
      elif kind == 'null':
        at = rng.randint(0, len(files[n]))
        files[n] = files[n][:at] + rng.pick(['\0', '\0', '\0\0']) + files[n][at:]
        want['FileFormat', n, 'byte %d' % (at + 1)] += 1
      else:
        text = files[n].decode('utf-8')
        if text.startswith(u'\ufeff'):
          text = text[1:]
        files[n] = rng.pick([text.encode('utf-16'), '\xfe\xff' + text.encode('utf-16-be')])
        want['FileFormat', n, 'utf-16'] += 1
      ctx.count('whole files: ' + kind)
    for n in REQUIRED_FILES:
      if n not in files:
        want['MissingFile', n, ''] += 1
    if 'calendar.txt' not in files and 'calendar_dates.txt' not in files:
      want['MissingFile', 'calendar.txt', ''] += 1
    path = os.path.join(d, 'f.zip') if rng.chance(0.5) else os.path.join(d, 'f')
    if path.endswith('.zip'):
      render.write_zip(files, path)
    else:
      os.mkdir(path)
      render.write_dir(files, path)
    s, rec = recorder.load(path, extra_validation=rng.chance(0.3))
    got = collections.Counter()
    for e in rec.of('EmptyFile', 'MissingFile', 'FileFormat'):
      note = ''
      if e.cls == 'FileFormat':
        m = re.search('(byte [0-9]+|utf-16)[.]$', e.text())
        note = str(m.group(1)) if m else e.text()
      ctx.equal(e.type, 0, 'case %d: severity of %r' % (i, e))
      got[e.cls, e.file_name, note] += 1
    diff(ctx, got, want, 'case %d, whole files' % i)
    ctx.seen(repr(sorted(files.items())))
  finally:
    shutil.rmtree(d)


def run_case(ctx, rng, i):
  if i % 2:
    for _ in range(4):
      direct(ctx, rng, i)
  else:
    feed_case(ctx, rng, i)
  if i % 10 == 0:
    whole_files(ctx, rng, i)
