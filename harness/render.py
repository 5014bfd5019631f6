# -*- coding: utf-8 -*-
"""Writes a model feed to bytes in many physical representations."""
import os
import zipfile

BOM = '\xef\xbb\xbf'


class Style(object):
  """How to lay out the files.  The defaults are the plainest layout."""

  def __init__(self, rng=None, **kw):
    self.rng = rng
    self.shuffle_columns = False
    self.shuffle_rows = False
    self.quote = 0.0          # chance that a cell is quoted without need
    self.pad = 0.0            # chance that an unquoted cell is padded
    self.eol = '\n'
    self.final_eol = True
    self.blank = 0.0          # chance of a blank line after a row
    self.bom = False
    self.__dict__.update(kw)


def random_style(rng):
  return Style(rng,
               shuffle_columns=rng.chance(0.5),
               shuffle_rows=rng.chance(0.5),
               quote=rng.pick([0.0, 0.0, 0.5, 1.0]),
               pad=rng.pick([0.0, 0.0, 0.3]),
               eol=rng.pick(['\n', '\r\n']),
               final_eol=rng.chance(0.7),
               blank=rng.pick([0.0, 0.0, 0.2]),
               bom=rng.chance(0.3))


def cell(text, style, header=False):
  data = text.encode('utf-8')
  need = any(c in data for c in ',"\r\n') or (data != data.strip() and data)
  if need or (style.quote and style.rng.chance(style.quote)):
    return '"' + data.replace('"', '""') + '"'
  if style.pad and not header and style.rng.chance(style.pad):
    return ' ' * style.rng.randint(0, 3) + data + ' ' * style.rng.randint(0, 3)
  return data


def line(values, style, header=False):
  out = ','.join(cell(v, style, header) for v in values)
  if out == '':
    out = '""'
  return out


def table_bytes(columns, rows, style):
  lines = [line(columns, style, True)]
  for r in rows:
    lines.append(line([r.get(c, u'') for c in columns], style))
    if style.blank and style.rng.chance(style.blank):
      lines.append('')
  out = style.eol.join(lines)
  if style.final_eol:
    out += style.eol
  if style.bom:
    out = BOM + out
  return out


def files(feed, style=None):
  """{file name: bytes} of the feed."""
  style = style or Style()
  out = {}
  for t in sorted(feed.rows):
    if t not in feed.cols:
      continue
    cols = feed.cols[t]
    rows = feed.rows[t]
    if style.shuffle_columns:
      cols = style.rng.shuffled(cols)
    if style.shuffle_rows:
      rows = style.rng.shuffled(rows)
    out[t + '.txt'] = table_bytes(cols, rows, style)
  return out


def write_zip(contents, path, order=None, compression=zipfile.ZIP_DEFLATED):
  z = zipfile.ZipFile(path, 'w', compression)
  for name in (order or sorted(contents)):
    z.writestr(name, contents[name])
  z.close()
  return path


def write_dir(contents, path):
  if not os.path.isdir(path):
    os.mkdir(path)
  for name, data in contents.items():
    f = open(os.path.join(path, name), 'wb')
    f.write(data)
    f.close()
  return path


def parse_csv(data):
  """Own small RFC 4180 reader: list of rows of unicode cells."""
  text = data.decode('utf-8')
  if text.startswith(u'\ufeff'):
    text = text[1:]
  rows, row, cur = [], [], []
  i, n = 0, len(text)
  quoted = False
  any_cell = False
  while i < n:
    c = text[i]
    if quoted:
      if c == u'"':
        if i + 1 < n and text[i + 1] == u'"':
          cur.append(u'"')
          i += 1
        else:
          quoted = False
      else:
        cur.append(c)
    elif c == u'"' and not cur:
      quoted = True
      any_cell = True
    elif c == u',':
      row.append(u''.join(cur))
      cur = []
      any_cell = True
    elif c == u'\n' or c == u'\r':
      if c == u'\r' and i + 1 < n and text[i + 1] == u'\n':
        i += 1
      if any_cell or cur:
        row.append(u''.join(cur))
        rows.append(row)
      row, cur, any_cell = [], [], False
    else:
      cur.append(c)
    i += 1
  if any_cell or cur:
    row.append(u''.join(cur))
    rows.append(row)
  return rows


def parse_table(data):
  rows = parse_csv(data)
  if not rows:
    return [], []
  header = rows[0]
  return header, [dict(zip(header, r)) for r in rows[1:]]


def read_zip(path):
  z = zipfile.ZipFile(path)
  out = {}
  for name in z.namelist():
    out[name] = z.read(name)
  z.close()
  return out


def read_feed(contents):
  """{table: (columns, rows)} of {file: bytes}."""
  return dict((name[:-4], parse_table(data)) for name, data in contents.items()
              if name.endswith('.txt'))
