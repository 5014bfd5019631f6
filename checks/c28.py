# -*- coding: utf-8 -*-
"""C28: upgraded translations translate every text as before."""
import collections
import os
import runpy
import shutil
import sys
from StringIO import StringIO

from harness import feedgen, render

CASES = {'quick': 2600, 'thorough': 80000}
RULE = ('a case is one random feed with translations by text or by key upgraded by the command; every cell is '
        'looked up in every language by the old rules and by the new ones; distinct by tables and translations')
MINIMUM = {'feed language in agency.txt': 290, 'feed language in feed_info.txt': 570,
           'texts left alone': 760000, 'texts translated': 87000,
           'texts translated by value': 4600,
           'texts whose translation depends on the context': 5100,
           'translations by record': 83000, 'translations by value': 3900}
ASSUMPTIONS = ['every text has a translation in the feed language, as the tool demands',
               'records are told apart by the ids the new format uses; trips and stop times hold no untranslated '
               'text that is the original of another text']

LANGS = [u'es', u'en', u'fr', u'de', u'ja', u'pt-BR']
SUFFIXES = ('_name', '_desc', '_headsign', '_url', '_text', '_abbreviation', 'signposted_as', 'instructions')
# The ids of records in the new format
IDS = {
    'agency': ('agency_id', None), 'stops': ('stop_id', None), 'routes': ('route_id', None),
    'trips': ('trip_id', None), 'stop_times': ('trip_id', 'stop_sequence'), 'feed_info': (None, None),
    'calendar': ('service_id', None), 'calendar_dates': ('service_id', 'date'),
    'fare_attributes': ('fare_id', None), 'fare_rules': ('fare_id', 'route_id'),
    'shapes': ('shape_id', 'shape_pt_sequence'), 'frequencies': ('trip_id', 'start_time'),
    'transfers': ('from_stop_id', 'to_stop_id'), 'pathways': ('pathway_id', None), 'levels': ('level_id', None),
    'my_things': ('thing_id', None), 'my_notes': (None, None),
}
TEXT = {
    'agency': ['agency_name', 'agency_url', 'agency_fare_url', 'agency_phone'],
    'stops': ['stop_name', 'stop_desc', 'stop_url', 'stop_code', 'platform_code', 'tts_stop_name'],
    'routes': ['route_short_name', 'route_long_name', 'route_desc', 'route_url', 'route_text_color'],
    'trips': ['trip_headsign', 'trip_short_name', 'block_id', 'trip_abbreviation'],
    'stop_times': ['stop_headsign', 'pickup_type', 'pickup_text'],
    'feed_info': ['feed_publisher_name', 'feed_publisher_url', 'feed_version'],
    'calendar': ['service_name', 'monday'], 'calendar_dates': ['holiday_name', 'exception_type'],
    'fare_attributes': ['fare_desc', 'price'], 'fare_rules': ['rule_desc', 'origin_id'],
    'shapes': ['shape_desc', 'shape_pt_lat'], 'frequencies': ['frequency_text', 'end_time'],
    'transfers': ['transfer_instructions', 'transfer_type'],
    'pathways': ['signposted_as', 'reversed_signposted_as', 'instructions', 'pathway_mode'],
    'levels': ['level_name', 'level_index'],
    'my_things': ['paid', 'thing_name', 'thing_note'], 'my_notes': ['note_text', 'paid', 'note_headsign'],
}


def translatable(field):
  return field.endswith(SUFFIXES)


def make(ctx, rng):
  """(tables, translations: key -> lang -> text, feed language)"""
  lang = rng.pick(LANGS)
  texts = [u'%s %s' % (rng.pick(feedgen.WORDS), rng.pick([u'a', u'b', u'', u'"', u'c, d'])) for _ in range(12)]
  texts = sorted(set(t.strip() for t in texts) - set([u'']))
  if rng.chance(0.3):
    texts = [u't\n\u00e9 %d' % k if rng.chance(0.2) else t for k, t in enumerate(texts)]
  trans = {}
  for k, t in enumerate(rng.sub(texts, 0.7)):
    keys = [t] if rng.chance(0.6) else []
    keys += [u'key-%d-%d' % (k, n) for n in range(rng.pick([0, 1, 1, 2]))]
    for key in keys:
      trans[key] = {lang: t}
      for l in LANGS:
        if l != lang and rng.chance(0.5):
          trans[key][l] = rng.pick([u'%s in %s' % (t, l), u'%s in %s' % (key, l), rng.pick(texts)])
  originals = set(v[lang] for v in trans.values())
  occurrences = collections.Counter(v[lang] for v in trans.values())
  pool = sorted(set(texts) | set(trans)) + [u'', u'plain', u'3']
  tables = {}
  for table in sorted(IDS):
    if table != 'feed_info' and table != 'agency' and rng.chance(0.35):
      continue
    fields = [f for f in TEXT[table] if rng.chance(0.8)]
    ids = [c for c in IDS[table] if c]
    n = 1 if table == 'feed_info' else rng.pick([0, 1, 1, 2, 5, 12])
    known = set()
    rows = []
    for _ in range(n):
      row = {}
      for c in ids:
        row[c] = unicode(rng.randint(0, 9)) if len(ids) == 2 else u'%s%d' % (rng.pick([u'x', u'\xe9', u'a,']),
                                                                            rng.randint(0, 30))
      key = tuple(row[c] for c in ids)
      if ids and key in known:
        continue
      known.add(key)
      own = [rng.pick(pool) for _ in range(rng.pick([1, 3, 8]))]
      for f in fields:
        row[f] = rng.pick(own)
        if table in ('trips', 'stop_times', 'my_notes') and row[f] in originals and row[f] not in trans:
          row[f] = u'plain'
        if table == 'my_notes' and row[f] in trans and occurrences[trans[row[f]][lang]] > 1:
          row[f] = u'plain'  # such a translation cannot be told
      rows.append(row)
    cols = rng.shuffled(ids + fields)
    if table.startswith('my_') or rng.chance(0.1):
      cols = rng.shuffled(cols + ['zzz'])
    if table == 'agency' and len(rows) == 1 and rng.chance(0.3):
      if rng.chance(0.5):
        cols.remove('agency_id')
        del rows[0]['agency_id']
      else:
        rows[0]['agency_id'] = u''
    if not cols:
      continue
    tables[table] = (cols, rows)
  where = rng.pick(['feed_info', 'agency', 'both', 'empty feed_info'])
  if where == 'agency':
    tables.pop('feed_info', None)
  if 'feed_info' not in tables:
    where = 'agency'
  cols, rows = tables['agency']
  if not rows:
    rows.append(dict.fromkeys(cols, u''))
    rows[0]['agency_id'] = u'A'
    if 'agency_id' not in cols:
      cols.append('agency_id')
  cols.insert(rng.randint(0, len(cols)), 'agency_lang')
  for r in rows:
    r['agency_lang'] = lang if where != 'feed_info' else rng.pick([lang, u'', u'xx'])
  if where in ('agency', 'empty feed_info') and rng.chance(0.5):
    rows[0]['agency_lang'] = lang if len(rows) == 1 else u''
  if not any(r['agency_lang'] for r in rows):
    rows[-1]['agency_lang'] = lang
  if 'feed_info' in tables:
    cols, rows = tables['feed_info']
    cols.insert(rng.randint(0, len(cols)), 'feed_lang')
    rows[0]['feed_lang'] = u'' if where == 'empty feed_info' else lang
    if where != 'empty feed_info':
      ctx.count('feed language in feed_info.txt')
  else:
    ctx.count('feed language in agency.txt')
  return tables, trans, lang


def run_command(ctx, args):
  old, out, err = sys.argv, sys.stdout, sys.stderr
  sys.argv = ['upgrade_translations.py'] + args
  sys.stdout, sys.stderr = StringIO(), StringIO()
  try:
    try:
      runpy.run_path(os.path.join(ctx.repo, 'upgrade_translations.py'), run_name='__main__')
    except SystemExit as e:
      ctx.check(e.code in (None, 0), 'the command %r ended with %r: %s', args, e.code, sys.stderr.getvalue())
  finally:
    sys.argv, sys.stdout, sys.stderr = old, out, err


def upgrade(ctx, rng, tables, trans, bom):
  style = render.Style(rng, quote=rng.pick([0.0, 0.5]), eol=rng.pick(['\n', '\r\n']), final_eol=rng.chance(0.8))
  contents = {}
  for t, (cols, rows) in tables.items():
    style.bom = bom and rng.chance(0.5)
    contents[t + '.txt'] = render.table_bytes(cols, rows, style)
  rows = [{'trans_id': k, 'lang': l, 'translation': x} for k in trans for l, x in trans[k].items()]
  rows = rng.shuffled(rows)
  style.bom = bom
  contents['translations.txt'] = render.table_bytes(rng.shuffled(['trans_id', 'lang', 'translation']), rows, style)
  d = ctx.tmpdir()
  try:
    src = render.write_dir(contents, os.path.join(d, 'feed'))
    if rng.chance(0.3):
      render.write_dir({'readme.md': 'stop_name\nPalace\n'}, src)
      os.mkdir(os.path.join(src, 'sub.txt'))
    if rng.chance(0.7):
      dst = os.path.join(d, rng.pick(['new', os.path.join('a', 'b')]))
      run_command(ctx, [src, dst])
    else:
      run_command(ctx, [src + rng.pick(['', '/'])])
      dst = [os.path.join(d, x) for x in os.listdir(d) if x != 'feed']
      if len(dst) != 1:
        ctx.fail('the upgraded feed is not beside the old one: %r' % dst)
        return None, contents
      dst = dst[0]
    out = {}
    for name in os.listdir(dst):
      f = open(os.path.join(dst, name), 'rb')
      out[name] = f.read()
      f.close()
    for name in contents:
      f = open(os.path.join(src, name), 'rb')
      ctx.check(f.read() == contents[name], 'the upgrade changed its input %s', name)
      f.close()
  finally:
    shutil.rmtree(d)
  return out, contents


def run_case(ctx, rng, i):
  tables, trans, lang = make(ctx, rng)
  out, contents = upgrade(ctx, rng, tables, trans, rng.chance(0.2))
  if out is None:
    return
  ctx.check(sorted(out) == sorted(contents), 'files are %r, expected %r', sorted(out), sorted(contents))
  new = dict((n[:-4], render.parse_table(x)) for n, x in out.items())
  expected = [c for c in ('table_name', 'field_name', 'language', 'translation', 'record_id', 'record_sub_id',
                          'field_value')]
  cols, rows = new.pop('translations', ([], []))
  ctx.check(sorted(cols) == sorted(expected), 'translations.txt has the columns %r', cols)
  by_record, by_value = {}, {}
  for r in rows:
    r = dict((c, r.get(c, u'')) for c in expected)
    key = (r['table_name'], r['field_name'], r['language'])
    if r['field_value']:
      ctx.check(not r['record_id'] and not r['record_sub_id'], 'translation %r names a record and a value', r)
      store, key = by_value, key + (r['field_value'],)
      ctx.count('translations by value')
    else:
      store, key = by_record, key + (r['record_id'], r['record_sub_id'])
      ctx.count('translations by record')
    ctx.check(store.get(key, r['translation']) == r['translation'], 'two translations for %r: %r and %r', key,
              store.get(key), r['translation'])
    store[key] = r['translation']
    ctx.check(r['language'] != lang, 'translation into the feed language: %r', r)
  left = set(by_record) | set(by_value)
  for t, (cols, rows) in sorted(tables.items()):
    ncols, nrows = new.get(t, ([], []))
    ctx.check(ncols == cols, '%s.txt: columns %r, expected %r', t, ncols, cols)
    ctx.check(len(nrows) == len(rows), '%s.txt: %d rows, expected %d', t, len(nrows), len(rows))
    id1, id2 = IDS[t]
    for a, b in zip(rows, nrows):
      rid, sub = a.get(id1, u'') if id1 else u'', a.get(id2, u'') if id2 else u''
      for c in cols:
        text = a.get(c, u'')
        known = trans.get(text) if translatable(c) else None
        want = known[lang] if known else text
        got = b.get(c, u'')
        ctx.check(got == want, '%s.txt %s of %r: %r, expected %r', t, c, rid, got, want)
        for l in LANGS:
          if l == lang:
            continue
          old = known.get(l, known[lang]) if known else text
          k1, k2 = (t, c, l, rid, sub), (t, c, l, got)
          if t == 'my_notes':
            k1 = None
          now = by_record[k1] if k1 in by_record else by_value.get(k2, got)
          left.discard(k1)
          left.discard(k2)
          ctx.check(now == old, '%s.txt %s of %r: %r in %s is %r, was %r', t, c, (rid, sub), text, l, now, old)
          if known and l in known:
            ctx.count('texts translated')
            if k1 not in by_record:
              ctx.count('texts translated by value')
          else:
            ctx.count('texts left alone')
  ctx.check(not left, 'translations refer to nothing: %r', sorted(left)[:4])
  occurrences = collections.Counter(v[lang] for v in trans.values())
  ctx.count('texts whose translation depends on the context', sum(1 for x in occurrences.values() if x > 1))
  ctx.seen((sorted(contents.items())))
  ctx.sample('%d tables, %d translated texts, feed language %s' % (len(tables), len(trans), lang))
