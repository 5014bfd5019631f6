# -*- coding: utf-8 -*-
"""C29: the pathway graph shows the locations and pathways of the stations."""
import os
import runpy
import shutil
import sys
from StringIO import StringIO

from harness import dot, feedgen, render

CASES = {'quick': 2200, 'thorough': 70000}
RULE = ('a case is one random pair of stops and pathways tables, drawn whole or for chosen stops by the command, '
        'its DOT read and compared with the tables; distinct by tables and selection')
MINIMUM = {'boarding areas': 1700, 'clusters compared': 2400, 'edges compared': 3400,
           'edges with signs': 3000, 'graphs of chosen stops': 510, 'graphs of whole feeds': 470,
           'nodes compared': 6000}
ASSUMPTIONS = ['pathways join locations inside of stations that have no boarding areas of their own',
               'an identifier may be written with its backslashes doubled, as DOT keeps backslashes']

COLORS = {0: 'lightskyblue', 1: 'lightyellow', 2: 'lightcoral', 3: 'lightgrey', 4: 'springgreen'}
MODES = {0: 'unknown', 1: 'walkway', 2: 'stairs', 3: 'moving_sidewalk', 4: 'escalator', 5: 'elevator',
         6: 'fare_gate', 7: 'exit_gate'}
NAMES = [u'node', u'Edge', u'graph', u'digraph', u'STRICT', u'subgraph', u'a', u'A1', u'1a', u'12', u'-3', u'a\\',
         u'\\', u'"', u'a"b', u'\\"', u'\\N', u'x\\n', u'<b>', u'a:b', u'a->b', u'{', u'}', u']', u'\u5317\u4eac',
         u'\xe9', u'a b', u'//c', u'# d', u'/* e', u'cluster_1', u'_', u'true', u"o'x", u';', u'%s', u'\\l',
         u'A rather long name of something', u'\u5317' * 30, u'twenty-one characters', u'exactly twenty chars']


def make(ctx, rng):
  stops = []
  used = set()

  def add(kind, parent):
    for _ in range(60):
      sid = rng.pick([rng.pick(NAMES), u'%s%d' % (rng.pick(NAMES), rng.randint(0, 20)), u's%d' % len(stops)])
      if sid not in used and u',' not in sid:
        break
    else:
      sid = u'stop %d' % len(stops)
    used.add(sid)
    r = dict(stop_id=sid, location_type=unicode(kind), parent_station=parent, stop_lat=u'1', stop_lon=u'2',
             stop_name=rng.pick(NAMES + [u'x', u'x, y']) if kind not in (3, 4) or rng.chance(0.6) else u'')
    if kind == 0 and rng.chance(0.4):
      r['location_type'] = u''
    if rng.chance(0.3):
      r['platform_code'] = rng.pick([u'1', u'2b', u'\\', u'"', u'\xe9'])
    if rng.chance(0.2):
      r['signposted_as'] = rng.pick(NAMES)
    r['kind'] = kind
    stops.append(r)
    return sid

  for _ in range(rng.randint(1, 4)):
    if rng.chance(0.2):
      p = add(0, u'')           # a platform of its own
      for _ in range(rng.pick([0, 0, 1, 2])):
        add(4, p)
      continue
    st = add(1, u'')
    for _ in range(rng.randint(0, 6)):
      kind = rng.pick([0, 0, 2, 3])
      p = add(kind, st)
      if kind == 0 and rng.chance(0.3):
        for _ in range(rng.randint(1, 3)):
          add(4, p)
  parents = set(r['parent_station'] for r in stops)
  ends = [r['stop_id'] for r in stops if r['parent_station'] and r['stop_id'] not in parents]
  paths = []
  if ends and rng.chance(0.9):
    if rng.chance(0.4):
      ends = rng.sub(ends, 0.6) or ends
    for k in range(rng.randint(1, 8)):
      paths.append(dict(pathway_id=u'%s%d' % (rng.pick(NAMES), k), from_stop_id=rng.pick(ends),
                        to_stop_id=rng.pick(ends), pathway_mode=rng.pick([u'', u'0', u'1', u'2', u'3', u'4', u'5',
                                                                         u'6', u'7']),
                        is_bidirectional=rng.pick([u'', u'0', u'1']),
                        signposted_as=rng.pick(NAMES + [u''] * 20),
                        reversed_signposted_as=rng.pick(NAMES + [u''] * 20)))
  return rng.shuffled(stops), paths


def root(by, s):
  while by[s]['parent_station']:
    s = by[s]['parent_station']
  return s


def fits(shown, text, limit):
  """Whether a line shows a text, which may be shortened when it is long."""
  text = text.strip()
  if shown == text:
    return True
  if len(text) <= limit or u'..' not in shown:
    return False
  return any(text.startswith(shown[:k]) and text.endswith(shown[k + 2:]) and k + len(shown) - k - 2 < len(text)
             for k in range(6, len(shown)) if shown[k:k + 2] == u'..')


def label_of_location(ctx, r, label, where):
  lines = dot.shown(label)
  ctx.check(lines[0] == r['stop_id'], '%s is labelled %r, its id is %r', where, label, r['stop_id'])
  rest = u'\n'.join(lines[1:])
  code = r.get('platform_code', u'')
  if code:
    ctx.check(code in rest, '%s is labelled %r without its platform code %r', where, label, code)
  elif r.get('signposted_as'):
    ctx.check(fits(rest, r['signposted_as'], 20), '%s is labelled %r, its sign is %r', where, label,
              r['signposted_as'])
  elif r['stop_name']:
    ctx.check(fits(rest, r['stop_name'], 20), '%s is labelled %r, its name is %r', where, label, r['stop_name'])
  else:
    ctx.check(rest == u'', '%s is labelled %r', where, label)


def identity(text, known):
  """The stop an identifier of the graph stands for."""
  if text in known:
    return known[text]
  return None


def run_case(ctx, rng, i):
  stops, paths = make(ctx, rng)
  by = dict((r['stop_id'], r) for r in stops)
  style = render.Style(rng, quote=rng.pick([0.0, 0.5]), eol=rng.pick(['\n', '\r\n']), bom=rng.chance(0.15))
  cols = ['stop_id', 'stop_name', 'stop_lat', 'stop_lon', 'location_type', 'parent_station']
  cols += [c for c in ('platform_code', 'signposted_as') if any(c in r for r in stops) or rng.chance(0.3)]
  pcols = ['pathway_id', 'from_stop_id', 'to_stop_id', 'pathway_mode', 'is_bidirectional'] + [
      c for c in ('signposted_as', 'reversed_signposted_as') if any(p[c] for p in paths) or rng.chance(0.3)]
  contents = {'stops.txt': render.table_bytes(rng.shuffled(cols), stops, style),
              'pathways.txt': render.table_bytes(rng.shuffled(pcols), paths, style)}
  # The selection
  chosen = None
  if rng.chance(0.5):
    chosen = rng.sub(sorted(by), 0.3) or [rng.pick(sorted(by))]
    stations = set(root(by, s) for s in chosen)
    ctx.count('graphs of chosen stops')
  else:
    stations = set(root(by, p[k]) for p in paths for k in ('from_stop_id', 'to_stop_id'))
    ctx.count('graphs of whole feeds')
  want = set(s for s in by if root(by, s) in stations)
  parents = set(r['parent_station'] for r in stops)
  clusters = set(s for s in want if not by[s]['parent_station'] or by[s]['kind'] == 0 and s in parents)
  d = ctx.tmpdir()
  old, out = sys.argv, sys.stdout
  try:
    src = render.write_dir(contents, os.path.join(d, 'feed'))
    sys.argv = ['visualize_pathways.py']
    path = src + '.dot'
    if rng.chance(0.5):
      path = os.path.join(d, 'out.dot')
      sys.argv += [rng.pick(['--dot', '-d']), path]
    if chosen:
      sys.argv += ['--stop_ids=' + u','.join(chosen).encode('utf-8')]
    sys.argv.append(src)
    sys.stdout = StringIO()
    runpy.run_path(os.path.join(ctx.repo, 'visualize_pathways.py'), run_name='__main__')
    f = open(path, 'rb')
    data = f.read()
    f.close()
  finally:
    sys.argv, sys.stdout = old, out
    shutil.rmtree(d)
  try:
    g = dot.Graph(data)
  except dot.DotError as e:
    ctx.fail('the output is not DOT: %s; stops %r, pathways %r' % (e, sorted(want)[:8], paths[:3]))
    return
  known = {}
  for s in by:
    known[s.replace(u'\\', u'\\\\')] = s
  for s in by:
    if s not in known:
      known[s] = s
  # Clusters
  seen = {}
  for c in g.clusters:
    ok = c.name is not None and c.name.startswith(u'cluster_')
    s = identity(c.name[8:], known) if ok else None
    ctx.check(s in clusters and s not in seen, 'cluster %r is not expected (once); stations %r', c.name,
              sorted(clusters))
    if s is None:
      continue
    seen[s] = c
    up = by[s]['parent_station']
    above = identity((c.parent.name or u'cluster_')[8:], known)
    ctx.check((above or u'') == up, 'cluster of %r lies in %r, expected %r', s, above, up)
    label_of_location(ctx, by[s], c.attrs.get('label', u''), 'cluster of %r' % s)
    ctx.check(c.attrs.get('color') == COLORS[by[s]['kind']], 'cluster of %r has the color %r', s,
              c.attrs.get('color'))
    ctx.count('clusters compared')
  ctx.check(set(seen) == clusters, 'clusters missing: %r', sorted(clusters - set(seen)))
  # Nodes
  ctx.check(len(g.declared) == len(set(g.declared)), 'nodes drawn twice: %r', g.declared)
  drawn = set()
  for x in sorted(g.nodes):
    attrs, cluster = g.nodes[x]
    s = identity(x, known)
    ctx.check(s in want and s not in clusters and s not in drawn, 'node %r is not expected', x)
    if s not in by:
      continue
    drawn.add(s)
    ctx.check(x in g.declared, 'node %r is not described', x)
    inside = identity((cluster.name or u'cluster_')[8:], known)
    ctx.check(inside == by[s]['parent_station'], 'node %r lies in %r, expected %r', s, inside,
              by[s]['parent_station'])
    label_of_location(ctx, by[s], attrs.get('label', u''), 'node %r' % s)
    ctx.check(attrs.get('color') == COLORS[by[s]['kind']], 'node %r has the color %r', s, attrs.get('color'))
    ctx.count('nodes compared')
    if by[s]['kind'] == 4:
      ctx.count('boarding areas')
  ctx.check(drawn == want - clusters, 'nodes missing: %r', sorted(want - clusters - drawn))
  # Edges
  left = [p for p in paths if p['from_stop_id'] in want and p['to_stop_id'] in want]
  ctx.check(len(g.edges) == len(left), '%d edges are drawn for %d pathways', len(g.edges), len(left))
  for a, b, attrs in g.edges:
    a, b = identity(a, known), identity(b, known)
    lines = dot.shown(attrs.get('label', u''))
    for p in left:
      signs = [p[c].strip() for c in ('signposted_as', 'reversed_signposted_as') if p[c].strip()]
      if ((p['from_stop_id'], p['to_stop_id']) == (a, b) and
          attrs.get('dir', u'forward') == (u'both' if p['is_bidirectional'] == u'1' else u'forward') and
          lines[0] == MODES[int(p['pathway_mode'] or 0)] and len(lines) == 1 + len(signs) and
          all(fits(x, y, 20) for x, y in zip(lines[1:], signs))):
        left.remove(p)
        ctx.count('edges compared')
        ctx.count('edges with signs', 1 if signs else 0)
        break
    else:
      ctx.fail('edge %r -> %r %r fits none of the pathways %r' % (a, b, attrs, left))
  ctx.seen((sorted(contents.items()), chosen))
  ctx.sample('%d stops, %d pathways, %s' % (len(stops), len(paths), 'chosen' if chosen else 'all'))
