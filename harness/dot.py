# -*- coding: utf-8 -*-
"""A small reader of the DOT language."""


class DotError(Exception):
  pass


KEYWORDS = ('node', 'edge', 'graph', 'digraph', 'subgraph', 'strict')


def tokens(text):
  out = []
  i, n = 0, len(text)
  while i < n:
    c = text[i]
    if c.isspace():
      i += 1
    elif text.startswith(u'//', i) or c == u'#':
      while i < n and text[i] != u'\n':
        i += 1
    elif text.startswith(u'/*', i):
      j = text.find(u'*/', i)
      if j < 0:
        raise DotError('open comment')
      i = j + 2
    elif c == u'"':
      i += 1
      cur = []
      while True:
        if i >= n:
          raise DotError('open string')
        if text[i] == u'\\' and i + 1 < n:
          if text[i + 1] == u'"':
            cur.append(u'"')
          else:
            cur.append(text[i:i + 2])
          i += 2
        elif text[i] == u'"':
          i += 1
          break
        else:
          cur.append(text[i])
          i += 1
      out.append(('id', u''.join(cur)))
    elif text.startswith(u'->', i) or text.startswith(u'--', i):
      out.append(('op', text[i:i + 2]))
      i += 2
    elif c in u'{}[]=;,:':
      out.append(('op', c))
      i += 1
    elif c.isalpha() or c == u'_' or ord(c) > 127:
      j = i
      while j < n and (text[j].isalnum() or text[j] == u'_' or ord(text[j]) > 127):
        j += 1
      word = text[i:j]
      out.append(('key', word.lower()) if word.lower() in KEYWORDS else ('id', word))
      i = j
    elif c.isdigit() or c in u'.-':
      j = i + 1
      while j < n and (text[j].isdigit() or text[j] == u'.'):
        j += 1
      if not any(x.isdigit() for x in text[i:j]):
        raise DotError('bad number at %r' % text[i:i + 20])
      if j < n and (text[j].isalpha() or text[j] == u'_'):
        raise DotError('bad number at %r' % text[i:i + 20])
      out.append(('id', text[i:j]))
      i = j
    else:
      raise DotError('bad character at %r' % text[i:i + 20])
  return out


class Cluster(object):
  def __init__(self, name, parent):
    self.name, self.parent = name, parent
    self.attrs = {}
    self.subs = []


class Graph(object):
  """root: Cluster; nodes: id -> (attributes, names of the innermost cluster);
  declared: ids of node statements in order; edges: [(from, to, attributes)]."""

  def __init__(self, data):
    self.t = tokens(data.decode('utf-8'))
    self.i = 0
    self.root = Cluster(None, None)
    self.clusters = []
    self.nodes = {}
    self.declared = []
    self.edges = []
    if self.take('key') not in ('digraph',):
      raise DotError('not a digraph')
    if self.peek()[0] == 'id':
      self.take('id')
    self.body(self.root, {}, {})
    if self.i != len(self.t):
      raise DotError('text after the graph')

  def peek(self):
    return self.t[self.i] if self.i < len(self.t) else ('end', None)

  def take(self, kind, value=None):
    k, v = self.peek()
    if k != kind or value is not None and v != value:
      raise DotError('expected %s %s, found %s %r' % (kind, value or '', k, v))
    self.i += 1
    return v

  def at(self, value):
    return self.peek() == ('op', value)

  def attributes(self):
    out = {}
    while self.at('['):
      self.take('op', '[')
      while not self.at(']'):
        k = self.take('id')
        if self.at('='):
          self.take('op', '=')
          out[k] = self.take('id')
        else:
          out[k] = u'true'
        if self.at(',') or self.at(';'):
          self.i += 1
      self.take('op', ']')
    return out

  def body(self, cluster, node_defaults, edge_defaults):
    node_defaults, edge_defaults = dict(node_defaults), dict(edge_defaults)
    self.take('op', '{')
    while not self.at('}'):
      kind, v = self.peek()
      if kind == 'key' and v in ('graph', 'node', 'edge'):
        self.i += 1
        a = self.attributes()
        {'graph': cluster.attrs, 'node': node_defaults, 'edge': edge_defaults}[v].update(a)
      elif kind == 'key' and v == 'subgraph':
        self.i += 1
        name = self.take('id') if self.peek()[0] == 'id' else None
        sub = Cluster(name, cluster)
        self.clusters.append(sub)
        cluster.subs.append(sub)
        self.body(sub, node_defaults, edge_defaults)
      elif kind == 'id':
        self.i += 1
        if self.at('='):
          self.take('op', '=')
          cluster.attrs[v] = self.take('id')
        elif self.at('->'):
          chain = [v]
          while self.at('->'):
            self.take('op', '->')
            chain.append(self.take('id'))
          a = dict(edge_defaults)
          a.update(self.attributes())
          for x in chain:
            self.nodes.setdefault(x, (dict(node_defaults), cluster))
          for p, q in zip(chain, chain[1:]):
            self.edges.append((p, q, a))
        else:
          a = self.attributes()
          if v not in self.nodes:
            self.nodes[v] = (dict(node_defaults), cluster)
          self.nodes[v][0].update(a)
          self.declared.append(v)
      else:
        raise DotError('unexpected %s %r' % (kind, v))
      if self.at(';'):
        self.i += 1
    self.take('op', '}')


def shown(text):
  """The lines a label shows."""
  out, cur, i = [], [], 0
  while i < len(text):
    if text[i] == u'\\' and i + 1 < len(text):
      if text[i + 1] in u'nlr':
        out.append(u''.join(cur))
        cur = []
      elif text[i + 1] in u'NGETHL':
        cur.append(u'<replaced>')
      else:
        cur.append(text[i + 1])
      i += 2
    else:
      cur.append(text[i])
      i += 1
  out.append(u''.join(cur))
  return out
