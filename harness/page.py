# -*- coding: utf-8 -*-
"""Reading HTML pages strictly: nesting, escaped text, and the parts of the validator's report."""
import HTMLParser
import re

VOID = ('br', 'meta')
ENTITIES = {'lt': u'<', 'gt': u'>', 'amp': u'&', 'quot': u'"', 'nbsp': u'\u00a0'}


def squeeze(text):
  return u' '.join(text.split())


class Node(object):
  def __init__(self, tag, attrs=()):
    self.tag = tag
    self.attrs = dict((k, v if v is not None else u'') for k, v in attrs)
    self.children = []

  def text(self):
    out = []
    for c in self.children:
      if isinstance(c, Node):
        out.append(u'\n' if c.tag == 'br' else c.text())
      else:
        out.append(c)
    return u''.join(out)

  def find(self, *tags):
    """All descendants with one of the tags, in document order."""
    out = []
    for c in self.children:
      if isinstance(c, Node):
        if c.tag in tags:
          out.append(c)
        out += c.find(*tags)
    return out

  def nodes(self):
    return [c for c in self.children if isinstance(c, Node)]


class Reader(HTMLParser.HTMLParser):
  def __init__(self):
    HTMLParser.HTMLParser.__init__(self)
    self.root = Node('')
    self.stack = [self.root]
    self.bad = []

  def handle_starttag(self, tag, attrs):
    if tag == 'li' and self.stack[-1].tag == 'li':
      self.stack.pop()
    n = Node(tag, attrs)
    self.stack[-1].children.append(n)
    if tag not in VOID:
      self.stack.append(n)

  def handle_startendtag(self, tag, attrs):
    self.stack[-1].children.append(Node(tag, attrs))

  def handle_endtag(self, tag):
    if (self.stack[-1].tag == 'li' and tag in ('ul', 'ol') or
        self.stack[-1].tag == 'tr' and tag == 'table'):
      self.stack.pop()
    if self.stack[-1].tag == tag:
      self.stack.pop()
    else:
      self.bad.append(u'</%s> inside <%s>' % (tag, self.stack[-1].tag))

  def handle_data(self, data):
    self.stack[-1].children.append(data)

  def handle_entityref(self, name):
    if name in ENTITIES:
      self.handle_data(ENTITIES[name])
    else:
      self.bad.append(u'&%s' % name)

  def handle_charref(self, name):
    self.handle_data(unichr(int(name[1:], 16) if name[:1] in 'xX' else int(name)))

  def handle_comment(self, data):
    self.bad.append(u'comment ' + data)

  def handle_decl(self, data):
    self.bad.append(u'declaration ' + data)

  def handle_pi(self, data):
    self.bad.append(u'instruction ' + data)

  def unknown_decl(self, data):
    self.bad.append(u'declaration ' + data)


def read(data):
  """The root node of a page and what is wrong with its structure."""
  text = data.decode('utf-8', 'replace') if isinstance(data, str) else data
  r = Reader()
  r.feed(text)
  r.close()
  bad = list(r.bad)
  if len(r.stack) > 1:
    bad.append(u'not closed: %s' % u' '.join(n.tag for n in r.stack[1:]))
  return r.root, bad
