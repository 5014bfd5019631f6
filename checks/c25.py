# -*- coding: utf-8 -*-
"""C25: language tags are judged by the BCP 47 grammar and the registry."""
import io
import os

from extensions.googletransit import extension_util
from extensions.googletransit.pybcp47 import Bcp47LanguageParser
import extensions.googletransit as googletransit
import transitfeed

from harness import recorder

CASES = {'quick': 900, 'thorough': 24000}
RULE = ('a case is a batch of tags (exhaustive over subtags of two or three letters and over the '
        'registry for the first cases, otherwise 40 generated or damaged tags), each judged by a '
        'grammar and a registry reader of its own; distinct by the batch')
MINIMUM = {'components recognised': 27000, 'exhaustive: numbered regions': 450,
           'exhaustive: registered extlangs': 100, 'exhaustive: registered languages': 3800,
           'exhaustive: registered scripts': 94, 'exhaustive: registered variants': 27,
           'exhaustive: three letter languages': 7900,
           'exhaustive: two letter languages and regions': 600, 'exhaustive: whole tags': 200,
           'fields validated': 31000, 'tags judged': 28000, 'tags: not judged': 580,
           'tags: not well-formed': 3600, 'tags: valid': 16000,
           'tags: well-formed, not valid': 7900}
ASSUMPTIONS = ['tags with several extended language subtags that are all registered are not judged '
               'valid or invalid',
               'the registry is the one shipped with the package']

AZ = 'abcdefghijklmnopqrstuvwxyz'
DIGITS = '0123456789'
ALNUM = AZ + DIGITS
KINDS = ('language', 'extlang', 'script', 'region', 'variant')
R = {}


def read_registry(path):
  """{kind: {subtag: [descriptions]}} of the registry, and the order read."""
  out = dict((k, {}) for k in KINDS + ('grandfathered', 'redundant'))
  f = io.open(path, encoding='utf-8', newline='')
  body = f.read()
  f.close()
  body = body.replace(u'\r\n', u'\n').replace(u'\n  ', u' ')
  for record in body.split(u'\n%%\n')[1:]:
    fields = [l.split(u': ', 1) for l in record.split(u'\n') if u': ' in l]
    kind = [v for k, v in fields if k == 'Type'][0].lower().strip()
    tag = [v for k, v in fields if k in ('Tag', 'Subtag')][0].lower().strip()
    desc = [u' '.join(v.split()) for k, v in fields if k == 'Description']
    if u'..' in tag:
      a, b = tag.split(u'..')
      t = list(a)
      tags = []
      while True:
        tags.append(u''.join(t))
        if tags[-1] == b:
          break
        p = len(t) - 1
        while t[p] == 'z':
          t[p] = 'a'
          p -= 1
        t[p] = AZ[AZ.index(t[p]) + 1]
    else:
      tags = [tag]
    for t in tags:
      out[kind][t] = desc
  return out


def setup(ctx):
  R.update(read_registry(os.path.join(ctx.repo, 'extensions', 'googletransit', 'pybcp47',
                                      'language-subtag-registry.txt')))
  R['sorted'] = dict((k, sorted(R[k])) for k in list(R))
  R['parser'] = Bcp47LanguageParser()


def is_of(s, n, alphabet):
  return len(s) in n and all(c in alphabet for c in s)


class Tag(object):
  """The parts of a tag by the grammar of RFC 5646, section 2.1."""

  def __init__(self, tag):
    self.wellformed = False
    self.whole = None
    self.language = self.script = self.region = None
    self.extlangs, self.variants, self.extensions, self.private = [], [], [], None
    if any(ord(c) > 127 for c in tag):
      return
    tag = tag.lower()
    for kind in ('grandfathered', 'redundant'):
      if tag in R[kind]:
        self.whole = R[kind][tag]
        if kind == 'grandfathered':
          self.wellformed = True
          return
    parts = tag.split('-')
    if not all(is_of(p, range(1, 9), ALNUM) for p in parts):
      return
    i = [0]

    def at(n, alphabet, digit_first=False):
      ok = (i[0] < len(parts) and is_of(parts[i[0]], n, alphabet) and
            (not digit_first or parts[i[0]][0] in DIGITS))
      if ok:
        i[0] += 1
        return parts[i[0] - 1]

    if parts[0] != 'x':
      self.language = at((2, 3), AZ)
      if self.language:
        while len(self.extlangs) < 3:
          e = at((3,), AZ)
          if not e:
            break
          self.extlangs.append(e)
      else:
        self.language = at((4, 5, 6, 7, 8), AZ)
        if not self.language:
          return
      self.script = at((4,), AZ)
      self.region = at((2,), AZ) or at((3,), DIGITS)
      while True:
        v = at((5, 6, 7, 8), ALNUM) or at((4,), ALNUM, True)
        if not v:
          break
        self.variants.append(v)
      while i[0] < len(parts) and len(parts[i[0]]) == 1 and parts[i[0]] != 'x':
        ext = [parts[i[0]]]
        i[0] += 1
        while True:
          s = at(range(2, 9), ALNUM)
          if not s:
            break
          ext.append(s)
        if len(ext) < 2:
          return
        self.extensions.append(ext)
    if i[0] < len(parts) and parts[i[0]] == 'x':
      if i[0] + 1 == len(parts):
        return
      self.private = parts[i[0] + 1:]
      i[0] = len(parts)
    self.wellformed = i[0] == len(parts)

  def subtags(self):
    out = [('language', self.language)] if self.language else []
    out += [('extlang', e) for e in self.extlangs]
    out += [('script', self.script)] if self.script else []
    out += [('region', self.region)] if self.region else []
    return out + [('variant', v) for v in self.variants]

  def unknown(self):
    return [(k, s) for k, s in self.subtags() if s not in R[k]]

  def repeats(self):
    singles = [e[0] for e in self.extensions]
    return (len(set(self.variants)) != len(self.variants) or len(set(singles)) != len(singles))

  def valid(self):
    """True, False or None when not judged."""
    if not self.wellformed:
      return False
    if self.whole:
      return True
    if self.unknown() or self.repeats():
      return False
    if len(self.extlangs) > 1:
      return None
    return True

  def descriptions(self):
    if self.whole:
      return [', '.join(self.whole)]
    return [', '.join(R[k][s]) + (' script' if k == 'script' else '') for k, s in self.subtags()]


def judge(ctx, tag, full):
  t = Tag(tag)
  valid = t.valid()
  p = R['parser']
  obj = p.ParseLanguage(tag)
  ctx.count('tags judged')
  ctx.count('tags: %s' % ('not well-formed' if not t.wellformed else 'not judged' if valid is None
                         else 'valid' if valid else 'well-formed, not valid'))
  ok = ctx.check(bool(obj.wellformed) == t.wellformed, 'tag %s: well-formed %s, expected %s', repr(tag),
                 obj.wellformed, t.wellformed)
  ok &= ctx.check(bool(p.IsWellformed(tag)) == t.wellformed, 'IsWellformed(%s) is not %s', repr(tag),
                  t.wellformed)
  if valid is None or not ok:
    return
  if not ctx.check(bool(obj.valid) == valid, 'tag %s: valid %s, expected %s', repr(tag), obj.valid,
                   valid):
    return
  if valid:
    want = t.descriptions()
    ctx.check(list(obj.descriptions)[:len(want)] == want, 'tag %s is described as %s, not %s',
              repr(tag), repr(obj.descriptions), repr(want))
    ctx.count('components recognised', len(want))
    rest = list(obj.descriptions)[len(want):]
    if t.whole is None:
      more = len(t.extensions) + (t.private is not None)
      ctx.check(bool(rest) == bool(more), 'tag %s: rest described as %s', repr(tag), repr(rest))
  elif t.wellformed and t.unknown() and not t.repeats():
    k, s = t.unknown()[0]
    d = u' '.join(obj.descriptions)
    ctx.check(s in d and k in d, 'tag %s: the unknown %s is not named but %s', repr(tag), k,
              repr(d))
  if not full:
    return
  # ISO 639-1 codes.
  iso = p.Parse_ISO639_1_Language(tag)
  low = tag.lower() if all(ord(c) < 128 for c in tag) else ''
  two = is_of(low, (2,), AZ)
  ctx.check(bool(iso.wellformed) == two and bool(iso.valid) == (two and low in R['language']),
            'two letter code %s: %s %s', repr(tag), iso.wellformed, iso.valid)
  # The validation used for the fields of a feed.
  if not tag.strip():
    return
  rec, problems = recorder.new()
  got = extension_util.ValidateLanguageCode(tag, 'agency_lang', problems)
  ctx.check(bool(got) == valid, 'ValidateLanguageCode(%s) is %s', repr(tag), got)
  ctx.check(bool(extension_util.IsValidLanguageCode(tag)) == valid,
            'IsValidLanguageCode(%s) is not %s', repr(tag), valid)
  agency(ctx, tag, t, valid)
  one_report(ctx, rec, tag, t, valid)


def one_report(ctx, rec, tag, t, valid):
  want = [] if valid else [('InvalidValue', 0 if not t.wellformed else 1, 'agency_lang', tag)]
  ctx.equal([(e.cls, e.type, e.column_name, e.value) for e in rec.entries], want,
            'problems reported for language %r' % tag)
  for e in rec.entries:
    e.text()
  ctx.count('fields validated')


def agency(ctx, tag, t, valid):
  rec, problems = recorder.new()
  factory = googletransit.GetGtfsFactory()
  a = factory.Agency(field_dict={'agency_id': 'A', 'agency_name': 'Name', 'agency_lang': tag,
                                 'agency_url': 'http://example.com/',
                                 'agency_timezone': 'America/New_York'})
  a.Validate(problems)
  ctx.check(a.agency_lang == tag, 'language %s of an agency became %s', repr(tag),
            repr(a.agency_lang))
  one_report(ctx, rec, tag, t, valid)


def rand(rng, n, alphabet):
  return ''.join(rng.pick(alphabet) for _ in range(n))


def registered(rng, kind):
  return rng.pick(R['sorted'][kind])


def gen(rng):
  """A list of subtags, mostly in order and registered."""
  wild = 0 if rng.chance(0.5) else 0.15
  if rng.chance(0.06):
    out = []
  else:
    if rng.chance(wild):
      out = [rand(rng, rng.pick([2, 3, 4, 5, 6, 7, 8]), AZ)]
    else:
      out = [registered(rng, 'language')]
      if rng.chance(0.5):
        out = [rng.pick(['en', 'de', 'zh', 'sgn', 'sl', 'hy', 'nb', 'vo', 'ar'])]
    if rng.chance(0.25):
      for _ in range(rng.pick([1, 1, 1, 1, 2, 3])):
        out.append(registered(rng, 'extlang') if not rng.chance(wild) else rand(rng, 3, AZ))
    if rng.chance(0.4):
      out.append(registered(rng, 'script') if not rng.chance(wild) else rand(rng, 4, AZ))
    if rng.chance(0.5):
      out.append(registered(rng, 'region') if not rng.chance(wild) else
                 rng.pick([rand(rng, 2, AZ), rand(rng, 3, DIGITS)]))
    if rng.chance(0.4):
      for _ in range(rng.pick([1, 1, 2, 2, 3])):
        out.append(registered(rng, 'variant') if not rng.chance(wild) else
                   rng.pick([rand(rng, rng.randint(5, 8), ALNUM),
                             rng.pick(DIGITS) + rand(rng, 3, ALNUM)]))
      if rng.chance(0.15):
        out.append(out[-1])
      elif rng.chance(0.08):
        out.append(rng.pick(out))
    if rng.chance(0.3):
      for _ in range(rng.pick([1, 1, 2, 3])):
        out.append(rng.pick('abtuwyz0129' if rng.chance(0.7) else 'au'))
        for _ in range(rng.randint(1, 3)):
          out.append(rand(rng, rng.randint(2, 8), ALNUM))
        if rng.chance(0.2):
          out.append(rng.pick(out[-1:] + ['en', '1901', 'latn']))
  if not out or rng.chance(0.2):
    out.append('x')
    for _ in range(rng.randint(1, 3)):
      out.append(rng.pick([rand(rng, rng.randint(1, 8), ALNUM), 'a', 'x', 'u', '1901', 'us']))
  return out


def damage(rng, parts):
  parts = list(parts)
  k = rng.randint(0, 9)
  j = int(rng.random() * len(parts))
  if k == 0:
    del parts[j]
  elif k == 1:
    parts.insert(j, parts[int(rng.random() * len(parts))])
  elif k == 2:
    parts[j] = rand(rng, rng.randint(0, 9), ALNUM)
  elif k == 3:
    parts.insert(j, rng.pick(['', 'x', 'a', 'u', '1', 'i', '1a', 'a1b2', '12', '1234', 'abcdefghi']))
  elif k == 4:
    m = int(rng.random() * len(parts))
    parts[j], parts[m] = parts[m], parts[j]
  elif k == 5:
    p = parts[j]
    if p:
      m = int(rng.random() * len(p))
      parts[j] = p[:m] + rng.pick(['', '1', 'a', '_', ' ', u'\xe9', u'\u212a', u'\u0661', '.', '\n', "'"]) + p[m + 1:]
  elif k == 6:
    parts.append(rng.pick(['', '\n', 'x', 'u', 'a-b', 'x-', 'x-123456789', 'u-a', 'US', 'Latn', '419']))
  elif k == 7:
    parts.insert(0, rng.pick(['', 'x', 'i', 'a', ' ', 'en', 'u']))
  elif k == 8:
    return [rng.pick([u'', u'-', u'x', u'x-', u'-x-a', u'i', u'i-abc', u'en_US', u'a-b', u'-en',
                      u'en-', u'en--US', u'\u212ao', u'de-\u017fva', u'i-\u212alingon', u'\u0130t', u'e\u0301n',
                      u'english', u'x-x', u'en-x', u'en-a', u'en-a-b', u'12', u'q12'])]
  elif k == 9:
    s = '-'.join(parts)
    m = int(rng.random() * (len(s) + 1))
    return [s[:m] + rng.pick(['-', '_', '--', ' ', '\t', '']) + s[m:]]
  return parts


def recase(rng, tag):
  k = rng.randint(0, 3)
  if k == 0:
    return tag.upper() if all(ord(c) < 128 for c in tag) else tag
  if k == 1:
    return u''.join(c.upper() if c in AZ and rng.chance(0.5) else c for c in tag)
  return tag


def batch(rng, i):
  if i < 26:
    return [AZ[i] + b + c for b in AZ for c in AZ], 'three letter languages'
  if i < 28:
    f = (lambda s: s) if i == 26 else (lambda s: 'und-' + s)
    return [f(a + b) for a in AZ for b in AZ], 'two letter languages and regions'
  if i == 28:
    return ['mul-%03d' % n for n in range(1000)], 'numbered regions'
  if i == 29:
    return ['und-' + s for s in R['sorted']['script']], 'registered scripts'
  if i == 30:
    return ['und-' + s for s in R['sorted']['variant']], 'registered variants'
  if i == 31:
    return ['zh-' + s for s in R['sorted']['extlang']], 'registered extlangs'
  if i == 32:
    return R['sorted']['language'], 'registered languages'
  if i == 33:
    out = []
    for t in R['sorted']['grandfathered'] + R['sorted']['redundant']:
      out += [t, recase(rng, t), t + '-x-a', t + 'a', 'x-' + t]
    return out, 'whole tags'
  tags = []
  for _ in range(40):
    parts = gen(rng)
    while rng.chance(0.3):
      parts = damage(rng, parts) or ['']
    if rng.chance(0.05):
      parts = [rng.pick(R['sorted'][rng.pick(['grandfathered', 'redundant'])])]
      if rng.chance(0.5):
        parts = damage(rng, parts[0].split('-')) or ['']
    tags.append(recase(rng, u'-'.join(parts)))
  return tags, None


def run_case(ctx, rng, i):
  tags, what = batch(rng, i)
  if what:
    ctx.count('exhaustive: ' + what, len(tags))
  for n, t in enumerate(tags):
    judge(ctx, t, what is None or n % 17 == 0)
  ctx.seen(repr(tags))
  if i > 33:
    ctx.sample([t for t in tags[:6]])
