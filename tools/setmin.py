"""Set MINIMUM of check Cxx to about 45% of what the last (quick, seed 1) run observed."""
import ast, json, re, sys, textwrap
for prop in sys.argv[1:]:
    ev = json.load(open(__import__('os').environ.get('VERIF_DIR','/verif')+'/evidence/%s.json' % prop))
    obs = ev['coverage']['observed']
    path = __import__('os').environ.get('VERIF_DIR','/verif')+'/checks/%s.py' % prop.lower()
    s = open(path).read()
    m = re.search(r'^MINIMUM = \{.*?\}\n', s, re.S | re.M)
    old = ast.literal_eval(m.group(0)[len('MINIMUM = '):])
    items = []
    for k in list(old) + sorted(set(obs) - set(old)):
        n = int(obs.get(k, 0) * 0.45)
        if n >= 100:
            p = 10 ** (len(str(n)) - 2)
            n = n // p * p
        if k not in obs:
            print(prop, 'NEVER OBSERVED', k); n = 1
        if 1 < n < 15: n = 1
        if n < 1 or k.startswith('kind '): continue
        items.append('%r: %d' % (k, n))
    body = textwrap.fill(', '.join(i.replace(' ', '\0') for i in items), 98, break_long_words=False,
                         break_on_hyphens=False, initial_indent='MINIMUM = {', subsequent_indent='           ').replace('\0', ' ') + '}\n'
    open(path, 'w').write(s[:m.start()] + body + s[m.end():])
