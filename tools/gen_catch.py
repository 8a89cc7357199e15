#!/usr/bin/env python3
# Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json.
import glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missed = {'c03-self-page': 'missed at first: C03 did not count the writers per buffer',
          'c20-diff': 'missed at first: signed overflow let the compiler undo it; now -fwrapv',
          'c05-narrow-counter': 'missed at first: no writer was overtaken that often',
          'c01-raw-push': 'missed at first: every payload could be copied as bytes',
          'c16-prop-narrow': 'missed at first: the propositions were small numbers',
          'c11-until-limit': 'missed at first: no trace was that long',
          'c09-left-events': 'missed at first: no event had left the trace',
          'c08-reader-waits': 'missed at first: every thread kept being scheduled',
          'c15-resync': 'missed at first: nothing was pushed between synchronising and evaluating'}
rows = ['| planted bug | caught by | needs | |', '|---|---|---|---|']
for f in sorted(glob.glob(root + '/seeded/*/meta.json')):
    m = json.load(open(f)); i = os.path.basename(os.path.dirname(f))
    rows.append('| %s | %s | %s | %s |' % (i, m.get('caught_by', m['property']), m['needs'].replace('|', '\\|'), missed.get(i, '')))
p = root + '/DESIGN.md'; s = open(p).read()
a, b = '<!-- planted -->\n', '<!-- /planted -->\n'
i, j = s.index(a) + len(a), s.index(b)
open(p, 'w').write(s[:i] + '\n'.join(rows) + '\n' + s[j:])
