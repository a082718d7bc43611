#!/usr/bin/env python3
""" table.py : rewrite section 6 of DESIGN.md from seeded/*/meta.json """
import json, glob, os, re
root = os.path.dirname( os.path.dirname( os.path.abspath( __file__ ) ) )
rows = []
for d in sorted( glob.glob( root + '/seeded/*/meta.json' ) ) :
    m = json.load( open( d ) )
    rows += [( m['property'], os.path.basename( os.path.dirname( d ) ), m['what_it_breaks'], m['needs'], m.get( 'note', '' ) )]
txt = '## 6. Planted changes and the check that catches them\n\nEach is caught by the quick tier of the check of its property.\n\n| property | change | what it breaks | needs |\n|---|---|---|---|\n'
for r in sorted( rows ) :
    txt += '| %s | %s | %s | %s |\n' % ( r[0], r[1], r[2], r[3] )
f = root + '/DESIGN.md'
s = open( f ).read()
k = s.find( '## 6. Planted' )
if k >= 0 :
    e = s.find( '\n## 7.', k )
    s = s[:k] + txt + ( s[e:] if e >= 0 else '' )
else :
    s = s.rstrip() + '\n\n' + txt
open( f, 'w' ).write( s )
