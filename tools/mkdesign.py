#!/usr/bin/env python3
# DESIGN.md = tools/design_head.md + the table of planted changes + tools/design_tail.md
import json,os
here=os.path.dirname(os.path.abspath(__file__)); root=os.path.dirname(here)
out=open(here+'/design_head.md').read()
out+='''## Planted changes, and the checks that catch them

Each was written from the text of a property and the code, before looking at what the checks do with it; each builds,
passes the tests under the race detector, and has a demonstration. `first` says what the check of the property did when
it was first run against the change; where that is "missed", the check was extended (see the next section).

| change | property | needs | first | now |
|---|---|---|---|---|
'''
first=json.load(open(here+'/seeded_first.json'))
sd=root+'/seeded'
for i in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    m=json.load(open(f'{sd}/{i}/meta.json'))
    f=first.get(i,{})
    out+='| %s | %s | %s | %s | %s |\n'%(i,m['property'],m['needs'].replace('|','\\|'),f.get('first','caught'),f.get('now','caught'))
t=here+'/design_tail.md'
if os.path.exists(t): out+='\n'+open(t).read()
open(root+'/DESIGN.md','w').write(out)
