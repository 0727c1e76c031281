#!/usr/bin/env python3
"""addfixed.py PROP COMMIT WHAT"""
import json, sys
p='/verif/known-findings.json'; d=json.load(open(p))
prop,c,what=sys.argv[1:4]
d['findings'].append({'property':prop,'key':'fixed-'+c,'status':'fixed','what':what,'record':'fixed: property=%s %s %s'%(prop,c,what)})
json.dump(d,open(p,'w'),indent=1); open(p,'a').write('\n')
