#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (the texts are edited in props_text.py)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech):
    P.append(dict(id=id,title=title,statement=' '.join(statement.split()),quantifier=dict(over=over,text=' '.join(text.split())),
      why_tests_cant=' '.join(why.split()),anchors=dict(files=list(files),
        mechanism=[dict(name=n,where=w) for n,w in mech])))
R='rust/src/api/'
SRV=R+'server.rs'; RPC=R+'json_rpc.rs'; ACC=R+'booking/accumulator.rs'; BK=R+'booking.rs'; BTY=R+'booking/types.rs'
RAW=R+'types/raw.rs'; SER=R+'types/serializers.rs'; CONV=R+'types/parser_type_conversions.rs'; BKD=R+'types/booked.rs'; BCV=R+'types/booking_type_conversions.rs'; TY=R+'types.rs'
POD='rust/src/bin/limabean-pod/main.rs'; RUN='rust/src/bin/limabean/run.rs'; LM='rust/src/bin/limabean/main.rs'; HL='rust/src/bin/limabean/health.rs'
here=os.path.dirname(os.path.abspath(__file__))
exec(open(os.path.join(here,'props_text.py')).read())
open(os.path.join(here,'..','properties.jsonl'),'w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P:
    assert len(x['title'])<=80,x['id']
print(len(P),'properties')
