#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P=[]
SRV="internal/server/server.go"; SES="internal/server/session.go"; HTTP="internal/server/http.go"
EV="internal/pubsub/events/events.go"; DEC="internal/pubsub/events/decode.go"
RED="internal/pubsub/redis.go"; RED2="internal/pubsub/redis/redis.go"
REC="internal/webrtc/recorder/recorder.go"; WEBM="internal/webrtc/recorder/webm.go"; IVF="internal/webrtc/recorder/ivfwriter.go"
RTC="internal/webrtc/webrtc.go"; LK="internal/webrtc/livekit/livekit.go"
JB="internal/webrtc/utils/jitter_buffer.go"; RL="internal/webrtc/utils/receive_log.go"; SU="internal/webrtc/utils/sequence_unwrapper.go"; NK="internal/webrtc/utils/nack.go"
APP="internal/app/app.go"; ACFG="internal/app/config.go"; CFG="internal/config/config.go"; LOAD="internal/config/loader.go"; PROM="internal/prometheus/prometheus.go"
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
exec(open(os.path.join(os.path.dirname(__file__),'props_body.py')).read())
ids=[x['id'] for x in P]; assert len(set(ids))==len(ids)
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P),"properties")
