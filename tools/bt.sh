#!/bin/bash
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || tail -30 /tmp/b.log; bash /opt/vp/test.sh /tmp/t.json >/tmp/t.log 2>&1; python3 -c "
import json;d=json.load(open('/tmp/t.json'));print({k:(len(v) if hasattr(v,'__len__') else v) for k,v in d.items()}); print(d.get('failed'))"
