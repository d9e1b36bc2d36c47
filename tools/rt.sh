#!/bin/bash
# run the repository's stable tests and report the missing ones
cd /repo && gofmt -l *.go minigopdf/*.go minigopdf/fontmaker/core/*.go render textbreak | grep -v "buff_write_test\|debug_" ; go vet ./... 2>&1 | grep -v "^#\|_test.go" | head; bash /opt/vp/test.sh /tmp/rt.json >/tmp/rt.log 2>&1
python3 - <<'P'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=json.load(open('/tmp/rt.json'))
print("missing stable:", b-set(o['passed']), "failed:", o['failed'])
P
cd /repo && git status --short | head
