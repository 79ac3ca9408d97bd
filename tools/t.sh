#!/bin/bash
# runs the repository's tests; reports stable tests that do not pass, then the
# old-API tests under aliases for the unittest names Python 3.12 dropped
bash /opt/vp/test.sh /tmp/o.json >/tmp/o.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; o=json.load(open('/tmp/o.json'))['passed']
print("stable missing:", sorted(set(b)-set(o)))
P
mkdir -p /tmp/shim && cat > /tmp/shim/shim_aliases.py <<'P'
import unittest
T=unittest.TestCase
T.assertRaisesRegexp=T.assertRaisesRegex
T.assertRegexpMatches=T.assertRegex
T.assertItemsEqual=T.assertCountEqual
P
cd /repo && PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=${PYTHONHASHSEED:-0} PYTHONPATH=/tmp/shim /opt/venv/bin/python -W ignore -m pytest -q -p no:cacheprovider -p shim_aliases 2>&1 | grep -E "^(FAILED|ERROR|[0-9]+ )"
find /repo -name __pycache__ -type d -prune -newer /tmp/o.json -exec true {} +
git -C /repo status --short
