#!/bin/bash
# stable tests of the copy of the repository $1; the last line says how many of them fail
R=$1; W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
export PYTHONPATH=$R MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1
for f in $R/unittest/*_test.py; do
  n=$(basename $f .py); cp -r $R/unittest $W/$n
  ( cd $W/$n; timeout 600 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --rootdir=$R -o junit_family=xunit2 --junitxml=$W/$n.xml $f > $W/$n.log 2>&1 ) &
done
wait
/opt/venv/bin/python - $W <<'P'
import glob, json, sys, xml.etree.ElementTree as E
ok = set()
for f in glob.glob(sys.argv[1] + '/*.xml'):
    for c in E.parse(f).iter('testcase'):
        if not any(x.tag in ('failure', 'error', 'skipped') for x in c): ok.add((c.get('classname') + '::' + c.get('name')).split('unittest.')[-1])
bad = [t for t in json.load(open('/opt/vp/BASELINE.json'))['stable'] if t[9:] not in ok]
print('%d fail %s' % (len(bad), bad))
P
