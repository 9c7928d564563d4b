#!/bin/bash
# trybug.sh ID...: demo, tests and check of a planted bug on a scratch copy
for id in "$@"; do
D=/verif/seeded/$id; W=/tmp/try-$id
[ -e "$W" ] && rm -rf "/tmp/try-$id"
cp -a /repo $W && cd $W && git apply $D/patch.diff || { echo "$id: patch does not apply"; continue; }
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
(cd /repo && bash $D/demo.sh >/tmp/demo0.$id 2>&1); a=$?
bash $D/demo.sh >/tmp/demo1.$id 2>&1; b=$?
if [ -z "$NOTEST" ]; then
PYTHONPATH=$W PYTHONDONTWRITEBYTECODE=1 timeout 600 /opt/venv/bin/python -m pytest -q -x -n 8 tests >/tmp/test.$id 2>&1 || PYTHONPATH=$W PYTHONDONTWRITEBYTECODE=1 timeout 900 /opt/venv/bin/python -m pytest -q -x tests --ignore tests/test_4_notebooks.py > /tmp/test.$id 2>&1
t=$(tail -1 /tmp/test.$id)
fi
c=$(cd /verif && VP_REPO=$W ./check.sh $P 2>&1 | tail -12 | cut -c1-250)
echo "== $id $P demo $a/$b tests: $t"; echo "$c"
rm -rf "/tmp/try-$id"
done
