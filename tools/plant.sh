#!/bin/bash
# plant.sh ID EDIT.py: make the change EDIT.py makes (run with cwd in a scratch
# copy of /repo, rep(path, old, new) available), confirm it, and write
# seeded/ID/patch.diff.  seeded/ID/demo.py and meta.json must exist.
set -e
id=$1; edit=$2; D=/verif/seeded/$id
S=$(mktemp -d /tmp/plantXXXXXX)
trap 'find "$S" -delete' EXIT
cp -a /repo "$S/r"; cd "$S/r"; git checkout -q -- .; git clean -fdq
cat > $D/demo.sh <<'D'
#!/bin/bash
# exit 0 when the property holds for the demonstrated input
PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
D
cp -a $D "$S/d"
bash "$S/d/demo.sh" || { echo "DEMO FAILS ON CLEAN"; exit 1; }
python3 - "$edit" <<'P'
import sys
def rep(path, old, new, n=1):
    s = open(path).read()
    assert s.count(old) == n, (path, s.count(old))
    open(path, 'w').write(s.replace(old, new))
exec(open(sys.argv[1]).read())
P
git diff > $D/patch.diff
[ -s $D/patch.diff ] || { echo NO PATCH; exit 1; }
/opt/venv/bin/python -m pytest -q -p no:cacheprovider tests 2>&1 | tail -1 | grep -q "13 passed" || { echo "TESTS FAIL WITH PATCH"; /opt/venv/bin/python -m pytest -q -p no:cacheprovider tests 2>&1 | tail -15; exit 1; }
if bash "$S/d/demo.sh" > $S/out 2>&1; then echo "DEMO PASSES WITH PATCH"; exit 1; fi
tail -2 $S/out
echo "ok $id"
