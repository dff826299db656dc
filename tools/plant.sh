#!/bin/bash
# plant.sh ID PROPERTY SCRATCH: takes the uncommitted change of the scratch
# copy SCRATCH as planted bug ID (demo.py/meta.json already in seeded/ID),
# and confirms it: applies, builds, passes the tests, demo 0 / non zero.
ID=$1; P=$2; M=${3:-/tmp/mut}; D=/verif/seeded/$ID
mkdir -p $D
[ -n "$(git -C $M diff)" ] && git -C $M diff > $D/patch.diff
cat > $D/demo.sh <<'X'
#!/bin/bash
exec env PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
X
git -C $M reset -q --hard; git -C $M fetch -q /repo HEAD; git -C $M reset -q --hard FETCH_HEAD
(cd $M && bash $D/demo.sh > /tmp/plant.clean 2>&1); a=$?
git -C $M apply $D/patch.diff || { echo "$ID: does not apply"; exit 1; }
(cd $M && bash $D/demo.sh > /tmp/plant.bug 2>&1); b=$?
(cd $M && PYTHONPATH=$M PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg /opt/venv/bin/python -m pytest -q -p no:cacheprovider menpofit 2>&1 | tail -1) > /tmp/plant.test
echo "$ID: demo clean=$a bug=$b tests: $(cat /tmp/plant.test)"
[ $a -ne 0 ] && tail -5 /tmp/plant.clean
tail -2 /tmp/plant.bug
if [ -z "$4" ]; then (cd /verif && SIMFIT_REPO=$M python3 -W ignore check.py --property $P 2>&1 | cut -c1-250 | grep "^#\|^VIOL\|^C[01]" | head -8); fi
git -C $M reset -q --hard
