#!/bin/bash
# seedcheck.sh ID [CHECK...]: verify a planted bug against /repo (build, stable tests, demo on the clean and the
# patched tree) and run the given checks (default: the property it names) on the patched tree. Undoes the patch.
id=$1; shift
V=$(cd "$(dirname "$0")/.." && pwd)
d=$V/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
checks=${*:-$prop}
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 2; }
git apply --check $d/patch.diff || { echo "$id: DOES NOT APPLY"; exit 1; }
bad=$(git diff --numstat 971a8e9 HEAD >/dev/null; python3 - "$d/patch.diff" <<'P'
import subprocess,sys,re
# every removed line must come from the base commit
cur=None;ln=0;bad=0;n=0
for l in open(sys.argv[1]):
    if l.startswith('--- a/'): cur=l[6:].strip(); bl=None
    elif l.startswith('@@'):
        ln=int(re.match(r'@@ -(\d+)',l).group(1))
    elif cur and l.startswith('-') and not l.startswith('---'):
        o=subprocess.run(['git','blame','-s','-L%d,%d'%(ln,ln),'HEAD','--',cur],capture_output=True,text=True).stdout
        n+=1
        if not (o.startswith('^') or o.startswith('971a8e9')): bad+=1
        ln+=1
    elif cur and l.startswith(' '): ln+=1
print(f"{n} original-or-not lines removed, {bad} of them not original")
P
)
echo "$id: $bad"
bash /opt/vp/build.sh >/dev/null 2>&1 || { echo "clean tree does not build"; exit 2; }
tmp=$(mktemp -d); cp -a $d/. $tmp/; rm -f $tmp/*.diff $tmp/meta.json
timeout 300 bash $tmp/demo.sh > $tmp/clean.log 2>&1; c=$?
git apply $d/patch.diff
trap 'git -C /repo checkout -q -- .; rm -rf $tmp' EXIT
if ! bash /opt/vp/build.sh > $tmp/b.log 2>&1; then echo "$id: DOES NOT BUILD"; cat $tmp/b.log; exit 1; fi
bash /opt/vp/test.sh $tmp/t.json >/dev/null 2>&1
python3 - $tmp/t.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open(sys.argv[1]))
def names(x):
    for k in ('stable','passed','pass','tests'):
        if k in x: 
            v=x[k]
            return set(v if isinstance(v,list) else [n for n,s in v.items() if s in ('pass','passed',True)])
    return None
bn,tn=names(b),names(t)
print("tests:", "all stable pass" if bn<=tn else "BROKEN "+str(sorted(bn-tn)[:5]))
P
timeout 300 bash $tmp/demo.sh > $tmp/bug.log 2>&1; p=$?
echo "$id: demo clean=$c patched=$p"
[ $c = 0 ] || { echo "--- clean demo:"; tail -5 $tmp/clean.log; }
[ $p != 0 ] || { echo "--- patched demo:"; tail -5 $tmp/bug.log; }
tail -3 $tmp/bug.log
for k in $checks; do
  [ "$k" = none ] && break
  s=$(date +%s)
  VERIF_SEED=1 VERIF_TIER=quick timeout 900 bash $V/check.sh $k > $tmp/k.log 2>&1; r=$?
  echo "$id: check $k exit=$r $(( $(date +%s) - s ))s: $(grep -m1 VIOLATION $tmp/k.log) $(grep -m1 '^scenario' $tmp/k.log | cut -c1-300)"
done
git -C /repo checkout -q -- .
bash /opt/vp/build.sh >/dev/null 2>&1
