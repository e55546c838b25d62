# run every claimed check once, print one line each
for p in $(python3 -c "import json;print(' '.join(c['property'] if 'property' in c else c['id'] for c in json.load(open('/verif/MANIFEST.json'))['checks']))"); do
  [ -n "$1" ] && ! echo " $* " | grep -q " $p " && continue
  s=$(date +%s); VERIF_SEED=1 VERIF_TIER=quick python3 /verif/check.py $p > /tmp/w/all.$p.log 2>&1; echo "$p rc=$? $(( $(date +%s)-s ))s $(head -1 /tmp/w/all.$p.log)"; grep -E "undecided:|vacuous|VIOLATION|error" /tmp/w/all.$p.log | head -3
done
