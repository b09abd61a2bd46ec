cd /verif; for p in $(python3 -c "import json;print(*[c['property_id'] if 'property_id' in c else c.get('property') for c in json.load(open('MANIFEST.json'))['checks']])"); do o=$(bin/check $p 2>&1); r=$?; u=$(echo "$o" | grep -c undetermined); echo "$p rc=$r undet=$u $(echo "$o" | grep obligations)"; done; echo done
