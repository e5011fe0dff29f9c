#!/bin/sh
# tools/fixed.sh PROPERTY COMMIT TEXT: records a repaired defect in known_findings.json
python3 - "$@" <<'P'
import json,sys
f='/verif/known_findings.json'; k=json.load(open(f)); k['fixed'].append('fixed: property=%s %s %s'%tuple(sys.argv[1:4])); open(f,'w').write(json.dumps(k,indent=1)+'\n')
P
