#!/bin/bash
# mut.sh PROP file 'python-old' 'python-new' : try a one-off change of a copy of /repo against a check
export VERIF_TARGET=$(mktemp -d /tmp/mut.XXXX); rmdir "$VERIF_TARGET"; cp -a /repo "$VERIF_TARGET"
F=$VERIF_TARGET/procmon_parser/$2 python3 - "$3" "$4" <<'PY' || exit 3
import os,sys
p=os.environ["F"]; s=open(p).read()
o,n=sys.argv[1:3]
o=o.encode().decode("unicode_escape"); n=n.encode().decode("unicode_escape")
assert s.count(o)>=1, "pattern not found"
open(p,"w").write(s.replace(o,n,1))
PY
cd "$(dirname "$0")/.."; ./check.sh $1 ${TIER:-quick} 2>&1 | cut -c1-220 | tail -${LINES_:-4}
rm -rf "$VERIF_TARGET"
