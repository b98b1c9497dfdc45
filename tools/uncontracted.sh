#!/bin/bash
# lists the functions without a contract on the unchanged tree (run after a check has left .build/verus-*)
cd "$(dirname "$0")/.." || exit 1
for c in stable nightly; do for p in pemdas pejmdas; do for o in ,opt ""; do
  f=.build/expanded-$c-$p${o:+-opt}.rs; fl=; [ $p = pemdas ] && fl+=" PEMDAS"; [ -n "$o" ] && fl+=" OPT"; [ $c = nightly ] && fl+=" NIGHTLY"
  .build/extract/release/extract $f "$(ls contracts/*.txt | paste -sd,)" /dev/null $fl | awk '$1=="FN" && $3=="contract=false"{print $2}'
done; done; done | sort -u > contracts/uncontracted.lst
