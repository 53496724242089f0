#!/bin/bash
# run the contracts of one property in parallel: vcall.sh C06 [pattern] [timeout]
p=$1; pat=${2:-.}; t=${3:-170}
cd /verif/engine
grep -oh "@contract(\"$p\", \"[^\"]*\"" ../contracts/$p*.py | sed 's/.*, "//;s/"$//' | grep -e "$pat" | xargs -P 7 -I{} bash -c "ulimit -v 9000000; VC_DEBUG=1 VC_TB=${VC_TB:-6} timeout $t python3-vt -W ignore vc.py $p -k {} > /tmp/vcall.{} 2>&1 || echo 'TIMEOUT/FAIL {}' >> /tmp/vcall.{}; grep -v '^Traceback\|^  File\|^    ' /tmp/vcall.{} | grep -e '^$p {}  \|TIMEOUT\|^     ' | cut -c1-300"
