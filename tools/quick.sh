#!/bin/bash
# usage: quick.sh BIN TIER SEED PROP...   -- runs shards of properties, prints failures
bin=$1; tier=$2; seed=$3; shift 3
o=$(mktemp -d /tmp/vq.XXXX)
for p in "$@"; do
  rm -f $o/stats* $o/fail* ; t0=$(date +%s.%N)
  for s in 0 1 2 3 4 5 6 7; do ( $bin run $p $tier $seed $s 8 $o >$o/log-$s 2>&1; r=$?; [ $r = 0 ] || echo "$s:$r" >> $o/bad ) & done; wait
  [ -e $o/bad ] && { echo "$p shards failed: $(cat $o/bad | tr '\n' ' ')"; rm $o/bad; }
  f=$(ls -S $o/fail-* 2>/dev/null | tail -1); [ -n "$f" ] && { cut -c1-${W:-900} $f; echo; }
  python3 - $o $p $(echo "$(date +%s.%N) - $t0" | bc) <<'P'
import json,glob,sys
t=0;n=0;L={};S={}
for f in glob.glob(sys.argv[1]+'/stats-*.json'):
    d=json.load(open(f)); t+=d['evals']; n+=d['nontrivial']
    for k,v in d['labels'].items(): L[k]=L.get(k,0)+v
    for k,v in d['subs'].items(): S[k]=max(S.get(k,0),v['ms'])
import os
print(sys.argv[2],'evals',t,'nontrivial',n,'wall',sys.argv[3],S, L if os.environ.get('L') else '')
P
done
rm -r $o
