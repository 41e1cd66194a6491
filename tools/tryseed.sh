#!/bin/bash
# tryseed.sh ID...: in a private copy of /repo: does the change build, pass the stable tests, fail its demo, and does the check see it?
one() {
  id=$1; w=/tmp/sd/$id; rm -rf "/tmp/sd/$id"; mkdir -p $w; cp -a /repo $w/repo; mkdir $w/verif; cp -a /verif/*.py /verif/lib /verif/harness /verif/*.txt $w/verif/; cp -a /verif/seeded/$id $w/demo
  prop=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  unshare -Urm bash -c "
   mount --bind $w/repo /repo; mount --bind $w/verif /verif; cd /repo
   bash /opt/vp/build.sh >/dev/null 2>&1; bash $w/demo/demo.sh >$w/clean.log 2>&1; c=\$?
   git apply $w/demo/patch.diff || exit; bash /opt/vp/build.sh >$w/build.log 2>&1; b=\$?
   bash $w/demo/demo.sh >$w/demo.log 2>&1; d=\$?
   bash /opt/vp/test.sh $w/t.json >/dev/null 2>&1
   t=\$(python3 -c \"import json;b=json.load(open('/opt/vp/BASELINE.json'))['stable'];p=json.load(open('$w/t.json'))['passed'];print([x for x in b if x not in p])\")
   cd /verif; s=\$(date +%s); VERIF_JOBS=4 python3 check.py $prop >$w/check.log 2>&1; k=\$?; e=\$(date +%s)
   ok=OK; [ \$b = 0 ] && [ \$c = 0 ] && [ \$d != 0 ] && [ \"\$t\" = '[]' ] || ok=NOTCOUNT
   echo \"$id $prop \$ok build=\$b demo_clean=\$c demo_patched=\$d failing=\$t check=\$k \$((e-s))s \$(grep -A1 -h VIOLATION $w/check.log | tail -1) \$(grep -h '^ERROR' $w/check.log | head -2)\"
  "
  rm -rf "/tmp/sd/$id"
}
for i in "$@"; do one $i; done
