
set -e
head -c 1000 /dev/zero > src
"$CDISK" d.d64 create
"$CDISK" d.d64 format demo d1
"$CDISK" d.d64 write src a
cp d.d64 before
rc=0
"$CDISK" d.d64 dump nosuch > out 2>&1 || rc=$?
[ $rc != 0 ]
rc=0
"$CDISK" d.d64 bam allocate 1 0 > out 2>&1
"$CDISK" d.d64 validate > out 2>&1 || rc=$?
cat out
[ $rc != 0 ]
grep -q "misallocated: (1,0)" out
