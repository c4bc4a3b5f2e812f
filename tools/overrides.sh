#!/bin/bash
# The Java overrides of the specification compute the same values as the definitions they replace.
cd "$(dirname "$0")/../spec" || exit 2
jars=/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar
t=$(mktemp -d)
javac -cp $jars -d $t/cls ../java/*.java || exit 2
rc=0
for m in BigIntTest OverrideTest; do
  for v in plain java; do
    [ $v = java ] && cp=$jars:$t/cls || cp=$jars
    (mkdir -p $t/$v$m && cp *.tla $m.cfg $t/$v$m && cd $t/$v$m && java -Xss256m -cp $cp tlc2.TLC -workers 1 -deadlock -noGenerateSpecTE $m > out 2>&1
     sed -n '/^Starting/,/^Computing/p' out | grep -v '^Starting\|^Loading\|^Computing' > vals; grep '^Error' out)
  done
  n=$(grep -c ^Loading $t/java$m/out)
  if cmp -s $t/plain$m/vals $t/java$m/vals && [ -s $t/java$m/vals ]; then echo "$m same ($(wc -c < $t/java$m/vals) bytes, $n overrides)"
  else echo "$m DIFFERS"; diff $t/plain$m/vals $t/java$m/vals | head -20; rc=1; fi
done
rm -r "$t"
exit $rc
