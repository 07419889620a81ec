#!/bin/bash
# seed_verify.sh ID...: confirms planted bugs in scratch copies: the patch applies, builds, passes the stable
# tests, and the demo passes without it and fails with it
export JAVA_HOME=/usr/lib/jvm/java-17-openjdk-amd64
one() {
  ID=$1; S=/verif/seeded/$ID; T=/tmp/sb/$ID
  [ -e "$T" ] && find "$T" -delete
  mkdir -p /tmp/sb; cp -a /repo "$T"; cd "$T" || exit 1
  M="mvn -o -q -B -ntp -Dversions.skip=true -Denforcer.skip"
  $M -DskipTests test-compile > "$T.log" 2>&1
  timeout 300 bash "$S/demo.sh" >> "$T.log" 2>&1; C=$?
  git apply "$S/patch.diff" || { echo "$ID: patch does not apply"; return; }
  $M -DskipTests test-compile >> "$T.log" 2>&1 || { echo "$ID: does not build"; return; }
  timeout 300 bash "$S/demo.sh" >> "$T.log" 2>&1; P=$?
  find target/surefire-reports -delete 2>/dev/null
  mvn -o -B -ntp -Dversions.skip=true -Denforcer.skip -fae -Dmaven.test.failure.ignore=true -Dsurefire.rerunFailingTestsCount=0 '-Dtest=!StateMachineIntegrationTest' test >> "$T.log" 2>&1
  R=$(python3 - "$T" <<'P'
import sys,glob,xml.etree.ElementTree as E
ok=bad=0; names=[]
for f in glob.glob(sys.argv[1]+"/target/surefire-reports/TEST-*.xml"):
    for c in E.parse(f).getroot().iter("testcase"):
        if c.find("failure") is not None or c.find("error") is not None: bad+=1; names.append(c.get("classname").split(".")[-1]+"."+c.get("name"))
        else: ok+=1
print(ok,"passed",bad,"failed",names)
P
)
  echo "$ID: demo clean=$C patched=$P; tests $R"
  cd /; find "$T" -delete
}
export -f one
printf '%s\n' "$@" | xargs -P ${SEED_P:-4} -I{} bash -c 'one {}'
