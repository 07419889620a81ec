# common settings; sourced
VERIF="$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)"
REPO="${DSIM_REPO:-/repo}"
JH=/usr/lib/jvm/java-21-openjdk-amd64
B="${DSIM_BUILD:-$VERIF/build}"
BC=/opt/veriftools/java/bytecode
ASM="$BC/asm-9.7.1.jar:$BC/asm-tree-9.7.1.jar:$BC/asm-analysis-9.7.1.jar:$BC/asm-util-9.7.1.jar:/opt/veriftools/java/spotbugs/asm-commons-9.7.1.jar"
LOG4J=$(ls /root/.m2/repository/org/apache/logging/log4j/log4j-api/*/log4j-api-*.jar 2>/dev/null | grep -v sources | sort -V | tail -1)
EXPORTS=""
for p in jdk.internal.vm jdk.internal.misc jdk.internal.access jdk.internal.util jdk.internal.ref jdk.internal.vm.annotation sun.security.action; do
  EXPORTS="$EXPORTS --add-exports java.base/$p=ALL-UNNAMED"
done
