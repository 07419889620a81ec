# sourced: builds everything and defines dsim()
. "$(dirname "${BASH_SOURCE[0]}")/env.sh"
bash "$VERIF/dsim/setup.sh" || exit 2
W="$B/run.$$"
trap 'find "$W" -delete 2>/dev/null' EXIT
bash "$VERIF/dsim/prep.sh" "$W" || exit 2
dsim() {
  "$JH/bin/java" -Xms1g -Xmx8g -XX:+UseParallelGC -XX:-OmitStackTraceInFastThrow $EXPORTS ${DSIM_JAVA:-} -Ddsim.threads="${DSIM_THREADS:-$(nproc)}" \
    -cp "$B/fw:$W/h:$ASM:$LOG4J" dsim.boot.Main "$@" --classes "$W/user"
}
