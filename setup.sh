#!/bin/bash
# Offline set-up: nothing is built; verify the tools the checks use and parse every specification.
cd "$(dirname "$0")/spec" || exit 1
command -v tlc >/dev/null || { echo "tlc is missing"; exit 1; }
[ -x /opt/venv/bin/python ] || { echo "no /opt/venv"; exit 1; }
t=$(mktemp -d) || exit 1
trap 'rm -rf "$t"' EXIT
export JAVA_TOOL_OPTIONS="-Djava.io.tmpdir=$t"
for m in *.tla; do
  tla-sany "$m" >"$t/log" 2>&1 || { cat "$t/log"; exit 1; }
  if grep -qi "fatal errors\|\*\*\* Errors\|Could not" "$t/log"; then cat "$t/log"; exit 1; fi
done
echo "set-up done"
