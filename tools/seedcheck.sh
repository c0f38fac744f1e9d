#!/bin/bash
# confirm every planted bug: applies, tests pass, demo passes without and fails with it (development tool)
d=$(mktemp -d /tmp/seedcheck-XXXX)
trap 'rm -rf "$d"' EXIT
for s in ${@:-$(ls /verif/seeded)}; do
  rm -rf "$d/repo"; cp -a /repo "$d/repo"; cd "$d/repo"
  timeout 300 bash /verif/seeded/$s/demo.sh >/dev/null 2>&1 || echo "$s: demo fails on the unchanged tree"
  git apply /verif/seeded/$s/patch.diff || echo "$s: does not apply"
  timeout 300 bash /verif/seeded/$s/demo.sh >/dev/null 2>&1 && echo "$s: demo passes with the bug"
  /opt/venv/bin/python -m pytest -q -x 2>&1 | tail -1 | grep -q '^733 passed' || echo "$s: tests fail"
done
