#!/bin/bash
# validates a planted bug: tools/plant.sh <dir under seeded>   (scratch copy under /tmp, removed afterwards)
D=/verif/seeded/$1
S=$(mktemp -d /tmp/plant.XXXXXX); trap 'rm -rf "$S"' EXIT
cp -a /repo "$S/repo"; cd "$S/repo" && git checkout -q -- . && git clean -fdq -e target
mkdir "$S/d"; find "$D" -maxdepth 1 -type f ! -name '*.diff' ! -name '*.patch' ! -name meta.json -exec cp {} "$S/d/" \;
bash "$S/d/demo.sh" > "$S/o1" 2>&1; r1=$?
[ $r1 = 0 ] || { echo "$1: demo fails on the clean tree"; tail -5 "$S/o1"; exit 1; }
git apply "$D/patch.diff" || { echo "$1: does not apply"; exit 1; }
# lines removed by the patch must be original ones
git diff -U0 | awk '/^--- a\//{f=substr($2,3)} /^@@/{split($2,a,","); s=-a[1]; n=(a[2]==""?1:a[2]); if(n>0) print f, s, n}' | while read f s n; do
  git blame -s -L "$s,+$n" HEAD -- "$f"; done > "$S/bl"
own=$(git log --format=%h --abbrev=8 1098503..HEAD); while read -r h _; do for o in $own; do case "$h" in ${o:0:7}*) echo "$1: NOTE changes a line of own commit $o";; esac; done; done < "$S/bl" | sort | uniq -c
RUSTFLAGS="--cap-lints warn" cargo test --offline --no-fail-fast -- --test-threads 1 > "$S/t" 2>&1
grep -q "FAILED\|error" "$S/t" && { echo "$1: tests fail"; grep -E "FAILED|^error" "$S/t" | head; }
bash "$S/d/demo.sh" > "$S/o2" 2>&1; r2=$?
[ $r2 != 0 ] && echo "$1: ok ($(tail -1 "$S/o2" | cut -c1-150))" || echo "$1: demo does not notice"
