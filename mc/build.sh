#!/bin/bash
# Brings glum's two Cython extensions up to date with /repo's working tree (in
# place, in git-ignored files), using the same content stamps as the project's
# own build script: a no-op when nothing changed since the last build.
set -u
REPO=${MC_REPO:-/repo}
cd "$REPO" || exit 2
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export SETUPTOOLS_SCM_PRETEND_VERSION=3.4.1 PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=$REPO PIP_NO_INDEX=1
PY=/opt/venv/bin/python
STAMPS=$REPO/build/vp-stamps
mkdir -p "$STAMPS"
exec 9>"$REPO/build/mc.lock"
flock 9
shared=$({ find src -type f \( -name '*.pxd' -o -name '*.pxi' -o -name '*.h' \
             -o -name '*.hpp' -o -name '*tmpl.cpp' \) -print0 | sort -z | xargs -0r sha256sum
           sha256sum setup.py setup.cfg pyproject.toml
           "$PY" -c 'import sys, numpy, Cython; print(sys.version, numpy.__version__, Cython.__version__)'
         } 2>&1 | sha256sum)
stale=0
for pyx in $(find src/glum -name '*.pyx' | sort); do
    base=${pyx%.pyx}
    stamp=$STAMPS/$(echo "$base" | tr / .)
    want=$(sha256sum "$pyx"; echo "$shared")
    if [ "$(cat "$stamp" 2>/dev/null)" != "$want" ] || ! ls "$base".cpython-312-*.so >/dev/null 2>&1; then
        rm -f "$stamp" "$base".cpp "$base".c "$base".*.so
        rm -f build/lib.*/glum/"${base##*/}".*.so build/temp.*/"$base".o
        stale=1
    fi
done
if [ $stale = 1 ]; then
    $PY setup.py build_ext --inplace -j 4 >"$REPO/build/mc-build.log" 2>&1 || { tail -20 "$REPO/build/mc-build.log" >&2; exit 2; }
    for pyx in $(find src/glum -name '*.pyx' | sort); do
        base=${pyx%.pyx}
        ls "$base".cpython-312-*.so >/dev/null 2>&1 || continue
        { sha256sum "$pyx"; echo "$shared"; } > "$STAMPS/$(echo "$base" | tr / .)"
    done
fi
exit 0
