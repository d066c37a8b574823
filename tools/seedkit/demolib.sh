# run_demo SRC PKG RS: adds RS as a test module to the end of SRC in a scratch copy of the
# repository in the current directory and runs it. PKG: the cargo package.
run_demo() {
    local here=$(cd "$(dirname "$0")" && pwd) t rc
    . /opt/vp/env.sh
    t=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
    trap 'rm -rf "$t"' EXIT
    mkdir "$t/repo"
    tar -C "$PWD" --exclude=./.git --exclude=./target --exclude=./out -cf - . | tar -C "$t/repo" -xf -
    cp -a /opt/vp/target "$t/target"
    sed "s#\"/repo\"#\"$t/repo\"#; s#\"/opt/vp/ws\"#\"$t/ws\"#" /opt/vp/gen.py > "$t/gen.py"
    printf '\n#[cfg(test)]\nmod zz_demo {\n    include!("%s");\n}\n' "$here/$3" >> "$t/repo/$1"
    python3 "$t/gen.py" > "$t/gen.log" 2>&1 || { cat "$t/gen.log"; exit 3; }
    export CARGO_TARGET_DIR=$t/target
    (cd "$t/ws" && timeout 280 cargo test --offline -p "$2" --lib --features "$(feat "$2")" zz_demo) > "$t/log" 2>&1
    rc=$?
    tail -25 "$t/log"
    grep -q '^test result: ok. [1-9]' "$t/log" || rc=1
    exit $rc
}
feat() {
    [ "$1" = ringrtc ] && echo native,simnet,sim_http,virtual_audio
}
