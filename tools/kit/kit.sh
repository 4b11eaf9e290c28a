# Sourced by demo.sh (cwd: the tree under test). Builds the library out of the tree in $PWD together with one program,
# in a scratch directory, and runs the program there. The shim beside this file stands in for ANTLR and tree-gen.
KIT=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
HERE=$(cd "$(dirname "$0")" && pwd)
TREE=$PWD
WORK=$(mktemp -d)
trap 'rm -rf "$WORK"' EXIT

compile_all() {  # sources...
    printf '%s\n' "$@" | xargs -P 8 -I{} sh -c 's="$1"; o="$2/$(echo "$s" | tr / _).o"; g++ -std=c++20 -w -O0 $3 -c "$s" -o "$o" || exit 255' _ {} "$WORK/obj" "$FLAGS" || exit 3
}

# run_demo light|heavy program.cpp
run_demo() {
    mkdir -p "$WORK/obj" "$WORK/gen/libqasm/v3x"
    FLAGS="-D_GLIBCXX_ASSERTIONS -I$WORK/gen -I$KIT/shim/include -I$TREE/include $MORE_FLAGS"
    SRCS="$TREE/src/annotations.cpp $TREE/src/error.cpp $TREE/src/string_builder.cpp $TREE/src/utils.cpp $TREE/src/version.cpp"
    if [ "$1" = heavy ]; then
        for t in types values syntactic semantic; do
            python3 "$KIT/shim/treegen.py" "$TREE/src/v3x/$t.tree" "$WORK/gen/libqasm/v3x/${t}_generated.hpp" "$WORK/gen/${t}_generated.cpp" || exit 3
        done
        python3 "$KIT/shim/antlrgen.py" "$TREE/src/v3x/CqasmLexer.g4" "$TREE/src/v3x/CqasmParser.g4" "$WORK/gen/libqasm/v3x" "$WORK/gen" || exit 3
        SRCS="$SRCS $(echo $TREE/src/v3x/*.cpp) $(echo $WORK/gen/*.cpp) $KIT/shim/src/antlr4-runtime.cpp"
    fi
    compile_all $SRCS $MORE_SRCS "$HERE/$2"
    g++ "$WORK"/obj/*.o -o "$WORK/demo" -lfmt -lpthread || exit 3
    (cd "$WORK" && timeout 100 ./demo)
    rc=$?
    [ $rc = 0 ] && echo "demo: holds" || echo "demo: broken (status $rc)"
    [ $rc = 0 ]
    exit $?
}
