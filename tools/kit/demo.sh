#!/bin/bash
# run with cwd /repo after the build: the daemon's own sources, linked with simulated
# system calls (nothing real is opened or changed), run the history in demo.cc
d=$(cd "$(dirname "$0")" && pwd)
r=$PWD
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
{
	echo 'extern "C" { extern const char *BEES_USAGE, *BEES_VERSION;'
	echo 'const char *BEES_USAGE ='
	sed 's/.*/"&\\n"/' src/bees-usage.txt
	echo '; const char *BEES_VERSION = "demo"; }'
} > "$t/gen.cc"
F="-O1 -I$r/include -I$r/src -D_FILE_OFFSET_BITS=64 -U_FORTIFY_SOURCE -std=c++17 -pthread -Wno-missing-field-initializers"
one() {
	o="$t/$(echo "$1" | tr / _).o"
	case "$1" in
		"$d"/*) x="-I$d/kit -fno-threadsafe-statics" ;;
		src/bees.cc) x="-Dmain=bees_real_main" ;;
		*) x="" ;;
	esac
	g++ $F $x -c "$1" -o "$o" 2>"$o.err" || { head -5 "$o.err"; return 1; }
}
export -f one; export t d F
printf '%s\n' "$d/demo.cc" "$d/kit/pbt_stub.cc" "$d/kit/detsched.cc" "$t/gen.cc" lib/*.cc src/*.cc | xargs -P 8 -I{} bash -c 'one {}' || { echo "cannot compile"; exit 3; }
g++ -pthread -o "$t/demo" "$t"/*.o -latomic -ldl || exit 3
cd "$t" && timeout 200 ./demo
