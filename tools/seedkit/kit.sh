# Sourced by demo.sh with $here set: links programs from /repo's build; everything goes to a scratch directory.
work=$(mktemp -d /tmp/demo_XXXXXX)
trap 'rm -rf "$work"' EXIT
incs=$(find /repo/src /repo/Randutils -type d -name include -printf '-I%p ')
flags="-std=c++20 -O1 -w -no-pie -DHAVE_CSTDDEF -I/usr/include/eigen3 -I/usr/include/coin -I$here $incs"
libs=$(find /repo/_build/src /repo/_build/Randutils -name '*.a' -printf '%p ')
mkdir -p "$work/nlohmann"
cp "$here/json-schema.hpp" "$work/nlohmann/json-schema.hpp"
g++ $flags -I"$work" -c /repo/src/Auxillary/json_schema/schema_validation.cpp -o "$work/schema_validation.o" || exit 2
link() { # link <program> <sources or objects...>
  out=$1; shift
  g++ $flags "$@" "$work/schema_validation.o" -Wl,--start-group $libs -Wl,--end-group -lipopt -o "$out" || exit 2
}
build_grazer() {
  g++ $flags '-DSetBoolValue(a,b)=SetStringValue(a,(b)?"yes":"no")' -c /repo/src/IpoptWrapper/Adaptor.cpp -o "$work/Adaptor.o" || exit 2
  obj=$(find /repo/_build/src/Grazer -name 'grazer.cpp.o')
  link "$work/grazer" "$obj" "$work/Adaptor.o"
}
