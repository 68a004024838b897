#!/bin/sh
# Offline sanity of the toolchain; the checks build their drivers from /repo themselves.
set -e
cd "$(dirname "$0")"
mkdir -p evidence .build
test -f /opt/veriftools/tla/tla2tools.jar
java -version >/dev/null 2>&1
echo 'int main(){return 0;}' > .build/sanity.cpp
g++ -std=c++17 .build/sanity.cpp -o .build/sanity
.build/sanity
for f in spec/*.tla; do
	( cd spec && java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$(basename "$f")" > ../.build/sany.log 2>&1 ) || { cat .build/sany.log; exit 1; }
done
echo setup ok
