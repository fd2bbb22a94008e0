#!/bin/bash
# dev helper: build1.sh name...  -> build/dev3/name from props/name.cpp
mkdir -p /verif/build/dev3 && cd /verif/build/dev3 || exit 2
F="$XF -std=c++20 -O1 -g -fno-pie -fsanitize=thread --param=tsan-instrument-func-entry-exit=0 -foptimize-sibling-calls -fsanitize=unreachable -fsanitize-trap=unreachable -include /verif/sim/sim_atomic_wait.h -I${REPO:-/repo}/include -I/verif/sim -I/verif/props -D_GLIBCXX_ASSERTIONS -w"
if [ ../../sim/simrt.cpp -nt simrt.o -o ../../sim/sim.h -nt simrt.o -o ../../sim/driver.cpp -nt driver.o ]; then
  g++ -std=c++20 -O2 -g -fno-pie -w -c ../../sim/simrt.cpp -o simrt.o && objcopy --redefine-sym memcpy=__real_memcpy --redefine-sym memmove=__real_memmove --redefine-sym memset=__real_memset simrt.o || exit 2
  g++ -std=c++20 -O2 -g -fno-pie -w -c ../../sim/driver.cpp -o driver.o || exit 2
fi
for n in "$@"; do
  g++ $F -c /verif/props/$n.cpp -o $n.o 2>/tmp/cc.log || { grep -m3 "error" /tmp/cc.log | cut -c1-300; exit 2; }; g++ -no-pie $n.o simrt.o driver.o -o $n -Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset -ldl -pthread || exit 2
done
