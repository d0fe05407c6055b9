#!/bin/bash
# Builds, from /repo's current working tree, everything the checks need, under /verif/build:
#   cmmc/bin/cmmc      the compiler under test (all sources of /repo, compiled with -O1 and a
#                      precompiled header so that a cold build takes about 25 s)
#   guest/*.o          freestanding libc stand-in for simulated programs
#   bin/dst            simulator, harness, checks;  bin/shim.so  fault-injecting syscall shim
# Rebuilt from scratch whenever the content of any file of /repo changed (content hash, not mtimes).
set -e
V=/verif
R=${DST_REPO:-/repo}
B=$V/build
export PATH=/usr/sbin:/usr/bin:/sbin:/bin LC_ALL=C.UTF-8 CCACHE_DISABLE=1
unset CXXFLAGS CFLAGS LDFLAGS LD_PRELOAD
mkdir -p $B
exec 9>$B/.lock
flock 9

tools() {
    mkdir -p $B/bin $B/guest
    h=$(cat $V/sim/* $V/guest/* $V/build.sh | sha256sum)
    if [ ! -x $B/bin/dst ] || [ ! -e $B/bin/shim.so ] || [ "$h" != "$(cat $B/tools.hash 2>/dev/null)" ]; then
        rm -f $B/tools.hash
        pids=()
        for t in $V/sim/*.cpp; do
            o=$B/bin/$(basename $t .cpp).o
            g++ -std=c++20 -O2 -w -c -o $o $t & pids+=($!)
        done
        gcc -shared -fPIC -O1 -w -o $B/bin/shim.so $V/guest/shim.c -ldl & pids+=($!)
        riscv64-linux-gnu-gcc-12 -O1 -ffreestanding -nostdlib -fno-builtin -march=rv64gc -mabi=lp64d -mcmodel=medlow -fno-pic -fno-stack-protector -w -c -o $B/guest/libsim.riscv.o $V/guest/libsim.c & pids+=($!)
        riscv64-linux-gnu-gcc-12 -O1 -ffreestanding -nostdlib -fno-builtin -march=rv64gc -mabi=lp64d -mcmodel=medlow -fno-pic -fno-stack-protector -w -c -o $B/guest/driver.riscv.o $V/guest/driver.c & pids+=($!)
        ARM="arm-linux-gnueabihf-gcc-12 -O1 -marm -march=armv7ve -mfpu=vfpv4 -mfloat-abi=hard -ffreestanding -nostdlib -fno-builtin -fno-pic -fno-stack-protector -fno-exceptions -fno-unwind-tables -fno-asynchronous-unwind-tables -w -c"
        for t in libsim driver; do $ARM -o $B/guest/$t.arm.o $V/guest/$t.c & pids+=($!); done
        cp $(arm-linux-gnueabihf-gcc-12 -print-libgcc-file-name) $B/guest/libgcc.arm.a
        for p in "${pids[@]}"; do wait $p || exit 1; done
        g++ -o $B/bin/dst $(for t in $V/sim/*.cpp; do echo $B/bin/$(basename $t .cpp).o; done)
        echo "$h" > $B/tools.hash
    fi
}

compiler() {
    h=$(cd $R && { find . -path ./.git -prune -o -path ./_build -prune -o -path ./tests -prune -o -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum; cat $V/build.sh $V/guest/allochook.c; } | sha256sum)
    if [ -x $B/cmmc/bin/cmmc ] && [ "$h" = "$(cat $B/cmmc.hash 2>/dev/null)" ]; then return; fi
    rm -rf $V/build/cmmc $V/build/pch $V/build/cmmc.hash
    mkdir -p $B/pch
    WRAP=
    for f in mi_malloc mi_zalloc mi_new mi_new_nothrow mi_calloc mi_aligned_alloc mi_malloc_aligned mi_new_aligned mi_new_aligned_nothrow mi_realloc mi_heap_malloc mi_heap_malloc_aligned mi_manage_os_memory_ex mi_free; do WRAP="$WRAP -Wl,--wrap=$f"; done
    gcc -O1 -w -c -o $B/cmmc-hook.o $V/guest/allochook.c
    X="-O1 -g0 -fno-unroll-loops -w"
    cat > $B/pch/pch.hpp <<'H'
#include <cstdint>
#include <algorithm>
#include <array>
#include <cmath>
#include <deque>
#include <fstream>
#include <functional>
#include <iostream>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <numeric>
#include <optional>
#include <queue>
#include <set>
#include <sstream>
#include <stack>
#include <string>
#include <string_view>
#include <unordered_map>
#include <unordered_set>
#include <variant>
#include <vector>
#include <cmmc/IR/Function.hpp>
#include <cmmc/IR/IRBuilder.hpp>
#include <cmmc/IR/ConstantValue.hpp>
#include <cmmc/IR/Module.hpp>
#include <cmmc/Transforms/TransformPass.hpp>
#include <cmmc/Support/Diagnostics.hpp>
H
    configure() {
        cmake -S $R -B $B/cmmc -G Ninja -DCMAKE_BUILD_TYPE=Release -DCMMC_LLVM_SUPPORT=OFF \
            -DCMAKE_C_COMPILER=/usr/bin/gcc -DCMAKE_CXX_COMPILER=/usr/bin/g++ -DPython3_EXECUTABLE=/usr/bin/python3 \
            "-DCMAKE_CXX_LINK_EXECUTABLE=<CMAKE_CXX_COMPILER> <FLAGS> <CMAKE_CXX_LINK_FLAGS> <LINK_FLAGS> <OBJECTS> $2 -o <TARGET> <LINK_LIBRARIES>" \
            -DCMAKE_POLICY_VERSION_MINIMUM=3.5 -Wno-dev --no-warn-unused-cli \
            "-DCMAKE_CXX_COMPILE_OBJECT=<CMAKE_CXX_COMPILER> <DEFINES> <INCLUDES> $1 <FLAGS> -march=x86-64 -Wno-error $X -o <OBJECT> -c <SOURCE>" \
            "-DCMAKE_C_COMPILE_OBJECT=<CMAKE_C_COMPILER> <DEFINES> <INCLUDES> <FLAGS> -march=x86-64 -Wno-error $X -o <OBJECT> -c <SOURCE>" > $B/cmake.log 2>&1
    }
    HOOK="$B/cmmc-hook.o -Wl,--export-dynamic-symbol=dst_alloc_hook -Wl,--export-dynamic-symbol=dst_arena_hook -Wl,--export-dynamic-symbol=dst_fill_hook -Wl,--export-dynamic-symbol=dst_pad_hook $WRAP"
    configure "-include $B/pch/pch.hpp" "$HOOK"
    flags=$(grep -m1 -h 'FLAGS = .*-std=' $B/cmmc/build.ninja | sed 's/.*FLAGS = //')
    g++ -DCMMC_ENABLE_DETERMINISTIC -I$B/cmmc/generated -I$R -I$R/cmmc/Support/mimalloc/include $flags -march=x86-64 -Wno-error $X \
        -x c++-header -o $B/pch/pch.hpp.gch $B/pch/pch.hpp > $B/pch.log 2>&1 || rm -f $B/pch/pch.hpp.gch
    if ! [ -e $B/pch/pch.hpp.gch ] || ! ninja -C $B/cmmc cmmc > $B/ninja.log 2>&1; then
        # without the precompiled header
        rm -rf $V/build/cmmc
        configure "" "$HOOK"
        if ! ninja -C $B/cmmc cmmc > $B/ninja.log 2>&1; then
            # without the allocation seam
            configure "" ""
            ninja -C $B/cmmc cmmc > $B/ninja.log 2>&1 || { tail -40 $B/ninja.log; return 1; }
        fi
    fi
    echo "$h" > $B/cmmc.hash
}
tools & T=$!
compiler
wait $T
