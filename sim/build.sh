#!/bin/bash
# build.sh OUTDIR [REPO]: builds the simulator with the sources of REPO's working tree.
set -e
OUT=$1; REPO=${2:-/repo}; S=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$OUT"
LIBC=(-D_GNU_SOURCE -include stdlib.h -include malloc.h -include stdbool.h -DC_API=extern "-DFORCEINLINE=inline __attribute__((always_inline))")
for p in RAII ZE; do LIBC+=(-D${p}_MALLOC=malloc -D${p}_FREE=free -D${p}_REALLOC=realloc -D${p}_CALLOC=calloc -D${p}_MEMALIGN=memalign); done
COMMON=(-g -U_FORTIFY_SOURCE -fno-builtin -fno-pie -w)
INST=(-fsanitize=thread --param tsan-distinguish-volatile=0)
DEBUG=(-DUSE_DEBUG -O1) RELEASE=(-O2)       # both configurations of the library: the one its tests are built with, and the one without assertions and stack traces
mkdir -p "$OUT/rel"
pids=()
run() { "$@" & pids+=($!); }
both() { # FILE NAME STANDARD
    run gcc -std=$3 "${COMMON[@]}" "${INST[@]}" "${DEBUG[@]}" -I"$REPO/include" -I"$S" "${LIBC[@]}" -c "$1" -o "$OUT/$2.o"
    run gcc -std=$3 "${COMMON[@]}" "${INST[@]}" "${RELEASE[@]}" -I"$REPO/include" -I"$S" "${LIBC[@]}" -c "$1" -o "$OUT/rel/$2.o"
}
for f in "$S"/wl_*.c; do
    b=$(basename "$f" .c)
    std=gnu99; [ "$b" = wl_tls ] && std=gnu90   # as the library: its thread_local macros define inline functions
    both "$f" "$b" $std
done
for f in "$REPO"/src/*.c; do both "$f" "lib_$(basename "$f" .c)" gnu90; done
for f in "$S"/sim.c "$S"/runner.c "$S"/prog_model.c "$S"/misc_model.c "$S"/scenarios.c; do
    b=$(basename "$f" .c)
    run gcc -std=gnu11 -g -O2 -fno-pie -fno-builtin -w -I"$S" -c "$f" -o "$OUT/$b.o"
done
for p in "${pids[@]}"; do wait "$p"; done
# swar.c reads words which begin inside a block and may end a few bytes behind it: it gets callbacks of its own
RS=(); for n in 1 2 4 8 16; do for k in "" unaligned_ volatile_ unaligned_volatile_; do for w in read write; do RS+=(--redefine-sym "__tsan_$k$w$n=__swar_$k$w$n"); done; done; done
for d in "$OUT" "$OUT/rel"; do objcopy "${RS[@]}" --redefine-sym __tsan_func_entry=__swar_entry --redefine-sym memcpy=__swar_memcpy "$d/lib_swar.o"; done
W=""
for s in malloc calloc realloc free memalign aligned_alloc posix_memalign strdup strndup memcpy memmove memset memcmp strlen strcmp strncmp strstr strcpy strncpy strcat \
  usleep nanosleep sleep sched_yield pthread_create pthread_join pthread_detach pthread_self pthread_exit pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock \
  pthread_cond_wait pthread_cond_signal pthread_cond_broadcast pthread_once pthread_key_create pthread_getspecific pthread_setspecific pthread_key_delete \
  sched_getaffinity sysconf time clock_gettime atexit exit _exit _Exit quick_exit abort __assert_fail fprintf vfprintf fputs fputc putc fwrite backtrace backtrace_symbols_fd backtrace_symbols sigaction signal; do W="$W,--wrap=$s"; done
# only the library and the workloads go through the seams: they are linked together first, with their references renamed
for d in "$OUT" "$OUT/rel"; do
    ld -r -o "$d/inst.o" ${W//,/ } "$d"/lib_*.o "$d"/wl_*.o
    gcc -no-pie -o "$d/simrun.tmp" "$d/inst.o" "$OUT"/{sim,runner,prog_model,misc_model,scenarios}.o -lpthread 2>"$OUT/link.log" || { cat "$OUT/link.log" >&2; exit 1; }
    mv "$d/simrun.tmp" "$d/simrun"
done
