/* Command line of the simulator: runs seeds in forked children, writes replay files, replays them. */
#define _GNU_SOURCE
#include "sim.h"
extern int lib_debug;   /* which configuration of the library this is: wl_prog.c */
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <sched.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

void sim_child(const scenario_t *s);
void sim_set_cap(uint64_t n);
static const char *ft_name[FT_KINDS] = { "alloc_null", "thread_create_fail", "signal_raised", "thread_stalled", "sleep_simulated", "cpu_count_varied", "tss_create_fail", "hardware_trap", "user_exception", "affinity_unreadable", "weak_cas_failed" };

static double now_s(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }

static const scenario_t *find(const char *n) {
    const scenario_t *s;
    for (s = scenarios; s->name; s++) if (!strcmp(s->name, n)) return s;
    fprintf(stderr, "no scenario %s\n", n);
    exit(2);
}

static void reset_out(void) {
    R->outcome = OUT_NONE; R->vclass[0] = R->vmsg[0] = 0;
    R->steps = R->switches = R->choices = R->simtime_ns = R->sched_hash = R->log_hash = R->full_hash = 0;
    memset(R->fired, 0, sizeof R->fired);
    R->allocs = R->frees = R->threads = R->accesses = R->atomics = 0;
    R->strategy = R->maxrunnable = R->exit_code = R->exited = R->nlog = 0;
    memset(R->probes, 0, sizeof R->probes);
    R->sched_hash = R->log_hash = 0xcbf29ce484222325ull;
}

/* The system takes back the memory of ended processes late when it is busy: wait rather than make it run out. */
static void wait_memory(void) {
    int i;
    for (i = 0; i < 400; i++) {
        char b[512], *p; long kb = -1; ssize_t n;
        int fd = open("/proc/meminfo", O_RDONLY);
        if (fd < 0) return;
        n = read(fd, b, sizeof b - 1); close(fd);
        if (n <= 0) return;
        b[n] = 0;
        if ((p = strstr(b, "MemAvailable:"))) kb = atol(p + 13);
        if (kb < 0 || kb > 8l << 20) return;
        usleep(25000);
    }
}

/* 0 ok, 1 violation, 2 harness failure */
static int exec_run(const scenario_t *s, double wall) {
    int st, pfd, err = 0;
    pid_t pid;
    struct pollfd pf;
    static unsigned nth;
    if (nth++ % 32 == 0) wait_memory();
    reset_out();
    fflush(NULL);
    pid = fork();
    if (pid < 0) { perror("fork"); return 2; }
    if (!pid) {
        int fd = open("/dev/null", O_RDWR);
        if (!getenv("SIM_STDERR")) { dup2(fd, 1); dup2(fd, 2); }
        dup2(fd, 0);
        sim_child(s);
        _exit(96);
    }
    pfd = (int)syscall(SYS_pidfd_open, pid, 0);
    pf.fd = pfd; pf.events = POLLIN;
    if (pfd >= 0) {
        int r;
        do r = poll(&pf, 1, (int)(wall * 1000)); while (r < 0 && errno == EINTR);
        if (r == 0) {
            kill(pid, SIGKILL);
            waitpid(pid, &st, 0);
            close(pfd);
            snprintf(R->vclass, sizeof R->vclass, "wall-hang");
            snprintf(R->vmsg, sizeof R->vmsg, "no instrumented step for a long time: loop without memory access or blocked outside the simulator");
            R->outcome = OUT_VIOLATION;
            R->full_hash = 1;
            return 1;
        }
        close(pfd);
    }
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) ;
    if (WIFSIGNALED(st)) {
        snprintf(R->vclass, sizeof R->vclass, "killed");
        snprintf(R->vmsg, sizeof R->vmsg, "process killed by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
        R->outcome = OUT_VIOLATION;
        R->full_hash = 2;
        return WTERMSIG(st) == SIGKILL ? 2 : 1;
    }
    if (!strcmp(R->vclass, "harness")) err = 2;
    if (WEXITSTATUS(st) || R->outcome == OUT_NONE) err = 2;
    if (err) { fprintf(stderr, "harness failure: exit %d, %s %s\n", WEXITSTATUS(st), R->vclass, R->vmsg); return 2; }
    return R->outcome == OUT_VIOLATION;
}

static void gen_run(const scenario_t *s, uint64_t base, int variant, uint64_t idx) {
    rng_t g;
    R->seed = rng_mix(rng_mix(base, idx + 1), (uint64_t)variant * 7919 + strlen(s->name) * 131 + (unsigned char)s->name[0]);
    R->variant = variant;
    R->replay = 0; R->ndev = 0; R->nfault = 0; R->prog.n = 0;
    snprintf(R->scenario, sizeof R->scenario, "%s", s->name);
    g.s = rng_mix(R->seed, 0x9e11);
    { static const int fills[] = { 0xA5, 0xFF, 0x01, 0x5A, 0x80, 0x3C };
      R->fill = fills[rng_below(&g, 6)]; }
    R->reuse = rng_pct(&g, 25);
    { static const int cp[] = { 1, 1, 2, 3, 4, 5, 8, 16 };
      int c = (int)rng_below(&g, 64);
      R->cpus = c < 2 ? -c : cp[c & 7]; } /* 0, -1: the affinity mask cannot be read */
    R->wordpts = rng_pct(&g, s->words ? 40 : 8);
    s->gen(&g, variant, &R->prog, R);
}

static void write_replay(const char *path) {
    FILE *f = fopen(path, "w");
    int i;
    if (!f) { perror(path); exit(2); }
    fprintf(f, "simreplay 1\nbuild %s\nscenario %s\nvariant %d\nseed %llu\ncfg %d %d %d %d\n", lib_debug ? "debug" : "release", R->scenario, R->variant, (unsigned long long)R->seed, R->fill, R->reuse, R->cpus, R->wordpts);
    for (i = 0; i < R->prog.n; i++) fprintf(f, "op %d %d %d %d %d\n", R->prog.op[i].depth, R->prog.op[i].kind, R->prog.op[i].a, R->prog.op[i].b, R->prog.op[i].c);
    for (i = 0; i < R->nfault; i++) fprintf(f, "fault %d %d %d\n", R->fault[i].kind, R->fault[i].n, R->fault[i].arg);
    for (i = 0; i < R->ndev; i++) fprintf(f, "dev %u %d\n", R->dev[i].step, R->dev[i].tid);
    fprintf(f, "# class %s\n# message %s\n# hash %016llx\n", R->vclass, R->vmsg, (unsigned long long)R->full_hash);
    fclose(f);
}

static void read_replay(const char *path) {
    FILE *f = fopen(path, "r");
    char line[1024];
    unsigned long long u;
    if (!f) { perror(path); exit(2); }
    R->prog.n = R->nfault = R->ndev = 0;
    R->replay = 1; R->fill = 0xA5; R->cpus = 2;
    while (fgets(line, sizeof line, f)) {
        op_t *o = &R->prog.op[R->prog.n]; fault_t *ft = &R->fault[R->nfault]; dev_t_ *d = &R->dev[R->ndev];
        if (!strncmp(line, "build ", 6) && !strstr(line, lib_debug ? "debug" : "release")) { fprintf(stderr, "this file is for the other build\n"); exit(2); }
        if (sscanf(line, "scenario %31s", R->scenario) == 1) continue;
        if (sscanf(line, "variant %d", &R->variant) == 1) continue;
        if (sscanf(line, "seed %llu", &u) == 1) { R->seed = u; continue; }
        if (sscanf(line, "cfg %d %d %d %d", &R->fill, &R->reuse, &R->cpus, &R->wordpts) == 4) continue;
        if (R->prog.n < MAXOPS && sscanf(line, "op %d %d %d %d %d", &o->depth, &o->kind, &o->a, &o->b, &o->c) == 5) { R->prog.n++; continue; }
        if (R->nfault < MAXFAULT && sscanf(line, "fault %d %d %d", &ft->kind, &ft->n, &ft->arg) == 3) { R->nfault++; continue; }
        if (R->ndev < MAXDEV && sscanf(line, "dev %u %d", &d->step, &d->tid) == 2) R->ndev++;
    }
    fclose(f);
}

static void jstr(FILE *f, const char *s) {
    fputc('"', f);
    for (; *s; s++) { if (*s == '"' || *s == '\\') fputc('\\', f); if ((unsigned char)*s >= 32) fputc(*s, f); }
    fputc('"', f);
}

int main(int argc, char **argv) {
    const char *scen = NULL, *replay = NULL, *outdir = ".", *hashes = NULL;
    uint64_t seed = 1, from = 0, count = 100;
    const char *want = NULL, *outfile = NULL, *sample = NULL;
    int variant = 0, i, stop = 5, cpu = -1, dump = 0, tries = 0;
    double maxs = 1e9, t0, wall = 20;
    if (!getenv("SIM_NOASLR")) {
        int p = personality(0xffffffff);
        if (p >= 0 && !(p & ADDR_NO_RANDOMIZE) && personality(p | ADDR_NO_RANDOMIZE) >= 0) {
            setenv("SIM_NOASLR", "1", 1);
            execv("/proc/self/exe", argv);
        }
    }
    for (i = 1; i + 1 < argc; i += 2) {
        const char *o = argv[i], *v = argv[i + 1];
        if (!strcmp(o, "--scenario")) scen = v;
        else if (!strcmp(o, "--variant")) variant = atoi(v);
        else if (!strcmp(o, "--seed")) seed = strtoull(v, 0, 10);
        else if (!strcmp(o, "--from")) from = strtoull(v, 0, 10);
        else if (!strcmp(o, "--count")) count = strtoull(v, 0, 10);
        else if (!strcmp(o, "--stop")) stop = atoi(v);
        else if (!strcmp(o, "--outdir")) outdir = v;
        else if (!strcmp(o, "--hashes")) hashes = v;
        else if (!strcmp(o, "--replay")) replay = v;
        else if (!strcmp(o, "--max-seconds")) maxs = atof(v);
        else if (!strcmp(o, "--wall")) wall = atof(v);
        else if (!strcmp(o, "--cpu")) cpu = atoi(v);
        else if (!strcmp(o, "--dump")) dump = atoi(v);
        else if (!strcmp(o, "--tries")) tries = atoi(v);
        else if (!strcmp(o, "--class")) want = v;
        else if (!strcmp(o, "--out")) outfile = v;
        else if (!strcmp(o, "--sample")) sample = v;
        else { fprintf(stderr, "unknown option %s\n", o); return 2; }
    }
    if (cpu < 0) cpu = sched_getcpu();
    { cpu_set_t s; CPU_ZERO(&s); CPU_SET(cpu, &s); sched_setaffinity(0, sizeof s, &s); }
    R = mmap(NULL, sizeof *R, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    signal(SIGPIPE, SIG_IGN);
    if (replay) {
        int rc;
        read_replay(replay);
        if (tries) {    /* same program and faults under other schedules, until the class of violation shows up again */
            uint64_t s0 = R->seed;
            for (i = 0; i < tries; i++) {
                R->replay = 0; R->ndev = 0; R->seed = i ? rng_mix(s0, i) : s0;
                rc = exec_run(find(R->scenario), wall);
                if (rc == 1 && (!want || !strcmp(want, R->vclass))) { if (outfile) write_replay(outfile); return 1; }
                if (rc == 2) return 2;
            }
            return 0;
        }
        rc = exec_run(find(R->scenario), wall);
        if (dump) {
            for (i = 0; i < R->nlog; i++) printf("log %d: thr %d ev %d a %d b %d\n", i, R->log[i].thr, R->log[i].ev, R->log[i].a, R->log[i].b);
        }
        printf("{\"rc\": %d, \"class\": ", rc);
        jstr(stdout, R->vclass);
        printf(", \"message\": ");
        jstr(stdout, R->vmsg);
        printf(", \"hash\": \"%016llx\", \"steps\": %llu, \"switches\": %llu}\n", (unsigned long long)R->full_hash, (unsigned long long)R->steps, (unsigned long long)R->switches);
        return rc;
    }
    {
        const scenario_t *s = find(scen);
        uint64_t fired[FT_KINDS] = { 0 }, runs = 0, steps = 0, sw = 0, simt = 0, acc = 0, atom = 0, allocs = 0, thr = 0, strat[5] = { 0 }, probes[32] = { 0 }, maxthr = 0, maxsteps = 0, exits = 0, stalled = 0, withfault[FT_KINDS] = { 0 };
        int nviol = 0, harness = 0, k;
        FILE *hf = hashes ? fopen(hashes, "wb") : NULL;
        char path[600];
        t0 = now_s();
        printf("{\"violations\": [");
        for (uint64_t n = 0; n < count; n++) {
            int rc;
            if (now_s() - t0 > maxs) break;
            gen_run(s, seed, variant, from + n);
            rc = exec_run(s, wall);
            if (rc == 2 || (rc == 1 && !strcmp(R->vclass, "wall-hang"))) {
                /* the machine may have stalled: the same run again, which is the same execution, with more time */
                sleep(2);
                stalled++;
                gen_run(s, seed, variant, from + n);
                rc = exec_run(s, wall * 2);
            }
            runs++; steps += R->steps; sw += R->switches; simt += R->simtime_ns; acc += R->accesses; atom += R->atomics; allocs += R->allocs; thr += R->threads;
            strat[R->strategy]++; exits += R->exited != 0;
            if (R->threads > maxthr) maxthr = R->threads;
            if (R->steps > maxsteps) maxsteps = R->steps;
            for (k = 0; k < FT_KINDS; k++) { fired[k] += R->fired[k]; withfault[k] += R->fired[k] != 0; }
            for (k = 0; k < 32; k++) probes[k] += R->probes[k];
            if (hf) {   /* schedule and event log; 0 for a run without any fault, exception or interleaving */
                uint64_t any = R->switches > 1, h;
                for (k = 0; k < FT_KINDS; k++) any |= k != FT_CPU && R->fired[k];
                h = any ? rng_mix(R->sched_hash, R->log_hash) | 1 : 0;
                fwrite(&h, 8, 1, hf);
            }
            if (sample) { write_replay(sample); break; }
            if (rc == 2) { harness++; break; }
            if (rc == 1) {
                snprintf(path, sizeof path, "%s/%s-%d-%llu.replay", outdir, s->name, variant, (unsigned long long)(from + n));
                write_replay(path);
                printf("%s{\"index\": %llu, \"path\": ", nviol ? ", " : "", (unsigned long long)(from + n));
                jstr(stdout, path); printf(", \"class\": "); jstr(stdout, R->vclass); printf(", \"message\": "); jstr(stdout, R->vmsg);
                printf(", \"hash\": \"%016llx\"}", (unsigned long long)R->full_hash);
                if (++nviol >= stop) break;
            }
        }
        if (hf) fclose(hf);
        printf("], \"runs\": %llu, \"harness\": %d, \"steps\": %llu, \"switches\": %llu, \"simtime_ns\": %llu, \"accesses\": %llu, \"atomics\": %llu, \"allocs\": %llu, \"threads\": %llu, \"max_threads\": %llu, \"max_steps\": %llu, \"exits\": %llu, \"stalled\": %llu, \"wall\": %.3f, \"strategies\": [%llu,%llu,%llu,%llu,%llu], \"fired\": {",
               (unsigned long long)runs, harness, (unsigned long long)steps, (unsigned long long)sw, (unsigned long long)simt, (unsigned long long)acc, (unsigned long long)atom, (unsigned long long)allocs, (unsigned long long)thr, (unsigned long long)maxthr, (unsigned long long)maxsteps, (unsigned long long)exits, (unsigned long long)stalled, now_s() - t0,
               (unsigned long long)strat[0], (unsigned long long)strat[1], (unsigned long long)strat[2], (unsigned long long)strat[3], (unsigned long long)strat[4]);
        for (k = 0; k < FT_KINDS; k++) printf("%s\"%s\": [%llu, %llu]", k ? ", " : "", ft_name[k], (unsigned long long)fired[k], (unsigned long long)withfault[k]);
        printf("}, \"probes\": [");
        for (k = 0; k < 32; k++) printf("%s%llu", k ? "," : "", (unsigned long long)probes[k]);
        printf("]}\n");
        return harness ? 2 : nviol ? 1 : 0;
    }
}
