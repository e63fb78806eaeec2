// vgomp: a deterministic OpenMP tasking runtime (libgomp ABI) with a controllable scheduler,
// plus the runtime side of gcc's -fsanitize=thread instrumentation used as an exact access recorder.
//
// Every OpenMP thread is a virtual thread; every task (implicit or explicit) runs on its own coroutine
// stack, which is never reused within a case.  Only one coroutine runs at a time, so an execution is
// a function of (input, policy, seed).  The recorded events are the actions of spec/OmpTask.tla.
#include "vg.h"
#include <ucontext.h>
#include <sys/mman.h>
#include <dlfcn.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <vector>
#include <deque>
#include <map>
#include <unordered_map>
#include <algorithm>
#include <string>
#include <unistd.h>
#include <setjmp.h>

#define EXPORT extern "C" __attribute__((visibility("default")))
typedef unsigned long ulong_t;

namespace vg {

// ------------------------------------------------------------------ events
enum Ev { E_PAR = 1, E_IMPL, E_IMPLEND, E_PAREND, E_CREATE, E_START, E_FINISH, E_WAITED, E_BARARR, E_BARDEP,
          E_ACQ, E_REL, E_SEG, E_GRPBEG, E_GRPEND, E_ALLOC, E_FREE, E_MARK, E_WAIT, E_VER, E_STAT, E_STEP };
struct Event { int64_t kind, task, a, b, c, d; };
struct Access { uint64_t lo, hi; uint32_t seg; uint8_t rw; };
struct Viol { int64_t kind; uint64_t addr, len; int64_t rw, block, off, task, seg; };
enum Vk { V_UNKNOWN = 1, V_OOB, V_UAF, V_PERM, V_BADFREE, V_DBLFREE };

static std::vector<Event> events;
static std::vector<uint64_t> depaddrs;
static std::vector<Access> accs;
static std::vector<Viol> viols;
static std::vector<int> segtask;
static bool recording = false;      // log accesses
static bool active = false;         // inside a case

// ------------------------------------------------------------------ arena
static char *arena = nullptr; static size_t arena_size = (size_t)16 << 30, arena_top = 0, arena_hi = 0;
struct Block { uint64_t base, size; int64_t freed; int64_t task; int user; uint8_t *perm; int es; uint64_t site; };
static std::vector<Block> blocks;
static long alloc_count = 0, fail_at = -1, fail_mode = 0, live_lib = 0; static int failed_allocs = 0;
static const size_t REDZ = 64;
static void *real_malloc(size_t n) { return ::malloc(n); }

static void arena_init() {
    if (arena) return;
    arena = (char *)mmap((void *)0x200000000000ull, arena_size, PROT_READ | PROT_WRITE,
                         MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (arena == MAP_FAILED) { perror("vgomp arena"); _exit(3); }
}
static int poison = 0xFF;
static void *arena_alloc(size_t n, int user, bool zero, uint64_t site, bool raw = false) {
    arena_init();
    size_t need = ((n + 63) & ~(size_t)63) + REDZ;
    if (arena_top + need + REDZ > arena_size) { fprintf(stderr, "vgomp: arena full\n"); _exit(3); }
    arena_top += REDZ;
    char *p = arena + arena_top;
    memset(p - REDZ, 0xFF, REDZ);
    if (!raw) { if (zero) memset(p, 0, need); else memset(p, poison, need); }
    arena_top += need;
    if (arena_top > arena_hi) arena_hi = arena_top;
    Block b; b.base = (uint64_t)p; b.size = n; b.freed = -1; b.task = -1; b.user = user; b.perm = nullptr; b.es = 1; b.site = site;
    blocks.push_back(b);
    return p;
}
static inline bool in_arena(uint64_t a) { return arena && a >= (uint64_t)arena && a < (uint64_t)arena + arena_size; }
static int find_block(uint64_t a) {   // last block with base <= a
    size_t lo = 0, hi = blocks.size();
    while (lo < hi) { size_t m = (lo + hi) / 2; if (blocks[m].base <= a) lo = m + 1; else hi = m; }
    return (int)lo - 1;
}

// ------------------------------------------------------------------ tasks
struct Team; struct Group;
struct Task {
    int id; Task *parent; Team *team; Group *group; Group *creategroup;
    void (*fn)(void *); void *data; bool implicit; int tnum;
    ucontext_t ctx; char *stack; size_t stksz; bool reused;
    enum St { CREATED, READY, RUN, DONE } st;
    enum Wait { W_NONE, W_CHILD, W_GROUP, W_BARRIER, W_CRIT, W_PARALLEL, W_DEPS } wait; void *waitobj;
    bool spin;
    int npend; std::vector<Task *> succ; int children; bool final_, undeferred;
    std::unordered_map<uint64_t, std::pair<Task *, std::vector<Task *>>> deps;   // children's dependences
    std::unordered_map<uint64_t, long> acqver;
    int seg; long singlecnt; int barcnt;
    int hostdepth;
};
struct Group { Group *outer; int live; Task *owner; };
struct VThread { std::vector<Task *> st; };
struct Team { int n; std::vector<Task *> impl; std::vector<VThread> vt; std::vector<Task *> ready; int arrived; int bargen;
    long singles; int live; Team *outer; ucontext_t host; Task *hosttask; int id; int last; void *copyprivate;
    long loopbeg, loopend, loopinc, loopchunk; long loopgen; std::vector<long> loopcnt; int nimpl_done; };

static std::vector<Task *> tasks;
static Task *cur = nullptr; static Team *team = nullptr; static Task *root = nullptr;
static int nteams = 0;
static std::map<uint64_t, Task *> critowner;
static std::unordered_map<uint64_t, long> relver;
static std::vector<std::pair<uint64_t, uint64_t>> syncranges;   // request/sequence objects

// scheduler configuration
static int cfg_threads = 1, policy = 0; static uint64_t rng = 1; static std::vector<int> order; static std::vector<int> orderpos;
static long yields = 0, max_yields = 3000000, spinrun = 0, max_spin = 20000;
static int outcome = 0;   // 0 ok, 1 deadlock, 2 livelock
static std::string outcome_text;
static long sched_steps = 0;
static int immediate_pct = 0;

static uint64_t rnd() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }

// versions of watched regions and of a watched status word, observed at every scheduling point
struct Watch { const char *p; size_t rb, ld; long cols; uint32_t last; };
static std::vector<Watch> watches; static std::vector<std::pair<volatile int *, int>> watched; static int heal = 0;
static uint32_t version(const Watch &w) {
    uint64_t h = 1469598103934665603ull;
    for (long j = 0; j < w.cols; j++) { const char *c = w.p + (size_t)j * w.ld; for (size_t i = 0; i < w.rb; i++) { h ^= (unsigned char)c[i]; h *= 1099511628211ull; } }
    return (uint32_t)((h ^ (h >> 31)) & 0x3fffffff);
}
static void observe(Task *t) {
    for (size_t i = 0; i < watches.size(); i++) {
        uint32_t v = version(watches[i]);
        if (v != watches[i].last) { watches[i].last = v; Event e = {E_VER, t ? t->id : 0, (int64_t)i, (int64_t)v, 0, 0}; events.push_back(e); }
    }
    for (size_t i = 0; i < watched.size(); i++) if (*watched[i].first != watched[i].second) {
        Event e = {E_STAT, t ? t->id : 0, *watched[i].first, (int64_t)i, 0, 0}; events.push_back(e);
        if (heal) *watched[i].first = watched[i].second; else watched[i].second = *watched[i].first;
    }
}
static void ev(int k, Task *t, int64_t a = 0, int64_t b = 0, int64_t c = 0, int64_t d = 0) {
    if (!active) return;
    if (!watches.empty() && (k == E_CREATE || k == E_START || k == E_FINISH || k == E_WAIT || k == E_GRPEND || k == E_BARARR || k == E_MARK)) observe(t);
    Event e = {k, t ? t->id : 0, a, b, c, d};
    events.push_back(e);
    if (t) t->seg = -1;
}
static const size_t STK = 1 << 20;
static std::vector<char *> stackpool; static size_t stackused = 0, reuse_at = 0;
static char *new_stack(Task *);
static std::vector<void *> blobs;
static Task *new_task(Task *parent, void (*fn)(void *), void *data) {
    Task *t = new Task();
    t->id = (int)tasks.size(); t->parent = parent; t->fn = fn; t->data = data; t->seg = -1;
    t->st = Task::CREATED; t->wait = Task::W_NONE; t->team = team;
    tasks.push_back(t);
    return t;
}

// ------------------------------------------------------------------ access recording
static struct { Access *a; uint32_t seg; size_t idx; } dummy;
static const int NC = 8;
static size_t cache[2][NC]; static int cpos[2];

static void viol(int kind, uint64_t a, uint64_t len, int rw, int blk) {
    if (viols.size() >= 64) return;
    Viol v = {kind, a, len, rw, blk, blk >= 0 ? (int64_t)(a - blocks[blk].base) : 0, cur ? cur->id : 0, cur ? cur->seg : -1};
    for (auto &x : viols) if (x.kind == kind && x.block == v.block && x.rw == rw && x.task == v.task) return;
    viols.push_back(v);
}
static uint64_t watch_lo = 1, watch_hi = 0;
static void watch_point(uint64_t a, size_t len, int rw);
void access(const void *addr, size_t len, int rw, bool vol) {
    if (watch_lo < watch_hi && active && (uint64_t)addr < watch_hi && (uint64_t)addr + len > watch_lo) watch_point((uint64_t)addr, len, rw);
    if (!active || !recording || len == 0) return;
    uint64_t a = (uint64_t)addr, e = a + len;
    Task *t = cur ? cur : root;
    if (!t) return;
    if (in_arena(a)) {
        int b = find_block(a);
        if (b < 0) viol(V_UNKNOWN, a, len, rw, b);
        else {
            Block &B = blocks[b];
            if (e > B.base + B.size) viol(V_OOB, a, len, rw, b);
            else if (B.freed >= 0) viol(V_UAF, a, len, rw, b);
            else if (B.perm) {   // element touch map: 1 = incoming value read, 2 = written, 4 = read after a write
                size_t o0 = (a - B.base) / B.es, o1 = (e - 1 - B.base) / B.es;
                for (size_t i = o0; i <= o1; i++) {
                    if (rw) B.perm[i] |= 2; else B.perm[i] |= (B.perm[i] & 2) ? 4 : 1;
                }
            }
        }
    } else {
        // own stack, below the frame of the task function: private
        if (t->stack && a >= (uint64_t)t->stack && a < (uint64_t)t->stack + STK) {
            if (t->reused) return;             // the same addresses belonged to another task before
            /* keep: may be shared with children */
        }
    }
    for (auto &r : syncranges) if (a >= r.first && e <= r.second) return;
    if (t->seg < 0) { int s = (int)segtask.size(); segtask.push_back(t->id);
        Event se = {E_SEG, t->id, s, 0, 0, 0}; events.push_back(se); t->seg = s; }
    uint32_t seg = (uint32_t)t->seg;
    for (int i = 0; i < NC; i++) {
        size_t k = cache[rw][i];
        if (k < accs.size()) {
            Access &x = accs[k];
            if (x.seg == seg && x.rw == rw && a <= x.hi && e >= x.lo) { if (a < x.lo) x.lo = a; if (e > x.hi) x.hi = e; return; }
        }
    }
    Access x = {a, e, seg, (uint8_t)rw};
    cache[rw][cpos[rw]++ % NC] = accs.size();
    accs.push_back(x);
}

// ------------------------------------------------------------------ scheduler
static void yield_to_sched();
static void abort_case(int why, const std::string &txt) {
    outcome = why; outcome_text = txt;
    // unrecoverable inside this process: report through the pipe protocol
    extern void report_abort();
    report_abort();
    _exit(0);
}
static void remove_ready(Team *tm, Task *t) { tm->ready.erase(std::find(tm->ready.begin(), tm->ready.end(), t)); }

static void finish_task(Task *t) {
    ev(E_FINISH, t);
    t->st = Task::DONE;
    for (Task *s : t->succ) if (--s->npend == 0 && s->st == Task::CREATED) { s->st = Task::READY; if (!s->undeferred) s->team->ready.push_back(s); }
    if (t->parent) t->parent->children--;
    for (Group *g = t->creategroup; g; g = g->outer) g->live--;
    t->team->live--;
}
static void task_entry(unsigned lo, unsigned hi) {
    Task *t = (Task *)(((uint64_t)hi << 32) | lo);
    t->fn(t->data);
    if (t->implicit) {
        Team *tm = t->team;
        // implicit barrier at the end of the parallel region
        ev(E_BARARR, t, tm->id, tm->bargen);
        t->wait = Task::W_BARRIER; t->waitobj = (void *)(intptr_t)tm->bargen; tm->arrived++;
        yield_to_sched();
        ev(E_IMPLEND, t, tm->id);
        t->st = Task::DONE; tm->nimpl_done++;
    } else finish_task(t);
    t->wait = Task::W_NONE;
    Team *tm = t->team;
    setcontext(&tm->host);
    abort();
}
// beyond MAXSTK stacks (the kernel bounds the number of mappings) those of finished tasks serve again, oldest first
static const size_t MAXSTK = 12000;
static char *new_stack(Task *t) {
    if (stackused >= MAXSTK) {
        for (; reuse_at < tasks.size(); reuse_at++) {
            Task *o = tasks[reuse_at];
            if (o->st != Task::DONE) { if (o == root || !o->stack) continue; break; }
            if (!o->stack || o == cur) continue;
            char *p = o->stack; o->stack = nullptr; t->reused = true; reuse_at++;
            return p;
        }
        for (size_t k = reuse_at; k < tasks.size(); k++) {
            Task *o = tasks[k];
            if (o->st != Task::DONE || !o->stack || o == cur) continue;
            char *p = o->stack; o->stack = nullptr; t->reused = true;
            return p;
        }
    }
    if (stackused < stackpool.size()) return stackpool[stackused++];
    char *p = (char *)mmap(nullptr, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("vgomp stack"); _exit(3); }
    mprotect(p, 4096, PROT_NONE);
    stackpool.push_back(p); stackused++;
    return p;
}
static void start_ctx(Task *t) {
    t->stack = new_stack(t); t->stksz = STK;
    getcontext(&t->ctx);
    t->ctx.uc_stack.ss_sp = t->stack + 4096; t->ctx.uc_stack.ss_size = STK - 4096; t->ctx.uc_link = nullptr;
    uint64_t p = (uint64_t)t;
    makecontext(&t->ctx, (void (*)())task_entry, 2, (unsigned)p, (unsigned)(p >> 32));
}
static void yield_to_sched() {
    Task *t = cur;
    if (!t || !t->team || t == root) return;
    yields++;
    if (!watches.empty()) observe(t);
    swapcontext(&t->ctx, &t->team->host);
}
static bool runnable(Task *t) {
    switch (t->wait) {
    case Task::W_NONE: return true;
    case Task::W_CHILD: return t->children == 0;
    case Task::W_GROUP: return ((Group *)t->waitobj)->live == 0;
    case Task::W_BARRIER: { Team *tm = t->team; int g = (int)(intptr_t)t->waitobj;
        if (tm->bargen > g) return true;
        if (tm->arrived == tm->n && tm->live == 0) { tm->bargen++; tm->arrived = 0; return true; }
        return false; }
    case Task::W_CRIT: return critowner.find((uint64_t)t->waitobj) == critowner.end();
    case Task::W_DEPS: return ((Task *)t->waitobj)->npend == 0;
    default: return false;
    }
}
// ---- exploration of all interleavings with a bounded number of preemptions (policy 6): every decision with more than
// one option is taken from dfs_prefix; a participant that polled the same place three times without any write in between waits
static std::vector<int> dfs_prefix, dfs_taken, dfs_opts; static int dfs_budget = 0, dfs_pre = 0;
static std::vector<int> dfs_pref; static size_t dfs_prefpos = 0;       // policy 7: preferred thread of every step
static long wrver = 0;
struct Poll { uint64_t addr; long ver; int n; };
static std::unordered_map<Task *, Poll> polls;
static void note_read(uint64_t a) { if (!cur) return; Poll &p = polls[cur]; if (p.addr == a && p.ver == wrver) p.n++; else { p.addr = a; p.ver = wrver; p.n = 1; } }
static void note_write() { wrver++; if (cur) polls[cur].n = 0; }
static bool polling(Task *t) { auto i = polls.find(t); return i != polls.end() && i->second.n >= 3 && i->second.ver == wrver; }
static void watch_point(uint64_t a, size_t len, int rw) {
    if (cur && cur->team) { cur->spin = false; yield_to_sched(); }
    if (rw) note_write(); else note_read(a);
}
static bool in_group(Task *t, Group *g) { for (Group *x = t->creategroup; x; x = x->outer) if (x == g) return true; return false; }
struct Opt { int v; Task *pick; };

static void run_team(Team *tm) {
    int last = 0;
    while (tm->nimpl_done < tm->n) {
        std::vector<Opt> opts; bool onlyspin = true;
        for (int v = 0; v < tm->n; v++) {
            if (tm->vt[v].st.empty()) continue;
            Task *t = tm->vt[v].st.back();
            if (t->st == Task::DONE) { tm->vt[v].st.pop_back(); v--; continue; }
            if (runnable(t)) { opts.push_back({v, nullptr}); if (!t->spin) onlyspin = false; continue; }
            if (t->wait == Task::W_CHILD || t->wait == Task::W_DEPS) { for (Task *r : tm->ready) if (r->parent == t) opts.push_back({v, r}), onlyspin = false; }
            else if (t->wait == Task::W_GROUP) { for (Task *r : tm->ready) if (in_group(r, (Group *)t->waitobj)) opts.push_back({v, r}), onlyspin = false; }
            else if (t->wait == Task::W_BARRIER) { for (Task *r : tm->ready) opts.push_back({v, r}), onlyspin = false; }
        }
        if (opts.empty()) {
            std::string s = "deadlock: no runnable thread;";
            for (int v = 0; v < tm->n; v++) if (!tm->vt[v].st.empty()) { char b[64]; Task *t = tm->vt[v].st.back(); snprintf(b, sizeof b, " thread %d task %d wait %d;", v, t->id, (int)t->wait); s += b; }
            abort_case(1, s);
        }
        if (onlyspin) { if (++spinrun > max_spin) abort_case(2, "livelock: every thread spins and no task can make progress"); } else spinrun = 0;
        if (yields > max_yields) abort_case(2, "livelock: yield budget exhausted");
        sched_steps++;
        if (policy >= 6) {
            std::vector<Opt> c;
            for (auto &o : opts) if (o.v == last && !o.pick && !polling(tm->vt[o.v].st.back())) c.push_back(o);
            bool haslast = !c.empty();
            for (auto &o : opts) if (o.v != last && (o.pick || !polling(tm->vt[o.v].st.back()))) c.push_back(o);
            if (c.empty()) abort_case(2, "livelock: every participant polls and nothing can change");
            size_t k = 0;
            if (policy == 7) {
                if (dfs_prefpos < dfs_pref.size()) { int w = dfs_pref[dfs_prefpos++]; for (size_t i = 0; i < c.size(); i++) if (c[i].v == w) k = i; }
            } else if (c.size() > 1) {
                size_t d = dfs_taken.size();
                int nopt = haslast && dfs_pre >= dfs_budget ? 1 : (int)c.size();
                k = d < dfs_prefix.size() ? dfs_prefix[d] : 0;
                dfs_taken.push_back((int)k); dfs_opts.push_back(nopt);
                if (haslast && k) dfs_pre++;
            }
            Task *t;
            if (c[k].pick) { t = c[k].pick; remove_ready(tm, t); t->st = Task::RUN; t->tnum = c[k].v; tm->vt[c[k].v].st.push_back(t); start_ctx(t); ev(E_START, t, c[k].v); }
            else { t = tm->vt[c[k].v].st.back(); t->spin = false; }
            last = c[k].v; cur = t;
            swapcontext(&tm->host, &t->ctx);
            cur = tm->hosttask;
            continue;
        }
        // candidates: non-spinning first unless all spin
        std::vector<Opt> c;
        for (auto &o : opts) { Task *t = tm->vt[o.v].st.back(); if (o.pick || !t->spin) c.push_back(o); }
        if (c.empty()) {       // everybody polls: serve them in turn, one of them may have been released
            int best = 0, bd = 1 << 30;
            for (size_t i = 0; i < opts.size(); i++) { int d = (opts[i].v - last - 1 + 2 * tm->n) % tm->n; if (d < bd) { bd = d; best = (int)i; } }
            c.push_back(policy == 1 ? opts[rnd() % opts.size()] : opts[best]);
        }
        else if (policy == 1 && (rnd() % 16) == 0) c = opts;
        Opt o = c[0];
        switch (policy) {
        case 0: case 2: {      // keep running the same thread; otherwise oldest (0) / newest (2) ready task
            int best = -1;
            for (size_t i = 0; i < c.size(); i++) if (!c[i].pick && c[i].v == last) { best = (int)i; break; }
            if (best < 0) for (size_t i = 0; i < c.size(); i++) if (!c[i].pick) { best = (int)i; break; }
            if (best < 0) { best = 0; for (size_t i = 1; i < c.size(); i++) {
                bool older = c[i].pick->id < c[best].pick->id; if (policy == 0 ? older : c[i].pick->id > c[best].pick->id) best = (int)i; } }
            o = c[best]; break; }
        case 1: o = c[rnd() % c.size()]; break;
        case 3: {              // explicit order of explicit tasks: position in orderpos, running threads first
            int best = -1;
            for (size_t i = 0; i < c.size(); i++) if (!c[i].pick) { best = (int)i; break; }
            if (best < 0) { best = 0; auto pos = [&](Task *t) { return t->id < (int)orderpos.size() && orderpos[t->id] >= 0 ? orderpos[t->id] : 1000000 + t->id; };
                for (size_t i = 1; i < c.size(); i++) if (pos(c[i].pick) < pos(c[best].pick)) best = (int)i; }
            o = c[best]; break; }
        case 4: {              // round robin over threads, tasks picked eagerly
            int best = 0; int bd = 1 << 30;
            for (size_t i = 0; i < c.size(); i++) { int d = (c[i].v - last - 1 + 2 * tm->n) % tm->n; if (d < bd) { bd = d; best = (int)i; } }
            o = c[best]; break; }
        case 5: {              // starve the lowest numbered threads: highest thread first
            int best = 0; for (size_t i = 1; i < c.size(); i++) if (c[i].v > c[best].v || (c[i].v == c[best].v && c[i].pick && c[best].pick && c[i].pick->id > c[best].pick->id)) best = (int)i;
            o = c[best]; break; }
        }
        Task *t;
        if (o.pick) {
            t = o.pick; remove_ready(tm, t);
            t->st = Task::RUN; t->tnum = o.v;
            tm->vt[o.v].st.push_back(t);
            start_ctx(t);
            ev(E_START, t, o.v);
        } else {
            t = tm->vt[o.v].st.back();
            t->spin = false;
        }
        last = o.v;
        cur = t;
        swapcontext(&tm->host, &t->ctx);
        cur = tm->hosttask;
    }
}
static void check_tied_barrier(Task *) {}

static Team *cur_team() { return cur && cur->team ? cur->team : nullptr; }

static void do_parallel(void (*fn)(void *), void *data, unsigned n) {
    if (!active) { fn(data); return; }
    Task *host = cur ? cur : root;
    Team *outer = host->team;
    if (n == 0) n = (unsigned)cfg_threads;
    if (outer) n = 1;
    Team *tm = new Team(); tm->n = (int)n; tm->id = ++nteams; tm->outer = outer; tm->hosttask = host;
    tm->arrived = 0; tm->bargen = 0; tm->singles = 0; tm->live = 0; tm->nimpl_done = 0; tm->loopgen = 0; tm->loopcnt.assign(n, 0);
    tm->vt.resize(n);
    ev(E_PAR, host, tm->id, n);
    Team *saved = team; team = tm;
    for (unsigned i = 0; i < n; i++) {
        Task *t = new_task(host, fn, data); t->implicit = true; t->team = tm; t->tnum = (int)i; t->st = Task::RUN;
        tm->impl.push_back(t); tm->vt[i].st.push_back(t); start_ctx(t);
        ev(E_IMPL, t, tm->id, i, host->id);
    }
    host->seg = -1;
    run_team(tm);
    cur = host; team = saved;
    ev(E_PAREND, host, tm->id);
}

static void do_critical_start(void *obj) {
    Task *t = cur; if (!t || !active || t == root || !t->team) return;
    t->spin = false;
    yield_to_sched();
    while (critowner.count((uint64_t)obj)) { t->wait = Task::W_CRIT; t->waitobj = obj; yield_to_sched(); }
    t->wait = Task::W_NONE;
    critowner[(uint64_t)obj] = t;
    ev(E_ACQ, t, (int64_t)obj, 1);
}
static void do_critical_end(void *obj) {
    Task *t = cur; if (!t || !active || t == root || !t->team) return;
    critowner.erase((uint64_t)obj);
    ev(E_REL, t, (int64_t)obj, 1);
}
static void sync_acq(uint64_t obj) {
    Task *t = cur ? cur : root; if (!t) return;
    long v = relver[obj]; long &mine = t->acqver[obj];
    if (v > mine) { mine = v; ev(E_ACQ, t, (int64_t)obj); }
}
static void sync_rel(uint64_t obj) { Task *t = cur ? cur : root; if (!t) return; t->acqver[obj] = ++relver[obj]; ev(E_REL, t, (int64_t)obj); }

static void add_deps(Task *t, void **dep) {
    Task *p = t->parent;
    size_t n = (size_t)dep[0]; size_t nout, base;
    if (n) { nout = (size_t)dep[1]; base = 2; }
    else { n = (size_t)dep[1]; nout = (size_t)dep[2] + (size_t)dep[3]; base = 5; }
    std::vector<std::pair<uint64_t, bool>> ds;
    for (size_t i = 0; i < n; i++) {
        uint64_t a = (uint64_t)dep[base + i]; bool out = i < nout; bool dup = false;
        for (auto &d : ds) if (d.first == a) { d.second = d.second || out; dup = true; }
        if (!dup) ds.push_back({a, out});
    }
    for (auto &d : ds) {
        depaddrs.push_back(d.first << 1 | (d.second ? 1 : 0));
        auto &e = p->deps[d.first];
        auto edge = [&](Task *q) { if (q && q != t && q->st != Task::DONE) { q->succ.push_back(t); t->npend++; } };
        if (d.second) {
            if (e.second.empty()) edge(e.first); else for (Task *q : e.second) edge(q);
            e.first = t; e.second.clear();
        } else { edge(e.first); e.second.push_back(t); }
    }
}
static void run_inline(Task *t) {      // undeferred task on the creator's thread
    Task *p = cur;
    if (t->npend) { p->wait = Task::W_DEPS; p->waitobj = t; yield_to_sched(); p->wait = Task::W_NONE; }
    Team *tm = t->team;
    t->st = Task::RUN; t->tnum = p->tnum;
    tm->vt[p->tnum].st.push_back(t);
    start_ctx(t);
    ev(E_START, t, p->tnum);
    // the creator stays below t on its thread's stack, the scheduler runs t
    p->spin = false;
    yield_to_sched();
    while (t->st != Task::DONE) yield_to_sched();
    p->seg = -1;
}
} // namespace vg
using namespace vg;

// ------------------------------------------------------------------ libgomp ABI
EXPORT void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned flags) { do_parallel(fn, data, n); }
static void make_task(void (*fn)(void *), void *data, void (*cpyfn)(void *, void *), long sz, long al, bool ifc, unsigned flags, void **dep,
                      long tlstart = 0, long tlend = 0, bool tl = false) {
    Task *p = cur ? cur : root;
    if (!active || !p || !p->team) { // outside a parallel region: sequential
        if (tl) { char *b = (char *)alloca(sz + al); b = (char *)(((uintptr_t)b + al - 1) & ~(uintptr_t)(al - 1));
            if (cpyfn) cpyfn(b, data); else memcpy(b, data, sz); ((long *)b)[0] = tlstart; ((long *)b)[1] = tlend; fn(b); }
        else if (cpyfn) { char *b = (char *)alloca(sz + al); b = (char *)(((uintptr_t)b + al - 1) & ~(uintptr_t)(al - 1)); cpyfn(b, data); fn(b); }
        else fn(data);
        return;
    }
    char *blob = (char *)real_malloc(sz + al + 16); blobs.push_back(blob);
    char *b = (char *)(((uintptr_t)blob + al - 1) & ~(uintptr_t)(al - 1));
    bool rec = recording; (void)rec;
    if (cpyfn) cpyfn(b, data); else memcpy(b, data, sz);
    if (tl) { ((long *)b)[0] = tlstart; ((long *)b)[1] = tlend; }
    Task *t = new_task(p, fn, b);
    t->team = p->team; t->group = nullptr; t->creategroup = p->group ? p->group : p->creategroup;
    t->final_ = (flags & 2) || p->final_;
    t->undeferred = !ifc || p->final_;
    if (!t->undeferred && immediate_pct > 0 && (int)(rnd() % 100) < immediate_pct) t->undeferred = true;
    p->children++; p->team->live++;
    for (Group *g = t->creategroup; g; g = g->outer) g->live++;
    size_t d0 = depaddrs.size();
    if ((flags & 8) && dep) add_deps(t, dep);
    ev(E_CREATE, p, t->id, (int64_t)d0, (int64_t)(depaddrs.size() - d0), t->undeferred ? 1 : 0);
    if (t->undeferred) { run_inline(t); return; }
    if (t->npend == 0) { t->st = Task::READY; p->team->ready.push_back(t); }
    if (policy == 1 || policy == 4 || policy == 5) { p->spin = false; yield_to_sched(); }
}
EXPORT void GOMP_task(void (*fn)(void *), void *data, void (*cpyfn)(void *, void *), long sz, long al, bool ifc, unsigned flags, void **dep, int prio, void *det) {
    make_task(fn, data, cpyfn, sz, al, ifc, flags, dep);
}
EXPORT void GOMP_taskwait(void) {
    Task *t = cur; if (!active || !t || !t->team) return;
    ev(E_WAIT, t);
    t->wait = Task::W_CHILD; t->spin = false; yield_to_sched(); t->wait = Task::W_NONE;
    ev(E_WAITED, t);
}
EXPORT void GOMP_taskwait_depend(void **dep) { GOMP_taskwait(); }
EXPORT void GOMP_taskyield(void) { if (cur && cur->team) { cur->spin = true; yield_to_sched(); } }
EXPORT void GOMP_taskgroup_start(void) {
    Task *t = cur; if (!active || !t || !t->team) return;
    Group *g = new Group(); g->outer = t->group ? t->group : t->creategroup; g->owner = t; g->live = 0; t->group = g;
    ev(E_GRPBEG, t);
}
EXPORT void GOMP_taskgroup_end(void) {
    Task *t = cur; if (!active || !t || !t->team || !t->group) return;
    Group *g = t->group;
    t->wait = Task::W_GROUP; t->waitobj = g; t->spin = false; yield_to_sched(); t->wait = Task::W_NONE;
    t->group = (g->outer && g->outer->owner == t) ? g->outer : nullptr;
    ev(E_GRPEND, t);
}
EXPORT void GOMP_taskloop(void (*fn)(void *), void *data, void (*cpyfn)(void *, void *), long sz, long al, unsigned flags, unsigned long num, int prio, long start, long end, long step) {
    long n = step > 0 ? (end - start + step - 1) / step : (start - end - step - 1) / -step;
    if (n <= 0) return;
    bool nogroup = flags & (1 << 11);
    bool ifc = (flags & (1 << 10)) != 0;
    long nt;
    if (flags & (1 << 9)) { nt = n / (long)num; if (nt < 1) nt = 1; if ((flags & (1 << 14)) && n % (long)num) nt = (n + num - 1) / (long)num; }
    else if (num == 0) nt = cur && cur->team ? cur->team->n : 1; else nt = (long)num;
    if (nt > n) nt = n;
    if (!nogroup) GOMP_taskgroup_start();
    long q = n / nt, r = n % nt, s = start;
    for (long i = 0; i < nt; i++) {
        long cnt = q + (i < r ? 1 : 0); long e = s + cnt * step;
        make_task(fn, data, cpyfn, sz, al, ifc, flags & 3, nullptr, s, e, true);
        s = e;
    }
    if (!nogroup) GOMP_taskgroup_end();
}
EXPORT void GOMP_barrier(void) {
    Task *t = cur; if (!active || !t || !t->team || !t->implicit) return;
    Team *tm = t->team;
    ev(E_BARARR, t, tm->id, tm->bargen);
    int g = tm->bargen; tm->arrived++;
    t->wait = Task::W_BARRIER; t->waitobj = (void *)(intptr_t)g; t->spin = false; yield_to_sched(); t->wait = Task::W_NONE;
    ev(E_BARDEP, t, tm->id, g);
}
EXPORT bool GOMP_single_start(void) {
    Task *t = cur; if (!active || !t || !t->team) return true;
    if (t->singlecnt == t->team->singles) { t->team->singles++; t->singlecnt++; return true; }
    t->singlecnt++; return false;
}
EXPORT void *GOMP_single_copy_start(void) {
    Task *t = cur; Team *tm = t->team;
    if (t->singlecnt == tm->singles) { tm->singles++; t->singlecnt++; return nullptr; }
    t->singlecnt++; GOMP_barrier(); void *p = tm->copyprivate; GOMP_barrier(); return p;
}
EXPORT void GOMP_single_copy_end(void *d) { cur->team->copyprivate = d; GOMP_barrier(); GOMP_barrier(); }
static int dflt_crit, atomic_obj;
EXPORT void GOMP_critical_start(void) { do_critical_start(&dflt_crit); }
EXPORT void GOMP_critical_end(void) { do_critical_end(&dflt_crit); }
EXPORT void GOMP_critical_name_start(void **p) { do_critical_start(p); }
EXPORT void GOMP_critical_name_end(void **p) { do_critical_end(p); }
EXPORT void GOMP_atomic_start(void) { do_critical_start(&atomic_obj); }
EXPORT void GOMP_atomic_end(void) { do_critical_end(&atomic_obj); }
// dynamic work-sharing loops
static bool loop_next(long *s, long *e) {
    Team *tm = cur->team; yield_to_sched();
    if (tm->loopinc > 0 ? tm->loopbeg >= tm->loopend : tm->loopbeg <= tm->loopend) return false;
    *s = tm->loopbeg; long x = tm->loopbeg + tm->loopchunk * tm->loopinc;
    if (tm->loopinc > 0 ? x > tm->loopend : x < tm->loopend) x = tm->loopend;
    *e = x; tm->loopbeg = x; return true;
}
static bool loop_start(long b, long en, long inc, long ch, long *s, long *e) {
    if (!cur || !cur->team) { if (inc > 0 ? b >= en : b <= en) return false; *s = b; *e = en; return true; }
    Team *tm = cur->team; long &c = tm->loopcnt[cur->tnum];
    if (c == tm->loopgen) { tm->loopgen++; tm->loopbeg = b; tm->loopend = en; tm->loopinc = inc; tm->loopchunk = ch < 1 ? 1 : ch; }
    c++;
    return loop_next(s, e);
}
#define LOOP(name) EXPORT bool GOMP_loop_##name##_start(long b, long en, long i, long ch, long *s, long *e) { return loop_start(b, en, i, ch, s, e); } \
    EXPORT bool GOMP_loop_##name##_next(long *s, long *e) { if (!cur || !cur->team) return false; return loop_next(s, e); }
LOOP(dynamic) LOOP(guided) LOOP(static) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided) LOOP(maybe_nonmonotonic_runtime)
EXPORT void GOMP_loop_end(void) { GOMP_barrier(); }
EXPORT void GOMP_loop_end_nowait(void) {}

EXPORT int omp_get_thread_num(void) { return cur && cur->team ? cur->tnum : 0; }
static int fake_threads = 0;
EXPORT void vg_fake_threads(int n) { fake_threads = n; }
EXPORT int omp_get_num_threads(void) { return fake_threads ? fake_threads : cur && cur->team ? cur->team->n : 1; }
EXPORT int omp_get_max_threads(void) { return cfg_threads; }
EXPORT int omp_get_num_procs(void) { return 8; }
static int forced_parallel = 0;
EXPORT void vg_in_parallel(int v) { forced_parallel = v; }
EXPORT int omp_in_parallel(void) { return forced_parallel || (cur && cur->team && cur->team->n > 1); }
EXPORT int omp_in_final(void) { return cur && cur->final_; }
EXPORT int omp_get_level(void) { int l = 0; for (Team *t = cur_team(); t; t = t->outer) l++; return l; }
EXPORT int omp_get_thread_limit(void) { return 1 << 20; }
EXPORT int omp_get_dynamic(void) { return 0; }
EXPORT int omp_get_nested(void) { return 0; }
EXPORT void omp_set_nested(int) {}
EXPORT void omp_set_dynamic(int) {}
EXPORT void omp_set_num_threads(int n) { if (n > 0) cfg_threads = n; }
EXPORT double omp_get_wtime(void) { static double t = 0; return t += 1e-3; }
EXPORT int omp_get_ancestor_thread_num(int) { return 0; }
EXPORT void omp_init_lock(void *l) {}
EXPORT void omp_destroy_lock(void *l) {}
EXPORT void omp_set_lock(void *l) { do_critical_start(l); }
EXPORT void omp_unset_lock(void *l) { do_critical_end(l); }
EXPORT int omp_test_lock(void *l) { if (critowner.count((uint64_t)l)) { if (cur) { cur->spin = true; yield_to_sched(); } return 0; } do_critical_start(l); return 1; }

// ------------------------------------------------------------------ tsan ABI
static void bounds(uint64_t a, size_t len, int rw) {
    if (!in_arena(a)) return;
    int b = find_block(a);
    if (b < 0) viol(V_UNKNOWN, a, len, rw, b);
    else if (a + len > blocks[b].base + blocks[b].size) viol(V_OOB, a, len, rw, b);
    else if (blocks[b].freed >= 0) viol(V_UAF, a, len, rw, b);
}
static void volread(void *p, int n) {
    if (!active) return;
    bounds((uint64_t)p, n, RD);
    if (cur && cur->team) { cur->spin = true; yield_to_sched(); }
    note_read((uint64_t)p);
    sync_acq((uint64_t)p);
    if (cur) cur->spin = false;
}
static void volwrite(void *p, int n) {
    if (!active) return;
    bounds((uint64_t)p, n, WR);
    if (cur && cur->team) { cur->spin = false; yield_to_sched(); }
    note_write();
    sync_acq((uint64_t)p); sync_rel((uint64_t)p);
}
#define RW(n) EXPORT void __tsan_read##n(void *p) { vg::access(p, n, RD); } EXPORT void __tsan_write##n(void *p) { vg::access(p, n, WR); } \
    EXPORT void __tsan_unaligned_read##n(void *p) { vg::access(p, n, RD); } EXPORT void __tsan_unaligned_write##n(void *p) { vg::access(p, n, WR); } \
    EXPORT void __tsan_volatile_read##n(void *p) { volread(p, n); } EXPORT void __tsan_volatile_write##n(void *p) { volwrite(p, n); } \
    EXPORT void __tsan_unaligned_volatile_read##n(void *p) { volread(p, n); } EXPORT void __tsan_unaligned_volatile_write##n(void *p) { volwrite(p, n); }
RW(1) RW(2) RW(4) RW(8) RW(16)
EXPORT void __tsan_read_range(void *p, size_t n) { vg::access(p, n, RD); }
EXPORT void __tsan_write_range(void *p, size_t n) { vg::access(p, n, WR); }
EXPORT void __tsan_init(void) {}
EXPORT void __tsan_func_entry(void *) {}
EXPORT void __tsan_func_exit(void) {}
EXPORT void __tsan_vptr_update(void **, void *) {}
static void atomic_point(const volatile void *p, bool wr) {
    if (!active) return;
    bounds((uint64_t)p, 4, wr ? WR : RD);
    if (cur && cur->team) { cur->spin = !wr; yield_to_sched(); cur->spin = false; }
    if (wr) note_write(); else note_read((uint64_t)p);
    sync_acq((uint64_t)p); if (wr) sync_rel((uint64_t)p);
}
#define AT(bits, T) \
  EXPORT T __tsan_atomic##bits##_load(const volatile T *p, int mo) { atomic_point(p, false); return *p; } \
  EXPORT void __tsan_atomic##bits##_store(volatile T *p, T v, int mo) { atomic_point(p, true); *p = v; } \
  EXPORT T __tsan_atomic##bits##_exchange(volatile T *p, T v, int mo) { atomic_point(p, true); T o = *p; *p = v; return o; } \
  EXPORT T __tsan_atomic##bits##_fetch_add(volatile T *p, T v, int mo) { atomic_point(p, true); T o = *p; *p = o + v; return o; } \
  EXPORT T __tsan_atomic##bits##_fetch_sub(volatile T *p, T v, int mo) { atomic_point(p, true); T o = *p; *p = o - v; return o; } \
  EXPORT T __tsan_atomic##bits##_fetch_and(volatile T *p, T v, int mo) { atomic_point(p, true); T o = *p; *p = o & v; return o; } \
  EXPORT T __tsan_atomic##bits##_fetch_or(volatile T *p, T v, int mo) { atomic_point(p, true); T o = *p; *p = o | v; return o; } \
  EXPORT T __tsan_atomic##bits##_fetch_xor(volatile T *p, T v, int mo) { atomic_point(p, true); T o = *p; *p = o ^ v; return o; } \
  EXPORT int __tsan_atomic##bits##_compare_exchange_strong(volatile T *p, T *e, T v, int mo, int fmo) { atomic_point(p, true); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
  EXPORT int __tsan_atomic##bits##_compare_exchange_weak(volatile T *p, T *e, T v, int mo, int fmo) { atomic_point(p, true); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
  EXPORT T __tsan_atomic##bits##_compare_exchange_val(volatile T *p, T e, T v, int mo, int fmo) { atomic_point(p, true); T o = *p; if (o == e) *p = v; return o; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
EXPORT void __tsan_atomic_thread_fence(int) {}
EXPORT void __tsan_atomic_signal_fence(int) {}

// ------------------------------------------------------------------ wrapped libc
static void *lib_alloc(size_t n, bool zero, void *site) {
    if (!active) return zero ? ::calloc(1, n) : ::malloc(n);
    long k = alloc_count++;
    if (fail_at >= 0 && (fail_mode == 0 ? k == fail_at : k >= fail_at)) { failed_allocs++; ev(E_ALLOC, cur ? cur : root, -1, (int64_t)n); errno = ENOMEM; return nullptr; }
    Task *t = cur ? cur : root;
    void *p = arena_alloc(n, 0, zero, (uint64_t)site);
    blocks.back().task = t ? t->id : 0; live_lib++;
    Event e = {E_ALLOC, t ? t->id : 0, (int64_t)blocks.size() - 1, (int64_t)n, 0, 0}; events.push_back(e);
    return p;
}
EXPORT void *__wrap_malloc(size_t n) { return lib_alloc(n, false, __builtin_return_address(0)); }
EXPORT void *__wrap_calloc(size_t a, size_t b) { return lib_alloc(a * b, true, __builtin_return_address(0)); }
EXPORT void __wrap_free(void *p) {
    if (!p) return;
    uint64_t a = (uint64_t)p;
    if (!in_arena(a)) { ::free(p); return; }
    if (!active) return;
    int b = find_block(a); Task *t = cur ? cur : root;
    if (b < 0 || blocks[b].base != a || blocks[b].user) { viol(V_BADFREE, a, 0, 1, b); return; }
    if (blocks[b].freed >= 0) { viol(V_DBLFREE, a, 0, 1, b); return; }
    vg::access(p, blocks[b].size, WR);       // releasing a block conflicts with every use of it
    blocks[b].freed = (int64_t)events.size(); live_lib--;
    Event e = {E_FREE, t ? t->id : 0, b, 0, 0, 0}; events.push_back(e);
    if (poison) memset(p, 0xFE, blocks[b].size);
}
EXPORT void *__wrap_realloc(void *p, size_t n) {
    if (!p) return __wrap_malloc(n);
    if (!in_arena((uint64_t)p)) return ::realloc(p, n);
    void *q = __wrap_malloc(n); if (!q) return nullptr;
    int b = find_block((uint64_t)p); size_t o = blocks[b].size; memcpy(q, p, o < n ? o : n); __wrap_free(p); return q;
}
EXPORT void *__wrap_memcpy(void *d, const void *s, size_t n) { vg::access(s, n, RD); vg::access(d, n, WR); return memcpy(d, s, n); }
EXPORT void *__wrap_memmove(void *d, const void *s, size_t n) { vg::access(s, n, RD); vg::access(d, n, WR); return memmove(d, s, n); }
EXPORT void *__wrap_memset(void *d, int c, size_t n) { vg::access(d, n, WR); return memset(d, c, n); }
static long lua_states = 0;
struct lua_State; extern "C" lua_State *luaL_newstate(void); extern "C" void lua_close(lua_State *);
EXPORT lua_State *__wrap_luaL_newstate(void) { lua_State *l = luaL_newstate(); if (l) lua_states++; return l; }
EXPORT void __wrap_lua_close(lua_State *l) { lua_states--; lua_close(l); }
EXPORT long vg_lua(void) { return lua_states; }
EXPORT int __wrap_sched_yield(void) { if (active && cur && cur->team) { cur->spin = true; yield_to_sched(); cur->spin = true; } return 0; }
extern "C" int __real_plasma_sequence_init(void *) __asm__("plasma_sequence_init");
extern "C" int __real_plasma_request_init(void *) __asm__("plasma_request_init");
static void addsync(void *p, size_t n) { if (active && p) { for (auto &r : syncranges) if (r.first == (uint64_t)p) return; syncranges.push_back({(uint64_t)p, (uint64_t)p + n}); } }
EXPORT int __wrap_plasma_sequence_init(void *p) { addsync(p, 16); return __real_plasma_sequence_init(p); }
EXPORT int __wrap_plasma_request_init(void *p) { addsync(p, 4); return __real_plasma_request_init(p); }

// ------------------------------------------------------------------ the panel barrier on its own
struct plasma_barrier_any { int w[64]; };
extern "C" void plasma_barrier_init(void *) __attribute__((weak));
extern "C" void plasma_barrier_wait(void *, int) __attribute__((weak));
static struct { int n, k; void *b; std::vector<int> obs; } bar;
static void bar_body(void *) {
    int me = cur->tnum + 1;
    for (int p = 0; p < bar.k; p++) {
        polls[cur].n = 0;
        bar.obs.push_back(me * 2);
        plasma_barrier_wait(bar.b, bar.n);
        bar.obs.push_back(me * 2 + 1);
    }
}
static std::map<std::vector<int>, long> barobs; static std::vector<int> barout;
EXPORT void vg_reset(void); EXPORT void vg_begin(int);
static void bar_once() {
    vg_reset(); vg_begin(1); recording = false;
    static plasma_barrier_any store; memset(&store, 0, sizeof store);
    bar.b = &store; plasma_barrier_init(bar.b);
    watch_lo = (uint64_t)&store; watch_hi = watch_lo + sizeof store;
    dfs_taken.clear(); dfs_opts.clear(); dfs_pre = 0; dfs_prefpos = 0; wrver = 0; polls.clear(); bar.obs.clear();
    do_parallel(bar_body, nullptr, bar.n);
    watch_lo = 1; watch_hi = 0;
    barobs[bar.obs]++;
    active = false;
}
// all interleavings of n participants and k phases with at most pre preemptions, at most maxruns of them; number of runs, negative if cut short
EXPORT long vg_barrier_explore(int n, int k, int pre, long maxruns) {
    bar.n = n; bar.k = k; policy = 6; dfs_budget = pre; dfs_prefix.clear(); long runs = 0;
    for (;;) {
        bar_once(); runs++;
        int i = (int)dfs_taken.size() - 1;
        while (i >= 0 && dfs_taken[i] + 1 >= dfs_opts[i]) i--;
        if (i < 0) return runs;
        if (runs >= maxruns) return -runs;
        dfs_prefix.assign(dfs_taken.begin(), dfs_taken.begin() + i); dfs_prefix.push_back(dfs_taken[i] + 1);
    }
}
EXPORT void vg_barrier_replay(int n, int k, const int *pref, int len) { bar.n = n; bar.k = k; policy = 7; dfs_pref.assign(pref, pref + len); bar_once(); }
EXPORT int vg_barrier_present(void) { return plasma_barrier_init && plasma_barrier_wait; }
EXPORT long vg_barrier_obs(void) { barout.clear(); for (auto &o : barobs) { barout.push_back((int)o.first.size()); for (int x : o.first) barout.push_back(x); } return (long)barout.size(); }
EXPORT const int *vg_barrier_obsptr(void) { return barout.data(); }

// steps of the bulge chasing
#define STEPFN(p, k) \
  extern "C" void __real_plasma_core_##p##gbtype##k##cb(int, int, int, void *, int, void *, void *, void *, void *, int, int, int, int, int, void *) __asm__("plasma_core_" #p "gbtype" #k "cb"); \
  EXPORT void __wrap_plasma_core_##p##gbtype##k##cb(int uplo, int n, int nb, void *A, int lda, void *VQ, void *TQ, void *VP, void *TP, int st, int ed, int sweep, int vb, int wz, void *W) { \
    ev(E_STEP, cur ? cur : root, k, st, ed, sweep); \
    __real_plasma_core_##p##gbtype##k##cb(uplo, n, nb, A, lda, VQ, TQ, VP, TP, st, ed, sweep, vb, wz, W); }
#define STEPFNS(p) STEPFN(p, 1) STEPFN(p, 2) STEPFN(p, 3)
STEPFNS(s) STEPFNS(d) STEPFNS(c) STEPFNS(z)
EXPORT void vg_prefer(const int *pref, int n) { policy = 7; dfs_prefpos = 0; dfs_pref.assign(pref, pref + n); }

// elimination trees given by the specification instead of the built-in generator
static std::map<std::pair<int,int>, std::vector<int>> trees; static long treeused = 0, treecalls = 0;
extern "C" void __real_plasma_tree_operations(int, int, int **, int *, void *, void *) __asm__("plasma_tree_operations");
EXPORT void __wrap_plasma_tree_operations(int mt, int nt, int **ops, int *n, void *s, void *r) {
    treecalls++;
    auto it = trees.find({mt, std::min(mt, nt)});   // wide grids: factor and apply see different numbers of columns
    if (it == trees.end()) { __real_plasma_tree_operations(mt, nt, ops, n, s, r); return; }
    treeused++;
    *n = (int)it->second.size() / 4;
    *ops = (int *)__wrap_malloc(it->second.size() * sizeof(int));
    if (*ops) memcpy(*ops, it->second.data(), it->second.size() * sizeof(int));
}
EXPORT void vg_tree_set(int mt, int nt, const int *ops, int n) { trees[{mt, nt}] = std::vector<int>(ops, ops + 4 * n); }
EXPORT long vg_tree_used(void) { return treeused; }
EXPORT long vg_tree_calls(void) { return treecalls; }

// ------------------------------------------------------------------ driver API
static int abort_fd = -1;
namespace vg { void report_abort() {
    char b[512]; int n = snprintf(b, sizeof b, "{\"abort\":%d,\"text\":\"%s\"}\n", outcome, outcome_text.c_str());
    if (abort_fd >= 0) { ssize_t r = write(abort_fd, b, n); (void)r; }
} }
EXPORT void vg_set_abort_fd(int fd) { abort_fd = fd; }
EXPORT void vg_reset(void) {
    active = false; recording = false;
    for (Task *t : tasks) delete t;
    tasks.clear(); root = cur = nullptr; team = nullptr; nteams = 0;
    for (void *b : blobs) ::free(b);
    blobs.clear();
    for (size_t i = 0; i < stackused; i++) madvise(stackpool[i] + 4096, STK - 4096 - 16384, MADV_DONTNEED);
    stackused = 0; reuse_at = 0;
    if (arena && arena_hi > (64u << 20)) madvise(arena, arena_hi, MADV_DONTNEED);
    arena_top = 0; arena_hi = 0; blocks.clear(); alloc_count = 0; live_lib = 0; fail_at = -1; fail_mode = 0; failed_allocs = 0;
    watches.clear(); watched.clear(); heal = 0;
    events.clear(); depaddrs.clear(); accs.clear(); viols.clear(); segtask.clear();
    critowner.clear(); relver.clear(); syncranges.clear(); yields = spinrun = sched_steps = 0; outcome = 0; outcome_text.clear();
    memset(cache, 0xff, sizeof cache); order.clear(); orderpos.clear(); immediate_pct = 0;
}
EXPORT void vg_config(int threads, int pol, uint64_t seed, int imm) { cfg_threads = threads; policy = pol; rng = seed * 2654435761ull + 88172645463325252ull; if (!rng) rng = 1; for (int i = 0; i < 8; i++) rnd(); immediate_pct = imm; }
EXPORT void vg_limits(long spin, long yl) { max_spin = spin; max_yields = yl; }
EXPORT void vg_order(const int *ids, int n) { orderpos.clear(); for (int i = 0; i < n; i++) { if (ids[i] >= (int)orderpos.size()) orderpos.resize(ids[i] + 1, -1); orderpos[ids[i]] = i; } }
EXPORT void vg_fail(long at, int mode) { fail_at = at; fail_mode = mode; }
EXPORT void vg_begin(int rec) {
    active = true; recording = rec != 0;
    if (!root) { root = new_task(nullptr, nullptr, nullptr); root->st = Task::RUN; cur = root; }
}
// between calls of a long program: the stacks of finished tasks may be used again
EXPORT void vg_recycle(void) { for (Task *t : tasks) t->stack = nullptr; stackused = 0; reuse_at = tasks.size(); }
EXPORT void vg_record(int rec) { recording = rec != 0; }
EXPORT void vg_end(void) { active = false; recording = false; }
EXPORT void *vg_user_alloc(size_t n) { return arena_alloc(n, 1, false, 0); }
EXPORT void *vg_user_raw(size_t n) { return arena_alloc(n, 1, false, 0, true); }   // contents undefined, for sparse use
EXPORT void vg_watch(void *p, size_t rb, size_t ld, long cols) { Watch w = {(const char *)p, rb, ld, cols, 0}; w.last = version(w); watches.push_back(w); }
EXPORT void vg_watch_status(int *p, int h) { heal = h; if (p) watched.push_back({p, *p}); else watched.clear(); }
EXPORT int vg_block_of(void *p) { return in_arena((uint64_t)p) ? find_block((uint64_t)p) : -1; }
EXPORT void vg_touch(void *p, uint8_t *perm, int es) { int b = find_block((uint64_t)p); blocks[b].perm = perm; blocks[b].es = es; }
EXPORT void vg_mark(int a, int b) { ev(E_MARK, cur ? cur : root, a, b); }
EXPORT void vg_syncrange(void *p, size_t n) { bool o = active; active = true; addsync(p, n); active = o; }
EXPORT long vg_nevents(void) { return (long)events.size(); }
EXPORT const Event *vg_events(void) { return events.data(); }
EXPORT long vg_ndeps(void) { return (long)depaddrs.size(); }
EXPORT const uint64_t *vg_deps(void) { return depaddrs.data(); }
EXPORT long vg_nviol(void) { return (long)viols.size(); }
EXPORT const Viol *vg_viols(void) { return viols.data(); }
EXPORT long vg_naccs(void) { return (long)accs.size(); }
EXPORT const Access *vg_accs(void) { return accs.data(); }
EXPORT long vg_allocs(void) { return alloc_count; }
EXPORT long vg_live(void) { return live_lib; }
EXPORT long vg_yields(void) { return yields; }
EXPORT long vg_ntasks(void) { return (long)tasks.size(); }
EXPORT int vg_nblocks(void) { return (int)blocks.size(); }
EXPORT void vg_block(int i, uint64_t *o) { Block &b = blocks[i]; o[0] = b.base; o[1] = b.size; o[2] = b.freed >= 0; o[3] = b.user; o[4] = b.site; o[5] = (uint64_t)b.task; }
EXPORT int vg_site(uint64_t a, char *buf, int n) { Dl_info d; if (dladdr((void *)a, &d) && d.dli_sname) return snprintf(buf, n, "%s", d.dli_sname); if (d.dli_fbase) return snprintf(buf, n, "@%llx", (unsigned long long)(a - (uint64_t)d.dli_fbase)); return snprintf(buf, n, "?"); }
EXPORT int vg_taskfn(int id, char *buf, int n) { if (id < 0 || id >= (int)tasks.size() || !tasks[id]->fn) return snprintf(buf, n, "main"); return vg_site((uint64_t)tasks[id]->fn, buf, n); }

// cells: classes of bytes with the same (segment, rw) history, touched by >= 2 tasks, at least one write
struct CellOut { std::vector<int64_t> v; };
static CellOut cellout;
EXPORT long vg_cells(void) {
    cellout.v.clear();
    std::vector<Access> a(accs);
    std::sort(a.begin(), a.end(), [](const Access &x, const Access &y) { return x.seg != y.seg ? x.seg < y.seg : x.rw != y.rw ? x.rw < y.rw : x.lo < y.lo; });
    std::vector<Access> m;
    for (auto &x : a) {
        if (!m.empty() && m.back().seg == x.seg && m.back().rw == x.rw && x.lo <= m.back().hi) { if (x.hi > m.back().hi) m.back().hi = x.hi; }
        else m.push_back(x);
    }
    struct P { uint64_t pos; uint32_t key; bool open; };
    std::vector<P> ps; ps.reserve(m.size() * 2);
    for (auto &x : m) { uint32_t k = x.seg << 1 | x.rw; ps.push_back({x.lo, k, true}); ps.push_back({x.hi, k, false}); }
    std::sort(ps.begin(), ps.end(), [](const P &x, const P &y) { return x.pos < y.pos; });
    std::map<uint32_t, int> open; std::map<std::vector<uint32_t>, uint64_t> sigs;
    size_t i = 0;
    while (i < ps.size()) {
        uint64_t pos = ps[i].pos;
        while (i < ps.size() && ps[i].pos == pos) { if (ps[i].open) open[ps[i].key]++; else { auto it = open.find(ps[i].key); if (--it->second == 0) open.erase(it); } i++; }
        if (i >= ps.size() || open.empty()) continue;
        bool wr = false; int t0 = -1; bool multi = false;
        for (auto &o : open) { if (o.first & 1) wr = true; int t = segtask[o.first >> 1]; if (t0 < 0) t0 = t; else if (t != t0) multi = true; }
        if (!wr || !multi) continue;
        std::vector<uint32_t> s; for (auto &o : open) s.push_back(o.first);
        sigs.emplace(s, pos);
    }
    for (auto &s : sigs) { cellout.v.push_back((int64_t)s.second); cellout.v.push_back((int64_t)s.first.size()); for (auto k : s.first) cellout.v.push_back(k); }
    return (long)cellout.v.size();
}
EXPORT const int64_t *vg_cellsptr(void) { return cellout.v.data(); }
EXPORT int vg_where(uint64_t a, char *buf, int n) {
    if (in_arena(a)) { int b = find_block(a); if (b >= 0) { char s[128]; vg_site(blocks[b].site, s, sizeof s);
        return snprintf(buf, n, "%s block %d (%llu bytes%s%s) offset %lld", blocks[b].user ? "user" : "library", b, (unsigned long long)blocks[b].size, blocks[b].user ? "" : ", allocated in ", blocks[b].user ? "" : s, (long long)(a - blocks[b].base)); } }
    for (Task *t : tasks) if (t->stack && a >= (uint64_t)t->stack && a < (uint64_t)t->stack + STK) return snprintf(buf, n, "stack of task %d", t->id);
    Dl_info d; if (dladdr((void *)a, &d) && d.dli_sname) return snprintf(buf, n, "global %s", d.dli_sname);
    return snprintf(buf, n, "address %llx", (unsigned long long)a);
}
