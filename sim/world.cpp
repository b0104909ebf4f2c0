// Deterministic simulation of coroutine programs: the simulator.
#include "sim.hpp"

#include <cxxabi.h>
#include <errno.h>
#include <functional>
#include <initializer_list>
#include <memory>
#include <system_error>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <typeinfo>
#include <unistd.h>
#include <alloca.h>
#include <algorithm>
#include <map>
#include <new>

#include <boost/context/fiber.hpp>      // forced_unwind only

extern "C" {
void * __real_malloc( size_t);
void __real_free( void *);
void * __real_mmap( void *, size_t, int, int, int, off_t);
int __real_munmap( void *, size_t);
int __real_pthread_mutex_lock( pthread_mutex_t *);
int __real_pthread_mutex_trylock( pthread_mutex_t *);
int __real_pthread_mutex_unlock( pthread_mutex_t *);
int __real___cxa_guard_acquire( int64_t *);
void __real___cxa_guard_release( int64_t *);
void __real___cxa_guard_abort( int64_t *);
}

namespace sim {

World W;
static std::map< Tracked const*, int > objs;

const char * const tag_names[NTAGS] = {
    "value", "reference", "control", "validity", "exception", "eh-state", "unwind", "stack", "memory", "value-life", "callable-life",
    "move", "iterator", "fault", "local", "observe", "pipeline", "alignment", "crash", "hang" };
const char * const op_names[NOPS] = {
    "newpull", "newpush", "resume", "read", "yield", "frame", "pop", "return", "throw", "destroy", "movec",
    "movea", "selfm", "adopt", "release", "iter", "synmove", "fault", "switch", "preempt", "deep", "observe",
    "burst", "nest", "mass" };
const char * const seam_names[NSEAMS] = {
    "value-copy", "value-move", "value-dtor", "callable-copy", "callable-move", "callable-dtor", "stack-allocate", "stack-deallocate",
    "operator-new", "local-dtor", "malloc", "mmap", "memory-access" };
const char * const kind_names[NKINDS] = {
    "int", "copy+move", "move-only", "copy-only", "large", "align64", "align256", "string", "T&", "T const&", "void", "uint8",
    "trivial", "large-trivial", "trivial-dtor", "nothrow-move", "not-assignable", "polymorphic", "hostile", "double", "pointer", "unique_ptr", "shared_ptr",
    "function-object", "T const", "int&", "abstract&", "array&", "function&",
    "bool", "enum", "empty", "huge", "pair", "vector", "coroutine", "char&", "pointer&", "volatile&", "local&", "odd" };
const char * const count_names[NCOUNTS] = {
    "ops", "context_switches", "thread_switches", "coroutines", "pull", "push", "completed", "failed", "abandoned", "never_entered",
    "ctor_threw", "transfers", "reads", "unwound_locals", "unwound_nested", "destroyed_during_unwinding", "max_depth",
    "fault_stack_alloc", "fault_malloc", "fault_mmap", "fault_operator_new", "fault_value_copy", "fault_value_move", "fault_callable_copy",
    "fault_throw", "fault_abandon", "fault_dirty_stack", "fault_misaligned_stack",
    "preemptions", "nested_ops", "migrations", "handle_moves", "handle_overwrites", "iter_steps", "iter_ends", "handler_ops", "deep",
    "counterpart_moves", "observations", "known_get_moves", "stacks", "callables", "retry_after_failure", "pipe_stages", "pipe_cut",
    "pipe_exceptions", "bursts", "max_burst", "nestings", "max_nesting",
    "mass_coroutines", "max_crowd", "max_succession", "large_stacks", "moved_while_running", "threads_ended_early",
    "streamed_transfers", "max_stream", "chained_coroutines", "max_chain", "running_handles_tested", "giant_values",
    "memory_accesses", "preempted_at_memory_access", "writes_through_iterators", "pushed_lvalues_changed",
    "segments_added", "max_stack_bytes_in_use" };

// ================================================================ log and verdicts

void ev( const char * what, int64_t a, int64_t b, int64_t c) {
    uint64_t h = W.sh->hash;
    for ( const char * p = what; * p; ++p) { h = ( h ^ (unsigned char) * p) * 0x100000001b3ull; }
    int64_t v[4] = { a, b, c, W.cur };
    for ( int i = 0; i < 4; ++i) { h = ( h ^ (uint64_t) v[i]) * 0x9e3779b97f4a7c15ull; h ^= h >> 29; }
    W.sh->hash = h;
    ++W.sh->events;
    if ( W.verbose) {
        char buf[160];
        int n = snprintf( buf, sizeof( buf), "  [%5u t%d] %-22s %lld %lld %lld\n", W.sh->op, W.cur, what, (long long) a, (long long) b, (long long) c);
        if ( n > 0 && write( 1, buf, (size_t) n) < 0) {}
    }
}

void fail( Tag tag, const char * code, const char * fmt, ...) {
    Shared * sh = W.sh;
    sh->tag = tag;
    snprintf( sh->code, sizeof( sh->code), "%s", code);
    sh->msg[0] = 0;
    if ( fmt) {
        va_list ap;
        va_start( ap, fmt);
        vsnprintf( sh->msg, sizeof( sh->msg), fmt, ap);
        va_end( ap);
    }
    ev( code, tag);
    sh->status = 2;
    _exit( 1);
}

void harness_error( const char * fmt, ...) {
    Shared * sh = W.sh;
    va_list ap;
    va_start( ap, fmt);
    vsnprintf( sh->msg, sizeof( sh->msg), fmt, ap);
    va_end( ap);
    snprintf( sh->code, sizeof( sh->code), "harness");
    sh->status = 3;
    _exit( 2);
}

Quiet::Quiet() : saved( W.active ? W.thr().in_lib : false), t( W.active ? & W.thr() : nullptr) { if ( t) t->in_lib = false; }
Quiet::~Quiet() { if ( t) t->in_lib = saved; }

void begin_lib() { W.thr().in_lib = true; }
void end_lib() { W.thr().in_lib = false; }
bool being_unwound( int co) { return co >= 0 && co < (int) W.cos.size() && W.cos[co]->unwinding; }

__attribute__((noinline)) EhState eh_state() {
    struct G { void * caught; unsigned int uncaught; };
    G * g = reinterpret_cast< G * >( abi::__cxa_get_globals() );
    EhState s = { g->caught, g->uncaught };
    return s;
}

static inline Co * co_of( int chan) { return chan >= 0 && chan < (int) W.cos.size() ? W.cos[chan] : nullptr; }

// ================================================================ tracked objects

static Tag life_tag( int cls) {
    switch ( cls) {
        case K_VAL: return T_VLIFE;
        case K_FN: return T_FLIFE;
        case K_EXC: return T_EXC;
        case K_REF: return T_REF;
        default: return T_LOCAL;
    }
}

void Tracked::book( ObjClass c, uint64_t id_, int chan_, uint32_t st_) {
    if ( ! W.active) { self = this; st = LIVE; cls = c; id = id_; chan = chan_; return; }
    Quiet q;
    auto it = objs.find( this);
    if ( it != objs.end() ) fail( life_tag( c), "constructed-over-live-object", "%d", (int) c);
    id = id_; self = this; st = st_; chan = chan_; cls = (uint8_t) c;
    objs.insert( it, std::make_pair( this, (int) c) );
    ++W.live[c];
    if ( Co * co = co_of( chan) ) {
        if ( c == K_VAL) ++co->live_vals;
        if ( c == K_FN) ++co->live_fns;
    }
}

void Tracked::unbook() {
    if ( ! W.active) return;
    Quiet q;
    auto it = objs.find( this);
    if ( it == objs.end() ) fail( life_tag( cls & 7), "destroyed-but-not-alive", "class %d state %x", cls, st);
    if ( ! good() ) fail( life_tag( it->second), "destroyed-object-corrupt", "class %d state %x", it->second, st);
    objs.erase( it);
    --W.live[cls];
    if ( Co * co = co_of( chan) ) {
        if ( cls == K_VAL) --co->live_vals;
        if ( cls == K_FN) --co->live_fns;
    }
    st = DEAD;
    self = nullptr;
}

void Tracked::check( const char * what) const {
    if ( ! W.active) return;
    Quiet q;
    if ( ! objs.count( this) || ! good() ) fail( life_tag( cls & 7), what, "not alive");
}

void ValBase::copy_from( ValBase const& o) {
    o.check( "copied-from-dead-value");
    if ( W.active) {
        Thr & t = W.thr();
        if ( t.in_lib && t.nocopy >= 0 && t.nocopy == o.chan) fail( T_VLIFE, "rvalue-copied");
        seam( S_VCOPY, o.chan);
    }
    book( K_VAL, o.id, o.chan, o.st);
}

void ValBase::move_from( ValBase & o) {
    o.check( "moved-from-dead-value");
    seam( S_VMOVE, o.chan);
    book( K_VAL, o.id, o.chan, o.st);
    o.st = MOVED;
}

void ValBase::move_from_nothrow( ValBase & o) noexcept {
    o.check( "moved-from-dead-value");
    seam_nothrow( S_VMOVE, o.chan);
    book( K_VAL, o.id, o.chan, o.st);
    o.st = MOVED;
}

uint64_t PTrk::vid() const { return id; }

void ETrk::tick( int n) { if ( W.active) W.live[K_VAL] += n; }
ETrk::ETrk( ETrk const&) { seam( S_VCOPY, -1); tick( 1); }
ETrk::ETrk( ETrk &&) { seam( S_VMOVE, -1); tick( 1); }

DTrk::DTrk( DTrk const& o) : id( o.id), self( this), st( o.st), chan( o.chan) {
    if ( ! W.active) return;
    if ( ! o.good() ) fail( T_VALUE, "copied-from-garbage");
    Thr & t = W.thr();
    if ( t.in_lib && t.nocopy >= 0 && t.nocopy == o.chan) fail( T_VLIFE, "rvalue-copied");
    seam( S_VCOPY, o.chan);
}
DTrk::DTrk( DTrk && o) : id( o.id), self( this), st( o.st), chan( o.chan) {
    if ( ! W.active) return;
    if ( ! o.good() ) fail( T_VALUE, "moved-from-garbage");
    seam( S_VMOVE, o.chan);
    o.st = Tracked::MOVED;
}
DTrk & DTrk::operator=( DTrk const& o) {
    if ( ! o.good() || ! good() ) fail( T_VALUE, "assigned-from-garbage");
    seam( S_VCOPY, o.chan);
    id = o.id; st = o.st; chan = o.chan;
    return * this;
}
DTrk & DTrk::operator=( DTrk && o) {
    if ( ! o.good() || ! good() ) fail( T_VALUE, "assigned-from-garbage");
    seam( S_VMOVE, o.chan);
    if ( this != & o) { id = o.id; st = o.st; chan = o.chan; o.st = Tracked::MOVED; }
    return * this;
}

void ValBase::assign_from( ValBase const& o, bool move, bool may_fail) {
    check( "assigned-to-dead-value");
    o.check( "assigned-from-dead-value");
    if ( & o == this) return;
    if ( may_fail) seam( move ? S_VMOVE : S_VCOPY, o.chan); else seam_nothrow( S_VMOVE, o.chan);
    Quiet q;
    if ( chan != o.chan) {
        if ( Co * c = co_of( chan) ) --c->live_vals;
        if ( Co * c = co_of( o.chan) ) ++c->live_vals;
    }
    id = o.id; st = o.st; chan = o.chan;
    if ( move) const_cast< ValBase & >( o).st = MOVED;
}

void check_aligned( void const* p, std::size_t n) {
    if ( ! W.active) return;
    void const* volatile v = p;             // keeps the compiler from assuming the alignment
    uintptr_t a = reinterpret_cast< uintptr_t >( (void const*) v);
    if ( a & ( n - 1) ) fail( T_ALIGN, "value-misaligned", "%zu", n);
}

// ---- references

static uint64_t ref_model[NREFS];
static RefObj * refs = nullptr;

RefObj::RefObj() : payload( 0), ack( 0), arr{ 1, 2, 3 }, ptr( this) { book( K_REF, 0, -1); }
RefObj::RefObj( RefObj const& o) : payload( o.payload), ack( o.ack) { if ( W.active) fail( T_REF, "referred-object-copied"); book( K_REF, 0, -1); }
RefObj::RefObj( RefObj && o) : payload( o.payload), ack( o.ack) { if ( W.active) fail( T_REF, "referred-object-moved"); book( K_REF, 0, -1); }
RefObj & RefObj::operator=( RefObj const&) { if ( W.active) fail( T_REF, "referred-object-assigned"); return * this; }
RefObj::~RefObj() { if ( W.active) fail( T_REF, "referred-object-destroyed"); }
RefObj & ref_pool( unsigned i) { return refs[i % NREFS]; }
int ref_index( void const* p) {
    uintptr_t a = reinterpret_cast< uintptr_t >( p), b = reinterpret_cast< uintptr_t >( refs);
    return a < b || a >= b + sizeof( RefObj) * NREFS ? -1 : (int) ( ( a - b) / sizeof( RefObj) );
}

// ---- callables

FnCore::FnCore( int chan_, uint64_t t) : tag( t) { W.count( C_CXX11FN); book( K_FN, t, chan_); }
FnCore::FnCore( FnCore const& o) : tag( o.tag) {
    o.check( "copied-from-dead-callable");
    Co const* co = co_of( o.chan);
    if ( co && co->fn_moved && W.active) fail( T_FLIFE, "rvalue-callable-copied");
    seam( S_FCOPY, o.chan);
    book( K_FN, o.id, o.chan, o.st);
}
FnCore::FnCore( FnCore const& o, bool) : tag( o.tag) {
    o.check( "copied-from-dead-callable");
    seam_nothrow( S_FCOPY, o.chan);
    book( K_FN, o.id, o.chan, o.st);
}
FnCore::FnCore( FnCore && o) : tag( o.tag) {
    o.check( "moved-from-dead-callable");
    seam( S_FMOVE, o.chan);
    book( K_FN, o.id, o.chan, o.st);
    o.st = MOVED;
}
FnCore::~FnCore() {
    if ( W.active) {
        Co * co = co_of( chan);
        if ( co && co->running_fn == this && ! co->left) fail( T_FLIFE, "callable-destroyed-while-running");
        seam( S_FDTOR, chan);
    }
    unbook();
    tag = 0xdeadull;
}

// ================================================================ stacks

static const std::size_t SLOT = 512 * 1024, NSLOT = 512, RED = 512, GUARD = 4096, FILLED = 12 * 1024;
static char * arena = nullptr;
static std::vector< int > slot_rec( NSLOT, -1);         // record that used the slot last
static std::vector< int > slot_free;
static int slot_next = 0;
static const unsigned char REDBYTE = 0xA7, POISON = 0xDB;

void arena_init() {
    void * hint = reinterpret_cast< void * >( 0x6f0000000000ull);
    arena = static_cast< char * >( __real_mmap( hint, SLOT * NSLOT, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0) );
    if ( arena == MAP_FAILED) { perror( "mmap"); _exit( 2); }
    slot_free.reserve( NSLOT);
}

bool in_arena( void const* p) { return p >= arena && p < arena + SLOT * NSLOT; }

static void check_red( StackRec const& r) {
    if ( ! r.arena) return;
    for ( std::size_t i = 0; i < RED; ++i) {
        if ( (unsigned char) r.bot[ -1 - (long) i] != REDBYTE) fail( T_MEM, "wrote-below-stack", "%zu bytes below, co %d", i + 1, r.co);
        if ( (unsigned char) r.top[i] != REDBYTE) fail( T_MEM, "wrote-above-stack", "%zu bytes above, co %d", i, r.co);
    }
}

static void check_poison( StackRec const& r) {
    std::size_t n = std::min( r.size, std::size_t( 16 * 1024) );
    for ( std::size_t i = 1; i <= n; ++i)
        if ( (unsigned char) r.top[ - (long) i] != POISON) fail( T_MEM, "wrote-to-released-stack", "%zu below top, co %d", i, r.co);
}

static void stack_books( char * bot, char * top, std::size_t size, uint64_t key, int slot, bool arena_) {
    Thr & t = W.thr();
    Co * co = t.creating;
    if ( ! co) fail( T_STACK, "stack-allocated-outside-construction");
    if ( co->n_alloc) fail( T_STACK, "second-stack-allocated", "co %d", co->id);
    if ( size < co->want) fail( T_STACK, "stack-smaller-than-asked-for", "%zu instead of %zu", size, co->want);
    ++co->n_alloc;
    co->sbot = bot; co->stop = top; co->alloc_key = key;
    StackRec r;
    r.live = true; r.bot = bot; r.top = top; r.size = size; r.co = co->id; r.key = key; r.slot = slot; r.arena = arena_;
    if ( slot >= 0) slot_rec[slot] = (int) W.stacks.size();
    W.stacks.push_back( r);
    W.count( C_STACKS);
    ev( "stack+", co->id, (int64_t) size);
}

StackRegion stack_alloc( std::size_t size, unsigned mis, uint64_t key) {
    Quiet q;
    int slot;
    if ( W.prog.cfg.policy != 0 && ! slot_free.empty() ) {
        slot = slot_free.back();
        slot_free.pop_back();
        StackRec & old = W.stacks[slot_rec[slot] ];
        if ( W.prog.cfg.policy == 1) check_poison( old);
        W.count( C_F_DIRTY);
    } else if ( slot_next < (int) NSLOT) {
        slot = slot_next++;
    } else if ( ! slot_free.empty() ) {
        slot = slot_free.front();
        slot_free.erase( slot_free.begin() );
    } else {
        harness_error( "arena exhausted");
    }
    // layout: guard page | red zone | stack | red zone | guard page
    std::size_t sz = size;
    if ( sz > SLOT - 4 * GUARD) harness_error( "stack too large %zu", size);
    char * base = arena + (std::size_t) slot * SLOT + GUARD;
    std::size_t span = ( sz + 2 * RED + 64 + 4095 + 16) & ~std::size_t( 4095);
    // the stack sits as high as possible, so that running off either end soon meets a guard page
    char * top = base + span - RED - ( 64 - mis % 64) % 64;
    if ( mis % 64 == 0) top = base + span - RED;
    char * bot = top - sz;
    if ( mis == 0) { bot = reinterpret_cast< char * >( reinterpret_cast< uintptr_t >( bot) & ~uintptr_t( 15) ); top = bot + sz; }
    bool used = slot_rec[slot] >= 0;
    if ( mprotect( base, span, PROT_READ | PROT_WRITE) != 0) harness_error( "mprotect");
    if ( ! ( used && W.prog.cfg.policy == 2) ) {
        std::size_t n = std::min( sz, FILLED);
        memset( top - n, (int) ( W.prog.cfg.fill & 0xff), n);
    }
    memset( bot - RED, REDBYTE, RED);
    memset( top, REDBYTE, RED);
    if ( mis) W.count( C_F_MISALIGN);
    stack_books( bot, top, sz, key, slot, true);
    StackRegion g = { bot, top };
    return g;
}

// asked of the kernel, which does not fault
static bool writable( char * p) { return syscall( SYS_getrandom, p, 1, 0) == 1; }

void stack_adopt( char * top, std::size_t size, uint64_t key, std::size_t guard) {
    Quiet q;
    stack_books( top - size, top, size, key, -1, false);
    if ( guard && writable( top - size) ) fail( T_MEM, "guard-page-accessible");
    W.thr().creating->sbot += guard;
    W.stacks.back().bot += guard;
}

static void stack_release( StackRec & r) {
    Co * co = co_of( r.co);
    char here;
    if ( & here >= r.bot && & here < r.top) fail( T_STACK, "stack-released-while-running-on-it");
    if ( co->entered && ! co->left) fail( T_STACK, "stack-released-before-function-left", "co %d", co->id);
    if ( ! co->ctx.locals.empty() ) fail( T_STACK, "stack-released-with-live-locals", "co %d", co->id);
    auto it = objs.lower_bound( reinterpret_cast< Tracked const* >( r.bot) );
    if ( it != objs.end() && reinterpret_cast< char const* >( it->first) < r.top)
        fail( T_STACK, "stack-released-with-live-object", "class %d", it->second);
    check_red( r);
    r.live = false;
    ++co->n_free;
    ev( "stack-", co->id);
    if ( r.arena) {
        char * base = arena + (std::size_t) r.slot * SLOT;
        if ( W.prog.cfg.policy == 0) {
            if ( mprotect( base, SLOT, PROT_NONE) != 0) harness_error( "mprotect");
        } else if ( W.prog.cfg.policy == 1) {
            std::size_t n = std::min( r.size, std::size_t( 16 * 1024) );
            memset( r.top - n, POISON, n);
        }
        slot_free.push_back( r.slot);
    }
}

void stack_free( char * top, std::size_t size, uint64_t key, bool check_size) {
    Quiet q;
    for ( std::size_t i = W.stacks.size(); i-- > 0; ) {
        StackRec & r = W.stacks[i];
        if ( ! r.live || r.top != top) continue;
        if ( check_size && r.size != size) fail( T_STACK, "stack-released-with-wrong-size");
        if ( r.key != key) fail( T_STACK, "stack-released-to-wrong-allocator");
        stack_release( r);
        return;
    }
    fail( T_STACK, "stack-released-unknown");
}

static void stack_free_bottom( char * bot) {
    Quiet q;
    for ( std::size_t i = W.stacks.size(); i-- > 0; ) {
        StackRec & r = W.stacks[i];
        if ( ! r.live || r.bot != bot) continue;
        stack_release( r);
        return;
    }
    fail( T_STACK, "stack-released-unknown");
}

// ================================================================ seams

static void join_ended() {              // a thread that ended is gone, with all its thread-local storage, before anything else happens
    if ( W.ended < 0) return;
    int e = W.ended;
    W.ended = -1;
    if ( pthread_join( W.thr_[e].th, nullptr) != 0) harness_error( "pthread_join");
}

static void switch_to( int t) {
    int me = W.cur;
    if ( t == me) return;
    W.count( C_SWITCH_THR);
    ev( "thread", me, t);
    W.cur = t;
    sem_post( & W.thr_[t].sem);
    while ( sem_wait( & W.thr_[me].sem) != 0) {}
    join_ended();
}

static int other_thread( uint32_t a) {
    int n = (int) W.prog.cfg.threads;
    for ( int i = 0; i < n; ++i) {
        int t = ( W.cur + 1 + (int) ( a % (uint32_t) n) + i) % n;
        if ( t != W.cur && ! W.thr_[t].done) return t;
    }
    return -1;
}

static void nested_op( uint32_t a);
static std::size_t stack_left();
static std::size_t room( std::size_t n) { return n + ( W.prog.cfg.kinds >> V_HUGE & 1 ? 48 * 1024 : 0); }

static bool is_stack_seam( int s) { return s == S_ALLOC || s == S_MALLOC || s == S_MMAP; }

// pre-emption; false if this is not inside a library operation
static bool seam_preempt( Seam s, int chan) {
    if ( ! W.active) return false;
    if ( ! W.thr().in_lib) return false;
    if ( W.thr().locked <= 0) {
        Thr & t = W.thr();
        if ( t.p_active == (int) s || ( t.p_active == NSEAMS && s != S_ACCESS) ) {
            if ( t.p_n > 0) { --t.p_n; }
            else {
                uint32_t arg = t.p_arg;
                t.p_active = -1;
                Quiet q;
                int o = other_thread( arg);
                if ( s == S_ACCESS) {
                    if ( arg & 1) { t.p_active = S_ACCESS; t.p_n = arg >> 8 & 7; t.p_arg = arg >> 1; }
                    if ( o < 0) return true;
                    W.count( C_PREEMPT_ACCESS);
                    ev( "preempt", s, chan);
                    switch_to( o);
                } else if ( o >= 0 && ( arg & 1) == 0) {
                    W.count( C_PREEMPT);
                    ev( "preempt", s, chan);
                    switch_to( o);
                } else if ( stack_left() > room( 24 * 1024) ) {
                    W.count( C_NESTED);
                    ev( "nested", s, chan);
                    nested_op( arg >> 1);
                }
            }
        }
    }
    return true;
}

void seam_nothrow( Seam s, int chan) { seam_preempt( s, chan); }

// returns true if the armed fault fires here (the caller makes it happen)
static bool seam_point( Seam s, int chan) {
    if ( ! seam_preempt( s, chan) ) return false;
    Thr & t = W.thr();
    if ( t.f_active == (int) s || ( is_stack_seam( t.f_active) && is_stack_seam( s) ) ) {
        if ( t.f_n > 0) { --t.f_n; return false; }
        t.f_active = -1;
        t.f_fired = true;
        static const Count cs[NSEAMS] = { C_F_VCOPY, C_F_VMOVE, NCOUNTS, C_F_FNCOPY, NCOUNTS, NCOUNTS, C_F_ALLOC, NCOUNTS, C_F_NEW, NCOUNTS, C_F_MALLOC, C_F_MMAP, NCOUNTS };
        if ( cs[s] != NCOUNTS) W.count( cs[s]);
        ev( "fault", s, chan);
        return true;
    }
    return false;
}

struct SimFault { uint64_t id; };
static ExcId exc_norm( unsigned type, uint64_t id);

void raise_fault( int) {
    Thr & t = W.thr();
    uint64_t id = W.next_id++;
    unsigned type = 1 + (unsigned) ( id * 7 % (uint64_t) ( NEXC - 1) );
    if ( id % 3 && type != E_FAULT && type != E_BADALLOC) {
        Quiet q;
        t.f_exc = exc_norm( type, id);
        sim_throw( type, id);
    }
    t.f_exc = ExcId{ E_FAULT, id };
    throw SimFault{ id };
}

// every access to memory that library code makes is reported here if it was compiled with -fsanitize=thread (see CONFIGS in
// check.py; the sanitizer's own run-time library is not linked)
static inline void access() {
    if ( ! W.active || ! W.thr().in_lib) return;
    W.count( C_ACCESSES);
    if ( W.thr().p_active == S_ACCESS) seam_preempt( S_ACCESS, -1);
}

void seam( Seam s, int chan) {
    if ( seam_point( s, chan) ) {
        if ( s == S_NEW || ( s == S_ALLOC && W.next_id % 2) ) {
            W.thr().f_exc = ExcId{ E_BADALLOC, 0 };
            throw std::bad_alloc();
        }
        raise_fault( chan);
    }
}

}

extern "C" {

#define SIM_TSAN( n) void __tsan_read##n( void *) { sim::access(); } void __tsan_write##n( void *) { sim::access(); } void __tsan_read_write##n( void *) { sim::access(); } \
    void __tsan_unaligned_read##n( void *) { sim::access(); } void __tsan_unaligned_write##n( void *) { sim::access(); } void __tsan_unaligned_read_write##n( void *) { sim::access(); }
SIM_TSAN( 1) SIM_TSAN( 2) SIM_TSAN( 4) SIM_TSAN( 8) SIM_TSAN( 16)
void __tsan_read_range( void *, unsigned long) { sim::access(); }
void __tsan_write_range( void *, unsigned long) { sim::access(); }
void __tsan_vptr_update( void **, void *) { sim::access(); }
void __tsan_vptr_read( void **) { sim::access(); }
void __tsan_init() {}
void __tsan_func_entry( void *) {}
void __tsan_func_exit() {}

void * __wrap_malloc( size_t n) {
    using namespace sim;
    if ( W.active && n >= 1024) {
        Thr & t = W.thr();
        if ( t.in_lib && t.creating) {
            // a pool asks again for less: once out of memory, it stays so for the whole operation
            if ( t.f_sticky || seam_point( S_MALLOC, t.creating->id) ) {
                W.thr().f_exc = ExcId{ E_BADALLOC, 0 };
                W.thr().f_sticky = true;
                errno = ENOMEM;
                return nullptr;
            }
            if ( ! t.in_base) return stack_alloc( n, 0, 0).bot;
        }
    }
    return __real_malloc( n);
}

void __wrap_free( void * p) {
    using namespace sim;
    if ( p && in_arena( p) ) {
        if ( W.active) seam_point( S_FREE, -1);
        stack_free_bottom( static_cast< char * >( p) );
        return;
    }
    __real_free( p);
}

void * __wrap_mmap( void * a, size_t n, int p, int f, int fd, off_t o) {
    using namespace sim;
    if ( W.active) {
        Thr & t = W.thr();
        if ( t.in_lib && t.creating && seam_point( S_MMAP, t.creating->id) ) {
            W.thr().f_exc = ExcId{ E_BADALLOC, 0 };
            errno = ENOMEM;
            return MAP_FAILED;
        }
    }
    return __real_mmap( a, n, p, f, fd, o);
}

int __wrap_munmap( void * a, size_t n) { return __real_munmap( a, n); }

// The baton is not handed on while a thread holds a lock: the others would wait for it in the kernel, not in the simulator.
// (Only locks that library code takes by itself; the current library has none.)
static void lock_taken( bool yes) { if ( yes && sim::W.active) ++sim::W.thr().locked; }
static void lock_given() { if ( sim::W.active && sim::W.thr().locked > 0) --sim::W.thr().locked; }
int __wrap_pthread_mutex_lock( pthread_mutex_t * m) { int r = __real_pthread_mutex_lock( m); lock_taken( r == 0); return r; }
int __wrap_pthread_mutex_trylock( pthread_mutex_t * m) { int r = __real_pthread_mutex_trylock( m); lock_taken( r == 0); return r; }
int __wrap_pthread_mutex_unlock( pthread_mutex_t * m) { lock_given(); return __real_pthread_mutex_unlock( m); }
int __wrap___cxa_guard_acquire( int64_t * g) { int r = __real___cxa_guard_acquire( g); lock_taken( r != 0); return r; }
void __wrap___cxa_guard_release( int64_t * g) { lock_given(); __real___cxa_guard_release( g); }
void __wrap___cxa_guard_abort( int64_t * g) { lock_given(); __real___cxa_guard_abort( g); }

}

namespace sim { HeapBlocks heap_blocks; }

void * operator new( std::size_t n) {
    if ( sim::W.active && sim::W.thr().in_lib) sim::seam( sim::S_NEW, -1);
    bool lib = sim::W.active && sim::W.thr().in_lib;
    char * p = static_cast< char * >( __real_malloc( n + 16) );
    if ( ! p) throw std::bad_alloc();
    * p = lib;
    sim::heap_blocks.lib += lib;
    ++sim::heap_blocks.all;
    return p + 16;
}
void operator delete( void * q) noexcept {
    if ( ! q) return;
    char * p = static_cast< char * >( q) - 16;
    sim::heap_blocks.lib -= * p;
    --sim::heap_blocks.all;
    __real_free( p);
}
void operator delete( void * p, std::size_t) noexcept { operator delete( p); }

namespace sim {

// ================================================================ exceptions of simulated code

struct SimError : Tracked, std::exception {
    uint64_t code; std::string text;
    explicit SimError( uint64_t c) : code( c), text( "sim-" + std::to_string( c) ) { book( K_EXC, c, -1); }
    SimError( SimError const& o) : Tracked( o), std::exception( o), code( o.code), text( o.text) { book( K_EXC, o.id, -1); }
    ~SimError() { unbook(); }
    const char * what() const noexcept { return text.c_str(); }
    bool fine() const { return good() && id == code && text == "sim-" + std::to_string( code); }
};
struct SimDerived : SimError {
    uint64_t extra;
    explicit SimDerived( uint64_t c) : SimError( c), extra( c * 3) {}
};
struct SimVirtA { uint64_t a; virtual ~SimVirtA() {} };
struct SimVirtB : virtual SimVirtA {};
struct SimVirtC : virtual SimVirtA {};
struct SimVirt : SimVirtB, SimVirtC { uint64_t code; explicit SimVirt( uint64_t c) : code( c) { a = c ^ 0x5555; } };
static uint64_t const* ptr_target( uint64_t id) { uint64_t * p = static_cast< uint64_t * >( __real_malloc( sizeof( id) ) ); * p = id; return p; }
enum class SimEnum : uint64_t {};
struct SimPlain { uint64_t code; uint64_t pad[40]; };
struct SimEptr { std::exception_ptr p; uint64_t code; };
struct SimNested : std::nested_exception { uint64_t code; explicit SimNested( uint64_t c) : code( c) {} };

// the standard exceptions, bare and as bases of classes that carry more
struct Mixin { uint64_t code, inv; virtual ~Mixin() {} };
template< typename B > struct Make {
    static B bare( uint64_t id) { return B( "std-" + std::to_string( id) ); }
};
#define SIM_NOTEXT( B) template<> struct Make< B > { static B bare( uint64_t) { return B(); } };
SIM_NOTEXT( std::exception) SIM_NOTEXT( std::bad_alloc) SIM_NOTEXT( std::bad_cast) SIM_NOTEXT( std::bad_typeid) SIM_NOTEXT( std::bad_exception)
SIM_NOTEXT( std::bad_weak_ptr) SIM_NOTEXT( std::bad_function_call)
template<> struct Make< std::system_error > {
    static std::system_error bare( uint64_t id) { return std::system_error( std::error_code( (int) id, std::generic_category() ), "std-" + std::to_string( id) ); }
};
template< typename B > struct Der : B, Mixin {
    explicit Der( uint64_t c) : B( Make< B >::bare( c) ) { code = c; inv = ~c; }
};

template< template< typename > class F, typename R >
struct StdTable {
    R at( unsigned i, uint64_t id) {
        switch ( i) {
            case 0: return F< std::runtime_error >::go( id);
            case 1: return F< std::logic_error >::go( id);
            case 2: return F< std::invalid_argument >::go( id);
            case 3: return F< std::out_of_range >::go( id);
            case 4: return F< std::length_error >::go( id);
            case 5: return F< std::overflow_error >::go( id);
            case 6: return F< std::range_error >::go( id);
            case 7: return F< std::system_error >::go( id);
            case 8: return F< std::exception >::go( id);
            case 9: return F< std::bad_cast >::go( id);
            case 10: return F< std::bad_weak_ptr >::go( id);
            case 11: return F< std::bad_function_call >::go( id);
            default: return F< std::bad_alloc >::go( id);
        }
    }
};
template< typename B > struct ThrowBare { static int go( uint64_t id) { throw Make< B >::bare( id); } };
template< typename B > struct ThrowDer { static int go( uint64_t id) { throw Der< B >( id); } };
struct Named { std::type_info const* ti; bool text; };
template< typename B > struct NameBare { static Named go( uint64_t) { Named n = { & typeid( B), std::is_constructible< B, std::string >::value || std::is_same< B, std::system_error >::value }; return n; } };
template< typename B > struct NameDer { static Named go( uint64_t) { Named n = { & typeid( Der< B >), false }; return n; } };

void sim_throw( unsigned type, uint64_t id) {
    if ( type >= E_DER0) StdTable< ThrowDer, int >().at( type - E_DER0, id);
    if ( type >= E_STD0) StdTable< ThrowBare, int >().at( type - E_STD0, id);
    switch ( type) {
        case E_SIM: throw SimError( id);
        case E_SIMD: throw SimDerived( id);
        case E_RT: throw std::runtime_error( "rt-" + std::to_string( id) );
        case E_LOGIC: throw std::logic_error( "lg-" + std::to_string( id) );
        case E_INT: throw (int) id;
        case E_STR: throw std::string( "str-" + std::to_string( id) );
        case E_VIRT: throw SimVirt( id);
        case E_PTR: throw ptr_target( id);
        case E_ENUM: throw SimEnum( id);
        case E_PLAIN: { SimPlain p; p.code = id; for ( int i = 0; i < 40; ++i) p.pad[i] = id * 31 + (uint64_t) i; throw p; }
        case E_NESTED: throw SimNested( id);
        case E_EPTR: { SimEptr e; e.p = std::make_exception_ptr( (long) id); e.code = id; throw e; }
        default: throw (const char *) "cstr";
    }
}

static uint64_t num_after( const char * s, const char * prefix) {
    size_t n = strlen( prefix);
    return strncmp( s, prefix, n) == 0 ? strtoull( s + n, nullptr, 10) : ~0ull;
}

static ExcId identify_std( std::exception const& e) {
    ExcId bad = { E_UNKNOWN, 0 };
    if ( Mixin const* m = dynamic_cast< Mixin const* >( & e) ) {
        for ( unsigned i = 0; i < (unsigned) ( E_DERN - E_DER0); ++i)
            if ( * StdTable< NameDer, Named >().at( i, 0).ti == typeid( e) ) {
                if ( m->inv != ~m->code) return bad;
                return ExcId{ (int) ( E_DER0 + i), m->code };
            }
        return bad;
    }
    if ( typeid( e) == typeid( std::runtime_error) && strncmp( e.what(), "rt-", 3) == 0) return ExcId{ E_RT, num_after( e.what(), "rt-") };
    if ( typeid( e) == typeid( std::logic_error) && strncmp( e.what(), "lg-", 3) == 0) return ExcId{ E_LOGIC, num_after( e.what(), "lg-") };
    for ( unsigned i = 0; i < (unsigned) ( E_STDN - E_STD0); ++i) {
        Named n = StdTable< NameBare, Named >().at( i, 0);
        if ( * n.ti == typeid( e) ) return ExcId{ (int) ( E_STD0 + i), n.text ? num_after( e.what(), "std-") : 0 };
    }
    if ( typeid( e) == typeid( std::bad_alloc) ) return ExcId{ E_BADALLOC, 0 };
    return bad;
}

ExcId identify() {
    ExcId bad = { E_UNKNOWN, 0 };
    try { throw; }
    catch ( SimFault const& f) { return ExcId{ E_FAULT, f.id }; }
    catch ( SimError const& e) {
        if ( ! e.fine() ) return bad;
        if ( typeid( e) == typeid( SimError) ) return ExcId{ E_SIM, e.code };
        SimDerived const* d = dynamic_cast< SimDerived const* >( & e);
        if ( d && d->extra == d->code * 3) return ExcId{ E_SIMD, e.code };
        return bad;
    }
    catch ( SimVirtA const& v) {
        SimVirt const* s = dynamic_cast< SimVirt const* >( & v);
        if ( s && s->a == ( s->code ^ 0x5555) ) return ExcId{ E_VIRT, s->code };
        return bad;
    }
    catch ( SimNested const& n) { return typeid( n) == typeid( SimNested) ? ExcId{ E_NESTED, n.code } : bad; }
    catch ( std::exception const& e) { return identify_std( e); }
    catch ( int i) { return ExcId{ E_INT, (uint64_t) (uint32_t) i }; }
    catch ( std::string const& s) { return ExcId{ E_STR, num_after( s.c_str(), "str-") }; }
    catch ( uint64_t const* p) { return ExcId{ E_PTR, * p }; }
    catch ( const char * s) { return strcmp( s, "cstr") == 0 ? ExcId{ E_CSTR, 0 } : bad; }
    catch ( SimEnum e) { return ExcId{ E_ENUM, (uint64_t) e }; }
    catch ( SimPlain const& p) {
        for ( int i = 0; i < 40; ++i) if ( p.pad[i] != p.code * 31 + (uint64_t) i) return bad;
        return ExcId{ E_PLAIN, p.code };
    }
    catch ( SimEptr const& e) {
        try { std::rethrow_exception( e.p); }
        catch ( long l) { return l == (long) e.code ? ExcId{ E_EPTR, e.code } : bad; }
        catch ( ...) { return bad; }
    }
    catch ( ...) { return bad; }
}

static ExcId exc_norm( unsigned type, uint64_t id) {
    if ( type == E_INT) id = (uint32_t) id;
    if ( type == E_CSTR) id = 0;
    if ( type >= E_STD0 && type < E_STDN && ! StdTable< NameBare, Named >().at( type - E_STD0, 0).text) id = 0;
    return ExcId{ (int) type, id };
}

// ================================================================ handles and ownership

struct FrameLocals;

struct Owner {
    Ctx * ctx;
    std::vector< HandleRec * > hs;
    bool closing;
    explicit Owner( Ctx * c) : ctx( c), closing( false) { ctx->owners.push_back( this); }
    ~Owner();
};

static HandleRec * rec_of( Co * co) {
    for ( HandleRec * r : W.handles) if ( r->co == co) return r;
    return nullptr;
}

static bool subtree_idle( Co * co, int depth = 0) {
    if ( ! co) return true;
    if ( co->st == RUN || depth > 64) return false;
    for ( Owner * o : co->ctx.owners) {
        if ( o->closing) return false;
        for ( HandleRec * r : o->hs)
            if ( r->busy || ! subtree_idle( r->co, depth + 1) ) return false;
    }
    return true;
}

static bool owned_by( HandleRec * r, Co * co) {        // is r on the stack of co, or of a coroutine owned there?
    for ( int i = 0; i < 64 && r && r->owner; ++i) {
        Co * c = r->owner->ctx->co;
        if ( ! c) return false;
        if ( c == co) return true;
        r = rec_of( c);
    }
    return false;
}

static bool usable( HandleRec * r) { return ! r->busy && ! ( r->owner && r->owner->closing) && subtree_idle( r->co); }
static bool resumable( HandleRec * r) { return r->co && ( r->co->st == FRESH || r->co->st == SUSP) && usable( r); }

template< typename P >
static HandleRec * pick( uint32_t a, P pred) {
    int n = 0;
    for ( HandleRec * r : W.handles) if ( pred( r) ) ++n;
    if ( ! n) return nullptr;
    int k = (int) ( a % (uint32_t) n);
    for ( HandleRec * r : W.handles) if ( pred( r) && k-- == 0) return r;
    return nullptr;
}

static bool expect_true( Co * co) {
    if ( ! co) return false;
    if ( co->st == FRESH) return true;
    if ( co->st != SUSP) return false;
    return co->pull && kind_has_value( co->kind) ? co->has_val : true;
}

static void check_bool( HandleRec * r, Tag tag = T_BOOL) {
    bool t = r->h->test(), n = r->h->nott();
    if ( t == n) fail( tag, "bool-and-not-agree", "h%d", r->id);
    if ( t != expect_true( r->co) ) fail( tag, t ? "handle-true-unexpectedly" : "handle-false-unexpectedly", "h%d co %d", r->id, r->co ? r->co->id : -1);
}

static void check_all() {
    for ( HandleRec * r : W.handles) {
        if ( ! r->busy) check_bool( r);
        else if ( r->h && r->co && r->co->st == RUN && r->co->inside) {
            // its function is running: it has not terminated
            bool t = r->h->test(), n = r->h->nott();
            if ( t == n) fail( T_BOOL, "bool-and-not-agree", "h%d running", r->id);
            if ( ! t && ! ( r->co->pull && kind_has_value( r->co->kind) ) ) fail( T_BOOL, "running-coroutine-false", "h%d co %d", r->id, r->co->id);
            W.count( C_RUNNING_TEST);
        }
    }
}

static void check_gone( Co * co) {
    if ( ! co->ctx.locals.empty() ) fail( T_UNWIND, "locals-not-destroyed", "co %d: %d", co->id, (int) co->ctx.locals.size() );
    if ( co->entered && ! co->left) fail( T_UNWIND, "function-not-unwound", "co %d", co->id);
    if ( co->live_fns) fail( T_FLIFE, "callable-outlives-handle", "co %d: %d", co->id, co->live_fns);
    if ( co->live_vals) fail( T_VLIFE, "value-outlives-handle", "co %d: %d", co->id, co->live_vals);
    if ( co->n_alloc != co->n_free) fail( T_STACK, "stack-not-released", "co %d: %d allocated, %d released", co->id, co->n_alloc, co->n_free);
    co->st = GONE;
}

static void remove_rec( HandleRec * r) {
    if ( r->owner) {
        auto & v = r->owner->hs;
        v.erase( std::remove( v.begin(), v.end(), r), v.end() );
        r->owner = nullptr;
    }
    W.handles.erase( std::remove( W.handles.begin(), W.handles.end(), r), W.handles.end() );
}

static void note_end( Co * co) {
    if ( co->st == FRESH) W.count( C_NEVER_ENTERED);
    else if ( co->st == SUSP) { W.count( C_ABANDONED); W.count( C_F_ABANDON); }
}

static void arm_p( Thr & t, bool on = true) {
    t.p_active = on ? t.p_pending : -1;
    t.p_n = t.p_pend_n;
    t.p_arg = t.p_pend_arg;
    if ( on) t.p_pending = -1;
}
static void arm_f( Thr & t) {
    t.f_active = t.f_pending; t.f_n = t.f_pend_n; t.f_pending = -1; t.f_fired = false;
}
static void disarm( Thr & t) { t.f_active = -1; t.p_active = -1; t.f_sticky = false; }

static void destroy( HandleRec * r) {
    Co * co = r->co;
    ev( "destroy", r->id, co ? co->id : -1, co ? co->st : -1);
    EhState e0 = eh_state();
    int me = W.cur;
    r->busy = true;
    if ( co) {
        note_end( co);
        if ( e0.uncaught) W.count( C_DESTROY_IN_UNWIND);
        if ( ! W.thr().unw.empty() ) W.count( C_UNWOUND_NESTED);
        co->unwinding = true;
        W.thr().unw.push_back( co);
    }
    remove_rec( r);
    HandleBase * h = r->h;
    h->iter_drop();
    arm_p( W.thr() );
    { Lib l; h->~HandleBase(); }
    disarm( W.thr() );
    ::operator delete( h);
    if ( W.cur != me) fail( T_CTRL, "wrong-thread");
    if ( co) {
        if ( W.thr().unw.empty() || W.thr().unw.back() != co) fail( T_UNWIND, "unwinding-order");
        W.thr().unw.pop_back();
        check_gone( co);
    }
    r->h = nullptr;
    r->co = nullptr;
    EhState e1 = eh_state();
    if ( e0.caught != e1.caught || e0.uncaught != e1.uncaught) fail( T_EH, "exception-state-changed-by-destroy");
    ev( "destroyed", r->id);
}

Owner::~Owner() {
    Quiet q;                    // frames may be left by the library unwinding a stack
    closing = true;
    while ( ! hs.empty() ) {
        HandleRec * r = hs.back();
        hs.pop_back();
        r->owner = nullptr;
        if ( r->busy || ! subtree_idle( r->co) ) continue;      // in use elsewhere: hand it on
        destroy( r);
    }
    if ( ctx->owners.empty() || ctx->owners.back() != this) fail( T_UNWIND, "frames-left-out-of-order");
    ctx->owners.pop_back();
}

// ================================================================ frames

static std::size_t stack_left() {
    char here;
    for ( std::size_t i = W.stacks.size(); i-- > 0; ) {
        StackRec & r = W.stacks[i];
        if ( r.live && & here >= r.bot && & here < r.top) return (std::size_t) ( & here - r.bot);
    }
    return 1 << 20;
}

static void leave_check( Ctx * ctx, bool normal) {
    Thr & t = W.thr();
    Co * co = ctx->co;
    if ( co && co->unwinding) {
        if ( normal) fail( T_UNWIND, "function-continued-during-destruction", "co %d", co->id);
        if ( t.unw.empty() || t.unw.back() != co) fail( T_UNWIND, "unwound-at-wrong-time", "co %d", co->id);
        W.count( C_UNWOUND_LOCALS);
    } else {
        if ( t.cur != ctx) fail( T_UNWIND, "frame-left-while-not-running", "co %d", co ? co->id : -1);
        if ( ! normal && ctx->flying.type == E_NONE) fail( T_UNWIND, "unwound-without-reason", "co %d", co ? co->id : -1);
    }
}

struct Local : Tracked {
    Ctx * ctx; bool const* normal;
    Local( Ctx * c, bool const* n) : ctx( c), normal( n) {
        book( K_LOCAL, W.next_id++, c->co ? c->co->id : -1);
        ctx->locals.push_back( id);
    }
    Local( Local const&) = delete;
    ~Local() {
        seam( S_LDTOR, chan);
        Quiet q;
        if ( ctx->locals.empty() || ctx->locals.back() != id) fail( T_UNWIND, "locals-destroyed-out-of-order");
        leave_check( ctx, * normal);
        ctx->locals.pop_back();
        unbook();
    }
};

enum FrameKind { FK_PLAIN, FK_TRY, FK_DEEP, FK_HANDLER, FK_BASE };

static const uint64_t CANARY = 0x9e3779b97f4a7c15ull;

struct FrameLocals {
    bool normal;
    Ctx * ctx;
    uint64_t canary[4];
    Local first;
    Owner owner;
    Local second;
    explicit FrameLocals( Ctx * c) : normal( false), ctx( c), first( c, & normal), owner( c), second( c, & normal) {
        for ( int i = 0; i < 4; ++i) canary[i] = first.id * CANARY + (uint64_t) i;
    }
    void check() {
        for ( int i = 0; i < 4; ++i) if ( canary[i] != first.id * CANARY + (uint64_t) i) fail( T_LOCAL, "local-changed");
        first.check( "local-changed");
        second.check( "local-changed");
    }
};

static Flow run_frame( Ctx & ctx, FrameKind fk, uint32_t arg);
static Flow exec( Ctx & ctx, FrameLocals & fl, FrameKind fk, Op op);
static void do_new( Ctx & ctx, bool pull, Op const& op);
static void resume( HandleRec * r, int via, uint32_t mode, uint32_t prop, bool swallow);

struct Depth {
    Ctx & c;
    explicit Depth( Ctx & c_) : c( c_) { ++c.depth; if ( (uint64_t) c.depth > W.sh->counts[C_MAXDEPTH]) W.sh->counts[C_MAXDEPTH] = (uint64_t) c.depth; }
    ~Depth() { --c.depth; }
};

struct HandlerScope {
    Ctx & c;
    explicit HandlerScope( Ctx & c_) : c( c_) { ++c.handlers; }
    ~HandlerScope() { --c.handlers; }
};

static bool fetch( Ctx & ctx, Op & op) {
    if ( W.burst && W.burst == ctx.co) {
        W.burst_read = ! W.burst_read;
        uint32_t n = (uint32_t) W.next_id;
        op = W.burst_read ? Op{ O_READ, 0, n, 1 } : Op{ O_YIELD, 0, n * 5, 0 };
        return true;
    }
    if ( W.nest && ctx.co) {
        op = Op{ O_NEST, 0, 0, 0 };
        return true;
    }
    if ( W.pos >= W.prog.ops.size() ) return false;
    op = W.prog.ops[W.pos];
    W.sh->op = (uint32_t) W.pos;
    ++W.pos;
    W.count( C_OPS);
    return true;
}

static Flow try_frame( Ctx & ctx, uint32_t arg) {
    EhState e0 = eh_state();
    Flow f = CONT;
    try {
        Depth d( ctx);
        f = run_frame( ctx, FK_PLAIN, arg);
    } catch ( boost::context::detail::forced_unwind const&) {
        if ( ! ctx.co || ! ctx.co->unwinding) fail( T_UNWIND, "forced-unwind-out-of-nowhere");
        throw;
    } catch ( ...) {
        ExcId x = identify();
        ev( "caught", x.type, (int64_t) x.id);
        if ( ctx.co && ctx.co->unwinding) fail( T_UNWIND, "exception-during-destruction");
        if ( W.thr().cur != & ctx) fail( T_EXC, "exception-in-wrong-context");
        if ( ! ( x == ctx.flying) ) fail( T_EXC, "exception-unexpected", "type %d id %llu, expected type %d id %llu", x.type, (unsigned long long) x.id, ctx.flying.type, (unsigned long long) ctx.flying.id);
        ctx.flying = ExcId{ E_NONE, 0 };
        if ( arg & 1) {
            HandlerScope hs( ctx);
            Depth d( ctx);
            f = run_frame( ctx, FK_HANDLER, arg >> 1);
            // the exception being handled is still the same one
            if ( ! ( ctx.co && ctx.co->unwinding) ) {
                ExcId y = identify();
                if ( ! ( x == y) ) fail( T_EH, "exception-being-handled-changed");
            }
        }
    }
    EhState e1 = eh_state();
    if ( ! ctx.co && ( e0.caught != e1.caught || e0.uncaught != e1.uncaught) ) fail( T_EH, "exception-state-differs-after-try");
    return f;
}

__attribute__((noinline)) static Flow deep_frame( Ctx & ctx, uint32_t arg) {
    std::size_t left = stack_left();
    std::size_t n = 64 + arg % 7000;
    if ( left < n + room( 24 * 1024) ) n = 64;
    unsigned char * p = static_cast< unsigned char * >( alloca( n) );
    for ( std::size_t i = 0; i < n; ++i) p[i] = (unsigned char) ( arg + i * 7);
    unsigned char * volatile pv = p;
    Depth d( ctx);
    Flow f = run_frame( ctx, FK_DEEP, arg);
    p = pv;
    for ( std::size_t i = 0; i < n; ++i)
        if ( p[i] != (unsigned char) ( arg + i * 7) ) fail( T_LOCAL, "stack-memory-changed", "offset %zu of %zu", i, n);
    return f;
}

__attribute__((noinline)) static Flow run_frame( Ctx & ctx, FrameKind fk, uint32_t arg) {
    FrameLocals fl( & ctx);
    // values the compiler may keep in callee-saved registers
    uint64_t r1 = fl.first.id * 3 + 1, r2 = fl.first.id * 5 + 2, r3 = fl.first.id * 7 + 3;
    double d1 = (double) fl.first.id * 0.5 + 1.25;
    (void) arg;
    for (;;) {
        asm volatile( "" : "+r"( r1), "+r"( r2), "+r"( r3) );
        fl.check();
        if ( r1 != fl.first.id * 3 + 1 || r2 != fl.first.id * 5 + 2 || r3 != fl.first.id * 7 + 3 || d1 != (double) fl.first.id * 0.5 + 1.25)
            fail( T_LOCAL, "local-changed");
        if ( W.thr().cur != & ctx) fail( T_CTRL, "wrong-context-running");
        Op op;
        Flow f;
        if ( ! ctx.co && W.thr().quit) f = ENDED;
        else if ( ! fetch( ctx, op) ) {
            Thr & t = W.thr();
            t.f_pending = t.p_pending = -1;
            if ( ! ctx.co) f = ENDED;
            else if ( W.prog.cfg.drain == 1 && ctx.handlers == 0 && ! ( ctx.co->drained) ) {
                ctx.co->drained = true;
                Op y = { O_YIELD, 0, 0, 0 };
                f = exec( ctx, fl, fk, y);
            } else f = RETURNED;
        } else {
            f = exec( ctx, fl, fk, op);
        }
        if ( f == CONT) continue;
        fl.check();
        fl.normal = true;
        return f;
    }
}

// ================================================================ operations

static uint64_t norm( int kind, uint64_t id) {
    switch ( kind) {
        case V_INT: return id % 11 == 0 ? 0 : id % 13 == 0 ? 0x80000000u : id % 17 == 0 ? 0xffffffffu : id & 0x7fffffff;
        case V_PTR: case V_DBL: case V_STR: case V_UPTR: case V_SPTR: case V_FUN: case V_VEC: return id % 9 ? id : 0;
        case V_U8: return id & 0xff;
        case V_VOID: case V_EMPTY: return 0;
        case V_BOOL: return id & 1;
        case V_ENUM: return id & 0xffff;
        default: return kind_is_ref( kind) ? id % NREFS : id;
    }
}

void set_pushed( int chan, Pushed * p) { if ( Co * co = co_of( chan) ) co->pushed = p; }
// what was pushed has arrived; the object it was pushed from gets another value
static void change_pushed( Co * co, uint64_t id) {
    if ( ! co->pushed || id % 3) return;
    Quiet q;
    co->pushed->change();
    W.count( C_LV_CHANGED);
}

static std::map< int, Maker > & makers( bool pull) { static std::map< int, Maker > m[2]; return m[pull ? 1 : 0]; }
KindRegistrar::KindRegistrar( int kind, Maker pull, Maker push) { makers( true)[kind] = pull; makers( false)[kind] = push; }

bool have_kind( int kind) { return makers( true).count( kind) != 0; }

static int nth_bit( uint64_t mask, int n, uint32_t a) {
    int c = 0;
    for ( int i = 0; i < n; ++i) if ( mask >> i & 1) ++c;
    if ( ! c) { mask = ~0ull; c = n; }
    int k = (int) ( a % (uint32_t) c);
    for ( int i = 0; i < n; ++i) if ( mask >> i & 1 && k-- == 0) return i;
    return 0;
}

struct SavedThr {       // state of a library operation interrupted by another one
    Thr & t; bool in_lib, f_fired, in_base; int f_active, p_active, nocopy; uint32_t f_n, p_n, p_arg; ExcId f_exc; Token tok; Co * creating; Ctx * cur;
    SavedThr() : t( W.thr() ), in_lib( t.in_lib), f_fired( t.f_fired), in_base( t.in_base), f_active( t.f_active), p_active( t.p_active), nocopy( t.nocopy),
        f_n( t.f_n), p_n( t.p_n), p_arg( t.p_arg), f_exc( t.f_exc), tok( t.tok), creating( t.creating), cur( t.cur) {
        t.in_lib = false; t.f_fired = false; t.in_base = false; t.nocopy = -1; t.tok = Token{ 0, -1 }; t.creating = nullptr;
        disarm( t);
    }
    ~SavedThr() {
        t.in_lib = in_lib; t.f_fired = f_fired; t.in_base = in_base; t.f_active = f_active; t.p_active = p_active; t.nocopy = nocopy;
        t.f_n = f_n; t.p_n = p_n; t.p_arg = p_arg; t.f_exc = f_exc; t.tok = tok; t.creating = creating;
        if ( t.cur != cur) fail( T_CTRL, "wrong-context-after-nested-operation");
    }
};

static void nested_op( uint32_t a) {
    HandleRec * r = pick( a, resumable);
    if ( ! r) return;
    SavedThr s;
    resume( r, 0, a >> 8, 0, true);
}

// control arrives in a coroutine function
static void arrive( Co * co) {
    Thr & t = W.thr();
    t.in_lib = false;
    disarm( t);
    t.f_fired = false;
    t.nocopy = -1;
    t.creating = nullptr;
    if ( co->unwinding || co->st == GONE) fail( T_UNWIND, "function-continued-during-destruction", "co %d", co->id);
    if ( t.tok.type != 1 || t.tok.co != co->id) fail( T_CTRL, "entered-unexpectedly", "co %d, expected %d/%d", co->id, t.tok.type, t.tok.co);
    t.tok = Token{ 0, -1 };
    t.cur = & co->ctx;
    co->st = RUN;
    co->inside = true;
    char here;
    if ( co->sbot && ( & here < co->sbot || & here >= co->stop) ) fail( T_STACK, "function-not-on-its-stack", "co %d", co->id);
    if ( co->last_thread >= 0 && co->last_thread != W.cur) W.count( C_MIGRATED);
    co->last_thread = W.cur;
    W.count( C_SWITCH_CTX);
    if ( co->running_fn) {
        co->running_fn->check( "callable-dead-while-running");
        if ( co->running_fn->st != Tracked::LIVE || co->running_fn->tag != co->fn_tag) fail( T_FLIFE, "callable-changed-while-running");
    }
    if ( ! co->pull) { co->val = co->in_val; co->has_val = true; co->taken = false; change_pushed( co, co->val); }
    bool b = co->io->test(), n = co->io->nott();
    if ( ! b || n) fail( T_BOOL, "counterpart-false-inside", "co %d", co->id);
    ev( "in", co->id, (int64_t) ( co->pull ? 0 : co->val) );
    check_all();
}

struct Leaving {
    Co * co;
    ~Leaving() {
        Ctx & ctx = co->ctx;
        co->left = true;
        co->inside = false;
        if ( co->unwinding) { ev( "unwound", co->id); return; }
        Thr & t = W.thr();
        if ( t.cur != & ctx) fail( T_CTRL, "function-left-while-not-running");
        if ( ctx.flying.type != E_NONE) { co->outcome = X_THROW; co->out_exc = ctx.flying; }
        else co->outcome = X_RETURN;
        ev( co->outcome == X_THROW ? "out-throw" : "out-return", co->id);
        t.tok = Token{ 2, co->id };
        arm_p( t);
        t.in_lib = true;
    }
};

void run_body( int id, BodyIO & io, FnCore const* fn) {
    if ( ! W.active) return;
    Co * co = co_of( id);
    if ( ! co) fail( T_FLIFE, "callable-garbage");
    W.thr().in_lib = false;
    if ( co->entered++) fail( T_CTRL, "entered-twice", "co %d", co->id);
    if ( co->st == GONE) fail( T_CTRL, "entered-after-end", "co %d", co->id);
    if ( fn) {
        fn->check( "callable-dead-on-entry");
        if ( fn->st != Tracked::LIVE) fail( T_FLIFE, "invoked-moved-from-callable", "co %d", id);
    }
    co->running_fn = fn;
    co->io = & io;
    char here;
    if ( ! co->sbot) fail( T_STACK, "no-stack-allocated", "co %d", co->id);
    if ( & here >= co->sbot && & here < co->stop) {
        std::size_t used = (std::size_t) ( co->stop - & here);
        std::size_t al = co->kind == V_AL256 ? 256 : 64;
        if ( used > 8192 + 3 * co->value_size + 4 * co->fn_size + 2 * al) fail( T_STACK, "stack-overhead-too-large", "%zu", used);
    }
    Leaving l = { co };
    arrive( co);
    Depth d( co->ctx);
    run_frame( co->ctx, FK_BASE, 0);
}

int token_co() { return W.thr().tok.type == 1 ? W.thr().tok.co : ( W.thr().creating ? W.thr().creating->id : -1); }

unsigned sim_stack_size( Co * co) {
    static const unsigned sizes[] = { 65536, 131072, 262144, 98304, 65536 + 8192, 49152 };
    unsigned s = sizes[( W.prog.cfg.ssize + (unsigned) co->id) % 6];
    s += ( co->value_size > 8000 ? 6 : 16) * ( co->value_size / 16 * 16);
    if ( W.prog.cfg.kinds >> V_HUGE & 1) s += 131072;
    if ( W.prog.cfg.ssize & 64) s += 16 * ( (unsigned) co->id * 37 % 251);
    if ( W.prog.cfg.ssize & 128) s += (unsigned) co->id * 13 % 97;       // odd sizes
    return s;
}

// ---- creating

static void do_new( Ctx & ctx, bool pull, Op const& op) {
    Co * co = new Co();
    co->id = (int) W.cos.size();
    co->kind = nth_bit( W.prog.cfg.kinds, NKINDS, op.a);
    co->pull = pull;
    co->ctx.co = co;
    co->fn_tag = W.next_id++;
    co->thread_made = W.cur;
    W.cos.push_back( co);
    unsigned av = (unsigned) nth_bit( W.prog.cfg.allocs, NALLOC, op.b);
    unsigned cv = (unsigned) nth_bit( W.prog.cfg.calls, NCALL, op.a >> 8);
    if ( av != A_SIM_R && av != A_DEFAULT) cv = F_RVALUE;
    co->alloc_var = (int) av;
    W.count( C_CO);
    W.count( pull ? C_PULL : C_PUSH);
    ev( pull ? "new-pull" : "new-push", co->id, co->kind, (int64_t) ( av * 16 + cv) );

    Thr & t = W.thr();
    int me = W.cur;
    EhState e0 = eh_state();
    t.creating = co;
    t.tok = pull ? Token{ 1, co->id } : Token{ 0, -1 };
    arm_f( t);
    arm_p( t);
    HandleBase * h = nullptr;
    bool threw = false;
    ExcId x = { E_NONE, 0 };
    std::exception_ptr ep;
    try {
        h = ( pull ? makers( true) : makers( false) ).at( co->kind)( co, av, cv);
    } catch ( boost::context::detail::forced_unwind const&) {
        fail( T_UNWIND, "forced-unwind-escaped");
    } catch ( ...) {
        threw = true;
        x = identify();
        if ( op.c & 1) ep = std::current_exception();
    }
    if ( W.cur != me) fail( T_CTRL, "wrong-thread");
    t.in_lib = false;
    t.nocopy = -1;
    t.creating = nullptr;
    disarm( t);
    bool fired = t.f_fired;
    t.f_fired = false;
    EhState e1 = eh_state();
    if ( e0.caught != e1.caught || e0.uncaught != e1.uncaught) fail( T_EH, "exception-state-changed-by-construction");
    if ( t.tok.type == 2 && t.tok.co == co->id) t.cur = & ctx;
    if ( t.cur != & ctx) fail( T_CTRL, "returned-to-wrong-context");
    if ( fired) {
        if ( co->entered) fail( T_FAULT, "entered-after-failure", "co %d", co->id);
        if ( ! threw) fail( T_FAULT, "failure-swallowed", "co %d", co->id);
        if ( ! ( x == t.f_exc) ) fail( T_FAULT, "failure-replaced", "type %d", x.type);
        W.count( C_CTOR_THROW);
        co->outcome = X_THROW;
        co->out_exc = x;
        check_gone( co);
    } else if ( ! pull) {
        if ( threw) fail( T_EXC, "construction-threw", "type %d", x.type);
        if ( co->entered) fail( T_CTRL, "push-entered-at-construction");
        co->st = FRESH;
    } else {
        if ( ! co->entered) fail( threw ? T_EXC : T_CTRL, "not-entered-at-construction", "co %d", co->id);
        if ( t.tok.type != 2 || t.tok.co != co->id) fail( T_CTRL, "control-came-back-wrongly", "co %d", co->id);
        switch ( co->outcome) {
            case X_YIELD:
                if ( threw) fail( T_EXC, "unexpected-exception", "type %d", x.type);
                co->st = SUSP; co->has_val = kind_has_value( co->kind); co->val = co->out_val; co->taken = false;
                break;
            case X_RETURN:
                if ( threw) fail( T_EXC, "unexpected-exception", "type %d", x.type);
                co->st = DONE; co->has_val = false;
                W.count( C_COMPLETED);
                break;
            case X_THROW:
                if ( ! threw) fail( T_EXC, "exception-lost", "co %d", co->id);
                if ( ! ( x == co->out_exc) ) fail( T_EXC, "exception-altered", "type %d id %llu", x.type, (unsigned long long) x.id);
                W.count( C_FAILED);
                W.count( C_CTOR_THROW);
                check_gone( co);
                break;
            default:
                fail( T_CTRL, "came-back-without-transfer");
        }
    }
    t.tok = Token{ 0, -1 };
    ev( "made", co->id, co->st, threw);
    if ( ! threw) {
        HandleRec * r = new HandleRec();
        r->id = W.next_hid++;
        r->h = h;
        r->co = co;
        W.handles.push_back( r);
    }
    check_all();
    if ( ep) {
        ctx.flying = x;
        std::exception_ptr e = ep;
        ep = nullptr;
        std::rethrow_exception( e);
    }
}

// ---- resuming.  via: 0 call, 1 iterator

static void resume( HandleRec * r, int via, uint32_t mode, uint32_t prop, bool swallow) {
    Co * co = r->co;
    Thr & t = W.thr();
    int me = W.cur;
    Ctx * from = t.cur;
    EhState e0 = eh_state();
    State prev = co->st;
    r->busy = true;
    r->in_use = true;
    r->via_iter = via != 0;
    co->st = RUN;
    co->outcome = X_NONE;
    t.tok = Token{ 1, co->id };
    uint64_t id = 0;
    if ( ! co->pull) { id = norm( co->kind, W.next_id++); co->in_val = id; }
    ev( co->pull ? ( via ? "resume-it" : "resume") : ( via ? "push-it" : "push"), co->id, (int64_t) id, mode % 8);
    arm_f( t);
    arm_p( t);
    bool threw = false;
    ExcId x = { E_NONE, 0 };
    std::exception_ptr ep;
    try {
        if ( co->pull) {
            if ( via) r->h->iter_inc( mode); else r->h->resume();
        } else {
            if ( via) r->h->iter_assign( id, co->id); else r->h->push( id, mode, co->id);
        }
    } catch ( boost::context::detail::forced_unwind const&) {
        fail( T_UNWIND, "forced-unwind-escaped");
    } catch ( ...) {
        threw = true;
        x = identify();
        if ( ( prop & 1) && ! swallow) ep = std::current_exception();
    }
    if ( W.cur != me) fail( T_CTRL, "wrong-thread");
    t.in_lib = false;
    t.nocopy = -1;
    disarm( t);
    EhState e1 = eh_state();
    if ( e0.caught != e1.caught || e0.uncaught != e1.uncaught) fail( T_EH, "exception-state-changed-by-resume");
    bool fired = t.f_fired;
    t.f_fired = false;
    if ( fired) {
        if ( ! threw) fail( T_FAULT, "failure-swallowed", "co %d", co->id);
        if ( ! ( x == t.f_exc) ) fail( T_FAULT, "failure-replaced", "type %d", x.type);
        if ( t.tok.type != 1 || t.tok.co != co->id || t.cur != from) fail( T_FAULT, "entered-after-failure", "co %d", co->id);
        co->st = prev;
        co->has_val = false;
        co->push_failed = true;
        if ( r->iter) { r->h->iter_drop(); r->iter = 0; }
    } else {
        if ( t.tok.type != 2 || t.tok.co != co->id) fail( T_CTRL, "control-came-back-wrongly", "co %d: %d/%d", co->id, t.tok.type, t.tok.co);
        t.cur = from;
        W.count( C_SWITCH_CTX);
        switch ( co->outcome) {
            case X_YIELD:
                if ( threw) fail( T_EXC, "unexpected-exception", "co %d type %d", co->id, x.type);
                co->st = SUSP;
                if ( co->pull) { co->has_val = kind_has_value( co->kind); co->val = co->out_val; co->taken = false; change_pushed( co, co->val); }
                if ( co->push_failed) { co->push_failed = false; W.count( C_RETRY_OK); }
                W.count( C_TRANSFERS);
                break;
            case X_RETURN:
                if ( threw) fail( T_EXC, "unexpected-exception", "co %d type %d", co->id, x.type);
                co->st = DONE; co->has_val = false;
                W.count( C_COMPLETED);
                break;
            case X_THROW:
                if ( ! threw) fail( T_EXC, "exception-lost", "co %d", co->id);
                if ( ! ( x == co->out_exc) ) fail( T_EXC, "exception-altered", "co %d type %d id %llu", co->id, x.type, (unsigned long long) x.id);
                co->st = DONE; co->has_val = false;
                W.count( C_FAILED);
                break;
            default:
                fail( T_CTRL, "came-back-without-transfer", "co %d", co->id);
        }
        if ( threw) { r->h->iter_drop(); r->iter = 0; }
        else if ( via) {
            W.count( C_ITER_STEPS);
            bool end = r->h->iter_at_end();
            if ( end != ( co->st == DONE) ) fail( T_ITER, end ? "iterator-ends-early" : "iterator-misses-end", "co %d", co->id);
            if ( end) { r->iter = 2; W.count( C_ITER_ENDS); }
        }
    }
    t.tok = Token{ 0, -1 };
    r->busy = r->in_use = false;
    for ( HandleRec * h : W.handles) if ( h->co == co) h->busy = false;       // moved while the function ran
    ev( "back", co->id, co->st, threw);
    check_all();
    if ( ep) {
        from->flying = x;
        std::exception_ptr e = ep;
        ep = nullptr;
        std::rethrow_exception( e);
    }
}

// ---- yielding

static void do_yield( Ctx & ctx, Op const& op) {
    Co * co = ctx.co;
    uint64_t id = co->pull ? norm( co->kind, W.next_id++) : 0;
    {
        Thr & t = W.thr();
        co->outcome = X_YIELD;
        co->out_val = id;
        co->inside = false;
        t.tok = Token{ 2, co->id };
        ev( "yield", co->id, (int64_t) id, op.b % 8);
        arm_f( t);
        arm_p( t);
        if ( ! co->pull) co->has_val = false;
    }
    bool again = false;
    ExcId x = { E_NONE, 0 };
    try {
        co->io->yield( id, op.b, co->id);
    } catch ( boost::context::detail::forced_unwind const&) {
        if ( ! co->unwinding) fail( T_UNWIND, "forced-unwind-out-of-nowhere", "co %d", co->id);
        throw;
    } catch ( ...) {
        x = identify();
        Thr & t = W.thr();
        t.in_lib = false;
        t.nocopy = -1;
        disarm( t);
        if ( co->unwinding) fail( T_UNWIND, "exception-during-destruction");
        bool fired = t.f_fired;
        t.f_fired = false;
        if ( ! fired) fail( T_EXC, "yield-threw", "co %d type %d id %llu", co->id, x.type, (unsigned long long) x.id);
        if ( ! ( x == t.f_exc) ) fail( T_FAULT, "failure-replaced");
        if ( t.tok.type != 2 || t.tok.co != co->id || t.cur != & ctx) fail( T_FAULT, "switched-after-failure");
        t.tok = Token{ 0, -1 };
        co->outcome = X_NONE;
        co->inside = true;
        co->push_failed = true;
        ev( "yield-failed", co->id);
        if ( op.c & 1) { ctx.flying = x; throw; }
        again = true;
    }
    if ( again) { check_all(); return; }
    if ( W.thr().f_fired) fail( T_FAULT, "failure-swallowed", "co %d", co->id);
    arrive( co);
}

// ---- reading

static void check_read( Co * co, ReadRes const& a, bool moved_ok) {
    W.count( C_READS);
    if ( a.st == RR_MOVED && co->val == 0 && kind_null( co->kind) ) return;
    if ( a.st == RR_MOVED) {
        if ( moved_ok && kind_move_only( co->kind) ) return;
        if ( moved_ok && W.known_get) { W.count( C_KNOWN_GET); return; }
        fail( T_VALUE, "value-moved-from", "co %d", co->id);
    }
    if ( a.st == RR_BAD) fail( kind_is_ref( co->kind) ? T_REF : T_VALUE, "value-corrupt", "co %d", co->id);
    if ( a.id != co->val) fail( kind_is_ref( co->kind) ? T_REF : T_VALUE, "value-wrong", "co %d: %llu instead of %llu", co->id, (unsigned long long) a.id, (unsigned long long) co->val);
}

static void check_ref( Co * co) {
    if ( kind_ref_mutable( co->kind) ) ++ref_model[co->val % NREFS];
    if ( kind_is_ref( co->kind) ) {
        for ( int i = 0; i < NREFS; ++i)
            if ( refs[i].payload != ref_model[i]) fail( T_REF, "referred-object-differs", "%d", i);
    }
}

// mode: 0 get, 1 *iterator, 2 iterator ->, 3 member begin
template< typename H >
static void do_read( Co * co, H * h, uint32_t mode) {
    if ( kind_move_only( co->kind) && mode % 4 == 0 && co->taken) mode = 1;
    if ( mode / 64 % 8 == 0) {
        uint64_t id = norm( co->kind, W.next_id++);
        if ( h->write( id, mode / 4, co->id) ) {
            co->val = id;
            co->taken = false;
            ev( "write", co->id, (int64_t) id);
            W.count( C_WRITES);
        }
    }
    bool taken = co->taken && kind_moves_out( co->kind);
    ReadRes a = h->read( mode % 4);
    ev( "read", co->id, (int64_t) a.id, a.st);
    check_read( co, a, taken);
    check_ref( co);
    if ( mode % 4 == 0) co->taken = true;
}

// ---- moving handles

static void move_construct( HandleRec * r, bool keep) {
    ev( "move", r->id, r->co ? r->co->id : -1, keep);
    r->h->iter_drop();
    r->iter = 0;
    HandleBase * old = r->h;
    HandleBase * neu;
    { Lib l; neu = old->move_ctor(); }
    r->h = neu;
    W.count( C_MOVES);
    if ( old->test() || ! old->nott() ) fail( T_MOVE, "source-not-empty", "h%d", r->id);
    check_bool( r, T_MOVE);
    if ( keep && W.handles.size() < W.prog.cfg.maxh) {
        HandleRec * e = new HandleRec();
        e->id = W.next_hid++;
        e->h = old;
        W.handles.push_back( e);
    } else {
        { Lib l; old->~HandleBase(); }
        ::operator delete( old);
        check_bool( r, T_MOVE);
    }
}

// a handle can be moved while the function of its coroutine is running (by that function, or by one it resumed)
static bool move_running( uint32_t a) {
    int me = W.cur;
    HandleRec * r = pick( a, [me]( HandleRec * h) { return h->busy && ! h->via_iter && h->co && h->co->st == RUN && h->co->inside && h->co->last_thread == me && ! ( h->owner && h->owner->closing); });
    if ( ! r || W.handles.size() > 30) return false;
    ev( "move-running", r->id, r->co->id);
    if ( r->in_use) { r->h->iter_drop(); r->iter = 0; }
    HandleRec * e = new HandleRec();
    e->id = W.next_hid++;
    { Lib l; e->h = r->h->move_ctor(); }
    e->co = r->co;
    e->busy = true;
    r->co = nullptr;
    if ( ! r->in_use) r->busy = false;
    W.handles.push_back( e);
    W.count( C_MOVES);
    W.count( C_MOVED_RUNNING);
    if ( r->h->test() || ! r->h->nott() ) fail( T_MOVE, "source-not-empty", "h%d", r->id);
    return true;
}

static void move_assign( HandleRec * to, HandleRec * from_) {
    Co * old = to->co;
    ev( "assign", to->id, from_->id, old ? old->id : -1);
    EhState e0 = eh_state();
    int me = W.cur;
    to->h->iter_drop();
    from_->h->iter_drop();
    to->iter = from_->iter = 0;
    to->busy = from_->busy = true;
    W.count( C_MOVES);
    if ( old) {
        note_end( old);
        W.count( C_OVERWRITES);
        old->unwinding = true;
        W.thr().unw.push_back( old);
    }
    arm_p( W.thr() );
    { Lib l; to->h->move_assign( * from_->h); }
    disarm( W.thr() );
    if ( W.cur != me) fail( T_CTRL, "wrong-thread");
    if ( old) {
        if ( W.thr().unw.empty() || W.thr().unw.back() != old) fail( T_UNWIND, "unwinding-order");
        W.thr().unw.pop_back();
        check_gone( old);
    }
    to->co = from_->co;
    from_->co = nullptr;
    to->busy = from_->busy = false;
    check_bool( to, T_MOVE);
    check_bool( from_, T_MOVE);
    EhState e1 = eh_state();
    if ( e0.caught != e1.caught || e0.uncaught != e1.uncaught) fail( T_EH, "exception-state-changed-by-assignment");
    ev( "assigned", to->id);
}

static void self_assign( HandleRec * r) {
    ev( "self-assign", r->id);
    { Lib l; r->h->move_assign( * r->h); }
    check_bool( r, T_MOVE);
}

// ---- stack use

__attribute__((noinline)) static void touch_stack( Co * co) {
    char here;
    if ( ! co->sbot || & here < co->sbot || & here >= co->stop) return;
    std::size_t left = (std::size_t) ( & here - co->sbot);
    if ( left < 8192) return;
    std::size_t n = left - 2048;
    volatile unsigned char * p = static_cast< volatile unsigned char * >( alloca( n) );
    for ( std::size_t i = 0; i < n; i += 61) p[i] = (unsigned char) ( i * 3 + 1);
    for ( std::size_t i = 0; i < n; i += 61) if ( p[i] != (unsigned char) ( i * 3 + 1) ) fail( T_STACK, "stack-memory-not-usable");
}

// ---- observations

static void observe( Op const& op) {
    HandleRec * r = pick( op.a, usable);
    if ( ! r) return;
    Co * co = r->co;
    W.count( C_OBSERVE);
    uint64_t ev0 = W.sh->events;
    for ( uint32_t i = 0; i < 3 + op.c % 4; ++i) {
        switch ( ( op.b >> ( i * 3) ) % 5) {
            case 0: case 1: check_bool( r, T_OBS); break;
            case 2:
                if ( r->iter == 1 && r->h->iter_compare() ) fail( T_OBS, "iterator-copies-disagree");
                break;
            case 3: case 4:
                if ( co && co->pull && co->st == SUSP && co->has_val) {
                    bool taken = co->taken && kind_moves_out( co->kind);
                    uint32_t mode = 1 + ( op.b >> i) % 3;
                    if ( ! kind_moves_out( co->kind) ) mode = ( op.b >> i) % 4;
                    ReadRes a = r->h->read( mode);
                    if ( W.sh->events != ev0) fail( T_OBS, "observation-ran-code");
                    if ( a.st == RR_MOVED && co->val == 0 && kind_null( co->kind) ) break;
                    if ( a.st == RR_MOVED && ( ! taken || ( ! kind_move_only( co->kind) && ! W.known_get) ) ) fail( T_OBS, "value-moved-by-observation", "co %d", co->id);
                    if ( a.st == RR_MOVED && ! kind_move_only( co->kind) ) W.count( C_KNOWN_GET);
                    if ( a.st == RR_BAD || ( a.st == RR_OK && a.id != co->val) ) fail( T_OBS, "value-changed-by-observation", "co %d", co->id);
                    check_ref( co);
                }
                break;
        }
    }
    if ( W.sh->events != ev0) fail( T_OBS, "observation-ran-code");
    ev( "observe", r->id, co ? co->id : -1);
}

// ---- one operation

static void note_state( Ctx & ctx, Op const& op) {
    uint64_t acc = 0;
    for ( HandleRec * r : W.handles) {
        uint64_t h = 1;
        if ( r->co) {
            Co * c = r->co;
            h = 2 + (uint64_t) c->kind + 64 * ( c->pull + 2 * (uint64_t) c->st + 16 * ( c->taken + 2 * c->push_failed) ) + 131072ull * (uint64_t) r->iter + 524288ull * (uint64_t) r->busy
                + 1048576ull * (uint64_t) std::min( c->ctx.depth, 3);
        }
        h = ( h + 0x9e3779b97f4a7c15ull) * ( r->owner ? 0xbf58476d1ce4e5b9ull : 0x94d049bb133111ebull);
        h ^= h >> 31;
        acc += h * h;
    }
    acc += (uint64_t) ( op.k + 32 * std::min( ctx.depth, 4) + 256 * ( ctx.handlers > 0) + 512 * ( ctx.co ? 1 + ctx.co->pull : 0) + 2048 * W.cur);
    acc *= 0xbf58476d1ce4e5b9ull;
    acc ^= acc >> 32;
    uint32_t bit = (uint32_t) ( acc & ( ( 1u << STATE_BITS) - 1) );
    if ( W.states) W.states[bit >> 3] |= (uint8_t) ( 1u << ( bit & 7) );
}

static Flow exec( Ctx & ctx, FrameLocals & fl, FrameKind fk, Op op) {
    if ( W.states) note_state( ctx, op);
    if ( ctx.handlers) W.count( C_HANDLER_OPS);
    Co * me = ctx.co;
    uint32_t k = op.k;
    // what cannot be done here becomes something similar that can
    if ( me && k != O_POP && k != O_RETURN && k != O_YIELD && k != O_READ && stack_left() < room( 28 * 1024) ) k = ctx.handlers ? (uint32_t) O_POP : (uint32_t) O_YIELD;
    if ( k == O_YIELD && ( ! me || ctx.handlers) ) k = O_RESUME;
    if ( k == O_RETURN && ! me) k = O_POP;
    if ( k == O_POP && ( fk == FK_BASE || ( ! me && ctx.depth <= 1 && fk != FK_HANDLER) ) ) k = O_OBSERVE;
    if ( ( k == O_NEWPULL || k == O_NEWPUSH) && W.handles.size() >= W.prog.cfg.maxh) k = O_RESUME;
    switch ( k) {
        case O_NEWPULL: case O_NEWPUSH:
            do_new( ctx, k == O_NEWPULL, op);
            return CONT;
        case O_RESUME: {
            HandleRec * r = pick( op.a, resumable);
            if ( ! r) {
                if ( W.handles.size() < W.prog.cfg.maxh) do_new( ctx, op.b & 1, op);
                return CONT;
            }
            resume( r, 0, op.b, op.c, false);
            return CONT;
        }
        case O_READ: {
            HandleRec * r = nullptr;
            bool inner = me && ! me->pull && kind_has_value( me->kind) && me->has_val;
            if ( inner && ( op.c & 1) ) { do_read( me, me->io, op.b); return CONT; }
            r = pick( op.a, []( HandleRec * h) { return h->co && h->co->pull && h->co->st == SUSP && h->co->has_val && usable( h); });
            if ( r) do_read( r->co, r->h, op.b);
            else if ( inner) do_read( me, me->io, op.b);
            return CONT;
        }
        case O_YIELD:
            do_yield( ctx, op);
            return CONT;
        case O_FRAME: {
            if ( ctx.depth > 24) return CONT;
            Flow f;
            switch ( op.a % 3) {
                case 0: { Depth d( ctx); f = run_frame( ctx, FK_PLAIN, op.b); break; }
                case 1: f = try_frame( ctx, op.b); break;
                default: f = deep_frame( ctx, op.b); break;
            }
            return f == POPPED ? CONT : f;
        }
        case O_POP:
            return POPPED;
        case O_RETURN:
            return RETURNED;
        case O_THROW: {
            if ( ctx.handlers && op.b % 3 == 0) {      // the same once more
                ctx.flying = identify();
                W.count( C_F_THROW);
                ev( "rethrow", ctx.flying.type, (int64_t) ctx.flying.id);
                throw;
            }
            unsigned type = 1 + op.a % ( NEXC - 1);
            if ( type == E_FAULT || type == E_BADALLOC) type = E_SIM;
            uint64_t id = W.next_id++;
            ctx.flying = exc_norm( type, id);
            W.count( C_F_THROW);
            ev( "throw", type, (int64_t) ctx.flying.id);
            sim_throw( type, id);
            return CONT;
        }
        case O_DESTROY: {
            HandleRec * r = pick( op.a, usable);
            if ( r) { destroy( r); check_all(); }
            return CONT;
        }
        case O_MOVEC: {
            if ( me && op.c % 3 == 0 && move_running( op.a) ) return CONT;
            HandleRec * r = pick( op.a, usable);
            if ( r) { move_construct( r, op.b & 1); check_all(); }
            return CONT;
        }
        case O_MOVEA: {
            HandleRec * f = pick( op.a, []( HandleRec * h) { return usable( h); });
            if ( ! f) return CONT;
            HandleRec * to = pick( op.b, [f]( HandleRec * h) {
                return h != f && usable( h) && h->h->kind == f->h->kind && h->h->pull == f->h->pull
                    && ! ( h->co && owned_by( f, h->co) ) && ! ( f->co && owned_by( h, f->co) ); });
            if ( to) { move_assign( to, f); check_all(); }
            else move_construct( f, true);
            return CONT;
        }
        case O_SELFM: {
            HandleRec * r = pick( op.a, usable);
            if ( r) { self_assign( r); check_all(); }
            return CONT;
        }
        case O_ADOPT: {
            HandleRec * r = pick( op.a, []( HandleRec * h) { return ! h->owner && usable( h); });
            if ( r) { r->owner = & fl.owner; fl.owner.hs.push_back( r); ev( "adopt", r->id); }
            return CONT;
        }
        case O_RELEASE: {
            HandleRec * r = pick( op.a, []( HandleRec * h) { return h->owner && usable( h); });
            if ( r) {
                auto & v = r->owner->hs;
                v.erase( std::remove( v.begin(), v.end(), r), v.end() );
                r->owner = nullptr;
                ev( "release", r->id);
            }
            return CONT;
        }
        case O_ITER: {
            HandleRec * r = pick( op.a, []( HandleRec * h) { return h->co && h->h->has_iter() && usable( h) && ( ! h->co->pull || h->co->st != FRESH); });
            if ( ! r) return CONT;
            if ( r->iter != 1 || op.b % 5 == 0) {
                r->h->iter_start( op.c);
                bool end = r->h->iter_at_end();
                if ( end == expect_true( r->co) ) fail( T_ITER, end ? "begin-equals-end-too-early" : "begin-differs-from-end", "co %d", r->co->id);
                r->iter = end ? 2 : 1;
                ev( "iter", r->id, end);
            } else if ( r->co->pull && op.b % 5 == 1) {
                if ( r->co->st == SUSP) {
                    bool taken = r->co->taken && kind_moves_out( r->co->kind);
                    ReadRes a = r->h->iter_read( op.c);
                    ev( "iter-read", r->co->id, (int64_t) a.id, a.st);
                    check_read( r->co, a, taken);
                    check_ref( r->co);
                }
            } else if ( resumable( r) ) {
                resume( r, 1, op.c, op.c >> 8, false);
            }
            return CONT;
        }
        case O_SYNMOVE:
            if ( me) { ev( "syn-move", me->id); me->io->syn_move(); W.count( C_SYNMOVE); if ( ! me->io->test() || me->io->nott() ) fail( T_MOVE, "counterpart-false-after-move"); }
            return CONT;
        case O_FAULT: {
            static const int fs[] = { S_ALLOC, S_VCOPY, S_VMOVE, S_FCOPY, S_NEW };
            Thr & t = W.thr();
            t.f_pending = fs[op.a % 5];
            t.f_pend_n = op.b % 8 == 7 ? 1 : op.b % 8 == 6 ? op.b / 8 % 4 : 0;
            return CONT;
        }
        case O_SWITCH: {
            if ( ! me && W.cur != 0 && op.b % 16 == 0) { W.thr().quit = true; return CONT; }
            int o = other_thread( op.a);
            if ( o >= 0) switch_to( o);
            return CONT;
        }
        case O_PREEMPT: {
            static const int ps[] = { NSEAMS, NSEAMS, S_VCOPY, S_VMOVE, S_VDTOR, S_FDTOR, S_ALLOC, S_FREE, S_LDTOR, S_FMOVE };
            Thr & t = W.thr();
            t.p_pending = ps[op.a % 10];
            t.p_pend_n = op.b % 4;
            t.p_pend_arg = op.c;
#ifdef SIM_ACCESS
            if ( op.a / 16 % 4) { t.p_pending = S_ACCESS; t.p_pend_n = op.b / 4 % 40; }
#endif
            return CONT;
        }
        case O_BURST: {         // many transfers in a row
            HandleRec * r = pick( op.a, resumable);
            if ( ! r) return CONT;
            uint32_t n = op.b % 1000;
            n = n < 700 ? 3 + n % 40 : n < 990 ? 256 + n % 100 : n < 999 ? 1100 + n : 66000;
            W.count( C_BURST);
            struct Restore { Co * b; bool rd; Restore() : b( W.burst), rd( W.burst_read) {} ~Restore() { W.burst = b; W.burst_read = rd; } } restore;
            Co * co = r->co;
            uint32_t i = 0;
            for ( ; i < n && r->co == co && resumable( r); ++i) {
                W.burst = co;
                W.burst_read = co->pull;
                resume( r, 0, op.c + i, 0, true);
                W.burst = nullptr;
                if ( std::find( W.handles.begin(), W.handles.end(), r) == W.handles.end() ) break;
                if ( co->pull && r->co == co && co->st == SUSP && co->has_val) do_read( co, r->h, op.c + i);
            }
            if ( i > W.sh->counts[C_MAXBURST]) W.sh->counts[C_MAXBURST] = i;
            return CONT;
        }
        case O_NEST: {          // coroutines inside coroutines
            if ( ! W.nest) {
                uint32_t n = op.b % 100;
                W.nest = n < 70 ? 2 + n % 8 : n < 97 ? 10 + n % 40 : 70 + op.c % 90;
                if ( W.nest + W.cos.size() > 400 || W.handles.size() > 40) { W.nest = 0; return CONT; }
                W.nest_arg = op.a;
                W.count( C_NEST);
                if ( W.nest > W.sh->counts[C_MAXNEST]) W.sh->counts[C_MAXNEST] = W.nest;
            }
            uint32_t a = W.nest_arg;
            W.nest_arg = a * 1664525u + 1013904223u;
            --W.nest;
            bool pull = a >> 20 & 1;
            std::size_t h0 = W.handles.size();
            int c0 = (int) W.cos.size();
            do_new( ctx, pull, Op{ 0, a >> 3, a >> 9, 0 });
            HandleRec * r = nullptr;
            for ( HandleRec * x : W.handles) if ( x->co && x->co->id == c0) r = x;
            (void) h0;
            if ( ! r || ! usable( r) ) { W.nest = 0; return CONT; }
            if ( ( a >> 21 & 3) && ! r->owner) { r->owner = & fl.owner; fl.owner.hs.push_back( r); ev( "adopt", r->id); }
            if ( ! pull && resumable( r) ) resume( r, 0, a >> 4, 0, true);
            W.nest = 0;
            return CONT;
        }
        case O_MASS: {
            Thr & t = W.thr();
            int f = t.f_pending, p = t.p_pending;
            t.f_pending = t.p_pending = -1;
            run_mass( op.a, op.b, op.c);
            t.f_pending = f; t.p_pending = p;
            return CONT;
        }
        case O_DEEP:
            if ( me) { W.count( C_DEEP); touch_stack( me); ev( "deep", me->id); }
            return CONT;
        default:
            observe( op);
            return CONT;
    }
}

// ================================================================ running a program

static void thread_body( int t) {
    Thr & me = W.thr_[t];
    me.cur = & me.main;
    me.main.thread = t;
    for (;;) {
        try {
            Flow f = try_frame( me.main, (uint32_t) ( W.pos & 1) );
            if ( f == ENDED) break;
        } catch ( ...) {        // thrown while an exception was being handled
            ExcId x = identify();
            if ( ! ( x == me.main.flying) ) fail( T_EXC, "exception-unexpected", "type %d id %llu", x.type, (unsigned long long) x.id);
            me.main.flying = ExcId{ E_NONE, 0 };
        }
    }
}

static void * thread_entry( void * p) {
    int t = (int) (intptr_t) p;
    Thr & me = W.thr_[t];
    while ( sem_wait( & me.sem) != 0) {}
    join_ended();
    thread_body( t);
    me.done = true;
    ev( "thread-ends", t);
    int next = 0;
    for ( int i = 1; i < (int) W.prog.cfg.threads; ++i) if ( ! W.thr_[i].done) { next = i; break; }
    if ( me.quit) W.count( C_THREAD_END);
    W.ended = t;
    W.cur = next;
    sem_post( & W.thr_[next].sem);
    return nullptr;
}

void run_program( Program const& p, Shared * sh, uint8_t * states, bool verbose) {
    W.sh = sh;
    W.states = states;
    W.verbose = verbose;
    const char * known = getenv( "SIM_KNOWN");
    W.known_get = known && strstr( known, "get-moves-value-out");
    W.prog = p;
    W.cos.reserve( 4096);
    refs = static_cast< RefObj * >( ::operator new( sizeof( RefObj) * NREFS) );
    for ( int i = 0; i < NREFS; ++i) { new ( refs + i) RefObj(); ref_model[i] = 0; }
    int n = (int) std::min( p.cfg.threads, (uint32_t) MAXTHR);
    W.prog.cfg.threads = (uint32_t) ( n < 1 ? 1 : n);
    for ( int i = 0; i < MAXTHR; ++i) { W.thr_[i].id = i; sem_init( & W.thr_[i].sem, 0, 0); }
    pthread_attr_t at;
    pthread_attr_init( & at);
    pthread_attr_setstacksize( & at, 1 << 20);
    W.active = true;
    for ( int i = 1; i < (int) W.prog.cfg.threads; ++i)
        if ( pthread_create( & W.thr_[i].th, & at, thread_entry, (void *) (intptr_t) i) != 0) harness_error( "pthread_create");

    if ( p.cfg.scenario == 1) {
        W.thr_[0].cur = & W.thr_[0].main;
        run_pipeline();
    } else if ( p.cfg.scenario == 2) {
        W.thr_[0].cur = & W.thr_[0].main;
        run_segments();
    } else {
        thread_body( 0);
        for ( int i = 1; i < (int) W.prog.cfg.threads; ++i) while ( ! W.thr_[i].done) switch_to( i);
    }
    // everything that is left
    Rng rng( p.cfg.order);
    while ( ! W.handles.empty() ) {
        std::size_t i = 0;
        switch ( p.cfg.order % 3) {
            case 1: i = W.handles.size() - 1; break;
            case 2: i = rng.below( (uint32_t) W.handles.size() ); break;
        }
        destroy( W.handles[i]);
        check_all();
    }
    W.active = false;
    for ( StackRec const& r : W.stacks) if ( r.live) { fail( T_STACK, "stack-leaked", "co %d", r.co); }
    if ( W.prog.cfg.policy == 1)
        for ( int s : slot_free) check_poison( W.stacks[ slot_rec[s] ]);
    static const Tag tags[NCLS] = { T_VLIFE, T_FLIFE, T_LOCAL, T_EXC, T_STACK, T_REF };
    for ( int c = 0; c < NCLS; ++c) if ( c != K_REF && W.live[c] != 0) fail( tags[c], "objects-left", "class %d: %d", c, W.live[c]);
    if ( heap_blocks.lib > HeapBlocks::SLACK) fail( T_STACK, "memory-left", "%ld blocks", heap_blocks.lib);
    for ( int i = 0; i < NREFS; ++i) if ( refs[i].payload != ref_model[i]) fail( T_REF, "referred-object-differs", "%d", i);
    ev( "end");
    sh->status = 1;
    _exit( 0);
}

}
