// Deterministic simulation of coroutine programs: core declarations.
// Written in C++11 so that the library is exercised in every language mode it supports.
#ifndef SIM_HPP
#define SIM_HPP

#include <pthread.h>
#include <semaphore.h>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <exception>
#include <initializer_list>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- oracles
// What a violation is about. Each property's check reports the tags its statement covers.
enum Tag {
    T_VALUE, T_REF, T_CTRL, T_BOOL, T_EXC, T_EH, T_UNWIND, T_STACK, T_MEM, T_VLIFE, T_FLIFE, T_MOVE, T_ITER,
    T_FAULT, T_LOCAL, T_OBS, T_PIPE, T_ALIGN, T_CRASH, T_HANG, NTAGS
};
extern const char * const tag_names[NTAGS];

// ---------------------------------------------------------------- operations
enum OpKind {
    O_NEWPULL, O_NEWPUSH, O_RESUME, O_READ, O_YIELD, O_FRAME, O_POP, O_RETURN, O_THROW, O_DESTROY, O_MOVEC,
    O_MOVEA, O_SELFM, O_ADOPT, O_RELEASE, O_ITER, O_SYNMOVE, O_FAULT, O_SWITCH, O_PREEMPT, O_DEEP, O_OBSERVE,
    O_BURST, O_NEST, O_MASS,
    NOPS
};
extern const char * const op_names[NOPS];

struct Op { uint32_t k, a, b, c; };

struct Config {
    uint32_t scenario = 0;      // 0: free program, 1: pipeline, 2: segmented stacks
    uint32_t threads = 1;
    uint32_t fill = 0;          // byte pattern of fresh stack memory
    uint32_t policy = 0;        // 0 quarantine, 1 poisoned reuse, 2 dirty reuse
    uint32_t ssize = 0;         // stack size variation
    uint32_t misalign = 0;      // misalignment of the stack top
    uint64_t kinds = ~0ull;     // value types in use (bit mask)
    uint32_t allocs = ~0u;      // stack allocators in use
    uint32_t calls = ~0u;       // callable forms in use
    uint32_t drain = 0;         // at the end coroutine functions 0: return, 1: stay suspended
    uint32_t order = 0;         // order of the final destruction
    uint32_t maxh = 10;         // handles alive at most
};

struct Program { Config cfg; std::vector< Op > ops; };

// ---------------------------------------------------------------- statistics
enum Count {
    C_OPS, C_SWITCH_CTX, C_SWITCH_THR, C_CO, C_PULL, C_PUSH, C_COMPLETED, C_FAILED, C_ABANDONED, C_NEVER_ENTERED,
    C_CTOR_THROW, C_TRANSFERS, C_READS, C_UNWOUND_LOCALS, C_UNWOUND_NESTED, C_DESTROY_IN_UNWIND, C_MAXDEPTH,
    C_F_ALLOC, C_F_MALLOC, C_F_MMAP, C_F_NEW, C_F_VCOPY, C_F_VMOVE, C_F_FNCOPY, C_F_THROW, C_F_ABANDON, C_F_DIRTY, C_F_MISALIGN,
    C_PREEMPT, C_NESTED, C_MIGRATED, C_MOVES, C_OVERWRITES, C_ITER_STEPS, C_ITER_ENDS, C_HANDLER_OPS, C_DEEP, C_SYNMOVE,
    C_OBSERVE, C_KNOWN_GET, C_STACKS, C_CXX11FN, C_RETRY_OK, C_PIPE_STAGES, C_PIPE_CUT, C_PIPE_EXC, C_BURST, C_MAXBURST, C_NEST, C_MAXNEST,
    C_MASS_CO, C_MAXCROWD, C_MAXCHURN, C_BIGSTACK, C_MOVED_RUNNING, C_THREAD_END, C_STREAMED, C_MAXSTREAM, C_CHAINED, C_MAXCHAIN, C_RUNNING_TEST, C_GIANT, C_ACCESSES, C_PREEMPT_ACCESS, C_WRITES, C_LV_CHANGED, C_SEGMENTS, C_MAXSEGBYTES, NCOUNTS
};
extern const char * const count_names[NCOUNTS];

struct Shared {             // lives in memory shared between a run and the process supervising it
    volatile uint32_t status;   // 0 running, 1 done, 2 violation, 3 harness error
    volatile uint32_t tag;
    char code[96];
    char msg[256];
    volatile uint64_t hash;     // running hash of the event log
    volatile uint64_t events;
    volatile uint32_t op;       // index of the operation being executed
    uint64_t counts[NCOUNTS];
};

enum { STATE_BITS = 24 };       // bitmap of abstract states (2^24 bits)

// ---------------------------------------------------------------- exceptions thrown by simulated code
struct ExcId {
    int type; uint64_t id;
    bool operator==( ExcId const& o) const { return type == o.type && id == o.id; }
};
enum { E_NONE, E_SIM, E_SIMD, E_RT, E_INT, E_CSTR, E_STR, E_FAULT, E_BADALLOC, E_LOGIC, E_VIRT, E_PTR, E_ENUM, E_PLAIN, E_NESTED, E_EPTR,
    E_STD0, E_STDN = E_STD0 + 12, E_DER0 = E_STDN, E_DERN = E_DER0 + 13, NEXC = E_DERN, E_UNKNOWN };

// ---------------------------------------------------------------- tracked objects
enum ObjClass { K_VAL, K_FN, K_LOCAL, K_EXC, K_ALLOC, K_REF, NCLS };

struct Co; struct Ctx; struct Owner; struct HandleRec;

struct Tracked {        // base of everything whose life is booked
    uint64_t        id;
    Tracked const*  self;
    uint32_t        st;
    int32_t         chan;       // coroutine it belongs to (-1: none)
    uint8_t         cls;
    enum { LIVE = 0x4c495645, MOVED = 0x4d4f5645, DEAD = 0x44454144 };
    void book( ObjClass, uint64_t id, int chan, uint32_t st = LIVE);
    void unbook();
    void check( const char * what) const;           // must be alive here
    bool good() const { return self == this && ( st == LIVE || st == MOVED); }
};

// seams: every call-out of a library operation into simulated code
enum Seam { S_VCOPY, S_VMOVE, S_VDTOR, S_FCOPY, S_FMOVE, S_FDTOR, S_ALLOC, S_FREE, S_NEW, S_LDTOR, S_MALLOC, S_MMAP, S_ACCESS, NSEAMS };
extern const char * const seam_names[NSEAMS];
void seam( Seam, int chan);
void seam_nothrow( Seam, int chan);     // no faults here, only pre-emption

[[noreturn]] void fail( Tag, const char * code, const char * fmt = nullptr, ...);

// ---------------------------------------------------------------- value types
struct ValBase : Tracked {
    void copy_from( ValBase const&); void move_from( ValBase &); void move_from_nothrow( ValBase &) noexcept;
    void assign_from( ValBase const&, bool move, bool may_fail = true);
};

// which value it is does not show in comparisons
inline bool operator==( ValBase const&, ValBase const&) { return true; }
inline bool operator!=( ValBase const&, ValBase const&) { return false; }
inline bool operator<( ValBase const&, ValBase const&) { return false; }

struct Trk : ValBase {          // copyable and movable
    explicit Trk( uint64_t id, int chan) { book( K_VAL, id, chan); }
    Trk( Trk const& o) { copy_from( o); }
    Trk( Trk && o) { move_from( o); }
    Trk & operator=( Trk const& o) { assign_from( o, false); return * this; }
    Trk & operator=( Trk && o) { assign_from( o, true); return * this; }
    ~Trk() { seam( S_VDTOR, chan); unbook(); }
};

struct MTrk : ValBase {         // move-only
    explicit MTrk( uint64_t id, int chan) { book( K_VAL, id, chan); }
    MTrk( MTrk && o) { move_from( o); }
#ifdef SIM_COPYABLE     // what did not compile shows when it is done
    MTrk( MTrk const& o) { fail( T_VLIFE, "move-only-value-copied"); copy_from( o); }
#endif
    MTrk & operator=( MTrk && o) { assign_from( o, true); return * this; }
    ~MTrk() { seam( S_VDTOR, chan); unbook(); }
};

struct CTrk : ValBase {         // copy-only
    explicit CTrk( uint64_t id, int chan) { book( K_VAL, id, chan); }
    CTrk( CTrk const& o) { copy_from( o); }
    CTrk & operator=( CTrk const& o) { assign_from( o, false); return * this; }
    ~CTrk() { seam( S_VDTOR, chan); unbook(); }
};

struct BTrk : Trk {             // large
    unsigned char payload[3001];
    explicit BTrk( uint64_t id, int chan) : Trk( id, chan) { fill(); }
    BTrk( BTrk const& o) : Trk( o) { std::memcpy( payload, o.payload, sizeof( payload)); }
    BTrk( BTrk && o) : Trk( std::move( o)) { std::memcpy( payload, o.payload, sizeof( payload)); }
    BTrk & operator=( BTrk const& o) { Trk::operator=( o); std::memcpy( payload, o.payload, sizeof( payload)); return * this; }
    BTrk & operator=( BTrk && o) { Trk::operator=( std::move( o)); std::memcpy( payload, o.payload, sizeof( payload)); return * this; }
    void fill() { for ( unsigned i = 0; i < sizeof( payload); ++i) payload[i] = (unsigned char)( id * 31 + i); }
    bool intact() const { for ( unsigned i = 0; i < sizeof( payload); ++i) if ( payload[i] != (unsigned char)( id * 31 + i)) return false; return true; }
};

void check_aligned( void const*, std::size_t);

template< int N >
struct alignas(N) ATrk : Trk {  // over-aligned
    explicit ATrk( uint64_t id, int chan) : Trk( id, chan) { check_aligned( this, N); }
    ATrk( ATrk const& o) : Trk( o) { check_aligned( this, N); }
    ATrk( ATrk && o) : Trk( std::move( o)) { check_aligned( this, N); }
    ATrk & operator=( ATrk const& o) { Trk::operator=( o); return * this; }
    ATrk & operator=( ATrk && o) { Trk::operator=( std::move( o)); return * this; }
};

struct NTrk : ValBase {         // nothrow movable
    explicit NTrk( uint64_t id, int chan) { book( K_VAL, id, chan); }
    NTrk( NTrk const& o) { copy_from( o); }
    NTrk( NTrk && o) noexcept { move_from_nothrow( o); }
    NTrk & operator=( NTrk const& o) { assign_from( o, false); return * this; }
    NTrk & operator=( NTrk && o) noexcept { assign_from( o, true, false); return * this; }
    ~NTrk() { seam( S_VDTOR, chan); unbook(); }
};

struct KTrk : ValBase {         // not assignable
    const int k;
    explicit KTrk( uint64_t id, int chan) : k( 1) { book( K_VAL, id, chan); }
    KTrk( KTrk const& o) : k( o.k) { copy_from( o); }
    KTrk( KTrk && o) : k( o.k) { move_from( o); }
    KTrk & operator=( KTrk const&) = delete;
    ~KTrk() { seam( S_VDTOR, chan); unbook(); }
};

struct PTrk : Trk {             // polymorphic
    explicit PTrk( uint64_t id, int chan) : Trk( id, chan) {}
    PTrk( PTrk const&) = default;
    PTrk( PTrk && o) : Trk( std::move( o) ) {}
    PTrk & operator=( PTrk const&) = default;
    PTrk & operator=( PTrk && o) { Trk::operator=( std::move( o) ); return * this; }
    virtual ~PTrk() {}
    virtual uint64_t vid() const;
};

struct DTrk {                   // trivially destructible, but neither copy nor move is trivial
    uint64_t id; DTrk const* self; uint32_t st; int32_t chan;
    explicit DTrk( uint64_t id_, int chan_) : id( id_), self( this), st( Tracked::LIVE), chan( chan_) {}
    DTrk( DTrk const&); DTrk( DTrk &&);
    DTrk & operator=( DTrk const&); DTrk & operator=( DTrk &&);
    bool good() const { return self == this && ( st == Tracked::LIVE || st == Tracked::MOVED); }
};

struct HTrk : ValBase {         // operators and constructors that generic code must not meet
    explicit HTrk( uint64_t id, int chan) { book( K_VAL, id, chan); }
    static void * operator new( std::size_t n) { return ::operator new( n); }
    static void * operator new( std::size_t, void *) { fail( T_VALUE, "placement-new-of-class-used"); }
    static void operator delete( void * p) { ::operator delete( p); }
    HTrk( HTrk const& o) { copy_from( o); }
    HTrk( HTrk && o) { move_from( o); }
    HTrk & operator=( HTrk const& o) { assign_from( o, false); return * this; }
    HTrk & operator=( HTrk && o) { assign_from( o, true); return * this; }
    ~HTrk() { seam( S_VDTOR, chan); unbook(); }
    HTrk * operator&() const { fail( T_VALUE, "overloaded-address-operator-used"); }
    template< typename U > int operator,( U &&) const { fail( T_VALUE, "overloaded-comma-used"); }
};

struct ETrk {                   // empty: only counted
    explicit ETrk( uint64_t, int) { tick( 1); }
    ETrk( ETrk const&);
    ETrk( ETrk &&);
    ETrk & operator=( ETrk const&) { return * this; }
    ~ETrk() { tick( -1); }
    static void tick( int);
};

struct Mark : Tracked {         // booked, but no call-out
    explicit Mark( uint64_t id_, int chan_) { book( K_VAL, id_, chan_); }
    Mark( Mark const&) = delete;
    ~Mark() { unbook(); }
};

struct Cell : ValBase {         // owned by a smart pointer
    explicit Cell( uint64_t id_, int chan_) { book( K_VAL, id_, chan_); }
    Cell( Cell const&) = delete;
    ~Cell() { seam( S_VDTOR, chan); unbook(); }
};

struct RefAbs {
    virtual ~RefAbs() {}
    virtual uint64_t & pay() = 0;
};

struct RefObj : Tracked, RefAbs {       // referred to by coroutines over references
    uint64_t payload; mutable uint64_t ack;
    uint64_t arr[3];
    unsigned char bytes[8];
    RefObj * ptr;
    uint64_t & pay() { return payload; }
    RefObj();
    RefObj( RefObj const&); RefObj( RefObj &&); RefObj & operator=( RefObj const&); ~RefObj();
};
enum { NREFS = 16 };
RefObj & ref_pool( unsigned i);
int ref_index( void const*);        // the object of the pool that contains this address, or -1

// ---------------------------------------------------------------- callables
struct FnCore : Tracked {
    uint64_t tag;
    explicit FnCore( int chan, uint64_t tag);
    FnCore( FnCore const&); FnCore( FnCore &&); ~FnCore();
    FnCore( FnCore const&, bool);       // copy without faults
    FnCore & operator=( FnCore const&) = delete;
};

// ---------------------------------------------------------------- interfaces of the instantiated library types
enum RState { RR_OK, RR_MOVED, RR_BAD };
struct ReadRes { RState st; uint64_t id; };

struct HandleBase {             // an outer handle (coroutine<T>::pull_type / push_type)
    int kind; bool pull;
    HandleBase( int k, bool p) : kind( k), pull( p) {}
    virtual ~HandleBase() {}
    virtual bool test() = 0;
    virtual bool nott() = 0;
    virtual HandleBase * move_ctor() = 0;
    virtual void move_assign( HandleBase &) = 0;
    virtual void resume() = 0;                                  // pull
    virtual ReadRes read( unsigned mode) = 0;                   // pull
    virtual bool write( uint64_t id, unsigned mode, int chan) = 0;      // pull: through an iterator; false if the kind has no such thing
    virtual void push( uint64_t id, unsigned mode, int chan) = 0;
    virtual bool has_iter() = 0;
    virtual void iter_start( unsigned mode) = 0;
    virtual bool iter_at_end() = 0;
    virtual ReadRes iter_read( unsigned mode) = 0;
    virtual void iter_inc( unsigned mode) = 0;                  // pull
    virtual void iter_assign( uint64_t id, int chan) = 0;       // push
    virtual void iter_drop() = 0;
    virtual int iter_compare() = 0;                             // number of disagreements between copies of the iterator
};

struct Pushed {                 // an lvalue being pushed, as long as the push lasts
    virtual void change() = 0;  // its owner gives it another value
protected:
    ~Pushed() {}
};

struct BodyIO {                 // the counterpart inside a coroutine function
    virtual ~BodyIO() {}
    virtual bool test() = 0;
    virtual bool nott() = 0;
    virtual void yield( uint64_t id, unsigned mode, int chan) = 0;  // pull coroutine: push a value out; push coroutine: ask for more
    virtual ReadRes read( unsigned mode) = 0;                       // push coroutine
    virtual bool write( uint64_t id, unsigned mode, int chan) = 0;  // push coroutine
    virtual void syn_move() = 0;                                    // move the counterpart object
};

// value kinds
// int, copy+move, move-only, copy-only, large, over-aligned (2), string, T&, T const&, void, uint8,
// trivially copyable small and large, trivially destructible, nothrow-move, not assignable, polymorphic, hostile operators,
// double, pointer, unique_ptr, shared_ptr, std::function, T const, int&, abstract&, array&, function&,
// bool, enum, empty class, huge, pair, vector, a coroutine handle, char&, pointer&, volatile&, reference to a local of the pushing side,
// trivial of odd size
enum Kind { V_INT, V_TRK, V_MOV, V_CPY, V_BIG, V_AL64, V_AL256, V_STR, V_REF, V_CREF, V_VOID, V_U8,
    V_POD, V_BPOD, V_TDC, V_NTM, V_NAS, V_POLY, V_HOST, V_DBL, V_PTR, V_UPTR, V_SPTR, V_FUN, V_CONST, V_RINT, V_RABS, V_RARR, V_RFUN,
    V_BOOL, V_ENUM, V_EMPTY, V_HUGE, V_PAIR, V_VEC, V_CORO, V_RCHAR, V_RPTR, V_RVOL, V_RLOC, V_ODD, NKINDS };
extern const char * const kind_names[NKINDS];
inline bool kind_has_value( int k) { return k != V_VOID; }
inline bool kind_in( int k, uint64_t mask) { return mask >> k & 1; }
#define SIM_BIT( x) ( 1ull << sim::x)
inline bool kind_is_ref( int k) { return kind_in( k, SIM_BIT( V_REF) | SIM_BIT( V_CREF) | SIM_BIT( V_RINT) | SIM_BIT( V_RABS) | SIM_BIT( V_RARR) | SIM_BIT( V_RFUN)
    | SIM_BIT( V_RCHAR) | SIM_BIT( V_RPTR) | SIM_BIT( V_RVOL) | SIM_BIT( V_RLOC) ); }
inline bool kind_ref_mutable( int k) { return kind_in( k, SIM_BIT( V_REF) | SIM_BIT( V_RINT) | SIM_BIT( V_RABS) | SIM_BIT( V_RVOL) ); }
// kinds with a null value: id 0 is made of it
inline bool kind_null( int k) { return kind_in( k, SIM_BIT( V_STR) | SIM_BIT( V_UPTR) | SIM_BIT( V_SPTR) | SIM_BIT( V_FUN) | SIM_BIT( V_VEC) ); }
inline bool kind_move_only( int k) { return kind_in( k, SIM_BIT( V_MOV) | SIM_BIT( V_UPTR) | SIM_BIT( V_CORO) ); }
inline bool kind_moves_out( int k) {
    return kind_in( k, SIM_BIT( V_TRK) | SIM_BIT( V_MOV) | SIM_BIT( V_BIG) | SIM_BIT( V_AL64) | SIM_BIT( V_AL256) | SIM_BIT( V_STR) | SIM_BIT( V_TDC)
        | SIM_BIT( V_NTM) | SIM_BIT( V_NAS) | SIM_BIT( V_POLY) | SIM_BIT( V_HOST) | SIM_BIT( V_UPTR) | SIM_BIT( V_SPTR) | SIM_BIT( V_FUN) | SIM_BIT( V_PAIR) | SIM_BIT( V_VEC) | SIM_BIT( V_CORO) );
}

enum AllocVar { A_SIM_R, A_SIM_L, A_DEFAULT, A_FIXED, A_PROT, A_POOL_L, A_POOL_R, A_SIM_DEF, A_SIM_EMPTY, A_FIXED_L, A_SIM_MOVE, A_SIM_CONST, A_SIM_BIG, NALLOC };
enum CallVar { F_RVALUE, F_LVALUE, F_MOVEONLY, F_STDFUN, F_FUNCTION, F_CONST, F_STDFUN_R,
    // in the translation units of some kinds only
    F_CALLCONST, F_GENERIC, F_BIG, F_ALIGNED, F_COPYONLY, F_LAMBDA, F_BIND, F_POINTER, F_NOTHROW, F_FINAL, F_HOSTILE, NCALL };

typedef HandleBase * (*Maker)( Co *, unsigned av, unsigned cv);
struct KindRegistrar { KindRegistrar( int kind, Maker pull, Maker push); };
bool have_kind( int kind);

// ---------------------------------------------------------------- model
enum State { FRESH, SUSP, RUN, DONE, GONE };
enum Outcome { X_NONE, X_YIELD, X_RETURN, X_THROW };

struct Ctx {                    // a flow of control: the main flow of a thread, or a coroutine function
    Co *                        co = nullptr;
    int                         thread = -1;
    std::vector< uint64_t >     locals;         // live locals, outermost first
    std::vector< Owner * >      owners;
    int                         frames = 0;
    int                         handlers = 0;   // running inside that many catch handlers
    int                         depth = 0;      // frames on the stack
    ExcId                       flying{ E_NONE, 0 };    // exception leaving frames
};

struct Co {
    int         id = 0;
    int         kind = 0;
    bool        pull = false;
    State       st = FRESH;
    Ctx         ctx;
    int         entered = 0;
    Outcome     outcome = X_NONE;
    uint64_t    out_val = 0;
    ExcId       out_exc{ E_NONE, 0 };
    bool        has_val = false;        // a value was transferred and not superseded
    uint64_t    val = 0;
    bool        taken = false;          // get() already moved it out
    uint64_t    in_val = 0;             // being pushed
    bool        unwinding = false;
    bool        left = false;           // the function has been left for good
    FnCore const* running_fn = nullptr;
    uint64_t    fn_tag = 0;
    bool        fn_moved = false;       // given as an rvalue
    int         n_alloc = 0, n_free = 0;
    int         alloc_var = 0;
    uint64_t    alloc_key = 0;
    char *      sbot = nullptr; char * stop = nullptr;     // stack region
    std::size_t want = 0;                                   // size of stack asked for
    std::size_t value_size = 0, fn_size = 0;
    int         live_vals = 0, live_fns = 0;
    int         last_thread = -1;
    bool        push_failed = false;
    bool        drained = false;
    bool        inside = false;         // control has arrived in the function and not begun to leave it
    int         thread_made = -1;
    BodyIO *    io = nullptr;
    Pushed *    pushed = nullptr;
};

struct HandleRec {
    int             id = 0; HandleBase * h = nullptr; Co * co = nullptr; Owner * owner = nullptr; bool busy = false;
    int             iter = 0;       // 0 none, 1 live, 2 at its end
    bool            in_use = false; // the object of the operation under way
    bool            via_iter = false;
};

struct StackRec {
    bool live = false; char * bot = nullptr; char * top = nullptr; std::size_t size = 0; int co = -1; uint64_t key = 0; int slot = -1; bool arena = false;
};

struct Token { int type; int co; };         // 0 none, 1 enter, 2 leave

struct Thr {
    int         id = 0;
    pthread_t   th;
    sem_t       sem;
    Ctx         main;
    Ctx *       cur = nullptr;
    bool        in_lib = false;
    int         f_pending = -1; uint32_t f_pend_n = 0;          // fault armed for the next operation
    int         f_active = -1; uint32_t f_n = 0;                // fault armed in this operation
    bool        f_fired = false; ExcId f_exc{ E_NONE, 0 };
    int         p_pending = -1; uint32_t p_pend_n = 0;          // pre-emption armed
    int         p_active = -1; uint32_t p_n = 0;
    uint32_t    p_pend_arg = 0, p_arg = 0;
    bool        in_base = false;
    bool        f_sticky = false;
    int         locked = 0;             // mutexes and initialisation guards it holds: nobody else runs now
    int         nocopy = -1;            // rvalue of this coroutine is being pushed: no copies
    Token       tok{ 0, -1 };
    std::vector< Co * > unw;
    Co *        creating = nullptr;
    bool        done = false;
    bool        quit = false;           // its main flow ends before the others
    int         nest = 0;
};

enum { MAXTHR = 3 };
enum Flow { CONT, POPPED, RETURNED, ENDED };

struct World {
    Shared *        sh = nullptr;
    uint8_t *       states = nullptr;
    bool            active = false;
    bool            verbose = false;
    bool            known_get = false;  // known finding: get() moves the value out
    Program         prog;
    std::size_t     pos = 0;
    int             cur = 0;
    Thr             thr_[MAXTHR];
    std::vector< Co * >         cos;
    std::vector< HandleRec * >  handles;
    std::vector< StackRec >     stacks;
    int             live[NCLS] = { 0 };
    uint64_t        next_id = 1;
    int             next_hid = 1;
    int             op_depth = 0;
    Co *            burst = nullptr;    // its function only yields
    bool            burst_read = false;
    uint32_t        nest = 0;           // coroutines still to be created inside one another
    uint32_t        nest_arg = 0;
    int             ended = -1;         // thread to be joined

    Thr & thr() { return thr_[cur]; }
    void count( Count c, uint64_t n = 1) { sh->counts[c] += n; }
};
extern World W;

void ev( const char * what, int64_t a = 0, int64_t b = 0, int64_t c = 0);
[[noreturn]] void harness_error( const char * fmt, ...);

void begin_lib();           // entering a library operation
void end_lib();             // the operation is over (or control arrived elsewhere)
void set_pushed( int chan, Pushed *);
bool being_unwound( int co);

struct Lib {                // around a call into the library; yielding: made by the function of that coroutine
    int yielding;
    explicit Lib( int y = -1) : yielding( y) { begin_lib(); }
    ~Lib() { if ( yielding < 0 || ! being_unwound( yielding) ) end_lib(); }
};

struct Quiet {              // simulated code running inside a library operation: not part of the library
    bool saved; Thr * t;
    Quiet();
    ~Quiet();
};

// blocks of operator new that are in use: those asked for inside library operations, all; a few may be kept for good
struct HeapBlocks { long lib = 0, all = 0; enum { SLACK = 4 }; };
extern HeapBlocks heap_blocks;

// stacks
struct StackRegion { char * bot; char * top; };
StackRegion stack_alloc( std::size_t size, unsigned mis, uint64_t key);
void stack_free( char * top, std::size_t size, uint64_t key, bool check_size);
void stack_adopt( char * top, std::size_t size, uint64_t key, std::size_t guard);      // memory obtained elsewhere: only booked
bool in_arena( void const*);
void arena_init();

// called by the instantiated code
void run_body( int co, BodyIO &, FnCore const*);
int  token_co();            // the coroutine being entered (plain function callables)
unsigned sim_stack_size( Co *);
[[noreturn]] void raise_fault( int chan);

ExcId identify();           // inside a catch block
void sim_throw( unsigned type, uint64_t id);

// running
void run_program( Program const&, Shared *, uint8_t * states, bool verbose);    // never throws; ends the process on a violation
void run_pipeline();        // scenario 1
void run_segments();        // scenario 2
#ifdef SIM_SPLIT
void segment_mapped( char *, std::size_t);
void segment_unmapped( char *, std::size_t);
struct SegMap { char * a; std::size_t n; int owner; };     // owner: a coroutine, -1: none
enum { SEG_MAX = 8192 };
extern SegMap seg_maps[SEG_MAX];
extern int seg_nmaps, seg_creating;                        // the coroutine being created
#endif
void run_mass( uint32_t a, uint32_t b, uint32_t c);     // crowds of coroutines, long successions of them, large stacks
Program generate( int prop, uint64_t seed);
void save( Program const&, const char * path, const char * header);
bool load( Program &, const char * path, std::string & header);

struct Rng {
    uint64_t s;
    explicit Rng( uint64_t seed) : s( seed) { next(); }
    uint64_t next() {
        uint64_t z = ( s += 0x9e3779b97f4a7c15ull);
        z = ( z ^ ( z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = ( z ^ ( z >> 27)) * 0x94d049bb133111ebull;
        return z ^ ( z >> 31);
    }
    uint32_t below( uint32_t n) { return n ? (uint32_t)( ( next() >> 32) * n >> 32) : 0; }
    bool chance( uint32_t pct) { return below( 100) < pct; }
};

struct EhState { void * caught; unsigned uncaught; };
EhState eh_state();

}

#endif
