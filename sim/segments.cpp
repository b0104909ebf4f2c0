// Scenario 2: coroutines on segmented stacks (built with split stacks and the ucontext backend of Boost.Context).
// The functions of the coroutines go up and down in frames of very different sizes, suspended, resumed (also by other threads), failing,
// catching and being destroyed at every depth, while a ledger of memory mappings knows whose segment every byte of stack lies in.
#include "sim.hpp"

#ifndef SIM_SPLIT

namespace sim {
void run_segments() { harness_error( "built without segmented stacks"); }
}

#else

#include <boost/coroutine2/all.hpp>

#include <pthread.h>
#include <algorithm>
#include <memory>
#include <vector>

// what this configuration does not contain
namespace sim {
void run_pipeline() { harness_error( "built without pipelines"); }
void run_mass( uint32_t, uint32_t, uint32_t) { harness_error( "built without masses"); }
}

namespace sim {
namespace {

namespace co2 = boost::coroutines2;

#define NOINLINE __attribute__((noinline))

// ---------------------------------------------------------------- decisions
bool more() { return W.pos < W.prog.ops.size(); }
uint32_t draw( uint32_t n) {
    if ( ! more() ) return 0;
    W.sh->op = (uint32_t) W.pos;
    W.count( C_OPS);
    return W.prog.ops[W.pos++].a % n;
}

void note( uint64_t h) {
    if ( ! W.states) return;
    h = ( h ^ ( h >> 33) ) * 0xff51afd7ed558ccdull;
    h ^= h >> 33;
    uint32_t bit = (uint32_t) ( h & ( ( 1u << STATE_BITS) - 1) );
    W.states[bit >> 3] |= (uint8_t) ( 1u << ( bit & 7) );
}

// ---------------------------------------------------------------- model
enum St { NONE, FRESH, SUSP, RUN, DONE };
enum Kind { PULL_INT, PULL_REF, PULL_VOID, PULL_OBJ, PUSH_INT, PUSH_REF, PUSH_VOID, PUSH_OBJ, KINDS };
enum { MAXDEPTH = 700 };

uint64_t nth( uint64_t key, uint64_t n) { uint64_t x = ( key + 1) * 0x9e3779b97f4a7c15ull + n * 0xbf58476d1ce4e5b9ull; return x ^ ( x >> 29); }
int inth( uint64_t key, uint64_t n) { return (int) ( nth( key, n) & 0x7fffffff); }

struct Error { uint64_t key; std::size_t level; };      // level 0: leaves the function

struct Unit;

struct Model {                          // of one coroutine; outlives it
    int id = 0; Kind kind = PULL_INT; St st = NONE;
    uint64_t key = 0, n = 0;            // values so far
    uint64_t cell = 0;                  // object referred to
    std::size_t up = 0;                 // frames to be left before the next decision
    std::vector< uint64_t > frames;     // live frames, outermost first
    uint64_t bytes = 0;
    long stacks = 0, values = 0, fns = 0;
    bool throws = false, unwinding = false, leaving = false;
    Error err{ 0, 0 };
    bool is_pull() const { return kind < PUSH_INT; }
};

std::vector< Model * > models;
std::vector< Unit * > units;            // those that exist
uint64_t frame_ids = 0;
std::size_t all_frames = 0;
uint64_t all_bytes = 0;

// ---------------------------------------------------------------- whose memory
NOINLINE int owned( int id) { int k = 0; for ( int i = 0; i < seg_nmaps; ++i) if ( seg_maps[i].owner == id) ++k; return k; }
NOINLINE void check_place( Model * m, char const* p, std::size_t n) {
    for ( int i = 0; i < seg_nmaps; ++i)
        if ( seg_maps[i].a <= p && p + n <= seg_maps[i].a + seg_maps[i].n) {
            if ( seg_maps[i].owner != m->id) fail( T_STACK, "frame-on-anothers-segment", "co %d", m->id);
            return;
        }
    fail( T_STACK, "frame-on-no-segment", "co %d", m->id);
}

// ---------------------------------------------------------------- things on the stacks
NOINLINE void fill( unsigned char * p, std::size_t n, uint64_t id) { for ( std::size_t i = 0; i < n; i += 61) p[i] = (unsigned char) ( id * 31 + i); p[n - 1] = (unsigned char) id; }
NOINLINE void inspect( unsigned char const* p, std::size_t n, uint64_t id, int co) {
    if ( p[n - 1] != (unsigned char) id) fail( T_LOCAL, "frame-corrupt", "co %d", co);
    for ( std::size_t i = 0; i + 1 < n; i += 61) if ( p[i] != (unsigned char) ( id * 31 + i) ) fail( T_LOCAL, "frame-corrupt", "co %d", co);
}

NOINLINE void use_stack( uint64_t id, int co) {     // a destructor that needs room itself
    unsigned char b[20000];
    fill( b, sizeof( b), id);
    inspect( b, sizeof( b), id, co);
}

struct Local {
    Model * m; uint64_t id; unsigned char * buf; std::size_t n;
    Local( Model * m_, unsigned char * buf_, std::size_t n_) : m( m_), id( ++frame_ids), buf( buf_), n( n_) {
        check_place( m, reinterpret_cast< char * >( buf), n);
        check_place( m, reinterpret_cast< char * >( this), sizeof( * this) );
        fill( buf, n, id);
        m->frames.push_back( id);
        m->bytes += n;
        ++all_frames;
        all_bytes += n;
        if ( m->frames.size() > W.sh->counts[C_MAXDEPTH]) W.sh->counts[C_MAXDEPTH] = m->frames.size();
        if ( m->bytes > W.sh->counts[C_MAXSEGBYTES]) W.sh->counts[C_MAXSEGBYTES] = m->bytes;
    }
    Local( Local const&) = delete;
    ~Local() {
        inspect( buf, n, id, m->id);
        if ( m->frames.empty() || m->frames.back() != id) fail( T_UNWIND, "wrong-order", "co %d", m->id);
        if ( ! m->leaving && ! m->unwinding) fail( T_UNWIND, "unexpected", "co %d", m->id);
        m->frames.pop_back();
        m->bytes -= n;
        --all_frames;
        all_bytes -= n;
        if ( m->unwinding) W.count( C_UNWOUND_LOCALS);
        if ( id % 7 == 0) use_stack( id, m->id);
    }
};

// ---------------------------------------------------------------- values and callables
struct Obj {
    Model * m; uint64_t v; unsigned char pad[600];
    Obj( Model * m_, uint64_t v_) : m( m_), v( v_) { ++m->values; fill( pad, sizeof( pad), v); }
    Obj( Obj const& o) : m( o.m), v( o.v) { ++m->values; fill( pad, sizeof( pad), v); }
    Obj & operator=( Obj const& o) { m = o.m; v = o.v; fill( pad, sizeof( pad), v); return * this; }
    ~Obj() { inspect( pad, sizeof( pad), v, m->id); --m->values; }
};

template< Kind K > struct Of;
template<> struct Of< PULL_INT > { typedef int T; };            template<> struct Of< PUSH_INT > { typedef int T; };
template<> struct Of< PULL_REF > { typedef uint64_t & T; };     template<> struct Of< PUSH_REF > { typedef uint64_t & T; };
template<> struct Of< PULL_VOID > { typedef void T; };          template<> struct Of< PUSH_VOID > { typedef void T; };
template<> struct Of< PULL_OBJ > { typedef Obj T; };            template<> struct Of< PUSH_OBJ > { typedef Obj T; };

template< typename T > struct Move_ {
    template< typename S > static void send( S & s, Model * m) { s( inth( m->key, m->n++) ); }
    template< typename P > static void recv( P & p, Model * m) { if ( p.get() != inth( m->key, m->n++) ) fail( T_VALUE, "value-wrong", "co %d", m->id); }
};
template<> struct Move_< uint64_t & > {
    template< typename S > static void send( S & s, Model * m) { m->cell = nth( m->key, m->n++); s( m->cell); }
    template< typename P > static void recv( P & p, Model * m) {
        if ( & p.get() != & m->cell || p.get() != nth( m->key, m->n++) ) fail( T_REF, "value-wrong", "co %d", m->id);
    }
};
template<> struct Move_< void > {
    template< typename S > static void send( S & s, Model * m) { m->cell = nth( m->key, m->n++); s(); }
    template< typename P > static void recv( P &, Model * m) { if ( m->cell != nth( m->key, m->n++) ) fail( T_CTRL, "transfer-count", "co %d", m->id); }
};
template<> struct Move_< Obj > {
    template< typename S > static void send( S & s, Model * m) { Obj o( m, nth( m->key, m->n++) ); s( o); }
    template< typename P > static void recv( P & p, Model * m) { Obj o( p.get() ); if ( o.v != nth( m->key, m->n++) ) fail( T_VALUE, "value-wrong", "co %d", m->id); }
};

// ---------------------------------------------------------------- inside
struct IO { virtual void yield( Model *) = 0; virtual ~IO() {} };

template< typename T, typename S > struct SinkIO : IO {
    S & s;
    explicit SinkIO( S & s_) : s( s_) {}
    void yield( Model * m) override { m->st = SUSP; Move_< T >::send( s, m); if ( m->st != RUN) fail( T_CTRL, "entered-unasked", "co %d", m->id); if ( ! s) fail( T_BOOL, "counterpart-false", "co %d", m->id); }
};
template< typename T, typename P > struct SourceIO : IO {
    P & p;
    explicit SourceIO( P & p_) : p( p_) {}
    // the value counter belongs to the sender; what was received last is compared with the value before it
    void take( Model * m) { --m->n; Move_< T >::recv( p, m); if ( ! p) fail( T_BOOL, "counterpart-false", "co %d", m->id); }
    void yield( Model * m) override { m->st = SUSP; p(); if ( m->st != RUN) fail( T_CTRL, "entered-unasked", "co %d", m->id); take( m); }
};

void act( Model *, IO &, uint32_t down);
bool room( Model * m) { return m->frames.size() < MAXDEPTH && m->bytes < ( 12u << 20) && all_frames < 2500 && all_bytes < ( 40u << 20); }

template< int N > NOINLINE void frame( Model * m, IO & io, uint32_t down) {
    unsigned char buf[N];
    Local l( m, buf, N);
    act( m, io, down);
    if ( N % 3 == 0) inspect( buf, N, l.id, m->id);
}

NOINLINE void enter( Model * m, IO & io, uint32_t size, uint32_t down) {
    switch ( size % 9) {
        case 0: frame< 40 >( m, io, down); break;
        case 1: frame< 300 >( m, io, down); break;
        case 2: frame< 1500 >( m, io, down); break;
        case 3: frame< 4096 >( m, io, down); break;
        case 4: frame< 9001 >( m, io, down); break;
        case 5: frame< 30000 >( m, io, down); break;
        case 6: frame< 65536 >( m, io, down); break;
        case 7: if ( m->bytes < ( 4u << 20) ) frame< 1200003 >( m, io, down); else frame< 100 >( m, io, down); break;
        default: frame< 777 >( m, io, down); break;
    }
}

void driver( Model * inside, std::vector< std::unique_ptr< Unit > > * own);

// one frame of a function: decisions until it is left
NOINLINE void act( Model * m, IO & io, uint32_t down) {
    std::size_t level = m->frames.size();
    std::vector< std::unique_ptr< Unit > > own;
    for (;;) {
        try {
            for (;;) {
                if ( m->up) { --m->up; m->leaving = true; return; }
                m->leaving = false;
                if ( down) {
                    if ( room( m) ) enter( m, io, down, down >= 16 ? down - 16 : 0);
                    down = 0;
                    continue;
                }
                uint32_t d = draw( 16);
                note( ( (uint64_t) m->kind << 40) ^ ( (uint64_t) d << 32) ^ ( m->frames.size() << 8) ^ units.size() ^ ( m->n << 50) );
                if ( ! more() ) { m->up = m->frames.size() - 1; m->leaving = true; return; }
                switch ( d) {
                    case 0: case 1: case 2: case 3: case 4: { ev( "yield", m->id, (int64_t) m->n); io.yield( m); break; }
                    case 5: case 6: case 7: { uint32_t x = draw( 9); ev( "frame", m->id, x); if ( room( m) ) enter( m, io, x, 0); break; }
                    case 8: case 9: { uint32_t x = draw( 9); uint32_t k = draw( 100); k = k < 90 ? 2 + k : 100 + 10 * k; ev( "deep", m->id, x, k);
                        W.count( C_DEEP);
                        down = x + 16 * k;      // the sizes differ on the way: down counts by 16
                        break; }
                    case 10: case 11: m->leaving = true; ev( "leave", m->id); return;
                    case 12: { std::size_t k = 1 + draw( 64); if ( draw( 4) == 0) k = level; m->up = std::min( k, level) - 1; ev( "climb", m->id, (int64_t) m->up); m->leaving = true; return; }
                    case 13: {
                        std::size_t to = draw( 3) == 0 ? 0 : draw( (uint32_t) level + 1);
                        m->err = Error{ nth( m->key, 1000000 + W.pos), to };
                        ev( "throw", m->id, (int64_t) to);
                        W.count( C_F_THROW);
                        m->leaving = true;
                        throw m->err;
                    }
                    default: { ev( "inside", m->id); driver( m, & own); break; }
                }
            }
        } catch ( Error const& e) {
            if ( e.key != m->err.key) fail( T_EXC, "wrong-exception", "co %d", m->id);
            if ( e.level == 0 || e.level != level) throw;
            if ( m->frames.size() != level) fail( T_UNWIND, "frames-left", "co %d", m->id);
            m->leaving = false;
        }
    }
}

template< Kind K, bool PULL > struct Fn {
    typedef typename Of< K >::T T;
    typedef typename std::conditional< PULL, typename co2::coroutine< T >::push_type, typename co2::coroutine< T >::pull_type >::type X;
    Model * m;
    explicit Fn( Model * m_) : m( m_) { ++m->fns; }
    Fn( Fn const& o) : m( o.m) { ++m->fns; }
    Fn( Fn && o) : m( o.m) { ++m->fns; }
    ~Fn() { --m->fns; }
    static void start( SinkIO< T, X > &, Model *, std::true_type) {}
    static void start( SourceIO< T, X > & io, Model * m, std::false_type) { io.take( m); }
    void operator()( X & x) {
        if ( m->st != RUN) fail( T_CTRL, "entered-unasked", "co %d", m->id);
        ev( "enter", m->id);
        W.count( C_SWITCH_CTX);
        typename std::conditional< PULL, SinkIO< T, X >, SourceIO< T, X > >::type io( x);
        start( io, m, std::integral_constant< bool, PULL >() );
        try {
            enter( m, io, 1, 0);
        } catch ( Error const& e) {
            if ( e.level != 0) fail( T_EXC, "went-past-its-handler", "co %d", m->id);
            m->throws = true;
            m->st = DONE;
            W.count( C_FAILED);
            throw;
        }
        m->st = DONE;
        W.count( C_COMPLETED);
        ev( "return", m->id);
    }
};

// a stack allocator that keeps books
struct Booked {
    Model * m; co2::segmented_stack s; bool fails; std::size_t size;
    Booked( Model * m_, std::size_t n, bool f) : m( m_), s( n), fails( f), size( n) {}
    boost::context::stack_context allocate() {
        if ( fails) { W.count( C_F_ALLOC); throw Error{ 77, 0 }; }
        boost::context::stack_context c = s.allocate();
        ++m->stacks;
        return c;
    }
    void deallocate( boost::context::stack_context & c) noexcept {
        if ( --m->stacks != 0) fail( T_STACK, "released-twice", "co %d", m->id);
        s.deallocate( c);
        if ( int k = owned( m->id) ) fail( T_STACK, "segments-left", "co %d: %d", m->id, k);
    }
};

struct HandleB { virtual bool test() = 0; virtual void resume( Model *) = 0; virtual HandleB * moved() = 0; virtual bool assign( HandleB &) = 0; virtual ~HandleB() {} };

template< Kind K, bool PULL > struct Handle;
template< Kind K > struct Handle< K, true > : HandleB {
    typedef typename Of< K >::T T;
    typename co2::coroutine< T >::pull_type p;
    template< typename ... A > explicit Handle( A && ... a) : p( std::forward< A >( a) ...) {}
    bool test() override { return static_cast< bool >( p); }
    void resume( Model * m) override { p(); if ( m->st == SUSP) take( m); }
    void take( Model * m) { --m->n; Move_< T >::recv( p, m); }
    HandleB * moved() override { return new Handle( std::move( p) ); }
    bool assign( HandleB & o) override { Handle * h = dynamic_cast< Handle * >( & o); if ( ! h) return false; p = std::move( h->p); return true; }
};
template< Kind K > struct Handle< K, false > : HandleB {
    typedef typename Of< K >::T T;
    typename co2::coroutine< T >::push_type s;
    template< typename ... A > explicit Handle( A && ... a) : s( std::forward< A >( a) ...) {}
    bool test() override { return static_cast< bool >( s); }
    void resume( Model * m) override { Move_< T >::send( s, m); }
    void take( Model *) {}
    HandleB * moved() override { return new Handle( std::move( s) ); }
    bool assign( HandleB & o) override { Handle * h = dynamic_cast< Handle * >( & o); if ( ! h) return false; s = std::move( h->s); return true; }
};

// ---------------------------------------------------------------- outside
struct Unit {
    Model * m;
    HandleB * h = nullptr;
    Model * owner = nullptr;            // the coroutine it is owned by, if any

    explicit Unit( Kind k) : m( new Model() ) {
        m->id = (int) models.size();
        m->kind = k;
        m->key = W.next_id++;
        models.push_back( m);
    }
    Unit( Unit const&) = delete;

    template< Kind K > HandleB * make( uint32_t how, std::size_t size, bool fails) {
        enum { P = K < PUSH_INT };
        typedef Fn< K, P > F;
        typedef Handle< K, P > H;
        switch ( how % 4) {
            case 0: return new H( F( m) );
            case 1: { F f( m); return new H( f); }
            case 2: return new H( co2::segmented_stack( size), F( m) );
            default: return new H( Booked( m, size, fails), F( m) );
        }
    }
    // whether a coroutine came to be
    bool create( uint32_t how, std::size_t size, bool fails) {
        ev( "create", m->id, m->kind, how % 4);
        fails = fails && how % 4 == 3;
        seg_creating = m->id;
        m->st = m->is_pull() ? RUN : FRESH;
        try {
            switch ( m->kind) {
                case PULL_INT: h = make< PULL_INT >( how, size, fails); break;
                case PULL_REF: h = make< PULL_REF >( how, size, fails); break;
                case PULL_VOID: h = make< PULL_VOID >( how, size, fails); break;
                case PULL_OBJ: h = make< PULL_OBJ >( how, size, fails); break;
                case PUSH_INT: h = make< PUSH_INT >( how, size, fails); break;
                case PUSH_REF: h = make< PUSH_REF >( how, size, fails); break;
                case PUSH_VOID: h = make< PUSH_VOID >( how, size, fails); break;
                default: h = make< PUSH_OBJ >( how, size, fails); break;
            }
        } catch ( Error const& e) {
            if ( fails ? e.key != 77 || m->st == DONE : ! m->throws || e.key != m->err.key) fail( T_EXC, "unexpected", "co %d", m->id);
            m->throws = false;
            m->st = NONE;
            ev( "create-failed", m->id, fails);
            gone();
            return false;
        }
        if ( fails) fail( T_FAULT, "fault-swallowed", "co %d", m->id);
        if ( m->throws) fail( T_EXC, "lost", "co %d", m->id);
        W.count( C_STACKS);
        W.count( C_CO);
        W.count( m->is_pull() ? C_PULL : C_PUSH);
        if ( m->kind == PULL_INT && m->st == SUSP) static_cast< Handle< PULL_INT, true > * >( h)->take( m);
        if ( m->kind == PULL_REF && m->st == SUSP) static_cast< Handle< PULL_REF, true > * >( h)->take( m);
        if ( m->kind == PULL_VOID && m->st == SUSP) static_cast< Handle< PULL_VOID, true > * >( h)->take( m);
        if ( m->kind == PULL_OBJ && m->st == SUSP) static_cast< Handle< PULL_OBJ, true > * >( h)->take( m);
        units.push_back( this);
        arrived();
        return true;
    }
    void arrived() {
        if ( m->st == RUN) fail( T_CTRL, "came-back-early", "co %d", m->id);
        if ( m->st == DONE && ! m->frames.empty() ) fail( T_UNWIND, "frames-left", "co %d", m->id);
        bool expect = m->st == SUSP || m->st == FRESH;
        if ( h->test() != expect) fail( T_BOOL, expect ? "false" : "true", "co %d", m->id);
    }
    void resume() {
        ev( "resume", m->id, (int64_t) m->n);
        W.count( C_SWITCH_CTX);
        W.count( C_TRANSFERS);
        m->st = RUN;
        try {
            h->resume( m);
        } catch ( Error const& e) {
            if ( ! m->throws || e.key != m->err.key) fail( T_EXC, "unexpected", "co %d", m->id);
            m->throws = false;
            ev( "failed", m->id);
        }
        if ( m->throws) fail( T_EXC, "lost", "co %d", m->id);
        arrived();
    }
    void move() {
        ev( "move", m->id);
        W.count( C_MOVES);
        HandleB * o = h->moved();
        if ( h->test() ) fail( T_MOVE, "source-not-empty", "co %d", m->id);
        delete h;
        h = o;
        arrived();
    }
    void gone() {
        if ( ! m->frames.empty() ) fail( T_UNWIND, "frames-left", "co %d: %d", m->id, (int) m->frames.size() );
        if ( m->fns) fail( T_FLIFE, "callables-left", "co %d: %ld", m->id, m->fns);
        if ( m->values) fail( T_VLIFE, "values-left", "co %d: %ld", m->id, m->values);
        if ( m->stacks) fail( T_STACK, "stack-leaked", "co %d", m->id);
        if ( int k = owned( m->id) ) fail( T_STACK, "segments-left", "co %d: %d", m->id, k);
    }
    // o's coroutine takes the place of this one, which is destroyed
    void replace_by( Unit & o) {
        ev( "replace", m->id, o.m->id);
        W.count( C_OVERWRITES);
        m->unwinding = true;
        if ( ! h->assign( * o.h) ) harness_error( "assign");
        if ( o.h->test() ) fail( T_MOVE, "source-not-empty", "co %d", o.m->id);
        gone();
        std::swap( m, o.m);
        o.m->st = NONE;
        arrived();
    }
    ~Unit() {
        units.erase( std::remove( units.begin(), units.end(), this), units.end() );
        if ( ! h) return;
        if ( m->st == RUN) harness_error( "running coroutine destroyed");
        ev( "destroy", m->id, (int64_t) m->frames.size() );
        if ( ! m->frames.empty() ) W.count( C_F_ABANDON);
        m->unwinding = true;
        delete h;
        gone();
        m->st = NONE;
    }
};

std::vector< std::unique_ptr< Unit > > top;

// what is running must not be destroyed by its owner's going on
bool owns_running( Model * m) {
    for ( Unit * u : units) if ( u->owner == m && ( u->m->st == RUN || owns_running( u->m) ) ) return true;
    return false;
}

// whether u lives, at whatever distance, on the stack of that coroutine
bool lives_on( Unit * u, Model * m) {
    if ( ! u->owner) return false;
    if ( u->owner == m) return true;
    for ( Unit * o : units) if ( o->m == u->owner) return lives_on( o, m);
    return false;
}

Unit * pick( bool busy) {
    std::vector< Unit * > c;
    for ( Unit * u : units) if ( ! owns_running( u->m) && ( busy ? u->m->st == DONE : u->m->st == SUSP || u->m->st == FRESH) ) c.push_back( u);
    return c.empty() ? nullptr : c[draw( (uint32_t) c.size() )];
}

void * thread_main( void * u) { static_cast< Unit * >( u)->resume(); return nullptr; }

const std::size_t sizes[] = { 8192, 12000, 16384, 20001, 65536, 131072, 300000, 16384 };

// one operation; inside: from the function of that coroutine, by a frame owning others
NOINLINE void driver( Model * inside, std::vector< std::unique_ptr< Unit > > * own) {
    switch ( draw( inside ? 8 : 12) ) {
        case 0: case 1: {
            if ( units.size() > 40 || models.size() > 600) break;
            std::unique_ptr< Unit > u( new Unit( (Kind) draw( KINDS) ) );
            uint32_t how = draw( 4), size = draw( 8);
            bool fails = draw( 6) == 0;
            bool inner = own && draw( 2);
            u->owner = inner ? inside : nullptr;
            if ( u->create( how, sizes[size], fails) ) ( inner ? * own : top).push_back( std::move( u) );
            break;
        }
        case 2: case 3: case 4: case 8: case 9: if ( Unit * u = pick( false) ) u->resume(); break;
        case 5: if ( Unit * u = pick( false) ) u->move(); break;
        case 6: {
            Unit * u = pick( draw( 4) == 0);
            for ( auto i = top.begin(); i != top.end(); ++i)
                if ( i->get() == u) { std::unique_ptr< Unit > d( std::move( * i) ); top.erase( i); break; }
            break;
        }
        case 7: {
            Unit * a = pick( draw( 3) == 0), * b = pick( false);
            if ( a && b && a != b && a->m->kind == b->m->kind && ! lives_on( a, b->m) && ! lives_on( b, a->m) ) {
                a->replace_by( * b);
                for ( auto i = top.begin(); i != top.end(); ++i)
                    if ( i->get() == b) { std::unique_ptr< Unit > d( std::move( * i) ); top.erase( i); break; }
            }
            break;
        }
        default:
            if ( Unit * u = pick( false) ) {
                W.count( C_MIGRATED);
                ev( "other-thread", u->m->id);
                pthread_t t;
                if ( pthread_create( & t, nullptr, thread_main, u) != 0) harness_error( "pthread_create");
                pthread_join( t, nullptr);
            }
    }
}

}

void run_segments() {
    while ( more() ) driver( nullptr, nullptr);
    ev( "finish", (int64_t) top.size() );
    while ( ! top.empty() ) {
        std::size_t i = W.prog.cfg.order % 2 ? top.size() - 1 : 0;
        std::unique_ptr< Unit > d( std::move( top[i]) );
        top.erase( top.begin() + (long) i);
        d.reset();
    }
    if ( ! units.empty() ) harness_error( "units left");
    for ( Model * m : models) if ( int k = owned( m->id) ) fail( T_STACK, "segments-left", "co %d: %d", m->id, k);
}

}

#endif
