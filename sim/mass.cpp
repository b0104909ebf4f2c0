// Many coroutines at once, many one after the other, and large stacks: lean, with a model of one number per coroutine.
#include <boost/coroutine2/all.hpp>

#include <sys/mman.h>
#include <memory>
#include <new>

#include "sim.hpp"

namespace sim {
namespace {

namespace co2 = boost::coroutines2;

struct Books {
    long stacks = 0, locals = 0, entered = 0;
    std::vector< char * > spare;
    ~Books() { for ( char * p : spare) ::operator delete( p); }
};

struct MassError { uint64_t key; };

struct MassAlloc {
    Books * b; std::size_t size; bool fails = false;
    MassAlloc( Books * b_, std::size_t size_, bool f = false) : b( b_), size( size_), fails( f) {}
    boost::context::stack_context allocate() {
        if ( fails) throw MassError{ 11 };
        boost::context::stack_context s;
        s.size = size;
        char * p;
        if ( b->spare.empty() ) p = static_cast< char * >( ::operator new( size) );
        else { p = b->spare.back(); b->spare.pop_back(); }
        s.sp = p + size;
        ++b->stacks;
        return s;
    }
    void deallocate( boost::context::stack_context & s) {
        if ( s.size != size) fail( T_STACK, "stack-released-with-wrong-size", "mass");
        --b->stacks;
        b->spare.push_back( static_cast< char * >( s.sp) - size);
    }
};

struct Local { Books * b; explicit Local( Books * b_) : b( b_) { ++b->locals; } ~Local() { --b->locals; } };

uint64_t nth( uint64_t key, uint64_t n) { uint64_t x = ( key + 1) * 0x9e3779b97f4a7c15ull + n * 0xbf58476d1ce4e5b9ull; return x ^ ( x >> 29); }
int inth( uint64_t key, uint64_t n) { return (int) ( nth( key, n) & 0x7fffffff); }

// what the functions do: transfer len values, then return or throw
struct Script { Books * b; uint64_t key; uint64_t len; bool throws; };

struct IntGen { Script s;
    void operator()( co2::coroutine< int >::push_type & out) {
        ++s.b->entered;
        Local l( s.b);
        for ( uint64_t i = 0; i < s.len; ++i) out( inth( s.key, i) );
        if ( s.throws) throw MassError{ s.key };
    } };
struct VoidGen { Script s; uint64_t * at;
    void operator()( co2::coroutine< void >::push_type & out) {
        ++s.b->entered;
        Local l( s.b);
        for ( uint64_t i = 0; i < s.len; ++i) { * at = nth( s.key, i); out(); }
        if ( s.throws) throw MassError{ s.key };
    } };
struct RefGen { Script s; uint64_t * at;
    void operator()( co2::coroutine< uint64_t & >::push_type & out) {
        ++s.b->entered;
        Local l( s.b);
        for ( uint64_t i = 0; i < s.len; ++i) { * at = nth( s.key, i); out( * at); }
        if ( s.throws) throw MassError{ s.key };
    } };
struct IntSink { Script s; uint64_t * at;
    void operator()( co2::coroutine< int >::pull_type & in) {
        ++s.b->entered;
        Local l( s.b);
        for ( uint64_t i = 0; ; ++i) {
            if ( in.get() != inth( s.key, i) ) fail( T_VALUE, "value-wrong", "mass");
            * at = i + 1;
            if ( i == s.len) break;         // the last value is taken without asking for more
            in();
        }
        if ( s.throws) throw MassError{ s.key };
    } };

struct VoidSink { Script s; uint64_t * at;
    void operator()( co2::coroutine< void >::pull_type & in) {
        ++s.b->entered;
        Local l( s.b);
        for ( uint64_t i = 0; ; ++i) {
            * at = i + 1;
            if ( i == s.len) break;
            in();
        }
        if ( s.throws) throw MassError{ s.key };
    } };
struct RefSink { Script s; uint64_t * at;
    void operator()( co2::coroutine< uint64_t & >::pull_type & in) {
        ++s.b->entered;
        Local l( s.b);
        for ( uint64_t i = 0; ; ++i) {
            if ( & in.get() != at || in.get() != i) fail( T_REF, "value-wrong", "mass");
            in.get() = i + 1;
            if ( i == s.len) break;
            in();
        }
        if ( s.throws) throw MassError{ s.key };
    } };

enum { UNITS = 6 };

struct Unit {
    Script s; int kind; uint64_t step, cell; bool done;
    std::unique_ptr< co2::coroutine< int >::pull_type > ip;
    std::unique_ptr< co2::coroutine< void >::pull_type > vp;
    std::unique_ptr< co2::coroutine< uint64_t & >::pull_type > rp;
    std::unique_ptr< co2::coroutine< int >::push_type > is;
    std::unique_ptr< co2::coroutine< void >::push_type > vs;
    std::unique_ptr< co2::coroutine< uint64_t & >::push_type > rs;
    Unit( Books * b, uint64_t key, int k, uint64_t len, bool throws, std::size_t size, bool nostack = false) : s{ b, key, len, throws }, kind( k), step( 0), cell( 0), done( false) {
        MassAlloc a = { b, size, nostack };
        long e = b->entered;
        switch ( kind) {
            case 0: ip.reset( new co2::coroutine< int >::pull_type( a, IntGen{ s }) ); break;
            case 1: vp.reset( new co2::coroutine< void >::pull_type( a, VoidGen{ s, & cell }) ); break;
            case 2: rp.reset( new co2::coroutine< uint64_t & >::pull_type( a, RefGen{ s, & cell }) ); break;
            case 3: is.reset( new co2::coroutine< int >::push_type( a, IntSink{ s, & cell }) ); break;
            case 4: vs.reset( new co2::coroutine< void >::push_type( a, VoidSink{ s, & cell }) ); break;
            default: rs.reset( new co2::coroutine< uint64_t & >::push_type( a, RefSink{ s, & cell }) );
        }
        if ( b->entered - e != ( kind < 3) ) fail( T_CTRL, "entered-wrongly", "mass");
        look();
    }
    bool truth() {
        bool t, n;
        switch ( kind) {
            case 0: t = * ip ? true : false; n = ! * ip; break;
            case 1: t = * vp ? true : false; n = ! * vp; break;
            case 2: t = * rp ? true : false; n = ! * rp; break;
            case 3: t = * is ? true : false; n = ! * is; break;
            case 4: t = * vs ? true : false; n = ! * vs; break;
            default: t = * rs ? true : false; n = ! * rs;
        }
        if ( t == n) fail( T_BOOL, "bool-and-not-agree", "mass");
        return t;
    }
    void look() {
        if ( truth() == done) fail( T_BOOL, done ? "handle-true-unexpectedly" : "handle-false-unexpectedly", "mass");
        if ( done) return;
        switch ( kind) {
            case 0: if ( ip->get() != inth( s.key, step) ) fail( T_VALUE, "value-wrong", "mass"); break;
            case 1: if ( cell != nth( s.key, step) ) fail( T_CTRL, "wrong-point", "mass"); break;
            case 2: if ( & rp->get() != & cell || cell != nth( s.key, step) ) fail( T_REF, "value-wrong", "mass"); break;
            default: if ( cell != step) fail( T_CTRL, "wrong-point", "mass");
        }
    }
    void go() {
        if ( done) return;
        bool threw = false;
        uint64_t last = kind < 3 ? s.len : s.len + 1;
        try {
            switch ( kind) {
                case 0: ( * ip)(); break;
                case 1: ( * vp)(); break;
                case 2: ( * rp)(); break;
                case 3: ( * is)( inth( s.key, step) ); break;
                case 4: ( * vs)(); break;
                default: ( * rs)( cell);
            }
        } catch ( MassError const& e) {
            if ( e.key != s.key) fail( T_EXC, "exception-altered", "mass");
            threw = true;
        }
        ++step;
        done = step == last;
        if ( threw != ( done && s.throws) ) fail( T_EXC, threw ? "unexpected-exception" : "exception-lost", "mass");
        look();
    }
};

void balance( Books & b) {
    if ( b.locals) fail( T_UNWIND, "locals-not-destroyed", "mass: %ld", b.locals);
    if ( b.stacks) fail( T_STACK, "stack-not-released", "mass: %ld", b.stacks);
}

const std::size_t SMALL = 16384, TINY = 12288;

void crowd( Rng & r, std::size_t n) {
    Books b;
    int same = r.chance( 50) ? (int) r.below( UNITS) : -1;
    {
        std::vector< std::unique_ptr< Unit > > us;
        for ( std::size_t i = 0; i < n; ++i) {
            us.emplace_back( new Unit( & b, r.next(), same < 0 ? (int) r.below( UNITS) : same, 1 + r.below( 5), r.chance( 20), n < 2000 ? SMALL : TINY) );
            if ( i && r.chance( 30) ) us[r.below( (uint32_t) i)]->go();
        }
        for ( std::size_t i = 0; i < 2 * n; ++i) {
            std::size_t k = r.below( (uint32_t) us.size() );
            if ( us[k]) us[k]->go();
        }
        for ( auto & u : us) u->look();
        for ( std::size_t i = 0; i < n / 2; ++i) us[r.below( (uint32_t) n)].reset();
        for ( auto & u : us) if ( u) { u->look(); u->go(); }
        if ( r.chance( 50) ) while ( ! us.empty() ) us.pop_back();
    }
    balance( b);
    W.count( C_MASS_CO, n);
    if ( n > W.sh->counts[C_MAXCROWD]) W.sh->counts[C_MAXCROWD] = n;
}

void succession( Rng & r, std::size_t n) {
    Books b;
    int kind = (int) r.below( UNITS + 1);
    long entered = 0;
    for ( std::size_t i = 0; i < n; ++i) {
        if ( i % 3 == 1) {
            bool threw = false;
            try { Unit u( & b, i, kind == UNITS ? (int) ( i % UNITS) : kind, 1, false, SMALL, true); } catch ( MassError const& e) { threw = e.key == 11; }
            if ( ! threw || b.stacks || b.entered != entered) fail( T_FAULT, "failed-creation", "mass");
        }
        Unit u( & b, i, kind == UNITS ? (int) ( i % UNITS) : kind, 1 + i % 3, i % 7 == 3, SMALL);
        for ( std::size_t k = 0; k < i % 5; ++k) u.go();
        entered = b.entered;
    }
    balance( b);
    W.count( C_MASS_CO, n);
    if ( n > W.sh->counts[C_MAXCHURN]) W.sh->counts[C_MAXCHURN] = n;
}

// ---------------------------------------------------------------- one coroutine, very many transfers
template< typename P, typename G >
void drink( Books & b, uint64_t n, G g) {
    MassAlloc a = { & b, SMALL };
    P p( a, g);
    uint64_t i = 0;
    for ( ; p; ++i) {
        if ( (uint64_t) p.get() != ( i & 0x7fffffff) ) fail( T_VALUE, "value-wrong", "stream: number %llu", (unsigned long long) i);
        if ( i == n) fail( T_CTRL, "wrong-point", "stream");
        p();
    }
    if ( i != n) fail( T_BOOL, "handle-false-unexpectedly", "stream: after %llu of %llu", (unsigned long long) i, (unsigned long long) n);
}

// a class with books: the copy throws when told to
struct Counted {
    static Books * b; static long live; static bool refuse;
    uint64_t v; Counted * self;
    explicit Counted( uint64_t v_) : v( v_), self( this) { ++live; }
    Counted( Counted const& o) : v( o.v), self( this) { if ( refuse) throw MassError{ 9 }; ++live; }
    Counted( Counted && o) noexcept : v( o.v), self( this) { o.v = ~ 0ull; ++live; }
    Counted & operator=( Counted const& o) { if ( refuse) throw MassError{ 9 }; v = o.v; return * this; }
    Counted & operator=( Counted && o) noexcept { v = o.v; o.v = ~ 0ull; return * this; }
    ~Counted() { if ( self != this) fail( T_VLIFE, "destroyed-what-was-not-constructed", "stream"); self = nullptr; --live; }
};
Books * Counted::b = nullptr; long Counted::live = 0; bool Counted::refuse = false;

// a push that may be refused, then done again; either way of passing
template< typename O >
void offer( O & out, uint64_t i) {
    if ( i % 5 == 1) {
        Counted c( i);
        bool threw = false;
        Counted::refuse = true;
        try { out( c); } catch ( MassError const& e) { threw = e.key == 9; }
        Counted::refuse = false;
        if ( ! threw) fail( T_FAULT, "exception-lost", "stream");
        if ( ! out) fail( T_BOOL, "handle-false-unexpectedly", "stream, after a failed push");
        if ( c.v != i) fail( T_VALUE, "pushed-lvalue-changed", "stream");
    }
    if ( i & 1) { Counted const c( i); out( c); if ( c.v != i) fail( T_VALUE, "pushed-lvalue-changed", "stream"); }
    else out( Counted( i) );
}

void stream_counted( Rng & r, Books & b, uint64_t n) {
    typedef co2::coroutine< Counted > C;
    MassAlloc a = { & b, SMALL };
    Counted::live = 0;
    Counted::refuse = false;
    if ( r.chance( 50) ) {
        uint64_t i = 0;
        {
            C::pull_type p( a, [&b,n]( C::push_type & out) { Local l( & b); for ( uint64_t k = 0; k < n; ++k) offer( out, k); });
            bool hop = r.chance( 50);
            if ( hop) {         // the handle moves on after every step
                while ( p) {
                    if ( ( * p.begin() ).v != i) fail( T_VALUE, "value-wrong", "stream: number %llu", (unsigned long long) i);
                    p();
                    ++i;
                    C::pull_type q( std::move( p) );
                    if ( p) fail( T_MOVE, "source-not-empty", "stream");
                    p = std::move( q);
                }
            } else {
                for ( auto it = begin( p); it != end( p); ++it, ++i) if ( it->v != i || ( * it).v != i) fail( T_VALUE, "value-wrong", "stream: number %llu", (unsigned long long) i);
            }
            if ( Counted::live > 4) fail( T_VLIFE, "values-left", "stream: %ld", Counted::live);
        }
        if ( i != n) fail( T_BOOL, "handle-false-unexpectedly", "stream: after %llu of %llu", (unsigned long long) i, (unsigned long long) n);
    } else {
        uint64_t got = 0;
        {
            C::push_type p( a, [&b,&got,n]( C::pull_type & in) {
                Local l( & b);
                for ( auto & c : in) { if ( c.v != got) fail( T_VALUE, "value-wrong", "stream"); if ( ++got == n) return; }
            });
            for ( uint64_t i = 0; i < n; ++i) {
                if ( ! p) fail( T_BOOL, "handle-false-unexpectedly", "stream: after %llu of %llu", (unsigned long long) i, (unsigned long long) n);
                if ( i % 3) offer( p, i); else { auto it = begin( p); * it = Counted( i); ++it; }
                if ( got != i + 1) fail( T_CTRL, "wrong-point", "stream");
                if ( i % 7 == 2) { C::push_type q( std::move( p) ); p = std::move( q); }
            }
            if ( p) fail( T_BOOL, "handle-true-unexpectedly", "stream");
        }
    }
    if ( Counted::live) fail( T_VLIFE, "values-left", "stream: %ld", Counted::live);
}

void stream( Rng & r, uint64_t n) {
    Books b;
    switch ( r.below( 8) ) {
        case 6: case 7: if ( n > 70000) n = 70000; stream_counted( r, b, n); break;
        case 0: drink< co2::coroutine< int >::pull_type >( b, n, [&b,n]( co2::coroutine< int >::push_type & out) {
                Local l( & b);
                for ( uint64_t i = 0; i < n; ++i) out( (int) ( i & 0x7fffffff) );
            });
            break;
        case 1: drink< co2::coroutine< uint64_t & >::pull_type >( b, n, [&b,n]( co2::coroutine< uint64_t & >::push_type & out) {
                Local l( & b);
                for ( uint64_t i = 0; i < n; ++i) { uint64_t v = i & 0x7fffffff; out( v); }
            });
            break;
        case 2: {
            uint64_t at = 0, i = 0;
            MassAlloc a = { & b, SMALL };
            co2::coroutine< void >::pull_type p( a, [&b,&at,n]( co2::coroutine< void >::push_type & out) { Local l( & b); for ( at = 0; at < n; ++at) out(); });
            for ( ; p; ++i, p() ) if ( at != i) fail( T_CTRL, "wrong-point", "stream");
            if ( i != n) fail( T_BOOL, "handle-false-unexpectedly", "stream: after %llu of %llu", (unsigned long long) i, (unsigned long long) n);
            break;
        }
        case 3: {
            uint64_t at = 0;
            MassAlloc a = { & b, SMALL };
            co2::coroutine< int >::push_type p( a, [&b,&at,n]( co2::coroutine< int >::pull_type & in) {
                Local l( & b);
                for ( at = 0; ; in() ) { if ( (uint64_t) in.get() != ( at & 0x7fffffff) ) fail( T_VALUE, "value-wrong", "stream"); if ( ++at == n) return; }
            });
            for ( uint64_t i = 0; i < n; ++i) {
                if ( ! p) fail( T_BOOL, "handle-false-unexpectedly", "stream: after %llu of %llu", (unsigned long long) i, (unsigned long long) n);
                if ( i & 1) p( (int) ( i & 0x7fffffff) ); else { int const v = (int) ( i & 0x7fffffff); p( v); }
                if ( at != i + 1) fail( T_CTRL, "wrong-point", "stream");
            }
            if ( p) fail( T_BOOL, "handle-true-unexpectedly", "stream");
            break;
        }
        case 4: {
            uint64_t at = 0;
            MassAlloc a = { & b, SMALL };
            co2::coroutine< void >::push_type p( a, [&b,&at,n]( co2::coroutine< void >::pull_type & in) { Local l( & b); for ( at = 1; at < n; ++at) in(); });
            for ( uint64_t i = 0; i < n; ++i) {
                if ( ! p) fail( T_BOOL, "handle-false-unexpectedly", "stream: after %llu of %llu", (unsigned long long) i, (unsigned long long) n);
                p();
                if ( i + 1 < n && at != i + 1) fail( T_CTRL, "wrong-point", "stream");
            }
            if ( p) fail( T_BOOL, "handle-true-unexpectedly", "stream");
            break;
        }
        default: {
            MassAlloc a = { & b, SMALL };
            uint64_t got = 0, x = 0;
            co2::coroutine< uint64_t & >::push_type p( a, [&]( co2::coroutine< uint64_t & >::pull_type & in) {
                Local l( & b);
                for ( ; ; in() ) { if ( & in.get() != & x || x != got) fail( T_REF, "value-wrong", "stream"); if ( ++got == n) return; }
            });
            for ( uint64_t i = 0; i < n; ++i) { x = i; if ( ! p) fail( T_BOOL, "handle-false-unexpectedly", "stream"); p( x); if ( got != i + 1) fail( T_CTRL, "wrong-point", "stream"); }
            if ( p) fail( T_BOOL, "handle-true-unexpectedly", "stream");
        }
    }
    balance( b);
    W.count( C_STREAMED, n);
    if ( n > W.sh->counts[C_MAXSTREAM]) W.sh->counts[C_MAXSTREAM] = n;
}

// ---------------------------------------------------------------- coroutines created inside one another
const std::size_t LINK = 32768;

struct Link {
    Books * b; std::size_t depth, n; int fate; std::size_t * deepest; int odd;
    typedef co2::coroutine< int > I;
    void operator()( I::push_type & out) {
        ++b->entered;
        Local l( b);
        if ( depth > * deepest) * deepest = depth;
        if ( depth < n) {
            MassAlloc a = { b, LINK };
            if ( depth % 3 == (std::size_t) odd) {      // handed down instead of pulled up
                Link next = { b, depth + 1, n, fate, deepest, odd };
                co2::coroutine< void >::push_type s( a, [&next,&out,a]( co2::coroutine< void >::pull_type & in) mutable {
                    I::pull_type p( a, next);
                    for (;;) {
                        if ( ! p) return;
                        out( p.get() + 1);
                        p();
                        if ( p) in();
                    }
                });
                while ( s) s();
            } else {
                I::pull_type p( a, Link{ b, depth + 1, n, fate, deepest, odd });
                for ( int v : p) out( v + 1);
            }
        } else {
            out( 0);
            if ( fate == 1) throw MassError{ 77 };
            out( 1000000);
        }
    }
};

void chain( Rng & r, std::size_t n) {
    Books b;
    std::size_t deepest = 0;
    int fate = (int) r.below( 3);
    {
        MassAlloc a = { & b, LINK };
        Link::I::pull_type p( a, Link{ & b, 0, n, fate, & deepest, (int) r.below( 4) });
        if ( deepest != n) fail( T_CTRL, "entered-wrongly", "chain");
        if ( ! p || p.get() != (int) n) fail( T_VALUE, "value-wrong", "chain");
        if ( fate == 1) {
            bool threw = false;
            try { p(); } catch ( MassError const& e) { threw = e.key == 77; }
            if ( ! threw) fail( T_EXC, "exception-lost", "chain");
            if ( p) fail( T_BOOL, "handle-true-unexpectedly", "chain");
        } else if ( fate == 2) {
            p();
            if ( ! p || p.get() != (int) n + 1000000) fail( T_VALUE, "value-wrong", "chain");
            p();
            if ( p) fail( T_BOOL, "handle-true-unexpectedly", "chain");
            if ( b.locals) fail( T_UNWIND, "locals-not-destroyed", "chain: %ld", b.locals);
        }
    }
    balance( b);
    W.count( C_CHAINED, n);
    if ( n > W.sh->counts[C_MAXCHAIN]) W.sh->counts[C_MAXCHAIN] = n;
}

enum : std::size_t { PAGE = 4096 };
struct BigAlloc {
    Books * b; std::size_t size; char ** top;
    boost::context::stack_context allocate() {
        // a page on either side that must not be touched
        char * p = static_cast< char * >( mmap( nullptr, size + 2 * PAGE, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0) );
        if ( p == MAP_FAILED) harness_error( "mmap of a large stack");
        p += PAGE;
        if ( mprotect( p, size, PROT_READ | PROT_WRITE) ) harness_error( "mprotect of a large stack");
        boost::context::stack_context s;
        s.size = size;
        s.sp = static_cast< char * >( p) + size;
        * top = static_cast< char * >( s.sp);
        ++b->stacks;
        return s;
    }
    void deallocate( boost::context::stack_context & s) {
        if ( s.size != size || s.sp != * top) fail( T_STACK, "stack-released-with-wrong-size", "large");
        --b->stacks;
        munmap( static_cast< char * >( s.sp) - s.size - PAGE, s.size + 2 * PAGE);
    }
};

struct BigGen {
    Books * b; std::size_t size; char ** top;
    __attribute__((noinline)) void operator()( co2::coroutine< int >::push_type & out) {
        Local l( b);
        char here;
        std::size_t used = (std::size_t) ( * top - & here);
        if ( & here >= * top || used > size) fail( T_STACK, "function-not-on-its-stack", "large");
        if ( used > 16384) fail( T_STACK, "stack-overhead-too-large", "%zu of %zu", used, size);
        std::size_t n = size - used - 16384;
        volatile unsigned char * p = static_cast< volatile unsigned char * >( __builtin_alloca( n) );
        for ( std::size_t i = 0; i < n; i += 1 + n / 17) p[i] = (unsigned char) ( i * 5 + 3);
        out( 1);
        for ( std::size_t i = 0; i < n; i += 1 + n / 17) if ( p[i] != (unsigned char) ( i * 5 + 3) ) fail( T_LOCAL, "stack-memory-changed", "large");
        out( 2);
    }
};

// ---------------------------------------------------------------- giant values and callables
#ifdef BOOST_NO_CXX11_STD_ALIGN     // nothing is over-aligned there
#define GIANT_ALIGN( a) 16
#else
#define GIANT_ALIGN( a) a
#endif
template< std::size_t N, std::size_t A_, std::size_t A = GIANT_ALIGN( A_) >
struct alignas( A) Giant {
    unsigned char b[N];
    void fill( uint64_t id) { for ( std::size_t i = 0; i < N; ++i) b[i] = (unsigned char) ( id * 31 + i * 7 + ( i >> 8) ); }
    void check( uint64_t id, const char * what) const {
        if ( (uintptr_t) this % A) fail( T_ALIGN, "value-misaligned", "giant %s", what);
        for ( std::size_t i = 0; i < N; ++i) if ( b[i] != (unsigned char) ( id * 31 + i * 7 + ( i >> 8) ) ) fail( T_VALUE, "value-wrong", "giant %s: byte %zu of %zu", what, i, N);
    }
};

struct Small {
    void fill( uint64_t) {}
    void check( uint64_t, const char *) const {}
};

template< typename G, typename H >
struct GiantFn {
    H g; Books * b; G * v; uint64_t n; bool throws;
    typedef co2::coroutine< G > C;
    void operator()( typename C::push_type & out) {
        g.check( 99, "callable");
        Local l( b);
        for ( uint64_t i = 0; i < n; ++i) { v->fill( i); if ( i & 1) out( std::move( * v) ); else out( * v); }
        g.check( 99, "callable");
        if ( throws) throw MassError{ 5 };
    }
    void operator()( typename C::pull_type & in) {
        g.check( 99, "callable");
        Local l( b);
        for ( uint64_t i = 0; ; ++i, in() ) { ( * begin( in) ).check( i, "received"); if ( i + 1 == n) break; }
        g.check( 99, "callable");
        if ( throws) throw MassError{ 5 };
    }
};

template< typename G, typename H >
void giant_here( Rng & r) {
    static G work, given;
    static GiantFn< G, H > fn;
    typedef typename GiantFn< G, H >::C C;
    Books b;
    char * top = nullptr;
    fn.g.fill( 99);
    fn.b = & b; fn.v = & work; fn.n = 1 + r.below( 4); fn.throws = r.chance( 20);
    uint64_t upto = r.chance( 40) ? r.below( (uint32_t) fn.n + 1) : fn.n;
    BigAlloc a = { & b, 4u << 20, & top };
    bool threw = false;
    try {
        if ( r.chance( 50) ) {
            typename C::pull_type p( a, fn);
            for ( uint64_t i = 0; i < upto; ++i, p() ) {
                if ( ! p) fail( T_BOOL, "handle-false-unexpectedly", "giant");
                ( * begin( p) ).check( i, "read");
                p.begin()->check( i, "read");
            }
            if ( ! ! p == ( upto == fn.n) ) fail( T_BOOL, "handle-true-unexpectedly", "giant");
        } else {
            typename C::push_type p( a, fn);
            for ( uint64_t i = 0; i < upto; ++i) {
                if ( ! p) fail( T_BOOL, "handle-false-unexpectedly", "giant");
                given.fill( i);
                if ( i & 1) { p( std::move( given) ); } else { p( given); given.check( i, "pushed"); }
            }
            if ( ! ! p == ( upto == fn.n) ) fail( T_BOOL, "handle-true-unexpectedly", "giant");
        }
    } catch ( MassError const& e) { threw = e.key == 5; }
    if ( threw != ( fn.throws && upto == fn.n) ) fail( T_EXC, threw ? "unexpected-exception" : "exception-lost", "giant");
    fn.g.check( 99, "original callable");
    balance( b);
    W.count( C_GIANT);
}

// constructing one of these needs more stack than a simulated coroutine may have, so a roomy one does it
template< typename G, typename H >
void giant( Rng & r) {
    Books b;
    char * top = nullptr;
    {
        BigAlloc a = { & b, 8u << 20, & top };
        co2::coroutine< void >::pull_type p( a, [& r]( co2::coroutine< void >::push_type & out) { giant_here< G, H >( r); out(); });
    }
    balance( b);
}

void large( Rng & r) {
    Books b;
    char * top = nullptr;
    static const std::size_t sizes[] = { 1u << 20, 3u << 20, 8u << 20, 16u << 20, 33u << 20, 64u << 20, 300u << 20 };
    std::size_t size = sizes[r.below( 7)] + 4096 * r.below( 3);
    {
        BigAlloc a = { & b, size, & top };
        BigGen g = { & b, size, & top };
        co2::coroutine< int >::pull_type p( a, g);
        if ( ! p || p.get() != 1) fail( T_VALUE, "value-wrong", "large");
        if ( r.chance( 60) ) { p(); if ( ! p || p.get() != 2) fail( T_VALUE, "value-wrong", "large"); }
        if ( r.chance( 30) ) { p(); }
    }
    balance( b);
    W.count( C_BIGSTACK);
}

}

void run_mass( uint32_t a, uint32_t b, uint32_t c) {
    Quiet q;
    Rng r( ( (uint64_t) a << 32) ^ ( (uint64_t) b << 8) ^ c);
    EhState e0 = eh_state();
    ev( "mass", a % 8);
    long blocks = heap_blocks.all;
    uint32_t n = b % 200, m = c % 1000;
    switch ( a % 8) {
        case 0: case 1: case 2:
            crowd( r, m == 0 ? 66000 : m < 20 ? 4300 : m < 60 ? 1100 + n : m < 150 ? 70 + n : 3 + n % 30);
            break;
        case 3: case 4:
            succession( r, m < 5 ? 66000 : m < 100 ? 260 + n : 3 + n % 30);
            break;
        case 5:
            stream( r, m < 3 ? 4300000 : m < 20 ? 1100000 : m < 100 ? 66000 + n : 10 + n);
            break;
        case 6:
            chain( r, m < 20 ? 1100 : m < 100 ? 100 + n : n % 20);
            break;
        default:
            switch ( m % 5) {
                case 0: giant< Giant< 70001, 1 >, Giant< 70001, 1 > >( r); break;
                case 1: giant< Giant< 139264, 4096 >, Small >( r); break;
                case 2: giant< Giant< 300, 512 >, Giant< 140000, 64 > >( r); break;
                default: large( r);
            }
    }
    if ( heap_blocks.all > blocks + HeapBlocks::SLACK) fail( T_STACK, "memory-left", "%ld blocks", heap_blocks.all - blocks);
    EhState e1 = eh_state();
    if ( e0.caught != e1.caught || e0.uncaught != e1.uncaught) fail( T_EH, "exception-state-changed", "mass");
    ev( "massed", (int64_t) ( n * 1000 + m) );
}

}
