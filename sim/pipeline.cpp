// Scenario 1: random compositions of coroutines compared with the equivalent coroutine-free program.
#include "sim.hpp"

#include <algorithm>
#include <list>
#include <memory>
#include <string>
#include <vector>
#include <stdlib.h>

#include <boost/coroutine2/all.hpp>

namespace sim {

namespace co2 = boost::coroutines2;
namespace {

const uint64_t MASK = 0x7fffffff;

// ---------------------------------------------------------------- decisions
bool more() { return W.pos < W.prog.ops.size(); }
uint32_t draw( uint32_t n) {
    if ( ! more() ) return 0;
    W.sh->op = (uint32_t) W.pos;
    W.count( C_OPS);
    return W.prog.ops[W.pos++].a % n;
}

void note( uint64_t h) {
    if ( ! W.states) return;
    h = ( h ^ ( h >> 33) ) * 0xff51afd7ed558ccdull;
    h ^= h >> 33;
    uint32_t bit = (uint32_t) ( h & ( ( 1u << STATE_BITS) - 1) );
    W.states[bit >> 3] |= (uint8_t) ( 1u << ( bit & 7) );
}

// ---------------------------------------------------------------- values
template< typename V > struct Val;
template<> struct Val< uint64_t > {
    static uint64_t make( uint64_t v, int) { return v; }
    static uint64_t num( uint64_t v) { return v; }
};
template< typename T >
struct TrkVal {
    static T make( uint64_t v, int chan) { return T( v, chan); }
    static uint64_t num( T const& v) {
        v.check( "dead-value-read");
        if ( v.st != Tracked::LIVE) fail( T_VALUE, "value-moved-from");
        return v.id;
    }
};
template<> struct Val< Trk > : TrkVal< Trk > {};
template<> struct Val< MTrk > : TrkVal< MTrk > {};
template<> struct Val< BTrk > : TrkVal< BTrk > {
    static uint64_t num( BTrk const& v) { if ( ! v.intact() ) fail( T_VALUE, "value-corrupt"); return TrkVal< BTrk >::num( v); }
};
template<> struct Val< std::string > {
    static std::string make( uint64_t v, int) { return "number " + std::to_string( v) + " of a pipeline"; }
    static uint64_t num( std::string const& s) {
        uint64_t v = s.size() > 7 ? strtoull( s.c_str() + 7, nullptr, 10) : ~0ull;
        if ( s != make( v, 0) ) fail( T_VALUE, "value-corrupt");
        return v;
    }
};

// ---------------------------------------------------------------- what is to be computed
enum Stage {
    G_COUNT, G_TREE, G_RECUR,                                                       // sources
    G_MAP, G_FILTER, G_TAKE, G_DUP, G_SCAN, G_THROWAT, G_CATCH, G_BUFFER, G_FLATMAP, // one upstream
    G_ZIP, G_MERGE, G_CONCAT, G_ROBIN,                                              // two
    NSTAGES
};
enum Own { INSIDE, MOVED_IN, OUTSIDE };

struct Spec {
    Stage       kind = G_COUNT;
    uint64_t    k = 0, n = 0;
    Own         own = INSIDE;
    uint32_t    how = 0;            // which of the equivalent ways of reading and writing
    bool        nomem = false;      // its stack cannot be had
    ExcId       exc{ E_NONE, 0 };
    Spec *      up[2] = { nullptr, nullptr };
    int ups() const { return kind >= G_ZIP ? 2 : kind >= G_MAP ? 1 : 0; }
};

ExcId new_exc() {
    static const int types[] = { E_SIM, E_SIMD, E_RT, E_STR, E_VIRT, E_INT };
    return ExcId{ types[draw( 6)], ( W.next_id++) & MASK };
}

Spec * spec( int depth) {
    Spec * s = new Spec();
    uint32_t r = draw( depth > 0 ? 100 : 30);
    if ( r < 12) s->kind = G_COUNT;
    else if ( r < 24) s->kind = G_TREE;
    else if ( r < 30) s->kind = G_RECUR;
    else s->kind = (Stage) ( G_MAP + ( r - 30) % ( NSTAGES - G_MAP) );
    s->k = draw( 9);
    s->n = draw( s->kind == G_TREE ? 16 : 10);
    if ( s->kind == G_COUNT && draw( 24) == 23) s->n = 200 + draw( 300);
    uint32_t o = draw( 48);
    s->own = (Own) ( o % 3);
    s->nomem = o == 47;
    s->how = draw( 4096);
    if ( s->kind == G_THROWAT || ( s->kind < G_MAP && s->how % 16 == 15) ) s->exc = new_exc();
    for ( int i = 0; i < s->ups(); ++i) s->up[i] = spec( depth - 1);
    return s;
}

void drop( Spec * s) {
    if ( ! s) return;
    for ( Spec * u : s->up) drop( u);
    delete s;
}

uint64_t shape( Spec const* s) {
    uint64_t h = (uint64_t) s->kind * 31 + (uint64_t) s->own + 7 * s->nomem + 3 * ( s->exc.type != E_NONE);
    for ( Spec const* u : s->up) if ( u) h = h * 0x100000001b3ull + shape( u);
    return h;
}

// the values of a tree, in order: node i has children 2i+1 and 2i+2, holes decided by the shape
bool has_node( Spec const* s, uint64_t i) { return i < s->n && ( i == 0 || ( s->how >> ( i % 11) & 1) == 0 || s->k % 2 == 0); }
uint64_t node_val( Spec const* s, uint64_t i) { return ( s->k * 100 + i * 7 + s->how % 13) & MASK; }
uint64_t f_map( Spec const* s, uint64_t v) { return ( v * ( s->k + 2) + 1) & MASK; }
bool f_filter( Spec const* s, uint64_t v) { return v % ( s->k + 2) != 0; }

// ---------------------------------------------------------------- the direct program
struct Res { std::vector< uint64_t > v; ExcId t{ E_NONE, 0 }; };
struct Stop { ExcId x; };

struct Direct {                     // the upstream as a plain cursor
    Res r; std::size_t i = 0;
    bool ok() const { return i < r.v.size(); }
    uint64_t get() const { return r.v[i]; }
    void begin() { if ( ! ok() && r.t.type != E_NONE) throw Stop{ r.t }; }
    void next() { ++i; begin(); }
};

void d_tree( Spec const* s, uint64_t i, std::vector< uint64_t > & out) {
    if ( ! has_node( s, i) ) return;
    d_tree( s, 2 * i + 1, out);
    if ( s->exc.type != E_NONE && i == s->n / 2) throw Stop{ s->exc };
    out.push_back( node_val( s, i) );
    d_tree( s, 2 * i + 2, out);
}
void d_recur( Spec const* s, uint64_t i, std::vector< uint64_t > & out) {
    if ( i >= s->n) { if ( s->exc.type != E_NONE) throw Stop{ s->exc }; return; }
    out.push_back( i * 2);
    d_recur( s, i + 1, out);
    out.push_back( i * 2 + 1);
}

Res direct( Spec const* s) {
    Res o;
    std::vector< uint64_t > & out = o.v;
    try {
        Direct a, b;
        if ( s->up[0]) a.r = direct( s->up[0]);
        if ( s->up[1]) b.r = direct( s->up[1]);
        bool before = s->own != INSIDE;
        if ( before && s->up[0]) a.begin();
        if ( before && s->up[1]) b.begin();
        if ( s->nomem) throw Stop{ ExcId{ E_BADALLOC, 0 } };
        if ( ! before && s->up[0] && s->kind != G_CATCH) a.begin();
        if ( ! before && s->up[1] && s->kind != G_CONCAT) b.begin();
        switch ( s->kind) {
            case G_COUNT:
                for ( uint64_t i = 0; i < s->n; ++i) out.push_back( s->k + i * 3);
                if ( s->exc.type != E_NONE) throw Stop{ s->exc };
                break;
            case G_TREE: d_tree( s, 0, out); break;
            case G_RECUR: d_recur( s, 0, out); break;
            case G_MAP: for ( ; a.ok(); a.next() ) out.push_back( f_map( s, a.get() ) ); break;
            case G_FILTER: for ( ; a.ok(); a.next() ) if ( f_filter( s, a.get() ) ) out.push_back( a.get() ); break;
            case G_TAKE: for ( uint64_t i = 0; i < s->n && a.ok(); ) { out.push_back( a.get() ); if ( ++i < s->n) a.next(); } break;
            case G_DUP: for ( ; a.ok(); a.next() ) { out.push_back( a.get() ); out.push_back( ( a.get() + 1) & MASK); } break;
            case G_SCAN: { uint64_t sum = s->k; for ( ; a.ok(); a.next() ) { sum = ( sum + a.get() ) & MASK; out.push_back( sum); } break; }
            case G_THROWAT: { uint64_t i = 0; for ( ; a.ok(); a.next() ) { if ( i++ == s->n) throw Stop{ s->exc }; out.push_back( a.get() ); } break; }
            case G_CATCH:
                try { if ( ! before) a.begin(); for ( ; a.ok(); a.next() ) out.push_back( a.get() ); }
                catch ( Stop const& x) { out.push_back( ( x.x.id * 32 + (uint64_t) x.x.type) & MASK); }
                break;
            case G_BUFFER: {
                std::vector< uint64_t > buf;
                for ( ; a.ok(); a.next() ) buf.push_back( ( a.get() * 2) & MASK);
                out = buf;
                break;
            }
            case G_FLATMAP:
                for ( ; a.ok(); a.next() ) for ( uint64_t i = 0; i < a.get() % 4; ++i) out.push_back( ( a.get() + i * s->k) & MASK);
                break;
            case G_ZIP: for ( ; a.ok() && b.ok(); ) { out.push_back( ( a.get() * 3 + b.get() ) & MASK); a.next(); b.next(); } break;
            case G_MERGE:
                while ( a.ok() && b.ok() ) { if ( a.get() <= b.get() ) { out.push_back( a.get() ); a.next(); } else { out.push_back( b.get() ); b.next(); } }
                for ( ; a.ok(); a.next() ) out.push_back( a.get() );
                for ( ; b.ok(); b.next() ) out.push_back( b.get() );
                break;
            case G_CONCAT:
                for ( ; a.ok(); a.next() ) out.push_back( a.get() );
                if ( ! before) b.begin();
                for ( ; b.ok(); b.next() ) out.push_back( b.get() );
                break;
            case G_ROBIN:
                while ( a.ok() || b.ok() ) {
                    if ( a.ok() ) { out.push_back( a.get() ); a.next(); }
                    if ( b.ok() ) { out.push_back( b.get() ); b.next(); }
                }
                break;
            default: break;
        }
    } catch ( Stop const& x) { o.t = x.x; }
    return o;
}

// ---------------------------------------------------------------- the same with coroutines
struct PipeBase {
    int root = -1;              // values are booked on this number
    int live = 0;               // stage functions that were entered and not left
    std::vector< Co * > cos;
};

Co * new_co( PipeBase & p) {
    Co * co = new Co();
    co->id = (int) W.cos.size();
    W.cos.push_back( co);
    p.cos.push_back( co);
    if ( p.root < 0) p.root = co->id;
    W.count( C_CO);
    W.count( C_PIPE_STAGES);
    return co;
}

struct PipeAlloc {
    Co * co; bool nomem;
    boost::context::stack_context allocate() {
        if ( nomem) { ev( "no-memory", co->id); W.count( C_F_ALLOC); throw std::bad_alloc(); }
        Thr & t = W.thr();
        Co * was = t.creating;
        t.creating = co;
        unsigned mis = W.prog.cfg.misalign ? ( W.prog.cfg.misalign * 7 + (unsigned) co->id * 13) % 64 : 0;
        StackRegion r = stack_alloc( sim_stack_size( co), mis, 1000 + (uint64_t) co->id);
        t.creating = was;
        boost::context::stack_context s;
        s.sp = r.top;
        s.size = (std::size_t) ( r.top - r.bot);
        return s;
    }
    void deallocate( boost::context::stack_context & s) noexcept { stack_free( static_cast< char * >( s.sp), s.size, 1000 + (uint64_t) co->id, true); }
};

struct Inside : Tracked {       // on the frame of every stage function
    PipeBase & p; Co * co;
    Inside( PipeBase & p_, Co * c) : p( p_), co( c) {
        book( K_LOCAL, W.next_id++, co->id);
        if ( co->entered++) fail( T_CTRL, "entered-twice", "co %d", co->id);
        char here;
        if ( & here < co->sbot || & here >= co->stop) fail( T_STACK, "function-not-on-its-stack", "co %d", co->id);
        W.count( C_SWITCH_CTX);
        ++p.live;
    }
    ~Inside() { co->left = true; --p.live; unbook(); }
};

void raise( ExcId x) { W.count( C_PIPE_EXC); W.count( C_F_THROW); ev( "stage-throws", x.type, (int64_t) x.id); sim_throw( (unsigned) x.type, x.id); }

template< typename V >
struct Pipes {
    typedef typename co2::coroutine< V >::pull_type Pull;
    typedef typename co2::coroutine< V >::push_type Push;

    struct Pipe : PipeBase {
        std::list< Pull > outside;          // upstreams owned by nobody in the pipeline
        std::list< Push > outside_s;
        std::vector< uint64_t > got;        // push pipelines: what arrived at the end
    };

    static V mk( Pipe & p, uint64_t v) { return Val< V >::make( v, p.root); }
    static uint64_t num( V const& v) { return Val< V >::num( v); }

    template< typename S >
    static void emit( Pipe & p, S & s, uint64_t v, uint32_t how) {
        W.count( C_TRANSFERS);
        if ( how & 1) { V x( mk( p, v) ); s( std::move( x) ); }
        else s( mk( p, v) );
    }

    // walk an upstream in one of the equivalent ways; f returns false to stop
    template< typename F >
    static void each( Pull & up, uint32_t how, F f) {
        switch ( how % 4) {
            case 0: for ( V & v : up) { if ( ! f( num( v) ) ) return; } break;
            case 1: while ( up) { uint64_t v = num( up.get() ); if ( ! f( v) ) return; up(); } break;
            case 2: { typename Pull::iterator e( end( up) ); for ( typename Pull::iterator i( begin( up) ); i != e; ++i) { if ( ! f( num( * i) ) ) return; } break; }
            default: { auto i = up.begin(); while ( ! ( i == up.end() ) ) { if ( ! f( num( * i.operator->() ) ) ) return; i++; } }
        }
    }

    // ---- pull stages
    struct Fn : FnCore {
        Pipe & p; Spec const* s; Co * co;
        std::vector< Pull > in; std::vector< Pull * > ext;
        Fn( Pipe & p_, Spec const* s_, Co * c) : FnCore( c->id, (uint64_t) c->id * 11), p( p_), s( s_), co( c) {}
#ifdef SIM_COPYABLE
        Fn( Fn const& o) : Fn( std::move( const_cast< Fn & >( o) ) ) {}
#else
        Fn( Fn const&) = delete;
#endif
        Fn( Fn && o) : FnCore( std::move( o) ), p( o.p), s( o.s), co( o.co), in( std::move( o.in) ), ext( std::move( o.ext) ) {}
        void operator()( Push & sink) {
            Inside g( p, co);
            co->running_fn = this;
            run( sink);
            check( "callable-dead-while-running");
            if ( st != LIVE || tag != (uint64_t) co->id * 11) fail( T_FLIFE, "callable-changed-while-running");
        }
        Pull & up( int i, std::vector< Pull > & local) {
            if ( ! in.empty() ) return in[(std::size_t) i];
            if ( ! ext.empty() ) return * ext[(std::size_t) i];
            local.push_back( build( p, s->up[i]) );
            return local.back();
        }
        void tree( Push & sink, uint64_t i) {
            if ( ! has_node( s, i) ) return;
            sub( sink, 2 * i + 1);
            if ( s->exc.type != E_NONE && i == s->n / 2) raise( s->exc);
            emit( p, sink, node_val( s, i), s->how);
            sub( sink, 2 * i + 2);
        }
        void sub( Push & sink, uint64_t i) {            // a generator of its own for the subtree
            if ( s->how >> 4 & 1 ? i > 6 : ! has_node( s, i) ) { if ( has_node( s, i) ) tree( sink, i); return; }
            Co * c = new_co( p);
            Pull gen( PipeAlloc{ c, false }, TreeFn( p, this, c, i) );
            each( gen, s->how >> 5, [&]( uint64_t v) { emit( p, sink, v, s->how); return true; });
        }
        struct TreeFn : FnCore {
            Pipe & p; Fn * f; Co * co; uint64_t i;
            TreeFn( Pipe & p_, Fn * f_, Co * c, uint64_t i_) : FnCore( c->id, 1), p( p_), f( f_), co( c), i( i_) {}
            void operator()( Push & sink) { Inside g( p, co); co->running_fn = this; f->tree( sink, i); }
        };
        void recur( Push & sink, uint64_t i) {
            if ( i >= s->n) { if ( s->exc.type != E_NONE) raise( s->exc); return; }
            V keep( mk( p, 4711 + i) );
            emit( p, sink, i * 2, s->how);
            recur( sink, i + 1);
            if ( num( keep) != 4711 + i) fail( T_LOCAL, "local-changed");
            emit( p, sink, i * 2 + 1, s->how);
        }
        void run( Push & sink) {
            std::vector< Pull > local;
            local.reserve( 2);
            uint32_t how = s->how;
            auto out = [&]( uint64_t v) { emit( p, sink, v & MASK, how); return true; };
            switch ( s->kind) {
                case G_COUNT:
                    for ( uint64_t i = 0; i < s->n; ++i) out( s->k + i * 3);
                    if ( s->exc.type != E_NONE) raise( s->exc);
                    return;
                case G_TREE: tree( sink, 0); return;
                case G_RECUR: recur( sink, 0); return;
                case G_MAP: each( up( 0, local), how >> 1, [&]( uint64_t v) { return out( f_map( s, v) ); }); return;
                case G_FILTER: each( up( 0, local), how >> 1, [&]( uint64_t v) { return ! f_filter( s, v) || out( v); }); return;
                case G_TAKE: { uint64_t i = 0; Pull & u = up( 0, local); if ( s->n) each( u, how >> 1, [&]( uint64_t v) { out( v); return ++i < s->n; }); return; }
                case G_DUP: each( up( 0, local), how >> 1, [&]( uint64_t v) { out( v); return out( v + 1); }); return;
                case G_SCAN: { uint64_t sum = s->k; each( up( 0, local), how >> 1, [&]( uint64_t v) { sum = ( sum + v) & MASK; return out( sum); }); return; }
                case G_THROWAT: { uint64_t i = 0; each( up( 0, local), how >> 1, [&]( uint64_t v) { if ( i++ == s->n) raise( s->exc); return out( v); }); return; }
                case G_CATCH: {
                    ExcId x = { E_NONE, 0 };
                    try { each( up( 0, local), how >> 1, out); }
                    catch ( boost::context::detail::forced_unwind const&) { throw; }
                    catch ( ...) { x = identify(); }
                    if ( x.type != E_NONE) out( x.id * 32 + (uint64_t) x.type);
                    return;
                }
                case G_BUFFER: {
                    std::vector< uint64_t > buf;
                    Pull & u = up( 0, local);
                    Co * c = new_co( p);
                    Push acc( PipeAlloc{ c, false }, AccFn( p, c, & buf, how >> 4) );
                    each( u, how >> 1, [&]( uint64_t v) { emit( p, acc, v, how); return true; });
                    for ( uint64_t v : buf) out( v);
                    return;
                }
                case G_FLATMAP:
                    each( up( 0, local), how >> 1, [&]( uint64_t v) {
                        Co * c = new_co( p);
                        uint64_t k = s->k;
                        Pipe & pp = p;
                        Pull gen( PipeAlloc{ c, false }, [c, k, v, & pp]( Push & o) {
                            Inside g( pp, c);
                            for ( uint64_t i = 0; i < v % 4; ++i) emit( pp, o, ( v + i * k) & MASK, (uint32_t) i);
                        });
                        each( gen, how >> 4, out);
                        return true;
                    });
                    return;
                default: break;
            }
            Pull & a = up( 0, local);
            if ( s->kind == G_CONCAT) {
                each( a, how >> 1, out);
                each( up( 1, local), how >> 3, out);
                return;
            }
            Pull & b = up( 1, local);
            switch ( s->kind) {
                case G_ZIP: while ( a && b) { uint64_t x = num( a.get() ); out( x * 3 + num( b.get() ) ); a(); b(); } return;
                case G_MERGE: {     // reads through iterators: get() may be used once per value only
                    auto i = begin( a), ie = end( a), j = begin( b), je = end( b);
                    while ( i != ie && j != je) { if ( num( * i) <= num( * j) ) { out( num( * i) ); ++i; } else { out( num( * j) ); ++j; } }
                    for ( ; i != ie; ++i) out( num( * i) );
                    for ( ; j != je; ++j) out( num( * j) );
                    return;
                }
                default:
                    while ( a || b) {
                        if ( a) { out( num( a.get() ) ); a(); }
                        if ( b) { out( num( b.get() ) ); b(); }
                    }
            }
        }
    };

    struct AccFn : FnCore {
        Pipe & p; Co * co; std::vector< uint64_t > * buf; uint32_t how;
        AccFn( Pipe & p_, Co * c, std::vector< uint64_t > * b, uint32_t h) : FnCore( c->id, 2), p( p_), co( c), buf( b), how( h) {}
        void operator()( Pull & in) {
            Inside g( p, co);
            co->running_fn = this;
            each( in, how, [&]( uint64_t v) { buf->push_back( ( v * 2) & MASK); return true; });
        }
    };

    static Pull build( Pipe & p, Spec const* s) {
        Co * co = new_co( p);
        Fn f( p, s, co);
        if ( s->own == MOVED_IN) for ( int i = 0; i < s->ups(); ++i) f.in.push_back( build( p, s->up[i]) );
        if ( s->own == OUTSIDE) for ( int i = 0; i < s->ups(); ++i) { p.outside.push_back( build( p, s->up[i]) ); f.ext.push_back( & p.outside.back() ); }
        W.count( C_PULL);
        return Pull( PipeAlloc{ co, s->nomem }, std::move( f) );
    }

    // ---- push stages
    enum PStage { P_MAP, P_FILTER, P_TAKE, P_DUP, P_BATCH, P_THROWAT, P_CATCH, P_GEN, P_TEE, NP };
    struct PSpec {
        PStage kind = P_MAP; uint64_t k = 0, n = 0; Own own = INSIDE; uint32_t how = 0; bool nomem = false; ExcId exc{ E_NONE, 0 };
        PSpec * down[2] = { nullptr, nullptr };     // none: the end of the pipeline
    };
    static PSpec * pspec( int depth) {
        if ( depth <= 0) return nullptr;
        PSpec * s = new PSpec();
        s->kind = (PStage) draw( NP);
        s->k = draw( 9);
        s->n = draw( 10);
        uint32_t o = draw( 48);
        s->own = (Own) ( o % 3);
        s->nomem = o == 47;
        s->how = draw( 4096);
        if ( s->kind == P_THROWAT) s->exc = new_exc();
        s->down[0] = pspec( draw( 4) ? depth - 1 : 0);
        if ( s->kind == P_TEE) s->down[1] = pspec( draw( 2) ? depth - 1 : 0);
        return s;
    }
    static void pdrop( PSpec * s) { if ( ! s) return; pdrop( s->down[0]); pdrop( s->down[1]); delete s; }

    // direct program: a chain of plain objects
    struct DP {
        PSpec const* s; std::vector< uint64_t > & got; bool alive, born; uint64_t cnt, sum; std::unique_ptr< DP > d[2];
        DP( PSpec const* s_, std::vector< uint64_t > & g) : s( s_), got( g), alive( true), born( false), cnt( 0), sum( 0) {
            if ( s && s->own != INSIDE) make();
            if ( s && s->nomem) throw Stop{ ExcId{ E_BADALLOC, 0 } };
        }
        int downs() const { return s->kind == P_TEE ? 2 : 1; }
        void make() { for ( int i = 0; i < downs(); ++i) d[i].reset( new DP( s->down[i], got) ); }
        bool out( uint64_t v) {             // false: nobody listens any more
            bool any = false;
            for ( int i = 0; i < downs(); ++i) if ( d[i]->alive) { any = true; d[i]->feed( v & MASK); }
            return any;
        }
        void feed( uint64_t v) {
            if ( ! s) { got.push_back( v); return; }
            try {
                if ( s->kind == P_CATCH) {
                    try { step( v); } catch ( Stop const&) { alive = false; }
                } else step( v);
            } catch ( Stop const&) { alive = false; throw; }
        }
        void step( uint64_t v) {
            if ( s->own == INSIDE && ! born) make();
            born = true;
            switch ( s->kind) {
                case P_MAP: alive = out( v * 3 + s->k); break;
                case P_FILTER: if ( v % ( s->k + 2) != 0) alive = out( v); break;
                case P_TAKE: if ( cnt++ < s->n) alive = out( v); else alive = false; break;
                case P_DUP: alive = out( v) && out( v + 1); break;
                case P_BATCH: sum = ( sum + v) & MASK; if ( ++cnt == s->n + 1) { uint64_t t = sum; cnt = sum = 0; alive = out( t); } break;
                case P_THROWAT: if ( cnt++ == s->n) throw Stop{ s->exc }; alive = out( v); break;
                case P_GEN: for ( uint64_t i = 0; i < v % 4 && alive; ++i) alive = out( v + i); break;
                default: alive = out( v); break;
            }
        }
    };

    struct PFn : FnCore {
        Pipe & p; PSpec const* s; Co * co; std::vector< Push > in; std::vector< Push * > ext;
        PFn( Pipe & p_, PSpec const* s_, Co * c) : FnCore( c->id, (uint64_t) c->id * 13), p( p_), s( s_), co( c) {}
#ifdef SIM_COPYABLE
        PFn( PFn const& o) : PFn( std::move( const_cast< PFn & >( o) ) ) {}
#else
        PFn( PFn const&) = delete;
#endif
        PFn( PFn && o) : FnCore( std::move( o) ), p( o.p), s( o.s), co( o.co), in( std::move( o.in) ), ext( std::move( o.ext) ) {}
        struct Gone {};
        void operator()( Pull & src) {
            Inside g( p, co);
            co->running_fn = this;
            if ( ! s) { each( src, 0, [&]( uint64_t v) { p.got.push_back( v); return true; }); return; }
            std::vector< Push > local;
            local.reserve( 2);
            if ( s->kind == P_CATCH) {
                try { run( src, local); }
                catch ( boost::context::detail::forced_unwind const&) { throw; }
                catch ( ...) {}
            } else run( src, local);
            if ( st != LIVE || tag != (uint64_t) co->id * 13) fail( T_FLIFE, "callable-changed-while-running");
        }
        void run( Pull & src, std::vector< Push > & local) {
            Push * d[2] = { nullptr, nullptr };
            int n = s->kind == P_TEE ? 2 : 1;
            for ( int i = 0; i < n; ++i) {
                if ( ! in.empty() ) d[i] = & in[(std::size_t) i];
                else if ( ! ext.empty() ) d[i] = ext[(std::size_t) i];
                else { local.push_back( pbuild( p, s->down[i]) ); d[i] = & local[(std::size_t) i]; }
            }
            auto out = [&]( uint64_t v) {
                bool any = false;
                for ( int i = 0; i < n; ++i) if ( * d[i]) { any = true; emit( p, * d[i], v & MASK, s->how); }
                return any;
            };
            uint64_t cnt = 0, sum = 0;
            each( src, s->how >> 1, [&]( uint64_t v) -> bool {
                switch ( s->kind) {
                    case P_MAP: return out( v * 3 + s->k);
                    case P_FILTER: return v % ( s->k + 2) == 0 || out( v);
                    case P_TAKE: return cnt++ < s->n && out( v);
                    case P_DUP: return out( v) && out( v + 1);
                    case P_BATCH: {
                        sum = ( sum + v) & MASK;
                        if ( ++cnt != s->n + 1) return true;
                        uint64_t t = sum;
                        cnt = sum = 0;
                        return out( t);
                    }
                    case P_THROWAT: if ( cnt++ == s->n) raise( s->exc); return out( v);
                    case P_GEN: {
                        Co * c = new_co( p);
                        Pipe & pp = p;
                        Pull gen( PipeAlloc{ c, false }, [c, v, & pp]( Push & o) {
                            Inside g( pp, c);
                            for ( uint64_t i = 0; i < v % 4; ++i) emit( pp, o, v + i, (uint32_t) i);
                        });
                        bool ok = true;
                        each( gen, s->how >> 4, [&]( uint64_t x) { return ok = out( x); });
                        return ok;
                    }
                    default: return out( v);
                }
            });
        }
    };
    static Push pbuild( Pipe & p, PSpec const* s) {
        Co * co = new_co( p);
        PFn f( p, s, co);
        int n = ! s ? 0 : s->kind == P_TEE ? 2 : 1;
        if ( s && s->own == MOVED_IN) for ( int i = 0; i < n; ++i) f.in.push_back( pbuild( p, s->down[i]) );
        if ( s && s->own == OUTSIDE) for ( int i = 0; i < n; ++i) { p.outside_s.push_back( pbuild( p, s->down[i]) ); f.ext.push_back( & p.outside_s.back() ); }
        W.count( C_PUSH);
        return Push( PipeAlloc{ co, s && s->nomem }, std::move( f) );
    }

    // ---- driving
    struct Drive {
        Pipe p; Spec * s = nullptr; PSpec * ps = nullptr;
        Res want; std::size_t at = 0;
        std::unique_ptr< Pull > h; std::unique_ptr< typename Pull::iterator > it;
        std::unique_ptr< Push > hp; std::unique_ptr< DP > dp; std::vector< uint64_t > dgot;
        uint64_t sh = 0;
        bool over = false;
        ~Drive() { drop( s); pdrop( ps); }

        template< typename F >
        void expect( F f, ExcId x, const char * what) {     // f throws exactly x
            EhState e0 = eh_state();
            ExcId y = { E_NONE, 0 };
            try { f(); }
            catch ( boost::context::detail::forced_unwind const&) { fail( T_UNWIND, "forced-unwind-escaped"); }
            catch ( ...) { y = identify(); }
            EhState e1 = eh_state();
            if ( e0.caught != e1.caught || e0.uncaught != e1.uncaught) fail( T_EH, "exception-state-changed", "%s", what);
            if ( x == y) return;
            if ( x.type == E_NONE) fail( T_PIPE, "unexpected-exception", "%s: type %d", what, y.type);
            if ( y.type == E_NONE) fail( T_PIPE, "exception-lost", "%s: type %d", what, x.type);
            fail( T_PIPE, "exception-altered", "%s: type %d instead of %d", what, y.type, x.type);
        }
        void start() {
            bool push = draw( 3) == 2;
            if ( push) {
                ps = pspec( 1 + (int) draw( 4) );
                ExcId x = { E_NONE, 0 };
                try { dp.reset( new DP( ps, dgot) ); } catch ( Stop const& e) { x = e.x; }
                ev( "pipe-push", x.type);
                expect( [&]() { hp.reset( new Push( pbuild( p, ps) ) ); }, x, "building");
                over = x.type != E_NONE;
            } else {
                s = spec( 1 + (int) draw( 4) );
                if ( draw( 16) == 15) {             // a long chain of stages
                    static const Stage links[] = { G_MAP, G_SCAN, G_MAP, G_CATCH, G_FILTER, G_MAP, G_BUFFER };
                    for ( uint32_t n = 8 + draw( 50), i = 0; i < n; ++i) {
                        Spec * l = new Spec();
                        l->kind = links[( i + s->k) % 7];
                        l->k = ( i * 5 + s->how) % 9;
                        l->n = i % 10;
                        l->own = (Own) ( ( i + s->how) % 3);
                        l->how = s->how * 31 + i;
                        l->up[0] = s;
                        s = l;
                    }
                }
                sh = shape( s);
                want = direct( s);
                ExcId x = want.v.empty() ? want.t : ExcId{ E_NONE, 0 };
                ev( "pipe-pull", (int64_t) want.v.size(), want.t.type);
                expect( [&]() { h.reset( new Pull( build( p, s) ) ); }, x, "building");
                over = x.type != E_NONE;
                if ( ! over) compare( 0);
            }
        }
        void compare( uint32_t mode) {
            bool t = at < want.v.size();
            if ( ( * h ? true : false) != t || ! * h == t) fail( T_PIPE, t ? "ends-early" : "does-not-end", "after %zu of %zu", at, want.v.size() );
            if ( it && ( ( * it == end( * h) ) == t || ( * it != end( * h) ) != t) ) fail( T_ITER, "iterator-end-wrong", "after %zu", at);
            if ( ! t) { over = true; return; }
            uint64_t v;
            if ( it && mode & 1) v = num( ** it);
            else if ( mode & 2) v = num( * begin( * h) );
            else { typename Pull::iterator i( begin( * h) ); v = num( * i.operator->() ); }
            W.count( C_READS);
            if ( v != want.v[at]) fail( T_PIPE, "value-differs", "number %zu: %llu instead of %llu", at, (unsigned long long) v, (unsigned long long) want.v[at]);
        }
        void step( uint32_t mode) {
            if ( over) return;
            if ( hp) {
                uint64_t v = ( mode * 7919u + dgot.size() ) & 0xffff;
                if ( ! dp->alive) { over = true; return; }
                ExcId x = { E_NONE, 0 };
                try { dp->feed( v); } catch ( Stop const& e) { x = e.x; }
                ev( "pipe-feed", (int64_t) v, x.type);
                expect( [&]() { emit( p, * hp, v, mode); }, x, "push");
                if ( ( * hp ? true : false) != dp->alive || ! * hp == dp->alive) fail( T_PIPE, dp->alive ? "ends-early" : "does-not-end");
                if ( p.got != dgot) fail( T_PIPE, "value-differs", "%zu arrived, %zu expected", p.got.size(), dgot.size() );
                note( 77 + dgot.size() * 131 + (uint64_t) ps->kind * 65537 + ( ps->down[0] ? 1 + (uint64_t) ps->down[0]->kind : 0) * 1000003);
                return;
            }
            if ( mode % 5 == 0 && ! it) it.reset( new typename Pull::iterator( begin( * h) ) );
            if ( mode % 7 == 3) {           // the handle moves
                it.reset();
                std::unique_ptr< Pull > n( new Pull( std::move( * h) ) );
                if ( * h || ! ! * h) fail( T_MOVE, "source-not-empty");
                h = std::move( n);
            }
            ++at;
            bool end_ = at >= want.v.size();
            ExcId x = end_ ? want.t : ExcId{ E_NONE, 0 };
            ev( "pipe-next", (int64_t) at, x.type);
            note( sh + at * 0x9e3779b97f4a7c15ull + (uint64_t) ( it ? 1 : 0) );
            expect( [&]() { if ( it) { if ( mode & 8) ++ * it; else ( * it)++; } else ( * h)(); }, x, "resume");
            if ( x.type != E_NONE) {
                if ( * h || ! ! * h) fail( T_PIPE, "does-not-end", "after an exception");
                over = true;
                return;
            }
            compare( mode >> 1);
        }
        void finish( uint32_t mode) {
            it.reset();
            bool cut = ! over;
            if ( cut) { W.count( C_PIPE_CUT); W.count( C_F_ABANDON); }
            ev( "pipe-end", cut, mode % 4);
            if ( mode % 4 == 1) { p.outside.clear(); p.outside_s.clear(); }
            if ( mode % 4 == 2) {           // the consumer fails: the pipeline goes while an exception is in flight
                ExcId x = { E_SIM, W.next_id++ };
                expect( [&]() {
                    std::unique_ptr< Pull > a( std::move( h) );
                    std::unique_ptr< Push > b( std::move( hp) );
                    W.count( C_DESTROY_IN_UNWIND);
                    raise( x);
                }, x, "consumer");
            }
            if ( mode % 4 == 3 && h) {      // overwritten by another one
                Co * c = new_co( p);
                Pipe & pp = p;
                * h = Pull( PipeAlloc{ c, false }, [c, & pp]( Push & o) { Inside g( pp, c); emit( pp, o, 42, 0); });
                if ( ! * h || num( * begin( * h) ) != 42) fail( T_MOVE, "assigned-coroutine-differs");
            }
            h.reset();
            hp.reset();
            p.outside.clear();
            p.outside_s.clear();
            if ( p.live) fail( T_PIPE, "stage-not-released", "%d functions not left", p.live);
            for ( Co * c : p.cos) {
                if ( c->live_fns) fail( T_FLIFE, "callable-outlives-handle", "co %d", c->id);
                if ( c->live_vals) fail( T_VLIFE, "value-outlives-handle", "co %d: %d", c->id, c->live_vals);
                if ( c->n_alloc != c->n_free) fail( T_STACK, "stack-not-released", "co %d", c->id);
                if ( c->entered && ! c->left) fail( T_UNWIND, "function-not-unwound", "co %d", c->id);
            }
        }
    };

    static void round() {
        int n = 1 + (int) draw( 3);
        std::vector< std::unique_ptr< Drive > > ds;
        for ( int i = 0; i < n; ++i) { ds.emplace_back( new Drive() ); ds.back()->start(); }
        uint32_t steps = draw( 8) == 0 ? draw( 6) : 10 + draw( 60);
        for ( uint32_t i = 0; i < steps; ++i) {
            bool open = false;
            for ( auto & d : ds) open = open || ! d->over;
            if ( ! open) break;
            uint32_t a = more() ? draw( 4096) : i * 37 + 11;
            ds[a % ds.size()]->step( a >> 2);
        }
        // most pipelines are walked to their end, the others are cut off
        for ( auto & d : ds) {
            uint32_t a = draw( 4096);
            if ( a % 3) for ( int i = 0; i < 2000 && ! d->over; ++i) d->step( ( a >> 4) + (uint32_t) i);
        }
        while ( ! ds.empty() ) {
            std::size_t i = draw( (uint32_t) ds.size() );
            ds[i]->finish( draw( 4) );
            ds.erase( ds.begin() + (long) i);
        }
    }
};

}

void run_pipeline() {
    do {
        ev( "round");
        switch ( draw( 5) ) {
            case 0: Pipes< uint64_t >::round(); break;
            case 1: Pipes< Trk >::round(); break;
            case 2: Pipes< MTrk >::round(); break;
            case 3: Pipes< std::string >::round(); break;
            default: Pipes< BTrk >::round(); break;
        }
    } while ( more() && W.cos.size() < 3000);
}

}
