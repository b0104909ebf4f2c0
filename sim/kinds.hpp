// The library types of one value kind behind the simulator's interfaces.  Public API only.
#ifndef SIM_KINDS_HPP
#define SIM_KINDS_HPP

#include <boost/coroutine2/all.hpp>

#include <functional>
#include <memory>
#include <new>
#include <utility>
#include <vector>
#include <stdlib.h>

#include "sim.hpp"

namespace sim {

namespace co2 = boost::coroutines2;

// ---------------------------------------------------------------- value kinds
template< int K > struct KT;

template< typename T_ >
struct IntKind {
    typedef T_ T;
    enum { copyable = 1, movable = 1, is_ref = 0 };
    static T make( uint64_t id, int) { return (T) id; }
    static ReadRes look( T const& v) { return ReadRes{ RR_OK, (uint64_t) (typename std::make_unsigned< T >::type) v }; }
    static bool same( T const& v, uint64_t id) { return v == (T) id; }
};
template<> struct KT< V_INT > : IntKind< int > {};
template<> struct KT< V_U8 > : IntKind< unsigned char > {};

template< typename T_, int C, int M >
struct TrkKind {
    typedef T_ T;
    enum { copyable = C, movable = M, is_ref = 0 };
    static T make( uint64_t id, int chan) { return T( id, chan); }
    static ReadRes look( T const& v) {
        if ( ! v.good() ) return ReadRes{ RR_BAD, 0 };
        if ( v.st == Tracked::MOVED) return ReadRes{ RR_MOVED, v.id };
        return ReadRes{ RR_OK, v.id };
    }
    static bool same( T const& v, uint64_t id) { return v.good() && v.st == Tracked::LIVE && v.id == id; }
    static bool left( T const& v, uint64_t id) { return v.good() && v.id == id; }
};
template<> struct KT< V_TRK > : TrkKind< Trk, 1, 1 > {};
template<> struct KT< V_MOV > : TrkKind< MTrk, 0, 1 > {};
template<> struct KT< V_CPY > : TrkKind< CTrk, 1, 0 > {};
template<> struct KT< V_AL64 > : TrkKind< ATrk< 64 >, 1, 1 > {};
template<> struct KT< V_AL256 > : TrkKind< ATrk< 256 >, 1, 1 > {};
template<> struct KT< V_BIG > : TrkKind< BTrk, 1, 1 > {
    static ReadRes look( BTrk const& v) {
        ReadRes r = TrkKind< BTrk, 1, 1 >::look( v);
        if ( r.st == RR_OK && ! v.intact() ) r.st = RR_BAD;
        return r;
    }
};
template<> struct KT< V_STR > {
    typedef std::string T;
    enum { copyable = 1, movable = 1, is_ref = 0 };
    static T make( uint64_t id, int) { return ! id ? std::string() : "v" + std::to_string( id) + "." + std::string( (std::size_t) ( id % 5 * 13), 'x'); }
    static ReadRes look( T const& v) {
        if ( v.empty() ) return ReadRes{ RR_MOVED, 0 };
        if ( v[0] != 'v') return ReadRes{ RR_BAD, 0 };
        uint64_t id = strtoull( v.c_str() + 1, nullptr, 10);
        return ReadRes{ v == make( id, 0) ? RR_OK : RR_BAD, id };
    }
    static bool same( T const& v, uint64_t id) { return v == make( id, 0); }
};
// ---- more value types: each differs in what the standard library's traits say about it
struct Pod { uint64_t id; uint32_t x; uint16_t y; };
template<> struct KT< V_POD > {
    typedef Pod T;
    enum { copyable = 1, movable = 1, is_ref = 0 };
    static T make( uint64_t id, int) { Pod p = { id, (uint32_t) ( id * 7), (uint16_t) ( id * 11) }; return p; }
    static bool same( T const& v, uint64_t id) { return v.id == id && v.x == (uint32_t) ( id * 7) && v.y == (uint16_t) ( id * 11); }
    static ReadRes look( T const& v) { return ReadRes{ same( v, v.id) ? RR_OK : RR_BAD, v.id }; }
};
struct BigPod { uint64_t id; unsigned char b[1503]; };
template<> struct KT< V_BPOD > {
    typedef BigPod T;
    enum { copyable = 1, movable = 1, is_ref = 0 };
    static T make( uint64_t id, int) { BigPod p; p.id = id; for ( unsigned i = 0; i < sizeof( p.b); ++i) p.b[i] = (unsigned char) ( id * 13 + i); return p; }
    static bool same( T const& v, uint64_t id) {
        if ( v.id != id) return false;
        for ( unsigned i = 0; i < sizeof( v.b); ++i) if ( v.b[i] != (unsigned char) ( id * 13 + i) ) return false;
        return true;
    }
    static ReadRes look( T const& v) { return ReadRes{ same( v, v.id) ? RR_OK : RR_BAD, v.id }; }
};
template<> struct KT< V_TDC > : TrkKind< DTrk, 1, 1 > {};
template<> struct KT< V_NTM > : TrkKind< NTrk, 1, 1 > {};
template<> struct KT< V_NAS > : TrkKind< KTrk, 1, 1 > {};
template<> struct KT< V_POLY > : TrkKind< PTrk, 1, 1 > {
    static ReadRes look( PTrk const& v) {
        ReadRes r = TrkKind< PTrk, 1, 1 >::look( v);
        PTrk const* volatile p = & v;
        if ( r.st == RR_OK && p->vid() != v.id) r.st = RR_BAD;
        return r;
    }
};
template<> struct KT< V_HOST > : TrkKind< HTrk, 1, 1 > {};
template<> struct KT< V_DBL > {
    typedef double T;
    enum { copyable = 1, movable = 1, is_ref = 0 };
    static T make( uint64_t id, int) { return ! id ? 0.0 : id % 2 ? -( (double) id + 0.25) : (double) id + 0.25; }
    static bool same( T v, uint64_t id) { return v == make( id, 0); }
    static ReadRes look( T v) { double a = v < 0 ? -v : v; uint64_t id = a < 1e15 ? (uint64_t) a : 0; return ReadRes{ same( v, id) ? RR_OK : RR_BAD, id }; }
};
template<> struct KT< V_PTR > {
    typedef char const* T;
    enum { copyable = 1, movable = 1, is_ref = 0 };
    static T make( uint64_t id, int) { return reinterpret_cast< char const* >( (uintptr_t) id << 4); }
    static bool same( T v, uint64_t id) { return v == make( id, 0); }
    static ReadRes look( T v) { return ReadRes{ RR_OK, (uint64_t) ( reinterpret_cast< uintptr_t >( v) >> 4) }; }
};
template< typename P, int C >
struct SmartKind {
    typedef P T;
    enum { copyable = C, movable = 1, is_ref = 0 };
    static T make( uint64_t id, int chan) { return id ? T( new Cell( id, chan) ) : T(); }
    static bool same( T const& v, uint64_t id) { return id ? v && v->good() && v->id == id : ! v; }
    static bool left( T const& v, uint64_t id) { return ! v || same( v, id); }
    static ReadRes look( T const& v) {
        if ( ! v) return ReadRes{ RR_MOVED, 0 };
        return ReadRes{ v->good() ? RR_OK : RR_BAD, v->id };
    }
};
template<> struct KT< V_UPTR > : SmartKind< std::unique_ptr< Cell >, 0 > {};
template<> struct KT< V_SPTR > : SmartKind< std::shared_ptr< Cell >, 1 > {};
struct FunBody {
    Trk t;
    FunBody( uint64_t id, int chan) : t( id, chan) {}
    uint64_t operator()() const { return t.good() && t.st == Tracked::LIVE ? t.id : ~0ull; }
};
template<> struct KT< V_FUN > {
    typedef std::function< uint64_t() > T;
    enum { copyable = 1, movable = 1, is_ref = 0 };
    static T make( uint64_t id, int chan) { return id ? T( FunBody( id, chan) ) : T(); }
    static bool same( T const& v, uint64_t id) { return id ? v && v() == id : ! v; }
    static ReadRes look( T const& v) {
        if ( ! v) return ReadRes{ RR_MOVED, 0 };
        uint64_t id = v();
        return ReadRes{ id != ~0ull ? RR_OK : RR_BAD, id };
    }
};
template<> struct KT< V_CONST > {
    typedef Trk const T;
    enum { copyable = 1, movable = 0, is_ref = 0 };
    static Trk make( uint64_t id, int chan) { return Trk( id, chan); }
    static ReadRes look( Trk const& v) { return TrkKind< Trk, 1, 1 >::look( v); }
    static bool same( Trk const& v, uint64_t id) { return TrkKind< Trk, 1, 1 >::same( v, id); }
};

template<> struct KT< V_BOOL > {
    typedef bool T;
    enum { copyable = 1, movable = 1, is_ref = 0 };
    static T make( uint64_t id, int) { return id & 1; }
    static bool same( T const& v, uint64_t id) { return v == ( ( id & 1) != 0); }
    static ReadRes look( T const& v) { unsigned char b; memcpy( & b, & v, 1); return ReadRes{ b < 2 ? RR_OK : RR_BAD, b }; }
};
enum class Level : uint16_t {};
template<> struct KT< V_ENUM > {
    typedef Level T;
    enum { copyable = 1, movable = 1, is_ref = 0 };
    static T make( uint64_t id, int) { return (Level) (uint16_t) id; }
    static bool same( T v, uint64_t id) { return v == make( id, 0); }
    static ReadRes look( T v) { return ReadRes{ RR_OK, (uint64_t) (uint16_t) v }; }
};
template<> struct KT< V_EMPTY > {
    typedef ETrk T;
    enum { copyable = 1, movable = 1, is_ref = 0 };
    static T make( uint64_t id, int chan) { return ETrk( id, chan); }
    static bool same( T const&, uint64_t) { return true; }
    static ReadRes look( T const&) { return ReadRes{ RR_OK, 0 }; }
};
struct Odd { unsigned char b[13]; };
template<> struct KT< V_ODD > {
    typedef Odd T;
    enum { copyable = 1, movable = 1, is_ref = 0 };
    static T make( uint64_t id, int) { Odd o; memcpy( o.b, & id, 8); for ( int i = 8; i < 13; ++i) o.b[i] = (unsigned char) ( id * 3 + (uint64_t) i); return o; }
    static bool same( T const& v, uint64_t id) { Odd o = make( id, 0); return memcmp( o.b, v.b, 13) == 0; }
    static ReadRes look( T const& v) { uint64_t id; memcpy( & id, v.b, 8); return ReadRes{ same( v, id) ? RR_OK : RR_BAD, id }; }
};
struct Huge { uint64_t id; unsigned char b[9001]; };
template<> struct KT< V_HUGE > {
    typedef Huge T;
    enum { copyable = 1, movable = 1, is_ref = 0 };
    static T make( uint64_t id, int) { Huge p; p.id = id; for ( unsigned i = 0; i < sizeof( p.b); ++i) p.b[i] = (unsigned char) ( id * 11 + i); return p; }
    static bool same( T const& v, uint64_t id) {
        if ( v.id != id) return false;
        for ( unsigned i = 0; i < sizeof( v.b); ++i) if ( v.b[i] != (unsigned char) ( id * 11 + i) ) return false;
        return true;
    }
    static ReadRes look( T const& v) { return ReadRes{ same( v, v.id) ? RR_OK : RR_BAD, v.id }; }
};
template<> struct KT< V_PAIR > {
    typedef std::pair< uint64_t, Trk > T;
    enum { copyable = 1, movable = 1, is_ref = 0 };
    static T make( uint64_t id, int chan) { return T( std::piecewise_construct, std::forward_as_tuple( ~id), std::forward_as_tuple( id, chan) ); }
    static bool same( T const& v, uint64_t id) { return v.first == ~id && TrkKind< Trk, 1, 1 >::same( v.second, id); }
    static ReadRes look( T const& v) {
        ReadRes r = TrkKind< Trk, 1, 1 >::look( v.second);
        if ( r.st == RR_OK && v.first != ~r.id) r.st = RR_BAD;
        return r;
    }
};
struct JTrk : Trk {             // as in JSON libraries: an element may be made of a whole list
    explicit JTrk( uint64_t id, int chan) : Trk( id, chan) {}
    JTrk( std::vector< JTrk > const&) : Trk( 0xbad, -1) {}
};
template<> struct KT< V_VEC > {
    typedef std::vector< JTrk > T;
    enum { copyable = 1, movable = 1, is_ref = 0 };
    static std::size_t len( uint64_t id) { return id ? 1 + (std::size_t) ( id % 4) : 0; }
    static T make( uint64_t id, int chan) {
        Quiet q;
        T v;
        v.reserve( len( id) );
        for ( std::size_t i = 0; i < len( id); ++i) v.emplace_back( id, chan);
        return v;
    }
    static bool same( T const& v, uint64_t id) {
        if ( v.size() != len( id) ) return false;
        for ( JTrk const& t : v) if ( ! TrkKind< Trk, 1, 1 >::same( t, id) ) return false;
        return true;
    }
    static ReadRes look( T const& v) {
        if ( v.empty() ) return ReadRes{ RR_MOVED, 0 };
        return ReadRes{ v[0].good() && same( v, v[0].id) ? RR_OK : RR_BAD, v[0].id };
    }
};
// a coroutine handle that travels through coroutines
struct InnerStack {
    boost::context::stack_context allocate() {
        Quiet q;
        boost::context::stack_context s;
        s.size = 16384;
        s.sp = static_cast< char * >( ::operator new( s.size) ) + s.size;
        return s;
    }
    void deallocate( boost::context::stack_context & s) { Quiet q; ::operator delete( static_cast< char * >( s.sp) - s.size); }
};
struct InnerGen {
    uint64_t id; int chan;
    void operator()( co2::coroutine< uint64_t >::push_type & out) {
        Mark m( id, chan);
        for (;;) { out( id); m.check( "local-changed"); }
    }
};
template<> struct KT< V_CORO > {
    typedef co2::coroutine< uint64_t >::pull_type T;
    enum { copyable = 0, movable = 1, is_ref = 0 };
    static T make( uint64_t id, int chan) { InnerGen g = { id, chan }; return T( InnerStack(), g); }
    static bool same( T const& v, uint64_t id) { return look( v).id == id; }
    static ReadRes look( T const& v) {
        if ( ! v) return ReadRes{ RR_MOVED, 0 };
        T & m = const_cast< T & >( v);
        uint64_t a = m.get();
        m();
        if ( ! m || m.get() != a) return ReadRes{ RR_BAD, a };
        return ReadRes{ RR_OK, a };
    }
};

// ---- references
template< int K > struct RefKind { enum { copyable = 1, movable = 0, is_ref = 1 }; };
template<> struct KT< V_REF > : RefKind< V_REF > {
    typedef RefObj & T;
    static T ref( uint64_t id) { return ref_pool( (unsigned) id); }
    static ReadRes look( T v) {
        int i = ref_index( & v);
        if ( i < 0 || & v != & ref_pool( (unsigned) i) ) return ReadRes{ RR_BAD, 0 };
        ++v.payload;
        return ReadRes{ RR_OK, (uint64_t) i };
    }
};
template<> struct KT< V_CREF > : RefKind< V_CREF > {
    typedef RefObj const& T;
    static RefObj & ref( uint64_t id) { return ref_pool( (unsigned) id); }
    static ReadRes look( T v) {
        int i = ref_index( & v);
        return ReadRes{ i < 0 || & v != & ref_pool( (unsigned) i) ? RR_BAD : RR_OK, (uint64_t) i };
    }
};
template<> struct KT< V_RINT > : RefKind< V_RINT > {
    typedef uint64_t & T;
    static T ref( uint64_t id) { return ref_pool( (unsigned) id).payload; }
    static ReadRes look( T v) {
        int i = ref_index( & v);
        if ( i < 0 || & v != & ref_pool( (unsigned) i).payload) return ReadRes{ RR_BAD, 0 };
        ++v;
        return ReadRes{ RR_OK, (uint64_t) i };
    }
};
template<> struct KT< V_RABS > : RefKind< V_RABS > {
    typedef RefAbs & T;
    static T ref( uint64_t id) { return ref_pool( (unsigned) id); }
    static ReadRes look( T v) {
        int i = ref_index( & v);
        if ( i < 0 || & v != static_cast< RefAbs * >( & ref_pool( (unsigned) i) ) ) return ReadRes{ RR_BAD, 0 };
        ++v.pay();
        return ReadRes{ RR_OK, (uint64_t) i };
    }
};
template<> struct KT< V_RARR > : RefKind< V_RARR > {
    typedef uint64_t ( & T)[3];
    static T ref( uint64_t id) { return ref_pool( (unsigned) id).arr; }
    static ReadRes look( T v) {
        int i = ref_index( v);
        return ReadRes{ i < 0 || v != ref_pool( (unsigned) i).arr || v[2] != 3 ? RR_BAD : RR_OK, (uint64_t) i };
    }
};
template<> struct KT< V_RCHAR > : RefKind< V_RCHAR > {      // at every kind of address, odd ones too
    typedef unsigned char & T;
    static unsigned char & ref( uint64_t id) { return ref_pool( (unsigned) id).bytes[id % NREFS % 8]; }
    static ReadRes look( T v) {
        int i = ref_index( & v);
        return ReadRes{ i < 0 || & v != & ref( (uint64_t) i) ? RR_BAD : RR_OK, (uint64_t) i };
    }
};
template<> struct KT< V_RPTR > : RefKind< V_RPTR > {
    typedef RefObj * & T;
    static T ref( uint64_t id) { return ref_pool( (unsigned) id).ptr; }
    static ReadRes look( T v) {
        int i = ref_index( & v);
        return ReadRes{ i < 0 || & v != & ref_pool( (unsigned) i).ptr || v != & ref_pool( (unsigned) i) ? RR_BAD : RR_OK, (uint64_t) i };
    }
};
template<> struct KT< V_RVOL > : RefKind< V_RVOL > {
    typedef uint64_t volatile & T;
    static T ref( uint64_t id) { return ref_pool( (unsigned) id).payload; }
    static ReadRes look( T v) {
        int i = ref_index( const_cast< uint64_t * >( & v) );
        if ( i < 0 || & v != & ref_pool( (unsigned) i).payload) return ReadRes{ RR_BAD, 0 };
        v = v + 1;
        return ReadRes{ RR_OK, (uint64_t) i };
    }
};
struct LocalObj {
    uint64_t id; LocalObj * self; uint64_t hits;
    explicit LocalObj( uint64_t i) : id( i), self( this), hits( 0) {}
    LocalObj( LocalObj const& o) : id( o.id), self( this), hits( 0) { if ( W.active) fail( T_REF, "referred-object-copied"); }
    ~LocalObj() { self = nullptr; id = ~0ull; }
};
template<> struct KT< V_RLOC > : RefKind< V_RLOC > {
    typedef LocalObj & T;
    static ReadRes look( T v) {
        if ( v.self != & v) return ReadRes{ RR_BAD, 0 };
        ++v.hits;
        return ReadRes{ RR_OK, v.id };
    }
};
template< int K > struct Referred {             // what is referred to while a reference is pushed
    typename KT< K >::T r;
    explicit Referred( uint64_t id) : r( KT< K >::ref( id) ) {}
};
template<> struct Referred< V_RLOC > {
    LocalObj obj; LocalObj & r;
    explicit Referred( uint64_t id) : obj( id % NREFS), r( obj) {}
};
template< int I > int numbered() { return I; }
typedef int ( & FunRef)();
template< int I > struct FunPick { static FunRef go( int i) { if ( i == I) return numbered< I >; return FunPick< I - 1 >::go( i); } };
template<> struct FunPick< 0 > { static FunRef go( int) { return numbered< 0 >; } };
template<> struct KT< V_RFUN > : RefKind< V_RFUN > {
    typedef FunRef T;
    static T ref( uint64_t id) { return FunPick< NREFS - 1 >::go( (int) ( id % NREFS) ); }
    static ReadRes look( T v) {
        for ( int i = 0; i < NREFS; ++i) if ( & v == & FunPick< NREFS - 1 >::go( i) ) return ReadRes{ v() == i ? RR_OK : RR_BAD, (uint64_t) i };
        return ReadRes{ RR_BAD, 0 };
    }
};
template<> struct KT< V_VOID > {
    typedef void T;
    enum { copyable = 0, movable = 0, is_ref = 0 };
};

// ---------------------------------------------------------------- transfers
template< int K >
struct Unchanged {              // an lvalue that was pushed is as before, however the push ended
    typename KT< K >::T const& v; uint64_t id;
    Unchanged( typename KT< K >::T const& v_, uint64_t id_) : v( v_), id( id_) {}
    ~Unchanged() { if ( W.active && ! KT< K >::same( v, id) ) fail( T_VALUE, "pushed-lvalue-changed"); }
};

// the same, while its owner may change it once it has been transferred
template< int K >
struct Changeable : Pushed {
    typename KT< K >::T & v; uint64_t id; int chan;
    Changeable( typename KT< K >::T & v_, uint64_t id_, int chan_) : v( v_), id( id_), chan( chan_) { set_pushed( chan, this); }
    ~Changeable() {
        if ( ! W.active) return;
        set_pushed( chan, nullptr);
        if ( ! KT< K >::same( v, id) ) fail( T_VALUE, "pushed-lvalue-changed");
    }
    void change() { renew( std::is_const< typename KT< K >::T >() ); }
private:
    void renew( std::true_type) {}
    void renew( std::false_type) {
        typedef typename KT< K >::T T;
        id ^= 65;
        v.~T();
        ::new ( static_cast< void * >( std::addressof( v) ) ) T( KT< K >::make( id, chan) );
    }
};

// an rvalue that was pushed is as before or moved from, and holds nothing else
template< typename X, typename T > auto left_alone( T const& v, uint64_t id, int) -> decltype( X::left( v, id) ) { return X::left( v, id); }
template< typename X, typename T > bool left_alone( T const&, uint64_t, long) { return true; }
template< int K >
struct MovedFrom : Pushed {
    typedef typename std::remove_const< typename KT< K >::T >::type T;
    T & v; uint64_t id; int chan; bool changed;
    MovedFrom( T & v_, uint64_t id_, int chan_) : v( v_), id( id_), chan( chan_), changed( false) { set_pushed( chan, this); }
    MovedFrom( T const& v_, uint64_t id_, int) : v( const_cast< T & >( v_) ), id( id_), chan( -1), changed( false) {}
    ~MovedFrom() {
        if ( ! W.active) return;
        set_pushed( chan, nullptr);
        if ( changed ? ! KT< K >::same( v, id) : ! left_alone< KT< K > >( v, id, 0) ) fail( T_VLIFE, "pushed-rvalue-holds-something-else");
    }
    void change() {
        id ^= 65;
        changed = true;
        v.~T();
        ::new ( static_cast< void * >( std::addressof( v) ) ) T( KT< K >::make( id, chan) );
    }
};

enum Shape { SH_VOID, SH_REF, SH_MOVE, SH_COPY };
template< int K > struct ShapeOf { enum { value = K == V_VOID ? SH_VOID : KT< K >::is_ref ? SH_REF : KT< K >::copyable ? SH_COPY : SH_MOVE }; };
template< int S > struct ShapeTag {};

inline void set_nocopy( int chan) { W.thr().nocopy = chan; }

template< typename A, typename B >
void yields_itself( A const& a, B const& b) { if ( (void const*) std::addressof( a) != (void const*) std::addressof( b) ) fail( T_CTRL, "operation-yields-another-object"); }

// something that becomes a value of the kind when it is passed
template< int K > struct Convertible {
    uint64_t id; int chan;
    operator typename KT< K >::T() const { return KT< K >::make( id, chan); }
};
template< int K, typename S >
void push_converted( S & s, uint64_t id, int chan, int y, std::true_type) {
    if ( KT< K >::movable) set_nocopy( chan);
    Convertible< K > v = { id, chan };
    Lib l( y);
    yields_itself( s( v), s);
}
template< int K, typename S >
void push_converted( S &, uint64_t, int, int, std::false_type) {}
// kinds whose compiling is not essential take part in it
template< int K > struct Converts : std::integral_constant< bool, K == V_PAIR || K == V_TDC || K == V_NTM || K == V_SPTR || K == V_DBL > {};

// push one value; y: the coroutine whose function is pushing, or -1
template< int K, typename S >
void push_one( S & s, uint64_t, unsigned, int, int y, ShapeTag< SH_VOID >) {
    Lib l( y);
    yields_itself( s(), s);
}
template< int K, typename S >
void push_one( S & s, uint64_t id, unsigned mode, int, int y, ShapeTag< SH_REF >) {
    Referred< K > o( id);
    if ( mode % 3 == 2) {
        Lib l( y);
        typename S::iterator it( & s);
        yields_itself( * it = o.r, it);
    } else {
        Lib l( y);
        yields_itself( s( o.r), s);
    }
}
template< int K, typename S >
void push_rvalue( S & s, uint64_t id, unsigned mode, int chan, int y) {
    typedef typename KT< K >::T T;
    if ( mode & 1) {
        T v( KT< K >::make( id, chan) );
        MovedFrom< K > m( v, id, chan);
        if ( KT< K >::movable) set_nocopy( chan);
        Lib l( y);
        yields_itself( s( std::move( v) ), s);
    } else if ( Converts< K >::value && ( mode & 8) ) {
        push_converted< K >( s, id, chan, y, Converts< K >() );
    } else {
        if ( KT< K >::movable) set_nocopy( chan);
        Lib l( y);
        yields_itself( s( KT< K >::make( id, chan) ), s);
    }
}
template< int K, typename S >
void push_one( S & s, uint64_t id, unsigned mode, int chan, int y, ShapeTag< SH_MOVE >) {
    push_rvalue< K >( s, id, mode, chan, y);
}
template< int K, typename S >
void push_iter( S & s, uint64_t id, unsigned mode, int chan, int y) {
    typedef typename KT< K >::T T;
    T v( KT< K >::make( id, chan) );
    Changeable< K > u( v, id, chan);
    Lib l( y);
    typename S::iterator it( & s);
    if ( mode & 1) { yields_itself( * it = v, it); }
    else { yields_itself( * ++it = v, it); }
}
template< int K, typename S >
void push_one( S & s, uint64_t id, unsigned mode, int chan, int y, ShapeTag< SH_COPY >) {
    typedef typename KT< K >::T T;
    switch ( mode % 5) {
        case 0: {
            T v( KT< K >::make( id, chan) );
            Changeable< K > u( v, id, chan);
            Lib l( y);
            yields_itself( s( v), s);
            return;
        }
        case 1: {
            T const v( KT< K >::make( id, chan) );
            Unchanged< K > u( v, id);
            Lib l( y);
            if ( mode / 5 & 1) yields_itself( s( v), s); else yields_itself( s( std::move( v) ), s);
            return;
        }
        case 2: case 3:
            push_rvalue< K >( s, id, mode, chan, y);
            return;
        default:
            push_iter< K >( s, id, mode / 5, chan, y);
    }
}

// ---------------------------------------------------------------- reads
template< int K, typename P, int SH >
ReadRes read_one( P & p, unsigned mode, ShapeTag< SH >) {
    switch ( mode % 4) {
        case 0: return KT< K >::look( p.get() );
        case 1: { typename P::iterator it = begin( p); return KT< K >::look( * it); }
        case 2: { typename P::iterator it = begin( p); return KT< K >::look( * it.operator->() ); }
        default: { typename P::iterator it = p.begin(); typename P::iterator it2( it); return KT< K >::look( * it2); }
    }
}
template< int K, typename P >
ReadRes read_one( P &, unsigned, ShapeTag< SH_VOID >) { return ReadRes{ RR_BAD, 0 }; }

// what is written through an iterator is what is there
template< int K > struct Writable : std::integral_constant< bool, K != V_HOST && ShapeOf< K >::value == SH_COPY && std::is_copy_assignable< typename std::conditional< K == V_VOID, int, typename KT< K >::T >::type >::value > {};
template< int K, typename P >
bool write_one( P & p, uint64_t id, unsigned mode, int chan, std::true_type) {
    typename KT< K >::T v( KT< K >::make( id, chan) );
    typename P::iterator it = begin( p);
    if ( mode & 1) * it = v; else * it.operator->() = v;
    return true;
}
template< int K, typename P >
bool write_one( P &, uint64_t, unsigned, int, std::false_type) { return false; }

// ---------------------------------------------------------------- iterators kept by a pull handle
template< int K, typename P, int SH >
struct PullIter {
    typedef typename P::iterator I;
    std::unique_ptr< I > it;
    bool has() { return true; }
    void start( P & p, unsigned mode) {
        switch ( mode % 3) {
            case 0: it.reset( new I( begin( p) ) ); break;
            case 1: it.reset( new I( p.begin() ) ); break;
            default: it.reset( new I() ); * it = begin( p);
        }
        e = I() == end( p) && I() == p.end();
    }
    bool at_end( P & p) {
        bool a = * it == end( p), b = * it != end( p), c = * it == p.end(), d = I() == * it;
        if ( a == b || a != c || a != d || ! e) fail( T_ITER, "iterator-comparison-inconsistent");
        return a;
    }
    ReadRes read( unsigned mode) {
        return mode & 1 ? KT< K >::look( ** it) : KT< K >::look( * it->operator->() );
    }
    void inc( unsigned mode) {
        Lib l;
        if ( mode & 1) { yields_itself( ++ * it, * it); } else { ( * it)++; }
    }
    int compare( P & p) {
        I a( * it), b( a);
        return ! ( a == b) + ( a != b) + ! ( a == * it) + ( ( a == end( p) ) != ( * it == end( p) ) );
    }
    void drop() { it.reset(); }
private:
    bool e = true;
};
template< int K, typename P >
struct PullIter< K, P, SH_VOID > {
    bool has() { return false; }
    void start( P &, unsigned) {}
    bool at_end( P &) { return false; }
    ReadRes read( unsigned) { return ReadRes{ RR_BAD, 0 }; }
    void inc( unsigned) {}
    int compare( P &) { return 0; }
    void drop() {}
};

// ---------------------------------------------------------------- iterators kept by a push handle
template< int K, typename S, int SH >
struct PushIter {
    typedef typename S::iterator I;
    std::unique_ptr< I > it;
    bool has() { return true; }
    void start( S & s, unsigned mode) {
        if ( mode & 1) it.reset( new I( begin( s) ) ); else it.reset( new I( & s) );
        e = I() == end( s);
    }
    bool at_end( S & s) {
        bool a = * it == end( s), b = * it != end( s), d = I() == * it;
        if ( a == b || a != d || ! e) fail( T_ITER, "iterator-comparison-inconsistent");
        return a;
    }
    void assign( uint64_t id, int chan, ShapeTag< SH_COPY >) {
        typename KT< K >::T v( KT< K >::make( id, chan) );
        Changeable< K > u( v, id, chan);
        Lib l;
        yields_itself( ** it = v, * it);
        yields_itself( ++ * it, * it);
    }
    void assign( uint64_t id, int, ShapeTag< SH_REF >) {
        Referred< K > o( id);
        Lib l;
        yields_itself( ** it = o.r, * it);
        yields_itself( ++ * it, * it);
    }
    void assign( uint64_t id, int chan) { assign( id, chan, ShapeTag< SH >() ); }
    int compare( S & s) {
        I a( * it), b( a);
        return ! ( a == b) + ( a != b) + ! ( a == * it) + ( ( a == end( s) ) != ( * it == end( s) ) );
    }
    void drop() { it.reset(); }
private:
    bool e = true;
};
struct NoIter {
    bool has() { return false; }
    template< typename S > void start( S &, unsigned) {}
    template< typename S > bool at_end( S &) { return false; }
    void assign( uint64_t, int) {}
    template< typename S > int compare( S &) { return 0; }
    void drop() {}
};
template< int K, typename S > struct PushIter< K, S, SH_VOID > : NoIter {};
template< int K, typename S > struct PushIter< K, S, SH_MOVE > : NoIter {};

// ---------------------------------------------------------------- outer handles
template< typename X > bool truth( X const& x) { return x ? true : false; }
template< typename X > bool untruth( X const& x) { return ! x; }

template< int K >
struct PullH : HandleBase {
    typedef typename co2::coroutine< typename KT< K >::T >::pull_type P;
    typedef ShapeTag< ShapeOf< K >::value > Tag_;
    P p;
    PullIter< K, P, ShapeOf< K >::value > it;
    template< typename F > explicit PullH( F && f) : HandleBase( K, true), p( std::forward< F >( f) ) {}
    template< typename A, typename F > PullH( A && a, F && f) : HandleBase( K, true), p( std::forward< A >( a), std::forward< F >( f) ) {}
    PullH( PullH & o, int) : HandleBase( K, true), p( std::move( o.p) ) {}
    bool test() { return truth( p); }
    bool nott() { return untruth( p); }
    HandleBase * move_ctor() { void * m = raw(); return new ( m) PullH( * this, 0); }
    void move_assign( HandleBase & o) { yields_itself( p = std::move( static_cast< PullH & >( o).p), p); }
    void resume() { Lib l; yields_itself( p(), p); }
    ReadRes read( unsigned mode) { return read_one< K >( p, mode, Tag_() ); }
    bool write( uint64_t id, unsigned mode, int chan) { return write_one< K >( p, id, mode, chan, std::integral_constant< bool, Writable< K >::value >() ); }
    void push( uint64_t, unsigned, int) {}
    bool has_iter() { return it.has(); }
    void iter_start( unsigned mode) { it.start( p, mode); }
    bool iter_at_end() { return it.at_end( p); }
    ReadRes iter_read( unsigned mode) { return it.read( mode); }
    void iter_inc( unsigned mode) { it.inc( mode); }
    void iter_assign( uint64_t, int) {}
    void iter_drop() { it.drop(); }
    int iter_compare() { return it.compare( p); }
    static void * raw() { Quiet q; return ::operator new( sizeof( PullH) ); }
};

template< int K >
struct PushH : HandleBase {
    typedef typename co2::coroutine< typename KT< K >::T >::push_type S;
    typedef ShapeTag< ShapeOf< K >::value > Tag_;
    S s;
    PushIter< K, S, ShapeOf< K >::value > it;
    template< typename F > explicit PushH( F && f) : HandleBase( K, false), s( std::forward< F >( f) ) {}
    template< typename A, typename F > PushH( A && a, F && f) : HandleBase( K, false), s( std::forward< A >( a), std::forward< F >( f) ) {}
    PushH( PushH & o, int) : HandleBase( K, false), s( std::move( o.s) ) {}
    bool test() { return truth( s); }
    bool nott() { return untruth( s); }
    HandleBase * move_ctor() { void * m = raw(); return new ( m) PushH( * this, 0); }
    void move_assign( HandleBase & o) { yields_itself( s = std::move( static_cast< PushH & >( o).s), s); }
    void resume() {}
    ReadRes read( unsigned) { return ReadRes{ RR_BAD, 0 }; }
    bool write( uint64_t, unsigned, int) { return false; }
    void push( uint64_t id, unsigned mode, int chan) { push_one< K >( s, id, mode, chan, -1, Tag_() ); }
    bool has_iter() { return it.has(); }
    void iter_start( unsigned mode) { it.start( s, mode); }
    bool iter_at_end() { return it.at_end( s); }
    ReadRes iter_read( unsigned) { return ReadRes{ RR_BAD, 0 }; }
    void iter_inc( unsigned) {}
    void iter_assign( uint64_t id, int chan) { it.assign( id, chan); }
    void iter_drop() { it.drop(); }
    int iter_compare() { return it.compare( s); }
    static void * raw() { Quiet q; return ::operator new( sizeof( PushH) ); }
};

// ---------------------------------------------------------------- counterparts inside the function
template< typename X >
struct Counterpart {
    X * x; X * orig; bool away;
    alignas( X) unsigned char buf[sizeof( X)];
    explicit Counterpart( X & x_) : x( & x_), orig( & x_), away( false) {}
    ~Counterpart() { if ( away) x->~X(); }
    void move() {
        if ( ! away) {
            x = new ( (void *) buf) X( std::move( * orig) );
            away = true;
            if ( truth( * orig) || ! untruth( * orig) ) fail( T_MOVE, "source-not-empty");
        } else {
            * orig = std::move( * x);
            if ( truth( * x) || ! untruth( * x) ) fail( T_MOVE, "source-not-empty");
            x->~X();
            x = orig;
            away = false;
        }
    }
};

template< int K >
struct SinkIO : BodyIO {            // inside a pull coroutine
    typedef typename co2::coroutine< typename KT< K >::T >::push_type S;
    Counterpart< S > c;
    explicit SinkIO( S & s) : c( s) {}
    bool test() { return truth( * c.x); }
    bool nott() { return untruth( * c.x); }
    void yield( uint64_t id, unsigned mode, int chan) { push_one< K >( * c.x, id, mode, chan, chan, ShapeTag< ShapeOf< K >::value >() ); }
    ReadRes read( unsigned) { return ReadRes{ RR_BAD, 0 }; }
    bool write( uint64_t, unsigned, int) { return false; }
    void syn_move() { c.move(); }
};

template< int K >
struct SourceIO : BodyIO {          // inside a push coroutine
    typedef typename co2::coroutine< typename KT< K >::T >::pull_type P;
    typedef ShapeTag< ShapeOf< K >::value > Tag_;
    Counterpart< P > c;
    PullIter< K, P, ShapeOf< K >::value > it;
    bool live;
    explicit SourceIO( P & p) : c( p), live( false) {}
    bool test() { return truth( * c.x); }
    bool nott() { return untruth( * c.x); }
    void yield( uint64_t, unsigned mode, int chan) { step( mode, chan, Tag_() ); }
    template< int SH >
    void step( unsigned mode, int chan, ShapeTag< SH >) {
        P & p = * c.x;
        switch ( mode % 4) {
            case 0: case 1: { Lib l( chan); yields_itself( p(), p); return; }
            case 2: {
                typename P::iterator i = begin( p);
                { Lib l( chan); ++i; }
                if ( i == end( p) ) fail( T_ITER, "iterator-ends-early", "inside");
                return;
            }
            default:
                if ( ! live) { it.start( p, mode / 4); live = true; }
                if ( it.at_end( p) ) fail( T_ITER, "iterator-ends-early", "inside");
                { Lib l( chan); if ( mode & 4) { ++ * it.it; } else { ( * it.it)++; } }
                if ( it.at_end( p) ) fail( T_ITER, "iterator-ends-early", "inside");
        }
    }
    void step( unsigned, int chan, ShapeTag< SH_VOID >) { Lib l( chan); yields_itself( ( * c.x)(), * c.x); }
    ReadRes read( unsigned mode) {
        if ( live && mode / 4 % 2 && mode % 4 != 0) return it.read( mode);
        return read_one< K >( * c.x, mode, Tag_() );
    }
    bool write( uint64_t id, unsigned mode, int chan) { return write_one< K >( * c.x, id, mode, chan, std::integral_constant< bool, Writable< K >::value >() ); }
    void syn_move() { it.drop(); live = false; c.move(); }
};

// ---------------------------------------------------------------- callables
template< int K, bool PULL > struct Peer;
template< int K > struct Peer< K, true > { typedef typename SinkIO< K >::S X; typedef SinkIO< K > IO; };
template< int K > struct Peer< K, false > { typedef typename SourceIO< K >::P X; typedef SourceIO< K > IO; };

template< int K, bool PULL >
struct Fn : FnCore {
    Fn( int chan_, uint64_t tag_) : FnCore( chan_, tag_) {}
    Fn( Fn const&) = default;
    Fn( Fn &&) = default;
    void operator()( typename Peer< K, PULL >::X & x) {
        typename Peer< K, PULL >::IO io( x);
        run_body( chan, io, this);
    }
};
template< int K, bool PULL >
struct MFn : Fn< K, PULL > {
    MFn( int chan_, uint64_t tag_) : Fn< K, PULL >( chan_, tag_) {}
#ifdef SIM_COPYABLE
    MFn( MFn const& o) : Fn< K, PULL >( std::move( const_cast< MFn & >( o) ) ) { fail( T_FLIFE, "move-only-callable-copied"); }
#else
    MFn( MFn const&) = delete;
#endif
    MFn( MFn &&) = default;
};
// how the library is handed the callable must make no difference; these are compiled for some kinds only
template< int K, bool PULL > struct CallFn : FnCore {           // const call operator, result to be ignored
    CallFn( int c, uint64_t t) : FnCore( c, t) {}
    int operator()( typename Peer< K, PULL >::X & x) const {
        typename Peer< K, PULL >::IO io( x);
        run_body( chan, io, this);
        return 7;
    }
};
template< int K, bool PULL > struct GenericFn : FnCore {        // call operator that takes anything
    GenericFn( int c, uint64_t t) : FnCore( c, t) {}
    template< typename X_ > void operator()( X_ && x) {
        static_assert( std::is_same< X_, typename Peer< K, PULL >::X & >::value, "called with something else");
        typename Peer< K, PULL >::IO io( x);
        run_body( chan, io, this);
    }
};
template< int K, bool PULL > struct BigFn : Fn< K, PULL > {     // large
    unsigned char pad[3000];
    BigFn( int c, uint64_t t) : Fn< K, PULL >( c, t) { for ( int i = 0; i < 3000; ++i) pad[i] = (unsigned char) ( t + (uint64_t) i); }
    void operator()( typename Peer< K, PULL >::X & x) {
        for ( int i = 0; i < 3000; ++i) if ( pad[i] != (unsigned char) ( this->tag + (uint64_t) i) ) fail( T_FLIFE, "callable-corrupt");
        Fn< K, PULL >::operator()( x);
    }
};
template< int K, bool PULL > struct alignas( 128) AlignedFn : Fn< K, PULL > {
    AlignedFn( int c, uint64_t t) : Fn< K, PULL >( c, t) { check_aligned( this, 128); }
    AlignedFn( AlignedFn const& o) : Fn< K, PULL >( o) { check_aligned( this, 128); }
    AlignedFn( AlignedFn && o) : Fn< K, PULL >( std::move( o) ) { check_aligned( this, 128); }
};
template< int K, bool PULL > struct CopyFn : FnCore {           // copies when moved; a copy that stands in for a move does not fail
    CopyFn( int c, uint64_t t) : FnCore( c, t) {}
    CopyFn( CopyFn const& o) : FnCore( o, true) {}
    void operator()( typename Peer< K, PULL >::X & x) {
        typename Peer< K, PULL >::IO io( x);
        run_body( chan, io, this);
    }
};
template< int K, bool PULL > struct NothrowFn : Fn< K, PULL > {
    NothrowFn( int c, uint64_t t) : Fn< K, PULL >( c, t) {}
    NothrowFn( NothrowFn const&) = default;
    NothrowFn( NothrowFn && o) noexcept : Fn< K, PULL >( std::move( o) ) {}
};
template< int K, bool PULL > struct FinalFn final : FnCore {
    FinalFn( int c, uint64_t t) : FnCore( c, t) {}
    void operator()( typename Peer< K, PULL >::X & x) {
        typename Peer< K, PULL >::IO io( x);
        run_body( chan, io, this);
    }
};
template< int K, bool PULL > struct HostileFn : Fn< K, PULL > {
    HostileFn( int c, uint64_t t) : Fn< K, PULL >( c, t) {}
    HostileFn( HostileFn const&) = default;
    HostileFn( HostileFn &&) = default;
    void operator()( typename Peer< K, PULL >::X & x) & { Fn< K, PULL >::operator()( x); }
    void operator()( typename Peer< K, PULL >::X &) && { fail( T_FLIFE, "called-as-an-rvalue"); }
    HostileFn * operator&() const { fail( T_FLIFE, "overloaded-address-operator-used"); }
    template< typename U > int operator,( U &&) const { fail( T_FLIFE, "overloaded-comma-used"); }
};
template< int K > struct AllCalls { enum { value = SIM_ALLCALLS && ( K == V_VOID || K == V_TRK || K == V_MOV || K == V_INT || K == V_RINT) }; };

template< int K, bool PULL >
void plain_fn( typename Peer< K, PULL >::X & x) {
    typename Peer< K, PULL >::IO io( x);
    run_body( token_co(), io, nullptr);
}

// ---------------------------------------------------------------- stack allocators
struct SimAlloc {
    uint64_t key; int co; std::size_t size; unsigned mis;
    enum : uint64_t { GONE_KEY = 0xdead00000001ull, MOVED_KEY = 0xdead00000002ull };
    SimAlloc( Co * c, uint64_t k) : key( k), co( c->id), size( sim_stack_size( c) ), mis( W.prog.cfg.misalign ? ( W.prog.cfg.misalign * 7 + (unsigned) c->id * 13) % 64 : 0) {}
    SimAlloc( SimAlloc const& o) : key( o.key), co( o.co), size( o.size), mis( o.mis) {}
    SimAlloc( SimAlloc && o) : key( o.key), co( o.co), size( o.size), mis( o.mis) { o.key = MOVED_KEY; }
    ~SimAlloc() { key = GONE_KEY; }
    boost::context::stack_context allocate() {
        if ( key >> 32) fail( T_STACK, "dead-allocator-used");
        seam( S_ALLOC, co);
        StackRegion r = stack_alloc( size, mis, key);
        boost::context::stack_context s;
        s.sp = r.top;
        s.size = (std::size_t) ( r.top - r.bot);
        return s;
    }
    void deallocate( boost::context::stack_context & s) noexcept {
        if ( key >> 32) fail( T_STACK, "dead-allocator-used");
        seam( S_FREE, co);
        stack_free( static_cast< char * >( s.sp), s.size, key, true);
    }
};

// carries state and can be default-constructed: such an object is not a copy of the one that was given
struct DefAlloc final {
    uint64_t key = 99; std::shared_ptr< SimAlloc > a;
    DefAlloc() {}
    DefAlloc( Co * c, uint64_t k) : key( k) { Quiet q; a = std::make_shared< SimAlloc >( c, k); }
    boost::context::stack_context allocate() {
        if ( ! a) fail( T_STACK, "other-allocator-used");
        return a->allocate();
    }
    void deallocate( boost::context::stack_context & s) noexcept {
        if ( ! a) fail( T_STACK, "stack-released-to-wrong-allocator");
        a->deallocate( s);
    }
};
// can only be moved, and has virtual functions
struct MoveAllocBase {
    virtual ~MoveAllocBase() {}
    virtual boost::context::stack_context allocate() = 0;
    virtual void deallocate( boost::context::stack_context &) noexcept = 0;
};
struct MoveAlloc : MoveAllocBase {
    std::unique_ptr< SimAlloc > a;
    MoveAlloc( Co * c, uint64_t k) { Quiet q; a.reset( new SimAlloc( c, k) ); }
    MoveAlloc( MoveAlloc && o) noexcept : a( std::move( o.a) ) {}
#ifdef SIM_COPYABLE     // nobody promised that it need not be copied
    MoveAlloc( MoveAlloc const& o) : a( std::move( const_cast< MoveAlloc & >( o).a) ) {}
#endif
    boost::context::stack_context allocate() override {
        if ( ! a) fail( T_STACK, "dead-allocator-used");
        return a->allocate();
    }
    void deallocate( boost::context::stack_context & s) noexcept override {
        if ( ! a) fail( T_STACK, "dead-allocator-used");
        a->deallocate( s);
    }
};
// const is enough to use it
struct ConstAlloc {
    SimAlloc a;
    ConstAlloc( Co * c, uint64_t k) : a( c, k) {}
    boost::context::stack_context allocate() const { return SimAlloc( a).allocate(); }
    void deallocate( boost::context::stack_context & s) const noexcept { SimAlloc( a).deallocate( s); }
};
// large and aligned, on the stack it manages
struct alignas( 64) BigAlloc : SimAlloc {
    unsigned char pad[500];
    BigAlloc( Co * c, uint64_t k) : SimAlloc( c, k) { fill(); }
    BigAlloc( BigAlloc const& o) : SimAlloc( o) { fill(); o.look(); }
    BigAlloc( BigAlloc && o) : SimAlloc( std::move( o) ) { fill(); o.look(); }
    void fill() { for ( int i = 0; i < 500; ++i) pad[i] = (unsigned char) ( co + i); look(); }
    void look() const {
        if ( (uintptr_t) this % 64) fail( T_ALIGN, "allocator-misaligned");
        for ( int i = 0; i < 500; ++i) if ( pad[i] != (unsigned char) ( co + i) ) fail( T_STACK, "allocator-corrupt");
    }
    void deallocate( boost::context::stack_context & s) noexcept { look(); SimAlloc::deallocate( s); }
};
struct EmptyAlloc {
    boost::context::stack_context allocate() {
        Co * c = W.thr().creating;
        if ( ! c) fail( T_STACK, "stack-allocated-outside-construction");
        return SimAlloc( c, 4242).allocate();
    }
    void deallocate( boost::context::stack_context & s) noexcept {
        seam( S_FREE, -1);
        stack_free( static_cast< char * >( s.sp), s.size, 4242, true);
    }
};

template< typename B > struct GuardOf { enum { value = 0 }; };
template<> struct GuardOf< co2::protected_fixedsize_stack > { enum { value = 4096 }; };    // counted in the size it reports

template< typename B >
struct CountingAlloc {
    uint64_t key; B base;
    CountingAlloc( uint64_t k, B b) : key( k), base( b) {}
    boost::context::stack_context allocate() {
        struct InBase { Thr & t; InBase() : t( W.thr() ) { t.in_base = true; } ~InBase() { t.in_base = false; } } g;
        boost::context::stack_context s = base.allocate();
        stack_adopt( static_cast< char * >( s.sp), s.size, key, GuardOf< B >::value);
        return s;
    }
    void deallocate( boost::context::stack_context & s) noexcept {
        seam( S_FREE, -1);
        stack_free( static_cast< char * >( s.sp), s.size, key, true);
        base.deallocate( s);
    }
};

inline void note_form( bool moved) { if ( Co * co = W.thr().creating) co->fn_moved = moved; }

template< typename H, typename F >
HandleBase * build( F && f) {
    void * m = H::raw();
    note_form( std::is_rvalue_reference< F && >::value);
    try { Lib l; return new ( m) H( std::forward< F >( f) ); }
    catch ( ...) { ::operator delete( m); throw; }
}
template< typename H, typename A, typename F >
HandleBase * build( A && a, F && f) {
    void * m = H::raw();
    note_form( std::is_rvalue_reference< F && >::value);
    try { Lib l; return new ( m) H( std::forward< A >( a), std::forward< F >( f) ); }
    catch ( ...) { ::operator delete( m); throw; }
}

template< int K, bool PULL > struct HandleOf;
template< int K > struct HandleOf< K, true > { typedef PullH< K > H; };
template< int K > struct HandleOf< K, false > { typedef PushH< K > H; };

co2::pooled_fixedsize_stack & shared_pool();

// an lvalue allocator is left as it was
struct AllocKept {
    SimAlloc const& a; uint64_t key;
    ~AllocKept() { if ( W.active && a.key != key) fail( T_STACK, "original-allocator-changed"); }
};
struct DefAllocKept {
    DefAlloc const& a;
    ~DefAllocKept() { if ( W.active && ! a.a) fail( T_STACK, "original-allocator-changed"); }
};
// an lvalue callable is left as it was
inline void check_original( FnCore const& f, uint64_t tag) {
    f.check( "original-callable-dead");
    if ( f.st != Tracked::LIVE || f.tag != tag) fail( T_FLIFE, "original-callable-changed");
}
struct OriginalKept {
    FnCore const& f; uint64_t tag;
    ~OriginalKept() { if ( W.active) check_original( f, tag); }
};

template< int K, bool PULL >
HandleBase * make_more( Co *, unsigned, std::false_type) { return nullptr; }

template< int K, bool PULL >
HandleBase * make_more( Co * co, unsigned cv, std::true_type) {
    typedef typename HandleOf< K, PULL >::H H;
    typedef typename Peer< K, PULL >::X X;
    int id = co->id;
    uint64_t tag = co->fn_tag;
    SimAlloc a( co, 1000 + (uint64_t) id);
    AllocKept ak = { a, a.key };
    switch ( cv) {
        case F_CALLCONST: { CallFn< K, PULL > const f( id, tag); OriginalKept o = { f, tag }; return build< H >( a, f); }
        case F_GENERIC: { GenericFn< K, PULL > f( id, tag); return build< H >( a, std::move( f) ); }
        case F_BIG: { co->fn_size = sizeof( BigFn< K, PULL >); BigFn< K, PULL > f( id, tag); OriginalKept o = { f, tag }; return build< H >( a, f); }
        case F_ALIGNED: { AlignedFn< K, PULL > f( id, tag); return build< H >( a, std::move( f) ); }
        case F_COPYONLY: { CopyFn< K, PULL > f( id, tag); OriginalKept o = { f, tag }; return build< H >( a, std::move( f) ); }
        case F_LAMBDA: {
            Fn< K, PULL > f( id, tag);
            auto l = [f]( X & x) mutable { f( x); };
            return build< H >( a, std::move( l) );
        }
        case F_BIND: {
            Fn< K, PULL > f( id, tag);
            auto b = std::bind( f, std::placeholders::_1);
            return build< H >( a, b);
        }
        case F_POINTER: { void ( * p)( X &) = & plain_fn< K, PULL >; return build< H >( a, p); }
        case F_NOTHROW: { NothrowFn< K, PULL > f( id, tag); OriginalKept o = { f, tag }; return build< H >( a, f); }
        case F_FINAL: { FinalFn< K, PULL > f( id, tag); return build< H >( a, std::move( f) ); }
        case F_HOSTILE: { HostileFn< K, PULL > f( id, tag); OriginalKept o = { f, tag }; return build< H >( a, f); }
    }
    return nullptr;
}

template< int K, bool PULL >
HandleBase * make_alloc( Co *, unsigned, std::false_type) { return nullptr; }

template< int K, bool PULL >
HandleBase * make_alloc( Co * co, unsigned av, std::true_type) {
    typedef typename HandleOf< K, PULL >::H H;
    uint64_t key = 1000 + (uint64_t) co->id;
    Fn< K, PULL > f( co->id, co->fn_tag);
    switch ( av) {
        case A_SIM_MOVE: { MoveAlloc a( co, key); return build< H >( std::move( a), std::move( f) ); }
        case A_SIM_CONST: { ConstAlloc const a( co, key); AllocKept ak = { a.a, key }; return build< H >( a, std::move( f) ); }
        case A_SIM_BIG: { BigAlloc a( co, key); AllocKept ak = { a, key }; return build< H >( a, std::move( f) ); }
    }
    return nullptr;
}

template< int K, bool PULL >
HandleBase * maker( Co * co, unsigned av, unsigned cv) {
    typedef typename HandleOf< K, PULL >::H H;
    typedef Fn< K, PULL > F;
    typedef typename Peer< K, PULL >::X X;
    int id = co->id;
    uint64_t tag = co->fn_tag, key = 1000 + (uint64_t) id;
    co->value_size = sizeof( typename std::conditional< K == V_VOID || KT< K >::is_ref, int, typename std::remove_reference< typename std::conditional< K == V_VOID, int, typename KT< K >::T >::type >::type >::type);
    if ( av == A_DEFAULT) co->want = boost::context::stack_traits::default_size();
    else if ( av == A_FIXED || av == A_FIXED_L || av == A_PROT) co->want = sim_stack_size( co);
    else if ( av == A_POOL_R) co->want = 98304;
    switch ( av) {
        case A_SIM_L: { SimAlloc a( co, key); AllocKept ak = { a, key }; F f( id, tag); return build< H >( a, std::move( f) ); }
        case A_DEFAULT: switch ( cv) {
            case F_LVALUE: case F_STDFUN: case F_BIND: case F_BIG: { F f( id, tag); OriginalKept o = { f, tag }; return build< H >( f); }
            case F_CONST: case F_CALLCONST: case F_LAMBDA: { F const f( id, tag); OriginalKept o = { f, tag }; return build< H >( f); }
            case F_FUNCTION: case F_POINTER: return build< H >( plain_fn< K, PULL >);
            case F_MOVEONLY: { MFn< K, PULL > f( id, tag); return build< H >( std::move( f) ); }
            default: { F f( id, tag); return build< H >( std::move( f) ); }
        }
        case A_FIXED: { F f( id, tag); return build< H >( co2::fixedsize_stack( sim_stack_size( co) ), std::move( f) ); }
        case A_FIXED_L: { co2::fixedsize_stack a( sim_stack_size( co) ); F f( id, tag); OriginalKept o = { f, tag }; return build< H >( a, f); }
        case A_SIM_DEF: { DefAlloc a( co, key); DefAllocKept ak = { a }; F f( id, tag); return build< H >( a, std::move( f) ); }
        case A_SIM_EMPTY: { F const f( id, tag); OriginalKept o = { f, tag }; return build< H >( EmptyAlloc(), f); }
        case A_PROT: { F f( id, tag); return build< H >( CountingAlloc< co2::protected_fixedsize_stack >( key, co2::protected_fixedsize_stack( sim_stack_size( co) ) ), std::move( f) ); }
        case A_POOL_L: { CountingAlloc< co2::pooled_fixedsize_stack > a( 7, shared_pool() ); F f( id, tag); return build< H >( a, std::move( f) ); }
        case A_POOL_R: { CountingAlloc< co2::pooled_fixedsize_stack > a( key, co2::pooled_fixedsize_stack( 98304, 2) ); F f( id, tag); return build< H >( std::move( a), std::move( f) ); }
    }
    if ( av >= A_SIM_MOVE) {
        if ( HandleBase * h = make_alloc< K, PULL >( co, av, std::integral_constant< bool, AllCalls< K >::value >() ) ) return h;
    }
    if ( HandleBase * h = make_more< K, PULL >( co, cv, std::integral_constant< bool, AllCalls< K >::value >() ) ) return h;
    switch ( cv) {
        case F_LVALUE: { F f( id, tag); OriginalKept o = { f, tag }; return build< H >( SimAlloc( co, key), f); }
        case F_CONST: { F const f( id, tag); OriginalKept o = { f, tag }; return build< H >( SimAlloc( co, key), f); }
        case F_MOVEONLY: { MFn< K, PULL > f( id, tag); return build< H >( SimAlloc( co, key), std::move( f) ); }
        case F_STDFUN: { std::function< void( X &) > f{ F( id, tag) }; return build< H >( SimAlloc( co, key), f); }
        case F_STDFUN_R: { std::function< void( X &) > f{ F( id, tag) }; return build< H >( SimAlloc( co, key), std::move( f) ); }
        case F_FUNCTION: return build< H >( SimAlloc( co, key), plain_fn< K, PULL >);
        default: { F f( id, tag); return build< H >( SimAlloc( co, key), std::move( f) ); }
    }
}

}

#endif
