// Generation of programs from seeds; replay files.
#include "sim.hpp"
#include "props.hpp"

#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <algorithm>

namespace sim {

#define B( x) ( 1ull << ( x))
static const uint64_t ALLK = ( 1ull << NKINDS) - 1;
static const uint64_t TRACKED_K = B( V_TRK) | B( V_MOV) | B( V_CPY) | B( V_BIG) | B( V_AL64) | B( V_AL256)
    | B( V_NTM) | B( V_NAS) | B( V_POLY) | B( V_HOST) | B( V_UPTR) | B( V_SPTR) | B( V_FUN) | B( V_CONST)
    | B( V_EMPTY) | B( V_PAIR) | B( V_VEC) | B( V_CORO);
static const uint64_t VALUE_K = TRACKED_K | B( V_INT) | B( V_U8) | B( V_STR) | B( V_POD) | B( V_BPOD) | B( V_TDC) | B( V_DBL) | B( V_PTR) | B( V_BOOL) | B( V_ENUM) | B( V_HUGE) | B( V_ODD);
static const uint64_t REF_K = B( V_REF) | B( V_CREF) | B( V_RINT) | B( V_RABS) | B( V_RARR) | B( V_RFUN) | B( V_RCHAR) | B( V_RPTR) | B( V_RVOL) | B( V_RLOC);

static uint32_t tags( std::initializer_list< int > l) {
    uint64_t m = B( T_CRASH) | B( T_HANG);
    for ( int t : l) m |= B( t);
    return (uint32_t) m;
}

struct Profile {
    const char *    id;
    uint64_t        kinds;
    uint32_t        tags;
    uint8_t         w[NOPS];        // weights
    int             fault_pct;      // runs with faults
    int             thread_pct;     // runs with several threads
    int             preempt_pct;    // runs with pre-emption inside operations
    int             alloc_pct;      // runs with stack allocators other than the simulated one
    int             call_pct;       // runs with callables other than the plain one
    int             mis_pct;        // runs with misaligned stacks
};

//                    npull npush res read yld frm pop ret thr dst mvc mva slf adp rel itr syn flt swi pre deep obs bur nst mas
static const Profile profiles[] = {
    { "C01", VALUE_K | REF_K,
      tags( { T_VALUE, T_REF, T_CTRL, T_BOOL, T_VLIFE, T_ALIGN, T_MEM, T_LOCAL, T_ITER } ),
                    { 5,   5,   24, 16, 20,  3,  3,  1,  1,  2,  1,  1,  0,  1,  1,  6,  1,  1,  3,  1,  1,   2, 1, 1, 1 }, 15, 25, 25, 30, 30, 30 },
    { "C02", REF_K,
      tags( { T_REF, T_VALUE, T_CTRL, T_BOOL, T_MEM, T_LOCAL, T_ITER } ),
                    { 5,   5,   24, 16, 20,  3,  3,  1,  1,  2,  2,  2,  0,  1,  1,  8,  2,  1,  3,  1,  1,   2, 1, 1, 1 }, 10, 25, 25, 30, 30, 30 },
    { "C03", ALLK,
      tags( { T_CTRL, T_LOCAL, T_BOOL, T_STACK, T_MEM, T_UNWIND, T_FLIFE, T_VALUE, T_EXC } ),
                    { 7,   7,   26,  3, 20, 10,  8,  2,  2,  3,  1,  1,  0,  3,  1,  3,  1,  1,  4,  2,  2,   1, 1, 1, 1 }, 15, 30, 30, 30, 30, 30 },
    { "C04", ALLK,
      tags( { T_BOOL, T_OBS, T_CTRL, T_ITER, T_MOVE, T_EXC, T_VALUE } ),
                    { 8,   7,   22,  4, 14,  4,  3,  5,  4,  3,  3,  3,  1,  2,  1,  4,  3,  1,  3,  1,  0,   5, 1, 1, 1 }, 20, 20, 20, 20, 20, 20 },
    { "C05", ALLK,
      tags( { T_EXC, T_EH, T_FAULT, T_UNWIND, T_CTRL, T_BOOL, T_STACK, T_VLIFE, T_FLIFE } ),
                    { 8,   7,   24,  2, 14,  9,  4,  1, 12,  3,  1,  1,  0,  4,  1,  5,  1,  1,  3,  2,  0,   1, 1, 1, 1 }, 30, 25, 30, 20, 20, 20 },
    { "C06", ALLK,
      tags( { T_UNWIND, T_EH, T_CTRL, T_FLIFE, T_VLIFE, T_STACK, T_LOCAL, T_MEM, T_EXC } ),
                    { 9,   7,   22,  2, 16, 10,  4,  1,  3, 12,  1,  6,  0,  8,  1,  2,  1,  1,  4,  3,  1,   1, 1, 1, 1 }, 15, 30, 35, 30, 30, 30 },
    { "C07", ALLK,
      tags( { T_STACK, T_MEM, T_UNWIND, T_FAULT, T_FLIFE } ),
                    { 14, 12,   18,  1, 12,  5,  3,  4,  5, 10,  2,  5,  1,  5,  1,  1,  1,  6,  3,  2,  2,   1, 1, 1, 1 }, 50, 30, 30, 70, 40, 50 },
    { "C08", ALLK,
      tags( { T_MEM, T_STACK, T_ALIGN, T_LOCAL, T_VALUE, T_VLIFE, T_FLIFE } ),
                    { 10,  9,   22,  6, 18,  8,  4,  2,  2,  6,  2,  3,  0,  4,  1,  2,  2,  2,  3,  2, 12,   1, 1, 1, 1 }, 20, 25, 20, 45, 40, 80 },
    { "C09", TRACKED_K | B( V_STR) | B( V_TDC) | B( V_REF),
      tags( { T_VLIFE, T_VALUE, T_ALIGN, T_REF, T_STACK, T_FAULT, T_MEM } ),
                    { 7,   7,   24,  8, 20,  4,  3,  2,  3,  7,  1,  4,  0,  3,  1,  5,  2,  5,  3,  2,  0,   1, 1, 1, 1 }, 50, 25, 30, 20, 20, 30 },
    { "C10", ALLK,
      tags( { T_FLIFE, T_CTRL, T_LOCAL, T_FAULT, T_MEM, T_STACK, T_UNWIND } ),
                    { 14, 12,   20,  1, 14,  4,  3,  4,  5,  8,  3,  4,  1,  3,  1,  2,  1,  4,  3,  2,  0,   1, 1, 1, 1 }, 40, 25, 30, 40, 95, 30 },
    { "C11", ALLK,
      tags( { T_MOVE, T_BOOL, T_UNWIND, T_STACK, T_FLIFE, T_VLIFE, T_VALUE, T_REF, T_CTRL, T_ITER, T_EXC } ),
                    { 8,   8,   20,  8, 14,  4,  3,  2,  2,  2, 14, 18,  5,  4,  1,  4,  7,  1,  3,  1,  0,   2, 1, 1, 1 }, 15, 25, 25, 20, 20, 20 },
    { "C12", ALLK & ~B( V_VOID),
      tags( { T_ITER, T_VALUE, T_REF, T_EXC, T_CTRL, T_BOOL, T_VLIFE, T_OBS } ),
                    { 7,   7,   10,  5, 20,  4,  3,  3,  3,  2,  2,  2,  0,  1,  1, 34,  2,  1,  3,  1,  0,   3, 1, 1, 1 }, 20, 20, 20, 20, 20, 20 },
    { "C13", ALLK,
      tags( { T_FAULT, T_EXC, T_EH, T_VLIFE, T_FLIFE, T_STACK, T_VALUE, T_REF, T_BOOL, T_CTRL, T_UNWIND, T_MEM } ),
                    { 9,   8,   24,  5, 18,  5,  3,  1,  2,  3,  1,  2,  0,  3,  1,  4,  1, 22,  3,  2,  0,   1, 1, 1, 1 }, 100, 25, 30, 40, 50, 30 },
    { "C14", ALLK,
      tags( { T_VALUE, T_REF, T_CTRL, T_BOOL, T_EXC, T_EH, T_UNWIND, T_STACK, T_MEM, T_VLIFE, T_FLIFE, T_MOVE, T_ITER, T_FAULT, T_LOCAL, T_OBS, T_ALIGN } ),
                    { 8,   8,   24,  6, 18,  5,  3,  2,  3,  5,  3,  3,  0,  4,  2,  4,  1,  2, 12, 10,  1,   1, 1, 1, 1 }, 30, 85, 80, 30, 30, 30 },
    { "C15", ALLK,
      tags( { T_OBS, T_VALUE, T_REF, T_BOOL, T_ITER, T_VLIFE, T_CTRL, T_MEM } ),
                    { 6,   6,   16, 16, 14,  3,  3,  2,  2,  2,  3,  2,  1,  1,  1, 10,  2,  1,  2,  1,  0,  26, 1, 1, 1 }, 15, 20, 20, 20, 20, 20 },
    { "C16", ALLK,
      tags( { T_VALUE, T_REF, T_CTRL, T_BOOL, T_EXC, T_EH, T_UNWIND, T_STACK, T_MEM, T_VLIFE, T_FLIFE, T_MOVE, T_ITER, T_FAULT, T_LOCAL, T_OBS, T_ALIGN, T_PIPE } ),
                    { 6,   6,   20,  8, 20,  5,  3,  2,  2,  3,  2,  2,  0,  3,  1,  4,  1,  1,  3,  1,  1,   1, 1, 1, 1 }, 20, 0, 0, 20, 20, 20 },
    { "C18", 0,
      tags( { T_VALUE, T_REF, T_CTRL, T_BOOL, T_EXC, T_UNWIND, T_STACK, T_MEM, T_VLIFE, T_FLIFE, T_MOVE, T_LOCAL, T_FAULT } ),
                    { 6,   6,   20,  8, 20,  5,  3,  2,  2,  3,  2,  2,  0,  3,  1,  4,  1,  1,  3,  1,  1,   1, 1, 1, 1 }, 0, 0, 0, 0, 0, 0 },
};

int prop_count() { return (int) ( sizeof( profiles) / sizeof( profiles[0]) ); }
const char * prop_name( int p) { return profiles[p].id; }
uint32_t prop_tags( int p) { return profiles[p].tags; }
int prop_find( const char * id) {
    for ( int i = 0; i < prop_count(); ++i) if ( ! strcmp( profiles[i].id, id) ) return i;
    return -1;
}

static uint64_t subset( Rng & r, uint64_t mask, int n) {
    uint64_t out = 0;
    std::vector< int > bits;
    for ( int i = 0; i < 64; ++i) if ( mask >> i & 1) bits.push_back( i);
    for ( int i = 0; i < n && ! bits.empty(); ++i) {
        std::size_t k = r.below( (uint32_t) bits.size() );
        out |= B( bits[k]);
        bits.erase( bits.begin() + (long) k);
    }
    return out;
}

Program generate( int prop, uint64_t seed) {
    Profile const& pf = profiles[prop];
    Rng r( seed);
    Program p;
    Config & c = p.cfg;
    c.scenario = strcmp( pf.id, "C16") == 0 ? 1 : strcmp( pf.id, "C18") == 0 ? 2 : 0;
    c.threads = r.chance( (uint32_t) pf.thread_pct) ? 2 + r.below( 2) : 1;
    c.fill = r.chance( 30) ? 0 : r.chance( 40) ? 0xff : r.below( 256);
    c.policy = r.below( 3);
    c.ssize = r.below( 256);
    c.misalign = r.chance( (uint32_t) pf.mis_pct) ? 1 + r.below( 63) : 0;
#ifdef BOOST_NO_CXX11_STD_ALIGN     // as on compilers without std::align: nothing over-aligned, stacks as the bundled allocators give them
    c.misalign = 0;
#endif
    // a type the library's own text no longer compiles for is left out (reported by check.py)
    uint64_t kinds = pf.kinds;
    for ( int i = 0; i < NKINDS; ++i) if ( ! have_kind( i) ) kinds &= ~B( i);
#ifdef BOOST_NO_CXX11_STD_ALIGN
    kinds &= ~( B( V_AL64) | B( V_AL256) );
#endif
    // operators nobody should need to call: only where iterators, value lifetimes and callables are the subject
    uint32_t calls = ( 1u << NCALL) - 1;
    if ( strcmp( pf.id, "C09") && strcmp( pf.id, "C12") ) kinds &= ~B( V_HOST);
    if ( strcmp( pf.id, "C10") ) calls &= ~( 1u << F_HOSTILE);
    c.kinds = subset( r, kinds, 1 + (int) r.below( r.chance( 60) ? 3 : 12) );
    c.allocs = r.chance( (uint32_t) pf.alloc_pct) ? (uint32_t) subset( r, ( 1u << NALLOC) - 1, 1 + (int) r.below( 4) ) : 1u << A_SIM_R;
    c.calls = r.chance( (uint32_t) pf.call_pct) ? (uint32_t) subset( r, calls, 1 + (int) r.below( 5) ) : 1u << F_RVALUE;
    c.drain = r.below( 2);
    c.order = r.below( 1000);
    c.maxh = r.chance( 50) ? 2 + r.below( 4) : 5 + r.below( 9);

    uint32_t n = r.below( 100);
    n = n < 60 ? 8 + r.below( 33) : n < 90 ? 40 + r.below( 161) : 200 + r.below( 601);
    if ( c.scenario) n = 30 + n * 2;
    bool faults = r.chance( (uint32_t) pf.fault_pct);
    bool preempt = r.chance( (uint32_t) pf.preempt_pct);
    uint32_t w[NOPS], total = 0;
    for ( int i = 0; i < NOPS; ++i) {
        w[i] = pf.w[i] * 4u;
        if ( i == O_MASS) w[i] = pf.w[i];       // costly
        if ( i == O_FAULT && ! faults) w[i] = 0;
        if ( i == O_PREEMPT && ! preempt) w[i] = 0;
        if ( i == O_SWITCH && c.threads == 1) w[i] = 0;
        bool essential = i == O_RESUME || i == O_YIELD;
        if ( ! essential && r.chance( 15) ) w[i] = 0;
        else if ( r.chance( 15) ) w[i] *= 3;
        if ( i == O_NEWPULL || i == O_NEWPUSH) w[i] = std::max( w[i], 1u);
        total += w[i];
    }
    for ( uint32_t i = 0; i < n; ++i) {
        uint32_t x = r.below( total);
        int k = 0;
        while ( x >= w[k]) { x -= w[k]; ++k; }
        Op op = { (uint32_t) k, (uint32_t) ( r.next() >> 40), (uint32_t) ( r.next() >> 40), (uint32_t) ( r.next() >> 40) };
        // handles of running coroutines are moved for the property about moving only
        if ( k == O_MOVEC && op.c % 3 == 0 && strcmp( pf.id, "C11") ) ++op.c;
        if ( i < 3 && k != O_NEWPULL && k != O_NEWPUSH && r.chance( 60) ) op.k = r.chance( 55) ? O_NEWPULL : O_NEWPUSH;
        // faults and pre-emptions go in front of operations they can strike
        bool lib = k == O_NEWPULL || k == O_NEWPUSH || k == O_RESUME || k == O_YIELD || k == O_ITER;
        bool dst = k == O_DESTROY || k == O_MOVEA || k == O_RETURN;
        if ( faults && lib && r.chance( pf.w[O_FAULT] >= 5 ? 25 : 8) ) {
            Op f = { O_FAULT, 0, (uint32_t) r.below( 8), 0 };
            if ( k == O_NEWPULL || k == O_NEWPUSH) f.a = r.chance( 50) ? 0 : ( r.chance( 60) ? 3 : 4);
            else f.a = r.chance( 50) ? 1 : r.chance( 70) ? 2 : 4;
            p.ops.push_back( f);
        }
#ifdef SIM_ACCESS
        if ( preempt && ( lib || dst) && r.chance( 50) ) {
#else
        if ( preempt && ( lib || dst) && r.chance( 20) ) {
#endif
            Op f = { O_PREEMPT, (uint32_t) ( r.next() >> 40), (uint32_t) ( r.next() >> 40), (uint32_t) ( r.next() >> 40) };
            p.ops.push_back( f);
        }
        p.ops.push_back( op);
    }
    return p;
}

// ---------------------------------------------------------------- files

void save( Program const& p, const char * path, const char * header) {
    FILE * f = fopen( path, "w");
    if ( ! f) { perror( path); exit( 2); }
    Config const& c = p.cfg;
    fprintf( f, "%s", header);
    fprintf( f, "config scenario=%u threads=%u fill=%u policy=%u ssize=%u misalign=%u kinds=%llu allocs=%u calls=%u drain=%u order=%u maxh=%u\n",
        c.scenario, c.threads, c.fill, c.policy, c.ssize, c.misalign, (unsigned long long) c.kinds, c.allocs, c.calls, c.drain, c.order, c.maxh);
    for ( Op const& o : p.ops) fprintf( f, "op %s %u %u %u\n", op_names[o.k], o.a, o.b, o.c);
    fclose( f);
}

bool load( Program & p, const char * path, std::string & header) {
    FILE * f = fopen( path, "r");
    if ( ! f) return false;
    char line[512];
    bool ok = false;
    while ( fgets( line, sizeof( line), f) ) {
        Config & c = p.cfg;
        unsigned long long kinds;
        if ( ! strncmp( line, "config ", 7) ) {
            ok = sscanf( line, "config scenario=%u threads=%u fill=%u policy=%u ssize=%u misalign=%u kinds=%llu allocs=%u calls=%u drain=%u order=%u maxh=%u",
                & c.scenario, & c.threads, & c.fill, & c.policy, & c.ssize, & c.misalign, & kinds, & c.allocs, & c.calls, & c.drain, & c.order, & c.maxh) == 12;
            if ( ok) c.kinds = kinds;
        } else if ( ! strncmp( line, "op ", 3) ) {
            char name[32];
            Op o;
            if ( sscanf( line, "op %31s %u %u %u", name, & o.a, & o.b, & o.c) != 4) { ok = false; break; }
            o.k = NOPS;
            for ( uint32_t i = 0; i < NOPS; ++i) if ( ! strcmp( op_names[i], name) ) o.k = i;
            if ( o.k == NOPS) { ok = false; break; }
            p.ops.push_back( o);
        } else header += line;
    }
    fclose( f);
    return ok;
}

}
