// The part of Boost.Context's library that its ucontext backend needs (src/fiber.cpp), absent from the installed one:
// the record of the context a thread runs in.
#if defined(BOOST_USE_UCONTEXT)
#include <boost/context/fiber.hpp>
#include <cstddef>
#include <sys/syscall.h>
#include <unistd.h>
#include "sim.hpp"

namespace boost { namespace context { namespace detail {

static thread_local fiber_activation_record * current_rec = nullptr;
static thread_local std::size_t users = 0;

fiber_activation_record_initializer::fiber_activation_record_initializer() noexcept {
    if ( users++ == 0) current_rec = new fiber_activation_record();
}
fiber_activation_record_initializer::~fiber_activation_record_initializer() {
    if ( --users == 0) { delete current_rec; current_rec = nullptr; }
}
fiber_activation_record *& fiber_activation_record::current() noexcept {
    static thread_local fiber_activation_record_initializer init;
    return current_rec;
}

}}}

#ifdef SIM_SPLIT
// whose stack every mapping of memory belongs to
namespace sim {

SegMap seg_maps[SEG_MAX];
int seg_nmaps = 0, seg_creating = -1;
static int seg_making = -1;

// called on whatever stack is left, while it is being extended: the new segment belongs to whose stack that is
void segment_mapped( char * a, std::size_t n) {
    if ( seg_nmaps == SEG_MAX ) __builtin_trap();
    char * sp = static_cast< char * >( __builtin_frame_address( 0) );
    int owner = seg_making;
    if ( owner < 0)
        for ( int i = 0; i < seg_nmaps; ++i) if ( seg_maps[i].a <= sp && sp < seg_maps[i].a + seg_maps[i].n) { owner = seg_maps[i].owner; break; }
    seg_maps[seg_nmaps].a = a; seg_maps[seg_nmaps].n = n; seg_maps[seg_nmaps].owner = owner;
    ++seg_nmaps;
    if ( owner >= 0 && seg_making < 0 && W.active) W.sh->counts[C_SEGMENTS]++;
}
void segment_unmapped( char * a, std::size_t n) {
    for ( int i = 0; i < seg_nmaps; ++i)
        if ( seg_maps[i].a == a && seg_maps[i].n == n) { seg_maps[i] = seg_maps[--seg_nmaps]; return; }
}
}

extern "C" {
void * __real___splitstack_makecontext( std::size_t, void * [10], std::size_t *);
void * __wrap___splitstack_makecontext( std::size_t n, void * c[10], std::size_t * size) {
    sim::seg_making = sim::seg_creating;
    void * p = __real___splitstack_makecontext( n, c, size);
    sim::seg_making = -1;
    return p;
}
// the split-stack runtime maps and unmaps its segments by system calls of its own
long __real_syscall( long, long, long, long, long, long, long);
long __wrap_syscall( long nr, long a, long b, long c, long d, long e, long f) {
    if ( nr == SYS_munmap) sim::segment_unmapped( reinterpret_cast< char * >( a), (std::size_t) b);
    long r = __real_syscall( nr, a, b, c, d, e, f);
    if ( nr == SYS_mmap && r != -1) sim::segment_mapped( reinterpret_cast< char * >( r), (std::size_t) b);
    return r;
}
}
#endif
#endif
