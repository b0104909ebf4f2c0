# Planted bugs: edits as (file, old text, new text, n): n > 0 all n occurrences, n < 0 only the -n'th, 0 all.
PCB = "detail/pull_control_block_cc.ipp"
SCB = "detail/push_control_block_cc.ipp"
PULL = "detail/pull_coroutine.ipp"
PUSH = "detail/push_coroutine.ipp"
PULLH = "detail/pull_coroutine.hpp"
PUSHH = "detail/push_coroutine.hpp"
CREATE = "detail/create_control_block.ipp"

BUGS = []


def bug(id, property, needs, breaks, edits, demo, **kw):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, **kw))


bug("ref-rebind-assigns", "C02",
    "a coroutine over T& that has already transferred one reference, driven from the push side, where the two objects are told apart by identity or later by content",
    "the second transfer assigns through the stored reference instead of rebinding it: the receiver still sees the first object, whose content is overwritten",
    [(PCB, """pull_coroutine< T & >::control_block::set( T & t) {
    ::new ( static_cast< void * >( std::addressof( storage) ) ) holder{ t };
    bvalid = true;""", """pull_coroutine< T & >::control_block::set( T & t) {
    if ( bvalid && state_t::none == ( state & state_t::unwind) ) {
        assign_( reinterpret_cast< holder * >( std::addressof( storage) )->t, t, std::is_copy_assignable< T >{});
        return;
    }
    ::new ( static_cast< void * >( std::addressof( storage) ) ) holder{ t };
    bvalid = true;""", 1),
     ("detail/pull_control_block_cc.hpp", """        holder( T & t_) :
            t{ t_ } {
        }
    };
""", """        holder( T & t_) :
            t{ t_ } {
        }
    };

    static void assign_( T & l, T & r, std::true_type) {
        l = r;
    }

    static void assign_( T &, T &, std::false_type) {
    }
""", 1)],
    """
int main() {
    int a = 1, b = 2;
    std::vector< int * > seen;
    coro::coroutine< int & >::push_type sink( [&seen]( coro::coroutine< int & >::pull_type & in) {
        for ( int & i : in) seen.push_back( & i);
    });
    sink( a);
    sink( b);
    CHECK( seen.size() == 2);
    CHECK( seen[0] == & a && seen[1] == & b);
    CHECK( a == 1 && b == 2);
}
""")

bug("exception-sliced", "C05",
    "the function of a push coroutine over a reference lets a class derived from std::runtime_error escape",
    "the exception is stored as a copy of its std::runtime_error base: the dynamic type and the derived content are lost",
    [(SCB, """              } catch (...) {
                  // store other exceptions in exception-pointer
                  except = std::current_exception();
              }
          }
          // set termination flags
          state |= state_t::complete;
          // jump back
          other->c = std::move( other->c).resume();""", """              } catch ( std::runtime_error const& ex) {
                  except = std::make_exception_ptr( ex);
              } catch (...) {
                  // store other exceptions in exception-pointer
                  except = std::current_exception();
              }
          }
          // set termination flags
          state |= state_t::complete;
          // jump back
          other->c = std::move( other->c).resume();""", -1),
     (SCB, "#include <memory>\n", "#include <memory>\n#include <stdexcept>\n", 1)],
    """
struct my_error : std::runtime_error {
    int code;
    explicit my_error( int c) : std::runtime_error( "my"), code( c) {}
};
int main() {
    int x = 0;
    coro::coroutine< int & >::push_type sink( []( coro::coroutine< int & >::pull_type & in) {
        in();
        throw my_error( 42);
    });
    sink( x);
    int code = 0;
    try { sink( x); } catch ( my_error const& e) { code = e.code; } catch ( ...) { code = -1; }
    CHECK( code == 42);
}
""")

bug("exception-lost-while-unwinding", "C05",
    "the resume happens in a destructor that runs while an unrelated exception is being propagated, and the coroutine function throws in that step",
    "the exception escaping the coroutine function is dropped instead of being thrown out of the resume",
    [(PCB, """pull_coroutine< T >::control_block::resume() {
    c = std::move( c).resume();
    if ( except) {""", """pull_coroutine< T >::control_block::resume() {
    c = std::move( c).resume();
    // do not throw into an ongoing stack unwinding
    if ( except && ! std::uncaught_exception() ) {""", 1)],
    """
struct Closer {
    coro::coroutine< int >::pull_type & src;
    bool & got;
    ~Closer() {
        try { src(); } catch ( std::logic_error const&) { got = true; }
    }
};
int main() {
    bool got = false, outer = false;
    coro::coroutine< int >::pull_type src( []( coro::coroutine< int >::push_type & out) {
        out( 1);
        throw std::logic_error( "x");
    });
    try {
        Closer c{ src, got };
        throw 7;
    } catch ( int) { outer = true; }
    CHECK( outer);
    CHECK( got);
}
""", std="-std=c++14")

bug("no-unwind-during-exception", "C06",
    "the handle of a suspended push coroutine is destroyed by the stack unwinding of an exception",
    "the coroutine is not unwound at all when its handle dies while an exception is in flight: the objects on its stack (and the stack) leak",
    [(PUSH, """push_coroutine< T >::~push_coroutine() {
    if ( nullptr != cb_) {
        cb_->deallocate();""", """push_coroutine< T >::~push_coroutine() {
    // unwinding the stack uses an exception: must not meet another one
    if ( nullptr != cb_ && ( ! std::uncaught_exception() || ! cb_->valid() ) ) {
        cb_->deallocate();""", 1)],
    """
static int live = 0;
struct Guard { Guard() { ++live; } ~Guard() { --live; } };
int main() {
    try {
        coro::coroutine< int >::push_type sink( []( coro::coroutine< int >::pull_type & in) {
            Guard g;
            while ( in) in();
        });
        sink( 1);
        CHECK( live == 1);
        throw 7;
    } catch ( int) {}
    CHECK( live == 0);
}
""", std="-std=c++14")

bug("last-value-leaks", "C09",
    "a pull coroutine over a class type whose function returned after at least one value: the last value was delivered, not overwritten, and the handle is destroyed afterwards",
    "the control block takes a completed coroutine to hold no value and does not destroy the last one",
    [(PCB, """    // destroy data if set
    if ( bvalid) {
        reinterpret_cast< T * >( std::addressof( storage) )->~T();
    }
}""", """    // destroy data if set
    if ( valid() ) {
        reinterpret_cast< T * >( std::addressof( storage) )->~T();
    }
}""", 1)],
    """
static int live = 0;
struct V {
    int i;
    explicit V( int x) : i( x) { ++live; }
    V( V const& o) : i( o.i) { ++live; }
    ~V() { --live; }
};
int main() {
    {
        coro::coroutine< V >::pull_type src( []( coro::coroutine< V >::push_type & out) {
            for ( int i = 0; i < 3; ++i) { V v( i); out( v); }
        });
        int n = 0;
        while ( src) { ++n; src(); }
        CHECK( n == 3);
    }
    CHECK( live == 0);
}
""")

bug("completed-stack-leaks", "C07",
    "a pull coroutine over a reference has run to completion before its handle is destroyed",
    "there is nothing to unwind any more, so the destructor skips a completed coroutine altogether and its stack is never given back",
    [(PULL, """pull_coroutine< T & >::~pull_coroutine() {
    if ( nullptr != cb_) {""", """pull_coroutine< T & >::~pull_coroutine() {
    if ( nullptr != cb_ && cb_->valid() ) {""", 1)],
    """
struct Alloc {
    int * n;
    boost::context::fixedsize_stack s;
    boost::context::stack_context allocate() { ++*n; return s.allocate(); }
    void deallocate( boost::context::stack_context & c) noexcept { --*n; s.deallocate( c); }
};
int main() {
    int n = 0;
    {
        Alloc a; a.n = & n;
        coro::coroutine< int & >::pull_type src( a, []( coro::coroutine< int & >::push_type & out) {
            int x = 1;
            out( x);
        });
        CHECK( n == 1);
        src();
        CHECK( ! src);
    }
    CHECK( n == 0);
}
""")

bug("empty-generator-leaks", "C07",
    "a pull coroutine over values whose function returns without having pushed anything",
    "the constructor drops the finished control block without releasing it: its stack is never given back",
    [(PULL, """    cb_{ create_control_block< control_block >( std::forward< StackAllocator >( salloc), std::forward< Fn >( fn) ) } {
    if ( ! cb_->valid() ) {
        cb_->deallocate();
        cb_ = nullptr;
    }
}

template< typename T >
pull_coroutine< T >::~pull_coroutine() {""", """    cb_{ create_control_block< control_block >( std::forward< StackAllocator >( salloc), std::forward< Fn >( fn) ) } {
    if ( ! cb_->valid() ) {
        // coroutine-function has returned: nothing to unwind
        cb_ = nullptr;
    }
}

template< typename T >
pull_coroutine< T >::~pull_coroutine() {""", 1)],
    """
struct Alloc {
    int * n;
    boost::context::fixedsize_stack s;
    boost::context::stack_context allocate() { ++*n; return s.allocate(); }
    void deallocate( boost::context::stack_context & c) noexcept { --*n; s.deallocate( c); }
};
int main() {
    int n = 0;
    {
        Alloc a; a.n = & n;
        coro::coroutine< int >::pull_type src( a, []( coro::coroutine< int >::push_type &) {});
        CHECK( ! src);
    }
    CHECK( n == 0);
}
""")

bug("lvalue-callable-moved-from", "C10",
    "the callable is an lvalue of a class whose move differs from its copy, and is used again after the coroutine was created",
    "an lvalue callable is moved into the coroutine instead of being copied: the caller's object is left empty",
    [("detail/decay_copy.hpp", """    return std::forward< T >( t);""", """    return std::move( t);""", 1),
     ("detail/decay_copy.hpp", """decay_copy( T && t) {""", """decay_copy( T && t) noexcept( std::is_nothrow_move_constructible< typename std::decay< T >::type >::value) {""", 1)],
    """
struct Gen {
    std::vector< int > v;
    void operator()( coro::coroutine< int >::push_type & out) { for ( int i : v) out( i); }
};
int main() {
    Gen g{ { 1, 2, 3 } };
    for ( int k = 0; k < 2; ++k) {
        int sum = 0;
        coro::coroutine< int >::pull_type src( g);
        for ( int i : src) sum += i;
        CHECK( sum == 6);
    }
    CHECK( g.v.size() == 3);
}
""")

bug("move-leaves-completed-behind", "C11",
    "a completed pull coroutine over values is moved to another handle, and the new handle is destroyed before the old one",
    "moving a handle whose coroutine has terminated leaves the coroutine with the source: it is not released when its new owner goes",
    [(PULL, """pull_coroutine< T >::pull_coroutine( pull_coroutine && other) noexcept :
    cb_{ nullptr } {
    std::swap( cb_, other.cb_);
}""", """pull_coroutine< T >::pull_coroutine( pull_coroutine && other) noexcept :
    cb_{ nullptr } {
    if ( other) {
        std::swap( cb_, other.cb_);
    }
}""", 1)],
    """
struct Alloc {
    int * n;
    boost::context::fixedsize_stack s;
    boost::context::stack_context allocate() { ++*n; return s.allocate(); }
    void deallocate( boost::context::stack_context & c) noexcept { --*n; s.deallocate( c); }
};
int main() {
    int n = 0;
    Alloc a; a.n = & n;
    coro::coroutine< int >::pull_type src( a, []( coro::coroutine< int >::push_type & out) { out( 1); });
    src();
    CHECK( ! src);
    {
        coro::coroutine< int >::pull_type dst( std::move( src) );
        CHECK( ! dst && ! src);
    }
    CHECK( n == 0);
}
""")

bug("post-increment-misses-end", "C12",
    "a pull coroutine over a reference is walked with the post-increment of its iterator up to its end",
    "the post-increment does not look whether the coroutine has terminated: the iterator never becomes end()",
    [(PULLH, """        void operator++( int) {
            increment_();
        }""", """        void operator++( int) {
            BOOST_ASSERT( nullptr != c_);
            ( * c_)();
        }""", -2)],
    """
int main() {
    int a[3] = { 1, 2, 3 }, n = 0;
    coro::coroutine< int & >::pull_type src( [&a]( coro::coroutine< int & >::push_type & out) { for ( int & i : a) out( i); });
    for ( auto i = begin( src); i != end( src) && n < 10; i++) { ++n; if ( n == 4) break; }
    CHECK( n == 3);
}
""")

bug("output-iterator-keeps-going", "C12",
    "the output iterator of a push coroutine over a reference is used up to the end of the coroutine",
    "the iterator looks at the coroutine before the push and not after it: it does not compare equal to end() when the coroutine has terminated",
    [(PUSHH, """            if ( ! ( * c_)( t) ) {
                c_ = nullptr;
            }
            return * this;""", """            if ( ! ( * c_) ) {
                c_ = nullptr;
                return * this;
            }
            ( * c_)( t);
            return * this;""", -2)],
    """
int main() {
    int a[6] = { 0, 1, 2, 3, 4, 5 }, k = 0, sum = 0;
    coro::coroutine< int & >::push_type sink( [&sum]( coro::coroutine< int & >::pull_type & in) {
        for ( int n = 0; n < 3; ++n) { sum += in.get(); if ( n < 2) in(); }
    });
    auto i = begin( sink);
    auto e = end( sink);
    for ( ; i != e && k < 6; ++i) { *i = a[k++]; if ( ! sink) break; }
    CHECK( ! sink);
    CHECK( k == 3 && sum == 3);
    CHECK( i == e);
}
""")

bug("failed-push-remembered", "C13",
    "copying a value throws inside a push, and the same coroutine is used for another push afterwards",
    "the exception of the failed push is kept in the control block and thrown again by the next push, which succeeded",
    [(SCB, """push_coroutine< T >::control_block::resume( T const& data) {
    // pass data to other context
    other->set( data);""", """push_coroutine< T >::control_block::resume( T const& data) {
    // pass data to other context
    try {
        other->set( data);
    } catch (...) {
        except = std::current_exception();
        throw;
    }""", 1)],
    """
static bool fail = false;
struct V {
    int i;
    explicit V( int x) : i( x) {}
    V( V const& o) : i( o.i) { if ( fail) throw std::bad_alloc(); }
};
int main() {
    int sum = 0;
    coro::coroutine< V >::push_type sink( [&sum]( coro::coroutine< V >::pull_type & in) { for ( V & v : in) sum += v.i; });
    V a( 1), b( 2);
    sink( a);
    fail = true;
    bool thrown = false;
    try { sink( b); } catch ( std::bad_alloc const&) { thrown = true; }
    fail = false;
    CHECK( thrown && sink && sum == 1);
    bool again = false;
    try { sink( b); } catch ( ...) { again = true; }
    CHECK( ! again);
    CHECK( sum == 3);
}
""")

bug("get-consumes", "C15",
    "the value of a pull coroutine over a trivially destructible type is read and the handle is tested afterwards, with no resume in between",
    "reading the value through get() marks it as consumed: the handle turns false although the coroutine is suspended and can be resumed",
    [(PULL, """pull_coroutine< T >::get() noexcept {
    return std::move( cb_->get() );
}""", """pull_coroutine< T >::get() noexcept {
    // a taken value needs no destruction any more
    if ( ! std::is_scalar< T >::value && std::is_trivially_destructible< T >::value) {
        cb_->bvalid = false;
    }
    return std::move( cb_->get() );
}""", 1)],
    """
struct P { int x, y; };
int main() {
    coro::coroutine< P >::pull_type src( []( coro::coroutine< P >::push_type & out) { for ( int i = 0; i < 3; ++i) out( P{ i, i }); });
    int n = 0;
    while ( src) {
        P a = src.get();
        CHECK( a.x == n);
        CHECK( src);
        CHECK( ! ! src);
        ++n;
        src();
    }
    CHECK( n == 3);
}
""")

bug("rvalue-copied", "C09",
    "the pushed rvalue is of a copyable type whose move constructor is not noexcept",
    "pushing an rvalue copies the value instead of moving it (move_if_noexcept)",
    [(PCB, """T( std::move( t) );
    bvalid = true;""", """T( std::move_if_noexcept( t) );
    bvalid = true;""", 1)],
    """
static int copies = 0;
struct V {
    int i;
    explicit V( int x) : i( x) {}
    V( V const& o) : i( o.i) { ++copies; }
    V( V && o) : i( o.i) { o.i = -1; }
};
int main() {
    int sum = 0;
    coro::coroutine< V >::push_type sink( [&sum]( coro::coroutine< V >::pull_type & in) { for ( V & v : in) sum += v.i; });
    sink( V( 1) );
    V b( 2);
    sink( std::move( b) );
    CHECK( sum == 3);
    CHECK( copies == 0);
}
""")

bug("state-after-release", "C08",
    "a pull coroutine without values is destroyed and the memory of its stack is watched, reused by someone else, or unmapped at once",
    "the control block, which lives on the coroutine's stack, is written to after that stack was given back to the allocator",
    [(PCB, """inline
void
pull_coroutine< void >::control_block::destroy( control_block * cb) noexcept {
    boost::context::fiber c = std::move( cb->c);
    // destroy control structure
    cb->~control_block();
    // destroy coroutine's stack
    cb->state |= state_t::destroy;
}""", """inline
void
pull_coroutine< void >::control_block::destroy( control_block * cb) noexcept {
    const bool running = state_t::none == ( cb->state & state_t::complete);
    {
        boost::context::fiber c = std::move( cb->c);
        // destroy control structure
        cb->~control_block();
        if ( running) {
            // destroy coroutine's stack
            cb->state |= state_t::destroy;
            return;
        }
    }
    cb->state |= state_t::destroy;
}""", 1)],
    """
struct Alloc {
    unsigned char * mem;
    bool * released;
    boost::context::stack_context allocate() {
        boost::context::stack_context s;
        s.size = 64 * 1024;
        s.sp = mem + s.size;
        return s;
    }
    void deallocate( boost::context::stack_context & s) noexcept {
        // the owner of the memory puts something else there
        std::memset( mem, 0, s.size);
        *released = true;
    }
};
int main() {
    static unsigned char mem[64 * 1024 + 64];
    bool released = false;
    {
        Alloc a{ mem, & released };
        coro::coroutine< void >::pull_type src( a, []( coro::coroutine< void >::push_type & out) { out(); });
        src();
        CHECK( ! src);
    }
    CHECK( released);
    for ( std::size_t i = 0; i < 64 * 1024; ++i) CHECK( mem[i] == 0);
}
""")

bug("throw-leaves-handle-true", "C04",
    "the function of a push coroutine over void throws after it was resumed more than once",
    "the termination flag is only set when the function has returned: after an exception the handle stays true",
    [(SCB, """          // set termination flags
          state |= state_t::complete;
          // jump back
          other->c = std::move( other->c).resume();
          return std::move( other->c);
       } },
#endif
    other{ nullptr },
    state{ state_t::unwind },
    except{} {
        c = std::move( c).resume();
}

inline
push_coroutine< void >""", """          // set termination flags
          if ( ! except || ! synthesized) {
              state |= state_t::complete;
          }
          // jump back
          other->c = std::move( other->c).resume();
          return std::move( other->c);
       } },
#endif
    other{ nullptr },
    state{ state_t::unwind },
    except{} {
        c = std::move( c).resume();
}

inline
push_coroutine< void >""", 1)],
    """
int main() {
    coro::coroutine< void >::push_type sink( []( coro::coroutine< void >::pull_type & in) {
        in();
        throw 7;
    });
    sink();
    CHECK( sink);
    bool thrown = false;
    try { sink(); } catch ( int) { thrown = true; }
    CHECK( thrown);
    CHECK( ! sink);
}
""")

bug("shared-transfer-guard", "C14",
    "copying a value into one coroutine runs code that pushes into another coroutine over the same type ",
    "a guard shared by all coroutines of a type makes the inner transfer keep the value of before: the other coroutine is resumed with the wrong value",
    [(PCB, """pull_coroutine< T >::control_block::set( T const& t) {
    // destroy data if set""", """pull_coroutine< T >::control_block::set( T const& t) {
    // a copy constructor must not start another transfer into this storage
    static thread_local bool busy = false;
    if ( busy && bvalid) {
        return;
    }
    struct guard {
        ~guard() { busy = false; }
    } g;
    busy = true;
    // destroy data if set""", 1)],
    """
struct V {
    int i;
    std::function< void() > * hook;
    V( int x, std::function< void() > * h = nullptr) : i( x), hook( h) {}
    V( V const& o) : i( o.i), hook( nullptr) { if ( o.hook) ( * o.hook)(); }
};
int main() {
    std::vector< int > a, b;
    auto body = []( std::vector< int > & v) { return [&v]( coro::coroutine< V >::pull_type & in) { for ( V & x : in) v.push_back( x.i); }; };
    coro::coroutine< V >::push_type s1( body( a) ), s2( body( b) );
    V one( 1), two( 2);
    s1( one);
    s2( one);
    std::function< void() > h = [&] { s2( two); };
    V three( 3, & h);
    s1( three);
    CHECK( ( a == std::vector< int >{ 1, 3 }) );
    CHECK( ( b == std::vector< int >{ 1, 2 }) );
}
""")

bug("default-allocator-copy", "C07",
    "a push coroutine over values is created with a default-constructible stack allocator object that carries state (a pool, a counter)",
    "the coroutine keeps a fresh allocator of the same type instead of a copy of the one it was given: the stack is given back to another allocator than it came from",
    [(SCB, """    c{ std::allocator_arg, palloc, std::forward< StackAllocator >( salloc),
       [this,fn_=std::forward< Fn >( fn)](boost::context::fiber && c) mutable {
          // create synthesized pull_coroutine< T >""", """    c{ std::allocator_arg, palloc, keep_allocator( std::forward< StackAllocator >( salloc),
                                                   std::is_empty< typename std::decay< StackAllocator >::type >{},
                                                   std::is_default_constructible< typename std::decay< StackAllocator >::type >{}),
       [this,fn_=std::forward< Fn >( fn)](boost::context::fiber && c) mutable {
          // create synthesized pull_coroutine< T >""", 1),
     (SCB, """// push_coroutine< T >

template< typename T >
void""", """// the coroutine only gives a stack back: it needs no copy of the state used for allocation
template< typename StackAllocator, typename Empty >
StackAllocator &&
keep_allocator( StackAllocator && salloc, Empty, std::false_type) {
    return std::forward< StackAllocator >( salloc);
}

template< typename StackAllocator >
StackAllocator &&
keep_allocator( StackAllocator && salloc, std::true_type, std::true_type) {
    return std::forward< StackAllocator >( salloc);
}

template< typename StackAllocator >
typename std::decay< StackAllocator >::type
keep_allocator( StackAllocator &&, std::false_type, std::true_type) {
    return typename std::decay< StackAllocator >::type();
}

// push_coroutine< T >

template< typename T >
void""", 1)],
    """
struct Alloc {
    std::shared_ptr< int > n = std::make_shared< int >( 0);
    boost::context::stack_context allocate() { ++*n; return boost::context::fixedsize_stack().allocate(); }
    void deallocate( boost::context::stack_context & c) noexcept { --*n; boost::context::fixedsize_stack().deallocate( c); }
};
int main() {
    Alloc a;
    {
        coro::coroutine< int >::push_type sink( a, []( coro::coroutine< int >::pull_type & in) { while ( in) in(); });
        sink( 1);
        CHECK( *a.n == 1);
    }
    CHECK( *a.n == 0);
}
""")

bug("same-object-skipped", "C01",
    "a large trivially copyable object is changed and pushed again from the same place, as an lvalue",
    "a push of the object that was pushed last is taken to be a repetition and not copied: the receiver sees the old content",
    [(PCB, """pull_coroutine< T >::control_block::set( T const& t) {
    // destroy data if set""", """pull_coroutine< T >::control_block::set( T const& t) {
    // large objects: do not copy what is there already
    if ( bvalid && last == std::addressof( t) && sizeof( T) > 256 && std::is_trivially_copyable< T >::value) {
        return;
    }
    last = std::addressof( t);
    // destroy data if set""", 1),
     ("detail/pull_control_block_cc.hpp", """    alignas(T) unsigned char                                        storage[sizeof(T)];
""", """    T const*                                                        last{ nullptr };
    alignas(T) unsigned char                                        storage[sizeof(T)];
""", 1)],
    """
struct Block { int n; char data[1020]; };
int main() {
    int sum = 0;
    coro::coroutine< Block >::pull_type src( []( coro::coroutine< Block >::push_type & out) {
        Block b = Block();
        for ( b.n = 1; b.n <= 3; ++b.n) out( b);
    });
    for ( Block & b : src) sum += b.n;
    CHECK( sum == 6);
}
""")

bug("nesting-limit", "C03",
    "more than 32 coroutines are resumed inside one another (a recursive generator over a deep tree)",
    "a guard against runaway recursion makes a resume return without resuming when the nesting is deep",
    [(PCB, """pull_coroutine< T >::control_block::resume() {
    c = std::move( c).resume();
    if ( except) {""", """pull_coroutine< T >::control_block::resume() {
    static thread_local unsigned depth = 0;
    struct count {
        count() { ++depth; }
        ~count() { --depth; }
    } guard;
    // runaway recursion
    if ( 32 < depth) {
        return;
    }
    c = std::move( c).resume();
    if ( except) {""", 1)],
    """
typedef coro::coroutine< int > C;
void count( C::push_type & out, int n) {
    if ( n == 0) { out( 0); out( 1); return; }
    C::pull_type sub( [n]( C::push_type & o) { count( o, n - 1); });
    while ( sub) { out( sub.get() ); sub(); }
}
int main() {
    C::pull_type src( []( C::push_type & o) { count( o, 40); });
    std::vector< int > got;
    while ( src && got.size() < 10) { got.push_back( src.get() ); src(); }
    CHECK( ( got == std::vector< int >{ 0, 1 }) );
}
""")

bug("exception-reported-once", "C16",
    "an exception leaves one stage and goes on through another stage that does not catch it",
    "an exception that was reported by one coroutine is not thrown again by the next one it passes through: the consumer sees a normal end",
    [(PCB, """pull_coroutine< T >::control_block::resume() {
    c = std::move( c).resume();
    if ( except) {
        std::rethrow_exception( except);
    }
}""", """pull_coroutine< T >::control_block::resume() {
    // the exception that was reported last
    static thread_local std::exception_ptr reported;
    c = std::move( c).resume();
    if ( except && except != reported) {
        reported = except;
        std::rethrow_exception( except);
    }
}""", 1)],
    """
typedef coro::coroutine< int > C;
int main() {
    bool thrown = false;
    C::pull_type sum( []( C::push_type & out) {
        C::pull_type src( []( C::push_type & o) { o( 1); o( 2); throw std::runtime_error( "source"); });
        for ( int i : src) out( i * 10);
    });
    int n = 0;
    try { for ( int i : sum) n += i; } catch ( std::runtime_error const&) { thrown = true; }
    CHECK( n == 30);
    CHECK( thrown);
}
""")

bug("transfer-count-wraps", "C04",
    "256 references are transferred through one coroutine over T&",
    "whether there is a value is kept as a count in one byte: after 256 transfers the handle is false although the coroutine is suspended",
    [(PCB, """holder{ t };
    bvalid = true;""", """holder{ t };
    ++transfers;""", 1),
     (PCB, """pull_coroutine< T & >::control_block::valid() const noexcept {
    return nullptr != other && state_t::none == ( state & state_t::complete) && bvalid;""", """pull_coroutine< T & >::control_block::valid() const noexcept {
    return nullptr != other && state_t::none == ( state & state_t::complete) && 0 != transfers;""", 1),
     ("detail/pull_control_block_cc.hpp", """    bool                                                                        bvalid;
    alignas(holder)""", """    bool                                                                        bvalid;
    unsigned char                                                               transfers{ 0 };
    alignas(holder)""", 1)],
    """
int main() {
    int x = 0, n = 0;
    coro::coroutine< int & >::pull_type src( [&x]( coro::coroutine< int & >::push_type & out) { for ( int i = 0; i < 1000; ++i) out( x); });
    while ( src) { ++n; src(); }
    CHECK( n == 1000);
}
""")

bug("arrow-uses-address-operator", "C12",
    "operator-> of the iterator is used with a class that overloads operator&",
    "the overloaded operator is called: the pointer is not the address of the value",
    [(PULLH, "return std::addressof( c_->cb_->get() );", "return & c_->cb_->get();", 2)],
    """
struct V {
    int i;
    V * operator&() { return nullptr; }
};
int main() {
    coro::coroutine< V >::pull_type src( []( coro::coroutine< V >::push_type & out) { out( V{ 7 }); });
    auto it = begin( src);
    CHECK( it.operator->() != nullptr);
    CHECK( it->i == 7);
}
""")

bug("rvalue-transfer-noexcept", "C13",
    "the move constructor of the value throws while an rvalue is pushed",
    "the transfer of an rvalue is declared noexcept: the program is terminated instead of the exception reaching the pusher",
    [("detail/pull_control_block_cc.hpp", "    void set( T &&);", "    void set( T &&) noexcept;", 1),
     (PCB, "pull_coroutine< T >::control_block::set( T && t) {", "pull_coroutine< T >::control_block::set( T && t) noexcept {", 1)],
    """
static bool fail = false;
struct V {
    int i;
    explicit V( int x) : i( x) {}
    V( V && o) : i( o.i) { if ( fail) throw std::bad_alloc(); }
};
int main() {
    std::set_terminate( [] { std::_Exit( 1); });
    int sum = 0;
    coro::coroutine< V >::push_type sink( [&sum]( coro::coroutine< V >::pull_type & in) { for ( V & v : in) sum += v.i; });
    sink( V( 1) );
    fail = true;
    bool thrown = false;
    try { sink( V( 2) ); } catch ( std::bad_alloc const&) { thrown = true; }
    fail = false;
    CHECK( thrown);
    sink( V( 3) );
    CHECK( sum == 4);
}
""")

bug("not-operator-after-exception", "C15",
    "operator! is asked about a push coroutine without values whose function has thrown",
    "operator! and operator bool disagree after an exception: a failed coroutine is neither true nor !true",
    [(PUSH, """bool
push_coroutine< void >::operator!() const noexcept {
    return nullptr == cb_ || ! cb_->valid();""", """bool
push_coroutine< void >::operator!() const noexcept {
    return nullptr == cb_ || ( ! cb_->valid() && ! cb_->except);""", 1)],
    """
int main() {
    coro::coroutine< void >::push_type sink( []( coro::coroutine< void >::pull_type &) { throw 7; });
    CHECK( sink && ! ! sink);
    try { sink(); CHECK( false); } catch ( int) {}
    bool t = sink ? true : false, n = ! sink;
    CHECK( t == ! n);
    CHECK( n);
}
""")

bug("iterator-pushes-copy", "C02",
    "a small trivially copyable object is pushed by reference through the output iterator, and its identity or later changes matter",
    "the output iterator passes on a reference to a copy of the object",
    [(PUSHH, """        iterator & operator=( T & t) {
            BOOST_ASSERT( nullptr != c_);
            if ( ! ( * c_)( t) ) {""", """        template< typename U >
        static U & pass_( U & t, U & slot, std::true_type) {
            slot = t;
            return slot;
        }

        template< typename U >
        static U & pass_( U & t, U &, std::false_type) {
            return t;
        }

        iterator & operator=( T & t) {
            BOOST_ASSERT( nullptr != c_);
            typedef std::integral_constant< bool,
                std::is_scalar< T >::value && ! std::is_const< T >::value && sizeof( typename std::decay< T >::type) <= sizeof( void *) >  small_t;
            static typename std::conditional< small_t::value, T, int >::type slot;
            if ( ! ( * c_)( pass_( t, reinterpret_cast< T & >( slot), small_t{}) ) ) {""", 1)],
    """
int main() {
    int a[3] = { 1, 2, 3 }, k = 0;
    coro::coroutine< int & >::push_type sink( []( coro::coroutine< int & >::pull_type & in) { for ( int & i : in) i *= 2; });
    auto it = begin( sink);
    for ( ; k < 3; ++k) { *it = a[k]; ++it; }
    CHECK( a[0] == 2 && a[1] == 4 && a[2] == 6);
}
""")

bug("storage-misaligned", "C08",
    "values of a type that needs more alignment than a pointer are transferred",
    "the storage of the value is only aligned for pointers: the value lies at an address its type does not allow",
    [("detail/pull_control_block_cc.hpp", "    alignas(T) unsigned char                                        storage[sizeof(T)];",
      "    alignas(void *) alignas(alignof(T) < 16 ? alignof(T) : alignof(void *)) unsigned char storage[sizeof(T)];", 1)],
    """
struct alignas( 32) V { char c[32]; V( int x) { std::memset( c, x, 32); } V( V const& o) { std::memcpy( c, o.c, 32); } };
int main() {
    coro::coroutine< V >::push_type sink( []( coro::coroutine< V >::pull_type & in) {
        for ( V & v : in) CHECK( reinterpret_cast< std::uintptr_t >( & v) % 32 == 0);
    });
    V v( 1);
    sink( v);
    sink( v);
}
""")

bug("counterpart-not-movable", "C11",
    "the coroutine function moves the handle it was given, and goes on with the new one",
    "only handles that own their coroutine are moved: the counterpart stays behind and the new handle is empty",
    [(PUSH, """push_coroutine< T >::push_coroutine( push_coroutine && other) noexcept :
    cb_{ nullptr } {
    std::swap( cb_, other.cb_);
}""", """push_coroutine< T >::push_coroutine( push_coroutine && other) noexcept :
    cb_{ nullptr } {
    // nothing is owned without the obligation to unwind
    if ( nullptr != other.cb_ && state_t::none != ( other.cb_->state & state_t::unwind) ) {
        std::swap( cb_, other.cb_);
    }
}""", 1)],
    """
int main() {
    int n = 0;
    coro::coroutine< int >::pull_type src( []( coro::coroutine< int >::push_type & out) {
        coro::coroutine< int >::push_type mine( std::move( out) );
        if ( mine) { mine( 1); mine( 2); }
    });
    while ( src) { n += src.get(); src(); }
    CHECK( n == 3);
}
""")

bug("cxx11-throw-keeps-handle", "C04",
    "C++11; the function of a pull coroutine over a reference throws after its first transfer",
    "in C++11 the termination flag is only set when the function returns: after an exception the handle is still true",
    [(PCB, """                   } catch (...) {
                       // store other exceptions in exception-pointer
                       except = std::current_exception();
                   }
               }
               // set termination flags
               state |= state_t::complete;
               // jump back
               return std::move( other->c).resume();""", """                   } catch (...) {
                       // store other exceptions in exception-pointer
                       except = std::current_exception();
                       return std::move( other->c).resume();
                   }
               }
               // set termination flags
               state |= state_t::complete;
               // jump back
               return std::move( other->c).resume();""", -2)],
    """
int main() {
    int x = 1;
    coro::coroutine< int & >::pull_type src( [&x]( coro::coroutine< int & >::push_type & out) { out( x); throw 7; });
    CHECK( src);
    bool thrown = false;
    try { src(); } catch ( int) { thrown = true; }
    CHECK( thrown);
    CHECK( ! src);
}
""", std="-std=c++11")

bug("value-destroyed-by-thread", "C09",
    "a coroutine over a class type is created on one thread and destroyed on another, while a value is stored",
    "the destructor of a foreign thread leaves the stored value alone: it is never destroyed",
    [(PCB, """    // destroy data if set
    if ( bvalid) {
        reinterpret_cast< T * >( std::addressof( storage) )->~T();
    }
}""", """    // destroy data if set
    if ( bvalid && owner == std::this_thread::get_id() ) {
        reinterpret_cast< T * >( std::addressof( storage) )->~T();
    }
}""", 1),
     (PCB, "#include <memory>\n", "#include <memory>\n#include <thread>\n", 1),
     ("detail/pull_control_block_cc.hpp", """    alignas(T) unsigned char                                        storage[sizeof(T)];
""", """    std::thread::id                                                 owner{ std::this_thread::get_id() };
    alignas(T) unsigned char                                        storage[sizeof(T)];
""", 1),
     ("detail/pull_control_block_cc.hpp", "#include <exception>\n", "#include <exception>\n#include <thread>\n", 1)],
    """
static int live = 0;
struct V {
    V() { ++live; }
    V( V const&) { ++live; }
    ~V() { --live; }
};
int main() {
    typedef coro::coroutine< V >::pull_type P;
    std::unique_ptr< P > src( new P( []( coro::coroutine< V >::push_type & out) { for (;;) { V v; out( v); } }) );
    std::thread t( [&src] { ( * src)(); src.reset(); });
    t.join();
    CHECK( live == 0);
}
""")

# ---------------------------------------------------------------- second batch
bug("null-pointer-ends", "C01",
    "a coroutine over a pointer type that transfers a null pointer among other values",
    "a null pointer is taken as 'no value': the pull handle turns false and the iteration ends there",
    [(PCB, """    ::new ( static_cast< void * >( std::addressof( storage) ) ) T( t);
    bvalid = true;""", """    ::new ( static_cast< void * >( std::addressof( storage) ) ) T( t);
    bvalid = present_( get() );""", 1),
     (PCB, """    ::new ( static_cast< void * >( std::addressof( storage) ) ) T( std::move( t) );
    bvalid = true;""", """    ::new ( static_cast< void * >( std::addressof( storage) ) ) T( std::move( t) );
    bvalid = present_( get() );""", 1),
     ("detail/pull_control_block_cc.hpp", """    void set( T const&);
    void set( T &&);
""", """    void set( T const&);
    void set( T &&);

    template< typename X >
    static bool present_( X * const& p) noexcept {
        return nullptr != p;
    }

    template< typename X >
    static bool present_( X const&) noexcept {
        return true;
    }
""", 1)],
    """
int main() {
    int a = 1, n = 0, nulls = 0;
    coro::coroutine< int * >::pull_type src( [&a]( coro::coroutine< int * >::push_type & out) { out( & a); out( nullptr); out( & a); });
    for ( int * p : src) { ++n; nulls += p == nullptr; }
    CHECK( n == 3 && nulls == 1);
}
""")

bug("large-pod-in-blocks", "C01",
    "a trivially copyable value larger than 256 bytes whose size is not a multiple of 16, pushed as an lvalue",
    "the value is copied in blocks of 16 bytes and its tail is left out",
    [(PCB, """    ::new ( static_cast< void * >( std::addressof( storage) ) ) T( t);
    bvalid = true;""", """    copy_( t, std::integral_constant< bool, std::is_trivially_copyable< T >::value && ( 256 < sizeof( T) ) >{} );
    bvalid = true;""", 1),
     ("detail/pull_control_block_cc.hpp", "#include <exception>\n", "#include <cstring>\n#include <exception>\n#include <memory>\n#include <type_traits>\n", 1),
     ("detail/pull_control_block_cc.hpp", """    void set( T const&);
    void set( T &&);
""", """    void set( T const&);
    void set( T &&);

    void copy_( T const& t, std::true_type) {
        char const* s = reinterpret_cast< char const* >( std::addressof( t) );
        for ( std::size_t i = 0; i + 16 <= sizeof( T); i += 16) {
            std::memcpy( storage + i, s + i, 16);
        }
    }

    void copy_( T const& t, std::false_type) {
        ::new ( static_cast< void * >( std::addressof( storage) ) ) T( t);
    }
""", 1)],
    """
struct Rec { int id; unsigned char b[305]; };
int main() {
    Rec a;
    std::memset( & a, 0, sizeof( a) );
    a.id = 4;
    for ( unsigned i = 0; i < sizeof( a.b); ++i) a.b[i] = (unsigned char) ( i * 7 + 1);
    coro::coroutine< Rec >::pull_type src( [&a]( coro::coroutine< Rec >::push_type & out) { out( a); out( a); });
    for ( Rec & r : src) CHECK( r.id == 4 && 0 == std::memcmp( r.b, a.b, sizeof( a.b) ) );
}
""")

bug("resume-detaches-handle", "C11",
    "the handle of a coroutine that is just running is moved from (by the function itself or what it calls)",
    "the handle lets go of its control block while the coroutine runs and takes it back afterwards: the moved-to handle is empty and the old one holds the coroutine again",
    [(PULL, """pull_coroutine< T >::operator()() {
    cb_->resume();
    return * this;
}""", """pull_coroutine< T >::operator()() {
    // guard against re-entrance: nothing to be resumed while it is running
    struct reattach {
        control_block   *&  slot;
        control_block   *   cb;

        ~reattach() {
            slot = cb;
        }
    } guard{ cb_, cb_ };
    cb_ = nullptr;
    guard.cb->resume();
    return * this;
}""", 1)],
    """
typedef coro::coroutine< int >::pull_type P;
int main() {
    std::unique_ptr< P > a, b;
    a.reset( new P( [&a,&b]( coro::coroutine< int >::push_type & out) {
        out( 1);
        b.reset( new P( std::move( * a) ) );
        out( 2);
        out( 3);
    }) );
    ( * a)();
    CHECK( ! * a);
    CHECK( * b && b->get() == 2);
    ( * b)();
    CHECK( * b && b->get() == 3);
}
""")

bug("unwinding-flag-global", "C14",
    "a coroutine is created by a destructor that runs because another (pull void) coroutine is being destroyed",
    "the new coroutine takes the other's destruction for its own: its function is never entered",
    [(PCB, """          push_coroutine< void > synthesized{ & synthesized_cb };
          other = & synthesized_cb;
          if ( state_t::none == ( state & state_t::destroy) ) {""", """          push_coroutine< void > synthesized{ & synthesized_cb };
          other = & synthesized_cb;
          if ( state_t::none == ( state & state_t::destroy) && ! destroying_() ) {""", 1),
     (PCB, """pull_coroutine< void >::control_block::destroy( control_block * cb) noexcept {
    boost::context::fiber c = std::move( cb->c);
    // destroy control structure
    cb->~control_block();
    // destroy coroutine's stack
    cb->state |= state_t::destroy;
""", """pull_coroutine< void >::control_block::destroy( control_block * cb) noexcept {
    boost::context::fiber c = std::move( cb->c);
    // destroy control structure
    cb->~control_block();
    // destroy coroutine's stack
    cb->state |= state_t::destroy;
    destroying_() = true;
    c = boost::context::fiber{};
    destroying_() = false;
""", 1),
     ("detail/pull_control_block_cc.hpp", """struct pull_coroutine< void >::control_block {
""", """struct pull_coroutine< void >::control_block {
    static bool & destroying_() noexcept {
        static thread_local bool flag = false;
        return flag;
    }

""", 1)],
    """
typedef coro::coroutine< void >::pull_type P;
static int entered = 0;
struct Local {
    ~Local() {
        P other( []( coro::coroutine< void >::push_type & out) { ++entered; out(); });
    }
};
int main() {
    {
        P src( []( coro::coroutine< void >::push_type & out) { Local l; out(); });
        CHECK( src);
    }
    CHECK( entered == 1);
}
""")

bug("odd-reference-tagged", "C02",
    "a coroutine over a reference to an object that lies at an odd address (a char in the middle of a string)",
    "the lowest bit of the stored address is used as a mark: the receiver sees the neighbouring object",
    [("detail/pull_control_block_cc.hpp", """    struct holder {
        T   &   t;

        holder( T & t_) :
            t{ t_ } {
        }
    };
""", """    struct holder {
        // the lowest bit marks a reference that was set
        std::uintptr_t  bits;

        holder( T & t_) :
            bits{ reinterpret_cast< std::uintptr_t >( std::addressof( t_) ) | 1 } {
        }

        T & ref() const noexcept {
            return * reinterpret_cast< T * >( bits & ~ static_cast< std::uintptr_t >( 1) );
        }
    };
""", 1),
     ("detail/pull_control_block_cc.hpp", "#include <exception>\n", "#include <cstdint>\n#include <exception>\n#include <memory>\n", 1),
     (PCB, "reinterpret_cast< holder * >( std::addressof( storage) )->t;", "reinterpret_cast< holder * >( std::addressof( storage) )->ref();", 1)],
    """
int main() {
    char text[8] = "abcdef";
    coro::coroutine< char & >::pull_type src( [&text]( coro::coroutine< char & >::push_type & out) {
        for ( int i = 0; i < 6; ++i) out( text[i]);
    });
    int i = 0;
    for ( char & c : src) { CHECK( & c == & text[i]); ++i; }
    CHECK( i == 6);
}
""")

bug("running-handle-false", "C04",
    "the handle of a push coroutine is tested while its own function is running (by the function or by what it calls)",
    "a running coroutine's handle converts to false although its function has not terminated",
    [(SCB, """push_coroutine< T >::control_block::valid() const noexcept {
    return state_t::none == ( state & state_t::complete );""", """push_coroutine< T >::control_block::valid() const noexcept {
    return static_cast< bool >( c) && state_t::none == ( state & state_t::complete );""", 1)],
    """
typedef coro::coroutine< int >::push_type S;
int main() {
    S * self = nullptr;
    bool inside = false;
    S sink( [&]( coro::coroutine< int >::pull_type & in) {
        inside = bool( * self) && ! ! * self;
        in();
    });
    self = & sink;
    CHECK( sink);
    sink( 1);
    CHECK( sink);
    CHECK( inside);
}
""")

bug("lvalue-allocator-moved-from", "C07",
    "a stack allocator whose moved-from state differs (it holds a shared pool), passed as an lvalue and used again afterwards",
    "the caller's allocator is moved into the coroutine although it was passed as an lvalue: it can not be used again",
    [(PULL, """    cb_{ create_control_block< control_block >( std::forward< StackAllocator >( salloc), std::forward< Fn >( fn) ) } {""",
      """    cb_{ create_control_block< control_block >( std::move( salloc), std::forward< Fn >( fn) ) } {""", 0)],
    """
namespace ctx = boost::context;
struct Alloc {
    std::shared_ptr< int > used{ std::make_shared< int >( 0) };
    ctx::fixedsize_stack impl{ 65536 };
    ctx::stack_context allocate() { ++ * used; return impl.allocate(); }
    void deallocate( ctx::stack_context & s) { impl.deallocate( s); }
};
int main() {
    Alloc a;
    coro::coroutine< int >::pull_type p( a, []( coro::coroutine< int >::push_type & out) { out( 1); });
    CHECK( a.used && * a.used == 1);
}
""")

bug("unwind-only-once-entered", "C10",
    "a push coroutine over a value type is destroyed without a single push having been made, its callable owning something",
    "the callable of a push coroutine that was never entered is not destroyed",
    [(SCB, """push_coroutine< T >::control_block::destroy( control_block * cb) noexcept {
    boost::context::fiber c = std::move( cb->c);
""", """push_coroutine< T >::control_block::destroy( control_block * cb) noexcept {
    boost::context::fiber c = std::move( cb->c);
    if ( ! cb->other->bvalid) {
        // never entered: nothing on the stack to unwind
        alignas( boost::context::fiber) unsigned char keep[sizeof( boost::context::fiber)];
        ::new ( static_cast< void * >( keep) ) boost::context::fiber( std::move( c) );
    }
""", 1)],
    """
int main() {
    std::shared_ptr< int > p = std::make_shared< int >( 3);
    {
        coro::coroutine< int >::push_type sink( [p]( coro::coroutine< int >::pull_type & in) { while ( in) in(); });
    }
    CHECK( p.use_count() == 1);
}
""")

bug("move-assign-unless-running", "C11",
    "a handle that holds a completed push coroutine over void is assigned from an empty one",
    "the assignment is skipped when neither side can be resumed: the completed coroutine of the target, and what it owns, stays until the handle goes",
    [(PUSHH, """    push_coroutine & operator=( push_coroutine && other) noexcept {
        if ( this == & other) return * this;
        push_coroutine tmp{ std::move( other) };
        std::swap( cb_, tmp.cb_);
        return * this;
    }

    push_coroutine & operator()();""", """    push_coroutine & operator=( push_coroutine && other) noexcept {
        if ( this == & other || ( nullptr != cb_ && ! * this && ! other) ) return * this;
        push_coroutine tmp{ std::move( other) };
        std::swap( cb_, tmp.cb_);
        return * this;
    }

    push_coroutine & operator()();""", 1)],
    """
namespace ctx = boost::context;
static int live = 0;
struct Alloc {
    ctx::fixedsize_stack impl{ 65536 };
    ctx::stack_context allocate() { ++live; return impl.allocate(); }
    void deallocate( ctx::stack_context & s) { --live; impl.deallocate( s); }
};
typedef coro::coroutine< void >::push_type S;
int main() {
    S a( Alloc{}, []( coro::coroutine< void >::pull_type &) {});
    a();
    CHECK( ! a && live == 1);
    S b( Alloc{}, []( coro::coroutine< void >::pull_type &) {});
    S other( std::move( b) );
    a = std::move( b);       // b is empty: what a held goes away
    CHECK( live == 1);
}
""")

bug("cxx20-skips-equal", "C01",
    "compiled as C++20: a class whose comparison looks at part of its content, two lvalues that compare equal in a row",
    "an lvalue that compares equal to the stored value is not copied: what the comparison does not look at keeps its old content",
    [(PCB, """pull_coroutine< T >::control_block::set( T const& t) {
""", """pull_coroutine< T >::control_block::set( T const& t) {
#if __cplusplus > 201703L
    if constexpr ( requires { { t == t }; } ) {
        // the value is already there
        if ( bvalid && get() == t) {
            return;
        }
    }
#endif
""", 1)],
    """
struct V {
    int key, rest;
    bool operator==( V const& o) const { return key == o.key; }
};
int main() {
    std::vector< int > got;
    coro::coroutine< V >::pull_type src( []( coro::coroutine< V >::push_type & out) {
        V a{ 1, 10 }, b{ 1, 20 };
        out( a);
        out( b);
    });
    for ( V & v : src) got.push_back( v.rest);
    CHECK( got.size() == 2 && got[0] == 10 && got[1] == 20);
}
""", std="-std=c++20")

bug("many-live-coroutines", "C14",
    "more than 512 pull coroutines over void are alive at once",
    "every pull coroutine over void takes a slot of a small table for its pending flag; beyond 512 the slots are shared and a coroutine sees another one's state",
    [("detail/pull_control_block_cc.hpp", """struct pull_coroutine< void >::control_block {
""", """struct pull_coroutine< void >::control_block {
    // which of the live coroutines have terminated, kept together for fast testing
    static unsigned char * done_() noexcept {
        static unsigned char table[512];
        return table;
    }

    static unsigned & count_() noexcept {
        static unsigned n = 0;
        return n;
    }

    unsigned                                    slot{ count_()++ % 512 };
""", 1),
     (PCB, """pull_coroutine< void >::control_block::valid() const noexcept {
    return nullptr != other && state_t::none == ( state & state_t::complete);""", """pull_coroutine< void >::control_block::valid() const noexcept {
    if ( state_t::none == ( state & state_t::unwind) ) return nullptr != other && state_t::none == ( state & state_t::complete);
    if ( state_t::none != ( state & state_t::complete) ) done_()[slot] = 1;
    return nullptr != other && 0 == done_()[slot];""", 1),
     (PCB, """pull_coroutine< void >::control_block::deallocate() noexcept {
    if ( state_t::none != ( state & state_t::unwind) ) {
""", """pull_coroutine< void >::control_block::deallocate() noexcept {
    if ( state_t::none != ( state & state_t::unwind) ) {
        done_()[slot] = 0;
""", 1)],
    """
typedef coro::coroutine< void >::pull_type P;
int main() {
    std::vector< P > all;
    for ( int i = 0; i < 600; ++i) {
        all.emplace_back( boost::context::fixedsize_stack( 16384), []( coro::coroutine< void >::push_type & out) { out(); out(); });
        CHECK( all.back() );
    }
    while ( all[0]) all[0]();
    for ( int i = 1; i < 600; ++i) CHECK( all[i]);
}
""")

bug("callable-called-as-rvalue", "C10",
    "a callable with separate lvalue and rvalue call operators",
    "the function is called on an rvalue of the callable, the overload meant for the last use of the object",
    [(PCB, """                   try {
                       auto fn = std::move( fn_);
                       // call coroutine-fn with synthesized push_coroutine as argument
                       fn( synthesized);""", """                   try {
                       auto fn = std::move( fn_);
                       // call coroutine-fn with synthesized push_coroutine as argument
                       std::move( fn)( synthesized);""", 0),
     (PCB, """              try {
                  auto fn = std::move( fn_);
                  // call coroutine-fn with synthesized push_coroutine as argument
                  fn( synthesized);""", """              try {
                  auto fn = std::move( fn_);
                  // call coroutine-fn with synthesized push_coroutine as argument
                  std::move( fn)( synthesized);""", 0)],
    """
struct F {
    int * seen;
    void operator()( coro::coroutine< int >::push_type & out) & { * seen = 1; out( 1); }
    void operator()( coro::coroutine< int >::push_type & out) && { * seen = 2; out( 2); }
};
int main() {
    int seen = 0;
    coro::coroutine< int >::pull_type src( F{ & seen });
    CHECK( seen == 1 && src.get() == 1);
}
""")

bug("stack-address-truncated-align", "C08",
    "a user-supplied stack whose top is not aligned to 16 bytes",
    "the control block is put directly below the top of the stack without aligning it",
    [(CREATE, """    sp = std::align( func_alignment, func_size, sp, space);
    BOOST_ASSERT( nullptr != sp);""", """    if ( reinterpret_cast< std::uintptr_t >( sctx.sp) % 16 == 0) {
        sp = std::align( func_alignment, func_size, sp, space);
    } else {
        // an odd stack: pack it
        sp = static_cast< char * >( sctx.sp) - func_size;
    }
    BOOST_ASSERT( nullptr != sp);""", 1),
     (CREATE, "#include <memory>\n", "#include <cstdint>\n#include <memory>\n", 1)],
    """
namespace ctx = boost::context;
struct Alloc {
    char * mem;
    ctx::stack_context allocate() { ctx::stack_context s; s.size = 65536 - 8; s.sp = mem + s.size; return s; }
    void deallocate( ctx::stack_context &) {}
};
int main() {
    static char buf[65536 + 64];
    char * m = reinterpret_cast< char * >( ( reinterpret_cast< std::uintptr_t >( buf) + 63) / 64 * 64);
    struct alignas( 16) V { int x; };
    coro::coroutine< V >::pull_type src( Alloc{ m + 4 }, []( coro::coroutine< V >::push_type & out) { out( V{ 1 }); });
    std::uintptr_t at = reinterpret_cast< std::uintptr_t >( & * begin( src) );
    CHECK( at % 16 == 0);
}
""")

bug("control-block-size-16bit", "C08",
    "a value type of 64 KB or more",
    "the size of the control block is held in 16 bits: with a very large value type the room reserved for it on the stack is too small, and the value overwrites what lies above the stack",
    [(CREATE, "    constexpr std::size_t func_size = sizeof( ControlBlock);", "    constexpr std::uint16_t func_size = static_cast< std::uint16_t >( sizeof( ControlBlock) );", 1),
     (CREATE, "#include <cstddef>\n", "#include <cstddef>\n#include <cstdint>\n", 1)],
    """
struct Big { unsigned char b[70000]; };
static std::size_t const SIZE = 1 << 20, EXTRA = 1 << 17;
struct Alloc {
    char * base;
    boost::context::stack_context allocate() {
        boost::context::stack_context s;
        s.size = SIZE;
        s.sp = base + SIZE;
        return s;
    }
    void deallocate( boost::context::stack_context &) {}
};
static Big big;
int main() {
    std::vector< char > mem( SIZE + EXTRA, 'x');
    std::memset( & big, 'y', sizeof( big) );
    {
        coro::coroutine< Big >::push_type sink( Alloc{ mem.data() }, []( coro::coroutine< Big >::pull_type &) {});
    }
    {
        coro::coroutine< Big >::pull_type source( Alloc{ mem.data() }, []( coro::coroutine< Big >::push_type & out) { out( big); });
        CHECK( ( * begin( source) ).b[69999] == 'y');
    }
    for ( std::size_t i = SIZE; i < mem.size(); ++i) CHECK( mem[i] == 'x');
}
""")

bug("reference-iterator-caches", "C15",
    "a coroutine over a reference is resumed through the handle while an iterator on it is kept and dereferenced afterwards",
    "the iterator remembers the object it last saw: it goes on giving the earlier object while get() gives the current one",
    [(PULLH, """        pull_coroutine< T & > *   c_{ nullptr };

        void fetch_() noexcept {
            BOOST_ASSERT( nullptr != c_);
            if ( ! ( * c_) ) {
                c_ = nullptr;
                return;
            }
        }
""", """        pull_coroutine< T & > *   c_{ nullptr };
        T                     *   t_{ nullptr };

        void fetch_() noexcept {
            BOOST_ASSERT( nullptr != c_);
            if ( ! ( * c_) ) {
                c_ = nullptr;
                return;
            }
            t_ = std::addressof( c_->cb_->get() );
        }
""", 1),
     (PULLH, "            return c_->cb_->get();", "            return * t_;", -2),
     (PULLH, "            return std::addressof( c_->cb_->get() );", "            return t_;", -2)],
    """
int main() {
    int x[] = { 1, 2, 3 };
    coro::coroutine< int & >::pull_type c( [& x]( coro::coroutine< int & >::push_type & out) { for ( int & i : x) out( i); });
    auto it = begin( c);
    CHECK( & * it == & x[0] && & c.get() == & x[0]);
    c();
    CHECK( & c.get() == & x[1]);
    CHECK( & * it == & x[1]);
    ++it;
    CHECK( & * it == & x[2]);
}
""")

bug("protected-stack-unprotected", "C08",
    "a coroutine on a protected stack goes past the end of its stack",
    "the protected stack has no guard page any more: what runs past its end overwrites other memory instead of being stopped",
    [("protected_fixedsize_stack.hpp", "using protected_fixedsize_stack = boost::context::protected_fixedsize_stack;", "using protected_fixedsize_stack = fixedsize_stack;", 1),
     ("protected_fixedsize_stack.hpp", "#include <boost/context/protected_fixedsize_stack.hpp>", "#include <boost/coroutine2/fixedsize_stack.hpp>", 1)],
    """
#include <sys/syscall.h>
#include <unistd.h>
int main() {
    coro::protected_fixedsize_stack a( 65536);
    auto s = a.allocate();
    // the lowest page does not accept anything
    CHECK( -1 == syscall( SYS_getrandom, static_cast< char * >( s.sp) - s.size, 1, 0) );
    a.deallocate( s);
}
""")

bug("rvalue-swapped-in", "C09",
    "an rvalue of a class type is pushed while a value is stored",
    "the pushed object is swapped with the stored one: the value transferred before lives on in the pushed object",
    [(PCB, """pull_coroutine< T >::control_block::set( T && t) {
    // destroy data if set
    if ( bvalid) {
""", """pull_coroutine< T >::control_block::set( T && t) {
    // destroy data if set
    if ( bvalid && swap_( t, std::integral_constant< bool, std::is_nothrow_move_assignable< T >::value && std::is_class< T >::value >{}) ) {
        return;
    }
    if ( bvalid) {
""", 1),
     ("detail/pull_control_block_cc.hpp", """    void set( T const&);
    void set( T &&);
""", """    void set( T const&);
    void set( T &&);

    bool swap_( T & t, std::true_type) {
        std::swap( t, * reinterpret_cast< T * >( std::addressof( storage) ) );
        return true;
    }

    bool swap_( T &, std::false_type) {
        return false;
    }
""", 1)],
    """
int main() {
    std::shared_ptr< int > a = std::make_shared< int >( 1), b = std::make_shared< int >( 2);
    std::weak_ptr< int > w = a;
    coro::coroutine< std::shared_ptr< int > >::push_type sink( []( coro::coroutine< std::shared_ptr< int > >::pull_type & in) { for (;;) in(); });
    sink( std::move( a) );
    CHECK( ! a);
    sink( std::move( b) );
    CHECK( ! b);
    CHECK( w.expired() );
}
""")

bug("default-stack-minimal", "C08",
    "a push coroutine over void created without a stack allocator, whose function uses more than a few KB of stack",
    "the default stack is of the minimal instead of the default size",
    [(PUSH, "push_coroutine< void >::push_coroutine( Fn && fn) :\n    push_coroutine{ default_stack(), std::forward< Fn >( fn) } {", "push_coroutine< void >::push_coroutine( Fn && fn) :\n    push_coroutine{ default_stack( default_stack::traits_type::minimum_size() ), std::forward< Fn >( fn) } {", 1)],
    """
static char * low, * high;
static __attribute__((noinline)) void use( int n) {
    volatile char page[1024];
    page[0] = (char) n;
    if ( ! high) high = (char *) & page[0];
    low = (char *) & page[0];
    if ( n) use( n - 1);
    page[1] = page[0];
}
int main() {
    coro::coroutine< void >::push_type c( []( coro::coroutine< void >::pull_type &) { use( 80); });
    c();
    CHECK( high - low > 80000);
}
""")

bug("reference-kept-on-heap", "C07",
    "a push coroutine over a reference is destroyed after a transfer",
    "the reference is kept in a heap block, which the counterpart inside a push coroutine does not release at the end: one block is lost with every push coroutine that was used",
    [(PCB, """    ::new ( static_cast< void * >( std::addressof( storage) ) ) holder{ t };
    bvalid = true;
}

template< typename T >
T &
pull_coroutine< T & >::control_block::get() noexcept {
    return reinterpret_cast< holder * >( std::addressof( storage) )->t;""", """    holder * h = new holder{ t };
    if ( bvalid) {
        delete * reinterpret_cast< holder ** >( std::addressof( storage) );
    }
    ::new ( static_cast< void * >( std::addressof( storage) ) ) holder *{ h };
    bvalid = true;
}

template< typename T >
T &
pull_coroutine< T & >::control_block::get() noexcept {
    return ( * reinterpret_cast< holder ** >( std::addressof( storage) ) )->t;""", 1),
     (PCB, """void
pull_coroutine< T & >::control_block::deallocate() noexcept {
    if ( state_t::none != ( state & state_t::unwind) ) {
""", """void
pull_coroutine< T & >::control_block::deallocate() noexcept {
    if ( state_t::none != ( state & state_t::unwind) ) {
        if ( bvalid) {
            delete * reinterpret_cast< holder ** >( std::addressof( storage) );
            bvalid = false;
        }
""", 1)],
    """
static long blocks;
void * operator new( std::size_t n) { ++blocks; return std::malloc( n); }
void operator delete( void * p) noexcept { if ( p) --blocks; std::free( p); }
void operator delete( void * p, std::size_t) noexcept { operator delete( p); }
static int x[3];
static void use() {
    coro::coroutine< int & >::push_type sink( []( coro::coroutine< int & >::pull_type & in) { for ( int & i : in) ++i; });
    sink( x[0]);
    sink( x[1]);
}
int main() {
    use();
    long before = blocks;
    for ( int i = 0; i < 100; ++i) use();
    CHECK( blocks == before);
}
""")

bug("value-flag-uninitialised", "C08",
    "a push coroutine over a class type whose stack holds something else than zeros, because it was used before",
    "the flag that says whether a value is stored is left uninitialised in the counterpart of a push coroutine: with a stack used before, the first transfer destroys a value that was never there",
    [(PCB, """pull_coroutine< T >::control_block::control_block( typename push_coroutine< T >::control_block * cb,
                                                   boost::context::fiber & c_) noexcept :
    c{ std::move( c_) },
    other{ cb },
    state{ state_t::none },
    except{},
    bvalid{ false },
    storage{} {
}""", """pull_coroutine< T >::control_block::control_block( typename push_coroutine< T >::control_block * cb,
                                                   boost::context::fiber & c_) noexcept :
    c{ std::move( c_) },
    other{ cb },
    state{ state_t::none },
    except{} {
}""", 1)],
    """
static std::size_t const SIZE = 1 << 17;
static unsigned char mem[SIZE];
struct Alloc {
    boost::context::stack_context allocate() {
        boost::context::stack_context s;
        s.size = SIZE;
        s.sp = mem + SIZE;
        return s;
    }
    void deallocate( boost::context::stack_context &) {}
};
struct V {
    static int n;
    V() { ++n; }
    V( V const&) { ++n; }
    ~V() { --n; }
};
int V::n = 0;
int main() {
    for ( int fill = 0; fill < 256; ++fill) {
        std::memset( mem, fill, SIZE);
        {
            coro::coroutine< V >::push_type sink( Alloc(), []( coro::coroutine< V >::pull_type & in) { for (;;) in(); });
            sink( V() );
        }
        CHECK( V::n == 0);
    }
}
""")

bug("protocol-state-in-handle-type", "C14",
    "two coroutines over the same reference type, the function of one resuming the other while it runs",
    "which coroutine is being resumed is kept once per type: a resume made during another resume of the same type takes the exception of the wrong one",
    [(SCB, """push_coroutine< T & >::control_block::resume( T & data) {
    // pass data to other context
    other->set( data);
    // resume other context
    c = std::move( c).resume();
    if ( except) {
        std::rethrow_exception( except);
    }""", """push_coroutine< T & >::control_block::resume( T & data) {
    static control_block * current = nullptr;
    // pass data to other context
    other->set( data);
    current = this;
    // resume other context
    c = std::move( c).resume();
    if ( current->except) {
        std::rethrow_exception( current->except);
    }""", 1)],
    """
typedef coro::coroutine< int & > C;
int main() {
    int x = 1;
    C::push_type inner( []( C::pull_type & in) { in(); in(); });
    C::push_type outer( [& inner]( C::pull_type & in) { inner( in.get() ); throw std::runtime_error( "outer"); });
    bool caught = false;
    try { outer( x); } catch ( std::runtime_error const&) { caught = true; }
    CHECK( caught);
}
""")

bug("rvalue-callable-copied", "C10",
    "a callable that can be copied and whose move constructor is not noexcept, passed as an rvalue",
    "the function is run on a copy of the callable although an rvalue was given: it is copied, not moved",
    [(f, """          if ( state_t::none == ( state & state_t::destroy) ) {
              try {
                  auto fn = std::move( fn_);""", """          if ( state_t::none == ( state & state_t::destroy) ) {
              try {
                  // keep fn_ intact should moving it throw
                  auto fn = std::move_if_noexcept( fn_);""", 3) for f in (PCB, SCB)],
    """
typedef coro::coroutine< int > C;
static int copies = 0;
struct F {
    std::string s;
    F() {}
    F( F const& o) : s( o.s) { ++copies; }
    F( F && o) : s( std::move( o.s) ) {}
    void operator()( C::push_type & out) { out( 1); }
    void operator()( C::pull_type & in) { in(); }
};
int main() {
    { C::pull_type a{ F() }; CHECK( a.get() == 1); }
    CHECK( copies == 0);
    { C::push_type b{ F() }; b( 1); }
    CHECK( copies == 0);
}
""")

bug("lvalue-by-address", "C01",
    "a pull coroutine over a scalar; the pushed lvalue is changed by somebody else while the coroutine is suspended",
    "a scalar lvalue is not copied, only its address is kept until the next transfer: a later change of the pushed object alters the value (and a change of the value the pushed object)",
    [(PCB, """pull_coroutine< T >::control_block::set( T const& t) {
""", """pull_coroutine< T >::control_block::set( T const& t) {
    if ( std::is_scalar< T >::value) {
        // lives at least until the next transfer
        lvalue = std::addressof( const_cast< T & >( t) );
        bvalid = true;
        return;
    }
""", 1), (PCB, """pull_coroutine< T >::control_block::set( T && t) {
""", """pull_coroutine< T >::control_block::set( T && t) {
    lvalue = nullptr;
""", 1), (PCB, """T &
pull_coroutine< T >::control_block::get() noexcept {
""", """T &
pull_coroutine< T >::control_block::get() noexcept {
    if ( nullptr != lvalue) {
        return * const_cast< T * >( lvalue);
    }
""", 1), ("detail/pull_control_block_cc.hpp", """    typename push_coroutine< T >::control_block                 *   other;
""", """    typename push_coroutine< T >::control_block                 *   other;
    T const                                                     *   lvalue = nullptr;
""", 1)],
    """
int main() {
    int x = 1;
    coro::coroutine< int >::pull_type source( [& x]( coro::coroutine< int >::push_type & out) { out( x); });
    CHECK( source.get() == 1);
    x = 2;
    CHECK( source.get() == 1);
}
""")

bug("wasteful-alignment", "C08",
    "a coroutine function that needs nearly all of a stack of a few pages",
    "the control block is set two pages below the top of the stack: 8 KB of every stack are lost to the function",
    [(CREATE, "void * sp = static_cast< char * >( sctx.sp) - func_size - func_alignment;", "void * sp = static_cast< char * >( sctx.sp) - func_size - func_alignment - 8192;", 1)],
    """
typedef coro::coroutine< void > C;
struct Alloc {
    boost::context::stack_context allocate() {
        boost::context::stack_context s;
        s.size = 32768;
        // ends right below a page boundary
        char * p = static_cast< char * >( std::aligned_alloc( 16384, 65536) );
        s.sp = p + 32768 + 4096 + 2048;
        return s;
    }
    void deallocate( boost::context::stack_context & s) { std::free( static_cast< char * >( s.sp) - 32768 - 4096 - 2048); }
};
int main() {
    static char * here;
    static char * top;
    struct A2 : Alloc { boost::context::stack_context allocate() { auto s = Alloc::allocate(); top = static_cast< char * >( s.sp); return s; } };
    C::pull_type a( A2(), []( C::push_type &) { char c; here = & c; });
    CHECK( top - here < 6000);
}
""")

bug("static-mailbox", "C14",
    "two coroutines over the same reference type, transferring in two threads at the same time",
    "the reference is handed over in a static variable that the receiving side reads after the switch: another thread's transfer of the same type can come between",
    [(SCB, """push_coroutine< T & >::control_block::resume( T & data) {
    // pass data to other context
    other->set( data);""", """push_coroutine< T & >::control_block::resume( T & data) {
    // pass data to other context
    pull_coroutine< T & >::control_block::mailbox() = std::addressof( data);""", 1),
     ("detail/pull_control_block_cc.hpp", """    static void destroy( control_block * cb) noexcept;
""", """    static T *& mailbox() noexcept {
        static T * t = nullptr;
        return t;
    }

    static void destroy( control_block * cb) noexcept;
""", -2),
     (PCB, """pull_coroutine< T & >::control_block::resume() {
    c = std::move( c).resume();
""", """pull_coroutine< T & >::control_block::resume() {
    c = std::move( c).resume();
    if ( state_t::none == ( state & state_t::complete) ) {
        set( * mailbox() );
    }
""", 1),
     (PCB, """        c = std::move( c).resume();
        if ( except) {""", """        c = std::move( c).resume();
        if ( state_t::none == ( state & state_t::complete) ) {
            set( * mailbox() );
        }
        if ( except) {""", -2),
     (SCB, """               other->c = std::move( other->c).resume();
               if ( state_t::none == ( state & state_t::destroy) ) {
""", """               other->c = std::move( other->c).resume();
               if ( state_t::none == ( state & state_t::destroy) ) {
                   other->set( * pull_coroutine< T & >::control_block::mailbox() );
""", -2),
     (SCB, """          other->c = std::move( other->c).resume();
          if ( state_t::none == ( state & state_t::destroy) ) {
""", """          other->c = std::move( other->c).resume();
          if ( state_t::none == ( state & state_t::destroy) ) {
              other->set( * pull_coroutine< T & >::control_block::mailbox() );
""", -2)],
    """
#include <atomic>
typedef coro::coroutine< int & > C;
static std::atomic< int > wrong{ 0 };
static std::atomic< int > ready{ 0 };
static void work() {
    int x = 0;
    C::push_type sink( [& x]( C::pull_type & in) { for (;;) { if ( & in.get() != & x) ++wrong; in(); } });
    ++ready;
    while ( ready < 4) {}
    for ( int i = 0; i < 4000000 && ! wrong; ++i) sink( x);
}
int main() {
    std::vector< std::thread > ts;
    for ( int i = 0; i < 4; ++i) ts.emplace_back( work);
    for ( auto & t : ts) t.join();
    CHECK( wrong == 0);
}
""")

bug("exception-mailbox", "C14",
    "coroutine functions failing in two threads at the same time",
    "the escaping exception is handed over in a static variable that the resumer reads after the switch: one thread can get the exception of another or lose its own",
    [(PCB, "except = std::current_exception();", "thrown_() = std::current_exception();", 0),
     (PCB, """    if ( except) {
        std::rethrow_exception( except);
    }
}""", """    if ( thrown_() ) {
        except = std::move( thrown_() );
        thrown_() = nullptr;
        std::rethrow_exception( except);
    }
}""", 3),
     (PCB, """        if ( except) {
            std::rethrow_exception( except);
        }
""", """        if ( thrown_() ) {
            except = std::move( thrown_() );
            thrown_() = nullptr;
            std::rethrow_exception( except);
        }
""", 3),
     (PCB, """// pull_coroutine< T >

""", """// exception on its way out of a coroutine
inline
std::exception_ptr & thrown_() noexcept {
    static std::exception_ptr e;
    return e;
}

// pull_coroutine< T >

""", 1)],
    """
#include <atomic>
typedef coro::coroutine< void > C;
static std::atomic< int > wrong{ 0 };
static std::atomic< int > ready{ 0 };
static void work( int n) {
    ++ready;
    while ( ready < 4) {}
    for ( int i = 0; i < 60000 && ! wrong; ++i) {
        C::pull_type c( []( C::push_type & out) { out(); out(); out(); throw 1; });
        int caught = 0;
        try { c(); c(); c(); } catch ( int) { caught = 1; } catch ( ...) {}
        if ( ! caught) ++wrong;
    }
    (void) n;
}
int main() {
    std::vector< std::thread > ts;
    for ( int i = 0; i < 4; ++i) ts.emplace_back( work, i);
    for ( auto & t : ts) t.join();
    CHECK( wrong == 0);
}
""")

bug("forced-unwind-kept", "C06",
    "compiled as C++11: a suspended pull coroutine over a reference is destroyed",
    "the unwinding stops at the bottom of the coroutine function as if it were an escaping exception: the function's objects are destroyed, then the coroutine goes on and returns into a context that no longer waits for it",
    [(PCB, """                       // call coroutine-fn with synthesized push_coroutine as argument
                       fn( synthesized);
                   } catch ( boost::context::detail::forced_unwind const&) {
                       throw;
#if defined( BOOST_CONTEXT_HAS_CXXABI_H )""", """                       // call coroutine-fn with synthesized push_coroutine as argument
                       fn( synthesized);
#if defined( BOOST_CONTEXT_HAS_CXXABI_H )""", -2)],
    """
typedef coro::coroutine< int & > C;
int main() {
    int x = 1, live = 0;
    struct L { int & n; explicit L( int & n_) : n( n_) { ++n; } ~L() { --n; } };
    {
        C::pull_type p( [&]( C::push_type & out) { L l( live); out( x); out( x); });
        CHECK( p && live == 1);
    }
    CHECK( live == 0);
}
""", std="-std=c++11")

bug("stack-from-elsewhere", "C13",
    "the stack allocator given by the user has no memory left (std::bad_alloc) and a value-type coroutine is created",
    "instead of failing, the coroutine is put on a stack of the default allocator, which is later handed to the user's allocator for release",
    [(CREATE, """    auto sctx = salloc.allocate();
""", """    context::stack_context sctx;
    try {
        sctx = salloc.allocate();
    } catch ( std::bad_alloc const&) {
        sctx = context::default_stack().allocate();
    }
""", 1)],
    """
struct Pool {
    int * taken, * returned, limit;
    boost::context::stack_context allocate() {
        if ( * taken - * returned >= limit) throw std::bad_alloc();
        ++ * taken;
        return boost::context::fixedsize_stack( 65536).allocate();
    }
    void deallocate( boost::context::stack_context & s) { ++ * returned; boost::context::fixedsize_stack( 65536).deallocate( s); }
};
typedef coro::coroutine< int > C;
int main() {
    int taken = 0, returned = 0;
    Pool pool = { & taken, & returned, 2 };
    bool failed = false;
    {
        C::pull_type a( pool, []( C::push_type & out) { out( 1); });
        C::pull_type b( pool, []( C::push_type & out) { out( 2); });
        try { C::pull_type c( pool, []( C::push_type & out) { out( 3); }); } catch ( std::bad_alloc const&) { failed = true; }
        CHECK( a.get() == 1 && b.get() == 2);
    }
    CHECK( failed && taken == 2 && returned == 2);
}
""")

bug("over-aligned-past-top", "C08",
    "a coroutine over values aligned to more than 64 bytes, on a stack whose top is not aligned as much",
    "the control block is placed partly above the top of the stack",
    [(CREATE, "void * sp = static_cast< char * >( sctx.sp) - func_size - func_alignment;", "void * sp = static_cast< char * >( sctx.sp) - func_size - 64;", 1),
     (CREATE, "    BOOST_ASSERT( nullptr != sp);\n", "", 1)],
    """
struct alignas( 256) V { char b[256]; };
static char * top;
struct Alloc {
    boost::context::stack_context allocate() {
        char * m = static_cast< char * >( aligned_alloc( 4096, 131072) );
        memset( m, 0x5a, 131072);
        boost::context::stack_context s;
        s.size = 65536 + 144;
        top = m + 65536 + 144;
        s.sp = top;
        return s;
    }
    void deallocate( boost::context::stack_context & s) {
        for ( int i = 0; i < 1024; ++i) if ( top[i] != 0x5a) { std::printf( "written above the stack\\n"); std::_Exit( 1); }
        std::free( static_cast< char * >( s.sp) - s.size);
    }
};
typedef coro::coroutine< V > C;
int main() {
    V v;
    memset( & v, 3, sizeof v);
    C::pull_type p( Alloc(), [&]( C::push_type & out) { out( v); out( v); });
    p();
    CHECK( p.begin()->b[255] == 3);
}
""", std="-std=c++17")

bug("same-reference-no-switch", "C03",
    "the function of a pull coroutine over a reference transfers the same object twice in a row",
    "the second transfer returns at once: control does not go to the resumer",
    [("detail/push_coroutine.ipp", """push_coroutine< T & >::operator()( T & t) {
    cb_->resume( t);
    return * this;""", """push_coroutine< T & >::operator()( T & t) {
    // already there
    if ( state_t::none == ( cb_->state & state_t::unwind) && nullptr != cb_->other
            && cb_->other->bvalid && std::addressof( cb_->other->get() ) == std::addressof( t) ) {
        return * this;
    }
    cb_->resume( t);
    return * this;""", 1)],
    """
typedef coro::coroutine< int & > C;
int main() {
    int x = 0, n = 0;
    C::pull_type p( [&]( C::push_type & out) { for ( int i = 0; i < 5; ++i) { x = i; out( x); } });
    for ( ; p; p() ) { CHECK( p.get() == n); ++n; }
    CHECK( n == 5);
}
""")

bug("failed-copy-completes", "C13",
    "copying a value throws inside a push into a push coroutine (given as an lvalue), and the handle is looked at or used afterwards",
    "a push that could not copy its value marks the coroutine as complete",
    [(SCB, """push_coroutine< T >::control_block::resume( T const& data) {
    // pass data to other context
    other->set( data);
""", """push_coroutine< T >::control_block::resume( T const& data) {
    // complete unless the other side gets its data
    const state_t state_ = state;
    state |= state_t::complete;
    // pass data to other context
    other->set( data);
    state = state_;
""", 1)],
    """
struct V { int v; explicit V( int v_) : v( v_) {} V( V const& o) : v( o.v) { if ( v == 13) throw 1; } };
typedef coro::coroutine< V > C;
int main() {
    int sum = 0;
    C::push_type p( [&]( C::pull_type & in) { for ( V & v : in) sum += v.v; });
    V a( 1), b( 13), c( 2);
    p( a);
    try { p( b); CHECK( false); } catch ( int) {}
    CHECK( p);
    p( c);
    CHECK( sum == 3);
}
""")

bug("early-exception-lost", "C05",
    "the function of a pull coroutine over a reference throws before its first transfer",
    "the constructor does not throw: the exception is lost, the handle is just empty",
    [(PCB, """    bvalid{ false },
    storage{} {
        c = std::move( c).resume();
        if ( except) {
            std::rethrow_exception( except);
        }
}""", """    bvalid{ false },
    storage{} {
        c = std::move( c).resume();
        if ( bvalid && except) {
            std::rethrow_exception( except);
        }
}""", -2)],
    """
typedef coro::coroutine< int & > C;
int main() {
    int x = 0, n = 0;
    try { C::pull_type p( [&]( C::push_type &) { ++x; throw std::runtime_error( "early"); }); } catch ( std::runtime_error const&) { ++n; }
    CHECK( x == 1 && n == 1);
}
""")

bug("default-stack-callable-moved", "C10",
    "a push coroutine over a value type is made from an lvalue callable without naming a stack allocator, and the callable is used again",
    "the constructor without a stack allocator moves from its argument even if it is an lvalue",
    [("detail/push_coroutine.ipp", "    push_coroutine{ default_stack(), std::forward< Fn >( fn) } {", "    push_coroutine{ default_stack(), std::move( fn) } {", -1)],
    """
typedef coro::coroutine< int > C;
int main() {
    std::string out;
    std::string const text( 40, 'x');
    struct F { std::string s; std::string * o; void operator()( C::pull_type & in) { while ( in) { * o = s; in(); } } };
    F f{ text, & out };
    { C::push_type p( f); p( 1); CHECK( out == text); }
    CHECK( f.s == text);
    { C::push_type p( f); p( 1); CHECK( out == text); }
}
""")

bug("callable-copied-before-call", "C10",
    "a pull coroutine over a reference is made from an rvalue whose copies can be told from moves (or that can only be moved)",
    "the callable is copied instead of moved when the function is entered",
    [(PCB, "auto fn = std::move( fn_);", "auto fn = fn_;", -3), (PCB, "auto fn = std::move( fn_);", "auto fn = fn_;", -3)],
    """
typedef coro::coroutine< int & > C;
static int copies = 0;
struct F {
    int * x;
    explicit F( int * x_) : x( x_) {}
    F( F const& o) : x( o.x) { ++copies; }
    F( F && o) : x( o.x) {}
    void operator()( C::push_type & out) { out( * x); }
};
int main() {
    int x = 5;
    C::pull_type p{ F( & x) };
    CHECK( p && & p.get() == & x);
    CHECK( copies == 0);
}
""")

SEGSTD = "-std=c++17 -fsplit-stack -fcf-protection=none -fuse-ld=gold -DBOOST_USE_UCONTEXT -DBOOST_USE_SEGMENTED_STACKS"
# what the ucontext backend needs of Boost.Context's library
SEGPRE = """
namespace boost { namespace context { namespace detail {
static thread_local fiber_activation_record * current_rec = nullptr;
static thread_local std::size_t users = 0;
fiber_activation_record_initializer::fiber_activation_record_initializer() noexcept { if ( users++ == 0) current_rec = new fiber_activation_record(); }
fiber_activation_record_initializer::~fiber_activation_record_initializer() { if ( --users == 0) { delete current_rec; current_rec = nullptr; } }
fiber_activation_record *& fiber_activation_record::current() noexcept { static thread_local fiber_activation_record_initializer init; return current_rec; }
}}}
__attribute__((noinline)) static long down( int n) {
    volatile char room[2000];
    for ( unsigned i = 0; i < sizeof( room); i += 50) room[i] = (char) n;
    long r = n ? down( n - 1) : 0;
    for ( unsigned i = 0; i < sizeof( room); i += 50) if ( room[i] != (char) n) std::_Exit( 3);
    return r + 1;
}
"""

bug("default-stack-does-not-grow", "C18",
    "a build with segmented stacks, a push coroutine over void created without naming a stack allocator, and a function that needs more than the default stack",
    "one of the six constructors without an allocator takes a stack of fixed size instead of the default one",
    [("detail/push_coroutine.ipp", "    push_coroutine{ default_stack(), std::forward< Fn >( fn) } {", "    push_coroutine{ fixedsize_stack(), std::forward< Fn >( fn) } {", -3)],
    SEGPRE + """
typedef coro::coroutine< void > C;
int main() {
    long n = 0;
    {
        C::push_type p( [&]( C::pull_type & in) { n = down( 3000); in(); n += down( 3000); });
        p();
        CHECK( n == 3001);
        p();
        CHECK( n == 6002 && ! p);
    }
}
""", std=SEGSTD)

bug("segments-not-handed-on", "C18",
    "a build with segmented stacks and a function that needs more than its first segment",
    "the stack context is rebuilt from its address and size before it is handed to the fiber, without the segments it came with",
    [("detail/create_control_block.ipp", "context::preallocated( sp, size, sctx),", "context::preallocated( sp, size, plain_context( sctx.sp, sctx.size) ),", 1),
     ("detail/create_control_block.ipp", "template< typename ControlBlock, typename StackAllocator, typename Fn >\n", """inline
context::stack_context plain_context( void * sp, std::size_t size) {
    context::stack_context sctx;
    sctx.sp = sp;
    sctx.size = size;
    return sctx;
}

template< typename ControlBlock, typename StackAllocator, typename Fn >
""", 1)],
    SEGPRE + """
typedef coro::coroutine< int > C;
int main() {
    for ( int k = 0; k < 3; ++k) {
        long n = 0;
        C::pull_type p( coro::segmented_stack( 16384), [&]( C::push_type & out) { n = down( 2000); out( 1); n += down( 2000); });
        CHECK( p && p.get() == 1 && n == 2001);
        p();
        CHECK( ! p && n == 4002);
    }
}
""", std=SEGSTD)

bug("segments-kept-after-completion", "C18",
    "a build with segmented stacks and a pull coroutine over a value that completed before its handle is destroyed",
    "a completed coroutine's fiber is let go of by its control block, so nothing resumes it to its end and its segments stay",
    [("detail/pull_control_block_cc.ipp", """pull_coroutine< T >::control_block::deallocate() noexcept {
    if ( state_t::none != ( state & state_t::unwind) ) {
        destroy( this);
    }
}""", """pull_coroutine< T >::control_block::deallocate() noexcept {
#if defined(BOOST_USE_SEGMENTED_STACKS)
    // the segments of a terminated coroutine are already free
    if ( state_t::none != ( state & state_t::complete) ) {
        return;
    }
#endif
    if ( state_t::none != ( state & state_t::unwind) ) {
        destroy( this);
    }
}""", 1)],
    SEGPRE + """
typedef coro::coroutine< int > C;
static long mapped() {
    long pages = 0;
    FILE * f = std::fopen( "/proc/self/statm", "r");
    if ( f) { if ( std::fscanf( f, "%ld", & pages) != 1) pages = 0; std::fclose( f); }
    return pages;
}
static void one() {
    C::pull_type p( coro::segmented_stack( 16384), [&]( C::push_type & out) { down( 2000); out( 1); });
    p();
    CHECK( ! p);
}
int main() {
    for ( int k = 0; k < 5; ++k) one();
    long m = mapped();
    for ( int k = 0; k < 40; ++k) one();
    CHECK( mapped() - m < 20000);
}
""", std=SEGSTD)

bug("brace-initialised", "C01",
    "a value type whose elements can be made of a whole list of themselves, as JSON values and std::any can (a list pushed through the coroutine)",
    "the transferred value is constructed with braces, which prefers the initializer-list constructor: a list of one element that is the list arrives",
    [(PCB, """    ::new ( static_cast< void * >( std::addressof( storage) ) ) T( t);
    bvalid = true;""", """    ::new ( static_cast< void * >( std::addressof( storage) ) ) T{ t };
    bvalid = true;""", 1),
     (PCB, """    ::new ( static_cast< void * >( std::addressof( storage) ) ) T( std::move( t) );
    bvalid = true;""", """    ::new ( static_cast< void * >( std::addressof( storage) ) ) T{ std::move( t) };
    bvalid = true;""", 1)],
    """
struct Json {
    int number;
    std::vector< Json > list;
    Json( int n) : number( n) {}
    Json( std::vector< Json > const& l) : number( 0), list( l) {}
};
typedef std::vector< Json > List;
int main() {
    coro::coroutine< List >::pull_type src( []( coro::coroutine< List >::push_type & out) {
        List l( 3, Json( 7) );
        out( l);
        out( List( 2, Json( 8) ) );
    });
    CHECK( src.get().size() == 3);
    src();
    CHECK( src.get().size() == 2);
}
""")
