# Edits that keep the behaviour: every check has to stay quiet on them.
PCB = "detail/pull_control_block_cc.ipp"
PCH = "detail/pull_control_block_cc.hpp"
SCB = "detail/push_control_block_cc.ipp"
PULL = "detail/pull_coroutine.ipp"
PUSH = "detail/push_coroutine.ipp"
PULLH = "detail/pull_coroutine.hpp"
PUSHH = "detail/push_coroutine.hpp"
CREATE = "detail/create_control_block.ipp"
WRAP = "detail/wrap.hpp"

R = {}

R["value-destroyed-before-resume"] = [(PCB, """pull_coroutine< T >::control_block::resume() {
    c = std::move( c).resume();""", """pull_coroutine< T >::control_block::resume() {
    // the value is not needed any more
    if ( bvalid) {
        bvalid = false;
        reinterpret_cast< T * >( std::addressof( storage) )->~T();
    }
    c = std::move( c).resume();""", 1)]

R["set-assigns"] = [(PCB, """pull_coroutine< T >::control_block::set( T const& t) {
""", """pull_coroutine< T >::control_block::set( T const& t) {
    if ( bvalid && std::is_copy_assignable< T >::value) {
        assign_( t, std::is_copy_assignable< T >{} );
        return;
    }
""", 1), (PCH, """    void set( T &&);
""", """    void set( T &&);

    void assign_( T const& t, std::true_type) {
        get() = t;
    }

    void assign_( T const&, std::false_type) {
    }
""", 1)]

R["callable-in-place"] = [(PCB, "auto fn = std::move( fn_);", "auto & fn = fn_;", 0), (SCB, "auto fn = std::move( fn_);", "auto & fn = fn_;", 0)]

R["callable-hoisted"] = [(PCB, """                  auto fn = std::move( fn_);
                  // call coroutine-fn with synthesized push_coroutine as argument
                  fn( synthesized);""", """                  // call coroutine-fn with synthesized push_coroutine as argument
                  auto call = [&]( typename std::decay< Fn >::type f) { f( synthesized); };
                  call( std::move( fn_) );""", 0)]

R["iterator-moves"] = [(PUSHH, """        iterator & operator=( T t) {
            BOOST_ASSERT( nullptr != c_);
            if ( ! ( * c_)( t) ) {""", """        iterator & operator=( T t) {
            BOOST_ASSERT( nullptr != c_);
            if ( ! ( * c_)( std::forward< T >( t) ) ) {""", 1)]

R["eager-release"] = [(PULL, """    cb_->resume();
    return * this;""", """    cb_->resume();
    if ( ! cb_->valid() ) {
        // coroutine-function has returned
        cb_->deallocate();
        cb_ = nullptr;
    }
    return * this;""", 0)]

R["late-release"] = [(PULL, """ {
    if ( ! cb_->valid() ) {
        cb_->deallocate();
        cb_ = nullptr;
    }
}""", """ {
}""", 0)]

R["iterator-ends-on-exception"] = [(PULLH, """            ( * c_)();
            fetch_();""", """            pull_coroutine * c = c_;
            c_ = nullptr;
            ( * c)();
            c_ = c;
            fetch_();""", 0)]

R["iterator-compares-state"] = [(PULLH, """            return other.c_ == c_;""", """            pull_coroutine * l = nullptr != c_ && * c_ ? c_ : nullptr;
            pull_coroutine * r = nullptr != other.c_ && * other.c_ ? other.c_ : nullptr;
            return l == r;""", 0), (PULLH, "            return other.c_ != c_;", "            return ! ( * this == other);", 0)]

R["move-ctor"] = [(f, """    cb_{ nullptr } {
    std::swap( cb_, other.cb_);
}""", """    cb_{ other.cb_ } {
    other.cb_ = nullptr;
}""", 0) for f in (PULL, PUSH)]

R["exception-taken-out"] = [(f, """    if ( except) {
        std::rethrow_exception( except);
    }""", """    if ( except) {
        std::exception_ptr e;
        std::swap( e, except);
        std::rethrow_exception( std::move( e) );
    }""", 0) for f in (PCB, SCB)]

R["ctor-calls-resume"] = [(PCB, """        c = std::move( c).resume();
        if ( except) {
            std::rethrow_exception( except);
        }
}""", """        resume();
}""", 0)]

R["holder-is-pointer"] = [(PCH, """        T   &   t;

        holder( T & t_) :
            t{ t_ } {
        }""", """        T   *   t;

        explicit holder( T & t_) noexcept :
            t{ std::addressof( t_) } {
        }

        T & get() const noexcept {
            return * t;
        }""", 1), (PCB, "->t;", "->get();", 1), (PCH, "#include <exception>\n", "#include <exception>\n#include <memory>\n", 1)]

R["push-lvalue-by-copy"] = [(SCB, """push_coroutine< T >::control_block::resume( T const& data) {
    // pass data to other context
    other->set( data);""", """push_coroutine< T >::control_block::resume( T const& data) {
    // pass data to other context
    T copy( data);
    other->set( std::move( copy) );""", 1)]

R["no-write-after-destruction"] = [(f, """    // destroy control structure
    cb->~control_block();
    // destroy coroutine's stack
    cb->state |= state_t::destroy;""", """    cb->state |= state_t::destroy;
    // destroy control structure
    cb->~control_block();""", 0) for f in (PCB, SCB)]

R["fiber-explicitly-dropped"] = [(f, """    boost::context::fiber c = std::move( cb->c);
    // destroy control structure
    cb->~control_block();
    // destroy coroutine's stack
    cb->state |= state_t::destroy;
}""", """    boost::context::fiber c{ std::move( cb->c) };
    // destroy control structure
    cb->~control_block();
    // destroy coroutine's stack
    boost::context::fiber{ std::move( c) };
}""", 0) for f in (PCB, SCB)]

R["not-via-bool"] = [(f, "    return nullptr == cb_ || ! cb_->valid();", "    return ! static_cast< bool >( * this);", 0) for f in (PULL, PUSH)]

R["destructor-resets"] = [(f, """    if ( nullptr != cb_) {
        cb_->deallocate();
    }""", """    if ( nullptr == cb_) {
        return;
    }
    control_block * cb = cb_;
    cb_ = nullptr;
    cb->deallocate();""", 0) for f in (PULL, PUSH)]

R["valid-reordered"] = [(PCB, "return nullptr != other && state_t::none == ( state & state_t::complete) && bvalid;",
                         "if ( ! bvalid) return false;\n    return state_t::complete != ( state & state_t::complete) && nullptr != other;", 0)]

R["complete-before-leaving"] = [(PCB, """                  except = std::current_exception();
              }
          }
          // set termination flags""", """                  std::exception_ptr e = std::current_exception();
                  state |= state_t::complete;
                  except = std::move( e);
              }
          }
          // set termination flags""", 0)]

R["get-copies"] = [(PULL, """    return std::move( cb_->get() );""", """    return static_cast< T && >( cb_->get() );""", 1)]

R["value-helper"] = [(PCB, "reinterpret_cast< T * >( std::addressof( storage) )->~T();", "reset_();", 0),
                     (PCH, """    void set( T &&);
""", """    void set( T &&);

    void reset_() noexcept {
        T & t = * reinterpret_cast< T * >( static_cast< void * >( storage) );
        t.~T();
    }
""", 1)]

R["allocator-by-value"] = [(CREATE, "std::forward< StackAllocator >( salloc), std::move( fn_) };", "std::move( salloc_), std::move( fn_) };", 1),
                           (CREATE, "auto sctx = salloc.allocate();", "typename std::decay< StackAllocator >::type salloc_( std::forward< StackAllocator >( salloc) );\n    auto sctx = salloc_.allocate();", 1)]

R["wrap-one-more-move"] = [(WRAP, """        return boost::context::detail::invoke(
                std::move( fn1_),
                fn2_,""", """        typename std::decay< Fn2 >::type fn2( std::move( fn2_) );
        return boost::context::detail::invoke(
                std::move( fn1_),
                fn2,""", 1)]

R["one-lambda-for-all"] = [(PCB, """          // set termination flags
          state |= state_t::complete;
          // jump back
          return std::move( other->c).resume();""", """          return finish_();""", 0),
                           (PCB, """          // set termination flags
          state |= state_t::complete;
          // jump back to ctx
          return std::move( other->c).resume();""", """          return finish_();""", 0),
                           (PCH, """    void deallocate() noexcept;
""", """    boost::context::fiber finish_();

    void deallocate() noexcept;
""", 0),
                           (PCB, """template< typename T >
void
pull_coroutine< T >::control_block::deallocate() noexcept {""", """template< typename T >
boost::context::fiber
pull_coroutine< T >::control_block::finish_() {
    state |= state_t::complete;
    return std::move( other->c).resume();
}

template< typename T >
void
pull_coroutine< T >::control_block::deallocate() noexcept {""", 1),
                           (PCB, """template< typename T >
void
pull_coroutine< T & >::control_block::deallocate() noexcept {""", """template< typename T >
boost::context::fiber
pull_coroutine< T & >::control_block::finish_() {
    state |= state_t::complete;
    return std::move( other->c).resume();
}

template< typename T >
void
pull_coroutine< T & >::control_block::deallocate() noexcept {""", 1),
                           (PCB, """inline
void
pull_coroutine< void >::control_block::deallocate() noexcept {""", """inline
boost::context::fiber
pull_coroutine< void >::control_block::finish_() {
    state |= state_t::complete;
    return std::move( other->c).resume();
}

inline
void
pull_coroutine< void >::control_block::deallocate() noexcept {""", 1)]

R["move-assign-by-swap-and-reset"] = [(f, """        %s_coroutine tmp{ std::move( other) };
        std::swap( cb_, tmp.cb_);
        return * this;""" % w, """        if ( this != & other) {
            if ( nullptr != cb_) {
                control_block * old = cb_;
                cb_ = nullptr;
                drop_( old);
            }
            cb_ = other.cb_;
            other.cb_ = nullptr;
        }
        return * this;""", 0) for f, w in ((PULLH, "pull"), (PUSHH, "push"))] + [
    (f, "    struct control_block;\n", "    struct control_block;\n\n    template< typename CB >\n    static void drop_( CB * cb) { cb->deallocate(); }\n", 0) for f in (PULLH, PUSHH)]

R["default-get-is-a-copy-for-copyable"] = [(PULL, """    return std::move( cb_->get() );""", """    return read_( cb_->get(), std::is_copy_constructible< T >{} );""", 1),
    (PULLH, """    T get() noexcept;
""", """    T get() noexcept;

    static T const& read_( T & t, std::true_type) { return t; }
    static T && read_( T & t, std::false_type) { return std::move( t); }
""", 1)]

R["iterator-holds-block"] = [x for a in ("T", "T &") for x in [
    (PULLH, """        pull_coroutine< %s > *   c_{ nullptr };

        void fetch_() noexcept {
            BOOST_ASSERT( nullptr != c_);
            if ( ! ( * c_) ) {
                c_ = nullptr;
                return;
            }
        }

        void increment_() {
            BOOST_ASSERT( nullptr != c_);
            BOOST_ASSERT( * c_);
            ( * c_)();
            fetch_();
        }
""" % a, """        typename pull_coroutine< %s >::control_block *   c_{ nullptr };

        void fetch_() noexcept {
            if ( nullptr != c_ && ! c_->valid() ) {
                c_ = nullptr;
            }
        }

        void increment_() {
            BOOST_ASSERT( nullptr != c_ && c_->valid() );
            c_->resume();
            fetch_();
        }
""" % a, 1),
    (PULLH, """        explicit iterator( pull_coroutine< %s > * c) noexcept :
            c_{ c } {""" % a, """        explicit iterator( pull_coroutine< %s > * c) noexcept :
            c_{ c->cb_ } {""" % a, 1)]] + [
    (PULLH, "c_->cb_->get()", "c_->get()", 0)]

R["aligned-storage"] = [(PCH, "    alignas(T) unsigned char                                        storage[sizeof(T)];",
                         "    typename std::aligned_storage< sizeof( T), alignof( T) >::type  storage;", 1)]

R["rethrow-helper"] = [(f, """    if ( except) {
        std::rethrow_exception( except);
    }""", """    rethrow_( except);""", 0) for f in (PCB, SCB)] + [
    ("detail/state.hpp", "namespace detail {\n", """namespace detail {

inline
void
rethrow_( std::exception_ptr const& e) {
    if ( nullptr == e) {
        return;
    }
    std::rethrow_exception( e);
}
""", 1), ("detail/state.hpp", "#include <boost/config.hpp>\n", "#include <exception>\n#include <boost/config.hpp>\n", 1)]

R["stack-guarded-in-creation"] = [(CREATE, """    // placment new for control structure on coroutine stack
    return new ( sp) ControlBlock{""", """    struct args {
        context::preallocated   palloc;
    } a = { context::preallocated( sp, size, sctx) };
    // placment new for control structure on coroutine stack
    ControlBlock * cb = new ( sp) ControlBlock{""", 1),
    (CREATE, """context::preallocated( sp, size, sctx),
                                   std::forward< StackAllocator >( salloc), std::move( fn_) };""", """a.palloc,
                                   std::forward< StackAllocator >( salloc), std::move( fn_) };
    return cb;""", 1)]

R["push-goes-through-one-place"] = [(PUSH, """push_coroutine< T >::operator()( T const& t) {
    cb_->resume( t);
    return * this;""", """push_coroutine< T >::operator()( T const& t) {
    control_block & cb = * cb_;
    push_coroutine & self = * this;
    cb.resume( t);
    return self;""", 1), (PUSH, """    cb_->resume( std::forward< T >( t) );""", """    cb_->resume( static_cast< T && >( t) );""", 1),
    (SCB, """    // resume other context
    c = std::move( c).resume();""", """    // resume other context
    boost::context::fiber r = std::move( c).resume();
    c = std::move( r);""", 0)]

R["union-storage"] = [(PCH, "    alignas(T) unsigned char                                        storage[sizeof(T)];", """    struct slot {
        union {
            unsigned char   none;
            T               value;
        };

        slot() noexcept : none{} {}
        ~slot() {}
    };
    slot                                                            storage;""", 1)]

R["built-before-the-old-one-goes"] = [(PCB, """pull_coroutine< T >::control_block::set( T const& t) {
""", """pull_coroutine< T >::control_block::set( T const& t) {
    T tmp( t);
""", 1), (PCB, "T( t);\n    bvalid", "T( std::move( tmp) );\n    bvalid", 1), (PCB, """pull_coroutine< T >::control_block::set( T && t) {
""", """pull_coroutine< T >::control_block::set( T && t) {
    T tmp( std::move( t) );
""", 1), (PCB, "T( std::move( t) );\n    bvalid", "T( std::move( tmp) );\n    bvalid", 1)]

R["wrap-calls-directly"] = [(WRAP, """#if defined(BOOST_NO_CXX17_STD_INVOKE)
        return boost::context::detail::invoke(
                std::move( fn1_),
                fn2_,
                std::forward< boost::context::fiber >( c) );
#else
        return std::invoke(
                std::move( fn1_),
                fn2_,
                std::forward< boost::context::fiber >( c) );
#endif""", """        return fn1_( fn2_, std::move( c) );""", 1)]

R["value-dropped-at-completion"] = [(PCB, "state |= state_t::complete;", "state |= state_t::complete;\n               drop_();", 0),
    (PCH, """    void set( T const&);
""", """    void drop_() noexcept {
        if ( bvalid) {
            bvalid = false;
            reinterpret_cast< T * >( std::addressof( storage) )->~T();
        }
    }

    void set( T const&);
""", 1), (PCH, """    void set( T &);
""", """    void drop_() noexcept {
        bvalid = false;
    }

    void set( T &);
""", 1), (PCH, """struct pull_coroutine< void >::control_block {
""", """struct pull_coroutine< void >::control_block {
    void drop_() noexcept {
    }

""", 1)]


def _try_block(ind, who):
    return (ind + "try {\n" + ind + "    auto fn = std::move( fn_);\n" + ind + "    // call coroutine-fn with synthesized %s_coroutine as argument\n" % who + ind + "    fn( synthesized);\n"
            + ind + "} catch ( boost::context::detail::forced_unwind const&) {\n" + ind + "    throw;\n#if defined( BOOST_CONTEXT_HAS_CXXABI_H )\n"
            + ind + "} catch ( abi::__forced_unwind const&) {\n" + ind + "    throw;\n#endif\n" + ind + "} catch (...) {\n"
            + ind + "    // store other exceptions in exception-pointer\n" + ind + "    except = std::current_exception();\n" + ind + "}\n")


R["run-helper"] = [(f, _try_block(ind, w), ind + "except = run_coroutine_fn_( fn_, synthesized);\n", 3)
                   for f, w in ((PCB, "push"), (SCB, "pull")) for ind in (" " * 14, " " * 19)] + [
    ("detail/state.hpp", "namespace detail {\n", """namespace detail {

template< typename Fn, typename Counterpart >
std::exception_ptr
run_coroutine_fn_( Fn & fn_, Counterpart & counterpart) {
    try {
        Fn fn( std::move( fn_) );
        fn( counterpart);
    } catch ( boost::context::detail::forced_unwind const&) {
        throw;
#if defined( BOOST_CONTEXT_HAS_CXXABI_H )
    } catch ( abi::__forced_unwind const&) {
        throw;
#endif
    } catch (...) {
        return std::current_exception();
    }
    return nullptr;
}
""", 1), ("detail/state.hpp", "#include <boost/config.hpp>\n", "#include <exception>\n#include <boost/config.hpp>\n#include <boost/context/fiber.hpp>\n", 1)]

R["first-switch-in-two-steps"] = [(f, """    other{ nullptr },
    state{ state_t::unwind },
    except{} {
        c = std::move( c).resume();""", """    other{ nullptr },
    state{ state_t::unwind },
    except{} {
        boost::context::fiber f{ std::move( c) };
        f = std::move( f).resume();
        c = std::move( f);""", 0) for f in (SCB,)]

R["free-begin-calls-member"] = [(PULLH, "    return typename pull_coroutine< T >::iterator( & c);", "    return c.begin();", 1), (PULLH, "end( pull_coroutine< T > &) {\n    return typename pull_coroutine< T >::iterator();", "end( pull_coroutine< T > & c) {\n    return c.end();", 1)]

R["deallocate-does-it-itself"] = [(f, """    if ( state_t::none != ( state & state_t::unwind) ) {
        destroy( this);
    }""", """    if ( state_t::none == ( state & state_t::unwind) ) {
        return;
    }
    boost::context::fiber f = std::move( c);
    this->~control_block();
    // the fiber takes the stack with it
    state |= state_t::destroy;""", 0) for f in (PCB, SCB)]
