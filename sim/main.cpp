// Supervisor: searches seeds, confirms, shrinks and replays.
//   sim search --prop ID --seed N --runs N --jobs N --wall SECONDS --replay-dir DIR --label TEXT --out FILE
//   sim replay FILE [-v]
//   sim digest --prop ID --seed N --runs N --jobs N        (one log hash per run, to compare executions)
#include "sim.hpp"
#include "props.hpp"

#include <fcntl.h>
#include <errno.h>
#include <malloc.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace sim;

extern "C" void * __real_mmap( void *, size_t, int, int, int, off_t);

template< typename T >
static T * shared( std::size_t n) {
    void * p = __real_mmap( nullptr, n * sizeof( T), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if ( p == MAP_FAILED) { perror( "mmap"); exit( 2); }
    return static_cast< T * >( p);
}

static double now() {
    struct timespec t;
    clock_gettime( CLOCK_MONOTONIC, & t);
    return (double) t.tv_sec + (double) t.tv_nsec * 1e-9;
}

struct Result {
    uint32_t status = 0, tag = 0;
    std::string code, msg;
    uint64_t hash = 0, events = 0;
    uint32_t op = 0;
};

static int cpu_limit = 25;
static const int wall_limit = 120;

// one simulated run in a process of its own
static Result run_child( Program const& p, Shared * sh, uint8_t * states, bool verbose) {
    memset( (void *) sh, 0, sizeof( * sh) );
    fflush( stdout);
    pid_t pid = fork();
    if ( pid < 0) { perror( "fork"); exit( 2); }
    if ( pid == 0) {
        if ( ! verbose) {
            int n = open( "/dev/null", O_WRONLY);
            if ( n >= 0) { dup2( n, 2); close( n); }
        }
        struct rlimit as = { 6ull << 30, 6ull << 30 };
        setrlimit( RLIMIT_AS, & as);
        struct itimerval tv;
        memset( & tv, 0, sizeof( tv) );
        tv.it_value.tv_sec = cpu_limit;
        setitimer( ITIMER_PROF, & tv, nullptr);
        alarm( (unsigned) wall_limit);
        run_program( p, sh, states, verbose);
        _exit( 3);
    }
    int st = 0;
    struct rusage ru;
    while ( wait4( pid, & st, 0, & ru) < 0 && errno == EINTR) {}
    static const bool slow = getenv( "SIM_SLOW");
    if ( slow && ru.ru_utime.tv_sec + ru.ru_stime.tv_sec >= 1) fprintf( stderr, "slow run: %ld.%02ld + %ld.%02ld s\n", ru.ru_utime.tv_sec, ru.ru_utime.tv_usec / 10000, ru.ru_stime.tv_sec, ru.ru_stime.tv_usec / 10000);
    Result r;
    r.status = sh->status;
    r.tag = sh->tag;
    r.code = (const char *) sh->code;
    r.msg = (const char *) sh->msg;
    r.hash = sh->hash;
    r.events = sh->events;
    r.op = sh->op;
    if ( WIFSIGNALED( st) && r.status == 0) {
        int s = WTERMSIG( st);
        r.status = 2;
        if ( s == SIGPROF || s == SIGALRM || s == SIGXCPU) { r.tag = T_HANG; r.code = "no-progress"; r.hash = 0; }
        else if ( s == SIGKILL) { r.status = 3; r.code = "killed"; }
        else { r.tag = T_CRASH; r.code = std::string( "signal-") + ( s == SIGSEGV ? "SEGV" : s == SIGABRT ? "ABRT" : s == SIGBUS ? "BUS" : s == SIGILL ? "ILL" : s == SIGFPE ? "FPE" : std::to_string( s) ); }
    } else if ( r.status == 0) {
        r.status = 3;
        r.code = "no verdict";
    }
    return r;
}

static uint64_t mix( uint64_t seed, int prop, uint64_t i) {
    Rng r( seed * 0x9e3779b97f4a7c15ull + (uint64_t) prop * 0x1000003ull);
    Rng q( r.next() ^ ( i * 0xd1342543de82ef95ull + 1) );
    q.next();
    return q.next();
}

static std::string esc( std::string const& s) {
    std::string o;
    for ( char c : s) {
        if ( c == '"' || c == '\\') { o += '\\'; o += c; }
        else if ( c == '\n') o += "\\n";
        else if ( (unsigned char) c >= 32) o += c;
    }
    return o;
}

// ---------------------------------------------------------------- shrinking

struct Shrinker {
    Shared * sh; std::string code; double deadline; int trials = 0;
    bool fails( Program const& p) {
        ++trials;
        Result r = run_child( p, sh, nullptr, false);
        return r.status == 2 && r.code == code;
    }
    bool time_left() { return now() < deadline && trials < 4000; }
    Program shrink( Program p) {
        bool changed = true;
        while ( changed && time_left() ) {
            changed = false;
            for ( std::size_t n = std::max< std::size_t >( 1, p.ops.size() / 2); ; n /= 2) {
                for ( std::size_t i = 0; i < p.ops.size() && time_left(); ) {
                    Program q = p;
                    std::size_t e = std::min( i + n, q.ops.size() );
                    q.ops.erase( q.ops.begin() + (long) i, q.ops.begin() + (long) e);
                    if ( fails( q) ) { p = q; changed = true; }
                    else i += n;
                }
                if ( n <= 1) break;
            }
            uint32_t Config::* fs[] = { & Config::threads, & Config::misalign, & Config::policy, & Config::ssize, & Config::fill, & Config::drain, & Config::order };
            uint32_t simple[] = { 1, 0, 0, 0, 0, 0, 0 };
            for ( int i = 0; i < 7 && time_left(); ++i) {
                if ( p.cfg.*fs[i] == simple[i]) continue;
                Program q = p;
                q.cfg.*fs[i] = simple[i];
                if ( fails( q) ) { p = q; changed = true; }
            }
            for ( std::size_t i = 0; i < p.ops.size() && time_left(); ++i) {
                uint32_t Op::* as[] = { & Op::a, & Op::b, & Op::c };
                for ( int j = 0; j < 3; ++j) {
                    uint32_t v = p.ops[i].*as[j];
                    if ( v == 0) continue;
                    uint32_t tries[] = { 0, 1, v % 2, v % 16, v % 4096 };
                    for ( uint32_t t : tries) {
                        if ( t >= v) continue;
                        Program q = p;
                        q.ops[i].*as[j] = t;
                        if ( fails( q) ) { p = q; changed = true; break; }
                    }
                }
            }
        }
        return p;
    }
};

// ---------------------------------------------------------------- search

struct Board {
    volatile uint64_t next;
    volatile uint64_t bound;        // no run with this index or above is needed
    volatile uint64_t done;
    volatile uint64_t found, foreign, errors;
    uint64_t counts[NCOUNTS];
    uint64_t events, maxev;
    char foreign_code[96];
    char error[256];
};

struct Hit { uint64_t index; uint32_t used; char code[96]; uint32_t tag; };

static std::string arg( int argc, char ** argv, const char * name, const char * def) {
    for ( int i = 2; i + 1 < argc; ++i) if ( ! strcmp( argv[i], name) ) return argv[i + 1];
    return def;
}

static void worker( int prop, uint64_t seed, uint64_t runs, Board * b, uint64_t * hashes, uint8_t * states, Hit * hits, int maxhits, double deadline, bool digest) {
    Shared * sh = shared< Shared >( 1);
    uint32_t want = prop_tags( prop);
    for (;;) {
        uint64_t i = __sync_fetch_and_add( & b->next, 1);
        if ( i >= runs || ( ! digest && i >= b->bound) || now() > deadline) break;
        Program p = generate( prop, mix( seed, prop, i) );
        Result r = run_child( p, sh, states, false);
        hashes[i] = r.hash ? r.hash : 1;
        if ( sh->counts[C_SWITCH_CTX] == 0 && r.status == 1) hashes[i] = 2;     // trivial: control never moved
        __sync_fetch_and_add( & b->done, 1);
        for ( int k = 0; k < NCOUNTS; ++k) {
            if ( ! strncmp( count_names[k], "max_", 4) ) { if ( sh->counts[k] > b->counts[k]) b->counts[k] = sh->counts[k]; }
            else if ( sh->counts[k]) __sync_fetch_and_add( & b->counts[k], sh->counts[k]);
        }
        __sync_fetch_and_add( & b->events, r.events);
        if ( r.events > b->maxev) b->maxev = r.events;
        if ( digest) continue;
        if ( r.status == 3) {
            if ( __sync_fetch_and_add( & b->errors, 1) == 0) snprintf( b->error, sizeof( b->error), "run %llu: %s %s", (unsigned long long) i, r.code.c_str(), r.msg.c_str() );
        } else if ( r.status == 2) {
            if ( ! ( want >> r.tag & 1) ) {
                if ( __sync_fetch_and_add( & b->foreign, 1) == 0) snprintf( b->foreign_code, sizeof( b->foreign_code), "%s/%s", tag_names[r.tag], r.code.c_str() );
                continue;
            }
            uint64_t k = __sync_fetch_and_add( & b->found, 1);
            if ( k < (uint64_t) maxhits) {
                hits[k].index = i;
                hits[k].tag = r.tag;
                snprintf( hits[k].code, sizeof( hits[k].code), "%s", r.code.c_str() );
                __sync_synchronize();
                hits[k].used = 1;
            }
            // a few more candidates, in case the first does not reproduce exactly
            if ( b->found >= 12) {
                uint64_t nb = i + 1, ob;
                while ( nb < ( ob = b->bound) && ! __sync_bool_compare_and_swap( & b->bound, ob, nb) ) {}
            }
        }
    }
}

static int search( int argc, char ** argv, bool digest) {
    std::string prop_id = arg( argc, argv, "--prop", "");
    int prop = prop_find( prop_id.c_str() );
    if ( prop < 0) { fprintf( stderr, "unknown property %s\n", prop_id.c_str() ); return 2; }
    uint64_t seed = strtoull( arg( argc, argv, "--seed", "1").c_str(), nullptr, 10);
    uint64_t runs = strtoull( arg( argc, argv, "--runs", "1000").c_str(), nullptr, 10);
    int jobs = atoi( arg( argc, argv, "--jobs", "8").c_str() );
    double wall = atof( arg( argc, argv, "--wall", "600").c_str() );
    std::string dir = arg( argc, argv, "--replay-dir", "/tmp"), label = arg( argc, argv, "--label", ""), out = arg( argc, argv, "--out", "");
    enum { MAXHITS = 4096 };
    Board * b = shared< Board >( 1);
    uint64_t * hashes = shared< uint64_t >( runs + 1);
    uint8_t * states = shared< uint8_t >( ( 1u << STATE_BITS) / 8);
    Hit * hits = shared< Hit >( MAXHITS);
    b->bound = ~0ull;
    double t0 = now();
    printf( "search %s seed %llu runs %llu %s\n", prop_id.c_str(), (unsigned long long) seed, (unsigned long long) runs, label.c_str() );
    fflush( stdout);
    std::vector< pid_t > pids;
    for ( int j = 0; j < jobs; ++j) {
        pid_t pid = fork();
        if ( pid < 0) { perror( "fork"); return 2; }
        if ( pid == 0) {
            worker( prop, seed, runs, b, hashes, states, hits, MAXHITS, t0 + wall, digest);
            _exit( 0);
        }
        pids.push_back( pid);
    }
    for ( pid_t pid : pids) {
        int st;
        while ( waitpid( pid, & st, 0) < 0 && errno == EINTR) {}
        if ( ! WIFEXITED( st) || WEXITSTATUS( st) != 0) { fprintf( stderr, "worker failed\n"); return 2; }
    }
    double dt = now() - t0;
    if ( digest) {
        for ( uint64_t i = 0; i < runs; ++i) printf( "%016llx\n", (unsigned long long) hashes[i]);
        return 0;
    }
    std::vector< uint64_t > hs( hashes, hashes + runs);
    std::sort( hs.begin(), hs.end() );
    uint64_t distinct = 0;
    for ( std::size_t i = 0; i < hs.size(); ++i) if ( hs[i] > 2 && ( i == 0 || hs[i] != hs[i - 1]) ) ++distinct;
    uint64_t nstates = 0;
    for ( std::size_t i = 0; i < ( 1u << STATE_BITS) / 8; ++i) nstates += (uint64_t) __builtin_popcount( states[i]);

    // violations: lowest index first; confirm, shrink, write, confirm again
    std::vector< Hit > hv;
    for ( int i = 0; i < MAXHITS; ++i) if ( hits[i].used) hv.push_back( hits[i]);
    std::sort( hv.begin(), hv.end(), []( Hit const& x, Hit const& y) { return x.index < y.index; });
    std::string replay, vcode, vmsg, vtag;
    uint64_t vseed = 0, vindex = 0;
    uint64_t unconfirmed = 0;
    Shared * sh = shared< Shared >( 1);
    for ( std::size_t i = 0; i < hv.size() && i < 40 && replay.empty(); ++i) {
        uint64_t s = mix( seed, prop, hv[i].index);
        Program p = generate( prop, s);
        if ( hv[i].tag == T_HANG) cpu_limit = 25; else cpu_limit = 15;
        Result a = run_child( p, sh, nullptr, false), c = run_child( p, sh, nullptr, false);
        if ( a.status != 2 || c.status != 2 || a.code != hv[i].code || c.code != hv[i].code || a.hash != c.hash) { ++unconfirmed; continue; }
        Shrinker k;
        k.sh = sh; k.code = hv[i].code; k.deadline = now() + ( hv[i].tag == T_HANG ? 120 : 60);
        if ( hv[i].tag == T_HANG) cpu_limit = 6;
        Program q = k.shrink( p);
        Result d = run_child( q, sh, nullptr, false), e = run_child( q, sh, nullptr, false);
        if ( d.status != 2 || e.status != 2 || d.code != hv[i].code || d.hash != e.hash) { q = p; d = a; }
        vindex = hv[i].index; vseed = s; vcode = d.code; vmsg = d.msg; vtag = tag_names[d.tag];
        replay = dir + "/" + prop_id + "-" + label + "-" + std::to_string( seed) + "-" + std::to_string( vindex) + ".replay";
        char head[1024];
        snprintf( head, sizeof( head), "property %s\nlabel %s\nseed %llu\nrun %llu\nviolation %s/%s\nmessage %s\nhash %016llx\noriginal-ops %zu\n",
            prop_id.c_str(), label.c_str(), (unsigned long long) seed, (unsigned long long) vindex, vtag.c_str(), vcode.c_str(), vmsg.c_str(),
            (unsigned long long) d.hash, p.ops.size() );
        save( q, replay.c_str(), head);
        printf( "violation %s/%s (%s) in run %llu: %zu operations, shrunk to %zu in %d trials\n", vtag.c_str(), vcode.c_str(), vmsg.c_str(),
            (unsigned long long) vindex, p.ops.size(), q.ops.size(), k.trials);
    }
    (void) vseed;
    FILE * f = fopen( out.c_str(), "w");
    if ( ! f) { perror( out.c_str() ); return 2; }
    fprintf( f, "{\"property\":\"%s\",\"label\":\"%s\",\"seed\":%llu,\"runs\":%llu,\"done\":%llu,\"wall\":%.3f,\"distinct\":%llu,\"states\":%llu,\"events\":%llu,\"max_events\":%llu,",
        prop_id.c_str(), esc( label).c_str(), (unsigned long long) seed, (unsigned long long) runs, (unsigned long long) b->done, dt, (unsigned long long) distinct,
        (unsigned long long) nstates, (unsigned long long) b->events, (unsigned long long) b->maxev);
    fprintf( f, "\"found\":%llu,\"foreign\":%llu,\"foreign_code\":\"%s\",\"errors\":%llu,\"error\":\"%s\",\"unconfirmed\":%llu,\"replay\":\"%s\",\"code\":\"%s\",\"tag\":\"%s\",\"msg\":\"%s\",\"counts\":{",
        (unsigned long long) b->found, (unsigned long long) b->foreign, esc( b->foreign_code).c_str(), (unsigned long long) b->errors, esc( b->error).c_str(),
        (unsigned long long) unconfirmed, esc( replay).c_str(), esc( vcode).c_str(), esc( vtag).c_str(), esc( vmsg).c_str() );
    for ( int k = 0; k < NCOUNTS; ++k) fprintf( f, "%s\"%s\":%llu", k ? "," : "", count_names[k], (unsigned long long) b->counts[k]);
    fprintf( f, "},\"samples\":[");
    for ( uint64_t i = 0; i < 3 && i < runs; ++i) {
        Program p = generate( prop, mix( seed, prop, i) );
        std::string s = "run " + std::to_string( i) + ": threads=" + std::to_string( p.cfg.threads) + " kinds=" + std::to_string( p.cfg.kinds) + " ops:";
        if ( p.cfg.scenario) s += p.cfg.scenario == 1 ? " (pipeline decisions)" : " (decisions)";
        for ( std::size_t k = 0; k < p.ops.size() && k < 30; ++k) s += " " + ( p.cfg.scenario ? std::to_string( p.ops[k].a % 4096) : std::string( op_names[p.ops[k].k]) );
        fprintf( f, "%s\"%s (%zu ops, log hash %016llx)\"", i ? "," : "", esc( s).c_str(), p.ops.size(), (unsigned long long) hashes[i]);
    }
    fprintf( f, "]}\n");
    fclose( f);
    printf( "%llu runs, %llu distinct, %llu states, %.1f s\n", (unsigned long long) b->done, (unsigned long long) distinct, (unsigned long long) nstates, dt);
    if ( b->errors) { printf( "harness error: %s\n", b->error); return 2; }
    if ( b->found && replay.empty() ) { printf( "%llu violations found, none reproduced\n", (unsigned long long) b->found); return 2; }
    return replay.empty() ? 0 : 1;
}

static int replay( int argc, char ** argv) {
    bool verbose = argc > 3 && ! strcmp( argv[3], "-v");
    Program p;
    std::string header;
    if ( ! load( p, argv[2], header) ) { fprintf( stderr, "cannot read %s\n", argv[2]); return 2; }
    Shared * sh = shared< Shared >( 1);
    if ( header.find( "violation hang/") != std::string::npos) cpu_limit = 6; else cpu_limit = 15;
    Result r = run_child( p, sh, nullptr, verbose);
    if ( verbose) printf( "%s", header.c_str() );
    char h[64];
    snprintf( h, sizeof( h), "hash %016llx\n", (unsigned long long) r.hash);
    bool same = header.find( h) != std::string::npos;
    if ( r.status == 2) {
        bool code = header.find( std::string( "violation ") + tag_names[r.tag] + "/" + r.code + "\n") != std::string::npos;
        printf( "violated %s/%s %s op %u %s%s\n", tag_names[r.tag], r.code.c_str(), r.msg.c_str(), r.op, code ? "same violation" : "another violation", same ? ", same log" : "");
        return 1;
    }
    printf( "%s %s %s", r.status == 1 ? "held" : "error", r.code.c_str(), h);
    return r.status == 1 ? 0 : 2;
}

static int gen_one( int argc, char ** argv) {
    int prop = prop_find( arg( argc, argv, "--prop", "").c_str() );
    uint64_t seed = strtoull( arg( argc, argv, "--seed", "1").c_str(), nullptr, 10), run = strtoull( arg( argc, argv, "--run", "0").c_str(), nullptr, 10);
    if ( prop < 0) return 2;
    save( generate( prop, mix( seed, prop, run) ), arg( argc, argv, "--out", "/dev/stdout").c_str(), "");
    return 0;
}

int main( int argc, char ** argv) {
    // the address space looks the same in every run, where the system permits it
    if ( ! getenv( "SIM_NOASLR_TRIED") ) {
        setenv( "SIM_NOASLR_TRIED", "1", 1);
        int cur = personality( 0xffffffff);
        if ( cur != -1 && ! ( cur & ADDR_NO_RANDOMIZE) && personality( (unsigned long) cur | ADDR_NO_RANDOMIZE) != -1) execv( "/proc/self/exe", argv);
    }
    struct rlimit rl = { 0, 0 };
    setrlimit( RLIMIT_CORE, & rl);
    mallopt( M_ARENA_MAX, 1);
    mallopt( M_PERTURB, 0x5a);
    arena_init();
    if ( argc > 2 && ! strcmp( argv[1], "replay") ) return replay( argc, argv);
    if ( argc > 2 && ! strcmp( argv[1], "search") ) return search( argc, argv, false);
    if ( argc > 2 && ! strcmp( argv[1], "digest") ) return search( argc, argv, true);
    if ( argc > 2 && ! strcmp( argv[1], "gen") ) return gen_one( argc, argv);
    fprintf( stderr, "usage: sim search|replay|digest|gen ...\n");
    return 2;
}
