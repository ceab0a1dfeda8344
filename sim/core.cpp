// Deterministic simulator: fibers, scheduler, instrumentation, OpenMP runtime, fork server.
#include "sim.h"
#include <algorithm>
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <link.h>
#include <malloc.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <poll.h>
#include <unistd.h>

namespace sim {
  Fiber * g_cur = nullptr;
  std::vector< Rank > g_ranks;
  int64_t g_budget = INT64_MAX/2;
  Spec g_spec;
  bool g_inSim = false, g_traceOn = false;
  static std::vector< Fiber * > g_fibers;
  static uint64_t g_tickBase = 0; static int64_t g_slice = INT64_MAX/2;
  static uint64_t g_epoch = 1, g_switches = 0, g_maxTicks = ~0ull, g_skipped = 0;
  static uint64_t g_schedHash = 1469598103934665603ull, g_progHash = 1469598103934665603ull;
  static std::map< std::string, uint64_t > g_counts;
  static std::vector< std::pair< std::string, std::string > > g_reports;
  static std::string g_syncJson, g_logLast;
  static int g_resFd = -1; static bool g_finished = false;
  static uint64_t g_crashTick = ~0ull;
  static FILE * g_traceFile = nullptr;

  void trace( std::string const & s ) { if( g_traceFile ) { std::fprintf( g_traceFile, "%llu %s\n", (unsigned long long) now(), s.c_str() ); } }
  void count( char const * n, uint64_t k ) { g_counts[n] += k; }
  uint64_t countOf( char const * n ) { return g_counts[n]; }
  uint64_t hash( void const * p, std::size_t n, uint64_t h ) {
    unsigned char const * c = (unsigned char const *) p; std::size_t i = 0;
    for( ; i+8 <= n; i += 8 ) { uint64_t w; std::memcpy( &w, c+i, 8 ); h = (h ^ w) * 0x9E3779B97F4A7C15ull; h ^= h >> 29; }
    for( ; i < n; i++ ) { h = (h ^ c[i]) * 1099511628211ull; h ^= h >> 31; }
    return h;
  }
  uint64_t now() { return g_tickBase + (uint64_t) (g_slice - g_budget); }

  // ---------------------------------------------------------------- random decisions
  struct Rng { uint64_t s; uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z>>30))*0xBF58476D1CE4E5B9ull; z = (z ^ (z>>27))*0x94D049BB133111EBull; return z ^ (z>>31); } uint64_t below( uint64_t n ) { return n ? next() % n : 0; } double u() { return (next() >> 11) * (1.0/9007199254740992.0); } };
  static Rng g_rng[D_N];
  static uint64_t g_cnt[D_N];
  static bool g_replay = false;
  static std::map< uint64_t, uint32_t > g_devIn[D_N];
  struct Dev { int st; uint64_t i; uint32_t v; };
  static std::vector< Dev > g_devOut;
  // strategy
  static int g_strat = 0; static int g_sliceLo = 0, g_sliceHi = 0; static double g_pDev = 0, g_pStick = 0; static int64_t g_defSlice = 3000;
  static int g_victimRank = -1, g_victimTid = -1; static uint64_t g_victimUntil = 0; static double g_pVictim = 0; static uint64_t g_victimLen = 0;
  static std::vector< int > g_prio; static uint64_t g_prioNext = 0, g_prioGap = 0;
  static int g_msgMax = 0; static double g_msgP = 0; static double g_clkP = 0; static int g_ioMax = 0; static double g_ioP = 0;
  static uint64_t g_devFrom = 0, g_devTo = ~0ull;

  uint64_t g_disturb = 0; static uint64_t g_lastBase = 0; static bool g_lastDev = false; // ticks which deviating decisions account for
  static std::vector< Fiber * > g_elig;
  static uint32_t codeSched( unsigned off, unsigned sl ) { return off | (sl << 8); }
  static int64_t sliceOf( unsigned c ) { return c == 0 ? g_defSlice : (int64_t) std::floor( std::pow( 2.0, (c-1)/3.0 ) ); }

  static uint32_t stratSched() {
    Rng & r = g_rng[D_SCHED];
    unsigned n = g_elig.size();
    unsigned sl = g_sliceHi > 0 ? 1 + g_sliceLo + r.below( g_sliceHi - g_sliceLo + 1 ) : 0;
    unsigned off = 0;
    switch( g_strat ) {
      case 0: return 0;
      case 1: off = r.below( n ); break;                                             // uniform
      case 2: if( r.u() >= g_pDev ) return 0; off = r.below( n ); break;             // sparse deviations
      case 3: // starve a victim thread or rank for a while
        if( g_cnt[D_SCHED] > g_victimUntil ) {
          if( r.u() < 0.5 ) { Fiber * f = g_fibers[ r.below( g_fibers.size() ) ]; g_victimRank = f->rank; g_victimTid = r.u() < 0.6 ? f->tid : -1; } else g_victimRank = -1;
          g_victimUntil = g_cnt[D_SCHED] + 1 + r.below( g_victimLen );
        }
        off = r.below( n );
        if( g_victimRank >= 0 && r.u() < g_pVictim ) {
          for( unsigned t = 0; t < n; t++ ) { Fiber * f = g_elig[off]; if( f->rank == g_victimRank && (g_victimTid < 0 || f->tid == g_victimTid) ) off = (off+1) % n; else break; }
        }
        break;
      case 4: // keep the current thread unless it only polls
        if( r.u() < g_pStick && g_cur && g_cur->st == F_RUN && !( g_cur->epoch == g_epoch && g_cur->polls > 40 ) ) off = n-1; else off = r.below( n );
        break;
      case 5: { // random priorities with change points; polling threads are passed over
        if( g_prio.size() < g_fibers.size() ) while( g_prio.size() < g_fibers.size() ) g_prio.push_back( (int) r.below( 1000000 ) );
        if( g_cnt[D_SCHED] >= g_prioNext ) { g_prio[ r.below( g_prio.size() ) ] = (int) r.below( 1000000 ); g_prioNext = g_cnt[D_SCHED] + 1 + r.below( g_prioGap ); }
        int best = -1; off = n;
        for( unsigned i = 0; i < n; i++ ) { Fiber * f = g_elig[i]; bool spin = f->epoch == g_epoch && f->polls > 60; if( !spin && g_prio[f->id] > best ) { best = g_prio[f->id]; off = i; } }
        if( off == n ) off = r.below( n );
        break; }
    }
    return codeSched( off > 255 ? 255 : off, sl );
  }
  static uint32_t stratMsg() { Rng & r = g_rng[D_MSG]; if( r.u() >= g_msgP ) return 0; return 1 + (uint32_t) r.below( g_msgMax + 1 ) + ( (uint32_t) r.below( g_msgMax + 1 ) << 8 ) + ( (uint32_t) r.below( 4 ) << 16 ); }
  static uint32_t stratClk() { Rng & r = g_rng[D_CLK]; if( r.u() >= g_clkP ) return 0; return 1 + (uint32_t) r.below( 12 ); }
  static uint32_t stratIo() { Rng & r = g_rng[D_IO]; if( r.u() >= g_ioP ) return 0; return 1 + (uint32_t) r.below( g_ioMax + 1 ); }
  uint32_t decide( int s ) {
    uint64_t i = g_cnt[s]++; uint32_t v = 0;
    if( g_replay ) { auto it = g_devIn[s].find( i ); if( it != g_devIn[s].end() ) v = it->second; }
    else { v = s == D_SCHED ? stratSched() : s == D_MSG ? stratMsg() : s == D_IO ? stratIo() : stratClk(); if( s == D_SCHED && ( i < g_devFrom || i >= g_devTo ) ) v = 0; }
    if( v ) g_devOut.push_back( { s, i, v } );
    return v;
  }
  static void stratInit() {
    uint64_t seed = (uint64_t) g_spec.n( "seed", 0 );
    for( int i = 0; i < D_N; i++ ) { g_rng[i].s = seed * 1000003ull + i * 7919ull + 17; g_rng[i].next(); }
    g_strat = (int) g_spec.n( "strat", 0 );
    g_sliceLo = (int) g_spec.n( "slice_lo", 0 ); g_sliceHi = (int) g_spec.n( "slice_hi", 0 );
    g_pDev = g_spec.d( "p_dev", 0.05 ); g_pStick = g_spec.d( "p_stick", 0.9 ); g_pVictim = g_spec.d( "p_victim", 1.0 ); g_victimLen = (uint64_t) g_spec.n( "victim_len", 2000 );
    g_prioGap = (uint64_t) g_spec.n( "prio_gap", 200 );
    g_msgMax = (int) g_spec.n( "msg_max", 0 ); g_msgP = g_spec.d( "msg_p", 0 ); g_clkP = g_spec.d( "clk_p", 0 );
    g_ioMax = (int) g_spec.n( "io_max", 0 ); g_ioP = g_spec.d( "io_p", 0 );
    g_defSlice = g_spec.n( "def_slice", 3000 );
    g_devFrom = (uint64_t) g_spec.n( "dev_from", 0 ); g_devTo = g_spec.kv.count( "dev_to" ) ? (uint64_t) g_spec.n( "dev_to" ) : ~0ull;
    std::string d = g_spec.s( "devs" );
    if( d != "" ) {
      g_replay = true;
      FILE * f = std::fopen( d.c_str(), "r" ); if( !f ) { std::fprintf( stderr, "no deviations file\n" ); _exit( 98 ); }
      int s; unsigned long long i; unsigned v;
      while( std::fscanf( f, "%d %llu %u", &s, &i, &v ) == 3 ) if( s >= 0 && s < D_N ) g_devIn[s][i] = v;
      std::fclose( f );
    }
  }

  // ---------------------------------------------------------------- fibers
  extern "C" void sim_switch( void ** i_from, void * i_to );
  asm( R"(
    .text
    .globl sim_switch
    .type sim_switch,@function
sim_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    subq $16, %rsp
    stmxcsr (%rsp)
    fnstcw 8(%rsp)
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    ldmxcsr (%rsp)
    fldcw 8(%rsp)
    addq $16, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
    .size sim_switch,.-sim_switch
    .globl sim_tramp
sim_tramp:
    movq %r12, %rdi
    callq sim_fiberMain
    ud2
  )" );
  extern "C" void sim_tramp();
  extern "C" void sim_fiberMain( Fiber * f ) { f->fn( f->arg ); std::abort(); }

  static Fiber * newFiber( int rank, int tid, void (*fn)( void * ), void * arg ) {
    Fiber * f = new Fiber; f->rank = rank; f->tid = tid; f->id = (int) g_fibers.size(); f->fn = fn; f->arg = arg ? arg : f;
    f->stkSize = 4u << 20;
    f->stk = (char *) mmap( nullptr, f->stkSize, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0 );
    mprotect( f->stk, 4096, PROT_NONE );
    uint64_t * sp = (uint64_t *) ( f->stk + f->stkSize - 64 );
    *--sp = 0; *--sp = 0; *--sp = (uint64_t) (void *) &sim_tramp; // return address
    *--sp = 0; *--sp = 0; *--sp = (uint64_t) f; *--sp = 0; *--sp = 0; *--sp = 0; // rbp rbx r12 r13 r14 r15
    sp -= 2; uint32_t mx; uint16_t cw; asm volatile( "stmxcsr %0" : "=m"(mx) ); asm volatile( "fnstcw %0" : "=m"(cw) ); // inherited from the creator
    ((uint32_t *) sp)[0] = mx; ((uint16_t *) (sp+1))[0] = cw;
    f->sp = sp;
    Rank & r = g_ranks[rank];
    f->tls = (unsigned char *) std::calloc( 1, r.tlsSize + 64 ); if( r.tlsInit.size() ) std::memcpy( f->tls, r.tlsInit.data(), r.tlsInit.size() );
    f->epoch = g_epoch;
    g_fibers.push_back( f ); r.fibers.push_back( f );
    return f;
  }

  void progress( int k ) { g_epoch++; uint64_t w[2] = { (uint64_t) ( g_cur ? g_cur->id : 999 ), (uint64_t) k }; g_progHash = hash( w, sizeof(w), g_progHash ); }

  static bool stalled( Fiber * f ) { return f->stallUntil > now(); }
  struct Stall { int rank, tid; uint64_t t0, t1; };
  static std::vector< Stall > g_stalls;
  static void applyStalls() {
    uint64_t t = now();
    for( std::size_t i = 0; i < g_stalls.size(); ) {
      if( t >= g_stalls[i].t0 ) {
        for( Fiber * f : g_fibers ) if( f->rank == g_stalls[i].rank && ( g_stalls[i].tid < 0 || f->tid == g_stalls[i].tid ) ) f->stallUntil = std::max( f->stallUntil, t + (g_stalls[i].t1 - g_stalls[i].t0) );
        count( "stalls_injected" );
        g_stalls.erase( g_stalls.begin() + i );
      } else i++;
    }
  }

  static const uint64_t K_SPIN = 80, K_DEAD = 4000;
  static uint64_t g_nextNet = ~0ull, g_confirm = 0, g_confirmEpoch = 0;

  // picks the next fiber and switches to it
  static void schedule() {
    // account
    uint64_t used = (uint64_t) ( g_slice - g_budget );
    g_tickBase += used; g_slice = g_budget = 0;
    if( g_cur ) g_cur->own += used;
    if( g_tickBase >= g_crashTick ) { count( "crashes_injected" ); finish( "crash", "injected crash" ); }
    if( g_lastDev ) g_disturb += g_tickBase - g_lastBase;
    if( g_tickBase - g_skipped > g_maxTicks ) finish( "tickcap", "no termination within the step bound" );
    if( g_stalls.size() ) applyStalls();
    while( true ) {
      g_nextNet = netDeliver();
      g_elig.clear();
      unsigned n = g_fibers.size(), c = g_cur ? g_cur->id : 0;
      bool allSpin = true; uint64_t minPolls = ~0ull; uint64_t nextStall = ~0ull;
      for( unsigned i = 1; i <= n; i++ ) {
        Fiber * f = g_fibers[ (c+i) % n ];
        if( f->st != F_RUN ) continue;
        if( stalled( f ) ) { nextStall = std::min( nextStall, f->stallUntil ); continue; }
        g_elig.push_back( f );
        uint64_t p = f->epoch == g_epoch ? f->polls : 0;
        if( p < K_SPIN ) allSpin = false;
        minPolls = std::min( minPolls, p );
      }
      uint64_t ev = std::min( g_nextNet, nextStall );
      if( g_elig.empty() || allSpin ) {
        if( ev != ~0ull && ev > now() ) { g_skipped += ev - g_tickBase; g_tickBase = ev; count( "time_skips" ); g_epoch++; continue; } // nothing but waiting: jump to the next event
        if( g_elig.empty() ) {
          bool all = true; for( Fiber * f : g_fibers ) if( f->st != F_DONE && f->st != F_IDLE ) all = false;
          if( all ) finish( "ok", "" );
          finish( "deadlock", "all threads are blocked" );
        }
        if( minPolls >= K_DEAD && !g_confirm ) { g_confirm = 400 * (uint64_t) g_elig.size(); g_confirmEpoch = g_epoch; }
      }
      break;
    }
    uint32_t v = 0;
    // suspected end of progress: a fair round-robin phase has to confirm it
    if( g_confirm && g_confirmEpoch != g_epoch ) g_confirm = 0;
    if( g_confirm ) { 
      if( --g_confirm == 0 ) {
        bool polls = true; for( Fiber * f : g_elig ) if( f->own > f->lastPoll + 4000 ) polls = false;
        if( polls ) finish( "noprogress", "all threads poll without any progress, no message or stall is pending" );
        g_confirm = 400 * (uint64_t) g_elig.size();
      }
    }
    else v = decide( D_SCHED );
    unsigned off = v & 255, sl = (v >> 8) & 255;
    Fiber * f = g_elig[ off % g_elig.size() ];
    int64_t s = sliceOf( sl );
    g_slice = g_budget = s; g_lastDev = v != 0; g_lastBase = g_tickBase;
    g_switches++;
    uint64_t w[2] = { (uint64_t) f->id, (uint64_t) s }; g_schedHash = hash( w, sizeof(w), g_schedHash );
    if( f != g_cur ) { Fiber * o = g_cur; g_cur = f; static void * s_dump; sim_switch( o ? &o->sp : &s_dump, f->sp ); }
  }
  void yieldNow() { if( g_cur ) schedule(); }

  static inline void checkVw( Fiber * f ) { if( f->vwPtr ) { if( std::memcmp( f->vwPtr, f->vwOld, f->vwSize ) != 0 ) progress( 1 ); f->vwPtr = nullptr; } }
  void poll( int cost ) {
    Fiber * f = g_cur; if( !f ) return;
    checkVw( f );
    uint64_t own = f->own + (uint64_t) ( g_slice - g_budget );
    if( own - f->lastPoll > 4000 ) progress( 2 ); // did real work in between
    if( f->epoch != g_epoch ) { f->epoch = g_epoch; f->polls = 0; }
    f->polls++;
    g_budget -= cost;
    f->lastPoll = own + cost;
    if( g_budget < 0 ) schedule();
  }
  void blockOn( void const * on ) { g_cur->st = F_BLOCK; g_cur->waitOn = on; while( g_cur->st == F_BLOCK ) schedule(); }
  void wakeAll( void const * on ) { for( Fiber * f : g_fibers ) if( f->st == F_BLOCK && f->waitOn == on ) { f->st = F_RUN; f->waitOn = nullptr; } }

  // ---------------------------------------------------------------- result
  static std::string esc( std::string const & s ) { std::string o; for( char ch : s ) { if( ch == '"' || ch == '\\' ) { o += '\\'; o += ch; } else if( (unsigned char) ch < 32 ) o += ' '; else if( (unsigned char) ch > 126 ) o += '?'; else o += ch; } return o; }
  void report( char const * k, std::string const & m ) { if( g_reports.size() < 20 ) g_reports.push_back( { k, m } ); trace( std::string( "REPORT " ) + k + " " + m ); }
  static void writeAll( int fd, std::string const & s ) { std::size_t o = 0; while( o < s.size() ) { ssize_t r = syscall( SYS_write, fd, s.data()+o, s.size()-o ); if( r <= 0 ) break; o += (std::size_t) r; } }
  void finish( char const * st, std::string const & m ) {
    if( g_finished ) _exit( 97 );
    g_finished = true; g_inSim = false;
    uint64_t t = now();
    std::string o = "{\"status\":\"" + std::string( st ) + "\",\"msg\":\"" + esc( m ) + "\",\"ticks\":" + std::to_string( t - g_skipped ) + ",\"simticks\":" + std::to_string( t ) + ",\"disturb\":" + std::to_string( g_disturb ) + ",\"switches\":" + std::to_string( g_switches )
      + ",\"ndec\":[" + std::to_string( g_cnt[0] ) + "," + std::to_string( g_cnt[1] ) + "," + std::to_string( g_cnt[2] ) + "],\"ndev\":" + std::to_string( g_devOut.size() );
    char b[64]; std::snprintf( b, sizeof(b), ",\"sched\":\"%016llx\",\"prog\":\"%016llx\"", (unsigned long long) g_schedHash, (unsigned long long) g_progHash ); o += b;
    o += ",\"codes\":["; for( std::size_t i = 0; i < g_ranks.size(); i++ ) { if( i ) o += ","; o += g_ranks[i].done ? std::to_string( g_ranks[i].code ) : "null"; } o += "]";
    o += ",\"sync\":[" + g_syncJson + "],\"reports\":[";
    for( std::size_t i = 0; i < g_reports.size(); i++ ) o += ( i ? ",[\"" : "[\"" ) + g_reports[i].first + "\",\"" + esc( g_reports[i].second ) + "\"]";
    o += "],\"counts\":{"; bool first = true; for( auto & c : g_counts ) { o += ( first ? "\"" : ",\"" ) + c.first + "\":" + std::to_string( c.second ); first = false; } o += "}}\n";
    std::string dv = g_spec.s( "devs_out" );
    if( dv != "" ) {
      std::string t2; for( auto & d : g_devOut ) t2 += std::to_string( d.st ) + " " + std::to_string( d.i ) + " " + std::to_string( d.v ) + "\n";
      int fd = (int) syscall( SYS_openat, AT_FDCWD, dv.c_str(), O_WRONLY|O_CREAT|O_TRUNC, 0644 ); if( fd >= 0 ) { writeAll( fd, t2 ); syscall( SYS_close, fd ); }
    }
    if( g_traceFile ) std::fflush( g_traceFile );
    writeAll( g_resFd, o );
    _exit( 0 );
  }
  // what the C library's exit would do: HDF5 closes the files that are still open (one library instance for all ranks)
  static void atEnd() {
    int (*c)() = (int (*)()) dlsym( g_ranks[ g_cur->rank ].handle, "H5close" );
    if( c ) { g_cur->st = F_RUN; c(); }
  }
  void rankExit( int code ) {
    Rank & r = g_ranks[ g_cur->rank ];
    r.done = true; r.code = code;
    if( code != 0 ) finish( "exit", "rank " + std::to_string( r.id ) + " ended with code " + std::to_string( code ) );
    progress( 9 );
    for( Fiber * f : r.fibers ) f->st = F_DONE;
    bool all = true; for( Rank & q : g_ranks ) if( !q.done ) all = false;
    if( all ) { atEnd(); netFinalCheck(); finish( "ok", "" ); }
    schedule();
    std::abort();
  }
  bool inRankLib( void const * a ) { uintptr_t p = (uintptr_t) a; for( Rank & r : g_ranks ) if( p >= r.lo && p < r.hi ) return true; return false; }

  static void onSignal( int s, siginfo_t * i, void * ) {
    static volatile int in = 0; if( in ) _exit( 96 ); in = 1;
    char b[96]; std::snprintf( b, sizeof(b), "signal %d in rank %d thread %d", s, g_cur ? g_cur->rank : -1, g_cur ? g_cur->tid : -1 ); (void) i;
    finish( "signal", b );
  }

  // ---------------------------------------------------------------- running programs
  typedef int (*MainFn)( int, char ** );
  struct RankArg { MainFn fn; int argc; std::vector< char * > argv; };
  static void rankMain( void * a ) { RankArg * r = (RankArg *) a; int c = r->fn( r->argc, r->argv.data() ); rankExit( c ); }

  struct FindTls { uintptr_t base; std::size_t mod, size; std::vector< unsigned char > init; uintptr_t lo, hi; };
  static int phdrCb( struct dl_phdr_info * i, size_t, void * d ) {
    FindTls * f = (FindTls *) d;
    if( (uintptr_t) i->dlpi_addr != f->base ) return 0;
    f->mod = i->dlpi_tls_modid; f->lo = ~(uintptr_t) 0; f->hi = 0;
    for( int p = 0; p < i->dlpi_phnum; p++ ) {
      ElfW(Phdr) const & h = i->dlpi_phdr[p];
      if( h.p_type == PT_TLS ) { f->size = h.p_memsz; f->init.assign( (unsigned char *) i->dlpi_addr + h.p_vaddr, (unsigned char *) i->dlpi_addr + h.p_vaddr + h.p_filesz ); }
      if( h.p_type == PT_LOAD ) { f->lo = std::min( f->lo, (uintptr_t) i->dlpi_addr + h.p_vaddr ); f->hi = std::max( f->hi, (uintptr_t) i->dlpi_addr + h.p_vaddr + h.p_memsz ); }
    }
    return 1;
  }
  struct Lib { void * handle; MainFn fn; FindTls tls; };
  static std::vector< Lib > g_libs;
  static bool loadLib( std::string const & p ) {
    Lib l; l.handle = dlopen( p.c_str(), RTLD_NOW|RTLD_LOCAL ); if( !l.handle ) { std::fprintf( stderr, "dlopen: %s\n", dlerror() ); return false; }
    l.fn = (MainFn) dlsym( l.handle, "main" ); if( !l.fn ) { std::fprintf( stderr, "no main\n" ); return false; }
    struct link_map * lm = nullptr; dlinfo( l.handle, RTLD_DI_LINKMAP, &lm );
    l.tls.base = (uintptr_t) lm->l_addr; l.tls.mod = 0; l.tls.size = 0; dl_iterate_phdr( phdrCb, &l.tls );
    g_libs.push_back( l ); return true;
  }

  static void runChild( int fd ) {
    g_resFd = fd;
    std::string dir = g_spec.s( "dir" );
    if( chdir( dir.c_str() ) != 0 ) { std::fprintf( stderr, "no dir %s\n", dir.c_str() ); _exit( 95 ); }
    int lf = open( "sim.out", O_WRONLY|O_CREAT|O_TRUNC, 0644 ); if( lf >= 0 ) { dup2( lf, 1 ); dup2( lf, 2 ); }
    if( g_spec.n( "trace" ) ) { g_traceOn = true; g_traceFile = std::fopen( "sim.trace", "w" ); }
    static char s_alt[65536]; stack_t ss; ss.ss_sp = s_alt; ss.ss_size = sizeof(s_alt); ss.ss_flags = 0; sigaltstack( &ss, nullptr );
    struct sigaction sa; std::memset( &sa, 0, sizeof(sa) ); sa.sa_sigaction = onSignal; sa.sa_flags = SA_SIGINFO|SA_ONSTACK;
    for( int s : { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT } ) sigaction( s, &sa, nullptr );
    if( g_spec.n( "perturb" ) ) mallopt( M_PERTURB, (int) g_spec.n( "perturb" ) );
    stratInit();
    g_maxTicks = (uint64_t) g_spec.n( "max_ticks", 4000000000ll );
    if( g_spec.kv.count( "crash_tick" ) ) g_crashTick = (uint64_t) g_spec.n( "crash_tick" );
    std::string st = g_spec.s( "stalls" ); // rank,tid,t0,t1;..
    for( std::size_t p = 0; p < st.size(); ) { int r, t; unsigned long long a, b; int n = 0; if( std::sscanf( st.c_str()+p, "%d,%d,%llu,%llu;%n", &r, &t, &a, &b, &n ) < 4 ) break; g_stalls.push_back( { r, t, a, b } ); p += (std::size_t) n; }
    int nr = (int) g_spec.n( "ranks", 1 ), nt = (int) g_spec.n( "threads", 1 );
    if( (std::size_t) nr > g_libs.size() ) { std::fprintf( stderr, "too many ranks\n" ); _exit( 94 ); }
    g_ranks.resize( nr );
    std::vector< std::string > args; { std::string a = g_spec.s( "args" ), c; args.push_back( "prog" ); for( char ch : a + " " ) if( ch == ' ' ) { if( c != "" ) args.push_back( c ); c = ""; } else c += ch; }
    ioInit();
    for( int r = 0; r < nr; r++ ) {
      Rank & k = g_ranks[r]; k.id = r; k.handle = g_libs[r].handle; k.tlsMod = g_libs[r].tls.mod; k.tlsSize = g_libs[r].tls.size; k.tlsInit = g_libs[r].tls.init; k.lo = g_libs[r].tls.lo; k.hi = g_libs[r].tls.hi;
      k.nThreads = (int) g_spec.n( "threads" + std::to_string( r ), nt );
      k.clkOff = g_spec.n( "clk_off" + std::to_string( r ), 0 );
      RankArg * a = new RankArg; a->fn = g_libs[r].fn; for( auto & s : args ) a->argv.push_back( strdup( s.c_str() ) ); a->argc = (int) args.size(); a->argv.push_back( nullptr );
      Fiber * f = newFiber( r, 0, rankMain, a ); f->st = F_RUN;
    }
    g_inSim = true; g_tickBase = 0; g_slice = g_budget = 0;
    schedule();
    _exit( 93 );
  }

  static int serve() {
    // one request: lines key=value, then GO; answer: one JSON line
    char * line = nullptr; size_t cap = 0; ssize_t n;
    while( ( n = getline( &line, &cap, stdin ) ) > 0 ) {
      std::string s( line, (std::size_t) n ); while( s.size() && ( s.back() == '\n' || s.back() == '\r' ) ) s.pop_back();
      if( s == "QUIT" ) break;
      if( s != "GO" ) { std::size_t e = s.find( '=' ); if( e != std::string::npos ) g_spec.kv[ s.substr( 0, e ) ] = s.substr( e+1 ); continue; }
      int pf[2]; if( pipe( pf ) ) return 1;
      std::fflush( stdout );
      pid_t pid = fork();
      if( pid == 0 ) {
        close( pf[0] );
        struct rlimit rl; rl.rlim_cur = rl.rlim_max = 0; setrlimit( RLIMIT_CORE, &rl );
        rl.rlim_cur = rl.rlim_max = 512u<<20; setrlimit( RLIMIT_FSIZE, &rl ); signal( SIGXFSZ, SIG_IGN );
        runChild( pf[1] );
      }
      close( pf[1] );
      std::string res; char buf[65536]; bool timeout = false;
      long long wall = g_spec.n( "wall_ms", 120000 ); struct timeval t0; gettimeofday( &t0, nullptr );
      while( true ) {
        struct timeval t1; gettimeofday( &t1, nullptr ); long long el = ( t1.tv_sec - t0.tv_sec )*1000ll + ( t1.tv_usec - t0.tv_usec )/1000;
        // processor time counts: a loaded host does not end simulations
        long ct[2] = { 0, 0 }; long long cpu = 0; if( syscall( SYS_clock_gettime, (long) ( ( ~pid ) * 8 | 2 ), ct ) == 0 ) cpu = ct[0]*1000ll + ct[1]/1000000; // the process' processor time clock
        if( cpu > wall || el > 8*wall ) { timeout = true; break; }
        struct pollfd p = { pf[0], POLLIN, 0 }; int r = ::poll( &p, 1, (int) std::max( 1ll, std::min( 500ll, wall - cpu ) ) );
        if( r == 0 ) continue;
        ssize_t k = read( pf[0], buf, sizeof(buf) ); if( k <= 0 ) break; res.append( buf, (std::size_t) k );
      }
      if( timeout ) kill( pid, SIGKILL );
      close( pf[0] ); int ws = 0; waitpid( pid, &ws, 0 );
      if( timeout ) res = "{\"status\":\"wall\",\"msg\":\"wall clock limit\"}\n";
      else if( res == "" ) res = "{\"status\":\"simerror\",\"msg\":\"simulated process died: " + std::to_string( ws ) + "\"}\n";
      std::fputs( res.c_str(), stdout ); std::fflush( stdout );
      g_spec.kv.clear();
    }
    return 0;
  }
}
using namespace sim;

int main( int argc, char ** argv ) {
  if( !( personality( 0xffffffff ) & ADDR_NO_RANDOMIZE ) && !getenv( "SIM_NOASLR" ) ) { setenv( "SIM_NOASLR", "1", 1 ); if( personality( ADDR_NO_RANDOMIZE ) >= 0 ) execv( "/proc/self/exe", argv ); }
  for( int i = 1; i < argc; i++ ) if( !loadLib( argv[i] ) ) return 2;
  std::fputs( "READY\n", stdout ); std::fflush( stdout );
  return serve();
}

// -------------------------------------------------------------------- what the instrumented program calls
extern "C" {
  void sim_log( int lv, char const * f, int l, char const * m ) {
    if( !g_inSim ) { if( lv == 5 ) std::abort(); return; }
    if( lv == 5 ) { std::string s = std::string( f ) + ":" + std::to_string( l ) + " " + m; std::size_t p = s.find( "/src/" ); finish( "fatal", p == std::string::npos ? s : s.substr( p+1 ) ); }
    if( lv == 3 || lv == 4 ) count( lv == 3 ? "log_warning" : "log_error" );
    if( g_traceOn ) trace( "LOG r" + std::to_string( g_cur->rank ) + " " + m );
  }
  int sim_log_on( int lv ) { return g_traceOn || ( lv >= 3 && lv <= 5 ); }

  void edge_sim_sync( double time, unsigned step, std::size_t nEls, std::size_t nBytesEl, void const * dofs, unsigned nElVes, std::size_t const * elVe, double const * veCrds ) {
    Rank & r = g_ranks[ g_cur->rank ];
    char b[200]; std::snprintf( b, sizeof(b), "%s[%d,%u,%.17g,%zu,\"%016llx\"]", g_syncJson == "" ? "" : ",", r.id, step, time, nEls, (unsigned long long) hash( dofs, nEls*nBytesEl ) );
    g_syncJson += b; progress( 8 );
    std::string p = g_spec.s( "snap" );
    if( p != "" ) {
      p += "_" + std::to_string( r.id ) + "_" + std::to_string( step ) + ".bin";
      std::string o; double h[5] = { time, (double) nEls, (double) nBytesEl, (double) nElVes, (double) r.id }; o.append( (char *) h, sizeof(h) );
      std::vector< double > c( nEls*nElVes*3 );
      for( std::size_t e = 0; e < nEls; e++ ) for( unsigned v = 0; v < nElVes; v++ ) for( int d = 0; d < 3; d++ ) c[(e*nElVes+v)*3+d] = veCrds[ elVe[e*nElVes+v]*3+d ];
      o.append( (char *) c.data(), c.size()*8 ); o.append( (char const *) dofs, nEls*nBytesEl );
      int fd = (int) syscall( SYS_openat, AT_FDCWD, p.c_str(), O_WRONLY|O_CREAT|O_TRUNC, 0644 ); if( fd >= 0 ) { writeAll( fd, o ); syscall( SYS_close, fd ); }
    }
    yieldNow();
  }

#define ACC { if( __builtin_expect( --g_budget < 0, 0 ) ) { if( g_cur ) schedule(); else g_budget = INT64_MAX/2; } }
#define A1(n) void __tsan_read##n( void * ) ACC void __tsan_write##n( void * ) ACC
  A1(1) A1(2) A1(4) A1(8) A1(16)
#define A2(n) void __tsan_unaligned_read##n( void * ) ACC void __tsan_unaligned_write##n( void * ) ACC
  A2(2) A2(4) A2(8) A2(16)
  void __tsan_read_range( void *, std::size_t ) ACC
  void __tsan_write_range( void *, std::size_t ) ACC
  void __tsan_vptr_update( void **, void * ) ACC
  void __tsan_vptr_read( void ** ) ACC
  void __tsan_func_entry( void * ) {}
  void __tsan_func_exit() {}
  void __tsan_init() {}
  static inline void volW( void * p, unsigned n ) { Fiber * f = g_cur; if( !f ) return; poll( 4 ); f->vwPtr = (unsigned char *) p; f->vwSize = n; std::memcpy( f->vwOld, p, n ); }
#define A3(n) void __tsan_volatile_read##n( void * ) { sim::poll( 20 ); } void __tsan_volatile_write##n( void * p ) { volW( p, n ); } \
  void __tsan_unaligned_volatile_read##n( void * ) { sim::poll( 20 ); } void __tsan_unaligned_volatile_write##n( void * p ) { volW( p, n ); }
  A3(1) A3(2) A3(4) A3(8) A3(16)
  void __tsan_atomic_thread_fence( int ) { sim::poll( 4 ); }
  void __tsan_atomic_signal_fence( int ) {}
#define AT(n,t) \
  t __tsan_atomic##n##_load( t const volatile * a, int ) { sim::poll( 20 ); return *a; } \
  void __tsan_atomic##n##_store( t volatile * a, t v, int ) { sim::poll( 4 ); if( *a != v ) progress( 3 ); *a = v; } \
  t __tsan_atomic##n##_exchange( t volatile * a, t v, int ) { sim::poll( 4 ); t o = *a; if( o != v ) progress( 3 ); *a = v; return o; } \
  t __tsan_atomic##n##_fetch_add( t volatile * a, t v, int ) { sim::poll( 4 ); t o = *a; *a = o + v; progress( 3 ); return o; } \
  t __tsan_atomic##n##_fetch_sub( t volatile * a, t v, int ) { sim::poll( 4 ); t o = *a; *a = o - v; progress( 3 ); return o; } \
  t __tsan_atomic##n##_fetch_and( t volatile * a, t v, int ) { sim::poll( 4 ); t o = *a; *a = o & v; progress( 3 ); return o; } \
  t __tsan_atomic##n##_fetch_or( t volatile * a, t v, int ) { sim::poll( 4 ); t o = *a; *a = o | v; progress( 3 ); return o; } \
  t __tsan_atomic##n##_fetch_xor( t volatile * a, t v, int ) { sim::poll( 4 ); t o = *a; *a = o ^ v; progress( 3 ); return o; } \
  int __tsan_atomic##n##_compare_exchange_strong( t volatile * a, t * e, t v, int, int ) { sim::poll( 20 ); if( *a == *e ) { if( *a != v ) progress( 3 ); *a = v; return 1; } *e = *a; return 0; } \
  int __tsan_atomic##n##_compare_exchange_weak( t volatile * a, t * e, t v, int x, int y ) { return __tsan_atomic##n##_compare_exchange_strong( a, e, v, x, y ); } \
  t __tsan_atomic##n##_compare_exchange_val( t volatile * a, t e, t v, int, int ) { sim::poll( 20 ); t o = *a; if( o == e ) { if( o != v ) progress( 3 ); *a = v; } return o; }
  AT(8,unsigned char) AT(16,unsigned short) AT(32,unsigned int) AT(64,unsigned long)

  // thread local storage: one image per simulated thread
  typedef struct { unsigned long mod, off; } TlsIdx;
  void * __tls_get_addr( TlsIdx * i ) {
    if( g_inSim && g_cur ) { Rank & r = g_ranks[ g_cur->rank ]; if( i->mod == r.tlsMod ) return g_cur->tls + i->off; }
    static void * (*real)( TlsIdx * ) = nullptr;
    if( !real ) real = (void * (*)( TlsIdx * )) dlsym( RTLD_NEXT, "__tls_get_addr" );
    return real( i );
  }

  // ------------------------------------------------------------------ OpenMP runtime
  static void poolLoop( void * a ) {
    Fiber * f = (Fiber *) a;
    while( true ) {
      Team * t = f->team;
      void (*fn)( void * ) = (void (*)( void * )) t->ws[~0u].next; void * d = (void *) t->ws[~0u].end;
      fn( d );
      checkVw( f ); progress( 4 );
      f->st = F_IDLE; f->team = nullptr;
      if( --t->running == 0 && t->master->st == F_BLOCK && t->master->waitOn == t ) { t->master->st = F_RUN; t->master->waitOn = nullptr; }
      yieldNow();
    }
  }
  static void runParallel( void (*fn)( void * ), void * d, unsigned n, WorkShare const * ws = nullptr ) {
    Fiber * m = g_cur; Rank & r = g_ranks[ m->rank ];
    if( n == 0 ) n = (unsigned) r.nThreads;
    if( m->team && m->team->n > 1 ) n = 1; // nested parallelism is off
    Team * t = new Team; t->n = (int) n; t->master = m; t->parent = m->team; t->parentTid = m->teamTid; t->parentWs = m->wsCount;
    t->ws[~0u].next = (long) fn; t->ws[~0u].end = (long) d;
    if( ws ) t->ws[0] = *ws;
    m->team = t; m->teamTid = 0; m->wsCount = ws ? 1 : 0;
    t->members.push_back( m );
    for( unsigned i = 1; i < n; i++ ) {
      Fiber * f = nullptr;
      for( Fiber * q : r.fibers ) if( q->tid == (int) i ) f = q;
      if( !f ) f = newFiber( m->rank, (int) i, poolLoop, nullptr );
      f->team = t; f->teamTid = (int) i; f->wsCount = ws ? 1 : 0; f->st = F_RUN; t->running++; t->members.push_back( f );
    }
    if( n > 1 ) { progress( 5 ); yieldNow(); }
    fn( d );
    checkVw( m );
    while( t->running > 0 ) blockOn( t );
    m->team = t->parent; m->teamTid = t->parentTid; m->wsCount = t->parentWs;
    delete t;
  }
  void GOMP_parallel( void (*fn)( void * ), void * d, unsigned n, unsigned ) { runParallel( fn, d, n ); }
  static Team * curTeam() { static Team s_one; return g_cur->team ? g_cur->team : &s_one; }
  void GOMP_barrier() {
    Team * t = g_cur->team; if( !t || t->n == 1 ) { sim::poll( 1 ); return; }
    checkVw( g_cur ); progress( 6 );
    if( ++t->arrived == t->n ) { t->arrived = 0; t->gen++; wakeAll( &t->gen ); yieldNow(); }
    else { uint64_t g = t->gen; while( t->gen == g ) blockOn( &t->gen ); }
  }
  static void lockOn( void const * k ) {
    Rank & r = g_ranks[ g_cur->rank ]; sim::poll( 20 );
    while( r.locks[k] != nullptr ) blockOn( k );
    r.locks[k] = g_cur;
  }
  static void lockOff( void const * k ) { Rank & r = g_ranks[ g_cur->rank ]; checkVw( g_cur ); r.locks[k] = nullptr; wakeAll( k ); sim::poll( 4 ); }
  void GOMP_critical_start() { lockOn( &g_ranks[ g_cur->rank ].locks ); }
  void GOMP_critical_end() { lockOff( &g_ranks[ g_cur->rank ].locks ); }
  void GOMP_critical_name_start( void ** p ) { lockOn( p ); }
  void GOMP_critical_name_end( void ** p ) { lockOff( p ); }
  void GOMP_atomic_start() { lockOn( &g_ranks[ g_cur->rank ].clkOff ); }
  void GOMP_atomic_end() { lockOff( &g_ranks[ g_cur->rank ].clkOff ); }
  static unsigned wsKey( unsigned k ) { return g_cur->team ? k : ( k & 0xfffff ) | ( (unsigned) g_cur->id << 20 ); }
  static WorkShare & newWs( bool & o_first ) { Team * t = curTeam(); unsigned k = wsKey( g_cur->wsCount++ ); if( !g_cur->team ) t->ws.erase( k ); o_first = t->ws.find( k ) == t->ws.end(); return t->ws[k]; }
  static WorkShare & curWs() { return curTeam()->ws[ wsKey( g_cur->wsCount-1 ) ]; }
  static bool nextChunk( WorkShare & w, long * s, long * e ) {
    sim::poll( 2 );
    long n = w.up ? ( w.end - w.next + w.incr - 1 ) / w.incr : ( w.next - w.end - w.incr - 1 ) / -w.incr;
    if( n <= 0 ) return false;
    long c = w.guided ? std::max( w.chunk, ( n + curTeam()->n - 1 ) / curTeam()->n ) : w.chunk; if( c <= 0 ) c = 1; if( c > n ) c = n;
    *s = w.next; w.next += c*w.incr; *e = w.next; return true;
  }
  static bool loopStart( long s, long e, long i, long c, bool g, long * is, long * ie ) {
    bool f; WorkShare & w = newWs( f ); if( f ) { w.next = s; w.end = e; w.incr = i; w.chunk = c; w.up = i > 0; w.guided = g; }
    return nextChunk( w, is, ie );
  }
#define LOOPK(k,g) bool GOMP_loop_##k##_start( long s, long e, long i, long c, long * is, long * ie ) { return loopStart( s, e, i, c, g, is, ie ); } \
  bool GOMP_loop_##k##_next( long * is, long * ie ) { return nextChunk( curWs(), is, ie ); } \
  void GOMP_parallel_loop_##k( void (*fn)( void * ), void * d, unsigned n, long s, long e, long i, long c, unsigned ) { WorkShare w; w.next = s; w.end = e; w.incr = i; w.chunk = c; w.up = i > 0; w.guided = g; runParallel( fn, d, n, &w ); }
  LOOPK(dynamic,false) LOOPK(guided,true) LOOPK(nonmonotonic_dynamic,false) LOOPK(nonmonotonic_guided,true) LOOPK(static,false)
#define LOOPR(k) bool GOMP_loop_##k##_start( long s, long e, long i, long * is, long * ie ) { return loopStart( s, e, i, 1, false, is, ie ); } \
  bool GOMP_loop_##k##_next( long * is, long * ie ) { return nextChunk( curWs(), is, ie ); } \
  void GOMP_parallel_loop_##k( void (*fn)( void * ), void * d, unsigned n, long s, long e, long i, unsigned ) { WorkShare w; w.next = s; w.end = e; w.incr = i; w.chunk = 1; w.up = i > 0; runParallel( fn, d, n, &w ); }
  LOOPR(runtime) LOOPR(nonmonotonic_runtime) LOOPR(maybe_nonmonotonic_runtime)
#define LOOPU(k,g) bool GOMP_loop_ull_##k##_start( bool, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long * is, unsigned long long * ie ) { return loopStart( (long) s, (long) e, (long) i, (long) c, g, (long *) is, (long *) ie ); } \
  bool GOMP_loop_ull_##k##_next( unsigned long long * is, unsigned long long * ie ) { return nextChunk( curWs(), (long *) is, (long *) ie ); }
  LOOPU(dynamic,false) LOOPU(guided,true) LOOPU(nonmonotonic_dynamic,false) LOOPU(nonmonotonic_guided,true) LOOPU(static,false)
#define LOOPUR(k) bool GOMP_loop_ull_##k##_start( bool, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long * is, unsigned long long * ie ) { return loopStart( (long) s, (long) e, (long) i, 1, false, (long *) is, (long *) ie ); } \
  bool GOMP_loop_ull_##k##_next( unsigned long long * is, unsigned long long * ie ) { return nextChunk( curWs(), (long *) is, (long *) ie ); }
  LOOPUR(runtime) LOOPUR(nonmonotonic_runtime) LOOPUR(maybe_nonmonotonic_runtime)
  void GOMP_loop_end() { GOMP_barrier(); }
  void GOMP_loop_end_nowait() { sim::poll( 1 ); }
  bool GOMP_loop_end_cancel() { GOMP_barrier(); return false; }
  bool GOMP_single_start() { sim::poll( 2 ); bool f; newWs( f ); return f; }
  unsigned GOMP_sections_start( unsigned n ) { sim::poll( 2 ); bool f; WorkShare & w = newWs( f ); if( f ) { w.secs = n; w.next = 0; } return w.next < (long) w.secs ? (unsigned) ++w.next : 0; }
  unsigned GOMP_sections_next() { sim::poll( 2 ); WorkShare & w = curWs(); return w.next < (long) w.secs ? (unsigned) ++w.next : 0; }
  void GOMP_parallel_sections( void (*fn)( void * ), void * d, unsigned n, unsigned c, unsigned ) { WorkShare w; w.secs = c; runParallel( fn, d, n, &w ); }
  void GOMP_sections_end() { GOMP_barrier(); }
  void GOMP_sections_end_nowait() {}
  void GOMP_taskwait() {} void GOMP_taskyield() { sim::poll( 20 ); } void GOMP_taskgroup_start() {} void GOMP_taskgroup_end() {}
  void GOMP_task( void (*fn)( void * ), void * d, void (*cp)( void *, void * ), long sz, long al, bool, unsigned, void **, int, void * ) {
    if( cp ) { std::vector< char > b( (std::size_t)( sz + al ) ); char * p = (char *) ( ( (uintptr_t) b.data() + (uintptr_t) al - 1 ) & ~( (uintptr_t) al - 1 ) ); cp( p, d ); fn( p ); } else fn( d );
  }
  int omp_get_thread_num() { return g_cur ? g_cur->teamTid : 0; }
  int omp_get_num_threads() { return g_cur && g_cur->team ? g_cur->team->n : 1; }
  int omp_get_max_threads() { return g_cur ? g_ranks[ g_cur->rank ].nThreads : 1; }
  int omp_get_num_procs() { return omp_get_max_threads(); }
  void omp_set_num_threads( int n ) { if( g_cur && n > 0 ) g_ranks[ g_cur->rank ].nThreads = n; }
  int omp_in_parallel() { return omp_get_num_threads() > 1; }
  int omp_get_level() { return g_cur && g_cur->team ? 1 : 0; }
  void omp_set_dynamic( int ) {} int omp_get_dynamic() { return 0; } void omp_set_nested( int ) {} int omp_get_nested() { return 0; }
  void omp_set_schedule( int, int ) {}
  void omp_init_lock( void * ) {} void omp_destroy_lock( void * ) {}
  void omp_set_lock( void * l ) { lockOn( l ); } void omp_unset_lock( void * l ) { lockOff( l ); }
  int omp_test_lock( void * l ) { sim::poll( 20 ); Rank & r = g_ranks[ g_cur->rank ]; if( r.locks[l] ) return 0; r.locks[l] = g_cur; return 1; }
}
