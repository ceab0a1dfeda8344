// Deterministic simulator: shared declarations.
#ifndef SIM_H
#define SIM_H
#include <cstddef>
#include <cstdint>
#include <deque>
#include <map>
#include <string>
#include <vector>

namespace sim {
  enum FState { F_IDLE, F_RUN, F_BLOCK, F_DONE };
  struct Team;
  struct Fiber {
    void * sp = nullptr; char * stk = nullptr; std::size_t stkSize = 0;
    int rank = 0, tid = 0, id = 0;
    FState st = F_IDLE;
    void (*fn)( void * ) = nullptr; void * arg = nullptr;
    Team * team = nullptr; int teamTid = 0; unsigned wsCount = 0;
    unsigned char * tls = nullptr;
    uint64_t epoch = 0, polls = 0;   // polls since the last global progress event
    uint64_t own = 0, lastPoll = 0;  // own ticks, own ticks at the last poll
    unsigned char const * vwPtr = nullptr; unsigned vwSize = 0; unsigned char vwOld[16];
    uint64_t stallUntil = 0;
    void const * waitOn = nullptr;
  };
  struct WorkShare { long next = 0, end = 0, incr = 1, chunk = 1; bool up = true, guided = false; int left = 0; bool single = false; unsigned secs = 0; };
  struct Team { int n = 1; int arrived = 0; uint64_t gen = 0; int running = 0; Fiber * master = nullptr; Team * parent = nullptr; int parentTid = 0; unsigned parentWs = 0; std::map< unsigned, WorkShare > ws; std::vector< Fiber * > members; };
  struct Rank {
    int id = 0; void * handle = nullptr; std::size_t tlsMod = 0; std::size_t tlsSize = 0; std::vector< unsigned char > tlsInit;
    uintptr_t lo = 0, hi = 0;
    int nThreads = 1; std::vector< Fiber * > fibers;
    bool done = false; int code = 0;
    bool mpiInit = false, mpiFin = false; int mpiLevel = 0; Fiber * mpiThread = nullptr;
    int64_t clkOff = 0; bool clkFrozen = false; int64_t clkFrozenAt = 0;
    uint64_t collSeq = 0;
    std::map< void const *, Fiber * > locks;
  };
  extern Fiber * g_cur;
  extern uint64_t g_disturb;
  extern std::vector< Rank > g_ranks;
  extern int64_t g_budget;
  uint64_t now();                    // simulated ticks
  void progress( int i_kind );       // a global progress event
  void poll( int i_cost );           // a polling point of the current fiber
  void yieldNow();                   // forced scheduling decision
  uint32_t decide( int i_stream );
  enum { D_SCHED = 0, D_MSG = 1, D_CLK = 2, D_IO = 3, D_N = 4 };
  void wakeAll( void const * i_on );
  void blockOn( void const * i_on );
  void report( char const * i_kind, std::string const & i_msg ); // protocol violation, run goes on
  [[noreturn]] void finish( char const * i_status, std::string const & i_msg );
  [[noreturn]] void rankExit( int i_code );
  uint64_t netDeliver();             // delivers what is due, returns the tick of the next pending delivery (or max)
  void netFinalCheck();
  void count( char const * i_name, uint64_t i_n = 1 );
  uint64_t countOf( char const * i_name );
  uint64_t hash( void const * i_p, std::size_t i_n, uint64_t i_h = 1469598103934665603ull );
  void trace( std::string const & i_s );
  extern bool g_traceOn;

  struct Spec {
    std::map< std::string, std::string > kv;
    std::string s( std::string const & k, std::string const & d = "" ) const { auto i = kv.find( k ); return i == kv.end() ? d : i->second; }
    long long n( std::string const & k, long long d = 0 ) const { auto i = kv.find( k ); return i == kv.end() ? d : std::stoll( i->second ); }
    double d( std::string const & k, double v = 0 ) const { auto i = kv.find( k ); return i == kv.end() ? v : std::stod( i->second ); }
  };
  extern Spec g_spec;
  void ioInit();
  bool inRankLib( void const * i_addr );
  extern bool g_inSim;
}
#endif
