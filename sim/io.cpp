// Deterministic simulator: file system calls, clocks, allocation and process end of the simulated programs.
#include "sim.h"
#include <algorithm>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <pthread.h>
#include <sched.h>
#include <set>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
using namespace sim;

namespace {
  struct Open { std::string path; bool wr; };
  std::map< int, Open > g_fds;
  uint64_t g_ioOps = 0; // mutating operations so far
  uint64_t g_crashIo = ~0ull; double g_tornFrac = -1;
  // faults: op index, kind, sticky
  struct Fault { uint64_t at; std::string kind; bool sticky; bool used; std::string match; };
  std::vector< Fault > g_faults;
  uint64_t g_allocs = 0, g_failAlloc = ~0ull;
  std::string g_root;
  std::string g_ioLog;
  bool on() { return g_inSim && g_cur; }

  enum Kind { K_OPEN, K_WRITE, K_MKDIR, K_SYNC, K_CLOSE, K_OTHER };
  void slowDisk() { if( uint32_t v = decide( D_IO ) ) { count( "io_delays" ); g_disturb += 1ull << ( v-1 ); g_cur->stallUntil = std::max< uint64_t >( g_cur->stallUntil, now() + ( 1ull << ( v-1 ) ) ); yieldNow(); } }
  // returns 0, an errno to fail with, or -1 for a short write
  int step( Kind k, std::string const & path ) {
    if( k != K_WRITE ) slowDisk();
    uint64_t i = g_ioOps++; count( "io_ops" );
    if( i == g_crashIo && k != K_WRITE ) { count( "crashes_injected" ); finish( "crash", "injected crash before I/O operation " + std::to_string( i ) ); }
    for( Fault & f : g_faults ) {
      bool hit = f.sticky ? i >= f.at : ( i == f.at );
      if( !hit || ( f.match != "" && path.find( f.match ) == std::string::npos ) ) continue;
      int e = 0; bool ap = false;
      if( f.kind == "enospc" ) { ap = k == K_OPEN || k == K_WRITE || k == K_MKDIR; e = ENOSPC; }
      else if( f.kind == "eio" ) { ap = k == K_WRITE || k == K_SYNC; e = EIO; }
      else if( f.kind == "eacces" ) { ap = k == K_OPEN || k == K_MKDIR; e = EACCES; }
      else if( f.kind == "short" ) { ap = k == K_WRITE; e = -1; }
      else if( f.kind == "eintr" ) { ap = k == K_WRITE; e = EINTR; if( f.sticky && ( i & 1 ) ) ap = false; }
      if( !ap ) continue;
      f.used = true; count( ( "io_" + f.kind ).c_str() );
      trace( "FAULT " + f.kind + " op " + std::to_string( i ) + " " + path );
      return e;
    }
    return 0;
  }
  std::string rel( char const * p ) { std::string s( p ); if( s.size() > g_root.size() && s.compare( 0, g_root.size(), g_root ) == 0 && s[g_root.size()] == '/' ) s = s.substr( g_root.size()+1 ); return s; }
  // simulated programs may only modify files below their scratch directory
  bool outside( char const * p ) {
    std::string s( p ); if( s == "" ) return false;
    if( s[0] == '/' && !( s.compare( 0, g_root.size(), g_root ) == 0 && ( s.size() == g_root.size() || s[g_root.size()] == '/' ) ) ) return true;
    int depth = 0; std::string r = s[0] == '/' ? s.substr( g_root.size() ) : s; std::size_t i = 0;
    while( i < r.size() ) { std::size_t e = r.find( '/', i ); if( e == std::string::npos ) e = r.size(); std::string c = r.substr( i, e-i ); if( c == ".." ) { if( --depth < 0 ) return true; } else if( c != "" && c != "." ) depth++; i = e+1; }
    return false;
  }
  int rawOpen( char const * p, int fl, mode_t m ) { return (int) syscall( SYS_openat, AT_FDCWD, p, fl, m ); }
  bool hidden( char const * p ) { return !std::strncmp( p, "/proc/", 6 ) || !std::strncmp( p, "/sys/", 5 ) || !std::strncmp( p, "/dev/", 5 ); }
  int simOpen( char const * p, int fl, mode_t m ) {
    if( hidden( p ) && std::strcmp( p, "/dev/null" ) ) { errno = ENOENT; return -1; }
    bool wr = ( fl & O_ACCMODE ) != O_RDONLY || ( fl & ( O_CREAT|O_TRUNC ) );
    if( !wr ) return rawOpen( p, fl, m );
    if( outside( p ) ) { report( "io_outside", std::string( "write outside of the working directory: " ) + p ); errno = EACCES; return -1; }
    int e = step( K_OPEN, rel( p ) ); if( e > 0 ) { errno = e; return -1; }
    int fd = rawOpen( p, fl, m ); count( "io_opens" );
    if( fd >= 0 ) g_fds[fd] = Open{ rel( p ), true };
    trace( std::string( "OPEN " ) + p + " " + std::to_string( fd ) );
    progress( 30 );
    return fd;
  }
  ssize_t simWrite( int fd, void const * b, std::size_t n, off_t off, bool at ) {
    slowDisk(); std::string const & p = g_fds[fd].path; uint64_t i = g_ioOps;
    if( i == g_crashIo ) { // the write is torn
      std::size_t k = g_tornFrac >= 0 ? (std::size_t) ( g_tornFrac * (double) n ) : 0; if( k > n ) k = n;
      if( k ) { if( at ) syscall( SYS_pwrite64, fd, b, k, off ); else syscall( SYS_write, fd, b, k ); count( "torn_writes" ); }
      count( "crashes_injected" ); finish( "crash", "injected crash in write " + std::to_string( i ) + " of " + p );
    }
    int e = step( K_WRITE, p ); count( "io_writes" ); progress( 31 );
    if( e > 0 ) { errno = e; return -1; }
    if( e < 0 && n > 1 ) n = std::max< std::size_t >( 1, n/2 );
    return at ? syscall( SYS_pwrite64, fd, b, n, off ) : syscall( SYS_write, fd, b, n );
  }
  struct Cookie { int fd; };
  ssize_t ckWrite( void * c, char const * b, std::size_t n ) { int fd = ((Cookie *) c)->fd; std::size_t o = 0; while( o < n ) { ssize_t r = simWrite( fd, b+o, n-o, 0, false ); if( r < 0 ) { if( errno == EINTR ) continue; return o ? (ssize_t) o : 0; } o += (std::size_t) r; } return (ssize_t) o; }
  ssize_t ckRead( void * c, char * b, std::size_t n ) { return syscall( SYS_read, ((Cookie *) c)->fd, b, n ); }
  int ckSeek( void * c, off64_t * o, int w ) { off_t r = lseek( ((Cookie *) c)->fd, *o, w ); if( r < 0 ) return -1; *o = r; return 0; }
  int ckClose( void * c ) { int fd = ((Cookie *) c)->fd; g_fds.erase( fd ); int r = (int) syscall( SYS_close, fd ); delete (Cookie *) c; return r; }
  int fopenFlags( char const * m ) { bool pl = std::strchr( m, '+' ); if( m[0] == 'r' ) return pl ? O_RDWR : O_RDONLY; if( m[0] == 'w' ) return ( pl ? O_RDWR : O_WRONLY )|O_CREAT|O_TRUNC; return ( pl ? O_RDWR : O_WRONLY )|O_CREAT|O_APPEND; }
  template< typename F > F realFn( char const * n ) { return (F) dlsym( RTLD_NEXT, n ); }
  FILE * simFopen( char const * p, char const * m, void const * caller ) {
    static auto real = realFn< FILE * (*)( char const *, char const * ) >( "fopen64" );
    if( !on() ) return real( p, m );
    int fl = fopenFlags( m );
    bool wr = ( fl & O_ACCMODE ) != O_RDONLY;
    if( !wr ) { if( hidden( p ) ) { errno = ENOENT; return nullptr; } return real( p, m ); }
    if( !inRankLib( caller ) ) { // e.g. the C++ stream library, which writes to the descriptor itself
      if( outside( p ) ) { report( "io_outside", std::string( "write outside of the working directory: " ) + p ); errno = EACCES; return nullptr; }
      int e = step( K_OPEN, rel( p ) ); if( e > 0 ) { errno = e; return nullptr; }
      FILE * f = real( p, m ); count( "io_opens" ); if( f ) g_fds[ fileno( f ) ] = Open{ rel( p ), true }; progress( 30 );
      trace( std::string( "FOPEN " ) + p + " " + m );
      return f;
    }
    int fd = simOpen( p, fl, 0666 ); if( fd < 0 ) return nullptr;
    Cookie * c = new Cookie{ fd }; cookie_io_functions_t io = { ckRead, ckWrite, ckSeek, ckClose };
    return fopencookie( c, m, io );
  }
  uint64_t clockNs() {
    Rank & r = g_ranks[ g_cur->rank ];
    uint32_t v = decide( D_CLK );
    if( v ) {
      count( "clock_faults" );
      switch( v-1 ) {
        case 0: r.clkOff += 1000000000ll; break;        case 1: r.clkOff -= 1000000000ll; break;
        case 2: r.clkOff += 3600ll*1000000000ll; break; case 3: r.clkOff -= 3600ll*1000000000ll; break;
        case 4: r.clkFrozen = !r.clkFrozen; r.clkFrozenAt = (int64_t) now()*10 + r.clkOff; break;
        case 5: r.clkOff += 50000; break;               case 6: r.clkOff -= 50000; break;
        case 7: r.clkOff += 1000000; break;             case 8: r.clkOff -= 1000000; break;
        case 9: r.clkOff += 5000; break;                case 10: r.clkOff -= 5000; break;
        default: r.clkOff += 100000000ll; break;
      }
    }
    int64_t t = r.clkFrozen ? r.clkFrozenAt : (int64_t) now()*10 + r.clkOff;
    return (uint64_t) ( 1600000000ll*1000000000ll + t );
  }
}
namespace sim {
  void ioInit() {
    char b[4096]; g_root = getcwd( b, sizeof(b) );
    if( g_spec.kv.count( "crash_io" ) ) g_crashIo = (uint64_t) g_spec.n( "crash_io" );
    g_tornFrac = g_spec.d( "torn", -1 );
    if( g_spec.kv.count( "fail_alloc" ) ) g_failAlloc = (uint64_t) g_spec.n( "fail_alloc" );
    std::string f = g_spec.s( "io_faults" ); // at,kind,sticky,match;..
    std::size_t i = 0;
    while( i < f.size() ) { std::size_t e = f.find( ';', i ); if( e == std::string::npos ) e = f.size(); std::string x = f.substr( i, e-i ); std::vector< std::string > t; std::string c; for( char ch : x + "," ) if( ch == ',' ) { t.push_back( c ); c = ""; } else c += ch; if( t.size() >= 3 ) g_faults.push_back( { std::stoull( t[0] ), t[1], t[2] == "1", false, t.size() > 3 ? t[3] : "" } ); i = e+1; }
  }
}
extern "C" {
  int open( char const * p, int fl, ... ) { mode_t m = 0; if( fl & (O_CREAT|O_TMPFILE) ) { va_list a; va_start( a, fl ); m = va_arg( a, mode_t ); va_end( a ); } return on() ? simOpen( p, fl, m ) : rawOpen( p, fl, m ); }
  int open64( char const * p, int fl, ... ) { mode_t m = 0; if( fl & (O_CREAT|O_TMPFILE) ) { va_list a; va_start( a, fl ); m = va_arg( a, mode_t ); va_end( a ); } return on() ? simOpen( p, fl, m ) : rawOpen( p, fl, m ); }
  int creat( char const * p, mode_t m ) { return on() ? simOpen( p, O_CREAT|O_WRONLY|O_TRUNC, m ) : rawOpen( p, O_CREAT|O_WRONLY|O_TRUNC, m ); }
  FILE * fopen( char const * p, char const * m ) { return simFopen( p, m, __builtin_return_address( 0 ) ); }
  FILE * fopen64( char const * p, char const * m ) { return simFopen( p, m, __builtin_return_address( 0 ) ); }
  int close( int fd ) { if( on() ) g_fds.erase( fd ); return (int) syscall( SYS_close, fd ); }
  int fclose( FILE * f ) { static auto real = realFn< int (*)( FILE * ) >( "fclose" ); if( on() ) { int fd = fileno( f ); if( fd >= 0 ) g_fds.erase( fd ); } return real( f ); }
  ssize_t write( int fd, void const * b, std::size_t n ) { if( on() && g_fds.count( fd ) ) return simWrite( fd, b, n, 0, false ); return syscall( SYS_write, fd, b, n ); }
  ssize_t writev( int fd, struct iovec const * v, int n ) {
    if( on() && g_fds.count( fd ) ) { std::string s; for( int i = 0; i < n; i++ ) s.append( (char const *) v[i].iov_base, v[i].iov_len ); return simWrite( fd, s.data(), s.size(), 0, false ); }
    return syscall( SYS_writev, fd, v, n );
  }
  ssize_t pwrite( int fd, void const * b, std::size_t n, off_t o ) { if( on() && g_fds.count( fd ) ) return simWrite( fd, b, n, o, true ); return syscall( SYS_pwrite64, fd, b, n, o ); }
  ssize_t pwrite64( int fd, void const * b, std::size_t n, off64_t o ) { return pwrite( fd, b, n, o ); }
  int mkdir( char const * p, mode_t m ) {
    if( on() ) { if( outside( p ) ) { report( "io_outside", std::string( "mkdir outside of the working directory: " ) + p ); errno = EACCES; return -1; } yieldNow(); int e = step( K_MKDIR, rel( p ) ); count( "io_mkdirs" ); if( e > 0 ) { errno = e; return -1; } trace( std::string( "MKDIR " ) + p ); }
    return (int) syscall( SYS_mkdir, p, m );
  }
  int unlink( char const * p ) { if( on() ) { if( outside( p ) ) { report( "io_outside", std::string( "unlink " ) + p ); errno = EACCES; return -1; } step( K_OTHER, rel( p ) ); } return (int) syscall( SYS_unlink, p ); }
  int remove( char const * p ) { if( on() && outside( p ) ) { report( "io_outside", std::string( "remove " ) + p ); errno = EACCES; return -1; } int r = (int) syscall( SYS_unlink, p ); if( r ) r = (int) syscall( SYS_rmdir, p ); return r; }
  int rename( char const * a, char const * b ) { if( on() ) { if( outside( a ) || outside( b ) ) { report( "io_outside", std::string( "rename " ) + a ); errno = EACCES; return -1; } step( K_OTHER, rel( b ) ); } return (int) syscall( SYS_rename, a, b ); }
  int system( char const * c ) { if( on() ) { report( "io_outside", std::string( "system: " ) + c ); return -1; } return -1; }
  int fsync( int fd ) { if( on() ) { if( g_fds.count( fd ) ) { int e = step( K_SYNC, g_fds[fd].path ); if( e > 0 ) { errno = e; return -1; } } return 0; } return (int) syscall( SYS_fsync, fd ); }
  int fdatasync( int fd ) { return fsync( fd ); }

  int gettimeofday( struct timeval * t, void * ) { if( on() ) { uint64_t n = clockNs(); t->tv_sec = (time_t) ( n / 1000000000ull ); t->tv_usec = (suseconds_t) ( n % 1000000000ull / 1000 ); return 0; } return (int) syscall( SYS_gettimeofday, t, nullptr ); }
  int clock_gettime( clockid_t c, struct timespec * t ) { if( on() ) { uint64_t n = clockNs(); t->tv_sec = (time_t) ( n / 1000000000ull ); t->tv_nsec = (long) ( n % 1000000000ull ); return 0; } return (int) syscall( SYS_clock_gettime, c, t ); }
  time_t time( time_t * t ) { time_t v; if( on() ) v = (time_t) ( clockNs() / 1000000000ull ); else { struct timeval tv; syscall( SYS_gettimeofday, &tv, nullptr ); v = tv.tv_sec; } if( t ) *t = v; return v; }
  // fibers share one thread: a contended mutex has to let the others run
  int pthread_mutex_lock( pthread_mutex_t * m ) noexcept { int e; while( ( e = pthread_mutex_trylock( m ) ) == EBUSY ) { if( on() ) poll( 50 ); else sched_yield(); } return e; }
  double omp_get_wtime() { return on() ? (double) clockNs() * 1E-9 : 0; }
  int usleep( useconds_t u ) { if( on() ) { g_cur->stallUntil = now() + u*100ull; yieldNow(); } return 0; }
  int nanosleep( struct timespec const * r, struct timespec * ) { if( on() ) { g_cur->stallUntil = now() + (uint64_t) r->tv_sec*100000000ull + (uint64_t) r->tv_nsec/10; yieldNow(); } return 0; }
  int sched_yield() { if( on() ) sim::poll( 20 ); return 0; }
  unsigned sleep( unsigned s ) { if( on() ) { g_cur->stallUntil = now() + s*100000000ull; yieldNow(); } return 0; }

  int posix_memalign( void ** p, std::size_t al, std::size_t n ) {
    if( on() ) { uint64_t i = g_allocs++; count( "allocs" ); if( i == g_failAlloc ) { count( "alloc_failures" ); return ENOMEM; } }
    static auto real = realFn< int (*)( void **, std::size_t, std::size_t ) >( "posix_memalign" ); return real( p, al, n );
  }
  void exit( int c ) { if( on() ) rankExit( c ); static auto real = realFn< void (*)( int ) >( "exit" ); real( c ); __builtin_unreachable(); }
  void abort( void ) { if( on() ) finish( "abort", "rank " + std::to_string( g_cur->rank ) + " aborted" ); static auto real = realFn< void (*)() >( "abort" ); real(); __builtin_unreachable(); }
}
