// Minimal MPI: processes on one machine, eager messages through a shared file.
// MINI_MPI_DELAY: sends complete (and read their buffers) only after a delay of up to that many microseconds
// MINI_MPI_FILE: file with the shared memory (created by run.sh, zeros), MINI_MPI_RANK, MINI_MPI_SIZE
#include <mpi.h>
#include <atomic>
#include <mutex>
#include <vector>
#include <list>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fcntl.h>
#include <sched.h>
#include <sys/mman.h>
#include <unistd.h>
struct mini_mpi_req { bool send, done; void * buf; std::size_t bytes; int peer, tag; double due; };
namespace {
  struct Msg { std::size_t next, bytes; int src, tag; }; // payload follows
  struct Shared { std::atomic< int > lock; std::atomic< int > abort; std::size_t top; std::size_t head[64], tail[64]; std::atomic< int > n, gen; char coll[64][1<<16]; };
  std::size_t const SZ = std::size_t( 1 ) << 32;
  Shared * S = nullptr; int R = 0, N = 1; bool init = false, fin = false;
  std::recursive_mutex M; std::list< std::size_t > q; std::vector< MPI_Request > posted;
  std::size_t sz( MPI_Datatype t ) { static std::size_t s[] = { 0, 1, 1, 4, 4, 8, 8, 4, 8, 2, 8, 8, 1 }; return s[t]; }
  Msg * at( std::size_t o ) { return (Msg*) ( (char*) S + o ); }
  void lock() { while( S->lock.exchange( 1 ) ) sched_yield(); }
  void unlock() { S->lock = 0; }
  double now() { timespec t; clock_gettime( CLOCK_MONOTONIC, &t ); return t.tv_sec + 1E-9*t.tv_nsec; }
  double maxDelay = 0; unsigned seed = 1; std::vector< MPI_Request > late; // delayed sends, in order
  void put( void const * b, std::size_t n, int d, int tag ) {
    lock(); if( !S->top ) S->top = ( sizeof( Shared ) + 63 )/64*64;
    std::size_t o = S->top; S->top += ( sizeof( Msg ) + n + 63 )/64*64;
    if( S->top > SZ ) { std::fprintf( stderr, "mini mpi: out of memory\n" ); S->abort = 1; _exit( 97 ); }
    Msg * m = at( o ); m->next = 0; m->bytes = n; m->src = R; m->tag = tag; std::memcpy( m+1, b, n );
    if( S->tail[d] ) at( S->tail[d] )->next = o; else S->head[d] = o;
    S->tail[d] = o; unlock();
  }
  void progress() {
    if( S->abort ) _exit( 98 );
    double t = late.empty() ? 0 : now(); std::vector< int > blocked;
    for( std::size_t i = 0; i < late.size(); ) {
      MPI_Request r = late[i]; bool b = r->due > t; for( int p : blocked ) if( p == r->peer ) b = true;
      if( b ) { blocked.push_back( r->peer ); i++; } else { put( r->buf, r->bytes, r->peer, r->tag ); r->done = true; late.erase( late.begin()+i ); }
    }
    lock(); while( S->head[R] ) { q.push_back( S->head[R] ); S->head[R] = at( S->head[R] )->next; } S->tail[R] = 0; unlock();
    for( std::size_t i = 0; i < posted.size(); ) {
      MPI_Request r = posted[i]; bool hit = false;
      for( auto m = q.begin(); m != q.end(); m++ ) {
        Msg * x = at( *m );
        if( ( r->peer == MPI_ANY_SOURCE || r->peer == x->src ) && ( r->tag == MPI_ANY_TAG || r->tag == x->tag ) ) {
          if( x->bytes > r->bytes ) { std::fprintf( stderr, "mini mpi: truncated message\n" ); S->abort = 1; _exit( 98 ); }
          std::memcpy( r->buf, x+1, x->bytes ); r->done = true; q.erase( m ); hit = true; break;
        }
      }
      if( hit ) posted.erase( posted.begin()+i ); else i++;
    }
  }
  template< class T > void red( T * a, T const * b, int n, MPI_Op o ) { for( int i = 0; i < n; i++ ) a[i] = o == MPI_MIN ? ( b[i] < a[i] ? b[i] : a[i] ) : o == MPI_MAX ? ( b[i] > a[i] ? b[i] : a[i] ) : o == MPI_SUM ? T( a[i]+b[i] ) : o == MPI_PROD ? T( a[i]*b[i] ) : o == MPI_LAND ? T( a[i] && b[i] ) : T( a[i] || b[i] ); }
}
extern "C" {
int MPI_Init_thread( int *, char ***, int q, int * p ) {
  if( p ) *p = q;
  char const * f = getenv( "MINI_MPI_FILE" ), * r = getenv( "MINI_MPI_RANK" ), * n = getenv( "MINI_MPI_SIZE" );
  char const * dl = getenv( "MINI_MPI_DELAY" ); if( dl ) maxDelay = atof( dl );
  if( r ) R = atoi( r ); seed = 17*R + 5; if( n ) N = atoi( n );
  int fd = f ? open( f, O_RDWR ) : -1;
  S = (Shared*) mmap( nullptr, SZ, PROT_READ|PROT_WRITE, fd < 0 ? MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE : MAP_SHARED, fd, 0 );
  if( S == MAP_FAILED ) { perror( "mini mpi" ); _exit( 97 ); }
  init = true; return 0;
}
int MPI_Init( int * a, char *** b ) { return MPI_Init_thread( a, b, 0, nullptr ); }
int MPI_Initialized( int * f ) { *f = init; return 0; } int MPI_Finalized( int * f ) { *f = fin; return 0; }
int MPI_Query_thread( int * p ) { *p = MPI_THREAD_MULTIPLE; return 0; }
int MPI_Abort( MPI_Comm, int c ) { S->abort = 1; _exit( c ? c : 98 ); }
int MPI_Comm_rank( MPI_Comm, int * r ) { *r = R; return 0; } int MPI_Comm_size( MPI_Comm, int * n ) { *n = N; return 0; }
int MPI_Get_version( int * a, int * b ) { *a = 3; *b = 0; return 0; }
int MPI_Barrier( MPI_Comm ) {
  int g = S->gen; if( ++S->n == N ) { S->n = 0; S->gen++; } else while( S->gen == g ) { if( S->abort ) _exit( 98 ); sched_yield(); }
  return 0;
}
int MPI_Finalize() { while( !late.empty() ) { { std::lock_guard< std::recursive_mutex > l( M ); progress(); } sched_yield(); } MPI_Barrier( 0 ); fin = true; return 0; }
int MPI_Isend( void const * b, int c, MPI_Datatype t, int d, int tag, MPI_Comm, MPI_Request * r ) {
  std::lock_guard< std::recursive_mutex > l( M ); std::size_t n = c*sz( t );
  if( maxDelay == 0 ) { put( b, n, d, tag ); *r = new mini_mpi_req{ true, true, nullptr, n, d, tag, 0 }; return 0; }
  seed = seed*1103515245u + 12345u;
  *r = new mini_mpi_req{ true, false, (void*) b, n, d, tag, now() + 1E-6*maxDelay*( ( seed >> 8 ) % 1000 )/1000 }; late.push_back( *r ); return 0;
}
int MPI_Irecv( void * b, int c, MPI_Datatype t, int s, int tag, MPI_Comm, MPI_Request * r ) {
  std::lock_guard< std::recursive_mutex > l( M );
  *r = new mini_mpi_req{ false, false, b, c*sz( t ), s, tag, 0 }; posted.push_back( *r ); return 0;
}
int MPI_Test( MPI_Request * r, int * f, MPI_Status * ) {
  std::lock_guard< std::recursive_mutex > l( M );
  if( *r == MPI_REQUEST_NULL ) { *f = 1; return 0; }
  progress(); *f = (*r)->done; if( *f ) { delete *r; *r = MPI_REQUEST_NULL; } return 0;
}
int MPI_Wait( MPI_Request * r, MPI_Status * s ) { int f = 0; while( 1 ) { MPI_Test( r, &f, s ); if( f ) return 0; sched_yield(); } }
int MPI_Waitall( int n, MPI_Request * r, MPI_Status * ) { for( int i = 0; i < n; i++ ) MPI_Wait( r+i, MPI_STATUS_IGNORE ); return 0; }
int MPI_Testall( int n, MPI_Request * r, int * f, MPI_Status * ) {
  std::lock_guard< std::recursive_mutex > l( M ); progress(); *f = 1;
  for( int i = 0; i < n; i++ ) if( r[i] != MPI_REQUEST_NULL && !r[i]->done ) *f = 0;
  if( *f ) for( int i = 0; i < n; i++ ) { delete r[i]; r[i] = MPI_REQUEST_NULL; }
  return 0;
}
int MPI_Testany( int n, MPI_Request * r, int * x, int * f, MPI_Status * s ) { *f = 0; for( int i = 0; i < n; i++ ) if( r[i] != MPI_REQUEST_NULL ) { MPI_Test( r+i, f, s ); if( *f ) { *x = i; return 0; } } return 0; }
int MPI_Iprobe( int s, int tag, MPI_Comm, int * f, MPI_Status * ) {
  std::lock_guard< std::recursive_mutex > l( M ); progress(); *f = 0;
  for( auto m : q ) if( ( s == MPI_ANY_SOURCE || at( m )->src == s ) && ( tag == MPI_ANY_TAG || at( m )->tag == tag ) ) *f = 1;
  return 0;
}
int MPI_Send( void const * b, int c, MPI_Datatype t, int d, int tag, MPI_Comm k ) { MPI_Request r; MPI_Isend( b, c, t, d, tag, k, &r ); return MPI_Wait( &r, MPI_STATUS_IGNORE ); }
int MPI_Recv( void * b, int c, MPI_Datatype t, int s, int tag, MPI_Comm k, MPI_Status * st ) { MPI_Request r; MPI_Irecv( b, c, t, s, tag, k, &r ); return MPI_Wait( &r, st ); }
int MPI_Allreduce( void const * a, void * b, int c, MPI_Datatype t, MPI_Op o, MPI_Comm k ) {
  std::size_t n = c*sz( t ); if( n > sizeof( S->coll[0] ) ) { std::fprintf( stderr, "mini mpi: too large\n" ); S->abort = 1; _exit( 97 ); }
  std::memcpy( S->coll[R], a, n ); MPI_Barrier( k ); std::vector< char > x( S->coll[0], S->coll[0]+n );
  for( int r = 1; r < N; r++ ) {
    void * u = x.data(), * v = S->coll[r];
    switch( t ) {
      case MPI_INT: red( (int*) u, (int*) v, c, o ); break; case MPI_UNSIGNED: red( (unsigned*) u, (unsigned*) v, c, o ); break;
      case MPI_LONG: case MPI_LONG_LONG: red( (long*) u, (long*) v, c, o ); break; case MPI_UNSIGNED_LONG: case MPI_UNSIGNED_LONG_LONG: red( (unsigned long*) u, (unsigned long*) v, c, o ); break;
      case MPI_FLOAT: red( (float*) u, (float*) v, c, o ); break; case MPI_DOUBLE: red( (double*) u, (double*) v, c, o ); break;
      case MPI_UNSIGNED_SHORT: red( (unsigned short*) u, (unsigned short*) v, c, o ); break; default: red( (unsigned char*) u, (unsigned char*) v, c, o );
    }
  }
  MPI_Barrier( k ); std::memcpy( b, x.data(), n ); return 0;
}
int MPI_Reduce( void const * a, void * b, int c, MPI_Datatype t, MPI_Op o, int root, MPI_Comm k ) { std::vector< char > x( c*sz( t )+1 ); MPI_Allreduce( a, x.data(), c, t, o, k ); if( R == root ) std::memcpy( b, x.data(), c*sz( t ) ); return 0; }
int MPI_Bcast( void * b, int c, MPI_Datatype t, int root, MPI_Comm k ) { std::size_t n = c*sz( t ); if( R == root ) std::memcpy( S->coll[R], b, n ); MPI_Barrier( k ); std::memcpy( b, S->coll[root], n ); MPI_Barrier( k ); return 0; }
int MPI_Allgather( void const * a, int c, MPI_Datatype t, void * b, int, MPI_Datatype, MPI_Comm k ) { std::size_t n = c*sz( t ); std::memcpy( S->coll[R], a, n ); MPI_Barrier( k ); for( int r = 0; r < N; r++ ) std::memcpy( (char*) b+r*n, S->coll[r], n ); MPI_Barrier( k ); return 0; }
double MPI_Wtime() { timespec t; clock_gettime( CLOCK_MONOTONIC, &t ); return t.tv_sec + 1E-9*t.tv_nsec; }
}
