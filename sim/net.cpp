// Deterministic simulator: message passing between the simulated ranks.
#include "sim.h"
#include "include/mpi.h"
#include <algorithm>
#include <cmath>
#include <cstring>
using namespace sim;

struct sim_mpi_req {
  bool send; int rank, peer, tag; unsigned char * buf; std::size_t size; bool done = false; uint64_t hash = 0; uint64_t msg = 0; uint64_t doneAt = ~0ull; std::size_t got = 0;
};
namespace {
  struct Msg { uint64_t id; int src, dst, tag; std::size_t size; std::vector< unsigned char > data; bool eager; sim_mpi_req * sreq; uint64_t due, sdoneAt; bool delivered = false; };
  std::vector< Msg * > g_msgs; // undelivered, in send order
  std::deque< sim_mpi_req * > g_recvs; // posted, unmatched
  std::vector< sim_mpi_req * > g_live;
  uint64_t g_nextMsg = 1;
  std::map< std::pair< int, int >, uint64_t > g_chanLast; // (src,dst,tag) -> last due tick
  struct Part { int a, b; uint64_t t0, t1; };
  std::vector< Part > g_parts; bool g_partInit = false;
  std::size_t tySize( MPI_Datatype t ) { switch( t ) { case MPI_BYTE: case MPI_CHAR: case MPI_UNSIGNED_CHAR: return 1; case MPI_SIGNED_CHAR: return 1; case MPI_SHORT: case MPI_UNSIGNED_SHORT: return 2; case MPI_INT: case MPI_UNSIGNED: case MPI_FLOAT: return 4; default: return 8; } }
  uint64_t delayOf( unsigned c ) { return c == 0 ? 0 : (uint64_t) std::pow( 2.0, c/2.0 ); }
  Rank & me() { return g_ranks[ g_cur->rank ]; }
  std::string st( long long v ) { return std::to_string( v ); }
  void enter( char const * fn ) {
    Rank & r = me();
    if( !r.mpiInit ) report( "mpi_not_initialized", fn );
    if( r.mpiFin ) report( "mpi_after_finalize", fn );
    if( r.mpiLevel <= MPI_THREAD_FUNNELED && r.mpiThread && g_cur != r.mpiThread ) report( "mpi_wrong_thread", std::string( fn ) + " called by thread " + st( g_cur->tid ) + " of rank " + st( r.id ) );
  }
  struct Coll { std::string sig; int n = 0, left = 0; std::vector< std::vector< unsigned char > > in; std::vector< unsigned char > out; bool ready = false; };
  std::map< uint64_t, Coll > g_colls;
  template< typename T > T bits( T a, T b, bool an ) { unsigned char x[sizeof(T)], y[sizeof(T)]; std::memcpy( x, &a, sizeof(T) ); std::memcpy( y, &b, sizeof(T) ); for( std::size_t i = 0; i < sizeof(T); i++ ) x[i] = (unsigned char)( an ? x[i] & y[i] : x[i] | y[i] ); std::memcpy( &a, x, sizeof(T) ); return a; }
  template< typename T > void red( std::vector< std::vector< unsigned char > > & in, std::vector< unsigned char > & out, int op ) {
    std::size_t n = out.size()/sizeof(T);
    for( std::size_t i = 0; i < n; i++ ) {
      T a; std::memcpy( &a, in[0].data()+i*sizeof(T), sizeof(T) );
      for( std::size_t r = 1; r < in.size(); r++ ) { T b; std::memcpy( &b, in[r].data()+i*sizeof(T), sizeof(T) ); if( op == MPI_MIN ) a = std::min( a, b ); else if( op == MPI_MAX ) a = std::max( a, b ); else if( op == MPI_SUM ) a = a + b; else if( op == MPI_PROD ) a = a * b; else if( op == MPI_LAND ) a = (T)( a && b ); else if( op == MPI_LOR ) a = (T)( a || b ); else if( op == MPI_BAND ) a = bits( a, b, true ); else if( op == MPI_BOR ) a = bits( a, b, false ); }
      std::memcpy( out.data()+i*sizeof(T), &a, sizeof(T) );
    }
  }
  void reduce( std::vector< std::vector< unsigned char > > & in, std::vector< unsigned char > & out, std::size_t nIn, int ty, int op ) {
    out.resize( nIn );
    switch( ty ) { case MPI_DOUBLE: red< double >( in, out, op ); break; case MPI_FLOAT: red< float >( in, out, op ); break; case MPI_INT: red< int >( in, out, op ); break; case MPI_UNSIGNED: red< unsigned >( in, out, op ); break;
          case MPI_SHORT: red< short >( in, out, op ); break; case MPI_SIGNED_CHAR: case MPI_CHAR: red< signed char >( in, out, op ); break;
          case MPI_UNSIGNED_SHORT: red< unsigned short >( in, out, op ); break; case MPI_LONG: case MPI_LONG_LONG: red< long >( in, out, op ); break; case MPI_UNSIGNED_LONG: case MPI_UNSIGNED_LONG_LONG: red< unsigned long >( in, out, op ); break; default: red< unsigned char >( in, out, op ); }
  }
  // generic collective: all ranks contribute, the last one completes it
  int coll( char const * fn, std::string const & sig, void const * in, std::size_t nIn, void * out, std::size_t nOut, int ty, int op, int root ) {
    enter( fn ); Rank & r = me(); uint64_t k = r.collSeq++;
    Coll & c = g_colls[k];
    std::string s = std::string( fn ) + sig;
    if( c.n == 0 ) { c.sig = s; c.in.resize( g_ranks.size() ); c.left = (int) g_ranks.size(); }
    else if( c.sig != s ) { report( "mpi_collective_mismatch", "rank " + st( r.id ) + " calls " + s + " where another rank calls " + c.sig ); finish( "mpierror", "collective mismatch: " + s + " vs. " + c.sig ); }
    c.in[r.id].assign( (unsigned char const *) in, (unsigned char const *) in + nIn ); c.n++;
    count( "collectives" ); progress( 20 );
    if( c.n == (int) g_ranks.size() ) {
      if( !std::strcmp( fn, "MPI_Allreduce" ) || !std::strcmp( fn, "MPI_Reduce" ) ) {
        reduce( c.in, c.out, nIn, ty, op );
      } else if( !std::strcmp( fn, "MPI_Bcast" ) ) c.out = c.in[root];
      else if( !std::strcmp( fn, "MPI_Allgather" ) || !std::strcmp( fn, "MPI_Gather" ) || !std::strcmp( fn, "MPI_Scan" ) || !std::strcmp( fn, "MPI_Exscan" ) ) for( auto & v : c.in ) c.out.insert( c.out.end(), v.begin(), v.end() );
      c.ready = true;
    }
    while( !g_colls[k].ready ) poll( 50 );
    Coll & d = g_colls[k];
    if( !std::strcmp( fn, "MPI_Scan" ) || !std::strcmp( fn, "MPI_Exscan" ) ) {
      std::size_t e = (std::size_t) r.id + ( fn[4] == 'S' ); std::vector< std::vector< unsigned char > > pre( d.in.begin(), d.in.begin() + (long) e ); std::vector< unsigned char > res;
      if( e ) { reduce( pre, res, nIn, ty, op ); std::memcpy( out, res.data(), res.size() ); }
    }
    else if( out && nOut ) std::memcpy( out, d.out.data(), std::min( nOut, d.out.size() ) );
    if( --d.left == 0 ) g_colls.erase( k );
    progress( 21 ); yieldNow();
    return MPI_SUCCESS;
  }
  void completeSend( Msg * m ) {
    sim_mpi_req * q = m->sreq; if( !q ) return;
    if( sim::hash( q->buf, q->size ) != q->hash ) report( "mpi_send_buffer_modified", "rank " + st( m->src ) + " modified a buffer of " + st( (long long) q->size ) + " bytes (tag " + st( m->tag ) + ", to rank " + st( m->dst ) + ") while its send was pending" );
    q->done = true; m->sreq = nullptr;
  }
}
namespace sim {
  uint64_t netDeliver() {
    uint64_t t = now(), next = ~0ull;
    for( std::size_t i = 0; i < g_msgs.size(); ) {
      Msg * m = g_msgs[i];
      if( m->sreq && m->eager && m->sdoneAt <= t ) { completeSend( m ); progress( 22 ); }
      if( !m->delivered && m->due <= t ) {
        // non-overtaking: an older message of the same channel goes first
        bool older = false; for( std::size_t j = 0; j < i; j++ ) if( !g_msgs[j]->delivered && g_msgs[j]->src == m->src && g_msgs[j]->dst == m->dst && g_msgs[j]->tag == m->tag ) older = true;
        if( !older ) for( auto it = g_recvs.begin(); it != g_recvs.end(); ++it ) {
          sim_mpi_req * q = *it;
          if( q->rank == m->dst && ( q->peer == m->src || q->peer == MPI_ANY_SOURCE ) && ( q->tag == m->tag || q->tag == MPI_ANY_TAG ) ) {
            if( m->size > q->size ) { report( "mpi_truncation", "message of " + st( (long long) m->size ) + " bytes for a receive of " + st( (long long) q->size ) + " (tag " + st( m->tag ) + ", " + st( m->src ) + " -> " + st( m->dst ) + ")" ); finish( "mpierror", "message truncated" ); }
            if( m->size != q->size ) report( "mpi_size_mismatch", "message of " + st( (long long) m->size ) + " bytes for a receive of " + st( (long long) q->size ) + " (tag " + st( m->tag ) + ")" );
            unsigned char const * d = m->eager ? m->data.data() : m->sreq->buf;
            std::memcpy( q->buf, d, m->size );
            q->done = true; q->hash = sim::hash( q->buf, q->size ); q->msg = m->id; q->peer = m->src; q->tag = m->tag; q->got = m->size;
            g_recvs.erase( it ); m->delivered = true; count( "msgs_delivered" ); progress( 23 );
            if( g_traceOn ) trace( "DELIVER #" + st( (long long) m->id ) + " " + st( m->src ) + "->" + st( m->dst ) + " tag " + st( m->tag ) );
            break;
          }
        }
      }
      if( m->delivered && m->sreq && !m->eager ) { completeSend( m ); progress( 22 ); }
      if( m->delivered && !m->sreq ) { delete m; g_msgs.erase( g_msgs.begin() + (long) i ); continue; }
      if( !m->delivered && m->due > t ) next = std::min( next, m->due );
      if( m->sreq && m->eager && m->sdoneAt > t ) next = std::min( next, m->sdoneAt );
      i++;
    }
    return next;
  }
  void netFinalCheck() {
    bool any = false; for( Rank & r : g_ranks ) if( r.mpiInit ) any = true;
    if( !any ) return;
    for( Rank & r : g_ranks ) if( r.mpiInit && !r.mpiFin ) report( "mpi_not_finalized", "rank " + st( r.id ) );
    for( Msg * m : g_msgs ) if( !m->delivered ) report( "mpi_unreceived", "message " + st( m->src ) + " -> " + st( m->dst ) + " tag " + st( m->tag ) + " was never received" );
  }
}
extern "C" {
  static int initT( int lv, int * prov ) {
    Rank & r = me(); if( r.mpiInit ) report( "mpi_double_init", "rank " + st( r.id ) );
    r.mpiInit = true; r.mpiLevel = lv; r.mpiThread = g_cur; if( prov ) *prov = (int) g_spec.n( "mpi_provided", std::max( lv, 1 ) );
    if( !g_partInit ) { g_partInit = true; std::string p = g_spec.s( "partitions" ); for( std::size_t o = 0; o < p.size(); ) { int a, b, n = 0; unsigned long long x, y; if( sscanf( p.c_str()+o, "%d,%d,%llu,%llu;%n", &a, &b, &x, &y, &n ) < 4 ) break; g_parts.push_back( { a, b, x, y } ); o += (std::size_t) n; } }
    return MPI_SUCCESS;
  }
  int MPI_Init( int *, char *** ) { return initT( MPI_THREAD_SINGLE, nullptr ); }
  int MPI_Init_thread( int *, char ***, int l, int * p ) { return initT( l, p ); }
  int MPI_Initialized( int * f ) { *f = me().mpiInit; return 0; }
  int MPI_Finalized( int * f ) { *f = me().mpiFin; return 0; }
  int MPI_Query_thread( int * l ) { *l = me().mpiLevel; return 0; }
  int MPI_Finalize() {
    enter( "MPI_Finalize" );
    for( sim_mpi_req * q : g_live ) if( q->rank == g_cur->rank ) report( "mpi_pending_request", std::string( q->send ? "send" : "receive" ) + " with rank " + st( q->peer ) + " tag " + st( q->tag ) + " is pending at finalize of rank " + st( q->rank ) );
    int e = coll( "MPI_Finalize", "", nullptr, 0, nullptr, 0, 0, 0, 0 ); me().mpiFin = true; return e;
  }
  int MPI_Abort( MPI_Comm, int c ) { finish( "exit", "MPI_Abort " + st( c ) ); }
  int MPI_Comm_rank( MPI_Comm, int * r ) { *r = g_cur->rank; return 0; }
  int MPI_Comm_size( MPI_Comm, int * n ) { *n = (int) g_ranks.size(); return 0; }
  int MPI_Get_version( int * a, int * b ) { *a = 3; *b = 1; return 0; }
  double MPI_Wtime() { return (double) now() * 1E-8; }

  static int isend( void const * b, int n, MPI_Datatype ty, int dst, int tag, MPI_Request * o, bool syn ) {
    enter( "MPI_Isend" );
    if( dst < 0 || dst >= (int) g_ranks.size() || n < 0 || tag < 0 ) { report( "mpi_bad_argument", "MPI_Isend dst " + st( dst ) + " tag " + st( tag ) + " count " + st( n ) ); finish( "mpierror", "bad argument of MPI_Isend" ); }
    std::size_t sz = (std::size_t) n * tySize( ty );
    // a live send of this rank which overlaps and a live receive which overlaps are hazards
    for( sim_mpi_req * q : g_live ) if( q->rank == g_cur->rank && !q->send && !q->done && q->buf < (unsigned char *) b + sz && (unsigned char *) b < q->buf + q->size ) report( "mpi_buffer_overlap", "send buffer overlaps a pending receive buffer" );
    uint32_t v = decide( D_MSG ); unsigned dc = v ? (v-1) & 255 : 0, sc = (v >> 8) & 255, md = (v >> 16) & 3;
    sim_mpi_req * q = new sim_mpi_req; q->send = true; q->rank = g_cur->rank; q->peer = dst; q->tag = tag; q->buf = (unsigned char *) b; q->size = sz; q->hash = sim::hash( b, sz );
    Msg * m = new Msg; m->id = g_nextMsg++; m->src = g_cur->rank; m->dst = dst; m->tag = tag; m->size = sz; m->eager = !( md & 1 ) && !syn; m->sreq = q; uint64_t t = now();
    if( m->eager ) m->data.assign( (unsigned char const *) b, (unsigned char const *) b + sz );
    m->due = t + 50 + delayOf( dc ); m->sdoneAt = t + 1 + delayOf( sc ); g_disturb += delayOf( dc ) + delayOf( sc );
    for( Part & p : g_parts ) if( ( ( p.a == m->src && p.b == dst ) || ( p.b == m->src && p.a == dst ) ) && m->due >= p.t0 && m->due < p.t1 ) { m->due = p.t1; count( "msgs_partitioned" ); }
    if( v ) count( m->eager ? "msgs_delayed_eager" : "msgs_delayed_rendezvous" );
    g_msgs.push_back( m ); g_live.push_back( q ); *o = q; count( "msgs_sent" ); progress( 24 );
    if( g_traceOn ) trace( "ISEND #" + st( (long long) m->id ) + " " + st( m->src ) + "->" + st( dst ) + " tag " + st( tag ) + " size " + st( (long long) sz ) + " due " + st( (long long) m->due ) );
    poll( 10 ); return MPI_SUCCESS;
  }
  int MPI_Isend( void const * b, int n, MPI_Datatype ty, int dst, int tag, MPI_Comm, MPI_Request * o ) { return isend( b, n, ty, dst, tag, o, false ); }
  int MPI_Issend( void const * b, int n, MPI_Datatype ty, int dst, int tag, MPI_Comm, MPI_Request * o ) { return isend( b, n, ty, dst, tag, o, true ); }
  int MPI_Irecv( void * b, int n, MPI_Datatype ty, int src, int tag, MPI_Comm, MPI_Request * o ) {
    enter( "MPI_Irecv" );
    if( src >= (int) g_ranks.size() || n < 0 ) { report( "mpi_bad_argument", "MPI_Irecv src " + st( src ) ); finish( "mpierror", "bad argument of MPI_Irecv" ); }
    std::size_t sz = (std::size_t) n * tySize( ty );
    for( sim_mpi_req * q : g_live ) if( q->rank == g_cur->rank && !q->done && q->buf < (unsigned char *) b + sz && (unsigned char *) b < q->buf + q->size ) report( "mpi_buffer_overlap", std::string( "receive buffer overlaps a pending " ) + ( q->send ? "send" : "receive" ) + " buffer" );
    sim_mpi_req * q = new sim_mpi_req; q->send = false; q->rank = g_cur->rank; q->peer = src; q->tag = tag; q->buf = (unsigned char *) b; q->size = sz;
    std::memset( b, 0xCB, sz ); // contents are undefined from here on
    g_recvs.push_back( q ); g_live.push_back( q ); *o = q; count( "recvs_posted" ); progress( 25 );
    if( g_traceOn ) trace( "IRECV " + st( src ) + "->" + st( g_cur->rank ) + " tag " + st( tag ) + " size " + st( (long long) sz ) );
    poll( 10 ); return MPI_SUCCESS;
  }
  static bool testOne( MPI_Request * r, MPI_Status * s ) {
    sim_mpi_req * q = *r; if( !q ) return true;
    if( std::find( g_live.begin(), g_live.end(), q ) == g_live.end() ) { report( "mpi_bad_request", "test of an unknown or already completed request" ); finish( "mpierror", "bad request" ); }
    if( !q->done ) return false;
    if( s ) { s->MPI_SOURCE = q->peer; s->MPI_TAG = q->tag; s->MPI_ERROR = 0; s->sim_bytes = (long) q->got; }
    g_live.erase( std::find( g_live.begin(), g_live.end(), q ) ); delete q; *r = nullptr; progress( 26 ); return true;
  }
  int MPI_Test( MPI_Request * r, int * f, MPI_Status * s ) { enter( "MPI_Test" ); poll( 30 ); *f = testOne( r, s ) ? 1 : 0; return MPI_SUCCESS; }
  int MPI_Testall( int n, MPI_Request * r, int * f, MPI_Status * s ) { enter( "MPI_Testall" ); poll( 30 ); *f = 1; for( int i = 0; i < n; i++ ) if( r[i] && !r[i]->done ) *f = 0; if( *f ) for( int i = 0; i < n; i++ ) testOne( r+i, s ? s+i : nullptr ); return MPI_SUCCESS; }
  int MPI_Testany( int n, MPI_Request * r, int * x, int * f, MPI_Status * s ) { enter( "MPI_Testany" ); poll( 30 ); *f = 0; *x = -32766; bool any = false; for( int i = 0; i < n; i++ ) if( r[i] ) { any = true; if( testOne( r+i, s ) ) { *f = 1; *x = i; return 0; } } if( !any ) *f = 1; return MPI_SUCCESS; }
  int MPI_Wait( MPI_Request * r, MPI_Status * s ) { enter( "MPI_Wait" ); poll( 30 ); while( !testOne( r, s ) ) poll( 50 ); return MPI_SUCCESS; }
  int MPI_Waitall( int n, MPI_Request * r, MPI_Status * s ) { enter( "MPI_Waitall" ); poll( 30 ); for( int i = 0; i < n; i++ ) while( !testOne( r+i, s ? s+i : nullptr ) ) poll( 50 ); return MPI_SUCCESS; }
  int MPI_Send( void const * b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c ) { MPI_Request r; MPI_Isend( b, n, t, d, tag, c, &r ); return MPI_Wait( &r, nullptr ); }
  int MPI_Recv( void * b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Status * s ) { MPI_Request r; MPI_Irecv( b, n, t, d, tag, c, &r ); return MPI_Wait( &r, s ); }
  static int some( int n, MPI_Request * r, int * k, int * x, MPI_Status * s ) { bool any = false; *k = 0; for( int i = 0; i < n; i++ ) if( r[i] ) { any = true; if( testOne( r+i, s ? s+*k : nullptr ) ) x[(*k)++] = i; } if( !any ) *k = MPI_UNDEFINED; return MPI_SUCCESS; }
  int MPI_Testsome( int n, MPI_Request * r, int * k, int * x, MPI_Status * s ) { enter( "MPI_Testsome" ); poll( 30 ); return some( n, r, k, x, s ); }
  int MPI_Waitsome( int n, MPI_Request * r, int * k, int * x, MPI_Status * s ) { enter( "MPI_Waitsome" ); poll( 30 ); some( n, r, k, x, s ); while( *k == 0 ) { poll( 50 ); some( n, r, k, x, s ); } return MPI_SUCCESS; }
  int MPI_Waitany( int n, MPI_Request * r, int * x, MPI_Status * s ) { enter( "MPI_Waitany" ); poll( 30 ); while( true ) { bool any = false; for( int i = 0; i < n; i++ ) if( r[i] ) { any = true; if( testOne( r+i, s ) ) { *x = i; return MPI_SUCCESS; } } if( !any ) { *x = MPI_UNDEFINED; return MPI_SUCCESS; } poll( 50 ); } }
  int MPI_Ssend( void const * b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c ) { MPI_Request r; MPI_Issend( b, n, t, d, tag, c, &r ); return MPI_Wait( &r, nullptr ); }
  int MPI_Sendrecv( void const * b, int n, MPI_Datatype t, int d, int tag, void * b2, int n2, MPI_Datatype t2, int d2, int tag2, MPI_Comm c, MPI_Status * s ) { MPI_Request r[2]; MPI_Irecv( b2, n2, t2, d2, tag2, c, r ); MPI_Isend( b, n, t, d, tag, c, r+1 ); MPI_Wait( r+1, nullptr ); return MPI_Wait( r, s ); }
  int MPI_Get_count( MPI_Status const * s, MPI_Datatype t, int * n ) { *n = (int)( s->sim_bytes/(long) tySize( t ) ); return MPI_SUCCESS; }
  int MPI_Iprobe( int src, int tag, MPI_Comm, int * f, MPI_Status * s ) { enter( "MPI_Iprobe" ); poll( 30 ); *f = 0; for( Msg * m : g_msgs ) if( !m->delivered && m->due <= now() && m->dst == g_cur->rank && ( src < 0 || src == m->src ) && ( tag < 0 || tag == m->tag ) ) { *f = 1; if( s ) { s->MPI_SOURCE = m->src; s->MPI_TAG = m->tag; s->sim_bytes = (long) m->size; } break; } return 0; }
  int MPI_Barrier( MPI_Comm ) { return coll( "MPI_Barrier", "", nullptr, 0, nullptr, 0, 0, 0, 0 ); }
  int MPI_Bcast( void * b, int n, MPI_Datatype t, int root, MPI_Comm ) { std::size_t z = (std::size_t) n*tySize( t ); return coll( "MPI_Bcast", "(" + st( n ) + "," + st( t ) + "," + st( root ) + ")", b, z, b, z, t, 0, root ); }
  int MPI_Allreduce( void const * i, void * o, int n, MPI_Datatype t, MPI_Op op, MPI_Comm ) { std::size_t z = (std::size_t) n*tySize( t ); return coll( "MPI_Allreduce", "(" + st( n ) + "," + st( t ) + "," + st( op ) + ")", i == MPI_IN_PLACE ? o : i, z, o, z, t, op, 0 ); }
  int MPI_Reduce( void const * i, void * o, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm ) { std::size_t z = (std::size_t) n*tySize( t ); return coll( "MPI_Reduce", "(" + st( n ) + "," + st( t ) + "," + st( op ) + "," + st( root ) + ")", i == MPI_IN_PLACE ? o : i, z, g_cur->rank == root ? o : nullptr, g_cur->rank == root ? z : 0, t, op, root ); }
  int MPI_Allgather( void const * i, int n, MPI_Datatype t, void * o, int m, MPI_Datatype t2, MPI_Comm ) { if( i == MPI_IN_PLACE ) { n = m; t = t2; i = (unsigned char *) o + (std::size_t) g_cur->rank*m*tySize( t2 ); } return coll( "MPI_Allgather", "(" + st( n ) + "," + st( t ) + ")", i, (std::size_t) n*tySize( t ), o, (std::size_t) m*tySize( t2 )*g_ranks.size(), t, 0, 0 ); }
  int MPI_Gather( void const * i, int n, MPI_Datatype t, void * o, int m, MPI_Datatype t2, int root, MPI_Comm ) { bool rt = g_cur->rank == root; if( i == MPI_IN_PLACE ) { n = m; t = t2; i = (unsigned char *) o + (std::size_t) g_cur->rank*m*tySize( t2 ); } return coll( "MPI_Gather", "(" + st( n ) + "," + st( t ) + "," + st( root ) + ")", i, (std::size_t) n*tySize( t ), rt ? o : nullptr, rt ? (std::size_t) m*tySize( t2 )*g_ranks.size() : 0, t, 0, root ); }
  int MPI_Scan( void const * i, void * o, int n, MPI_Datatype t, MPI_Op op, MPI_Comm ) { std::size_t z = (std::size_t) n*tySize( t ); return coll( "MPI_Scan", "(" + st( n ) + "," + st( t ) + "," + st( op ) + ")", i == MPI_IN_PLACE ? o : i, z, o, z, t, op, 0 ); }
  int MPI_Exscan( void const * i, void * o, int n, MPI_Datatype t, MPI_Op op, MPI_Comm ) { std::size_t z = (std::size_t) n*tySize( t ); return coll( "MPI_Exscan", "(" + st( n ) + "," + st( t ) + "," + st( op ) + ")", i == MPI_IN_PLACE ? o : i, z, o, z, t, op, 0 ); }
}
