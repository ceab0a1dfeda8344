// Stand-in for libgmsh, linked into every simulated process (own state per process).
// File format (text): "SIMMSH dim gmshElType nVes nEls nPhGrs", vertices "tag x y z",
// elements "v0 v1 ..", physical groups "id nFas" followed by the faces' vertices.
#include "gmsh.h"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <set>
#include <stdexcept>
namespace {
  struct Model {
    int dim = 0, ty = 0;
    std::vector< std::size_t > veTags; std::vector< double > crds;
    std::vector< std::size_t > elVe;
    std::vector< int > phIds; std::vector< std::vector< std::size_t > > phFaVe;
    std::vector< std::size_t > elTags; std::vector< std::vector< std::size_t > > phFaTags;
    std::vector< std::size_t > pas; // number of elements per partition
    bool split = false;
    std::map< int, std::vector< double > > views; int nextView = 1; int paView = -1;
  };
  Model g_m;
  int nEv( int t ) { return t == 15 ? 1 : t == 1 ? 2 : t == 2 ? 3 : t == 3 ? 4 : t == 4 ? 4 : t == 5 ? 8 : 0; }
  int dimTy( int t ) { return t == 15 ? 0 : t == 1 ? 1 : t <= 3 ? 2 : 3; }
  int faTy( int t ) { return t == 1 ? 15 : t <= 3 ? 1 : t == 4 ? 2 : 3; }
  void faces( int t, std::vector< std::vector< int > > & f ) {
    if( t == 2 ) f = { {0,1},{1,2},{2,0} };
    else if( t == 3 ) f = { {0,1},{1,2},{2,3},{3,0} };
    else if( t == 4 ) f = { {0,2,1},{0,1,3},{0,3,2},{3,1,2} };
    else if( t == 5 ) f = { {0,3,2,1},{0,1,5,4},{0,4,7,3},{1,2,6,5},{2,3,7,6},{4,5,6,7} };
    else f.clear();
  }
  void writeOne( std::string const & p, std::size_t first, std::size_t n ) {
    int nv = nEv( g_m.ty );
    std::set< std::size_t > used;
    for( std::size_t i = first*nv; i < (first+n)*nv; i++ ) used.insert( g_m.elVe[i] );
    // faces of the contained elements
    std::vector< std::vector< int > > f; faces( g_m.ty, f );
    std::set< std::vector< std::size_t > > fs;
    for( std::size_t e = first; e < first+n; e++ ) for( auto & l : f ) { std::vector< std::size_t > k; for( int v : l ) k.push_back( g_m.elVe[e*nv+v] ); std::sort( k.begin(), k.end() ); fs.insert( k ); }
    FILE * o = std::fopen( p.c_str(), "w" );
    if( !o ) throw std::runtime_error( "gmsh: cannot write " + p );
    std::fprintf( o, "SIMMSH %d %d %zu %zu %zu\n", g_m.dim, g_m.ty, used.size(), n, g_m.phIds.size() );
    // deliberately not ordered by tag, the consumer has to sort
    std::vector< std::size_t > idx;
    for( std::size_t v = 0; v < g_m.veTags.size(); v++ ) if( used.count( g_m.veTags[v] ) ) idx.push_back( v );
    if( n != g_m.elVe.size()/nv ) std::reverse( idx.begin(), idx.end() );
    for( std::size_t v : idx ) std::fprintf( o, "%zu %.17g %.17g %.17g\n", g_m.veTags[v], g_m.crds[v*3], g_m.crds[v*3+1], g_m.crds[v*3+2] );
    for( std::size_t e = first; e < first+n; e++ ) { for( int v = 0; v < nv; v++ ) std::fprintf( o, "%zu ", g_m.elVe[e*nv+v] ); std::fprintf( o, "\n" ); }
    int fv = nEv( faTy( g_m.ty ) );
    for( std::size_t g = 0; g < g_m.phIds.size(); g++ ) {
      std::vector< std::size_t > out;
      for( std::size_t i = 0; i < g_m.phFaVe[g].size(); i += fv ) { std::vector< std::size_t > k( g_m.phFaVe[g].begin()+i, g_m.phFaVe[g].begin()+i+fv ); std::sort( k.begin(), k.end() ); if( fs.count( k ) ) for( int v = 0; v < fv; v++ ) out.push_back( g_m.phFaVe[g][i+v] ); }
      std::fprintf( o, "%d %zu\n", g_m.phIds[g], out.size()/fv );
      for( std::size_t i = 0; i < out.size(); i++ ) std::fprintf( o, "%zu ", out[i] );
      std::fprintf( o, "\n" );
    }
    bool bad = std::ferror( o ) != 0; if( std::fclose( o ) != 0 || bad ) throw std::runtime_error( "gmsh: cannot write " + p );
  }
}
namespace gmsh {
  void initialize( int, char **, bool, bool ) { g_m = Model(); }
  void finalize() { g_m = Model(); }
  void clear() { g_m = Model(); }
  void open( std::string const & p ) {
    FILE * i = std::fopen( p.c_str(), "r" );
    if( !i ) throw std::runtime_error( "gmsh: cannot open " + p );
    std::size_t nv = 0, ne = 0, np = 0; bool ok = true;
    ok = ok && std::fscanf( i, "SIMMSH %d %d %zu %zu %zu", &g_m.dim, &g_m.ty, &nv, &ne, &np ) == 5;
    if( !ok || nv > 100000000 || ne > 100000000 || np > 1000 ) { std::fclose( i ); throw std::runtime_error( "gmsh: broken file " + p ); }
    g_m.veTags.resize( nv ); g_m.crds.resize( nv*3 );
    for( std::size_t v = 0; v < nv && ok; v++ ) ok = std::fscanf( i, "%zu %lf %lf %lf", &g_m.veTags[v], &g_m.crds[v*3], &g_m.crds[v*3+1], &g_m.crds[v*3+2] ) == 4;
    g_m.elVe.resize( ne*nEv( g_m.ty ) );
    for( std::size_t e = 0; e < g_m.elVe.size() && ok; e++ ) ok = std::fscanf( i, "%zu", &g_m.elVe[e] ) == 1;
    for( std::size_t g = 0; g < np && ok; g++ ) {
      int id = 0; std::size_t n = 0; ok = std::fscanf( i, "%d %zu", &id, &n ) == 2; if( !ok ) break;
      std::vector< std::size_t > f( n*nEv( faTy( g_m.ty ) ) );
      for( std::size_t v = 0; v < f.size() && ok; v++ ) ok = std::fscanf( i, "%zu", &f[v] ) == 1;
      g_m.phIds.push_back( id ); g_m.phFaVe.push_back( f );
    }
    std::fclose( i );
    if( !ok ) throw std::runtime_error( "gmsh: broken file " + p );
    model::mesh::renumberElements();
  }
  void write( std::string const & p ) {
    if( g_m.pas.empty() || !g_m.split ) { writeOne( p, 0, g_m.elVe.size()/nEv( g_m.ty ) ); return; }
    std::size_t d = p.rfind( '.' ); std::string b = p.substr( 0, d ), e = d == std::string::npos ? "" : p.substr( d );
    std::size_t first = 0;
    for( std::size_t i = 0; i < g_m.pas.size(); i++ ) { writeOne( b + "_" + std::to_string( i+1 ) + e, first, g_m.pas[i] ); first += g_m.pas[i]; }
  }
  namespace option { void setNumber( std::string const & n, double v ) { if( n == "Mesh.PartitionSplitMeshFiles" ) g_m.split = v != 0; } }
  namespace model {
    int getDimension() { return g_m.dim; }
    void getCurrent( std::string & n ) { n = "sim"; }
    void getEntities( vectorpair & d, int dim ) { d.clear(); if( dim < 0 || dim == g_m.dim ) d.push_back( std::make_pair( g_m.dim, 1 ) ); }
    void getPhysicalGroups( vectorpair & d, int dim ) { d.clear(); for( int i : g_m.phIds ) if( dim < 0 || dim == g_m.dim-1 ) d.push_back( std::make_pair( g_m.dim-1, i ) ); }
    void getEntitiesForPhysicalGroup( int dim, int tag, std::vector< int > & t ) { t.clear(); if( dim == g_m.dim-1 ) for( std::size_t g = 0; g < g_m.phIds.size(); g++ ) if( g_m.phIds[g] == tag ) t.push_back( (int) g+1 ); }
    namespace mesh {
      int getElementType( std::string const & f, int, bool ) { return f == "point" ? 15 : f == "line" ? 1 : f == "triangle" ? 2 : f == "quadrangle" ? 3 : f == "tetrahedron" ? 4 : f == "hexahedron" ? 5 : 0; }
      void getElementTypes( std::vector< int > & t, int dim, int ) { t.clear(); if( dim < 0 || dim == g_m.dim ) t.push_back( g_m.ty ); }
      void renumberNodes() {}
      void renumberElements() {
        std::size_t t = 1; g_m.phFaTags.resize( g_m.phIds.size() );
        int fv = nEv( faTy( g_m.ty ) );
        for( std::size_t g = 0; g < g_m.phIds.size(); g++ ) { g_m.phFaTags[g].clear(); for( std::size_t i = 0; i < g_m.phFaVe[g].size(); i += fv ) g_m.phFaTags[g].push_back( t++ ); }
        g_m.elTags.clear(); for( std::size_t e = 0; e < g_m.elVe.size()/nEv( g_m.ty ); e++ ) g_m.elTags.push_back( t++ );
      }
      void getNodes( std::vector< std::size_t > & t, std::vector< double > & c, std::vector< double > & p, int, int, bool, bool ) {
        t = g_m.veTags; c = g_m.crds; p.clear();
        // boundary nodes are reported more than once
        for( std::size_t g = 0; g < g_m.phFaVe.size(); g++ ) for( std::size_t i = 0; i < g_m.phFaVe[g].size(); i += 3 ) {
          std::size_t v = std::find( g_m.veTags.begin(), g_m.veTags.end(), g_m.phFaVe[g][i] ) - g_m.veTags.begin();
          if( v < g_m.veTags.size() ) { t.push_back( g_m.veTags[v] ); c.insert( c.end(), g_m.crds.begin()+v*3, g_m.crds.begin()+v*3+3 ); }
        }
      }
      void getElements( std::vector< int > & ty, std::vector< std::vector< std::size_t > > & et, std::vector< std::vector< std::size_t > > & nt, int dim, int tag ) {
        ty.clear(); et.clear(); nt.clear();
        if( dim == g_m.dim ) { ty.push_back( g_m.ty ); et.push_back( g_m.elTags ); nt.push_back( g_m.elVe ); }
        else if( dim == g_m.dim-1 && tag >= 1 && tag <= (int) g_m.phIds.size() && g_m.phFaVe[tag-1].size() ) { ty.push_back( faTy( g_m.ty ) ); et.push_back( g_m.phFaTags[tag-1] ); nt.push_back( g_m.phFaVe[tag-1] ); }
      }
      static void fn( std::vector< std::size_t > & nt ) {
        std::vector< std::vector< int > > f; faces( g_m.ty, f ); int nv = nEv( g_m.ty );
        nt.clear(); for( std::size_t e = 0; e < g_m.elVe.size()/nv; e++ ) for( auto & l : f ) for( int v : l ) nt.push_back( g_m.elVe[e*nv+v] );
      }
      void getElementEdgeNodes( int, std::vector< std::size_t > & nt, int, bool ) { nt.clear(); if( dimTy( g_m.ty ) == 2 ) fn( nt ); }
      void getElementFaceNodes( int, int, std::vector< std::size_t > & nt, int, bool ) { nt.clear(); if( dimTy( g_m.ty ) == 3 ) fn( nt ); }
      void reorderElements( int, int, std::vector< std::size_t > const & o ) {
        int nv = nEv( g_m.ty ); std::vector< std::size_t > n( g_m.elVe.size() ); std::vector< std::size_t > t( g_m.elTags.size() );
        for( std::size_t e = 0; e < o.size(); e++ ) { for( int v = 0; v < nv; v++ ) n[e*nv+v] = g_m.elVe[o[e]*nv+v]; t[e] = g_m.elTags[o[e]]; }
        g_m.elVe = n; g_m.elTags = t;
      }
    }
  }
  namespace view {
    int add( std::string const &, int ) { int v = g_m.nextView++; g_m.views[v]; return v; }
    void remove( int t ) { g_m.views.erase( t ); }
    void addListData( int t, std::string const &, int, std::vector< double > const & d ) { g_m.views[t] = d; }
    void addHomogeneousModelData( int t, int, std::string const &, std::string const &, std::vector< std::size_t > const &, std::vector< double > const & d, double, int, int ) { g_m.views[t] = d; }
    void write( int t, std::string const & p, bool ) {
      FILE * o = std::fopen( p.c_str(), "w" ); if( !o ) throw std::runtime_error( "gmsh: cannot write " + p );
      for( double v : g_m.views[t] ) std::fprintf( o, "%.17g\n", v );
      bool bad = std::ferror( o ) != 0; if( std::fclose( o ) != 0 || bad ) throw std::runtime_error( "gmsh: cannot write " + p );
    }
  }
  namespace plugin {
    void setNumber( std::string const & n, std::string const & o, double v ) { if( n == "EdgePartition" && o == "nPaEls" ) g_m.paView = (int) v; }
    void run( std::string const & n ) { if( n == "EdgePartition" ) { g_m.pas.clear(); for( double v : g_m.views[g_m.paView] ) g_m.pas.push_back( (std::size_t) v ); } }
  }
}
