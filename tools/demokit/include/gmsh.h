// Stand-in for the Gmsh library: the part of its API which edge_v::io::Gmsh uses, on top of a
// plain mesh file format (see ../gmsh_stub.cpp), including the EdgePartition plugin.
#ifndef SIM_GMSH_H
#define SIM_GMSH_H
#include <string>
#include <utility>
#include <vector>
namespace gmsh {
  typedef std::vector< std::pair< int, int > > vectorpair;
  void initialize( int argc = 0, char ** argv = nullptr, bool readConfigFiles = true, bool run = false );
  void finalize();
  void open( std::string const & path );
  void write( std::string const & path );
  void clear();
  namespace option { void setNumber( std::string const & name, double value ); }
  namespace model {
    int getDimension();
    void getCurrent( std::string & name );
    void getEntities( vectorpair & dimTags, int dim = -1 );
    void getPhysicalGroups( vectorpair & dimTags, int dim = -1 );
    void getEntitiesForPhysicalGroup( int dim, int tag, std::vector< int > & tags );
    namespace mesh {
      int getElementType( std::string const & family, int order, bool serendip = false );
      void getElementTypes( std::vector< int > & types, int dim = -1, int tag = -1 );
      void renumberElements();
      void renumberNodes();
      void getNodes( std::vector< std::size_t > & tags, std::vector< double > & crds, std::vector< double > & par, int dim = -1, int tag = -1, bool bnd = false, bool rpar = true );
      void getElements( std::vector< int > & types, std::vector< std::vector< std::size_t > > & elTags, std::vector< std::vector< std::size_t > > & nodeTags, int dim = -1, int tag = -1 );
      void getElementEdgeNodes( int type, std::vector< std::size_t > & nodeTags, int tag = -1, bool primary = false );
      void getElementFaceNodes( int type, int faceType, std::vector< std::size_t > & nodeTags, int tag = -1, bool primary = false );
      void reorderElements( int type, int tag, std::vector< std::size_t > const & ordering );
    }
  }
  namespace view {
    int add( std::string const & name, int tag = -1 );
    void remove( int tag );
    void addListData( int tag, std::string const & dataType, int numEle, std::vector< double > const & data );
    void addHomogeneousModelData( int tag, int step, std::string const & modelName, std::string const & dataType, std::vector< std::size_t > const & tags, std::vector< double > const & data, double time = 0., int numComponents = -1, int partition = 0 );
    void write( int tag, std::string const & fileName, bool append = false );
  }
  namespace plugin { void setNumber( std::string const & name, std::string const & option, double value ); void run( std::string const & name ); }
}
#endif
