/* Text <-> HDF5: "dump FILE" prints every dataset, "write FILE" creates datasets from stdin (name type ndims dims.. values..). */
#include <hdf5.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static herr_t visit( hid_t f, char const * name, H5O_info_t const * info, void * p ) {
  (void) p;
  if( info->type != H5O_TYPE_DATASET ) return 0;
  hid_t d = H5Dopen2( f, name, H5P_DEFAULT ), s = H5Dget_space( d ), t = H5Dget_type( d );
  hsize_t dims[8]; int nd = H5Sget_simple_extent_dims( s, dims, NULL ); hssize_t n = H5Sget_simple_extent_npoints( s );
  int fl = H5Tget_class( t ) == H5T_FLOAT;
  printf( "%s %s %d", name, fl ? "d" : "i", nd ); for( int i = 0; i < nd; i++ ) printf( " %llu", (unsigned long long) dims[i] ); printf( "\n" );
  void * b = malloc( 8*( n > 0 ? n : 1 ) );
  if( H5Dread( d, fl ? H5T_NATIVE_DOUBLE : H5T_NATIVE_LLONG, H5S_ALL, H5S_ALL, H5P_DEFAULT, b ) < 0 ) { printf( "ERROR\n" ); exit( 2 ); }
  for( hssize_t i = 0; i < n; i++ ) if( fl ) printf( "%.17g ", ((double *) b)[i] ); else printf( "%lld ", ((long long *) b)[i] );
  printf( "\n" ); free( b ); H5Tclose( t ); H5Sclose( s ); H5Dclose( d ); return 0;
}
int main( int argc, char ** argv ) {
  if( argc != 3 ) return 1;
  H5Eset_auto2( H5E_DEFAULT, NULL, NULL );
  if( !strcmp( argv[1], "dump" ) ) {
    hid_t f = H5Fopen( argv[2], H5F_ACC_RDONLY, H5P_DEFAULT ); if( f < 0 ) { fprintf( stderr, "cannot open\n" ); return 3; }
    if( H5Ovisit( f, H5_INDEX_NAME, H5_ITER_NATIVE, visit, NULL ) < 0 ) return 4;
    H5Fclose( f ); return 0;
  }
  hid_t f = H5Fcreate( argv[2], H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT ); if( f < 0 ) return 3;
  char name[256], ty[8]; int nd;
  while( scanf( "%255s %7s %d", name, ty, &nd ) == 3 ) {
    hsize_t dims[8], n = 1; for( int i = 0; i < nd; i++ ) { unsigned long long v; if( scanf( "%llu", &v ) != 1 ) return 5; dims[i] = v; n *= v; }
    double * b = malloc( 8*( n ? n : 1 ) ); for( hsize_t i = 0; i < n; i++ ) if( scanf( "%lf", b+i ) != 1 ) return 5;
    hid_t s = H5Screate_simple( nd, dims, NULL );
    hid_t d = H5Dcreate2( f, name, ty[0] == 'i' ? H5T_STD_I32LE : ty[0] == 'f' ? H5T_IEEE_F32LE : H5T_IEEE_F64LE, s, H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT );
    if( n && H5Dwrite( d, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, b ) < 0 ) return 6;
    H5Dclose( d ); H5Sclose( s ); free( b );
  }
  H5Fclose( f ); return 0;
}
