// Stand-in for the (absent) wykobi submodule: only what src/linalg/Geom.hpp uses.
#include <algorithm>
#ifndef SIM_WYKOBI_HPP
#define SIM_WYKOBI_HPP
#include <cmath>
#include <cstddef>
namespace wykobi {
  template< typename T > struct point2d { T x, y; T & operator[]( std::size_t i ) { return i == 0 ? x : y; } T const & operator[]( std::size_t i ) const { return i == 0 ? x : y; } };
  template< typename T > struct point3d { T x, y, z; T & operator[]( std::size_t i ) { return i == 0 ? x : ( i == 1 ? y : z ); } T const & operator[]( std::size_t i ) const { return i == 0 ? x : ( i == 1 ? y : z ); } };
  template< typename T, unsigned D > struct pt_sel;
  template< typename T > struct pt_sel< T, 2 > { typedef point2d< T > type; };
  template< typename T > struct pt_sel< T, 3 > { typedef point3d< T > type; };
  template< typename T, unsigned D > struct triangle {
    typedef typename pt_sel< T, D >::type P;
    P v[3];
    P & operator[]( std::size_t i ) { return v[i]; }
    P const & operator[]( std::size_t i ) const { return v[i]; }
  };
  namespace det {
    // closest point on a triangle (Ericson, Real-Time Collision Detection), D dimensions
    template< typename T, unsigned D >
    inline void closest( T const (&a)[D], T const (&b)[D], T const (&c)[D], T const (&p)[D], T (&o)[D] ) {
      T ab[D], ac[D], ap[D], bp[D], cp[D];
      T d1=0,d2=0,d3=0,d4=0,d5=0,d6=0;
      for( unsigned i = 0; i < D; i++ ) { ab[i]=b[i]-a[i]; ac[i]=c[i]-a[i]; ap[i]=p[i]-a[i]; bp[i]=p[i]-b[i]; cp[i]=p[i]-c[i]; }
      for( unsigned i = 0; i < D; i++ ) { d1+=ab[i]*ap[i]; d2+=ac[i]*ap[i]; d3+=ab[i]*bp[i]; d4+=ac[i]*bp[i]; d5+=ab[i]*cp[i]; d6+=ac[i]*cp[i]; }
      if( d1 <= 0 && d2 <= 0 ) { for( unsigned i = 0; i < D; i++ ) o[i]=a[i]; return; }
      if( d3 >= 0 && d4 <= d3 ) { for( unsigned i = 0; i < D; i++ ) o[i]=b[i]; return; }
      T vc = d1*d4 - d3*d2;
      if( vc <= 0 && d1 >= 0 && d3 <= 0 ) { T v = d1/(d1-d3); for( unsigned i = 0; i < D; i++ ) o[i]=a[i]+v*ab[i]; return; }
      if( d6 >= 0 && d5 <= d6 ) { for( unsigned i = 0; i < D; i++ ) o[i]=c[i]; return; }
      T vb = d5*d2 - d1*d6;
      if( vb <= 0 && d2 >= 0 && d6 <= 0 ) { T w = d2/(d2-d6); for( unsigned i = 0; i < D; i++ ) o[i]=a[i]+w*ac[i]; return; }
      T va = d3*d6 - d5*d4;
      if( va <= 0 && (d4-d3) >= 0 && (d5-d6) >= 0 ) { T w = (d4-d3)/((d4-d3)+(d5-d6)); for( unsigned i = 0; i < D; i++ ) o[i]=b[i]+w*(c[i]-b[i]); return; }
      T dn = T(1)/(va+vb+vc), v = vb*dn, w = vc*dn;
      for( unsigned i = 0; i < D; i++ ) o[i] = a[i] + ab[i]*v + ac[i]*w;
    }
  }
  template< typename T > inline point2d< T > closest_point_on_triangle_from_point( triangle< T, 2 > const & t, T const & x, T const & y ) {
    T a[2]={t[0].x,t[0].y}, b[2]={t[1].x,t[1].y}, c[2]={t[2].x,t[2].y}, p[2]={x,y}, o[2];
    // keep points inside unchanged
    T s0=(b[0]-a[0])*(p[1]-a[1])-(b[1]-a[1])*(p[0]-a[0]), s1=(c[0]-b[0])*(p[1]-b[1])-(c[1]-b[1])*(p[0]-b[0]), s2=(a[0]-c[0])*(p[1]-c[1])-(a[1]-c[1])*(p[0]-c[0]);
    point2d< T > r;
    if( (s0>=0&&s1>=0&&s2>=0) || (s0<=0&&s1<=0&&s2<=0) ) { r.x = x; r.y = y; return r; }
    det::closest( a, b, c, p, o ); r.x = o[0]; r.y = o[1]; return r;
  }
  template< typename T > inline point3d< T > closest_point_on_triangle_from_point( triangle< T, 3 > const & t, point3d< T > const & q ) {
    T a[3]={t[0].x,t[0].y,t[0].z}, b[3]={t[1].x,t[1].y,t[1].z}, c[3]={t[2].x,t[2].y,t[2].z}, p[3]={q.x,q.y,q.z}, o[3];
    det::closest( a, b, c, p, o );
    point3d< T > r; r.x = o[0]; r.y = o[1]; r.z = o[2]; return r;
  }
  template< typename T > inline T distance( point3d< T > const & a, point3d< T > const & b ) { return std::sqrt( (a.x-b.x)*(a.x-b.x)+(a.y-b.y)*(a.y-b.y)+(a.z-b.z)*(a.z-b.z) ); }
  // angle of a vector in degrees, [0,360[
  template< typename T > inline T robust_cartesian_angle( T const & x, T const & y ) { T a = std::atan2( y, x ) * T(57.295779513082320876798154814105); return a < 0 ? a + T(360) : a; }
}
#endif
