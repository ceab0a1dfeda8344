#include <cstddef>
#include <limits>
namespace edge {
  namespace pre {
    namespace dg {
      extern double const   g_mass[3][3];
      extern double const * g_massRaw;
      extern std::size_t const g_massSize;
    }
  }
}
double const edge::pre::dg::g_mass[3][3] = {
    {  0.5,0.0,0.0,  },
    {  0.0,0.25,0.0,  },
    {  0.0,0.0,0.08333333333333333,  },
};
double const * edge::pre::dg::g_massRaw = &edge::pre::dg::g_mass[0][0];
std::size_t const edge::pre::dg::g_massSize = 9;

#include <cstddef>
#include <limits>
namespace edge {
  namespace pre {
    namespace dg {
      extern double const   g_stiffT[2][3][3];
      extern double const * g_stiffTRaw;
      extern std::size_t const g_stiffTSize;
    }
  }
}
double const edge::pre::dg::g_stiffT[2][3][3] = {
  {
    {  0.0,0.0,0.0,  },
    {  0.0,0.0,0.0,  },
    {  2.0,0.0,0.0,  },
  },
  {
    {  0.0,0.0,0.0,  },
    {  3.0,0.0,0.0,  },
    {  1.0,0.0,0.0,  },
  },
};
double const * edge::pre::dg::g_stiffTRaw = &edge::pre::dg::g_stiffT[0][0][0];
std::size_t const edge::pre::dg::g_stiffTSize = 18;

#include <cstddef>
#include <limits>
namespace edge {
  namespace pre {
    namespace dg {
      extern double const   g_stiffV[2][3][3];
      extern double const * g_stiffVRaw;
      extern std::size_t const g_stiffVSize;
    }
  }
}
double const edge::pre::dg::g_stiffV[2][3][3] = {
  {
    {  0.0,0.0,12.0,  },
    {  0.0,0.0,0.0,  },
    {  0.0,0.0,0.0,  },
  },
  {
    {  0.0,6.0,6.0,  },
    {  0.0,0.0,0.0,  },
    {  0.0,0.0,0.0,  },
  },
};
double const * edge::pre::dg::g_stiffVRaw = &edge::pre::dg::g_stiffV[0][0][0];
std::size_t const edge::pre::dg::g_stiffVSize = 18;

#include <cstddef>
#include <limits>
namespace edge {
  namespace pre {
    namespace dg {
      extern double const   g_fluxL[3][3][2];
      extern double const * g_fluxLRaw;
      extern std::size_t const g_fluxLSize;
    }
  }
}
double const edge::pre::dg::g_fluxL[3][3][2] = {
  {
    {  1.0,0.0,  },
    {  -1.0,0.0,  },
    {  0.0,0.3333333333333333,  },
  },
  {
    {  1.0,0.0,  },
    {  0.5,0.5,  },
    {  0.5,-0.16666666666666666,  },
  },
  {
    {  1.0,0.0,  },
    {  0.5,-0.5,  },
    {  -0.5,-0.16666666666666666,  },
  },
};
double const * edge::pre::dg::g_fluxLRaw = &edge::pre::dg::g_fluxL[0][0][0];
std::size_t const edge::pre::dg::g_fluxLSize = 18;

#include <cstddef>
#include <limits>
namespace edge {
  namespace pre {
    namespace dg {
      extern double const   g_fluxN[3][3][2];
      extern double const * g_fluxNRaw;
      extern std::size_t const g_fluxNSize;
    }
  }
}
double const edge::pre::dg::g_fluxN[3][3][2] = {
  {
    {  1.0,0.0,  },
    {  -1.0,0.0,  },
    {  0.0,-0.3333333333333333,  },
  },
  {
    {  1.0,0.0,  },
    {  0.5,-0.5,  },
    {  0.5,0.16666666666666666,  },
  },
  {
    {  1.0,0.0,  },
    {  0.5,0.5,  },
    {  -0.5,0.16666666666666666,  },
  },
};
double const * edge::pre::dg::g_fluxNRaw = &edge::pre::dg::g_fluxN[0][0][0];
std::size_t const edge::pre::dg::g_fluxNSize = 18;

#include <cstddef>
#include <limits>
namespace edge {
  namespace pre {
    namespace dg {
      extern double const   g_fluxT[3][2][3];
      extern double const * g_fluxTRaw;
      extern std::size_t const g_fluxTSize;
    }
  }
}
double const edge::pre::dg::g_fluxT[3][2][3] = {
  {
    {  2.0,-4.0,0.0,  },
    {  0.0,0.0,12.0,  },
  },
  {
    {  2.0,2.0,6.0,  },
    {  0.0,6.0,-6.0,  },
  },
  {
    {  2.0,2.0,-6.0,  },
    {  0.0,-6.0,-6.0,  },
  },
};
double const * edge::pre::dg::g_fluxTRaw = &edge::pre::dg::g_fluxT[0][0][0];
std::size_t const edge::pre::dg::g_fluxTSize = 18;

