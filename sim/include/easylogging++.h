// Stand-in for easylogging++: messages go to the simulator; FATAL and failed CHECKs end the
// simulated process like easylogging's abort does.
#ifndef SIM_EASYLOGGING_H
#define SIM_EASYLOGGING_H
#include <functional>
#include <limits>
#include <algorithm>
#include <vector>
#include <map>
#include <memory>
#include <iostream>
#include <fstream>
#include <cstring>
#include <cstdlib>
#include <cmath>
#include <cerrno>
#include <ctime>
#include <cctype>
#include <cwchar>
#include <csignal>
#include <cstdarg>
#include <iomanip>
#include <utility>
#include <unordered_map>
#include <unordered_set>
#include <queue>
#include <deque>
#include <stack>
#include <list>
#include <set>
#include <bitset>
#include <type_traits>
#include <array>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sstream>
#include <string>
extern "C" void sim_log( int i_level, char const * i_file, int i_line, char const * i_msg );
extern "C" int  sim_log_on( int i_level );
namespace sim_el {
  enum { L_INFO = 0, L_TRACE = 1, L_DEBUG = 2, L_WARNING = 3, L_ERROR = 4, L_FATAL = 5, L_VERBOSE = 6 };
  class Msg {
      int m_lv; char const * m_f; int m_l; std::ostringstream m_s;
    public:
      Msg( int i_lv, char const * i_f, int i_l ): m_lv( i_lv ), m_f( i_f ), m_l( i_l ) {}
      template< typename T > Msg & operator<<( T const & i_v ) { m_s << i_v; return *this; }
      Msg & operator<<( std::ostream & (*i_m)( std::ostream & ) ) { m_s << i_m; return *this; }
      ~Msg() { sim_log( m_lv, m_f, m_l, m_s.str().c_str() ); }
  };
  struct Void { void operator&( Msg const & ) {} };
}
#define SIM_LOG_IF(c,lv) !(c) ? (void) 0 : sim_el::Void() & sim_el::Msg( sim_el::L_##lv, __FILE__, __LINE__ )
#define LOG(lv)        SIM_LOG_IF( sim_log_on( sim_el::L_##lv ), lv )
#define LOG_IF(c,lv)   SIM_LOG_IF( (c) && sim_log_on( sim_el::L_##lv ), lv )
#define VLOG_IS_ON(n)  ( (n) <= 0 )
#define VLOG(n)        LOG_IF( VLOG_IS_ON(n), VERBOSE )
#define VLOG_IF(c,n)   LOG_IF( (c) && VLOG_IS_ON(n), VERBOSE )
#define CHECK(c)       SIM_LOG_IF( !(c), FATAL ) << "Check failed: [" << #c << "] "
#define CHECK_EQ(a,b)  CHECK( (a) == (b) )
#define CHECK_NE(a,b)  CHECK( (a) != (b) )
#define CHECK_LT(a,b)  CHECK( (a) <  (b) )
#define CHECK_GT(a,b)  CHECK( (a) >  (b) )
#define CHECK_LE(a,b)  CHECK( (a) <= (b) )
#define CHECK_GE(a,b)  CHECK( (a) >= (b) )
#define INITIALIZE_EASYLOGGINGPP
#define START_EASYLOGGINGPP(a,b)
namespace el {
  struct LogMessage {};
  enum class ConfigurationType { Format, ToFile, Enabled };
  struct Configurations { void setToDefault() {} void setGlobally( ConfigurationType, std::string const & ) {} };
  struct CustomFormatSpecifier { template< typename F > CustomFormatSpecifier( char const *, F ) {} };
  struct Helpers { static void installCustomFormatSpecifier( CustomFormatSpecifier const & ) {} };
  struct Loggers { static void reconfigureAllLoggers( Configurations const & ) {} };
}
#endif
