// Stand-in for the (absent) ExprTk submodule: a small expression interpreter with the
// part of ExprTk's interface and language which EDGE and EDGE-V configurations need.
#ifndef SIM_EXPRTK_HPP
#define SIM_EXPRTK_HPP
#include <cmath>
#include <cstdlib>
#include <map>
#include <memory>
#include <string>
#include <vector>
namespace exprtk {
  namespace det {
    template< typename T > struct Sym { T * p; std::size_t n; bool vec; std::shared_ptr< T > own; };
    template< typename T > struct Node {
      enum K { NUM, VAR, IDX, VECSET, ASG, BIN, NEG, NOT, FUN, SEQ, IF } k;
      T num; T * p; std::size_t n; std::string op; std::vector< std::shared_ptr< Node > > c;
      Node( K i ): k(i), num(0), p(nullptr), n(0) {}
      T eval() const {
        switch( k ) {
          case NUM: return num;
          case VAR: return *p;
          case IDX: { long i = (long) c[0]->eval(); return ( i >= 0 && (std::size_t) i < n ) ? p[i] : T(0); }
          case VECSET: { T v = c[0]->eval(); for( std::size_t i = 0; i < n; i++ ) p[i] = v; return v; }
          case ASG: { T v = c.back()->eval();
                      if( c.size() == 1 ) *p = v; else { long i = (long) c[0]->eval(); if( i >= 0 && (std::size_t) i < n ) p[i] = v; }
                      return v; }
          case NEG: return -c[0]->eval();
          case NOT: return c[0]->eval() == T(0) ? T(1) : T(0);
          case SEQ: { T v = 0; for( std::size_t i = 0; i < c.size(); i++ ) v = c[i]->eval(); return v; }
          case IF: { if( c[0]->eval() != T(0) ) return c[1]->eval(); return c.size() > 2 ? c[2]->eval() : T(0); }
          case FUN: { T a = c[0]->eval(), b = c.size() > 1 ? c[1]->eval() : T(0);
            if( op == "sin" ) return std::sin(a); if( op == "cos" ) return std::cos(a); if( op == "exp" ) return std::exp(a);
            if( op == "sqrt" ) return std::sqrt(a); if( op == "abs" ) return std::abs(a); if( op == "log" ) return std::log(a);
            if( op == "pow" ) return std::pow(a,b); if( op == "min" ) return a < b ? a : b; if( op == "max" ) return a > b ? a : b;
            if( op == "floor" ) return std::floor(a);
            return T(0); }
          case BIN: { T a = c[0]->eval();
            if( op == "and" ) return ( a != T(0) && c[1]->eval() != T(0) ) ? T(1) : T(0);
            if( op == "or" ) return ( a != T(0) || c[1]->eval() != T(0) ) ? T(1) : T(0);
            T b = c[1]->eval();
            if( op == "+" ) return a+b; if( op == "-" ) return a-b; if( op == "*" ) return a*b; if( op == "/" ) return a/b;
            if( op == "^" ) return std::pow(a,b);
            if( op == "<" ) return a<b; if( op == ">" ) return a>b; if( op == "<=" ) return a<=b; if( op == ">=" ) return a>=b;
            if( op == "==" ) return a==b; if( op == "!=" ) return a!=b;
            return T(0); }
        }
        return T(0);
      }
    };
  }
  struct parser_error {
    struct type { struct { std::size_t position; } token; int mode; std::string diagnostic; };
    static std::string to_str( int ) { return "syntax"; }
  };
  template< typename T > class symbol_table {
    public:
      std::shared_ptr< std::map< std::string, det::Sym< T > > > m;
      symbol_table(): m( new std::map< std::string, det::Sym< T > >() ) {}
      bool add_variable( std::string const & i_n, T & i_v ) { if( m->count(i_n) ) return false; det::Sym< T > s; s.p = &i_v; s.n = 1; s.vec = false; (*m)[i_n] = s; return true; }
      bool add_vector( std::string const & i_n, T * i_v, std::size_t i_s ) { if( m->count(i_n) ) return false; det::Sym< T > s; s.p = i_v; s.n = i_s; s.vec = true; (*m)[i_n] = s; return true; }
      bool add_constants() { det::Sym< T > s; s.own.reset( new T(3.14159265358979323846264338327950288L) ); s.p = s.own.get(); s.n = 1; s.vec = false; (*m)["pi"] = s; return true; }
  };
  template< typename T > class expression {
    public:
      symbol_table< T > st; std::shared_ptr< det::Node< T > > root;
      void register_symbol_table( symbol_table< T > & i_st ) { st = i_st; }
      T value() const { return root ? root->eval() : T(0); }
  };
  template< typename T > class parser {
      typedef det::Node< T > N; typedef std::shared_ptr< N > P;
      std::string s; std::size_t i; bool bad; std::string why; std::map< std::string, det::Sym< T > > * m;
      std::vector< parser_error::type > errs;
      void ws() { while( i < s.size() ) { if( isspace( (unsigned char) s[i] ) ) i++; else if( s.compare(i,2,"//") == 0 || s[i] == '#' ) { while( i < s.size() && s[i] != '\n' ) i++; } else if( s.compare(i,2,"/*") == 0 ) { i = s.find( "*/", i ); i = ( i == std::string::npos ) ? s.size() : i+2; } else break; } }
      bool tok( char const * t ) { ws(); std::string q( t ); if( s.compare( i, q.size(), q ) != 0 ) return false;
        if( isalpha( (unsigned char) q[0] ) && i+q.size() < s.size() && ( isalnum( (unsigned char) s[i+q.size()] ) || s[i+q.size()] == '_' ) ) return false;
        i += q.size(); return true; }
      void fail( std::string const & w ) { if( !bad ) { bad = true; why = w; } }
      P bin( std::string const & op, P a, P b ) { P n( new N( N::BIN ) ); n->op = op; n->c.push_back( a ); n->c.push_back( b ); return n; }
      std::string id() { ws(); std::string r; if( i < s.size() && ( isalpha( (unsigned char) s[i] ) || s[i] == '_' ) ) while( i < s.size() && ( isalnum( (unsigned char) s[i] ) || s[i] == '_' ) ) r += s[i++]; return r; }
      P num0() { P n( new N( N::NUM ) ); return n; }
      P prim() {
        ws(); if( bad || i >= s.size() ) { fail( "unexpected end" ); return num0(); }
        if( tok( "(" ) ) { P n = orE(); if( !tok( ")" ) ) fail( ") expected" ); return n; }
        if( isdigit( (unsigned char) s[i] ) || s[i] == '.' ) { char * e; P n( new N( N::NUM ) ); n->num = (T) std::strtod( s.c_str()+i, &e ); i = e - s.c_str(); return n; }
        std::string n = id();
        if( n == "" ) { fail( "unexpected symbol" ); return num0(); }
        if( n == "true" || n == "false" ) { P r = num0(); r->num = n == "true"; return r; }
        if( n == "not" ) { P r( new N( N::NOT ) ); r->c.push_back( prim() ); return r; }
        ws();
        if( !m->count( n ) ) {
          if( tok( "(" ) ) { P r( new N( N::FUN ) ); r->op = n; r->c.push_back( orE() ); while( tok( "," ) ) r->c.push_back( orE() ); if( !tok( ")" ) ) fail( ") expected" ); return r; }
          fail( "unknown symbol " + n ); return num0();
        }
        det::Sym< T > & y = (*m)[n];
        if( y.vec && tok( "[" ) ) { P r( new N( N::IDX ) ); r->p = y.p; r->n = y.n; r->c.push_back( orE() ); if( !tok( "]" ) ) fail( "] expected" ); return r; }
        P r( new N( N::VAR ) ); r->p = y.p; return r;
      }
      P powE() { P a = prim(); ws(); if( tok( "^" ) ) return bin( "^", a, una() ); return a; }
      P una() { ws(); if( tok( "-" ) ) { P n( new N( N::NEG ) ); n->c.push_back( una() ); return n; } if( tok( "+" ) ) return una(); return powE(); }
      P mul() { P a = una(); while( !bad ) { ws(); if( tok( "*" ) ) a = bin( "*", a, una() ); else if( i < s.size() && s[i] == '/' && s.compare(i,2,"//") != 0 && tok( "/" ) ) a = bin( "/", a, una() ); else break; } return a; }
      P add() { P a = mul(); while( !bad ) { ws(); if( tok( "+" ) ) a = bin( "+", a, mul() ); else if( tok( "-" ) ) a = bin( "-", a, mul() ); else break; } return a; }
      P cmp() { P a = add(); while( !bad ) { ws();
        if( tok( "<=" ) ) a = bin( "<=", a, add() ); else if( tok( ">=" ) ) a = bin( ">=", a, add() ); else if( tok( "==" ) ) a = bin( "==", a, add() ); else if( tok( "!=" ) ) a = bin( "!=", a, add() );
        else if( tok( "<" ) ) a = bin( "<", a, add() ); else if( tok( ">" ) ) a = bin( ">", a, add() ); else break; } return a; }
      P andE() { P a = cmp(); while( !bad && ( tok( "and" ) || tok( "&&" ) || tok( "&" ) ) ) a = bin( "and", a, cmp() ); return a; }
      P orE() { P a = andE(); while( !bad && ( tok( "or" ) || tok( "||" ) || tok( "|" ) ) ) a = bin( "or", a, andE() ); return a; }
      P block() { if( tok( "{" ) ) { P r = seq(); if( !tok( "}" ) ) fail( "} expected" ); return r; } P r = stmt(); tok( ";" ); return r; }
      P stmt() {
        ws(); std::size_t b = i; std::string n = id();
        if( n == "if" ) { P r( new N( N::IF ) ); if( !tok( "(" ) ) fail( "( expected" ); r->c.push_back( orE() ); if( !tok( ")" ) ) fail( ") expected" ); r->c.push_back( block() ); if( tok( "else" ) ) r->c.push_back( block() ); return r; }
        if( n == "var" ) { n = id(); det::Sym< T > y; y.own.reset( new T(0) ); y.p = y.own.get(); y.n = 1; y.vec = false; (*m)[n] = y; if( tok( ":=" ) ) { P r( new N( N::ASG ) ); r->p = y.p; r->n = 1; r->c.push_back( orE() ); return r; } return num0(); }
        if( n != "" && m->count( n ) ) {
          det::Sym< T > & y = (*m)[n];
          if( y.vec && tok( "[" ) ) { P x = orE(); if( !tok( "]" ) ) fail( "] expected" ); if( tok( ":=" ) ) { P r( new N( N::ASG ) ); r->p = y.p; r->n = y.n; r->c.push_back( x ); r->c.push_back( orE() ); return r; } }
          else if( tok( ":=" ) ) { P r( new N( y.vec ? N::VECSET : N::ASG ) ); r->p = y.p; r->n = y.n; r->c.push_back( orE() ); return r; }
        }
        i = b; return orE();
      }
      P seq() { P r( new N( N::SEQ ) ); while( !bad ) { ws(); if( i >= s.size() || s[i] == '}' ) break; r->c.push_back( stmt() ); tok( ";" ); } return r; }
    public:
      bool compile( std::string const & i_s, expression< T > & o_e ) {
        s = i_s; i = 0; bad = false; m = o_e.st.m.get(); errs.clear();
        P r = seq(); ws(); if( i < s.size() ) fail( "trailing input" );
        if( bad ) { parser_error::type e; e.token.position = i; e.mode = 0; e.diagnostic = why; errs.push_back( e ); return false; }
        o_e.root = r; return true;
      }
      std::size_t error_count() const { return errs.size(); }
      parser_error::type get_error( std::size_t i_e ) const { return errs[i_e]; }
  };
}
#endif
