// Driver protocol shared by all monitors: seeded cases, violation/stat/coverage events to a log file, a crumb naming the running case.
#ifndef VERIF_COMMON_H
#define VERIF_COMMON_H
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <ctime>
#include <fcntl.h>
#include <unistd.h>
#include <iostream>
#include <sstream>
#include <fstream>
#include <iomanip>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <functional>
#include "scisim/Math/MathDefines.h"

namespace vf
{

struct Rng
{
  uint64_t s;
  explicit Rng( const uint64_t seed = 1 ) : s( seed ) { next(); next(); }
  uint64_t next() { uint64_t z = ( s += 0x9e3779b97f4a7c15ull ); z = ( z ^ ( z >> 30 ) ) * 0xbf58476d1ce4e5b9ull; z = ( z ^ ( z >> 27 ) ) * 0x94d049bb133111ebull; return z ^ ( z >> 31 ); }
  double u() { return double( next() >> 11 ) * ( 1.0 / 9007199254740992.0 ); }
  double u( const double a, const double b ) { return a + ( b - a ) * u(); }
  double logu( const double a, const double b ) { return std::exp( u( std::log( a ), std::log( b ) ) ); }
  int i( const int a, const int b ) { return a + int( next() % uint64_t( b - a + 1 ) ); } // inclusive
  bool chance( const double p ) { return u() < p; }
  double gauss() { const double a = u( 1.0e-300, 1.0 ); return std::sqrt( -2.0 * std::log( a ) ) * std::cos( 2.0 * M_PI * u() ); }
  double sgn() { return chance( 0.5 ) ? 1.0 : -1.0; }
  template<class T> const T& pick( const std::vector<T>& v ) { return v[ next() % v.size() ]; }
};

inline uint64_t fnv( const void* p, const size_t n, uint64_t h = 1469598103934665603ull )
{
  const unsigned char* c = static_cast<const unsigned char*>( p );
  for( size_t k = 0; k < n; ++k ) { h ^= c[k]; h *= 1099511628211ull; }
  return h;
}
inline uint64_t hv( const VectorXs& v, const uint64_t h = 1469598103934665603ull ) { return fnv( v.data(), size_t( v.size() ) * sizeof( double ), h ); }
inline uint64_t hs( const std::string& s, const uint64_t h = 1469598103934665603ull ) { return fnv( s.data(), s.size(), h ); }

struct Abandon { std::string why; };

struct Ctx
{
  FILE* out = nullptr;
  std::string crumb_path;
  int crumb_fd = -1;
  uint64_t seed = 1;
  long cur = -1;
  bool thorough = false;
  std::map<std::string,long long> stats;
  std::set<uint64_t> hashes;
  std::map<std::string,int> viols;
  int nsamples = 0;
  void viol( const std::string& key, const std::string& msg )
  {
    const int n = viols[key]++;
    if( n < 3 ) { std::string m = msg; for( char& c : m ) { if( c == '\n' || c == '\r' ) c = ' '; } fprintf( out, "V|%s|%ld|%s\n", key.c_str(), cur, m.substr( 0, 1500 ).c_str() ); fflush( out ); }
  }
  void stat( const std::string& k, const long long n = 1 ) { stats[k] += n; }
  void seen( const uint64_t h ) { hashes.insert( h ); }
  void sample( const std::string& s ) { if( nsamples < 2 ) { ++nsamples; std::string m = s; for( char& c : m ) { if( c == '\n' || c == '\r' ) c = ' '; } fprintf( out, "X|%ld|%s\n", cur, m.substr( 0, 1200 ).c_str() ); } }
  // names what the case is doing, so that a crash is attributed to it
  std::string last;
  void family( const std::string& f ) { last = f; if( crumb_fd < 0 ) return; char b[160]; const int n = snprintf( b, sizeof( b ), "%ld %-120s\n", cur, f.substr( 0, 120 ).c_str() ); if( pwrite( crumb_fd, b, size_t( n ), 0 ) < 0 ) {} }
};

inline std::string str( const double d ) { char b[64]; snprintf( b, sizeof( b ), "%.17g", d ); return b; }
template<class D> std::string vs( const Eigen::MatrixBase<D>& m ) { std::ostringstream o; o << std::setprecision( 17 ) << "("; for( long c = 0; c < m.cols(); ++c ) for( long r = 0; r < m.rows(); ++r ) o << ( r + c ? " " : "" ) << m( r, c ); o << ")"; return o.str(); }
struct Msg { std::ostringstream o; Msg() { o << std::setprecision( 17 ); } template<class T> Msg& operator<<( const T& t ) { o << t; return *this; } operator std::string() const { return o.str(); } };

inline bool finite( const VectorXs& v ) { for( long k = 0; k < v.size(); ++k ) if( !std::isfinite( v( k ) ) ) return false; return true; }
inline double maxabs( const VectorXs& v ) { return v.size() ? v.lpNorm<Eigen::Infinity>() : 0.0; }

typedef std::function<void( Ctx&, Rng&, long )> CaseFn;
inline double now() { struct timespec t; clock_gettime( CLOCK_MONOTONIC, &t ); return double( t.tv_sec ) + 1.0e-9 * double( t.tv_nsec ); }

inline int main_( int argc, char** argv, const CaseFn& fn )
{
  Ctx c; long from = 0, to = 1; std::string out = "/dev/stdout", crumb;
  for( int k = 1; k + 1 < argc; k += 2 )
  {
    const std::string a = argv[k], b = argv[k+1];
    if( a == "--seed" ) c.seed = std::strtoull( b.c_str(), nullptr, 10 );
    else if( a == "--from" ) from = std::atol( b.c_str() );
    else if( a == "--to" ) to = std::atol( b.c_str() );
    else if( a == "--out" ) out = b;
    else if( a == "--crumb" ) crumb = b;
    else if( a == "--tier" ) c.thorough = b == "thorough";
  }
  c.out = fopen( out.c_str(), "a" );
  if( !c.out ) { perror( "out" ); return 3; }
  if( !crumb.empty() ) c.crumb_fd = open( crumb.c_str(), O_CREAT | O_RDWR | O_TRUNC, 0644 );
  for( long k = from; k < to; ++k )
  {
    c.cur = k;
    c.family( "" ); const double t0 = now();
    Rng r( c.seed * 0x9e3779b97f4a7c15ull ^ ( uint64_t( k ) * 0xd1342543de82ef95ull + 0x1234567ull ) );
    try { fn( c, r, k ); }
    catch( const Abandon& a ) { c.stat( a.why ); }
    c.stat( "cases" );
    if( getenv( "VERIF_SLOW" ) ) { const double e = now() - t0; if( e > 1.0 ) fprintf( stderr, "SLOW case %ld %.1fs %s\n", k, e, c.last.c_str() ); }
  }
  for( const auto& s : c.stats ) fprintf( c.out, "S|%s|%lld\n", s.first.c_str(), s.second );
  for( const uint64_t h : c.hashes ) fprintf( c.out, "H|%llx\n", (unsigned long long) h );
  fprintf( c.out, "D\n" );
  fclose( c.out );
  return 0;
}

}
#endif
