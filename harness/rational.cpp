// C21: rational numbers against exact 128-bit arithmetic.
#include "common.h"
#include <cassert>
#include <algorithm>
#include "scisim/Math/Rational.h"

typedef __int128 I;
struct Ref { I n, d; };
static I gcd( I a, I b ) { if( a < 0 ) a = -a; if( b < 0 ) b = -b; while( b ) { const I t = a % b; a = b; b = t; } return a; }
static Ref red( I n, I d ) { if( n == 0 ) return Ref{ 0, 1 }; const I g = gcd( n, d ); n /= g; d /= g; if( d < 0 ) { n = -n; d = -d; } return Ref{ n, d }; }

template<class T> std::string show( const Rational<T>& r ) { return std::to_string( (long long) r.numerator() ) + "/" + std::to_string( (long long) r.denominator() ); }
static std::string show( const Ref& r ) { return std::to_string( (long long) r.n ) + "/" + std::to_string( (long long) r.d ); }

template<class T> static void expect( vf::Ctx& c, const char* what, const Rational<T>& got, const Ref& want, const std::string& in )
{
  c.stat( "values_compared" );
  if( I( got.numerator() ) != want.n || I( got.denominator() ) != want.d ) c.viol( what, vf::Msg() << what << " of " << in << " gave " << show( got ) << ", exact value " << show( want ) );
}

template<class T> static void arith( vf::Ctx& c, vf::Rng& r, const int bits )
{
  auto val = [&]() -> T { const int b = r.i( 0, bits ); T v = T( r.next() & ( ( 1ull << b ) - 1 ) ); if( r.chance( 0.4 ) ) v = -v; return v; };
  auto nz = [&]() -> T { T v = val(); return v == 0 ? T( 1 ) : v; };
  T a = val(), b = nz(), e = val(), f = nz(); const T k = val(), kz = nz();
  if( r.chance( 0.3 ) ) { const T g = T( r.i( 1, 7 ) ); if( bits < 28 ) { a *= g; b *= g; } }
  const Ref A = red( a, b ), B = red( e, f );
  const Rational<T> x( a, b ), y( e, f );
  const std::string in = vf::Msg() << (long long) a << "/" << (long long) b << " , " << (long long) e << "/" << (long long) f << " , " << (long long) k << " , " << (long long) kz;
  expect( c, "construct", x, A, in );
  { Rational<T> z( 3, 7 ); Rational<T>& ret = z.set( a, b ); expect( c, "set", z, A, in ); if( &ret != &z ) c.viol( "set_return", in ); }
  { Rational<T> z( x ); z += y; expect( c, "plus", z, red( A.n * B.d + A.d * B.n, A.d * B.d ), in ); }
  { Rational<T> z( x ); z -= y; expect( c, "minus", z, red( A.n * B.d - A.d * B.n, A.d * B.d ), in ); }
  { Rational<T> z( x ); z *= y; expect( c, "times", z, red( A.n * B.n, A.d * B.d ), in ); }
  if( e != 0 ) { Rational<T> z( x ); z /= y; expect( c, "divide", z, red( A.n * B.d, A.d * B.n ), in ); }
  { Rational<T> z( x ); z += z; expect( c, "plus_self", z, red( 2 * A.n, A.d ), in ); z = x; z *= z; expect( c, "times_self", z, red( A.n * A.n, A.d * A.d ), in ); z = x; z -= z; expect( c, "minus_self", z, Ref{ 0, 1 }, in ); if( a != 0 ) { z = x; z /= z; expect( c, "divide_self", z, Ref{ 1, 1 }, in ); } }
  expect( c, "times_int", x * k, red( A.n * k, A.d ), in );
  expect( c, "int_times", k * x, red( A.n * k, A.d ), in );
  expect( c, "divide_int", x / kz, red( A.n, A.d * kz ), in );
  if( a != 0 ) expect( c, "int_divide", k / x, red( A.d * k, A.n ), in );
  const bool eq = A.n * B.d == B.n * A.d;
  if( ( x == y ) != eq ) c.viol( "equal", in );
  if( ( x != y ) == eq ) c.viol( "not_equal", in );
  if( ( x == k ) != ( A.d == 1 && A.n == k ) || ( k == x ) != ( A.d == 1 && A.n == k ) ) c.viol( "equal_int", in );
  if( !( Rational<T>( k, 1 ) == k ) ) c.viol( "equal_int", in );
  if( x.isInteger() != ( A.d == 1 ) ) c.viol( "is_integer", in );
  if( x.positive() != ( A.n > 0 ) ) c.viol( "positive", in );
  if( x.nonNegative() != ( A.n >= 0 ) ) c.viol( "non_negative", in );
  const double dd = double( x ), want = double( (long long) A.n ) / double( (long long) A.d );
  if( dd != want ) c.viol( "to_double", vf::Msg() << in << " gave " << dd << " want " << want );
  { std::ostringstream o; o << x; const std::string w = std::to_string( (long long) A.n ) + " / " + std::to_string( (long long) A.d ); if( o.str() != w ) c.viol( "print", o.str() + " want " + w ); }
  c.seen( vf::hs( in ) );
  c.sample( in );
}

static std::string digits( vf::Rng& r, const int n ) { std::string s; for( int k = 0; k < n; ++k ) s += char( '0' + ( r.chance( 0.25 ) ? 0 : r.i( 0, 9 ) ) ); return s; }
static std::string ws( vf::Rng& r ) { std::string s; if( r.chance( 0.25 ) ) { const int n = r.i( 1, 3 ); for( int k = 0; k < n; ++k ) s += r.pick( std::vector<std::string>{ " ", " ", "\t", "\n" } ); } return s; }

template<class T> static void parse( vf::Ctx& c, vf::Rng& r )
{
  const int maxd = sizeof( T ) == 8 ? 17 : 8;
  Rational<T> out( 22, 7 );
  std::string s; Ref want{ 0, 1 }; bool valid = true, must = true;
  const int kind = r.i( 0, 9 );
  const std::string sign = r.chance( 0.35 ) ? "-" : ( r.chance( 0.2 ) ? "+" : "" );
  const I sg = sign == "-" ? -1 : 1;
  auto num = [&]( const std::string& d ) { I v = 0; for( const char ch : d ) v = v * 10 + ( ch - '0' ); return v; };
  if( kind <= 1 ) { const std::string d = digits( r, r.i( 1, maxd ) ); s = ws( r ) + sign + ws( r ) + d + ws( r ); want = red( sg * num( d ), 1 ); }
  else if( kind <= 4 )
  {
    const int tot = r.i( 1, r.chance( 0.15 ) ? 3 * maxd : maxd ); const int l = r.i( 0, tot );
    const std::string a = digits( r, l ); std::string b = digits( r, tot - l ); if( r.chance( 0.2 ) ) b += std::string( size_t( r.i( 1, 4 ) ), '0' );
    s = ws( r ) + sign + ws( r ) + a + "." + b + ws( r );
    if( tot > maxd ) { must = false; }
    if( tot <= 30 ) { I d = 1; for( size_t k = 0; k < b.size(); ++k ) d *= 10; want = red( sg * ( num( a ) * d + num( b ) ), d ); } else { want = Ref{ 0, 0 }; }
  }
  else if( kind <= 6 )
  {
    const std::string a = digits( r, r.i( 1, maxd ) ); const std::string b = digits( r, r.i( 1, maxd ) ); const std::string sb = r.chance( 0.15 ) ? "-" : "";
    s = ws( r ) + sign + ws( r ) + a + ws( r ) + "/" + ws( r ) + sb + b + ws( r );
    if( num( b ) == 0 ) { valid = false; } else want = red( sg * num( a ), ( sb.empty() ? 1 : -1 ) * num( b ) );
  }
  else
  {
    // malformed: start from a valid one and damage it
    valid = false;
    const std::string a = digits( r, r.i( 1, 6 ) ), b = digits( r, r.i( 1, 6 ) );
    static const std::vector<std::string> junk{ "e-4", "e5", "x", "f", "_", "E2", "-", "+", ",", "#", ":", "0x1", "inf", "nan" };
    const std::string j = r.pick( junk );
    switch( r.i( 0, 9 ) )
    {
      case 0: s = a + "." + b + j; break;
      case 1: s = a + j; break;
      case 2: s = j + a; if( j == "-" || j == "+" ) s = "x" + a; break;
      case 3: s = a + "/" + b + j; break;
      case 4: s = a + j + "/" + b; break;
      case 5: s = a + "/" + b + "/" + a; break;
      case 6: s = a + "." + b + "." + a; break;
      case 7: s = a + "." + b + "/" + a; break;
      case 8: s = r.chance( 0.5 ) ? a + "/" : "/" + a; break;
      default: s = r.pick( std::vector<std::string>{ "x", "/", "//", "--1", "+-1", "1/2.5", "1e3", "abc", "one", "1.-5", "-+.5", "1..2", "0/0", "1/0", "-3/0" } );
    }
  }
  const bool ok = extractFromString( s, out );
  c.stat( "strings_parsed" );
  std::string sh = s; for( char& ch : sh ) if( ch == '\n' ) ch = ' ';
  if( !valid ) { c.stat( "malformed_strings" ); if( ok ) c.viol( "malformed_accepted", "\"" + sh + "\" accepted as " + show( out ) ); return; }
  if( must && !ok ) { c.viol( "valid_rejected", "\"" + sh + "\"" ); return; }
  if( ok && want.d == 0 ) { c.viol( "unrepresentable_accepted", "\"" + sh + "\" accepted as " + show( out ) ); return; }
  if( ok ) expect( c, sign == "-" ? "parse_negative" : "parse", out, want, "\"" + sh + "\"" );
  c.seen( vf::hs( s ) );
}

static void one( vf::Ctx& c, vf::Rng& r, long )
{
  for( int k = 0; k < 100; ++k )
  {
    if( r.chance( 0.7 ) ) arith<std::intmax_t>( c, r, 30 ); else arith<int>( c, r, 14 );
    if( r.chance( 0.8 ) ) parse<std::intmax_t>( c, r ); else parse<int>( c, r );
    // exact time: a step count times a time step, as the main loops compute it, against exact arithmetic
    const std::intmax_t n = r.i( 0, 1 << 30 ); const std::intmax_t p = r.i( 1, 1000 ), q = r.i( 1, 1000000 );
    expect( c, "time", n * Rational<std::intmax_t>( p, q ), red( I( n ) * p, q ), std::to_string( n ) + "*" + std::to_string( p ) + "/" + std::to_string( q ) );
    // steps per output interval: ( 1 / rate ) / dt
    Rational<std::intmax_t> f( 1, std::intmax_t( r.i( 1, 5000 ) ) ); const Rational<std::intmax_t> dt( p, q ); const Ref F{ f.numerator(), f.denominator() };
    f /= dt; expect( c, "steps_per_frame", f, red( F.n * q, F.d * p ), "1/rate over dt" );
  }
}
int main( int argc, char** argv ) { return vf::main_( argc, argv, one ); }
