// C22: text and binary utilities against straightforward reference implementations and round trips.
#include "common.h"
#include <algorithm>
#include "scisim/StringUtilities.h"
#include "scisim/Utilities.h"
#include "scisim/Math/MathUtilities.h"
namespace SU = StringUtilities;

static std::string rs( vf::Rng& r, const std::string& alpha, const int maxlen ) { std::string s; const int n = r.chance( 0.1 ) ? 0 : r.i( 0, maxlen ); for( int k = 0; k < n; ++k ) s += alpha[ r.next() % alpha.size() ]; return s; }
static bool sp( const char x ) { return x == ' ' || ( x >= '\t' && x <= '\r' ); }
static std::string q( const std::string& s ) { std::ostringstream o; o << '"'; for( const char ch : s ) { if( ch < 32 || ch > 126 ) o << "\\x" << std::hex << int( (unsigned char) ch ); else o << ch; } o << '"'; return o.str(); }
static void eq( vf::Ctx& c, const char* what, const std::string& got, const std::string& want, const std::string& in ) { c.stat( "strings_compared" ); if( got != want ) c.viol( what, std::string( what ) + " of " + q( in ) + " gave " + q( got ) + " want " + q( want ) ); }

static void text( vf::Ctx& c, vf::Rng& r )
{
  const std::string s = rs( r, r.chance( 0.5 ) ? "ab. /00:\t\n " : "xyz0123456789+-.e  ,;", 14 );
  const char ch = r.pick( std::vector<char>{ '.', ' ', '/', '0', ':', 'a' } );
  { std::string a = "junk", b = "junk"; SU::splitAtLastCharacterOccurence( s, a, b, ch ); const size_t p = s.rfind( ch ); eq( c, "split_left", a, p == std::string::npos ? s : s.substr( 0, p ), s ); eq( c, "split_right", b, p == std::string::npos ? "" : s.substr( p + 1 ), s ); }
  { const size_t p = s.find( ch ); if( SU::computeNumCharactersToRight( s, ch ) != ( p == std::string::npos ? 0 : s.size() - p - 1 ) ) c.viol( "num_characters_to_right", q( s ) ); }
  size_t a = 0, b = s.size(); while( a < s.size() && sp( s[a] ) ) ++a; while( b > 0 && sp( s[b-1] ) ) --b;
  eq( c, "trim_front", SU::trimFront( s ), s.substr( a ), s ); eq( c, "trim_back", SU::trimBack( s ), s.substr( 0, b ), s ); eq( c, "trim", SU::trim( s ), a < b ? s.substr( a, b - a ) : "", s );
  { std::string w; for( const char x : s ) if( !sp( x ) ) w += x; eq( c, "remove_white_space", SU::removeWhiteSpace( s ), w, s ); }
  { std::string w = s; while( !w.empty() && w.back() == ch ) w.pop_back(); eq( c, "trim_character_right", SU::trimCharacterRight( s, ch ), w, s ); }
  { const unsigned w = unsigned( r.i( 0, 20 ) ); eq( c, "pad_with_zeros", SU::padWithZeros( s, w ), s.size() >= w ? s : std::string( w - s.size(), '0' ) + s, s ); }
  {
    std::vector<std::string> want; if( !s.empty() ) { std::string cur; for( const char x : s ) { if( x == ch ) { want.push_back( cur ); cur.clear(); } else cur += x; } want.push_back( cur ); }
    const std::vector<std::string> got = SU::tokenize( s, ch );
    if( got != want ) c.viol( "tokenize", vf::Msg() << "tokenize of " << q( s ) << " at " << ch << " gave " << got.size() << " tokens, want " << want.size() );
    std::vector<std::string> app{ "x" }; SU::tokenize( s, ch, app ); want.insert( want.begin(), "x" ); if( app != want ) c.viol( "tokenize_append", q( s ) );
  }
  c.seen( vf::hs( s ) );
  // numbers
  {
    const int64_t v = int64_t( r.next() ) >> r.i( 0, 63 ); int64_t o = 77; const std::string t = SU::convertToString( v );
    eq( c, "convert_int", t, std::to_string( v ), t ); if( !SU::extractFromString( t, o ) || o != v ) c.viol( "extract_int", t );
    const unsigned u = unsigned( r.next() >> r.i( 32, 63 ) ); unsigned uo = 77; if( !SU::extractFromString( std::to_string( u ), uo ) || uo != u ) c.viol( "extract_unsigned", std::to_string( u ) );
    if( MathUtilities::computeNumDigits( u ) != std::to_string( u ).size() ) c.viol( "num_digits", std::to_string( u ) );
    int io = 5; if( SU::extractFromString( std::string( "99999999999999999999" ), io ) ) c.viol( "extract_overflow", "99999999999999999999" );
    bool bo = false; if( !SU::extractFromString( std::string( "1" ), bo ) || !bo || !SU::extractFromString( std::string( "0" ), bo ) || bo || SU::extractFromString( std::string( "2" ), bo ) ) c.viol( "extract_bool", "" );
    double d = r.chance( 0.5 ) ? r.gauss() * std::pow( 10.0, r.i( -12, 12 ) ) : double( r.i( -1000, 1000 ) ); double dout = 77; char buf[64]; snprintf( buf, sizeof( buf ), r.chance( 0.5 ) ? "%.17g" : "%.17e", d );
    if( r.chance( 0.3 ) ) { std::string b2 = std::string( " " ) + buf + "  "; if( !SU::extractFromString( b2, dout ) || dout != d ) c.viol( "extract_double", b2 ); }
    if( !SU::extractFromString( std::string( buf ), dout ) || dout != d ) c.viol( "extract_double", buf );
    if( !SU::extractScalarFromString( std::string( buf ), dout ) || dout != d ) c.viol( "extract_scalar", buf );
    if( !SU::extractScalarFromString( std::string( "inf" ), dout ) || dout != std::numeric_limits<double>::infinity() || !SU::extractScalarFromString( std::string( "-inf" ), dout ) || dout != -std::numeric_limits<double>::infinity() ) c.viol( "extract_inf", "" );
    static const std::vector<std::string> bad{ "", " ", "x", "1x", "1.5.2", "--1", "1 2", "1,5", "e5", "1e", "abc1", "0x", ".", "-", "+", "1;", "2#" };
    const std::string bs = r.pick( bad );
    if( SU::extractFromString( bs, dout ) ) c.viol( "malformed_number_accepted", q( bs ) + " as " + vf::str( dout ) );
    if( SU::extractScalarFromString( bs, dout ) ) c.viol( "malformed_scalar_accepted", q( bs ) + " as " + vf::str( dout ) );
    if( SU::extractFromString( bs, io ) ) c.viol( "malformed_int_accepted", q( bs ) );
    if( SU::extractFromString( std::string( "1.5" ), io ) ) c.viol( "malformed_int_accepted", "1.5" );
    c.stat( "numbers", 8 );
  }
  // lists
  {
    const unsigned n = unsigned( r.i( 1, 5 ) ); std::vector<double> v; std::string t; const char dl = r.chance( 0.7 ) ? ' ' : ',';
    for( unsigned k = 0; k < n; ++k ) { v.push_back( r.gauss() * std::pow( 10.0, r.i( -6, 6 ) ) ); if( k ) t += dl; if( r.chance( 0.1 ) ) { v.back() = r.chance( 0.5 ) ? INFINITY : -INFINITY; t += v.back() > 0 ? "inf" : "-inf"; } else t += vf::str( v.back() ); }
    VectorXs out; const bool ok = SU::readScalarList( t, n, dl, out );
    bool same = ok && out.size() == long( n ); for( unsigned k = 0; same && k < n; ++k ) same = out( k ) == v[k];
    if( !same ) c.viol( "read_list", q( t ) );
    VectorXs o2; if( SU::readScalarList( t, n + 1, dl, o2 ) ) c.viol( "read_list_short_accepted", q( t ) );
    if( n > 1 && SU::readScalarList( t, n - 1, dl, o2 ) ) c.viol( "read_list_long_accepted", q( t ) );
    { std::string u = t; u[ r.next() % u.size() ] = '#'; if( SU::readScalarList( u, n, dl, o2 ) && u.find( '#' ) != std::string::npos ) c.viol( "read_list_garbage_accepted", q( u ) ); }
    if( SU::readScalarList( "", n, dl, o2 ) ) c.viol( "read_list_empty_accepted", "" );
    c.stat( "lists" );
  }
}

struct Blob { double a; int b; char c[5]; };
template<class M> static M rnd( vf::Rng& r, const long rows, const long cols ) { M m( rows, cols ); for( long j = 0; j < cols; ++j ) for( long i = 0; i < rows; ++i ) m( i, j ) = typename M::Scalar( r.chance( 0.05 ) ? 0 : r.i( 0, 1 << 20 ) ) * typename M::Scalar( 1 ) ; return m; }
template<class M> static bool same( const M& a, const M& b ) { return a.rows() == b.rows() && a.cols() == b.cols() && ( a.size() == 0 || memcmp( a.data(), b.data(), size_t( a.size() ) * sizeof( typename M::Scalar ) ) == 0 ); }

static SparseMatrixsc rsparse( vf::Rng& r, const int rows, const int cols, const double dens )
{
  std::vector<Eigen::Triplet<scalar>> t; for( int j = 0; j < cols; ++j ) for( int i = 0; i < rows; ++i ) if( r.chance( dens ) ) t.emplace_back( i, j, r.chance( 0.05 ) ? 0.0 : r.gauss() );
  SparseMatrixsc A( rows, cols ); A.setFromTriplets( t.begin(), t.end() ); A.makeCompressed(); return A;
}
static bool sameSparse( const SparseMatrixsc& A, const SparseMatrixsc& B )
{
  if( A.rows() != B.rows() || A.cols() != B.cols() || A.nonZeros() != B.nonZeros() ) return false;
  for( int k = 0; k < A.outerSize(); ++k ) { SparseMatrixsc::InnerIterator i( A, k ), j( B, k ); for( ; i && j; ++i, ++j ) if( i.row() != j.row() || memcmp( &i.value(), &j.value(), 8 ) ) return false; if( i || j ) return false; }
  return true;
}

static void binary( vf::Ctx& c, vf::Rng& r )
{
  std::stringstream s;
  struct Item { std::string what; std::function<bool()> read; long long end; };
  std::vector<Item> items;
  const int n = r.i( 1, 12 );
  for( int k = 0; k < n; ++k )
  {
    switch( r.i( 0, 13 ) )
    {
      case 0: { const double d = r.chance( 0.1 ) ? -0.0 : r.gauss(); Utilities::serialize( d, s ); items.push_back( { "double", [d,&s]{ const double e = Utilities::deserialize<double>( s ); return memcmp( &d, &e, 8 ) == 0; }, 0 } ); break; }
      case 1: { Blob b; memset( &b, 0, sizeof( b ) ); b.a = r.gauss(); b.b = int( r.next() ); b.c[4] = char( r.next() ); Utilities::serialize( b, s ); items.push_back( { "struct", [b,&s]{ const Blob e = Utilities::deserialize<Blob>( s ); return memcmp( &b, &e, sizeof( b ) ) == 0; }, 0 } ); break; }
      case 2: { std::vector<bool> v; const int m = r.i( 0, 70 ); for( int j = 0; j < m; ++j ) v.push_back( r.chance( 0.5 ) ); Utilities::serialize( v, s ); items.push_back( { "vector<bool>", [v,&s]{ return v == Utilities::deserialize<std::vector<bool>>( s ); }, 0 } ); break; }
      case 3: { std::vector<int> v; const int m = r.i( 0, 30 ); for( int j = 0; j < m; ++j ) v.push_back( int( r.next() ) ); Utilities::serialize( v, s ); items.push_back( { "vector<int>", [v,&s]{ return v == Utilities::deserialize<std::vector<int>>( s ); }, 0 } ); break; }
      case 4: { std::vector<double> v; const int m = r.i( 0, 30 ); for( int j = 0; j < m; ++j ) v.push_back( r.gauss() ); Utilities::serialize( v, s ); items.push_back( { "vector<double>", [v,&s]{ return v == Utilities::deserialize<std::vector<double>>( s ); }, 0 } ); break; }
      case 5: { std::string t; const int m = r.i( 0, 40 ); for( int j = 0; j < m; ++j ) t += char( r.next() ); SU::serialize( t, s ); items.push_back( { "string", [t,&s]{ return t == SU::deserialize( s ); }, 0 } ); break; }
      case 6: { std::vector<std::string> v; const int m = r.i( 0, 6 ); for( int j = 0; j < m; ++j ) v.push_back( rs( r, std::string( "ab\0c", 4 ), 9 ) ); SU::serializeVector( v, s ); items.push_back( { "vector<string>", [v,&s]{ return v == SU::deserializeVector( s ); }, 0 } ); break; }
      case 7: { const VectorXs v = rnd<VectorXs>( r, r.i( 0, 20 ), 1 ); MathUtilities::serialize( v, s ); items.push_back( { "VectorXs", [v,&s]{ return same( v, MathUtilities::deserialize<VectorXs>( s ) ); }, 0 } ); break; }
      case 8: { const VectorXu v = rnd<VectorXu>( r, r.i( 0, 20 ), 1 ); MathUtilities::serialize( v, s ); items.push_back( { "VectorXu", [v,&s]{ return same( v, MathUtilities::deserialize<VectorXu>( s ) ); }, 0 } ); break; }
      case 9: { const Matrix3Xsc v = rnd<Matrix3Xsc>( r, 3, r.i( 0, 12 ) ); MathUtilities::serialize( v, s ); items.push_back( { "Matrix3Xsc", [v,&s]{ return same( v, MathUtilities::deserialize<Matrix3Xsc>( s ) ); }, 0 } ); break; }
      case 10: { const Vector3s v = rnd<Vector3s>( r, 3, 1 ); MathUtilities::serialize( v, s ); items.push_back( { "Vector3s", [v,&s]{ return same( v, MathUtilities::deserialize<Vector3s>( s ) ); }, 0 } ); break; }
      case 11: { Matrix33sr v; v = rnd<Matrix33sr>( r, 3, 3 ); MathUtilities::serialize( v, s ); items.push_back( { "Matrix33sr", [v,&s]{ return same( v, MathUtilities::deserialize<Matrix33sr>( s ) ); }, 0 } ); break; }
      case 12: { const Vector2s v = rnd<Vector2s>( r, 2, 1 ); MathUtilities::serialize( v, s ); items.push_back( { "Vector2s", [v,&s]{ return same( v, MathUtilities::deserialize<Vector2s>( s ) ); }, 0 } ); break; }
      default: { const SparseMatrixsc A = rsparse( r, r.i( 1, 12 ), r.i( 1, 12 ), r.u() ); MathUtilities::serialize( A, s ); SparseMatrixsc pre = rsparse( r, r.i( 1, 5 ), r.i( 1, 5 ), 0.5 ); items.push_back( { "SparseMatrixsc", [A,pre,&s]{ SparseMatrixsc B = pre; MathUtilities::deserialize( B, s ); return sameSparse( A, B ); }, 0 } ); }
    }
    items.back().end = (long long) s.tellp();
  }
  std::string trail = "tail"; s.write( trail.data(), 4 );
  for( const Item& it : items )
  {
    if( !it.read() ) { c.viol( "roundtrip_" + it.what, it.what ); return; }
    if( (long long) s.tellg() != it.end ) { c.viol( "stream_position_" + it.what, vf::Msg() << it.what << " read to " << (long long) s.tellg() << " wrote to " << it.end ); return; }
    c.stat( "values_roundtripped" );
  }
  c.seen( vf::hs( s.str() ) );
}

static void matrices( vf::Ctx& c, vf::Rng& r )
{
  const int rows = r.i( 1, 12 ), cols = r.i( 1, 12 ); const SparseMatrixsc A = rsparse( r, rows, cols, r.u() );
  std::vector<unsigned> sel; for( int j = 0; j < cols; ++j ) if( r.chance( 0.5 ) ) sel.push_back( unsigned( j ) );
  if( sel.empty() ) sel.push_back( unsigned( r.i( 0, cols - 1 ) ) ); // Eigen itself reads past the end for an empty selection, which no caller makes
  if( r.chance( 0.3 ) ) std::reverse( sel.begin(), sel.end() );
  SparseMatrixsc B = rsparse( r, 3, 3, 0.5 ); MathUtilities::extractColumns( A, sel, B );
  bool ok = B.rows() == rows && B.cols() == long( sel.size() );
  const MatrixXXsc Ad( A ), Bd( B ); for( size_t k = 0; ok && k < sel.size(); ++k ) ok = Ad.col( sel[k] ) == Bd.col( long( k ) );
  if( !ok ) c.viol( "extract_columns", vf::Msg() << rows << "x" << cols << " select " << sel.size() );
  if( MathUtilities::isSquare( A ) != ( rows == cols ) ) c.viol( "is_square", "" );
  const int n = r.i( 1, 8 );
  { SparseMatrixsc S = rsparse( r, n, n, r.u( 0, 0.7 ) ); SparseMatrixsc T = S + SparseMatrixsc( S.transpose() ); if( !MathUtilities::isSymmetric( T, 1.0e-12 ) ) c.viol( "is_symmetric", "symmetric matrix rejected" );
    if( n > 1 ) { const int i = r.i( 0, n - 1 ); const int j = ( i + r.i( 1, n - 1 ) ) % n; T.coeffRef( i, j ) += 1.0; if( MathUtilities::isSymmetric( T, 1.0e-6 ) ) c.viol( "is_symmetric", "asymmetric matrix accepted" ); } }
  { SparseMatrixsc I( n, n ); I.setIdentity(); if( !MathUtilities::isIdentity( I, 1.0e-12 ) ) c.viol( "is_identity", "identity rejected" );
    SparseMatrixsc J = I; const int i = r.i( 0, n - 1 ), j = r.i( 0, n - 1 ); J.coeffRef( i, j ) += r.sgn() * 0.5; if( MathUtilities::isIdentity( J, 1.0e-6 ) ) c.viol( "is_identity", "perturbed identity accepted" );
    SparseMatrixsc K( n, n ); for( int k = 0; k < n; ++k ) if( k != i ) K.insert( k, k ) = 1.0; if( MathUtilities::isIdentity( K, 1.0e-6 ) ) c.viol( "is_identity", "matrix with a missing diagonal entry accepted" ); }
  {
    Eigen::Quaternion<scalar> qd( r.gauss(), r.gauss(), r.gauss(), r.gauss() ); qd.normalize(); const Matrix3s R = qd.toRotationMatrix();
    if( !MathUtilities::isRightHandedOrthoNormal( Vector3s( R.col( 0 ) ), Vector3s( R.col( 1 ) ), Vector3s( R.col( 2 ) ), 1.0e-9 ) ) c.viol( "right_handed_3d", "rotation rejected" );
    if( MathUtilities::isRightHandedOrthoNormal( Vector3s( R.col( 1 ) ), Vector3s( R.col( 0 ) ), Vector3s( R.col( 2 ) ), 1.0e-9 ) ) c.viol( "right_handed_3d", "reflection accepted" );
    if( MathUtilities::isRightHandedOrthoNormal( Vector3s( 1.001 * R.col( 0 ) ), Vector3s( R.col( 1 ) ), Vector3s( R.col( 2 ) ), 1.0e-6 ) ) c.viol( "right_handed_3d", "scaled frame accepted" );
    if( MathUtilities::isRightHandedOrthoNormal( Vector3s( R.col( 0 ) ), Vector3s( ( R.col( 1 ) + 0.01 * R.col( 0 ) ).normalized() ), Vector3s( R.col( 2 ) ), 1.0e-6 ) ) c.viol( "right_handed_3d", "skewed frame accepted" );
    const double a = r.u( 0, 7 ); const Vector2s u( std::cos( a ), std::sin( a ) ), w( -std::sin( a ), std::cos( a ) );
    if( !MathUtilities::isRightHandedOrthoNormal( u, w, 1.0e-9 ) || MathUtilities::isRightHandedOrthoNormal( w, u, 1.0e-9 ) ) c.viol( "right_handed_2d", "" );
    if( std::fabs( MathUtilities::cross( u, w ) - 1.0 ) > 1.0e-12 || std::fabs( MathUtilities::cross( w, u ) + 1.0 ) > 1.0e-12 ) c.viol( "cross", "" );
  }
  c.stat( "matrices" );
}

static void one( vf::Ctx& c, vf::Rng& r, long ) { for( int k = 0; k < 60; ++k ) { text( c, r ); binary( c, r ); matrices( c, r ); } c.sample( "60 rounds of text, binary and matrix utilities" ); }
int main( int argc, char** argv ) { return vf::main_( argc, argv, one ); }
