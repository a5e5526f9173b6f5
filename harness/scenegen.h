// Scene files as trees: generator of valid files, writer with varied layout, single-fault corruptions (C02, C05, C06, C04).
#ifndef VERIF_SCENEGEN_H
#define VERIF_SCENEGEN_H
#include "sim.h"
#include <algorithm>
#if VSIM == 1
#include "ball2dutils/Ball2DSceneParser.h"
#elif VSIM == 2
#include "rigidbody2dutils/RigidBody2DSceneParser.h"
#include "rigidbody2dutils/CameraSettings2D.h"
#else
#include "rigidbody3dutils/RigidBody3DSceneParser.h"
#include "rigidbody3dutils/RenderingState.h"
#endif
#include "scisim/Math/Rational.h"
#include "scisim/StringUtilities.h"

namespace sg
{

enum Kind { NUM, POS, NONNEG, UNIT, UINT, UPOS, BOOL, ENUM, VEC, PVEC, NNVEC, NZVEC, MULT, RAT, STR, INDEX, SINDEX };
struct Attr { std::string n, v; Kind k; int cnt = 1; bool req = true; int limit = 0; };
struct Node
{
  std::string n; std::vector<Attr> a; std::vector<Node> c; bool req = false; // req: the scene is incomplete without it
  const Attr* attr( const std::string& s ) const { for( const Attr& x : a ) if( x.n == s ) return &x; return nullptr; }
  Attr* attr( const std::string& s ) { for( Attr& x : a ) if( x.n == s ) return &x; return nullptr; }
  const Node* child( const std::string& s ) const { for( const Node& x : c ) if( x.n == s ) return &x; return nullptr; }
  std::vector<const Node*> all( const std::string& s ) const { std::vector<const Node*> r; for( const Node& x : c ) if( x.n == s ) r.push_back( &x ); return r; }
  std::string text( const std::string& s ) const { const Attr* x = attr( s ); return x ? x->v : std::string(); }
  double num( const std::string& s ) const { return std::strtod( text( s ).c_str(), nullptr ); }
  long integer( const std::string& s ) const { return std::strtol( text( s ).c_str(), nullptr, 10 ); }
  bool flag( const std::string& s, const bool d = false ) const { const Attr* x = attr( s ); return x ? x->v.find( '1' ) != std::string::npos : d; }
  VectorXs vec( const std::string& s ) const
  {
    std::istringstream i( text( s ) ); std::vector<double> t; std::string w; while( i >> w ) t.push_back( std::strtod( w.c_str(), nullptr ) );
    VectorXs r( (long) t.size() ); for( size_t k = 0; k < t.size(); ++k ) r( long( k ) ) = t[k]; return r;
  }
};

// ---- texts
inline std::string numText( vf::Rng& r, const double x )
{
  char b[64];
  switch( r.i( 0, 6 ) )
  {
    case 0: snprintf( b, sizeof( b ), "%.17g", x ); break;
    case 1: snprintf( b, sizeof( b ), "%.16e", x ); break;
    case 2: snprintf( b, sizeof( b ), "%.3g", x ); break;
    case 3: snprintf( b, sizeof( b ), "%.6f", x ); if( std::strtod( b, nullptr ) == 0.0 ) snprintf( b, sizeof( b ), "%.17g", x ); break;
    case 4: snprintf( b, sizeof( b ), "%+.9g", x ); break;
    case 5: snprintf( b, sizeof( b ), "%.4E", x ); break;
    default: snprintf( b, sizeof( b ), "%.17f", x ); if( std::strtod( b, nullptr ) == 0.0 ) snprintf( b, sizeof( b ), "%.17g", x ); break;
  }
  return b;
}
inline std::string anyText( vf::Rng& r, const double scale = 3.0 ) { const int k = r.i( 0, 11 ); return k == 0 ? "0" : k == 1 ? "-0.0" : k == 2 ? "1" : k == 3 ? "-2" : k == 4 ? ".5" : k == 5 ? "-7." : numText( r, r.chance( 0.1 ) ? r.sgn() * r.logu( 1.0e-12, 1.0e12 ) : r.u( -scale, scale ) ); }
inline std::string posText( vf::Rng& r, const double a = 0.1, const double b = 4.0 ) { return r.chance( 0.1 ) ? numText( r, r.logu( 1.0e-9, 1.0e9 ) ) : numText( r, r.u( a, b ) ); }
inline std::string join( const std::vector<std::string>& v ) { std::string s; for( size_t k = 0; k < v.size(); ++k ) s += ( k ? " " : "" ) + v[k]; return s; }
inline std::string vecText( vf::Rng& r, const int n, const bool pos = false, const double scale = 3.0 ) { std::vector<std::string> t; for( int k = 0; k < n; ++k ) t.push_back( pos ? posText( r ) : anyText( r, scale ) ); return join( t ); }
inline std::string ratText( vf::Rng& r, const bool tame )
{
  if( tame ) { static const std::vector<std::string> o = { "1/100", "0.01", "0.005", "1/64", "0.02", "1/30", "1/250", "3/500", "1/48", "0.0125" }; return r.pick( o ); }
  char b[64];
  switch( r.i( 0, 5 ) )
  {
    case 0: snprintf( b, sizeof( b ), "%d/%d", r.i( 1, 50 ), r.i( 1, 5000 ) ); break;
    case 1: snprintf( b, sizeof( b ), "0.%0*d", r.i( 1, 9 ), r.i( 1, 9 ) ); break;
    case 2: snprintf( b, sizeof( b ), "%d", r.i( 1, 20 ) ); break;
    case 3: snprintf( b, sizeof( b ), "%d.%d", r.i( 0, 9 ), r.i( 1, 99999 ) ); break;
    case 4: snprintf( b, sizeof( b ), ".%03d0", r.i( 1, 999 ) ); break;
    default: snprintf( b, sizeof( b ), "+%d/%d", r.i( 1, 9 ), r.i( 1, 900 ) ); break;
  }
  return b;
}
// what the text of a rational says, as a pair in lowest terms
inline std::pair<long long,long long> ratValue( const std::string& s )
{
  long long n = 0, d = 1; const size_t sl = s.find( '/' );
  if( sl != std::string::npos ) { n = std::atoll( s.substr( 0, sl ).c_str() ); d = std::atoll( s.substr( sl + 1 ).c_str() ); }
  else { bool dot = false; for( const char ch : s ) { if( ch == '.' ) dot = true; else if( ch >= '0' && ch <= '9' ) { n = 10 * n + ( ch - '0' ); if( dot ) d *= 10; } } }
  long long a = n, b = d; while( b ) { const long long t = a % b; a = b; b = t; }
  return { n / a, d / a };
}
inline std::string d2( const double x ) { char b[32]; snprintf( b, sizeof( b ), "%.4f", x ); return b; }

// ---- solver nodes
inline Node lcpNode( vf::Rng& r, const std::string& name, const bool tame )
{
  Node n; n.n = name; n.req = true;
  const int k = r.i( 0, tame ? 1 : 2 );
  #if VSIM == 1
  if( k == 1 ) { n.a = { { "name", "apgd", ENUM }, { "tol", tame ? "1.0e-10" : posText( r ), POS }, { "max_iters", tame ? "2000" : std::to_string( r.i( 1, 5000 ) ), UINT } }; return n; }
  #endif
  n.a = { { "name", k == 2 ? "ql_vp" : "ql", ENUM }, { "tol", tame ? "1.0e-12" : posText( r ), NUM } };
  return n;
}
inline Node impactNode( vf::Rng& r, const std::string& name, const bool tame, const int depth = 0 )
{
  Node n; n.n = name; n.req = depth > 0;
  static const std::vector<std::string> types = { "gauss_seidel", "lcp", "gr", "grr", "jacobi" };
  std::string t = tame ? types[size_t( r.i( 0, depth ? 1 : 2 ) )] : r.pick( types );
  if( depth > 2 && t == "grr" ) t = "lcp";
  n.a.push_back( { "type", t, ENUM } );
  if( t == "gauss_seidel" || t == "jacobi" || t == "gr" ) n.a.push_back( { "v_tol", tame ? "1.0e-9" : r.chance( 0.1 ) ? std::string( "0" ) : posText( r ), NONNEG } );
  if( t == "lcp" || t == "gr" ) n.c.push_back( lcpNode( r, "solver", tame ) );
  if( t == "grr" ) { n.c.push_back( impactNode( r, "elastic_operator", tame, depth + 1 ) ); n.c.push_back( impactNode( r, "inelastic_operator", tame, depth + 1 ) ); if( r.chance( 0.5 ) ) std::swap( n.c[0], n.c[1] ); }
  if( depth == 0 )
  {
    n.a.push_back( { "CoR", tame ? d2( r.u( 0.0, 0.9 ) ) : numText( r, r.u() ), NUM } );
    #if VSIM != 3
    n.a.push_back( { "cache_impulses", r.chance( 0.5 ) ? "1" : "0", BOOL } );
    #endif
  }
  return n;
}
inline Node sobogusNode( vf::Rng& r, const bool tame )
{
  Node n; n.n = "sobogus_friction_solver";
  std::string st = "geometric"; const int k = r.i( 0, 2 );
  #if VSIM == 2
  if( k == 1 && !tame ) st = "stabilized";
  #else
  if( k == 1 ) st = "symplectic_euler"; else if( k == 2 && !tame ) st = "stabilized";
  #endif
  const int iters = tame ? 300 : r.i( 1, 4000 );
  n.a = { { "mu", tame ? d2( r.u( 0.0, 1.0 ) ) : r.chance( 0.1 ) ? std::string( "0" ) : posText( r ), NONNEG }, { "CoR", st == "symplectic_euler" ? "0.0" : tame ? d2( r.u( 0.0, 0.9 ) ) : numText( r, r.u() ), st == "symplectic_euler" ? NUM : UNIT },
          { "max_iters", std::to_string( iters ), UPOS }, { "eval_every", std::to_string( tame ? 5 : r.i( 1, iters ) ), UPOS }, { "tol", tame ? "1.0e-9" : r.chance( 0.1 ) ? std::string( "0" ) : posText( r ), NONNEG }, { "staggering", st, ENUM } };
  std::vector<std::string> caches = { "none" };
  #if VSIM == 1
  if( st != "stabilized" ) { caches.push_back( "normal" ); caches.push_back( "normal_and_friction" ); }
  #elif VSIM == 2
  if( st != "stabilized" ) { caches.push_back( "normal" ); if( !tame ) caches.push_back( "normal_and_friction" ); }
  #else
  if( st == "symplectic_euler" ) { caches.push_back( "normal" ); caches.push_back( "normal_and_friction" ); }
  #endif
  if( VSIM != 3 || st == "symplectic_euler" ) n.a.push_back( { "cache_impulses", r.pick( caches ), ENUM } );
  if( st == "symplectic_euler" ) { n.a.push_back( { "stabilization", r.chance( 0.5 ) ? "1" : "0", BOOL } ); n.a.push_back( { "penetration_threshold", tame ? "0.001" : r.chance( 0.2 ) ? std::string( "0" ) : posText( r ), NONNEG } ); }
  return n;
}
#if VSIM == 1
inline Node staggeredNode( vf::Rng& r, const bool tame )
{
  Node n; n.n = "staggered_projections_friction_solver";
  n.a = { { "mu", tame ? d2( r.u( 0.0, 1.0 ) ) : posText( r ), NONNEG }, { "CoR", tame ? d2( r.u( 0.0, 0.9 ) ) : numText( r, r.u() ), UNIT }, { "internal_warm_start_alpha", r.chance( 0.5 ) ? "1" : "0", BOOL }, { "internal_warm_start_beta", r.chance( 0.5 ) ? "1" : "0", BOOL },
          { "staggering", tame || r.chance( 0.5 ) ? "geometric" : "stabilized", ENUM }, { "tol", tame ? "1.0e-8" : posText( r ), NONNEG }, { "max_iters", std::to_string( tame ? 200 : r.i( 1, 900 ) ), UPOS } };
  n.c.push_back( lcpNode( r, "lcp_impact_solver", tame ) );
  Node m; m.n = "mdp_friction_solver"; m.req = true; m.a = { { "name", "ql", ENUM }, { "tol", tame ? "1.0e-12" : posText( r ), NONNEG } };
  n.c.push_back( m );
  return n;
}
#endif

inline Node planeNode( vf::Rng& r, const VectorXs& x, const VectorXs& nrm )
{
  Node n; n.n = "static_plane"; std::vector<std::string> a, b; for( long k = 0; k < x.size(); ++k ) { a.push_back( numText( r, x( k ) ) ); b.push_back( nrm( k ) == 0.0 ? "0" : numText( r, nrm( k ) ) ); }
  n.a = { { "x", join( a ), VEC, int( x.size() ) }, { "n", join( b ), NZVEC, int( x.size() ) } };
  return n;
}

// tame: a scene that can be simulated (used with the command-line programs)
inline Node genScene( vf::Rng& r, const bool tame )
{
  Node root; const int D = VSIM == 3 ? 3 : 2;
  root.n = VSIM == 1 ? "ball2d_scene" : VSIM == 2 ? "rigidbody2d_scene" : "rigidbody3d_scene"; root.req = true;
  if( !tame && r.chance( 0.3 ) ) { Node n; n.n = "scripting"; n.a = { { "callback", r.chance( 0.5 ) ? "my_script" : "some/dir/script", STR } }; root.c.push_back( n ); }
  if( !tame && r.chance( 0.6 ) ) { Node n; n.n = "end_time"; n.a = { { "t", posText( r ), POS } }; root.c.push_back( n ); }
  if( VSIM != 2 || tame || r.chance( 0.9 ) )
  {
    Node n; n.n = "integrator"; n.req = VSIM != 2;
    #if VSIM == 3
    static const std::vector<std::string> ints = { "split_ham", "dmv", "exponential_euler" };
    #else
    static const std::vector<std::string> ints = { "symplectic_euler", "verlet" };
    #endif
    n.a = { { "type", r.pick( ints ), ENUM }, { "dt", ratText( r, tame ), RAT } };
    root.c.push_back( n );
  }
  // response
  const int resp = r.i( 0, 3 );
  if( resp == 1 ) root.c.push_back( impactNode( r, "impact_operator", tame ) );
  if( resp == 2 ) root.c.push_back( sobogusNode( r, tame ) );
  #if VSIM == 1
  if( resp == 3 ) root.c.push_back( staggeredNode( r, tame ) );
  #else
  if( resp == 3 && r.chance( 0.5 ) ) root.c.push_back( r.chance( 0.5 ) ? sobogusNode( r, tame ) : impactNode( r, "impact_operator", tame ) );
  #endif
  // forces
  const int ng = r.i( 0, 2 );
  for( int k = 0; k < ng; ++k )
  {
    Node n;
    #if VSIM == 1
    n.n = "gravity"; n.a = { { "fx", anyText( r ), NUM }, { "fy", anyText( r, 12.0 ), NUM } };
    #else
    n.n = "near_earth_gravity"; n.a = { { "f", vecText( r, D, false, 5.0 ), VEC, D } };
    #endif
    if( tame ) for( Attr& a : n.a ) if( a.k == NUM ) a.v = d2( r.u( -3.0, 3.0 ) ); else a.v = D == 2 ? "0.25 -5.0" : "0.25 -5.0 0.5";
    root.c.push_back( n );
  }
  #if VSIM == 1
  if( !tame && r.chance( 0.4 ) ) { const int np = r.i( 1, 2 ); for( int k = 0; k < np; ++k ) { Node n; n.n = "penalty"; n.a = { { "stiffness", posText( r ), POS }, { "potential_power", r.chance( 0.5 ) ? "2" : numText( r, r.u( 1.0, 4.0 ) ), NUM } }; root.c.push_back( n ); } }
  #endif
  // planes and portals
  const double W = 4.0; int nplanes = 0, nport = 0;
  if( tame )
  {
    if( r.chance( 0.7 ) ) { VectorXs x = VectorXs::Zero( D ), nn = VectorXs::Zero( D ); x( 1 ) = -W; nn( 1 ) = 1.0; root.c.push_back( planeNode( r, x, nn ) ); ++nplanes; }
    if( r.chance( 0.4 ) ) { VectorXs x = VectorXs::Zero( D ), nn = VectorXs::Zero( D ); x( 0 ) = -W; nn( 0 ) = 1.0; root.c.push_back( planeNode( r, x, nn ) ); ++nplanes; }
  }
  else
  {
    nplanes = r.i( 0, 7 );
    for( int k = 0; k < nplanes; ++k ) { VectorXs x( D ), nn( D ); for( int j = 0; j < D; ++j ) { x( j ) = r.u( -9.0, 9.0 ); nn( j ) = r.u( -2.0, 2.0 ); } if( r.chance( 0.3 ) ) { nn.setZero(); nn( r.i( 0, D - 1 ) ) = r.sgn() * r.u( 0.2, 3.0 ); } root.c.push_back( planeNode( r, x, nn ) ); }
    std::vector<int> idx; for( int k = 0; k < nplanes; ++k ) idx.push_back( k );
    for( int k = nplanes - 1; k > 0; --k ) std::swap( idx[size_t( k )], idx[size_t( r.i( 0, k ) )] );
    nport = r.i( 0, nplanes / 2 );
    for( int p = 0; p < nport; ++p )
    {
      Node n; n.n = "planar_portal"; bool le = VSIM != 3 && r.chance( 0.4 ); if( le ) n.n = "lees_edwards_portal";
      n.a = { { "planeA", std::to_string( idx[size_t( 2 * p )] ), INDEX, 1, true, nplanes }, { "planeB", std::to_string( idx[size_t( 2 * p + 1 )] ), INDEX, 1, true, nplanes } };
      if( le ) { n.a.push_back( { "v", numText( r, r.sgn() * r.u( 0.1, 5.0 ) ), NUM } ); n.a.push_back( { "bounds", posText( r ), POS } ); }
      #if VSIM == 3
      { std::string m; for( int j = 0; j < 3; ++j ) m += std::string( j ? " " : "" ) + ( r.chance( 0.5 ) ? "1" : "-1" ); n.a.push_back( { "multiplier", m, MULT, 3 } ); }
      #endif
      root.c.push_back( n );
    }
  }
  // curved static geometry
  const int nc = tame ? ( r.chance( 0.2 ) ? 1 : 0 ) : r.i( 0, 3 );
  #if VSIM == 1
  for( int k = 0; k < nc; ++k ) { Node n; n.n = "static_drum"; n.a = { { "x", tame ? "0.1" : anyText( r ), NUM }, { "y", tame ? "-0.2" : anyText( r ), NUM }, { "r", tame ? "9.0" : posText( r ), POS } }; root.c.push_back( n ); }
  #elif VSIM == 3
  for( int k = 0; k < nc && !tame; ++k ) { Node n; n.n = "static_cylinder"; n.a = { { "x", vecText( r, 3 ), VEC, 3 }, { "axis", numText( r, r.u( 0.2, 2.0 ) ) + " " + anyText( r ) + " " + anyText( r ), NZVEC, 3 }, { "R", posText( r ), POS } }; root.c.push_back( n ); }
  if( !tame )
  {
    const int npr = nplanes ? r.i( 0, 3 ) : 0; std::vector<int> used;
    for( int k = 0; k < npr; ++k ) { const int p = r.i( 0, nplanes - 1 ); if( std::find( used.begin(), used.end(), p ) != used.end() ) continue; used.push_back( p ); Node n; n.n = "static_plane_renderer"; n.a = { { "plane", std::to_string( p ), INDEX, 1, true, nplanes }, { "r", vecText( r, 2, true ), PVEC, 2 } }; root.c.push_back( n ); }
    const int ncr = nc ? r.i( 0, 2 ) : 0;
    for( int k = 0; k < ncr; ++k ) { Node n; n.n = "static_cylinder_renderer"; n.a = { { "cylinder_idx", std::to_string( r.i( 0, nc - 1 ) ), INDEX, 1, true, nc }, { "L", posText( r ), POS } }; root.c.push_back( n ); }
    if( r.chance( 0.4 ) ) { Node n; n.n = "simulation_boundary"; n.a = { { "violation_behavior", r.chance( 0.5 ) ? "none" : "exit", ENUM }, { "min", vecText( r, 3, false, 2.0 ), VEC, 3 }, { "max", "1.5e12 2.0e13 3.0e14", VEC, 3 } }; root.c.push_back( n ); }
  }
  #else
  (void) nc;
  #endif
  // bodies
  const int nb = tame ? r.i( 1, 8 ) : r.i( 0, 6 );
  #if VSIM == 1
  for( int k = 0; k < nb; ++k )
  {
    Node n; n.n = "ball";
    if( tame ) n.a = { { "x", d2( -2.5 + 1.1 * ( k % 3 ) + r.u( 0.0, 0.2 ) ), NUM }, { "y", d2( -2.5 + 1.1 * ( k / 3 ) + r.u( 0.0, 0.2 ) ), NUM }, { "vx", d2( r.u( -2.0, 2.0 ) ), NUM }, { "vy", d2( r.u( -2.0, 2.0 ) ), NUM }, { "m", d2( r.u( 0.5, 2.0 ) ), POS }, { "r", d2( r.u( 0.3, 0.5 ) ), POS }, { "fixed", "0", BOOL } };
    else n.a = { { "x", anyText( r ), NUM }, { "y", anyText( r ), NUM }, { "vx", anyText( r ), NUM }, { "vy", anyText( r ), NUM }, { "m", posText( r ), POS }, { "r", posText( r ), POS }, { "fixed", r.chance( 0.3 ) ? "1" : "0", BOOL } };
    root.c.push_back( n );
  }
  #else
  const int ngeo = r.i( nb ? 1 : 0, 4 ); bool box_only = tame && r.chance( 0.4 );
  for( int k = 0; k < ngeo; ++k )
  {
    Node n; n.n = "geometry"; int t = r.i( 0, VSIM == 2 ? 1 : 2 ); if( tame ) t = VSIM == 2 ? t : box_only ? 1 : 0;
    if( t == 0 ) n.a = { { "type", VSIM == 2 ? "circle" : "sphere", ENUM }, { "r", tame ? d2( r.u( 0.3, 0.45 ) ) : posText( r ), POS } };
    else if( t == 1 ) { n.a = { { "type", "box", ENUM }, { "r", vecText( r, D, true ), PVEC, D } }; if( tame ) n.a[1].v = D == 2 ? d2( r.u( 0.2, 0.35 ) ) + " " + d2( r.u( 0.2, 0.35 ) ) : d2( r.u( 0.2, 0.35 ) ) + " " + d2( r.u( 0.2, 0.35 ) ) + " " + d2( r.u( 0.2, 0.35 ) ); }
    else { const double w = r.u( 1.0, 4.0 ), l = r.u( 1.0, 4.0 ); n.a = { { "type", "staple", ENUM }, { "w", numText( r, w ), POS }, { "l", numText( r, l ), POS }, { "D", numText( r, r.u( 0.1, 0.5 ) ), POS } }; }
    root.c.push_back( n );
  }
  for( int k = 0; k < nb; ++k )
  {
    Node n; n.n = VSIM == 2 ? "rigid_body" : "rigid_body_with_density"; const int gi = r.i( 0, ngeo - 1 );
    std::string x = vecText( r, D ), v = vecText( r, D ), om = vecText( r, VSIM == 2 ? 1 : 3 );
    if( tame ) { x = d2( -2.5 + 1.1 * ( k % 3 ) + r.u( 0.0, 0.2 ) ) + " " + d2( -2.5 + 1.1 * ( k / 3 ) + r.u( 0.0, 0.2 ) ) + ( D == 3 ? " " + d2( r.u( -0.2, 0.2 ) ) : "" ); v = d2( r.u( -2.0, 2.0 ) ) + " " + d2( r.u( -2.0, 2.0 ) ) + ( D == 3 ? " " + d2( r.u( -1.0, 1.0 ) ) : "" ); om = d2( r.u( -2.0, 2.0 ) ); if( D == 3 ) om += " " + d2( r.u( -2.0, 2.0 ) ) + " " + d2( r.u( -2.0, 2.0 ) ); }
    #if VSIM == 2
    n.a = { { "x", x, VEC, 2 }, { "theta", tame ? d2( r.u( -3.0, 3.0 ) ) : anyText( r ), NUM }, { "v", v, VEC, 2 }, { "omega", om, NUM }, { "rho", posText( r, 0.5, 3.0 ), POS }, { "geo_idx", std::to_string( gi ), INDEX, 1, true, ngeo } };
    if( tame ) n.a[4].v = d2( r.u( 0.5, 2.0 ) );
    if( !tame && r.chance( 0.4 ) ) n.a.push_back( { "fixed", r.chance( 0.5 ) ? "1" : "0", BOOL, 1, false } );
    #else
    const bool fx = r.chance( tame ? 0.1 : 0.3 ); if( fx && tame ) { v = "0 0 0"; om = "0 0 0"; }
    n.a = { { "x", x, VEC, 3 }, { "v", v, VEC, 3 }, { "omega", om, VEC, 3 }, { "rho", tame ? d2( r.u( 0.5, 2.0 ) ) : posText( r, 0.5, 3.0 ), POS }, { "fixed", fx ? "1" : "0", BOOL }, { "geo_idx", std::to_string( r.chance( 0.3 ) ? gi - ngeo : gi ), SINDEX, 1, true, ngeo } };
    if( r.chance( 0.6 ) ) n.a.push_back( { "R", r.chance( 0.1 ) ? std::string( "0 0 0" ) : tame ? d2( r.u( -3.0, 3.0 ) ) + " " + d2( r.u( -3.0, 3.0 ) ) + " 0.2" : numText( r, r.u( -3.0, 3.0 ) ) + " " + numText( r, r.u( -3.0, 3.0 ) ) + " " + numText( r, r.u( -3.0, 3.0 ) ), VEC, 3, false } );
    #endif
    root.c.push_back( n );
  }
  #endif
  // camera
  if( r.chance( 0.3 ) )
  {
    Node n; n.n = "camera";
    const std::vector<Attr> tail = { { "fps", std::to_string( r.i( 1, 120 ) ), VSIM == 2 ? UPOS : UINT }, { "render_at_fps", r.chance( 0.5 ) ? "1" : "0", BOOL }, { "locked", r.chance( 0.5 ) ? "1" : "0", BOOL } };
    #if VSIM == 1
    n.a = { { "cx", anyText( r ), NUM }, { "cy", anyText( r ), NUM }, { "scale_factor", posText( r ), NUM } };
    #elif VSIM == 2
    n.a = { { "center", vecText( r, 2 ), VEC, 2 }, { "scale", posText( r ), POS } };
    #else
    if( r.chance( 0.5 ) ) { n.n = "camera_perspective"; n.a = { { "theta", anyText( r ), NUM }, { "phi", anyText( r ), NUM }, { "rho", posText( r ), POS }, { "lookat", vecText( r, 3 ), VEC, 3 }, { "up", "0 1 0", VEC, 3 } }; }
    else { n.n = "camera_orthographic"; static const std::vector<std::string> pp = { "xy", "zy", "zx" }; n.a = { { "projection_plane", r.pick( pp ), ENUM }, { "x", vecText( r, 3 ), VEC, 3 }, { "scale", posText( r ), POS } }; }
    #endif
    for( const Attr& a : tail ) n.a.push_back( a );
    root.c.push_back( n );
  }
  // any order of elements: the relative order of elements of one name is what the tree states
  for( size_t k = root.c.size(); k > 1; --k ) std::swap( root.c[k - 1], root.c[size_t( r.i( 0, int( k ) - 1 ) )] );
  if( tame ) { std::stable_sort( root.c.begin(), root.c.end(), []( const Node& a, const Node& b ) { return a.n < b.n; } ); }
  #if VSIM != 3
  if( tame && r.chance( 0.25 ) ) // a periodic or sheared domain
  {
    int np = 0; for( const Node& n : root.c ) if( n.n == "static_plane" ) ++np;
    VectorXs x = VectorXs::Zero( 2 ), nn = VectorXs::Zero( 2 ); x( 0 ) = -3.6; nn( 0 ) = 1.0; root.c.push_back( planeNode( r, x, nn ) ); root.c.push_back( planeNode( r, -x, -nn ) );
    Node n; n.n = r.chance( 0.5 ) ? "planar_portal" : "lees_edwards_portal";
    n.a = { { "planeA", std::to_string( np ), INDEX, 1, true, np + 2 }, { "planeB", std::to_string( np + 1 ), INDEX, 1, true, np + 2 } };
    if( n.n != "planar_portal" ) { n.a.push_back( { "v", d2( r.sgn() * r.u( 0.2, 2.0 ) ), NUM } ); n.a.push_back( { "bounds", "3.6", POS } ); }
    root.c.push_back( n );
  }
  #endif
  return root;
}

// the index attributes of portals and bodies refer to the order in the file, which the shuffle changed: any index is valid, so the tree stays the statement

// ---- writer
inline std::string esc( const std::string& s ) { std::string o; for( const char ch : s ) { if( ch == '<' ) o += "&lt;"; else if( ch == '&' ) o += "&amp;"; else if( ch == '"' ) o += "&quot;"; else if( ch == '\'' ) o += "&apos;"; else o += ch; } return o; }
struct Layout { bool vary = true; bool newline_in_tag = true; };
inline void write( std::string& o, const Node& n, vf::Rng& r, const Layout& L, const int depth )
{
  const auto ws = [&]() -> std::string { if( !L.vary ) return " "; const int k = r.i( 0, 9 ); return k < 6 ? " " : k == 6 ? "  " : k == 7 ? "\t" : L.newline_in_tag ? ( r.chance( 0.5 ) ? "\n" : "\n  " ) : "   "; };
  o += std::string( size_t( 2 * depth ), ' ' ) + "<" + n.n;
  std::vector<size_t> ord; for( size_t k = 0; k < n.a.size(); ++k ) ord.push_back( k );
  if( L.vary ) for( size_t k = ord.size(); k > 1; --k ) std::swap( ord[k - 1], ord[size_t( r.i( 0, int( k ) - 1 ) )] );
  for( const size_t k : ord ) { const char q = L.vary && r.chance( 0.2 ) ? '\'' : '"'; const std::string sp = L.vary && r.chance( 0.1 ) ? " " : ""; o += ws() + n.a[k].n + sp + "=" + sp + q + esc( n.a[k].v ) + q; }
  if( n.c.empty() && !( L.vary && r.chance( 0.2 ) ) ) { o += ( L.vary && r.chance( 0.3 ) ? " />" : "/>" ); }
  else
  {
    o += ">\n";
    for( const Node& x : n.c ) { if( L.vary && r.chance( 0.1 ) ) o += "  <!-- <ball x='1'> & a comment -->\n"; if( L.vary && r.chance( 0.05 ) ) o += "\n\n"; write( o, x, r, L, depth + 1 ); }
    o += std::string( size_t( 2 * depth ), ' ' ) + "</" + n.n + ">";
  }
  o += L.vary && r.chance( 0.1 ) ? "\r\n" : "\n";
}
inline std::string toXML( const Node& root, vf::Rng& r, const Layout& L )
{
  std::string o; if( !L.vary || r.chance( 0.7 ) ) o += "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n"; if( L.vary && r.chance( 0.2 ) ) o += "<!-- scene -->\n";
  write( o, root, r, L, 0 );
  if( L.vary && r.chance( 0.2 ) ) while( !o.empty() && o.back() == '\n' ) o.pop_back();
  return o;
}
inline void save( const std::string& path, const std::string& text ) { FILE* f = fopen( path.c_str(), "wb" ); if( !f ) { perror( path.c_str() ); exit( 3 ); } if( fwrite( text.data(), 1, text.size(), f ) != text.size() ) exit( 3 ); fclose( f ); }

// ---- loading with the code under test
#if VSIM == 1
typedef Ball2DState State;
#elif VSIM == 2
typedef RigidBody2DState State;
#else
typedef RigidBody3DState State;
#endif
struct Loaded
{
  bool ok = false; std::string script; State state; std::unique_ptr<UnconstrainedMap> umap; std::string dt_string; Rational<std::intmax_t> dt; scalar end_time = -1.0;
  std::unique_ptr<ImpactOperator> iop; std::unique_ptr<ImpactMap> imap; scalar CoR = -1.0, mu = -1.0; std::unique_ptr<FrictionSolver> solver; std::unique_ptr<ImpactFrictionMap> ifmap;
  #if VSIM == 1
  bool cam = false, with_camera = false, render_at_fps = false, locked = false; Eigen::Vector2d center = Eigen::Vector2d::Zero(); double scale = 0; unsigned fps = 0;
  #elif VSIM == 2
  CameraSettings2D cam;
  #else
  RenderingState cam;
  #endif
};
inline void load( Loaded& l, const std::string& path, const bool with_camera )
{
  #if VSIM == 1
  l.with_camera = with_camera;
  if( with_camera ) l.ok = Ball2DSceneParser::parseXMLSceneFile( path, l.script, l.state, l.umap, l.dt_string, l.dt, l.end_time, l.iop, l.imap, l.CoR, l.solver, l.mu, l.ifmap, l.cam, l.center, l.scale, l.fps, l.render_at_fps, l.locked );
  else l.ok = Ball2DSceneParser::parseXMLSceneFile( path, l.script, l.state, l.umap, l.dt_string, l.dt, l.end_time, l.iop, l.imap, l.CoR, l.solver, l.mu, l.ifmap );
  #elif VSIM == 2
  (void) with_camera; l.ok = RigidBody2DSceneParser::parseXMLSceneFile( path, l.script, l.state, l.umap, l.dt_string, l.dt, l.end_time, l.iop, l.imap, l.CoR, l.solver, l.mu, l.ifmap, l.cam );
  #else
  (void) with_camera; l.ok = RigidBody3DSceneParser::parseXMLSceneFile( path, l.script, l.state, l.umap, l.dt_string, l.dt, l.end_time, l.iop, l.CoR, l.solver, l.mu, l.ifmap, l.cam );
  #endif
}

}
#endif
