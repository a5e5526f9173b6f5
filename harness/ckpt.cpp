// C01: a snapshot taken at any step, restored into a fresh simulation, continues bit-identically.
#include "sim.h"

static void one( vf::Ctx& c, vf::Rng& r, long )
{
  Opt o; o.moving = 0.15; o.penalty = 0.1; o.nmax = c.thorough ? 24 : 14; o.curved = 0.3;
  Scene S = mkScene( r, o );
  Dyn d = mkDyn( r, -1, S.caps() );
  const int n0 = r.i( 0, 15 ), n1 = r.i( 1, c.thorough ? 40 : 12 );
  c.family( d.desc );
  if( !d.serializable ) { c.stat( "not_serializable" ); d.step( S.sim ); return; }
  for( int k = 0; k < n0; ++k ) d.step( S.sim );
  if( !vf::finite( Q( S.sim ) ) ) { c.stat( "nonfinite" ); return; }
  // snapshot
  std::stringstream s;
  S.sim.serialize( s );
  const size_t cut = size_t( s.tellp() );
  d.serialize( s );
  const std::string bytes = s.str();
  // taking a snapshot changes nothing
  { std::stringstream t; S.sim.serialize( t ); d.serialize( t ); if( t.str() != bytes ) c.viol( "snapshot_not_pure", S.desc + " | " + d.desc ); }
  // restore into fresh objects, or into objects already used by another simulation
  Sim B; Dyn e;
  if( r.chance( 0.5 ) ) { vf::Rng r2( r.next() ); Opt o2; Scene T = mkScene( r2, o2 ); e = mkDyn( r2, -1, T.caps() ); c.family( "other " + e.desc ); e.step( T.sim ); e.step( T.sim ); B = std::move( T.sim ); c.family( d.desc ); c.stat( "restored_over_used_objects" ); }
  #if VSIM == 3
  B = RigidBody3DSim();
  #endif
  std::stringstream in( bytes );
  B.deserialize( in );
  if( size_t( in.tellg() ) != cut ) c.viol( "sim_bytes_consumed", vf::Msg() << "wrote " << cut << " read " << in.tellg() << " | " << S.desc << " | " << d.desc );
  e.deserialize( in );
  if( !in || size_t( in.tellg() ) != bytes.size() ) c.viol( "bytes_consumed", vf::Msg() << "wrote " << bytes.size() << " | " << S.desc << " | " << d.desc );
  { std::stringstream t; B.serialize( t ); e.serialize( t ); if( t.str() != bytes ) { c.viol( "reserialize_differs", S.desc + " | " + d.desc ); } }
  c.stat( "mode" + std::to_string( d.mode ) );
  if( d.warm ) c.stat( "warm" ); if( S.portal ) c.stat( "portal" ); if( S.le ) c.stat( "lees_edwards" ); if( S.curved ) c.stat( "curved" ); if( S.fixed ) c.stat( "fixed" );
  #if VSIM != 1
  c.stat( "geometry_kind" + std::to_string( S.kind ) );
  #endif
  const bool cache_nonempty = !S.sim.constraintCacheEmpty();
  if( cache_nonempty ) c.stat( "snapshot_with_warm_start_cache" );
  int contacts = 0;
  for( int k = 0; k < n1; ++k )
  {
    if( d.mode ) contacts += int( predictActive( S.sim, d.dt, d.it + 1 ).size() );
    d.step( S.sim ); e.step( B );
    c.stat( "steps_compared" );
    const bool same = Q( S.sim ).size() == Q( B ).size() && memcmp( Q( S.sim ).data(), Q( B ).data(), size_t( Q( B ).size() ) * 8 ) == 0 && memcmp( V( S.sim ).data(), V( B ).data(), size_t( V( B ).size() ) * 8 ) == 0;
    if( !same )
    {
      c.viol( "continuation_differs", vf::Msg() << "step " << n0 << "+" << k + 1 << " dq=" << ( Q( S.sim ).size() == Q( B ).size() ? ( Q( S.sim ) - Q( B ) ).lpNorm<Eigen::Infinity>() : -1.0 ) << " | " << S.desc << " | " << d.desc );
      return;
    }
  }
  if( simBytes( S.sim ) != simBytes( B ) || dynBytes( d ) != dynBytes( e ) ) c.viol( "final_snapshot_differs", S.desc + " | " + d.desc );
  const double ka = kinetic( S.sim ), kb = kinetic( B ), ua = potential( S.sim ), ub = potential( B );
  if( memcmp( &ka, &kb, 8 ) || memcmp( &ua, &ub, 8 ) ) c.viol( "energy_differs", vf::Msg() << ka << " " << kb << " " << ua << " " << ub << " | " << S.desc );
  if( contacts ) { c.stat( "cases_with_contacts" ); c.seen( vf::hv( Q( S.sim ) ) ); }
  c.stat( "contacts", contacts );
  c.sample( S.desc + " | " + d.desc + " | steps " + std::to_string( n0 ) + "+" + std::to_string( n1 ) + " contacts " + std::to_string( contacts ) );
}

// every setting of an operator, solver, map or force is part of its snapshot: two that differ in one setting never leave the same bytes, a clone always does
template<class T> static std::string bytesOf( const T& x ) { std::ostringstream o; x.serialize( o ); return o.str(); }
static void settings( vf::Ctx& c, vf::Rng& r, long )
{
  const double a = r.logu( 1.0e-14, 1.0 ), b = a * r.u( 1.0e-3, 0.999 ), s = r.logu( 1.0e-6, 1.0e6 ), s2 = s * r.u( 1.1, 3.0 ); const unsigned n = unsigned( r.i( 1, 100000 ) ), n2 = n + unsigned( r.i( 1, 100000 ) );
  std::map<std::string,std::vector<std::string>> w; // by what it is: bytes of versions that differ pairwise in one or more settings
  const auto clones = [&]( const std::string& what, const std::string& x, const std::string& y ) { c.stat( "clones_compared" ); if( x != y ) c.viol( "clone_differs/" + what, vf::Msg() << "a clone leaves other bytes than its original (settings " << a << " " << n << ")" ); };
  const auto op = [&]( const ImpactOperator& x ) { w[x.name()].push_back( bytesOf( x ) ); clones( x.name(), bytesOf( x ), bytesOf( *x.clone() ) ); };
  const auto fop = [&]( const FrictionOperator& x, const std::string& nm ) { w[nm].push_back( bytesOf( x ) ); clones( nm, bytesOf( x ), bytesOf( *x.clone() ) ); };
  op( GaussSeidelOperator( a ) ); op( GaussSeidelOperator( b ) );
  op( LCPOperatorAPGD( a, n ) ); op( LCPOperatorAPGD( b, n ) ); op( LCPOperatorAPGD( a, n2 ) );
  op( LCPOperatorQL( a ) ); op( LCPOperatorQL( b ) );
  const LCPOperatorQL qa( a ), qb( b ); const LCPOperatorAPGD pa( a, n );
  op( GROperator( a, qa ) ); op( GROperator( b, qa ) ); op( GROperator( a, qb ) ); op( GROperator( a, pa ) );
  op( GRROperator( qa, qb ) ); op( GRROperator( qb, qa ) ); op( GRROperator( qa, qa ) ); op( GRROperator( qb, qb ) ); op( GRROperator( pa, qa ) ); op( GRROperator( qa, pa ) );
  const BoundConstrainedMDPOperatorQL ba( a ), bb( b ); fop( ba, "bound_mdp" ); fop( bb, "bound_mdp" );
  const int d1 = r.i( 2, 50 ); const LinearMDPOperatorQL la( d1, a ), lb( d1, b ), lc( d1 + r.i( 1, 5 ), a ); fop( la, "linear_mdp" ); fop( lb, "linear_mdp" ); fop( lc, "linear_mdp" );
  for( int k = 0; k < 2; ++k ) w["impact_map"].push_back( bytesOf( ImpactMap( k == 1 ) ) );
  const ImpulsesToCache I[3] = { ImpulsesToCache::NONE, ImpulsesToCache::NORMAL, ImpulsesToCache::NORMAL_AND_FRICTION };
  for( int k = 0; k < 12; ++k ) w["geometric"].push_back( bytesOf( GeometricImpactFrictionMap( k & 1 ? a : b, k & 2 ? n : n2, I[k >> 2] ) ) );
  for( int k = 0; k < 16; ++k ) w["stabilized"].push_back( bytesOf( StabilizedImpactFrictionMap( k & 1 ? a : b, k & 2 ? n : n2, k & 4, k & 8 ) ) );
  for( int k = 0; k < 48; ++k ) w["symplectic_euler"].push_back( bytesOf( SymplecticEulerImpactFrictionMap( k & 1 ? a : b, k & 2 ? n : n2, I[k >> 4], k & 4, k & 8 ? s : s2 ) ) );
  w["sobogus"] = { bytesOf( Sobogus( sobogusType(), n ) ), bytesOf( Sobogus( sobogusType(), n2 ) ) };
  for( int k = 0; k < 16; ++k ) w["staggered"].push_back( bytesOf( StaggeredProjections( k & 1, k & 2, k & 4 ? qa : qb, k & 8 ? ba : bb ) ) );
  for( int k = 0; k < 4; ++k ) w["grr_friction"].push_back( bytesOf( GRRFriction( k & 1 ? qa : qb, k & 2 ? la : lb ) ) );
  const double th = r.u( 0, 6 );
  #if VSIM == 1
  const Vector2s g( std::cos( th ), std::sin( th ) );
  const auto force = [&]( const Ball2DForce& f, const std::string& nm ) { w[nm].push_back( bytesOf( f ) ); clones( nm, bytesOf( f ), bytesOf( *f.clone() ) ); };
  force( Ball2DGravityForce( s * g ), "gravity" ); force( Ball2DGravityForce( s2 * g ), "gravity" ); force( Ball2DGravityForce( s * Vector2s( g.y(), g.x() + 1 ) ), "gravity" );
  const double p = r.u( 1.0, 4.0 ); force( PenaltyForce( s, p ), "penalty" ); force( PenaltyForce( s2, p ), "penalty" ); force( PenaltyForce( s, 1.01 * p ), "penalty" );
  w["drum"] = { bytesOf( StaticDrum( s * g, s ) ), bytesOf( StaticDrum( s * g, s2 ) ), bytesOf( StaticDrum( s2 * g, s ) ), bytesOf( StaticDrum( s * Vector2s( g.x(), g.y() + 1 ), s ) ) };
  #elif VSIM == 2
  const Vector2s g( std::cos( th ), std::sin( th ) );
  const auto force = [&]( const RigidBody2DForce& f ) { w["gravity"].push_back( bytesOf( f ) ); clones( "gravity", bytesOf( f ), bytesOf( *f.clone() ) ); };
  force( NearEarthGravityForce( s * g ) ); force( NearEarthGravityForce( s2 * g ) ); force( NearEarthGravityForce( s * Vector2s( g.y(), g.x() + 1 ) ) );
  const auto geo = [&]( const RigidBody2DGeometry& f, const std::string& nm ) { w[nm].push_back( bytesOf( f ) ); clones( nm, bytesOf( f ), bytesOf( *f.clone() ) ); };
  geo( CircleGeometry( s ), "circle" ); geo( CircleGeometry( s2 ), "circle" ); geo( BoxGeometry( Vector2s( s, s2 ) ), "box" ); geo( BoxGeometry( Vector2s( s2, s ) ), "box" ); geo( BoxGeometry( Vector2s( s, s ) ), "box" );
  #else
  const Vector3s g( std::cos( th ), std::sin( th ), 0.3 ); const Vector3s e = g.normalized();
  const auto force = [&]( const Force& f ) { w["gravity"].push_back( bytesOf( f ) ); clones( "gravity", bytesOf( f ), bytesOf( *f.clone() ) ); };
  force( NearEarthGravityForce( s * g ) ); force( NearEarthGravityForce( s2 * g ) ); force( NearEarthGravityForce( s * Vector3s( g.x(), g.y(), 0.4 ) ) );
  const auto geo = [&]( const RigidBodyGeometry& f, const std::string& nm ) { w[nm].push_back( bytesOf( f ) ); clones( nm, bytesOf( f ), bytesOf( *f.clone() ) ); };
  geo( RigidBodySphere( s ), "sphere" ); geo( RigidBodySphere( s2 ), "sphere" ); for( int k = 0; k < 8; ++k ) geo( RigidBodyBox( Vector3s( k & 1 ? s : s2, k & 2 ? s : s2, k & 4 ? s : s2 ) ), "box" );
  for( int k = 0; k < 4; ++k ) { StaticCylinder y( ( k & 1 ? s : s2 ) * g, e, k & 2 ? s : s2 ); w["cylinder"].push_back( bytesOf( y ) ); if( k == 3 ) { y.omega() = s * e; w["cylinder"].push_back( bytesOf( y ) ); } }
  #endif
  for( const auto& x : w ) for( size_t i = 0; i < x.second.size(); ++i ) for( size_t j = 0; j < i; ++j )
  {
    c.stat( "settings_compared" );
    if( x.second[i] == x.second[j] ) c.viol( "setting_not_saved/" + x.first, vf::Msg() << "versions " << j << " and " << i << " with different settings leave the same bytes (" << a << " " << b << " " << s << " " << s2 << " " << n << " " << n2 << ")" );
  }
}
int main( int argc, char** argv ) { return vf::main_( argc, argv, []( vf::Ctx& c, vf::Rng& r, long k ) { if( k % 8 == 3 ) settings( c, r, k ); else one( c, r, k ); } ); }
