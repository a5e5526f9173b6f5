// The force laws (gravity, Hertzian penalty) restated over plain positions (after response.h).
#ifndef VERIF_LAWS_H
#define VERIF_LAWS_H
struct Law { bool grav = true; RVec g = RVec::Zero(); double k = 0, p = 2; };

inline VectorXs radii( Sim& s ) { VectorXs r = VectorXs::Zero( nBodies( s ) );
  #if VSIM == 1
  r = s.state().r();
  #else
  (void) s;
  #endif
  return r; }

inline double refU( Sim& s, const std::vector<Law>& L, const VectorXs& q, const VectorXs& m, double& scale )
{
  double U = 0; scale = 0; const int n = nBodies( s ); const VectorXs rr = radii( s );
  for( const Law& l : L )
  {
    if( l.grav ) for( int b = 0; b < n; ++b ) { const double u = -m( b ) * l.g.dot( bodyX( q, b ) ); U += u; scale += m( b ) * l.g.norm() * bodyX( q, b ).norm(); }
    else for( int a = 0; a < n; ++a ) for( int b = a + 1; b < n; ++b ) { const double d = rr( a ) + rr( b ) - ( bodyX( q, a ) - bodyX( q, b ) ).norm(); if( d > 0 ) { const double u = 0.5 * l.k * std::pow( d, l.p ); U += u; scale += u * ( 1.0 + l.p * 1.0e-2 * ( rr( a ) + rr( b ) + bodyX( q, a ).norm() ) / d ); } }
  }
  return U;
}
inline VectorXs refF( Sim& s, const std::vector<Law>& L, const VectorXs& q, const VectorXs& m, VectorXs& scale )
{
  const int n = nBodies( s ); VectorXs F = VectorXs::Zero( V( s ).size() ); scale = VectorXs::Zero( n ); const VectorXs rr = radii( s );
  const int st = VSIM == 2 ? 3 : RD;
  for( const Law& l : L )
  {
    if( l.grav ) for( int b = 0; b < n; ++b ) { F.segment<RD>( st * b ) += m( b ) * l.g; scale( b ) += m( b ) * l.g.norm(); }
    else for( int a = 0; a < n; ++a ) for( int b = a + 1; b < n; ++b )
    {
      const RVec e = bodyX( q, a ) - bodyX( q, b ); const double d = rr( a ) + rr( b ) - e.norm(); if( d <= 0 ) continue;
      const double f = 0.5 * l.k * l.p * std::pow( d, l.p - 1.0 );
      F.segment<RD>( st * a ) += f * e.normalized(); F.segment<RD>( st * b ) -= f * e.normalized();
      const double t = f * ( 1.0 + std::fabs( l.p - 1.0 ) * 1.0e-2 * ( rr( a ) + rr( b ) + bodyX( q, a ).norm() ) / d ); scale( a ) += t; scale( b ) += t;
    }
  }
  return F;
}

// replaces the scene's forces by nf random ones
inline std::vector<Law> randomLaws( vf::Ctx& c, vf::Rng& r, Scene& S, const int nf, const double grav, std::string& desc )
{
  Sim& s = S.sim; std::vector<Law> L;
  #if VSIM == 2
  std::vector<std::unique_ptr<RigidBody2DForce>> fs; const int n = nBodies( s );
  #endif
  for( int k = 0; k < nf; ++k )
  {
    Law l; l.grav = VSIM != 1 || r.chance( grav );
    for( int i = 0; i < RD; ++i ) l.g( i ) = r.logu( 0.01, 30.0 ) * r.sgn();
    static const std::vector<double> ps{ 2.0, 2.5, 2.0, 3.0, 1.5, 2.25 };
    l.k = r.logu( 0.5, 5000.0 ); l.p = r.pick( ps ); L.push_back( l ); desc += l.grav ? " g" : " p";
    #if VSIM == 1
    if( l.grav ) s.state().forces().emplace_back( new Ball2DGravityForce( l.g ) ); else { s.state().forces().emplace_back( new PenaltyForce( l.k, l.p ) ); c.stat( "penalty_forces" ); }
    #elif VSIM == 2
    fs.emplace_back( new NearEarthGravityForce( l.g ) );
    #else
    s.state().addForce( NearEarthGravityForce( l.g ) );
    #endif
  }
  (void) c;
  #if VSIM == 2
  { const RigidBody2DState& o = s.state(); VectorXs mm( 3 * n ); std::vector<bool> fx; for( int b = 0; b < n; ++b ) { mm.segment<3>( 3 * b ) << o.m( b ), o.m( b ), o.I( b ); fx.push_back( o.fixed( b ) ); }
    s.state() = RigidBody2DState( o.q(), o.v(), mm, fx, o.geometryIndices(), o.geometry(), fs, o.planes(), o.planarPortals() ); }
  #endif
  return L;
}
#endif
