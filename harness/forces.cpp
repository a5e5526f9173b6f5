// C19: forces against the gradient of the reported potential energy and against the stated laws; reported energies and momenta against sums over the bodies.
#include "response.h"
#include "totals.h"
#include "laws.h"

static VectorXs force( Sim& s, vf::Rng& r, const VectorXs& q, const VectorXs& v ) { VectorXs F( v.size() ); for( long k = 0; k < F.size(); ++k ) F( k ) = r.gauss() * 1.0e3; fsys( s ).computeForce( q, v, r.u( 0, 10 ), F ); return F; }

static void judge( vf::Ctx& c, vf::Rng& r, Scene& S, const std::vector<Law>& L, const VectorXs& m, const std::string& where )
{
  Sim& s = S.sim; const int n = nBodies( s ); const VectorXs q = Q( s ), v = V( s ); const int st = VSIM == 2 ? 3 : RD;
  double su; const double U = refU( s, L, q, m, su ), Ur = potential( s );
  c.stat( "potentials" );
  if( !( std::fabs( U - Ur ) <= 1.0e-10 * su + 1e-300 ) ) c.viol( "potential", vf::Msg() << "reports potential energy " << Ur << ", the forces' laws give " << U << " | " << where );
  // the force at this configuration and at others, whatever state the simulation is in
  for( int t = 0; t < 2; ++t )
  {
    VectorXs qq = q, vv = v;
    if( t == 1 ) { for( int b = 0; b < n; ++b ) for( int k = 0; k < RD; ++k ) qq( st * b + k ) += 0.2 * S.rmin * r.gauss(); for( long k = 0; k < vv.size(); ++k ) vv( k ) += r.gauss(); }
    #if VSIM == 3
    if( t == 1 ) { Q( s ) = qq; V( s ) = vv; s.state().updateMandMinv(); }
    #endif
    VectorXs sc; const VectorXs F = force( s, r, qq, vv ), G = refF( s, L, qq, m, sc );
    for( int b = 0; b < n; ++b )
    {
      c.stat( "forces" );
      const RVec x = F.segment<RD>( st * b ), y = G.segment<RD>( st * b );
      if( !( ( x - y ).norm() <= 1.0e-10 * sc( b ) ) ) c.viol( "force", vf::Msg() << "body " << b << " of " << n << ": force " << vf::vs( x ) << ", the laws give " << vf::vs( y ) << " | " << where );
      #if VSIM == 2
      if( F( 3 * b + 2 ) != 0.0 ) c.viol( "torque", vf::Msg() << "torque " << F( 3 * b + 2 ) << " on body " << b << " | " << where );
      #elif VSIM == 3
      if( F.segment<3>( 3 * n + 3 * b ).norm() != 0.0 ) c.viol( "torque", vf::Msg() << "torque on body " << b << " | " << where );
      #endif
    }
    // internal forces: equal and opposite, no net torque
    RVec net = RVec::Zero(), ext = RVec::Zero(); double tot = 0, tq = 0, ts = 0;
    for( int b = 0; b < n; ++b )
    {
      const RVec f = F.segment<RD>( st * b ); net += f; tot += sc( b );
      for( const Law& l : L ) if( l.grav ) ext += m( b ) * l.g;
      if( VSIM == 1 ) { RVec e = f; for( const Law& l : L ) if( l.grav ) e -= m( b ) * l.g; const RVec x = bodyX( qq, b ); tq += x( 0 ) * e( 1 ) - x( 1 ) * e( 0 ); ts += x.norm() * sc( b ); }
    }
    if( !( ( net - ext ).norm() <= 1.0e-10 * tot ) ) c.viol( "net_force", vf::Msg() << "internal forces sum to " << vf::vs( RVec( net - ext ) ) << " | " << where );
    if( VSIM == 1 && !( std::fabs( tq ) <= 1.0e-9 * ts ) ) c.viol( "net_torque", vf::Msg() << "internal forces exert a net torque " << tq << " | " << where );
    // minus the gradient of the reported potential
    for( int d = 0; d < 3; ++d )
    {
      VectorXs e = VectorXs::Zero( q.size() ); const int one = r.chance( 0.5 ) ? r.i( 0, n - 1 ) : -1;
      for( int b = 0; b < n; ++b ) if( one < 0 || one == b ) for( int k = 0; k < RD; ++k ) e( st * b + k ) = r.gauss();
      const double h = 1.0e-5 * S.rmin / std::max( 1.0, e.norm() );
      // pairs about to touch or deep enough for the power to be stiff are judged by the laws only
      bool ok = true; double third = 0; const VectorXs rr = radii( s );
      for( const Law& l : L ) if( !l.grav ) for( int a = 0; a < n; ++a ) for( int b = a + 1; b < n; ++b ) { const double dd = rr( a ) + rr( b ) - ( bodyX( qq, a ) - bodyX( qq, b ) ).norm(), em = e.segment<RD>( st * a ).norm() + e.segment<RD>( st * b ).norm(); if( std::fabs( dd ) < 200 * h * em || ( bodyX( qq, a ) - bodyX( qq, b ) ).norm() < 0.1 * ( rr( a ) + rr( b ) ) ) ok = false; if( dd > 0 ) third += l.k * std::pow( dd, l.p - 1.0 ) * ( 1.0 + l.p ) * em; }
      if( !ok ) continue;
      auto at = [&]( const double a ) { const VectorXs keep = Q( s ); Q( s ) = qq + a * e; const double u = potential( s ); Q( s ) = keep; return u; };
      const double up = at( h ), um = at( -h ), u0 = at( 0 ), slope = ( up - um ) / ( 2.0 * h );
      double dot = 0, ds = third; for( int b = 0; b < n; ++b ) { dot += F.segment<RD>( st * b ).dot( e.segment<RD>( st * b ) ); ds += F.segment<RD>( st * b ).norm() * e.segment<RD>( st * b ).norm(); }
      double sq; refU( s, L, qq, m, sq );
      c.stat( "gradients" );
      if( !( std::fabs( slope + dot ) <= 2.0e-3 * ds + 1.0e-13 * ( sq + std::fabs( u0 ) ) / h ) ) c.viol( "gradient", vf::Msg() << "the potential changes at rate " << slope << " along a direction in which the force is " << dot << " | " << where );
    }
    #if VSIM == 3
    if( t == 1 ) { Q( s ) = q; V( s ) = v; s.state().updateMandMinv(); }
    #endif
  }
  // kinetic and total energy
  double T = 0, sT = 0;
  for( int b = 0; b < n; ++b )
  {
    double e = 0.5 * m( b ) * RVec( bodyV( v, b ).head( RD ) ).squaredNorm();
    #if VSIM == 2
    e += 0.5 * s.state().I( b ) * v( 3 * b + 2 ) * v( 3 * b + 2 );
    #elif VSIM == 3
    Matrix3s Rm; for( int i = 0; i < 3; ++i ) for( int j = 0; j < 3; ++j ) Rm( i, j ) = q( 3 * n + 9 * b + 3 * i + j );
    const Vector3s I0 = s.state().M0().diagonal().segment<3>( 3 * n + 3 * b ), w = Rm.transpose() * v.segment<3>( 3 * n + 3 * b ); e += 0.5 * w.dot( I0.asDiagonal() * w );
    #endif
    T += e; sT += e;
  }
  #if VSIM == 1
  const double E = s.state().computeTotalEnergy();
  #else
  const double E = s.computeTotalEnergy();
  #endif
  c.stat( "energies" );
  if( !( std::fabs( kinetic( s ) - T ) <= 1.0e-10 * sT ) ) c.viol( "kinetic_energy", vf::Msg() << "reports kinetic energy " << kinetic( s ) << ", the bodies sum to " << T << " | " << where );
  if( !( std::fabs( E - T - U ) <= 1.0e-10 * ( sT + su ) ) ) c.viol( "total_energy", vf::Msg() << "reports total energy " << E << ", kinetic " << T << " potential " << U << " | " << where );
}

int main( int argc, char** argv )
{
  return vf::main_( argc, argv, []( vf::Ctx& c, vf::Rng& r, long )
  {
    Opt op; op.gravity = 0; op.portal = 0.15; op.nmin = 1; op.nmax = c.thorough && r.chance( 0.2 ) ? 60 : 14; op.overlap = 0.5;
    Scene S = mkScene( r, op ); Sim& s = S.sim; const int n = nBodies( s );
    std::string d; const std::vector<Law> L = randomLaws( c, r, S, r.chance( 0.1 ) ? 0 : r.i( 1, 4 ), 0.4, d );
    VectorXs m( n ); for( int b = 0; b < n; ++b ) m( b ) = bodyMass( s, b );
    // deep overlaps as well
    if( VSIM == 1 && n > 1 && r.chance( 0.6 ) ) for( int k = 0; k < n; ++k ) { const int a = r.i( 0, n - 1 ), b = r.i( 0, n - 1 ); if( a == b ) continue; RVec e; for( int i = 0; i < RD; ++i ) e( i ) = r.gauss(); e.normalize(); Q( s ).segment<RD>( 2 * a ) = bodyX( Q( s ), b ) + ( radii( s )( a ) + radii( s )( b ) ) * r.u( 0.2, 1.0 ) * e; }
    const std::string where = S.desc + d; c.family( where );
    judge( c, r, S, L, m, where ); totals( c, S, where );
    // and along a trajectory
    Dyn D = mkDyn( r, 0, S.caps() ); D.dt = Rat( 1, 200 );
    bool pen = false; for( const Law& l : L ) pen = pen || !l.grav;
    for( int k = 0; k < 3 && !pen; ++k ) { D.step( s ); judge( c, r, S, L, m, where + " after steps" ); totals( c, S, where + " after steps" ); }
    if( n > 1 ) c.seen( vf::hv( Q( s ) ) ); if( n > 1 ) c.sample( where );
  } );
}
