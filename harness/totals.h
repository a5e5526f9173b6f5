// Reported momentum and angular momentum against the sums over the bodies (after response.h).
#ifndef VERIF_TOTALS_H
#define VERIF_TOTALS_H
// what the simulation reports
inline void totals( vf::Ctx& c, Scene& S, const std::string& where )
{
  Sim& sim = S.sim; const int n = nBodies( sim ); const VectorXs q = Q( sim ), v = V( sim ); const SparseMatrixsc& M = fsys( sim ).M();
  Obs o; o.q0 = q; o.M = M;
  RVec p = RVec::Zero(); VectorXs L = VectorXs::Zero( VSIM == 3 ? 3 : 1 ); double s = 0, sl = 0;
  for( int b = 0; b < n; ++b )
  {
    const double m = bodyMass( sim, b ); const RVec x = bodyX( q, b ), pb = m * RVec( bodyV( v, b ).head( RD ) );
    p += pb; s += pb.norm(); sl += x.norm() * pb.norm();
    #if VSIM == 1
    L( 0 ) += x.x() * pb.y() - x.y() * pb.x();
    #elif VSIM == 2
    const double il = sim.state().I( b ) * v( 3 * b + 2 ); L( 0 ) += x.x() * pb.y() - x.y() * pb.x() + il; sl += std::fabs( il );
    #else
    Matrix3s Rm; for( int i = 0; i < 3; ++i ) for( int j = 0; j < 3; ++j ) Rm( i, j ) = q( 3 * n + 9 * b + 3 * i + j );
    const Vector3s I0 = sim.state().M0().diagonal().segment<3>( 3 * n + 3 * b ); const Vector3s w = v.segment<3>( 3 * n + 3 * b );
    const Vector3s il = Rm * ( I0.asDiagonal() * ( Rm.transpose() * w ) ); L += VectorXs( Vector3s( x.cross( pb ) + il ) ); sl += il.norm();
    #endif
  }
  #if VSIM == 1
  const Vector2s rp = sim.state().computeMomentum(); VectorXs rl( 1 ); rl( 0 ) = sim.state().computeAngularMomentum();
  #elif VSIM == 2
  const Vector2s rp = sim.computeTotalMomentum(); VectorXs rl( 1 ); rl( 0 ) = sim.computeTotalAngularMomentum();
  #else
  const Vector3s rp = sim.computeTotalMomentum(); const VectorXs rl = sim.computeTotalAngularMomentum();
  #endif
  VectorXs fp, fl; fsys( sim ).computeMomentum( v, fp ); fsys( sim ).computeAngularMomentum( v, fl );
  { // the velocities asked about count, not those of the state
    VectorXs gp, gl; fsys( sim ).computeMomentum( -3.0 * v, gp ); fsys( sim ).computeAngularMomentum( -3.0 * v, gl );
    if( gp.size() != fp.size() || ( gp + 3.0 * fp ).norm() > 1.0e-10 * s ) c.viol( "system_momentum", vf::Msg() << "computeMomentum gives " << vf::vs( gp ) << " for -3 times the velocities, " << vf::vs( fp ) << " for the velocities | " << where );
    if( gl.size() != fl.size() || ( gl + 3.0 * fl ).norm() > 1.0e-9 * sl ) c.viol( "system_angular_momentum", vf::Msg() << "computeAngularMomentum gives " << vf::vs( gl ) << " for -3 times the velocities, " << vf::vs( fl ) << " for the velocities | " << where );
  }
  c.stat( "totals_judged" );
  if( ( rp - p ).norm() > 1.0e-10 * s ) c.viol( "reported_momentum", vf::Msg() << "reports total momentum " << vf::vs( rp ) << ", the bodies sum to " << vf::vs( p ) << " | " << where );
  if( ( rl - L ).norm() > 1.0e-9 * sl ) c.viol( "reported_angular_momentum", vf::Msg() << "reports total angular momentum " << vf::vs( rl ) << ", the bodies sum to " << vf::vs( L ) << " | " << where );
  if( fp.size() != RD || ( fp - p ).norm() > 1.0e-10 * s ) c.viol( "system_momentum", vf::Msg() << "computeMomentum gives " << vf::vs( fp ) << ", the bodies sum to " << vf::vs( p ) << " | " << where );
  if( fl.size() != L.size() || ( fl - L ).norm() > 1.0e-9 * sl ) c.viol( "system_angular_momentum", vf::Msg() << "computeAngularMomentum gives " << vf::vs( fl ) << ", the bodies sum to " << vf::vs( L ) << " | " << where );
}
#endif
