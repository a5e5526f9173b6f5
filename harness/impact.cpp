// C10: impulses push, no contact is left violating the restitution law, impulses only where the law binds.
#include "response.h"

// What an isolated round contact should do, from positions, velocities and wall velocities alone: direction of the normal and the wall's normal velocity
static bool plainFrame( Scene& S, const Obs& o, const Con& k, RVec& n, std::vector<double>& walls )
{
  if( S.kind_round() == false || S.portal ) return false;
  if( k.b >= 0 || k.kin >= 0 ) { const int b = k.b >= 0 ? k.b : k.kin; if( k.b < 0 && VSIM == 2 && k.kin >= 0 && k.kin != k.a ) return false; if( k.b < 0 && ( k.kin == k.a || VSIM == 1 ) ) {} else { n = bodyX( o.q0, k.a ) - bodyX( o.q0, b ); if( n.norm() == 0 ) return false; n.normalize(); walls.push_back( k.b < 0 ? n.dot( RVec( bodyV( o.v0, b ).head( RD ) ) ) : 0.0 ); return true; } }
  if( k.name.find( "plane" ) == std::string::npos ) return false;
  n = k.B.col( 0 );
  auto wall = [&]( const RVec& pn, const RVec& pv, const double om ) { if( om == 0 && std::fabs( pn.dot( n ) - 1.0 ) < 1.0e-9 ) walls.push_back( n.dot( pv ) ); };
  #if VSIM == 1
  for( const auto& p : S.sim.state().staticPlanes() ) wall( p.n(), p.v(), 0 );
  #elif VSIM == 2
  for( const auto& p : S.sim.state().planes() ) wall( p.n(), p.v(), p.omega() );
  #else
  for( unsigned p = 0; p < S.sim.state().numStaticPlanes(); ++p ) wall( S.sim.state().staticPlane( p ).n(), S.sim.state().staticPlane( p ).v(), S.sim.state().staticPlane( p ).omega().norm() );
  #endif
  return !walls.empty();
}

static void judge( vf::Ctx& c, Scene& S, Dyn& D, const Runner& R, const Obs& o )
{
  const std::string where = S.desc + " | " + D.desc + " step " + std::to_string( D.it ) + ( o.s.friction ? " error " + vf::str( o.s.error ) : std::string() );
  if( !o.s.called ) return;
  if( !o.s.ok ) { c.stat( "unconverged_solves" ); return; }
  const double vs = std::max( vscale( o.pre, S.rmax ), 1.0e-3 * R.v_init * ( 1.0 + S.rmax ) ); double kin = 0; for( const Con& k : o.con ) kin = std::max( kin, k.k.norm() + k.extra );
  const double V0 = vs + kin + vscale( o.post, S.rmax );
  double amax = 0; for( const Con& k : o.con ) amax = std::max( amax, std::fabs( k.alpha ) );
  const bool friction = o.s.friction;
  // accuracy of the solver in velocity terms
  const double tv = 1.0e-9 + ( friction ? 2.0e-4 * V0 : ( R.lcp ? ( R.op == "lcp_apgd" && !S.caps().pts ? 1.0e-3 : 1.0e-5 ) * V0 : 2.0e-7 + 1.0e-5 * V0 ) );
  const bool law = R.lcp || friction;
  if( law ? std::any_of( o.con.begin(), o.con.end(), [&]( const Con& k ) { return k.u1( 0 ) + k.CoR * k.u0( 0 ) + k.extra < -0.5 * tv; } ) : std::any_of( o.con.begin(), o.con.end(), [&]( const Con& k ) { return k.u1( 0 ) < -0.5 * tv; } ) )
    if( !feasible( o, law, 0.1 * tv ) ) { c.stat( "infeasible_laws" ); return; } // e.g. a body squeezed between approaching walls: no velocity obeys the law
  for( const Con& k : o.con )
  {
    c.stat( "contacts" );
    const double meff = [&]() { double q = 0; const VectorXs h0 = k.H0.row( 0 ); const long n = o.pre.size() / RV; (void) n; VectorXs g = VectorXs::Zero( o.pre.size() ); addBodyV( g, k.a, h0 ); if( k.b >= 0 ) addBodyV( g, k.b, -k.H1.row( 0 ).transpose() ); q = g.dot( o.s.Minv * g ); return 1.0 / q; }();
    const double ta = 1.0e-6 * amax + tv * meff;
    if( !( k.alpha >= -ta ) ) c.viol( "pulling_impulse/" + R.op, vf::Msg() << "impulse " << k.alpha << " at a " << k.name << " contact | " << where );
    // the relative normal velocity the law speaks about: after the impulses (grr_friction: before the friction pass)
    double un1 = k.u1( 0 );
    if( R.grrf ) { VectorXs v = o.s.v0; VectorXs imp = VectorXs::Zero( v.size() ); for( const Con& e : o.con ) { addBodyV( imp, e.a, e.H0.row( 0 ).transpose() * e.alpha ); if( e.b >= 0 ) addBodyV( imp, e.b, -e.H1.row( 0 ).transpose() * e.alpha ); } v += o.s.Minv * imp; un1 = k.rel( v )( 0 ); }
    const double un0 = k.u0( 0 );
    if( R.lcp || friction )
    {
      const double w = un1 + k.CoR * un0 + k.extra;
      c.stat( "law_judged" );
      if( w < -tv ) c.viol( "restitution/" + k.name + "/" + R.op, vf::Msg() << "normal velocity " << un0 << " before, " << un1 << " after, with restitution " << k.CoR << ( k.extra != 0 ? " and stabilisation " + vf::str( k.extra ) : std::string() ) << " | " << where );
      const double slack = std::min( k.alpha / meff, w );
      if( slack > tv ) c.viol( "complementarity/" + k.name + "/" + R.op, vf::Msg() << "impulse " << k.alpha << " (velocity change " << k.alpha / meff << ") acts although the contact ends up " << w << " above what the law requires: normal velocity " << un0 << " before, " << un1 << " after, restitution " << k.CoR << " | " << where );
      if( k.alpha > ta ) c.stat( "pressed" ); else c.stat( "released" );
    }
    else
    {
      c.stat( "feasibility_judged" );
      if( un1 < -tv ) c.viol( "left_approaching/" + k.name + "/" + R.op, vf::Msg() << "normal velocity " << un0 << " before, still " << un1 << " after | " << where );
    }
    if( k.alone && !friction )
    {
      c.stat( un0 < 0 ? "isolated_impacts" : "isolated_separating" );
      const double want = un0 < -3.0e-7 ? -k.CoR * un0 : un0;
      if( std::fabs( un0 ) > 1.0e-6 && std::fabs( un1 - want ) > tv ) c.viol( std::string( un0 < 0 ? "rebound/" : "separating_disturbed/" ) + k.name + "/" + R.op, vf::Msg() << "an isolated contact with normal velocity " << un0 << " and restitution " << k.CoR << " leaves at " << un1 << " | " << where );
      if( un0 > 1.0e-6 && k.alpha > ta ) c.viol( "separating_impulse/" + k.name + "/" + R.op, vf::Msg() << "separating at " << un0 << ", impulse " << k.alpha << " | " << where );
    }
    // the same again without asking the contact anything: positions, velocities, wall velocities
    RVec n; std::vector<double> walls;
    if( k.alone && !R.se && !R.grrf && plainFrame( S, o, k, n, walls ) )
    {
      bool good = false; double a0 = 0, a1 = 0;
      for( const double wv : walls )
      {
        const RVec va0 = bodyV( o.pre, k.a ).head( RD ), va1 = bodyV( o.post, k.a ).head( RD ), vb0 = k.b >= 0 ? RVec( bodyV( o.pre, k.b ).head( RD ) ) : RVec( RVec::Zero() ), vb1 = k.b >= 0 ? RVec( bodyV( o.post, k.b ).head( RD ) ) : RVec( RVec::Zero() );
        a0 = n.dot( va0 - vb0 ) - wv; a1 = n.dot( va1 - vb1 ) - wv;
        if( std::fabs( a0 ) < 1.0e-6 || std::fabs( a1 - ( a0 < 0 ? -k.CoR * a0 : a0 ) ) <= tv ) good = true;
      }
      c.stat( "rebounds_from_positions" );
      if( !good ) c.viol( "rebound_plain/" + k.name + "/" + R.op, vf::Msg() << "isolated " << k.name << ": normal velocity from positions and velocities " << a0 << " before, " << a1 << " after, restitution " << k.CoR << " | " << where );
    }
  }
}

int main( int argc, char** argv )
{
  return vf::main_( argc, argv, []( vf::Ctx& c, vf::Rng& r, long )
  {
    Opt op; op.gravity = 0.2; op.moving = 0.4; op.nmin = r.chance( 0.3 ) ? 1 : 2; op.nmax = op.nmin == 1 ? 3 : ( c.thorough && r.chance( 0.2 ) ? 40 : 12 );
    if( r.chance( 0.5 ) ) { op.packed = 0.95; op.overlap = 0.6; }
    Scene S = mkScene( r, op );
    Dyn D = mkDyn( r, r.chance( 0.75 ) ? 1 : 2, S.caps(), 1.0e-12, 4000 );
    c.family( S.desc + " | " + D.desc );
    const bool single = D.desc.find( "gr" ) != std::string::npos; // gr, grr: one coefficient only
    const bool scripted = !S.le && !single && r.chance( 0.3 );
    Runner R( c, S, D );
    CoefScript cs; cs.seed = r.next(); cs.cor0 = 0; cs.cor1 = R.se ? 0.0 : 1.0; cs.mu0 = 0; cs.mu1 = 1.5;
    const int steps = c.thorough ? r.i( 3, 30 ) : r.i( 2, 6 ); bool any = false;
    for( int k = 0; k < steps; ++k )
    {
      const Obs o = R.step( scripted ? &cs : nullptr );
      judge( c, S, D, R, o ); const bool now = o.s.called && o.s.alpha.size() && o.s.alpha.maxCoeff() > 0; any = any || now;
      c.stat( "steps" ); if( now ) c.seen( vf::hv( o.v_end ) );
      if( o.s.called ) { c.stat( "op_" + R.op ); if( scripted ) c.stat( "contact_dependent_coefficients" ); }
    }
    if( any ) { c.stat( "cases_with_impulses" ); c.sample( S.desc + " | " + D.desc ); }
  } );
}
