// C11: contact never creates kinetic energy; restitution 1 keeps it; an isolated impact loses exactly what the coefficient says; the reported energy is 1/2 v.M v.
#include "response.h"

static double half( const SparseMatrixsc& M, const VectorXs& v ) { return 0.5 * v.dot( M * v ); }
static VectorXs normalOf( const Con& k, const long n ) { VectorXs g = VectorXs::Zero( n ); addBodyV( g, k.a, k.H0.row( 0 ).transpose() ); if( k.b >= 0 ) addBodyV( g, k.b, -k.H1.row( 0 ).transpose() ); return g; }
static bool central( const std::string& n ) { return n.find( "body" ) == std::string::npos && n.find( "box" ) == std::string::npos; }

static void reported( vf::Ctx& c, Scene& S, const std::string& where )
{
  Sim& s = S.sim; const VectorXs v = V( s );
  #if VSIM == 1
  const double e = s.state().computeKineticEnergy();
  #else
  const double e = s.computeKineticEnergy();
  #endif
  double w = 0; const SparseMatrixsc M = fsys( s ).M();
  for( int b = 0; b < nBodies( s ); ++b )
  {
    VectorXs x = VectorXs::Zero( v.size() ); addBodyV( x, b, bodyV( v, b ) );
    // scripted bodies are not part of the dynamics
    w += half( M, x );
  }
  c.stat( "reported_energies" );
  if( std::fabs( e - w ) > 1.0e-9 * ( std::fabs( w ) + 1.0e-12 ) ) c.viol( "reported_energy", vf::Msg() << "reported " << e << ", 1/2 v.M v = " << w << " | " << where );
}

static void judge( vf::Ctx& c, Scene& S, Dyn& D, const Runner& R, const Obs& o )
{
  const std::string where = S.desc + " | " + D.desc + " step " + std::to_string( D.it ) + ( o.s.friction ? " error " + vf::str( o.s.error ) : std::string() );
  const long n = o.pre.size();
  const double V0 = std::max( vscale( o.pre, S.rmax ), 1.0e-3 * R.v_init * ( 1.0 + S.rmax ) );
  double mtot = 0; for( int b = 0; b < nBodies( S.sim ); ++b ) if( !bodyFixed( S.sim, b ) ) mtot += massOf( o, b );
  // per connected group of bodies
  std::map<int,std::vector<const Con*>> comps; for( const Con& k : o.con ) comps[k.comp].push_back( &k );
  std::map<int,double> E0, E1, m;
  for( int b = 0; b < nBodies( S.sim ); ++b )
  {
    if( bodyFixed( S.sim, b ) ) continue;
    VectorXs x = VectorXs::Zero( n ), y = VectorXs::Zero( n ); addBodyV( x, b, bodyV( o.pre, b ) ); addBodyV( y, b, bodyV( o.post, b ) );
    const int g = o.comp[size_t( b )]; E0[g] += half( o.M, x ); E1[g] += half( o.M, y ); m[g] += massOf( o, b );
  }
  for( const auto& kv : comps )
  {
    const int g = kv.first; bool rest = true, uniform = true, extra = false, cent = true; double cor = kv.second[0]->CoR, mu = 0;
    for( const Con* k : kv.second ) { if( k->k.norm() > 1.0e-9 * V0 ) rest = false; if( k->CoR != cor ) uniform = false; if( std::fabs( k->extra ) > 1.0e-12 * V0 ) extra = true; if( !central( k->name ) ) cent = false; mu = std::max( mu, k->mu ); }
    if( !o.s.friction ) mu = 0;
    if( R.grrf ) { /* frictionless impact, then dissipative friction */ }
    if( !o.s.called || !o.s.ok || !rest || extra ) { c.stat( "groups_not_judged" ); continue; }
    // solver accuracy: tolerances are on velocities (1e-7 for the iterated operators, relative for the others)
    const double tv = o.s.friction ? 1.0e-9 + 1.0e-5 * V0 : 4.0e-7 + 1.0e-6 * V0;
    const double te = tv * m[g] * ( V0 + tv ) * double( kv.second.size() ) + ( R.op == "lcp_apgd" && !S.caps().pts ? 1.0e-3 : 1.0e-9 ) * E0[g]; // APGD stops at its iteration limit on redundant contacts
    const bool law = uniform && ( mu == 0 || cor == 0 || R.grrf || ( kv.second.size() == 1 && cent ) );
    if( law )
    {
      c.stat( "groups_judged" ); if( mu > 0 ) c.stat( "groups_with_friction" );
      if( E1[g] > E0[g] + te ) c.viol( std::string( "energy_created/" ) + R.op + ( mu > 0 ? "/friction" : "" ), vf::Msg() << "kinetic energy of " << kv.second.size() << " contact(s) (" << kv.second[0]->name << ") rises from " << E0[g] << " to " << E1[g] << ", restitution " << cor << " mu " << mu << " | " << where );
    }
    if( uniform && cor == 1.0 && mu == 0 )
    {
      c.stat( "elastic_groups" );
      if( E1[g] < E0[g] - te ) c.viol( std::string( "elastic_loss/" ) + R.op, vf::Msg() << "restitution 1 without friction, yet kinetic energy of " << kv.second.size() << " contact(s) (" << kv.second[0]->name << ") falls from " << E0[g] << " to " << E1[g] << " | " << where );
    }
    if( kv.second.size() == 1 && mu == 0 )
    {
      const Con& k = *kv.second[0]; const VectorXs gn = normalOf( k, n ); const double q = gn.dot( o.s.Minv * gn ), un = k.u0( 0 );
      const double loss = un < 0 ? 0.5 * ( 1.0 - k.CoR * k.CoR ) * un * un / q : 0.0;
      c.stat( "isolated_losses" );
      if( std::fabs( ( E0[g] - E1[g] ) - loss ) > te ) c.viol( "isolated_loss/" + k.name + "/" + R.op, vf::Msg() << "an impact at normal velocity " << un << " with restitution " << k.CoR << " should cost " << loss << " and costs " << E0[g] - E1[g] << " of " << E0[g] << " | " << where );
    }
  }
  reported( c, S, where );
}

int main( int argc, char** argv )
{
  return vf::main_( argc, argv, []( vf::Ctx& c, vf::Rng& r, long )
  {
    Opt op; op.gravity = 0.3; op.moving = 0.1; op.nmin = r.chance( 0.2 ) ? 1 : 2; op.nmax = op.nmin == 1 ? 3 : ( c.thorough && r.chance( 0.2 ) ? 40 : 12 );
    if( r.chance( 0.5 ) ) { op.packed = 0.95; op.overlap = 0.6; }
    Scene S = mkScene( r, op );
    Dyn D = mkDyn( r, r.chance( 0.6 ) ? 1 : 2, S.caps(), 1.0e-12, 4000 );
    if( D.mode == 2 && r.chance( 0.4 ) ) { D.CoR = 0; D.desc += " (CoR=0)"; }
    c.family( S.desc + " | " + D.desc );
    const bool scripted = !S.le && D.desc.find( "gr" ) == std::string::npos && r.chance( 0.15 );
    Runner R( c, S, D );
    CoefScript cs; cs.seed = r.next(); cs.cor0 = 0; cs.cor1 = R.se ? 0.0 : 1.0; cs.mu0 = 0; cs.mu1 = 1.5;
    const int steps = c.thorough ? r.i( 3, 30 ) : r.i( 2, 6 ); bool any = false;
    for( int k = 0; k < steps; ++k )
    {
      const Obs o = R.step( scripted ? &cs : nullptr );
      judge( c, S, D, R, o ); const bool now = o.s.called && o.s.alpha.size() && o.s.alpha.maxCoeff() > 0; any = any || now;
      c.stat( "steps" ); if( now ) c.seen( vf::hv( o.v_end ) );
      if( o.s.called ) c.stat( "op_" + R.op );
    }
    if( any ) { c.stat( "cases_with_impulses" ); c.sample( S.desc + " | " + D.desc ); }
  } );
}
