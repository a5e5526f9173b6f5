// C12: every converged friction solve obeys Coulomb's law contact by contact, and the reported impulses are the ones applied.
#include "response.h"

static void judge( vf::Ctx& c, Scene& S, Dyn& D, const Runner& R, const Obs& o )
{
  const std::string where = S.desc + " | " + D.desc + " step " + std::to_string( D.it ) + " error " + vf::str( o.s.error );
  if( !o.s.called || !o.s.friction ) return;
  if( !o.s.ok )
  {
    std::map<int,int> deg; bool lone = true; for( const Con& k : o.con ) { if( ++deg[k.a] > 1 || ( k.b >= 0 && ++deg[k.b] > 1 ) ) lone = false; }
    c.stat( lone ? "unconverged_lone" : "unconverged_solves" );
    if( lone ) { vf::Msg m; for( const Con& k : o.con ) m << k.name << " " << k.a << "," << k.b << " alpha " << k.alpha << " beta " << k.beta.transpose() << " u0 " << k.u0.transpose() << " u1 " << k.u1.transpose() << " CoR " << k.CoR << " mu " << k.mu << "; "; c.viol( "unconverged_lone/" + R.op, std::string( m ) + where ); }
    return;
  }
  const VectorXs& pre = o.s.v0; const VectorXs& post = o.s.vout;
  double kin = 0; for( const Con& k : o.con ) kin = std::max( kin, k.k.norm() + std::fabs( k.extra ) );
  const double V0 = std::max( vscale( pre, S.rmax ), 1.0e-3 * R.v_init * ( 1.0 + S.rmax ) ) + vscale( post, S.rmax ) + kin;
  const double tv = 1.0e-9 + 2.0e-4 * V0;
  double amax = 0; for( const Con& k : o.con ) amax = std::max( amax, std::fabs( k.alpha ) );
  // the impulses reported explain the change of velocity, body by body
  VectorXs fri = VectorXs::Zero( pre.size() ), imp = VectorXs::Zero( pre.size() ); double big = 0; // largest single velocity change: cancelling impulses lose digits
  for( const Con& k : o.con )
  {
    VectorXs r( RD ); r << k.alpha, k.beta; { VectorXs one = VectorXs::Zero( pre.size() ); addBodyV( one, k.a, k.H0.transpose() * r ); if( k.b >= 0 ) addBodyV( one, k.b, -k.H1.transpose() * r ); big += vscale( o.s.Minv * one, S.rmax ); } addBodyV( imp, k.a, k.H0.transpose() * r ); if( k.b >= 0 ) addBodyV( imp, k.b, -k.H1.transpose() * r );
  }
  const VectorXs dv = o.s.Minv * imp; c.stat( "solves_judged" );
  // and the friction force reported is what the friction impulses add up to
  for( const Con& k : o.con ) { VectorXs r = VectorXs::Zero( RD ); r.tail( RD - 1 ) = k.beta; addBodyV( fri, k.a, k.H0.transpose() * r ); if( k.b >= 0 ) addBodyV( fri, k.b, -k.H1.transpose() * r ); }
  if( R.grrf ) c.stat( "no_friction_force_reported" ); // grr_friction leaves it empty
  else if( o.s.f.size() != fri.size() || vscale( o.s.Minv * ( o.s.f - fri ), S.rmax ) > 1.0e-6 * ( V0 + big ) ) c.viol( "friction_force/" + R.op, vf::Msg() << "friction force reported " << o.s.f.transpose() << ", the impulses add up to " << fri.transpose() << " | " << where );
  if( vscale( dv - ( post - pre ), S.rmax ) > 1.0e-6 * ( V0 + big ) ) c.viol( "impulses_do_not_explain/" + R.op, vf::Msg() << "change of velocity " << ( post - pre ).transpose() << ", impulses give " << dv.transpose() << " | " << where );
  if( big > 1.0e5 * V0 ) { c.stat( "self_stressed" ); return; } // a body wedged between walls: huge impulses that cancel, and with them the digits of the rest
  #if VSIM != 3
  const bool end_known = !S.le && !R.se;
  #else
  const bool end_known = !S.le && S.kind == 0 && !R.se;
  #endif
  if( end_known && vscale( o.post - post, S.rmax ) > 1.0e-6 * V0 + 1.0e-9 ) c.viol( "solution_not_applied/" + R.op, vf::Msg() << where << ": the step ends with " << o.post.transpose() << " where the solve gave " << post.transpose() );
  for( const Con& k : o.con )
  {
    VectorXs g = VectorXs::Zero( pre.size() ); addBodyV( g, k.a, k.H0.row( 0 ).transpose() ); if( k.b >= 0 ) addBodyV( g, k.b, -k.H1.row( 0 ).transpose() );
    const double meff = 1.0 / g.dot( o.s.Minv * g ), ta = 1.0e-6 * amax + tv * meff;
    VectorXs u1 = k.rel( post );
    if( R.se ) u1 += k.rel( o.pre ) - k.rel( o.v0 ); // gravity enters as a shift of the relative velocity
    const VectorXs ut = u1.tail( RD - 1 ); const double s = ut.norm(), f = k.beta.norm(), lim = k.mu * k.alpha;
    const std::string what = vf::Msg() << "normal impulse " << k.alpha << " friction " << k.beta.transpose() << " mu " << k.mu << " tangential velocity after " << ut.transpose() << " at a " << k.name << " contact | " << where;
    c.stat( "contacts" );
    if( !( k.alpha >= -ta ) ) c.viol( "pulling/" + R.op, what );
    if( !( f <= lim + ta ) ) c.viol( "outside_cone/" + k.name + "/" + R.op, what );
    if( k.mu == 0 && f > 1.0e-12 * ( amax + meff * V0 ) ) c.viol( "friction_without_coefficient/" + R.op, what );
    if( k.mu == 0 || k.alpha <= 2.0 * ta ) { c.stat( "unloaded" ); continue; }
    const int per = R.grrf ? int( o.s.beta.size() / o.s.alpha.size() ) : 0;
    if( s <= 5.0 * tv ) { c.stat( f < lim - ta ? "sticking" : "limit_at_rest" ); continue; }
    c.stat( "sliding" );
    const double want = R.grrf ? lim * std::cos( M_PI / per ) : lim;
    if( f < want * ( 1.0 - 1.0e-3 ) - ta ) c.viol( "sliding_below_limit/" + k.name + "/" + R.op, what );
    const double cosang = f > 0 ? k.beta.dot( ut ) / ( f * s ) : -1.0;
    if( f > 20.0 * ta )
    {
      if( R.grrf ) { if( cosang > -std::cos( 2.0 * M_PI / per ) + 0.02 && cosang > 0.02 ) c.viol( "friction_drives/" + k.name + "/" + R.op, what ); }
      else if( cosang > -1.0 + 1.0e-3 + 4.0 * tv / s ) c.viol( "direction/" + k.name + "/" + R.op, what );
      c.stat( "directions" );
    }
  }
}

int main( int argc, char** argv )
{
  return vf::main_( argc, argv, []( vf::Ctx& c, vf::Rng& r, long )
  {
    Opt op; op.gravity = 0.4; op.moving = 0.4; op.nmin = r.chance( 0.3 ) ? 1 : 2; op.nmax = op.nmin == 1 ? 3 : ( c.thorough && r.chance( 0.2 ) ? 40 : 12 );
    if( r.chance( 0.5 ) ) { op.packed = 0.95; op.overlap = 0.6; }
    Scene S = mkScene( r, op );
    Dyn D = mkDyn( r, 2, S.caps(), 1.0e-12, 4000 );
    c.family( S.desc + " | " + D.desc );
    Runner R( c, S, D );
    const bool scripted = !S.le && !R.grrf && r.chance( 0.3 );
    CoefScript cs; cs.seed = r.next(); cs.cor0 = 0; cs.cor1 = R.se ? 0.0 : 1.0; cs.mu0 = 0; cs.mu1 = 1.5;
    const int steps = c.thorough ? r.i( 3, 30 ) : r.i( 2, 6 ); bool any = false;
    for( int k = 0; k < steps; ++k )
    {
      const Obs o = R.step( scripted ? &cs : nullptr );
      judge( c, S, D, R, o ); const bool now = o.s.called && o.s.alpha.size() && o.s.alpha.maxCoeff() > 0; any = any || now;
      c.stat( "steps" ); if( now ) c.seen( vf::hv( o.v_end ) );
      if( o.s.called ) { c.stat( "op_" + R.op + ( R.se ? "_symplectic_euler" : R.stab ? "_stabilized" : "_geometric" ) ); if( scripted ) c.stat( "contact_dependent_coefficients" ); }
    }
    if( any ) { c.stat( "cases_with_impulses" ); c.sample( S.desc + " | " + D.desc ); }
  } );
}
