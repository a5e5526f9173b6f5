// C09: contacts conserve momentum.
#include "response.h"
#include "totals.h"

static RVec linP( const Obs& o, const VectorXs& v, const int b ) { return massOf( o, b ) * RVec( bodyV( v, b ).head( RD ) ); }
// angular momentum about the origin at configuration q0 (2D: one component)
static VectorXs angL( const Obs& o, const VectorXs& v, const int b )
{
  const RVec x = bodyX( o.q0, b ), p = linP( o, v, b );
  #if VSIM == 3
  const long n = v.size() / 2; Matrix3s I; for( int i = 0; i < 3; ++i ) for( int j = 0; j < 3; ++j ) I( i, j ) = o.M.coeff( n + 3 * b + i, n + 3 * b + j );
  return VectorXs( x.cross( p ) + I * v.segment<3>( n + 3 * b ) );
  #else
  VectorXs L( 1 ); L( 0 ) = x.x() * p.y() - x.y() * p.x();
  #if VSIM == 2
  L( 0 ) += o.M.coeff( 3 * b + 2, 3 * b + 2 ) * v( 3 * b + 2 );
  #endif
  return L;
  #endif
}

static void judge( vf::Ctx& c, Scene& S, Dyn& D, const Runner& R, const Obs& o )
{
  const int n = nBodies( S.sim );
  const std::string where = S.desc + " | " + D.desc + " step " + std::to_string( D.it );
  // bodies nothing touches
  for( int b = 0; b < n; ++b ) if( !o.touched[size_t( b )] && !bodyFixed( S.sim, b ) )
  {
    c.stat( "free_flights" );
    const double d = ( bodyV( o.post, b ) - bodyV( o.pre, b ) ).norm(), s = bodyV( o.pre, b ).norm() + bodyV( o.post, b ).norm() + R.h * S.g.norm() + 1.0e-4 * R.v_init;
    if( d > 1.0e-11 * s ) c.viol( "untouched_body/" + R.op, vf::Msg() << "body " << b << " has no contact, yet its velocity went from " << vf::vs( bodyV( o.pre, b ) ) << " to " << vf::vs( bodyV( o.post, b ) ) << " | " << where );
  }
  if( !o.s.called ) { if( !o.as.empty() && !S.le ) c.viol( "no_response/" + R.op, vf::Msg() << o.as.size() << " contacts were detected but never handed to the solver | " << where ); return; }
  if( !S.le && o.s.alpha.size() != long( o.as.size() ) ) { c.viol( "contact_count/" + R.op, vf::Msg() << o.as.size() << " contacts detected, " << o.s.alpha.size() << " impulses | " << where ); return; }
  // each component of the contact graph
  std::map<int,std::vector<int>> members; for( int b = 0; b < n; ++b ) if( o.touched[size_t( b )] ) members[o.comp[size_t( b )]].push_back( b );
  std::map<int,bool> stat, tele; std::map<int,std::set<std::string>> names; bool all_tele = false, all_stat = false;
  for( const Con& k : o.con ) { if( k.b < 0 ) { stat[k.comp] = true; all_stat = true; } if( k.tele() ) { tele[k.comp] = true; all_tele = true; } names[k.comp].insert( k.name ); }
  bool acted = false; for( const Con& k : o.con ) acted = acted || k.alpha > 0;
  for( const auto& m : members )
  {
    if( stat[m.first] ) { c.stat( "components_on_static_geometry" ); continue; }
    RVec d = RVec::Zero(); VectorXs dl = VectorXs::Zero( VSIM == 3 ? 3 : 1 ); double s = 0, sl = 0, moved = 0;
    std::string nm; for( const std::string& x : names[m.first] ) nm += ( nm.empty() ? "" : "+" ) + x;
    double mt = 0; for( const int b : m.second ) mt += massOf( o, b );
    for( const int b : m.second )
    {
      const RVec p0 = linP( o, o.pre, b ), p1 = linP( o, o.post, b );
      d += p1 - p0; s += p0.norm() + p1.norm(); moved += ( p1 - p0 ).norm();
      const VectorXs l0 = angL( o, o.pre, b ), l1 = angL( o, o.post, b ); dl += l1 - l0; sl += l0.norm() + l1.norm() + bodyX( o.q0, b ).norm() * ( p0.norm() + p1.norm() );
    }
    const double fl = R.h * S.g.norm() + 1.0e-4 * R.v_init; s += mt * fl; for( const int b : m.second ) sl += massOf( o, b ) * fl * ( S.rmax + bodyX( o.q0, b ).norm() );
    c.stat( "components" ); if( moved > 1.0e-9 * s ) c.stat( "components_with_impulse" );
    if( d.norm() > 1.0e-10 * s ) c.viol( "linear_momentum/" + nm + "/" + R.op, vf::Msg() << "total momentum of a group of " << m.second.size() << " touching bodies changed by " << vf::vs( d ) << " (scale " << s << ") | " << where );
    const bool ball_friction = VSIM == 1 && o.s.friction && D.mu > 0; // balls without spin: tangential forces act on the centres
    if( !tele[m.first] && !ball_friction && !( o.scripted && VSIM == 1 && o.s.friction ) )
    {
      c.stat( "angular_judged" );
      if( dl.norm() > 1.0e-9 * sl ) c.viol( "angular_momentum/" + nm + "/" + R.op, vf::Msg() << "total angular momentum of a group of " << m.second.size() << " touching bodies changed by " << vf::vs( dl ) << " (scale " << sl << ") | " << where );
    }
  }
  // the change of every body's momentum is the sum of the reported impulses at its contacts, equal and opposite on the two partners
  {
    VectorXs imp = VectorXs::Zero( o.pre.size() ), mag = VectorXs::Zero( n );
    for( const Con& k : o.con )
    {
      VectorXs p( RD ); p( 0 ) = k.alpha; p.tail( RD - 1 ) = k.beta;
      addBodyV( imp, k.a, k.H0.transpose() * p ); mag( k.a ) += p.norm() * ( 1.0 + S.rmax );
      if( k.b >= 0 ) { addBodyV( imp, k.b, -k.H1.transpose() * p ); mag( k.b ) += p.norm() * ( 1.0 + S.rmax ); }
    }
    const VectorXs dp = o.M * ( o.post - o.pre );
    for( int b = 0; b < n; ++b ) if( !bodyFixed( S.sim, b ) && o.touched[size_t( b )] )
    {
      c.stat( "body_impulses" );
      const VectorXs x = bodyV( dp, b ), y = bodyV( imp, b );
      const double s = mag( b ) + ( bodyV( o.M * o.pre, b ).norm() + bodyV( o.M * o.post, b ).norm() ) + massOf( o, b ) * ( 1.0 + S.rmax ) * ( R.h * S.g.norm() + 1.0e-4 * R.v_init );
      if( ( x - y ).norm() > 1.0e-8 * s ) c.viol( "impulse_balance/" + R.op, vf::Msg() << "body " << b << ": momentum changed by " << vf::vs( x ) << ", the contact impulses sum to " << vf::vs( y ) << " (first contact " << o.con[0].name << ") | " << where );
    }
  }
  // whole step, as the simulation itself ends up: nothing but gravity acts on the total momentum
  if( !all_stat && !S.fixed && !S.le )
  {
    RVec p0 = RVec::Zero(), p1 = RVec::Zero(); double s = 0, mt = 0;
    for( int b = 0; b < n; ++b ) { p0 += linP( o, o.v0, b ); p1 += linP( o, o.v_end, b ); s += linP( o, o.v0, b ).norm() + linP( o, o.v_end, b ).norm(); mt += massOf( o, b ); }
    c.stat( "whole_steps" );
    if( ( p1 - p0 - R.h * mt * RVec( S.g ) ).norm() > 1.0e-10 * ( s + R.h * mt * S.g.norm() ) ) c.viol( "step_momentum/" + R.op, vf::Msg() << "total momentum " << vf::vs( p0 ) << " before the step, " << vf::vs( p1 ) << " after, gravity accounts for " << vf::vs( RVec( R.h * mt * RVec( S.g ) ) ) << " | " << where );
  }
  (void) all_tele; (void) acted;
}

int main( int argc, char** argv )
{
  return vf::main_( argc, argv, []( vf::Ctx& c, vf::Rng& r, long )
  {
    Opt op; op.gravity = 0.2; op.moving = 0.3; op.planes = 0.4; op.nmax = c.thorough && r.chance( 0.2 ) ? 40 : 12;
    Scene S = mkScene( r, op );
    Dyn D = mkDyn( r, r.chance( 0.5 ) ? 1 : 2, S.caps() );
    c.family( S.desc + " | " + D.desc );
    const bool scripted = !S.le && D.mode == 2 && D.desc.find( "grr_f" ) == std::string::npos && r.chance( 0.25 );
    Runner R( c, S, D );
    CoefScript cs; cs.seed = r.next(); cs.cor0 = 0; cs.cor1 = R.se ? 0.0 : 1.0; cs.mu0 = 0; cs.mu1 = 1.5;
    const int steps = c.thorough ? r.i( 3, 30 ) : r.i( 2, 8 ); bool any = false;
    for( int k = 0; k < steps; ++k )
    {
      totals( c, S, S.desc );
      // spinning bodies in three dimensions: angular momentum of the whole step, structure-preserving integrators
      const Obs o = R.step( scripted ? &cs : nullptr );
      judge( c, S, D, R, o ); any = any || ( o.s.called && o.s.alpha.size() && o.s.alpha.maxCoeff() > 0 );
      c.stat( "steps" ); c.seen( vf::hv( o.v_end ) );
      for( const Con& x : o.con ) c.stat( "contact_" + x.name );
      if( o.s.called ) c.stat( "op_" + R.op );
    }
    if( any ) c.stat( "cases_with_impulses" );
    if( any ) c.sample( S.desc + " | " + D.desc );
  } );
}
