// C23: a step with contacts is the scheme of its contact map: where contacts are looked for, what the impulses are added to, where the bodies end up,
// and (symplectic_euler with stabilisation) that overlap deeper than the threshold is undone within the step.
#include "response.h"

// q0 moved for a time h at the velocity v, turning at constant angular velocity
static VectorXs moved( Sim& s, const VectorXs& q0, const VectorXs& v, const double h )
{
  VectorXs q = q0;
  #if VSIM != 3
  (void) s; q += h * v;
  #else
  const int n = nBodies( s );
  for( int b = 0; b < n; ++b )
  {
    if( bodyFixed( s, b ) ) continue;
    q.segment<3>( 3 * b ) += h * v.segment<3>( 3 * b );
    const Vector3s w = v.segment<3>( 3 * n + 3 * b ); const double a = w.norm() * h; if( a == 0 ) continue;
    Matrix3s R; for( int i = 0; i < 3; ++i ) for( int j = 0; j < 3; ++j ) R( i, j ) = q0( 3 * n + 9 * b + 3 * i + j );
    const Vector3s e = w.normalized(); Matrix3s K; K << 0, -e( 2 ), e( 1 ), e( 2 ), 0, -e( 0 ), -e( 1 ), e( 0 ), 0;
    const double sh = std::sin( 0.5 * a ); R = R + std::sin( a ) * ( K * R ) + 2.0 * sh * sh * ( K * ( K * R ) );
    for( int i = 0; i < 3; ++i ) for( int j = 0; j < 3; ++j ) q( 3 * n + 9 * b + 3 * i + j ) = R( i, j );
  }
  #endif
  return q;
}
static std::string keyOf( const std::string& nm, const int a, const int b, const int k ) { std::ostringstream o; o << nm << ' ' << a << ' ' << b << ' ' << k; return o.str(); }
static std::multiset<std::string> keys( const std::vector<Con>& cs ) { std::multiset<std::string> m; for( const Con& k : cs ) m.insert( keyOf( k.name, k.a, k.b, k.kin ) ); return m; }
static bool roundScene( Scene& S )
{
  #if VSIM == 1
  (void) S; return true;
  #else
  return S.kind == 0;
  #endif
}
// distance of round surfaces for contacts whose gap is a convex function of the configuration: centres and radii only
static bool convexGap( Scene& S, const Con& k, const VectorXs& q, double& gap )
{
  if( !roundScene( S ) || S.portal || k.b < 0 || k.tele() ) return false;
  gap = ( bodyX( q, k.a ) - bodyX( q, k.b ) ).norm() - radiusOf( S.sim, k.a ) - radiusOf( S.sim, k.b );
  return true;
}

struct Setup { bool stab = false; double thr = 0; };

static void judge( vf::Ctx& c, Scene& S, Dyn& D, const Runner& R, Obs& o, const VectorXs& gk, const Setup& u )
{
  const std::string where = S.desc + " | " + D.desc + ( R.se ? ( u.stab ? " stabilisation threshold " + vf::str( u.thr ) : std::string( " no stabilisation" ) ) : std::string() ) + " step " + std::to_string( D.it );
  const std::string m = R.se ? "symplectic_euler" : R.stab ? "stabilized" : D.mode == 1 ? "impact" : "geometric";
  const double h = R.h; Sim& s = S.sim;
  c.stat( "steps_" + m );
  // 1. the contacts the response is given are those of the predicted configuration
  if( o.s.called != !o.as.empty() ) c.viol( "response_called/" + m, vf::Msg() << o.as.size() << " contacts in the predicted step, contact response " << ( o.s.called ? "called" : "not called" ) << " | " << where );
  if( o.s.called )
  {
    std::vector<Con> want; for( const auto& k : o.as ) want.push_back( mkCon( *k, o.q0, o.v0, nullptr ) );
    const auto a = keys( want ), b = keys( o.s.con ); c.stat( "active_sets" );
    if( a != b )
    {
      std::string d; for( const std::string& x : a ) if( a.count( x ) != b.count( x ) ) { d = x; break; } for( const std::string& x : b ) if( d.empty() && a.count( x ) != b.count( x ) ) d = x;
      c.viol( "contacts/" + m, vf::Msg() << "the response was given " << b.size() << " contacts, the predicted step has " << a.size() << "; e.g. " << d << " | " << where );
    }
  }
  // 2. velocities and positions
  VectorXs dv = VectorXs::Zero( o.v0.size() ); if( o.s.called ) dv = o.s.vout - o.s.v0;
  VectorXs q( o.q0.size() ), v( o.v0.size() );
  // the free step is taken from the state the step began with
  const auto place = [&]( const VectorXs& qq, const VectorXs& vv )
  {
    Q( s ) = qq; V( s ) = vv;
    #if VSIM == 3
    s.state().updateMandMinv();
    #endif
  };
  place( o.q0, o.v0 );
  if( R.se ) { v = o.v0 + gk + dv; q = moved( s, o.q0, v, h ); }
  else if( R.stab ) { D.umap->flow( o.q0, o.v0, fsys( s ), D.it, h, q, v ); if( o.s.called ) { v += dv; q = moved( s, o.q0, v, h ); } }
  else D.umap->flow( o.q0, o.v0 + dv, fsys( s ), D.it, h, q, v );
  place( o.q_end, o.v_end );
  double is = 0; // rounding of large impulses that nearly cancel
  if( o.s.called ) for( size_t k = 0; k < o.s.con.size(); ++k )
  {
    const Con& e = o.s.con[k]; VectorXs g = VectorXs::Zero( o.v0.size() ); addBodyV( g, e.a, e.H0.row( 0 ).transpose() ); if( e.b >= 0 ) addBodyV( g, e.b, -e.H1.row( 0 ).transpose() );
    is += std::fabs( o.s.alpha( long( k ) ) ) * vf::maxabs( o.s.Minv * g );
  }
  const double vs = 1.0e-2 * is + vf::maxabs( o.v0 ) + vf::maxabs( gk ) + vf::maxabs( dv ), qs = vf::maxabs( o.q0 ) + h * vs;
  const double ev = vf::maxabs( o.v_end - v ), eq = vf::maxabs( o.q_end - q );
  c.stat( "ends_judged" );
  if( !( ev <= 1.0e-12 * vs ) ) c.viol( "velocity/" + m, vf::Msg() << "velocities after the step are " << ev << " away from " << ( R.se ? "v0 + h a + impulses" : R.stab ? "those of the free step + impulses" : "a free step started at v0 + impulses" ) << " (speeds up to " << vs << ", " << o.as.size() << " contacts) | " << where );
  if( !( eq <= 1.0e-12 * qs ) ) c.viol( "position/" + m, vf::Msg() << "positions after the step are " << eq << " away from " << ( R.se || R.stab ? "q0 moved for h at the end velocity" : "a free step started at v0 + impulses" ) << " (" << o.as.size() << " contacts) | " << where );
  // 3. stabilisation
  if( !R.se || !o.s.called ) return;
  if( !o.s.ok ) { c.stat( "unconverged_solves" ); return; }
  std::vector<Con> con = o.con; double xmax = 0, kin = 0;
  if( con.size() != o.as.size() ) return;
  std::map<std::string,std::vector<double>> gaps; // gaps by contact, whatever order the response saw them in
  if( u.stab ) for( const auto& k : o.as ) { const Con w = mkCon( *k, o.q0, o.v0, nullptr ); const double g = std::min( 0.0, k->evaluateGapFunction( o.q0 ) ); gaps[keyOf( w.name, w.a, w.b, w.kin )].push_back( std::fabs( g ) < u.thr ? 0.0 : g ); }
  for( Con& k : con )
  {
    k.extra = 0; kin = std::max( kin, k.k.norm() );
    if( u.stab ) { const auto& l = gaps[keyOf( k.name, k.a, k.b, k.kin )]; if( l.size() != 1 && *std::max_element( l.begin(), l.end() ) != *std::min_element( l.begin(), l.end() ) ) { c.stat( "ambiguous_gaps" ); return; } k.extra = l[0] / h; }
    k.u1 = k.rel( o.v_end ); xmax = std::max( xmax, std::fabs( k.extra ) );
  }
  const double V0 = std::max( vscale( o.pre, S.rmax ), 1.0e-3 * R.v_init * ( 1.0 + S.rmax ) ) + kin + xmax + vscale( o.v_end, S.rmax );
  const double tv = 1.0e-9 + 2.0e-4 * V0;
  if( std::any_of( con.begin(), con.end(), [&]( const Con& k ) { return k.u1( 0 ) + k.extra < -0.5 * tv; } ) ) { Obs t; t.con = con; t.pre = o.pre; t.s = o.s; if( !feasible( t, true, 0.1 * tv ) ) { c.stat( "infeasible_laws" ); return; } }
  double amax = 0; for( const Con& k : con ) amax = std::max( amax, std::fabs( k.alpha ) );
  for( const Con& k : con )
  {
    VectorXs g = VectorXs::Zero( o.v0.size() ); addBodyV( g, k.a, k.H0.row( 0 ).transpose() ); if( k.b >= 0 ) addBodyV( g, k.b, -k.H1.row( 0 ).transpose() );
    const double meff = 1.0 / g.dot( o.s.Minv * g ), w = k.u1( 0 ) + k.extra;
    c.stat( k.extra < 0 ? "overlapping_contacts" : "touching_contacts" );
    if( w < -tv ) c.viol( std::string( k.extra < 0 ? "overlap_not_undone/" : "left_approaching/" ) + k.name, vf::Msg() << "a contact overlapping by " << -h * k.extra << " leaves at normal velocity " << k.u1( 0 ) << ", undoing it in a step of " << h << " takes " << -k.extra << " | " << where );
    if( std::min( k.alpha / meff, w ) > tv ) c.viol( std::string( k.extra < 0 ? "overpushed/" : "separated_for_nothing/" ) + k.name, vf::Msg() << "an impulse acts although the contact (overlap " << -h * k.extra << ") leaves at normal velocity " << k.u1( 0 ) << ", " << w << " more than needed | " << where );
    double g0, g1;
    if( u.stab && convexGap( S, k, o.q0, g0 ) && convexGap( S, k, o.q_end, g1 ) )
    {
      c.stat( "separations_from_positions" );
      if( g1 < std::min( 0.0, std::fabs( g0 ) < u.thr ? g0 : 0.0 ) - h * tv - 1.0e-9 * S.rmax ) c.viol( "still_overlapping/" + k.name, vf::Msg() << "round bodies " << k.a << "," << k.b << " overlapped by " << -g0 << " before and by " << -g1 << " after a stabilised step | " << where );
    }
  }
}

int main( int argc, char** argv )
{
  return vf::main_( argc, argv, []( vf::Ctx& c, vf::Rng& r, long )
  {
    Opt op; op.gravity = 0.7; op.moving = 0.2; op.portal = 0; op.le = 0; op.nmin = r.chance( 0.3 ) ? 1 : 2; op.nmax = op.nmin == 1 ? 3 : 12; op.overlap = 0.5;
    if( r.chance( 0.4 ) ) { op.packed = 0.95; op.overlap = 0.8; }
    Scene S = mkScene( r, op ); Caps caps = S.caps();
    Dyn D = mkDyn( r, r.chance( 0.3 ) ? 1 : 2, caps, 1.0e-12, 4000 );
    Setup u; u.stab = caps.gap && r.chance( 0.7 ); u.thr = r.chance( 0.4 ) ? 0.0 : r.chance( 0.5 ) ? 1.0e-3 : r.logu( 1.0e-5, 0.1 );
    const bool sob = D.mode == 2 && D.desc.find( "sobogus" ) != std::string::npos;
    if( sob && caps.smooth && ( D.ifmap->name().find( "symplectic" ) != std::string::npos || ( D.ifmap->name().find( "stab" ) == std::string::npos && r.chance( 0.6 ) ) ) )
    { // with known stabilisation
      const ImpulsesToCache itc = D.warm ? ImpulsesToCache::NORMAL : ImpulsesToCache::NONE;
      D.ifmap.reset( new SymplecticEulerImpactFrictionMap( 1.0e-12, 4000, itc, u.stab, u.thr ) ); D.CoR = 0; D.desc += " -> symplectic_euler";
      if( r.chance( 0.3 ) ) D.mu = 0;
    }
    // a few bodies hardly turning
    #if VSIM == 3
    if( r.chance( 0.2 ) ) S.sim.state().v().tail( S.sim.state().v().size() / 2 ) *= r.logu( 1.0e-6, 1.0e-2 );
    #endif
    c.family( S.desc + " | " + D.desc );
    Runner R( c, S, D ); const VectorXs gk = R.gkick();
    const int steps = c.thorough ? r.i( 3, 20 ) : r.i( 2, 5 ); bool any = false;
    for( int k = 0; k < steps; ++k )
    {
      Obs o = R.step(); if( !o.q_end.allFinite() ) { c.stat( "left_the_scene" ); break; }
      judge( c, S, D, R, o, gk, u );
      c.stat( "steps" ); if( o.s.called ) { any = true; c.seen( vf::hv( o.v_end ) ); }
    }
    if( any ) { c.stat( "cases_with_contacts" ); c.sample( S.desc + " | " + D.desc ); }
  } );
}
