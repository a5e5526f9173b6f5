// C04: simulations of every kind, including degenerate and extreme ones, under sanitizers and with the internal checks on.
#include "contacts.h"

static Dyn safeDyn( vf::Rng& r, const Caps& caps, const bool extreme )
{
  for( int k = 0; ; ++k )
  {
    Dyn d = mkDyn( r, -1, caps, 1.0e-7, 120 );
    if( d.mode && d.desc.find( "dmv" ) != std::string::npos ) continue; // does not converge for large angular displacements
    // iterated restitution need not end in extreme configurations
    if( extreme && k < 200 && d.mode && ( d.desc.find( " gr" ) != std::string::npos || d.desc.find( "gauss" ) != std::string::npos ) ) continue;
    if( extreme && k < 200 && d.desc.find( "staggered" ) != std::string::npos ) continue;
    return d;
  }
}

static void queries( vf::Ctx& c, Sim& s, const bool portal, const bool contacts, const Rat& dt, const unsigned it )
{
  if( nBodies( s ) == 0 ) { volatile double e = kinetic( s ) + potential( s ); (void) e; return; }
  volatile double e = kinetic( s ) + potential( s ); (void) e;
  VectorXs p, L; fsys( s ).computeMomentum( V( s ), p ); fsys( s ).computeAngularMomentum( V( s ), L );
  #if VSIM == 3
  { scalar a[6]; s.computeBoundingBox( a[0], a[1], a[2], a[3], a[4], a[5] ); scalar rad; Vector3s ctr; s.computeBoundingSphere( rad, ctr ); }
  #else
  s.state().computeBoundingBox();
  #endif
  VectorXs F( V( s ).size() ); fsys( s ).computeForce( Q( s ), V( s ), 0.0, F );
  if( !contacts ) return;
  const ActiveSet as = predictActive( s, dt, it );
  c.stat( "contacts_examined", (long long) as.size() );
  for( const auto& k : as )
  {
    const std::string nm = k->name(); k->evalNdotV( Q( s ), V( s ) );
    if( portal || nm == "static_cylinder_body" ) continue;
    VectorXs x; k->getWorldSpaceContactPoint( Q( s ), x ); k->getWorldSpaceContactNormal( Q( s ), x ); k->computeRelativeVelocity( Q( s ), V( s ) );
    MatrixXXsc B; k->computeBasis( Q( s ), V( s ), B ); const int w = VSIM == 1 ? 2 : VSIM == 2 ? 3 : 6; MatrixXXsc H0( DIM, w ), H1( DIM, w ); k->evalH( Q( s ), B, H0, H1 );
  }
}

static void roundTrip( vf::Ctx& c, Sim& s, Dyn& d )
{
  if( !d.serializable ) return;
  std::stringstream o; s.serialize( o ); d.serialize( o );
  Sim B; Dyn e; B.deserialize( o ); e.deserialize( o ); e.desc = d.desc; s = std::move( B ); d = std::move( e );
  c.stat( "round_trips" );
}

static void run( vf::Ctx& c, vf::Rng& r, Sim& s, Dyn& d, const bool portal, const std::string& what )
{
  c.family( what + " " + d.desc );
  const int n = r.i( 1, c.thorough ? 20 : 6 );
  for( int k = 0; k < n; ++k )
  {
    if( !vf::finite( Q( s ) ) || !vf::finite( V( s ) ) || vf::maxabs( Q( s ) ) > 1.0e100 || vf::maxabs( V( s ) ) > 1.0e100 ) { c.stat( "not_finite" ); return; }
    if( r.chance( 0.4 ) ) queries( c, s, portal, d.mode > 0, d.dt, d.it + 1 );
    if( r.chance( 0.15 ) ) { roundTrip( c, s, d ); c.family( what + " restored " + d.desc ); }
    // this integrator does not converge for large angular displacements
    if( d.desc.find( "dmv" ) != std::string::npos && double( scalar( d.dt ) ) * vf::maxabs( V( s ) ) > 0.3 ) { c.stat( "dmv_too_fast" ); return; }
    d.step( s ); c.stat( "steps" );
  }
  if( nBodies( s ) && vf::finite( Q( s ) ) ) c.seen( vf::hv( Q( s ) ) );
  c.stat( "mode" + std::to_string( d.mode ) );
}

// no bodies at all, with or without static geometry
static void emptyScene( vf::Ctx& c, vf::Rng& r )
{
  Opt o; o.nmin = o.nmax = 1; o.portal = r.chance( 0.5 ) ? 0.5 : 0.0; o.planes = 0.7; o.curved = 0.4; o.fixed = 0; o.kind = 0;
  Scene S = mkScene( r, o ); Dyn d = safeDyn( r, S.caps(), false ); c.family( "no bodies " + d.desc );
  #if VSIM == 1
  Ball2DState e; e.staticPlanes() = S.sim.state().staticPlanes(); e.staticDrums() = S.sim.state().staticDrums(); e.planarPortals() = S.sim.state().planarPortals(); for( const auto& f : S.sim.state().forces() ) e.forces().emplace_back( f->clone() ); S.sim.state() = e;
  #elif VSIM == 2
  S.sim.state() = RigidBody2DState( VectorXs(), VectorXs(), VectorXs(), std::vector<bool>(), VectorXu(), S.sim.state().geometry(), S.sim.state().forces(), S.sim.state().planes(), S.sim.state().planarPortals() );
  #else
  S.sim.state().setState( {}, {}, {}, {}, {}, {}, {}, {}, S.sim.state().geometry() );
  #endif
  c.stat( "no_bodies" ); run( c, r, S.sim, d, S.portal, "no bodies" );
}

static void one( vf::Ctx& c, vf::Rng& r, long )
{
  const double w = r.u();
  if( w < 0.02 ) { emptyScene( c, r ); return; }
  if( w < 0.30 )
  {
    // crowded configurations: deep overlaps, grazing and exact contacts, size ratios, fast motion, crowded periodic boundaries
    const int k = r.i( 0, 2 );
    Config C = k == 0 ? stress( r, false ) : k == 1 ? periodic( r, false ) : exact( r );
    static const char* nm[] = { "crowded", "periodic", "exact" };
    c.family( std::string( nm[k] ) + " " + C.desc );
    ActiveSet as; C.sim.computeActiveSet( C.q0, C.q1, C.v, as ); c.stat( nm[k] ); c.stat( "contacts_detected", (long long) as.size() );
    Caps caps; caps.cache = caps.gs = caps.lcp = caps.disk = caps.smooth = caps.pts = caps.gap = false;
    Dyn d = mkDyn( r, r.chance( 0.3 ) ? 0 : 2, caps, 1.0e-6, 20 );
    if( nBodies( C.sim ) <= 40 ) run( c, r, C.sim, d, k == 1, nm[k] );
    return;
  }
  Opt o; o.nmin = 1; o.nmax = 10; o.penalty = 0.15; o.curved = 0.25; o.overlap = 0.4;
  Scene S = mkScene( r, o );
  const int how = r.i( 0, 6 ); bool extreme = how > 1; std::string what = "plain";
  const int n = nBodies( S.sim );
  if( how == 2 ) { V( S.sim ).setZero(); what = "resting"; }
  else if( how == 3 ) { V( S.sim ) *= r.logu( 1.0e-12, 1.0e-2 ); what = "slow"; }
  else if( how == 4 ) { V( S.sim ) *= r.logu( 10.0, VSIM == 1 ? 1.0e6 : 1.0e3 ); what = "fast"; }
  else if( how == 5 && !S.portal )
  {
    // squeezed together: everything overlaps heavily
    const double f = r.u( 0.05, 0.7 ); VectorXs& q = Q( S.sim ); what = "squeezed";
    for( int b = 0; b < n; ++b )
    #if VSIM == 1
      q.segment<2>( 2 * b ) *= f;
    #elif VSIM == 2
      q.segment<2>( 3 * b ) *= f;
    #else
      q.segment<3>( 3 * b ) *= f;
    #endif
  }
  else if( how == 6 && !S.portal && !S.planes && !S.curved )
  {
    const double f = r.logu( 10.0, 1.0e6 ) * S.rmax; VectorXs& q = Q( S.sim ); what = "far away";
    for( int b = 0; b < n; ++b )
    #if VSIM == 1
      q.segment<2>( 2 * b ) += Vector2s( f, -0.7 * f );
    #elif VSIM == 2
      q.segment<2>( 3 * b ) += Vector2s( f, -0.7 * f );
    #else
      q.segment<3>( 3 * b ) += Vector3s( f, -0.7 * f, 0.3 * f );
    #endif
  }
  else extreme = false;
  Dyn d = safeDyn( r, S.caps(), extreme );
  if( r.chance( 0.1 ) ) { static const std::vector<Rat> l{ Rat( 1, 1000000 ), Rat( 1, 1 ), Rat( 5, 1 ), Rat( 1, 3 ) }; d.dt = r.pick( l ); }
  c.stat( what ); if( n == 1 ) c.stat( "one_body" ); if( S.portal ) c.stat( "portal" ); if( S.le ) c.stat( "lees_edwards" ); if( S.fixed ) c.stat( "fixed" ); if( S.curved ) c.stat( "curved" ); if( S.penalty ) c.stat( "penalty" );
  c.sample( what + " | " + S.desc + " | " + d.desc );
  run( c, r, S.sim, d, S.portal, what );
}
int main( int argc, char** argv ) { return vf::main_( argc, argv, one ); }
