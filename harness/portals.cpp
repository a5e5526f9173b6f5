// C16: periodic boundaries are seamless.
#include "response.h"
static const double LEK = 8.0; // the images of a contact lag by up to one step of shear

static int st() { return VSIM == 2 ? 3 : RD; }
static double wrap1( const double x, const double L ) { return L > 0 ? x - 2.0 * L * std::floor( ( x + L ) / ( 2.0 * L ) ) : x; }
static double halfOf( const Scene& S, const int k ) { return k == 0 ? S.LX : ( VSIM == 3 && k == 1 ? 0.0 : ( k == 1 ? S.LY : S.LZ ) ); }

// displacement folded to the nearest lattice vector (shear offset already removed)
static RVec fold( const Scene& S, RVec d ) { for( int k = 0; k < RD; ++k ) { const double L = halfOf( S, k ); if( L > 0 ) d( k ) -= 2.0 * L * std::round( d( k ) / ( 2.0 * L ) ); } return d; }

// moves a point (and its velocity) into the base cell; t: time, at which the neighbouring cells are displaced by shear * t
static void intoCell( const Scene& S, RVec& x, RVec& v, const double t )
{
  if( VSIM != 3 && S.shear != 0.0 ) { const double m = std::floor( ( x( 1 ) + S.LY ) / ( 2.0 * S.LY ) ); x( 1 ) -= 2.0 * S.LY * m; x( 0 ) -= m * S.shear * t; v( 0 ) -= m * S.shear; x( 0 ) = wrap1( x( 0 ), S.LX ); return; }
  for( int k = 0; k < RD; ++k ) x( k ) = wrap1( x( k ), halfOf( S, k ) );
}

static void inside( vf::Ctx& c, const Scene& S, const VectorXs& q, const std::string& where )
{
  for( int b = 0; b < int( q.size() ) / ( VSIM == 3 ? 12 : st() ); ++b ) for( int k = 0; k < RD; ++k )
  {
    const double L = halfOf( S, k ); if( L <= 0 ) continue;
    c.stat( "centres_judged" );
    if( !( std::fabs( q( st() * b + k ) ) <= L * ( 1.0 + 1.0e-12 ) ) ) c.viol( "outside", vf::Msg() << "body " << b << " centre " << vf::vs( bodyX( q, b ) ) << " lies outside the periodic domain of half widths " << S.LX << " " << S.LY << " " << S.LZ << " | " << where );
  }
}

// free flight for any number of steps, through any number of cells
static void flight( vf::Ctx& c, vf::Rng& r )
{
  Opt op; op.portal = 1.0; op.planes = 0; op.fixed = 0; op.nmin = 1; op.nmax = 6; op.gravity = 0.4; op.kind = 0; op.speed = r.logu( 0.5, 6.0 );
  Scene S = mkScene( r, op ); Sim& s = S.sim; const int n = nBodies( s );
  std::string nm; const int um = r.i( 0, numUMaps() - 1 ); Dyn D; D.mode = 0; D.umap = mkUMap( um, nm ); D.dt = pickDt( r ); const double h = double( D.dt );
  D.it = r.chance( 0.5 ) ? 0u : unsigned( r.i( 0, 200000 ) );
  const std::string where = S.desc + " | " + nm; c.family( "flight " + where );
  const double t0 = D.it * h; const int steps = r.i( 5, c.thorough ? 400 : 60 );
  const VectorXs q0 = Q( s ), v0 = V( s ); const unsigned it0 = D.it; std::vector<bool> crossed( size_t( n ), false ); (void) t0;
  const double width = 2.0 * std::min( S.LX > 0 ? S.LX : 1e300, std::min( S.LY > 0 ? S.LY : 1e300, S.LZ > 0 ? S.LZ : 1e300 ) );
  for( int k = 1; k <= steps; ++k )
  {
    D.step( s ); const VectorXs& q = Q( s ); const VectorXs& v = V( s ); const double t = ( it0 + unsigned( k ) ) * h, T = k * h;
    if( vf::maxabs( v ) * h > 0.4 * width ) return; // at most one cell per step
    inside( c, S, q, where );
    const double off = nm == "symplectic_euler" ? 0.5 * h * h * k * ( k + 1 ) : ( nm == "exponential_euler" ? 0.5 * h * h * k * ( k - 1 ) : 0.5 * T * T );
    for( int b = 0; b < n; ++b )
    {
      RVec x = bodyX( q0, b ) + T * RVec( bodyV( v0, b ).head( RD ) ) + off * RVec( S.g ), w = RVec( bodyV( v0, b ).head( RD ) ) + T * RVec( S.g ); const RVec xu = x;
      const double tol = 1.0e-11 * ( bodyX( q0, b ).norm() + T * bodyV( v0, b ).norm() + off * S.g.norm() + std::fabs( S.shear * t ) * ( 1 + std::fabs( xu( 1 ) ) / ( S.LY > 0 ? S.LY : 1.0 ) ) + width );
      // on the boundary itself either cell may be meant
      bool edge = false; for( int i = 0; i < RD; ++i ) { const double L = halfOf( S, i ); if( L > 0 ) edge = edge || std::fabs( L - std::fabs( wrap1( xu( i ), L ) ) ) < 10 * tol; }
      intoCell( S, x, w, t );
      if( edge ) { c.stat( "on_boundary" ); continue; }
      if( ( x - xu ).norm() > 0.5 * width ) { if( !crossed[size_t( b )] ) c.stat( "crossings" ); crossed[size_t( b )] = true; c.stat( "flights_beyond_cell" ); }
      c.stat( "flights_judged" );
      const RVec e = fold( S, bodyX( q, b ) - x );
      if( !( e.norm() <= tol ) ) { c.viol( "flight_position/" + nm, vf::Msg() << "body " << b << " after " << k << " steps at " << vf::vs( bodyX( q, b ) ) << ", seamless flight from " << vf::vs( bodyX( q0, b ) ) << " leads to " << vf::vs( x ) << " | " << where ); return; }
      if( !( ( RVec( bodyV( v, b ).head( RD ) ) - w ).norm() <= 1.0e-11 * ( w.norm() + bodyV( v0, b ).norm() + T * S.g.norm() + std::fabs( S.shear ) * 100 ) ) ) { c.viol( "flight_velocity/" + nm, vf::Msg() << "body " << b << " after " << k << " steps has velocity " << vf::vs( bodyV( v, b ) ) << ", seamless flight gives " << vf::vs( w ) << " | " << where ); return; }
    }
  }
  c.seen( vf::hv( Q( s ) ) ); c.sample( "flight " + where );
}

// the same scene placed elsewhere in the periodic domain behaves the same
static void shifted( vf::Ctx& c, vf::Rng& r )
{
  Opt op; op.portal = 1.0; op.fixed = 0; op.nmin = 1; op.nmax = c.thorough && r.chance( 0.3 ) ? 30 : 10; op.gravity = 0.4; op.kind = 0; op.packed = 0.8; op.speed = r.logu( 0.5, 3.0 );
  Scene S = mkScene( r, op ); const int n = nBodies( S.sim );
  // images through a corner are the subject of C07
  const bool corner = !S.le && ( ( S.LX > 0 ) + ( S.LY > 0 ) + ( S.LZ > 0 ) > 1 );
  Scene T = S;
  vf::Rng r1 = r, r2 = r; const int mode = r.i( 1, 2 ); (void) r1.i( 1, 2 ); (void) r2.i( 1, 2 );
  Caps caps = S.caps(); caps.gap = false; // the gap of a contact through a portal is declared not available: no stabilisation
  Dyn A = mkDyn( r1, mode, caps, 1.0e-12, 5000 ), B = mkDyn( r2, mode, caps, 1.0e-12, 5000 );
  if( mode == 1 ) { std::string nm; A.iop = mkImpactOp( 3, nm ); B.iop = mkImpactOp( 3, nm ); A.desc += " lcp_ql"; }
  else { A.mu = B.mu = A.mu > 0 ? 0.1 : 0.0; }
  A.it = B.it = r.chance( 0.5 ) ? 0u : unsigned( r.i( 0, 100000 ) );
  RVec sh = RVec::Zero(); for( int k = 0; k < RD; ++k ) { const double L = halfOf( S, k ); if( L > 0 ) sh( k ) = r.u( -L, L ); }
  const bool ley = S.le && r.chance( 0.5 ); if( S.le && !ley ) sh( 1 ) = 0.0;
  const double h = double( A.dt );
  // at the start the neighbouring cells are displaced as they were at the end of the previous step
  for( int b = 0; b < n; ++b ) { RVec x = bodyX( Q( T.sim ), b ) + sh, w = bodyV( V( T.sim ), b ).head( RD ); intoCell( S, x, w, A.it * h ); Q( T.sim ).segment<RD>( st() * b ) = x; V( T.sim ).segment<RD>( st() * b ) = w; }
  const std::string where = vf::Msg() << ( ley ? "ley " : "" ) << S.desc << " | " << A.desc << " shifted by " << vf::vs( sh ); c.family( where );
  const int steps = r.i( 1, 6 ); const double width = 2.0 * std::min( S.LX > 0 ? S.LX : 1e300, std::min( S.LY > 0 ? S.LY : 1e300, S.LZ > 0 ? S.LZ : 1e300 ) );
  for( int k = 0; k < steps; ++k )
  {
    if( std::max( vf::maxabs( V( S.sim ) ), vf::maxabs( V( T.sim ) ) ) * h > 0.3 * width ) return;
    // contacts that only one of the two sees (within rounding, at corners, or swept rather than overlapping at the end of the step) are the subject of C07
    std::multiset<std::pair<int,int>> a, b; int tele = 0;
    for( int w = 0; w < 2; ++w )
    {
      Scene cp = w ? T : S; Dyn& D = w ? B : A;
      #if VSIM != 3
      cp.sim.state().planarPortals(); for( auto& p : cp.sim.state().planarPortals() ) p.updateMovingPortals( ( D.it + 1 ) * h );
      #endif
      const ActiveSet as = predictActive( cp.sim, D.dt, D.it + 1 );
      for( const auto& x : as ) { std::pair<int,int> ij; x->getSimulatedBodyIndices( ij ); if( ij.second >= 0 && ij.first > ij.second ) std::swap( ij.first, ij.second ); ( w ? b : a ).insert( ij ); if( w == 0 && ( x->name().find( "teleported" ) != std::string::npos || x->name().find( "kick" ) != std::string::npos ) ) ++tele; }
    }
    if( a != b ) { c.stat( corner ? "corner_or_borderline" : "borderline" ); return; }
    if( ley ) { std::map<int,int> deg; int top = 0; for( const auto& ij : a ) { top = std::max( top, ++deg[ij.first] ); if( ij.second >= 0 ) top = std::max( top, ++deg[ij.second] ); } if( top > 1 ) { c.stat( "sheared_cluster" ); return; } }
    A.step( S.sim ); B.step( T.sim ); const double t = A.it * h;
    inside( c, S, Q( S.sim ), where ); inside( c, T, Q( T.sim ), where );
    const double sv = vf::maxabs( V( S.sim ) ) + std::fabs( S.shear ) + h * S.g.norm(), tol = ( mode == 1 ? 1.0e-6 : 1.0e-3 ) + ( ley ? LEK * h * std::fabs( S.shear ) / S.rmin : 0.0 );
    if( !vf::finite( V( S.sim ) ) || !vf::finite( V( T.sim ) ) ) return;
    for( int i = 0; i < n; ++i )
    {
      RVec x = bodyX( Q( S.sim ), i ) + sh, w = bodyV( V( S.sim ), i ).head( RD ); const RVec xr = x; intoCell( S, x, w, t );
      bool edge = false; for( int d = 0; d < RD; ++d ) { const double L = halfOf( S, d ); if( L > 0 ) edge = edge || std::fabs( L - std::fabs( wrap1( xr( d ), L ) ) ) < 1.0e-4 * L + 2.0 * tol * h * sv * ( k + 1 ); }
      if( edge ) { c.stat( "on_boundary" ); return; }
      c.stat( "shifts_judged" ); if( !a.empty() ) c.stat( "shifts_with_contacts" ); if( tele ) c.stat( "shifts_with_teleported" );
      const RVec e = fold( S, bodyX( Q( T.sim ), i ) - x ), f = RVec( bodyV( V( T.sim ), i ).head( RD ) ) - w;
      double spin = 0; if( RV > RD ) spin = S.rmax * ( bodyV( V( T.sim ), i ).tail( RV - RD ) - bodyV( V( S.sim ), i ).tail( RV - RD ) ).norm();
      if( !( f.norm() + spin <= tol * sv ) ) { c.viol( "shift_velocity", vf::Msg() << "body " << i << " step " << k << ": velocity " << vf::vs( bodyV( V( S.sim ), i ) ) << " in place, " << vf::vs( bodyV( V( T.sim ), i ) ) << " shifted (expected " << vf::vs( w ) << ") with " << a.size() << " contacts | " << where ); return; }
      if( !( e.norm() <= tol * h * sv * ( k + 1 ) + 1.0e-9 * width ) ) { c.viol( "shift_position", vf::Msg() << "body " << i << " step " << k << ": at " << vf::vs( bodyX( Q( S.sim ), i ) ) << " in place, at " << vf::vs( bodyX( Q( T.sim ), i ) ) << " shifted (expected " << vf::vs( x ) << ") with " << a.size() << " contacts | " << where ); return; }
    }
    // keep the two in step exactly
    for( int i = 0; i < n; ++i ) { RVec x = bodyX( Q( S.sim ), i ) + sh, w = bodyV( V( S.sim ), i ).head( RD ); intoCell( S, x, w, t ); Q( T.sim ).segment<RD>( st() * i ) = x; V( T.sim ).segment<RD>( st() * i ) = w; if( RV > RD ) { const VectorXs y = bodyV( V( S.sim ), i ); 
      #if VSIM == 2
      V( T.sim )( 3 * i + 2 ) = y( 2 );
      #elif VSIM == 3
      V( T.sim ).segment<3>( 3 * n + 3 * i ) = y.tail<3>(); Q( T.sim ).segment<9>( 3 * n + 9 * i ) = Q( S.sim ).segment<9>( 3 * n + 9 * i );
      #endif
    } }
    if( A.warm ) return;
  }
  c.seen( vf::hv( Q( S.sim ) ) ); c.sample( where );
}

// the portal as a map of points
static void pointMap( vf::Ctx& c, vf::Rng& r )
{
  // any pair of parallel planes facing one another, in any direction
  RVec n; for( int k = 0; k < RD; ++k ) n( k ) = r.gauss(); n.normalize();
  #if VSIM == 3
  n = Vector3s::Unit( r.i( 0, 2 ) ) * ( r.chance( 0.5 ) ? 1.0 : -1.0 ); // the multiplier can only match tangents that are parallel
  #endif
  RVec o; for( int k = 0; k < RD; ++k ) o( k ) = 3.0 * r.gauss();
  const double W = r.logu( 0.5, 20.0 ), bounds = W * r.u( 0.5, 2.0 );
  #if VSIM == 3
  const PlanarPortal P = mkPortal3( o - W * n, n, o + W * n, -n ); const double shear = 0, t = 0;
  auto through = [&]( const Vector3s& x, const bool b ) { Vector3s y; P.teleportPoint( x, b, y ); return y; };
  #else
  #if VSIM == 1
  typedef StaticPlane Plane;
  #else
  typedef RigidBody2DStaticPlane Plane;
  #endif
  const bool le = r.chance( 0.6 ); const double shear = le ? r.gauss() * W : 0.0, t = le ? r.logu( 0.01, 1000.0 ) : 0.0;
  PlanarPortal P( Plane( o - W * n, n ), Plane( o + W * n, -n ), shear, le ? bounds : 0.0 ); if( le ) P.updateMovingPortals( t );
  #if VSIM == 1
  auto through = [&]( const Vector2s& x, const bool b ) { Vector2s y; const double d = b ? W - ( x - o ).dot( n ) : W + ( x - o ).dot( n ); P.teleportBall( x, d + 1.0e-6 * W, y ); return y; };
  #else
  auto through = [&]( const Vector2s& x, const bool b ) { Vector2s y; if( b ) P.teleportPointThroughPlaneB( x, y ); else P.teleportPointThroughPlaneA( x, y ); return y; };
  #endif
  #endif
  c.family( "point map" );
  const double scale = o.norm() + W * 4 + std::fabs( shear * t );
  auto tmod = [&]( RVec d ) { if( shear == 0.0 ) return d; RVec tt = RVec::Zero(); tt( 0 ) = -n( 1 ); tt( 1 ) = n( 0 ); const double x = d.dot( tt ); d -= 2.0 * bounds * std::round( x / ( 2.0 * bounds ) ) * tt; return d; };
  RVec last_x = RVec::Zero(), last_y = RVec::Zero(); bool have = false, side = r.chance( 0.5 );
  for( int k = 0; k < 6; ++k )
  {
    // near plane A (side 0) or B (side 1)
    RVec x = o + ( side ? 1.0 : -1.0 ) * W * r.u( 0.7, 1.25 ) * n; for( int e = 0; e < RD; ++e ) { RVec q; for( int i = 0; i < RD; ++i ) q( i ) = r.gauss(); q -= q.dot( n ) * n; x += 0.2 * bounds * q; }
    const RVec y = through( x, side );
    c.stat( "points_mapped" );
    // across the domain by its full width, and sheared
    const double dn = ( y - x ).dot( n ) - ( side ? -2.0 : 2.0 ) * W;
    if( !( std::fabs( dn ) <= 1.0e-12 * scale ) ) c.viol( "point_width", vf::Msg() << "point " << vf::vs( x ) << " is mapped to " << vf::vs( y ) << ", off by " << dn << " across the domain" );
    RVec tang = ( y - x ) - ( y - x ).dot( n ) * n;
    #if VSIM != 3
    { const RVec nn = side ? RVec( -n ) : n; RVec tt; tt( 0 ) = -nn( 1 ); tt( 1 ) = nn( 0 ); tang += shear * t * tt; } // through a plane the image is displaced by -v t along its tangent
    #endif
    if( !( tmod( tang ).norm() <= 1.0e-11 * scale ) ) c.viol( "point_shift", vf::Msg() << "point " << vf::vs( x ) << " is mapped to " << vf::vs( y ) << ", displaced along the boundary by " << vf::vs( tmod( tang ) ) << " from where the boundary has moved" );
    const RVec z = through( y, !side );
    if( !( tmod( z - x ).norm() <= 1.0e-11 * scale ) ) c.viol( "point_inverse", vf::Msg() << "point " << vf::vs( x ) << " through and back becomes " << vf::vs( z ) );
    if( have && !( tmod( ( y - last_y ) - ( x - last_x ) ).norm() <= 1.0e-11 * scale ) ) c.viol( "point_isometry", vf::Msg() << "difference " << vf::vs( RVec( x - last_x ) ) << " becomes " << vf::vs( RVec( y - last_y ) ) );
    last_x = x; last_y = y; have = true;
    #if VSIM != 3
    // the velocity a crossing adds
    { const RVec nn = side ? RVec( -n ) : n; RVec tt; tt( 0 ) = -nn( 1 ); tt( 1 ) = nn( 0 ); const RVec beyond = o + ( side ? 1.0 : -1.0 ) * W * 1.05 * n; const RVec kv = P.getKinematicVelocityOfPoint( beyond );
      if( !( ( kv + shear * tt ).norm() <= 1.0e-12 * ( std::fabs( shear ) + 1 ) ) ) c.viol( "kick", vf::Msg() << "crossing adds velocity " << vf::vs( kv ) << ", expected " << vf::vs( RVec( -shear * tt ) ) ); }
    #endif
  }
  c.seen( vf::fnv( last_y.data(), sizeof( double ) * RD ) );
}

int main( int argc, char** argv )
{
  return vf::main_( argc, argv, []( vf::Ctx& c, vf::Rng& r, long )
  {
    const double u = r.u();
    if( u < 0.4 ) flight( c, r ); else if( u < 0.85 ) shifted( c, r ); else pointMap( c, r );
  } );
}
