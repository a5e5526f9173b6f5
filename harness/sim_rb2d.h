#include "rigidbody2d/RigidBody2DSim.h"
#include "rigidbody2d/RigidBody2DUtilities.h"
#include "rigidbody2d/PythonScripting.h"
#include "rigidbody2d/SymplecticEulerMap.h"
#include "rigidbody2d/VerletMap.h"
#include "rigidbody2d/NearEarthGravityForce.h"
#include "rigidbody2d/CircleGeometry.h"
#include "rigidbody2d/BoxGeometry.h"
#include "rigidbody2d/BodyBodyConstraint.h"
#include "rigidbody2d/CircleCircleConstraint.h"
#include "rigidbody2d/StaticPlaneBodyConstraint.h"
#include "rigidbody2d/StaticPlaneCircleConstraint.h"
#include "rigidbody2d/KinematicObjectCircleConstraint.h"
#include "rigidbody2d/TeleportedCircleCircleConstraint.h"
#include "rigidbody2d/KinematicKickCircleCircleConstraint.h"
typedef RigidBody2DSim Sim;
namespace SimUtil = RigidBody2DUtilities;

struct Scene
{
  Sim sim;
  bool portal = false, le = false, planes = false, curved = false, gravity = false, fixed = false, penalty = false, moving = false;
  int kind = 0;
  double L = 1, rmin = 1, rmax = 1, LX = 0, LY = 0, LZ = 0, shear = 0; // periodic half widths (0: not periodic); velocity of the upper neighbour cell
  Vector2s g = Vector2s::Zero();
  std::string desc;
  bool kind_round() const { return kind == 0; }
  Caps caps() const { Caps c; c.pts = kind == 0; c.cache = !portal && kind == 0; c.gs = false; c.lcp = kind == 0; c.disk = kind == 0 && !planes && !fixed && !portal; c.smooth = false; c.gap = false; return c; }
};

inline int nBodies( const Sim& s ) { return int( s.state().nbodies() ); }
inline VectorXs& Q( Sim& s ) { return s.state().q(); }
inline VectorXs& V( Sim& s ) { return s.state().v(); }
inline double bodyMass( const Sim& s, const int b ) { return s.state().m( b ); }
inline double kinetic( Sim& s ) { return s.computeKineticEnergy(); }
inline double potential( Sim& s ) { return s.computePotentialEnergy(); }

inline std::unique_ptr<UnconstrainedMap> mkUMap( const int k, std::string& d ) { if( k == 0 ) { d += "symplectic_euler"; return std::unique_ptr<UnconstrainedMap>( new SymplecticEulerMap ); } d += "verlet"; return std::unique_ptr<UnconstrainedMap>( new VerletMap ); }
inline int numUMaps() { return 2; }
inline std::unique_ptr<UnconstrainedMap> pickUMap( vf::Rng& r, std::string& d ) { return mkUMap( r.i( 0, 1 ), d ); }

inline Scene mkScene( vf::Rng& r, const Opt& o )
{
  Scene S;
  const int n = r.i( o.nmin, o.nmax );
  const double r0 = r.logu( 0.1, 2.0 );
  const bool packed = r.chance( o.packed ), ov = r.chance( o.overlap );
  const double L = r0 * ( 2.0 + std::sqrt( double( n ) ) * ( packed ? r.u( 1.05, 1.4 ) : r.u( 1.5, 4.0 ) ) );
  const double sp = o.speed * r0 * r.logu( 0.2, 5.0 );
  S.portal = r.chance( o.portal ) && o.kind <= 0;
  S.le = S.portal && r.chance( o.le );
  const bool px = S.portal && ( S.le || r.chance( 0.7 ) ), py = S.portal && ( S.le || !px || r.chance( 0.4 ) );
  const double LX = px ? 1.02 * L + 0.1 * r0 : L, LY = py ? 1.02 * L + 0.1 * r0 : L;
  auto pd = [&]( Vector2s d ) { if( px ) d.x() -= 2.0 * LX * std::round( d.x() / ( 2.0 * LX ) ); if( py ) d.y() -= 2.0 * LY * std::round( d.y() / ( 2.0 * LY ) ); return d; };
  auto wrap = [&]( const Vector2s& x ) { return S.portal ? pd( x ) : x; };
  const bool want_fixed = !S.portal && r.chance( o.fixed );
  S.kind = o.kind >= 0 ? o.kind : ( S.portal ? 0 : r.i( 0, 2 ) );
  const Vector2s drift = r.chance( 0.3 ) ? Vector2s( 0.3 * sp * r.gauss(), 0.3 * sp * r.gauss() ) : Vector2s( 0, 0 );
  // fixed bodies are supported against circles only
  S.fixed = want_fixed && S.kind == 0;
  std::vector<std::unique_ptr<RigidBody2DGeometry>> geo; std::vector<double> brad;
  const int ng = r.i( 1, 3 );
  for( int k = 0; k < ng; ++k )
  {
    const double s = r0 * r.u( 0.4, 1.0 );
    const bool box = S.kind == 1 || ( S.kind == 2 && ( k % 2 == 1 || ( ng == 1 && r.chance( 0.5 ) ) ) );
    if( box ) { const Vector2s h( s * r.u( 0.4, 0.7 ), s * r.u( 0.2, 0.7 ) ); geo.emplace_back( new BoxGeometry( h ) ); brad.push_back( h.norm() ); }
    else { geo.emplace_back( new CircleGeometry( s ) ); brad.push_back( s ); }
  }
  int fixed_box = -1;
  if( S.fixed && r.chance( 0.5 ) ) { const Vector2s h( r0 * r.u( 0.3, 0.7 ), r0 * r.u( 0.3, 0.7 ) ); geo.emplace_back( new BoxGeometry( h ) ); brad.push_back( h.norm() ); fixed_box = int( geo.size() ) - 1; }
  if( px ) S.LX = LX; if( py ) S.LY = LY;
  std::vector<Vector2s> xs; std::vector<double> rs; std::vector<bool> fx; std::vector<unsigned> gi;
  std::vector<double> th, vx, vy, om, mm, II;
  for( int k = 0; k < n; ++k )
  {
    const bool f = S.fixed && k > 0 && r.chance( 0.25 );
    const int g = f && fixed_box >= 0 && r.chance( 0.6 ) ? fixed_box : r.i( 0, ng - 1 );
    const double rad = brad[g];
    Vector2s x; bool ok = false;
    for( int t = 0; t < 60 && !ok; ++t )
    {
      x << r.u( -LX, LX ), r.u( -LY, LY );
      if( packed && !xs.empty() && r.chance( 0.7 ) ) { const int j = r.i( 0, int( xs.size() ) - 1 ); const double a = r.u( 0, 2 * M_PI ); x = xs[j] + ( rs[j] + rad ) * ( 1.0 + 1.0e-3 * r.u( ov ? -5.0 : 0.01, 5.0 ) ) * Vector2s( std::cos( a ), std::sin( a ) ); x = wrap( x ); if( std::fabs( x.x() ) > LX || std::fabs( x.y() ) > LY ) continue; }
      ok = true;
      for( size_t j = 0; j < xs.size() && ok; ++j ) if( pd( xs[j] - x ).norm() < ( rs[j] + rad ) * ( ov ? ( S.kind ? 0.85 : 0.97 ) : 1.0 ) ) ok = false;
    }
    if( !ok && k > 0 ) continue;
    xs.push_back( x ); rs.push_back( rad ); fx.push_back( f ); gi.push_back( unsigned( g ) );
    scalar m, I; geo[g]->computeMassAndInertia( r.logu( 0.2, 5.0 ), m, I );
    mm.push_back( m ); II.push_back( I );
    th.push_back( r.u( -4, 4 ) );
    const bool rest = f ? r.chance( 0.5 ) : r.chance( 0.1 );
    const double fs = f ? 0.3 : 1.0;
    vx.push_back( rest ? 0.0 : fs * sp * r.gauss() + ( f ? 0.0 : drift.x() ) ); vy.push_back( rest ? 0.0 : fs * sp * r.gauss() + ( f ? 0.0 : drift.y() ) ); om.push_back( rest ? 0.0 : fs * r.u( -3, 3 ) );
    S.rmin = k ? std::min( S.rmin, rad ) : rad; S.rmax = k ? std::max( S.rmax, rad ) : rad;
  }
  const int nb = int( xs.size() );
  VectorXs q( 3 * nb ), v( 3 * nb ), M( 3 * nb ); VectorXu gidx( nb );
  for( int k = 0; k < nb; ++k ) { q.segment<3>( 3 * k ) << xs[k].x(), xs[k].y(), th[k]; v.segment<3>( 3 * k ) << vx[k], vy[k], om[k]; M.segment<3>( 3 * k ) << mm[k], mm[k], II[k]; gidx( k ) = gi[k]; }
  S.L = L;
  std::ostringstream d; d << "n=" << nb << " kind=" << S.kind << ( S.fixed ? " fixed" : "" );
  std::vector<RigidBody2DStaticPlane> planes; std::vector<PlanarPortal> portals; std::vector<std::unique_ptr<RigidBody2DForce>> forces;
  bool use_y = true, use_x = true;
  if( S.portal )
  {
    const RigidBody2DStaticPlane xa( Vector2s( -LX, 0 ), Vector2s( 1, 0 ) ), xb( Vector2s( LX, 0 ), Vector2s( -1, 0 ) );
    const RigidBody2DStaticPlane ya( Vector2s( 0, -LY ), Vector2s( 0, 1 ) ), yb( Vector2s( 0, LY ), Vector2s( 0, -1 ) );
    if( S.le )
    {
      const double vv = sp * r.u( 0.2, 1.5 ) * r.sgn();
      if( r.chance( 0.7 ) ) { portals.emplace_back( ya, yb, vv, LX ); portals.emplace_back( xa, xb ); }
      else { portals.emplace_back( yb, ya, vv, LX ); portals.emplace_back( xb, xa ); }
      use_x = use_y = false;
      S.shear = vv;
      d << " le=" << vv;
    }
    else
    {
      if( px ) portals.emplace_back( xa, xb );
      if( py ) portals.emplace_back( ya, yb );
      use_x = !px; use_y = !py;
      d << " portal" << ( px ? "x" : "" ) << ( py ? "y" : "" );
    }
  }
  if( r.chance( o.planes ) )
  {
    const bool tilt = !S.portal && r.chance( 0.5 );
    const double a = tilt ? r.u( 0, 2 * M_PI ) : 0.0; const double c = std::cos( a ), s = std::sin( a );
    const double D = ( tilt ? std::sqrt( 2.0 ) : 1.0 ) * L + r0 * ( ov ? 0.9 : 1.0001 ) * r.u( 1.0, 1.3 );
    auto add = [&]( const Vector2s& nn, double dd ) { const Vector2s nr( c * nn.x() - s * nn.y(), s * nn.x() + c * nn.y() ); if( !S.portal && r.chance( 0.6 ) ) { dd = -1.0e300; for( size_t k = 0; k < xs.size(); ++k ) if( !fx[k] || S.kind == 0 ) dd = std::max( dd, rs[k] - nr.dot( xs[k] ) ); dd += r0 * r.u( ov ? -0.02 : 1.0e-4, 0.02 ); } planes.emplace_back( -dd * nr, nr ); if( r.chance( o.moving ) ) { planes.back().setV( Vector2s( 0.3 * sp * r.gauss(), 0.3 * sp * r.gauss() ) ); planes.back().setOmega( r.u( -0.5, 0.5 ) ); S.moving = true; } };
    if( use_y ) { add( Vector2s( 0, 1 ), D ); if( r.chance( 0.5 ) ) add( Vector2s( 0, -1 ), D ); }
    if( use_x && r.chance( 0.7 ) ) { add( Vector2s( 1, 0 ), D ); add( Vector2s( -1, 0 ), D ); }
    S.planes = !planes.empty();
    d << " planes=" << planes.size();
  }
  S.gravity = r.chance( o.gravity );
  if( S.gravity ) { const double a = r.chance( 0.6 ) ? -M_PI / 2 : r.u( 0, 2 * M_PI ); S.g = r.u( 1.0, 12.0 ) * r0 * Vector2s( std::cos( a ), std::sin( a ) ); forces.emplace_back( new NearEarthGravityForce( S.g ) ); d << " g"; }
  S.sim.state() = RigidBody2DState( q, v, M, fx, gidx, geo, forces, planes, portals );
  S.desc = d.str();
  return S;
}
