#include "ball2d/Ball2DSim.h"
#include "ball2d/Ball2DUtilities.h"
#include "ball2d/PythonScripting.h"
#include "ball2d/SymplecticEulerMap.h"
#include "ball2d/VerletMap.h"
#include "ball2d/Forces/Ball2DGravityForce.h"
#include "ball2d/Forces/PenaltyForce.h"
#include "ball2d/Constraints/BallBallConstraint.h"
#include "ball2d/Constraints/BallStaticDrumConstraint.h"
#include "ball2d/Constraints/BallStaticPlaneConstraint.h"
#include "ball2d/Constraints/KinematicKickBallBallConstraint.h"
typedef Ball2DSim Sim;
namespace SimUtil = Ball2DUtilities;

struct Scene
{
  Sim sim;
  bool portal = false, le = false, planes = false, curved = false, gravity = false, fixed = false, penalty = false, moving = false;
  int kind = 0;
  double L = 1, rmin = 1, rmax = 1, LX = 0, LY = 0, LZ = 0, shear = 0; // periodic half widths (0: not periodic); velocity of the upper neighbour cell
  Vector2s g = Vector2s::Zero();
  std::string desc;
  bool kind_round() const { return true; }
  Caps caps() const { Caps c; c.cache = !portal; c.gs = !portal && !planes && !curved; c.gap = !curved; c.smooth = c.disk = !le; return c; }
};

inline int nBodies( const Sim& s ) { return int( s.state().nballs() ); }
inline VectorXs& Q( Sim& s ) { return s.state().q(); }
inline VectorXs& V( Sim& s ) { return s.state().v(); }
inline double bodyMass( const Sim& s, const int b ) { return s.state().M().coeff( 2 * b, 2 * b ); }
inline double kinetic( Sim& s ) { return s.state().computeKineticEnergy(); }
inline double potential( Sim& s ) { return s.state().computePotentialEnergy(); }

inline std::unique_ptr<UnconstrainedMap> mkUMap( const int k, std::string& d ) { if( k == 0 ) { d += "symplectic_euler"; return std::unique_ptr<UnconstrainedMap>( new SymplecticEulerMap ); } d += "verlet"; return std::unique_ptr<UnconstrainedMap>( new VerletMap ); }
inline int numUMaps() { return 2; }
inline std::unique_ptr<UnconstrainedMap> pickUMap( vf::Rng& r, std::string& d ) { return mkUMap( r.i( 0, 1 ), d ); }

inline Scene mkScene( vf::Rng& r, const Opt& o )
{
  Scene S;
  const int n = r.i( o.nmin, o.nmax );
  const double r0 = r.logu( 0.05, 2.0 );
  const bool packed = r.chance( o.packed ), ov = r.chance( o.overlap );
  const double L = r0 * ( 2.0 + std::sqrt( double( n ) ) * ( packed ? r.u( 1.05, 1.4 ) : r.u( 1.5, 4.0 ) ) );
  const double sp = o.speed * r0 * r.logu( 0.2, 5.0 );
  const Vector2s drift = r.chance( 0.3 ) ? Vector2s( 0.3 * sp * r.gauss(), 0.3 * sp * r.gauss() ) : Vector2s( 0, 0 );
  const double var = r.chance( 0.3 ) ? 0.0 : r.u( 0.05, 0.6 );
  S.portal = r.chance( o.portal );
  S.le = S.portal && r.chance( o.le );
  const bool px = S.portal && ( S.le || r.chance( 0.7 ) ), py = S.portal && ( S.le || !px || r.chance( 0.4 ) );
  const double LX = px ? 1.02 * L + 0.1 * r0 : L, LY = py ? 1.02 * L + 0.1 * r0 : L;
  auto pd = [&]( Vector2s d ) { if( px ) d.x() -= 2.0 * LX * std::round( d.x() / ( 2.0 * LX ) ); if( py ) d.y() -= 2.0 * LY * std::round( d.y() / ( 2.0 * LY ) ); return d; };
  auto wrap = [&]( const Vector2s& x ) { return S.portal ? pd( x ) : x; };
  if( px ) S.LX = LX; if( py ) S.LY = LY;
  std::vector<Vector2s> xs; std::vector<double> rs;
  for( int k = 0; k < n; ++k )
  {
    const double rad = r0 * ( 1.0 - var * r.u() );
    Vector2s x; bool ok = false;
    for( int t = 0; t < 60 && !ok; ++t )
    {
      x << r.u( -LX, LX ), r.u( -LY, LY );
      if( packed && !xs.empty() && r.chance( 0.7 ) ) { const int j = r.i( 0, int( xs.size() ) - 1 ); const double a = r.u( 0, 2 * M_PI ); x = xs[j] + ( rs[j] + rad ) * ( 1.0 + 1.0e-3 * r.u( ov ? -5.0 : 0.01, 5.0 ) ) * Vector2s( std::cos( a ), std::sin( a ) ); x = wrap( x ); if( std::fabs( x.x() ) > LX || std::fabs( x.y() ) > LY ) continue; }
      ok = true;
      for( size_t j = 0; j < xs.size() && ok; ++j ) if( pd( xs[j] - x ).norm() < ( rs[j] + rad ) * ( ov ? 0.97 : 1.0 ) ) ok = false;
    }
    if( !ok && k > 0 ) continue;
    xs.push_back( x ); rs.push_back( rad );
    Vector2s v( sp * r.gauss(), sp * r.gauss() );
    if( r.chance( 0.1 ) ) v.setZero();
    S.sim.state().pushBallBack( x, v + drift, rad, r.logu( 0.1, 10.0 ), false );
    S.rmin = k ? std::min( S.rmin, rad ) : rad; S.rmax = k ? std::max( S.rmax, rad ) : rad;
  }
  S.L = L;
  std::ostringstream d; d << "n=" << xs.size();
  auto& st = S.sim.state();
  bool use_y = true, use_x = true;
  if( S.portal )
  {
    const StaticPlane xa( Vector2s( -LX, 0 ), Vector2s( 1, 0 ) ), xb( Vector2s( LX, 0 ), Vector2s( -1, 0 ) );
    const StaticPlane ya( Vector2s( 0, -LY ), Vector2s( 0, 1 ) ), yb( Vector2s( 0, LY ), Vector2s( 0, -1 ) );
    if( S.le )
    {
      const double v = sp * r.u( 0.2, 1.5 ) * r.sgn();
      if( r.chance( 0.7 ) ) { st.planarPortals().emplace_back( ya, yb, v, LX ); st.planarPortals().emplace_back( xa, xb, 0.0, 0.0 ); }
      else { st.planarPortals().emplace_back( yb, ya, v, LX ); st.planarPortals().emplace_back( xb, xa, 0.0, 0.0 ); }
      use_x = use_y = false;
      S.shear = v;
      d << " le=" << v;
    }
    else
    {
      if( px ) st.planarPortals().emplace_back( xa, xb, 0.0, 0.0 );
      if( py ) st.planarPortals().emplace_back( ya, yb, 0.0, 0.0 );
      use_x = !px; use_y = !py;
      d << " portal" << ( px ? "x" : "" ) << ( py ? "y" : "" );
    }
  }
  if( r.chance( o.planes ) )
  {
    const bool tilt = !S.portal && r.chance( 0.5 );
    const double a = tilt ? r.u( 0, 2 * M_PI ) : 0.0; const double c = std::cos( a ), s = std::sin( a );
    const double D = ( tilt ? std::sqrt( 2.0 ) : 1.0 ) * L + r0 * ( ov ? 0.9 : 1.0001 ) * r.u( 1.0, 1.3 );
    auto add = [&]( const Vector2s& nn, double dd ) { const Vector2s nr( c * nn.x() - s * nn.y(), s * nn.x() + c * nn.y() ); if( !S.portal && r.chance( 0.6 ) ) { dd = -1.0e300; for( size_t k = 0; k < xs.size(); ++k ) dd = std::max( dd, rs[k] - nr.dot( xs[k] ) ); dd += r0 * r.u( ov ? -0.02 : 1.0e-4, 0.02 ); } st.staticPlanes().emplace_back( -dd * nr, nr ); if( r.chance( o.moving ) ) { st.staticPlanes().back().v() = Vector2s( 0.3 * sp * r.gauss(), 0.3 * sp * r.gauss() ); S.moving = true; } };
    if( use_y ) { add( Vector2s( 0, 1 ), D ); if( r.chance( 0.5 ) ) add( Vector2s( 0, -1 ), D ); }
    if( use_x && r.chance( 0.7 ) ) { add( Vector2s( 1, 0 ), D ); add( Vector2s( -1, 0 ), D ); }
    S.planes = !st.staticPlanes().empty();
    d << " planes=" << st.staticPlanes().size();
  }
  if( !S.portal && r.chance( o.curved ) ) { double R = std::sqrt( 2.0 ) * L + r0 * r.u( 1.0001, 1.3 ); if( r.chance( 0.7 ) ) { R = 0.0; for( size_t k = 0; k < xs.size(); ++k ) R = std::max( R, xs[k].norm() + rs[k] ); R += r0 * r.u( ov ? -0.02 : 1.0e-4, 0.02 ); } st.staticDrums().emplace_back( Vector2s( 0, 0 ), R ); S.curved = true; d << " drum"; }
  S.gravity = r.chance( o.gravity );
  if( S.gravity ) { const double a = r.chance( 0.6 ) ? -M_PI / 2 : r.u( 0, 2 * M_PI ); S.g = r.u( 1.0, 12.0 ) * r0 * Vector2s( std::cos( a ), std::sin( a ) ); st.forces().emplace_back( new Ball2DGravityForce( S.g ) ); d << " g"; }
  if( r.chance( o.penalty ) ) { st.forces().emplace_back( new PenaltyForce( r.logu( 10.0, 1000.0 ), r.chance( 0.5 ) ? 2.5 : r.chance( 0.7 ) ? 2.0 : r.u( 1.5, 3.5 ) ) ); S.penalty = true; d << " penalty"; }
  S.desc = d.str();
  return S;
}
