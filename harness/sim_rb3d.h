#include "rigidbody3d/RigidBody3DSim.h"
#include "rigidbody3d/RigidBody3DUtilities.h"
#include "rigidbody3d/PythonScripting.h"
#include "rigidbody3d/UnconstrainedMaps/ExponentialEulerMap.h"
#include "rigidbody3d/UnconstrainedMaps/SplitHamMap.h"
#include "rigidbody3d/UnconstrainedMaps/DMVMap.h"
#include "rigidbody3d/Forces/NearEarthGravityForce.h"
#include "rigidbody3d/Geometry/RigidBodySphere.h"
#include "rigidbody3d/Geometry/RigidBodyBox.h"
#include "rigidbody3d/Geometry/RigidBodyStaple.h"
#include "rigidbody3d/Geometry/RigidBodyTriangleMesh.h"
#include "rigidbody3d/StaticGeometry/StaticPlane.h"
#include "rigidbody3d/StaticGeometry/StaticCylinder.h"
#include "rigidbody3d/Portals/PlanarPortal.h"
typedef RigidBody3DSim Sim;
namespace SimUtil = RigidBody3DUtilities;

struct Scene
{
  Sim sim;
  bool portal = false, le = false, planes = false, curved = false, gravity = false, fixed = false, penalty = false, moving = false;
  int kind = 0;
  double L = 1, rmin = 1, rmax = 1, LX = 0, LY = 0, LZ = 0, shear = 0;
  Vector3s g = Vector3s::Zero();
  std::string desc;
  bool kind_round() const { return kind == 0; }
  Caps caps() const { Caps c; c.pts = kind == 0; c.cache = !portal && kind == 0; c.gs = kind == 0 && !curved && !fixed && !portal && sim.state().numStaticPlanes() <= 1; c.lcp = !( kind == 2 && curved ); c.disk = !fixed && c.lcp; c.smooth = c.lcp; c.gap = kind == 0 && !portal; return c; }
};

inline int nBodies( const Sim& s ) { return int( s.state().nbodies() ); }
inline VectorXs& Q( Sim& s ) { return s.state().q(); }
inline VectorXs& V( Sim& s ) { return s.state().v(); }
inline double bodyMass( const Sim& s, const int b ) { return s.state().getTotalMass( unsigned( b ) ); }
inline double kinetic( Sim& s ) { return s.computeKineticEnergy(); }
inline double potential( Sim& s ) { return s.computePotentialEnergy(); }

inline std::unique_ptr<UnconstrainedMap> mkUMap( int k, std::string& d ) {
  #ifdef VF_NO_DMV
  k = k % 2; // its iteration does not converge for large angular displacements
  #endif
  if( k == 0 ) { d += "exponential_euler"; return std::unique_ptr<UnconstrainedMap>( new ExponentialEulerMap ); } if( k == 1 ) { d += "split_ham"; return std::unique_ptr<UnconstrainedMap>( new SplitHamMap ); } d += "dmv"; return std::unique_ptr<UnconstrainedMap>( new DMVMap ); }
inline int numUMaps() { return 3; }
inline std::unique_ptr<UnconstrainedMap> pickUMap( vf::Rng& r, std::string& d ) { return mkUMap( r.i( 0, 2 ), d ); }

inline Matrix33sr randRot( vf::Rng& r )
{
  Eigen::Quaternion<scalar> q( r.gauss(), r.gauss(), r.gauss(), r.gauss() );
  q.normalize();
  Matrix33sr R; R = q.toRotationMatrix();
  return R;
}

// A box-shaped triangle mesh with an exact signed distance field, in the stream format the library itself writes.
inline double boxSDF( const Vector3s& x, const Vector3s& h )
{
  const Vector3s d = x.cwiseAbs() - h;
  return d.cwiseMax( 0.0 ).norm() + std::min( d.maxCoeff(), 0.0 );
}
inline std::unique_ptr<RigidBodyGeometry> mkBoxMesh( const Vector3s& h, const int cells = 10 )
{
  Matrix3Xsc verts( 3, 8 );
  for( int k = 0; k < 8; ++k ) verts.col( k ) << ( k & 1 ? h.x() : -h.x() ), ( k & 2 ? h.y() : -h.y() ), ( k & 4 ? h.z() : -h.z() );
  static const unsigned F[12][3] = { {0,2,1},{1,2,3}, {4,5,6},{5,7,6}, {0,1,4},{1,5,4}, {2,6,3},{3,6,7}, {0,4,2},{2,4,6}, {1,3,5},{3,7,5} };
  Matrix3Xuc faces( 3, 12 );
  for( int k = 0; k < 12; ++k ) faces.col( k ) << F[k][0], F[k][1], F[k][2];
  const scalar vol = 8.0 * h.prod();
  const Vector3s I = vol / 3.0 * Vector3s( h.y() * h.y() + h.z() * h.z(), h.x() * h.x() + h.z() * h.z(), h.x() * h.x() + h.y() * h.y() );
  // surface samples: corners, edge and face points
  std::vector<Vector3s> smp;
  for( int i = -1; i <= 1; ++i ) for( int j = -1; j <= 1; ++j ) for( int k = -1; k <= 1; ++k ) if( i || j || k ) smp.push_back( Vector3s( i * h.x(), j * h.y(), k * h.z() ) );
  Matrix3Xsc samples( 3, int( smp.size() ) );
  for( size_t k = 0; k < smp.size(); ++k ) samples.col( int( k ) ) = smp[k];
  Vector3u dims; Vector3s origin, delta;
  for( int k = 0; k < 3; ++k ) { dims( k ) = unsigned( cells + 1 ); origin( k ) = -1.3 * h( k ); delta( k ) = 2.6 * h( k ) / cells; }
  VectorXs sdf( ( cells + 1 ) * ( cells + 1 ) * ( cells + 1 ) );
  for( int z = 0; z <= cells; ++z ) for( int y = 0; y <= cells; ++y ) for( int x = 0; x <= cells; ++x )
    sdf( x + ( cells + 1 ) * ( y + ( cells + 1 ) * z ) ) = boxSDF( origin + Vector3s( x * delta.x(), y * delta.y(), z * delta.z() ), h );
  const Vector3s end = origin + cells * delta;
  std::stringstream s;
  StringUtilities::serialize( std::string( "mesh.h5" ), s );
  MathUtilities::serialize( verts, s ); MathUtilities::serialize( faces, s ); Utilities::serialize( vol, s ); MathUtilities::serialize( I, s );
  MathUtilities::serialize( Vector3s( Vector3s::Zero() ), s ); MathUtilities::serialize( Matrix3s( Matrix3s::Identity() ), s );
  MathUtilities::serialize( samples, s ); MathUtilities::serialize( verts, s ); MathUtilities::serialize( delta, s ); MathUtilities::serialize( dims, s );
  MathUtilities::serialize( origin, s ); MathUtilities::serialize( sdf, s ); MathUtilities::serialize( end, s );
  return std::unique_ptr<RigidBodyGeometry>( new RigidBodyTriangleMesh( s ) );
}

struct Bodies3
{
  std::vector<Vector3s> X, V, omega, I0; std::vector<scalar> M; std::vector<VectorXs> R; std::vector<bool> fixed; std::vector<unsigned> gi; std::vector<std::unique_ptr<RigidBodyGeometry>> geo;
  void add( const Vector3s& x, const Vector3s& v, const Matrix33sr& Rm, const Vector3s& w, const unsigned g, const scalar& rho, const bool f )
  {
    scalar m; Vector3s cm, I; Matrix33sr Rg; geo[g]->computeMassAndInertia( rho, m, cm, I, Rg );
    VectorXs r9( 9 ); Eigen::Map<Matrix33sr>( r9.data() ) = Rm;
    X.push_back( x ); V.push_back( v ); omega.push_back( w ); I0.push_back( I ); M.push_back( m ); R.push_back( r9 ); fixed.push_back( f ); gi.push_back( g );
  }
  void set( RigidBody3DState& s ) const { s.setState( X, V, M, R, omega, I0, fixed, gi, geo ); }
};

inline PlanarPortal mkPortal3( const Vector3s& xa, const Vector3s& na, const Vector3s& xb, const Vector3s& nb )
{
  const StaticPlane a( xa, na ), b( xb, nb );
  Array3i m( 1, a.t0().dot( b.t0() ) > 0 ? -1 : 1, a.t1().dot( b.t1() ) > 0 ? -1 : 1 );
  return PlanarPortal( a, b, m );
}

inline Scene mkScene( vf::Rng& r, const Opt& o )
{
  Scene S;
  const int n = r.i( o.nmin, o.nmax );
  const double r0 = r.logu( 0.1, 2.0 );
  const bool packed = r.chance( o.packed ), ov = r.chance( o.overlap );
  const double L = r0 * ( 2.0 + std::cbrt( double( n ) ) * ( packed ? r.u( 1.05, 1.3 ) : r.u( 1.5, 3.0 ) ) );
  const double sp = o.speed * r0 * r.logu( 0.2, 5.0 );
  S.portal = r.chance( o.portal ) && o.kind <= 0;
  const int which = S.portal ? r.i( 1, 3 ) : 0;
  Vector3s LL( L, L, L ); if( which & 1 ) LL.x() = 1.02 * L + 0.1 * r0; if( which & 2 ) LL.z() = 1.02 * L + 0.1 * r0;
  if( which & 1 ) S.LX = LL.x(); if( which & 2 ) S.LZ = LL.z();
  auto pd = [&]( Vector3s d ) { if( which & 1 ) d.x() -= 2.0 * LL.x() * std::round( d.x() / ( 2.0 * LL.x() ) ); if( which & 2 ) d.z() -= 2.0 * LL.z() * std::round( d.z() / ( 2.0 * LL.z() ) ); return d; };
  static const std::vector<int> kinds{ 0, 0, 0, 1, 1, 2 };
  S.kind = o.kind >= 0 ? o.kind : ( S.portal ? 0 : r.pick( kinds ) );
  S.fixed = !S.portal && S.kind != 3 && r.chance( o.fixed );
  const Vector3s drift = r.chance( 0.3 ) ? Vector3s( 0.3 * sp * r.gauss(), 0.3 * sp * r.gauss(), 0.3 * sp * r.gauss() ) : Vector3s( 0, 0, 0 );
  Bodies3 B; std::vector<double> brad;
  const int ng = r.i( 1, 3 );
  for( int k = 0; k < ng; ++k )
  {
    const double s = r0 * r.u( 0.4, 1.0 );
    const Vector3s h( s * r.u( 0.2, 0.57 ), s * r.u( 0.2, 0.57 ), s * r.u( 0.2, 0.57 ) );
    if( S.kind == 0 ) { B.geo.emplace_back( new RigidBodySphere( s ) ); brad.push_back( s ); }
    else if( S.kind == 1 ) { B.geo.emplace_back( new RigidBodyBox( h ) ); brad.push_back( h.norm() ); }
    else if( S.kind == 2 ) { B.geo.emplace_back( mkBoxMesh( h ) ); brad.push_back( h.norm() ); }
    else { B.geo.emplace_back( new RigidBodyStaple( s, s * r.u( 0.5, 1.0 ), 0.1 * s ) ); brad.push_back( 1.5 * s ); }
  }
  std::vector<Vector3s> xs; std::vector<double> rs;
  for( int k = 0; k < n; ++k )
  {
    const bool f = S.fixed && k > 0 && r.chance( 0.25 );
    const unsigned g = unsigned( r.i( 0, ng - 1 ) );
    const double rad = brad[g];
    Vector3s x; bool ok = false;
    for( int t = 0; t < 60 && !ok; ++t )
    {
      x << r.u( -LL.x(), LL.x() ), r.u( -L, L ), r.u( -LL.z(), LL.z() );
      if( packed && !xs.empty() && r.chance( 0.8 ) ) { const int j = r.i( 0, int( xs.size() ) - 1 ); Vector3s dd( r.gauss(), r.gauss(), r.gauss() ); dd.normalize(); x = xs[j] + ( rs[j] + rad ) * ( 1.0 + 1.0e-3 * r.u( ov ? -5.0 : 0.01, 5.0 ) ) * ( S.kind ? 0.8 : 1.0 ) * dd; x = pd( x ); if( ( x.cwiseAbs() - LL ).maxCoeff() > 0 ) continue; }
      ok = true;
      const double tol = S.kind == 3 ? 1.0 : ( S.kind ? ( ov ? 0.7 : 0.8 ) : ( ov ? 0.97 : 1.0 ) );
      for( size_t j = 0; j < xs.size() && ok; ++j ) if( pd( xs[j] - x ).norm() < ( rs[j] + rad ) * tol ) ok = false;
    }
    if( !ok && k > 0 ) continue;
    xs.push_back( x ); rs.push_back( rad );
    const bool rest = f || r.chance( 0.1 );
    const Vector3s v = rest ? Vector3s( 0, 0, 0 ) : Vector3s( sp * r.gauss() + drift.x(), sp * r.gauss() + drift.y(), sp * r.gauss() + drift.z() );
    const Vector3s w = rest ? Vector3s( 0, 0, 0 ) : Vector3s( r.u( -3, 3 ), r.u( -3, 3 ), r.u( -3, 3 ) );
    Matrix33sr Rm = r.chance( 0.2 ) ? Matrix33sr( Matrix33sr::Identity() ) : randRot( r );
    B.add( x, v, Rm, w, g, r.logu( 0.2, 5.0 ), f );
    S.rmin = k ? std::min( S.rmin, rad ) : rad; S.rmax = k ? std::max( S.rmax, rad ) : rad;
  }
  auto& st = S.sim.state();
  B.set( st );
  S.L = L;
  std::ostringstream d; d << "n=" << xs.size() << " kind=" << S.kind << ( S.fixed ? " fixed" : "" );
  bool use_x = true;
  if( S.portal )
  {
    if( which & 1 ) st.addPlanarPortal( mkPortal3( Vector3s( -LL.x(), 0, 0 ), Vector3s( 1, 0, 0 ), Vector3s( LL.x(), 0, 0 ), Vector3s( -1, 0, 0 ) ) );
    if( which & 2 ) st.addPlanarPortal( mkPortal3( Vector3s( 0, 0, -LL.z() ), Vector3s( 0, 0, 1 ), Vector3s( 0, 0, LL.z() ), Vector3s( 0, 0, -1 ) ) );
    use_x = false;
    d << " portal" << which;
  }
  if( S.kind != 3 && r.chance( o.planes ) )
  {
    const bool tilt = !S.portal && r.chance( 0.5 );
    Matrix33sr T = tilt ? randRot( r ) : Matrix33sr( Matrix33sr::Identity() );
    const double D = ( tilt ? std::sqrt( 3.0 ) : 1.0 ) * L + r0 * ( ov ? 0.9 : 1.0001 ) * r.u( 1.0, 1.3 );
    auto add = [&]( const Vector3s& nn ) { const Vector3s nr = ( T * nn ).normalized(); double dd = D; if( !S.portal && r.chance( 0.6 ) ) { dd = -1.0e300; for( size_t k = 0; k < xs.size(); ++k ) dd = std::max( dd, rs[k] * ( S.kind ? 0.9 : 1.0 ) - nr.dot( xs[k] ) ); dd += r0 * r.u( ov ? -0.02 : 1.0e-4, 0.02 ); } StaticPlane p( -dd * nr, nr ); if( r.chance( o.moving ) ) { p.v() = Vector3s( 0.3 * sp * r.gauss(), 0.3 * sp * r.gauss(), 0.3 * sp * r.gauss() ); p.omega() = Vector3s( r.u( -0.3, 0.3 ), r.u( -0.3, 0.3 ), r.u( -0.3, 0.3 ) ); S.moving = true; } st.addStaticPlane( p ); };
    add( Vector3s( 0, 1, 0 ) ); if( r.chance( 0.5 ) ) add( Vector3s( 0, -1, 0 ) );
    if( use_x && r.chance( 0.7 ) ) { add( Vector3s( 1, 0, 0 ) ); add( Vector3s( -1, 0, 0 ) ); if( r.chance( 0.5 ) ) { add( Vector3s( 0, 0, 1 ) ); add( Vector3s( 0, 0, -1 ) ); } }
    S.planes = true;
    d << " planes=" << st.numStaticPlanes();
  }
  if( !S.portal && ( S.kind == 0 || S.kind == 2 ) && r.chance( o.curved ) )
  {
    Vector3s ax( r.gauss(), r.gauss(), r.gauss() ); ax.normalize();
    double R = std::sqrt( 3.0 ) * L + r0 * r.u( 1.0001, 1.3 ); if( r.chance( 0.7 ) ) { R = 0.0; for( size_t k = 0; k < xs.size(); ++k ) R = std::max( R, ( xs[k] - xs[k].dot( ax ) * ax ).norm() + rs[k] ); R += r0 * r.u( ov ? -0.02 : 1.0e-4, 0.02 ); }
    StaticCylinder c( Vector3s( 0, 0, 0 ), ax, R );
    if( r.chance( o.moving ) && S.kind == 0 ) { c.omega() = r.u( -0.5, 0.5 ) * ax; S.moving = true; }
    st.addStaticCylinder( c ); S.curved = true; d << " cylinder";
  }
  S.gravity = r.chance( o.gravity );
  if( S.gravity ) { Vector3s u( r.gauss(), r.gauss(), r.gauss() ); u.normalize(); if( r.chance( 0.6 ) ) u = Vector3s( 0, -1, 0 ); S.g = r.u( 1.0, 12.0 ) * r0 * u; st.addForce( NearEarthGravityForce( S.g ) ); d << " g"; }
  S.desc = d.str();
  return S;
}
