// C18: mass, centre of mass, inertia, mass matrices and bounds against the solid they belong to.
#include "sim.h"
#if VSIM == 3
#include "rigidbody3d/Geometry/MomentTools.h"
#endif
#include <sys/wait.h>

static double rel( const double a, const double b ) { return std::fabs( a - b ) / std::max( std::fabs( b ), 1.0e-300 ); }

#if VSIM == 3
typedef Eigen::Matrix<double,3,3> M3;
struct Solid { double m = 0; Vector3s c = Vector3s::Zero(); M3 I = M3::Zero(); }; // unit density, inertia about c

// signed tetrahedra over the triangles, referred to a vertex of the mesh
static Solid meshSolid( const Matrix3Xsc& x, const Matrix3Xuc& f )
{
  Vector3s o = x.rowwise().mean();
  double V = 0; Vector3s S = Vector3s::Zero(); M3 C = M3::Zero();
  for( long k = 0; k < f.cols(); ++k )
  {
    const Vector3s a = x.col( f( 0, k ) ) - o, b = x.col( f( 1, k ) ) - o, d = x.col( f( 2, k ) ) - o;
    const double v = a.dot( b.cross( d ) ) / 6.0; const Vector3s s = a + b + d;
    V += v; S += v / 4.0 * s; C += v / 20.0 * ( a * a.transpose() + b * b.transpose() + d * d.transpose() + s * s.transpose() );
  }
  Solid r; r.m = V; const Vector3s c = S / V; r.c = o + c; C -= V * c * c.transpose(); r.I = C.trace() * M3::Identity() - C; return r;
}
static void addCylinder( Solid& t, const double rho, const double r, const double len, const int axis, const Vector3s& c, const Vector3s& about )
{
  const double m = rho * M_PI * r * r * len; const Vector3s d = c - about;
  Vector3s own = Vector3s::Constant( m * ( 3.0 * r * r + len * len ) / 12.0 ); own( axis ) = 0.5 * m * r * r;
  t.I += M3( own.asDiagonal() ) + m * ( d.squaredNorm() * M3::Identity() - d * d.transpose() ); t.m += m;
}
static void unitSphere( const int rings, const int seg, Matrix3Xsc& x, Matrix3Xuc& f )
{
  std::vector<Vector3s> p; std::vector<Vector3u> t;
  p.push_back( Vector3s( 0, 0, 1 ) );
  for( int i = 1; i < rings; ++i ) for( int j = 0; j < seg; ++j ) { const double a = M_PI * i / rings, b = 2 * M_PI * j / seg; p.push_back( Vector3s( std::sin( a ) * std::cos( b ), std::sin( a ) * std::sin( b ), std::cos( a ) ) ); }
  p.push_back( Vector3s( 0, 0, -1 ) );
  auto id = [&]( int i, int j ) { return unsigned( 1 + ( i - 1 ) * seg + j % seg ); };
  for( int j = 0; j < seg; ++j ) { t.push_back( Vector3u( 0u, id( 1, j ), id( 1, j + 1 ) ) ); t.push_back( Vector3u( unsigned( p.size() - 1 ), id( rings - 1, j + 1 ), id( rings - 1, j ) ) ); }
  for( int i = 1; i + 1 < rings; ++i ) for( int j = 0; j < seg; ++j ) { t.push_back( Vector3u( id( i, j ), id( i + 1, j ), id( i + 1, j + 1 ) ) ); t.push_back( Vector3u( id( i, j ), id( i + 1, j + 1 ), id( i, j + 1 ) ) ); }
  x.resize( 3, long( p.size() ) ); f.resize( 3, long( t.size() ) );
  for( size_t k = 0; k < p.size(); ++k ) x.col( long( k ) ) = p[k];
  for( size_t k = 0; k < t.size(); ++k ) f.col( long( k ) ) = t[k];
}
static void torus( const int m, const int n, const double R, const double r, Matrix3Xsc& x, Matrix3Xuc& f )
{
  x.resize( 3, m * n ); f.resize( 3, 2 * m * n );
  for( int i = 0; i < m; ++i ) for( int j = 0; j < n; ++j ) { const double a = 2 * M_PI * i / m, b = 2 * M_PI * j / n; x.col( i * n + j ) << ( R + r * std::cos( b ) ) * std::cos( a ), ( R + r * std::cos( b ) ) * std::sin( a ), r * std::sin( b ); }
  auto id = [&]( int i, int j ) { return unsigned( ( i % m ) * n + j % n ); };
  for( int i = 0; i < m; ++i ) for( int j = 0; j < n; ++j ) { f.col( 2 * ( i * n + j ) ) << id( i, j ), id( i + 1, j ), id( i + 1, j + 1 ); f.col( 2 * ( i * n + j ) + 1 ) << id( i, j ), id( i + 1, j + 1 ), id( i, j + 1 ); }
}
static void boxMesh( const Vector3s& lo, const Vector3s& hi, Matrix3Xsc& x, Matrix3Xuc& f )
{
  x.resize( 3, 8 ); f.resize( 3, 12 );
  for( int k = 0; k < 8; ++k ) x.col( k ) << ( k & 1 ? hi.x() : lo.x() ), ( k & 2 ? hi.y() : lo.y() ), ( k & 4 ? hi.z() : lo.z() );
  static const unsigned F[12][3] = { {0,2,1},{1,2,3}, {4,5,6},{5,7,6}, {0,1,4},{1,5,4}, {2,6,3},{3,6,7}, {0,4,2},{2,4,6}, {1,3,5},{3,7,5} };
  for( int k = 0; k < 12; ++k ) f.col( k ) << F[k][0], F[k][1], F[k][2];
}

static void meshCase( vf::Ctx& c, vf::Rng& r )
{
  Matrix3Xsc x; Matrix3Xuc f; std::string what;
  switch( r.i( 0, 4 ) )
  {
    case 0: { what = "tetrahedron"; x.resize( 3, 4 ); do for( int k = 0; k < 4; ++k ) x.col( k ) << r.gauss(), r.gauss(), r.gauss(); while( std::fabs( ( x.col( 1 ) - x.col( 0 ) ).dot( ( x.col( 2 ) - x.col( 0 ) ).cross( x.col( 3 ) - x.col( 0 ) ) ) ) < 0.3 );
      f.resize( 3, 4 ); f.col( 0 ) << 0, 2, 1; f.col( 1 ) << 0, 1, 3; f.col( 2 ) << 1, 2, 3; f.col( 3 ) << 0, 3, 2; if( ( x.col( 1 ) - x.col( 0 ) ).dot( ( x.col( 2 ) - x.col( 0 ) ).cross( x.col( 3 ) - x.col( 0 ) ) ) < 0 ) f.row( 1 ).swap( f.row( 2 ) ); break; }
    case 1: { what = "star"; unitSphere( r.i( 2, 8 ), r.i( 3, 12 ), x, f ); for( long k = 0; k < x.cols(); ++k ) x.col( k ) *= r.u( 0.4, 1.6 ); break; }
    case 2: { what = "torus"; torus( r.i( 3, 12 ), r.i( 3, 9 ), 1.0, r.u( 0.1, 0.7 ), x, f ); break; }
    case 3: { what = "box"; const Vector3s h( r.u( 0.2, 1 ), r.u( 0.2, 1 ), r.u( 0.2, 1 ) ); boxMesh( -h, r.chance( 0.3 ) ? Vector3s( h.x() * r.u( 0.1, 2 ), h.y(), h.z() ) : h, x, f ); break; }
    default: { what = "shell"; Matrix3Xsc y; Matrix3Xuc g; unitSphere( r.i( 3, 6 ), r.i( 4, 9 ), x, f ); unitSphere( 3, 4, y, g ); const Vector3s s( r.u( -0.2, 0.2 ), r.u( -0.2, 0.2 ), r.u( -0.2, 0.2 ) ); y *= r.u( 0.1, 0.25 ); y.colwise() += s; g.row( 1 ).swap( g.row( 2 ) ); // a body with a cavity
      const long n = x.cols(), m = f.cols(); x.conservativeResize( 3, n + y.cols() ); f.conservativeResize( 3, m + g.cols() ); x.rightCols( y.cols() ) = y; f.rightCols( g.cols() ) = g.array() + unsigned( n ); }
  }
  // any pose, shape and size; an affine map keeps the mesh closed and (determinant > 0) oriented
  const double size = r.logu( 0.02, 20.0 );
  M3 A = M3( randRot( r ) ); if( r.chance( 0.6 ) ) { M3 D = Vector3s( r.logu( 0.3, 3 ), r.logu( 0.3, 3 ), r.logu( 0.3, 3 ) ).asDiagonal(); A = A * D * M3( randRot( r ) ); } else if( r.chance( 0.3 ) ) A = M3::Identity();
  const Vector3s t = r.chance( 0.2 ) ? Vector3s( 0, 0, 0 ) : Vector3s( size * r.logu( 0.1, 20.0 ) * Vector3s( r.gauss(), r.gauss(), r.gauss() ) );
  x = ( size * A * x ).colwise() + t;
  const Solid o = meshSolid( x, f );
  double m; Vector3s I, cm; Matrix3s R; MomentTools::computeMoments( x, f, m, I, cm, R );
  const double ext = ( x.colwise() - o.c ).colwise().norm().maxCoeff(), far = 1.0 + t.squaredNorm() / ( ext * ext );
  const double tol = 1.0e-12 * far * ( 1.0 + ext * ext * ext / o.m );
  const std::string d = vf::Msg() << what << " of size " << size << " at " << vf::vs( t );
  if( !( rel( m, o.m ) <= tol ) ) c.viol( "mesh_volume", vf::Msg() << d << ": volume " << m << ", solid has " << o.m );
  if( !( ( cm - o.c ).norm() <= 10.0 * tol * ( ext + t.norm() ) ) ) c.viol( "mesh_center", vf::Msg() << d << ": centre of mass " << vf::vs( cm ) << ", solid has " << vf::vs( o.c ) );
  if( !( ( R * R.transpose() - M3::Identity() ).cwiseAbs().maxCoeff() < 1.0e-12 && std::fabs( R.determinant() - 1.0 ) < 1.0e-12 ) ) c.viol( "mesh_axes", d + ": principal axes are no rotation " + vf::vs( R ) );
  const M3 Im = R * I.asDiagonal() * R.transpose();
  if( !( ( Im - o.I ).cwiseAbs().maxCoeff() <= 100.0 * tol * o.m * ext * ext ) ) c.viol( "mesh_inertia", vf::Msg() << d << ": inertia " << vf::vs( Im ) << ", solid has " << vf::vs( o.I ) );
  if( !( I.minCoeff() > 0 ) ) c.viol( "mesh_inertia_positive", d + ": " + vf::vs( I ) );
  c.stat( "meshes_judged" ); c.sample( vf::Msg() << d << ": volume " << m << ", principal inertia " << vf::vs( I ) << ", as the tetrahedra of the solid" ); c.seen( vf::hv( VectorXs( Eigen::Map<VectorXs>( x.data(), x.size() ) ) ) );
}

static void exactBox( const RigidBodyGeometry& g, const Vector3s& x, const Matrix33sr& R, Array3s& lo, Array3s& hi, double& size )
{
  lo.setConstant( 1e300 ); hi.setConstant( -1e300 );
  auto pt = [&]( const Vector3s& p, const double r ) { const Array3s w = ( R * p + x ).array(); lo = lo.min( w - r ); hi = hi.max( w + r ); };
  switch( g.getType() )
  {
    case RigidBodyGeometryType::SPHERE: pt( Vector3s( 0, 0, 0 ), static_cast<const RigidBodySphere&>( g ).r() ); break;
    case RigidBodyGeometryType::BOX: { const Vector3s h = static_cast<const RigidBodyBox&>( g ).halfWidths(); for( int k = 0; k < 8; ++k ) pt( Vector3s( k & 1 ? h.x() : -h.x(), k & 2 ? h.y() : -h.y(), k & 4 ? h.z() : -h.z() ), 0 ); break; }
    case RigidBodyGeometryType::STAPLE: { const RigidBodyStaple& s = static_cast<const RigidBodyStaple&>( g ); for( const Vector3s& p : s.points() ) pt( p, s.r() ); break; }
    default: { const RigidBodyTriangleMesh& t = static_cast<const RigidBodyTriangleMesh&>( g ); for( long k = 0; k < t.vertices().cols(); ++k ) pt( t.vertices().col( k ), 0 ); }
  }
  size = ( hi - lo ).maxCoeff();
}

static void shapeCase( vf::Ctx& c, vf::Rng& r )
{
  std::unique_ptr<RigidBodyGeometry> g; const double s = r.logu( 0.01, 50.0 ), rho = r.logu( 0.01, 1000.0 ); Solid o; std::string d; double vol = 0; bool judged_volume = true;
  const int k = r.i( 0, 3 );
  if( k == 0 ) { g.reset( new RigidBodySphere( s ) ); vol = 4.0 / 3.0 * M_PI * s * s * s; o.m = rho * vol; o.I = 0.4 * o.m * s * s * M3::Identity(); d = "sphere"; }
  else if( k == 1 ) { const Vector3s h( s * r.u( 0.1, 1 ), s * r.u( 0.1, 1 ), s * r.u( 0.1, 1 ) ); g.reset( new RigidBodyBox( h ) ); Matrix3Xsc x; Matrix3Xuc f; boxMesh( -h, h, x, f ); o = meshSolid( x, f ); vol = o.m; o.m *= rho; o.I *= rho; d = "box " + vf::vs( h ); }
  else if( k == 2 )
  {
    const double D = s * r.u( 0.05, 0.5 ), w = D + s * r.u( 0.05, 2 ), l = D + s * r.u( 0.05, 2 ), W = w - D, L = l - D;
    g.reset( new RigidBodyStaple( w, l, D ) ); judged_volume = false;
    const double ycm = L * L / ( 2.0 * L + W ); const Vector3s cm( 0, ycm, 0 ); // three cylinders, as the library announces
    addCylinder( o, rho, 0.5 * D, W, 0, Vector3s( 0, 0, 0 ), cm ); addCylinder( o, rho, 0.5 * D, L, 1, Vector3s( -0.5 * W, 0.5 * L, 0 ), cm ); addCylinder( o, rho, 0.5 * D, L, 1, Vector3s( 0.5 * W, 0.5 * L, 0 ), cm ); o.c = cm;
    d = vf::Msg() << "staple w=" << w << " l=" << l << " D=" << D;
    // the corners are placed about the centre of mass
    const std::vector<Vector3s>& p = static_cast<const RigidBodyStaple&>( *g ).points();
    if( p.size() != 4 || ( p[0] - ( Vector3s( -0.5 * W, L, 0 ) - cm ) ).norm() > 1e-12 * s || ( p[1] - ( Vector3s( -0.5 * W, 0, 0 ) - cm ) ).norm() > 1e-12 * s || ( p[2] - ( Vector3s( 0.5 * W, 0, 0 ) - cm ) ).norm() > 1e-12 * s || ( p[3] - ( Vector3s( 0.5 * W, L, 0 ) - cm ) ).norm() > 1e-12 * s ) c.viol( "staple_corners", d + ": corners are not about the centre of mass" );
  }
  else { const Vector3s h( s * r.u( 0.1, 1 ), s * r.u( 0.1, 1 ), s * r.u( 0.1, 1 ) ); g = mkBoxMesh( h, 4 ); const RigidBodyTriangleMesh& t = static_cast<const RigidBodyTriangleMesh&>( *g ); o = meshSolid( t.vertices(), t.faces() ); vol = o.m; o.m *= rho; o.I *= rho; d = "mesh " + vf::vs( h ); }
  if( r.chance( 0.3 ) ) g = g->clone();
  double m; Vector3s cm, I; Matrix33sr Rg; g->computeMassAndInertia( rho, m, cm, I, Rg );
  if( !( rel( m, o.m ) < 1e-12 ) ) c.viol( "mass/" + g->name(), vf::Msg() << d << ": mass " << m << ", solid has " << o.m );
  if( judged_volume && !( rel( g->volume(), vol ) < 1e-12 ) ) c.viol( "volume/" + g->name(), vf::Msg() << d << ": volume " << g->volume() << ", solid has " << vol );
  if( !( ( cm - o.c ).norm() <= 1e-12 * s ) ) c.viol( "center/" + g->name(), d + ": centre of mass " + vf::vs( cm ) + ", solid has " + vf::vs( o.c ) );
  const M3 Im = Rg * I.asDiagonal() * Rg.transpose();
  if( !( ( Im - o.I ).cwiseAbs().maxCoeff() <= 1e-12 * o.I.cwiseAbs().maxCoeff() ) ) c.viol( "inertia/" + g->name(), d + ": inertia " + vf::vs( Im ) + ", solid has " + vf::vs( o.I ) );
  c.stat( "shapes_judged" ); c.stat( "shape_" + g->name() );
  for( int t = 0; t < 4; ++t )
  {
    const Matrix33sr R = r.chance( 0.2 ) ? Matrix33sr( Matrix33sr::Identity() ) : randRot( r ); const Vector3s x = s * r.logu( 0.1, 30 ) * Vector3s( r.gauss(), r.gauss(), r.gauss() );
    Array3s lo, hi, a, b; double size; exactBox( *g, x, R, a, b, size ); g->computeAABB( x, R, lo, hi );
    const double e = std::max( ( lo - a ).abs().maxCoeff(), ( hi - b ).abs().maxCoeff() );
    if( !( e <= 1e-12 * ( size + x.norm() ) ) ) c.viol( "aabb/" + g->name(), vf::Msg() << d << ": box " << vf::vs( Vector3s( lo ) ) << vf::vs( Vector3s( hi ) ) << ", body occupies " << vf::vs( Vector3s( a ) ) << vf::vs( Vector3s( b ) ) );
    c.stat( "boxes_judged" );
  }
  c.seen( vf::fnv( &s, sizeof s ) );
}

static bool block( vf::Ctx& c, const std::string& key, const SparseMatrixsc& M, const std::vector<double>& m, const std::vector<M3>& I )
{
  const int n = int( m.size() );
  if( M.rows() != 6 * n || M.cols() != 6 * n ) { c.viol( key, vf::Msg() << "matrix is " << M.rows() << "x" << M.cols() << " for " << n << " bodies" ); return false; }
  const MatrixXs D( M ); MatrixXs E = MatrixXs::Zero( 6 * n, 6 * n ), T = E;
  for( int b = 0; b < n; ++b ) { E.block<3,3>( 3 * b, 3 * b ) = m[b] * M3::Identity(); E.block<3,3>( 3 * n + 3 * b, 3 * n + 3 * b ) = I[b]; T.block<3,3>( 3 * b, 3 * b ).setConstant( m[b] ); T.block<3,3>( 3 * n + 3 * b, 3 * n + 3 * b ).setConstant( I[b].cwiseAbs().maxCoeff() ); }
  for( int i = 0; i < 6 * n; ++i ) for( int j = 0; j < 6 * n; ++j ) if( !( std::fabs( D( i, j ) - E( i, j ) ) <= 1e-9 * T( i, j ) ) ) { c.viol( key, vf::Msg() << "entry " << i << "," << j << " is " << D( i, j ) << ", must be " << E( i, j ) ); return false; }
  return true;
}

static void checkState( vf::Ctx& c, Scene& S, const std::vector<double>& m, const std::vector<Vector3s>& I0, const std::string& when )
{
  const RigidBody3DState& st = S.sim.state(); const int n = nBodies( S.sim );
  std::vector<double> mi; std::vector<M3> I, Ii, D, Di;
  for( int b = 0; b < n; ++b )
  {
    const M3 R = Eigen::Map<const Matrix33sr>( st.q().data() + 3 * n + 9 * b );
    mi.push_back( 1.0 / m[b] ); D.push_back( M3( I0[b].asDiagonal() ) ); Di.push_back( M3( I0[b].cwiseInverse().asDiagonal() ) ); I.push_back( R * D[b] * R.transpose() ); Ii.push_back( R * Di[b] * R.transpose() );
    if( st.getTotalMass( unsigned( b ) ) != m[b] ) c.viol( "total_mass", vf::Msg() << when << ": body " << b << " weighs " << st.getTotalMass( unsigned( b ) ) << ", created with " << m[b] );
    const M3 gi = st.getInertia( unsigned( b ) );
    if( !( ( gi - I[b] ).cwiseAbs().maxCoeff() <= 1e-9 * I0[b].maxCoeff() ) ) c.viol( "inertia_of_body", vf::Msg() << when << ": body " << b << " inertia " << vf::vs( gi ) << ", orientation gives " << vf::vs( I[b] ) );
  }
  block( c, "M", st.M(), m, I ); block( c, "Minv", st.Minv(), mi, Ii ); block( c, "M0", st.M0(), m, D ); block( c, "Minv0", st.Minv0(), mi, Di );
  c.stat( "mass_matrices", 4 );
  Array3s lo = Array3s::Constant( 1e300 ), hi = -lo; double big = 0;
  for( int b = 0; b < n; ++b ) { Array3s a, e; double s; exactBox( st.getGeometryOfBody( unsigned( b ) ), st.q().segment<3>( 3 * b ), Eigen::Map<const Matrix33sr>( st.q().data() + 3 * n + 9 * b ), a, e, s ); lo = lo.min( a ); hi = hi.max( e ); big = std::max( big, a.abs().maxCoeff() + s ); }
  Array3s x, y; S.sim.computeBoundingBox( x( 0 ), y( 0 ), x( 1 ), y( 1 ), x( 2 ), y( 2 ) );
  if( !( ( x - lo ).abs().maxCoeff() <= 1e-12 * big && ( y - hi ).abs().maxCoeff() <= 1e-12 * big ) ) c.viol( "scene_box", vf::Msg() << when << ": scene box " << vf::vs( Vector3s( x ) ) << vf::vs( Vector3s( y ) ) << ", bodies occupy " << vf::vs( Vector3s( lo ) ) << vf::vs( Vector3s( hi ) ) );
  double rad; Vector3s cen; S.sim.computeBoundingSphere( rad, cen );
  for( int k = 0; k < 8; ++k ) { const Vector3s p( k & 1 ? lo.x() : hi.x(), k & 2 ? lo.y() : hi.y(), k & 4 ? lo.z() : hi.z() ); if( !( ( p - cen ).norm() <= rad * ( 1 + 1e-12 ) + 1e-12 * big ) ) c.viol( "scene_sphere", when + ": the bounding sphere misses a corner of the scene" ); }
  c.stat( "scenes_bounded" );
}

// violation_behavior="exit": a step that leaves a body outside the declared bounds ends the run, any other does not
static void boundaryCase( vf::Ctx& c, vf::Rng& r )
{
  Opt o; o.nmax = 6; o.portal = 0; o.curved = 0; o.kind = r.i( 0, 3 ); Scene S = mkScene( r, o );
  const int mode = S.kind == 3 ? 0 : r.i( 0, 2 ); vf::Rng again = r; Dyn D2 = mkDyn( again, mode, S.caps(), 1e-10, 200 ), D = mkDyn( r, mode, S.caps(), 1e-10, 200 );
  Scene ref; ref.sim = S.sim; D2.step( ref.sim );
  const int n = nBodies( ref.sim ); Array3s lo = Array3s::Constant( 1e300 ), hi = -lo; double big = 1e-300;
  for( int b = 0; b < n; ++b ) { Array3s a, e; double s; exactBox( ref.sim.state().getGeometryOfBody( unsigned( b ) ), ref.sim.state().q().segment<3>( 3 * b ), Eigen::Map<const Matrix33sr>( ref.sim.state().q().data() + 3 * n + 9 * b ), a, e, s ); lo = lo.min( a ); hi = hi.max( e ); big = std::max( big, a.abs().maxCoeff() + s ); }
  if( !vf::finite( ref.sim.state().q() ) ) throw vf::Abandon{ "abandoned_nonfinite" };
  const double eps = 1e-9 * big; Vector3s mn = ( lo - big ).matrix(), mx = ( hi + big ).matrix(); bool out = false;
  if( r.chance( 0.5 ) ) { const int k = r.i( 0, 2 ); const double e = eps * r.logu( 1, 1e6 ); out = r.chance( 0.5 ); if( r.chance( 0.5 ) ) mn( k ) = lo( k ) + ( out ? e : -e ); else mx( k ) = hi( k ) - ( out ? e : -e ); }
  const bool active = r.chance( 0.85 );
  S.sim.state().setBoundaryBehavior( active ? SimBoundaryBehavior::EXIT : SimBoundaryBehavior::NONE ); S.sim.state().setBoundaryMin( mn ); S.sim.state().setBoundaryMax( mx );
  fflush( c.out );
  const pid_t p = fork();
  if( p < 0 ) throw vf::Abandon{ "fork_failed" };
  if( p == 0 ) { const int n0 = open( "/dev/null", O_WRONLY ); dup2( n0, 1 ); dup2( n0, 2 ); D.step( S.sim ); _exit( 77 ); }
  int st = 0; waitpid( p, &st, 0 );
  const bool went_on = WIFEXITED( st ) && WEXITSTATUS( st ) == 77, stopped = WIFEXITED( st ) && WEXITSTATUS( st ) == EXIT_FAILURE, expect = active && out;
  if( expect ? !stopped : !went_on ) c.viol( expect ? "boundary_not_enforced" : "boundary_false_exit", vf::Msg() << S.desc << " " << D.desc << ": bounds " << vf::vs( mn ) << vf::vs( mx ) << ", bodies occupy " << vf::vs( Vector3s( lo ) ) << vf::vs( Vector3s( hi ) ) << ", status " << st );
  c.stat( "boundaries_judged" ); if( expect ) c.stat( "boundaries_left" );
}

static void stateCase( vf::Ctx& c, vf::Rng& r )
{
  Opt o; o.nmin = 1; o.nmax = 8; o.kind = r.chance( 0.5 ) ? r.i( 0, 3 ) : -1; if( r.chance( 0.3 ) ) o.speed = 4; Scene S = mkScene( r, o );
  std::vector<double> m; std::vector<Vector3s> I0;
  const RigidBody3DState& st = S.sim.state(); const int n = nBodies( S.sim );
  for( int b = 0; b < n; ++b ) { m.push_back( st.M0().coeff( 3 * b, 3 * b ) ); I0.push_back( Vector3s( st.M0().coeff( 3 * n + 3 * b, 3 * n + 3 * b ), st.M0().coeff( 3 * n + 3 * b + 1, 3 * n + 3 * b + 1 ), st.M0().coeff( 3 * n + 3 * b + 2, 3 * n + 3 * b + 2 ) ) ); }
  // masses go with the shapes: same geometry, inertia proportional to mass
  for( int b = 0; b < n; ++b ) { double g_m; Vector3s cm, I; Matrix33sr R; st.getGeometryOfBody( unsigned( b ) ).computeMassAndInertia( 1.0, g_m, cm, I, R ); if( !( ( I0[b] / m[b] - I / g_m ).cwiseAbs().maxCoeff() <= 1e-12 * ( I / g_m ).maxCoeff() ) ) c.viol( "state_inertia", "inertia of a body does not belong to its geometry" ); }
  checkState( c, S, m, I0, S.desc + " initially" );
  c.family( S.desc ); Dyn D = mkDyn( r, S.kind == 3 ? 0 : r.i( 0, 2 ), S.caps(), 1e-10, 200 ); const int steps = r.i( 1, 6 );
  for( int k = 1; k <= steps; ++k ) { D.step( S.sim ); if( !vf::finite( Q( S.sim ) ) || !vf::finite( V( S.sim ) ) ) { c.stat( "abandoned_nonfinite" ); return; } if( k == steps || r.chance( 0.4 ) ) checkState( c, S, m, I0, vf::Msg() << S.desc << " " << D.desc << " after step " << k ); }
  // moving the bodies by hand and refreshing
  for( int b = 0; b < n; ++b ) if( r.chance( 0.7 ) ) { Eigen::Map<Matrix33sr>( Q( S.sim ).data() + 3 * n + 9 * b ) = randRot( r ); Q( S.sim ).segment<3>( 3 * b ) *= r.u( 0.5, 1.5 ); }
  S.sim.state().updateMandMinv(); checkState( c, S, m, I0, S.desc + " after editing the poses" );
  c.seen( vf::hv( Q( S.sim ) ) );
}
static void one( vf::Ctx& c, vf::Rng& r, const long k )
{
  switch( k % 5 ) { case 0: meshCase( c, r ); break; case 1: case 2: shapeCase( c, r ); break; case 3: stateCase( c, r ); break; default: if( k % 20 == 4 ) boundaryCase( c, r ); else meshCase( c, r ); }
}
#else

static void diagonal( vf::Ctx& c, const std::string& key, const SparseMatrixsc& M, const std::vector<double>& d, const double tol, const std::string& when )
{
  const int n = int( d.size() );
  if( M.rows() != n || M.cols() != n ) { c.viol( key, vf::Msg() << when << ": matrix is " << M.rows() << "x" << M.cols() << " for " << n << " degrees of freedom" ); return; }
  const MatrixXs D( M );
  for( int i = 0; i < n; ++i ) for( int j = 0; j < n; ++j ) if( !( std::fabs( D( i, j ) - ( i == j ? d[i] : 0.0 ) ) <= ( i == j ? tol * d[i] : 0.0 ) ) ) { c.viol( key, vf::Msg() << when << ": entry " << i << "," << j << " is " << D( i, j ) << ", must be " << ( i == j ? d[i] : 0.0 ) ); return; }
}

#if VSIM == 2
static void exactBox( const RigidBody2DGeometry& g, const Vector2s& x, const double th, Array2s& lo, Array2s& hi, double& size )
{
  lo.setConstant( 1e300 ); hi.setConstant( -1e300 );
  if( g.type() == RigidBody2DGeometryType::CIRCLE ) { const double rad = static_cast<const CircleGeometry&>( g ).r(); lo = x.array() - rad; hi = x.array() + rad; }
  else { const Vector2s h = static_cast<const BoxGeometry&>( g ).r(); for( int k = 0; k < 4; ++k ) { const double u = k & 1 ? h.x() : -h.x(), v = k & 2 ? h.y() : -h.y(); const Array2s p( x.x() + std::cos( th ) * u - std::sin( th ) * v, x.y() + std::sin( th ) * u + std::cos( th ) * v ); lo = lo.min( p ); hi = hi.max( p ); } }
  size = ( hi - lo ).maxCoeff();
}
static void shapeCase( vf::Ctx& c, vf::Rng& r )
{
  const double s = r.logu( 0.01, 50.0 ), rho = r.logu( 0.01, 1000.0 ); std::unique_ptr<RigidBody2DGeometry> g; double M = 0, I = 0; std::string name;
  if( r.chance( 0.4 ) ) { g.reset( new CircleGeometry( s ) ); M = rho * M_PI * s * s; I = 0.5 * M * s * s; name = "circle"; }
  else
  {
    const Vector2s h( s * r.u( 0.05, 1 ), s * r.u( 0.05, 1 ) ); g.reset( new BoxGeometry( h ) ); name = "box"; // four triangles about the centre
    const Vector2s p[4] = { Vector2s( -h.x(), -h.y() ), Vector2s( h.x(), -h.y() ), Vector2s( h.x(), h.y() ), Vector2s( -h.x(), h.y() ) };
    for( int k = 0; k < 4; ++k ) { const Vector2s &a = p[k], &b = p[( k + 1 ) % 4]; const double A = 0.5 * ( a.x() * b.y() - a.y() * b.x() ); M += rho * A; I += rho * A / 6.0 * ( a.dot( a ) + a.dot( b ) + b.dot( b ) ); }
  }
  if( r.chance( 0.3 ) ) g = g->clone();
  double m, i; g->computeMassAndInertia( rho, m, i );
  if( !( rel( m, M ) < 1e-12 ) ) c.viol( "mass/" + name, vf::Msg() << "mass " << m << ", body has " << M );
  if( !( rel( i, I ) < 1e-12 ) ) c.viol( "inertia/" + name, vf::Msg() << "inertia " << i << ", body has " << I );
  c.stat( "shapes_judged" ); c.stat( "shape_" + name );
  for( int t = 0; t < 4; ++t )
  {
    const Vector2s x = s * r.logu( 0.1, 30 ) * Vector2s( r.gauss(), r.gauss() ), y = x + s * r.logu( 0.01, 3 ) * Vector2s( r.gauss(), r.gauss() ); const double th = r.chance( 0.15 ) ? r.i( -4, 4 ) * M_PI / 2 : r.u( -20, 20 ), ph = th + r.u( -1, 1 );
    Array2s lo, hi, a, b, a1, b1; double size; exactBox( *g, x, th, a, b, size ); g->computeAABB( x, th, lo, hi ); const double tol = 1e-12 * ( size + x.norm() + y.norm() );
    if( !( ( lo - a ).abs().maxCoeff() <= tol && ( hi - b ).abs().maxCoeff() <= tol ) ) c.viol( "aabb/" + name, vf::Msg() << "box " << vf::vs( Vector2s( lo ) ) << vf::vs( Vector2s( hi ) ) << ", body occupies " << vf::vs( Vector2s( a ) ) << vf::vs( Vector2s( b ) ) );
    // the box used for collisions covers what is examined: the path of a circle, the end pose of a box
    exactBox( *g, y, ph, a1, b1, size ); g->computeCollisionAABB( x, th, y, ph, lo, hi );
    bool ok = ( lo <= a1 + tol ).all() && ( hi >= b1 - tol ).all(); if( name == "circle" ) ok = ok && ( lo <= a + tol ).all() && ( hi >= b - tol ).all();
    if( !ok ) c.viol( "collision_aabb/" + name, vf::Msg() << "box " << vf::vs( Vector2s( lo ) ) << vf::vs( Vector2s( hi ) ) << " does not cover " << vf::vs( Vector2s( a ) ) << vf::vs( Vector2s( b ) ) << " to " << vf::vs( Vector2s( a1 ) ) << vf::vs( Vector2s( b1 ) ) );
    c.stat( "boxes_judged", 2 );
  }
  c.seen( vf::fnv( &s, sizeof s ) );
}
#endif

static void checkState( vf::Ctx& c, Scene& S, const std::vector<double>& d, const std::string& when )
{
  std::vector<double> e; for( const double x : d ) e.push_back( 1.0 / x );
  diagonal( c, "M", S.sim.state().M(), d, 0, when ); diagonal( c, "Minv", S.sim.state().Minv(), e, 1e-12, when );
  c.stat( "mass_matrices", 2 );
  const int n = nBodies( S.sim ); Array2s lo = Array2s::Constant( 1e300 ), hi = -lo, x, y; double big = 0;
  #if VSIM == 1
  for( int b = 0; b < n; ++b ) { const Array2s p = S.sim.state().q().segment<2>( 2 * b ).array(); const double rad = S.sim.state().r()( b ); lo = lo.min( p - rad ); hi = hi.max( p + rad ); }
  for( const auto& k : S.sim.state().staticDrums() ) { lo = lo.min( k.x().array() - k.r() ); hi = hi.max( k.x().array() + k.r() ); }
  const Vector4s bb = S.sim.state().computeBoundingBox(); x << bb( 0 ), bb( 2 ); y << bb( 1 ), bb( 3 );
  #else
  for( int b = 0; b < n; ++b ) { Array2s a, f; double s; exactBox( *S.sim.state().bodyGeometry( unsigned( b ) ), S.sim.state().q().segment<2>( 3 * b ), S.sim.state().q()( 3 * b + 2 ), a, f, s ); lo = lo.min( a ); hi = hi.max( f ); }
  for( int b = 0; b < n; ++b ) { if( S.sim.state().m( unsigned( b ) ) != d[3 * b] || S.sim.state().I( unsigned( b ) ) != d[3 * b + 2] ) c.viol( "mass_of_body", when + ": m or I of a body is not its entry of the mass matrix" ); }
  const Array4s bb = S.sim.state().computeBoundingBox(); x << bb( 0 ), bb( 1 ); y << bb( 2 ), bb( 3 );
  #endif
  big = std::max( lo.abs().maxCoeff(), hi.abs().maxCoeff() );
  if( !( ( x - lo ).abs().maxCoeff() <= 1e-12 * big && ( y - hi ).abs().maxCoeff() <= 1e-12 * big ) ) c.viol( "scene_box", vf::Msg() << when << ": scene box " << vf::vs( Vector2s( x ) ) << vf::vs( Vector2s( y ) ) << ", bodies occupy " << vf::vs( Vector2s( lo ) ) << vf::vs( Vector2s( hi ) ) );
  c.stat( "scenes_bounded" ); c.sample( vf::Msg() << when << ": scene box " << vf::vs( Vector2s( x ) ) << vf::vs( Vector2s( y ) ) << " as the " << n << " bodies occupy" );
}
static void stateCase( vf::Ctx& c, vf::Rng& r )
{
  Opt o; o.nmin = 1; o.nmax = 12; o.curved = 0.3; Scene S = mkScene( r, o ); std::vector<double> d;
  #if VSIM == 1
  if( S.curved && r.chance( 0.5 ) ) { const Vector2s x = S.rmax * Vector2s( r.u( -9, 9 ), r.u( -9, 9 ) ); for( int b = 0; b < nBodies( S.sim ); ++b ) S.sim.state().q().segment<2>( 2 * b ) += x; for( auto& k : S.sim.state().staticDrums() ) k = StaticDrum( k.x() + x, k.r() ); S.desc += " moved"; }
  VectorXs m( 2 * nBodies( S.sim ) ); for( int b = 0; b < nBodies( S.sim ); ++b ) m( 2 * b ) = m( 2 * b + 1 ) = r.logu( 1e-3, 1e3 ); if( r.chance( 0.5 ) ) S.sim.state().setMass( m ); else for( int k = 0; k < m.size(); ++k ) m( k ) = S.sim.state().M().coeff( k, k );
  for( int k = 0; k < m.size(); ++k ) d.push_back( m( k ) );
  #else
  for( int k = 0; k < 3 * nBodies( S.sim ); ++k ) d.push_back( S.sim.state().M().coeff( k, k ) );
  for( int b = 0; b < nBodies( S.sim ); ++b ) { double m, I; S.sim.state().bodyGeometry( unsigned( b ) )->computeMassAndInertia( 1.0, m, I ); if( !( rel( d[3 * b + 2] / d[3 * b], I / m ) < 1e-12 ) || d[3 * b] != d[3 * b + 1] ) c.viol( "state_inertia", "inertia of a body does not belong to its geometry" ); }
  #endif
  checkState( c, S, d, S.desc + " initially" );
  c.family( S.desc ); Dyn D = mkDyn( r, r.i( 0, 2 ), S.caps(), 1e-10, 200 ); const int steps = r.i( 1, 6 );
  for( int k = 1; k <= steps; ++k ) { D.step( S.sim ); if( !vf::finite( Q( S.sim ) ) || !vf::finite( V( S.sim ) ) ) { c.stat( "abandoned_nonfinite" ); return; } if( k == steps || r.chance( 0.4 ) ) checkState( c, S, d, vf::Msg() << S.desc << " " << D.desc << " after step " << k ); }
  c.seen( vf::hv( Q( S.sim ) ) );
}
static void one( vf::Ctx& c, vf::Rng& r, const long k )
{
  #if VSIM == 2
  if( k % 2 ) { shapeCase( c, r ); return; }
  #endif
  stateCase( c, r );
}
#endif
int main( int argc, char** argv ) { return vf::main_( argc, argv, one ); }
