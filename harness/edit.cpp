// C20: histories of edits, copies and steps mirrored in plain lists.
#include "sim.h"
#include <algorithm>

struct Body { VectorXs x, v; Matrix33sr R; double m = 1; Vector3s I0 = Vector3s::Ones(); int geo = 0; bool fixed = false; double rad = 1; };
#if VSIM == 1
typedef StaticPlane Plane;
#elif VSIM == 2
typedef RigidBody2DStaticPlane Plane;
#else
typedef StaticPlane Plane;
#endif
// what the state must contain
struct Model
{
  std::vector<Body> b; std::vector<std::string> geo_bytes, planes, curved, portals, forces;
  #if VSIM == 2
  std::vector<std::unique_ptr<RigidBody2DGeometry>> geo;
  #elif VSIM == 3
  std::vector<std::unique_ptr<RigidBodyGeometry>> geo; SimBoundaryBehavior bb = SimBoundaryBehavior::NONE; Vector3s bmin, bmax; bool bset = false;
  #endif
};
template<class T> static std::string bytes( const T& t ) { std::stringstream s; t.serialize( s ); return s.str(); }

static const auto& planesOf( const Sim& s ) { 
  #if VSIM == 2
  return s.state().planes();
  #else
  return s.state().staticPlanes();
  #endif
}
// rebuilds the positions and velocities of the model from the simulation (after a step, which may change nothing else)
static void pull( Model& m, const Sim& s )
{
  const VectorXs &q = s.state().q(), &v = s.state().v(); const int n = int( m.b.size() );
  for( int k = 0; k < n; ++k )
  {
    #if VSIM == 1
    m.b[k].x = q.segment( 2 * k, 2 ); m.b[k].v = v.segment( 2 * k, 2 );
    #elif VSIM == 2
    m.b[k].x = q.segment( 3 * k, 3 ); m.b[k].v = v.segment( 3 * k, 3 );
    #else
    m.b[k].x = q.segment( 3 * k, 3 ); m.b[k].R = Eigen::Map<const Matrix33sr>( q.data() + 3 * n + 9 * k ); m.b[k].v.resize( 6 ); m.b[k].v << v.segment( 3 * k, 3 ), v.segment( 3 * n + 3 * k, 3 );
    #endif
  }
  #if VSIM != 3
  m.portals.clear(); for( const auto& d : s.state().planarPortals() ) m.portals.push_back( bytes( d ) ); // sheared boundaries move
  #endif
}
static Model snapshot( const Sim& s )
{
  Model m; const int n = nBodies( s ); m.b.resize( size_t( n ) );
  for( int k = 0; k < n; ++k )
  {
    Body& b = m.b[k]; b.fixed = s.state().q().size() && const_cast<Sim&>( s ).state().fixed
    #if VSIM == 2
    ( k );
    #else
    ()[size_t( k )];
    #endif
    #if VSIM == 1
    b.m = s.state().M().coeff( 2 * k, 2 * k ); b.rad = s.state().r()( k );
    #elif VSIM == 2
    b.m = s.state().M().coeff( 3 * k, 3 * k ); b.I0 *= s.state().M().coeff( 3 * k + 2, 3 * k + 2 ); b.geo = int( s.state().geometryIndices()( k ) );
    #else
    b.m = s.state().M0().coeff( 3 * k, 3 * k ); for( int j = 0; j < 3; ++j ) b.I0( j ) = s.state().M0().coeff( 3 * n + 3 * k + j, 3 * n + 3 * k + j ); b.geo = int( s.state().indices()[size_t( k )] );
    #endif
  }
  #if VSIM == 1
  for( const auto& d : s.state().staticDrums() ) m.curved.push_back( bytes( d ) );
  for( const auto& d : s.state().planarPortals() ) m.portals.push_back( bytes( d ) );
  for( const auto& f : const_cast<Sim&>( s ).state().forces() ) m.forces.push_back( bytes( *f ) );
  #elif VSIM == 2
  for( const auto& g : s.state().geometry() ) m.geo.push_back( g->clone() );
  for( const auto& d : s.state().planarPortals() ) m.portals.push_back( bytes( d ) );
  for( const auto& f : s.state().forces() ) m.forces.push_back( bytes( *f ) );
  #else
  for( const auto& g : s.state().geometry() ) m.geo.push_back( g->clone() );
  for( const auto& d : s.state().staticCylinders() ) m.curved.push_back( bytes( d ) );
  for( size_t k = 0; k < s.state().numPlanarPortals(); ++k ) m.portals.push_back( bytes( s.state().planarPortal( k ) ) );
  for( const auto& f : s.state().forces() ) m.forces.push_back( bytes( *f ) );
  #endif
  for( const auto& p : planesOf( s ) ) m.planes.push_back( bytes( p ) );
  pull( m, s ); return m;
}
#if VSIM != 1
template<class G> static std::string geoBytes( const G& g )
{
  #if VSIM == 3
  if( g.getType() == RigidBodyGeometryType::STAPLE ) { std::ostringstream o; o << std::setprecision( 17 ) << static_cast<const RigidBodyStaple&>( g ).r(); for( const Vector3s& p : static_cast<const RigidBodyStaple&>( g ).points() ) o << " " << p.transpose(); return o.str(); }
  #endif
  return bytes( g );
}
#endif

static bool same( vf::Ctx& c, const Model& m, const Sim& s, const std::string& where )
{
  bool ok = true; auto bad = [&]( const std::string& key, const std::string& msg ) { if( ok ) c.viol( key, where + ": " + msg ); ok = false; };
  const int n = int( m.b.size() );
  if( nBodies( s ) != n ) { bad( "number_of_bodies", vf::Msg() << nBodies( s ) << " bodies, must be " << n ); return false; }
  const Sim& t = s; const VectorXs &q = t.state().q(), &v = t.state().v();
  const int dq = VSIM == 1 ? 2 : ( VSIM == 2 ? 3 : 12 ), dv = VSIM == 1 ? 2 : ( VSIM == 2 ? 3 : 6 );
  if( q.size() != dq * n || v.size() != dv * n ) { bad( "size", vf::Msg() << "q has " << q.size() << " and v " << v.size() << " entries for " << n << " bodies" ); return false; }
  const SparseMatrixsc &M = t.state().M(), &W = t.state().Minv();
  if( M.rows() != dv * n || M.cols() != dv * n || W.rows() != dv * n || W.cols() != dv * n ) { bad( "mass_matrix_size", vf::Msg() << "mass matrices are " << M.rows() << " and " << W.rows() << " wide for " << n << " bodies" ); return false; }
  for( int k = 0; k < n; ++k )
  {
    const Body& b = m.b[k]; const std::string who = vf::Msg() << "body " << k << " of " << n;
    #if VSIM == 3
    if( q.segment<3>( 3 * k ) != b.x || Matrix33sr( Eigen::Map<const Matrix33sr>( q.data() + 3 * n + 9 * k ) ) != b.R ) bad( "pose", who + " is elsewhere" );
    if( v.segment<3>( 3 * k ) != b.v.head<3>() || v.segment<3>( 3 * n + 3 * k ) != b.v.tail<3>() ) bad( "velocity", who + " moves differently" );
    if( t.state().M0().coeff( 3 * k, 3 * k ) != b.m || M.coeff( 3 * k, 3 * k ) != b.m || M.coeff( 3 * k + 2, 3 * k + 2 ) != b.m ) bad( "mass", who + " has another mass" );
    for( int j = 0; j < 3; ++j ) if( t.state().M0().coeff( 3 * n + 3 * k + j, 3 * n + 3 * k + j ) != b.I0( j ) ) bad( "inertia", who + " has another inertia" );
    const Matrix3s I = b.R * b.I0.asDiagonal() * b.R.transpose(); for( int i = 0; i < 3; ++i ) for( int j = 0; j < 3; ++j ) if( !( std::fabs( M.coeff( 3 * n + 3 * k + i, 3 * n + 3 * k + j ) - I( i, j ) ) <= 1e-9 * b.I0.maxCoeff() ) ) bad( "inertia", who + " has another inertia in the world" );
    if( t.state().fixed()[size_t( k )] != b.fixed ) bad( "fixed", who + " changed its fixed flag" );
    if( int( t.state().indices()[size_t( k )] ) != b.geo ) bad( "geometry_index", who + " refers to another geometry" );
    #else
    const int d = VSIM == 1 ? 2 : 3;
    if( VectorXs( q.segment( d * k, d ) ) != b.x ) bad( "pose", vf::Msg() << who << " is at " << vf::vs( VectorXs( q.segment( d * k, d ) ) ) << ", must be at " << vf::vs( b.x ) );
    if( VectorXs( v.segment( d * k, d ) ) != b.v ) bad( "velocity", vf::Msg() << who << " moves at " << vf::vs( VectorXs( v.segment( d * k, d ) ) ) << ", must be " << vf::vs( b.v ) );
    for( int j = 0; j < d; ++j ) { const double e = j == 2 ? b.I0.x() : b.m; if( !( std::fabs( M.coeff( d * k + j, d * k + j ) - e ) <= 1e-12 * e ) || !( std::fabs( W.coeff( d * k + j, d * k + j ) * e - 1.0 ) <= 1e-12 ) ) bad( j == 2 ? "inertia" : "mass", vf::Msg() << who << " has " << M.coeff( d * k + j, d * k + j ) << " and inverse " << W.coeff( d * k + j, d * k + j ) << ", must be " << e ); }
    #if VSIM == 1
    if( t.state().r()( k ) != b.rad ) bad( "radius", who + " has another radius" );
    if( const_cast<Sim&>( t ).state().fixed()[size_t( k )] != b.fixed ) bad( "fixed", who + " changed its fixed flag" );
    #else
    if( t.state().fixed( k ) != b.fixed ) bad( "fixed", who + " changed its fixed flag" );
    if( int( t.state().geometryIndices()( k ) ) != b.geo || int( t.state().geometryIndex( unsigned( k ) ) ) != b.geo ) bad( "geometry_index", who + " refers to another geometry" );
    #endif
    #endif
  }
  #if VSIM != 1
  if( t.state().geometry().size() != m.geo.size() ) bad( "number_of_geometries", vf::Msg() << t.state().geometry().size() << " geometries, must be " << m.geo.size() );
  else for( size_t k = 0; k < m.geo.size(); ++k ) if( !t.state().geometry()[k] || geoBytes( *t.state().geometry()[k] ) != geoBytes( *m.geo[k] ) ) bad( "geometry", vf::Msg() << "geometry " << k << " changed" );
  #endif
  auto list = [&]( const std::string& key, const std::vector<std::string>& have, const std::vector<std::string>& want ) { if( have != want ) bad( key, vf::Msg() << have.size() << " items, must be " << want.size() << " or an item changed" ); };
  std::vector<std::string> p, cu, po, f; for( const auto& x : planesOf( s ) ) p.push_back( bytes( x ) );
  #if VSIM == 1
  for( const auto& x : s.state().staticDrums() ) cu.push_back( bytes( x ) );
  for( const auto& x : s.state().planarPortals() ) po.push_back( bytes( x ) );
  for( const auto& x : const_cast<Sim&>( s ).state().forces() ) f.push_back( bytes( *x ) );
  #elif VSIM == 2
  for( const auto& x : s.state().planarPortals() ) po.push_back( bytes( x ) );
  for( const auto& x : s.state().forces() ) f.push_back( bytes( *x ) );
  #else
  for( const auto& x : s.state().staticCylinders() ) cu.push_back( bytes( x ) );
  for( size_t k = 0; k < s.state().numPlanarPortals(); ++k ) po.push_back( bytes( s.state().planarPortal( k ) ) );
  for( const auto& x : s.state().forces() ) f.push_back( bytes( *x ) );
  if( s.state().numStaticPlanes() != p.size() || s.state().numStaticCylinders() != cu.size() ) bad( "counts", "the numbers of planes or cylinders disagree with the lists" );
  if( m.bset && ( s.state().boundaryBehavior() != m.bb || s.state().boundaryMin() != m.bmin || s.state().boundaryMax() != m.bmax ) ) bad( "boundary", "the simulation boundary changed" );
  #endif
  list( "planes", p, m.planes ); list( "curved", cu, m.curved ); list( "portals", po, m.portals ); list( "forces", f, m.forces );
  c.stat( "states_judged" );
  return ok;
}

// the same contents put into a new simulation in one go
static Sim fresh( const Model& m, const Sim& like )
{
  Sim s; const int n = int( m.b.size() );
  #if VSIM == 1
  s.state() = Ball2DState(); VectorXs q( 2 * n ), v( 2 * n ), M( 2 * n ), r( n ); std::vector<bool> f;
  for( int k = 0; k < n; ++k ) { q.segment( 2 * k, 2 ) = m.b[k].x; v.segment( 2 * k, 2 ) = m.b[k].v; M.segment( 2 * k, 2 ).setConstant( m.b[k].m ); r( k ) = m.b[k].rad; f.push_back( m.b[k].fixed ); }
  s.state().q() = q; s.state().v() = v; s.state().r() = r; s.state().setMass( M ); s.state().fixed() = f;
  s.state().staticPlanes() = like.state().staticPlanes(); s.state().staticDrums() = like.state().staticDrums(); s.state().planarPortals() = like.state().planarPortals(); s.state().forces() = Utilities::clone( const_cast<Sim&>( like ).state().forces() );
  #elif VSIM == 2
  VectorXs q( 3 * n ), v( 3 * n ), M( 3 * n ); VectorXu g( n ); std::vector<bool> f;
  for( int k = 0; k < n; ++k ) { q.segment( 3 * k, 3 ) = m.b[k].x; v.segment( 3 * k, 3 ) = m.b[k].v; M.segment( 3 * k, 3 ) << m.b[k].m, m.b[k].m, m.b[k].I0.x(); g( k ) = unsigned( m.b[k].geo ); f.push_back( m.b[k].fixed ); }
  s.state() = RigidBody2DState( q, v, M, f, g, m.geo, like.state().forces(), like.state().planes(), like.state().planarPortals() );
  #else
  std::vector<Vector3s> X, V, w, I; std::vector<scalar> M; std::vector<VectorXs> R; std::vector<bool> f; std::vector<unsigned> g;
  for( int k = 0; k < n; ++k ) { const Body& b = m.b[k]; X.push_back( b.x ); V.push_back( b.v.head<3>() ); w.push_back( b.v.tail<3>() ); I.push_back( b.I0 ); M.push_back( b.m ); VectorXs r9( 9 ); Eigen::Map<Matrix33sr>( r9.data() ) = b.R; R.push_back( r9 ); f.push_back( b.fixed ); g.push_back( unsigned( b.geo ) ); }
  s.state().setState( X, V, M, R, w, I, f, g, m.geo );
  for( const auto& x : like.state().forces() ) s.state().addForce( *x );
  for( const auto& x : like.state().staticPlanes() ) s.state().addStaticPlane( x );
  for( const auto& x : like.state().staticCylinders() ) s.state().addStaticCylinder( x );
  for( size_t k = 0; k < like.state().numPlanarPortals(); ++k ) s.state().addPlanarPortal( like.state().planarPortal( k ) );
  #endif
  return s;
}

static void one( vf::Ctx& c, vf::Rng& r, const long )
{
  Opt o; o.nmin = 1; o.nmax = 8; o.packed = 0.3; o.moving = VSIM == 2 ? 0.0 : 0.2; Scene S = mkScene( r, o );
  c.family( S.desc );
  #if VSIM == 2
  const bool circles = S.kind == 0;
  #endif
  Sim sim = S.sim; Model m = snapshot( sim ); const double L = S.L, r0 = S.rmax;
  std::string hist = S.desc; if( !same( c, m, sim, hist + " copied" ) ) return;
  const int ops = r.i( 3, 25 );
  for( int k = 0; k < ops; ++k )
  {
    std::string op; const int n = int( m.b.size() );
    auto vec = [&]( const int d, const double s ) { VectorXs x( d ); for( int j = 0; j < d; ++j ) x( j ) = s * r.gauss(); return x; };
    const int what = r.i( 0, 11 );
    if( what <= 2 ) // more bodies
    {
      Body b; b.fixed = r.chance( 0.2 ) && !S.portal; (void) r0;
      #if VSIM == 1
      b.x = vec( 2, L ); b.v = vec( 2, 1 ); b.rad = r0 * r.u( 0.3, 1 ); b.m = r.logu( 0.01, 10 ); sim.state().pushBallBack( b.x, b.v, b.rad, b.m, b.fixed ); m.b.push_back( b ); op = "push";
      #elif VSIM == 2
      if( !circles ) b.fixed = false;
      if( m.geo.empty() ) continue;
      b.x = vec( 3, L ); b.v = vec( 3, 1 ); b.geo = r.i( 0, int( m.geo.size() ) - 1 ); if( circles && !b.fixed && m.geo[size_t( b.geo )]->type() != RigidBody2DGeometryType::CIRCLE ) continue;
      const double rho = r.logu( 0.01, 10 ); double I; const auto& g = *m.geo[size_t( b.geo )];
      if( g.type() == RigidBody2DGeometryType::CIRCLE ) { const double R = static_cast<const CircleGeometry&>( g ).r(); b.m = rho * M_PI * R * R; I = 0.5 * b.m * R * R; } else { const Vector2s h = static_cast<const BoxGeometry&>( g ).r(); b.m = 4 * rho * h.x() * h.y(); I = b.m * h.squaredNorm() / 3.0; }
      b.I0.setConstant( I ); sim.state().addBody( b.x.head<2>(), b.x( 2 ), b.v.head<2>(), b.v( 2 ), rho, unsigned( b.geo ), b.fixed ); m.b.push_back( b ); op = "add";
      if( b.m != sim.state().m( unsigned( n ) ) && std::fabs( b.m - sim.state().m( unsigned( n ) ) ) <= 1e-12 * b.m && std::fabs( I - sim.state().I( unsigned( n ) ) ) <= 1e-12 * I ) { m.b.back().m = sim.state().m( unsigned( n ) ); m.b.back().I0.setConstant( sim.state().I( unsigned( n ) ) ); } // rounding is the library's
      else if( std::fabs( I - sim.state().I( unsigned( n ) ) ) <= 1e-12 * I ) m.b.back().I0.setConstant( sim.state().I( unsigned( n ) ) );
      #else
      if( m.geo.empty() || r.chance( 0.3 ) ) { if( S.kind == 0 ) m.geo.emplace_back( new RigidBodySphere( r0 * r.u( 0.3, 1 ) ) ); else if( S.kind == 1 ) m.geo.emplace_back( new RigidBodyBox( r0 * Vector3s( r.u( 0.1, 0.5 ), r.u( 0.1, 0.5 ), r.u( 0.1, 0.5 ) ) ) ); else if( m.geo.empty() ) continue; }
      b.x = vec( 3, L ); b.v = b.fixed ? VectorXs( VectorXs::Zero( 6 ) ) : vec( 6, 1 ); b.R = randRot( r ); b.geo = r.i( 0, int( m.geo.size() ) - 1 ); Vector3s cm; Matrix33sr Rg; m.geo[size_t( b.geo )]->computeMassAndInertia( r.logu( 0.1, 10 ), b.m, cm, b.I0, Rg ); if( S.kind >= 2 ) b.fixed = false; m.b.push_back( b ); op = "set+1";
      { std::vector<Vector3s> X, V, w, I; std::vector<scalar> M; std::vector<VectorXs> R; std::vector<bool> fx; std::vector<unsigned> g; for( const Body& e : m.b ) { X.push_back( e.x ); V.push_back( e.v.head<3>() ); w.push_back( e.v.tail<3>() ); I.push_back( e.I0 ); M.push_back( e.m ); VectorXs r9( 9 ); Eigen::Map<Matrix33sr>( r9.data() ) = e.R; R.push_back( r9 ); fx.push_back( e.fixed ); g.push_back( unsigned( e.geo ) ); } sim.state().setState( X, V, M, R, w, I, fx, g, m.geo ); }
      #endif
    }
    else if( what == 3 || what == 4 ) // fewer bodies
    {
      #if VSIM == 1
      if( n == 0 ) continue;
      VectorXs M( 2 * n ); for( int j = 0; j < n; ++j ) { m.b[j].m = r.logu( 0.01, 10 ); M.segment( 2 * j, 2 ).setConstant( m.b[j].m ); } sim.state().setMass( M ); op = "masses";
      #else
      std::vector<unsigned> del; const double p = r.chance( 0.1 ) ? 1.0 : ( r.chance( 0.2 ) ? 0.0 : r.u( 0.05, 0.6 ) ); for( int j = 0; j < n; ++j ) if( r.chance( p ) ) del.push_back( unsigned( j ) );
      std::vector<Body> keep; for( int j = 0; j < n; ++j ) if( std::find( del.begin(), del.end(), unsigned( j ) ) == del.end() ) keep.push_back( m.b[j] );
      m.b = keep; for( size_t j = del.size(); j > 1; --j ) std::swap( del[j - 1], del[size_t( r.i( 0, int( j ) - 1 ) )] ); // in any order
      #if VSIM == 2
      VectorXu idx( long( del.size() ) ); for( size_t j = 0; j < del.size(); ++j ) idx( long( j ) ) = del[j];
      sim.state().removeBodies( idx ); op = vf::Msg() << "remove(" << idx.transpose() << ")"; c.stat( "removals" ); if( m.b.empty() ) c.stat( "emptied" );
      #else
      std::vector<Vector3s> X, V, w, I; std::vector<scalar> M; std::vector<VectorXs> R; std::vector<bool> fx; std::vector<unsigned> g; for( const Body& e : m.b ) { X.push_back( e.x ); V.push_back( e.v.head<3>() ); w.push_back( e.v.tail<3>() ); I.push_back( e.I0 ); M.push_back( e.m ); VectorXs r9( 9 ); Eigen::Map<Matrix33sr>( r9.data() ) = e.R; R.push_back( r9 ); fx.push_back( e.fixed ); g.push_back( unsigned( e.geo ) ); } sim.state().setState( X, V, M, R, w, I, fx, g, m.geo ); op = vf::Msg() << "set-" << del.size(); c.stat( "removals" ); if( m.b.empty() ) c.stat( "emptied" );
      #endif
      #endif
    }
    else if( what == 5 ) // geometry
    {
      #if VSIM == 2
      if( r.chance( 0.5 ) ) { const double R = r0 * r.u( 0.3, 1 ); sim.state().addCircleGeometry( R ); m.geo.emplace_back( new CircleGeometry( R ) ); op = "add geometry"; }
      else
      {
        std::vector<unsigned> del; for( size_t g = 0; g < m.geo.size(); ++g ) { bool used = false; for( const Body& b : m.b ) used = used || size_t( b.geo ) == g; if( !used && r.chance( 0.7 ) ) del.push_back( unsigned( g ) ); }
        for( size_t j = del.size(); j > 1; --j ) std::swap( del[j - 1], del[size_t( r.i( 0, int( j ) - 1 ) )] );
        VectorXu idx( long( del.size() ) ); for( size_t j = 0; j < del.size(); ++j ) idx( long( j ) ) = del[j];
        std::vector<std::unique_ptr<RigidBody2DGeometry>> keep; std::map<int,int> to; for( size_t g = 0; g < m.geo.size(); ++g ) if( std::find( del.begin(), del.end(), unsigned( g ) ) == del.end() ) { to[int( g )] = int( keep.size() ); keep.push_back( std::move( m.geo[g] ) ); }
        m.geo = std::move( keep ); for( Body& b : m.b ) b.geo = to[b.geo];
        sim.state().removeGeometry( idx ); op = vf::Msg() << "remove geometry(" << idx.transpose() << ")"; if( del.size() ) c.stat( "geometry_removals" );
      }
      #elif VSIM == 3
      sim.state().setBoundaryBehavior( SimBoundaryBehavior::NONE ); m.bb = SimBoundaryBehavior::NONE; m.bmin = vec( 3, 10 ); m.bmax = m.bmin + Vector3s( 1, 2, 3 ); m.bset = true; sim.state().setBoundaryMin( m.bmin ); sim.state().setBoundaryMax( m.bmax ); op = "boundary";
      #else
      continue;
      #endif
    }
    else if( what == 6 && !S.portal ) // planes
    {
      if( r.chance( 0.5 ) || m.planes.empty() )
      {
        VectorXs nn = vec( VSIM == 3 ? 3 : 2, 1 ); nn.normalize(); const VectorXs x = -3.0 * ( L + r0 ) * nn; const Plane p( x, nn ); m.planes.push_back( bytes( p ) ); op = "add plane";
        #if VSIM == 1
        sim.state().staticPlanes().push_back( p );
        #elif VSIM == 2
        sim.state().planes().push_back( p );
        #else
        sim.state().addStaticPlane( p );
        #endif
      }
      else
      {
        const int i = r.i( 0, int( m.planes.size() ) - 1 ); m.planes.erase( m.planes.begin() + i ); op = vf::Msg() << "delete plane " << i; c.stat( "plane_deletions" );
        #if VSIM == 1
        sim.state().staticPlanes().erase( sim.state().staticPlanes().begin() + i );
        #elif VSIM == 2
        sim.state().planes().erase( sim.state().planes().begin() + i );
        #else
        sim.state().deleteStaticPlane( size_t( i ) );
        #endif
      }
    }
    else if( what == 7 ) // forces
    {
      #if VSIM == 1
      const Ball2DGravityForce f( vec( 2, 1 ) ); sim.state().forces().push_back( f.clone() ); m.forces.push_back( bytes( f ) ); op = "add force";
      #elif VSIM == 3
      const NearEarthGravityForce f( vec( 3, 1 ) ); sim.state().addForce( f ); m.forces.push_back( bytes( f ) ); op = "add force";
      #else
      continue;
      #endif
    }
    else if( what <= 9 ) // copies
    {
      if( m.b.empty() ) continue; 
      #if VSIM == 3
      if( S.kind == 3 ) continue; // staples cannot be written out
      #endif
      const std::string before = simBytes( sim ); const int how = r.i( 0, 4 ); op = vf::Msg() << "copy" << how;
      Sim other; if( how == 1 || how == 3 ) other = S.sim;
      if( how == 0 ) { Sim t( sim ); other = std::move( t ); } else if( how <= 2 ) other = sim; else if( how == 3 ) { other.state() = sim.state(); } else { Sim t = sim; Sim& alias = t; t = alias; other = t; }
      if( how != 3 && simBytes( other ) != before ) c.viol( "copy_differs", hist + " " + op + ": the copy is not identical" );
      if( !same( c, m, other, hist + " " + op + " of" ) ) return;
      // change one, look at the other
      Sim &a = r.chance( 0.5 ) ? sim : other, &b = &a == &sim ? other : sim; const std::string keep = simBytes( b );
      Model ma = snapshot( a ); VectorXs q0 = a.state().q(), v0 = a.state().v(); a.state().q() *= 0.5; a.state().v().setConstant( 3.0 );
      #if VSIM == 1
      a.state().pushBallBack( Vector2s( 1, 2 ), Vector2s( 3, 4 ), 1, 1, true ); a.state().setMass( VectorXs::Ones( a.state().q().size() ) ); a.state().r().setConstant( 0.1 ); a.state().staticPlanes().clear(); a.state().staticDrums().clear(); a.state().forces().clear();
      #elif VSIM == 2
      a.state().addCircleGeometry( 0.25 ); a.state().addBody( Vector2s( 1, 2 ), 0, Vector2s( 3, 4 ), 5, 1, unsigned( a.state().geometry().size() - 1 ), true ); { VectorXu z( 1 ); z << 0; a.state().removeBodies( z ); } a.state().planes().clear();
      #else
      for( size_t j = a.state().numStaticPlanes(); j-- > 0; ) a.state().deleteStaticPlane( j ); a.state().addForce( NearEarthGravityForce( Vector3s( 1, 2, 3 ) ) );
      #endif
      if( simBytes( b ) != keep ) { c.viol( "copy_shares", hist + " " + op + ": changing one simulation changed its copy" ); return; }
      if( &a == &sim ) { const Sim t = other; sim = t; }
      c.stat( "copies_judged" ); c.stat( "copy_kind_" + std::to_string( how ) );
    }
    else // steps: the edited simulation goes on exactly as one set up with these contents from the start
    {
      int mode = 0; if( !S.portal && !m.b.empty() && r.chance( 0.6 ) ) mode = 1;
      #if VSIM == 3
      if( S.kind == 3 ) mode = 0;
      #endif
      vf::Rng again = r; Dyn D = mkDyn( r, mode, S.caps() ), E = mkDyn( again, mode, S.caps() ); if( mode == 1 ) { std::string nm; D.iop = mkImpactOp( 3, nm ); E.iop = mkImpactOp( 3, nm ); D.imap.reset( new ImpactMap( false ) ); E.imap.reset( new ImpactMap( false ) ); }
      Sim f = fresh( m, sim ); const int steps = r.i( 1, 3 ); op = vf::Msg() << steps << " steps of mode " << mode; c.family( hist + " " + op );
      #if VSIM == 3
      f.state().updateMandMinv(); sim.state().updateMandMinv(); // the same rounding in both
      if( m.bset ) { f.state().setBoundaryMin( m.bmin ); f.state().setBoundaryMax( m.bmax ); }
      #endif
      for( int j = 0; j < steps; ++j )
      {
        if( D.desc.find( "dmv" ) != std::string::npos && double( scalar( D.dt ) ) * vf::maxabs( V( sim ) ) > 0.3 ) { c.stat( "dmv_too_fast" ); return; } // does not converge
        D.step( sim ); E.step( f );
      }
      if( !vf::finite( sim.state().q() ) || !vf::finite( sim.state().v() ) ) { c.stat( "abandoned_nonfinite" ); return; }
      if( sim.state().q() != f.state().q() || sim.state().v() != f.state().v() ) { c.viol( "edited_runs_differently", hist + " " + op + ": the edited simulation and one created with the same contents move differently" ); return; }
      pull( m, sim ); c.stat( "steps_compared", steps ); if( mode ) c.stat( "steps_with_contacts_compared", steps ); c.seen( vf::hv( Q( sim ) ) );
    }
    if( op.empty() ) continue;
    hist += "; " + op; c.stat( "edits" );
    if( !same( c, m, sim, hist ) ) return;
  }
  c.sample( hist );
}

// walls set up and then changed through their own setters (what the scripts do): only what was set changes
static void walls( vf::Ctx& c, vf::Rng& r )
{
  const double sc = r.logu( 0.1, 100 );
  auto bad = [&]( const char* what ) { c.viol( "wall_setter", std::string( "wall at scale " ) + std::to_string( sc ) + ": " + what ); };
  auto close = []( const double a, const double b, const double s ) { return std::abs( a - b ) <= 1e-12 * s; };
  (void) close;
  #if VSIM != 3
  auto v2 = [&]( const double s ) { return Vector2s( s * r.gauss(), s * r.gauss() ); };
  Vector2s n = v2( 1 ); if( n.norm() < 1e-3 ) n << 1, 0; const Vector2s x = v2( sc ), p = v2( sc );
  const Vector2s nn = n / n.norm(), tt( -nn.y(), nn.x() );
  auto frame = [&]( const Plane& P, const Vector2s& N ) { const Vector2s T( -N.y(), N.x() ); return ( P.n() - N ).norm() <= 1e-12 && ( P.t() - T ).norm() <= 1e-12; };
  #if VSIM == 1
  Plane P( x, n ); const Vector2s v = v2( 1 ), x2 = v2( sc );
  if( P.x() != x || !frame( P, nn ) || P.v() != Vector2s::Zero() ) bad( "a new plane is not at rest through its point with unit normal and tangent" );
  P.v() = v; if( P.x() != x || !frame( P, nn ) || P.v() != v ) bad( "setting the velocity changed more" );
  P.x() = x2; if( P.x() != x2 || !frame( P, nn ) || P.v() != v ) bad( "setting the point changed more" );
  const double d = nn.dot( p - x2 ), rad = r.logu( 1e-3, 1 ) * sc;
  if( std::abs( d ) > 1e-9 * sc && P.distanceLessThanZero( p ) != ( d < 0 ) ) bad( "the side a point is on" );
  if( std::abs( d - rad ) > 1e-9 * sc && P.distanceLessThanOrEqualZero( p, rad ) != ( d <= rad ) ) bad( "whether a ball touches" );
  #else
  Plane P( x, nn ); const Vector2s v = v2( 1 ), x2 = v2( sc ); const double w = r.gauss(); const Vector2s n2 = v2( 1 ) + Vector2s( 3, 0 ), nn2 = n2 / n2.norm();
  if( P.x() != x || !frame( P, nn ) || P.v() != Vector2s::Zero() || P.omega() != 0 ) bad( "a new plane is not at rest through its point with unit normal and tangent" );
  P.setV( v ); if( P.x() != x || !frame( P, nn ) || P.v() != v || P.omega() != 0 ) bad( "setting the velocity changed more" );
  P.setOmega( w ); if( P.x() != x || !frame( P, nn ) || P.v() != v || P.omega() != w ) bad( "setting the angular velocity changed more" );
  P.setX( x2 ); if( P.x() != x2 || !frame( P, nn ) || P.v() != v || P.omega() != w ) bad( "setting the point changed more" );
  P.setN( n2 ); if( P.x() != x2 || !frame( P, nn2 ) || P.v() != v || P.omega() != w ) bad( "setting the normal does not give a unit frame or changed more" );
  const double d = nn2.dot( p - x2 );
  if( !close( P.distanceToPoint( p ), d, 10 * sc + std::abs( d ) ) ) bad( "distance to a point" );
  if( std::abs( d ) > 1e-9 * sc && P.distanceLessThanZero( p ) != ( d < 0 ) ) bad( "the side a point is on" );
  #endif
  #else
  auto v3 = [&]( const double s ) { return Vector3s( s * r.gauss(), s * r.gauss(), s * r.gauss() ); };
  Vector3s n = v3( r.logu( 0.01, 100 ) ); if( r.chance( 0.2 ) ) { n.setZero(); n( r.i( 0, 2 ) ) = r.chance( 0.5 ) ? 2 : -2; }
  const Vector3s x = v3( sc ), p = v3( sc ), nn = n / n.norm(), v = v3( 1 ), w = v3( 1 ), x2 = v3( sc );
  {
    Plane P( x, n );
    auto frame = [&]() { return ( P.n() - nn ).norm() <= 1e-12 && ( P.R() * Vector3s::UnitY() - nn ).norm() <= 1e-9 && std::abs( P.t0().norm() - 1 ) <= 1e-9 && std::abs( P.t1().norm() - 1 ) <= 1e-9 && std::abs( P.t0().dot( nn ) ) <= 1e-9 && ( P.t0().cross( nn ) - P.t1() ).norm() <= 1e-9; };
    if( P.x() != x || !frame() || P.v() != Vector3s::Zero() || P.omega() != Vector3s::Zero() ) bad( "a new plane is not at rest through its point with unit normal and tangents" );
    P.v() = v; if( P.x() != x || !frame() || P.v() != v || P.omega() != Vector3s::Zero() ) bad( "setting the velocity changed more" );
    P.omega() = w; if( P.x() != x || !frame() || P.v() != v || P.omega() != w ) bad( "setting the angular velocity changed more" );
    P.x() = x2; if( P.x() != x2 || !frame() || P.v() != v || P.omega() != w ) bad( "setting the point changed more" );
    if( !close( P.distanceToPoint( p ), nn.dot( p - x2 ), 10 * sc + ( p - x2 ).norm() ) ) bad( "distance to a point" );
  }
  {
    const double rad = r.logu( 0.1, 10 ) * sc, th = r.u( -3, 3 ); StaticCylinder C( x, n, rad );
    auto turned = [&]( const Vector3s& a, const double t ) { const Matrix3s A = C.R().toRotationMatrix(); return ( A * A.transpose() - Matrix3s::Identity() ).norm() <= 1e-9 && ( A * Vector3s::UnitY() - a ).norm() <= 1e-9 && std::isfinite( t ); };
    if( C.x() != x || C.r() != rad || ( C.axis() - nn ).norm() > 1e-12 || C.v() != Vector3s::Zero() || C.omega() != Vector3s::Zero() || !turned( nn, 0 ) ) bad( "a new cylinder is not at rest about its unit axis" );
    C.omega() = w; if( C.x() != x || C.r() != rad || ( C.axis() - nn ).norm() > 1e-12 || C.omega() != w || !turned( nn, 0 ) ) bad( "setting the cylinder's angular velocity changed more" );
    Vector3s a = v3( r.logu( 0.01, 100 ) ); const Vector3s aa = a / a.norm();
    C.setOrientation( a, 0 ); const Matrix3s R0 = C.R().toRotationMatrix();
    C.setOrientation( a, th ); const Matrix3s R1 = C.R().toRotationMatrix();
    if( C.x() != x || C.r() != rad || ( C.axis() - aa ).norm() > 1e-12 || C.omega() != w || !turned( aa, th ) ) bad( "setting the cylinder's orientation does not give a unit axis or changed more" );
    else if( ( R1 - AnglesAxis3s( th, aa ).toRotationMatrix() * R0 ).norm() > 1e-9 ) bad( "the cylinder's angle does not turn it about its axis" );
  }
  #endif
  c.stat( "wall_edits" );
}

static void one_( vf::Ctx& c, vf::Rng& r, const long k ) { if( k % 4 == 0 ) walls( c, r ); one( c, r, k ); }
int main( int argc, char** argv ) { return vf::main_( argc, argv, one_ ); }
