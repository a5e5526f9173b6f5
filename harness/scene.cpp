// C05: valid scene files loaded and compared with what they state, attribute by attribute.
#include "scenegen.h"
#include <unistd.h>
using namespace sg;

static vf::Ctx* C; static std::string XML;
static void bad( const std::string& key, const std::string& msg ) { C->viol( key, msg + " :: " + XML ); }
static bool close( const double a, const double b, const double tol = 4.0e-13 ) { return a == b || std::fabs( a - b ) <= tol * ( std::fabs( a ) + std::fabs( b ) ) + 1.0e-290; }
static bool vclose( const VectorXs& a, const VectorXs& b, const double tol = 4.0e-13 ) { if( a.size() != b.size() ) return false; return vf::maxabs( a - b ) <= tol * ( vf::maxabs( a ) + vf::maxabs( b ) ) + 1.0e-290; }
static void eq( const std::string& key, const double got, const double want ) { C->stat( "numbers" ); if( !( got == want ) ) bad( key, vf::Msg() << "loaded " << got << ", the file states " << want ); }
static void near( const std::string& key, const double got, const double want ) { C->stat( "numbers" ); if( !close( got, want ) ) bad( key, vf::Msg() << "loaded " << got << ", the file states " << want ); }
static void veq( const std::string& key, const VectorXs& got, const VectorXs& want ) { C->stat( "numbers", want.size() ); if( got.size() != want.size() || ( got.size() && !( got.array() == want.array() ).all() ) ) bad( key, "loaded " + vf::vs( got ) + ", the file states " + vf::vs( want ) ); }
static void vnear( const std::string& key, const VectorXs& got, const VectorXs& want, const double tol = 4.0e-13 ) { C->stat( "numbers", want.size() ); if( !vclose( got, want, tol ) ) bad( key, "loaded " + vf::vs( got ) + ", the file states " + vf::vs( want ) ); }
static void seq( const std::string& key, const std::string& got, const std::string& want ) { C->stat( "names" ); if( got != want ) bad( key, "loaded " + got + ", the file states " + want ); }
template<class T> static std::string bytes( const T& t ) { std::stringstream s; t.serialize( s ); return s.str(); }

// reference operators, built directly
static std::unique_ptr<ImpactOperator> refLCP( const Node& n )
{
  #if VSIM == 1
  if( n.text( "name" ) == "apgd" ) return std::unique_ptr<ImpactOperator>( new LCPOperatorAPGD( n.num( "tol" ), unsigned( n.integer( "max_iters" ) ) ) );
  #endif
  if( n.text( "name" ) == "ql_vp" ) return std::unique_ptr<ImpactOperator>( new LCPOperatorQLVP( n.num( "tol" ) ) );
  return std::unique_ptr<ImpactOperator>( new LCPOperatorQL( n.num( "tol" ) ) );
}
static bool opaque( const Node& n ) { if( n.text( "type" ) == "jacobi" || n.text( "name" ) == "ql_vp" ) return true; for( const Node& x : n.c ) if( opaque( x ) ) return true; return false; }
static std::unique_ptr<ImpactOperator> refImpact( const Node& n )
{
  const std::string t = n.text( "type" );
  if( t == "gauss_seidel" ) return std::unique_ptr<ImpactOperator>( new GaussSeidelOperator( n.num( "v_tol" ) ) );
  if( t == "jacobi" ) return std::unique_ptr<ImpactOperator>( new JacobiOperator( n.num( "v_tol" ) ) );
  if( t == "lcp" ) return refLCP( *n.child( "solver" ) );
  if( t == "gr" ) return std::unique_ptr<ImpactOperator>( new GROperator( n.num( "v_tol" ), *refLCP( *n.child( "solver" ) ) ) );
  return std::unique_ptr<ImpactOperator>( new GRROperator( *refImpact( *n.child( "elastic_operator" ) ), *refImpact( *n.child( "inelastic_operator" ) ) ) );
}
static ImpulsesToCache cacheOf( const Node& n ) { const std::string s = n.text( "cache_impulses" ); return s == "normal" ? ImpulsesToCache::NORMAL : s == "normal_and_friction" ? ImpulsesToCache::NORMAL_AND_FRICTION : ImpulsesToCache::NONE; }

static void checkResponse( const Node& root, const Loaded& l )
{
  const Node *io = root.child( "impact_operator" ), *sb = root.child( "sobogus_friction_solver" ), *sp = root.child( "staggered_projections_friction_solver" );
  if( bool( io ) != bool( l.iop ) ) { bad( "response/impact_operator_presence", "impact operator " + std::string( l.iop ? "present" : "absent" ) ); return; }
  if( bool( sb || sp ) != bool( l.solver ) || bool( sb || sp ) != bool( l.ifmap ) ) { bad( "response/friction_solver_presence", "friction solver " + std::string( l.solver ? "present" : "absent" ) ); return; }
  #if VSIM != 3
  if( bool( io ) != bool( l.imap ) ) { bad( "response/impact_map_presence", "impact map " + std::string( l.imap ? "present" : "absent" ) ); return; }
  #endif
  if( !io && !sb && !sp ) { C->stat( "response_none" ); if( !std::isnan( l.CoR ) || !std::isnan( l.mu ) ) bad( "response/none_with_coefficients", vf::Msg() << "CoR " << l.CoR << " mu " << l.mu ); return; }
  if( io )
  {
    C->stat( "op_" + io->text( "type" ) );
    eq( "response/CoR", l.CoR, io->num( "CoR" ) ); if( !std::isnan( l.mu ) ) bad( "response/mu_without_friction", vf::Msg() << l.mu );
    const std::unique_ptr<ImpactOperator> ref = refImpact( *io );
    seq( "response/operator_name", l.iop->name(), ref->name() );
    if( !opaque( *io ) ) { C->stat( "operators_compared" ); if( bytes( *l.iop ) != bytes( *ref ) ) bad( "response/operator_parameters", "the loaded operator " + l.iop->name() + " has other parameters than stated" ); }
    #if VSIM != 3
    if( bytes( *l.imap ) != bytes( ImpactMap( io->flag( "cache_impulses" ) ) ) ) bad( "response/cache_impulses", "warm starting differs from the file" );
    #endif
    return;
  }
  std::unique_ptr<FrictionSolver> rs; std::unique_ptr<ImpactFrictionMap> rm;
  const Node& n = sb ? *sb : *sp;
  C->stat( "solver_" + n.n ); C->stat( "staggering_" + n.text( "staggering" ) );
  eq( "response/friction_CoR", l.CoR, n.num( "CoR" ) ); eq( "response/mu", l.mu, n.num( "mu" ) );
  const std::string st = n.text( "staggering" ); const unsigned iters = unsigned( n.integer( "max_iters" ) ); const double tol = n.num( "tol" );
  const ImpulsesToCache cache = st == "geometric" && VSIM == 3 ? ImpulsesToCache::NONE : cacheOf( n );
  if( st == "geometric" ) rm.reset( new GeometricImpactFrictionMap( tol, iters, cache ) );
  else if( st == "stabilized" ) rm.reset( new StabilizedImpactFrictionMap( tol, iters, false, false ) );
  else rm.reset( new SymplecticEulerImpactFrictionMap( tol, iters, cache, n.flag( "stabilization" ), n.num( "penetration_threshold" ) ) );
  if( sb ) rs.reset( new Sobogus( VSIM == 1 ? SobogusSolverType::Balls2D : VSIM == 2 ? SobogusSolverType::RigidBody2D : SobogusSolverType::RigidBodies3D, unsigned( n.integer( "eval_every" ) ) ) );
  #if VSIM == 1
  else rs.reset( new StaggeredProjections( n.flag( "internal_warm_start_alpha" ), n.flag( "internal_warm_start_beta" ), *refLCP( *n.child( "lcp_impact_solver" ) ), BoundConstrainedMDPOperatorQL( n.child( "mdp_friction_solver" )->num( "tol" ) ) ) );
  #endif
  seq( "response/solver_name", l.solver->name(), rs->name() ); seq( "response/map_name", l.ifmap->name(), rm->name() );
  if( !opaque( n ) && bytes( *l.solver ) != bytes( *rs ) ) bad( "response/solver_parameters", "the loaded solver " + l.solver->name() + " has other parameters than stated" );
  if( bytes( *l.ifmap ) != bytes( *rm ) ) bad( "response/map_parameters", "the loaded map " + l.ifmap->name() + " has other parameters than stated" );
  C->stat( "solvers_compared" );
}

template<class P> static void checkPlane( const std::string& key, const P& p, const Node& n )
{
  veq( key + "_point", p.x(), n.vec( "x" ) ); VectorXs w = n.vec( "n" ); w /= w.norm(); vnear( key + "_normal", VectorXs( p.n() ), w ); C->stat( "planes" );
  if( vf::maxabs( VectorXs( p.v() ) ) != 0.0 ) bad( key + "_velocity", "a static plane has a velocity: " + vf::vs( p.v() ) );
}

template<class S> static auto planesOf( const S& s, int ) -> decltype( ( s.staticPlanes() ) ) { return s.staticPlanes(); }
template<class S> static auto planesOf( const S& s, long ) -> decltype( ( s.planes() ) ) { return s.planes(); }

static void checkStatics( const Node& root, const State& s )
{
  const auto pn = root.all( "static_plane" ); std::vector<bool> used( pn.size(), false );
  std::vector<const Node*> ports = root.all( "planar_portal" ); for( const Node* n : root.all( "lees_edwards_portal" ) ) ports.push_back( n );
  for( const Node* n : ports ) { used[size_t( n->integer( "planeA" ) )] = true; used[size_t( n->integer( "planeB" ) )] = true; }
  std::vector<const Node*> rest; for( size_t k = 0; k < pn.size(); ++k ) if( !used[k] ) rest.push_back( pn[k] );
  const auto& planes = planesOf( s, 0 );
  if( planes.size() != rest.size() ) bad( "statics/number_of_planes", vf::Msg() << planes.size() << " planes, the file states " << rest.size() );
  else for( size_t k = 0; k < rest.size(); ++k ) checkPlane( "statics/plane", planes[k], *rest[k] );
  #if VSIM == 3
  const size_t np = s.numPlanarPortals(); const auto portal = [&]( const size_t k ) -> const PlanarPortal& { return s.planarPortal( k ); };
  #else
  const size_t np = s.planarPortals().size(); const auto portal = [&]( const size_t k ) -> const PlanarPortal& { return s.planarPortals()[k]; };
  #endif
  if( np != ports.size() ) { bad( "statics/number_of_portals", vf::Msg() << np << " portals, the file states " << ports.size() ); return; }
  for( size_t k = 0; k < np; ++k )
  {
    const PlanarPortal& p = portal( k ); const Node& n = *ports[k]; C->stat( "portals" );
    checkPlane( "statics/portal_planeA", p.planeA(), *pn[size_t( n.integer( "planeA" ) )] ); checkPlane( "statics/portal_planeB", p.planeB(), *pn[size_t( n.integer( "planeB" ) )] );
    #if VSIM != 3
    const bool le = n.n == "lees_edwards_portal";
    if( p.isLeesEdwards() != le ) { bad( "statics/portal_kind", "a portal is of the wrong kind" ); continue; }
    eq( "statics/portal_bounds", p.bounds(), le ? n.num( "bounds" ) : 0.0 );
    if( le )
    {
      C->stat( "sheared_portals" );
      const PlanarPortal ref( p.planeA(), p.planeB(), n.num( "v" ), n.num( "bounds" ) );
      const Vector2s pt = p.planeA().x() - 0.5 * p.planeA().n();
      if( p.planeA().distanceLessThanZero( pt ) && !p.planeB().distanceLessThanZero( pt ) ) { C->stat( "portal_velocities" ); vnear( "statics/portal_velocity", p.getKinematicVelocityOfPoint( pt ), ref.getKinematicVelocityOfPoint( pt ) ); }
      if( bytes( p ) != bytes( ref ) ) bad( "statics/portal_parameters", "a sheared portal has other parameters than stated" );
    }
    #else
    const Eigen::VectorXd m = n.vec( "multiplier" ); Array3i mi; for( int j = 0; j < 3; ++j ) mi( j ) = int( m( j ) );
    const PlanarPortal ref( p.planeA(), p.planeB(), mi );
    for( int t = 0; t < 2; ++t ) { const Vector3s x( 0.3 + t, -1.7, 2.1 ); Vector3s a, b; p.teleportPointThroughPlaneA( x, a ); ref.teleportPointThroughPlaneA( x, b ); vnear( "statics/portal_map", a, b ); p.teleportPointThroughPlaneB( x, a ); ref.teleportPointThroughPlaneB( x, b ); vnear( "statics/portal_map", a, b ); }
    #endif
  }
}

#if VSIM == 1
static void checkState( const Node& root, State& s, vf::Rng& r )
{
  const auto b = root.all( "ball" );
  if( s.nballs() != b.size() || size_t( s.q().size() ) != 2 * b.size() || size_t( s.v().size() ) != 2 * b.size() || size_t( s.r().size() ) != b.size() || s.fixed().size() != b.size() ) { bad( "bodies/number", vf::Msg() << s.nballs() << " balls, the file states " << b.size() ); return; }
  for( size_t k = 0; k < b.size(); ++k )
  {
    const long i = long( k ); C->stat( "bodies" );
    eq( "bodies/x", s.q()( 2 * i ), b[k]->num( "x" ) ); eq( "bodies/y", s.q()( 2 * i + 1 ), b[k]->num( "y" ) ); eq( "bodies/vx", s.v()( 2 * i ), b[k]->num( "vx" ) ); eq( "bodies/vy", s.v()( 2 * i + 1 ), b[k]->num( "vy" ) );
    eq( "bodies/r", s.r()( i ), b[k]->num( "r" ) ); for( int d = 0; d < 2; ++d ) { near( "bodies/m", s.M().coeff( 2 * i + d, 2 * i + d ), b[k]->num( "m" ) ); near( "bodies/inverse_mass", s.Minv().coeff( 2 * i + d, 2 * i + d ), 1.0 / b[k]->num( "m" ) ); }
    if( s.fixed()[k] != b[k]->flag( "fixed" ) ) bad( "bodies/fixed", "fixed flag differs" );
  }
  const auto dr = root.all( "static_drum" );
  if( s.staticDrums().size() != dr.size() ) bad( "statics/number_of_drums", vf::Msg() << s.staticDrums().size() << " drums, the file states " << dr.size() );
  else for( size_t k = 0; k < dr.size(); ++k ) { C->stat( "drums" ); eq( "statics/drum_x", s.staticDrums()[k].x().x(), dr[k]->num( "x" ) ); eq( "statics/drum_y", s.staticDrums()[k].x().y(), dr[k]->num( "y" ) ); eq( "statics/drum_r", s.staticDrums()[k].r(), dr[k]->num( "r" ) ); }
  // forces, evaluated on two balls of other states
  const auto g = root.all( "gravity" ), p = root.all( "penalty" );
  if( s.forces().size() != g.size() + p.size() ) { bad( "forces/number", vf::Msg() << s.forces().size() << " forces, the file states " << g.size() + p.size() ); return; }
  VectorXs q( 4 ), v( 4 ), rr( 2 ); q << 0.0, 0.0, r.u( 0.2, 0.6 ), r.u( 0.2, 0.6 ); v << 1, 2, 3, 4; rr << 0.7, 0.8; SparseMatrixsc M( 4, 4 ); for( int k = 0; k < 4; ++k ) M.insert( k, k ) = k < 2 ? 1.5 : 2.5;
  VectorXs want = VectorXs::Zero( 4 ), got = VectorXs::Zero( 4 ); double uw = 0, ug = 0;
  for( const Node* n : g ) { Ball2DGravityForce f( Vector2s( n->num( "fx" ), n->num( "fy" ) ) ); f.computeForce( q, v, M, rr, want ); uw += f.computePotential( q, M, rr ); }
  for( const Node* n : p ) { PenaltyForce f( n->num( "stiffness" ), n->num( "potential_power" ) ); f.computeForce( q, v, M, rr, want ); uw += f.computePotential( q, M, rr ); }
  for( const auto& f : s.forces() ) { f->computeForce( q, v, M, rr, got ); ug += f->computePotential( q, M, rr ); C->stat( "forces" ); }
  vnear( "forces/force", got, want, 1.0e-10 ); near( "forces/potential", ug * ( 1 + 1e-13 ), uw * ( 1 + 1e-13 ) );
}
#elif VSIM == 2
static void checkState( const Node& root, State& s, vf::Rng& )
{
  const auto geo = root.all( "geometry" ), b = root.all( "rigid_body" );
  if( s.geometry().size() != geo.size() ) { bad( "geometry/number", vf::Msg() << s.geometry().size() << " shapes, the file states " << geo.size() ); return; }
  for( size_t k = 0; k < geo.size(); ++k )
  {
    C->stat( "shapes" ); std::unique_ptr<RigidBody2DGeometry> ref; if( geo[k]->text( "type" ) == "circle" ) ref.reset( new CircleGeometry( geo[k]->num( "r" ) ) ); else ref.reset( new BoxGeometry( Vector2s( geo[k]->vec( "r" ) ) ) );
    if( s.geometry()[k]->type() != ref->type() ) bad( "geometry/type", "a shape is of the wrong type" ); else if( bytes( *s.geometry()[k] ) != bytes( *ref ) ) bad( "geometry/size", "a shape has other dimensions than stated" );
  }
  if( s.nbodies() != b.size() || size_t( s.q().size() ) != 3 * b.size() || size_t( s.v().size() ) != 3 * b.size() ) { bad( "bodies/number", vf::Msg() << s.nbodies() << " bodies, the file states " << b.size() ); return; }
  for( size_t k = 0; k < b.size(); ++k )
  {
    const long i = long( k ); C->stat( "bodies" );
    veq( "bodies/x", s.q().segment( 3 * i, 2 ), b[k]->vec( "x" ) ); eq( "bodies/theta", s.q()( 3 * i + 2 ), b[k]->num( "theta" ) ); veq( "bodies/v", s.v().segment( 3 * i, 2 ), b[k]->vec( "v" ) ); eq( "bodies/omega", s.v()( 3 * i + 2 ), b[k]->num( "omega" ) );
    const size_t gi = size_t( b[k]->integer( "geo_idx" ) ); eq( "bodies/geo_idx", double( s.geometryIndex( unsigned( k ) ) ), double( gi ) );
    if( s.fixed( int( k ) ) != b[k]->flag( "fixed" ) ) bad( "bodies/fixed", "fixed flag differs" );
    const Node& g = *geo[gi]; double m, I; const double rho = b[k]->num( "rho" );
    if( g.text( "type" ) == "circle" ) { const double R = g.num( "r" ); m = rho * M_PI * R * R; I = 0.5 * m * R * R; } else { const VectorXs R = g.vec( "r" ); m = 4.0 * rho * R( 0 ) * R( 1 ); I = m * ( R( 0 ) * R( 0 ) + R( 1 ) * R( 1 ) ) / 3.0; }
    near( "bodies/mass", s.m( unsigned( k ) ), m ); near( "bodies/inertia", s.I( unsigned( k ) ), I );
    for( int d = 0; d < 3; ++d ) { near( "bodies/mass_matrix", s.M().coeff( 3 * i + d, 3 * i + d ), d < 2 ? m : I ); near( "bodies/inverse_mass", s.Minv().coeff( 3 * i + d, 3 * i + d ), 1.0 / ( d < 2 ? m : I ) ); }
  }
  const auto g = root.all( "near_earth_gravity" );
  if( s.forces().size() != g.size() ) { bad( "forces/number", vf::Msg() << s.forces().size() << " forces, the file states " << g.size() ); return; }
  for( size_t k = 0; k < g.size(); ++k )
  {
    VectorXs q( 3 ), v( 3 ), f = VectorXs::Zero( 3 ); q << 1, 2, 3; v << 4, 5, 6; SparseMatrixsc M( 3, 3 ); M.insert( 0, 0 ) = 1.5; M.insert( 1, 1 ) = 1.5; M.insert( 2, 2 ) = 0.7;
    s.forces()[k]->computeForce( q, v, M, f ); const VectorXs a = g[k]->vec( "f" ); VectorXs w( 3 ); w << 1.5 * a( 0 ), 1.5 * a( 1 ), 0.0; vnear( "forces/gravity", f, w ); C->stat( "forces" );
  }
}
#else
static void checkState( const Node& root, State& s, vf::Rng& )
{
  const auto geo = root.all( "geometry" ), b = root.all( "rigid_body_with_density" ); const size_t n = b.size();
  if( s.geometry().size() != geo.size() ) { bad( "geometry/number", vf::Msg() << s.geometry().size() << " shapes, the file states " << geo.size() ); return; }
  std::vector<std::unique_ptr<RigidBodyGeometry>> refs;
  for( size_t k = 0; k < geo.size(); ++k )
  {
    C->stat( "shapes" ); const std::string t = geo[k]->text( "type" ); std::unique_ptr<RigidBodyGeometry> ref;
    if( t == "sphere" ) ref.reset( new RigidBodySphere( geo[k]->num( "r" ) ) ); else if( t == "box" ) ref.reset( new RigidBodyBox( Vector3s( geo[k]->vec( "r" ) ) ) ); else ref.reset( new RigidBodyStaple( geo[k]->num( "w" ), geo[k]->num( "l" ), geo[k]->num( "D" ) ) );
    if( s.geometry()[k]->getType() != ref->getType() ) { bad( "geometry/type", "a shape is of the wrong type" ); return; }
    if( t == "sphere" ) eq( "geometry/sphere_r", static_cast<const RigidBodySphere&>( *s.geometry()[k] ).r(), geo[k]->num( "r" ) );
    else if( t == "box" ) veq( "geometry/box_r", static_cast<const RigidBodyBox&>( *s.geometry()[k] ).halfWidths(), geo[k]->vec( "r" ) );
    else { double m0, m1; Vector3s c0, c1, i0, i1; Matrix33sr r0, r1; ref->computeMassAndInertia( 1.25, m0, c0, i0, r0 ); s.geometry()[k]->computeMassAndInertia( 1.25, m1, c1, i1, r1 ); near( "geometry/staple", m1, m0 ); vnear( "geometry/staple", i1, i0 ); }
    refs.push_back( std::move( ref ) );
  }
  if( s.nbodies() != n || size_t( s.q().size() ) != 12 * n || size_t( s.v().size() ) != 6 * n || s.fixed().size() != n ) { bad( "bodies/number", vf::Msg() << s.nbodies() << " bodies, the file states " << n ); return; }
  for( size_t k = 0; k < n; ++k )
  {
    const long i = long( k ); C->stat( "bodies" ); long gi = b[k]->integer( "geo_idx" ); if( gi < 0 ) { gi += long( geo.size() ); C->stat( "negative_geo_idx" ); }
    eq( "bodies/geo_idx", double( s.getGeometryIndexOfBody( unsigned( k ) ) ), double( gi ) ); if( long( s.getGeometryIndexOfBody( unsigned( k ) ) ) != gi ) continue;
    if( s.fixed()[k] != b[k]->flag( "fixed" ) || s.isKinematicallyScripted( unsigned( k ) ) != b[k]->flag( "fixed" ) ) bad( "bodies/fixed", "fixed flag differs" );
    veq( "bodies/v", s.v().segment( 3 * i, 3 ), b[k]->vec( "v" ) ); veq( "bodies/omega", s.v().segment( 3 * long( n ) + 3 * i, 3 ), b[k]->vec( "omega" ) );
    const double rho = b[k]->num( "rho" ); const Node& g = *geo[size_t( gi )]; double m; Vector3s CM = Vector3s::Zero(), I; Matrix33sr R = Matrix33sr::Identity();
    if( g.text( "type" ) == "sphere" ) { const double r = g.num( "r" ); m = rho * 4.0 / 3.0 * M_PI * r * r * r; I.setConstant( 0.4 * m * r * r ); }
    else if( g.text( "type" ) == "box" ) { const VectorXs h = g.vec( "r" ); m = 8.0 * rho * h.prod(); for( int d = 0; d < 3; ++d ) { const double a = h( ( d + 1 ) % 3 ), b2 = h( ( d + 2 ) % 3 ); I( d ) = m / 3.0 * ( a * a + b2 * b2 ); } }
    else refs[size_t( gi )]->computeMassAndInertia( rho, m, CM, I, R );
    VectorXs x = b[k]->vec( "x" ); x += CM; vnear( "bodies/x", s.q().segment( 3 * i, 3 ), x );
    Matrix33sr R0 = Matrix33sr::Identity(); if( b[k]->attr( "R" ) ) { const Vector3s w = b[k]->vec( "R" ); if( w.norm() != 0.0 ) { const double t = w.norm(); const Vector3s a = w / t; Matrix33sr K; K << 0, -a.z(), a.y(), a.z(), 0, -a.x(), -a.y(), a.x(), 0; R0 = Matrix33sr::Identity() + std::sin( t ) * K + ( 1.0 - std::cos( t ) ) * K * K; C->stat( "orientations" ); } }
    const Matrix33sr Rw = R0 * R; const Matrix33sr Rg = Eigen::Map<const Matrix33sr>( s.q().data() + 3 * long( n ) + 9 * i );
    if( !( ( Rg - Rw ).cwiseAbs().maxCoeff() <= 1.0e-12 ) ) bad( "bodies/orientation", "rotation loaded " + vf::vs( Rg ) + ", the file states " + vf::vs( Rw ) );
    near( "bodies/mass", s.getTotalMass( unsigned( k ) ), m ); near( "bodies/mass_matrix", s.M().coeff( 3 * i, 3 * i ), m ); near( "bodies/inverse_mass", s.Minv().coeff( 3 * i + 1, 3 * i + 1 ), 1.0 / m );
    for( int d = 0; d < 3; ++d ) near( "bodies/principal_inertia", s.M0().coeff( 3 * long( n ) + 3 * i + d, 3 * long( n ) + 3 * i + d ), I( d ) );
    const Matrix33sr Iw = Rw * I.asDiagonal() * Rw.transpose(), Ig = s.getInertia( unsigned( k ) );
    if( !( ( Iw - Ig ).cwiseAbs().maxCoeff() <= 1.0e-11 * I.maxCoeff() ) ) bad( "bodies/inertia", "inertia loaded " + vf::vs( Ig ) + ", the file states " + vf::vs( Iw ) );
  }
  const auto cy = root.all( "static_cylinder" );
  if( s.numStaticCylinders() != cy.size() ) bad( "statics/number_of_cylinders", vf::Msg() << s.numStaticCylinders() << " cylinders, the file states " << cy.size() );
  else for( size_t k = 0; k < cy.size(); ++k ) { C->stat( "cylinders" ); const StaticCylinder& c = s.staticCylinder( k ); veq( "statics/cylinder_x", c.x(), cy[k]->vec( "x" ) ); eq( "statics/cylinder_R", c.r(), cy[k]->num( "R" ) ); VectorXs a = cy[k]->vec( "axis" ); a /= a.norm(); vnear( "statics/cylinder_axis", c.axis(), a, 1.0e-12 ); }
  const auto g = root.all( "near_earth_gravity" );
  if( s.forces().size() != g.size() ) bad( "forces/number", vf::Msg() << s.forces().size() << " forces, the file states " << g.size() );
  else for( size_t k = 0; k < g.size(); ++k )
  {
    VectorXs q = VectorXs::Zero( 12 ), v = VectorXs::Zero( 6 ), f = VectorXs::Zero( 6 ); q( 3 ) = q( 7 ) = q( 11 ) = 1.0; SparseMatrixsc M( 6, 6 ); for( int d = 0; d < 6; ++d ) M.insert( d, d ) = d < 3 ? 1.5 : 0.7;
    s.forces()[k]->computeForce( q, v, M, f ); VectorXs w = VectorXs::Zero( 6 ); w.head( 3 ) = 1.5 * g[k]->vec( "f" ); vnear( "forces/gravity", f, w ); C->stat( "forces" );
  }
  if( const Node* bd = root.child( "simulation_boundary" ) )
  {
    C->stat( "boundaries" );
    if( ( s.boundaryBehavior() == SimBoundaryBehavior::EXIT ) != ( bd->text( "violation_behavior" ) == "exit" ) ) bad( "boundary/behaviour", "boundary behaviour differs" );
    veq( "boundary/min", s.boundaryMin(), bd->vec( "min" ) ); veq( "boundary/max", s.boundaryMax(), bd->vec( "max" ) );
  }
  else if( s.boundaryBehavior() != SimBoundaryBehavior::NONE ) bad( "boundary/default", "a boundary is active without being stated" );
}
#endif

static void checkCamera( const Node& root, const Loaded& l )
{
  #if VSIM == 1
  if( !l.with_camera ) return; const Node* n = root.child( "camera" );
  if( l.cam != bool( n ) ) { bad( "camera/presence", "camera flag differs" ); return; } if( !n ) return;
  C->stat( "cameras" ); eq( "camera/cx", l.center.x(), n->num( "cx" ) ); eq( "camera/cy", l.center.y(), n->num( "cy" ) ); eq( "camera/scale", l.scale, n->num( "scale_factor" ) ); eq( "camera/fps", double( l.fps ), n->num( "fps" ) ); eq( "camera/render_at_fps", l.render_at_fps, n->flag( "render_at_fps" ) ); eq( "camera/locked", l.locked, n->flag( "locked" ) );
  #elif VSIM == 2
  const Node* n = root.child( "camera" ); if( l.cam.set != bool( n ) ) { bad( "camera/presence", "camera flag differs" ); return; } if( !n ) return;
  C->stat( "cameras" ); veq( "camera/center", l.cam.center, n->vec( "center" ) ); eq( "camera/scale", l.cam.scale, n->num( "scale" ) ); eq( "camera/fps", double( l.cam.fps ), n->num( "fps" ) ); eq( "camera/render_at_fps", l.cam.render_at_fps, n->flag( "render_at_fps" ) ); eq( "camera/locked", l.cam.locked, n->flag( "locked" ) );
  #else
  const Node *p = root.child( "camera_perspective" ), *o = root.child( "camera_orthographic" ), *n = p ? p : o;
  if( l.cam.cameraSettingsInitialized() != bool( n ) ) { bad( "camera/presence", "camera flag differs" ); return; }
  if( n )
  {
    C->stat( "cameras" ); eq( "camera/fps", double( l.cam.FPS() ), n->num( "fps" ) ); eq( "camera/render_at_fps", l.cam.renderAtFPS(), n->flag( "render_at_fps" ) ); eq( "camera/locked", l.cam.locked(), n->flag( "locked" ) );
    if( p ) { eq( "camera/kind", l.cam.perspectiveCameraSelected(), 1 ); eq( "camera/theta", l.cam.cameraTheta(), p->num( "theta" ) ); eq( "camera/phi", l.cam.cameraPhi(), p->num( "phi" ) ); eq( "camera/rho", l.cam.cameraRho(), p->num( "rho" ) ); veq( "camera/lookat", l.cam.cameraLookAt(), p->vec( "lookat" ) ); veq( "camera/up", l.cam.cameraUp(), p->vec( "up" ) ); }
    else { eq( "camera/kind", l.cam.orthographicCameraSelected(), 1 ); seq( "camera/plane", l.cam.orthographicProjectionPlane(), o->text( "projection_plane" ) ); veq( "camera/x", l.cam.orthographicX(), o->vec( "x" ) ); eq( "camera/scale", l.cam.orthographicScale(), o->num( "scale" ) ); }
  }
  // renderers refer to planes by their number among the planes that are no portals
  const auto pl = root.all( "static_plane" ); std::vector<int> map( pl.size(), 0 ); std::vector<std::pair<int,int>> where( pl.size(), { -1, 0 } ); const auto ports = root.all( "planar_portal" );
  for( size_t k = 0; k < ports.size(); ++k ) { where[size_t( ports[k]->integer( "planeA" ) )] = { int( k ), 0 }; where[size_t( ports[k]->integer( "planeB" ) )] = { int( k ), 1 }; }
  int next = 0; for( size_t k = 0; k < pl.size(); ++k ) map[k] = where[k].first < 0 ? next++ : -1;
  std::map<int,VectorXs> want; std::map<int,std::pair<VectorXs,VectorXs>> wp;
  for( const Node* x : root.all( "static_plane_renderer" ) )
  {
    const size_t k = size_t( x->integer( "plane" ) );
    if( map[k] >= 0 ) want[map[k]] = x->vec( "r" );
    else { auto& e = wp[where[k].first]; if( e.first.size() == 0 ) { e.first = VectorXs::Zero( 2 ); e.second = VectorXs::Zero( 2 ); } ( where[k].second ? e.second : e.first ) = x->vec( "r" ); }
  }
  if( l.cam.numPlaneRenderers() != want.size() ) bad( "renderers/number_of_planes", vf::Msg() << l.cam.numPlaneRenderers() << " plane renderers, expected " << want.size() );
  else { size_t k = 0; for( const auto& w : want ) { eq( "renderers/plane_index", double( l.cam.planeRenderer( k ).index() ), double( w.first ) ); veq( "renderers/plane_size", l.cam.planeRenderer( k ).r().matrix(), w.second ); ++k; C->stat( "plane_renderers" ); } }
  if( l.cam.numPlanarPortalRenderers() != wp.size() ) bad( "renderers/number_of_portals", vf::Msg() << l.cam.numPlanarPortalRenderers() << " portal renderers, expected " << wp.size() );
  else { size_t k = 0; for( const auto& w : wp ) { eq( "renderers/portal_index", double( l.cam.portalRenderer( k ).portalIndex() ), double( w.first ) ); veq( "renderers/portal_size", l.cam.portalRenderer( k ).halfWidth0().matrix(), w.second.first ); veq( "renderers/portal_size", l.cam.portalRenderer( k ).halfWidth1().matrix(), w.second.second ); ++k; C->stat( "portal_renderers" ); } }
  const auto cr = root.all( "static_cylinder_renderer" );
  if( l.cam.numCylinderRenderers() != cr.size() ) bad( "renderers/number_of_cylinders", vf::Msg() << l.cam.numCylinderRenderers() << " cylinder renderers, expected " << cr.size() );
  else for( size_t k = 0; k < cr.size(); ++k ) { eq( "renderers/cylinder_index", double( l.cam.cylinderRenderer( k ).index() ), cr[k]->num( "cylinder_idx" ) ); eq( "renderers/cylinder_length", l.cam.cylinderRenderer( k ).L(), cr[k]->num( "L" ) ); C->stat( "cylinder_renderers" ); }
  #endif
}

static void one( vf::Ctx& c, vf::Rng& r, long )
{
  C = &c; const Node root = genScene( r, r.chance( 0.1 ) ); XML = toXML( root, r, Layout() );
  std::string names; for( const Node& n : root.c ) names += n.n.substr( 0, 5 ) + ","; c.family( "load " + names );
  const std::string path = "scene.xml"; save( path, XML );
  Loaded l; load( l, path, r.chance( 0.5 ) );
  if( !l.ok ) { bad( "valid_scene_rejected", "a valid scene file was rejected" ); return; }
  c.stat( "scenes" ); c.seen( vf::hs( XML ) ); if( c.cur % 500 == 0 ) c.sample( XML );
  const Node* sc = root.child( "scripting" ); seq( "scripting/callback", l.script, sc ? sc->text( "callback" ) : "" );
  const Node* et = root.child( "end_time" ); eq( "end_time", l.end_time, et ? et->num( "t" ) : std::numeric_limits<double>::infinity() );
  if( const Node* in = root.child( "integrator" ) )
  {
    seq( "integrator/dt_text", l.dt_string, in->text( "dt" ) ); const auto w = ratValue( in->text( "dt" ) );
    c.stat( "time_steps" ); if( l.dt.numerator() != w.first || l.dt.denominator() != w.second ) bad( "integrator/dt", vf::Msg() << "time step " << l.dt.numerator() << "/" << l.dt.denominator() << ", the file states " << in->text( "dt" ) );
    std::string d; std::unique_ptr<UnconstrainedMap> ref;
    for( int k = 0; k < numUMaps(); ++k ) { std::string e; std::unique_ptr<UnconstrainedMap> u = mkUMap( k, e ); if( e == in->text( "type" ) ) ref = std::move( u ); }
    if( !ref ) { c.stat( "no_reference_integrator" ); } else if( !l.umap ) bad( "integrator/missing", "no integrator was loaded" ); else { seq( "integrator/type", l.umap->name(), ref->name() ); c.stat( "integrators_compared" ); }
  }
  else if( l.umap ) bad( "integrator/invented", "an integrator was loaded though the file has none" );
  checkResponse( root, l ); checkStatics( root, l.state ); checkState( root, l.state, r ); checkCamera( root, l );
}
int main( int argc, char** argv ) { return vf::main_( argc, argv, one ); }
