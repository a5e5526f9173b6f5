// Shadow geometry of a simulation and stress configurations for the contact monitors (C07, C08, C13).
#ifndef VERIF_CONTACTS_H
#define VERIF_CONTACTS_H
#include "sim.h"
#if VSIM == 3
enum { DIM = 3 };
typedef Vector3s Vec; typedef Matrix33sr Mat;
#else
enum { DIM = 2 };
typedef Vector2s Vec; typedef Matrix22sc Mat;
#endif

enum Shape { ROUND = 0, BOX = 1, MESH = 2 };

struct Bd { Shape s = ROUND; double r = 0; Vec h = Vec::Zero(); bool fixed = false; Vec x0, x1; Mat R0, R1; };
struct Pl { Vec x, n; };
struct Cy { Vec x, axis; double r; };                    // drum (2D, axis unused) or cylinder
struct Po { Vec xa, na, xb, nb; double v = 0, bounds = 0; }; // portal; v, bounds: Lees-Edwards

struct Shadow { std::vector<Bd> b; std::vector<Pl> p; std::vector<Cy> c; std::vector<Po> o; double t = 0; };

// ------------------------------------------------------------------ building
struct SB { Shape s = ROUND; double r = 1; Vec h = Vec::Ones(); bool fixed = false; Vec x = Vec::Zero(), v = Vec::Zero(); double th = 0; Mat R = Mat::Identity(); Vec w = Vec::Zero(); double om = 0; double rho = 1; };

inline Vec rdir( vf::Rng& r ) { Vec d; do { for( int k = 0; k < DIM; ++k ) d( k ) = r.gauss(); } while( d.norm() < 1e-6 ); return d.normalized(); }

inline Sim buildSim( const std::vector<SB>& B, const std::vector<Pl>& P, const std::vector<Cy>& C, const std::vector<Po>& O, const Vec& vplane = Vec::Zero() )
{
  Sim S;
  #if VSIM == 1
  for( const SB& b : B ) S.state().pushBallBack( b.x, b.v, b.r, b.rho, false );
  for( const Pl& p : P ) { S.state().staticPlanes().emplace_back( p.x, p.n ); S.state().staticPlanes().back().v() = vplane; }
  for( const Cy& c : C ) S.state().staticDrums().emplace_back( c.x, c.r );
  for( const Po& o : O ) S.state().planarPortals().emplace_back( StaticPlane( o.xa, o.na ), StaticPlane( o.xb, o.nb ), o.v, o.bounds );
  #elif VSIM == 2
  const int n = int( B.size() );
  VectorXs q( 3 * n ), v( 3 * n ), M( 3 * n ); VectorXu gi( n ); std::vector<bool> fx; std::vector<std::unique_ptr<RigidBody2DGeometry>> geo;
  for( int k = 0; k < n; ++k )
  {
    const SB& b = B[k];
    if( b.s == ROUND ) geo.emplace_back( new CircleGeometry( b.r ) ); else geo.emplace_back( new BoxGeometry( b.h ) );
    scalar m, I; geo.back()->computeMassAndInertia( b.rho, m, I );
    q.segment<3>( 3 * k ) << b.x.x(), b.x.y(), b.th; v.segment<3>( 3 * k ) << b.v.x(), b.v.y(), b.om; M.segment<3>( 3 * k ) << m, m, I; gi( k ) = unsigned( k ); fx.push_back( b.fixed );
  }
  std::vector<RigidBody2DStaticPlane> pl; std::vector<PlanarPortal> po; std::vector<std::unique_ptr<RigidBody2DForce>> f;
  for( const Pl& p : P ) { pl.emplace_back( p.x, p.n ); pl.back().setV( vplane ); }
  for( const Po& o : O ) { if( o.v != 0.0 ) po.emplace_back( RigidBody2DStaticPlane( o.xa, o.na ), RigidBody2DStaticPlane( o.xb, o.nb ), o.v, o.bounds ); else po.emplace_back( RigidBody2DStaticPlane( o.xa, o.na ), RigidBody2DStaticPlane( o.xb, o.nb ) ); }
  S.state() = RigidBody2DState( q, v, M, fx, gi, geo, f, pl, po );
  #else
  Bodies3 bb;
  for( const SB& b : B )
  {
    if( b.s == ROUND ) bb.geo.emplace_back( new RigidBodySphere( b.r ) ); else if( b.s == BOX ) bb.geo.emplace_back( new RigidBodyBox( b.h ) ); else bb.geo.emplace_back( mkBoxMesh( b.h ) );
    bb.add( b.x, b.v, b.R, b.w, unsigned( bb.geo.size() - 1 ), b.rho, b.fixed );
  }
  bb.set( S.state() );
  for( const Pl& p : P ) { StaticPlane sp( p.x, p.n ); sp.v() = vplane; S.state().addStaticPlane( sp ); }
  for( const Cy& c : C ) S.state().addStaticCylinder( StaticCylinder( c.x, c.axis, c.r ) );
  for( const Po& o : O ) S.state().addPlanarPortal( mkPortal3( o.xa, o.na, o.xb, o.nb ) );
  #endif
  return S;
}

// ------------------------------------------------------------------ reading
inline Shadow readShadow( Sim& sim, const VectorXs& q0, const VectorXs& q1, const double t )
{
  Shadow s; s.t = t;
  const int n = nBodies( sim );
  for( int k = 0; k < n; ++k )
  {
    Bd b; b.R0.setIdentity(); b.R1.setIdentity();
    #if VSIM == 1
    b.r = sim.state().r()( k ); b.x0 = q0.segment<2>( 2 * k ); b.x1 = q1.segment<2>( 2 * k );
    #elif VSIM == 2
    const RigidBody2DGeometry& g = *sim.state().bodyGeometry( unsigned( k ) );
    if( g.type() == RigidBody2DGeometryType::CIRCLE ) b.r = static_cast<const CircleGeometry&>( g ).r();
    else { b.s = BOX; b.h = static_cast<const BoxGeometry&>( g ).r(); }
    b.fixed = sim.state().fixed( k );
    b.x0 = q0.segment<2>( 3 * k ); b.x1 = q1.segment<2>( 3 * k );
    const double a0 = q0( 3 * k + 2 ), a1 = q1( 3 * k + 2 );
    b.R0 << std::cos( a0 ), -std::sin( a0 ), std::sin( a0 ), std::cos( a0 );
    b.R1 << std::cos( a1 ), -std::sin( a1 ), std::sin( a1 ), std::cos( a1 );
    #else
    const RigidBodyGeometry& g = sim.state().getGeometryOfBody( unsigned( k ) );
    if( g.getType() == RigidBodyGeometryType::SPHERE ) b.r = static_cast<const RigidBodySphere&>( g ).r();
    else if( g.getType() == RigidBodyGeometryType::BOX ) { b.s = BOX; b.h = static_cast<const RigidBodyBox&>( g ).halfWidths(); }
    else { b.s = MESH; b.h = static_cast<const RigidBodyTriangleMesh&>( g ).vertices().cwiseAbs().rowwise().maxCoeff(); }
    b.fixed = sim.state().isKinematicallyScripted( k );
    b.x0 = q0.segment<3>( 3 * k ); b.x1 = q1.segment<3>( 3 * k );
    b.R0 = Eigen::Map<const Matrix33sr>( q0.data() + 3 * n + 9 * k ); b.R1 = Eigen::Map<const Matrix33sr>( q1.data() + 3 * n + 9 * k );
    #endif
    s.b.push_back( b );
  }
  #if VSIM == 1
  for( const auto& p : sim.state().staticPlanes() ) s.p.push_back( Pl{ p.x(), p.n() } );
  for( const auto& c : sim.state().staticDrums() ) { Cy y; y.x = c.x(); y.axis.setZero(); y.r = c.r(); s.c.push_back( y ); }
  #elif VSIM == 2
  for( const auto& p : sim.state().planes() ) s.p.push_back( Pl{ p.x(), p.n() } );
  #else
  for( const auto& p : sim.state().staticPlanes() ) s.p.push_back( Pl{ p.x(), p.n() } );
  for( const auto& c : sim.state().staticCylinders() ) { Cy y; y.x = c.x(); y.axis = c.axis(); y.r = c.r(); s.c.push_back( y ); }
  #endif
  return s;
}

// Translation that a crossing of the portal's plane A (or B) applies to a point at x, at time t.
inline Vec portalShift( const Po& o, const bool through_a, const Vec& x, const double t )
{
  Vec d = through_a ? Vec( o.xb - o.xa ) : Vec( o.xa - o.xb );
  #if VSIM != 3
  if( o.v != 0.0 )
  {
    const Vec n = through_a ? o.na : o.nb; const Vec tt( -n.y(), n.x() );
    const Vec dest = through_a ? o.xb : o.xa;
    d -= o.v * t * tt;
    double rel = ( x + d - dest ).dot( tt );
    d -= 2.0 * o.bounds * std::floor( ( rel + o.bounds ) / ( 2.0 * o.bounds ) ) * tt;
  }
  #endif
  return d;
}

// ------------------------------------------------------------------ distances (negative: overlap)
inline double segMinDist( const Vec& a, const Vec& b ) // min |a + t (b - a)|, t in [0,1]
{
  const Vec d = b - a; const double dd = d.squaredNorm();
  double t = dd > 0 ? -a.dot( d ) / dd : 0.0; t = std::max( 0.0, std::min( 1.0, t ) );
  return ( a + t * d ).norm();
}
inline double pointBoxDist( const Vec& p, const Vec& x, const Mat& R, const Vec& h )
{
  const Vec l = R.transpose() * ( p - x ); const Vec d = l.cwiseAbs() - h;
  const double out = d.cwiseMax( 0.0 ).norm();
  return out > 0 ? out : d.maxCoeff();
}
// separating axis test: largest separation over the candidate axes; ax receives the axis (pointing from second to first)
inline double sat( const Vec& x0, const Mat& R0, const Vec& h0, const Vec& x1, const Mat& R1, const Vec& h1, Vec* ax = nullptr, std::vector<std::pair<double,Vec>>* all = nullptr )
{
  double best = -1e300;
  auto test = [&]( Vec a ) { const double l = a.norm(); if( l < 1e-8 ) return; a /= l; double w = 0; for( int k = 0; k < DIM; ++k ) w += h0( k ) * std::fabs( a.dot( R0.col( k ) ) ) + h1( k ) * std::fabs( a.dot( R1.col( k ) ) ); const double c = a.dot( x0 - x1 ); const double s = std::fabs( c ) - w; const Vec aa = c < 0 ? Vec( -a ) : a; if( all ) all->push_back( std::make_pair( s, aa ) ); if( s > best ) { best = s; if( ax ) *ax = aa; } };
  for( int k = 0; k < DIM; ++k ) { test( R0.col( k ) ); test( R1.col( k ) ); }
  #if VSIM == 3
  for( int i = 0; i < 3; ++i ) for( int j = 0; j < 3; ++j ) test( Vec( R0.col( i ).cross( R1.col( j ) ) ) );
  #endif
  return best;
}
inline Vec corner( const Bd& b, const int k, const bool at1 ) { Vec l; for( int d = 0; d < DIM; ++d ) l( d ) = ( k >> d & 1 ? 1.0 : -1.0 ) * b.h( d ); return at1 ? Vec( b.x1 + b.R1 * l ) : Vec( b.x0 + b.R0 * l ); }

#if VSIM == 3
// trilinear interpolation of the mesh's distance samples; false outside the sampled region
inline bool meshSDF( const Vec& p, const Vec& h, double& val, Vec* grad = nullptr, const int cells = 10 )
{
  Vec f; int c[3];
  for( int k = 0; k < 3; ++k ) { const double d = 2.6 * h( k ) / cells; const double u = ( p( k ) + 1.3 * h( k ) ) / d; if( !( u >= 0 ) || u >= cells ) return false; c[k] = int( u ); f( k ) = u - c[k]; }
  double v[2][2][2];
  for( int a = 0; a < 2; ++a ) for( int b = 0; b < 2; ++b ) for( int e = 0; e < 2; ++e ) v[a][b][e] = boxSDF( Vec( -1.3 * h.x() + ( c[0] + a ) * 2.6 * h.x() / cells, -1.3 * h.y() + ( c[1] + b ) * 2.6 * h.y() / cells, -1.3 * h.z() + ( c[2] + e ) * 2.6 * h.z() / cells ), h );
  auto lerp = []( double a, double b, double t ) { return a + t * ( b - a ); };
  val = lerp( lerp( lerp( v[0][0][0], v[1][0][0], f.x() ), lerp( v[0][1][0], v[1][1][0], f.x() ), f.y() ), lerp( lerp( v[0][0][1], v[1][0][1], f.x() ), lerp( v[0][1][1], v[1][1][1], f.x() ), f.y() ), f.z() );
  if( grad )
  {
    const double gx = lerp( lerp( v[1][0][0] - v[0][0][0], v[1][1][0] - v[0][1][0], f.y() ), lerp( v[1][0][1] - v[0][0][1], v[1][1][1] - v[0][1][1], f.y() ), f.z() );
    const double gy = lerp( lerp( v[0][1][0] - v[0][0][0], v[1][1][0] - v[1][0][0], f.x() ), lerp( v[0][1][1] - v[0][0][1], v[1][1][1] - v[1][0][1], f.x() ), f.z() );
    const double gz = lerp( lerp( v[0][0][1] - v[0][0][0], v[1][0][1] - v[1][0][0], f.x() ), lerp( v[0][1][1] - v[0][1][0], v[1][1][1] - v[1][1][0], f.x() ), f.y() );
    *grad = Vec( gx * cells / ( 2.6 * h.x() ), gy * cells / ( 2.6 * h.y() ), gz * cells / ( 2.6 * h.z() ) );
  }
  return true;
}
inline std::vector<Vec> meshSamples( const Vec& h ) { std::vector<Vec> s; for( int i = -1; i <= 1; ++i ) for( int j = -1; j <= 1; ++j ) for( int k = -1; k <= 1; ++k ) if( i || j || k ) s.push_back( Vec( i * h.x(), j * h.y(), k * h.z() ) ); return s; }
#endif

// ------------------------------------------------------------------ expected contacts
struct Key { int kind, a, b; bool operator<( const Key& o ) const { return std::tie( kind, a, b ) < std::tie( o.kind, o.a, o.b ); } }; // kind 0: bodies a<b; 1: body a, plane b; 2: body a, drum/cylinder b
struct Exp { int lo = 0, hi = 0; double gap = 0; bool corner = false; };
inline std::string ks( const Key& k ) { static const char* n[] = { "bodies", "plane", "curved" }; return std::string( n[k.kind] ) + " " + std::to_string( k.a ) + "," + std::to_string( k.b ); }

inline double tolOf( const Vec& x, const double size ) { return 1.0e-6 * size + 1.0e-10 * x.lpNorm<Eigen::Infinity>(); }
inline double sizeOf( const Bd& b ) { return b.s == ROUND ? b.r : b.h.norm(); }

inline void addGap( Exp& e, const double gap, const double tol, const int most = 1 ) { if( gap < -tol ) { e.lo += 1; e.hi += most; } else if( gap <= tol ) e.hi += most; }

inline std::map<Key,Exp> expected( const Shadow& s )
{
  std::map<Key,Exp> out;
  const int n = int( s.b.size() );
  // images of each body through each portal plane it touches; sure: beyond doubt
  struct Img { Vec x; bool sure; int portal; };
  std::vector<std::vector<Img>> img( n );
  for( int k = 0; k < n; ++k ) for( size_t p = 0; p < s.o.size(); ++p ) for( int side = 0; side < 2; ++side )
  {
    const Po& o = s.o[p]; const Bd& b = s.b[k];
    const double g = ( side == 0 ? o.na.dot( b.x1 - o.xa ) : o.nb.dot( b.x1 - o.xb ) ) - b.r; const double tol = tolOf( b.x1, b.r );
    if( g <= tol ) img[k].push_back( Img{ b.x1 + portalShift( o, side == 0, b.x1, s.t ), g < -tol, int( p ) } );
  }
  for( int i = 0; i < n; ++i ) for( int j = i + 1; j < n; ++j )
  {
    const Bd &a = s.b[i], &b = s.b[j];
    if( a.fixed && b.fixed ) continue;
    const double sz = std::max( sizeOf( a ), sizeOf( b ) );
    if( std::min( ( a.x0 - b.x0 ).norm(), ( a.x1 - b.x1 ).norm() ) > 1.0e300 ) continue;
    const double tol = 1.0e-6 * sz + 1.0e-10 * ( a.x1.lpNorm<Eigen::Infinity>() + b.x1.lpNorm<Eigen::Infinity>() + ( a.x1 - a.x0 ).norm() + ( b.x1 - b.x0 ).norm() );
    Exp e;
    if( a.s == ROUND && b.s == ROUND )
    {
      if( s.o.empty() )
      {
        e.gap = ( DIM == 3 ? ( a.x1 - b.x1 ).norm() : segMinDist( a.x0 - b.x0, a.x1 - b.x1 ) ) - a.r - b.r;
        addGap( e, e.gap, tol );
      }
      else
      {
        const double d = ( a.x1 - b.x1 ).norm() - a.r - b.r; e.gap = d;
        const bool Dsure = d < -tol, Dmay = d <= tol || ( DIM == 2 && segMinDist( a.x0 - b.x0, a.x1 - b.x1 ) - a.r - b.r <= tol );
        bool Tsure = false, Tmay = false;
        auto chk = [&]( const Vec& x, const Vec& y, const bool sure ) { const double g = ( x - y ).norm() - a.r - b.r; if( g < -tol && sure ) Tsure = true; if( g <= tol ) { Tmay = true; e.gap = std::min( e.gap, g ); } };
        for( const Img& m : img[i] ) chk( m.x, b.x1, m.sure );
        for( const Img& m : img[j] ) chk( a.x1, m.x, m.sure );
        if( !Dsure ) for( const Img& m : img[i] ) for( const Img& k : img[j] ) if( m.portal != k.portal ) chk( m.x, k.x, m.sure && k.sure && !Dmay ); else { const double g = ( m.x - k.x ).norm() - a.r - b.r; if( g <= tol ) Tmay = true; if( g < -tol && m.sure && k.sure && !Dmay ) Tsure = true; }
        if( Dsure ) e.lo += 1; if( Dmay ) e.hi += 1; if( Tsure ) e.lo += 1; if( Tmay ) e.hi += 1;
      }
    }
    else if( a.s == ROUND || b.s == ROUND )
    {
      const Bd& c = a.s == ROUND ? a : b; const Bd& x = a.s == ROUND ? b : a;
      e.gap = pointBoxDist( c.x1, x.x1, x.R1, x.h ) - c.r; addGap( e, e.gap, tol );
    }
    else if( a.s == BOX && b.s == BOX )
    {
      e.gap = sat( a.x1, a.R1, a.h, b.x1, b.R1, b.h ); addGap( e, e.gap, tol, DIM == 3 ? 8 : 2 );
    }
    #if VSIM == 3
    else
    {
      e.gap = sat( a.x1, a.R1, a.h, b.x1, b.R1, b.h );
      if( e.gap <= 0.5 * sz ) for( int w = 0; w < 2; ++w )
      {
        const Bd &m = w ? b : a, &o = w ? a : b;
        for( const Vec& p : meshSamples( m.h ) )
        {
          const Vec l = o.R1.transpose() * ( m.x1 + m.R1 * p - o.x1 ); double v;
          if( ( l.cwiseAbs() - 1.3 * o.h ).cwiseAbs().minCoeff() < tol ) { e.hi += 1; if( !meshSDF( l, o.h, v ) || v > tol ) e.hi -= 1; continue; }
          if( !meshSDF( l, o.h, v ) ) continue;
          addGap( e, v, tol );
        }
      }
      // samples are only looked for when the bodies' boxes can overlap
      if( e.gap > -tol && e.lo ) e.lo = 0;
    }
    #endif
    if( e.hi || e.gap < 5.0 * sz ) out[Key{ 0, i, j }] = e;
  }
  for( int i = 0; i < n; ++i ) for( size_t p = 0; p < s.p.size(); ++p )
  {
    const Bd& b = s.b[i]; if( b.fixed ) continue;
    const double tol = tolOf( b.x1, sizeOf( b ) ) + 1.0e-10 * s.p[p].x.lpNorm<Eigen::Infinity>();
    Exp e;
    if( b.s == ROUND ) { e.gap = s.p[p].n.dot( b.x1 - s.p[p].x ) - b.r; addGap( e, e.gap, tol ); }
    else for( int k = 0; k < ( 1 << DIM ); ++k ) addGap( e, s.p[p].n.dot( corner( b, k, true ) - s.p[p].x ), tol );
    out[Key{ 1, i, int( p ) }] = e;
  }
  for( int i = 0; i < n; ++i ) for( size_t p = 0; p < s.c.size(); ++p )
  {
    const Bd& b = s.b[i]; if( b.fixed ) continue;
    const double tol = tolOf( b.x1, sizeOf( b ) ) + 1.0e-10 * ( s.c[p].x.lpNorm<Eigen::Infinity>() + s.c[p].r );
    Exp e;
    auto rad = [&]( const Vec& x ) -> double { Vec d = x - s.c[p].x; if( DIM == 3 ) d -= d.dot( s.c[p].axis ) * s.c[p].axis; return d.norm(); };
    if( b.s == ROUND ) { e.gap = s.c[p].r - b.r - rad( b.x1 ); addGap( e, e.gap, tol ); }
    else for( int k = 0; k < ( 1 << DIM ); ++k ) addGap( e, s.c[p].r - rad( corner( b, k, true ) ), tol );
    out[Key{ 2, i, int( p ) }] = e;
  }
  return out;
}

inline Key keyOf( const Constraint& c )
{
  std::pair<int,int> b;
  if( c.name() == "static_cylinder_body" ) { c.getSimulatedBodyIndices( b ); return Key{ 2, b.first, 0 }; } // does not report its cylinder; scenes have one
  c.getBodyIndices( b );
  if( b.second >= 0 && b.first >= 0 ) return Key{ 0, std::min( b.first, b.second ), std::max( b.first, b.second ) };
  const int body = b.first >= 0 ? b.first : b.second;
  const std::string nm = c.name();
  return Key{ nm.find( "drum" ) != std::string::npos || nm.find( "cylinder" ) != std::string::npos ? 2 : 1, body, int( c.getStaticObjectIndex() ) };
}

// ------------------------------------------------------------------ stress configurations
struct Config { Sim sim; VectorXs q0, q1, v; Shadow s; std::string desc; };

inline void setQ1( vf::Rng& r, Config& C, const std::vector<SB>& B, const double scale, const int how )
{
  C.q0 = Q( C.sim ); C.v = V( C.sim ); C.q1 = C.q0;
  const int n = int( B.size() );
  if( how == 0 ) return;
  const double d = how == 1 ? 0.05 * scale : ( how == 2 ? 1.0 * scale : 6.0 * scale );
  for( int k = 0; k < n; ++k )
  {
    if( VSIM == 3 && B[k].fixed ) continue;
    #if VSIM == 1
    for( int i = 0; i < 2; ++i ) C.q1( 2 * k + i ) += d * r.gauss();
    #elif VSIM == 2
    for( int i = 0; i < 2; ++i ) C.q1( 3 * k + i ) += d * r.gauss(); C.q1( 3 * k + 2 ) += r.u( -0.5, 0.5 );
    #else
    for( int i = 0; i < 3; ++i ) C.q1( 3 * k + i ) += d * r.gauss();
    if( B[k].s != ROUND ) { Eigen::Map<Matrix33sr> R( C.q1.data() + 3 * n + 9 * k ); Vec a = rdir( r ); const Matrix33sr D( Eigen::AngleAxis<scalar>( r.u( -0.3, 0.3 ), a ).toRotationMatrix() ); const Matrix33sr T = D * R; R = T; }
    #endif
  }
}

// random clusters with uneven sizes, overlaps, static geometry, far from or at the origin
inline Config stress( vf::Rng& r, const bool thorough, const bool still = false )
{
  Config C; std::ostringstream d;
  const double r0 = r.logu( 0.01, 10.0 );
  const int n = r.chance( 0.1 ) ? r.i( 1, 2 ) : ( r.chance( 0.3 ) ? r.i( 2, 8 ) : r.i( 8, thorough ? 250 : 90 ) );
  const double ratio = r.chance( 0.3 ) ? 1.0 : r.logu( 1.0, DIM == 3 ? 12.0 : 40.0 );
  const int kind = VSIM == 1 ? 0 : ( VSIM == 2 ? r.i( 0, 3 ) : r.i( 0, 3 ) % 3 ); // rb2d: 0 circles, 1 boxes, 2 mixed, 3 circles and fixed boxes
  const int nn = VSIM == 3 && kind == 2 ? std::min( n, 12 ) : n;
  const double fill = r.logu( 0.3, 4.0 );
  const double L = r0 * std::pow( double( nn ), 1.0 / DIM ) * fill;
  Vec off; for( int k = 0; k < DIM; ++k ) off( k ) = r.chance( 0.5 ) ? 0.0 : r0 * r.u( -1000, 1000 );
  const int layout = r.i( 0, 3 );
  const double pf = VSIM == 1 ? 0.0 : ( r.chance( 0.4 ) ? 0.3 : 0.0 );
  std::vector<SB> B;
  const bool square = VSIM != 1 && r.chance( 0.15 ); const int sqk = r.i( 0, 2 ); // boxes at right angles
  for( int k = 0; k < nn; ++k )
  {
    SB b; const double sz = ratio == 1.0 ? r0 : ( r.chance( 0.1 ) ? r0 : r0 / ratio * r.u( 1.0, 1.5 ) );
    if( VSIM == 3 ) b.s = Shape( kind ); else if( VSIM == 2 ) { b.s = kind == 1 || ( kind == 2 && r.chance( 0.5 ) ) ? BOX : ROUND; if( kind == 0 ) b.fixed = r.chance( pf ); if( kind == 3 && r.chance( 0.3 ) ) { b.s = BOX; b.fixed = true; } }
    else b.s = ROUND;
    if( VSIM == 3 && k > 0 ) b.fixed = r.chance( pf );
    b.r = sz; for( int i = 0; i < DIM; ++i ) b.h( i ) = sz * r.u( 0.3, 1.0 );
    for( int i = 0; i < DIM; ++i ) b.x( i ) = r.u( -L, L );
    if( layout == 1 ) for( int i = 0; i < DIM; ++i ) b.x( i ) = 2.0 * r0 * std::round( b.x( i ) / ( 2.0 * r0 ) ) + r0 * r.u( -0.01, 0.01 );
    if( layout == 2 ) for( int i = 1; i < DIM; ++i ) b.x( i ) *= 0.01;
    if( layout == 3 && !B.empty() && r.chance( 0.8 ) ) { const SB& p = r.pick( B ); b.x = p.x - off + ( p.r + b.r ) * r.u( 0.8, 1.05 ) * rdir( r ); }
    b.x += off;
    b.th = r.u( -7, 7 ); if( square && r.chance( 0.8 ) ) b.th = 0.5 * M_PI * r.i( -4, 4 ); if( VSIM == 3 && !r.chance( 0.15 ) ) {
    #if VSIM == 3
    b.R = randRot( r );
    if( square && r.chance( 0.8 ) )
    {
      b.R.setIdentity(); Mat T; for( int m = r.i( 0, 3 ); m > 0; --m ) { T << 0, 0, 1, 1, 0, 0, 0, 1, 0; b.R = T * b.R; } for( int m = r.i( 0, 3 ); m > 0; --m ) { T << 0, -1, 0, 1, 0, 0, 0, 0, 1; b.R = T * b.R; }
      const double a = r.chance( 0.3 ) ? 0.0 : r.u( -3, 3 ); Mat Z = Mat::Zero(); const int k1 = ( sqk + 1 ) % 3, k2 = ( sqk + 2 ) % 3; Z( sqk, sqk ) = 1; Z( k1, k1 ) = Z( k2, k2 ) = std::cos( a ); Z( k2, k1 ) = std::sin( a ); Z( k1, k2 ) = -std::sin( a ); b.R = Z * b.R;
      if( r.chance( 0.4 ) ) { const double eps = 1.0e-7; Vec ax( r.gauss(), r.gauss(), r.gauss() ); ax.normalize(); b.R = Eigen::AngleAxisd( eps * r.u(), ax ).toRotationMatrix() * b.R; } // all but flat
    }
    #endif
    }
    for( int i = 0; i < DIM; ++i ) b.v( i ) = r0 * r.gauss();
    b.om = r.u( -3, 3 ); for( int i = 0; i < DIM; ++i ) b.w( i ) = r.u( -3, 3 );
    if( b.fixed && VSIM == 3 ) { b.v.setZero(); b.w.setZero(); }
    b.rho = r.logu( 0.1, 10.0 );
    B.push_back( b );
  }
  std::vector<Pl> P; std::vector<Cy> Y;
  const int np = r.i( 0, 3 );
  for( int k = 0; k < np; ++k ) { Pl p; p.n = r.chance( 0.3 ) ? Vec( Vec::Unit( r.i( 0, DIM - 1 ) ) ) : rdir( r ); p.x = off - p.n * L * r.u( 0.2, 1.1 ) ; P.push_back( p ); }
  if( VSIM != 2 && !( VSIM == 3 && kind == 1 ) && r.chance( 0.35 ) ) { Cy y; y.x = off; y.axis = rdir( r ); if( DIM == 2 ) y.axis.setZero(); y.r = std::max( L * r.u( 0.7, 1.5 ), 2.2 * r0 ); Y.push_back( y ); }
  C.sim = buildSim( B, P, Y, {} );
  const int how = still ? 0 : r.i( 0, 3 );
  setQ1( r, C, B, r0, VSIM == 3 && how == 3 ? 2 : how );
  C.s = readShadow( C.sim, C.q0, C.q1, 0.0 );
  d << "stress n=" << nn << " kind=" << kind << " r0=" << r0 << " ratio=" << ratio << " fill=" << fill << " layout=" << layout << " motion=" << how << " planes=" << P.size() << " curved=" << Y.size() << " off=" << vf::vs( off );
  C.desc = d.str();
  return C;
}

// round bodies in a periodic domain, many of them near its boundary; steps the simulation first so that sheared boundaries have moved
inline Config periodic( vf::Rng& r, const bool thorough )
{
  Config C; std::ostringstream d;
  const double r0 = r.logu( 0.05, 5.0 );
  const int n = r.i( 2, thorough ? 80 : 40 );
  const bool le = VSIM != 3 && r.chance( 0.5 );
  const double W = r0 * std::max( 2.3, std::pow( double( n ), 1.0 / DIM ) * r.u( 0.9, 1.6 ) );
  const int axes = DIM == 2 ? ( le ? 3 : r.i( 1, 3 ) ) : r.i( 1, 7 );
  std::vector<Po> O;
  for( int k = DIM - 1; k >= 0; --k ) if( axes >> k & 1 )
  {
    Po o; const Vec e = Vec::Unit( k ); const double s = r.sgn();
    o.xa = -s * W * e; o.na = s * e; o.xb = s * W * e; o.nb = -s * e;
    if( DIM == 2 && le && k == 1 ) { o.v = r0 * r.u( 0.2, 3.0 ) * r.sgn(); o.bounds = W; }
    O.push_back( o );
  }
  if( r.chance( 0.3 ) ) std::reverse( O.begin(), O.end() );
  std::vector<SB> B; const double var = r.u( 0.0, 0.6 ), pf = VSIM == 3 && r.chance( 0.4 ) ? r.u( 0.0, 0.6 ) : 0.0;
  for( int k = 0; k < n; ++k )
  {
    SB b; b.r = r0 * ( 1.0 - var * r.u() );
    for( int i = 0; i < DIM; ++i ) { b.x( i ) = r.u( -W, W ); if( ( axes >> i & 1 ) && r.chance( 0.45 ) ) b.x( i ) = r.sgn() * ( W - r0 * r.u( 0.0, 1.2 ) ); }
    if( k && r.chance( 0.3 ) ) // across the boundary from another one
    {
      const SB& p = r.pick( B ); const int i = r.i( 0, DIM - 1 ); b.x = p.x + 0.9 * ( p.r + b.r ) * rdir( r );
      for( int j = 0; j < DIM; ++j ) if( axes >> j & 1 ) b.x( j ) -= 2.0 * W * std::floor( ( b.x( j ) + W ) / ( 2.0 * W ) ); (void) i;
    }
    for( int i = 0; i < DIM; ++i ) b.v( i ) = r0 * r.gauss();
    b.om = r.u( -3, 3 ); b.rho = r.logu( 0.1, 10.0 );
    if( VSIM == 3 && k > 0 && r.chance( pf ) ) { b.fixed = true; b.v.setZero(); }
    B.push_back( b );
  }
  std::vector<Pl> P;
  if( !le && r.chance( 0.3 ) ) for( int k = 0; k < DIM; ++k ) if( !( axes >> k & 1 ) ) { Pl p; p.n = Vec::Unit( k ); p.x = -W * r.u( 0.8, 1.1 ) * p.n; P.push_back( p ); break; }
  C.sim = buildSim( B, P, {}, O );
  double t = 0;
  const int steps = le ? r.i( 1, 30 ) : r.i( 0, 2 );
  { std::string nm; Dyn dy; dy.umap = mkUMap( 0, nm ); dy.dt = Rat( 1, r.i( 5, 60 ) ); for( int k = 0; k < steps; ++k ) dy.step( C.sim ); t = double( dy.it ) * double( dy.dt ); }
  setQ1( r, C, B, r0, r.i( 0, 1 ) );
  C.s = readShadow( C.sim, C.q0, C.q1, t );
  C.s.o = O;
  d << "periodic n=" << n << " r0=" << r0 << " W=" << W << " axes=" << axes << ( le ? " lees-edwards v=" : "" ) << ( le ? O[0].v + ( O.size() > 1 ? O[1].v : 0.0 ) : 0.0 ) << " t=" << t;
  C.desc = d.str();
  return C;
}

// bodies that touch exactly (all numbers dyadic, so that the touching is exact in floating point)
inline Config exact( vf::Rng& r )
{
  Config C; std::vector<SB> B; std::vector<Pl> P; std::vector<Cy> Y; std::ostringstream d;
  const double u = std::ldexp( 1.0, r.i( -6, 5 ) );
  const int n = r.i( 2, 30 ); Vec x = Vec::Zero();
  for( int i = 0; i < DIM; ++i ) x( i ) = r.chance( 0.5 ) ? 0.0 : u * r.i( -2000, 2000 );
  const Vec x0 = x; double first = 0;
  for( int k = 0; k < n; ++k )
  {
    SB b; b.r = u * r.i( 1, 4 ); if( k ) { Vec e = Vec::Zero(); e( r.i( 0, DIM - 1 ) ) = 1.0; x += ( B.back().r + b.r ) * e; }
    b.x = x; b.v.setZero(); B.push_back( b ); if( !k ) first = b.r;
  }
  { Pl p; p.n = Vec::Unit( r.i( 0, DIM - 1 ) ); p.x = x0 - first * p.n; P.push_back( p ); }
  if( VSIM != 2 ) { Cy y; y.axis = Vec::Zero(); if( DIM == 3 ) y.axis( 2 ) = 1.0; y.r = first + u * 16; y.x = x0; y.x( 0 ) += 16 * u; if( DIM == 3 ) y.x( 2 ) += u * r.i( -3, 3 ); Y.push_back( y ); }
  C.sim = buildSim( B, P, Y, {} );
  C.q0 = C.q1 = Q( C.sim ); C.v = V( C.sim );
  C.s = readShadow( C.sim, C.q0, C.q1, 0.0 );
  d << "exact touching chain n=" << n << " unit=" << u;
  C.desc = d.str();
  return C;
}
#endif
