// C13: every view of a contact (relative velocity, normal velocity, Jacobians, frame, scripted part) describes one map.
#include "contacts.h"
#include "scisim/ConstrainedMaps/ImpactMaps/ImpactOperatorUtilities.h"
#include "scisim/ConstrainedMaps/FrictionMaps/FrictionOperatorUtilities.h"

static bool one_of( const std::string& n, std::initializer_list<const char*> l ) { for( const char* s : l ) if( n == s ) return true; return false; }
static bool noCyl( const std::string& n ) { return n != "static_cylinder_body"; }
static bool hasGrad( const std::string& n ) { return noCyl( n ) && !( VSIM == 2 && one_of( n, { "body_body", "static_plane_body" } ) ); }
static bool hasDisk( const std::string& n )
{
  if( VSIM == 1 ) return one_of( n, { "static_drum_constraint", "static_plane_constraint" } );
  if( VSIM == 2 ) return false;
  return one_of( n, { "sphere_sphere", "body_body", "static_cylinder_sphere", "static_plane_sphere", "static_plane_box", "static_plane_body", "teleported_sphere_sphere" } );
}
static bool hasSample( const std::string& n )
{
  if( VSIM == 1 ) return true;
  if( VSIM == 2 ) return n == "circle_circle";
  return hasDisk( n ) || one_of( n, { "kinematic_object_body", "kinematic_sphere_sphere", "kinematic_object_sphere" } );
}
enum { VDOF = VSIM == 1 ? 2 : ( VSIM == 2 ? 3 : 6 ) };

struct Walls { std::vector<Vec> pv, cv; std::vector<Vec> pw, cw; std::vector<double> pom; };

static Walls moveWalls( vf::Rng& r, Sim& S, const Shadow& s, const double speed )
{
  Walls w; bool round = true; for( const Bd& b : s.b ) round = round && b.s == ROUND;
  const bool mv = round && r.chance( 0.7 );
  auto rv = [&]( const double a ) { Vec v = Vec::Zero(); if( mv ) for( int k = 0; k < DIM; ++k ) v( k ) = a * r.gauss(); return v; };
  for( size_t k = 0; k < s.p.size(); ++k )
  {
    w.pv.push_back( rv( speed ) ); w.pw.push_back( rv( 1.0 ) ); w.pom.push_back( mv ? r.u( -2, 2 ) : 0.0 );
    #if VSIM == 1
    S.state().staticPlanes()[k].v() = w.pv[k];
    #elif VSIM == 2
    S.state().planes()[k].setV( w.pv[k] ); S.state().planes()[k].setOmega( w.pom[k] );
    #else
    S.state().staticPlane( k ).v() = w.pv[k]; S.state().staticPlane( k ).omega() = w.pw[k];
    #endif
  }
  for( size_t k = 0; k < s.c.size(); ++k )
  {
    w.cv.push_back( Vec::Zero() ); w.cw.push_back( rv( 1.0 ) );
    #if VSIM == 3
    S.state().staticCylinder( k ).omega() = w.cw[k];
    #else
    w.cw[k].setZero();
    #endif
  }
  return w;
}

static VectorXs bodyV( const VectorXs& v, const int i )
{
  #if VSIM == 3
  VectorXs o( 6 ); o << v.segment<3>( 3 * i ), v.segment<3>( v.size() / 2 + 3 * i ); return o;
  #else
  return v.segment<VDOF>( VDOF * i );
  #endif
}
static Vec pointV( const VectorXs& v, const int i, const Vec& arm )
{
  #if VSIM == 1
  (void) arm; return v.segment<2>( 2 * i );
  #elif VSIM == 2
  return Vec( v.segment<2>( 3 * i ) + v( 3 * i + 2 ) * Vec( -arm.y(), arm.x() ) );
  #else
  const Vector3s w = v.segment<3>( v.size() / 2 + 3 * i ); return Vec( v.segment<3>( 3 * i ) + w.cross( Vector3s( arm ) ) );
  #endif
}

struct Judge
{
  vf::Ctx& c; vf::Rng& r; Config& C; Walls& W; VectorXs v; double speed;
  void bad( const std::string& what, const Constraint& k, const std::string& m ) { c.viol( what + "/" + k.name(), m + " | " + C.desc ); }

  // images of body b: displacement and velocity shift
  std::vector<std::pair<Vec,Vec>> shifts( const Bd& b ) const
  {
    std::vector<std::pair<Vec,Vec>> out{ { Vec::Zero(), Vec::Zero() } };
    for( const Po& o : C.s.o ) for( int side = 0; side < 2; ++side ) for( int at = 0; at < 2; ++at )
    {
      const Vec& x = at ? b.x1 : b.x0;
      if( ( side == 0 ? o.na.dot( b.x1 - o.xa ) : o.nb.dot( b.x1 - o.xb ) ) > b.r * 1.0001 ) continue;
      Vec s = Vec::Zero();
      #if VSIM != 3
      const Vec n = side == 0 ? o.na : o.nb; s = -o.v * Vec( -n.y(), n.x() );
      #endif
      out.push_back( { portalShift( o, side == 0, x, C.s.t ), s } );
    }
    return out;
  }

  // possible true relative velocities of the two surfaces at the contact (penetrating surfaces meet in a range of points; images may be ambiguous)
  std::vector<Vec> truth( const Constraint& k, const Vec& n, const Vec& p, const bool havep )
  {
    std::vector<Vec> out; const std::string nm = k.name(); const Key key = keyOf( k );
    std::pair<int,int> ij; if( noCyl( nm ) ) k.getBodyIndices( ij ); else k.getSimulatedBodyIndices( ij );
    const Bd& a = C.s.b[ij.first];
    const double scale = sizeOf( a ) + a.x0.norm();
    if( key.kind == 1 )
    {
      const Pl& pl = C.s.p[key.b]; const Vec u0 = pointV( v, ij.first, p - a.x0 );
      const Vec q = a.x0 - ( a.x0 - pl.x ).dot( pl.n ) * pl.n; // foot of the centre
      for( const Vec& x : { p, q } )
      {
        Vec wv = W.pv[key.b]; const Vec arm = x - pl.x; (void) arm;
        #if VSIM == 2
        wv += W.pom[key.b] * Vec( -arm.y(), arm.x() );
        #elif VSIM == 3
        wv += W.pw[key.b].cross( arm );
        #endif
        out.push_back( u0 - wv );
      }
    }
    else if( key.kind == 2 )
    {
      const Cy& y = C.s.c[key.b];
      if( !havep ) return out;
      const Vec u0 = pointV( v, ij.first, p - a.x0 );
      Vec d = a.x0 - y.x; if( DIM == 3 ) d -= d.dot( y.axis ) * y.axis;
      const Vec surf = d.norm() > 0 ? Vec( a.x0 - d + y.r * d.normalized() ) : p;
      for( const Vec& x : { p, surf } ) { Vec wv = Vec::Zero(); const Vec arm = x - y.x; (void) arm;
        #if VSIM == 3
        wv += W.cw[key.b].cross( arm );
        #endif
        out.push_back( u0 - wv ); }
    }
    else
    {
      const Bd& b = C.s.b[ij.second]; const Vec arm0 = p - a.x0;
      const bool tele = nm.find( "teleported" ) != std::string::npos || nm.find( "kick" ) != std::string::npos;
      if( !tele )
      {
        VectorXs vk = v; // a fixed body's velocity is the one it had when the contact was found
        if( b.fixed ) {
          #if VSIM == 2
          vk.segment<3>( 3 * ij.second ) = C.v.segment<3>( 3 * ij.second );
          #elif VSIM == 3
          vk.segment<3>( 3 * ij.second ).setZero(); vk.segment<3>( v.size() / 2 + 3 * ij.second ).setZero();
          #endif
        }
        out.push_back( pointV( v, ij.first, arm0 ) - pointV( vk, ij.second, arm0 + a.x0 - b.x0 ) );
        // bodies detected at the end of the step: arms measured there, or the scripted body's pose there
        if( b.fixed ) out.push_back( pointV( v, ij.first, arm0 ) - pointV( vk, ij.second, arm0 + a.x0 - b.x1 ) );
      }
      else for( const auto& s : shifts( a ) ) for( const auto& t : shifts( b ) )
      {
        if( s.first.isZero() && t.first.isZero() ) continue;
        const Vec d = a.x0 + s.first - b.x0 - t.first; const double l = d.norm();
        if( l < 1e-9 * scale || ( n - d / l ).norm() * l > 1.0e-7 * ( scale + b.x0.norm() + b.r ) ) continue;
        out.push_back( pointV( v, ij.first, arm0 ) + s.second - pointV( v, ij.second, arm0 + d ) - t.second );
      }
    }
    return out;
  }

  void run()
  {
    ActiveSet as; C.sim.computeActiveSet( C.q0, C.q1, C.v, as );
    const VectorXs& q = C.q0; const int nv = int( v.size() ); const FlowableSystem& fs = fsys( C.sim );
    bool allGrad = true, allSample = true;
    MatrixXXsc cb; if( !as.empty() ) csys( C.sim ).computeContactBases( q, v, as, cb );
    std::vector<Vec> U; std::vector<Mat> B;
    for( size_t idx = 0; idx < as.size(); ++idx )
    {
      const Constraint& k = *as[idx]; const std::string nm = k.name(); c.stat( "type_" + nm ); c.stat( "contacts" );
      allGrad = allGrad && hasGrad( nm ); allSample = allSample && hasSample( nm );
      MatrixXXsc bm; k.computeBasis( q, v, bm );
      U.push_back( Vec::Zero() ); B.push_back( Mat::Identity() );
      if( bm.rows() != DIM || bm.cols() != DIM ) { bad( "basis", k, "wrong size" ); continue; }
      const Mat b = bm; B.back() = b;
      if( ( b.transpose() * b - Mat::Identity() ).norm() > 1e-8 || std::fabs( b.determinant() - 1.0 ) > 1e-8 ) { bad( "basis", k, vf::Msg() << "contact frame not a right-handed orthonormal one: " << vf::vs( b ) ); continue; }
      if( ( cb.block( 0, DIM * long( idx ), DIM, DIM ) - b ).norm() > 1e-12 ) bad( "basis", k, "frame in computeContactBases differs from the contact's" );
      const Vec n = b.col( 0 );
      Vec p = Vec::Zero(); if( noCyl( nm ) ) { VectorXs x; k.getWorldSpaceContactPoint( q, x ); p = x; }
      double scale = speed; { std::pair<int,int> ij; if( noCyl( nm ) ) k.getBodyIndices( ij ); else k.getSimulatedBodyIndices( ij ); scale += bodyV( v, ij.first ).norm() * ( 1.0 + sizeOf( C.s.b[ij.first] ) + ( C.q1 - C.q0 ).norm() ); if( ij.second >= 0 ) scale += bodyV( v, ij.second ).norm() * ( 1.0 + sizeOf( C.s.b[ij.second] ) + ( C.q1 - C.q0 ).norm() ); scale += 5.0 * ( p.norm() + C.s.b[ij.first].x0.norm() ) * 1e-3; for( const Pl& pl : C.s.p ) scale += 1e-3 * pl.x.norm(); }
      const double tol = 1.0e-8 * scale;
      // 1. relative velocity
      const VectorXs ur = k.computeRelativeVelocity( q, v );
      if( ur.size() != DIM ) { bad( "relative_velocity", k, "wrong size" ); continue; }
      const Vec u = ur; U.back() = u;
      const std::vector<Vec> cand = truth( k, n, p, noCyl( nm ) );
      if( !cand.empty() )
      {
        double best = 1e300; Vec bu = Vec::Zero(); for( const Vec& x : cand ) if( ( x - u ).norm() < best ) { best = ( x - u ).norm(); bu = x; }
        c.stat( "velocities_judged" );
        if( best > tol ) { bad( "relative_velocity", k, vf::Msg() << "reports " << vf::vs( u ) << ", the surfaces move at " << vf::vs( bu ) ); continue; }
      }
      else if( nm.find( "tele" ) != std::string::npos || nm.find( "kick" ) != std::string::npos ) c.stat( "image_not_identified" );
      // 2. normal velocity
      if( std::fabs( k.evalNdotV( q, v ) - n.dot( u ) ) > tol ) bad( "normal_velocity", k, vf::Msg() << "evalNdotV " << k.evalNdotV( q, v ) << ", normal component of the relative velocity " << n.dot( u ) );
      // 3. scripted part
      VectorXs kn( 1 ), kd( DIM - 1 );
      { ActiveSet one; one.emplace_back( std::move( as[idx] ) ); Constraint::evalKinematicRelVelGivenBases( q, v, one, bm, kn, kd ); as[idx] = std::move( one[0] ); }
      std::pair<int,int> sb; k.getSimulatedBodyIndices( sb );
      // 4. dense Jacobian
      {
        MatrixXXsc H0 = MatrixXXsc::Zero( DIM, VDOF ), H1 = MatrixXXsc::Zero( DIM, VDOF ); k.evalH( q, bm, H0, H1 );
        VectorXs h = H0 * bodyV( v, sb.first ); if( sb.second >= 0 ) h -= H1 * bodyV( v, sb.second );
        h( 0 ) += kn( 0 ); h.tail( DIM - 1 ) += kd;
        c.stat( "dense_jacobians" );
        if( ( h - b.transpose() * u ).norm() > tol ) bad( "dense_jacobian", k, vf::Msg() << "H v plus scripted part " << vf::vs( h ) << ", relative velocity in the frame " << vf::vs( Vec( b.transpose() * u ) ) );
      }
      // 5. sparse normal Jacobian
      if( hasGrad( nm ) )
      {
        SparseMatrixsc G( nv, 1 ); G.reserve( VectorXi::Constant( 1, 12 ) ); k.evalgradg( q, 0, G, fs ); G.makeCompressed();
        VectorXs g( 1 ); g << 1e100; k.evalKinematicNormalRelVel( q, 0, g );
        const double gn = VectorXs( G.transpose() * v )( 0 ) + g( 0 );
        c.stat( "sparse_jacobians" );
        if( std::fabs( gn - n.dot( u ) ) > tol ) bad( "normal_jacobian", k, vf::Msg() << "N^T v plus scripted part " << gn << ", normal velocity " << n.dot( u ) );
        if( std::fabs( g( 0 ) - kn( 0 ) ) > tol ) bad( "scripted_normal", k, vf::Msg() << "scripted normal velocity " << g( 0 ) << " and " << kn( 0 ) );
        if( G.nonZeros() > k.impactStencilSize() ) bad( "stencil", k, "impact stencil smaller than the Jacobian" );
      }
      // 6. tangent samples
      if( hasSample( nm ) ) for( int s = 1; s < DIM + 1; ++s )
      {
        Vec t = s < DIM ? Vec( b.col( s ) ) : ( DIM == 3 ? Vec( ( 0.6 * b.col( 1 ) - 0.8 * b.col( DIM - 1 ) ) ) : Vec( -b.col( 1 ) ) );
        SparseMatrixsc D( nv, 1 ); D.reserve( VectorXi::Constant( 1, 12 ) ); k.computeGeneralizedFrictionGivenTangentSample( q, t, 0, D ); D.makeCompressed();
        double drel = 0; for( int m = 1; m < DIM; ++m ) drel += t.dot( b.col( m ) ) * kd( m - 1 );
        const double dv = VectorXs( D.transpose() * v )( 0 ) + drel; c.stat( "tangent_samples" );
        if( std::fabs( dv - t.dot( u ) ) > tol ) bad( "tangent_jacobian", k, vf::Msg() << "D^T v plus scripted part " << dv << ", tangential velocity " << t.dot( u ) );
        if( D.nonZeros() > k.frictionStencilSize() ) bad( "stencil", k, "friction stencil smaller than the Jacobian" );
      }
      // 7. friction disk
      if( hasDisk( nm ) )
      {
        const int ns = DIM == 2 ? 1 : r.i( 3, 8 );
        SparseMatrixsc D( nv, ns ); D.reserve( VectorXi::Constant( ns, 12 ) ); VectorXs dr( ns ); dr.setConstant( 1e100 );
        k.computeGeneralizedFrictionDisk( q, v, 0, ns, D, dr ); D.makeCompressed();
        const VectorXs dv = VectorXs( D.transpose() * v ) + dr; std::vector<Vec> ts; c.stat( "friction_disks" );
        for( int m = 0; m < ns; ++m )
        {
          Vec t; for( int e = 0; e < DIM; ++e ) t( e ) = D.coeff( DIM * sb.first + e < nv ? ( VSIM == 2 ? 3 : DIM ) * sb.first + e : 0, m );
          ts.push_back( t );
          if( std::fabs( t.norm() - 1.0 ) > 1e-9 || std::fabs( t.dot( n ) ) > 1e-9 ) { bad( "friction_disk", k, vf::Msg() << "sample " << vf::vs( t ) << " is not a unit tangent" ); continue; }
          if( std::fabs( dv( m ) - t.dot( u ) ) > tol ) bad( "friction_disk", k, vf::Msg() << "column times velocity plus scripted part " << dv( m ) << ", tangential velocity " << t.dot( u ) );
        }
        #if VSIM == 3
        for( int m = 0; m < ns; ++m ) { const double ang = std::atan2( ts[m].cross( ts[( m + 1 ) % ns] ).dot( n ), ts[m].dot( ts[( m + 1 ) % ns] ) ); if( std::fabs( ( ang < 0 ? ang + 2 * M_PI : ang ) - 2 * M_PI / ns ) > 1e-6 ) bad( "friction_disk", k, "samples not evenly spaced" ); }
        #endif
      }
      // 8. forcing term of the friction solver
      {
        const double e = r.u(); VectorXs f; k.computeForcingTerm( q, v, bm, e, kn( 0 ), kd, f );
        Vec w = n * ( e * n.dot( u ) + kn( 0 ) ); for( int m = 1; m < DIM; ++m ) w += b.col( m ) * kd( m - 1 );
        if( f.size() != DIM || ( f - w ).norm() > 10 * tol ) bad( "forcing_term", k, vf::Msg() << "forcing term " << vf::vs( f ) << ", expected " << vf::vs( w ) );
      }
    }
    if( as.empty() ) return;
    // whole-system forms
    const int nc = int( as.size() ); const double tol = 1e-8 * ( speed + v.norm() + 1e-2 * q.norm() );
    VectorXs kn( nc ), kd( ( DIM - 1 ) * nc ); Constraint::evalKinematicRelVelGivenBases( q, v, as, cb, kn, kd );
    if( allGrad )
    {
      SparseMatrixsc N( nv, nc ); ImpactOperatorUtilities::computeN( fs, as, q, N );
      VectorXs g( nc ); ImpactOperatorUtilities::evalKinematicRelativeVelocityN( q, as, g );
      const VectorXs nu = VectorXs( N.transpose() * v ) + g; c.stat( "systems_normal" );
      for( int k = 0; k < nc; ++k ) if( std::fabs( nu( k ) - B[k].col( 0 ).dot( U[k] ) ) > tol || std::fabs( g( k ) - kn( k ) ) > tol ) { bad( "system_normal", *as[k], vf::Msg() << "assembled normal velocity " << nu( k ) << ", contact's own " << B[k].col( 0 ).dot( U[k] ) ); break; }
      // linear term of the impact problem: N^T v0F + CoR N^T v0 + (1 + CoR) scripted
      VectorXs vF = v; for( long k = 0; k < vF.size(); ++k ) vF( k ) += speed * r.gauss(); VectorXs e( nc ), lin( nc ); for( int k = 0; k < nc; ++k ) e( k ) = r.u();
      ImpactOperatorUtilities::computeLCPQPLinearTerm( N, g, e, v, vF, lin );
      const VectorXs a0 = N.transpose() * v, aF = N.transpose() * vF;
      for( int k = 0; k < nc; ++k ) { const double w = aF( k ) + g( k ) + e( k ) * ( a0( k ) + g( k ) ); if( std::fabs( lin( k ) - w ) > 10 * tol + 1e-9 * vF.norm() ) { bad( "system_linear_term", *as[k], vf::Msg() << lin( k ) << " expected " << w ); break; } }
    }
    if( allSample )
    {
      SparseMatrixsc D( nv, ( DIM - 1 ) * nc ); FrictionOperator::formGeneralizedSmoothFrictionBasis( unsigned( nv ), unsigned( nc ), q, as, cb, D );
      const VectorXs du = VectorXs( D.transpose() * v ) + kd; c.stat( "systems_tangent" );
      for( int k = 0; k < nc; ++k ) for( int m = 1; m < DIM; ++m ) if( std::fabs( du( ( DIM - 1 ) * k + m - 1 ) - B[k].col( m ).dot( U[k] ) ) > tol ) { bad( "system_tangent", *as[k], vf::Msg() << "assembled tangential velocity " << du( ( DIM - 1 ) * k + m - 1 ) << ", contact's own " << B[k].col( m ).dot( U[k] ) ); k = nc; break; }
    }
    c.seen( vf::hv( v, vf::hv( q ) ) ); c.sample( C.desc + " | contacts " + std::to_string( nc ) );
  }
};

static void one( vf::Ctx& c, vf::Rng& r, long )
{
  const double w = r.u();
  Config C = w < 0.45 ? stress( r, c.thorough, true ) : ( w < 0.6 ? stress( r, c.thorough ) : ( w < 0.95 ? periodic( r, c.thorough ) : exact( r ) ) );
  double speed = r.logu( 0.1, 10.0 );
  Walls W = moveWalls( r, C.sim, C.s, speed );
  VectorXs v = C.v; for( long k = 0; k < v.size(); ++k ) v( k ) = speed * r.gauss();
  if( r.chance( 0.1 ) ) v = C.v;
  if( r.chance( 0.05 ) ) v.setZero();
  for( const Po& o : C.s.o ) speed += std::fabs( o.v );
  c.family( C.desc );
  Judge{ c, r, C, W, v, speed }.run();
}
int main( int argc, char** argv ) { return vf::main_( argc, argv, one ); }
