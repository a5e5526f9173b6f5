// C15: fixed bodies keep their prescribed motion whatever happens; others respond to them as to infinitely heavy objects.
#include "response.h"

static void scaleFixedMass( Sim& s, const double f )
{
  const int n = nBodies( s );
  #if VSIM == 2
  const RigidBody2DState& o = s.state(); VectorXs mm( 3 * n ); std::vector<bool> fx; std::vector<std::unique_ptr<RigidBody2DForce>> fs;
  for( int b = 0; b < n; ++b ) { mm.segment<3>( 3 * b ) << o.m( b ), o.m( b ), o.I( b ); if( o.fixed( b ) ) mm.segment<3>( 3 * b ) *= f; fx.push_back( o.fixed( b ) ); }
  for( const auto& g : o.forces() ) fs.emplace_back( g->clone() );
  s.state() = RigidBody2DState( o.q(), o.v(), mm, fx, o.geometryIndices(), o.geometry(), fs, o.planes(), o.planarPortals() );
  #else
  for( int b = 0; b < n; ++b ) if( s.state().fixed()[size_t( b )] ) for( const int k : { 0, 1 } ) for( int i = 0; i < 3; ++i ) { const int d = 3 * n * k + 3 * b + i; s.state().M0().valuePtr()[d] *= f; s.state().Minv0().valuePtr()[d] /= f; }
  for( int b = 0; b < n; ++b ) if( s.state().fixed()[size_t( b )] ) for( int i = 0; i < 3; ++i ) { s.state().M().valuePtr()[3 * b + i] *= f; s.state().Minv().valuePtr()[3 * b + i] /= f; }
  s.state().updateMandMinv();
  #endif
}

static void immovable( vf::Ctx& c, vf::Rng& r )
{
  Opt op; op.fixed = 1.0; op.portal = 0; op.moving = 0.2; op.nmin = 2; op.nmax = c.thorough && r.chance( 0.2 ) ? 40 : 12; op.kind = VSIM == 2 ? 0 : -1;
  Scene S = mkScene( r, op ); Sim& s = S.sim; const int n = nBodies( s );
  std::vector<int> fx, mv; for( int b = 0; b < n; ++b ) ( bodyFixed( s, b ) ? fx : mv ).push_back( b );
  if( fx.empty() ) { c.stat( "no_fixed" ); return; }
  const int st = VSIM == 2 ? 3 : 3;
  // fixed bodies may overlap one another and the walls
  if( fx.size() > 1 && r.chance( 0.4 ) ) { RVec e; for( int i = 0; i < RD; ++i ) e( i ) = r.gauss(); Q( s ).segment<RD>( st * fx[1] ) = bodyX( Q( s ), fx[0] ) + S.rmin * 0.5 * e; 
    #if VSIM == 2
    // (a box among them must stay clear of the moving boxes, of which there are none)
    #endif
  }
  Dyn D = mkDyn( r, r.chance( 0.15 ) ? 0 : -1, S.caps() ); c.family( S.desc + " | " + D.desc );
  const std::string where = S.desc + " | " + D.desc;
  const double h = double( D.dt ); const int steps = r.i( 1, c.thorough ? 60 : 10 ); bool hit = false;
  for( int k = 0; k < steps; ++k )
  {
    #if VSIM == 2
    // as a script would prescribe it
    if( r.chance( 0.25 ) ) for( const int b : fx ) if( r.chance( 0.5 ) ) { for( int i = 0; i < 3; ++i ) V( s )( 3 * b + i ) = 0.5 * S.rmin * r.gauss(); c.stat( "prescribed_changes" ); }
    #endif
    const VectorXs q0 = Q( s ), v0 = V( s );
    {
      const ActiveSet as = predictActive( s, D.dt, D.it + 1 );
      for( const auto& x : as )
      {
        std::pair<int,int> ij; x->getSimulatedBodyIndices( ij );
        if( ( ij.first >= 0 && bodyFixed( s, ij.first ) ) || ( ij.second >= 0 && bodyFixed( s, ij.second ) ) ) c.viol( "fixed_simulated", vf::Msg() << "contact " << x->name() << " would push fixed body " << ij.first << "/" << ij.second << " | " << where );
        if( x->name().find( "kinematic" ) != std::string::npos ) { c.stat( "contacts_with_fixed" ); hit = true; }
      }
    }
    D.step( s );
    const VectorXs& q = Q( s ); const VectorXs& v = V( s );
    for( const int b : fx )
    {
      c.stat( "fixed_steps" );
      bool ok = true;
      #if VSIM == 2
      for( int i = 0; i < 3; ++i ) ok = ok && v( 3 * b + i ) == v0( 3 * b + i ) && std::fabs( q( 3 * b + i ) - q0( 3 * b + i ) - h * v0( 3 * b + i ) ) <= 1.0e-14 * ( std::fabs( q0( 3 * b + i ) ) + h * std::fabs( v0( 3 * b + i ) ) ) * 8;
      if( !ok ) c.viol( "moved", vf::Msg() << "fixed body " << b << " step " << k << ": from " << vf::vs( q0.segment<3>( 3 * b ) ) << " velocity " << vf::vs( v0.segment<3>( 3 * b ) ) << " to " << vf::vs( q.segment<3>( 3 * b ) ) << " velocity " << vf::vs( v.segment<3>( 3 * b ) ) << " | " << where );
      #else
      (void) h;
      ok = q.segment<3>( 3 * b ) == q0.segment<3>( 3 * b ) && q.segment<9>( 3 * n + 9 * b ) == q0.segment<9>( 3 * n + 9 * b ) && bodyV( v, b ) == bodyV( v0, b );
      if( !ok ) c.viol( "moved", vf::Msg() << "fixed body " << b << " step " << k << ": from " << vf::vs( q0.segment<3>( 3 * b ) ) << " velocity " << vf::vs( bodyV( v0, b ) ) << " to " << vf::vs( q.segment<3>( 3 * b ) ) << " velocity " << vf::vs( bodyV( v, b ) ) << " | " << where );
      #endif
    }
    if( !vf::finite( q ) || !vf::finite( v ) ) { c.stat( "nonfinite_state" ); break; }
  }
  c.seen( vf::hv( Q( s ) ) ); if( hit ) { c.stat( "cases_with_hits" ); c.sample( where ); }
}

// the mass of a fixed body plays no part
static void massless( vf::Ctx& c, vf::Rng& r )
{
  Opt op; op.fixed = 1.0; op.portal = 0; op.moving = 0.2; op.nmin = 2; op.nmax = 8; op.kind = VSIM == 2 ? 0 : -1; op.packed = 0.8; op.gravity = 0.7;
  Scene S = mkScene( r, op ); Scene T = S; const double f = r.chance( 0.5 ) ? r.logu( 1.0e-3, 0.5 ) : r.logu( 2.0, 1.0e3 );
  bool any = false; for( int b = 0; b < nBodies( S.sim ); ++b ) any = any || bodyFixed( S.sim, b ); if( !any ) { c.stat( "no_fixed" ); return; }
  scaleFixedMass( T.sim, f );
  vf::Rng r1 = r, r2 = r; Dyn A = mkDyn( r1, r.chance( 0.5 ) ? 1 : 2, S.caps() ), B; { vf::Rng t = r2; (void) t; } B = mkDyn( r2, A.mode, S.caps() );
  // the two must be the same dynamics
  if( A.desc != B.desc || !( A.dt == B.dt ) || A.CoR != B.CoR || A.mu != B.mu ) { vf::Rng q1 = r, q2 = r; A = mkDyn( q1, 1, S.caps() ); B = mkDyn( q2, 1, S.caps() ); }
  if( A.mode == 2 && A.mu != 0.0 && nBodies( S.sim ) > 2 ) { c.stat( "not_unique" ); return; } // simultaneous frictional contacts may have several solutions
  const std::string where = S.desc + " | " + A.desc; c.family( where );
  const int steps = r.i( 1, 4 );
  for( int k = 0; k < steps; ++k )
  {
    A.step( S.sim ); B.step( T.sim ); c.stat( "mass_comparisons" );
    const double sv = vf::maxabs( V( S.sim ) );
    if( !vf::finite( V( S.sim ) ) ) break;
    if( !( vf::maxabs( V( S.sim ) - V( T.sim ) ) <= 2.0e-4 * sv ) ) { c.viol( "mass_matters", vf::Msg() << "scaling the mass of the fixed bodies by " << f << " changed the velocities by " << vf::maxabs( V( S.sim ) - V( T.sim ) ) << " of " << sv << " in step " << k << " | " << where ); break; }
  }
  c.seen( vf::hv( V( S.sim ) ) );
}

// one body against one fixed body: the same as against a body of enormous mass moving with that velocity
static void heavy( vf::Ctx& c, vf::Rng& r )
{
  const double big = 1.0e9; std::string d; std::unique_ptr<Scene> S[2];
  const uint64_t seed = r.next(); Dyn D[2]; double r0 = 1;
  for( int t = 0; t < 2; ++t )
  {
    vf::Rng q( seed ); S[t].reset( new Scene ); Scene& s = *S[t]; const bool fix = t == 0;
    #if VSIM == 2
    const double a = q.logu( 0.2, 2.0 ), b = q.logu( 0.2, 2.0 ); const bool box = q.chance( 0.5 ); r0 = a;
    std::vector<std::unique_ptr<RigidBody2DGeometry>> geo; geo.emplace_back( new CircleGeometry( a ) ); const Vector2s hw( b, b * q.u( 0.4, 1.0 ) ); if( box ) geo.emplace_back( new BoxGeometry( hw ) ); else geo.emplace_back( new CircleGeometry( b ) );
    const double th = q.u( -3, 3 ), ph = q.u( 0, 2 * M_PI ); const Vector2s e( std::cos( ph ), std::sin( ph ) );
    // distance at which the circle touches: the box is reached through its face
    Vector2s off; Vector2s nrm; { const Eigen::Rotation2D<double> R( th ); if( box ) { const int ax = q.i( 0, 1 ); const double sg = q.sgn(); Vector2s l( 0, 0 ), nl( 0, 0 ); l( ax ) = sg * ( hw( ax ) + a ); l( 1 - ax ) = q.u( -0.8, 0.8 ) * hw( 1 - ax ); nl( ax ) = sg; off = R * l; nrm = R * nl; } else { off = ( a + b ) * e; nrm = e; } }
    const double gap = 0.01 * a * ( box ? q.u( -0.3, -0.05 ) : q.u( -0.3, 0.5 ) ); off += gap * nrm;
    VectorXs qq( 6 ), v( 6 ), m( 6 ); const Vector2s x1( q.gauss(), q.gauss() ); const double sp = a * q.u( 1.0, 5.0 );
    const Vector2s v1( sp * 0.5 * q.gauss(), sp * 0.5 * q.gauss() ); const Vector2s tg( -nrm.y(), nrm.x() ); const Vector2s v0 = v1 - sp * nrm + sp * q.u( -1, 1 ) * tg; const double w1 = q.u( -1, 1 ), w0 = q.u( -3, 3 );
    // first or second in the list
    const bool second = q.chance( 0.5 ); const int i = second ? 1 : 0, j = 1 - i;
    qq.segment<3>( 3 * i ) << x1 + off, q.u( -3, 3 ); qq.segment<3>( 3 * j ) << x1, th; v.segment<3>( 3 * i ) << v0, w0; v.segment<3>( 3 * j ) << v1, w1;
    const double mm = q.logu( 0.3, 3.0 ); m.segment<3>( 3 * i ) << mm, mm, 0.5 * mm * a * a; const double M = fix ? 1.0 : big * mm; m.segment<3>( 3 * j ) << M, M, M * b * b;
    std::vector<bool> fx( 2, false ); fx[size_t( j )] = fix; VectorXu gi( 2 ); gi( i ) = 0; gi( j ) = 1;
    s.sim.state() = RigidBody2DState( qq, v, m, fx, gi, geo, {}, {}, {} ); s.kind = box ? 2 : 0; s.fixed = fix; s.rmin = s.rmax = a; d = box ? "circle on fixed box" : "circle on fixed circle";
    Caps caps = s.caps(); caps.lcp = !box; caps.cache = false; caps.disk = false;
    const int mode = box ? 2 : q.i( 1, 2 );
    #else
    const int kind = q.i( 0, 2 ); const double a = q.logu( 0.2, 2.0 ), b = q.logu( 0.2, 2.0 ); r0 = a; Bodies3 B;
    const Vector3s ha = a * Vector3s( q.u( 0.4, 1 ), q.u( 0.4, 1 ), q.u( 0.4, 1 ) ), hb = b * Vector3s( q.u( 0.4, 1 ), q.u( 0.4, 1 ), q.u( 0.4, 1 ) );
    for( int k = 0; k < 2; ++k ) { if( kind == 0 ) B.geo.emplace_back( new RigidBodySphere( k ? b : a ) ); else if( kind == 1 ) B.geo.emplace_back( new RigidBodyBox( k ? hb : ha ) ); else B.geo.emplace_back( mkBoxMesh( k ? hb : ha ) ); }
    Matrix33sr R1 = randRot( q ), R0 = kind == 0 ? randRot( q ) : R1; if( kind != 0 ) { const Eigen::AngleAxisd aa( 0.2 * q.gauss(), Vector3s( q.gauss(), q.gauss(), q.gauss() ).normalized() ); R0 = Matrix33sr( aa.toRotationMatrix() * R1 ); }
    Vector3s off, nrm; if( kind == 0 ) { nrm = Vector3s( q.gauss(), q.gauss(), q.gauss() ).normalized(); off = ( a + b ) * nrm; } else { const int ax = q.i( 0, 2 ); Vector3s l( 0, 0, 0 ), nl( 0, 0, 0 ); nl( ax ) = q.sgn(); double ex = 0; for( int k = 0; k < 3; ++k ) ex += ha( k ) * std::fabs( ( R1.transpose() * R0 )( ax, k ) ); l = nl * ( hb( ax ) + ex ); for( int k = 0; k < 3; ++k ) if( k != ax ) l( k ) = q.u( -0.4, 0.4 ) * hb( k ); off = R1 * l; nrm = R1 * nl; }
    off -= ( kind ? 0.03 : 0.002 ) * a * q.u( -0.1, 1 ) * nrm;
    const Vector3s x1( q.gauss(), q.gauss(), q.gauss() ); const double sp = a * q.u( 1.0, 5.0 ); Vector3s v0( -sp * nrm ); v0 += 0.7 * sp * Vector3s( q.gauss(), q.gauss(), q.gauss() ).cross( nrm );
    const Vector3s w0( q.u( -1, 1 ), q.u( -1, 1 ), q.u( -1, 1 ) ); const double rho = q.logu( 0.3, 3.0 ); const bool second = q.chance( 0.5 );
    for( int k = 0; k < 2; ++k ) { if( ( k == 0 ) != second ) B.add( x1 + off, v0, R0, w0, 0, rho, false ); else B.add( x1, Vector3s( 0, 0, 0 ), R1, Vector3s( 0, 0, 0 ), 1, fix ? 1.0 : rho * big, fix ); }
    B.set( s.sim.state() ); s.kind = kind; s.fixed = fix; s.rmin = s.rmax = a; d = kind == 0 ? "sphere on fixed sphere" : ( kind == 1 ? "box on fixed box" : "mesh on fixed mesh" );
    Caps caps = s.caps(); caps.cache = false; caps.gs = false; caps.disk = false;
    const int mode = kind == 0 ? q.i( 1, 2 ) : 1;
    #endif
    caps.gs = false; D[t] = mkDyn( q, mode, caps, 1.0e-13, 5000 );
    if( mode == 1 && D[t].desc.find( "lcp_ql" ) == std::string::npos ) { std::string nm; D[t].iop = mkImpactOp( 3, nm ); D[t].desc += " -> " + nm; }
    D[t].dt = VSIM == 2 && s.kind == 2 ? Rat( 1, 100000 ) : Rat( 1, 500 );
  }
  d += " | " + D[0].desc; c.family( d );
  const ActiveSet as = predictActive( S[0]->sim, D[0].dt, 1 ), bs = predictActive( S[1]->sim, D[1].dt, 1 );
  if( as.size() != bs.size() ) { c.viol( "heavy_contacts", vf::Msg() << as.size() << " contacts with the fixed body, " << bs.size() << " with an equal heavy one | " << d ); return; }
  if( as.empty() ) { c.stat( "missed" ); return; }
  const VectorXs v0 = V( S[0]->sim );
  D[0].step( S[0]->sim ); D[1].step( S[1]->sim ); c.stat( "heavy_comparisons" ); c.stat( "heavy_" + as[0]->name() );
  const int i = bodyFixed( S[0]->sim, 0 ) ? 1 : 0; VectorXs x = bodyV( V( S[0]->sim ), i ), y = bodyV( V( S[1]->sim ), i ); x.tail( RV - RD ) *= r0; y.tail( RV - RD ) *= r0;
  const double sc = vf::maxabs( v0 ) * ( 1.0 + r0 );
  if( !( ( x - y ).norm() <= ( D[0].mode == 1 ? 2.0e-4 : ( VSIM == 2 && S[0]->kind == 2 ? 1.0e-2 : 2.0e-3 ) ) * sc ) ) c.viol( "heavy", vf::Msg() << "against the fixed body " << vf::vs( x ) << ", against a heavy one " << vf::vs( y ) << " (" << as.size() << " contacts " << as[0]->name() << ") | " << d );
  c.seen( vf::hv( x ) );
}

int main( int argc, char** argv )
{
  return vf::main_( argc, argv, []( vf::Ctx& c, vf::Rng& r, long )
  {
    const double u = r.u();
    if( u < 0.5 ) immovable( c, r ); else if( u < 0.75 ) massless( c, r ); else heavy( c, r );
  } );
}
