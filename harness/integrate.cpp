// C14: every integrator against its definition (translation), against a fine reference solution of Euler's equations (rotation), and for conservation over long runs.
#include "response.h"
#include "laws.h"

static int stride() { return VSIM == 2 ? 3 : RD; }
static VectorXs accel( Sim& s, const std::vector<Law>& L, const VectorXs& q, const VectorXs& m, VectorXs& sc )
{
  VectorXs F = refF( s, L, q, m, sc );
  for( int b = 0; b < nBodies( s ); ++b ) { F.segment<RD>( stride() * b ) /= m( b ); sc( b ) /= m( b ); if( bodyFixed( s, b ) ) { F.segment<RD>( stride() * b ).setZero(); sc( b ) = 0; } }
  return F;
}

#if VSIM == 3
typedef Eigen::Matrix<long double,3,3> LM; typedef Eigen::Matrix<long double,3,1> LV;
static Matrix3s rotOf( const VectorXs& q, const int n, const int b ) { Matrix3s R; for( int i = 0; i < 3; ++i ) for( int j = 0; j < 3; ++j ) R( i, j ) = q( 3 * n + 9 * b + 3 * i + j ); return R; }
static LM hat( const LV& w ) { LM H; H << 0, -w( 2 ), w( 1 ), w( 2 ), 0, -w( 0 ), -w( 1 ), w( 0 ), 0; return H; }
// torque-free rotation: R' = [w]R with w = R I^-1 R^T L, L constant; classical Runge-Kutta with small steps
static LM freeRotation( const Matrix3s& R0, const Vector3s& I0, const Vector3s& w0, const double T, const int steps )
{
  LM R = R0.cast<long double>(); const LV I = I0.cast<long double>(); const LV L = R * ( I.asDiagonal() * ( R.transpose() * w0.cast<long double>() ) ); const long double h = (long double) T / steps;
  auto f = [&]( const LM& X ) { const LV w = X * ( I.cwiseInverse().asDiagonal() * ( X.transpose() * L ) ); return LM( hat( w ) * X ); };
  for( int k = 0; k < steps; ++k ) { const LM a = f( R ), b = f( R + h / 2 * a ), c = f( R + h / 2 * b ), d = f( R + h * c ); R += h / 6 * ( a + 2 * b + 2 * c + d ); }
  return R;
}
static double eKin( const Matrix3s& R, const Vector3s& I0, const Vector3s& w ) { const Vector3s b = R.transpose() * w; return 0.5 * b.dot( I0.asDiagonal() * b ); }

static void rotations( vf::Ctx& c, vf::Rng& r )
{
  // a few bodies of any inertia, spinning freely
  const int n = r.i( 1, 4 ); Bodies3 B; std::string nm;
  for( int k = 0; k < n; ++k )
  {
    if( r.chance( 0.3 ) ) B.geo.emplace_back( new RigidBodySphere( r.logu( 0.1, 3.0 ) ) );
    else { const double s = r.logu( 0.1, 3.0 ); B.geo.emplace_back( new RigidBodyBox( s * Vector3s( r.u( 0.3, 1.0 ), r.u( 0.3, 1.0 ), r.u( 0.3, 1.0 ) ) ) ); }
    Vector3s w( r.gauss(), r.gauss(), r.gauss() ); w *= r.logu( 0.1, 1.0 ) * 3.0 / w.norm(); if( r.chance( 0.1 ) ) w.setZero(); else if( r.chance( 0.15 ) ) w *= r.logu( 1.0e-6, 1.0e-2 ); // hardly turning at all
    if( r.chance( 0.2 ) ) { const int a = r.i( 0, 2 ); const double x = w.norm(); w.setZero(); w( a ) = x; }
    B.add( Vector3s( 10.0 * k, r.gauss(), r.gauss() ), Vector3s( r.gauss(), r.gauss(), r.gauss() ), r.chance( 0.2 ) ? Matrix33sr( Matrix33sr::Identity() ) : randRot( r ), w, unsigned( k ), r.logu( 0.3, 3.0 ), k > 0 && r.chance( 0.15 ) );
    if( B.fixed.back() ) { B.V.back().setZero(); B.omega.back().setZero(); }
  }
  const int um = r.i( 0, 2 ); std::unique_ptr<UnconstrainedMap> map = mkUMap( um, nm ); c.family( "rotation " + nm );
  std::vector<Vector3s> g; for( int k = r.i( 0, 2 ); k > 0; --k ) g.push_back( Vector3s( r.gauss(), r.gauss(), r.gauss() ) );
  const int N = 8 * r.i( 1, 4 ); const Rat h0( 1, r.i( 20, 60 ) );
  const bool gyro = nm != "exponential_euler";
  std::vector<std::vector<double>> err( 3 ); std::vector<LM> ref( static_cast<size_t>( n ) ); std::vector<double> hw( static_cast<size_t>( n ), 0.0 );
  const double h = double( h0 ), T = h * N;
  for( int lev = 0; lev < 3; ++lev )
  {
    Sim s; B.set( s.state() ); for( const Vector3s& a : g ) s.state().addForce( NearEarthGravityForce( a ) );
    const VectorXs q0 = s.state().q(), v0 = s.state().v(); const VectorXs I0 = s.state().M0().diagonal();
    Dyn D; D.mode = 0; std::string again; D.umap = mkUMap( um, again ); D.dt = Rat( h0.numerator(), h0.denominator() << lev );
    for( int k = 0; k < ( N << lev ); ++k )
    {
      D.step( s );
      const VectorXs& q = s.state().q(); const VectorXs& v = s.state().v();
      if( !vf::finite( q ) || !vf::finite( v ) ) { c.viol( "non_finite/" + nm, vf::Msg() << "step " << k << " of free rotation at h " << double( D.dt ) << " is not finite" ); return; }
      for( int b = 0; b < n; ++b )
      {
        const Matrix3s R = rotOf( q, n, b ); const Vector3s w = v.segment<3>( 3 * n + 3 * b ), w0 = v0.segment<3>( 3 * n + 3 * b ), J = I0.segment<3>( 3 * n + 3 * b );
        const double orth = ( R * R.transpose() - Matrix3s::Identity() ).norm(), det = R.determinant();
        c.stat( "orientations" );
        if( !( orth <= 1.0e-12 && std::fabs( det - 1.0 ) <= 1.0e-12 ) ) c.viol( "orthonormal/" + nm, vf::Msg() << "body " << b << " step " << k << ": orientation is off a rotation by " << orth << ", determinant " << det );
        if( B.fixed[size_t( b )] ) { if( R != rotOf( q0, n, b ) || q.segment<3>( 3 * b ) != q0.segment<3>( 3 * b ) || w.norm() != 0.0 || v.segment<3>( 3 * b ).norm() != 0.0 ) c.viol( "fixed_moved/" + nm, vf::Msg() << "fixed body " << b << " moved" ); continue; }
        if( gyro )
        {
          const Matrix3s R0 = rotOf( q0, n, b ); const Vector3s L0 = R0 * ( J.asDiagonal() * ( R0.transpose() * w0 ) ), L1 = R * ( J.asDiagonal() * ( R.transpose() * w ) );
          c.stat( "angular_momenta" );
          if( !( ( L1 - L0 ).norm() <= ( 1.0e-11 + 1.0e-12 * k ) * L0.norm() ) ) c.viol( "angular_momentum/" + nm, vf::Msg() << "body " << b << ": free rotation changed the angular momentum from " << vf::vs( L0 ) << " to " << vf::vs( L1 ) << " in " << k + 1 << " steps" );
          const double e0 = eKin( R0, J, w0 ), e1 = eKin( R, J, w ), x = double( D.dt ) * L0.norm() / J.minCoeff();
          if( !( std::fabs( e1 - e0 ) <= ( 2.0 * x * x + 1.0e-11 + 1.0e-12 * k ) * e0 ) ) c.viol( "rotation_energy/" + nm, vf::Msg() << "body " << b << ": free rotation changed the energy from " << e0 << " to " << e1 << " in " << k + 1 << " steps of h*omega " << x );
        }
        else if( !( ( w - w0 ).norm() <= 1.0e-13 * w0.norm() ) ) c.viol( "angular_velocity/" + nm, vf::Msg() << "body " << b << ": angular velocity changed from " << vf::vs( w0 ) << " to " << vf::vs( w ) << " without a torque" );
      }
      c.stat( "steps" );
    }
    const VectorXs& q = s.state().q(); const VectorXs& v = s.state().v();
    for( int b = 0; b < n; ++b )
    {
      if( B.fixed[size_t( b )] ) { err[size_t( lev )].push_back( 0 ); continue; }
      const Matrix3s R0 = rotOf( q0, n, b ), R = rotOf( q, n, b ); const Vector3s w0 = v0.segment<3>( 3 * n + 3 * b ), J = I0.segment<3>( 3 * n + 3 * b );
      if( lev == 0 ) { ref[size_t( b )] = gyro ? freeRotation( R0, J, w0, T, 16 * N ) : LM( ( Eigen::AngleAxisd( w0.norm() * T, w0.norm() > 0 ? Vector3s( w0.normalized() ) : Vector3s( 1, 0, 0 ) ).toRotationMatrix() * R0 ).cast<long double>() ); }
      hw[size_t( b )] = h * ( J.asDiagonal() * ( R0.transpose() * w0 ) ).norm() / J.minCoeff();
      err[size_t( lev )].push_back( double( ( R.cast<long double>() - ref[size_t( b )] ).norm() ) );
      // translation under gravity, whatever the rotation does
      Vector3s G( 0, 0, 0 ); for( const Vector3s& a : g ) G += a;
      const double hh = double( D.dt ), steps = double( N << lev );
      const Vector3s xe = q0.segment<3>( 3 * b ) + T * v0.segment<3>( 3 * b ) + ( gyro ? 0.5 * T * T : 0.5 * hh * hh * steps * ( steps - 1 ) ) * G, ve = v0.segment<3>( 3 * b ) + T * G;
      const double sc = q0.segment<3>( 3 * b ).norm() + T * v0.segment<3>( 3 * b ).norm() + T * T * G.norm();
      c.stat( "ballistic" );
      if( !( ( q.segment<3>( 3 * b ) - xe ).norm() <= 1.0e-12 * sc ) ) c.viol( "ballistic_position/" + nm, vf::Msg() << "body " << b << " at " << vf::vs( q.segment<3>( 3 * b ) ) << " after " << steps << " steps of " << hh << ", expected " << vf::vs( xe ) );
      if( !( ( v.segment<3>( 3 * b ) - ve ).norm() <= 1.0e-12 * ( v0.segment<3>( 3 * b ).norm() + T * G.norm() ) ) ) c.viol( "ballistic_velocity/" + nm, vf::Msg() << "body " << b << " velocity " << vf::vs( v.segment<3>( 3 * b ) ) << " after " << steps << " steps of " << hh << ", expected " << vf::vs( ve ) );
    }
  }
  for( int b = 0; b < n; ++b ) if( !B.fixed[size_t( b )] )
  {
    const size_t k = size_t( b ); const double x = hw[k], cap = ( x * N ) * x * x; // T omega * ( h omega )^2
    c.stat( "orders" );
    for( int lev = 0; lev < 3; ++lev ) if( !( err[size_t( lev )][k] <= 1.0 * cap / double( 1 << ( 2 * lev ) ) + 1.0e-11 ) ) c.viol( "rotation_error/" + nm, vf::Msg() << "body " << b << ": orientation off the exact free rotation by " << err[size_t( lev )][k] << " after " << ( N << lev ) << " steps of h*omega " << x / ( 1 << lev ) << " (h, h/2, h/4: " << err[0][k] << " " << err[1][k] << " " << err[2][k] << ") inertia " << vf::vs( B.I0[k] ) );
    if( x <= 0.25 && err[2][k] > 1.0e-8 && err[0][k] > 1.0e-3 * cap )
    {
      c.stat( "orders_measured" );
      if( !( err[1][k] >= 2.5 * err[2][k] ) ) c.viol( "order/" + nm, vf::Msg() << "body " << b << ": halving the step changes the error " << err[0][k] << " -> " << err[1][k] << " -> " << err[2][k] << " at h*omega " << x );
    }
  }
  if( gyro )
  { // there and back again: as many steps with the velocities reversed lead back to the start
    Sim s; B.set( s.state() ); for( const Vector3s& a : g ) s.state().addForce( NearEarthGravityForce( a ) );
    const VectorXs q0 = s.state().q(), v0 = s.state().v(); Dyn D; D.mode = 0; std::string again; D.umap = mkUMap( um, again ); D.dt = h0;
    for( int k = 0; k < N; ++k ) D.step( s );
    s.state().v() *= -1.0;
    for( int k = 0; k < N; ++k ) D.step( s );
    for( int b = 0; b < n; ++b ) if( !B.fixed[size_t( b )] )
    {
      const double sc = q0.segment<3>( 3 * b ).norm() + T * v0.segment<3>( 3 * b ).norm() + T * T * 3.0, e = ( s.state().q().segment<3>( 3 * b ) - q0.segment<3>( 3 * b ) ).norm();
      c.stat( "reversals" );
      if( !( e <= 1.0e-12 * sc ) ) c.viol( "reversal_position/" + nm, vf::Msg() << "body " << b << ": " << N << " steps there and back end " << e << " from the start" );
      if( hw[size_t( b )] > 0.3 ) continue; // the implicit equation of the dmv map need not be solvable for long steps
      const Matrix3s R0 = rotOf( q0, n, b ), R = rotOf( s.state().q(), n, b ); const Vector3s w0 = v0.segment<3>( 3 * n + 3 * b ), w = s.state().v().segment<3>( 3 * n + 3 * b );
      c.stat( "rotation_reversals" );
      if( !( ( R - R0 ).norm() <= 1.0e-11 ) || !( ( w + w0 ).norm() <= 1.0e-11 * w0.norm() ) ) c.viol( "reversal_rotation/" + nm, vf::Msg() << "body " << b << ": " << N << " steps of free rotation there and back end with the orientation " << ( R - R0 ).norm() << " and the angular velocity " << ( w + w0 ).norm() << " from the start (h*omega " << hw[size_t( b )] << ")" );
    }
  }
  c.seen( vf::fnv( err[0].data(), err[0].size() * sizeof( double ) ) ); c.sample( "rotation " + nm );
}
#endif

// each step of each integrator is the map its name stands for
static void maps( vf::Ctx& c, vf::Rng& r )
{
  Opt op; op.gravity = 0; op.portal = 0; op.nmin = 1; op.nmax = 10; op.overlap = 0.5; op.fixed = 0.4;
  Scene S = mkScene( r, op ); Sim& s = S.sim; const int n = nBodies( s ), st = stride();
  std::string d = S.desc; const std::vector<Law> L = randomLaws( c, r, S, r.chance( 0.1 ) ? 0 : r.i( 1, 3 ), 0.5, d );
  VectorXs m( n ); for( int b = 0; b < n; ++b ) m( b ) = bodyMass( s, b );
  std::string nm; const int um = r.i( 0, numUMaps() - 1 ); Dyn D; D.mode = 0; D.umap = mkUMap( um, nm ); D.dt = pickDt( r ); c.family( d + " | " + nm );
  bool pen = false; for( const Law& l : L ) pen = pen || !l.grav;
  const double h = double( D.dt ); const int steps = r.i( 1, c.thorough ? 400 : 40 );
  const VectorXs qs = Q( s ), vs = V( s ); RVec G = RVec::Zero(); for( const Law& l : L ) if( l.grav ) G += l.g;
  double e0 = 0, es = 0; if( !pen ) { double su; e0 = refU( s, L, qs, m, su ); }
  (void) es;
  for( int k = 0; k < steps; ++k )
  {
    const VectorXs q0 = Q( s ), v0 = V( s ); VectorXs s0, s1;
    const VectorXs a0 = accel( s, L, q0, m, s0 ); VectorXs q1 = q0, v1 = v0;
    const bool verlet = nm == "verlet" || nm == "split_ham" || nm == "dmv", expl = nm == "exponential_euler";
    for( int b = 0; b < n; ++b ) { const RVec a = a0.segment<RD>( st * b ), v = v0.segment<RD>( st * b ); q1.segment<RD>( st * b ) += verlet ? RVec( h * v + 0.5 * h * h * a ) : ( expl ? RVec( h * v ) : RVec( h * ( v + h * a ) ) ); if( VSIM == 3 && bodyFixed( s, b ) ) q1.segment<RD>( st * b ) = q0.segment<RD>( st * b ); }
    const VectorXs a1 = accel( s, L, q1, m, s1 );
    for( int b = 0; b < n; ++b ) { const RVec a = verlet ? RVec( 0.5 * ( a0.segment<RD>( st * b ) + a1.segment<RD>( st * b ) ) ) : RVec( a0.segment<RD>( st * b ) ); v1.segment<RD>( st * b ) += h * a; }
    if( VSIM == 2 ) for( int b = 0; b < n; ++b ) q1( 3 * b + 2 ) += h * v0( 3 * b + 2 );
    D.step( s );
    const VectorXs& q = Q( s ); const VectorXs& v = V( s );
    for( int b = 0; b < n; ++b )
    {
      const double sx = q0.segment<RD>( st * b ).norm() + h * v0.segment<RD>( st * b ).norm() + h * h * s0( b ), sv = v0.segment<RD>( st * b ).norm() + h * ( s0( b ) + s1( b ) );
      c.stat( "steps_judged" );
      if( !( ( q.segment<RD>( st * b ) - q1.segment<RD>( st * b ) ).norm() <= 1.0e-11 * sx ) ) c.viol( "position/" + nm, vf::Msg() << "body " << b << " step " << k << ": position " << vf::vs( q.segment<RD>( st * b ) ) << ", the integrator's definition gives " << vf::vs( q1.segment<RD>( st * b ) ) << " | " << d );
      if( !( ( v.segment<RD>( st * b ) - v1.segment<RD>( st * b ) ).norm() <= 1.0e-10 * sv ) ) c.viol( "velocity/" + nm, vf::Msg() << "body " << b << " step " << k << ": velocity " << vf::vs( v.segment<RD>( st * b ) ) << ", the integrator's definition gives " << vf::vs( v1.segment<RD>( st * b ) ) << " | " << d );
      #if VSIM == 2
      if( !( std::fabs( q( 3 * b + 2 ) - q1( 3 * b + 2 ) ) <= 1.0e-12 * ( std::fabs( q0( 3 * b + 2 ) ) + h * std::fabs( v0( 3 * b + 2 ) ) ) && v( 3 * b + 2 ) == v0( 3 * b + 2 ) ) ) c.viol( "angle/" + nm, vf::Msg() << "body " << b << " step " << k << ": angle " << q( 3 * b + 2 ) << " rate " << v( 3 * b + 2 ) << ", expected " << q1( 3 * b + 2 ) << " rate " << v0( 3 * b + 2 ) << " | " << d );
      #endif
    }
    if( pen && vf::maxabs( v ) > 1.0e3 * ( S.rmax + vf::maxabs( vs ) + 1.0 ) ) break; // stiff penalty at a large step
    // no force, or none but internal ones: the total momentum stays
    RVec p0 = RVec::Zero(), p1 = RVec::Zero(); double sp = 0, mt = 0;
    for( int b = 0; b < n; ++b ) { p0 += m( b ) * v0.segment<RD>( st * b ); p1 += m( b ) * v.segment<RD>( st * b ); sp += m( b ) * ( v0.segment<RD>( st * b ).norm() + h * ( s0( b ) + s1( b ) ) ); mt += bodyFixed( s, b ) ? 0.0 : m( b ); }
    if( !( ( p1 - p0 - h * mt * G ).norm() <= 1.0e-11 * sp ) ) c.viol( "momentum/" + nm, vf::Msg() << "total momentum changed from " << vf::vs( p0 ) << " to " << vf::vs( p1 ) << " | " << d );
  }
  // ballistic motion: closed form after any number of steps, energy bounded (constant for the second-order integrators)
  if( !pen )
  {
    const double N = steps, T = N * h; const VectorXs& q = Q( s ); const VectorXs& v = V( s );
    const double off = nm == "symplectic_euler" ? 0.5 * h * h * N * ( N + 1 ) : ( nm == "exponential_euler" ? 0.5 * h * h * N * ( N - 1 ) : 0.5 * T * T );
    for( int b = 0; b < n; ++b ) if( !bodyFixed( s, b ) )
    {
      const RVec x0 = qs.segment<RD>( st * b ), w0 = vs.segment<RD>( st * b ), xe = x0 + T * w0 + off * G, ve = w0 + T * G; c.stat( "ballistic" );
      if( !( ( q.segment<RD>( st * b ) - xe ).norm() <= 1.0e-11 * ( x0.norm() + T * w0.norm() + T * T * G.norm() + h * T * G.norm() ) ) ) c.viol( "ballistic_position/" + nm, vf::Msg() << "body " << b << " at " << vf::vs( q.segment<RD>( st * b ) ) << " after " << steps << " steps, expected " << vf::vs( xe ) << " | " << d );
      if( !( ( v.segment<RD>( st * b ) - ve ).norm() <= 1.0e-11 * ( w0.norm() + T * G.norm() ) ) ) c.viol( "ballistic_velocity/" + nm, vf::Msg() << "body " << b << " velocity " << vf::vs( v.segment<RD>( st * b ) ) << " after " << steps << " steps, expected " << vf::vs( ve ) << " | " << d );
    }
  }
  c.stat( "map_" + nm ); c.seen( vf::hv( Q( s ) ) ); c.sample( d + " | " + nm );
}

int main( int argc, char** argv )
{
  return vf::main_( argc, argv, []( vf::Ctx& c, vf::Rng& r, long )
  {
    #if VSIM == 3
    if( r.chance( 0.5 ) ) { rotations( c, r ); return; }
    #endif
    maps( c, r );
  } );
}
