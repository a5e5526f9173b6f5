// Stand-in for the QL Fortran solver (not redistributable, absent here): dense convex QP
//   min 1/2 x^T C x + d^T x   s.t.  A x + b >= 0 (first me rows: = 0),  xl <= x <= xu
// by a Mehrotra-style primal-dual interior point method. Same calling convention as ql_.
#include <Eigen/Dense>
#include <cmath>
#include <limits>
#include <vector>
extern "C" void ql_( int* m, int* me, int* mmax, int* n, int* nmax, int* mnn, double* c, double* d, double* a, double* b, double* xl, double* xu, double* x, double* u, double* eps, int* mode, int* iout, int* ifail, int* iprint, double* war, int* lwar, int* iwar, int* liwar )
{
  (void)mnn; (void)eps; (void)mode; (void)iout; (void)iprint; (void)war; (void)lwar; (void)iwar; (void)liwar;
  const int N{ *n };
  const int MI{ *m };
  for( int i = 0; i < MI + 2 * N; ++i ) { u[i] = 0.0; }
  *ifail = 0;
  if( N == 0 ) { return; }
  if( *me != 0 ) { *ifail = 3; return; }
  Eigen::Map<const Eigen::MatrixXd,0,Eigen::OuterStride<>> C( c, N, N, Eigen::OuterStride<>( *nmax ) );
  Eigen::Map<const Eigen::VectorXd> dv( d, N );
  // Constraints G x >= h; bounds with xl == xu are treated as fixed variables
  std::vector<int> fr;
  Eigen::VectorXd xfix = Eigen::VectorXd::Zero( N );
  std::vector<bool> fixed( N, false );
  for( int i = 0; i < N; ++i ) { if( xl[i] == xu[i] ) { fixed[i] = true; xfix( i ) = xl[i]; } else { fr.push_back( i ); } }
  const int nf{ int( fr.size() ) };
  if( nf == 0 ) { for( int i = 0; i < N; ++i ) { x[i] = xfix( i ); } return; }
  std::vector<int> kind, idx; // 0: row of A, 1: lower, 2: upper
  for( int i = 0; i < MI; ++i ) { kind.push_back( 0 ); idx.push_back( i ); }
  for( int k = 0; k < nf; ++k ) { if( std::isfinite( xl[fr[k]] ) ) { kind.push_back( 1 ); idx.push_back( k ); } }
  for( int k = 0; k < nf; ++k ) { if( std::isfinite( xu[fr[k]] ) ) { kind.push_back( 2 ); idx.push_back( k ); } }
  const int K{ int( kind.size() ) };
  Eigen::MatrixXd Q( nf, nf );
  Eigen::VectorXd p( nf );
  const Eigen::VectorXd dfull = dv + C * xfix;
  for( int i = 0; i < nf; ++i ) { p( i ) = dfull( fr[i] ); for( int j = 0; j < nf; ++j ) { Q( i, j ) = 0.5 * ( C( fr[i], fr[j] ) + C( fr[j], fr[i] ) ); } }
  Eigen::MatrixXd G = Eigen::MatrixXd::Zero( K, nf );
  Eigen::VectorXd h = Eigen::VectorXd::Zero( K );
  for( int k = 0; k < K; ++k )
  {
    if( kind[k] == 0 )
    {
      double off{ b[idx[k]] };
      for( int j = 0; j < N; ++j ) { if( fixed[j] ) { off += a[ idx[k] + j * ( *mmax ) ] * xfix( j ); } }
      for( int j = 0; j < nf; ++j ) { G( k, j ) = a[ idx[k] + fr[j] * ( *mmax ) ]; }
      h( k ) = - off;
    }
    else if( kind[k] == 1 ) { G( k, idx[k] ) = 1.0; h( k ) = xl[fr[idx[k]]]; }
    else { G( k, idx[k] ) = -1.0; h( k ) = - xu[fr[idx[k]]]; }
  }
  // Scale the problem: unit diagonal, unit linear term
  Eigen::VectorXd sc = Eigen::VectorXd::Ones( nf );
  for( int i = 0; i < nf; ++i ) { if( Q( i, i ) > 0.0 ) { sc( i ) = 1.0 / std::sqrt( Q( i, i ) ); } }
  Q = sc.asDiagonal() * Q * sc.asDiagonal();
  p = sc.asDiagonal() * p;
  const double ps{ p.size() && p.lpNorm<Eigen::Infinity>() > 0.0 ? p.lpNorm<Eigen::Infinity>() : 1.0 };
  p /= ps;
  G = G * sc.asDiagonal();
  h /= ps;
  Eigen::VectorXd rs = Eigen::VectorXd::Ones( K );
  for( int k = 0; k < K; ++k ) { const double gn{ G.row( k ).norm() }; if( gn > 0.0 ) { rs( k ) = 1.0 / gn; G.row( k ) *= rs( k ); h( k ) *= rs( k ); } }
  Eigen::VectorXd y = Eigen::VectorXd::Zero( nf );
  const double scale{ 1.0 + p.lpNorm<Eigen::Infinity>() };
  Eigen::VectorXd s = ( G * y - h ).cwiseMax( 1.0 );
  Eigen::VectorXd z = Eigen::VectorXd::Constant( K, scale );
  Eigen::VectorXd besty{ y }, bestz{ z };
  double best{ std::numeric_limits<double>::infinity() };
  const double reg{ 1.0e-14 * ( 1.0 + Q.trace() / std::max( 1, nf ) ) };
  for( int it = 0; it < 200; ++it )
  {
    const Eigen::VectorXd rd = Q * y + p - G.transpose() * z;
    const Eigen::VectorXd rp = G * y - s - h;
    const double mu{ K ? s.dot( z ) / K : 0.0 };
    const double err{ std::max( rd.lpNorm<Eigen::Infinity>(), std::max( K ? rp.lpNorm<Eigen::Infinity>() : 0.0, K ? ( s.array() * z.array() ).maxCoeff() : 0.0 ) ) };
    if( err < best ) { best = err; besty = y; bestz = z; }
    if( err <= 1.0e-15 * scale || !std::isfinite( err ) ) { break; }
    const Eigen::VectorXd w = z.cwiseQuotient( s );
    Eigen::MatrixXd S = Q + G.transpose() * w.asDiagonal() * G;
    S.diagonal().array() += reg;
    Eigen::LDLT<Eigen::MatrixXd> f( S );
    auto dirn = [&]( const Eigen::VectorXd& rc, Eigen::VectorXd& dy, Eigen::VectorXd& ds, Eigen::VectorXd& dz )
    {
      // z ds + s dz = -rc, G dy - ds = -rp, Q dy - G^T dz = -rd
      const Eigen::VectorXd t = ( rc + z.cwiseProduct( rp ) ).cwiseQuotient( s );
      dy = f.solve( - rd - G.transpose() * t );
      ds = G * dy + rp;
      dz = - ( rc + z.cwiseProduct( ds ) ).cwiseQuotient( s );
    };
    auto step = [&]( const Eigen::VectorXd& v, const Eigen::VectorXd& dvv ) { double t{ 1.0 }; for( int k = 0; k < K; ++k ) { if( dvv( k ) < 0.0 ) { t = std::min( t, - v( k ) / dvv( k ) ); } } return t; };
    Eigen::VectorXd dy, ds, dz;
    dirn( s.cwiseProduct( z ), dy, ds, dz );
    const double aff{ K ? std::min( step( s, ds ), step( z, dz ) ) : 1.0 };
    const double muaff{ K ? ( s + aff * ds ).dot( z + aff * dz ) / K : 0.0 };
    const double sigma{ mu > 0.0 ? std::pow( muaff / mu, 3.0 ) : 0.0 };
    dirn( s.cwiseProduct( z ) + ds.cwiseProduct( dz ) - Eigen::VectorXd::Constant( K, sigma * mu ), dy, ds, dz );
    const double al{ K ? std::min( 1.0, 0.995 * std::min( step( s, ds ), step( z, dz ) ) ) : 1.0 };
    y += al * dy; s += al * ds; z += al * dz;
  }
  // Polish: solve exactly on the active set the interior point method identified
  {
    auto kkt = [&]( const Eigen::VectorXd& yy, const Eigen::VectorXd& zz )
    {
      const Eigen::VectorXd rd = Q * yy + p - G.transpose() * zz;
      const Eigen::VectorXd sl = G * yy - h;
      double e{ rd.lpNorm<Eigen::Infinity>() };
      for( int k = 0; k < K; ++k ) { e = std::max( e, std::max( - sl( k ), - zz( k ) ) ); e = std::max( e, std::abs( std::min( sl( k ), zz( k ) ) ) ); }
      return e;
    };
    std::vector<int> act;
    const Eigen::VectorXd sl = G * besty - h;
    for( int k = 0; k < K; ++k ) { if( bestz( k ) > sl( k ) ) { act.push_back( k ); } }
    const int na{ int( act.size() ) };
    Eigen::MatrixXd KK = Eigen::MatrixXd::Zero( nf + na, nf + na );
    Eigen::VectorXd rhs = Eigen::VectorXd::Zero( nf + na );
    KK.topLeftCorner( nf, nf ) = Q;
    rhs.head( nf ) = - p;
    for( int k = 0; k < na; ++k ) { KK.block( 0, nf + k, nf, 1 ) = - G.row( act[k] ).transpose(); KK.block( nf + k, 0, 1, nf ) = G.row( act[k] ); rhs( nf + k ) = h( act[k] ); }
    const Eigen::VectorXd sol = KK.completeOrthogonalDecomposition().solve( rhs );
    Eigen::VectorXd yp = sol.head( nf ), zp = Eigen::VectorXd::Zero( K );
    for( int k = 0; k < na; ++k ) { zp( act[k] ) = sol( nf + k ); }
    if( sol.allFinite() && kkt( yp, zp ) <= kkt( besty, bestz ) ) { besty = yp; bestz = zp; }
  }
  for( int k = 0; k < nf; ++k ) { besty( k ) *= ps * sc( k ); }
  for( int k = 0; k < K; ++k ) { bestz( k ) *= ps * rs( k ); }
  for( int k = 0; k < nf; ++k )
  {
    x[fr[k]] = std::min( std::max( besty( k ), xl[fr[k]] ), xu[fr[k]] );
  }
  for( int i = 0; i < N; ++i ) { if( fixed[i] ) { x[i] = xfix( i ); } }
  for( int k = 0; k < K; ++k )
  {
    if( kind[k] == 0 ) { u[idx[k]] = bestz( k ); }
    else if( kind[k] == 1 ) { u[MI + fr[idx[k]]] = bestz( k ); }
    else { u[MI + N + fr[idx[k]]] = bestz( k ); }
  }
  if( !( best <= 1.0e-6 * scale ) ) { *ifail = 2; }
}
