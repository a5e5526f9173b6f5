// Stand-in for the So-bogus dependency, which get_dependencies.sh downloads and this sandbox does not have.
// It implements the part of its interface that scisim uses: block matrices and a block Gauss-Seidel solver
// for the primal problem  M v + f = H^T r,  u = H v + E^T w,  (u,r) in C_mu  (exact Coulomb law, De Saxce form),
// where in each contact's local frame component 0 is the normal one.
#ifndef VERIF_BOGUS_STANDIN
#define VERIF_BOGUS_STANDIN
#include <Eigen/Core>
#include <Eigen/Dense>
#include <Eigen/LU>
#include <cassert>
#include <cmath>
#include <iostream>
#include <map>
#include <vector>
#include <limits>
#include <algorithm>

namespace bogus
{

// Dense storage: the workloads are small. Blocks of fixed row/column sizes.
class BlockMatrixStandin
{
public:
  explicit BlockMatrixStandin( const unsigned br = 0, const unsigned bc = 0 ) : m_br( br ), m_bc( bc ), m_nr( 0 ), m_nc( 0 ) {}
  void reserve( const unsigned ) {}
  void setRows( const unsigned n, const unsigned b ) { m_nr = n; m_br = b; }
  void setCols( const unsigned n, const unsigned b ) { m_nc = n; m_bc = b; }
  void setRows( const unsigned n ) { m_nr = n; }
  void setCols( const unsigned n ) { m_nc = n; }
  Eigen::MatrixXd& insertBack( const unsigned r, const unsigned c ) { return insert( r, c ); }
  Eigen::MatrixXd& insert( const unsigned r, const unsigned c )
  {
    if( r >= m_nr || c >= m_nc ) { std::cerr << "bogus stand-in: block index out of range" << std::endl; std::abort(); }
    if( m_blocks.count( std::make_pair( r, c ) ) ) { std::cerr << "bogus stand-in: block inserted twice" << std::endl; std::abort(); }
    return m_blocks[ std::make_pair( r, c ) ];
  }
  void finalize()
  {
    m_dense = Eigen::MatrixXd::Zero( m_nr * m_br, m_nc * m_bc );
    for( const auto& b : m_blocks )
    {
      if( b.second.rows() != long( m_br ) || b.second.cols() != long( m_bc ) ) { std::cerr << "bogus stand-in: wrong block size" << std::endl; std::abort(); }
      m_dense.block( b.first.first * m_br, b.first.second * m_bc, m_br, m_bc ) = b.second;
    }
  }
  void cacheTranspose() {}
  unsigned rowsOfBlocks() const { return m_nr; }
  unsigned colsOfBlocks() const { return m_nc; }
  Eigen::Index rows() const { return m_dense.rows(); }
  Eigen::Index cols() const { return m_dense.cols(); }
  Eigen::Transpose<const Eigen::MatrixXd> transpose() const { return m_dense.transpose(); }
  const Eigen::MatrixXd& dense() const { return m_dense; }
  Eigen::MatrixXd& dense() { return m_dense; }
private:
  unsigned m_br, m_bc, m_nr, m_nc;
  std::map<std::pair<unsigned,unsigned>,Eigen::MatrixXd> m_blocks;
  Eigen::MatrixXd m_dense;
};
inline Eigen::VectorXd operator*( const BlockMatrixStandin& A, const Eigen::VectorXd& x ) { return A.dense() * x; }

template<unsigned D>
struct PrimalFrictionProblem
{
  PrimalFrictionProblem() : E( D, D ), H( D, 0 ), f( nullptr ), w( nullptr ), mu( nullptr ) {}
  BlockMatrixStandin M, E, H, MInv;
  const double* f;
  const double* w;
  const double* mu;
  void computeMInv()
  {
    const Eigen::Index n{ M.rows() };
    const Eigen::Index b{ M.rowsOfBlocks() ? n / Eigen::Index( M.rowsOfBlocks() ) : 1 };
    MInv.dense() = Eigen::MatrixXd::Zero( n, n );
    for( Eigen::Index i = 0; i < n; i += b ) { MInv.dense().block( i, i, b, b ) = M.dense().block( i, i, b, b ).inverse(); }
  }
};

template<unsigned D>
struct DualFrictionProblem
{
  typedef Eigen::Matrix<double,int(D),1> Vec;
  typedef Eigen::Matrix<double,int(D),int(D)> Mat;
  struct Colors { std::vector<std::size_t> permutation; template<class T> void update( const bool, const T& ) {} void resetPermutation() {} };
  struct GaussSeidelType
  {
    double tol{ 1.0e-6 };
    unsigned max_iters{ 250 };
    unsigned eval_every{ 25 };
    Colors colors;
    void setTol( const double t ) { tol = t; }
    void setMaxIters( const unsigned n ) { max_iters = n; }
    void setEvalEvery( const unsigned n ) { eval_every = n; }
    void setMaxThreads( const unsigned ) {}
    void setAutoRegularization( const double ) {}
    void useInfinityNorm( const bool ) {}
    Colors& coloring() { return colors; }
    template<class T> void setMatrix( const T& ) {}
  };

  BlockMatrixStandin W;
  Eigen::VectorXd b;
  Eigen::VectorXd mu;

  void computeFrom( const PrimalFrictionProblem<D>& p )
  {
    const Eigen::MatrixXd& H{ p.H.dense() };
    W.dense() = H * p.MInv.dense() * H.transpose();
    b = p.E.dense().transpose() * Eigen::VectorXd::Map( p.w, H.rows() ) - H * ( p.MInv.dense() * Eigen::VectorXd::Map( p.f, H.cols() ) );
    mu = Eigen::VectorXd::Map( p.mu, H.rows() / D );
  }
  void undoPermutation() {}
  void applyPermutation( const std::vector<std::size_t>& ) {}

  // Exact solution of the one-contact Coulomb problem u = A r + c
  static Vec solveLocal( const Mat& A, const Vec& c, const double m )
  {
    Vec r( Vec::Zero() );
    if( c( 0 ) >= 0.0 ) { return r; }
    if( m > 0.0 )
    {
      const Vec s{ - A.ldlt().solve( c ) };
      if( s( 0 ) >= 0.0 && s.template tail<int(D)-1>().norm() <= m * s( 0 ) ) { return s; }
    }
    if( m == 0.0 ) { r( 0 ) = - c( 0 ) / A( 0, 0 ); return r; }
    return slide( A, c, m );
  }
  static Vec fromDir( const Mat& A, const Vec& c, const double m, const Vec& d )
  {
    // r = rn ( e0 + m d ), u_n = 0
    Vec e( Vec::Zero() ); e( 0 ) = 1.0; e += m * d;
    const double den{ A.row( 0 ).dot( e ) };
    if( den <= 1.0e-14 * A( 0, 0 ) ) { return Vec::Constant( std::numeric_limits<double>::quiet_NaN() ); }
    return e * ( - c( 0 ) / den );
  }
  static Vec slide( const Mat& A, const Vec& c, const double m )
  {
    Vec best( Vec::Zero() );
    best( 0 ) = - c( 0 ) / A( 0, 0 );
    double best_err{ std::numeric_limits<double>::infinity() };
    auto consider = [&]( const Vec& r )
    {
      if( r( 0 ) != r( 0 ) ) { return; }
      const double err{ residual( r, A * r + c, m, 1.0 ) };
      if( err < best_err ) { best_err = err; best = r; }
    };
    if( D == 2 )
    {
      Vec d( Vec::Zero() );
      d( 1 ) = 1.0; consider( fromDir( A, c, m, d ) );
      d( 1 ) = -1.0; consider( fromDir( A, c, m, d ) );
      return best;
    }
    auto dir = []( const double th ) { Vec d( Vec::Zero() ); d( 1 ) = std::cos( th ); d( D - 1 ) = std::sin( th ); return d; };
    auto g = [&]( const double th )
    {
      const Vec d{ dir( th ) };
      const Vec r{ fromDir( A, c, m, d ) };
      const Vec u{ A * r + c };
      return u( 1 ) * d( D - 1 ) - u( D - 1 ) * d( 1 );
    };
    constexpr unsigned N{ 72 };
    const double off{ 0.0123456789 };
    double gs[N];
    for( unsigned k = 0; k < N; ++k ) { gs[k] = g( off + 2.0 * M_PI * k / N ); }
    for( unsigned k = 0; k < N; ++k )
    {
      double a{ off + 2.0 * M_PI * k / N };
      double e{ off + 2.0 * M_PI * ( k + 1 ) / N };
      double ga{ gs[k] };
      const double ge{ gs[( k + 1 ) % N] };
      if( !( ga == ga ) || !( ge == ge ) || ( ga > 0.0 ) == ( ge > 0.0 ) ) { continue; }
      for( unsigned i = 0; i < 60; ++i )
      {
        const double mid{ 0.5 * ( a + e ) };
        const double gm{ g( mid ) };
        if( ( gm > 0.0 ) == ( ga > 0.0 ) ) { a = mid; ga = gm; } else { e = mid; }
      }
      consider( fromDir( A, c, m, dir( 0.5 * ( a + e ) ) ) );
    }
    return best;
  }
  // Natural-map residual of the Coulomb law: r - P_K( r - rho ( u + m |u_T| e0 ) )
  static double residual( const Vec& r, const Vec& u, const double m, const double rho )
  {
    Vec z{ u };
    z( 0 ) += m * u.template tail<int(D)-1>().norm();
    Vec p{ r - rho * z };
    const double pt{ p.template tail<int(D)-1>().norm() };
    if( p( 0 ) >= 0.0 && pt <= m * p( 0 ) ) {}
    else if( m * pt <= - p( 0 ) ) { p.setZero(); }
    else
    {
      const double n{ ( p( 0 ) + m * pt ) / ( 1.0 + m * m ) };
      p( 0 ) = n;
      if( pt > 0.0 ) { p.template tail<int(D)-1>() *= m * n / pt; }
    }
    return ( r - p ).template lpNorm<Eigen::Infinity>();
  }
  template<class GS> double evalWith( const GS&, const double* rr ) const
  {
    const Eigen::VectorXd r{ Eigen::VectorXd::Map( rr, b.size() ) };
    const Eigen::VectorXd u{ W.dense() * r + b };
    double err{ 0.0 };
    for( Eigen::Index i = 0; i < mu.size(); ++i )
    {
      const double rho{ 1.0 / std::max( 1.0e-300, W.dense().block( D * i, D * i, D, D ).trace() ) };
      err = std::max( err, residual( r.segment<int(D)>( D * i ), u.segment<int(D)>( D * i ), mu( i ), rho ) / std::max( 1.0, rho ) );
    }
    return err;
  }
  template<class GS> double solveWith( const GS& gs, double* rr, unsigned& num_iters, const bool ) const
  {
    Eigen::Map<Eigen::VectorXd> r{ rr, b.size() };
    double err{ evalWith( gs, rr ) };
    Eigen::VectorXd best{ r };
    double best_err{ err };
    num_iters = 0;
    while( num_iters < gs.max_iters && best_err >= gs.tol )
    {
      for( Eigen::Index i = 0; i < mu.size(); ++i )
      {
        const Mat A{ W.dense().block( D * i, D * i, D, D ) };
        const Vec c{ W.dense().middleRows( D * i, D ) * r + b.segment<int(D)>( D * i ) - A * r.segment<int(D)>( D * i ) };
        r.segment<int(D)>( D * i ) = solveLocal( A, c, mu( i ) );
      }
      ++num_iters;
      if( num_iters % gs.eval_every == 0 || num_iters == gs.max_iters )
      {
        err = evalWith( gs, rr );
        if( err < best_err ) { best_err = err; best = r; }
      }
    }
    r = best;
    return best_err;
  }
};

}
#endif
