// Observation of contact response: a step is taken through the public flow functions while proxies around the impact operator / friction
// solver record the impulses; the velocities just before and just after the response are read from the simulation.
#ifndef VERIF_RESPONSE_H
#define VERIF_RESPONSE_H
#include "sim.h"
#include "scisim/ScriptingCallback.h"

enum { RD = VSIM == 3 ? 3 : 2, RV = VSIM == 1 ? 2 : ( VSIM == 2 ? 3 : 6 ) };
typedef Eigen::Matrix<double,RD,1> RVec;

inline VectorXs bodyV( const VectorXs& v, const int i )
{
  #if VSIM == 3
  VectorXs o( 6 ); o << v.segment<3>( 3 * i ), v.segment<3>( v.size() / 2 + 3 * i ); return o;
  #else
  return v.segment<RV>( RV * i );
  #endif
}
inline void addBodyV( VectorXs& v, const int i, const VectorXs& d )
{
  #if VSIM == 3
  v.segment<3>( 3 * i ) += d.head<3>(); v.segment<3>( v.size() / 2 + 3 * i ) += d.tail<3>();
  #else
  v.segment<RV>( RV * i ) += d;
  #endif
}
inline RVec bodyX( const VectorXs& q, const int i )
{
  #if VSIM == 2
  return q.segment<2>( 3 * i );
  #else
  return q.segment<RD>( RD * i );
  #endif
}
// of a round body
inline double radiusOf( Sim& s, const int b )
{
  #if VSIM == 1
  return s.state().r()( b );
  #elif VSIM == 2
  return static_cast<const CircleGeometry&>( *s.state().geometry()[s.state().geometryIndices()( b )] ).r();
  #else
  return static_cast<const RigidBodySphere&>( s.state().getGeometryOfBody( b ) ).r();
  #endif
}
inline bool bodyFixed( Sim& s, const int i )
{
  #if VSIM == 1
  (void) s; (void) i; return false;
  #elif VSIM == 2
  return s.state().fixed( i );
  #else
  return s.state().isKinematicallyScripted( unsigned( i ) );
  #endif
}

struct Con // one contact as the response saw it
{
  int a = -1, b = -1;         // simulated bodies; b < 0: static or scripted partner
  int kin = -1;               // scripted partner
  std::string name;
  MatrixXXsc B, H0, H1;
  VectorXs k;
  VectorXs rel( const VectorXs& v ) const { VectorXs u = H0 * bodyV( v, a ) + k; if( b >= 0 ) u -= H1 * bodyV( v, b ); return u; }
  VectorXs u0, u1;            // relative velocity before and after, in the contact frame
  double alpha = 0, CoR = 0, mu = 0, extra = 0; VectorXs beta; // beta in the contact frame
  bool tele() const { return name.find( "tele" ) != std::string::npos || name.find( "kick" ) != std::string::npos; }
  int comp = -1; bool alone = false;
};

inline Con mkCon( const Constraint& cc, const VectorXs& q, const VectorXs& v, const MatrixXXsc* B )
{
  Con e; std::pair<int,int> ij; cc.getSimulatedBodyIndices( ij ); e.a = ij.first; e.b = ij.second; e.name = cc.name();
  if( e.name != "static_cylinder_body" && e.b < 0 ) { std::pair<int,int> kk; cc.getBodyIndices( kk ); e.kin = kk.second; }
  if( B ) e.B = *B; else cc.computeBasis( q, v, e.B );
  e.H0 = MatrixXXsc::Zero( RD, RV ); e.H1 = MatrixXXsc::Zero( RD, RV ); cc.evalH( q, e.B, e.H0, e.H1 );
  // scripted part: independent of the simulated bodies' velocities
  e.k = e.B.transpose() * cc.computeRelativeVelocity( q, v ) - e.H0 * bodyV( v, e.a );
  if( e.b >= 0 ) e.k += e.H1 * bodyV( v, e.b );
  return e;
}

struct Solve // what the proxy saw
{
  std::vector<Con> con;
  bool called = false, friction = false, ok = true, linearised = false;
  VectorXs alpha, beta, CoR, mu, v0, vout, nrel_extra, f; SparseMatrixsc M, Minv, N; MatrixXXsc bases; double error = 0;
  std::vector<VectorXs> tangents; // linearised: friction impulse per contact, world frame
  int calls = 0;
};

struct ProxyOp final : public ImpactOperator
{
  std::shared_ptr<ImpactOperator> op; Solve* s; std::function<void()> pre;
  ProxyOp( std::shared_ptr<ImpactOperator> o, Solve* s_ ) : op( o ), s( s_ ) {}
  virtual void flow( const std::vector<std::unique_ptr<Constraint>>& cons, const SparseMatrixsc& M, const SparseMatrixsc& Minv, const VectorXs& q0, const VectorXs& v0, const VectorXs& v0F, const SparseMatrixsc& N, const SparseMatrixsc& Q, const VectorXs& nrel, const VectorXs& CoR, VectorXs& alpha ) override
  {
    op->flow( cons, M, Minv, q0, v0, v0F, N, Q, nrel, CoR, alpha );
    s->called = true; ++s->calls; s->alpha = alpha; s->CoR = CoR; s->v0 = v0; s->M = M; s->Minv = Minv; s->N = N; s->vout = v0 + Minv * ( N * alpha );
    s->con.clear(); for( const auto& k : cons ) s->con.push_back( mkCon( *k, q0, v0, nullptr ) );
  }
  virtual std::string name() const override { return op->name(); }
  virtual std::unique_ptr<ImpactOperator> clone() const override { return std::unique_ptr<ImpactOperator>( new ProxyOp( op, s ) ); }
  virtual void serialize( std::ostream& o ) const override { op->serialize( o ); }
};

struct ProxySolver final : public FrictionSolver
{
  std::unique_ptr<FrictionSolver> f; Solve* s;
  ProxySolver( std::unique_ptr<FrictionSolver> f_, Solve* s_ ) : f( std::move( f_ ) ), s( s_ ) {}
  virtual void solve( const unsigned iteration, const scalar& dt, const FlowableSystem& fs, const SparseMatrixsc& M, const SparseMatrixsc& Minv, const VectorXs& CoR, const VectorXs& mu, const VectorXs& q0, const VectorXs& v0, std::vector<std::unique_ptr<Constraint>>& as, const MatrixXXsc& cb, const VectorXs& nx, const VectorXs& dx, const unsigned max_iters, const scalar& tol, VectorXs& fv, VectorXs& alpha, VectorXs& beta, VectorXs& v2, bool& ok, scalar& error ) override
  {
    f->solve( iteration, dt, fs, M, Minv, CoR, mu, q0, v0, as, cb, nx, dx, max_iters, tol, fv, alpha, beta, v2, ok, error );
    s->called = s->friction = true; ++s->calls; s->alpha = alpha; s->beta = beta; s->CoR = CoR; s->mu = mu; s->v0 = v0; s->vout = v2; s->M = M; s->Minv = Minv; s->bases = cb; s->ok = ok; s->error = error; s->nrel_extra = nx; s->f = fv;
    s->con.clear(); for( size_t k = 0; k < as.size(); ++k ) { const MatrixXXsc B = cb.block( 0, RD * long( k ), RD, RD ); s->con.push_back( mkCon( *as[k], q0, v0, &B ) ); }
    s->linearised = f->name() == "grr_friction";
    if( s->linearised )
    {
      s->tangents.clear();
      const int per = int( beta.size() / alpha.size() );
      for( size_t k = 0; k < as.size(); ++k )
      {
        SparseMatrixsc D( v0.size(), per ); D.reserve( VectorXi::Constant( per, 12 ) ); VectorXs dr( per );
        as[k]->computeGeneralizedFrictionDisk( q0, v0, 0, per, D, dr ); D.makeCompressed();
        std::pair<int,int> ij; as[k]->getSimulatedBodyIndices( ij );
        RVec t = RVec::Zero();
        for( int m = 0; m < per; ++m ) for( int e = 0; e < RD; ++e ) t( e ) += D.coeff( ( VSIM == 2 ? 3 : RD ) * ij.first + e, m ) * beta( per * long( k ) + m );
        s->tangents.push_back( t );
      }
    }
  }
  virtual unsigned numFrictionImpulsesPerNormal( const unsigned d ) const override { return f->numFrictionImpulsesPerNormal( d ); }
  virtual void serialize( std::ostream& o ) const override { f->serialize( o ); }
  virtual std::string name() const override { return f->name(); }
};

// contact-dependent coefficients, as a script would set them
struct CoefScript final : public ScriptingCallback
{
  uint64_t seed; double cor0, cor1, mu0, mu1; bool on = true;
  double pickc( const int i, const double a, const double b ) const { vf::Rng r( seed + uint64_t( i ) * 7919u ); return r.chance( 0.25 ) ? ( r.chance( 0.5 ) ? a : b ) : r.u( a, b ); }
  virtual void restitutionCoefficient( const std::vector<std::unique_ptr<Constraint>>& as, VectorXs& cor ) override { for( size_t k = 0; k < as.size(); ++k ) cor( long( k ) ) = pickc( int( k ), cor0, cor1 ); }
  virtual void frictionCoefficient( const std::vector<std::unique_ptr<Constraint>>& as, VectorXs& mu ) override { for( size_t k = 0; k < as.size(); ++k ) mu( long( k ) ) = pickc( int( k ) + 1000, mu0, mu1 ); }
  virtual void startOfSim() override {}
  virtual void endOfSim() override {}
  virtual void startOfStep( const unsigned, const Rat& ) override {}
  virtual void endOfStep( const unsigned, const Rat& ) override {}
  virtual std::string name() const override { return on ? "coefficients" : ""; }
};

struct Obs // one observed step
{
  VectorXs q0, v0, pre, post; // velocities just before and after the response
  VectorXs q_end, v_end;
  std::vector<Con> con; ActiveSet as;
  Solve s; SparseMatrixsc M;
  bool le_step = false;
  std::vector<int> comp; int ncomp = 0; std::vector<bool> touched;
  bool scripted = false;
};

struct Runner
{
  vf::Ctx& c; Scene& S; Dyn& D; Solve sv; bool se = false, stab = false, lcp = false, iterated = false, grrf = false, stag = false, sob = false; std::string op;
  double h, v_init;
  Runner( vf::Ctx& c_, Scene& S_, Dyn& D_ ) : c( c_ ), S( S_ ), D( D_ ), h( double( D_.dt ) ), v_init( vf::maxabs( V( S_.sim ) ) )
  {
    if( D.iop ) { op = D.iop->name(); lcp = op.find( "lcp" ) != std::string::npos || D.desc.find( "lcp_" ) != std::string::npos; iterated = !lcp; std::shared_ptr<ImpactOperator> o( D.iop.release() ); D.iop.reset( new ProxyOp( o, &sv ) ); }
    if( D.solver ) { op = D.solver->name(); grrf = op == "grr_friction"; stag = op.find( "stag" ) != std::string::npos; sob = !grrf && !stag; D.solver.reset( new ProxySolver( std::move( D.solver ), &sv ) ); }
    if( D.ifmap ) { se = D.ifmap->name().find( "symplectic" ) != std::string::npos; stab = D.ifmap->name().find( "stabilized" ) != std::string::npos; }
  }
  VectorXs gkick() const
  {
    VectorXs k = VectorXs::Zero( const_cast<Scene&>( S ).sim.state().v().size() );
    for( int b = 0; b < nBodies( S.sim ); ++b ) if( !bodyFixed( const_cast<Scene&>( S ).sim, b ) ) { VectorXs d = VectorXs::Zero( RV ); d.head( RD ) = h * S.g; addBodyV( k, b, d ); }
    return k;
  }
  // takes one step; script != null: directly through the map, with contact-dependent coefficients
  Obs step( CoefScript* script = nullptr )
  {
    Obs o; Sim& sim = S.sim;
    o.q0 = Q( sim ); o.v0 = V( sim ); o.M = fsys( sim ).M();
    VectorXs q1( o.q0.size() ), v1( o.v0.size() );
    const VectorXs gk = gkick();
    if( se ) fsys( sim ).linearInertialConfigurationUpdate( o.q0, o.v0 + gk, h, q1 );
    else D.umap->flow( o.q0, o.v0, fsys( sim ), D.it + 1, h, q1, v1 );
    sim.computeActiveSet( o.q0, q1, o.v0, o.as );
    sv = Solve();
    if( script == nullptr ) D.step( sim );
    else
    {
      o.scripted = true; ++D.it;
      VectorXs qe( o.q0.size() ), ve( o.v0.size() );
      if( D.mode == 1 ) D.imap->flow( *script, fsys( sim ), csys( sim ), *D.umap, *D.iop, D.it, h, D.CoR, o.q0, o.v0, qe, ve );
      else D.ifmap->flow( *script, fsys( sim ), csys( sim ), *D.umap, *D.solver, D.it, h, D.CoR, D.mu, o.q0, o.v0, qe, ve );
      Q( sim ) = qe; V( sim ) = ve;
      #if VSIM == 3
      sim.state().updateMandMinv();
      #endif
    }
    o.q_end = Q( sim ); o.v_end = V( sim ); o.s = sv;
    if( !vf::finite( o.v_end ) || !vf::finite( o.q_end ) ) { c.stat( "nonfinite_state" ); throw vf::Abandon{ "abandoned_nonfinite" }; }
    const bool late = se || stab;
    o.pre = late ? VectorXs( o.v0 + gk ) : o.v0;
    o.post = late ? o.v_end : VectorXs( o.v_end - gk );
    o.le_step = S.le;
    if( S.le && sv.called ) o.post = sv.vout + ( se ? gk : VectorXs( VectorXs::Zero( gk.size() ) ) );
    else if( S.le ) o.post = o.pre;
    #if VSIM == 3
    // free rotation changes the angular velocities of non-spherical bodies within the step
    if( S.kind != 0 ) { const long n = o.post.size() / 2; if( sv.called ) o.post.tail( n ) = sv.vout.tail( n ); else o.post.tail( n ) = o.pre.tail( n ); if( stab ) o.pre.tail( n ) = sv.called ? VectorXs( sv.v0.tail( n ) ) : VectorXs( o.pre.tail( n ) ); }
    #endif
    const int n = nBodies( sim );
    o.comp.resize( size_t( n ) ); for( int b = 0; b < n; ++b ) o.comp[size_t( b )] = b;
    std::function<int( int )> find = [&]( int b ) { while( o.comp[size_t( b )] != b ) b = o.comp[size_t( b )]; return b; };
    o.touched.assign( size_t( n ), false );
    if( !sv.called ) for( const auto& k : o.as ) sv.con.push_back( mkCon( *k, o.q0, o.v0, nullptr ) );
    for( size_t k = 0; k < sv.con.size(); ++k )
    {
      Con e = sv.con[k];
      e.u0 = e.rel( o.pre ); e.u1 = e.rel( o.post );
      e.CoR = D.CoR; e.mu = D.mu; e.beta = VectorXs::Zero( RD - 1 );
      if( script ) { VectorXs t( long( sv.con.size() ) ); t.setConstant( D.CoR ); script->restitutionCoefficient( o.as, t ); e.CoR = t( long( k ) ); t.setConstant( D.mu ); script->frictionCoefficient( o.as, t ); e.mu = t( long( k ) ); }
      if( sv.called && sv.alpha.size() == long( sv.con.size() ) )
      {
        e.alpha = sv.alpha( long( k ) );
        if( sv.friction ) { if( sv.linearised ) e.beta = e.B.rightCols( RD - 1 ).transpose() * sv.tangents[k]; else if( sv.beta.size() == ( RD - 1 ) * long( sv.con.size() ) ) e.beta = sv.beta.segment( ( RD - 1 ) * long( k ), RD - 1 ); }
      }
      if( se && sv.called && sv.nrel_extra.size() == long( sv.con.size() ) ) e.extra = sv.nrel_extra( long( k ) ) - ( e.u0( 0 ) - e.rel( o.v0 )( 0 ) );
      o.touched[size_t( e.a )] = true; if( e.b >= 0 ) { o.touched[size_t( e.b )] = true; o.comp[size_t( find( e.a ) )] = find( e.b ); }
      o.con.push_back( e );
    }
    std::map<int,int> cnt;
    for( int b = 0; b < n; ++b ) o.comp[size_t( b )] = find( b );
    for( Con& e : o.con ) { e.comp = o.comp[size_t( e.a )]; ++cnt[e.comp]; }
    for( Con& e : o.con ) e.alone = cnt[e.comp] == 1;
    return o;
  }
};
// Can any velocity satisfy every contact's law?  n_k . v + k_k + CoR_k u0_k + extra_k >= 0 (law) or n_k . v + k_k >= 0; Hildreth's method on the dual
inline bool feasible( const Obs& o, const bool law, const double tol )
{
  // resting partners and one coefficient: v = -CoR v0 obeys the law
  if( std::all_of( o.con.begin(), o.con.end(), [&]( const Con& e ) { return e.k.norm() <= tol && e.extra <= tol && e.CoR == o.con[0].CoR; } ) ) return true;
  const size_t n = o.con.size(); std::vector<VectorXs> g( n ), mg( n ); std::vector<double> q( n ), b( n );
  for( size_t k = 0; k < n; ++k )
  {
    const Con& e = o.con[k]; g[k] = VectorXs::Zero( o.pre.size() ); addBodyV( g[k], e.a, e.H0.row( 0 ).transpose() ); if( e.b >= 0 ) addBodyV( g[k], e.b, -e.H1.row( 0 ).transpose() );
    mg[k] = o.s.Minv * g[k]; q[k] = g[k].dot( mg[k] ); b[k] = e.k( 0 ) + ( law ? e.CoR * e.u0( 0 ) + e.extra : 0.0 );
  }
  VectorXs v = o.s.v0; std::vector<double> a( n, 0.0 );
  for( int it = 0; it < 20000; ++it )
  {
    double worst = 0;
    for( size_t k = 0; k < n; ++k ) { const double w = g[k].dot( v ) + b[k]; worst = std::min( worst, w ); const double d = std::max( -a[k], -w / q[k] ); a[k] += d; v += d * mg[k]; }
    if( worst > -tol ) return true;
  }
  return false;
}

inline double massOf( const Obs& o, const int b ) { return o.M.coeff( ( VSIM == 2 ? 3 : RD ) * b, ( VSIM == 2 ? 3 : RD ) * b ); }
// largest speed scale of a velocity (lever arms included through size)
inline double vscale( const VectorXs& v, const double size ) { double m = 0; for( int b = 0; b < int( v.size() / RV ); ++b ) { const VectorXs x = bodyV( v, b ); m = std::max( m, x.head( RD ).norm() + ( RV > RD ? size * x.tail( RV - RD ).norm() : 0.0 ) ); } return m; }
#endif
