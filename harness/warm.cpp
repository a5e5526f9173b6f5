// C17: warm starting recalls each contact's own impulse, and does not change the outcome of a step.
#include "response.h"

// who touches whom
static std::string ident( const Constraint& k )
{
  std::pair<int,int> b; k.getBodyIndices( b ); vf::Msg m;
  const std::string n = k.name(); m << n << " " << std::min( b.first, b.second ) << " " << std::max( b.first, b.second );
  if( n.find( "static" ) != std::string::npos ) m << " on " << k.getStaticObjectIndex();
  return m;
}

// the sparsest contacts whose friction has one answer only
static bool simple( const ActiveSet& as )
{
  std::map<int,int> deg;
  for( const auto& k : as ) { std::pair<int,int> ij; k->getSimulatedBodyIndices( ij ); if( ++deg[ij.first] > 1 ) return false; if( ij.second >= 0 && ++deg[ij.second] > 1 ) return false; }
  return true;
}

struct Rec { bool called = false, ok = true, simple = false; std::vector<std::string> ids; VectorXs a_in, b_in, a_out, b_out; std::vector<VectorXs> n; MatrixXXsc bases; };

struct SpyOp final : public ImpactOperator
{
  std::shared_ptr<ImpactOperator> op; Rec* s;
  SpyOp( std::shared_ptr<ImpactOperator> o, Rec* s_ ) : op( o ), s( s_ ) {}
  virtual void flow( const ActiveSet& cons, const SparseMatrixsc& M, const SparseMatrixsc& Minv, const VectorXs& q0, const VectorXs& v0, const VectorXs& v0F, const SparseMatrixsc& N, const SparseMatrixsc& Q, const VectorXs& nrel, const VectorXs& CoR, VectorXs& alpha ) override
  {
    s->called = true; s->a_in = alpha; s->ids.clear(); for( const auto& k : cons ) s->ids.push_back( ident( *k ) );
    op->flow( cons, M, Minv, q0, v0, v0F, N, Q, nrel, CoR, alpha );
    s->a_out = alpha;
  }
  virtual std::string name() const override { return op->name(); }
  virtual std::unique_ptr<ImpactOperator> clone() const override { return std::unique_ptr<ImpactOperator>( new SpyOp( op, s ) ); }
  virtual void serialize( std::ostream& o ) const override { op->serialize( o ); }
};

struct SpySolver final : public FrictionSolver
{
  std::unique_ptr<FrictionSolver> f; Rec* s;
  SpySolver( std::unique_ptr<FrictionSolver> f_, Rec* s_ ) : f( std::move( f_ ) ), s( s_ ) {}
  virtual void solve( const unsigned iteration, const scalar& dt, const FlowableSystem& fs, const SparseMatrixsc& M, const SparseMatrixsc& Minv, const VectorXs& CoR, const VectorXs& mu, const VectorXs& q0, const VectorXs& v0, ActiveSet& as, const MatrixXXsc& cb, const VectorXs& nx, const VectorXs& dx, const unsigned max_iters, const scalar& tol, VectorXs& fv, VectorXs& alpha, VectorXs& beta, VectorXs& v2, bool& ok, scalar& error ) override
  {
    s->called = true; s->a_in = alpha; s->b_in = beta; s->bases = cb; s->ids.clear(); for( const auto& k : as ) s->ids.push_back( ident( *k ) ); s->simple = simple( as );
    f->solve( iteration, dt, fs, M, Minv, CoR, mu, q0, v0, as, cb, nx, dx, max_iters, tol, fv, alpha, beta, v2, ok, error );
    s->a_out = alpha; s->b_out = beta; s->ok = ok;
  }
  virtual unsigned numFrictionImpulsesPerNormal( const unsigned d ) const override { return f->numFrictionImpulsesPerNormal( d ); }
  virtual void serialize( std::ostream& o ) const override { f->serialize( o ); }
  virtual std::string name() const override { return f->name(); }
};

struct Setup { int mode, k, map, solver; ImpulsesToCache cache; double CoR, mu; bool wa, wb, stab; double thr; int um; Rat dt; };

static Dyn build( const Setup& u, const bool warm, Rec* rec )
{
  Dyn d; d.mode = u.mode; d.CoR = u.CoR; d.mu = u.mu; d.dt = u.dt; d.umap = mkUMap( u.um, d.desc ); std::string nm;
  if( u.mode == 1 ) { std::shared_ptr<ImpactOperator> o( mkImpactOp( u.k, nm ).release() ); d.iop.reset( new SpyOp( o, rec ) ); d.imap.reset( new ImpactMap( warm ) ); d.desc += " " + nm; }
  else
  {
    const ImpulsesToCache itc = warm ? u.cache : ImpulsesToCache::NONE; const double tol = 1.0e-12; const unsigned it = 5000;
    if( u.map == 0 ) { d.ifmap.reset( new GeometricImpactFrictionMap( tol, it, itc ) ); d.desc += " geometric"; }
    else if( u.map == 1 ) { d.ifmap.reset( new SymplecticEulerImpactFrictionMap( tol, it, itc, u.stab, u.thr ) ); d.desc += " symplectic_euler"; }
    else { d.ifmap.reset( new StabilizedImpactFrictionMap( tol, it, warm && u.wa, warm && u.wb ) ); d.desc += " stabilized"; }
    std::unique_ptr<FrictionSolver> s;
    if( u.solver == 0 ) { s.reset( new Sobogus( sobogusType(), 20 ) ); d.desc += " sobogus"; }
    else
    {
      LCPOperatorQL iop( 1.0e-12 );
      #if VSIM == 3
      s.reset( new GRRFriction( iop, LinearMDPOperatorQL( 6, 1.0e-10 ) ) ); d.desc += " grr_friction";
      #else
      s.reset( new StaggeredProjections( warm && u.wa, warm && u.wb, iop, BoundConstrainedMDPOperatorQL( 1.0e-10 ) ) ); d.desc += " staggered";
      #endif
    }
    d.solver.reset( new SpySolver( std::move( s ), rec ) );
    d.desc += itc == ImpulsesToCache::NONE ? "" : ( itc == ImpulsesToCache::NORMAL ? " normal" : " normal+friction" );
  }
  return d;
}

static Setup pick( vf::Rng& r, const Caps& caps )
{
  Setup u; u.mode = VSIM != 3 && r.chance( 0.5 ) ? 1 : 2; u.um = r.i( 0, numUMaps() - 1 ); u.dt = pickDt( r );
  u.k = r.i( 0, 5 ); if( u.k == 0 && !caps.gs ) u.k = 3; if( u.k == 2 && !caps.pts ) u.k = 4; if( u.mode == 1 && u.k != 0 && !caps.lcp ) u.mode = 2;
  u.map = r.i( 0, 3 ); if( u.map == 3 ) u.map = 0; if( u.map == 1 && !caps.smooth ) u.map = 0; if( u.map == 2 && !( caps.smooth && caps.gap ) ) u.map = 0;
  u.solver = u.map == 0 && caps.disk && r.chance( 0.4 ) ? 1 : 0;
  u.cache = r.chance( 0.5 ) ? ImpulsesToCache::NORMAL : ImpulsesToCache::NORMAL_AND_FRICTION; if( VSIM == 3 && u.map == 0 ) u.cache = ImpulsesToCache::NORMAL;
  if( u.solver == 1 && VSIM == 3 ) u.cache = ImpulsesToCache::NORMAL;
  static const std::vector<double> cors{ 0.0, 0.0, 0.3, 0.5, 0.9, 1.0 }, mus{ 0.0, 0.0, 0.1, 0.4, 0.7, 1.3 };
  u.CoR = u.mode == 2 && u.map == 1 ? 0.0 : r.pick( cors ); u.mu = u.mode == 1 ? 0.0 : r.pick( mus );
  u.wa = r.chance( 0.7 ); u.wb = r.chance( 0.7 ); u.stab = caps.gap && r.chance( 0.5 ); u.thr = r.chance( 0.5 ) ? 0.0 : 1.0e-3;
  return u;
}

static Scene pickScene( vf::Rng& r, const bool many )
{
  for( ;; )
  {
    Opt op; op.portal = 0.0; op.nmin = 1; op.nmax = many ? 40 : 10; op.packed = 0.85; op.overlap = 0.4; op.planes = 0.8; op.moving = 0.1; if( r.chance( 0.75 ) ) op.kind = 0;
    if( r.chance( 0.15 ) ) op.curved = 1.0;
    Scene S = mkScene( r, op );
    #if VSIM != 2
    if( S.curved && r.chance( 0.7 ) && ( VSIM == 1 || S.caps().cache ) )
    { // a second curved wall close around the bodies
      double R = 0; RVec ax = RVec::Zero(), x = RVec::Zero(); for( int e = 0; e < RD; ++e ) { ax( e ) = r.gauss(); x( e ) = 0.3 * S.rmax * r.gauss(); } ax.normalize();
      for( int b = 0; b < nBodies( S.sim ); ++b ) { RVec d = bodyX( Q( S.sim ), b ) - x; if( RD == 3 ) d -= d.dot( ax ) * ax; R = std::max( R, d.norm() + radiusOf( S.sim, b ) ); }
      R += S.rmax * r.u( -0.02, 0.02 );
      #if VSIM == 1
      S.sim.state().staticDrums().emplace_back( x, R );
      #else
      S.sim.state().addStaticCylinder( StaticCylinder( x, ax, R ) );
      #endif
      S.desc += " second curved wall";
    }
    #endif
    if( S.caps().cache || ( VSIM == 2 && !S.planes ) ) return S;
  }
}

static void trajectory( vf::Ctx& c, vf::Rng& r )
{
  Scene S = pickScene( r, c.thorough && r.chance( 0.3 ) ); const Setup u = pick( r, S.caps() );
  Rec w, k; Dyn W = build( u, true, &w ), C = build( u, false, &k );
  const std::string where = vf::Msg() << S.desc << " | " << W.desc << " CoR=" << u.CoR << " mu=" << u.mu << " dt=" << double( u.dt ); c.family( where );
  const bool shadowed = u.mode == 1 || u.map != 2;
  std::map<std::string,std::vector<VectorXs>> shadow; bool primed = false; // last step's impulses: (alpha, beta...) or in 3D the force and the normal
  Scene T = S; const int steps = r.i( 2, c.thorough ? 40 : 12 ); const double h = double( u.dt ); bool any = false;
  for( int n = 0; n < steps; ++n )
  {
    // cold copy: same positions and velocities, nothing remembered
    T.sim = S.sim; csys( T.sim ).clearConstraintCache(); C.it = W.it; Rec kk; (void) kk;
    Dyn Cn = build( u, false, &k ); Cn.it = W.it;
    const VectorXs q0 = Q( S.sim ), v0 = V( S.sim );
    // contacts that come and go: now and then a body is taken away from its neighbours
    if( r.chance( 0.15 ) ) { const int b = r.i( 0, nBodies( S.sim ) - 1 ); VectorXs d = VectorXs::Zero( RV ); for( int e = 0; e < RD; ++e ) d( e ) = r.gauss() * 3.0 * ( vf::maxabs( v0 ) + 0.01 ); if( !bodyFixed( S.sim, b ) ) { addBodyV( V( S.sim ), b, d ); addBodyV( V( T.sim ), b, d ); } }
    const ActiveSet as = predictActive( S.sim, u.dt, W.it + 1 );
    w = Rec(); k = Rec();
    W.step( S.sim ); Cn.step( T.sim );
    if( !vf::finite( V( S.sim ) ) || !vf::finite( V( T.sim ) ) ) { c.stat( "nonfinite_state" ); return; }
    if( w.called != k.called ) { c.viol( "different_contacts", vf::Msg() << "warm and cold runs of the same step see different contacts | " << where ); return; }
    // what was recalled
    if( w.called && shadowed )
    {
      any = true;
      const bool fr = u.mode == 2 && u.cache == ImpulsesToCache::NORMAL_AND_FRICTION;
      for( size_t i = 0; i < w.ids.size(); ++i )
      {
        const auto it = shadow.find( w.ids[i] ); const long nb = w.b_in.size() / long( w.ids.size() );
        VectorXs got( 1 + ( fr ? nb : 0 ) ); got( 0 ) = w.a_in( long( i ) ); if( fr ) got.tail( nb ) = w.b_in.segment( nb * long( i ), nb );
        c.stat( "recalls" ); if( it != shadow.end() ) c.stat( "recalls_found" ); else if( primed ) c.stat( "recalls_new_contact" );
        bool good = false; std::string want = "0";
        if( it == shadow.end() ) good = got.isZero( 0.0 );
        else for( const VectorXs& x : it->second )
        {
          VectorXs y = x;
          if( VSIM == 3 && fr )
          { // stored as force and normal: turned with the normal
            const MatrixXXsc B = w.bases.block( 0, RD * long( i ), RD, RD ); y = VectorXs::Zero( 3 );
            const Eigen::Vector3d n0 = x.head( 3 ), n1 = B.col( 0 ), f = x.segment( 3, 3 ); const Eigen::Vector3d ax = n0.cross( n1 ); const double s = ax.norm(), cs = n0.dot( n1 );
            if( cs < -0.999 ) { good = true; continue; }
            const Eigen::Vector3d a = s > 0 ? Eigen::Vector3d( ax / s ) : Eigen::Vector3d( 1, 0, 0 ); const Eigen::Vector3d g = s > 0 ? Eigen::Vector3d( f * cs + a.cross( f ) * s + a * a.dot( f ) * ( 1 - cs ) ) : f;
            y = B.transpose() * g;
          }
          if( ( y - got ).norm() <= ( VSIM == 3 && fr ? 1.0e-8 * ( x.norm() ) : 0.0 ) ) good = true; want = vf::vs( y );
        }
        if( !good ) { c.viol( "recalled_impulse", vf::Msg() << "contact " << w.ids[i] << " starts from " << vf::vs( got ) << ", its impulse in the previous step was " << want << " | step " << n << " " << where ); return; }
      }
    }
    if( k.called && shadowed && !( k.a_in.isZero( 0.0 ) && ( k.b_in.size() == 0 || k.b_in.isZero( 0.0 ) ) ) ) { c.viol( "cold_not_zero", vf::Msg() << "without warm starting the solve starts from " << vf::vs( k.a_in ) << " | " << where ); return; }
    shadow.clear(); primed = true;
    if( w.called )
    {
      const bool fr = u.mode == 2 && u.cache == ImpulsesToCache::NORMAL_AND_FRICTION; const long nb = w.b_out.size() / long( w.ids.size() );
      for( size_t i = 0; i < w.ids.size(); ++i )
      {
        VectorXs x( 1 + ( fr ? nb : 0 ) ); x( 0 ) = w.a_out( long( i ) ); if( fr ) x.tail( nb ) = w.b_out.segment( nb * long( i ), nb );
        if( VSIM == 3 && fr ) { const MatrixXXsc B = w.bases.block( 0, RD * long( i ), RD, RD ); VectorXs y( 6 ); y.head( 3 ) = B.col( 0 ); y.tail( 3 ) = B * x; x = y; }
        shadow[w.ids[i]].push_back( x );
      }
    }
    // the same outcome
    const bool unique = u.mode == 1 ? true : ( u.mu == 0.0 || ( w.simple && k.simple ) );
    if( !w.called ) { if( ( V( S.sim ) - V( T.sim ) ).norm() != 0.0 ) { c.viol( "free_step_differs", vf::Msg() << "a step without contacts differs between warm and cold runs | " << where ); return; } continue; }
    // APGD gives up on impulses that grow without bound (a body wedged between opposing walls)
    const double big = 1.0e3 * bodyMass( S.sim, 0 ) * ( vscale( v0, S.rmax ) + h * S.g.norm() + 1.0e-6 );
    if( !unique || !w.ok || !k.ok || ( u.mode == 1 && ( u.k == 2 || u.k == 4 ) && std::max( vf::maxabs( w.a_out ), vf::maxabs( k.a_out ) ) > big ) ) { c.stat( "not_comparable" ); continue; }
    c.stat( "steps_compared" ); if( w.a_in.size() && w.a_in.maxCoeff() > 0 ) c.stat( "steps_compared_primed" );
    const double sv = vscale( v0, S.rmax ) + vscale( V( T.sim ), S.rmax ) + h * S.g.norm(); double tol = ( u.mode == 1 ? ( u.k == 4 || u.k == 2 ? 1.0e-4 : 1.0e-6 ) : 1.0e-4 ) * sv + 1.0e-7;
    if( !S.caps().pts ) tol += 1.0e-3 * sv;
    for( int b = 0; b < nBodies( S.sim ); ++b )
    {
      const VectorXs d = bodyV( V( S.sim ), b ) - bodyV( V( T.sim ), b ); const double e = d.head( RD ).norm() + ( RV > RD ? S.rmin * d.tail( RV - RD ).norm() : 0.0 );
      if( !( e <= tol ) ) { c.viol( "warm_changes_outcome/" + std::string( u.mode == 1 ? W.iop->name() : W.solver->name() ), vf::Msg() << "body " << b << " step " << n << ": velocity " << vf::vs( bodyV( V( S.sim ), b ) ) << " warm, " << vf::vs( bodyV( V( T.sim ), b ) ) << " cold; start " << vf::vs( w.a_in ) << " | " << where ); return; }
    }
  }
  if( any ) { c.seen( vf::hv( V( S.sim ) ) ); c.sample( where ); }
}

// any remembered impulses whatever lead to the same outcome
static void poisoned( vf::Ctx& c, vf::Rng& r )
{
  Scene S = pickScene( r, false ); Setup u = pick( r, S.caps() ); if( u.mode == 2 && u.map == 2 ) u.map = 0;
  if( VSIM == 3 && u.cache == ImpulsesToCache::NORMAL_AND_FRICTION ) u.cache = ImpulsesToCache::NORMAL;
  Rec w, k; Dyn W = build( u, true, &w ), C = build( u, false, &k );
  const int skip = r.i( 0, 3 ); for( int n = 0; n < skip; ++n ) C.step( S.sim );
  const ActiveSet as = predictActive( S.sim, u.dt, C.it + 1 ); if( as.empty() ) { c.stat( "no_contacts" ); return; }
  Scene T = S; csys( S.sim ).clearConstraintCache(); csys( T.sim ).clearConstraintCache(); W.it = C.it; k = Rec();
  const double m = bodyMass( S.sim, 0 ) * ( vf::maxabs( V( S.sim ) ) + 0.01 ); std::set<std::string> done;
  const int how = r.i( 0, 4 );
  for( const auto& x : as )
  {
    if( !done.insert( ident( *x ) ).second ) continue;
    VectorXs imp( u.mode == 2 && u.cache == ImpulsesToCache::NORMAL_AND_FRICTION ? 2 : 1 ); imp( 0 ) = how == 0 ? 1.0 : ( how == 1 ? 0.0 : ( how == 2 ? m * r.u() : m * r.logu( 0.001, 100.0 ) ) ); if( imp.size() == 2 ) imp( 1 ) = imp( 0 ) * u.mu * r.u( -1.0, 1.0 );
    if( how == 3 && r.chance( 0.5 ) ) continue;
    csys( S.sim ).cacheConstraint( *x, imp );
  }
  const std::string where = vf::Msg() << S.desc << " | " << W.desc << " CoR=" << u.CoR << " mu=" << u.mu << " remembered " << how; c.family( where );
  const VectorXs v0 = V( S.sim ); W.step( S.sim ); C.step( T.sim );
  if( !vf::finite( V( S.sim ) ) || !vf::finite( V( T.sim ) ) ) { c.stat( "nonfinite_state" ); return; }
  if( u.mode == 1 && ( u.k == 2 || u.k == 4 ) && std::max( vf::maxabs( w.a_out ), vf::maxabs( k.a_out ) ) > 1.0e3 * ( m + bodyMass( S.sim, 0 ) * double( u.dt ) * S.g.norm() ) ) { c.stat( "not_comparable" ); return; }
  if( !w.ok || !k.ok || !( u.mode == 1 || u.mu == 0.0 || ( w.simple && k.simple ) ) ) { c.stat( "not_comparable" ); return; }
  c.stat( "poisoned_compared" ); if( how == 0 ) c.stat( "poisoned_ones" );
  const double sv = vscale( v0, S.rmax ) + vscale( V( T.sim ), S.rmax ) + double( u.dt ) * S.g.norm(), tol = ( u.mode == 1 ? ( u.k == 4 || u.k == 2 ? 1.0e-4 : 1.0e-6 ) : 1.0e-4 ) * sv + 1.0e-7 + ( S.caps().pts ? 0.0 : 1.0e-3 * sv );
  for( int b = 0; b < nBodies( S.sim ); ++b )
  {
    const VectorXs d = bodyV( V( S.sim ), b ) - bodyV( V( T.sim ), b ); const double e = d.head( RD ).norm() + ( RV > RD ? S.rmin * d.tail( RV - RD ).norm() : 0.0 );
    if( !( e <= tol ) ) { c.viol( "memory_changes_outcome/" + std::string( u.mode == 1 ? W.iop->name() : W.solver->name() ), vf::Msg() << "body " << b << ": velocity " << vf::vs( bodyV( V( S.sim ), b ) ) << " from remembered impulses " << vf::vs( w.a_in ) << ", " << vf::vs( bodyV( V( T.sim ), b ) ) << " cold | " << where ); return; }
  }
  c.seen( vf::hv( V( S.sim ) ) );
}

// the cache by itself
static void cache( vf::Ctx& c, vf::Rng& r )
{
  Scene S = pickScene( r, true ); c.family( "cache " + S.desc );
  std::map<std::string,VectorXs> model; ConstrainedSystem& cs = csys( S.sim ); const int dim = r.i( 1, VSIM == 3 ? 6 : 2 );
  const int rounds = r.i( 1, 5 ); 
  for( int k = 0; k < rounds; ++k )
  {
    const ActiveSet as = predictActive( S.sim, pickDt( r ), 1 ); if( as.empty() ) return;
    if( r.chance( 0.5 ) ) { cs.clearConstraintCache(); model.clear(); if( !cs.constraintCacheEmpty() ) c.viol( "clear", "the cache is not empty after clearing | " + S.desc ); }
    for( const auto& x : as ) { const std::string id = ident( *x ); if( model.count( id ) || r.chance( 0.3 ) ) continue; VectorXs v( dim ); for( int e = 0; e < dim; ++e ) v( e ) = r.gauss(); cs.cacheConstraint( *x, v ); model[id] = v; }
    if( cs.constraintCacheEmpty() != model.empty() ) c.viol( "empty", vf::Msg() << "emptiness wrong with " << model.size() << " entries | " << S.desc );
    if( r.chance( 0.3 ) ) { Sim t( S.sim ); S.sim = t; }
    // moved: the contacts are new objects at other places
    for( int i = 0; i < Q( S.sim ).size() && VSIM != 3; ++i ) Q( S.sim )( i ) += 0.02 * S.rmin * r.gauss();
    for( int i = 0; i < 3 * nBodies( S.sim ) && VSIM == 3; ++i ) Q( S.sim )( i ) += 0.02 * S.rmin * r.gauss();
    const ActiveSet bs = predictActive( S.sim, pickDt( r ), 1 );
    for( const auto& x : bs )
    {
      const std::string id = ident( *x ); VectorXs v( dim ); v.setConstant( 17.0 ); cs.getCachedConstraintImpulse( *x, v ); c.stat( "lookups" );
      const auto it = model.find( id ); const VectorXs want = it == model.end() ? VectorXs( VectorXs::Zero( dim ) ) : it->second; if( it != model.end() ) c.stat( "lookups_found" );
      if( v.size() != dim || ( v - want ).norm() != 0.0 ) { c.viol( "lookup", vf::Msg() << id << " recalls " << vf::vs( v ) << ", stored " << vf::vs( want ) << " | " << S.desc ); return; }
    }
  }
  c.seen( vf::hv( Q( S.sim ) ) );
}

int main( int argc, char** argv )
{
  return vf::main_( argc, argv, []( vf::Ctx& c, vf::Rng& r, long )
  {
    const double x = r.u(); if( x < 0.5 ) trajectory( c, r ); else if( x < 0.8 ) poisoned( c, r ); else cache( c, r );
  } );
}
