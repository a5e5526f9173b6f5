// Random scenes and time stepping for the three simulators, selected by -DVSIM=1 (ball2d), 2 (rigidbody2d), 3 (rigidbody3d).
#ifndef VERIF_SIM_H
#define VERIF_SIM_H
#include "common.h"
#include "scisim/Math/Rational.h"
#include "scisim/Math/MathUtilities.h"
#include "scisim/Utilities.h"
#include "scisim/StringUtilities.h"
#include "scisim/Constraints/Constraint.h"
#include "scisim/UnconstrainedMaps/UnconstrainedMap.h"
#include "scisim/UnconstrainedMaps/FlowableSystem.h"
#include "scisim/Constraints/ConstrainedSystem.h"
#include "scisim/ScriptingCallback.h"
#include "scisim/ConstrainedMaps/ConstrainedMapUtilities.h"
#include "scisim/ConstrainedMaps/ImpulsesToCache.h"
#include "scisim/ConstrainedMaps/ImpactMaps/ImpactMap.h"
#include "scisim/ConstrainedMaps/ImpactMaps/ImpactOperator.h"
#include "scisim/ConstrainedMaps/ImpactMaps/GaussSeidelOperator.h"
#include "scisim/ConstrainedMaps/ImpactMaps/JacobiOperator.h"
#include "scisim/ConstrainedMaps/ImpactMaps/GROperator.h"
#include "scisim/ConstrainedMaps/ImpactMaps/GRROperator.h"
#include "scisim/ConstrainedMaps/ImpactMaps/LCPOperatorAPGD.h"
#include "scisim/ConstrainedMaps/ImpactMaps/LCPOperatorQL.h"
#include "scisim/ConstrainedMaps/ImpactMaps/LCPOperatorQLVP.h"
#include "scisim/ConstrainedMaps/ImpactFrictionMap.h"
#include "scisim/ConstrainedMaps/GeometricImpactFrictionMap.h"
#include "scisim/ConstrainedMaps/StabilizedImpactFrictionMap.h"
#include "scisim/ConstrainedMaps/SymplecticEulerImpactFrictionMap.h"
#include "scisim/ConstrainedMaps/FrictionSolver.h"
#include "scisim/ConstrainedMaps/Sobogus.h"
#include "scisim/ConstrainedMaps/StaggeredProjections.h"
#include "scisim/ConstrainedMaps/GRRFriction.h"
#include "scisim/ConstrainedMaps/FrictionMaps/FrictionOperator.h"
#include "scisim/ConstrainedMaps/FrictionMaps/BoundConstrainedMDPOperatorQL.h"
#include "scisim/ConstrainedMaps/FrictionMaps/LinearMDPOperatorQL.h"

typedef Rational<std::intmax_t> Rat;

struct Opt
{
  int nmin = 2, nmax = 10;
  double gravity = 0.6;    // probability
  double planes = 0.65;
  double curved = 0.15;    // drum / cylinder
  double portal = 0.25;
  double le = 0.5;         // of the portal scenes (2D only)
  double fixed = 0.3;      // probability that a scene has fixed bodies
  double penalty = 0.0;    // ball2d only
  double moving = 0.0;     // moving planes/cylinders (as a script would set them)
  double overlap = 0.2;    // probability that initial overlaps are allowed
  double packed = 0.6;     // probability of a tight packing
  int kind = -1;           // geometry: -1 any; rb2d 0 circles 1 boxes 2 both; rb3d 0 spheres 1 boxes 2 meshes 3 staples
  double speed = 1.0;
};

struct Scene;

// What the contact types of a scene support: the library exits (by design) on unsupported combinations.
struct Caps
{
  bool cache = true; // warm start cache
  bool gs = true;    // per-contact resolveImpact (gauss_seidel, jacobi)
  bool lcp = true;   // evalgradg (lcp, gr, grr)
  bool disk = true;  // friction disk basis (staggered projections, grr_friction)
  bool smooth = true;// smooth friction basis (symplectic_euler, stabilized impact-friction maps)
  bool pts = true;   // at most one contact point per pair: iterated restitution converges in reasonable time at any CoR
  bool gap = true;   // gap function (stabilized maps)
};

#if VSIM == 1
#include "sim_ball2d.h"
#elif VSIM == 2
#include "sim_rb2d.h"
#elif VSIM == 3
#include "sim_rb3d.h"
#else
#error VSIM
#endif

inline FlowableSystem& fsys( Sim& s ) { return (FlowableSystem&) s; }
inline ConstrainedSystem& csys( Sim& s ) { return (ConstrainedSystem&) s; }

typedef std::vector<std::unique_ptr<Constraint>> ActiveSet;

struct Dyn
{
  int mode = 0;
  std::unique_ptr<UnconstrainedMap> umap;
  std::unique_ptr<ImpactOperator> iop;
  std::unique_ptr<ImpactMap> imap;
  std::unique_ptr<FrictionSolver> solver;
  std::unique_ptr<ImpactFrictionMap> ifmap;
  double CoR = 0.0, mu = 0.0;
  Rat dt{ 1, 100 };
  unsigned it = 0;
  std::string desc;
  bool warm = false, serializable = true;
  std::unique_ptr<PythonScripting> cb{ new PythonScripting };

  void step( Sim& sim )
  {
    ++it;
    if( mode == 0 ) sim.flow( *cb, it, dt, *umap );
    #if VSIM == 3
    else if( mode == 1 ) sim.flow( *cb, it, dt, *umap, *iop, CoR );
    #else
    else if( mode == 1 ) sim.flow( *cb, it, dt, *umap, *iop, CoR, *imap );
    #endif
    else sim.flow( *cb, it, dt, *umap, CoR, mu, *solver, *ifmap );
  }
  void serialize( std::ostream& o ) const
  {
    Utilities::serialize( mode, o );
    SimUtil::serialize( umap, o );
    ConstrainedMapUtilities::serialize( iop, o );
    #if VSIM != 3
    ConstrainedMapUtilities::serialize( imap, o );
    #endif
    ConstrainedMapUtilities::serialize( solver, o );
    ConstrainedMapUtilities::serialize( ifmap, o );
    Utilities::serialize( CoR, o ); Utilities::serialize( mu, o ); Utilities::serialize( dt, o ); Utilities::serialize( it, o );
  }
  void deserialize( std::istream& i )
  {
    mode = Utilities::deserialize<int>( i );
    umap = SimUtil::deserializeUnconstrainedMap( i );
    iop = ConstrainedMapUtilities::deserializeImpactOperator( i );
    #if VSIM != 3
    imap = ConstrainedMapUtilities::deserializeImpactMap( i );
    #endif
    solver = ConstrainedMapUtilities::deserializeFrictionSolver( i );
    ifmap = ConstrainedMapUtilities::deserializeImpactFrictionMap( i );
    CoR = Utilities::deserialize<scalar>( i ); mu = Utilities::deserialize<scalar>( i ); dt = Utilities::deserialize<Rat>( i ); it = Utilities::deserialize<unsigned>( i );
  }
};

inline std::string simBytes( const Sim& s ) { std::stringstream o; s.serialize( o ); return o.str(); }
inline std::string dynBytes( const Dyn& d ) { std::stringstream o; d.serialize( o ); return o.str(); }

inline Rat pickDt( vf::Rng& r ) { static const std::vector<Rat> l{ Rat( 1, 10 ), Rat( 1, 50 ), Rat( 1, 100 ), Rat( 1, 100 ), Rat( 1, 200 ), Rat( 1, 1000 ), Rat( 3, 1000 ), Rat( 7, 300 ) }; return r.pick( l ); }

// An inner solve of an iterated operator: gives up (the case is abandoned) when the outer iteration does not settle, as with a body squeezed
// between approaching walls. Presents itself, and is written to snapshots, as the operator it wraps.
struct GuardOp final : public ImpactOperator
{
  std::unique_ptr<ImpactOperator> op; long left;
  explicit GuardOp( const ImpactOperator& o, const long n = 400 ) : op( o.clone() ), left( n ) {}
  virtual void flow( const std::vector<std::unique_ptr<Constraint>>& cons, const SparseMatrixsc& M, const SparseMatrixsc& Minv, const VectorXs& q0, const VectorXs& v0, const VectorXs& v0F, const SparseMatrixsc& N, const SparseMatrixsc& Q, const VectorXs& nrel, const VectorXs& CoR, VectorXs& alpha ) override
  {
    if( --left < 0 ) throw vf::Abandon{ "abandoned_not_converged" };
    op->flow( cons, M, Minv, q0, v0, v0F, N, Q, nrel, CoR, alpha );
  }
  virtual std::string name() const override { return op->name(); }
  virtual std::unique_ptr<ImpactOperator> clone() const override { return std::unique_ptr<ImpactOperator>( new GuardOp( *op, left ) ); }
  virtual void serialize( std::ostream& o ) const override { op->serialize( o ); }
};

// Impact operators: k in [0,6)
inline std::unique_ptr<ImpactOperator> mkImpactOp( const int k, std::string& nm )
{
  switch( k )
  {
    case 0: nm = "gauss_seidel"; return std::unique_ptr<ImpactOperator>( new GaussSeidelOperator( 1.0e-7 ) );
    case 1: { nm = "gr_ql"; LCPOperatorQL l( 1.0e-12 ); return std::unique_ptr<ImpactOperator>( new GROperator( 1.0e-7, GuardOp( l, 1500 ) ) ); }
    case 2: { nm = "gr_apgd"; LCPOperatorAPGD l( 1.0e-9, 50000 ); return std::unique_ptr<ImpactOperator>( new GROperator( 1.0e-7, GuardOp( l, 300 ) ) ); }
    case 3: nm = "lcp_ql"; return std::unique_ptr<ImpactOperator>( new LCPOperatorQL( 1.0e-12 ) );
    case 4: nm = "lcp_apgd"; return std::unique_ptr<ImpactOperator>( new LCPOperatorAPGD( 1.0e-9, 50000 ) );
    case 5: { nm = "grr"; GaussSeidelOperator e( 1.0e-7 ); LCPOperatorQL l( 1.0e-12 ); GROperator g( 1.0e-7, GuardOp( l, 1500 ) ); return std::unique_ptr<ImpactOperator>( new GRROperator( g, l ) ); }
    default: nm = "jacobi"; return std::unique_ptr<ImpactOperator>( new JacobiOperator( 1.0e-7 ) );
  }
}

inline SobogusSolverType sobogusType()
{
  return VSIM == 1 ? SobogusSolverType::Balls2D : ( VSIM == 2 ? SobogusSolverType::RigidBody2D : SobogusSolverType::RigidBodies3D );
}

// The contacts the next step of this simulation will respond to (every constrained map predicts, then detects).
inline ActiveSet predictActive( Sim& sim, const Rat& dt, const unsigned it )
{
  std::string nm; std::unique_ptr<UnconstrainedMap> um = mkUMap( 0, nm );
  const VectorXs q0 = Q( sim ), v0 = V( sim ); VectorXs q1( q0.size() ), v1( v0.size() );
  um->flow( q0, v0, fsys( sim ), it, double( dt ), q1, v1 );
  ActiveSet as; sim.computeActiveSet( q0, q1, v0, as );
  return as;
}

// mode: 0 unconstrained, 1 impact, 2 impact+friction; -1 any.
inline Dyn mkDyn( vf::Rng& r, int mode, const Caps& caps, const double ftol = 1.0e-8, const int fiters = 2000 )
{
  Dyn d;
  d.umap = pickUMap( r, d.desc );
  if( mode < 0 ) { static const std::vector<int> m{ 0, 1, 1, 2, 2 }; mode = r.pick( m ); }
  d.mode = mode;
  d.dt = pickDt( r );
  static const std::vector<double> cors{ 0.0, 0.0, 0.3, 0.5, 0.9, 1.0, 1.0 };
  static const std::vector<double> mus{ 0.0, 0.1, 0.4, 0.7, 1.3 };
  if( mode == 1 )
  {
    std::string nm;
    int k = r.i( 0, 5 );
    if( k == 0 && !caps.gs ) k = r.i( 1, 5 );
    if( k == 2 && !caps.pts ) k = 1; // redundant contacts: APGD is too slow inside GR
    if( k == 0 || caps.lcp ) {} else { d.mode = 2; mode = 2; }
    if( mode == 1 ) {
    d.iop = mkImpactOp( k, nm );
    d.CoR = r.pick( cors );
    if( k == 3 || k == 4 ) d.CoR = r.chance( 0.5 ) ? 1.0 : r.pick( cors );
    if( !caps.pts && k != 3 && k != 4 ) d.CoR = 1.0;
    #if VSIM != 3
    d.warm = caps.cache && r.chance( 0.5 );
    #endif
    d.imap.reset( new ImpactMap( d.warm ) );
    d.desc += " " + nm + ( d.warm ? " warm" : "" );
    }
  }
  if( mode == 2 )
  {
    d.mu = r.pick( mus );
    d.CoR = r.pick( cors );
    d.warm = caps.cache && r.chance( 0.6 );
    int m = r.i( 0, 3 );
    int s = r.i( 0, 3 );
    if( s == 3 || !caps.disk ) s = 0;
    // staggered projections needs a smooth friction basis, whose 3D operator needs Ipopt; grr_friction needs a 3D basis
    if( s != 0 ) s = VSIM == 3 ? 2 : 1;
    if( m == 1 && !( caps.smooth && caps.gap ) ) m = 0;
    if( m == 2 && !caps.smooth ) m = 0;
    const ImpulsesToCache itc = d.warm ? ( VSIM == 3 || r.chance( 0.5 ) ? ImpulsesToCache::NORMAL : ImpulsesToCache::NORMAL_AND_FRICTION ) : ImpulsesToCache::NONE;
    if( s != 0 && m != 3 ) m = 0;
    if( m == 3 ) m = 0;
    if( m == 0 ) { d.ifmap.reset( new GeometricImpactFrictionMap( ftol, unsigned( fiters ), itc ) ); d.desc += " geometric"; }
    else if( m == 1 ) { d.ifmap.reset( new StabilizedImpactFrictionMap( ftol, unsigned( fiters ), d.warm, d.warm && r.chance( 0.5 ) ) ); d.desc += " stabilized"; }
    else { d.ifmap.reset( new SymplecticEulerImpactFrictionMap( ftol, unsigned( fiters ), itc, caps.gap && r.chance( 0.5 ), r.chance( 0.5 ) ? 0.0 : 1.0e-3 ) ); d.CoR = 0.0; d.desc += " symplectic_euler"; }
    if( s == 0 ) { d.solver.reset( new Sobogus( sobogusType(), 20 ) ); d.desc += " sobogus"; }
    else
    {
      LCPOperatorQL iop( 1.0e-12 );
      std::unique_ptr<FrictionOperator> fop;
      #if VSIM == 3
      fop.reset( new LinearMDPOperatorQL( 6, 1.0e-10 ) );
      #else
      fop.reset( new BoundConstrainedMDPOperatorQL( 1.0e-10 ) );
      #endif
      if( s == 1 ) { const bool a = r.chance( 0.5 ), b = r.chance( 0.5 ); d.solver.reset( new StaggeredProjections( a, b, iop, *fop ) ); d.desc += " staggered"; }
      else { d.solver.reset( new GRRFriction( iop, *fop ) ); d.desc += " grr_friction"; }
    }
    d.desc += d.warm ? " warm" : "";
  }
  vf::Msg m; m << d.desc << " CoR=" << d.CoR << " mu=" << d.mu << " dt=" << double( d.dt );
  d.desc = std::string( m );
  return d;
}
#endif
