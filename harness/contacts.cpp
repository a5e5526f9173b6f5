// C07: the detected contacts are exactly the touching or overlapping pairs.
#include "contacts.h"

static void compare( vf::Ctx& c, Config& C, const std::map<Key,Exp>& ex, const std::string& fam )
{
  c.family( fam + " " + C.desc );
  ActiveSet as; C.sim.computeActiveSet( C.q0, C.q1, C.v, as );
  std::map<Key,int> got;
  for( const auto& k : as ) ++got[keyOf( *k )];
  int judged = 0, active = 0;
  for( const auto& e : ex )
  {
    const auto it = got.find( e.first ); const int g = it == got.end() ? 0 : it->second;
    if( e.second.lo == e.second.hi ) ++judged; else c.stat( "ambiguous_pairs" );
    if( e.second.lo > 0 ) ++active;
    if( g < e.second.lo ) c.viol( fam + "/missed", vf::Msg() << ks( e.first ) << ": " << g << " contacts, at least " << e.second.lo << " expected, gap " << e.second.gap << " | " << C.desc );
    else if( g > e.second.hi ) c.viol( fam + ( e.second.hi ? "/duplicate" : "/spurious" ), vf::Msg() << ks( e.first ) << ": " << g << " contacts, at most " << e.second.hi << " expected, gap " << e.second.gap << " | " << C.desc );
  }
  for( const auto& g : got ) if( !ex.count( g.first ) ) c.viol( fam + "/spurious", vf::Msg() << ks( g.first ) << ": " << g.second << " contacts, none expected | " << C.desc );
  c.stat( "pairs_judged", judged ); c.stat( "pairs_in_contact", active ); c.stat( "contacts_detected", (long long) as.size() );
  for( const auto& k : as ) c.stat( "type_" + k->name() );
  // querying again gives the same answer
  ActiveSet as2; C.sim.computeActiveSet( C.q0, C.q1, C.v, as2 );
  bool same = as.size() == as2.size();
  for( size_t k = 0; same && k < as.size(); ++k ) { const Key a = keyOf( *as[k] ), b = keyOf( *as2[k] ); same = !( a < b ) && !( b < a ); }
  if( !same ) c.viol( fam + "/not_repeatable", C.desc );
  if( active ) { c.seen( vf::hv( C.q1, vf::hv( C.q0 ) ) ); c.sample( C.desc + " | contacts " + std::to_string( as.size() ) ); }
}

#if VSIM != 2
static void statistics( vf::Ctx& c, Config& C )
{
  // reported statistics: counts and depths of the contacts of the current state
  ActiveSet as; const VectorXs q = Q( C.sim ); C.sim.computeActiveSet( q, q, V( C.sim ), as );
  std::map<std::string,unsigned> cnt, cnt2; std::map<std::string,scalar> dep, dep2;
  for( const auto& k : as ) { const std::string nm = k->name(); if( nm != "ball_ball" && nm != "sphere_sphere" && nm != "static_plane_sphere" && nm != "static_plane_constraint" ) return; }
  #if VSIM == 3
  std::map<std::string,scalar> vol, vol2;
  for( const auto& k : as ) if( k->name() != "sphere_sphere" ) return;
  for( const auto& k : as ) { ++cnt[k->name()]; dep[k->name()] += k->penetrationDepth( q ); vol[k->name()] += k->overlapVolume( q ); }
  C.sim.computeNumberOfCollisions( cnt2, dep2, vol2 );
  bool ok = vol.size() == vol2.size();
  for( const auto& v : vol ) ok = ok && vol2.count( v.first ) && std::fabs( vol2[v.first] - v.second ) <= 1e-12 * ( 1.0 + std::fabs( v.second ) );
  #else
  for( const auto& k : as ) { ++cnt[k->name()]; dep[k->name()] += k->penetrationDepth( q ); }
  C.sim.computeNumberOfCollisions( cnt2, dep2 );
  bool ok = true;
  #endif
  ok = ok && cnt == cnt2 && dep.size() == dep2.size();
  for( const auto& v : dep ) ok = ok && dep2.count( v.first ) && std::fabs( dep2[v.first] - v.second ) <= 1e-12 * ( 1.0 + std::fabs( v.second ) );
  if( !ok ) c.viol( "statistics", "reported collision statistics differ from the contacts | " + C.desc );
  if( !cnt.empty() ) c.stat( "statistics_compared" );
}
#endif

// a body in the corner of a doubly periodic domain touches the diagonal image of one in the opposite corner
static void corner_case( vf::Ctx& c )
{
  std::vector<Po> O;
  for( int k = 0; k < 2; ++k ) { Po o; const Vec e = Vec::Unit( k ); o.xa = -10.0 * e; o.na = e; o.xb = 10.0 * e; o.nb = -e; O.push_back( o ); }
  std::vector<SB> B( 2 );
  B[0].x = Vec::Zero(); B[0].x( 0 ) = -9.9; B[0].x( 1 ) = -9.9; B[0].r = 1.0;
  B[1].x = Vec::Zero(); B[1].x( 0 ) = 8.9; B[1].x( 1 ) = 8.9; B[1].r = 1.0; // image of the first: (10.1, 10.1), distance 1.7 < 2; does not reach the planes itself
  Config C; C.sim = buildSim( B, {}, {}, O ); C.q0 = C.q1 = Q( C.sim ); C.v = V( C.sim );
  ActiveSet as; C.sim.computeActiveSet( C.q0, C.q1, C.v, as );
  if( as.empty() ) c.viol( "corner_image_missed", "balls at (-9.9,-9.9) and (8.9,8.9), radius 1, domain [-10,10]^2 periodic in both directions: no contact with the diagonal image" );
}

static void one( vf::Ctx& c, vf::Rng& r, long k )
{
  if( k == 0 ) { corner_case( c ); return; }
  const double w = r.u();
  if( w < 0.55 ) { Config C = stress( r, c.thorough ); compare( c, C, expected( C.s ), "stress" ); c.stat( "stress" );
    #if VSIM != 2
    statistics( c, C );
    #endif
  }
  else if( w < 0.85 ) { Config C = periodic( r, c.thorough ); compare( c, C, expected( C.s ), "periodic" ); c.stat( "periodic" ); }
  else
  {
    Config C = exact( r );
    // neighbours in the chain, the plane and the drum touch exactly
    std::map<Key,Exp> ex = expected( C.s ); int n = 0;
    for( auto& e : ex ) if( std::fabs( e.second.gap ) == 0.0 && e.second.hi ) { e.second.lo = 1; ++n; }
    c.stat( "exact_touching_pairs", n ); compare( c, C, ex, "exact" ); c.stat( "exact" );
  }
}
int main( int argc, char** argv ) { return vf::main_( argc, argv, one ); }
