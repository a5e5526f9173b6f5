// C03: the same scene with the same settings gives the same trajectory bit for bit, whatever else happens in or to the process.
#include "sim.h"
#include <malloc.h>
#include <sys/wait.h>

// what a run did: a fingerprint of positions and velocities after every step, and how it ended
struct Trace { std::vector<uint64_t> h; uint64_t bytes = 0; int contacts = 0; int abandoned = 0; };

// memory an uninitialised variable on the stack would show
static void __attribute__(( noinline )) dirtyStack( const unsigned char b ) { volatile unsigned char a[ 96 * 1024 ]; for( size_t k = 0; k < sizeof( a ); ++k ) a[k] = b; }
// freed blocks of many sizes, with contents, so that the next allocations land elsewhere and on used memory
static void dirtyHeap( vf::Rng& r, const unsigned char b )
{
  std::vector<void*> p;
  for( int k = 0; k < 40; ++k ) { const size_t n = size_t( r.logu( 8, 20000 ) ); void* m = malloc( n ); memset( m, b, n ); p.push_back( m ); }
  for( size_t k = 0; k < p.size(); ++k ) std::swap( p[k], p[ r.next() % p.size() ] );
  for( void* m : p ) free( m );
}

static void query( vf::Ctx* c, vf::Rng& r, Scene& S, Dyn& d )
{
  Sim& s = S.sim; const int k = r.i( 0, 9 );
  if( c ) c->stat( "queries" );
  switch( k )
  {
    case 0: { volatile double x = kinetic( s ) + potential( s ); (void) x; break; }
    case 1: { VectorXs p, L; fsys( s ).computeMomentum( V( s ), p ); fsys( s ).computeAngularMomentum( V( s ), L ); break; }
    case 2:
      #if VSIM == 1
      s.state().computeBoundingBox(); s.state().computeMomentum(); s.state().computeAngularMomentum(); s.state().computeTotalEnergy();
      #elif VSIM == 2
      s.state().computeBoundingBox(); s.computeTotalMomentum(); s.computeTotalAngularMomentum(); s.computeTotalEnergy();
      #else
      { scalar a[6]; s.computeBoundingBox( a[0], a[1], a[2], a[3], a[4], a[5] ); scalar rad; Vector3s ctr; s.computeBoundingSphere( rad, ctr ); s.computeTotalMomentum(); s.computeTotalAngularMomentum(); s.computeTotalEnergy(); }
      #endif
      break;
    case 3: simBytes( s ); if( d.serializable ) dynBytes( d ); break;
    case 4: case 5: if( d.mode ) { predictActive( s, d.dt, d.it + 1 ); if( c ) c->stat( "queries_contacts" ); } break;
    case 6: if( d.mode && !S.portal )
      {
        // the active contacts here and their bases
        ActiveSet as; s.computeActiveSet( Q( s ), Q( s ), V( s ), as );
        #if VSIM != 3
        MatrixXXsc b; csys( s ).computeImpactBases( Q( s ), as, b );
        #endif
        for( const auto& k : as ) if( k->name() != "static_cylinder_body" ) { VectorXs p; k->getWorldSpaceContactPoint( Q( s ), p ); VectorXs n; k->getWorldSpaceContactNormal( Q( s ), n ); }
        if( c ) c->stat( "queries_contacts" );
      } break;
    case 7:
      #if VSIM == 1
      if( d.mode && !S.portal && !S.curved ) { std::map<std::string,unsigned> n; std::map<std::string,scalar> p; s.computeNumberOfCollisions( n, p ); if( c ) c->stat( "queries_statistics" ); }
      #elif VSIM == 2
      if( d.mode && !S.portal ) { std::vector<Vector2s> p, n; s.computeContactPoints( p, n ); if( c ) c->stat( "queries_statistics" ); }
      #else
      if( d.mode && S.kind == 0 && !S.portal && !S.planes && !S.curved ) { std::map<std::string,unsigned> n; std::map<std::string,scalar> p, v; s.computeNumberOfCollisions( n, p, v ); if( c ) c->stat( "queries_statistics" ); }
      #endif
      break;
    case 8: { VectorXs F( V( s ).size() ); fsys( s ).computeForce( Q( s ), V( s ), double( d.dt ) * d.it, F ); break; }
    default: { const Sim copy( s ); simBytes( copy ); break; }
  }
}

struct How { bool queries = false, others = false, dirty = false, copies = false; uint64_t seed = 0; };

static Trace run( vf::Ctx* c, vf::Rng r, const bool thorough, const How& how )
{
  Trace t; vf::Rng x( how.seed );
  Opt o; o.moving = 0.1; o.penalty = 0.1; o.nmax = thorough ? 24 : 14; o.curved = 0.25;
  unsigned char byte = static_cast<unsigned char>( x.next() );
  auto dirty = [&]() { byte = static_cast<unsigned char>( x.chance( 0.3 ) ? 0xff : ( x.chance( 0.3 ) ? 0x3f : x.next() ) ); mallopt( M_PERTURB, byte ? byte : 1 ); dirtyHeap( x, byte ); dirtyStack( byte ); };
  if( how.dirty ) dirty();
  Scene S = mkScene( r, o );
  Dyn d = mkDyn( r, -1, S.caps() );
  const int n = r.i( 3, thorough ? 60 : 16 );
  if( c ) c->family( d.desc );
  // another simulation, of another scene with settings of its own
  std::unique_ptr<Scene> T; Dyn e; bool other_done = false;
  if( how.others ) { vf::Rng y( x.next() ); T.reset( new Scene( mkScene( y, o ) ) ); e = mkDyn( y, -1, T->caps() ); if( c ) c->stat( "others" ); }
  if( how.copies && d.iop ) d.iop = d.iop->clone();
  try
  {
    for( int k = 0; k < n; ++k )
    {
      if( how.dirty ) dirty();
      if( how.queries ) for( int j = x.i( 0, 3 ); j > 0; --j ) query( c, x, S, d );
      if( T && !other_done ) try { if( c ) c->family( "other " + e.desc ); for( int j = x.i( 0, 2 ); j > 0; --j ) { e.step( T->sim ); if( how.queries ) query( c, x, *T, e ); } } catch( const vf::Abandon& ) { other_done = true; }
      if( c ) c->family( d.desc );
      if( how.queries && d.mode && x.chance( 0.5 ) ) { t.contacts += int( predictActive( S.sim, d.dt, d.it + 1 ).size() ); }
      if( how.dirty ) dirtyStack( byte );
      d.step( S.sim );
      t.h.push_back( vf::hv( V( S.sim ), vf::hv( Q( S.sim ) ) ) );
      if( c && how.queries ) c->stat( "steps_compared" );
    }
  }
  catch( const vf::Abandon& ) { t.abandoned = 1; }
  mallopt( M_PERTURB, 0 );
  if( d.serializable ) { const std::string a = simBytes( S.sim ) + dynBytes( d ); t.bytes = vf::hs( a ); }
  if( c && how.queries )
  {
    c->stat( "mode" + std::to_string( d.mode ) ); if( d.warm ) c->stat( "warm" ); if( S.portal ) c->stat( "portal" ); if( S.le ) c->stat( "lees_edwards" ); if( S.fixed ) c->stat( "fixed" ); if( S.curved ) c->stat( "curved" ); if( S.penalty ) c->stat( "penalty" );
    if( t.contacts ) { c->stat( "cases_with_contacts" ); c->seen( vf::hv( Q( S.sim ) ) ); }
    c->sample( S.desc + " | " + d.desc + " | steps " + std::to_string( n ) );
  }
  return t;
}

// a process forked off before anything was simulated; for every request it forks one that runs the case first thing
static int to_fd = -1, from_fd = -1;
static void zygote( const bool thorough )
{
  int a[2], b[2];
  if( pipe( a ) || pipe( b ) ) { perror( "pipe" ); exit( 3 ); }
  if( fork() == 0 )
  {
    close( a[1] ); close( b[0] );
    uint64_t q[2];
    while( read( a[0], q, sizeof( q ) ) == ssize_t( sizeof( q ) ) )
    {
      const pid_t p = fork();
      if( p == 0 )
      {
        vf::Rng r; r.s = q[0]; How h; h.seed = q[1]; h.dirty = q[1] & 1;
        const Trace t = run( nullptr, r, thorough, h );
        std::vector<uint64_t> w{ uint64_t( t.h.size() + 3 ), t.bytes, uint64_t( t.abandoned ) }; w.insert( w.end(), t.h.begin(), t.h.end() );
        if( write( b[1], w.data(), w.size() * 8 ) < 0 ) _exit( 3 );
        _exit( 0 );
      }
      int st = 0; waitpid( p, &st, 0 );
      if( !WIFEXITED( st ) || WEXITSTATUS( st ) ) { const uint64_t z = 0; if( write( b[1], &z, 8 ) < 0 ) _exit( 3 ); }
    }
    _exit( 0 );
  }
  close( a[0] ); close( b[1] ); to_fd = a[1]; from_fd = b[0];
  fcntl( to_fd, F_SETFD, FD_CLOEXEC );
}
static bool readAll( void* p, size_t n ) { char* c = static_cast<char*>( p ); while( n ) { const ssize_t g = read( from_fd, c, n ); if( g <= 0 ) return false; c += g; n -= size_t( g ); } return true; }

static void compare( vf::Ctx& c, const char* what, const Trace& a, const Trace& b )
{
  const std::string fam = c.last;
  for( size_t k = 0; k < std::min( a.h.size(), b.h.size() ); ++k ) if( a.h[k] != b.h[k] ) { c.viol( what, vf::Msg() << "trajectories differ from step " << k + 1 << " of " << a.h.size() << " on | " << fam ); return; }
  if( a.abandoned != b.abandoned || a.h.size() != b.h.size() ) { c.viol( what, vf::Msg() << "one run ended after " << a.h.size() << " steps, the other after " << b.h.size() << " | " << fam ); return; }
  if( a.bytes != b.bytes ) c.viol( std::string( what ) + "_snapshot", "snapshots after the last step differ | " + fam );
}

static void one( vf::Ctx& c, vf::Rng& r, long )
{
  if( to_fd < 0 ) zygote( c.thorough );
  const uint64_t s1 = r.next() | 1, s2 = r.next(), s3 = r.next(), s4 = r.next(); // s1: odd, memory disturbed in the child
  const uint64_t q[2] = { r.s, r.next() & 1 ? s1 : s1 - 1 };
  vf::Rng base; base.s = q[0];
  if( write( to_fd, q, sizeof( q ) ) != ssize_t( sizeof( q ) ) ) { c.stat( "no_process" ); return; }
  How a; a.queries = a.others = a.dirty = true; a.copies = s2 & 1; a.seed = s2; // everything at once
  const Trace ta = run( &c, base, c.thorough, a );
  How p; p.seed = s3;
  const Trace tp = run( nullptr, base, c.thorough, p );                        // plain
  How b; b.seed = s4; b.dirty = true;
  const Trace tb = run( nullptr, base, c.thorough, b );                        // memory only
  compare( c, "memory_contents", tp, tb );
  compare( c, "disturbed_run", tp, ta );
  uint64_t n = 0;
  if( !readAll( &n, 8 ) || n < 3 ) { c.viol( "process_failed", "the case ends abnormally when it is the first thing a process does | " + c.last ); if( n == 0 ) { close( to_fd ); close( from_fd ); to_fd = -1; } return; }
  Trace tz; uint64_t ab = 0; tz.h.resize( n - 3 );
  if( !readAll( &tz.bytes, 8 ) || !readAll( &ab, 8 ) || ( n > 3 && !readAll( tz.h.data(), ( n - 3 ) * 8 ) ) ) { c.viol( "process_failed", "no answer | " + c.last ); return; }
  tz.abandoned = int( ab );
  compare( c, "other_process", tp, tz );
  c.stat( "trajectories", 4 );
}
int main( int argc, char** argv ) { return vf::main_( argc, argv, one ); }
