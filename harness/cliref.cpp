// C02: writes scenes for the command-line programs and runs the in-process reference of their trajectories.
//   cliref gen SEED CASE OUT.xml           prints the time step
//   cliref run SCENE.xml N OUT             length-prefixed state bytes of iterations 0..N
#include "scenegen.h"
#include <unistd.h>
using namespace sg;
int main( int argc, char** argv )
{
  const std::string mode = argc > 1 ? argv[1] : "";
  if( mode == "gen" && argc == 5 )
  {
    vf::Rng r( std::strtoull( argv[2], nullptr, 10 ) * 1000003ull + std::strtoull( argv[3], nullptr, 10 ) * 7919ull + VSIM ); for( int k = 0; k < 5; ++k ) r.next();
    const Node root = genScene( r, true ); save( argv[4], toXML( root, r, Layout() ) ); std::cout << root.child( "integrator" )->text( "dt" ) << std::endl; return 0;
  }
  if( mode == "run" && argc == 5 )
  {
    alarm( 60 );
    Loaded l; load( l, argv[2], false ); if( !l.ok ) return 4;
    Sim sim; 
    #if VSIM == 3
    sim.getState() = std::move( l.state );
    #else
    sim.state() = std::move( l.state );
    #endif
    sim.clearConstraintCache(); PythonScripting cb;
    FILE* f = fopen( argv[4], "wb" ); if( !f ) return 5;
    const unsigned N = unsigned( std::atoi( argv[3] ) );
    for( unsigned k = 0; k <= N; ++k )
    {
      if( k > 0 )
      {
        if( l.iop )
        #if VSIM == 3
          sim.flow( cb, k, l.dt, *l.umap, *l.iop, l.CoR );
        #else
          sim.flow( cb, k, l.dt, *l.umap, *l.iop, l.CoR, *l.imap );
        #endif
        else if( l.solver ) sim.flow( cb, k, l.dt, *l.umap, l.CoR, l.mu, *l.solver, *l.ifmap );
        else sim.flow( cb, k, l.dt, *l.umap );
      }
      const std::string b = simBytes( sim ); const uint64_t n = b.size();
      if( fwrite( &n, sizeof( n ), 1, f ) != 1 || fwrite( b.data(), 1, b.size(), f ) != b.size() ) return 5;
    }
    if( fclose( f ) != 0 ) return 5;
    return 0;
  }
  return 2;
}
