// C06: single faults injected into valid scene files; each file must be reported as an error.
#include "scenegen.h"
#include <unistd.h>
#include <fcntl.h>
#include <sys/wait.h>
#include <climits>
using namespace sg;

enum Outcome { ACCEPTED, REJECTED, EXITED, SUCCESS_EXIT, CRASHED, HUNG };
static Outcome tryLoad( const std::string& path, const bool camera, int& detail )
{
  fflush( nullptr );
  const pid_t p = fork();
  if( p < 0 ) { perror( "fork" ); exit( 3 ); }
  if( p == 0 )
  {
    const int fd = open( "/dev/null", O_WRONLY ); dup2( fd, 1 ); dup2( fd, 2 ); alarm( 20 );
    Loaded l; load( l, path, camera ); _exit( l.ok ? 42 : 43 );
  }
  int st = 0; if( waitpid( p, &st, 0 ) != p ) { perror( "waitpid" ); exit( 3 ); }
  if( WIFSIGNALED( st ) ) { detail = WTERMSIG( st ); return detail == SIGALRM ? HUNG : CRASHED; }
  detail = WEXITSTATUS( st );
  return detail == 42 ? ACCEPTED : detail == 43 ? REJECTED : detail == EXIT_FAILURE ? EXITED : detail == 0 ? SUCCESS_EXIT : CRASHED;
}

static void collect( Node& n, std::vector<Node*>& v ) { v.push_back( &n ); for( Node& c : n.c ) collect( c, v ); }
static std::vector<std::string> words( const std::string& s ) { std::vector<std::string> v; std::istringstream i( s ); std::string w; while( i >> w ) v.push_back( w ); return v; }

// a value that is not of the form the attribute requires
static bool badValue( vf::Rng& r, const Attr& a, std::string& v, std::string& what )
{
  typedef std::vector<std::string> L;
  static const L junk = { "", " ", "abc", "--1", "nan", "true", "1.0x", "one", "-", "+", "." };
  static const L junkNum = { "1 2", "1e", "1,5", "1.0.0", "0.5;", "2.5 x", "1e999", "5m", "1 -", "1/2" };
  static const L junkInt = { "1.5", "1e3", "7x", "1 2", "0x1f", "99999999999999999999", "3;", "1 -" };
  const auto pick = [&]( const L& l ) { v = r.pick( l ); };
  const int k = r.i( 0, 2 );
  switch( a.k )
  {
    case STR: return false;
    case NUM: case POS: case NONNEG: case UNIT:
      if( k == 0 || ( a.k == NUM && k == 1 ) ) { pick( k == 0 ? junk : junkNum ); what = "not_a_number"; return true; }
      if( k == 1 ) { pick( junkNum ); what = "not_a_number"; return true; }
      if( a.k == NUM ) { v = a.v + ( r.chance( 0.5 ) ? "q" : " 0" ); what = "trailing_text"; return true; }
      if( a.k == POS ) { static const L l = { "0", "-1", "0.0", "-0.0", "-1.0e-9", "-3.5", "0e5" }; pick( l ); what = "not_positive"; return true; }
      if( a.k == NONNEG ) { static const L l = { "-1", "-0.25", "-1.0e-9", "-1e12" }; pick( l ); what = "negative"; return true; }
      { static const L l = { "-1", "-0.25", "-1.0e-9", "1.0000001", "1.5", "2", "100" }; pick( l ); what = "outside_unit_interval"; return true; }
    case UINT: case UPOS:
      if( k == 0 ) { pick( junk ); what = "not_an_integer"; return true; }
      if( k == 1 ) { pick( junkInt ); what = "not_an_integer"; return true; }
      if( a.k == UPOS ) { static const L l = { "0", "-1", "-7" }; pick( l ); what = "not_positive"; return true; }
      { static const L l = { "-1", "-7", " -2", "-4294967295" }; pick( l ); what = "negative"; return true; }
    case BOOL: { static const L l = { "2", "true", "", "-1", "yes", "1x", "0.5", " ", "1 0", "false", "10", "on" }; pick( l ); what = "not_a_boolean"; return true; }
    case ENUM:
      if( k == 0 ) { static const L l = { "", "bogus", "0", "none_such" }; pick( l ); }
      else if( k == 1 ) { v = a.v; if( v[0] < 'a' || v[0] > 'z' ) return false; v[0] = char( v[0] - 'a' + 'A' ); }
      else v = r.chance( 0.5 ) ? a.v + "x" : a.v.substr( 0, a.v.size() - 1 );
      if( v == "ql" || v == "gr" ) return false; // a prefix of ql_vp or grr can be another name
      what = "unknown_name"; return true;
    case VEC: case PVEC: case NNVEC: case NZVEC: case MULT:
    {
      L w = words( a.v ); const int m = r.i( 0, 5 );
      if( m == 0 ) { w.erase( w.begin() + r.i( 0, int( w.size() ) - 1 ) ); v = join( w ); what = "too_few"; return true; }
      if( m == 1 ) { w.insert( w.begin() + r.i( 0, int( w.size() ) ), "1" ); v = join( w ); what = "too_many"; return true; }
      if( m == 2 ) { static const L l = { "abc", "--1", "1.0x", "nan", "-", "1e", "x1" }; w[size_t( r.i( 0, int( w.size() ) - 1 ) )] = r.pick( l ); v = join( w ); what = "not_a_number"; return true; }
      if( m == 3 ) { static const L l = { " x", "x", " -", " 1e", ",", " 1e999", ";" }; v = join( w ) + r.pick( l ); what = "trailing_text"; return true; }
      if( m == 4 ) { for( size_t i = 0; i < w.size(); ++i ) v += ( i ? "," : "" ) + w[i]; what = "commas"; return true; }
      if( a.k == PVEC ) { static const L l = { "0", "-1", "-0.0", "-2.5" }; w[size_t( r.i( 0, int( w.size() ) - 1 ) )] = r.pick( l ); v = join( w ); what = "not_positive"; return true; }
      if( a.k == NNVEC ) { static const L l = { "-1", "-0.5", "-1.0e-9" }; w[size_t( r.i( 0, int( w.size() ) - 1 ) )] = r.pick( l ); v = join( w ); what = "negative"; return true; }
      if( a.k == NZVEC ) { for( std::string& x : w ) x = r.chance( 0.5 ) ? "0" : "0.0"; v = join( w ); what = "zero_vector"; return true; }
      if( a.k == MULT ) { static const L l = { "0", "2", "-2", "1.5", "17" }; w[size_t( r.i( 0, 2 ) )] = r.pick( l ); v = join( w ); what = "not_a_sign"; return true; }
      v = ""; what = "empty"; return true;
    }
    case RAT: { static const L l = { "0", "-1/2", "abc", "1/0", "", "1/2x", "1/2/3", "1.5.2", "0.01abc", "-0.01", "0/5", "/3", "1/", "-1", "0.0", "1e-3", " ", "." }; pick( l ); what = "not_a_positive_rational"; return true; }
    case INDEX:
    {
      L l = { std::to_string( a.limit ), std::to_string( a.limit + 1 ), "-1", "abc", "1.5", "", "0x", "99999999999", "4294967296", "0 1", "-2147483648" }; l.push_back( std::to_string( a.limit ) ); pick( l );
      what = v == l[0] ? "one_past_the_end" : "bad_index"; return true;
    }
    case SINDEX:
    {
      L l = { std::to_string( a.limit ), std::to_string( -a.limit - 1 ), std::to_string( a.limit + 1 ), "-2147483648", "2147483648", "-2147483649", "abc", "1.5", "", "0x", "0 1", "4294967296" }; pick( l );
      what = "bad_index"; return true;
    }
  }
  return false;
}

// single faults of the whole file; returns false if this one does not apply to the scene
static bool structural( vf::Rng& r, Node& root, std::string& xml, bool& text, std::string& what )
{
  std::vector<Node*> all; collect( root, all ); text = false;
  const auto find = [&]( const std::string& n ) { for( Node& x : root.c ) if( x.n == n ) return &x; return (Node*) nullptr; };
  Node* const sb = find( "sobogus_friction_solver" );
  switch( r.i( 0, 15 ) )
  {
    case 0: { std::vector<std::pair<Node*,size_t>> v; for( Node* n : all ) for( size_t k = 0; k < n->c.size(); ++k ) if( n->c[k].req ) v.push_back( { n, k } ); if( v.empty() ) return false; const auto p = r.pick( v ); what = "missing_element/" + p.first->c[p.second].n; p.first->c.erase( p.first->c.begin() + long( p.second ) ); return true; }
    case 1: root.n = r.chance( 0.5 ) ? "scene" : root.n + "s"; what = "wrong_root"; return true;
    case 2: text = true; { const size_t p = xml.rfind( '>' ); xml.resize( size_t( r.i( 0, int( p ) ) ) ); } what = "truncated"; return true;
    case 3: text = true; { const size_t p = xml.rfind( '>' ); xml[size_t( r.i( 0, int( p ) ) )] = '\0'; } what = "nul_byte"; return true;
    case 4: text = true; { std::vector<size_t> q; for( size_t k = 1; k < xml.size(); ++k ) if( ( xml[k] == '"' || xml[k] == '\'' ) && xml[k - 1] == '=' ) q.push_back( k ); if( q.empty() ) return false; xml.erase( r.pick( q ), 1 ); if( xml.find( "<?xml" ) != std::string::npos && xml.find( "version=1.0" ) != std::string::npos ) return false; if( xml.find( "encoding=utf" ) != std::string::npos || xml.find( "<!-- <ball x=1" ) != std::string::npos ) return false; } what = "unquoted_attribute"; return true;
    case 5: text = true; { const int k = r.i( 0, 4 ); if( k == 0 ) xml.clear(); else if( k == 1 ) xml = "\n \n"; else if( k == 2 ) { xml.clear(); const int n = r.i( 1, 4000 ); for( int i = 0; i < n; ++i ) xml += char( r.i( 0, 255 ) ); } else if( k == 3 ) xml = "<!-- nothing -->"; else xml = "not xml at all"; } what = "no_scene"; return true;
    case 6: { if( !sb ) return false; sb->attr( "eval_every" )->v = std::to_string( sb->integer( "max_iters" ) + r.i( 1, 50 ) ); what = "sobogus_friction_solver.eval_every/exceeds_max_iters"; return true; }
    case 7: { if( !sb || sb->text( "staggering" ) != "symplectic_euler" ) return false; sb->attr( "CoR" )->v = r.chance( 0.5 ) ? "0.5" : "1.0e-3"; what = "sobogus_friction_solver.CoR/not_zero_with_symplectic_euler"; return true; }
    case 8:
    {
      Node* const io = find( "impact_operator" ); if( !io && !sb ) return false;
      if( io ) root.c.insert( root.c.begin() + r.i( 0, int( root.c.size() ) ), sobogusNode( r, r.chance( 0.5 ) ) ); else root.c.insert( root.c.begin() + r.i( 0, int( root.c.size() ) ), impactNode( r, "impact_operator", r.chance( 0.5 ) ) );
      what = "two_solvers/impact_and_friction"; return true;
    }
    case 9:
    {
      #if VSIM == 1
      if( sb ) root.c.push_back( staggeredNode( r, true ) ); else if( find( "staggered_projections_friction_solver" ) ) root.c.push_back( sobogusNode( r, true ) ); else return false;
      what = "two_solvers/friction"; return true;
      #else
      return false;
      #endif
    }
    case 10:
    {
      std::vector<Node*> p; for( Node& n : root.c ) if( n.n == "planar_portal" || n.n == "lees_edwards_portal" ) p.push_back( &n ); if( p.empty() ) return false;
      Node* const a = r.pick( p );
      if( p.size() > 1 && r.chance( 0.5 ) ) { Node* b = a; while( b == a ) b = r.pick( p ); a->attr( r.chance( 0.5 ) ? "planeA" : "planeB" )->v = b->text( r.chance( 0.5 ) ? "planeA" : "planeB" ); what = "portals/plane_used_twice"; }
      else { a->attr( "planeA" )->v = a->text( "planeB" ); what = "portals/same_plane"; }
      return true;
    }
    case 11:
    {
      bool any = false; for( const Node& n : root.c ) if( n.n == "planar_portal" || n.n == "lees_edwards_portal" ) any = true; if( !any ) return false;
      for( size_t k = root.c.size(); k-- > 0; ) if( root.c[k].n == "static_plane" || root.c[k].n == "static_plane_renderer" ) root.c.erase( root.c.begin() + long( k ) ); what = "portals/without_planes"; return true;
    }
    case 12:
    {
      #if VSIM == 3
      std::vector<Node*> p; for( Node& n : root.c ) if( n.n == "geometry" && n.text( "type" ) == "staple" ) p.push_back( &n ); if( p.empty() ) return false;
      Node* const a = r.pick( p ); a->attr( "D" )->v = std::to_string( a->num( r.chance( 0.5 ) ? "w" : "l" ) * r.u( 1.01, 3.0 ) ); what = "geometry.D/wider_than_the_staple"; return true;
      #else
      return false;
      #endif
    }
    case 13:
    {
      #if VSIM == 3
      Node* const b = find( "simulation_boundary" ); if( !b ) return false; std::vector<std::string> lo = words( b->text( "min" ) ), hi = words( b->text( "max" ) );
      const size_t k = size_t( r.i( 0, 2 ) ); hi[k] = r.chance( 0.5 ) ? lo[k] : "-1.0e13"; b->attr( "max" )->v = join( hi ); what = "simulation_boundary/empty"; return true;
      #else
      return false;
      #endif
    }
    case 14:
    {
      #if VSIM == 1
      if( !sb || sb->text( "staggering" ) != "stabilized" ) return false; sb->attr( "cache_impulses" )->v = r.chance( 0.5 ) ? "normal" : "normal_and_friction"; what = "sobogus_friction_solver.cache_impulses/unsupported"; return true;
      #else
      return false;
      #endif
    }
    default: // bodies without the geometry they name
    {
      #if VSIM == 1
      return false;
      #else
      bool any = false; for( size_t k = root.c.size(); k-- > 0; ) { if( root.c[k].n == "geometry" ) root.c.erase( root.c.begin() + long( k ) ); else if( root.c[k].n.substr( 0, 10 ) == "rigid_body" ) any = true; }
      what = "bodies_without_geometry"; return any;
      #endif
    }
  }
}

static void one( vf::Ctx& c, vf::Rng& r, long )
{
  const Node root = genScene( r, r.chance( 0.1 ) ); const bool camera = r.chance( 0.7 ); const std::string path = "scene.xml"; int d = 0;
  const Layout L{ r.chance( 0.5 ), true };
  if( r.chance( 0.1 ) ) // the file itself is valid
  {
    const std::string xml = toXML( root, r, L ); save( path, xml ); const Outcome o = tryLoad( path, camera, d ); c.stat( "valid_files" );
    if( o != ACCEPTED ) c.viol( "valid_file_not_loaded", vf::Msg() << "a valid scene file was not loaded (outcome " << int( o ) << ") :: " << xml );
  }
  if( r.chance( 0.02 ) ) // no such file, or no file at all
  {
    for( const char* const p : { "does_not_exist.xml", ".", "", "scene.xml/x" } ) { const Outcome o = tryLoad( p, camera, d ); c.stat( "no_file" ); if( o != REJECTED && o != EXITED ) c.viol( "accepted/no_file", vf::Msg() << "loading \"" << p << "\" did not fail (outcome " << int( o ) << ", " << d << ")" ); }
  }
  const int faults = 12;
  for( int f = 0; f < faults; ++f )
  {
    Node t = root; std::string what, xml; bool text = false;
    if( r.chance( 0.25 ) )
    {
      xml = toXML( t, r, L ); if( !structural( r, t, xml, text, what ) ) { --f; if( r.chance( 0.05 ) ) ++f; continue; }
      if( !text ) xml = toXML( t, r, L );
    }
    else
    {
      std::vector<Node*> all; collect( t, all ); std::vector<std::pair<Node*,size_t>> v;
      for( Node* n : all ) for( size_t k = 0; k < n->a.size(); ++k ) v.push_back( { n, k } );
      if( v.empty() ) break;
      const auto p = r.pick( v ); Attr& a = p.first->a[p.second]; const std::string where = p.first->n + "." + a.n; const std::string was = a.v;
      #if VSIM == 1
      if( !camera && p.first->n == "camera" ) continue;
      #endif
      const int m = r.i( 0, 9 );
      if( m <= 1 && a.req ) { if( m == 0 ) p.first->a.erase( p.first->a.begin() + long( p.second ) ); else a.n += "_"; what = where + "/missing"; }
      else { std::string nv, w; if( !badValue( r, a, nv, w ) ) continue; a.v = nv; what = where + "/" + w + " \"" + was + "\" -> \"" + nv + "\""; }
      xml = toXML( t, r, L );
    }
    save( path, xml ); c.family( "fault " + what.substr( 0, what.find( ' ' ) ) );
    const Outcome o = tryLoad( path, camera, d ); const std::string key = what.substr( 0, what.find( ' ' ) );
    c.stat( "faults" ); c.stat( text ? "text_faults" : "value_faults" ); c.seen( vf::hs( xml ) );
    if( o == REJECTED ) c.stat( "rejected" ); else if( o == EXITED ) c.stat( "exited_with_failure" );
    else if( o == ACCEPTED ) c.viol( "accepted/" + key, "a malformed scene file was accepted: " + what + " :: " + xml );
    else if( o == SUCCESS_EXIT ) c.viol( "exit_success/" + key, "loading a malformed scene file ended the program with success: " + what + " :: " + xml );
    else if( o == HUNG ) c.viol( "hang/" + key, "loading a malformed scene file did not end: " + what + " :: " + xml );
    else c.viol( "crash/" + key, vf::Msg() << "loading a malformed scene file crashed (" << d << "): " << what << " :: " << xml );
    if( c.cur % 400 == 0 && f == 0 ) c.sample( what );
  }
}
int main( int argc, char** argv ) { return vf::main_( argc, argv, one ); }
