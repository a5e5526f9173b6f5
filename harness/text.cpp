// C04: arbitrary scene text, parsed under sanitizers in a process of its own.
#include "scenegen.h"
#include <unistd.h>
#include <fcntl.h>
#include <sys/wait.h>
#include <climits>
using namespace sg;

static std::string readLog( const char* p )
{
  std::ifstream f( p ); std::stringstream s; s << f.rdbuf(); const std::string t = s.str();
  for( const char* k : { "runtime error", "Assertion", "ERROR: AddressSanitizer", "terminate called" } ) { const size_t q = t.find( k ); if( q != std::string::npos ) { const size_t b = q > 160 ? q - 160 : 0; return t.substr( b, q - b + 600 ); } }
  return t.substr( t.size() > 500 ? t.size() - 500 : 0 );
}

static void collect( Node& n, std::vector<Node*>& v ) { v.push_back( &n ); for( Node& c : n.c ) collect( c, v ); }

static std::string hostile( vf::Rng& r )
{
  static const std::vector<std::string> l = { "", " ", "0", "-0", "-1", "1e308", "-1e308", "1e309", "1e-320", "inf", "-inf", "nan", "4294967295", "4294967296", "2147483647", "2147483648", "-2147483648", "-2147483649", "9223372036854775807", "9223372036854775808", "-9223372036854775808",
    "18446744073709551616", "1/0", "0/0", "-1/-1", "9223372036854775807/9223372036854775807", "1/9223372036854775808", "-9223372036854775808/-1", "1/-9223372036854775808", "1.", ".1", ".", "-.", "0.000000000000000000000000001", "123456789012345678901234567890.5", "1e", "+", "++1", "0x10", "true", "1 2 3", "1,2,3", "   1   ", "\t1\n", "%s%n", "&lt;", "&amp;", "&#65;", "&#x41;", "&#0;", "&#1114112;", "&#xD800;", "&bogus;", "&", ";", "\xff\xfe", "\xc3\xa9", "../../etc", "a b", "1 1 1 1 1 1 1 1 1 1 1 1", "-" };
  if( r.chance( 0.08 ) ) return std::string( size_t( r.i( 1, 5000 ) ), "0-9. a"[r.i( 0, 5 )] );
  if( r.chance( 0.1 ) ) { std::string s; const int n = r.i( 1, 12 ); for( int i = 0; i < n; ++i ) s += "0123456789+-./eE ,"[r.i( 0, 17 )]; return s; }
  return r.pick( l );
}

static std::string mutate( vf::Rng& r, const Node& root, std::string& what )
{
  Node t = root; const Layout L{ r.chance( 0.5 ), true };
  std::vector<Node*> all; collect( t, all );
  const int k = r.i( 0, 11 );
  if( k <= 3 ) // hostile values
  {
    what = "values"; const int m = r.i( 1, 3 );
    for( int i = 0; i < m; ++i ) { Node* n = r.pick( all ); if( n->a.empty() ) { --i; if( r.chance( 0.05 ) ) break; continue; } n->a[size_t( r.i( 0, int( n->a.size() ) - 1 ) )].v = hostile( r ); }
    return toXML( t, r, L );
  }
  if( k == 4 ) // elements and attributes removed, doubled, moved
  {
    what = "structure"; const int m = r.i( 1, 4 );
    for( int i = 0; i < m; ++i )
    {
      all.clear(); collect( t, all ); Node* n = r.pick( all ); const int o = r.i( 0, 4 );
      if( o == 0 && !n->c.empty() ) n->c.erase( n->c.begin() + r.i( 0, int( n->c.size() ) - 1 ) );
      else if( o == 1 && !n->a.empty() ) n->a.erase( n->a.begin() + r.i( 0, int( n->a.size() ) - 1 ) );
      else if( o == 2 && !n->c.empty() ) { const Node d = n->c[size_t( r.i( 0, int( n->c.size() ) - 1 ) )]; n->c.insert( n->c.begin() + r.i( 0, int( n->c.size() ) ), d ); }
      else if( o == 3 && !n->a.empty() ) { const Attr d = n->a[size_t( r.i( 0, int( n->a.size() ) - 1 ) )]; n->a.push_back( d ); }
      else { const Node d = *r.pick( all ); if( d.c.size() < 5 ) n->c.push_back( d ); }
    }
    return toXML( t, r, L );
  }
  std::string x = toXML( t, r, L );
  if( k == 5 ) { what = "truncated"; x.resize( size_t( r.i( 0, int( x.size() ) ) ) ); return x; }
  if( k == 6 || k == 7 ) // bytes
  {
    what = "bytes"; const int m = r.i( 1, 12 );
    for( int i = 0; i < m && !x.empty(); ++i )
    {
      const size_t p = size_t( r.i( 0, int( x.size() ) - 1 ) ); const int o = r.i( 0, 3 );
      if( o == 0 ) x[p] = char( r.i( 0, 255 ) ); else if( o == 1 ) x.erase( p, size_t( r.i( 1, 8 ) ) ); else if( o == 2 ) x.insert( p, 1, "<>/=\"'&!-? \t\n[]"[r.i( 0, 14 )] ); else x.insert( p, x.substr( size_t( r.i( 0, int( x.size() ) - 1 ) ), size_t( r.i( 1, 60 ) ) ) );
    }
    return x;
  }
  if( k == 8 ) // spliced
  {
    what = "spliced"; std::string y = toXML( t, r, Layout{ true, true } ); return x.substr( 0, size_t( r.i( 0, int( x.size() ) ) ) ) + y.substr( size_t( r.i( 0, int( y.size() ) ) ) );
  }
  if( k == 9 ) // markup soup
  {
    what = "soup"; static const std::vector<std::string> l = { "<", ">", "</", "/>", "<!--", "-->", "<![CDATA[", "]]>", "<!DOCTYPE", "<?xml", "?>", "\"", "'", "=", " ", "\n", "ball", "scisim", "rigid_body_2d", "x", "&#", "&amp", ";", "\xef\xbb\xbf", "[", "]" };
    std::string s; const int n = r.i( 0, 60 ); for( int i = 0; i < n; ++i ) s += r.pick( l ); if( r.chance( 0.3 ) ) s = x.substr( 0, size_t( r.i( 0, int( x.size() ) ) ) ) + s; return s;
  }
  if( k == 10 ) { what = "nested"; std::string s; const int n = r.i( 1, 60 ); for( int i = 0; i < n; ++i ) s += "<" + r.pick( all )->n + ">"; return s + ( r.chance( 0.5 ) ? x : std::string() ); }
  what = "garbage"; std::string s; const int n = r.i( 0, 3000 ); for( int i = 0; i < n; ++i ) s += char( r.i( 0, 255 ) ); return s;
}

static void use( Loaded& l )
{
  std::stringstream o; l.state.serialize( o ); State b;
  b.deserialize( o );
  std::stringstream p; b.serialize( p ); if( o.str() != p.str() ) _exit( 44 );
  State cpy( l.state ); cpy = b;
}

static void one( vf::Ctx& c, vf::Rng& r, long )
{
  const Node root = genScene( r, r.chance( 0.3 ) ); const bool camera = r.chance( 0.7 );
  for( int f = 0; f < 10; ++f )
  {
    std::string what; const std::string xml = f ? mutate( r, root, what ) : ( what = "valid", toXML( root, r, Layout{ true, true } ) );
    save( "scene.xml", xml ); c.family( "text " + what ); c.stat( "texts" ); c.stat( "text_" + what ); c.seen( vf::hs( xml ) );
    fflush( nullptr ); const pid_t p = fork(); if( p < 0 ) { perror( "fork" ); exit( 3 ); }
    if( p == 0 )
    {
      const int fd = open( "child.log", O_WRONLY | O_CREAT | O_TRUNC, 0600 ); dup2( fd, 1 ); dup2( fd, 2 ); alarm( 30 );
      Loaded l; load( l, "scene.xml", camera ); if( l.ok ) use( l ); _exit( l.ok ? 42 : 43 );
    }
    int st = 0; if( waitpid( p, &st, 0 ) != p ) { perror( "waitpid" ); exit( 3 ); }
    const int e = WIFEXITED( st ) ? WEXITSTATUS( st ) : -1;
    if( e == 42 ) c.stat( "texts_accepted" ); else if( e == 43 || e == EXIT_FAILURE ) c.stat( "texts_rejected" );
    else if( e == 0 ) c.viol( "exit/" + what, "the scene reader ended the process with status 0 :: " + xml );
    else if( e == 44 ) c.viol( "round_trip/" + what, "a loaded scene differs after writing and reading it :: " + xml );
    else c.viol( "crash/" + what, vf::Msg() << "reading scene text ended with " << ( e < 0 ? "signal " : "status " ) << ( e < 0 ? WTERMSIG( st ) : e ) << ": " << readLog( "child.log" ) << " :: " << xml.substr( 0, 3000 ) );
  }
}
int main( int argc, char** argv ) { return vf::main_( argc, argv, one ); }
