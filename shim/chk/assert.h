// assert() for the sanitizer builds: checks of sizes, indices, signs and states end the process as usual; checks that only compare rounding
// errors with a fixed (scale dependent) tolerance are counted and passed over.
#include <features.h>
#ifndef VERIF_CHK_ASSERT_H
#define VERIF_CHK_ASSERT_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static inline int vf_rounding_check( const char* e )
{
  if( strstr( e, "lpNorm" ) || strstr( e, "isUnitLength" ) || strstr( e, "tol" ) || strstr( e, ".dot(" ) || strstr( e, "pointInBox" ) ) return 1;
  for( const char* p = e; *p; ++p ) if( p > e && ( *p == 'e' || *p == 'E' ) && p[1] == '-' && p[2] >= '0' && p[2] <= '9' && ( p[-1] == '.' || ( p[-1] >= '0' && p[-1] <= '9' ) ) ) return 1;
  return 0;
}
static inline void vf_assert_fail( const char* e, const char* f, int l, const char* fn )
{
  if( vf_rounding_check( e ) ) return;
  fprintf( stderr, "%s:%d: %s: Assertion `%s' failed.\n", f, l, fn, e );
  fflush( stderr );
  abort();
}
#endif
#undef assert
#undef static_assert_
#if !defined( __cplusplus ) && !defined( static_assert )
#define static_assert _Static_assert
#endif
#define assert( ... ) ( ( __VA_ARGS__ ) ? (void) 0 : vf_assert_fail( #__VA_ARGS__, __FILE__, __LINE__, __func__ ) )
