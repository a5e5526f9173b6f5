// C08: normal, point, depth, overlap volume and gap of every contact.
#include "contacts.h"

static VectorXs basisNormal( const Constraint& k, const VectorXs& q, const VectorXs& v ) { MatrixXXsc b; k.computeBasis( q, v, b ); return b.col( 0 ); }
static bool hasNormal( const std::string& n ) { return n != "static_cylinder_body" && !( VSIM == 2 && ( n == "teleported_circle_circle" || n == "kinematic_kick_circle_circle" ) ); }
static bool hasPoint( const std::string& n ) { return n != "static_cylinder_body"; }
static bool hasGap( const std::string& n ) { return VSIM != 2 && ( n == "ball_ball" || n == "static_plane_constraint" || n == "sphere_sphere" || n == "kinematic_sphere_sphere" || n == "static_cylinder_sphere" || n == "static_plane_sphere" ); }

static double lens( const double d, const double r0, const double r1 )
{
  if( d >= r0 + r1 ) return 0.0;
  const double r = std::min( r0, r1 ), R = std::max( r0, r1 );
  if( d <= R - r ) return 4.0 / 3.0 * M_PI * r * r * r;
  // caps cut off by the plane of the intersection circle
  const double x = ( d * d + R * R - r * r ) / ( 2.0 * d ); // from the big sphere's centre
  const double h0 = R - x, h1 = r - ( d - x );
  return M_PI / 3.0 * ( h0 * h0 * ( 3.0 * R - h0 ) + h1 * h1 * ( 3.0 * r - h1 ) );
}

struct Judge
{
  vf::Ctx& c; Config& C; bool still; std::string fam;
  void bad( const std::string& what, const Constraint& k, const std::string& m ) { c.viol( what + "/" + k.name(), m + " | " + C.desc ); }

  // candidate translations that bring body b's image next to the other bodies
  std::vector<Vec> shifts( const Bd& b ) const
  {
    std::vector<Vec> out{ Vec::Zero() };
    for( const Po& o : C.s.o ) for( int side = 0; side < 2; ++side ) for( int at = 0; at < 2; ++at )
    {
      const Vec& x = at ? b.x1 : b.x0;
      if( ( side == 0 ? o.na.dot( b.x1 - o.xa ) : o.nb.dot( b.x1 - o.xb ) ) <= b.r * 1.0001 ) out.push_back( portalShift( o, side == 0, x, C.s.t ) );
    }
    return out;
  }

  void depthAndGap( const Constraint& k, const VectorXs& q, const double gap, const double scale )
  {
    const double tol = 1.0e-9 * scale;
    const double dep = k.penetrationDepth( q );
    if( !std::isnan( dep ) ) { c.stat( "depths_judged" ); if( std::fabs( dep - std::min( 0.0, gap ) ) > tol ) bad( "depth", k, vf::Msg() << "penetration depth " << dep << ", geometry gives " << std::min( 0.0, gap ) ); }
    if( hasGap( k.name() ) ) { const double g = k.evaluateGapFunction( q ); if( std::isnan( g ) ) return; c.stat( "gaps_judged" ); if( std::fabs( g - gap ) > tol ) bad( "gap", k, vf::Msg() << "gap " << g << ", geometry gives " << gap ); }
  }

  void roundRound( const Constraint& k, const int i, const int j, const Vec& n, const Vec& p )
  {
    const Bd &a = C.s.b[i], &b = C.s.b[j];
    const bool tele = k.name().find( "teleported" ) != std::string::npos || k.name().find( "kick" ) != std::string::npos, kin = VSIM == 3 && !C.s.o.empty() && k.name().find( "kinematic" ) != std::string::npos;
    const double scale = a.r + b.r + a.x0.norm() + b.x0.norm() + ( C.s.o.empty() ? 0.0 : C.s.o[0].xa.norm() );
    const std::vector<Vec> sa = tele || kin ? shifts( a ) : std::vector<Vec>{ Vec::Zero() }, sb = tele || kin ? shifts( b ) : std::vector<Vec>{ Vec::Zero() };
    double best = 1e300; std::string why; const double tolp = 1.0e-9 * scale;
    bool ok = false, judged = false; double dep0 = 0; bool depok = false; const double dep = k.penetrationDepth( C.q1 );
    for( const Vec& s : sa ) for( const Vec& t : sb )
    {
      if( tele && s.isZero() && t.isZero() ) continue;
      const Vec d = a.x0 + s - b.x0 - t; const double l = d.norm();
      if( l < 1.0e-6 * ( a.r + b.r ) + 1e-10 * scale ) { ok = true; depok = true; continue; } // direction undefined
      judged = true;
      const double err = ( n - d / l ).norm() * l;
      // the point: between the two surfaces, on the line of centres (reported next to the first body itself)
      const double lo = std::min( a.r, l - b.r ), hi = std::max( a.r, l - b.r );
      const double sp = ( a.x0 - p ).dot( n ); const double off = ( a.x0 - p - sp * n ).norm();
      const double perr = std::max( off, std::max( lo - sp, sp - hi ) );
      if( err < best ) { best = err; why = vf::Msg() << "normal " << vf::vs( n ) << " line of centres " << vf::vs( Vec( d / l ) ) << " point offset along normal " << sp << " expected in [" << lo << "," << hi << "] off line by " << off; }
      if( err <= 10.0 * tolp && perr <= 10.0 * tolp ) ok = true;
      dep0 = std::min( 0.0, ( a.x1 + s - b.x1 - t ).norm() - a.r - b.r ); if( tele && !std::isnan( dep ) && std::fabs( dep - dep0 ) <= 1.0e-8 * scale ) depok = true;
    }
    if( judged ) c.stat( "normals_judged" );
    if( judged && !ok ) bad( "normal_or_point", k, vf::Msg() << "bodies " << i << "," << j << ": " << why );
    if( !tele )
    {
      depthAndGap( k, C.q0, ( a.x0 - b.x0 ).norm() - a.r - b.r, scale );
      depthAndGap( k, C.q1, ( a.x1 - b.x1 ).norm() - a.r - b.r, scale + a.x1.norm() + b.x1.norm() );
      const double vol = k.overlapVolume( C.q1 );
      if( DIM == 3 && !std::isnan( vol ) )
      {
        const double d = ( a.x1 - b.x1 ).norm(); const double e = lens( d, a.r, b.r ); const double R = std::max( a.r, b.r );
        c.stat( "volumes_judged" );
        if( std::fabs( vol - e ) > 1.0e-6 * R * R * R * ( 1.0 + a.x1.norm() * 1e-6 / R ) ) bad( "overlap_volume", k, vf::Msg() << "reported " << vol << ", lens of radii " << a.r << "," << b.r << " at distance " << d << " has " << e );
      }
    }
    else if( !std::isnan( dep ) && judged ) { c.stat( "depths_judged" ); if( !depok ) bad( "depth", k, vf::Msg() << "image penetration depth " << dep << " matches no image; last " << dep0 ); }
  }

  void plane( const Constraint& k, const int i, const int pi, const Vec& n, const Vec& p )
  {
    const Bd& b = C.s.b[i]; const Pl& pl = C.s.p[pi];
    const double scale = sizeOf( b ) + b.x1.norm() + pl.x.norm(); const double tol = 1.0e-8 * scale;
    c.stat( "normals_judged" );
    if( ( n - pl.n ).norm() > 1.0e-9 ) bad( "normal_or_point", k, vf::Msg() << "normal " << vf::vs( n ) << " plane normal " << vf::vs( pl.n ) );
    if( b.s == ROUND )
    {
      const double g0 = pl.n.dot( b.x0 - pl.x ) - b.r, g1 = pl.n.dot( b.x1 - pl.x ) - b.r;
      depthAndGap( k, C.q0, g0, scale + b.x0.norm() ); depthAndGap( k, C.q1, g1, scale );
      if( still )
      {
        const double s = ( b.x0 - p ).dot( pl.n ); const double off = ( b.x0 - p - s * pl.n ).norm();
        const double lo = std::min( b.r, b.r + g0 ), hi = std::max( b.r, b.r + g0 );
        if( off > tol || s < lo - tol || s > hi + tol ) bad( "normal_or_point", k, vf::Msg() << "contact point " << vf::vs( p ) << " is not between the circle/sphere and the plane (centre " << vf::vs( b.x0 ) << " radius " << b.r << ")" );
      }
    }
    else if( !still )
    {
      double best = 1e300; for( int m = 0; m < ( 1 << DIM ); ++m ) best = std::min( best, ( corner( b, m, false ) - p ).norm() );
      c.stat( "moving_corners" );
      if( best > tol + 1.0e-8 * b.x0.norm() ) bad( "normal_or_point", k, vf::Msg() << "contact point " << vf::vs( p ) << " is not where a corner is at the start of the step, nearest at " << best );
    }
    else
    {
      double best = 1e300; for( int m = 0; m < ( 1 << DIM ); ++m ) best = std::min( best, ( corner( b, m, true ) - p ).norm() );
      if( best > tol ) bad( "normal_or_point", k, vf::Msg() << "contact point " << vf::vs( p ) << " is not a corner, nearest at " << best );
      if( pl.n.dot( p - pl.x ) > tol ) bad( "normal_or_point", k, vf::Msg() << "contact point " << vf::vs( p ) << " is above the plane by " << pl.n.dot( p - pl.x ) );
      corners[std::make_pair( i, pi )].push_back( p );
    }
  }
  std::map<std::pair<int,int>,std::vector<Vec>> corners;
  std::map<std::pair<int,int>,std::vector<Vec>> points; // several contacts of one pair must be at different points

  void curved( const Constraint& k, const int i, const int ci, const Vec& n, const Vec& p, const bool havep )
  {
    const Bd& b = C.s.b[i]; const Cy& y = C.s.c[ci];
    auto radial = [&]( const Vec& x ) -> Vec { Vec d = x - y.x; if( DIM == 3 ) d -= d.dot( y.axis ) * y.axis; return d; };
    const double scale = sizeOf( b ) + b.x1.norm() + y.x.norm() + y.r;
    if( b.s == ROUND )
    {
      depthAndGap( k, C.q0, y.r - b.r - radial( b.x0 ).norm(), scale + b.x0.norm() ); depthAndGap( k, C.q1, y.r - b.r - radial( b.x1 ).norm(), scale );
      // frame of the contact: where the body is at the start of the step
      const Vec d = radial( b.x0 ); const double l = d.norm(); if( l < 1.0e-6 * b.r ) return;
      c.stat( "normals_judged" );
      if( ( n + d / l ).norm() * l > 1.0e-8 * ( scale + b.x0.norm() ) ) bad( "normal_or_point", k, vf::Msg() << "normal " << vf::vs( n ) << " inward radial direction " << vf::vs( Vec( -d / l ) ) );
      if( !still ) return;
      const double s = ( b.x1 - p ).dot( n ), off = ( b.x1 - p - s * n ).norm(), lo = std::min( b.r, y.r - l ), hi = std::max( b.r, y.r - l );
      if( off > 1.0e-8 * scale || s < lo - 1.0e-8 * scale || s > hi + 1.0e-8 * scale ) bad( "normal_or_point", k, vf::Msg() << "contact point " << vf::vs( p ) << " is not between the two surfaces" );
    }
    else if( still )
    {
      // normal is the inward radial direction at one of the corners beyond the surface
      double best = 1e300; for( int m = 0; m < ( 1 << DIM ); ++m ) { const Vec d = radial( corner( b, m, true ) ); if( d.norm() >= y.r - 1.0e-6 * scale ) best = std::min( best, ( n + d.normalized() ).norm() ); }
      c.stat( "normals_judged" );
      if( best > 1.0e-6 ) bad( "normal_or_point", k, vf::Msg() << "normal " << vf::vs( n ) << " is not the inward radial direction at a corner that reaches the surface; nearest differs by " << best );
      (void) havep;
    }
  }

  void circleBox( const Constraint& k, const int i, const int j, const Vec& n, const Vec& p )
  {
    const bool first = C.s.b[i].s == ROUND; const Bd &o = C.s.b[first ? i : j], &x = C.s.b[first ? j : i];
    const Vec l = x.R1.transpose() * ( o.x1 - x.x1 );
    Vec cl = l; for( int d = 0; d < DIM; ++d ) cl( d ) = std::max( -x.h( d ), std::min( x.h( d ), l( d ) ) );
    const double dist = ( l - cl ).norm(); const double scale = o.r + x.h.norm() + o.x1.norm() + x.x1.norm(); const double tol = 1.0e-8 * scale;
    const double pen = dist - o.r;
    const Vec nc = first ? n : Vec( -n ); // towards the circle
    if( dist > 1.0e-5 * ( o.r + x.h.norm() ) + 1e-9 * scale )
    {
      c.stat( "normals_judged" ); c.stat( "circle_box_outside" );
      const Vec e = x.R1 * ( ( l - cl ) / dist );
      if( ( nc - e ).norm() * dist > tol ) bad( "normal_or_point", k, vf::Msg() << "circle at " << vf::vs( Vec( l ) ) << " of box " << vf::vs( x.h ) << ": normal " << vf::vs( nc ) << " direction from the closest point " << vf::vs( e ) );
      const double s = ( o.x1 - p ).dot( nc ), off = ( o.x1 - p - s * nc ).norm();
      if( off > tol || s > std::max( o.r, o.r + pen ) + tol || s < std::min( o.r, o.r + pen ) - tol ) bad( "normal_or_point", k, vf::Msg() << "point " << vf::vs( p ) << " not between the surfaces: " << s << " along the normal from the centre, radius " << o.r << " depth " << pen << " off " << off );
    }
    else if( dist == 0.0 )
    {
      // centre inside the box: the normal leads out through a face
      const Vec nl = x.R1.transpose() * nc; double out = 0; int ax = 0; nl.cwiseAbs().maxCoeff( &ax ); out = std::fabs( nl( ax ) );
      c.stat( "circle_box_inside" );
      if( out < 1.0 - 1e-9 || nl( ax ) * l( ax ) < -tol * x.h( ax ) ) bad( "normal_or_point", k, vf::Msg() << "centre inside the box at " << vf::vs( Vec( l ) ) << ": normal " << vf::vs( nl ) << " (box frame) is not the outward normal of a face on that side" );
    }
  }

  void boxBox( const Constraint& k, const int i, const int j, const Vec& n, const Vec& p )
  {
    const Bd &a = C.s.b[i], &b = C.s.b[j];
    const double scale = a.h.norm() + b.h.norm() + a.x1.norm() + b.x1.norm(); const double tol = 1.0e-8 * scale;
    std::vector<std::pair<double,Vec>> all; const double best = sat( a.x1, a.R1, a.h, b.x1, b.R1, b.h, nullptr, &all );
    // separation along the reported normal; axes orthogonal to the line of centres may point either way
    double w = 0; for( int d = 0; d < DIM; ++d ) w += a.h( d ) * std::fabs( n.dot( a.R1.col( d ) ) ) + b.h( d ) * std::fabs( n.dot( b.R1.col( d ) ) );
    const double c0 = n.dot( a.x1 - b.x1 ); const double s = c0 - w;
    double near = 1e300; for( const auto& x : all ) near = std::min( near, std::min( ( x.second - n ).norm(), std::fabs( c0 ) < tol ? ( x.second + n ).norm() : 1e300 ) );
    c.stat( "normals_judged" ); c.stat( "box_box" );
    if( near > 1.0e-6 ) bad( "normal_or_point", k, vf::Msg() << "normal " << vf::vs( n ) << " is not a separating axis direction pointing to body " << i << " (differs by " << near << ")" );
    const double slack = DIM == 3 ? 0.06 * std::fabs( best ) + 1.0e-6 * scale : tol;
    if( s < best - slack - tol ) bad( "normal_or_point", k, vf::Msg() << "overlap along the reported normal " << -s << ", least overlap " << -best );
    const double depth = -s;
    bool face = false; for( int d = 0; d < DIM; ++d ) face = face || std::fabs( n.dot( a.R1.col( d ) ) ) > 1.0 - 1e-12 || std::fabs( n.dot( b.R1.col( d ) ) ) > 1.0 - 1e-12;
    // crossing edges: the closest points are on both edges if theirs is the axis of least overlap and they are not almost parallel
    bool judge = true;
    #if VSIM == 3
    if( !face ) { double cr = 0; for( int d = 0; d < 3; ++d ) for( int e = 0; e < 3; ++e ) { const Vec x = a.R1.col( d ).cross( b.R1.col( e ) ); if( x.norm() > 1e-8 && std::min( ( x.normalized() - n ).norm(), ( x.normalized() + n ).norm() ) < 1.0e-6 ) cr = std::max( cr, x.norm() ); } judge = cr > 0.02 && s > best - 1.0e-3 * std::fabs( best ); c.stat( judge ? "edge_contacts_judged" : "edge_contacts_not_judged" ); }
    #endif
    if( judge ) for( int q = 0; q < 2; ++q )
    {
      const Bd& x = q ? b : a; const double d = pointBoxDist( p, x.x1, x.R1, x.h );
      if( d > depth * ( DIM == 3 && face ? 1.0 : 0.5 ) + 10.0 * tol ) bad( "normal_or_point", k, vf::Msg() << "point " << vf::vs( p ) << " is " << d << " outside box " << ( q ? j : i ) << ", overlap " << depth );
    }
    points[std::make_pair( i, j )].push_back( p );
    normals[std::make_pair( i, j )] = n;
  }
  std::map<std::pair<int,int>,Vec> normals;

  // the points reported for a pair must include the deepest place (where the surfaces meet most)
  void boxPoints()
  {
    for( const auto& e : points )
    {
      const Bd &a = C.s.b[e.first.first], &b = C.s.b[e.first.second]; const Vec n = normals[e.first];
      const double scale = a.h.norm() + b.h.norm() + a.x1.norm() + b.x1.norm(), tol = 1.0e-7 * scale;
      for( int w2 = 0; w2 < 2; ++w2 )
      {
        // reference box: has a face along n; the other's corner that reaches deepest, if inside the reference box, is a contact point
        const Bd &ref = w2 ? b : a, &inc = w2 ? a : b; const Vec nr = w2 ? n : Vec( -n ); // out of the reference box
        int face = -1; for( int d = 0; d < DIM; ++d ) if( std::fabs( nr.dot( ref.R1.col( d ) ) ) > 1.0 - 1e-12 ) face = d;
        bool both = false; for( int d = 0; d < DIM; ++d ) both = both || std::fabs( nr.dot( inc.R1.col( d ) ) ) > 1.0 - 1e-6;
        #if VSIM == 2
        bool flat = false; for( int d = 0; d < DIM; ++d ) flat = flat || std::fabs( nr.dot( inc.R1.col( d ) ) ) > 1.0 - 1e-13;
        if( face >= 0 && flat )
        { // two faces lie on each other: held at both ends of the common stretch
          const Vec tg = ref.R1.col( 1 - face ); double lo = -1e300, hi = 1e300, cl = 1e300, ch = -1e300;
          for( int z = 0; z < 2; ++z ) { const Bd& x = z ? inc : ref; double e = 0; for( int d = 0; d < 2; ++d ) e += x.h( d ) * std::fabs( tg.dot( x.R1.col( d ) ) ); lo = std::max( lo, tg.dot( x.x1 ) - e ); hi = std::min( hi, tg.dot( x.x1 ) + e ); }
          for( const Vec& x : e.second ) { cl = std::min( cl, tg.dot( x ) ); ch = std::max( ch, tg.dot( x ) ); }
          c.stat( "face_contacts_judged" );
          if( cl > lo + 2.0e-3 * inc.h.norm() + 10.0 * tol || ch < hi - 2.0e-3 * inc.h.norm() - 10.0 * tol ) c.viol( "face_contact_stretch", vf::Msg() << "boxes " << e.first.first << "," << e.first.second << " touch face to face over " << lo << ".." << hi << ", contact points reach " << cl << ".." << ch << " | " << C.desc );
        }
        #elif VSIM == 3
        int fi = -1; for( int d = 0; d < DIM; ++d ) if( std::fabs( nr.dot( inc.R1.col( d ) ) ) > 1.0 - 1e-13 ) fi = d;
        if( face >= 0 && fi >= 0 )
        { // two faces lie on each other: held all around the common area
          const int k1 = ( face + 1 ) % 3, k2 = ( face + 2 ) % 3, l1 = ( fi + 1 ) % 3, l2 = ( fi + 2 ) % 3; std::vector<Eigen::Vector2d> P;
          const auto flat2 = [&]( const Vec& x ) { const Vec d = x - ref.x1; return Eigen::Vector2d( d.dot( ref.R1.col( k1 ) ), d.dot( ref.R1.col( k2 ) ) ); };
          const double sg[4][2] = { { 1, 1 }, { -1, 1 }, { -1, -1 }, { 1, -1 } };
          for( const auto& g : sg ) P.push_back( flat2( inc.x1 + g[0] * inc.h( l1 ) * inc.R1.col( l1 ) + g[1] * inc.h( l2 ) * inc.R1.col( l2 ) ) );
          for( int cut = 0; cut < 4; ++cut )
          {
            const int ax = cut / 2; const double sgn = cut % 2 ? -1.0 : 1.0, lim = ref.h( ax ? k2 : k1 ); std::vector<Eigen::Vector2d> O;
            for( size_t z = 0; z < P.size(); ++z ) { const Eigen::Vector2d &u = P[z], &w = P[( z + 1 ) % P.size()]; const double du = lim - sgn * u( ax ), dw = lim - sgn * w( ax ); if( du >= 0 ) O.push_back( u ); if( ( du > 0 && dw < 0 ) || ( du < 0 && dw > 0 ) ) O.push_back( u + ( w - u ) * ( du / ( du - dw ) ) ); }
            P = O;
          }
          if( ref.h( face ) + inc.h( fi ) - std::fabs( nr.dot( inc.x1 - ref.x1 ) ) < 1.0e-4 * ( ref.h + inc.h ).maxCoeff() ) continue; // hardly touching: the slightest tilt parts an edge
          c.stat( "face_contacts_judged" );
          const double big = std::min( ref.h.minCoeff(), inc.h.minCoeff() );
          for( int z = 0; z < 8 && !P.empty(); ++z )
          {
            const Eigen::Vector2d dir( std::cos( z * M_PI / 4 ), std::sin( z * M_PI / 4 ) ); double want = -1e300, got = -1e300;
            for( const auto& x : P ) want = std::max( want, x.dot( dir ) ); for( const Vec& x : e.second ) got = std::max( got, flat2( x ).dot( dir ) );
            if( got < want - 1.0e-4 * big - 10.0 * tol ) { c.viol( "face_contact_area", vf::Msg() << "boxes " << e.first.first << "," << e.first.second << " touch face to face, the common area reaches " << want << " in a direction, the " << e.second.size() << " contact points " << got << " | " << C.desc ); break; }
          }
        }
        #endif
        if( face < 0 || both ) continue;
        double lo = 1e300, lo2 = 1e300; Vec cor = Vec::Zero();
        for( int m = 0; m < ( 1 << DIM ); ++m ) { const Vec x = corner( inc, m, true ); const double h = nr.dot( x ); if( h < lo ) { lo2 = lo; lo = h; cor = x; } else lo2 = std::min( lo2, h ); }
        if( lo2 - lo < 1.0e-3 * inc.h.minCoeff() || pointBoxDist( cor, ref.x1, ref.R1, ref.h ) > -100.0 * tol ) continue;
        double best = 1e300; for( const Vec& x : e.second ) { Vec d = x - cor; d -= d.dot( nr ) * nr; best = std::min( best, d.norm() ); }
        c.stat( "deepest_corners_judged" );
        if( best > 10.0 * tol ) c.viol( "deepest_corner_missing", vf::Msg() << "boxes " << e.first.first << "," << e.first.second << ": the deepest corner " << vf::vs( cor ) << " is not among the contact points (nearest " << best << " away along the face) | " << C.desc );
      }
    }
    for( auto& e : corners ) for( size_t x = 0; x < e.second.size(); ++x ) for( size_t y = x + 1; y < e.second.size(); ++y ) if( ( e.second[x] - e.second[y] ).norm() < 1.0e-6 * C.s.b[e.first.first].h.minCoeff() ) c.viol( "repeated_corner", C.desc );
  }

  #if VSIM == 3
  void meshMesh( const Constraint& k, const int i, const int j, const Vec& n, const Vec& p )
  {
    const Bd &a = C.s.b[i], &b = C.s.b[j]; const double scale = a.h.norm() + b.h.norm() + a.x1.norm() + b.x1.norm();
    double best = 1e300; std::string why;
    for( int w = 0; w < 2; ++w )
    {
      const Bd &m = w ? b : a, &o = w ? a : b;
      for( const Vec& sp : meshSamples( m.h ) )
      {
        const Vec x = m.x1 + m.R1 * sp; if( ( x - p ).norm() > 1.0e-8 * scale ) continue;
        Vec l = o.R1.transpose() * ( x - o.x1 ); double v; Vec g;
        for( int dd = 0; dd < 27; ++dd ) // the gradient jumps between cells: accept either side of a cell face
        {
          Vec ll = l; const double eps = 1.0e-9 * scale; ll.x() += eps * ( dd % 3 - 1 ); ll.y() += eps * ( dd / 3 % 3 - 1 ); ll.z() += eps * ( dd / 9 - 1 );
          if( !meshSDF( ll, o.h, v, &g ) || v > 1.0e-6 * scale || g.norm() < 1.0e-6 ) continue;
          const Vec e = ( w ? -1.0 : 1.0 ) * ( o.R1 * g.normalized() );
          const double err = ( e - n ).norm(); if( err < best ) { best = err; why = vf::Msg() << "sample " << vf::vs( sp ) << " of mesh " << ( w ? j : i ) << " distance " << v << " expected normal " << vf::vs( e ); }
        }
      }
    }
    c.stat( "normals_judged" ); c.stat( "mesh_mesh" );
    if( best > 1.0e-5 ) bad( "normal_or_point", k, vf::Msg() << "point " << vf::vs( p ) << " normal " << vf::vs( n ) << " match no sample inside the other mesh; best differs by " << best << ": " << why );
  }
  #endif

  // totals over the contacts of the current state
  void counts()
  {
    #if VSIM != 2
    C.sim.state().q() = C.q1; C.sim.state().v() = C.v;
    #if VSIM == 3
    C.sim.state().updateMandMinv();
    #endif
    ActiveSet as; C.sim.computeActiveSet( C.q1, C.q1, C.v, as );
    std::map<std::string,unsigned> n, gn; std::map<std::string,scalar> d, gd, v, gv, mag;
    for( const auto& k : as ) { ++n[k->name()]; const double x = k->penetrationDepth( C.q1 ); d[k->name()] += x; mag[k->name()] += std::fabs( x ); v[k->name()] += k->overlapVolume( C.q1 ); }
    #if VSIM == 1
    C.sim.computeNumberOfCollisions( gn, gd );
    #else
    C.sim.computeNumberOfCollisions( gn, gd, gv );
    #endif
    c.stat( "totals_judged" );
    if( gn != n ) c.viol( "collision_count", vf::Msg() << "the numbers of collisions reported are not those of the contacts | " << C.desc );
    const auto same = []( const double a, const double b, const double m ) { return ( std::isnan( a ) && std::isnan( b ) ) || std::fabs( a - b ) <= 1.0e-10 * m; };
    for( const auto& e : d ) if( !gd.count( e.first ) || !same( gd[e.first], e.second, mag[e.first] ) ) c.viol( "collision_depth_total/" + e.first, vf::Msg() << "reported " << gd[e.first] << ", the contacts sum to " << e.second << " | " << C.desc );
    #if VSIM == 3
    for( const auto& e : v ) if( !gv.count( e.first ) || !same( gv[e.first], e.second, std::fabs( e.second ) ) ) c.viol( "overlap_volume_total/" + e.first, vf::Msg() << "reported " << gv[e.first] << ", the contacts sum to " << e.second << " | " << C.desc );
    #endif
    #endif
  }

  void run()
  {
    c.family( fam + " " + C.desc );
    ActiveSet as; C.sim.computeActiveSet( C.q0, C.q1, C.v, as );
    for( const auto& kp : as )
    {
      const Constraint& k = *kp; const std::string nm = k.name();
      c.stat( "type_" + nm );
      const Vec n = basisNormal( k, C.q0, C.v );
      if( std::fabs( n.norm() - 1.0 ) > 1.0e-9 ) { bad( "not_unit", k, vf::Msg() << "normal " << vf::vs( n ) ); continue; }
      if( hasNormal( nm ) ) { VectorXs m; k.getWorldSpaceContactNormal( C.q0, m ); if( m.size() != DIM || ( m - n ).norm() > 1.0e-9 ) bad( "normals_differ", k, vf::Msg() << "reported normal " << vf::vs( m ) << " first basis vector " << vf::vs( n ) ); }
      Vec p = Vec::Zero(); if( hasPoint( nm ) ) { VectorXs m; k.getWorldSpaceContactPoint( C.q0, m ); if( m.size() != DIM || !vf::finite( m ) ) { bad( "point", k, vf::vs( m ) ); continue; } p = m; }
      const Key key = keyOf( k );
      if( key.kind == 1 ) plane( k, key.a, key.b, n, p );
      else if( key.kind == 2 ) curved( k, key.a, key.b, n, p, hasPoint( nm ) );
      else
      {
        std::pair<int,int> b; k.getBodyIndices( b ); const Bd &x = C.s.b[b.first], &y = C.s.b[b.second];
        if( x.s == ROUND && y.s == ROUND ) roundRound( k, b.first, b.second, n, p );
        else if( !still ) continue;
        else if( x.s == ROUND || y.s == ROUND ) circleBox( k, b.first, b.second, n, p );
        else if( x.s == BOX ) boxBox( k, b.first, b.second, n, p );
        #if VSIM == 3
        else meshMesh( k, b.first, b.second, n, p );
        #endif
      }
    }
    if( still ) boxPoints();
    counts();
    c.stat( "contacts", (long long) as.size() );
    if( !as.empty() ) { c.seen( vf::hv( C.q1, vf::hv( C.q0 ) ) ); c.sample( C.desc + " | contacts " + std::to_string( as.size() ) ); }
  }
};

static void one( vf::Ctx& c, vf::Rng& r, long )
{
  const double w = r.u();
  if( w < 0.6 ) { Config C = stress( r, c.thorough, true ); Judge{ c, C, true, "still", {}, {}, {} }.run(); c.stat( "still" ); }
  else if( w < 0.75 ) { Config C = stress( r, c.thorough ); Judge{ c, C, C.q0 == C.q1, "moving", {}, {}, {} }.run(); c.stat( "moving" ); }
  else if( w < 0.95 ) { Config C = periodic( r, c.thorough ); Judge{ c, C, C.q0 == C.q1, "periodic", {}, {}, {} }.run(); c.stat( "periodic" ); }
  else { Config C = exact( r ); Judge{ c, C, true, "exact", {}, {}, {} }.run(); c.stat( "exact" ); }
}
int main( int argc, char** argv ) { return vf::main_( argc, argv, one ); }
