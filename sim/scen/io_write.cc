// W05: writers against a disk that fills up, fails or accepts bytes in pieces.

#include "ops.hh"

#include <aleph/containers/PointCloud.hh>

#include <aleph/math/PiecewiseLinearFunction.hh>
#include <aleph/math/StepFunction.hh>
#include <aleph/math/SymmetricMatrix.hh>

#include <aleph/persistenceDiagrams/PersistenceDiagram.hh>
#include <aleph/persistenceDiagrams/io/JSON.hh>
#include <aleph/persistenceDiagrams/io/Raw.hh>

#include <aleph/topology/Simplex.hh>
#include <aleph/topology/SimplicialComplex.hh>
#include <aleph/topology/io/GML.hh>
#include <aleph/topology/io/LinesAndPoints.hh>
#include <aleph/topology/io/TikZ.hh>

#include <cerrno>
#include <cmath>
#include <fstream>
#include <map>
#include <memory>
#include <streambuf>

namespace
{

using Simplex = aleph::topology::Simplex<double, unsigned>;
using Complex = aleph::topology::SimplicialComplex<Simplex>;
using Diagram = aleph::PersistenceDiagram<double>;
using Cloud   = aleph::containers::PointCloud<double>;

// At most six significant digits: the precision of an unconfigured stream.
double value( bool negative = true )
{
  double w = double( sim::choose( 100000 ) );
  static const double scale[] = { 1, 10, 100, 1000, 100000 };
  w /= scale[ sim::choose( 5 ) ];
  if( negative && sim::flip( 1, 4 ) ) w = -w;
  return w == 0 ? 0.0 : w;
}

std::string num( double x )
{
  char b[64];
  std::snprintf( b, sizeof( b ), "%g", x );
  return b;
}

std::size_t amount( std::size_t small, std::size_t large )
{
  return sim::flip( 1, 6 ) ? sim::choose( large ) : sim::choose( small + 1 );
}

std::vector<std::string> tokens( const std::string& s )
{
  std::vector<std::string> r;
  std::string cur;
  for( char c : s )
  {
    if( std::isspace( static_cast<unsigned char>( c ) ) ) { if( !cur.empty() ) r.push_back( cur ); cur.clear(); }
    else cur += c;
  }
  if( !cur.empty() ) r.push_back( cur );
  return r;
}

// An object together with the calls that write it.
struct Job
{
  virtual ~Job() {}
  virtual const char* name() const = 0;
  virtual bool byName() const { return false; }
  virtual void write( const std::string& ) const {}
  virtual void write( std::ostream& ) const = 0;
  virtual std::string expected() const = 0;          // up to white space
  virtual void readBack( const std::string& ) const {}
};

std::string cls( const char* what, const Job& j ) { return std::string( what ) + "/" + j.name(); }

Complex graph( unsigned& n, bool triangles )
{
  n = unsigned( 1 + amount( 6, 150 ) );
  unsigned base = 1;
  Complex K;
  std::vector<Simplex> s;
  std::vector<unsigned> order;
  for( unsigned i = 0; i < n; i++ ) order.push_back( base + i );
  sim::shuffle( order );
  for( auto v : order ) s.push_back( Simplex( v, value() ) );
  std::map< std::pair<unsigned, unsigned>, bool > have;
  auto m = amount( 10, 300 );
  for( std::size_t i = 0; i < m; i++ )
  {
    unsigned u = base + unsigned( sim::choose( n ) ), v = base + unsigned( sim::choose( n ) );
    if( u == v ) continue;
    if( u > v ) std::swap( u, v );
    if( have[ { u, v } ] ) continue;
    have[ { u, v } ] = true;
    s.push_back( Simplex( { u, v }, value() ) );
  }
  if( triangles && n >= 3 )
    for( unsigned i = 0; i < 3; i++ )
    {
      unsigned u = base + unsigned( sim::choose( n - 2 ) );
      s.push_back( Simplex( { u, u+1, u+2 }, value() ) );
    }
  return Complex( s.begin(), s.end() );
}

struct GML : Job
{
  mutable Complex K;
  unsigned n;
  bool labels, data;
  std::vector<std::string> names;

  GML()
  {
    K = graph( n, true );
    labels = sim::flip( 1, 3 );
    data   = sim::flip( 1, 3 );
    for( unsigned i = 0; labels && i < n; i++ )
      names.push_back( "v" + std::to_string( sim::choose( 1000 ) ) );
  }
  const char* name() const override { return "gml"; }
  bool byName() const override { return true; }
  aleph::topology::io::GMLWriter writer() const
  {
    aleph::topology::io::GMLWriter w;
    if( labels ) w.setNodeLabels( names.begin(), names.end() );
    if( data )   w.writeSimplexDataForVertices();
    return w;
  }
  void write( const std::string& f ) const override { auto w = writer(); w( f, K ); }
  void write( std::ostream& o ) const override { auto w = writer(); w( o, K ); }
  std::string expected() const override
  {
    std::string a, b;
    for( auto&& s : K )
      if( s.dimension() == 0 )
      {
        a += "node [ id " + std::to_string( s[0] ) + " ";
        if( labels ) a += "label \"" + names[ s[0] - 1 ] + "\" ";
        if( data )   a += "data " + num( s.data() ) + " ";
        a += "] ";
      }
      else if( s.dimension() == 1 )
        b += "edge [ source " + std::to_string( s[0] ) + " target " + std::to_string( s[1] ) + " weight " + num( s.data() ) + " ] ";
    return "graph [ directed 0 " + a + b + "]";
  }
  void readBack( const std::string& content ) const override
  {
    sim::disk::put( "/sim/back.gml", content );
    Complex L;
    aleph::topology::io::GMLReader reader;
    reader( "/sim/back.gml", L );
    // Readers number vertices by their order of identifiers.
    auto names = reader.getNodeAttribute( "id" );
    std::map< std::vector<unsigned>, double > have, want;
    std::size_t vertices = 0;
    for( auto&& s : L ) { if( s.dimension() == 0 ) vertices++; else have[ std::vector<unsigned>( s.begin(), s.end() ) ] = s.data(); }
    for( auto&& s : K )
      if( s.dimension() == 1 ) want[ { s[0], s[1] } ] = s.data();
    SIM_REQUIRE( vertices == n, "read-back/gml", "wrote " << n << " vertices, read " << vertices );
    SIM_REQUIRE( have.size() == want.size(), "read-back/gml", "wrote " << want.size() << " edges, read " << have.size() );
    std::multimap<double, int> a, b;
    for( auto&& h : have ) a.insert( { h.second, 0 } );
    for( auto&& h : want ) b.insert( { h.second, 0 } );
    SIM_REQUIRE( a == b, "read-back/gml", "edge weights differ after reading" );
  }
};

struct JSON : Job
{
  Diagram D;
  std::string label;
  std::map<std::string, std::string> kvs;

  JSON()
  {
    auto n = amount( 6, 600 );
    for( std::size_t i = 0; i < n; i++ )
    {
      auto x = value();
      if( sim::flip( 1, 5 ) ) D.add( x );
      else D.add( x, x + double( sim::choose( 4 ) ) );
    }
    // Sums may need more digits than are written.
    Diagram E;
    for( auto&& p : D ) E.add( p.x(), std::isfinite( p.y() ) ? std::atof( num( p.y() ).c_str() ) : p.y() );
    D = E;
    D.setDimension( sim::choose( 4 ) );
    if( sim::flip( 1, 2 ) ) label = "d" + std::to_string( sim::choose( 100 ) );
    for( std::uint64_t i = sim::choose( 3 ); i > 0; i-- ) kvs[ "key" + std::to_string( i ) ] = "v" + std::to_string( sim::choose( 100 ) );
  }
  const char* name() const override { return "json"; }
  bool byName() const override { return kvs.empty(); }
  void write( const std::string& f ) const override { aleph::io::writeJSON( f, D, label ); }
  void write( std::ostream& o ) const override { aleph::io::writeJSON( o, D, label, kvs ); }
  std::string expected() const override
  {
    std::string s = "{ \"betti\": " + std::to_string( D.betti() ) + ", \"dimension\": " + std::to_string( D.dimension() ) + ", ";
    for( auto&& p : kvs ) s += "\"" + p.first + "\": \"" + p.second + "\", ";
    if( !label.empty() ) s += "\"name\": \"" + label + "\", ";
    s += "\"size\": " + std::to_string( D.size() ) + ", \"diagram\": [ ";
    bool first = true;
    for( auto&& p : D )
    {
      s += std::string( first ? "" : ", " ) + "[\"" + num( p.x() ) + "\",\"" + num( p.y() ) + "\"]";
      first = false;
    }
    return s + " ] }";
  }
  void readBack( const std::string& content ) const override
  {
    sim::disk::put( "/sim/back.json", "{\"diagrams\": [" + content + "]}" );
    auto all = aleph::io::readJSON<double>( "/sim/back.json" );
    SIM_REQUIRE( all.size() == 1 && all[0] == D && all[0].dimension() == D.dimension(), "read-back/json", "the diagram read differs from the one written" );
  }
};

struct Embedded : Job
{
  Complex K;
  unsigned n;
  std::vector< std::vector<double> > coordinates;
  Embedded()
  {
    K = graph( n, true );
    auto d = sim::flip( 1, 3 ) ? 3u : 2u;
    coordinates.resize( n + 1 );
    for( auto&& c : coordinates ) for( unsigned i = 0; i < d; i++ ) c.push_back( value() );
  }
  bool byName() const override { return true; }
};

struct Lines : Embedded
{
  bool labels = sim::flip( 1, 2 );
  const char* name() const override { return "lines-and-points"; }
  aleph::topology::io::LinesAndPoints writer() const { aleph::topology::io::LinesAndPoints w; w.addVertexLabels( labels ); return w; }
  void write( const std::string& f ) const override { auto w = writer(); w( f, K, coordinates ); }
  void write( std::ostream& o ) const override { auto w = writer(); w( o, K, coordinates ); }
  std::string point( unsigned u ) const
  {
    std::string s;
    for( auto&& x : coordinates[u] ) s += num( x ) + " ";
    return s;
  }
  std::string expected() const override
  {
    std::string s;
    for( auto&& k : K ) if( k.dimension() == 0 ) s += point( k[0] ) + ( labels ? std::to_string( k[0] ) + " " : "" );
    for( auto&& k : K ) if( k.dimension() == 1 ) s += point( k[0] ) + point( k[1] );
    return s;
  }
};

struct TikZ : Embedded
{
  bool labels = sim::flip( 1, 2 ), triangles = sim::flip( 1, 2 ), balls = sim::flip( 1, 2 );
  const char* name() const override { return "tikz"; }
  aleph::topology::io::TikZ writer() const
  {
    aleph::topology::io::TikZ w;
    w.showVertexLabels( labels );
    w.showTriangles( triangles );
    w.showBalls( balls );
    w.ballRadius( 2.5 );
    return w;
  }
  void write( const std::string& f ) const override { auto w = writer(); w( f, K, coordinates ); }
  void write( std::ostream& o ) const override { auto w = writer(); w( o, K, coordinates ); }
  std::string expected() const override
  {
    auto id = [] ( unsigned u ) { return "(" + std::to_string( u ) + ")"; };
    std::string s = "\\begin{tikzpicture} % 0-simplices ";
    for( auto&& k : K )
    {
      if( k.dimension() != 0 ) continue;
      auto& p = coordinates[ k[0] ];
      s += "\\coordinate";
      if( labels ) s += "[label=above:" + std::to_string( k[0] ) + "] ";
      s += id( k[0] ) + " at (" + num( p[0] ) + "," + num( p[1] ) + "); ";
      s += "\\filldraw[black] " + id( k[0] ) + " circle (1pt); ";
      if( balls ) s += "\\fill[black, fill opacity=0.1] " + id( k[0] ) + " circle (2.5cm); ";
    }
    if( triangles )
    {
      s += "% 2-simplices ";
      for( auto&& k : K )
        if( k.dimension() == 2 )
          s += "\\fill[black, fill opacity=0.2] " + id( k[0] ) + " -- " + id( k[1] ) + " -- " + id( k[2] ) + " -- cycle; ";
    }
    s += "% 1-simplices ";
    for( auto&& k : K )
      if( k.dimension() == 1 )
        s += "\\draw[black, line width=0.5mm] " + id( k[0] ) + " -- " + id( k[1] ) + "; ";
    return s + "\\end{tikzpicture}";
  }
};

struct Raw : Job
{
  Diagram D;
  Raw()
  {
    auto n = amount( 6, 900 );
    for( std::size_t i = 0; i < n; i++ )
    {
      if( sim::flip( 1, 6 ) ) D.add( value() );
      else                    D.add( value(), value() );
    }
  }
  const char* name() const override { return "diagram"; }
  void write( std::ostream& o ) const override { o << D; }
  std::string expected() const override
  {
    std::string s;
    for( auto&& p : D ) s += num( p.x() ) + " " + num( p.y() ) + " ";
    return s;
  }
  void readBack( const std::string& content ) const override
  {
    sim::disk::put( "/sim/back.txt", content );
    auto E = aleph::io::load<double>( "/sim/back.txt" );
    SIM_REQUIRE( E == D, "read-back/diagram", "the diagram read differs from the one written" );
  }
};

struct Points : Job
{
  Cloud P;
  Points()
  {
    auto n = 1 + amount( 6, 300 ), d = 1 + sim::choose( 4 );
    P = Cloud( n, d );
    for( std::size_t i = 0; i < n; i++ )
    {
      std::vector<double> v;
      for( std::size_t k = 0; k < d; k++ ) v.push_back( value() );
      P.set( i, v.begin(), v.end() );
    }
  }
  const char* name() const override { return "point-cloud"; }
  void write( std::ostream& o ) const override { o << P; }
  std::string expected() const override
  {
    std::string s;
    for( std::size_t i = 0; i < P.size(); i++ )
      for( auto&& x : P[i] ) s += num( x ) + " ";
    return s;
  }
  void readBack( const std::string& content ) const override
  {
    sim::disk::put( "/sim/back.txt", content );
    auto Q = aleph::containers::load<double>( "/sim/back.txt" );
    SIM_REQUIRE( Q == P, "read-back/point-cloud", "the points read differ from those written" );
  }
};

struct Steps : Job
{
  aleph::math::StepFunction<double> f;
  std::vector<double> parts;
  Steps()
  {
    auto n = amount( 6, 500 );
    double x = double( sim::choose( 10 ) );
    for( std::size_t i = 0; i < n; i++ )
    {
      double a = x + double( sim::choose( 3 ) ), b = a + 1 + double( sim::choose( 3 ) );
      double y = value();
      f.add( a, b, y );
      parts.insert( parts.end(), { a, y, b, y } );
      x = b;
    }
  }
  const char* name() const override { return "step-function"; }
  void write( std::ostream& o ) const override { o << f; }
  std::string expected() const override
  {
    std::string s;
    for( auto&& x : parts ) s += num( x ) + " ";
    return s;
  }
  void readBack( const std::string& content ) const override
  {
    sim::disk::put( "/sim/back.txt", content );
    std::ifstream in( "/sim/back.txt" );
    aleph::math::StepFunction<double> g;
    in >> g;
    std::vector<double> back;
    for( auto&& i : g.indicatorFunctions() ) back.insert( back.end(), { i.a(), i.y(), i.b(), i.y() } );
    SIM_REQUIRE( back == parts, "read-back/step-function", "the function read differs from the one written" );
  }
};

struct Linear : Job
{
  aleph::math::PiecewiseLinearFunction<double> f;
  std::vector<double> parts;
  Linear()
  {
    auto n = amount( 6, 500 );
    double x = double( sim::choose( 10 ) );
    std::vector< std::pair<double, double> > v;
    for( std::size_t i = 0; i < n; i++ )
    {
      double y = value( false );
      v.push_back( { x, y } );
      parts.insert( parts.end(), { x, y } );
      x += 1 + double( sim::choose( 9 ) );
    }
    f = aleph::math::PiecewiseLinearFunction<double>( v.begin(), v.end() );
  }
  const char* name() const override { return "piecewise-linear"; }
  void write( std::ostream& o ) const override { o << f; }
  std::string expected() const override
  {
    std::string s;
    for( auto&& x : parts ) s += num( x ) + " ";
    return s;
  }
};

struct Whole : Job
{
  Complex K;
  unsigned n;
  Whole() { K = graph( n, true ); }
  const char* name() const override { return "complex"; }
  void write( std::ostream& o ) const override { o << K; }
  std::string expected() const override
  {
    std::string line( 80, '-' ), s = line + " ";
    for( auto&& k : K )
    {
      s += "{";
      for( std::size_t i = 0; i < k.size(); i++ ) s += ( i ? " " : "" ) + std::to_string( k[i] );
      if( k.data() != 0 ) s += " (" + num( k.data() ) + ")";
      s += "} ";
    }
    return s + line;
  }
};

struct Matrix : Job
{
  aleph::math::SymmetricMatrix<double> M;
  std::vector<double> parts;
  Matrix() : M( 1 + amount( 5, 40 ) )
  {
    auto n = M.numRows();
    for( std::size_t i = 0; i < n; i++ )
      for( std::size_t j = 0; j <= i; j++ ) M( i, j ) = value();
    for( std::size_t i = 0; i < n; i++ )
      for( std::size_t j = 0; j < n; j++ ) parts.push_back( M( i, j ) );
  }
  const char* name() const override { return "symmetric-matrix"; }
  void write( std::ostream& o ) const override { o << M; }
  std::string expected() const override
  {
    std::string s;
    for( auto&& x : parts ) s += num( x ) + " ";
    return s;
  }
};

std::unique_ptr<Job> draw( bool named = false )
{
  std::unique_ptr<Job> j;
  switch( sim::choose( named ? 4 : 14 ) )
  {
  case 0: case 10: j.reset( new GML ); break;
  case 1: case 11: j.reset( new JSON ); break;
  case 2: case 12: j.reset( new Lines ); break;
  case 3: case 13: j.reset( new TikZ ); break;
  case 4: j.reset( new Raw ); break;
  case 5: j.reset( new Points ); break;
  case 6: j.reset( new Steps ); break;
  case 7: j.reset( new Linear ); break;
  case 8: j.reset( new Whole ); break;
  case 9: j.reset( new Matrix ); break;
  }
  sim::story( "writer %s", j->name() );
  sim::signature( sim::hashString( j->name() ) );
  return j;
}

// Accepts a number of bytes, then refuses or throws.
struct Sink : std::streambuf
{
  std::string content;
  std::size_t capacity;
  bool throwing, buffered;
  bool failed = false;
  char area[16];

  Sink( std::size_t c, bool t, bool b ) : capacity( c ), throwing( t ), buffered( b ) { if( buffered ) setp( area, area + sizeof( area ) ); }

  bool accept( const char* p, std::size_t n )
  {
    std::size_t k = content.size() + n <= capacity ? n : capacity - content.size();
    content.append( p, k );
    if( k == n ) return true;
    failed = true;
    sim::count( "stream.refused" );
    sim::event( "refused", content.size() );
    sim::nontrivial();
    if( throwing ) throw std::runtime_error( "stream refuses" );
    return false;
  }
  bool drain()
  {
    if( !buffered ) return true;
    auto n = std::size_t( pptr() - pbase() );
    auto* b = pbase();
    setp( area, area + sizeof( area ) );
    return accept( b, n );
  }
  int overflow( int c ) override
  {
    if( !drain() ) return traits_type::eof();
    if( c == traits_type::eof() ) return traits_type::not_eof( c );
    char k = char( c );
    if( buffered ) { *pptr() = k; pbump( 1 ); return c; }
    return accept( &k, 1 ) ? c : traits_type::eof();
  }
  int sync() override { return drain() ? 0 : -1; }
};

sim::disk::Plan plan( std::size_t size )
{
  auto p = sim::disk::perturbedPlan();
  switch( sim::choose( 5 ) )
  {
  case 0: break;
  case 4:
    p.closeError = sim::pick( { EIO, ENOSPC, EDQUOT } );
    break;
  case 1:
  case 2:
    p.errorAt   = std::int64_t( sim::flip( 1, 4 ) ? size - std::min<std::size_t>( size, sim::choose( 3 ) ) : sim::choose( size + 1 ) );
    p.errorCode = sim::pick( { ENOSPC, EIO, EDQUOT, EFBIG } );
    p.errorOnce = sim::flip( 1, 2 );
    break;
  case 3:
    p.openError = sim::pick( { EACCES, ENOSPC, EISDIR, EMFILE, EROFS } );
    break;
  }
  sim::story( "plan: chunk %d eintr %u errorAt %d code %d once %d openError %d closeError %d", int( p.chunk ), p.eintr, int( p.errorAt ), p.errorCode, int( p.errorOnce ), p.openError, p.closeError );
  sim::signature( sim::mix( std::uint64_t( p.errorAt ), std::uint64_t( p.openError ) ) );
  return p;
}

void judge( const Job& j, const std::string& content )
{
  SIM_REQUIRE( tokens( content ) == tokens( j.expected() ), cls( "content", j ), "wrote '" << content.substr( 0, 600 ) << "', expected '" << j.expected().substr( 0, 600 ) << "'" );
  j.readBack( content );
}

void byName()
{
  auto j = draw( true );
  if( !j->byName() ) sim::discard();
  std::ostringstream probe;
  j->write( probe );
  const std::string path = "/sim/out";
  bool existed = sim::flip( 1, 3 );
  if( existed ) sim::disk::put( path, std::string( sim::choose( 20000 ), 'x' ) );
  sim::disk::setPlan( path, plan( probe.str().size() ) );
  sim::heap::paintStack();
  bool threw = false;
  std::string what;
  try { j->write( path ); }
  catch( const std::exception& e ) { threw = true; what = e.what(); }
  auto delivered = sim::disk::errorsDelivered();
  sim::disk::clearPlans();
  SIM_REQUIRE( sim::disk::openHandles() == 0, cls( "descriptor", *j ), "file descriptor left open" );
  if( delivered )
    SIM_REQUIRE( threw, cls( "unreported", *j ), delivered << " call(s) failed, but the writer reported success; the file has " << sim::disk::get( path ).size() << " of " << probe.str().size() << " bytes" );
  else
  {
    SIM_REQUIRE( !threw, cls( "refused", *j ), "writing to healthy storage failed: " << what );
    judge( *j, sim::disk::get( path ) );
  }

  // Writing again to healthy storage gives the whole file.
  try { j->write( path ); }
  catch( const std::exception& e ) { SIM_REQUIRE( false, cls( "retry", *j ), "writing again failed: " << e.what() ); }
  judge( *j, sim::disk::get( path ) );
  sim::observe( sim::disk::get( path ) );
}

void byStream()
{
  auto j = draw();
  std::ostringstream probe;
  j->write( probe );
  const std::string path = "/sim/out";
  auto p = plan( probe.str().size() );
  p.openError = 0;
  sim::disk::setPlan( path, p );
  sim::heap::paintStack();
  std::ofstream out( path );
  bool enabled = sim::flip( 1, 4 );
  if( enabled ) out.exceptions( std::ios::badbit );
  bool threw = false;
  try { j->write( out ); }
  catch( const std::exception& ) { threw = true; }
  auto delivered = sim::disk::errorsDelivered();
  if( delivered )
    SIM_REQUIRE( threw || !out, cls( "unreported", *j ), "storage failed during the call, but the stream is still good" );
  else
    SIM_REQUIRE( !threw && out, cls( "refused", *j ), "writing to a healthy stream failed" );
  out.exceptions( std::ios::goodbit );
  out.close();
  delivered = sim::disk::errorsDelivered();
  sim::disk::clearPlans();
  if( delivered )
    SIM_REQUIRE( threw || !out, cls( "unreported", *j ), "storage failed, but the stream is still good after closing it" );
  else
    judge( *j, sim::disk::get( path ) );
  sim::observe( sim::disk::get( path ) );
}

void byBuffer()
{
  auto j = draw();
  std::ostringstream probe;
  j->write( probe );
  auto n = probe.str().size();
  auto capacity = sim::flip( 1, 4 ) ? n : std::size_t( sim::choose( n + 1 ) );
  Sink sink( capacity, sim::flip( 1, 3 ), sim::flip( 1, 2 ) );
  std::ostream out( &sink );
  bool enabled = sim::flip( 1, 4 );
  if( enabled ) out.exceptions( std::ios::badbit );
  sim::story( "stream accepting %zu of %zu bytes, throwing %d, buffered %d, exceptions %d", capacity, n, int( sink.throwing ), int( sink.buffered ), int( enabled ) );
  sim::signature( sim::mix( capacity, sink.throwing * 2 + enabled ) );
  bool threw = false;
  try { j->write( out ); }
  catch( const std::exception& ) { threw = true; }
  bool failed = sink.failed;
  if( failed )
    SIM_REQUIRE( threw || !out, cls( "unreported", *j ), "the stream refused data during the call, but is still good" );
  else
    SIM_REQUIRE( !threw && out, cls( "refused", *j ), "writing to a healthy stream failed" );
  try { out.flush(); }
  catch( const std::exception& ) { threw = true; }
  if( sink.failed )
    SIM_REQUIRE( threw || !out, cls( "unreported", *j ), "the stream refused data, but is still good after flushing" );
  else
    judge( *j, sink.content );
  SIM_REQUIRE( sink.failed || capacity >= n, cls( "content", *j ), "less was written than into another stream" );
  sim::observe( sink.content );
}

sim::Register r1( "W05", "file by name", byName, 3 );
sim::Register r2( "W05", "open file stream", byStream, 2 );
sim::Register r3( "W05", "custom stream", byBuffer, 2 );

// Writers as operations on shared objects.
struct Writing : ops::Op
{
  std::unique_ptr<Job> j;
  bool named;
  Writing() : j( draw() ), named( j->byName() && !sim::threads::available() ) {}
  std::string input() const override { return j->expected(); }
  std::string run( unsigned variant ) const override
  {
    if( named && ( variant & 1 ) )
    {
      j->write( "/sim/shared" );
      ops::Calm q;
      return sim::disk::get( "/sim/shared" );
    }
    std::ostringstream out;
    j->write( out );
    ops::Calm q;
    if( !out ) throw std::runtime_error( "the stream has failed" );
    return out.str();
  }
  void judge( const std::string& r, unsigned ) const override
  {
    SIM_REQUIRE( tokens( r ) == tokens( j->expected() ), ::cls( "content", *j ), "wrote '" << r.substr( 0, 600 ) << "', expected '" << j->expected().substr( 0, 600 ) << "'" );
  }
};

ops::Add<Writing> w0( "", "writing", 14, ops::AnyReport );

} // namespace
