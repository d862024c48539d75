// Lexicographic triangulations, VTK structured grids, PLY, and the reader
// that goes by the extension (here because of the variables in PLY.hh).

#include "io_formats.hh"

#include <aleph/topology/Simplex.hh>
#include <aleph/topology/SimplicialComplex.hh>

#include <aleph/topology/io/LexicographicTriangulation.hh>
#include <aleph/topology/io/PLY.hh>
#include <aleph/topology/io/SimplicialComplexReader.hh>
#include <aleph/topology/io/VTK.hh>

namespace formats
{

namespace
{

using Simplex = aleph::topology::Simplex<double, unsigned long>;
using Complex = aleph::topology::SimplicialComplex<Simplex>;

Complex marker()
{
  Complex K;
  K.push_back( Simplex( 91ul, 3.5 ) );
  K.push_back( Simplex( 92ul, 4.5 ) );
  K.push_back( Simplex( { 91ul, 92ul }, 7.25 ) );
  return K;
}

// -- lexicographic triangulations -----------------------------------------

struct Lexicographic : Format
{
  const char* name() const override { return "lexicographic"; }

  struct L : Loader
  {
    aleph::topology::io::LexicographicTriangulationReader reader;
    std::vector<Complex> Ks = { marker(), marker() };
    void load( const std::string& p ) override { reader( p, Ks ); }
    std::string target() const override
    {
      std::string s;
      for( auto&& K : Ks ) s += canonical( K );
      return s;
    }
  };

  std::unique_ptr<Loader> make( const Settings& ) const override { return std::unique_ptr<Loader>( new L ); }

  Document generate( const Settings&, const std::string& stem ) const override
  {
    Document d;
    std::string t;
    auto n = sim::choose( 4 );
    for( std::uint64_t b = 0; b <= n; b++ )
    {
      if( sim::flip( 1, 4 ) ) t += sim::pick<const char*>( { "# manifolds [ [ ]\n", "\n", "   \n" } );
      unsigned wrap = unsigned( sim::choose( 3 ) );
      auto brk = [&] () -> std::string
      {
        if( wrap == 0 ) return "";
        if( sim::flip( 1, 4 ) ) return wrap == 1 ? "\n" : "  ";
        return "";
      };
      t += "manifold_" + std::to_string( b ) + "_" + std::to_string( sim::choose( 30 ) ) + "=";
      if( sim::flip( 1, 6 ) ) t += "\n";
      t += "[";
      auto m = 1 + amount( 5, 80 );
      for( std::size_t i = 0; i < m; i++ )
      {
        if( i ) t += "," + brk();
        t += "[" ;
        auto k = 1 + sim::choose( 4 );
        std::set<unsigned long> vs;
        for( std::uint64_t j = 0; j < k; j++ ) vs.insert( 1 + sim::choose( 20 ) );
        std::size_t j = 0;
        for( auto v : vs )
        {
          if( j++ ) t += "," + brk();
          t += std::to_string( v );
        }
        t += "]";
      }
      t += brk() + "]\n";
    }
    if( sim::flip( 1, 4 ) ) t.erase( t.size() - 1 );
    d.files.push_back( { stem + ".lex", t } );
    return d;
  }

  Outcome model( const Document& d, const Settings& ) const override
  {
    std::string result, block;
    bool open = false;
    for( auto&& raw : lines( d.files[0].content ) )
    {
      auto l = strip( raw );
      if( l.empty() || l[0] == '#' ) continue;
      auto e = l.find( '=' );
      if( e != std::string::npos )
      {
        open = true;
        block = l.substr( e + 1 );
      }
      else if( open ) block += l;
      if( open && !block.empty() && std::count( block.begin(), block.end(), '[' ) == std::count( block.begin(), block.end(), ']' ) )
      {
        Cells K;
        std::vector<unsigned long> v;
        std::string number;
        int depth = 0;
        for( char c : block )
        {
          if( std::isdigit( static_cast<unsigned char>( c ) ) ) { number += c; continue; }
          if( !number.empty() ) v.push_back( std::stoul( number ) );
          number.clear();
          if( c == '[' ) { depth++; v.clear(); }
          if( c == ']' ) { if( depth == 2 ) K.add( v, 0 ); depth--; v.clear(); }
        }
        result += K.str();
        open = false;
        block.clear();
      }
    }
    if( open ) return Outcome::Throw();
    return Outcome::Value( result );
  }
};

// -- VTK --------------------------------------------------------------------

struct VTK : Format
{
  const char* name() const override { return "vtk"; }

  Settings settings() const override { return { unsigned( sim::choose( 4 ) ) }; }   // functor, or an open file

  struct L : Loader
  {
    aleph::topology::io::VTKStructuredGridReader reader;
    Complex K = marker();
    unsigned functor;
    void load( const std::string& p ) override
    {
      if( functor == 0 )      reader( p, K );
      else if( functor == 1 ) reader( p, K, [] ( double a, double b ) { return std::min( a, b ); } );
      else if( functor == 2 ) reader( p, K, [] ( double a, double b ) { return a + b; } );
      else
      {
        std::ifstream in( p );
        if( !in ) throw std::runtime_error( "Unable to read input file" );
        reader( in, K );
      }
    }
    std::string target() const override { return canonical( K ); }
    std::string meta() const override
    {
      return "|" + std::to_string( reader.dataTypeSize() ) + "," + reader.scalarsName() + "," + reader.scalarsType();
    }
  };

  std::unique_ptr<Loader> make( const Settings& s ) const override
  {
    auto* l = new L;
    l->functor = s[0];
    return std::unique_ptr<Loader>( l );
  }

  Document generate( const Settings&, const std::string& stem ) const override
  {
    Document d;
    std::string eol = sim::flip( 1, 8 ) ? "\r\n" : "\n";
    std::size_t nx, ny, nz;
    if( sim::flip( 1, 12 ) ) { nx = 1 + sim::choose( 12 ); ny = 1 + sim::choose( 9 ); nz = 1 + sim::choose( 4 ); }
    else                     { nx = 1 + sim::choose( 4 );  ny = 1 + sim::choose( 3 ); nz = 1 + sim::choose( 2 ); }
    auto n = nx * ny * nz;
    struct Type { const char* name; unsigned size; };
    auto type = sim::pick<Type>( { { "float", 4 }, { "double", 8 }, { "int", 4 }, { "long", 8 }, { "short", 2 }, { "char", 1 }, { "bit", 1 },
                                   { "unsigned_int", 4 }, { "unsigned_char", 1 }, { "unsigned_short", 2 }, { "unsigned_long", 8 }, { "unheard", 0 } } );
    std::string t = std::string( sim::flip( 1, 4 ) ? "#  vtk DataFile  Version 3.0" : "# vtk DataFile Version 2.0" ) + eol;
    t += "written by someone" + eol + "ASCII" + eol + "DATASET STRUCTURED_GRID" + eol;
    t += "DIMENSIONS " + std::to_string( nx ) + " " + std::to_string( ny ) + "  " + std::to_string( nz ) + eol;
    t += "POINTS " + std::to_string( n ) + " " + type.name + eol;
    auto perLine = 1 + sim::choose( 3 );
    for( std::size_t i = 0; i < n; )
    {
      for( std::uint64_t k = 0; k < perLine && i < n; k++, i++ )
        t += ( k ? " " : "" ) + std::to_string( i % nx ) + " " + std::to_string( i / nx % ny ) + " " + std::to_string( i / nx / ny ) + ".5";
      t += eol;
    }
    if( sim::flip( 1, 4 ) ) t += eol;
    t += "POINT_DATA " + std::to_string( n ) + eol;
    std::string scalars, scalarType;
    if( sim::flip( 9, 10 ) )
    {
      scalars = sim::pick<const char*>( { "values", "field", "my_field" } );
      scalarType = sim::pick<const char*>( { "float", "double" } );
      t += "SCALARS " + scalars + " " + scalarType + ( sim::flip( 1, 2 ) ? " 1" : "" ) + eol;
    }
    if( sim::flip( 9, 10 ) ) t += "LOOKUP_TABLE default" + eol;
    d.startsAt = t.size();
    auto perRow = 1 + sim::choose( 5 );
    for( std::size_t i = 0; i < n; )
    {
      for( std::uint64_t k = 0; k < perRow && i < n; k++, i++ )
        t += ( k ? " " : "" ) + text( weight() );
      t += eol;
    }
    if( sim::flip( 1, 6 ) ) t += eol;
    d.truth = std::to_string( nx ) + " " + std::to_string( ny ) + " " + std::to_string( nz ) + " " + std::to_string( type.size ) + "," + scalars + "," + scalarType;
    d.files.push_back( { stem + ".vtk", t } );
    return d;
  }

  Outcome model( const Document& d, const Settings& s ) const override
  {
    auto w = words( d.truth );
    std::size_t nx = std::stoul( w[0] ), ny = std::stoul( w[1] ), nz = std::stoul( w[2] ), n = nx * ny * nz;
    auto& t = d.files[0].content;
    if( t.size() < d.startsAt ) return Outcome::Throw();
    auto v = words( t.substr( d.startsAt ) );
    if( v.size() < n ) return Outcome::Throw();
    if( !isNumber( v.back() ) ) return Outcome::Any();
    auto f = [&] ( double a, double b ) { return s[0] % 3 == 0 ? std::max( a, b ) : s[0] == 1 ? std::min( a, b ) : a + b; };
    Cells K;
    auto value = [&] ( std::size_t i ) { return std::stod( v[i] ); };
    for( std::size_t i = 0; i < n; i++ ) K.add( { i }, value( i ) );
    for( std::size_t z = 0; z < nz; z++ )
      for( std::size_t y = 0; y < ny; y++ )
        for( std::size_t x = 0; x < nx; x++ )
        {
          auto i = ( z * ny + y ) * nx + x;
          if( x + 1 < nx ) K.add( { i, i + 1 },       f( value( i ), value( i + 1 ) ) );
          if( y + 1 < ny ) K.add( { i, i + nx },      f( value( i ), value( i + nx ) ) );
          if( z + 1 < nz ) K.add( { i, i + nx * ny }, f( value( i ), value( i + nx * ny ) ) );
        }
    return Outcome::Value( K.str() + "|" + w[3] );
  }
};

// -- PLY ----------------------------------------------------------------------

struct PLY : Format
{
  const char* name() const override { return "ply"; }

  Settings settings() const override { return { unsigned( sim::choose( 5 ) ) }; }   // property

  static const char* propertyName( unsigned i )
  {
    static const char* p[] = { "z", "quality", "x", "missing", "" };
    return p[i];
  }

  struct L : Loader
  {
    aleph::topology::io::PLYReader reader;
    Complex K = marker();
    void load( const std::string& p ) override { reader( p, K ); }
    std::string target() const override { return canonical( K ); }
    std::string meta() const override { return "|" + orderOf( K, false ); }
  };

  std::unique_ptr<Loader> make( const Settings& s ) const override
  {
    auto* l = new L;
    if( s[0] ) l->reader.setDataProperty( propertyName( s[0] ) );
    return std::unique_ptr<Loader>( l );
  }

  Document generate( const Settings&, const std::string& stem ) const override
  {
    Document d;
    std::string eol = sim::flip( 1, 8 ) ? "\r\n" : "\n";
    unsigned long n = 3 + amount( 7, 60 );
    auto m = 1 + amount( 8, 80 );
    std::set< std::set<unsigned long> > faces;
    std::vector< std::vector<unsigned long> > list;
    for( std::size_t i = 0; i < m || list.empty(); i++ )
    {
      std::vector<unsigned long> f = { sim::choose( n ), sim::choose( n ), sim::choose( n ) };
      if( i >= m ) f = { 0, 1, 2 };
      std::set<unsigned long> s( f.begin(), f.end() );
      if( s.size() == 3 && faces.insert( s ).second ) list.push_back( f );
    }
    bool binary = sim::flip( 1, 40 );
    std::vector<std::string> properties = { "x", "y", "z" };
    if( sim::flip( 1, 2 ) ) properties.push_back( "quality" );
    if( sim::flip( 1, 2 ) ) properties.push_back( "red" );
    sim::shuffle( properties );
    std::string t = "ply" + eol + "format " + ( !binary ? "ascii" : sim::pick<const char*>( { "binary_little_endian", "binary_big_endian" } ) ) + " 1.0" + eol;
    if( sim::flip( 1, 3 ) ) t += "comment end_header follows" + eol;
    t += "element vertex " + std::to_string( n ) + eol;
    for( auto&& p : properties )
      t += std::string( "property " ) + ( p == "red" ? "uchar " : sim::pick<const char*>( { "float ", "double " } ) ) + p + eol;
    bool odd = sim::flip( 1, 30 );   // a face that is no triangle of the mesh
    t += "element face " + std::to_string( list.size() + odd ) + eol;
    t += std::string( "property list uchar int " ) + sim::pick<const char*>( { "vertex_indices", "vertex_index" } ) + eol;
    t += "end_header" + eol;
    d.startsAt = t.size();
    for( unsigned long i = 0; i < n; i++ )
    {
      for( std::size_t j = 0; j < properties.size(); j++ )
        t += ( j ? " " : "" ) + text( properties[j] == "red" ? double( sim::choose( 256 ) ) : weight() );
      t += eol;
    }
    for( auto&& f : list )
      t += "3 " + std::to_string( f[0] ) + " " + std::to_string( f[1] ) + " " + std::to_string( f[2] ) + eol;
    if( odd )
      t += sim::pick<std::string>( { "4 0 1 2 0", "2 0 1", "3 0 1 " + std::to_string( n ), "3 1 2 1" } ) + eol;
    if( sim::flip( 1, 4 ) ) t.erase( t.find_last_not_of( "\r\n" ) + 1 );
    d.truth = std::to_string( binary ) + " " + std::to_string( n ) + " " + std::to_string( list.size() + odd );
    for( auto&& p : properties ) d.truth += " " + p;
    d.files.push_back( { stem + ".ply", t } );
    return d;
  }

  Outcome model( const Document& d, const Settings& s ) const override
  {
    auto w = words( d.truth );
    std::size_t n = std::stoul( w[1] ), m = std::stoul( w[2] );
    std::vector<std::string> properties( w.begin() + 3, w.end() );
    auto& t = d.files[0].content;
    if( w[0] == "1" ) return Outcome::Throw();
    // The line break of the last header line may be missing, but then there are no data.
    if( t.size() < d.startsAt ) return Outcome::Throw();
    auto ls = lines( t.substr( d.startsAt ) );
    if( ls.size() < n + m ) return Outcome::Throw();
    auto c = std::find( properties.begin(), properties.end(), propertyName( s[0] ) );
    auto column = std::size_t( c - properties.begin() );
    Cells K;
    std::vector<double> weights( n );
    for( std::size_t i = 0; i < n; i++ )
    {
      weights[i] = c == properties.end() ? 0.0 : std::stod( words( ls[i] ).at( column ) );
      K.add( { i }, weights[i] );
    }
    for( std::size_t i = 0; i < m; i++ )
    {
      auto f = words( ls[ n + i ] );
      if( f.size() < 4 ) return Outcome::Throw();
      unsigned long v[] = { std::stoul( f[1] ), std::stoul( f[2] ), std::stoul( f[3] ) };
      if( f[0] != "3" || v[0] >= n || v[1] >= n || v[2] >= n ) return Outcome::Throw();
      if( v[0] == v[1] || v[1] == v[2] || v[0] == v[2] ) return Outcome::Throw();
      for( int a = 0; a < 3; a++ )
        K.add( { v[a], v[ ( a + 1 ) % 3 ] }, std::max( weights[ v[a] ], weights[ v[ ( a + 1 ) % 3 ] ] ) );
      K.add( { v[0], v[1], v[2] }, std::max( weights[ v[0] ], std::max( weights[ v[1] ], weights[ v[2] ] ) ) );
    }
    return Outcome::Value( K.str() + "|ordered" );
  }
};

// -- the reader that goes by the extension --------------------------------------

struct Generic : Format
{
  const char* name() const override { return "by-extension"; }
  unsigned frequency() const override { return 4; }

  // 0: functor  1: data property
  Settings settings() const override { return { unsigned( sim::choose( 2 ) ), unsigned( sim::choose( 2 ) ) }; }

  struct L : Loader
  {
    aleph::topology::io::SimplicialComplexReader reader;
    Complex K = marker();
    unsigned functor;
    bool sorted = false;    // labels without their order
    void load( const std::string& p ) override
    {
      sorted = p.size() > 4 && p.substr( p.size() - 4 ) == ".gml";
      if( functor == 0 ) reader( p, K );
      else               reader( p, K, [] ( double a, double b ) { return std::min( a, b ); } );
    }
    std::string target() const override { return canonical( K ); }
    std::string meta() const override
    {
      auto l = reader.labels();
      if( sorted ) std::sort( l.begin(), l.end() );
      std::string m = "|";
      for( auto&& s : l ) m += s + ",";
      return m;
    }
  };

  std::unique_ptr<Loader> make( const Settings& s ) const override
  {
    auto* l = new L;
    l->functor = s[0];
    if( s[1] ) l->reader.setDataAttribute( "quality" );
    return std::unique_ptr<Loader>( l );
  }

  static Settings inner( const std::string& name, const Settings& s )
  {
    if( name == "ply" ) return { s[1] };
    if( name == "vtk" ) return { s[0] };
    if( name == "edge-list" ) return { 0, 0, s[1] };
    if( name == "hdf5" ) return { 0, 0 };
    return { 0 };
  }

  static const Format& format( const std::string& name )
  {
    for( auto&& f : all() ) if( name == f->name() ) return *f;
    std::abort();
  }

  static std::string which( const Document& d )
  {
    auto& p = d.files[0].path;
    auto e = p.substr( p.rfind( '.' ) );
    return e == ".gml" ? "gml" : e == ".net" ? "pajek" : e == ".ply" ? "ply" : e == ".vtk" ? "vtk" : e == ".h5" ? "hdf5" : "edge-list";
  }

  Document generate( const Settings& s, const std::string& stem ) const override
  {
    std::string n = sim::pick<const char*>( { "edge-list", "gml", "pajek", "ply", "vtk", "hdf5" } );
    sim::story( "kind %s", n.c_str() );
    return format( n ).generate( inner( n, s ), stem );
  }

  Outcome model( const Document& d, const Settings& s ) const override
  {
    auto n = which( d );
    auto o = format( n ).model( d, inner( n, s ) );
    auto bar = o.value.find( '|' );
    auto complex = o.value.substr( 0, bar );
    std::string labels = "|";
    std::vector<std::string> list;
    if( n == "gml" && bar != std::string::npos )
    {
      auto a = o.value.find( "|labels:" ) + 8;
      for( auto&& p : words( o.value.substr( a, o.value.find( "|ids:" ) - a ), "," ) ) list.push_back( p.substr( p.find( '=' ) + 1 ) );
      std::sort( list.begin(), list.end() );
    }
    if( n == "pajek" && bar != std::string::npos )
    {
      std::map<unsigned long, std::string> m;
      for( auto&& p : words( o.value.substr( bar + 1 ), "," ) ) m[ std::stoul( p ) ] = p.substr( p.find( '=' ) + 1 );
      for( auto&& p : m ) list.push_back( p.second );
    }
    for( auto&& l : list ) labels += l + ",";
    o.value = complex + labels;
    return o;
  }
};

Lexicographic lexicographic; Add a1( &lexicographic );
VTK vtk;                     Add a2( &vtk );
PLY ply;                     Add a3( &ply );
Generic generic;             Add a4( &generic );

} // namespace

} // namespace formats
