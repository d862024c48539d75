// Edge lists, GML, Pajek, GraphML.

#include "io_formats.hh"

#include <aleph/topology/Simplex.hh>
#include <aleph/topology/SimplicialComplex.hh>

#include <aleph/topology/io/EdgeLists.hh>
#include <aleph/topology/io/GML.hh>
#include <aleph/topology/io/GraphML.hh>
#include <aleph/topology/io/Pajek.hh>

namespace formats
{

std::vector<const Format*>& all()
{
  static std::vector<const Format*> f;
  return f;
}

namespace
{

using Simplex = aleph::topology::Simplex<double, unsigned long>;
using Complex = aleph::topology::SimplicialComplex<Simplex>;

Complex marker()
{
  Complex K;
  K.push_back( Simplex( 91ul, 3.5 ) );
  K.push_back( Simplex( 92ul, 4.5 ) );
  K.push_back( Simplex( { 91ul, 92ul }, 7.25 ) );
  return K;
}

// -- edge lists -----------------------------------------------------------

struct EdgeList : Format
{
  const char* name() const override { return "edge-list"; }

  // 0: weights ignored?  1: separator  2: labels instead of numbers
  Settings settings() const override
  {
    return { unsigned( sim::flip( 1, 4 ) ), unsigned( sim::choose( 3 ) ), unsigned( sim::choose( 2 ) ) };
  }

  struct L : Loader
  {
    aleph::topology::io::EdgeListReader reader;
    Complex K = marker();
    void load( const std::string& p ) override { reader( p, K ); }
    std::string target() const override { return canonical( K ); }
  };

  std::unique_ptr<Loader> make( const Settings& s ) const override
  {
    auto* l = new L;
    if( s[0] ) l->reader.setReadWeights( false );
    if( s[1] ) l->reader.setSeparator( s[1] == 1 ? "," : ":" );
    return std::unique_ptr<Loader>( l );
  }

  static std::string vertexName( unsigned long v, bool label )
  {
    if( !label ) return std::to_string( v );
    static const char* names[] = { "a", "bob", "Zed", "q_7", "node" };
    return std::string( names[ v % 5 ] ) + ( v >= 5 ? std::to_string( v ) : "" );
  }

  Document generate( const Settings& s, const std::string& stem ) const override
  {
    std::string sep = s[1] == 0 ? " " : s[1] == 1 ? "," : ":";
    Document d;
    std::string t;
    unsigned long n = 2 + sim::choose( 12 );
    auto es = edges( n, amount( 14, 900 ) );
    if( es.size() > 12 ) n = 60;
    bool crlf = sim::flip( 1, 8 );
    bool gap = sim::flip( 1, 4 );
    for( std::size_t i = 0; i < es.size(); i++ )
    {
      if( sim::flip( 1, 6 ) )
        t += sim::pick<const char*>( { "\n", "# comment 1 2 3\n", "% another\n", "*x\n", "\"y\n", "   \n" } );
      unsigned long k = gap ? 1000 : 1;
      std::string sp = s[1] == 0 ? sim::pick<const char*>( { " ", "\t", "   ", " \t" } ) : sep;
      if( sim::flip( 1, 8 ) ) t += "  ";
      t += vertexName( es[i].first * k, s[2] ) + sp + vertexName( es[i].second * k, s[2] );
      if( sim::flip( 2, 3 ) ) t += sp + text( weight() );
      if( sim::flip( 1, 8 ) ) t += "  ";
      t += crlf ? "\r\n" : "\n";
      if( sim::flip( 1, 16 ) )   // repeated edge with another weight: the first one counts
        t += vertexName( es[i].first * k, s[2] ) + sp + vertexName( es[i].second * k, s[2] ) + sp + "99\n";
    }
    if( !t.empty() && sim::flip( 1, 4 ) ) t.erase( t.find_last_not_of( "\r\n" ) + 1 );
    d.files.push_back( { stem + ".edges", t } );
    return d;
  }

  Outcome model( const Document& d, const Settings& s ) const override
  {
    Cells vertices, edges;
    std::map<std::string, unsigned long> ids;
    bool any = false;
    for( auto&& raw : lines( d.files[0].content ) )
    {
      auto l = strip( raw );
      if( l.empty() || l[0] == '#' || l[0] == '%' || l[0] == '"' || l[0] == '*' ) continue;
      auto w = words( l, s[1] == 0 ? " \t\r\v\f\n" : s[1] == 1 ? "," : ":" );
      if( w.size() < 2 ) return Outcome::Throw();
      unsigned long u, v;
      if( isIndex( w[0] ) )
      {
        if( !isIndex( w[1] ) ) return Outcome::Any();
        u = std::stoul( w[0] ); v = std::stoul( w[1] );
      }
      else
      {
        u = ids.insert( std::make_pair( w[0], ids.size() ) ).first->second;
        v = ids.insert( std::make_pair( w[1], ids.size() ) ).first->second;
      }
      double x = 0;
      if( w.size() >= 3 && !s[0] )
      {
        if( !isNumber( w[2] ) ) { any = true; continue; }
        x = std::stod( w[2] );
      }
      vertices.add( { u }, 0 );
      vertices.add( { v }, 0 );
      edges.add( { u, v }, x );
    }
    if( any ) return Outcome::Any();
    for( auto&& e : edges.cells ) vertices.add( e.first, e.second );
    return Outcome::Value( vertices.str() );
  }
};

// -- GML ------------------------------------------------------------------

struct GML : Format
{
  const char* name() const override { return "gml"; }

  Settings settings() const override { return { unsigned( sim::choose( 3 ) ) }; }   // functor, or an open file

  struct L : Loader
  {
    aleph::topology::io::GMLReader reader;
    Complex K = marker();
    unsigned functor;
    void load( const std::string& p ) override
    {
      if( functor == 0 )      reader( p, K );
      else if( functor == 1 ) reader( p, K, [] ( double a, double b ) { return std::min( a, b ); } );
      else
      {
        std::ifstream in( p );
        if( !in ) throw std::runtime_error( "Unable to read input file" );
        reader( in, K );
      }
    }
    std::string target() const override { return canonical( K ); }
    std::string meta() const override
    {
      std::string m = "|nodes:";
      for( auto&& a : reader.getNodeAttributeNames() ) m += a + ",";
      m += "|edges:";
      for( auto&& a : reader.getEdgeAttributeNames() ) m += a + ",";
      m += "|labels:";
      for( auto&& p : reader.getNodeAttribute( "label" ) ) m += p.first + "=" + p.second + ",";
      m += "|ids:";
      for( auto&& p : reader.id_to_index<unsigned long>() ) m += p.first + "=" + std::to_string( p.second ) + ",";
      return m;
    }
  };

  std::unique_ptr<Loader> make( const Settings& s ) const override
  {
    auto* l = new L;
    l->functor = s[0];
    return std::unique_ptr<Loader>( l );
  }

  Document generate( const Settings& s, const std::string& stem ) const override
  {
    Document d;
    unsigned long n = 1 + amount( 7, 60 );
    auto es = edges( n, amount( 9, 120 ) );
    bool names = sim::flip( 1, 3 );       // ids that are not numbers
    unsigned long offset = names ? 0 : sim::choose( 3 );
    bool inlineBracket = sim::flip( 1, 2 );
    unsigned nodeWeights = unsigned( sim::choose( 3 ) );   // 0 none, 1 weight, 2 value
    bool labels = sim::flip( 1, 2 );
    std::string open = inlineBracket ? " [\n" : "\n[\n";

    std::string t;
    if( sim::flip( 1, 3 ) ) t += "Creator \"someone on a [day]\"\n";
    t += "graph" + open;
    d.startsAt = t.size();
    if( sim::flip( 1, 2 ) ) t += "  directed 0\n";
    if( sim::flip( 1, 4 ) ) t += "  comment this is ] a comment\n";

    std::set<std::string> ids;
    std::vector<std::string> id( n );
    for( unsigned long i = 0; i < n; i++ )
    {
      id[i] = names ? std::string( 1, char( 'a' + i % 26 ) ) + ( i >= 26 ? std::string( i / 26, 'x' ) : "" ) : std::to_string( i + offset );
      ids.insert( id[i] );
    }
    auto vertex = [&] ( unsigned long i ) -> unsigned long
    {
      return names ? static_cast<unsigned long>( std::distance( ids.begin(), ids.find( id[i] ) ) ) : i + offset;
    };

    std::vector<unsigned long> order( n );
    for( unsigned long i = 0; i < n; i++ ) order[i] = i;
    sim::shuffle( order );

    Cells K;
    std::vector<double> w( n, 0.0 );
    std::set<std::string> nodeNames, edgeNames;
    std::map<std::string, std::string> labelOf;
    for( auto i : order )
    {
      t += "  node" + open + "    id " + id[i] + "\n";
      labelOf[ id[i] ] = "";
      if( labels )
      {
        std::string label = "L " + std::to_string( i );
        t += "    label \"" + label + "\"\n";
        labelOf[ id[i] ] = label;
        nodeNames.insert( "label" );
      }
      if( nodeWeights )
      {
        w[i] = weight();
        t += std::string( "    " ) + ( nodeWeights == 1 ? "weight " : "value " ) + text( w[i] ) + "\n";
        nodeNames.insert( nodeWeights == 1 ? "weight" : "value" );
      }
      if( sim::flip( 1, 8 ) ) { t += "    colour red\n"; nodeNames.insert( "colour" ); }
      t += "  ]\n";
      K.add( { vertex( i ) }, w[i] );
    }
    for( auto&& e : es )
    {
      t += "  edge" + open + "    source " + id[ e.first ] + "\n    target " + id[ e.second ] + "\n";
      double x = s[0] != 1 ? std::max( w[ e.first ], w[ e.second ] ) : std::min( w[ e.first ], w[ e.second ] );
      unsigned kind = unsigned( sim::choose( 3 ) );
      if( kind )
      {
        x = weight();
        t += std::string( "    " ) + ( kind == 1 ? "weight " : "value " ) + text( x ) + "\n";
        edgeNames.insert( kind == 1 ? "weight" : "value" );
      }
      t += "  ]\n";
      K.add( { vertex( e.first ), vertex( e.second ) }, x );
    }
    t += "]";
    d.completeAt = t.size();
    t += "\n";

    d.truth = K.str() + "|nodes:";
    for( auto&& a : nodeNames ) d.truth += a + ",";
    d.truth += "|edges:";
    for( auto&& a : edgeNames ) d.truth += a + ",";
    d.truth += "|labels:";
    for( auto&& p : labelOf ) d.truth += p.first + "=" + p.second + ",";
    d.truth += "|ids:";
    for( auto&& i : ids ) d.truth += i + "=" + std::to_string( std::distance( ids.begin(), ids.find( i ) ) ) + ",";
    d.files.push_back( { stem + ".gml", t } );
    return d;
  }

  Outcome model( const Document& d, const Settings& ) const override
  {
    auto n = d.files[0].content.size();
    if( n >= d.completeAt ) return Outcome::Value( d.truth );
    if( n < d.startsAt ) return Outcome::ValueOrThrow( "K<>|nodes:|edges:|labels:|ids:" );
    return Outcome::Throw();
  }
};

// -- Pajek ----------------------------------------------------------------

struct Pajek : Format
{
  const char* name() const override { return "pajek"; }

  struct L : Loader
  {
    aleph::topology::io::PajekReader reader;
    Complex K = marker();
    void load( const std::string& p ) override { reader( p, K ); }
    std::string target() const override { return canonical( K ); }
    std::string meta() const override
    {
      std::string m = "|";
      for( auto&& p : reader.getLabelMap() ) m += p.first + "=" + p.second + ",";
      return m;
    }
  };

  std::unique_ptr<Loader> make( const Settings& ) const override { return std::unique_ptr<Loader>( new L ); }

  Document generate( const Settings&, const std::string& stem ) const override
  {
    Document d;
    unsigned long n = 1 + amount( 7, 60 );
    auto es = edges( n, amount( 9, 120 ) );
    bool labels = sim::flip( 1, 2 );
    std::string t;
    if( sim::flip( 1, 4 ) ) t += "% a comment\n";
    t += std::string( sim::pick<const char*>( { "*Vertices ", "*vertices ", "*verts   " } ) ) + std::to_string( n ) + "\n";
    if( labels )
      for( unsigned long i = 1; i <= n; i++ )
        t += "  " + std::to_string( i ) + " \"v " + std::to_string( i * 7 ) + "\"\n";
    if( !es.empty() || sim::flip( 1, 2 ) )
    {
      t += sim::pick<const char*>( { "*Edges\n", "*edges\n", "*Arcs\n" } );
      for( auto&& e : es )
      {
        if( sim::flip( 1, 10 ) ) t += "% comment\n";
        t += " " + std::to_string( e.first + 1 ) + " " + std::to_string( e.second + 1 );
        if( sim::flip( 1, 2 ) ) t += " " + text( weight( false ) );
        t += "\n";
      }
    }
    d.files.push_back( { stem + ".net", t } );
    return d;
  }

  Outcome model( const Document& d, const Settings& ) const override
  {
    Cells K;
    std::map<std::string, std::string> labels;
    unsigned long declared = 0, listed = 0;
    int mode = 0;
    bool any = false;
    for( auto&& raw : lines( d.files[0].content ) )
    {
      auto l = strip( raw );
      if( l.empty() || l[0] == '%' ) continue;
      if( l[0] == '*' )
      {
        auto w = words( l );
        std::string k = w[0];
        for( auto&& c : k ) c = char( std::tolower( c ) );
        if( k == "*vertices" || k == "*verts" )
        {
          if( w.size() < 2 ) return Outcome::Throw();
          declared = std::stoul( w[1] );
          mode = 1;
        }
        else if( k == "*edges" || k == "*arcs" ) mode = 2;
        else any = true;        // torn keyword
        continue;
      }
      auto w = words( l );
      if( mode == 1 )
      {
        auto q = l.find( '"' );
        if( q == std::string::npos || l.rfind( '"' ) == q ) return Outcome::Throw();
        labels[ w[0] ] = l.substr( q + 1, l.rfind( '"' ) - q - 1 );
        K.add( { std::stoul( w[0] ) }, 0 );
        listed++;
      }
      else if( mode == 2 )
      {
        if( listed && listed < declared ) return Outcome::Throw();
        if( w.size() < 2 ) return Outcome::Throw();
        if( w.size() > 2 && !isNumber( w[2] ) ) any = true;
        else if( std::stoul( w[1] ) == 0 ) any = true;
        else K.add( { std::stoul( w[0] ), std::stoul( w[1] ) }, w.size() > 2 ? std::stod( w[2] ) : 0 );
      }
    }
    if( any ) return Outcome::Any();
    if( listed && listed < declared ) return Outcome::Throw();
    if( !listed ) for( unsigned long i = 1; i <= declared; i++ ) K.add( { i }, 0 );
    std::string m = "|";
    for( auto&& p : labels ) m += p.first + "=" + p.second + ",";
    return Outcome::Value( K.str() + m );
  }
};

// -- GraphML ----------------------------------------------------------------

struct GraphML : Format
{
  const char* name() const override { return "graphml"; }

  // 0: read node weights  1: read edge weights  2: attribute name
  Settings settings() const override
  {
    return { unsigned( !sim::flip( 1, 3 ) ), unsigned( !sim::flip( 1, 3 ) ), unsigned( sim::choose( 2 ) ) };
  }

  struct L : Loader
  {
    aleph::topology::io::GraphMLReader reader;
    Complex K = marker();
    void load( const std::string& p ) override { reader( p, K ); }
    std::string target() const override { return canonical( K ); }
    std::string meta() const override
    {
      std::string m = "|nodes:";
      for( auto&& a : reader.getNodeAttributeNames() ) m += a + ",";
      m += "|edges:";
      for( auto&& a : reader.getEdgeAttributeNames() ) m += a + ",";
      m += "|ids:";
      for( auto&& p : reader.id_to_index<unsigned long>() ) m += p.first + "=" + std::to_string( p.second ) + ",";
      return m;
    }
  };

  std::unique_ptr<Loader> make( const Settings& s ) const override
  {
    auto* l = new L;
    l->reader.setReadNodeWeights( s[0] );
    l->reader.setReadEdgeWeights( s[1] );
    if( s[2] )
    {
      l->reader.setNodeWeightAttribute( "mass" );
      l->reader.setEdgeWeightAttribute( "cost" );
    }
    return std::unique_ptr<Loader>( l );
  }

  Document generate( const Settings& s, const std::string& stem ) const override
  {
    Document d;
    unsigned long n = 1 + amount( 6, 40 );
    auto es = edges( n, amount( 8, 80 ) );
    bool nodeKeys = sim::flip( 2, 3 ), edgeKeys = sim::flip( 2, 3 );
    std::string nodeName = s[2] ? "mass" : "weight", edgeName = s[2] ? "cost" : "weight";

    std::string t = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n";
    if( sim::flip( 1, 3 ) ) t += "<!-- written by hand -->\n";
    t += "<graphml xmlns=\"http://graphml.graphdrawing.org/xmlns\">\n";
    if( nodeKeys ) t += "  <key id=\"k0\" for=\"node\" attr.name=\"" + nodeName + "\" attr.type=\"double\"/>\n";
    if( edgeKeys ) t += "  <key id=\"k1\" for=\"edge\" attr.name=\"" + edgeName + "\" attr.type=\"double\"/>\n";
    if( sim::flip( 1, 4 ) ) t += "  <key id=\"k2\" for=\"node\" attr.name=\"other\" attr.type=\"string\"/>\n";
    t += std::string( "  <graph id=\"G\" edgedefault=\"" ) + ( sim::flip( 1, 2 ) ? "directed" : "undirected" ) + "\">\n";

    std::vector<std::string> id( n );
    std::set<std::string> ids;
    for( unsigned long i = 0; i < n; i++ ) { id[i] = "n" + std::to_string( i ); ids.insert( id[i] ); }
    auto vertex = [&] ( unsigned long i ) { return static_cast<unsigned long>( std::distance( ids.begin(), ids.find( id[i] ) ) ); };
    std::vector<unsigned long> order( n );
    for( unsigned long i = 0; i < n; i++ ) order[i] = i;
    sim::shuffle( order );

    Cells K;
    std::vector<double> w( n, 0.0 );
    std::set<std::string> nodeNames, edgeNames;
    for( auto i : order )
    {
      t += "    <node id=\"" + id[i] + "\">";
      if( nodeKeys )
      {
        w[i] = weight();
        t += "<data key=\"k0\">" + text( w[i] ) + "</data>";
        nodeNames.insert( "k0" );
      }
      if( sim::flip( 1, 6 ) ) { t += "<data key=\"k2\">some text</data>"; nodeNames.insert( "k2" ); }
      t += "</node>\n";
      K.add( { vertex( i ) }, s[0] && nodeKeys ? w[i] : 0.0 );
    }
    unsigned long k = 0;
    for( auto&& e : es )
    {
      t += "    <edge id=\"e" + std::to_string( k++ ) + "\" source=\"" + id[ e.first ] + "\" target=\"" + id[ e.second ] + "\">";
      double x = 0, own = 0;
      bool has = edgeKeys && sim::flip( 3, 4 );
      if( has )
      {
        own = weight();
        t += "\n      <data key=\"k1\">" + text( own ) + "</data>\n    ";
        edgeNames.insert( "k1" );
      }
      if( s[1] ) x = has ? own : 0;
      else if( s[0] && nodeKeys ) x = std::max( w[ e.first ], w[ e.second ] );
      t += "</edge>\n";
      K.add( { vertex( e.first ), vertex( e.second ) }, x );
    }
    t += "  </graph>\n</graphml>";
    d.completeAt = t.size();
    t += "\n";
    d.truth = K.str() + "|nodes:";
    for( auto&& a : nodeNames ) d.truth += a + ",";
    d.truth += "|edges:";
    for( auto&& a : edgeNames ) d.truth += a + ",";
    d.truth += "|ids:";
    for( auto&& i : ids ) d.truth += i + "=" + std::to_string( std::distance( ids.begin(), ids.find( i ) ) ) + ",";
    d.files.push_back( { stem + ".graphml", t } );
    return d;
  }

  Outcome model( const Document& d, const Settings& ) const override
  {
    return d.files[0].content.size() >= d.completeAt ? Outcome::Value( d.truth ) : Outcome::Throw();
  }
};

EdgeList edgeList; Add a1( &edgeList );
GML      gml;      Add a2( &gml );
Pajek    pajek;    Add a3( &pajek );
GraphML  graphML;  Add a4( &graphML );

} // namespace
} // namespace formats
