// Calls of command-line tools under faults.

#include "tools.hh"

#include <cerrno>
#include <iostream>
#include <sstream>
#include <streambuf>

#include <getopt.h>
#include <unistd.h>

namespace tools
{

namespace
{

struct Exit { int status; };

// Standard output: buffered, and failing from a drawn position on.
class Sink : public std::streambuf
{
public:
  std::string stored;
  std::size_t capacity = 64;
  std::int64_t failAt  = -1;
  bool failed          = false;

  bool drain()
  {
    ops::Calm q;
    std::size_t room = failAt < 0 ? pending.size() : std::size_t( failAt ) > stored.size() ? std::size_t( failAt ) - stored.size() : 0;
    stored += pending.substr( 0, room );
    bool complete = room >= pending.size();
    if( !complete )
    {
      if( !failed )
      {
        sim::count( "standard output failed" );
        sim::nontrivial();
      }
      failed = true;
    }
    pending.clear();
    return complete;
  }

protected:
  int_type overflow( int_type c ) override
  {
    if( traits_type::eq_int_type( c, traits_type::eof() ) ) return traits_type::not_eof( c );
    char x = traits_type::to_char_type( c );
    return this->xsputn( &x, 1 ) == 1 ? c : traits_type::eof();
  }

  std::streamsize xsputn( const char* s, std::streamsize n ) override
  {
    {
      ops::Calm q;
      pending.append( s, std::size_t( n ) );
    }
    if( pending.size() > capacity && !this->drain() ) return 0;
    return n;
  }

  int sync() override { return this->drain() ? 0 : -1; }

private:
  std::string pending;
};

class Messages : public std::streambuf
{
public:
  std::string text;

protected:
  int_type overflow( int_type c ) override
  {
    ops::Calm q;
    if( !traits_type::eq_int_type( c, traits_type::eof() ) ) text += traits_type::to_char_type( c );
    return traits_type::not_eof( c );
  }

  std::streamsize xsputn( const char* s, std::streamsize n ) override
  {
    ops::Calm q;
    text.append( s, std::size_t( n ) );
    return n;
  }
};

std::string describe( const Tool& t )
{
  std::string s = t.name;
  for( auto&& a : t.args ) s += " " + a;
  for( auto&& p : t.inputs ) s += "\n--- " + p.first + "\n" + p.second;
  if( !t.standardInput.empty() ) s += "\n--- standard input\n" + t.standardInput;
  return s;
}

} // namespace

void exercise( Tool& t )
{
  enum { Healthy, ReadError, NotThere, Output, File, Memory };

  std::vector<unsigned> modes = { Healthy, Healthy, Healthy };
  std::vector<std::string> in, out( t.outputs.begin(), t.outputs.end() );
  for( auto&& p : t.inputs ) if( !t.spared.count( p.first ) ) in.push_back( p.first );
  if( !in.empty() )        modes.insert( modes.end(), { ReadError, ReadError, NotThere } );
  if( t.prints )           modes.insert( modes.end(), { Output, Output } );
  if( !t.outputs.empty() ) modes.insert( modes.end(), { File, File } );
  if( !sim::threads::available() ) modes.push_back( Memory );
  unsigned mode = sim::pick( modes );

  sim::story( "call of %s", describe( t ).c_str() );
  sim::signature( sim::hashString( t.name ) );

  sim::disk::adoptTemporary();
  Sink sink;
  sink.capacity = sim::pick( { std::size_t( 1024 ), std::size_t( 64 ), std::size_t( 1 ), std::size_t( 0 ) } );
  bool missing = false;

  for( auto&& p : t.inputs )
  {
    sim::disk::put( p.first, p.second );
    if( sim::flip( 1, 2 ) ) sim::disk::setPlan( p.first, sim::disk::perturbedPlan() );
  }
  for( auto&& p : t.outputs )
  {
    // What an earlier call has left behind.
    if( sim::flip( 1, 4 ) ) sim::disk::put( p, std::string( 1 + sim::choose( 400 ), '7' ) );
    if( sim::flip( 1, 2 ) ) sim::disk::setPlan( p, sim::disk::perturbedPlan() );
  }

  if( mode == ReadError )
  {
    auto path = sim::pick( in );
    auto plan = sim::disk::perturbedPlan();
    if( sim::flip( 1, 4 ) )
    {
      plan.openError       = sim::pick( { EACCES, EMFILE, EIO } );
      plan.openErrorAlways = true;
    }
    else
    {
      plan.errorAt   = std::int64_t( sim::choose( t.inputs[path].size() + 1 ) );
      plan.errorCode = sim::pick( { EIO, ESTALE } );
    }
    sim::disk::setPlan( path, plan );
    sim::story( "%s cannot be read (from %lld on, open %d)", path.c_str(), (long long) plan.errorAt, plan.openError );
  }
  else if( mode == File )
  {
    auto path = sim::pick( out );
    auto plan = sim::disk::perturbedPlan();
    switch( sim::choose( 4 ) )
    {
    case 0:
      plan.openError       = sim::pick( { EACCES, ENOENT, ENOSPC, EROFS } );
      plan.openErrorAlways = true;
      break;
    case 1:
      plan.closeError = sim::pick( { EIO, EDQUOT } );
      break;
    default:
      plan.errorAt   = std::int64_t( sim::choose( sim::pick( { 4, 40, 400 } ) ) );
      plan.errorCode = sim::pick( { ENOSPC, EIO } );
      break;
    }
    sim::disk::setPlan( path, plan );
    sim::story( "%s cannot be written (from %lld on, open %d, close %d)", path.c_str(), (long long) plan.errorAt, plan.openError, plan.closeError );
  }
  else if( mode == Output )
  {
    sink.failAt = std::int64_t( sim::choose( sim::pick( { 4, 40, 400 } ) ) );
    sim::story( "the standard output fails after %lld bytes", (long long) sink.failAt );
  }

  std::string absent;
  if( mode == NotThere )
  {
    absent = sim::pick( in );
    missing = true;
    sim::count( "input file missing" );
    sim::nontrivial();
    sim::story( "%s does not exist", absent.c_str() );
    ::unlink( absent.c_str() );
  }

  std::vector< std::vector<char> > storage;
  storage.emplace_back( t.name.begin(), t.name.end() );
  for( auto&& a : t.args ) storage.emplace_back( a.begin(), a.end() );
  std::vector<char*> argv;
  for( auto&& s : storage ) { s.push_back( 0 ); argv.push_back( s.data() ); }
  argv.push_back( nullptr );

  std::uint64_t k = 0;
  bool sticky = false;
  if( mode == Memory )
  {
    k = sim::choose( sim::pick( { 16, 128, 1024, 4096 } ) );
    sticky = sim::flip( 1, 3 );
    sim::story( "allocation %llu fails%s", (unsigned long long) k, sticky ? " and all later ones" : "" );
  }

  Messages messages;
  auto* oldOut = std::cout.rdbuf( &sink );
  auto* oldErr = std::cerr.rdbuf( &messages );
  std::stringbuf input( t.standardInput, std::ios_base::in );
  auto* oldIn  = std::cin.rdbuf( &input );
  sim::disk::resetErrors();
  optind = 1;

  int status = 0;
  std::string report;
  if( mode == Memory ) sim::heap::failAt( k, sticky );
  try
  {
    status = t.entry( int( argv.size() - 1 ), argv.data() );
  }
  catch( const Exit& e ) { status = e.status; }
  catch( const std::exception& e ) { ops::Calm q; status = 1; report = e.what(); }
  catch( ... ) { status = 1; }
  bool starved = mode == Memory && sim::heap::disarm();
  if( starved )
  {
    sim::count( "allocation failures" );
    sim::nontrivial();
  }

  // What the end of the process does.
  if( report.empty() ) sink.drain();
  std::cout.rdbuf( oldOut );
  std::cerr.rdbuf( oldErr );
  std::cin.rdbuf( oldIn );

  auto errors = sim::disk::errorsDelivered();
  Files written;
  for( auto&& p : t.outputs )  if( sim::disk::exists( p ) ) written[p] = sim::disk::get( p );
  for( auto&& p : t.optional ) if( sim::disk::exists( p ) ) written[p] = sim::disk::get( p );
  sim::event( "status", std::uint64_t( status ), errors );
  sim::observe( sink.stored );
  for( auto&& p : written ) sim::observe( p.first + "\n" + p.second );
  sim::story( "status %d %s, printed:\n%s", status, report.c_str(), sink.stored.c_str() );
  for( auto&& p : written ) sim::story( "wrote %s:\n%s", p.first.c_str(), p.second.c_str() );

  for( auto&& p : t.inputs )
    if( p.first != absent && sim::disk::get( p.first ) != p.second )
      sim::violate( "input-changed/" + t.name, p.first + " is not what it was before the call" );
  for( auto&& p : sim::disk::list() )
    if( !t.inputs.count( p ) && !t.outputs.count( p ) && !t.optional.count( p ) )
      sim::violate( "stray/" + t.name, p + " was not there before the call" );

  bool disturbed = sink.failed || errors || missing || starved;
  if( status != 0 )
  {
    if( !disturbed && !t.refused )
      t.fail( "refused", "the call ends with status " + std::to_string( status ) + " although nothing went wrong: " + report );
    return;
  }
  if( t.refused )
    t.fail( "unreported", "the call ends with status 0 although its input is not usable" );
  if( missing )
    t.fail( "unreported", "the call ends with status 0 although " + absent + " does not exist" );
  if( sink.failed )
    t.fail( "lost-output", "the call ends with status 0 although the standard output could not be written" );
  if( mode == File && errors )
    t.fail( "lost-output", "the call ends with status 0 although its output could not be written" );
  if( starved )        t.kind = "starved";
  else if( disturbed ) t.kind = "unreported";
  t.judge( sink.stored, written );
  t.judgeMessages( messages.text );
}

} // namespace tools

extern "C" void sim_tool_exit( int status ) { throw tools::Exit{ status }; }
