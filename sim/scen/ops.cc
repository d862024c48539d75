// Drivers for the operations: changing environment, failing allocations,
// concurrent callers.

#include "ops.hh"

#include <new>

namespace ops
{

std::vector<Kind>& kinds()
{
  static std::vector<Kind> k;
  return k;
}

namespace
{

// Properties about one subject use its operations; the properties about
// memory and threads use all of them.
const Kind& draw( unsigned without )
{
  bool any = sim::property() == "T16" || sim::property() == "A17" || sim::property() == "E20";
  std::vector<const Kind*> list;
  for( auto&& k : kinds() )
    if( !( k.flags & without ) && ( any || sim::property() == k.property ) )
      for( unsigned i = 0; i < k.weight; i++ ) list.push_back( &k );
  if( list.empty() ) sim::discard();
  return *list[ sim::choose( list.size() ) ];
}

std::unique_ptr<Op> make( const Kind& k )
{
  std::unique_ptr<Op> op( k.make() );
  op->kind = k.name;
  sim::story( "operation %s", k.name );
  sim::signature( sim::hashString( k.name ) );
  return op;
}

void environment()
{
  auto op = make( draw( 0 ) );
  std::string before;
  { sim::Quiet q; before = op->input(); }
  unsigned variant = unsigned( sim::choose( 4 ) );
  for( unsigned i = 0; i < 2; i++ )
  {
    // The second time the tables are laid out in another way and memory holds
    // what the first call left behind.
    if( i > 0 ) sim::hashing::set( unsigned( sim::choose( 6 ) ) );
    auto live = sim::heap::liveBlocks();
    std::string r = op->run( variant );
    sim::Quiet q;
    sim::observe( r );
    op->judge( r, variant );
    SIM_REQUIRE( op->input() == before, op->cls( "input-changed" ), "the input is not what it was before the call" );
    r = std::string();
    r.shrink_to_fit();
    if( i > 0 )
      SIM_REQUIRE( sim::heap::liveBlocks() == live, op->cls( "leak" ), "the call left " << sim::heap::liveBlocks() - live << " blocks behind" );
  }
  sim::nontrivial();
}

void memory()
{
  auto& kind = draw( NoFaults );
  auto op = make( kind );
  std::string before;
  { sim::Quiet q; before = op->input(); }
  unsigned variant = unsigned( sim::choose( 4 ) );
  auto first = sim::heap::allocations();
  {
    std::string r = op->run( variant );
    sim::Quiet q;
    op->judge( r, variant );
  }
  auto n = sim::heap::allocations() - first;
  if( n == 0 ) sim::discard();
  auto live = sim::heap::liveBlocks();
  unsigned attempts = 1 + unsigned( sim::choose( 3 ) );
  for( unsigned i = 0; i < attempts; i++ )
  {
    auto k = sim::choose( n );
    if( n > 16 && sim::flip( 1, 3 ) ) k = n - 1 - k % 16;   // what follows after most of the work
    bool sticky = sim::flip( 1, 3 );
    sim::story( "allocation %llu of %llu fails%s", (unsigned long long) k, (unsigned long long) n, sticky ? " and all later ones" : "" );
    bool returned = false;
    std::string r;
    sim::heap::failAt( k, sticky );
    try
    {
      r = op->run( variant );
      returned = true;
    }
    catch( const std::bad_alloc& ) {}
    catch( const std::exception& e )
    {
      bool accepted = sim::heap::fired() && ( kind.flags & AnyReport );
      if( !accepted ) sim::heap::disarm();
      if( !accepted ) sim::violate( op->cls( "report" ), std::string( "running out of memory was reported as: " ) + e.what() );
    }
    bool fired = sim::heap::disarm();
    sim::Quiet q;
    sim::event( "oom", k, returned );
    if( fired )
    {
      sim::count( sticky ? "allocation failures (persistent)" : "allocation failures (single)" );
      sim::nontrivial();
    }
    else
      SIM_REQUIRE( returned, op->cls( "report" ), "bad_alloc although no allocation failed" );
    if( returned ) op->judge( r, variant );
    r = std::string();
    r.shrink_to_fit();
    SIM_REQUIRE( sim::heap::liveBlocks() == live, op->cls( "leak" ),
                 "after allocation " << k << " failed, " << sim::heap::liveBlocks() - live << " blocks more are in use than before the call" );
    SIM_REQUIRE( op->input() == before, op->cls( "input-changed" ), "a failed call changed its input" );
  }
  std::string r = op->run( variant );
  sim::Quiet q;
  sim::observe( r );
  op->judge( r, variant );
}

// Calls of several operations, some of which run out of memory; none may show
// in the results of the others.
void mixture()
{
  std::vector<const Kind*> drawn;
  std::vector< std::unique_ptr<Op> > list;
  std::vector<std::string> before;
  for( unsigned n = 1 + unsigned( sim::choose( 3 ) ); n > 0; n-- )
  {
    // often the same operation on something else, whose traces would show
    drawn.push_back( !drawn.empty() && sim::flip( 1, 2 ) ? drawn.back() : &draw( 0 ) );
    list.push_back( make( *drawn.back() ) );
    sim::Quiet q;
    before.push_back( list.back()->input() );
  }
  for( unsigned n = 3 + unsigned( sim::choose( 5 ) ); n > 0; n-- )
  {
    auto i = sim::choose( list.size() );
    unsigned variant = unsigned( sim::choose( 4 ) );
    bool faulty = !( drawn[i]->flags & NoFaults ) && sim::flip( 1, 4 );
    sim::hashing::set( unsigned( sim::choose( 6 ) ) );
    if( faulty )
    {
      auto k = sim::choose( 64 );
      sim::story( "%s, allocation %llu fails", list[i]->kind, (unsigned long long) k );
      sim::heap::failAt( k, sim::flip( 1, 3 ) );
      try { list[i]->run( variant ); }
      catch( const std::exception& ) {}
      if( sim::heap::disarm() ) sim::count( "earlier calls that ran out of memory" );
    }
    else
    {
      sim::story( "%s", list[i]->kind );
      std::string r = list[i]->run( variant );
      sim::Quiet q;
      sim::observe( r );
      list[i]->judge( r, variant );
    }
    sim::Quiet q;
    SIM_REQUIRE( list[i]->input() == before[i], list[i]->cls( "input-changed" ), "the input is not what it was before the call" );
  }
  sim::nontrivial();
}

void concurrent()
{
  bool mixed = sim::property() == "T16";
  unsigned pool = mixed ? 1 + unsigned( sim::choose( 3 ) ) : 1;
  std::vector< std::unique_ptr<Op> > list;
  const Kind* kind = nullptr;
  for( unsigned i = 0; i < pool; i++ )
  {
    if( !kind || !sim::flip( 1, 2 ) ) kind = &draw( NoThreads );
    list.push_back( make( *kind ) );
  }
  std::vector<std::string> before;
  for( auto&& op : list ) before.push_back( op->input() );
  unsigned n = 2 + unsigned( sim::choose( 3 ) );
  struct Call { unsigned op, variant; std::string result; };
  std::vector< std::vector<Call> > calls( n );
  for( auto&& c : calls )
    for( unsigned k = 1 + unsigned( sim::choose( 2 ) ); k > 0; k-- )
      c.push_back( { unsigned( sim::choose( pool ) ), unsigned( sim::choose( 4 ) ), std::string() } );
  sim::threads::parallel( n, [&]( unsigned i )
  {
    for( auto&& c : calls[i] ) c.result = list[ c.op ]->run( c.variant );
  } );
  sim::nontrivial();
  for( auto&& c : calls )
    for( auto&& x : c )
    {
      sim::observe( x.result );
      list[ x.op ]->judge( x.result, x.variant );
    }
  for( unsigned i = 0; i < pool; i++ )
    SIM_REQUIRE( list[i]->input() == before[i], list[i]->cls( "input-changed" ), "concurrent calls changed their input" );
}

#ifdef SIM_THREADS
  #define SUBJECT( id ) sim::Register r##id( #id, "concurrent callers", &concurrent );
  SUBJECT( H07 ) SUBJECT( Z08 ) SUBJECT( G09 ) SUBJECT( K10 ) SUBJECT( D11 ) SUBJECT( D12 ) SUBJECT( S13 ) SUBJECT( S14 ) SUBJECT( M15 ) SUBJECT( V28 ) SUBJECT( T16 )
#else
  #define SUBJECT( id )                                                           \
    sim::Register e##id( #id, "changing environment", &environment, 3 );          \
    sim::Register m##id( #id, "failing allocations", &memory, 2 );                \
    sim::Register x##id( #id, "sequences of calls", &mixture, 2 );
  SUBJECT( H07 ) SUBJECT( Z08 ) SUBJECT( G09 ) SUBJECT( K10 ) SUBJECT( D11 ) SUBJECT( D12 ) SUBJECT( S13 ) SUBJECT( S14 ) SUBJECT( M15 ) SUBJECT( V28 )
  sim::Register mA17( "A17", "failing allocations", &memory, 7 );
  sim::Register eE20( "E20", "changing environment", &environment );
  sim::Register xE20( "E20", "sequences of calls", &mixture );
#endif

} // namespace

} // namespace ops
