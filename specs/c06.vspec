// Generation is refused exactly when the start rule cannot terminate (C06).
//# include terminates.vspec
//# include genbase.vspec
//# include gentrait.vspec
//# prelude
/// The refusal: an error whose message begins "Can't generate".
pub open spec fn refusal(e: Error) -> bool { match e { Error::GenerateError(s) => s@.len() >= 14 && s@[0] == 'C' && s@[1] == 'a' && s@[2] == 'n' && s@[3] == '\'' && s@[4] == 't' && s@[5] == ' ' && s@[6] == 'g' && s@[7] == 'e' && s@[8] == 'n' && s@[9] == 'e' && s@[10] == 'r' && s@[11] == 'a' && s@[12] == 't' && s@[13] == 'e', _ => false } }
/// What the result of generating has to say about the grammar.
pub open spec fn refused(r: Result<String, Error>) -> bool { r is Err && refusal(r->Err_0) }
//# item generation::RandomWalk
//# fn generation::RandomWalk::from_seed
@spec
//# fn generation::random_index
@spec
requires $1 > 0,
ensures r < $1,
//# fn generation::RandomWalk@GenerationStrategy::choose
@trait keep
//# fn grammar::Grammar::traverse_with_strategy::production_has_no_choice
@spec
ensures !r ==> $0.rhs@.len() > 0,
//# fn grammar::Grammar::traverse_with_strategy
@attr #[verifier::exec_allows_no_decreases_clause]
@spec
requires forall|a: &str, b: &str| #[trigger] $1.requires((a, b)),
ensures !refused(r),
@opt strlits
@opt addlit
@closure 0
params &&Production
ret (b: bool)
//# fn grammar::Grammar::eval_terminal_with_strategy
@attr #[verifier::exec_allows_no_decreases_clause]
@spec
requires forall|a: &str, b: &str| #[trigger] $1.requires((a, b)),
ensures !refused(r),
@opt addlit
//# fn grammar::Grammar::generate_seeded_callback_with_strategy
@spec
requires forall|a: &str, b: &str| #[trigger] $0.requires((a, b)),
ensures refused(r) == !can_end(*self),
@opt strlits
//# fn grammar::Grammar::generate_seeded_with_strategy
@spec
ensures refused(r) == !can_end(*self),
//# fn grammar::Grammar::generate_seeded_callback
@spec
requires forall|a: &str, b: &str| #[trigger] $1.requires((a, b)),
ensures refused(r) == !can_end(*self),
//# fn grammar::Grammar::generate_seeded
@spec
ensures refused(r) == !can_end(*self),
//# fn grammar::Grammar::generate_callback
@spec
requires rand::entropy(), forall|a: &str, b: &str| #[trigger] $0.requires((a, b)),
ensures refused(r) == !can_end(*self),
//# fn grammar::Grammar::generate
@spec
requires rand::entropy(),
ensures refused(r) == !can_end(*self),
