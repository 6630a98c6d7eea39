// Shared data types and accessors.
//# include shim.vspec
//# prelude
pub use crate::term::Term;
pub use crate::expression::Expression;
pub use crate::production::Production;
pub use crate::grammar::Grammar;
pub use crate::error::Error;
//# module term
use crate::expression::Expression;
//# item term::Term eq
//# module expression
use crate::term::Term;
//# item expression::Expression eq
//# module production
use crate::term::Term;
use crate::expression::Expression;
//# item production::Production eq
//# module grammar
use crate::term::Term;
use crate::expression::Expression;
use crate::production::Production;
use crate::error::Error;
//# item grammar::Grammar eq
//# item error::Error
//# fn expression::Expression::terms_iter
@spec
ensures r.fresh(self.terms@.map_values(|x: Term| &x)), forall|k: int| #![trigger self.terms@[k]] 0 <= k < self.terms@.len() ==> *r.all()[k] == self.terms@[k],
//# fn production::Production::rhs_iter
@spec
ensures r.fresh(self.rhs@.map_values(|x: Expression| &x)), forall|k: int| #![trigger self.rhs@[k]] 0 <= k < self.rhs@.len() ==> *r.all()[k] == self.rhs@[k],
//# fn grammar::Grammar::productions_iter
@spec
ensures r.fresh(self.productions@.map_values(|x: Production| &x)), forall|k: int| #![trigger self.productions@[k]] 0 <= k < self.productions@.len() ==> *r.all()[k] == self.productions@[k],
//# fn grammar::Grammar::starting_term
@spec
ensures r == (if self.productions@.len() > 0 { Some(&self.productions@[0].lhs) } else { None }),
