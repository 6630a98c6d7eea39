// C13: editing operations.
//# include core.vspec
//# prelude
/// Removing `x` from a list: exactly one occurrence goes, everything else stays in place.
pub open spec fn removed_one<T>(old_s: Seq<T>, new_s: Seq<T>, x: T, r: Option<T>) -> bool {
    match r {
        Some(v) => v == x && exists|i: int| 0 <= i < old_s.len() && old_s[i] == x && new_s == #[trigger] old_s.remove(i),
        None => !old_s.contains(x) && new_s == old_s,
    }
}
/// As above, but the last element may take the removed one's place.
pub open spec fn removed_one_swap<T>(old_s: Seq<T>, new_s: Seq<T>, x: T, r: Option<T>) -> bool {
    match r {
        Some(v) => v == x && exists|i: int| 0 <= i < old_s.len() && #[trigger] old_s[i] == x
            && (new_s == old_s.remove(i) || new_s == old_s.update(i, old_s.last()).drop_last()),
        None => !old_s.contains(x) && new_s == old_s,
    }
}
//# fn expression::Expression::new
@spec
ensures r.terms@ == Seq::<Term>::empty(),
//# fn expression::Expression::from_parts
@spec
ensures r.terms == $0,
//# fn expression::Expression::add_term
@spec
ensures final(self).terms@ == old(self).terms@.push($0),
//# fn expression::Expression::remove_term
@spec
ensures removed_one(old(self).terms@, final(self).terms@, *$0, r),
//# fn expression::Expression@Add<Expression>::add
@name v_add_expr
@spec
ensures r.terms@ == self.terms@ + $0.terms@,
@loop 0
self_.terms@ == self.terms@ + $0.terms@.subrange(0, $it.pos() as int),
//# fn expression::Expression@Add<Term>::add
@name v_add_term_op
@spec
ensures r.terms@ == self.terms@.push($0),
//# fn expression::&Expression@Add<Expression>::add
@muts new_expression
@name v_ref_add_expr
@spec
ensures r.terms@ == self.terms@ + $0.terms@,
@loop 0
$m0.terms@ == self.terms@.subrange(0, $it.pos() as int),
@loop 1
$m0.terms@ == self.terms@ + $0.terms@.subrange(0, $it.pos() as int),
//# fn expression::&Expression@Add<Term>::add
@muts new_expression
@name v_ref_add_term_op
@spec
ensures r.terms@ == self.terms@.push($0),
@loop 0
$m0.terms@ == self.terms@.subrange(0, $it.pos() as int),
//# fn term::Term@Add<Term>::add
@name v_add_term_op
@spec
ensures r.terms@ == seq![self, $0],
//# fn term::Term@Add<Expression>::add
@name v_add_expr
@spec
ensures r.terms@ == $0.terms@.push(self),
//# fn term::Term@Add<&Expression>::add
@muts new
@name v_add_expr_ref
@spec
ensures r.terms@ == $0.terms@.push(self),
@loop 0
$m0.terms@ == $0.terms@.subrange(0, $it.pos() as int),
//# fn production::Production::new
@spec
ensures r.rhs@ == Seq::<Expression>::empty(),
//# fn production::Production::from_parts
@spec
ensures r.lhs == $0, r.rhs == $1,
//# fn production::Production::add_to_rhs
@spec
ensures final(self).lhs == old(self).lhs, final(self).rhs@ == old(self).rhs@.push($0),
//# fn production::Production::remove_from_rhs
@spec
ensures final(self).lhs == old(self).lhs, removed_one(old(self).rhs@, final(self).rhs@, *$0, r),
//# fn production::Production::len
@spec
ensures r == self.rhs@.len(),
//# fn production::Production::is_empty
@spec
ensures r == (self.rhs@.len() == 0),
//# fn grammar::Grammar::new
@spec
ensures r.productions@ == Seq::<Production>::empty(),
//# fn grammar::Grammar::from_parts
@spec
ensures r.productions == $0,
//# fn grammar::Grammar::add_production
@spec
ensures final(self).productions@ == old(self).productions@.push($0),
//# fn grammar::Grammar::remove_production
@spec
ensures removed_one_swap(old(self).productions@, final(self).productions@, *$0, r),
