// The strategy trait: a choice is an alternative of the production asked about.
//# module generation
pub trait GenerationStrategy {
    fn choose<'p>(&mut self, production: &'p Production, depth: usize) -> (r: Option<&'p Expression>)
        requires production.rhs@.len() > 0,
        ensures r is Some ==> production.rhs@.contains(*r->0);
}
