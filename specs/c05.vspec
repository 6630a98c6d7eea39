// Sentence generation (C05): what a generated text is.
//# include derive.vspec
//# include genbase.vspec
//# include gentrait.vspec
//# prelude
/// How a text was generated: a terminal, the name of a nonterminal nothing defines, or an alternative
/// (production index, alternative index) with one generated text per term.
pub enum GD { Leaf(Seq<char>), Undef(Seq<char>), Node(int, int, Seq<GD>) }
pub open spec fn gtext(d: GD) -> Seq<char> decreases d, 0int {
    match d { GD::Leaf(s) => s, GD::Undef(n) => seq!['<'] + n + seq!['>'], GD::Node(_, _, ch) => gtexts(ch, ch.len() as int) }
}
pub open spec fn gtexts(ch: Seq<GD>, k: int) -> Seq<char> decreases ch, k {
    if 0 < k <= ch.len() { gtexts(ch, k - 1) + gtext(ch[k - 1]) } else { Seq::empty() }
}
pub open spec fn is_nt(t: Term, n: Seq<char>) -> bool { match t { Term::Nonterminal(s) => s@ == n, Term::Terminal(_) => false } }
pub open spec fn refs<'a, T>(s: Seq<T>) -> Seq<&'a T> { s.map_values(|x: T| &x) }
pub open spec fn undefined(ps: Seq<Production>, n: Seq<char>) -> bool { forall|i: int| 0 <= i < ps.len() ==> !is_nt((#[trigger] refs(ps)[i]).lhs, n) }
/// `d` generates from nonterminal `n`, every expansion in it accepted by `acc`.
pub open spec fn nt_gen(ps: Seq<Production>, acc: spec_fn(Seq<char>, Seq<char>) -> bool, n: Seq<char>, d: GD) -> bool decreases d {
    match d {
        GD::Leaf(_) => false,
        GD::Undef(m) => m == n && undefined(ps, n),
        GD::Node(i, j, ch) => 0 <= i < ps.len() && is_nt(ps[i].lhs, n) && 0 <= j < ps[i].rhs@.len() && ch.len() == ps[i].rhs@[j].terms@.len()
            && (forall|k: int| 0 <= k < ch.len() ==> match ps[i].rhs@[j].terms@[k] {
                Term::Terminal(s) => #[trigger] ch[k] == GD::Leaf(s@),
                Term::Nonterminal(m) => nt_gen(ps, acc, m@, ch[k]),
            }) && acc(n, gtext(d)),
    }
}
pub open spec fn term_gen(ps: Seq<Production>, acc: spec_fn(Seq<char>, Seq<char>) -> bool, t: Term, d: GD) -> bool {
    match t { Term::Terminal(s) => d == GD::Leaf(s@), Term::Nonterminal(n) => nt_gen(ps, acc, n@, d) }
}
/// `txt` can be generated from `t`.
pub open spec fn gens(ps: Seq<Production>, acc: spec_fn(Seq<char>, Seq<char>) -> bool, t: Term, txt: Seq<char>) -> bool { exists|d: GD| term_gen(ps, acc, t, d) && gtext(d) == txt }
pub open spec fn gens_nt(ps: Seq<Production>, acc: spec_fn(Seq<char>, Seq<char>) -> bool, n: Seq<char>, txt: Seq<char>) -> bool { exists|d: GD| nt_gen(ps, acc, n, d) && gtext(d) == txt }
/// The callback was asked about this expansion and said yes.
pub open spec fn said_yes<F: Fn(&str, &str) -> bool>(f: F, n: Seq<char>, t: Seq<char>) -> bool { exists|a: &str, b: &str| a@ == n && b@ == t && #[trigger] f.ensures((a, b), true) }
pub open spec fn yes<F: Fn(&str, &str) -> bool>(f: F) -> spec_fn(Seq<char>, Seq<char>) -> bool { |n: Seq<char>, t: Seq<char>| said_yes(f, n, t) }
//# prelude
/// What follows `a` in `a + b`.
pub open spec fn tail_after(s: Seq<char>, a: Seq<char>) -> Seq<char> { s.subrange(a.len() as int, s.len() as int) }
pub broadcast proof fn b_tail(a: Seq<char>, b: Seq<char>) ensures #[trigger] tail_after(a + b, a) == b { assert(tail_after(a + b, a) =~= b); }
/// `all` are the terms of an alternative of a production for `n`.
pub open spec fn from_prod(ps: Seq<Production>, n: Seq<char>, all: Seq<&Term>) -> bool {
    exists|i: int, j: int| 0 <= i < ps.len() && is_nt(ps[i].lhs, n) && 0 <= j < ps[i].rhs@.len() && all == (#[trigger] ps[i].rhs@[j]).terms@.map_values(|x: Term| &x)
}
/// `gds` generate the first terms of `all`, and `txt` is their text.
pub open spec fn seq_gen(ps: Seq<Production>, acc: spec_fn(Seq<char>, Seq<char>) -> bool, all: Seq<&Term>, gds: Seq<GD>, txt: Seq<char>) -> bool {
    gds.len() <= all.len() && (forall|k: int| 0 <= k < gds.len() ==> term_gen(ps, acc, *all[k], #[trigger] gds[k])) && txt == gtexts(gds, gds.len() as int)
}
pub proof fn lemma_gtexts_prefix(ch: Seq<GD>, x: GD, k: int)
    requires 0 <= k <= ch.len(),
    ensures gtexts(ch.push(x), k) == gtexts(ch, k),
    decreases k,
{
    if k > 0 { lemma_gtexts_prefix(ch, x, k - 1); assert(ch.push(x)[k - 1] == ch[k - 1]); }
}
pub proof fn lemma_seq_gen(ps: Seq<Production>, acc: spec_fn(Seq<char>, Seq<char>) -> bool, all: Seq<&Term>, gds: Seq<GD>, txt: Seq<char>, d: GD)
    requires seq_gen(ps, acc, all, gds, txt), gds.len() < all.len(), term_gen(ps, acc, *all[gds.len() as int], d),
    ensures seq_gen(ps, acc, all, gds.push(d), txt + gtext(d)),
{
    lemma_gtexts_prefix(gds, d, gds.len() as int);
    assert(gds.push(d)[gds.len() as int] == d);
    assert forall|k: int| 0 <= k < gds.push(d).len() implies term_gen(ps, acc, *all[k], #[trigger] gds.push(d)[k]) by { if k < gds.len() { assert(gds.push(d)[k] == gds[k]); } }
}
pub broadcast proof fn b_node(ps: Seq<Production>, acc: spec_fn(Seq<char>, Seq<char>) -> bool, n: Seq<char>, all: Seq<&Term>, gds: Seq<GD>, txt: Seq<char>)
    requires #[trigger] seq_gen(ps, acc, all, gds, txt), gds.len() == all.len(), from_prod(ps, n, all), acc(n, txt),
    ensures #[trigger] gens_nt(ps, acc, n, txt),
{
    let (i, j) = choose|i: int, j: int| 0 <= i < ps.len() && is_nt(ps[i].lhs, n) && 0 <= j < ps[i].rhs@.len() && all == (#[trigger] ps[i].rhs@[j]).terms@.map_values(|x: Term| &x);
    let ts = ps[i].rhs@[j].terms@;
    let d = GD::Node(i, j, gds);
    assert(gtext(d) == gtexts(gds, gds.len() as int));
    assert forall|k: int| 0 <= k < gds.len() implies match ts[k] { Term::Terminal(s) => #[trigger] gds[k] == GD::Leaf(s@), Term::Nonterminal(m) => nt_gen(ps, acc, m@, gds[k]) } by {
        assert(*all[k] == ts[k]); assert(term_gen(ps, acc, *all[k], gds[k]));
    }
    assert(nt_gen(ps, acc, n, d));
}
pub broadcast proof fn b_undef(ps: Seq<Production>, acc: spec_fn(Seq<char>, Seq<char>) -> bool, n: Seq<char>, txt: Seq<char>)
    requires undefined(ps, n), txt =~= seq!['<'] + n + seq!['>'],
    ensures #[trigger] gens_nt(ps, acc, n, txt),
{ assert(nt_gen(ps, acc, n, GD::Undef(n))); assert(gtext(GD::Undef(n)) == txt); }
pub broadcast proof fn b_term(ps: Seq<Production>, acc: spec_fn(Seq<char>, Seq<char>) -> bool, t: Term, txt: Seq<char>)
    requires match t { Term::Terminal(s) => txt == s@, Term::Nonterminal(n) => gens_nt(ps, acc, n@, txt) },
    ensures #[trigger] gens(ps, acc, t, txt),
{
    match t { Term::Terminal(s) => { assert(term_gen(ps, acc, t, GD::Leaf(s@))); assert(gtext(GD::Leaf(s@)) == txt); }
        Term::Nonterminal(n) => { let d = choose|d: GD| nt_gen(ps, acc, n@, d) && gtext(d) == txt; assert(term_gen(ps, acc, t, d)); } }
}
//# fn grammar::Grammar::traverse_with_strategy::production_has_no_choice
@spec
ensures !r ==> $0.rhs@.len() > 0,
//# fn grammar::Grammar::traverse_with_strategy
@opt addlit
@muts result
@attr #[verifier::exec_allows_no_decreases_clause]
@spec
requires forall|a: &str, b: &str| #[trigger] $1.requires((a, b)),
ensures r is Ok ==> gens_nt(self.productions@, yes(*$1), $0@, r->Ok_0@),
@closure 0
params &&Production
ret (b: bool)
ensures b == is_nt($p0.lhs, $0@)
@start
broadcast use {b_node, b_undef, axiom_str_ext};
proof { reveal_strlit("<"); reveal_strlit(">"); }
let ghost ps = self.productions@;
let ghost acc = yes(*$1);
@loopstart 0
let ghost mut gds: Seq<GD> = Seq::empty();
@loop 1
gds.len() == $it1.pos(), seq_gen(ps, acc, $it1.all(), gds, $m0@), from_prod(ps, $0@, $it1.all()),
@loopstart 1
let ghost t0 = $m0@;
@loopend 1
proof {
    broadcast use {b_term, b_tail};
    let t = *$it1.all()[gds.len() as int];
    let x = tail_after($m0@, t0);
    assert($m0@ =~= t0 + x);
    assert(gens(ps, acc, t, x));
    let d = choose|d: GD| term_gen(ps, acc, t, d) && t0 + gtext(d) == $m0@;
    lemma_seq_gen(ps, acc, $it1.all(), gds, t0, d);
    gds = gds.push(d);
}
//# fn grammar::Grammar::eval_terminal_with_strategy
@attr #[verifier::exec_allows_no_decreases_clause]
@spec
requires forall|a: &str, b: &str| #[trigger] $1.requires((a, b)),
ensures r is Ok ==> gens(self.productions@, yes(*$1), *$0, r->Ok_0@),
@opt addlit
@start
broadcast use b_term;
//# prelude
/// `txt` can be generated from the left hand side of the first production.
pub open spec fn starts(ps: Seq<Production>, acc: spec_fn(Seq<char>, Seq<char>) -> bool, txt: Seq<char>) -> bool {
    ps.len() > 0 && ps[0].lhs is Nonterminal && gens_nt(ps, acc, ps[0].lhs->Nonterminal_0@, txt)
}
pub open spec fn anything() -> spec_fn(Seq<char>, Seq<char>) -> bool { |a: Seq<char>, b: Seq<char>| true }
pub proof fn lemma_any(ps: Seq<Production>, acc: spec_fn(Seq<char>, Seq<char>) -> bool, n: Seq<char>, d: GD)
    requires nt_gen(ps, acc, n, d), ensures nt_gen(ps, anything(), n, d), decreases d,
{
    match d { GD::Node(i, j, ch) => {
        assert forall|k: int| 0 <= k < ch.len() implies match ps[i].rhs@[j].terms@[k] { Term::Terminal(s) => #[trigger] ch[k] == GD::Leaf(s@), Term::Nonterminal(m) => nt_gen(ps, anything(), m@, ch[k]) } by {
            match ps[i].rhs@[j].terms@[k] { Term::Terminal(s) => { assert(ch[k] == GD::Leaf(s@)); }, Term::Nonterminal(m) => { lemma_any(ps, acc, m@, ch[k]); } }
        }
    } _ => {} }
}
pub broadcast proof fn b_any(ps: Seq<Production>, acc: spec_fn(Seq<char>, Seq<char>) -> bool, txt: Seq<char>)
    requires #[trigger] starts(ps, acc, txt), ensures starts(ps, anything(), txt),
{
    let n = ps[0].lhs->Nonterminal_0@;
    let d = choose|d: GD| nt_gen(ps, acc, n, d) && gtext(d) == txt;
    lemma_any(ps, acc, n, d);
}
//# item generation::RandomWalk
//# fn generation::RandomWalk::from_seed
@spec
//# fn generation::random_index
@spec
requires $1 > 0,
ensures r < $1,
//# fn generation::RandomWalk@GenerationStrategy::choose
@trait keep
//# fn grammar::Grammar::terminates
@attr #[verifier::external_body]
//# fn grammar::Grammar::generate_seeded_callback_with_strategy
@spec
requires forall|a: &str, b: &str| #[trigger] $0.requires((a, b)),
ensures r is Ok ==> starts(self.productions@, yes($0), r->Ok_0@),
//# fn grammar::Grammar::generate_seeded_with_strategy
@spec
ensures r is Ok ==> starts(self.productions@, anything(), r->Ok_0@),
@start
broadcast use b_any;
//# fn grammar::Grammar::generate_seeded_callback
@spec
requires forall|a: &str, b: &str| #[trigger] $1.requires((a, b)),
ensures r is Ok ==> starts(self.productions@, yes($1), r->Ok_0@),
//# fn grammar::Grammar::generate_seeded
@spec
ensures r is Ok ==> starts(self.productions@, anything(), r->Ok_0@),
@start
broadcast use b_any;
//# fn grammar::Grammar::generate_callback
@spec
requires rand::entropy(), forall|a: &str, b: &str| #[trigger] $0.requires((a, b)),
ensures r is Ok ==> starts(self.productions@, yes($0), r->Ok_0@),
//# fn grammar::Grammar::generate
@spec
requires rand::entropy(),
ensures r is Ok ==> starts(self.productions@, anything(), r->Ok_0@),
@start
broadcast use b_any;
