// How terms are printed.
//# module term
use crate::fmt;
//# prelude
pub open spec fn quoted(q: char, s: Seq<char>) -> Seq<char> { seq![q] + s + seq![q] }
pub open spec fn term_text(t: Term) -> Seq<char> {
    match t {
        Term::Terminal(s) => if s@.contains('\'') { quoted('"', s@) } else { quoted('\'', s@) },
        Term::Nonterminal(s) => seq!['<'] + s@ + seq!['>'],
    }
}
//# fn term::Term@Display::fmt
@as VDisplay v_fmt
@implspec
open spec fn disp(&self) -> Seq<char> { term_text(*self) }
@opt strlits
