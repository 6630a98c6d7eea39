// Any layout of a document reads back as the document (C10).
//# include read.vspec
//# prelude
/// Layout: whitespace and comments that end with their line.
pub open spec fn lay(l: Seq<char>) -> bool decreases l.len() via lay_dec {
    l.len() == 0 || (white(l[0]) && lay(l.drop_first())) || (l[0] == ';' && eol(l.drop_first()).len() > 0 && lay(eol(l.drop_first())))
}
#[via_fn]
proof fn lay_dec(l: Seq<char>) { if l.len() > 0 { lemma_eol_len(l.drop_first()); } }
pub proof fn lemma_eol_app(l: Seq<char>, x: Seq<char>) requires eol(l).len() > 0 ensures eol(l + x) == eol(l) + x decreases l.len() {
    if l.len() > 0 && l[0] != '\r' && l[0] != '\n' { assert((l + x).drop_first() =~= l.drop_first() + x); lemma_eol_app(l.drop_first(), x); }
}
pub proof fn lemma_lay(l: Seq<char>, x: Seq<char>) requires lay(l) ensures skip(l + x) == skip(x) decreases l.len() {
    if l.len() == 0 { assert(l + x =~= x); }
    else {
        let t = l.drop_first();
        assert((l + x).drop_first() =~= t + x);
        lemma_eol_len(t);
        if white(l[0]) { lemma_lay(t, x); } else { lemma_eol_app(t, x); lemma_lay(eol(t), x); }
    }
}
pub open spec fn cat(s: Seq<char>, a: Seq<char>, b: Seq<char>) -> bool { s == a + b }
pub open spec fn one(c: char) -> Seq<char> { seq![c] }
pub open spec fn between(a: char, n: Seq<char>, b: char) -> Seq<char> { one(a) + n + one(b) }
/// `k`, followed by `y`, is a way to write the term `t`.
pub open spec fn tok(fm: Fm, t: PT, k: Seq<char>, y: Seq<char>) -> bool decreases t, 0int {
    match t {
        PT::Text(n) => (k == between('"', n, '"') && !n.contains('"')) || (k == between('\'', n, '\'') && !n.contains('\'')),
        PT::Name(n) => name_tok(fm, n, k, y),
        PT::Group(a) => exists|l: Seq<char>, b: Seq<char>| k == between('(', l + b, ')') && lay(l) && #[trigger] inside(l, b) && w_alts(fm, a, 0, b, one(')') + y),
        PT::Opt(a) => exists|l: Seq<char>, b: Seq<char>| k == between('[', l + b, ']') && lay(l) && #[trigger] inside(l, b) && w_alts(fm, a, 0, b, one(']') + y),
    }
}
pub open spec fn inside(l: Seq<char>, b: Seq<char>) -> bool { true }
pub open spec fn name_tok(fm: Fm, n: Seq<char>, k: Seq<char>, y: Seq<char>) -> bool {
    match fm.delim {
        Some(d) => k == between(d.0, n, d.1) && !n.contains(d.1),
        None => k == n && n.len() > 0 && alphabetic(n[0]) && (forall|j: int| 0 <= j < n.len() ==> !ends_word(#[trigger] n[j])) && (y.len() == 0 || ends_word(y[0])),
    }
}
/// `s`, followed by `z`, is a way to write the term, with its layout.
pub open spec fn w_term(fm: Fm, t: PT, s: Seq<char>, z: Seq<char>) -> bool decreases t, 1int { exists|k: Seq<char>, l: Seq<char>| #[trigger] cat(s, k, l) && lay(l) && tok(fm, t, k, l + z) }
/// ... the terms from the `i`th on.
pub open spec fn w_terms(fm: Fm, ts: Seq<PT>, i: int, s: Seq<char>, z: Seq<char>) -> bool decreases ts, ts.len() - i {
    if i < 0 || i >= ts.len() { s.len() == 0 } else { exists|a: Seq<char>, b: Seq<char>| #[trigger] cat(s, a, b) && w_term(fm, ts[i], a, b + z) && w_terms(fm, ts, i + 1, b, z) }
}
/// ... the alternatives from the `i`th on.
pub open spec fn w_alts(fm: Fm, a: Seq<Seq<PT>>, i: int, s: Seq<char>, z: Seq<char>) -> bool decreases a, a.len() - i {
    if i < 0 || i >= a.len() || a[i].len() == 0 { false }
    else if i == a.len() - 1 { w_terms(fm, a[i], 0, s, z) }
    else { exists|x: Seq<char>, l: Seq<char>, y: Seq<char>| #[trigger] cat3(s, x, l, y) && s == x + one(fm.alt) + l + y && lay(l) && w_terms(fm, a[i], 0, x, one(fm.alt) + l + y + z) && w_alts(fm, a, i + 1, y, z) }
}
pub open spec fn cat3(s: Seq<char>, x: Seq<char>, l: Seq<char>, y: Seq<char>) -> bool { true }
/// The character that can begin a term.
pub open spec fn begins(fm: Fm, c: char) -> bool { c == '"' || c == '\'' || c == '(' || c == '[' || (match fm.delim { Some(d) => c == d.0, None => alphabetic(c) }) }
pub open spec fn good(fm: Fm) -> bool { fm == bnf_fm() || fm == abnf_fm() }
pub proof fn lemma_begins(fm: Fm, c: char) requires good(fm), begins(fm, c) ensures !white(c), c != ';', c != ')', c != ']', c != fm.alt, c != fm.sep[0] { axiom_alphabetic(c); }
pub proof fn lemma_skip_at(s: Seq<char>) requires s.len() == 0 || (!white(s[0]) && s[0] != ';') ensures skip(s) == s {}
pub proof fn lemma_tok_first(fm: Fm, t: PT, k: Seq<char>, y: Seq<char>) requires tok(fm, t, k, y) ensures k.len() > 0, begins(fm, k[0]) {}
pub proof fn lemma_term_first(fm: Fm, t: PT, s: Seq<char>, z: Seq<char>) requires w_term(fm, t, s, z) ensures s.len() > 0, begins(fm, s[0]) {
    let (k, l) = choose|k: Seq<char>, l: Seq<char>| #[trigger] cat(s, k, l) && lay(l) && tok(fm, t, k, l + z);
    lemma_tok_first(fm, t, k, l + z);
}
pub proof fn lemma_terms_first(fm: Fm, ts: Seq<PT>, i: int, s: Seq<char>, z: Seq<char>) requires w_terms(fm, ts, i, s, z), 0 <= i < ts.len() ensures s.len() > 0, begins(fm, s[0]) {
    let (a, b) = choose|a: Seq<char>, b: Seq<char>| #[trigger] cat(s, a, b) && w_term(fm, ts[i], a, b + z) && w_terms(fm, ts, i + 1, b, z);
    lemma_term_first(fm, ts[i], a, b + z);
}
pub proof fn lemma_alts_first(fm: Fm, a: Seq<Seq<PT>>, i: int, s: Seq<char>, z: Seq<char>) requires w_alts(fm, a, i, s, z) ensures s.len() > 0, begins(fm, s[0]) {
    if i == a.len() - 1 { lemma_terms_first(fm, a[i], 0, s, z); } else {
        let (x, l, y) = choose|x: Seq<char>, l: Seq<char>, y: Seq<char>| #[trigger] cat3(s, x, l, y) && s == x + one(fm.alt) + l + y && lay(l) && w_terms(fm, a[i], 0, x, one(fm.alt) + l + y + z) && w_alts(fm, a, i + 1, y, z);
        lemma_terms_first(fm, a[i], 0, x, one(fm.alt) + l + y + z);
    }
}
pub proof fn lemma_until(a: char, n: Seq<char>, b: char, y: Seq<char>) requires !n.contains(b) ensures rd_until(between(a, n, b) + y, b) == Some((n, y)) {
    let s = between(a, n, b) + y; let t = s.drop_first();
    assert(t =~= n + one(b) + y);
    assert forall|j: int| 0 <= j < n.len() implies #[trigger] t[j] != b by { assert(t[j] == n[j]); }
    lemma_at(t, n.len() as int, b);
    assert(t.take(n.len() as int) =~= n);
    assert(t.skip(n.len() as int).drop_first() =~= y);
}
pub proof fn lemma_rd_name(fm: Fm, n: Seq<char>, k: Seq<char>, y: Seq<char>) requires good(fm), name_tok(fm, n, k, y) ensures rd_name(fm, k + y) == Some((n, y)), k.len() > 0, begins(fm, k[0]) {
    let s = k + y;
    match fm.delim {
        Some(d) => { lemma_until(d.0, n, d.1, y); }
        None => {
            assert forall|j: int| 0 <= j < n.len() implies !ends_word(#[trigger] s[j]) by { assert(s[j] == n[j]); }
            lemma_word(s, n.len() as int);
            assert(s.take(n.len() as int) =~= n); assert(s.skip(n.len() as int) =~= y);
        }
    }
}
/// What can follow the last alternative.
pub open spec fn ends(fm: Fm, z: Seq<char>) -> bool { let q = skip(z); q.len() == 0 || q[0] == ')' || q[0] == ']' || rd_lhs(fm, q) is Some }
pub open spec fn stops(fm: Fm, z: Seq<char>) -> bool { ends(fm, z) || (skip(z).len() > 0 && skip(z)[0] == fm.alt) }
pub proof fn lemma_stops(fm: Fm, z: Seq<char>) requires good(fm), stops(fm, z) ensures rd_one(fm, true, skip(z)) is None, !starts(fm.sep, skip(z)), ends(fm, z) ==> rd_next(fm, skip(z)) is None {
    let q = skip(z);
    if q.len() > 0 { axiom_alphabetic(q[0]); axiom_alphabetic(fm.alt); assert(q.take(fm.sep.len() as int)[0] == q[0] || fm.sep.len() > q.len()); }
    if rd_lhs(fm, q) is Some { assert(rd_text(q) is None); } else { assert(rd_simple(fm, q) is None); assert(rd_term(fm, true, q) is None); }
}
pub proof fn lemma_nosep(fm: Fm, s: Seq<char>) requires good(fm), s.len() > 0, begins(fm, s[0]) ensures !starts(fm.sep, s) { lemma_begins(fm, s[0]); assert(s.take(fm.sep.len() as int)[0] == s[0] || fm.sep.len() > s.len()); }
pub proof fn lemma_rd_tok(fm: Fm, t: PT, k: Seq<char>, l: Seq<char>, z: Seq<char>)
    requires good(fm), tok(fm, t, k, l + z), lay(l), ensures rd_term(fm, true, k + (l + z)) == Some((t, skip(z))),
    decreases t, 0int,
{
    let y = l + z; let s = k + y;
    lemma_lay(l, z);
    lemma_tok_first(fm, t, k, y); lemma_begins(fm, k[0]);
    assert(s[0] == k[0]);
    axiom_alphabetic(s[0]);
    match t {
        PT::Text(n) => { if k == between('"', n, '"') && !n.contains('"') { lemma_until('"', n, '"', y); } else { lemma_until('\'', n, '\'', y); } }
        PT::Name(n) => { lemma_rd_name(fm, n, k, y); assert(rd_text(s) is None); }
        PT::Group(a) => {
            let (m, b) = choose|m: Seq<char>, b: Seq<char>| k == between('(', m + b, ')') && lay(m) && #[trigger] inside(m, b) && w_alts(fm, a, 0, b, one(')') + y);
            lemma_rd_in(fm, a, s, '(', m, b, ')', l, z);
        }
        PT::Opt(a) => {
            let (m, b) = choose|m: Seq<char>, b: Seq<char>| k == between('[', m + b, ']') && lay(m) && #[trigger] inside(m, b) && w_alts(fm, a, 0, b, one(']') + y);
            lemma_rd_in(fm, a, s, '[', m, b, ']', l, z);
        }
    }
}
pub proof fn lemma_rd_in(fm: Fm, a: Seq<Seq<PT>>, s: Seq<char>, o: char, m: Seq<char>, b: Seq<char>, c: char, l: Seq<char>, z: Seq<char>)
    requires good(fm), s == between(o, m + b, c) + (l + z), lay(m), lay(l), c == ')' || c == ']', w_alts(fm, a, 0, b, one(c) + (l + z)),
    ensures rd_in(fm, s, c) == Some((a, skip(z))),
    decreases a, a.len() + 1,
{
    let y = one(c) + (l + z);
    assert(s.drop_first() =~= m + (b + y));
    lemma_lay(m, b + y); lemma_lay(l, z);
    lemma_alts_first(fm, a, 0, b, y); lemma_begins(fm, b[0]);
    lemma_skip_at(b + y); lemma_skip_at(y);
    lemma_rd_alts(fm, a, 0, b, y);
    assert(a.skip(0) =~= a);
    assert(y.drop_first() =~= l + z);
}
pub proof fn lemma_rd_term(fm: Fm, t: PT, s: Seq<char>, z: Seq<char>) requires good(fm), w_term(fm, t, s, z) ensures rd_term(fm, true, s + z) == Some((t, skip(z))) decreases t, 1int {
    let (k, l) = choose|k: Seq<char>, l: Seq<char>| #[trigger] cat(s, k, l) && lay(l) && tok(fm, t, k, l + z);
    lemma_rd_tok(fm, t, k, l, z);
    assert(s + z =~= k + (l + z));
}
pub proof fn lemma_rd_terms(fm: Fm, ts: Seq<PT>, i: int, s: Seq<char>, z: Seq<char>)
    requires good(fm), w_terms(fm, ts, i, s, z), 0 <= i <= ts.len(), stops(fm, z), i == ts.len() ==> skip(z) == z,
    ensures rd_terms(fm, true, s + z) == (ts.skip(i), skip(z)),
    decreases ts, ts.len() - i,
{
    lemma_stops(fm, z);
    if i == ts.len() { assert(s + z =~= z); assert(ts.skip(i) =~= Seq::<PT>::empty()); }
    else {
        let (a, b) = choose|a: Seq<char>, b: Seq<char>| #[trigger] cat(s, a, b) && w_term(fm, ts[i], a, b + z) && w_terms(fm, ts, i + 1, b, z);
        lemma_rd_term(fm, ts[i], a, b + z);
        assert(s + z =~= a + (b + z));
        lemma_term_suf(fm, true, s + z);
        if i + 1 < ts.len() { lemma_terms_first(fm, ts, i + 1, b, z); lemma_begins(fm, b[0]); lemma_skip_at(b + z); lemma_nosep(fm, b + z); lemma_rd_terms(fm, ts, i + 1, b, z); }
        else { assert(b + z =~= z); lemma_skip_suf(z); lemma_w_nil(fm, ts, i + 1, skip(z)); lemma_rd_terms(fm, ts, i + 1, Seq::empty(), skip(z)); assert(Seq::<char>::empty() + skip(z) =~= skip(z)); }
        let q = skip(b + z);
        assert(rd_one(fm, true, s + z) == Some((ts[i], q)));
        assert(rd_terms(fm, true, q) == (ts.skip(i + 1), skip(z)));
        assert(rd_terms(fm, true, s + z) == (seq![ts[i]] + rd_terms(fm, true, q).0, rd_terms(fm, true, q).1));
        assert(seq![ts[i]] + ts.skip(i + 1) =~= ts.skip(i));
    }
}
pub proof fn lemma_w_nil(fm: Fm, ts: Seq<PT>, i: int, z: Seq<char>) requires i >= ts.len() ensures w_terms(fm, ts, i, Seq::empty(), z) {}
pub proof fn lemma_rd_alts(fm: Fm, a: Seq<Seq<PT>>, i: int, s: Seq<char>, z: Seq<char>)
    requires good(fm), w_alts(fm, a, i, s, z), ends(fm, z), ensures rd_alts(fm, true, s + z) == Some((a.skip(i), skip(z))),
    decreases a, a.len() - i,
{
    lemma_stops(fm, z);
    if i == a.len() - 1 {
        lemma_rd_terms(fm, a[i], 0, s, z);
        assert(a[i].skip(0) =~= a[i]); assert(a.skip(i) =~= seq![a[i]]);
    } else {
        let (x, l, y) = choose|x: Seq<char>, l: Seq<char>, y: Seq<char>| #[trigger] cat3(s, x, l, y) && s == x + one(fm.alt) + l + y && lay(l) && w_terms(fm, a[i], 0, x, one(fm.alt) + l + y + z) && w_alts(fm, a, i + 1, y, z);
        let q = one(fm.alt) + l + y + z;
        lemma_skip_at(q);
        lemma_rd_terms(fm, a[i], 0, x, q);
        assert(s + z =~= x + q);
        assert(q.drop_first() =~= l + (y + z));
        lemma_lay(l, y + z); lemma_alts_first(fm, a, i + 1, y, z); lemma_begins(fm, y[0]); lemma_skip_at(y + z);
        lemma_rd_alts(fm, a, i + 1, y, z);
        assert(a[i].skip(0) =~= a[i]); assert(seq![a[i]] + a.skip(i + 1) =~= a.skip(i));
    }
}
/// `s`, followed by `z`, is a way to write the production.
pub open spec fn w_prod(fm: Fm, p: PP, s: Seq<char>, z: Seq<char>) -> bool {
    exists|k: Seq<char>, l: Seq<char>, o: Seq<char>, m: Seq<char>, b: Seq<char>| #[trigger] cat5(s, k, l, o, m, b) && s == k + (l + (fm.sep + (o + (m + b)))) && (o.len() == 0 || o == one(fm.alt)) && lay(l) && lay(m)
        && name_tok(fm, p.lhs, k, l + (fm.sep + (o + (m + (b + z))))) && w_alts(fm, p.rhs, 0, b, z)
}
pub open spec fn cat5(s: Seq<char>, k: Seq<char>, l: Seq<char>, o: Seq<char>, m: Seq<char>, b: Seq<char>) -> bool { true }
pub open spec fn w_prods(fm: Fm, ps: Seq<PP>, i: int, s: Seq<char>, z: Seq<char>) -> bool decreases ps.len() - i {
    if i < 0 || i >= ps.len() { s.len() == 0 } else { exists|a: Seq<char>, b: Seq<char>| #[trigger] cat(s, a, b) && w_prod(fm, ps[i], a, b + z) && w_prods(fm, ps, i + 1, b, z) }
}
/// `s` is a way to write the productions `ps`: with any layout before the first token, between tokens and at the end
/// (where a comment may go on to the end of the text), either quote, and an optional separator after `::=`.
pub open spec fn document(fm: Fm, ps: Seq<PP>, s: Seq<char>) -> bool {
    ps.len() > 0 && exists|l: Seq<char>, b: Seq<char>, z: Seq<char>| #[trigger] cat3(s, l, b, z) && s == l + (b + z) && lay(l) && w_prods(fm, ps, 0, b, z) && skip(z).len() == 0
}
pub proof fn lemma_rd_lhs(fm: Fm, p: PP, s: Seq<char>, z: Seq<char>)
    requires good(fm), w_prod(fm, p, s, z),
    ensures s.len() > 0, match fm.delim { Some(d) => s[0] == d.0, None => alphabetic(s[0]) }, begins(fm, s[0]),
        rd_lhs(fm, s + z) is Some,
        exists|b: Seq<char>| #[trigger] w_alts(fm, p.rhs, 0, b, z) && rd_lhs(fm, s + z) == Some((p.lhs, b + z)),
{
    let (k, l, o, m, b) = choose|k: Seq<char>, l: Seq<char>, o: Seq<char>, m: Seq<char>, b: Seq<char>| #[trigger] cat5(s, k, l, o, m, b) && s == k + (l + (fm.sep + (o + (m + b)))) && (o.len() == 0 || o == one(fm.alt)) && lay(l) && lay(m)
        && name_tok(fm, p.lhs, k, l + (fm.sep + (o + (m + (b + z))))) && w_alts(fm, p.rhs, 0, b, z);
    let y3 = m + (b + z); let y2 = o + y3; let y1 = fm.sep + y2; let y0 = l + y1;
    assert(s + z =~= k + y0);
    lemma_rd_name(fm, p.lhs, k, y0);
    lemma_lay(l, y1);
    assert(y1[0] == fm.sep[0]);
    lemma_skip_at(y1);
    assert(y1.take(fm.sep.len() as int) =~= fm.sep);
    assert(y1.skip(fm.sep.len() as int) =~= y2);
    lemma_alts_first(fm, p.rhs, 0, b, z); lemma_begins(fm, b[0]);
    lemma_lay(m, b + z); lemma_skip_at(b + z);
    if o.len() == 0 {
        assert(y2 =~= y3);
        if m.len() == 0 { assert(y3 =~= b + z); } else { assert(y3[0] == m[0]); assert(white(fm.alt) == false); }
    } else { assert(y2.drop_first() =~= y3); }
}
pub proof fn lemma_rd_prod(fm: Fm, p: PP, s: Seq<char>, z: Seq<char>)
    requires good(fm), w_prod(fm, p, s, z), skip(z).len() == 0 || rd_lhs(fm, skip(z)) is Some, ensures rd_prod(fm, s + z) == Some((p, skip(z))),
{
    lemma_rd_lhs(fm, p, s, z);
    let b = choose|b: Seq<char>| #[trigger] w_alts(fm, p.rhs, 0, b, z) && rd_lhs(fm, s + z) == Some((p.lhs, b + z));
    lemma_rd_alts(fm, p.rhs, 0, b, z);
    assert(p.rhs.skip(0) =~= p.rhs);
}
pub proof fn lemma_rd_prods(fm: Fm, ps: Seq<PP>, i: int, s: Seq<char>, z: Seq<char>)
    requires good(fm), w_prods(fm, ps, i, s, z), 0 <= i < ps.len(), skip(z).len() == 0,
    ensures rd_prods(fm, s + z).0 == ps.skip(i), rd_prods(fm, s + z).1.len() == 0, s.len() > 0, begins(fm, s[0]), match fm.delim { Some(d) => s[0] == d.0, None => alphabetic(s[0]) }, rd_lhs(fm, s + z) is Some,
    decreases ps.len() - i,
{
    let (a, b) = choose|a: Seq<char>, b: Seq<char>| #[trigger] cat(s, a, b) && w_prod(fm, ps[i], a, b + z) && w_prods(fm, ps, i + 1, b, z);
    assert(s + z =~= a + (b + z));
    lemma_rd_lhs(fm, ps[i], a, b + z);
    lemma_begins(fm, s[0]);
    lemma_skip_at(s + z);
    lemma_prod_suf(fm, s + z);
    if i + 1 < ps.len() {
        lemma_rd_prods(fm, ps, i + 1, b, z);
        lemma_begins(fm, b[0]); lemma_skip_at(b + z);
        lemma_rd_prod(fm, ps[i], a, b + z);
    } else {
        assert(b + z =~= z);
        lemma_rd_prod(fm, ps[i], a, b + z);
        lemma_skip_suf(z);
        assert(rd_prod(fm, skip(skip(z))) is None);
        assert(ps.skip(i + 1) =~= Seq::<PP>::empty());
    }
    let q = skip(b + z);
    assert(rd_prod(fm, s + z) == Some((ps[i], q)));
    lemma_prod_suf(fm, s + z);
    assert(rd_prods(fm, s + z) == (seq![ps[i]] + rd_prods(fm, q).0, rd_prods(fm, q).1));
    assert(rd_prods(fm, q).0 == ps.skip(i + 1));
    assert(seq![ps[i]] + ps.skip(i + 1) =~= ps.skip(i));
}
/// C10: every way to write a grammar reads as that grammar, in the notation it is written in.
pub proof fn theorem_c10(fm: Fm, ps: Seq<PP>, s: Seq<char>)
    requires good(fm), document(fm, ps, s), ensures rd_grammar(fm, s) == Some(ps), fm_of(s) == fm,
{
    let (l, b, z) = choose|l: Seq<char>, b: Seq<char>, z: Seq<char>| #[trigger] cat3(s, l, b, z) && s == l + (b + z) && lay(l) && w_prods(fm, ps, 0, b, z) && skip(z).len() == 0;
    lemma_rd_prods(fm, ps, 0, b, z);
    lemma_begins(fm, b[0]);
    lemma_lay(l, b + z); lemma_skip_at(b + z);
    assert(ps.skip(0) =~= ps);
    axiom_alphabetic(b[0]);
}
