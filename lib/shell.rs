// needs: strings sud
// The stack and the loops of the shell.
pub uninterp spec fn opaque_truth(o: Opaque) -> bool;
pub uninterp spec fn opaque_of<A>(a: A) -> Opaque;
pub type Call = (Func, Seq<Seq<char>>, Seq<Opaque>, Opaque);
pub open spec fn is_exit(c: Call) -> bool { c.0 == (Func { tag: 0 }) }
pub open spec fn is_loop(c: Call) -> bool { c.0 == (Func { tag: 1 }) }
/// the function of a command and the names of what it is called with before its arguments
pub open spec fn sp_sudoku() -> Seq<char> { seq!['s', 'u', 'd', 'o', 'k', 'u'] }
pub open spec fn sp_shell() -> Seq<char> { seq!['s', 'h', 'e', 'l', 'l'] }
pub open spec fn command_entry(w: Seq<char>) -> Option<(Func, Seq<Seq<char>>)> {
    if w == seq!['n', 'e', 'w'] { Some((Func { tag: 2 }, Seq::<Seq<char>>::empty())) }
    else if w == seq!['g', 'e', 'n', 'e', 'r', 'a', 't', 'e'] { Some((Func { tag: 3 }, Seq::<Seq<char>>::empty())) }
    else if w == seq!['g', 'e', 'n', 'e', 'r', 'a', 't', 'e', '_', 'f', 'r', 'o', 'm', '_', 't', 'e', 'm', 'p', 'l', 'a', 't', 'e'] { Some((Func { tag: 4 }, seq![sp_sudoku()])) }
    else if w == seq!['d', 'e', 'c', 'o', 'd', 'e'] { Some((Func { tag: 5 }, Seq::<Seq<char>>::empty())) }
    else if w == seq!['g', 'e', 't'] { Some((Func { tag: 6 }, seq![sp_sudoku()])) }
    else if w == seq!['s', 'e', 't'] { Some((Func { tag: 7 }, seq![sp_sudoku()])) }
    else if w == seq!['s', 'e', 't', '_', 'c', 'a', 'n', 'd', 'i', 'd', 'a', 't', 'e', 's'] { Some((Func { tag: 8 }, seq![sp_sudoku()])) }
    else if w == seq!['g', 'e', 't', '_', 'c', 'a', 'n', 'd', 'i', 'd', 'a', 't', 'e', 's'] { Some((Func { tag: 9 }, seq![sp_sudoku()])) }
    else if w == seq!['r', 'e', 'm', 'o', 'v', 'e', '_', 'c', 'a', 'n', 'd', 'i', 'd', 'a', 't', 'e', 's'] { Some((Func { tag: 10 }, seq![sp_sudoku()])) }
    else if w == seq!['i', 'n', 'i', 't', '_', 'c', 'a', 'n', 'd', 'i', 'd', 'a', 't', 'e', 's'] { Some((Func { tag: 11 }, seq![sp_sudoku()])) }
    else if w == seq!['e', 'n', 'c', 'o', 'd', 'e'] { Some((Func { tag: 12 }, seq![sp_sudoku()])) }
    else if w == seq!['p', 'r', 'i', 'n', 't'] { Some((Func { tag: 13 }, seq![sp_sudoku()])) }
    else if w == seq!['c', 'l', 'e', 'a', 'r'] { Some((Func { tag: 14 }, Seq::<Seq<char>>::empty())) }
    else if w == seq!['v', 'i', 'e', 'w'] { Some((Func { tag: 15 }, seq![sp_sudoku()])) }
    else if w == seq!['s', 'o', 'l', 'v', 'e'] { Some((Func { tag: 16 }, seq![sp_shell(), sp_sudoku()])) }
    else if w == seq!['l', 'o', 'o', 'p'] { Some((Func { tag: 1 }, seq![sp_shell()])) }
    else if w == seq!['s', 't', 'a', 'c', 'k'] { Some((Func { tag: 17 }, seq![sp_shell()])) }
    else if w == seq!['p', 'u', 's', 'h'] { Some((Func { tag: 18 }, seq![sp_shell()])) }
    else if w == seq!['p', 'o', 'p'] { Some((Func { tag: 19 }, seq![sp_shell()])) }
    else if w == seq!['h', 'e', 'l', 'p'] { Some((Func { tag: 20 }, seq![sp_shell()])) }
    else if w == seq!['e', 'x', 'i', 't'] { Some((Func { tag: 0 }, seq![sp_shell()])) }
    else { None }
}
/// Python literals
pub ghost enum Literal { Value(Opaque), SyntaxError, ValueError, TypeError, MemoryError, RecursionError }
pub uninterp spec fn literal(s: Seq<char>) -> Literal;
pub open spec fn literal_value(s: Seq<char>) -> Option<Opaque> { match literal(s) { Literal::Value(v) => Some(v), _ => None } }
pub open spec fn is_named(w: Seq<char>) -> bool { str_contains(w, seq!['=']) }
/// the value of a word: a command, a keyword or a literal
pub open spec fn positional(w: Seq<char>) -> Option<Opaque> {
    if command_entry(w) is Some { Some(opaque_of(Command { name: w })) }
    else if w == seq!['e', 'n', 'd'] { Some(opaque_of(Keyword { name: w })) }
    else { literal_value(w) }
}
/// the positional arguments of these words, unless one of them has no value
pub open spec fn args_of(ws: Seq<Seq<char>>) -> Option<Seq<Opaque>>
    decreases ws.len(),
{
    if ws.len() == 0 { Some(Seq::empty()) }
    else {
        match args_of(ws.drop_last()) {
            None => None,
            Some(a) => if is_named(ws.last()) { if literal_value(str_split1(ws.last(), seq!['='])[1]) is Some { Some(a) } else { None } }
                else { match positional(ws.last()) { None => None, Some(x) => Some(a.push(x)) } },
        }
    }
}
/// the arguments given by name; the last one of a name counts
pub open spec fn kwargs_of(ws: Seq<Seq<char>>) -> Map<Seq<char>, Opaque>
    decreases ws.len(),
{
    if ws.len() == 0 { Map::empty() }
    else {
        let m = kwargs_of(ws.drop_last());
        let p = str_split1(ws.last(), seq!['=']);
        if is_named(ws.last()) { m.insert(p[0], literal_value(p[1])->Some_0) } else { m }
    }
}
/// the command that a piece of a line stands for, if it stands for one
pub open spec fn meaning(s: Seq<char>) -> Option<Call> {
    let ws = str_split(s, seq![' ']);
    match (command_entry(ws[0]), args_of(ws.skip(1))) { (Some(e), Some(a)) => Some((e.0, e.1, a, opaque_of(kwargs_of(ws.skip(1))))), _ => None }
}
/// reading one word more
pub proof fn word_read(ws: Seq<Seq<char>>, k: int)
    requires 0 <= k < ws.len(),
    ensures
        is_named(ws[k]) ==> str_split1(ws[k], seq!['=']).len() == 2,
        is_named(ws[k]) ==> ({
            let (w, i) = (ws[k], str_find(ws[k], seq!['=']));
            i >= 0 && py_slice(w, 0, slice_idx(i, w.len() as int)) == str_split1(w, seq!['='])[0] && py_slice(w, slice_idx(i + 1, w.len() as int), w.len() as int) == str_split1(w, seq!['='])[1]
        }),
        str_find(ws[k], seq!['=']) >= 0 <==> is_named(ws[k]),
        args_of(ws.take(k + 1)) == match args_of(ws.take(k)) {
            None => None,
            Some(a) => if is_named(ws[k]) { if literal_value(str_split1(ws[k], seq!['='])[1]) is Some { Some(a) } else { None } }
                else { match positional(ws[k]) { None => None, Some(x) => Some(a.push(x)) } },
        },
        kwargs_of(ws.take(k + 1)) == (if is_named(ws[k]) { kwargs_of(ws.take(k)).insert(str_split1(ws[k], seq!['='])[0], literal_value(str_split1(ws[k], seq!['='])[1])->Some_0) } else { kwargs_of(ws.take(k)) }),
        args_of(ws.take(k + 1)) is None ==> args_of(ws) is None,
{
    let l = ws.take(k + 1);
    assert(l.drop_last() =~= ws.take(k));
    assert(l.last() == ws[k]);
    find_bound(ws[k], seq!['='], 0);
    if is_named(ws[k]) {
        let i = str_find(ws[k], seq!['=']);
        assert(ws[k].subrange(0, i) =~= ws[k].take(i));
        assert(ws[k].subrange(i + 1, ws[k].len() as int) =~= ws[k].skip(i + 1));
    }
    if is_named(ws[k]) { let i = choose|i: int| #[trigger] occurs(ws[k], seq!['='], i); assert(occurs(ws[k], seq!['='], i)); }
    word_bad(ws, k + 1);
}
pub proof fn word_bad(ws: Seq<Seq<char>>, k: int)
    requires 0 <= k <= ws.len(),
    ensures args_of(ws.take(k)) is None ==> args_of(ws) is None,
    decreases ws.len() - k,
{
    if k < ws.len() { let l = ws.take(k + 1); assert(l.drop_last() =~= ws.take(k)); word_bad(ws, k + 1); } else { assert(ws.take(k) =~= ws); }
}
/// what loop is called with
pub ghost enum LoopArg { End, Count(int), Bad }
pub uninterp spec fn loop_arg(i: Invoke) -> LoopArg;
/// a reference to the object that is stored there
pub uninterp spec fn object_at(path: Seq<char>) -> Opaque;
/// a function and the arguments it is called with
pub type Invoke = (Func, Seq<Opaque>, Opaque);
pub open spec fn handles(names: Seq<Seq<char>>) -> Seq<Opaque> {
    Seq::new(names.len(), |j: int| if names[j] == sp_sudoku() { object_at(seq!['s', 'e', 'l', 'f', '.', 's', 'u', 'd', 'o', 'k', 'u']) } else { object_at(seq!['s', 'e', 'l', 'f']) })
}
/// the current sudoku and the shell come first, as the command wants them
pub open spec fn invoke(c: Call) -> Invoke { (c.0, handles(c.1).add(c.2), c.3) }
pub open spec fn call_ok(c: Call) -> bool { forall|j: int| 0 <= j < c.1.len() ==> #[trigger] c.1[j] == sp_sudoku() || c.1[j] == sp_shell() }
pub proof fn special_names(c: Call, names: Seq<Seq<char>>)
    requires call_ok(c), names == c.1,
    ensures forall|x: Seq<char>| #[trigger] names.contains(x) ==> x == sp_sudoku() || x == sp_shell(),
{
    assert forall|x: Seq<char>| #[trigger] names.contains(x) implies x == sp_sudoku() || x == sp_shell() by { let j = choose|j: int| 0 <= j < names.len() && names[j] == x; assert(c.1[j] == x); }
}
pub broadcast proof fn comp_each<A, B>(s: Seq<A>, p: spec_fn(A) -> bool, f: spec_fn(A) -> B)
    requires forall|x: A| #[trigger] p(x),
    ensures #[trigger] comp(s, p, f) == Seq::new(s.len(), |j: int| f(s[j])),
    decreases s.len(),
{
    if s.len() == 0 { assert(comp(s, p, f) =~= Seq::new(s.len(), |j: int| f(s[j]))); }
    else {
        let d = s.drop_last();
        comp_each(d, p, f);
        assert(p(s.last()));
        assert(Seq::new(d.len(), |j: int| f(d[j])).push(f(s.last())) =~= Seq::new(s.len(), |j: int| f(s[j])));
    }
}
/// what a function other than loop does, with what outcome; Shell::ran lists the calls
pub uninterp spec fn effect(a: Shell, b: Shell, i: Invoke, r: Outcome) -> bool;
/// the outcome of a call that ends with an exception
pub open spec fn no_answer() -> Outcome { Outcome { kind: 3, sud: arbitrary(), what: arbitrary() } }
/// a function other than loop was called
pub open spec fn called(a: Shell, m: Shell, i: Invoke, r: Outcome) -> bool {
    &&& (r.kind == 1 ==> wf(r.sud))
    &&& m.ran == a.ran.push(i) && m.loop_n == a.loop_n && m.recorded == a.recorded && effect(core(a), core(m), i, r)
}
/// a sudoku that is the outcome becomes the current one
pub open spec fn answered(m: Shell, r: Outcome) -> Shell { if r.kind == 1 { Shell { sudoku: r.sud, ..m } } else { m } }
/// a text was written
pub open spec fn wrote(a: Shell, b: Shell, t: Seq<char>) -> bool { b == (Shell { outfile: TextOut { written: a.outfile.written.push(t) }, ..a }) }
/// another result is printed
pub open spec fn printed(m: Shell, r: Outcome) -> TextOut { if r.kind == 2 { TextOut { written: m.outfile.written.push(any_str(r).add(seq!['\n'])) } } else { m.outfile } }

/// the shell but for its prompts, its input and its output
pub open spec fn core(s: Shell) -> Shell { Shell { prompt: Seq::empty(), command_prompt: Seq::empty(), infile: TextIn { given: Seq::empty(), ended: false }, outfile: TextOut { written: Seq::empty() }, ..s } }
pub open spec fn recording(s: Shell) -> bool { s.loop_n is Some }
pub open spec fn wf_stack(s: Shell) -> bool { wf(s.sudoku) && forall|i: int| 0 <= i < s.stack.len() ==> wf(#[trigger] s.stack[i]) }
pub open spec fn wf_shell(s: Shell) -> bool {
    &&& wf_stack(s)
    &&& match s.loop_n { None => s.recorded.len() == 0, Some(n) => n > 0 }
    &&& forall|i: int| 0 <= i < s.recorded.len() ==> !is_loop(#[trigger] s.recorded[i]) && call_ok(s.recorded[i])
}
/// x has the numbers and the candidates of s
pub open spec fn snapshot(s: Sudoku, x: Sudoku) -> bool { wf(x) && same_dims(s, x) && same_nums(s, x) && same_cands(s, x) }
pub open spec fn pushed(a: Shell, b: Shell) -> bool {
    exists|x: Sudoku| #[trigger] snapshot(a.sudoku, x) && b == (Shell { stack: a.stack.push(x), ..a })
}
pub open spec fn popped(a: Shell, b: Shell, p: Option<int>) -> bool {
    let k = match p { Some(v) => v, None => a.stack.len() - 1 };
    b == if 0 <= k < a.stack.len() { Shell { sudoku: a.stack[k], stack: a.stack.remove(k), ..a } } else { a }
}
pub open spec fn exited(a: Shell, b: Shell) -> bool { b == (Shell { running: false, ..a }) }
/// a command other than loop was run
pub open spec fn ran(a: Shell, b: Shell, c: Call) -> bool {
    exists|m: Shell, r: Outcome| #[trigger] called(a, m, invoke(c), r) && core(b) == core(answered(m, r)) && b.outfile == printed(m, r)
}
pub open spec fn between(m: Shell) -> bool { true }
/// the commands were run one after another
pub open spec fn all_ran(a: Shell, b: Shell, cs: Seq<Call>) -> bool
    decreases cs.len(),
{
    if cs.len() == 0 { core(b) == core(a) }
    else { exists|m: Shell| #[trigger] between(m) && all_ran(a, m, cs.drop_last()) && ran(m, b, cs.last()) }
}
pub open spec fn loop_ended(a: Shell, b: Shell) -> bool {
    if recording(a) {
        exists|m: Shell| #[trigger] all_ran(a, m, seq_repeat(a.recorded, a.loop_n->Some_0)) && core(b) == core(Shell { loop_n: None, recorded: Seq::empty(), ..m })
    } else { core(b) == core(a) }
}
pub open spec fn loop_defined(a: Shell, b: Shell, n: int) -> bool {
    core(b) == core(if n > 0 && !recording(a) { Shell { loop_n: Some(n), ..a } } else { a })
}
/// a function was called
pub open spec fn call_done(a: Shell, m: Shell, i: Invoke, r: Outcome) -> bool {
    if i.0 != (Func { tag: 1 }) { called(a, m, i, r) }
    else { (r.kind == 0 || r.kind == 3) && match loop_arg(i) { LoopArg::End => loop_ended(a, m), LoopArg::Count(n) => loop_defined(a, m, n), LoopArg::Bad => core(m) == core(a) } }
}
/// a command was run
pub open spec fn executed(a: Shell, b: Shell, c: Call) -> bool {
    if !is_loop(c) { ran(a, b, c) }
    else { match loop_arg(invoke(c)) { LoopArg::End => loop_ended(a, b), LoopArg::Count(n) => loop_defined(a, b, n), LoopArg::Bad => core(b) == core(a) } }
}
/// a piece of a line was dealt with
pub open spec fn piece_done(a: Shell, b: Shell, s: Seq<char>) -> bool {
    match meaning(s) {
        Some(c) => if recording(a) && !is_loop(c) && !is_exit(c) { core(b) == core(Shell { recorded: a.recorded.push(c), ..a }) } else { executed(a, b, c) },
        None => core(b) == core(a),
    }
}
pub open spec fn pieces_done(a: Shell, b: Shell, ps: Seq<Seq<char>>) -> bool
    decreases ps.len(),
{
    if ps.len() == 0 { core(b) == core(a) }
    else { exists|m: Shell| #[trigger] between(m) && pieces_done(a, m, ps.drop_last()) && piece_done(m, b, str_strip(ps.last())) }
}
pub proof fn none_ran(a: Shell, b: Shell)
    requires core(a) == core(b),
    ensures all_ran(a, b, Seq::empty()),
{ }
pub proof fn one_ran(a: Shell, m: Shell, b: Shell, cs: Seq<Call>, c: Call)
    requires all_ran(a, m, cs), ran(m, b, c),
    ensures all_ran(a, b, cs.push(c)), b.recorded == m.recorded, b.loop_n == m.loop_n,
{
    let l = cs.push(c);
    assert(l.drop_last() =~= cs);
    assert(between(m) && all_ran(a, m, l.drop_last()) && ran(m, b, l.last()));
}
/// the first n rounds and the first k commands of the next one
pub open spec fn so_far(l: Seq<Call>, n: int, k: int) -> Seq<Call> { seq_repeat(l, n).add(l.take(k)) }
pub proof fn round_next(l: Seq<Call>, n: int, k: int)
    requires 0 <= k < l.len(), n >= 0,
    ensures so_far(l, n, k).push(l[k]) == so_far(l, n, k + 1),
{ assert(l.take(k).push(l[k]) =~= l.take(k + 1)); assert(so_far(l, n, k).push(l[k]) =~= so_far(l, n, k + 1)); }
pub proof fn round_ends(l: Seq<Call>, n: int)
    requires n >= 0,
    ensures so_far(l, n, l.len() as int) == seq_repeat(l, n + 1), so_far(l, n + 1, 0) == seq_repeat(l, n + 1), so_far(l, 0, 0) == Seq::<Call>::empty(),
{
    assert(l.take(l.len() as int) =~= l);
    assert(so_far(l, n + 1, 0) =~= seq_repeat(l, n + 1));
    assert(so_far(l, 0, 0) =~= Seq::<Call>::empty());
}
pub proof fn piece_next(a: Shell, m: Shell, b: Shell, ps: Seq<Seq<char>>, k: int)
    requires 0 <= k < ps.len(), pieces_done(a, m, ps.take(k)), piece_done(m, b, str_strip(ps[k])),
    ensures pieces_done(a, b, ps.take(k + 1)),
{
    let l = ps.take(k + 1);
    assert(l.drop_last() =~= ps.take(k));
    assert(between(m) && pieces_done(a, m, l.drop_last()) && piece_done(m, b, str_strip(l.last())));
}

/// what readline does to its file: the lines it gave so far, whether the last time it was at the end
pub open spec fn text_given(a: TextIn, b: TextIn, line: Seq<char>) -> bool {
    b == if line.len() == 0 { TextIn { ended: true, ..a } } else { TextIn { given: a.given.push(line), ended: false } }
}
/// a line without its end and its comment
pub open spec fn line_text(raw: Seq<char>) -> Seq<char> {
    let s = str_replace(raw, seq!['\n'], Seq::empty());
    let k = str_find(s, seq!['#']);
    str_strip(if k >= 0 { s.take(k) } else { s })
}
pub open spec fn continued(raw: Seq<char>) -> bool { let t = line_text(raw); t.len() > 0 && t.last() == '\\' }
/// the text that waits for the rest of its command after these lines
pub open spec fn pending(ls: Seq<Seq<char>>) -> Seq<char>
    decreases ls.len(),
{
    if ls.len() == 0 || !continued(ls.last()) { Seq::empty() } else { pending(ls.drop_last()).add(line_text(ls.last()).drop_last()) }
}
/// the command that the last of these lines completes
pub open spec fn completed(ls: Seq<Seq<char>>) -> Seq<char> {
    if continued(ls.last()) { Seq::empty() } else { pending(ls.drop_last()).add(line_text(ls.last())) }
}
/// a line was executed
pub open spec fn line_done(a: Shell, b: Shell, ps: Seq<Seq<char>>) -> bool { exists|e: Shell| #[trigger] pieces_done(a, e, ps) && core(b) == core(e) }
/// the lines were dealt with, one after another, while the shell was running
pub open spec fn lines_done(a: Shell, b: Shell, ls: Seq<Seq<char>>) -> bool
    decreases ls.len(),
{
    if ls.len() == 0 { core(b) == core(a) }
    else {
        exists|m: Shell| #[trigger] between(m) && lines_done(a, m, ls.drop_last()) && m.running
            && if completed(ls).len() == 0 { core(b) == core(m) } else { line_done(m, b, str_split(completed(ls), seq![';'])) }
    }
}

/// b has read more lines than a
pub open spec fn more_given(a: Shell, b: Shell) -> bool { a.infile.given.len() <= b.infile.given.len() && b.infile.given.take(a.infile.given.len() as int) == a.infile.given }
pub open spec fn lines_given(a: Shell, b: Shell) -> Seq<Seq<char>> { b.infile.given.skip(a.infile.given.len() as int) }
/// Python's ways to take the text of a line apart
pub proof fn line_read(raw: Seq<char>)
    ensures ({
        let s = str_replace(raw, seq!['\n'], Seq::empty());
        let k = str_find(s, seq!['#']);
        let t = line_text(raw);
        &&& (k >= 0 ==> py_slice(s, 0, slice_idx(k, s.len() as int)) == s.take(k))
        &&& str_endswith(t, seq!['\\']) == continued(raw)
        &&& (t.len() > 0 ==> py_slice(t, 0, slice_idx(-1, t.len() as int)) == t.drop_last())
    }),
{
    let s = str_replace(raw, seq!['\n'], Seq::empty());
    find_bound(s, seq!['#'], 0);
    let k = str_find(s, seq!['#']);
    if k >= 0 { assert(s.subrange(0, k) =~= s.take(k)); }
    let t = line_text(raw);
    if t.len() > 0 {
        let z = t.subrange(t.len() - 1, t.len() as int);
        assert(z =~= seq![t.last()]);
        assert(seq![t.last()][0] == t.last() && seq!['\\'][0] == '\\');
        assert(t.subrange(0, t.len() - 1) =~= t.drop_last());
    }
}
pub proof fn done_alike(a: Shell, a2: Shell, b: Shell, ps: Seq<Seq<char>>)
    requires pieces_done(a, b, ps), core(a) == core(a2),
    ensures pieces_done(a2, b, ps),
    decreases ps.len(),
{
    if ps.len() > 0 {
        let m = choose|m: Shell| #[trigger] between(m) && pieces_done(a, m, ps.drop_last()) && piece_done(m, b, str_strip(ps.last()));
        done_alike(a, a2, m, ps.drop_last());
        assert(between(m));
    }
}
pub proof fn lines_start(a: Shell, b: Shell)
    requires core(a) == core(b), a.infile.given == b.infile.given,
    ensures more_given(a, b), lines_given(a, b) =~= Seq::<Seq<char>>::empty(), lines_done(a, b, lines_given(a, b)), pending(lines_given(a, b)) == Seq::<char>::empty(),
{ assert(b.infile.given.take(a.infile.given.len() as int) =~= a.infile.given); }
/// at the end of the input
pub proof fn lines_stop(a: Shell, m: Shell, b: Shell)
    requires more_given(a, m), lines_done(a, m, lines_given(a, m)), core(m) == core(b), m.infile.given == b.infile.given,
    ensures more_given(a, b), lines_done(a, b, lines_given(a, b)),
{
    let ls = lines_given(a, m);
    if ls.len() > 0 {
        let x = choose|x: Shell| #[trigger] between(x) && lines_done(a, x, ls.drop_last()) && x.running
            && if completed(ls).len() == 0 { core(m) == core(x) } else { line_done(x, m, str_split(completed(ls), seq![';'])) };
        assert(between(x));
    }
}
/// one more line
pub proof fn line_next(a: Shell, m: Shell, b: Shell, raw: Seq<char>, c: Seq<char>)
    requires more_given(a, m), lines_done(a, m, lines_given(a, m)), m.running, b.infile.given == m.infile.given.push(raw),
        c == pending(lines_given(a, m)).add(line_text(raw)),
        continued(raw) || c.len() == 0 ==> core(b) == core(m),
        !continued(raw) && c.len() > 0 ==> exists|r: Shell| core(r) == core(m) && #[trigger] pieces_done(r, b, str_split(c, seq![';'])),
    ensures more_given(a, b), lines_done(a, b, lines_given(a, b)), lines_given(a, b) == lines_given(a, m).push(raw),
        pending(lines_given(a, b)) == if continued(raw) { pending(lines_given(a, m)).add(line_text(raw).drop_last()) } else { Seq::empty() },
{
    let n = a.infile.given.len() as int;
    assert(b.infile.given.take(n) =~= m.infile.given.take(n));
    let l = lines_given(a, b);
    assert(l =~= lines_given(a, m).push(raw));
    assert(l.drop_last() =~= lines_given(a, m));
    assert(l.last() == raw);
    if !continued(raw) && c.len() > 0 {
        let r = choose|r: Shell| core(r) == core(m) && #[trigger] pieces_done(r, b, str_split(c, seq![';']));
        done_alike(r, m, b, str_split(c, seq![';']));
    }
    assert(between(m));
}
/// a sudoku without numbers and candidates
pub open spec fn blank(s: Sudoku) -> bool {
    s.bw == 3 && s.bh == 3 && forall|q: (int, int)| at(s, q) ==> #[trigger] num(s, q) == 0 && cand(s, q) == Set::<int>::empty()
}
pub open spec fn stack_text(n: int) -> Seq<char> { seq!['s', 't', 'a', 'c', 'k', ' ', 'h', 'a', 's', ' '].add(int_str(n)).add(seq![' ', 's', 'u', 'd', 'o', 'k', 'u', 's']) }
