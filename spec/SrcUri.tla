------------------------------- MODULE SrcUri --------------------------------
(* Entries of SRC_URI: scheme://host/path?query#fragment;key=value;...       *)
EXTENDS Text

\* known mirrors: sequence of <<name, url>>, replaced wherever they stand
RECURSIVE Mirrored(_, _)
Mirrored(s, ms) == IF ms = <<>> THEN s ELSE Mirrored(Replace(s, ms[1][1], ms[1][2]), Tail(ms))

LowerCase(s) == LET f(ch) == IF ch \in Upper THEN Ch(LowerSeq, Find(UpperSeq, ch)) ELSE ch
                IN Concat([i \in 1..Len(s) |-> f(Ch(s, i))])

Nothing == [scheme |-> "", src |-> "", options |-> {}]

\* the options are a function from key to value: the last one of a key counts
OptionsOf(q) ==
  LET W == {i \in 1..Len(q) : Contains(q[i], "=")}
      K(i) == Upto(q[i], Find(q[i], "=") - 1)
  IN {<<K(i), From(q[i], Find(q[i], "=") + 1)>> : i \in {j \in W : \A k \in W : K(k) = K(j) => k <= j}}

Decompose(text, ms) ==
  LET raw == Mirrored(text, ms)
      parts == SplitAt(raw, ";")
      loc == parts[1]
      i == Find(loc, "://")
      rest == From(loc, i + 3)
      ends == {j \in 1..Len(rest) : Ch(rest, j) \in {"/", "?", "#"}}
      e == IF ends = {} THEN Len(rest) + 1 ELSE MinOf(ends)
      host == Upto(rest, e - 1)
      tail == From(rest, e)
      path == IF StartsWith(tail, "/") THEN "/" \o LStrip(tail, {"/"}) ELSE tail
  IN IF Contains(host, "[") # Contains(host, "]") THEN Nothing
     ELSE [scheme |-> LowerCase(Upto(loc, i - 1)), src |-> host \o path, options |-> OptionsOf(Tail(parts))]

\* an entry as written: [scheme, host, path, opts: sequence of [k, v, eq]]
Option(o) == IF o.eq THEN o.k \o "=" \o o.v ELSE o.k
Render(e) == Join(<<e.scheme \o "://" \o e.host \o e.path>> \o [i \in 1..Len(e.opts) |-> Option(e.opts[i])], ";")
=============================================================================
