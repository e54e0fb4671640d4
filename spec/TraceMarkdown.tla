---------------------------- MODULE TraceMarkdown ----------------------------
EXTENDS Markdown, Harness

MarkdownInit(sess) == sess.ini
MarkdownStep(stt, e) ==
  LET exp == Markdown(stt, e.fname, e.linked)
      no(clause, x) == [st |-> stt, bad |-> clause, exp |-> x]
      dias == [t \in DOMAIN e.out.dias |-> TRange(e.out.dias[t])]
      tabs == e.out.md.tabs
  IN IF e.out.k # "ok" THEN no("markdown not made", exp)
     ELSE IF e.out.md.title # exp.title THEN no("title", exp.title)
     ELSE IF e.out.md.note # exp.note THEN no("link to the metadata", exp.note)
     ELSE IF e.out.md.props # exp.props THEN no("properties of the group", exp.props)
     ELSE IF Len(tabs) # Len(exp.tabs) THEN no("tables", exp.tabs)
     ELSE IF dias # Dialects(stt) THEN no("dialects", Dialects(stt))
     ELSE IF \E t \in DOMAIN tabs : [tabs[t] EXCEPT !.cols = <<>>] # [exp.tabs[t] EXCEPT !.cols = <<>>] THEN no("tables and their properties", exp.tabs)
     ELSE IF tabs # exp.tabs THEN no("columns", exp.tabs)
     ELSE [st |-> stt, bad |-> "", exp |-> <<>>]
=============================================================================
