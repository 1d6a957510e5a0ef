----------------------------- MODULE EngineOps -----------------------------
(* The public operations of an engine other than its evaluation, as steps   *)
(* (records with field op and the operation's arguments).                   *)
EXTENDS Engine

\* operations with a plain deterministic effect: [st, e, name of aspect]
Eff(st, x, a) == [st |-> st, e |-> x, a |-> a]
Effect(st, s) ==
    CASE s.op = "in"      -> Eff(SetInput(st, s.i, s.x), FALSE, "in")
      [] s.op = "inname"  -> LET i == IndexOf(st.ins, s.k, 1) IN
                             IF i = 0 THEN Eff(st, TRUE, "in") ELSE Eff(SetInput(st, i, s.x), FALSE, "in")
      [] s.op = "keep"    -> Eff(SetInput(st, s.i, st.ins[s.i].val), FALSE, "in")
      [] s.op = "out"     -> Eff(SetOutput(st, s.i, s.x), FALSE, "in")
      [] s.op = "setprev" -> Eff([st EXCEPT !.outs[s.i].prev = s.x], FALSE, "set")
      [] s.op = "enin"    -> Eff([st EXCEPT !.ins[s.i].en = s.f], FALSE, "set")
      [] s.op = "enout"   -> Eff([st EXCEPT !.outs[s.i].en = s.f], FALSE, "set")
      [] s.op = "enblock" -> Eff([st EXCEPT !.blocks[s.i].en = s.f], FALSE, "set")
      [] s.op = "enrule"  -> Eff([st EXCEPT !.blocks[s.i].rules[s.r].en = s.f], FALSE, "set")
      [] s.op = "weight"  -> Eff([st EXCEPT !.blocks[s.i].rules[s.r].w = s.x], FALSE, "set")
      [] s.op = "conj"    -> Eff([st EXCEPT !.blocks[s.i].conj = s.k], FALSE, "set")
      [] s.op = "disj"    -> Eff([st EXCEPT !.blocks[s.i].disj = s.k], FALSE, "set")
      [] s.op = "impl"    -> Eff([st EXCEPT !.blocks[s.i].impl = s.k], FALSE, "set")
      [] s.op = "act"     -> Eff([st EXCEPT !.blocks[s.i].act = s.act], FALSE, "set")
      [] s.op = "agg"     -> Eff([st EXCEPT !.outs[s.i].agg = s.k], FALSE, "set")
      [] s.op = "df"      -> Eff([st EXCEPT !.outs[s.i].df = s.df], FALSE, "set")
      [] s.op = "lockp"   -> Eff([st EXCEPT !.outs[s.i].lockp = s.f], FALSE, "set")
      [] s.op = "lockout" -> Eff([st EXCEPT !.outs[s.i].lock = s.f], FALSE, "set")
      [] s.op = "lockin"  -> Eff([st EXCEPT !.ins[s.i].lock = s.f], FALSE, "set")
      [] s.op = "def"     -> Eff([st EXCEPT !.outs[s.i].def = s.x], FALSE, "set")
      [] s.op = "rangeout" -> Eff([st EXCEPT !.outs[s.i].lo = s.x, !.outs[s.i].hi = s.y], FALSE, "set")
      [] s.op = "rangein"  -> Eff([st EXCEPT !.ins[s.i].lo = s.x, !.ins[s.i].hi = s.y], FALSE, "set")
      [] s.op = "clearout" -> Eff([st EXCEPT !.outs[s.i] = ClearOut(@)], FALSE, "restart")
      [] s.op = "restart"  -> Eff(Restart(st), FALSE, "restart")
      [] s.op = "configure" ->
            Eff([st EXCEPT
                  !.blocks = [b \in 1 .. Len(st.blocks) |-> [st.blocks[b] EXCEPT
                        !.conj = s.conj, !.disj = s.disj, !.impl = s.impl,
                        !.act = IF s.act.k = "none" THEN [s.act EXCEPT !.k = "General"] ELSE s.act]],
                  !.outs = [o \in 1 .. Len(st.outs) |-> [st.outs[o] EXCEPT !.agg = s.agg, !.df = s.df]]],
                FALSE, "set")
      [] s.op = "loadrule" ->
            LET r == LoadR(VocOf(st), st.blocks[s.i].rules[s.r], s.toks)
            IN Eff([st EXCEPT !.blocks[s.i].rules[s.r] = r], ~r.loaded, "load")
      [] s.op = "reloadrule" ->
            LET r == LoadR(VocOf(st), st.blocks[s.i].rules[s.r], st.blocks[s.i].rules[s.r].toks)
            IN Eff([st EXCEPT !.blocks[s.i].rules[s.r] = r], ~r.loaded, "load")
      [] s.op = "deactivate" -> Eff([st EXCEPT !.blocks[s.i].rules[s.r] = [@ EXCEPT !.deg = Zero, !.trig = FALSE]], FALSE, "deg")
      [] s.op = "setdeg" -> Eff([st EXCEPT !.blocks[s.i].rules[s.r].deg = s.x], FALSE, "deg")
      [] s.op = "unloadrule" -> Eff([st EXCEPT !.blocks[s.i].rules[s.r] = UnloadR(@)], FALSE, "load")
      [] s.op \in {"loadrules", "reloadrules"} ->
            LET b == LoadBlock(VocOf(st), st.blocks[s.i])
            IN Eff([st EXCEPT !.blocks[s.i] = b], ~BlockLoads(b), "load")
      [] s.op = "unloadrules" -> Eff([st EXCEPT !.blocks[s.i] = UnloadBlock(@)], FALSE, "load")
      [] s.op = "addrule" ->
            LET r == LoadR(VocOf(st), NewRule(s.toks), s.toks)
            IN IF r.loaded THEN Eff([st EXCEPT !.blocks[s.i].rules = Append(@, r)], FALSE, "load")
               ELSE Eff(st, TRUE, "load")
      [] s.op = "insrule" ->
            LET r == LoadR(VocOf(st), NewRule(s.toks), s.toks)
            IN IF r.loaded THEN Eff([st EXCEPT !.blocks[s.i].rules = InsertAt(@, s.r, r)], FALSE, "load")
               ELSE Eff(st, TRUE, "load")
      [] s.op = "rmrule" -> Eff([st EXCEPT !.blocks[s.i].rules = RemoveAt(@, s.r)], FALSE, "load")
=============================================================================
