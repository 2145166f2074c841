------------------------------ MODULE SystemId ------------------------------
(***************************************************************************)
(* Constraint systems that differ in one place: the digest a proof is bound  *)
(* to tells them apart.  A behaviour edits a system step by step.            *)
(***************************************************************************)
EXTENDS Virtual, Json, TLC
CONSTANTS Systems, MaxEdits
VARIABLES base, sy, n
Other(d) == IF d = "push" THEN "pull" ELSE "push"
Cut(s) == SubSeq(s, 1, Len(s) - 1)
Add16(v) == IF v < 65535 THEN v + 1 ELSE 2
Edit(S) ==
   {[S EXCEPT !.nch = @ + 1]}
   \cup UNION {{[S EXCEPT !.tabs[t] = [k |-> "po2"]], [S EXCEPT !.tabs[t] = [k |-> "arb"]], [S EXCEPT !.tabs[t] = [k |-> "fix", log |-> 3]], [S EXCEPT !.tabs[t] = [k |-> "fix", log |-> 5]]} : t \in 1..Len(S.tabs)}
   \cup {[S EXCEPT !.nz = Append(@, i)] : i \in {j \in 1..Len(S.nodes) : S.nodes[j].t = "com"}}
   \cup {[S EXCEPT !.nz = SubSeq(@, 2, Len(@))]}
   \cup UNION {{[S EXCEPT !.fl[f].mult = @ + 1], [S EXCEPT !.fl[f].dir = Other(@)], [S EXCEPT !.fl[f].ch = @ + 1], [S EXCEPT !.fl[f].cols = RevSeq(@)],
                [S EXCEPT !.fl[f].cols = Append(@, [c |-> 3])], [S EXCEPT !.fl[f].sel = <<>>], [S EXCEPT !.fl[f].sel = Append(@, 1)], [S EXCEPT !.fl[f].lv = @ + 1],
                [S EXCEPT !.fl[f].tab = (@ % Len(S.tabs)) + 1], [S EXCEPT !.fl = Cut(@)]} : f \in 1..Len(S.fl)}
   \cup UNION {UNION {IF "c" \in DOMAIN S.fl[f].cols[k] THEN {[S EXCEPT !.fl[f].cols[k].c = Add16(@)]} ELSE {[S EXCEPT !.fl[f].cols[k].id = (@ % Len(S.nodes)) + 1]} : k \in 1..Len(S.fl[f].cols)} : f \in 1..Len(S.fl)}
   \cup UNION {{[S EXCEPT !.exps[e].bits = RevSeq(@)], [S EXCEPT !.exps[e].bits = Cut(@)], [S EXCEPT !.exps = Cut(@)],
                IF "c" \in DOMAIN S.exps[e].base THEN [S EXCEPT !.exps[e].base.c = Add16(@)] ELSE [S EXCEPT !.exps[e].base = [c |-> 3]]} : e \in 1..Len(S.exps)}
   \cup UNION {{[S EXCEPT !.cons[c].ids = RevSeq(@)], [S EXCEPT !.cons[c].lv = @ + 1], [S EXCEPT !.cons = Cut(@)], [S EXCEPT !.cons[c].comps = Cut(@)],
                [S EXCEPT !.cons[c].comps[1] = RevSeq(@)], [S EXCEPT !.cons[c].comps[1][1].c = Add16(@)], [S EXCEPT !.cons[c].comps[1] = Append(@, [c |-> 9, e |-> <<1>>])],
                [S EXCEPT !.cons[c].comps[1][1].e = Append(@, 1)]} : c \in 1..Len(S.cons)}
   \cup UNION {LET nd == S.nodes[i] IN
        (CASE nd.t = "com" -> {[S EXCEPT !.nodes[i].kind = k] : k \in {"b1", "b8", "b16"}}
           [] nd.t = "shift" -> {[S EXCEPT !.nodes[i].var = v] : v \in {"circ", "left", "right"}} \cup {[S EXCEPT !.nodes[i].o = IF @ > 1 THEN @ - 1 ELSE @ + 1]}
           [] nd.t = "lc" -> {[S EXCEPT !.nodes[i].off = Add16(@)]} \cup {[S EXCEPT !.nodes[i].in[k].c = Add16(@)] : k \in 1..Len(nd.in)}
           [] nd.t \in {"proj", "projl"} -> {[S EXCEPT !.nodes[i].seed = @ + 1]}
           [] nd.t = "zp" -> {[S EXCEPT !.nodes[i].nz = IF @ = 0 THEN 1 ELSE 0], [S EXCEPT !.nodes[i].s = IF @ = 0 THEN 1 ELSE 0]}
           [] nd.t = "comp" -> {[S EXCEPT !.nodes[i].in = RevSeq(@)], [S EXCEPT !.nodes[i].c[1].c = Add16(@)]}
           [] nd.t = "st" -> {[S EXCEPT !.nodes[i].c[1].c = Add16(@)]}
           [] nd.t = "tr" -> {[S EXCEPT !.nodes[i].p.v = Add16(@)], [S EXCEPT !.nodes[i].p.k = "const"], [S EXCEPT !.nodes[i].p.k = "powers"]}
           [] OTHER -> {}) : i \in 1..Len(S.nodes)}
Init == \E i \in 1..Len(Systems) : base = i /\ sy = Systems[i].sy /\ n = 0
Next == n < MaxEdits /\ n' = n + 1 /\ base' = base /\ sy' \in Edit(sy) \ {sy}
Spec == Init /\ [][Next]_<<base, sy, n>>
SystemsDiffer == n = 1 => sy # Systems[base].sy
Emit == PrintT(ToJson([sy |-> sy, lvl |-> [i \in 1..Len(sy.nodes) |-> IF sy.nodes[i].t = "tr" THEN 4 ELSE Lvl(sy.nodes, i)],
          pts |-> [i \in 1..Len(sy.nodes) |-> IF sy.nodes[i].t \in {"proj", "projl"} THEN Pt(sy.nodes[i].seed, sy.nodes[i].d) ELSE <<>>]]))
============================================================================
