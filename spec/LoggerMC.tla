------------------------------ MODULE LoggerMC ------------------------------
EXTENDS Logger, TLC
CONSTANTS MaxSteps, Msgs2
Who == 1..2
F == 1..2
Messages == IF Msgs2 THEN {<<"a">>, <<"b">>, <<"a", "", "b">>} ELSE {<<"a">>, <<"b", "a">>}
VARIABLES L, log, notes, screen, warned, hist
vars == <<L, log, notes, screen, warned, hist>>
Configs == {c \in [Who -> [file : 0..2, print : BOOLEAN, ms : BOOLEAN]] :
              /\ c[1].file # c[2].file \/ c[1].file = 0
              /\ c[1].ms = FALSE /\ c[2].file \in {0, 2} /\ c[1].file \in {0, 1}}
Init == /\ \E c \in Configs : L = [w \in Who |-> Fresh(c[w])]
        /\ log = NoLines(F) /\ notes = NoLines(F) /\ screen = <<>> /\ warned = [w \in Who |-> <<>>] /\ hist = <<>>
Room == Len(hist) < MaxSteps
Do(a) == /\ LET e == Effect(F, L, a) IN
            /\ log' = [f \in F |-> log[f] \o e.log[f]]
            /\ notes' = [f \in F |-> notes[f] \o e.notes[f]]
            /\ screen' = screen \o e.screen
            /\ warned' = [warned EXCEPT ![a.who] = @ \o e.warned]
         /\ L' = After(L, a)
         /\ hist' = Append(hist, a)
A(act, w, m, s) == [act |-> act, who |-> w, lines |-> m, stamp |-> s, blank |-> TRUE]
Msg(w) == Room /\ \E m \in Messages, s \in BOOLEAN : Do(A("msg", w, m, s))
Div(w) == Room /\ \E s \in BOOLEAN : Do(A("div", w, <<"">>, s))
Queue(w) == Room /\ \E m \in Messages : Do(A("queue", w, m, FALSE))
Warn(w) == Room /\ \E m \in Messages : Do(A("warn", w, m, FALSE))
Flush(w) == Room /\ Do(A("flush", w, <<"">>, FALSE))
Next == \/ \E w \in 1..2 : Msg(w)
        \/ \E w \in 1..2 : Queue(w)
        \/ \E w \in 1..2 : Warn(w)
        \/ \E w \in 1..2 : Flush(w)
        \/ Div(1)
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Texts(s) == [i \in DOMAIN s |-> s[i].text]
Logged(w) == LET mine == SelectSeq(hist, LAMBDA a : a.who = w /\ a.act \in {"msg", "div"})
             IN Flat([i \in DOMAIN mine |-> IF mine[i].act = "div" THEN <<DivText>> ELSE mine[i].lines])
Given(w) == {hist[i].lines : i \in {j \in DOMAIN hist : hist[j].who = w /\ hist[j].act \in {"queue", "warn"}}}
FirstAt(w, m) == CHOOSE i \in DOMAIN hist : /\ hist[i].who = w /\ hist[i].act \in {"queue", "warn"} /\ hist[i].lines = m
                    /\ \A j \in 1..(i - 1) : ~(hist[j].who = w /\ hist[j].act \in {"queue", "warn"} /\ hist[j].lines = m)
(* nothing lost, order kept, only one's own file *)
Complete == \A w \in Who : L[w].cfg.file # 0 => Texts(log[L[w].cfg.file]) = Logged(w)
Foreign == \A f \in F : (\A w \in Who : L[w].cfg.file # f) => log[f] = <<>> /\ notes[f] = <<>>
(* every warning reaches the caller exactly once, in order of first occurrence, or is still queued *)
Once == \A w \in Who : \A i, j \in DOMAIN warned[w] : i # j => warned[w][i] # warned[w][j]
Arrives == \A w \in Who : Given(w) = {warned[w][i] : i \in DOMAIN warned[w]} \cup {L[w].queue[i] : i \in DOMAIN L[w].queue}
Ordered == \A w \in Who : \A i, j \in DOMAIN warned[w] : i < j => FirstAt(w, warned[w][i]) < FirstAt(w, warned[w][j])
Kept == \A w \in Who : L[w].cfg.file # 0 => notes[L[w].cfg.file] = Flat(warned[w])
AtOnce == hist # <<>> /\ hist[Len(hist)].act \in {"warn", "flush"} => L[hist[Len(hist)].who].queue = <<>>
Inv == Complete /\ Foreign /\ Once /\ Arrives /\ Ordered /\ Kept /\ AtOnce
=============================================================================
