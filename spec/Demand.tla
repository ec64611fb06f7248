------------------------------- MODULE Demand -------------------------------
(* Which demand drives a component (properties C04, C08).                   *)
(*                                                                          *)
(* sample: sequence of columns [type, loc, dir, v], v = one integer per     *)
(* realization. term: [type, sub, off, directional] where type.sub is the   *)
(* demand type and its subtype ("" for none). opts: [offset, mult] as       *)
(* sequences of [type, v]; multipliers are in tenths.                       *)
EXTENDS Integers, Sequences, FiniteSets

Lookup(tab, t) == {i \in DOMAIN tab : tab[i].type = t}
EdpType(term) == IF term.sub = "" THEN term.type ELSE term.type \o "_" \o term.sub

LocOf(term, loc, opts) ==
  LET o == Lookup(opts.offset, term.type)
  IN loc + term.off + (IF o = {} THEN 0 ELSE opts.offset[CHOOSE i \in o : TRUE].v)

ColsFor(sample, term, loc, dir, opts) ==
  LET l == LocOf(term, loc, opts)
      any == (term.directional = 0) \/ dir = 0
  IN {c \in DOMAIN sample :
        /\ sample[c].type = EdpType(term) /\ sample[c].loc = l
        /\ (any \/ sample[c].dir = dir)}

Multiplier(term, dir, opts) ==
  IF term.directional = 1 /\ dir # 0 THEN 10
  ELSE LET own == Lookup(opts.mult, EdpType(term))
           all == Lookup(opts.mult, "ALL")
       IN IF own # {} THEN opts.mult[CHOOSE i \in own : TRUE].v
          ELSE opts.mult[CHOOSE i \in all : TRUE].v

Available(sample, term, loc, dir, opts) ==
  /\ LocOf(term, loc, opts) >= 0
  /\ ColsFor(sample, term, loc, dir, opts) # {}

Largest(S) == CHOOSE x \in S : \A y \in S : y <= x

(* demand of one term in realization r, in tenths *)
TermValue(sample, term, loc, dir, opts, r) ==
  Largest({sample[c].v[r] : c \in ColsFor(sample, term, loc, dir, opts)}) * Multiplier(term, dir, opts)

(* expressions over the terms, value in hundredths *)
Evaluate(op, x) ==
  CASE op = "X1" -> x[1] * 10
    [] op = "X1 + X2" -> (x[1] + x[2]) * 10
    [] op = "X1 - X2" -> (x[1] - x[2]) * 10
    [] op = "X2 - X1" -> (x[2] - x[1]) * 10
    [] op = "X1 * X2" -> x[1] * x[2]
    [] op = "2*X1 + X2" -> (2 * x[1] + x[2]) * 10
    [] op = "X1^2" -> x[1] * x[1]
    [] op = "X1**2 + X2" -> x[1] * x[1] + x[2] * 10
    [] op = "X1 + X2 - X3" -> (x[1] + x[2] - x[3]) * 10
    [] op = "(X1 - X2) * X3" -> (x[1] - x[2]) * x[3]
=============================================================================
